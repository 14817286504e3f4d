"""Source of /verif/MANIFEST.json (run: python3 tools/mkmanifest.py)."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ model checked with TLC; "
CHECKS = {}


def check(pid, technique, note, level="model_checking"):
    CHECKS[pid] = (T + technique, note, level)


PIPE_NOTE = ("TLC exhausts every 2- and 3-task pipeline over 15 task shapes under free scheduling; each model program and "
             "seeded random larger ones (up to 6 tasks) run in the real Manager and the recorded calls are judged by the "
             "spec. Assumes scripted deterministic tasks; trusts TLC and the recording driver.")
check("C01", "recorded call traces of real pipeline runs judged by the spec (trace validation)", PIPE_NOTE)
check("C02", "recorded call traces of real pipeline runs judged by the spec (trace validation)", PIPE_NOTE)
check("C03", "model behaviours replayed: real execution order compared with the spec's scheduler, on 1 and 2 MPI ranks", PIPE_NOTE)

exec(open(os.path.join(ROOT, "tools", "manifest_checks.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "manifest_checks.py")) else None

NA = globals().get("NA", {})
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
man = dict(version=1, setup_cmd="sh setup.sh",
           checks=[dict(property=p, quick_cmd=f"VERIF_TIER=quick python3 checks/run.py {p}",
                        thorough_cmd=f"VERIF_TIER=thorough python3 checks/run.py {p}",
                        evidence_file=f"evidence/{p}.json", technique=CHECKS[p][0],
                        level=CHECKS[p][2], level_note=CHECKS[p][1]) for p in props if p in CHECKS],
           not_applicable=[dict(property=p, reason=NA.get(p, "the check for this property is not built yet"))
                           for p in props if p not in CHECKS],
           notes="One entry point, checks/run.py <id>; spec/ holds the TLA+ modules, drivers/ the programs that run "
                 "the real code. known_findings.json lists findings; no hooks in /repo.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
