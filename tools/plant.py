"""Validate a planted bug in a scratch copy of /repo and keep it under seeded/.

usage: plant.py DIR            DIR holds spec.json {id, property, needs, what_it_breaks} , edit.py
                               (edits files under the cwd, the scratch copy) and demo.py
Checks that the repository's stable tests still pass and that the demo fails with the change only.
Prints whether the property's check catches it (CAPUT_REPO points at the scratch copy).
"""
import json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = os.path.abspath(sys.argv[1])
spec = json.load(open(os.path.join(src, "spec.json")))
sid = spec["id"]
cp = f"/tmp/plant-{sid}"
np_ = spec.get("np", 1)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


DEMO = """#!/bin/bash
# exits 0 on the unchanged tree, nonzero with the change
. /opt/vp/env.sh
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export PYTHONPATH=$PWD TMPDIR=$W OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore
cd "$W"
%s timeout 200 %s$PY "$HERE/demo.py"
"""
mpi = ("mpirun --oversubscribe --bind-to none --mca btl self,vader --mca plm isolated "
       f"--mca orte_tmpdir_base \"$W\" -np {np_} ") if np_ > 1 else ""


def run_demo(where, d):
    return sh(f"bash {d}/demo.sh", cwd=where)


ok = True
shutil.rmtree(cp, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", cp], check=True)
try:
    p = sh(f"python3 {src}/edit.py", cwd=cp)
    if p.returncode:
        sys.exit("edit failed: " + p.stdout)
    diff = sh("git diff", cwd=cp).stdout
    assert diff.strip(), "no change"
    d = os.path.join(VERIF, "seeded", sid)
    tmpd = f"/tmp/plantdemo-{sid}"
    shutil.rmtree(tmpd, ignore_errors=True)
    os.makedirs(tmpd)
    shutil.copy(os.path.join(src, "demo.py"), tmpd)
    open(tmpd + "/demo.sh", "w").write(DEMO % ("", mpi))
    if re.search(r"\.(pyx|hpp|pxd|h)$", diff.split("\n")[0]):
        b = open("/opt/vp/build.sh").read().replace("cd /repo", "cd " + cp)
        b = "\n".join(l for l in b.split("\n") if "clean_stale" not in l and "check_package" not in l)
        p = sh(b, executable="/bin/bash")
        if p.returncode:
            sys.exit("build failed " + p.stdout[-2000:])
    a = run_demo("/repo", tmpd)
    b = run_demo(cp, tmpd)
    print("demo unchanged rc", a.returncode, "changed rc", b.returncode)
    if a.returncode != 0 or b.returncode == 0:
        print(a.stdout[-1500:], "\n-----\n", b.stdout[-1500:])
        ok = False
    else:
        print("  ", b.stdout.strip().split("\n")[-1][:200])
    if ok and "--notest" not in sys.argv:
        t = open("/opt/vp/test.sh").read().replace("/repo", cp).replace("bash /opt/vp/build.sh", "true")
        t = t.replace("export TMPDIR=", f"export PYTHONPATH={cp}; export TMPDIR=", 1).replace(
            "PYTHONPATH=/opt/vp/plugins", f"PYTHONPATH={cp}:/opt/vp/plugins")
        open(f"/tmp/plant-test-{sid}.sh", "w").write(t)
        outj = f"/tmp/plant-out-{sid}.json"
        p = sh(f"bash /tmp/plant-test-{sid}.sh {outj}")
        tail = p.stdout.strip().split("\n")[-1]
        print("tests:", tail)
        base = json.load(open("/opt/vp/BASELINE.json"))
        res = json.load(open(outj))
        stable = base.get("tests") or base.get("passed") or base.get("stable") or base
        passed = set(res.get("passed", []))
        stable = set(stable if isinstance(stable, list) else stable)
        miss = [x for x in stable if x not in passed]
        if miss:
            print("BROKEN TESTS", miss[:5], len(miss))
            ok = False
        os.unlink(f"/tmp/plant-test-{sid}.sh")
        os.unlink(outj)
    if ok:
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        shutil.copy(tmpd + "/demo.sh", d)
        shutil.copy(tmpd + "/demo.py", d)
        json.dump(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["what_it_breaks"]),
                  open(d + "/meta.json", "w"), indent=1)
        if "--nocheck" not in sys.argv:
            p = sh(f"CAPUT_REPO={cp} python3 checks/run.py {spec['property']}", cwd=VERIF)
            print("CAUGHT" if p.returncode == 1 else f"MISSED rc={p.returncode}", p.stdout.strip()[-400:])
    shutil.rmtree(tmpd, ignore_errors=True)
finally:
    shutil.rmtree(cp, ignore_errors=True)
print("KEPT" if ok else "REJECTED", sid)
