"""C01, C02, C03: the pipeline manager."""
import gen_pipeline as G

CFG = """CONSTANTS
 N = %d
 Menu = {%s}
 Bases = {%s}
SPECIFICATION Spec
INVARIANTS FIFO Life ChoiceIsLegal EmitProg JudgeAccepts
PROPERTY Termination
"""


def programs(c):
    em = c.path("emit")
    menu = ",".join(map(str, range(1, 16)))
    c.model("MC_Pipeline", CFG % (3, menu, "0"), env=dict(VP_EMIT=em), workers=6, min_states=10000)
    cases = G.menu_cases(c.rng, em, c.pick(600, 4000))
    em2 = c.path("emit2")
    c.model("MC_Pipeline", CFG % (2, menu, "0,3,10"), env=dict(VP_EMIT=em2), workers=6, min_states=1000)
    cases += G.menu_cases(c.rng, em2, c.pick(300, 3000))
    if c.thorough:
        em3 = c.path("emit3")
        c.model("MC_Pipeline", CFG % (4, "1,3,4,5,7,9,10,13", "0"), env=dict(VP_EMIT=em3), workers=8,
                min_states=10000, heap="12g")
        cases += G.menu_cases(c.rng, em3, 4000)
    cases += G.random_cases(c.rng, c.pick(700, 8000))
    c.rng.shuffle(cases)
    return cases


def run(c):
    c.exts("truncate")
    cases = programs(c)
    obs = c.drive("pipeline", cases, timeout=c.pick(300, 1500))
    if c.pid in ("C01", "C02"):
        judged = c.evaluate("Pipeline", [dict(prog=k["prog"], events=o["events"], end=o["end"])
                                         for k, o in zip(cases, obs)], op="JudgeRun")
        for k, o, j in zip(cases, obs, judged):
            if "driver_exc" in o:
                c.violation("driver", dict(case=k, got=o))
                continue
            c.validated()
            if G.nontrivial(o["events"]):
                c.sample(dict(case=k, events=o["events"], end=o["end"]))
            for v in j["v"]:
                if v["prop"] == c.pid:
                    c.violation(v["clause"], dict(case=k, at=v["at"], events=o["events"], end=o["end"], msg=o.get("msg")))
                    break
    else:
        want = c.evaluate("Pipeline", [k["prog"] for k in cases], op="RunProgram")
        for k, o, w in zip(cases, obs, want):
            c.validated()
            if G.nontrivial(o["events"]):
                c.sample(dict(case=k, events=o["events"], end=o["end"]))
            order = [[e["t"], e["stage"]] for e in o["events"]]
            worder = [[e["t"], e["stage"]] for e in w["log"]]
            if order != worder:
                c.violation("execution order", dict(case=k, want=worder, got=order, end=o["end"], msg=o.get("msg")))
        # the same on several ranks, and again
        m = c.pick(120, 600)
        both = c.drive("pipeline", cases[:m], np=2, timeout=400)
        for k, rs, o in zip(cases, both, obs):
            c.validated()
            for r in rs:
                if r["events"] != o["events"]:
                    c.violation("order differs between ranks or reruns", dict(case=k, serial=o["events"], ranks=[x["events"] for x in rs]))
                    break
    c.assumptions += ["task code is deterministic and scripted", "base priorities within +-1e6"]
