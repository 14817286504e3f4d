"""C46: zipping zarr containers."""
CFG = """CONSTANTS
 N = %d
 R = %d
SPECIFICATION Spec
INVARIANTS NothingLost OnePerHost Complete
PROPERTIES EachTaken
"""


def case(rng, np):
    mode = rng.choice(["zip", "save"])
    fail = np == 1 and rng.random() < .5
    n = rng.randint(0, 4 if np == 1 else 5)
    tags = rng.sample(["a", "b b", "c'c", "$HOME", "x;y", "d&e", "q*", "sub/e"], 6)
    pre, num = rng.choice(["", "", "out/", "p q/"]), rng.random() < .3
    ls = []
    for k in range(n):
        ok = not (fail and mode == "zip" and rng.random() < .15)
        tag = tags[k] if rng.random() < .6 else ""
        ls.append(dict(ok=ok, isfile=rng.random() < .5, fate=rng.choice(["fail", "part"]) if fail and rng.random() < .35 else "ok", old=rng.random() < .25,
                       tag=tag.replace("$", "S"), name="", slow=rng.random() < .2))
    case = dict(mode=mode, np=np, remove=rng.random() < .6, hosts=[rng.randint(1, np) for _ in range(np)], list=ls, pre=pre, num=num)
    for k, e in enumerate(ls):
        if mode == "zip":
            e["name"] = pre + "z%d%s" % (k, rng.choice(["", " x"])) + (".zarr" if e["ok"] or rng.random() < .5 else ".dat")
    return case


def run(c):
    c.exts("truncate")
    c.model("MC_ZarrZip", CFG % c.pick((3, 2), (3, 3)), workers=6, min_states=4000, must_cover=["Take", "Next1", "Save", "Write1", "Ends", "Rm", "Fails", "Wait"])
    n = 0
    for np, m in ((1, c.pick(160, 1500)), (3, c.pick(40, 300)), (4, c.pick(20, 200))):
        cases = [case(c.rng, np) for _ in range(m)]
        want = c.evaluate("ZarrZip", cases, op="RunZip")
        for k, w in zip(cases, want):
            k["names"] = w["names"]
            k["plan"] = {a + ".zip": e["fate"] if e["fate"] != "ok" else "slow" if e["slow"] else "ok" for a, e in zip(w["names"], k["list"])}
        got = c.drive("zarrzip", cases, np=np, timeout=800)
        good = []
        for k, w, obs in zip(cases, want, got):
            c.validated()
            o = obs[0] if np > 1 else obs
            exc = [bool(x.get("exc", True)) for x in (obs if np > 1 else [obs])]
            if "disk" not in o or exc != [w["err"]] * np:
                c.violation("outcome", dict(case=k, expected=w, got=o, exc=exc, np=np))
                continue
            if o["disk"] != w["disk"] or any(not x.endswith(".dat") and x not in k["names"] for x in o["left"]):
                c.violation("what is on disk", dict(case=k, expected=w["disk"], got=o, np=np))
                continue
            n += len(k["list"])
            if not w["err"]:
                nm = {a + ".zip": j + 1 for j, a in enumerate(w["names"])}
                good.append((k, o, dict(n=len(k["list"]), hosts=k["hosts"], jobs=[dict(k=nm.get(x["dest"], 0), r=x["r"]) for x in o["log"]])))
        ok = c.evaluate("ZarrZip", [g[2] for g in good], op="JobsOK")
        for (k, o, j), v in zip(good, ok):
            if not v:
                c.violation("who zipped what", dict(case=k, got=j, np=np))
        c.sample(dict(case=cases[0], expected=want[0]))
    c.cov.update(zipped=n)
    c.assumptions += ["a stand-in for 7z (not installed) that adds to an existing file, may fail or be slow", "hosts are simulated by host names",
                      "different containers have different names", "a failing job on several ranks is not run (the other ranks wait in MPI)"]
