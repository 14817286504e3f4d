"""C23: locked file output."""
import itertools

CFG = """CONSTANTS
 N = %d
 Preserve = %s
SPECIFICATION Spec
INVARIANTS Whole AtEnd
"""
N = 3


def cases(c):
    out = []
    for kind, old, stale, fail, pres, rank in itertools.product(
            ("file", "dir", "h5"), (0, 1), (0, 1), (-1, 0, 1, 2, 3), (False, True), (-1, 0, 1)):
        if kind == "h5" and stale:
            pass
        for oldkind in (["file"] if kind != "dir" else (["dir", "emptydir"] if old else ["dir"])):
            k = dict(kind=kind, old=bool(old and oldkind != "emptydir"), oldkind=oldkind, staletmp=bool(stale), fail=fail,
                     preserve=pres, rank=rank, stalelock=c.rng.random() < .2 and rank <= 0, how=c.rng.randrange(6),
                     name=c.rng.choice(["f.h5", "data.zarr", "x y.h5", "noext", ".hidden", "a.b.c"]),
                     relative=c.rng.random() < .3, kill=0)
            out.append(k)
    return out


def view(k, o):
    writer = k["rank"] <= 0
    replaceable = not (k["kind"] == "dir" and k["old"]) or k["fail"] >= 0
    made = k["staletmp"] or k["fail"] >= (2 if k["kind"] == "h5" else 1)
    return dict(old="old" if k["old"] else "none", oldlock=k["stalelock"], writer=writer, preserve=k["preserve"],
                raises=k["fail"] >= 0, replaceable=replaceable, snaps=o["snaps"], hadtmp=bool(made),
                end=o.get("end", dict(final="none", tmp=False, lock=False)), exc=o.get("exc", "none"), killed=o["killed"])


def run(c):
    c.exts("truncate")
    for n in (0, 2, 3):
        for p in ("TRUE", "FALSE"):
            c.model("MC_LockFile", CFG % (n, p), workers=1,
                    must_cover=("Enter", "Raise", "Publish", "Discard", "Unlock", "Crash"), min_states=5)
    cs = cases(c)
    obs = c.drive("lockfile", cs, timeout=c.pick(300, 900))
    # now die at every recorded file-system event of a sample of the runs
    kills = []
    for k, o in zip(cs, obs):
        if "driver_exc" in o or k["rank"] > 0:
            continue
        for e in range(1, o["events"]):
            kills.append(dict(k, kill=e))
    if len(kills) > c.pick(700, 8000):
        kills = c.rng.sample(kills, c.pick(700, 8000))
    kobs = c.drive("lockfile", kills, timeout=c.pick(300, 900))
    allc, allo = cs + kills, obs + kobs
    bad = [i for i, o in enumerate(allo) if "driver_exc" in o]
    for i in bad:
        c.violation("driver", dict(case=allc[i], got=allo[i]))
    good = [i for i in range(len(allc)) if i not in set(bad)]
    res = c.evaluate("LockFile", [view(allc[i], allo[i]) for i in good], op="JudgeRun", jobs=2)
    for i, r in zip(good, res):
        k, o = allc[i], allo[i]
        c.validated()
        c.sample(dict(case=k, snaps=o["snaps"]))
        for b in r["bad"]:
            c.violation(b, dict(case=k, got=o))
            break
        if o.get("extra"):
            c.violation("stray files left", dict(case=k, got=o))
        if o["killed"] and o["after"] not in (("old" if k["old"] else "none"), "new"):
            c.violation("not whole after a crash", dict(case=k, got=o))
    c.cov["crash_points"] = len(kills)
    c.assumptions += ["rename within a directory is atomic (POSIX)", "an existing directory store is not replaced",
                      "no other process uses the same names"]
