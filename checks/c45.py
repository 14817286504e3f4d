"""C45: the array cache."""
import math

CFG = """CONSTANTS
 MaxBytes = 8
 Keys = {"a", "b", "c"}
 Sizes = {0, 3, 4, 8, 9}
 Steps = %d
SPECIFICATION Spec
INVARIANTS Budget OnceEach Newest Oldest
PROPERTIES OnlyNeeded
"""
DT = {"u1": 1, "i2": 2, "f4": 4, "f8": 8, "c16": 16, "S3": 3, "U2": 8, "i4,f8": 12}


def case(rng):
    mx = rng.choice([0, 16, 64, 100, 256, 1000])
    keys = ["a", "b", "c", "d-1", "e", "f"][: rng.randint(2, 6)]
    ops, n = [], 0
    for _ in range(rng.randint(6, 40)):
        k = rng.choice(["set"] * 6 + ["lookup"] * 4 + ["get", "get", "has", "has", "del", "pop", "popitem"] + (["clear"] if rng.random() < .1 else []))
        o = dict(op=k, k=rng.choice(keys))
        if k == "set":
            n += 1
            dt = rng.choice(sorted(DT))
            nd = rng.choice([0, 1, 1, 2, 3])
            lim = max(1, int((mx or 8) * rng.choice([.2, .4, .6, 1, 1.3]) / DT[dt]))
            shape, left = [], lim
            for d in range(nd):
                s = rng.randint(0 if rng.random() < .1 else 1, left) if d < nd - 1 else left
                shape.append(s)
                left = left // s if s else left
            o.update(n=math.prod(shape) * DT[dt], dtype=dt, shape=shape, view=rng.random() < .3, id=n,
                     bad=rng.random() < .04, how=rng.choice(["item", "item", "update"]))
        ops.append(o)
    ops += [dict(op="popitem", k="a")] * (len(keys) + 1)
    return dict(max=mx, ops=ops)


def run(c):
    c.exts()
    c.model("MC_LruCache", CFG % c.pick(4, 5), workers=6, min_states=2000, must_cover=["SetIt", "LookIt", "DelIt", "PopIt"])
    cases = [case(c.rng) for _ in range(c.pick(600, 6000))]
    want = c.evaluate("LruCache", cases)
    got = c.drive("lrucache", cases)
    n = 0
    for k, w, o in zip(cases, want, got):
        c.validated()
        if isinstance(o, dict):
            c.violation("driver", dict(case=k, got=o))
            continue
        for j, (x, y) in enumerate(zip(w, o)):
            n += 1
            x = dict(x, held=sorted(x["held"]))
            if x != y:
                c.violation("after " + k["ops"][j]["op"], dict(case=dict(max=k["max"], ops=k["ops"][:j + 1]), expected=x, got=y))
                break
    c.cov.update(operations=n)
    c.sample(dict(case=cases[0], expected=want[0][:6]))
    c.assumptions += ["one thread uses a cache at a time"]
