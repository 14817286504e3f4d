"""C15: MPI helpers."""
from concurrent.futures import ThreadPoolExecutor

import gen_array as G

CFG = """CONSTANTS
 MaxR = %d
 MaxC = %d
 Sizes = {%s}
 Kinds <- %s
SPECIFICATION Spec
INVARIANTS NoDeadlock Outcomes NothingLeft HeldBack
"""
DT = ["f8", "f4", "i8", "i4", "u2", "c8", "c16", ">f8", ">i4"]


def blocks(rng, sh, p):
    """p disjoint boxes (some empty) of an array of this shape."""
    boxes = [([0] * len(sh), list(sh))]
    tries = 0
    while len(boxes) < p and tries < 20:
        tries += 1
        i = rng.randrange(len(boxes))
        st, n = boxes[i]
        d = rng.randrange(len(sh))
        c = rng.randint(0, n[d])
        a, b = list(n), list(n)
        a[d], b[d] = c, n[d] - c
        s2 = list(st)
        s2[d] += c
        boxes[i] = (st, a)
        boxes.append((s2, b))
    while len(boxes) < p:
        boxes.append(([0] * len(sh), [0] * len(sh)))
    if rng.random() < .4:           # leave something out
        i = rng.randrange(p)
        st, n = boxes[i]
        if n[0]:
            boxes[i] = (st, [n[0] - 1, *n[1:]])
    rng.shuffle(boxes)
    return boxes


def op(rng, p, world, kind):
    e = dict(op=kind, explicit=rng.random() < .5, default=rng.random() < .4, nocomm=rng.random() < .3)
    if kind == "map":
        n = rng.choice([0, 1, 2, 3, p, p + 1, 5, 8, 13])
        e.update(items=[rng.randint(-9, 30) for _ in range(n)], root=rng.choice([-1, -1, rng.randrange(p)]),
                 method=rng.choice(["", "con", "alt", "rand"]), kind=rng.choice(["list", "list", "tuple", "array"]))
        if p == 1:
            e["root"] = rng.choice([-1, 0])
    elif kind == "transpose":
        sh = G.rshape(rng, lo=0, hi=6, cap=60)
        while len(sh) < 2:
            sh = [*sh, rng.randint(0, 6)]
        sh = sh[:4]
        e.update(shape=sh, data=list(range(1, G.size(sh) + 1)), extra=rng.choice([0, 0, 1, 2]), dtype=rng.choice(DT),
                 layout=rng.choice(["C", "C", "F", "strided"]), aslist=rng.random() < .4)
    elif kind == "gather":
        sh = G.rshape(rng, lo=1, hi=5, cap=60)[:3]
        parts = [dict(start=s, shape=n, data=[1000 * (i + 1) + j for j in range(G.size(n))])
                 for i, (s, n) in enumerate(blocks(rng, sh, p))]
        e.update(shape=sh, data=list(range(1, G.size(sh) + 1)), parts=parts, root=rng.randrange(p), dtype=rng.choice([d for d in DT if d != "u2"]),
                 layout=rng.choice(["C", "C", "F", "strided"]), glayout=rng.choice(["C", "C", "F", "strided"]), everywhere=rng.random() < .5)
    elif kind == "reduce":
        e.update(f=rng.choice(["sum", "sum", "prod", "max", "min"]), vals=[rng.randint(-8, 9) for _ in range(p)],
                 kind=rng.choice(["int", "int", "float", "npint", "bool", "npbool"]))
        if "bool" in e["kind"]:
            e.update(vals=[rng.randint(0, 1) for _ in range(p)], f=rng.choice(["sum", "max", "min"]) if e["kind"] == "bool" else rng.choice(["max", "min"]))
    elif kind == "bcast":
        e.update(vals=[[r, rng.randint(0, 99)] for r in range(p)], root=rng.randrange(p))
    elif kind == "write":
        dt, w = rng.choice([("u1", 1), ("<i2", 2), ("<i4", 4), ("<f8", 8), (">i4", 4)])
        n = rng.choice([rng.randint(0, 8)] * 12 + [rng.randint(600, 9000)])
        b = [rng.randint(0, 255) for _ in range(n * w)]
        f = [rng.randint(0, 255) for _ in range(rng.choice([0, 5, 40, 90]))]
        off = rng.choice([0, 1, 8, 30, 60])
        e.update(dtype=dt, bytes=b, file=f, off=off, size=rng.choice([len(b), len(b), len(b) + 8, max(0, len(b) - 1), n]),
                 shape=[2, n // 2] if n % 2 == 0 and n and rng.random() < .4 else [], layout=rng.choice(["C", "bytes"]), who=rng.randrange(p))
        if e["size"] == 0 and n:
            e["size"] = 1
    elif kind == "rows":
        sh = G.rshape(rng, lo=0, hi=6, cap=60)[:3]
        e.update(shape=sh, data=list(range(1, G.size(sh) + 1)), dtype=rng.choice(["f8", "f4", "i8", "i4", "u2", ">f8"]), other=rng.random() < .5,
                 layout=rng.choice(["C", "C", "F", "strided"]))
    elif kind == "cpu":
        e.update(ncpu=rng.choice([1, 2, 3, 4, 7, 8, 16, 64]))
    elif kind == "alloc":
        av = rng.choice([100, 101, 1000])
        e.update(scope=rng.choice(["shared", "process", "global"]), avail=av, req=[rng.choice([0, 10, av // p - 1, av // p, av // p + 1, av - 1, av, av + 1]) for _ in range(p)])
        if e["scope"] == "global":
            e["req"] = [e["req"][0]] * p
    elif kind == "log":
        e.update(addinfo=rng.random() < .7, lev0=rng.choice([10, 20, 30]), levall=rng.choice([10, 20, 30, 40]), default=rng.random() < .4 and p == world,
                 recs=[dict(level=rng.choice([5, 10, 20, 30, 40]), rank=rng.choice([-1, -1, 0, 1, 3])) for _ in range(6)])
    elif kind in ("active", "active_comm"):
        procs = rng.sample(range(p), rng.randint(1, p))
        if kind == "active" and 0 not in procs:
            procs.append(0)
        e.update(procs=procs, noise=rng.choice([0, 0, 1, 2]))
    return e


KINDS = ["map", "map", "transpose", "transpose", "gather", "gather", "reduce", "bcast", "write", "rows", "cpu", "alloc", "log"]


def judge(c, k, w, o):
    p = k["p"]
    if any(x is None or "driver_exc" in x for x in o[:p]):
        return c.violation("driver", dict(case=k, got=o))
    logs = []
    for j, e in enumerate(k["ops"]):
        kind = e["op"]
        small = dict(p=p, op=e, np=len(o))
        for r in range(p):
            g, want = o[r][j], w[j][r]
            if isinstance(g, dict) and "exc" in g:
                c.violation(f"{kind}: raised", dict(case=small, rank=r, expected=want, got=g))
                continue
            if kind == "map":
                c.compare("map: results", dict(small, rank=r), want, dict(none=g["none"], v=g["v"]))
            elif kind == "transpose":
                c.compare("transpose: block", dict(small, rank=r), want, dict(shape=g["shape"], data=g["data"]))
                c.compare("transpose: input untouched and not shared", dict(small, rank=r), [True, True], [g["untouched"], g["own"] or G.size(e["shape"]) == 0])
            elif kind == "gather":
                if g["data"] is not None:
                    c.compare("gather: global array", dict(small, rank=r), want, g)
            elif kind == "rows":
                c.compare("rows: dataset", dict(small, rank=r), want, dict(shape=g["shape"], data=g["data"]))
                c.compare("rows: other dataset", dict(small, rank=r), True, g["other"])
            elif kind == "active":
                c.compare("active: communicator", dict(small, rank=r), want, dict(pos=g["pos"], n=g["n"]))
                if r == 0:
                    logs.append((small, dict(p=p, procs=e["procs"], log=g["log"])))
            else:
                c.compare(kind, dict(small, rank=r), want, g)
        if kind == "map" and all("exc" not in o[r][j] for r in range(p)):
            c.compare("map: each item once", small, sorted(e["items"]), sorted(x for r in range(p) for x in o[r][j]["seen"]))
    return logs


def run(c):
    c.exts("truncate")
    rng = c.rng
    sets = []
    for np_, n in ((1, c.pick(60, 400)), (3, c.pick(90, 600)), (4, c.pick(110, 700))):
        cs = []
        for i in range(n):
            p = rng.randint(1, np_)
            whole = p == np_ and np_ > 1
            kinds = [rng.choice(KINDS + (["active", "active_comm"] * 2 if whole else [])) for _ in range(rng.randint(2, 6))]
            cs.append(dict(id=i, p=p, slow=rng.random() < .5, ops=[op(rng, p, np_, x) for x in kinds]))
        sets.append((np_, cs))
    progs = [x for _, cs in sets for x in cs]
    with ThreadPoolExecutor(3) as ex:
        f1 = ex.submit(c.model, "MC_MpiTools", CFG % (c.pick(2, 4), c.pick(3, 4), "1, 2", "Pairs"), workers=2, min_states=5000,
                       must_cover=["DoBarrier"])
        f2 = ex.submit(c.model, "MC_MpiTools", CFG % (c.pick(1, 2), 2, "3", "Singles" if not c.thorough else "Pairs"), workers=3, min_states=5000,
                       timeout=c.pick(800, 7000))
        want = c.evaluate("MpiTools", progs)
        f1.result()
        f2.result()
    i = 0
    logs = []
    for np_, cs in sets:
        for k, o in zip(cs, c.drive("mpitools", cs, np=np_, case_timeout=40)):
            o = o if isinstance(o, list) and np_ > 1 else [o]
            c.validated()
            logs += judge(c, k, want[i], o) or []
            i += 1
    for (k, x), v in zip(logs, c.evaluate("MpiTools", [x for _, x in logs], op="JudgeActive")):
        if not v["ok"]:
            c.violation("active: ranks out of step", dict(case=k, got=x))
    c.cov["active_rounds"] = len(logs)
    c.sample(dict(case=progs[70], expected=want[70]))
    c.assumptions += ["all ranks on one node", "HDF5 without parallel support", "rank 0 is one of the active processes"]
