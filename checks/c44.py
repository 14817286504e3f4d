"""C44: the multithreaded random generator and the seeds of random tasks."""
CFG = """CONSTANTS
 Threads = %d
 MaxSize = %d
 Calls = %d
 Threshold = 3
SPECIFICATION Spec
INVARIANTS AllSet Fresh Reproducible Covered
PROPERTIES Ends
"""


def shape(rng, big):
    """A shape with fewer than 1000 elements or with more."""
    r = rng.random()
    if big:
        if r < .4:
            return [rng.choice([1000, 1000, 1001, 1003, 1500, 2047, 4096, 6007])]
        if r < .7:
            return rng.choice([[40, 25], [25, 41], [2, 500], [1000, 1], [1, 1013], [33, 37]])
        return rng.choice([[10, 10, 10], [3, 20, 25], [1, 1, 1000], [7, 11, 13]])
    return rng.choice([[999], [0], [1], [5], [33, 30], [3, 3, 3], [500], [4, 0], [], [0, 2000], [100]])


def call(rng, g, threads):
    m = rng.choice(["random", "random", "random", "standard_normal", "standard_normal", "integers", "integers", "uniform", "normal", "poisson", "power",
                    "exponential", "gamma"])
    c = dict(g=g, method=m, pos=[], kw={}, sizeform="none", size=[], sizeint=False, dtypeform="none", dtype="", dtname=rng.randint(0, 2), out="none", outshape=[],
             outdtype="f8", outwrite=True, outhow="c", extra=False, arrays=False, invalid=False, nonepos=False)
    big = rng.random() < .75
    sh = shape(rng, big)
    if rng.random() < .9:
        c["size"] = sh
        c["sizeform"] = rng.choice(["kw", "kw", "pos"])
        c["sizeint"] = len(sh) == 1 and rng.random() < .5
    names, allpos = [], False
    if m == "integers":
        lo = rng.choice([0, 0, -5, 3])
        ps = [("low", lo), ("high", lo + rng.choice([1, 2, 7, 100]))]
        if rng.random() < .1:
            ps = [("low", rng.randint(1, 50))]
    elif m in ("uniform", "normal"):
        ps = [("low" if m == "uniform" else "loc", rng.choice([-1.5, 0.0, 2, 10])), ("high" if m == "uniform" else "scale", rng.choice([12.0, 13, 20]))]
        ps = ps[: rng.choice([0, 1, 2, 2, 2])]
        if m == "uniform" and len(ps) == 1 and ps[0][1] >= 1:
            ps = []
    elif m == "poisson":
        ps = [("lam", rng.choice([0.5, 3, 40.0]))][: rng.choice([0, 1, 1])]
    elif m in ("power", "gamma"):
        ps = [("a" if m == "power" else "shape", rng.choice([0.5, 3, 1.0]))]
    elif m == "exponential":
        ps = [("scale", 2.0)]
    else:
        ps = []
    full = {"integers": 2, "uniform": 2, "normal": 2, "poisson": 1, "power": 1, "exponential": 1, "gamma": 2}.get(m, 0)
    if m == "gamma":
        ps += [("scale", 1.5)]
    if rng.random() < .08 and ps and c["sizeform"] != "none" and sh and sh[-1] > 0:
        # parameters given as arrays broadcast against the size
        k = rng.randrange(len(ps))
        c["arrays"] = True
        v = ps[k][1]
        ps[k] = (ps[k][0], dict(arr=[v] * sh[-1], t="i8" if m == "integers" else "f8"))
    elif rng.random() < .05 and m in ("normal", "poisson", "integers", "power") and c["sizeform"] != "none":
        c["invalid"] = True
        ps = dict(normal=[("loc", 0.0), ("scale", -1.0)], poisson=[("lam", -2.0)], integers=[("low", 5), ("high", 5)], power=[("a", -1.0)])[m]
    split = rng.randint(0, len(ps)) if rng.random() < .5 else len(ps)
    if c["sizeform"] == "pos":
        if len(ps) < full:
            c["sizeform"] = "kw"
        else:
            split = len(ps)
    if m == "integers" and len(ps) == 1:
        split = 1
    c["pos"] = [v for _, v in ps[:split]]
    c["kw"] = {k: v for k, v in ps[split:]}
    if m in ("random", "standard_normal"):
        if rng.random() < .5:
            c["dtype"] = rng.choice(["f4", "f8"])
            c["dtypeform"] = "pos" if c["sizeform"] == "pos" and rng.random() < .5 else "kw"
        r = rng.random()
        if r < .35:
            c["out"] = "kw"
        elif r < .42 and c["dtypeform"] == "pos":
            c["out"] = "pos"
        elif r < .48:
            c["out"] = "kwnone"
        if c["out"] in ("kw", "pos"):
            c["outshape"] = sh if sh else [1]
            c["outdtype"] = c["dtype"] or "f8"
            c["outhow"] = rng.choice(["c", "c", "c", "f", "strided", "rev", "t"])
            if c["out"] == "kw" and rng.random() < .6:
                c["sizeform"], c["size"] = "none", []
                if c["dtypeform"] == "pos":
                    c["dtypeform"] = "kw"
            elif c["sizeform"] != "none":
                c["size"] = list(c["outshape"])
                c["sizeint"] = c["sizeint"] and len(c["size"]) == 1
                if rng.random() < .15:
                    c["size"] = c["size"] + [1] if rng.random() < .5 else [c["size"][0] + 1] + c["size"][1:]
                    c["sizeint"] = False
            if rng.random() < .08:
                c["outdtype"] = "f4" if c["outdtype"] == "f8" else "f8"
            if rng.random() < .05:
                c["outwrite"], c["outhow"] = False, "c"
    elif m == "integers":
        if rng.random() < .5:
            lim = [v for v in c["pos"] + list(c["kw"].values()) if not isinstance(v, dict)]
            c["dtype"] = rng.choice(["i8", "i4", "i2"] + (["u1", "u4"] if min(lim + [0]) >= 0 else []))
            c["dtypeform"] = "pos" if c["sizeform"] == "pos" and rng.random() < .5 else "kw"
        if c["dtypeform"] == "pos" and rng.random() < .3:
            c["extra"] = True
        elif rng.random() < .2:
            c["kw"]["endpoint"] = rng.random() < .7
            if c["invalid"]:
                c["kw"]["endpoint"] = False
    if c["sizeform"] == "none":
        c["size"] = []
    if c["invalid"] and c["extra"]:
        c["extra"] = False
    n = threads or 8
    order = list(range(n))
    r = rng.random()
    if r < .4:
        rng.shuffle(order)
    elif r < .6:
        order.reverse()
    elif r < .8:
        order = []
    c["order"] = order
    return c


def rngcase(rng):
    gens = [dict(seed=rng.choice([0, 1, 7, 123456789]), threads=rng.choice([0, 1, 2, 3, 3, 4, 5, 7]), omp=rng.choice([0, 0, 1, 3]),
                 bitgen=rng.choice(["", "", "", "PCG64", "Philox", "MT19937"]))]
    if rng.random() < .4:
        gens.append(dict(gens[0]) if rng.random() < .6 else dict(seed=-1, threads=3, omp=0, bitgen=""))
    calls = [call(rng, j, gens[j - 1]["threads"]) for j in (rng.randint(1, len(gens)) for _ in range(rng.randint(1, 8)))]
    return dict(op="rng", gens=gens, calls=calls)


def taskcase(rng, np):
    classes = ["Alpha", "Beta", "Alphb", "Noise", "T1", "T2"]
    runs = []
    for _ in range(rng.randint(1, 3)):
        runs.append([dict(cls=rng.choice(classes), seed=rng.choice([0, 1, 2, 7, 99, 12345678901, ""]), threads=2) for _ in range(rng.randint(1, 3))])
    if rng.random() < .5:
        runs.append([dict(t) for t in runs[0]])
    inst = [dict(cls=t["cls"], seed=str(t["seed"]), rank=r) for run in runs for t in run for r in range(np)]
    return dict(op="tasks", classes=classes, runs=runs, inst=inst)


def run(c):
    rng = c.rng
    c.exts()
    c.model("MC_RandGen", CFG % (3, c.pick(6, 8), c.pick(2, 3)), must_cover=["DrawDirect", "Start", "FillOne", "Return"], min_states=300)
    cases = [rngcase(rng) for _ in range(c.pick(450, 5000))]
    want = c.evaluate("RandGen", cases)
    send = [dict(k, plan=w) for k, w in zip(cases, want)]
    kinds = {}
    for k, w, o in zip(cases, want, c.drive("randgen", send, timeout=800)):
        if "driver_exc" in o:
            c.violation("raised", dict(case=k, got=o))
            continue
        for q, p, g in zip(k["calls"], w["plans"], o["calls"]):
            kinds[p["kind"]] = kinds.get(p["kind"], 0) + 1
            c.compare("call of " + q["method"], dict(gens=k["gens"], call=q, plan=p, got=g), [g["want"], True], [g["how"], g["ok"]])
        c.compare("default generator", k, True, o["default"])
        c.validated()
    c.cov.update(calls=kinds)
    for np, n in ((1, c.pick(25, 200)), (3, c.pick(25, 200))):
        cases = [taskcase(rng, np) for _ in range(n)]
        want = c.evaluate("RandGen", cases)
        rep = [dict(op="repeat", cls=x) for x in ("Alpha", "Beta")]
        got = c.drive("randgen", cases + rep, np=np, timeout=600)
        for k, w, o in zip(cases, want, got):
            o = o if np > 1 else [o]
            if any("driver_exc" in x for x in o):
                c.violation("raised", dict(case=k, got=o))
                continue
            c.compare("seeds", k, w["groups"], o[0]["groups"])
            c.compare("draws", k, w["groups"], o[0]["draws"])
            c.compare("stream", k, [True] * np, [x["stream"] for x in o])
            c.validated()
        for k, o in zip(rep, got[len(cases):]):
            c.compare("reported seed", dict(k, got=o), True, all(x.get("any") for x in (o if np > 1 else [o])))
    c.sample(cases[:1])
    c.assumptions += ["a generator is used by one caller at a time", "plain numpy generators are the streams", "task classes whose names have the same checksum share seeds"]
