"""C41: weighted quantiles and moving weighted medians."""

CFG = """CONSTANTS
 MaxN = %d
 MaxV = 3
 MaxW = 2
SPECIFICATION Spec
INVARIANTS SelectOK Weighty AsDefined BoxOK AtMostTwo AnyOrder Ends
PROPERTIES Finishes
"""
NONE = -99999


def values(rng, n):
    k = rng.choice([1, 3, 9, 40])
    a = [rng.randint(-k, k) for _ in range(n)]
    r = rng.random()
    if r < .15:
        a.sort()
    elif r < .3:
        a.sort(reverse=True)
    return a


def wts(rng, n):
    r = rng.random()
    if r < .2:
        return [rng.choice([1, 2]) if rng.random() < .9 else 0 for _ in range(n)]
    if r < .3:
        return [1] * n
    if r < .35:
        return [0] * n
    if r < .45:
        return [rng.choice([0, 0, 0, 1, 7]) for _ in range(n)]
    k = rng.choice([2, 5, 20])
    return [rng.randint(0, k) for _ in range(n)]


def common(rng):
    ta, tw = rng.choice(["i4", "i8", "f4", "f8", "f8"]), rng.choice(["i4", "i8", "f4", "f8", "f8"])
    c = dict(ta=ta, tw=tw, scale=1 if ta[0] == "i" else rng.choice([1, .25, 8]), wscale=1, method=rng.choice(["split", "split", "lower", "higher"]), loose=False,
             how=rng.choice(["c", "c", "strided", "rev", "ro", "list"]), howw=rng.choice(["c", "c", "strided", "rev", "ro", "list"]))
    if c["how"] == "list":
        c["ta"] = "f8"
    if c["howw"] == "list":
        c["tw"] = "f8"
    if rng.random() < .2:
        # weights whose sums are rounded: a tie may come out either way
        c.update(loose=True, wscale=rng.choice([.1, 1 / 3, 1e-3]), tw="f8" if c["howw"] == "list" else rng.choice(["f4", "f8"]))
    return c


def quant(rng):
    c = common(rng)
    n = rng.choice([1, 1, 2, 3, 4, 5, 8, 13, 30])
    lead = rng.choice([[], [], [1], [2], [3], [2, 2]])
    rows = 1
    for x in lead:
        rows *= x
    if c["ta"] == "f8" and c["how"] == "list":
        c["scale"] = 1.0
    rs = [dict(a=values(rng, n), w=wts(rng, n)) for _ in range(rows)]
    med = rng.random() < .3
    qd = rng.choice([1, 2, 2, 4, 8])
    qn = rng.randint(0, qd)
    if med:
        qn, qd = 1, 2
    if rng.random() < .3 and lead:
        c["how"] = "fortran"
    c.update(op="quantile", rows=rs, a=[x for r in rs for x in r["a"]], w=[x for r in rs for x in r["w"]], shape=lead + [n], qn=qn, qd=qd, median=med,
             whole=c["ta"][0] == "i")
    return c


def moving(rng):
    c = common(rng)
    two = rng.random() < .5
    ny, nx = (rng.randint(1, 7), rng.randint(1, 7)) if two else (1, rng.choice([1, 2, 3, 5, 9, 20, 40]))
    ry, rx = (rng.choice([0, 1, 1, 2, 5]), rng.choice([0, 1, 1, 2, 5])) if two else (0, rng.choice([0, 1, 1, 2, 3, 7, 30]))
    c.update(op="moving", ny=ny, nx=nx, ry=ry, rx=rx, a=values(rng, ny * nx), w=wts(rng, ny * nx), shape=[ny, nx] if two else [nx], tuple=rng.random() < .7, unit=False)
    c["size"] = [2 * ry + 1, 2 * rx + 1] if two else rng.choice([2 * rx + 1, [2 * rx + 1]])
    if (c["size"] == 1) or (rng.random() < .05):
        c.update(size=1, ry=0, rx=0, unit=not c["loose"])
    if two and rng.random() < .2 and c["how"] != "list":
        c["how"] = "fortran"
    if c["how"] == "list":
        c["ta"] = "f8"
    return c


def bads(rng):
    out = [dict(bad="qshape"), dict(bad="qmethod"), dict(bad="mmethod"), dict(bad="cplx"), dict(bad="str"), dict(bad="dim")]
    out += [dict(bad="qrange", q=q) for q in (-.1, 1.1, 2)]
    out += [dict(bad=k, t=t) for k in ("qtype", "qwtype") for t in ("i2", "c16", "bool")]
    out += [dict(bad="size", size=s) for s in (0, 2, 4, -3, -1, [3, 3])]
    out += [dict(bad="size2", size=s) for s in ([0, 3], [3, 2], [4, 3], [-3, 3], [3, -1])]
    out += [dict(bad="mshape", n=n) for n in (4, 6)]
    out += [dict(bad="mshape2", sh=s) for s in ([6, 3], [5, 4], [4, 6], [7, 4], [6, 5])]
    return [dict(op="bad", **x) for x in out]


def run(c):
    rng = c.rng
    c.model("MC_WMedian", CFG % c.pick(3, 4), must_cover=["Divide", "Single", "Slide"], min_states=10000)
    c.exts("weighted")
    n = c.pick(1, 8)
    cases = [quant(rng) for _ in range(900 * n)] + [moving(rng) for _ in range(900 * n)]
    want = c.evaluate("WMedian", cases, op="RunMedian")
    got = c.drive("wmedian", cases)
    for q, w, g in zip(cases, want, got):
        if "driver_exc" in g:
            c.violation("raised", dict(case=q, got=g))
            continue
        r = w["r"]
        if q["op"] == "quantile":
            if q["loose"]:
                c.compare("quantile", q, r, [x if y in x else y for x, y in zip(r, g["r"])] + g["r"][len(r):])
            else:
                c.compare("quantile", q, r, g["r"])
            c.compare("inputs kept", q, [q["shape"][:-1], True, True], [g["shape"], g["kept"], g["dtype"]])
        else:
            if q["loose"]:
                zero = [0] if q["size"] == 1 else []
                c.compare("moving", q, r, [[x if (y in x or (x[0] == NONE and y in zero)) else y for x, y in zip(rr, gg)] for rr, gg in zip(r, g["r"])])
            else:
                c.compare("moving", q, r, g["r"])
            c.compare("inputs kept", q, [q["shape"], True], [g["shape"], g["kept"]])
        c.validated()
    b = bads(rng)
    for q, g in zip(b, c.drive("wmedian", b)):
        c.compare("domain", q, "error", g.get("r"))
    c.sample(cases[:2])
    c.assumptions.append("data without NaN, weights not negative; where sums of weights are rounded a tie may be decided either way")
