"""C48: functions of numbers, lists and arrays alike."""
CFG = """CONSTANTS
 MaxM = %d
 Bits = 12
 Len0 = %d
SPECIFICATION Spec
INVARIANTS Nearest Back Shape Scalars Uniq
"""


def prod(s):
    n = 1
    for x in s:
        n *= x
    return n


def args(rng, op):
    n = rng.choice([1, 1, 2, 2, 3])
    full = [rng.choice([1, 2, 3]) for _ in range(rng.choice([1, 1, 2, 3]))]
    out = []
    allsc, empty = rng.random() < .25, rng.random() < .15
    for _ in range(n):
        kind = "scalar" if allsc else rng.choice(["scalar", "list", "tuple", "array", "array"])
        if kind == "scalar":
            shape = []
        elif empty:
            shape = [0]
        else:
            cut = rng.choice([0, 0, 0, rng.randint(0, len(full) - 1)])
            shape = [rng.choice([d, d, d, 1]) for d in full[cut:]]
            if rng.random() < .03:
                shape[-1] += 1
        out.append(dict(kind=kind, shape=shape, data=[rng.randint(-50, 50) for _ in range(prod(shape))], int=rng.random() < .5, np=rng.random() < .4,
                        strided=rng.random() < .3))
    return out


def adapted(rng):
    op = rng.choice(["vectorize", "scalarize", "listize"])
    a = args(rng, op)
    if op == "listize" and sum(x["kind"] in ("scalar",) for x in a) == 0 and False:
        pass
    return dict(op=op, args=a, k=rng.randint(-9, 9), method=rng.random() < .5, f4=rng.random() < .5)


def invert(rng):
    dt = rng.choice(["f4", "f8", "f8", "c8", "c16", "i4", "i8", "u1", "i2"])
    cplx = dt[0] == "c"
    ints = dt[0] in "iu"
    layout = rng.choice(["C", "C", "F", "strided", "rev", "turned"] + ["list", "tuple", "number", "npnumber"] * (rng.random() < .4))
    if layout in ("list", "tuple", "number") and dt in ("f4", "c8", "u1", "i2", "i4"):
        dt = dict(f4="f8", c8="c16").get(dt, "i8")
    shape = [] if layout in ("number", "npnumber") else [rng.choice([0, 1, 3])] if layout == "tuple" else \
        [rng.choice([1, 2, 3, 4]) if rng.random() < .95 else 0 for _ in range(rng.choice([0, 1, 1, 2, 2, 3]) if layout != "list" else rng.choice([1, 2]))]
    if layout in ("list", "tuple") and 0 in shape:
        shape = [2] * len(shape)
    wide = dict(f4=(-110, 100), f8=(-950, 900), c8=(-50, 50), c16=(-400, 400)).get(dt, (0, 6))
    data = []
    for _ in range(prod(shape)):
        r = rng.random()
        if r < .25:
            data.append(dict(k="zero", s=0 if ints else rng.randint(0, 1), m=0, e=0))
        elif cplx:
            data.append(dict(k=rng.choice(["re", "im", "both", "both"]), s=rng.randint(0, 1), t=rng.randint(0, 1), e=rng.randint(*wide)))
        elif ints:
            if dt == "u1":
                data.append(dict(k="num", s=0, m=rng.randrange(1, 32, 2), e=rng.randint(0, 2)))
            else:
                data.append(dict(k="num", s=rng.randint(0, 1), m=rng.randrange(1, 256, 2), e=rng.randint(0, 6)))
        elif r < .3:
            data.append(dict(k=rng.choice(["inf", "nan"]), s=rng.randint(0, 1), m=0, e=0))
        elif r < .35 and layout not in ("list", "tuple", "number"):
            data.append(dict(k="num", s=rng.randint(0, 1), m=rng.randrange(1, 256, 2), e=rng.randint(-149, -140) if dt == "f4" else rng.randint(-1074, -1041)))
        else:
            data.append(dict(k="num", s=rng.randint(0, 1), m=rng.choice([1, 3, 5, 7, rng.randrange(1, 256, 2), rng.randrange(1, 30000, 2)]), e=rng.randint(*wide)))
            if dt in ("f4", "f8") and rng.random() < .5:
                data[-1]["e"] = rng.randint(-20, 20)
    out = "none" if layout in ("list", "tuple", "number", "npnumber") else rng.choice(["none", "none", "C", "F", "strided", "rev", "turned", "shape"] + ["same"] * (not ints))
    return dict(op="invert", dtype=dt, cplx=cplx, lay=layout, shape=shape, data=data, out=out, p=24 if dt == "f4" else 53, tiny=-138 if dt == "f4" else -1038)


def unique(rng):
    return dict(op="unique", data=[rng.choice("abcdefgh"[:rng.randint(1, 8)]) for _ in range(rng.choice([0, 1, 3, 8, 20]))], kind=rng.choice(["list", "tuple", "iter", "array"]))


def run(c):
    c.exts("invert")
    c.model("MC_Elementwise", CFG % c.pick((1001, 6), (4001, 9)), workers=6, min_states=1000, must_cover=["Divides", "Maps", "Grow"])
    rng, n = c.rng, c.pick(1, 10)
    cases = [adapted(rng) for _ in range(900 * n)] + [invert(rng) for _ in range(1200 * n)] + [unique(rng) for _ in range(100 * n)]
    want = c.evaluate("Elementwise", cases)
    got = c.drive("elementwise", cases)
    for q, w, g in zip(cases, want, got):
        c.validated()
        op = q["op"]
        if "driver_exc" in g or g["ok"] != w["ok"]:
            c.violation(op + " raised", dict(case=q, expected=w, got=g))
            continue
        if not w["ok"]:
            continue
        if op == "invert":
            dt = dict(f4="float32", f8="float64", c8="complex64", c16="complex128").get(q["dtype"], "float64")
            for x, y in zip(w["data"], g["data"]):
                y.pop("s", 0) if y["k"] == "zero" else 0
            c.compare("reciprocal", q, dict(shape=w["shape"], data=w["data"], isout=True, dtype=dt, kept=True), {k: v for k, v in g.items() if k != "ok"})
        elif op == "unique":
            c.compare("distinct", q, dict(data=w["data"], list=True, kept=True), {k: v for k, v in g.items() if k != "ok"})
        else:
            exp = dict(w, doc=True, kept=True)
            if op == "vectorize":
                exp.pop("seen", 0)
            if op == "scalarize":
                exp["empty"] = "" if w["seen"] else "float32" if q["f4"] else "float64"
            if op == "listize" and w["scalar"] is False:
                pass
            c.compare(op, q, exp, g)
    c.cov.update(calls=len(cases), reciprocals=sum(len(q["data"]) for q in cases if q["op"] == "invert"))
    c.sample(dict(case=cases[0], expected=want[0]))
    c.assumptions += ["arrays of the byte order of the machine that can be written to"]
