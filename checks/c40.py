"""C40: numbers, arrays and datasets truncated to an error."""

CFG = """CONSTANTS
 P = %d
 MaxE = %d
 N = 2
 S = %d
SPECIFICATION Spec
INVARIANTS Within ZeroKeeps KeepsSign Coarse Nearest Again Others Ordered WeightsOK
"""
F = dict(f4=(24, -126, 126), f8=(53, -1022, 1022))


def bits(rng, p, k=None):
    """p bits, the first one set; of shapes that matter when the last k are dropped."""
    k = rng.randint(0, p) if k is None else max(0, min(p, k))
    r = rng.random()
    b = [rng.randint(0, 1) for _ in range(p)]
    if r < .25 and k:              # tie, or next to one
        b[p - k:] = [1] + [0] * (k - 1)
        if rng.random() < .5 and k > 1:
            b[p - 1] = 1
    elif r < .35 and k:            # just below a tie
        b[p - k:] = [0] + [1] * (k - 1)
    elif r < .45:                  # carries
        b = [1] * p
        if rng.random() < .5:
            b[rng.randrange(p)] = 0
    elif r < .6:                   # few bits
        n = rng.randint(1, 4)
        b = [rng.randint(0, 1) for _ in range(n)] + [0] * (p - n)
    elif r < .7:
        b = [0] * p
        b[rng.randrange(p)] = 1
    b[0] = 1
    return b[:p]


def number(rng, fmt, k=None, where=None, sign=True):
    p, emin, emax = F[fmt]
    where = where or rng.choices(["mid", "low", "high", "sub", "zero"], [6, 3, 1, 1.5, .3])[0]
    s = rng.randint(0, 1) if sign else 0
    if where == "zero":
        return dict(s=s, b=[0] * p, e=emin)
    if where == "sub":
        z = rng.randint(1, p - 1)
        return dict(s=s, b=[0] * z + bits(rng, p - z, k), e=emin)
    far = 50 if fmt == "f4" else 400
    e = dict(mid=rng.randint(-30, 30), far=rng.randint(-far, far), low=rng.randint(emin, emin + p + 10), high=rng.randint(emax - 10, emax))[where]
    return dict(s=s, b=bits(rng, p, k), e=e)


def errfor(rng, fmt, v):
    """An error that drops about k bits of v."""
    p, emin, emax = F[fmt]
    k = rng.randint(-3, p + 5) if rng.random() < .9 else rng.randint(p + 2, p + 14)
    top = v["e"] - p + k
    if rng.random() < .05 or top < emin - p + 1:
        return dict(s=0, b=[0] * p, e=emin), 0
    top = min(top, emax)
    b = bits(rng, p, rng.randint(0, p)) if rng.random() < .7 else [1] + [0] * (p - 1)
    if top < emin:
        z = emin - top
        return dict(s=0, b=([0] * z + b)[:p], e=emin), k
    return dict(s=0, b=b, e=top), k


def scalar(rng, fmt):
    p = F[fmt][0]
    v = number(rng, fmt)
    err, k = errfor(rng, fmt, v)
    if k > 0 and rng.random() < .7 and v["b"][0]:
        v["b"] = bits(rng, p, k)
    return dict(op="scalar", fmt=fmt, v=v, err=err, emin=F[fmt][1])


def integer(rng):
    fmt = rng.choice(["i4", "i8"])
    p = 30 if fmt == "i4" else 62
    n, m = rng.randint(0, p), rng.randint(0, p - 1)
    v = dict(s=rng.randint(0, 1), b=([0] * (p - n) + bits(rng, n, min(m, n)) if n else [0] * p), e=p - 1)
    if n == 0:
        v["s"] = 0
    err = dict(s=0, b=([0] * (p - m) + bits(rng, m) if m else [0] * p), e=p - 1)
    return dict(op="int", fmt=fmt, v=v, err=err, emin=p - 1)


def precision(rng, p=24):
    if rng.random() < .07:
        return dict(s=0, b=[0] * p, e=0)
    e = rng.choice([rng.randint(-26, 0), rng.randint(-14, -3), rng.randint(-56, 2)])
    return dict(s=0, b=bits(rng, p) if rng.random() < .7 else [1] + [0] * (p - 1), e=e)


def array(rng, fmt, n=None):
    n = rng.choice([0, 1, 2, 3, 7, 16]) if n is None else n
    return [number(rng, fmt, where=rng.choices(["mid", "far", "low", "sub", "zero"], [6, 2, 1, 1, 1])[0]) for _ in range(n)]


def weight(rng, v=None, odd=False):
    if rng.random() < .2:
        return dict(m=0, e=0)
    # (a root that is a power of two is a matter of rounding)
    m = rng.choice([3 if odd else 2, 3, 5, rng.choice([x for x in range(3, 255) if x & (x - 1)])])
    c = v["e"] if v and -(60 if len(v["b"]) == 24 else 400) <= v["e"] <= 400 else 0
    top = 30 if len(v["b"] if v else []) == 53 else min(30, 55 + c)
    return dict(m=m, e=2 * rng.randint(-5, top) - 2 * c + (rng.randint(0, 1) if m > 2 else 0))


def relative(rng):
    fmt = rng.choice(["f4", "f8"])
    return dict(op="relative", fmt=fmt, v=array(rng, fmt), prec=precision(rng), emin=F[fmt][1], how=rng.choice(["c", "strided", "imag", "rev"]))


def weights(rng):
    fmt = rng.choice(["f4", "f8"])
    v = array(rng, fmt)
    return dict(op="weights", fmt=fmt, v=v, w=[weight(rng, x) for x in v], prec=precision(rng), emin=F[fmt][1],
                how=rng.choice(["c", "strided", "imag", "rev"]))


def asnum(x, q, p=53):
    """The integer x times 2^q in double precision."""
    if x == 0:
        return dict(s=0, b=[0] * p, e=-1022)
    n = abs(x).bit_length()
    return dict(s=int(x < 0), b=[(abs(x) >> (n - 1 - i)) & 1 if i < n else 0 for i in range(p)], e=q + n - 1)


def clear(m, sq, exact=False):
    """m*sqrt(sq) is a power of two, or clearly none."""
    x = m * m * sq
    k = (x.bit_length() + 1) // 2
    return x == 0 or all((exact and x == 4 ** j) or abs(x - 4 ** j) > 4 ** j / 2 ** 18 for j in (k - 1, k))


def maxc(rng):
    while True:
        n, m = rng.randint(0, 4), rng.randint(1, 5)
        prec = dict(m=rng.choice([0, 1, 1, 3, 5, 7]), e=-rng.randint(2, 25))
        pmax = dict(m=rng.choice([0, 1, 1, 3, 5, 7]), e=-rng.randint(2, 30))
        rows = []
        for _ in range(n):
            q = rng.randint(-12, 8)
            row = []
            for _ in range(m):
                s = 2 ** rng.randint(0, 4)
                a, b = rng.choice([(rng.randint(-63, 63), rng.randint(-63, 63)), (3, 4), (-12, 5), (0, 0), (8, 0), (0, -1), (24, 7)])
                a, b = a * s, b * s
                row.append(dict(a=a, b=b, re=asnum(a, q), im=asnum(b, q)))
            if prec["m"] == 0:
                for x in range(len(row) - 1):
                    if rng.random() < .6 and max(abs(row[-1]["a"]), abs(row[-1]["b"])) > 1:
                        t = q + max(abs(row[-1]["a"]), abs(row[-1]["b"])).bit_length() - 3
                        row[x] = dict(a=0, b=0, re=dict(s=rng.randint(0, 1), b=bits(rng, 53), e=t - rng.randint(0, 6)),
                                      im=dict(s=rng.randint(0, 1), b=bits(rng, 53), e=t - rng.randint(0, 6)))
                rng.shuffle(row)
            rows.append(dict(q=q, x=row))
        ok = all(clear(prec["m"], x["a"] ** 2 + x["b"] ** 2, True) and clear(pmax["m"], x["a"] ** 2 + x["b"] ** 2) for r in rows for x in r["x"])
        if ok:
            return dict(op="maxc", fmt="", rows=rows, prec=prec, pmax=pmax, emin=-126, how=rng.choice(["c", "fortran"]))


def f4round(b, e):
    """The number with these 53 bits rounded to 24."""
    m = int("".join(map(str, b)), 2)
    r = (m + (1 << 28) - 1 + ((m >> 29) & 1)) >> 29
    if r >> 24:
        r, e = r >> 1, e + 1
    return dict(s=0, b=[(r >> (23 - i)) & 1 for i in range(24)], e=e)


def pprec(rng):
    p = precision(rng, 53)
    if not any(p["b"]):
        p = dict(s=0, b=[1] + [0] * 52, e=-10)
    return dict(f8=p, f4=f4round(p["b"], p["e"]))


DEF8 = dict(s=0, b=[int(x) for x in bin(int(float(1e-4).hex()[4:17], 16) + (1 << 52))[2:]], e=-14)


def params(rng, wnames):
    k = rng.choice(["no", "yes", "prec", "dict", "dict"])
    p = dict(k=k, hasprec=False, w="", var=0, prec=pprec(rng))
    if k == "dict":
        p["hasprec"] = rng.random() < .5
        p["w"] = rng.choice(wnames + [""]) if wnames else ""
        p["var"] = rng.choice([0, 1, 2, 4, 64, 1024])
        if not p["w"] and not p["var"]:
            p["hasprec"] = True
    return p


def task(rng):
    size = dict(a=rng.randint(1, 5), b=rng.randint(1, 4))
    if rng.random() < .3:
        size["b"] = size["a"]
    prod = lambda ax: (size["a"] if "a" in ax else 1) * (size["b"] if "b" in ax else 1)
    dsets, wts = [], []
    config = []
    for i in range(rng.randint(1, 3)):
        dt = rng.choice(["f4", "f8", "c8", "c16"])
        fmt = dict(f4="f4", c8="f4").get(dt, "f8")
        ax = rng.choice([["a"], ["b"], ["a", "b"], ["b", "a"], ["a", "b"]])
        wn = []
        for j in range(rng.randint(0, 2)):
            sub = [a for a in ax if rng.random() < .7] or ax[:1]
            if rng.random() < .3:
                sub = sub[::-1]
            prop = rng.choice(["", "", "dset", "array"])
            if prop == "array" and sub != ax:
                prop = "dset"
            w = dict(name=f"w{i}{j}", axes=sub, dtype=fmt, prop=prop, vals=[weight(rng, odd=True) for _ in range(prod(sub))])
            wts.append(w)
            wn.append(w["name"])
        cplx = dt[0] == "c"
        d = dict(name=f"d{i}", axes=ax, dtype=dt, fmt=fmt, cplx=cplx, emin=F[fmt][1], vals=array(rng, fmt, prod(ax) * (2 if cplx else 1)),
                 p=params(rng, wn), explicit=rng.random() < .3, init=rng.random() < .7, absent=False,
                 chunks=[rng.randint(1, 6) for _ in ax] if rng.random() < .4 else [])
        if not d["init"] and rng.random() < .4:
            d["absent"] = True
        dsets.append(d)
        if rng.random() < .4:
            config.append(dict(name=d["name"], p=params(rng, wn)))
    if rng.random() < .1:
        config.append(dict(name="nosuch", p=params(rng, [])))
    return dict(op="task", size=size, dsets=dsets, weights=wts, config=config, emptyconf=rng.random() < .3, chunk=rng.random() < .7, times=1,
                defprec=dict(f8=DEF8, f4=f4round(DEF8["b"], DEF8["e"])))


def bad(rng):
    return dict(op="bad", fmt=rng.choice(["f4", "f8"]), bad=rng.choice(["nan", "inttype", "wtype", "wlen", "ndim", "cplx"]), n=rng.choice([0, 1, 2, 4]))


def run(c):
    rng = c.rng
    p, me = c.pick((3, 2), (4, 2))
    c.model("MC_Truncate", CFG % (p, me, 3 * p), must_cover=["Step"], min_states=20000)
    c.exts("truncate")
    n = c.pick(1, 8)
    cases = ([scalar(rng, "f4") for _ in range(900 * n)] + [scalar(rng, "f8") for _ in range(900 * n)] + [integer(rng) for _ in range(300 * n)] +
             [relative(rng) for _ in range(200 * n)] + [weights(rng) for _ in range(250 * n)] + [maxc(rng) for _ in range(200 * n)])
    want = c.evaluate("Truncate", cases, op="RunTrunc")
    got = c.drive("truncate", cases)
    for q, w, g in zip(cases, want, got):
        r = w["r"]
        if "driver_exc" in g:
            c.violation("raised", dict(case=q, got=g))
            continue
        c.compare(q["op"], q, r, g["r"])
        c.validated()
        if q["op"] in ("relative", "weights", "maxc"):
            c.compare("returned", q, r, g["ret"])
        if q["op"] in ("relative", "weights"):
            c.compare("in place", q, [True] * 3, [g["dtype"], g["rest"], g["shares"]])
    bads = [bad(rng) for _ in range(40)]
    for q, g in zip(bads, c.drive("truncate", bads)):
        c.compare("domain", q, "error", g.get("r"))
    tasks = [task(rng) for _ in range(250 * n)]
    want = c.evaluate("Truncate", tasks, op="RunTrunc")
    for np, part in ((1, slice(0, None, 2)), (3, slice(1, None, 2))):
        got = c.drive("truncate", tasks[part], np=np)
        for q, w, gs in zip(tasks[part], want[part], got):
            for g in gs if np > 1 else [gs]:
                if "driver_exc" in g:
                    c.violation("task raised", dict(case=q, np=np, got=g))
                    break
                exp = []
                for d, x in zip(q["dsets"], w["r"]):
                    if d["absent"]:
                        exp.append(dict(name=d["name"], absent=True))
                    else:
                        on = q["chunk"] and bool(d["chunks"])
                        exp.append(dict(name=d["name"], vals=x["vals"], chunks=x["chunks"] or [], dtype=True,
                                        comp=([] if not d["chunks"] else (["gzip", "3"] if on else None))))
                for a, b in zip(exp, g["r"]):
                    if a.get("comp", 0) is None or (not q["chunk"] and "chunks" in a):
                        # a dataset may be chunked already when it is made
                        a.pop("comp", None), b.pop("comp", None), a.pop("chunks"), b.pop("chunks")
                    c.compare("task", q, a, b)
                c.validated()
                c.compare("task in place", q, [True, True], [g["same"], g["weights"]])
    c.sample(cases[:2])
    c.assumptions.append("the bound of an element is the product or root computed in the element's own precision; numbers that would round up to infinity are left out")
