"""Random distributed-array programs (inputs only)."""


def size(sh):
    n = 1
    for x in sh:
        n *= x
    return n


def split(n, p, r):
    b, m = divmod(n, p)
    return b + (r < m), r * b + min(r, m)


def rshape(rng, nd=None, lo=0, hi=6, cap=80):
    while True:
        k = nd or rng.choice([1, 2, 2, 3, 3, 4])
        sh = [rng.choice([rng.randint(lo, hi), rng.randint(1, 4)]) for _ in range(k)]
        if size(sh) <= cap:
            return sh


def rslice(rng, n, steps=(1, 1, 1, 2, 3, -1, -2)):
    s = rng.choice(steps)
    ha, hb = rng.random() < 0.7, rng.random() < 0.7
    return dict(k="slice", a=rng.randint(-n - 1, n + 1) if ha else 0, b=rng.randint(-n - 1, n + 1) if hb else 0,
                s=s, ha=ha, hb=hb)


FULL = dict(k="slice", a=0, b=0, s=1, ha=False, hb=False)


def is_full(it):
    return it == FULL


def ritems(rng, sh, axis, dist="full", p=1, lists=False, new=False, ints=True):
    """One item per axis, then ellipsis/short forms. dist: what goes on the distributed axis."""
    out = []
    used_list = False
    for j, n in enumerate(sh):
        if j == axis:
            if dist == "full":
                out.append(dict(FULL))
            elif dist == "local":
                m = min(split(n, p, r)[0] for r in range(p))
                lens = {split(n, p, r)[0] for r in range(p)}
                if m > 0 and rng.random() < 0.4:
                    out.append(dict(k="int", i=rng.randint(-m, m - 1)))
                else:
                    while True:
                        s = rslice(rng, n, (1, 1, 2))
                        if is_full(s) or (s["s"] == 1 and s["ha"] and s["a"] == 0 and s["hb"] and s["b"] in lens):
                            continue
                        break
                    out.append(s)
            else:  # global
                r = rng.random()
                if n and r < 0.35:
                    out.append(dict(k="int", i=rng.randint(-n, n - 1)))
                elif r < 0.45:
                    out.append(dict(FULL))
                else:
                    out.append(rslice(rng, n, (1, 1, 1, 2, 3)))
            continue
        r = rng.random()
        if r < 0.35:
            out.append(dict(FULL))
        elif r < 0.6 and n and ints:
            out.append(dict(k="int", i=rng.randint(-n, n - 1)))
        elif r < 0.66 and ints:
            oob = dist == "full" and rng.random() < 0.15
            out.append(dict(k="int", i=rng.choice([n, -n - 1])) if oob else dict(FULL))
        else:
            out.append(rslice(rng, n))
    if lists and len(sh) > 1 and not any(i["k"] == "int" for i in out):
        j = rng.choice([x for x in range(len(sh)) if x != axis])
        n = sh[j]
        if n:
            out[j] = dict(k="list", l=[rng.randint(-n, n - 1) for _ in range(rng.randint(1, 4))])
    # shorten: drop trailing full slices, or a run of full slices becomes an ellipsis
    r = rng.random()
    if r < 0.4:
        while len(out) > 1 and is_full(out[-1]):
            out.pop()
        if rng.random() < 0.3:
            out.append(dict(k="ell"))
    elif r < 0.7:
        runs = [i for i in range(len(out) + 1)]
        i = rng.choice(runs)
        j = i
        while j < len(out) and is_full(out[j]):
            j += 1
        out[i:j] = [dict(k="ell")]
    if new and rng.random() < 0.5:
        for _ in range(rng.randint(1, 2)):
            out.insert(rng.randint(0, len(out)), dict(k="new"))
    return out


DTYPES = ["f8", "f4", "i8", "i4", "i2", "u1", "c16", "c8", "?", "S5", "U4", "struct", ">f8", ">i4", "M8[s]"]


def base(rng, p, sh=None, dtype=None, lo=0, hi=6):
    sh = sh or rshape(rng, lo=lo, hi=hi)
    ax = rng.randrange(len(sh))
    dt = dtype or rng.choice(DTYPES)
    data = list(range(1, size(sh) + 1))
    rng.shuffle(data)
    if dt == "?":
        data = [x % 2 for x in data]
    return dict(p=p, shape=sh, axis=ax, data=data, dtype=dt, layout=rng.choice(["C", "C", "F", "strided"]),
                init=rng.choice(["wrap", "wrap", "ctor", "zeros"]), defcomm=rng.random() < 0.5,
                neg=rng.random() < 0.15, ops=[])


def op(name, keepres=True, **kw):
    return dict(op=name, keepres=keepres, **kw)


def perm(rng, nd):
    q = list(range(nd))
    if rng.random() < 0.35:
        q.reverse()
    elif rng.random() < 0.4 and nd > 1:
        i, j = rng.sample(range(nd), 2)
        q[i], q[j] = q[j], q[i]
    else:
        rng.shuffle(q)
    if rng.random() < .25:
        q = [x - nd if rng.random() < .5 else x for x in q]
    return q


def move_case(rng, p):
    """C11: redistribution, gathers, transposes and copies in any dtype and layout."""
    c = base(rng, p)
    nd = len(c["shape"])
    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        if r < 0.5:
            a = rng.randrange(nd)
            c["ops"].append(op("redist", axis=a - nd if rng.random() < 0.15 else a))
        elif r < 0.62:
            c["ops"].append(op("gather", False, rank=rng.randrange(p), form=rng.randrange(2)))
        elif r < 0.74:
            c["ops"].append(op("allgather", False))
        elif r < 0.84:
            c["ops"].append(op("transpose", perm=perm(rng, nd), form=rng.randrange(6), sneg=rng.randrange(8)))
        elif r < 0.92:
            c["ops"].append(op("copy", rng.random() < 0.5, form=rng.randrange(2), poke=True))
            if c["ops"][-1]["keepres"]:
                c["ops"][-1]["poke"] = False
        else:
            n = rng.randint(0, 7)
            lens = [split(n, p, q)[0] for q in range(p)]
            if rng.random() < 0.6:
                lens = [rng.randint(0, 3) for _ in range(p)]
                if rng.random() < 0.3:
                    rng.shuffle(lens)
            c["ops"].append(op("wrap", False, lens=lens, form=rng.randrange(2)))
    if rng.random() < 0.4:
        c["ops"].append(op("gather", False, rank=rng.randrange(p), form=1))
        c["ops"].append(op("allgather", False))
    if c["dtype"] == "?":
        c["ops"] = [o for o in c["ops"] if o["op"] != "wrap"]
    return c


def result(sh, ax, o):
    """Shape bookkeeping for the generator only (None: becomes undistributed or fails)."""
    return None


def numpy_case(rng, p):
    """C12: single operations (and short chains) compared with numpy on the whole array."""
    c = base(rng, p, dtype=rng.choice(["i8", "f8"]))
    sh, ax, nd = c["shape"], c["axis"], len(c["shape"])
    n = rng.randint(1, 3)
    for k in range(n):
        last = k == n - 1
        r = rng.random()
        if r < 0.2:
            c["ops"].append(op("index", last, items=ritems(rng, sh, ax, "full", p, lists=rng.random() < .2, new=rng.random() < .3),
                               npint=rng.random() < .3, bare=True))
        elif r < 0.25:
            c["ops"].append(op("index", False, items=ritems(rng, sh, ax, "local", p), npint=False, bare=True))
        elif r < 0.35:
            c["ops"].append(op("transpose", last, perm=perm(rng, nd), form=rng.randrange(6), sneg=rng.randrange(8)))
        elif r < 0.47:
            c["ops"].append(op("reshape", last, shape=rreshape(rng, sh, ax), form=rng.randrange(2)))
        elif r < 0.62:
            f = "add" if 0 in sh or rng.random() < .5 else rng.choice(["maximum", "minimum"])
            al = rng.random() < 0.15
            axes = sorted(rng.sample(range(nd), rng.randint(1, nd)))
            if rng.random() < 0.75:
                axes = [a for a in axes if a != ax] or ([] if nd == 1 else [(ax + 1) % nd])
            if al or not axes:
                f, al = "add", True
            axes = [a - nd if rng.random() < .3 else a for a in axes]
            c["ops"].append(op("reduce", last, f=f, all=al, axes=axes, keep=(not al) and rng.random() < .4,
                               form=rng.randrange(6)))
        elif r < 0.7:
            a = rng.randrange(nd)
            if rng.random() < .6 and nd > 1:
                a = (ax + rng.randint(1, nd - 1)) % nd
            c["ops"].append(op("accum", last, f=rng.choice(["add", "add", "maximum"]), axis=a - nd if rng.random() < .4 else a,
                               form=rng.randrange(3)))
        elif r < 0.75:
            c["ops"].append(op("ufunc1", last, f=rng.choice(["negative", "square", "absolute", "positive"])))
        elif r < 0.95:
            c["ops"].append(rufunc2(rng, sh, ax, p, last))
        else:
            c["ops"].append(op("sumall", False))
    return c


def factor(rng, n, k):
    """k factors with product n (n>0)"""
    out = [1] * k
    m = n
    f = 2
    while m > 1:
        while m % f == 0:
            out[rng.randrange(k)] *= f
            m //= f
        f += 1
    return out


def rreshape(rng, sh, ax):
    def side(q):
        n = size(q)
        r = rng.random()
        if r < 0.12:
            return list(q)
        if n == 0:
            return list(q)
        if n == 1 and r < 0.5:
            return [1] * rng.randint(0, 2)
        new = factor(rng, n, rng.randint(1, 3))
        if rng.random() < 0.35:
            new[rng.randrange(len(new))] = -1
        if rng.random() < 0.07:
            new[rng.randrange(len(new))] += 2
        return new

    return side(sh[:ax]) + [-2] + side(sh[ax + 1:])


def rufunc2(rng, sh, ax, p, last):
    nd = len(sh)
    f = rng.choice(["add", "subtract", "multiply", "maximum", "minimum"])
    kind = rng.choice(["scalar", "nd", "nd", "dist", "dist"])
    o = op("ufunc2", last, f=f, swap=rng.random() < .4, out="none", form=rng.randrange(3))
    if kind == "scalar":
        o["rhs"] = dict(kind="scalar", v=rng.randint(-5, 5), shape=[], data=[0], axis=0)
        if rng.random() < .3:
            o["out"] = rng.choice(["inplace", "like"])
    else:
        # aligned on the right; sometimes more or fewer dimensions
        m = rng.choice([nd, nd, nd, max(1, nd - 1), nd + 1])
        rs = [1] * m
        fr = nd - ax  # distributed axis counted from the right
        for j in range(1, m + 1):
            own = sh[nd - j] if j <= nd else rng.randint(1, 3)
            if kind == "nd" and j == fr:
                rs[m - j] = 1 if rng.random() < .88 else 41
            elif kind == "dist" and j == fr:
                rs[m - j] = own
            else:
                rs[m - j] = rng.choice([own, own, 1])
                if rng.random() < .03:
                    rs[m - j] = own + 5
        if kind == "nd" and rng.random() < .3 and fr <= m:
            rs = rs[m - fr + 1:]
        a2 = m - fr
        if kind == "dist":
            if a2 < 0:
                return rufunc2(rng, sh, ax, p, last)
            if rng.random() < .15:
                a2 = rng.randrange(m)
            if rng.random() < .1:
                rs[a2] = rs[a2] + 1
        if size(rs) > 100:
            return rufunc2(rng, sh, ax, p, last)
        o["rhs"] = dict(kind=kind, v=0, shape=rs, data=[rng.randint(-20, 20) for _ in range(size(rs))], axis=max(a2, 0))
        if rng.random() < .25 and len(rs) <= nd:
            o["out"] = rng.choice(["inplace", "like"])
    if nd > 1 and o["out"] == "like" and rng.random() < .3:
        o["out"] = "badaxis"
    if o["out"] == "inplace":
        o["keepres"] = True
        o["swap"] = False
    return o


def gslice_case(rng, p):
    """C13"""
    c = base(rng, p, dtype=rng.choice(["i8", "f8", "c16"]), hi=8)
    sh, ax = c["shape"], c["axis"]
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.07:
            # a position that does not exist: nothing is read or written
            it = [dict(FULL) for _ in sh]
            it[ax] = dict(k="int", i=rng.choice([sh[ax], sh[ax] + 1, -sh[ax] - 1, sh[ax] + 9]))
            if rng.random() < .5:
                c["ops"].append(op("gslice", False, items=it, npint=False, bare=True, oob=True))
            else:
                c["ops"].append(op("gset", True, items=it, value=dict(shape=[], data=[rng.randint(100, 900)]),
                                   npint=False, bare=True, form=0, oob=True))
        elif r < 0.55:
            it = ritems(rng, sh, ax, "global", p, lists=rng.random() < .15)
            c["ops"].append(op("gslice", False, items=it, npint=rng.random() < .3,
                               bare=rng.random() < .7 and it[0]["k"] != "list"))
        else:
            it = ritems(rng, sh, ax, "global" if rng.random() < .9 else "full", p)
            tgt = "gset"
            if rng.random() < .15:
                it, tgt = ritems(rng, sh, ax, "full", p), "lset"
            ex = expand(it, len(sh))
            vs = []
            for j, i in enumerate(ex):
                if i["k"] == "int":
                    continue
                n = len(range(*slice(i["a"] if i["ha"] else None, i["b"] if i["hb"] else None, i["s"]).indices(sh[j])))
                vs.append(1 if j == ax else rng.choice([n, n, 1]))
            if rng.random() < .3:
                vs = []
            while vs and rng.random() < .2:
                vs = vs[1:]
            bad = any(i["k"] == "int" and not -sh[j] <= i["i"] < sh[j] for j, i in enumerate(ex))
            if bad:
                continue
            c["ops"].append(op(tgt, True, items=it, value=dict(shape=vs, data=[rng.randint(100, 900) for _ in range(size(vs))]),
                               npint=rng.random() < .3, bare=rng.random() < .7, form=rng.randrange(2)))
    return c


def expand(items, nd):
    n = sum(1 for i in items if i["k"] in ("int", "slice", "list"))
    fill = [dict(FULL) for _ in range(nd - n)]
    for j, i in enumerate(items):
        if i["k"] == "ell":
            return items[:j] + fill + items[j + 1:]
    return items + fill
