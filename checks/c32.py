"""C32: time-ordered data."""
from concurrent.futures import ThreadPoolExecutor

from c30 import dd

CFG = "CONSTANTS\n MaxPieces = %d\n MaxLen = %d\nSPECIFICATION Spec\nINVARIANTS Whole Joins\n"
NAMES = ["vis", "flag", "gain", "temp", "mask"]


def prod(sh):
    n = 1
    for x in sh:
        n *= x
    return n


def layout(rng, taxes, dist):
    """Axes of the datasets, common to all pieces."""
    other = {"freq": rng.randint(1, 5), "el": rng.randint(1, 4), "pol": rng.randint(1, 3)}
    ds = {}
    for nm in rng.sample(NAMES, rng.randint(1, 5)):
        t = rng.random() < .7
        ax = rng.sample(list(other), rng.randint(0 if t else 1, 3 if rng.random() < .3 else 2))
        if t:
            ta = rng.choice(taxes) if rng.random() < .35 else taxes[0]
            ax.insert(rng.randrange(len(ax) + 1) if rng.random() < .5 else len(ax), ta)
        cand = [j for j, a in enumerate(ax) if a in other]
        d = dist and cand and rng.random() < .6
        ds[nm] = dict(axes=ax, dt=rng.choice(["f8", "i8", "f4", "c16", "i4"]), dist=bool(d), dax=rng.choice(cand) if d else -1)
    return other, ds


def bound(rng, n):
    r = rng.random()
    if r < .2:
        return dict(given=False, i=0)
    if r < .3:
        return dict(given=True, i=rng.choice([0, n, -n, n + 3, -n - 4]))
    return dict(given=True, i=rng.randint(-n - 2, n + 2))


def bounds(rng, taxes, tot):
    if rng.random() < .6:
        return dict(k="all", b=bound(rng, tot[taxes[0]]), np=rng.random() < .2)
    return dict(k="each", d={a: bound(rng, tot[a]) for a in taxes if rng.random() < .7}, b=dict(given=False, i=0))


def gen(rng, p):
    k = "concat" if p > 1 or rng.random() < .65 else "reader"
    dist = p > 1 and rng.random() < .85
    taxes = ["time"] if rng.random() < .6 else ["time", "gated"] if rng.random() < .7 else ["gated", "time"]
    other, lay = layout(rng, taxes, dist)
    has = ["time"] + [t for t in taxes if t != "time" and (rng.random() < .8 or any(t in s["axes"] for s in lay.values()))]
    align = rng.choice([0, 0, 0, 1, -1]) if k == "reader" else 0
    npc = rng.choice([1, 2, 2, 3, 3, 4])
    spacing = rng.choice([2, 4, 10])
    pieces, base, tot = [], 0, {a: 0 for a in taxes}
    t0 = rng.choice([0, 100, 5000])
    last = {a: t0 for a in taxes}
    uattr = rng.random() < .7
    for j in range(npc):
        n = {a: rng.choice([0, 1, 1, 2, 3, 4]) for a in has}
        gaps = rng.random() < .5
        if k == "reader" and j == 0:
            n["time"] = max(n["time"], 3 if align else 1)
        im = {}
        for a in has:
            vs = []
            for _ in range(n[a]):
                vs.append(last[a])
                last[a] += spacing * (rng.choice([0, 1, 1, 2, 3, 7]) if gaps else 1)
            im[a] = dict(vals=vs, attrs={})
            tot[a] += n[a]
        if align:
            im["time"]["attrs"]["alignment"] = align
        for a, m in other.items():
            im[a] = dict(vals=[rng.randint(0, 99) for _ in range(m)], attrs={"u": rng.randint(0, 9)} if rng.random() < .3 else {},
                         U=(len(a) + t0 + spacing) % 3 == 0)
        ds = {}
        for nm, s in lay.items():
            sh = [n[a] if a in n else other[a] for a in s["axes"]]
            ds[nm] = dict(s, A=dict(shape=sh, data=[base + i for i in range(prod(sh))]),
                          attrs={x: rng.randint(0, 9) for x in ("u", "v") if uattr and rng.random() < .5})
            if j and set(s["axes"]) & set(taxes):       # assumed to be the same in all pieces
                ds[nm]["attrs"] = dict(pieces[0]["ds"][nm]["attrs"])
            base = (base + prod(sh)) % 700
        pieces.append(dict(im=im, rm={a: [rng.randint(0, 9) for _ in range(rng.randint(1, 4))] for a in ("freq", "time", "el") if rng.random() < .2},
                           attrs={"x": rng.randint(0, 9)} if rng.random() < .6 else {},
                           hist=[dict(name=h, val=rng.randint(0, 9)) for h in ("h2", "h1") if rng.random() < .4], ds=ds))
    ts = [nm for nm, s in lay.items() if set(s["axes"]) & set(taxes)]
    case = dict(k=k, p=p, dist=dist, taxes=taxes, pieces=pieces, align=align, spacing=spacing, ctime=rng.random() < .3,
                fmt=rng.choice(["h5", "h5", "zarr"]), glob=rng.random() < .3, givefmt=rng.random() < .5)
    if k == "concat":
        names = dict(all=True, l=[]) if rng.random() < .6 else dict(all=False, l=[x for x in ts if rng.random() < .6] + (["nosuch"] if rng.random() < .1 else []))
        case.update(start=bounds(rng, taxes, tot), stop=bounds(rng, taxes, tot), names=names,
                    filt=rng.choice(["none"] * 5 + ["one", "two", "turn", "turn2"]) if p == 1 else "none",
                    src=rng.choice(["mem", "disk", "files"]) if p == 1 else "mem", ondisk=rng.random() < .7,
                    out=rng.choice(["", "", "mem", "h5"]) if p == 1 else "", tuple=rng.random() < .2)
        if case["filt"] != "none":       # tokens of complex type cannot be doubled
            for pc in pieces:
                for d in pc["ds"].values():
                    d["dt"] = "f8" if d["dt"] == "c16" else d["dt"]
        case["onfile"] = case["src"] != "mem" or case["out"] == "h5"
    else:
        prog = []
        lo, hi = t0 - 2 * spacing, last["time"] + 2 * spacing
        tb = lambda: dict(given=rng.random() < .75, i=rng.randint(lo, hi))
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            if r < .25:
                m = tot["time"]
                prog.append(dict(op="tsel", a=rng.randint(-m, m), b=rng.randint(-m, m)))
            elif r < .6:
                prog.append(dict(op="range", t0=tb(), t1=tb()))
            elif r < .75:
                prog.append(dict(op="dsel", names=[x for x in ts + (["gainx"] if rng.random() < .2 else []) if rng.random() < .6]))
            prog.append(dict(op="read"))
        case.update(prog=prog, onfile=True)
    return case


def differs(w, g, r):
    for f in ("attrs", "hist", "rm"):
        a = w[f] if f == "hist" else dd(w[f])
        if a != g[f]:
            return f, a, g[f]
    wi = dd(w["im"])
    if sorted(wi) != sorted(g["im"]):
        return "axes", sorted(wi), sorted(g["im"])
    for a, x in wi.items():
        y = g["im"][a]
        if x["vals"] != y["vals"] or dd(x["attrs"]) != y["attrs"]:
            return "index map " + a, x, y
    wd = dd(w["ds"])
    if sorted(wd) != sorted(g["ds"]):
        return "datasets", sorted(wd), sorted(g["ds"])
    for n, x in wd.items():
        y = g["ds"][n]
        if x["axes"] != y["axes"] or x["dt"] != y["dt"] or dd(x["attrs"]) != y["attrs"]:
            return f"metadata of {n}", {f: x[f] for f in ("axes", "dt", "attrs")}, {f: y[f] for f in ("axes", "dt", "attrs")}
        xr, yr = x["ranks"][r], y["rank"]
        if yr.get("bad") or any(xr[f] != yr[f] for f in ("t", "axis", "gshape", "start", "shape", "data")):
            return f"data of {n}", xr, yr
    return None


def judge(c, k, w, o):
    if any("driver_exc" in (x or {}) for x in o):
        return c.violation("driver", dict(case=k, got=o))
    for r in range(k["p"]):
        g = o[r]
        det = dict(case=k, rank=r)
        if "exc" in g:
            return c.violation(f"{k['k']} raised", dict(det, got=g))
        if k["k"] == "concat":
            d = differs(w["out"], g["out"], r)
            if d:
                return c.violation("concatenated " + d[0].split(" of ")[0], dict(det, what=d[0], want=d[1], got=d[2]))
            if not g["cls"] or g["dist"] != k["dist"]:
                return c.violation("class of the result", dict(det, got=[g["cls"], g["dist"]]))
            if not g["args"]:
                return c.violation("arguments changed", det)
            for j, x in enumerate(w["ins"]):
                d = differs(x, g["ins"][j], r)
                if d:
                    return c.violation("inputs changed", dict(det, piece=j, what=d[0], want=d[1], got=d[2]))
        else:
            if w["time4"] != g["time4"]:
                return c.violation("reader time", dict(det, want=w["time4"], got=g["time4"]))
            if sorted(w["datasets"]) != g["datasets"]:
                return c.violation("reader datasets", dict(det, want=w["datasets"], got=g["datasets"]))
            for j, (x, y) in enumerate(zip(w["steps"], g["steps"])):
                det["step"] = j
                if x["err"] != y["err"]:
                    return c.violation("reader " + k["prog"][j]["op"], dict(det, want=x["err"], got=y))
                if sorted(x["names"]) != y["names"]:
                    return c.violation("reader dataset selection", dict(det, want=x["names"], got=y["names"]))
                if "res" in x:
                    d = differs(x["res"], y["res"], r)
                    if d:
                        return c.violation("read " + d[0].split(" of ")[0], dict(det, what=d[0], want=d[1], got=d[2], sel=[y["a"], y["b"]]))


def run(c):
    c.exts("truncate")
    n = c.pick(700, 6000)
    batches = [(np_, [gen(c.rng, np_ if np_ < 4 else c.rng.choice([2, 3, 4])) for _ in range(int(n * share))])
               for np_, share in ((1, .7), (4, .3))]
    with ThreadPoolExecutor(8) as ex:
        mod = ex.submit(c.model, "MC_Tod", CFG % (c.pick(3, 4), 2), workers=3, must_cover=("Begin", "CopyPiece"), min_states=5000,
                        timeout=c.pick(700, 3000))
        fut = [ex.submit(c.drive, "tod", cs, np=np_, timeout=c.pick(500, 3000)) for np_, cs in batches]
        allc = [x for _, cs in batches for x in cs]
        want = c.evaluate("Tod", allc, op="RunTod")
        obs = []
        for (np_, cs), f in zip(batches, fut):
            rs = f.result()
            obs += [[r] for r in rs] if np_ == 1 else rs
        mod.result()
    for k, w, o in zip(allc, want, obs):
        c.validated()
        c.sample(dict(kind=k["k"], pieces=len(k["pieces"]), taxes=k["taxes"], start=k.get("start"), stop=k.get("stop"), prog=k.get("prog")))
        judge(c, k, w, o)
