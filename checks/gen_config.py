"""Random configuration values, declarations and classes."""


def s(text, isint=False, n=0, isfloat=False, h=0):
    return dict(t="str", s=text, up=text.upper(), isint=isint, n=n, isfloat=isfloat, h=h)


def i(n):
    return dict(t="int", n=n)


NONE = dict(t="none")
STRS = [s("abc"), s(""), s("Q"), s("5", True, 5, True, 10), s("-3", True, -3, True, -6), s("2.5", False, 0, True, 5),
        s("info"), s("DEBUG"), s("Warning"), s("WARN"), s("error"), s("critical"), s("hdf5"), s("ZARR"), s("Hdf5"), s("netcdf")]
SCALARS = [i(0), i(1), i(7), i(-2), i(40), dict(t="float", h=5), dict(t="float", h=0), dict(t="float", h=8), dict(t="nan"),
           dict(t="bool", b=True), dict(t="bool", b=False)]


def time(rng):
    return dict(t="time", y=rng.choice([1970, 1999, 2000, 2016, 2024, 2037]), mo=rng.choice([1, 2, 3, 12, rng.randint(1, 12)]),
                d=rng.randint(1, 28), hh=rng.randint(0, 23), mi=rng.randint(0, 59), ss=rng.randint(0, 59), form=rng.choice(["str", "dt"]))


def lst(rng, kind=None, n=None):
    n = rng.randint(0, 4) if n is None else n
    pool = dict(int=[i(1), i(2), i(-4)], str=[s("abc"), s("x")], float=[dict(t="float", h=3), dict(t="float", h=2)]).get(kind) or \
        [i(1), s("abc"), dict(t="float", h=3), dict(t="bool", b=True), NONE]
    return dict(t="list", l=[rng.choice(pool) for _ in range(n)])


def mapping(rng, levels=False):
    ks = rng.sample(["root", "caput", "a.b", "z"], rng.randint(0, 3))
    vals = [s("info"), s("DEBUG"), s("Warning"), s("notset")] if levels else [i(1), s("abc"), lst(rng)]
    if levels and rng.random() < .25:
        vals = [s("loud"), i(3), NONE]
    return dict(t="map", m=[dict(k=k, v=rng.choice(vals)) for k in ks])


def alike(v):
    """A value of another type that reads alike."""
    if v["t"] == "int":
        return s(str(v["n"]), True, v["n"], True, 2 * v["n"])
    if v["t"] == "str":
        return s(v["s"] + " ") if v["s"] != "fast" else s("Fast")
    return s("2.5", False, 0, True, 5)


def value(rng, pt=None):
    """A value, mostly one of interest to the type."""
    p = pt["p"] if pt else None
    r = rng.random()
    if p and r < .65:
        if p in ("list", "any"):
            return lst(rng)
        if p == "listtype":
            n = pt["len"] if pt["len"] >= 0 and rng.random() < .6 else None
            if n is None and pt["max"] >= 0:
                n = rng.randint(0, pt["max"] + 1)
            return lst(rng, pt["elt"] if rng.random() < .7 else None, n)
        if p == "dict":
            return mapping(rng)
        if p == "log":
            return mapping(rng, True) if rng.random() < .6 else rng.choice(STRS[6:11] + [s("loud"), i(3)])
        if p == "enum":
            return rng.choice(pt["opts"] + [s("nope"), i(99), alike(rng.choice(pt["opts"]))])
        if p == "range":
            return rng.choice([dict(t="float", h=h) for h in (pt["lo"], pt["hi"], pt["lo"] - 1, pt["hi"] + 1, (pt["lo"] + pt["hi"]) // 2)] + [dict(t="nan"), i(3), STRS[3], STRS[0]])
        if p in ("level",):
            return rng.choice(STRS[6:12] + [s("Loud"), i(20), i(35)])
        if p == "fmt":
            return rng.choice([NONE, s("hdf5"), s("ZARR"), s("netcdf"), dict(t="fmt", s="zarr"), dict(t="fmt", s="hdf5"), i(1)])
        if p == "utc":
            return rng.choice([time(rng), time(rng), i(rng.randint(0, 2000000000)), s("yesterday")])
        return rng.choice(STRS[:6] + SCALARS)
    if p == "utc":
        return time(rng)
    pool = SCALARS + STRS + [NONE]
    if p not in ("str", "list", "dict"):
        return rng.choice(pool + [lst(rng), mapping(rng)])
    if p == "str":
        return rng.choice([x for x in pool if not (x["t"] == "float" and x["h"] < 0)])
    return rng.choice([i(3), NONE, dict(t="bool", b=True), dict(t="float", h=3)] + ([s("abc")] if p == "dict" else []))


def ptype(rng):
    e = dict(p=rng.choice(["any", "int", "int", "float", "str", "bool", "list", "dict", "enum", "listtype", "listtype", "range", "log", "fmt", "utc", "level"]),
             opts=[], elt="", len=-1, max=-1, lo=0, hi=0)
    if e["p"] == "enum":
        e["opts"] = rng.choice([[s("fast"), s("slow"), s("")], [i(1), i(2)], [s("abc"), i(7)], [i(0), dict(t="float", h=5)]])
    if e["p"] == "listtype":
        e["elt"] = rng.choice(["", "int", "str", "float"])
        r = rng.random()
        if r < .35:
            e["len"] = rng.randint(0, 3)
        elif r < .7:
            e["max"] = rng.randint(0, 3)
    if e["p"] == "range":
        e["lo"] = rng.randint(-3, 4)
        e["hi"] = e["lo"] + rng.randint(0, 8)
    return e


def default(rng, pt):
    """A default the type admits (so that reading it is defined)."""
    p = pt["p"]
    if rng.random() < .2 and p != "log":
        return NONE
    if p == "enum":
        return rng.choice(pt["opts"])
    if p == "listtype":
        n = pt["len"] if pt["len"] >= 0 else rng.randint(0, pt["max"] if pt["max"] >= 0 else 3)
        return lst(rng, pt["elt"] or "int", n)
    if p == "range":
        return dict(t="float", h=rng.randint(pt["lo"], pt["hi"]))
    if p == "log":
        return rng.choice([s("info"), dict(t="map", m=[dict(k="root", v=s("Warning"))]), dict(t="map", m=[])])
    if p == "fmt":
        return rng.choice([s("hdf5"), s("Zarr"), dict(t="fmt", s="zarr")])
    if p == "utc":
        return rng.choice([time(rng), i(1000)])
    if p == "level":
        return rng.choice([i(20), s("DEBUG"), s("warn")])
    if p == "dict":
        return mapping(rng)
    if p in ("list", "any"):
        return lst(rng) if rng.random() < .7 or p == "list" else rng.choice(SCALARS[:5] + STRS[:3])
    if p == "int":
        return rng.choice([i(3), STRS[3], dict(t="bool", b=True), dict(t="float", h=5)])
    if p == "float":
        return rng.choice([i(3), STRS[5], dict(t="float", h=5)])
    if p == "str":
        return rng.choice(STRS[:3] + [i(7), dict(t="float", h=5)])
    return rng.choice(SCALARS + STRS[:2])


NAMES = ["a", "b", "c", "d"]


def decl(rng, name):
    pt = ptype(rng)
    plain = pt["p"] in ("any", "int", "float", "str", "bool", "list", "dict", "level")
    return dict(name=name, key=rng.choice(["", "", "k_" + name, rng.choice(NAMES)]) if plain else "", pt=pt, **{"def": default(rng, pt)},
                dep=plain and rng.random() < .15, expl=rng.random() < .3)


def classes(rng):
    out = []
    real = []
    n = rng.randint(1, 4)
    for j in range(n):
        while True:
            bases = sorted(rng.sample(range(1, j + 1), rng.randint(0, min(2, j))), reverse=True)
            try:
                real_c = type(f"K{j}", tuple(real[b - 1] for b in bases), {})
                break
            except TypeError:
                continue
        real.append(real_c)
        mro = [real.index(c) + 1 for c in real_c.__mro__ if c in real]
        names = rng.sample(NAMES, rng.randint(0 if j else 1, 3))
        out.append(dict(bases=bases, mro=mro, decls=[decl(rng, x) for x in names], order={x: k for k, x in enumerate(NAMES)}))
    return out


def resolved(cls, c):
    res = {}
    for m in reversed(cls[c - 1]["mro"]):
        for d in cls[m - 1]["decls"]:
            res[d["name"]] = d
    return res


def norm(v):
    """A specified value reduced to what is observed."""
    if v["t"] == "str":
        return dict(t="str", s=v["s"])
    if v["t"] == "list":
        return dict(t="list", l=[norm(x) for x in v["l"]])
    if v["t"] == "map":
        return dict(t="map", m=[dict(k=x["k"], v=norm(x["v"])) for x in v["m"]])
    if v["t"] == "time":
        return dict(t="time")
    return v
