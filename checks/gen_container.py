"""Random container programs (inputs only; what they mean is decided by Container.tla)."""
import gen_array as G

AXES = ["freq", "time", "el", "pix"]
DSETS = ["vis", "weight", "gain", "flag", "aux"]
DT = ["i8", "f8", "f4", "c8", "c16", "i4", "rec"]
FIXED = {"3": 3, "2": 2, "1": 1}


def over(layers, f):
    out = {}
    for l in reversed(layers):
        out.update(l[f])
    return out


def spec_of(cl):
    s = over(cl["layers"], "spec")
    for nm, t in over(cl["layers"], "tables").items():
        s[nm] = dict(axes=[t["axis"] if t["hasaxis"] else nm + "_index"],
                     init=t["init"] if t["hasinit"] else True, dt="rec", hasdist=True,
                     dist=t["hasdist"] and t["dist"], table=True)
    return s


def axes_of(cl):
    a = {x for l in cl["layers"] for x in l["axes"]}
    return sorted(a | {s["axes"][0] for s in spec_of(cl).values() if s.get("table")})


def rspec(rng, axes, comp, twice=False):
    k = rng.randint(1, min(3, len(axes)))
    ax = rng.sample(axes, k)
    if rng.random() < .12:
        ax.insert(rng.randrange(len(ax) + 1), rng.choice(list(FIXED)))
    if twice and rng.random() < .12:
        ax.insert(rng.randrange(len(ax) + 1), rng.choice(ax))
    hasdax = rng.random() < .5
    return dict(axes=ax, dt=rng.choice(DT), init=rng.random() < .65, initkey=rng.random() < .3,
                hasdist=rng.random() < .5, dist=rng.random() < .7, hasdax=hasdax,
                dax=rng.choice([a for a in ax if a not in FIXED]) if hasdax else "",
                chunks=[rng.randint(1, 5) for _ in ax] if rng.random() < .4 else [],
                comp=rng.choice(["gzip:4", "gzip:0", "gzip:9"]) if comp and rng.random() < .3 else "")


def rclasses(rng, simple=False, comp=False, twice=False):
    """Class declarations, and for each its layers in method resolution order."""
    n = 1 if simple else rng.choice([1, 2, 2, 3, 4, 4])
    tables = not simple and rng.random() < .25
    shape = rng.choice(["chain", "diamond", "random"])
    decl, py, names = [], {}, []
    used = rng.sample(AXES, rng.randint(2, 4))
    root = type("root", (), {})
    troot = type("troot", (root,), {})
    for i in range(n):
        if i == 0:
            bases = []
        elif shape == "chain":
            bases = [names[-1]]
        elif shape == "diamond" and n == 4:
            bases = [[], [names[0]], [names[0]], [names[1], names[2]] if i == 3 else []][i]
        else:
            bases = rng.sample(names, min(len(names), rng.choice([0, 1, 1, 2])))
        table = tables and rng.random() < .7
        full = i == 0 or simple
        ax = rng.sample(used, rng.randint(1, len(used))) if full or rng.random() < .6 else None
        sp = None
        if full or rng.random() < .7:
            pool = used if full or rng.random() < .9 else AXES
            sp = {nm: rspec(rng, pool if ax is None or rng.random() < .4 else ax, comp, twice)
                  for nm in rng.sample(DSETS, rng.randint(1, 4))}
        tb = None
        if table:
            tb = {nm: dict(hasaxis=rng.random() < .5, axis=rng.choice(AXES), hasinit=rng.random() < .5,
                           init=rng.random() < .5, hasdist=rng.random() < .5, dist=rng.random() < .6)
                  for nm in rng.sample(["tab", "cat", "aux"], rng.randint(1, 2))}
        nm = "K" + "x" * i      # each name begins with the ones before
        pybases = tuple(py[b] for b in bases) or ((troot if table else root),)
        try:
            t = type(nm, pybases, {})
        except TypeError:
            bases = bases[:1]
            pybases = (py[bases[0]],)
            t = type(nm, pybases, {})
        if table and not issubclass(t, troot):
            table, tb = False, None
        py[nm] = t
        names.append(nm)
        decl.append(dict(name=nm, bases=bases, axes=ax, spec=sp, tables=tb, table=table))
    by = {d["name"]: d for d in decl}
    classes = {}
    for nm in names:
        lay = [by[t.__name__] for t in py[nm].__mro__ if t.__name__ in by]
        istab = issubclass(py[nm], troot)
        classes[nm] = dict(layers=[dict(axes=d["axes"] or [], spec=d["spec"] or {},
                                        tables=(d["tables"] or {}) if istab else {}) for d in lay])
    return decl, classes


class Gen:
    """Keeps just enough of the state to propose sensible operations."""

    def __init__(self, rng, p, simple=False, comp=False, maxlen=6, twice=False):
        self.rng, self.p, self.maxlen = rng, p, maxlen
        while True:
            self.decl, self.classes = rclasses(rng, simple, comp, twice)
            ok = [k for k, v in self.classes.items() if axes_of(v) and spec_of(v) and all(
                set(x["axes"]) <= set(axes_of(v)) | set(FIXED) for x in spec_of(v).values() if x["init"])]
            if ok:
                break
        self.good = ok      # classes of which a container can be made
        self.prog = []
        self.st = {}
        self.base = 0

    def case(self, **kw):
        return dict(p=self.p, decl=self.decl, classes=self.classes, fixed=FIXED, prog=self.prog, **kw)

    def axis(self, n=None, vals=None):
        rng = self.rng
        if n is None:
            n = rng.choice([rng.randint(1, self.maxlen), rng.randint(1, 4), rng.randint(0, 2)] if self.maxlen < 7 else
                           [rng.randint(1, self.maxlen)] * 4 + [rng.randint(0, 2)])
        if vals is None and rng.random() < .4:
            return dict(k="n", n=n, vals=[], dt="i8", npint=rng.random() < .3)
        v = vals if vals is not None else [rng.randint(0, 90) for _ in range(n)]
        dt = rng.choice(["i8", "f8", "U8", "rec", "i4"])
        return dict(k="vals", n=0, vals=v, dt=dt, aslist=False)

    def note(self, o, cls, im, ds, dist):
        self.st[o["c"]] = dict(cls=cls, im=im, ds=ds, dist=dist, known=set())

    def vals(self, v):
        return list(range(v["n"])) if v["k"] == "n" else v["vals"]

    def make(self, c, cls=None, dist=None, full=True, source=None, faults=0):
        rng = self.rng
        cls = cls or rng.choice(self.good if rng.random() < .95 else [k for k, v in self.classes.items() if axes_of(v)])
        cl = self.classes[cls]
        axes = axes_of(cl)
        dist = rng.random() < .75 if dist is None else dist
        o = dict(op="make", c=c, cls=cls, kw={}, axesfrom="", attrsfrom="", dsetsfrom="", copyfrom="", dist=dist,
                 skip=rng.random() < .15, chunked=rng.random() < .8, chunkkey=rng.random() < .2)
        im, ds = {}, set()
        src = None
        if source:
            src = self.st[source]
            how = rng.choice(["copy", "copy", "axes", "axes+attrs", "axes+dsets", "attrs"])
            ss, ts = spec_of(self.classes[src["cls"]]) | src.get("ispec", {}), spec_of(cl)
            if any(ss[n]["axes"] != ts[n]["axes"] or ss[n]["dt"] != ts[n]["dt"] for n in ss if n in ts):
                how = rng.choice(["axes", "axes+attrs", "attrs"])
            if how == "copy":
                o["copyfrom"] = source
            if how.startswith("axes"):
                o["axesfrom"] = source
            if "attrs" in how:
                o["attrsfrom"] = source
            if "dsets" in how:
                o["dsetsfrom"] = source
            if how == "attrs":
                src = None
        for ax in axes:
            if src and ax in src["im"] and rng.random() < .75:
                im[ax] = src["im"][ax]
            elif rng.random() < faults:
                if rng.random() < .3:
                    o["kw"][ax] = dict(k="none", n=0, vals=[], dt="i8")
                continue
            else:
                o["kw"][ax] = self.axis()
                im[ax] = self.vals(o["kw"][ax])
        if rng.random() < .1:
            o["kw"]["nosuch"] = self.axis()
        sp = spec_of(cl)
        if not o["skip"]:
            ds |= {nm for nm, s in sp.items() if s["init"]}
        self.prog.append(o)
        if all(ax in im for ax in axes):
            self.note(o, cls, im, ds, dist)
        else:
            self.st.pop(c, None)
        return o

    def like(self, c, src, kw=None, dist=None):
        s = self.st[src]
        o = dict(op="like", c=c, src=src, kw=kw or {}, dist=s["dist"] if dist is None else dist)
        im = dict(s["im"])
        im.update({a: self.vals(v) for a, v in o["kw"].items()})
        self.prog.append(o)
        sp = spec_of(self.classes[s["cls"]])
        self.note(o, s["cls"], im, {nm for nm, x in sp.items() if x["init"]}, o["dist"])
        return o

    def add(self, c, ds=None):
        rng = self.rng
        st = self.st[c]
        sp = spec_of(self.classes[st["cls"]])
        nm = ds or (rng.choice(sorted(sp)) if rng.random() < .9 and sp else rng.choice(DSETS))
        self.prog.append(dict(op="add", c=c, ds=nm, slash=rng.random() < .2))
        if nm in sp and all(a in st["im"] or a in FIXED for a in sp[nm]["axes"]):
            st["ds"].add(nm)

    def ispec(self, c):
        """Declare a dataset on the container itself, one it does not hold yet."""
        rng, st = self.rng, self.st[c]
        last = [o for o in self.prog if o["c"] == c and o["op"] in ("make", "like", "load")][-1]
        free = ["own", "own2"]
        if not (last.get("copyfrom") or last.get("dsetsfrom")):
            free += [n for n in spec_of(self.classes[st["cls"]]) if n not in st["ds"]]
        added = {o["ds"] for o in self.prog if o["c"] == c and o["op"] in ("add", "ispec")}
        free = [n for n in free if n not in added]
        if free and st["im"]:
            nm = rng.choice(free)
            sp = rspec(rng, sorted(st["im"]), True)
            st.setdefault("ispec", {})[nm] = sp
            self.prog.append(dict(op="ispec", c=c, ds=nm, spec=sp))
            self.prog.append(dict(op="add", c=c, ds=nm, slash=rng.random() < .2))

    def can(self, c):
        """datasets believed present whose axes exist"""
        st = self.st[c]
        sp = spec_of(self.classes[st["cls"]])
        return [n for n in sorted(st["ds"]) if n in sp and all(a in st["im"] or a in FIXED for a in sp[n]["axes"])]

    def write(self, c, ds):
        self.prog.append(dict(op="write", c=c, ds=ds, base=self.base))
        self.base = (self.base + 37) % 900

    def fill(self, c):
        for n in self.can(c):
            self.write(c, n)

    def attr(self, c):
        rng = self.rng
        st = self.st[c]
        at = rng.choice(["root", "axis", "dset"])
        on = ""
        if at == "axis":
            on = rng.choice(sorted(st["im"]) or ["freq"])
        elif at == "dset":
            on = rng.choice(self.can(c) or DSETS[:1])
        self.prog.append(dict(op="attr", c=c, at=at, on=on, key=rng.choice(["u", "v", "w"]), val=rng.randint(0, 99)))

    def hist(self, c):
        self.prog.append(dict(op="hist", c=c, name=self.rng.choice(["h1", "h2", "a/b", "h3", "x y", "order"]) + self.rng.choice(["", "", "2"]),
                              val=self.rng.randint(0, 99)))

    def redist(self, c):
        rng = self.rng
        ax = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < .6:
                ax.append(dict(k="name", name=rng.choice(AXES + ["nosuch"]), i=0))
            else:
                ax.append(dict(k="num", name="", i=rng.randint(-4, 4)))
        self.prog.append(dict(op="redist", c=c, axes=ax, bare=rng.random() < .7, tuple=rng.random() < .4))

    def convert(self, c):
        rng = self.rng
        ds = self.can(c)
        if not ds:
            return
        d = rng.choice(ds)
        nd = len(spec_of(self.classes[self.st[c]["cls"]])[d]["axes"])
        if rng.random() < .55:
            self.prog.append(dict(op="todist", c=c, ds=d, ax=rng.randrange(-nd, nd)))
        else:
            self.prog.append(dict(op="tocommon", c=c, ds=d))

    def rsel(self, n, lists=True, order=False):
        rng = self.rng
        if lists and n and rng.random() < .45:
            k = rng.randint(1, n)
            l = sorted(rng.sample(range(n), k))
            r = rng.random()
            if order and r < .2:
                rng.shuffle(l)
            elif order and r < .5 and n > 3:      # a run with the ends in place, the middle mixed or repeated
                a = rng.randrange(n - 3)
                l = list(range(a, rng.randint(a + 4, n)))
                k = len(l)
                m = [rng.choice(l[1:-1]) for _ in l[2:]] if rng.random() < .4 else rng.sample(l[1:-1], k - 2)
                l = [l[0], *m, l[-1]]
            elif r < .7:          # a contiguous run
                a = rng.randrange(n)
                l = list(range(a, rng.randint(a + 1, n)))
            if order and rng.random() < .15:
                l = [i - n for i in l]
            if order and rng.random() < .1:
                l = l + l[:1]
            return dict(k="list", l=l)
        if rng.random() < .15:
            return dict(G.FULL)
        return G.rslice(rng, n, (1, 1, 1, 2, 3))

    def rsels(self, c, order=False, some=True):
        rng = self.rng
        im = self.st[c]["im"]
        axes = [a for a in sorted(im) if rng.random() < .5]
        if some and not axes and im:
            axes = [rng.choice(sorted(im))]
        return {a: self.rsel(len(im[a]), order=order) for a in axes}


def take(vals, it):
    if it["k"] == "list":
        return [vals[i] for i in it["l"]]
    return vals[(slice(it["a"] if it["ha"] else None, it["b"] if it["hb"] else None, it["s"]))]


def case_c30(rng, p):
    g = Gen(rng, p, comp=True, twice=True)
    g.make("a", faults=.03)
    if rng.random() < .08:
        for _ in range(rng.randint(9, 14)):
            g.hist("a")
    if rng.random() < .2 and "a" in g.st:
        g.ispec("a")
    if rng.random() < .2:
        g.prog.append(dict(op="hint", c="a"))
    names = ["a", "b", "c", "d"]
    for i in range(rng.randint(4, 10)):
        have = [n for n in names if n in g.st]
        if not have:
            g.make("a")
            continue
        c = rng.choice(have)
        r = rng.random()
        if r < .3:
            g.make(rng.choice(names), source=rng.choice(have + [None]), faults=.05)
        elif r < .42:
            src = rng.choice(have)
            kw = {a: g.axis() for a in sorted(g.st[src]["im"]) if rng.random() < .3}
            g.like(rng.choice([n for n in names if n != src]), src, kw, dist=rng.random() < .75)
        elif r < .57:
            g.add(c)
        elif r < .72:
            d = g.can(c)
            if d:
                g.write(c, rng.choice(d))
        elif r < .84:
            g.attr(c)
        elif r < .92:
            g.hist(c)
        elif r < .935:
            g.prog.append(dict(op="chunk", c=c))
        elif r < .955:
            g.prog.append(dict(op="hint", c=c))
        elif r < .985:
            g.ispec(c)
        else:
            g.redist(c)
    return g.case()


def start(g, rng, dist=None):
    g.make("a", dist=dist, cls=rng.choice(g.good))
    for _ in range(rng.randint(0, 2)):
        g.add("a")
    g.fill("a")
    for _ in range(rng.randint(0, 3)):
        g.attr("a")
    if rng.random() < .5:
        g.hist("a")


def case_c33(rng, p):
    g = Gen(rng, p, simple=rng.random() < .7, twice=True)
    start(g, rng, dist=rng.random() < .92)
    for _ in range(rng.randint(2, 8)):
        r = rng.random()
        if r < .6:
            g.redist("a")
        elif r < .92:
            g.convert("a")
        elif g.can("a"):
            g.write("a", rng.choice(g.can("a")))
    return g.case()


def case_c24(rng, p):
    g = Gen(rng, p, simple=rng.random() < .6, twice=True)
    start(g, rng)
    if rng.random() < .4:
        g.redist("a")
    src = "a"
    for i in range(rng.choice([1, 1, 2, 3])):
        st = g.st[src]
        sels = g.rsels(src, some=rng.random() < .9)
        if rng.random() < .05:
            sels["nosuch"] = g.rsel(3)
        new = f"l{i}"
        if rng.random() < .25:       # by path, of a plain tree
            psels = {}
            for n in g.can(src):
                if rng.random() < .5:
                    ax = spec_of(g.classes[st["cls"]])[n]["axes"]
                    ln = [FIXED[a] if a in FIXED else len(st["im"][a]) for a in ax]
                    psels[n] = [g.rsel(m) for m in ln[: rng.randint(1, len(ln))]]
            for a in sorted(st["im"]):
                if rng.random() < .3:
                    psels["index_map/" + a] = [g.rsel(len(st["im"][a]))]
            g.prog.append(dict(op="paths", c="q", src=src, psels=psels, bare=rng.random() < .6, slash=rng.randint(0, 1),
                               dist=rng.random() < .6 and (src == "a" or st["dist"]), fmt=rng.choice(["h5", "zarr"]),
                               givefmt=rng.random() < .5))
        o = dict(op="load", c=new, src=src, sels=sels,
                 # a file written after a load without distribution keeps the first file's hints
                 dist=rng.random() < .6 and (src == "a" or st["dist"]), fmt=rng.choice(["h5", "zarr"]),
                 givefmt=rng.random() < .5, listkind="list")
        g.prog.append(o)
        if "nosuch" in sels:
            break
        g.st[new] = dict(cls=st["cls"], im={a: take(v, sels[a]) if a in sels else v for a, v in st["im"].items()},
                         ds=set(st["ds"]), dist=o["dist"], known=set())
        if rng.random() < .6:
            src = new
        if rng.random() < .2:
            g.redist(src)
        if rng.random() < .15:
            g.like("e", src)
    return g.case()


def case_c31(rng, p):
    g = Gen(rng, p, simple=rng.random() < .7, maxlen=rng.choice([4, 7, 7]))
    start(g, rng)
    if rng.random() < .4:
        g.redist("a")
    if rng.random() < .2:
        g.convert("a")
    st = g.st["a"]
    cl = g.classes[st["cls"]]
    for i in range(rng.choice([1, 1, 2])):
        sels = g.rsels("a", order=True)
        if rng.random() < .25:
            x = rng.choice(sorted(sels)) if sels else None
            sels = {x: sels[x]} if x else {}
        if len(sels) > 1 and rng.random() < .3:      # one selection for all the axes
            sels = dict.fromkeys(sels, g.rsel(min(len(st["im"][a]) for a in sels)))
        kw = {a: g.axis(vals=take(st["im"][a], it)) for a, it in sels.items()}
        dst = f"f{i}"
        ddist = st["dist"] if rng.random() < .93 else not st["dist"]
        if rng.random() < .6:
            g.like(dst, "a", kw, dist=ddist)
        else:
            o = dict(op="make", c=dst, cls=st["cls"], kw=kw, axesfrom="a", attrsfrom="", dsetsfrom="", copyfrom="",
                     dist=ddist, skip=rng.random() < .5, chunked=True)
            g.prog.append(o)
            g.note(o, st["cls"], {a: g.vals(kw[a]) if a in kw else v for a, v in st["im"].items()},
                   set() if o["skip"] else {n for n, s in spec_of(cl).items() if s["init"]}, ddist)
        axis = []
        if rng.random() < .5:
            axis = [a for a in sorted(sels) if rng.random() < (.95 if len({str(v) for v in sels.values()}) == 1 else .8)]
        if rng.random() < .04:
            axis = sorted(set(axis) | {"nosuch"})
        # a dataset left out of the destination's reach by an unselected axis stays consistent
        excl = [a for a in AXES if rng.random() < .15]
        pos = "axis-sel" if sels and len({str(v) for v in sels.values()}) == 1 and axis == sorted(sels) and rng.random() < .5 else ""
        g.prog.append(dict(op="filter", c=dst, src="a", axis=axis, sels=sels, excl=excl, all=rng.random() < .4,
                           bare=rng.random() < .7, tuple=rng.random() < .4, positional=pos,
                           listkind=rng.choice(["list", "list", "tuple", "array"])))
        if rng.random() < .2:
            g.redist("a")
    return g.case()
