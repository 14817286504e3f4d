"""C06: what container tasks do with their results."""
CFG = """CONSTANTS
 MaxSteps = %d
 NC = %d
SPECIFICATION Spec
INVARIANTS OnceEach Screened NoneLost Tagged SavedOnly SavedAll Counted
"""


def V(s):
    return dict(lit=False, s=s)


def L(s, raw=None):
    return dict(lit=True, s=s, raw=raw or s)


def fmt(rng, ext=None, strict=True):
    v = ["tag", "tag", "count", "key", "task", "output_root", "who", "lsd"]
    f = [rng.choice([V(rng.choice(v[:6] if strict else v)), L(rng.choice(["t", "out", "x"])), V("tag"), V("count")]) for _ in range(rng.randint(1, 3))]
    if rng.random() < .15:
        f.append(L("{q}", "{{q}}"))
    if ext:
        if rng.random() < .15:
            f.insert(0, L("envd/", "$VPDIR/"))
        elif rng.random() < .2:
            f.insert(0, L("deep/er/"))
        f.append(L(ext))
    return f


def case(rng, np):
    strict = rng.random() < .7
    wide = rng.choice([1, 1, 1, 2, 2, 3])
    keys = [] if rng.random() < .12 else ["a", "b", "c"][:wide]
    nin = rng.choice([0, 1, 1, 1, 2, 3])
    nc = rng.randint(wide, 7)
    conts = []
    for i in range(nc):
        at = []
        if rng.random() < .45:
            at.append(dict(k="tag", v=rng.choice([dict(t="str", s="x"), dict(t="str", s="y"), dict(t="str", s="sub/z"), dict(t="int", n=0), dict(t="int", n=3), dict(t="str", s="None")])))
        if rng.random() < (.9 if not strict else .4):
            at.append(dict(k="who", v=dict(t="str", s=rng.choice(["me", "you"]))))
        if rng.random() < (.9 if not strict else .4):
            at.append(dict(k="lsd", v=dict(t="int", n=rng.randint(0, 99))))
        where = rng.choice(["", "", "", "", "data", "re", "im", "map", "scal", "deep"])
        conts.append(dict(attrs=at, bad=bool(where), where=where, what=rng.choice(["nan", "inf", "ninf"]), at=rng.randrange(6), comp="spec", hist=0,
                          extra=[x for x in ("word", "rec", "scal", "deep") if rng.random() < .15 or x == where]))

    def outs():
        return rng.sample(range(1, nc + 1), wide)
    steps = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        ins = [rng.choice([0] + list(range(1, nc + 1)) * 2) for _ in range(nin)]
        res = rng.choice(["out"] * 5 + ["none"])
        o = outs() if res == "out" else []
        if o and wide == 1 and nin and ins[0] and rng.random() < .3:
            o = [ins[0]]
        steps.append(dict(ins=ins, res=res, outs=o, done=rng.random() < .06))
    if nin == 0:
        if rng.random() < .3:
            steps[-1]["done"] = True
        else:
            steps.append(dict(ins=[], res="stop", outs=[], done=False))
    elif rng.random() < .1:
        steps[-1].update(res="stop", outs=[])
    fin = rng.choice(["absent", "absent", "none", "out"])
    aslist = rng.random() < .2
    # lists only where there is one entry for each output
    save = [rng.random() < .6 for _ in range(wide)] if (wide > 1 and rng.random() < .5) or aslist else [rng.random() < .75]
    ext = rng.choice([".h5", ".h5", ".h5", ".zarr"])
    hasname = rng.random() < .7
    names = [fmt(rng, ext, strict) for _ in range(wide if (wide > 1 and rng.random() < .5) or aslist else 1)]
    if not hasname:
        names, ext = [[V("output_root"), V("tag"), L(".h5")]], ".h5"
    tag = [V("tag")] if rng.random() < .6 else fmt(rng, None, strict)
    attrs = []
    for k in ("note", "lsd", "tag"):
        if rng.random() < .2:
            attrs.append(dict(k=k, isfmt=True, f=fmt(rng, None, strict), v=dict(t="str", s="")) if rng.random() < .6 else dict(k=k, isfmt=False, f=[], v=dict(t="int", n=rng.randint(0, 9))))
    mixed = len({f[-1]["s"] for f in names}) > 1
    cfg = dict(save=save, name=names, tag=tag, attrs=attrs, check=rng.random() < .8, skip=rng.random() < .6, dump=rng.random() < .6,
               comp=rng.choice(["spec", "spec", "plain", "over"]), root=rng.choice(["", "", "r_", "dd/"]), keys=keys, task=rng.choice(["Worker", "Gen"]))
    if rng.random() < .3:
        cfg.update(check=True, skip=True, dump=True)
    return dict(cfg=cfg, conts=conts, steps=steps, fin=dict(res=fin, outs=outs() if fin == "out" else []), nin=nin, aslist=aslist, hasname=hasname,
                emptycomp=rng.random() < .3, format=("" if mixed or rng.random() < .7 else "zarr" if ext == ".zarr" else "hdf5"),
                versions={"m": "1.%d" % rng.randint(0, 9)}, config={"p": {"q": [rng.randint(0, 9)]}})


def run(c):
    c.exts("truncate")
    c.model("MC_ContTask", CFG % c.pick((2, 4), (1, 8)), workers=6, min_states=10000, must_cover=["OutPair", "OutFed", "NoneOut", "Fin"])
    stats = dict(skipped=0, files=0, errors=0)
    for np, n in ((1, c.pick(700, 6000)), (2, c.pick(120, 800)), (3, c.pick(60, 400))):
        cases = [case(c.rng, np) for _ in range(n)]
        want = c.evaluate("ContTask", cases)
        got = c.drive("conttask", cases, np=np, timeout=800)
        for k, w, obs in zip(cases, want, got):
            for r, o in enumerate(obs if np > 1 else [obs]):
                judge(c, k, w, o, r, np, stats)
            c.validated()
        if np == 1:
            c.sample(dict(case=cases[1], expected=want[1]))
    c.cov.update(stats)
    c.assumptions += ["one entry per output in save and output_name lists", "several results of one call are different containers",
                      "distributed datasets only on several ranks"]


def judge(c, k, w, o, r, np, stats):
    def bad(what, a, b):
        c.violation(what, dict(case=k, expected=a, got=b, rank=r, np=np))
    if "calls" not in o:
        return bad("driver", w, o)
    if bool(o["exc"]) != w["err"]:
        return bad("error", w["err"], o["exc"])
    if o["calls"] != w["calls"]:
        return bad("inputs given to process", w["calls"], o["calls"])
    if any(a != b for a, b in o["left"]):
        return bad("data changed", k["conts"], o["left"])
    stats["errors"] += w["err"]
    if not w["err"]:
        em = [[x[j] for x in w["out"]] for j in range(len(k["cfg"]["keys"]))]
        stats["skipped"] += sum(x.count(0) for x in em)
        if em != o["got"]:
            return bad("outputs passed on", em, o["got"])
        at = [{a["k"]: a["v"] for a in x} for x in w["conts"]]
        if at != o["attrs"]:
            return bad("attributes", at, o["attrs"])
    if r:
        return
    files = {f["name"].replace("//", "/"): f for f in w["files"]}
    seen = {f["name"]: f for f in o["files"]}
    if sorted(files) != sorted(seen):
        return bad("files written", sorted(files), sorted(seen))
    for n, f in files.items():
        g = seen[n]
        stats["files"] += 1
        if g["id"] != f["id"] or not g.get("same"):
            return bad("file contents", f, g)
        if {a["k"]: a["v"] for a in f["attrs"]} != g["attrs"]:
            return bad("attributes in file", f, g)
        if not g["zarr"] and f["comp"] != g["comp"]:
            return bad("compression", f, g)
        if g["order"] != ["versions", "config"] * f["hist"] or (f["hist"] and g["hist"] != [True, True]):
            return bad("history in file", f, g)
