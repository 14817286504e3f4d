"""C42: lists of files and the tasks that load them."""
from c06 import L, V

CFG = """CONSTANTS
 MaxPat = %d
SPECIFICATION Spec
INVARIANTS Once Exists InOrder Exact
PROPERTIES AllRead
"""


def lit(c):
    return dict(k="lit", c=ord(c), set=[], neg=False)


def glob_of(rng, comps):
    """A pattern made from a path by replacing some characters."""
    out, txt = [], []
    for comp in comps:
        p, t, i = [], "", 0
        while i < len(comp):
            ch, r = comp[i], rng.random()
            if r < .2 or ch in "[]*?":
                n = rng.randint(0, len(comp) - i)
                if ch in "[]*?":
                    n = max(n, 1)
                p.append(dict(k="star", c=0, set=[], neg=False))
                t += "*"
                i += n
            elif r < .3:
                p.append(dict(k="any", c=0, set=[], neg=False))
                t += "?"
                i += 1
            elif r < .38 and ch.isalnum():
                neg = rng.random() < .25
                s = ch if rng.random() < .4 else ch + rng.choice("ab1")
                p.append(dict(k="set", c=0, set=[ord(x) for x in s], neg=neg))
                t += "[" + ("!" if neg else "") + s + "]"
                i += 1
            else:
                p.append(lit(ch))
                t += ch
                i += 1
        out.append(p)
        txt.append(t)
    return out, "/".join(txt)


def entry(rng, path, d=False, **kw):
    e = dict(str=path, comps=[[ord(x) for x in c] for c in path.split("/")], dir=d, attrs=[], stem=path.split("/")[-1].rsplit(".", 1)[0],
             nx=1, ny=1, px=-1, py=-1, kind="dir" if d else "file")
    e.update(kw)
    return e


def fspace(rng, real):
    names = ["f1.h5", "f2.h5", "f10.h5", "a.h5", "b.b.h5", "z.zarr", "y1.zarr", "sub/f1.h5", "sub/a.h5", "sub/z.zarr", "s2/f1.h5", ".hid.h5", "Q.h5"]
    if not real:
        names += ["a[1].h5", "a1.h5", "notes.txt", "f1", "bad.zarr"]
    use = rng.sample(names, rng.randint(2, 7))
    fs = []
    for n in use:
        isd = n.endswith(".zarr")
        if not real and rng.random() < .08:
            isd = not isd
        if real:
            at = []
            if rng.random() < .4:
                at.append(dict(k="tag", v=dict(t="str", s=rng.choice(["t1", "t2"]))))
            if rng.random() < .85:
                at.append(dict(k="lsd", v=dict(t="int", n=rng.randint(1, 4))))
            if rng.random() < .85:
                at.append(dict(k="who", v=dict(t="str", s=rng.choice(["f1", "f2", "a"]))))
            nx, ny = rng.randint(1, 6), rng.randint(1, 4)
            bad = rng.random() < .25
            fs.append(entry(rng, n, isd, attrs=at, nx=nx, ny=ny, px=rng.randrange(nx) if bad else -1, py=rng.randrange(ny) if bad else -1, kind="data"))
        else:
            fs.append(entry(rng, n, isd))
    for d in sorted({n.split("/")[0] for n in use if "/" in n}):
        fs.append(entry(rng, d, True))
    rng.shuffle(fs)
    return fs


def arg(rng, fs, deep=2, faults=True, one=False):
    r = rng.random()
    if deep and not one and r < .45:
        return dict(t="list", items=[arg(rng, fs, deep - 1, faults) for _ in range(rng.randint(0, 3))], str="", pat=[])
    if faults and r < .5:
        if rng.random() < .4:
            return dict(t="bad", what=rng.choice(["none", "num", "tup"]), items=[], str="", pat=[])
        return dict(t="path", str=rng.choice(["nofile.h5", "sub/none.h5", "no.zarr"]), items=[], pat=[])
    pool = [f for f in fs if (f["kind"] != "dir" or f["str"].endswith(".zarr") or (faults and rng.random() < .2))] or fs
    f = rng.choice(pool)
    if r < .75:
        p, t = glob_of(rng, f["str"].split("/"))
        if any(c in t for c in "*?["):
            return dict(t="glob", pat=p, str=t, items=[])
    if any(c in f["str"] for c in "[*?"):
        return arg(rng, fs, deep, faults, one)
    return dict(t="path", str=f["str"], items=[], pat=[])


def lists(rng):
    fs = fspace(rng, False)
    what = rng.choice(["one", "one", "lists", "groups"])
    case = dict(mode="lists", fs=fs, what=what, bare=rng.random() < .5, arg=dict(t="list", items=[], str="", pat=[]), groups=[])
    if what == "one":
        case["arg"] = arg(rng, fs)
    elif what == "lists":
        case["arg"] = dict(t="list", items=[arg(rng, fs) for _ in range(rng.randint(0, 4))], str="", pat=[])
    else:
        case["groups"] = [dict(dict=rng.random() < .95, hastag=rng.random() < .5, tag=rng.choice(["g", "h"]), hasfiles=rng.random() < .95,
                               files=dict(t="list", items=[arg(rng, fs, 0, rng.random() < .3) for _ in range(rng.randint(1, 3))], str="", pat=[])) for _ in range(rng.randint(1, 3))]
    return case


def intl(q):
    return dict(t="list", l=[dict(t="int", n=v) for v in q], o="")


def sels(rng, np, faults, nx, ny):
    out = []
    for ax, n in (("x", nx), ("y", ny)):
        if rng.random() < .4:
            q = [rng.randint(-n, n + 1), rng.randint(-n, n + 1)]
            if rng.random() < .3:
                q.append(rng.randint(1, 3))
            out.append(dict(axis=ax, type="range", under=True, v=intl(q)))
        if rng.random() < .3 and (np == 1 or ax == "y"):
            out.append(dict(axis=ax, type="index", under=True, v=intl(sorted(rng.sample(range(n), rng.randint(1, n))))))
    if faults and rng.random() < .4:
        bad = rng.choice([("x", "range", intl([1])), ("x", "range", intl([0, 1, 1, 1])), ("y", "range", dict(t="str", l=[], o="str")), ("y", "index", intl([])),
                          ("y", "index", dict(t="int", l=[], o="int")), ("x", "range", dict(t="list", l=[dict(t="int", n=0), dict(t="str", n=0, s="3")], o="")),
                          ("x", "index", dict(t="list", l=[dict(t="str", n=0, s="3")], o="")), ("x", "slice", intl([0, 1])), ("", "range", intl([0, 1])),
                          ("x", "map", intl([0])), ("nosuch", "range", intl([0, 1])), ("x", "", intl([0, 1]))])
        out = [e for e in out if (e["axis"], e["type"]) != bad[:2]]
        out.append(dict(axis=bad[0], type=bad[1], v=bad[2], under=rng.random() < .5))
    rng.shuffle(out)
    return out


def load(rng, np):
    fs = fspace(rng, True)
    kind = rng.choice(["params", "params", "files", "pathtag", "attrs", "select", "select"])
    faults = rng.random() < .25
    data = [f for f in fs if f["kind"] == "data"]
    sl = sels(rng, np, faults, min(f["nx"] for f in data), min(f["ny"] for f in data))
    maps = False
    if not faults and any(e["type"] == "index" and e["axis"] == "x" for e in sl) and rng.random() < .5:
        maps = True
        sl.insert(rng.randint(0, len(sl)), dict(axis="x", type="map", under=True, v=intl([rng.randrange(2)])))
    cfg = dict(save=[False], name=[[V("output_root"), V("tag"), L(".h5")]], tag=rng.choice([[V("tag")], [V("tag")], [L("n"), V("count"), V("tag")]]), attrs=[], check=rng.random() < .8,
               skip=rng.random() < .6, dump=False, comp="spec", root="", keys=["o"], task="T")
    if rng.random() < .3:
        cfg["attrs"] = [dict(k="note", isfmt=True, f=[V("count"), L("-"), V("tag")], v=dict(t="str", s=""))]
    k = dict(mode="load", kind=kind, fs=fs, cfg=cfg, sels=sl, maps=maps, arg=dict(t="list", items=[], str="", pat=[]), ins=[], name=[], key=[], haskey=False, paths=[], tags=[],
             distributed=np > 1 or rng.random() < .7, redist="")
    if k["distributed"] and rng.random() < .3:
        k["redist"] = rng.choice(["x", "y"])

    def source():
        return dict(t="list", items=[arg(rng, fs, 1, faults) for _ in range(rng.randint(0 if faults else 1, 4))], str="", pat=[]) if rng.random() < .8 else arg(rng, fs, 0, faults)
    if kind in ("params", "files", "select"):
        k["arg"] = source()
    if kind == "pathtag":
        k["tags"] = rng.sample(["1", "2", "10", "a"], rng.randint(1, 3)) if faults else None
        tags = k["tags"] or ["1", "2", "10", "a"]
        opts = [[L("f"), V("tag"), L(".h5")], [L("sub/f"), V("tag"), L(".h5")], [V("tag"), L(".h5")]]
        paths = rng.sample(opts, rng.randint(1, 2))
        if not faults:
            have = {f["str"] for f in fs}
            good = [t for t in tags if all("".join(p["s"] if p["lit"] else t for p in q) in have for q in paths[:1])]
            paths, k["tags"] = paths[:1], good or ["1"]
        k["paths"] = paths
    if kind in ("attrs", "select"):
        for _ in range(rng.randint(0 if kind == "attrs" else 1, 4)):
            at = []
            if rng.random() < (.6 if faults else 1):
                at.append(dict(k="who", v=dict(t="str", s=rng.choice(["f1", "f2", "a"] if faults else [f["stem"] for f in data if f["str"] == f["stem"] + ".h5"] or ["f1"]))))
            if rng.random() < (.6 if faults else 1):
                at.append(dict(k="lsd", v=dict(t="int", n=rng.randint(1, 4))))
            if rng.random() < .4:
                at.append(dict(k="tag", v=dict(t="str", s=rng.choice(["i1", "i2"]))))
            k["ins"].append(at)
    if kind == "attrs":
        k["name"] = [V("who"), L(".h5")]
    if kind == "select" and rng.random() < .7:
        k["haskey"], k["key"] = True, rng.choice([[V("lsd")], [V("who")], [V("lsd"), L("_"), V("who")]])
        if not faults:
            for f in data:
                have = {a["k"] for a in f["attrs"]}
                f["attrs"] += [dict(k=n, v=v) for n, v in (("lsd", dict(t="int", n=2)), ("who", dict(t="str", s="f1"))) if n not in have]
    return k


def run(c):
    c.exts("truncate")
    c.model("MC_LoadFiles", CFG % c.pick(3, 4), workers=6, min_states=5000, must_cover=["Arrive", "Ask", "Read"])
    cases = [lists(c.rng) for _ in range(c.pick(1500, 12000))]
    want = c.evaluate("LoadFiles", cases, op="RunLists")
    got = c.drive("loadfiles", cases)
    for k, w, o in zip(cases, want, got):
        c.validated()
        names = [f["str"] for f in k["fs"]]
        exp = dict(ok=w["ok"], changed=False)
        if w["ok"]:
            exp["res"] = [dict(tag=g["tag"], l=[names[j - 1] for j in g["l"]]) for g in w["g"]] if k["what"] == "groups" else [names[j - 1] for j in w["l"]]
        exc = o.pop("exc", "")
        if exp != o or (exc and not exc.startswith("CaputConfigError")):
            c.violation("file list", dict(case=k, expected=exp, got=o, exc=exc))
    c.sample(dict(case=cases[0], expected=want[0]))
    n = 0
    for np, m in ((1, c.pick(450, 4000)), (2, c.pick(120, 800))):
        cases = [load(c.rng, np) for _ in range(m)]
        cases = [k for k in cases if feasible(k)]
        want = c.evaluate("LoadFiles", cases, op="RunLoad")
        got = c.drive("loadfiles", cases, np=np, timeout=800)
        for k, w, obs in zip(cases, want, got):
            c.validated()
            for r, o in enumerate(obs if np > 1 else [obs]):
                n += judge(c, k, w, o, np)
        c.sample(dict(case=cases[0], expected=want[0]))
    saves = []
    for _ in range(c.pick(60, 400)):
        saves.append(dict(mode="save", ins=[[dict(k="tag", v=c.rng.choice([dict(t="str", s="q"), dict(t="int", n=0), dict(t="int", n=9)]))] if c.rng.random() < .4 else [] for _ in range(c.rng.randint(0, 5))]))
    want = c.evaluate("LoadFiles", saves, op="RunSave")
    for k, w, o in zip(saves, want, c.drive("loadfiles", saves)):
        c.validated()
        exp = dict(out=w["out"], files={f["name"]: f["id"] for f in w["files"]})
        if exp != o:
            c.violation("saved files", dict(case=k, expected=exp, got=o))
    c.cov.update(loaded=n)
    c.assumptions += ["files named by a glob do not change while a pipeline runs", "indices are increasing", "index selections not along the distributed axis on several ranks"]


def feasible(k):
    """In turn through no files at all has no meaning."""
    return not (k["kind"] == "select" and not k["haskey"] and not some(k, k["arg"]))


def some(k, a):
    return a["t"] == "bad" or a["t"] == "path" or (a["t"] == "list" and any(some(k, x) for x in a["items"]))


def judge(c, k, w, o, np):
    def bad(what, a, b):
        c.violation(what, dict(case=k, expected=a, got=b, np=np))
        return 0
    if "out" not in o or bool(o["exc"]) != w["err"]:
        return bad("load outcome", w["err"], o)
    if w["err"]:
        return 0
    exp = []
    for (j,) in w["out"]:
        e = w["conts"][j - 1]
        exp.append(dict(xs=e["xs"], ys=e["ys"], attrs={a["k"]: a["v"] for a in e["attrs"]}))
    if exp != [{x: v.get(x) for x in ("xs", "ys", "attrs")} for v in o["out"]]:
        return bad("loaded containers", exp, o["out"])
    for (j,), v in zip(w["out"], o["out"]):
        f = w["conts"][j - 1]["file"]
        e = k["fs"][f - 1]
        size = len(v["xs"]) * len(v["ys"])
        nan = int(e["px"] in v["xs"] and e["py"] in v["ys"])
        if not v["ok"] or v["nan"] != nan or (size > nan and v["file"] != f):
            return bad("loaded data", e, v)
        ax = -1 if not k["distributed"] else 1 if k["redist"] == "y" else 0
        if k["distributed"] and v["ax"] != ax:
            return bad("distribution", ax, v)
    return len(o["out"])
