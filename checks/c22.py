"""C22: saving and loading trees and containers."""
import json

ASCII = ["t0", "t1", "t2", "t4", "t5", "t6", "t7", "t8"]
MORE = ASCII + ["t3", "t9"]
SHORT = ["t0", "t1", "t2", "t7", "t8"]      # fit into 3 or 4 characters
TIMES = ["2020-01-02T03:04:05", "1999-12-31T23:59:59.000001"]
INTS = ["0", "1", "-7", "123456789", "2147483648", "-9007199254740993"]
FLOATS = ["0.0", "1.5", "-0.25", "nan", "inf", "1e+300", "0.1"]
F4 = ["0.0", "1.5", "-0.25", "nan", "inf"]


def T(t, v, **k):
    return dict(t=t, v=v, **k)


def scalar(r, kinds):
    k = r.choice(kinds)
    if k in ("int", "npint"):
        return T(k, r.choice(INTS if k == "int" else INTS[:4]))
    if k in ("float", "npfloat"):
        return T(k, r.choice(FLOATS if k == "float" else F4))
    if k in ("bool", "npbool"):
        return T(k, r.choice(["True", "False"]))
    if k in ("str", "npstr"):
        return T(k, r.choice(MORE))
    if k == "bytes":
        return T(k, r.choice(ASCII[1:]))
    if k == "time":
        return T(k, r.choice(TIMES))
    if k == "complex":
        return T(k, r.choice(["(1+2j)", "1j"]))
    return T(k, "")


def seq(r, src, kind, depth=1, n=None):
    n = r.randint(1, 3) if n is None else n
    if depth > 1:
        m = r.randint(1, 3)
        return T("seq", [seq(r, "list", kind, depth - 1, m) for _ in range(n)], src=src)
    return T("seq", [scalar(r, [kind]) for _ in range(n)], src=src)


def nested(r, depth):
    x = r.random()
    if depth == 0 or x < .5:
        return scalar(r, ["int", "float", "bool", "str", "none", "npint", "npfloat", "npbool", "time", "bytes"])
    if x < .7:
        n = r.randint(0, 3)
        return T("seq", [nested(r, depth - 1) for _ in range(n)], src=r.choice(["list", "tuple"]))
    if x < .8:
        return seq(r, "arr", r.choice(["int", "float"]), r.choice([1, 1, 2]), r.randint(1, 3))
    return mapping(r, depth - 1)


def mapping(r, depth):
    ks = sorted(r.sample(["a", "b", "c d", "order", "1", "t"], r.randint(0, 3)))
    return T("dict", [[k, nested(r, depth)] for k in ks])


def attr(r, ca, bad):
    """An attribute value; `bad` allows ones a format refuses."""
    x = r.random()
    if bad and r.random() < .5:
        return r.choice([T("none", ""), T("complex", "(1+2j)"), T("dict", [["s", T("set", "")]]),
                         T("dict", [["s", T("complex", "1j")]]),
                         T("seq", [seq(r, "list", "int", 1, 1), seq(r, "list", "int", 1, 2)], src="list"),
                         seq(r, "arr", "str")])
    if x < .35:
        return scalar(r, ["int", "float", "bool", "str", "npint", "npfloat", "npbool", "npstr", "time"] + (["bytes"] if ca else []))
    if x < .65:
        kind = r.choice(["int", "float", "bool"] + (["str", "str"] if ca else []))
        return seq(r, r.choice(["list", "tuple", "arr"]), kind, 2 if kind != "str" and r.random() < .2 else 1)
    if x < .7:
        return T("seq", [], src=r.choice(["list", "arr"]))
    return mapping(r, 2)


def attrs(r, ca, bad, many=3):
    return [[k, attr(r, ca, bad and r.random() < .3)] for k in sorted(r.sample(["a", "b", "units", "z", "Z"], r.randint(0, many)))]


PLAIN = ["<f8", "<f8", "<f4", "<i4", "<i8", "|u1", "|b1", "<c16", "<c8", ">i4", ">f8", "<u2"]


def dtype(r, depth=1, bad=False):
    x = r.random()
    if x < .55:
        return dict(k=r.choice(PLAIN))
    if x < .7 or depth == 0:
        return dict(k=r.choice("US"), n=4)
    if bad and x < .8:
        return dict(k=r.choice("MO"))
    n = r.randint(1, 3)
    return dict(k="struct", f=[dict(n=f"f{i}", d=dtype(r, depth - 1), sub=r.choice([[], [], [2], [1, 2]])) for i in range(n)])


def elem(r, d, uni):
    if d["k"] == "struct":
        return [sub(r, f["d"], f["sub"], uni) for f in d["f"]]
    if d["k"] == "U" and uni and r.random() < .5:
        return "t3"
    if d["k"] in "US":
        return r.choice(SHORT)
    if d["k"] == "M":
        return r.choice(["0", "1600000000"])
    if d["k"] == "O":
        return "'1'"
    k = d["k"][1]
    if k == "b":
        return r.choice(["True", "False"])
    if k == "u":
        return r.choice(["0", "1", "255"])
    if k == "i":
        return r.choice(INTS[:4])
    if k == "f":
        return r.choice(F4)
    return r.choice(["(1+2j)", "1j", "0j"])


def sub(r, d, sh, uni):
    return [sub(r, d, sh[1:], uni) for _ in range(sh[0])] if sh else elem(r, d, uni)


def nonascii(x):
    return "t3" in json.dumps(x)


def dset(r, path, ca, bad, shape=None, dt=None, comp=True, plain=False):
    sh = [r.choice([0, 1, 2, 3, 3, 4]) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 3]))] if shape is None else shape
    n = 1
    for s in sh:
        n *= s
    dt = dt or dtype(r, 2, bad and r.random() < .3)
    uni = bad and r.random() < .3
    vals = [elem(r, dt, uni) for _ in range(n)]
    return dict(path=path, kind="d", dt=dt, shape=sh, vals=[json.dumps(v) for v in vals], na=nonascii(vals),
                attrs=[] if plain else attrs(r, ca, bad, 2),
                chunks=[r.randint(1, s + r.choice([0, 0, 2])) for s in sh] if n and not plain and r.random() < .3 else [],
                comp=r.choice(["gzip", "bitshuffle", "lzf"]) if comp and n and sh and not plain and r.random() < .15 else "",
                order=r.choice("CCF"))


def group(path, a):
    return dict(path=path, kind="g", attrs=a)


def tree(r, cls, ca, bad, comp):
    nodes = [group("/", attrs(r, ca, bad))]
    hist = []
    if cls in ("MemGroup", "MemDiskGroup"):
        gs = r.choice([[], ["/g"], ["/g", "/g/h"], ["/g", "/g/h", "/e"]])
        nodes += [group(g, attrs(r, ca, bad, 2)) for g in gs]
        ps = [p for p in ("/d", "/e1", "/g/d", "/g/d2", "/g/h/x", "/z") if p.rpartition("/")[0] in gs + [""]]
        for p in r.sample(ps, r.randint(1, min(3, len(ps)))):
            nodes.append(dset(r, p, ca, bad, comp=comp))
    else:
        hist = [[k, mapping(r, 2)] for k in r.sample(["zeta", "alpha", "mid", "a b"], r.randint(0, 3))]
    if cls == "Container":
        for p in r.sample(["/vis", "/wt", "/q"], r.randint(1, 3)):
            nodes.append(dset(r, p, ca, bad, comp=comp))
        for p in r.sample(["freq", "time"], r.randint(0, 2)):
            nodes.append(dset(r, "/index_map/" + p, ca, bad, [r.randint(1, 4)], comp=False) | dict(chunks=[]))
        if r.random() < .4:
            nodes.append(dset(r, "/reverse_map/prod", ca, False, [3], dict(k="<i4"), plain=True))
    elif cls.startswith("Proto"):
        nx, ny = r.randint(1, 4), r.randint(1, 4)
        nodes.append(dset(r, "/index_map/x", ca, bad, [nx], comp=False) | dict(chunks=[]))
        nodes.append(dset(r, "/index_map/y", ca, bad, [ny], comp=False) | dict(chunks=[]))

        def ax(*names):
            return [["axis", T("seq", [T("str", n) for n in names], src="arr")]]
        ds = [("vis", [nx, ny], "<f8", "xy"), ("label", [nx], "U", "x")]
        if cls == "ProtoB":
            ds.append(("extra", [ny], "<i4", "y"))
        if r.random() < .5:
            ds.append(("wgt", [ny, nx], "<f4", "yx"))
        for name, sh, k, axes in ds:
            d = dset(r, "/" + name, ca, bad, sh, dict(k="U", n=4) if k == "U" else dict(k=k), plain=True)
            d["attrs"] = sorted(attrs(r, ca, bad, 2) + ax(*axes), key=lambda a: a[0])
            if name == "wgt":
                d["chunks"] = [min(2, s) for s in sh]
            nodes.append(d)
    for n in nodes:
        n.pop("order", None) if n["kind"] == "g" else None
    nodes.sort(key=lambda n: n["path"])
    return dict(cls=cls, hint=r.choice(["gone", "cut"]) if cls == "MemDiskGroup" and r.random() < .2 else "", nodes=nodes, hist=hist)


def has_text_seq(v):
    if v["t"] == "seq":
        return any(x["t"] in ("str", "npstr", "bytes") or has_text_seq(x) for x in v["v"])
    return v["t"] == "bytes"


def program(r):
    """Random history over two objects and two files; only asks for what the class allows."""
    cls = r.choice(["MemGroup", "MemDiskGroup", "MemDiskGroup", "Container", "ProtoA", "ProtoB"])
    ca = not (cls in ("MemGroup", "MemDiskGroup") and r.random() < .15)
    bad = r.random() < .3
    recode = r.random() < .3
    ops = [dict(op="new", m=1, tree=tree(r, cls, ca, bad, not recode))]
    t = ops[0]["tree"]
    mem = {1: dict(t=t, cls=cls)}
    files = {}
    has_u = [False]

    def cdopt():
        return r.choice(["default", "yes", "yes", "no"])
    for _ in range(r.randint(3, 7)):
        x = r.random()
        if x < .35 or not files:
            m = r.choice(sorted(mem))
            f = r.choice([1, 2])
            c = mem[m]["cls"]
            via = "to_disk" if c != "MemGroup" and ca and r.random() < .2 else "save"
            cd = "default" if via == "to_disk" else cdopt()
            ops.append(dict(op="save", m=m, f=f, fmt=r.choice(["h5", "zarr"]), ca=ca, cd=cd, via=via, giveca=r.random() < .5,
                            giveff=r.random() < .5, fresh=r.random() < .6))
            files[f] = dict(t=mem[m]["t"], cls=c, maybe=True)
        elif x < .65:
            f = r.choice(sorted(files))
            m = r.choice([1, 2])
            c = files[f]["cls"]
            asked = loader(r, c)
            detect = r.random() < .7 or asked == "MemDiskGroup" and c not in ("MemGroup", "MemDiskGroup")
            via = "tomem" if asked != "MemGroup" and ca and r.random() < .2 else "load"
            detect = detect or via == "tomem"
            new = asked if asked == "MemGroup" or not detect else (c if c != "MemGroup" else asked)
            ops.append(dict(op="load", f=f, m=m, cls=asked, detect=detect, ca=ca, cd="default" if via == "tomem" else cdopt(), via=via,
                            giveca=r.random() < .5, giveff=r.random() < .5))
            mem[m] = dict(t=files[f]["t"], cls=new)
        elif x < .8:
            m = r.choice(sorted(mem))
            y = r.random()
            if y < .4:
                ns = [n["path"] for n in mem[m]["t"]["nodes"] if n["path"].count("/") == 1]
                ops.append(dict(op="attr", m=m, path=r.choice(ns), key=r.choice(["a", "new"]), val=attr(r, ca, False)))
            elif y < .6 and mem[m]["t"]["cls"] in ("Container", "ProtoA", "ProtoB"):
                ops.append(dict(op="hist", m=m, key=f"h{len(ops)}", val=mapping(r, 1)))
            else:
                o = poke(r, mem[m]["t"])
                if o:
                    ops.append(dict(o, op="data", m=m))
        elif x < .9:
            f = r.choice(sorted(files))
            o = poke(r, files[f]["t"])
            if o:
                ops.append(dict(o, op="disk", f=f, cls=disk_loader(files[f]["cls"])))
        elif recode and any(v["cls"] != "MemGroup" for v in files.values()):
            f = r.choice([k for k in sorted(files) if files[k]["cls"] != "MemGroup"])
            g = 3 - f
            ops.append(dict(op="recode", f=f, g=g, fmt=r.choice(["h5", "zarr"]), ca=ca, cd=r.choice(["default", "yes"]),
                            cls=disk_loader(files[f]["cls"]), giveca=False))
            files[g] = dict(files[f])
        else:
            f = r.choice(sorted(files))
            ops.append(dict(op="look", f=f, cls=disk_loader(files[f]["cls"])))
    return dict(nm=2, nf=2, ops=ops)


def loader(r, c):
    if c == "MemGroup":
        return r.choice(["MemGroup", "MemDiskGroup"])
    if c == "MemDiskGroup":
        return r.choice(["MemGroup", "MemDiskGroup", "MemDiskGroup"])
    return r.choice(["MemDiskGroup", c])


def disk_loader(c):
    return "MemDiskGroup" if c in ("MemGroup", "MemDiskGroup") else c


def poke(r, t):
    ns = [n for n in t["nodes"] if n["kind"] == "d" and n["vals"] and n["dt"]["k"][-2:] in ("f8", "i4", "f4", "i8") and n["path"].count("/") == 1]
    if not ns:
        return None
    n = r.choice(ns)
    return dict(path=n["path"], ix=r.randint(1, len(n["vals"])), val=json.dumps(r.choice(["3", "-1"] if "i" in n["dt"]["k"] else ["2.5", "-1.0"])))


def strip(n, attrs=True):
    out = {k: n[k] for k in ("path", "kind") + (("dt", "shape", "vals") if n["kind"] == "d" else ())}
    if attrs:
        out["attrs"] = sorted(n["attrs"], key=lambda a: a[0])
    return out


def flat(t, attrs=True):
    return dict(cls=t["cls"], hint=t["hint"], nodes=[strip(n, attrs) for n in sorted(t["nodes"], key=lambda n: n["path"])],
                hist=t["hist"] if attrs else [h[0] for h in t["hist"]])


def first_diff(a, b, path=""):
    if type(a) is not type(b):
        return f"{path}: want {str(a)[:200]} got {str(b)[:200]}"
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return f"{path}.{k} only on one side"
            d = first_diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: lengths {len(a)} {len(b)}: want {str(a)[:300]} got {str(b)[:300]}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: want {a!r} got {b!r}"


def lax(t, attrs, mem):
    """The comparable part: chunk hints are looked at separately."""
    return flat(t, attrs)


def usable(prog, want):
    """Cut the program before it uses a file whose saving was refused."""
    n = 0
    for o, w in zip(prog["ops"], want):
        if o["op"] in ("load", "look", "disk", "recode") and (want[n - 1]["file"][o["f"] - 1]["cls"] == "none"):
            break
        n += 1
    return n


def judge(c, prog, want, got):
    n = usable(prog, want)
    if isinstance(got, dict):
        return c.violation("driver", dict(case=prog, got=got))
    for i in range(n):
        o, w = prog["ops"][i], want[i]
        if i >= len(got):
            return c.violation("stopped", dict(case=prog, step=i, got=got[-1]))
        g = got[i]
        ctx = dict(op={k: v for k, v in o.items() if k != "tree"}, step=i, case=prog)
        if w["out"] != g["out"]:
            return c.violation("outcome of " + o["op"], dict(want=w["out"], got={k: g.get(k) for k in ("out", "exc", "msg", "tb")}, **ctx))
        for m in range(prog["nm"]):
            d = first_diff(flat(w["mem"][m]), flat(g["mem"][m]))
            if d:
                what = "memory changed by saving" if o["op"] in ("save", "disk", "look", "recode") else "content after " + o["op"]
                return c.violation(what, dict(diff=d, object=m + 1, **ctx))
        if o["op"] == "look":
            d = first_diff(flat(w["file"][o["f"] - 1] | dict(cls=""), False), flat(g["look"] | dict(cls=""), False))
            if d:
                return c.violation("content on disk", dict(diff=d, **ctx))
        if o["op"] == "load":
            for wn, gn in zip(sorted(w["mem"][o["m"] - 1]["nodes"], key=lambda x: x["path"]), g["mem"][o["m"] - 1]["nodes"]):
                if wn["kind"] == "d" and wn["chunks"] and wn["chunks"] != gn["chunks"]:
                    return c.violation("chunks after load", dict(node=wn["path"], want=wn["chunks"], got=gn["chunks"], **ctx))


CFG = """SPECIFICATION Spec
INVARIANTS RoundTrip SecondTrip Independent
"""


def run(c):
    c.exts("truncate")
    progs = [program(c.rng) for _ in range(c.pick(700, 6000))]
    c.model("MC_SaveLoad", CFG, must_cover=("DoSave", "DoLoad", "DoPoke"), min_states=200)
    want = c.evaluate("SaveLoad", progs, op="RunSave")
    got = c.drive("saveload", progs, timeout=c.pick(500, 3000))
    for p, w, g in zip(progs, want, got):
        c.validated()
        c.sample(dict(ops=[o["op"] for o in p["ops"]], tree=[(n["path"], n.get("dt")) for n in p["ops"][0]["tree"]["nodes"]]))
        judge(c, p, w, g)
    c.cov["operations"] = sum(len(g) for g in got)
    c.assumptions += ["attribute values the HDF5 library coerces (mixed lists, non-string dictionary keys) are not generated"]
