"""Builds trees, saves and loads them, and shows what the public interface gives back."""
import datetime
import json
import os
import shutil
import warnings

import vpdrv
import numpy as np

from caput.containers import Container, ContainerPrototype
from caput.memdata import MemDiskGroup, MemGroup, fileformats

warnings.simplefilter("ignore")
FMT = dict(h5=fileformats.HDF5, zarr=fileformats.Zarr)
TEXT = dict(t0="", t1="a", t2="abc", t3="\u00e9\u03bb", t4="x y\n\"q\\", t5="!!_memh5_json", t6="null", t7="1.5", t8="[1]",
            t9="\U0001f52d", x="x", y="y")
TOKEN = {v: k for k, v in TEXT.items()}
UNKNOWN = dict(gone="no.such.module.Cls", cut="caput.containers.NoSuchClass")


class ProtoA(ContainerPrototype):
    _axes = ("x", "y")
    _dataset_spec = {
        "vis": dict(axes=["x", "y"], dtype=np.float64, initialise=True),
        "label": dict(axes=["x"], dtype="U4", initialise=True),
        "wgt": dict(axes=["y", "x"], dtype=np.float32, initialise=False, chunks=(2, 2)),
    }


class ProtoB(ProtoA):
    _dataset_spec = {"extra": dict(axes=["y"], dtype=np.int32, initialise=True)}


CLS = dict(MemGroup=MemGroup, MemDiskGroup=MemDiskGroup, Container=Container, ProtoA=ProtoA, ProtoB=ProtoB)
PATH = {c.__module__ + "." + c.__name__: n for n, c in CLS.items()}


# ------------------------------------------------------------------ values
def val(v):
    t, x = v["t"], v["v"]
    if t == "int":
        return int(x)
    if t == "float":
        return float(x)
    if t == "bool":
        return x == "True"
    if t == "str":
        return TEXT[x]
    if t == "bytes":
        return TEXT[x].encode()
    if t == "none":
        return None
    if t == "complex":
        return complex(x)
    if t == "time":
        return datetime.datetime.fromisoformat(x)
    if t == "npint":
        return np.int32(int(x))
    if t == "npfloat":
        return np.float32(float(x))
    if t == "npbool":
        return np.bool_(x == "True")
    if t == "npstr":
        return np.str_(TEXT[x])
    if t == "set":
        return {1, 2}
    if t == "dict":
        return {k: val(y) for k, y in x}
    if t == "seq":
        s = [val(y) for y in x]
        if v["src"] == "tuple":
            return tuple(s)
        return np.array(s) if v["src"] == "arr" else s
    raise ValueError(t)


def tok(s):
    return TOKEN.get(s, "raw:" + ascii(s))


def show(x):
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return dict(t="array0", v=ascii(x))
        return dict(t="seq", v=[show(y) for y in x])
    if isinstance(x, np.generic) and not isinstance(x, (np.str_, np.bytes_)):
        x = x.item()
    if isinstance(x, bool):
        return dict(t="bool", v=str(x))
    if isinstance(x, int):
        return dict(t="int", v=str(x))
    if isinstance(x, float):
        return dict(t="float", v=repr(x))
    if isinstance(x, complex):
        return dict(t="complex", v=repr(x))
    if isinstance(x, str):
        try:
            datetime.datetime.fromisoformat(x)
            return dict(t="str", v=str(x))
        except ValueError:
            return dict(t="str", v=tok(str(x)))
    if isinstance(x, bytes):
        return dict(t="bytes", v=tok(x.decode("latin1")))
    if x is None:
        return dict(t="none", v="")
    if isinstance(x, datetime.datetime):
        return dict(t="time", v=x.isoformat())
    if isinstance(x, dict):
        return dict(t="dict", v=[[k if isinstance(k, str) else ascii(k), show(x[k])] for k in sorted(x, key=str)])
    if isinstance(x, (list, tuple)):
        return dict(t="seq", v=[show(y) for y in x])
    if isinstance(x, set):
        return dict(t="set", v="")
    return dict(t="other", v=ascii(x))


def npdt(d):
    if d["k"] == "struct":
        return np.dtype([(f["n"], npdt(f["d"]), tuple(f["sub"])) for f in d["f"]])
    if d["k"] in "US":
        return np.dtype(f"{d['k']}{d['n']}")
    if d["k"] == "M":
        return np.dtype("M8[s]")
    if d["k"] == "O":
        return np.dtype(object)
    return np.dtype(d["k"])


def dt_of(t):
    if t.names:
        f = []
        for n in t.names:
            s = t.fields[n][0]
            f.append(dict(n=n, d=dt_of(s.base), sub=list(s.shape)))
        return dict(k="struct", f=f)
    if t.kind in "US":
        return dict(k=t.kind, n=t.itemsize // (4 if t.kind == "U" else 1))
    if t.kind == "M":
        return dict(k="M")
    if t.kind == "O":
        return dict(k="O")
    return dict(k=t.str)


def elem(x, d):
    """Python value of an element token tree."""
    if d["k"] == "struct":
        return tuple(sub(y, f["d"], f["sub"]) for y, f in zip(x, d["f"]))
    if d["k"] == "U":
        return TEXT[x]
    if d["k"] == "S":
        return TEXT[x].encode()
    if d["k"] == "M":
        return np.datetime64(int(x), "s")
    if d["k"] == "O":
        return x.strip("'")
    k = np.dtype(d["k"]).kind
    return dict(i=int, u=int, f=float, c=complex, b=lambda s: s == "True")[k](x)


def sub(x, d, sh):
    if not sh:
        return elem(x, d)
    return [sub(y, d, sh[1:]) for y in x]


def untok(x, d):
    if d["k"] == "struct":
        return [unsub(x[f["n"]], f["d"], f["sub"]) for f in d["f"]]
    if d["k"] == "U":
        return tok(str(x))
    if d["k"] == "S":
        return tok(bytes(x).decode("latin1"))
    if d["k"] == "M":
        return str(int(x.astype("i8")))
    if d["k"] == "O":
        return ascii(x)
    y = np.dtype(d["k"]).type(x).item()
    return str(y) if isinstance(y, (int, bool)) else repr(y)


def unsub(x, d, sh):
    if not sh:
        return untok(x, d)
    return [unsub(y, d, sh[1:]) for y in x]


def array(n):
    a = np.empty(n["shape"], npdt(n["dt"]))
    f = a.reshape(-1)
    for i, v in enumerate(n["vals"]):
        f[i] = elem(json.loads(v), n["dt"])
    return np.asfortranarray(a) if n.get("order") == "F" and a.ndim else a


def show_dset(path, x, attrs):
    a = x[...] if not isinstance(x, np.ndarray) else x
    a = np.asarray(a)
    d = dt_of(a.dtype)
    ch = getattr(x, "chunks", None)
    return dict(path=path, kind="d", dt=d, shape=list(a.shape), attrs=show_attrs(attrs),
                vals=[json.dumps(untok(y, d)) for y in a.reshape(-1)] if a.size else [], chunks=list(ch or []))


def show_attrs(a):
    return [[k, show(a[k])] for k in sorted(a.keys()) if not k.startswith("__memh5")]


def hint_of(a):
    h = a.get("__memh5_subclass", "")
    h = h.decode() if isinstance(h, bytes) else str(h)
    return {v: k for k, v in UNKNOWN.items()}.get(h) or PATH.get(h, h)


# ------------------------------------------------------------------- trees
def build(t):
    cls = CLS[t["cls"]]
    nodes = {n["path"]: n for n in t["nodes"]}
    if issubclass(cls, ContainerPrototype):
        c = cls(distributed=False, x=array(nodes["/index_map/x"]), y=array(nodes["/index_map/y"]))
        for p, n in nodes.items():
            if p.count("/") == 1 and p != "/":
                nm = p[1:]
                if nm not in c:
                    c.add_dataset(nm)
                c[nm][:] = array(n)
                for k, v in n["attrs"]:
                    if k != "axis":
                        c[nm].attrs[k] = val(v)
            elif p.startswith("/index_map/"):
                for k, v in n["attrs"]:
                    c.index_attrs[p.split("/")[-1]][k] = val(v)
            elif p.startswith("/reverse_map/"):
                c.create_reverse_map(p.split("/")[-1], array(n))
    elif cls is Container:
        c = cls(distributed=False)
        for p, n in nodes.items():
            nm = p.split("/")[-1]
            if p.startswith("/index_map/"):
                c.create_index_map(nm, array(n))
                for k, v in n["attrs"]:
                    c.index_attrs[nm][k] = val(v)
            elif p.startswith("/reverse_map/"):
                c.create_reverse_map(nm, array(n))
            elif p != "/":
                add(c, n)
    else:
        c = cls()
        for p in sorted(nodes):
            n = nodes[p]
            if p == "/":
                continue
            if n["kind"] == "g":
                g = c.create_group(p)
                for k, v in n["attrs"]:
                    g.attrs[k] = val(v)
            else:
                add(c, n)
    for k, v in nodes["/"]["attrs"]:
        c.attrs[k] = val(v)
    for k, v in t["hist"]:
        c.add_history(k, val(v))
    if t["hint"]:
        c.attrs["__memh5_subclass"] = UNKNOWN.get(t["hint"], t["hint"])
    return c


def add(c, n):
    kw = {}
    if n["chunks"]:
        kw["chunks"] = tuple(n["chunks"])
    if n["comp"]:
        kw.update(compression=n["comp"])
        if n["comp"] == "gzip":
            kw["compression_opts"] = 4
        elif n["comp"] == "bitshuffle":
            kw["compression_opts"] = (0, "lz4")
    d = c.create_dataset(n["path"], data=array(n), **kw)
    for k, v in n["attrs"]:
        d.attrs[k] = val(v)


def show_tree(c, attrs=True):
    if c is None:
        return dict(cls="none", hint="", nodes=[], hist=[])
    name = PATH.get(type(c).__module__ + "." + type(c).__name__, type(c).__name__)
    nodes = [dict(path="/", kind="g", attrs=show_attrs(c.attrs))]
    hist = []
    if isinstance(c, Container):
        for k in sorted(c):
            nodes.append(show_dset("/" + k, c[k], c[k].attrs))
        im, ia, rm = c.index_map, c.index_attrs, c.reverse_map
        for k in sorted(im):
            nodes.append(show_dset("/index_map/" + k, im[k], ia[k]))
        for k in sorted(rm):
            nodes.append(show_dset("/reverse_map/" + k, rm[k], {}))
        h = c.history
        hist = [[k, show(h[k])] for k in h["order"]]
        if set(h) != set(h["order"]) | {"order"}:
            hist.append(["!keys", show(sorted(h))])
    else:
        def walk(g):
            for k in sorted(g):
                x = g[k]
                if hasattr(x, "create_group"):
                    nodes.append(dict(path=x.name, kind="g", attrs=show_attrs(x.attrs)))
                    walk(x)
                else:
                    nodes.append(show_dset(x.name, x, x.attrs))
        walk(c)
    nodes.sort(key=lambda n: n["path"])
    return dict(cls=name, hint=hint_of(c.attrs), nodes=nodes, hist=hist)


# ---------------------------------------------------------------- programs
class World:
    def __init__(self, case):
        self.mem = [None] * case["nm"]
        self.fn = [None] * case["nf"]
        self.n = 0

    def cds(self, o):
        kw = {}
        if o["cd"] != "default":
            kw["convert_dataset_strings"] = o["cd"] == "yes"
        if o["giveca"] or not o["ca"]:
            kw["convert_attribute_strings"] = o["ca"]
        return kw

    def name(self, o):
        # a fresh name, or overwrite the one used before for this file
        ext = dict(h5=".h5", zarr=".zarr")[o["fmt"]]
        if o["fresh"]:
            self.n += 1
        return os.path.abspath(f"f{o['f']}_{self.n}" + ext)

    def step(self, o):
        op = o["op"]
        if op == "new":
            self.mem[o["m"] - 1] = build(o["tree"])
        elif op == "save":
            c = self.mem[o["m"] - 1]
            fn = self.name(o)
            ff = FMT[o["fmt"]]
            if isinstance(c, MemGroup):
                c.to_file(fn, **(dict(file_format=ff) if o["giveff"] else {}), **self.cds(o))
            elif o["via"] == "to_disk":
                d = c.to_disk(fn, file_format=ff)
                try:
                    if not d.ondisk:
                        raise RuntimeError("to_disk gave an object that is not on disk")
                finally:
                    d.close()
            else:
                c.save(fn, file_format=ff, **self.cds(o))
            self.fn[o["f"] - 1] = fn
        elif op == "load":
            cls = CLS[o["cls"]]
            fn = self.fn[o["f"] - 1]
            ff = dict(file_format=FMT["h5" if fn.endswith("h5") else "zarr"]) if o["giveff"] else {}
            if cls is MemGroup:
                self.mem[o["m"] - 1] = cls.from_file(fn, **ff, **self.cds(o))
            elif o["via"] == "tomem":
                d = cls.from_file(fn, ondisk=True, **ff)
                self.mem[o["m"] - 1] = d.to_memory()
                d.close()
            else:
                self.mem[o["m"] - 1] = cls.from_file(fn, detect_subclass=o["detect"], **ff, **self.cds(o))
        elif op == "recode":
            d = CLS[o["cls"]].from_file(self.fn[o["f"] - 1], ondisk=True)
            if "__memh5_subclass" not in d.attrs:
                raise RuntimeError("hint missing")
            try:
                fn = self.name(dict(o, f=o["g"], fresh=True))
                d.save(fn, file_format=FMT[o["fmt"]], **self.cds(o))
                self.fn[o["g"] - 1] = fn
            finally:
                d.close()
        elif op == "attr":
            self.node(o).attrs[o["key"]] = val(o["val"])
        elif op == "data":
            self.put(self.node(o), o)
        elif op == "hist":
            self.mem[o["m"] - 1].add_history(o["key"], val(o["val"]))
        elif op == "disk":
            d = CLS[o["cls"]].from_file(self.fn[o["f"] - 1], ondisk=True, mode="r+")
            try:
                self.put(d[o["path"]], o)
            finally:
                d.close()
        elif op == "look":
            d = CLS[o["cls"]].from_file(self.fn[o["f"] - 1], ondisk=True)
            try:
                if not d.ondisk:
                    raise RuntimeError("not on disk")
                return show_tree(d)
            finally:
                d.close()

    def node(self, o):
        c = self.mem[o["m"] - 1]
        return c if o["path"] == "/" else c[o["path"]]

    def put(self, d, o):
        ix = np.unravel_index(o["ix"] - 1, d.shape)
        dt = dt_of(d.dtype)
        v = np.empty((), d.dtype)
        v[()] = elem(json.loads(o["val"]), dt)
        d[tuple(int(i) for i in ix)] = v[()]


def run(case):
    base = os.path.join(vpdrv.WORK, "sl")
    os.chdir(vpdrv.WORK)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    os.chdir(base)
    w = World(case)
    seen = []
    for o in case["ops"]:
        try:
            look = w.step(o)
            r = dict(out="ok")
            if look:
                r["look"] = look
        except Exception as e:
            import traceback
            r = dict(out="error", exc=vpdrv.exc_name(e), msg=str(e)[:200], tb=traceback.format_exc()[-700:])
        r["mem"] = [show_tree(c) for c in w.mem]
        seen.append(r)
        if o["op"] not in ("save", "recode") and r["out"] == "error":
            break
    return seen


vpdrv.loop(run)
