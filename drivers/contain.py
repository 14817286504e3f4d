"""Interprets container programs on p ranks: build classes, make, copy, redistribute, save, load, filter."""
import os
import shutil
import sys
import types

import vpdrv
import numpy as np

from arrs import REC, WORLD, by_rank, comm_of, decode, dtype, encode, item, local_part, obs
from caput import containers
from caput.containers import ContainerPrototype, TableSpec
from caput.containers import copy_datasets_filter, empty_like
from caput.memdata import MemDatasetDistributed, MemGroup, fileformats

FMT = dict(h5=fileformats.HDF5, zarr=fileformats.Zarr)
MOD = types.ModuleType("vpclasses")
sys.modules["vpclasses"] = MOD


def entry(s, fixed):
    e = dict(axes=[fixed.get(a, a) for a in s["axes"]], dtype=dtype(s["dt"]))
    if s["init"] or s.get("initkey"):
        e["initialise"] = s["init"]
    if s["hasdist"]:
        e["distributed"] = s["dist"]
    if s["hasdax"]:
        e["distributed_axis"] = s["dax"]
    if s["chunks"]:
        e["chunks"] = tuple(s["chunks"])
    if s["comp"]:
        e["compression"], opts = s["comp"].split(":")
        e["compression_opts"] = int(opts)
    return e


def build(case):
    out = {}
    fixed = case["fixed"]
    for c in case["decl"]:
        bases = tuple(out[b] for b in c["bases"]) or ((TableSpec if c["table"] else ContainerPrototype),)
        ns = dict(__module__="vpclasses")
        if c["axes"] is not None:
            ns["_axes"] = tuple(c["axes"])
        if c["spec"] is not None:
            ns["_dataset_spec"] = {}
            for nm, s in c["spec"].items():
                ns["_dataset_spec"][nm] = entry(s, fixed)
        if c["tables"] is not None:
            ns["_table_spec"] = {}
            for nm, t in c["tables"].items():
                e = dict(columns=[[n, REC[n]] for n in REC.names])
                if t["hasaxis"]:
                    e["axis"] = t["axis"]
                if t["hasinit"]:
                    e["initialise"] = t["init"]
                if t["hasdist"]:
                    e["distributed"] = t["dist"]
                ns["_table_spec"][nm] = e
        out[c["name"]] = type(c["name"], bases, ns)
        setattr(MOD, c["name"], out[c["name"]])
    return out


def axis_value(v):
    if v["k"] == "none":
        return None
    if v["k"] == "n":
        return np.int64(v["n"]) if v.get("npint") else v["n"]
    a = encode(np.array(v["vals"], "i8"), v["dt"])
    return a.tolist() if v.get("aslist") else a


def clean(attrs, own=None):
    out = {}
    for k, v in attrs.items():
        if k == "__memh5_subclass":
            if own is not None and v != own:
                out[k] = str(v)
            continue
        if k.startswith("__") or k == "axis":
            continue
        out[k] = int(v) if isinstance(v, (int, np.integer)) else repr(v)
    return out


def data_of(d):
    return d.data if isinstance(getattr(d, "data", None), np.ndarray) else d[:]


def view(c, case):
    own = type(c).__module__ + "." + type(c).__name__
    out = dict(cls=type(c).__name__, dist=bool(c.distributed), attrs=clean(c.attrs, own))
    h = c.history
    out["hist"] = [dict(name=n, val=h[n].get("v") if isinstance(h.get(n), dict) else repr(h.get(n))) for n in h["order"]]
    extra = sorted(set(h) - set(h["order"]) - {"order"})
    if extra:
        out["hist"].append(dict(name="unordered", val=extra))
    out["im"] = {}
    for ax, v in c.index_map.items():
        dt = "rec" if v.dtype == REC else v.dtype.str.lstrip("<>|=")
        dt = "U8" if v.dtype.kind == "U" else dt
        out["im"][ax] = dict(vals=decode(v.astype("U8") if v.dtype.kind == "U" else v, dt), dt=dt,
                             attrs=clean(c.index_attrs[ax]))
    out["ds"] = {}
    for nm, d in c.datasets.items():
        dt = "rec" if d.dtype == REC else d.dtype.str.lstrip("<>|=")
        r = obs(data_of(d), dt)
        if isinstance(d, MemDatasetDistributed):
            if int(d.distributed_axis) != r["axis"]:
                r["bad"] = f"distributed_axis {d.distributed_axis}"
            if tuple(d.global_shape) != tuple(d.shape) or list(d.shape) != r["gshape"]:
                r["bad"] = f"shape {d.shape} {d.global_shape}"
        elif list(d.shape) != r["shape"]:
            r["bad"] = f"shape {d.shape}"
        if c[nm] is not None and data_of(c[nm]) is not data_of(d) and c[nm].shape != d.shape:
            r["bad"] = "lookup"
        out["ds"][nm] = dict(axes=[str(a) for a in d.attrs.get("axis", ())], dt=dt, attrs=clean(d.attrs),
                             chunks=list(d.chunks) if d.chunks else [], comp=f"{d.compression}:{d.compression_opts}" if d.compression else "", rank=r)
    return out


def sel_value(it, kind="list"):
    v = item(it)
    if isinstance(v, list):
        return np.array(v, int) if kind == "array" else tuple(v) if kind == "tuple" else v
    return v


class Machine:
    def __init__(self, case):
        self.case = case
        self.cls = build(case)
        self.S = {}
        self.n = 0
        self.comm = comm_of(case["p"])

    def kw(self, o):
        d = dict(distributed=True, comm=self.comm) if o["dist"] else dict(distributed=False)
        d.update({a: axis_value(v) for a, v in o["kw"].items()})
        return d

    def make(self, o):
        try:
            self.S[o["c"]] = self.made(o)
        except Exception:
            self.S.pop(o["c"], None)
            raise

    def made(self, o):
        kw = self.kw(o)
        for key, f in (("axes_from", "axesfrom"), ("attrs_from", "attrsfrom"), ("dsets_from", "dsetsfrom"), ("copy_from", "copyfrom")):
            if o[f]:
                kw[key] = self.S[o[f]]
        if o["skip"]:
            kw["skip_datasets"] = True
        if not o["chunked"] or o.get("chunkkey"):
            kw["allow_chunked"] = o["chunked"]
        return self.cls[o["cls"]](**kw)

    def like(self, o):
        src = self.S[o["src"]]
        if o["c"] != o["src"]:
            self.S.pop(o["c"], None)
        self.S[o["c"]] = empty_like(src, **self.kw(o))

    def add(self, o):
        self.S[o["c"]].add_dataset(("/" if o.get("slash") else "") + o["ds"])

    def write(self, o):
        d = self.S[o["c"]][o["ds"]]
        tok = np.arange(1, int(np.prod(d.shape)) + 1).reshape(d.shape) + o["base"]
        name = "rec" if d.dtype == REC else d.dtype.str
        if isinstance(d, MemDatasetDistributed):
            tok = local_part(tok, d.distributed_axis, self.comm)
        d[:] = encode(tok, name)

    def attr(self, o):
        c = self.S[o["c"]]
        t = c.attrs if o["at"] == "root" else c.index_attrs[o["on"]] if o["at"] == "axis" else c[o["on"]].attrs
        t[o["key"]] = o["val"]

    def hist(self, o):
        self.S[o["c"]].add_history(o["name"], dict(v=o["val"]))

    def hint(self, o):
        t = type(self.S[o["c"]])
        self.S[o["c"]].attrs["__memh5_subclass"] = t.__module__ + "." + t.__name__

    def ispec(self, o):
        c = self.S[o["c"]]
        c._dataset_spec = dict(c.__dict__.get("_dataset_spec", {}), **{o["ds"]: entry(o["spec"], self.case["fixed"])})

    def redist(self, o):
        ax = [a["name"] if a["k"] == "name" else a["i"] for a in o["axes"]]
        self.S[o["c"]].redistribute(ax[0] if len(ax) == 1 and o["bare"] else tuple(ax) if o["tuple"] else ax)

    def todist(self, o):
        if o["ds"] not in self.S[o["c"]].datasets:
            raise KeyError(o["ds"])
        self.S[o["c"]].dataset_common_to_distributed(o["ds"], distributed_axis=o["ax"])

    def tocommon(self, o):
        if o["ds"] not in self.S[o["c"]].datasets:
            raise KeyError(o["ds"])
        self.S[o["c"]].dataset_distributed_to_common(o["ds"])

    def chunk(self, o):
        self.S[o["c"]]._ensure_chunked()

    def load(self, o):
        self.loaded(o, self.by_axis)

    def paths(self, o):
        self.loaded(o, self.by_path)

    def by_path(self, src, fn, o, d):
        sel = {}
        for n, (k, items) in enumerate(sorted(o["psels"].items())):
            v = tuple(sel_value(i) for i in items)
            sel[("/" if (n + o["slash"]) % 2 else "") + k] = v[0] if len(v) == 1 and o["bare"] else v
        if o["givefmt"]:
            d = dict(d, file_format=FMT[o["fmt"]])
        g = MemGroup.from_file(fn, selections=sel, convert_dataset_strings=True, convert_attribute_strings=True, **d)
        return type(src)(g, **{k: v for k, v in d.items() if k != "file_format"} or dict(distributed=False))

    def by_axis(self, src, fn, o, d):
        kw = {a + "_sel": sel_value(i, o.get("listkind", "list")) for a, i in o["sels"].items()}
        keep = {k: (list(v) if isinstance(v, (list, tuple)) else v) for k, v in kw.items()}
        if o["givefmt"]:
            kw["file_format"] = FMT[o["fmt"]]
        try:
            return type(src).from_file(fn, **d, **kw)
        finally:
            for k, v in keep.items():
                assert not isinstance(v, list) or list(kw[k]) == v, "selection argument changed"

    def loaded(self, o, how):
        src = self.S[o["src"]]
        if o["c"] != o["src"]:
            self.S.pop(o["c"], None)
        self.n += 1
        own = not src.distributed
        fn = f"f{self.n}{'r%d' % self.comm.rank if own else ''}.{o['fmt']}"
        src.save(fn, file_format=FMT[o["fmt"]])
        self.comm.Barrier()
        if o["dist"] and own:     # every rank reads rank 0's file
            fn = f"f{self.n}r0.{o['fmt']}"
        d = dict(distributed=True, comm=self.comm) if o["dist"] else {}
        new = how(src, fn, o, d)
        self.S[o["c"]] = new

    def filter(self, o):
        src, dst = self.S[o["src"]], self.S[o["c"]]
        sels = {a: sel_value(i, o.get("listkind", "list")) for a, i in o["sels"].items()}
        keep = {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in sels.items()}
        axis = o["axis"][0] if len(o["axis"]) == 1 and o["bare"] else tuple(o["axis"]) if o["tuple"] else list(o["axis"])
        kw = {}
        if o["excl"]:
            kw["exclude_axes"] = list(o["excl"])
        if o["all"]:
            kw["copy_without_selection"] = True
        try:
            if o["positional"] == "axis-sel":
                copy_datasets_filter(src, dst, axis, sels[o["axis"][0]], **kw)
            elif o["axis"]:
                copy_datasets_filter(src, dst, axis=axis, selection=sels, **kw)
            else:
                copy_datasets_filter(src, dst, selection=sels, **kw)
        except Exception:
            self.S.pop(o["c"], None)
            raise
        finally:
            now = {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in sels.items()}
            if now != keep:
                raise AssertionError(f"caller's selection changed from {keep} to {now}")


def run(case):
    base = os.path.join(vpdrv.WORK, "c")
    os.chdir(vpdrv.WORK)
    WORLD.Barrier()
    if WORLD.rank == 0:
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
    WORLD.Barrier()
    os.chdir(base)
    out = dict(steps=[], end={})
    if WORLD.rank < case["p"]:
        m = Machine(case)
        for o in case["prog"]:
            try:
                getattr(m, o["op"])(o)
                r = dict(err=False)
            except AssertionError as e:
                r = dict(err=True, bad=str(e))
            except Exception as e:
                import traceback
                r = dict(err=True, exc=vpdrv.exc_name(e), msg=str(e)[:200], tb=traceback.format_exc()[-2500:])
                print("rank", WORLD.rank, o["op"], r["exc"], r["msg"], r["tb"], file=sys.stderr, flush=True)
            names = [x for x in {o["c"], o.get("src", o["c"])} if x in m.S]
            r["obs"] = {x: view(m.S[x], case) for x in names}
            out["steps"].append(r)
            m.comm.Barrier()
        out["end"] = {x: view(c, case) for x, c in m.S.items()}
        out = by_rank(m.comm, out)
    WORLD.Barrier()
    return out


for _p in range(1, WORLD.size + 1):
    comm_of(_p)
vpdrv.loop(run, WORLD)
