"""Concatenates and reads time-ordered data on p ranks."""
import os
import shutil
import sys

import vpdrv
import h5py
import numpy as np

from arrs import WORLD, by_rank, comm_of, decode, dtype, encode, local_part, obs
from caput.containers import tod
from caput.memdata import MemDatasetCommon, MemDatasetDistributed, MemGroup, fileformats
from caput.mpiarray import MPIArray

FMT = dict(h5=fileformats.HDF5, zarr=fileformats.Zarr)


def klass(taxes):
    return type("VpTod", (tod.TOData,), dict(time_axes=tuple(taxes), __module__="vpclasses"))


def mk(case, piece, cls, comm):
    d = cls(MemGroup(distributed=case["dist"], comm=comm) if case["dist"] else MemGroup(),
            distributed=case["dist"], comm=comm)
    for ax, v in piece["im"].items():
        vals = np.array(v["vals"], "i8")
        if ax == "time" and case["ctime"]:
            a = np.zeros(len(vals), [("fpga", "i8"), ("ctime", "f8")])
            a["fpga"], a["ctime"] = vals + 7, vals
        elif v.get("U"):
            a = encode(vals, "S8" if case["onfile"] else "U8")
        else:
            a = vals.astype("f8")
        d.create_index_map(ax, a)
        for k, x in v["attrs"].items():
            d.index_attrs[ax][k] = x
    for ax, v in piece["rm"].items():
        d.create_reverse_map(ax, np.array(v, "i8"))
    for nm, s in piece["ds"].items():
        a = encode(np.array(s["A"]["data"], "i8").reshape(s["A"]["shape"]), s["dt"])
        if s["dist"]:
            m = MPIArray(a.shape, axis=s["dax"], comm=comm, dtype=a.dtype)
            m[:] = local_part(a, s["dax"], comm)
            x = d.create_dataset(nm, data=m, distributed=True, distributed_axis=s["dax"])
        else:
            x = d.create_dataset(nm, data=a)
        x.attrs["axis"] = np.array(s["axes"])
        for k, v in s["attrs"].items():
            x.attrs[k] = v
    for k, v in piece["attrs"].items():
        d.attrs[k] = v
    for h in piece["hist"]:
        d.add_history(h["name"], dict(v=h["val"]))
    return d


def clean(attrs):
    return {k: int(v) if isinstance(v, (int, np.integer)) else repr(v) for k, v in attrs.items()
            if not k.startswith("__") and k != "axis"}


def vals_of(a):
    a = np.asarray(a)
    if a.dtype.names:
        return [int(x["ctime"]) if x["fpga"] == x["ctime"] + 7 else -999 for x in a]
    if a.dtype.kind == "S":
        a = np.char.decode(a, "ascii")
    return [int(x) for x in a.tolist()]


def view(c):
    out = dict(attrs=clean(c.attrs), im={}, rm={}, ds={})
    h = c.history
    out["hist"] = [dict(name=n, val=h[n].get("v") if isinstance(h.get(n), dict) else repr(h.get(n))) for n in h["order"]]
    for ax, v in c.index_map.items():
        out["im"][ax] = dict(vals=vals_of(v), attrs=clean(c.index_attrs[ax]))
    for ax, v in c.reverse_map.items():
        out["rm"][ax] = vals_of(v)
    for nm in c:
        d = c[nm]
        a = d.data if isinstance(getattr(d, "data", None), np.ndarray) else d[:]
        dt = d.dtype.str.lstrip("<>|=")
        r = obs(a, dt)
        if list(d.shape) != (r["gshape"] if isinstance(d, MemDatasetDistributed) else r["shape"]):
            r["bad"] = f"shape {d.shape}"
        ax = [x.decode() if isinstance(x, bytes) else str(x) for x in d.attrs["axis"]]
        out["ds"][nm] = dict(axes=ax, dt=dt, attrs=clean(d.attrs), rank=r)
    return out


def bound(b):
    return b["i"] if b["given"] else None


def bounds(bs):
    if bs["k"] == "all":
        return np.int64(bs["b"]["i"]) if bs.get("np") and bs["b"]["given"] else bound(bs["b"])
    return {a: bound(b) for a, b in bs["d"].items()}


def one(d):
    return d[:] * 2


def save_all(case, ps):
    fns = []
    for j, p in enumerate(ps):
        fns.append(f"p{j}.{case['fmt']}")
        p.save(fns[-1], file_format=FMT[case["fmt"]])
    return fns


def concat(case, cls, comm):
    ps = [mk(case, p, cls, comm) for p in case["pieces"]]
    start, stop = bounds(case["start"]), bounds(case["stop"])
    keep = [dict(x) if isinstance(x, dict) else x for x in (start, stop)]
    kw = dict(start=start, stop=stop)
    if not case["names"]["all"]:
        kw["datasets"] = list(case["names"]["l"])
    tpos = {nm: min(j for j, a in enumerate(d["axes"]) if a in case["taxes"])
            for nm, d in case["pieces"][0]["ds"].items() if set(d["axes"]) & set(case["taxes"])}
    axes = {nm: d["axes"] for nm, d in case["pieces"][0]["ds"].items()}
    if case["filt"] == "one":
        kw["dataset_filter"] = one
    elif case["filt"] == "two":
        def two(d, s):
            j = tpos[d.name.lstrip("/")]
            return d[(slice(None),) * j + (s,)] * 2
        kw["dataset_filter"] = two
    elif case["filt"] in ("turn", "turn2"):
        def turn(d, s=slice(None)):
            j = tpos[d.name.lstrip("/")]
            x = MemDatasetCommon.from_numpy_array(np.ascontiguousarray(np.asarray(d[(slice(None),) * j + (s,)]).T))
            for a, v in d.attrs.items():
                x.attrs[a] = v
            x.attrs["axis"] = np.array(axes[d.name.lstrip("/")][::-1])
            return x
        kw["dataset_filter"] = turn if case["filt"] == "turn2" else (lambda d: turn(d))
    out = dict()
    f = None
    if case["out"] == "h5":
        f = h5py.File("out.h5", "w")
    grp = f if f is not None else MemGroup() if case["out"] == "mem" else None
    if case["fmt"] and case["src"] == "files":
        fns = save_all(case, ps)
        arg = f"p*.{case['fmt']}" if case["glob"] else fns
        k2 = dict(file_format=FMT[case["fmt"]]) if case["givefmt"] or case["fmt"] == "zarr" else {}
        if not case["ondisk"]:
            k2["ondisk"] = False
        o = cls.from_mult_files(arg, data_group=grp, **kw, **k2)
    else:
        if case["src"] == "disk":
            fns = save_all(case, ps)
            lst = [cls.from_file(x, ondisk=True, mode="r", file_format=FMT[case["fmt"]]) for x in fns]
        else:
            lst = ps
        o = tod.concatenate(tuple(lst) if case["tuple"] else lst, out_group=grp, **kw)
    if f is not None:
        f.close()
        out["out"] = view(cls.from_file("out.h5", distributed=False))
    else:
        out["out"] = view(o)
    out["cls"] = type(o) is cls
    out["ins"] = [view(p) for p in ps]
    out["args"] = [start, stop] == keep
    out["dist"] = bool(o.distributed)
    return out


def reader(case, cls, comm):
    ps = [mk(case, p, cls, comm) for p in case["pieces"]]
    fns = save_all(case, ps)
    rc = type("VpReader", (tod.TODReader,), dict(data_class=cls))
    rd = rc(f"p*.{case['fmt']}" if case["glob"] else fns, **(dict(file_format=FMT[case["fmt"]]) if case["givefmt"] else {}))
    out = dict(time4=[float(4 * x) for x in rd.time], datasets=sorted(rd.datasets), steps=[])
    for o in case["prog"]:
        r = dict(err=False)
        try:
            if o["op"] == "tsel":
                rd.time_sel = (o["a"], o["b"])
            elif o["op"] == "dsel":
                rd.dataset_sel = o["names"]
            elif o["op"] == "range":
                rd.select_time_range(bound(o["t0"]), bound(o["t1"]))
            else:
                r["res"] = view(rd.read())
        except Exception as e:
            r = dict(err=True, exc=vpdrv.exc_name(e), msg=str(e)[:200])
        r["a"], r["b"] = (int(x) for x in rd.time_sel)
        r["names"] = sorted(rd.dataset_sel)
        out["steps"].append(r)
    return out


def run(case):
    base = os.path.join(vpdrv.WORK, "c")
    os.chdir(vpdrv.WORK)
    WORLD.Barrier()
    if WORLD.rank == 0:
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
    WORLD.Barrier()
    os.chdir(base)
    out = None
    if WORLD.rank < case["p"]:
        try:
            out = (concat if case["k"] == "concat" else reader)(case, klass(case["taxes"]), comm_of(case["p"]))
        except Exception as e:
            import traceback
            out = dict(exc=vpdrv.exc_name(e), msg=str(e)[:300], tb=traceback.format_exc()[-1500:])
            print("rank", WORLD.rank, out, file=sys.stderr, flush=True)
        out = by_rank(comm_of(case["p"]), out)
    WORLD.Barrier()
    return out


for _p in range(1, WORLD.size + 1):
    comm_of(_p)
vpdrv.loop(run, WORLD)
