"""Writes trees with p ranks, looks at the file independently, reads it back with q ranks."""
import os
import shutil

import vpdrv
import h5py
import numpy as np
import zarr

from arrs import WORLD, by_rank, comm_of, decode, dtype, encode, item, layout, mk, obs
from caput.memdata import MemDiskGroup, MemGroup, fileformats
from caput.mpiarray import MPIArray

FMT = dict(h5=fileformats.HDF5, zarr=fileformats.Zarr)


def common(d):
    return layout(encode(np.array(d["data"], "i8").reshape(d["shape"]), d["dtype"]), d.get("layout", "C"))


def parents(d):
    ps = d["path"].strip("/").split("/")[:-1]
    return ["/" + "/".join(ps[:i + 1]) for i in range(len(ps))]


def meta(d):
    return dict(path=d["path"], shape=list(d["shape"]), none=None)


def write(case, fn, comm):
    via = case["via"]
    ff = FMT[case["fmt"]]
    if via == "array":
        # every dataset straight from MPIArrays
        for d in case["dsets"]:
            arr = mk(d["shape"], d["data"], d["axis"], d["dtype"], comm, d.get("layout", "C"), d.get("init", "wrap"))
            arr.to_file(fn, d["path"].strip("/"), create=True, chunks=tuple(d["chunks"]) if d["chunks"] else None,
                        file_format=ff)
        return
    dist = case["wdist"]
    g = MemGroup(distributed=dist, comm=comm) if via == "group" else MemDiskGroup(distributed=dist, comm=comm)
    for d in case["dsets"]:
        kw = dict(chunks=tuple(d["chunks"])) if d["chunks"] else {}
        if d["dist"] and dist:
            data = mk(d["shape"], d["data"], d["axis"], d["dtype"], comm, d.get("layout", "C"), d.get("init", "wrap"))
            ds = g.create_dataset(d["path"], data=data, distributed=True, **kw)
        else:
            ds = g.create_dataset(d["path"], data=common(d), **kw)
        ds.attrs["tag"] = d["path"]
        ds.attrs["meta"] = meta(d)
        for gp in parents(d):
            g[gp].attrs["gtag"] = gp
    g.attrs["who"] = "tree"
    if via == "group":
        g.to_file(fn, file_format=ff if case["givefmt"] else None)
    else:
        g.save(fn, file_format=ff)
    # writing must not change what is in memory
    out = []
    for d in case["dsets"]:
        x = g[d["path"]]
        x = getattr(x, "data", None) if isinstance(getattr(x, "data", None), np.ndarray) else x[:]
        out.append(obs(x, d["dtype"]))
    return out


def look(case, fn):
    """Read the file with the format's own library."""
    out = []
    f = h5py.File(fn, "r") if case["fmt"] == "h5" else zarr.open_group(fn, mode="r")
    try:
        for d in case["dsets"]:
            x = f[d["path"].strip("/")]
            r = obs(x[...], d["dtype"])
            r["dtype"] = str(x.dtype) if x.dtype != dtype(d["dtype"]) else "same"
            r["hints"] = [bool(x.attrs.get("__memh5_distributed_dset", False)),
                          int(x.attrs.get("__memh5_distributed_axis", -1))]
            r["tag"] = str(x.attrs.get("tag", ""))
            for gp in parents(d):
                if case["via"] != "array" and str(f[gp].attrs.get("gtag")) != gp:
                    r["tag"] = f"{gp} has {dict(f[gp].attrs)}"
            out.append(r)
        names = []
        f.visit(names.append)
        return dict(dsets=out, names=sorted(n for n in names if not hasattr(f[n], "create_group")))
    finally:
        if case["fmt"] == "h5":
            f.close()


def sel_of(its):
    return tuple(item(i) for i in its)


def read(case, rd, fn, comm):
    ff = FMT[case["fmt"]]
    out = [dict(t="absent")] * len(case["dsets"])
    if rd["how"] == "array":
        d = case["dsets"][rd["target"] - 1]
        s = rd["sels"][rd["target"] - 1]
        kw = dict(sel=sel_of(s)) if s else {}
        out[rd["target"] - 1] = obs(MPIArray.from_file(fn, d["path"].strip("/"), comm=comm, axis=rd["axis"],
                                                       file_format=ff, **kw), d["dtype"])
        return out
    sels = {}
    for d, s in zip(case["dsets"], rd["sels"]):
        if s:
            sels[d["path"] if rd["slash"] else d["path"].strip("/")] = sel_of(s)
    hints = True
    if rd["how"] == "group" and any(h["hasdist"] or h["hasaxis"] for h in rd["hints"]):
        hints = {}
        for d, h in zip(case["dsets"], rd["hints"]):
            e = {}
            if h["hasdist"]:
                e["distributed"] = h["dist"]
            if h["hasaxis"]:
                e["axis"] = h["axis"]
            if e:
                hints[d["path"]] = e
    g = MemGroup.from_file(fn, distributed=rd["how"] == "group", comm=comm, hints=hints, selections=sels,
                           **(dict(file_format=ff) if rd["givefmt"] else {}))
    for j, d in enumerate(case["dsets"]):
        x = g[d["path"]]
        o = obs(x.data, d["dtype"])
        if x.name != d["path"]:
            o["bad"] = f"name {x.name}"
        if case["via"] != "array" and (str(x.attrs.get("tag")) != d["path"] or str(g.attrs.get("who")) != "tree"):
            o["bad"] = f"attrs {dict(x.attrs)}"
        if case["via"] != "array":
            if x.attrs.get("meta") != meta(d):
                o["bad"] = f"meta {x.attrs.get('meta')}"
            for gp in parents(d):
                if str(g[gp].attrs.get("gtag")) != gp:
                    o["bad"] = f"{gp} attrs {dict(g[gp].attrs)}"
        out[j] = o
    n = []

    def walk(gr):
        for k in gr:
            (walk(gr[k]) if hasattr(gr[k], "create_group") else n.append(gr[k].name))
    walk(g)
    if sorted(n) != sorted(d["path"] for d in case["dsets"]):
        out[0] = dict(out[0], bad=f"names {n}")
    return out


def attempt(fn, *a):
    try:
        return dict(ok=fn(*a))
    except Exception as e:
        import traceback
        return dict(err=vpdrv.exc_name(e), msg=str(e)[:200], tb=traceback.format_exc()[-600:])


def run(case):
    base = os.path.join(vpdrv.WORK, "io")
    os.chdir(vpdrv.WORK)
    WORLD.Barrier()
    if WORLD.rank == 0:
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
    WORLD.Barrier()
    os.chdir(base)
    name = "data." + ("h5" if case["fmt"] == "h5" else "zarr")
    if case["path"] == "abs":
        fn = os.path.join(base, name)
    elif case["path"] == "sub":
        if WORLD.rank == 0:
            os.makedirs("sub/deep")
        WORLD.Barrier()
        fn = "sub/deep/" + name
    else:
        fn = name
    p, q = case["p"], case["q"]
    out = dict()
    if WORLD.rank < p:
        c = comm_of(p)
        out["mem"] = by_rank(c, attempt(write, case, fn, c) if case["wdist"] or c.rank == 0 else dict(ok=None))
    WORLD.Barrier()
    if WORLD.rank == 0:
        out["file"] = attempt(look, case, fn)
        keep = os.path.abspath(fn)
        out["stray"] = sorted(os.path.relpath(os.path.join(r, f), base) for r, ds, fs in os.walk(base)
                              for f in fs + [x for x in ds if x not in ("sub", "deep")]
                              if not os.path.join(r, f).startswith(keep))
    WORLD.Barrier()
    if WORLD.rank < q:
        out["reads"] = by_rank(comm_of(q), [attempt(read, case, rd, fn, comm_of(q)) for rd in case["reads"]])
    WORLD.Barrier()
    return out


for _p in range(1, WORLD.size + 1):
    comm_of(_p)
vpdrv.loop(run, WORLD)
