"""File lists and the load tasks, on files made for each case."""
import vpdrv
import copy
import logging
import os
import shutil

import numpy as np
from mpi4py import MPI

from caput import pipeline
from caput.containers import ContainerPrototype
from caput.memdata import MemGroup, fileformats
from caput.pipeline import extensions
from caput.pipeline.tasklib import io

logging.disable(logging.CRITICAL)
COMM = MPI.COMM_WORLD


class LBox(ContainerPrototype):
    _axes = ("x", "y")
    _dataset_spec = {
        "data": dict(axes=["x", "y"], dtype=float, initialise=True, distributed=True, distributed_axis="x"),
        "flat": dict(axes=["y"], dtype=int, initialise=True, distributed=False),
    }


import sys  # noqa: E402
import types  # noqa: E402

MOD = types.ModuleType("vploadbox")
MOD.LBox = LBox
LBox.__module__ = "vploadbox"
sys.modules["vploadbox"] = MOD


def scratch():
    os.chdir(vpdrv.WORK)
    COMM.Barrier()
    d = os.path.join(vpdrv.WORK, "lf")
    if COMM.rank == 0:
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    COMM.Barrier()
    os.chdir(d)
    return d


def plain(v):
    return v["n"] if v["t"] == "int" else v["s"]


def make(fs, real):
    for j, f in enumerate(fs):
        p = f["str"]
        if os.path.dirname(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
        if not real or f["kind"] == "dir":
            if f["dir"]:
                os.makedirs(p, exist_ok=True)
            else:
                open(p, "w").close()
            continue
        c = LBox(x=10 * np.arange(f["nx"]), y=np.arange(f["ny"]), comm=MPI.COMM_SELF)
        d = (j + 1) * 10000 + 100.0 * np.arange(f["nx"])[:, None] + np.arange(f["ny"])
        if 0 <= f["px"] < f["nx"] and 0 <= f["py"] < f["ny"]:
            d[f["px"], f["py"]] = np.nan
        c["data"][:] = d
        c["flat"][:] = np.arange(f["ny"])
        for a in f["attrs"]:
            c.attrs[a["k"]] = plain(a["v"])
        c.save(p, file_format=fileformats.Zarr if f["dir"] else fileformats.HDF5)


def tree(a):
    if a["t"] == "list":
        return [tree(x) for x in a["items"]]
    if a["t"] == "bad":
        return dict(none=None, num=7, tup=("f1.h5",))[a["what"]]
    return a["str"]


def lists(case):
    make(case["fs"], False)
    if case["what"] == "groups":
        arg = []
        for g in case["groups"]:
            if not g["dict"]:
                arg.append(7)
                continue
            d = {"more": 1}
            if g["hastag"]:
                d["tag"] = g["tag"]
            if g["hasfiles"]:
                d["files"] = tree(g["files"])
            arg.append(d)
        if case["bare"] and len(arg) == 1:
            arg = arg[0]
    else:
        arg = tree(case["arg"])
    was = copy.deepcopy(arg)
    fn = dict(groups=io.list_of_filegroups, lists=io.list_of_filelists, one=io.list_or_glob)[case["what"]]
    try:
        r = fn(arg)
    except Exception as e:
        return dict(ok=False, exc=vpdrv.exc_name(e) + " " + str(e)[:100], changed=arg != was)
    if case["what"] == "groups":
        r = [dict(tag=g.get("tag"), l=list(g["files"])) for g in r]
    return dict(ok=True, res=r, changed=arg != was)


def attr(v):
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, str):
        return dict(t="str", s=str(v))
    if isinstance(v, (int, np.integer)):
        return dict(t="int", n=int(v))
    if isinstance(v, (list, tuple)):
        return dict(t="list", l=[str(x) for x in v])
    return dict(t="odd", r=repr(v)[:60])


def raw(f):
    return "".join(p.get("raw", p["s"]) if p["lit"] else "{" + p["s"] + "}" for p in f)


def value(v):
    if v["t"] != "list":
        return dict(str="abc", int=3, none=None)[v["o"]]
    return [x["n"] if x["t"] == "int" else x["s"] for x in v["l"]]


def show(c, redist):
    data = c["data"][:]
    ax = int(data.axis) if hasattr(data, "axis") else -1
    full = np.asarray(data.allgather() if hasattr(data, "allgather") else data)
    xs, ys = [int(v) // 10 for v in c.index_map["x"][:]], [int(v) for v in c.index_map["y"][:]]
    want = None
    flat = [int(v) for v in c["flat"][:]]
    ids = {int(v) // 10000 for v in full.reshape(-1) if v == v}
    if len(ids) > 1 or list(full.shape) != [len(xs), len(ys)] or flat != ys:
        return dict(odd=repr(full)[:200], xs=xs, ys=ys, flat=flat)
    f = ids.pop() if ids else 0
    want = f * 10000 + 100.0 * np.array(xs)[:, None] + np.array(ys)
    ok = bool(np.all((full == want) | np.isnan(full))) if full.size else True
    return dict(file=f, xs=xs, ys=ys, ok=ok, nan=int(np.isnan(full).sum()), ax=ax, attrs={k: attr(v) for k, v in c.attrs.items() if not k.startswith("__")})


def load(case):
    if COMM.rank == 0:
        make(case["fs"], True)
    COMM.Barrier()
    cfg, kind = case["cfg"], case["kind"]
    m = pipeline.Manager()
    cf = dict(nan_check=cfg["check"], nan_skip=cfg["skip"], nan_dump=False)
    if case["sels"]:
        cf["selections"] = {(e["axis"] + "_" if e["axis"] or e["under"] else "") + e["type"]: value(e["v"]) for e in case["sels"]}
    if case["maps"]:
        cf["allow_index_map"] = True
    if raw(cfg["tag"]) != "{tag}":
        cf["tag"] = raw(cfg["tag"])
    if cfg["attrs"]:
        cf["attrs"] = {a["k"]: raw(a["f"]) if a["isfmt"] else a["v"]["n"] for a in cfg["attrs"]}
    if not case["distributed"]:
        cf["distributed"] = False
    if case["redist"]:
        cf["redistribute"] = case["redist"]
    kw, exc, out = {}, "", []
    try:
        if kind in ("attrs", "select"):
            ins = []
            for a in case["ins"]:
                c = MemGroupBox()
                for x in a:
                    c.attrs[x["k"]] = plain(x["v"])
                ins.append(c)
            m.add_task(extensions.Input(ins), out="in")
            kw["in_"] = "in"
        if kind == "attrs":
            t = io.LoadFilesFromAttrs()
            cf["filename"] = raw(case["name"])
        elif kind == "select":
            t = io.LoadFilesAndSelect()
            cf["files"] = tree(case["arg"])
            if case["haskey"]:
                cf["key_format"] = raw(case["key"])
        elif kind == "params":
            t = io.LoadFilesFromParams()
            cf["files"] = tree(case["arg"])
        elif kind == "pathtag":
            t = io.LoadFilesFromPathAndTag()
            cf.update(paths=[raw(p) for p in case["paths"]], tags=case["tags"])
        else:
            t = io.LoadFiles()
            ff = io.FindFiles()
            ff.read_config(dict(files=tree(case["arg"])))
            m.add_task(ff, out="list")
            kw["requires"] = "list"
        t.read_config(cf)
        m.add_task(t, out="o", **kw)
        o = extensions.Output()
        m.add_task(o, in_="o")
        m.run()
        out = [show(c, case["redist"]) for c in o.outputs]
    except Exception as e:
        exc = vpdrv.exc_name(e) + " " + str(e)[:200]
    return dict(exc=exc, out=out)


def MemGroupBox():
    return LBox(x=1, y=1, comm=COMM)


def save(case):
    """The plain save task: each group under the root and its tag, or else numbered."""
    t = io.Save()
    t.read_config(dict(root="s"))
    m = pipeline.Manager()
    ins = []
    for j, a in enumerate(case["ins"]):
        g = MemGroup()
        g.create_dataset("d", data=np.array([j + 1]))
        for x in a:
            g.attrs[x["k"]] = plain(x["v"])
        ins.append(g)
    m.add_task(extensions.Input(ins), out="in")
    m.add_task(t, in_="in", out="o")
    o = extensions.Output(lambda g: int(np.asarray(g["d"])[0]))
    m.add_task(o, in_="o")
    m.run()
    return dict(out=list(o.outputs), files={f: int(np.asarray(MemGroup.from_file(f)["d"])[0]) for f in sorted(os.listdir("."))})


def run(case):
    scratch()
    return dict(lists=lists, load=load, save=save)[case["mode"]](case)


vpdrv.loop(run, COMM)
