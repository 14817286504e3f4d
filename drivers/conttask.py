"""A container task in a pipeline: Input -> Worker -> Output, files in a scratch directory."""
import vpdrv
import logging
import os
import shutil

import h5py
import numpy as np
import zarr
from mpi4py import MPI

from caput import pipeline
from caput.containers import Container, ContainerPrototype
from caput.pipeline import exceptions, extensions
from caput.pipeline.tasklib import base

logging.disable(logging.CRITICAL)
COMM = MPI.COMM_WORLD
N = 6


class Box(ContainerPrototype):
    _axes = ("x", "y")
    _dataset_spec = {
        "data": dict(axes=["x"], dtype=float, initialise=True, distributed=True, distributed_axis="x", chunks=(2,), compression="gzip", compression_opts=4),
        "extra": dict(axes=["x", "y"], dtype=complex, initialise=True, distributed=True, distributed_axis="x"),
        "ints": dict(axes=["y"], dtype=int, initialise=True, distributed=False),
        "word": dict(axes=["y"], dtype="U4", initialise=False, distributed=False),
        "rec": dict(axes=["y"], dtype=[("a", float), ("b", int)], initialise=False, distributed=False),
    }

    @staticmethod
    def dataset_name_allowed(name):
        return True

    @staticmethod
    def group_name_allowed(name):
        return True


BADS = dict(nan=np.nan, inf=np.inf, ninf=-np.inf)


def make(i, spec):
    y = np.arange(2.0)
    where = spec["where"]
    if where == "map":
        y[1] = BADS[spec["what"]]
    c = Box(x=N, y=y, comm=COMM)
    for k in spec["extra"]:
        if k == "scal":
            c.create_dataset(k, data=np.array(BADS[spec["what"]] if where == "scal" else 2.0))
        elif k == "deep":
            c.create_dataset("grp/sub/deep", data=np.array([1.0, BADS[spec["what"]] if where == "deep" else 2.0]))
        else:
            c.add_dataset(k)
    c["ints"][:] = i
    data, extra = c["data"][:], c["extra"][:]
    data[:] = i
    extra[:] = i * 1j
    if "word" in c:
        c["word"][:] = "nan"
    if "rec" in c:
        c["rec"]["a"][:] = np.nan
    p = spec["at"]
    off = data.local_offset[0]
    if where in ("data", "re", "im") and off <= p < off + data.local_shape[0]:
        v = BADS[spec["what"]]
        if where == "data":
            data[p - off] = v
        else:
            extra[p - off, 1] = complex(v, 1) if where == "re" else complex(1, v)
    for a in spec["attrs"]:
        c.attrs[a["k"]] = a["v"]["n"] if a["v"]["t"] == "int" else a["v"]["s"]
    return c


def attr(v):
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, bytes):
        v = v.decode()
    if isinstance(v, str):
        return dict(t="str", s=str(v))
    if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
        return dict(t="int", n=int(v))
    if isinstance(v, (list, tuple)):
        return dict(t="list", l=[x.decode() if isinstance(x, bytes) else str(x) for x in v])
    return dict(t="odd", r=repr(v)[:60])


def attrs(c):
    return {k: attr(v) for k, v in c.attrs.items() if not k.startswith("__")}


def comp(ds, z):
    if z:
        return str(ds.chunks[0])
    return "plain" if ds.chunks is None and ds.compression is None else "spec" if (ds.chunks, ds.compression, ds.compression_opts) == ((2,), "gzip", 4) \
        else "over" if (ds.chunks, ds.compression, ds.compression_opts) == ((3,), "gzip", 7) else repr((ds.chunks, ds.compression, ds.compression_opts))


def look(name, path, conts, case):
    z = name.endswith(".zarr")
    c = Container.from_file(path, distributed=False)
    i = int(np.asarray(c["ints"])[0])
    f = zarr.open(path, "r") if z else h5py.File(path, "r")
    out = dict(name=name, id=i, attrs=attrs(c), comp=comp(f["data"], z), zarr=z)
    h = c.history
    out["order"] = list(h["order"])
    out["hist"] = [h.get("versions") == case["versions"], h.get("config") == case["config"]]
    out["data"] = np.asarray(f["data"])[:]
    out["extra"] = np.asarray(f["extra"])[:]
    if not z:
        f.close()
    return out


def body(case, calls, conts):
    state = dict(k=0)

    def step(self, *ins):
        st = case["steps"][state["k"]]
        state["k"] += 1
        calls.append([next((i + 1 for i, c in enumerate(conts) if c is x), 0) for x in ins])
        if st["done"]:
            self.done = True
        if st["res"] == "stop":
            raise exceptions.PipelineStopIteration
        if st["res"] == "none":
            return None
        o = tuple(conts[i - 1] for i in st["outs"])
        return o[0] if len(o) == 1 and not st.get("wrap") else o

    def fin(self):
        if case["fin"]["res"] == "none":
            return None
        o = tuple(conts[i - 1] for i in case["fin"]["outs"])
        return o[0] if len(o) == 1 else o

    names = ["a", "b", "c"][: case["nin"]]
    ns = {"step": step}
    exec("def process(self%s): return step(self%s)" % ("".join(", " + n for n in names), "".join(", " + n for n in names)), ns)
    d = dict(process=ns["process"])
    if case["fin"]["res"] != "absent":
        d["process_finish"] = fin
    return type(case["cfg"]["task"], (base.ContainerTask,), d)


def raw(f):
    return "".join(p.get("raw", p["s"]) if p["lit"] else "{" + p["s"] + "}" for p in f)


def run(case):
    os.chdir(vpdrv.WORK)
    COMM.Barrier()
    d = os.path.join(vpdrv.WORK, "ct")
    if COMM.rank == 0:
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    COMM.Barrier()
    os.chdir(d)
    os.environ["VPDIR"] = "envd"
    conts = [make(i + 1, s) for i, s in enumerate(case["conts"])]
    calls, got, cfg = [], [], case["cfg"]
    task = body(case, calls, conts)()
    cf = dict(save=cfg["save"] if len(cfg["save"]) > 1 or case["aslist"] else cfg["save"][0], nan_check=cfg["check"], nan_skip=cfg["skip"], nan_dump=cfg["dump"],
              versions=case["versions"], pipeline_config=case["config"])
    if case["hasname"]:
        ns = [raw(f) for f in cfg["name"]]
        cf["output_name"] = ns if len(ns) > 1 or case["aslist"] else ns[0]
    if raw(cfg["tag"]) != "{tag}":
        cf["tag"] = raw(cfg["tag"])
    if cfg["root"]:
        cf["output_root"] = cfg["root"]
    if cfg["attrs"]:
        cf["attrs"] = {a["k"]: raw(a["f"]) if a["isfmt"] else a["v"]["n"] for a in cfg["attrs"]}
    if cfg["comp"] == "plain":
        cf["compression"] = False
    elif cfg["comp"] == "over":
        cf["compression"] = {"data": dict(chunks=(3,), compression="gzip", compression_opts=7), "nosuch": dict(chunks=(1,))}
    elif case["emptycomp"]:
        cf["compression"] = {}
    if case["format"]:
        cf["output_format"] = case["format"]
    if all(cf[k] for k in ("nan_check", "nan_skip", "nan_dump")):
        for k in ("nan_check", "nan_skip", "nan_dump"):
            del cf[k]
    task.read_config(cf)
    m = pipeline.Manager()
    ins = ["in%d" % i for i in range(case["nin"])]
    for j, k in enumerate(ins):
        m.add_task(extensions.Input([conts[st["ins"][j] - 1] if st["ins"][j] else 7 for st in case["steps"]]), out=k)
    kw = {}
    if ins:
        kw["in_"] = ins if len(ins) > 1 else ins[0]
    if cfg["keys"]:
        kw["out"] = cfg["keys"] if len(cfg["keys"]) > 1 else cfg["keys"][0]
    m.add_task(task, **kw)
    for k in cfg["keys"]:
        g = []
        got.append(g)
        m.add_task(extensions.Output(lambda x, g=g: g.append(next((i + 1 for i, c in enumerate(conts) if c is x), 0))), in_=k)
    exc = ""
    try:
        m.run()
    except Exception as e:
        exc = vpdrv.exc_name(e) + " " + str(e)[:200]
    COMM.Barrier()
    files = []
    if COMM.rank == 0:
        for root, dirs, fs in os.walk(d):
            for n in fs + [x for x in dirs if x.endswith(".zarr")]:
                if ".zarr" in os.path.relpath(root, d):
                    continue
                p = os.path.join(root, n)
                try:
                    files.append(look(os.path.relpath(p, d), p, conts, case))
                except Exception as e:
                    files.append(dict(name=os.path.relpath(p, d), id=0, exc=vpdrv.exc_name(e) + str(e)[:200]))
    full = [[np.asarray(c[k][:].allgather()) for k in ("data", "extra")] for c in conts]
    for f in files:
        if f["id"]:
            f["same"] = all([np.array_equal(f.pop(k), full[f["id"] - 1][j], equal_nan=True) for j, k in enumerate(("data", "extra"))])
    return dict(exc=exc, calls=calls, got=got, files=files, attrs=[attrs(c) for c in conts], left=[[i + 1, float(np.asarray(c["ints"][:])[0])] for i, c in enumerate(conts)])


vpdrv.loop(run, COMM)
