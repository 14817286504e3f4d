"""Runs programs of tree operations on real in-memory groups; after each step dumps everything reachable."""
import copy

import numpy as np
import vpdrv
from caput import memdata
from caput.memdata import _memh5
from caput.mpiarray import MPIArray
from mpi4py import MPI

COMM = MPI.COMM_WORLD
DUP = COMM.Dup()


class Sub(memdata.MemDiskGroup):
    pass


class Limited(memdata.MemDiskGroup):
    @staticmethod
    def group_name_allowed(name):
        return "hid" not in name.split("/")

    @staticmethod
    def dataset_name_allowed(name):
        p = [x for x in name.split("/") if x]
        return len(p) <= 2 and p[-1] != "priv"


SPELL = [
    lambda p: "/".join(p),
    lambda p: "//".join(p),
    lambda p: "/".join(p) + "/",
    lambda p: "/".join(p) + "//",
]


def render(path, spell):
    out = SPELL[spell % 4](path["parts"]) if path["parts"] else ""
    if path["abs"]:
        out = ("/" if spell % 3 else "//") + out if spell % 3 != 2 else "///" + out
    return out


def mk(val, dt):
    n = len(val)
    if dt == "struct":
        a = np.zeros(n, dtype=[("x", "<i4"), ("y", "<f8")])
        a["x"] = val
        a["y"] = np.array(val) * 0.5
        return a
    if dt == "obj":
        a = np.empty(n, dtype=object)
        for i, v in enumerate(val):
            a[i] = [v]
        return a
    if dt == "sobj":
        a = np.zeros(n, dtype=[("x", "<i4"), ("o", object), ("q", object)])
        a["x"] = val
        for i, v in enumerate(val):
            a["o"][i], a["q"][i] = [v], dict(v=[v])
        return a
    if dt == "two":
        return np.array([[v, v + 1000] for v in val], dtype="i8")
    return np.array(val, dtype=dt)


def plain(x):
    if isinstance(x, MPIArray):
        x = x.allgather()
    x = np.asarray(x)
    if x.dtype == object:
        return [int(v[0]) for v in x]
    if x.dtype.names and "q" in x.dtype.names:
        assert all(v["o"] == [v["x"]] and v["q"] == dict(v=[v["x"]]) for v in x), x
        return [int(v) for v in x["x"]]
    if x.dtype.names:
        assert np.array_equal(x["y"], x["x"] * 0.5)
        return [int(v) for v in x["x"]]
    if x.ndim == 2:
        assert np.array_equal(x[:, 1], x[:, 0] + 1000)
        return [int(v) for v in x[:, 0]]
    if x.dtype.kind in "SU":
        return [int(v) for v in x]
    return [int(v) for v in x.real]


def poke(d, i, v):
    """Write element i (0-based) of a dataset, in place."""
    dt = d.dtype
    if dt == object:
        d[i][0] = v
    elif dt.names and "q" in dt.names:
        d[i]["o"][0] = v
        d[i]["q"]["v"][0] = v
        d[:]["x"][i] = v
    elif dt.names:
        d[i : i + 1] = mk([v], "struct")
    elif len(d.shape) == 2:
        d[i] = [v, v + 1000]
    elif dt.kind in "SU":
        d[i] = str(v) if dt.kind == "U" else str(v).encode()
    else:
        d[i] = v


def aval(v):
    return dict(list=[list(v)]) if len(v) % 2 else list(v)


def unaval(v):
    return list(v["list"][0]) if isinstance(v, dict) else list(v)


def attrs(a):
    return sorted([dict(k=k, v=unaval(v)) for k, v in a.items()], key=lambda x: x["k"])


def parts(name):
    assert name.startswith("/") and "//" not in name and (name == "/" or not name.endswith("/")), name
    return [p for p in name.split("/") if p]


def dsc(d):
    return dict(data=plain(d[:] if d.distributed is False else d.data), attrs=attrs(d.attrs))


def dump_tree(root):
    out = []

    def walk(g, path):
        out.append(dict(path=path, k="g", attrs=attrs(g.attrs), data=[], chunks=[], ax=-1))
        assert parts(g.name) == path, (g.name, path)
        ks = list(g)
        assert len(g) == len(ks) == len(set(ks)), ks
        assert sorted(g.keys()) == sorted(ks) == sorted(k for k, _ in g.items())
        for k in ks:
            v = g[k]
            assert k in g and "/" + "/".join(path + [k]) in g
            if memdata.is_group(v):
                walk(v, path + [k])
            else:
                assert parts(v.name) == path + [k], (v.name, path, k)
                assert isinstance(v, memdata.MemDataset)
                out.append(dict(path=path + [k], k="d", chunks=list(v.chunks or []), ax=v.distributed_axis if v.distributed else -1, **dsc(v)))

    walk(root, [])
    return sorted(out, key=lambda x: x["path"])


def dump_h(h):
    if h is None:
        return dict(k="n", path=[], data=[], attrs=[])
    if memdata.is_group(h):
        return dict(k="g", path=parts(h.name), data=[], attrs=[])
    return dict(k="d", path=parts(h.name), **dsc(h))


class Cur:
    pass


def root(kind, comm):
    if kind == "mem":
        return memdata.MemGroup()
    if kind == "disk":
        return memdata.MemDiskGroup()
    if kind == "sub":
        return Sub()
    if kind == "dmem":
        return memdata.MemGroup(distributed=True, comm=comm)
    return Sub(distributed=True, comm=comm)


def do(c, op, H):
    """Returns (result, handle, new root or None)."""
    o = op["op"]
    if o == "root":
        g = root(op["kind"], DUP if op["spell"] % 2 else COMM)
        return None, g, g
    h = H[op["h"] - 1]
    isg = memdata.is_group(h)
    if o in ("cg", "cd", "rg", "rd", "get", "has", "del"):
        path = render(op["path"], op["spell"])
    if o == "cg":
        return None, h.create_group(path), None
    if o in ("cd", "rd"):
        data = mk(op["val"], op["dt"])
        ch = tuple([op["chunks"][0]] + [2] * (data.ndim - 1)) if op["chunks"] else None
        if o == "rd":
            d = h.require_dataset(path, shape=data.shape, dtype=data.dtype, data=data, chunks=ch)
        elif h.distributed and op["dist"] and op["dt"] not in ("obj",):
            m = MPIArray(data.shape, axis=0, comm=h.comm, dtype=data.dtype)
            m[:] = data[m.local_bounds]
            d = h.create_dataset(path, data=m, distributed=True, distributed_axis=0, chunks=ch)
        elif op["dist"]:
            d = h.create_dataset(path, shape=data.shape, dtype=data.dtype, chunks=ch)
            d[:] = data
        else:
            d = h.create_dataset(path, data=data, chunks=ch)
        return None, d, None
    if o == "rg":
        return None, h.require_group(path), None
    if o == "get":
        return None, h[path], None
    if o == "has":
        r = path in h
        assert (h.get(path) is not None) == r
        return ["yes"] if r else ["no"], None, None
    if o == "del":
        del h[path]
        return None, None, None
    if o == "ls":
        assert len(h) == len(list(h)) == len(h.keys()) and all(k in h for k in h)
        return sorted(h), None, None
    if o == "seta":
        h.attrs[op["key"]] = aval(op["val"])
        return None, None, None
    if o == "muta":
        v = h.attrs[op["key"]]
        if isinstance(v, dict):
            v["list"][0].append(op["val"][0])
        else:
            v.append(op["val"][0])
        return None, None, None
    if o == "dela":
        del h.attrs[op["key"]]
        return None, None, None
    if o == "write":
        poke(h, op["i"] - 1, op["val"][0])
        return None, None, None
    if o == "parent":
        return None, h.parent, None
    if o == "file":
        return None, h.file, None
    if o == "dcopy":
        return None, (copy.deepcopy(h) if op["how"] % 2 else h.copy()), None
    if o == "dview":
        return None, h.view(), None
    if o == "wrap":
        K = Limited if op["lim"] else Sub
        return None, (K(h, distributed=h.distributed, comm=h.comm) if op["how"] % 2 else K.from_group(h)), None
    if o == "redist":
        h.redistribute(op["ax"])
        return None, None, None
    if o == "clear":
        for k in h:
            del h[k]
        return None, None, None
    if o == "eq":
        b = H[op["h2"] - 1]
        assert (h == b) == (not h != b)
        return ["yes"] if h == b else ["no"], None, None
    if o == "copy":
        sh = ["/".join(p) if (i + op["how"]) % 2 else "/" + "/".join(p) for i, p in enumerate(op["shared"])]
        mem = isinstance(h, memdata.MemGroup)
        if not mem and not sh and not op["shallow"] and op["how"] % 3 == 0:
            g = copy.deepcopy(h)
        elif not mem:
            g = h.copy(shared=sh, shallow=op["shallow"])
            assert type(g) is type(h)
        elif not sh and not op["shallow"] and not h.distributed and op["how"] % 2:
            g = memdata.MemGroup.from_group(h)
        else:
            g = memdata.MemGroup(distributed=h.distributed, comm=h.comm)
            kw = dict(convert_attribute_strings=False) if op["how"] in (0, 3) else {}
            memdata.deep_group_copy(h, g, shared=sh or None, shallow=op["shallow"], **kw)
        assert g.distributed == h.distributed
        assert not g.distributed or g.comm == h.comm, "communicator of the copy"
        return None, g, g
    raise AssertionError(o)


def run(case):
    H, roots, steps = [], [], []
    for op in case["ops"]:
        try:
            r, h, new = do(case, op, H)
            res = dict(k="ok" if r is None else "val", v=r or [])
        except Exception as e:
            h = new = None
            res = dict(k="err", e=vpdrv.exc_name(e), v=[], msg=str(e)[:150])
        H.append(h)
        if new is not None:
            roots.append(new)
        try:
            steps.append(dict(res=res, h=dump_h(h), trees=[dump_tree(g) for g in roots], dh=[dump_h(x) for x in H]))
        except Exception as e:
            import traceback
            steps.append(dict(bad=vpdrv.exc_name(e) + ": " + str(e)[:200] + traceback.format_exc()[-600:], res=res))
            break
        if op["op"] != "root" and not (op["h"] <= len(H)):
            break
    return dict(steps=steps)


vpdrv.loop(run, COMM)
