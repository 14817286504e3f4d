"""Token arrays: encoding integer tokens in various dtypes, per-rank observations (import after vpdrv)."""
import warnings

import numpy as np
from mpi4py import MPI

from caput import mpiarray
from caput.mpiarray import MPIArray

warnings.simplefilter("ignore")
WORLD = MPI.COMM_WORLD
_comms = {}


def comm_of(p):
    """The first p ranks; all but the world itself number them backwards, so that no rank's number in
    it is its number in the world (except in the middle)."""
    if p not in _comms:
        _comms[p] = WORLD if p == WORLD.size else WORLD.Create(WORLD.Get_group().Incl(range(p)[::-1]))
    return _comms[p]


def by_rank(comm, res):
    """Results in the order of the ranks of comm, to be reported by the same ranks of the world."""
    return comm.allgather(res)[WORLD.rank] if comm.size < WORLD.size else res


STRUCT = np.dtype([("a", "<i4"), ("b", "<f8"), ("c", "S3")])
REC = np.dtype([("a", "<i4"), ("b", "<f8")])      # no strings: untouched by string conversion
DT = {"struct": STRUCT, "rec": REC}


def dtype(name):
    return DT.get(name) or np.dtype(name)


def encode(tok, name):
    tok = np.asarray(tok)
    dt = dtype(name)
    if name == "struct":
        out = np.zeros(tok.shape, dt)
        out["a"], out["b"] = tok, tok * 0.5
        out["c"] = np.char.mod("%d", tok % 1000) if tok.size else b""
        return out
    if name == "rec":
        out = np.zeros(tok.shape, dt)
        out["a"], out["b"] = tok, tok * 0.5
        return out
    if dt.kind == "c":
        return (tok + 1j * (tok + 1)).astype(dt)
    if dt.kind == "S":
        return np.char.mod("%d", tok).astype(dt) if tok.size else np.zeros(tok.shape, dt)
    if dt.kind == "U":
        return np.char.mod("%d", tok).astype(dt) if tok.size else np.zeros(tok.shape, dt)
    if dt.kind == "M":
        return tok.astype("i8").astype(dt)
    return tok.astype(dt)


def decode(a, name):
    a = np.asarray(a)
    dt = dtype(name)
    flat = a.reshape(-1) if a.flags.c_contiguous else a.copy().reshape(-1)
    if a.dtype != dt and not (a.dtype.kind in "fi" and dt.kind in "fi"):
        return ["dtype " + str(a.dtype)]
    out = []
    for x in flat.tolist():
        if name == "struct":
            ok = x[1] == x[0] * 0.5 and x[2] == str(x[0] % 1000).encode()
            out.append(x[0] if ok else -999)
        elif name == "rec":
            out.append(x[0] if x[1] == x[0] * 0.5 else -999)
        elif dt.kind == "c":
            out.append(int(x.real) if x.imag == x.real + 1 else -999)
        elif dt.kind in "SU":
            try:
                out.append(int(x))
            except ValueError:
                out.append(-999)
        elif dt.kind == "b":
            out.append(int(x))
        elif dt.kind == "f":
            out.append(int(x) if x == x and x == int(x) else -999)
        else:
            out.append(x)
    if dt.kind == "M":
        out = [int(v) for v in a.reshape(-1).astype("i8")]
    return out


def obs(x, name):
    if x is None:
        return dict(t="nd", axis=-1, gshape=[], start=0, shape=[-1], data=[])
    if isinstance(x, MPIArray):
        la = x.local_array
        off = list(map(int, x.local_offset))
        ax = int(x.axis)
        rec = dict(t="dist", axis=ax, gshape=[int(v) for v in x.global_shape], start=off[ax],
                   shape=[int(v) for v in la.shape], data=decode(la, name))
        bad = []
        if [int(v) for v in x.local_shape] != rec["shape"]:
            bad.append(f"local_shape {tuple(x.local_shape)} for {la.shape}")
        if any(o for i, o in enumerate(off) if i != ax % max(1, len(off))) or len(off) != la.ndim:
            bad.append(f"offset {off}")
        b = x.local_bounds
        if (b.start, b.stop) != (off[ax], off[ax] + la.shape[ax]):
            bad.append(f"bounds {b}")
        if list(x.enumerate(ax)) != [(i, off[ax] + i) for i in range(la.shape[ax])]:
            bad.append("enumerate")
        if bad:
            rec["bad"] = bad
        return rec
    a = np.asarray(x)
    return dict(t="nd", axis=-1, gshape=[], start=0, shape=list(a.shape), data=decode(a, name))


def item(it, npint=False):
    k = it["k"]
    if k == "int":
        return np.int64(it["i"]) if npint else it["i"]
    if k == "slice":
        return slice(it["a"] if it["ha"] else None, it["b"] if it["hb"] else None,
                     it["s"] if it["s"] != 1 else None)
    if k == "list":
        return np.array(it["l"], dtype=int) if npint else list(it["l"])
    return Ellipsis if k == "ell" else None


def items(op):
    t = tuple(item(i, op.get("npint")) for i in op["items"])
    return t[0] if len(t) == 1 and op.get("bare") else t


def local_part(tok, axis, comm):
    n = tok.shape[axis]
    base, rem = divmod(n, comm.size)
    s = comm.rank * base + min(comm.rank, rem)
    e = s + base + (comm.rank < rem)
    return tok[(slice(None),) * axis + (slice(s, e),)]


def layout(a, how):
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        big = np.zeros(tuple(2 * n for n in a.shape), a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    return np.ascontiguousarray(a)


def mk(shape, data, axis, name, comm, how="C", init="wrap", default_comm=False, neg=False):
    tok = np.array(data, dtype="i8").reshape(shape)
    la = layout(encode(local_part(tok, axis, comm), name), how)
    ax = axis - len(shape) if neg else axis
    kw = {} if default_comm else dict(comm=comm)
    if init == "wrap":
        return MPIArray.wrap(la, ax, **kw)
    if init == "ctor":
        d = MPIArray(tuple(shape), axis=ax, dtype=dtype(name), **kw)
        d[:] = la
        return d
    d = mpiarray.zeros(tuple(shape), axis=ax, dtype=dtype(name), **kw)
    d.local_array[...] = la
    return d
