"""Runs programs of distributed-array operations in the real MPIArray, on every rank."""
import vpdrv
import numpy as np

from arrs import WORLD, by_rank, comm_of, encode, items, mk, obs
from caput.mpiarray import MPIArray


def apply(arr, op, name, comm):
    o = op["op"]
    form = op.get("form", 0)
    if o == "redist":
        return arr.redistribute(op["axis"])
    if o == "gather":
        return arr.gather(op["rank"]) if form or op["rank"] else arr.gather()
    if o == "allgather":
        return arr.allgather()
    if o == "copy":
        c = arr.copy(*(("F",) if form == 1 else ()))
        return c
    if o == "index":
        return arr[items(op)]
    if o == "transpose":
        p = op["perm"]
        if form == 1:
            return arr.transpose(*p)
        if form == 2:
            return np.transpose(arr, p)
        if form == 3 and [x % len(p) for x in p] == list(range(len(p)))[::-1]:
            return arr.T
        if form == 4 and [x % len(p) for x in p] == list(range(len(p)))[::-1]:
            return arr.transpose() if op["sneg"] & 1 else arr.transpose(None) if op["sneg"] & 2 else np.transpose(arr)
        if form == 5 and len(p) == arr.ndim:
            q = [x % len(p) for x in p]
            mv = [i for i in range(len(q)) if q[i] != i]
            if len(mv) == 2:
                s = op["sneg"]
                return arr.swapaxes(*[x - (arr.ndim if (s >> n) & 1 else 0) for n, x in enumerate(mv)][:: -1 if s & 4 else 1])
        if form == 0 and op["sneg"] == 0:
            return np.moveaxis(arr, p, list(range(len(p))))
        return arr.transpose(tuple(p) if op["sneg"] & 1 else list(p))
    if o == "reshape":
        sh = [None if x == -2 else x for x in op["shape"]]
        return arr.reshape(*sh) if form else arr.reshape(tuple(sh))
    if o == "reduce":
        f = op["f"]
        ax = None if op["all"] else (op["axes"][0] if len(op["axes"]) == 1 and form % 2 else tuple(op["axes"]))
        kw = dict(keepdims=True) if op["keep"] else {}
        meth = {"add": "sum", "maximum": "max", "minimum": "min"}[f]
        if form >= 4:
            return getattr(np, f).reduce(arr, axis=ax, **kw)
        if form >= 2:
            return getattr(np, meth)(arr, axis=ax, **kw)
        return getattr(arr, meth)(axis=ax, **kw)
    if o == "accum":
        if op["f"] == "add" and form:
            return np.cumsum(arr, axis=op["axis"]) if form == 1 else arr.cumsum(axis=op["axis"])
        return getattr(np, op["f"]).accumulate(arr, axis=op["axis"])
    if o == "ufunc1":
        return getattr(np, op["f"])(arr)
    if o == "ufunc2":
        r = op["rhs"]
        if r["kind"] == "scalar":
            rhs = r["v"] if form != 1 else arr.dtype.type(r["v"])
        elif r["kind"] == "nd":
            rhs = encode(np.array(r["data"], "i8").reshape(r["shape"]), name)
        else:
            rhs = mk(r["shape"], r["data"], r["axis"], name, comm)
        if op["out"] == "inplace":
            if op["f"] == "add":
                arr += rhs
            elif op["f"] == "subtract":
                arr -= rhs
            elif op["f"] == "multiply":
                arr *= rhs
            else:
                getattr(np, op["f"])(arr, rhs, out=arr)
            return arr
        a, b = (rhs, arr) if op["swap"] else (arr, rhs)
        f = getattr(np, op["f"])
        if op["out"] in ("like", "badaxis"):
            ax = arr.axis if op["out"] == "like" else (arr.axis + 1) % arr.ndim
            out = MPIArray(arr.global_shape, axis=ax, dtype=arr.dtype, comm=comm)
            res = f(a, b, out=out)
            assert res is out
            return res
        if form == 2:
            return {"add": lambda: a + b, "subtract": lambda: a - b, "multiply": lambda: a * b}.get(op["f"], lambda: f(a, b))()
        return f(a, b)
    if o == "sumall":
        return arr.sum().allreduce()
    if o == "gslice":
        return arr.global_slice[items(op)]
    if o in ("gset", "lset"):
        v = op["value"]
        val = encode(np.array(v["data"], "i8").reshape(v["shape"]), name)
        if val.ndim == 0 and form:
            val = val[()]
        tgt = arr.global_slice if o == "gset" else arr
        tgt[items(op)] = val
        return arr
    if o == "wrap":
        lens = op["lens"]
        st = sum(lens[: comm.rank])
        la = encode(np.arange(st + 1, st + 1 + lens[comm.rank]), name)
        if form == 1:
            la = np.stack([la, la], axis=0)
            w = MPIArray.wrap(la, 1, comm=comm)
            return w[0]
        return MPIArray.wrap(la, 0, comm=comm)
    raise KeyError(o)


def run(case):
    p = case["p"]
    if WORLD.rank >= p:
        comm_of(p)
        return None
    comm = comm_of(p)
    name = case["dtype"]
    arr = mk(case["shape"], case["data"], case["axis"], name, comm, case.get("layout", "C"),
             case.get("init", "wrap"), case.get("defcomm", False) and p == WORLD.size, case.get("neg", False))
    out = dict(init=obs(arr, name), steps=[])
    for op in case["ops"]:
        # exchange-free check that every rank fails or none: collect the outcome first
        try:
            r = apply(arr, op, name, comm)
            o = obs(r, name)
        except Exception as e:
            r, o = None, dict(t="err", cls=vpdrv.exc_name(e), msg=str(e)[:160])
        if op.get("poke") and isinstance(r, np.ndarray) and r is not arr:
            r.view(np.ndarray)[...] = encode(np.array(0), name)
        if o["t"] == "dist" and op["keepres"]:
            arr = r
        out["steps"].append(dict(res=o, now=obs(arr, name)))
    return by_rank(comm, out)


def main():
    for p in range(1, WORLD.size + 1):
        comm_of(p)
    vpdrv.loop(run, WORLD)


main()
