"""The MPI helpers on this many ranks; programs of collective calls by the first p ranks."""
import vpdrv
import json
import logging
import os
import random
import time

import numpy as np
from mpi4py import MPI

import arrs
from arrs import WORLD, by_rank, comm_of, decode, encode, layout, local_part
from caput.util import mpitools

REAL = getattr(mpitools, "self_module", mpitools)
DIR = os.path.join(vpdrv.WORK, "mpitools")
if WORLD.rank == 0:
    os.makedirs(DIR, exist_ok=True)
WORLD.Barrier()
OPS = dict(sum=MPI.SUM, prod=MPI.PROD, max=MPI.MAX, min=MPI.MIN)


class Slow(MPI.Intracomm):
    """A communicator whose calls take a moment, differently on every rank."""

    def _nap(self):
        if _rng.random() < .3:
            time.sleep(_rng.random() * .002)


def _wrap(name):
    base = getattr(MPI.Intracomm, name)

    def f(self, *a, **k):
        self._nap()
        return base(self, *a, **k)

    return f


_rng = random.Random(WORLD.rank)
for _n in ("Isend", "Irecv", "Barrier", "gather", "allgather", "allreduce", "bcast", "send", "recv", "isend", "irecv"):
    setattr(Slow, _n, _wrap(_n))


def do(o, comm, kw, tag):
    r, p = comm.rank, comm.size
    k = o["op"]
    if k == "map":
        seen = []

        def func(x):
            seen.append(int(x))
            if _rng.random() < .2:
                time.sleep(.0005)
            return x * x + 1
        a = dict(kw)
        if o["root"] >= 0:
            a["root"] = o["root"]
        elif o["explicit"]:
            a["root"] = None
        if o["method"]:
            a["method"] = o["method"]
        items = list(o["items"]) if o["kind"] == "list" else tuple(o["items"]) if o["kind"] == "tuple" else np.array(o["items"], dtype=int)
        res = mpitools.parallel_map(func, items, **a)
        return dict(none=res is None, v=[] if res is None else [int(x) for x in res], seen=seen)
    if k == "transpose":
        tok = np.array(o["data"], dtype="i8").reshape(o["shape"])
        if o["extra"]:
            tok = np.concatenate([tok, np.full((*tok.shape[:-1], o["extra"]), -5)], axis=-1)
        loc = encode(local_part(tok, 0, comm), o["dtype"])
        loc = layout(loc, o["layout"])
        keep = loc.copy()
        shape = list(o["shape"]) if o["aslist"] else tuple(o["shape"])
        res = mpitools.transpose_blocks(loc, shape, **kw)
        return dict(shape=list(res.shape), data=decode(res, o["dtype"]), untouched=bool((loc == keep).all()),
                    own=not np.shares_memory(res, loc))
    if k == "gather":
        g = None
        if r == o["root"] or o["everywhere"]:
            g = layout(encode(np.array(o["data"], dtype="i8").reshape(o["shape"]), o["dtype"]), o["glayout"])
        pt = o["parts"][r]
        loc = layout(encode(np.array(pt["data"], dtype="i8").reshape(pt["shape"]), o["dtype"]), o["layout"])
        a = dict(kw)
        if o["root"] or o["explicit"]:
            a["root"] = o["root"]
        st = tuple(pt["start"]) if o["explicit"] else list(pt["start"])
        mpitools.gather_local(g, loc, st, **a)
        return dict(shape=list(o["shape"]), data=None if g is None else decode(g, o["dtype"]))
    if k == "reduce":
        a = dict(kw)
        if o["f"] != "sum" or o["explicit"]:
            a["op"] = OPS[o["f"]]
        v = dict(int=int, float=float, npint=np.int32, bool=bool, npbool=np.bool_)[o["kind"]](o["vals"][r])
        return int(mpitools.allreduce(v, **a))
    if k == "bcast":
        a = dict(kw)
        if o["root"] or o["explicit"]:
            a["root"] = o["root"]
        return mpitools.bcast(o["vals"][r], **a)
    if k == "write":
        fn = os.path.join(DIR, f"w{tag}")
        if r == 0:
            with open(fn, "wb") as f:
                f.write(bytes(o["file"]))
        comm.Barrier()
        ok = True
        if r == o["who"] % p:
            buf = np.frombuffer(bytes(o["bytes"]), dtype=o["dtype"])
            if o["shape"]:
                buf = buf.reshape(o["shape"])
            buf = layout(buf, o["layout"]) if o["layout"] != "bytes" else bytes(o["bytes"])
            try:
                mpitools.lock_and_write_buffer(buf, fn, o["off"], o["size"])
            except Exception:
                ok = False
        ok = comm.allreduce(ok, op=MPI.LAND)
        comm.Barrier()
        with open(fn, "rb") as f:
            return dict(ok=ok, file=list(f.read()))
    if k == "rows":
        import h5py
        fn = os.path.join(DIR, f"r{tag}.h5")
        if r == 0:
            if os.path.exists(fn):
                os.remove(fn)
            if o["other"]:
                with h5py.File(fn, "w") as f:
                    f["other"] = np.arange(7)
        comm.Barrier()
        tok = np.array(o["data"], dtype="i8").reshape(o["shape"])
        loc = layout(encode(local_part(tok, 0, comm), o["dtype"]), o["layout"])
        mpitools.parallel_rows_write_hdf5(fn, "dset", loc, tuple(o["shape"]), **kw)
        comm.Barrier()
        out = None
        if r == 0:
            with h5py.File(fn, "r") as f:
                d = f["dset"][...]
                out = dict(shape=list(d.shape), data=decode(d, o["dtype"]),
                           other=not o["other"] or f["other"][...].tolist() == list(range(7)))
            os.remove(fn)
        return comm.bcast(out)
    if k == "cpu":
        real = os.cpu_count
        os.cpu_count = lambda: o["ncpu"]
        try:
            return int(mpitools.cpu_count(**kw))
        finally:
            os.cpu_count = real
    if k == "alloc":
        real = REAL.available_memory_shared
        REAL.available_memory_shared = lambda: o["avail"]
        try:
            a = dict(kw)
            if o["scope"] != "shared" or o["explicit"]:
                a["scope"] = o["scope"]
            return bool(mpitools.can_allocate(o["req"][r], **a))
        finally:
            REAL.available_memory_shared = real
    if k == "log":
        flt = mpitools.MPILogFilter(add_mpi_info=o["addinfo"], level_rank0=o["lev0"], level_all=o["levall"], **kw)
        out = []
        for q in o["recs"]:
            rec = logging.LogRecord("n", q["level"], "f", 1, "m", (), None)
            if q["rank"] >= 0:
                rec.mpi_rank, rec.mpi_size = q["rank"], 9
            ok = flt.filter(rec)
            out.append({"pass": bool(ok), "rank": getattr(rec, "mpi_rank", -1)})
        return out
    if k == "active_comm":
        new = mpitools.active_comm(o["procs"])
        if new == MPI.COMM_NULL:
            return dict(pos=-1, n=0)
        out = dict(pos=new.rank, n=new.size)
        s = new.allreduce(WORLD.rank)
        if s != sum(o["procs"]):
            out["bad"] = s
        new.Free()
        return out
    if k == "active":
        fn = os.path.join(DIR, f"a{tag}")
        if r == 0 and os.path.exists(fn):
            os.remove(fn)
        WORLD.Barrier()

        def ev(name):
            fd = os.open(fn, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, json.dumps(dict(ev=name, rank=r)).encode() + b"\n")
            os.close(fd)
        new = mpitools.active(o["procs"])
        if new == MPI.COMM_NULL or new is None or r not in o["procs"]:
            out = dict(pos=-1, n=0) if new == MPI.COMM_NULL else dict(pos=new.rank, n=new.size)
            ev("resumed")
        else:
            time.sleep(_rng.random() * .006)
            out = dict(pos=new.rank, n=new.size)
            ev("work")
            for _ in range(o["noise"]):
                if r == 0:
                    for i in range(p):
                        if i not in o["procs"]:
                            WORLD.send("not the end", dest=i, tag=3)
            new.Barrier()
            if r == 0:
                time.sleep(.004)
                ev("close")
            mpitools.close(o["procs"])
            new.Free()
        WORLD.Barrier()
        if r == 0:
            with open(fn) as f:
                out["log"] = [json.loads(x) for x in f]
        WORLD.Barrier()
        return out


SLOW = {}


def run(case):
    p = case["p"]
    if WORLD.rank >= p:
        return None
    out = []
    for j, o in enumerate(case["ops"]):
        comm = comm_of(p)
        if case["slow"]:
            if p not in SLOW:
                SLOW[p] = Slow(comm)
            comm = SLOW[p]
            if _rng.random() < .3:
                time.sleep(_rng.random() * .004)
        kw = {} if (p == WORLD.size and o.get("default")) else dict(comm=comm)
        if p == 1 and o.get("nocomm") and o["op"] in ("map", "transpose", "gather", "reduce", "bcast"):
            kw = dict(comm=None)
        try:
            res = do(o, comm, kw, f"{case['id']}_{j}")
        except Exception as e:
            import traceback
            traceback.print_exc()
            res = dict(exc=vpdrv.exc_name(e), msg=str(e)[:200])
        out.append(res)
    return by_rank(comm_of(p), out)


for q in range(1, WORLD.size + 1):
    comm_of(q)
vpdrv.loop(run, WORLD)
