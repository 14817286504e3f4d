"""Work splitting helpers on this many ranks."""
import vpdrv
import numpy as np

from arrs import WORLD as W, by_rank, comm_of
from caput.util import arraytools, mpitools
from caput.mpiarray import MPIArray


def ints(x):
    return [int(v) for v in x]


def run(case):
    n, m = case["n"], case["m"]
    o = {}
    if case["mode"] == "pure":
        s = arraytools.split_m(n + m * case["k"], m)
        o["size"], o["start"], o["end"] = (ints(r) for r in s)
        if case["full"]:
            full = list(range(n))
            o["con"] = [ints(arraytools.partition_list(full, i, m)) for i in range(m)]
            o["con2"] = [ints(arraytools.partition_list(full, i, m, method="con")) for i in range(m)]
            o["alt"] = [ints(arraytools.partition_list(full, i, m, method="alt")) for i in range(m)]
            o["rand"] = [ints(arraytools.partition_list(full, i, m, method="rand")) for i in range(m)]
            o["untouched"] = full == list(range(n))
        try:
            arraytools.partition_list([1, 2], 0, 1, method="none")
            o["badmethod"] = "accepted"
        except Exception as e:
            o["badmethod"] = vpdrv.exc_name(e)
        return o
    # on ranks: m = communicator size
    if W.rank >= m:
        return None
    comm = comm_of(m)
    kw = {} if (m == W.size and case["form"]) else dict(comm=comm)
    a = mpitools.split_all(n, **kw)
    o["size"], o["start"], o["end"] = (ints(r) for r in a)
    o["local"] = ints(mpitools.split_local(n, **kw))
    full = list(range(n))
    # keep ranks' global random states apart, as they are in real runs
    np.random.seed(1000 + W.rank + n)
    for meth in ("con", "alt", "rand"):
        o[meth] = ints(mpitools.partition_list_mpi(full, method=meth, **kw))
        o["r_" + meth] = ints(mpitools.mpirange(3, 3 + 2 * n, 2, method=meth, **kw))
    o["r_def"] = ints(mpitools.mpirange(n, **kw))
    d = MPIArray((2, n), axis=1, **kw)
    o["arr"] = [int(d.local_shape[1]), int(d.local_offset[1])]
    return by_rank(comm, o)


for p in range(1, W.size + 1):
    comm_of(p)
vpdrv.loop(run, W)
