"""Calls of the multithreaded generator under forced thread orders, and seeds of random tasks."""
import vpdrv
import concurrent.futures
import logging
import os
import re
import sys
import threading
import types

import numpy as np
from mpi4py import MPI

from caput.algorithms.random import MultithreadedRNG, default_rng
from caput.pipeline import Manager
from caput.pipeline.tasklib.random import RandomTask

comm = MPI.COMM_WORLD
sys.setswitchinterval(1e-5)
# the bit generator used unless another is given: looked up once, so that it need not be named here
BITGEN = {"": type(default_rng().bit_generator), "PCG64": np.random.PCG64, "Philox": np.random.Philox, "MT19937": np.random.MT19937}
DT = dict(f4=np.float32, f8=np.float64, i8=np.int64, i4=np.int32, u1=np.uint8, u4=np.uint32, i2=np.int16)


class Gate:
    """Makes the jobs handed to a pool run in a given order (as far as they can: after a while they go on)."""

    def __init__(self):
        self.order, self.n, self.turn, self.cv = [], 0, 0, threading.Condition()

    def set(self, order):
        self.order, self.n, self.turn = order, 0, 0

    def wrap(self, fn):
        k = self.n
        self.n += 1
        if k >= len(self.order):
            return fn
        me = self.order[k]

        def go(*a, **kw):
            with self.cv:
                self.cv.wait_for(lambda: self.turn >= me, .15)
            try:
                return fn(*a, **kw)
            finally:
                with self.cv:
                    self.turn = max(self.turn, me + 1)
                    self.cv.notify_all()

        return go


GATE = Gate()
_submit = concurrent.futures.ThreadPoolExecutor.submit


def submit(self, fn, /, *a, **k):
    return _submit(self, GATE.wrap(fn), *a, **k)


concurrent.futures.ThreadPoolExecutor.submit = submit


def param(p):
    if isinstance(p, dict):
        return np.array(p["arr"], dtype=p["t"]) if "arr" in p else None
    return p


def mkout(c):
    sh, dt = tuple(c["outshape"]), DT[c["outdtype"]]
    full = -7 if dt not in (np.uint8, np.uint32) else 201
    how = c["outhow"]
    if how == "f":
        a = np.full(sh, full, dtype=dt, order="F")
    elif how == "strided":
        a = np.full(sh[:-1] + (2 * sh[-1],), full, dtype=dt)[..., ::2]
    elif how == "rev":
        a = np.full(sh, full, dtype=dt)[::-1]
    elif how == "t":
        a = np.full(sh[::-1], full, dtype=dt).T
    else:
        a = np.full(sh, full, dtype=dt)
    if not c["outwrite"]:
        a.flags.writeable = False
    return a


def arguments(c, out):
    args = [param(p) for p in c["pos"]]
    kw = {k: param(v) for k, v in c["kw"].items()}
    size = c["size"][0] if c["sizeint"] and c["size"] else tuple(c["size"])
    if c["sizeform"] == "pos":
        args.append(size)
    elif c["sizeform"] == "kw":
        kw["size"] = size
    elif c["sizeform"] == "none" and c["nonepos"]:
        args.append(None)
    if c["dtypeform"] == "pos":
        args.append(DT[c["dtype"]])
    elif c["dtypeform"] == "kw":
        kw["dtype"] = DT[c["dtype"]] if c["dtname"] == 0 else c["dtype"] if c["dtname"] == 1 else np.dtype(c["dtype"])
    if c["out"] == "pos":
        args.append(out)
    elif c["out"] == "kw":
        kw["out"] = out
    elif c["out"] == "kwnone":
        kw["out"] = None
    if c["extra"]:
        args.append(True)
    return args, kw


def flat(a):
    return np.ascontiguousarray(a).tobytes()


def reference(main, threads, c, p):
    """The result the specified plan gives, drawn from plain numpy generators."""
    if p["kind"] == "error":
        return "error", None
    if p["kind"] == "direct":
        out = mkout(c) if c["out"] in ("kw", "pos") else None
        a, k = arguments(c, out)
        try:
            return "ok", getattr(main, c["method"])(*a, **k)
        except Exception:
            return "error", None
    args = [param(x) for x in c["pos"]]
    kw = {k: param(v) for k, v in c["kw"].items()}
    if c["dtype"] and c["dtypeform"] != "none":
        kw["dtype"] = DT[c["dtype"]]
    parts = [getattr(threads[i], c["method"])(*args, size=hi - lo, **kw) for i, (lo, hi) in enumerate(p["blocks"])]
    return "ok", np.concatenate(parts).reshape(p["shape"]).astype(DT[p["dtype"]])


def rng(case):
    gens, refs = [], []
    for g, t in zip(case["gens"], case["plan"]["threads"]):
        old = os.environ.pop("OMP_NUM_THREADS", None)
        try:
            if g["omp"]:
                os.environ["OMP_NUM_THREADS"] = str(g["omp"])
            kw = {}
            if g["threads"]:
                kw["threads"] = g["threads"]
            if g["bitgen"]:
                kw["bitgen"] = BITGEN[g["bitgen"]]
            seed = None if g["seed"] < 0 else g["seed"]
            gens.append(MultithreadedRNG(seed, **kw))
        finally:
            os.environ.pop("OMP_NUM_THREADS", None)
            if old is not None:
                os.environ["OMP_NUM_THREADS"] = old
        B = BITGEN[g["bitgen"]]
        refs.append((np.random.Generator(B(seed)), [np.random.Generator(B(s)) for s in np.random.SeedSequence(seed).spawn(t)]))
    res = []
    for c, p in zip(case["calls"], case["plan"]["plans"]):
        j = c["g"] - 1
        out = mkout(c) if c["out"] in ("kw", "pos") else None
        a, k = arguments(c, out)
        GATE.set(c["order"])
        try:
            r = getattr(gens[j], c["method"])(*a, **k)
            got = "ok"
        except Exception as e:
            r, got = None, "error"
        seeded = case["gens"][j]["seed"] >= 0
        if not seeded:
            # nothing to compare with: all elements are set, and no two of them alike
            if got == "ok" and p["kind"] == "parallel" and c["method"] == "random" and np.asarray(r).dtype == np.float64:
                res.append(dict(how=got, ok=bool(len(np.unique(r)) == r.size and r.min() >= 0 and r.max() < 1)))
            else:
                res.append(dict(how=got, ok=True))
            res[-1]["want"] = "error" if p["kind"] == "error" else "ok" if p["kind"] == "parallel" else got
            continue
        want, ref = reference(refs[j][0], refs[j][1], c, p)
        same = got == want
        why = ""
        if same and got == "ok":
            ra, fa = np.asarray(r), np.asarray(ref)
            if ra.dtype != fa.dtype or ra.shape != fa.shape:
                same, why = False, f"{ra.dtype}{ra.shape} for {fa.dtype}{fa.shape}"
            elif flat(ra) != flat(fa):
                bad = np.flatnonzero(ra.ravel() != fa.ravel())
                same, why = False, f"{len(bad)} elements differ from element {bad[:1]}"
            elif out is not None and r is not out:
                same, why = False, "not the output given"
        res.append(dict(how=got, want=want, ok=same, why=why))
    a, b = default_rng(), default_rng()
    return dict(calls=res, default=a is b)


# ---- tasks ----------------------------------------------------------------------------
mod = types.ModuleType("vprandtasks")
sys.modules["vprandtasks"] = mod
SEEN = []


def make(name):
    class T(RandomTask):
        def setup(self):
            other = MultithreadedRNG(self.local_seed, threads=self.threads)
            SEEN.append((int(self.local_seed), self.rng.random(1500).tobytes(), other.random(1500).tobytes(), self.rng is self.rng))

        def next(self):
            from caput.pipeline.exceptions import PipelineStopIteration
            raise PipelineStopIteration
    T.__name__ = T.__qualname__ = name
    T.__module__ = "vprandtasks"
    return T


class Words(logging.Handler):
    def __init__(self):
        super().__init__()
        self.seeds = []

    def emit(self, r):
        m = r.getMessage()
        if "seed" in m.lower():
            self.seeds += [int(x) for x in re.findall(r"\d+", m.lower().split("seed", 1)[1])]


def build(runs):
    import yaml
    found = []
    for tasks in runs:
        SEEN.clear()
        conf = dict(pipeline=dict(tasks=[dict(type="vprandtasks." + t["cls"], params={k: t[k] for k in ("seed", "threads", "log_level") if t.get(k) not in (None, "")}) for t in tasks]))
        m = Manager.from_yaml_str(yaml.safe_dump(conf))
        m.run()
        found.append(list(SEEN))
    return found


def tasks(case):
    for n in case["classes"]:
        if not hasattr(mod, n):
            setattr(mod, n, make(n))
    found = build(case["runs"])
    seeds = [x[0] for r in found for x in r]
    alls = comm.allgather(seeds)
    draws = comm.allgather([x[1] for r in found for x in r])
    # in the order of the instances: task by task, and for each the ranks
    inst = [(alls[r][k], draws[r][k]) for k in range(len(seeds)) for r in range(comm.size)]
    groups = [next(i for i in range(j + 1) if inst[i][0] == inst[j][0]) + 1 for j in range(len(inst))]
    dgroups = [next(i for i in range(j + 1) if inst[i][1] == inst[j][1]) + 1 for j in range(len(inst))]
    return dict(groups=groups, draws=dgroups, stream=all(x[1] == x[2] and x[3] for r in found for x in r))


def repeat(case):
    """The seed an unseeded task reports repeats its run."""
    n = case["cls"]
    if not hasattr(mod, n):
        setattr(mod, n, make(n))
    h = Words()
    T = getattr(mod, n)
    logging.disable(logging.NOTSET)
    root = logging.getLogger()
    lv = root.level
    root.addHandler(h)
    root.setLevel(logging.INFO)
    try:
        SEEN.clear()
        build([[dict(cls=n, threads=2, log_level="INFO")]])
        a = SEEN[0]
    finally:
        root.removeHandler(h)
        root.setLevel(lv)
    seeds = comm.bcast(sorted(set(h.seeds)), root=0)
    hit = []
    for s in seeds:
        build([[dict(cls=n, threads=2, seed=s)]])
        hit.append(SEEN[0][0] == a[0] and SEEN[0][1] == a[1])
    return dict(any=any(hit), seeds=len(seeds))


def run(case):
    return dict(rng=rng, tasks=tasks, repeat=repeat)[case["op"]](case)


vpdrv.loop(run, comm)
