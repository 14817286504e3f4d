"""Truncation of numbers, arrays and containers."""
import vpdrv
import logging
import math

import numpy as np
from mpi4py import MPI

from caput.containers import ContainerPrototype
from caput.pipeline.tasklib import io
from caput.util import truncate

logging.disable(logging.CRITICAL)
COMM = MPI.COMM_WORLD
FMT = dict(f4=(24, -126, np.float32), f8=(53, -1022, np.float64))


def dec(n):
    m = 0
    for b in n["b"]:
        m = 2 * m + b
    x = math.ldexp(m, n["e"] - len(n["b"]) + 1)
    return -x if n["s"] else x


def enc(x, fmt):
    p, emin, _ = FMT[fmt]
    x = float(x)
    s = int(math.copysign(1, x) < 0)
    if not math.isfinite(x):
        return dict(odd=repr(x))
    x = abs(x)
    e = emin if x == 0 else max(math.frexp(x)[1] - 1, emin)
    m = int(math.ldexp(math.ldexp(x, -e), p - 1)) if e > -1000 else int(math.ldexp(math.ldexp(x, 900), p - 1 - e - 900))
    return dict(s=s, b=[(m >> (p - 1 - i)) & 1 for i in range(p)], e=e)


def arr(vals, fmt, how="c"):
    v = np.array([dec(n) for n in vals], dtype=FMT[fmt][2])
    if how == "strided":
        w = np.full(2 * len(v) + 1, 7.25, dtype=v.dtype)
        w[1::2] = v
        return w, w[1::2]
    if how == "imag":
        w = np.zeros(len(v), dtype=np.complex64 if fmt == "f4" else np.complex128)
        w.real = 7.25
        w.imag = v
        return w, w.imag
    if how == "rev":
        w = v[::-1].copy()
        return w, w[::-1]
    return v, v


def rest(w, how):
    if how == "strided":
        return bool((w[::2] == 7.25).all())
    if how == "imag":
        return bool((w.real == 7.25).all())
    return True


def wval(w):
    return math.ldexp(w["m"], w["e"])


def functions(c):
    op, f = c["op"], c["fmt"]
    t = FMT[f][2] if f in FMT else None
    if op == "scalar":
        fn = truncate.bit_truncate_float if f == "f4" else truncate.bit_truncate_double
        return dict(r=enc(fn(dec(c["v"]), dec(c["err"])), f))
    if op == "int":
        fn = truncate.bit_truncate_int if f == "i4" else truncate.bit_truncate_long
        r = fn(int(dec(c["v"])) if len(c["v"]["b"]) < 53 else big(c["v"]), big(c["err"]))
        p = len(c["v"]["b"])
        up = int(abs(r) >= 1 << p)
        return dict(r=dict(s=int(r < 0), b=[(abs(r) >> (p - 1 - i + up)) & 1 for i in range(p)], e=p - 1 + up))
    if op in ("relative", "weights"):
        w, v = arr(c["v"], f, c["how"])
        if op == "relative":
            out = truncate.bit_truncate_relative(v, dec(c["prec"]))
            ok = True
        else:
            iv = np.array([wval(x) for x in c["w"]], dtype=t)
            was = iv.copy()
            out = truncate.bit_truncate_weights(v, iv, dec(c["prec"]))
            ok = bool((iv == was).all())
        return dict(r=[enc(x, f) for x in v], ret=[enc(x, f) for x in out], dtype=out.dtype == t, rest=rest(w, c["how"]) and ok,
                    shares=bool(len(v) == 0 or np.shares_memory(out, v)))
    if op == "maxc":
        m = max(len(r["x"]) for r in c["rows"]) if c["rows"] else 0
        v = np.array([[complex(dec(x["re"]), dec(x["im"])) for x in r["x"]] for r in c["rows"]], dtype=np.complex128).reshape(len(c["rows"]), m)
        if c["how"] == "fortran":
            v = np.asfortranarray(v)
        out = truncate.bit_truncate_max_complex(v, wval(c["prec"]), wval(c["pmax"]))
        one = lambda a: [[[enc(z.real, "f4"), enc(z.imag, "f4")] for z in row] for row in a]
        return dict(r=one(v), ret=one(out))
    # outside the domain
    try:
        k = c["bad"]
        if k == "nan":
            fn = truncate.bit_truncate_float if f == "f4" else truncate.bit_truncate_double
            fn(1.5, float("nan"))
        elif k == "inttype":
            truncate.bit_truncate_relative(np.arange(3), 0.1)
        elif k == "wtype":
            truncate.bit_truncate_weights(np.ones(3, np.float32), np.ones(3, np.float64), 0.1)
        elif k == "wlen":
            truncate.bit_truncate_weights(np.ones(3, t), np.ones(c["n"], t), 0.1)
        elif k == "ndim":
            truncate.bit_truncate_relative(np.ones((2, 2), t), 0.1)
        elif k == "cplx":
            truncate.bit_truncate_weights(np.ones(3, np.complex128), np.ones(3, np.float64), 0.1)
        return dict(r="accepted")
    except Exception as e:
        return dict(r="error", exc=vpdrv.exc_name(e))


def big(n):
    m = 0
    for b in n["b"]:
        m = 2 * m + b
    return -m if n["s"] else m


DT = dict(f4=np.float32, f8=np.float64, c8=np.complex64, c16=np.complex128)


def param(p, fmt):
    if p["k"] == "no":
        return False
    if p["k"] == "yes":
        return True
    if p["k"] == "prec":
        return dec(p["prec"]["f8"])
    d = {}
    if p["hasprec"]:
        d["fixed_precision"] = dec(p["prec"]["f8"])
    if p["w"]:
        d["weight_dataset"] = p["w"]
    if p["var"]:
        d["variance_increase"] = 1.0 / p["var"]
    return d


def dist(axes):
    return dict(distributed=True, distributed_axis="a") if "a" in axes else dict(distributed=False)


def task(c):
    size = c["size"]
    spec = {}
    for d in c["dsets"]:
        spec[d["name"]] = dict(axes=d["axes"], dtype=DT[d["dtype"]], initialise=d["init"], **dist(d["axes"]))
        if d["p"]["k"] != "no" or d["explicit"]:
            spec[d["name"]]["truncate"] = param(d["p"], d["fmt"])
        if d["chunks"]:
            spec[d["name"]].update(chunks=tuple(d["chunks"]), compression="gzip", compression_opts=3)
    ns = {}
    for w in c["weights"]:
        nm = w["name"]
        if w["prop"]:
            nm = "hid_" + nm
            if w["prop"] == "array":
                ns[w["name"]] = property(lambda s, nm=nm: np.asarray(s.datasets[nm][:]))
            else:
                ns[w["name"]] = property(lambda s, nm=nm: s.datasets[nm])
        spec[nm] = dict(axes=w["axes"], dtype=DT[w["dtype"]], initialise=True, **dist(w["axes"]))
    ns.update(_axes=("a", "b"), _dataset_spec=spec)
    cls = type("TruncBox", (ContainerPrototype,), ns)
    cont = cls(a=size["a"], b=size["b"], comm=COMM)

    def local(ds):
        if not hasattr(ds[:], "local_bounds"):
            return slice(None)
        sl = [slice(None)] * len(ds[:].shape)
        sl[ds[:].axis] = ds[:].local_bounds
        return tuple(sl)

    for d in c["dsets"]:
        if d["absent"]:
            continue
        if not d["init"]:
            cont.add_dataset(d["name"])
        ds = cont.datasets[d["name"]]
        v = np.array([dec(x) for x in d["vals"]], dtype=np.float64)
        if d["cplx"]:
            v = v.view(np.complex128)
        v = v.astype(DT[d["dtype"]]).reshape([size[a] for a in d["axes"]])
        ds[:] = v[local(ds)]
    for w in c["weights"]:
        ds = cont.datasets[("hid_" if w["prop"] else "") + w["name"]]
        ds[:] = np.array([3 * wval(x) for x in w["vals"]]).reshape([size[a] for a in w["axes"]])[local(ds)]
    cf = dict(ensure_chunked=c["chunk"])
    if c["config"] or c["emptyconf"]:
        cf["dataset"] = {x["name"]: param(x["p"], "f8") for x in c["config"]}
    t = io.Truncate()
    t.read_config(cf)
    out = None
    for _ in range(c["times"]):
        out = t.process(cont)
    res = []
    for d in c["dsets"]:
        if d["absent"]:
            res.append(dict(name=d["name"], absent=d["name"] not in cont))
            continue
        ds = cont.datasets[d["name"]]
        a = ds[:]
        a = np.asarray(a.allgather() if hasattr(a, "allgather") else a)
        fl = []
        for x in a.ravel():
            fl += [enc(x.real, d["fmt"]), enc(x.imag, d["fmt"])] if d["cplx"] else [enc(x, d["fmt"])]
        res.append(dict(name=d["name"], vals=fl, chunks=list(ds.chunks) if ds.chunks is not None else [], dtype=a.dtype == DT[d["dtype"]],
                        comp=[str(ds.compression), str(ds.compression_opts)] if d["chunks"] else []))
    ws = True
    for w in c["weights"]:
        ds = cont.datasets[("hid_" if w["prop"] else "") + w["name"]]
        ref = np.array([3 * wval(x) for x in w["vals"]]).reshape([size[a] for a in w["axes"]])[local(ds)]
        ws = ws and bool((np.asarray(ds[:]) == ref).all())
    return dict(r=res, same=out is cont, weights=ws)


def run(c):
    return task(c) if c["op"] == "task" else functions(c)


vpdrv.loop(run, COMM)
