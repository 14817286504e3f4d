"""Weighted quantiles and moving weighted medians."""
import vpdrv

import numpy as np

from caput.algorithms.median import moving_weighted_median, quantile, weighted_median

DT = dict(i4=np.intc, i8=np.int64, f4=np.float32, f8=np.float64)


def lay(a, how):
    """The same array in another memory layout."""
    if how == "strided":
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "rev":
        return a[..., ::-1].copy()[..., ::-1]
    if how == "ro":
        a = a.copy()
        a.flags.writeable = False
        return a
    if how == "list":
        return a.tolist()
    return a


def dbl(x, sc):
    x = float(x)
    if np.isnan(x):
        return -99999
    v = 2 * x / sc
    return int(v) if v == int(v) else dict(odd=repr(x))


def arrays(c, shape):
    a = np.array(c["a"], dtype=np.float64)
    w = np.array(c["w"], dtype=np.float64)
    a = (a * c["scale"]).astype(DT[c["ta"]]).reshape(shape)
    w = (w * c["wscale"]).astype(DT[c["tw"]]).reshape(shape)
    return lay(a, c["how"]), lay(w, c["howw"])


def same(x, y):
    return x == y if isinstance(x, list) else bool(np.array_equal(x, y))


def cp(x):
    return list(x) if isinstance(x, list) else x.copy()


def quant(c):
    a, w = arrays(c, c["shape"])
    a0, w0 = cp(a), cp(w)
    q = c["qn"] / c["qd"]
    if c["median"]:
        r = weighted_median(a, w, c["method"]) if c["method"] != "split" else weighted_median(a, w)
    else:
        r = quantile(a, w, q, method=c["method"])
    sh = list(np.shape(r))
    dt = np.asarray(r).dtype
    return dict(r=[dbl(x, c["scale"]) for x in np.asarray(r).ravel()], shape=sh, kept=same(a, a0) and same(w, w0),
                dtype=bool(dt == (np.asarray(a).dtype)))


def moving(c):
    a, w = arrays(c, c["shape"])
    a0, w0 = cp(a), cp(w)
    size = c["size"]
    if isinstance(size, list) and c["tuple"]:
        size = tuple(size)
    r = moving_weighted_median(a, w, size, c["method"]) if c["method"] != "split" else moving_weighted_median(a, w, size)
    r = np.asarray(r)
    return dict(r=[[dbl(x, c["scale"]) for x in row] for row in np.atleast_2d(r)], shape=list(r.shape), kept=same(a, a0) and same(w, w0))


def bad(c):
    k = c["bad"]
    f8 = np.ones
    try:
        if k == "qshape":
            quantile(f8(4), f8(3), .5)
        elif k == "qrange":
            quantile(f8(4), f8(4), c["q"])
        elif k == "qtype":
            quantile(f8(4, dtype=c["t"]), f8(4), .5)
        elif k == "qwtype":
            quantile(f8(4), f8(4, dtype=c["t"]), .5)
        elif k == "qmethod":
            quantile(f8(4), f8(4), .5, method="middle")
        elif k == "mmethod":
            moving_weighted_median(f8(4), f8(4), 3, method="middle")
        elif k == "size":
            moving_weighted_median(f8(4), f8(4), c["size"])
        elif k == "size2":
            moving_weighted_median(f8((4, 3)), f8((4, 3)), tuple(c["size"]))
        elif k == "mshape":
            moving_weighted_median(f8(c["n"]), f8(5), 3)
        elif k == "mshape2":
            moving_weighted_median(f8((6, 4)), f8(tuple(c["sh"])), (3, 3))
        elif k == "cplx":
            moving_weighted_median(f8(4) * 1j, f8(4), 3)
        elif k == "str":
            moving_weighted_median(np.array(["a", "b", "c"]), f8(3), 3)
        elif k == "dim":
            moving_weighted_median(f8((2, 2, 2)), f8((2, 2, 2)), (3, 3, 3))
        return "accepted"
    except Exception as e:
        return "error"


def run(c):
    return dict(quantile=quant, moving=moving, bad=lambda c: dict(r=bad(c)))[c["op"]](c)


vpdrv.loop(run)
