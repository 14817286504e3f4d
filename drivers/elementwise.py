"""Functions adapted to take anything, reciprocals and distinct items."""
import vpdrv
import math
from fractions import Fraction

import numpy as np

from caput.algorithms import invert_no_zero
from caput.util import arraytools


def arg(a):
    x = np.array(a["data"], dtype=np.int64 if a["int"] else np.float64).reshape(a["shape"])
    if a["kind"] == "scalar":
        return a["data"][0] if not a["np"] else x[()] if not a["int"] else np.int64(a["data"][0])
    if a["kind"] == "array":
        if a["strided"] and x.ndim:
            y = np.zeros([2 * n for n in x.shape], dtype=x.dtype)[tuple(slice(None, None, 2) for _ in x.shape)]
            y[...] = x
            return y
        return x
    y = x.tolist()
    return y if a["kind"] == "list" else tuple(y)


def value(r):
    return dict(ok=True, scalar=not isinstance(r, np.ndarray), shape=list(np.shape(r)), data=[int(v) for v in np.ravel(r)])


def adapted(case):
    op, k = case["op"], case["k"]
    seen = []

    def note(args):
        seen.append(args)

    def fn(*args, k):
        note(args)
        r = k
        for j, x in enumerate(args):
            r = r + (2 * j + 3) * x
        return r

    deco = dict(vectorize=lambda: arraytools.vectorize(otypes=[np.float64]), scalarize=lambda: arraytools.scalarize(dtype=np.float32 if case["f4"] else np.float64),
                listize=lambda: arraytools.listize())[op]()
    n = len(case["args"])

    if n == 1:
        def base(a, k=0):
            """Doc."""
            return fn(a, k=k)
    elif n == 2:
        def base(a, b, k=0):
            """Doc."""
            return fn(a, b, k=k)
    else:
        def base(a, b, c, k=0):
            """Doc."""
            return fn(a, b, c, k=k)

    args = [arg(a) for a in case["args"]]
    before = repr(args)
    if case["method"]:
        if n == 1:
            def meth(self, a):
                """Doc."""
                return fn(a, k=self.k)
        elif n == 2:
            def meth(self, a, b):
                """Doc."""
                return fn(a, b, k=self.k)
        else:
            def meth(self, a, b, c):
                """Doc."""
                return fn(a, b, c, k=self.k)

        class Holder:
            call = deco(meth)

            def __init__(self, k):
                self.k = k

        one, other = Holder(k), Holder(k + 1000)
        f = one.call
        other.call          # binding to another instance leaves the first alone
        doc = f.__doc__ == "Doc." and f.__name__ == "meth" and Holder.call.__doc__ == "Doc."
        call = lambda: f(*args)  # noqa: E731
    else:
        f = deco(base)
        doc = f.__doc__ == "Doc." and f.__name__ == "base"
        call = lambda: f(*args, k=k)  # noqa: E731
    try:
        r = call()
    except ValueError as e:
        return dict(ok=False, msg=str(e)[:100])
    out = dict(value(r), doc=doc, kept=repr(args) == before)
    if op == "scalarize":
        out["seen"] = [list(x.shape) if isinstance(x, np.ndarray) else "?" for x in seen[0]] if seen else []
        out["empty"] = str(r.dtype) if not seen else ""
    if op == "listize":
        out["seen"] = ["array" if isinstance(x, np.ndarray) else "scalar" for x in seen[0]]
    return out


def real(v):
    if v["k"] == "zero":
        return -0.0 if v["s"] else 0.0
    if v["k"] in ("inf", "nan"):
        return float(("-" if v["s"] else "") + v["k"])
    return (-1) ** v["s"] * math.ldexp(v["m"], v["e"])


def cplx(v):
    x = math.ldexp(1.0, v["e"]) if v["k"] != "zero" else 0.0
    x = -x if v["s"] else x
    if v["k"] == "re":
        return complex(x, 0.0)
    if v["k"] == "im":
        return complex(0.0, x)
    if v["k"] == "both":
        return complex(x, abs(x) * (-1) ** v["t"])
    return 0j


def back(x):
    x = float(x)
    if x == 0:
        return dict(k="zero")
    if math.isnan(x):
        return dict(k="nan")
    if math.isinf(x):
        return dict(k="inf")
    f = Fraction(abs(x))
    bits = bin(f.numerator)[2:]
    e = len(bits) - 1 - (f.denominator.bit_length() - 1)
    return dict(k="num", s=int(x < 0), b=[int(b) for b in bits.rstrip("0")], e=e)


def backc(z):
    z = complex(z)
    a, b = back(z.real), back(z.imag)
    if a["k"] == b["k"] == "zero":
        return dict(k="zero")
    if b["k"] == "zero":
        return dict(k="re", s=a["s"], e=a["e"]) if a.get("b") == [1] else dict(k="?", v=str(z))
    if a["k"] == "zero":
        return dict(k="im", s=b["s"], e=b["e"]) if b.get("b") == [1] else dict(k="?", v=str(z))
    if a.get("b") == b.get("b") == [1] and a["e"] == b["e"]:
        return dict(k="both", s=a["s"], t=b["s"], e=a["e"])
    return dict(k="?", v=str(z))


def lay(shape, dtype, how):
    if how == "C" or not shape:
        return np.zeros(shape, dtype=dtype)
    if how == "F":
        return np.zeros(shape, dtype=dtype, order="F")
    if how == "strided":
        return np.zeros([2 * n for n in shape], dtype=dtype)[tuple(slice(None, None, 2) for _ in shape)]
    if how == "rev":
        return np.zeros(shape, dtype=dtype)[tuple(slice(None, None, -1) for _ in shape)]
    if how == "turned":
        return np.moveaxis(np.zeros(shape[-1:] + shape[:-1], dtype=dtype), 0, -1) if shape else np.zeros(shape, dtype=dtype)


def invert(case):
    shape, dt = tuple(case["shape"]), case["dtype"]
    vals = [cplx(v) if case["cplx"] else real(v) for v in case["data"]]
    if case["lay"] in ("list", "tuple", "number", "npnumber"):
        if dt.startswith(("i", "u")):
            vals = [int(v) for v in vals]
        x = np.array(vals).reshape(shape).tolist() if case["lay"] == "list" else tuple(vals) if case["lay"] == "tuple" else vals[0]
        if case["lay"] == "npnumber":
            x = np.dtype(dt).type(x)
    else:
        x = lay(shape, dt, case["lay"])
        x[...] = np.array(vals).reshape(shape)
    o = case["out"]
    if o == "none":
        out = None
    elif o == "same":
        out = x
    elif o == "shape":
        out = np.zeros(tuple(shape) + (2,), dtype=dt)
    else:
        odt = dt if case["cplx"] or dt.startswith("f") else "f8"
        out = lay(shape, odt, o)
        out[...] = 77
    keep = np.array(x, copy=True)
    try:
        r = invert_no_zero(x, out=out) if o != "none" else invert_no_zero(x)
    except (ValueError, TypeError) as e:
        return dict(ok=False, exc=vpdrv.exc_name(e), msg=str(e)[:100], kept=np.array_equal(np.array(x), keep, equal_nan=not dt.startswith(("i", "u"))))
    res = np.asarray(r)
    return dict(ok=True, shape=list(res.shape), data=[backc(v) if case["cplx"] else back(v) for v in res.ravel()],
                isout=out is None or r is out, dtype=str(res.dtype),
                kept=o == "same" or np.array_equal(np.array(x), keep, equal_nan=not dt.startswith(("i", "u"))))


def unique(case):
    x = case["data"]
    y = dict(list=list, tuple=tuple, iter=iter, array=np.array)[case["kind"]](list(x))
    r = arraytools.unique_ordered(y)
    return dict(ok=True, data=[str(v) for v in r], list=isinstance(r, list), kept=case["kind"] == "iter" or list(y) == x)


vpdrv.loop(lambda c: dict(invert=invert, unique=unique).get(c["op"], adapted)(c))
