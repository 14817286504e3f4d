"""Values and declarations of configuration properties, to and from the real ones."""
import math
from datetime import datetime

from caput import config
from caput.memdata import fileformats
from caput.pipeline.extensions import file_format

from caput.pipeline.tasklib.base import LoggedTask

LEVEL = LoggedTask.__dict__["log_level"].proptype

FMT = dict(hdf5=fileformats.HDF5, zarr=fileformats.Zarr)
TYPES = dict(int=int, str=str, float=float)


def py(v):
    """The Python value of a specified value."""
    t = v["t"]
    if t in ("int", "unix"):
        return v["n"]
    if t == "float":
        return v["h"] / 2
    if t == "nan":
        return float("nan")
    if t == "bool":
        return v["b"]
    if t == "str":
        return v["s"]
    if t == "list":
        return [py(x) for x in v["l"]]
    if t == "map":
        return {x["k"]: py(x["v"]) for x in v["m"]}
    if t == "fmt":
        return FMT[v["s"]]
    if t == "time":
        if v.get("form") == "dt":
            return datetime(v["y"], v["mo"], v["d"], v["hh"], v["mi"], v["ss"])
        return "%04d%02d%02dT%02d%02d%02d" % (v["y"], v["mo"], v["d"], v["hh"], v["mi"], v["ss"])
    return None


def enc(x, utc=False):
    if utc and x is not None:
        return dict(t="unix", n=int(x)) if float(x) == int(x) else dict(t="odd", r=repr(x))
    if x is None:
        return dict(t="none")
    if isinstance(x, bool):
        return dict(t="bool", b=x)
    if isinstance(x, int):
        return dict(t="int", n=x)
    if isinstance(x, float):
        return dict(t="nan") if math.isnan(x) else dict(t="float", h=int(2 * x)) if 2 * x == int(2 * x) else dict(t="odd", r=repr(x))
    if isinstance(x, str):
        return dict(t="str", s=x)
    if isinstance(x, list | tuple):
        return dict(t="list", l=[enc(y) for y in x])
    if isinstance(x, dict):
        return dict(t="map", m=[dict(k=k, v=enc(y)) for k, y in x.items()])
    for k, f in FMT.items():
        if x is f:
            return dict(t="fmt", s=k)
    return dict(t="odd", r=repr(x))


def prop(d):
    pt, kw = d["pt"], {}
    p = pt["p"]
    if d["def"]["t"] != "none" or d.get("expl"):
        kw["default"] = py(d["def"])
    if p == "enum":
        q = config.enum([py(x) for x in pt["opts"]], **kw)
    elif p == "listtype":
        if pt["elt"]:
            kw["type_"] = TYPES[pt["elt"]]
        if pt["len"] >= 0:
            kw["length"] = pt["len"]
        if pt["max"] >= 0:
            kw["maxlength"] = pt["max"]
        q = config.list_type(**kw)
    elif p == "range":
        q = config.float_in_range(pt["lo"] / 2, pt["hi"] / 2, **kw)
    elif p == "log":
        q = config.logging_config(**kw)
    elif p == "fmt":
        q = file_format(**kw)
    elif p == "utc":
        q = config.utc_time(**kw)
    else:
        types = dict(int=int, float=float, str=str, bool=bool, list=list, dict=dict, level=LEVEL)
        if p != "any":
            kw["proptype"] = types[p]
        if d.get("key"):
            kw["key"] = d["key"]
        if d.get("dep"):
            kw["deprecated"] = True
        q = config.Property(**kw)
    return q
