"""Histories of configuration properties on real classes."""
import vpdrv
import warnings

import yaml

from caput import config
from confvals import enc, prop, py


def run(case):
    if case.get("declare"):
        try:
            q = prop(case)
            cls = type("X", (config.Reader,), dict(a=q))
            return dict(ok=True, v=enc(cls().a))
        except (ValueError, config.CaputConfigError):
            return dict(ok=False, v=dict(t="none"))
    classes = []
    for i, c in enumerate(case["classes"]):
        bases = tuple(classes[b - 1] for b in c["bases"]) or (config.Reader,)
        classes.append(type(f"K{i}", bases, {d["name"]: prop(d) for d in c["decls"]}))
    insts, out, maps = [], [], []

    def show():
        res = []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for x in insts:
                if x is None:
                    res.append([])
                    continue
                row = []
                for nm in case["shownames"][x[1] - 1]:
                    try:
                        v = enc(getattr(x[0], nm["name"]), nm["utc"])
                    except Exception as e:
                        v = dict(t="exc", r=repr(e)[:200])
                    row.append(dict(name=nm["name"], v=v))
                res.append(row)
        return res

    for o in case["ops"]:
        k = o["op"]
        r = dict(ok=True, exc="", arg=True)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                if k == "new":
                    insts.append((classes[o["c"] - 1](), o["c"]))
                elif k in ("make", "read"):
                    same = [m[0] for m in maps if m[2] == o["cf"]]
                    if same and o["again"]:
                        cf = same[-1]      # the very mapping an earlier instance was read from
                    else:
                        cf = {int(x["k"][1:]) if x["k"][:1] == "#" else x["k"]: py(x["v"]) for x in o["cf"]}
                        if o["line"]:
                            y = yaml.load("{}", Loader=config.SafeLineLoader)
                            y.update(cf)
                            cf = y
                        maps.append((cf, repr(dict(cf)), o["cf"]))
                    kw = {}
                    if o["strict"]:
                        kw["compare_keys"] = list(o["allow"]) if o["allow"] else True
                    elif o["line"]:
                        kw["compare_keys"] = False
                    if not o["defaults"]:
                        kw["use_defaults"] = False
                    try:
                        if k == "make":
                            insts.append(None)
                            insts[-1] = (classes[o["c"] - 1].from_config(cf), o["c"])
                        else:
                            insts[o["i"] - 1][0].read_config(cf, **kw)
                    except Exception:
                        insts[(len(insts) if k == "make" else o["i"]) - 1] = None
                        raise
                elif k == "set":
                    setattr(insts[o["i"] - 1][0], o["name"], py(o["v"]))
                elif k == "get":
                    getattr(insts[o["i"] - 1][0], o["name"])
                elif k == "extend":
                    v = getattr(insts[o["i"] - 1][0], o["name"])
                    if isinstance(v, list):
                        v.append(99)
            except Exception as e:
                r.update(ok=False, exc=vpdrv.exc_name(e), msg=str(e)[:200])
        r["warn"] = any(issubclass(w.category, FutureWarning) for w in ws)
        r["arg"] = all(repr(dict(m[0])) == m[1] for m in maps)
        r["shown"] = show()
        out.append(r)
    return out


vpdrv.loop(run)
