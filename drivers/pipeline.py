"""Runs scripted pipelines in the real Manager and records every setup/next/finish call."""
import sys
import types

import vpdrv
import numpy as np
import yaml

from caput import config, pipeline
from caput.pipeline import exceptions

try:
    from mpi4py import MPI
    COMM = MPI.COMM_WORLD
except ImportError:
    COMM = None

CUR = None  # the case being run


class Falsy:
    def __bool__(self):
        return False


class Sized:
    def __len__(self):
        return 0


class Loud:
    """Compares equal to everything: only identity tells products apart."""

    def __eq__(self, other):
        return True

    __hash__ = None


class Items(list):
    pass


def make(kind):
    return dict(obj=object, falsy=Falsy, sized=Sized, loud=Loud, items=lambda: Items([1, 2, 3]),
                str=lambda: "".join(["p", str(len(CUR["tokens"]))]),
                arr=lambda: np.arange(3.0), dict=dict)[kind]()


def new_product(token, kind):
    p = make(kind)
    CUR["keep"].append(p)
    CUR["tokens"][id(p)] = token
    return p


def tok(x):
    return "None" if x is None else CUR["tokens"].get(id(x), "?")


class Scripted(pipeline.Task):
    idx = config.Property(proptype=int)

    def _result(self, stage, n, ret):
        t = CUR["prog"]["tasks"][self.idx - 1]
        kinds = CUR["kinds"]
        k = lambda j: kinds[(self.idx * 7 + n * 3 + j) % len(kinds)]
        if ret == "none":
            return None
        if ret == "stop":
            raise exceptions.PipelineStopIteration()
        no = len(t["out"])
        if t["same"]:
            if not hasattr(self, "_one"):
                self._one = new_product(f"{self.idx}.same.0.0", k(0))
            prods = [self._one] * no
        else:
            prods = [new_product(f"{self.idx}.{stage}.{n}.{j + 1}", k(j)) for j in range(no)]
        if no == 0:
            return new_product(f"{self.idx}.{stage}.{n}.0", "obj")
        if no == 1 and not t["aslist"]:
            return prods[0]
        if ret == "bad" and no > 1:
            prods = prods[:-1] if n % 2 else prods + [object()]
        if no > 1 and ret in ("holes", "nones"):
            prods = [None if ret == "nones" or (n + j + 1) % 2 == 0 else p for j, p in enumerate(prods)]
        return tuple(prods) if n % 2 else list(prods)

    def _log(self, stage, args):
        CUR["events"].append(dict(t=self.idx, stage=stage, args=[tok(a) for a in args]))
        if len(CUR["events"]) > CUR["max"]:
            raise Runaway()

    def setup(self, *req):
        self._log("setup", req)
        return self._result("setup", 1, CUR["prog"]["tasks"][self.idx - 1]["setup"])

    def next(self, *inp):
        self._log("next", inp)
        t = CUR["prog"]["tasks"][self.idx - 1]
        self._n = getattr(self, "_n", 0) + 1
        ret = t["next"][self._n - 1] if self._n <= len(t["next"]) else t["after"]
        return self._result("next", self._n, ret)

    def finish(self):
        self._log("finish", ())
        return self._result("finish", 1, CUR["prog"]["tasks"][self.idx - 1]["finish"])


class Runaway(Exception):
    pass


mod = types.ModuleType("vptasks")
mod.Scripted = Scripted
sys.modules["vptasks"] = mod


def spec_of(t, form):
    d = {}
    for name, key in (("in", "in"), ("req", "requires")):
        ks = t[name]
        if ks or form % 2:
            d[key] = ks[0] if len(ks) == 1 and form % 3 else list(ks)
    ks = t["out"]
    if ks:
        d["out"] = ks[0] if len(ks) == 1 and not t["aslist"] else list(ks)
    return d


def params_of(i, t):
    p = dict(idx=i)
    if t["base"]:
        p["base_priority"] = t["base"]
    if t["limit"] >= 0:
        p["limit_outputs"] = t["limit"]
    return p


def build(case):
    prog = case["prog"]
    head = {}
    if case.get("pattern"):
        head["key_pattern"] = case["pattern"]
    if case["mode"] == "api":
        m = pipeline.Manager.from_yaml_str(yaml.dump({"pipeline": {"tasks": [], **head}}))
        for i, t in enumerate(prog["tasks"], 1):
            task = Scripted._from_config(params_of(i, t))
            s = spec_of(t, case["form"])
            if case["form"] % 2:
                m.add_task(task, s)
            else:
                m.add_task(task, in_=s.get("in"), out=s.get("out"), requires=s.get("requires"))
        return m
    doc = {"pipeline": {"tasks": [], "logging": {"root": "ERROR"}, "save_config": False, **head}}
    for i, t in enumerate(prog["tasks"], 1):
        e = {"type": "vptasks.Scripted", **spec_of(t, case["form"])}
        if case["form"] % 2:
            e["params"] = params_of(i, t)
        else:
            doc[f"p{i}"] = params_of(i, t)
            e["params"] = f"p{i}"
        doc["pipeline"]["tasks"].append(e)
    return pipeline.Manager.from_yaml_str(yaml.dump(doc))


def run(case):
    global CUR
    CUR = dict(prog=case["prog"], kinds=case["kinds"], events=[], tokens={}, keep=[], max=case.get("max", 400))
    end = "ok"
    try:
        m = build(case)
    except Exception as e:
        return dict(events=[], end="build:" + vpdrv.exc_name(e), msg=str(e)[:200])
    msg = ""
    try:
        if case.get("interactive"):
            m.interactive = True
            r = m.runner()
            while True:
                try:
                    next(r)
                except StopIteration:
                    break
        else:
            m.run()
    except Exception as e:
        end, msg = vpdrv.exc_name(e), str(e)[:200]
    return dict(events=CUR["events"], end=end, msg=msg)


vpdrv.loop(run, COMM)
