"""Builds pipelines from generated documents and reports whether they are accepted and what the tasks got."""
import vpdrv
import json
import types
import sys
import warnings

import yaml

from caput import config, pipeline
from confvals import enc, prop, py

CALLS = []
MOD = types.ModuleType("vp_tasks")
MOD.number = 5
MOD.NotTask = type("NotTask", (), {})


class Duck:
    """Has every method of a task, but is none."""

    broadcast_inputs, limit_outputs, base_priority, breakpoint = False, None, 0, False

    @classmethod
    def _from_config(cls, conf):
        return cls()

    def read_config(self, *a, **k):
        pass

    def setup(self):
        CALLS.append("setup")

    def next(self):
        CALLS.append("next")

    def finish(self):
        CALLS.append("finish")

    def validate(self):
        pass

    def _setup_keys(self, *a, **k):
        pass


MOD.Duck = Duck
MOD.instance = pipeline.Task.__new__(pipeline.Task)
MOD.function = lambda: None
sys.modules["vp_tasks"] = MOD


def method(name, lo, hi):
    args = [f"a{j}" for j in range(lo)] + [f"b{j}=None" for j in range(max(hi, 0) - lo if hi >= 0 else 0)]
    if hi < 0:
        args.append("*rest")
    ns = dict(CALLS=CALLS)
    exec(f"def {name}({', '.join(['self'] + args)}):\n    CALLS.append('{name}')\n", ns)
    return ns[name]


def refuse(self):
    raise config.CaputConfigError("refused") if self.kind == "config" else ValueError("refused")


def build(case):
    classes = [pipeline.Task]
    for i, c in enumerate(case["classes"][1:]):
        d = {x["name"]: prop(x) for x in c["decls"]}
        d["setup"] = method("setup", c["minreq"], c["maxreq"])
        d["next"] = method("next", c["minin"], c["maxin"])
        d["finish"] = lambda self: CALLS.append("finish")
        d["validate"] = refuse if c["refuses"] else lambda self: None
        d["kind"] = c.get("kind", "config")
        bases = tuple(classes[b - 1] for b in c["bases"]) or (pipeline.Task,)
        classes.append(type(f"T{i + 2}", bases, d))
    for i, c in enumerate(classes[1:]):
        setattr(MOD, f"T{i + 2}", c)
    return classes


def keys(f):
    vals = [x["v"] if x["str"] else json.loads(x["raw"]) for x in f["keys"]]
    return None if f["k"] == "null" else vals[0] if f["k"] == "one" else vals


def entry(t, local):
    if not t["ismap"]:
        return t["raw"]
    e = {}
    ty = t["type"]
    if ty["k"] == "task":
        e["type"] = ("T%d" if local else "vp_tasks.T%d") % ty["c"] if ty["c"] > 1 else "caput.pipeline.Task"
    elif ty["k"] != "missing":
        e["type"] = ty["raw"]
    for k in ("in", "out"):
        if t[k]["k"] != "absent":
            e[k] = keys(t[k])
    if t["req"]["k"] != "absent":
        e["requires"] = keys(t["req"])
    p = t["params"]
    if p["k"] == "inline":
        e["params"] = {x["k"]: py(x["v"]) for x in p["inline"]}
    elif p["k"] == "names":
        e["params"] = p["names"][0] if p.get("scalar") and len(p["names"]) == 1 else list(p["names"])
    if t["extra"]:
        e[t.get("extrakey", "output")] = 1
    return e


def document(case):
    D = case["doc"]
    if D["pipe"] == "empty":
        return ""
    pipe = dict(case["settings"])
    pipe["tasks"] = [entry(t, case["local"]) for t in D["tasks"]]
    if D["pipe"] == "settings":
        pipe.update(case["badsettings"])
    doc = {s["name"]: {x["k"]: py(x["v"]) for x in s["cf"]} if s["ismap"] else s["raw"] for s in D["sections"]}
    if D["pipe"] == "notmap":
        doc["pipeline"] = case["notmap"]
    elif D["pipe"] != "missing":
        doc["pipeline"] = pipe
    return yaml.dump(doc, sort_keys=False, default_flow_style=case["flow"])


def show(case, tasks):
    res = []
    for t, e in zip(tasks, case["doc"]["tasks"]):
        row = []
        for nm in case["shownames"][e["type"]["c"] - 1]:
            try:
                v = enc(getattr(t, nm["name"]), nm["utc"])
            except Exception as ex:
                v = dict(t="exc", r=repr(ex)[:200])
            row.append(dict(name=nm["name"], v=v))
        res.append(row)
    return res


def run(case):
    CALLS.clear()
    warnings.simplefilter("ignore")
    classes = build(case)
    if case["local"]:
        for i, c in enumerate(classes[1:]):
            pipeline.local_tasks[f"T{i + 2}"] = c
    try:
        text = document(case)
        try:
            man = pipeline.Manager.from_yaml_str(text, lint=True)
        except Exception as e:
            return dict(ok=False, exc=vpdrv.exc_name(e), msg=str(e)[:300], calls=list(CALLS), shown=[], after=[])
        first = show(case, man.tasks)
        x = case["ext"]
        if 0 < x["i"] <= len(man.tasks) and len(man.tasks) == len(case["doc"]["tasks"]):
            v = getattr(man.tasks[x["i"] - 1], x["name"], None)
            if isinstance(v, list):
                v.append(99)
        return dict(ok=True, exc="", calls=list(CALLS), shown=first, after=show(case, man.tasks))
    finally:
        for i in range(len(classes)):
            pipeline.local_tasks.pop(f"T{i + 2}", None)


vpdrv.loop(run)
