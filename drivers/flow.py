"""Networks of flow tasks run by the real manager."""
import vpdrv
import gc
import io
import sys
import weakref

from caput import pipeline
from caput.pipeline import extensions
from caput.pipeline.tasklib import debug, flow


class Item:
    """Has no truth value and no equality, like an array."""

    def __init__(self, name):
        self.name = name
        self.part = [name]

    def __bool__(self):
        raise ValueError("no truth value")

    def __eq__(self, other):
        raise ValueError("no equality")

    __hash__ = object.__hash__


class Empty(Item):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


KINDS = {"pass": flow.PassOn, "wait": flow.WaitUntil, "copy": flow.MakeCopy, "gather": flow.GatherInputs, "accum": flow.AccumulateList,
         "delete": flow.Delete, "print": debug.Print}


def run(case):
    made, refs, when, tasks = {}, {}, [], []
    keep = case["keep"]

    def items(names):
        for n in names:
            x = (Empty if n % 3 == 0 else Item)(n)
            refs[n] = weakref.ref(x)
            if keep:
                made[n] = x
            when.append(["made", n])
            yield x
            del x

    def enc(v):
        if isinstance(v, list):
            return dict(t="list", l=[enc(x) for x in v])
        if isinstance(v, Item):
            first = refs[v.name]() is v
            ok = v.part == [v.name] and (first or not keep or v.part is not made[v.name].part)
            return dict(t="item", id=v.name, orig=first) if ok else dict(t="shared")
        return dict(t="odd", r=repr(v)[:80])

    m = pipeline.Manager()
    for i, t in enumerate(case["tasks"]):
        k = t["kind"]
        if k == "source":
            src = items(t["items"])
            task = extensions.Input(list(src) if case["lists"] else src)
        elif k == "collect":
            n = i
            task = extensions.Output(lambda x, n=n: (when.append(["got", n]), enc(x))[1]) if case["callback"] else extensions.Output()
        else:
            task = KINDS[k]()
            cf = {}
            if t["group"]:
                cf["group_size"] = t["group"]
            if t.get("base"):
                cf["base_priority"] = t["base"]
            task.read_config(cf)
        kw = {}
        if t["in"]:
            kw["in_"] = t["in"][0] if len(t["in"]) == 1 else t["in"]
        if t["out"]:
            kw["out"] = t["out"][0] if len(t["out"]) == 1 else t["out"]
        if t["req"]:
            kw["requires"] = t["req"]
        m.add_task(task, **kw)
        tasks.append(task)
    exc, sys.stdout, real = "", io.StringIO(), sys.stdout
    try:
        m.run()
    except Exception as e:
        exc = vpdrv.exc_name(e) + " " + str(e)[:200]
    finally:
        sys.stdout = real
    got = []
    for t, x in zip(case["tasks"], tasks):
        got.append([v if case["callback"] else enc(v) for v in x.outputs] if t["kind"] == "collect" else [])
    gc.collect()
    alive = [] if keep else sorted(n for n, r in refs.items() if r() is not None)
    return dict(exc=exc, got=got, alive=alive, when=when)


vpdrv.loop(run)
