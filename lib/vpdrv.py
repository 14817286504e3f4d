"""Bootstrap and main loop for drivers; imported first by every driver.

Puts the repo under test on sys.path, supplies the compiled extensions a check built
(or inert stand-ins for those it does not need), and runs one function over all cases.
"""
import faulthandler
import importlib.abc
import importlib.machinery
import importlib.util
import json
import os
import sys
import types

REPO = os.environ["VP_REPO"]
WORK = os.environ["VP_WORK"]
_EXT = json.loads(os.environ.get("VP_EXT", "{}"))
_ALL = ["caput.util.truncate", "caput.algorithms.median.weighted",
        "caput.algorithms._invert_no_zero._invert_no_zero", "caput.astro.coordinates._spherical"]


class _Stub(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def missing(*a, **k):
            raise RuntimeError(f"extension {self.__name__} was not built for this check")

        return missing


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name in _EXT:
            ld = importlib.machinery.ExtensionFileLoader(name, _EXT[name])
            return importlib.util.spec_from_file_location(name, _EXT[name], loader=ld)
        if name in _ALL:
            return importlib.machinery.ModuleSpec(name, self)
        return None

    def create_module(self, spec):
        return _Stub(spec.name)

    def exec_module(self, module):
        pass


sys.path.insert(0, REPO)
sys.meta_path.insert(0, _Finder())

import caput  # noqa: E402

assert os.path.dirname(os.path.dirname(caput.__file__)) == os.path.realpath(REPO), caput.__file__


def loop(fn, comm=None, setup=None):
    """Apply fn to each case; one JSON line per case and rank. fn's exceptions are observations
    only if it catches them: an escaping exception is recorded as {"driver_exc": ...}."""
    rank = comm.rank if comm is not None else 0
    size = comm.size if comm is not None else 1
    inp, outp = sys.argv[1], sys.argv[2]
    with open(inp) as f:
        cases = json.load(f)
    to = float(os.environ.get("VP_CASE_TIMEOUT", "60"))
    sync = comm.Dup() if size > 1 else None
    with open(f"{outp}.{rank}", "w") as out:
        out.flush()
        for i, c in enumerate(cases):
            faulthandler.dump_traceback_later(to, exit=True)
            try:
                res = fn(c)
            except Exception as e:  # noqa: BLE001
                import traceback
                res = {"driver_exc": exc_name(e), "msg": str(e)[:300],
                       "tb": traceback.format_exc()[-1500:]}
            if sync is not None:
                sync.Barrier()
            faulthandler.cancel_dump_traceback_later()
            out.write(json.dumps(res) + "\n")
            out.flush()


def exc_name(e):
    return type(e).__name__


def scratch(name):
    p = os.path.join(WORK, name)
    os.makedirs(p, exist_ok=True)
    return p
