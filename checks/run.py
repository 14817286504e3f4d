"""Entry point of every check: python3 checks/run.py <property id>."""
import importlib
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(here), "lib"), here]
sys.dont_write_bytecode = True
import vp  # noqa: E402

WHERE = dict(C20="c20", C21="c20", C01="c01", C02="c01", C03="c01", C11="c11", C12="c11", C13="c11",
             C24="c30", C30="c30", C31="c30", C33="c30")

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module(WHERE.get(pid, pid.lower()))
    sys.exit(vp.main(pid, mod.run))
