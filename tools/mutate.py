"""Try small changes of the code against the checks.

usage: mutate.py FILE [ID ...] [-j N]     FILE defines M = [(id, property, file, old, new), ...] (or a list of (file, old, new) as third element)
Each change is made in a scratch copy of /repo and the property's check is run against it.
"""
import os, re, shutil, subprocess, sys, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
j = 3
if "-j" in args:
    k = args.index("-j"); j = int(args[k + 1]); del args[k:k + 2]
ns = {}
exec(open(args[0]).read(), ns)
pick = set(args[1:])


def one(m):
    mid, pid = m[0], m[1]
    edits = m[2] if isinstance(m[2], list) else [(m[2], m[3], m[4])]
    cp = f"/tmp/mu-{mid}"
    shutil.rmtree(cp, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "--shared", os.environ.get("CAPUT_REPO", "/repo"), cp], check=True)
    try:
        for f, o, n in edits:
            p = os.path.join(cp, f)
            s = open(p).read()
            if s.count(o) != 1:
                return f"{mid:22s} {pid} EDIT FAILS ({s.count(o)} matches)"
            open(p, "w").write(s.replace(o, n))
        r = subprocess.run([sys.executable, os.path.join(VERIF, "checks", "run.py"), pid], env=dict(os.environ, CAPUT_REPO=cp), cwd=VERIF,
                           text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        cl = sorted(set(re.findall(r"clause: ([^|]*)\|", r.stdout)))
        tail = r.stdout.strip().split("\n")[-1][:160] if r.returncode not in (0, 1) else ""
        return f"{mid:22s} {pid} {'caught' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'BROKEN ' + str(r.returncode)} {cl[:4]} {tail}"
    finally:
        shutil.rmtree(cp, ignore_errors=True)


ms = [m for m in ns["M"] if not pick or m[0] in pick or m[1] in pick]
with cf.ThreadPoolExecutor(j) as ex:
    for r in ex.map(one, ms):
        print(r, flush=True)
