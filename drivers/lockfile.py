"""Runs lock_file blocks in a scratch directory, recording the directory before every file-system
call (audit events), optionally failing in the block or dying at the k-th event."""
import json
import os
import shutil
import sys

import h5py
import vpdrv
import zarr
from caput import memdata
from caput.memdata import MemDiskGroup, MemGroup, fileformats, lock_file

import numpy as np

EVENTS = {"open", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "shutil.rmtree", "os.truncate",
          "shutil.move", "shutil.copyfile", "os.link", "os.symlink", "os.chmod"}
CUR = None
N = 3


class Planned(Exception):
    pass


class FakeComm:
    def __init__(self, rank):
        self.rank, self.size = rank, rank + 2


def content(path):
    """none, old, new, or the number of pieces, of a file or directory store."""
    if not os.path.lexists(path):
        return "none"
    if os.path.isdir(path):
        n = sorted(f for f in os.listdir(path))
        if "old" in n:
            return "old" if n == ["old"] else "mixed"
        return "new" if n == [f"p{i}" for i in range(N)] and all(os.path.getsize(os.path.join(path, x)) == 4 for x in n) \
            else "partial"
    with open(path, "rb") as f:
        b = f.read()
    if b == b"old":
        return "old"
    if CUR["kind"] == "h5":
        try:
            with h5py.File(path, "r") as f:
                return "new" if list(f["d"][:]) == [1, 2, 3] and f.attrs["a"] == "x" else "partial"
        except Exception:
            return "partial"
    return "new" if b == b"piece" * N else "partial"


def snap(force=False):
    c = CUR
    if c is None or c["busy"]:
        return
    c["busy"] = True
    try:
        # h5py keeps the file open while it writes: do not look inside the temporary
        s = dict(final=content(c["final"]), tmp=os.path.lexists(c["tmp"]), lock=os.path.lexists(c["lock"]),
                 phase=c["phase"], raised=c["raised"])
    finally:
        c["busy"] = False
    if not c["snaps"] or c["snaps"][-1] != s:
        c["snaps"].append(s)
    c["n"] += 1
    if c["kill"] and c["n"] == c["kill"]:
        with open(c["rec"], "w") as f:
            c["busy"] = True
            json.dump(dict(snaps=c["snaps"], killed=True), f)
        os._exit(9)


def hook(ev, args):
    if CUR is None or CUR["busy"] or ev not in EVENTS:
        return
    try:
        p = os.fspath(args[0]) if not isinstance(args[0], int) else ""
        if isinstance(p, bytes):
            p = p.decode()
    except TypeError:
        return
    if p and os.path.abspath(p).startswith(CUR["dir"]):
        snap()


sys.addaudithook(hook)


def put_old(path, kind):
    if kind == "dir":
        os.mkdir(path)
        open(os.path.join(path, "old"), "w").close()
    else:
        with open(path, "wb") as f:
            f.write(b"old")


def write_piece(case, tmp, i):
    if case["kind"] == "file":
        with open(tmp, "ab" if i else "wb") as f:
            f.write(b"piece")
    elif case["kind"] == "dir":
        if i == 0:
            shutil.rmtree(tmp, ignore_errors=True)
            os.mkdir(tmp)
        with open(os.path.join(tmp, f"p{i}"), "wb") as f:
            f.write(b"1234")
    elif i == 0:
        g = MemDiskGroup()
        g.create_dataset("d", data=np.array([1, 2, 3]))
        g.attrs["a"] = "x"
        CUR["obj"] = g
    elif i == 1:
        CUR["obj"].save(tmp)


def child(case, rec):
    global CUR
    d = os.path.dirname(rec) + "/d"
    os.mkdir(d)
    name = case["name"]
    final = os.path.join(d, name)
    CUR = dict(dir=d, final=final, tmp=os.path.join(d, "." + name), lock=os.path.join(d, "." + name + ".lock"),
               phase="before", raised=False, snaps=[], n=0, kill=0, busy=True, kind=case["kind"], rec=rec)
    if case["old"]:
        put_old(final, case["oldkind"])
    if case["staletmp"]:
        put_old(CUR["tmp"], "dir" if case["kind"] == "dir" else "file")
    if case["stalelock"]:
        open(CUR["lock"], "w").close()
    CUR["busy"] = False
    CUR["kill"] = case["kill"]
    comm = None if case["rank"] < 0 else FakeComm(case["rank"])
    exc = "none"
    snap()
    target = final
    if case["relative"]:
        os.chdir(d)
        target = name
    try:
        cm = lock_file(target, preserve=case["preserve"], comm=comm)
        with cm as fn:
            CUR["busy"] = True
            CUR["tmp"] = os.path.abspath(fn)
            CUR["busy"] = False
            CUR["phase"] = "in"
            snap()
            for i in range(N):
                if case["fail"] == i:
                    CUR["raised"] = True
                    raise Planned() if case["how"] % 3 else KeyboardInterrupt()
                if case["rank"] <= 0:
                    write_piece(case, fn, i)
                snap()
            if case["fail"] == N:
                CUR["raised"] = True
                raise Planned()
            hadtmp = os.path.lexists(fn)
            CUR["phase"] = "leaving"
    except (Planned, KeyboardInterrupt) as e:
        exc = "planned"
    except BaseException as e:
        exc = vpdrv.exc_name(e)
    CUR["phase"] = "after"
    CUR["kill"] = 0
    snap()
    CUR["busy"] = True
    end = dict(final=content(final), tmp=os.path.lexists(CUR["tmp"]), lock=os.path.lexists(CUR["lock"]))
    extra = sorted(x for x in os.listdir(d) if os.path.join(d, x) not in (final, CUR["tmp"], CUR["lock"]))
    with open(rec, "w") as f:
        json.dump(dict(snaps=CUR["snaps"], killed=False, end=end, exc=exc, extra=extra, events=CUR["n"]), f)


def run(case):
    w = os.path.join(vpdrv.WORK, "c")
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    rec = os.path.join(w, "rec.json")
    pid = os.fork()
    if pid == 0:
        code = 7
        try:
            child(case, rec)
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    if not os.path.exists(rec):
        return dict(driver_exc="child", msg=str(st))
    with open(rec) as f:
        r = json.load(f)
    if r["killed"]:
        # what a reader finds after the crash
        global CUR
        CUR = dict(busy=True, kind=case["kind"])
        r["after"] = content(os.path.join(w, "d", case["name"]))
        CUR = None
    shutil.rmtree(w)
    return r


vpdrv.loop(run)
