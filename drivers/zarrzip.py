"""The zarr zipping tasks with a stand-in for 7z that can fail or be slow."""
import vpdrv
import json
import logging
import os
import shutil
import socket
import stat
import sys
import time
import zipfile

import numpy as np
import zarr
from mpi4py import MPI

from caput import pipeline
from caput.containers import Container
from caput.pipeline import extensions
from caput.pipeline.tasklib import io

logging.disable(logging.CRITICAL)
COMM = MPI.COMM_WORLD

SEVEN = """#!%s -SE
import json, os, sys, time, zipfile
args = sys.argv[1:]
assert args[0] == "a" and args[1] == "-tzip" and args[2] == "-mx=0", args
with open(%r) as f:
    plan = json.load(f)
dest, src = args[3], args[4:]
with open(%r, "a") as f:
    f.write(json.dumps(dict(dest=dest, r=int(os.environ.get("OMPI_COMM_WORLD_RANK", "0")) + 1)) + "\\n")
fate = plan.get(dest, "ok")
if fate == "slow":
    time.sleep(0.25)
if fate == "fail" or len(src) != 1 or not src[0].endswith("/.") or not os.path.isdir(src[0]):
    sys.exit(2)
have = set(zipfile.ZipFile(dest).namelist()) if os.path.exists(dest) else set()
with zipfile.ZipFile(dest, "a") as z:
    for root, dirs, files in os.walk(src[0]):
        for n in files:
            p = os.path.join(root, n)
            z.write(p, os.path.relpath(p, src[0]))
            if fate == "part":
                os._exit(2)
"""


def scratch(case):
    os.chdir(vpdrv.WORK)
    COMM.Barrier()
    d = os.path.join(vpdrv.WORK, "zz")
    b = os.path.join(vpdrv.WORK, "zbin")
    if COMM.rank == 0:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(b, ignore_errors=True)
        os.makedirs(d)
        os.makedirs(b)
        with open(os.path.join(b, "7z"), "w") as f:
            f.write(SEVEN % (sys.executable, os.path.join(b, "plan"), os.path.join(b, "log")))
        os.chmod(os.path.join(b, "7z"), stat.S_IRWXU)
        with open(os.path.join(b, "plan"), "w") as f:
            json.dump(case["plan"], f)
        open(os.path.join(b, "log"), "w").close()
    COMM.Barrier()
    os.chdir(d)
    path = os.environ["PATH"].split(":")
    os.environ["PATH"] = ":".join([b] + [p for p in path if not p.endswith("/zbin")])
    return d, b


def children():
    out = set()
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open("/proc/%s/stat" % p) as f:
                    q = f.read().rsplit(")", 1)[1].split()
            except OSError:
                continue
            if int(q[1]) == os.getpid() and q[0] != "Z":
                out.add(int(p))
    return out


def settle(others):
    while children() - others:
        time.sleep(0.02)


def cont(i, tag):
    c = Container(distributed=True, comm=COMM) if COMM.size > 1 else Container()
    c.create_dataset("d", data=np.arange(4.0) + 10 * i)
    if tag:
        c.attrs["tag"] = tag
    return c


def run(case):
    d, b = scratch(case)
    host, socket.gethostname = socket.gethostname, lambda: "host%d" % case["hosts"][COMM.rank]
    if COMM.rank == 0:
        for k, e in enumerate(case["list"]):
            name = case["names"][k]
            if os.path.dirname(name):
                os.makedirs(os.path.dirname(name), exist_ok=True)
            if case["mode"] == "zip" and e["ok"]:
                g = zarr.open_group(name, "w")
                g["d"] = np.arange(4.0) + 10 * k
            elif case["mode"] == "zip" and e["isfile"]:
                open(name, "w").close()
            if e["old"]:
                with zipfile.ZipFile(name + ".zip", "w") as z:
                    z.writestr(".zgroup", '{"zarr_format": 2}')
                    z.writestr("stale/.zgroup", '{"zarr_format": 2}')
    COMM.Barrier()
    exc = ""
    others = children()
    try:
        m = pipeline.Manager()
        if case["mode"] == "zip":
            t = io.ZipZarrContainers()
            t.read_config(dict(containers=case["names"], remove=case["remove"]) if not case["remove"] else dict(containers=case["names"]))
            m.add_task(t)
        else:
            t, w = io.SaveZarrZip(), io.WaitZarrZip()
            t.read_config(dict(output_name=case["pre"] + "{tag}" + ("_{count}" if case["num"] else "") + ".zarr.zip", remove=case["remove"]))
            ins = [cont(k, e["tag"]) for k, e in enumerate(case["list"])]
            m.add_task(extensions.Input(ins), out="in")
            m.add_task(t, in_="in", out="h")
            m.add_task(w, in_="h")
        m.run()
    except Exception as e:
        exc = vpdrv.exc_name(e) + " " + str(e)[:200]
        settle(others)      # the other jobs go on after an error
    finally:
        socket.gethostname = host
    COMM.Barrier()
    out = dict(exc=exc)
    if COMM.rank == 0:
        disk = []
        for k, n in enumerate(case["names"]):
            z = "none"
            if os.path.exists(n + ".zip"):
                try:
                    with zipfile.ZipFile(n + ".zip") as f:
                        names = f.namelist()
                    g = zarr.open(n + ".zip", "r")
                    same = "d" in g and np.array_equal(g["d"][:], np.arange(4.0) + 10 * k)
                    loaded = np.array_equal(np.asarray(Container.from_file(n + ".zip")["d"]), np.arange(4.0) + 10 * k) if same and case["mode"] == "save" else same
                    z = "full" if same and loaded and len(set(names)) == len(names) and not any("stale" in x for x in names) else \
                        "old" if "stale/.zgroup" in names and not same else "part" if not same else "mixed"
                except Exception as e:
                    z = "part"
            here = os.path.isdir(n)
            if here:
                g = zarr.open(n, "r")
                here = bool(np.array_equal(g["d"][:], np.arange(4.0) + 10 * k)) or "changed"
            disk.append(dict(dir=here, zip=z))
        out["disk"] = disk
        known = {n for n in case["names"]} | {n + ".zip" for n in case["names"]}
        left = []
        for root, dirs, files in os.walk("."):
            for x in list(dirs) + files:
                p = os.path.relpath(os.path.join(root, x), ".")
                if p in known and x in dirs:
                    dirs.remove(x)
                elif p not in known and x in files:
                    left.append(p)
        out["left"] = left
        with open(os.path.join(b, "log")) as f:
            out["log"] = [json.loads(x) for x in f]
    settle(others)
    return out


vpdrv.loop(run, COMM)
