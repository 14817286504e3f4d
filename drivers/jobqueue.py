"""Histories of queued jobs, with stand-ins for the scheduler, the run command and the module system."""
import vpdrv
import contextlib
import io
import itertools
import json
import os
import shutil
import stat
import subprocess
import sys
import tomllib
import types
import importlib

import toml
import yaml
from click.testing import CliRunner

from caput import config
from caput.pipeline import Task, runner
from caput.pipeline.exceptions import PipelineStopIteration

VPROOT = os.path.realpath(vpdrv.WORK)
BIN = os.path.join(VPROOT, "bin")
os.makedirs(BIN, exist_ok=True)
with open(os.path.join(vpdrv.REPO, "pyproject.toml"), "rb") as f:
    _m, _f = tomllib.load(f)["project"]["scripts"]["caput-pipeline"].split(":")
CLI = getattr(importlib.import_module(_m), _f)

SEEN = []
mod = types.ModuleType("vpjobtasks")


class Note(Task):
    value = config.Property(proptype=str, default="")

    def setup(self):
        SEEN.append(self.value)

    def next(self):
        raise PipelineStopIteration


Note.__module__ = "vpjobtasks"
mod.Note = Note
sys.modules["vpjobtasks"] = mod


def exe(name, text):
    p = os.path.join(BIN, name)
    with open(p, "w") as f:
        f.write(text)
    os.chmod(p, 0o755)


for n in ("sbatch", "qsub", "vpsub"):
    exe(n, "#!/bin/bash\n{ echo SUB; basename \"$0\"; pwd -P; for a in \"$@\"; do printf '%s\\n' \"$a\"; done; echo END; } >> \"$VPREC\"\n")
for n in ("srun", "mpirun", "aprun", "vprun"):
    exe(n, "#!/bin/bash\n{ echo RUN; pwd -P; echo \"omp=$OMP_NUM_THREADS\"; echo \"venv=$VPVENV\"; echo \"status=$(cat job/STATUS 2>/dev/null | tr '\\n' ' ')\"; "
           "basename \"$0\"; for a in \"$@\"; do printf '%s\\n' \"$a\"; done; echo END; } >> \"$VPREC\"\necho \"output of the run\"\nexit $VPRC\n")
with open(os.path.join(VPROOT, "bashenv"), "w") as f:
    f.write("module() { echo \"MOD $*\" >> \"$VPREC\"; }\nexport -f module\n")


def pieces(ps, lit=lambda s: s):
    return "".join(lit(p["lit"]) if not p["key"] else "{" + p["key"] + "}" for p in ps)


def system(name, s):
    rows = ["#VP " + pieces(r) for r in s["header"]]
    script = "\n".join(["#!/bin/bash", *rows, "set -e", "function setCrashed {{", " echo CRASHED > {statuspath:s}", "}}", "trap setCrashed ERR",
                        "echo RUNNING > {statuspath:s}" if s["announces"] else "", "{modules:s}", "source {venv:s}", "cd {workdir:s}", "export OMP_NUM_THREADS={ompnum}",
                        "{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} {configpath:s} &> {logpath:s}",
                        "echo FINISHED > {statuspath:s}", "if [ {usetemp:d} -eq 1 ]; then mkdir -p $(dirname \"{finaldir:s}\"); mv \"{workdir:s}\" \"{finaldir:s}\"; fi", ""])
    t = dict(command=s["command"], script=script, required=s["required"])
    if s["invoke"]:
        t["invoke"] = s["invoke"]
    if s["iargs"]:
        t["invoke_args"] = " ".join(pieces(r) for r in s["iargs"])
    if s["mailtypes"]:
        t["mail"] = dict(types=s["mailtypes"], options=" ".join(pieces(r) for r in s["mail"]))
    return {name: t}


class World:
    def __init__(self, case, root):
        self.case, self.root, self.n = case, root, 0
        self.rec = os.path.join(root, "rec")
        os.makedirs(os.path.join(root, "src"))
        for v in ("va", "vb"):
            os.makedirs(os.path.join(root, v, "bin"))
            with open(os.path.join(root, v, "bin", "activate"), "w") as f:
                f.write(f"export VPVENV={v}\n")
            sp = os.path.join(root, v, "lib", f"python{sys.version_info[0]}.{sys.version_info[1]}", "site-packages")
            os.makedirs(sp)
            with open(os.path.join(sp, "vpvenvtask.py"), "w") as f:
                f.write("from vpjobtasks import Note as N\nclass Note(N):\n    pass\n")

    def place(self, d, form):
        return {"abs": os.path.join(self.root, d), "rel": d, "var": "$VPHERE/" + d, "home": "~/" + d}[form]

    def conf(self, q, value):
        cl = {k: v for k, v in q["cl"].items() if k not in ("iargs", "invoke")}
        if "iargs" in q["cl"]:
            cl["invoke_args"] = " ".join(pieces(r) for r in q["cl"]["iargs"])
        if "invoke" in q["cl"]:
            cl["invoke"] = " ".join(q["cl"]["invoke"])
        if q["timeint"] and "time" in cl:
            cl["time"] = int(cl["time"])
        if q["wrong"]:
            k = q["wrongkey"]
            cl[k] = "two" if isinstance(cl[k], int) else 17
        if not q["nodir"]:
            cl["directory"] = self.place(q["dir"], q["form"])
        if q["temp"]:
            cl["temp_directory"] = self.place(q["temp"], q["form"])
        if q["modpath"]:
            cl["module_path"] = q["modpath"][0] if q["modstr"] and len(q["modpath"]) == 1 else q["modpath"]
        if q["modlist"]:
            cl["module_list"] = q["modlist"][0] if q["modstr"] and len(q["modlist"]) == 1 else q["modlist"]
        if q["venv"]:
            cl["venv"] = os.path.join(self.root, q["venv"])
        task = dict(type="vpvenvtask.Note" if q["venvtask"] else "vpjobtasks.Note", params=dict(value=value))
        if q["badpipe"]:
            if q["cfg"] % 2:
                task["type"] = "vpjobtasks.Nothing"
            else:
                task["params"] = dict(valeu=value)
        c = dict(pipeline=dict(tasks=[task]))
        if not q["nocluster"]:
            c["cluster"] = cl
        return c

    def file(self, text):
        self.n += 1
        p = os.path.join(self.root, "src", f"c{self.n}.yaml")
        with open(p, "w") as f:
            f.write(text)
        return p

    def call(self, fn):
        """Call the code under test; a click command or an exception tell how it went."""
        path, prefix, real = list(sys.path), sys.prefix, getattr(sys, "real_prefix", None)
        try:
            r = fn()
            if hasattr(r, "exit_code"):
                return "error" if r.exit_code else "ok"
            return "ok"
        except (Exception, SystemExit):
            return "error"
        finally:
            sys.path[:], sys.prefix = path, prefix
            if real is None and hasattr(sys, "real_prefix"):
                del sys.real_prefix
            sys.modules.pop("vpvenvtask", None)
            importlib.invalidate_caches()

    def cli(self, *args):
        return CliRunner().invoke(CLI, [str(a) for a in args])

    def queue(self, cfg, q, defaults=False):
        if q["via"] == "cli":
            a = ["queue", "--submit" if q["submit"] else "--nosubmit", "--lint" if q["lint"] else "--nolint", "--overwrite", q["overwrite"]]
            a += ["--profile"] if q["profile"] else []
            a += ["--profiler", q["profiler"]] if q["profiler"] != "cProfile" else []
            a += ["--psutil"] if q["psutil"] else []
            a += ["--email", q["email"]] if q["email"] else []
            a += ["--mailtype", q["mailtype"]] if q["mailtype"] else []
            return self.call(lambda: self.cli(*a, cfg))
        kw = dict(submit=q["submit"], lint=q["lint"], profile=q["profile"], psutil=q["psutil"], overwrite=q["overwrite"], email=q["email"] or None, mailtype=q["mailtype"] or None)
        if q["profiler"] != "cProfile":
            kw["profiler"] = q["profiler"]
        return self.call(lambda: runner.queue(cfg, **kw))

    def template(self, q):
        names = ["alpha", "b"][: len(q["vars"])]
        vals = [[q["dirs"][i - 1] for i in q["vars"][0]]] + [[f"n{i}" for i in v] for v in q["vars"][1:]]
        qq = dict(q, dir="@@0@@")
        last = len(names) - 1
        if "name" in qq["cl"]:
            qq["cl"] = dict(qq["cl"], name="@@1@@" if last == 1 else "@@9@@")
        text = yaml.safe_dump(self.conf(qq, "@@0@@-@@1@@" if last == 1 else "@@0@@"))
        text = text.replace("{", "{{").replace("}", "}}").replace("@@0@@", "{alpha}").replace("@@1@@", "{b}").replace("@@9@@", "{nn}")
        var = [f"{n}={','.join(v)}" for n, v in zip(names, vals)]
        if "{nn}" in text:
            # the job's name follows from the one variable, by its number
            text = text.replace("{nn}", "n{alpha[1]}")
        f = self.file(text)
        if q["via"] == "cli":
            a = ["template-run", "--submit", "--overwrite", q["overwrite"]]
            a += ["--email", q["email"]] if q["email"] else []
            a += ["--mailtype", q["mailtype"]] if q["mailtype"] else []
            for v in var:
                a += ["--var", v]
            return self.call(lambda: self.cli(*a, f))
        return self.call(lambda: runner.template_queue(f, var, q["overwrite"], q["email"] or None, q["mailtype"] or None))

    def ident(self, value):
        """The number of a configuration from the value its task is given."""
        return self.case["ids"].get(value, -1)

    def job(self, d):
        j = os.path.join(self.root, d, "job")
        if not os.path.isdir(j):
            return dict(cfg=0, header=[], status=[], stray=os.path.exists(os.path.join(self.root, d)))
        if not {"config.yaml", "jobscript.sh"} <= set(os.listdir(j)):
            return dict(partial=sorted(os.listdir(j)))
        with open(os.path.join(j, "config.yaml")) as f:
            c = yaml.safe_load(f)
        t = c["pipeline"]["tasks"][0]["params"]
        with open(os.path.join(j, "jobscript.sh")) as f:
            lines = f.read().splitlines()
        head = sorted(x.split("#", 2)[1].split(" ", 1)[1].strip() for x in lines if x.startswith(("#SBATCH ", "#PBS ", "#VP ")))
        st = []
        if os.path.exists(os.path.join(j, "STATUS")):
            with open(os.path.join(j, "STATUS")) as f:
                st = f.read().split()
        return dict(cfg=self.ident(str(t.get("value", t.get("valeu")))), header=head, status=st, stray=bool(set(os.listdir(j)) - {"config.yaml", "jobscript.sh", "STATUS", "jobout.log"}))

    def records(self):
        if not os.path.exists(self.rec):
            return []
        with open(self.rec) as f:
            lines = f.read().splitlines()
        os.remove(self.rec)
        out, cur = [], None
        for x in lines:
            if x in ("SUB", "RUN") and cur is None:
                cur = [x]
            elif x == "END":
                out.append(cur)
                cur = None
            elif x.startswith("MOD ") and cur is None:
                out.append(["MOD", x[4:]])
            else:
                cur.append(x)
        return out

    def runjob(self, d, ok):
        j = os.path.join(self.root, d, "job")
        env = dict(os.environ, BASH_ENV=os.path.join(VPROOT, "bashenv"), VPRC="0" if ok else "3", VPVENV="")
        env.pop("OMP_NUM_THREADS", None)
        with open(os.path.join(j, "jobscript.sh")) as f:
            for x in f:
                if x.startswith("#SBATCH --cpus-per-task="):
                    env["SLURM_CPUS_PER_TASK"] = x.split("=")[1].split()[0]
        log = os.path.join(j, "jobout.log")
        if os.path.exists(log):
            os.remove(log)
        r = subprocess.run(["bash", "jobscript.sh"], cwd=j, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30)
        return r.returncode

    def step(self, o, plan):
        out = "none"
        seen = None
        if o["op"] == "queue":
            q = o["q"]
            cfg = self.file(yaml.safe_dump(self.conf(q, "c%d" % q["cfg"])))
            out = self.queue(cfg, q)
        elif o["op"] == "template":
            out = self.template(o["q"])
        elif o["op"] == "requeue" and plan["out"] != "none":
            q = dict(via=o["via"], submit=o["submit"], lint=False, profile=False, psutil=False, profiler="cProfile", overwrite=o["overwrite"], email="", mailtype="")
            out = self.queue(os.path.join(self.root, o["dir"], "job", "config.yaml"), q)
        elif o["op"] == "status" and plan["out"] != "none":
            p = os.path.join(self.root, o["dir"], "job", "STATUS")
            if o["words"] or o["empty"]:
                with open(p, "w") as f:
                    f.write(" ".join(o["words"]) + "\n" * o["nl"])
            elif os.path.exists(p):
                os.remove(p)
            out = "set"
        elif o["op"] == "run" and plan["out"] != "none":
            rc = self.runjob(o["dir"], o["ok"])
            out = "ran"
            seen = dict(rc=rc == 0, launch=[], mods=[], venv="", omp="", status=[], here=False)
        recs = self.records()
        subs = []
        for r in recs:
            if r[0] == "SUB":
                subs.append(dict(dir=next((d for d in self.case["dirs"] if r[2] == os.path.join(self.root, d, "job")), r[2]), command=r[1], args=r[3:]))
            elif r[0] == "MOD" and seen:
                seen["mods"].append(r[1])
            elif r[0] == "RUN" and seen:
                seen.update(here=r[1] == os.path.join(self.root, o["dir"]), omp=r[2][4:], venv=r[3][5:], status=r[4][7:].split(),
                            launch=[("CONFIG" if x == os.path.join(self.root, o["dir"], "job", "config.yaml") else x) for x in r[5:]])
        return dict(out=out, subs=subs, seen=seen, jobs={d: self.job(d) for d in self.case["dirs"]})


def run(case):
    root = os.path.join(VPROOT, "case")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    if case["op"] == "template":
        return trun(case, root)
    for n, s in case["systems"].items():
        p = os.path.join(root, n + ".toml")
        with open(p, "w") as f:
            toml.dump(system(n, s), f)
        runner.register_system(p)
    os.environ.update(VPHERE=root, HOME=root, VPREC=os.path.join(root, "rec"))
    if BIN not in os.environ["PATH"]:
        os.environ["PATH"] = BIN + ":" + os.environ["PATH"]
    os.chdir(root)
    w = World(case, root)
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            return dict(steps=[w.step(o, p) for o, p in zip(case["ops"], case["plan"])])
    finally:
        os.chdir(VPROOT)


def trun(case, root):
    """Running a template at once: what the task is given in each run."""
    SEEN.clear()
    f = os.path.join(root, "t.yaml")
    with open(f, "w") as fh:
        fh.write("pipeline:\n  tasks:\n  - type: vpjobtasks.Note\n    params: {{value: '" + "/".join("{%s}" % n for n in case["names"]) + "'}}\n")
    var = [f"{n}={','.join(v)}" for n, v in zip(case["names"], case["vars"])]
    sink = io.StringIO()
    hook = sys.excepthook
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            if case["via"] == "cli":
                a = ["template-run"]
                for v in var:
                    a += ["--var", v]
                r = CliRunner().invoke(CLI, a + [f])
                out = "error" if r.exit_code else "ok"
            else:
                try:
                    runner.template_run(f, var)
                    out = "ok"
                except Exception:
                    out = "error"
    finally:
        sys.excepthook = hook
    return dict(out=out, seen=list(SEEN))


vpdrv.loop(run)
