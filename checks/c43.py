"""C43: queueing jobs."""
import json
import os

CFG = """CONSTANTS
 Steps = %d
SPECIFICATION Spec
INVARIANTS Sane
PROPERTIES NotDisturbed NoEffectOfErrors SubmittedIfAsked Rewritten
"""
SLURM = ["name", "nodes", "time", "mem", "ompnum", "pernode", "account"]
PBS = ["name", "nodes", "time", "ompnum", "pernode", "ppn", "queue"]
MAILS = ["BEGIN", "END", "FAIL", "ALL", "a", "be", "abe"]


def L(s):
    return dict(lit=s, key="")


def V(k):
    return dict(lit="", key=k)


def customsys(rng):
    keys = ["ompnum", "name"] + rng.sample(["nodes", "pernode", "account", "mem", "time", "mpiproc"], rng.randint(0, 3))
    req = rng.sample(["name", "nodes", "time", "directory", "ompnum", "pernode", "mem"], rng.randint(0, 6))
    mail = rng.random() < .6
    return dict(command="vpsub", invoke=rng.choice(["", "vprun", "srun"]), iargs=rng.choice([[], [[L("-n")], [V("mpiproc")]], [[L("--per="), V("pernode")], [L("-v")]]]),
                required=req, header=[[L(k + "="), V(k)] for k in keys], mailtypes=["x", "END"] if mail else [],
                mail=[[L("--to"), ], [V("email")], [L("on="), V("mailtype")]] if mail else [], announces=rng.random() < .5)


def base(rng, cfg, systems, dirs):
    sysname = rng.choice(["slurm", "slurm", "pbs", "pbs", "cedar", "gpc", "fir"] + list(systems) * 2)
    kind = dict(cedar="slurm", fir="slurm", gpc="pbs").get(sysname, sysname)
    keys = SLURM if kind == "slurm" else PBS if kind == "pbs" else SLURM
    cl = dict(system=sysname)
    for k in keys:
        cl[k] = dict(name=lambda: rng.choice(["job", "my-job", "x1"]), nodes=lambda: rng.randint(1, 9), time=lambda: rng.choice(["30", "1-10:00", "0-3"]),
                     mem=lambda: rng.choice(["192000M", "0", "5G"]), ompnum=lambda: rng.randint(1, 16), pernode=lambda: rng.randint(1, 8), account=lambda: "def-x",
                     ppn=lambda: rng.choice([8, 16]), queue=lambda: rng.choice(["batch", "sandy"]))[k]()
    if rng.random() < .2:
        cl["invoke"] = rng.choice([["mpirun", "-x"], ["aprun"], ["vprun", "-a", "-b"]])
    if rng.random() < .25:
        cl["iargs"] = rng.choice([[[L("-np")], [V("mpiproc")]], [[L("--omp="), V("ompnum"), L("x"), V("nodes")]], [[L("-q")]], []])
    q = dict(cfg=cfg, cl=cl, dir=rng.choice(dirs[:2]), temp="", form=rng.choice(["abs", "abs", "rel", "var", "home"]), lint=rng.random() < .3, submit=rng.random() < .7,
             overwrite=rng.choice(["never", "never", "failed", "failed", "failed", "always"]), email="", mailtype="", profile=False, psutil=False, profiler="cProfile",
             modpath=[], modlist=[], modstr=rng.random() < .5, venv="", venvtask=False, badpipe=False, nocluster=False, nodir=False, wrong=False, wrongkey="",
             timeint=cl.get("time") == "30" and rng.random() < .5, via="cli" if rng.random() < .3 else "api")
    if rng.random() < .3:
        q["temp"] = rng.choice(dirs[2:])
    if rng.random() < .25:
        q["modpath"] = rng.sample(["/a/b", "/c"], rng.randint(1, 2))
    if rng.random() < .3:
        q["modlist"] = rng.sample(["gcc", "python/3", "hdf5"], rng.randint(1, 3))
    if rng.random() < .25:
        q["venv"] = rng.choice(["va", "vb"])
        q["venvtask"] = q["lint"] and rng.random() < .5
    if rng.random() < .3:
        q["profile"], q["profiler"] = True, rng.choice(["cProfile", "cProfile", "pyinstrument"])
    q["psutil"] = rng.random() < .2
    if rng.random() < .35:
        q["email"] = "me@x.org"
        good = dict(slurm=["BEGIN", "END", "FAIL", "REQUEUE", "ALL"], pbs=["a", "b", "abe", "eb", "bae"]).get(kind, ["x", "END"])
        q["mailtype"] = rng.choice(good) if rng.random() < .8 else rng.choice(MAILS + [""])
    elif rng.random() < .1:
        q["mailtype"] = rng.choice(MAILS)
    if kind not in ("slurm", "pbs") and q["mailtype"]:
        q["via"] = "api"
    # something wrong now and then
    if rng.random() < .25:
        r = rng.randrange(8)
        if r == 0:
            q["nocluster"] = True
        elif r == 1:
            q["lint"] = q["badpipe"] = True
        elif r == 2:
            q["venv"], q["venvtask"] = "missing", False
        elif r == 3:
            q["cl"]["system"] = rng.choice(["sge", "nowhere", ""])
            q["via"] = "api"
        elif r == 4:
            q["nodir"] = True
        elif r == 5:
            del q["cl"]["system"]
        elif r == 6:
            for k in rng.sample(keys, rng.randint(1, 2)):
                del q["cl"][k]
        elif kind in ("slurm", "pbs"):
            q["wrong"], q["wrongkey"] = True, rng.choice([k for k in keys if k not in ("time", "pernode")])
    return q


def template(rng, cfg, systems, dirs):
    while True:
        q = base(rng, cfg, systems, dirs)
        if any(q[k] for k in ("nocluster", "badpipe", "nodir", "wrong")) or q["venv"] == "missing" or q["cl"].get("system") not in ("slurm", "pbs", "cedar"):
            continue
        if len(q["cl"]) < 8:
            continue
        break
    kind = "pbs" if q["cl"]["system"] == "pbs" else "slurm"
    q.update(lint=True, submit=True, profile=False, psutil=False, profiler="cProfile", email="", mailtype="", form="abs")
    if rng.random() < .3:
        q.update(email="a@b.c", mailtype="END" if kind == "slurm" else "e")
    if q["temp"]:
        q["temp"] = ""
    nv = rng.choice([1, 2, 2])
    vs = [rng.sample([1, 2], rng.randint(1, 2))]
    if nv == 2:
        vs.append(rng.sample([1, 2, 3], rng.randint(1, 3)))
    q.update(vars=vs, dirs=dirs[:2], num=[10])
    return q


def case(rng, serial):
    dirs = ["d1", "d2", "t1", "t2"]
    systems = {}
    if rng.random() < .4:
        systems["vp%d" % serial] = customsys(rng)
    ids, ops = {}, []
    for n in range(rng.randint(2, 9)):
        cfg = 100 * (n + 1)
        r = rng.random()
        if r < .5 or n == 0:
            q = base(rng, cfg, systems, dirs)
            ids["c%d" % cfg] = cfg
            ops.append(dict(op="queue", q=q))
        elif r < .58:
            q = template(rng, cfg, systems, dirs)
            for i in (1, 2):
                ids[f"d{i}"] = ids.get(f"d{i}", 0)
                for j in (1, 2, 3):
                    ids[f"d{i}-n{j}"] = 0
            ops.append(dict(op="template", q=q))
        elif r < .66:
            ops.append(dict(op="requeue", dir=rng.choice(dirs), overwrite=rng.choice(["never", "failed", "always"]), submit=rng.random() < .6, via=rng.choice(["api", "cli"])))
        elif r < .88:
            ops.append(dict(op="run", dir=rng.choice(dirs), ok=rng.random() < .6))
        else:
            ops.append(dict(op="status", dir=rng.choice(dirs), words=rng.choice([["RUNNING"], ["CRASHED"], ["FINISHED"], [], ["job", "FINISHED"], ["FAILED"]]),
                            empty=rng.random() < .5, nl=rng.randint(0, 2)))
    # a configuration made from a template is known by the values alone: at most one template in a history
    if sum(o["op"] == "template" for o in ops) > 1:
        seen = False
        for o in list(ops):
            if o["op"] == "template":
                if seen:
                    ops.remove(o)
                seen = True
    for o in ops:
        if o["op"] == "template":
            q = o["q"]
            for i in (1, 2):
                ids[f"d{i}"] = q["cfg"] + 10 * i
                for j in (1, 2, 3):
                    ids[f"d{i}-n{j}"] = q["cfg"] + 10 * i + j
    return dict(op="queue", systems=systems, dirs=dirs, ops=ops, ids=ids)


def tcase(rng):
    names = rng.sample(["alpha", "b", "freq_id"], rng.randint(1, 3))
    vals = [rng.sample(["1", "x", "a b", "k=v", "2.5", "q-r"], rng.randint(1, 3)) for _ in names]
    return dict(op="template", names=names, vars=vals, via=rng.choice(["api", "cli"]))


def tidy(w):
    return dict(out=w["out"], subs=w["sub"], jobs={d: dict(cfg=j["cfg"], header=sorted(j["header"]), status=j["status"], stray=False) for d, j in w["jobs"].items()})


def run(c):
    rng = c.rng
    c.exts()
    c.model("MC_JobQueue", CFG % c.pick(4, 5), must_cover=["QueueIt", "RunIt", "CancelIt"], min_states=500)
    cases = [case(rng, n) for n in range(c.pick(500, 4000))]
    want = c.evaluate("JobQueue", [dict(k, systems=k["systems"] or {"none": customsys(rng)}) for k in cases])
    send = [dict(k, plan=[dict(out=x["out"]) for x in w]) for k, w in zip(cases, want)]
    outs = {}
    for k, w, o in zip(cases, want, c.drive("jobqueue", send, timeout=800)):
        if "driver_exc" in o:
            c.violation("raised", dict(case=k, got=o))
            continue
        for j, (x, y) in enumerate(zip(w, o["steps"])):
            op = k["ops"][j]
            outs[x["out"]] = outs.get(x["out"], 0) + 1
            a, b = tidy(x), dict(out=y["out"], subs=y["subs"], jobs=y["jobs"])
            a["out"] = {"queued": "ok", "skipped": "ok", "done": "ok"}.get(a["out"], a["out"])
            if a["out"] == "skipped or error":
                a["out"] = b["out"] if b["out"] in ("ok", "error") else "skipped or error"
            sofar = dict(systems=k["systems"], ops=k["ops"][:j + 1])
            if not c.compare("after " + op["op"], sofar, a, b):
                break
            if x["out"] == "ran":
                s = dict(x["seen"], rc=op["ok"], here=True)
                if not c.compare("job as run", sofar, s, y["seen"]):
                    break
        c.validated()
    c.cov.update(operations=outs)
    cases = [tcase(rng) for _ in range(c.pick(40, 300))]
    want = c.evaluate("JobQueue", cases)
    for k, w, o in zip(cases, want, c.drive("jobqueue", cases)):
        if "driver_exc" in o:
            c.violation("raised", dict(case=k, got=o))
            continue
        c.compare("template run", k, dict(out="ok", seen=["/".join(x) for x in w]), o)
        c.validated()
    c.sample(send[0])
    c.assumptions += ["stand-ins for sbatch, qsub, srun, mpirun and module record what they are given", "directories without characters special to the shell"]
