"""Machinery shared by all checks: TLC, drivers, evidence, verdicts (stdlib only)."""
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CAPUT_REPO", "/repo")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")


class MachineryError(Exception):
    """The checking machinery itself failed (never a verdict about the code)."""


class DriverDied(Exception):
    """The code under test hung or took the driver process down."""

    def __init__(self, case, why):
        super().__init__(f"{why} at case {case}")
        self.case = case
        self.why = why


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"vp-{pid}-")
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.viol = []
        self.known_hit = {}
        self.assumptions = []
        self.known = load_known(pid)
        self.models = []
        self._n = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        self._n += 1
        return os.path.join(self.tmp, f"{self._n:03d}-{name}")

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, extra=(), timeout=800, mods=None,
            heap="3g"):
        """Run TLC on `module` (spec file name without .tla) with config text `cfg`."""
        d = self.path("tlc-" + module)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        for name, text in (mods or {}).items():
            p = os.path.join(d, name + ".tla")
            if os.path.lexists(p):
                os.unlink(p)
            with open(p, "w") as f:
                f.write(text)
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", JARS,
               "-Djava.io.tmpdir=" + d,
               "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"),
               "-noGenerateSpecTE", "-deadlock", *extra, "-config", module + ".cfg", module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module}")
        out = p.stdout
        if p.returncode != 0:
            if os.environ.get("VP_DEBUG"):
                shutil.copytree(d, "/tmp/vp-debug-tlc", dirs_exist_ok=True, symlinks=False)
            raise MachineryError(f"TLC exit {p.returncode} on {module}:\n"
                                 + "\n".join(x for x in out.splitlines() if not re.match(r" *\|*line \d|<", x))[-6000:])
        res = dict(out=out, dir=d)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            res["generated"] = int(m.group(1).replace(",", ""))
            res["distinct"] = int(m.group(2).replace(",", ""))
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        if m:
            res["depth"] = int(m.group(1))
        return res

    def model(self, module, cfg, workers=4, env=None, timeout=800, mods=None, min_states=1,
              must_cover=(), heap="6g"):
        """Exhaustively check a small instance; any violation there is a spec error."""
        extra = ("-coverage", "60") if must_cover else ()
        r = self.tlc(module, cfg, env=env, workers=workers, extra=extra, timeout=timeout,
                     mods=mods, heap=heap)
        if r.get("distinct", 0) < min_states:
            raise MachineryError(f"vacuous model {module}: {r.get('distinct')} states")
        for a in must_cover:
            m = re.findall(r"<%s line [^>]*>: (\d+):(\d+)" % re.escape(a), r["out"])
            if not m or all(int(y) == 0 for x, y in m):
                raise MachineryError(f"action {a} of {module} never taken")
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.models.append(dict(module=module, states=r["distinct"], generated=r["generated"],
                                depth=r.get("depth")))
        return r

    def evaluate(self, module, programs, op="RunProgram", jobs=None, timeout=800, extra_env=None,
                 heap="2g"):
        """Evaluate a spec operator of `module` on every program, with TLC. Returns the results."""
        if not programs:
            return []
        jobs = jobs or min(6, max(1, len(programs) // 40))
        chunks = [programs[i::jobs] for i in range(jobs)]

        def one(ch):
            if not ch:
                return []
            inp, outp = self.path("in.json"), self.path("out.json")
            with open(inp, "w") as f:
                json.dump(ch, f)
            text = (
                "---- MODULE VpRun ----\nEXTENDS %s, Json, IOUtils\n"
                "VpIn == JsonDeserialize(IOEnv.VP_IN)\n"
                "ASSUME JsonSerialize(IOEnv.VP_OUT, [vpi \\in 1..Len(VpIn) |-> %s(VpIn[vpi])])\n====\n"
                % (module, op))
            env = dict(VP_IN=inp, VP_OUT=outp)
            env.update(extra_env or {})
            self.tlc("VpRun", "", env=env, mods={"VpRun": text}, timeout=timeout, heap=heap)
            with open(outp) as f:
                return json.load(f)

        with ThreadPoolExecutor(jobs) as ex:
            parts = list(ex.map(one, chunks))
        res = [None] * len(programs)
        for j, p in enumerate(parts):
            res[j::jobs] = p
        return res

    # ------------------------------------------------------------ drivers
    def exts(self, *names):
        """Build the named Cython extensions from the repo's current tree, out of tree."""
        m = build_exts(names, os.path.join(self.tmp, "ext"))
        self._ext = m
        return m

    def drive(self, driver, cases, np=1, timeout=300, case_timeout=60, env=None, args=()):
        """Run drivers/<driver>.py on `cases`; one result (list over ranks if np>1) per case."""
        inp, outp = self.path("cases.json"), self.path("obs")
        with open(inp, "w") as f:
            json.dump(cases, f)
        wd = self.path("work")
        os.makedirs(wd)
        e = driver_env(self.tmp, getattr(self, "_ext", None))
        e.update(dict(VP_WORK=wd, VP_CASE_TIMEOUT=str(case_timeout), VERIF_SEED=str(self.seed)))
        e.update(env or {})
        cmd = [PY, os.path.join(VERIF, "drivers", driver + ".py"), inp, outp, *map(str, args)]
        if np > 1:
            od = self.path("ompi")
            os.makedirs(od)
            e["TMPDIR"] = od
            cmd = ["mpirun", "--oversubscribe", "--bind-to", "none", "--mca", "btl", "self,vader",
                   "--mca", "plm", "isolated", "--mca", "mpi_yield_when_idle", "1",
                   "--mca", "orte_tmpdir_base", od, "-np", str(np)] + cmd
        log = self.path("log")
        with open(log, "w") as lf:
            p = subprocess.Popen(cmd, cwd=wd, env=e, stdin=subprocess.DEVNULL, stdout=lf,
                                 stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                rc = "timeout"
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        ranks = []
        for r in range(np):
            rows = []
            try:
                with open(f"{outp}.{r}") as f:
                    for line in f:
                        if line.endswith("\n"):
                            rows.append(json.loads(line))
            except FileNotFoundError:
                pass
            ranks.append(rows)
        done = min(len(x) for x in ranks)
        if done < len(cases) or rc != 0:
            with open(log) as f:
                tail = f.read()[-3000:]
            if not all(os.path.exists(f"{outp}.{r}") for r in range(np)):
                raise MachineryError(f"driver {driver} did not start (rc={rc}):\n{tail}")
            if done >= len(cases):
                raise MachineryError(f"driver {driver} exit {rc} after all cases:\n{tail}")
            raise DriverDied(cases[done], f"driver {driver} (np={np}) rc={rc}: {tail[-800:]}")
        if np == 1:
            return ranks[0]
        return [list(t) for t in zip(*ranks)]

    # ----------------------------------------------------------- verdicts
    def sample(self, x, n=3):
        if len(self.cov["samples"]) < n:
            self.cov["samples"].append(x)

    def validated(self, n=1):
        self.cov["traces_validated_against_impl"] += n

    def violation(self, clause, detail):
        """Report a violation. `clause` names what failed, `detail` is the replayable case."""
        for k in self.known:
            if known_matches(k, clause, detail):
                self.known_hit.setdefault(k["what"], 0)
                self.known_hit[k["what"]] += 1
                return
        self.viol.append(dict(clause=clause, detail=detail))

    def compare(self, clause, case, want, got):
        if norm(want) != norm(got):
            self.violation(clause, dict(case=case, want=want, got=got))
            return False
        return True

    def finish(self):
        self.cov["models"] = self.models
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=self.cov, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.viol), assumptions=self.assumptions)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for w, n in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.pid} {w}")
        rp = os.path.join(VERIF, "evidence", f"{self.pid}.replay.json")
        if os.path.exists(rp):
            os.unlink(rp)
        if self.viol:
            with open(rp, "w") as f:
                json.dump(self.viol[:50], f, indent=1, default=str)
            for v in self.viol[:3]:
                print("  clause:", v["clause"], "|", json.dumps(v["detail"], default=str)[:1500])
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"OK property={self.pid} tier={self.tier} states={self.cov['states']} "
              f"traces={self.cov['traces_validated_against_impl']} wall={ev['wall_s']}s")
        return 0


def norm(x):
    """Canonical form for comparing spec values with observations."""
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    return x


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            ks = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in ks if k.get("status") == "known" and k["property"] == pid]


def known_matches(k, clause, detail):
    if k["clause"] != clause:
        return False
    txt = json.dumps(norm(detail), sort_keys=True, default=str)
    return all(re.search(r, txt) for r in k.get("match", []))


def driver_env(tmp, ext=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith("OMPI_")}
    e.update(PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", HOME="/root",
             PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1",
             OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMP_NUM_THREADS="1",
             NO_COLOR="1", VP_REPO=REPO, VP_EXT=json.dumps(ext or {}), OPENBLAS_NUM_THREADS="1",
             PYTHONPATH=os.path.join(VERIF, "lib"), PYTHONWARNINGS="ignore",
             VP_SCRATCH=tmp)
    e.pop("CAPUT_NO_OPENMP", None)
    return e


EXT = {
    "truncate": ("caput.util.truncate", "caput/util/truncate.pyx", False),
    "weighted": ("caput.algorithms.median.weighted", "caput/algorithms/median/weighted.pyx", True),
    "invert": ("caput.algorithms._invert_no_zero._invert_no_zero",
               "caput/algorithms/_invert_no_zero/_invert_no_zero.pyx", False),
    "spherical": ("caput.astro.coordinates._spherical", "caput/astro/coordinates/_spherical.pyx", False),
}


def build_exts(names, dest):
    os.makedirs(dest, exist_ok=True)
    inc = subprocess.run([PY, "-c", "import sysconfig,numpy;print(sysconfig.get_path('include'));"
                          "print(numpy.get_include())"], capture_output=True, text=True,
                         check=True).stdout.split()

    def one(n):
        mod, src, cpp = EXT[n]
        wd = os.path.join(dest, n)
        os.makedirs(wd, exist_ok=True)
        srcdir = os.path.join(REPO, os.path.dirname(src))
        # keep the package layout so that relative cimports and headers resolve
        pk = os.path.join(wd, os.path.dirname(src))
        shutil.copytree(srcdir, pk, ignore=shutil.ignore_patterns("*.so", "*.c", "*.cpp", "__pycache__"))
        c = os.path.join(wd, n + (".cpp" if cpp else ".c"))
        so = os.path.join(dest, n + ".so")
        p = subprocess.run([PY, "-m", "cython", "--module-name", mod] + (["--cplus"] if cpp else []) +
                           ["-I", pk, "-o", c, src], cwd=wd, capture_output=True, text=True)
        if p.returncode:
            raise MachineryError(f"cython failed on {src}:\n{p.stderr[-3000:]}")
        cc = ["g++", "-std=c++11"] if cpp else ["gcc"]
        p = subprocess.run(cc + ["-shared", "-fPIC", "-O2", "-fno-math-errno", "-fno-trapping-math",
                                 "-fopenmp", "-w", "-I" + pk] + ["-I" + i for i in inc] + [c, "-o", so],
                           cwd=wd, capture_output=True, text=True)
        if p.returncode:
            raise MachineryError(f"compiling {src} failed:\n{p.stderr[-3000:]}")
        return mod, so

    with ThreadPoolExecutor(4) as ex:
        return dict(ex.map(one, names))


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    rc = 2
    try:
        try:
            fn(c)
        except DriverDied as e:
            c.violation("driver-died", dict(case=e.case, why=e.why))
        rc = c.finish()
    except MachineryError as e:
        print(f"MACHINERY ERROR in {pid}: {e}", file=sys.stderr)
        rc = 2
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(c.tmp, ignore_errors=True)
        else:
            print("kept", c.tmp)
    return rc
