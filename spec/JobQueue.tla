------------------------------ MODULE JobQueue ------------------------------
(***************************************************************************)
(* Queueing jobs.  The state is, for every directory, the job in it: its     *)
(* configuration, its script (what it asks of the scheduler and what it       *)
(* runs) and its status.  Queueing writes one job directory and may submit    *)
(* it; running a job changes its status and may move it to its final place.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
NoJob == [cfg |-> 0]
IsJob(j) == j.cfg # 0
(* ---- the queue systems ---- *)
Lit(s) == [lit |-> s, key |-> ""]
Val(k) == [lit |-> "", key |-> k]
BuiltIn == [
  slurm |-> [command |-> "sbatch", invoke |-> "srun", iargs |-> <<>>,
             required |-> <<"name", "nodes", "time", "mem", "directory", "ompnum", "pernode", "account">>,
             header |-> << <<Lit("--account="), Val("account")>>, <<Lit("--nodes="), Val("nodes")>>, <<Lit("--ntasks-per-node="), Val("pernode")>>,
                           <<Lit("--cpus-per-task="), Val("ompnum")>>, <<Lit("--mem="), Val("mem")>>, <<Lit("--time="), Val("time")>>,
                           <<Lit("--job-name="), Val("name")>> >>,
             mailtypes |-> <<"BEGIN", "END", "FAIL", "REQUEUE", "ALL">>, mail |-> << <<Lit("--mail-user="), Val("email")>>, <<Lit("--mail-type="), Val("mailtype")>> >>,
             announces |-> TRUE],
  pbs   |-> [command |-> "qsub", invoke |-> "mpirun",
             iargs |-> << <<Lit("-np")>>, <<Val("mpiproc")>>, <<Lit("-npernode")>>, <<Val("pernode")>>, <<Lit("-bind-to")>>, <<Lit("none")>> >>,
             required |-> <<"name", "nodes", "time", "directory", "ompnum", "pernode", "ppn", "queue">>,
             header |-> << <<Lit("-l nodes="), Val("nodes"), Lit(":ppn="), Val("ppn")>>, <<Lit("-q "), Val("queue")>>, <<Lit("-r n")>>, <<Lit("-m abe")>>,
                           <<Lit("-V")>>, <<Lit("-l walltime="), Val("time")>>, <<Lit("-N "), Val("name")>> >>,
             mailtypes |-> <<"a", "b", "e", "ab", "ae", "ba", "be", "ea", "eb", "abe", "aeb", "bae", "bea", "eab", "eba">>,
             mail |-> << <<Lit("-M")>>, <<Val("email")>>, <<Lit("-m")>>, <<Val("mailtype")>> >>,
             announces |-> FALSE] ]
Cluster2System == [gpc |-> "pbs", cedar |-> "slurm", fir |-> "slurm"]
SystemsOf(P) == BuiltIn @@ P.systems
(* a system, or a cluster known to use it *)
Known(P, n) == n \in DOMAIN SystemsOf(P) \/ n \in DOMAIN Cluster2System
SystemOf(P, n) == IF n \in DOMAIN SystemsOf(P) THEN SystemsOf(P)[n] ELSE SystemsOf(P)[Cluster2System[n]]
(* ---- filling in ---- *)
Numbers == {"nodes", "pernode", "ompnum", "ppn"}
Has(cl, k) == k \in DOMAIN cl
ValueOf(q, k) ==
  IF k = "mpiproc" THEN ToString(q.cl.nodes * q.cl.pernode)
  ELSE IF k = "email" THEN q.email ELSE IF k = "mailtype" THEN q.mailtype
  ELSE IF k \in Numbers THEN ToString(q.cl[k]) ELSE q.cl[k]
RECURSIVE Fill(_, _)
Fill(q, ps) == IF ps = <<>> THEN "" ELSE (IF Head(ps).key = "" THEN Head(ps).lit ELSE ValueOf(q, Head(ps).key)) \o Fill(q, Tail(ps))
FillAll(q, rows) == [j \in 1..Len(rows) |-> Fill(q, rows[j])] \o <<>>
KeysOf(rows) == UNION {{rows[j][i].key : i \in 1..Len(rows[j])} : j \in 1..Len(rows)} \ {"", "email", "mailtype"}
Elems(s) == {s[j] : j \in 1..Len(s)}
(* ---- a job ---- *)
ArgsOf(P, q) == IF Has(q.cl, "iargs") THEN q.cl.iargs ELSE SystemOf(P, q.cl.system).iargs
ModsOf(q) == LET m == [j \in 1..Len(q.modpath) |-> "use " \o q.modpath[j]] \o [j \in 1..Len(q.modlist) |-> "load " \o q.modlist[j]] IN
             IF m = <<>> THEN <<>> ELSE <<"--force purge">> \o m
InvokeOf(P, q) == IF Has(q.cl, "invoke") THEN q.cl.invoke ELSE IF SystemOf(P, q.cl.system).invoke = "" THEN <<"mpirun">> ELSE <<SystemOf(P, q.cl.system).invoke>>
ScriptOf(P, q) == LET S == SystemOf(P, q.cl.system) IN
  [header |-> FillAll(q, S.header),
   launch |-> InvokeOf(P, q) \o FillAll(q, ArgsOf(P, q)) \o <<"caput-pipeline", "run">>
              \o (IF q.profile THEN <<"--profile", "--profiler=" \o q.profiler>> ELSE <<>>) \o (IF q.psutil THEN <<"--psutil">> ELSE <<>>) \o <<"CONFIG">>,
   mods |-> ModsOf(q), venv |-> IF q.venv = "" THEN "" ELSE q.venv, omp |-> IF Has(q.cl, "ompnum") THEN ToString(q.cl.ompnum) ELSE "", announces |-> S.announces]
WorkOf(q) == IF q.temp = "" THEN q.dir ELSE q.temp
(* what is wrong before the job directory is looked at, and after *)
Bad1(P, q) == \/ q.nocluster \/ (q.lint /\ (q.badpipe \/ q.venv = "missing" \/ (q.venvtask /\ q.venv = "")))
              \/ ~Has(q.cl, "system")
              \/ ~Known(P, q.cl.system)
              \/ ~(Elems(SystemOf(P, q.cl.system).required) \subseteq (DOMAIN q.cl \cup {"directory"})) \/ (q.nodir)
Bad2(P, q) == LET S == SystemOf(P, q.cl.system) IN
              \/ q.venv = "missing" \/ q.wrong
              \/ ~Has(q.cl, "nodes") \/ ~Has(q.cl, "pernode")
              \/ ~(KeysOf(S.header) \ {"mpiproc"} \subseteq DOMAIN q.cl) \/ ~(KeysOf(ArgsOf(P, q)) \ {"mpiproc"} \subseteq DOMAIN q.cl)
              \/ (q.email # "" /\ S.mailtypes # <<>> /\ q.mailtype \notin Elems(S.mailtypes))
Says(s, w) == \E j \in 1..Len(s) : s[j] = w
(* status is the sequence of words in the status file, or << >> if there is none *)
Kept(j, policy) == IsJob(j) /\ (policy = "never" \/ (policy = "failed" /\ Says(j.status, "FINISHED")))
MailOf(P, q) == IF q.email = "" THEN <<>> ELSE FillAll(q, SystemOf(P, q.cl.system).mail)
Enqueue(P, jobs, q) ==
  IF Bad1(P, q) THEN [out |-> "error", jobs |-> jobs, sub |-> <<>>]
  ELSE LET w == WorkOf(q) IN
    IF Kept(jobs[w], q.overwrite) THEN [out |-> IF Bad2(P, q) THEN "skipped or error" ELSE "skipped", jobs |-> jobs, sub |-> <<>>]
    ELSE IF Bad2(P, q) THEN [out |-> "error", jobs |-> jobs, sub |-> <<>>]
    ELSE [out |-> "queued",
          jobs |-> [jobs EXCEPT ![w] = [cfg |-> q.cfg, q |-> q, script |-> ScriptOf(P, q), status |-> IF IsJob(jobs[w]) THEN jobs[w].status ELSE <<>>, moved |-> FALSE]],
          sub |-> IF q.submit THEN << [dir |-> w, command |-> SystemOf(P, q.cl.system).command, args |-> MailOf(P, q) \o <<"jobscript.sh">>] >> ELSE <<>>]
(* the scheduler runs the job in a directory; it succeeds or not *)
Runnable(jobs, d) == IsJob(jobs[d]) /\ ~jobs[d].moved
RunJob(jobs, d, ok) ==
  LET j == jobs[d]  done == [j EXCEPT !.status = IF ok THEN <<"FINISHED">> ELSE <<"CRASHED">>] IN
  IF ~ok \/ j.q.temp = "" \/ j.q.temp = j.q.dir THEN [jobs EXCEPT ![d] = done]
  ELSE IF IsJob(jobs[j.q.dir]) THEN [jobs EXCEPT ![d] = NoJob]           \* ends up inside what is there
  ELSE [jobs EXCEPT ![d] = NoJob, ![j.q.dir] = [done EXCEPT !.moved = TRUE]]
SeenBy(j) == [launch |-> j.script.launch, mods |-> j.script.mods, venv |-> j.script.venv, omp |-> j.script.omp,
              status |-> IF j.script.announces THEN <<"RUNNING">> ELSE j.status]
(* ---- templates: one job for each combination of the values, the last variable varying fastest ---- *)
RECURSIVE Combos(_)
Combos(vs) == IF vs = <<>> THEN << <<>> >>
  ELSE LET rest == Combos(Tail(vs))  v == Head(vs) IN
       FlattenSeq([i \in 1..Len(v) |-> [j \in 1..Len(rest) |-> <<v[i]>> \o rest[j]] \o <<>>] \o <<>>)
(* a template is a job whose cfg, dir and name are chosen by the combination: q.variants lists them by combination in order *)
RECURSIVE Each(_, _, _, _)
Each(P, jobs, qs, acc) ==
  IF qs = <<>> THEN [out |-> "done", jobs |-> jobs, sub |-> acc]
  ELSE LET e == Enqueue(P, jobs, Head(qs)) IN
       IF e.out = "error" THEN [out |-> "error", jobs |-> e.jobs, sub |-> acc]
       ELSE IF e.out = "skipped or error" THEN [out |-> e.out, jobs |-> e.jobs, sub |-> acc]
       ELSE Each(P, e.jobs, Tail(qs), acc \o e.sub)
Instance(q, combo) == [q EXCEPT !.cfg = q.cfg + q.num[1] * combo[1] + (IF Len(combo) > 1 THEN combo[2] ELSE 0), !.dir = q.dirs[combo[1]],
                       !.cl = IF "name" \in DOMAIN q.cl THEN [q.cl EXCEPT !.name = "n" \o ToString(combo[Len(combo)])] ELSE q.cl]
View(jobs) == [d \in DOMAIN jobs |-> IF IsJob(jobs[d]) THEN [cfg |-> jobs[d].cfg, header |-> jobs[d].script.header, status |-> jobs[d].status]
                                     ELSE [cfg |-> 0, header |-> <<>>, status |-> <<>>]]
Nothing == [launch |-> <<>>, mods |-> <<>>, venv |-> "", omp |-> "", status |-> <<>>]
Apply(P, jobs, o) ==
  CASE o.op = "queue" -> LET e == Enqueue(P, jobs, o.q) IN [out |-> e.out, jobs |-> e.jobs, sub |-> e.sub, seen |-> Nothing]
    [] o.op = "requeue" -> IF ~IsJob(jobs[o.dir]) THEN [out |-> "none", jobs |-> jobs, sub |-> <<>>, seen |-> Nothing]
                           ELSE LET q == [jobs[o.dir].q EXCEPT !.overwrite = o.overwrite, !.submit = o.submit, !.lint = FALSE, !.profile = FALSE, !.psutil = FALSE, !.email = "",
                                                               !.mailtype = ""]
                                    e == Enqueue(P, jobs, q) IN [out |-> e.out, jobs |-> e.jobs, sub |-> e.sub, seen |-> Nothing]
    [] o.op = "run" -> IF ~Runnable(jobs, o.dir) THEN [out |-> "none", jobs |-> jobs, sub |-> <<>>, seen |-> Nothing]
                       ELSE [out |-> "ran", jobs |-> RunJob(jobs, o.dir, o.ok), sub |-> <<>>, seen |-> SeenBy(jobs[o.dir])]
    [] o.op = "status" -> IF ~IsJob(jobs[o.dir]) THEN [out |-> "none", jobs |-> jobs, sub |-> <<>>, seen |-> Nothing]
                          ELSE [out |-> "set", jobs |-> [jobs EXCEPT ![o.dir].status = o.words], sub |-> <<>>, seen |-> Nothing]
    [] o.op = "template" -> LET cs == Combos(o.q.vars)
                                qs == [j \in 1..Len(cs) |-> Instance(o.q, cs[j])] \o <<>>
                                e == Each(P, jobs, qs, <<>>) IN [out |-> e.out, jobs |-> e.jobs, sub |-> e.sub, seen |-> Nothing]
RECURSIVE Runs(_, _, _, _)
Runs(P, jobs, ops, acc) ==
  IF ops = <<>> THEN acc
  ELSE LET a == Apply(P, jobs, Head(ops)) IN
       Runs(P, a.jobs, Tail(ops), Append(acc, [out |-> a.out, sub |-> a.sub, seen |-> a.seen, jobs |-> View(a.jobs)]))
RunQueue(P) == Runs(P, [d \in Elems(P.dirs) |-> NoJob], P.ops, <<>>)
(* running a template at once: the values each run sees *)
RunTemplate(P) == LET cs == Combos(P.vars) IN [j \in 1..Len(cs) |-> cs[j]] \o <<>>
RunProgram(P) == IF P.op = "queue" THEN RunQueue(P) ELSE RunTemplate(P)
=============================================================================
