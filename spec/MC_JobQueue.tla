----------------------------- MODULE MC_JobQueue ----------------------------
EXTENDS JobQueue
CONSTANTS Steps
VARIABLES jobs, n, last
(* last: the step taken, its outcome and what it submitted *)
vars == <<jobs, n, last>>
Dirs == {"d", "t"}
PP == [systems |-> [none |-> [command |-> "x"]]]
Cl == [system |-> "slurm", name |-> "j", nodes |-> 1, time |-> "1", mem |-> "1", ompnum |-> 1, pernode |-> 1, account |-> "a"]
Faults == {"", "system", "key", "mail", "venv"}
Job(c, policy, temp, submit, fault) ==
  [cfg |-> c, cl |-> IF fault = "system" THEN [Cl EXCEPT !.system = "sge"] ELSE IF fault = "key" THEN [system |-> "slurm", name |-> "j"] ELSE Cl,
   dir |-> "d", temp |-> temp, lint |-> FALSE, submit |-> submit, overwrite |-> policy, email |-> IF fault = "mail" THEN "me" ELSE "", mailtype |-> "",
   profile |-> FALSE, psutil |-> FALSE, profiler |-> "cProfile", modpath |-> <<>>, modlist |-> <<>>, venv |-> IF fault = "venv" THEN "missing" ELSE "",
   venvtask |-> FALSE, badpipe |-> FALSE, nocluster |-> FALSE, nodir |-> FALSE, wrong |-> FALSE]
Init == jobs = [d \in Dirs |-> NoJob] /\ n = 0 /\ last = [op |-> "", out |-> "", dir |-> "", policy |-> "", submit |-> FALSE, sub |-> <<>>, fault |-> ""]
QueueIt == n < Steps /\ \E policy \in {"never", "failed", "always"}, temp \in {"", "t"}, submit \in BOOLEAN, fault \in Faults :
           LET q == Job(n + 1, policy, temp, submit, fault)  e == Enqueue(PP, jobs, q) IN
           /\ jobs' = e.jobs /\ n' = n + 1
           /\ last' = [op |-> "queue", out |-> e.out, dir |-> WorkOf(q), policy |-> policy, submit |-> submit, sub |-> e.sub, fault |-> fault]
RunIt == n < Steps /\ \E d \in Dirs, ok \in BOOLEAN :
         /\ Runnable(jobs, d) /\ jobs' = RunJob(jobs, d, ok) /\ n' = n + 1
         /\ last' = [op |-> "run", out |-> "", dir |-> d, policy |-> "", submit |-> FALSE, sub |-> <<>>, fault |-> ""]
CancelIt == n < Steps /\ \E d \in Dirs :
         /\ IsJob(jobs[d]) /\ jobs' = [jobs EXCEPT ![d].status = <<"RUNNING">>] /\ n' = n + 1
         /\ last' = [op |-> "status", out |-> "", dir |-> d, policy |-> "", submit |-> FALSE, sub |-> <<>>, fault |-> ""]
Spec == Init /\ [][QueueIt \/ RunIt \/ CancelIt]_vars
Queued == last'.op = "queue" /\ n' # n
(* a job that is not to be overwritten stays as it is, and nothing is submitted *)
NotDisturbed == [][Queued => LET d == last'.dir IN
    (IsJob(jobs[d]) /\ (last'.policy = "never" \/ (last'.policy = "failed" /\ jobs[d].status = <<"FINISHED">>))) => jobs' = jobs /\ last'.sub = <<>>]_vars
(* a job that cannot be queued leaves no trace *)
NoEffectOfErrors == [][(Queued /\ last'.fault # "") => jobs' = jobs /\ last'.sub = <<>>]_vars
SubmittedIfAsked == [][Queued => (last'.sub # <<>> <=> last'.submit /\ last'.out = "queued") /\ Len(last'.sub) <= 1]_vars
(* otherwise it is written anew, and only there *)
Rewritten == [][(Queued /\ last'.out = "queued") => jobs'[last'.dir].cfg = n' /\ \A d \in Dirs \ {last'.dir} : jobs'[d] = jobs[d]]_vars
Sane == \A d \in Dirs : IsJob(jobs[d]) => jobs[d].cfg \in 1..n /\ (jobs[d].moved => jobs[d].status \in {<<"FINISHED">>, <<"RUNNING">>})
=============================================================================
