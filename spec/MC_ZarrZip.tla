---------------------------- MODULE MC_ZarrZip -----------------------------
(* Ranks zip a list side by side; saves start jobs in the background that a  *)
(* later task waits for.  Any job may fail.                                  *)
EXTENDS ZarrZip
CONSTANTS N, R
VARIABLES mode, hosts, remove, disk, todo, job, saved, waited, stopped
vars == <<mode, hosts, remove, disk, todo, job, saved, waited, stopped>>
None == [dir |-> FALSE, zip |-> "none"]
Init == /\ mode \in {"zip", "save"} /\ hosts \in [1..R -> 1..R] /\ remove \in BOOLEAN
        /\ disk \in [1..N -> IF mode = "zip" THEN {[dir |-> TRUE, zip |-> z] : z \in {"none", "old"}} ELSE {None, [dir |-> FALSE, zip |-> "old"]}]
        /\ todo = [r \in 1..R |-> IF mode = "zip" THEN Share(N, hosts, r) ELSE <<>>]
        /\ job = [k \in 1..N |-> "no"] /\ saved = 0 /\ waited = 0 /\ stopped = {}
UNCH == UNCHANGED <<mode, hosts, remove>>
(* a rank takes the next of its share, and stops if that fails *)
Take(r) == mode = "zip" /\ todo[r] # <<>> /\ r \notin stopped /\ job[Head(todo[r])] = "no" /\
           LET k == Head(todo[r]) IN job' = [job EXCEPT ![k] = "run"] /\ disk' = [disk EXCEPT ![k] = Begin(@)] /\ UNCHANGED <<todo, saved, waited, stopped>> /\ UNCH
Next1(r) == mode = "zip" /\ todo[r] # <<>> /\ r \notin stopped /\ job[Head(todo[r])] \in {"done", "bad"} /\
            (IF job[Head(todo[r])] = "bad" THEN stopped' = stopped \cup {r} /\ UNCHANGED todo ELSE todo' = [todo EXCEPT ![r] = Tail(@)] /\ UNCHANGED stopped)
            /\ UNCHANGED <<disk, job, saved, waited>> /\ UNCH
Save == mode = "save" /\ saved < N /\ saved' = saved + 1 /\ disk' = [disk EXCEPT ![saved + 1] = Begin([@ EXCEPT !.dir = TRUE])] /\ job' = [job EXCEPT ![saved + 1] = "run"]
        /\ UNCHANGED <<todo, waited, stopped>> /\ UNCH
(* a job writes the file, ends well and removes the directory after, or fails *)
Write1 == \E k \in 1..N : job[k] = "run" /\ disk[k].zip = "none" /\ disk' = [disk EXCEPT ![k].zip = "part"] /\ UNCHANGED <<todo, job, saved, waited, stopped>> /\ UNCH
Ends == \E k \in 1..N : job[k] = "run" /\ disk[k].zip = "part" /\ disk' = [disk EXCEPT ![k].zip = "full"] /\ job' = [job EXCEPT ![k] = IF remove THEN "rm" ELSE "done"]
        /\ UNCHANGED <<todo, saved, waited, stopped>> /\ UNCH
Rm == \E k \in 1..N : job[k] = "rm" /\ disk' = [disk EXCEPT ![k].dir = FALSE] /\ job' = [job EXCEPT ![k] = "done"] /\ UNCHANGED <<todo, saved, waited, stopped>> /\ UNCH
Fails == \E k \in 1..N : job[k] = "run" /\ job' = [job EXCEPT ![k] = "bad"] /\ UNCHANGED <<disk, todo, saved, waited, stopped>> /\ UNCH
Wait == mode = "save" /\ saved = N /\ waited < N /\ job[waited + 1] \in {"done", "bad"} /\ stopped = {} /\
        (IF job[waited + 1] = "bad" THEN stopped' = {1} /\ UNCHANGED waited ELSE waited' = waited + 1 /\ UNCHANGED stopped) /\ UNCHANGED <<disk, todo, job, saved>> /\ UNCH
TakeA == \E r \in 1..R : Take(r)
NextA == \E r \in 1..R : Next1(r)
Next == TakeA \/ NextA \/ Save \/ Write1 \/ Ends \/ Rm \/ Fails \/ Wait
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Made(k) == mode = "zip" \/ k <= saved
NothingLost == \A k \in 1..N : Made(k) => ~Lost(disk[k])
OnePerHost == \A k, l \in 1..N : mode = "zip" /\ k # l /\ job[k] = "run" /\ job[l] = "run" => hosts[Worker(k, hosts)] # hosts[Worker(l, hosts)]
Ended == mode = "zip" /\ \A r \in 1..R : todo[r] = <<>>
Complete == Ended \/ (mode = "save" /\ waited = N) => \A k \in 1..N : disk[k] = Zipped([dir |-> TRUE, zip |-> "none"], "ok", remove)
EachTaken == <>[](stopped # {} \/ Ended \/ waited = N)
=============================================================================
