----------------------------- MODULE MC_LruCache ----------------------------
EXTENDS LruCache
CONSTANTS MaxBytes, Keys, Sizes, Steps
VARIABLES q, stamp, n, last, lost
(* stamp: when each key was last used; last: the array last stored under each key; lost: stamps evicted in the last step *)
vars == <<q, stamp, n, last, lost>>
Init == q = <<>> /\ n = 0 /\ stamp = [k \in Keys |-> 0] /\ last = [k \in Keys |-> 0] /\ lost = {}
KeysIn(p) == {p[j].k : j \in 1..Len(p)}
Step(o) == LET d == Do(q, o, MaxBytes) IN q' = d.q /\ n' = n + 1
SetIt == n < Steps /\ \E k \in Keys, s \in Sizes :
         LET o == [op |-> "set", k |-> k, n |-> s, id |-> n + 1, bad |-> FALSE]  d == Do(q, o, MaxBytes) IN
         /\ Step(o)
         /\ lost' = {stamp[j] : j \in KeysIn(q) \ (KeysIn(d.q) \cup {k})}
         /\ IF d.r.ok THEN stamp' = [stamp EXCEPT ![k] = n + 1] /\ last' = [last EXCEPT ![k] = n + 1] ELSE UNCHANGED <<stamp, last>>
LookIt == n < Steps /\ \E k \in Keys : Step([op |-> "lookup", k |-> k]) /\ lost' = {} /\ UNCHANGED last
                     /\ stamp' = IF Has(q, k) THEN [stamp EXCEPT ![k] = n + 1] ELSE stamp
DelIt == n < Steps /\ \E k \in Keys : Step([op |-> "del", k |-> k]) /\ lost' = {} /\ UNCHANGED <<stamp, last>>
HasIt == n < Steps /\ \E k \in Keys : Step([op |-> "has", k |-> k]) /\ lost' = {} /\ UNCHANGED <<stamp, last>>
PopIt == n < Steps /\ q # <<>> /\ Step([op |-> "popitem"]) /\ lost' = {stamp[Head(q).k]} /\ UNCHANGED <<stamp, last>>
Spec == Init /\ [][SetIt \/ LookIt \/ DelIt \/ HasIt \/ PopIt]_vars
Budget == Used(q) <= MaxBytes
OnceEach == Cardinality(KeysIn(q)) = Len(q)
Newest == \A j \in 1..Len(q) : q[j].id = last[q[j].k]
Oldest == \A s \in lost, k \in KeysIn(q) : s < stamp[k]
(* with one entry less evicted the new one would not have fitted *)
OnlyNeeded == [][SetIt => \A j \in 1..Len(q) :
                   LET new == q'[Len(q')]
                       kept == SelectSeq(q, LAMBDA e : e.k \in KeysIn(q') /\ e.k # new.k)
                   IN (q[j].k \notin KeysIn(q')) => Used(kept) + q[j].n + new.n > MaxBytes
                      \/ \E i \in (j+1)..Len(q) : q[i].k \notin KeysIn(q')]_vars
=============================================================================
