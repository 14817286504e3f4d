----------------------------- MODULE MC_RandGen -----------------------------
(***************************************************************************)
(* Calls of one generator, with the threads filling their blocks element by  *)
(* element in any order.  A drawn number is <<stream, position>>; stream 0   *)
(* is the generator's own.                                                   *)
(***************************************************************************)
EXTENDS RandGen
CONSTANTS Threads, MaxSize, Calls, Threshold
VARIABLES pos, arr, done, at, results
(* pos: how far each stream was drawn; arr: the result being filled; done: elements each thread has filled; at: "idle" or "filling"; results: finished calls *)
vars == <<pos, arr, done, at, results>>
Streams == 0..Threads
Unset == <<-1, -1>>
Init == pos = [s \in Streams |-> 0] /\ arr = <<>> /\ done = [t \in 1..Threads |-> 0] /\ at = "idle" /\ results = <<>>
Call(n) == [method |-> "random", sizeform |-> "kw", size |-> <<n>>, arrays |-> FALSE, extra |-> FALSE, out |-> "none", outshape |-> <<>>, outdtype |-> "f8",
            outwrite |-> TRUE, dtype |-> "", invalid |-> FALSE, g |-> 1]
PlanOf(n) == Plan(Call(n), Threads, Threshold)
DrawDirect == at = "idle" /\ Len(results) < Calls /\ \E n \in 0..MaxSize :
         /\ PlanOf(n).kind = "direct"
         /\ results' = Append(results, [j \in 1..n |-> <<0, pos[0] + j>>])
         /\ pos' = [pos EXCEPT ![0] = @ + n]
         /\ UNCHANGED <<arr, done, at>>
Start == at = "idle" /\ Len(results) < Calls /\ \E n \in 0..MaxSize :
         /\ PlanOf(n).kind = "parallel"
         /\ arr' = [j \in 1..n |-> Unset]
         /\ done' = [t \in 1..Threads |-> 0]
         /\ at' = "filling"
         /\ UNCHANGED <<pos, results>>
Size(t) == BlockHi(Len(arr), Threads, t) - BlockLo(Len(arr), Threads, t)
FillOne == at = "filling" /\ \E t \in 1..Threads :
         /\ done[t] < Size(t)
         /\ pos' = [pos EXCEPT ![t] = @ + 1]
         /\ arr' = [arr EXCEPT ![BlockLo(Len(arr), Threads, t) + done[t] + 1] = <<t, pos[t] + 1>>]
         /\ done' = [done EXCEPT ![t] = @ + 1]
         /\ UNCHANGED <<at, results>>
Return == at = "filling" /\ (\A t \in 1..Threads : done[t] = Size(t))
         /\ results' = Append(results, arr) /\ at' = "idle" /\ UNCHANGED <<pos, arr, done>>
Spec == Init /\ [][DrawDirect \/ Start \/ FillOne \/ Return]_vars /\ WF_vars(DrawDirect \/ Start \/ FillOne \/ Return)
(* every element of a result is set, and no number is used twice *)
AllSet == \A r \in 1..Len(results) : \A j \in 1..Len(results[r]) : results[r][j] # Unset
Fresh == \A r, s \in 1..Len(results) : \A j \in 1..Len(results[r]), k \in 1..Len(results[s]) :
           (r # s \/ j # k) => results[r][j] # results[s][k]
(* the results follow from the sizes asked for alone: the same whatever the threads' timing *)
RECURSIVE Canon(_, _, _)
Canon(ns, p, acc) ==
  IF ns = <<>> THEN acc
  ELSE LET n == Head(ns)  pl == PlanOf(n) IN
       IF pl.kind = "direct" THEN Canon(Tail(ns), [p EXCEPT ![0] = @ + n], Append(acc, [j \in 1..n |-> <<0, p[0] + j>>]))
       ELSE LET own(j) == CHOOSE t \in 1..Threads : pl.blocks[t][1] < j /\ j <= pl.blocks[t][2] IN
            Canon(Tail(ns), [s \in Streams |-> IF s = 0 THEN p[0] ELSE p[s] + pl.blocks[s][2] - pl.blocks[s][1]],
                  Append(acc, [j \in 1..n |-> <<own(j), p[own(j)] + j - pl.blocks[own(j)][1]>>]))
Reproducible == results = Canon([r \in 1..Len(results) |-> Len(results[r])], [s \in Streams |-> 0], <<>>)
(* the blocks cover each element exactly once *)
Covered == \A n \in 0..MaxSize : \A j \in 1..n : Cardinality({t \in 1..Threads : Blocks(n, Threads)[t][1] < j /\ j <= Blocks(n, Threads)[t][2]}) = 1
Ends == <>(Len(results) = Calls)
=============================================================================
