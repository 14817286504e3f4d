-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* Networks of flow tasks as functions of streams.  A task is [kind, in     *)
(* (keys), req (a key or ""), out (keys), group (0: none), items].  The     *)
(* tasks stand in order: each reads only what earlier ones write.           *)
(* A value is [t |-> "item", id, orig] or [t |-> "list", l].                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Item(id) == [t |-> "item", id |-> id, orig |-> TRUE]
ListV(q) == [t |-> "list", l |-> q]
RECURSIVE CopyV(_)
CopyV(v) == IF v.t = "item" THEN [v EXCEPT !.orig = FALSE] ELSE ListV([j \in 1..Len(v.l) |-> CopyV(v.l[j])])
LeastOf(S) == CHOOSE x \in S : \A y \in S : x <= y
(* one value to a single key, one element to each of several *)
Spread(T, v) == IF Len(T.out) = 1 THEN <<v>> ELSE v.l
Chunks(q, g) == [j \in 1..(Len(q) \div g) |-> SubSeq(q, (j - 1) * g + 1, j * g)]
ZipAll(ins) == [j \in 1..LeastOf({Len(ins[i]) : i \in 1..Len(ins)}) |-> [i \in 1..Len(ins) |-> ins[i][j]]]
(* what a task makes of its inputs: a sequence of emissions, one value per key *)
Emissions(T, ins, req) ==
  CASE T.kind = "source" -> [j \in 1..Len(T.items) |-> <<Item(T.items[j])>>]
    [] T.kind \in {"pass", "print"} -> [j \in 1..Len(ins[1]) |-> <<ins[1][j]>>]
    [] T.kind = "wait" -> IF req = <<>> THEN <<>> ELSE [j \in 1..Len(ins[1]) |-> <<ins[1][j]>>]
    [] T.kind = "copy" -> [j \in 1..Len(ins[1]) |-> <<CopyV(ins[1][j])>>]
    [] T.kind = "gather" -> LET z == ZipAll(ins) IN [j \in 1..Len(z) |-> Spread(T, ListV(z[j]))]
    [] T.kind = "accum" -> IF T.group = 0 THEN << Spread(T, ListV(ins[1])) >>
                           ELSE LET z == Chunks(ins[1], T.group) IN [j \in 1..Len(z) |-> Spread(T, ListV(z[j]))]
    [] T.kind \in {"delete", "collect"} -> <<>>
RECURSIVE Streams(_, _, _)
StreamOf(S, k) == S[CHOOSE j \in 1..Len(S) : S[j].k = k].s
InsOf(S, T) == [j \in 1..Len(T.in) |-> StreamOf(S, T.in[j])]
ReqOf(S, T) == IF T.req = "" THEN <<>> ELSE StreamOf(S, T.req)
Streams(P, i, S) ==
  IF i > Len(P) THEN S
  ELSE LET T == P[i]  e == Emissions(T, InsOf(S, T), ReqOf(S, T))
           new == [p \in 1..Len(T.out) |-> [k |-> T.out[p], s |-> [j \in 1..Len(e) |-> e[j][p]]]]
       IN Streams(P, i + 1, S \o new)
RunProgram(Q) == LET S == Streams(Q.tasks, 1, <<>>)
                 IN [got |-> [j \in 1..Len(Q.tasks) |-> IF Q.tasks[j].kind = "collect" THEN StreamOf(S, Q.tasks[j].in[1]) ELSE <<>>]]
=============================================================================
