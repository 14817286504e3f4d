------------------------------ MODULE LruCache ------------------------------
(***************************************************************************)
(* A cache of arrays with a budget of Max bytes.  Q: the entries, least     *)
(* recently used first, each [k, n (bytes), id (which array)].              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
RECURSIVE Used(_)
Used(q) == IF q = <<>> THEN 0 ELSE Head(q).n + Used(Tail(q))
Has(q, k) == \E j \in 1..Len(q) : q[j].k = k
At(q, k) == CHOOSE j \in 1..Len(q) : q[j].k = k
Without(q, k) == SelectSeq(q, LAMBDA e : e.k # k)
Touch(q, k) == Append(Without(q, k), q[At(q, k)])
(* a replaced entry gives its room to the new one (unless it had to go itself) *)
RECURSIVE RoomFor(_, _, _)
RoomFor(q, e, mx) == IF Used(Without(q, e.k)) + e.n <= mx THEN q ELSE RoomFor(Tail(q), e, mx)
Store(q, e, mx) ==
  IF e.n > mx THEN [ok |-> FALSE, q |-> q]
  ELSE [ok |-> TRUE, q |-> Append(Without(RoomFor(q, e, mx), e.k), e)]
Hit(id) == [ok |-> TRUE, id |-> id]
Miss == [ok |-> FALSE, id |-> 0]
Do(q, o, mx) ==
  CASE o.op = "set" -> IF o.bad THEN [r |-> Miss, q |-> q]             \* not an array
                       ELSE LET s == Store(q, [k |-> o.k, n |-> o.n, id |-> o.id], mx) IN [r |-> [ok |-> s.ok, id |-> 0], q |-> s.q]
    [] o.op = "lookup" -> IF Has(q, o.k) THEN [r |-> Hit(q[At(q, o.k)].id), q |-> Touch(q, o.k)] ELSE [r |-> Miss, q |-> q]
    [] o.op = "get" -> IF Has(q, o.k) THEN [r |-> Hit(q[At(q, o.k)].id), q |-> Touch(q, o.k)] ELSE [r |-> Hit(0), q |-> q]
    [] o.op = "has" -> [r |-> [ok |-> Has(q, o.k), id |-> 0], q |-> q]
    [] o.op = "del" -> IF Has(q, o.k) THEN [r |-> Hit(0), q |-> Without(q, o.k)] ELSE [r |-> Miss, q |-> q]
    [] o.op = "pop" -> IF Has(q, o.k) THEN [r |-> Hit(q[At(q, o.k)].id), q |-> Without(q, o.k)] ELSE [r |-> Miss, q |-> q]
    [] o.op = "popitem" -> IF q = <<>> THEN [r |-> Miss, q |-> q] ELSE [r |-> Hit(Head(q).id), q |-> Tail(q)]
    [] o.op = "clear" -> [r |-> Hit(0), q |-> <<>>]
RECURSIVE Hist(_, _, _, _)
Hist(q, ops, mx, acc) ==
  IF ops = <<>> THEN acc
  ELSE LET d == Do(q, Head(ops), mx) IN
       Hist(d.q, Tail(ops), mx, Append(acc, [r |-> d.r, held |-> [j \in 1..Len(d.q) |-> d.q[j].k], used |-> Used(d.q)]))
RunProgram(P) == Hist(<<>>, P.ops, P.max, <<>>)
=============================================================================
