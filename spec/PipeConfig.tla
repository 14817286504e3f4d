----------------------------- MODULE PipeConfig -----------------------------
(***************************************************************************)
(* Which pipeline documents are accepted, and the parameters the tasks of  *)
(* an accepted one get.  Q = [classes, doc]; a task class is a Config class *)
(* with minreq/maxreq/minin/maxin (max -1: any number) and a refuses flag   *)
(* (its own validation fails).  doc = [pipe, tasks, sections].              *)
(***************************************************************************)
EXTENDS Config
RECURSIVE Flat(_)
Flat(qq) == IF qq = <<>> THEN <<>> ELSE Head(qq) \o Flat(Tail(qq))
(* a key list [k |-> "absent"|"null"|"one"|"list", keys], a key [str, v] *)
KeysOf(f) == IF f.k \in {"absent", "null"} THEN <<>> ELSE f.keys
Outs(D) == Flat([j \in 1..Len(D.tasks) |-> IF D.tasks[j].ismap THEN KeysOf(D.tasks[j].out) ELSE <<>>])
KeyFields(t) == <<t.in, t.out, t.req>>
SectionOf(D, nm) == {j \in 1..Len(D.sections) : D.sections[j].name = nm}
Params(D, t) == CASE t.params.k = "absent" -> <<>>
                  [] t.params.k = "inline" -> t.params.inline
                  [] t.params.k = "names" -> Flat([j \in 1..Len(t.params.names) |->
                       LET s == SectionOf(D, t.params.names[j]) IN IF s = {} THEN <<>> ELSE D.sections[CHOOSE x \in s : TRUE].cf])
TaskRead(D, t) == [cf |-> Params(D, t), strict |-> TRUE, allow |-> <<"versions", "pipeline_config">>, defaults |-> TRUE]
Fits(n, lo, hi) == n >= lo /\ (hi >= 0 => n <= hi)

(* the faults of the document as a whole, and of one task entry *)
NotString(q) == \E j \in 1..Len(q) : ~q[j].str
DocFaults(D) ==
  (IF D.pipe # "ok" THEN {"pipeline"} ELSE {}) \cup
  (IF \E j \in 1..Len(D.tasks) : ~D.tasks[j].ismap THEN {"entry"} ELSE {}) \cup
  (IF \E i, j \in 1..Len(Outs(D)) : i # j /\ Outs(D)[i] = Outs(D)[j] THEN {"duplicate"} ELSE {})
Strings(q) == {q[j].v : j \in {x \in 1..Len(q) : q[x].str}}
TaskFaults(C, D, t) ==
  IF ~t.ismap THEN {} ELSE
  (IF ~(Strings(KeysOf(t.in)) \cup Strings(KeysOf(t.req))) \subseteq Strings(Outs(D)) THEN {"dangling"} ELSE {}) \cup
  (IF \E j \in 1..3 : NotString(KeysOf(KeyFields(t)[j])) THEN {"keytype"} ELSE {}) \cup
  (IF t.extra THEN {"extra"} ELSE {}) \cup
  (IF t.type.k # "task" THEN {"type"} ELSE
   LET c == t.type.c  I == New(c) IN
   (IF t.params.k = "names" THEN IF \E j \in 1..Len(t.params.names) : SectionOf(D, t.params.names[j]) = {} THEN {"section"} ELSE
                                 IF \E j \in 1..Len(t.params.names) : \E x \in SectionOf(D, t.params.names[j]) : ~D.sections[x].ismap THEN {"section"} ELSE {}
    ELSE {}) \cup
   (IF ~ReadOK(C, I, TaskRead(D, t)) THEN {"params"} ELSE
    IF Value(C, Configured(C, I, TaskRead(D, t)), "broadcast_inputs") = Bl(TRUE) THEN {"broadcast"} ELSE {}) \cup
   (IF ~Fits(Len(KeysOf(t.in)), C[c].minin, C[c].maxin) THEN {"nin"} ELSE {}) \cup
   (IF ~Fits(Len(KeysOf(t.req)), C[c].minreq, C[c].maxreq) THEN {"nreq"} ELSE {}) \cup
   (IF C[c].refuses THEN {"validate"} ELSE {}))
Faults(C, D) == DocFaults(D) \cup UNION {TaskFaults(C, D, D.tasks[j]) : j \in 1..Len(D.tasks)}
Accepts(C, D) == Faults(C, D) = {}

RunProgram(Q) ==
  LET D == Q.doc  C == Q.classes IN
  IF ~Accepts(C, D) THEN [ok |-> FALSE, faults |-> SetToSortSeq(Faults(C, D), LAMBDA a, b : TRUE), shown |-> <<>>, after |-> <<>>]
  ELSE LET Is == [j \in 1..Len(D.tasks) |-> Configured(C, New(D.tasks[j].type.c), TaskRead(D, D.tasks[j]))]
           ex == [op |-> "extend", i |-> Q.ext.i, name |-> Q.ext.name]
       IN  [ok |-> TRUE, faults |-> <<>>, shown |-> Shown(C, Is),
            after |-> IF Q.ext.i = 0 \/ Q.ext.i > Len(Is) THEN Shown(C, Is)
                      ELSE IF Q.ext.name \notin Names(C, Is[Q.ext.i].c) THEN Shown(C, Is) ELSE Shown(C, Do(C, Is, ex).is)]
=============================================================================
