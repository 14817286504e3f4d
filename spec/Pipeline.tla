------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The caput pipeline manager: task life cycle, product routing and task   *)
(* choice.  A program P is a record                                        *)
(*   tasks : sequence of [in, req, out : sequences of keys, aslist, same,  *)
(*           base, limit (-1 = none), setup, next (script), after, finish] *)
(*   skip  : keys that the manager's key pattern does not match            *)
(* Scripts say what the task's own code returns at each call:              *)
(*   "none" nothing, "ok" one product per output key, "holes" the same     *)
(*   with None at every second position, "nones" with None at all of them, *)
(*   "bad" the wrong number of products, "stop" raises stop-iteration.     *)
(* Products are strings <task>.<stage>.<call>.<position>.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NT(P) == Len(P.tasks)
Skipped(P, k) == \E j \in 1..Len(P.skip) : P.skip[j] = k
BIG == 1000000000

Prod(i, stage, n, pos) == ToString(i) \o "." \o stage \o "." \o ToString(n) \o "." \o ToString(pos)
(* a task with `same` returns one and the same object each time *)
Products(P, i, stage, n, ret) == [pos \in 1..Len(P.tasks[i].out) |->
   IF Len(P.tasks[i].out) > 1 /\ (ret = "nones" \/ (ret = "holes" /\ (n + pos) % 2 = 0)) THEN "None"
   ELSE IF P.tasks[i].same THEN Prod(i, "same", 0, 0) ELSE Prod(i, stage, n, pos)]

InitTask(T) == [st |-> "setup", req |-> [j \in 1..Len(T.req) |-> ""], reqopen |-> TRUE,
                q |-> [j \in 1..Len(T.in) |-> <<>>], inopen |-> TRUE, calls |-> 0, iters |-> 0]
InitState(P) == [t |-> [i \in 1..NT(P) |-> InitTask(P.tasks[i])], head |-> 1, idx |-> 1,
                 log |-> <<>>, prodlog |-> <<>>, err |-> ""]

Alive(s, i) == s.t[i].st # "gone"
Done(P, s) == \A i \in 1..NT(P) : ~Alive(s, i)
Running(P, s) == s.err = "" /\ ~Done(P, s)

ReqReady(s, i) == \A j \in 1..Len(s.t[i].req) : s.t[i].req[j] # ""
InReady(s, i) == \A j \in 1..Len(s.t[i].q) : s.t[i].q[j] # <<>>

(* Can the task do something right now?  A task without inputs is never    *)
(* counted in its `next` stage: it runs only as the fallback.              *)
Available(P, s, i) ==
  CASE s.t[i].st = "setup" -> ReqReady(s, i)
    [] s.t[i].st = "next"  -> Len(s.t[i].q) > 0 /\ InReady(s, i)
    [] s.t[i].st \in {"finish", "raise"} -> TRUE
    [] OTHER -> FALSE

MinQ(s, i) == LET L == {Len(s.t[i].q[j]) : j \in 1..Len(s.t[i].q)}
              IN IF L = {} THEN 1 ELSE CHOOSE x \in L : \A y \in L : x <= y
Priority(P, s, i) ==
  LET T == P.tasks[i] IN
  T.base + (CASE s.t[i].st = "setup" -> (IF ReqReady(s, i) THEN 1 ELSE 0)
              [] s.t[i].st = "next"  -> (Len(T.in) - Len(T.out)) * MinQ(s, i)
              [] OTHER -> BIG)

FirstAlive(P, s) == CHOOSE i \in 1..NT(P) : Alive(s, i) /\ \A j \in 1..(i-1) : ~Alive(s, j)

(* position of i in the cyclic order that starts at the current task *)
Cyc(P, s, i) == (i - s.idx + NT(P)) % NT(P)
Better(P, s, i, j) ==   \* i is chosen over j
  LET pi == Priority(P, s, i)  pj == Priority(P, s, j)
      bi == P.tasks[i].base    bj == P.tasks[j].base
  IN  pi > pj \/ (pi = pj /\ (bi > bj \/ (bi = bj /\ Cyc(P, s, i) < Cyc(P, s, j))))
AvailSet(P, s) == {i \in 1..NT(P) : Available(P, s, i)}
Choice(P, s) ==
  LET A == AvailSet(P, s)
  IN  IF A = {} THEN FirstAlive(P, s)
      ELSE CHOOSE i \in A : \A j \in A \ {i} : Better(P, s, i, j)

(* ------------------------------- routing ------------------------------- *)
RECURSIVE PutIn(_, _, _, _, _)
PutIn(T, ts, key, prod, j) ==      \* into the `in` queues of one task
  IF j > Len(T.in) THEN ts
  ELSE PutIn(T, IF T.in[j] = key THEN [ts EXCEPT !.q[j] = Append(@, prod)] ELSE ts, key, prod, j + 1)
RECURSIVE PutReq(_, _, _, _, _)
PutReq(T, ts, key, prod, j) ==
  IF j > Len(T.req) THEN ts
  ELSE PutReq(T, IF T.req[j] = key THEN [ts EXCEPT !.req[j] = prod] ELSE ts, key, prod, j + 1)
Wants(K, key) == \E j \in 1..Len(K) : K[j] = key

RouteOne(P, s, key, prod, i) ==    \* one product to one task
  LET T == P.tasks[i]  ts == s.t[i]
      reqBad == Wants(T.req, key) /\ (~ts.reqopen \/ \E j \in 1..Len(T.req) : T.req[j] = key /\ ts.req[j] # "")
      inBad  == Wants(T.in, key) /\ ~ts.inopen
  IN  IF ~Alive(s, i) \/ s.err # "" THEN s
      ELSE IF reqBad \/ inBad THEN [s EXCEPT !.err = "PipelineRuntimeError"]
      ELSE [s EXCEPT !.t[i] = PutIn(T, PutReq(T, ts, key, prod, 1), key, prod, 1)]

RECURSIVE RouteAll(_, _, _, _, _)
RouteAll(P, s, key, prod, i) == IF i > NT(P) THEN s
                                ELSE RouteAll(P, RouteOne(P, s, key, prod, i), key, prod, i + 1)
RECURSIVE RouteKeys(_, _, _, _, _)
RouteKeys(P, s, i, prods, pos) ==
  IF pos > Len(P.tasks[i].out) THEN s
  ELSE LET key == P.tasks[i].out[pos] IN
       RouteKeys(P, IF Skipped(P, key) THEN s ELSE RouteAll(P, [s EXCEPT !.prodlog = Append(@, [key |-> key, p |-> prods[pos]])],
                                                            key, prods[pos], 1), i, prods, pos + 1)
Something == {"ok", "bad", "holes", "nones"}
Emit(P, s, i, stage, n, ret) ==
  IF ret \notin Something \/ Len(P.tasks[i].out) = 0 THEN s
  ELSE IF ret = "bad" /\ Len(P.tasks[i].out) > 1 THEN [s EXCEPT !.err = "PipelineRuntimeError"]
  ELSE RouteKeys(P, s, i, Products(P, i, stage, n, ret), 1)

(* ------------------------------ life cycle ------------------------------ *)
Log(s, i, stage, args) == [s EXCEPT !.log = Append(@, [t |-> i, stage |-> stage, args |-> args])]
CloseReq(s, i, st) == [s EXCEPT !.t[i].st = st, !.t[i].reqopen = FALSE]
CloseIn(s, i)      == [s EXCEPT !.t[i].st = "finish", !.t[i].inopen = FALSE]

NextRet(P, s, i) == LET T == P.tasks[i]  n == s.t[i].calls + 1
                    IN IF n <= Len(T.next) THEN T.next[n] ELSE T.after

DoSetup(P, s, i) ==
  Emit(P, CloseReq(Log(s, i, "setup", s.t[i].req), i, "next"), i, "setup", 1, P.tasks[i].setup)

DoNext(P, s, i) ==
  LET T == P.tasks[i]
      args == [j \in 1..Len(T.in) |-> Head(s.t[i].q[j])]
      ret == NextRet(P, s, i)
      n == s.t[i].calls + 1
      s1 == [Log(s, i, "next", args) EXCEPT !.t[i].q = [j \in 1..Len(T.in) |-> Tail(s.t[i].q[j])],
                                            !.t[i].calls = n]
      s2 == IF ret \in Something THEN [s1 EXCEPT !.t[i].iters = @ + 1] ELSE s1
      hit == ret \in Something /\ T.limit >= 0 /\ s2.t[i].iters >= T.limit
      s3 == IF ret = "stop" \/ hit THEN CloseIn(s2, i) ELSE s2
  IN  Emit(P, s3, i, "next", n, ret)

DoFinish(P, s, i) ==
  Emit(P, [Log(s, i, "finish", <<>>) EXCEPT !.t[i].st = "raise"], i, "finish", 1, P.tasks[i].finish)

DoRemove(P, s, i) ==
  LET s1 == [s EXCEPT !.t[i].st = "gone"]
  IN  IF Done(P, s1) THEN s1 ELSE [s1 EXCEPT !.head = FirstAlive(P, s1)]

DoStarve(P, s, i) ==    \* first unfinished task, nothing can ever arrive
  IF s.t[i].st = "setup" THEN CloseReq(s, i, "finish") ELSE CloseIn(s, i)

RunTask(P, s0, i) ==
  LET s == [s0 EXCEPT !.idx = i] IN
  CASE s.t[i].st = "setup"  -> IF ReqReady(s, i) THEN DoSetup(P, s, i) ELSE DoStarve(P, s, i)
    [] s.t[i].st = "next"   -> IF InReady(s, i) THEN DoNext(P, s, i) ELSE DoStarve(P, s, i)
    [] s.t[i].st = "finish" -> DoFinish(P, s, i)
    [] s.t[i].st = "raise"  -> DoRemove(P, s, i)

(* Which tasks may legally run, whatever the priorities: a task that only  *)
(* has its end to go through goes first, so that it takes no more products *)
Ending(P, s) == {i \in 1..NT(P) : s.t[i].st \in {"finish", "raise"}}
MayRun(P, s) == IF Ending(P, s) # {} THEN Ending(P, s)
                ELSE IF AvailSet(P, s) = {} THEN {FirstAlive(P, s)} ELSE AvailSet(P, s)

RECURSIVE RunAll(_, _)
RunAll(P, s) == IF Running(P, s) THEN RunAll(P, RunTask(P, s, Choice(P, s))) ELSE s

RunProgram(P) == LET s == RunAll(P, InitState(P))
                 IN [log |-> s.log, end |-> IF s.err = "" THEN "ok" ELSE s.err]

(* -------------------- properties of a state of the model ---------------- *)
Calls(s, i, stage) == SelectSeq(s.log, LAMBDA e : e.t = i /\ e.stage = stage)
Received(s, i, j) == [n \in 1..Len(Calls(s, i, "next")) |-> Calls(s, i, "next")[n].args[j]]
ProducedFor(s, key) == LET F == SelectSeq(s.prodlog, LAMBDA e : e.key = key)
                       IN [n \in 1..Len(F) |-> F[n].p]
(* every slot has received a prefix of what was produced for its key, the  *)
(* rest is queued, nothing is lost or duplicated                           *)
ExactlyOnceFIFO(P, s) ==
  s.err = "" => \A i \in 1..NT(P) : Alive(s, i) /\ s.t[i].inopen =>
     \A j \in 1..Len(P.tasks[i].in) :
        Received(s, i, j) \o s.t[i].q[j] = ProducedFor(s, P.tasks[i].in[j])
PrefixAlways(P, s) ==
  \A i \in 1..NT(P) : \A j \in 1..Len(P.tasks[i].in) :
        IsPrefix(Received(s, i, j), ProducedFor(s, P.tasks[i].in[j]))
LifeCycle(P, s) ==
  \A i \in 1..NT(P) :
    LET C == SelectSeq(s.log, LAMBDA e : e.t = i)
        ns == Cardinality({k \in 1..Len(C) : C[k].stage = "setup"})
        nf == Cardinality({k \in 1..Len(C) : C[k].stage = "finish"})
    IN  /\ ns <= 1 /\ nf <= 1
        /\ \A k \in 1..Len(C) : C[k].stage = "setup" => k = 1 /\ \A a \in 1..Len(C[k].args) : C[k].args[a] # ""
        /\ \A k \in 1..Len(C) : C[k].stage = "next" => ns = 1
        /\ \A k \in 1..Len(C) : C[k].stage = "finish" => k = Len(C)
        /\ s.t[i].st = "gone" => nf = 1

(* --------------- judging a recorded run under free scheduling ----------- *)
(* R = [prog, events, end]: events as in log; the verdict is a sequence of *)
(* [prop, clause, at] (empty: accepted).  The model state follows the      *)
(* observed calls, so that one deviation does not hide the next.           *)
Bad(v, prop, clause, at) == Append(v, [prop |-> prop, clause |-> clause, at |-> at])
EarlierDone(P, s, i) == \A j \in 1..(i-1) : s.t[j].st \in {"raise", "gone"}

DropArgs(qs, args) ==   \* follow the implementation: drop what it consumed
  [j \in 1..Len(qs) |->
     IF j > Len(args) \/ qs[j] = <<>> THEN qs[j]
     ELSE IF Head(qs[j]) = args[j] THEN Tail(qs[j])
     ELSE SelectSeq(qs[j], LAMBDA x : x # args[j])]

JudgeCall(P, s, v, e, at) ==
  LET i == e.t IN
  IF s.err # "" THEN [s |-> s, v |-> Bad(v, "C01", "call after a routing error should have ended the run", at)]
  ELSE IF e.stage = "setup" THEN
    LET v1 == IF s.t[i].st # "setup" THEN Bad(v, "C02", "setup called twice or late", at)
              ELSE IF ~ReqReady(s, i) THEN Bad(v, "C02", "setup called before all required products", at) ELSE v
        v2 == IF e.args # s.t[i].req THEN Bad(v1, "C01", "setup got the wrong required products", at) ELSE v1
    IN [s |-> [DoSetup(P, s, i) EXCEPT !.idx = i], v |-> v2]
  ELSE IF e.stage = "next" THEN
    LET T == P.tasks[i]
        v1 == IF s.t[i].st # "next" THEN Bad(v, "C02", "next called in stage " \o s.t[i].st, at) ELSE v
        ready == InReady(s, i)
        v2 == IF Len(e.args) # Len(T.in) THEN Bad(v1, "C01", "next got the wrong number of arguments", at)
              ELSE IF ~ready THEN Bad(v1, "C01", "next called without a queued product on every input", at)
              ELSE IF e.args # [j \in 1..Len(T.in) |-> Head(s.t[i].q[j])]
                   THEN Bad(v1, "C01", "next got a product out of order, repeated or foreign", at) ELSE v1
        okargs == ready /\ Len(e.args) = Len(T.in) /\ e.args = [j \in 1..Len(T.in) |-> Head(s.t[i].q[j])]
        fix == IF okargs THEN s
               ELSE [s EXCEPT !.t[i].q = [j \in 1..Len(T.in) |->
                        <<"?">> \o (DropArgs(s.t[i].q, e.args))[j]]]
    IN [s |-> DoNext(P, fix, i), v |-> v2]
  ELSE
    LET v1 == IF s.t[i].st \in {"raise", "gone"} THEN Bad(v, "C02", "finish called twice", at)
              ELSE IF s.t[i].st = "finish" THEN v
              ELSE IF s.t[i].st = "next" /\ InReady(s, i) /\ Len(s.t[i].q) = 0
                   THEN Bad(v, "C02", "task without inputs finished before it stopped", at)
              ELSE IF ~EarlierDone(P, s, i) THEN Bad(v, "C02", "starved task finished before its predecessors", at)
              ELSE IF s.t[i].st = "next" /\ InReady(s, i)
                   THEN Bad(Bad(v, "C02", "finished although inputs were queued", at),
                            "C01", "queued products never delivered", at)
              ELSE IF s.t[i].st = "setup" /\ ReqReady(s, i)
                   THEN Bad(v, "C02", "finished without setup although its requirements were there", at)
              ELSE v
        s1 == IF s.t[i].st = "setup" THEN CloseReq(s, i, "finish")
              ELSE IF s.t[i].st = "next" THEN CloseIn(s, i) ELSE s
    IN [s |-> [DoFinish(P, [s1 EXCEPT !.t[i].st = "finish"], i) EXCEPT !.t[i].st = "gone"], v |-> v1]

RECURSIVE JudgeFrom(_, _, _, _)
JudgeFrom(R, s, v, k) ==
  IF k > Len(R.events)
  THEN IF s.err # "" THEN IF R.end = s.err THEN v
                          ELSE Bad(v, "C01", "product that cannot be taken did not raise: ended " \o R.end, k)
       ELSE IF R.end # "ok" THEN Bad(Bad(v, "C02", "run ended with " \o R.end, k), "C01", "run ended with " \o R.end, k)
       ELSE IF \E i \in 1..NT(R.prog) : s.t[i].st \notin {"raise", "gone"}
            THEN Bad(v, "C02", "run returned before every task finished", k)
       ELSE v
  ELSE LET r == JudgeCall(R.prog, s, v, R.events[k], k) IN JudgeFrom(R, r.s, r.v, k + 1)

JudgeRun(R) == [v |-> JudgeFrom(R, InitState(R.prog), <<>>, 1)]
=============================================================================
