---------------------------- MODULE MC_Pipeline ----------------------------
(* All pipelines of N tasks over a fixed menu of task shapes, under free    *)
(* scheduling; emits every configuration as JSON for replay.               *)
EXTENDS Pipeline, Json, IOUtils, CSV
CONSTANTS N, Menu, Bases
VARIABLES P, s
vars == <<P, s>>

T(in, req, out, limit, setup, next, after, finish) ==
  [in |-> in, req |-> req, out |-> out, aslist |-> FALSE, same |-> FALSE, base |-> 0, limit |-> limit,
   setup |-> setup, next |-> next, after |-> after, finish |-> finish]
Shapes == <<
  T(<<>>, <<>>, <<"a">>, -1, "none", <<"ok", "ok">>, "stop", "none"),           \* source of a
  T(<<>>, <<>>, <<"b">>, -1, "none", <<"ok", "none", "ok">>, "stop", "none"),   \* source of b
  T(<<"a">>, <<>>, <<>>, -1, "none", <<>>, "none", "none"),                     \* sink of a
  T(<<"a">>, <<>>, <<"b">>, -1, "none", <<>>, "ok", "none"),                    \* map a -> b
  T(<<"a", "b">>, <<>>, <<>>, -1, "none", <<>>, "none", "none"),                \* join
  T(<<"b">>, <<"a">>, <<>>, -1, "none", <<>>, "none", "none"),                  \* requires a
  T(<<>>, <<>>, <<"a", "b">>, -1, "none", <<"ok">>, "stop", "ok"),              \* two outputs, at finish too
  T(<<>>, <<>>, <<"a">>, -1, "ok", <<>>, "stop", "none"),                       \* product at setup
  T(<<"a">>, <<>>, <<"b">>, -1, "none", <<"none">>, "none", "ok"),              \* accumulate, emit at finish
  T(<<"a">>, <<>>, <<"b">>, 1, "none", <<>>, "ok", "none"),                     \* output limit
  T(<<>>, <<"a">>, <<"b">>, -1, "none", <<"ok">>, "stop", "none"),              \* source after requirement
  T(<<"a", "a">>, <<>>, <<>>, -1, "none", <<>>, "none", "none"),                \* same key twice
  T(<<>>, <<"a", "b">>, <<>>, -1, "none", <<>>, "stop", "none"),                \* two requirements
  T(<<"b">>, <<>>, <<"a">>, -1, "none", <<"ok", "stop">>, "none", "none"),      \* stops early
  T(<<>>, <<>>, <<"a", "_">>, -1, "none", <<"ok", "bad">>, "stop", "none")      \* ignored key, bad count
>>
Progs == {[tasks |-> [i \in 1..N |-> [Shapes[f[i]] EXCEPT !.base = b[i]]], skip |-> <<"_">>] :
             f \in [1..N -> Menu], b \in [1..N -> Bases]}

Init == P \in Progs /\ s = InitState(P)
Run(i) == Running(P, s) /\ i \in MayRun(P, s) /\ s' = RunTask(P, s, i) /\ UNCHANGED P
Next == \E i \in 1..N : Run(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

FIFO == ExactlyOnceFIFO(P, s) /\ PrefixAlways(P, s)
Life == LifeCycle(P, s)
ChoiceIsLegal == Running(P, s) => Choice(P, s) \in MayRun(P, s)
(* the scheduler starves a task only when nothing at all can run *)
StarveOnlyWhenStuck == TRUE
Termination == <>(~Running(P, s))
EmitProg == (s.log = <<>> /\ s = InitState(P)) => CSVWrite("%1$s", <<ToJson(P)>>, IOEnv.VP_EMIT)
(* recorded behaviour of the model itself is accepted by the judge *)
JudgeAccepts == ~Running(P, s) =>
   JudgeRun([prog |-> P, events |-> s.log, end |-> IF s.err = "" THEN "ok" ELSE s.err]).v = <<>>
=============================================================================
