------------------------------ MODULE ContTask ------------------------------
(***************************************************************************)
(* A container task: what becomes of the results of process and of         *)
(* process_finish.  Q = [cfg, conts, steps, fin]:                           *)
(*  conts  : containers [attrs (seq of [k, v]), bad (has NaN or Inf),       *)
(*           comp (how it is stored), hist (number of history entries)]     *)
(*  steps  : calls of process [ins (0: no container, else its number),      *)
(*           res "none"|"out"|"stop", outs (numbers), done (the last one)]  *)
(*  fin    : [res "absent"|"none"|"out", outs]                              *)
(*  cfg    : [save (seq or one), name (seq of formats), tag, attrs, check,  *)
(*           skip, dump, comp, root, keys, task]                            *)
(* A format is a sequence of [lit, s]: literal text or the name of a value.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Text(v) == IF v.t = "int" THEN ToString(v.n) ELSE v.s
StrV(s) == [t |-> "str", s |-> s]
HasA(a, k) == \E j \in 1..Len(a) : a[j].k = k
GetA(a, k) == a[CHOOSE j \in 1..Len(a) : a[j].k = k].v
PutA(a, k, v) == IF HasA(a, k) THEN [a EXCEPT ![CHOOSE j \in 1..Len(a) : a[j].k = k].v = v] ELSE Append(a, [k |-> k, v |-> v])
Pick(q, ii) == IF Len(q) = 1 THEN q[1] ELSE q[ii]
(* an untagged output takes the tag of the first input, or else the count *)
TagText(a, n) == IF HasA(a, "tag") THEN Text(GetA(a, "tag"))
                 ELSE IF HasA(a, "input_tags") THEN LET q == GetA(a, "input_tags").l IN
                      IF Len(q) > 0 THEN IF q[1] # "" THEN q[1] ELSE ToString(n) ELSE ToString(n)
                 ELSE ToString(n)
Known(cfg, a, nm) == nm \in {"tag", "count", "key", "task", "output_root"} \/ HasA(a, nm)
Lookup(cfg, a, n, ii, nm) ==
  CASE nm = "tag" -> TagText(a, n) [] nm = "count" -> ToString(n) [] nm = "task" -> cfg.task
    [] nm = "key" -> (IF cfg.keys = <<>> THEN "" ELSE cfg.keys[ii]) [] nm = "output_root" -> cfg.root [] OTHER -> Text(GetA(a, nm))
FmtOK(cfg, a, f) == \A j \in 1..Len(f) : f[j].lit \/ Known(cfg, a, f[j].s)
RECURSIVE Fmt(_, _, _, _, _)
Fmt(cfg, a, n, ii, f) == IF f = <<>> THEN "" ELSE
  (IF Head(f).lit THEN Head(f).s ELSE Lookup(cfg, a, n, ii, Head(f).s)) \o Fmt(cfg, a, n, ii, Tail(f))
RECURSIVE SetAll(_, _, _, _, _, _)
SetAll(cfg, old, n, ii, todo, a) == IF todo = <<>> THEN a ELSE
  LET e == Head(todo) IN
  SetAll(cfg, old, n, ii, Tail(todo), PutA(a, e.k, IF e.isfmt THEN StrV(Fmt(cfg, old, n, ii, e.f)) ELSE e.v))

InitState(Q) == [conts |-> Q.conts, count |-> 0, out |-> <<>>, files |-> <<>>, err |-> FALSE, calls |-> <<>>]
FileAt(name, id, c) == [name |-> name, id |-> id, attrs |-> c.attrs, comp |-> c.comp, hist |-> c.hist]
Write(s, name, id) == [s EXCEPT !.files = Append(SelectSeq(@, LAMBDA e : e.name # name), FileAt(name, id, s.conts[id]))]
Fail(s) == [s EXCEPT !.err = TRUE]
(* one output: attributes and tag, screening, saving; em: what is passed on so far (0: skipped) *)
One(Q, s, id, ii, em) ==
  LET cfg == Q.cfg  a == s.conts[id].attrs
      okf == FmtOK(cfg, a, cfg.tag) /\ \A j \in 1..Len(cfg.attrs) : cfg.attrs[j].isfmt /\ cfg.attrs[j].k # "tag" => FmtOK(cfg, a, cfg.attrs[j].f)
      todo == SelectSeq(cfg.attrs, LAMBDA e : e.k # "tag") \o <<[k |-> "tag", isfmt |-> TRUE, f |-> cfg.tag]>>
      s1 == [s EXCEPT !.conts[id].attrs = SetAll(cfg, a, s.count, ii, todo, a)]
      found == cfg.check /\ s.conts[id].bad
      a1 == s1.conts[id].attrs
      s2 == IF found /\ cfg.dump THEN Write(s1, "nandump_" \o cfg.task \o "_" \o Text(GetA(a1, "tag")) \o ".h5", id) ELSE s1
      s3 == IF cfg.comp = "spec" THEN s2 ELSE [s2 EXCEPT !.conts[id].comp = cfg.comp]
      nm == Pick(cfg.name, ii)
  IN  IF s.err THEN [s |-> s, em |-> em]
      ELSE IF ~okf THEN [s |-> Fail(s), em |-> em]
      ELSE IF found /\ cfg.skip THEN [s |-> s2, em |-> Append(em, 0)]
      ELSE IF ~Pick(cfg.save, ii) THEN [s |-> s3, em |-> Append(em, id)]
      ELSE IF ~FmtOK(cfg, a1, nm) THEN [s |-> Fail(s3), em |-> em]
      ELSE [s |-> Write([s3 EXCEPT !.conts[id].hist = @ + 1], Fmt(cfg, a1, s.count, ii, nm), id), em |-> Append(em, id)]
RECURSIVE Outputs(_, _, _, _, _)
Outputs(Q, s, outs, ii, em) == IF ii > Len(outs) THEN [s |-> s, em |-> em]
                               ELSE LET r == One(Q, s, outs[ii], ii, em) IN Outputs(Q, r.s, outs, ii + 1, r.em)
Deliver(Q, s, em) ==      \* a single skipped output is nothing; of several each has its place
  IF s.err \/ Q.cfg.keys = <<>> THEN s ELSE IF Len(em) = 1 /\ em[1] = 0 THEN s ELSE [s EXCEPT !.out = Append(@, em)]
TagOf(s, c) == IF c = 0 THEN "" ELSE IF HasA(s.conts[c].attrs, "tag") THEN Text(GetA(s.conts[c].attrs, "tag")) ELSE ""
RECURSIVE MarkIns(_, _, _)
MarkIns(s, outs, tags) == IF outs = <<>> THEN s ELSE
  MarkIns([s EXCEPT !.conts[Head(outs)].attrs = PutA(@, "input_tags", [t |-> "list", l |-> tags])], Tail(outs), tags)
Step(Q, s, st) ==
  LET s0 == [s EXCEPT !.calls = Append(@, st.ins)]
      tags == [j \in 1..Len(st.ins) |-> TagOf(s, st.ins[j])]
      r == Outputs(Q, MarkIns(s0, st.outs, tags), st.outs, 1, <<>>)
  IN  IF st.res # "out" THEN s0
      ELSE LET d == Deliver(Q, r.s, r.em) IN [d EXCEPT !.count = IF d.err THEN @ ELSE @ + 1]
RECURSIVE Steps(_, _, _)
Steps(Q, s, k) == IF k > Len(Q.steps) \/ s.err THEN s
                  ELSE IF Q.steps[k].res = "stop" \/ Q.steps[k].done THEN Step(Q, s, Q.steps[k])
                  ELSE Steps(Q, Step(Q, s, Q.steps[k]), k + 1)
Finish(Q, s) == IF s.err \/ Q.fin.res # "out" THEN s
                ELSE LET r == Outputs(Q, s, Q.fin.outs, 1, <<>>) IN Deliver(Q, r.s, r.em)
RunProgram(Q) == LET s == Finish(Q, Steps(Q, InitState(Q), 1))
                 IN [out |-> s.out, files |-> s.files, err |-> s.err, calls |-> s.calls, conts |-> [j \in 1..Len(s.conts) |-> s.conts[j].attrs]]
=============================================================================
