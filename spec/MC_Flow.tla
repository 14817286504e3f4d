------------------------------- MODULE MC_Flow ------------------------------
(* The tasks take turns in any order: whatever the schedule, what is       *)
(* collected is a prefix of the stream, and all of it at the end.           *)
EXTENDS Flow
CONSTANTS Which
VARIABLES prog, q, held, ended, got, reqs
(* q[i][j]: queue of input j of task i; held[i]: what accumulates; reqs[i]: products for the requirement; got: emissions consumed of sources *)
vars == <<prog, q, held, ended, got, reqs>>
Src(it, k) == [kind |-> "source", in |-> <<>>, req |-> "", out |-> <<k>>, group |-> 0, items |-> it]
Tk(kind, in, out, req, g) == [kind |-> kind, in |-> in, req |-> req, out |-> out, group |-> g, items |-> <<>>]
Progs ==
  << << Src(<<1, 2, 3>>, "a"), Tk("pass", <<"a">>, <<"b">>, "", 0), Tk("accum", <<"a">>, <<"c">>, "", 2), Tk("collect", <<"b">>, <<>>, "", 0), Tk("collect", <<"c">>, <<>>, "", 0) >>,
     << Src(<<1, 2>>, "a"), Tk("accum", <<"a">>, <<"r">>, "", 0), Src(<<3, 4>>, "b"), Tk("wait", <<"b">>, <<"c">>, "r", 0), Tk("collect", <<"c">>, <<>>, "", 0) >>,
     << Src(<<1, 2, 3>>, "a"), Src(<<4, 5>>, "b"), Tk("gather", <<"a", "b">>, <<"c">>, "", 0), Tk("copy", <<"c">>, <<"d">>, "", 0), Tk("collect", <<"d">>, <<>>, "", 0) >>,
     << Src(<<1, 2, 3, 4>>, "a"), Tk("accum", <<"a">>, <<"x", "y">>, "", 2), Tk("gather", <<"y", "x">>, <<"c">>, "", 0), Tk("collect", <<"c">>, <<>>, "", 0), Tk("delete", <<"x">>, <<>>, "", 0) >>,
     << Src(<<>>, "a"), Tk("accum", <<"a">>, <<"c">>, "", 0), Tk("collect", <<"c">>, <<>>, "", 0), Src(<<1>>, "b"), Tk("wait", <<"b">>, <<"d">>, "a", 0), Tk("collect", <<"d">>, <<>>, "", 0) >> >>
N == Len(prog)
Init == /\ prog \in {Progs[j] : j \in Which}
        /\ q = [i \in 1..Len(prog) |-> [j \in 1..Len(prog[i].in) |-> <<>>]]
        /\ held = [i \in 1..Len(prog) |-> <<>>] /\ ended = [i \in 1..Len(prog) |-> FALSE]
        /\ got = [i \in 1..Len(prog) |-> 0] /\ reqs = [i \in 1..Len(prog) |-> <<>>]
(* put emission e of task i into the queues that read its keys *)
Put(qq, i, e) == [m \in 1..N |-> [j \in 1..Len(prog[m].in) |->
    IF \E p \in 1..Len(prog[i].out) : prog[i].out[p] = prog[m].in[j]
    THEN Append(qq[m][j], e[CHOOSE p \in 1..Len(prog[i].out) : prog[i].out[p] = prog[m].in[j]]) ELSE qq[m][j]]]
PutReq(i, e) == [m \in 1..N |-> IF \E p \in 1..Len(prog[i].out) : prog[i].out[p] = prog[m].req
                                THEN Append(reqs[m], e[CHOOSE p \in 1..Len(prog[i].out) : prog[i].out[p] = prog[m].req]) ELSE reqs[m]]
Emit(qq, i, e) == q' = Put(qq, i, e) /\ reqs' = PutReq(i, e)
Quiet(qq) == q' = qq /\ UNCHANGED reqs
Take(i) == [q EXCEPT ![i] = [j \in 1..Len(q[i]) |-> Tail(q[i][j])]]
Ready(i) == Len(q[i]) > 0 /\ \A j \in 1..Len(q[i]) : q[i][j] # <<>>
Source == \E i \in 1..N : prog[i].kind = "source" /\ got[i] < Len(prog[i].items)
   /\ Emit(q, i, <<Item(prog[i].items[got[i] + 1])>>) /\ got' = [got EXCEPT ![i] = @ + 1] /\ UNCHANGED <<prog, held, ended>>
Fire == \E i \in 1..N : LET T == prog[i]  a == [j \in 1..Len(q[i]) |-> Head(q[i][j])] IN
   /\ Ready(i) /\ ~ended[i] /\ (T.kind = "wait" => reqs[i] # <<>>) /\ UNCHANGED <<prog, ended, got>>
   /\ IF T.kind \in {"pass", "wait"} THEN Emit(Take(i), i, <<a[1]>>) /\ UNCHANGED held
      ELSE IF T.kind = "copy" THEN Emit(Take(i), i, <<CopyV(a[1])>>) /\ UNCHANGED held
      ELSE IF T.kind = "gather" THEN Emit(Take(i), i, Spread(T, ListV(a))) /\ UNCHANGED held
      ELSE IF T.kind = "accum" /\ T.group > 0 /\ Len(held[i]) + 1 = T.group
           THEN Emit(Take(i), i, Spread(T, ListV(Append(held[i], a[1])))) /\ held' = [held EXCEPT ![i] = <<>>]
      ELSE Quiet(Take(i)) /\ held' = IF T.kind \in {"accum", "collect"} THEN [held EXCEPT ![i] = Append(@, a[1])] ELSE held
(* a task ends when those it reads from have and no more can come of what is queued *)
FedBy(i) == {m \in 1..N : \E p \in 1..Len(prog[m].out) : prog[m].out[p] = prog[i].req \/ \E j \in 1..Len(prog[i].in) : prog[m].out[p] = prog[i].in[j]}
End == \E i \in 1..N : /\ ~ended[i] /\ (\A m \in FedBy(i) : ended[m])
   /\ (IF prog[i].kind = "source" THEN got[i] = Len(prog[i].items) ELSE ((~Ready(i)) \/ (prog[i].kind = "wait" /\ reqs[i] = <<>>)))
   /\ ended' = [ended EXCEPT ![i] = TRUE] /\ UNCHANGED <<prog, got, held>>
   /\ IF prog[i].kind = "accum" /\ prog[i].group = 0 THEN Emit(q, i, Spread(prog[i], ListV(held[i]))) ELSE Quiet(q)
Spec == Init /\ [][Source \/ Fire \/ End]_vars /\ WF_vars(Source) /\ WF_vars(Fire) /\ WF_vars(End)
Want == RunProgram([tasks |-> prog]).got
Prefix == \A i \in 1..N : prog[i].kind = "collect" => IsPrefix(held[i], Want[i])
AllIn == (\A i \in 1..N : ended[i]) => \A i \in 1..N : prog[i].kind = "collect" => held[i] = Want[i]
Waits == \A i \in 1..N : prog[i].kind = "wait" => (Len(reqs[i]) = 0 => \A m \in 1..N : \A j \in 1..Len(prog[m].in) : (prog[m].in[j] \in {prog[i].out[p] : p \in 1..Len(prog[i].out)}) => (q[m][j] = <<>> /\ held[m] = <<>>))
Ends == <>(\A i \in 1..N : ended[i])
=============================================================================
