---------------------------- MODULE MC_MpiTools ----------------------------
(***************************************************************************)
(* The message-level protocols of the helpers.  Each rank runs a program   *)
(* of MPI instructions; messages between a pair of ranks with one tag are  *)
(* matched in order, otherwise deliveries happen in any order, and a send  *)
(* completes only when it is matched (no buffering).  TLC checks that every *)
(* schedule ends, with the outcome MpiTools states.                         *)
(***************************************************************************)
EXTENDS MpiTools
CONSTANTS MaxR, MaxC, Sizes, Kinds
VARIABLES p, nr, nc, kinds, prog, pc, sent, recvd, posted, slots, file
vars == <<p, nr, nc, kinds, prog, pc, sent, recvd, posted, slots, file>>

A(k) == Build(<<nr, nc>>, LAMBDA ix : k * 100 + ix[1] * 10 + ix[2])
BlockOf(k, ir, ic) == Slab(Part(A(k), 0, p, ir), 1, SplitStart(nc, p, ic), SplitSize(nc, p, ic))
SEND(d, t, v) == [i |-> "send", peer |-> d, tag |-> t, v |-> v, slot |-> <<>>]
RECV(s, t, sl) == [i |-> "recv", peer |-> s, tag |-> t, v |-> Scalar(0), slot |-> sl]
BAR(id) == [i |-> "bar", peer |-> 0, tag |-> id, v |-> Scalar(0), slot |-> <<>>]
WAIT == [i |-> "wait", peer |-> 0, tag |-> 0, v |-> Scalar(0), slot |-> <<>>]
PUT(pos, x) == [i |-> "put", peer |-> 0, tag |-> pos, v |-> Scalar(x), slot |-> <<>>]
(* transposition: p*p tagged messages between barriers *)
RECURSIVE TPosts(_, _, _)
TPosts(k, r, t) ==
  IF t = p * p THEN <<>>
  ELSE LET ir == t \div p  ic == t % p IN
       (IF r = ir THEN <<SEND(ic, t, BlockOf(k, ir, ic))>> ELSE <<>>)
       \o (IF r = ic THEN <<RECV(ir, t, <<k, ir>>)>> ELSE <<>>) \o TPosts(k, r, t + 1)
TProg(k, r) == TPosts(k, r, 0) \o <<BAR(2 * k), WAIT>>
(* gathering rows on a root: one message per non-empty part, all with tag 0 *)
Root(k) == k % p
GProg(k, r) ==
  (IF SplitSize(nr, p, r) * nc > 0 THEN <<SEND(Root(k), 0, Part(A(k), 0, p, r))>> ELSE <<>>)
  \o (IF r = Root(k) THEN [j \in 1..Cardinality({s \in 0..(p-1) : SplitSize(nr, p, s) * nc > 0}) |-> RECV(j - 1, 0, <<k, j - 1>>)] ELSE <<>>)
  \o <<WAIT>>
(* the ranks other than 0 wait for rank 0 to close *)
CProg(k, r) == IF r = 0 THEN [j \in 1..(p-1) |-> SEND(j, 77, Scalar(k))] \o <<WAIT>> ELSE <<RECV(0, 77, <<k, 0>>), WAIT>>
(* each rank writes its rows into the file, element by element *)
WProg(k, r) == LET P == Part(A(k), 0, p, r) IN
  [j \in 1..Len(P.data) |-> PUT((k - 1) * nr * nc + SplitStart(nr, p, r) * nc + j, P.data[j])]
ProgOf(k, r) == CASE kinds[k] = "transpose" -> TProg(k, r) [] kinds[k] = "gather" -> GProg(k, r)
                  [] kinds[k] = "close" -> CProg(k, r) [] kinds[k] = "write" -> WProg(k, r)
Prog(r) == ConcatAll([k \in 1..Len(kinds) |-> ProgOf(k, r)])

Init == /\ p \in Sizes /\ nr \in 0..MaxR /\ nc \in 0..MaxC /\ kinds \in Kinds
        /\ prog = [r \in 0..(p-1) |-> Prog(r)]
        /\ pc = [r \in 0..(p-1) |-> 1]
        /\ sent = [r \in 0..(p-1) |-> <<>>]      \* unmatched messages from r, in order
        /\ posted = [r \in 0..(p-1) |-> <<>>]    \* unmatched receives at r, in order
        /\ recvd = 0
        /\ slots = [r \in 0..(p-1) |-> {}]
        /\ file = [j \in 1..(nr * nc * Len(kinds)) |-> 0]
Cur(r) == prog[r][pc[r]]
At2(r, what) == pc[r] <= Len(prog[r]) /\ Cur(r).i = what
Adv(r) == pc' = [pc EXCEPT ![r] = @ + 1]
DoSend(r) == /\ At2(r, "send") /\ sent' = [sent EXCEPT ![r] = Append(@, Cur(r))] /\ Adv(r)
             /\ UNCHANGED <<p, nr, nc, kinds, prog, recvd, posted, slots, file>>
DoRecv(r) == /\ At2(r, "recv") /\ posted' = [posted EXCEPT ![r] = Append(@, Cur(r))] /\ Adv(r)
             /\ UNCHANGED <<p, nr, nc, kinds, prog, recvd, sent, slots, file>>
DoPut(r) == /\ At2(r, "put") /\ file' = [file EXCEPT ![Cur(r).tag] = Cur(r).v.data[1]] /\ Adv(r)
            /\ UNCHANGED <<p, nr, nc, kinds, prog, recvd, sent, posted, slots>>
DoWait(r) == /\ At2(r, "wait") /\ sent[r] = <<>> /\ posted[r] = <<>> /\ Adv(r)
             /\ UNCHANGED <<p, nr, nc, kinds, prog, recvd, sent, posted, slots, file>>
DoBarrier == /\ \A r \in 0..(p-1) : At2(r, "bar")
             /\ pc' = [r \in 0..(p-1) |-> pc[r] + 1]
             /\ UNCHANGED <<p, nr, nc, kinds, prog, recvd, sent, posted, slots, file>>
Firsts(q, key) == {j \in 1..Len(q) : <<q[j].peer, q[j].tag>> = key}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Del(q, j) == SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))
Match(s, r) == \E t \in {posted[r][j].tag : j \in 1..Len(posted[r])} :
  /\ Firsts(posted[r], <<s, t>>) # {} /\ Firsts(sent[s], <<r, t>>) # {}
  /\ LET i == MinOf(Firsts(posted[r], <<s, t>>))  j == MinOf(Firsts(sent[s], <<r, t>>)) IN
     /\ slots' = [slots EXCEPT ![r] = @ \cup {[slot |-> posted[r][i].slot, v |-> sent[s][j].v]}]
     /\ posted' = [posted EXCEPT ![r] = Del(@, i)] /\ sent' = [sent EXCEPT ![s] = Del(@, j)]
     /\ recvd' = recvd + 1
     /\ UNCHANGED <<p, nr, nc, kinds, prog, pc, file>>
Singles == {<<"transpose">>, <<"gather">>, <<"close">>, <<"write">>}
Pairs == Singles \cup {a \o b : a \in Singles, b \in Singles}
AllDone == \A r \in 0..(p-1) : pc[r] > Len(prog[r])
\* Prog is kept in a variable only so that TLC evaluates it once
Move == (\E r \in 0..(p-1) : DoSend(r)) \/ (\E r \in 0..(p-1) : DoRecv(r)) \/ (\E r \in 0..(p-1) : DoPut(r))
        \/ (\E r \in 0..(p-1) : DoWait(r)) \/ DoBarrier \/ (\E s, r \in 0..(p-1) : Match(s, r))
Spec == Init /\ [][Move]_vars
NoDeadlock == AllDone \/ ENABLED Move
SlotOf(r, sl) == (CHOOSE x \in slots[r] : x.slot = sl).v
Outcomes ==
  AllDone => \A k \in 1..Len(kinds) :
    /\ kinds[k] = "transpose" => \A r \in 0..(p-1) :
         Concat([j \in 1..p |-> SlotOf(r, <<k, j - 1>>)], 0)
           = TransposeOf([shape |-> <<nr, nc>>, data |-> A(k).data], p)[r + 1]
    /\ kinds[k] = "gather" =>
         LET parts == [j \in 1..Cardinality({x \in slots[Root(k)] : x.slot[1] = k}) |->
                         [start |-> <<SplitStart(nr, p, j - 1), 0>>, shape |-> SlotOf(Root(k), <<k, j - 1>>).shape,
                          data |-> SlotOf(Root(k), <<k, j - 1>>).data]]
             G == Full(<<nr, nc>>, -1)
         IN  Gather([shape |-> G.shape, data |-> G.data, root |-> Root(k), parts |-> parts], p)[Root(k) + 1] = A(k)
    /\ kinds[k] = "close" => \A r \in 1..(p-1) : SlotOf(r, <<k, 0>>) = Scalar(k)
    /\ kinds[k] = "write" => SubSeq(file, (k - 1) * nr * nc + 1, k * nr * nc) = A(k).data
NothingLeft == AllDone => \A r \in 0..(p-1) : sent[r] = <<>> /\ posted[r] = <<>>
(* nobody passes the wait of "close" before rank 0 has sent it *)
HeldBack == \A k \in 1..Len(kinds) : (kinds = <<"close">> /\ p > 1) =>
              \A r \in 1..(p-1) : pc[r] > 2 => pc[0] > 1
=============================================================================
