------------------------------ MODULE MC_Tree ------------------------------
(* All short histories of tree operations over a small name space. *)
EXTENDS MemTree
CONSTANTS Names, Depth, MaxDepth
VARIABLES s, last, prev
vars == <<s, last, prev>>
Paths == UNION {[1..n -> Names] : n \in 1..MaxDepth}
P(parts, abs) == [abs |-> abs, parts |-> parts]
Step(op) == LET r == DoOp(s, op) IN s' = r.s /\ prev' = s /\ last' = [op |-> op, r |-> r.r]
Init == s = DoOp(Init0, [op |-> "root"]).s /\ last = [op |-> [op |-> "root", h |-> 0], r |-> [k |-> "ok", e |-> "", v |-> <<>>]] /\ prev = Init0
Live == {j \in 1..Len(s.h) : Usable(s, s.h[j])}
Groups == {j \in Live : s.h[j].k = "g"}
Bounded == Len(s.h) <= Depth
CGroup == Bounded /\ \E j \in Groups, p \in Paths, a \in BOOLEAN : Step([op |-> "cg", h |-> j, path |-> P(p, a)])
CDset == Bounded /\ \E j \in Groups, p \in Paths : Step([op |-> "cd", h |-> j, path |-> P(p, FALSE), val |-> <<1>>, chunks |-> <<>>, ax |-> 0])
ReqG == Bounded /\ \E j \in Groups, p \in Paths : Step([op |-> "rg", h |-> j, path |-> P(p, FALSE)])
ReqD == Bounded /\ \E j \in Groups, p \in Paths : Step([op |-> "rd", h |-> j, path |-> P(p, FALSE), val |-> <<2>>, chunks |-> <<>>])
GetA == Bounded /\ \E j \in Groups, p \in Paths : Step([op |-> "get", h |-> j, path |-> P(p, FALSE)])
Del == Bounded /\ \E j \in Groups, p \in Paths, a \in BOOLEAN : Step([op |-> "del", h |-> j, path |-> P(p, a)])
SetA == Bounded /\ \E j \in Live : Step([op |-> "seta", h |-> j, key |-> "k", val |-> <<Len(s.h)>>])
MutA == Bounded /\ \E j \in Live : Step([op |-> "muta", h |-> j, key |-> "k", val |-> <<9>>])
Wr == Bounded /\ \E j \in Live : s.h[j].k = "d" /\ Step([op |-> "write", h |-> j, i |-> 1, val |-> <<10 + Len(s.h)>>])
Cp == Bounded /\ \E j \in Groups, sh \in {<<>>, <<(<<"a">>)>>}, w \in BOOLEAN :
        s.h[j].path = <<>> /\ Step([op |-> "copy", h |-> j, shared |-> sh, shallow |-> w])
Clr == Bounded /\ \E j \in Groups : Step([op |-> "clear", h |-> j])
Wrap == Bounded /\ \E j \in Groups : s.h[j].path = <<>> /\ Step([op |-> "wrap", h |-> j, lim |-> TRUE])
Rd == Bounded /\ \E j \in Live : s.h[j].k = "d" /\ s.objs[s.h[j].obj].ax = 0 /\ Step([op |-> "redist", h |-> j, ax |-> 1])
Next == Clr \/ Wrap \/ Rd \/ CGroup \/ CDset \/ ReqG \/ ReqD \/ GetA \/ Del \/ SetA \/ MutA \/ Wr \/ Cp
Spec == Init /\ [][Next]_vars
(* every entry hangs below a group; the root is there *)
Closed == \A t \in 1..Len(s.trees) : IsG(s.trees[t], <<>>) /\ \A p \in DOMAIN s.trees[t] : p # <<>> => IsG(s.trees[t], Up(p))
(* a failing operation changes nothing *)
Same(a, b) == a.trees = b.trees /\ a.objs = b.objs
ErrorsHarmless == last.r.k = "err" => Same(prev, s)
(* no object is in two trees unless it was linked on purpose *)
ObjsOf(t) == {s.trees[t][p].obj : p \in {q \in DOMAIN s.trees[t] : s.trees[t][q].k = "d"}}
Isolated == \A t, u \in 1..Len(s.trees) : t # u => ObjsOf(t) \cap ObjsOf(u) \subseteq s.linked
(* an operation through a handle of one tree leaves the other trees' view, but for linked objects *)
Frame == last.op.op \in {"root", "copy"} \/
         \A t \in 1..Len(prev.trees) : (last.op.h >= 1 /\ t # prev.h[last.op.h].t) =>
            /\ s.trees[t] = prev.trees[t]
            /\ \A p \in DOMAIN s.trees[t] : (s.trees[t][p].k = "d" /\ s.trees[t][p].obj \notin s.linked) =>
                  s.objs[s.trees[t][p].obj] = prev.objs[s.trees[t][p].obj]
(* a fresh copy looks the same, and the source is unchanged *)
Norm(d) == {[d1 EXCEPT !.attrs = d1.attrs] : d1 \in d}
CopyEqual == (last.op.op = "copy" /\ last.r.k = "ok") =>
   /\ DumpTree(s, Len(s.trees)) = DumpTree(s, prev.h[last.op.h].t)
   /\ \A t \in 1..Len(prev.trees) : DumpTree(s, t) = DumpTree(prev, t)
(* what was created is found again under its path from any group *)
LookupFinds == \A t \in 1..Len(s.trees) : \A p \in DOMAIN s.trees[t] :
   Get(s, HG(t, <<>>), P(p, TRUE)).r.k = "ok"
=============================================================================
