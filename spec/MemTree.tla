------------------------------ MODULE MemTree ------------------------------
(***************************************************************************)
(* In-memory groups: trees of named groups and datasets, handles into      *)
(* them, and copies.  State s:                                             *)
(*   trees : sequence of functions  path -> [k, attrs, obj]                *)
(*           (k "g" or "d"; a group keeps its own attrs; a dataset points  *)
(*           to an object); the empty path is the root                     *)
(*   objs  : sequence of [data, attrs, chunks, ax]; two datasets with the  *)
(*           same object are linked: writes to one are seen in the other   *)
(*           (ax: the axis it is distributed over, -1 if it is not)        *)
(*   h     : handles [k, t, path, obj, lim]; "n" where there is none; lim:  *)
(*           through a class that does not allow every name                *)
(* Paths in operations are [abs, parts]; attribute values and data are     *)
(* sequences of integers.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NoAttrs == <<>>                                    \* functions key -> value
G(attrs) == [k |-> "g", attrs |-> attrs, obj |-> 0]
Ds(o) == [k |-> "d", attrs |-> NoAttrs, obj |-> o]
HG(t, path) == [k |-> "g", t |-> t, path |-> path, obj |-> 0, lim |-> FALSE]
HD(t, path, o) == [k |-> "d", t |-> t, path |-> path, obj |-> o, lim |-> FALSE]
HN == [k |-> "n", t |-> 0, path |-> <<>>, obj |-> 0, lim |-> FALSE]
Lim(h, l) == [h EXCEPT !.lim = l]
(* the names the limited class allows: no group below or called "hid", no dataset called "priv" or deeper than 2 *)
AllowedG(p) == \A j \in 1..Len(p) : p[j] # "hid"
AllowedD(p) == Len(p) <= 2 /\ p[Len(p)] # "priv"
Sees(h, T, p) == ~h.lim \/ (IF T[p].k = "g" THEN AllowedG(p) ELSE AllowedD(p))
EmptyTree == (<<>> :> G(NoAttrs))
Init0 == [trees |-> <<>>, objs |-> <<>>, h |-> <<>>, linked |-> {}]

Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Present(T, p) == p \in DOMAIN T
IsG(T, p) == Present(T, p) /\ T[p].k = "g"
Up(p) == IF p = <<>> THEN <<>> ELSE SubSeq(p, 1, Len(p) - 1)
Full(h, p) == IF p.abs THEN p.parts ELSE h.path \o p.parts
Children(T, p) == {q[Len(q)] : q \in {x \in DOMAIN T : Len(x) = Len(p) + 1 /\ Prefix(p, x)}}
Without(T, p) == [x \in {y \in DOMAIN T : ~Prefix(p, y)} |-> T[x]]
(* every proper prefix of p that exists is a group *)
Passable(T, p) == \A n \in 0..(Len(p) - 1) : Present(T, SubSeq(p, 1, n)) => IsG(T, SubSeq(p, 1, n))
WithGroups(T, p) ==             \* make p and everything above it groups
  [x \in DOMAIN T \cup {SubSeq(p, 1, n) : n \in 0..Len(p)} |-> IF x \in DOMAIN T THEN T[x] ELSE G(NoAttrs)]
Put(T, p, node) == [x \in DOMAIN Without(T, p) \cup {p} |-> IF x = p THEN node ELSE T[x]]

R(r, s, h) == [r |-> r, s |-> [s EXCEPT !.h = Append(@, h)]]
Err(e, s) == R([k |-> "err", e |-> e, v |-> <<>>], s, HN)
OK(s, h) == R([k |-> "ok", e |-> "", v |-> <<>>], s, h)
Val(v, s) == R([k |-> "val", e |-> "", v |-> v], s, HN)
Skip(s) == R([k |-> "skip", e |-> "", v |-> <<>>], s, HN)

Handle(s, t, p) == IF s.trees[t][p].k = "g" THEN HG(t, p) ELSE HD(t, p, s.trees[t][p].obj)

CreateGroup(s, h, path) ==
  LET p == Full(h, path)  T == s.trees[h.t] IN
  IF Present(T, p) \/ ~Passable(T, p) \/ (h.lim /\ ~AllowedG(p)) THEN Err("", s)
  ELSE LET s2 == [s EXCEPT !.trees[h.t] = WithGroups(T, p)] IN OK(s2, Lim(HG(h.t, p), h.lim))

CreateDataset(s, h, path, val, chunks, ax) ==
  LET p == Full(h, path)  T == s.trees[h.t] IN
  IF p = <<>> \/ ~Passable(T, p) THEN Err("", s)
  ELSE IF h.lim /\ ~AllowedD(p) THEN Err("", s)
  ELSE LET o == Len(s.objs) + 1
           s2 == [s EXCEPT !.objs = Append(@, [data |-> val, attrs |-> NoAttrs, chunks |-> chunks, ax |-> ax]),
                           !.trees[h.t] = Put(WithGroups(T, Up(p)), p, Ds(o))]
       IN OK(s2, HD(h.t, p, o))

Get(s, h, path) ==
  LET p == Full(h, path) IN
  IF Present(s.trees[h.t], p) /\ Sees(h, s.trees[h.t], p)
  THEN OK(s, Lim(Handle(s, h.t, p), h.lim /\ s.trees[h.t][p].k = "g")) ELSE Err("KeyError", s)

Require(s, op, h) ==
  LET p == Full(h, op.path)  T == s.trees[h.t]
      k == IF op.op = "rg" THEN "g" ELSE "d" IN
  (* what a limited class hides is not there for it: a dataset then takes its place, as by creating it *)
  IF Present(T, p) /\ Sees(h, T, p) THEN (IF T[p].k = k THEN OK(s, Lim(Handle(s, h.t, p), h.lim /\ k = "g")) ELSE Err("TypeError", s))
  ELSE IF k = "g" THEN CreateGroup(s, h, op.path) ELSE CreateDataset(s, h, op.path, op.val, op.chunks, -1)

Delete(s, h, path) ==
  LET p == Full(h, path)  T == s.trees[h.t] IN
  IF p = <<>> \/ ~Present(T, p) THEN Err("KeyError", s)
  ELSE IF ~Sees(h, T, p) THEN Err("KeyError", s)
  ELSE OK([s EXCEPT !.trees[h.t] = Without(T, p)], HN)
(* deleting every child while going through them *)
Seen(s, h) == {c \in Children(s.trees[h.t], h.path) : Sees(h, s.trees[h.t], Append(h.path, c))}
Clear(s, h) ==
  LET T == s.trees[h.t]  gone == Seen(s, h) IN
  OK([s EXCEPT !.trees[h.t] = [x \in {y \in DOMAIN T : ~\E c \in gone : Prefix(Append(h.path, c), y)} |-> T[x]]], HN)
(* moving a distributed dataset to another axis: seen wherever it is linked; other handles to it are of no use any more *)
Redist(s, op, h) ==
  IF h.k # "d" \/ s.objs[h.obj].ax < 0 THEN Skip(s)
  ELSE OK([s EXCEPT !.objs[h.obj].ax = op.ax, !.h = [j \in 1..Len(s.h) |-> IF s.h[j].k = "d" /\ s.h[j].obj = h.obj THEN HN ELSE s.h[j]]], HN)
SameObj(s, a, b) ==
  a.k = b.k /\ a.t = b.t /\ a.path = b.path /\ (a.k = "g" \/ s.objs[a.obj] = s.objs[b.obj])
YesNo(b) == IF b THEN <<"yes">> ELSE <<"no">>

(* attributes of a handle: a group's live in the tree, a dataset's in its object *)
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
AttrsOf(s, h) == IF h.k = "g" THEN s.trees[h.t][h.path].attrs ELSE s.objs[h.obj].attrs
SetAttrs(s, h, a) == IF h.k = "g" THEN [s EXCEPT !.trees[h.t][h.path].attrs = a]
                     ELSE [s EXCEPT !.objs[h.obj].attrs = a]
AttrOp(s, op, h) ==
  LET a == AttrsOf(s, h) IN
  CASE op.op = "seta" -> OK(SetAttrs(s, h, Upd(a, op.key, op.val)), HN)
    [] op.key \notin DOMAIN a -> Err("KeyError", s)
    [] op.op = "muta" -> OK(SetAttrs(s, h, Upd(a, op.key, Append(a[op.key], op.val[1]))), HN)
    [] op.op = "dela" -> OK(SetAttrs(s, h, [x \in DOMAIN a \ {op.key} |-> a[x]]), HN)
Write(s, op, h) ==
  IF h.k # "d" THEN Skip(s)
  ELSE OK([s EXCEPT !.objs[h.obj].data[op.i] = op.val[1]], HN)

(* copies: datasets not linked get new objects *)
RECURSIVE CopyObjs(_, _, _, _)
CopyObjs(s, T, todo, acc) ==      \* acc: [s, T2]
  IF todo = <<>> THEN acc
  ELSE LET p == Head(todo)
           o == Len(acc.s.objs) + 1
       IN  CopyObjs(s, T, Tail(todo),
             [s |-> [acc.s EXCEPT !.objs = Append(@, s.objs[T[p].obj])],
              T |-> [acc.T EXCEPT ![p].obj = o]])
IsShared(op, p) == op.shallow \/ \E j \in 1..Len(op.shared) : op.shared[j] = p
CopyTree(s, op, h) ==
  LET T == s.trees[h.t]
      dsets == {p \in DOMAIN T : T[p].k = "d" /\ ~IsShared(op, p)}
      c == CopyObjs(s, T, SetToSeq(dsets), [s |-> s, T |-> T])
      keep == {T[p].obj : p \in {q \in DOMAIN T : T[q].k = "d" /\ IsShared(op, q)}}
      s2 == [c.s EXCEPT !.trees = Append(@, c.T), !.linked = @ \cup keep]
  IN  OK(s2, HG(Len(s2.trees), <<>>))
CopyDset(s, op, h) ==
  IF h.k # "d" THEN Skip(s)
  ELSE IF op.op = "dview" THEN OK(s, h)
  ELSE OK([s EXCEPT !.objs = Append(@, s.objs[h.obj])], [h EXCEPT !.obj = Len(s.objs) + 1])

(* is the handle's group still there? *)
Usable(s, h) == h.k = "d" \/ (h.k = "g" /\ IsG(s.trees[h.t], h.path))
NewRoot(s) == OK([s EXCEPT !.trees = Append(@, EmptyTree)], HG(Len(s.trees) + 1, <<>>))

DoOp(s, op) ==
  IF op.op = "root" THEN NewRoot(s)
  ELSE LET h == s.h[op.h] IN
  IF ~Usable(s, h) THEN Skip(s)
  ELSE IF op.op \in {"seta", "muta", "dela"} THEN AttrOp(s, op, h)
  ELSE IF op.op = "write" THEN Write(s, op, h)
  ELSE IF op.op \in {"dcopy", "dview"} THEN CopyDset(s, op, h)
  ELSE IF op.op = "redist" THEN Redist(s, op, h)
  ELSE IF op.op = "eq" THEN IF Usable(s, s.h[op.h2]) THEN Val(YesNo(SameObj(s, h, s.h[op.h2])), s) ELSE Skip(s)
  ELSE IF op.op = "parent" THEN OK(s, Lim(HG(h.t, Up(h.path)), h.lim))
  ELSE IF op.op = "file" THEN OK(s, Lim(HG(h.t, <<>>), h.lim))
  ELSE IF h.k # "g" THEN Skip(s)
  ELSE CASE op.op = "cg" -> CreateGroup(s, h, op.path)
         [] op.op = "cd" -> CreateDataset(s, h, op.path, op.val, op.chunks, op.ax)
         [] op.op \in {"rg", "rd"} -> Require(s, op, h)
         [] op.op = "get" -> Get(s, h, op.path)
         [] op.op = "has" -> LET p == Full(h, op.path)  T == s.trees[h.t] IN Val(YesNo(Present(T, p) /\ Sees(h, T, p)), s)
         [] op.op = "del" -> Delete(s, h, op.path)
         [] op.op = "ls" -> Val(SetToSeq(Seen(s, h)), s)
         [] op.op = "clear" -> Clear(s, h)
         [] op.op = "copy" -> IF h.path = <<>> /\ ~h.lim THEN CopyTree(s, op, h) ELSE Skip(s)
         [] op.op = "wrap" -> IF h.path = <<>> THEN OK(s, Lim(h, op.lim)) ELSE Skip(s)

(* ------------------------------ observation ------------------------------ *)
AttrDump(a) == {[k |-> x, v |-> a[x]] : x \in DOMAIN a}
DumpNode(s, T, p) ==
  [path |-> p, k |-> T[p].k,
   attrs |-> AttrDump(IF T[p].k = "g" THEN T[p].attrs ELSE s.objs[T[p].obj].attrs),
   data |-> IF T[p].k = "g" THEN <<>> ELSE s.objs[T[p].obj].data,
   ax |-> IF T[p].k = "g" THEN -1 ELSE s.objs[T[p].obj].ax,
   chunks |-> IF T[p].k = "g" THEN <<>> ELSE s.objs[T[p].obj].chunks]
DumpTree(s, t) == {DumpNode(s, s.trees[t], p) : p \in DOMAIN s.trees[t]}
DumpH(s, h) == [k |-> h.k, path |-> h.path,
                data |-> IF h.k = "d" THEN s.objs[h.obj].data ELSE <<>>,
                attrs |-> IF h.k = "d" THEN AttrDump(s.objs[h.obj].attrs) ELSE {}]
Dump(s) == [trees |-> [t \in 1..Len(s.trees) |-> DumpTree(s, t)],
            dh |-> [j \in 1..Len(s.h) |-> DumpH(s, s.h[j])]]
RECURSIVE RunOps(_, _, _)
RunOps(s, ops, j) ==
  IF j > Len(ops) THEN <<>>
  ELSE LET r == DoOp(s, ops[j])
       IN IF r.r.k = "skip" THEN <<[res |-> r.r, h |-> DumpH(s, HN), dump |-> Dump(s)]>>
          ELSE <<[res |-> r.r, h |-> DumpH(r.s, r.s.h[Len(r.s.h)]), dump |-> Dump(r.s)]>> \o RunOps(r.s, ops, j + 1)
RunProgram(Q) == RunOps(Init0, Q.ops, 1)
=============================================================================
