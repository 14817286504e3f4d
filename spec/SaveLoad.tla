---- MODULE SaveLoad ----
(* What saving a tree to a file and loading it again means.

   A tree is [cls, hint, nodes, hist]: the class of the object, the class hint saved with
   it, its groups and datasets and (for containers) its history in order. Values are
   tagged records; numbers and strings are tokens, so that the specification says which
   token comes back where, and with which type, but never computes with them.           *)
EXTENDS Integers, Sequences, FiniteSets

Bare(c) == c = "MemGroup"
KnownClasses == {"MemGroup", "MemDiskGroup", "Container", "ProtoA", "ProtoB"}

----------------------------------------------------------------------------
(* Attribute values *)

ScalarOf == [npint |-> "int", npfloat |-> "float", npbool |-> "bool", npstr |-> "str"]

RECURSIVE Show(_)
\* the value as the public interface shows it in memory
Show(v) ==
  CASE v.t = "seq"  -> [t |-> "seq", v |-> [i \in DOMAIN v.v |-> Show(v.v[i])]]
    [] v.t = "dict" -> [t |-> "dict", v |-> [i \in DOMAIN v.v |-> <<v.v[i][1], Show(v.v[i][2])>>]]
    [] v.t \in DOMAIN ScalarOf -> [t |-> ScalarOf[v.t], v |-> v.v]
    [] OTHER -> [t |-> v.t, v |-> v.v]

RECURSIVE Inner(_)
\* a value within a dictionary after a trip through a file; an array of a single element
\* comes back as the element
Inner(v) ==
  CASE v.t = "seq" /\ "src" \in DOMAIN v /\ v.src = "arr" /\ Len(v.v) = 1 -> Inner(v.v[1])
    [] v.t = "seq"  -> [t |-> "seq", v |-> [i \in DOMAIN v.v |-> Inner(v.v[i])]]
    [] v.t = "dict" -> [t |-> "dict", v |-> [i \in DOMAIN v.v |-> <<v.v[i][1], Inner(v.v[i][2])>>]]
    [] v.t \in {"bytes", "time"} -> [t |-> "str", v |-> v.v]
    [] OTHER -> Show(v)

RECURSIVE Canon(_)
\* the value after a trip through a file: byte strings and times come back as text
Canon(v) ==
  CASE v.t = "seq"  -> [t |-> "seq", v |-> [i \in DOMAIN v.v |-> Canon(v.v[i])]]
    [] v.t = "dict" -> Inner(v)
    [] v.t \in {"bytes", "time"} -> [t |-> "str", v |-> v.v]
    [] OTHER -> Show(v)

RECURSIVE NoJson(_)
\* values that a JSON text cannot hold
NoJson(v) ==
  CASE v.t \in {"seq"}  -> \E i \in DOMAIN v.v : NoJson(v.v[i])
    [] v.t = "dict" -> \E i \in DOMAIN v.v : NoJson(v.v[i][2])
    [] OTHER -> v.t \in {"complex", "set"}

RECURSIVE Ragged(_)
Depths(v) == IF v.t = "seq" THEN {IF v.v[i].t = "seq" THEN Len(v.v[i].v) + 1 ELSE 0 : i \in DOMAIN v.v} ELSE {}
Ragged(v) == v.t = "seq" /\ (Cardinality(Depths(v)) > 1 \/ \E i \in DOMAIN v.v : Ragged(v.v[i]))

RECURSIVE HasText(_)
HasText(v) == v.t \in {"str", "npstr"} \/ (v.t = "seq" /\ \E i \in DOMAIN v.v : HasText(v.v[i]))

AttrRefused(fmt, ca, v) ==
  CASE v.t = "dict" -> NoJson(v)
    [] v.t = "none" -> fmt = "h5"
    [] v.t = "set"  -> TRUE
    [] v.t = "complex" -> fmt = "zarr"
    [] v.t = "seq"  -> \/ fmt = "h5" /\ Ragged(v)
                       \/ fmt = "h5" /\ ~ca /\ "src" \in DOMAIN v /\ v.src = "arr" /\ HasText(v)
                       \/ fmt = "zarr" /\ NoJson(v)
    [] OTHER -> FALSE

----------------------------------------------------------------------------
(* Dataset types: [k] plain, [k: "U" or "S", n] strings, [k: "struct", f: fields] with
   fields [n: name, d: type, sub: shape of a subarray]                               *)

RECURSIVE HasKind(_, _)
HasKind(dt, k) == IF dt.k = "struct" THEN \E i \in DOMAIN dt.f : HasKind(dt.f[i].d, k) ELSE dt.k = k

RECURSIVE Swap(_, _, _)
Swap(dt, from, to) ==
  IF dt.k = "struct" THEN [dt EXCEPT !.f = [i \in DOMAIN dt.f |-> [dt.f[i] EXCEPT !.d = Swap(@, from, to)]]]
  ELSE IF dt.k = from THEN [dt EXCEPT !.k = to] ELSE dt

DsetRefused(fmt, cd, n) ==
  \/ HasKind(n.dt, "U") /\ (~cd \/ n.na)
  \/ HasKind(n.dt, "O")
  \/ HasKind(n.dt, "M") /\ fmt = "h5"
  \/ n.comp # "" /\ ~(fmt = "h5" \/ n.comp \in {"gzip", "bitshuffle"})

----------------------------------------------------------------------------
(* Whole trees *)

Refused(t, fmt, ca, cd) ==
  \/ \E i \in DOMAIN t.nodes : \E a \in DOMAIN t.nodes[i].attrs : AttrRefused(fmt, ca, t.nodes[i].attrs[a][2])
  \/ \E i \in DOMAIN t.nodes : t.nodes[i].kind = "d" /\ DsetRefused(fmt, cd, t.nodes[i])
  \/ \E i \in DOMAIN t.hist : AttrRefused(fmt, ca, t.hist[i][2])

CanonAttrs(as) == [a \in DOMAIN as |-> <<as[a][1], Canon(as[a][2])>>]

\* saving leaves a hint of the class behind, also in memory
Hinted(t) == IF Bare(t.cls) \/ t.hint # "" THEN t ELSE [t EXCEPT !.hint = t.cls]

Stored(t, cd) ==
  [t EXCEPT
    !.nodes = [i \in DOMAIN t.nodes |->
      LET n == t.nodes[i] IN
      IF n.kind = "g" THEN [n EXCEPT !.attrs = CanonAttrs(@)]
      ELSE [n EXCEPT !.attrs = CanonAttrs(@), !.dt = IF cd THEN Swap(@, "U", "S") ELSE @]],
    !.hist = CanonAttrs(@)]

\* chunks never exceed the data
Clip(ch, sh) == [i \in DOMAIN ch |-> IF ch[i] > sh[i] THEN sh[i] ELSE ch[i]]

Loaded(f, cls, cd) ==
  [f EXCEPT !.cls = cls,
            !.nodes = [i \in DOMAIN f.nodes |->
               IF f.nodes[i].kind = "g" THEN f.nodes[i]
               ELSE [f.nodes[i] EXCEPT !.dt = IF cd THEN Swap(@, "S", "U") ELSE @, !.chunks = Clip(@, f.nodes[i].shape)]]]

\* the class of a loaded object
ClassFor(f, asked, detect) ==
  IF Bare(asked) \/ ~detect \/ f.hint \notin KnownClasses THEN asked ELSE f.hint

DefaultCd(cls) == cls \in {"ProtoA", "ProtoB"}
Cd(opt, cls) == IF opt = "default" THEN DefaultCd(cls) ELSE opt = "yes"

ShowTree(t) ==
  [t EXCEPT
    !.nodes = [i \in DOMAIN t.nodes |->
       [t.nodes[i] EXCEPT !.attrs = [a \in DOMAIN @ |-> <<@[a][1], Show(@[a][2])>>]]],
    !.hist = [i \in DOMAIN t.hist |-> <<t.hist[i][1], Show(t.hist[i][2])>>]]

----------------------------------------------------------------------------
(* Programs: sequences of operations over objects 1..NM in memory and files 1..NF *)

None == [cls |-> "none", hint |-> "", nodes |-> <<>>, hist |-> <<>>]

\* (programs are cut before they use a file whose saving was refused)
NodeIx(t, p) == CHOOSE i \in DOMAIN t.nodes : t.nodes[i].path = p

WithAttr(as, k, v) ==
  LET hit == {i \in DOMAIN as : as[i][1] = k}
  IN  IF hit # {} THEN [as EXCEPT ![CHOOSE i \in hit : TRUE] = <<k, v>>] ELSE Append(as, <<k, v>>)

SetAttr(t, p, k, v) == IF t.cls = "none" THEN t ELSE [t EXCEPT !.nodes[NodeIx(t, p)].attrs = WithAttr(@, k, v)]
SetData(t, p, i, v) == IF t.cls = "none" THEN t ELSE [t EXCEPT !.nodes[NodeIx(t, p)].vals[i] = v]

SaveOp(s, o) ==
  LET t == Hinted(s.mem[o.m])
      cd == Cd(o.cd, t.cls)
      bad == Refused(t, o.fmt, o.ca, cd)
  IN  [s EXCEPT !.mem[o.m] = t,
                !.file[o.f] = IF bad THEN None ELSE Stored(t, cd),
                !.out = IF bad THEN "error" ELSE "ok"]

LoadOp(s, o) ==
  LET f == s.file[o.f]
      cls == ClassFor(f, o.cls, o.detect)
  IN  [s EXCEPT !.mem[o.m] = IF f.cls = "none" THEN f ELSE Loaded(f, cls, Cd(o.cd, IF o.via = "tomem" THEN cls ELSE o.cls)), !.out = "ok"]

StepOp(s, o) ==
  CASE o.op = "new"  -> [s EXCEPT !.mem[o.m] = o.tree, !.out = "ok"]
    [] o.op = "save" -> SaveOp(s, o)
    [] o.op = "load" -> LoadOp(s, o)
    [] o.op = "recode" -> \* from an object on disk straight to another file
         LET bad == Refused(s.file[o.f], o.fmt, o.ca, Cd(o.cd, ClassFor(s.file[o.f], o.cls, TRUE)))
         IN  [s EXCEPT !.file[o.g] = IF bad THEN None ELSE Stored(s.file[o.f], Cd(o.cd, ClassFor(s.file[o.f], o.cls, TRUE))),
                       !.out = IF bad THEN "error" ELSE "ok"]
    [] o.op = "attr" -> [s EXCEPT !.mem[o.m] = SetAttr(@, o.path, o.key, o.val), !.out = "ok"]
    [] o.op = "data" -> [s EXCEPT !.mem[o.m] = SetData(@, o.path, o.ix, o.val), !.out = "ok"]
    [] o.op = "hist" -> [s EXCEPT !.mem[o.m].hist = Append(@, <<o.key, o.val>>), !.out = "ok"]
    [] o.op = "disk" -> [s EXCEPT !.file[o.f] = SetData(@, o.path, o.ix, o.val), !.out = "ok"]
    [] o.op = "look" -> [s EXCEPT !.out = "ok"]

See(s) == [out |-> s.out, mem |-> [m \in DOMAIN s.mem |-> ShowTree(s.mem[m])],
           file |-> [f \in DOMAIN s.file |-> ShowTree(s.file[f])]]

RECURSIVE StepAll(_, _, _)
StepAll(s, ops, seen) ==
  IF ops = <<>> THEN seen
  ELSE LET n == StepOp(s, Head(ops)) IN StepAll(n, Tail(ops), Append(seen, See(n)))

RunSave(p) ==
  StepAll([mem |-> [m \in 1..p.nm |-> None], file |-> [f \in 1..p.nf |-> None], out |-> "ok"], p.ops, <<>>)
====
