------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Declared configuration properties: conversion of values, resolution of  *)
(* declarations along the class hierarchy, and histories of reads,         *)
(* assignments and configuration on several instances.                      *)
(* Values: [t |-> "int", n]  [t |-> "float", h] (in halves)  "nan"  "bool" b *)
(*  "str" s (with up, isint, n, isfloat, h describing it)  "none"  "list" l  *)
(*  "map" m (sequence of [k, v])  "fmt" s  "time" (a date)  "unix" n         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Err == [ok |-> FALSE, v |-> [t |-> "none"]]
Ok(v) == [ok |-> TRUE, v |-> v]
NoneV == [t |-> "none"]
IntV(n) == [t |-> "int", n |-> n]
Flt(h) == [t |-> "float", h |-> h]
Bl(b) == [t |-> "bool", b |-> b]
St(s) == [t |-> "str", s |-> s, up |-> s, isint |-> FALSE, n |-> 0, isfloat |-> FALSE, h |-> 0]
IsNum(v) == v.t \in {"int", "float", "bool"}
Halves(v) == CASE v.t = "int" -> 2 * v.n [] v.t = "float" -> v.h [] v.t = "bool" -> IF v.b THEN 2 ELSE 0
RECURSIVE PyEq(_, _)
PyEq(a, b) == IF IsNum(a) /\ IsNum(b) THEN Halves(a) = Halves(b)
              ELSE IF a.t # b.t THEN FALSE
              ELSE CASE a.t \in {"str", "fmt"} -> a.s = b.s
                     [] a.t = "none" -> TRUE
                     [] a.t = "list" -> Len(a.l) = Len(b.l) /\ \A j \in 1..Len(a.l) : PyEq(a.l[j], b.l[j])
                     [] OTHER -> FALSE
Truth(v) == CASE IsNum(v) -> Halves(v) # 0 [] v.t = "nan" -> TRUE [] v.t = "str" -> v.s # "" [] v.t = "none" -> FALSE
              [] v.t = "list" -> v.l # <<>> [] v.t = "map" -> v.m # <<>> [] OTHER -> TRUE
HalfText(h) == ToString(h \div 2) \o (IF h % 2 = 0 THEN ".0" ELSE ".5")
ToInt(v) == CASE v.t = "int" -> Ok(v) [] v.t = "bool" -> Ok(IntV(IF v.b THEN 1 ELSE 0)) [] v.t = "float" -> Ok(IntV(v.h \div 2))
              [] v.t = "str" -> IF v.isint THEN Ok(IntV(v.n)) ELSE Err [] OTHER -> Err
ToFloat(v) == CASE IsNum(v) -> Ok(Flt(Halves(v))) [] v.t = "nan" -> Ok(v)
                [] v.t = "str" -> IF v.isfloat THEN Ok(Flt(v.h)) ELSE Err [] OTHER -> Err
ToStr(v) == CASE v.t = "str" -> Ok(v) [] v.t = "int" -> Ok(St(ToString(v.n))) [] v.t = "bool" -> Ok(St(IF v.b THEN "True" ELSE "False"))
              [] v.t = "float" -> Ok(St(HalfText(v.h))) [] v.t = "nan" -> Ok(St("nan")) [] v.t = "none" -> Ok(St("None")) [] OTHER -> Err
IsInst(v, elt) == CASE elt = "" -> TRUE [] elt = "int" -> v.t \in {"int", "bool"} [] elt = "str" -> v.t = "str"
                    [] elt = "float" -> v.t \in {"float", "nan"} [] OTHER -> FALSE
Levels == {"DEBUG", "INFO", "WARNING", "ERROR", "NOTSET"}
LevelNo(u) == CASE u = "DEBUG" -> 10 [] u = "INFO" -> 20 [] u \in {"WARN", "WARNING"} -> 30 [] u = "ERROR" -> 40
                [] u = "CRITICAL" -> 50 [] OTHER -> -1
IsLevel(v) == v.t = "str" /\ v.up \in Levels
(* days since 1970-01-01 of a date in the Gregorian calendar *)
Days(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y  era == yy \div 400  yoe == yy - era * 400
      mp == (m + 9) % 12  doy == (153 * mp + 2) \div 5 + d - 1  doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468
Unix(v) == Days(v.y, v.mo, v.d) * 86400 + v.hh * 3600 + v.mi * 60 + v.ss

(* what a declared type makes of a value *)
Conv(pt, v) ==
  CASE pt.p = "any" -> Ok(v)
    [] pt.p = "int" -> ToInt(v)
    [] pt.p = "float" -> ToFloat(v)
    [] pt.p = "str" -> ToStr(v)
    [] pt.p = "bool" -> Ok(Bl(Truth(v)))
    [] pt.p = "list" -> IF v.t = "list" THEN Ok(v) ELSE Err
    [] pt.p = "dict" -> IF v.t = "map" THEN Ok(v) ELSE Err
    [] pt.p = "enum" -> IF \E j \in 1..Len(pt.opts) : PyEq(pt.opts[j], v) THEN Ok(v) ELSE Err
    [] pt.p = "listtype" -> IF v.t # "list" THEN Err
                            ELSE IF /\ \A j \in 1..Len(v.l) : IsInst(v.l[j], pt.elt)
                                    /\ pt.len >= 0 => Len(v.l) = pt.len
                                    /\ pt.max >= 0 => Len(v.l) <= pt.max
                                 THEN Ok(v) ELSE Err
    [] pt.p = "range" -> LET f == ToFloat(v) IN IF f.ok /\ f.v.t = "float" THEN IF f.v.h >= pt.lo /\ f.v.h <= pt.hi THEN f ELSE Err ELSE Err
    [] pt.p = "log" -> IF v.t = "str" THEN IF IsLevel(v) THEN Ok([t |-> "map", m |-> <<[k |-> "root", v |-> St(v.up)]>>]) ELSE Err
                       ELSE IF v.t # "map" THEN Err
                       ELSE IF \A j \in 1..Len(v.m) : IsLevel(v.m[j].v)
                            THEN Ok([t |-> "map", m |-> [j \in 1..Len(v.m) |-> [k |-> v.m[j].k, v |-> St(v.m[j].v.up)]]]) ELSE Err
    [] pt.p = "level" -> IF v.t = "int" THEN Ok(v)
                         ELSE IF v.t = "str" THEN IF LevelNo(v.up) >= 0 THEN Ok(IntV(LevelNo(v.up))) ELSE Err ELSE Err
    [] pt.p = "fmt" -> IF v.t \in {"none", "fmt"} THEN Ok(v)
                       ELSE IF v.t = "str" THEN IF v.up = "HDF5" THEN Ok([t |-> "fmt", s |-> "hdf5"])
                                                ELSE IF v.up = "ZARR" THEN Ok([t |-> "fmt", s |-> "zarr"]) ELSE Err
                       ELSE Err
    [] pt.p = "utc" -> IF v.t = "time" THEN Ok([t |-> "unix", n |-> Unix(v)])
                       ELSE IF v.t = "int" THEN Ok([t |-> "unix", n |-> v.n]) ELSE Err

(* ------------------------- declarations, classes ------------------------ *)
(* C: classes, each [mro, decls]; the most derived declaration wins *)
HasDecl(c, name) == \E j \in 1..Len(c.decls) : c.decls[j].name = name
DeclIn(c, name) == c.decls[CHOOSE j \in 1..Len(c.decls) : c.decls[j].name = name]
Names(C, c) == UNION {{C[C[c].mro[j]].decls[m].name : m \in 1..Len(C[C[c].mro[j]].decls)} : j \in 1..Len(C[c].mro)}
Resolve(C, c, name) ==
  LET js == {j \in 1..Len(C[c].mro) : HasDecl(C[C[c].mro[j]], name)}
      j == CHOOSE x \in js : \A y \in js : x <= y
  IN DeclIn(C[C[c].mro[j]], name)
KeyOf(d) == IF d.key = "" THEN d.name ELSE d.key
Props(C, c) == {Resolve(C, c, n) : n \in Names(C, c)}

(* a configuration is a sequence of [k, v]; the last entry of a key counts *)
HasKey(cf, k) == \E j \in 1..Len(cf) : cf[j].k = k
ValOf(cf, k) == cf[CHOOSE j \in 1..Len(cf) : cf[j].k = k /\ \A m \in (j+1)..Len(cf) : cf[m].k # k].v
Keys(cf) == {cf[j].k : j \in 1..Len(cf)}

(* ------------------------------ instances ------------------------------- *)
(* an instance [c, dead, vals]; vals: property names with a value of their own *)
New(c) == [c |-> c, dead |-> FALSE, vals |-> [x \in {} |-> NoneV]]
DefaultOf(d) == IF d.def.t = "none" THEN NoneV ELSE Conv(d.pt, d.def).v
Value(C, I, name) == IF name \in DOMAIN I.vals THEN I.vals[name] ELSE DefaultOf(Resolve(C, I.c, name))
Put(I, name, v) == [I EXCEPT !.vals = (name :> v) @@ @]
ReadOK(C, I, o) ==
  /\ \A d \in Props(C, I.c) : HasKey(o.cf, KeyOf(d)) => Conv(d.pt, ValOf(o.cf, KeyOf(d))).ok
  /\ o.strict => Keys(o.cf) \subseteq ({KeyOf(d) : d \in Props(C, I.c)} \cup {o.allow[j] : j \in 1..Len(o.allow)})
  /\ ~o.defaults => {KeyOf(d) : d \in Props(C, I.c)} \subseteq Keys(o.cf)
Configured(C, I, o) ==
  LET got == {d \in Props(C, I.c) : HasKey(o.cf, KeyOf(d))}
  IN [I EXCEPT !.vals = [n \in {d.name : d \in got} |-> LET d == Resolve(C, I.c, n) IN Conv(d.pt, ValOf(o.cf, KeyOf(d))).v] @@ @]
Warns(C, I, o) == \E d \in Props(C, I.c) : d.dep /\ HasKey(o.cf, KeyOf(d))
Out(ok, w, Is) == [ok |-> ok, warn |-> w, is |-> Is]
Kill(Is, i) == [Is EXCEPT ![i] = [@ EXCEPT !.dead = TRUE]]
Extended(v) == [v EXCEPT !.l = Append(@, IntV(99))]
Do(C, Is, o) ==
  CASE o.op = "new" -> Out(TRUE, FALSE, Append(Is, New(o.c)))
    [] o.op = "make" -> LET I == New(o.c) IN                       \* construct and configure in one go
         IF ReadOK(C, I, o) THEN Out(TRUE, Warns(C, I, o), Append(Is, Configured(C, I, o)))
         ELSE Out(FALSE, FALSE, Append(Is, [I EXCEPT !.dead = TRUE]))
    [] o.op = "read" -> LET I == Is[o.i] IN
         IF ReadOK(C, I, o) THEN Out(TRUE, Warns(C, I, o), [Is EXCEPT ![o.i] = Configured(C, I, o)])
         ELSE Out(FALSE, FALSE, Kill(Is, o.i))
    [] o.op = "set" -> LET d == Resolve(C, Is[o.i].c, o.name)  r == Conv(d.pt, o.v) IN
         IF r.ok THEN Out(TRUE, d.dep, [Is EXCEPT ![o.i] = Put(@, o.name, r.v)]) ELSE Out(FALSE, FALSE, Is)
    [] o.op = "get" -> Out(TRUE, Resolve(C, Is[o.i].c, o.name).dep, Is)
    [] o.op = "extend" ->                                         \* the value read is changed in place
         LET v == Value(C, Is[o.i], o.name) IN
         Out(TRUE, Resolve(C, Is[o.i].c, o.name).dep, IF v.t = "list" THEN [Is EXCEPT ![o.i] = Put(@, o.name, Extended(v))] ELSE Is)
Shown(C, Is) == [i \in 1..Len(Is) |->
  IF Is[i].dead THEN <<>> ELSE
  LET ns == SetToSortSeq(Names(C, Is[i].c), LAMBDA a, b : C[Is[i].c].order[a] < C[Is[i].c].order[b])
  IN  [j \in 1..Len(ns) |-> [name |-> ns[j], v |-> Value(C, Is[i], ns[j])]]]
RECURSIVE Run(_, _, _, _)
Run(C, Is, ops, acc) ==
  IF ops = <<>> THEN acc
  ELSE LET r == Do(C, Is, Head(ops)) IN
       Run(C, r.is, Tail(ops), Append(acc, [ok |-> r.ok, warn |-> r.warn, shown |-> Shown(C, r.is)]))
RunHistory(Q) == Run(Q.classes, <<>>, Q.ops, <<>>)
(* a declaration with a default its own type refuses is refused *)
Declare(Q) == [ok |-> Q.def.t = "none" \/ Conv(Q.pt, Q.def).ok, v |-> IF Q.def.t = "none" THEN NoneV ELSE Conv(Q.pt, Q.def).v]
=============================================================================
