----------------------------- MODULE MC_Config -----------------------------
(* All short histories of two classes, the second overriding declarations  *)
(* of the first with another type and another key.                          *)
EXTENDS Config
CONSTANTS Steps, MaxInst
VARIABLES is, n, last
vars == <<is, n, last>>
PT(p) == [p |-> p, opts |-> <<>>, elt |-> "", len |-> -1, max |-> -1, lo |-> 0, hi |-> 0]
D(nm, key, pt, def) == [name |-> nm, key |-> key, pt |-> pt, def |-> def, dep |-> FALSE]
L0 == [t |-> "list", l |-> <<>>]
L2 == [t |-> "list", l |-> <<IntV(1), IntV(2)>>]
S5 == [t |-> "str", s |-> "5", up |-> "5", isint |-> TRUE, n |-> 5, isfloat |-> TRUE, h |-> 10]
Cls == << [mro |-> <<1>>, order |-> [x |-> 1, l |-> 2, z |-> 3],
           decls |-> <<D("x", "", PT("int"), IntV(1)), D("l", "", PT("any"), L0), D("z", "", [PT("range") EXCEPT !.hi = 4], Flt(2))>>],
          [mro |-> <<2, 1>>, order |-> [x |-> 1, l |-> 2, z |-> 3],
           decls |-> <<D("x", "y", PT("str"), St("d")), D("l", "", [PT("listtype") EXCEPT !.max = 1], L0)>>] >>
Vals == {IntV(1), IntV(7), S5, St("q"), L0, L2, NoneV, [t |-> "nan"]}
Cfs == {<<>>} \cup {<<[k |-> k, v |-> v]>> : k \in {"x", "y", "l", "z", "w"}, v \in Vals}
       \cup {<<[k |-> "x", v |-> IntV(7)], [k |-> "y", v |-> v]>> : v \in Vals}
Init == is = <<>> /\ n = 0 /\ last = 0
Apply(o, i) == is' = Do(Cls, is, o).is /\ n' = n + 1 /\ last' = i
NewI == n < Steps /\ Len(is) < MaxInst /\ \E c \in {1, 2} : Apply([op |-> "new", c |-> c], Len(is) + 1)
Alive == {i \in 1..Len(is) : ~is[i].dead}
ReadI == n < Steps /\ \E i \in Alive : \E cf \in Cfs, st \in BOOLEAN :
           Apply([op |-> "read", i |-> i, cf |-> cf, strict |-> st, allow |-> <<"w">>, defaults |-> TRUE], i)
SetI == n < Steps /\ \E i \in Alive : \E nm \in {"x", "l", "z"}, v \in Vals : Apply([op |-> "set", i |-> i, name |-> nm, v |-> v], i)
ExtI == n < Steps /\ \E i \in Alive : Apply([op |-> "extend", i |-> i, name |-> "l"], i)
Spec == Init /\ [][NewI \/ ReadI \/ SetI \/ ExtI]_vars
(* what can be read is always of the declared type *)
Typed == \A i \in Alive : LET c == is[i].c IN
  /\ c = 1 => Value(Cls, is[i], "x").t = "int"
  /\ c = 2 => Value(Cls, is[i], "x").t = "str"
  /\ Value(Cls, is[i], "z").t = "float" /\ Value(Cls, is[i], "z").h \in 0..4
(* nothing done to one instance shows in another *)
Apart == [][\A i \in 1..Len(is) : i # last' => is'[i] = is[i]]_vars
(* a new instance has the defaults whatever happened before *)
Fresh == [][Len(is') > Len(is) => \A nm \in {"x", "l", "z"} :
             Value(Cls, is'[Len(is')], nm) = DefaultOf(Resolve(Cls, is'[Len(is')].c, nm))]_vars
(* reading the same configuration again changes nothing *)
Again == \A i \in 1..Len(is) : \A cf \in Cfs :
             LET o == [op |-> "read", i |-> i, cf |-> cf, strict |-> FALSE, allow |-> <<>>, defaults |-> TRUE] IN
             ReadOK(Cls, is[i], o) => Configured(Cls, Configured(Cls, is[i], o), o) = Configured(Cls, is[i], o)
=============================================================================
