----------------------------- MODULE Elementwise ----------------------------
(***************************************************************************)
(* Functions made to take numbers, lists and arrays alike; reciprocals that *)
(* leave zero alone; the distinct items of a list.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
(* An argument: [kind ("scalar", "list", "tuple", "array"), shape, data (row by row)] *)
IsScalar(a) == a.kind = "scalar"
Empty(a) == ~ IsScalar(a) /\ \E j \in 1..Len(a.shape) : a.shape[j] = 0
(* shapes are aligned at their ends; 1 stretches *)
Rank(as) == LET S == { Len(as[j].shape) : j \in 1..Len(as) } IN CHOOSE n \in S : \A m \in S : m <= n
DimOf(a, r, k) == LET j == k - (r - Len(a.shape)) IN IF j < 1 THEN 1 ELSE a.shape[j]
Fits(as) == LET r == Rank(as) IN \A k \in 1..r : \A i, j \in 1..Len(as) :
              LET x == DimOf(as[i], r, k)  y == DimOf(as[j], r, k) IN x = y \/ x = 1 \/ y = 1
Joint(as) == LET r == Rank(as) IN
  [k \in 1..r |-> LET S == { DimOf(as[j], r, k) : j \in 1..Len(as) } IN IF S = {1} THEN 1 ELSE CHOOSE n \in S : n # 1] \o <<>>
RECURSIVE Count(_)
Count(s) == IF s = <<>> THEN 1 ELSE Head(s) * Count(Tail(s))
(* the index (from 0) of the n-th element (from 0) *)
RECURSIVE Index(_, _)
Index(s, n) == IF s = <<>> THEN <<>> ELSE Append(Index(Front(s), n \div s[Len(s)]), n % s[Len(s)])
RECURSIVE Flat(_, _, _)
Flat(s, i, acc) == IF s = <<>> THEN acc ELSE Flat(Tail(s), Tail(i), acc * Head(s) + Head(i))
Elem(a, r, i) == LET own == [k \in 1..Len(a.shape) |-> IF a.shape[k] = 1 THEN 0 ELSE i[k + r - Len(a.shape)]] \o <<>>
                 IN a.data[Flat(a.shape, own, 0) + 1]
(* the function that is made to take anything: k + 3a + 5b ... *)
RECURSIVE Sum(_, _, _, _)
Sum(as, r, i, j) == IF j > Len(as) THEN 0 ELSE (2 * j + 1) * Elem(as[j], r, i) + Sum(as, r, i, j + 1)
Mapped(as, k) ==
  LET s == Joint(as)  r == Len(s) IN [shape |-> s, data |-> [n \in 1..Count(s) |-> k + Sum(as, r, Index(s, n - 1), 1)] \o <<>>]
AllScalar(as) == \A j \in 1..Len(as) : IsScalar(as[j])
Shown(as, k) == IF ~ Fits(as) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, scalar |-> AllScalar(as), shape |-> Mapped(as, k).shape, data |-> Mapped(as, k).data]
(* scalarised functions see a number as an array of one *)
AsArray(a) == IF IsScalar(a) THEN [a EXCEPT !.kind = "array", !.shape = <<1>>] ELSE [a EXCEPT !.kind = "array"]
Scalarised(as, k) ==
  IF \A j \in 1..Len(as) : ~ IsScalar(as[j]) /\ Len(as[j].shape) > 0 /\ as[j].shape[1] = 0
  THEN [ok |-> TRUE, scalar |-> FALSE, shape |-> <<0>>, data |-> <<>>, seen |-> <<>>]
  ELSE LET bs == [j \in 1..Len(as) |-> AsArray(as[j])] \o <<>>  m == Shown(bs, k) IN
       IF ~ m.ok THEN m
       ELSE [ok |-> TRUE, scalar |-> AllScalar(as), shape |-> IF AllScalar(as) THEN <<>> ELSE m.shape, data |-> m.data,
             seen |-> [j \in 1..Len(bs) |-> bs[j].shape] \o <<>>]
Listised(as, k) ==
  LET m == Shown(as, k) IN
  IF ~ m.ok THEN m ELSE m @@ [seen |-> [j \in 1..Len(as) |-> IF IsScalar(as[j]) THEN "scalar" ELSE "array"] \o <<>>]
-----------------------------------------------------------------------------
(* Numbers are (-1)^s m 2^e with m odd, or "zero", "inf", "nan".  1/m to p bits, to the nearest: *)
RECURSIVE Divide(_, _, _)
Divide(r, m, n) == IF n = 0 THEN <<>> ELSE LET t == 2 * r IN IF t >= m THEN <<1>> \o Divide(t - m, m, n - 1) ELSE <<0>> \o Divide(t, m, n - 1)
RECURSIVE Lead(_, _)
Lead(m, k) == IF 2 ^ k >= m THEN k ELSE Lead(m, k + 1)        \* 1/m = 0.00..01.. : its first bit is worth 2^-Lead
RECURSIVE AddOne(_)
AddOne(b) == IF b = <<>> THEN <<1>> ELSE IF b[Len(b)] = 0 THEN Append(Front(b), 1) ELSE Append(AddOne(Front(b)), 0)
RECURSIVE Rest(_, _, _)
Rest(r, m, n) == IF n = 0 THEN r ELSE LET t == 2 * r IN Rest(IF t >= m THEN t - m ELSE t, m, n - 1)
(* [b: bits without trailing zeros, e: the first is worth 2^e] *)
RECURSIVE Trim(_)
Trim(b) == IF b[Len(b)] = 1 THEN b ELSE Trim(Front(b))
Recip(m, p) ==
  IF m = 1 THEN [b |-> <<1>>, e |-> 0]
  ELSE LET k == Lead(m, 0)  b == SubSeq(Divide(1, m, k + p - 1), k, k + p - 1)  left == Rest(1, m, k + p - 1)
           up == 2 * left > m                                            \* never half way: m is odd
           c == IF up THEN AddOne(b) ELSE b
       IN [b |-> Trim(c), e |-> (IF Len(c) > Len(b) THEN 1 ELSE 0) - k]
Invert(v, p, tiny) ==
  CASE v.k = "zero" -> [k |-> "zero"]
    [] v.k = "inf" -> [k |-> "zero"]
    [] v.k = "nan" -> [k |-> "nan"]
    [] OTHER -> IF v.e < tiny THEN [k |-> "zero"]          \* too small for its reciprocal to be a number
                ELSE LET r == Recip(v.m, p) IN [k |-> "num", s |-> v.s, b |-> r.b, e |-> r.e - v.e]
(* a complex number a(1 +- i) or a or ai, a a power of two *)
InvertC(v) ==
  CASE v.k = "zero" -> [k |-> "zero"]
    [] v.k = "re" -> [k |-> "re", s |-> v.s, e |-> 0 - v.e]
    [] v.k = "im" -> [k |-> "im", s |-> 1 - v.s, e |-> 0 - v.e]
    [] v.k = "both" -> [k |-> "both", s |-> v.s, t |-> 1 - v.t, e |-> 0 - v.e - 1]
Inverted(P) ==
  IF P.out = "shape" THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, shape |-> P.shape,
        data |-> [j \in 1..Len(P.data) |-> IF P.cplx THEN InvertC(P.data[j]) ELSE Invert(P.data[j], P.p, P.tiny)] \o <<>>]
RECURSIVE Distinct(_, _)
Distinct(s, seen) == IF s = <<>> THEN <<>> ELSE IF Head(s) \in seen THEN Distinct(Tail(s), seen) ELSE <<Head(s)>> \o Distinct(Tail(s), seen \cup {Head(s)})
-----------------------------------------------------------------------------
RunProgram(P) ==
  CASE P.op = "vectorize" -> Shown(P.args, P.k)
    [] P.op = "scalarize" -> Scalarised(P.args, P.k)
    [] P.op = "listize" -> Listised(P.args, P.k)
    [] P.op = "invert" -> Inverted(P)
    [] P.op = "unique" -> [ok |-> TRUE, data |-> Distinct(P.data, {})]
=============================================================================
