------------------------------ MODULE Truncate ------------------------------
(* Binary numbers truncated to an error bound.  A number is [s, b, e]: its sign (0 or 1), its bits (the first
   worth 2^e) and e; numbers of a format with p bits have p of them, with leading zeros only at the format's
   lowest exponent (subnormal numbers and zero). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

MaxOf(x, y) == IF x > y THEN x ELSE y
MinOf(x, y) == IF x < y THEN x ELSE y
IsZero(b) == \A i \in 1..Len(b) : b[i] = 0
FirstOne(b) == CHOOSE i \in 1..Len(b) : b[i] = 1 /\ \A j \in 1..(i-1) : b[j] = 0
(* the power of two at or below a number that is not zero *)
Top(n) == n.e - FirstOne(n.b) + 1
Zeros(k) == [i \in 1..k |-> 0]

RECURSIVE IncBits(_)
IncBits(b) == IF b = <<>> THEN <<1>>
              ELSE IF b[Len(b)] = 0 THEN [b EXCEPT ![Len(b)] = 1]
              ELSE Append(IncBits(SubSeq(b, 1, Len(b) - 1)), 0)

(* b rounded to a multiple of 2^k (of its last bit), ties to even: as many bits as b, or one more if it carried *)
RoundBits(b, k) ==
  IF k <= 0 THEN b
  ELSE IF k > Len(b) THEN Zeros(Len(b))
  ELSE LET n == Len(b) - k
           hd == SubSeq(b, 1, n)
           up == b[n+1] = 1 /\ (~IsZero(SubSeq(b, n + 2, Len(b))) \/ (n > 0 /\ b[MaxOf(n, 1)] = 1))
           h2 == IF up THEN IncBits(hd) ELSE hd
       IN h2 \o Zeros(k)

(* how many of v's bits an error allows to drop: the granularity is the smallest power of two above it *)
Drop(v, err) == IF IsZero(err.b) THEN 0 ELSE MaxOf(0, Top(err) - (v.e - Len(v.b) + 1) + 1)
ZeroNum(s, p, emin) == [s |-> s, b |-> Zeros(p), e |-> emin]
(* back to a format with p bits: a carry moves the exponent, what is zero is at the lowest one *)
Normal(s, b, e, p, emin) ==
  IF IsZero(b) THEN ZeroNum(s, p, emin)
  ELSE IF Len(b) > p THEN [s |-> s, b |-> SubSeq(b, 1, p), e |-> e + 1]
  ELSE [s |-> s, b |-> b, e |-> e]
Trunc(v, err, emin) == Normal(v.s, RoundBits(v.b, Drop(v, err)), v.e, Len(v.b), emin)

(* exact product of the bits of two numbers, worth 2^e each *)
RECURSIVE Carry(_, _)
Carry(c, k) == IF k = 1 THEN c
               ELSE Carry([c EXCEPT ![k] = @ % 2, ![k-1] = @ + (c[k] \div 2)], k - 1)
RECURSIVE SumCol(_, _, _, _)
SumCol(a, b, k, i) == IF i > Len(a) THEN 0
                      ELSE (IF k - i \in 1..Len(b) THEN a[i] * b[k-i] ELSE 0) + SumCol(a, b, k, i + 1)
Times(x, y) ==
  LET c == [k \in 1..(Len(x.b) + Len(y.b)) |-> SumCol(x.b, y.b, k, 1)] \o <<>>
  (* column k (from 2) is worth 2^(x.e+y.e-(k-2)); column 1 only receives carries *)
  IN [s |-> (x.s + y.s) % 2, b |-> Carry(c, Len(c)), e |-> x.e + y.e + 1]
(* a number rounded to the format with p bits and lowest exponent emin *)
ToFormat(x, p, emin) ==
  IF IsZero(x.b) THEN ZeroNum(x.s, p, emin)
  ELSE LET top == MaxOf(Top(x), emin)
           lead == x.e - top            \* bits in front, negative: zeros to be put there
           b0 == IF lead >= 0 THEN SubSeq(x.b, lead + 1, Len(x.b)) ELSE Zeros(-lead) \o x.b
           b1 == IF Len(b0) < p THEN b0 \o Zeros(p - Len(b0)) ELSE b0
           r == RoundBits(b1, Len(b1) - p)
       IN IF IsZero(r) THEN ZeroNum(x.s, p, emin)
          ELSE IF Len(r) > Len(b1) THEN [s |-> x.s, b |-> SubSeq(r, 1, p), e |-> top + 1]
          ELSE [s |-> x.s, b |-> SubSeq(r, 1, p), e |-> top]
Mag(x) == [x EXCEPT !.s = 0]
RelErr(v, prec, emin) == Mag(ToFormat(Times(v, prec), Len(v.b), emin))
TruncRel(v, prec, emin) == Trunc(v, RelErr(v, prec, emin), emin)

RECURSIVE Log2(_)
Log2(m) == IF m <= 1 THEN 0 ELSE 1 + Log2(m \div 2)
IsPow2(m) == m = 2^Log2(m)
PowNum(e) == [s |-> 0, b |-> <<1>>, e |-> e]
(* the power of two at or below 1/sqrt(m 2^e) *)
WeightErr(m, e) == LET up == Log2(m) + e + (IF IsPow2(m) THEN 0 ELSE 1) IN PowNum((-up) \div 2)
TruncWeight(v, w, fallback, emin) ==
  IF w.m = 0 THEN TruncRel(v, fallback, emin) ELSE Trunc(v, WeightErr(w.m, w.e), emin)

(* the complex form: elements are [re, im], numbers in double precision, and their size as a*2^q, b*2^q with small
   integers; the error is the larger of the element's own and the row's, in units of the last bit of prec *)
SqTop(m, a, b) == LET x == m * m * (a * a + b * b) IN Log2(x) \div 2
MaxSq(row) == CHOOSE x \in {r.a * r.a + r.b * r.b : r \in {row[i] : i \in 1..Len(row)}} :
                 \A i \in 1..Len(row) : row[i].a * row[i].a + row[i].b * row[i].b <= x
ElemTops(el, row, prec, pmax) ==
  (IF prec.m = 0 \/ (el.a = 0 /\ el.b = 0) THEN {} ELSE {prec.e + SqTop(prec.m, el.a, el.b)})
  \cup (IF pmax.m = 0 \/ MaxSq(row) = 0 THEN {} ELSE {pmax.e + Log2(pmax.m * pmax.m * MaxSq(row)) \div 2})
MaxIn(S) == CHOOSE x \in S : \A y \in S : y <= x
TruncElem(el, row, prec, pmax, q, emin) ==
  LET T == ElemTops(el, row, prec, pmax)
      err == IF T = {} THEN [s |-> 0, b |-> <<0>>, e |-> 0] ELSE PowNum(q + MaxIn(T))
  IN <<Trunc(ToFormat(el.re, 24, emin), err, emin), Trunc(ToFormat(el.im, 24, emin), err, emin)>>

(*--- the truncation task: which datasets, with which parameters ---*)
NoTrunc == [on |-> FALSE]
Given(c, d) == IF \E i \in 1..Len(c.config) : c.config[i].name = d.name
               THEN (CHOOSE x \in {c.config[i] : i \in 1..Len(c.config)} : x.name = d.name).p
               ELSE d.p
(* p: [k: "no", "yes", "prec", "dict", prec, w, var, has...] ; var is the variance increase as 1/n, in n *)
ParamsOf(g) ==
  IF g.k = "no" THEN NoTrunc
  ELSE [on |-> TRUE,
        prec |-> IF g.k = "prec" \/ (g.k = "dict" /\ g.hasprec) THEN "given" ELSE "default",
        w |-> IF g.k = "dict" THEN g.w ELSE "",
        var |-> IF g.k = "dict" /\ g.var > 0 THEN g.var ELSE 1000]

(* position of dataset element i (from 0) in a dataset with fewer axes *)
RECURSIVE Unrav(_, _)
Unrav(i, shp) == IF shp = <<>> THEN <<>>
                 ELSE LET n == Len(shp) IN Append(Unrav(i \div shp[n], SubSeq(shp, 1, n - 1)), i % shp[n])
RECURSIVE Rav(_, _)
Rav(ix, shp) == IF shp = <<>> THEN 0
                ELSE LET n == Len(shp) IN Rav(SubSeq(ix, 1, n - 1), SubSeq(shp, 1, n - 1)) * shp[n] + ix[n]
SizesOf(c, axes) == [k \in 1..Len(axes) |-> c.size[axes[k]]]
AxPos(axes, a) == CHOOSE k \in 1..Len(axes) : axes[k] = a
WeightAt(c, d, w, i) ==
  LET ix == Unrav(i, SizesOf(c, d.axes))
      wx == [k \in 1..Len(w.axes) |-> ix[AxPos(d.axes, w.axes[k])]]
  IN w.vals[Rav(wx, SizesOf(c, w.axes)) + 1]
FindDs(c, nm) == CHOOSE w \in {c.weights[i] : i \in 1..Len(c.weights)} : w.name = nm
(* the weights hold 3 m 2^e: three is the variance of the truncation error in units of the bound; complex data have
   half the variance in each part *)
Effective(x, var, cplx) == IF x.m = 0 THEN x ELSE [m |-> x.m * var, e |-> x.e + (IF cplx THEN 1 ELSE 0)]
TaskDs(c, d) ==
  LET p == ParamsOf(Given(c, d))
      n == IF d.cplx THEN 2 ELSE 1
      prec == IF p.prec = "given" THEN Given(c, d).prec[d.fmt] ELSE c.defprec[d.fmt]
  IN IF ~p.on THEN d.vals
     ELSE [j \in 1..Len(d.vals) |->
             IF p.w = "" THEN TruncRel(d.vals[j], prec, d.emin)
             ELSE TruncWeight(d.vals[j], Effective(WeightAt(c, d, FindDs(c, p.w), (j - 1) \div n), p.var, d.cplx), prec, d.emin)]
Chunked(c, d) == IF c.chunk /\ d.chunks # <<>>
                 THEN [k \in 1..Len(d.chunks) |-> MinOf(d.chunks[k], SizesOf(c, d.axes)[k])]
                 ELSE <<>>

RunTrunc(c) ==
  IF c.op = "scalar" THEN [r |-> Trunc(c.v, c.err, c.emin)]
  ELSE IF c.op = "int" THEN (LET t == Trunc(c.v, c.err, c.emin) IN [r |-> IF IsZero(t.b) THEN Mag(t) ELSE t])
  ELSE IF c.op = "relative" THEN [r |-> [i \in 1..Len(c.v) |-> TruncRel(c.v[i], c.prec, c.emin)]]
  ELSE IF c.op = "weights" THEN [r |-> [i \in 1..Len(c.v) |-> TruncWeight(c.v[i], c.w[i], c.prec, c.emin)]]
  ELSE IF c.op = "maxc" THEN [r |-> [i \in 1..Len(c.rows) |-> [j \in 1..Len(c.rows[i].x) |->
                                 TruncElem(c.rows[i].x[j], c.rows[i].x, c.prec, c.pmax, c.rows[i].q, c.emin)]]]
  ELSE [r |-> [i \in 1..Len(c.dsets) |-> [name |-> c.dsets[i].name, vals |-> TaskDs(c, c.dsets[i]), chunks |-> Chunked(c, c.dsets[i])]]]
=============================================================================
