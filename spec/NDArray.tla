------------------------------ MODULE NDArray ------------------------------
(***************************************************************************)
(* Finite n-dimensional arrays: [shape, data], data in row-major order,    *)
(* indices 0-based as in numpy.  Index items are records                   *)
(*   [k |-> "int", i]                 an integer                           *)
(*   [k |-> "slice", a, b, s, ha, hb] start/stop (if present) and step     *)
(*   [k |-> "list", l]                an index list on one axis            *)
(*   [k |-> "ell"] [k |-> "new"]      ellipsis and newaxis                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE ProdFrom(_, _)
ProdFrom(sh, j) == IF j > Len(sh) THEN 1 ELSE sh[j] * ProdFrom(sh, j + 1)
Size(sh) == ProdFrom(sh, 1)
NDim(A) == Len(A.shape)
RECURSIVE SumFrom(_, _)
SumFrom(q, j) == IF j > Len(q) THEN 0 ELSE q[j] + SumFrom(q, j + 1)
SumSeq(q) == SumFrom(q, 1)
RECURSIVE ConcatAll(_)
ConcatAll(qq) == IF qq = <<>> THEN <<>> ELSE Head(qq) \o ConcatAll(Tail(qq))

(* row-major position (0-based) <-> multi-index *)
Unravel(sh, k) == [d \in 1..Len(sh) |-> (k \div ProdFrom(sh, d + 1)) % sh[d]]
RECURSIVE RavelFrom(_, _, _)
RavelFrom(sh, ix, d) == IF d > Len(sh) THEN 0 ELSE ix[d] * ProdFrom(sh, d + 1) + RavelFrom(sh, ix, d + 1)
Ravel(sh, ix) == RavelFrom(sh, ix, 1)
At(A, ix) == A.data[Ravel(A.shape, ix) + 1]
Build(sh, F(_)) == [shape |-> sh, data |-> [k \in 1..Size(sh) |-> F(Unravel(sh, k - 1))]]
MapArr(A, F(_)) == [shape |-> A.shape, data |-> [k \in 1..Len(A.data) |-> F(A.data[k])]]
Scalar(v) == [shape |-> <<>>, data |-> <<v>>]
Full(sh, v) == [shape |-> sh, data |-> [k \in 1..Size(sh) |-> v]]

(* ------------------------------ splitting ------------------------------- *)
SplitSize(n, p, r) == (n \div p) + (IF r < n % p THEN 1 ELSE 0)          \* r from 0
SplitStart(n, p, r) == r * (n \div p) + Min2(r, n % p)
SplitEnd(n, p, r) == SplitStart(n, p, r) + SplitSize(n, p, r)

Slab(A, ax, start, n) ==      \* ax 0-based
  Build([A.shape EXCEPT ![ax + 1] = n], LAMBDA ix : At(A, [ix EXCEPT ![ax + 1] = @ + start]))
Part(A, ax, p, r) == Slab(A, ax, SplitStart(A.shape[ax + 1], p, r), SplitSize(A.shape[ax + 1], p, r))

(* concatenate a sequence of arrays along an axis *)
RECURSIVE Locate(_, _, _, _)
Locate(As, ax, i, j) == IF i < As[j].shape[ax + 1] THEN <<j, i>> ELSE Locate(As, ax, i - As[j].shape[ax + 1], j + 1)
Concat(As, ax) ==
  LET n == SumSeq([j \in 1..Len(As) |-> As[j].shape[ax + 1]])
  IN  Build([As[1].shape EXCEPT ![ax + 1] = n],
            LAMBDA ix : LET l == Locate(As, ax, ix[ax + 1], 1)
                        IN At(As[l[1]], [ix EXCEPT ![ax + 1] = l[2]]))

(* ------------------------------ indexing -------------------------------- *)
FullSlice == [k |-> "slice", a |-> 0, b |-> 0, s |-> 1, ha |-> FALSE, hb |-> FALSE]
MkSlice(a, b) == [k |-> "slice", a |-> a, b |-> b, s |-> 1, ha |-> TRUE, hb |-> TRUE]
(* python's slice.indices(n) *)
SliceLo(n, it) ==
  LET st == it.s IN
  IF st > 0 THEN IF ~it.ha THEN 0 ELSE IF it.a < 0 THEN Max2(it.a + n, 0) ELSE Min2(it.a, n)
  ELSE IF ~it.ha THEN n - 1 ELSE IF it.a < 0 THEN Max2(it.a + n, -1) ELSE Min2(it.a, n - 1)
SliceHi(n, it) ==
  LET st == it.s IN
  IF st > 0 THEN IF ~it.hb THEN n ELSE IF it.b < 0 THEN Max2(it.b + n, 0) ELSE Min2(it.b, n)
  ELSE IF ~it.hb THEN -1 ELSE IF it.b < 0 THEN Max2(it.b + n, -1) ELSE Min2(it.b, n - 1)
SliceIdx(n, it) ==
  LET lo == SliceLo(n, it)  hi == SliceHi(n, it)
      cnt == IF it.s > 0 THEN IF hi <= lo THEN 0 ELSE 1 + ((hi - lo - 1) \div it.s)
             ELSE IF hi >= lo THEN 0 ELSE 1 + ((lo - hi - 1) \div (-it.s))
  IN  [j \in 1..cnt |-> lo + (j - 1) * it.s]
NormInt(n, i) == IF i < 0 THEN i + n ELSE i
IsAxisItem(it) == it.k \in {"int", "slice", "list"}
CountAxisItems(items) == Cardinality({j \in 1..Len(items) : IsAxisItem(items[j])})
HasEll(items) == \E j \in 1..Len(items) : items[j].k = "ell"
(* expand the ellipsis (or pad) so that every axis has an item *)
Expand(items, nd) ==
  LET fill == [j \in 1..(nd - CountAxisItems(items)) |-> FullSlice]
  IN  IF ~HasEll(items) THEN items \o fill
      ELSE LET p == CHOOSE j \in 1..Len(items) : items[j].k = "ell"
           IN  SubSeq(items, 1, p - 1) \o fill \o SubSeq(items, p + 1, Len(items))
(* the axis (1-based) each expanded item applies to; 0 for newaxis *)
ItemAxis(items, j) == Cardinality({m \in 1..j : IsAxisItem(items[m])})
ItemOfAxis(items, ax) == CHOOSE j \in 1..Len(items) : IsAxisItem(items[j]) /\ ItemAxis(items, j) = ax
(* position (0-based) in the result of expanded item j *)
OutPos(items, j) == Cardinality({m \in 1..(j - 1) : items[m].k # "int"})
IndexOK(items, sh) ==
  /\ CountAxisItems(items) <= Len(sh)
  /\ LET ex == Expand(items, Len(sh)) IN
     \A j \in 1..Len(ex) : IsAxisItem(ex[j]) =>
        LET n == sh[ItemAxis(ex, j)] IN
        /\ ex[j].k = "int" => ex[j].i >= -n /\ ex[j].i < n
        /\ ex[j].k = "list" => \A m \in 1..Len(ex[j].l) : ex[j].l[m] >= -n /\ ex[j].l[m] < n
(* the source positions each expanded item selects *)
Positions(it, n) == CASE it.k = "slice" -> SliceIdx(n, it)
                      [] it.k = "list" -> [m \in 1..Len(it.l) |-> NormInt(n, it.l[m])]
                      [] it.k = "int" -> <<NormInt(n, it.i)>>
                      [] OTHER -> <<0>>
Index(A, items) ==
  LET ex == Expand(items, NDim(A))
      pos == [j \in 1..Len(ex) |-> Positions(ex[j], IF IsAxisItem(ex[j]) THEN A.shape[ItemAxis(ex, j)] ELSE 1)]
      keep == SelectSeq([j \in 1..Len(ex) |-> j], LAMBDA j : ex[j].k # "int")
      sh == [m \in 1..Len(keep) |-> Len(pos[keep[m]])]
      where == [ax \in 1..NDim(A) |-> ItemOfAxis(ex, ax)]
      outp == [ax \in 1..NDim(A) |-> OutPos(ex, where[ax]) + 1]
  IN  Build(sh, LAMBDA ix : At(A, [ax \in 1..NDim(A) |->
           IF ex[where[ax]].k = "int" THEN pos[where[ax]][1] ELSE pos[where[ax]][ix[outp[ax]] + 1]]))

(* ------------------------------ reshaping ------------------------------- *)
Transpose(A, perm) ==         \* perm 0-based: result axis j is source axis perm[j]
  LET sh == [j \in 1..Len(perm) |-> A.shape[perm[j] + 1]]
      inv == [d \in 1..Len(perm) |-> CHOOSE j \in 1..Len(perm) : perm[j] + 1 = d]
  IN  Build(sh, LAMBDA ix : At(A, [d \in 1..Len(perm) |-> ix[inv[d]]]))
Reshape(A, sh) == [shape |-> sh, data |-> A.data]

(* ------------------------- elementwise, reductions ---------------------- *)
Ap(f, x, y) == CASE f = "add" -> x + y [] f = "subtract" -> x - y [] f = "multiply" -> x * y
                 [] f = "maximum" -> Max2(x, y) [] f = "minimum" -> Min2(x, y)
Ap1(f, x) == CASE f = "negative" -> -x [] f = "square" -> x * x [] f = "absolute" -> (IF x < 0 THEN -x ELSE x)
               [] f = "positive" -> x
BDim(sh, nd, j) == IF j <= nd - Len(sh) THEN 1 ELSE sh[j - (nd - Len(sh))]
CanBroadcast(s1, s2) == LET nd == Max2(Len(s1), Len(s2)) IN
  \A j \in 1..nd : BDim(s1, nd, j) = BDim(s2, nd, j) \/ BDim(s1, nd, j) = 1 \/ BDim(s2, nd, j) = 1
BShape(s1, s2) == LET nd == Max2(Len(s1), Len(s2)) IN
  [j \in 1..nd |-> IF BDim(s1, nd, j) = 1 THEN BDim(s2, nd, j) ELSE BDim(s1, nd, j)]
BAt(A, ix) == LET off == Len(ix) - NDim(A) IN At(A, [d \in 1..NDim(A) |-> IF A.shape[d] = 1 THEN 0 ELSE ix[d + off]])
Binary(f, A, B) == Build(BShape(A.shape, B.shape), LAMBDA ix : Ap(f, BAt(A, ix), BAt(B, ix)))
BroadcastTo(A, sh) == Build(sh, LAMBDA ix : BAt(A, ix))

RECURSIVE FoldAp(_, _, _, _)
FoldAp(f, q, acc, j) == IF j > Len(q) THEN acc ELSE FoldAp(f, q, Ap(f, acc, q[j]), j + 1)
FoldF(f, q) == IF q = <<>> THEN (IF f = "multiply" THEN 1 ELSE 0) ELSE FoldAp(f, q, q[1], 2)
(* reduce over a set of axes (0-based) *)
Reduce(f, A, axes, keep) ==
  LET nd == NDim(A)
      kept == SelectSeq([d \in 1..nd |-> d], LAMBDA d : (d - 1) \notin axes)
      red == SelectSeq([d \in 1..nd |-> d], LAMBDA d : (d - 1) \in axes)
      rsh == [m \in 1..Len(red) |-> A.shape[red[m]]]
      ksh == [m \in 1..Len(kept) |-> A.shape[kept[m]]]
      osh == IF keep THEN [d \in 1..nd |-> IF (d - 1) \in axes THEN 1 ELSE A.shape[d]] ELSE ksh
      Src(kix, rix) == [d \in 1..nd |-> IF (d - 1) \in axes
                                        THEN rix[CHOOSE m \in 1..Len(red) : red[m] = d]
                                        ELSE kix[CHOOSE m \in 1..Len(kept) : kept[m] = d]]
      One(kix) == FoldF(f, [k \in 1..Size(rsh) |-> At(A, Src(kix, Unravel(rsh, k - 1)))])
  IN  [shape |-> osh, data |-> [k \in 1..Size(ksh) |-> One(Unravel(ksh, k - 1))]]
Accumulate(f, A, ax) ==
  Build(A.shape, LAMBDA ix : FoldF(f, [m \in 1..(ix[ax + 1] + 1) |-> At(A, [ix EXCEPT ![ax + 1] = m - 1])]))

(* assign a broadcastable value to an index *)
SetIndex(A, items, V) ==
  LET ex == Expand(items, NDim(A))
      pos == [j \in 1..Len(ex) |-> Positions(ex[j], IF IsAxisItem(ex[j]) THEN A.shape[ItemAxis(ex, j)] ELSE 1)]
      keep == SelectSeq([j \in 1..Len(ex) |-> j], LAMBDA j : ex[j].k # "int")
      sh == [m \in 1..Len(keep) |-> Len(pos[keep[m]])]
      VV == BroadcastTo(V, sh)
      where == [ax \in 1..NDim(A) |-> ItemOfAxis(ex, ax)]
      Hit(ix) == \A ax \in 1..NDim(A) : \E m \in 1..Len(pos[where[ax]]) : pos[where[ax]][m] = ix[ax]
      Which(ix, ax) == LET q == pos[where[ax]] IN (CHOOSE m \in 1..Len(q) : q[m] = ix[ax] /\ \A m2 \in (m+1)..Len(q) : q[m2] # ix[ax]) - 1
      AxOf(m) == ItemAxis(ex, keep[m])
      Vix(ix) == [m \in 1..Len(keep) |-> IF IsAxisItem(ex[keep[m]]) THEN Which(ix, AxOf(m)) ELSE 0]
  IN  Build(A.shape, LAMBDA ix : IF Hit(ix) THEN At(VV, Vix(ix)) ELSE At(A, ix))
SetShape(items, sh) ==
  LET ex == Expand(items, Len(sh))
      keep == SelectSeq([j \in 1..Len(ex) |-> j], LAMBDA j : ex[j].k # "int")
  IN  [m \in 1..Len(keep) |-> LET j == keep[m] IN Len(Positions(ex[j], IF IsAxisItem(ex[j]) THEN sh[ItemAxis(ex, j)] ELSE 1))]
=============================================================================
