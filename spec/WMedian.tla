------------------------------- MODULE WMedian -------------------------------
(* Weighted quantiles and moving weighted medians.  Values are integers; results are twice the value, such that the
   mean of two of them is whole. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

RECURSIVE SumW(_, _)
SumW(W, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN W[i] + SumW(W, S \ {i})
Ones(n) == [i \in 1..n |-> 1]
Live(W) == {i \in 1..Len(W) : W[i] > 0}
Below(A, W, S, v) == SumW(W, {i \in S : A[i] < v})
UpTo(A, W, S, v) == SumW(W, {i \in S : A[i] <= v})
Least(V) == CHOOSE v \in V : \A u \in V : v <= u
Most(V) == CHOOSE v \in V : \A u \in V : v >= u
(* the values at which the weight reaches the part qn/qd of the whole: two if it falls exactly between them *)
Cands(A, W, S, qn, qd) ==
  LET T == SumW(W, S) IN {A[i] : i \in {i \in S : Below(A, W, S, A[i]) * qd <= T * qn /\ T * qn <= UpTo(A, W, S, A[i]) * qd}}
(* at the ends only the first or last one *)
Pick(C, method, whole) ==
  LET lo == Least(C)  hi == Most(C) IN
  CASE method = "lower" -> 2 * lo
    [] method = "higher" -> 2 * hi
    [] OTHER -> IF whole THEN 2 * ((lo + hi) \div 2) ELSE lo + hi
Quantile(A, W0, qn, qd, method, whole) ==
  LET W == IF Live(W0) = {} THEN Ones(Len(W0)) ELSE W0
  IN  Pick(Cands(A, W, Live(W), qn, qd), method, whole)

(* moving medians: data as rows (one row in one dimension), windows of radius ry, rx clipped at the edges *)
None == -99999
WindowOf(i, r, n) == {j \in 1..n : j >= i - r /\ j <= i + r}
Median(A, W, S, method) ==
  LET L == {i \in S : W[i] > 0} IN
  IF L = {} THEN None ELSE Pick(Cands(A, W, L, 1, 2), method, FALSE)
(* a flat index for row y, column x *)
Flat(y, x, nx) == (y - 1) * nx + x
Moving(A, W, ny, nx, ry, rx, method) ==
  [y \in 1..ny |-> [x \in 1..nx |->
     Median(A, W, {Flat(b, a, nx) : b \in WindowOf(y, ry, ny), a \in WindowOf(x, rx, nx)}, method)]]
(* what rounding of the weights may turn a tie into *)
MovingSet(A, W, ny, nx, ry, rx) ==
  LET m(k) == Moving(A, W, ny, nx, ry, rx, k) IN
  [y \in 1..ny |-> [x \in 1..nx |-> <<m("lower")[y][x], m("split")[y][x], m("higher")[y][x]>>]]

RunQuantile(c) == IF c.loose
  THEN [r |-> [k \in 1..Len(c.rows) |-> LET Q(m) == Quantile(c.rows[k].a, c.rows[k].w, c.qn, c.qd, m, c.whole) IN <<Q("lower"), Q("split"), Q("higher")>>]]
  ELSE [r |-> [k \in 1..Len(c.rows) |-> Quantile(c.rows[k].a, c.rows[k].w, c.qn, c.qd, c.method, c.whole)]]
(* a window of one given as a number keeps zero for elements without weight *)
RunMoving(c) ==
  IF c.loose THEN [r |-> MovingSet(c.a, c.w, c.ny, c.nx, c.ry, c.rx)]
  ELSE LET m == Moving(c.a, c.w, c.ny, c.nx, c.ry, c.rx, c.method)
       IN [r |-> IF c.unit THEN [y \in 1..c.ny |-> [x \in 1..c.nx |-> IF m[y][x] = None THEN 0 ELSE m[y][x]]] ELSE m]
RunMedian(c) == IF c.op = "quantile" THEN RunQuantile(c) ELSE RunMoving(c)
=============================================================================
