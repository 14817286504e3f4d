------------------------------ MODULE MC_Split ------------------------------
(* Dealing items out one at a time, rank by rank, ends in the fair split.  *)
EXTENDS Split
CONSTANTS MaxN, MaxM
VARIABLES n, m, given, r
vars == <<n, m, given, r>>
Init == n \in 0..MaxN /\ m \in 1..MaxM /\ given = [j \in 0..(m-1) |-> 0] /\ r = 0
Deal == r < n /\ given' = [given EXCEPT ![r % m] = @ + 1] /\ r' = r + 1 /\ UNCHANGED <<n, m>>
Spec == Init /\ [][Deal]_vars
Fair == r = n => \A j \in 0..(m-1) : given[j] = SplitSize(n, m, j)
Consecutive == /\ SplitStart(n, m, 0) = 0 /\ SplitEnd(n, m, m - 1) = n
               /\ \A j \in 0..(m-2) : SplitEnd(n, m, j) = SplitStart(n, m, j + 1)
Even == \A i, j \in 0..(m-1) : i < j => SplitSize(n, m, i) - SplitSize(n, m, j) \in {0, 1}
AltCovers == ConcatAll([j \in 1..m |-> Alt(n, m, j - 1)]) # <<>> =>
              {ConcatAll([j \in 1..m |-> Alt(n, m, j - 1)])[k] : k \in 1..n} = 0..(n-1)
(* what the ranges of huge totals are, from those of small ones *)
Shift == \A k \in 0..3, j \in 0..(m-1) :
  /\ SplitSize(n + k * m, m, j) = SplitSize(n, m, j) + k
  /\ SplitStart(n + k * m, m, j) = SplitStart(n, m, j) + k * j
  /\ SplitEnd(n + k * m, m, j) = SplitEnd(n, m, j) + k * (j + 1)
JudgeOK == JudgeRand([n |-> n, m |-> m, parts |-> [j \in 1..m |-> Con(n, m, j - 1)]]).ok
=============================================================================
