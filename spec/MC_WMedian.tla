----------------------------- MODULE MC_WMedian ------------------------------
(* Selection by narrowing down a range at any division, and medians kept up with a window that slides over the data,
   both against the definition. *)
EXTENDS WMedian
CONSTANTS MaxN, MaxV, MaxW
VARIABLES mode, a, w, q, method, lo, hi, qs, ans, pos, box, out, r
vars == <<mode, a, w, q, method, lo, hi, qs, ans, pos, box, out, r>>
Seqs(n, S) == [1..n -> S]
N == Len(a)
Start ==
  /\ \E n \in 1..MaxN : a \in Seqs(n, 1..MaxV) /\ w \in Seqs(n, 0..MaxW)
  /\ method \in {"lower", "higher", "split"}
  /\ out = <<>> /\ ans = None /\ lo = 1 /\ hi = Len(a)
(* selection works on the sorted elements; targets in quarters of the whole *)
Sorted == \A i \in 1..(N-1) : a[i] <= a[i+1]
Ws == IF Live(w) = {} THEN Ones(N) ELSE w
InitQ == /\ mode = "select" /\ Start /\ Sorted /\ q \in 0..4 /\ qs = q * SumW(Ws, 1..N) /\ pos = 0 /\ box = {} /\ r = 0
InitM == /\ mode = "move" /\ Start /\ q = 2 /\ qs = 0 /\ r \in 0..2 /\ pos = 1 /\ box = {j \in 1..N : j <= 1 + r /\ w[j] > 0}
Init == InitQ \/ InitM

LeftBest(k) == LET L == {i \in 1..k : Ws[i] > 0} IN IF L = {} THEN 0 ELSE CHOOSE i \in L : \A j \in L : j <= i
RightBest(k) == LET L == {i \in (k+1)..N : Ws[i] > 0} IN IF L = {} THEN 0 ELSE CHOOSE i \in L : \A j \in L : j >= i
Tie(k) == LET i == LeftBest(k)  j == RightBest(k) IN
          IF j = 0 THEN 2 * a[i] ELSE IF i = 0 THEN 2 * a[j] ELSE Pick({a[i], a[j]}, method, FALSE)
Divide ==
  /\ mode = "select" /\ ans = None /\ lo < hi
  /\ \E k \in lo..(hi-1) :
       LET left == 4 * SumW(Ws, lo..k) IN
       IF qs = left THEN ans' = Tie(k) /\ UNCHANGED <<lo, hi, qs>>
       ELSE IF qs < left THEN hi' = k /\ UNCHANGED <<lo, qs, ans>>
       ELSE lo' = k + 1 /\ qs' = qs - left /\ UNCHANGED <<hi, ans>>
  /\ UNCHANGED <<mode, a, w, q, method, pos, box, out, r>>
Single == /\ mode = "select" /\ ans = None /\ lo = hi /\ ans' = 2 * a[lo]
          /\ UNCHANGED <<mode, a, w, q, method, lo, hi, qs, pos, box, out, r>>
Slide ==
  /\ mode = "move" /\ pos <= N
  /\ out' = Append(out, Median(a, w, box, method))
  /\ pos' = pos + 1
  /\ box' = (box \ {pos - r}) \cup {j \in {pos + 1 + r} : j <= N /\ w[j] > 0}
  /\ UNCHANGED <<mode, a, w, q, method, lo, hi, qs, ans, r>>
Next == Divide \/ Single \/ Slide
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
SelectOK == (mode = "select" /\ ans # None) => ans = Quantile(a, w, q, 4, method, FALSE)
Weighty == (mode = "select" /\ ans = None /\ lo = hi) => Ws[lo] > 0
AsDefined == mode = "move" => \A i \in 1..Len(out) : out[i] = Moving(a, w, 1, N, 0, r, method)[1][i]
BoxOK == (mode = "move" /\ pos <= N) => box = {j \in WindowOf(pos, r, N) : w[j] > 0}
AtMostTwo == mode = "select" => Cardinality(Cands(a, Ws, Live(Ws), q, 4)) \in 1..2
AnyOrder == mode = "select" => Quantile(Reverse(a), Reverse(w), q, 4, method, FALSE) = Quantile(a, w, q, 4, method, FALSE)
Ends == (mode = "select" /\ ans # None) => /\ (q = 0 => ans = 2 * Least({a[i] : i \in Live(Ws)}))
                                           /\ (q = 4 => ans = 2 * Most({a[i] : i \in Live(Ws)}))
Finishes == <>(IF mode = "select" THEN ans # None ELSE Len(out) = N)
=============================================================================
