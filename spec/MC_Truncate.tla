---------------------------- MODULE MC_Truncate -----------------------------
(* The elements of an array truncated in place, in any order, in a format of P bits: every number and error. *)
EXTENDS Truncate
CONSTANTS P, MaxE, N, S
VARIABLES a0, a, prec, mode, todo
vars == <<a0, a, prec, mode, todo>>
BitsOf(x, n) == [i \in 1..n |-> (x \div 2^(n-i)) % 2] \o <<>>
Nums == {[s |-> s, b |-> BitsOf(x, P), e |-> 0] : s \in 0..1, x \in 0..(2^P-1)}
        \cup {[s |-> s, b |-> BitsOf(x, P), e |-> e] : s \in 0..1, x \in (2^(P-1))..(2^P-1), e \in 1..MaxE}
Precs == {[s |-> 0, b |-> BitsOf(x, 2), e |-> e] : x \in 2..3, e \in (0-P-2)..(MaxE+1)} \cup {[s |-> 0, b |-> <<0, 0>>, e |-> 0]}
(* S: scale that makes everything whole *)
RECURSIVE ValB(_, _)
ValB(b, e) == IF b = <<>> THEN 0 ELSE Head(b) * 2^(e + S) + ValB(Tail(b), e - 1)
Val(n) == (IF n.s = 1 THEN -1 ELSE 1) * ValB(n.b, n.e)
Abs(x) == IF x < 0 THEN -x ELSE x
ErrOf(v) == IF mode = "abs" THEN prec ELSE RelErr(v, prec, 0)
Ulp(v) == 2^(v.e - P + 1 + S)
Gran(v) == LET er == Val(ErrOf(v)) IN Ulp(v) * 2^Drop(v, ErrOf(v))
Init == /\ a0 \in [1..N -> Nums]
        /\ \A i \in 2..N : a0[i].e \in {0, MaxE}
        /\ a = a0 /\ prec \in Precs /\ mode \in {"abs", "rel"} /\ todo = 1..N
Step(i) == /\ i \in todo /\ todo' = todo \ {i} /\ UNCHANGED <<a0, prec, mode>>
           /\ a' = [a EXCEPT ![i] = Trunc(@, ErrOf(@), 0)]
Next == \E i \in 1..N : Step(i)
Spec == Init /\ [][Next]_vars
Done == 1..N \ todo
Within == \A i \in Done : Abs(Val(a[i]) - Val(a0[i])) <= Val(ErrOf(a0[i]))
ZeroKeeps == \A i \in Done : Val(ErrOf(a0[i])) = 0 => a[i] = a0[i]
KeepsSign == \A i \in 1..N : a[i].s = a0[i].s
(* a multiple of the power of two just above the error, or of the last place where that is coarser *)
Coarse == \A i \in Done : LET g == Gran(a0[i])  er == Val(ErrOf(a0[i])) IN
            /\ Val(a[i]) % g = 0
            /\ g > er \/ g = Ulp(a0[i]) \/ er = 0
            /\ (g > Ulp(a0[i])) => g <= 2 * er
            /\ (er >= Ulp(a0[i])) => g > er
(* and the nearest one, the even one of two *)
Nearest == \A i \in Done : LET g == Gran(a0[i])  d == Abs(Val(a[i]) - Val(a0[i])) IN
             2 * d <= g /\ (2 * d = g => (Val(a[i]) \div g) % 2 = 0)
Again == \A i \in Done : mode = "abs" => Trunc(a[i], ErrOf(a[i]), 0) = a[i]
Others == \A i \in todo : a[i] = a0[i]
Ordered == (mode = "abs" /\ todo = {}) => \A i, j \in 1..N : Val(a0[i]) <= Val(a0[j]) => Val(a[i]) <= Val(a[j])
(* 1/sqrt(m 2^e) lies between the power of two and twice it *)
WeightsOK == \A m \in 1..70, e \in -6..6 :
               LET t == WeightErr(m, e).e IN m * 2^(e + 12) * 2^(2 * t + 14) <= 2^26 /\ 2^26 < m * 2^(e + 12) * 2^(2 * t + 16)
=============================================================================
