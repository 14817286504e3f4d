------------------------------- MODULE Split -------------------------------
(* Splitting n items over m processes (program [n, m]) and judging the     *)
(* partitions of a list.                                                    *)
EXTENDS NDArray
Con(n, m, r) == [j \in 1..SplitSize(n, m, r) |-> SplitStart(n, m, r) + j - 1]
Alt(n, m, r) == [j \in 1..((n - r + m - 1) \div m) |-> r + (j - 1) * m]
RunProgram(Q) ==
  [size |-> [j \in 1..Q.m |-> SplitSize(Q.n, Q.m, j - 1)],
   start |-> [j \in 1..Q.m |-> SplitStart(Q.n, Q.m, j - 1)],
   end |-> [j \in 1..Q.m |-> SplitEnd(Q.n, Q.m, j - 1)],
   con |-> IF ~Q.full THEN <<>> ELSE [j \in 1..Q.m |-> Con(Q.n, Q.m, j - 1)],
   alt |-> IF ~Q.full THEN <<>> ELSE [j \in 1..Q.m |-> Alt(Q.n, Q.m, j - 1)]]
(* R = [n, m, parts]: is it a partition of 0..n-1 into fair parts? *)
Count(q, x) == Cardinality({j \in 1..Len(q) : q[j] = x})
JudgeRand(R) ==
  LET all == ConcatAll(R.parts) IN
  [ok |-> /\ Len(R.parts) = R.m
          /\ Len(all) = R.n
          /\ {all[j] : j \in 1..Len(all)} = 0..(R.n - 1)
          /\ \A j \in 1..R.m : Len(R.parts[j]) = SplitSize(R.n, R.m, j - 1)]
=============================================================================
