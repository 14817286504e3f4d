------------------------------- MODULE RandGen ------------------------------
(***************************************************************************)
(* A random generator with one stream of its own and one stream for each of  *)
(* its threads.  A call either draws from the generator's own stream         *)
(* ("direct"), or each thread fills one block of the result from its own     *)
(* stream ("parallel"), or is refused ("error").                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
RECURSIVE ProdOf(_)
ProdOf(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdOf(Tail(s))
MinOf2(a, b) == IF a < b THEN a ELSE b
CeilDiv(n, d) == (n + d - 1) \div d
(* block i of n elements: contiguous, in order, as even as the rounded up share allows *)
BlockLo(n, T, i) == MinOf2(n, (i - 1) * CeilDiv(n, T))
BlockHi(n, T, i) == MinOf2(n, i * CeilDiv(n, T))
Blocks(n, T) == [i \in 1..T |-> <<BlockLo(n, T, i), BlockHi(n, T, i)>>] \o <<>>

ParallelMethods == {"random", "integers", "uniform", "normal", "standard_normal", "poisson", "power"}
OutMethods == {"random", "standard_normal"}
TypedMethods == {"random", "standard_normal", "integers"}
TypeOf(c) == IF c.dtype # "" /\ c.method \in TypedMethods THEN c.dtype
             ELSE IF c.method \in {"integers", "poisson"} THEN "i8" ELSE "f8"
HasOut(c) == c.out \in {"kw", "pos"}
HasSize(c) == c.sizeform # "none"
ShapeOf(c) == IF HasOut(c) THEN c.outshape ELSE c.size
Direct == [kind |-> "direct", shape |-> <<>>, dtype |-> "", blocks |-> <<>>]
Refused == [kind |-> "error", shape |-> <<>>, dtype |-> "", blocks |-> <<>>]
Plan(c, T, threshold) ==
  IF \/ c.method \notin ParallelMethods                \* no parallel version
     \/ ~HasSize(c) /\ ~HasOut(c)                      \* a single number
     \/ c.arrays                                       \* parameters that broadcast
     \/ c.extra                                        \* arguments this does not know
  THEN Direct
  ELSE IF HasOut(c) /\ HasSize(c) /\ c.size # c.outshape THEN Refused
  ELSE IF ProdOf(ShapeOf(c)) < threshold THEN Direct
  ELSE IF c.invalid THEN Refused
  ELSE IF HasOut(c) /\ (c.outdtype # TypeOf(c) \/ ~c.outwrite) THEN Refused
  ELSE [kind |-> "parallel", shape |-> ShapeOf(c), dtype |-> TypeOf(c), blocks |-> Blocks(ProdOf(ShapeOf(c)), T)]
ThreadsOf(G) == IF G.threads # 0 THEN G.threads ELSE IF G.omp # 0 THEN G.omp ELSE 4
RunRng(P) ==
  [threads |-> [j \in 1..Len(P.gens) |-> ThreadsOf(P.gens[j])] \o <<>>,
   plans |-> [j \in 1..Len(P.calls) |-> Plan(P.calls[j], ThreadsOf(P.gens[P.calls[j].g]), 1000)] \o <<>>]

(***************************************************************************)
(* Seeds of tasks: an instance on a rank draws the same numbers as another   *)
(* exactly when both were given the same seed and have the same class and    *)
(* rank.  Unseeded tasks share nothing.  The answer is, for each instance,   *)
(* the first instance with the same numbers.                                 *)
(***************************************************************************)
SameSeed(a, b) == a.seed # "" /\ a.seed = b.seed /\ a.cls = b.cls /\ a.rank = b.rank
RunSeeds(P) == [groups |-> [j \in 1..Len(P.inst) |->
   CHOOSE i \in 1..j : (i = j \/ SameSeed(P.inst[i], P.inst[j])) /\ \A k \in 1..(i-1) : ~SameSeed(P.inst[k], P.inst[j])] \o <<>>]
RunProgram(P) == IF P.op = "rng" THEN RunRng(P) ELSE RunSeeds(P)
=============================================================================
