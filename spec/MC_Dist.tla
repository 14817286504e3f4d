------------------------------ MODULE MC_Dist ------------------------------
(* Small distributed arrays under sequences of operations: the blocks held *)
(* by the ranks, changed by local steps and exchanges only, always equal   *)
(* the split of the global array changed by the same operation.            *)
EXTENDS DistArray
CONSTANTS MaxDim, Ranks, Depth, NDs
VARIABLES p, d, B, n
vars == <<p, d, B, n>>

Shapes == UNION {[1..k -> 0..MaxDim] : k \in NDs}
Iota(sh) == [shape |-> sh, data |-> [k \in 1..Size(sh) |-> k]]
Init == /\ p \in Ranks
        /\ \E sh \in Shapes : \E ax \in 0..(Len(sh)-1) : d = D(Iota(sh), ax)
        /\ B = Blocks(d, p) /\ n = 0

Step(nd, nB) == n < Depth /\ n' = n + 1 /\ p' = p /\ d' = nd /\ B' = nB
Redist == \E ax \in 0..(NDim(d.A)-1) :
            Step(D(d.A, ax), LocalRedist(B, d.A.shape, d.axis, ax, p))
Items == {FullSlice, [k |-> "int", i |-> 0], [k |-> "int", i |-> -1], MkSlice(1, 2), MkSlice(-1, 9),
          [k |-> "slice", a |-> 0, b |-> 0, s |-> 2, ha |-> FALSE, hb |-> FALSE],
          [k |-> "slice", a |-> 0, b |-> 0, s |-> -1, ha |-> FALSE, hb |-> FALSE],
          [k |-> "list", l |-> <<0, 0>>]}
IndexFull == \E items \in [1..NDim(d.A) -> Items] :
            /\ items[d.axis + 1] = FullSlice
            /\ Cardinality({j \in DOMAIN items : items[j] # FullSlice}) = 1
            /\ IndexOK(items, d.A.shape)
            /\ LET r == DoIndex(d, [items |-> items], p)
               IN Step(r.d, [q \in 0..(p-1) |-> Index(B[q], items)])
Transp == \E perm \in [1..NDim(d.A) -> 0..(NDim(d.A)-1)] :
            /\ Cardinality({perm[j] : j \in DOMAIN perm}) = NDim(d.A)
            /\ LET r == DoTranspose(d, [perm |-> perm])
               IN Step(r.d, [q \in 0..(p-1) |-> Transpose(B[q], perm)])
Reduc == \E ax \in SUBSET (0..(NDim(d.A)-1)) : \E keep \in BOOLEAN :
            /\ d.axis \notin ax /\ ax # {}
            /\ LET r == DoReduce(d, [f |-> "add", all |-> FALSE, axes |-> SetToSeq(ax), keep |-> keep], p)
               IN Step(r.d, [q \in 0..(p-1) |-> Reduce("add", B[q], ax, keep)])
Accum == \E ax \in (0..(NDim(d.A)-1)) \ {d.axis} :
            Step(DoAccum(d, [f |-> "add", axis |-> ax]).d, [q \in 0..(p-1) |-> Accumulate("add", B[q], ax)])
Bin == \E ax \in (0..(NDim(d.A)-1)) \ {d.axis} :     \* add a plain vector along another axis
         LET sh == [j \in 1..(NDim(d.A) - ax) |-> IF j = 1 THEN d.A.shape[ax + 1] ELSE 1]
             V == [shape |-> sh, data |-> [k \in 1..Size(sh) |-> 10 * k]]
             r == DoUfunc2(d, [f |-> "add", swap |-> FALSE, out |-> "none",
                               rhs |-> [kind |-> "nd", shape |-> sh, data |-> V.data]])
         IN r.t = "dist" /\ Step(r.d, [q \in 0..(p-1) |-> Binary("add", B[q], V)])
GItems == {MkSlice(0, 1), MkSlice(1, 3), MkSlice(-1, 5), [k |-> "int", i |-> -1], [k |-> "int", i |-> 1],
           [k |-> "slice", a |-> 1, b |-> 0, s |-> 2, ha |-> TRUE, hb |-> FALSE],
           [k |-> "slice", a |-> 0, b |-> 0, s |-> 2, ha |-> FALSE, hb |-> FALSE]}
GItemsAt(g) == [j \in 1..NDim(d.A) |-> IF j = d.axis + 1 THEN g ELSE FullSlice]
GSet == \E g \in GItems :
          LET items == GItemsAt(g)
              ok == IndexOK(items, d.A.shape)
              Loc(q) == LET lp == LocalPositions(g, GLen(d), SplitStart(GLen(d), p, q), SplitSize(GLen(d), p, q))
                        IN IF lp = <<>> THEN B[q]
                           ELSE SetIndex(B[q], [items EXCEPT ![d.axis + 1] = [k |-> "list", l |-> lp]], Scalar(77))
          IN ok /\ Step(DoGSet(d, [items |-> items, value |-> Scalar(77)]).d, [q \in 0..(p-1) |-> Loc(q)])
Next == Redist \/ IndexFull \/ Transp \/ Reduc \/ Accum \/ Bin \/ GSet
Spec == Init /\ [][Next]_vars

BlocksAreTheSplit == B = Blocks(d, p)
AssembleGivesGlobal == Assemble(B, d.axis, p) = d.A
SplitIsFair ==
  LET m == GLen(d) IN
  /\ SplitStart(m, p, 0) = 0 /\ SplitEnd(m, p, p - 1) = m
  /\ \A r \in 0..(p-2) : SplitEnd(m, p, r) = SplitStart(m, p, r + 1)
                       /\ SplitSize(m, p, r) - SplitSize(m, p, r + 1) \in {0, 1}
(* a global read, assembled over the ranks, is the slice of the global array *)
GlobalReadAssembles ==
  \A g \in GItems :
    LET items == GItemsAt(g)  parts == GSliceParts(d, items, p)
        got == SelectSeq(parts, LAMBDA x : x # NONE)
    IN IndexOK(items, d.A.shape) /\ got # <<>> =>
         IF g.k = "int" THEN Len(got) = 1 /\ got[1] = Index(d.A, items)
         ELSE Concat(got, d.axis) = Index(d.A, items)
=============================================================================
