---------------------------- MODULE MC_DistFile ----------------------------
(* Every small array, written by p ranks in any order (or one after the     *)
(* other after redistribution to axis 0) and read by q ranks.               *)
EXTENDS DistFile
CONSTANTS MaxDim, Ranks, NDs
VARIABLES A, ax, p, serial, file, wrote
vars == <<A, ax, p, serial, file, wrote>>
Shapes == UNION {[1..n -> 0..MaxDim] : n \in NDs}
Tokens(sh) == [shape |-> sh, data |-> [k \in 1..Size(sh) |-> k]]
Init == /\ \E sh \in Shapes : A = Tokens(sh) /\ ax \in 0..(Len(sh) - 1)
        /\ p \in Ranks /\ serial \in BOOLEAN
        /\ file = Full(A.shape, 0) /\ wrote = {}
WAx == IF serial THEN 0 ELSE ax
Blk(r) == IF serial THEN LocalRedist(Blocks(D(A, ax), p), A.shape, ax, 0, p)[r] ELSE Part(A, ax, p, r)
Write(r) == /\ r \notin wrote
            /\ serial => \A k \in 0..(r-1) : k \in wrote
            /\ file' = WriteSlab(file, Blk(r), WAx, SplitStart(A.shape[WAx+1], p, r))
            /\ wrote' = wrote \cup {r}
            /\ UNCHANGED <<A, ax, p, serial>>
WriteA == \E r \in 0..(p-1) : Write(r)
Next == WriteA
Spec == Init /\ [][Next]_vars
AllWrote == wrote = 0..(p-1)
Complete == AllWrote => file = A
(* what was written stays, nothing else changes *)
Partial == \A k \in 1..Size(A.shape) :
   LET i == Unravel(A.shape, k - 1)[WAx+1]
       owner == CHOOSE r \in 0..(p-1) : i >= SplitStart(A.shape[WAx+1], p, r) /\ i < SplitEnd(A.shape[WAx+1], p, r)
   IN  file.data[k] = IF owner \in wrote THEN A.data[k] ELSE 0
Sl(a, b, s) == [k |-> "slice", a |-> a, b |-> b, s |-> s, ha |-> TRUE, hb |-> TRUE]
SelsFor(n) == {FullSlice, Sl(1, n, 1), Sl(0, n, 2), Sl(-2, n + 3, 1), Sl(2, 1, 1), Sl(1, -1, 3)}
              \cup {[k |-> "list", l |-> q] : q \in {<<>>} \cup (IF n > 0 THEN {<<n - 1>>} ELSE {}) \cup (IF n > 2 THEN {<<0, 2>>} ELSE {})}
SelTuples == {f \in [1..NDim(A) -> UNION {SelsFor(A.shape[d]) : d \in 1..NDim(A)}] : \A d \in 1..NDim(A) : f[d] \in SelsFor(A.shape[d])}
ReadsRight == AllWrote => \A q \in Ranks, rax \in 0..(NDim(A) - 1), sel \in SelTuples :
   LET want == Index(A, sel) IN
   /\ \A r \in 0..(q-1) : ReadShare(file, sel, rax, q, r) = Part(want, rax, q, r)
   /\ Assemble([r \in 0..(q-1) |-> ReadShare(file, sel, rax, q, r)], rax, q) = want
=============================================================================
