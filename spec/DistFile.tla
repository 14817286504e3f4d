------------------------------ MODULE DistFile ------------------------------
(***************************************************************************)
(* Files written and read by several ranks.  A file maps dataset paths to  *)
(* arrays; p ranks write their slabs into it, and q ranks read back, each   *)
(* its share of a selection.  WriteSlab/ReadShare are what one rank does    *)
(* against the file; MC_DistFile checks that together they store and load   *)
(* exactly the (selected) global array.                                     *)
(***************************************************************************)
EXTENDS DistArray

(* ---- what one rank does ---- *)
WriteSlab(file, B, ax, start) ==
  Build(file.shape, LAMBDA ix : IF ix[ax+1] >= start /\ ix[ax+1] < start + B.shape[ax+1]
                                THEN At(B, [ix EXCEPT ![ax+1] = @ - start]) ELSE At(file, ix))
(* the single slice or list that selects elements lo..hi-1 of a selection *)
Reslice(it, n, lo, hi) ==
  IF it.k = "list" THEN [k |-> "list", l |-> SubSeq(it.l, lo + 1, hi)]
  ELSE LET a == SliceLo(n, it)  b == SliceHi(n, it)
       IN [k |-> "slice", a |-> a + lo * it.s, b |-> Min2(a + hi * it.s, b), s |-> it.s, ha |-> TRUE, hb |-> TRUE]
ReadShare(file, sel, ax, p, r) ==
  LET ex == Expand(sel, NDim(file))
      n == file.shape[ax+1]
      m == Len(Positions(ex[ax+1], n))
  IN  Index(file, [ex EXCEPT ![ax+1] = Reslice(@, n, SplitStart(m, p, r), SplitEnd(m, p, r))])

(* ---- what a user relies on ---- *)
ArrOf(d) == [shape |-> d.shape, data |-> d.data]
RankRec(A, ax, p, r) ==
  LET B == Part(A, ax, p, r) IN
  [axis |-> ax, gshape |-> A.shape, start |-> SplitStart(A.shape[ax+1], p, r), shape |-> B.shape, data |-> B.data]
Common(A) == [axis |-> -1, gshape |-> <<>>, start |-> 0, shape |-> A.shape, data |-> A.data]
DistObs(A, ax, p) == [t |-> "dist", ranks |-> [j \in 1..p |-> RankRec(A, ax, p, j - 1)]]
CommonObs(A, p) == [t |-> "nd", ranks |-> [j \in 1..p |-> Common(A)]]
AbsentObs == [t |-> "absent", ranks |-> <<>>]

(* hints given by the reader override those stored with the dataset; both  *)
(* only matter for a distributed read                                       *)
HintDist(d, h) == IF h.hasdist THEN h.dist ELSE d.dist
HintAxis(d, h) == AxNorm(IF h.hasaxis THEN h.axis ELSE IF d.dist THEN d.axis ELSE 0, Len(d.shape))
ReadDset(Q, rd, j) ==
  LET d == Q.dsets[j]
      A == Index(ArrOf(d), rd.sels[j])
  IN CASE rd.how = "array" -> IF j = rd.target THEN DistObs(A, AxNorm(rd.axis, Len(d.shape)), Q.q) ELSE AbsentObs
       [] rd.how = "serial" -> CommonObs(A, Q.q)
       [] rd.how = "group" -> IF HintDist(d, rd.hints[j]) THEN DistObs(A, HintAxis(d, rd.hints[j]), Q.q)
                              ELSE CommonObs(A, Q.q)
RunFile(Q) ==
  [mem |-> [j \in 1..Len(Q.dsets) |-> IF Q.dsets[j].dist THEN DistObs(ArrOf(Q.dsets[j]), Q.dsets[j].axis, Q.p)
                                      ELSE CommonObs(ArrOf(Q.dsets[j]), Q.p)],
   file |-> [j \in 1..Len(Q.dsets) |-> Common(ArrOf(Q.dsets[j]))],
   reads |-> [i \in 1..Len(Q.reads) |-> [j \in 1..Len(Q.dsets) |-> ReadDset(Q, Q.reads[i], j)]]]
=============================================================================
