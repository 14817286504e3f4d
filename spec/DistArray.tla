----------------------------- MODULE DistArray -----------------------------
(***************************************************************************)
(* Distributed arrays.  Abstractly a distributed array is a global array   *)
(* A plus the axis it is split over; rank r of p holds Part(A, axis, p, r) *)
(* The operations below are defined twice: on the global array (what a     *)
(* user relies on) and on the blocks the ranks hold (Local...); MC_Dist    *)
(* checks that they agree, RunProgram gives the expected observations.     *)
(***************************************************************************)
EXTENDS NDArray

D(A, ax) == [A |-> A, axis |-> ax]
Blocks(d, p) == [r \in 0..(p-1) |-> Part(d.A, d.axis, p, r)]
GLen(d) == d.A.shape[d.axis + 1]

(* ---------------- block level: what the ranks do locally ---------------- *)
(* redistribution by cyclic exchange: in round i rank r sends its part of  *)
(* the new slab of rank r+i and receives from rank r-i                      *)
ExchangeRound(B, gsh, ax, nax, p, i, T) ==
  [r \in 0..(p-1) |->
     LET from == (r + p - i) % p
         sub == Slab(B[from], nax, SplitStart(gsh[nax+1], p, r), SplitSize(gsh[nax+1], p, r))
         st == SplitStart(gsh[ax+1], p, from)
         n == SplitSize(gsh[ax+1], p, from)
     IN Build(T[r].shape, LAMBDA ix : IF ix[ax+1] >= st /\ ix[ax+1] < st + n
                                      THEN At(sub, [ix EXCEPT ![ax+1] = @ - st]) ELSE At(T[r], ix))]
RECURSIVE Exchange(_, _, _, _, _, _, _)
Exchange(B, gsh, ax, nax, p, i, T) ==
  IF i = p THEN T ELSE Exchange(B, gsh, ax, nax, p, i + 1, ExchangeRound(B, gsh, ax, nax, p, i, T))
LocalRedist(B, gsh, ax, nax, p) ==
  IF ax = nax THEN B
  ELSE Exchange(B, gsh, ax, nax, p, 0,
         [r \in 0..(p-1) |-> Full([gsh EXCEPT ![nax+1] = SplitSize(gsh[nax+1], p, r)], -1)])
Assemble(B, ax, p) == Concat([j \in 1..p |-> B[j-1]], ax)

(* resolving a global index on one rank: the positions on the distributed  *)
(* axis that lie in [start, start+n), in local coordinates                  *)
LocalPositions(it, glen, start, n) ==
  LET q == Positions(it, glen)
      m == SelectSeq([j \in 1..Len(q) |-> q[j]], LAMBDA x : x >= start /\ x < start + n)
  IN  [j \in 1..Len(m) |-> m[j] - start]

(* ---------------- global level ---------------- *)
AxisItemPos(items, d) == ItemOfAxis(Expand(items, NDim(d.A)), d.axis + 1)
DistItem(items, d) == Expand(items, NDim(d.A))[AxisItemPos(items, d)]
IsFull(it) == it = FullSlice
NewAxis(items, d) == OutPos(Expand(items, NDim(d.A)), AxisItemPos(items, d))

(* results: [t |-> "dist", d] [t |-> "nd", a: per rank arrays] [t |-> "err"] *)
Rec(t, d, parts) == [t |-> t, d |-> d, parts |-> parts]
RDist(d) == Rec("dist", d, <<>>)
RErr == Rec("err", D(Scalar(0), 0), <<>>)
RNd(parts) == Rec("nd", D(Scalar(0), 0), parts)      \* sequence over ranks 1..p; "none" ranks have shape <<-1>>
NONE == [shape |-> <<-1>>, data |-> <<>>]
SameOn(p, a) == [j \in 1..p |-> a]

PosIn(q, x) == CHOOSE j \in 1..Len(q) : q[j] = x
AxNorm(a, nd) == IF a < 0 THEN a + nd ELSE a
AxOK(a, nd) == a >= -nd /\ a < nd
AxSet(op, nd) == {AxNorm(op.axes[j], nd) : j \in 1..Len(op.axes)}

DoIndex(d, op, p) ==
  IF ~IndexOK(op.items, d.A.shape) THEN RErr
  ELSE IF IsFull(DistItem(op.items, d)) THEN RDist(D(Index(d.A, op.items), NewAxis(op.items, d)))
  ELSE RNd([j \in 1..p |-> Index(Part(d.A, d.axis, p, j-1), op.items)])   \* plain local indexing

(* reshape: the distributed axis is given as -2, at most one -1 on each side *)
FillWild(q, total) ==
  LET w == {j \in 1..Len(q) : q[j] = -1}
      known == Size([j \in 1..Len(q) |-> IF q[j] = -1 THEN 1 ELSE q[j]])
  IN  IF w = {} THEN q
      ELSE [j \in 1..Len(q) |-> IF q[j] = -1 THEN (IF known = 0 THEN 0 ELSE total \div known) ELSE q[j]]
ReshapeOK(d, sh) ==
  LET ds == {j \in 1..Len(sh) : sh[j] = -2} IN
  /\ Cardinality(ds) = 1
  /\ LET k == CHOOSE j \in ds : TRUE
         pre == SubSeq(sh, 1, k - 1)   post == SubSeq(sh, k + 1, Len(sh))
         apre == Size(SubSeq(d.A.shape, 1, d.axis))
         apost == Size(SubSeq(d.A.shape, d.axis + 2, NDim(d.A)))
         Side(q, tot) == LET w == {j \in 1..Len(q) : q[j] = -1}
                             kn == Size([j \in 1..Len(q) |-> IF q[j] = -1 THEN 1 ELSE q[j]])
                         IN Cardinality(w) <= 1 /\ (IF w = {} THEN kn = tot ELSE kn > 0 /\ tot % kn = 0)
     IN Side(pre, apre) /\ Side(post, apost)
DoReshape(d, op) ==
  IF ~ReshapeOK(d, op.shape) THEN RErr
  ELSE LET k == CHOOSE j \in 1..Len(op.shape) : op.shape[j] = -2
           pre == FillWild(SubSeq(op.shape, 1, k - 1), Size(SubSeq(d.A.shape, 1, d.axis)))
           post == FillWild(SubSeq(op.shape, k + 1, Len(op.shape)), Size(SubSeq(d.A.shape, d.axis + 2, NDim(d.A))))
       IN RDist(D(Reshape(d.A, pre \o <<GLen(d)>> \o post), k - 1))

DoReduce(d, op, p) ==
  IF op.all THEN   \* a vector with one element per rank
     RDist(D([shape |-> <<p>>, data |-> [j \in 1..p |-> FoldF(op.f, Part(d.A, d.axis, p, j-1).data)]], 0))
  ELSE IF \E j \in 1..Len(op.axes) : ~AxOK(op.axes[j], NDim(d.A)) THEN RErr
  ELSE LET ax == AxSet(op, NDim(d.A)) IN
       IF d.axis \in ax THEN RErr
       ELSE RDist(D(Reduce(op.f, d.A, ax, op.keep),
                    IF op.keep THEN d.axis ELSE d.axis - Cardinality({a \in ax : a < d.axis})))
DoAccum(d, op) ==
  IF ~AxOK(op.axis, NDim(d.A)) \/ AxNorm(op.axis, NDim(d.A)) = d.axis THEN RErr
  ELSE RDist(D(Accumulate(op.f, d.A, AxNorm(op.axis, NDim(d.A))), d.axis))

(* binary ufunc with a second operand: scalar, plain array (the same on    *)
(* every rank) or distributed array                                         *)
FromRight(d) == NDim(d.A) - d.axis
DoUfunc2(d, op) ==
  LET R == op.rhs
      Ord(X, Y) == IF op.swap THEN Binary(op.f, Y, X) ELSE Binary(op.f, X, Y)
      B == [shape |-> R.shape, data |-> R.data]
      nd == Max2(NDim(d.A), Len(R.shape))
      newax == nd - FromRight(d)
      inplaceBad(sh) == op.out = "badaxis" \/ (op.out \in {"inplace", "like"} /\ sh # d.A.shape)
  IN  IF R.kind = "scalar" THEN IF op.out = "badaxis" THEN RErr ELSE RDist(D(Ord(d.A, Scalar(R.v)), d.axis))
      ELSE IF ~CanBroadcast(d.A.shape, R.shape) THEN RErr
      ELSE IF inplaceBad(BShape(d.A.shape, R.shape)) THEN RErr
      ELSE IF R.kind = "nd" THEN
         LET pos == Len(R.shape) - FromRight(d) + 1 IN     \* its axis lying on the distributed one
         IF pos >= 1 /\ R.shape[pos] # 1 THEN RErr
         ELSE RDist(D(Ord(d.A, B), newax))
      ELSE \* dist
         IF FromRight(D(B, R.axis)) # FromRight(d) \/ B.shape[R.axis + 1] # GLen(d) THEN RErr
         ELSE RDist(D(Ord(d.A, B), newax))

(* global slice *)
GSliceParts(d, items, p) ==
  LET it == DistItem(items, d)
      ex == Expand(items, NDim(d.A))
      jpos == AxisItemPos(items, d)
  IN [j \in 1..p |->
       LET r == j - 1
           st == SplitStart(GLen(d), p, r)  n == SplitSize(GLen(d), p, r)
           lp == LocalPositions(it, GLen(d), st, n)
           L == Part(d.A, d.axis, p, r)
       IN IF lp = <<>> THEN NONE
          ELSE IF it.k = "int" THEN Index(L, [ex EXCEPT ![jpos] = [k |-> "int", i |-> lp[1]]])
          ELSE Index(L, [ex EXCEPT ![jpos] = [k |-> "list", l |-> lp]])]
DoGSlice(d, op, p) ==
  IF ~IndexOK(op.items, d.A.shape) THEN RErr
  ELSE IF IsFull(DistItem(op.items, d)) THEN RDist(D(Index(d.A, op.items), NewAxis(op.items, d)))
  ELSE RNd(GSliceParts(d, op.items, p))
DoGSet(d, op) ==
  IF ~IndexOK(op.items, d.A.shape) THEN RErr
  ELSE RDist(D(SetIndex(d.A, op.items, [shape |-> op.value.shape, data |-> op.value.data]), d.axis))
DoLSet(d, op) == DoGSet(d, op)        \* plain item assignment with a full slice on the distributed axis

DoTranspose(d, op) ==
  LET nd == NDim(d.A)  perm == [j \in 1..Len(op.perm) |-> AxNorm(op.perm[j], nd)] IN
  IF Len(op.perm) # nd \/ (\E j \in 1..Len(op.perm) : ~AxOK(op.perm[j], nd)) \/ Cardinality({perm[j] : j \in 1..Len(perm)}) # nd
  THEN RErr ELSE RDist(D(Transpose(d.A, perm), PosIn(perm, d.axis) - 1))

DoOp(d, op, p) ==
  CASE op.op = "redist" -> IF AxOK(op.axis, NDim(d.A)) THEN RDist(D(d.A, AxNorm(op.axis, NDim(d.A)))) ELSE RErr
    [] op.op = "gather" -> RNd([j \in 1..p |-> IF j - 1 = op.rank THEN d.A ELSE NONE])
    [] op.op = "allgather" -> RNd(SameOn(p, d.A))
    [] op.op = "copy" -> RDist(d)
    [] op.op = "wrap" -> IF \A r \in 0..(p-1) : op.lens[r+1] = SplitSize(SumSeq(op.lens), p, r)
                         THEN RDist(D([shape |-> <<SumSeq(op.lens)>>, data |-> [k \in 1..SumSeq(op.lens) |-> k]], 0))
                         ELSE RErr
    [] op.op = "index" -> DoIndex(d, op, p)
    [] op.op = "transpose" -> DoTranspose(d, op)
    [] op.op = "reshape" -> DoReshape(d, op)
    [] op.op = "reduce" -> DoReduce(d, op, p)
    [] op.op = "accum" -> DoAccum(d, op)
    [] op.op = "ufunc1" -> RDist(D(MapArr(d.A, LAMBDA x : Ap1(op.f, x)), d.axis))
    [] op.op = "ufunc2" -> DoUfunc2(d, op)
    [] op.op = "sumall" -> RNd(SameOn(p, Scalar(FoldF("add", d.A.data))))
    [] op.op = "gslice" -> DoGSlice(d, op, p)
    [] op.op = "gset" -> DoGSet(d, op)
    [] op.op = "lset" -> DoLSet(d, op)

(* what each rank should see of a distributed array *)
View(d, p, r) ==
  [axis |-> d.axis, gshape |-> d.A.shape, start |-> SplitStart(GLen(d), p, r),
   shape |-> Part(d.A, d.axis, p, r).shape, data |-> Part(d.A, d.axis, p, r).data]
Obs(res, p) ==
  [t |-> res.t,
   ranks |-> IF res.t = "dist" THEN [j \in 1..p |-> View(res.d, p, j - 1)]
             ELSE IF res.t = "nd" THEN [j \in 1..p |-> [axis |-> -1, gshape |-> <<>>, start |-> 0,
                                        shape |-> res.parts[j].shape, data |-> res.parts[j].data]]
             ELSE <<>>]
RECURSIVE RunOps(_, _, _, _)
RunOps(d, ops, p, k) ==
  IF k > Len(ops) THEN <<>>
  ELSE LET r == DoOp(d, ops[k], p)
           d2 == IF r.t = "dist" /\ ops[k].keepres THEN r.d ELSE d
       IN <<[res |-> Obs(r, p), now |-> Obs(RDist(d2), p)]>> \o RunOps(d2, ops, p, k + 1)
(* Q = [p, shape, data, axis, ops] *)
RunProgram(Q) ==
  LET d == D([shape |-> Q.shape, data |-> Q.data], Q.axis)
  IN [init |-> Obs(RDist(d), Q.p), steps |-> RunOps(d, Q.ops, Q.p, 1)]
=============================================================================
