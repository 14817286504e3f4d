------------------------------ MODULE MpiTools ------------------------------
(***************************************************************************)
(* What the MPI helpers give on every rank.  A program is [p, ops]; every  *)
(* operation is a collective call by ranks 0..p-1, its expected outcome a  *)
(* sequence with one entry per rank.                                        *)
(***************************************************************************)
EXTENDS NDArray
Fn(x) == x * x + 1
None == [none |-> TRUE, v |-> <<>>]
Some(q) == [none |-> FALSE, v |-> q]

Map(o, p) == [r \in 1..p |-> IF o.root >= 0 /\ r - 1 # o.root THEN None ELSE Some([j \in 1..Len(o.items) |-> Fn(o.items[j])])]

(* the global matrix, split by rows, comes back split by columns *)
TransposeOf(o, p) == LET A == [shape |-> o.shape, data |-> o.data] IN [r \in 1..p |-> Part(A, Len(o.shape) - 1, p, r - 1)]

Place(G, P) ==         \* put array P.arr into G with its corner at P.start
  Build(G.shape, LAMBDA ix :
    IF \A d \in 1..Len(ix) : ix[d] >= P.start[d] /\ ix[d] < P.start[d] + P.shape[d]
    THEN At([shape |-> P.shape, data |-> P.data], [d \in 1..Len(ix) |-> ix[d] - P.start[d]]) ELSE At(G, ix))
RECURSIVE PlaceAll(_, _)
PlaceAll(G, Ps) == IF Ps = <<>> THEN G ELSE PlaceAll(Place(G, Head(Ps)), Tail(Ps))
Gather(o, p) == LET G == [shape |-> o.shape, data |-> o.data] IN
  [r \in 1..p |-> IF r - 1 = o.root THEN PlaceAll(G, o.parts) ELSE G]

Fold(f, q) == CASE f = "sum" -> SumSeq(q) [] f = "prod" -> FoldF("multiply", q)
                [] f = "max" -> FoldF("maximum", q) [] f = "min" -> FoldF("minimum", q)
Reduced(o, p) == [r \in 1..p |-> Fold(o.f, o.vals)]
Bcast(o, p) == [r \in 1..p |-> o.vals[o.root + 1]]

(* bytes written at an offset of a file; anything in between reads as zero *)
WriteAt(file, off, b) ==
  [j \in 1..Max2(Len(file), IF b = <<>> THEN 0 ELSE off + Len(b)) |->
     IF j > off /\ j <= off + Len(b) THEN b[j - off] ELSE IF j <= Len(file) THEN file[j] ELSE 0]
Written(o, p) == LET ok == Len(o.bytes) <= o.size IN
  [r \in 1..p |-> [ok |-> ok, file |-> IF ok THEN WriteAt(o.file, o.off, o.bytes) ELSE o.file]]
(* every rank writes its rows of one dataset *)
Rows(o, p) == [r \in 1..p |-> [shape |-> o.shape, data |-> o.data]]

Cpus(o, p) == [r \in 1..p |-> Max2(o.ncpu \div p, 1)]
Alloc(o, p) == [r \in 1..p |->
  CASE o.scope = "shared" -> o.req[r] < o.avail
    [] o.scope = "process" -> SumSeq([j \in 1..p |-> o.req[j]]) < o.avail
    [] o.scope = "global" -> o.req[r] < p * (o.avail \div p)]
(* a log record passes by the level of the rank it is from *)
Log(o, p) == [r \in 1..p |-> [j \in 1..Len(o.recs) |->
  LET from == IF o.recs[j].rank >= 0 THEN o.recs[j].rank ELSE r - 1
  IN [pass |-> o.recs[j].level >= (IF from = 0 THEN o.lev0 ELSE o.levall),
      rank |-> IF o.recs[j].rank >= 0 THEN o.recs[j].rank ELSE IF o.addinfo THEN r - 1 ELSE -1]]]

(* the position of each listed rank in the new communicator, -1: not in it *)
Pos(q, x) == IF \E j \in 1..Len(q) : q[j] = x THEN (CHOOSE j \in 1..Len(q) : q[j] = x) - 1 ELSE -1
ActiveComm(o, p) == [r \in 1..p |-> [pos |-> Pos(o.procs, r - 1), n |-> IF Pos(o.procs, r - 1) < 0 THEN 0 ELSE Len(o.procs)]]

Outcome(o, p) == CASE o.op = "map" -> Map(o, p) [] o.op = "transpose" -> TransposeOf(o, p)
  [] o.op = "gather" -> Gather(o, p) [] o.op = "reduce" -> Reduced(o, p) [] o.op = "bcast" -> Bcast(o, p)
  [] o.op = "write" -> Written(o, p) [] o.op = "rows" -> Rows(o, p) [] o.op = "cpu" -> Cpus(o, p)
  [] o.op = "alloc" -> Alloc(o, p) [] o.op = "log" -> Log(o, p) [] o.op = "active_comm" -> ActiveComm(o, p)
  [] o.op = "active" -> ActiveComm(o, p)
RunProgram(Q) == [j \in 1..Len(Q.ops) |-> Outcome(Q.ops[j], Q.p)]

(* Trace of one active/close round, R = [p, procs, log] with log a sequence of  *)
(* [ev, rank]: the listed ranks work, rank 0 closes, only then the others go on *)
Idx(R, e) == {j \in 1..Len(R.log) : R.log[j].ev = e}
JudgeActive(R) ==
  LET act == {R.procs[j] : j \in 1..Len(R.procs)} IN
  [ok |-> /\ {R.log[j].rank : j \in Idx(R, "work")} = act
          /\ {R.log[j].rank : j \in Idx(R, "resumed")} = (0..(R.p - 1)) \ act
          /\ Cardinality(Idx(R, "work")) = Cardinality(act)
          /\ \A i \in Idx(R, "close"), j \in Idx(R, "resumed") : i < j
          /\ \A i \in Idx(R, "work"), j \in Idx(R, "close") : i < j]
=============================================================================
