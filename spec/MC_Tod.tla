---- MODULE MC_Tod ----
(* Concatenation piece by piece, over all small lists of lengths and bounds: every output
   sample is written exactly once, with the right value.                               *)
EXTENDS Tod

CONSTANTS MaxPieces, MaxLen
VARIABLES lens, start, stop, out, k, writes
vars == <<lens, start, stop, out, k, writes>>

Bounds == {NoBound} \cup {Bound(i) : i \in (-(MaxPieces * MaxLen) - 1)..(MaxPieces * MaxLen + 1)}
Before(j) == SumSeq(SubSeq(lens, 1, j))
PieceOf(j) == [im |-> [time |-> [vals |-> [s \in 1..lens[j] |-> 10 * j + s], attrs |-> Empty]], rm |-> Empty, attrs |-> Empty,
               hist |-> <<>>,
               ds |-> [v |-> [axes |-> <<"f", "time">>, dist |-> FALSE, dax |-> -1, attrs |-> Empty, dt |-> "i8",
                              A |-> Build(<<2, lens[j]>>, LAMBDA ix : 100 * j + 10 * ix[1] + ix[2])]]]
Pieces == [j \in 1..Len(lens) |-> PieceOf(j)]
All(b) == [k |-> "all", b |-> b]
R == Span(Pieces, "time", All(start), All(stop))

Init == /\ \E m \in 1..MaxPieces : lens \in [1..m -> 0..MaxLen]
        /\ start \in Bounds /\ stop \in Bounds
        /\ k = 0 /\ writes = 0 /\ out = <<>>
Begin == k = 0 /\ k' = 1 /\ out' = [s \in 1..(R.b - R.a) |-> 0] /\ UNCHANGED <<lens, start, stop, writes>>
CopyPiece ==
  /\ k \in 1..Len(lens) /\ k' = k + 1
  /\ LET cur == Before(k - 1) n == lens[k] IN
     IF ~Touches(R, cur, n) THEN UNCHANGED <<out, writes>>
     ELSE LET m == InTo(R, cur, n) - InFrom(R, cur) IN
          /\ out' = [s \in 1..Len(out) |-> IF s > OutFrom(R, cur) /\ s <= OutFrom(R, cur) + m
                                           THEN PieceOf(k).im["time"].vals[s - OutFrom(R, cur) + InFrom(R, cur)] ELSE out[s]]
          /\ writes' = writes + m
  /\ UNCHANGED <<lens, start, stop>>
Next == Begin \/ CopyPiece
Spec == Init /\ [][Next]_vars

Done == k = Len(lens) + 1
Whole == Done => LET c == Concatenated(Pieces, <<"time">>, All(start), All(stop), [all |-> TRUE, l |-> <<>>], "none")
                 IN out = c.im["time"].vals /\ writes = Len(out)
                    /\ c.ds["v"].A.shape = <<2, Len(out)>>
                    /\ \A s \in 1..Len(out) : At(c.ds["v"].A, <<1, s - 1>>) \div 100 = out[s] \div 10     \* datasets follow the axis
(* the bounds are those of python slices: a second cut with none given changes nothing, and adjacent ranges join up *)
Joins == k = 0 /\ start.given => LET cut(a, b) == Concatenated(Pieces, <<"time">>, All(a), All(b), [all |-> TRUE, l |-> <<>>], "none").im["time"].vals IN
  cut(NoBound, start) \o cut(start, NoBound) = cut(NoBound, NoBound)
====
