------------------------------- MODULE Tod --------------------------------
(***************************************************************************)
(* Time-ordered data.  A piece is a container whose datasets may have a     *)
(* time axis; concatenating pieces gives the slice [start, stop) of their   *)
(* end-to-end concatenation along each time axis, everything else coming    *)
(* from the first piece.  A reader keeps a selection of samples and         *)
(* datasets of a list of files.                                             *)
(*                                                                          *)
(* piece: [im: axis -> [vals, attrs], rm: axis -> vals, attrs, hist,        *)
(*         ds: name -> [axes, A, dist, dax, attrs, dt]]                     *)
(* bound: [given: BOOLEAN, i]                                               *)
(***************************************************************************)
EXTENDS NDArray

Empty == [x \in {} |-> 0]
Rng(q) == {q[j] : j \in 1..Len(q)}

(* a bound as python's slices take it *)
Clamp(i, n) == IF i < 0 THEN Max2(i + n, 0) ELSE Min2(i, n)
Lo(b, n) == IF b.given THEN Clamp(b.i, n) ELSE 0
Hi(b, n) == IF b.given THEN Clamp(b.i, n) ELSE n
NoBound == [given |-> FALSE, i |-> 0]
(* bounds are given for all time axes at once, or for each *)
BoundOf(bs, ax) == IF bs.k = "all" THEN bs.b ELSE IF ax \in DOMAIN bs.d THEN bs.d[ax] ELSE NoBound

AxLen(piece, ax) == IF ax \in DOMAIN piece.im THEN Len(piece.im[ax].vals) ELSE 0
TotalLen(pieces, ax) == SumSeq([j \in 1..Len(pieces) |-> AxLen(pieces[j], ax)])
Span(pieces, ax, start, stop) ==
  LET n == TotalLen(pieces, ax) a == Lo(BoundOf(start, ax), n) b == Hi(BoundOf(stop, ax), n)
  IN [a |-> a, b |-> Max2(a, b)]

TimeAxisOf(d, taxes) == LET js == {j \in 1..Len(d.axes) : d.axes[j] \in Rng(taxes)} IN
  IF js = {} THEN 0 ELSE CHOOSE j \in js : \A m \in js : j <= m              \* 1-based position, 0: none
TimeNames(piece, taxes) == {nm \in DOMAIN piece.ds : TimeAxisOf(piece.ds[nm], taxes) # 0}

EndToEnd(pieces, nm, j) == Concat([k \in 1..Len(pieces) |-> pieces[k].ds[nm].A], j - 1)
Cut(A, j, r) == Slab(A, j - 1, r.a, r.b - r.a)
Filtered(A, filt) == CASE filt \in {"one", "two"} -> MapArr(A, LAMBDA v : 2 * v)
                        [] filt \in {"turn", "turn2"} -> Transpose(A, [j \in 1..Len(A.shape) |-> Len(A.shape) - j])
                        [] OTHER -> A
FilteredAxes(axes, filt) == IF filt \in {"turn", "turn2"} THEN [j \in 1..Len(axes) |-> axes[Len(axes) + 1 - j]] \o <<>> ELSE axes

(* names: [all: BOOLEAN, l: sequence] *)
Wanted(nm, names) == names.all \/ nm \in Rng(names.l)
Concatenated(pieces, taxes, start, stop, names, filt) ==
  LET first == pieces[1]
      r(ax) == Span(pieces, ax, start, stop)
      keep == {nm \in DOMAIN first.ds : TimeAxisOf(first.ds[nm], taxes) = 0 \/ Wanted(nm, names)}
      vals(ax) == ConcatAll([k \in 1..Len(pieces) |-> pieces[k].im[ax].vals])
  IN [first EXCEPT
        !.im = [ax \in DOMAIN @ |-> IF ax \in Rng(taxes) THEN [@[ax] EXCEPT !.vals = SubSeq(vals(ax), r(ax).a + 1, r(ax).b)] ELSE @[ax]],
        !.ds = [nm \in keep |-> LET d == first.ds[nm] j == TimeAxisOf(d, taxes) IN
                  IF j = 0 THEN d
                  ELSE [d EXCEPT !.A = Filtered(Cut(EndToEnd(pieces, nm, j), j, r(d.axes[j])), filt), !.axes = FilteredAxes(@, filt)]]]

(* -------------------- piece by piece, as an algorithm -------------------- *)
(* what of a piece of n samples starting at cur goes where, for the range r *)
InFrom(r, cur) == Max2(0, r.a - cur)
InTo(r, cur, n) == Min2(n, r.b - cur)
OutFrom(r, cur) == Max2(0, cur - r.a)
Touches(r, cur, n) == cur < r.b /\ cur + n > r.a

(* -------------------------------- reading -------------------------------- *)
(* centres of the samples, in quarters: shifted by half the median spacing with the alignment *)
Median2(q) == LET s == SortSeq(q, <) n == Len(q) IN s[(n + 1) \div 2] + s[n \div 2 + 1]      \* twice the median
Centres(pieces, align) ==
  LET v == ConcatAll([k \in 1..Len(pieces) |-> pieces[k].im["time"].vals]) \o <<>>
      m == IF align = 0 THEN 0 ELSE Median2([k \in 1..Len(v) - 1 |-> v[k + 1] - v[k]] \o <<>>)
  IN [k \in 1..Len(v) |-> 4 * v[k] + align * m] \o <<>>
FirstAt(t, x) == LET js == {j \in 1..Len(t) : t[j] >= x} IN IF js = {} THEN Len(t) ELSE (CHOOSE j \in js : \A m \in js : j <= m) - 1
AfterLast(t, x) == LET js == {j \in 1..Len(t) : t[j] < x} IN IF js = {} THEN 0 ELSE CHOOSE j \in js : \A m \in js : j >= m
Bound(i) == [given |-> TRUE, i |-> i]
RStep(Q, s, o) ==
  LET t == Centres(Q.pieces, Q.align) IN
  CASE o.op = "tsel" -> [s EXCEPT !.a = o.a, !.b = o.b, !.err = FALSE]
    [] o.op = "range" -> [s EXCEPT !.a = IF o.t0.given THEN FirstAt(t, 4 * o.t0.i) ELSE @,
                                   !.b = IF o.t1.given THEN AfterLast(t, 4 * o.t1.i) ELSE @, !.err = FALSE]
    [] o.op = "dsel" -> IF Rng(o.names) \subseteq TimeNames(Q.pieces[1], Q.taxes) THEN [s EXCEPT !.names = o.names, !.err = FALSE]
                        ELSE [s EXCEPT !.err = TRUE]
    [] OTHER -> [s EXCEPT !.err = FALSE]
ReadOut(Q, s) == Concatenated(Q.pieces, Q.taxes, [k |-> "all", b |-> Bound(s.a)], [k |-> "all", b |-> Bound(s.b)],
                              [all |-> FALSE, l |-> s.names], "none")

(* ------------------------------ observations ----------------------------- *)
RankView(d, p, r) ==
  IF ~d.dist THEN [t |-> "nd", axis |-> -1, gshape |-> <<>>, start |-> 0, shape |-> d.A.shape, data |-> d.A.data]
  ELSE LET B == Part(d.A, d.dax, p, r) IN
       [t |-> "dist", axis |-> d.dax, gshape |-> d.A.shape, start |-> SplitStart(d.A.shape[d.dax+1], p, r),
        shape |-> B.shape, data |-> B.data]
View(c, p) == [attrs |-> c.attrs, hist |-> c.hist, im |-> c.im, rm |-> c.rm,
               ds |-> [nm \in DOMAIN c.ds |-> LET d == c.ds[nm] IN
                        [axes |-> d.axes, dt |-> d.dt, attrs |-> d.attrs, ranks |-> [r \in 1..p |-> RankView(d, p, r - 1)]]]]
RECURSIVE RunReader(_, _, _, _)
RunReader(Q, s, j, acc) == IF j > Len(Q.prog) THEN acc ELSE
  LET o == Q.prog[j] s1 == RStep(Q, s, o)
      out == [err |-> s1.err, a |-> s1.a, b |-> s1.b, names |-> Rng(s1.names)]
  IN RunReader(Q, s1, j + 1, Append(acc, IF o.op = "read" THEN [res |-> View(ReadOut(Q, s1), Q.p)] @@ out ELSE out))
RunTod(Q) ==
  IF Q.k = "concat"
  THEN LET c == Concatenated(Q.pieces, Q.taxes, Q.start, Q.stop, Q.names, Q.filt) IN
       [out |-> View(c, Q.p), ins |-> [j \in 1..Len(Q.pieces) |-> View(Q.pieces[j], Q.p)]]
  ELSE [time4 |-> Centres(Q.pieces, Q.align), datasets |-> TimeNames(Q.pieces[1], Q.taxes),
        steps |-> RunReader(Q, [a |-> 0, b |-> TotalLen(Q.pieces, "time"), names |-> SetToSeq(TimeNames(Q.pieces[1], Q.taxes)),
                                err |-> FALSE], 1, <<>>)]
=============================================================================
