------------------------------ MODULE TimeForms -----------------------------
(***************************************************************************)
(* Instants in UTC and the forms they are given in: unix seconds, datetimes *)
(* (naive ones are UTC, others are off by their zone), strings that count   *)
(* whole seconds, and astronomical times.  An instant is [d (days since      *)
(* 1970), s (second of the day), u (microsecond)].                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
InMonth(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
(* years are counted from March, so that the leap day comes last *)
DaysFrom(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y  mm == (m + 9) % 12
  IN 365 * yy + yy \div 4 - yy \div 100 + yy \div 400 + (mm * 306 + 5) \div 10 + (d - 1) - 719468
Civil(n) ==
  LET z == n + 719468  era == z \div 146097  doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> doy - (153 * mp + 2) \div 5 + 1]
RECURSIVE Digits(_, _)
Digits(n, w) == IF w = 0 THEN "" ELSE Digits(n \div 10, w - 1) \o ToString(n % 10)
(* i moved by n seconds *)
Move(i, n) == LET t == i.s + n IN [d |-> i.d + t \div 86400, s |-> t % 86400, u |-> i.u]
Whole(i) == [i EXCEPT !.u = 0]
Text(i) == LET c == Civil(i.d) IN
  Digits(c.y, 4) \o Digits(c.m, 2) \o Digits(c.d, 2) \o "T" \o Digits(i.s \div 3600, 2) \o Digits((i.s \div 60) % 60, 2) \o Digits(i.s % 60, 2) \o "Z"
Fields(i) == LET c == Civil(i.d) IN <<c.y, c.m, c.d, i.s \div 3600, (i.s \div 60) % 60, i.s % 60, i.u>>
(* the instant that a datetime with these fields, so many minutes off UTC, stands for *)
OfFields(f, off) == Move([d |-> DaysFrom(f[1], f[2], f[3]), s |-> f[4] * 3600 + f[5] * 60 + f[6], u |-> f[7]], 0 - 60 * off)
(* days before which a leap second was put in *)
LeapDays == { DaysFrom(y, 7, 1) : y \in {1972, 1981, 1982, 1983, 1985, 1992, 1993, 1994, 1997, 2012, 2015} }
       \cup { DaysFrom(y, 1, 1) : y \in {1973, 1974, 1975, 1976, 1977, 1978, 1979, 1980, 1988, 1990, 1991, 1996, 1999, 2006, 2009, 2017} }
LeapsBy(i) == Cardinality({ n \in LeapDays : n <= i.d })
LeapsBetween(a, b) == LeapsBy(b) - LeapsBy(a)
-----------------------------------------------------------------------------
(* A value is [form, i, off]: off in minutes, "naive" datetimes and all others have 0.      *)
(* The conversions; what a string leaves out is lost.  "lose": to about the microsecond.    *)
Conv(v, op) ==
  CASE op = "to_datetime" -> [v EXCEPT !.form = "aware", !.off = 0]
    [] op = "to_unix" -> [v EXCEPT !.form = "unix", !.off = 0]
    [] op = "ensure" -> [v EXCEPT !.form = "unix", !.off = 0]
    [] op = "to_str" -> [v EXCEPT !.form = "str", !.i = Whole(v.i), !.off = 0]
    [] op = "from_str" -> [v EXCEPT !.form = "naive"]
    [] op = "to_utc" -> IF v.form = "naive" THEN [v EXCEPT !.form = "aware"] ELSE v
    [] op = "to_sky" -> [v EXCEPT !.form = "sky"]
    [] op = "from_sky" -> [v EXCEPT !.form = "unix"]
Able(form) == CASE form = "unix" -> {"to_datetime", "ensure", "to_sky"}
                [] form = "naive" -> {"to_unix", "ensure", "to_str", "to_utc"}
                [] form = "aware" -> {"to_unix", "ensure", "to_str", "to_utc"}
                [] form = "str" -> {"from_str", "ensure"}
                [] form = "sky" -> {"from_sky", "ensure"}
Show(v) == [form |-> v.form, i |-> v.i, text |-> IF v.form = "str" THEN Text(v.i) ELSE "",
            fields |-> IF v.form \in {"naive", "aware"} THEN Fields(Move(v.i, 60 * v.off)) ELSE <<>>, tod |-> <<v.i.s, v.i.u>>]
Start(P, j) == [form |-> P.form, i |-> IF P.form \in {"naive", "aware"} THEN OfFields(P.vals[j].f, P.vals[j].off)
                                       ELSE IF P.form = "str" THEN Whole(P.vals[j].i) ELSE P.vals[j].i,
                off |-> IF P.form = "aware" THEN P.vals[j].off ELSE 0]
RECURSIVE Walk(_, _)
Walk(v, ops) == IF ops = <<>> THEN <<>> ELSE LET n == Conv(v, Head(ops)) IN <<Show(n)>> \o Walk(n, Tail(ops))
RunProgram(P) ==
  IF P.op = "walk" THEN [start |-> [j \in 1..Len(P.vals) |-> Show(Start(P, j))] \o <<>>,
                         steps |-> [j \in 1..Len(P.vals) |-> Walk(Start(P, j), P.ops)] \o <<>>]
  ELSE [n |-> [j \in 1..Len(P.a) |-> LeapsBetween(P.a[j], P.b[j])] \o <<>>]
-----------------------------------------------------------------------------
(* The stellar clock: the angle of the Earth turns by 1.00273781191135448 turns a day of UT1, which is never more than 0.9 s from UTC. *)
(* Angles in 1e-7 turns, times [d, ms].                                                                                              *)
Turn == 10000000
Wrap(a) == LET r == a % Turn IN IF 2 * r > Turn THEN r - Turn ELSE r
Near(a, b, tol) == Wrap(a - b) \in (0 - tol)..tol
(* 2000-01-01 12:00 is day 10957.5: counted from noon there *)
Era(t) ==
  LET half == t.ms - 43200000
      days == IF half >= 0 THEN t.d - 10957 ELSE t.d - 10958
      ms == IF half >= 0 THEN half ELSE half + 86400000
      frac == (ms \div 86400) * 10000 + ((ms % 86400) * 10000) \div 86400
  IN (7790573 + frac + days * 27378 + (days * 1191) \div 10000 + ((frac \div 1000) * 2738) \div 1000) % Turn
Apart(a, b) == (b.d - a.d) * 86400000 + (b.ms - a.ms)          \* for times at most 20 days apart
Close(a, b, tol) == a.d - b.d \in -1..1 /\ Apart(a, b) \in (0 - tol)..tol
Day == 86164099
(* R: what was recorded for one observer: t -> era, lsa, lsd (whole turns, part), back (from lsd), and for a sought angle: at >= t0. *)
Broken(R) ==
     { x \in {"angle"} : ~ Near(R.era, Era(R.t), 120) }
  \cup { x \in {"local angle"} : ~ Near(R.lsa, R.era + R.lon, 2) }
  \cup { x \in {"angle range"} : ~ (R.era \in 0..Turn /\ R.lsa \in 0..Turn /\ R.part \in 0..Turn) }
  \cup { x \in {"day part"} : ~ Near(R.part, R.lsa, 2) }
  \cup { x \in {"back"} : ~ Close(R.back, R.t, 8) }
  \cup { x \in {"sought"} : ~ (Near(R.atlsa, R.sought, 3) /\ R.at.d - R.t0.d \in 0..2 /\ Apart(R.t0, R.at) \in (-8)..(Day + 1100)) }
  \cup { x \in {"zero"} : ~ (Near(R.zerolsa, 0, 3) /\ R.zero.d - R.start.d \in 0..2 /\ Apart(R.start, R.zero) \in (-8)..(Day + 1100)) }
  \cup { x \in {"zero day"} : ~ (R.zerowhole = 0 /\ Close(R.zeroback, R.zero, 8)) }
  \cup { x \in {"whole"} : LET n == (R.t.d - R.zero.d)                      \* turns since zero, to within a tenth
                               tenths == n * 10 + (n * 27378) \div 1000000 + (R.t.ms - R.zero.ms) \div 8640000
                           IN ~ (10 * R.whole + (R.part \div 1000000) - tenths \in -4..4) }
Judge(P) == [broken |-> SetToSeq(Broken(P))]
=============================================================================
