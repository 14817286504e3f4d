---------------------------- MODULE MC_TimeForms ----------------------------
EXTENDS TimeForms
CONSTANTS LastDay, Steps
VARIABLES n, date, v, k, born
(* n: days since 1970, date: the same, counted by the rules of the calendar; v: a value passed through k conversions *)
vars == <<n, date, v, k, born>>
Instants == {[d |-> n, s |-> s, u |-> u] : s \in {0, 86399}, u \in {0, 999999}}
Begin == { [form |-> f, i |-> IF f = "str" THEN Whole(i) ELSE i, off |-> 0] : f \in {"unix", "naive", "str", "sky"}, i \in Instants }
    \cup { [form |-> "aware", i |-> i, off |-> o] : i \in Instants, o \in {-720, 330} }
None == [form |-> "none"]
Init == n = 0 /\ date = [y |-> 1970, m |-> 1, d |-> 1] /\ v = None /\ k = 0 /\ born = None
NextDay == /\ v = None /\ n < LastDay /\ n' = n + 1
           /\ date' = IF date.d < InMonth(date.y, date.m) THEN [date EXCEPT !.d = @ + 1]
                      ELSE IF date.m < 12 THEN [date EXCEPT !.m = @ + 1, !.d = 1] ELSE [y |-> date.y + 1, m |-> 1, d |-> 1]
           /\ UNCHANGED <<v, k, born>>
Pick == v = None /\ (date.d = 1 \/ (date.m = 2 /\ date.d > 27)) /\ date.y % 4 \in {0, 1} /\ \E b \in Begin : v' = b /\ born' = b /\ UNCHANGED <<n, date, k>>
Convert == v # None /\ k < Steps /\ \E op \in Able(v.form) : v' = Conv(v, op) /\ k' = k + 1 /\ UNCHANGED <<n, date, born>>
Spec == Init /\ [][NextDay \/ Pick \/ Convert]_vars
Same == Civil(n) = date /\ DaysFrom(date.y, date.m, date.d) = n
(* an instant is only ever cut to the second, and only by a string *)
Kept == v # None => v.i \in {born.i, Whole(born.i)}
Cut == (v # None /\ v.form = "str") => v.i.u = 0
Fielded == v # None => OfFields(Fields(Move(v.i, 60 * v.off)), v.off) = v.i
ZoneFree == (v # None /\ v.form # "aware") => v.off = 0
=============================================================================
