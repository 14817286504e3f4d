--------------------------- MODULE MC_Elementwise ---------------------------
EXTENDS Elementwise
CONSTANTS MaxM, Bits, Len0
VARIABLES st, m, p, a, b, q
vars == <<st, m, p, a, b, q>>
Nil == [kind |-> "none"]
Shapes == {<<>>} \cup {<<i>> : i \in 0..3} \cup {<<i, j>> : i, j \in 0..2}
Arg(s, z) == [kind |-> IF s = <<>> THEN "scalar" ELSE "array", shape |-> s, data |-> [j \in 1..Count(s) |-> z + j] \o <<>>]
Init == st = "new" /\ m = 1 /\ p = 1 /\ a = Nil /\ b = Nil /\ q = <<>>
Divides == st = "new" /\ st' = "div" /\ m' \in {x \in 1..MaxM : x % 2 = 1} /\ p' \in 2..Bits /\ UNCHANGED <<a, b, q>>
Maps == st = "new" /\ st' = "map" /\ \E s, t \in Shapes : a' = Arg(s, 0) /\ b' = Arg(t, 100) /\ UNCHANGED <<m, p, q>>
Grow == st \in {"new", "list"} /\ Len(q) < Len0 /\ st' = "list" /\ \E x \in 1..3 : q' = Append(q, x) /\ UNCHANGED <<m, p, a, b>>
Spec == Init /\ [][Divides \/ Maps \/ Grow]_vars
RECURSIVE Val(_)
Val(x) == IF x = <<>> THEN 0 ELSE 2 * Val(Front(x)) + x[Len(x)]
Abs(x) == IF x < 0 THEN 0 - x ELSE x
(* r.b is worth Val(r.b) 2^(r.e - Len(r.b) + 1): within half a last place of 1/m *)
Nearest == st = "div" => LET r == Recip(m, p)  k == Lead(m, 0)  full == Val(r.b) * 2 ^ ((IF r.e > 0 - k THEN p + 1 ELSE p) - Len(r.b)) IN
              Len(r.b) <= p + 1 /\ 2 * Abs(full * m - 2 ^ (p - 1 + k)) <= m /\ r.b[1] = 1
Back == st = "div" => LET v == [k |-> "num", s |-> 1, m |-> 1, e |-> m]  w == Invert(v, p, 0) IN w.e = 0 - m /\ w.s = 1 /\ w.b = <<1>>
Shape == st = "map" => LET r == Shown(<<a, b>>, 0) IN
   /\ (a.shape = b.shape => r.ok /\ r.shape = a.shape /\ \A j \in 1..Len(r.data) : r.data[j] = 3 * a.data[j] + 5 * b.data[j])
   /\ (a.shape = <<>> => r.ok /\ r.shape = b.shape /\ \A j \in 1..Len(r.data) : r.data[j] = 3 * a.data[1] + 5 * b.data[j])
   /\ (r.ok => Len(r.data) = Count(r.shape) /\ (r.scalar <=> a.shape = <<>> /\ b.shape = <<>>))
Scalars == st = "map" => LET r == Scalarised(<<a, b>>, 0)  s == Shown(<<a, b>>, 0) IN
   (s.ok /\ ~ (Empty(a) /\ Empty(b))) => r.ok /\ r.data = s.data /\ r.shape = s.shape
Uniq == LET d == Distinct(q, {}) IN
   /\ \A i, j \in 1..Len(d) : i # j => d[i] # d[j]
   /\ {d[j] : j \in 1..Len(d)} = {q[j] : j \in 1..Len(q)}
   /\ \A i, j \in 1..Len(d) : i < j => (CHOOSE x \in 1..Len(q) : q[x] = d[i] /\ \A y \in 1..(x-1) : q[y] # d[i])
                                     < (CHOOSE x \in 1..Len(q) : q[x] = d[j] /\ \A y \in 1..(x-1) : q[y] # d[j])
=============================================================================
