---------------------------- MODULE MC_LoadFiles -----------------------------
(* Files come and go; every pattern lists exactly the files it names.        *)
EXTENDS LoadFiles
CONSTANTS MaxPat
VARIABLES have, pat, todo, got
vars == <<have, pat, todo, got>>
A == 97  B == 98
Names == <<<<A, 46, B>>, <<B, 46, B>>, <<A, A, 46, B>>, <<46, A>>, <<A, 46, A>>>>
Elems == {[k |-> "lit", c |-> A, set |-> <<>>, neg |-> FALSE], [k |-> "lit", c |-> 46, set |-> <<>>, neg |-> FALSE], [k |-> "star", c |-> 0, set |-> <<>>, neg |-> FALSE],
          [k |-> "any", c |-> 0, set |-> <<>>, neg |-> FALSE], [k |-> "set", c |-> 0, set |-> <<A>>, neg |-> TRUE]}
Fs == LET ids == SetToSortSeq(have, LAMBDA a, b : a < b) IN [j \in 1..Len(ids) |-> [str |-> ToString(ids[j]), comps |-> <<Names[ids[j]]>>, dir |-> FALSE, id |-> ids[j]]]
Pats == UNION {[1..n -> Elems] : n \in 1..MaxPat}
Init == have = {} /\ pat = <<>> /\ todo = <<>> /\ got = <<>>
Arrive == todo = <<>> /\ got = <<>> /\ \E f \in 1..5 : f \notin have /\ have' = have \cup {f} /\ UNCHANGED <<pat, todo, got>>
Ask == todo = <<>> /\ got = <<>> /\ pat = <<>> /\ \E p \in Pats : pat' = p /\ LET r == Files(Fs, [t |-> "glob", pat |-> <<p>>]) IN
         todo' = [j \in 1..Len(r.l) |-> Fs[r.l[j]].id] /\ UNCHANGED <<have, got>>
Read == todo # <<>> /\ got' = Append(got, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<have, pat>>
Next == Arrive \/ Ask \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Read)
All == got \o todo
Once == \A i, j \in 1..Len(All) : i # j => All[i] # All[j]
Exists == Rng1(All) \subseteq have
InOrder == \A i, j \in 1..Len(All) : i < j => Before(Names[All[i]], Names[All[j]])
(* matching, said differently: some way to cut the name into the parts of the pattern *)
Cut(p, c) == \E w \in [1..Len(p) -> 0..Len(c)] :
   /\ Len(c) = (IF p = <<>> THEN 0 ELSE LET sum[k \in 0..Len(p)] == IF k = 0 THEN 0 ELSE sum[k - 1] + w[k] IN sum[Len(p)])
   /\ LET off[k \in 1..Len(p)] == IF k = 1 THEN 0 ELSE off[k - 1] + w[k - 1] IN
      \A k \in 1..Len(p) : p[k].k # "star" => w[k] = 1 /\ (IF off[k] >= Len(c) THEN FALSE ELSE LET x == c[off[k] + 1] IN
            p[k].k = "any" \/ (p[k].k = "lit" /\ x = p[k].c) \/ (p[k].k = "set" /\ InSet(p[k], x)))
Exact == pat # <<>> /\ (todo # <<>> \/ got # <<>>) =>
   \A f \in have : (f \in Rng1(All)) = (Cut(pat, Names[f]) /\ (Names[f][1] = 46 /\ Wild(pat) => pat[1].k = "lit" /\ pat[1].c = 46))
AllRead == (todo # <<>>) ~> (todo = <<>>)
=============================================================================
