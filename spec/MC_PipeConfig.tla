--------------------------- MODULE MC_PipeConfig ---------------------------
(* A manager reads a document step by step: it looks at the pipeline       *)
(* section, at the keys of all tasks, then makes one task after the other  *)
(* and gives it its keys, and stops at the first fault it meets.  It gets   *)
(* to run exactly the documents without any fault, and nothing runs before. *)
EXTENDS PipeConfig
CONSTANTS NTasks
VARIABLES doc, phase, at, ran
vars == <<doc, phase, at, ran>>
PT(p) == [p |-> p, opts |-> <<>>, elt |-> "", len |-> -1, max |-> -1, lo |-> 0, hi |-> 0]
Dc(nm, pt, def) == [name |-> nm, key |-> "", pt |-> pt, def |-> def, dep |-> FALSE]
Ord == [x |-> 1, broadcast_inputs |-> 2]
C == << [mro |-> <<1>>, order |-> Ord, decls |-> <<Dc("broadcast_inputs", PT("bool"), Bl(FALSE)), Dc("x", PT("int"), IntV(1))>>,
         minreq |-> 0, maxreq |-> 1, minin |-> 0, maxin |-> 1, refuses |-> FALSE],
        [mro |-> <<2, 1>>, order |-> Ord, decls |-> <<>>, minreq |-> 0, maxreq |-> 0, minin |-> 1, maxin |-> -1, refuses |-> FALSE],
        [mro |-> <<3, 1>>, order |-> Ord, decls |-> <<>>, minreq |-> 0, maxreq |-> 1, minin |-> 0, maxin |-> 1, refuses |-> TRUE] >>
K(s) == [str |-> TRUE, v |-> s]
Bad == [str |-> FALSE, v |-> "5"]
None0 == [k |-> "absent", keys |-> <<>>]
F(q) == [k |-> "list", keys |-> q]
InChoices == {None0, F(<<K("a")>>), F(<<K("a"), K("b")>>), F(<<Bad>>)}
OutChoices == {None0, [k |-> "null", keys |-> <<>>], F(<<K("a")>>), F(<<K("b")>>), F(<<K("a"), K("a")>>)}
ParChoices == {[k |-> "absent", inline |-> <<>>, names |-> <<>>], [k |-> "inline", inline |-> <<[k |-> "x", v |-> St("q")]>>, names |-> <<>>],
               [k |-> "inline", inline |-> <<[k |-> "z", v |-> IntV(1)]>>, names |-> <<>>],
               [k |-> "names", inline |-> <<>>, names |-> <<"s", "t">>], [k |-> "names", inline |-> <<>>, names |-> <<"u">>]}
Types == {[k |-> "task", c |-> 1], [k |-> "task", c |-> 2], [k |-> "task", c |-> 3], [k |-> "missing", c |-> 0]}
Secs == <<[name |-> "s", ismap |-> TRUE, cf |-> <<[k |-> "x", v |-> St("q")]>>], [name |-> "t", ismap |-> TRUE, cf |-> <<[k |-> "x", v |-> IntV(4)]>>]>>
Entries == {[ismap |-> TRUE, extra |-> e, type |-> ty, in |-> i, out |-> o, req |-> r, params |-> p] :
              e \in {FALSE}, ty \in Types, i \in InChoices, o \in OutChoices, r \in {None0, F(<<K("b")>>)}, p \in ParChoices}
Simple == [ismap |-> TRUE, extra |-> FALSE, type |-> [k |-> "task", c |-> 1], in |-> None0, out |-> F(<<K("a")>>), req |-> None0,
           params |-> [k |-> "names", inline |-> <<>>, names |-> <<"s", "t">>]]
Docs == {[pipe |-> "ok", tasks |-> q, sections |-> Secs] : q \in {<<e>> : e \in Entries} \cup
           (IF NTasks > 1 THEN {<<Simple, e>> : e \in Entries} \cup {<<e, [Simple EXCEPT !.out = F(<<K("b")>>)]>> : e \in Entries} ELSE {})}
         \cup {[pipe |-> "missing", tasks |-> <<Simple>>, sections |-> Secs],
               [pipe |-> "ok", tasks |-> <<[Simple EXCEPT !.extra = TRUE]>>, sections |-> Secs],
               [pipe |-> "ok", tasks |-> <<[Simple EXCEPT !.ismap = FALSE]>>, sections |-> Secs]}
Init == doc \in Docs /\ phase = "pipe" /\ at = 1 /\ ran = {}
Go(bad, p, a) == phase' = (IF bad THEN "rejected" ELSE p) /\ at' = a /\ UNCHANGED <<doc, ran>>
T == doc.tasks[at]
LookPipe == phase = "pipe" /\ Go(doc.pipe # "ok", "keys", 1)
LookKeys == phase = "keys" /\ Go(\/ \E j \in 1..Len(doc.tasks) : ~doc.tasks[j].ismap
                                 \/ \E i, j \in 1..Len(Outs(doc)) : i # j /\ Outs(doc)[i] = Outs(doc)[j]
                                 \/ \E j \in 1..Len(doc.tasks) : \/ NotString(KeysOf(doc.tasks[j].in)) \/ NotString(KeysOf(doc.tasks[j].out))
                                                                 \/ NotString(KeysOf(doc.tasks[j].req))
                                                                 \/ ~(Strings(KeysOf(doc.tasks[j].in) \o KeysOf(doc.tasks[j].req))) \subseteq Strings(Outs(doc)),
                                 "make", 1)
Make == phase = "make" /\ Go(\/ T.extra \/ T.type.k # "task"
                             \/ T.params.k = "names" /\ \E j \in 1..Len(T.params.names) : SectionOf(doc, T.params.names[j]) = {}
                             \/ IF T.type.k = "task" THEN ~ReadOK(C, New(T.type.c), TaskRead(doc, T)) ELSE FALSE, "add", at)
Add == phase = "add" /\ LET c == T.type.c IN
        Go(\/ ~Fits(Len(KeysOf(T.req)), C[c].minreq, C[c].maxreq) \/ ~Fits(Len(KeysOf(T.in)), C[c].minin, C[c].maxin)
           \/ Value(C, Configured(C, New(c), TaskRead(doc, T)), "broadcast_inputs").b \/ C[c].refuses,
           IF at = Len(doc.tasks) THEN "built" ELSE "make", IF at = Len(doc.tasks) THEN at ELSE at + 1)
RunIt == phase = "built" /\ phase' = "running" /\ ran' = 1..Len(doc.tasks) /\ UNCHANGED <<doc, at>>
Spec == Init /\ [][LookPipe \/ LookKeys \/ Make \/ Add \/ RunIt]_vars
Exact == /\ phase \in {"built", "running"} => Accepts(C, doc)
         /\ phase = "rejected" => ~Accepts(C, doc)
NothingRan == phase # "running" => ran = {}
=============================================================================
