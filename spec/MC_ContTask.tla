---------------------------- MODULE MC_ContTask -----------------------------
(* Every short history of results under every combination of options.      *)
EXTENDS ContTask
CONSTANTS MaxSteps, NC
VARIABLES cfg, s, n, fresh, done
vars == <<cfg, s, n, fresh, done>>
Var(x) == [lit |-> FALSE, s |-> x]
Lit(x) == [lit |-> TRUE, s |-> x]
Names == {<<Var("tag"), Lit(".h5")>>, <<Lit("f"), Var("count"), Lit("_"), Var("key")>>}
Tags == {<<Var("tag")>>, <<Lit("t"), Var("count"), Var("key")>>}
Cfgs == {[save |-> sv, name |-> <<nm>>, tag |-> tg, attrs |-> <<>>, check |-> ck, skip |-> sk, dump |-> dp, comp |-> "spec", root |-> "", keys |-> <<"a", "b">>, task |-> "T"] :
           sv \in {<<TRUE>>, <<FALSE, TRUE>>}, nm \in Names, tg \in Tags, ck \in BOOLEAN, sk \in BOOLEAN, dp \in BOOLEAN}
(* fresh containers: the last two tagged, odd ones with NaN *)
Conts == [j \in 1..NC |-> [attrs |-> IF j > NC - 2 THEN <<[k |-> "tag", v |-> StrV("x")]>> ELSE <<>>, bad |-> j % 2 = 1, comp |-> "spec", hist |-> 0]]
Q == [cfg |-> cfg]
Init == cfg \in Cfgs /\ s = InitState([conts |-> Conts]) /\ n = 0 /\ fresh = 1..NC /\ done = FALSE
Do(outs, ins) == s' = Step(Q, s, [ins |-> ins, res |-> "out", outs |-> outs, done |-> FALSE])
OutPair == n < MaxSteps /\ ~done /\ ~s.err /\ \E a, b \in fresh : a # b /\ Do(<<a, b>>, <<>>) /\ fresh' = fresh \ {a, b} /\ n' = n + 1 /\ UNCHANGED <<cfg, done>>
OutFed == n < MaxSteps /\ ~done /\ ~s.err /\ \E a, b, i \in fresh : a # b /\ a # i /\ b # i /\ Do(<<a, b>>, <<i>>) /\ fresh' = fresh \ {a, b, i} /\ n' = n + 1 /\ UNCHANGED <<cfg, done>>
NoneOut == n < MaxSteps /\ ~done /\ s' = Step(Q, s, [ins |-> <<>>, res |-> "none", outs |-> <<>>, done |-> FALSE]) /\ n' = n + 1 /\ UNCHANGED <<cfg, fresh, done>>
Fin == ~done /\ \E a, b \in fresh : a # b /\ s' = Finish([cfg |-> cfg, fin |-> [res |-> "out", outs |-> <<a, b>>]], s) /\ done' = TRUE /\ UNCHANGED <<cfg, n, fresh>>
Spec == Init /\ [][OutPair \/ OutFed \/ NoneOut \/ Fin]_vars
Passed == {<<k, p>> \in (1..Len(s.out)) \X {1, 2} : s.out[k][p] # 0}
Ids == [x \in Passed |-> s.out[x[1]][x[2]]]
OnceEach == \A x, y \in Passed : x # y => Ids[x] # Ids[y]
Screened == cfg.check /\ cfg.skip => \A x \in Passed : ~s.conts[Ids[x]].bad
NoneLost == ~(cfg.check /\ cfg.skip) => \A k \in 1..Len(s.out) : \A p \in {1, 2} : s.out[k][p] # 0
Tagged == \A x \in Passed : HasA(s.conts[Ids[x]].attrs, "tag")
(* what asked to be saved is in a file of its name unless a later one took the name; nothing else is *)
SavedOnly == \A j \in 1..Len(s.files) : \/ \E x \in Passed : Ids[x] = s.files[j].id /\ Pick(cfg.save, x[2])
                                        \/ cfg.check /\ cfg.dump /\ s.conts[s.files[j].id].bad
NameOf(x) == IF cfg.name[1][1].lit THEN <<x[1], x[2]>> ELSE <<GetA(s.conts[Ids[x]].attrs, "tag")>>
SavedAll == \A x \in Passed : Pick(cfg.save, x[2]) => s.conts[Ids[x]].hist = 1 /\
              ((\A y \in Passed : NameOf(y) = NameOf(x) => y = x) => \E j \in 1..Len(s.files) : s.files[j].id = Ids[x] /\ s.files[j].hist = 1)
Counted == s.count <= n
=============================================================================
