---- MODULE MC_Container ----
(* All short histories of two or three small containers of a class hierarchy (a diamond, with a
   table): building from each other, adding datasets, writing, redistributing, converting,
   loading with selections and filtered copies.                                            *)
EXTENDS Container

CONSTANTS Ops, Steps, Names

D(axes, init, dist, dax) == [axes |-> axes, dt |-> "f8", init |-> init, hasdist |-> TRUE, dist |-> dist,
                             hasdax |-> dax # "", dax |-> dax, chunks |-> <<>>, comp |-> ""]
Base == [axes |-> <<"x">>, spec |-> [v |-> D(<<"x">>, TRUE, TRUE, ""), w |-> D(<<"x">>, TRUE, FALSE, "")], tables |-> Empty]
LeftC == [axes |-> <<"y">>, spec |-> [w |-> D(<<"y", "x">>, TRUE, TRUE, "x")], tables |-> Empty]
RightC == [axes |-> <<>>, spec |-> [w |-> D(<<"x">>, TRUE, TRUE, ""), u |-> D(<<"x">>, FALSE, FALSE, "")],
           tables |-> [t |-> [hasaxis |-> FALSE, axis |-> "", hasinit |-> TRUE, init |-> FALSE, hasdist |-> FALSE, dist |-> FALSE]]]
Q == [classes |-> [B |-> [layers |-> <<Base>>],
                   K |-> [layers |-> <<LeftC, RightC, Base>>]],     \* mro of (Left, Right) over Base
      fixed |-> Empty, p |-> 2]
Ax(n) == [k |-> "n", n |-> n, vals |-> <<>>, dt |-> "i8"]

VARIABLES S, n, last
vars == <<S, n, last>>
NoLast == [op |-> "none", pre |-> Empty, o |-> Empty, err |-> FALSE]
MakeOp(c, cls, kw, af, cf, dist) ==
  [op |-> "make", c |-> c, cls |-> cls, kw |-> kw, axesfrom |-> af, attrsfrom |-> "", dsetsfrom |-> "", copyfrom |-> cf,
   dist |-> dist, skip |-> FALSE, chunked |-> TRUE]
First == MakeOp("a", "K", [x |-> Ax(2), y |-> Ax(2), t_index |-> Ax(1)], "", "", TRUE)
Init == /\ n = 0 /\ last = NoLast
        /\ \E d \in BOOLEAN : S = Step(Q, Empty, [First EXCEPT !.dist = d]).S

Do(o) == /\ n < Steps /\ n' = n + 1 /\ o.op \in Ops
         /\ LET r == Step(Q, S, o) IN S' = r.S /\ last' = [op |-> o.op, pre |-> S, o |-> o, err |-> r.err]
DoMake == \E c \in Names, cls \in {"B", "K"}, f \in {"", "a"}, cf \in BOOLEAN, d \in BOOLEAN,
             kw \in {Empty, [x |-> Ax(1)], [x |-> Ax(3), y |-> Ax(1), t_index |-> Ax(0)]} :
           /\ cf /\ f # "" => "a" \in DOMAIN S /\ S["a"].cls = cls     \* copying data between classes that disagree is undefined
           /\ Do(MakeOp(c, cls, kw, IF cf THEN "" ELSE f, IF cf THEN f ELSE "", d))
DoAdd == \E c \in Names, d \in {"u", "t", "w", "z"} : n < Steps /\ Do([op |-> "add", c |-> c, ds |-> d])
DoWrite == \E c \in Names, d \in {"v", "w"} : n < Steps /\ Do([op |-> "write", c |-> c, ds |-> d, base |-> 10])
DoRedist == \E c \in Names, a \in {<<[k |-> "name", name |-> "y", i |-> 0], [k |-> "num", name |-> "", i |-> 1]>>,
                                  <<[k |-> "num", name |-> "", i |-> -1]>>, <<[k |-> "name", name |-> "x", i |-> 0]>>} :
             n < Steps /\ Do([op |-> "redist", c |-> c, axes |-> a])
DoToDist == \E c \in Names, d \in {"w", "u"}, ax \in {0, -1} : n < Steps /\ Do([op |-> "todist", c |-> c, ds |-> d, ax |-> ax])
DoToCommon == \E c \in Names, d \in {"v", "w"} : n < Steps /\ Do([op |-> "tocommon", c |-> c, ds |-> d])
Sels == {Empty, [x |-> [k |-> "list", l |-> <<1>>]], [x |-> FullSlice],
         [x |-> [k |-> "list", l |-> <<1, 0>>], y |-> MkSlice(1, 2)], [y |-> MkSlice(1, 1)]}
InRange(c, s) == \A a \in DOMAIN s : IF s[a].k # "list" \/ a \notin DOMAIN c.im THEN TRUE
                     ELSE \A j \in 1..Len(s[a].l) : s[a].l[j] < Len(c.im[a].vals)
DoLoad == \E c \in Names, s \in Sels, d \in BOOLEAN : "a" \in DOMAIN S /\ InRange(S["a"], s) /\
           Do([op |-> "load", c |-> c, src |-> "a", sels |-> s, dist |-> d])
DoFilter == \E s \in Sels, all \in BOOLEAN, ex \in {<<>>, <<"y">>}, d \in BOOLEAN :
  /\ "a" \in DOMAIN S /\ InRange(S["a"], s) /\ S["a"].cls = "K" /\ n < Steps /\ "filter" \in Ops
  /\ LET kw == [ax \in DOMAIN RealSels([sels |-> s]) |->
                   [k |-> "vals", n |-> 0, vals |-> SelVals(S["a"].im[ax].vals, s[ax]), dt |-> "i8"]]
         S1 == Step(Q, S, MakeOp("b", "K", kw, "a", "", d)).S
         o == [op |-> "filter", c |-> "b", src |-> "a", axis |-> <<>>, sels |-> s, excl |-> ex, all |-> all]
         r == Step(Q, S1, o)
     IN S' = r.S /\ n' = n + 1 /\ last' = [op |-> "filter", pre |-> S1, o |-> o, err |-> r.err]
Next == DoMake \/ DoAdd \/ DoWrite \/ DoRedist \/ DoToDist \/ DoToCommon \/ DoLoad \/ DoFilter
Spec == Init /\ [][Next]_vars
(* histories matter only through their last step *)
View_ == <<S, n, last>>

(* every dataset fits its axes, and is distributed over an axis it has *)
Agree == \A c \in DOMAIN S : \A nm \in DOMAIN S[c].ds :
  LET d == S[c].ds[nm] IN
  /\ d.axes = Spec_(Q.classes[S[c].cls])[nm].axes
  /\ NDim(d.A) = Len(d.axes) /\ Len(d.A.data) = Size(d.A.shape)
  /\ \A j \in 1..Len(d.axes) : d.axes[j] \in DOMAIN S[c].im /\ d.A.shape[j] = Len(S[c].im[d.axes[j]].vals)
  /\ IF d.dist THEN S[c].dist /\ d.dax \in 0..(NDim(d.A) - 1) ELSE d.dax = -1
(* the diamond: the left class wins over the right one, which wins over their base *)
Inherited == /\ Spec_(Q.classes["K"])["w"].axes = <<"y", "x">> /\ "t_index" \in Axes_(Q.classes["K"])
             /\ \A c \in DOMAIN S : DOMAIN S[c].im = Axes_(Q.classes[S[c].cls])
Values(d, r) == Part(d.A, d.dax, Q.p, r).data
RedistRight == last.op \in {"redist", "todist", "tocommon"} => \A c \in DOMAIN S :
  /\ [S[c] EXCEPT !.ds = Empty] = [last.pre[c] EXCEPT !.ds = Empty]
  /\ \A nm \in DOMAIN S[c].ds : LET a == last.pre[c].ds[nm] b == S[c].ds[nm] IN
       /\ [a EXCEPT !.dax = b.dax, !.dist = b.dist] = b                                 \* nothing else changes
       /\ last.op = "redist" /\ ~a.dist => a = b
       /\ b.dist => Concat([r \in 1..Q.p |-> Part(b.A, b.dax, Q.p, r - 1)], b.dax) = a.A    \* nothing is lost
LoadsRight == last.op = "load" /\ ~last.err => LET a == last.pre["a"] b == S[last.o.c] s == last.o.sels IN
  /\ DOMAIN a.ds = DOMAIN b.ds
  /\ s = Empty => \A nm \in DOMAIN a.ds : a.ds[nm].A = b.ds[nm].A
  /\ \A ax \in DOMAIN a.im : ax \notin DOMAIN s => a.im[ax] = b.im[ax]
  /\ \A nm \in DOMAIN a.ds : Rng(a.ds[nm].axes) \cap DOMAIN s = {} => a.ds[nm].A = b.ds[nm].A
  /\ \A nm \in DOMAIN a.ds : Rng(b.ds[nm].A.data) \subseteq Rng(a.ds[nm].A.data)
FilterRight == last.op = "filter" => LET a == last.pre["a"] IN
  /\ S["a"] = a                                                                        \* the source is left alone
  /\ ~last.err => LET b == S["b"] names == FilterNames(a, last.o) IN
       \A nm \in DOMAIN b.ds : IF nm \in names
          THEN b.ds[nm].A = SelArr(a.ds[nm].A, a.ds[nm].axes, last.o.sels)
          ELSE nm \in DOMAIN last.pre["b"].ds /\ b.ds[nm] = last.pre["b"].ds[nm]
Others == last.op \notin {"none", "filter"} => \A c \in DOMAIN last.pre : c # last.o.c => S[c] = last.pre[c]
====
