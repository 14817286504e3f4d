------------------------------ MODULE LoadFiles ------------------------------
(***************************************************************************)
(* Lists, globs and groups of files, and the tasks that load them.         *)
(* fs: entries [str (path), comps (its components, as character codes),     *)
(*      dir, attrs, stem, nx, ny, px, py (where it has a NaN, -1: nowhere)] *)
(* An argument is a tree [t "path"|"glob"|"list"|"bad", ...].               *)
(* What a task does with what it loads is that of any container task.       *)
(***************************************************************************)
EXTENDS ContTask
Rng1(q) == {q[j] : j \in 1..Len(q)}
(* ------------------------------- globs -------------------------------- *)
InSet(e, x) == IF e.neg THEN x \notin Rng1(e.set) ELSE x \in Rng1(e.set)
RECURSIVE Match(_, _)
Match(p, c) ==
  IF p = <<>> THEN c = <<>>
  ELSE CASE p[1].k = "star" -> Match(Tail(p), c) \/ (c # <<>> /\ Match(p, Tail(c)))
         [] OTHER -> c # <<>> /\ (CASE p[1].k = "lit" -> p[1].c = c[1] [] p[1].k = "any" -> TRUE [] OTHER -> InSet(p[1], c[1])) /\ Match(Tail(p), Tail(c))
Hidden(c) == c # <<>> /\ c[1] = 46
Wild(p) == \E j \in 1..Len(p) : p[j].k # "lit"
MatchComp(p, c) == Match(p, c) /\ (Hidden(c) /\ Wild(p) => p[1].k = "lit" /\ p[1].c = 46)
MatchPath(p, c) == Len(p) = Len(c) /\ \A j \in 1..Len(p) : MatchComp(p[j], c[j])
RECURSIVE Joined(_)
Joined(c) == IF Len(c) = 1 THEN c[1] ELSE c[1] \o <<47>> \o Joined(Tail(c))
RECURSIVE Before(_, _)
Before(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Before(Tail(a), Tail(b))
Sorted(fs, ids) == SetToSortSeq(ids, LAMBDA a, b : Before(Joined(fs[a].comps), Joined(fs[b].comps)))
IsZarr(e) == LET q == e.comps[Len(e.comps)]  n == Len(q) IN n >= 5 /\ SubSeq(q, n - 4, n) = <<46, 122, 97, 114, 114>>
Proper(e) == IF IsZarr(e) THEN e.dir ELSE ~e.dir
At(fs, s) == IF \E j \in 1..Len(fs) : fs[j].str = s THEN CHOOSE j \in 1..Len(fs) : fs[j].str = s ELSE 0
Bad == [ok |-> FALSE, l |-> <<>>]
Good(l) == [ok |-> TRUE, l |-> l]
(* a list or pattern, as a flat list of existing files in order *)
RECURSIVE Files(_, _)
RECURSIVE FilesAll(_, _)
FilesAll(fs, q) == IF q = <<>> THEN Good(<<>>) ELSE LET a == Files(fs, Head(q))  b == FilesAll(fs, Tail(q)) IN IF a.ok /\ b.ok THEN Good(a.l \o b.l) ELSE Bad
Files(fs, a) ==
  CASE a.t = "path" -> (LET j == At(fs, a.str) IN IF j = 0 THEN Bad ELSE IF Proper(fs[j]) THEN Good(<<j>>) ELSE Bad)
    [] a.t = "glob" -> (LET m == {j \in 1..Len(fs) : MatchPath(a.pat, fs[j].comps)} IN IF \A j \in m : Proper(fs[j]) THEN Good(Sorted(fs, m)) ELSE Bad)
    [] a.t = "list" -> FilesAll(fs, a.items)
    [] OTHER -> Bad
(* groups [dict, hastag, tag, hasfiles, files]: each gets its files, at least one *)
Group(fs, g, k) ==
  IF ~g.dict \/ ~g.hasfiles THEN [ok |-> FALSE, tag |-> "", l |-> <<>>]
  ELSE LET r == Files(fs, g.files) IN [ok |-> r.ok /\ r.l # <<>>, tag |-> IF g.hastag THEN g.tag ELSE "group_" \o ToString(k - 1), l |-> r.l]
Groups(fs, q) == LET r == [k \in 1..Len(q) |-> Group(fs, q[k], k)] IN
  IF \A k \in 1..Len(q) : r[k].ok THEN [ok |-> TRUE, g |-> [k \in 1..Len(q) |-> [tag |-> r[k].tag, l |-> r[k].l]]] ELSE [ok |-> FALSE, g |-> <<>>]
RunLists(Q) == IF Q.what = "groups" THEN Groups(Q.fs, Q.groups) ELSE Files(Q.fs, Q.arg)

(* ----------------------------- selections ----------------------------- *)
IntList(v) == v.t = "list" /\ \A j \in 1..Len(v.l) : v.l[j].t = "int"
KeyOK(e, maps) == /\ e.axis # "" /\ (e.type \in {"range", "index"} \/ (e.type = "map" /\ maps))
                  /\ e.type = "range" => IntList(e.v) /\ Len(e.v.l) \in {2, 3}
                  /\ e.type = "index" => IntList(e.v) /\ e.v.l # <<>>
                  /\ e.type = "map" => e.v.t = "list" /\ e.v.l # <<>>
SelsOK(sels, maps) == \A j \in 1..Len(sels) : KeyOK(sels[j], maps)
Clip(n, i) == LET k == IF i < 0 THEN i + n ELSE i IN IF k < 0 THEN 0 ELSE IF k > n THEN n ELSE k
PyRange(n, q) == LET a == Clip(n, q[1])  b == Clip(n, q[2])  st == IF Len(q) = 3 THEN q[3] ELSE 1
                     m == IF b <= a THEN 0 ELSE ((b - a - 1) \div st) + 1 IN [k \in 1..m |-> a + (k - 1) * st]
Ints(v) == [j \in 1..Len(v.l) |-> v.l[j].n]
HasSel(sels, ax, ty) == \E j \in 1..Len(sels) : sels[j].axis = ax /\ sels[j].type = ty
SelOf(sels, ax, ty) == sels[CHOOSE j \in 1..Len(sels) : sels[j].axis = ax /\ sels[j].type = ty].v
(* ranges override indices, which override values *)
PosOf(sels, ax, n) == IF HasSel(sels, ax, "range") THEN PyRange(n, Ints(SelOf(sels, ax, "range")))
                      ELSE IF HasSel(sels, ax, "index") THEN Ints(SelOf(sels, ax, "index")) ELSE [k \in 1..n |-> k - 1]
AxesOK(sels) == \A j \in 1..Len(sels) : sels[j].axis \in {"x", "y"}

(* ------------------------------- loading ------------------------------ *)
Load(Q, j, named) ==
  LET f == Q.fs[j]  xs == PosOf(Q.sels, "x", f.nx)  ys == PosOf(Q.sels, "y", f.ny) IN
  [attrs |-> IF named /\ ~HasA(f.attrs, "tag") THEN PutA(f.attrs, "tag", StrV(f.stem)) ELSE f.attrs,
   bad |-> f.px \in Rng1(xs) /\ f.py \in Rng1(ys), comp |-> "spec", hist |-> 0, file |-> j, xs |-> xs, ys |-> ys]
RECURSIVE FmtA(_, _)
FmtA(a, f) == IF f = <<>> THEN "" ELSE (IF Head(f).lit THEN Head(f).s ELSE Text(GetA(a, Head(f).s))) \o FmtA(a, Tail(f))
FmtAOK(a, f) == \A j \in 1..Len(f) : f[j].lit \/ HasA(a, f[j].s)
NoFin == [res |-> "absent", outs |-> <<>>]
Result(Q, conts, steps, missing) ==
  LET s == Finish([cfg |-> Q.cfg, fin |-> NoFin], Steps([cfg |-> Q.cfg, steps |-> steps], InitState([conts |-> conts]), 1)) IN
  [err |-> s.err \/ missing, out |-> s.out,
   conts |-> [j \in 1..Len(conts) |-> [attrs |-> s.conts[j].attrs, file |-> s.conts[j].file, xs |-> s.conts[j].xs, ys |-> s.conts[j].ys]]]
Failed == [err |-> TRUE, out |-> <<>>, conts |-> <<>>]
Out1(id, ins) == [ins |-> ins, res |-> "out", outs |-> <<id>>, done |-> FALSE]
(* one container per listed file (l: entries, 0: not there), then no more *)
UpTo(l) == IF \E j \in 1..Len(l) : l[j] = 0 THEN SubSeq(l, 1, (CHOOSE j \in 1..Len(l) : l[j] = 0 /\ \A i \in 1..(j - 1) : l[i] # 0) - 1) ELSE l
InTurn(Q, l) ==
  LET u == UpTo(l) IN
  Result(Q, [j \in 1..Len(u) |-> Load(Q, u[j], TRUE)], [j \in 1..Len(u) |-> Out1(j, <<>>)], Len(u) < Len(l) \/ (u # <<>> /\ ~AxesOK(Q.sels)))
RECURSIVE Cross(_, _)
Cross(paths, tags) == IF paths = <<>> THEN <<>> ELSE [t \in 1..Len(tags) |-> [p |-> Head(paths), tag |-> tags[t]]] \o Cross(Tail(paths), tags)
RECURSIVE PathText(_, _)
PathText(f, tag) == IF f = <<>> THEN "" ELSE (IF Head(f).lit THEN Head(f).s ELSE tag) \o PathText(Tail(f), tag)
InConts(Q) == [j \in 1..Len(Q.ins) |-> [attrs |-> Q.ins[j], bad |-> FALSE, comp |-> "spec", hist |-> 0, file |-> 0, xs |-> <<>>, ys |-> <<>>]]
(* the file named after each input *)
ByAttrs(Q) ==
  LET n == Len(Q.ins)
      nm == [j \in 1..n |-> IF FmtAOK(Q.ins[j], Q.name) THEN At(Q.fs, FmtA(Q.ins[j], Q.name)) ELSE 0]
      u == UpTo(nm)
  IN  Result(Q, InConts(Q) \o [j \in 1..Len(u) |-> Load(Q, u[j], FALSE)], [j \in 1..Len(u) |-> Out1(n + j, <<j>>)], Len(u) < n \/ (n > 0 /\ ~AxesOK(Q.sels)))
(* of all the files those with the key of the input, or in turn *)
Choose(Q, l) ==
  LET n == Len(Q.ins)  m == Len(l)
      files == [j \in 1..m |-> Load(Q, l[j], FALSE)]
      key(a) == FmtA(a, Q.key)
      hit(j) == {k \in 1..m : key(files[k].attrs) = key(Q.ins[j])}
      last(S) == CHOOSE k \in S : \A i \in S : i <= k
      bad == ~AxesOK(Q.sels) \/ (Q.haskey /\ (\E k \in 1..m : ~FmtAOK(files[k].attrs, Q.key)))
      badin == Q.haskey /\ \E j \in 1..n : ~FmtAOK(Q.ins[j], Q.key)
      step(j) == IF ~Q.haskey THEN Out1(n + ((j - 1) % m) + 1, <<j>>)
                 ELSE IF hit(j) = {} THEN [ins |-> <<j>>, res |-> "none", outs |-> <<>>, done |-> FALSE] ELSE Out1(n + last(hit(j)), <<j>>)
  IN  IF (m > 0 /\ bad) \/ badin THEN Failed ELSE Result(Q, InConts(Q) \o files, [j \in 1..n |-> step(j)], FALSE)
RunLoad(Q) ==
  LET r == IF Q.kind \in {"params", "select", "files"} THEN Files(Q.fs, Q.arg) ELSE Good(<<>>) IN
  IF ~r.ok \/ ~SelsOK(Q.sels, Q.maps) THEN Failed
  ELSE CASE Q.kind \in {"params", "files"} -> InTurn(Q, r.l)
         [] Q.kind = "pathtag" -> (LET c == Cross(Q.paths, Q.tags) IN InTurn(Q, [k \in 1..Len(c) |-> At(Q.fs, PathText(c[k].p, c[k].tag))]))
         [] Q.kind = "attrs" -> ByAttrs(Q)
         [] OTHER -> Choose(Q, r.l)
(* --------------------------- the plain save task ------------------------ *)
RECURSIVE SaveEach(_, _, _, _)
SaveEach(ins, j, n, files) ==
  IF j > Len(ins) THEN files
  ELSE LET has == HasA(ins[j], "tag")
           nm == "s_" \o (IF has THEN Text(GetA(ins[j], "tag")) ELSE ToString(n)) \o ".h5"
       IN  SaveEach(ins, j + 1, IF has THEN n ELSE n + 1, Append(SelectSeq(files, LAMBDA f : f.name # nm), [name |-> nm, id |-> j]))
RunSave(Q) == [out |-> [j \in 1..Len(Q.ins) |-> j], files |-> SaveEach(Q.ins, 1, 0, <<>>)]
=============================================================================
