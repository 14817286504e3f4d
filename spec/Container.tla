----------------------------- MODULE Container -----------------------------
(***************************************************************************)
(* Containers: axes with index maps, datasets over them, attributes and    *)
(* history.  A class is a sequence of layers, most derived first, each      *)
(* declaring axes, datasets and tables.  A program is a list of operations  *)
(* on named containers; the state maps names to containers.  Arrays are     *)
(* global; how they are spread over p ranks is given by the even split.     *)
(*                                                                          *)
(* container: [cls, dist, chunked, im, ds, attrs, hist]                     *)
(*   ispec: datasets declared on the container itself                       *)
(*   im: axis -> [vals, dt, attrs]                                          *)
(*   ds: name -> [axes, A, known, dist, dax, attrs, dt, chunks, comp]       *)
(***************************************************************************)
EXTENDS NDArray

Empty == [x \in {} |-> 0]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == (k :> v) @@ f
Without(f, S) == [k \in (DOMAIN f) \ S |-> f[k]]
Rng(q) == {q[j] : j \in 1..Len(q)}
PosOf(q, x) == CHOOSE j \in 1..Len(q) : q[j] = x /\ \A m \in 1..(j-1) : q[m] # x

(* ------------------------------- classes -------------------------------- *)
RECURSIVE Over(_, _, _)          \* merge field fld of the layers, most derived wins
Over(layers, fld, j) == IF j > Len(layers) THEN Empty
                        ELSE (IF fld = "spec" THEN layers[j].spec ELSE layers[j].tables) @@ Over(layers, fld, j + 1)
TableAxis(nm, t) == IF t.hasaxis THEN t.axis ELSE nm \o "_index"
TableDset(nm, t) == [axes |-> <<TableAxis(nm, t)>>, dt |-> "rec",
                     init |-> IF t.hasinit THEN t.init ELSE TRUE,
                     hasdist |-> TRUE, dist |-> IF t.hasdist THEN t.dist ELSE FALSE,
                     hasdax |-> FALSE, dax |-> "", chunks |-> <<>>, comp |-> ""]
Tables(cl) == LET T == Over(cl.layers, "tables", 1) IN [nm \in DOMAIN T |-> TableDset(nm, T[nm])]
Spec_(cl) == Tables(cl) @@ Over(cl.layers, "spec", 1)
Axes_(cl) == UNION {Rng(cl.layers[j].axes) : j \in 1..Len(cl.layers)}
             \cup {Tables(cl)[nm].axes[1] : nm \in DOMAIN Tables(cl)}

(* what holds for one container: what is declared on itself comes first *)
SpecOf(c, cl) == c.ispec @@ Spec_(cl)

(* ------------------------------ datasets -------------------------------- *)
(* an axis of a dataset is a name, or a fixed length written "=n"           *)
AxLen(c, fixed, ax) == IF ax \in DOMAIN c.im THEN Len(c.im[ax].vals) ELSE fixed[ax]
NewDset(c, fixed, s) ==
  LET sh == [j \in 1..Len(s.axes) |-> AxLen(c, fixed, s.axes[j])]
      d  == c.dist /\ (IF s.hasdist THEN s.dist ELSE TRUE)
  IN [axes |-> s.axes, A |-> Full(sh, 0), known |-> FALSE, dist |-> d,
      dax |-> IF ~d THEN -1 ELSE IF s.hasdax THEN PosOf(s.axes, s.dax) - 1 ELSE 0,
      attrs |-> Empty, dt |-> s.dt,
      chunks |-> IF c.chunked /\ s.chunks # <<>> THEN [j \in 1..Len(sh) |-> Min2(s.chunks[j], sh[j])] ELSE <<>>,
      comp |-> IF c.chunked THEN s.comp ELSE ""]
CanAdd(c, fixed, cl, nm) == /\ nm \in DOMAIN SpecOf(c, cl)
                            /\ \A j \in 1..Len(SpecOf(c, cl)[nm].axes) :
                                  SpecOf(c, cl)[nm].axes[j] \in (DOMAIN c.im) \cup (DOMAIN fixed)
AddDset(c, fixed, cl, nm) == [c EXCEPT !.ds = Put(@, nm, NewDset(c, fixed, SpecOf(c, cl)[nm]))]
RECURSIVE AddAll(_, _, _, _)
AddAll(c, fixed, cl, names) == IF names = {} THEN c ELSE
  LET nm == CHOOSE x \in names : TRUE IN AddAll(AddDset(c, fixed, cl, nm), fixed, cl, names \ {nm})

(* ---------------------------- construction ------------------------------ *)
(* o.kw: axis -> [k: "n"/"vals"/"none", n, vals, dt]; sources are names or "" *)
From(S, nm) == S[nm]
KwAxis(v) == IF v.k = "n" THEN [vals |-> [j \in 1..v.n |-> j - 1], dt |-> "i8", attrs |-> Empty]
             ELSE [vals |-> v.vals, dt |-> v.dt, attrs |-> Empty]
AxisFrom(S, o) == IF o.axesfrom # "" THEN o.axesfrom ELSE o.copyfrom
AttrsFrom(S, o) == IF o.attrsfrom # "" THEN o.attrsfrom ELSE o.copyfrom
DsetsFrom(S, o) == IF o.dsetsfrom # "" THEN o.dsetsfrom ELSE o.copyfrom
AxisGiven(S, o, ax) == \/ ax \in DOMAIN o.kw /\ o.kw[ax].k # "none"
                       \/ ax \notin DOMAIN o.kw /\ AxisFrom(S, o) # "" /\ ax \in DOMAIN S[AxisFrom(S, o)].im
AxesGiven(S, cl, o) == \A ax \in Axes_(cl) : AxisGiven(S, o, ax)
Bare(S, cl, o) ==
  [cls |-> o.cls, dist |-> o.dist, chunked |-> o.chunked,
   im |-> [ax \in Axes_(cl) |-> IF ax \in DOMAIN o.kw THEN KwAxis(o.kw[ax]) ELSE S[AxisFrom(S, o)].im[ax]],
   ds |-> Empty, attrs |-> Empty, hist |-> <<>>, ispec |-> Empty]
(* the datasets of the source that can be copied: none of their axes redefined *)
Copyable(S, cl, o) == IF DsetsFrom(S, o) = "" THEN {} ELSE
  LET src == S[DsetsFrom(S, o)] IN
  {nm \in (DOMAIN Spec_(cl)) \cap (DOMAIN src.ds) :
     Rng(src.ds[nm].axes) \cap ((DOMAIN o.kw) \cap Axes_(cl)) = {}}
Initial(S, cl, o) == Copyable(S, cl, o) \cup (IF o.skip THEN {} ELSE {nm \in DOMAIN Spec_(cl) : Spec_(cl)[nm].init})
CanMake(S, fixed, cl, o) == AxesGiven(S, cl, o) /\ \A nm \in Initial(S, cl, o) : CanAdd(Bare(S, cl, o), fixed, cl, nm)
Make(S, fixed, cl, o) ==
  LET c1 == AddAll(Bare(S, cl, o), fixed, cl, Initial(S, cl, o))
      fill == [nm \in DOMAIN c1.ds |-> IF nm \in Copyable(S, cl, o)
                 THEN LET sd == S[DsetsFrom(S, o)].ds[nm] IN [c1.ds[nm] EXCEPT !.A = sd.A, !.known = sd.known]
                 ELSE c1.ds[nm]]
      af == AttrsFrom(S, o)
      wat == [nm \in DOMAIN fill |-> IF af # "" /\ nm \in DOMAIN S[af].ds
                 THEN [fill[nm] EXCEPT !.attrs = S[af].ds[nm].attrs] ELSE fill[nm]]
  IN [c1 EXCEPT !.ds = wat, !.attrs = IF af # "" THEN S[af].attrs ELSE Empty]

(* ---------------------------- redistribution ---------------------------- *)
(* axes to try: [k: "name"/"num", name, i] *)
AxisHit(d, a) == IF a.k = "name" THEN a.name \in Rng(d.axes)
                 ELSE a.i >= -NDim(d.A) /\ a.i < NDim(d.A)
HitPos(d, a) == IF a.k = "name" THEN PosOf(d.axes, a.name) - 1 ELSE NormInt(NDim(d.A), a.i)
Redist(d, axes) ==
  IF ~d.dist THEN d
  ELSE LET ok == {j \in 1..Len(axes) : AxisHit(d, axes[j])} IN
       IF ok = {} THEN d
       ELSE [d EXCEPT !.dax = HitPos(d, axes[CHOOSE j \in ok : \A m \in ok : j <= m])]
ToDist(d, ax) == [d EXCEPT !.dist = TRUE, !.dax = NormInt(NDim(d.A), ax)]
ToCommon(d) == [d EXCEPT !.dist = FALSE, !.dax = -1]

(* ------------------------------ selections ------------------------------ *)
(* sels: axis -> slice or list item *)
SelItems(axes, sels) == [j \in 1..Len(axes) |-> IF axes[j] \in DOMAIN sels THEN sels[axes[j]] ELSE FullSlice]
SelArr(A, axes, sels) == Index(A, SelItems(axes, sels))
SelVals(v, it) == Index([shape |-> <<Len(v)>>, data |-> v], <<it>>).data
(* a container restricted along axes, as its class declares them *)
Selected(c, sp, sels) ==
  [c EXCEPT !.im = [ax \in DOMAIN @ |-> IF ax \in DOMAIN sels
                       THEN [@[ax] EXCEPT !.vals = SelVals(@, sels[ax])] ELSE @[ax]],
            !.ds = [nm \in DOMAIN @ |-> IF nm \in DOMAIN sp
                       THEN [@[nm] EXCEPT !.A = SelArr(@, c.ds[nm].axes, sels)] ELSE @[nm]]]
(* a tree restricted entry by entry, by path: psels: path -> items (missing ones are whole) *)
Padded(items, n) == [j \in 1..n |-> IF j <= Len(items) THEN items[j] ELSE FullSlice]
SelectedPaths(c, psels) ==
  [c EXCEPT !.im = [ax \in DOMAIN @ |-> IF ("index_map/" \o ax) \in DOMAIN psels
                       THEN [@[ax] EXCEPT !.vals = SelVals(@, psels["index_map/" \o ax][1])] ELSE @[ax]],
            !.ds = [nm \in DOMAIN @ |-> IF nm \in DOMAIN psels
                       THEN [@[nm] EXCEPT !.A = Index(@, Padded(psels[nm], NDim(@)))] ELSE @[nm]]]
AnyChunks == <<-1>>      \* chunking as the file format chose it
AsLoaded(c, dist) ==
  [c EXCEPT !.dist = dist, !.chunked = TRUE, !.ispec = Empty,
            !.ds = [nm \in DOMAIN @ |-> [@[nm] EXCEPT !.dist = @ /\ dist, !.dax = IF dist THEN @ ELSE -1,
                                                      !.chunks = AnyChunks, !.comp = "?"]]]

(* chunking and compression as declared, where none is set *)
Chunked(c, sp) == [c EXCEPT !.ds = [nm \in DOMAIN @ |-> IF nm \notin DOMAIN sp THEN @[nm] ELSE
   [@[nm] EXCEPT !.chunks = IF @ = <<>> /\ sp[nm].chunks # <<>>
                            THEN [j \in 1..Len(sp[nm].chunks) |-> Min2(sp[nm].chunks[j], c.ds[nm].A.shape[j])] ELSE @,
                 !.comp = IF @ = "" THEN sp[nm].comp ELSE @]]]

(* copying with a filter: o.axis (set of axes, <<>> = those of sels), o.sels,
   o.excl, o.all *)
IsFull(it) == it.k = "slice" /\ ~it.ha /\ ~it.hb /\ it.s = 1
FilterAxes(o) == IF o.axis = <<>> THEN DOMAIN o.sels ELSE Rng(o.axis)
RealSels(o) == [ax \in {x \in DOMAIN o.sels : ~IsFull(o.sels[x])} |-> o.sels[ax]]
FilterNames(src, o) == {nm \in DOMAIN src.ds :
   /\ Rng(src.ds[nm].axes) \cap Rng(o.excl) = {}
   /\ o.all \/ Rng(src.ds[nm].axes) \cap FilterAxes(o) # {}}
(* a distributed dataset filtered along its distributed axis needs another,
   unfiltered axis to work along *)
FilterStuck(src, o) == \E nm \in FilterNames(src, o) :
   LET d == src.ds[nm] IN d.dist /\ d.axes[d.dax + 1] \in DOMAIN RealSels(o) /\ Rng(d.axes) \subseteq (FilterAxes(o) \cup DOMAIN RealSels(o))
FilterBad(src, dst, fixed, cl, o) ==
   \/ ~(FilterAxes(o) \subseteq DOMAIN o.sels)
   \/ FilterStuck(src, o)
   \/ \E nm \in FilterNames(src, o) : nm \notin DOMAIN dst.ds /\ ~CanAdd(dst, fixed, cl, nm)
   \/ \E nm \in FilterNames(src, o) : LET n2 == IF nm \in DOMAIN dst.ds THEN dst.ds[nm] ELSE NewDset(dst, fixed, SpecOf(dst, cl)[nm]) IN
         src.ds[nm].dist /\ ~n2.dist
Filter(src, dst, fixed, cl, o) ==
  LET names == FilterNames(src, o)
      d1 == AddAll(dst, fixed, cl, names \ DOMAIN dst.ds)
  IN [d1 EXCEPT !.ds = [nm \in DOMAIN @ |-> IF nm \in names
        THEN [@[nm] EXCEPT !.A = SelArr(src.ds[nm].A, src.ds[nm].axes, RealSels(o)), !.known = src.ds[nm].known,
                           !.dax = IF src.ds[nm].dist THEN src.ds[nm].dax ELSE @,
                           !.attrs = src.ds[nm].attrs @@ @]
        ELSE @[nm]]]

(* ------------------------------- programs ------------------------------- *)
(* one operation: new state, or an error leaving it alone *)
Ok(S) == [S |-> S, err |-> FALSE]
Err(S) == [S |-> S, err |-> TRUE]
Cls(Q, nm) == Q.classes[nm]
Refs(o) == IF o.op = "make" THEN {o.axesfrom, o.attrsfrom, o.dsetsfrom, o.copyfrom} \ {""}
           ELSE (IF o.op \in {"like", "load", "paths"} THEN {} ELSE {o.c}) \cup (IF "src" \in DOMAIN o THEN {o.src} ELSE {})
Step(Q, S, o) ==
  IF ~(Refs(o) \subseteq DOMAIN S) THEN Err(IF o.op = "make" THEN Without(S, {o.c}) ELSE S) ELSE
  LET c == IF o.c \in DOMAIN S THEN S[o.c] ELSE Empty
  IN
  CASE o.op = "make" -> IF CanMake(S, Q.fixed, Cls(Q, o.cls), o) THEN Ok(Put(S, o.c, Make(S, Q.fixed, Cls(Q, o.cls), o)))
                        ELSE Err(Without(S, {o.c}))
    [] o.op = "like" ->       \* empty_like(src, **kw)
         LET o2 == [o EXCEPT !.op = "make"] @@ [cls |-> S[o.src].cls, axesfrom |-> o.src, attrsfrom |-> o.src,
                                                dsetsfrom |-> "", copyfrom |-> "", skip |-> FALSE, chunked |-> TRUE]
         IN IF CanMake(S, Q.fixed, Cls(Q, S[o.src].cls), o2) THEN Ok(Put(S, o.c, Make(S, Q.fixed, Cls(Q, S[o.src].cls), o2)))
            ELSE Err(Without(S, {o.c}))
    [] o.op = "add" -> IF CanAdd(c, Q.fixed, Cls(Q, c.cls), o.ds)
                       THEN Ok(Put(S, o.c, AddDset(c, Q.fixed, Cls(Q, c.cls), o.ds))) ELSE Err(S)
    [] o.op = "write" -> IF o.ds \notin DOMAIN c.ds THEN Err(S) ELSE
         Ok(Put(S, o.c, [c EXCEPT !.ds[o.ds].A.data = [j \in 1..Size(c.ds[o.ds].A.shape) |-> o.base + j],
                                  !.ds[o.ds].known = TRUE]))
    [] o.op = "attr" -> IF o.at = "root" THEN Ok(Put(S, o.c, [c EXCEPT !.attrs = Put(@, o.key, o.val)]))
         ELSE IF o.at = "axis" THEN (IF o.on \in DOMAIN c.im
                  THEN Ok(Put(S, o.c, [c EXCEPT !.im[o.on].attrs = Put(@, o.key, o.val)])) ELSE Err(S))
         ELSE (IF o.on \in DOMAIN c.ds
                  THEN Ok(Put(S, o.c, [c EXCEPT !.ds[o.on].attrs = Put(@, o.key, o.val)])) ELSE Err(S))
    [] o.op = "hist" -> IF o.name = "order" THEN Err(S)
         ELSE Ok(Put(S, o.c, [c EXCEPT !.hist = Append([j \in 1..Len(@) |->      \* a name used again takes the new value
                   IF @[j].name = o.name THEN [@[j] EXCEPT !.val = o.val] ELSE @[j]], [name |-> o.name, val |-> o.val])]))
    [] o.op = "redist" -> Ok(Put(S, o.c, [c EXCEPT !.ds = [nm \in DOMAIN @ |-> Redist(@[nm], o.axes)]]))
    [] o.op = "todist" -> IF o.ds \notin DOMAIN c.ds THEN Err(S)
         ELSE IF ~c.dist THEN Err(S) ELSE Ok(Put(S, o.c, [c EXCEPT !.ds[o.ds] = ToDist(@, o.ax)]))
    [] o.op = "tocommon" -> IF o.ds \notin DOMAIN c.ds THEN Err(S)
         ELSE Ok(Put(S, o.c, [c EXCEPT !.ds[o.ds] = ToCommon(@)]))
    [] o.op = "load" ->
         LET cl == Cls(Q, S[o.src].cls)  src == S[o.src] IN
         IF ~(DOMAIN o.sels \subseteq Axes_(cl)) THEN Err(Without(S, {o.c}))
         ELSE Ok(Put(S, o.c, AsLoaded(Selected(src, Spec_(cl), o.sels), o.dist)))
    [] o.op = "paths" -> Ok(Put(S, o.c, AsLoaded(SelectedPaths(S[o.src], o.psels), o.dist)))
    [] o.op = "filter" ->
         LET src == S[o.src] cl == Cls(Q, c.cls) IN
         IF FilterBad(src, c, Q.fixed, cl, o) THEN Err(Without(S, {o.c}))
         ELSE Ok(Put(S, o.c, Filter(src, c, Q.fixed, cl, o)))
    [] o.op = "chunk" -> Ok(Put(S, o.c, Chunked(c, SpecOf(c, Cls(Q, c.cls)))))
    [] o.op = "hint" -> Ok(S)      \* the mark that saving leaves on a container
    [] o.op = "ispec" -> Ok(Put(S, o.c, [c EXCEPT !.ispec = Put(@, o.ds, o.spec)]))
    [] OTHER -> Err(S)

(* ----------------------------- observations ----------------------------- *)
RankView(d, p, r) ==
  IF ~d.dist THEN [t |-> "nd", axis |-> -1, gshape |-> <<>>, start |-> 0, shape |-> d.A.shape,
                   data |-> IF d.known THEN d.A.data ELSE <<>>]
  ELSE LET B == Part(d.A, d.dax, p, r) IN
       [t |-> "dist", axis |-> d.dax, gshape |-> d.A.shape, start |-> SplitStart(d.A.shape[d.dax+1], p, r),
        shape |-> B.shape, data |-> IF d.known THEN B.data ELSE <<>>]
ViewDs(d, p) == [axes |-> d.axes, known |-> d.known, dt |-> d.dt, attrs |-> d.attrs, chunks |-> d.chunks, comp |-> d.comp,
                 ranks |-> [r \in 1..p |-> RankView(d, p, r - 1)]]
View(c, p) == [cls |-> c.cls, dist |-> c.dist, attrs |-> c.attrs, hist |-> c.hist, im |-> c.im,
               ds |-> [nm \in DOMAIN c.ds |-> ViewDs(c.ds[nm], p)]]
Touched(S, o) == {x \in {o.c} \cup (IF "src" \in DOMAIN o THEN {o.src} ELSE {}) : x \in DOMAIN S}
RECURSIVE RunFrom(_, _, _, _)
RunFrom(Q, S, j, acc) ==
  IF j > Len(Q.prog) THEN [steps |-> acc, end |-> [x \in DOMAIN S |-> View(S[x], Q.p)]]
  ELSE LET r == Step(Q, S, Q.prog[j]) IN
       RunFrom(Q, r.S, j + 1,
               Append(acc, [err |-> r.err, obs |-> [x \in Touched(r.S, Q.prog[j]) |-> View(r.S[x], Q.p)]]))
RunContainers(Q) == RunFrom(Q, Empty, 1, <<>>)
=============================================================================
