------------------------------- MODULE ZarrZip -------------------------------
(***************************************************************************)
(* Zipping zarr directories.  What is on disk for one container:           *)
(*   dir : its directory is there                                          *)
(*   zip : "none", "old" (from before), "part" (begun) or "full"           *)
(* Ranks live on hosts; one rank of each host works.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Hosts(h) == {h[r] : r \in 1..Len(h)}
Leads(h, r) == \A q \in 1..Len(h) : h[q] = h[r] => r <= q
Place(h, r) == Cardinality({x \in Hosts(h) : x < h[r]})
(* every so many of the list, for a rank that works *)
Share(n, h, r) == IF ~Leads(h, r) THEN <<>> ELSE SelectSeq([k \in 1..n |-> k], LAMBDA k : (k - 1) % Cardinality(Hosts(h)) = Place(h, r))
Worker(k, h) == CHOOSE r \in 1..Len(h) : Leads(h, r) /\ Place(h, r) = (k - 1) % Cardinality(Hosts(h))
(* one container *)
Begin(d) == [d EXCEPT !.zip = "none"]
Zipped(d, fate, remove) == CASE fate = "ok" -> [dir |-> ~remove, zip |-> "full"]
                             [] fate = "part" -> [d EXCEPT !.zip = "part"]
                             [] OTHER -> [d EXCEPT !.zip = "none"]
Lost(d) == ~d.dir /\ d.zip # "full"
(* the task that zips a list: Q.list of [ok (is a zarr directory), fate], on one rank it stops at the first failure *)
RECURSIVE ZipAll(_, _, _)
ZipAll(Q, k, disk) ==
  IF k > Len(Q.list) THEN [err |-> FALSE, disk |-> disk]
  ELSE IF ~Q.list[k].ok THEN [err |-> TRUE, disk |-> disk]
  ELSE LET d == [disk EXCEPT ![k] = Zipped(Begin(disk[k]), Q.list[k].fate, Q.remove)] IN
       IF Q.list[k].fate # "ok" THEN [err |-> TRUE, disk |-> d] ELSE ZipAll(Q, k + 1, d)
Disk0(Q) == [k \in 1..Len(Q.list) |-> [dir |-> Q.list[k].ok, zip |-> IF Q.list[k].old THEN "old" ELSE "none"]]
(* the task that saves and zips its inputs, with one that waits for all *)
SaveAll(Q) == [k \in 1..Len(Q.list) |-> Zipped(Begin([dir |-> TRUE, zip |-> "none"]), Q.list[k].fate, Q.remove)]
TagText(Q, k) == IF Q.list[k].tag = "" THEN ToString(k - 1) ELSE Q.list[k].tag
NameOf(Q, k) == Q.pre \o TagText(Q, k) \o (IF Q.num THEN "_" \o ToString(k - 1) ELSE "") \o ".zarr"
RunZip(Q) ==
  IF Q.mode = "zip" THEN LET r == ZipAll(Q, 1, Disk0(Q)) IN [err |-> r.err, disk |-> r.disk, names |-> [k \in 1..Len(Q.list) |-> Q.list[k].name]]
  ELSE [err |-> \E k \in 1..Len(Q.list) : Q.list[k].fate # "ok", disk |-> SaveAll(Q), names |-> [k \in 1..Len(Q.list) |-> NameOf(Q, k)]]
(* who ran the jobs: each exactly once, one rank of each host *)
JobsOK(Q) == LET J == Q.jobs IN
  /\ \A k \in 1..Q.n : Cardinality({j \in 1..Len(J) : J[j].k = k}) = 1
  /\ \A i, j \in 1..Len(J) : Q.hosts[J[i].r] = Q.hosts[J[j].r] => J[i].r = J[j].r
=============================================================================
