---- MODULE MC_SaveLoad ----
(* All short histories of saving, loading and changing a small tree: what is loaded is the
   canonical form of what was saved, a second trip changes nothing, and objects and files
   never share state.                                                                  *)
EXTENDS SaveLoad, TLC

Values == { [t |-> "npint", v |-> "1"], [t |-> "bytes", v |-> "t1"], [t |-> "none", v |-> ""],
            [t |-> "seq", v |-> <<[t |-> "time", v |-> "x"]>>, src |-> "list"],
            [t |-> "dict", v |-> << <<"k", [t |-> "npstr", v |-> "t2"]>>, <<"l", [t |-> "complex", v |-> "1j"]>> >>] }
Types == { [k |-> "<f8"], [k |-> "U", n |-> 3], [k |-> "S", n |-> 3],
           [k |-> "struct", f |-> <<[n |-> "a", d |-> [k |-> "U", n |-> 2], sub |-> <<2>>], [n |-> "b", d |-> [k |-> "<i4"], sub |-> <<>>]>>] }

TreeOf(c, v, d, na) ==
  [cls |-> c, hint |-> "", hist |-> <<>>,
   nodes |-> << [path |-> "/", kind |-> "g", attrs |-> << <<"a", v>> >>],
                [path |-> "/d", kind |-> "d", attrs |-> <<>>, dt |-> d, vals |-> <<"x", "y">>, na |-> na, comp |-> ""] >>]

VARIABLES mem, file, last, n
vars == <<mem, file, last, n>>

Init == /\ \E c \in {"MemGroup", "MemDiskGroup", "ProtoA"}, v \in Values, d \in Types, na \in BOOLEAN :
              mem = <<TreeOf(c, v, d, na /\ d.k = "U"), None>>
        /\ file = <<None>> /\ n = 0
        /\ last = [op |-> "none", src |-> None, cd |-> FALSE, rd |-> FALSE, pre |-> None]

Opt(b) == IF b THEN "yes" ELSE "no"

Tick == n < 4 /\ n' = n + 1

DoSave(m) == \E fmt \in {"h5", "zarr"}, cd \in BOOLEAN :
  /\ Tick
  /\ mem[m] # None
  /\ LET s == SaveOp([mem |-> mem, file |-> file, out |-> ""],
                     [m |-> m, f |-> 1, fmt |-> fmt, ca |-> TRUE, cd |-> Opt(cd)])
     IN mem' = s.mem /\ file' = s.file
        /\ last' = [op |-> "save", src |-> mem[m], cd |-> cd, rd |-> FALSE, pre |-> None]

DoLoad == \E cls \in {"MemGroup", "MemDiskGroup"}, detect \in BOOLEAN, cd \in BOOLEAN :
  /\ Tick
  /\ file[1] # None
  /\ LET s == LoadOp([mem |-> mem, file |-> file, out |-> ""],
                     [m |-> 2, f |-> 1, cls |-> cls, detect |-> detect, cd |-> Opt(cd), via |-> "load"])
     IN mem' = s.mem /\ UNCHANGED file
        /\ last' = [op |-> "load", src |-> file[1], cd |-> last.cd, rd |-> cd,
                    pre |-> IF last.op = "save" THEN last.src ELSE None]

DoPoke(m) == /\ Tick
             /\ mem[m] # None
             /\ mem' = [mem EXCEPT ![m] = SetData(@, "/d", 1, "z")]
             /\ UNCHANGED file /\ last' = [last EXCEPT !.op = "poke", !.pre = file[1]]

Next == (\E m \in 1..2 : DoSave(m)) \/ (\E m \in 1..2 : DoPoke(m)) \/ DoLoad
Spec == Init /\ [][Next]_vars

\* Saving a byte-string free tree with conversion and loading with conversion is the identity up to Canon
Same(a, b) == /\ \A i \in DOMAIN a.nodes : /\ b.nodes[i].path = a.nodes[i].path
                                           /\ b.nodes[i].attrs = CanonAttrs(a.nodes[i].attrs)
                                           /\ a.nodes[i].kind = "d" => b.nodes[i].vals = a.nodes[i].vals
RoundTrip ==
  last.op = "load" /\ last.pre # None =>
    /\ Same(last.pre, mem[2])
    /\ LET d == last.pre.nodes[2].dt e == mem[2].nodes[2].dt
       IN  /\ HasKind(d, "U") /\ last.cd /\ last.rd /\ ~HasKind(d, "S") => d = e
           /\ ~HasKind(d, "U") /\ ~last.rd => d = e
           /\ last.rd => ~HasKind(e, "S")
    /\ ~Bare(last.pre.cls) => mem[2].hint = IF last.pre.hint = "" THEN last.pre.cls ELSE last.pre.hint
\* a file holds canonical values: another trip changes nothing
SecondTrip == file[1] # None => Stored(file[1], TRUE) = file[1] \/ HasKind(file[1].nodes[2].dt, "U")
\* changing an object leaves files (and saving or loading leaves other objects) alone
Independent == /\ last.op = "poke" => file[1] = last.pre
               /\ file[1] # None => ~(last.op = "save" /\ Refused(Hinted(last.src), "h5", TRUE, last.cd)
                                       /\ Refused(Hinted(last.src), "zarr", TRUE, last.cd))
====
