------------------------------ MODULE LockFile ------------------------------
(***************************************************************************)
(* Publishing a file under a lock.  The writer enters (creates the lock),  *)
(* the block writes a temporary object in N pieces, and leaving publishes  *)
(* it under the final name in one step and removes the lock.  The block    *)
(* may raise, and the process may be killed, at any point.                 *)
(*   final : "none" "old" "new"     (new = all pieces)                     *)
(*   tmp   : -1 absent, else the number of pieces written                  *)
(*   lock  : BOOLEAN                                                       *)
(*   ph    : "before" "in" "leaving" "after" "dead"                        *)
(* Judge applies the same requirements to a recorded run of the real code. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* one observation: what must hold of the directory at any moment *)
SnapOK(fin, tm, lk, phase, wasold, rsd, writer) ==
  /\ fin \in {wasold, "new"}                              \* never partial, never lost
  /\ phase \in {"before", "in"} => fin = wasold           \* not before the block ended
  /\ (rsd \/ ~writer) => fin = wasold                     \* never after a failure
  /\ (phase = "in" /\ writer) => lk
  /\ (phase = "leaving" /\ writer /\ ~rsd) => (lk \/ fin = "new")   \* locked until published
(* the end of a run *)
EndState(fin, tm, lk, wasold, rsd, preserve, hadtmp) ==
  IF rsd THEN fin = wasold /\ ~lk /\ (preserve => tm = hadtmp) /\ (~preserve => ~tm)
  ELSE fin = "new" /\ ~lk /\ ~tm

(* Q: [old, writer, preserve, raises, replaceable, snaps, end, exc, killed]; a snapshot is     *)
(* [final, tmp, lock, phase, raised]; killed runs have no end to check                          *)
Bad(Q) ==
  LET S(j) == Q.snaps[j]
      w == IF Q.writer THEN {} ELSE {"a rank other than 0 touched the directory" :
               j \in {k \in 1..Len(Q.snaps) : S(k).lock # Q.oldlock \/ S(k).final # Q.old}}
      a == {"the final name did not refer to whole content, or changed early" :
               j \in {k \in 1..Len(Q.snaps) : ~SnapOK(S(k).final, S(k).tmp, S(k).lock \/ ~Q.writer, S(k).phase, Q.old, S(k).raised, Q.writer)}}
      e == IF Q.killed THEN {}
           ELSE (IF Q.raises # (Q.exc = "planned") /\ Q.replaceable THEN {"wrong exception out of the block: " \o Q.exc} ELSE {})
                \cup (IF ~Q.writer \/ ~Q.replaceable \/ EndState(Q.end.final, Q.end.tmp, Q.end.lock, Q.old, Q.raises, Q.preserve, Q.hadtmp)
                      THEN {} ELSE {"wrong files after the block"})
  IN w \cup a \cup e
JudgeRun(Q) == [bad |-> Bad(Q)]
=============================================================================
