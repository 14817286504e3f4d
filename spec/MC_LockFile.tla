---------------------------- MODULE MC_LockFile ----------------------------
(* The state machine whose every behaviour must satisfy the requirements of LockFile. *)
EXTENDS LockFile
CONSTANTS N, Preserve
VARIABLES final, tmp, lock, ph, raised, old, done
vars == <<final, tmp, lock, ph, raised, old, done>>
Init == /\ final \in {"none", "old"} /\ old = final /\ tmp \in {-1, 0} /\ lock = FALSE
        /\ ph = "before" /\ raised = FALSE /\ done = FALSE
Enter == ph = "before" /\ ph' = "in" /\ lock' = TRUE /\ UNCHANGED <<final, tmp, raised, old, done>>
Write == ph = "in" /\ tmp < N /\ tmp' = tmp + 1 /\ UNCHANGED <<final, lock, ph, raised, old, done>>
EndOK == ph = "in" /\ tmp = N /\ ph' = "leaving" /\ UNCHANGED <<final, tmp, lock, raised, old, done>>
Raise == ph = "in" /\ ph' = "leaving" /\ raised' = TRUE /\ UNCHANGED <<final, tmp, lock, old, done>>
Publish == ph = "leaving" /\ ~raised /\ ~done /\ final' = "new" /\ tmp' = -1 /\ done' = TRUE
           /\ UNCHANGED <<lock, ph, raised, old>>
Discard == ph = "leaving" /\ raised /\ ~done /\ tmp' = (IF Preserve THEN tmp ELSE -1) /\ done' = TRUE
           /\ UNCHANGED <<final, lock, ph, raised, old>>
Unlock == ph = "leaving" /\ done /\ lock /\ lock' = FALSE /\ ph' = "after" /\ UNCHANGED <<final, tmp, raised, old, done>>
Crash == ph \in {"in", "leaving"} /\ ph' = "dead" /\ UNCHANGED <<final, tmp, lock, raised, old, done>>
Next == Enter \/ Write \/ EndOK \/ Raise \/ Publish \/ Discard \/ Unlock \/ Crash
Spec == Init /\ [][Next]_vars

Whole == SnapOK(final, tmp >= 0, lock, ph, old, raised, TRUE)
AtEnd == ph = "after" => EndState(final, tmp >= 0, lock, old, raised, Preserve, tmp >= 0)

=============================================================================
