----------------------------- MODULE MissedTrace -----------------------------
(***************************************************************************)
(* Recorded storms of ticks on real trackers: how many were given at once,  *)
(* how many of them were missed, and the elapsed time afterwards; then a    *)
(* tick nobody disturbs.                                                    *)
(***************************************************************************)
EXTENDS Missed, Sequences, TLC, Json, IOUtils

CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, m, ok
vars == <<tid, l, m, ok>>

(* storm: a = <<ticks, missed, length>>; tick: a = <<length>> (dur and the length that was applied
   are reported); restore: a = <<elapsed time of the snapshot>> *)
After(e) ==
    CASE e.op = "storm" -> Ends(m, e.a[1], e.a[2], e.a[3], e.dur)
      [] e.op = "tick" -> LET n == Applied(m, e.a[1]) IN IF e.r = 1 /\ n.dur = e.dur /\ e.tick = m.pend + e.a[1] THEN {n} ELSE {}
      [] e.op = "restore" -> LET n == Restored(m, e.a[1]) IN IF n.dur = e.dur THEN {n} ELSE {}
      [] OTHER -> {}

Init == tid \in 1..Len(Traces) /\ l = 0 /\ m = M0 /\ ok = TRUE
Next == /\ ok /\ l < Len(Traces[tid].steps) /\ l' = l + 1 /\ tid' = tid
        /\ \E S \in {After(Traces[tid].steps[l + 1])} : IF S = {} THEN ok' = FALSE /\ m' = m ELSE ok' = TRUE /\ m' \in S
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
