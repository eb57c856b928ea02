----------------------------- MODULE PropsTrace -----------------------------
(***************************************************************************)
(* Recorded operations on real property maps against Props: every result,   *)
(* and after every operation what every typed read of every key gives.      *)
(***************************************************************************)
EXTENDS Props, TLC, Json, IOUtils

CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, M, ok
vars == <<tid, l, M, ok>>
T == Traces[tid]

(* o[m][k] lists the answers of the four readers; n[m] is the number of entries. *)
Seen(S, e) == /\ \A m \in 1..2 : \A k \in 1..T.nk : \A t \in 1..4 : e.o[m][k][t] = Get(S[m], k, Readers[t])
              /\ \A m \in 1..2 : e.n[m] = Size(S[m])

Init == tid \in 1..Len(Traces) /\ l = 0 /\ M = [m \in 1..2 |-> Empty(1..Traces[tid].nk)] /\ ok = TRUE
Next == /\ ok /\ l < Len(T.steps) /\ l' = l + 1 /\ tid' = tid
        /\ LET e == T.steps[l + 1] IN
           IF e.op \in {"crash", "hang"} THEN ok' = FALSE /\ M' = M
           ELSE \E r \in {Do(M, e.op, e.a)} : M' = r[1] /\ ok' = ((e.r = r[2] /\ Seen(r[1], e)) = TRUE)
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
