---------------------------- MODULE RegistryTrace ----------------------------
(***************************************************************************)
(* Histories of calls on real generators, one per line: call and return     *)
(* events of several callers.  A history conforms when every call takes     *)
(* effect at one instant between its call and its return (TLC looks for     *)
(* such instants); then its number is printed.                              *)
(***************************************************************************)
EXTENDS Registry, TLC, Json, IOUtils

CONSTANTS Prop, Show
Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, st,
          pend   \* calls under way that have not taken effect
          , eff  \* those that have, with their results
vars == <<tid, l, st, pend, eff>>

H == Traces[tid]
Ev == H.steps[l + 1]
More == l < Len(H.steps)
Read == l' = l + 1 /\ tid' = tid

Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ pend = {} /\ eff = {}
        /\ st = [att |-> [g \in 1..Traces[tid].ng |-> <<>>], id |-> [x \in 1..Traces[tid].nx |-> x - 1]]

Call == /\ More /\ Ev.op = "call" /\ Read
        /\ pend' = pend \cup {<<Ev.c, Ev.n, Ev.g, Ev.x>>} /\ UNCHANGED <<st, eff>>
(* Effects are put off to the next return. *)
Effect == /\ More /\ Ev.op = "ret" /\ \A e \in eff : e[1] # Ev.c
          /\ \E c \in pend : \E r \in {Do(st, c[2], c[3], c[4])} :
                /\ st' = r[1] /\ eff' = eff \cup {<<c[1], r[2]>>} /\ pend' = pend \ {c}
          /\ l' = l /\ tid' = tid
Return == /\ More /\ Ev.op = "ret" /\ Read /\ <<Ev.c, Ev.v>> \in eff
          /\ eff' = eff \ {<<Ev.c, Ev.v>>} /\ UNCHANGED <<st, pend>>
Next == Call \/ Effect \/ Return
Spec == Init /\ [][Next]_vars

Done == (l = Len(H.steps)) => PrintT(<<"DONE", tid>>)
How == Show => PrintT(<<"AT", tid, l>>)
=============================================================================
