----------------------------- MODULE ImportTrace -----------------------------
(* What the real decoders made of the documents of ImportMC. *)
EXTENDS Import, TLC, Json, IOUtils

CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, ok
vars == <<tid, l, ok>>
T == Traces[tid]

Closed(q) == Len(q) >= 3 /\ q[1] = q[Len(q)]
Seen(o, e) ==
    /\ (e.r = 1) = o.ok
    /\ e.r = 0 => e.routes = <<>>
    /\ o.ok => /\ Len(e.routes) = Len(o.routes)
               /\ \A i \in 1..Len(o.routes) :
                    /\ e.routes[i].p = (IF o.routes[i].p \in {0, 1} /\ e.op = "geo" THEN -1 ELSE o.routes[i].p)   \* none, or empty
                    /\ e.routes[i].t = o.routes[i].t
                    /\ \A j \in 1..Len(o.routes[i].t) : (e.routes[i].cl[j] = 1) = Closed(o.routes[i].t[j])
               /\ e.fresh = 1       \* identifiers given and all different

Init == tid \in 1..Len(Traces) /\ l = 0 /\ ok = TRUE
Next == /\ ok /\ l < Len(T.steps) /\ l' = l + 1 /\ tid' = tid
        /\ LET e == T.steps[l + 1] IN
           ok' = ((/\ e.op \in {"geo", "gpx"}
                   /\ Seen(IF e.op = "geo" THEN GeoJson(e.d) ELSE Gpx(e.d), e)) = TRUE)
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
