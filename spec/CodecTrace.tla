----------------------------- MODULE CodecTrace -----------------------------
(***************************************************************************)
(* Recorded edits and encodings of real routes, and of real sensors,        *)
(* against Codec.                                                           *)
(***************************************************************************)
EXTENDS Codec, TLC, Json, IOUtils

CONSTANTS Prop, Findings
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st, ok
vars == <<tid, l, st, ok>>
T == Traces[tid]
Abs(x) == IF x < 0 THEN -x ELSE x

(* Residues are in micrometres, of lengths computed from the table of points. *)
Loose(n) == 30 * n   \* 1e-10 degrees are 11 micrometres
SeenT(t, o) ==
    /\ o.id = t.id /\ o.name = t.name /\ o.col = t.col /\ o.p = t.p
    /\ o.pts = Shape[t.shape]
    /\ (t.ex => o.ex = 1)
    /\ (o.closed = 1) = Closed(o.pts)
    /\ o.num = Len(o.pts) - 1
    /\ Abs(o.dd) <= 1000 + Loose(Len(o.pts))
    /\ \A i \in 1..Len(o.sd) : Abs(o.sd[i]) <= 1000 + Loose(2)
SeenR(r, o) ==
    /\ o.id = r.id /\ o.name = r.name /\ o.col = r.col /\ o.p = r.p
    /\ Len(o.t) = Len(r.t)
    /\ \A j \in 1..Len(r.t) : SeenT(r.t[j], o.t[j])
    /\ Abs(o.dd) <= 1 + (IF \A j \in 1..Len(r.t) : r.t[j].ex THEN 0 ELSE 1000)
Seen(s, o) == Len(o) = Len(s.doc) /\ \A i \in 1..Len(o) : SeenR(s.doc[i], o[i])

(* Sensors: q are the settings of each, s what came back. *)
Sens(e) == /\ (e.r = 1) = (e.q # <<>>)
           /\ e.r = 1 => Len(e.s) = Len(e.q) /\ \A i \in 1..Len(e.s) : e.s[i] = 1 \* identical in every respect
           /\ e.r = 0 => e.s = <<>>

Init == tid \in 1..Len(Traces) /\ l = 0 /\ st = Empty /\ ok = TRUE
Next == /\ ok /\ l < Len(T.steps) /\ l' = l + 1 /\ tid' = tid
        /\ LET e == T.steps[l + 1] IN
           IF e.op \in {"crash", "hang"} THEN ok' = FALSE /\ st' = st
           ELSE IF e.op = "sens" THEN ok' = (Sens(e) = TRUE) /\ st' = st
           ELSE IF e.op = "nil" THEN ok' = (e.r = 0) /\ st' = st     \* encoding nothing is an error
           ELSE IF e.op = "tens" THEN ok' = (e.r = 1 \/ (e.a[1] = Gpx /\ e.a[2] # 1 /\ "tens" \in Findings)) /\ st' = st
           ELSE \E r \in {Do(st, e.op, e.a)} :
                   st' = r.s /\ ok' = ((e.r = r.r /\ Seen(r.s, e.o)) = TRUE)
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
