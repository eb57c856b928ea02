---------------------------- MODULE ReadersTrace ----------------------------
(***************************************************************************)
(* Recorded reads of a tracker that is being changed, one run per line.     *)
(* Header: A, B  the values of every readable field after each change of    *)
(* the two parts, in order (numbers standing for values).                   *)
(* Events: wB, wE (w: writer), rB, rE (c: reader, f: field, v: value, -1    *)
(* where the field has nothing of that part), hold (what was read earlier   *)
(* is looked at again), end.                                                *)
(***************************************************************************)
EXTENDS Readers, TLC, Json, IOUtils

CONSTANTS Prop, Show
Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, r
vars == <<tid, l, r>>

H == Traces[tid]
Ev == H.steps[l + 1]
More == l < Len(H.steps)
Read == l' = l + 1 /\ tid' = tid

Init == tid \in 1..Len(Traces) /\ l = 1 /\ r = R0

Matches(p) == /\ Ev.v[1] = -1 \/ H.A[p[1]][Ev.f] = Ev.v[1]
              /\ Ev.v[2] = -1 \/ H.B[p[2]][Ev.f] = Ev.v[2]
Explained == \E p \in Seen(r, Ev.c) : Matches(p)

Next ==
    \/ /\ More /\ Ev.op = "wB" /\ r' = WriteBegin(r, Ev.w) /\ Read
    \/ /\ More /\ Ev.op = "wE" /\ Ev.w \notin r.open /\ r' = r /\ Read
    \/ /\ More /\ Ev.op = "rB" /\ r' = ReadBegin(r, Ev.c) /\ Read
    \/ /\ More /\ Ev.op = "rE" /\ Explained /\ r' = ReadEnd(r, Ev.c) /\ Read
    \/ /\ More /\ Ev.op \in {"rE", "wE"} /\ l' = l /\ tid' = tid
       /\ (IF Ev.op = "rE" THEN ~Explained ELSE Ev.w \in r.open)
       /\ \E w \in r.open : r' = Effect(r, w)
    \/ /\ More /\ Ev.op = "hold" /\ Ev.same = 1 /\ r' = r /\ Read
    \/ /\ More /\ Ev.op = "sane" /\ r' = r /\ Read
       (* at rest, after any concurrent use: the tracker is whole *)
       /\ Ev.bad = 0
       /\ Ev.nr = Len(Ev.rl) /\ (\A i, j \in 1..Ev.nr : i # j => Ev.rl[i][1] # Ev.rl[j][1])
       /\ (\A i, j \in 1..Len(Ev.sl) : i # j => Ev.sl[i] # Ev.sl[j])
       /\ Ev.cd >= Ev.rd - 2 /\ Ev.rd >= Ev.td - 2 /\ Ev.td >= Ev.sd - 2 /\ Ev.sd >= 0
       /\ Ev.nr > 0 => (Ev.p[1] \in 0..Ev.nr - 1 /\ (Ev.nt > 0 => Ev.p[2] \in 0..Ev.nt - 1 /\ Ev.p[3] \in 0..Ev.nk - 1))
       /\ Ev.ticked = 1
    \/ /\ More /\ Ev.op = "end" /\ r' = r /\ Read

Spec == Init /\ [][Next]_vars
Done == (l = Len(H.steps)) => PrintT(<<"DONE", tid>>)
How == Show => PrintT(<<"AT", tid, l>>)
=============================================================================
