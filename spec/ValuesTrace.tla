----------------------------- MODULE ValuesTrace -----------------------------
(***************************************************************************)
(* Recorded uses of real speeds, sensors, elevations and curves, and of     *)
(* trackers, against Values.                                                *)
(***************************************************************************)
EXTENDS Values, TLC, Json, IOUtils

CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, gs, ok
vars == <<tid, l, gs, ok>>
T == Traces[tid]

First(t) == <<[Make(t.start = 1, t.end = 1, t.flat = 1, t.np) EXCEPT !.last = t.last]>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ gs = First(Traces[tid]) /\ ok = TRUE
Good(s) == \A i \in 1..Len(s) : s[i] >= -Tol /\ s[i] <= Top + Tol
Step(e) ==
    CASE e.op = "q" ->   /\ ok' = (Gives(gs[e.a[1]], e.a[2], e.v) = TRUE)
                         /\ gs' = [gs EXCEPT ![e.a[1]] = Asked(@, e.a[2], e.v)]
      [] e.op = "sh" ->  ok' = TRUE /\ gs' = [gs EXCEPT ![e.a[1]] = Shuffled(@)]
      [] e.op = "val" -> ok' = (e.v[1] = gs[e.a[1]].last) /\ gs' = gs
      [] e.op = "fork" -> ok' = TRUE /\ gs' = Append(gs, gs[e.a[1]])
      (* a tick of a tracker: its speed, and, when it moved, its elevation and sensors *)
      [] e.op = "tick" -> ok' = ((Good(e.spd) /\ Good(e.more)) = TRUE) /\ gs' = gs
      [] e.op = "spread" ->
            /\ ok' = ((\A p \in 1..2 : Spread(e.start = 1, e.end = 1, p, e.n, e.s[p]) /\ Spread(e.start = 1, e.end = 1, p, e.n, e.t[p])) = TRUE)
            /\ gs' = gs
      [] e.op = "offline" -> ok' = (Drawn(e.a[1], e.a[2], e.q) = TRUE) /\ gs' = gs
      [] OTHER -> ok' = FALSE /\ gs' = gs
Next == ok /\ l < Len(T.steps) /\ l' = l + 1 /\ tid' = tid /\ Step(T.steps[l + 1])
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
