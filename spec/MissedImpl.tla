----------------------------- MODULE MissedImpl -----------------------------
(***************************************************************************)
(* How ticks, other users and the lock of a tracker work together: a tick   *)
(* that does not get the lock adds itself to a counter, and a tick that     *)
(* does takes the counter and empties it at once.  What they do is what     *)
(* Missed allows, and no time gets lost or counts twice.                    *)
(***************************************************************************)
EXTENDS Missed, FiniteSets

CONSTANTS Procs,     \* tickers
          Users,     \* other users of the tracker, who hold the lock
          Lens,      \* lengths of ticks
          MaxTicks   \* ticks given by each

VARIABLES lock,    \* holder, or "no"
          cnt,     \* the counter
          dur,
          pc, t, got, left, given
vars == <<lock, cnt, dur, pc, t, got, left, given>>

All == Procs \cup Users
Init == /\ lock = "no" /\ cnt = 0 /\ dur = 0 /\ pc = [p \in All |-> "idle"]
        /\ t = [p \in Procs |-> 0] /\ got = [p \in Procs |-> 0] /\ left = [p \in Procs |-> MaxTicks] /\ given = 0

Begin(p) == /\ pc[p] = "idle" /\ left[p] > 0 /\ \E x \in Lens : t' = [t EXCEPT ![p] = x]
            /\ left' = [left EXCEPT ![p] = @ - 1] /\ pc' = [pc EXCEPT ![p] = "try"]
            /\ UNCHANGED <<lock, cnt, dur, got, given>>
Try(p) == /\ pc[p] = "try"
          /\ IF lock = "no" THEN lock' = p /\ pc' = [pc EXCEPT ![p] = "in"] ELSE lock' = lock /\ pc' = [pc EXCEPT ![p] = "miss"]
          /\ UNCHANGED <<cnt, dur, t, got, left, given>>
(* An atomic addition. *)
Miss(p) == /\ pc[p] = "miss" /\ cnt' = cnt + Whole(t[p]) /\ given' = given + Whole(t[p]) /\ pc' = [pc EXCEPT ![p] = "idle"]
           /\ UNCHANGED <<lock, dur, t, got, left>>
(* An atomic exchange. *)
Take(p) == /\ pc[p] = "in" /\ got' = [got EXCEPT ![p] = cnt] /\ cnt' = 0 /\ pc' = [pc EXCEPT ![p] = "add"]
           /\ UNCHANGED <<lock, dur, t, left, given>>
Add(p) == /\ pc[p] = "add" /\ dur' = dur + got[p] + t[p] /\ given' = given + t[p] /\ got' = [got EXCEPT ![p] = 0]
          /\ pc' = [pc EXCEPT ![p] = "out"] /\ UNCHANGED <<lock, cnt, t, left>>
Leave(p) == /\ pc[p] = "out" /\ lock' = "no" /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<cnt, dur, t, got, left, given>>
Hold(u) == /\ pc[u] = "idle" /\ lock = "no" /\ lock' = u /\ pc' = [pc EXCEPT ![u] = "out"]
           /\ UNCHANGED <<cnt, dur, t, got, left, given>>

Next == \/ \E p \in Procs : Begin(p) \/ Try(p) \/ Miss(p) \/ Take(p) \/ Add(p) \/ Leave(p)
        \/ \E u \in Users : Hold(u) \/ (pc[u] = "out" /\ Leave(u))
Spec == Init /\ [][Next]_vars

One == Cardinality({p \in All : pc[p] \in {"in", "add", "out"}}) <= 1
InHand == IF lock \in Procs THEN got[lock] ELSE 0
Conserved == dur + cnt + InHand = given

(* The abstract state: what a tick took but did not add yet is still pending. *)
Abstract == [dur |-> dur, pend |-> cnt + InHand]
Refines == [][LET m == Abstract IN LET n == Abstract' IN
              n = m \/ \E x \in Lens : n = Missed(m, x) \/ (n.dur = m.dur + x + (m.pend - n.pend) /\ n.pend \in 0..m.pend)]_vars
(* Nobody who is not waiting for the lock is held up by it: ticks never wait. *)
=============================================================================
