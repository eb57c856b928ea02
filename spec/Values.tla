------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Generators of values: speeds, sensors, elevations and the curves behind  *)
(* them.                                                                    *)
(*                                                                          *)
(* A generator is [start, end, flat, memo, last]: whether its value at the  *)
(* start, at the end, or everywhere is the minimum, the values asked for    *)
(* since it was last shuffled (memo[p], 0 when not known) and the value     *)
(* asked for last (0: none).  A value is a pair <<name, pos>>: equal names  *)
(* are equal values, and pos is its place between minimum (0) and maximum   *)
(* (Top).  Progress 1 is the very start, progress 2 the very end.           *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Top, Tol

Abs(x) == IF x < 0 THEN -x ELSE x
Make(start, end, flat, np) == [start |-> start, end |-> end, flat |-> flat, memo |-> [p \in 1..np |-> 0], last |-> 0]

AtMin(g, p) == g.flat \/ (g.start /\ p = 1) \/ (g.end /\ p = 2)
(* What asking for the value at progress p may give. *)
Gives(g, p, v) ==
    /\ v[2] >= -Tol /\ v[2] <= Top + Tol
    /\ (AtMin(g, p) => Abs(v[2]) <= Tol)
    /\ g.memo[p] \in {0, v[1]}
Asked(g, p, v) == [g EXCEPT !.memo[p] = v[1], !.last = v[1]]
(* Many generators of the same settings, asked for their value at the very
   start (p = 1) or end: how many gave the minimum, a value in the lower and
   in the upper half, and how many different ones.  Where the mode does not
   fix it, the value is drawn from the whole range. *)
Spread(start, end, p, n, s) ==
    IF (start /\ p = 1) \/ (end /\ p = 2) THEN s.min = n
    ELSE s.low >= 1 /\ s.high >= 1 /\ s.low + s.high = n /\ 2 * s.diff > n
(* Numbers of ticks drawn for many offline periods. *)
Drawn(lo, hi, q) ==
    /\ \A i \in 1..Len(q) : q[i] >= lo /\ q[i] <= hi
    /\ (hi - lo >= 3 => \E i, j \in 1..Len(q) : 2 * q[i] < lo + hi /\ 2 * q[j] >= lo + hi)
Shuffled(g) == [g EXCEPT !.memo = [p \in DOMAIN @ |-> 0]]
=============================================================================
