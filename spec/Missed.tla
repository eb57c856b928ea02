------------------------------- MODULE Missed -------------------------------
(***************************************************************************)
(* What becomes of the ticks given to one tracker by several users at once. *)
(* A state is [dur, pend] in half seconds: the elapsed time of the tracker, *)
(* and the time of missed ticks that is not applied yet.                    *)
(***************************************************************************)
EXTENDS Integers

M0 == [dur |-> 0, pend |-> 0]

(* A missed tick counts in whole seconds. *)
Whole(t) == ((t + 1) \div 2) * 2

Applied(m, t) == [dur |-> m.dur + m.pend + t, pend |-> 0]
Missed(m, t) == [m EXCEPT !.pend = @ + Whole(t)]
(* Missed ticks that are not applied yet are no part of a snapshot. *)
Restored(m, d) == [dur |-> d, pend |-> 0]

(* n ticks of which k were missed, in any order: the states this may end in, by elapsed time. *)
Ends(m, n, k, t, d) ==
    LET all == m.pend + k * Whole(t)
        c == d - m.dur - (n - k) * t        \* missed time that was collected
        least == IF n > k THEN m.pend ELSE 0
    IN IF (IF n = k THEN c = 0 ELSE c >= least /\ c <= all) THEN {[dur |-> d, pend |-> all - c]} ELSE {}
=============================================================================
