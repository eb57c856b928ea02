------------------------------ MODULE Readers ------------------------------
(***************************************************************************)
(* A tracker with two independent parts, each changed by one writer (what   *)
(* ticks and moves change, and the descriptive settings), and readers of    *)
(* one part or of both.                                                     *)
(*                                                                          *)
(* A state r is [a, b, open, pend]: a, b count the changes that took        *)
(* effect, open is the set of writers whose change is under way, pend holds *)
(* for each reader under way <<reader, the pairs (a, b) since it began>>.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

R0 == [a |-> 1, b |-> 1, open |-> {}, pend |-> {}]

WriteBegin(r, w) == [r EXCEPT !.open = @ \cup {w}]
(* The change takes effect. *)
Effect(r, w) ==
    LET n == [r EXCEPT !.a = IF w = 0 THEN @ + 1 ELSE @, !.b = IF w = 1 THEN @ + 1 ELSE @, !.open = @ \ {w}]
    IN [n EXCEPT !.pend = {<<p[1], p[2] \cup {<<n.a, n.b>>}>> : p \in @}]
ReadBegin(r, c) == [r EXCEPT !.pend = @ \cup {<<c, {<<r.a, r.b>>}>>}]
Reader(r, c) == CHOOSE p \in r.pend : p[1] = c
(* What a reader may have seen: one of the states since it began. *)
Seen(r, c) == Reader(r, c)[2]
ReadEnd(r, c) == [r EXCEPT !.pend = @ \ {Reader(r, c)}]
=============================================================================
