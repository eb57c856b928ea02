----------------------------- MODULE Generator -----------------------------
(***************************************************************************)
(* The generator as its user sees it: trackers attached in order, ticks     *)
(* that report them in packets, packet, error and step callbacks, closing.  *)
(*                                                                          *)
(* Operators from a state to the states an action may lead to; GeneratorMC  *)
(* explores them, GeneratorTrace checks executions of the code.             *)
(*                                                                          *)
(* A state g has the fields                                                 *)
(*   att   attached trackers, in order       bad   trackers that cannot be  *)
(*                                                 encoded at the moment    *)
(*   run   "no", "take" (the tick is taking the states of its trackers) or  *)
(*         "send"                                                           *)
(*   cur   trackers of the tick   todo  stretches <<from, to>> of positions  *)
(*                                      in cur not yet reported             *)
(*   may, must   positions in cur not reported yet whose state was          *)
(*               (possibly, surely) taken bad                               *)
(*   act   packet and error callbacks under way      errs  errors in this   *)
(*         tick                                                             *)
(*   np   step notifications pending (0..2)  nr  one is under way            *)
(*   cl    closing was asked for             ret   the run call returned    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Elems(q) == {q[i] : i \in 1..Len(q)}
Pos(q, x) == IF \E i \in 1..Len(q) : q[i] = x THEN CHOOSE i \in 1..Len(q) : q[i] = x ELSE 0
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

G0 == [att |-> <<>>, bad |-> {}, run |-> "no", cur |-> <<>>, todo |-> {}, may |-> {}, must |-> {},
       act |-> 0, errs |-> 0, np |-> 0, nr |-> FALSE, cl |-> FALSE, ret |-> FALSE]

(* Attachment: <<state, result>>. *)
Attach(g, x) == IF x \in Elems(g.att) THEN <<g, 0>> ELSE <<[g EXCEPT !.att = Append(@, x)], 1>>
Detach(g, x) == LET i == Pos(g.att, x) IN
                IF i = 0 THEN <<g, 1>> ELSE <<[g EXCEPT !.att = Without(@, i)], 1>>

(* A tracker becomes unencodable or encodable again.  While a tick is taking states, which of
   the two it takes is open. *)
SetBad(g, x, b) ==
    LET g1 == [g EXCEPT !.bad = IF b THEN @ \cup {x} ELSE @ \ {x}] IN
    IF g.run = "take" /\ x \in Elems(g.cur) THEN [g1 EXCEPT !.may = @ \cup {Pos(g.cur, x)}, !.must = @ \ {Pos(g.cur, x)}] ELSE g1

Piece(a, b) == IF a <= b THEN {<<a, b>>} ELSE {}

Bad(g) == {i \in 1..Len(g.att) : g.att[i] \in g.bad}
TickBegin(g) ==
    IF g.run = "no" /\ ~g.ret
    THEN {[g EXCEPT !.run = "take", !.cur = g.att, !.todo = Piece(1, Len(g.att)), !.errs = 0,
                    !.may = Bad(g), !.must = Bad(g)]}
    ELSE {}
TickTaken(g) == IF g.run = "take" THEN {[g EXCEPT !.run = "send"]} ELSE {}

(* How many trackers not yet reported could be why a packet fails: each error needs one. *)
Suspects(g) == Cardinality(g.may)

(* A packet with the trackers q, at most size of them, none of them unencodable. *)
PacketBegin(g, q, size) ==
    LET i == IF q = <<>> THEN 0 ELSE Pos(g.cur, q[1])
        j == i + Len(q) - 1
    IN IF /\ g.run = "send" /\ ~g.ret /\ i > 0 /\ Len(q) <= size /\ j <= Len(g.cur)
          /\ SubSeq(g.cur, i, j) = q
          /\ \A m \in g.must : m < i \/ m > j
       THEN {h \in {[g EXCEPT !.todo = (@ \ {s}) \cup Piece(s[1], i - 1) \cup Piece(j + 1, s[2]),
                             !.may = {m \in @ : m < i \/ m > j}, !.act = @ + 1]
                     : s \in {s \in g.todo : s[1] <= i /\ j <= s[2]}} : h.errs <= Suspects(h)}
       ELSE {}
PacketEnd(g) == IF g.act > 0 THEN {[g EXCEPT !.act = @ - 1]} ELSE {}

ErrorBegin(g) == IF g.run = "send" /\ ~g.ret /\ g.errs < Suspects(g)
                 THEN {[g EXCEPT !.errs = @ + 1, !.act = @ + 1]} ELSE {}
ErrorEnd(g) == PacketEnd(g)

(* The trackers that were not reported in a packet. *)
Missing(g) == UNION {{g.cur[i] : i \in s[1]..s[2]} : s \in g.todo}

(* Stretches meet only when a packet between them was reported, so each has a packet of its own that
   failed.  Everything was reported: what is missing was in packets that could not be encoded,
   each of them with a tracker that could not.  cbP, cbE: which callbacks are set. *)
Reported(g, cbP, cbE) ==
    IF cbP THEN /\ cbE => (g.errs >= Cardinality(g.todo) /\ g.errs <= Suspects(g))
                /\ \A s \in g.todo : \E m \in g.may : s[1] <= m /\ m <= s[2]
    ELSE cbE => (g.errs <= Suspects(g) /\ (g.must # {} => g.errs > 0))

TickEnd(g, cbP, cbE) ==
    IF g.run = "send" /\ g.act = 0 /\ Reported(g, cbP, cbE)
    THEN {[g EXCEPT !.run = "no", !.cur = <<>>, !.todo = {}, !.may = {}, !.must = {}, !.np = IF g.nr THEN 1 ELSE IF @ < 2 THEN @ + 1 ELSE 2]} ELSE {}
(* Closing may cut a tick short. *)
TickCut(g) ==
    IF g.run # "no" /\ g.cl
    THEN {[g EXCEPT !.run = "no", !.cur = <<>>, !.todo = {}, !.may = {}, !.must = {}]} ELSE {}

(* Ticks that end while the step callback runs lead to one notification; while it does not run, one
   more may be on its way already. *)
NextBegin(g) == IF g.np > 0 /\ ~g.nr /\ ~g.ret THEN {[g EXCEPT !.np = @ - 1, !.nr = TRUE]} ELSE {}
NextEnd(g) == IF g.nr THEN {[g EXCEPT !.nr = FALSE]} ELSE {}

Close(g) == [g EXCEPT !.cl = TRUE]
Return(g) == IF g.cl /\ g.act = 0 /\ ~g.nr /\ ~g.ret THEN {[g EXCEPT !.ret = TRUE]} ELSE {}

=============================================================================
