------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* Which trackers are attached to which generator.                          *)
(*                                                                          *)
(* A state is [att, id]: att[g] lists the trackers attached to generator g  *)
(* in order, id[x] is the identifier of tracker x (restoring a snapshot     *)
(* takes over its identifier, so two trackers may share one).  Generators   *)
(* are 0, 1, ..; trackers and identifiers 0, 1, ..; -1 is nothing (for an   *)
(* identifier: the empty one) and -2 an identifier nobody has.              *)
(*                                                                          *)
(* Do(st, name, g, x) is the pair of the next state and the result.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Elems(q) == {q[i] : i \in 1..Len(q)}
Min(S) == CHOOSE m \in S : \A n \in S : m <= n

List(st, g) == st.att[g + 1]
IdOf(st, x) == st.id[x + 1]
Attached(st, x) == \E g \in 1..Len(st.att) : x \in Elems(st.att[g])

(* The first tracker with an identifier: its position, or 0. *)
Find(st, g, i) == LET P == {p \in 1..Len(List(st, g)) : IdOf(st, List(st, g)[p]) = i} IN IF P = {} THEN 0 ELSE Min(P)

Attach(st, g, x) ==
    IF x = -1 THEN <<st, <<1>>>>
    ELSE IF Attached(st, x) THEN <<st, <<0>>>>
    ELSE <<[st EXCEPT !.att[g + 1] = Append(@, x)], <<1>>>>

Detach(st, g, i) ==
    LET p == Find(st, g, i) IN
    IF p = 0 THEN <<st, <<1>>>>
    ELSE <<[st EXCEPT !.att[g + 1] = SubSeq(@, 1, p - 1) \o SubSeq(@, p + 1, Len(@))], <<1>>>>

Has(st, g, i) == <<st, <<IF Find(st, g, i) > 0 THEN 1 ELSE 0>>>>
Lookup(st, g, i) == LET p == Find(st, g, i) IN <<st, <<IF p = 0 THEN -1 ELSE List(st, g)[p]>>>>
Num(st, g) == <<st, <<Len(List(st, g))>>>>
(* Iteration that the callback ends after k trackers (k < 0: never). *)
Each(st, g, k) == <<st, IF k < 0 \/ k >= Len(List(st, g)) THEN List(st, g) ELSE SubSeq(List(st, g), 1, k)>>
Status(st, x) == <<st, <<IF Attached(st, x) THEN 1 ELSE 0>>>>
Restore(st, x, y) == <<[st EXCEPT !.id[x + 1] = IdOf(st, y)], <<1>>>>

Do(st, name, g, x) ==
    CASE name = "att" -> Attach(st, g, x)
      [] name = "det" -> Detach(st, g, x)
      [] name = "has" -> Has(st, g, x)
      [] name = "look" -> Lookup(st, g, x)
      [] name = "num" -> Num(st, g)
      [] name = "each" -> Each(st, g, x)
      [] name = "stat" -> Status(st, x)
      [] name = "rest" -> Restore(st, g, x)   \* (tracker g takes over tracker x)
      [] name \in {"run", "close"} -> <<st, <<1>>>>
=============================================================================
