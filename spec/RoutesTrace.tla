----------------------------- MODULE RoutesTrace -----------------------------
(***************************************************************************)
(* Recorded operations on real routes, and tracks built from points,        *)
(* against Routes.                                                          *)
(***************************************************************************)
EXTENDS Routes, TLC, Json, IOUtils

CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st, ok
vars == <<tid, l, st, ok>>
T == Traces[tid]
Abs(x) == IF x < 0 THEN -x ELSE x

(* Versions before and after: v[1] the route's, v[x + 2] track x's. *)
Vers(a, b, r, from) == \A x \in from..T.nx - 1 :
    LET p == a[x + 2]  q == b[x + 2] IN
    IF x \in r.up THEN q > p ELSE IF x \in r.may THEN q >= p ELSE q = p

(* Lengths are in micrometres modulo nothing: the driver gives the difference
   between the route's distance and the sum of its tracks' distances. *)
Seen(s, o) == /\ o.seq = s.seq /\ o.name = s.name /\ o.col = s.col /\ o.tn = s.tn /\ o.tc = s.tc
              /\ Abs(o.dd) <= 1
Prev == IF l = 0 THEN T.v ELSE T.steps[l].v

(* A track from points: s[i] = <<index of its start, of its end, length and
   bearing errors, long>>. *)
Made(e) ==
    /\ (e.r = 1) = TrackOk(Len(e.q))
    /\ e.r = 1 =>
        /\ Len(e.s) = Len(e.q) - 1 /\ e.num = Len(e.s)
        /\ \A i \in 1..Len(e.s) :
             LET s == e.s[i] IN
             /\ s.i = i - 1
             /\ e.q[i] = s.a /\ e.q[i + 1] = s.b
             /\ Abs(s.ld) <= s.lt                            \* (micrometres)
             /\ (s.big = 1 => Abs(s.bd) <= 100)              \* (millionths of a degree)
             /\ (e.q[i] = e.q[i + 1]) => s.zero = 1
        /\ Abs(e.dd) <= 1000
        /\ (e.closed = 1) = Closed(e.q)
        /\ e.out = 1                                         \* indexes outside give nothing
    /\ e.r = 0 => e.nil = 1

Init == tid \in 1..Len(Traces) /\ l = 0 /\ st = New(Traces[tid].nx) /\ ok = TRUE
Next == /\ ok /\ l < Len(T.steps) /\ l' = l + 1 /\ tid' = tid
        /\ LET e == T.steps[l + 1] IN
           IF e.op \in {"crash", "hang"} THEN ok' = FALSE /\ st' = st
           ELSE IF e.op = "make" THEN ok' = (Made(e) = TRUE) /\ st' = st
           ELSE \E r \in {Do(T.id, st, e.op, e.a)} :
                   st' = r.s /\ ok' = ((e.r = r.r /\ Seen(r.s, e.o) /\ Vers(Prev, e.v, r, IF e.op = "from" THEN 0 ELSE -1)) = TRUE)
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
