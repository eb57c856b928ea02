------------------------------ MODULE Tracker ------------------------------
(***************************************************************************)
(* One tracker: its routes, its position on them, its odometers, offline    *)
(* periods, battery, elapsed and missed time, and its sensor set.           *)
(*                                                                          *)
(* Everything is written as operators from a state (a record) and the       *)
(* arguments of one public call to the set of outcomes the call may have.   *)
(* TrackerMC explores them exhaustively for small constants, TrackerGen     *)
(* turns the explored graph into test programs for the code, TrackerTrace   *)
(* checks executions of the code against them.                              *)
(*                                                                          *)
(* Units: millimetres, tenths of a second, millimetres per second.          *)
(*                                                                          *)
(* A state s has the fields                                                 *)
(*   rts  sequence of routes <<id, track, track, ...>>                      *)
(*   ri, ti, si  indices (from 0) of the current route, track and segment   *)
(*   sd, td, rd, cd  segment, track, route and total distance covered       *)
(*   off  ticks left to be offline                                          *)
(*   dur  elapsed time       bv  time since the battery was charged         *)
(*   pend whole seconds of missed ticks                                     *)
(* C is the catalogue of tracks: C[t+1].len[k] and C[t+1].gap[k] are the    *)
(* length of a segment and whether it is not connected to the next one.     *)
(* cfg has omin, omax, skip (offline), bmin (1/100 %), ct (s) (battery).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

Drop1(q) == IF Len(q) <= 1 THEN <<>> ELSE SubSeq(q, 2, Len(q))

-----------------------------------------------------------------------------
(* Lengths.                                                                 *)

TrackLen(C, t) == SumSeq(C[t + 1].len)
RouteLen(C, r) == SumSeq([i \in 1..(Len(r) - 1) |-> TrackLen(C, r[i + 1])])
TotalLen(C, rts) == SumSeq([i \in 1..Len(rts) |-> RouteLen(C, rts[i])])

(* Tracks of the current route; segments of the current track.              *)
CurTracks(s) == IF s.ri < Len(s.rts) THEN Drop1(s.rts[s.ri + 1]) ELSE <<>>
HasTrack(s)  == s.ti < Len(CurTracks(s))
CurTrack(s)  == CurTracks(s)[s.ti + 1]
CurLens(C, s) == IF HasTrack(s) THEN C[CurTrack(s) + 1].len ELSE <<>>
CurGaps(C, s) == IF HasTrack(s) THEN C[CurTrack(s) + 1].gap ELSE <<>>

ValidPos(C, s) == /\ s.ri < Len(s.rts) /\ HasTrack(s) /\ s.si < Len(CurLens(C, s))

-----------------------------------------------------------------------------
(* Position restarts.                                                       *)

Restart(s) == [s EXCEPT !.ri = 0, !.ti = 0, !.si = 0, !.sd = 0, !.td = 0, !.rd = 0, !.cd = 0]

(* Going offline: the set of possible lengths. *)
Draws(cfg, s) == IF cfg.skip = 1 THEN {s.off} ELSE cfg.omin..cfg.omax

-----------------------------------------------------------------------------
(* One tick.                                                                *)
(*                                                                          *)
(* fit[k] \subseteq BOOLEAN says whether the step fits in segment k (from   *)
(* 1) of the current track: both values when a comparison of real numbers   *)
(* is too close to call from the rounded values.                            *)

RECURSIVE Walk(_, _, _, _)
Walk(k, n, fit, gaps) ==
    IF k > n THEN {<<"end", k>>} ELSE
       (IF TRUE \in fit[k] THEN {<<"fit", k>>} ELSE {})
       \cup
       (IF FALSE \in fit[k]
          THEN IF k = n THEN {<<"end", k>>}
               ELSE IF gaps[k] = 1 THEN {<<"gap", k + 1>>}
               ELSE Walk(k + 1, n, fit, gaps)
          ELSE {})

Outcome(s, kind, r, offs) == [s |-> s, kind |-> kind, r |-> r, offs |-> offs]

(* The tracker stands at the end of its track. *)
TrackEnd(s, offs) ==
    LET s1 == [s EXCEPT !.sd = 0, !.si = 0, !.td = 0] IN
    IF s.ti + 1 < Len(CurTracks(s)) THEN Outcome([s1 EXCEPT !.ti = @ + 1], "track", 0, offs)
    ELSE LET s2 == [s1 EXCEPT !.ti = 0, !.rd = 0] IN
         IF s.ri + 1 < Len(s.rts) THEN Outcome([s2 EXCEPT !.ri = @ + 1], "route", 0, offs)
         ELSE Outcome([s2 EXCEPT !.ri = 0, !.cd = 0, !.dur = 0], "lap", 0, offs)

Moved(s, k, step, offs) ==
    Outcome([s EXCEPT !.si = k - 1, !.sd = (IF k - 1 = s.si THEN s.sd ELSE 0) + step,
                      !.td = @ + step, !.rd = @ + step, !.cd = @ + step], "moved", 1, offs)

GapPassed(s, k, offs) == Outcome([s EXCEPT !.si = k - 1, !.sd = 0], "gap", 0, offs)

Step(C, cfg, s, step, fit, offs) ==
    { IF w[1] = "fit" THEN Moved(s, w[2], step, offs)
      ELSE IF w[1] = "gap" THEN GapPassed(s, w[2], Draws(cfg, s))
      ELSE TrackEnd(s, Draws(cfg, s))
      : w \in Walk(s.si + 1, Len(CurLens(C, s)), fit, CurGaps(C, s)) }

(* low \subseteq BOOLEAN: whether the battery reaches its minimum in this tick. *)
Tick(C, cfg, s, tk, step, fit, low) ==
    IF s.rts = <<>> THEN {Outcome(s, "none", 0, {s.off})}
    ELSE LET el == 10 * s.pend + tk
             s1 == [s EXCEPT !.pend = 0, !.dur = @ + el]
             Go(isLow) ==
                 LET s2   == [s1 EXCEPT !.bv = IF isLow THEN 0 ELSE @ + el]
                     offs == IF isLow THEN Draws(cfg, s) ELSE {s.off}
                     rest == {o - 1 : o \in {x \in offs : x > 0}}
                 IN (IF rest # {} THEN {Outcome(s2, "offline", 0, rest)} ELSE {})
                    \cup
                    (IF 0 \in offs THEN Step(C, cfg, [s2 EXCEPT !.off = 0], step, fit, {0}) ELSE {})
         IN UNION {Go(b) : b \in low}

(* The battery is low once the charge, which falls from 100 over ct and ctf tenths of seconds, is at the minimum.
   ex = 1: the time since the last charge has no rounding error. *)
IsLow(cfg, bv, ex) ==
    LET a == bv * 10
        b == (cfg.ct * (10000 - cfg.bmin)) \div 100 + (cfg.ctf * (10000 - cfg.bmin)) \div 1000
        exact == ex = 1 /\ cfg.bmin = 0 /\ cfg.ctf = 0
    IN IF a > b + 1 THEN {TRUE} ELSE IF a < b - 1 THEN {FALSE}
       ELSE IF exact THEN {a >= b} ELSE {TRUE, FALSE}

Missed(s, tk) == IF s.rts = <<>> THEN s ELSE [s EXCEPT !.pend = @ + (tk + 5) \div 10]

-----------------------------------------------------------------------------
(* Moves.                                                                   *)

Refused(s) == Outcome(s, "refused", 0, {s.off})

MoveTo(C, s, r, t, k) ==
    IF \/ r < 0 \/ r >= Len(s.rts) \/ t < 0 \/ k < 0
       \/ (r = s.ri /\ t = s.ti /\ k = s.si) THEN Refused(s)
    ELSE LET tks == Drop1(s.rts[r + 1]) IN
         IF t >= Len(tks) THEN Refused(s)
         ELSE IF k >= Len(C[tks[t + 1] + 1].len) THEN Refused(s)
         ELSE Outcome([s EXCEPT !.ri = r, !.ti = t, !.si = k, !.sd = 0,
                                !.td = IF r = s.ri /\ t = s.ti THEN @ ELSE 0,
                                !.rd = IF r = s.ri THEN @ ELSE 0,
                                !.off = 0], "moved", 1, {0})

IndexOf(q, x) == IF \E i \in 1..Len(q) : q[i] = x
                 THEN CHOOSE i \in 1..Len(q) : q[i] = x /\ \A j \in 1..(i - 1) : q[j] # x
                 ELSE 0
RouteIds(s) == [i \in 1..Len(s.rts) |-> s.rts[i][1]]

MoveToRouteId(C, s, id) ==
    LET i == IndexOf(RouteIds(s), id) IN IF i = 0 THEN Refused(s) ELSE MoveTo(C, s, i - 1, 0, 0)
MoveToTrackId(C, s, id, t) ==
    LET i == IndexOf(RouteIds(s), id)
        j == IF i = 0 THEN 0 ELSE IndexOf(Drop1(s.rts[i]), t)
    IN IF j = 0 THEN Refused(s) ELSE MoveTo(C, s, i - 1, j - 1, 0)
ToNext(C, s) == IF s.ri + 1 < Len(s.rts) THEN MoveTo(C, s, s.ri + 1, 0, 0) ELSE Refused(s)
ToPrev(C, s) == IF s.ri > 0 THEN MoveTo(C, s, s.ri - 1, 0, 0) ELSE Refused(s)

-----------------------------------------------------------------------------
(* Jumps.                                                                   *)

(* All segments in order: [r, t, k, len, at, rat, tat], `at` being the distance to their start. *)
RECURSIVE FlatTrack(_, _, _, _, _, _, _)
FlatTrack(lens, r, t, k, at, rat, tat) ==
    IF k > Len(lens) THEN <<>>
    ELSE <<[r |-> r, t |-> t, k |-> k - 1, len |-> lens[k], at |-> at, rat |-> rat, tat |-> tat]>>
         \o FlatTrack(lens, r, t, k + 1, at + lens[k], rat + lens[k], tat + lens[k])
RECURSIVE FlatRoute(_, _, _, _, _, _)
FlatRoute(C, tks, r, i, at, rat) ==
    IF i > Len(tks) THEN <<>>
    ELSE FlatTrack(C[tks[i] + 1].len, r, i - 1, 1, at, rat, 0)
         \o FlatRoute(C, tks, r, i + 1, at + TrackLen(C, tks[i]), rat + TrackLen(C, tks[i]))
RECURSIVE Flat(_, _, _, _)
Flat(C, rts, i, at) ==
    IF i > Len(rts) THEN <<>>
    ELSE FlatRoute(C, Drop1(rts[i]), i - 1, 1, at, 0)
         \o Flat(C, rts, i + 1, at + RouteLen(C, rts[i]))

(* tol = 0 decides exactly; a positive tolerance allows both sides of a     *)
(* boundary nearer than that, except when d is known to be exactly the end  *)
(* of the first segment with a length (ex = 1).                             *)
Jump(C, s, d, ex, tol) ==
    LET total == TotalLen(C, s.rts)
        dd    == Min2(d, total)
        segs  == {x \in {Flat(C, s.rts, 1, 0)[i] : i \in 1..Len(Flat(C, s.rts, 1, 0))} : x.len > 0}
        ends  == {x.at + x.len : x \in segs}
        last  == {x \in segs : \A y \in segs : y.at <= x.at}
        first == {x \in segs : \A y \in segs : y.at >= x.at}
        hit   == {x \in segs : /\ x.at <= dd + tol
                               /\ \/ dd - tol < x.at + x.len
                                  \/ x \in last /\ dd - tol <= x.at + x.len}
        used  == IF ex = 1 /\ Cardinality(segs) > 1 THEN hit \ first ELSE hit
        Land(x) == LET o == Max2(0, Min2(dd - x.at, x.len)) IN
                   Outcome([s EXCEPT !.ri = x.r, !.ti = x.t, !.si = x.k, !.sd = o,
                                     !.cd = dd, !.rd = x.rat + o, !.td = x.tat + o],
                           "moved", 1, {s.off})
        good == {Land(x) : x \in used}
        no   == {Refused(s)}
    IN IF d < 1000 \/ segs = {} THEN no
       ELSE IF total < 1000 - tol THEN no
       ELSE IF total < 1000 + tol /\ tol > 0 THEN no \cup good
       ELSE good

-----------------------------------------------------------------------------
(* The route set.                                                           *)

RECURSIVE AddAll(_, _, _)
AddAll(rts, ids, has) ==
    IF ids = <<>> THEN rts
    ELSE LET known == \E i \in 1..Len(rts) : rts[i][1] = Head(ids)
         IN AddAll(IF Head(ids) = -1 \/ known THEN rts ELSE Append(rts, <<Head(ids)>> \o Head(has)),
                   Tail(ids), Tail(has))

AddRoutes(s, ids, has) ==
    IF ids = <<>> THEN Outcome(s, "error", 0, {s.off})
    ELSE LET new == AddAll(s.rts, ids, has) IN
         IF new = s.rts THEN Outcome(s, "ignored", 1, {s.off})
         ELSE Outcome(Restart([s EXCEPT !.rts = new]), "changed", 1, {s.off})

RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

RemoveRoute(s, id) ==
    LET i == IndexOf(RouteIds(s), id) IN
    IF i = 0 THEN Refused(s)
    ELSE Outcome(Restart([s EXCEPT !.rts = RemoveAt(@, i)]), "changed", 1, {s.off})

WithoutTrack(r, j) == RemoveAt(r, j + 1)

RemoveTrack(s, id, t) ==
    LET i == IndexOf(RouteIds(s), id)
        j == IF i = 0 THEN 0 ELSE IndexOf(Drop1(s.rts[i]), t)
    IN IF j = 0 THEN Refused(s)
       ELSE Outcome(Restart([s EXCEPT !.rts[i] = WithoutTrack(@, j)]), "changed", 1, {s.off})

ResetRoutes(s) ==
    IF s.rts = <<>> THEN Refused(s)
    ELSE Outcome(Restart([s EXCEPT !.rts = <<>>]), "changed", 1, {s.off})

(* Changes made directly on a route that is in use: the position stays. *)
DirectAdd(s, id, t) ==
    LET i == IndexOf(RouteIds(s), id) IN
    IF i = 0 THEN s ELSE [s EXCEPT !.rts[i] = Append(@, t)]
DirectRemove(s, id, t) ==
    LET i == IndexOf(RouteIds(s), id)
        j == IF i = 0 THEN 0 ELSE IndexOf(Drop1(s.rts[i]), t)
    IN IF j = 0 THEN s ELSE [s EXCEPT !.rts[i] = WithoutTrack(@, j)]

-----------------------------------------------------------------------------
(* The sensor set: a sequence of identifiers.                               *)

RECURSIVE AddSensors(_, _)
AddSensors(ss, ids) ==
    IF ids = <<>> THEN ss
    ELSE AddSensors(IF Head(ids) = -1 \/ (\E i \in 1..Len(ss) : ss[i] = Head(ids)) THEN ss
                    ELSE Append(ss, Head(ids)), Tail(ids))
RemoveSensor(ss, id) == LET i == IndexOf(ss, id) IN IF i = 0 THEN ss ELSE RemoveAt(ss, i)

=============================================================================
