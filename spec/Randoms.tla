------------------------------ MODULE Randoms ------------------------------
(***************************************************************************)
(* Random routes, polygons and locations.  What is drawn is free; what it   *)
(* must look like is not.  Angles are in micro-degrees.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
NumTracks(n) == IF n < 0 THEN 1 ELSE n
Level(v) == IF v < 10 THEN 10 ELSE IF v > 600 THEN 600 ELSE v
NumPoints(n) == IF n <= 0 THEN 16 ELSE n

(* A random polygon of n points: q numbers its points, equal numbers are
   equal points. *)
Polygon(n, q) == Len(q) = NumPoints(n) + 1 /\ q[1] = q[Len(q)]

(* A track: a closed loop of 16 connected segments of positive length. *)
Loop(t) ==
    /\ t.closed = 1 /\ Len(t.segs) = 16
    /\ \A i \in 1..16 : /\ t.segs[i][3] = 1
                        /\ t.segs[i][2] = t.segs[(i % 16) + 1][1]
    /\ t.name = 1 /\ t.color = 1

Route(r, n) ==
    /\ Len(r.tracks) = NumTracks(n) /\ r.name = 1 /\ r.color = 1 /\ r.dist = 1
    /\ \A i \in 1..Len(r.tracks) : Loop(r.tracks[i])
Ids(r) == <<r.id, r.nm>> \o [i \in 1..Len(r.tracks) |-> r.tracks[i].id] \o [i \in 1..Len(r.tracks) |-> r.tracks[i].nm]
Distinct(q) == Cardinality({q[i] : i \in 1..Len(q)}) = Len(q)

(* The typical size of the routes of two levels. *)
Grows(v, a, w, b) ==
    LET x == Level(v)  y == Level(w) IN
    IF x = y THEN Abs(a - b) * 5 < a
    ELSE IF y * 3 >= x * 5 THEN b * 2 > a * 3
    ELSE IF x * 3 >= y * 5 THEN a * 2 > b * 3 ELSE TRUE
(* No point is farther from the centre than a 20th of a degree per level. *)
Reach(v) == Level(v) * 50000

InBox(b, p) == b[1] <= p[1] /\ p[1] <= b[3] /\ b[2] <= p[2] /\ p[2] <= b[4]
Box(b) == /\ -180000000 <= b[1] /\ b[1] < b[3] /\ b[3] <= 180000000
          /\ -90000000 <= b[2] /\ b[2] < b[4] /\ b[4] <= 90000000
Wider(b) == <<b[1] - 1, b[2] - 1, b[3] + 1, b[4] + 1>>
=============================================================================
