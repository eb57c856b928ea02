------------------------------- MODULE Import -------------------------------
(***************************************************************************)
(* Reading GeoJSON and GPX documents that this library did not write.       *)
(*                                                                          *)
(* A point is a number, a line a sequence of points.  A geometry is [k, c]: *)
(*   line, points     c is a line                                           *)
(*   lines, poly      c is a sequence of lines (of rings, outer ring first) *)
(*   polys            c is a sequence of polygons                           *)
(*   coll             c is a sequence of geometries                         *)
(*   point, odd, none c is empty: unsupported, unknown or missing geometry  *)
(* A GeoJSON document is a sequence of features [g, p], p naming the        *)
(* properties.  A GPX document is [w, r, t]: way points (a line), routes (a *)
(* sequence of lines) and tracks (a sequence of sequences of lines).        *)
(*                                                                          *)
(* The outcome of reading is [ok, routes]; a route is [p, t]: t lists its   *)
(* tracks, each a sequence of points.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Good(p) == Len(p) >= 2
AllGood(q) == \A i \in 1..Len(q) : Good(q[i])
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))

Bad == [ok |-> FALSE, t |-> <<>>]
Lines(q) == IF AllGood(q) THEN [ok |-> TRUE, t |-> q] ELSE Bad
Filled(polys) == SelectSeq(polys, LAMBDA rings : rings # <<>>)
(* The tracks of a geometry that is not a collection. *)
Tracks(g) ==
    CASE g.k \in {"line", "points"} -> Lines(<<g.c>>)
      [] g.k = "lines" -> Lines(g.c)
      [] g.k = "poly"  -> Lines(IF g.c = <<>> THEN <<>> ELSE <<g.c[1]>>)
      [] g.k = "polys" -> LET f == Filled(g.c) IN Lines([i \in 1..Len(f) |-> f[i][1]])
      [] OTHER -> Bad   \* points, missing or unknown geometries, collections within collections
Members(g) == IF g.k = "coll" THEN g.c ELSE <<g>>
Geometry(g) ==
    LET m == Members(g)
        x == [i \in 1..Len(m) |-> Tracks(m[i])]
    IN IF \E i \in 1..Len(m) : ~x[i].ok THEN Bad ELSE [ok |-> TRUE, t |-> Flat([i \in 1..Len(m) |-> x[i].t])]

Failed == [ok |-> FALSE, routes |-> <<>>]
GeoJson(d) ==
    LET x == [i \in 1..Len(d) |-> Geometry(d[i].g)]
    IN IF \E i \in 1..Len(d) : ~x[i].ok THEN Failed
       ELSE [ok |-> TRUE, routes |-> [i \in 1..Len(d) |-> [p |-> d[i].p, t |-> x[i].t]]]

Plain(t) == [p |-> 0, t |-> t]
Gpx(d) ==
    IF \/ ~AllGood(d.r)
       \/ \E i \in 1..Len(d.t) : ~AllGood(d.t[i])
       \/ d.w # <<>> /\ ~Good(d.w)
    THEN Failed
    ELSE [ok |-> TRUE,
          routes |-> IF d.w # <<>> THEN <<Plain(<<d.w>>)>>
                     ELSE IF d.t # <<>> THEN [i \in 1..Len(d.t) |-> Plain(d.t[i])]
                     ELSE [i \in 1..Len(d.r) |-> Plain(<<d.r[i]>>)]]

-----------------------------------------------------------------------------
(* The reader as a machine that takes a GeoJSON document apart, one member   *)
(* of one feature at a time: todo is what is left to read, cur the members   *)
(* left of the current feature, routes what has been made.                   *)
Start(d) == [todo |-> d, cur |-> <<>>, routes |-> <<>>, end |-> "no"]
Read(s) ==
    IF s.cur # <<>> THEN
        LET x == Tracks(Head(s.cur))  n == Len(s.routes) IN
        IF x.ok THEN [s EXCEPT !.cur = Tail(@), !.routes[n].t = @ \o x.t]
        ELSE [s EXCEPT !.end = "error"]
    ELSE IF s.todo # <<>> THEN
        [s EXCEPT !.cur = Members(Head(s.todo).g), !.todo = Tail(@), !.routes = Append(@, [p |-> Head(s.todo).p, t |-> <<>>])]
    ELSE [s EXCEPT !.end = "done"]
=============================================================================
