-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* Routes that are built up and passed through encodings.                   *)
(*                                                                          *)
(* A state is [n, doc]: doc is a sequence of routes, n the number of        *)
(* identifiers given so far.  A route is [id, name, col, p, t]: name and    *)
(* col are 0 as created, p gives the value of each property key (0: none),  *)
(* t is a sequence of tracks [id, name, col, p, shape, ex]; shape names a   *)
(* sequence of points and ex says whether the points are still exact (GPX   *)
(* rounds coordinates).                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NK == 2
Bin == 1  Json == 2  Gpx == 3  Tracker == 4
Formats == {Bin, Json, Gpx, Tracker}

(* The points of each shape, as indexes of a table of points. *)
Shape == << <<1, 2>>, <<1, 2, 3>>, <<1, 2, 3, 1>>, <<4, 4, 5>>, <<6, 7, 8, 9, 6>>, <<1, 2, 1>>, <<8, 6, 4, 2, 9, 7, 5, 3, 1>>,
            <<9, 8, 7, 8, 9, 9>> >>
Closed(q) == Len(q) >= 3 /\ q[1] = q[Len(q)]

(* Property values.  1..: strings that look like nothing else, the values   *)
(* they were chosen from are in the driver:                                 *)
(*   1 "bar" 2 "" 3 markup 4 non-ASCII 5 spaces                             *)
(*   6 " true " 7 " 7" 8 "7 km" 9 words on several lines 10 "-"             *)
(*   11 "42" 12 "4.5" 13 "true" 14 "false" 15 "0" 16 "1e3" 17 "-7"          *)
(*   21 the number 42 ... 27 the number -7, in the order of 11.. (23, 24:   *)
(*   true and false); 28 the number 0.1 + 0.2, 29 the number 123456789.     *)
(*   31..40 texts that resemble numbers or booleans and are none: "0x1F",   *)
(*   "1 000", "0b11", "1,5", "1e", "7.0.1", "--7", "truely", "0x", "+-1"     *)
Texts == 1..10 \cup 31..40
Looks == 11..17
Others == 21..29
Values == Texts \cup Looks \cup Others
Look(v) == IF v \in Looks THEN v + 10 ELSE v

NoProps == [k \in 1..NK |-> 0]
NewRoute(i) == [id |-> i, name |-> 0, col |-> 0, p |-> NoProps, t |-> <<>>]
NewTrack(i, sh) == [id |-> i, name |-> 0, col |-> 0, p |-> NoProps, shape |-> sh, ex |-> TRUE]

Some(q) == SelectSeq(q, LAMBDA r : r.t # <<>>)
LookT(t) == [t EXCEPT !.p = [k \in 1..NK |-> Look(@[k])], !.ex = FALSE]
LookR(r) == [r EXCEPT !.p = [k \in 1..NK |-> Look(@[k])], !.t = [j \in 1..Len(@) |-> LookT(@[j])]]

(* What comes out of decoding what encoding doc gave. *)
Can(f, doc) == IF f = Gpx THEN Some(doc) # <<>> ELSE doc # <<>>
Through(f, doc) == CASE f = Bin -> doc
                     [] f = Tracker -> doc
                     [] f = Json -> Some(doc)
                     [] f = Gpx -> [i \in 1..Len(Some(doc)) |-> LookR(Some(doc)[i])]

R(s, r) == [s |-> s, r |-> r]
Has(st, i, j) == i \in 1..Len(st.doc) /\ j \in 0..Len(st.doc[i].t)
NameOk(n) == n >= 3 /\ n <= 256
Set(st, i, j, f(_), g(_)) ==
    IF ~Has(st, i, j) THEN R(st, 0)
    ELSE IF j = 0 THEN R([st EXCEPT !.doc[i] = f(@)], 1) ELSE R([st EXCEPT !.doc[i].t[j] = g(@)], 1)

Do(st, name, a) ==
    CASE name = "route" -> R([n |-> st.n + 1, doc |-> Append(st.doc, NewRoute(st.n + 1))], 1)   \* a: how it is made
      [] name = "track" -> IF ~Has(st, a[1], 0) THEN R(st, 0)
                           ELSE R([n |-> st.n + 1, doc |-> [st.doc EXCEPT ![a[1]].t = Append(@, NewTrack(st.n + 1, a[2]))]], 1)
      [] name = "prop"  -> Set(st, a[1], a[2], LAMBDA r : [r EXCEPT !.p[a[3]] = a[4]], LAMBDA t : [t EXCEPT !.p[a[3]] = a[4]])
      [] name = "name"  -> IF NameOk(a[3]) THEN Set(st, a[1], a[2], LAMBDA r : [r EXCEPT !.name = a[3]], LAMBDA t : [t EXCEPT !.name = a[3]])
                           ELSE R(st, 0)
      [] name = "col"   -> Set(st, a[1], a[2], LAMBDA r : [r EXCEPT !.col = a[3]], LAMBDA t : [t EXCEPT !.col = a[3]])
      [] name = "drop"  -> IF ~Has(st, a[1], 0) THEN R(st, 0)
                           ELSE R([st EXCEPT !.doc = SubSeq(@, 1, a[1] - 1) \o SubSeq(@, a[1] + 1, Len(@))], 1)
      [] name = "cut"   -> IF ~Has(st, a[1], a[2]) \/ a[2] = 0 THEN R(st, 0)
                           ELSE R([st EXCEPT !.doc[a[1]].t = SubSeq(@, 1, a[2] - 1) \o SubSeq(@, a[2] + 1, Len(@))], 1)
      [] name = "via"   -> IF Can(a[1], st.doc) THEN R([st EXCEPT !.doc = Through(a[1], @)], 1) ELSE R(st, 0)

Empty == [n |-> 0, doc |-> <<>>]
=============================================================================
