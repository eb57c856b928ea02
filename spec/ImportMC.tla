------------------------------ MODULE ImportMC ------------------------------
(* Every document of a bounded grammar: the reader comes to the outcome that *)
(* the definitions give, and the outcome obeys the stated rules.  The        *)
(* documents are written to files for the real decoders.                     *)
EXTENDS Import, TLC, Json, IOUtils

CONSTANT Wide
L3 == {<<1>>, <<1, 2>>, <<3, 1, 2>>}
L == L3 \cup {<<>>, <<1, 2, 3, 1>>, <<2, 2>>}
Upto(S, n) == UNION {[1..k -> S] : k \in 0..n}
Rings == {<<>>, <<<<1, 2, 3, 1>>>>, <<<<1, 2, 3, 1>>, <<2, 2>>>>, <<<<1>>>>, <<<<3, 1, 2>>, <<4>>>>}
G(k, S) == {[k |-> k, c |-> c] : c \in S}
Empties == {[k |-> k, c |-> <<>>] : k \in {"point", "odd", "none"}}
Simple == G("line", L) \cup G("points", L) \cup G("lines", Upto(L3, 2)) \cup G("poly", Upto(L3, 2) \cup Rings)
          \cup G("polys", Upto(Rings, 2)) \cup Empties
Few == {[k |-> "line", c |-> <<1, 2>>], [k |-> "line", c |-> <<2>>], [k |-> "points", c |-> <<4, 3, 2, 4>>],
        [k |-> "lines", c |-> <<<<5, 6>>, <<6, 5, 7>>>>], [k |-> "lines", c |-> <<>>],
        [k |-> "poly", c |-> <<<<1, 2, 3, 1>>, <<4, 5>>>>], [k |-> "poly", c |-> <<>>],
        [k |-> "polys", c |-> <<<<<<1, 2, 3, 1>>>>, <<>>, <<<<7, 8, 9, 7>>, <<1, 2>>>>>>],
        [k |-> "coll", c |-> <<>>], [k |-> "coll", c |-> <<[k |-> "line", c |-> <<1, 2>>], [k |-> "points", c |-> <<3, 4>>]>>]} \cup Empties
Colls == G("coll", Upto(Few, IF Wide THEN 3 ELSE 2))
F(S, P) == {[g |-> g, p |-> p] : g \in S, p \in P}
GeoDocs == {<<>>} \cup {<<f>> : f \in F(Simple \cup Colls, {1}) \cup F(Few, 0..4)}
           \cup {<<a, b>> : a, b \in F(Few, {2})}
           \cup {<<a, b, c>> : a, b, c \in F(G("line", {<<1, 2>>, <<3>>}) \cup G("coll", {<<[k |-> "line", c |-> <<9, 8>>]>>}), {1, 3})}

Segs == {<<>>, <<<<1, 2>>>>, <<<<1, 2>>, <<3, 1, 2>>>>, <<<<1>>>>, <<<<2, 1>>, <<>>>>, <<<<4, 5, 4>>, <<5, 6>>, <<6, 4>>>>}
GpxDocs == {[w |-> w, r |-> r, t |-> t] : w \in L3 \cup {<<>>}, r \in Upto(L3 \cup {<<>>}, 2), t \in Upto(Segs, 2)}
           \cup {[w |-> <<>>, r |-> <<>>, t |-> t] : t \in Upto(Segs, 3)}

VARIABLES kind, doc, s
vars == <<kind, doc, s>>
Init == \/ kind = "geo" /\ doc \in GeoDocs /\ s = Start(doc)
        \/ kind = "gpx" /\ doc \in GpxDocs /\ s = 0
Next == kind = "geo" /\ s.end = "no" /\ s' = Read(s) /\ UNCHANGED <<kind, doc>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ends == <>(kind = "gpx" \/ s.end # "no")
Agrees == kind = "geo" /\ s.end # "no" => /\ (s.end = "done") = GeoJson(doc).ok
                                          /\ (s.end = "done") => s.routes = GeoJson(doc).routes
Points(r) == Flat(Flat([i \in 1..Len(r) |-> r[i].t]))
(* One route per feature with its properties; only tracks of two points or   *)
(* more; every point of a line comes out, in order.                          *)
Rules ==
    LET o == IF kind = "geo" THEN GeoJson(doc) ELSE Gpx(doc) IN
    /\ ~o.ok => o.routes = <<>>
    /\ \A i \in 1..Len(o.routes) : \A j \in 1..Len(o.routes[i].t) : Len(o.routes[i].t[j]) >= 2
    /\ kind = "geo" /\ o.ok =>
        /\ Len(o.routes) = Len(doc)
        /\ \A i \in 1..Len(doc) :
            /\ o.routes[i].p = doc[i].p
            /\ doc[i].g.k \in {"line", "points"} => o.routes[i].t = <<doc[i].g.c>>
            /\ doc[i].g.k = "lines" => o.routes[i].t = doc[i].g.c
            /\ doc[i].g.k = "coll" => \A j \in 1..Len(doc[i].g.c) : doc[i].g.c[j].k # "coll"
    /\ kind = "gpx" /\ o.ok =>
        /\ (doc.w # <<>>) => Len(o.routes) = 1 /\ Points(o.routes) = doc.w
        /\ (doc.w = <<>> /\ doc.t # <<>>) => Len(o.routes) = Len(doc.t) /\ Points(o.routes) = Flat(Flat(doc.t))
        /\ (doc.w = <<>> /\ doc.t = <<>>) => Len(o.routes) = Len(doc.r) /\ Points(o.routes) = Flat(doc.r)
Printed == (kind = "gpx" \/ s = Start(doc)) => PrintT(<<"DOC", kind, ToJson(doc)>>)
=============================================================================
