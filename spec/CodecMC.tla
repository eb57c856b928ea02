------------------------------ MODULE CodecMC ------------------------------
EXTENDS Codec, TLC, TLCExt

CONSTANTS Keys, MaxR, MaxT, MaxN, Shapes, Vals, Names, Cols, PrintEdges

VARIABLES st, op, res
vars == <<st, op, res>>

Step(name, a) ==
    /\ op' = <<name, a>>
    /\ \E r \in {Do(st, name, a)} : st' = r.s /\ res' = r.r

(* Identifiers are renumbered in the view: only which are equal, and their   *)
(* order, matters.                                                           *)
Strip(doc) == [i \in 1..Len(doc) |-> <<doc[i].name, doc[i].col, doc[i].p,
                [j \in 1..Len(doc[i].t) |-> LET t == doc[i].t[j] IN <<t.name, t.col, t.p, t.shape, t.ex>>]>>]
view == Strip(st.doc)

Spots == {<<i, j>> \in (1..Len(st.doc)) \X (0..MaxT) : Has(st, i, j)}
Init == st = Empty /\ op = <<"init", <<>>>> /\ res = 1
Next == \/ \E s \in 0..2 : Len(st.doc) < MaxR /\ st.n < MaxN /\ Step("route", <<s>>)
        \/ \E i \in 1..Len(st.doc), sh \in Shapes : Len(st.doc[i].t) < MaxT /\ st.n < MaxN /\ Step("track", <<i, sh, sh % 3>>)
        \/ \E x \in Spots : \/ \E k \in Keys, v \in Vals : Step("prop", x \o <<k, v>>)
                            \/ \E n \in Names : Step("name", x \o <<n>>)
                            \/ \E c \in Cols : Step("col", x \o <<c>>)
                            \/ Step("cut", x)
        \/ \E i \in 1..MaxR : Step("drop", <<i>>)
        \/ \E f \in Formats : Step("via", <<f>>)
Spec == Init /\ [][Next]_vars
Edges == PrintEdges => PrintT(<<"EDGE", op[1], TLCFP(Strip(st.doc)), op', "x", TLCFP(Strip(st'.doc))>>)

Ids(doc) == [i \in 1..Len(doc) |-> doc[i].id]
RECURSIVE Sub(_, _)
Sub(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
             ELSE IF Head(a) = Head(b) THEN Sub(Tail(a), Tail(b)) ELSE Sub(a, Tail(b))
Tracks(doc) == {doc[i].t[j].id : i \in 1..Len(doc), j \in {1}} 
(* Nothing further is lost, and the order of two encodings does not matter.  *)
Again == \A f \in Formats : Through(f, Through(f, st.doc)) = Through(f, st.doc)
Commute == \A f, g \in Formats : Through(f, Through(g, st.doc)) = Through(g, Through(f, st.doc))
Kept == \A f \in Formats :
    LET d == Through(f, st.doc) IN
    /\ Sub(Ids(d), Ids(st.doc))
    /\ \A i \in 1..Len(st.doc) : st.doc[i].t # <<>> =>
         \E k \in 1..Len(d) :
            /\ d[k].id = st.doc[i].id /\ d[k].name = st.doc[i].name /\ d[k].col = st.doc[i].col
            /\ Len(d[k].t) = Len(st.doc[i].t)
            /\ \A j \in 1..Len(d[k].t) : /\ d[k].t[j].id = st.doc[i].t[j].id
                                         /\ d[k].t[j].shape = st.doc[i].t[j].shape
                                         /\ d[k].t[j].name = st.doc[i].t[j].name
                                         /\ d[k].t[j].col = st.doc[i].t[j].col
                                         /\ \A x \in 1..NK : (d[k].t[j].p[x] = 0) = (st.doc[i].t[j].p[x] = 0)
    /\ (f \in {Bin, Json} => \A k \in 1..Len(d) : \E i \in 1..Len(st.doc) : d[k] = st.doc[i])
Fresh == \A i \in 1..Len(st.doc) : st.doc[i].id <= st.n
Empties == [][op'[1] = "via" /\ st.doc = <<>> => res' = 0]_vars
Encoded == [][op'[1] = "via" /\ res' = 0 => st' = st]_vars
=============================================================================
