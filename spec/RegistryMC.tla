----------------------------- MODULE RegistryMC -----------------------------
EXTENDS Registry, TLC, TLCExt

CONSTANTS NG, NX, Restores, PrintEdges

VARIABLES st, op, res
vars == <<st, op, res>>
view == st

Init == /\ st = [att |-> [g \in 1..NG |-> <<>>], id |-> [x \in 1..NX |-> x - 1]]
        /\ op = <<"init", <<>>>> /\ res = <<>>

Gens == 0..NG - 1
Xs == 0..NX - 1
Step(name, g, x) == /\ op' = <<name, <<g, x>>>>
                    /\ \E r \in {Do(st, name, g, x)} : st' = r[1] /\ res' = r[2]
Next == \/ \E g \in Gens :
             \/ \E x \in Xs \cup {-1} : Step("att", g, x)
             \/ \E i \in Xs \cup {-1, -2} : Step("det", g, i) \/ Step("has", g, i) \/ Step("look", g, i)
             \/ Step("num", g, 0)
             \/ \E k \in {-1} \cup 1..NX : Step("each", g, k)
        \/ \E x \in Xs : Step("stat", 0, x)
        \/ Restores /\ \E x, y \in Xs : Step("rest", x, y)
Spec == Init /\ [][Next]_vars

Edges == PrintEdges => PrintT(<<"EDGE", op[1], TLCFP(st), op', "x", TLCFP(st')>>)

(* At most one generator at a time, and there at most once. *)
Single == \A g, h \in 1..NG : \A i \in 1..Len(st.att[g]) : \A j \in 1..Len(st.att[h]) :
             (g # h \/ i # j) => st.att[g][i] # st.att[h][j]
Refused == [][(op'[1] = "att" /\ op'[2][2] >= 0) =>
                IF Attached(st, op'[2][2]) THEN st' = st /\ res' = <<0>>
                ELSE res' = <<1>> /\ List(st', op'[2][1]) = Append(List(st, op'[2][1]), op'[2][2])]_vars
Frees == [][op'[1] = "det" => \A x \in Xs : Attached(st, x) /\ ~Attached(st', x) =>
                /\ IdOf(st, x) = op'[2][2] /\ Attach(st', op'[2][1], x)[2] = <<1>>]_vars
OneAtMost == [][op'[1] = "det" => Len(List(st', op'[2][1])) >= Len(List(st, op'[2][1])) - 1]_vars
Views == [][op'[1] \in {"has", "look", "num", "each", "stat"} => st' = st]_vars
Agree == \A g \in Gens : /\ Num(st, g)[2][1] = Len(Each(st, g, -1)[2])
                         /\ \A i \in Xs : /\ (Has(st, g, i)[2][1] = 1) = (Lookup(st, g, i)[2][1] >= 0)
                                          /\ (Has(st, g, i)[2][1] = 1) = (\E x \in Elems(Each(st, g, -1)[2]) : IdOf(st, x) = i)
=============================================================================
