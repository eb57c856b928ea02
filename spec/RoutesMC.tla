------------------------------ MODULE RoutesMC ------------------------------
EXTENDS Routes, TLC, TLCExt

CONSTANTS NX, Twins, MaxLen, Styles, PrintEdges
Names == {0, 2, 3, 256, 257}
Id == [x \in 1..NX |-> IF Twins /\ x = NX THEN 1 ELSE x]
Lens == [x \in 1..NX |-> 10 ^ x]

VARIABLES st, ver, op, res
vars == <<st, ver, op, res>>
view == st
look == st

Init == st = New(NX) /\ ver = [x \in -1..NX - 1 |-> 0] /\ op = <<"init", <<>>>> /\ res = <<>>
Step(name, a) ==
    /\ op' = <<name, a>>
    /\ \E r \in {Do(Id, st, name, a)} :
          /\ st' = r.s /\ res' = r.r
          /\ \E m \in SUBSET r.may : ver' = [x \in DOMAIN ver |-> IF x \in r.up \cup m THEN ver[x] + 1 ELSE ver[x]]
Next == \/ \E x \in -1..NX - 1 : Step("add", <<x>>)
        \/ \E i \in {-3, -2, -1} \cup 1..NX : Step("rem", <<i>>) \/ Step("byId", <<i>>)
        \/ \E i \in -1..MaxLen : Step("at", <<i>>) \/ Step("each", <<i>>)
        \/ \E n \in 0..2 : \E q \in [1..n -> 0..NX - 1] : Step("from", q)
        \/ Step("num", <<0>>) \/ Step("look", <<0>>)
        \/ Styles /\ \/ \E n \in Names : Step("name", <<n>>) \/ \E x \in 0..NX - 1 : Step("tname", <<x, n>>)
                     \/ \E c \in -1..2 : Step("col", <<c>>) \/ \E x \in 0..NX - 1 : Step("tcol", <<x, c>>)
Spec == Init /\ [][Next]_vars
Bound == Len(st.seq) <= MaxLen
Edges == PrintEdges => PrintT(<<"EDGE", op[1], TLCFP(st), op', "x", TLCFP(st')>>)

Known == \A p \in 1..Len(st.seq) : Find(Id, st, Id[st.seq[p] + 1]) \in 1..p
Agree == /\ Len(Each(st, -1).r) = Len(st.seq)
         /\ \A i \in 0..Len(st.seq) - 1 : At(st, i).r[1] = Each(st, -1).r[i + 1]
         /\ At(st, Len(st.seq)).r = <<-1>> /\ At(st, -1).r = <<-1>>
Count(q, i) == Cardinality({p \in 1..Len(q) : Id[q[p] + 1] = i})
Sums == [][/\ (op'[1] = "add" /\ op'[2][1] >= 0 => SumOf(Lens, st'.seq) = SumOf(Lens, st.seq) + Lens[op'[2][1] + 1])
           /\ (op'[1] = "rem" => /\ SumOf(Lens, st'.seq) <= SumOf(Lens, st.seq)
                                 /\ res' = <<IF Count(st.seq, op'[2][1]) > 0 THEN 1 ELSE 0>>
                                 /\ Count(st'.seq, op'[2][1]) = Count(st.seq, op'[2][1]) - res'[1])]_vars
Versions == [][/\ \A x \in DOMAIN ver : ver'[x] >= ver[x]
               /\ (st' # st => ver' # ver)
               /\ (ver' # ver => st' # st \/ op'[1] \in {"from", "byId", "name", "col", "tname", "tcol"})
               /\ (op'[1] \in {"tname", "tcol"} => ver'[-1] = ver[-1])]_vars
Views == [][op'[1] \in {"byId", "at", "each", "num", "look"} => st' = st]_vars
=============================================================================
