------------------------------ MODULE PropsMC ------------------------------
EXTENDS Props, TLC, TLCExt

CONSTANTS NK, NV, TypeSet, PrintEdges

VARIABLES M, op, res
vars == <<M, op, res>>
view == M

Maps == 1..2
Init == M = [m \in Maps |-> Empty(1..NK)] /\ op = <<"init", <<>>>> /\ res = <<>>
Step(name, a) == op' = <<name, a>> /\ \E r \in {Do(M, name, a)} : M' = r[1] /\ res' = r[2]
Next == \E m \in Maps :
    \/ \E k \in 1..NK : \/ \E t \in TypeSet, v \in 0..NV - 1 : Step("set", <<m, k, t, v>>)
                        \/ \E t \in 1..4 : Step("get", <<m, k, t>>)
                        \/ Step("rem", <<m, k>>)
    \/ Step("reset", <<m>>) \/ Step("len", <<m>>)
    \/ \E o \in Maps : Step("merge", <<m, o>>)
Spec == Init /\ [][Next]_vars
Edges == PrintEdges => PrintT(<<"EDGE", op[1], TLCFP(M), op', "x", TLCFP(M')>>)

(* At most one type answers for a key, and none after a removal. *)
OneType == \A m \in Maps, k \in 1..NK : \A t, u \in 1..4 :
              Get(M[m], k, Readers[t])[1] = 1 /\ Get(M[m], k, Readers[u])[1] = 1 => t = u
SetGet == [][op'[1] = "set" => LET a == op'[2] IN
                \A t \in 1..4 : Get(M'[a[1]], a[2], Readers[t]) =
                    IF Types[a[3]] \in Reads(Readers[t]) THEN <<1, a[4]>> ELSE <<0, 0>>]_vars
Gone == [][/\ (op'[1] = "rem" => \A t \in 1..4 : Get(M'[op'[2][1]], op'[2][2], Readers[t]) = <<0, 0>>)
           /\ (op'[1] = "reset" => Size(M'[op'[2][1]]) = 0)]_vars
Local == [][\A m \in Maps : (op'[1] \in {"set", "rem", "reset", "merge"} /\ m # op'[2][1]) => M'[m] = M[m]]_vars
Taken == [][op'[1] = "merge" => LET a == op'[2] IN \A k \in 1..NK :
                M'[a[1]][k] = IF M[a[2]][k] # None THEN M[a[2]][k] ELSE M[a[1]][k]]_vars
Pure == [][op'[1] \in {"get", "len"} => M' = M]_vars
=============================================================================
