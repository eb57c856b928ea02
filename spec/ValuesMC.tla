------------------------------ MODULE ValuesMC ------------------------------
(* A generator and its copies.  Values are named by their place plus one. *)
EXTENDS Values, TLC, TLCExt
CONSTANTS NP, NG, PrintEdges

VARIABLES gs, op, res
vars == <<gs, op, res>>
view == gs
V == {<<n + 1, n>> : n \in 0..Top}

Init == /\ \E s, e \in BOOLEAN : gs = <<Make(s, e, FALSE, NP)>>
        /\ op = <<"init", <<>>>> /\ res = 0
Next == \E i \in 1..Len(gs) :
    \/ \E p \in 1..NP : \E v \in V :
          /\ Gives(gs[i], p, v) /\ gs' = [gs EXCEPT ![i] = Asked(@, p, v)] /\ res' = v[1] /\ op' = <<"q", <<i, p>>>>
    \/ gs' = [gs EXCEPT ![i] = Shuffled(@)] /\ op' = <<"sh", <<i>>>> /\ res' = 0
    \/ gs' = gs /\ op' = <<"val", <<i>>>> /\ res' = gs[i].last
    \/ Len(gs) < NG /\ gs' = Append(gs, gs[i]) /\ op' = <<"fork", <<i>>>> /\ res' = 0
Spec == Init /\ [][Next]_vars
(* What the programs need of a state is which values are known, not which they are. *)
Shape == [i \in 1..Len(gs) |-> [p \in 1..NP |-> gs[i].memo[p] # 0]]
look == Shape
Edges == PrintEdges => PrintT(<<"EDGE", op[1], TLCFP(Shape), op', "x", TLCFP(Shape')>>)

InRange == \A i \in 1..Len(gs) : \A p \in 1..NP : gs[i].memo[p] \in 0..Top + 1
Modes == \A i \in 1..Len(gs) : \A p \in 1..NP : AtMin(gs[i], p) => gs[i].memo[p] \in {0, 1}
Fixed == [][\A i \in 1..Len(gs) : \A p \in 1..NP :
              gs'[i].memo[p] # gs[i].memo[p] => gs[i].memo[p] = 0 \/ op'[1] = "sh"]_vars
Apart == [][\A i \in 1..Len(gs) : op'[2][1] # i => gs'[i] = gs[i]]_vars
=============================================================================
