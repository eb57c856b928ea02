----------------------------- MODULE ReadersMC -----------------------------
(***************************************************************************)
(* All interleavings of a few changes and reads.  Readers return one of the *)
(* states they may have seen; what they return is whole and never goes back *)
(* in time.                                                                 *)
(***************************************************************************)
EXTENDS Readers, TLC, TLCExt

CONSTANTS NReaders, MaxWrites, MaxReads, PrintEdges

VARIABLES r, w, n, hist, last, op
(* hist: the pairs that were ever current; last: for each reader, the pair returned and whether a
   later read began after it *)
vars == <<r, w, n, hist, last, op>>
look == <<r, w, n>>
view == <<r, w, n, hist, last>>

Init == r = R0 /\ w = [i \in {0, 1} |-> 0] /\ n = [c \in 1..NReaders |-> 0] /\ hist = {<<1, 1>>}
        /\ last = [c \in 1..NReaders |-> <<1, 1>>] /\ op = <<"init", <<>>>>

Next ==
    \/ \E i \in {0, 1} : /\ w[i] < MaxWrites /\ i \notin r.open /\ w' = [w EXCEPT ![i] = @ + 1]
                         /\ r' = WriteBegin(r, i) /\ op' = <<"wB", <<i>>>> /\ UNCHANGED <<n, hist, last>>
    \/ \E i \in r.open : /\ r' = Effect(r, i) /\ hist' = hist \cup {<<r'.a, r'.b>>}
                         /\ op' = <<"wE", <<i>>>> /\ UNCHANGED <<w, n, last>>
    \/ \E c \in 1..NReaders : /\ n[c] < MaxReads /\ \A p \in r.pend : p[1] # c
                              /\ n' = [n EXCEPT ![c] = @ + 1] /\ r' = ReadBegin(r, c)
                              /\ op' = <<"rB", <<c>>>> /\ UNCHANGED <<w, hist, last>>
    \/ \E p \in r.pend : \E x \in p[2] :
         /\ r' = ReadEnd(r, p[1]) /\ last' = [last EXCEPT ![p[1]] = x]
         /\ op' = <<"rE", <<p[1]>>>> /\ UNCHANGED <<w, n, hist>>
Spec == Init /\ [][Next]_vars
Edges == PrintEdges => PrintT(<<"EDGE", op[1], TLCFP(look), op', "x", TLCFP(look')>>)

Whole == \A c \in 1..NReaders : last[c] \in hist
Monotone == [][\A c \in 1..NReaders : last'[c][1] >= last[c][1] /\ last'[c][2] >= last[c][2]]_vars
Current == [][op'[1] = "rB" => \A p \in r'.pend \ r.pend : p[2] = {<<r.a, r.b>>}]_vars
=============================================================================
