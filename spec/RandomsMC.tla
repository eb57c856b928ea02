----------------------------- MODULE RandomsMC -----------------------------
(* Every boundary value of the arguments; each is an initial state. *)
EXTENDS Randoms, TLC
VARIABLE c
Cases == {<<"route", <<n, v, p>>>> : n \in {-5, -1, 0, 1, 2, 3, 7}, v \in {-100, 0, 1, 9, 10, 11, 60, 120, 300, 599, 600, 601, 100000}, p \in 0..9}
         \cup {<<"poly", <<n, z>>>> : n \in {-3, -1, 0, 1, 2, 3, 4, 15, 16, 17, 500}, z \in {-5, 0, 1, 500, 1000, 1001, 100000}}
         \cup {<<"str", <<n>>>> : n \in {-1, 0, 1, 2, 8, 500}}
Init == c \in Cases
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Listed == PrintT(<<"CASE", c[1], c[2]>>)
Clamped == c[1] = "route" => /\ Level(c[2][2]) \in 10..600 /\ Level(Level(c[2][2])) = Level(c[2][2])
                             /\ NumTracks(c[2][1]) >= 0 /\ (c[2][1] >= 0 => NumTracks(c[2][1]) = c[2][1])
Order == \A v, w \in {-100, 0, 9, 10, 60, 599, 600, 601, 100000} : v <= w => Level(v) <= Level(w)
=============================================================================
