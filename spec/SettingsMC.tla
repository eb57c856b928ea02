----------------------------- MODULE SettingsMC -----------------------------
(***************************************************************************)
(* Every combination of boundary values; each is an initial state.          *)
(***************************************************************************)
EXTENDS Settings, TLC, FiniteSets

CONSTANTS Wide, PrintCases
VARIABLE c
W(S, T) == IF Wide THEN S \cup T ELSE S

Amps == W({-1, 0, 3, 4, 512, 513}, {1, 16, 100000})
Speeds == W({-1, 0, 1, 10, 9999, 10000, 10001}, {5, 15000, -10000, 5000})
Percents == W({-1, 0, 1, 500, 999, 1000, 1001}, {10, 250, 2000})
Charges == W({-1, 0, 1, 324000, 252000, 15}, {600, 864000})
Offs == W({-1, 0, 1, 9, 10, 3599, 3600, 3601}, {2, 100, 4000})
Eles == W({-1, 0, 10, 20, 499990, 500000, 500001}, {1, 35, 600000})
Modes == {0, 32768, 16384, 8192}
Cases ==
    (* Combinations whose lower end would leave the documented limits are not decided. *)
    {<<"model", <<n>>>> : n \in {0, 1, 2, 3, 4, 63, 64, 65, 255, 1000}} \cup
    {<<"name", <<n>>>> : n \in {0, 1, 2, 3, 4, 64, 255, 256, 257, 1000}} \cup
    {<<"speed", <<x, y, z>>>> : x \in Speeds, y \in Speeds, z \in Amps} \cup
    {<<"battery", <<x, y, z>>>> : x \in Percents, y \in Percents \ {-1}, z \in Charges} \cup
    {<<"sensor", <<n, x, y, z, m>>>> : n \in {0, 1, 300}, x \in {-50, 0, 35}, y \in {-50, 35, 1000}, z \in Amps, m \in Modes} \cup
    {<<"restore", <<u, n, x, 1000, z, m>>>> : u \in {0, 1}, n \in {0, 1, 300}, x \in {-50, 35}, z \in Amps, m \in Modes} \cup
    {<<"nav", <<s, x, y, 10, 3000, 8, 0>>>> : s \in {0, 1}, x \in Offs, y \in Offs \ {-1}} \cup
    {<<"nav", <<s, 2, 60, x, y, z, m>>>> : s \in {0, 1}, x \in Eles, y \in Eles \ {-1}, z \in Amps, m \in Modes}
Decided(k) == k[1] = "nav" => /\ (k[2][2] > k[2][3] => k[2][3] >= 1)
                              /\ (k[2][4] > k[2][5] => k[2][5] >= 10)

Init == c \in {k \in Cases : Decided(k)}
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

R == Make(c[1], c[2])
Listed == PrintCases => PrintT(<<"CASE", c[1], c[2]>>)

(* What is accepted lies within the limits ... *)
Within ==
    R # Err =>
    CASE c[1] = "speed" -> 0 < R[3] /\ 0 <= R[2] /\ R[2] <= R[3] /\ R[3] <= 10000
      [] c[1] = "battery" -> 0 <= R[2] /\ R[2] <= R[3] /\ R[3] <= 1000 /\ R[4] > 0
      [] c[1] = "nav" -> /\ (c[2][1] = 0 => 0 <= R[3] /\ R[3] <= R[4] /\ 0 < R[4] /\ R[4] <= 3600)
                         /\ 0 <= R[5] /\ R[5] <= R[6] /\ 0 < R[6] /\ R[6] <= 500000
      [] OTHER -> TRUE
(* ... and is not changed when it already does. *)
Stable ==
    R # Err =>
    CASE c[1] = "speed" -> Speed(R[2], R[3], 16) = R
      [] c[1] = "battery" -> Battery(R[2], R[3], R[4]) = R
      [] c[1] = "nav" /\ c[2][1] = 0 -> Navigator(0, R[3], R[4], R[5], R[6], 8, R[7]) = R
      [] OTHER -> TRUE
Kept == /\ (c[1] = "speed" /\ 0 <= c[2][1] /\ c[2][1] <= c[2][2] /\ c[2][2] <= 10000 /\ 0 < c[2][2] /\ Amp(c[2][3]))
              => R = <<1, c[2][1], c[2][2]>>
        /\ (c[1] = "battery" /\ 0 <= c[2][1] /\ c[2][1] <= c[2][2] /\ c[2][2] <= 1000 /\ c[2][3] > 0) => R = <<1>> \o c[2]
=============================================================================
