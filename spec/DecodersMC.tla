----------------------------- MODULE DecodersMC -----------------------------
EXTENDS Decoders, TLC

CONSTANTS Width
VARIABLES s, used
vars == <<s, used>>
Init == s \in {Begin("new"), Begin("old")} /\ used = FALSE
Next == \/ s.out = "none" /\ s.doc = "clean" /\ \E d \in Docs \ {"clean"} : s' = Damage(s, d) /\ UNCHANGED used
        \/ s.out = "none" /\ MayRefuse(s) /\ s' = Refuse(s) /\ UNCHANGED used
        \/ s.out = "none" /\ MayAccept(s) /\ s' = Accept(s) /\ UNCHANGED used
        \/ s.out # "none" /\ ~used /\ Usable(s) /\ used' = TRUE /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
Untouched == s.out = "refused" => s.has = s.into
Clean == s.doc = "clean" /\ s.out # "none" => s.out = "accepted"
Strict == s.doc \in {"counts", "empty"} => s.out # "accepted"
Useful == s.out = "accepted" => Usable(s)
Roots == {"Tracker", "Routes", "Sensors", "Packet"}
Listed == TLCGet("level") = 1 /\ s.into = "new" => \A r \in Roots : \A f \in All(r, "", Width) : PrintT("CASE " \o r \o " " \o f[1] \o " " \o f[2])
=============================================================================
