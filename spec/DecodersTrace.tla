---------------------------- MODULE DecodersTrace ----------------------------
(* Decoders of the library on damaged documents, against Decoders.           *)
EXTENDS Decoders, TLC, Json, IOUtils

CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, ok
vars == <<tid, l, ok>>
T == Traces[tid]

(* e.same: the target is as before; e.got: something was returned; e.use[i]:  *)
(* a use of the result came to an end, and encodings of it had no error.      *)
Allowed(e) ==
    LET s0 == Damage(Begin(IF e.into = 1 THEN "old" ELSE "new"), e.doc)
        s == IF e.r = 1 THEN Accept(s0) ELSE Refuse(s0)
    IN /\ e.op = "decode"
       /\ (e.r = 1 => MayAccept(s0)) /\ (e.r = 0 => MayRefuse(s0))
       /\ (s.has = s.into) => e.same = 1
       /\ (e.got = 1) = (s.out = "accepted")
       /\ ("fc" \in DOMAIN e => e.fc = 1)   \* a feature collection or an error, not both or neither
       /\ Usable(s) => e.use # <<>> /\ \A i \in 1..Len(e.use) : e.use[i] = 1

Init == tid \in 1..Len(Traces) /\ l = 0 /\ ok = TRUE
Next == /\ ok /\ l < Len(T.steps) /\ l' = l + 1 /\ tid' = tid
        /\ ok' = (Allowed(T.steps[l + 1]) = TRUE)
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
