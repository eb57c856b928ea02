--------------------------- MODULE GeneratorTrace ---------------------------
(***************************************************************************)
(* Executions of the real generator, one per line of the trace file.  The   *)
(* recorded events are the calls and returns of the user and the beginning  *)
(* and end of callbacks; when a tick begins and ends and when a call takes  *)
(* effect is not recorded, and TLC looks for moments that explain the       *)
(* record.  A trace conforms when it can be explained to its end: then its  *)
(* number is printed.                                                       *)
(***************************************************************************)
EXTENDS Generator, SequencesExt, TLC, Json, IOUtils

CONSTANTS Prop,
          Show    \* print how far each trace is explained

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, g,
          calls,   \* calls under way: <<name, tracker, argument, "new" or result, number>>
          dur,     \* last known duration of each tracker, -1 when not known, -2 while it is looked at
          sum, wp, tk  \* elapsed time ticked, time of the last tick, its length

vars == <<tid, l, g, calls, dur, sum, wp, tk>>

Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, tol) == Abs(x - y) <= tol

H == Traces[tid]
Ev == H.steps[l + 1]
CbP == H.cb[1] = 1
CbE == H.cb[3] = 1

Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ g = G0 /\ calls = {}
        /\ dur = [i \in 1..Len(Traces[tid].kinds) |-> 0]
        /\ sum = 0 /\ wp = 0 /\ tk = -1   \* not running yet

More == l < Len(H.steps)
Is(name) == More /\ Ev.op = name
Read == l' = l + 1 /\ tid' = tid
Quiet == UNCHANGED <<dur, sum, wp, tk>>

Forget(f, S) == [i \in DOMAIN f |-> IF (i - 1) \in S /\ f[i] # -2 THEN -1 ELSE f[i]]

-----------------------------------------------------------------------------
(* C10: a tracker attached during the run gets the time since the tick before, which is not longer ago
   than the interval and what the machine may be late (three seconds allowed), not the time that went
   by before. *)
Late(w) == w - H.ms \div 100 - 30

Call == \/ /\ Is("attC") /\ calls' = calls \cup {<<"att", Ev.x, 0, "new", Ev.c>>} /\ Read /\ g' = g
           /\ IF Prop = "C10" THEN sum' = Late(Ev.w) /\ wp' = -1 /\ UNCHANGED <<dur, tk>> ELSE Quiet
        \/ /\ Is("detC") /\ calls' = calls \cup {<<"det", Ev.x, 0, "new", Ev.c>>} /\ Quiet /\ Read /\ g' = g
        \/ /\ Is("badC") /\ calls' = calls \cup {<<"bad", Ev.x, Ev.bad, "new", Ev.c>>} /\ Read /\ g' = g
           /\ dur' = Forget(dur, {Ev.x}) /\ UNCHANGED <<sum, wp, tk>>

(* What is hidden may be put off until it matters, and what can only give more freedom later is
   done at once; this leaves few orders to look at.

   A tick begins, and a call takes effect, only when the next event depends on it.  The end of a
   tick that was reported completely comes first. *)
Fresh == \E c \in calls : c[4] = "new"
Reports == More /\ Ev.op \in {"pB", "eB"}
Answers == More /\ Ev.op \in {"attR", "detR", "badR"}
Steps == More /\ Ev.op = "nB" /\ Prop = "C21"

Over == g.run # "no" /\ g.todo = {} /\ g.act = 0 /\ (g.cur # <<>> \/ g.run = "send")
Ended == [g EXCEPT !.run = "send"]

(* A call takes effect. *)
Effect == \E c \in calls :
            /\ ~Over /\ (Reports \/ Answers) = TRUE
            /\ c[4] = "new" /\ l' = l /\ tid' = tid /\ Quiet
            /\ LET r == CASE c[1] = "att" -> Attach(g, c[2])
                          [] c[1] = "det" -> Detach(g, c[2])
                          [] OTHER -> <<SetBad(g, c[2], c[3] = 1), 1>>
               IN g' = r[1] /\ calls' = (calls \ {c}) \cup {<<c[1], c[2], c[3], IF r[2] = 1 THEN "1" ELSE "0", c[5]>>}

Answer == \/ /\ Is("attR") /\ \E c \in calls : c[5] = Ev.c /\ c[4] = ToString(Ev.r) /\ calls' = calls \ {c}
             /\ Quiet /\ Read /\ g' = g
          \/ /\ Is("detR") /\ \E c \in calls : c[5] = Ev.c /\ c[4] = ToString(Ev.r) /\ calls' = calls \ {c}
             /\ Quiet /\ Read /\ g' = g
          \/ /\ Is("badR") /\ \E c \in calls : c[5] = Ev.c /\ c[4] = "1" /\ calls' = calls \ {c}
             /\ dur' = Forget(dur, {Ev.x}) /\ UNCHANGED <<sum, wp, tk>> /\ Read /\ g' = g

Hidden == /\ l' = l /\ tid' = tid /\ calls' = calls /\ UNCHANGED <<sum, wp, tk>> /\ More
          /\ \/ /\ (Over \/ (g.run # "no" /\ (Reports \/ Answers \/ Steps))) = TRUE
                /\ g' \in TickEnd(Ended, CbP, CbE)
                /\ \E M \in {Missing(g)} : dur' = Forget(dur, M)   \* (evaluated once)
             \/ /\ tk >= 0 /\ ~Over /\ (Reports \/ (Answers /\ Fresh) \/ (Steps /\ g.np = 0)) = TRUE
                /\ g' \in TickBegin(g) /\ dur' = dur

-----------------------------------------------------------------------------
(* Packets: the trackers in order (q), an entry <<tracker, duration, tick, distance>> for each, in
   tenths of a second and millimetres (p), and the durations by tracker, -1 for others (d; empty for
   a packet with few of many trackers). *)

Known(f, e) == IF f[e[1] + 1] = -2 THEN f ELSE [f EXCEPT ![e[1] + 1] = e[2]]

Entry(e, spd) ==
    LET d == dur[e[1] + 1] IN
    IF H.kinds[e[1] + 1] = 1 THEN e[2] = 0
    ELSE \* a tick may be missed for the moment by a tracker that is looked at or set meanwhile
         /\ IF d < 0 THEN TRUE ELSE e[3] >= 10 /\ Near(e[2], d + e[3], 1)
         /\ IF H.kinds[e[1] + 1] = 2   \* time goes by for a tracker that is offline, and the way it makes is not longer
              THEN e[4] >= 0 /\ e[4] <= (e[2] * spd) \div 10 + spd \div 10 + 5
              ELSE Near(e[4], (e[2] * spd) \div 10, spd \div 10 + 5)

WellFormed(ok) ==
    CASE Prop = "C22" -> ok = 1
      [] Prop = "C16" -> ok \in {1, 2}
      [] OTHER -> ok \in {1, 2, 4}

(* C10: what was ticked so far is the time that went by, up to the beginning of the tick before. *)
RealTime(t) == Prop = "C10" =>
    /\ sum + t <= Ev.w + 3
    /\ wp >= 0 => sum + t >= wp - 10
    /\ t >= 10

PacketB ==
    /\ Is("pB") /\ Read /\ calls' = calls /\ WellFormed(Ev.ok)
    /\ IF Prop = "C16"
         THEN /\ Ev.n >= 1 /\ Ev.n <= H.size /\ ~g.ret
              /\ g' = [g EXCEPT !.act = @ + 1] /\ UNCHANGED <<dur, sum, wp, tk>>
         ELSE /\ g.run # "no" /\ ~Over
              /\ g' \in PacketBegin(Ended, Ev.q, H.size)
              /\ (\A i \in 1..Len(Ev.p) : Entry(Ev.p[i], H.spd)) = TRUE
              /\ dur' = IF Len(Ev.d) < Len(dur) THEN FoldLeft(Known, dur, Ev.p) ELSE [i \in DOMAIN dur |-> IF Ev.d[i] >= 0 /\ dur[i] # -2 THEN Ev.d[i] ELSE dur[i]]
              /\ LET m == IF Prop # "C10" THEN {} ELSE {i \in 1..Len(Ev.p) : H.kinds[Ev.p[i][1] + 1] = 0} IN
                 IF m # {}
                   THEN LET t == Ev.p[CHOOSE i \in m : TRUE][3] IN
                        /\ \A i \in m : Ev.p[i][3] = t
                        /\ RealTime(t) /\ tk' = t
                        /\ sum' = (IF wp = -1 THEN Late(Ev.w) ELSE sum + t)
                        /\ wp' = (IF wp = -1 THEN -1 ELSE Ev.w)
                   ELSE UNCHANGED <<sum, wp, tk>>

Callback ==
    \/ PacketB
    \/ Is("pE") /\ Read /\ calls' = calls /\ Quiet /\ g' \in PacketEnd(g)
    \/ Is("eB") /\ Read /\ calls' = calls /\ Quiet /\ Ev.ok = 1
       /\ (IF Prop = "C16" THEN g' = [g EXCEPT !.act = @ + 1] /\ ~g.ret ELSE g.run # "no" /\ g' \in ErrorBegin(Ended))
    \/ Is("eE") /\ Read /\ calls' = calls /\ Quiet /\ g' \in ErrorEnd(g)
    \/ Is("nB") /\ Read /\ calls' = calls /\ Quiet
       /\ (IF Prop = "C16" THEN g' = [g EXCEPT !.nr = TRUE] /\ ~g.ret ELSE
           IF Prop \in {"C21"} THEN g' \in NextBegin(g) ELSE g' = [g EXCEPT !.nr = TRUE])
    \/ Is("nE") /\ Read /\ calls' = calls /\ Quiet /\ g' \in NextEnd(g)

Rest ==
    \/ Is("attN") /\ Read /\ calls' = calls /\ Quiet /\ Ev.r = 1 /\ g' = [g EXCEPT !.att = @ \o Ev.xs]
    \/ Is("run") /\ Read /\ UNCHANGED <<g, calls, dur>> /\ sum' = Ev.w /\ wp' = Ev.w /\ tk' = 0
    \/ Is("lookB") /\ Read /\ UNCHANGED <<g, calls, sum, wp, tk>> /\ dur' = [dur EXCEPT ![Ev.x + 1] = -2]
    \/ Is("lookE") /\ Read /\ UNCHANGED <<g, calls, sum, wp, tk>> /\ dur' = [dur EXCEPT ![Ev.x + 1] = -1]
    \/ Is("clC") /\ Read /\ calls' = calls /\ Quiet /\ g' = Close(g)
    \/ Is("clR") /\ Read /\ calls' = calls /\ Quiet /\ g' = g
    \/ Is("ret") /\ Read /\ calls' = calls /\ Quiet /\ g' \in Return(g)
    \/ /\ Is("end") /\ Read /\ calls' = calls /\ Quiet /\ g' = g
       /\ Prop = "C16" => (Ev.lk = 0 /\ Ev.use = 1)
       /\ Prop = "C22" => Ev.chg = 0                            \* packets stay as they were delivered
       /\ Ev.att = g.att

(* In a run that ends by closing, what is hidden need not go on after the return. *)
HiddenTick == Hidden /\ ~g.ret /\ Prop # "C16"

Next == Call \/ Effect \/ Answer \/ HiddenTick \/ Callback \/ Rest

Spec == Init /\ [][Next]_vars

(* Explained to the end. *)
Done == (l = Len(H.steps)) => PrintT(<<"DONE", tid>>)
How == Show => PrintT(<<"AT", tid, l>>)
=============================================================================
