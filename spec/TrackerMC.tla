----------------------------- MODULE TrackerMC -----------------------------
(***************************************************************************)
(* Exhaustive exploration of Tracker for a small catalogue.  The explored   *)
(* transitions are also printed (Edges), and become the test programs that  *)
(* are replayed on the code.                                                *)
(***************************************************************************)
EXTENDS Tracker, TLC, TLCExt

CONSTANTS Ops,        \* names of the enabled operations
          RouteSet,   \* identifiers of the routes that may be added
          Ticks,      \* tick lengths in tenths of a second
          Jumps,      \* distances
          OMin, OMax, Skip, BMin, Ct,
          KeepTime, KeepBattery,
          MaxCd, MaxPend, MaxDur, PrintEdges

Cat == << [len |-> <<1400, 0, 2400>>, gap |-> <<0, 0, 0>>],
          [len |-> <<2700>>,          gap |-> <<0>>],
          [len |-> <<1800, 3900>>,    gap |-> <<1, 0>>],
          [len |-> <<600>>,           gap |-> <<0>>],
          [len |-> <<700, 1300, 2100>>, gap |-> <<0, 1, 0>>],
          [len |-> <<0>>,             gap |-> <<0>>] >>
RouteTracks == << <<0, 1>>, <<2>>, <<3, 4>>, <<>>, <<5, 0>> >>
Speed == 1000
Cfg == [omin |-> OMin, omax |-> OMax, skip |-> Skip, bmin |-> BMin, ct |-> Ct, ctf |-> 0]

VARIABLES s,       \* the tracker
          sens,    \* its sensors
          op,      \* the last call: <<name, arguments>>
          kind     \* and its outcome

vars == <<s, sens, op, kind>>
view == <<s, sens>>
(* What distinguishes test programs: everything but the distances of the upper levels. *)
look == <<s.rts, s.ri, s.ti, s.si, s.sd, s.off, s.bv, s.pend, sens>>

Init == /\ s = [rts |-> <<>>, ri |-> 0, ti |-> 0, si |-> 0, sd |-> 0, td |-> 0, rd |-> 0, cd |-> 0,
                off |-> 0, dur |-> 0, bv |-> 0, pend |-> 0]
        /\ sens = <<>>
        /\ op = <<"init", <<>>>> /\ kind = "init"

Norm(x) == [x EXCEPT !.dur = IF KeepTime THEN @ ELSE 0, !.bv = IF KeepBattery THEN @ ELSE 0]

Result(name, args, x) ==
    /\ op' = <<name, args>> /\ kind' = x.kind
    /\ \E o \in x.offs : s' = Norm([x.s EXCEPT !.off = o])
    /\ sens' = sens

ExactFit(step) ==
    LET lens == CurLens(Cat, s) IN
    [k \in 1..Len(lens) |-> {lens[k] > 0 /\ (IF k - 1 = s.si THEN s.sd ELSE 0) + step <= lens[k]}]

Low(el) == IF KeepBattery THEN {(s.bv + el) * 1000 >= Ct * (10000 - BMin)} ELSE {FALSE}

DoNext == "next" \in Ops /\ \E tk \in Ticks :
            LET el == 10 * s.pend + tk
                step == (Speed * el) \div 10
            IN \E x \in Tick(Cat, Cfg, s, tk, step, ExactFit(step), Low(el)) : Result("next", <<tk>>, x)

DoBusy == "busy" \in Ops /\ s.rts # <<>> /\ \E tk \in Ticks :
            Result("busy", <<tk>>, Outcome(Missed(s, tk), "busy", 0, {s.off}))

DoAdd == "addR" \in Ops /\ \E id \in RouteSet \cup {-1} :
            Result("addR", <<id>>, AddRoutes(s, <<id>>, <<IF id = -1 THEN <<>> ELSE RouteTracks[id + 1]>>))
DoAdd2 == "addR2" \in Ops /\ \E id, jd \in RouteSet :
            Result("addR", <<id, jd>>, AddRoutes(s, <<id, jd>>, <<RouteTracks[id + 1], RouteTracks[jd + 1]>>))
DoRemove == "rmR" \in Ops /\ \E id \in RouteSet : Result("rmR", <<id>>, RemoveRoute(s, id))
DoRemoveTrack == "rmT" \in Ops /\ \E id \in RouteSet : \E i \in 1..Len(RouteTracks[id + 1]) :
            Result("rmT", <<id, RouteTracks[id + 1][i]>>, RemoveTrack(s, id, RouteTracks[id + 1][i]))
DoResetRoutes == "rstR" \in Ops /\ Result("rstR", <<>>, ResetRoutes(s))
DoReset == "rstN" \in Ops /\ Result("rstN", <<>>, Outcome(Restart(s), "reset", 1, {s.off}))

Idx == -1..3
DoMove == "mvS" \in Ops /\ \E r, t, k \in Idx :
            /\ r <= Len(s.rts) /\ t < 3 /\ Result("mvS", <<r, t, k>>, MoveTo(Cat, s, r, t, k))
DoMoveTrackId == "mvTid" \in Ops /\ \E id \in RouteSet : \E i \in 1..Len(RouteTracks[id + 1]) :
            Result("mvTid", <<id, RouteTracks[id + 1][i]>>, MoveToTrackId(Cat, s, id, RouteTracks[id + 1][i]))
DoNextRoute == "nxt" \in Ops /\ Result("nxt", <<>>, ToNext(Cat, s))
DoPrevRoute == "prv" \in Ops /\ Result("prv", <<>>, ToPrev(Cat, s))
DoJump == "jump" \in Ops /\ \E d \in Jumps : \E x \in {Jump(Cat, s, d, 0, 0)} : \E y \in x :
            Result("jump", <<d>>, y)
AddedSensors == UNION {{<<i>>, <<i, j>>} : i, j \in {-1, 0, 1}}
DoSensors == \/ /\ "addS" \in Ops
                /\ \E ids \in AddedSensors : /\ sens' = AddSensors(sens, ids) /\ s' = s
                                             /\ op' = <<"addS", ids>> /\ kind' = "sensors"
             \/ /\ "rmS" \in Ops
                /\ \E i \in {0, 1} : /\ sens' = RemoveSensor(sens, i) /\ s' = s
                                     /\ op' = <<"rmS", <<i>>>> /\ kind' = "sensors"
             \/ "rstS" \in Ops /\ sens' = <<>> /\ s' = s /\ op' = <<"rstS", <<>>>> /\ kind' = "sensors"
DoSilent == \E n \in {"upd", "snap", "fork"} \cap Ops : Result(n, <<>>, Outcome(s, "silent", 1, {s.off}))
DoOff == "off" \in Ops /\ Result("off", <<>>, Outcome(s, "off", 1, Draws(Cfg, s)))

Next == \/ DoNext \/ DoBusy \/ DoAdd \/ DoAdd2 \/ DoRemove \/ DoRemoveTrack \/ DoResetRoutes \/ DoReset
        \/ DoMove \/ DoMoveTrackId \/ DoNextRoute \/ DoPrevRoute \/ DoJump \/ DoOff
        \/ DoSensors \/ DoSilent

Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(DoNext)

Bound == s.cd <= MaxCd /\ s.pend <= MaxPend /\ s.dur <= MaxDur

Edges == PrintEdges => PrintT(<<"EDGE", op[1], TLCFP(look), op', kind', TLCFP(look')>>)

-----------------------------------------------------------------------------
HasRoutes == s.rts # <<>>

(* C01, C04: the position exists and the odometers are inside it. *)
PositionExists == HasRoutes =>
    /\ s.ri < Len(s.rts)
    /\ CurTracks(s) # <<>> => (HasTrack(s) /\ s.si < Len(CurLens(Cat, s)))
OnSegment == ValidPos(Cat, s) => s.sd >= 0 /\ s.sd <= CurLens(Cat, s)[s.si + 1]
Odometers == s.cd >= s.rd /\ s.rd >= s.td /\ s.td >= s.sd
JumpExact == [][(op'[1] = "jump" /\ kind' = "moved") =>
    \E i \in 1..Len(Flat(Cat, s.rts, 1, 0)) :
       LET x == Flat(Cat, s.rts, 1, 0)[i] IN
       /\ x.r = s'.ri /\ x.t = s'.ti /\ x.k = s'.si
       /\ x.at + s'.sd = Min2(op'[2][1], TotalLen(Cat, s.rts))
       /\ x.rat + s'.sd = s'.rd /\ x.tat + s'.sd = s'.td /\ s'.cd = x.at + s'.sd]_vars
JumpTotal == [][(op'[1] = "jump" /\ op'[2][1] >= 1000 /\ TotalLen(Cat, s.rts) >= 1000) => kind' = "moved"]_vars

(* C03 *)
OfflineBounds == s.off >= 0 /\ s.off <= OMax /\ (Skip = 1 => s.off = 0)
OfflineStands == [][(op'[1] = "next" /\ s.off > 0 /\ HasRoutes /\ kind' = "offline" /\ s'.off = s.off - 1) =>
                      s' = [s EXCEPT !.off = @ - 1, !.dur = s'.dur, !.bv = s'.bv, !.pend = 0]]_vars
OfflineCounts == [][(op'[1] = "next" /\ s.off > 0 /\ HasRoutes /\ ~KeepBattery) => s'.off = s.off - 1]_vars
OfflineCauses == [][(s'.off > s.off) => \/ op'[1] = "off" \/ kind' \in {"gap", "track", "route", "lap"}
                                        \/ (KeepBattery /\ s'.bv = 0)]_vars

(* C02: ticks only go forward, and a lap ends where it began. *)
Rank(x) == <<x.ri, x.ti, x.si, x.sd>>
Before(a, b) == \/ a[1] < b[1]
                \/ a[1] = b[1] /\ a[2] < b[2]
                \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
                \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3] /\ a[4] <= b[4]
Forward == [][op'[1] = "next" => (kind' = "lap" \/ Before(Rank(s), Rank(s')))]_vars
LapOnlyAtEnd == [][kind' = "lap" => /\ s.ri = Len(s.rts) - 1
                                    /\ s.ti + 1 >= Len(CurTracks(s))
                                    /\ s'.cd = 0 /\ s'.dur = 0 /\ Rank(s') = <<0, 0, 0, 0>>]_vars
StepExact == [][(op'[1] = "next" /\ kind' = "moved") =>
                   /\ s'.cd - s.cd = (Speed * (10 * s.pend + op'[2][1])) \div 10
                   /\ s'.rd - s.rd = s'.cd - s.cd /\ s'.td - s.td = s'.cd - s.cd
                   /\ (s'.si = s.si => s'.sd - s.sd = s'.cd - s.cd)
                   /\ (s'.si # s.si => s'.sd = s'.cd - s.cd)]_vars

(* C05 *)
MoveExact == [][(op'[1] \in {"mvS", "mvTid", "nxt", "prv"}) =>
                   IF kind' = "refused" THEN s' = s
                   ELSE /\ s'.sd = 0 /\ s'.off = 0 /\ s'.cd = s.cd /\ s'.dur = s.dur
                        /\ Rank(s') # Rank([s EXCEPT !.sd = 0])]_vars

(* C06 *)
UniqueRoutes == \A i, j \in 1..Len(s.rts) : i # j => s.rts[i][1] # s.rts[j][1]
ChangeRestarts == [][(op'[1] \in {"addR", "rmR", "rmT", "rstR"}) =>
                        IF s'.rts = s.rts THEN s' = s
                        ELSE Rank(s') = <<0, 0, 0, 0>> /\ s'.cd = 0 /\ s'.rd = 0 /\ s'.td = 0]_vars

(* C09, C10 *)
BatteryBound == KeepBattery => s.bv * 1000 < Ct * (10000 - BMin)
TimeExact == [][(KeepTime /\ op'[1] = "next" /\ HasRoutes /\ kind' # "lap") =>
                  s'.dur = s.dur + 10 * s.pend + op'[2][1] /\ s'.pend = 0]_vars

(* C19 *)
UniqueSensors == \A i, j \in 1..Len(sens) : sens[i] >= 0 /\ (i # j => sens[i] # sens[j])

(* Ticking alone always comes round again. *)
Laps == (HasRoutes ~> (kind = "lap"))
=============================================================================
