---------------------------- MODULE TrackerTrace ----------------------------
(***************************************************************************)
(* Executions of the real tracker, one per line of the trace file, checked  *)
(* step by step against Tracker.  Every step starts from the state observed *)
(* before it; what the observed state after it may be is what the           *)
(* specification says.  Prop selects the property whose part of the         *)
(* observation is compared.                                                 *)
(***************************************************************************)
EXTENDS Tracker, TLC, Json, IOUtils

CONSTANT Prop

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, pend, ok
vars == <<tid, l, pend, ok>>

BAD == -999999999
Near(x, y, tol) == x # BAD /\ y # BAD /\ Abs(x - y) <= tol

(* The abstract state of an observation. *)
St(o, p) == [rts |-> o.rts, ri |-> o.p[1], ti |-> o.p[2], si |-> o.p[3],
             sd |-> o.sd, td |-> o.td, rd |-> o.rd, cd |-> o.cd,
             off |-> o.off, dur |-> o.dur, bv |-> o.bv, pend |-> p]

-----------------------------------------------------------------------------
TOL == 4                                     \* millimetres

ElapsedOf(p, op) == 10 * p + op.tk           \* tenths of a second
StepOf(op, o, p) ==                          \* speed times elapsed time, in mm
    LET el == ElapsedOf(p, op)
    IN o.spd * (el \div 10) + (o.spd * (el % 10)) \div 10 + (o.spf * (el \div 10)) \div 1000

Fits(C, s, step, ff) ==
    LET lens == CurLens(C, s) IN
    [k \in 1..Len(lens) |->
        LET from == (IF k - 1 = s.si THEN s.sd ELSE 0)
            d    == from + step - lens[k]
        IN IF lens[k] = 0 THEN {FALSE}
           ELSE IF d > TOL THEN {FALSE}
           ELSE IF d < -TOL THEN {TRUE}
           ELSE IF k <= Len(ff) /\ ff[k] = 1 THEN {TRUE}
           ELSE IF k <= Len(ff) /\ ff[k] = 0 THEN {FALSE}
           ELSE {TRUE, FALSE}]

(* Everything the specification allows this tick to do. *)
TickOutcomes(h, op, a, b, p) ==
    LET s == St(a, p)
        step == StepOf(op, b, p)
    IN Tick(h.cat, h.cfg, s, op.tk, step, Fits(h.cat, s, step, op.ff), IsLow(h.cfg, a.bv + ElapsedOf(p, op), op.bx))

JumpTol(h) == 4 + Len(h.cat) * 2

MoveOutcome(h, op, a, p) ==
    LET s == St(a, p) IN
    CASE op.op = "mvS"   -> MoveTo(h.cat, s, op.a[1], op.a[2], op.a[3])
      [] op.op = "mvTid" -> MoveToTrackId(h.cat, s, op.id, op.t)
      [] op.op = "mvRid" -> MoveToRouteId(h.cat, s, op.id)
      [] op.op = "nxt"   -> ToNext(h.cat, s)
      [] op.op = "prv"   -> ToPrev(h.cat, s)

MoveOps == {"mvS", "mvTid", "mvRid", "nxt", "prv"}

RouteOutcome(op, a, p) ==
    LET s == St(a, p) IN
    CASE op.op = "addR" -> AddRoutes(s, op.ids, op.has)
      [] op.op = "rmR"  -> RemoveRoute(s, op.id)
      [] op.op = "rmT"  -> RemoveTrack(s, op.id, op.t)
      [] op.op = "rstR" -> ResetRoutes(s)

RouteOps == {"addR", "rmR", "rmT", "rstR"}
DirectOps == {"xAdd", "xDel", "xCol"}

(* Operations that leave position, odometers, time and offline status alone. *)
StillOps == {"busy", "addS", "rmS", "rstS", "upd", "set", "snap", "fork", "take", "xCol"}

SamePos(a, b)  == a.p = b.p
SameOdo(a, b)  == a.sd = b.sd /\ a.td = b.td /\ a.rd = b.rd /\ a.cd = b.cd
SameAll(a, b)  == a.dg = b.dg /\ a.pdg = b.pdg
PosIs(s, b)    == b.p = <<s.ri, s.ti, s.si>>
OdoIs(s, b, tol) == Near(b.sd, s.sd, tol) /\ Near(b.td, s.td, tol) /\ Near(b.rd, s.rd, tol) /\ Near(b.cd, s.cd, tol)

-----------------------------------------------------------------------------
(* C01: a tracker is always on its route. *)

OnRoute(h, op, a, b) ==
    LET s == St(b, 0) IN
    /\ ValidPos(h.cat, s)
    /\ b.cur[1] = b.rts[s.ri + 1][1] /\ b.cur[2] = CurTrack(s)
    /\ LET len == CurLens(h.cat, s)[s.si + 1]
           firstStep == op.op = "next" /\ a.sz = 1 /\ a.p[3] = 0 /\ b.p = a.p
       IN /\ b.sd >= 0 /\ b.sd <= len + TOL
          /\ len > 0 => (b.cur[3] = s.si /\ Near(b.sl, len, TOL))
          /\ Near(b.la, 0, 20)
          /\ IF firstStep THEN Near(b.al, 1000, 20) ELSE Near(b.al, b.sd, 20)
          /\ len > 100 => Near(b.be, 0, 3)

C01(h, op, a, b, p) ==
    (op.r = 1 /\ op.op \in MoveOps \cup {"next", "jump"}) => OnRoute(h, op, a, b)

(* C02: ticks advance along the routes in order. *)

C02(h, op, a, b, p) ==
    CASE op.op = "next" ->
           \E x \in TickOutcomes(h, op, a, b, p) :
              /\ x.r = op.r /\ PosIs(x.s, b) /\ OdoIs(x.s, b, TOL)
              /\ Near(b.dur, x.s.dur, 1)
              /\ x.kind = "lap" => b.cd = 0 /\ b.dur = 0
      [] op.op \in StillOps \cup {"off"} -> SamePos(a, b) /\ SameOdo(a, b) /\ a.dur = b.dur
      [] op.op = "jump" -> a.dur = b.dur
      [] OTHER -> a.dur = b.dur

(* C03: offline periods. *)

C03(h, op, a, b, p) ==
    /\ b.iso = (IF b.off > 0 THEN 1 ELSE 0)
    /\ h.cfg.skip = 1 => b.off = 0
    /\ CASE op.op = "next" ->
              /\ \E x \in TickOutcomes(h, op, a, b, p) :
                    /\ x.r = op.r /\ b.off \in x.offs
                    /\ PosIs(x.s, b)
                    /\ x.kind = "offline" => SameOdo(a, b) /\ a.loc = b.loc
              /\ b.rts # <<>> => (b.pub.off = b.off /\ b.pub.iso = b.iso)
         [] op.op = "off" -> b.off \in Draws(h.cfg, St(a, p)) /\ SamePos(a, b) /\ SameOdo(a, b) /\ a.loc = b.loc
         [] op.op \in MoveOps -> b.off = IF op.r = 1 THEN 0 ELSE a.off
         [] OTHER -> b.off = a.off

(* C04: jumps. *)

C04(h, op, a, b, p) ==
    op.op = "jump" =>
       \E x \in Jump(h.cat, St(a, p), op.d, op.ex, JumpTol(h)) :
          /\ x.r = op.r
          /\ IF op.r = 0 THEN SameAll(a, b)
             ELSE /\ PosIs(x.s, b) /\ OdoIs(x.s, b, JumpTol(h))
                  /\ b.off = a.off /\ b.iso = a.iso /\ b.dur = a.dur /\ b.bv = a.bv
                  /\ b.rts = a.rts /\ b.ver = a.ver
                  /\ Near(b.al, b.sd, 20) /\ Near(b.la, 0, 20)

(* C05: moves. *)

C05(h, op, a, b, p) ==
    op.op \in MoveOps =>
       LET x == MoveOutcome(h, op, a, p) IN
       /\ x.r = op.r
       /\ IF op.r = 0 THEN SameAll(a, b)
          ELSE /\ PosIs(x.s, b) /\ OdoIs(x.s, b, 0)
               /\ b.off = 0 /\ b.iso = 0 /\ b.dur = a.dur /\ b.bv = a.bv
               /\ b.rts = a.rts /\ b.ver = a.ver
               /\ Near(b.al, 0, 2) /\ Near(b.la, 0, 2)

(* C06: the route set and its totals. *)

Totals(h, o) ==
    /\ o.nr = Len(o.rts) /\ Len(o.rdl) = Len(o.rts)
    /\ \A i \in 1..Len(o.rts) : \A j \in 1..Len(o.rts) : i # j => o.rts[i][1] # o.rts[j][1]
    /\ \A i \in 1..Len(o.rts) : \A j \in 1..Len(o.rts[i]) : o.rts[i][j] # -1
    /\ Near(o.tot, TotalLen(h.cat, o.rts), JumpTol(h))
    /\ \A i \in 1..Len(o.rts) :
          /\ Near(o.rdl[i][1], RouteLen(h.cat, o.rts[i]), JumpTol(h))
          /\ \A j \in 2..Len(o.rts[i]) : Near(o.rdl[i][j], TrackLen(h.cat, o.rts[i][j]), TOL)
    /\ LET s == St(o, 0) IN
       /\ Near(o.rl, IF s.ri < Len(s.rts) THEN RouteLen(h.cat, s.rts[s.ri + 1]) ELSE 0, JumpTol(h))
       /\ Near(o.tl, IF HasTrack(s) THEN TrackLen(h.cat, CurTrack(s)) ELSE 0, TOL)
       /\ Near(o.sl, IF ValidPos(h.cat, s) THEN CurLens(h.cat, s)[s.si + 1] ELSE 0, TOL)

C06(h, op, a, b, p) ==
    /\ Totals(h, b)
    /\ b.held[1] = 1      \* a list of routes obtained before is what it was
    /\ CASE op.op \in RouteOps ->
              LET x == RouteOutcome(op, a, p) IN
              /\ x.r = op.r /\ b.rts = x.s.rts
              /\ IF x.kind = "changed"
                   THEN PosIs(x.s, b) /\ OdoIs(x.s, b, 0) /\ b.ver # a.ver /\ b.dur = a.dur
                   ELSE b.dg = a.dg
         [] op.op = "rstN" -> b.rts = a.rts /\ PosIs(Restart(St(a, p)), b) /\ OdoIs(Restart(St(a, p)), b, 0)
         [] op.op = "xAdd" -> b.rts = DirectAdd(St(a, p), op.id, op.t).rts /\ SamePos(a, b) /\ SameOdo(a, b)
                              /\ (op.id # -1 => b.ver # a.ver)
         [] op.op = "xDel" -> b.rts = DirectRemove(St(a, p), op.id, op.t).rts /\ SamePos(a, b) /\ SameOdo(a, b)
                              /\ (b.rts # a.rts => b.ver # a.ver)
         [] op.op = "xCol" -> b.rts = a.rts /\ (op.r = 1 => b.ver # a.ver)
         [] OTHER -> b.rts = a.rts /\ b.ver = a.ver

(* C07: the published state. *)

Charge(h, o) ==                     \* in 1/1000 %
    LET n == h.cfg.ct * 10 + h.cfg.ctf
        x == o.bv * 1000
        c == 100000 - ((x \div n) * 100 + ((x % n) * 100) \div n)
    IN Max2(c, h.cfg.bmin * 10)

Mirror(h, o, dirty) ==
    LET q == o.pub IN
    /\ q.p = o.p
    /\ q.cur = <<o.cur[1], o.cur[2]>>
    /\ q.d = <<o.tot, o.cd, o.rl, o.rd, o.tl, o.td, o.sl, o.sd>>
    /\ q.loc = o.loc /\ q.be = q.cb /\ q.el = o.el
    /\ q.dur = o.dur
    /\ q.ct = h.cfg.ct /\ Near(q.bat, Charge(h, o), 3 + 10000 \div h.cfg.ct)
    /\ q.iso = o.iso /\ q.off = o.off
    /\ Len(q.sens) = Len(o.sens)
    /\ \A i \in 1..Len(q.sens) : q.sens[i][1] = o.sens[i][1] /\ q.sens[i][2] = o.sens[i][3] /\ q.sens[i][3] = 1
    /\ q.mt = o.meta
    /\ dirty = 1 \/ (q.rts = o.rts /\ q.rdl = o.rdl /\ q.col = 1)
    /\ o.spv = 1
    /\ IF o.spz = 1 THEN q.te = 0
       ELSE o.spd > 50 => Near(q.te, o.tot \div o.spd, 2 + (o.tot \div o.spd) \div o.spd)
    /\ Near(q.dms, 0, 2) /\ Near(q.utm, 0, 60)

OnlyTime(a, b) ==            \* a failed tick
    LET x == a.pub
        y == b.pub
    IN /\ x.p = y.p /\ x.cur = y.cur /\ x.d = y.d /\ x.loc = y.loc /\ x.be = y.be /\ x.el = y.el
       /\ x.bat = y.bat /\ x.ct = y.ct /\ x.te = y.te /\ x.sens = y.sens /\ x.rts = y.rts /\ x.rdl = y.rdl
       /\ y.dur = b.dur /\ y.iso = b.iso /\ y.off = b.off

MayLap(op, b) == op.op = "next" /\ op.r = 0 /\ b.dur = 0
IsLap(op, b) == op.op = "next" /\ op.r = 0 /\ op.tk > 0 /\ b.rts # <<>> /\ b.dur = 0

C07(h, op, a, b, p) ==
    /\ b.held[3] = 1      \* so is a published state
    /\ CASE op.op = "next" /\ op.r = 1 -> Mirror(h, b, 0)
      [] IsLap(op, b)   -> Mirror(h, b, op.dty)
      [] op.op = "upd"  -> Mirror(h, b, 0)
      [] op.op = "next" /\ op.r = 0 -> IF a.rts = <<>> THEN a.pdg = b.pdg ELSE OnlyTime(a, b)
      [] op.op = "set"  -> b.pub.mt = b.meta
      [] op.op \in {"addS", "rmS", "rstS"} ->
            /\ Len(b.pub.sens) = Len(b.sens)
            /\ \A i \in 1..Len(b.sens) : b.pub.sens[i][1] = b.sens[i][1] /\ b.pub.sens[i][2] = b.sens[i][3]
      [] op.op = "snap" -> a.pdg = b.pdg
      [] OTHER -> TRUE

(* C09: the battery. *)

C09(h, op, a, b, p) ==
    CASE op.op = "next" ->
           /\ \E x \in TickOutcomes(h, op, a, b, p) :
                 /\ x.r = op.r /\ Near(b.bv, x.s.bv, 1) /\ b.off \in x.offs /\ PosIs(x.s, b)
           /\ (op.r = 1 \/ IsLap(op, b)) =>
                 /\ Near(b.pub.bat, Charge(h, b), 3 + 10000 \div h.cfg.ct)
                 /\ b.pub.bat >= h.cfg.bmin * 10 - 1 /\ b.pub.bat <= 100000
                 /\ b.pub.ct = h.cfg.ct
      [] op.op = "upd" ->
           /\ b.bv = a.bv /\ Near(b.pub.bat, Charge(h, b), 3 + 10000 \div h.cfg.ct)
      [] OTHER -> b.bv = a.bv

(* C10: simulated time. *)

C10(h, op, a, b, p) ==
    CASE op.op = "next" ->
           IF a.rts = <<>> THEN SameAll(a, b) /\ op.r = 0
           ELSE LET el == ElapsedOf(p, op) IN
                /\ Near(b.pub.tick, el, 1)
                /\ IF IsLap(op, b) THEN TRUE ELSE Near(b.dur, a.dur + el, 1)
                /\ b.bv # 0 => Near(b.bv, a.bv + el, 1)
      [] op.op = "busy" -> op.r = 0 /\ SameAll(a, b)
      [] OTHER -> b.dur = a.dur /\ b.bv = a.bv

(* C11: snapshots. *)

C11(h, op, a, b, p) ==
    /\ b.dg = op.dt /\ b.pdg = op.pt
    /\ op.tw = 1 => op.r = op.rt
    /\ (op.op = "fork" /\ "fpure" \in DOMAIN op) =>
          /\ op.ferr = 0 /\ op.fpure = 1
          /\ op.fst = IF op.fatt = 1 THEN 1 ELSE 2
    /\ op.op = "snap" => op.r = 1 /\ SameAll(a, b)

(* C19: sensors. *)

SensorIds(o) == [i \in 1..Len(o.sens) |-> o.sens[i][1]]
ReadingsAgree(o) ==
    /\ o.ns = Len(o.sens) /\ o.sn = Len(o.sens) /\ o.sbad = 0
    /\ Len(o.slk) >= Len(o.sens)
    /\ \A i \in 1..Len(o.slk) :
          IF i <= Len(o.sens) THEN o.slk[i] = 1
          ELSE o.slk[i] = IF IndexOf(SensorIds(o), i - Len(o.sens) - 1) > 0 THEN 1 ELSE 0
    /\ \A i \in 1..Len(o.sens) : o.sens[i][1] >= 0 /\ \A j \in 1..Len(o.sens) : i # j => o.sens[i][1] # o.sens[j][1]

SamePub(o) ==
    /\ Len(o.pub.sens) = Len(o.sens)
    /\ \A i \in 1..Len(o.sens) : o.pub.sens[i][1] = o.sens[i][1] /\ o.pub.sens[i][2] = o.sens[i][3]

(* Entry: sensor, progress and value last given, whether that is in range, shape, whether it has several. *)
SameValue(x, y)  == \A k \in 1..4 : x[k] = y[k]
SameShape(x, y)  == x[5] = y[5]
Reshuffled(x, y) == x[5] # y[5] \/ x[6] = 0

C19(h, op, a, b, p) ==
    /\ ReadingsAgree(b)
    /\ b.held[2] = 1      \* a list of sensors obtained before is what it was
    /\ CASE op.op = "addS" -> SensorIds(b) = AddSensors(SensorIds(a), op.ids) /\ SamePub(b)
                              /\ (SensorIds(b) = SensorIds(a) => b.dg = a.dg)
         [] op.op = "rmS"  -> /\ SensorIds(b) = RemoveSensor(SensorIds(a), op.id)
                              /\ op.r = (IF SensorIds(a) = SensorIds(b) THEN 0 ELSE 1)
                              /\ SamePub(b) /\ (op.r = 0 => SameAll(a, b))
         [] op.op = "rstS" -> SensorIds(b) = <<>> /\ SamePub(b)
         [] op.op = "next" ->
              /\ SensorIds(b) = SensorIds(a)
              /\ op.r = 0 => \A i \in 1..Len(b.sens) : SameValue(a.sens[i], b.sens[i])
              /\ \A i \in 1..Len(b.sens) : IF IsLap(op, b) THEN Reshuffled(a.sens[i], b.sens[i]) ELSE MayLap(op, b) \/ SameShape(a.sens[i], b.sens[i])
              /\ op.r = 1 => /\ \A i \in 1..Len(b.sens) :
                                   /\ b.sens[i][4] = 1
                                   /\ Near(b.sens[i][2], b.elx, 30)
                                   /\ b.sens[i][2] >= op.pl - 200 /\ b.sens[i][2] <= op.ph + 200
                             /\ SamePub(b)
              /\ IsLap(op, b) => SamePub(b)
         [] op.op \in {"upd"} -> SensorIds(b) = SensorIds(a) /\ SamePub(b)
         [] OTHER -> SensorIds(b) = SensorIds(a) /\ \A i \in 1..Len(b.sens) : b.sens[i] = a.sens[i]

(* C08: the curves behind a tracker's values change at the end of a lap only. *)

Shapes(o) == {<<o.sens[i][1], o.sens[i][5]>> : i \in 1..Len(o.sens)}
C08(h, op, a, b, p) ==
    /\ MayLap(op, b) \/ a.cvs = b.cvs
    /\ MayLap(op, b) \/ \A x \in Shapes(a) : \A y \in Shapes(b) : x[1] = y[1] => x = y
    /\ (op.op = "next" /\ op.r = 1) => \A i \in 1..Len(b.sens) : b.sens[i][4] = 1

-----------------------------------------------------------------------------
Holds(h, op, a, b, p) ==
    IF op.op \in {"crash", "hang"} THEN FALSE ELSE
    CASE Prop = "C01" -> C01(h, op, a, b, p)
      [] Prop = "C02" -> C02(h, op, a, b, p)
      [] Prop = "C03" -> C03(h, op, a, b, p)
      [] Prop = "C04" -> C04(h, op, a, b, p)
      [] Prop = "C05" -> C05(h, op, a, b, p)
      [] Prop = "C06" -> C06(h, op, a, b, p)
      [] Prop = "C07" -> C07(h, op, a, b, p)
      [] Prop = "C08" -> C08(h, op, a, b, p)
      [] Prop = "C09" -> C09(h, op, a, b, p)
      [] Prop = "C10" -> C10(h, op, a, b, p)
      [] Prop = "C11" -> C11(h, op, a, b, p)
      [] Prop = "C19" -> C19(h, op, a, b, p)

NextPend(op, a, p) ==
    CASE op.op = "busy" /\ op.did = 1 -> p + (op.tk + 5) \div 10
      [] op.op = "next" /\ a.rts # <<>> -> 0
      [] OTHER -> p

Init == tid \in 1..Len(Traces) /\ l = 1 /\ pend = 0 /\ ok = TRUE

Next == /\ ok /\ l < Len(Traces[tid].steps)
        /\ LET h == Traces[tid]
               op == h.steps[l + 1]
               a == h.steps[l].o
               b == op.o
           IN /\ ok' = Holds(h, op, a, b, pend)
              /\ pend' = NextPend(op, a, pend)
        /\ l' = l + 1 /\ tid' = tid

Spec == Init /\ [][Next]_vars

Conforms == ok
=============================================================================
