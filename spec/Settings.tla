------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* What constructors accept and what they make of it.                       *)
(*                                                                          *)
(* Numbers are in tenths, texts are their lengths (0: not given), colours   *)
(* are numbers (0: not given, positive: valid, negative: not a colour).     *)
(* <<0>> is an error, <<1, ..>> the settings of the object.  Free stands    *)
(* for a generated value.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Err == <<0>>
Free == -1
Amp(a) == a >= 4 /\ a <= 512

Model(n) == IF n >= 3 /\ n <= 64 THEN <<1, n>> ELSE Err
Name(n) == IF n >= 3 /\ n <= 256 THEN <<1, n>> ELSE Err

(* 0 to 1000; no maximum means the minimum, no speed at all means 1. *)
Speed(min, max, amp) ==
    LET hi == IF max <= 0 THEN min ELSE max IN
    IF min < 0 \/ hi > 10000 \/ min > hi \/ ~Amp(amp) THEN Err
    ELSE IF min = 0 /\ hi = 0 THEN <<1, 10, 10>> ELSE <<1, min, hi>>

(* 0 to 100 per cent; no charge time means nine hours. *)
DefaultCharge == 9 * 36000           \* tenths of seconds
Battery(min, max, ct) ==
    IF min < 0 \/ max > 1000 THEN Err
    ELSE <<1, IF min > max THEN max ELSE min, max, IF ct <= 0 THEN DefaultCharge ELSE ct>>

Random == 32768
Mode(m) == IF m = 0 THEN Random ELSE m
Sensor(n, min, max, amp, mode) == IF n = 0 \/ ~Amp(amp) THEN Err ELSE <<1, n, min, max, Mode(mode)>>
Restored(uuid, n, min, max, amp, mode) == IF uuid = 0 THEN Err ELSE Sensor(n, min, max, amp, mode)

(* Offline periods of 0 to 3600 ticks (0, 0 means 0 to 10), elevations of 0
   to 50000 metres (0, 0 means 0 to 100); a minimum above the maximum is
   taken just below it. *)
Below(min, max, one) == IF min > max THEN max - one ELSE min
Offline(min, max) ==
    IF min < 0 \/ max > 3600 THEN Err
    ELSE IF min = 0 /\ max = 0 THEN <<1, 0, 10>> ELSE <<1, Below(min, max, 1), max>>
Elevation(min, max, amp, mode) ==
    IF min < 0 \/ max > 500000 \/ ~Amp(amp) THEN Err
    ELSE IF min = 0 /\ max = 0 THEN <<1, 0, 1000, Mode(mode)>> ELSE <<1, Below(min, max, 10), max, Mode(mode)>>
Navigator(skip, omin, omax, emin, emax, eamp, emode) ==
    LET o == Offline(omin, omax)  e == Elevation(emin, emax, eamp, emode) IN
    IF o = Err \/ e = Err THEN Err
    ELSE <<1, skip>> \o (IF skip = 1 THEN <<0, 0>> ELSE Tail(o)) \o Tail(e)

(* A tracker: o is a record of options, the result its settings. *)
Tracker(o) ==
    LET n == Navigator(o.skip, o.off[1], o.off[2], o.ele[1], o.ele[2], o.ele[3], o.ele[4])
        s == Speed(o.spd[1], o.spd[2], o.spd[3])
        b == Battery(o.bat[1], o.bat[2], o.bat[3])
        m == IF o.model = 0 THEN <<1, Free>> ELSE Model(o.model)
    IN IF n = Err \/ s = Err \/ b = Err \/ m = Err \/ o.color < 0 THEN Err
       ELSE <<1, [id |-> IF o.id = 0 THEN Free ELSE o.id, model |-> m[2],
                  color |-> IF o.color = 0 THEN Free ELSE o.color, user |-> o.user, descr |-> o.descr,
                  nav |-> Tail(n), spd |-> Tail(s), bat |-> Tail(b)]>>

(* Changes of a tracker: the new settings and whether they are accepted. *)
Change(t, what, v) ==
    CASE what = "setModel" -> IF Model(v) = Err THEN <<t, 0>> ELSE <<[t EXCEPT !.model = v], 1>>
      [] what = "setColor" -> IF v <= 0 THEN <<t, 0>> ELSE <<[t EXCEPT !.color = v], 1>>
      [] what = "setUser"  -> <<[t EXCEPT !.user = v], 1>>
      [] what = "setDescr" -> <<[t EXCEPT !.descr = v], 1>>

(* The options a tracker gets when none are given (0) and those of the kinds of trackers: tracker (1),
   child (2), animal (3), bicycle (4), drone (5).  Elevations and speeds are in tenths, charge times in
   tenths of seconds. *)
Hour == 36000
Preset(k) ==
    LET O(skip, emin, emax, hours, smin, smax, samp) ==
            [id |-> 0, model |-> 0, color |-> 0, user |-> 0, skip |-> skip, off |-> <<2, 60>>, ele |-> <<emin, emax, 8, 0>>,
             spd |-> <<smin, smax, samp>>, bat |-> <<0, 1000, hours * Hour>>]
    IN CASE k = 0 -> O(0, 100, 3000, 7, 10, 20, 16)
         [] k = 1 -> O(0, 0, 3500, 8, 10, 50, 16)
         [] k = 2 -> O(0, 0, 500, 6, 10, 20, 48)
         [] k = 3 -> O(0, 10, 100, 2, 10, 30, 64)
         [] k = 4 -> O(0, 10, 1250, 12, 20, 80, 8)
         [] k = 5 -> O(1, 10, 25000, 3, 50, 1500, 4)

(* The options of a generator when none are given: interval in milliseconds, packet size, workers. *)
GeneratorOptions == <<3000, 8192, 4>>

(* A generator's packet size and interval (in milliseconds). *)
PacketSize(n) == IF n < 1024 THEN 1024 ELSE n
Interval(ms) == IF ms <= 0 THEN 1000 ELSE ms

Make(name, a) ==
    CASE name = "model"   -> Model(a[1])
      [] name = "name"    -> Name(a[1])
      [] name = "speed"   -> Speed(a[1], a[2], a[3])
      [] name = "battery" -> Battery(a[1], a[2], a[3])
      [] name = "sensor"  -> Sensor(a[1], a[2], a[3], a[4], a[5])
      [] name = "restore" -> Restored(a[1], a[2], a[3], a[4], a[5], a[6])
      [] name = "nav"     -> Navigator(a[1], a[2], a[3], a[4], a[5], a[6], a[7])
=============================================================================
