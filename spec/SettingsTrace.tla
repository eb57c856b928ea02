---------------------------- MODULE SettingsTrace ----------------------------
(***************************************************************************)
(* Recorded constructor calls and changes of settings against Settings.     *)
(* A trace is a history: the trackers made so far and every identifier      *)
(* seen.                                                                    *)
(***************************************************************************)
EXTENDS Settings, TLC, Json, IOUtils, FiniteSets

CONSTANTS Prop, Findings
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l,
          ds,     \* the trackers
          seen,   \* identifiers seen
          ok
vars == <<tid, l, ds, seen, ok>>
T == Traces[tid]

(* Recorded findings: a battery without charge time keeps none. *)
Known(name, a, r) == "charge" \in Findings /\ name = "battery" /\ a[3] = 0 /\ r # Err /\ Len(r) = 4 /\ r[4] = 0
Is(name, a, r) == LET w == Make(name, a) IN
    IF Known(name, a, r) THEN w # Err /\ [r EXCEPT ![4] = DefaultCharge] = w ELSE r = w

(* Seen settings against expected ones: what is free must be valid. *)
Agree(w, o, ct) ==
    /\ (IF w.id = Free THEN o.id < 0 ELSE o.id = w.id)
    /\ (IF w.model = Free THEN o.model = -1 ELSE o.model = w.model)
    /\ (IF w.color = Free THEN o.color = 0 ELSE o.color = w.color)
    /\ o.user = w.user /\ o.descr = w.descr /\ o.nav = w.nav /\ o.spd = w.spd
    /\ (o.bat = w.bat \/ ("charge" \in Findings /\ ct = 0 /\ o.bat = [w.bat EXCEPT ![3] = 0]))
(* Generated values are kept, too. *)
Fix(w, o) == [w EXCEPT !.id = o.id, !.bat = o.bat, !.model = IF @ = Free THEN o.model ELSE @, !.color = IF @ = Free THEN o.color ELSE @]

Least(a, b) == IF a < b THEN a ELSE b
AllAs(d, o) == Len(o) = Len(d) /\ \A i \in 1..Len(d) : o[i].id = d[i].id /\ o[i].model = d[i].model /\ o[i].color = d[i].color
                  /\ o[i].user = d[i].user /\ o[i].descr = d[i].descr /\ o[i].nav = d[i].nav /\ o[i].spd = d[i].spd /\ o[i].bat = d[i].bat

Init == tid \in 1..Len(Traces) /\ l = 0 /\ ds = <<>> /\ seen = {} /\ ok = TRUE
Step(e) ==
    CASE e.op = "make" ->
            /\ ok' = ((Is(e.n, e.a, e.r) /\ (e.r # Err \/ e.nil = 1)) = TRUE) /\ UNCHANGED <<ds, seen>>
      [] e.op = "new" ->
            LET w == Tracker(e.a) IN
            IF w = Err THEN ok' = (e.r = 0 /\ e.nil = 1 /\ AllAs(ds, e.o)) /\ UNCHANGED <<ds, seen>>
            ELSE IF e.r = 0 \/ Len(e.o) # Len(ds) + 1 THEN ok' = FALSE /\ UNCHANGED <<ds, seen>>
            ELSE LET o == e.o[Len(e.o)] IN
                 /\ ok' = ((Agree(w[2], o, e.a.bat[3]) /\ (o.id < 0 => o.id \notin seen) /\ AllAs(ds, SubSeq(e.o, 1, Len(ds)))) = TRUE)
                 /\ ds' = Append(ds, Fix(w[2], o))
                 /\ seen' = seen \cup {o.id}
      [] e.op = "preset" -> (* default options *)
            /\ ok' = ((\A f \in DOMAIN Preset(e.k) : e.a[f] = Preset(e.k)[f]) = TRUE) /\ UNCHANGED <<ds, seen>>
      [] e.op = "defaults" -> ok' = (e.a = GeneratorOptions) /\ UNCHANGED <<ds, seen>>
      [] e.op = "rmodel" -> (* random models are models *)
            /\ ok' = (e.ok = 1 /\ Model(e.n) # Err) /\ UNCHANGED <<ds, seen>>
      [] e.op \in {"setModel", "setColor", "setUser", "setDescr"} ->
            \E r \in {Change(ds[e.d + 1], e.op, e.v)} :
              /\ ds' = [ds EXCEPT ![e.d + 1] = r[1]] /\ ok' = ((e.r = r[2] /\ AllAs(ds', e.o)) = TRUE) /\ seen' = seen
      [] e.op = "ids" -> (* identifiers of other new things, all different *)
            /\ ok' = ((e.all = Cardinality({e.ids[i] : i \in 1..Len(e.ids)}) /\ e.all = Len(e.ids)
                       /\ \A i \in 1..Len(e.ids) : e.ids[i] < 0 /\ e.ids[i] \notin seen) = TRUE)
            /\ seen' = seen \cup {e.ids[i] : i \in 1..Len(e.ids)} /\ ds' = ds
      [] e.op = "gen" -> (* one tick of a generator with these options *)
            /\ ok' = ((/\ e.sum = e.n
                       /\ (e.n > 0 => e.max <= PacketSize(e.ps))
                       (* a full packet is divided among the workers, which work at the same time *)
                       /\ (e.nw >= 1 => /\ e.max * e.nw >= Least(e.n, PacketSize(e.ps))
                                        /\ e.cc <= e.nw /\ (e.n >= PacketSize(e.ps) => e.cc = e.nw))
                       /\ e.ms >= Interval(e.iv) - 50 /\ e.ended = 1) = TRUE)
            /\ UNCHANGED <<ds, seen>>
      [] OTHER -> ok' = FALSE /\ UNCHANGED <<ds, seen>>
Next == ok /\ l < Len(T.steps) /\ l' = l + 1 /\ tid' = tid /\ Step(T.steps[l + 1])
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
