---------------------------- MODULE RandomsTrace ----------------------------
EXTENDS Randoms, TLC, Json, IOUtils

CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l,
          seen,  \* identifiers and names
          sizes, \* levels and their typical sizes
          ok
vars == <<tid, l, seen, sizes, ok>>
T == Traces[tid]
Set(q) == {q[i] : i \in 1..Len(q)}

Init == tid \in 1..Len(Traces) /\ l = 0 /\ seen = {} /\ sizes = {} /\ ok = TRUE
Step(e) ==
    CASE e.op = "route" ->
            IF e.r = 0 THEN ok' = FALSE /\ UNCHANGED <<seen, sizes>> ELSE
            LET ids == Ids(e.o) IN
            /\ ok' = ((/\ Route(e.o, e.a[1]) /\ Distinct(ids) /\ Set(ids) \cap seen = {}
                       /\ e.o.far <= Reach(e.a[2]) /\ e.o.world = 1 /\ e.o.bin = 1 /\ e.o.json = 1 /\ e.o.gpx = 1) = TRUE)
            /\ seen' = seen \cup Set(ids) /\ sizes' = sizes
      [] e.op = "size" -> (* the median distance from the centre over many routes *)
            /\ ok' = (((\A s \in sizes : Grows(s[1], s[2], e.v, e.m)) /\ \A i \in 1..4 : e.q[i] * 20 > e.n) = TRUE)
            /\ sizes' = sizes \cup {<<e.v, e.m>>} /\ seen' = seen
      [] e.op = "poly" -> ok' = ((Polygon(e.a[1], e.q) /\ e.fin = 1) = TRUE) /\ UNCHANGED <<seen, sizes>>
      [] e.op = "str" -> ok' = ((e.len = IF e.a[1] < 0 THEN 0 ELSE e.a[1]) /\ e.set = 1) /\ UNCHANGED <<seen, sizes>>
      [] e.op = "country" ->
            /\ ok' = (IF e.known = 1
                      THEN /\ e.r = 1 /\ Box(e.box) /\ e.same = 1
                           /\ \A i \in 1..Len(e.pts) : InBox(Wider(e.box), e.pts[i])
                           (* not all in one half of the box *)
                           /\ \A k \in 1..2 : LET mid == (e.box[k] \div 2) + (e.box[k + 2] \div 2) IN
                                 /\ \E i \in 1..Len(e.pts) : e.pts[i][k] <= mid
                                 /\ \E i \in 1..Len(e.pts) : e.pts[i][k] >= mid
                      ELSE e.r = 0)
            /\ UNCHANGED <<seen, sizes>>
      [] e.op = "world" ->
            /\ ok' = (\A i \in 1..Len(e.pts) : InBox(<<-180000000, -90000000, 180000000, 90000000>>, e.pts[i]))
            /\ UNCHANGED <<seen, sizes>>
      [] e.op = "box" -> (* a box's own answers; coordinates are multiples of a micro-degree *)
            /\ ok' = ((/\ \A i \in 1..Len(e.pts) : (e["in"][i] = 1) = InBox(e.box, e.pts[i])
                       /\ 2 * e.mid[1] = e.box[1] + e.box[3] /\ 2 * e.mid[2] = e.box[2] + e.box[4]) = TRUE)
            /\ UNCHANGED <<seen, sizes>>
      [] OTHER -> ok' = FALSE /\ UNCHANGED <<seen, sizes>>
Next == ok /\ l < Len(T.steps) /\ l' = l + 1 /\ tid' = tid /\ Step(T.steps[l + 1])
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
