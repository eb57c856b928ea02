------------------------------ MODULE Decoders ------------------------------
(***************************************************************************)
(* Decoders given damaged documents.                                        *)
(*                                                                          *)
(* A run is: a document is written by the library, damaged (or not) and     *)
(* decoded, into a new object or into one that already has contents; then   *)
(* what came out is used.  A state is [doc, into, out, has]: doc is clean,  *)
(* damaged, counts or empty, into what it is decoded into (new, old), out  *)
(* the outcome (none, refused, accepted), has what the target holds afterwards. *)
(* A document without bytes, and one whose description of its routes and    *)
(* tracks disagrees with them in number (counts), must be refused.          *)
(*                                                                          *)
(* Below that is the structure of the binary documents: which parts there   *)
(* are to damage, and how.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Docs == {"clean", "damaged", "counts", "empty"}
Begin(into) == [doc |-> "clean", into |-> into, out |-> "none", has |-> into]
Damage(s, d) == [s EXCEPT !.doc = d]
Refuse(s) == [s EXCEPT !.out = "refused"]                              \* the target stays as it was
Accept(s) == [s EXCEPT !.out = "accepted", !.has = "document"]
MayRefuse(s) == s.doc # "clean"
MayAccept(s) == s.doc \notin {"counts", "empty"}
Usable(s) == s.has # "new"      \* whatever has contents can be used

-----------------------------------------------------------------------------
(* Message types: fields are <<name, type, number>>: type is a message type  *)
(* or double, int, text, raw (JSON) or flag; number is one or many.          *)
LatLon == << <<"lon", "double", "one">>, <<"lat", "double", "one">> >>
CurveT == << <<"points", "ControlPoint", "many">>, <<"mode", "int", "one">>, <<"min", "double", "one">>, <<"max", "double", "one">> >>
XY == << <<"x", "double", "one">>, <<"y", "double", "one">> >>
ControlPoint == << <<"vp", "XY", "one">>, <<"cp", "XY", "one">> >>
SpeedT == << <<"min", "double", "one">>, <<"max", "double", "one">>, <<"val", "double", "one">>, <<"gen", "Curve", "one">> >>
BatteryT == << <<"min", "double", "one">>, <<"max", "double", "one">>, <<"charge_time", "int", "one">>, <<"val", "double", "one">> >>
SensorT == << <<"id", "text", "one">>, <<"min", "double", "one">>, <<"max", "double", "one">>, <<"val_x", "double", "one">>,
              <<"val_y", "double", "one">>, <<"name", "text", "one">>, <<"gen", "Curve", "one">> >>
SegmentT == << <<"point_a", "LatLon", "one">>, <<"point_b", "LatLon", "one">>, <<"distance", "double", "one">>,
               <<"bearing", "double", "one">>, <<"index", "int", "one">>, <<"rel", "int", "one">> >>
TrackT == << <<"id", "text", "one">>, <<"segmenets", "Segment", "many">>, <<"color", "text", "one">>, <<"props", "raw", "one">>,
             <<"distance", "double", "one">>, <<"is_closed", "flag", "one">>, <<"name", "text", "one">>, <<"version", "int", "one">> >>
RouteT == << <<"id", "text", "one">>, <<"distance", "double", "one">>, <<"color", "text", "one">>, <<"tracks", "Track", "many">>,
             <<"props", "raw", "one">>, <<"name", "text", "one">>, <<"version", "int", "one">> >>
RoutesT == << <<"routes", "Route", "many">> >>
SensorsT == << <<"sensors", "Sensor", "many">> >>
NavigatorT == << <<"routes", "Route", "many">>, <<"route_index", "int", "one">>, <<"track_index", "int", "one">>,
    <<"segment_index", "int", "one">>, <<"current_segment_distance", "double", "one">>, <<"current_route_distance", "double", "one">>,
    <<"current_track_distance", "double", "one">>, <<"current_distance", "double", "one">>, <<"offline_index", "int", "one">>,
    <<"point", "LatLon", "one">>, <<"elevation", "Sensor", "one">>, <<"offline_min", "int", "one">>, <<"offline_max", "int", "one">>,
    <<"distance", "double", "one">>, <<"skip_offline", "flag", "one">>, <<"version", "int", "one">> >>
TrackerT == << <<"id", "text", "one">>, <<"user_id", "text", "one">>, <<"tick", "double", "one">>, <<"duration", "double", "one">>,
    <<"model", "text", "one">>, <<"descr", "text", "one">>, <<"status", "int", "one">>, <<"color", "text", "one">>,
    <<"navigator", "Navigator", "one">>, <<"speed", "Speed", "one">>, <<"battery", "Battery", "one">>, <<"sensors", "Sensor", "many">> >>
PRouteTrackT == << <<"track_id", "text", "one">>, <<"distance", "double", "one">>, <<"props", "raw", "one">> >>
PRouteT == << <<"route_id", "text", "one">>, <<"tracks", "PTrack", "many">>, <<"props", "raw", "one">> >>
PRoutesT == << <<"routes", "PRoute", "many">> >>
DeviceT == << <<"id", "text", "one">>, <<"speed", "double", "one">>, <<"routes", "PRoutes", "one">>, <<"description", "text", "one">>,
    <<"is_offline", "flag", "one">>, <<"offline_duration", "int", "one">> >>
PacketT == << <<"devices", "Device", "many">>, <<"timestamp", "int", "one">> >>

Type == [Tracker |-> TrackerT, Routes |-> RoutesT, Sensors |-> SensorsT, Packet |-> PacketT, LatLon |-> LatLon, Curve |-> CurveT, XY |-> XY,
         ControlPoint |-> ControlPoint, Speed |-> SpeedT, Battery |-> BatteryT, Sensor |-> SensorT, Segment |-> SegmentT, Track |-> TrackT,
         Route |-> RouteT, Navigator |-> NavigatorT, PTrack |-> PRouteTrackT, PRoute |-> PRouteT, PRoutes |-> PRoutesT, Device |-> DeviceT]
Plain == {"double", "int", "text", "raw", "flag"}

(* What can be wrong with a field. *)
Faults(f) ==
    CASE f[3] = "many"   -> {"clear", "extra"}
      [] f[2] = "double" -> {"zero", "neg", "huge", "nan", "inf", "ninf", "tiny"}
      [] f[2] = "int"    -> {"zero", "one", "two", "neg", "huge", "min"}
      [] f[2] = "text"   -> {"clear", "long", "odd"}
      [] f[2] = "raw"    -> {"clear", "junk", "null", "list"}
      [] f[2] = "flag"   -> {"flip"}
      [] OTHER           -> {"clear", "blank"}
PartFaults == {"blank", "cut", "twice"}   \* of one of many

(* Every fault of a message, as <<where, what>>; where is written down as a  *)
(* path, such as navigator/routes#0/tracks#1/segmenets.                      *)
RECURSIVE All(_, _, _)
All(t, at, width) ==
    UNION { LET f == Type[t][i]
                here == at \o f[1]
                idx == {"#0", "#1", "#2"}
                kept == IF width = 1 THEN {"#0"} ELSE IF width = 2 THEN {"#0", "#1"} ELSE idx
            IN {<<here, w>> : w \in Faults(f)}
               \cup (IF f[3] = "many" THEN {<<here \o x, w>> : x \in kept, w \in PartFaults} ELSE {})
               \cup (IF f[2] \in Plain THEN {}
                     ELSE IF f[3] = "many" THEN UNION {All(f[2], here \o x \o "/", width) : x \in kept}
                     ELSE All(f[2], here \o "/", width))
          : i \in 1..Len(Type[t]) }
(* Damage to documents as bytes, and to text formats as trees.               *)
ByteFaults == {"cutoff", "bit", "drop", "insert", "swap", "empty", "none", "garbage"}
TreeFaults == {"remove", "null", "number", "text", "list", "object", "twice", "nest"}
=============================================================================
