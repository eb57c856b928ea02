#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

NAV = "navigator/navigator.go"
DEV = "device.go"
GEN = "generator.go"

p("C01", "A tracker is always on its route",
  "After every successful tick, jump or move, the tracker's current route, track and segment exist and its location lies on that segment at exactly the segment distance it reports (never beyond the segment's length), with the segment's bearing as its heading, and is a location on the globe (latitude within 90, longitude within 180 degrees). The only exception is a successful step from the very start of a track, which is placed one metre along the first segment.",
  ["inputs", "programs", "histories"], "for every set of routes anywhere on the globe (including repeated points, the antimeridian and high latitudes) and every sequence of ticks, jumps, moves and route changes",
  "tests drive a few hand-made routes around one city and compare single coordinates; the relation between location, segment and distance is only meaningful over arbitrary geometry and arbitrary operation histories",
  [NAV, DEV, "navigator/route_track_segment.go", "geo/destination.go", "geo/bearing.go", "geo/distance.go"],
  [("segment interpolation along the initial bearing", NAV+" NextLocation/jump"), ("segment construction", "navigator/route_track_segment.go makeSegments")],
  [("route/track/segment index", "current position in the route set", NAV+" Navigator")],
  ["Device.Location", "Device.RouteIndex/TrackIndex/SegmentIndex", "Device.CurrentSegmentDistance", "Device.CurrentBearing"])

p("C02", "Ticks advance along the routes in order, by elapsed time times speed",
  "A tick of an online tracker whose step (elapsed seconds times current speed) fits in what is left of the current segment moves it forward by exactly that step, adding it to the total, route, track and segment distances; otherwise it resumes from the start of the next segment of the track, in order, that can hold the step, adding the step to the total, route and track distances. A tick that would leave a segment marked as not connected fails instead, at the start of the next segment. When no segment of the track can hold the step, the tick fails and the tracker stands at the start of the next track, else of the next route, else of the first route again, with the distances of the levels it left restarted. Only that return to the first route is a finished lap: it restarts the total distance and the elapsed duration, which otherwise grows by the elapsed time on every tick.",
  ["programs", "histories", "inputs"], "for every route set, speed profile, tick sequence and number of laps, with any jumps, moves and route changes in between",
  "tests check a handful of ticks on fixed routes; that no tick on any history skips, repeats or reorders a segment, track or route, or loses distance, is a statement about all histories",
  [NAV, DEV], [("advance loop", NAV+" NextLocation/nextSegment/nextTrack/nextRoute"), ("tick", DEV+" Next")],
  [("currentDistance, currentRouteDistance, currentTrackDistance, currentSegmentDistance", "odometers", NAV), ("Duration", "elapsed simulated seconds of the lap", DEV)],
  ["Device.Next", "Device.Current*Distance", "Device.Duration"])

p("C03", "Offline periods start, last and end as configured",
  "A tracker goes offline only when it completes a track, leaves a segment not connected to its neighbours, reaches its low-battery threshold or is told to; each such event draws a number of ticks from the whole range between the configured minimum and maximum. For exactly that many ticks every tick fails, its location, position and distances do not change and the reported remaining offline time counts down by one, and then it moves again. A tracker configured to skip offline mode never goes offline.",
  ["histories", "configurations", "inputs"], "for every offline range, route set and history of ticks and explicit requests",
  "tests force offline mode once and look at a flag; that no other event starts a period and that its length is always the drawn one needs every history",
  [NAV, DEV, "types/random.go", "navigator/options.go"], [("countdown", NAV+" nextOffline"), ("draw", "types/random.go Value")],
  [("offlineIndex", "remaining offline ticks", NAV)], ["Device.IsOffline", "Device.State offline fields"])

p("C04", "Jumping to a distance lands exactly there",
  "A jump to a distance of at least one metre along the concatenated routes succeeds on any tracker whose total distance is at least one metre and places the tracker in the route, track and segment that contains that distance, with total, route, track and segment distances equal to the requested distance measured from the start of each; at a boundary between segments it is at the start of the later one. A distance beyond the end is treated as the end of the last segment, a distance below one metre (or any jump when the total is below that) is refused without any effect, and offline status never changes.",
  ["inputs", "programs"], "for every route set (any number of routes and tracks, including empty ones and repeated points) and every requested distance including all boundaries",
  "tests jump on sets of at most two routes with one or two tracks; errors in the search only show with three or more of either or exactly at boundaries",
  [NAV, DEV], [("distance search", NAV+" jump")], None, ["Device.DestinationTo"])

p("C05", "Moves go exactly where asked or are refused without effect",
  "Moving to a route, track or segment by index or ID, or to the previous or next route, succeeds exactly when the target exists and is not the current position; it then places the tracker at the target segment's start point with zero segment distance, ends any offline period, restarts the track distance when the track changed and the route distance when the route changed, and leaves the total distance and elapsed duration alone. A refused move changes nothing.",
  ["inputs", "histories"], "for every route set, current position (online or offline) and target, valid or not",
  "tests try a few valid and invalid targets from the initial position; the effect depends on which levels change and on the history of distances",
  [NAV, DEV], [("bounds checks and distance resets", NAV+" MoveToSegment")], None,
  ["Device.MoveToRoute/Track/Segment(ByID)", "Device.ToNextRoute/ToPrevRoute"])

p("C06", "The route set and its totals are exact",
  "A tracker's routes are exactly those added and not removed, in order, each identifier (upper and lower case are different) at most once, and its total, route and track distances equal the sums of their parts at all times. Every successful change of the set or of a track within it through the tracker restarts the position at the first segment with zero distances and changes the tracker's version; adding nothing, adding only known routes, or removing something unknown is refused or ignored without any effect. A list of routes obtained before keeps its content.",
  ["histories", "programs"], "for every sequence of adding, removing and resetting routes and tracks, interleaved with ticks and moves, including changes made directly on an attached route",
  "tests make one change and look at a count; staleness of a derived total or position only appears after particular sequences",
  [NAV, DEV, "navigator/route.go"], [("route bookkeeping", NAV+" AddRoute/RemoveRoute/RemoveTrack/ResetRoutes"), ("route totals", "navigator/route.go updateState")],
  None, ["Device.Routes", "Device.Distance", "Device.Version"])

p("C07", "The published state mirrors the tracker",
  "After every successful tick, every finished lap and every explicit refresh, the tracker's published state equals what its accessors report: location, bearing, indexes and the matching route and track identifiers (empty when there is none), all distances, elapsed time, speed, battery charge and charge time, offline status, sensors and route list with its properties; the remaining-time estimate is the total distance divided by the speed, and zero when the speed is zero. Its degrees-minutes-seconds and UTM coordinates denote the same location. A failed tick updates only time, speed and offline status. A published state obtained before does not change afterwards.",
  ["histories", "inputs"], "for every history of operations and every location on the globe covered by UTM",
  "tests compare a few fields after one call on one route; which fields go stale depends on the operation sequence and the conversions on the hemisphere, zone and fraction",
  [DEV, NAV, "navigator/location.go"], [("state projection", DEV+" updateState/updateRoutes/updateSensors"), ("coordinate conversions", "navigator/location.go")],
  [("published state", "protobuf device message", DEV+" Device.state")], ["Device.State", "Device.Update"])

p("C08", "Generated values stay in range and keep their shape",
  "Every generated speed, elevation and sensor value lies between its configured minimum and maximum for any progress from zero to one; in start mode the value at progress zero, and in end mode the value at progress one, equals the minimum. The value is a fixed function of progress that does not depend on what was asked before and only changes when the generator is shuffled, which preserves range and mode; a speed whose minimum equals its maximum always has that value. Where the mode does not fix it, the value at either end is drawn anew for every generator and every shuffle, from the whole range.",
  ["inputs", "histories"], "for every range, mode and number of control points, over any number of evaluations and shuffles, at any progress in [0,1]",
  "tests sample a few points of a random curve; range, mode and independence from earlier evaluations are statements about all points and histories",
  ["curve/curve.go", "types/sensor.go", "types/speed.go"], [("Bezier evaluation", "curve/curve.go Point"), ("control points", "curve/curve.go New/Shuffle")],
  None, ["Sensor.Next/ValueY", "Speed.Next/Value", "Curve.Point"])

p("C09", "The battery discharges linearly, recharges and takes the tracker offline",
  "The battery charge falls linearly with elapsed time from 100 towards zero over the configured charge time and is never reported below the configured minimum; elapsed time counts on every tick of a tracker that has routes, online or offline. When it reaches the minimum the tracker goes offline (unless it skips offline mode) and the charge starts again from 100 in that same tick.",
  ["histories", "configurations"], "for every minimum, charge time and sequence of tick lengths over many discharge cycles",
  "tests run one discharge on the battery alone; the cycle through the tracker, with offline ticks and uneven tick lengths, is never followed",
  ["types/battery.go", DEV], [("charge", "types/battery.go Value/IsLow"), ("recharge", DEV+" Next")],
  [("used seconds", "seconds since last full charge", "types/battery.go")], ["Battery.Value", "Device.State battery"])

p("C10", "Simulated time is conserved",
  "Every tick given to a tracker that has routes is accounted for exactly once: the elapsed time a tick applies is its own length plus the lengths, rounded to whole seconds, of the ticks that failed since the previous one because the tracker was busy. A generator gives each attached tracker, on every tick, the real time since the generator's previous tick (or the start of the run), but at least one second.",
  ["schedules", "histories"], "for every interleaving of ticks with other uses of the tracker, and every pattern of delayed generator ticks",
  "one test misses a single one-second tick; longer ticks, several misses, races between a miss and the tick that collects it, and delayed generator ticks are not reached",
  [DEV, GEN], [("missed-tick counter", DEV+" incTick/Next"), ("elapsed time", GEN+" run")], None, ["Device.Next", "Device.State tick/duration"])

p("C11", "Saving and restoring a tracker is transparent",
  "Restoring a snapshot (directly or through the binary encoding) into a new or already used tracker yields a tracker whose observable state equals the original's, apart from being not attached, and from then on both give the same results for the same operations as long as no random draw is involved. Restoring replaces everything the target had before, but a tracker attached to a generator stays attached; taking a snapshot changes nothing. Ticks missed but not yet applied are not part of a snapshot.",
  ["histories", "crash_points", "configurations"], "for every point of every history at which the snapshot is taken, every tracker configuration and every previous content of the target",
  "tests round-trip freshly built trackers; a field that is lost or left over only matters after particular histories and in the ticks that follow",
  [DEV, NAV, "types/speed.go", "types/battery.go", "types/sensor.go", "curve/curve.go", "io.go"], [("snapshot and restore", DEV+" Snapshot/FromSnapshot")],
  None, ["Device.Snapshot/FromSnapshot", "MarshalBinary/UnmarshalBinary", "EncodeTracker/DecodeTracker"])

p("C12", "Routes survive encoding and decoding",
  "Encoding routes to binary, GeoJSON or GPX and decoding the result gives the same routes: same order, identifiers, colours, names, tracks in order, points (in GPX to ten decimals of a degree), closedness, distances and user properties under keys the format does not use itself, with equal numbers, booleans and strings (GPX keeps properties as the numbers, booleans or strings they look like). GeoJSON and GPX documents omit routes without tracks. Encoding an empty list, or GPX with nothing left, is an error, and encoding the decoded routes again loses nothing further. Sensors survive their binary encoding likewise: same identifiers, names, ranges, modes and values.",
  ["inputs"], "for every list of routes with any number of tracks, any points, names, colours and scalar properties",
  "tests decode a few files and check counts; which track gets which identifier, name or property is only visible with several tracks and with each field set",
  ["io.go", "geojson/encoding.go", "geojson/feature_collection.go", "gpx/encoding.go", "navigator/route.go", "navigator/route_track.go"],
  [("GeoJSON mapping", "geojson/encoding.go"), ("GPX mapping", "gpx/encoding.go"), ("protobuf mapping", "navigator/route.go Snapshot/RouteFromSnapshot")],
  None, ["EncodeRoutes/DecodeRoutes", "EncodeGeoJSONRoutes/DecodeGeoJSONRoutes", "EncodeGPXRoutes/DecodeGPXRoutes", "EncodeSensors/DecodeSensors"])

p("C13", "Malformed input is rejected and never crashes",
  "Every decoder (packet, tracker, sensors, routes, GeoJSON, GPX) given empty, truncated, corrupted or structurally incomplete data returns an error or a usable result and never panics; empty documents, and documents whose description of routes disagrees in number with the routes or tracks they hold, are refused, and everything decoded without error can be ticked, moved, jumped and encoded again. A tracker whose binary restore returns an error is unchanged.",
  ["inputs", "fault_sequences"], "for every byte string, in particular every valid encoding with any part missing, null, of the wrong type, inconsistent in count or cut short",
  "tests feed empty data and a few broken files; the space of structurally incomplete but well-formed documents is not enumerated",
  ["io.go", "encoding.go", DEV, "geojson/encoding.go", "gpx/encoding.go", NAV], [("error returns", "io.go Decode*")], None,
  ["PacketFromBytes", "DecodeTracker", "DecodeSensors", "DecodeRoutes", "DecodeGeoJSONRoutes", "DecodeGPXRoutes", "Device.UnmarshalBinary"])

p("C14", "Each generator tick reports every attached tracker exactly once",
  "On every tick, each tracker attached when the tick begins is advanced once and its state after that tick appears exactly once in the tick's packets, in attachment order across the packets sorted by position, whatever the number of trackers, packet size and workers, and whatever is attached or detached meanwhile; no packet holds more trackers than the packet size, and a tracker attached or detached during a tick counts from the next one.",
  ["schedules", "configurations", "histories"], "for every number of trackers below, at and above every packet and worker boundary, every worker count and every interleaving of attach and detach with a tick",
  "tests attach at most a few trackers and count callbacks; the boundaries start at 1024 trackers and the interleavings are never scheduled",
  [GEN], [("packet assembly", GEN+" run/flush"), ("workers", GEN+" doWorker")],
  [("packet buffer", "devices of the packet being sent", GEN+" Generator.packet")], ["OnPacket", "PacketFromBytes"])

p("C15", "The attachment registry is exact",
  "A tracker can be attached to at most one generator at a time: attaching an attached tracker fails and changes nothing, and detaching frees it. The generator's count, membership test, lookup and iteration reflect exactly the attached trackers in attachment order at one instant; detaching an unknown identifier or attaching nothing has no effect and is not an error.",
  ["schedules", "histories"], "for every sequence and every concurrent interleaving of attach, detach, lookup, membership, count and iteration over several generators and trackers",
  "tests call the operations one after another on one generator",
  [GEN, DEV], [("registry lock", GEN+" Attach/Detach/find/delete"), ("attachment flag", DEV+" mount/unmount")],
  [("devices", "attached trackers", GEN)], ["Generator.Attach/Detach/HasTracker/Lookup/NumDevices/Each", "Device.Status"])

p("C16", "Closing a generator always ends it cleanly",
  "Closing a generator at any moment, from any goroutine or from inside any of its callbacks, any number of times and before or during its run, makes the run call return once the callbacks in progress have returned. After it has returned no callback is invoked, no goroutine of the generator remains, and no packet delivered around the close has missing or empty trackers; the trackers stay attached and usable.",
  ["schedules", "crash_points", "configurations"], "for every moment of closing relative to every step of a tick, every worker count and every number of packets per tick",
  "tests close an idle generator after one tick; the moments inside packet distribution are never hit",
  [GEN], [("cancellation", GEN+" Close/isClosed/doWorker/flush")], None, ["Generator.Close", "Generator.Run"])

p("C17", "Concurrent readers see whole states",
  "Snapshots, published states, accessors and packets taken while a tracker is ticking or being modified show the tracker as it was between two operations, never a mixture, and a published state, snapshot or list once obtained does not change afterwards. Concurrent use of any of the tracker's operations never crashes.",
  ["schedules"], "for every interleaving of ticks, modifications, snapshots, state reads and encodings of one tracker",
  "tests use trackers from one goroutine at a time",
  [DEV], [("tracker lock", DEV+" Device.mu")], None, ["Device.Snapshot", "Device.State", "Device.MarshalBinary", "OnPacket"])

p("C18", "Constructors accept exactly valid settings and normalise them as documented",
  "A tracker, speed, battery, sensor, model, name, colour or generator setting is accepted exactly when it lies within its documented limits (the length of a text counts bytes), is otherwise rejected with an error and no object, and documented defaults and adjustments are applied to the rest. A tracker keeps every explicit setting it was given, and identifiers that are not given are generated and never repeat, also when one set of options is used for several trackers.",
  ["inputs", "configurations"], "for every combination of settings, in particular at, just inside and just outside each limit",
  "tests try single values per option; combinations and both sides of every limit are not covered",
  ["device_options.go", DEV, GEN, "types/speed.go", "types/battery.go", "types/model.go", "types/sensor.go", "types/validator.go", "navigator/options.go", "navigator/types.go"],
  [("validation", "types/*.go, navigator/options.go, navigator/types.go"), ("defaults", "device_options.go, generator.go prepare")], None,
  ["NewDevice", "New", "NewSensor", "types.NewSpeed/NewBattery/NewModel", "navigator.New/ParseName"])

p("C19", "The sensor set is exact and sensors advance with the tracker",
  "A tracker's sensors are exactly those added and not removed, in order, each identifier (upper and lower case are different) at most once; adding a missing or known sensor or removing an unknown one has no effect, and every way of reading the set (list, count, by index, by identifier, iteration, published state after the change) agrees. Every successful tick advances every sensor once with the tracker's progress, a failed tick advances none, and a finished lap reshuffles them without leaving their range. A list of sensors obtained before keeps its content.",
  ["histories"], "for every sequence of adding, removing, resetting and reading sensors interleaved with ticks",
  "tests add or remove once and compare a count",
  [DEV, "types/sensor.go"], [("sensor list", DEV+" AddSensor/RemoveSensor/ResetSensors/updateSensors")], None,
  ["Device.Sensors/SensorByID/SensorAt/EachSensor/NumSensors", "Device.State sensors"])

p("C20", "Random routes and locations are well formed",
  "A random route has the requested number of tracks, each a closed loop of seventeen points forming sixteen connected segments of positive length around the requested centre, every point on the globe (also around centres next to a pole or the antimeridian), growing with the complexity level, which is clamped to the supported range; routes and tracks have valid names and colours and distinct identifiers, and survive encoding. Random locations for a country or region always lie within its bounds, and random polygons have the requested number of points plus the closing one for any request.",
  ["inputs"], "for every centre, number of tracks and level, every supported country and region, and any number of draws",
  "tests draw once or a few times and check that something came back",
  ["route.go", "random/polygon.go", "random/latlon.go", "random/string.go", "geo/normalize.go", "geo/geo.go"], [("polygon generation", "random/polygon.go"), ("clamping", "route.go RandomRoute")], None,
  ["RandomRoute", "random.Polygon", "random.LatLon"])

p("C21", "Step notifications follow the packets of their tick",
  "The step callback is invoked at most once per generator tick, only after every packet callback of that tick has returned, one at a time and in order; ticks that end while it is still running lead to at most one further invocation. A step callback or its absence never delays or suppresses packets.",
  ["schedules"], "for every relative speed of ticks, packet callbacks and step callbacks",
  "tests only count that the callback was invoked",
  [GEN], [("notification slot", GEN+" notifyNextTick/doNext")], None, ["Generator.OnNext", "Generator.OnPacket"])

p("C22", "Packets are decodable and failures go to the error callback",
  "Every byte slice given to the packet callback decodes to a packet with the current time and fully populated trackers, and stays as it was delivered. When a packet cannot be encoded the error callback is invoked once for it instead, or nothing when none is set, the packet callback is not invoked for it, and the other packets and later ticks are unaffected; a generator with no callbacks at all keeps ticking its trackers.",
  ["fault_sequences", "configurations"], "for every combination of callbacks set and every choice of trackers whose state cannot be encoded",
  "no test makes encoding fail",
  [GEN, "encoding.go"], [("error branch", GEN+" doWorker")], None, ["OnPacket", "OnError"])

p("C23", "Third-party GeoJSON and GPX map to routes as documented",
  "Decoding GeoJSON that was not written by this library gives one route per feature, with its properties, and one track per line, per polygon (its outer ring), per member of a multi-line, multi-polygon or collection, and one for a multi-point; GPX gives one route per track with one track per segment, else one route per GPX route, and a single route from way points when there are any. Points keep their order and coordinates, and anything with fewer than two points or an unsupported geometry is an error.",
  ["inputs"], "for every combination of geometry types, nesting, counts and properties",
  "tests decode one sample file per geometry type and count tracks",
  ["geojson/encoding.go", "gpx/encoding.go"], [("geometry mapping", "geojson/encoding.go parseGeometry"), ("GPX mapping", "gpx/encoding.go Decode")], None,
  ["DecodeGeoJSONRoutes", "DecodeGPXRoutes"])

p("C24", "Routes, tracks and segments are consistent",
  "A track built from n points (n at least two, otherwise it is refused) has n-1 segments that start and end at consecutive points with their great-circle length and initial bearing (from 0 to 360 degrees); its distance is their sum and it is closed exactly when it has three or more points and ends where it starts. A route's tracks, look-ups by index or identifier and distance follow every addition and removal, renaming or recolouring is accepted exactly for valid values, and every such change, and only a change or look-up by identifier, increases the version.",
  ["inputs", "histories"], "for every list of points on the globe and every sequence of changes to a route and its tracks",
  "tests build a few tracks and compare constants",
  ["navigator/route.go", "navigator/route_track.go", "navigator/route_track_segment.go", "navigator/types.go", "geo/distance.go", "geo/bearing.go"],
  [("segment construction", "navigator/route_track_segment.go makeSegments"), ("route totals", "navigator/route.go updateState")], None,
  ["navigator.NewTrack/RestoreTrack", "Route.AddTrack/RemoveTrack/TrackByID"])

p("C25", "User properties are a typed map",
  "A property read back with the type it was set with (string, boolean, whole number, floating point) gives the value last set for that key; read with another type, after removal or after a reset it reports absence. Merging takes over exactly the other map's entries, overwriting equal keys and leaving the other map unchanged.",
  ["histories", "inputs"], "for every sequence of set, remove, merge and reset over any keys and value types",
  "tests set each type once",
  ["properties/properties.go"], [("typed getters", "properties/properties.go")], None, ["Properties.*"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
