From 43015454af03c3ec665c9ea37c04a9801b0c0124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:01 +0000
Subject: [PATCH 01/30] fix: jump to a distance finds the route, track and
 segment that contain it

The search added the loop index to the running index, so any set with
three or more routes or tracks ended up at a wrong or non-existing
position, and the end of a longer set mapped to the start of its last
route.
---
 navigator/navigator.go | 68 ++++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 43 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 45157e3..1267307 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -615,69 +615,51 @@ func (n *Navigator) jump(distance float64) bool {
 	}
 
 	var (
-		route        *Route
-		track        *Track
 		segment      Segment
 		trackIndex   int
 		routeIndex   int
 		segmentIndex int
-		routeDist    float64
 		curRouteDist float64
 		curTrackDist float64
+		diff         float64
 	)
 
+	rest := distance
+search:
 	for i := 0; i < len(n.routes); i++ {
-		route = n.routes[i]
-		routeIndex += i
-		if route.dist+routeDist > distance {
-			break
-		}
-		routeDist += route.dist
-	}
-	if route == nil {
-		return false
-	}
-
-	for i := 0; i < route.NumTracks(); i++ {
-		track = route.TrackAt(i)
-		if track == nil {
-			continue
-		}
-		trackIndex += i
-		if track.dist+routeDist > distance {
-			break
-		}
-		curRouteDist += track.dist
-		routeDist += track.dist
-	}
-	if track == nil {
-		return false
-	}
-
-	for i := 0; i < track.NumSegments(); i++ {
-		segment = track.SegmentAt(i)
-		if segment.IsEmpty() {
-			continue
-		}
-		segmentIndex = i
-		if segment.dist+routeDist > distance {
-			break
+		route := n.routes[i]
+		routeDist := 0.0
+		for j := 0; j < route.NumTracks(); j++ {
+			track := route.TrackAt(j)
+			trackDist := 0.0
+			for k := 0; k < track.NumSegments(); k++ {
+				next := track.SegmentAt(k)
+				if next.IsEmpty() {
+					continue
+				}
+				segment = next
+				routeIndex, trackIndex, segmentIndex = i, j, k
+				curRouteDist, curTrackDist = routeDist, trackDist
+				diff = math.Min(rest, segment.dist)
+				if rest < segment.dist {
+					break search
+				}
+				rest -= segment.dist
+				routeDist += segment.dist
+				trackDist += segment.dist
+			}
 		}
-		routeDist += segment.dist
-		curRouteDist += segment.dist
-		curTrackDist += segment.dist
 	}
 	if segment.IsEmpty() {
 		return false
 	}
 
-	diff := math.Abs(distance - routeDist)
 	n.point = segment.DestinationTo(diff)
 	n.routeIndex = routeIndex
 	n.trackIndex = trackIndex
 	n.segmentIndex = segmentIndex
 	n.currentSegmentDistance = diff
-	n.currentDistance = routeDist + diff
+	n.currentDistance = distance
 	n.currentRouteDistance = curRouteDist + diff
 	n.currentTrackDistance = curTrackDist + diff
 	return true
-- 
2.43.0


From c07d913db080fa293c5c381a26d33ad96fe9c37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 02/30] fix: repeated points do not end a track early

A zero-length segment was taken for the end of the track, so the rest of
the track was skipped and the tracker went offline.
---
 navigator/navigator.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 1267307..258923e 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -522,9 +522,8 @@ loop:
 			}
 			break
 		} else {
-			seg := n.nextSegment()
-			foundSegment := !seg.IsEmpty()
-			notFoundSegment := seg.IsEmpty()
+			seg, foundSegment := n.nextSegment()
+			notFoundSegment := !foundSegment
 			switch {
 			case foundSegment:
 				if !seg.hasRelation() {
@@ -701,18 +700,18 @@ func (n *Navigator) nextOffline() bool {
 	return false
 }
 
-func (n *Navigator) nextSegment() Segment {
+func (n *Navigator) nextSegment() (Segment, bool) {
 	track := n.CurrentTrack()
 	if track == nil {
-		return Segment{}
+		return Segment{}, false
 	}
-	if n.segmentIndex == track.NumSegments()-1 {
-		return Segment{}
+	if n.segmentIndex >= track.NumSegments()-1 {
+		return Segment{}, false
 	}
-	segment := n.CurrentSegment()
+	segment := track.SegmentAt(n.segmentIndex)
 	n.currentSegmentDistance = 0
 	n.segmentIndex++
-	return segment
+	return segment, true
 }
 
 func (n *Navigator) nextTrack() bool {
-- 
2.43.0


From 3fb8393d6b16bb5bcce43c8fafefa975a43a21eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 03/30] fix: removing a track restarts the position and
 refreshes the total

As after removing a route; before, the position could point past the
remaining tracks and the total distance still contained the removed one.
---
 navigator/navigator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 258923e..304e9df 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -179,6 +179,7 @@ func (n *Navigator) RemoveTrack(routeID string, trackID string) bool {
 	ok := route.RemoveTrack(trackID)
 	if ok {
 		n.nextVersion()
+		n.Reset()
 	}
 	return ok
 }
-- 
2.43.0


From 21c340b53ab5bdf6cee9e05224aaffbf5fd4f8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:25 +0000
Subject: [PATCH 04/30] fix: total distance follows changes made on an attached
 route

The total was only summed up when routes were added or removed through
the tracker and went stale when a track was added to or removed from a
route directly, while the tracker already walked the changed route.
---
 navigator/navigator.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 304e9df..b83d769 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -22,7 +22,6 @@ type Navigator struct {
 	point                  geo.LatLonPoint
 	elevation              *types.Sensor
 	offline                *types.Random
-	distance               float64
 	skipOffline            bool
 	version                int
 }
@@ -186,7 +185,11 @@ func (n *Navigator) RemoveTrack(routeID string, trackID string) bool {
 
 // Distance returns the total distance of the navigator's routes.
 func (n *Navigator) Distance() float64 {
-	return n.distance
+	distance := 0.0
+	for i := 0; i < len(n.routes); i++ {
+		distance += n.routes[i].dist
+	}
+	return distance
 }
 
 // CurrentDistance returns the current accumulated distance.
@@ -336,7 +339,7 @@ func (n *Navigator) OfflineDuration() int {
 func (n *Navigator) Update(state *proto.Device) {
 	n.normalizeDeviceState(state)
 
-	state.Distance.Distance = n.distance
+	state.Distance.Distance = n.Distance()
 	state.Distance.CurrentDistance = n.currentDistance
 	state.Distance.RouteDistance = n.RouteDistance()
 	state.Distance.CurrentRouteDistance = n.currentRouteDistance
@@ -562,7 +565,7 @@ func (n *Navigator) Snapshot() *proto.Snapshot_Navigator {
 		OfflineIndex:           int64(n.offlineIndex),
 		Point:                  &proto.Snapshot_PointLatLon{Lon: n.point.Lon, Lat: n.point.Lat},
 		Elevation:              n.elevation.Snapshot(),
-		Distance:               n.distance,
+		Distance:               n.Distance(),
 		SkipOffline:            n.skipOffline,
 		Version:                int64(n.version),
 	}
@@ -601,14 +604,13 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 	if !n.skipOffline {
 		n.offline = types.NewRandom(int(snap.OfflineMin), int(snap.OfflineMax))
 	}
-	n.distance = snap.Distance
 	n.skipOffline = snap.SkipOffline
 	n.version = int(snap.Version)
 }
 
 func (n *Navigator) jump(distance float64) bool {
-	if distance > n.distance {
-		distance = n.distance
+	if total := n.Distance(); distance > total {
+		distance = total
 	}
 	if distance < 1 {
 		return false
@@ -665,10 +667,9 @@ search:
 	return true
 }
 
-// Reset resets the Navigator's state, including indexes and calculated route distance.
+// Reset resets the Navigator's state, including indexes and current distances.
 func (n *Navigator) Reset() {
 	n.resetIndexes()
-	n.calcRouteDistance()
 }
 
 func (n *Navigator) updateDist(newDist float64) {
@@ -741,13 +742,6 @@ func (n *Navigator) nextRoute() {
 	n.currentDistance = 0.1
 }
 
-func (n *Navigator) calcRouteDistance() {
-	n.distance = 0
-	for i := 0; i < len(n.routes); i++ {
-		n.distance += n.routes[i].dist
-	}
-}
-
 func (n *Navigator) resetIndexes() {
 	n.routeIndex = 0
 	n.trackIndex = 0
-- 
2.43.0


From a486887ed02f3c67551a274f373b2f7f75a542b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 05/30] fix: a step of a tenth of a metre is not a finished lap

The finish was recognised by the total distance being 0.1, which a slow
tracker reaches with its first step: going offline then restarted its
lap.
---
 navigator/navigator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index b83d769..eafc0b7 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -23,6 +23,7 @@ type Navigator struct {
 	elevation              *types.Sensor
 	offline                *types.Random
 	skipOffline            bool
+	finish                 bool
 	version                int
 }
 
@@ -241,11 +242,13 @@ func (n *Navigator) CurrentSegmentDistance() float64 {
 
 // IsFinish checks if the navigator has finished its navigation path.
 func (n *Navigator) IsFinish() bool {
-	if n.routeIndex == 0 &&
+	if n.finish &&
+		n.routeIndex == 0 &&
 		n.trackIndex == 0 &&
 		n.segmentIndex == 0 &&
 		n.currentDistance == 0.1 {
 		n.currentDistance = 0
+		n.finish = false
 		return true
 	}
 	return false
@@ -740,6 +743,7 @@ func (n *Navigator) nextRoute() {
 	}
 	n.routeIndex = 0
 	n.currentDistance = 0.1
+	n.finish = true
 }
 
 func (n *Navigator) resetIndexes() {
@@ -750,6 +754,7 @@ func (n *Navigator) resetIndexes() {
 	n.currentRouteDistance = 0
 	n.currentTrackDistance = 0
 	n.currentDistance = 0
+	n.finish = false
 }
 
 func (n *Navigator) hasRoute(id string) bool {
-- 
2.43.0


From 72c02eff20850bce24ac191a198b98653b4ffc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:46 +0000
Subject: [PATCH 06/30] fix: refreshed state names no removed route and has a
 finite estimate

After the last route was removed the state kept the identifiers of the
old route and track, and with speed zero the time estimate was NaN or
infinite.
---
 device.go              | 5 ++++-
 navigator/navigator.go | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 16f5bcd..01297c8 100644
--- a/device.go
+++ b/device.go
@@ -824,7 +824,10 @@ func (d *Device) updateState() {
 	d.navigator.Update(d.state)
 	d.state.Battery.Charge = d.battery.Value()
 	d.state.Battery.ChargeTime = int64(d.battery.ChargeTime().Seconds())
-	d.state.TimeEstimate = d.state.Distance.Distance / d.state.Speed
+	d.state.TimeEstimate = 0
+	if d.state.Speed > 0 {
+		d.state.TimeEstimate = d.state.Distance.Distance / d.state.Speed
+	}
 	if len(d.sensors) != len(d.state.Sensors) {
 		d.updateSensors()
 	} else {
diff --git a/navigator/navigator.go b/navigator/navigator.go
index eafc0b7..1207dd3 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -354,6 +354,8 @@ func (n *Navigator) Update(state *proto.Device) {
 	state.Navigator.CurrentRouteIndex = int64(n.routeIndex)
 	state.Navigator.CurrentTrackIndex = int64(n.trackIndex)
 	state.Navigator.CurrentSegmentIndex = int64(n.segmentIndex)
+	state.Navigator.CurrentRouteId = ""
+	state.Navigator.CurrentTrackId = ""
 	if route := n.CurrentRoute(); route != nil {
 		state.Navigator.CurrentRouteId = route.ID()
 	}
-- 
2.43.0


From 92e2496a0a7d51083a32d572a0a4d2614e6dc6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 07/30] fix: random values stay in range when the bounds are
 inverted

The difference of the bounds wrapped around and values of up to 2^32
were drawn.
---
 types/random.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/random.go b/types/random.go
index 85c3356..c4d1783 100644
--- a/types/random.go
+++ b/types/random.go
@@ -40,6 +40,10 @@ func NewRandom(min, max int) *Random {
 		max = 1
 	}
 
+	if max < min {
+		max = min
+	}
+
 	return &Random{
 		min: min,
 		max: max,
-- 
2.43.0


From 93252a8c76b156adbbd588207499bedb5e23907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 08/30] fix: snapshots and sensor look-ups hold the tracker's
 lock

A snapshot taken during a tick mixed two states, and a sensor removed
between the bounds check and the access crashed the look-up.
---
 device.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/device.go b/device.go
index 01297c8..1303638 100644
--- a/device.go
+++ b/device.go
@@ -284,13 +284,13 @@ func (d *Device) NumSensors() int {
 
 // SensorAt returns the sensor at the specified index from the device's navigator.
 func (d *Device) SensorAt(i int) *types.Sensor {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+
 	if len(d.sensors) == 0 || i > len(d.sensors)-1 || i < 0 {
 		return nil
 	}
 
-	d.mu.RLock()
-	defer d.mu.RUnlock()
-
 	return d.sensors[i]
 }
 
@@ -717,6 +717,9 @@ func (d *Device) UnmarshalBinary(data []byte) error {
 // Snapshot creates and returns a snapshot of the device's current state.
 // The snapshot includes device information, status, duration, navigator, speed, battery, and sensors (if any).
 func (d *Device) Snapshot() *pb.Snapshot {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+
 	snap := &pb.Snapshot{
 		Id:        d.state.Id,
 		UserId:    d.state.UserId,
@@ -733,11 +736,9 @@ func (d *Device) Snapshot() *pb.Snapshot {
 
 	if len(d.sensors) > 0 {
 		snap.Sensors = make([]*pb.Snapshot_SensorType, len(d.sensors))
-		d.mu.RLock()
 		for i := 0; i < len(d.sensors); i++ {
 			snap.Sensors[i] = d.sensors[i].Snapshot()
 		}
-		d.mu.RUnlock()
 	}
 	return snap
 }
-- 
2.43.0


From 4462a89310f97eab23ddbec40b8f3f0b2cde0197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:10 +0000
Subject: [PATCH 09/30] fix: a published state no longer changes under its
 reader

State returned the message that the next tick writes to without any
lock, so readers and packets could see half of a later tick.
---
 device.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 1303638..6f6a8c7 100644
--- a/device.go
+++ b/device.go
@@ -369,7 +369,7 @@ func (d *Device) Status() Status {
 func (d *Device) State() *pb.Device {
 	d.mu.RLock()
 	defer d.mu.RUnlock()
-	return d.state
+	return proto.Clone(d.state).(*pb.Device)
 }
 
 // Update updates the device's state and routes based on its current navigator state.
-- 
2.43.0


From 29d1f7a54c43e5ffa37c0a63130efade6494a9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:25 +0000
Subject: [PATCH 10/30] fix: restoring a snapshot replaces sensors and offline
 mode

Sensors of the target survived a snapshot without any, and whether an
offline range is restored depended on the mode of the target instead of
the snapshot's, which crashed the next offline period.
---
 device.go              | 1 +
 navigator/navigator.go | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 6f6a8c7..5d62288 100644
--- a/device.go
+++ b/device.go
@@ -766,6 +766,7 @@ func (d *Device) FromSnapshot(snap *pb.Snapshot) {
 	d.state.Speed = d.speed.Value()
 	d.battery = new(types.Battery)
 	d.battery.FromSnapshot(snap.Battery)
+	d.sensors = nil
 	if len(snap.Sensors) > 0 {
 		d.sensors = make([]*types.Sensor, len(snap.Sensors))
 		for i := 0; i < len(snap.Sensors); i++ {
diff --git a/navigator/navigator.go b/navigator/navigator.go
index 1207dd3..db68102 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -606,10 +606,12 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 	}
 	n.elevation = new(types.Sensor)
 	n.elevation.FromSnapshot(snap.Elevation)
+	n.skipOffline = snap.SkipOffline
+	n.offline = nil
 	if !n.skipOffline {
 		n.offline = types.NewRandom(int(snap.OfflineMin), int(snap.OfflineMax))
 	}
-	n.skipOffline = snap.SkipOffline
+	n.finish = false
 	n.version = int(snap.Version)
 }
 
-- 
2.43.0


From 344022b2e4bc10e81f1bfd9ae6aa089843c821cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:48 +0000
Subject: [PATCH 11/30] fix: restoring a snapshot keeps a tracker attached and
 drops missed ticks

Restoring marked an attached tracker as stopped, so it could be attached
a second time and detaching it failed; ticks missed before the restore
were added to the restored duration.
---
 device.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 5d62288..f18bddf 100644
--- a/device.go
+++ b/device.go
@@ -758,7 +758,10 @@ func (d *Device) FromSnapshot(snap *pb.Snapshot) {
 	d.state.Color = snap.Color
 	d.state.Description = snap.Descr
 	d.state.Duration = snap.Duration
-	d.status = Status(snap.Status)
+	if d.status != Running {
+		d.status = Status(snap.Status)
+	}
+	d.resetTick()
 	d.navigator = new(navigator.Navigator)
 	d.navigator.FromSnapshot(snap.Navigator)
 	d.speed = new(types.Speed)
-- 
2.43.0


From 25b119e104956ea55456ad03b1c49e95cc591d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:49 +0000
Subject: [PATCH 12/30] fix: the state of a new tracker reports its constant
 speed

It was zero until the first tick, but not after restoring the same
tracker from a snapshot.
---
 device.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/device.go b/device.go
index f18bddf..2dccd1d 100644
--- a/device.go
+++ b/device.go
@@ -74,6 +74,7 @@ func NewDevice(opts *DeviceOptions) (*Device, error) {
 		battery:   battery,
 		state:     state,
 	}
+	dev.state.Speed = speed.Value()
 
 	return dev, nil
 }
-- 
2.43.0


From 05b467fe7409c8506f80961079f1567dd25a4cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:59 +0000
Subject: [PATCH 13/30] fix: decoding incomplete binary data is an error
 instead of a crash

Well-formed protobuf data without a navigator, a speed or elevation
curve, a control point, a battery or a segment end point crashed the
decoders (or the first tick), and decoding routes ignored errors.
---
 device.go          |  3 +++
 io.go              | 57 +++++++++++++++++++++++++++++++++++++++++++++-
 navigator/route.go |  5 ++++
 3 files changed, 64 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 2dccd1d..0790103 100644
--- a/device.go
+++ b/device.go
@@ -711,6 +711,9 @@ func (d *Device) UnmarshalBinary(data []byte) error {
 	if err := proto.Unmarshal(data, snap); err != nil {
 		return err
 	}
+	if err := validateSnapshot(snap); err != nil {
+		return err
+	}
 	d.FromSnapshot(snap)
 	return nil
 }
diff --git a/io.go b/io.go
index d664a69..3bd0685 100644
--- a/io.go
+++ b/io.go
@@ -56,6 +56,9 @@ func DecodeSensors(data []byte) ([]*types.Sensor, error) {
 	if err := proto.Unmarshal(data, pbsensors); err != nil {
 		return nil, err
 	}
+	if err := validateSensors(pbsensors.Sensors); err != nil {
+		return nil, err
+	}
 	sensors := make([]*types.Sensor, len(pbsensors.Sensors))
 	for i := 0; i < len(pbsensors.Sensors); i++ {
 		sensor := new(types.Sensor)
@@ -91,7 +94,9 @@ func DecodeRoutes(data []byte) ([]*navigator.Route, error) {
 	routes := make([]*navigator.Route, len(pbroutes.Routes))
 	for i := 0; i < len(pbroutes.Routes); i++ {
 		route := new(navigator.Route)
-		route.RouteFromSnapshot(pbroutes.Routes[i])
+		if err := route.RouteFromSnapshot(pbroutes.Routes[i]); err != nil {
+			return nil, err
+		}
 		routes[i] = route
 	}
 	return routes, nil
@@ -116,3 +121,53 @@ func EncodeGPXRoutes(routes []*navigator.Route) ([]byte, error) {
 func DecodeGPXRoutes(data []byte) ([]*navigator.Route, error) {
 	return gpx.Decode(data)
 }
+
+// validateSnapshot checks that a decoded snapshot has every part that is needed to restore a tracker.
+func validateSnapshot(snap *pb.Snapshot) error {
+	if snap.Navigator.GetPoint() == nil || snap.Speed == nil || snap.Battery == nil {
+		return fmt.Errorf("gpsgen: incomplete snapshot data")
+	}
+	if err := validateCurve(snap.Navigator.Elevation.GetGen()); err != nil {
+		return err
+	}
+	if err := validateCurve(snap.Speed.Gen); err != nil {
+		return err
+	}
+	if err := validateSensors(snap.Sensors); err != nil {
+		return err
+	}
+	for i := 0; i < len(snap.Navigator.Routes); i++ {
+		if err := new(navigator.Route).RouteFromSnapshot(snap.Navigator.Routes[i]); err != nil {
+			return err
+		}
+	}
+	maxIndex := int64(len(snap.Navigator.Routes) - 1)
+	if snap.Navigator.RouteIndex < 0 ||
+		snap.Navigator.TrackIndex < 0 ||
+		snap.Navigator.SegmentIndex < 0 ||
+		(maxIndex >= 0 && snap.Navigator.RouteIndex > maxIndex) {
+		return fmt.Errorf("gpsgen: invalid position in snapshot data")
+	}
+	return nil
+}
+
+func validateSensors(sensors []*pb.Snapshot_SensorType) error {
+	for i := 0; i < len(sensors); i++ {
+		if err := validateCurve(sensors[i].GetGen()); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+func validateCurve(curve *pb.Snapshot_Curve) error {
+	if len(curve.GetPoints()) == 0 {
+		return fmt.Errorf("gpsgen: snapshot data without control points")
+	}
+	for i := 0; i < len(curve.Points); i++ {
+		if curve.Points[i].GetVp() == nil || curve.Points[i].GetCp() == nil {
+			return fmt.Errorf("gpsgen: snapshot data with incomplete control point")
+		}
+	}
+	return nil
+}
diff --git a/navigator/route.go b/navigator/route.go
index 69e9b0b..573412d 100644
--- a/navigator/route.go
+++ b/navigator/route.go
@@ -203,6 +203,11 @@ func (r *Route) RouteFromSnapshot(snap *RouteSnapshot) error {
 	}
 	tracks := make([]*Track, len(snap.Tracks))
 	for i := 0; i < len(snap.Tracks); i++ {
+		for _, segment := range snap.Tracks[i].GetSegmenets() {
+			if segment.GetPointA() == nil || segment.GetPointB() == nil {
+				return ErrInvalidRoutePath
+			}
+		}
 		track := new(Track)
 		TrackFromSnapshot(track, snap.Tracks[i])
 		tracks[i] = track
-- 
2.43.0


From 65e70d455291927be651b0dfc9d7e104ac2310a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:00 +0000
Subject: [PATCH 14/30] fix: every track of a GeoJSON collection gets its own
 identity back

All tracks of a route with several tracks were restored with the
identifier, colour and properties of the first, track names were
dropped, and a track that cannot be restored crashed the decoder.
---
 geojson/encoding.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/geojson/encoding.go b/geojson/encoding.go
index 442db31..98737f2 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -140,7 +140,11 @@ func parseGeometries(route *navigator.Route, tracks []trackInfo, geom orb.Geomet
 	}
 
 	for i := 0; i < len(collection); i++ {
-		if err := parseGeometry(route, tracks, collection[i]); err != nil {
+		var info []trackInfo
+		if tracks != nil {
+			info = tracks[i : i+1]
+		}
+		if err := parseGeometry(route, info, collection[i]); err != nil {
 			return err
 		}
 	}
@@ -156,9 +160,7 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 		if !trackExists {
 			track, err = navigator.NewTrack(toPoints(geom))
 		} else {
-			trackInfo := tracks[0]
-			track, err = navigator.RestoreTrack(trackInfo.ID, trackInfo.Color, toPoints(geom))
-			track.Props().Merge(trackInfo.Props)
+			track, err = restoreTrack(tracks[0], geom)
 		}
 		if err != nil {
 			return err
@@ -184,9 +186,7 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 		if !trackExists {
 			track, err = navigator.NewTrack(toPoints(geom[0]))
 		} else {
-			trackInfo := tracks[0]
-			track, err = navigator.RestoreTrack(trackInfo.ID, trackInfo.Color, toPoints(geom[0]))
-			track.Props().Merge(trackInfo.Props)
+			track, err = restoreTrack(tracks[0], geom[0])
 		}
 		if err != nil {
 			return err
@@ -220,6 +220,18 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 	return
 }
 
+func restoreTrack(info trackInfo, points []orb.Point) (*navigator.Track, error) {
+	track, err := navigator.RestoreTrack(info.ID, info.Color, toPoints(points))
+	if err != nil {
+		return nil, err
+	}
+	track.Props().Merge(info.Props)
+	if len(info.Name) > 0 {
+		_ = track.ChangeName(info.Name)
+	}
+	return track, nil
+}
+
 func toPoints(points []orb.Point) []geo.LatLonPoint {
 	latLons := make([]geo.LatLonPoint, len(points))
 	for i := 0; i < len(points); i++ {
-- 
2.43.0


From 5054e39e7a50b654b62d274f3c7a5566d6c1299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:03 +0000
Subject: [PATCH 15/30] fix: a track is closed only when it ends where it
 starts

The latitude of the last point was compared with itself, so any track
with equal longitudes at both ends counted as closed.
---
 navigator/route_track.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/navigator/route_track.go b/navigator/route_track.go
index d283e05..b3c4d48 100644
--- a/navigator/route_track.go
+++ b/navigator/route_track.go
@@ -183,5 +183,5 @@ func isClosed(points []geo.LatLonPoint) bool {
 	p1 := points[0]
 	p2 := points[len(points)-1]
 	return p1.Lon == p2.Lon &&
-		p2.Lat == p2.Lat
+		p1.Lat == p2.Lat
 }
-- 
2.43.0


From 1107d889bd1768bbeb1d6745becc7c487d6cc722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:19 +0000
Subject: [PATCH 16/30] fix: null in a GeoJSON document is an error instead of
 a crash

A null document, feature or geometry crashed the decoder.
---
 geojson/encoding.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/geojson/encoding.go b/geojson/encoding.go
index 98737f2..3746d93 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -32,9 +32,15 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 	if err := json.Unmarshal(data, &fc); err != nil {
 		return nil, err
 	}
+	if fc == nil {
+		return nil, ErrNoRoutes
+	}
 	routes := make([]*navigator.Route, 0, len(fc.Features))
 	for i := 0; i < len(fc.Features); i++ {
 		feature := fc.Features[i]
+		if feature == nil {
+			return nil, ErrInvalidRoute
+		}
 		if feature.Type != "Feature" {
 			continue
 		}
@@ -214,6 +220,8 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 			return err
 		}
 		route.AddTrack(track)
+	case nil:
+		err = ErrInvalidGeometryType
 	default:
 		err = fmt.Errorf("%w - %s", ErrInvalidGeometryType, geom.GeoJSONType())
 	}
-- 
2.43.0


From c087766ba4f646e3a1750bd5e2779439cb5d6adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:37 +0000
Subject: [PATCH 17/30] fix: track properties are written to GPX

They were added to a copy of the node that had already been stored.
---
 gpx/encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 584a28e..1116c18 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -63,10 +63,10 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 			trackNode.SetAttr("color", track.Color())
 			trackNode.SetAttr("distance", f2s(track.Distance()))
 			trackNode.Data = track.ID()
-			routeNode.Nodes = append(routeNode.Nodes, trackNode)
 			if attrs := makeAttrs(track.Props()); len(attrs) > 0 {
 				trackNode.Attrs = append(trackNode.Attrs, attrs...)
 			}
+			routeNode.Nodes = append(routeNode.Nodes, trackNode)
 
 			gpxTrack.Segments = append(gpxTrack.Segments, gpxSegment)
 		}
-- 
2.43.0


From d2425aa6d7e693f34853282c79a96dd3db4e0f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:39 +0000
Subject: [PATCH 18/30] fix: GPX names and identifiers that look like numbers
 are kept

They were converted like user properties; a name such as 2023 was lost
and a route with such an identifier could not be decoded.
---
 gpx/encoding.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 1116c18..1f84da1 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -104,12 +104,12 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 			}
 			routeInfo := root.Nodes[i]
 			routeProps := makeProps(routeInfo.Attrs)
-			routeID, ok := routeProps.String("id")
+			routeID, ok := attr(routeInfo.Attrs, "id")
 			if !ok {
 				return nil, ErrInvalidRoute
 			}
-			color, _ := routeProps.String("color")
-			routeName, _ := routeProps.String("name")
+			color, _ := attr(routeInfo.Attrs, "color")
+			routeName, _ := attr(routeInfo.Attrs, "name")
 			resetProps(routeProps)
 			route := navigator.RestoreRoute(routeID, color, routeProps)
 			if len(routeName) > 0 {
@@ -122,8 +122,8 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 				trackInfo := root.Nodes[i].Nodes[j]
 				trackID := trackInfo.Data
 				trackProps := makeProps(trackInfo.Attrs)
-				color, _ := trackProps.String("color")
-				trackName, _ := trackProps.String("name")
+				color, _ := attr(trackInfo.Attrs, "color")
+				trackName, _ := attr(trackInfo.Attrs, "name")
 				resetProps(trackProps)
 				track, err := navigator.RestoreTrack(
 					trackID,
@@ -221,6 +221,15 @@ func makeAttrs(props properties.Properties) []xml.Attr {
 	return attrs
 }
 
+func attr(attrs []xml.Attr, name string) (string, bool) {
+	for i := 0; i < len(attrs); i++ {
+		if attrs[i].Name.Local == name {
+			return attrs[i].Value, true
+		}
+	}
+	return "", false
+}
+
 func makeProps(attrs []xml.Attr) properties.Properties {
 	props := properties.Make()
 	for i := 0; i < len(attrs); i++ {
-- 
2.43.0


From 3a506a2fafed3d6548ec3ad5c413a26559af9ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:07 +0000
Subject: [PATCH 19/30] fix: trackers created from the same options get
 different identifiers

The generated identifier was written back into the options.
---
 device_options.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/device_options.go b/device_options.go
index c015148..f23543f 100644
--- a/device_options.go
+++ b/device_options.go
@@ -47,10 +47,10 @@ type DeviceOptions struct {
 }
 
 func (o *DeviceOptions) applyFor(s *pb.Device) error {
-	if len(o.ID) == 0 {
-		o.ID = uuid.NewString()
-	}
 	s.Id = o.ID
+	if len(s.Id) == 0 {
+		s.Id = uuid.NewString()
+	}
 	s.Description = o.Descr
 	if len(o.Model) > 0 {
 		model, err := types.NewModel(o.Model)
-- 
2.43.0


From 3737566048937d157fab64cbe3526bd0f03ba1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 20/30] fix: a random polygon of zero points gets the default
 number

It crashed with an index out of range.
---
 random/polygon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random/polygon.go b/random/polygon.go
index a38415f..220b25c 100644
--- a/random/polygon.go
+++ b/random/polygon.go
@@ -17,7 +17,7 @@ const (
 // Polygon generates a random polygon with the specified number of points and zoom level.
 // It returns a slice of [2]float64 representing the polygon's coordinates.
 func Polygon(points int, zoom float64) [][2]float64 {
-	if points < 0 {
+	if points <= 0 {
 		points = defaultPoints
 	}
 	if zoom < minZoom {
-- 
2.43.0


From 070284e2f43b234507c726746c7ec10f62113877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 21/30] fix: a missed tick counts with its own length

A tick that found the tracker busy was made up for by one second, so
with the default interval of three seconds simulated time was lost, and
a tick missed while another one collected the counter was lost as well.
---
 device.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/device.go b/device.go
index 0790103..e47b0f5 100644
--- a/device.go
+++ b/device.go
@@ -634,7 +634,7 @@ func (d *Device) Version() [3]int {
 func (d *Device) Next(tick float64) bool {
 	ok := d.mu.TryLock()
 	if !ok {
-		d.incTick()
+		d.incTick(tick)
 		return false
 	}
 	defer d.mu.Unlock()
@@ -643,9 +643,8 @@ func (d *Device) Next(tick float64) bool {
 		return false
 	}
 
-	tickLock := atomic.LoadUint32(&d.tick)
+	tickLock := atomic.SwapUint32(&d.tick, 0)
 	seconds := float64(float64(tickLock) + tick)
-	d.resetTick()
 	d.state.Duration += seconds
 	d.state.Tick = seconds
 
@@ -816,8 +815,8 @@ func (d *Device) unmount() error {
 	return nil
 }
 
-func (d *Device) incTick() {
-	atomic.AddUint32(&d.tick, 1)
+func (d *Device) incTick(tick float64) {
+	atomic.AddUint32(&d.tick, uint32(math.Round(tick)))
 }
 
 func (d *Device) resetTick() {
-- 
2.43.0


From faa32dcdee08a4df4403eec2008af3a9ef3f01f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:12 +0000
Subject: [PATCH 22/30] fix: the last tracker of a full packet is sent

A full packet was sent without its last tracker.
---
 generator.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/generator.go b/generator.go
index 457f4a0..9cacf54 100644
--- a/generator.go
+++ b/generator.go
@@ -238,13 +238,12 @@ loop:
 				g.packet.Devices[g.index] = g.devices[i].State()
 				g.dmu.Unlock()
 
-				if g.index+1 == g.packetSize {
+				g.index++
+				if g.index == g.packetSize {
 					g.mu.RUnlock()
 					g.flush()
 					g.mu.RLock()
 					g.index = 0
-				} else {
-					g.index++
 				}
 			}
 			g.mu.RUnlock()
-- 
2.43.0


From ad7ca941aa49b3c3c98e3df62c529db223e50fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:14 +0000
Subject: [PATCH 23/30] fix: attaching or detaching during a tick does not
 disturb its packets

The list of trackers was read again after every full packet, so a
tracker detached meanwhile shifted the rest and one was left out, and
one attached meanwhile was reported without having been advanced.
---
 generator.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/generator.go b/generator.go
index 9cacf54..eb9f758 100644
--- a/generator.go
+++ b/generator.go
@@ -228,25 +228,25 @@ loop:
 			}
 
 			g.mu.RLock()
+			states := make([]*pb.Device, len(g.devices))
 			for i := 0; i < len(g.devices); i++ {
 				g.devices[i].Next(tick)
+				states[i] = g.devices[i].State()
 			}
+			g.mu.RUnlock()
 
 			g.index = 0
-			for i := 0; i < len(g.devices); i++ {
+			for i := 0; i < len(states); i++ {
 				g.dmu.Lock()
-				g.packet.Devices[g.index] = g.devices[i].State()
+				g.packet.Devices[g.index] = states[i]
 				g.dmu.Unlock()
 
 				g.index++
 				if g.index == g.packetSize {
-					g.mu.RUnlock()
 					g.flush()
-					g.mu.RLock()
 					g.index = 0
 				}
 			}
-			g.mu.RUnlock()
 
 			g.flush()
 			g.resetPacket()
-- 
2.43.0


From 15ccbe70caf32491b96efb21b449921a844503f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 24/30] fix: a packet that cannot be encoded is never delivered

Without an error callback its incomplete bytes went to the packet
callback.
---
 generator.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator.go b/generator.go
index eb9f758..285af14 100644
--- a/generator.go
+++ b/generator.go
@@ -292,8 +292,10 @@ func (g *Generator) doWorker(n int) {
 			data, err := enc.MarshalAppend(buf, pck)
 			g.dmu.RUnlock()
 
-			if err != nil && g.onError != nil {
-				g.onError(err)
+			if err != nil {
+				if g.onError != nil {
+					g.onError(err)
+				}
 			} else if g.onPacket != nil {
 				g.onPacket(data)
 			}
-- 
2.43.0


From 2bde5a636867548d2428e8dbb24d23cc78b5ac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:49 +0000
Subject: [PATCH 25/30] fix: closing a generator during a tick neither hangs
 nor leaks nor sends blanks

A tick in progress kept sending to workers that were gone, workers
blocked forever on handing back their token, and the packet buffer was
cleared while a worker was still reading it.
---
 generator.go | 77 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 46 insertions(+), 31 deletions(-)

diff --git a/generator.go b/generator.go
index 285af14..45561f4 100644
--- a/generator.go
+++ b/generator.go
@@ -243,12 +243,16 @@ loop:
 
 				g.index++
 				if g.index == g.packetSize {
-					g.flush()
+					if !g.flush() {
+						break loop
+					}
 					g.index = 0
 				}
 			}
 
-			g.flush()
+			if !g.flush() {
+				break loop
+			}
 			g.resetPacket()
 			g.notifyNextTick()
 
@@ -262,11 +266,8 @@ type slice struct {
 }
 
 func (g *Generator) doWorker(n int) {
-	defer func() {
-		g.wg.Done()
-		g.waitCh <- struct{}{}
-	}()
-	
+	defer g.wg.Done()
+
 	pck := &pb.Packet{}
 	enc := proto.MarshalOptions{}
 
@@ -335,35 +336,49 @@ func (g *Generator) doNext() {
 	}
 }
 
-func (g *Generator) flush() {
+// flush sends the current packet and returns false when the generator was closed meanwhile:
+// workers may then still read the packet.
+func (g *Generator) flush() bool {
 	if g.index <= g.numWorkers+g.workerSize {
-		g.sliceCh <- slice{from: 0, to: g.index}
-		if g.isClosed() {
-			return
+		return g.send(slice{from: 0, to: g.index}) && g.wait()
+	}
+	step := g.index / g.numWorkers
+	rem := g.index % g.numWorkers
+	for i := 0; i < g.numWorkers; i++ {
+		var s slice
+		s.from = i * step
+		s.to = i*step + step
+		if i == g.numWorkers-1 {
+			s.to += rem
 		}
-		<-g.waitCh
-	} else {
-		step := g.index / g.numWorkers
-		rem := g.index % g.numWorkers
-		for i := 0; i < g.numWorkers; i++ {
-			if g.isClosed() {
-				return
-			}
-			var s slice
-			s.from = i * step
-			s.to = i*step + step
-			if i == g.numWorkers-1 {
-				s.to += rem
-			}
-			g.sliceCh <- s
+		if !g.send(s) {
+			return false
 		}
-		for i := 0; i < g.numWorkers; i++ {
-			if g.isClosed() {
-				return
-			}
-			<-g.waitCh
+	}
+	for i := 0; i < g.numWorkers; i++ {
+		if !g.wait() {
+			return false
 		}
 	}
+	return true
+}
+
+func (g *Generator) send(s slice) bool {
+	select {
+	case <-g.ctx.Done():
+		return false
+	case g.sliceCh <- s:
+		return true
+	}
+}
+
+func (g *Generator) wait() bool {
+	select {
+	case <-g.ctx.Done():
+		return false
+	case <-g.waitCh:
+		return true
+	}
 }
 
 func (g *Generator) isClosed() bool {
-- 
2.43.0


From c789d2d48902bcd225d6df86fbb21cf2b6d7dce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:30 +0000
Subject: [PATCH 26/30] fix: a speed above the limit is refused when its
 maximum is not given

---
 types/speed.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types/speed.go b/types/speed.go
index f3a5744..e2cda51 100644
--- a/types/speed.go
+++ b/types/speed.go
@@ -37,12 +37,12 @@ func NewSpeed(min, max float64, amplitude int) (*Speed, error) {
 	if min < MinSpeedVal {
 		return nil, ErrMinSpeed
 	}
-	if max > MaxSpeedVal {
-		return nil, ErrMaxSpeed
-	}
 	if max <= 0 {
 		max = min
 	}
+	if max > MaxSpeedVal {
+		return nil, ErrMaxSpeed
+	}
 	if min > max {
 		return nil, ErrSpeedMinGreaterMax
 	}
-- 
2.43.0


From af2672a472d3ff196015c5aa288e1fef163b2575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:28 +0000
Subject: [PATCH 27/30] fix: a route without tracks no longer makes the whole
 GPX document unreadable

---
 gpx/encoding.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 1f84da1..80a5583 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -34,6 +34,9 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 	// map: tracks=routes, segments=tracks
 	for i := 0; i < len(routes); i++ {
 		route := routes[i]
+		if route.NumTracks() == 0 {
+			continue
+		}
 		gpxTrack := gpx.GPXTrack{
 			Segments: make([]gpx.GPXTrackSegment, 0, route.NumTracks()),
 		}
@@ -75,6 +78,10 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 		gpxData.Tracks = append(gpxData.Tracks, gpxTrack)
 	}
 
+	if len(gpxData.Tracks) == 0 {
+		return nil, ErrNoRoutes
+	}
+
 	gpxData.Extensions.Nodes = append(gpxData.Extensions.Nodes, routesNode)
 
 	return gpxData.ToXml(gpx.ToXmlParams{Version: "1.1", Indent: true})
-- 
2.43.0


From 633a430330967b526ee072c7292abac85e7dbdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:55 +0000
Subject: [PATCH 28/30] fix: a null member of a GeoJSON geometry collection is
 an error instead of a crash

---
 geojson/encoding.go           | 13 ++++++++++++-
 geojson/feature_collection.go |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/geojson/encoding.go b/geojson/encoding.go
index 3746d93..6d3a01e 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -29,7 +29,7 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 // Decode converts GeoJSON data into a slice of navigator.Routes.
 func Decode(data []byte) ([]*navigator.Route, error) {
 	fc := geojson.NewFeatureCollection()
-	if err := json.Unmarshal(data, &fc); err != nil {
+	if err := parse(func() error { return json.Unmarshal(data, &fc) }); err != nil {
 		return nil, err
 	}
 	if fc == nil {
@@ -71,6 +71,17 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 	return routes, nil
 }
 
+// parse calls fn and returns its error, or an error when it panics:
+// the GeoJSON library does when a geometry collection has a null member.
+func parse(fn func() error) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%w - %v", ErrInvalidGeometryType, r)
+		}
+	}()
+	return fn()
+}
+
 func routeExists(props map[string]interface{}) bool {
 	_, ok1 := props["routeID"]
 	_, ok2 := props["color"]
diff --git a/geojson/feature_collection.go b/geojson/feature_collection.go
index 9270fec..a44ca17 100644
--- a/geojson/feature_collection.go
+++ b/geojson/feature_collection.go
@@ -9,7 +9,7 @@ import (
 // ParseFeatureCollection parses a GeoJSON FeatureCollection from the provided data.
 func ParseFeatureCollection(data []byte) (*geojson.FeatureCollection, error) {
 	fc := geojson.NewFeatureCollection()
-	if err := fc.UnmarshalJSON(data); err != nil {
+	if err := parse(func() error { return fc.UnmarshalJSON(data) }); err != nil {
 		return nil, err
 	}
 	return fc, nil
-- 
2.43.0


From be9e8ef349342e6d05c7c3f8b29345361babf605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:37 +0000
Subject: [PATCH 29/30] fix: GPX property keys that are not XML names made the
 document unreadable

---
 gpx/encoding.go | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 80a5583..2753e08 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -4,7 +4,9 @@ import (
 	"encoding/xml"
 	"errors"
 	"fmt"
+	"regexp"
 	"strconv"
+	"strings"
 
 	"github.com/mmadfox/go-gpsgen/geo"
 	"github.com/mmadfox/go-gpsgen/navigator"
@@ -17,6 +19,8 @@ var (
 	ErrInvalidRoute = errors.New("gpsgen/gpx: invalid route")
 )
 
+var escapedRune = regexp.MustCompile(`_x[0-9A-F]{1,6}_`)
+
 // Encode converts a slice of navigator.Routes to GPX format.
 func Encode(routes []*navigator.Route) ([]byte, error) {
 	if len(routes) == 0 {
@@ -221,7 +225,7 @@ func makeAttrs(props properties.Properties) []xml.Attr {
 	attrs := make([]xml.Attr, 0, len(props))
 	for k, v := range props {
 		attrs = append(attrs, xml.Attr{
-			Name:  xml.Name{Local: k},
+			Name:  xml.Name{Local: escapeKey(k)},
 			Value: fmt.Sprintf("%v", v),
 		})
 	}
@@ -240,13 +244,47 @@ func attr(attrs []xml.Attr, name string) (string, bool) {
 func makeProps(attrs []xml.Attr) properties.Properties {
 	props := properties.Make()
 	for i := 0; i < len(attrs); i++ {
-		key := attrs[i].Name.Local
+		key := unescapeKey(attrs[i].Name.Local)
 		val := value(attrs[i].Value)
 		props[key] = val
 	}
 	return props
 }
 
+// escapeKey returns the property key as an XML name: every other character
+// is written as _xHEX_, and so is an underscore in front of an x.
+func escapeKey(key string) string {
+	var sb strings.Builder
+	for i, r := range key {
+		switch {
+		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z',
+			r == '_' && !strings.HasPrefix(key[i:], "_x"),
+			i > 0 && (r >= '0' && r <= '9' || r == '-' || r == '.'):
+			sb.WriteRune(r)
+		default:
+			fmt.Fprintf(&sb, "_x%X_", r)
+		}
+	}
+	if sb.Len() == 0 {
+		return "_x_"
+	}
+	return sb.String()
+}
+
+// unescapeKey reverts escapeKey.
+func unescapeKey(name string) string {
+	if name == "_x_" {
+		return ""
+	}
+	return escapedRune.ReplaceAllStringFunc(name, func(s string) string {
+		r, err := strconv.ParseInt(s[2:len(s)-1], 16, 32)
+		if err != nil {
+			return s
+		}
+		return string(rune(r))
+	})
+}
+
 func resetProps(props properties.Properties) {
 	delete(props, "id")
 	delete(props, "color")
-- 
2.43.0


From c6282acf0d2d1777c642de8067756c195b0223de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:30 +0000
Subject: [PATCH 30/30] fix: random routes near a pole or the antimeridian left
 the ranges of latitude and longitude

---
 geo/normalize.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/geo/normalize.go b/geo/normalize.go
index 3510535..b3bfa81 100644
--- a/geo/normalize.go
+++ b/geo/normalize.go
@@ -1,13 +1,30 @@
 package geo
 
+import "math"
+
 // NormalizeCoordinates normalizes a set of coordinates by adding the given latitude and longitude offsets.
+// Points across a pole or the antimeridian are brought back into the ranges of latitude and longitude.
 func NormalizeCoordinates(lat, lon float64, points [][2]float64) []LatLonPoint {
 	coords := make([]LatLonPoint, len(points))
 	for i := 0; i < len(points); i++ {
-		coords[i] = LatLonPoint{
+		coords[i] = wrap(LatLonPoint{
 			points[i][0] + lat,
 			points[i][1] + lon,
-		}
+		})
 	}
 	return coords
 }
+
+func wrap(p LatLonPoint) LatLonPoint {
+	if math.Abs(p.Lat) > 90 {
+		p.Lat = math.Remainder(p.Lat, 360)
+		if math.Abs(p.Lat) > 90 {
+			p.Lat = math.Copysign(180, p.Lat) - p.Lat
+			p.Lon += 180
+		}
+	}
+	if math.Abs(p.Lon) > 180 {
+		p.Lon = math.Remainder(p.Lon, 360)
+	}
+	return p
+}
-- 
2.43.0

