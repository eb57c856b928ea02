package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"slices"
	"strings"
	"sync/atomic"
	"time"

	"github.com/lucasb-eyer/go-colorful"
	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/curve"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"google.golang.org/protobuf/proto"
)

func init() { modes["tracker"] = trackerMode }

type M = map[string]any

// interner turns strings into small numbers, in order of appearance.
type interner struct{ m map[string]int }

func (in *interner) id(s string) int {
	if in.m == nil {
		in.m = map[string]int{}
	}
	if v, ok := in.m[s]; ok {
		return v
	}
	in.m[s] = len(in.m)
	return len(in.m) - 1
}

func hash(b []byte) string {
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%x", h.Sum64())
}

type tcfg struct {
	omin, omax, skip int
	bmin             float64
	ct, ctf          int
	smin, smax       float64
	samp             int
	emin, emax       float64
	eamp             int
	emode            types.SensorMode
	nsens            int
	inv              bool // ends of the offline range exchanged in the snapshot the tracker is made from
}

func (t tcfg) options() *gpsgen.DeviceOptions {
	o := gpsgen.NewDeviceOptions()
	o.Navigator.Offline.Min, o.Navigator.Offline.Max = t.omin, t.omax
	o.Navigator.SkipOffline = t.skip == 1
	o.Navigator.Elevation.Min, o.Navigator.Elevation.Max = t.emin, t.emax
	o.Navigator.Elevation.Amplitude, o.Navigator.Elevation.Mode = t.eamp, t.emode
	o.Battery.Min, o.Battery.ChargeTime = t.bmin, time.Duration(t.ct)*time.Second+time.Duration(t.ctf)*100*time.Millisecond
	o.Speed.Min, o.Speed.Max, o.Speed.Amplitude = t.smin, t.smax, t.samp
	return o
}

func (t tcfg) header() M {
	return M{"omin": t.omin, "omax": t.omax, "skip": t.skip, "bmin": toInt(t.bmin * 100), "ct": t.ct, "ctf": t.ctf,
		"smin": mm(t.smin), "smax": mm(t.smax), "emin": mm(t.emin), "emax": mm(t.emax)}
}

type sensorInfo struct {
	id       string
	s        *types.Sensor
	min, max float64
	amp      int
	mode     types.SensorMode
}

// holder keeps lists and a published state obtained from a tracker, and copies of them.
type holder struct {
	rts, rts0 []*navigator.Route
	sns, sns0 []*types.Sensor
	st        *pb.Device
	st0       []byte
}

func (h *holder) take(d *gpsgen.Device) {
	h.rts, h.sns, h.st = d.Routes(), d.Sensors(), d.State()
	h.rts0, h.sns0, h.st0 = append([]*navigator.Route{}, h.rts...), append([]*types.Sensor{}, h.sns...), marsh(h.st)
}

// kept tells whether each is what it was.
func (h *holder) kept() []int {
	if h.st == nil {
		return []int{1, 1, 1}
	}
	return []int{b2i(slices.Equal(h.rts, h.rts0)), b2i(slices.Equal(h.sns, h.sns0)), b2i(bytes.Equal(marsh(h.st), h.st0))}
}

// run drives one tracker through one program.
type run struct {
	rng   *rand.Rand
	cat   *catalogue
	cf    tcfg
	d     *gpsgen.Device
	tw    *gpsgen.Device // twin, restored from d
	twP   bool           // both published states refreshed since the fork
	meta  interner
	locs  interner
	digs  interner
	sens  []sensorInfo
	pend  int // missed whole seconds
	steps []M
	last  M
	prof  string
	dirty bool // routes changed directly since the last refresh of the published state
	curOp M
	held  holder
}

func (r *run) tid(id string) int {
	if v, ok := r.cat.tidx[id]; ok {
		return v
	}
	return -1
}
func (r *run) rid(id string) int {
	if v, ok := r.cat.ridx[id]; ok {
		return v
	}
	return -1
}
func (r *run) sid(id string) int {
	for i, s := range r.sens {
		if s.id == id {
			return i
		}
	}
	return -1
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func angDiff(a, b float64) float64 {
	return math.Abs(math.Remainder(a-b, 360))
}

// progress recovers the progress (millionths) that a curve of n control
// points was last evaluated at.
func progress(x float64, n int) int {
	if n < 2 {
		return bad
	}
	return toInt(x / float64(n-1) * 1e6)
}

func stripSnap(s *pb.Snapshot) *pb.Snapshot {
	s = proto.Clone(s).(*pb.Snapshot)
	strip := func(c *pb.Snapshot_Curve) {
		for _, p := range c.GetPoints() {
			p.Vp = nil
		}
	}
	strip(s.GetNavigator().GetElevation().GetGen())
	strip(s.GetSpeed().GetGen())
	for _, x := range s.Sensors {
		strip(x.GetGen())
	}
	s.Status = 0
	return s
}

var detOpts = proto.MarshalOptions{Deterministic: true}

func marsh(m proto.Message) []byte {
	b, err := detOpts.Marshal(m)
	must(err)
	return b
}

// digest covers everything a user can see of a tracker except the published
// state and whether it is attached.
func (r *run) digest(d *gpsgen.Device) string {
	var b bytes.Buffer
	loc := d.Location()
	fmt.Fprintf(&b, "%x %x|%x %x %x %x|%x %x %x %x|%d %d %d|%v|%x|%x|%v|%s %s %s %s %s|",
		loc.Lat, loc.Lon, d.CurrentSegmentDistance(), d.CurrentTrackDistance(), d.CurrentRouteDistance(), d.CurrentDistance(),
		d.Distance(), d.RouteDistance(), d.TrackDistance(), d.SegmentDistance(),
		d.RouteIndex(), d.TrackIndex(), d.SegmentIndex(), d.IsOffline(), d.CurrentBearing(), d.Duration(), d.Version(),
		d.ID(), d.Model(), d.UserID(), d.Color(), d.Descr())
	for _, s := range d.Sensors() {
		fmt.Fprintf(&b, "%s %s %x %x %x %x;", s.ID(), s.Name(), s.Min(), s.Max(), s.ValueX(), s.ValueY())
	}
	for _, rt := range d.Routes() {
		fmt.Fprintf(&b, "R%s %s %s %x %d;", rt.ID(), rt.Color(), rt.Name().String(), rt.Distance(), rt.NumTracks())
		fmt.Fprintf(&b, "%s;", propsKey(rt.Props()))
		for i := 0; i < rt.NumTracks(); i++ {
			t := rt.TrackAt(i)
			fmt.Fprintf(&b, "T%s %s %s %x %d %v;%s;", t.ID(), t.Color(), t.Name().String(), t.Distance(), t.NumSegments(), t.IsClosed(), propsKey(t.Props()))
			for k := 0; k < t.NumSegments(); k++ {
				g := t.SegmentAt(k)
				fmt.Fprintf(&b, "%d %v %v %x %x;", g.Index(), g.PointA(), g.PointB(), g.Distance(), g.Bearing())
			}
		}
	}
	if d.CurrentRoute() != nil {
		fmt.Fprintf(&b, "|%s", d.CurrentRoute().ID())
	}
	if d.CurrentTrack() != nil {
		fmt.Fprintf(&b, "|%s", d.CurrentTrack().ID())
	}
	b.Write(marsh(stripSnap(d.Snapshot())))
	return hash(b.Bytes())
}

// shapes tells for which properties the curves behind the values are looked at.
var shapes = map[string]bool{"C08": true, "C19": true}

// shape tells curves apart by some of their values.
func shape(c *pb.Snapshot_Curve) string {
	if c == nil {
		return "none"
	}
	v := new(curve.Curve)
	v.FromSnapshot(c)
	return fmt.Sprintf("%x %x %x", v.Point(0.29).Y, v.Point(0.5).Y, v.Point(0.77).Y)
}

func propsKey(p map[string]any) string {
	b, err := json.Marshal(p)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

func (r *run) observe(d *gpsgen.Device) M {
	o := M{}
	loc := d.Location()
	ri, ti, si := d.RouteIndex(), d.TrackIndex(), d.SegmentIndex()
	sd := d.CurrentSegmentDistance()
	o["p"] = []int{ri, ti, si}
	o["sd"], o["td"], o["rd"], o["cd"] = mm(sd), mm(d.CurrentTrackDistance()), mm(d.CurrentRouteDistance()), mm(d.CurrentDistance())
	o["sz"] = b2i(sd == 0)
	o["tot"], o["rl"], o["tl"], o["sl"] = mm(d.Distance()), mm(d.RouteDistance()), mm(d.TrackDistance()), mm(d.SegmentDistance())
	o["iso"] = b2i(d.IsOffline())
	o["dur"] = toInt(d.Duration() * 10)
	v := d.Version()
	o["ver"] = []int{v[0], v[1], v[2]}
	// current objects
	cr, ct, ck := -1, -1, -1
	if x := d.CurrentRoute(); x != nil {
		cr = r.rid(x.ID())
	}
	if x := d.CurrentTrack(); x != nil {
		ct = r.tid(x.ID())
	}
	seg := d.CurrentSegment()
	if !seg.IsEmpty() {
		ck = seg.Index()
	}
	o["cur"] = []int{cr, ct, ck}
	rts := [][]int{}
	rdl := [][]int{} // distance of each route and of each of its tracks
	for _, rt := range d.Routes() {
		l := []int{r.rid(rt.ID())}
		dl := []int{mm(rt.Distance())}
		for i := 0; i < rt.NumTracks(); i++ {
			l = append(l, r.tid(rt.TrackAt(i).ID()))
			dl = append(dl, mm(rt.TrackAt(i).Distance()))
		}
		rts = append(rts, l)
		rdl = append(rdl, dl)
	}
	o["rts"], o["rdl"] = rts, rdl
	o["nr"] = d.NumRoutes()
	o["loc"] = r.locs.id(fmt.Sprintf("%x %x", loc.Lat, loc.Lon))
	// location relative to the current catalogue segment
	al, la, be := bad, bad, bad
	if ri >= 0 && ri < len(rts) && ti >= 0 && ti+1 < len(rts[ri]) && rts[ri][ti+1] >= 0 {
		segs := r.cat.tracks[rts[ri][ti+1]].segs
		if si >= 0 && si < len(segs) {
			g := segs[si]
			a, l := project(g.a.Lat, g.a.Lon, g.b.Lat, g.b.Lon, loc.Lat, loc.Lon)
			al, la = mm(a), mm(l)
			if g.len >= 0.1 {
				be = toInt(angDiff(g.be, d.CurrentBearing()) * 1000 * math.Min(1, g.len))
			} else {
				be = 0
			}
		}
	}
	if !(math.Abs(loc.Lat) <= 90 && math.Abs(loc.Lon) <= 180+1e-9) {
		la = bad // not a place on the globe
	}
	o["al"], o["la"], o["be"] = al, la, be
	sns := [][]int{}
	for _, s := range d.Sensors() {
		i := r.sid(s.ID())
		l := []int{i, bad, 0, 0}
		if i >= 0 {
			l[1] = progress(s.ValueX(), r.sens[i].amp)
			l[2] = r.locs.id(fmt.Sprintf("s%x %x", s.ValueX(), s.ValueY()))
			y := s.ValueY()
			eps := 1e-6 * (1 + math.Abs(r.sens[i].min) + math.Abs(r.sens[i].max))
			l[3] = b2i(y >= r.sens[i].min-eps && y <= r.sens[i].max+eps)
		}
		if shapes[r.prof] && i >= 0 {
			// the shape of the curve, and whether shuffling can change it
			l = append(l, r.locs.id("c"+shape(s.Snapshot().Gen)), b2i(s.Max()-s.Min() > 1e-6*(1+math.Abs(s.Min())+math.Abs(s.Max()))))
		}
		sns = append(sns, l)
	}
	o["sens"] = sns
	if shapes[r.prof] {
		sn := d.Snapshot()
		o["cvs"] = []int{r.locs.id("c" + shape(sn.Speed.Gen)), r.locs.id("c" + shape(sn.Navigator.Elevation.Gen))}
	}
	o["ns"] = d.NumSensors()
	// every way of reading the sensors
	look := []int{}
	n := 0
	d.EachSensor(func(i int, s *types.Sensor) bool {
		look = append(look, b2i(i == n && i < len(sns) && r.sid(s.ID()) == sns[i][0] && d.SensorAt(i) == s))
		n++
		return true
	})
	for i := range r.sens {
		s, ok := d.SensorByID(r.sens[i].id)
		k := 0
		if ok && s != nil && s.ID() == r.sens[i].id {
			k = 1
		} else if ok || s != nil {
			k = 2
		}
		look = append(look, k)
	}
	bad1 := d.SensorAt(-1) != nil || d.SensorAt(n) != nil
	if _, ok := d.SensorByID("unknown"); ok {
		bad1 = true
	}
	m := 0
	d.EachSensor(func(int, *types.Sensor) bool { m++; return m < 2 })
	bad1 = bad1 || m != min(n, 2)
	o["slk"], o["sn"], o["sbad"] = look, n, b2i(bad1)
	snap := d.Snapshot()
	o["off"] = int(snap.Navigator.OfflineIndex)
	o["bv"] = toInt(snap.Battery.Val * 10)
	o["elx"] = progress(snap.Navigator.Elevation.ValX, r.cf.eamp)
	o["el"] = mm(snap.Navigator.Elevation.ValY)
	st := d.State()
	o["spd"] = toInt(math.Floor(st.Speed * 1000))
	o["spf"] = toInt((st.Speed*1000 - math.Floor(st.Speed*1000)) * 1000)
	o["spz"] = b2i(st.Speed == 0)
	spv := snap.Speed.Val
	if r.cf.smin == r.cf.smax {
		spv = r.cf.smin
	}
	o["spv"] = b2i(spv == st.Speed)
	o["stt"] = int(d.Status())
	o["meta"] = r.meta.id(d.ID() + "\x00" + d.Model() + "\x00" + d.UserID() + "\x00" + d.Color() + "\x00" + d.Descr())
	o["dg"] = r.digs.id(r.digest(d))
	o["pdg"] = r.digs.id("P" + hash(marsh(st)))
	o["pub"] = r.published(st)
	return o
}

func (r *run) published(st *pb.Device) M {
	p := M{}
	p["tick"], p["dur"] = toInt(st.Tick*10), toInt(st.Duration*10)
	p["iso"], p["off"] = b2i(st.IsOffline), int(st.OfflineDuration)
	g := st.GetNavigator()
	p["p"] = []int{int(g.GetCurrentRouteIndex()), int(g.GetCurrentTrackIndex()), int(g.GetCurrentSegmentIndex())}
	a, b := -1, -1
	if g.GetCurrentRouteId() != "" {
		a = r.rid(g.GetCurrentRouteId())
		if a < 0 {
			a = -2
		}
	}
	if g.GetCurrentTrackId() != "" {
		b = r.tid(g.GetCurrentTrackId())
		if b < 0 {
			b = -2
		}
	}
	p["cur"] = []int{a, b}
	x := st.GetDistance()
	p["d"] = []int{mm(x.GetDistance()), mm(x.GetCurrentDistance()), mm(x.GetRouteDistance()), mm(x.GetCurrentRouteDistance()),
		mm(x.GetTrackDistance()), mm(x.GetCurrentTrackDistance()), mm(x.GetSegmentDistance()), mm(x.GetCurrentSegmentDistance())}
	l := st.GetLocation()
	p["loc"] = r.locs.id(fmt.Sprintf("%x %x", l.GetLat(), l.GetLon()))
	be := bad
	ri, ti, si := r.d.RouteIndex(), r.d.TrackIndex(), r.d.SegmentIndex()
	_ = ri
	_ = ti
	_ = si
	be = toInt(l.GetBearing() * 1000)
	p["be"] = be
	p["cb"] = toInt(r.d.CurrentBearing() * 1000)
	p["el"] = mm(l.GetElevation())
	p["bat"] = toInt(st.GetBattery().GetCharge() * 1000)
	p["ct"] = int(st.GetBattery().GetChargeTime())
	p["te"] = toInt(st.TimeEstimate)
	ss := [][]int{}
	for _, s := range st.Sensors {
		i := r.sid(s.Id)
		nm := 0
		if i >= 0 && r.sens[i].s.Name() == s.Name {
			nm = 1
		}
		ss = append(ss, []int{i, r.locs.id(fmt.Sprintf("s%x %x", s.ValX, s.ValY)), nm})
	}
	p["sens"] = ss
	rts, rdl := [][]int{}, [][]int{}
	colok := 1
	cur := r.d.Routes()
	for i, rt := range st.GetRoutes().GetRoutes() {
		q := []int{r.rid(rt.RouteId)}
		dl := []int{mm(rt.Distance)}
		for j, t := range rt.Tracks {
			q = append(q, r.tid(t.TrackId))
			dl = append(dl, mm(t.Distance))
			if i < len(cur) {
				if ct := cur[i].TrackAt(j); ct == nil || ct.Color() != t.Color || int(t.NumSegments) != ct.NumSegments() || !publishedProps(t.Props, t.PropsCount, ct.Props()) {
					colok = 0
				}
			}
		}
		if i < len(cur) && (cur[i].Color() != rt.Color || !publishedProps(rt.Props, rt.PropsCount, cur[i].Props())) {
			colok = 0
		}
		rts = append(rts, q)
		rdl = append(rdl, dl)
	}
	p["rts"], p["rdl"], p["col"] = rts, rdl, colok
	// coordinates: error of the two other notations, in mm
	la, lo := l.GetLat(), l.GetLon()
	p["dms"] = dmsErr(la, lo, l.GetLatDms(), l.GetLonDms())
	p["utm"] = utmErr(la, lo, l.GetUtm())
	p["mt"] = r.meta.id(st.Id + "\x00" + st.Model + "\x00" + st.UserId + "\x00" + st.Color + "\x00" + st.Description)
	return p
}

func dmsErr(lat, lon float64, a, b *pb.Device_Location_DMS) int {
	dec := func(d *pb.Device_Location_DMS, pos, neg string) float64 {
		if d == nil || d.Degrees < 0 || d.Minutes < 0 || d.Minutes > 59 || d.Seconds < -1e-6 || d.Seconds > 60+1e-6 {
			return math.NaN()
		}
		v := float64(d.Degrees) + float64(d.Minutes)/60 + d.Seconds/3600
		switch d.Direction {
		case pos:
			return v
		case neg:
			return -v
		}
		return math.NaN()
	}
	e1 := math.Abs(dec(a, "N", "S")-lat) * 111000
	e2 := math.Abs(dec(b, "E", "W")-lon) * 111000
	return mm(math.Max(e1, e2) + 0*(e1+e2))
}

func utmErr(lat, lon float64, u *pb.Device_Location_UTM) int {
	if u == nil {
		return bad
	}
	if lat < -79.9 || lat > 83.9 {
		return 0
	}
	zone := int(u.LongZone)
	if zone < 1 || zone > 60 {
		return bad
	}
	cm := float64(zone)*6 - 183
	if math.Abs(u.CentralMeridian-cm) > 1e-9 {
		return bad
	}
	// the zone must hold the longitude, except for the Norwegian and Svalbard exceptions
	dl := math.Abs(math.Remainder(lon-cm, 360))
	lim := 3.0 + 1e-9
	if lat >= 56 && lon >= 0 && lon <= 42 {
		lim = 9
	}
	if dl > lim {
		return bad
	}
	h := "S"
	if lat >= 0 {
		h = "N"
	}
	if u.Hemisphere != h && math.Abs(lat) > 1e-12 {
		return bad
	}
	letters := "CDEFGHJKLMNPQRSTUVWXX"
	if i := int(math.Floor((lat + 80) / 8)); i >= 0 && i < len(letters) {
		fr := math.Abs(math.Remainder(lat+80, 8))
		if u.LatZone != string(letters[i]) && fr > 1e-9 {
			return bad
		}
	}
	srid := int64(32600)
	if u.Hemisphere == "S" {
		srid = 32700
	}
	if u.Srid != srid+int64(zone) {
		return bad
	}
	e, n := utmForward(lat, lon, cm, u.Hemisphere == "N")
	return mm(math.Hypot(e-u.Easting, n-u.Northing))
}

// ---------------------------------------------------------------------

func (r *run) record(op M) {
	o := r.observe(r.d)
	held := r.held.kept()
	r.held.take(r.d)
	o["held"] = held
	op["o"] = o
	op["tw"] = 0
	if r.tw != nil {
		op["tw"] = 1
		op["dt"] = r.digs.id(r.digest(r.tw))
		if r.twP {
			op["pt"] = r.digs.id("P" + hash(marsh(r.tw.State())))
		} else {
			op["pt"] = o["pdg"]
		}
	} else {
		op["dt"], op["pt"] = o["dg"], o["pdg"]
	}
	if _, ok := op["r"]; !ok {
		op["r"] = 0
	}
	if _, ok := op["rt"]; !ok {
		op["rt"] = op["r"]
	}
	r.steps = append(r.steps, op)
	r.last = o
	beat.Store(time.Now().UnixNano())
}

func (r *run) newSensor() int {
	rng := r.rng
	modes := []types.SensorMode{types.WithSensorRandomMode, types.WithSensorStartMode, types.WithSensorEndMode, types.WithSensorStartMode | types.WithSensorEndMode}
	si := sensorInfo{mode: modes[rng.Intn(len(modes))]}
	amps := []int{4, 5, 8, 16, 33, 64}
	si.amp = amps[rng.Intn(len(amps))]
	a, b := rng.Float64()*200-100, rng.Float64()*200-100
	si.min, si.max = math.Min(a, b), math.Max(a, b)
	if rng.Intn(6) == 0 {
		si.max = si.min
	}
	s, err := types.NewSensor(fmt.Sprintf("sensor-%d", len(r.sens)), si.min, si.max, si.amp, si.mode)
	must(err)
	si.s, si.id = s, s.ID()
	r.sens = append(r.sens, si)
	return len(r.sens) - 1
}

func cloneRoute(rt *navigator.Route) *navigator.Route {
	if rt == nil {
		return nil
	}
	x := new(navigator.Route)
	must(x.RouteFromSnapshot(rt.Snapshot()))
	return x
}

func cloneSensor(s *types.Sensor) *types.Sensor {
	if s == nil {
		return nil
	}
	x := new(types.Sensor)
	x.FromSnapshot(s.Snapshot())
	return x
}

// both applies an operation to the tracker and to its twin.
func (r *run) both(op M, f func(d *gpsgen.Device) bool) bool {
	var rt bool
	if r.tw != nil {
		rt = f(r.tw)
	}
	ok := f(r.d)
	op["r"] = b2i(ok)
	if r.tw != nil {
		op["rt"] = b2i(rt)
	}
	return ok
}

func (r *run) speedNow() float64 { return r.d.State().Speed }

func (r *run) fork(op M) {
	r.tw, r.twP = nil, false
	if r.pend > 0 || r.d.Duration() < 0 {
		return
	}
	how := r.rng.Intn(6)
	used := r.rng.Intn(2) == 1
	fresh := r.rng.Intn(2) == 1
	if r.dirty {
		fresh = true
	}
	op["how"], op["used"] = how, b2i(used)
	if fresh || how == 4 {
		r.d.Update()
		r.dirty = false
	}
	var t *gpsgen.Device
	if used {
		cf := tcfg{omin: 1, omax: 9, skip: r.rng.Intn(2), bmin: 3, ct: 99, smin: 2, smax: 7, samp: 8, emin: 1, emax: 77, eamp: 6, emode: types.WithSensorStartMode}
		var err error
		t, err = gpsgen.NewDevice(cf.options())
		must(err)
		s, err := types.NewSensor("old", 1, 2, 4, types.WithSensorStartMode)
		must(err)
		t.AddSensor(s)
		other := gpsgen.RandomRouteForParis()
		must(t.AddRoute(other, gpsgen.RandomRouteForMoscow()))
		t.SetDescription("used before")
		for i := 0; i < 6; i++ {
			t.Next(1 + float64(r.rng.Intn(40)))
		}
		t.MoveToRoute(1)
		if r.rng.Intn(2) == 0 {
			t.EachSensor(func(int, *types.Sensor) bool { t.Next(50); return true })
		}
		if r.rng.Intn(2) == 0 {
			t.ToOffline()
		}
	} else {
		t = gpsgen.NewTracker()
	}
	attached := false
	var g *gpsgen.Generator
	if r.rng.Intn(4) == 0 {
		g = gpsgen.New(gpsgen.NewOptions())
		must(g.Attach(t))
		attached = true
	}
	before := r.digest(r.d)
	var err error
	switch how {
	case 0, 1:
		t.FromSnapshot(r.d.Snapshot())
	case 2, 3:
		var b []byte
		b, err = r.d.MarshalBinary()
		if err == nil {
			err = t.UnmarshalBinary(b)
		}
	default:
		var b []byte
		b, err = gpsgen.EncodeTracker(r.d)
		if how == 4 {
			if err == nil {
				t, err = gpsgen.DecodeTracker(b)
			}
			attached = false
			g = nil
		} else if err == nil {
			r.dirty = false
			fresh = true
			err = t.UnmarshalBinary(b)
		}
	}
	op["ferr"] = b2i(err != nil)
	op["fst"] = int(t.Status())
	op["fatt"] = b2i(attached)
	op["fpure"] = b2i(before == r.digest(r.d))
	if err != nil {
		return
	}
	r.tw = t
	r.twP = fresh
	if fresh {
		// the snapshot holds no published state: bring both up to date
		r.d.Update()
		t.Update()
	}
	if g != nil {
		g.Close()
	}
}

func randColor(rng *rand.Rand) colorful.Color {
	return colorful.Color{R: rng.Float64(), G: rng.Float64(), B: rng.Float64()}
}

func (r *run) forkBack(op M) {
	// the twin takes over
	if r.tw == nil {
		return
	}
	op["took"] = 1
	r.d = r.tw
	r.tw, r.twP = nil, false
	// sensors and routes are now new objects with the same identity
	for i := range r.sens {
		if s, ok := r.d.SensorByID(r.sens[i].id); ok {
			r.sens[i].s = s
		}
	}
	for _, rt := range r.d.Routes() {
		if i := r.rid(rt.ID()); i >= 0 {
			r.cat.routes[i].rt = rt
		}
	}
}

// next performs one tick.
func (r *run) next(op M, tk int) {
	r.tick(op, tk, func() bool {
		return r.both(op, func(d *gpsgen.Device) bool { return d.Next(float64(tk) / 10) })
	})
}

func (r *run) tick(op M, tk int, deliver func() bool) {
	sec := float64(tk) / 10
	el := float64(r.pend) + sec
	op["tk"] = tk
	// exact comparisons at the boundaries, for whole elapsed times from an exact start
	track := r.d.CurrentTrack()
	var lens []float64
	if track != nil {
		for k := 0; k < track.NumSegments(); k++ {
			lens = append(lens, track.SegmentAt(k).Distance())
		}
	}
	sdz := r.d.CurrentSegmentDistance() == 0
	si := r.d.SegmentIndex()
	durB, tot := r.d.Duration(), r.d.Distance()
	had := r.d.NumRoutes() > 0
	was := r.dirty
	// whole seconds add up without rounding
	bv := r.d.Snapshot().Battery.Val
	op["bx"] = b2i(bv == math.Trunc(bv) && el == math.Trunc(el))
	ok := deliver()
	spd := r.speedNow()
	ff := []int{}
	for k, l := range lens {
		if k < si || (k == si && !sdz) || el != math.Trunc(el) {
			ff = append(ff, 2)
		} else {
			ff = append(ff, b2i(el*spd <= l))
		}
	}
	op["ff"] = ff
	op["pl"], op["ph"] = 0, 1000000
	if op["op"] != "next" {
		if had {
			r.pend += int(math.Round(sec))
		}
		return
	}
	if had {
		r.pend = 0
	}
	avg := tot / ((r.cf.smin + r.cf.smax) / 2)
	pl, ph := 1.0, 1.0
	if avg > 0 {
		pl = math.Min(1, (durB+el)/avg)
		ph = math.Min(1, (durB+2*el)/avg)
	}
	if !was { // otherwise the average time is refreshed by this tick
		op["pl"], op["ph"] = toInt(pl*1e6), toInt(ph*1e6)
	}
	if ok {
		r.twP = r.tw != nil
		r.dirty = false
	}
	if had && r.d.Duration() == 0 && sec > 0 {
		// lap finished: curves were shuffled, the twin's differently
		r.tw = nil
	}
	op["dty"] = b2i(r.dirty)
}

// busy delivers a tick while a reader holds the tracker.
func (r *run) busy(op M, tk int) {
	sec := float64(tk) / 10
	done := false
	r.tick(op, tk, func() bool {
		if r.d.NumRoutes() == 0 {
			return r.both(op, func(*gpsgen.Device) bool { return false })
		}
		dur := r.d.Duration()
		ok := r.both(op, func(d *gpsgen.Device) bool {
			res := false
			d.EachRoute(func(int, *navigator.Route) bool { res = d.Next(sec); done = true; return false })
			return res
		})
		if ok || r.d.Duration() != dur {
			// the reader did not keep the tick out: it was an ordinary one
			op["op"] = "next"
		}
		return ok
	})
	op["did"] = b2i(done && op["op"] == "busy")
}

func (r *run) pickTick() int {
	rng := r.rng
	spd := r.speedNow()
	if spd <= 0 {
		spd = (r.cf.smin + r.cf.smax) / 2
	}
	seg := r.d.SegmentDistance()
	rem := seg - r.d.CurrentSegmentDistance()
	t := 1.0
	switch rng.Intn(9) {
	case 0:
		t = 1
	case 1, 2:
		t = rem / spd * (0.1 + 0.5*rng.Float64())
	case 3:
		t = rem / spd * (0.7 + 0.3*rng.Float64())
	case 4:
		t = rem / spd * (1.01 + rng.Float64())
	case 5:
		t = seg / spd * rng.Float64() * 0.6
	case 6:
		t = seg / spd * (1 + rng.Float64()*3)
	case 7:
		t = r.d.TrackDistance() / spd * rng.Float64()
	case 8:
		t = r.d.RouteDistance() / spd * (0.5 + rng.Float64())
		if rng.Intn(3) > 0 {
			t = 1 + rng.Float64()*5
		}
	}
	tk := int(t * 10)
	if rng.Intn(3) > 0 {
		tk = tk / 10 * 10
	}
	if tk < 1 {
		tk = 1
		if rng.Intn(2) == 0 {
			tk = 10
		}
	}
	lim := int(2.0e6 / math.Max(1, r.cf.smax) * 10) // step below 2000 km
	if lim > 36000 {
		lim = 36000
	}
	if tk > lim {
		tk = lim
	}
	return tk
}

func (r *run) pickRouteIndex() int {
	n := r.d.NumRoutes()
	switch r.rng.Intn(8) {
	case 0:
		return -1
	case 1:
		return n
	case 2:
		return n + 3
	}
	if n == 0 {
		return 0
	}
	return r.rng.Intn(n)
}

func (r *run) pickIn(n int) int {
	switch r.rng.Intn(9) {
	case 0:
		return -1
	case 1:
		return n
	}
	if n <= 0 {
		return 0
	}
	return r.rng.Intn(n)
}

func (r *run) inSet() []int {
	l := []int{}
	for _, x := range r.d.Routes() {
		l = append(l, r.rid(x.ID()))
	}
	return l
}

// boundary distances of the concatenated routes
func (r *run) bounds() []float64 {
	l := []float64{0}
	s := 0.0
	for _, x := range r.d.Routes() {
		for i := 0; i < x.NumTracks(); i++ {
			t := x.TrackAt(i)
			for k := 0; k < t.NumSegments(); k++ {
				s += t.SegmentAt(k).Distance()
				l = append(l, s)
			}
		}
	}
	return l
}

// do performs the named operation with arguments picked at random.
func (r *run) do(name string) {
	rng := r.rng
	op := M{"op": name}
	r.curOp = op
	switch name {
	case "next":
		r.next(op, r.pickTick())
	case "tie": // a whole-second tick from an exact start
		op["op"] = "next"
		r.next(op, 10)
	case "busy":
		ticks := []int{1, 4, 5, 10, 10, 14, 15, 20, 25, 37, 100}
		r.busy(op, ticks[rng.Intn(len(ticks))])
	case "addR":
		n := 1 + rng.Intn(3)
		if rng.Intn(8) == 0 {
			n = 0
		}
		ids := []int{}
		for i := 0; i < n; i++ {
			if rng.Intn(7) == 0 {
				ids = append(ids, -1)
			} else {
				ids = append(ids, rng.Intn(len(r.cat.routes)))
			}
		}
		r.addRoutes(op, ids)
	case "rmR":
		id := -1
		if in := r.inSet(); len(in) > 0 && rng.Intn(4) > 0 {
			id = in[rng.Intn(len(in))]
		} else if len(r.cat.routes) > 0 && rng.Intn(2) == 0 {
			id = rng.Intn(len(r.cat.routes))
		}
		op["id"] = id
		key := r.routeKey(id)
		r.both(op, func(d *gpsgen.Device) bool { return d.RemoveRoute(key) })
	case "rmT":
		rid, tid := r.pickTrack(true)
		op["id"], op["t"] = rid, tid
		k1, k2 := r.routeKey(rid), r.trackKey(tid)
		r.both(op, func(d *gpsgen.Device) bool { return d.RemoveTrack(k1, k2) })
	case "rstR":
		r.both(op, func(d *gpsgen.Device) bool { return d.ResetRoutes() })
	case "rstN":
		r.both(op, func(d *gpsgen.Device) bool { d.ResetNavigator(); return true })
	case "xAdd":
		n := r.d.NumRoutes()
		op["id"], op["t"] = -1, -1
		if n > 0 {
			i := rng.Intn(n)
			ts := trackSpec{lat: 20 * rng.Float64(), lon: 20 * rng.Float64()}
			for k := 0; k <= rng.Intn(3); k++ {
				ts.lens = append(ts.lens, lenClasses[2+rng.Intn(4)](rng))
			}
			t := r.cat.addTrack(rng, ts)
			op["id"], op["t"] = r.rid(r.d.RouteAt(i).ID()), t
			snap := r.cat.tracks[t].trk.Snapshot()
			r.both(op, func(d *gpsgen.Device) bool {
				x := new(navigator.Track)
				navigator.TrackFromSnapshot(x, snap)
				d.RouteAt(i).AddTrack(x)
				return true
			})
			r.dirty = true
		}
	case "xDel":
		rid, tid := r.pickTrack(false)
		op["id"], op["t"] = rid, tid
		if rid >= 0 {
			key := r.trackKey(tid)
			i := 0
			for k, x := range r.inSet() {
				if x == rid {
					i = k
				}
			}
			r.both(op, func(d *gpsgen.Device) bool { return d.RouteAt(i).RemoveTrack(key) })
			r.dirty = true
		}
	case "xCol":
		if n := r.d.NumRoutes(); n > 0 {
			i := rng.Intn(n)
			c := randColor(rng)
			nm := fmt.Sprintf("name-%d", rng.Intn(1000))
			which := rng.Intn(4)
			r.both(op, func(d *gpsgen.Device) bool {
				x := d.RouteAt(i)
				t := x.TrackAt(0)
				switch {
				case which == 0:
					return x.ChangeColor(c) == nil
				case which == 1:
					return x.ChangeName(nm) == nil
				case which == 2 && t != nil:
					return t.ChangeColor(c.Hex()) == nil
				case t != nil:
					return t.ChangeName(nm) == nil
				}
				return false
			})
			r.dirty = true
		}
	case "mvS":
		i := r.pickRouteIndex()
		t, k := 0, 0
		if x := r.d.RouteAt(i); x != nil {
			t = r.pickIn(x.NumTracks())
			if y := x.TrackAt(t); y != nil {
				k = r.pickIn(y.NumSegments())
			}
		}
		if rng.Intn(7) == 0 {
			i, t, k = r.d.RouteIndex(), r.d.TrackIndex(), r.d.SegmentIndex()
		}
		op["a"] = []int{i, t, k}
		r.both(op, func(d *gpsgen.Device) bool { return d.MoveToSegment(i, t, k) })
	case "mvT":
		i := r.pickRouteIndex()
		t := 0
		if x := r.d.RouteAt(i); x != nil {
			t = r.pickIn(x.NumTracks())
		}
		op["op"], op["a"] = "mvS", []int{i, t, 0}
		r.both(op, func(d *gpsgen.Device) bool { return d.MoveToTrack(i, t) })
	case "mvR":
		i := r.pickRouteIndex()
		op["op"], op["a"] = "mvS", []int{i, 0, 0}
		r.both(op, func(d *gpsgen.Device) bool { return d.MoveToRoute(i) })
	case "mvTid":
		rid, tid := r.pickTrack(true)
		op["id"], op["t"] = rid, tid
		k1, k2 := r.routeKey(rid), r.trackKey(tid)
		r.both(op, func(d *gpsgen.Device) bool { return d.MoveToTrackByID(k1, k2) })
	case "mvRid":
		id := -1
		if in := r.inSet(); len(in) > 0 && rng.Intn(5) > 0 {
			id = in[rng.Intn(len(in))]
		} else if rng.Intn(2) == 0 {
			id = rng.Intn(len(r.cat.routes))
		}
		op["id"] = id
		key := r.routeKey(id)
		r.both(op, func(d *gpsgen.Device) bool { return d.MoveToRouteByID(key) })
	case "prv":
		r.both(op, func(d *gpsgen.Device) bool { return d.ToPrevRoute() })
	case "nxt":
		r.both(op, func(d *gpsgen.Device) bool { return d.ToNextRoute() })
	case "jump":
		r.jump(op, r.pickJump(op))
	case "off":
		r.both(op, func(d *gpsgen.Device) bool { d.ToOffline(); return true })
	case "addS":
		n := rng.Intn(3)
		ids := []int{}
		for i := 0; i < n; i++ {
			switch x := rng.Intn(6); {
			case x == 0:
				ids = append(ids, -1)
			case x < 3 && len(r.sens) > 0:
				ids = append(ids, rng.Intn(len(r.sens)))
			default:
				if len(r.sens) < 10 {
					ids = append(ids, r.newSensor())
				}
			}
		}
		r.addSensors(op, ids)
	case "rmS":
		id := -1
		if ss := r.d.Sensors(); len(ss) > 0 && rng.Intn(4) > 0 {
			id = r.sid(ss[rng.Intn(len(ss))].ID())
		} else if len(r.sens) > 0 && rng.Intn(2) == 0 {
			id = rng.Intn(len(r.sens))
		}
		r.rmSensor(op, id)
	case "rstS":
		r.both(op, func(d *gpsgen.Device) bool { d.ResetSensors(); return true })
	case "upd":
		r.both(op, func(d *gpsgen.Device) bool { d.Update(); return true })
		r.dirty = false
		r.twP = r.tw != nil
	case "set":
		x := fmt.Sprintf("v-%d", rng.Intn(1000))
		c := randColor(rng)
		which := rng.Intn(4)
		r.both(op, func(d *gpsgen.Device) bool {
			switch which {
			case 0:
				return d.SetModel(x) == nil
			case 1:
				return d.SetUserID(x) == nil
			case 2:
				return d.SetColor(c) == nil
			}
			d.SetDescription(x)
			return true
		})
	case "snap":
		r.both(op, func(d *gpsgen.Device) bool {
			d.Snapshot()
			_, err := d.MarshalBinary()
			return err == nil
		})
	case "fork":
		r.fork(op)
	case "take":
		r.forkBack(op)
	default:
		panic("harness: unknown op " + name)
	}
	r.record(op)
}

func (r *run) routeKey(i int) string {
	if i < 0 || i >= len(r.cat.routes) {
		k := []string{"", "unknown", strings.Repeat("x", 40)}
		return k[r.rng.Intn(3)]
	}
	return r.cat.routes[i].id
}
func (r *run) trackKey(i int) string {
	if i < 0 || i >= len(r.cat.tracks) {
		k := []string{"", "unknown", strings.Repeat("x", 40)}
		return k[r.rng.Intn(3)]
	}
	return r.cat.tracks[i].id
}

func (r *run) pickTrack(wrong bool) (int, int) {
	rng := r.rng
	rs := r.d.Routes()
	if len(rs) == 0 || (wrong && rng.Intn(6) == 0) {
		if wrong && rng.Intn(2) == 0 && len(r.cat.tracks) > 0 {
			return rng.Intn(len(r.cat.routes)), rng.Intn(len(r.cat.tracks))
		}
		return -1, -1
	}
	x := rs[rng.Intn(len(rs))]
	if x.NumTracks() == 0 {
		if wrong {
			return r.rid(x.ID()), -1
		}
		return -1, -1
	}
	return r.rid(x.ID()), r.tid(x.TrackAt(rng.Intn(x.NumTracks())).ID())
}

func (r *run) addRoutes(op M, ids []int) {
	op["ids"] = ids
	// tracks each route holds at this moment
	has := [][]int{}
	mk := func(clone bool) []*navigator.Route {
		var l []*navigator.Route
		for _, i := range ids {
			if i < 0 {
				l = append(l, nil)
			} else if clone {
				l = append(l, cloneRoute(r.cat.routes[i].rt))
			} else {
				l = append(l, r.cat.routes[i].rt)
			}
		}
		return l
	}
	for _, i := range ids {
		l := []int{}
		if i >= 0 {
			rt := r.cat.routes[i].rt
			for k := 0; k < rt.NumTracks(); k++ {
				l = append(l, r.tid(rt.TrackAt(k).ID()))
			}
		}
		has = append(has, l)
	}
	op["has"] = has
	var et error
	if r.tw != nil {
		et = r.tw.AddRoute(mk(true)...)
	}
	err := r.d.AddRoute(mk(false)...)
	op["r"], op["rt"] = b2i(err == nil), b2i(err == nil)
	if r.tw != nil {
		op["rt"] = b2i(et == nil)
	}
	if err == nil {
		r.dirty = false
	}
}

func (r *run) addSensors(op M, ids []int) {
	op["ids"] = ids
	mk := func(clone bool) []*types.Sensor {
		var l []*types.Sensor
		for _, i := range ids {
			if i < 0 {
				l = append(l, nil)
			} else if clone {
				l = append(l, cloneSensor(r.sens[i].s))
			} else {
				l = append(l, r.sens[i].s)
			}
		}
		return l
	}
	if r.tw != nil {
		r.tw.AddSensor(mk(true)...)
	}
	r.d.AddSensor(mk(false)...)
}

func (r *run) rmSensor(op M, id int) {
	key := "unknown"
	if id >= 0 {
		key = r.sens[id].id
	} else if r.rng.Intn(2) == 0 {
		key = ""
	}
	op["id"] = id
	r.both(op, func(d *gpsgen.Device) bool { return d.RemoveSensor(key) })
}

func (r *run) pickJump(op M) float64 {
	rng := r.rng
	tot := r.d.Distance()
	b := r.bounds()
	op["ex"] = 0
	switch rng.Intn(10) {
	case 0:
		return []float64{0, 0.5, 0.999, -3, 1, -1e9, 0.9999999}[rng.Intn(7)]
	case 1:
		return []float64{tot, tot + 1, tot * 2, 1e6 + tot, math.Inf(1)}[rng.Intn(5)]
	case 2:
		// exactly the length of everything before the second segment
		for i := 1; i < len(b); i++ {
			if b[i] > 0 {
				if b[i] >= 1 && i < len(b)-1 {
					op["ex"] = 1
				}
				return b[i]
			}
		}
		return 2
	case 3, 4:
		return b[rng.Intn(len(b))] + (rng.Float64()-0.5)*4
	case 5:
		return b[rng.Intn(len(b))]
	}
	return rng.Float64() * tot
}

func (r *run) jump(op M, dist float64) {
	x := mm(dist)
	if x == bad {
		x = 2000000000
		if dist < 0 {
			x = -2000000000
		}
	}
	if dist < 1 && x >= 1000 {
		x = 999
	}
	op["d"] = x
	r.both(op, func(d *gpsgen.Device) bool { return d.DestinationTo(dist) })
}

type profile struct {
	w           map[string]int
	gaps, zeros bool
	static      int // percent of static speeds
	det         bool
	sensors     bool
	maxCT       int
	startEmpty  bool
}

var profiles = map[string]profile{
	"C01": {w: map[string]int{"next": 40, "tie": 4, "jump": 8, "mvS": 6, "mvT": 2, "mvR": 2, "mvTid": 2, "nxt": 2, "prv": 1, "xDel": 1, "xAdd": 1, "rmR": 1, "rmT": 1, "addR": 2, "off": 1}, gaps: true, zeros: true, static: 50},
	"C02": {w: map[string]int{"next": 70, "tie": 10, "jump": 4, "mvS": 3, "off": 1, "busy": 2, "addR": 1, "rstN": 1}, gaps: true, zeros: true, static: 60},
	"C03": {w: map[string]int{"next": 60, "tie": 10, "off": 6, "jump": 5, "mvS": 3, "upd": 1, "addR": 1, "set": 1, "addS": 1}, gaps: true, static: 70, maxCT: 400},
	"C04": {w: map[string]int{"jump": 60, "next": 15, "off": 4, "addR": 3, "rmR": 2, "rmT": 2, "mvS": 3, "xAdd": 2, "xDel": 1, "rstN": 1}, gaps: true, zeros: true, static: 50},
	"C05": {w: map[string]int{"mvS": 22, "mvT": 12, "mvR": 12, "mvTid": 12, "mvRid": 10, "nxt": 6, "prv": 6, "next": 20, "jump": 8, "off": 8, "addR": 3, "rmR": 2, "rmT": 2, "rstN": 1, "xDel": 1}, gaps: true, zeros: true, static: 50},
	"C06": {w: map[string]int{"addR": 14, "rmR": 8, "rmT": 10, "rstR": 2, "xAdd": 6, "xDel": 5, "next": 20, "jump": 6, "mvS": 5, "off": 2, "upd": 2, "xCol": 2}, zeros: true, static: 50, startEmpty: true},
	"C07": {w: map[string]int{"next": 60, "tie": 3, "upd": 8, "jump": 4, "mvS": 3, "addR": 2, "rmR": 2, "rmT": 2, "xAdd": 2, "xDel": 2, "xCol": 2, "addS": 3, "rmS": 2, "rstS": 1, "off": 3, "set": 3, "rstR": 1, "rstN": 1}, gaps: true, zeros: true, static: 35, sensors: true, startEmpty: true},
	"C08": {w: map[string]int{"next": 60, "tie": 5, "addS": 4, "rmS": 1, "off": 3, "upd": 2, "jump": 3, "mvS": 2, "set": 2, "fork": 2, "rstN": 1, "snap": 1, "addR": 2, "rmR": 1, "busy": 2}, static: 10, sensors: true, gaps: true},
	"C09": {w: map[string]int{"next": 70, "tie": 5, "off": 4, "busy": 4, "upd": 4, "jump": 2, "rstR": 1, "addR": 2}, static: 60, maxCT: 300},
	"C10": {w: map[string]int{"next": 30, "busy": 40, "off": 4, "jump": 3, "mvS": 2, "addR": 2, "rstR": 1, "upd": 1, "addS": 2}, static: 60, sensors: true},
	"C11": {maxCT: 300, w: map[string]int{"next": 50, "tie": 3, "fork": 10, "take": 2, "jump": 5, "mvS": 4, "mvTid": 2, "addR": 2, "rmR": 2, "rmT": 2, "off": 4, "upd": 2, "addS": 3, "rmS": 2, "rstS": 1, "set": 2, "xAdd": 1, "xCol": 1, "snap": 2, "rstN": 1, "busy": 2}, gaps: true, zeros: true, static: 40, det: true, sensors: true},
	"C19": {w: map[string]int{"next": 60, "tie": 5, "addS": 14, "rmS": 8, "rstS": 2, "off": 3, "upd": 2, "jump": 2}, static: 30, sensors: true, gaps: true},
}

func (r *run) randomCfg(p profile) tcfg {
	rng := r.rng
	c := tcfg{samp: 4 + rng.Intn(20), eamp: 4 + rng.Intn(20), emin: float64(rng.Intn(50)), ct: 3600 * (1 + rng.Intn(9))}
	c.emax = c.emin + float64(rng.Intn(300))
	if c.emin == 0 && c.emax == 0 {
		c.emax = 10
	}
	c.emode = []types.SensorMode{0, types.WithSensorRandomMode, types.WithSensorStartMode, types.WithSensorEndMode}[rng.Intn(4)]
	switch rng.Intn(5) {
	case 0:
		c.omin, c.omax = 1, 2
	case 1:
		c.omin, c.omax = 3, 3
	case 2:
		c.omin, c.omax = 2, 6
	case 3:
		c.omin, c.omax = 0, 4
	case 4:
		c.omin, c.omax = 5, 20
	}
	if p.det {
		c.omin = 1 + rng.Intn(4)
		c.omax = c.omin + rng.Intn(2)
		if c.omax > c.omin {
			c.omax = c.omin // both ends equal: nothing is drawn
		}
	}
	if rng.Intn(4) == 0 {
		c.skip = 1
	}
	if cfg.prof == "C03" && c.skip == 0 && c.omin > 0 {
		c.inv = rng.Intn(10) == 0
	}
	if p.maxCT > 0 && rng.Intn(5) > 0 {
		c.ct = 20 + rng.Intn(p.maxCT)
	}
	if rng.Intn(4) == 0 {
		c.ctf = 1 + rng.Intn(9)
	}
	c.bmin = float64([]int{0, 0, 5, 10, 20, 50}[rng.Intn(6)])
	if rng.Intn(8) == 0 {
		c.bmin = float64(rng.Intn(9900)) / 100
	}
	sp := []float64{0.5, 1, 1.5, 2, 5, 10, 33.3, 100, 250}[rng.Intn(9)]
	if rng.Intn(100) < p.static {
		c.smin, c.smax = sp, sp
	} else {
		c.smin = sp * rng.Float64()
		if rng.Intn(5) == 0 {
			c.smin = 0
		}
		c.smax = sp
	}
	return c
}

func (r *run) start(nsens int, routes []int) {
	d, err := gpsgen.NewDevice(r.cf.options())
	must(err)
	if r.cf.inv {
		snap := d.Snapshot()
		snap.Navigator.OfflineMin, snap.Navigator.OfflineMax = int64(r.cf.omax), int64(r.cf.omin)
		d.FromSnapshot(snap)
	}
	r.d = d
	var l []*types.Sensor
	ids := []int{}
	for i := 0; i < nsens; i++ {
		k := r.newSensor()
		ids = append(ids, k)
		l = append(l, r.sens[k].s)
	}
	d.AddSensor(l...)
	r.record(M{"op": "init", "ids": ids})
	if len(routes) > 0 {
		op := M{"op": "addR"}
		r.curOp = op
		r.addRoutes(op, routes)
		r.record(op)
	}
}

// guard runs f; a panic inside the library becomes the last step of the trace.
func (r *run) guard(f func()) (crashed bool) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			if !strings.Contains(st, "go-gpsgen") || strings.HasPrefix(fmt.Sprint(e), "harness:") {
				panic(e)
			}
			op := r.curOp
			if op == nil {
				op = M{"op": "init"}
			}
			op["crash"] = fmt.Sprint(e)
			delete(op, "o")
			crashStack = st
			r.steps = append(r.steps, M{"op": "crash", "in": op["op"], "msg": fmt.Sprint(e), "r": 0, "rt": 0, "tw": 0, "dt": 0, "pt": 0, "o": r.last})
			crashed = true
		}
	}()
	f()
	return
}

var crashStack string

var beat atomic.Int64

// watchdog ends a program whose operation does not return: the record then ends with a hang.
func (r *run) watchdog(id int) (stop func()) {
	done := make(chan struct{})
	beat.Store(time.Now().UnixNano())
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(2 * time.Second):
			}
			if time.Since(time.Unix(0, beat.Load())) > 40*time.Second {
				in := any("init")
				if r.curOp != nil {
					in = r.curOp["op"]
				}
				r.steps = append(r.steps, M{"op": "hang", "in": in, "r": 0, "rt": 0, "tw": 0, "dt": 0, "pt": 0, "o": r.last})
				r.emit(id, nil)
				out.Flush()
				os.Exit(0)
			}
		}
	}()
	return func() { close(done) }
}

func (r *run) emit(id int, extra M) {
	h := M{"id": id, "cfg": r.cf.header(), "cat": r.cat.header(), "steps": r.steps}
	for k, v := range extra {
		h[k] = v
	}
	emit(h)
}

func trackerMode() {
	p, ok := profiles[cfg.prof]
	if !ok {
		panic("harness: no profile " + cfg.prof)
	}
	if cfg.prog != "" {
		programs(p)
		return
	}
	var names []string
	for _, n := range []string{"next", "tie", "busy", "addR", "rmR", "rmT", "rstR", "rstN", "xAdd", "xDel", "xCol", "mvS", "mvT", "mvR", "mvTid", "mvRid", "prv", "nxt", "jump", "off", "addS", "rmS", "rstS", "upd", "set", "snap", "fork", "take"} {
		for i := 0; i < p.w[n]; i++ {
			names = append(names, n)
		}
	}
	for i := 0; i < cfg.n; i++ {
		rng := rand.New(rand.NewSource(cfg.seed*1000003 + int64(i)))
		r := &run{rng: rng, prof: cfg.prof}
		nr := 1 + rng.Intn(4)
		r.cat = randomCatalogue(rng, nr, p.gaps && rng.Intn(2) == 0, p.zeros && rng.Intn(2) == 0)
		if cfg.prof == "C06" && rng.Intn(2) == 0 {
			r.cat.addRoute(nil)
		}
		r.cf = r.randomCfg(p)
		if rng.Intn(4) == 0 && r.cf.smin == r.cf.smax {
			// exact ties: the step of a one second tick is a segment's length
			t := r.cat.tracks
			if len(t) > 0 {
				x := t[rng.Intn(len(t))]
				s := x.trk.SegmentAt(rng.Intn(x.trk.NumSegments())).Distance()
				if s > 0.2 && s < 900 {
					r.cf.smin, r.cf.smax = s, s
				}
			}
		}
		ns := 0
		if p.sensors {
			ns = rng.Intn(4)
		}
		var init []int
		if !(p.startEmpty && rng.Intn(3) == 0) {
			for k := 0; k < nr; k++ {
				if k == 0 || rng.Intn(5) > 0 {
					init = append(init, k)
				}
			}
		}
		stop := r.watchdog(i)
		r.guard(func() {
			r.start(ns, init)
			if len(init) == 0 && rng.Intn(2) == 0 {
				for _, n := range []string{"addR", []string{"rstR", "rmR"}[rng.Intn(2)], "addR"} {
					r.do(n)
				}
			}
			for k := 0; k < cfg.steps; k++ {
				r.do(names[rng.Intn(len(names))])
			}
		})
		stop()
		r.emit(i, nil)
	}
}

// programs replays operation sequences made by TLC from the specification.
func programs(p profile) {
	f, err := os.Open(cfg.prog)
	must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for i := 0; sc.Scan(); i++ {
		var pr struct {
			Cfg struct {
				Omin, Omax, Skip int
				Spd              int // millimetres per second
				Ct               int
				Bmin             int
			}
			Cat []struct {
				Len []int
				Gap []int
			}
			Rts [][]int
			Ops []struct {
				Op string
				A  []int
			}
		}
		must(json.Unmarshal(sc.Bytes(), &pr))
		rng := rand.New(rand.NewSource(cfg.seed*7919 + int64(i)))
		r := &run{rng: rng, prof: cfg.prof}
		r.cat = newCatalogue()
		ce := centres[rng.Intn(len(centres))]
		for _, t := range pr.Cat {
			ts := trackSpec{lat: ce[0], lon: ce[1], gaps: map[int]bool{}}
			for k, l := range t.Len {
				ts.lens = append(ts.lens, float64(l)/1000)
				if t.Gap[k] == 1 {
					ts.gaps[k] = true
				}
			}
			r.cat.addTrack(rng, ts)
		}
		for _, x := range pr.Rts {
			r.cat.addRoute(x)
		}
		r.cf = tcfg{omin: pr.Cfg.Omin, omax: pr.Cfg.Omax, skip: pr.Cfg.Skip, ct: pr.Cfg.Ct, bmin: float64(pr.Cfg.Bmin) / 100,
			smin: float64(pr.Cfg.Spd) / 1000, smax: float64(pr.Cfg.Spd) / 1000, samp: 4 + rng.Intn(8), emin: 1, emax: 90, eamp: 5}
		stop := r.watchdog(i)
		r.guard(func() {
			ns := 0
			if p.sensors && cfg.prof != "C19" {
				ns = rng.Intn(3)
			}
			r.start(ns, nil)
			for _, o := range pr.Ops {
				r.exec(o.Op, o.A)
			}
		})
		stop()
		r.emit(i, M{"prog": 1})
	}
}

// exec performs an operation with the given arguments.
func (r *run) exec(name string, a []int) {
	op := M{"op": name}
	r.curOp = op
	switch name {
	case "next":
		r.next(op, a[0])
	case "busy":
		r.busy(op, a[0])
	case "addR":
		r.addRoutes(op, a)
	case "rmR":
		op["id"] = a[0]
		r.both(op, func(d *gpsgen.Device) bool { return d.RemoveRoute(r.routeKey(a[0])) })
	case "rmT":
		op["id"], op["t"] = a[0], a[1]
		r.both(op, func(d *gpsgen.Device) bool { return d.RemoveTrack(r.routeKey(a[0]), r.trackKey(a[1])) })
	case "mvS":
		op["a"] = a
		r.both(op, func(d *gpsgen.Device) bool { return d.MoveToSegment(a[0], a[1], a[2]) })
	case "jump":
		op["ex"] = 0
		r.jump(op, float64(a[0])/1000)
	case "mvTid":
		op["id"], op["t"] = a[0], a[1]
		r.both(op, func(d *gpsgen.Device) bool { return d.MoveToTrackByID(r.routeKey(a[0]), r.trackKey(a[1])) })
	case "addS", "rmS":
		for len(r.sens) < 2 {
			r.newSensor()
		}
		if name == "addS" {
			r.addSensors(op, a)
		} else {
			r.rmSensor(op, a[0])
		}
	default:
		r.do(name)
		return
	}
	r.record(op)
}
