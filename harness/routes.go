package main

import (
	"math"
	"math/rand"
	"strings"

	"github.com/lucasb-eyer/go-colorful"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
)

func init() { modes["routes"] = routesMode }

var nameOf = map[int]string{0: "", 1: "x", 2: "ab", 3: "日", 4: "name", 64: strings.Repeat("n", 64), 255: strings.Repeat("é", 127) + "q",
	256: strings.Repeat("z", 256), 257: strings.Repeat("é", 128) + "w", 1000: strings.Repeat("v", 1000)}

func nameNo(s string) int {
	if n, ok := nameOf[len(s)]; ok && n == s {
		return len(s)
	}
	return -9
}

var colors = []string{"", "#102030", "#ffffff", "#000000", "#c0ffee"}
var badColors = []string{"", "blue", "102030", "#xyzxyz", "#12"}
var badRGB = []colorful.Color{{R: 1.5}, {G: -0.1}, {B: math.Inf(1)}, {R: math.NaN(), G: 0.5}, {R: 0.5, B: 1.0001}}

func colorNo(s, initial string) int {
	if s == initial {
		return 0
	}
	for i, c := range colors {
		if i > 0 && c == s {
			return i
		}
	}
	return -9
}

// routeRun is a route with the tracks that may be added to it.
type routeRun struct {
	rt   *navigator.Route
	col  string
	xs   []*navigator.Track
	xcol []string
	ids  []int
	no   map[*navigator.Track]int
}

func twinOf(ids []int, twins bool) []int {
	if twins && len(ids) > 1 {
		ids[len(ids)-1] = 1
	}
	return ids
}

func newRouteRun(rng *rand.Rand, nx int, twins bool) *routeRun {
	r := &routeRun{no: map[*navigator.Track]int{}}
	switch rng.Intn(3) {
	case 0:
		r.rt = navigator.NewRoute()
	case 1:
		r.rt = navigator.RouteFromTracks()
	default:
		r.rt = navigator.RestoreRoute("route-"+geoID(rng), "#445566", nil)
	}
	r.col = r.rt.Color()
	for x := 0; x < nx; x++ {
		r.ids = append(r.ids, x+1)
	}
	twinOf(r.ids, twins)
	for x := 0; x < nx; x++ {
		pts := randPoints(rng, 2+rng.Intn(4))
		var t *navigator.Track
		var err error
		if r.ids[x] != x+1 {
			t, err = navigator.RestoreTrack(r.xs[0].ID(), "#778899", pts)
		} else if rng.Intn(3) == 0 {
			t, err = navigator.RestoreTrack(geoID(rng), "#778899", pts)
		} else {
			t, err = navigator.NewTrack(pts)
		}
		must(err)
		r.no[t] = x
		r.xs = append(r.xs, t)
		r.xcol = append(r.xcol, t.Color())
	}
	return r
}

func geoID(rng *rand.Rand) string {
	const cs = "abcdefghijklmnopqrstuvwxyz0123456789-"
	b := make([]byte, 1+rng.Intn(36))
	for i := range b {
		b[i] = cs[rng.Intn(len(cs))]
	}
	return string(b)
}

func randPoints(rng *rand.Rand, n int) []geo.LatLonPoint {
	lat, lon := rng.Float64()*160-80, rng.Float64()*340-170
	p := make([]geo.LatLonPoint, n)
	for i := range p {
		p[i] = geo.LatLonPoint{Lat: lat + rng.Float64()*0.1, Lon: lon + rng.Float64()*0.1}
	}
	return p
}

func (r *routeRun) trackID(i int) string {
	switch {
	case i == -1:
		return ""
	case i == -2:
		return "unknown"
	case i == -3:
		return strings.Repeat("i", 37)
	case i < 1:
		return "none"
	}
	for x, j := range r.ids {
		if i == j {
			return r.xs[x].ID()
		}
	}
	return "none"
}

func (r *routeRun) num(t *navigator.Track) int {
	if t == nil {
		return -1
	}
	if x, ok := r.no[t]; ok {
		return x
	}
	return -9
}

func (r *routeRun) versions() []int {
	v := []int{int(r.rt.Snapshot().Version)}
	for _, t := range r.xs {
		v = append(v, int(t.Snapshot().Version))
	}
	return v
}

func micro(x float64) int {
	x *= 1e6
	if math.IsNaN(x) || math.Abs(x) > 1e9 {
		return 1000000000
	}
	return int(math.Round(x))
}

func (r *routeRun) look() M {
	seq := []int{}
	sum := 0.0
	r.rt.EachTrack(func(i int, t *navigator.Track) bool {
		if i != len(seq) {
			seq = append(seq, -8)
		}
		seq = append(seq, r.num(t))
		sum += t.Distance()
		return true
	})
	tn, tc := []int{}, []int{}
	for x, t := range r.xs {
		tn = append(tn, nameNo(t.Name().String()))
		tc = append(tc, colorNo(t.Color(), r.xcol[x]))
	}
	return M{"seq": seq, "name": nameNo(r.rt.Name().String()), "col": colorNo(r.rt.Color(), r.col), "tn": tn, "tc": tc,
		"dd": micro((r.rt.Distance() - sum) / math.Max(1, sum/1000))}
}

func (r *routeRun) do(op string, a []int, rng *rand.Rand) M {
	res := []int{1}
	ok := func(err error) []int { return []int{fl(err == nil)} }
	switch op {
	case "from":
		ts := []*navigator.Track{}
		for _, x := range a {
			ts = append(ts, r.xs[x])
		}
		old := r.rt.ID()
		r.rt = navigator.RouteFromTracks(ts...)
		r.col = r.rt.Color()
		if c, err := colorful.Hex(r.col); err != nil || !c.IsValid() || r.rt.ID() == old || r.rt.ID() == "" {
			res = []int{-9}
		}
	case "add":
		var t *navigator.Track
		if a[0] >= 0 {
			t = r.xs[a[0]]
		}
		if r.rt.AddTrack(t) != r.rt {
			res = []int{-9}
		}
	case "rem":
		res = []int{fl(r.rt.RemoveTrack(r.trackID(a[0])))}
	case "byId":
		t, err := r.rt.TrackByID(r.trackID(a[0]))
		res = []int{r.num(t)}
		if (err == nil) != (t != nil) {
			res = []int{-9}
		}
	case "at":
		res = []int{r.num(r.rt.TrackAt(a[0]))}
	case "each":
		res = []int{}
		r.rt.EachTrack(func(i int, t *navigator.Track) bool {
			res = append(res, r.num(t))
			return a[0] < 0 || len(res) < a[0]
		})
		if a[0] == 0 && len(res) == 1 {
			res = []int{} // the callback runs before it can end the iteration
		}
	case "num":
		res = []int{r.rt.NumTracks()}
	case "name":
		res = ok(r.rt.ChangeName(nameOf[a[0]]))
	case "col":
		if a[0] > 0 {
			c, err := colorful.Hex(colors[a[0]])
			must(err)
			res = ok(r.rt.ChangeColor(c))
		} else {
			res = ok(r.rt.ChangeColor(badRGB[-a[0]]))
		}
	case "tname":
		res = ok(r.xs[a[0]].ChangeName(nameOf[a[1]]))
	case "tcol":
		if a[1] > 0 {
			c := colors[a[1]]
			if rng.Intn(2) == 0 {
				c = strings.ToUpper(c)
			}
			res = ok(r.xs[a[0]].ChangeColor(c))
		} else {
			res = ok(r.xs[a[0]].ChangeColor(badColors[-a[1]]))
		}
	case "look":
		_ = r.rt.Snapshot()
		_ = r.rt.ID()
		r.rt.Props()
		for _, t := range r.xs {
			t.Props()
			_ = t.SegmentAt(0)
			_ = t.IsClosed()
		}
	default:
		panic("harness: " + op)
	}
	return M{"op": op, "a": a, "r": res, "o": r.look(), "v": r.versions()}
}

// makeTrack builds a track from points and measures it independently.
func makeTrack(rng *rand.Rand) M {
	n := rng.Intn(6)
	if rng.Intn(6) == 0 {
		n = rng.Intn(30)
	}
	var pts []geo.LatLonPoint
	wide := rng.Intn(4)
	base := geo.LatLonPoint{Lat: rng.Float64()*176 - 88, Lon: rng.Float64()*360 - 180}
	for i := 0; i < n; i++ {
		p := base
		switch wide {
		case 0:
			p = geo.LatLonPoint{Lat: rng.Float64()*176 - 88, Lon: rng.Float64()*360 - 180}
		case 1:
			p.Lat += rng.Float64()*0.01 - 0.005
			p.Lon += rng.Float64()*0.01 - 0.005
		case 2:
			p.Lat = math.Max(-88, math.Min(88, p.Lat+rng.Float64()*4-2))
			p.Lon += rng.Float64()*4 - 2
		case 3: // a small grid: repeated points, meridians and parallels
			p.Lat = math.Round(base.Lat) + float64(rng.Intn(3))*0.001
			p.Lon = math.Round(base.Lon) + float64(rng.Intn(3))*0.001
		}
		switch x := rng.Intn(8); {
		case x == 0 && i > 0:
			p = pts[i-1]
		case x == 1 && i > 0:
			p = pts[0]
		case x == 2 && i > 0:
			p = geo.LatLonPoint{Lat: pts[0].Lat, Lon: p.Lon}
		case x == 3 && i > 0:
			p = geo.LatLonPoint{Lat: p.Lat, Lon: pts[0].Lon}
		}
		pts = append(pts, p)
	}
	if n > 2 && rng.Intn(2) == 0 {
		pts[n-1] = pts[0]
		if rng.Intn(6) == 0 {
			pts[n-1].Lat = math.Nextafter(pts[n-1].Lat, 91)
		}
	}
	cls := map[geo.LatLonPoint]int{}
	class := func(p geo.LatLonPoint) int {
		if p == (geo.LatLonPoint{}) {
			return -1
		}
		if c, ok := cls[p]; ok {
			return c
		}
		cls[p] = len(cls) + 1
		return len(cls)
	}
	q := []int{}
	for _, p := range pts {
		q = append(q, class(p))
	}
	var t *navigator.Track
	var err error
	if rng.Intn(2) == 0 {
		t, err = navigator.NewTrack(pts)
	} else {
		t, err = navigator.RestoreTrack("some-id", "#112233", pts)
	}
	e := M{"op": "make", "q": q, "r": fl(err == nil), "nil": fl(t == nil)}
	if t == nil || err != nil {
		return e
	}
	segs := []M{}
	sum := 0.0
	for i := 0; i < t.NumSegments(); i++ {
		s := t.SegmentAt(i)
		a, b := s.PointA(), s.PointB()
		ref := gcDist(a.Lat, a.Lon, b.Lat, b.Lon)
		sum += s.Distance()
		lt := 1000 // (one millimetre; more where the formulas lose digits)
		if ref > 1e4 {
			lt = int(ref / 10)
		}
		if ref > 1.9e7 {
			lt = 999999999
		}
		near := math.Abs(a.Lat) < 89 && ref > 1 && ref < 1.9e7
		bd := math.Abs(math.Mod(s.Bearing()-gcBearing(a.Lat, a.Lon, b.Lat, b.Lon)+540, 360) - 180)
		if s.Bearing() < 0 || s.Bearing() > 360 {
			bd = 999
		}
		segs = append(segs, M{"i": s.Index(), "a": class(a), "b": class(b), "ld": micro(s.Distance() - ref), "lt": lt,
			"bd": micro(bd), "big": fl(near), "zero": fl(s.Distance() == 0)})
	}
	out := t.SegmentAt(-1) == navigator.Segment{} && t.SegmentAt(t.NumSegments()) == navigator.Segment{}
	e["s"] = segs
	e["num"] = t.NumSegments()
	e["dd"] = micro((t.Distance() - sum) / math.Max(1, sum/1000))
	e["closed"] = fl(t.IsClosed())
	e["out"] = fl(out)
	return e
}

func routesMode() {
	rng := rand.New(rand.NewSource(cfg.seed))
	if cfg.prog != "" {
		eachProgram(func(pr program) {
			r := newRouteRun(rng, pr.N, pr.X == 1)
			v := r.versions()
			steps := []M{}
			for _, o := range pr.Ops {
				steps = append(steps, r.do(o.Op, o.A, rng))
			}
			emit(M{"nx": pr.N, "id": r.ids, "v": v, "steps": steps})
		})
		return
	}
	for i := 0; i < cfg.n; i++ {
		nx := 1 + rng.Intn(6)
		r := newRouteRun(rng, nx, rng.Intn(3) == 0)
		v := r.versions()
		steps := []M{}
		last := v
		for s := 0; s < cfg.steps; s++ {
			pick := func() int { return rng.Intn(nx+3) - 3 }
			idp := func() int {
				p := pick()
				if p >= 0 {
					p = r.ids[rng.Intn(nx)]
				}
				return p
			}
			names := []int{0, 1, 2, 3, 4, 64, 255, 256, 257, 1000}
			var e M
			switch rng.Intn(15) {
			case 14:
				q := []int{}
				for i := rng.Intn(4); i > 0; i-- {
					q = append(q, rng.Intn(nx))
				}
				e = r.do("from", q, rng)
			case 0, 1, 2:
				e = r.do("add", []int{max(-1, pick())}, rng)
			case 3:
				e = r.do("rem", []int{idp()}, rng)
			case 4:
				e = r.do("byId", []int{idp()}, rng)
			case 5:
				e = r.do("at", []int{rng.Intn(8) - 1}, rng)
			case 6:
				e = r.do("each", []int{rng.Intn(6) - 1}, rng)
			case 7:
				e = r.do("num", []int{0}, rng)
			case 8:
				e = r.do("name", []int{names[rng.Intn(len(names))]}, rng)
			case 9:
				e = r.do("col", []int{rng.Intn(9) - 4}, rng)
			case 10:
				e = r.do("tname", []int{rng.Intn(nx), names[rng.Intn(len(names))]}, rng)
			case 11:
				e = r.do("tcol", []int{rng.Intn(nx), rng.Intn(9) - 4}, rng)
			case 12:
				e = r.do("look", []int{0}, rng)
			default:
				e = makeTrack(rng)
				e["v"] = last
			}
			last = e["v"].([]int)
			steps = append(steps, e)
		}
		emit(M{"nx": nx, "id": r.ids, "v": v, "steps": steps})
	}
}
