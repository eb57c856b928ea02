package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/lucasb-eyer/go-colorful"
	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/properties"
	"github.com/mmadfox/go-gpsgen/types"
)

func init() { modes["codec"] = codecMode }

const (
	viaBin = 1 + iota
	viaJSON
	viaGPX
	viaTracker
)

var formatShapes = [][]int{{1, 2}, {1, 2, 3}, {1, 2, 3, 1}, {4, 4, 5}, {6, 7, 8, 9, 6}, {1, 2, 1}, {8, 6, 4, 2, 9, 7, 5, 3, 1}, {9, 8, 7, 8, 9, 9}}

// keySets are pairs of keys of properties.
var keySets = [][]string{{"speed", "foo_1"}, {"speed", "foo_1"}, {"speed", "foo_1"}, {"key", "Key"}, {"my key", "a:b"}, {"", "_x20_"}, {"Name", "ключ"}, {"1a", "a.b-c"}, {"a&b=\"<", "日本 😀"}, {"xmlns", "_"}}

var propValues = map[int]any{1: "bar", 2: "", 3: `<a & "b">'`, 4: "schön ✓日", 5: " x  y ", 6: " true ", 7: " 7", 8: "7 km", 9: "no\tyes\nfalse", 10: "-", 11: "42", 12: "4.5", 13: "true", 14: "false",
	15: "0", 16: "1e3", 17: "-7", 21: 42, 22: 4.5, 23: true, 24: false, 25: 0, 26: 1000.0, 27: -7, 28: 0.1 + 0.2, 29: 123456789,
	31: "0x1F", 32: "1 000", 33: "0b11", 34: "1,5", 35: "1e", 36: "7.0.1", 37: "--7", 38: "truely", 39: "0x", 40: "+-1"}

// propNo names a value; whole numbers and floating point numbers are the same.
func propNo(v any) int {
	num := func(x any) (float64, bool) {
		switch n := x.(type) {
		case int:
			return float64(n), true
		case int32:
			return float64(n), true
		case int64:
			return float64(n), true
		case float64:
			return n, true
		}
		return 0, false
	}
	f, isNum := num(v)
	for i, w := range propValues {
		if g, ok := num(w); ok {
			if isNum && f == g {
				return i
			}
		} else if v == w {
			return i
		}
	}
	return -9
}

func propNos(p properties.Properties, keys []string) []int {
	q := make([]int, len(keys))
	n := 0
	for i, k := range keys {
		if v, ok := p[k]; ok {
			n++
			q[i] = propNo(v)
		}
	}
	if n != len(p) {
		q[0] = -8
	}
	return q
}

// codecRun holds routes that are edited, encoded and decoded.
type codecRun struct {
	rts []*navigator.Route
	pts []geo.LatLonPoint // 1..
	ids map[string]int
	col map[int]string
	n   int
	// keys are the keys of properties.
	keys []string
}

// codecPoint never gives a multiple of ten degrees (a recorded finding).
func codecPoint(rng *rand.Rand) geo.LatLonPoint {
	g := func(lim float64) float64 {
		for {
			x := (rng.Float64()*2 - 1) * lim
			switch rng.Intn(4) {
			case 0:
				x = math.Round(x*1e6) / 1e6
			case 1:
				x = math.Round(x*100) / 100
			case 2:
				x = x / 1000
			}
			if math.Abs(x/10-math.Round(x/10)) > 1e-6 {
				return x
			}
		}
	}
	return geo.LatLonPoint{Lat: g(85), Lon: g(180)}
}

func newCodecRun(rng *rand.Rand) *codecRun {
	r := &codecRun{ids: map[string]int{}, col: map[int]string{}, pts: make([]geo.LatLonPoint, 10), keys: keySets[rng.Intn(len(keySets))]}
	wide := rng.Intn(3) == 0
	base := codecPoint(rng)
	for i := 1; i < 10; i++ {
		r.pts[i] = codecPoint(rng)
		if !wide {
			r.pts[i] = geo.LatLonPoint{Lat: base.Lat + r.pts[i].Lat/1e4, Lon: base.Lon + r.pts[i].Lon/1e4}
			if base.Lon > 179.9 || base.Lon < -179.9 {
				r.pts[i].Lon = r.pts[i].Lon / 2
			}
		}
	}
	return r
}

func (r *codecRun) at(i int) *navigator.Route {
	if i < 1 || i > len(r.rts) {
		return nil
	}
	return r.rts[i-1]
}

func (r *codecRun) trackAt(i, j int) *navigator.Track {
	rt := r.at(i)
	if rt == nil || j < 1 || j > rt.NumTracks() {
		return nil
	}
	return rt.TrackAt(j - 1)
}

func (r *codecRun) known(id, col string) {
	r.n++
	if _, ok := r.ids[id]; ok {
		r.ids[id] = -9
	} else {
		r.ids[id] = r.n
	}
	r.col[r.n] = col
}

func (r *codecRun) idNo(id string) int {
	if n, ok := r.ids[id]; ok {
		return n
	}
	return -9
}

func customID(style, n int) string {
	switch style {
	case 1:
		return fmt.Sprintf("%03d", n)
	}
	return fmt.Sprintf("id<%d>&\"x\"", n)
}

func decodeAs(f int, b []byte) ([]*navigator.Route, error) {
	switch f {
	case viaBin:
		return gpsgen.DecodeRoutes(b)
	case viaJSON:
		return gpsgen.DecodeGeoJSONRoutes(b)
	}
	return gpsgen.DecodeGPXRoutes(b)
}

func encodeAs(f int, rts []*navigator.Route) ([]byte, error) {
	switch f {
	case viaBin:
		return gpsgen.EncodeRoutes(rts)
	case viaJSON:
		return gpsgen.EncodeGeoJSONRoutes(rts)
	}
	return gpsgen.EncodeGPXRoutes(rts)
}

// via passes routes through an encoding; ok is false when encoding is refused.
func via(f int, rts []*navigator.Route) (res []*navigator.Route, ok bool) {
	if f == viaTracker {
		t := gpsgen.NewTracker()
		if len(rts) == 0 {
			return nil, false
		}
		if err := t.AddRoute(rts...); err != nil {
			return nil, false
		}
		b, err := gpsgen.EncodeTracker(t)
		if err != nil {
			return nil, true
		}
		d, err := gpsgen.DecodeTracker(b)
		if err != nil {
			return nil, true
		}
		return d.Routes(), true
	}
	b, err := encodeAs(f, rts)
	if err != nil {
		if len(b) > 0 {
			return nil, true
		}
		return nil, false
	}
	res, err = decodeAs(f, b)
	if err != nil {
		return []*navigator.Route{navigator.RestoreRoute("error: "+err.Error(), "", nil)}, true
	}
	return res, true
}

func (r *codecRun) do(op string, a []int, rng *rand.Rand) M {
	ok := false
	switch op {
	case "route":
		var rt *navigator.Route
		switch a[0] {
		case 0:
			rt = navigator.NewRoute()
		default:
			p := properties.Make()
			if rng.Intn(2) == 0 {
				p = nil
			}
			rt = navigator.RestoreRoute(customID(a[0], r.n+1), "#1a2b3c", p)
		}
		r.rts = append(r.rts, rt)
		r.known(rt.ID(), rt.Color())
		ok = true
	case "track":
		rt := r.at(a[0])
		if rt == nil {
			break
		}
		pts := []geo.LatLonPoint{}
		for _, p := range formatShapes[a[1]-1] {
			pts = append(pts, r.pts[p])
		}
		var t *navigator.Track
		var err error
		if a[2] == 0 {
			t, err = navigator.NewTrack(pts)
		} else {
			t, err = navigator.RestoreTrack(customID(a[2], r.n+1), "#3c2b1a", pts)
		}
		must(err)
		rt.AddTrack(t)
		r.known(t.ID(), t.Color())
		ok = true
	case "prop":
		if a[1] == 0 && r.at(a[0]) != nil {
			r.at(a[0]).Props().Set(r.keys[a[2]-1], propValues[a[3]])
			ok = true
		} else if t := r.trackAt(a[0], a[1]); t != nil {
			t.Props().Set(r.keys[a[2]-1], propValues[a[3]])
			ok = true
		}
	case "name":
		if a[1] == 0 && r.at(a[0]) != nil {
			ok = r.at(a[0]).ChangeName(formatName(a[2])) == nil
		} else if t := r.trackAt(a[0], a[1]); t != nil {
			ok = t.ChangeName(formatName(a[2])) == nil
		}
	case "col":
		if a[1] == 0 && r.at(a[0]) != nil {
			c, err := colorful.Hex(colors[a[2]])
			must(err)
			ok = r.at(a[0]).ChangeColor(c) == nil
		} else if t := r.trackAt(a[0], a[1]); t != nil {
			ok = t.ChangeColor(colors[a[2]]) == nil
		}
	case "drop":
		if r.at(a[0]) != nil {
			r.rts = append(append([]*navigator.Route{}, r.rts[:a[0]-1]...), r.rts[a[0]:]...)
			ok = true
		}
	case "cut":
		if t := r.trackAt(a[0], a[1]); t != nil {
			ok = r.at(a[0]).RemoveTrack(t.ID())
		}
	case "via":
		var res []*navigator.Route
		if res, ok = via(a[0], r.rts); ok {
			r.rts = res
		}
	default:
		panic("harness: " + op)
	}
	return M{"op": op, "a": a, "r": fl(ok), "o": r.look()}
}

// formatName gives names of a length, some of them with markup, digits or letters
// of several bytes.
func formatName(n int) string {
	switch n {
	case 6:
		return `<R&D">`
	case 7:
		return "ärgere"
	case 5:
		return "12345"
	case 8:
		return "  a  b  "
	}
	return nameOf[n]
}

func formatNameNo(s string) int {
	for _, n := range []int{5, 6, 7, 8} {
		if formatName(n) == s {
			return n
		}
	}
	return nameNo(s)
}

func (r *codecRun) look() []M {
	res := []M{}
	for _, rt := range r.rts {
		if rt == nil {
			res = append(res, M{"id": -9, "name": 0, "col": 0, "p": []int{}, "t": []M{}, "dd": 0})
			continue
		}
		ts := []M{}
		sum := 0.0
		for j := 0; j < rt.NumTracks(); j++ {
			t := rt.TrackAt(j)
			sum += t.Distance()
			ts = append(ts, r.lookTrack(t))
		}
		id := r.idNo(rt.ID())
		res = append(res, M{"id": id, "name": formatNameNo(rt.Name().String()), "col": colorNo(rt.Color(), r.col[id]),
			"p": propNos(rt.Props(), r.keys), "t": ts, "dd": micro((rt.Distance() - sum) / math.Max(1, sum/1000))})
	}
	return res
}

func (r *codecRun) lookTrack(t *navigator.Track) M {
	id := r.idNo(t.ID())
	pts, sd := []int{}, []int{}
	ex, sum := true, 0.0
	point := func(p geo.LatLonPoint) {
		for i := 1; i < len(r.pts); i++ {
			if math.Abs(p.Lat-r.pts[i].Lat) < 2e-10 && math.Abs(p.Lon-r.pts[i].Lon) < 2e-10 {
				ex = ex && p == r.pts[i]
				pts = append(pts, i)
				return
			}
		}
		pts = append(pts, -9)
	}
	var prev geo.LatLonPoint
	for k := 0; k < t.NumSegments(); k++ {
		s := t.SegmentAt(k)
		if k == 0 {
			point(s.PointA())
		} else if s.PointA() != prev {
			pts = append(pts, -8)
		}
		point(s.PointB())
		prev = s.PointB()
		d := gcDist(s.PointA().Lat, s.PointA().Lon, s.PointB().Lat, s.PointB().Lon)
		sum += d
		sd = append(sd, micro((s.Distance()-d)/math.Max(1, d/1e4)))
		if s.Index() != k {
			pts = append(pts, -7)
		}
	}
	return M{"id": id, "name": formatNameNo(t.Name().String()), "col": colorNo(t.Color(), r.col[id]), "p": propNos(t.Props(), r.keys),
		"pts": pts, "ex": fl(ex), "closed": fl(t.IsClosed()), "num": t.NumSegments(), "dd": micro((t.Distance() - sum) / math.Max(1, sum/1e4)), "sd": sd}
}

// sensorsStep encodes and decodes sensors.
func sensorsStep(rng *rand.Rand) M {
	n := rng.Intn(4)
	q := [][]int{}
	var ss []*types.Sensor
	for i := 0; i < n; i++ {
		lo := rng.Intn(200) - 100
		hi := lo + rng.Intn(50)
		md := types.SensorMode(rng.Intn(8))
		s, err := types.NewSensor([]string{"s", "<&>", "日本", strings.Repeat("k", 40)}[rng.Intn(4)], float64(lo), float64(hi), 4+rng.Intn(60), md)
		if err != nil {
			continue
		}
		s.Next(rng.Float64())
		q = append(q, []int{lo, hi, int(md)})
		ss = append(ss, s)
	}
	e := M{"op": "sens", "q": q, "s": []int{}}
	b, err := gpsgen.EncodeSensors(ss)
	e["r"] = fl(err == nil)
	if err != nil {
		return e
	}
	ds, err := gpsgen.DecodeSensors(b)
	if err != nil {
		e["s"] = []int{-9}
		return e
	}
	same := []int{}
	for i, d := range ds {
		if i >= len(ss) || d == nil {
			same = append(same, 0)
			continue
		}
		s := ss[i]
		ok := d.ID() == s.ID() && d.Name() == s.Name() && d.Min() == s.Min() && d.Max() == s.Max() && d.ValueX() == s.ValueX() && d.ValueY() == s.ValueY()
		for j := 0; j < 6; j++ {
			p := rng.Float64()
			if j < 2 {
				p = float64(j)
			}
			s.Next(p)
			d.Next(p)
			ok = ok && s.ValueX() == d.ValueX() && s.ValueY() == d.ValueY()
		}
		d.Shuffle()
		for j := 0; j < 4; j++ {
			d.Next(rng.Float64())
			ok = ok && d.ValueY() >= s.Min()-1e-9 && d.ValueY() <= s.Max()+1e-9
		}
		same = append(same, fl(ok))
	}
	e["s"] = same
	return e
}

// tensStep passes coordinates that are multiples of ten degrees through an encoding.
func tensStep(f, k int) M {
	rt := navigator.NewRoute()
	sets := [][]geo.LatLonPoint{{{Lat: 10, Lon: 20}, {Lat: 10.5, Lon: 20.5}}, {{Lat: 0, Lon: 5.5}, {Lat: 1.5, Lon: 0}}, {{Lat: -30, Lon: 100}, {Lat: -30.25, Lon: 100.5}}}
	t, err := navigator.NewTrack(sets[k])
	must(err)
	rt.AddTrack(t)
	ok := false
	res, _ := via(f, []*navigator.Route{rt})
	if len(res) == 1 && res[0].NumTracks() == 1 && res[0].TrackAt(0).NumSegments() == 1 {
		s := res[0].TrackAt(0).SegmentAt(0)
		ok = s.PointA() == sets[k][0] && s.PointB() == sets[k][1] && math.Abs(res[0].Distance()-rt.Distance()) < 1e-6
	}
	return M{"op": "tens", "a": []int{f, k}, "r": fl(ok)}
}

func codecMode() {
	rng := rand.New(rand.NewSource(cfg.seed))
	if cfg.prog != "" {
		eachProgram(func(pr program) {
			r := newCodecRun(rng)
			steps := []M{}
			for _, o := range pr.Ops {
				steps = append(steps, r.do(o.Op, o.A, rng))
			}
			emit(M{"steps": steps})
		})
		return
	}
	steps := []M{}
	for f := viaBin; f <= viaTracker; f++ {
		for k := 0; k < 3; k++ {
			steps = append(steps, tensStep(f, k))
		}
	}
	for f := viaBin; f < viaTracker; f++ {
		_, e1 := encodeAs(f, nil)
		_, e2 := encodeAs(f, []*navigator.Route{})
		steps = append(steps, M{"op": "nil", "a": []int{f}, "r": fl(e1 == nil || e2 == nil)})
	}
	emit(M{"steps": steps})
	names := []int{2, 3, 4, 5, 6, 7, 8, 64, 255, 256, 257}
	var vals []int
	for v := 0; v < 50; v++ {
		if _, ok := propValues[v]; ok {
			vals = append(vals, v)
		}
	}
	for i := 0; i < cfg.n; i++ {
		r := newCodecRun(rng)
		steps := []M{}
		for s := 0; s < cfg.steps; s++ {
			i, j := 1+rng.Intn(len(r.rts)+1), 0
			if rng.Intn(8) > 0 && len(r.rts) > 0 {
				i = 1 + rng.Intn(len(r.rts))
				j = rng.Intn(r.rts[i-1].NumTracks() + 1)
			}
			switch x := rng.Intn(20); {
			case x < 2:
				if len(r.rts) < 5 {
					steps = append(steps, r.do("route", []int{rng.Intn(3)}, rng))
				}
			case x < 6:
				steps = append(steps, r.do("track", []int{i, 1 + rng.Intn(len(formatShapes)), rng.Intn(3)}, rng))
			case x < 9:
				steps = append(steps, r.do("prop", []int{i, j, 1 + rng.Intn(len(r.keys)), vals[rng.Intn(len(vals))]}, rng))
			case x < 11:
				steps = append(steps, r.do("name", []int{i, j, names[rng.Intn(len(names))]}, rng))
			case x < 13:
				steps = append(steps, r.do("col", []int{i, j, 1 + rng.Intn(4)}, rng))
			case x == 13 && rng.Intn(3) == 0:
				steps = append(steps, r.do("drop", []int{i}, rng))
			case x == 14:
				steps = append(steps, r.do("cut", []int{i, j}, rng))
			case x == 15 && rng.Intn(3) == 0:
				steps = append(steps, sensorsStep(rng))
			default:
				steps = append(steps, r.do("via", []int{1 + rng.Intn(4)}, rng))
			}
		}
		emit(M{"steps": steps})
	}
}
