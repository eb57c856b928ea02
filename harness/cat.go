package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/properties"
	"google.golang.org/protobuf/proto"
)

// A catalogue is the set of tracks and routes that a program may use.  Its
// lengths and bearings are computed here, from the points, with our own
// geometry.

type catSeg struct {
	a, b geo.LatLonPoint
	len  float64
	be   float64
	gap  bool
}

type catTrack struct {
	id   string
	segs []catSeg
	trk  *navigator.Track
}

type catRoute struct {
	id  string
	tks []int
	rt  *navigator.Route
	// identity as created
}

type catalogue struct {
	tracks []*catTrack
	routes []*catRoute
	tidx   map[string]int
	ridx   map[string]int
}

type trackSpec struct {
	lens []float64
	gaps map[int]bool
	lat  float64
	lon  float64
	turn float64 // if > 0: maximal change of heading per segment
	ring bool
}

func newCatalogue() *catalogue {
	return &catalogue{tidx: map[string]int{}, ridx: map[string]int{}}
}

func wrapLon(l float64) float64 {
	for l > 180 {
		l -= 360
	}
	for l < -180 {
		l += 360
	}
	return l
}

// addTrack makes the points of a track with the wanted segment lengths.
func (c *catalogue) addTrack(rng *rand.Rand, ts trackSpec) int {
	lat, lon := ts.lat, ts.lon
	head := rng.Float64() * 360
	var parts [][]geo.LatLonPoint
	cur := []geo.LatLonPoint{{Lat: lat, Lon: lon}}
	for i, l := range ts.lens {
		if l > 0 {
			head += (rng.Float64() - 0.5) * 240
			for try := 0; ; try++ {
				la, lo := gcDest(lat, lon, l, head)
				if math.Abs(la) < 85 || try > 20 {
					lat, lon = la, wrapLon(lo)
					break
				}
				head += 97
			}
		}
		cur = append(cur, geo.LatLonPoint{Lat: lat, Lon: lon})
		if ts.gaps[i] && i < len(ts.lens)-1 {
			parts = append(parts, cur)
			la, lo := gcDest(lat, lon, 50+rng.Float64()*500, rng.Float64()*360)
			if math.Abs(la) < 85 {
				lat, lon = la, wrapLon(lo)
			}
			cur = []geo.LatLonPoint{{Lat: lat, Lon: lon}}
		}
	}
	parts = append(parts, cur)
	return c.addPoints(parts)
}

// addPoints adds a track whose consecutive parts are not connected.
func (c *catalogue) addPoints(parts [][]geo.LatLonPoint) int {
	ct := &catTrack{}
	for pi, pts := range parts {
		for i := 0; i+1 < len(pts); i++ {
			a, b := pts[i], pts[i+1]
			ct.segs = append(ct.segs, catSeg{
				a: a, b: b,
				len: gcDist(a.Lat, a.Lon, b.Lat, b.Lon),
				be:  gcBearing(a.Lat, a.Lon, b.Lat, b.Lon),
				gap: i == len(pts)-2 && pi < len(parts)-1,
			})
		}
	}
	if len(parts) == 1 {
		t, err := navigator.NewTrack(parts[0])
		if n := len(c.tracks); n%2 == 1 && err == nil {
			// an identifier that differs from the one of the track before by its case
			if id := strings.ToUpper(c.tracks[n-1].id); id != c.tracks[n-1].id {
				t, err = navigator.RestoreTrack(id, t.Color(), parts[0])
			}
		}
		if err != nil {
			panic("harness: " + err.Error())
		}
		ct.trk = t
	} else {
		var snap *navigator.TrackSnapshot
		for pi, pts := range parts {
			t, err := navigator.NewTrack(pts)
			if err != nil {
				panic("harness: " + err.Error())
			}
			s := t.Snapshot()
			if pi < len(parts)-1 {
				s.Segmenets[len(s.Segmenets)-1].Rel = -1
			}
			if snap == nil {
				snap = s
			} else {
				for _, g := range s.Segmenets {
					g = proto.Clone(g).(*navigator.SegmentSnapshot)
					g.Index = int64(len(snap.Segmenets))
					if g.Rel != -1 {
						g.Rel = g.Index
					}
					snap.Segmenets = append(snap.Segmenets, g)
				}
				snap.Distance += s.Distance
			}
		}
		t := new(navigator.Track)
		navigator.TrackFromSnapshot(t, snap)
		ct.trk = t
	}
	someProps(ct.trk.Props(), len(c.tracks)+1)
	ct.id = ct.trk.ID()
	c.tidx[ct.id] = len(c.tracks)
	c.tracks = append(c.tracks, ct)
	return len(c.tracks) - 1
}

// someProps sets no, one or two properties.
func someProps(p properties.Properties, k int) {
	switch k % 4 {
	case 1:
		p.Set("k", k)
	case 2:
		p.Set("a", "x\"<é").Set("b", k > 2)
	case 3:
		p.Set("half", float64(k)/2)
	}
}

// publishedProps tells whether published properties are those of the object.
func publishedProps(b []byte, n int64, p properties.Properties) bool {
	got := map[string]any{}
	if len(b) > 0 && json.Unmarshal(b, &got) != nil {
		return false
	}
	return int(n) == len(p) && propsKey(got) == propsKey(p)
}

func (c *catalogue) addRoute(tks []int) int {
	r := navigator.NewRoute()
	if n := len(c.routes); n%2 == 1 {
		if id := strings.ToUpper(c.routes[n-1].id); id != c.routes[n-1].id {
			r = navigator.RestoreRoute(id, r.Color(), nil)
		}
	}
	for _, t := range tks {
		r.AddTrack(c.tracks[t].trk)
	}
	someProps(r.Props(), len(c.routes))
	cr := &catRoute{id: r.ID(), tks: tks, rt: r}
	c.ridx[cr.id] = len(c.routes)
	c.routes = append(c.routes, cr)
	return len(c.routes) - 1
}

func (c *catalogue) header() []map[string]any {
	out := []map[string]any{}
	for _, t := range c.tracks {
		ls, gs := []int{}, []int{}
		for _, s := range t.segs {
			ls = append(ls, mm(s.len))
			g := 0
			if s.gap {
				g = 1
			}
			gs = append(gs, g)
		}
		out = append(out, map[string]any{"len": ls, "gap": gs})
	}
	return out
}

const bad = -999999999

// mm turns metres into millimetres; anything that does not fit is `bad`.
func mm(m float64) int { return toInt(m * 1000) }

func toInt(x float64) int {
	if math.IsNaN(x) || math.IsInf(x, 0) || math.Abs(x) > 2.0e9 {
		return bad
	}
	return int(math.Round(x))
}

var centres = [][2]float64{
	{0.0003, 0.0004}, {-0.001, 10.5}, {45.5, 9.2}, {-45.1, -70.3}, {60.2, 24.9},
	{84.5, 33}, {-79.2, 12}, {10, 179.999}, {-20.5, -179.9995}, {55.75, 37.62},
	{40.71, -74}, {-33.9, 151.2}, {1.3, 103.8}, {71, -8}, {35.7, 139.7}, {51.5, -0.0003},
	{0.01, -0.002}, {-60, 60.01}, {62, 5.5}, {77, 14},
}

var lenClasses = []func(*rand.Rand) float64{
	func(r *rand.Rand) float64 { return 0 },
	func(r *rand.Rand) float64 { return 0.3 + r.Float64()*0.6 },
	func(r *rand.Rand) float64 { return 1 + r.Float64()*8 },
	func(r *rand.Rand) float64 { return 10 + r.Float64()*90 },
	func(r *rand.Rand) float64 { return 10 + r.Float64()*90 },
	func(r *rand.Rand) float64 { return 100 + r.Float64()*900 },
	func(r *rand.Rand) float64 { return 100 + r.Float64()*900 },
	func(r *rand.Rand) float64 { return 1000 + r.Float64()*19000 },
}

// randomCatalogue makes routes around one random centre.
func randomCatalogue(rng *rand.Rand, nr int, gaps, zeros bool) *catalogue {
	c := newCatalogue()
	ce := centres[rng.Intn(len(centres))]
	style := rng.Intn(4) // 0: mixed, 1: short, 2: medium, 3: long
	for r := 0; r < nr; r++ {
		var tks []int
		nt := 1 + rng.Intn(3)
		if rng.Intn(12) == 0 {
			nt = 0
		}
		for t := 0; t < nt; t++ {
			ns := 1 + rng.Intn(5)
			if rng.Intn(10) == 0 {
				ns = 1
			}
			ts := trackSpec{lat: ce[0] + (rng.Float64()-0.5)*0.01, lon: wrapLon(ce[1] + (rng.Float64()-0.5)*0.01), gaps: map[int]bool{}}
			for k := 0; k < ns; k++ {
				var l float64
				switch style {
				case 1:
					l = lenClasses[1+rng.Intn(4)](rng)
				case 2:
					l = lenClasses[3+rng.Intn(4)](rng)
				case 3:
					l = lenClasses[5+rng.Intn(3)](rng)
				default:
					l = lenClasses[1+rng.Intn(len(lenClasses)-1)](rng)
				}
				if zeros && rng.Intn(6) == 0 {
					l = 0
				}
				ts.lens = append(ts.lens, l)
				if gaps && rng.Intn(5) == 0 {
					ts.gaps[k] = true
				}
			}
			if rng.Intn(25) == 0 { // a track of repeated points only
				for k := range ts.lens {
					ts.lens[k] = 0
				}
			}
			tks = append(tks, c.addTrack(rng, ts))
		}
		c.addRoute(tks)
	}
	return c
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}
