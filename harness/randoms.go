package main

import (
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync"

	"github.com/lucasb-eyer/go-colorful"
	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/geojson"
	"github.com/mmadfox/go-gpsgen/gpx"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/random"
)

func init() { modes["randoms"] = randomsMode }

var rcentres = []struct{ lat, lon float64 }{{40.7, -74}, {0, 0}, {-33.5, 151.2}, {64.1, -21.9}, {55.75, 37.62}, {-54.8, -68.3}, {0, 179.999}, {10, -179.999}, {89.95, 30}, {-89.9, -170}}

func validColor(s string) bool { c, err := colorful.Hex(s); return err == nil && c.Hex() == s }
func validName(s string) bool  { return len(s) >= 3 && len(s) <= 256 }

// sameRoutes compares routes as far as every encoding keeps them.
func sameRoutes(a, b []*navigator.Route, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.ID() != y.ID() || x.Color() != y.Color() || x.Name() != y.Name() || x.NumTracks() != y.NumTracks() || math.Abs(x.Distance()-y.Distance()) > 0.01 {
			return false
		}
		for j := 0; j < x.NumTracks(); j++ {
			s, t := x.TrackAt(j), y.TrackAt(j)
			if s.ID() != t.ID() || s.Color() != t.Color() || s.Name() != t.Name() || s.NumSegments() != t.NumSegments() || s.IsClosed() != t.IsClosed() {
				return false
			}
			for k := 0; k < s.NumSegments(); k++ {
				u, v := s.SegmentAt(k), t.SegmentAt(k)
				for _, d := range []float64{u.PointA().Lat - v.PointA().Lat, u.PointA().Lon - v.PointA().Lon, u.PointB().Lat - v.PointB().Lat, u.PointB().Lon - v.PointB().Lon} {
					if math.Abs(d) > tol {
						return false
					}
				}
			}
		}
	}
	return true
}

func trackPoints(t *navigator.Track) []geo.LatLonPoint {
	ps := []geo.LatLonPoint{}
	for i := 0; i < t.NumSegments(); i++ {
		if i == 0 {
			ps = append(ps, t.SegmentAt(0).PointA())
		}
		ps = append(ps, t.SegmentAt(i).PointB())
	}
	return ps
}

func classer() func(p geo.LatLonPoint) int {
	m := map[geo.LatLonPoint]int{}
	return func(p geo.LatLonPoint) int {
		if c, ok := m[p]; ok {
			return c
		}
		m[p] = len(m) + 1
		return len(m)
	}
}

func lookRandom(r *navigator.Route, lat, lon float64, in *interner) M {
	tracks := []M{}
	far, world := 0.0, 1
	sum := 0.0
	for i := 0; i < r.NumTracks(); i++ {
		t := r.TrackAt(i)
		cl := classer()
		segs := [][]int{}
		for j := 0; j < t.NumSegments(); j++ {
			s := t.SegmentAt(j)
			segs = append(segs, []int{cl(s.PointA()), cl(s.PointB()), fl(s.Distance() > 0 && !math.IsInf(s.Distance(), 0))})
		}
		for _, p := range trackPoints(t) {
			if math.Abs(lat) > 80 {
				far = math.Max(far, gcDist(lat, lon, p.Lat, p.Lon)/111194.0)
			} else {
				far = math.Max(far, math.Hypot(p.Lat-lat, math.Remainder(p.Lon-lon, 360)))
			}
			if !(math.Abs(p.Lat) <= 90 && math.Abs(p.Lon) <= 180) {
				world = 0
			}
		}
		sum += t.Distance()
		tracks = append(tracks, M{"segs": segs, "closed": fl(t.IsClosed()), "name": fl(validName(t.Name().String())), "color": fl(validColor(t.Color())),
			"id": in.id("i" + t.ID()), "nm": in.id("n" + t.Name().String())})
	}
	rs := []*navigator.Route{r}
	round := func(enc func([]*navigator.Route) ([]byte, error), dec func([]byte) ([]*navigator.Route, error), tol float64) int {
		if r.NumTracks() == 0 {
			return 1
		}
		b, err := enc(rs)
		if err != nil {
			return 0
		}
		x, err := dec(b)
		return fl(err == nil && sameRoutes(rs, x, tol))
	}
	return M{"tracks": tracks, "name": fl(validName(r.Name().String())), "color": fl(validColor(r.Color())), "id": in.id("i" + r.ID()), "nm": in.id("n" + r.Name().String()),
		"dist": fl(math.Abs(sum-r.Distance()) <= 1e-6*sum), "world": world, "far": int(math.Min(far*1e6, 2e9)),
		"bin": round(gpsgen.EncodeRoutes, gpsgen.DecodeRoutes, 0), "json": round(geojson.Encode, geojson.Decode, 1e-9), "gpx": round(gpx.Encode, gpx.Decode, 1e-9)}
}

func randomOne(rng *rand.Rand, op string, a []int, in *interner) M {
	switch op {
	case "route":
		c := rcentres[a[2]]
		r := gpsgen.RandomRoute(c.lon, c.lat, a[0], a[1])
		if r == nil {
			return M{"op": op, "a": a, "r": 0}
		}
		return M{"op": op, "a": a, "r": 1, "o": lookRandom(r, c.lat, c.lon, in)}
	case "poly":
		q := []int{}
		fin := true
		m := map[[2]float64]int{}
		for _, p := range random.Polygon(a[0], float64(a[1])) {
			if math.IsNaN(p[0]+p[1]) || math.IsInf(p[0]+p[1], 0) {
				fin = false
			}
			if _, ok := m[p]; !ok {
				m[p] = len(m) + 1
			}
			q = append(q, m[p])
		}
		return M{"op": op, "a": a, "r": 1, "q": q, "fin": fl(fin)}
	case "str":
		s := random.String(a[0])
		return M{"op": op, "a": a, "r": 1, "len": len(s), "set": fl(strings.Trim(s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") == "")}
	}
	panic("harness: " + op)
}

// sizeOf is the median distance of the points of many routes from their centre.
func sizeOf(v int) M {
	ds := []float64{}
	quad := make([]int, 4)
	for i := 0; i < 50; i++ {
		r := gpsgen.RandomRoute(20, 10, 4, v)
		for j := 0; j < r.NumTracks(); j++ {
			for k, p := range trackPoints(r.TrackAt(j)) {
				if k > 0 {
					ds = append(ds, math.Hypot(p.Lat-10, p.Lon-20))
					quad[fl(p.Lat > 10)*2+fl(p.Lon > 20)]++
				}
			}
		}
	}
	sort.Float64s(ds)
	if len(ds) == 0 {
		return M{"op": "size", "r": 0, "v": v, "m": 0, "q": quad, "n": 1}
	}
	return M{"op": "size", "r": 1, "v": v, "m": int(math.Min(ds[len(ds)/2]*1e6, 1e8)), "q": quad, "n": len(ds)}
}

func micros(x float64) int {
	x *= 1e6
	if math.IsNaN(x) || math.Abs(x) > 2e9 {
		return 2000000000
	}
	return int(math.Round(x))
}

func countryOne(code string, known bool, n int) M {
	b, err := random.BoundingBox(code)
	e := M{"op": "country", "r": fl(err == nil), "known": fl(known), "code": code, "box": []int{micros(b.MinLon), micros(b.MinLat), micros(b.MaxLon), micros(b.MaxLat)}}
	lower := strings.ToLower(code)
	b2, err2 := random.BoundingBox(lower)
	name, err3 := random.CountryName(code)
	name2, err4 := random.CountryName(lower)
	same := (err == nil) == (err2 == nil) && b == b2 && (err3 == nil) == (err == nil) && (err4 == nil) == (err == nil) && name == name2 && (err != nil || name != "")
	pts := [][]int{}
	for i := 0; i < n; i++ {
		c := code
		if i%2 == 1 {
			c = lower
		}
		p, er := random.LatLonByCountry(c)
		if (er == nil) != (err == nil) {
			same = false
		}
		pts = append(pts, []int{micros(p.Lon), micros(p.Lat)})
	}
	e["same"] = fl(same)
	e["pts"] = pts
	if !known && !same {
		e["r"] = 1
	}
	return e
}

func randomsMode() {
	rng := rand.New(rand.NewSource(cfg.seed))
	if cfg.prog != "" {
		eachProgram(func(pr program) {
			in := &interner{}
			steps := []M{}
			for _, o := range pr.Ops {
				steps = append(steps, randomOne(rng, o.Op, o.A, in))
			}
			emit(M{"steps": steps})
		})
		return
	}
	// countries
	steps := []M{}
	codes := []string{}
	random.EachCountry(func(code, name string) { codes = append(codes, code) })
	sort.Strings(codes)
	for _, c := range codes {
		steps = append(steps, countryOne(c, true, cfg.steps))
	}
	for _, c := range []string{"", "A", "USA", "xx", "ZZ", "  ", "12", "unknown"} {
		steps = append(steps, countryOne(c, false, 2))
	}
	pts := [][]int{}
	for i := 0; i < 20*cfg.steps; i++ {
		p := random.LatLon()
		pts = append(pts, []int{micros(p.Lon), micros(p.Lat)})
	}
	steps = append(steps, M{"op": "world", "r": 1, "pts": pts})
	for i := 0; i < 20*cfg.steps; i++ {
		q := func(n int) int { return (rng.Intn(2*n) - n) * 2 }
		bx := []int{q(90000000), q(45000000), 0, 0}
		bx[2], bx[3] = bx[0]+2*rng.Intn(1000), bx[1]+2*rng.Intn(1000)
		f := func(x int) float64 { return float64(x) / 1e6 }
		b := geo.BBox{MinLon: f(bx[0]), MinLat: f(bx[1]), MaxLon: f(bx[2]), MaxLat: f(bx[3])}
		e := M{"op": "box", "r": 1, "box": bx}
		ps, ins := [][]int{}, []int{}
		for j := 0; j < 8; j++ {
			p := []int{bx[0] + rng.Intn(2400) - 200, bx[1] + rng.Intn(2400) - 200}
			if j < 4 {
				p = []int{bx[(j&1)*2], bx[1+(j&2)]}
				if rng.Intn(2) == 0 {
					p[rng.Intn(2)] += rng.Intn(3) - 1
				}
			}
			ps = append(ps, p)
			ins = append(ins, fl(b.In(geo.LatLonPoint{Lon: f(p[0]), Lat: f(p[1])})))
		}
		c := b.Center()
		e["pts"], e["in"], e["mid"] = ps, ins, []int{micros(c.Lon), micros(c.Lat)}
		steps = append(steps, e)
	}
	for _, n := range []int{1001, 4096, 9999 + rng.Intn(20000), 600 + rng.Intn(3000), 20 + rng.Intn(400)} {
		steps = append(steps, randomOne(rng, "poly", []int{n, 1 + rng.Intn(2000)}, nil))
	}
	emit(M{"steps": steps})
	// sizes
	steps = []M{}
	lv := []int{-7, 0, 1, 9, 10, 60, 120, 300, 600, 601, 1000, 50000}
	rng.Shuffle(len(lv), func(i, j int) { lv[i], lv[j] = lv[j], lv[i] })
	for _, v := range lv {
		steps = append(steps, sizeOf(v))
	}
	emit(M{"steps": steps})
	// the cities, and routes made at the same time
	in := &interner{}
	steps = []M{}
	for i := 0; i < cfg.n; i++ {
		for j, f := range []func() *navigator.Route{gpsgen.RandomRouteForNewYork, gpsgen.RandomRouteForMoscow, gpsgen.RandomRouteForParis} {
			c := []struct{ lat, lon float64 }{{40.7128, -74.006}, {55.753437, 37.621097}, {48.855324, 2.349892}}[j]
			steps = append(steps, M{"op": "route", "a": []int{3, 120, j}, "r": 1, "o": lookRandom(f(), c.lat, c.lon, in)})
		}
	}
	rts := make([][]*navigator.Route, 8)
	var wg sync.WaitGroup
	for g := range rts {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < cfg.n; i++ {
				rts[g] = append(rts[g], gpsgen.RandomRoute(5, 6, 2, 100))
				random.String(5)
				random.LatLon()
			}
		}(g)
	}
	wg.Wait()
	for _, q := range rts {
		for _, r := range q {
			steps = append(steps, M{"op": "route", "a": []int{2, 100, 0}, "r": 1, "o": lookRandom(r, 6, 5, in)})
		}
	}
	steps = append(steps, randomOne(rng, "route", []int{100 + rng.Intn(200), 10 + rng.Intn(600), rng.Intn(len(rcentres))}, in))
	emit(M{"steps": steps})
}
