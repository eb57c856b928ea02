package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
)

func init() { modes["imports"] = importsMode }

type geomDoc struct {
	K string          `json:"k"`
	C json.RawMessage `json:"c"`
}

type featureDoc struct {
	G geomDoc `json:"g"`
	P int     `json:"p"`
}

type gpxDoc struct {
	W []int     `json:"w"`
	R [][]int   `json:"r"`
	T [][][]int `json:"t"`
}

// importProps are the properties of features; 0: null.
var importProps = []string{"null", "{}", `{"name":"x","color":"red","speed":4.5,"ok":true}`, `{"routeID":"abc","list":[1,{"a":null}]}`,
	`{"color":"#fff","distance":3,"units":"meters","tracksInfo":7,"numTracks":9}`}

type importRun struct {
	rng *rand.Rand
	pts []geo.LatLonPoint
}

func num(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

func (r *importRun) point(i int) string {
	p := r.pts[i]
	switch r.rng.Intn(4) {
	case 0:
		return "[" + num(p.Lon) + "," + num(p.Lat) + "," + num(float64(r.rng.Intn(3000))) + "]"
	case 1:
		return "[ " + num(p.Lon) + " , " + num(p.Lat) + " ]"
	}
	return "[" + num(p.Lon) + "," + num(p.Lat) + "]"
}

func (r *importRun) line(c []int) string {
	s := []string{}
	for _, i := range c {
		s = append(s, r.point(i))
	}
	return "[" + strings.Join(s, ",") + "]"
}

func (r *importRun) lines(c [][]int) string {
	s := []string{}
	for _, l := range c {
		s = append(s, r.line(l))
	}
	return "[" + strings.Join(s, ",") + "]"
}

func (r *importRun) object(fields ...string) string {
	if r.rng.Intn(3) == 0 {
		r.rng.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
	}
	return "{" + strings.Join(fields, ",") + "}"
}

func (r *importRun) geometry(g geomDoc) string {
	geom := func(typ, coords string) string {
		f := []string{`"type":"` + typ + `"`, `"coordinates":` + coords}
		if r.rng.Intn(5) == 0 {
			f = append(f, `"bbox":[1,2,3,4]`)
		}
		return r.object(f...)
	}
	var c1 []int
	var c2 [][]int
	var c3 [][][]int
	get := func(v any) { must(json.Unmarshal(g.C, v)) }
	switch g.K {
	case "line":
		get(&c1)
		return geom("LineString", r.line(c1))
	case "points":
		get(&c1)
		return geom("MultiPoint", r.line(c1))
	case "lines":
		get(&c2)
		return geom("MultiLineString", r.lines(c2))
	case "poly":
		get(&c2)
		return geom("Polygon", r.lines(c2))
	case "polys":
		get(&c3)
		s := []string{}
		for _, p := range c3 {
			s = append(s, r.lines(p))
		}
		return geom("MultiPolygon", "["+strings.Join(s, ",")+"]")
	case "coll":
		var gs []geomDoc
		get(&gs)
		s := []string{}
		for _, m := range gs {
			s = append(s, r.geometry(m))
		}
		return r.object(`"type":"GeometryCollection"`, `"geometries":[`+strings.Join(s, ",")+"]")
	case "point":
		return geom("Point", r.point(1+r.rng.Intn(9)))
	case "odd":
		return geom([]string{"Circle", "", "linestring"}[r.rng.Intn(3)], "[[1,2],[3,4]]")
	case "none":
		return "null"
	}
	panic("harness: geometry " + g.K)
}

func (r *importRun) geojson(d []featureDoc) string {
	fs := []string{}
	for _, f := range d {
		fields := []string{`"type":"Feature"`}
		if r.rng.Intn(3) == 0 {
			fields = append(fields, `"id":"f1"`)
		}
		if f.G.K != "none" || r.rng.Intn(2) == 0 {
			fields = append(fields, `"geometry":`+r.geometry(f.G))
		}
		if f.P > 0 || r.rng.Intn(2) == 0 {
			fields = append(fields, `"properties":`+importProps[f.P])
		}
		fs = append(fs, r.object(fields...))
	}
	top := []string{`"type":"FeatureCollection"`, `"features":[` + strings.Join(fs, ",\n") + "]"}
	if r.rng.Intn(3) == 0 {
		top = append(top, `"name":"x"`, `"crs":{"type":"name"}`)
	}
	return r.object(top...)
}

func (r *importRun) gpxPoint(tag string, i int) string {
	p := r.pts[i]
	s := fmt.Sprintf(`<%s lat="%s" lon="%s">`, tag, num(p.Lat), num(p.Lon))
	switch r.rng.Intn(4) {
	case 0:
		s += "<ele>12.5</ele><time>2020-01-02T03:04:05Z</time>"
	case 1:
		s += "<name>here</name>"
	}
	return s + "</" + tag + ">"
}

func (r *importRun) gpxPoints(tag string, c []int) string {
	s := ""
	for _, i := range c {
		s += r.gpxPoint(tag, i)
		if r.rng.Intn(2) == 0 {
			s += "\n"
		}
	}
	return s
}

func (r *importRun) gpx(d gpxDoc) string {
	b := &strings.Builder{}
	v := "1.1"
	ns := "http://www.topografix.com/GPX/1/1"
	if r.rng.Intn(3) == 0 {
		v, ns = "1.0", "http://www.topografix.com/GPX/1/0"
	}
	if r.rng.Intn(2) == 0 {
		b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n")
	}
	fmt.Fprintf(b, `<gpx version="%s" creator="me" xmlns="%s">`, v, ns)
	if v == "1.1" && r.rng.Intn(3) == 0 {
		b.WriteString("<metadata><name>m</name><author><name>a</name></author></metadata>")
	}
	b.WriteString(r.gpxPoints("wpt", d.W))
	for _, c := range d.R {
		b.WriteString("<rte>")
		if r.rng.Intn(2) == 0 {
			b.WriteString("<name>r</name><number>3</number>")
		}
		b.WriteString(r.gpxPoints("rtept", c) + "</rte>")
	}
	for _, t := range d.T {
		b.WriteString("<trk>")
		if r.rng.Intn(2) == 0 {
			b.WriteString("<name>t</name><desc>x &lt; y</desc>")
		}
		for _, c := range t {
			b.WriteString("<trkseg>" + r.gpxPoints("trkpt", c) + "</trkseg>")
		}
		b.WriteString("</trk>")
	}
	if v == "1.1" && r.rng.Intn(4) == 0 {
		b.WriteString(`<extensions><other a="1"><inner>t</inner></other></extensions>`)
	}
	b.WriteString("</gpx>")
	return b.String()
}

func (r *importRun) look(routes []*navigator.Route, err error, props bool) M {
	res, fresh := []M{}, true
	ids := map[string]bool{"": true}
	id := func(s string) {
		fresh = fresh && !ids[s]
		ids[s] = true
	}
	if err != nil && len(routes) > 0 {
		fresh = false
	}
	for _, rt := range routes {
		if rt == nil {
			res = append(res, M{"p": -9, "t": [][]int{}, "cl": []int{}})
			continue
		}
		id(rt.ID())
		p := 0
		if props {
			p = -9
			for i, s := range importProps {
				var want map[string]any
				must(json.Unmarshal([]byte(s), &want))
				got := map[string]any(rt.Props())
				if len(want) == 0 && len(got) == 0 {
					p = -1 // null or empty
				} else if reflect.DeepEqual(want, got) {
					p = i
				}
			}
		} else if len(rt.Props()) > 0 {
			p = -9
		}
		ts, cl := [][]int{}, []int{}
		for j := 0; j < rt.NumTracks(); j++ {
			t := rt.TrackAt(j)
			id(t.ID())
			if !strings.HasPrefix(t.Color(), "#") || len(t.Color()) != 7 {
				fresh = false
			}
			q := []int{}
			point := func(p geo.LatLonPoint) {
				for i := 1; i < len(r.pts); i++ {
					if r.pts[i] == p {
						q = append(q, i)
						return
					}
				}
				q = append(q, -9)
			}
			for k := 0; k < t.NumSegments(); k++ {
				s := t.SegmentAt(k)
				if k == 0 {
					point(s.PointA())
				} else if s.PointA() != t.SegmentAt(k-1).PointB() {
					q = append(q, -8)
				}
				point(s.PointB())
			}
			ts = append(ts, q)
			cl = append(cl, fl(t.IsClosed()))
		}
		res = append(res, M{"p": p, "t": ts, "cl": cl})
	}
	return M{"r": fl(err == nil), "routes": res, "fresh": fl(fresh)}
}

// importsMode reads documents of the model, one JSON document a line: [kind, document].
func importsMode() {
	rng := rand.New(rand.NewSource(cfg.seed))
	in, err := os.Open(cfg.in)
	must(err)
	defer in.Close()
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	steps := []M{}
	flush := func() {
		if len(steps) > 0 {
			emit(M{"steps": steps})
			steps = []M{}
		}
	}
	for sc.Scan() {
		var l []json.RawMessage
		must(json.Unmarshal(sc.Bytes(), &l))
		var kind string
		must(json.Unmarshal(l[0], &kind))
		for n := 0; n < cfg.n; n++ {
			r := &importRun{rng, make([]geo.LatLonPoint, 10)}
			for i := 1; i < 10; i++ {
				r.pts[i] = codecPoint(rng)
				if rng.Intn(10) == 0 {
					r.pts[i].Lat = float64(rng.Intn(17)*10 - 80)
				}
			}
			var e M
			if kind == "geo" {
				var d []featureDoc
				must(json.Unmarshal(l[1], &d))
				rts, err := gpsgen.DecodeGeoJSONRoutes([]byte(r.geojson(d)))
				e = r.look(rts, err, true)
			} else {
				var d gpxDoc
				must(json.Unmarshal(l[1], &d))
				rts, err := gpsgen.DecodeGPXRoutes([]byte(r.gpx(d)))
				e = r.look(rts, err, false)
			}
			e["op"] = kind
			e["d"] = l[1]
			steps = append(steps, e)
			if len(steps) == 40 {
				flush()
			}
		}
	}
	must(sc.Err())
	flush()
}
