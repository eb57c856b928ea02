package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geojson"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() { modes["faults"] = faultsMode }

// sample is a set of documents made by the library.
type sample struct {
	tracker *gpsgen.Device
	doc     map[string][]byte
	msg     map[string]proto.Message
}

func newSample(rng *rand.Rand) *sample {
	opts := gpsgen.DefaultTrackerOptions()
	opts.Navigator.SkipOffline = rng.Intn(2) == 0
	d, err := gpsgen.NewDevice(opts)
	must(err)
	var rts []*navigator.Route
	for i := 0; i < 2; i++ {
		rt := navigator.NewRoute()
		rt.Props().Set("k", i).Set("s", "v")
		must(rt.ChangeName("route name"))
		for j := 0; j < 2; j++ {
			pts := randPoints(rng, 4)
			if j == 1 {
				pts[3] = pts[0]
			}
			t, err := navigator.NewTrack(pts)
			must(err)
			t.Props().Set("t", true)
			must(t.ChangeName("track name"))
			rt.AddTrack(t)
		}
		rts = append(rts, rt)
	}
	var ss []*types.Sensor
	for i := 0; i < 2; i++ {
		s, err := types.NewSensor("s"+strconv.Itoa(i), 1, 9, 4, types.WithSensorRandomMode)
		must(err)
		ss = append(ss, s)
	}
	d.AddSensor(ss...)
	must(d.AddRoute(rts...))
	for i := rng.Intn(6); i > 0; i-- {
		d.Next(1 + rng.Float64()*20)
	}
	if rng.Intn(2) == 0 {
		d.MoveToSegment(1, 1, 2)
		d.Next(1)
	}
	d.Update()
	s := &sample{tracker: d, doc: map[string][]byte{}, msg: map[string]proto.Message{}}
	put := func(k string, b []byte, err error) {
		must(err)
		s.doc[k] = b
	}
	b, err := gpsgen.EncodeTracker(d)
	put("Tracker", b, err)
	b, err = gpsgen.EncodeRoutes(rts)
	put("Routes", b, err)
	b, err = gpsgen.EncodeSensors(ss)
	put("Sensors", b, err)
	b, err = gpsgen.EncodeGeoJSONRoutes(rts)
	put("geojson", b, err)
	b, err = gpsgen.EncodeGPXRoutes(rts)
	put("gpx", b, err)
	b, err = proto.Marshal(&pb.Packet{Devices: []*pb.Device{d.State(), d.State()}, Timestamp: 12345})
	put("Packet", b, err)
	s.doc["geojson3"] = []byte(`{"type":"FeatureCollection","features":[{"type":"Feature","properties":{"a":1},"geometry":{"type":"GeometryCollection","geometries":[
{"type":"LineString","coordinates":[[1.5,2.5],[3,4]]},{"type":"MultiLineString","coordinates":[[[1,2],[3,4]],[[5,6],[7,8]]]},
{"type":"MultiPolygon","coordinates":[[[[1,2],[3,4],[5,6],[1,2]]]]},{"type":"MultiPoint","coordinates":[[1,2],[3,4]]},
{"type":"Polygon","coordinates":[[[1,2],[3,4],[5,6],[1,2]]]}]}}]}`)
	s.doc["gpx3"] = []byte(`<?xml version="1.0"?><gpx version="1.1" creator="x"><metadata><time>2020-01-02T03:04:05Z</time><bounds minlat="1" maxlat="2" minlon="3" maxlon="4"></bounds></metadata>
<wpt lat="1.5" lon="2.5"><ele>1</ele></wpt><wpt lat="3" lon="4"></wpt><rte><rtept lat="1" lon="2"></rtept><rtept lat="3" lon="4"></rtept></rte>
<trk><name>n</name><trkseg><trkpt lat="1" lon="2"><time>2020-01-02T03:04:05Z</time></trkpt><trkpt lat="1.5" lon="2.5"></trkpt></trkseg></trk></gpx>`)
	s.msg["Tracker"] = new(pb.Snapshot)
	s.msg["Routes"] = new(pb.Snapshot_Navigator_Routes)
	s.msg["Sensors"] = new(pb.Snapshot_Sensors)
	s.msg["Packet"] = new(pb.Packet)
	for k, m := range s.msg {
		must(proto.Unmarshal(s.doc[k], m))
	}
	return s
}

// applyFault damages a part of a message; false when there is no such part.
func applyFault(m proto.Message, path, fault string, rng *rand.Rand) bool {
	cur := m.ProtoReflect()
	parts := strings.Split(path, "/")
	for n, part := range parts {
		name, idx, _ := strings.Cut(part, "#")
		fd := cur.Descriptor().Fields().ByName(protoreflect.Name(name))
		if fd == nil {
			panic("harness: no field " + path)
		}
		last := n == len(parts)-1
		if fd.IsList() && idx != "" {
			i, _ := strconv.Atoi(idx)
			l := cur.Mutable(fd).List()
			if i >= l.Len() {
				return false
			}
			if !last {
				cur = l.Get(i).Message()
				continue
			}
			switch fault {
			case "blank":
				l.Set(i, l.NewElement())
			case "cut":
				for k := i; k+1 < l.Len(); k++ {
					l.Set(k, l.Get(k+1))
				}
				l.Truncate(l.Len() - 1)
			case "twice":
				l.Append(protoreflect.ValueOfMessage(proto.Clone(l.Get(i).Message().Interface()).ProtoReflect()))
			default:
				panic("harness: fault " + fault)
			}
			return true
		}
		if !last {
			if !cur.Has(fd) {
				return false
			}
			cur = cur.Mutable(fd).Message()
			continue
		}
		return faultField(cur, fd, fault, rng)
	}
	return false
}

func faultField(cur protoreflect.Message, fd protoreflect.FieldDescriptor, fault string, rng *rand.Rand) bool {
	if fault == "clear" {
		cur.Clear(fd)
		return true
	}
	if fd.IsList() {
		l := cur.Mutable(fd).List()
		l.Append(l.NewElement())
		return true
	}
	switch fd.Kind() {
	case protoreflect.MessageKind:
		cur.Set(fd, cur.NewField(fd))
	case protoreflect.DoubleKind:
		v := map[string]float64{"zero": 0, "neg": -1 - rng.Float64()*10, "huge": 1e300, "nan": math.NaN(), "inf": math.Inf(1), "ninf": math.Inf(-1),
			"tiny": 1e-300}[fault]
		cur.Set(fd, protoreflect.ValueOfFloat64(v))
	case protoreflect.Int64Kind:
		v := map[string]int64{"zero": 0, "one": 1, "two": 2, "neg": -1, "huge": math.MaxInt64, "min": math.MinInt64}[fault]
		cur.Set(fd, protoreflect.ValueOfInt64(v))
	case protoreflect.StringKind:
		v := map[string]string{"long": strings.Repeat("l", 2000), "odd": "\x00<&'\"\u202e"}[fault]
		cur.Set(fd, protoreflect.ValueOfString(v))
	case protoreflect.BytesKind:
		v := map[string]string{"junk": "{\"a\":", "null": "null", "list": "[1,2]"}[fault]
		cur.Set(fd, protoreflect.ValueOfBytes([]byte(v)))
	case protoreflect.BoolKind:
		cur.Set(fd, protoreflect.ValueOfBool(!cur.Get(fd).Bool()))
	default:
		panic("harness: kind")
	}
	return true
}

func byteFault(b []byte, fault string, pos int, rng *rand.Rand) []byte {
	c := append([]byte{}, b...)
	if len(c) == 0 {
		return c
	}
	i := pos % len(c)
	switch fault {
	case "cutoff":
		return c[:i]
	case "bit":
		c[(pos/8)%len(c)] ^= 1 << (pos % 8)
	case "drop":
		n := 1
		if pos%3 == 0 {
			n = 1 + rng.Intn(20)
		}
		return append(c[:i], c[min(len(c), i+n):]...)
	case "insert":
		ins := []byte{byte(rng.Intn(256))}
		if pos%3 == 0 {
			ins = []byte("\xff\xff\xff\xff\x7f")
		}
		return append(append(append([]byte{}, c[:i]...), ins...), c[i:]...)
	case "swap":
		j := rng.Intn(len(c))
		c[i], c[j] = c[j], c[i]
	case "empty":
		return []byte{}
	case "none":
		return nil
	case "garbage":
		c = make([]byte, rng.Intn(200))
		rng.Read(c)
	}
	return c
}

// jsonFault damages one node of a JSON document.
func jsonFault(b []byte, fault string, pos int) []byte {
	var doc any
	if json.Unmarshal(b, &doc) != nil { // a number out of range
		return b
	}
	n, hit := 0, false
	var walk func(v any, set func(any), del func(), dup func())
	replace := func(v any, set func(any), del, dup func()) {
		switch fault {
		case "remove":
			del()
		case "null":
			set(nil)
		case "number":
			set(-7.25)
		case "text":
			set("x")
		case "list":
			set([]any{})
		case "object":
			set(map[string]any{})
		case "twice":
			dup()
		case "nest":
			set([]any{v})
		}
	}
	walk = func(v any, set func(any), del, dup func()) {
		if hit {
			return
		}
		if n == pos {
			hit = true
			replace(v, set, del, dup)
			return
		}
		n++
		switch x := v.(type) {
		case map[string]any:
			keys := []string{}
			for k := range x {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				walk(x[k], func(w any) { x[k] = w }, func() { delete(x, k) }, func() { x[k+k] = x[k] })
			}
		case []any:
			for i := range x {
				walk(x[i], func(w any) { x[i] = w },
					func() { set(append(append([]any{}, x[:i]...), x[i+1:]...)) },
					func() { set(append(append([]any{}, x...), x[i])) })
			}
		}
	}
	total := 0
	var count func(v any)
	count = func(v any) {
		total++
		switch x := v.(type) {
		case map[string]any:
			for _, w := range x {
				count(w)
			}
		case []any:
			for _, w := range x {
				count(w)
			}
		}
	}
	count(doc)
	pos %= total
	walk(doc, func(w any) { doc = w }, func() { doc = nil }, func() {})
	r, err := json.Marshal(doc)
	must(err)
	return r
}

type xmlNode struct {
	name  string
	attrs []xml.Attr
	text  string
	kids  []*xmlNode
}

func parseXML(b []byte) *xmlNode {
	d := xml.NewDecoder(bytes.NewReader(b))
	root := &xmlNode{}
	stack := []*xmlNode{root}
	for {
		t, err := d.RawToken()
		if err != nil {
			break
		}
		top := stack[len(stack)-1]
		switch x := t.(type) {
		case xml.StartElement:
			n := &xmlNode{name: x.Name.Local, attrs: append([]xml.Attr{}, x.Attr...)}
			top.kids = append(top.kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
		case xml.CharData:
			top.text += strings.TrimSpace(string(x))
		}
	}
	return root
}

func (n *xmlNode) write(b *strings.Builder) {
	if n.name != "" {
		b.WriteString("<" + n.name)
		for _, a := range n.attrs {
			nm := a.Name.Local
			if a.Name.Space != "" {
				nm = a.Name.Space + ":" + nm
			}
			b.WriteString(" " + nm + `="`)
			xml.EscapeText(b, []byte(a.Value))
			b.WriteString(`"`)
		}
		b.WriteString(">")
	}
	xml.EscapeText(b, []byte(n.text))
	for _, k := range n.kids {
		k.write(b)
	}
	if n.name != "" {
		b.WriteString("</" + n.name + ">")
	}
}

// xmlFault damages one element or attribute of an XML document.
func xmlFault(b []byte, fault string, pos int) []byte {
	root := parseXML(b)
	var spots []func()
	var walk func(n *xmlNode)
	walk = func(n *xmlNode) {
		for i := range n.kids {
			spots = append(spots, func() {
				k := n.kids[i]
				switch fault {
				case "remove":
					n.kids = append(append([]*xmlNode{}, n.kids[:i]...), n.kids[i+1:]...)
				case "null":
					n.kids[i] = &xmlNode{name: k.name}
				case "number":
					k.text = "-7.25"
				case "text":
					k.text = "x"
				case "list":
					k.kids = nil
				case "object":
					k.name = "other"
				case "twice":
					n.kids = append(n.kids, k)
				case "nest":
					n.kids[i] = &xmlNode{name: k.name, attrs: k.attrs, kids: []*xmlNode{k}}
				}
			})
			walk(n.kids[i])
		}
		for i := range n.attrs {
			spots = append(spots, func() {
				switch fault {
				case "remove":
					n.attrs = append(append([]xml.Attr{}, n.attrs[:i]...), n.attrs[i+1:]...)
				case "null", "list":
					n.attrs[i].Value = ""
				case "number":
					n.attrs[i].Value = "-7.25"
				case "text":
					n.attrs[i].Value = "x"
				case "object":
					n.attrs[i].Name.Local = "other"
				case "twice":
					n.attrs = append(n.attrs, n.attrs[i])
				case "nest":
					n.attrs[i].Value = "NaN"
				}
			})
		}
	}
	walk(root)
	spots[pos%len(spots)]()
	sb := &strings.Builder{}
	root.write(sb)
	return []byte(sb.String())
}

// useTracker exercises a tracker; every entry is 1 when that came to a good end.
func useTracker(d *gpsgen.Device, rng *rand.Rand) []int {
	use := []int{}
	done := func(ok bool) { use = append(use, fl(ok)) }
	d.ID()
	d.State()
	d.Snapshot()
	for i := 0; i < 4; i++ {
		d.Next([]float64{1, 0.5, 30, 2000}[i])
	}
	done(true)
	for i := 0; i < d.NumRoutes(); i++ {
		rt := d.RouteAt(i)
		d.MoveToRoute(i)
		d.Next(1)
		if rt == nil {
			continue
		}
		d.MoveToRouteByID(rt.ID())
		for j := 0; j < rt.NumTracks(); j++ {
			t := rt.TrackAt(j)
			d.MoveToTrack(i, j)
			d.Next(3)
			d.MoveToTrackByID(rt.ID(), t.ID())
			for k := 0; k < t.NumSegments(); k++ {
				d.MoveToSegment(i, j, k)
				d.Next(1)
			}
			t.Props().Set("used", 1)
		}
		rt.Props().Set("used", 1)
	}
	d.ToNextRoute()
	d.Next(1)
	d.ToPrevRoute()
	done(true)
	total := 0.0
	if d.NumRoutes() > 0 {
		total = d.Distance()
	}
	if math.IsNaN(total) || math.IsInf(total, 0) || total > 1e9 {
		total = 1000
	}
	for i := 0; i < 4; i++ {
		d.DestinationTo(total * float64(i) / 3)
		d.Next(2)
	}
	done(true)
	d.ToOffline()
	for i := 0; i < 3; i++ {
		d.Next(1)
	}
	d.EachSensor(func(_ int, s *types.Sensor) bool { s.Shuffle(); s.Next(0.5); return true })
	d.Update()
	proto.Clone(d.State())
	done(true)
	b, err := d.MarshalBinary()
	done(err == nil && len(b) > 0)
	_, err = proto.Marshal(d.State())
	done(err == nil)
	n := gpsgen.NewTracker()
	n.FromSnapshot(d.Snapshot())
	n.Next(1)
	if d.NumRoutes() > 0 {
		if rt := d.RouteAt(0); rt != nil {
			if rt.NumTracks() > 0 {
				d.RemoveTrack(rt.ID(), rt.TrackAt(0).ID())
			}
			d.Next(1)
			d.RemoveRoute(rt.ID())
			d.Next(1)
		}
	}
	d.ResetRoutes()
	d.Next(1)
	done(true)
	return use
}

func useRoutes(kind string, rts []*navigator.Route, rng *rand.Rand) []int {
	use := []int{1}
	tracks := 0
	for _, rt := range rts {
		rt.Snapshot()
		rt.EachTrack(func(_ int, t *navigator.Track) bool {
			tracks++
			t.Snapshot()
			t.Props().Set("u", 1)
			return true
		})
		rt.Props().Set("u", 1)
	}
	var err error
	switch {
	case kind == "Routes":
		_, err = gpsgen.EncodeRoutes(rts)
	case kind[:3] == "geo":
		_, err = gpsgen.EncodeGeoJSONRoutes(rts)
	default:
		_, err = gpsgen.EncodeGPXRoutes(rts)
	}
	use = append(use, fl(err == nil || len(rts) == 0 || kind[:3] == "gpx" && tracks == 0))
	gpsgen.EncodeGeoJSONRoutes(rts)
	gpsgen.EncodeGPXRoutes(rts)
	d := gpsgen.NewTracker()
	d.AddRoute(rts...)
	return append(use, useTracker(d, rng)...)
}

func useSensors(ss []*types.Sensor) []int {
	for _, s := range ss {
		s.ID()
		for i := 0; i < 5; i++ {
			s.Next(float64(i) / 4)
		}
		s.Shuffle()
		s.Next(0.3)
		_ = s.String()
	}
	_, err := gpsgen.EncodeSensors(ss)
	d := gpsgen.NewTracker()
	d.AddSensor(ss...)
	d.Next(1)
	d.Update()
	_, err2 := d.MarshalBinary()
	return []int{fl(err == nil || len(ss) == 0), fl(err2 == nil)}
}

type faultCase struct {
	kind  string
	b     []byte
	doc   string
	into  bool
	about []string
}

func decodeCase(s *sample, c faultCase, rng *rand.Rand) (e M) {
	e = M{"op": "decode", "kind": c.kind, "doc": c.doc, "into": fl(c.into), "about": c.about, "r": 0, "got": 0, "same": 1, "use": []int{}}
	res := func(err error, got bool, use func() []int) {
		e["r"] = fl(err == nil)
		e["got"] = fl(got)
		if err == nil && got {
			e["use"] = use()
		}
	}
	switch c.kind {
	case "Tracker":
		if !c.into {
			d, err := gpsgen.DecodeTracker(c.b)
			res(err, d != nil, func() []int { return useTracker(d, rng) })
			return e
		}
		d := gpsgen.NewTracker()
		must(d.AddRoute(s.tracker.Routes()[:1+rng.Intn(2)]...))
		d.Next(5)
		d.Update()
		look := func() string {
			a, err := proto.MarshalOptions{Deterministic: true}.Marshal(d.Snapshot())
			must(err)
			b, err := proto.MarshalOptions{Deterministic: true}.Marshal(d.State())
			must(err)
			return string(a) + string(b)
		}
		before := look()
		err := d.UnmarshalBinary(c.b)
		e["same"] = fl(before == look())
		e["r"] = fl(err == nil)
		e["got"] = fl(err == nil)
		e["use"] = useTracker(d, rng)
	case "Sensors":
		ss, err := gpsgen.DecodeSensors(c.b)
		res(err, ss != nil, func() []int { return useSensors(ss) })
	case "Packet":
		p, err := gpsgen.PacketFromBytes(c.b)
		res(err, p != nil, func() []int {
			for _, d := range p.GetDevices() {
				d.GetLocation().GetUtm().GetEasting()
				d.GetNavigator().GetCurrentRouteId()
				_ = d.String()
			}
			_, err := proto.Marshal(p)
			return []int{fl(err == nil)}
		})
	case "Routes":
		rts, err := gpsgen.DecodeRoutes(c.b)
		res(err, err == nil, func() []int { return useRoutes(c.kind, rts, rng) })
		if err != nil && rts != nil {
			e["got"] = 1
		}
	case "geojson", "geojson3":
		rts, err := gpsgen.DecodeGeoJSONRoutes(c.b)
		res(err, err == nil, func() []int { return useRoutes(c.kind, rts, rng) })
		fc, e2 := geojson.ParseFeatureCollection(c.b)
		e["fc"] = fl((e2 == nil) == (fc != nil))
		if fc != nil && e2 == nil {
			for _, f := range fc.Features {
				if f != nil {
					_ = f.Geometry
				}
			}
		}
		if err != nil && rts != nil {
			e["got"] = 1
		}
	case "gpx", "gpx3":
		rts, err := gpsgen.DecodeGPXRoutes(c.b)
		res(err, err == nil, func() []int { return useRoutes(c.kind, rts, rng) })
		if err != nil && rts != nil {
			e["got"] = 1
		}
	}
	return e
}

// guarded runs a case; a panic or a case that does not end is recorded as such and ends the run.
func guarded(s *sample, c faultCase, rng *rand.Rand, steps *[]M) bool {
	ch := make(chan M, 1)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				st := string(debug.Stack())
				if msg := fmt.Sprint(x); strings.HasPrefix(msg, "harness: ") {
					fmt.Fprintln(os.Stderr, msg, st)
					os.Exit(3)
				}
				if len(st) > 3000 {
					st = st[:3000]
				}
				ch <- M{"op": "crash", "kind": c.kind, "about": c.about, "panic": fmt.Sprint(x), "stack": st, "bytes": len(c.b)}
			}
		}()
		ch <- decodeCase(s, c, rng)
	}()
	select {
	case e := <-ch:
		*steps = append(*steps, e)
		return e["op"] != "crash"
	case <-time.After(30 * time.Second):
		*steps = append(*steps, M{"op": "hang", "kind": c.kind, "about": c.about, "bytes": len(c.b)})
		return false
	}
}

// countFault makes the description of routes and tracks disagree with them: one of either is
// left out or comes twice.
func countFault(b []byte, rng *rand.Rand) []byte {
	twice := rng.Intn(2) == 0
	if b[0] == '{' {
		var doc map[string]any
		must(json.Unmarshal(b, &doc))
		fs := doc["features"].([]any)
		f := fs[rng.Intn(len(fs))].(map[string]any)
		m, k := f["properties"].(map[string]any), "tracksInfo"
		if g := f["geometry"].(map[string]any); rng.Intn(2) == 0 && g["geometries"] != nil {
			m, k = g, "geometries"
		}
		q := m[k].([]any)
		i := rng.Intn(len(q))
		if twice {
			q = append(q, q[i])
		} else {
			q = append(append([]any{}, q[:i]...), q[i+1:]...)
		}
		m[k] = q
		r, err := json.Marshal(doc)
		must(err)
		return r
	}
	root := parseXML(b)
	var spots []func()
	var walk func(n *xmlNode)
	walk = func(n *xmlNode) {
		for i, k := range n.kids {
			if k.name == "trk" || k.name == "trkseg" || k.name == "route" || k.name == "track" {
				spots = append(spots, func() {
					if twice {
						n.kids = append(n.kids, k)
					} else {
						n.kids = append(append([]*xmlNode{}, n.kids[:i]...), n.kids[i+1:]...)
					}
				})
			}
			walk(k)
		}
	}
	walk(root)
	spots[rng.Intn(len(spots))]()
	sb := &strings.Builder{}
	root.write(sb)
	return []byte(sb.String())
}

func faultsMode() {
	rng := rand.New(rand.NewSource(cfg.seed))
	s := newSample(rng)
	steps := []M{}
	flush := func() {
		if len(steps) > 0 {
			emit(M{"steps": steps})
			steps = []M{}
		}
	}
	run := func(c faultCase) bool {
		ok := guarded(s, c, rng, &steps)
		if !ok || len(steps) >= 100 {
			flush()
		}
		return ok
	}
	kinds := []string{"Tracker", "Routes", "Sensors", "Packet", "geojson", "gpx", "geojson3", "gpx3"}
	for _, k := range kinds {
		run(faultCase{k, s.doc[k], "clean", false, []string{"as written"}})
		for _, b := range [][]byte{nil, {}} {
			run(faultCase{k, b, "empty", false, []string{"no bytes"}})
		}
	}
	run(faultCase{"Tracker", s.doc["Tracker"], "clean", true, []string{"as written"}})
	run(faultCase{"Tracker", nil, "empty", true, []string{"no bytes"}})
	if cfg.prof == "struct" { // lines "KIND PATH FAULT"; pairs as well
		in, err := os.Open(cfg.in)
		must(err)
		defer in.Close()
		var all [][3]string
		sc := bufio.NewScanner(in)
		for sc.Scan() {
			f := strings.Fields(sc.Text())
			all = append(all, [3]string{f[0], f[1], f[2]})
		}
		must(sc.Err())
		byKind := map[string][][3]string{}
		for _, f := range all {
			byKind[f[0]] = append(byKind[f[0]], f)
		}
		one := func(fs ...[3]string) bool {
			m := proto.Clone(s.msg[fs[0][0]])
			about := []string{}
			for _, f := range fs {
				if applyFault(m, f[1], f[2], rng) {
					about = append(about, f[1]+" "+f[2])
				}
			}
			b, err := proto.Marshal(m)
			if err != nil {
				return true
			}
			if !run(faultCase{fs[0][0], b, "damaged", false, about}) {
				return false
			}
			return fs[0][0] != "Tracker" || run(faultCase{fs[0][0], b, "damaged", true, about})
		}
		for _, f := range all {
			if !one(f) {
				return
			}
		}
		for i := 0; i < cfg.n; i++ {
			f := byKind[all[rng.Intn(len(all))][0]]
			k := 2 + rng.Intn(2)
			fs := [][3]string{}
			for j := 0; j < k; j++ {
				fs = append(fs, f[rng.Intn(len(f))])
			}
			if !one(fs...) {
				return
			}
			if i%200 == 0 {
				s = newSample(rng)
			}
		}
		flush()
		return
	}
	byteFaults := []string{"cutoff", "bit", "drop", "insert", "swap", "garbage"}
	treeFaults := []string{"remove", "null", "number", "text", "list", "object", "twice", "nest"}
	for i := 0; i < cfg.n; i++ {
		if i%20 == 0 {
			k := []string{"gpx", "geojson"}[rng.Intn(2)]
			if !run(faultCase{k, countFault(s.doc[k], rng), "counts", false, []string{"a route or track, or its description, missing or twice"}}) {
				return
			}
		}
		k := kinds[rng.Intn(len(kinds))]
		b := s.doc[k]
		about := []string{}
		for n := 1 + rng.Intn(4)/3; n > 0; n-- {
			tree := k[0] == 'g' && rng.Intn(3) > 0
			pos := rng.Intn(1 << 20)
			f := byteFaults[rng.Intn(len(byteFaults))]
			if tree {
				f = treeFaults[rng.Intn(len(treeFaults))]
			}
			about = append(about, f+" "+strconv.Itoa(pos))
			switch {
			case tree && k[:3] == "geo" && json.Valid(b):
				b = jsonFault(b, f, pos)
			case tree && k[:3] == "gpx" && len(parseXML(b).kids) > 0:
				b = xmlFault(b, f, pos)
			case !tree:
				b = byteFault(b, f, pos, rng)
			}
		}
		doc := "damaged"
		if !run(faultCase{k, b, doc, k == "Tracker" && rng.Intn(2) == 0, about}) {
			return
		}
		if i%300 == 0 {
			s = newSample(rng)
		}
	}
	flush()
}
