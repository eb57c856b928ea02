package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"google.golang.org/protobuf/proto"
)

func init() { modes["conc"] = concMode }

// conc is one tracker read while it changes.
type conc struct {
	mu   sync.Mutex
	in   interner
	ev   []M
	A, B [][]int
	nr   atomic.Int32
	d    *gpsgen.Device
	cat  *catalogue
	held []held
	snap *pb.Snapshot
	two  bool
}

// held is something obtained earlier and how it looked.
type held struct {
	m func() string
	h string
}

func held1(m proto.Message) func() string { return func() string { return hash(marsh(m)) } }

const fields = 34

func (c *conc) id(s string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.in.id(s)
}

func (c *conc) log(m M) {
	c.mu.Lock()
	defer c.mu.Unlock()
	m["r"] = 0
	c.ev = append(c.ev, m)
}

// splitState separates what ticks and moves change from the descriptive settings.
func splitState(st *pb.Device) (string, string) {
	x := proto.Clone(st).(*pb.Device)
	b := strings.Join([]string{x.Model, x.UserId, x.Color, x.Description}, "\x00")
	x.Model, x.UserId, x.Color, x.Description = "", "", "", ""
	return hash(marsh(x)), b
}

func splitSnap(st *pb.Snapshot) (string, string) {
	x := proto.Clone(st).(*pb.Snapshot)
	b := strings.Join([]string{x.Model, x.UserId, x.Color, x.Descr}, "\x00")
	x.Model, x.UserId, x.Color, x.Descr = "", "", "", ""
	return hash(marsh(x)), b
}

// read reads one field: its part that ticks change, and its descriptive part ("" when there is none).
func (c *conc) read(f int, pause func(), keep bool) (a, b string, m func() string) {
	d := c.d
	s := func(x any) string { return fmt.Sprintf("%d %v", f, x) }
	switch f {
	case 1:
		st := d.State()
		a, b = splitState(st)
		m = held1(st)
	case 2:
		st := d.Snapshot()
		a, b = splitSnap(st)
		m = held1(st)
	case 3:
		a = s(d.Location())
	case 4:
		a = s(d.Distance())
	case 5:
		a = s(d.CurrentDistance())
	case 6:
		a = s(d.RouteDistance())
	case 7:
		a = s(d.CurrentRouteDistance())
	case 8:
		a = s(d.TrackDistance())
	case 9:
		a = s(d.CurrentTrackDistance())
	case 10:
		a = s(d.SegmentDistance())
	case 11:
		a = s(d.CurrentSegmentDistance())
	case 12:
		a = s(d.Duration())
	case 13:
		a = s(d.RouteIndex())
	case 14:
		a = s(d.TrackIndex())
	case 15:
		a = s(d.SegmentIndex())
	case 16:
		a = s(d.IsOffline())
	case 17:
		a = s(d.IsFinish())
	case 18:
		a = s(d.Version())
	case 19:
		a = s(d.CurrentBearing())
	case 20:
		a = s(d.NumRoutes())
	case 21:
		rs := d.Routes()
		m = func() string {
			l := []string{}
			for _, r := range rs {
				if r == nil {
					l = append(l, "nil")
					continue
				}
				l = append(l, r.ID())
			}
			return s(l)
		}
		a = m()
	case 22:
		if r := d.CurrentRoute(); r != nil {
			a = s(r.ID())
		} else {
			a = s(nil)
		}
	case 23:
		if t := d.CurrentTrack(); t != nil {
			a = s(t.ID())
		} else {
			a = s(nil)
		}
	case 24:
		g := d.CurrentSegment()
		a = s(fmt.Sprint(g.Index(), g.Distance(), g.Bearing()))
	case 25:
		xs := d.Sensors()
		m = func() string {
			l := []string{}
			for _, x := range xs {
				if x == nil {
					l = append(l, "nil")
					continue
				}
				l = append(l, x.ID())
			}
			return s(l)
		}
		a = m()
	case 26:
		a = s(d.NumSensors())
	case 27:
		l := []string{}
		d.EachSensor(func(i int, x *types.Sensor) bool {
			l = append(l, fmt.Sprint(i, x.ID(), x.ValueX(), x.ValueY()))
			if len(l) == 1 && pause != nil {
				pause()
			}
			return true
		})
		a = s(l)
	case 28:
		l := []string{}
		d.EachRoute(func(i int, x *navigator.Route) bool {
			l = append(l, fmt.Sprint(i, x.ID(), x.Distance(), x.NumTracks()))
			if len(l) == 1 && pause != nil {
				pause()
			}
			return true
		})
		a = s(l)
	case 29:
		buf, err := d.MarshalBinary()
		sn := new(pb.Snapshot)
		if err == nil {
			err = proto.Unmarshal(buf, sn)
		}
		if err != nil {
			return s(err), "", nil
		}
		a, b = splitSnap(sn)
	case 30:
		b = s(d.ID())
	case 31:
		b = s(d.Model())
	case 32:
		b = s(d.UserID())
	case 33:
		b = s(d.Color())
	case 34:
		b = s(d.Descr())
	}
	if b == "" {
		return a, "", m
	}
	return a, b, m
}

func (c *conc) num(s string) int {
	if s == "" {
		return -1
	}
	return c.id(s)
}

// observe lists the values of all fields; only the writer of a part calls it for that part.
func (c *conc) observe(part int) []int {
	l := make([]int, fields)
	for f := 1; f <= fields; f++ {
		a, b, _ := c.read(f, nil, false)
		if part == 0 {
			l[f-1] = c.num(a)
		} else {
			l[f-1] = c.num(b)
		}
	}
	return l
}

func (c *conc) reader(rng *rand.Rand, f int, pause func()) {
	n := int(c.nr.Add(1))
	c.log(M{"op": "rB", "c": n})
	a, b, m := c.read(f, pause, true)
	va, vb := c.num(a), c.num(b)
	c.log(M{"op": "rE", "c": n, "f": f, "v": []int{va, vb}})
	if m != nil && rng.Intn(4) == 0 {
		c.mu.Lock()
		c.held = append(c.held, held{m, m()})
		c.mu.Unlock()
	}
}

func (c *conc) recheck() {
	same := true
	c.mu.Lock()
	for _, h := range c.held {
		same = same && h.m() == h.h
	}
	c.mu.Unlock()
	c.log(M{"op": "hold", "same": b2i(same)})
}

// write makes one change; gentle changes keep routes and sensors.
func (c *conc) write(rng *rand.Rand, part int, gentle bool) {
	c.log(M{"op": "wB", "w": part})
	if part == 1 {
		switch rng.Intn(4) {
		case 0:
			must(c.d.SetModel(fmt.Sprintf("model-%d", rng.Intn(1000))))
		case 1:
			must(c.d.SetUserID(fmt.Sprintf("%08x-aaaa", rng.Uint32())))
		case 2:
			must(c.d.SetColor(randColor(rng)))
		default:
			c.d.SetDescription(fmt.Sprint("about ", rng.Intn(1000)))
		}
	} else {
		c.change(c.d, rng, gentle)
	}
	o := c.observe(part)
	c.mu.Lock()
	if part == 0 {
		c.A = append(c.A, o)
	} else {
		c.B = append(c.B, o)
	}
	c.mu.Unlock()
	c.log(M{"op": "wE", "w": part})
}

func (c *conc) change(d *gpsgen.Device, rng *rand.Rand, gentle bool) {
	k := rng.Intn(30)
	if gentle && k >= 22 {
		k = rng.Intn(22)
	}
	rt := func() *navigator.Route { return c.cat.routes[rng.Intn(len(c.cat.routes))].rt }
	switch {
	case k < 10:
		d.Next(1 + float64(rng.Intn(30))) // one change is one operation
	case k == 10:
		d.DestinationTo(rng.Float64() * 5000)
	case k == 11:
		d.MoveToSegment(rng.Intn(2), rng.Intn(3), rng.Intn(3))
	case k == 12:
		d.MoveToTrack(rng.Intn(2), rng.Intn(3))
	case k == 13:
		d.MoveToRoute(rng.Intn(3))
	case k == 14:
		d.ToNextRoute()
	case k == 15:
		d.ToPrevRoute()
	case k == 16:
		d.ToOffline()
	case k == 17:
		d.ResetNavigator()
	case k == 18:
		d.Update()
	case k == 19 || k == 20:
		d.AddRoute(cloneRoute(rt()))
	case k == 21:
		s, err := types.NewSensor(fmt.Sprint("s", rng.Intn(100)), 1, 50, 8, types.WithSensorRandomMode)
		must(err)
		d.AddSensor(s)
	case k == 22:
		d.RemoveRoute(rt().ID())
	case k == 23 || k == 24:
		r := rt()
		if r.NumTracks() > 0 {
			d.RemoveTrack(r.ID(), r.TrackAt(rng.Intn(r.NumTracks())).ID())
		}
	case k == 25:
		if l := d.Sensors(); len(l) > 0 {
			d.RemoveSensor(l[rng.Intn(len(l))].ID())
		}
	case k == 26:
		if rng.Intn(3) == 0 {
			d.ResetSensors()
		}
	case k == 27:
		if rng.Intn(3) == 0 {
			d.ResetRoutes()
		}
	case k == 28:
		if r := rt(); r.NumTracks() > 0 {
			d.MoveToTrackByID(r.ID(), r.TrackAt(0).ID())
		}
	case k == 29:
		if c.two {
			d.MoveToRouteByID(rt().ID())
		} else {
			d.FromSnapshot(c.snap)
		}
	}
}

func newConc(rng *rand.Rand) *conc {
	c := &conc{}
	c.cat = randomCatalogue(rng, 3, rng.Intn(3) == 0, false)
	cf := tcfg{omin: 0, omax: rng.Intn(3), skip: rng.Intn(2), bmin: 3, ct: 100 + rng.Intn(30000), smin: 1, smax: 3 + rng.Float64()*20,
		samp: 8, emin: 1, emax: 77, eamp: 6, emode: types.WithSensorStartMode}
	d, err := gpsgen.NewDevice(cf.options())
	must(err)
	c.d = d
	ns := []int{2, 3, 5, 30}[rng.Intn(4)]
	for i := 0; i < ns; i++ {
		s, err := types.NewSensor(fmt.Sprint("first", i), 0, 1000, 16, types.WithSensorRandomMode)
		must(err)
		d.AddSensor(s)
	}
	must(d.AddRoute(cloneRoute(c.cat.routes[0].rt), cloneRoute(c.cat.routes[1].rt)))
	for i := 0; i < 3; i++ {
		d.Next(2)
	}
	d.Update()
	c.snap = d.Snapshot()
	c.A, c.B = [][]int{c.observe(0)}, [][]int{c.observe(1)}
	return c
}

func (c *conc) emit(i int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	emit(M{"id": i, "A": c.A, "B": c.B, "steps": append([]M{{"op": "init", "r": 0}}, c.ev...)})
}

func (c *conc) hang(stack string) { c.log(M{"op": "hang", "stack": stack}) }

func concMode() {
	if cfg.prog != "" {
		concPrograms()
		return
	}
	for i := 0; i < cfg.n; i++ {
		rng := rand.New(rand.NewSource(cfg.seed*1000003 + int64(i)))
		c := newConc(rng)
		f := func() { c.mixed(rng) }
		if i%4 == 3 || cfg.prof == "storm" {
			f = func() { c.storm(rng) }
		} else if i%4 == 1 {
			f = func() { c.rush(rng) }
		}
		ok := limited(f, c.hang)
		c.emit(i)
		if !ok {
			return
		}
	}
}

// mixed: readers next to one writer of each part.
func (c *conc) mixed(rng *rand.Rand) {
	c.two = rng.Intn(2) == 0
	var wr, rd sync.WaitGroup
	var over atomic.Bool
	sub := func() *rand.Rand { return rand.New(rand.NewSource(rng.Int63())) }
	run := func(part, n int) {
		q := sub()
		wr.Add(1)
		go func() {
			defer wr.Done()
			for k := 0; k < n; k++ {
				c.write(q, part, false)
				switch q.Intn(4) {
				case 0:
					runtime.Gosched()
				case 1:
					time.Sleep(time.Duration(q.Intn(60)) * time.Microsecond)
				}
			}
		}()
	}
	steps := cfg.steps
	run(0, steps)
	if c.two {
		run(1, steps/2)
	}
	for k := 0; k < 1+rng.Intn(4); k++ {
		q := sub()
		focus := q.Intn(3) == 0
		own := 1 + q.Intn(2)
		rd.Add(1)
		go func() {
			defer rd.Done()
			for n := 0; n < 4*steps && !over.Load(); n++ {
				f := 1 + q.Intn(fields)
				if focus || q.Intn(3) == 0 {
					f = own
				}
				var pause func()
				if q.Intn(3) == 0 {
					pause = func() { time.Sleep(time.Duration(q.Intn(200)) * time.Microsecond) }
				}
				c.reader(q, f, pause)
				if q.Intn(3) == 0 {
					time.Sleep(time.Duration(q.Intn(120)) * time.Microsecond)
				}
			}
		}()
	}
	wr.Wait()
	over.Store(true)
	rd.Wait()
	c.recheck()
	// what was obtained stays as it was while the tracker goes on
	for k := 0; k < 12; k++ {
		c.write(rng, 0, false)
	}
	c.recheck()
	c.sane(rng)
	c.recheck()
	c.log(M{"op": "end"})
}

// rush: readers that do nothing but take states or snapshots, as fast as they can, next to the
// writer of what they show.  Nothing is logged meanwhile: events carry numbers from a shared counter
// and are put in order afterwards; a read that shows what the same reader saw before is left out.
func (c *conc) rush(rng *rand.Rand) {
	type ev struct {
		at int64
		m  M
	}
	type seen struct {
		from, to int64
		st       *pb.Device
		sn       *pb.Snapshot
		raw      []byte
	}
	var seq atomic.Int64
	var mu sync.Mutex
	var all []ev
	var over atomic.Bool
	var rd sync.WaitGroup
	d := c.d
	direct := rng.Intn(2) == 0 // routes are also changed directly, followed by an update: only states are read
	var start sync.WaitGroup
	start.Add(1)
	for k := 0; k < 2+rng.Intn(3); k++ {
		f := 1
		if !direct && rng.Intn(2) == 0 {
			f = 2
		}
		bin := rng.Intn(2) == 0 // the snapshot is taken through the binary encoding
		id := k * 1000000
		rd.Add(1)
		go func() {
			defer rd.Done()
			start.Wait()
			var l []seen
			for n := 0; !over.Load() && n < 8000; n++ {
				x := seen{from: seq.Add(1)}
				if f == 1 {
					x.st = d.State()
				} else if bin {
					x.raw, _ = d.MarshalBinary()
				} else {
					x.sn = d.Snapshot()
				}
				x.to = seq.Add(1)
				l = append(l, x)
			}
			last := ""
			var es []ev
			for i, x := range l {
				if f == 2 && bin {
					x.sn = new(pb.Snapshot)
					if proto.Unmarshal(x.raw, x.sn) != nil {
						x.sn = new(pb.Snapshot)
					}
				}
				var a string
				if f == 1 {
					a, _ = splitState(x.st)
				} else {
					a, _ = splitSnap(x.sn)
				}
				if a == last {
					continue
				}
				last = a
				es = append(es, ev{x.from, M{"op": "rB", "c": id + i}}, ev{x.to, M{"op": "rE", "c": id + i, "f": f, "v": []int{c.num(a), -1}}})
			}
			mu.Lock()
			all = append(all, es...)
			mu.Unlock()
		}()
	}
	look := func() []int {
		l := make([]int, fields)
		a, _ := splitState(d.State())
		l[0] = c.num(a)
		a, _ = splitSnap(d.Snapshot())
		l[1] = c.num(a)
		return l
	}
	c.A, c.B = [][]int{look()}, [][]int{make([]int, fields)}
	start.Done()
	for n := 0; n < cfg.steps/2; n++ {
		at := seq.Add(1)
		if direct && rng.Intn(3) > 0 {
			// a change of its own and the update that publishes it
			if rs := d.Routes(); len(rs) > 0 {
				r := rs[rng.Intn(len(rs))]
				switch {
				case rng.Intn(3) == 0 && r.NumTracks() > 0:
					r.RemoveTrack(r.TrackAt(rng.Intn(r.NumTracks())).ID())
				default:
					t, err := navigator.NewTrack(randPoints(rng, 2+rng.Intn(20)))
					must(err)
					r.AddTrack(t)
				}
			}
			for _, s := range d.Sensors() {
				s.Next(rng.Float64())
			}
			d.Update()
		} else {
			c.change(d, rng, false)
		}
		o := look()
		c.A = append(c.A, o)
		all1 := []ev{{at, M{"op": "wB", "w": 0}}, {seq.Add(1), M{"op": "wE", "w": 0}}}
		mu.Lock()
		all = append(all, all1...)
		mu.Unlock()
		if rng.Intn(3) == 0 {
			time.Sleep(time.Duration(rng.Intn(30)) * time.Microsecond)
		}
	}
	over.Store(true)
	rd.Wait()
	sort.Slice(all, func(i, j int) bool { return all[i].at < all[j].at })
	for _, e := range all {
		c.log(e.m)
	}
	c.log(M{"op": "end"})
}

// storm: everything at once; nothing may crash, and afterwards the tracker is whole.
func (c *conc) storm(rng *rand.Rand) {
	d := c.d
	o := gpsgen.NewOptions()
	o.Interval = time.Millisecond
	g := gpsgen.New(o)
	var last atomic.Pointer[[]byte]
	g.OnPacket(func(b []byte) { last.Store(&b) })
	g.OnNext(func() { d.State() })
	ran := make(chan struct{})
	go func() { g.Run(); close(ran) }()
	var wg sync.WaitGroup
	for k := 0; k < 6; k++ {
		q := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 3*cfg.steps; n++ {
				switch q.Intn(12) {
				case 0, 1, 2, 3, 4:
					c.change(d, q, false)
				case 5:
					d.SetModel(fmt.Sprint("model", q.Intn(9)))
					d.SetUserID(fmt.Sprint("user", q.Intn(9)))
					d.SetColor(randColor(q))
					d.SetDescription(fmt.Sprint(q.Intn(9)))
				case 6:
					if q.Intn(2) == 0 {
						g.Attach(d)
					} else {
						g.Detach(d.ID())
					}
				case 7:
					b, err := gpsgen.EncodeTracker(d)
					if err == nil && q.Intn(2) == 0 {
						gpsgen.DecodeTracker(b)
					}
				case 8:
					d.FromSnapshot(d.Snapshot())
				case 9:
					if b, err := d.MarshalBinary(); err == nil {
						d.UnmarshalBinary(b)
					}
				case 10:
					g.NumDevices()
					g.Lookup(d.ID())
					g.HasTracker(d.ID())
					g.Each(func(int, *gpsgen.Device) bool { return true })
					d.Status()
					d.SensorAt(q.Intn(4))
					d.RouteAt(q.Intn(4))
					d.SensorByID("x")
				default:
					for j := 0; j < 4; j++ {
						c.read(1+q.Intn(fields), nil, false)
					}
				}
			}
		}()
	}
	wg.Wait()
	g.Close()
	<-ran
	g.Detach(d.ID())
	c.sane(rng)
	c.log(M{"op": "end"})
}

// sane looks at the tracker at rest.
func (c *conc) sane(rng *rand.Rand) {
	d := c.d
	m := M{"op": "sane"}
	d.Update()
	bad := 0
	st := d.State()
	if st.Duration != d.Duration() || st.Distance.CurrentDistance != d.CurrentDistance() || st.Distance.Distance != d.Distance() ||
		st.Location.Lat != d.Location().Lat || st.Location.Lon != d.Location().Lon || len(st.Routes.Routes) != d.NumRoutes() ||
		len(st.Sensors) != d.NumSensors() || int(st.Navigator.CurrentRouteIndex) != d.RouteIndex() || st.Model != d.Model() || st.IsOffline != d.IsOffline() {
		bad = 1
	}
	rl := [][]int{}
	tot := 0.0
	for _, r := range d.Routes() {
		l := []int{c.id("r" + r.ID())}
		s := 0.0
		for i := 0; i < r.NumTracks(); i++ {
			l = append(l, c.id("t"+r.TrackAt(i).ID()))
			s += r.TrackAt(i).Distance()
		}
		if dd := s - r.Distance(); dd > 0.01 || dd < -0.01 {
			bad = 2
		}
		tot += s
		rl = append(rl, l)
	}
	if dd := tot - d.Distance(); dd > 0.01 || dd < -0.01 {
		bad = 3
	}
	sl := []int{}
	for _, s := range d.Sensors() {
		sl = append(sl, c.id("s"+s.ID()))
	}
	m["rl"], m["sl"], m["nr"], m["bad"] = rl, sl, d.NumRoutes(), bad
	m["cd"], m["rd"], m["td"], m["sd"] = mm(d.CurrentDistance()), mm(d.CurrentRouteDistance()), mm(d.CurrentTrackDistance()), mm(d.CurrentSegmentDistance())
	m["p"] = []int{d.RouteIndex(), d.TrackIndex(), d.SegmentIndex()}
	nt, nk := 0, 0
	if r := d.CurrentRoute(); r != nil {
		nt = r.NumTracks()
	}
	if t := d.CurrentTrack(); t != nil {
		nk = t.NumSegments()
	}
	m["nt"], m["nk"] = nt, nk
	// a tracker with a route to follow moves
	rt := navigator.NewRoute()
	if longLine == nil {
		longLine = newLongTrack()
	}
	rt.AddTrack(longLine)
	d.ResetRoutes()
	must(d.AddRoute(rt))
	ok := false
	for k := 0; k < 300 && !ok; k++ {
		ok = d.Next(1)
	}
	m["ticked"] = b2i(ok)
	c.log(m)
}

// concPrograms replays interleavings made from the specification: reads are held in the middle.
func concPrograms() {
	f, err := os.Open(cfg.prog)
	must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for i := 0; sc.Scan(); i++ {
		var pr struct {
			Ops []struct {
				Op string
				A  []int
			}
		}
		must(json.Unmarshal(sc.Bytes(), &pr))
		rng := rand.New(rand.NewSource(cfg.seed*7919 + int64(i)))
		c := newConc(rng)
		c.two = true
		ok := limited(func() {
			var all sync.WaitGroup
			type act struct {
				in, let, done chan struct{}
				letGo         bool
			}
			rd, wr := map[int]*act{}, map[int]*act{}
			wait := func(ch chan struct{}, d time.Duration) {
				select {
				case <-ch:
				case <-time.After(d):
				}
			}
			for _, o := range pr.Ops {
				k := o.A[0]
				switch o.Op {
				case "rB":
					if x := rd[k]; x != nil {
						select {
						case <-x.done:
						default: // still waiting for a writer that waits for another reader
							delete(rd, k)
							continue
						}
					}
					x := &act{in: make(chan struct{}), let: make(chan struct{}), done: make(chan struct{})}
					rd[k] = x
					q := rand.New(rand.NewSource(rng.Int63()))
					fl := []int{27, 28, 27, 28, 1, 2, 29}[q.Intn(7)]
					all.Add(1)
					go func() {
						defer all.Done()
						c.reader(q, fl, func() { close(x.in); <-x.let })
						close(x.done)
					}()
					select {
					case <-x.in:
					case <-x.done:
					case <-time.After(time.Millisecond):
					}
				case "rE":
					if x := rd[k]; x != nil {
						if !x.letGo {
							x.letGo = true
							close(x.let)
						}
						wait(x.done, 2*time.Millisecond)
					}
				case "wB":
					if x := wr[k]; x != nil {
						// the change before may wait for a reader still held
						wait(x.done, 2*time.Millisecond)
						select {
						case <-x.done:
						default:
							continue
						}
					}
					x := &act{done: make(chan struct{})}
					wr[k] = x
					q := rand.New(rand.NewSource(rng.Int63()))
					all.Add(1)
					go func() {
						defer all.Done()
						c.write(q, k, true)
						close(x.done)
					}()
					wait(x.done, 300*time.Microsecond)
				case "wE":
					if x := wr[k]; x != nil {
						wait(x.done, 300*time.Microsecond)
					}
				}
			}
			for _, x := range rd {
				if !x.letGo {
					close(x.let)
				}
			}
			all.Wait()
			c.recheck()
			c.log(M{"op": "end"})
		}, c.hang)
		c.emit(i)
		if !ok {
			return
		}
	}
}
