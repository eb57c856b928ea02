package main

import (
	"math"
	"math/rand"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/curve"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"google.golang.org/protobuf/proto"
)

func init() { modes["values"] = valuesMode }

const topPos = 1000000

// place is where y lies between two bounds.
func place(y, lo, hi float64) int {
	var r float64
	if lo == hi {
		r = (y - lo) / math.Max(1, math.Abs(lo)) * topPos
	} else {
		r = (y - lo) / (hi - lo) * topPos
	}
	if math.IsNaN(r) || math.Abs(r) > 2e9 {
		return 2000000000
	}
	return int(math.Round(r))
}

// source is one generator of values.
type source interface {
	ask(p float64) float64
	val() float64
	shuffle()
	fork(rng *rand.Rand) source
}

type speedSrc struct{ s *types.Speed }

func (s speedSrc) ask(p float64) float64 { s.s.Next(p); return s.s.Value() }
func (s speedSrc) val() float64          { return s.s.Value() }
func (s speedSrc) shuffle()              { s.s.Shuffle() }
func (s speedSrc) fork(rng *rand.Rand) source {
	n := new(types.Speed)
	n.FromSnapshot(wire(rng, s.s.Snapshot(), new(pb.Snapshot_CommonType)))
	return speedSrc{n}
}

// wire passes a message through its encoding, sometimes.
func wire[T proto.Message](rng *rand.Rand, m, into T) T {
	if rng.Intn(2) == 0 {
		return m
	}
	b, err := proto.Marshal(m)
	must(err)
	must(proto.Unmarshal(b, into))
	return into
}

type sensorSrc struct{ s *types.Sensor }

func (s sensorSrc) ask(p float64) float64 { s.s.Next(p); return s.s.ValueY() }
func (s sensorSrc) val() float64          { return s.s.ValueY() }
func (s sensorSrc) shuffle()              { s.s.Shuffle() }
func (s sensorSrc) fork(rng *rand.Rand) source {
	n := new(types.Sensor)
	n.FromSnapshot(wire(rng, s.s.Snapshot(), new(types.SensorSnapshot)))
	return sensorSrc{n}
}

type elevSrc struct{ n *navigator.Navigator }

func (s elevSrc) ask(p float64) float64 { s.n.NextElevation(p); return s.n.Elevation() }
func (s elevSrc) val() float64          { return s.n.Elevation() }
func (s elevSrc) shuffle()              { s.n.ShuffleElevation() }
func (s elevSrc) fork(rng *rand.Rand) source {
	n := new(navigator.Navigator)
	n.FromSnapshot(wire(rng, s.n.Snapshot(), new(pb.Snapshot_Navigator)))
	return elevSrc{n}
}

type curveSrc struct {
	c    *curve.Curve
	last *float64
}

func (s curveSrc) ask(p float64) float64 { *s.last = s.c.Point(p).Y; return *s.last }
func (s curveSrc) val() float64          { return *s.last }
func (s curveSrc) shuffle()              { s.c.Shuffle() }
func (s curveSrc) fork(rng *rand.Rand) source {
	n := new(curve.Curve)
	n.FromSnapshot(wire(rng, s.c.Snapshot(), new(pb.Snapshot_Curve)))
	l := *s.last
	return curveSrc{n, &l}
}

type valueRun struct {
	gs     []source
	lo, hi float64
	names  map[uint64]int
	ps     []float64
	head   M
}

func (r *valueRun) name(y float64) int {
	b := math.Float64bits(y)
	if n, ok := r.names[b]; ok {
		return n
	}
	r.names[b] = len(r.names) + 1
	return r.names[b]
}

func newValueRun(rng *rand.Rand) *valueRun {
	r := &valueRun{names: map[uint64]int{}, ps: []float64{0, 1, 0.5, 0.25, 1e-9, 1 - 1e-9, rng.Float64(), rng.Float64()}}
	amp := pick(rng, 4, 5, 6, 8, 16, 33, 64, 128, 511, 512)
	modes := []types.SensorMode{0, types.WithSensorRandomMode, types.WithSensorStartMode, types.WithSensorEndMode,
		types.WithSensorStartMode | types.WithSensorEndMode, types.WithSensorStartMode | types.WithSensorRandomMode,
		types.WithSensorStartMode | types.WithSensorRandomMode | types.WithSensorEndMode}
	mode := modes[rng.Intn(len(modes))]
	flat := false
	kind := rng.Intn(4)
	switch kind {
	case 0: // speed
		mode = 0
		r.lo, r.hi = float64(rng.Intn(1000)), 0
		r.hi = r.lo + rng.Float64()*(1000-r.lo)
		switch rng.Intn(5) {
		case 0:
			r.hi = r.lo
		case 1:
			r.lo, r.hi = 0, 1000
		}
		hi := r.hi
		if r.lo == r.hi && rng.Intn(2) == 0 {
			hi = 0
		}
		s, err := types.NewSpeed(r.lo, hi, amp)
		must(err)
		if r.hi == 0 {
			r.lo, r.hi = 1, 1
		}
		flat = r.lo == r.hi
		r.gs = []source{speedSrc{s}}
	case 1, 3:
		r.lo = rng.Float64()*2000 - 1000
		r.hi = r.lo + rng.Float64()*1000
		switch rng.Intn(6) {
		case 0:
			r.hi = r.lo
			flat = true
		case 1:
			r.lo, r.hi = 0, 1e9
		case 2:
			r.lo, r.hi = -5, 0
		}
		if kind == 1 {
			s, err := types.NewSensor("s", r.lo, r.hi, amp, mode)
			must(err)
			if rng.Intn(2) == 0 {
				s, err = types.RestoreSensor(s.ID(), "s", r.lo, r.hi, amp, mode)
				must(err)
			}
			r.gs = []source{sensorSrc{s}}
		} else {
			zero := 0.0
			r.gs = []source{curveSrc{curve.New(r.lo, r.hi, amp, mode), &zero}}
		}
	case 2:
		r.lo = float64(rng.Intn(40000))
		r.hi = r.lo + 1 + float64(rng.Intn(9000))
		n, err := navigator.New(navigator.WithElevation(r.lo, r.hi, amp, mode))
		must(err)
		r.gs = []source{elevSrc{n}}
	}
	r.head = M{"start": fl(mode&types.WithSensorStartMode != 0), "end": fl(mode&types.WithSensorEndMode != 0), "flat": fl(flat), "np": len(r.ps),
		"last": r.name(r.gs[0].val()), "kind": kind, "amp": amp}
	return r
}

func (r *valueRun) do(rng *rand.Rand, op string, a []int) M {
	e := M{"op": op, "a": a, "r": 0}
	g := r.gs[a[0]-1]
	switch op {
	case "q":
		y := g.ask(r.ps[a[1]-1])
		e["v"] = []int{r.name(y), place(y, r.lo, r.hi)}
	case "val":
		y := g.val()
		e["v"] = []int{r.name(y), place(y, r.lo, r.hi)}
	case "sh":
		g.shuffle()
	case "fork":
		r.gs = append(r.gs, g.fork(rng))
	default:
		panic("harness: " + op)
	}
	return e
}

// trackerTicks watches the generated values of a tracker.
func trackerTicks(rng *rand.Rand, steps int) {
	o := gpsgen.NewDeviceOptions()
	o.Speed.Min = float64(1 + rng.Intn(20))
	o.Speed.Max = o.Speed.Min + float64(rng.Intn(3)*rng.Intn(50))
	o.Speed.Amplitude = pick(rng, 4, 8, 32, 512)
	o.Navigator.Elevation.Min = float64(rng.Intn(100))
	o.Navigator.Elevation.Max = o.Navigator.Elevation.Min + float64(1+rng.Intn(1000))
	o.Navigator.Elevation.Amplitude = pick(rng, 4, 8, 512)
	o.Navigator.SkipOffline = rng.Intn(2) == 0
	o.Navigator.Offline.Min, o.Navigator.Offline.Max = 0, 2
	d, err := gpsgen.NewDevice(o)
	must(err)
	type bound struct{ lo, hi float64 }
	bs := []bound{}
	modes := []types.SensorMode{types.WithSensorRandomMode, types.WithSensorStartMode, types.WithSensorEndMode}
	for i := rng.Intn(4); i > 0; i-- {
		b := bound{rng.Float64()*100 - 50, 0}
		b.hi = b.lo + rng.Float64()*100
		s, err := types.NewSensor("s", b.lo, b.hi, pick(rng, 4, 16, 512), modes[rng.Intn(3)])
		must(err)
		d.AddSensor(s)
		bs = append(bs, b)
	}
	lat, lon := rng.Float64()*100-50, rng.Float64()*300-150
	for i := 1 + rng.Intn(2); i > 0; i-- {
		rt := navigator.NewRoute()
		t, err := navigator.NewTrack(navPoints(lat, lon, 2+rng.Intn(4), 0.001+rng.Float64()*0.01, rng))
		must(err)
		rt.AddTrack(t)
		must(d.AddRoute(rt))
	}
	ev := []M{}
	for i := 0; i < steps; i++ {
		if rng.Intn(25) == 0 {
			n, err := gpsgen.NewDevice(nil)
			must(err)
			n.FromSnapshot(wire(rng, d.Snapshot(), new(pb.Snapshot)))
			d = n
		}
		ok := d.Next(float64(1 + rng.Intn(30)))
		st := d.State()
		e := M{"op": "tick", "r": fl(ok), "spd": []int{place(st.Speed, o.Speed.Min, o.Speed.Max)}}
		more := []int{}
		if ok {
			more = append(more, place(st.Location.Elevation, o.Navigator.Elevation.Min, o.Navigator.Elevation.Max))
			for j, b := range bs {
				more = append(more, place(st.Sensors[j].ValY, b.lo, b.hi))
			}
		}
		e["more"] = more
		ev = append(ev, e)
	}
	emit(M{"start": 0, "end": 0, "flat": 0, "np": 2, "last": 0, "steps": ev})
}

// spreadStep makes many generators of the same settings and shuffles them.
func spreadStep(rng *rand.Rand, kind int, mode types.SensorMode) M {
	const n = 64
	amp := pick(rng, 4, 5, 8, 33, 512)
	lo := float64(10 + rng.Intn(500))
	hi := lo + 1 + float64(rng.Intn(400))
	mk := func() source {
		switch kind {
		case 0:
			s, err := types.NewSpeed(lo, hi, amp)
			must(err)
			return speedSrc{s}
		case 1:
			s, err := types.NewSensor("s", lo, hi, amp, mode)
			must(err)
			return sensorSrc{s}
		case 2:
			s, err := navigator.New(navigator.WithElevation(lo, hi, amp, mode))
			must(err)
			return elevSrc{s}
		}
		zero := 0.0
		return curveSrc{curve.New(lo, hi, amp, mode), &zero}
	}
	look := func(gs []source, p float64) M {
		seen := map[float64]bool{}
		var min, low, high int
		for _, g := range gs {
			y := g.ask(p)
			seen[y] = true
			if y == lo {
				min++
			}
			if y < (lo+hi)/2 {
				low++
			} else {
				high++
			}
		}
		return M{"min": min, "low": low, "high": high, "diff": len(seen)}
	}
	gs := []source{}
	for i := 0; i < n; i++ {
		gs = append(gs, mk())
	}
	if kind == 0 {
		mode = 0
	}
	e := M{"op": "spread", "r": 1, "n": n, "kind": kind, "amp": amp, "start": fl(mode&types.WithSensorStartMode != 0), "end": fl(mode&types.WithSensorEndMode != 0)}
	e["s"] = []M{look(gs, 0), look(gs, 1)}
	// one of them, shuffled again and again
	var a, b []M
	for i := 0; i < n; i++ {
		gs[0].shuffle()
		a = append(a, M{"y": gs[0].ask(0)})
		b = append(b, M{"y": gs[0].ask(1)})
	}
	sum := func(q []M) M {
		xs := []source{}
		for _, m := range q {
			xs = append(xs, fixed(m["y"].(float64)))
		}
		return look(xs, 0)
	}
	e["t"] = []M{sum(a), sum(b)}
	return e
}

// fixed always gives the same value.
type fixed float64

func (f fixed) ask(float64) float64    { return float64(f) }
func (f fixed) val() float64           { return float64(f) }
func (f fixed) shuffle()               {}
func (f fixed) fork(*rand.Rand) source { return f }

// offlineStep draws many offline periods.
func offlineStep(rng *rand.Rand) M {
	lo := rng.Intn(20)
	hi := lo + 1 + rng.Intn(30)
	if rng.Intn(4) == 0 {
		lo, hi = 1, 300
	}
	e := M{"op": "offline", "a": []int{lo, hi}, "r": 1}
	q := []int{}
	o := gpsgen.NewDeviceOptions()
	o.Navigator.Offline.Min, o.Navigator.Offline.Max = lo, hi
	o.Speed.Min, o.Speed.Max = 1, 1
	d, err := gpsgen.NewDevice(o)
	must(err)
	rt := navigator.NewRoute()
	tr, err := navigator.NewTrack(navPoints(10, 20, 3, 0.5, rng))
	must(err)
	rt.AddTrack(tr)
	must(d.AddRoute(rt))
	d.Next(1)
	for i := 0; i < 100; i++ {
		if i == 50 {
			n, err := gpsgen.NewDevice(nil)
			must(err)
			n.FromSnapshot(wire(rng, d.Snapshot(), new(pb.Snapshot)))
			d = n
		}
		d.ToOffline()
		k := 0
		for ; k <= hi && !d.Next(1); k++ {
		}
		q = append(q, k)
	}
	e["q"] = q
	return e
}

func valuesMode() {
	rng := rand.New(rand.NewSource(cfg.seed))
	if cfg.prof != "" {
		steps := []M{}
		for i := 0; i < cfg.n; i++ {
			if cfg.prof == "offline" {
				steps = append(steps, offlineStep(rng))
				continue
			}
			for kind := 0; kind < 4; kind++ {
				for _, m := range []types.SensorMode{types.WithSensorRandomMode, types.WithSensorStartMode, types.WithSensorEndMode, types.WithSensorStartMode | types.WithSensorEndMode} {
					steps = append(steps, spreadStep(rng, kind, m))
				}
			}
		}
		emit(M{"start": 0, "end": 0, "flat": 0, "np": 2, "last": 0, "steps": steps})
		return
	}
	if cfg.prog != "" {
		eachProgram(func(pr program) {
			r := newValueRun(rng)
			steps := []M{}
			for _, o := range pr.Ops {
				steps = append(steps, r.do(rng, o.Op, o.A))
			}
			r.head["steps"] = steps
			emit(r.head)
		})
		return
	}
	for i := 0; i < cfg.n; i++ {
		if i%4 == 0 {
			trackerTicks(rng, cfg.steps*3)
			continue
		}
		r := newValueRun(rng)
		steps := []M{}
		for s := 0; s < cfg.steps; s++ {
			g := 1 + rng.Intn(len(r.gs))
			switch x := rng.Intn(20); {
			case x < 13:
				steps = append(steps, r.do(rng, "q", []int{g, 1 + rng.Intn(len(r.ps))}))
			case x < 16:
				steps = append(steps, r.do(rng, "val", []int{g}))
			case x < 18:
				steps = append(steps, r.do(rng, "sh", []int{g}))
			default:
				if len(r.gs) < 4 {
					steps = append(steps, r.do(rng, "fork", []int{g}))
				}
			}
		}
		r.head["steps"] = steps
		emit(r.head)
	}
}
