package main

import (
	"math"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/google/uuid"
	"github.com/lucasb-eyer/go-colorful"
	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/types"
)

func init() { modes["settings"] = settingsMode }

func tenths(v float64) int {
	r := math.Round(v * 10)
	if math.IsNaN(v) || math.Abs(v*10-r) > 1e-6 || math.Abs(r) > 1e9 {
		return -777777
	}
	return int(r)
}
func fromTenths(v int) float64 { return float64(v) / 10 }

func text(n int) string {
	if s, ok := nameOf[n]; ok {
		return s
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + (i+n)%26)
	}
	return string(b)
}

// wide is a text of n bytes with fewer characters.
func wide(n int) string {
	b := make([]byte, 0, n)
	if n >= 3 && n%2 == 1 {
		b = append(b, "日"...)
	}
	for len(b)+2 <= n {
		b = append(b, "é"...)
	}
	for len(b) < n {
		b = append(b, 'x')
	}
	return string(b)
}

var texts int // 0: any, 1: one byte a character, 2: wide, 3: with spaces

// spaced is a text of n bytes that begins and ends with a space.
func spaced(n int) string {
	b := []byte(strings.Repeat("Q", n))
	for i := range b {
		if i == 0 || i == n-1 || i%7 == 3 {
			b[i] = ' '
		}
	}
	return string(b)
}

// anyText is one of the texts of n bytes.
func anyText(rng *rand.Rand, n int) string {
	k := texts
	if k == 0 {
		k = 1 + rng.Intn(3)
	}
	switch k {
	case 2:
		return wide(n)
	case 3:
		return spaced(n)
	}
	return text(n)
}

func textNo(s string) int {
	if text(len(s)) == s || wide(len(s)) == s || spaced(len(s)) == s {
		return len(s)
	}
	return -9
}

// uuids used for restoring sensors.
const someUUID = "6ba7b810-9dad-11d1-80b4-00c04fd430c8"

// makeOne calls a constructor.
func makeOne(rng *rand.Rand, n string, a []int) M {
	r := []int{0}
	nilr := 1
	t := fromTenths
	switch n {
	case "model":
		m, err := types.NewModel(anyText(rng, a[0]))
		nilr = fl(m.IsEmpty())
		if err == nil {
			r = []int{1, textNo(m.String())}
		}
	case "name":
		m, err := navigator.ParseName(anyText(rng, a[0]))
		nilr = fl(m.IsEmpty())
		if err == nil {
			r = []int{1, textNo(m.String())}
		}
	case "speed":
		s, err := types.NewSpeed(t(a[0]), t(a[1]), a[2])
		nilr = fl(s == nil)
		if err == nil {
			r = []int{1, tenths(s.Min()), tenths(s.Max())}
		}
	case "battery":
		b, err := types.NewBattery(t(a[0]), t(a[1]), time.Duration(a[2])*100*time.Millisecond)
		nilr = fl(b == nil)
		if err == nil {
			r = []int{1, tenths(b.Min()), tenths(b.Max()), int(b.ChargeTime() / (100 * time.Millisecond))}
		}
	case "sensor":
		mk := types.NewSensor
		if rng.Intn(2) == 0 {
			mk = gpsgen.NewSensor
		}
		s, err := mk(anyText(rng, a[0]), t(a[1]), t(a[2]), a[3], types.SensorMode(a[4]))
		nilr = fl(s == nil)
		if err == nil {
			r = sensorRow(s)
			if _, e := uuid.Parse(s.ID()); e != nil {
				r[1] = -9
			}
		}
	case "restore":
		id := someUUID
		if a[0] == 0 {
			id = []string{"", "x", "6ba7b810-9dad-11d1-80b4", someUUID + "0"}[rng.Intn(4)]
		}
		s, err := types.RestoreSensor(id, anyText(rng, a[1]), t(a[2]), t(a[3]), a[4], types.SensorMode(a[5]))
		nilr = fl(s == nil)
		if err == nil {
			r = sensorRow(s)
			if s.ID() != id {
				r[1] = -9
			}
		}
	case "nav":
		opts := []navigator.Option{navigator.WithOffline(a[1], a[2]), navigator.WithElevation(t(a[3]), t(a[4]), a[5], types.SensorMode(a[6]))}
		if a[0] == 1 {
			opts = append(opts, navigator.SkipOfflineMode())
		}
		rng.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		nav, err := navigator.New(opts...)
		nilr = fl(nav == nil)
		if err == nil {
			sn := nav.Snapshot()
			r = []int{1, fl(sn.SkipOffline), int(sn.OfflineMin), int(sn.OfflineMax), tenths(sn.Elevation.Min), tenths(sn.Elevation.Max), int(sn.Elevation.Gen.Mode)}
		}
	default:
		panic("harness: " + n)
	}
	return M{"op": "make", "n": n, "a": a, "r": r, "nil": nilr}
}

func sensorRow(s *types.Sensor) []int {
	return []int{1, textNo(s.Name()), tenths(s.Min()), tenths(s.Max()), int(s.Snapshot().Gen.Mode)}
}

// history is a sequence of tracker constructions and changes.
type history struct {
	ds   []*gpsgen.Device
	gen  map[string]int
	expl map[string]int
}

func (h *history) idNo(s string) int {
	if n, ok := h.expl[s]; ok {
		return n
	}
	if s == "" {
		return 0
	}
	if n, ok := h.gen[s]; ok {
		return n
	}
	h.gen[s] = -len(h.gen) - 2
	return h.gen[s]
}

func colNo(s string) int {
	for i, c := range colors {
		if i > 0 && c == s {
			return i
		}
	}
	if c, err := colorful.Hex(s); err == nil && c.Hex() == s {
		return 0
	}
	return -9
}

func (h *history) look() []M {
	res := []M{}
	for _, d := range h.ds {
		sn := d.Snapshot()
		st := d.State()
		model := textNo(d.Model())
		if model == -9 && len(d.Model()) >= 3 && len(d.Model()) <= 64 {
			model = -1
		}
		id, col, user, descr := h.idNo(d.ID()), colNo(d.Color()), textNo(d.UserID()), textNo(d.Descr())
		if sn.Id != d.ID() || st.Id != d.ID() || sn.Model != d.Model() || st.Model != d.Model() {
			id = 0
		}
		if sn.Color != d.Color() || st.Color != d.Color() {
			col = -8
		}
		if sn.UserId != d.UserID() || st.UserId != d.UserID() {
			user = -8
		}
		if sn.Descr != d.Descr() || st.Description != d.Descr() {
			descr = -8
		}
		res = append(res, M{"id": id, "model": model, "color": col, "user": user, "descr": descr,
			"nav": []int{fl(sn.Navigator.SkipOffline), int(sn.Navigator.OfflineMin), int(sn.Navigator.OfflineMax),
				tenths(sn.Navigator.Elevation.Min), tenths(sn.Navigator.Elevation.Max), int(sn.Navigator.Elevation.Gen.Mode)},
			"spd": []int{tenths(sn.Speed.Min), tenths(sn.Speed.Max)},
			"bat": []int{tenths(sn.Battery.Min), tenths(sn.Battery.Max), int(time.Duration(sn.Battery.ChargeTime) / (100 * time.Millisecond))}})
	}
	return res
}

func (h *history) record(o *gpsgen.DeviceOptions) M {
	col := 0
	if o.Color != "" {
		col = -1
		for i, c := range colors {
			if i > 0 && c == o.Color {
				col = i
			}
		}
	}
	id := 0
	if o.ID != "" {
		id = h.expl[o.ID]
	}
	n := o.Navigator
	return M{"id": id, "model": textNo(o.Model), "color": col, "user": textNo(o.UserID), "descr": textNo(o.Descr), "skip": fl(n.SkipOffline),
		"off": []int{n.Offline.Min, n.Offline.Max},
		"ele": []int{tenths(n.Elevation.Min), tenths(n.Elevation.Max), n.Elevation.Amplitude, int(n.Elevation.Mode)},
		"spd": []int{tenths(o.Speed.Min), tenths(o.Speed.Max), o.Speed.Amplitude},
		"bat": []int{tenths(o.Battery.Min), tenths(o.Battery.Max), int(o.Battery.ChargeTime / (100 * time.Millisecond))}}
}

func (h *history) add(o *gpsgen.DeviceOptions, rec M) M {
	d, err := gpsgen.NewDevice(o)
	if err == nil {
		h.ds = append(h.ds, d)
	}
	return M{"op": "new", "a": rec, "r": fl(err == nil), "nil": fl(d == nil), "o": h.look()}
}

var presets = []struct {
	opts func() *gpsgen.DeviceOptions
	make func() *gpsgen.Device
}{
	{gpsgen.DefaultTrackerOptions, gpsgen.NewTracker},
	{gpsgen.KidsTrackerOptions, gpsgen.NewKidsTracker},
	{gpsgen.DogTrackerOptions, gpsgen.NewAnimalTracker},
	{gpsgen.BicycleTrackerOptions, gpsgen.NewBicycleTracker},
	{gpsgen.DroneTrackerOptions, gpsgen.NewDroneTracker},
}

func pick(rng *rand.Rand, xs ...int) int { return xs[rng.Intn(len(xs))] }

func randOptions(rng *rand.Rand) *gpsgen.DeviceOptions {
	o := gpsgen.NewDeviceOptions()
	if rng.Intn(3) == 0 {
		o = presets[rng.Intn(len(presets))].opts()
		o.Descr = ""
	}
	if rng.Intn(2) == 0 {
		o.ID = text(pick(rng, 1, 2, 36, 40))
	}
	if rng.Intn(2) == 0 {
		o.Model = anyText(rng, pick(rng, 0, 1, 2, 3, 4, 5, 33, 64, 64, 65, 255))
	}
	if rng.Intn(2) == 0 {
		o.Color = colors[rng.Intn(len(colors))]
		if rng.Intn(8) == 0 {
			o.Color = badColors[1+rng.Intn(len(badColors)-1)]
		}
	}
	o.UserID = anyText(rng, pick(rng, 0, 0, 1, 36, 300))
	o.Descr = anyText(rng, pick(rng, 0, 0, 1, 3, 1000))
	n := &o.Navigator
	if rng.Intn(3) == 0 {
		n.SkipOffline = !n.SkipOffline
	}
	if rng.Intn(3) == 0 {
		n.Offline.Max = pick(rng, 1, 2, 5, 3599, 3600, 3601, 0)
		n.Offline.Min = pick(rng, 0, 1, 5, 3600, -1)
		if n.Offline.Max == 0 {
			n.Offline.Min = 0
		}
	}
	if rng.Intn(3) == 0 {
		n.Elevation.Max = float64(pick(rng, 1, 2, 1000, 50000, 50001, 0))
		n.Elevation.Min = float64(pick(rng, 0, 1, 50, 50000, -1))
		if n.Elevation.Max == 0 {
			n.Elevation.Min = 0
		}
		n.Elevation.Mode = types.SensorMode(pick(rng, 0, 0, int(types.WithSensorStartMode), int(types.WithSensorEndMode), int(types.WithSensorRandomMode)))
	}
	if rng.Intn(6) == 0 {
		n.Elevation.Amplitude = pick(rng, 3, 4, 5, 512, 513)
	}
	if rng.Intn(3) == 0 {
		o.Speed.Min = fromTenths(pick(rng, 0, 1, 10, 25, 10000, 10001, -1))
		o.Speed.Max = fromTenths(pick(rng, 0, 1, 10, 10000, 10001, 9999, -1, 500))
	}
	if rng.Intn(8) == 0 {
		o.Speed.Amplitude = pick(rng, 3, 4, 512, 513, 0)
	}
	if rng.Intn(3) == 0 {
		o.Battery.Min = fromTenths(pick(rng, 0, 1, 500, 1000, 1001, -1))
		o.Battery.Max = fromTenths(pick(rng, 0, 1, 500, 1000, 1001))
		o.Battery.ChargeTime = time.Duration(pick(rng, -5, 0, 1, 15, 36004, 252000)) * 100 * time.Millisecond
	}
	return o
}

func settingsHistory(rng *rand.Rand, steps int) {
	h := &history{gen: map[string]int{}, expl: map[string]int{}}
	for i, n := range []int{1, 2, 36, 40} {
		h.expl[text(n)] = i + 1
	}
	ev := []M{}
	var opts []*gpsgen.DeviceOptions
	var recs []M
	for s := 0; s < steps; s++ {
		switch x := rng.Intn(12); {
		case x < 3 || len(h.ds) == 0:
			if len(h.ds) > 5 {
				continue
			}
			var o *gpsgen.DeviceOptions
			var rec M
			if len(opts) > 0 && rng.Intn(2) == 0 {
				i := rng.Intn(len(opts))
				o, rec = opts[i], recs[i]
			} else {
				o = randOptions(rng)
				rec = h.record(o)
				opts, recs = append(opts, o), append(recs, rec)
			}
			ev = append(ev, h.add(o, rec))
		case x == 3:
			if len(h.ds) > 5 {
				continue
			}
			if rng.Intn(6) == 0 {
				o := gpsgen.NewDeviceOptions()
				ev = append(ev, h.add(nil, h.record(o)))
				continue
			}
			p := presets[rng.Intn(len(presets))]
			o := p.opts()
			d := p.make()
			rec := h.record(o)
			rec["descr"] = -9 // (a text of its own)
			if d != nil {
				h.ds = append(h.ds, d)
				if d.Descr() != o.Descr {
					rec["descr"] = -7
				}
			}
			ev = append(ev, M{"op": "new", "a": rec, "r": fl(d != nil), "nil": fl(d == nil), "o": h.look()})
		case x == 4:
			ev = append(ev, h.newIDs(rng))
			k := rng.Intn(len(presets) + 1)
			o := gpsgen.NewDeviceOptions()
			if k > 0 {
				o = presets[k-1].opts()
			}
			ev = append(ev, M{"op": "preset", "k": k, "a": h.record(o)})
			g := gpsgen.NewOptions()
			ev = append(ev, M{"op": "defaults", "a": []int{int(g.Interval / time.Millisecond), g.PacketSize, g.NumWorkers}})
			m := types.RandomModel().String()
			_, err := types.NewModel(m)
			ev = append(ev, M{"op": "rmodel", "n": len(m), "ok": fl(err == nil)})
		default:
			d := rng.Intn(len(h.ds))
			e := M{"d": d}
			var err error
			switch rng.Intn(4) {
			case 0:
				e["op"], e["v"] = "setModel", pick(rng, 0, 1, 2, 3, 4, 20, 63, 64, 65, 256)
				err = h.ds[d].SetModel(anyText(rng, e["v"].(int)))
			case 1:
				c := rng.Intn(len(colors)+len(badRGB)-1) - len(badRGB) + 1
				e["op"], e["v"] = "setColor", c
				if c > 0 {
					v, er := colorful.Hex(colors[c])
					must(er)
					err = h.ds[d].SetColor(v)
				} else {
					err = h.ds[d].SetColor(badRGB[-c])
				}
			case 2:
				e["op"], e["v"] = "setUser", pick(rng, 0, 1, 5, 36, 400)
				err = h.ds[d].SetUserID(anyText(rng, e["v"].(int)))
			case 3:
				e["op"], e["v"] = "setDescr", pick(rng, 0, 1, 5, 36, 400)
				h.ds[d].SetDescription(anyText(rng, e["v"].(int)))
			}
			e["r"] = fl(err == nil)
			e["o"] = h.look()
			ev = append(ev, e)
		}
	}
	emit(M{"steps": ev})
}

// newIDs makes things whose identifiers are generated.
func (h *history) newIDs(rng *rand.Rand) M {
	ids := []int{}
	n := 2 + rng.Intn(6)
	for i := 0; i < n; i++ {
		switch rng.Intn(4) {
		case 0:
			s, err := gpsgen.NewSensor("s", 0, 1, 4, 0)
			must(err)
			ids = append(ids, h.idNo(s.ID()))
		case 1:
			ids = append(ids, h.idNo(navigator.NewRoute().ID()))
		case 2:
			t, err := navigator.NewTrack(randPoints(rng, 2))
			must(err)
			ids = append(ids, h.idNo(t.ID()))
		default:
			r := gpsgen.RandomRoute(1, 2, 2, 10)
			ids = append(ids, h.idNo(r.ID()), h.idNo(r.TrackAt(0).ID()), h.idNo(r.TrackAt(1).ID()))
		}
	}
	return M{"op": "ids", "ids": ids, "all": len(ids)}
}

// genOptions runs a generator for one tick.
func genOptions(n, ps, iv, nw int) M {
	o := gpsgen.NewOptions()
	o.PacketSize, o.NumWorkers, o.Interval = ps, nw, time.Duration(iv)*time.Millisecond
	t0 := time.Now()
	if iv == 3000 {
		o = nil // the default options
	}
	g := gpsgen.New(o)
	for i := 0; i < n; i++ {
		d, err := gpsgen.NewDevice(nil)
		must(err)
		must(g.Attach(d))
	}
	var mu sync.Mutex
	sum, most, ms := 0, 0, 0
	now, conc, full := 0, 0, make(chan struct{}) // packet callbacks under way, most of them; that many as workers
	ready := make(chan struct{})
	closed := false
	g.OnPacket(func(b []byte) {
		p, err := gpsgen.PacketFromBytes(b)
		mu.Lock()
		defer mu.Unlock()
		if err != nil || closed {
			return
		}
		if sum == 0 {
			ms = int(time.Since(t0) / time.Millisecond)
		}
		sum += len(p.Devices)
		if len(p.Devices) > most {
			most = len(p.Devices)
		}
		now++
		if conc = max(conc, now); conc == nw && now == nw {
			select {
			case <-full:
			default:
				close(full)
			}
		}
		if nw > 1 && n >= ps {
			mu.Unlock()
			select {
			case <-full:
				time.Sleep(time.Millisecond)
			case <-time.After(5 * time.Second):
			}
			mu.Lock()
		}
		now--
		if sum >= n && !closed {
			closed = true
			close(ready)
		}
	})
	done := make(chan struct{})
	go func() { g.Run(); close(done) }()
	ended := 1
	select {
	case <-ready:
	case <-time.After(30 * time.Second):
	}
	g.Close()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		ended = 0
	}
	mu.Lock()
	defer mu.Unlock()
	return M{"op": "gen", "n": n, "ps": ps, "iv": iv, "nw": nw, "sum": sum, "max": most, "cc": conc, "ms": ms, "ended": ended}
}

func settingsMode() {
	rng := rand.New(rand.NewSource(cfg.seed))
	if cfg.prof == "gen" {
		type q struct{ n, ps, iv, nw int }
		qs := []q{{1030, 0, 200, 1}, {1500, 100, 0, 1}, {5, -1, -3, 0}, {1100, 1025, 50, 1}, {3, 1024, 1, -2}, {2100, 1024, 20, 4}, {1023, 1024, 20, 0}, {1024, 1024, 1, 1}, {3000, 2000, 1, 1}, {40, 8192, 3000, 4}, {40, 8192, 3000, 4}}
		res := make([]M, len(qs))
		var wg sync.WaitGroup
		for i, x := range qs {
			wg.Add(1)
			go func() { defer wg.Done(); res[i] = genOptions(x.n, x.ps, x.iv, x.nw) }()
		}
		wg.Wait()
		emit(M{"steps": res})
		return
	}
	if cfg.prog != "" {
		eachProgram(func(pr program) {
			steps := []M{}
			for _, o := range pr.Ops {
				for texts = 1; texts <= 3; texts++ {
					steps = append(steps, makeOne(rng, o.Op, o.A))
				}
			}
			emit(M{"steps": steps})
		})
		return
	}
	for i := 0; i < cfg.n; i++ {
		settingsHistory(rng, cfg.steps)
	}
}
