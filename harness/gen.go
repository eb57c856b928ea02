package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
)

func init() { modes["gen"] = genMode }

// gate holds callbacks back until they get a token or the gate is opened.
type gate struct {
	mu      sync.Mutex
	c       *sync.Cond
	tokens  int
	open    bool
	blocked int
	begun   int
	ended   int
}

func newGate(open bool) *gate {
	g := &gate{open: open}
	g.c = sync.NewCond(&g.mu)
	return g
}

func (g *gate) pass() {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.blocked++
	g.c.Broadcast()
	for !g.open && g.tokens == 0 {
		g.c.Wait()
	}
	if !g.open {
		g.tokens--
	}
	g.blocked--
	g.c.Broadcast()
}

func (g *gate) give(n int) {
	g.mu.Lock()
	g.tokens += n
	g.mu.Unlock()
	g.c.Broadcast()
}

func (g *gate) setOpen(o bool) {
	g.mu.Lock()
	g.open = o
	g.tokens = 0
	g.mu.Unlock()
	g.c.Broadcast()
}

// until waits for a condition on the gate.
func (g *gate) until(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	t := time.AfterFunc(d, func() { g.c.Broadcast() })
	defer t.Stop()
	g.mu.Lock()
	defer g.mu.Unlock()
	for !f() {
		if !time.Now().Before(end) {
			return false
		}
		g.c.Wait()
	}
	return true
}

type gtracker struct {
	d    *gpsgen.Device
	kind int // 0 moving, 1 without routes, 2 offline for a while
	id   string
}

type grun struct {
	rng *rand.Rand
	g   *gpsgen.Generator

	mu    sync.Mutex
	ev    []M
	start time.Time

	tr  []gtracker
	idx map[string]int
	ptr map[*gpsgen.Device]int

	gp, gn, ge       *gate
	hasP, hasN, hasE bool
	inCb             int // close from inside: 1 packet, 2 next, 3 error callback
	npck, ncall      int
	runC             bool
	ret              chan struct{}
	wg               sync.WaitGroup
	lockstep         bool
	full             bool
	last             time.Time
	over             bool
	kept             [][2][]byte // packets as given and copies of them
}

var longLine *navigator.Track

func newLongTrack() *navigator.Track {
	// one segment of about a thousand kilometres
	t, err := navigator.NewTrack([]geo.LatLonPoint{{Lat: 10, Lon: 10}, {Lat: 10, Lon: 19}})
	must(err)
	return t
}

func (r *grun) log(m M) {
	r.mu.Lock()
	defer r.mu.Unlock()
	m["w"] = int(time.Since(r.start) / (100 * time.Millisecond))
	if _, ok := m["r"]; !ok {
		m["r"] = 0
	}
	r.ev = append(r.ev, m)
	r.last = time.Now()
}

// watch ends the process when a run comes to a standstill inside a library call: the record then ends with a hang.
func (r *grun) watch(size int) {
	for {
		time.Sleep(2 * time.Second)
		r.mu.Lock()
		over, still := r.over, time.Since(r.last) > 45*time.Second
		r.mu.Unlock()
		if over {
			return
		}
		if still {
			buf := make([]byte, 1<<18)
			n := runtime.Stack(buf, true)
			r.log(M{"op": "hang", "msg": "a call did not return", "stack": string(buf[:n])})
			r.emit(-1, size, nil)
			out.Flush()
			os.Exit(0)
		}
	}
}

func (r *grun) newTracker() int {
	o := gpsgen.NewDeviceOptions()
	o.Speed.Min, o.Speed.Max = 2, 2
	o.Battery.ChargeTime = 10 * time.Hour
	k := 0
	switch r.rng.Intn(14) {
	case 0:
		k = 1
	case 1, 2:
		k = 2
		o.Navigator.Offline.Min, o.Navigator.Offline.Max = 1, []int{2, 60, 3600}[r.rng.Intn(3)]
	}
	d, err := gpsgen.NewDevice(o)
	must(err)
	if k != 1 {
		rt := navigator.NewRoute()
		if longLine == nil {
			longLine = newLongTrack()
		}
		rt.AddTrack(longLine)
		must(d.AddRoute(rt))
		if k == 2 {
			d.ToOffline()
		}
	}
	r.tr = append(r.tr, gtracker{d, k, d.ID()})
	r.idx[d.ID()] = len(r.tr) - 1
	r.ptr[d] = len(r.tr) - 1
	return len(r.tr) - 1
}

// packet turns a packet into [tracker, duration, tick, distance] entries (tenths, millimetres).
func (r *grun) packet(b []byte) (list [][]int, ok int) {
	now := time.Now().Unix()
	p, err := gpsgen.PacketFromBytes(b)
	list = [][]int{}
	if err != nil || p == nil {
		return list, 0
	}
	ok = 1
	if p.Timestamp < now-2 || p.Timestamp > now+1 {
		ok = 2
	}
	for _, d := range p.Devices {
		if d == nil {
			ok = 3
			continue
		}
		i, known := r.idx[d.Id]
		if !known {
			ok = 3
			continue
		}
		if d.Model == "" || d.Color == "" || d.Units == nil || d.Battery == nil || d.Location == nil || d.Distance == nil || d.Navigator == nil || d.Routes == nil {
			ok = 4
		} else if r.tr[i].kind != 1 && len(d.Routes.Routes) != 1 || d.IsOffline != (d.OfflineDuration > 0) || (d.IsOffline && r.tr[i].kind != 2) {
			ok = 4
		} else if r.tr[i].kind == 0 && (len(d.Routes.Routes) != 1 || (d.Duration > 0 && (d.Location.Lat == 0 || d.Location.Utm == nil || d.Location.LatDms == nil || d.Navigator.CurrentRouteId == ""))) {
			ok = 4
		}
		dist := 0
		if d.Distance != nil {
			dist = mm(d.Distance.CurrentDistance)
		}
		list = append(list, []int{i, toInt(d.Duration * 10), toInt(d.Tick * 10), dist})
	}
	return
}

func (r *grun) onPacket(b []byte) {
	l, ok := r.packet(b)
	r.mu.Lock()
	if len(r.kept) < 400 {
		r.kept = append(r.kept, [2][]byte{b, append([]byte{}, b...)})
	}
	r.npck++
	id := r.npck
	r.mu.Unlock()
	if !r.full {
		q := []int{}
		d := make([]int, len(r.tr))
		for i := range d {
			d[i] = -1
		}
		for _, e := range l {
			q = append(q, e[0])
			d[e[0]] = e[1]
		}
		if len(l)*8 < len(d) {
			d = []int{} // a few of many: to be found in the list
		}
		r.log(M{"op": "pB", "id": id, "p": l, "q": q, "d": d, "ok": ok})
	} else {
		r.log(M{"op": "pB", "id": id, "p": [][]int{}, "n": len(l), "ok": ok})
	}
	if r.inCb == 1 {
		r.inCb = 0
		r.close()
	}
	r.gp.mu.Lock()
	r.gp.begun++
	r.gp.mu.Unlock()
	r.gp.pass()
	r.log(M{"op": "pE", "id": id})
}

func (r *grun) onNext() {
	r.log(M{"op": "nB"})
	if r.inCb == 2 {
		r.inCb = 0
		r.close()
	}
	r.gn.mu.Lock()
	r.gn.begun++
	r.gn.mu.Unlock()
	r.gn.pass()
	r.log(M{"op": "nE"})
}

func (r *grun) onError(err error) {
	r.log(M{"op": "eB", "ok": b2i(err != nil)})
	if r.inCb == 3 {
		r.inCb = 0
		r.close()
	}
	r.ge.mu.Lock()
	r.ge.begun++
	r.ge.mu.Unlock()
	r.ge.pass()
	r.log(M{"op": "eE"})
}

func (r *grun) call() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.ncall++
	return r.ncall
}

func (r *grun) attach(x int) {
	c := r.call()
	r.log(M{"op": "attC", "c": c, "x": x})
	err := r.g.Attach(r.tr[x].d)
	r.log(M{"op": "attR", "c": c, "x": x, "r": b2i(err == nil)})
}

// attachMany attaches trackers before the run.
func (r *grun) attachMany(l []int) {
	ok := true
	for _, x := range l {
		ok = r.g.Attach(r.tr[x].d) == nil && ok
	}
	r.log(M{"op": "attN", "xs": append([]int{}, l...), "r": b2i(ok)})
}

func (r *grun) attachAll() {
	l := []int{}
	for k := range r.tr {
		l = append(l, k)
	}
	r.attachMany(l)
}

func (r *grun) detach(x int) {
	c := r.call()
	r.log(M{"op": "detC", "c": c, "x": x})
	err := r.g.Detach(r.tr[x].id)
	r.log(M{"op": "detR", "c": c, "x": x, "r": b2i(err == nil)})
}

func (r *grun) setBad(x int, bad bool) {
	c := r.call()
	r.log(M{"op": "badC", "c": c, "x": x, "bad": b2i(bad)})
	s := "fine"
	if bad {
		s = "\xff\xfe"
	}
	r.tr[x].d.SetDescription(s)
	r.log(M{"op": "badR", "c": c, "x": x, "bad": b2i(bad)})
}

func (r *grun) close() {
	r.log(M{"op": "clC"})
	r.g.Close()
	r.log(M{"op": "clR"})
}

func (r *grun) run() {
	r.runC = true
	r.log(M{"op": "run"})
	go func() {
		r.g.Run()
		r.log(M{"op": "ret"})
		close(r.ret)
	}()
}

const patience = 25 * time.Second

func libGoroutines() string {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	for _, s := range strings.Split(string(buf[:n]), "\n\n") {
		if strings.Contains(s, "mmadfox/go-gpsgen") {
			return s
		}
	}
	return ""
}

// finish closes the generator if that has not happened and looks at what is left.
func (r *grun) finish() {
	r.gp.setOpen(true)
	r.gn.setOpen(true)
	r.ge.setOpen(true)
	if r.runC {
		r.close()
		done := make(chan struct{})
		go func() { r.wg.Wait(); <-r.ret; close(done) }()
		select {
		case <-done:
		case <-time.After(patience):
			buf := make([]byte, 1<<18)
			n := runtime.Stack(buf, true)
			r.log(M{"op": "hang", "msg": "the run call did not return", "stack": string(buf[:n])})
			return
		}
	} else {
		r.wg.Wait()
		r.close()
	}
	time.Sleep(8 * time.Millisecond)
	leak := ""
	for end := time.Now().Add(8 * time.Second); ; {
		if leak = libGoroutines(); leak == "" || time.Now().After(end) {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	at := []int{}
	use := 1
	r.g.Each(func(i int, d *gpsgen.Device) bool { at = append(at, r.ptr[d]); return true })
	for n, x := range at {
		if n > 20 {
			break
		}
		d := r.tr[x].d
		if d.Status() != gpsgen.Running || !r.g.HasTracker(d.ID()) {
			use = 0
		}
		if r.tr[x].kind == 0 {
			before := d.Duration()
			d.Next(1)
			if d.Duration() <= before {
				use = 0
			}
		}
	}
	if r.g.NumDevices() != len(at) {
		use = 0
	}
	// still attached: another generator refuses them until they are detached
	if len(at) > 0 {
		o := gpsgen.New(gpsgen.NewOptions())
		d := r.tr[at[0]].d
		if o.Attach(d) == nil {
			use = 0
		}
		r.g.Detach(d.ID())
		if o.Attach(d) != nil {
			use = 0
		}
		o.Close()
	}
	if len(leak) > 1500 {
		leak = leak[:1500]
	}
	chg := 0
	for _, k := range r.kept {
		if !bytes.Equal(k[0], k[1]) {
			chg++
		}
	}
	r.log(M{"op": "end", "chg": chg, "leak": leak, "lk": b2i(leak != ""), "att": at, "use": use})
}

func (r *grun) waitBlocked(g *gate, d time.Duration) bool {
	return g.until(d, func() bool { return g.blocked > 0 })
}

// progress: with every gate open, something new must be delivered.
func (r *grun) progress() {
	r.gp.setOpen(true)
	r.gn.setOpen(true)
	r.ge.setOpen(true)
	watch := func(g *gate, what string) {
		g.mu.Lock()
		// the callbacks under way may belong to an older tick: wait for later ones
		n := g.begun + 2
		g.mu.Unlock()
		if !g.until(patience, func() bool { return g.begun >= n }) {
			r.log(M{"op": "stall", "msg": what + " callback not invoked any more"})
		}
	}
	if r.hasN {
		watch(r.gn, "step")
	}
}

func (r *grun) progressP() {
	n0 := 0
	r.g.Each(func(int, *gpsgen.Device) bool { n0++; return true })
	if r.hasP && n0 > 0 {
		r.gp.mu.Lock()
		n := r.gp.begun + 1
		r.gp.mu.Unlock()
		if !r.gp.until(patience, func() bool { return r.gp.begun >= n }) {
			r.log(M{"op": "stall", "msg": "packet callback not invoked any more"})
		}
	}
}

// ticking: the attached trackers advance.
func (r *grun) ticking() {
	var d *gpsgen.Device
	r.g.Each(func(i int, x *gpsgen.Device) bool {
		if r.tr[r.ptr[x]].kind == 0 {
			d = x
			return false
		}
		return true
	})
	if d == nil {
		return
	}
	// looking at a tracker may make it miss a tick for the moment
	r.log(M{"op": "lookB", "x": r.ptr[d]})
	defer func() { r.log(M{"op": "lookE", "x": r.ptr[d]}) }()
	before := d.Duration()
	for end := time.Now().Add(patience); d.Duration() < before+2; {
		if time.Now().After(end) {
			r.log(M{"op": "stall", "msg": "trackers are not ticked any more"})
			return
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func newGrun(rng *rand.Rand) *grun {
	return &grun{rng: rng, idx: map[string]int{}, ptr: map[*gpsgen.Device]int{}, start: time.Now(), last: time.Now(), ret: make(chan struct{}),
		gp: newGate(true), gn: newGate(true), ge: newGate(true)}
}

func (r *grun) setup(workers, size, ms int) {
	o := gpsgen.NewOptions()
	o.NumWorkers, o.PacketSize, o.Interval = workers, size, time.Duration(ms)*time.Millisecond
	r.g = gpsgen.New(o)
	go r.watch(size)
	if r.hasP {
		r.g.OnPacket(r.onPacket)
	}
	if r.hasN {
		r.g.OnNext(r.onNext)
	}
	if r.hasE {
		r.g.OnError(r.onError)
	}
}

func (r *grun) emit(i int, size int, extra M) {
	if size < 1024 {
		size = 1024
	}
	kinds := []int{}
	for _, t := range r.tr {
		kinds = append(kinds, t.kind)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.over = true
	h := M{"id": i, "size": size, "kinds": kinds, "cb": []int{b2i(r.hasP), b2i(r.hasN), b2i(r.hasE)}, "spd": 2000, "steps": append([]M{{"op": "init", "r": 0, "w": 0}}, r.ev...)}
	// a long record of many trackers is checked as far as there is time for
	if st, max := h["steps"].([]M), 400+1500000/(len(kinds)+1); len(st) > max && !r.full {
		cut := append([]M{}, st[:max]...)
		for _, s := range st[max:] {
			if o := s["op"]; o == "stall" || o == "hang" {
				cut = append(cut, s)
			}
		}
		h["steps"] = cut
	}
	for k, v := range extra {
		h[k] = v
	}
	emit(h)
}

func genMode() {
	if cfg.prog != "" {
		genPrograms()
		return
	}
	for i := 0; i < cfg.n; i++ {
		rng := rand.New(rand.NewSource(cfg.seed*1000003 + int64(i)))
		switch cfg.prof {
		case "C10":
			genRealTime(rng, i)
		case "C14":
			genTicks(rng, i, false)
		case "C16":
			genClose(rng, i)
		case "C21":
			genNext(rng, i)
		case "C22":
			genBad(rng, i)
		default:
			panic("harness: no profile")
		}
		if hung {
			break
		}
	}
}

var hung bool

func (r *grun) stuck() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, e := range r.ev {
		if e["op"] == "hang" || e["op"] == "stall" {
			hung = true
		}
	}
	return hung
}

// genTicks: packets of ticks while trackers come and go.
func genTicks(rng *rand.Rand, i int, bad bool) {
	r := newGrun(rng)
	r.hasP, r.hasN, r.hasE = true, rng.Intn(2) == 0, rng.Intn(3) == 0
	big := i%6 == 5
	n := []int{0, 1, 2, 3, 5, 8, 17}[rng.Intn(7)]
	workers := []int{1, 2, 3, 4, 7, 16, 0, -1}[rng.Intn(8)]
	size := []int{0, 1024, 1, 1500, -5, 4096}[rng.Intn(6)]
	if big {
		workers = []int{1, 2, 3, 5, 32, 33}[rng.Intn(6)]
		size = []int{1024, 1024, 0, 1025, 1500}[rng.Intn(5)]
		n = []int{70, 258, 345, 515, 520, 1023, 1024, 1025, 1030, 1100, 1536, 2047, 2048, 2049, 2500, 3000, 3072}[rng.Intn(17)]
	}
	var pool []int
	for k := 0; k < n+6; k++ {
		pool = append(pool, r.newTracker())
	}
	r.setup(workers, size, 1+rng.Intn(3))
	in := map[int]bool{}
	rng.Shuffle(len(pool), func(a, b int) { pool[a], pool[b] = pool[b], pool[a] })
	r.attachMany(pool[:n])
	for _, x := range pool[:n] {
		in[x] = true
	}
	pick := func(att bool) int {
		for t := 0; t < 40; t++ {
			x := pool[rng.Intn(len(pool))]
			if in[x] == att {
				return x
			}
		}
		return pool[0]
	}
	r.gp.setOpen(false)
	r.run()
	steps := cfg.steps
	if big {
		steps = 6
	}
	for s := 0; s < steps; s++ {
		switch rng.Intn(9) {
		case 0, 1:
			x := pick(false)
			if rng.Intn(6) == 0 {
				x = pick(true)
			}
			r.attach(x)
			in[x] = true
		case 2, 3:
			x := pick(true)
			if rng.Intn(6) == 0 {
				x = pick(false)
			}
			r.detach(x)
			in[x] = false
		case 4:
			// several at once, from other goroutines
			var g sync.WaitGroup
			for k := 0; k < 1+rng.Intn(3); k++ {
				x := pool[rng.Intn(len(pool))]
				busy := rng.Intn(2) == 0
				if in[x] {
					in[x] = false
					g.Add(1)
					go func() { defer g.Done(); r.detach(x) }()
				} else {
					in[x] = true
					g.Add(1)
					go func() { defer g.Done(); r.attach(x) }()
				}
				if busy {
					r.gp.give(1)
				}
			}
			g.Wait()
		default:
			// let packets through, one at a time
			for k := 0; k < 1+rng.Intn(3); k++ {
				if r.waitBlocked(r.gp, 40*time.Millisecond) {
					r.gp.give(1)
				}
			}
		}
		if rng.Intn(7) == 0 && !big {
			r.gp.setOpen(true)
			time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
			r.gp.setOpen(false)
		}
	}
	r.gp.setOpen(true)
	r.progressP()
	r.ticking()
	r.finish()
	r.emit(i, size, nil)
	r.stuck()
}

// genNext: step callbacks that take long.
func genNext(rng *rand.Rand, i int) {
	r := newGrun(rng)
	r.hasP, r.hasN = rng.Intn(8) > 0, true
	n := []int{0, 1, 2, 5}[rng.Intn(4)]
	workers, size := 1+rng.Intn(4), 1024
	if i%8 == 7 {
		n, workers = 600+rng.Intn(600), 2+rng.Intn(2)
	}
	for k := 0; k < n; k++ {
		r.newTracker()
	}
	r.setup(workers, size, 1+rng.Intn(3))
	r.attachAll()
	r.gn.setOpen(false)
	r.gp.setOpen(rng.Intn(3) > 0)
	r.run()
	steps := cfg.steps
	if n > 100 {
		steps = 4
	}
	for s := 0; s < steps; s++ {
		switch rng.Intn(6) {
		case 0:
			r.gp.give(1 + rng.Intn(4))
		case 1:
			if r.waitBlocked(r.gn, 20*time.Millisecond) {
				r.gn.give(1)
			}
		case 2:
			r.gn.setOpen(true)
			time.Sleep(time.Duration(rng.Intn(2000)) * time.Microsecond)
			r.gn.setOpen(false)
		case 3:
			r.waitBlocked(r.gn, 20*time.Millisecond)
			time.Sleep(time.Duration(rng.Intn(4000)) * time.Microsecond)
		case 4:
			r.gp.setOpen(true)
			// packets keep coming while the step callback does not return
			if r.waitBlocked(r.gn, 20*time.Millisecond) && rng.Intn(2) == 0 {
				r.progressP()
				if rng.Intn(3) == 0 && n < 100 {
					r.ticking()
				}
			}
			if n > 100 || rng.Intn(2) == 0 {
				r.gp.setOpen(false)
			}
		case 5:
			if r.waitBlocked(r.gp, 10*time.Millisecond) {
				r.gp.give(1)
			}
		}
	}
	r.progress()
	r.finish()
	r.emit(i, size, nil)
	r.stuck()
}

// genBad: trackers that cannot be encoded.
func genBad(rng *rand.Rand, i int) {
	r := newGrun(rng)
	r.hasP, r.hasN, r.hasE = rng.Intn(6) > 0, rng.Intn(3) == 0, rng.Intn(4) > 0
	n := []int{1, 2, 3, 6}[rng.Intn(4)]
	workers, size := 1+rng.Intn(4), 1024
	big := i%5 == 4
	if big {
		n = []int{530, 700, 1024, 1030, 1100, 2048, 2100}[rng.Intn(7)]
		workers = 2 + rng.Intn(4)
	}
	for k := 0; k < n; k++ {
		r.newTracker()
	}
	slow := i == 0 // a run of several seconds
	if slow {
		r.hasP = true
		r.setup(workers, size, 300)
	} else {
		r.setup(workers, size, 1+rng.Intn(2))
	}
	bad := map[int]bool{}
	flip := func() {
		x := rng.Intn(len(r.tr))
		if big {
			// mostly undo, so that few are bad
			for y := range bad {
				if bad[y] && rng.Intn(2) == 0 {
					x = y
				}
			}
		}
		bad[x] = !bad[x]
		r.setBad(x, bad[x])
	}
	r.attachAll()
	if rng.Intn(2) == 0 {
		flip()
	}
	r.gp.setOpen(rng.Intn(2) == 0)
	r.run()
	steps := cfg.steps
	if big {
		steps = 4
	}
	if slow {
		steps = 0
		r.gp.setOpen(true)
		r.ge.setOpen(true)
		time.Sleep(5 * time.Second)
	}
	for s := 0; s < steps; s++ {
		switch rng.Intn(5) {
		case 0, 1:
			flip()
		case 2:
			r.ge.setOpen(!big && rng.Intn(2) == 0)
			r.ge.give(rng.Intn(3))
		case 3:
			if r.waitBlocked(r.ge, 8*time.Millisecond) {
				r.ge.give(1)
			}
		case 4:
			if r.waitBlocked(r.gp, 8*time.Millisecond) {
				r.gp.give(1)
			}
		}
		if rng.Intn(3) == 0 && !big {
			r.gp.setOpen(true)
			time.Sleep(time.Duration(rng.Intn(2500)) * time.Microsecond)
			r.gp.setOpen(false)
		}
	}
	r.gp.setOpen(true)
	r.ge.setOpen(true)
	r.ticking()
	for x := range r.tr {
		if bad[x] {
			r.setBad(x, false)
		}
	}
	r.progressP()
	r.finish()
	r.emit(i, size, nil)
	r.stuck()
}

// genClose: closing at all kinds of moments.
func genClose(rng *rand.Rand, i int) {
	r := newGrun(rng)
	r.hasP, r.hasN, r.hasE = rng.Intn(6) > 0, rng.Intn(2) == 0, rng.Intn(2) == 0
	n := []int{0, 1, 2, 5, 40}[rng.Intn(5)]
	workers, size := []int{1, 2, 3, 4, 8, 33}[rng.Intn(6)], 1024
	if i%5 == 4 {
		n = []int{600, 1024, 1025, 1100, 2060}[rng.Intn(5)]
	}
	r.full = true
	for k := 0; k < n; k++ {
		r.newTracker()
	}
	ms := 1 + rng.Intn(2)
	if rng.Intn(6) == 0 {
		ms = 50
	}
	r.setup(workers, size, ms)
	r.attachAll()
	if n > 0 && r.hasE && rng.Intn(3) == 0 {
		r.setBad(rng.Intn(n), true)
	}
	again := rng.Intn(3)
	switch rng.Intn(9) {
	case 0: // before the run
		r.close()
		r.run()
	case 1: // inside a callback
		r.inCb = 1 + rng.Intn(3)
		r.run()
		g := []*gate{r.gp, r.gp, r.gn, r.ge}[r.inCb%4]
		g.until(30*time.Millisecond, func() bool { return g.begun > 0 })
	case 2: // while packet callbacks are blocked
		r.gp.setOpen(false)
		r.run()
		r.waitBlocked(r.gp, 60*time.Millisecond)
		if rng.Intn(2) == 0 {
			r.gp.give(1 + rng.Intn(3))
		}
		r.close()
		if rng.Intn(2) == 0 {
			time.Sleep(time.Duration(rng.Intn(4000)) * time.Microsecond)
		}
	case 3: // while the step callback is blocked
		r.gn.setOpen(false)
		r.run()
		r.waitBlocked(r.gn, 60*time.Millisecond)
		time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
		r.close()
		time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
	case 4: // while the error callback is blocked
		r.ge.setOpen(false)
		r.run()
		r.waitBlocked(r.ge, 60*time.Millisecond)
		r.close()
		time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
	case 5: // at any moment, from several goroutines
		r.run()
		var g sync.WaitGroup
		for k := 0; k < 3; k++ {
			d := time.Duration(rng.Intn(6000)) * time.Microsecond
			g.Add(1)
			go func() { defer g.Done(); time.Sleep(d); r.close() }()
		}
		g.Wait()
	case 6: // around the start
		var g sync.WaitGroup
		g.Add(1)
		d := time.Duration(rng.Intn(300)) * time.Microsecond
		go func() { defer g.Done(); time.Sleep(d); r.close() }()
		r.run()
		g.Wait()
	case 7: // a little after the first packet
		r.run()
		r.gp.until(60*time.Millisecond, func() bool { return r.gp.begun > 0 })
		for k := 0; k < rng.Intn(2000); k++ {
			runtime.Gosched()
		}
		r.close()
	case 8: // while trackers come and go
		r.run()
		var g sync.WaitGroup
		g.Add(1)
		go func() {
			defer g.Done()
			for k := 0; k < 5 && k < n; k++ {
				r.detach(k)
				r.attach(k)
			}
		}()
		time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
		r.close()
		g.Wait()
	}
	for ; again > 0; again-- {
		r.close()
	}
	r.finish()
	r.emit(i, size, nil)
	r.stuck()
}

// genRealTime: ticks last as long as the time between them.
func genRealTime(rng *rand.Rand, i int) {
	r := newGrun(rng)
	r.hasP, r.hasN = true, rng.Intn(2) == 0
	n := 1 + rng.Intn(3)
	for k, moving := 0, false; k < n || !moving; k++ {
		moving = r.tr[r.newTracker()].kind == 0 || moving
	}
	kind := int(cfg.seed) + i
	ms := []int{1000, 1200, 1500}[kind%3]
	slow := kind%5 == 4 // every packet is held for most of an interval
	if slow {
		ms = 2000
	} else if kind%5 == 3 {
		genIdle(r, rng, i, ms)
		return
	}
	r.setup(1+rng.Intn(3), 1024, ms)
	r.attachAll()
	r.gp.setOpen(false)
	r.run()
	packets := 4
	if slow {
		packets = 7
	}
	for k := 0; k < packets; k++ {
		if !r.waitBlocked(r.gp, patience) {
			r.log(M{"op": "stall", "msg": "no packet"})
			break
		}
		if slow {
			time.Sleep(900 * time.Millisecond)
		} else if k == 1 {
			// several ticks go by
			time.Sleep([]time.Duration{2700, 4700}[b2i(kind%2 == 0)] * time.Millisecond)
		}
		r.gp.give(1)
		r.gp.until(time.Second, func() bool { return r.gp.blocked == 0 })
	}
	r.finish()
	r.emit(i, 1024, M{"ms": ms})
	r.stuck()
}

// genIdle: time that goes by while nothing is attached is not given to a tracker attached later.
func genIdle(r *grun, rng *rand.Rand, i, ms int) {
	for len(r.tr) < 3 {
		r.newTracker()
	}
	r.setup(1+rng.Intn(3), 1024, ms)
	if rng.Intn(2) == 0 {
		r.attach(0)
		r.run()
		time.Sleep(time.Duration(rng.Intn(2500)) * time.Millisecond)
		r.detach(0)
	} else {
		r.run()
	}
	time.Sleep(9 * time.Second)
	for _, k := range rng.Perm(len(r.tr)) {
		r.attach(k)
		time.Sleep(time.Duration(rng.Intn(1500)) * time.Millisecond)
	}
	time.Sleep(2500 * time.Millisecond)
	r.finish()
	r.emit(i, 1024, M{"ms": ms})
	r.stuck()
}

// genPrograms replays control sequences made from the specification.
func genPrograms() {
	f, err := os.Open(cfg.prog)
	must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for i := 0; sc.Scan() && !hung; i++ {
		var pr struct {
			P, N, E int
			Ops     []struct {
				Op string
				A  []int
			}
		}
		must(json.Unmarshal(sc.Bytes(), &pr))
		rng := rand.New(rand.NewSource(cfg.seed*7919 + int64(i)))
		r := newGrun(rng)
		r.full = cfg.prof == "C16"
		r.hasP, r.hasN, r.hasE = pr.P == 1, pr.N == 1, pr.E == 1
		for k := 0; k < 4; k++ {
			r.newTracker()
		}
		r.setup(1+rng.Intn(3), 1024, 1)
		r.gp.setOpen(false)
		r.gn.setOpen(false)
		r.ge.setOpen(false)
		closed := false
		const w = 60 * time.Millisecond
		wait := func(g *gate) {
			if !closed {
				r.waitBlocked(g, w)
			} else {
				r.waitBlocked(g, 3*time.Millisecond)
			}
		}
		for _, o := range pr.Ops {
			x := 0
			if len(o.A) > 0 {
				x = o.A[0]
			}
			switch o.Op {
			case "att":
				r.attach(x)
			case "det":
				r.detach(x)
			case "bad":
				r.setBad(x, true)
			case "good":
				r.setBad(x, false)
			case "run":
				if !r.runC {
					r.run()
				}
			case "pB":
				wait(r.gp)
			case "pE":
				r.gp.give(1)
				r.gp.until(w, func() bool { return r.gp.tokens == 0 })
			case "eB":
				wait(r.ge)
			case "eE":
				r.ge.give(1)
				r.ge.until(w, func() bool { return r.ge.tokens == 0 })
			case "nB":
				wait(r.gn)
			case "nE":
				r.gn.give(1)
				r.gn.until(w, func() bool { return r.gn.tokens == 0 })
			case "close":
				closed = true
				r.close()
			default:
				panic(fmt.Sprint("harness: unknown control ", o.Op))
			}
		}
		r.finish()
		r.emit(i, 1024, M{"prog": 1})
		r.stuck()
	}
}
