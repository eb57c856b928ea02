package main

import (
	"bufio"
	"encoding/json"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
)

func init() { modes["registry"] = registryMode }

// reg is a set of generators and trackers whose registry calls are recorded.
type reg struct {
	mu  sync.Mutex
	ev  []M
	nc  int
	gs  []*gpsgen.Generator
	run []bool
	ds  []*gpsgen.Device
	ids []string
	ptr map[*gpsgen.Device]int
	wg  sync.WaitGroup

	slow atomic.Bool // iterations take a while
}

func newReg(rng *rand.Rand, ng, nx int) *reg {
	r := &reg{ptr: map[*gpsgen.Device]int{}}
	for i := 0; i < ng; i++ {
		o := gpsgen.NewOptions()
		o.Interval = time.Millisecond
		r.gs = append(r.gs, gpsgen.New(o))
	}
	r.run = make([]bool, ng)
	for i := 0; i < nx; i++ {
		o := gpsgen.NewDeviceOptions()
		// identifiers that are alike, and unlike what is generated
		if i > 0 {
			switch p := r.ids[i-1]; rng.Intn(6) {
			case 0:
				o.ID = strings.ToUpper(p)
			case 1:
				o.ID = p + " "
			case 2:
				o.ID = p[:len(p)-1]
			case 3:
				o.ID = p + p
			}
			for _, id := range r.ids {
				if id == o.ID || len(o.ID) > 200 {
					o.ID = ""
				}
			}
		}
		d, err := gpsgen.NewDevice(o)
		must(err)
		if rng.Intn(2) == 0 {
			rt := navigator.NewRoute()
			if longLine == nil {
				longLine = newLongTrack()
			}
			rt.AddTrack(longLine)
			must(d.AddRoute(rt))
		}
		r.ds = append(r.ds, d)
		r.ids = append(r.ids, d.ID())
		r.ptr[d] = i
	}
	return r
}

func (r *reg) idOf(x int) string {
	switch {
	case x == -1:
		return ""
	case x < 0:
		return "no such tracker"
	}
	return r.ids[x]
}

func (r *reg) dev(d *gpsgen.Device) int {
	if x, ok := r.ptr[d]; ok {
		return x
	}
	return -9
}

// exec makes one call.
func (r *reg) exec(n string, g, x int) []int {
	v := []int{}
	switch n {
	case "att":
		var d *gpsgen.Device
		if x >= 0 {
			d = r.ds[x]
		}
		v = append(v, b2i(r.gs[g].Attach(d) == nil))
	case "det":
		v = append(v, b2i(r.gs[g].Detach(r.idOf(x)) == nil))
	case "has":
		v = append(v, b2i(r.gs[g].HasTracker(r.idOf(x))))
	case "look":
		d, ok := r.gs[g].Lookup(r.idOf(x))
		switch {
		case !ok && d == nil:
			v = append(v, -1)
		case ok && d != nil:
			v = append(v, r.dev(d))
		default:
			v = append(v, -8)
		}
	case "num":
		v = append(v, r.gs[g].NumDevices())
	case "each":
		r.gs[g].Each(func(i int, d *gpsgen.Device) bool {
			k := r.dev(d)
			if i != len(v) {
				k = -7
			}
			v = append(v, k)
			if r.slow.Load() {
				time.Sleep(60 * time.Microsecond)
			}
			return len(v) != x
		})
	case "stat":
		switch r.ds[x].Status() {
		case gpsgen.Running:
			v = append(v, 1)
		case gpsgen.Stopped:
			v = append(v, 0)
		default:
			v = append(v, -8)
		}
	case "rest":
		r.ds[g].FromSnapshot(r.ds[x].Snapshot())
		v = append(v, 1)
	case "run":
		if !r.run[g] {
			r.run[g] = true
			r.wg.Add(1)
			go func() { defer r.wg.Done(); r.gs[g].Run() }()
		}
		v = append(v, 1)
	case "close":
		r.gs[g].Close()
		v = append(v, 1)
	default:
		panic("harness: no such call " + n)
	}
	return v
}

// do makes one call and records it.
func (r *reg) do(n string, g, x int) {
	r.mu.Lock()
	c := r.nc
	r.nc++
	r.ev = append(r.ev, M{"op": "call", "c": c, "n": n, "g": g, "x": x, "r": 0})
	r.mu.Unlock()
	v := r.exec(n, g, x)
	r.mu.Lock()
	r.ev = append(r.ev, M{"op": "ret", "c": c, "v": v, "r": 0})
	r.mu.Unlock()
}

func (r *reg) random(rng *rand.Rand, conc bool) (string, int, int) {
	g := rng.Intn(len(r.gs))
	x := rng.Intn(len(r.ds))
	if rng.Intn(12) == 0 {
		x = -1 - rng.Intn(2)
	}
	switch rng.Intn(12) {
	case 0, 1, 2:
		if x == -2 {
			x = -1
		}
		return "att", g, x
	case 3, 4, 5:
		return "det", g, x
	case 6:
		return "has", g, x
	case 7:
		return "look", g, x
	case 8:
		return "num", g, 0
	case 9:
		k := rng.Intn(2*len(r.ds)) - len(r.ds)
		if k <= 0 {
			k = -1
		}
		return "each", g, k
	case 10:
		if x < 0 {
			x = 0
		}
		return "stat", 0, x
	}
	if conc || rng.Intn(3) > 0 {
		return "each", g, -1
	}
	return "rest", rng.Intn(len(r.ds)), rng.Intn(len(r.ds))
}

// views compares everything that can be asked.
func (r *reg) views() {
	for g := range r.gs {
		r.do("num", g, 0)
		r.do("each", g, -1)
		for x := range r.ds {
			r.do("has", g, x)
			r.do("look", g, x)
		}
	}
	for x := range r.ds {
		r.do("stat", 0, x)
	}
}

func (r *reg) emit(i int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	emit(M{"id": i, "ng": len(r.gs), "nx": len(r.ds), "steps": append([]M{{"op": "init", "r": 0}}, r.ev...)})
}

// limited runs one case; when it hangs the record ends with a hang event.
func limited(f func(), hang func(stack string)) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(40 * time.Second):
		buf := make([]byte, 1<<18)
		n := runtime.Stack(buf, true)
		hang(string(buf[:n]))
		return false
	}
}

func registryMode() {
	if cfg.prog != "" {
		f, err := os.Open(cfg.prog)
		must(err)
		defer f.Close()
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for i := 0; sc.Scan(); i++ {
			var pr struct {
				NG, NX int
				Ops    []struct {
					Op string
					A  []int
				}
			}
			must(json.Unmarshal(sc.Bytes(), &pr))
			r := newReg(rand.New(rand.NewSource(cfg.seed+int64(i))), pr.NG, pr.NX)
			ok := limited(func() {
				for _, o := range pr.Ops {
					r.do(o.Op, o.A[0], o.A[1])
				}
				r.views()
				for g := range r.gs {
					r.gs[g].Close()
				}
			}, r.hang)
			r.emit(i)
			if !ok {
				return
			}
		}
		return
	}
	if cfg.prof == "contention" {
		contention(rand.New(rand.NewSource(cfg.seed)), cfg.n)
		return
	}
	for i := 0; i < cfg.n; i++ {
		rng := rand.New(rand.NewSource(cfg.seed*1000003 + int64(i)))
		r := newReg(rng, 1+rng.Intn(2), 2+rng.Intn(3))
		ok := limited(func() {
			steps := cfg.steps
			running := rng.Intn(3) == 0
			r.slow.Store(rng.Intn(3) == 0)
			for s := 0; s < steps; s++ {
				if running && rng.Intn(10) == 0 {
					r.do([]string{"run", "close"}[b2i(rng.Intn(4) == 0)], rng.Intn(len(r.gs)), 0)
				}
				if rng.Intn(3) == 0 {
					r.do(r.random(rng, false))
					continue
				}
				var g sync.WaitGroup
				var start sync.WaitGroup
				start.Add(1)
				n := 2 + rng.Intn(3)
				for k := 0; k < n; k++ {
					q := rand.New(rand.NewSource(rng.Int63()))
					g.Add(1)
					go func() {
						defer g.Done()
						start.Wait()
						for j := 0; j < 1+q.Intn(3); j++ {
							r.do(r.random(q, true))
							if q.Intn(3) == 0 {
								runtime.Gosched()
							}
						}
					}()
				}
				start.Done()
				g.Wait()
			}
			r.views()
			for g := range r.gs {
				r.do("close", g, 0)
			}
			r.wg.Wait()
			r.views()
		}, r.hang)
		r.emit(i)
		if !ok {
			return
		}
	}
}

// contention: short bouts of calls made at the same moment on a few fresh trackers.  The calls are
// numbered by a shared counter before and after and put in order afterwards; equal histories are
// recorded once.
func contention(rng *rand.Rand, rounds int) {
	type ev struct {
		at int64
		m  M
	}
	seen := map[string]bool{}
	for k := 0; k < rounds; k++ {
		r := newReg(rng, 1+rng.Intn(2), 1+rng.Intn(2))
		type call struct {
			n    string
			g, x int
		}
		n := 2 + rng.Intn(3)
		plan := make([][]call, n)
		for i := range plan {
			for j := 0; j < 1+rng.Intn(2); j++ {
				g, x := rng.Intn(len(r.gs)), rng.Intn(len(r.ds))
				if rng.Intn(2) == 0 {
					x = 0
				}
				switch rng.Intn(9) {
				case 0, 1, 2, 3:
					plan[i] = append(plan[i], call{"att", g, x})
				case 4, 5:
					plan[i] = append(plan[i], call{"det", g, x})
				case 6:
					plan[i] = append(plan[i], call{[]string{"has", "look", "num", "each"}[rng.Intn(4)], g, x})
				case 7:
					plan[i] = append(plan[i], call{"stat", 0, x})
				case 8:
					plan[i] = append(plan[i], call{"each", g, -1})
				}
				if c := &plan[i][len(plan[i])-1]; c.n == "num" {
					c.x = 0
				} else if c.n == "each" {
					c.x = -1
				}
			}
		}
		if rng.Intn(2) == 0 {
			r.do("att", rng.Intn(len(r.gs)), rng.Intn(len(r.ds)))
		}
		var seq atomic.Int64
		var here atomic.Int32
		var mu sync.Mutex
		var all []ev
		ok := limited(func() {
			var wg sync.WaitGroup
			for i := range plan {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					es := make([]ev, 0, 4)
					here.Add(1)
					for here.Load() < int32(n) {
					}
					for j, c := range plan[i] {
						no := 100 + i*10 + j
						a := seq.Add(1)
						v := r.exec(c.n, c.g, c.x)
						b := seq.Add(1)
						es = append(es, ev{a, M{"op": "call", "c": no, "n": c.n, "g": c.g, "x": c.x, "r": 0}}, ev{b, M{"op": "ret", "c": no, "v": v, "r": 0}})
					}
					mu.Lock()
					all = append(all, es...)
					mu.Unlock()
				}()
			}
			wg.Wait()
		}, r.hang)
		if !ok {
			r.emit(k)
			return
		}
		sort.Slice(all, func(i, j int) bool { return all[i].at < all[j].at })
		for _, e := range all {
			r.ev = append(r.ev, e.m)
		}
		r.views()
		key, err := json.Marshal(M{"g": len(r.gs), "x": len(r.ds), "e": r.ev})
		must(err)
		if seen[string(key)] {
			continue
		}
		seen[string(key)] = true
		r.emit(k)
	}
}

func (r *reg) hang(stack string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.ev = append(r.ev, M{"op": "hang", "r": 0, "stack": stack})
}
