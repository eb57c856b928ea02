package main

import (
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
)

func init() { modes["storm"] = stormMode }

// stormMode: several users tick one tracker at once.
func stormMode() {
	for i := 0; i < cfg.n; i++ {
		storm(rand.New(rand.NewSource(cfg.seed*7919+int64(i))), i)
	}
}

func half(s float64) int { return toInt(s * 2) }

func storm(rng *rand.Rand, id int) {
	o := gpsgen.NewDeviceOptions()
	o.Speed.Min, o.Speed.Max = 0.01, 0.01
	o.Navigator.SkipOffline = true
	o.Battery.ChargeTime = 100000 * time.Hour
	d, err := gpsgen.NewDevice(o)
	must(err)
	if longLine == nil {
		longLine = newLongTrack()
	}
	rt := navigator.NewRoute()
	rt.AddTrack(longLine)
	must(d.AddRoute(rt))

	steps := []M{}
	tick := func(t float64) {
		ok := d.Next(t)
		steps = append(steps, M{"op": "tick", "a": []int{half(t)}, "r": b2i(ok), "dur": half(d.Duration()), "tick": half(d.State().Tick)})
	}
	lens := []float64{1, 1, 2, 3, 0.5, 1.5, 2.5, 7}
	tick(1)
	for k := 0; k < cfg.steps; k++ {
		t := lens[rng.Intn(len(lens))]
		users := 2 + rng.Intn(7)
		n := []int{1, 30, 1000, 4000}[rng.Intn(4)]
		other := []int{0, 0, 0, 1, 2, 3}[rng.Intn(6)]
		spin := []int{0, 50, 500, 3000}[rng.Intn(4)]
		var missed, stop int64
		var wg, og sync.WaitGroup
		start := make(chan struct{})
		for u := 0; u < users; u++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j := 0; j < n; j++ {
					if !d.Next(t) {
						atomic.AddInt64(&missed, 1)
						for z := 0; z < spin; z++ {
							atomic.LoadInt64(&stop)
						}
					}
				}
			}()
		}
		for u := 0; u < other; u++ {
			u := u
			og.Add(1)
			go func() {
				defer og.Done()
				<-start
				for atomic.LoadInt64(&stop) == 0 {
					switch u {
					case 0:
						d.State()
					case 1:
						d.SetDescription("busy")
					default:
						d.Snapshot()
					}
					time.Sleep(20 * time.Microsecond)
				}
			}()
		}
		close(start)
		wg.Wait()
		atomic.StoreInt64(&stop, 1)
		og.Wait()
		steps = append(steps, M{"op": "storm", "a": []int{users * n, int(missed), half(t)}, "r": 0, "dur": half(d.Duration()), "tick": half(d.State().Tick)})
		if rng.Intn(6) == 0 {
			s := d.Snapshot()
			d.FromSnapshot(s)
			steps = append(steps, M{"op": "restore", "a": []int{half(s.Duration)}, "r": 1, "dur": half(d.Duration()), "tick": 0})
		} else if rng.Intn(4) > 0 {
			tick(lens[rng.Intn(len(lens))])
		}
	}
	tick(1)
	tick(1)
	emit(M{"id": id, "steps": steps})
}
