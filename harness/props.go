package main

import (
	"math"
	"math/rand"

	"github.com/mmadfox/go-gpsgen/properties"
)

func init() { modes["props"] = propsMode }

// The concrete values behind the numbers of the specification.
var (
	propS = []string{"", "x", "0", "true", "1.5", "долгий текст", "a\x00b", "null"}
	propF = []float64{0, 1, 2.5, -7, math.Inf(1), math.MaxFloat64, math.SmallestNonzeroFloat64, 3}
	propI = []int{0, 1, -3, 7, math.MaxInt64, math.MinInt64, 1 << 40, 42}
	propJ = []int32{0, 1, -3, 7, math.MaxInt32, math.MinInt32, 1 << 20, 42}
	propO = []any{nil, int8(1), uint(2), float32(2.5), []int{1}, map[string]any{"a": 1}, uint64(9), struct{}{}}
)

func propValue(t, v int) any {
	switch t {
	case 1:
		return propS[v]
	case 2:
		return v%2 == 1
	case 3:
		return propF[v]
	case 4:
		return propI[v]
	case 5:
		return propJ[v]
	case 6:
		return int64(propI[v])
	}
	return propO[v]
}

func fl(b bool) int {
	if b {
		return 1
	}
	return 0
}

// whole finds the number of an integer; 32-bit values are told apart by the type that was set.
func whole(x int, t int) int {
	if t == 5 {
		for i, y := range propJ {
			if int(y) == x {
				return i
			}
		}
	}
	for i, y := range propI {
		if y == x {
			return i
		}
	}
	return -9
}

type propRun struct {
	m    [2]properties.Properties
	typ  [2]map[int]int // type set last for each key
	keys []string
	nk   int
}

func (p *propRun) get(m, k, t int) []int {
	key := p.keys[k-1]
	pm := p.m[m-1]
	switch t {
	case 1:
		s, ok := pm.String(key)
		if !ok {
			return []int{0, fl(s != "") * -9}
		}
		for i, y := range propS {
			if y == s {
				return []int{1, i}
			}
		}
		return []int{1, -9}
	case 2:
		b, ok := pm.Bool(key)
		return []int{fl(ok), fl(b)}
	case 3:
		f, ok := pm.Float64(key)
		if !ok {
			return []int{0, fl(f != 0) * -9}
		}
		for i, y := range propF {
			if math.Float64bits(y) == math.Float64bits(f) {
				return []int{1, i}
			}
		}
		return []int{1, -9}
	}
	n, ok := pm.Int(key)
	if !ok {
		return []int{0, fl(n != 0) * -9}
	}
	return []int{1, whole(n, p.typ[m-1][k])}
}

func (p *propRun) do(op string, a []int) M {
	r := []int{}
	switch op {
	case "set":
		if got := p.m[a[0]-1].Set(p.keys[a[1]-1], propValue(a[2], a[3])); got == nil {
			r = []int{-9}
		}
		p.typ[a[0]-1][a[1]] = a[2]
	case "get":
		r = p.get(a[0], a[1], a[2])
	case "rem":
		p.m[a[0]-1].Remove(p.keys[a[1]-1])
	case "reset":
		p.m[a[0]-1].Reset()
	case "merge":
		src := p.typ[a[1]-1]
		for k := 1; k <= p.nk; k++ {
			if _, ok := p.m[a[1]-1][p.keys[k-1]]; ok {
				p.typ[a[0]-1][k] = src[k]
			}
		}
		p.m[a[0]-1].Merge(p.m[a[1]-1])
	case "len":
		r = []int{len(p.m[a[0]-1])}
	default:
		panic("harness: " + op)
	}
	o := [2][][][]int{}
	for m := 1; m <= 2; m++ {
		for k := 1; k <= p.nk; k++ {
			var q [][]int
			for t := 1; t <= 4; t++ {
				q = append(q, p.get(m, k, t))
			}
			o[m-1] = append(o[m-1], q)
		}
	}
	return M{"op": op, "a": a, "r": r, "o": o, "n": []int{len(p.m[0]), len(p.m[1])}}
}

func newPropRun(nk int) *propRun {
	p := &propRun{nk: nk, keys: []string{"name", "", "k\n", "trackID", "ключ", "K"}}
	for i := range p.m {
		p.m[i] = properties.Make()
		p.typ[i] = map[int]int{}
	}
	return p
}

func propsMode() {
	if cfg.prog != "" {
		eachProgram(func(pr program) {
			p := newPropRun(pr.N)
			steps := []M{}
			for _, o := range pr.Ops {
				steps = append(steps, p.do(o.Op, o.A))
			}
			emit(M{"nk": pr.N, "steps": steps})
		})
		return
	}
	rng := rand.New(rand.NewSource(cfg.seed))
	for i := 0; i < cfg.n; i++ {
		nk := 2 + rng.Intn(5)
		p := newPropRun(nk)
		steps := []M{}
		for s := 0; s < cfg.steps; s++ {
			m, k := 1+rng.Intn(2), 1+rng.Intn(nk)
			switch x := rng.Intn(20); {
			case x < 9:
				t := 1 + rng.Intn(7)
				v := rng.Intn(8)
				if t == 2 {
					v %= 2
				}
				steps = append(steps, p.do("set", []int{m, k, t, v}))
			case x < 12:
				steps = append(steps, p.do("get", []int{m, k, 1 + rng.Intn(4)}))
			case x < 15:
				steps = append(steps, p.do("rem", []int{m, k}))
			case x < 16:
				steps = append(steps, p.do("reset", []int{m}))
			case x < 19:
				steps = append(steps, p.do("merge", []int{m, 1 + rng.Intn(2)}))
			default:
				steps = append(steps, p.do("len", []int{m}))
			}
		}
		emit(M{"nk": nk, "steps": steps})
	}
}
