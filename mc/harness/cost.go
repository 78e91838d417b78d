package main

import (
	"fmt"
	"math"
	"sort"

	"verifmc/vrt"
)

// paths computes the lengths of the skip-list search paths of one shape: one
// step per level and one per entry passed.
type paths struct {
	h      []uint8
	levels int
	next   [][]int32 // per level: next entry at or after i with a tower above the level
}

func newPaths(h []uint8, levels int) *paths {
	p := &paths{h: h, levels: levels}
	for l := 0; l < levels; l++ {
		nx := make([]int32, len(h)+1)
		nx[len(h)] = int32(len(h))
		for i := len(h) - 1; i >= 0; i-- {
			nx[i] = nx[i+1]
			if int(h[i]) > l {
				nx[i] = int32(i)
			}
		}
		p.next = append(p.next, nx)
	}
	return p
}

func (p *paths) len(k int) int {
	x, n := -1, 0
	for l := p.levels - 1; l >= 0; l-- {
		n++
		for {
			j := int(p.next[l][x+1])
			if j >= k {
				break
			}
			x = j
			n++
		}
	}
	return n
}

// costBound is the number of steps (atomic operations, lock acquisitions and
// loop iterations) allowed for an operation on a search path of length n with a tower of height h.
func costBound(n, h int) int { return 60 + 8*n + 30*h }

// costUnit measures every operation on every key of maps with n keys, every other one present.
func costUnit(name string, c *Ctor, n int, patterns [][]uint8) Unit {
	return costUnitN(name, c, n, 1, patterns)
}

// costUnitN does so for every stride-th key.
func costUnitN(name string, c *Ctor, n, stride int, patterns [][]uint8) Unit {
	return Unit{Name: name + "/" + c.Name, Run: func(w *W) *Viol {
		if !calibrated {
			w.Stats.Incomplete++
			w.note("tower heights cannot be prescribed: " + name)
			return nil
		}
		for _, pat := range patterns {
			run := func() string {
				return w.seq(func(x *vrt.Exec) string {
					m, r := wides[c.Name](n), newRef(n)
					h := make([]uint8, n)
					levels := 3
					var e Ev
					for i := 0; i < n; i++ {
						// inserted in an interleaved order
						k := (i*7 + 3) % n
						if k%2 == 0 {
							continue
						}
						h[k] = pat[(k/2)%len(pat)]
						wideOp(m, &e, KStore, k, k, h[k])
						if s := r.apply(&e); s != "" {
							w.otherCause(c, name, s)
							return ""
						}
						levels = max(levels, int(h[k]))
					}
					levels = max(levels, 4)
					ps := newPaths(h, levels)
					worst, wrong := 0.0, false
					check := func(k Kind, key int, hh uint8) string {
						bound := costBound(ps.len(key), max(int(hh), int(h[key])))
						wideOp(m, &e, k, key, 7, hh)
						w.Stats.Transitions++
						w.Stats.Steps += e.Vis
						if s := r.apply(&e); s != "" {
							w.otherCause(c, name, s)
							wrong = true
						}
						worst = max(worst, float64(e.Vis)/float64(bound))
						if e.Vis > bound {
							return fmt.Sprintf("%s on key %d of %d took %d steps; its search path has length %d (%d levels), its tower height %d", kindNames[k], key, n, e.Vis, ps.len(key), levels, max(int(hh), int(h[key])))
						}
						return ""
					}
					for key := 0; key < n; key += stride {
						var ops []Op
						if h[key] == 0 {
							ops = parse("L0 D0 A0 S0.1 D0 O0.2 A0 Z0.4 L0 D0 L0")
						} else {
							hh := h[key]
							ops = []Op{{K: KLoad}, {K: KStore, H: 1}, {K: KLOS, H: 2}, {K: KLazy, H: 1}, {K: KDel}, {K: KLazy, H: hh}, {K: KLAD}, {K: KStore, H: hh}, {K: KLoad}}
						}
						for _, o := range ops {
							if s := check(o.K, key, o.H); s != "" {
								return s
							}
							if wrong {
								return ""
							}
						}
					}
					cnt := 0
					x.T().Begin()
					m.Range(func(k, v int) bool { cnt++; return true })
					if s := x.T().Vis + x.T().Iters; s > costBound(cnt, 0) {
						return fmt.Sprintf("Range over %d entries took %d steps", cnt, s)
					}
					x.T().Begin()
					m.Len()
					if s := x.T().Vis + x.T().Iters; s > 60 {
						return fmt.Sprintf("Len with %d entries took %d steps", cnt, s)
					}
					w.maxOf("worst steps per bound in percent", int(worst*100))
					return ""
				})
			}
			w.Stats.States++
			w.Stats.Scenarios++
			progress.Add(1)
			if w.expired() {
				w.Stats.Incomplete++
				return nil
			}
			if s := run(); s != "" {
				if s = w.again(run); s != "" {
					v := w.viol(s)
					v.Ctor, v.Scenario = c.Name, fmt.Sprintf("%d keys, every second present, tower heights repeating %v", n, pat)
					return v
				}
			}
		}
		return nil
	}}
}

// periodic lists all height patterns of the given period.
func periodic(period int, hs []uint8) [][]uint8 {
	out := [][]uint8{nil}
	for i := 0; i < period; i++ {
		var nx [][]uint8
		for _, p := range out {
			for _, h := range hs {
				nx = append(nx, append(append([]uint8(nil), p...), h))
			}
		}
		out = nx
	}
	return out
}

func shapeOf(f func(i int) uint8, n int) []uint8 {
	p := make([]uint8, n)
	for i := range p {
		p[i] = f(i)
	}
	return p
}

// lawUnit enumerates the answers of the random source and compares the exact
// distribution of costs, one class per tower height, with the law.
func lawUnit(c *Ctor) Unit {
	return Unit{Name: "distribution of tower heights/" + c.Name, Run: func(w *W) *Viol {
		for _, kind := range []Kind{KStore, KLOS, KLazy} {
			if s := w.law(c, kind); s != "" {
				if s = w.again(func() string { return w.law(c, kind) }); s != "" {
					v := w.viol(s)
					v.Ctor, v.Scenario = c.Name, kindNames[kind]+" of an absent key"
					return v
				}
			}
		}
		return nil
	}}
}

// insertCost inserts an entry into a map whose highest level is already the maximum and gives
// the number of atomic operations that its deletion takes, which depends on its height alone.
// Before, seed other insertions draw different random numbers.
func (w *W) insertCost(c *Ctor, kind Kind, grow int, seed uint64, draw func(n uint64) uint64) (int, string) {
	vis := 0
	s := w.seq(func(x *vrt.Exec) string {
		defer func() { vrt.DrawFn = nil }()
		m := c.Mk()
		x.T().Begin()
		vrt.DrawFn = nil
		x.T().Grow = 60
		m.Store(3, 1)
		m.Delete(3)
		m.Store(0, 1)
		if seed > 0 {
			vrt.DrawFn = mixer(seed)
			for i := uint64(0); i < seed; i++ {
				x.T().Begin()
				m.Store(2, 1)
				m.Delete(2)
			}
			vrt.DrawFn = nil
		}
		x.T().Begin()
		x.T().Grow = grow
		vrt.DrawFn = draw
		switch kind {
		case KStore:
			m.Store(2, 1)
		case KLOS:
			m.LoadOrStore(2, 1)
		case KLazy:
			m.LoadOrStoreLazy(2, func() int { return 1 })
		}
		vrt.DrawFn = nil
		x.T().Grow = 0
		x.T().Begin()
		m.Delete(2)
		vis = x.T().Vis
		return ""
	})
	return vis, s
}

// mixer answers draws with numbers that look random.
func mixer(seed uint64) func(uint64) uint64 {
	n := seed << 32
	return func(k uint64) uint64 {
		n++
		v := vrt.Mix(vrt.Mix(n, 0x9E3779B97F4A7C15), 0xD1B54A32D192ED03)
		if k == 0 {
			return v
		}
		return (v >> 11) % k
	}
}

// stateless reports whether a tower height depends on the answers to the draws of its own insertion only.
func (w *W) stateless(c *Ctor, kind Kind) (bool, string) {
	for first := uint64(0); first < 2; first++ {
		v0 := 0
		for seed := uint64(0); seed < 40; seed++ {
			a := 0
			vis, s := w.insertCost(c, kind, 0, seed, func(n uint64) uint64 {
				a++
				if a > 300 {
					return vrt.Mix(uint64(a), 7) % max(n, 1)
				}
				if a == 1 && first == 0 {
					return 0
				}
				return n - 1
			})
			if s != "" {
				return false, s
			}
			if seed > 0 && vis != v0 {
				return false, ""
			}
			v0 = vis
		}
	}
	return true, ""
}

func (w *W) law(c *Ctor, kind Kind) string {
	if ok, s := w.stateless(c, kind); s != "" {
		return s
	} else if !ok {
		w.note("tower heights depend on earlier draws: " + c.Name)
		return w.lawHistory(c, kind)
	}
	for _, a := range []*answers{{depth: 6, block: 2}, {depth: 1, block: 12}} {
		class := map[int]float64{}
		answersN := 0
		single := true
		for {
			a.start()
			vis, s := w.insertCost(c, kind, 0, 0, a.fn)
			if s != "" {
				return s
			}
			single = single && a.pos+a.extra <= 1
			class[vis] += a.prob
			answersN++
			w.Stats.States++
			w.Stats.Transitions++
			progress.Add(1)
			if !a.advance() {
				break
			}
		}
		if answersN == 1 && a.pos+a.extra == 0 {
			w.note("the answers of the random source are not the runtime's: " + c.Name)
			return w.lawHistory(c, kind)
		}
		if a.raw > 0 && (a.block == 2) == single {
			continue // few wide draws need longer patterns, many need shorter ones
		}
		var costs []int
		for k := range class {
			costs = append(costs, k)
		}
		sort.Ints(costs)
		got := ""
		bad := len(costs) < 6
		for i, k := range costs {
			got += fmt.Sprintf(" %.6f", class[k])
			if i < 5 && math.Abs(class[k]-0.75*math.Pow(0.25, float64(i))) > 1e-9 {
				bad = true
			}
		}
		w.count("sequences of random answers enumerated", answersN)
		w.maxOf("cost classes of an entry", len(costs))
		if bad {
			return fmt.Sprintf("the probabilities of the cost classes of an entry, cheapest first, are%s, not 0.75, 0.1875, 0.046875, ...", got)
		}
		if a.raw == 0 && calibrated && vrt.Tall.First == nil {
			// The cap: costs rise with the run of growth answers up to the maximum height, then stay.
			prev, distinct := -1, 0
			for g := 0; g <= 80; g++ {
				vis, s := w.insertCost(c, kind, g, 0, nil)
				if s != "" {
					return s
				}
				if vis < prev {
					return fmt.Sprintf("after %d growth answers the tower is lower than after %d", g, g-1)
				}
				if vis > prev {
					distinct++
				}
				if vis > prev && g >= 40 {
					return fmt.Sprintf("tower heights are not capped: still growing after %d growth answers", g)
				}
				prev = vis
			}
			if distinct < 12 {
				return fmt.Sprintf("only %d tower heights can be reached", distinct)
			}
		}
		return w.lawHistory(c, kind)
	}
	w.note("random source used in a way that cannot be enumerated: " + c.Name)
	w.Stats.Incomplete++
	return ""
}

// lawHistory judges the heights of the first 20000 insertions: of sources that keep bits for
// later insertions, and of generators of the code's own whose answers are not the runtime's.
func (w *W) lawHistory(c *Ctor, kind Kind) string {
	const n = 20000
	class := map[int]int{}
	s := w.seq(func(x *vrt.Exec) string {
		defer func() { vrt.DrawFn = nil }()
		m := c.Mk()
		vrt.DrawFn = mixer(1)
		m.Store(0, 1)
		for i := 0; i < 1000+n; i++ {
			switch kind {
			case KStore:
				m.Store(2, 1)
			case KLOS:
				m.LoadOrStore(2, 1)
			case KLazy:
				m.LoadOrStoreLazy(2, func() int { return 1 })
			}
			x.T().Begin()
			m.Delete(2)
			v := x.T().Vis
			x.T().Begin()
			m.Load(2)
			if i >= 1000 { // the cost of the search grows with the highest level
				class[v-x.T().Vis]++
			}
		}
		return ""
	})
	if s != "" {
		return s
	}
	w.Stats.Transitions += n
	w.Stats.States += n
	progress.Add(1)
	var costs []int
	for k := range class {
		costs = append(costs, k)
	}
	sort.Ints(costs)
	sort.SliceStable(costs, func(i, j int) bool { return class[costs[i]] > class[costs[j]] })
	got, bad := "", len(costs) < 4
	top := 0
	for i, k := range costs {
		got += fmt.Sprintf(" %d", class[k])
		if want := n * 0.75 * math.Pow(0.25, float64(i)); i < 3 {
			bad = bad || math.Abs(float64(class[k])-want) > 0.15*want+8*math.Sqrt(want) || i > 0 && k < costs[i-1]
			top = k
		}
	}
	tall := 0
	for _, k := range costs {
		if k > top {
			tall += class[k]
		}
	}
	bad = bad || tall < n/64/3 || tall > n/64*2
	if bad {
		return fmt.Sprintf("the numbers of entries in the cost classes are%s of %d, not about 15000, 3750, 938, ...; %d are taller than those", got, n, tall)
	}
	return ""
}

func init() {
	checks["C18"] = func(th bool) []Unit {
		var us []Unit
		for i := range ctors {
			us = append(us, lawUnit(&ctors[i]))
		}
		n := 1024
		for i := range ctors {
			c := &ctors[i]
			var ps [][]uint8
			for _, s := range sorted(shapes) {
				ps = append(ps, shapeOf(shapes[s], n/2))
			}
			us = append(us, costUnit("1024 keys, shapes", c, n, ps))
		}
		hs := []uint8{1, 2, 3, 5}
		for _, c := range reprs {
			for _, h := range hs {
				var ps [][]uint8
				for _, p := range periodic(3, hs) {
					ps = append(ps, append([]uint8{h}, p...))
				}
				us = append(us, costUnit(fmt.Sprintf("256 keys, all periodic heights %d", h), c, 256, ps))
			}
			us = append(us, costUnitN("65536 keys, ideal", c, 65536, 61, [][]uint8{shapeOf(ruler, 32768)}))
			us = append(us, costUnit("16 keys, all heights", c, 16, periodic(8, []uint8{1, 4})))
			us = append(us, costUnit("12 keys, all heights", c, 12, periodic(6, []uint8{1, 2, 5})))
			if th {
				us = append(us, costUnit("12 keys, all heights up to 16", c, 12, periodic(6, []uint8{1, 2, 3, 5, 16})))
				us = append(us, costUnit("16 keys, all heights 1 2 5", c, 16, periodic(8, []uint8{1, 2, 5})))
				for _, h := range hs {
					var ps [][]uint8
					for _, p := range periodic(5, hs) {
						ps = append(ps, append([]uint8{h}, p...))
					}
					us = append(us, costUnit(fmt.Sprintf("96 keys, all periodic heights, period 6, %d", h), c, 96, ps))
				}
				us = append(us, costUnit("4096 keys, shapes", c, 4096, [][]uint8{shapeOf(ruler, 2048), shapeOf(shapes["tall"], 2048), shapeOf(shapes["few tall"], 2048)}))
			}
		}
		return us
	}
}
