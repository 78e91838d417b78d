package main

import (
	"fmt"

	"verifmc/vrt"
)

// Crowded maps hold, besides the few keys of a scenario, many entries that no
// operation of the scenario touches. What a Range reports about those is
// checked here; only the keys of the scenario are passed on.

const fillerValue = -5

type crowd struct {
	Map
	at   [NK]int // position of each key code among all entries
	code []int8  // key code of an entry, -1: filler
	n    int     // fillers
}

func (c *crowd) Store(k, v int)                   { c.Map.Store(c.at[k], v) }
func (c *crowd) Load(k int) (int, bool)           { return c.Map.Load(c.at[k]) }
func (c *crowd) LoadOrStore(k, v int) (int, bool) { return c.Map.LoadOrStore(c.at[k], v) }
func (c *crowd) LoadAndDelete(k int) (int, bool)  { return c.Map.LoadAndDelete(c.at[k]) }
func (c *crowd) Delete(k int) bool                { return c.Map.Delete(c.at[k]) }
func (c *crowd) LoadOrStoreLazy(k int, f func() int) (int, bool) {
	return c.Map.LoadOrStoreLazy(c.at[k], f)
}
func (c *crowd) Len() int { return c.Map.Len() - c.n }

func (c *crowd) Range(f func(k, v int) bool) {
	next, on := 0, true // next filler expected
	skip := func() {
		for next < len(c.code) && c.code[next] >= 0 {
			next++
		}
	}
	c.Map.Range(func(k, v int) bool {
		if !on {
			f(badKey, 0)
			return false
		}
		if k == badKey {
			on = f(badKey, v)
			return on
		}
		if c.code[k] >= 0 {
			// All fillers before it must have been visited.
			skip()
			if next < k {
				on = f(badKey, next)
				return on
			}
			on = f(int(c.code[k]), v)
			return on
		}
		skip()
		if k != next || v != fillerValue {
			on = f(badKey, next)
			return on
		}
		next++
		return true
	})
	if skip(); on && next < len(c.code) {
		f(badKey, next)
	}
}

// loads reads some of the other entries, those next to the keys of the scenario among them.
func (c *crowd) loads() string {
	for i, k := range c.code {
		if k >= 0 || i%8 > 0 && (i == 0 || c.code[i-1] < 0) && (i+1 == len(c.code) || c.code[i+1] < 0) {
			continue
		}
		if v, ok := c.Map.Load(i); !ok || v != fillerValue {
			return fmt.Sprintf("an entry that no operation touched: Load = %d,%v", v, ok)
		}
	}
	return ""
}

// crowded is c with n more entries around the keys of the scenario, or in
// between them.
func crowded(c *Ctor, n int, spread bool) *Ctor {
	d := *c
	d.Name = fmt.Sprintf("%s among %d entries", c.Name, n)
	d.Extra = n
	d.Big = nil
	d.Mk = func() Map {
		t := n + NK
		m := &crowd{Map: wides[c.Name](t), n: n, code: make([]int8, t)}
		for i := range m.code {
			m.code[i] = -1
		}
		for k := range m.at {
			m.at[k] = n/2 + k
			if spread {
				m.at[k] = k * (t - 1) / (NK - 1)
			}
			m.code[m.at[k]] = int8(k)
		}
		th := vrt.X.T()
		for i, k := range m.code {
			if k < 0 {
				th.Grow = int(ruler(i)) - 1
				m.Map.Store(i, fillerValue)
			}
		}
		th.Grow = 0
		return m
	}
	return &d
}

// cycle is n operations that repeat s.
func cycle(s string, n int) []Op {
	c := parse(s)
	var r []Op
	for len(r) < n {
		r = append(r, c...)
	}
	return r
}

// against combines initial contents and first threads with long second threads, in this order.
func against(ini [][]Op, first [][]Op, cycles []string, n int) []Scen {
	var ss []Scen
	for _, in := range ini {
		for _, f := range first {
			for _, c := range cycles {
				ss = append(ss, Scen{Init: in, Th: [][]Op{f, cycle(c, n)}})
			}
		}
	}
	return ss
}

// lengths combines the first threads with second threads of every length, so
// that the first resumes after each number of operations.
func lengths(first [][]Op, cycles []string, from, to int) []Scen {
	var ss []Scen
	for _, f := range first {
		for _, c := range cycles {
			for n := from; n <= to; n++ {
				ss = append(ss, Scen{Th: [][]Op{f, cycle(c, n)[:n]}})
			}
		}
	}
	return ss
}

// pressure are the families with many other entries and with many other
// operations during one, for the operations given as first.
func pressure(r Rules, first [][]Op, th bool) []family {
	ini := [][]Op{nil, parse("S1"), parse("S0.2 S1.3 S2.2")}
	upd1 := one(opsOf(upd, k1, h1))
	near := append(append([][]Op(nil), upd1...), parse("S0.2"), parse("D0"), parse("A2"), parse("Z2"))
	cyc := []string{"A1 S1", "O1.2 D1", "S1", "D1 Z1"}
	nb := []string{"S0 A0", "D0 S0.3", "A2 O2", "D2 S2.3 S1", "S0 S2 A0 A2"}
	fs := []family{
		{name: "one suspended during 270 operations", ss: against(ini[:2], first, cyc, 270), o: Opt{Rules: r, Bound: -1, Long: true}},
		{name: "one suspended during 1 to 265 operations", ss: lengths(first, []string{"S2 S3.2 S0 A2 D3 A0"}, 1, pick2(th, 520, 265)), o: Opt{Rules: r, Bound: -1, Long: true}, size: 20},
		{name: "lockstep with 120 operations", ss: against(ini, first, append(cyc, nb...), 120), o: Opt{Rules: r, Lockstep: locksteps(pick2(th, 100, 32))}},
		{name: "1+1 among 40 entries", ss: product(ini, first, near), o: bnd(r, 2), crowd: 40},
		{name: "1+1 among 300 entries", ss: product(ini[2:], first, near), o: bnd(r, 1), crowd: 300, spread: true},
	}
	if th {
		fs = append(fs,
			family{name: "one suspended during 70000 operations", ss: against(ini[1:2], first, cyc[:2], 70000), o: Opt{Rules: r, Bound: -1, Long: true}, size: 1},
			family{name: "1+1 among 5000 entries", ss: product(ini[2:], first, upd1), o: bnd(r, 1), crowd: 5000, spread: true, size: 2},
			family{name: "1+2 among 40 entries", ss: product(ini, first, two(opsOf([]Kind{KStore, KDel}, k12, h2))), o: bnd(r, 2), crowd: 40},
		)
	}
	return fs
}
