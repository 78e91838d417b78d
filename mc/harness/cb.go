package main

import (
	"fmt"
	"runtime"
	"strings"

	"verifmc/vrt"
)

// act is what a Range callback does at its i-th call: operations, a nested
// Range with its own program, stopping, or failing.
type act struct {
	at    int
	ops   []Op
	inner []act // program of a nested Range run after ops
	nest  bool
	stop  bool
	fail  int // 1: panic, 2: end the goroutine
}

func (a act) String() string {
	var p []string
	for _, o := range a.ops {
		p = append(p, o.String())
	}
	if a.nest {
		var q []string
		for _, i := range a.inner {
			q = append(q, i.String())
		}
		p = append(p, "Range{"+strings.Join(q, "; ")+"}")
	}
	if a.stop {
		p = append(p, "stop")
	}
	if a.fail > 0 {
		p = append(p, []string{"", "panic", "Goexit"}[a.fail])
	}
	return fmt.Sprintf("call %d: %s", a.at+1, strings.Join(p, ", "))
}

func progString(init []Op, prog []act) string {
	var q []string
	for _, a := range prog {
		q = append(q, a.String())
	}
	return seqString(init) + " | Range{" + strings.Join(q, "; ") + "}"
}

// cursor tracks one running Range.
type cursor struct {
	last    int
	calls   int
	stopped bool
	gone    [NK]bool // absent at some moment of this Range
	had     [NK][]int
}

type cbRun struct {
	m    Map
	md   model
	cur  []*cursor
	bad  string
	val  int
	free []*cursor
}

func (r *cbRun) fail(s string) {
	if r.bad == "" {
		r.bad = s
	}
}

// do runs an operation and updates model and cursors.
func (r *cbRun) do(o Op) {
	r.val++
	e := Ev{Op: o, Val: r.val}
	t := vrt.X.T()
	it, vis := t.Iters, t.Vis
	e.exec(r.m)
	t.Iters, t.Vis = it, vis
	if s := r.md.apply(&e); s != "" {
		r.fail("in the callback: " + s)
	}
	if hasKey(o.K) {
		for _, c := range r.cur {
			v := r.md[o.Key]
			if v == absent {
				c.gone[o.Key] = true
			} else {
				c.had[o.Key] = append(c.had[o.Key], v)
			}
		}
	}
}

// rng runs a Range with a callback program and checks what it reports.
func (r *cbRun) rng(prog []act) {
	var c *cursor
	if n := len(r.free); n > 0 {
		c = r.free[n-1]
		r.free = r.free[:n-1]
	} else {
		c = &cursor{}
	}
	c.last, c.calls, c.stopped = -1, 0, false
	for k, v := range r.md {
		c.gone[k] = v == absent
		c.had[k] = c.had[k][:0]
		if v != absent {
			c.had[k] = append(c.had[k], v)
		}
	}
	r.cur = append(r.cur, c)
	depth := len(r.cur)
	defer func() { // also when the callback fails
		r.cur = r.cur[:depth-1]
		r.free = append(r.free, c)
	}()
	vrt.X.T().Begin()
	r.m.Range(func(k, v int) bool {
		if c.stopped {
			r.fail("f was called again after it had returned false")
			return false
		}
		i := c.calls
		c.calls++
		if c.calls > 4*NK {
			r.fail("Range does not stop")
			return false
		}
		if k == badKey {
			r.fail("Range passed a key that was never stored")
			return false
		}
		if k <= c.last {
			r.fail(fmt.Sprintf("k%d was visited after k%d", k, c.last))
			return false
		}
		for j := c.last + 1; j < k; j++ {
			if !c.gone[j] {
				r.fail(fmt.Sprintf("k%d was skipped although present throughout", j))
			}
		}
		c.last = k
		if r.md[k] == absent {
			r.fail(fmt.Sprintf("k%d was visited although it is not in the map at this moment", k))
		}
		ok := false
		for _, x := range c.had[k] {
			ok = ok || x == v
		}
		if !ok {
			r.fail(fmt.Sprintf("k%d was visited with %d, which it did not hold during this Range", k, v))
		}
		for a := range prog {
			if prog[a].at != i {
				continue
			}
			for _, o := range prog[a].ops {
				r.do(o)
			}
			if prog[a].nest {
				r.rng(prog[a].inner)
			}
			switch prog[a].fail {
			case 1:
				c.stopped = true
				panic(boom)
			case 2:
				c.stopped = true
				runtime.Goexit()
			}
			if prog[a].stop {
				c.stopped = true
				return false
			}
		}
		return true
	})
	if !c.stopped {
		for j := c.last + 1; j < NK; j++ {
			if !c.gone[j] {
				r.fail(fmt.Sprintf("k%d was not visited although present throughout", j))
			}
		}
	}
}

// isolated runs f so that a panic with boom or a Goexit ends only f.
func isolated(mode int, f func()) {
	if mode != 2 {
		defer func() {
			if r := recover(); r != nil && r != any(boom) {
				if e, ok := r.(runtime.Error); ok && mode == 3 && !strings.Contains(e.Error(), "nil pointer") || !ok || mode != 3 {
					panic(r)
				}
			}
		}()
		f()
		return
	}
	done := make(chan any)
	go func() {
		fin := false
		defer func() {
			var r any
			if !fin {
				r = recover()
			}
			done <- r
		}()
		f()
		fin = true
	}()
	if r := <-done; r != nil {
		panic(r)
	}
}

func (w *W) runCb(c *Ctor, init []Op, prog []act, fail int, after []Op) string {
	return w.seq(func(x *vrt.Exec) string {
		r := &cbRun{m: c.Mk(), md: newModel()}
		for _, o := range init {
			r.do(o)
		}
		if fail > 0 {
			isolated(fail, func() { r.rng(prog) })
		} else {
			r.rng(prog)
		}
		if r.bad != "" {
			return r.bad
		}
		if s := r.md.compare(r.m); s != "" {
			return "after the Range: " + s
		}
		for _, o := range after {
			r.do(o)
		}
		if s := r.md.compare(r.m); s != "" && r.bad == "" {
			return "after the Range: " + s
		}
		return r.bad
	})
}

// cbUnit runs a list of callback programs on one constructor.
func cbUnit(name string, c *Ctor, inits [][]Op, progs [][]act, after []Op) Unit {
	return Unit{Name: name + "/" + c.Name, Run: func(w *W) *Viol {
		for _, in := range inits {
			for i, pr := range progs {
				fail := 0
				for _, a := range pr {
					fail = max(fail, a.fail)
				}
				w.Stats.States++
				w.Stats.Scenarios++
				w.Stats.Transitions += len(pr)
				if s := w.runCb(c, in, pr, fail, after); s != "" {
					if s = w.again(func() string { return w.runCb(c, in, pr, fail, after) }); s != "" {
						v := w.viol(s)
						v.Ctor, v.Scenario = c.Name, progString(in, pr)
						return v
					}
				}
				if i&255 == 0 {
					progress.Add(1)
					if w.expired() {
						w.Stats.Incomplete++
						return nil
					}
				}
			}
		}
		return nil
	}}
}

func many(ss ...string) [][]Op {
	var r [][]Op
	for _, s := range ss {
		r = append(r, parse(s))
	}
	return r
}

// singles are the programs with one action: every call index, every operation list.
func singles(calls int, ops [][]Op) [][]act {
	var r [][]act
	for i := 0; i < calls; i++ {
		for _, o := range ops {
			r = append(r, []act{{at: i, ops: o}})
		}
	}
	return r
}

// pairs are the programs with two actions at calls i <= j.
func pairs(calls int, a, b [][]Op) [][]act {
	var r [][]act
	for i := 0; i < calls; i++ {
		for j := i; j < calls; j++ {
			for _, o := range a {
				for _, q := range b {
					if i == j {
						r = append(r, []act{{at: i, ops: append(append([]Op(nil), o...), q...)}})
					} else {
						r = append(r, []act{{at: i, ops: o}, {at: j, ops: q}})
					}
				}
			}
		}
	}
	return r
}

func subs(ks []Kind, ds []int8, hs []uint8) [][]Op {
	var r [][]Op
	for _, k := range ks {
		for _, d := range ds {
			for _, h := range hs {
				r = append(r, []Op{{K: KRange, Sub: Sub{On: true, K: k, D: d, H: h}}})
				if !inserts(k) {
					break
				}
			}
		}
	}
	return r
}

func init() {
	checks["C12"] = func(th bool) []Unit {
		var us []Unit
		keys := []int8{0, 1, 2, 3, 4}
		hs := []uint8{1, 3}
		allOps := one(append(opsOf(pointKinds, keys, hs), Op{K: KRange}, Op{K: KLen}))
		updOps := one(opsOf(upd, keys, h1))
		contents := many("", "S2", "S1 S2 S3", "S1.1 S2.3 S3.1", "S1.2 S2.1 S3.3", "S1 S3", "S0 S1.2 S2 S3.2", "S0 S2 S4", "S0 S1 S2 S3 S4")
		after := parse("S2 O0 A1 D3 Z3 S4 A2")
		var stops [][]act
		for i := 0; i < 5; i++ {
			stops = append(stops, []act{{at: i, stop: true}})
			for j := 0; j <= i; j++ {
				for _, o := range updOps {
					if i == j {
						stops = append(stops, []act{{at: i, ops: o, stop: true}})
					} else {
						stops = append(stops, []act{{at: j, ops: o}, {at: i, stop: true}})
					}
				}
			}
		}
		var nested [][]act
		for i := 0; i < 3; i++ {
			nested = append(nested, []act{{at: i, nest: true}})
			for j := 0; j < 3; j++ {
				nested = append(nested, []act{{at: i, nest: true, inner: []act{{at: j, stop: true}}}})
				for _, o := range updOps {
					nested = append(nested, []act{{at: i, nest: true, inner: []act{{at: j, ops: o}}}})
					nested = append(nested, []act{{at: i, nest: true, inner: []act{{at: j, ops: o, stop: true}}}})
					nested = append(nested, []act{{at: i, ops: o, nest: true, inner: []act{{at: j, nest: true}}}})
				}
			}
		}
		for i := range ctors {
			c := &ctors[i]
			us = append(us, cbUnit("one operation in the callback", c, contents, singles(5, allOps), after))
			us = append(us, cbUnit("stopping", c, contents, stops, after))
			us = append(us, cbUnit("nested Range", c, contents, nested, after))
		}
		for i := range ctors {
			us = append(us, cbUnit("two operations in the callback", &ctors[i], contents[2:6], pairs(3, updOps, updOps), after))
		}
		del := one(opsOf([]Kind{KStore, KDel}, keys, h1))
		for _, c := range reprs {
			for i, o := range del {
				us = append(us, cbUnit(fmt.Sprintf("three operations in the callback %d", i), c, many("S1.1 S2.2 S3.1", "S1 S2 S4"), pairs(3, [][]Op{o}, seqsOf(opsOf([]Kind{KStore, KDel}, keys, h1), 2)), after))
			}
		}
		r := Rules{Range: true, Usable: true}
		bad := func(b int) Opt { return Opt{Rules: r, Bound: b, Control: healthy} }
		sub := subs([]Kind{KStore, KLOS, KLazy, KLAD, KDel, KLoad}, []int8{-1, 0, 1}, h1)
		fs := []family{
			{name: "concurrent, Range with updating callback + 1 update", ss: product(many("S1", "S1.2 S2", "S1 S2.2 S3"), sub, one(opsOf(upd, k12, h2))), o: bad(3)},
			{name: "concurrent, two Ranges with updating callbacks", ss: product(many("S1", "S1.2 S2"), subs([]Kind{KStore, KLAD, KDel}, []int8{0, 1}, h1), subs([]Kind{KStore, KDel}, []int8{0, 1}, h1)), o: bad(2)},
			{name: "concurrent, Range that stops", ss: product(many("S1 S2", "S0 S1.2 S2 S3"), [][]Op{parse("T")}, one(opsOf(upd, k012, h1))), o: bad(-1)},
		}
		if th {
			fs = append(fs,
				family{name: "concurrent, Range with updating callback + 2 updates", ss: product(many("S1", "S1.2 S2", "S1 S2.2 S3"), sub, two(opsOf([]Kind{KStore, KLAD, KDel}, k12, h2))), o: bad(3)},
				family{name: "concurrent, Range with updating callback + 1 + 1 updates", ss: product(many("S1", "S1.2 S2"), sub, one(opsOf([]Kind{KStore, KLOS, KDel}, k12, h2)), one(opsOf([]Kind{KStore, KDel}, k12, h1))), o: bad(2)},
			)
			for _, c := range reprs {
				for i, o := range seqsOf(opsOf([]Kind{KStore, KLAD}, keys, h1), 2) {
					us = append(us, cbUnit(fmt.Sprintf("four operations in the callback %d", i), c, many("S1.1 S2.2 S3.1"), pairs(3, [][]Op{o}, seqsOf(opsOf([]Kind{KLOS, KDel}, keys, h1), 2)), after))
				}
			}
		}
		return append(us, perClass(fs)...)
	}

	checks["C13"] = func(th bool) []Unit {
		var us []Unit
		follow := append([][]Op{nil}, two(opsOf(pointKinds, k012, h1))...)
		for i := range ctors {
			us = append(us, lazyFaults(&ctors[i], inits(k012, h1), []uint8{1, 3}, one(opsOf(pointKinds, k012, h1))))
		}
		for _, c := range reprs {
			for i, in := range inits(k012, []uint8{1, 3}) {
				us = append(us, lazyFaultsN(fmt.Sprintf("failing factory %d", i), c, [][]Op{in}, []uint8{1, 2, 5}, follow))
			}
		}
		upds := one(opsOf(upd, k012, h1))
		var rf [][]act
		for i := 0; i < 3; i++ {
			for fail := 1; fail <= 2; fail++ {
				rf = append(rf, []act{{at: i, fail: fail}})
				for _, o := range upds {
					rf = append(rf, []act{{at: i, ops: o, fail: fail}})
					for j := 0; j < i; j++ {
						rf = append(rf, []act{{at: j, ops: o}, {at: i, fail: fail}})
					}
				}
			}
		}
		for i := range ctors {
			for j, after := range many("S0 S1 S2 A0 D1 L2", "A1 O1 Z2 D0 S0", "D2 D1 D0 Z0 O1") {
				us = append(us, cbUnit(fmt.Sprintf("failing Range callback %d", j), &ctors[i], inits(k012, []uint8{1, 3}), rf, after))
			}
		}
		r := Rules{Lin: true, Range: true, Usable: true}
		bad := func(b int) Opt { return Opt{Rules: r, Bound: b, Control: healthy} }
		f1 := one(opsOf([]Kind{KLazyP}, k1, []uint8{1, 3}))
		all := append(append([]Kind(nil), pointKinds...), KRange, KLen, KLazyP)
		fs := []family{
			{name: "concurrent, failing factory + 1 operation", ss: product(inits(k012, h12), f1, one(opsOf(all, k12, h2))), o: bad(-1)},
			{name: "concurrent, failing factory + 2 operations", ss: product(inits(k12, h1), f1, two(opsOf([]Kind{KStore, KLazy, KDel, KRange}, k12, h1))), o: bad(3)},
			{name: "concurrent, failing factory and operation + operation", ss: product(inits(k12, h1), many("P1 S1", "P1 P1", "P1 A1", "P1 Z1", "S1 P1", "D1 P1.2"), one(opsOf(all, k12, h1))), o: bad(3)},
			{name: "concurrent, failing factory + 1 + 1 operations", ss: product(many("", "S1", "S2.2"), one(opsOf([]Kind{KLazyP}, k1, h1)), one(opsOf(upd, k1, h1)), one(opsOf(upd, k12, h1))), o: bad(2)},
			{name: "concurrent, failing Range callback + 2 operations", ss: product(many("S1 S2", "S0 S1.2 S2 S3"), many("Q"), two(opsOf([]Kind{KStore, KDel}, k012, h1))), o: bad(3)},
		}
		if th {
			fs = append(fs,
				family{name: "concurrent, failing factory + 2 operations, unbounded", ss: product(inits(k12, h1), f1, two(opsOf([]Kind{KStore, KLazy, KDel, KRange}, k12, h1))), o: bad(-1)},
				family{name: "concurrent, failing factory + 1 + 1 operations, bound 3", ss: product(inits(k12, h1), one(opsOf([]Kind{KLazyP}, k1, h2)), one(opsOf(upd, k1, h1)), one(opsOf(upd, k12, h1))), o: bad(3)},
				family{name: "concurrent, 2 failing factories + 1 operation", ss: product(inits(k12, h1), one(opsOf([]Kind{KLazyP}, k1, h2)), one(opsOf([]Kind{KLazyP}, k12, h2)), one(opsOf(upd, k12, h1))), o: bad(3)},
			)
		}
		return append(us, perClass(fs)...)
	}

	checks["C14"] = func(th bool) []Unit {
		var us []Unit
		for i := range ctors {
			for j := range ctors {
				us = append(us, twoMaps(&ctors[i], &ctors[j], 2))
			}
		}
		for i := range ctors {
			us = append(us, twoMaps(&ctors[i], &ctors[i], 3))
		}
		for _, a := range reprs {
			for _, b := range reprs {
				if a != b {
					us = append(us, twoMaps(a, b, 3))
					us = append(us, twoMapsTall(a, b, 3)...)
				} else {
					us = append(us, twoMapsTall(a, b, 4)...)
				}
			}
		}
		for i := range ctors {
			for j := range ctors {
				us = append(us, nested(&ctors[i], &ctors[j]))
			}
		}
		on := func(ts [][]Op, m uint8) [][]Op {
			var r [][]Op
			for _, t := range ts {
				u := append([]Op(nil), t...)
				for i := range u {
					u[i].M = m
				}
				r = append(r, u)
			}
			return r
		}
		both := func(ini [][]Op) [][]Op {
			var r [][]Op
			for _, a := range ini {
				for _, b := range on(ini, 1) {
					r = append(r, append(append([]Op(nil), a...), b...))
				}
			}
			return r
		}
		r := Rules{Lin: true, Range: true, NoBlock: true}
		all := append(append([]Kind(nil), pointKinds...), KRange, KLen)
		o := func(b int, c2 *Ctor) Opt { return Opt{Rules: r, Bound: b, Two: true, Ctor2: c2, Control: apart} }
		ini := inits(k1, []uint8{1, 5})
		fs := []family{
			{name: "concurrent, one goroutine per map, 1+1", ss: product(both(ini), one(opsOf(all, k1, []uint8{1, 5})), on(one(opsOf(all, k1, []uint8{2})), 1)), o: o(-1, nil)},
			{name: "concurrent, one goroutine per map, 2+2", ss: product(both(many("S1")), two(opsOf([]Kind{KStore, KLazy, KLAD, KRange}, k1, h1)), on(two(opsOf([]Kind{KStore, KLOS, KDel}, k1, h1)), 1)), o: o(2, nil)},
			{name: "concurrent, two goroutines on one map, one on the other", ss: product(both(many("S1")), one(opsOf(upd, k1, h1)), one(opsOf(upd, k1, h2)), on(one(opsOf([]Kind{KStore, KLazy, KLAD}, k1, h1)), 1)), o: o(2, nil)},
		}
		if th {
			fs = append(fs,
				family{name: "concurrent, one goroutine per map, 2+2, unbounded", ss: product(both(ini), two(opsOf(upd, k1, h1)), on(two(opsOf(upd, k1, h2)), 1)), o: o(3, nil)},
				family{name: "concurrent, two goroutines on one map, one on the other, bound 3", ss: product(both(many("S1", "")), one(opsOf(upd, k1, h1)), one(opsOf(upd, k1, h2)), on(one(opsOf(upd, k1, h1)), 1)), o: o(3, nil)},
			)
		}
		us = append(us, perClass(fs)...)
		fresh := product([][]Op{nil}, seqsOf(parse("S1.2 L1 A1"), 2), on(seqsOf(parse("S1.2 Z1 R"), 2), 1))
		for i := range ctors {
			for _, j := range []int{i, (i + 1) % len(ctors), (i + 2) % len(ctors)} {
				us = append(us, manyMaps(&ctors[i], &ctors[j], 300))
				of := o(2, &ctors[j])
				of.Fresh = true
				us = append(us, chunk("concurrent, each goroutine creates its map, with "+ctors[j].Name, &ctors[i], fresh, len(fresh), of)...)
			}
		}
		// Different types, also outside the classes.
		small := product(both(many("S1")), one(opsOf([]Kind{KStore, KLazy, KLAD, KRange}, k1, h1)), on(one(opsOf([]Kind{KStore, KLOS, KDel}, k1, h2)), 1))
		for i := range ctors {
			j := (i + 1) % len(ctors)
			us = append(us, chunk("concurrent, maps of two types with "+ctors[j].Name, &ctors[i], small, len(small), o(-1, &ctors[j]))...)
			us = append(us, chunk("concurrent, two maps of one type", &ctors[i], small, len(small), o(-1, nil))...)
		}
		return us
	}
}

func lazyFaults(c *Ctor, ins [][]Op, hs []uint8, follow [][]Op) Unit {
	return lazyFaultsN("failing factory", c, ins, hs, follow)
}

// lazyFaultsN makes the factory fail in every way and runs every follow-up.
func lazyFaultsN(name string, c *Ctor, ins [][]Op, hs []uint8, follow [][]Op) Unit {
	return Unit{Name: name + "/" + c.Name, Run: func(w *W) *Viol {
		for _, in := range ins {
			for key := int8(0); key < 3; key++ {
				for _, h := range hs {
					for mode := 1; mode <= 3; mode++ {
						for cnt, fo := range follow {
							w.Stats.States++
							w.Stats.Scenarios++
							w.Stats.Transitions += len(in) + 1 + len(fo)
							if cnt&63 == 0 {
								progress.Add(1)
								if w.expired() {
									w.Stats.Incomplete++
									return nil
								}
							}
							run := func() string { return w.lazyFault(c, in, key, h, mode, fo) }
							if s := run(); s != "" {
								if s = w.again(run); s != "" {
									v := w.viol(s)
									v.Ctor = c.Name
									v.Scenario = fmt.Sprintf("%s; LoadOrStoreLazy(k%d,h%d) with f %s; %s", seqString(in), key, h, []string{"", "panicking", "ending its goroutine", "dereferencing nil"}[mode], seqString(fo))
									return v
								}
							}
						}
					}
				}
			}
		}
		return nil
	}}
}

func (w *W) lazyFault(c *Ctor, in []Op, key int8, h uint8, mode int, follow []Op) string {
	return w.seq(func(x *vrt.Exec) string {
		r := &cbRun{m: c.Mk(), md: newModel()}
		for _, o := range in {
			r.do(o)
		}
		calls, returned := 0, false
		var v int
		var ok bool
		t := x.T()
		t.Begin()
		t.Grow = int(h) - 1
		isolated(mode, func() {
			v, ok = r.m.LoadOrStoreLazy(int(key), func() int {
				calls++
				switch mode {
				case 1:
					panic(boom)
				case 2:
					runtime.Goexit()
				}
				var p *int
				return *p
			})
			returned = true
		})
		if calls > 1 {
			return fmt.Sprintf("f was called %d times", calls)
		}
		if r.md[key] != absent && (calls > 0 || !returned || !ok || v != r.md[key]) {
			return fmt.Sprintf("LoadOrStoreLazy of a present key gave %d,%v and called f %d times", v, ok, calls)
		}
		if s := r.md.compare(r.m); s != "" {
			return "after the failing call: " + s
		}
		for _, o := range follow {
			r.do(o)
		}
		for k := int8(0); k < 3; k++ {
			for _, o := range []Op{{K: KStore, Key: k, H: 2}, {K: KLAD, Key: k}, {K: KLazy, Key: k, H: 1}, {K: KDel, Key: k}} {
				r.do(o)
			}
		}
		if r.bad != "" {
			return r.bad
		}
		return r.md.compare(r.m)
	})
}

// twoMaps runs all sequences of n operations over two maps.
func twoMaps(a, b *Ctor, n int) Unit {
	alpha := opsOf(pointKinds, k12, h1)
	m := len(alpha)
	for i := 0; i < m; i++ {
		o := alpha[i]
		o.M = 1
		alpha = append(alpha, o)
	}
	for i := range alpha {
		if inserts(alpha[i].K) {
			alpha[i].H = uint8(1 + i%5)
		}
	}
	return twoMapsOf(fmt.Sprintf("all sequences of %d on two maps", n), a, b, n, alpha, alpha)
}

// twoMapsTall runs all sequences of n operations with tall towers on two maps.
func twoMapsTall(a, b *Ctor, n int) []Unit {
	alpha := opsOf([]Kind{KStore, KLOS, KLazy, KDel}, k12, []uint8{7, 12})
	for _, o := range alpha {
		o.M = 1
		alpha = append(alpha, o)
	}
	var us []Unit
	for i := range alpha[:len(alpha)/2] {
		us = append(us, twoMapsOf(fmt.Sprintf("all sequences of %d with tall towers on two maps %d", n, i), a, b, n, alpha[i:i+1], alpha))
	}
	return us
}

func twoMapsOf(name string, a, b *Ctor, n int, first, alpha []Op) Unit {
	return Unit{Name: fmt.Sprintf("%s/%s+%s", name, a.Name, b.Name), Run: func(w *W) *Viol {
		idx := make([]int, n)
		var ev Ev
		ops := make([]Op, n)
		late := false // the maps are created when they are needed first
		run := func() string {
			return w.seq(func(x *vrt.Exec) string {
				var ms [2]Map
				mds := [2]model{newModel(), newModel()}
				create := func(j uint8) {
					ms[j] = []*Ctor{a, b}[j].Mk()
					if late && j == 1 {
						return
					}
					// Both maps hold a common key.
					ev = Ev{Op: Op{K: KStore, Key: 2, H: 3}, Val: 70 + int(j), Visits: ev.Visits[:0]}
					ev.exec(ms[j])
					mds[j].apply(&ev)
				}
				for j := uint8(0); j < 2 && !late; j++ {
					create(j)
				}
				for i, o := range ops {
					if ms[o.M] == nil {
						create(o.M)
					}
					ev = Ev{Op: o, Val: 10 + i, Visits: ev.Visits[:0]}
					ev.exec(ms[o.M])
					if s := mds[o.M].apply(&ev); s != "" {
						return fmt.Sprintf("operation %d: %s", i+1, s)
					}
				}
				for j := range ms {
					if ms[j] == nil {
						create(uint8(j))
					}
					if s := mds[j].compare(ms[j]); s != "" {
						return fmt.Sprintf("map %d: %s", j, s)
					}
					if s := mds[j].loads(ms[j]); s != "" {
						return fmt.Sprintf("map %d: %s", j, s)
					}
				}
				return ""
			})
		}
		for c := 0; ; c++ {
			for i := range idx {
				ops[i] = alpha[idx[i]]
			}
			ops[0] = first[idx[0]]
			w.Stats.States++
			w.Stats.Scenarios++
			w.Stats.Transitions += n
			late = false
			s := run()
			if s == "" {
				late = true
				s = run()
			}
			if s != "" {
				if s = w.again(run); s != "" {
					all := append([]Op(nil), ops...)
					for m := uint8(0); m < 2; m++ {
						ops = only(Scen{Init: all}, func(o *Op) bool { return o.M == m }).Init
						if run() != "" {
							w.otherCause(a, seqString(all), s)
							return nil
						}
					}
					v := w.viol(s)
					v.Ctor, v.Scenario = a.Name+"+"+b.Name, seqString(all)
					return v
				}
			}
			if c&255 == 0 {
				progress.Add(1)
				if w.expired() {
					w.Stats.Incomplete++
					return nil
				}
			}
			i := n - 1
			for i >= 0 {
				idx[i]++
				if idx[i] < len(alpha) && (i > 0 || idx[i] < len(first)) {
					break
				}
				idx[i] = 0
				i--
			}
			if i < 0 {
				return nil
			}
		}
	}}
}

// manyMaps has n maps of two types alive at once, created one after the other
// between operations on the earlier ones.
func manyMaps(a, b *Ctor, n int) Unit {
	return Unit{Name: fmt.Sprintf("%d maps at once/%s+%s", n, a.Name, b.Name), Run: func(w *W) *Viol {
		run := func() string {
			return w.seq(func(x *vrt.Exec) string {
				var ms []Map
				var mds []model
				var ev Ev
				for i := 0; i < 2*n; i++ {
					if i < n {
						ms = append(ms, []*Ctor{a, b}[i%2].Mk())
						mds = append(mds, newModel())
					}
					for s, at := range []int{i % n, i / 2 % n, (i * 7) % len(ms), len(ms) - 1} {
						ks := []Kind{KStore, KLOS, KLazy, KLAD, KDel, KStore, KLazy}
						ev = Ev{Op: Op{K: ks[(i+s)%7], Key: int8((i + s) % NK), H: uint8(1 + i%4)}, Val: i*10 + s, Visits: ev.Visits[:0]}
						if at >= len(ms) {
							continue
						}
						ev.exec(ms[at])
						if s := mds[at].apply(&ev); s != "" {
							return fmt.Sprintf("map %d of %d: %s", at+1, len(ms), s)
						}
					}
				}
				for i := range ms {
					if s := mds[i].compare(ms[i]); s != "" {
						return fmt.Sprintf("map %d of %d: %s", i+1, len(ms), s)
					}
				}
				return ""
			})
		}
		w.Stats.States += n
		w.Stats.Scenarios++
		w.Stats.Transitions += 8 * n
		progress.Add(1)
		if s := run(); s != "" {
			if s = w.again(run); s != "" {
				v := w.viol(s)
				v.Ctor, v.Scenario = a.Name+"+"+b.Name, fmt.Sprintf("%d maps", n)
				return v
			}
		}
		return nil
	}}
}

func nested(a, b *Ctor) Unit {
	return Unit{Name: fmt.Sprintf("operations from the callback of another map/%s+%s", a.Name, b.Name), Run: func(w *W) *Viol {
		all := append(append([]Kind(nil), pointKinds...), KRange, KLen)
		for _, outer := range append(opsOf([]Kind{KLazy}, k12, []uint8{1, 3}), Op{K: KRange}) {
			for _, inner := range two(opsOf(all, k12, h2)) {
				w.Stats.States++
				w.Stats.Scenarios++
				w.Stats.Transitions += 1 + len(inner)
				run := func(inside bool) func() string {
					return func() string {
						return w.seq(func(x *vrt.Exec) string { return runNested(x, a.Mk(), b.Mk(), outer, inner, inside) })
					}
				}
				s := run(true)()
				if s == "" {
					continue
				}
				if s = w.again(run(true)); s == "" {
					continue
				}
				name := fmt.Sprintf("%s on one map with a callback doing %s on the other", outer, seqString(inner))
				if run(false)() != "" {
					w.otherCause(a, name, s)
					return nil
				}
				v := w.viol(s)
				v.Ctor, v.Scenario = a.Name+"+"+b.Name, name
				return v
			}
		}
		progress.Add(1)
		return nil
	}}
}

// runNested performs outer on m0 and inner on m1, within the callback of outer or before it.
func runNested(x *vrt.Exec, m0, m1 Map, outer Op, inner []Op, inside bool) string {
	mds := [2]model{newModel(), newModel()}
	ms := [2]Map{m0, m1}
	for j := range ms {
		e := Ev{Op: Op{K: KStore, Key: 2, H: 2}, Val: 70 + j}
		e.exec(ms[j])
		mds[j].apply(&e)
	}
	bad, ran := "", false
	do := func() {
		if ran {
			return
		}
		ran = true
		t := x.T()
		for i, o := range inner {
			e := Ev{Op: o, Val: 10 + i}
			it, vis := t.Iters, t.Vis
			e.exec(m1)
			t.Iters, t.Vis = it, vis
			if s := mds[1].apply(&e); s != "" && bad == "" {
				bad = "on the other map: " + s
			}
		}
	}
	if !inside {
		do()
	}
	e := Ev{Op: outer, Val: 50}
	x.T().Begin()
	if outer.K == KLazy {
		x.T().Grow = int(outer.H) - 1
		e.Res, e.OK = m0.LoadOrStoreLazy(int(outer.Key), func() int {
			e.Calls++
			do()
			return e.Val
		})
	} else {
		m0.Range(func(k, v int) bool {
			e.Visits = append(e.Visits, KV{k, v})
			do()
			return len(e.Visits) < 20
		})
	}
	if s := mds[0].apply(&e); s != "" && bad == "" {
		bad = s
	}
	for j := range ms {
		if bad != "" {
			break
		}
		if bad = mds[j].compare(ms[j]); bad == "" {
			bad = mds[j].loads(ms[j])
		}
	}
	return bad
}
