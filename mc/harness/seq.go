package main

import (
	"fmt"
	"sort"
	"strings"

	"verifmc/vrt"
)

// Sequential exploration: one goroutine, every operation sequence of a family,
// each run on a fresh map of the real code and judged step by step against an
// ordinary sorted map. Locks stay controlled, so an operation that leaves a
// lock behind or waits for itself is reported instead of hanging.

// model is the reference: the value of every key code, or absent.
type model [NK]int

func newModel() model {
	var m model
	for i := range m {
		m[i] = absent
	}
	return m
}

func (m *model) size() (n int) {
	for _, v := range m {
		if v != absent {
			n++
		}
	}
	return
}

// apply checks the result of e against the model and updates it.
func (m *model) apply(e *Ev) string {
	switch e.K {
	case KLen:
		if e.Res != m.size() {
			return fmt.Sprintf("Len with %d keys present: %s", m.size(), e)
		}
		return ""
	case KRange:
		return m.sameVisits(e.Visits)
	}
	q := pop{k: e.K, val: e.Val, res: e.Res, ok: e.OK}
	ns, ok := q.step(m[e.Key])
	if !ok {
		was := "absent"
		if m[e.Key] != absent {
			was = fmt.Sprint(m[e.Key])
		}
		return fmt.Sprintf("wrong result (the key was %s): %s", was, e)
	}
	if e.K == KLazy && (e.OK && e.Calls != 0 || !e.OK && e.Calls != 1) {
		return fmt.Sprintf("f ran %d times: %s", e.Calls, e)
	}
	m[e.Key] = ns
	return ""
}

func (m *model) sameVisits(vs []KV) string {
	j := 0
	for k, v := range m {
		if v == absent {
			continue
		}
		if j >= len(vs) || vs[j] != (KV{k, v}) {
			return fmt.Sprintf("Range gave %v, the contents are %s", vs, m)
		}
		j++
	}
	if j != len(vs) {
		return fmt.Sprintf("Range gave %v, the contents are %s", vs, m)
	}
	return ""
}

func (m *model) String() string {
	var b strings.Builder
	for k, v := range m {
		if v != absent {
			fmt.Fprintf(&b, "k%d:%d ", k, v)
		}
	}
	return "{" + strings.TrimSpace(b.String()) + "}"
}

// compare checks the complete contents of a map against the model.
func (m *model) compare(x Map) string {
	n, bad := 0, ""
	var vs [2 * NK]KV
	x.Range(func(k, v int) bool {
		if n < len(vs) {
			vs[n] = KV{k, v}
		}
		n++
		if n > 4*NK {
			bad = "Range does not stop"
			return false
		}
		return true
	})
	if bad != "" {
		return bad
	}
	if s := m.sameVisits(vs[:min(n, len(vs))]); s != "" {
		return s
	}
	if l := x.Len(); l != m.size() {
		return fmt.Sprintf("Len() = %d with %d keys present", l, m.size())
	}
	return ""
}

// loads reads every key.
func (m *model) loads(x Map) string {
	for k := range m {
		v, ok := x.Load(k)
		if ok != (m[k] != absent) || ok && v != m[k] || !ok && v != 0 {
			return fmt.Sprintf("Load(k%d) = %d,%v, the contents are %s", k, v, ok, m)
		}
	}
	return ""
}

// exec runs one operation with the height it draws.
func (e *Ev) exec(m Map) {
	t := vrt.X.T()
	t.Grow = 0
	if e.H > 0 {
		t.Grow = int(e.H) - 1
	}
	t.Begin()
	e.Calls = 0
	e.Done = false
	switch e.K {
	case KLazy:
		e.Res, e.OK = m.LoadOrStoreLazy(int(e.Key), func() int { e.Calls++; return e.Val })
	default:
		doOp(m, e)
	}
	e.Vis = t.Vis + t.Iters
	e.Done = true
}

func seqString(ops []Op) string { return Scen{Init: ops}.String() }

// seq runs f on the real code in sequential mode; a panic, a deadlock or an
// endless loop is a failure as well.
func (w *W) seq(f func(x *vrt.Exec) string) string {
	w.Stats.Execs++
	w.ex.X.Shadow = false
	defer func() { w.ex.X.Shadow = true }()
	msg := ""
	if s := w.ex.Seq(func(x *vrt.Exec) { msg = f(x) }); s != "" {
		return w.ex.X.FailKind + ": " + s
	}
	return msg
}

// again confirms a sequential failure by repeating it.
func (w *W) again(f func() string) string {
	msg := ""
	for i := 0; i < 5; i++ {
		if msg = f(); msg == "" {
			w.Stats.Unstable++
			return ""
		}
	}
	return msg
}

// runSeq runs ops on a new map and judges every result; the complete contents
// are compared after the last operation, or after each with every.
func (w *W) runSeq(c *Ctor, ops []Op, every bool, ev *Ev) string {
	return w.seq(func(x *vrt.Exec) string {
		m := c.Mk()
		md := newModel()
		if len(ops) == 0 {
			return md.compare(m)
		}
		for i, o := range ops {
			vs := ev.Visits[:0]
			*ev = Ev{Op: o, Val: 10 + i, Visits: vs}
			ev.exec(m)
			if s := md.apply(ev); s != "" {
				return fmt.Sprintf("operation %d: %s", i+1, s)
			}
			if every || i == len(ops)-1 {
				if s := md.compare(m); s != "" {
					return fmt.Sprintf("after operation %d: %s", i+1, s)
				}
			}
		}
		return md.loads(m)
	})
}

// allSeqs runs every sequence of n operations that starts with first.
func (w *W) allSeqs(c *Ctor, first []Op, alpha []Op, n int) *Viol {
	ops := make([]Op, len(first)+n)
	copy(ops, first)
	idx := make([]int, n)
	var ev Ev
	for cnt := 0; ; cnt++ {
		for i, k := range idx {
			ops[len(first)+i] = alpha[k]
		}
		if s := w.runSeq(c, ops, false, &ev); s != "" {
			if s = w.again(func() string { return w.runSeq(c, ops, true, &ev) }); s != "" {
				v := w.viol(s)
				v.Ctor, v.Scenario = c.Name, seqString(ops)
				return v
			}
		}
		w.Stats.Transitions += len(ops)
		if cnt&255 == 0 {
			progress.Add(1)
			if w.expired() {
				w.Stats.Incomplete++
				w.note("sequences cut short: " + w.Unit)
				return nil
			}
		}
		i := n - 1
		for i >= 0 {
			idx[i]++
			if idx[i] < len(alpha) {
				break
			}
			idx[i] = 0
			i--
		}
		if i < 0 {
			w.Stats.States += cnt + 1
			w.Stats.Scenarios += cnt + 1
			return nil
		}
	}
}

// seqUnits splits all sequences of n operations by their first operation(s).
func seqUnits(name string, c *Ctor, alpha []Op, n, split int) []Unit {
	var us []Unit
	for i, f := range seqsOf(alpha, split) {
		us = append(us, Unit{Name: fmt.Sprintf("%s/%s/%d", name, c.Name, i), Run: func(w *W) *Viol {
			w.count("sequences of "+name+" (prefixes)", 1)
			return w.allSeqs(c, f, alpha, n-split)
		}})
	}
	return us
}

// closure enumerates all states reachable over the given keys and heights. A
// state is the height of every key's tower (0: absent) and the largest height
// drawn so far, which is all the implementation keeps; every transition is run
// on the real code from a new map along a shortest path.
func closure(name string, c *Ctor, keys []int8, hs []uint8) Unit {
	return Unit{Name: name + "/" + c.Name, Run: func(w *W) *Viol {
		type st struct {
			h  [NK]uint8
			hi uint8
		}
		next := func(s st, o Op) st {
			if inserts(o.K) {
				if s.h[o.Key] == 0 {
					s.h[o.Key] = o.H
					s.hi = max(s.hi, o.H)
				} else if o.K == KStore {
					s.hi = max(s.hi, o.H)
				}
			} else if o.K == KLAD || o.K == KDel {
				s.h[o.Key] = 0
			}
			return s
		}
		alpha := opsOf(pointKinds, keys, hs)
		start := st{hi: 3}
		path := map[st][]Op{start: nil}
		queue := []st{start}
		var ev Ev
		for len(queue) > 0 {
			s := queue[0]
			queue = queue[1:]
			w.Stats.States++
			progress.Add(1)
			if w.expired() {
				w.Stats.Incomplete++
				w.note("closure cut short: " + w.Unit)
				return nil
			}
			for _, o := range alpha {
				ops := append(append([]Op(nil), path[s]...), o)
				w.Stats.Transitions++
				if m := w.runSeq(c, ops, false, &ev); m != "" {
					if m = w.again(func() string { return w.runSeq(c, ops, true, &ev) }); m != "" {
						v := w.viol(m)
						v.Ctor, v.Scenario = c.Name, seqString(ops)
						return v
					}
				}
				n := next(s, o)
				if _, ok := path[n]; !ok {
					path[n] = ops
					queue = append(queue, n)
				}
			}
		}
		w.sample(fmt.Sprintf("%s: %d states", w.Unit, len(path)))
		w.count("closure states", len(path))
		return nil
	}}
}

// round puts the units of several lists in turn.
func round(lists ...[]Unit) []Unit {
	var us []Unit
	for i := 0; ; i++ {
		any := false
		for _, l := range lists {
			if i < len(l) {
				us = append(us, l[i])
				any = true
			}
		}
		if !any {
			return us
		}
	}
}

func init() {
	checks["C08"] = func(th bool) []Unit {
		var us []Unit
		alpha := append(opsOf(pointKinds, k012, h1), Op{K: KRange}, Op{K: KLen})
		mid := opsOf([]Kind{KStore, KLOS, KLazy, KLAD, KDel}, k012, h1)
		for n := 1; n <= 3; n++ {
			for i := range ctors {
				us = append(us, Unit{Name: fmt.Sprintf("all sequences of %d/%s", n, ctors[i].Name), Run: func(w *W) *Viol {
					return w.allSeqs(&ctors[i], nil, alpha, n)
				}})
			}
		}
		all := []int8{0, 1, 2, 3, 4, 5}
		for i := range ctors {
			us = append(us, closure("all states, 6 keys", &ctors[i], all, h1))
			us = append(us, closure("all states, 2 keys with heights", &ctors[i], k12, []uint8{1, 2, 4, 5, 16}))
		}
		var ls [][]Unit
		for i := range ctors {
			ls = append(ls, seqUnits("all sequences of 4", &ctors[i], alpha, 4, 1))
		}
		us = append(us, round(ls...)...)
		ls = nil
		for _, c := range reprs {
			us = append(us, closure("all states, 3 keys with heights", c, k012, []uint8{1, 2, 4, 5, 16}))
			us = append(us, big(c))
		}
		us = append(us, largeUnits(everything, th)...)
		for i := range ctors {
			ls = append(ls, seqUnits("all sequences of 5", &ctors[i], mid, 5, 1))
		}
		us = append(us, round(ls...)...)
		if th {
			ls = nil
			for _, c := range reprs {
				ls = append(ls, seqUnits("all sequences of 6", c, mid, 6, 2))
			}
			us = append(us, round(ls...)...)
			ls = nil
			for i := range ctors {
				ls = append(ls, seqUnits("all sequences of 5 with reads", &ctors[i], alpha, 5, 2))
			}
			us = append(us, round(ls...)...)
			for _, c := range reprs {
				us = append(us, closure("all states, 4 keys with heights", c, k0123, []uint8{1, 2, 4, 5, 16}))
			}
			ls = nil
			ud := append(opsOf([]Kind{KStore, KLOS, KLAD, KDel}, k12, h1), opsOf([]Kind{KLazy, KLoad}, k1, h1)...)
			for _, c := range reprs {
				ls = append(ls, seqUnits("all sequences of 7, 2 keys", c, ud, 7, 2))
			}
			us = append(us, round(ls...)...)
		}
		return us
	}

	checks["C11"] = func(th bool) []Unit {
		var us []Unit
		hs := []uint8{1, 2, 3, 4, 5, 6, 15, 16, 17, 40}
		for i := range ctors {
			us = append(us, runs(&ctors[i]))
		}
		for i := range ctors {
			us = append(us, Unit{Name: "every pair of heights/" + ctors[i].Name, Run: func(w *W) *Viol {
				return w.heights(&ctors[i], []string{"S1 S2 D1 S1 A2", "O1 Z0 S1 A0 L1", "Z1 O1 D1 S2 O1"}, hs)
			}})
		}
		for _, c := range reprs {
			for _, p := range []string{"S1 S2 S0 D1 S1", "O2 O1 O0 A2 O2", "S0 Z2 Z1 D0 D2", "S1 D1 O1 A1 Z1", "S2 A2 S0 S1 S2", "S3 S2 S1 S0 A1", "O1 S1 L1 D1 O2"} {
				us = append(us, Unit{Name: "every height assignment " + p + "/" + c.Name, Run: func(w *W) *Viol {
					return w.heights(c, []string{p}, hs)
				}})
			}
			us = append(us, draws(c, pick2(th, 7, 5)))
		}
		r := Rules{Lin: true, Usable: true}
		o := bnd(r, 2)
		o.Control = flat
		o4 := o
		o4.Bound = 4
		hc := []uint8{1, 4, 5, 16}
		fs := []family{
			{name: "concurrent, two tall insertions", ss: product([][]Op{nil, parse("S1.1"), parse("S1.5")}, one(opsOf([]Kind{KStore, KLOS, KLazy}, k1, []uint8{4, 5, 16})), one(opsOf([]Kind{KStore, KLOS}, k12, hc))), o: o},
			{name: "concurrent, insertion and deletion", ss: product([][]Op{parse("S1.1"), parse("S1.4 S2.5"), parse("S1.16 S0.4"), parse("S0.5 S1.5")}, one(opsOf([]Kind{KLAD, KDel, KLoad, KRange}, k1, h1)), one(opsOf([]Kind{KStore, KLOS, KLazy}, k12, hc))), o: o},
			{name: "concurrent, tall towers", ss: tall, o: o, size: 1},
		}
		if th {
			fs = append(fs,
				family{name: "concurrent, two tall insertions, bound 4", ss: product([][]Op{nil, parse("S1.1"), parse("S1.5"), parse("S0.4 S2.16")}, one(opsOf([]Kind{KStore, KLOS, KLazy}, k1, hc)), one(opsOf([]Kind{KStore, KLOS, KDel}, k12, hc))), o: o4},
				family{name: "concurrent, three insertions", ss: product([][]Op{nil, parse("S1.5")}, one(opsOf([]Kind{KStore, KLOS}, k1, []uint8{1, 4, 5})), one(opsOf([]Kind{KLOS, KLazy}, k12, []uint8{4, 5})), one(opsOf([]Kind{KStore, KDel}, k12, []uint8{2, 16}))), o: o},
			)
		}
		return append(us, perClass(fs)...)
	}
}

func pick2(b bool, x, y int) int {
	if b {
		return x
	}
	return y
}

// heights runs every program with every assignment of heights to its insertions.
func (w *W) heights(c *Ctor, progs []string, hs []uint8) *Viol {
	var ev Ev
	for _, p := range progs {
		ops := parse(p)
		var ins []int
		for i, o := range ops {
			if inserts(o.K) {
				ins = append(ins, i)
			}
		}
		idx := make([]int, len(ins))
		for cnt := 0; ; cnt++ {
			for j, i := range ins {
				ops[i].H = hs[idx[j]]
			}
			if s := w.runSeq(c, ops, true, &ev); s != "" {
				if s = w.again(func() string { return w.runSeq(c, ops, true, &ev) }); s != "" {
					if w.runSeq(c, flat(Scen{Init: ops})[0].Init, true, &ev) != "" {
						w.otherCause(c, seqString(ops), s)
						return nil
					}
					v := w.viol(s)
					v.Ctor, v.Scenario = c.Name, seqString(ops)
					return v
				}
			}
			w.Stats.States++
			w.Stats.Scenarios++
			w.Stats.Transitions += len(ops)
			if cnt&255 == 0 {
				progress.Add(1)
				if w.expired() {
					w.Stats.Incomplete++
					return nil
				}
			}
			j := len(idx) - 1
			for j >= 0 {
				idx[j]++
				if idx[j] < len(hs) {
					break
				}
				idx[j] = 0
				j--
			}
			if j < 0 {
				break
			}
		}
	}
	return nil
}

// runs draws every number of growth answers from 0 to 199.
func runs(c *Ctor) Unit {
	return Unit{Name: "runs of growth draws/" + c.Name, Run: func(w *W) *Viol {
		var ev Ev
		for g := 1; g <= 200; g++ {
			for _, p := range []string{"S1 S2 L1 S1 D1 A2", "S1 O2 Z0 D2 O2 A0", "Z1 L1 O0 S0 D1"} {
				ops := parse(p)
				for i := range ops {
					if inserts(ops[i].K) && (i+g)%3 != 2 {
						ops[i].H = uint8(g)
					}
				}
				w.Stats.States++
				w.Stats.Scenarios++
				w.Stats.Transitions += len(ops)
				if s := w.runSeq(c, ops, true, &ev); s != "" {
					if s = w.again(func() string { return w.runSeq(c, ops, true, &ev) }); s != "" {
						if w.runSeq(c, flat(Scen{Init: ops})[0].Init, true, &ev) != "" {
							w.otherCause(c, seqString(ops), s)
							return nil
						}
						v := w.viol(s)
						v.Ctor, v.Scenario = c.Name, seqString(ops)
						return v
					}
				}
			}
			progress.Add(1)
		}
		return nil
	}}
}

// answers enumerates the answers of the random source, draw by draw: a tree
// whose branches at a draw in [0,n) are all n values for small n, and values
// with every short bit pattern for large n. After depth draws the rest is
// answered so that loops stop.
type answers struct {
	depth int
	block uint // bits of the repeated pattern for large ranges
	path  []uint64
	width []uint64
	pos   int
	raw   int // draws from a large range
	prob  float64
	extra int
}

func (a *answers) fn(n uint64) uint64 {
	if a.pos >= a.depth {
		a.extra++
		if a.extra > 300 {
			return vrt.Mix(uint64(a.extra), 7) % max(n, 1)
		}
		return n - 1
	}
	wd := n
	large := n == 0 || n > 64
	if large {
		wd = 1 << a.block
		a.raw++
	}
	if a.pos == len(a.path) {
		a.path = append(a.path, 0)
		a.width = append(a.width, wd)
	}
	v := a.path[a.pos]
	a.pos++
	a.prob /= float64(wd)
	if large {
		r := uint64(0)
		for s := uint(0); s < 64; s += a.block {
			r |= v << s
		}
		if n != 0 {
			if n&(n-1) == 0 {
				r &= n - 1
			} else {
				r %= n
			}
		}
		return r
	}
	return v
}

func (a *answers) start() { a.pos, a.raw, a.prob, a.extra = 0, 0, 1, 0 }

// advance moves to the next leaf; false when all are done.
func (a *answers) advance() bool {
	a.path, a.width = a.path[:a.pos], a.width[:a.pos]
	for i := len(a.path) - 1; i >= 0; i-- {
		a.path[i]++
		if a.path[i] < a.width[i] {
			a.path, a.width = a.path[:i+1], a.width[:i+1]
			return true
		}
	}
	return false
}

// draws enumerates every answer of the random source over the first draws of a program.
func draws(c *Ctor, depth int) Unit {
	return Unit{Name: "every answer of the random source/" + c.Name, Run: func(w *W) *Viol {
		defer func() { vrt.DrawFn = nil }()
		for _, p := range []string{"S1 O2 D1 Z0 A2 S1", "O1 S1 S0 A1 O1 L0"} {
			ops := parse(p)
			a := &answers{depth: depth, block: 2}
			var ev Ev
			for {
				run := func() string {
					a.start()
					vrt.DrawFn = a.fn
					defer func() { vrt.DrawFn = nil }()
					return w.runSeq(c, ops, true, &ev)
				}
				w.Stats.States++
				w.Stats.Scenarios++
				w.Stats.Transitions += len(ops)
				if s := run(); s != "" {
					if s = w.again(run); s != "" {
						vrt.DrawFn = nil
						if w.runSeq(c, flat(Scen{Init: ops})[0].Init, true, &ev) != "" {
							w.otherCause(c, seqString(ops), s)
							return nil
						}
						v := w.viol(s)
						v.Ctor, v.Scenario = c.Name, fmt.Sprintf("%s with draws %v", seqString(ops), a.path)
						return v
					}
				}
				if w.Stats.States&255 == 0 {
					progress.Add(1)
					if w.expired() {
						w.Stats.Incomplete++
						return nil
					}
				}
				if !a.advance() {
					break
				}
			}
		}
		return nil
	}}
}

// big runs structured histories on maps of n entries.
func big(c *Ctor) Unit {
	return Unit{Name: "64 entries, orders and shapes/" + c.Name, Run: func(w *W) *Viol {
		const n = 64
		var e Ev
		for _, in := range sorted(orders(n)) {
			for _, del := range sorted(orders(n)) {
				for _, sh := range sorted(shapes) {
					w.Stats.States++
					w.Stats.Scenarios++
					w.Stats.Transitions += 4 * n
					run := func() string {
						return w.seq(func(x *vrt.Exec) string {
							m, r := wides[c.Name](n), newRef(n)
							step := func(k Kind, i, v int) string {
								wideOp(m, &e, k, i, v, shapes[sh](i))
								return r.apply(&e)
							}
							for i := 0; i < n; i++ {
								if s := step([]Kind{KStore, KLOS, KLazy}[i%3], orders(n)[in](i), i+1); s != "" {
									return s
								}
								if i%8 == 7 {
									if s := r.compare(m); s != "" {
										return s
									}
								}
							}
							for i := 0; i < n; i += 3 {
								if s := step([]Kind{KStore, KLOS, KLazy}[i%3], i, i+1000); s != "" {
									return s
								}
							}
							for i := 0; i < n; i++ {
								if s := step([]Kind{KDel, KLAD}[i%2], orders(n)[del](i), 0); s != "" {
									return s
								}
								for _, j := range []int{i, (i * 5) % n} {
									if s := step(KLoad, j, 0); s != "" {
										return s
									}
								}
								if i%4 == 3 {
									if s := step([]Kind{KStore, KLOS, KLazy}[i%3], orders(n)[in](i), i+5000); s != "" {
										return s
									}
								}
								if i%8 == 7 {
									if s := r.compare(m); s != "" {
										return s
									}
								}
							}
							return ""
						})
					}
					progress.Add(1)
					if s := run(); s != "" {
						if s = w.again(run); s != "" {
							v := w.viol(s)
							v.Ctor, v.Scenario = c.Name, fmt.Sprintf("%d keys, inserted %s, deleted %s, heights %s", n, in, del, sh)
							return v
						}
					}
				}
			}
		}
		return nil
	}}
}

func sorted[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
