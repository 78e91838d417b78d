//go:build gc

package main

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"unsafe"
	"weak"

	"github.com/zhangyunhao116/skipmap"
	"verifmc/vrt"
)

// Reachability of removed data (C16). Values and, where the key type has
// pointers, keys are fresh heap objects watched through weak pointers. A batch
// of executions is kept (their maps stay reachable), the collector runs, and
// what must have been released is looked up.

// gobj is the value type: too big and too pointered for the tiny allocator.
type gobj struct {
	p   *gobj
	v   int
	pad [6]uint64
}

type gkey struct {
	p   *gkey
	k   int
	pad [6]uint64
}

type watched struct {
	code  int // value or key code
	alive func() bool
}

// gcRec is what one execution left behind.
type gcRec struct {
	m    Map
	vals []watched
	keys []watched
	// Set by finish.
	final model
	desc  func() (Scen, []uint8)
}

func (r *gcRec) val(v int) *gobj {
	o := &gobj{v: v}
	w := weak.Make(o)
	r.vals = append(r.vals, watched{v, func() bool { return w.Value() != nil }})
	return o
}

func unval(o *gobj) int {
	if o == nil {
		return 0
	}
	return o.v
}

func (r *gcRec) str(k int) string {
	s := strings.Clone(fmt.Sprintf("%d: a key that is too long for the tiny allocator of the runtime", k))
	w := weak.Make(unsafe.StringData(s))
	r.keys = append(r.keys, watched{k, func() bool { return w.Value() != nil }})
	return s
}

func (r *gcRec) ptr(k int) *gkey {
	o := &gkey{k: k}
	w := weak.Make(o)
	r.keys = append(r.keys, watched{k, func() bool { return w.Value() != nil }})
	return o
}

// gcMap stores fresh keys and values and looks up with other keys.
type gcMap[K any] struct {
	m      api[K, *gobj]
	r      *gcRec
	fresh  func(r *gcRec, k int) K // for operations that may insert
	lookup func(k int) K
	dec    func(K) int
}

func (a *gcMap[K]) Store(k, v int) { a.m.Store(a.fresh(a.r, k), a.r.val(v)) }
func (a *gcMap[K]) Load(k int) (int, bool) {
	v, ok := a.m.Load(a.lookup(k))
	return unval(v), ok
}
func (a *gcMap[K]) LoadOrStore(k, v int) (int, bool) {
	x, ok := a.m.LoadOrStore(a.fresh(a.r, k), a.r.val(v))
	return unval(x), ok
}
func (a *gcMap[K]) LoadOrStoreLazy(k int, f func() int) (int, bool) {
	x, ok := a.m.LoadOrStoreLazy(a.fresh(a.r, k), func() *gobj { return a.r.val(f()) })
	return unval(x), ok
}
func (a *gcMap[K]) LoadAndDelete(k int) (int, bool) {
	v, ok := a.m.LoadAndDelete(a.lookup(k))
	return unval(v), ok
}
func (a *gcMap[K]) Delete(k int) bool { return a.m.Delete(a.lookup(k)) }
func (a *gcMap[K]) Range(f func(k, v int) bool) {
	a.m.Range(func(k K, v *gobj) bool { return f(a.dec(k), unval(v)) })
}
func (a *gcMap[K]) Len() int { return a.m.Len() }

func gcPlain[K comparable, M api[K, *gobj]](f func() M, enc []K) func(r *gcRec) Map {
	at := func(k int) K { return enc[k] }
	return func(r *gcRec) Map {
		return &gcMap[K]{f(), r, func(_ *gcRec, k int) K { return enc[k] }, at, func(k K) int {
			for i := range enc {
				if enc[i] == k {
					return i
				}
			}
			return badKey
		}}
	}
}

var lookupStr = func() (s [NK]string) {
	for i := range s {
		s[i] = fmt.Sprintf("%d: a key that is too long for the tiny allocator of the runtime", i)
	}
	return
}()

func gcString[M api[string, *gobj]](f func() M, desc bool) func(r *gcRec) Map {
	code := func(k int) int {
		if desc {
			return NK - 1 - k
		}
		return k
	}
	return func(r *gcRec) Map {
		return &gcMap[string]{f(), r, func(r *gcRec, k int) string {
			s := r.str(code(k))
			r.keys[len(r.keys)-1].code = k
			return s
		}, func(k int) string { return lookupStr[code(k)] }, func(k string) int { return code(int(k[0] - '0')) }}
	}
}

var lookupPtr = func() (s [NK]*gkey) {
	for i := range s {
		s[i] = &gkey{k: i}
	}
	return
}()

func gcPtr(f func() *skipmap.FuncMap[*gkey, *gobj]) func(r *gcRec) Map {
	return func(r *gcRec) Map {
		return &gcMap[*gkey]{f(), r, (*gcRec).ptr, func(k int) *gkey { return lookupPtr[k] }, func(k *gkey) int { return k.k }}
	}
}

// gcMakers are the map types watched; key retention shows only where keys have pointers.
var gcMakers = map[string][]func(r *gcRec) Map{
	"NewInt":        {gcPlain(skipmap.NewInt[*gobj], ints[int](strconv.IntSize))},
	"NewIntDesc":    {gcPlain(skipmap.NewIntDesc[*gobj], rev(ints[int](strconv.IntSize)))},
	"NewInt32":      {gcPlain(skipmap.NewInt32[*gobj], ints[int32](32))},
	"NewInt32Desc":  {gcPlain(skipmap.NewInt32Desc[*gobj], rev(ints[int32](32)))},
	"NewInt64":      {gcPlain(skipmap.NewInt64[*gobj], ints[int64](64))},
	"NewInt64Desc":  {gcPlain(skipmap.NewInt64Desc[*gobj], rev(ints[int64](64)))},
	"NewUint":       {gcPlain(skipmap.NewUint[*gobj], uints[uint]())},
	"NewUintDesc":   {gcPlain(skipmap.NewUintDesc[*gobj], rev(uints[uint]()))},
	"NewUint32":     {gcPlain(skipmap.NewUint32[*gobj], uints[uint32]())},
	"NewUint32Desc": {gcPlain(skipmap.NewUint32Desc[*gobj], rev(uints[uint32]()))},
	"NewUint64":     {gcPlain(skipmap.NewUint64[*gobj], uints[uint64]())},
	"NewUint64Desc": {gcPlain(skipmap.NewUint64Desc[*gobj], rev(uints[uint64]()))},
	"NewString":     {gcString(skipmap.NewString[*gobj], false)},
	"NewStringDesc": {gcString(skipmap.NewStringDesc[*gobj], true)},
	"New":           {gcString(skipmap.New[string, *gobj], false)},
	"NewDesc":       {gcString(skipmap.NewDesc[string, *gobj], true)},
	"NewFunc": {gcPtr(func() *skipmap.FuncMap[*gkey, *gobj] {
		return skipmap.NewFunc[*gkey, *gobj](func(a, b *gkey) bool { return a.k < b.k })
	})},
	"NewFloat64":     {gcPlain(skipmap.NewFloat64[*gobj], []float64{-3, -2, -1, 0, 1, 2})},
	"NewFloat64Desc": {gcPlain(skipmap.NewFloat64Desc[*gobj], []float64{3, 2, 1, 0, -1, -2})},
	"NewFloat32":     {gcPlain(skipmap.NewFloat32[*gobj], []float32{-3, -2, -1, 0, 1, 2})},
	"NewFloat32Desc": {gcPlain(skipmap.NewFloat32Desc[*gobj], []float32{3, 2, 1, 0, -1, -2})},
}

// gcOf are the makers for a constructor; a class represented by an integer type
// is also watched with string keys.
func gcOf(c *Ctor) []func(r *gcRec) Map {
	ms := gcMakers[c.Name]
	if c.Name == "NewInt" && classes["NewString"] == "NewInt" {
		ms = append(ms[:1:1], gcMakers["NewString"]...)
	}
	if c.Name == "NewIntDesc" && classes["NewStringDesc"] == "NewIntDesc" {
		ms = append(ms[:1:1], gcMakers["NewStringDesc"]...)
	}
	return ms
}

// leak says what r keeps reachable although it must not; "" if nothing.
func (r *gcRec) leak(live *int) string {
	for _, v := range r.vals {
		isLive := false
		for _, f := range r.final {
			isLive = isLive || f == v.code
		}
		a := v.alive()
		if a && isLive {
			*live++
		}
		if a && !isLive {
			return fmt.Sprintf("value %d was removed or replaced but is still reachable through the map (contents %s)", v.code, &r.final)
		}
	}
	var n [NK]int
	for _, k := range r.keys {
		if k.alive() {
			n[k.code]++
		}
	}
	for k, c := range n {
		if r.final[k] == absent && c > 0 {
			return fmt.Sprintf("the key of a removed entry k%d is still reachable through the map (contents %s)", k, &r.final)
		}
		if c > 1 {
			return fmt.Sprintf("%d keys of entries k%d are reachable through the map, one entry is present", c, k)
		}
	}
	return ""
}

// collect runs the collector with nothing of an execution on any stack.
func (w *W) collect(n int) {
	w.ex.X.Reset()
	for i := 0; i < n; i++ {
		runtime.GC()
	}
}

// gcSeq runs ops on a new map.
func (w *W) gcSeq(mk func(r *gcRec) Map, ops []Op) *gcRec {
	r := &gcRec{}
	s := w.seq(func(x *vrt.Exec) string {
		r.m = mk(r)
		r.final = newModel()
		var ev Ev
		for i, o := range ops {
			ev = Ev{Op: o, Val: 10 + i}
			ev.exec(r.m)
			if s := r.final.apply(&ev); s != "" {
				return s
			}
			if n := len(r.vals); n > 0 && r.vals[n-1].code == ev.Val && ev.K != KStore && ev.OK {
				r.vals = r.vals[:n-1] // not stored: not judged
			}
		}
		return ""
	})
	if s != "" {
		return nil // wrong results or an operation that does not return: other properties
	}
	w.Stats.States++
	return r
}

// gcUnit runs every sequence of n operations and then looks at what is reachable.
func gcUnit(name string, c *Ctor, seqs func(yield func([]Op) bool)) Unit {
	return Unit{Name: name + "/" + c.Name, Run: func(w *W) *Viol {
		for _, mk := range gcOf(c) {
			type item struct {
				r   *gcRec
				ops []Op
			}
			var batch []item
			live := 0
			flush := func() *Viol {
				w.collect(1)
				progress.Add(1)
				for _, it := range batch {
					if it.r.leak(&live) == "" {
						continue
					}
					// Again, alone, five times.
					msg := ""
					for i := 0; i < 5; i++ {
						r := w.gcSeq(mk, it.ops)
						w.gcSeq(mk, nil)
						if r == nil {
							msg = ""
							break
						}
						w.collect(3)
						if msg = r.leak(&live); msg == "" {
							break
						}
						runtime.KeepAlive(r)
					}
					if msg == "" {
						w.Stats.Unstable++
						continue
					}
					v := w.viol(msg)
					v.Ctor, v.Scenario = c.Name, seqString(it.ops)
					return v
				}
				runtime.KeepAlive(batch)
				clear(batch)
				batch = batch[:0]
				return nil
			}
			for ops := range seqs {
				if w.expired() {
					w.Stats.Incomplete++
					return nil
				}
				w.Stats.Scenarios++
				w.Stats.Transitions += len(ops)
				if r := w.gcSeq(mk, ops); r != nil {
					batch = append(batch, item{r, append([]Op(nil), ops...)})
				} else {
					w.count("sequences with wrong results (not judged here)", 1)
				}
				if len(batch) >= 2000 {
					if v := flush(); v != nil {
						return v
					}
				}
			}
			if v := flush(); v != nil {
				return v
			}
			w.count("present values that were reachable, as they must be", live)
		}
		return nil
	}}
}

// heightPatterns runs yield with the insertions of ops taking heights from each pattern.
func heightPatterns(alpha []Op, n int, pats [][]uint8) func(yield func([]Op) bool) {
	return func(yield func([]Op) bool) {
		ops := make([]Op, n)
		idx := make([]int, n)
		for {
			for i := range idx {
				ops[i] = alpha[idx[i]]
			}
			for _, p := range pats {
				j := 0
				for i := range ops {
					if inserts(ops[i].K) {
						ops[i].H = p[j%len(p)]
						j++
					}
				}
				if !yield(ops) {
					return
				}
				if j == 0 {
					break
				}
			}
			i := n - 1
			for i >= 0 {
				idx[i]++
				if idx[i] < len(alpha) {
					break
				}
				idx[i] = 0
				i--
			}
			if i < 0 {
				return
			}
		}
	}
}

// gcProg is a concurrent scenario whose executions are kept for the collector.
type gcProg struct {
	*Prog
	w     *W
	cur   *gcRec
	batch []*gcRec
	live  int
	bad   *gcRec
}

func (p *gcProg) Setup(x *vrt.Exec) []func() {
	if len(p.batch) >= 1000 && p.bad == nil {
		p.flush()
	}
	p.cur = nil
	b := p.Prog.Setup(x) // calls Ctor.Mk, which sets cur
	return b
}

func (p *gcProg) Check(x *vrt.Exec) string {
	p.Prog.ms[0].Len()
	if p.bad != nil {
		return "leak"
	}
	r := p.cur
	r.final = newModel()
	for k := 0; k < NK; k++ {
		if v, ok := r.m.Load(k); ok {
			r.final[k] = v
		}
	}
	// Values that were never stored are not judged.
	keep := r.vals[:0]
	for _, v := range r.vals {
		for i := range p.evs {
			e := &p.evs[i]
			if e.Val == v.code && inserts(e.K) && !(e.OK && e.K != KStore) {
				keep = append(keep, v)
			}
		}
	}
	r.vals = keep
	sched := append([]uint8(nil), x.Schedule...)
	s := p.S
	r.desc = func() (Scen, []uint8) { return s, sched }
	p.batch = append(p.batch, r)
	p.judged++
	return ""
}

func (p *gcProg) Bad(x *vrt.Exec) string { return "" }

func (p *gcProg) flush() {
	p.cur, p.Prog.ms[0] = nil, nil
	for i := 0; i < 2; i++ {
		runtime.GC()
	}
	progress.Add(1)
	for _, r := range p.batch {
		if r.leak(&p.live) != "" && p.bad == nil {
			p.bad = r
		}
	}
	runtime.KeepAlive(p.batch)
	clear(p.batch)
	p.batch = p.batch[:0]
}

// gcExplore enumerates the executions of s.
func (w *W) gcExplore(c *Ctor, mk func(r *gcRec) Map, s Scen, bound int) *Viol {
	e := w.ex
	var p *gcProg
	cc := &Ctor{Name: c.Name, Mk: func() Map {
		r := &gcRec{}
		r.m = mk(r)
		p.cur = r
		return r.m
	}}
	p = &gcProg{Prog: &Prog{S: s, Ctor: cc}, w: w}
	e.Bound = bound
	e.X.RaceMode, e.X.ValueMode = false, true
	e.Execs, e.States, e.Transitions, e.Steps, e.Pruned, e.MaxDepth, e.Diverged, e.Incomplete = 0, 0, 0, 0, 0, 0, 0, false
	e.Stop = func() bool {
		progress.Add(1)
		return e.States > maxStates || w.expired() || p.bad != nil
	}
	e.Explore(p)
	w.Stats.Execs += e.Execs
	w.Stats.States += e.States
	w.Stats.Transitions += e.Transitions
	w.Stats.Steps += e.Steps
	w.Stats.Pruned += e.Pruned
	w.Stats.MaxDepth = max(w.Stats.MaxDepth, e.MaxDepth)
	w.Stats.Diverged += e.Diverged
	w.Stats.Histories += p.judged
	w.Stats.Scenarios++
	if p.bad == nil {
		if e.Incomplete {
			w.Stats.Incomplete++
		}
		e.X.Reset()
		p.flush()
	}
	w.count("present values that were reachable, as they must be", p.live)
	if p.bad == nil {
		w.sample(fmt.Sprintf("%s %s: %d executions kept and collected", c.Name, s, p.judged))
		return nil
	}
	// Replay the schedule alone five times.
	_, sched := p.bad.desc()
	msg := ""
	for i := 0; i < 5; i++ {
		q := &gcProg{Prog: &Prog{S: s, Ctor: cc}, w: w}
		p = q
		e.Replay(q, sched, nil)
		w.gcSeq(mk, nil)
		w.collect(1)
		if len(q.batch) != 1 {
			msg = ""
			break
		}
		r := q.batch[0]
		q.cur, q.Prog.ms[0] = nil, nil
		w.collect(3)
		msg = r.leak(&q.live)
		runtime.KeepAlive(r)
		if msg == "" {
			break
		}
	}
	if msg == "" {
		w.Stats.Unstable++
		w.note("something was not collected at once: " + c.Name + " " + s.String())
		return nil
	}
	var tr []string
	q := &gcProg{Prog: &Prog{S: s, Ctor: cc}, w: w}
	p = q
	e.Replay(q, sched, func(l string) {
		if len(tr) < 400 {
			tr = append(tr, l)
		}
	})
	v := w.viol(msg + "\n" + q.report(""))
	v.Ctor, v.Scenario, v.Schedule, v.Preempt = c.Name, s.String(), sched, bound
	v.Trace = strings.Join(tr, "\n")
	return v
}

func init() {
	checks["C16"] = func(th bool) []Unit {
		var us []Unit
		alpha := append(opsOf([]Kind{KStore, KLAD, KDel}, k12, h1), opsOf([]Kind{KLOS, KLazy}, k1, h1)...)
		pats := [][]uint8{{1}, {5, 1}, {2, 4, 1}}
		for i := range ctors {
			us = append(us, gcUnit("all sequences of 3", &ctors[i], heightPatterns(alpha, 3, pats)))
		}
		three := opsOf([]Kind{KStore, KDel}, k012, h1)
		for _, c := range reprs {
			for i := range alpha {
				us = append(us, gcUnit(fmt.Sprintf("all sequences of 5 (%d)", i), c, func(yield func([]Op) bool) {
					heightPatterns(alpha, 4, pats)(func(o []Op) bool {
						f := alpha[i]
						if inserts(f.K) {
							f.H = 3
						}
						return yield(append([]Op{f}, o...))
					})
				}))
			}
			us = append(us, gcUnit("three keys", c, heightPatterns(three, 5, [][]uint8{{1}, {3, 1, 5}})))
			us = append(us, gcUnit("all heights", c, func(yield func([]Op) bool) {
				for a := uint8(1); a <= 16; a++ {
					for b := uint8(1); b <= 16; b++ {
						for _, t := range []string{"S1 S2 D1", "S1 S2 A2", "S2 S1 D1 D2", "O1 Z2 A1 A2", "S1 S2 S1 D2", "Z1 D1 S1 S2"} {
							ops := parse(t)
							h := []uint8{a, b}
							for i := range ops {
								if inserts(ops[i].K) {
									ops[i].H, h = h[0], append(h[1:len(h):len(h)], h[0])
								}
							}
							if !yield(ops) {
								return
							}
						}
					}
				}
			}))
		}
		type fam struct {
			name  string
			ss    []Scen
			bound int
		}
		fs := []fam{
			{"1+1 updates", product(inits(k012, h2), one(opsOf(upd, k1, h12)), one(opsOf(upd, k12, h12))), -1},
			{"1+2 updates", product(inits(k12, h1), one(opsOf(upd, k1, h2)), two(opsOf([]Kind{KStore, KLAD, KDel}, k12, h1))), 2},
			{"1+1+1 updates", product(inits(k12, h2), one(opsOf([]Kind{KStore, KDel}, k1, h2)), one(opsOf([]Kind{KStore, KLAD}, k12, h1)), one(opsOf([]Kind{KStore, KDel}, k12, h2))), 2},
			{"reader + 2 updates", product(inits(k12, h1), many("L1", "R"), two(opsOf([]Kind{KStore, KDel}, k12, h1))), 2},
			{"tall towers", tall, 1},
		}
		if th {
			fs = append(fs,
				fam{"1+2 updates, bound 3", product(inits(k012, h2), one(opsOf(upd, k1, h2)), two(opsOf(upd, k12, h1))), 3},
				fam{"1+1+1 updates, all kinds", product(inits(k12, h12), one(opsOf(upd, k1, h2)), one(opsOf(upd, k12, h1)), one(opsOf(upd, k12, h2))), 2},
				fam{"2+2 updates", product(inits(k1, h1), two(opsOf(upd, k1, h2)), two(opsOf(upd, k1, h1))), 2},
				fam{"tall towers, bound 3", tall, 3},
			)
			for _, c := range reprs {
				for i := range alpha {
					for j := range alpha {
						us = append(us, gcUnit(fmt.Sprintf("all sequences of 6 (%d %d)", i, j), c, func(yield func([]Op) bool) {
							heightPatterns(alpha, 4, pats)(func(o []Op) bool {
								f := []Op{alpha[i], alpha[j]}
								for n := range f {
									if inserts(f[n].K) {
										f[n].H = uint8(3 + 2*n)
									}
								}
								return yield(append(f, o...))
							})
						}))
					}
				}
			}
		}
		for _, f := range fs {
			ss := filter(f.ss, interacting)
			n := max(4, len(ss)/32)
			for i := 0; i < len(ss); i += n {
				part := ss[i:min(len(ss), i+n)]
				for _, c := range reprs {
					us = append(us, Unit{Name: fmt.Sprintf("concurrent, %s/%s/%d", f.name, c.Name, i/n), Run: func(w *W) *Viol {
						ms := gcOf(c)
						for j, s := range part {
							if w.expired() {
								w.Stats.Incomplete += len(part) - j
								break
							}
							if v := w.gcExplore(c, ms[len(ms)-1], s, f.bound); v != nil {
								return v
							}
						}
						return nil
					}})
				}
			}
		}
		return us
	}
}
