package main

import (
	"fmt"
	"strings"
	"time"

	"verifmc/vrt"
)

// Opt selects how a scenario is explored.
type Opt struct {
	Rules Rules
	Big   bool
	Two   bool
	Fresh bool
	Ctor2 *Ctor
	Race  bool // hash lock release order too, so that every happens-before relation is covered
	Bound int  // preemption bound, -1 none
	Limit time.Duration
	// Long: the last thread runs many operations and is never preempted.
	Long bool
	// Lockstep: the last thread runs one whole operation after every n-th step of
	// the first, for every n in turn.
	Lockstep []int
	// Control gives programs that lack what the property is about: a violation
	// that they show too does not count against this property.
	Control func(s Scen) []Scen
	Before  func(p *Prog)
	After   func(p *Prog, x *vrt.Exec) string
}

// lockstep is a schedule in which thread last runs one whole operation again
// and again while thread 1 runs one: after every n-th step of it, for n > 0;
// before it acquires a lock, for n = 0; when an iteration of its outermost loop
// has run -n steps, for n < 0.
func lockstep(n, last int) func(x *vrt.Exec, enabled []uint8) uint8 {
	steps, inOp, base, was := 0, false, uint32(0), -1
	return func(x *vrt.Exec, enabled []uint8) uint8 {
		has := func(t int) bool {
			for _, e := range enabled {
				if int(e) == t {
					return true
				}
			}
			return false
		}
		if inOp && x.Completed[last] != base {
			inOp, steps = false, 0
			if n == 0 && has(1) {
				return 1 // it does take that lock
			}
		}
		if !inOp {
			t := x.Threads[0]
			switch {
			case n > 0:
				inOp = steps >= n
			case n == 0:
				inOp = t.AtLock()
			default:
				at := t.Attempt()
				inOp = at == -n && was != at
				was = at
			}
			base = x.Completed[last]
		}
		if inOp && has(last) {
			return uint8(last)
		}
		if has(1) {
			steps++
			return 1
		}
		return enabled[0]
	}
}

// locksteps are all lockstep schedules up to n.
func locksteps(n int) []int {
	r := []int{0}
	for i := 1; i <= n; i++ {
		r = append(r, i, -i)
	}
	return r
}

const maxStates = 3_000_000

// explore enumerates every execution of s and judges each.
func (w *W) explore(c *Ctor, s Scen, o Opt) *Viol {
	p := &Prog{S: s, Ctor: c, Big: o.Big, Two: o.Two, Fresh: o.Fresh, Ctor2: o.Ctor2, Rules: o.Rules, before: o.Before, after: o.After}
	e := w.ex
	e.Bound = o.Bound
	e.X.RaceMode = o.Race
	e.X.ValueMode = !o.Race
	e.X.BlockMode = o.Rules.WaitFree || o.Rules.NoBlock
	e.X.BlockSoft = o.Rules.NoBlock && !o.Rules.WaitFree
	e.Horizon, e.Solo, e.Pick = 20000+20*len(s.Init), 0, nil
	if o.Long || o.Lockstep != nil {
		e.Horizon = 400_000 + 200*len(s.Th[len(s.Th)-1])
	}
	if o.Long {
		e.Solo = 1 << len(s.Th)
	}
	e.Execs, e.States, e.Transitions, e.Steps, e.Pruned, e.MaxDepth, e.Diverged, e.Incomplete = 0, 0, 0, 0, 0, 0, 0, false
	var lim time.Time
	if o.Limit > 0 {
		lim = time.Now().Add(o.Limit)
	}
	e.Stop = func() bool {
		progress.Add(1)
		return e.States > maxStates || w.expired() || !lim.IsZero() && time.Now().After(lim)
	}
	var v *vrt.Violation
	if o.Lockstep == nil {
		v = e.Explore(p)
	}
	for _, n := range o.Lockstep {
		e.Pick, e.Bound = lockstep(n, len(s.Th)), 0
		p.seen = nil
		if v = e.Explore(p); v != nil || e.Incomplete {
			break
		}
		e.States += len(e.X.Schedule)
		e.Transitions += len(e.X.Schedule)
	}
	e.Pick = nil
	w.Stats.Execs += e.Execs
	w.Stats.States += e.States
	w.Stats.Transitions += e.Transitions
	w.Stats.Steps += e.Steps
	w.Stats.Pruned += e.Pruned
	w.Stats.MaxDepth = max(w.Stats.MaxDepth, e.MaxDepth)
	w.Stats.Diverged += e.Diverged
	w.Stats.Scenarios++
	w.Stats.Histories += p.judged
	progress.Add(1)
	if e.Incomplete {
		w.Stats.Incomplete++
		w.note(fmt.Sprintf("not fully explored (%s): %s: %s", c.Name, s, pick(e.Diverged > 0, "execution not reproducible", "time or state limit")))
	}
	if v == nil {
		w.sample(fmt.Sprintf("%s %s: %d executions, %d states, %d distinct histories", c.Name, s, e.Execs, e.States, p.judged))
		return nil
	}
	r := w.confirm(c, p, v)
	if r != nil && o.Control != nil {
		for _, cs := range o.Control(s) {
			co := o
			co.Control, co.Limit = nil, 20*time.Second
			if cs.String() != s.String() && w.explore(c, cs, co) != nil {
				w.otherCause(c, s.String(), r.Msg)
				return nil
			}
		}
	}
	return r
}

// otherCause records a violation that is not one of the property under check.
func (w *W) otherCause(c *Ctor, scen, msg string) {
	w.count("failures not attributed to this property", 1)
	w.note(fmt.Sprintf("fails for a reason outside this property (%s): %s: %s", c.Name, scen, firstLine(msg)))
}

// flat is s with all towers of height 1.
func flat(s Scen) []Scen {
	low := func(ops []Op) []Op {
		r := append([]Op(nil), ops...)
		for i := range r {
			if inserts(r[i].K) {
				r[i].H = 1
			}
		}
		return r
	}
	f := Scen{Init: low(s.Init)}
	for _, t := range s.Th {
		f.Th = append(f.Th, low(t))
	}
	return []Scen{f}
}

// only is s restricted to the operations that ok accepts.
func only(s Scen, ok func(o *Op) bool) Scen {
	keep := func(ops []Op) []Op {
		r := []Op{}
		for _, o := range ops {
			if ok(&o) {
				r = append(r, o)
			}
		}
		return r
	}
	f := Scen{Init: keep(s.Init)}
	for _, t := range s.Th {
		if u := keep(t); len(u) > 0 {
			f.Th = append(f.Th, u)
		}
	}
	return f
}

// apart is s on each of its two maps alone.
func apart(s Scen) []Scen {
	return []Scen{only(s, func(o *Op) bool { return o.M == 0 }), only(s, func(o *Op) bool { return o.M == 1 })}
}

// healthy is s with callbacks that neither fail nor do anything.
func healthy(s Scen) []Scen {
	return []Scen{only(s, func(o *Op) bool {
		o.Sub = Sub{}
		if o.K == KRangeP || o.K == KRangeS {
			o.K = KRange
		}
		return o.K != KLazyP
	})}
}

func pick(b bool, x, y string) string {
	if b {
		return x
	}
	return y
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// confirm replays a violating schedule five times and looks for one with fewer preemptions.
func (w *W) confirm(c *Ctor, p *Prog, v *vrt.Violation) *Viol {
	e := w.ex
	same := func(sched []uint8) (string, bool) {
		msg := ""
		for i := 0; i < 5; i++ {
			p.seen = nil
			_, m := e.Replay(p, sched, nil)
			if m == "" {
				return "", false
			}
			msg = m
		}
		return msg, true
	}
	msg, ok := same(v.Schedule)
	if !ok {
		w.Stats.Unstable++
		w.note("a failing schedule did not fail again: " + c.Name + " " + p.S.String() + ": " + firstLine(v.Msg))
		return nil
	}
	sched, bound := v.Schedule, v.Bound
	if v.Bound < 0 || v.Bound > 0 {
		for b := 0; b <= 3; b++ {
			if v.Bound >= 0 && b >= v.Bound {
				break
			}
			e.Bound = b
			p.seen = nil
			t := time.Now().Add(10 * time.Second)
			e.Stop = func() bool { progress.Add(1); return time.Now().After(t) }
			if nv := e.Explore(p); nv != nil {
				if m, ok := same(nv.Schedule); ok {
					sched, msg, bound = nv.Schedule, m, b
					break
				}
			}
		}
	}
	var tr []string
	p.seen = nil
	e.Replay(p, sched, func(s string) {
		if len(tr) < 400 {
			tr = append(tr, s)
		}
	})
	r := w.viol(msg)
	r.Ctor, r.Scenario, r.Schedule, r.Preempt = c.Name, p.S.String(), sched, bound
	r.Trace = strings.Join(tr, "\n")
	return r
}

// warmUp runs every operation once so that lazily built state exists before exploring.
func warmUp() {
	w := newW()
	w.ex.Seq(func(x *vrt.Exec) {
		for i := range ctors {
			m := ctors[i].Mk()
			for k := 0; k < NK; k++ {
				m.Store(k, k)
				m.LoadOrStore(k, 1)
				m.LoadOrStoreLazy(k, func() int { return 2 })
			}
			m.Range(func(k, v int) bool { return true })
			for k := 0; k < NK; k++ {
				m.Load(k)
				m.LoadAndDelete(k)
				m.Delete(k)
			}
		}
	})
	calibrate()
	vrt.SnapshotGlobals()
}
