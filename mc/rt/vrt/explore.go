package vrt

import "fmt"

type node struct {
	order  [MaxT]uint8 // enabled threads in canonical order
	n      uint8
	idx    uint8
	closed bool // no alternatives allowed here (preemption bound)
	cost   bool // the running thread was still enabled here
}

// Explorer enumerates the executions of one scenario.
type Explorer struct {
	X        *Exec
	path     []node
	plen     int // prefix to replay
	visited  map[uint64]int8
	workers  []*worker
	Bound    int // preemption bound, -1: none
	Horizon  int
	replay   []uint8
	replayOn bool

	// Statistics.
	Execs, States, Transitions, Steps, Pruned, MaxDepth, Diverged int
	startHold                                                     bool
	Stop                                                          func() bool // polled between executions
	Incomplete                                                    bool

	Solo uint8 // bit set of threads that are never preempted
	// Pick, if set, is a fixed scheduling policy: it selects one of the enabled
	// threads, and exactly one execution is explored.
	Pick func(x *Exec, enabled []uint8) uint8

	names map[*loc]int

	// Waits that were tried alone, by loop: how many did not end, how many ended; not tried again.
	ffFail, ffDone map[uint32]int
	ffOff          map[uint32]bool
}

func NewExplorer() *Explorer {
	e := &Explorer{X: NewExec(), Bound: -1, Horizon: 20000, ffFail: map[uint32]int{}, ffDone: map[uint32]int{}, ffOff: map[uint32]bool{}}
	e.X.e = e
	return e
}

func (e *Explorer) locName(l *loc) string {
	if e.names == nil {
		e.names = map[*loc]int{}
	}
	n, ok := e.names[l]
	if !ok {
		n = len(e.names)
		e.names[l] = n
	}
	return fmt.Sprintf("@%d", n)
}

// diverge records that a replayed prefix did not behave as before.
func (x *Exec) diverge(msg string) {
	if x.Diverged == "" {
		x.Diverged = msg
	}
	x.abort = true
	panic(abortSentinel)
}

// decide returns the thread to run next.
func (x *Exec) decide() *Thread {
	e := x.e
	var order [MaxT]uint8
	n := 0
	cost := false
	if x.lastRun != nil && x.lastRun.enabled() {
		order[0] = uint8(x.lastRun.ID)
		n = 1
		cost = true
	}
	for _, t := range x.Threads {
		if t != x.lastRun && t.enabled() {
			order[n] = uint8(t.ID)
			n++
		}
	}
	if n == 0 {
		again := false
		for _, t := range x.Threads {
			again = again || t.yield && !t.done
			t.yield = false
		}
		if again {
			return x.decide()
		}
		return x.stuck()
	}
	solo := cost && e.Solo>>order[0]&1 == 1
	if e.Pick != nil && !e.replayOn {
		return x.choose(e.Pick(x, order[:n]))
	}
	for _, t := range x.Threads {
		if t.spin && t.ffOK && !t.done {
			order[n] = uint8(t.ID)
			n++
		}
	}
	if solo && !e.replayOn {
		return x.choose(order[0])
	}
	if e.replayOn {
		d := len(x.Schedule)
		pick := order[0]
		if d < len(e.replay) {
			pick = e.replay[d]
			ok := false
			for i := 0; i < n; i++ {
				ok = ok || order[i] == pick
			}
			if !ok {
				x.diverge(fmt.Sprintf("replay: thread %d not enabled at step %d", pick, d))
			}
		}
		return x.choose(pick)
	}
	if n == 1 {
		return x.choose(order[0])
	}
	d := x.depth
	x.depth++
	if d < len(e.path) {
		nd := &e.path[d]
		if nd.n != uint8(n) || nd.order != order {
			x.diverge(fmt.Sprintf("replay: enabled set differs at decision %d: %v vs %v", d, nd.order[:nd.n], order[:n]))
		}
		pick := nd.order[nd.idx]
		if nd.idx > 0 && nd.cost {
			x.preempts++
		}
		return x.choose(pick)
	}
	// New decision point.
	sig := x.memSig
	for _, t := range x.Threads {
		s := t.h
		if t.done {
			s = 0xd0 // results are part of h until done; keep them
			s = Mix(t.h, s)
		}
		if t.spin {
			s = Mix(s, 0x51)
			if t.ffOK {
				s = Mix(s, 0x52)
			}
		}
		if t.yield {
			s = Mix(s, 0x53)
		}
		sig += Mix(s, uint64(t.ID)*2654435761)
	}
	rem := int8(0)
	if e.Bound >= 0 {
		rem = int8(e.Bound - x.preempts)
		lr := uint64(99)
		if cost {
			lr = uint64(order[0])
		}
		sig = Mix(sig, lr)
	}
	if old, ok := e.visited[sig]; ok && old >= rem {
		e.Pruned++
		x.pruned = true
		x.abort = true
		panic(abortSentinel)
	}
	e.visited[sig] = rem
	e.States++
	e.Transitions++
	nd := node{order: order, n: uint8(n), cost: cost, closed: e.Bound >= 0 && cost && x.preempts >= e.Bound}
	e.path = append(e.path, nd)
	if d+1 > e.MaxDepth {
		e.MaxDepth = d + 1
	}
	return x.choose(order[0])
}

func (x *Exec) choose(id uint8) *Thread {
	x.e.Steps++
	x.Schedule = append(x.Schedule, id)
	t := x.Threads[id-1]
	x.lastRun = t
	if t.spin && t.ffOK {
		t.spin, t.ffOK, t.ff, t.ffIter = false, false, true, 0
	}
	return t
}

// stuck handles a state in which no thread can be scheduled normally.
func (x *Exec) stuck() *Thread {
	var spinner *Thread
	live := 0
	for _, t := range x.Threads {
		if !t.done {
			live++
			if t.spin && spinner == nil && !t.spinOK {
				spinner = t
			}
		}
	}
	if live == 0 {
		return nil
	}
	if spinner != nil {
		// Let it run on without spin detection: a bounded wait ends.
		spinner.spin = false
		spinner.spinOK, spinner.spinN = true, 0
		return x.choose(uint8(spinner.ID))
	}
	own := false
	for _, t := range x.Threads {
		own = own || !t.done && !t.bg
	}
	if !own {
		x.bgStop, x.abort = true, true
		if x.cur != nil {
			panic(abortSentinel)
		}
		return nil
	}
	msg, kind := "", "deadlock"
	for _, t := range x.Threads {
		if !t.done {
			why := "waits"
			if t.waitMu != nil || t.waitRW != nil {
				why = "waits for a lock"
			} else if t.spin || t.spinOK {
				why, kind = "retries forever", "livelock"
			}
			msg += fmt.Sprintf("thread %d %s; ", t.ID, why)
		}
	}
	if x.Failure == "" {
		x.FailKind, x.Failure = kind, "no thread can proceed: "+msg
		if x.Trace != nil {
			x.Trace("!! " + kind + ": " + msg)
		}
	}
	x.abort = true
	if x.cur != nil {
		panic(abortSentinel)
	}
	return nil
}

// Program is one scenario: Setup runs sequentially on a fresh execution and
// returns the thread bodies; Check judges a finished execution.
type Program interface {
	Setup(x *Exec) []func()
	// Check is called in sequential mode after a complete execution; it may
	// run further operations. A non-empty string is a violation.
	Check(x *Exec) string
	// Bad judges an execution that ended in a failure; "" ignores it.
	Bad(x *Exec) string
}

// Violation describes a failing execution.
type Violation struct {
	Msg      string
	Schedule []uint8
	Bound    int
}

// runOne runs one execution along the current path.
func (e *Explorer) runOne(p Program) (out Outcome, msg string) {
	x := e.X
	x.Reset()
	X = x
	e.Execs++
	restoreGlobals()
	defer func() { x.cur = nil; X = nil }()
	var bodies []func()
	if s := x.guard(func() { bodies = p.Setup(x); x.force() }); s != "" {
		return Bad, p.Bad(x)
	}
	x.seq.vc[0]++
	if len(x.Threads) != len(bodies) {
		x.Threads = nil
		for i := range bodies {
			x.Threads = append(x.Threads, &Thread{ID: i + 1})
		}
	}
	for len(e.workers) < len(bodies) {
		e.workers = append(e.workers, newWorker())
	}
	for i, t := range x.Threads {
		w := e.workers[i]
		sites, wake, ffw := t.sites, t.wake, t.ffWake
		*t = Thread{ID: i + 1, sites: sites, wake: wake[:0], ffWake: ffw[:0]}
		t.vc = x.seq.vc
		t.vc[t.ID] = 1
		t.h = uint64(0x5000 + i)
		w.t, w.body = t, bodies[i]
		t.w = w
	}
	// Start: let every thread run to its first visible operation.
	started := 0
	for i, t := range x.Threads {
		x.cur = t
		x.nextT = nil
		started++
		w := e.workers[i]
		e.startHold = true
		w.next()
		e.startHold = false
		if x.abort {
			break
		}
	}
	if !x.abort {
		x.cur = nil
		x.lastRun = nil
		x.loop()
	}
	if x.abort {
		for i := range x.Threads {
			t := x.Threads[i]
			if (i < started || t.bg) && !t.done {
				x.cur = t
				t.w.next()
			}
		}
	}
	x.cur = nil
	if x.bgStop {
		x.abort, x.bgStop = false, false
	}
	if x.Diverged != "" {
		e.Diverged++
		return Pruned, ""
	}
	if x.pruned {
		return Pruned, ""
	}
	if x.Failure != "" {
		return Bad, p.Bad(x)
	}
	for _, t := range x.Threads {
		x.seq.vc.join(&t.vc)
	}
	x.seq.vc[0]++
	if s := x.guard(func() { msg = p.Check(x) }); s != "" {
		return Bad, p.Bad(x)
	}
	if msg != "" {
		return Complete, msg
	}
	return Complete, ""
}

func (x *Exec) guard(f func()) (s string) {
	defer func() {
		if r := recover(); r != nil {
			if x.Failure == "" {
				x.FailKind, x.Failure = "panic", fmt.Sprint(r)
			}
			s = x.Failure
		}
	}()
	f()
	return ""
}

func (x *Exec) loop() {
	t := x.e.safeDecide(x)
	for t != nil && !x.abort {
		x.cur = t
		x.nextT = nil
		t.w.next()
		if x.abort {
			return
		}
		if t.done {
			x.cur = nil
			t = x.e.safeDecide(x)
			continue
		}
		t = x.nextT
	}
}

// safeDecide calls decide outside any thread; pruning and failures are turned into flags.
func (e *Explorer) safeDecide(x *Exec) (t *Thread) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(*abortT); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return x.decide()
}

// Explore enumerates all executions of p (up to Bound preemptions).
func (e *Explorer) Explore(p Program) *Violation {
	e.visited = map[uint64]int8{}
	for s, n := range e.ffFail {
		if n >= 32 && e.ffDone[s] == 0 {
			e.ffOff[s] = true
		}
	}
	e.path = e.path[:0]
	e.replayOn = false
	e.names = nil
	for {
		_, msg := e.runOne(p)
		if e.Diverged > 0 {
			e.Incomplete = true
			return nil
		}
		if msg != "" {
			return &Violation{Msg: msg, Schedule: append([]uint8(nil), e.X.Schedule...), Bound: e.Bound}
		}
		// Backtrack.
		i := len(e.path) - 1
		for i >= 0 && (e.path[i].closed || e.path[i].idx+1 >= e.path[i].n) {
			i--
		}
		if i < 0 {
			return nil
		}
		e.path = e.path[:i+1]
		e.path[i].idx++
		e.Transitions++
		if e.Execs&63 == 0 && e.Stop != nil && e.Stop() {
			e.Incomplete = true
			return nil
		}
	}
}

// Replay runs p once along a recorded schedule.
func (e *Explorer) Replay(p Program, sched []uint8, trace func(string)) (Outcome, string) {
	e.replay, e.replayOn = sched, true
	e.names = nil
	e.X.Trace = trace
	defer func() { e.replayOn = false; e.X.Trace = nil }()
	return e.runOne(p)
}

// Seq runs f in sequential mode under the hooks and reports failures.
func (e *Explorer) Seq(f func(x *Exec)) string {
	x := e.X
	x.Reset()
	restoreGlobals()
	X = x
	defer func() { X = nil }()
	return x.guard(func() { f(x) })
}

type global struct{ save, load func() }

var globals []global

// Global registers a package-level variable of the code under test: it is
// restored to its initial (shallow) value before every execution.
func Global[T any](p *T) {
	v := *p
	globals = append(globals, global{func() { v = *p }, func() { *p = v }})
}

// SnapshotGlobals re-reads the values to restore (after lazy initialisation).
func SnapshotGlobals() {
	for _, g := range globals {
		g.save()
	}
}

func restoreGlobals() {
	for _, g := range globals {
		g.load()
	}
}

// NumGlobals is the number of package-level variables of the code under test.
func NumGlobals() int { return len(globals) }
