// Package vrt is the controlled runtime under which the instrumented map is
// executed. Every lock, atomic operation and shared memory access of the code
// under test reaches this package. Threads are coroutines; exactly one runs at
// any time, and which one runs next is decided at every visible operation
// (atomic access or lock acquisition) by the explorer.
package vrt

import (
	"fmt"
	"iter"
	"math/bits"
	"reflect"
	"runtime"
	"strings"
	"unsafe"
)

// MaxT bounds the number of threads including the sequential set-up thread 0.
const MaxT = 8

type VC [MaxT]uint32

func (v *VC) join(o *VC) {
	for i := range v {
		if o[i] > v[i] {
			v[i] = o[i]
		}
	}
}

// Mix is the hash combiner used for all state signatures.
func Mix(a, b uint64) uint64 {
	hi, lo := bits.Mul64(a^0x9e3779b97f4a7c15, b^0xd6e8feb86659fd93)
	x := hi ^ lo ^ bits.RotateLeft64(a, 17) + b
	x ^= x >> 31
	x *= 0xbf58476d1ce4e5b9
	return x ^ (x >> 29)
}

type loc struct {
	p       unsafe.Pointer // pins the object for the whole execution
	sig     uint64         // identifies the last write (or, for mutexes, the holder)
	name    uint64         // identity used when content is hashed by value
	vc      VC             // released clock
	wC      uint32         // clock of the last write ...
	wT      int8           // ... by this thread (-1: none)
	wAtomic bool
	touched uint8 // bit set of threads that ever accessed it
	writer  int8  // last writing thread (-1 none)
	rC      VC    // plain reads
	aC      VC    // atomic reads
	raced   bool
	born    int // how many locations were known before
}

// own reports whether only t has ever accessed l.
func (t *Thread) own(l *loc) bool { return l.touched&^(1<<uint(t.ID)) == 0 }

type slot struct {
	key   uintptr
	epoch uint32
	l     *loc
}

type evKind uint8

const (
	evLoad evKind = iota + 1
	evStore
	evRMW
	evCASFail
	evLock
	evUnlock
	evRLock
	evRUnlock
	evTry
	evOther
)

var evNames = [...]string{"", "load", "store", "rmw", "cas-fail", "lock", "unlock", "rlock", "runlock", "trylock-fail", "op"}

type loopSite struct {
	site   uint32
	ops    int // visible operations of the current iteration
	maxOps int
	acc    uint64
	prev   uint64
	priv   uint64 // integers read from memory that only this thread uses
	prevP  uint64
	born   int // locations known when the iteration began
	dirty  bool
	n      int
	same   int
	reads  []readRec // what the current iteration has read
	overfl bool      // and more than maxReads of it
}

// readRec is a location and the content it had when it was read.
type readRec struct {
	l   *loc
	sig uint64
}

const maxReads = 1 << 14

func (s *loopSite) read(l *loc) {
	if len(s.reads) < maxReads {
		s.reads = append(s.reads, readRec{l, l.sig})
	} else {
		s.overfl = true
	}
}

// unchanged reports whether everything the iteration has read is still as it was.
func (s *loopSite) unchanged() bool {
	if s.overfl {
		return false
	}
	for _, r := range s.reads {
		if r.l.sig != r.sig {
			return false
		}
	}
	return true
}

func (s *loopSite) restart() {
	s.prev, s.acc, s.n, s.same = 0, 0, 0, 0
	s.prevP, s.priv = 0, 0
	s.reads, s.overfl, s.dirty = s.reads[:0], false, false
}

// Thread is one thread of the program under test.
type Thread struct {
	ID   int
	h    uint64
	vc   VC
	done bool

	w      *worker
	waitMu *Mutex   // non-nil: needs this mutex free
	waitRW *RWMutex // non-nil: needs this rwmutex (write if waitW)
	waitW  bool
	waitC  *condWait
	spin   bool // spinning until something it reads changes
	spinOK bool // runs on through the wait at ffSite: nothing else can run
	spinN  int  // iterations it has done so
	ff     bool // runs on alone through a wait, to see whether it is bounded
	ffOK   bool // parked in a wait that may be bounded and was not tried yet
	ffSite uint32
	ffIter int
	ffH    uint64
	ffWake []*loc
	wake   []*loc
	wakeAl bool

	sites  []loopSite
	nsites int

	// Statistics for the current operation.
	Vis       int  // visible operations of the current operation
	Iters     int  // loop iterations of the current operation
	releasing bool // at the scheduling point of a lock release
	Blocked   int  // times it had to wait for another thread in the current operation
	plain     int  // loop iterations / plain accesses since the last visible operation

	// Randomness script.
	Grow  int // remaining "grow" answers of the random source for this operation
	draws int // draws in this operation

	pendInv bool
	OnInv   func()
	bg      bool // started by the code under test

	yield  bool // ran long enough alone: others first
	turns  int  // times it had to in this operation
	pan    any
	panStk string
}

// AtLock reports whether the next visible operation of t acquires a lock.
func (t *Thread) AtLock() bool { return t.waitMu != nil || t.waitRW != nil }

// Attempt is the number of visible operations since the current iteration of
// the outermost loop of the operation began.
func (t *Thread) Attempt() int {
	if t.nsites == 0 {
		return -1
	}
	return t.sites[0].ops
}

// Begin resets the statistics of the current operation (sequential mode).
func (t *Thread) Begin() { t.Vis, t.Iters, t.Blocked, t.draws, t.plain = 0, 0, 0, 0, 0 }

// Outcome of one execution.
type Outcome uint8

const (
	Complete Outcome = iota
	Pruned           // reached an already explored state
	Bad              // panic, deadlock, livelock, race, misuse
)

type abortT struct{}

var abortSentinel = &abortT{}

// IsAbort reports whether a recovered value is the runtime's own unwinding signal.
func IsAbort(v any) bool { _, ok := v.(*abortT); return ok }

// SeqFail is panicked by hooks in sequential mode for conditions that can never resolve.
type SeqFail struct{ Msg string }

func (s SeqFail) Error() string { return s.Msg }

// Exec is one execution.
type Exec struct {
	Threads []*Thread
	cur     *Thread
	seq     *Thread // sequential context (set-up, audit)
	seqCur  bool
	e       *Explorer

	tab   []slot
	mask  uintptr
	epoch uint32
	nloc  int
	slab  []*loc
	nslab int

	memSig uint64
	events int
	exempt int // operations within waits that were extended because nothing else could run

	abort    bool
	pruned   bool
	Diverged string
	id       uint32
	Failure  string // non-empty: Bad outcome
	FailKind string // race, panic, deadlock, livelock, misuse
	FailInfo string

	depth     int
	nextT     *Thread
	lastRun   *Thread
	preempts  int
	Schedule  []uint8 // thread chosen at every decision
	Shadow    bool
	RaceMode  bool
	BlockMode bool // whether an operation had to wait is part of the state
	BlockSoft bool // only a lock held during a visible operation makes others wait
	ValueMode bool
	TryUsed   bool
	UnlockPt  bool
	Trace     func(string)
	clock     int
	Completed [MaxT]uint32
	run       int     // visible operations of one call without a switch
	runT      *Thread // by this thread

	// go statements in sequential mode: run as soon as no lock is held.
	pending  []func()
	seqLocks int
	draining bool
	bgStop   bool // only goroutines started by the code under test are left, and they wait
}

// X is the current execution; nil when hooks are inactive.
var X *Exec

func (x *Exec) T() *Thread {
	if x.cur != nil {
		return x.cur
	}
	return x.seq
}

func NewExec() *Exec {
	x := &Exec{Shadow: true}
	x.tab = make([]slot, 1<<12)
	x.mask = uintptr(len(x.tab) - 1)
	x.seq = &Thread{ID: 0}
	return x
}

// Reset prepares x for a new execution.
func (x *Exec) Reset() {
	x.id++
	x.Diverged = ""
	x.epoch++
	if x.epoch == 0 {
		clear(x.tab)
		x.epoch = 1
	}
	for i := 0; i < x.nslab; i++ {
		x.slab[i].p = nil
	}
	x.nloc, x.nslab = 0, 0
	x.memSig, x.events, x.exempt = 0, 0, 0
	x.abort, x.pruned = false, false
	x.Failure, x.FailKind, x.FailInfo = "", "", ""
	x.depth, x.nextT, x.lastRun, x.preempts = 0, nil, nil, 0
	x.Schedule = x.Schedule[:0]
	x.clock = 0
	x.Completed = [MaxT]uint32{}
	x.cur = nil
	x.run, x.runT = 0, nil
	x.pending, x.seqLocks, x.draining, x.bgStop = nil, 0, false, false
	x.seq.vc = VC{}
	x.seq.vc[0] = 1
	x.seq.h = 0x1234
	x.seq.nsites = 0
	x.seq.Vis, x.seq.plain, x.seq.Grow, x.seq.draws, x.seq.Blocked = 0, 0, 0, 0, 0
}

func (x *Exec) locOf(p unsafe.Pointer) *loc {
	k := uintptr(p)
	i := uintptr(uint64(k)*0x9E3779B97F4A7C15>>40) & x.mask
	for {
		s := &x.tab[i]
		if s.epoch != x.epoch {
			break
		}
		if s.key == k {
			return s.l
		}
		i = (i + 1) & x.mask
	}
	if uintptr(x.nloc)*2 > x.mask {
		x.growTab()
		return x.locOf(p)
	}
	var l *loc
	if x.nslab < len(x.slab) {
		l = x.slab[x.nslab]
		*l = loc{p: p, wT: -1, writer: -1, born: x.nloc}
	} else {
		l = &loc{p: p, wT: -1, writer: -1, born: x.nloc}
		x.slab = append(x.slab, l)
	}
	x.nslab++
	x.nloc++
	x.tab[i] = slot{k, x.epoch, l}
	return l
}

func (x *Exec) growTab() {
	old := x.tab
	x.tab = make([]slot, len(old)*2)
	x.mask = uintptr(len(x.tab) - 1)
	for _, s := range old {
		if s.epoch == x.epoch {
			i := uintptr(uint64(s.key)*0x9E3779B97F4A7C15>>40) & x.mask
			for x.tab[i].epoch == x.epoch {
				i = (i + 1) & x.mask
			}
			x.tab[i] = s
		}
	}
}

func (x *Exec) setSig(l *loc, s uint64) {
	if l.sig != 0 {
		x.memSig -= Mix(l.sig, 77)
	}
	l.sig = s
	if s != 0 {
		x.memSig += Mix(s, 77)
	}
}

// fail records a Bad outcome and unwinds the execution.
func (x *Exec) fail(kind, msg string) {
	if x.Failure == "" {
		x.FailKind, x.Failure = kind, msg
		if x.Trace != nil {
			x.Trace("!! " + kind + ": " + msg)
		}
	}
	if x.cur == nil {
		panic(SeqFail{kind + ": " + msg})
	}
	x.abort = true
	panic(abortSentinel)
}

func (x *Exec) race(l *loc, t *Thread, what string, prevT int, prevWhat string) {
	if l.raced {
		return
	}
	l.raced = true
	x.fail("race", fmt.Sprintf("%s by thread %d is not ordered with %s by thread %d (%s)", what, t.ID, prevWhat, prevT, caller()))
}

func caller() string {
	var pcs [24]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	var out []string
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "zhangyunhao116/skipmap") {
			fn := f.Function[strings.LastIndex(f.Function, "/")+1:]
			fn = strings.ReplaceAll(fn, "[...]", "")
			out = append(out, fmt.Sprintf("%s:%d %s", f.File[strings.LastIndex(f.File, "/")+1:], f.Line, fn))
			if len(out) == 3 {
				break
			}
		}
		if !more {
			break
		}
	}
	return strings.Join(out, " < ")
}

// ---- visible operations -------------------------------------------------

// point is called before a visible operation: the scheduler may switch here.
func (x *Exec) point(t *Thread) {
	if x.abort {
		panic(abortSentinel)
	}
	t.plain = 0
	x.events++
	if x.cur == nil {
		t.Vis++
		return
	}
	if t.ff {
		if t.enabled() {
			x.events--
			t.Vis++
			return
		}
		t.ffEnd(x)
	}
	if x.BlockSoft && !t.releasing {
		x.blockWaiting(t)
	}
	if t.spinOK && x.exempt < 200_000 {
		x.exempt++
		x.events--
	}
	if x.events > x.e.Horizon {
		x.fail("livelock", fmt.Sprintf("no completion within %d visible operations", x.e.Horizon))
	}
	if x.runT == t {
		x.run++
	} else {
		x.run, x.runT = 1, t
	}
	if x.run > x.e.fairTurn() || x.run > FairNext && t.turns > 0 {
		x.yieldTurn(t)
	}
	x.switchPoint(t)
	t.Vis++
	if t.pendInv {
		t.pendInv = false
		x.clock++
		for i := 1; i <= len(x.Threads); i++ {
			if i != t.ID {
				t.h = Mix(t.h, uint64(x.Completed[i])+uint64(i)<<32)
			}
		}
		t.OnInv()
	}
}

// An unfair schedule that lets one operation retry for ever is no livelock: after
// fairTurn steps of one operation without a switch others come first, until one of them
// completes an operation, has had a turn itself, or none can run. Its later turns are shorter.
func (e *Explorer) fairTurn() int { return min(e.Horizon/4, 25_000) }

// FairNext is the length of the later turns.
const FairNext = 300

func (x *Exec) yieldTurn(t *Thread) {
	others := false
	for _, u := range x.Threads {
		if u != t && u.yield {
			u.yield = false
		}
		others = others || u != t && u.enabled()
	}
	x.run = 0
	if others {
		t.yield = true
		t.turns++
		if x.Trace != nil {
			x.Trace(fmt.Sprintf("T%d yields   (fair scheduling)", t.ID))
		}
	}
}

func (x *Exec) endTurn() {
	x.run = 0
	for _, u := range x.Threads {
		u.yield = false
	}
}

// Clock returns the current logical time stamp of call/return events.
func (x *Exec) Clock() int { return x.clock }

// Invoke marks that the current thread begins an operation; on runs at the
// moment its first visible operation is about to happen.
func (x *Exec) Invoke(on func()) {
	t := x.T()
	t.nsites = 0
	t.spinOK = false
	t.Vis, t.Iters, t.Blocked, t.draws = 0, 0, 0, 0
	if x.cur == nil {
		x.clock++
		on()
		return
	}
	t.turns, x.run = 0, 0
	t.pendInv = true
	t.OnInv = on
}

// Return marks that the current thread finished its operation.
func (x *Exec) Return() {
	t := x.T()
	if x.abort {
		panic(abortSentinel)
	}
	if t.pendInv {
		t.pendInv = false
		x.clock++
		t.OnInv()
	}
	if t.ff {
		t.ffEnd(x)
	}
	x.clock++
	x.Completed[t.ID]++
	x.endTurn()
	t.h = Mix(t.h, 0x7e7)
}

// switchPoint lets the explorer choose the next thread; returns when t is chosen.
func (x *Exec) switchPoint(t *Thread) {
	if !x.e.startHold {
		n := x.decide()
		if n == t {
			return
		}
		x.nextT = n
	}
	if !t.w.yield(struct{}{}) || x.abort {
		panic(abortSentinel)
	}
}

func (t *Thread) enabled() bool {
	if t.done || t.spin || t.yield {
		return false
	}
	if t.waitMu != nil {
		return t.waitMu.owner == 0
	}
	if t.waitRW != nil {
		if t.waitW {
			return t.waitRW.owner == 0 && t.waitRW.readers == 0
		}
		return t.waitRW.owner == 0
	}
	if t.waitC != nil {
		return t.waitC.ready
	}
	return true
}

// event is called after a visible operation with its effect.
func (x *Exec) note(t *Thread, k evKind, l *loc, write bool) {
	id := Mix(uint64(uintptr(l.p)), uint64(k))
	if k == evLoad || k == evCASFail || k == evTry {
		id = Mix(id, l.sig)
	}
	own := t.own(l)
	for i := 0; i < t.nsites; i++ {
		s := &t.sites[i]
		s.ops++
		if own && l.born >= s.born {
			continue // allocated in this iteration
		}
		s.acc = Mix(s.acc, id)
		if t.ff && s.site == t.ffSite && (write || s.ops > s.maxOps) {
			t.ffEnd(x)
		}
		if write {
			s.dirty = true
		} else {
			s.read(l)
		}
	}
	if write {
		x.wakeSpinners(t, l)
	}
	if x.Trace != nil {
		x.Trace(traceLine(x, t, k, l))
	}
}

func (x *Exec) wakeSpinners(t *Thread, l *loc) {
	for _, o := range x.Threads {
		if o == t || !o.spin && !o.spinOK {
			continue
		}
		if o.wakeAl {
			o.spin, o.spinOK = false, false
			continue
		}
		for _, w := range o.wake {
			if w == l {
				o.spin, o.spinOK = false, false
				break
			}
		}
	}
}

func (x *Exec) readChk(t *Thread, l *loc, atomic bool) {
	if l.wT >= 0 && int(l.wT) != t.ID && l.wC > t.vc[l.wT] && !(atomic && l.wAtomic) {
		a, b := "a read", "a write"
		if atomic {
			a = "an atomic read"
		}
		if l.wAtomic {
			b = "an atomic write"
		}
		x.race(l, t, a, int(l.wT), b)
	}
	if atomic {
		l.aC[t.ID] = t.vc[t.ID]
	} else {
		l.rC[t.ID] = t.vc[t.ID]
	}
	l.touched |= 1 << uint(t.ID)
}

func (x *Exec) writeChk(t *Thread, l *loc, atomic bool) {
	what := "a write"
	if atomic {
		what = "an atomic write"
	}
	if l.wT >= 0 && int(l.wT) != t.ID && l.wC > t.vc[l.wT] && !(atomic && l.wAtomic) {
		b := "a write"
		if l.wAtomic {
			b = "an atomic write"
		}
		x.race(l, t, what, int(l.wT), b)
	}
	for i := range l.rC {
		if i != t.ID && l.rC[i] > t.vc[i] {
			x.race(l, t, what, i, "a read")
		}
		if !atomic && i != t.ID && l.aC[i] > t.vc[i] {
			x.race(l, t, what, i, "an atomic read")
		}
	}
	l.wT, l.wC, l.wAtomic = int8(t.ID), t.vc[t.ID], atomic
	l.writer = int8(t.ID)
	l.touched |= 1 << uint(t.ID)
}

// ABefore announces an atomic operation on *p and returns once it may execute.
func ABefore() {
	if x := X; x != nil {
		x.point(x.T())
	}
}

// ALoad accounts for an executed atomic load.
func ALoad(p unsafe.Pointer, isInt bool, val uint64) {
	x := X
	if x == nil || !x.Shadow {
		return
	}
	t := x.T()
	l := x.locOf(p)
	x.readChk(t, l, true)
	t.vc.join(&l.vc)
	if isInt && x.ValueMode {
		t.h = Mix(t.h, val)
	} else {
		t.h = Mix(t.h, l.sig)
	}
	x.note(t, evLoad, l, false)
}

// AStore accounts for an executed atomic store.
func AStore(p unsafe.Pointer, isInt bool, val uint64) {
	x := X
	if x == nil || !x.Shadow {
		return
	}
	t := x.T()
	l := x.locOf(p)
	x.writeChk(t, l, true)
	l.vc = t.vc
	t.vc[t.ID]++
	x.newContent(t, l, isInt, val)
	t.h = Mix(t.h, 2)
	x.note(t, evStore, l, true)
}

func (x *Exec) newContent(t *Thread, l *loc, isInt bool, val uint64) {
	if isInt && x.ValueMode {
		if l.name == 0 {
			l.name = Mix(t.h, 0xabc)
		}
		x.setSig(l, Mix(l.name, val))
	} else {
		x.setSig(l, Mix(t.h, 3))
	}
}

// ARMW accounts for an executed read-modify-write (old -> val); write=false for a failed CAS.
func ARMW(p unsafe.Pointer, isInt bool, old, val uint64, write bool) {
	x := X
	if x == nil || !x.Shadow {
		return
	}
	t := x.T()
	l := x.locOf(p)
	if !write {
		x.readChk(t, l, true)
		t.vc.join(&l.vc)
		// only failure is observed; for pointers the identity of the content is hashed
		if isInt && x.ValueMode {
			t.h = Mix(t.h, old^0x55)
		} else {
			t.h = Mix(t.h, l.sig^0x55)
		}
		x.note(t, evCASFail, l, false)
		return
	}
	x.writeChk(t, l, true)
	t.vc.join(&l.vc)
	l.vc = t.vc
	t.vc[t.ID]++
	if isInt && x.ValueMode {
		t.h = Mix(t.h, old^0x99)
	} else {
		t.h = Mix(t.h, l.sig^0x99)
	}
	x.newContent(t, l, isInt, val)
	x.note(t, evRMW, l, true)
}

// ---- plain accesses -----------------------------------------------------

func (x *Exec) plainStep(t *Thread) {
	if x.abort {
		// Called from deferred functions while unwinding: stay inert.
		return
	}
	t.plain++
	if t.plain > 3_000_000 {
		x.fail("livelock", "endless loop without any synchronisation: "+caller())
	}
}

// plainRead reports whether only t uses the location and is in a loop.
func (x *Exec) plainRead(t *Thread, p unsafe.Pointer) bool {
	l := x.locOf(p)
	x.readChk(t, l, false)
	if l.sig != 0 && int(l.writer) != t.ID {
		t.h = Mix(t.h, l.sig)
	}
	if t.nsites > 0 {
		if t.own(l) {
			return true
		}
		id := Mix(uint64(uintptr(p)), l.sig)
		for i := 0; i < t.nsites; i++ {
			s := &t.sites[i]
			s.acc = Mix(s.acc, id)
			s.read(l)
		}
	}
	return false
}

// private notes an integer that was read from memory which only this thread uses:
// a loop that reads another one in each iteration may be counting.
func private[T any](p *T) {
	var v uint64
	switch k := reflect.TypeFor[T]().Kind(); {
	case k < reflect.Bool || k > reflect.Uintptr:
		return
	default:
		switch unsafe.Sizeof(*p) {
		case 1:
			v = uint64(*(*uint8)(unsafe.Pointer(p)))
		case 2:
			v = uint64(*(*uint16)(unsafe.Pointer(p)))
		case 4:
			v = uint64(*(*uint32)(unsafe.Pointer(p)))
		default:
			v = *(*uint64)(unsafe.Pointer(p))
		}
	}
	t := X.T()
	for i := 0; i < t.nsites; i++ {
		s := &t.sites[i]
		s.priv = Mix(s.priv, v)
	}
}

func (x *Exec) plainWrite(t *Thread, p unsafe.Pointer) {
	l := x.locOf(p)
	x.writeChk(t, l, false)
	x.setSig(l, Mix(t.h, 5))
	t.h = Mix(t.h, 6)
	if l.touched&^(1<<uint(t.ID)) != 0 {
		for i := 0; i < t.nsites; i++ {
			t.sites[i].dirty = true
		}
		x.wakeSpinners(t, l)
	}
}

// R reports a plain read of a scalar *p and returns p.
func R[T any](p *T) *T {
	if x := X; x != nil && x.Shadow && rd(x, unsafe.Pointer(p)) {
		private(p)
	}
	return p
}

// W reports a plain write of a scalar *p and returns p.
func W[T any](p *T) *T {
	if x := X; x != nil && x.Shadow {
		wr(x, unsafe.Pointer(p))
	}
	return p
}

// RW reports a plain read and write of a scalar *p and returns p.
func RW[T any](p *T) *T {
	if x := X; x != nil && x.Shadow {
		if rd(x, unsafe.Pointer(p)) {
			private(p)
		}
		wr(x, unsafe.Pointer(p))
	}
	return p
}

func rd(x *Exec, p unsafe.Pointer) bool {
	if p == nil || x.abort {
		return false
	}
	t := x.T()
	x.plainStep(t)
	return x.plainRead(t, p)
}

func wr(x *Exec, p unsafe.Pointer) {
	if p == nil || x.abort {
		return
	}
	t := x.T()
	x.plainStep(t)
	x.plainWrite(t, p)
}

// RS, WS and RWS are R, W and RW for values that may consist of several scalars.
func RS[T any](p *T) *T {
	if x := X; x != nil && x.Shadow && p != nil && !x.abort {
		t := x.T()
		x.plainStep(t)
		for _, o := range leaves(reflect.TypeFor[T]()) {
			x.plainRead(t, unsafe.Add(unsafe.Pointer(p), o))
		}
	}
	return p
}

func WS[T any](p *T) *T {
	if x := X; x != nil && x.Shadow && p != nil && !x.abort {
		t := x.T()
		x.plainStep(t)
		for _, o := range leaves(reflect.TypeFor[T]()) {
			x.plainWrite(t, unsafe.Add(unsafe.Pointer(p), o))
		}
	}
	return p
}

func RWS[T any](p *T) *T {
	RS(p)
	return WS(p)
}

// MR and MW report a read/write of a map object.
func MR[M any](m M) M {
	if x := X; x != nil && x.Shadow && !x.abort {
		if v := reflect.ValueOf(m); v.Kind() == reflect.Map && !v.IsNil() {
			rd(x, v.UnsafePointer())
		}
	}
	return m
}

func MW[M any](m M) M {
	if x := X; x != nil && x.Shadow && !x.abort {
		if v := reflect.ValueOf(m); v.Kind() == reflect.Map && !v.IsNil() {
			wr(x, v.UnsafePointer())
		}
	}
	return m
}

var leafCache = map[reflect.Type][]uintptr{}

func leaves(t reflect.Type) []uintptr {
	if l, ok := leafCache[t]; ok {
		return l
	}
	var out []uintptr
	var walk func(t reflect.Type, o uintptr)
	walk = func(t reflect.Type, o uintptr) {
		switch t.Kind() {
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				walk(f.Type, o+f.Offset)
			}
		case reflect.Array:
			if t.Len() > 64 {
				out = append(out, o)
				return
			}
			for i := 0; i < t.Len(); i++ {
				walk(t.Elem(), o+uintptr(i)*t.Elem().Size())
			}
		default:
			if t.Size() > 0 {
				out = append(out, o)
			}
		}
	}
	walk(t, 0)
	leafCache[t] = out
	return out
}

// Loop is called at the head of every loop body. After need identical
// iterations that wrote nothing shared the thread waits until something the
// iteration read changes. Where iterations may differ although they read the
// same (counts) the thread may also run on alone, to reach the end of a bounded wait.
func Loop(site uint32, need int, counts bool) {
	x := X
	if x == nil {
		return
	}
	if x.abort {
		panic(abortSentinel)
	}
	t := x.T()
	t.plain++
	t.Iters++
	if t.plain > 3_000_000 {
		x.fail("livelock", "endless loop without any synchronisation: "+caller())
	}
	if x.cur == nil {
		if t.Vis > 2_000_000 {
			x.fail("livelock", "operation alone on the map does not terminate: "+caller())
		}
		return
	}
	var s *loopSite
	for i := 0; i < t.nsites; i++ {
		if t.sites[i].site == site {
			s = &t.sites[i]
			t.nsites = i + 1 // loops inside this one begin anew
			break
		}
	}
	if s == nil {
		if t.nsites == len(t.sites) {
			t.sites = append(t.sites, loopSite{})
		}
		s = &t.sites[t.nsites]
		t.nsites++
		s.restart()
		s.site, s.ops, s.maxOps, s.born = site, 0, 0, x.nloc
		return
	}
	s.maxOps = max(s.maxOps, s.ops)
	s.ops = 0
	if t.ff {
		if site != t.ffSite {
			return
		}
		if t.ffIter++; t.ffIter > ffLimit {
			// It does not end: wait as before.
			x.e.ffFail[site]++
			t.ff, t.ffOK, t.spin = false, false, true
			t.h = t.ffH
			t.wake, t.wakeAl = append(t.wake[:0], t.ffWake...), false
			s.restart()
			x.switchPoint(t)
		}
		return
	}
	if t.spinOK && site == t.ffSite {
		if t.spinN++; t.spinN > ffLimit {
			// Nothing that this thread does ends its wait.
			t.spin, t.ffOK, t.wakeAl = true, false, true
			s.restart()
			x.switchPoint(t)
			return
		}
	}
	if !s.dirty && s.n > 0 && s.acc != 0 && s.acc == s.prev {
		s.same++
	} else {
		s.same = 0
	}
	if s.same+1 >= need && !t.spinOK {
		if s.unchanged() {
			// Identical read-only iterations: wait until something they read changes.
			t.wake, t.wakeAl = t.wake[:0], false
			for _, r := range s.reads {
				t.wake = append(t.wake, r.l)
			}
			t.spin = true
			t.ffOK = (counts || s.priv != s.prevP) && (x.e.replayOn || !x.e.ffOff[site])
			t.ffSite = site
			t.ffWake = append(t.ffWake[:0], t.wake...)
			t.blocked(x)
			t.ffH = t.h
			s.restart()
			if x.Trace != nil {
				x.Trace(fmt.Sprintf("T%d spins   %s", t.ID, caller()))
			}
			x.switchPoint(t)
			return
		}
		s.same = 0
	}
	s.prev, s.acc, s.dirty, s.reads, s.overfl = s.acc, 0, false, s.reads[:0], false
	s.prevP, s.priv, s.born = s.priv, 0, x.nloc
	s.n++
}

// ffLimit bounds the iterations of a wait that is tried alone.
const ffLimit = 1100

func (t *Thread) ffEnd(x *Exec) {
	t.ff = false
	x.e.ffDone[t.ffSite]++
	t.h = Mix(t.h, 0xff)
}

// ---- randomness ---------------------------------------------------------

// DrawFn, when set, answers every draw of the random source.
var DrawFn func(n uint64) uint64

// Heights tells how the code under test derives tower heights from random numbers.
type Heights struct {
	Flip  bool     // the largest answer, not the smallest, makes a tower grow
	First []uint64 // by height: the answer to the first draw
}

var Tall Heights

// Draw answers a request for a random number in [0,n); n==0 means all 64 bits.
func Draw(n uint64) uint64 {
	if DrawFn != nil {
		return DrawFn(n)
	}
	x := X
	if x == nil {
		return n - 1
	}
	t := x.T()
	t.draws++
	if t.draws > 200 {
		// The code does not stop at the usual stop answer: cycle through all answers.
		if n == 0 {
			return Mix(uint64(t.draws), 99)
		}
		return uint64(t.draws) % n
	}
	if f := Tall.First; f != nil {
		v := f[min(t.Grow, len(f)-1)]
		t.Grow = 0
		if n != 0 {
			if n&(n-1) == 0 {
				v &= n - 1
			} else {
				v %= n
			}
		}
		return v
	}
	if (t.Grow > 0) != Tall.Flip {
		t.Grow = max(t.Grow-1, 0)
		return 0
	}
	t.Grow = max(t.Grow-1, 0)
	return n - 1
}

// Go runs f as a new thread: the go statement of the code under test.
func Go(f func()) {
	x := X
	if x == nil {
		go f()
		return
	}
	if x.abort {
		panic(abortSentinel)
	}
	if x.cur == nil {
		x.pending = append(x.pending, f)
		x.drain()
		return
	}
	t, e := x.cur, x.e
	id := len(x.Threads) + 1
	if id >= MaxT {
		x.diverge("too many goroutines")
	}
	c := &Thread{ID: id, bg: true}
	x.Threads = append(x.Threads, c)
	c.vc = t.vc
	c.vc[id] = 1
	t.vc[t.ID]++
	t.h = Mix(t.h, 0x60)
	c.h = Mix(t.h, uint64(id))
	for len(e.workers) < id {
		e.workers = append(e.workers, newWorker())
	}
	w := e.workers[id-1]
	w.t, w.body, c.w = c, f, w
	hold := e.startHold
	e.startHold = true
	x.cur = c
	w.next()
	x.cur = t
	e.startHold = hold
	if x.abort {
		panic(abortSentinel)
	}
}

// drain runs the goroutines that were started in sequential mode.
func (x *Exec) drain() {
	if x.draining || x.seqLocks > 0 || len(x.pending) == 0 {
		return
	}
	x.draining = true
	t := x.seq
	saved := *t
	t.sites, t.nsites = nil, 0
	for len(x.pending) > 0 {
		f := x.pending[0]
		x.pending = x.pending[1:]
		f()
	}
	h, vc := t.h, t.vc
	*t = saved
	t.h, t.vc = h, vc
	x.draining = false
}

// force runs the pending goroutines although locks are held: the sequential thread waits.
func (x *Exec) force() {
	if x.cur == nil && !x.draining && len(x.pending) > 0 {
		n := x.seqLocks
		x.seqLocks = 0
		x.drain()
		x.seqLocks += n
	}
}

// Go statements with arguments and results.
func Go1[A any](f func(A), a A)                             { Go(func() { f(a) }) }
func Go2[A, B any](f func(A, B), a A, b B)                  { Go(func() { f(a, b) }) }
func Go3[A, B, C any](f func(A, B, C), a A, b B, c C)       { Go(func() { f(a, b, c) }) }
func GoR0[R any](f func() R)                                { Go(func() { f() }) }
func GoR1[A, R any](f func(A) R, a A)                       { Go(func() { f(a) }) }
func GoR2[A, B, R any](f func(A, B) R, a A, b B)            { Go(func() { f(a, b) }) }
func GoR3[A, B, C, R any](f func(A, B, C) R, a A, b B, c C) { Go(func() { f(a, b, c) }) }

// ---- running ------------------------------------------------------------

type worker struct {
	t     *Thread
	next  func() (struct{}, bool)
	stop  func()
	yield func(struct{}) bool
	body  func()
}

func newWorker() *worker {
	w := &worker{}
	w.next, w.stop = iter.Pull(func(yield func(struct{}) bool) {
		w.yield = yield
		for {
			w.runBody()
			if !yield(struct{}{}) {
				return
			}
		}
	})
	return w
}

func (w *worker) runBody() {
	t := w.t
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(*abortT); !ok {
				x := X
				if x.Failure == "" && x.Diverged == "" {
					buf := make([]byte, 1<<14)
					n := runtime.Stack(buf, false)
					x.FailKind, x.Failure = "panic", fmt.Sprintf("thread %d: %v", t.ID, r)
					x.FailInfo = trimStack(string(buf[:n]))
				}
				x.abort = true
			}
		}
		t.done = true
	}()
	w.body()
}

func trimStack(s string) string {
	var out []string
	lines := strings.Split(s, "\n")
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i], "zhangyunhao116/skipmap") {
			out = append(out, strings.TrimSpace(lines[i+1]))
			i++
		}
	}
	return strings.Join(out, "\n")
}

func traceLine(x *Exec, t *Thread, k evKind, l *loc) string {
	return fmt.Sprintf("T%d %-8s %-6s %s", t.ID, evNames[k], x.e.locName(l), caller())
}

// WSet returns a setter for *p that reports the write when the value is known.
func WSet[T any](p *T) func(T) {
	return func(v T) { *W(p) = v }
}

// WSetS is WSet for composite values.
func WSetS[T any](p *T) func(T) {
	return func(v T) { *WS(p) = v }
}
