package vrt

import "unsafe"

// Mutex is the controlled sync.Mutex.
type Mutex struct {
	owner int32 // thread id + 1 of the holder, 0 when free
	ep    uint32
}

func (m *Mutex) fresh(x *Exec) {
	if m.ep != x.id {
		m.ep = x.id
		m.owner = 0
	}
}

func (x *Exec) lockAcquired(t *Thread, p unsafe.Pointer, k evKind) {
	if x.cur == nil {
		x.seqLocks++
	}
	if !x.Shadow {
		return
	}
	l := x.locOf(p)
	l.touched |= 1 << uint(t.ID)
	t.vc.join(&l.vc)
	if x.RaceMode {
		t.h = Mix(t.h, l.name)
	}
	t.h = Mix(t.h, uint64(k))
	x.setSig(l, Mix(t.h, 11))
	x.noteLock(t, k, l)
}

func (x *Exec) lockReleased(t *Thread, p unsafe.Pointer, k evKind) {
	if x.cur == nil {
		x.seqLocks--
		defer x.drain()
	}
	if !x.Shadow {
		return
	}
	l := x.locOf(p)
	l.vc.join(&t.vc)
	t.vc[t.ID]++
	t.h = Mix(t.h, uint64(k))
	if x.RaceMode {
		if k == evRUnlock {
			l.name += Mix(t.h, 12)
		} else {
			l.name = Mix(t.h, 12)
		}
		x.setSig(l, l.name)
	} else {
		x.setSig(l, 0)
	}
	x.noteLock(t, k, l)
}

// blocked notes that t has to wait for another thread. Whether an operation had
// to wait is part of the state when BlockMode is on.
func (t *Thread) blocked(x *Exec) {
	t.Blocked++
	if x.BlockMode && t.Blocked == 1 {
		t.h = Mix(t.h, 0x5b)
	}
}

// blockOthers notes for the threads that are about to take a lock that t has taken it.
func (x *Exec) blockOthers(t *Thread, m *Mutex, rw *RWMutex, shared bool) {
	if x.cur == nil || x.BlockSoft {
		return
	}
	for _, u := range x.Threads {
		if u != t && !u.done && (m != nil && u.waitMu == m || rw != nil && u.waitRW == rw && (u.waitW || !shared)) {
			u.blocked(x)
		}
	}
}

// blockWaiting notes for the threads that wait for a lock that it is held during a visible
// operation. (With BlockSoft, a critical section without one does not count as waiting.)
func (x *Exec) blockWaiting(t *Thread) {
	for _, u := range x.Threads {
		if u != t && !u.done && (u.waitMu != nil && u.waitMu.owner != 0 || u.waitRW != nil && (u.waitRW.owner != 0 || u.waitW && u.waitRW.readers > 0)) {
			u.blocked(x)
		}
	}
}

func (x *Exec) noteLock(t *Thread, k evKind, l *loc) {
	id := Mix(uint64(uintptr(l.p)), uint64(k))
	own := t.own(l)
	for i := 0; i < t.nsites; i++ {
		if own && l.born >= t.sites[i].born {
			continue
		}
		t.sites[i].acc = Mix(t.sites[i].acc, id)
	}
	if x.Trace != nil {
		x.Trace(traceLine(x, t, k, l))
	}
}

func (m *Mutex) Lock() {
	x := X
	if x == nil {
		m.owner = 1
		return
	}
	if x.abort {
		x.point(x.T())
	}
	m.fresh(x)
	t := x.T()
	if m.owner != 0 {
		x.force()
	}
	if m.owner != 0 {
		if x.cur == nil {
			x.fail("deadlock", "a lock is still held although no operation is running (or the operation waits for itself): "+caller())
		}
		t.blocked(x)
	}
	t.waitMu = m
	x.point(t)
	t.waitMu = nil
	m.owner = int32(t.ID) + 1
	x.blockOthers(t, m, nil, false)
	x.lockAcquired(t, unsafe.Pointer(m), evLock)
}

// LockSoft and UnlockSoft make a critical section of the runtime that stands for one
// operation that never waits: nothing visible may happen between them.
func (m *Mutex) LockSoft() {
	x := X
	if x == nil {
		m.owner = 1
		return
	}
	m.fresh(x)
	t := x.T()
	t.waitMu = m
	x.point(t)
	t.waitMu = nil
	m.owner = int32(t.ID) + 1
	x.lockAcquired(t, unsafe.Pointer(m), evLock)
}

func (m *Mutex) UnlockSoft() {
	x := X
	if x == nil || x.abort {
		m.owner = 0
		return
	}
	t := x.T()
	m.owner = 0
	x.lockReleased(t, unsafe.Pointer(m), evUnlock)
	x.wakeMutex(t, unsafe.Pointer(m))
}

func (x *Exec) tryFailed(t *Thread, p unsafe.Pointer) {
	if x.Shadow {
		t.h = Mix(t.h, 0x77)
		x.note(t, evTry, x.locOf(p), false)
	}
}

func (m *Mutex) TryLock() bool {
	x := X
	if x == nil {
		if m.owner != 0 {
			return false
		}
		m.owner = 1
		return true
	}
	m.fresh(x)
	x.TryUsed = true
	t := x.T()
	x.point(t)
	if m.owner != 0 {
		x.tryFailed(t, unsafe.Pointer(m))
		return false
	}
	m.owner = int32(t.ID) + 1
	x.blockOthers(t, m, nil, false)
	x.lockAcquired(t, unsafe.Pointer(m), evLock)
	return true
}

func (m *Mutex) Unlock() {
	x := X
	if x == nil {
		m.owner = 0
		return
	}
	if x.abort {
		return
	}
	m.fresh(x)
	t := x.T()
	if UnlockPoints {
		t.releasing = true
		x.point(t)
		t.releasing = false
	}
	if m.owner == 0 {
		x.fail("panic", "unlock of unlocked mutex: "+caller())
	}
	m.owner = 0
	x.lockReleased(t, unsafe.Pointer(m), evUnlock)
	x.wakeMutex(t, unsafe.Pointer(m))
}

// UnlockPoints makes releases scheduling points too (needed when TryLock is used).
var UnlockPoints bool

func (x *Exec) wakeMutex(t *Thread, p unsafe.Pointer) {
	if x.Shadow && x.TryUsed {
		x.wakeSpinners(t, x.locOf(p))
	}
}

// RWMutex is the controlled sync.RWMutex.
type RWMutex struct {
	owner   int32
	readers int32
	ep      uint32
	pad     uint32
}

func (m *RWMutex) fresh(x *Exec) {
	if m.ep != x.id {
		m.ep = x.id
		m.owner, m.readers = 0, 0
	}
}

func (m *RWMutex) Lock() {
	x := X
	if x == nil {
		m.owner = 1
		return
	}
	if x.abort {
		x.point(x.T())
	}
	m.fresh(x)
	t := x.T()
	if m.owner != 0 || m.readers != 0 {
		x.force()
	}
	if m.owner != 0 || m.readers != 0 {
		if x.cur == nil {
			x.fail("deadlock", "a lock is still held although no operation is running (or the operation waits for itself): "+caller())
		}
		t.blocked(x)
	}
	t.waitRW, t.waitW = m, true
	x.point(t)
	t.waitRW = nil
	m.owner = int32(t.ID) + 1
	x.blockOthers(t, nil, m, false)
	x.lockAcquired(t, unsafe.Pointer(m), evLock)
}

func (m *RWMutex) TryLock() bool {
	x := X
	if x == nil {
		if m.owner != 0 || m.readers != 0 {
			return false
		}
		m.owner = 1
		return true
	}
	m.fresh(x)
	x.TryUsed = true
	t := x.T()
	x.point(t)
	if m.owner != 0 || m.readers != 0 {
		x.tryFailed(t, unsafe.Pointer(m))
		return false
	}
	m.owner = int32(t.ID) + 1
	x.blockOthers(t, nil, m, false)
	x.lockAcquired(t, unsafe.Pointer(m), evLock)
	return true
}

func (m *RWMutex) Unlock() {
	x := X
	if x == nil {
		m.owner = 0
		return
	}
	if x.abort {
		return
	}
	m.fresh(x)
	t := x.T()
	if UnlockPoints {
		t.releasing = true
		x.point(t)
		t.releasing = false
	}
	if m.owner == 0 {
		x.fail("panic", "unlock of unlocked rwmutex: "+caller())
	}
	m.owner = 0
	x.lockReleased(t, unsafe.Pointer(m), evUnlock)
	x.wakeMutex(t, unsafe.Pointer(m))
}

func (m *RWMutex) RLock() {
	x := X
	if x == nil {
		m.readers++
		return
	}
	if x.abort {
		x.point(x.T())
	}
	m.fresh(x)
	t := x.T()
	if m.owner != 0 {
		x.force()
	}
	if m.owner != 0 {
		if x.cur == nil {
			x.fail("deadlock", "a lock is still held although no operation is running (or the operation waits for itself): "+caller())
		}
		t.blocked(x)
	}
	t.waitRW, t.waitW = m, false
	x.point(t)
	t.waitRW = nil
	m.readers++
	x.blockOthers(t, nil, m, true)
	x.lockAcquired(t, unsafe.Pointer(m), evRLock)
}

func (m *RWMutex) TryRLock() bool {
	x := X
	if x == nil {
		if m.owner != 0 {
			return false
		}
		m.readers++
		return true
	}
	m.fresh(x)
	x.TryUsed = true
	t := x.T()
	x.point(t)
	if m.owner != 0 {
		x.tryFailed(t, unsafe.Pointer(m))
		return false
	}
	m.readers++
	x.blockOthers(t, nil, m, true)
	x.lockAcquired(t, unsafe.Pointer(m), evRLock)
	return true
}

func (m *RWMutex) RUnlock() {
	x := X
	if x == nil {
		m.readers--
		return
	}
	if x.abort {
		return
	}
	m.fresh(x)
	t := x.T()
	if UnlockPoints {
		t.releasing = true
		x.point(t)
		t.releasing = false
	}
	if m.readers <= 0 {
		x.fail("panic", "runlock of unlocked rwmutex: "+caller())
	}
	m.readers--
	x.lockReleased(t, unsafe.Pointer(m), evRUnlock)
	x.wakeMutex(t, unsafe.Pointer(m))
}

type condWait struct{ ready bool }

// Cond is the controlled sync.Cond.
type Cond struct {
	L       Locker
	waiters []*condWait
	ep      uint32
}

type Locker interface {
	Lock()
	Unlock()
}

func (c *Cond) fresh(x *Exec) {
	if x != nil && c.ep != x.id {
		c.ep = x.id
		c.waiters = nil
	}
}

func (c *Cond) Wait() {
	x := X
	if x == nil {
		panic(SeqFail{"Cond.Wait with no other goroutine"})
	}
	c.fresh(x)
	if x.cur == nil {
		w := &condWait{}
		c.waiters = append(c.waiters, w)
		c.L.Unlock()
		x.force()
		if !w.ready {
			panic(SeqFail{"Cond.Wait with no other goroutine"})
		}
		c.L.Lock()
		return
	}
	t := x.T()
	w := &condWait{}
	c.waiters = append(c.waiters, w)
	c.L.Unlock()
	t.waitC = w
	t.blocked(x)
	x.point(t)
	t.waitC = nil
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.fresh(X)
	if len(c.waiters) > 0 {
		c.waiters[0].ready = true
		c.waiters = c.waiters[1:]
	}
}

func (c *Cond) Broadcast() {
	c.fresh(X)
	for _, w := range c.waiters {
		w.ready = true
	}
	c.waiters = nil
}

// Pool is a deterministic sync.Pool: last in, first out, emptied between executions.
type Pool struct {
	New   func() any
	items []any
	ep    uint32
	mu    Mutex
}

func (p *Pool) Get() any {
	if x := X; x != nil && p.ep != x.id {
		p.ep, p.items = x.id, nil
	}
	p.mu.LockSoft()
	var v any
	if n := len(p.items); n > 0 {
		v = p.items[n-1]
		p.items = p.items[:n-1]
	}
	p.mu.UnlockSoft()
	if v == nil && p.New != nil {
		v = p.New()
	}
	return v
}

func (p *Pool) Put(v any) {
	if x := X; x != nil && p.ep != x.id {
		p.ep, p.items = x.id, nil
	}
	p.mu.LockSoft()
	p.items = append(p.items, v)
	p.mu.UnlockSoft()
}
