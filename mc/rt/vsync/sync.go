// Package sync replaces the standard sync package in the code under test.
package sync

import "verifmc/vrt"

type (
	Mutex   = vrt.Mutex
	RWMutex = vrt.RWMutex
	Cond    = vrt.Cond
	Locker  = vrt.Locker
	Pool    = vrt.Pool
)

func NewCond(l Locker) *Cond { return &Cond{L: l} }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	o.m.LockSoft()
	done := *vrt.R(&o.done)
	o.m.UnlockSoft()
	if done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !*vrt.R(&o.done) {
		defer func() { *vrt.W(&o.done) = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

type WaitGroup struct {
	n  int
	mu Mutex
	c  Cond
}

func (w *WaitGroup) Add(d int) {
	w.mu.LockSoft()
	w.n += d
	if w.n == 0 {
		w.c.Broadcast()
	}
	n := w.n
	w.mu.UnlockSoft()
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.Go(func() {
		defer w.Done()
		f()
	})
}
func (w *WaitGroup) Wait() {
	w.mu.Lock()
	for w.n > 0 {
		w.c.L = &w.mu
		w.c.Wait()
	}
	w.mu.Unlock()
}

// Map is a lock-protected stand-in for sync.Map.
type Map struct {
	mu   Mutex
	keys []any
	m    map[any]any
}

func (m *Map) Load(k any) (any, bool) {
	m.mu.LockSoft()
	defer m.mu.UnlockSoft()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.mu.LockSoft()
	defer m.mu.UnlockSoft()
	if m.m == nil {
		m.m = map[any]any{}
	}
	old, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return old, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.mu.LockSoft()
	defer m.mu.UnlockSoft()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.mu.LockSoft()
	defer m.mu.UnlockSoft()
	v, ok := m.m[k]
	if ok {
		m.remove(k)
	}
	return v, ok
}

func (m *Map) remove(k any) {
	delete(m.m, k)
	for i, q := range m.keys {
		if q == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndDelete(k, old any) bool {
	m.mu.LockSoft()
	defer m.mu.UnlockSoft()
	v, ok := m.m[k]
	if !ok || v != old {
		return false
	}
	m.remove(k)
	return true
}
func (m *Map) Clear() {
	m.mu.LockSoft()
	m.keys, m.m = nil, nil
	m.mu.UnlockSoft()
}
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.mu.LockSoft()
	defer m.mu.UnlockSoft()
	if v, ok := m.m[k]; ok && v == old {
		m.m[k] = new
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.mu.LockSoft()
	ks := append([]any(nil), m.keys...)
	m.mu.UnlockSoft()
	for _, k := range ks {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
