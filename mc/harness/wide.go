package main

import (
	"fmt"

	"github.com/zhangyunhao116/skipmap"
)

// Wide maps have n keys, coded 0..n-1 in map order.
type wideAdaptor[K comparable] struct {
	adaptor[K, int]
	idx map[K]int
}

func (a *wideAdaptor[K]) Range(f func(k, v int) bool) {
	a.m.Range(func(k K, v int) bool {
		i, ok := a.idx[k]
		if !ok {
			i = badKey
		}
		return f(i, v)
	})
}

func mkWide[K comparable, M api[K, int]](f func() M, key func(i int) K, desc bool) func(n int) Map {
	type coding struct {
		enc []K
		idx map[K]int
	}
	known := map[int]coding{}
	return func(n int) Map {
		c, ok := known[n]
		if !ok {
			c = coding{make([]K, n), make(map[K]int, n)}
			for i := 0; i < n; i++ {
				k := key(i)
				if desc {
					k = key(n - 1 - i)
				}
				c.enc[i] = k
				c.idx[k] = i
			}
			known[n] = c
		}
		a := &wideAdaptor[K]{idx: c.idx}
		a.m, a.ve, a.vd, a.enc = f(), id, id, c.enc
		return a
	}
}

func num[K int | int32 | int64 | float32 | float64](i int) K { return K(i*3 - 90) }
func unum[K uint | uint32 | uint64](i int) K                 { return K(i * 4001) }
func str(i int) string                                       { return fmt.Sprintf("key %07d", i) }

var wides = map[string]func(n int) Map{
	"NewInt":         mkWide(skipmap.NewInt[int], num[int], false),
	"NewIntDesc":     mkWide(skipmap.NewIntDesc[int], num[int], true),
	"NewInt32":       mkWide(skipmap.NewInt32[int], num[int32], false),
	"NewInt32Desc":   mkWide(skipmap.NewInt32Desc[int], num[int32], true),
	"NewInt64":       mkWide(skipmap.NewInt64[int], num[int64], false),
	"NewInt64Desc":   mkWide(skipmap.NewInt64Desc[int], num[int64], true),
	"NewUint":        mkWide(skipmap.NewUint[int], unum[uint], false),
	"NewUintDesc":    mkWide(skipmap.NewUintDesc[int], unum[uint], true),
	"NewUint32":      mkWide(skipmap.NewUint32[int], unum[uint32], false),
	"NewUint32Desc":  mkWide(skipmap.NewUint32Desc[int], unum[uint32], true),
	"NewUint64":      mkWide(skipmap.NewUint64[int], unum[uint64], false),
	"NewUint64Desc":  mkWide(skipmap.NewUint64Desc[int], unum[uint64], true),
	"NewString":      mkWide(skipmap.NewString[int], str, false),
	"NewStringDesc":  mkWide(skipmap.NewStringDesc[int], str, true),
	"New":            mkWide(skipmap.New[string, int], str, false),
	"NewDesc":        mkWide(skipmap.NewDesc[float64, int], num[float64], true),
	"NewFloat64":     mkWide(skipmap.NewFloat64[int], num[float64], false),
	"NewFloat64Desc": mkWide(skipmap.NewFloat64Desc[int], num[float64], true),
	"NewFloat32":     mkWide(skipmap.NewFloat32[int], num[float32], false),
	"NewFloat32Desc": mkWide(skipmap.NewFloat32Desc[int], num[float32], true),
	"NewFunc": mkWide(func() *skipmap.FuncMap[fkey, int] { return skipmap.NewFunc[fkey, int](fless) },
		func(i int) fkey { return fkey{i, 0} }, false),
}

// ruler is the tower height of entry i of an ideal skip list with ratio 1/4.
func ruler(i int) uint8 {
	h := uint8(1)
	for i++; i%4 == 0 && h < 16; i /= 4 {
		h++
	}
	return h
}

// ref is the reference for wide maps.
type ref struct {
	v []int
	n int
}

func newRef(n int) *ref {
	r := &ref{v: make([]int, n)}
	for i := range r.v {
		r.v[i] = absent
	}
	return r
}

func (r *ref) apply(e *Ev) string {
	q := pop{k: e.K, val: e.Val, res: e.Res, ok: e.OK}
	o := r.v[e.wide]
	ns, ok := q.step(o)
	if !ok {
		return fmt.Sprintf("wrong result on key %d: %s", e.wide, e)
	}
	if (o == absent) != (ns == absent) {
		if ns == absent {
			r.n--
		} else {
			r.n++
		}
	}
	r.v[e.wide] = ns
	return ""
}

func (r *ref) compare(m Map) string {
	next, bad, cnt := 0, "", 0
	m.Range(func(k, v int) bool {
		cnt++
		for next < len(r.v) && r.v[next] == absent {
			next++
		}
		if next >= len(r.v) || k != next || v != r.v[next] {
			bad = fmt.Sprintf("Range gave key %d with %d as entry %d, expected key %d", k, v, cnt, next)
			return false
		}
		next++
		return true
	})
	if bad != "" {
		return bad
	}
	if cnt != r.n {
		return fmt.Sprintf("Range gave %d of %d keys", cnt, r.n)
	}
	if l := m.Len(); l != r.n {
		return fmt.Sprintf("Len() = %d with %d keys present", l, r.n)
	}
	return ""
}

// wideOp runs one operation on key k of a wide map.
func wideOp(m Map, e *Ev, kind Kind, k, val int, h uint8) {
	vs := e.Visits[:0]
	*e = Ev{Op: Op{K: kind, H: h}, Val: val, Visits: vs, wide: k}
	wideMap{m, k}.run(e)
}

// wideMap routes an operation on key code 0 to key k.
type wideMap struct {
	Map
	k int
}

func (w wideMap) run(e *Ev) { e.exec(w) }

func (w wideMap) Store(k, v int)                   { w.Map.Store(w.k, v) }
func (w wideMap) Load(k int) (int, bool)           { return w.Map.Load(w.k) }
func (w wideMap) LoadOrStore(k, v int) (int, bool) { return w.Map.LoadOrStore(w.k, v) }
func (w wideMap) LoadAndDelete(k int) (int, bool)  { return w.Map.LoadAndDelete(w.k) }
func (w wideMap) Delete(k int) bool                { return w.Map.Delete(w.k) }
func (w wideMap) LoadOrStoreLazy(k int, f func() int) (int, bool) {
	return w.Map.LoadOrStoreLazy(w.k, f)
}

// orders are the ways in which n keys are inserted or deleted.
func orders(n int) map[string]func(i int) int {
	return map[string]func(i int) int{
		"ascending":   func(i int) int { return i },
		"descending":  func(i int) int { return n - 1 - i },
		"interleaved": func(i int) int { return (i*37 + 11) % n },
		"outside in":  func(i int) int { return pick2(i%2 == 0, i/2, n-1-i/2) },
	}
}

var shapes = map[string]func(i int) uint8{
	"ideal":     ruler,
	"flat":      func(int) uint8 { return 1 },
	"tall":      func(i int) uint8 { return uint8(1 + (i*7)%16) },
	"few tall":  func(i int) uint8 { return uint8(pick2(i%16 == 5, 6, 1)) },
	"all equal": func(int) uint8 { return 5 },
}
