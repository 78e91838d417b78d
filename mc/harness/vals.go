//go:build vals

package main

import (
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/zhangyunhao116/skipmap"
	"verifmc/vrt"
)

// Maps with values of type V and two keys.
type vmap[V any] interface {
	Store(k int, v V)
	Load(k int) (V, bool)
	LoadOrStore(k int, v V) (V, bool)
	LoadOrStoreLazy(k int, f func() V) (V, bool)
	LoadAndDelete(k int) (V, bool)
	Delete(k int) bool
	Range(f func(k int, v V) bool)
	Len() int
}

type vadapt[K, V any] struct {
	m   api[K, V]
	enc []K
	eq  func(a, b K) bool
}

func (a vadapt[K, V]) Store(k int, v V)                 { a.m.Store(a.enc[k], v) }
func (a vadapt[K, V]) Load(k int) (V, bool)             { return a.m.Load(a.enc[k]) }
func (a vadapt[K, V]) LoadOrStore(k int, v V) (V, bool) { return a.m.LoadOrStore(a.enc[k], v) }
func (a vadapt[K, V]) LoadOrStoreLazy(k int, f func() V) (V, bool) {
	return a.m.LoadOrStoreLazy(a.enc[k], f)
}
func (a vadapt[K, V]) LoadAndDelete(k int) (V, bool) { return a.m.LoadAndDelete(a.enc[k]) }
func (a vadapt[K, V]) Delete(k int) bool             { return a.m.Delete(a.enc[k]) }
func (a vadapt[K, V]) Len() int                      { return a.m.Len() }
func (a vadapt[K, V]) Range(f func(k int, v V) bool) {
	a.m.Range(func(k K, v V) bool {
		for i := range a.enc {
			if a.eq(k, a.enc[i]) {
				return f(i, v)
			}
		}
		return f(badKey, v)
	})
}

type vctor[V any] struct {
	name string
	mk   func() vmap[V]
}

func vc[K, V any, M api[K, V]](name string, f func() M, enc []K, eq func(a, b K) bool) vctor[V] {
	return vctor[V]{name, func() vmap[V] { return vadapt[K, V]{f(), enc, eq} }}
}

// vctors are all constructors with values of type V and the six keys of the main alphabet or fewer.
func vctors[V any]() []vctor[V] {
	nan := math.NaN()
	return []vctor[V]{
		vc("NewInt", skipmap.NewInt[V], []int{-1, 0, 1}, eqc[int]),
		vc("NewFunc", func() *skipmap.FuncMap[fkey, V] { return skipmap.NewFunc[fkey, V](fless) }, []fkey{{1, 0}, {2, 0}, {3, 0}}, eqc[fkey]),
		vc("NewIntDesc", skipmap.NewIntDesc[V], []int{1, 0, -1}, eqc[int]),
		vc("New", skipmap.New[int, V], []int{-1, 0, 1}, eqc[int]),
		vc("NewDesc", skipmap.NewDesc[int, V], []int{1, 0, -1}, eqc[int]),
		vc("NewString", skipmap.NewString[V], []string{"", "a", "b"}, eqc[string]),
		vc("NewStringDesc", skipmap.NewStringDesc[V], []string{"b", "a", ""}, eqc[string]),
		vc("NewInt32", skipmap.NewInt32[V], []int32{-1, 0, 1}, eqc[int32]),
		vc("NewInt32Desc", skipmap.NewInt32Desc[V], []int32{1, 0, -1}, eqc[int32]),
		vc("NewInt64", skipmap.NewInt64[V], []int64{-1, 0, 1}, eqc[int64]),
		vc("NewInt64Desc", skipmap.NewInt64Desc[V], []int64{1, 0, -1}, eqc[int64]),
		vc("NewUint", skipmap.NewUint[V], []uint{0, 1, 2}, eqc[uint]),
		vc("NewUintDesc", skipmap.NewUintDesc[V], []uint{2, 1, 0}, eqc[uint]),
		vc("NewUint32", skipmap.NewUint32[V], []uint32{0, 1, 2}, eqc[uint32]),
		vc("NewUint32Desc", skipmap.NewUint32Desc[V], []uint32{2, 1, 0}, eqc[uint32]),
		vc("NewUint64", skipmap.NewUint64[V], []uint64{0, 1, 2}, eqc[uint64]),
		vc("NewUint64Desc", skipmap.NewUint64Desc[V], []uint64{2, 1, 0}, eqc[uint64]),
		vc("NewFloat64", skipmap.NewFloat64[V], []float64{nan, 0, 1}, eqf[float64]),
		vc("NewFloat64Desc", skipmap.NewFloat64Desc[V], []float64{nan, 1, 0}, eqf[float64]),
		vc("NewFloat32", skipmap.NewFloat32[V], []float32{float32(nan), 0, 1}, eqf[float32]),
		vc("NewFloat32Desc", skipmap.NewFloat32Desc[V], []float32{float32(nan), 1, 0}, eqf[float32]),
	}
}

// valueUnits runs all sequences of n operations with values of one type. The
// variables passed to and received from the map are changed afterwards.
func valueUnits[V any](name string, n int, vals []V, same func(a, b V) bool) []Unit {
	var us []Unit
	for _, c := range vctors[V]() {
		us = append(us, Unit{Name: fmt.Sprintf("values of type %s, all sequences of %d/%s", name, n, c.name), Run: func(w *W) *Viol {
			return valueRun(w, c, name, n, vals, same)
		}})
	}
	return us
}

func valueRun[V any](w *W, c vctor[V], name string, n int, vals []V, same func(a, b V) bool) *Viol {
	type vop struct {
		k   Kind
		key int
		v   int
	}
	var alpha []vop
	for key := 0; key < 2; key++ {
		for _, k := range pointKinds {
			if !inserts(k) {
				alpha = append(alpha, vop{k, key, 0})
				continue
			}
			for v := range vals {
				alpha = append(alpha, vop{k, key, v})
			}
		}
	}
	var zero V
	other := func(v int) V { // some different value of the type, for overwriting variables
		if v+1 < len(vals) {
			return vals[v+1]
		}
		return vals[0]
	}
	show := func(ops []vop) string {
		var b strings.Builder
		for _, o := range ops {
			fmt.Fprintf(&b, "%s(k%d", kindNames[o.k], o.key)
			if inserts(o.k) {
				fmt.Fprintf(&b, ", v%d", o.v)
			}
			b.WriteString(") ")
		}
		return b.String()
	}
	run := func(ops []vop) string {
		return w.seq(func(x *vrt.Exec) string {
			m := c.mk()
			cur := [3]int{-1, -1, -1}
			for i, o := range ops {
				x.T().Begin()
				x.T().Grow = i * 3 % 5
				had := cur[o.key]
				var v, keep V
				var ok, chk bool
				want := -1
				switch o.k {
				case KStore:
					in := vals[o.v]
					m.Store(o.key, in)
					in = other(o.v)
					keep = in
					cur[o.key] = o.v
				case KLoad:
					v, ok = m.Load(o.key)
					chk, want = true, had
				case KLOS:
					in := vals[o.v]
					v, ok = m.LoadOrStore(o.key, in)
					in = other(o.v)
					keep = in
					if had < 0 {
						cur[o.key] = o.v
					}
					chk, want = true, cur[o.key]
				case KLazy:
					in := vals[o.v]
					v, ok = m.LoadOrStoreLazy(o.key, func() V { return in })
					in = other(o.v)
					keep = in
					if had < 0 {
						cur[o.key] = o.v
					}
					chk, want = true, cur[o.key]
				case KLAD:
					v, ok = m.LoadAndDelete(o.key)
					chk, want = true, had
					cur[o.key] = -1
				case KDel:
					if m.Delete(o.key) != (had >= 0) {
						return fmt.Sprintf("operation %d: Delete gave the wrong result", i+1)
					}
					cur[o.key] = -1
				}
				_ = keep
				if chk {
					if ok != (had >= 0) {
						return fmt.Sprintf("operation %d: %s reported %v", i+1, kindNames[o.k], ok)
					}
					e := zero
					if want >= 0 {
						e = vals[want]
					}
					if !same(v, e) {
						return fmt.Sprintf("operation %d: %s gave %v, not %v", i+1, kindNames[o.k], any(v), any(e))
					}
					v = other(0)
				}
				for k, at := range cur {
					v, ok := m.Load(k)
					e := zero
					if at >= 0 {
						e = vals[at]
					}
					if ok != (at >= 0) || !same(v, e) {
						return fmt.Sprintf("after operation %d key k%d holds %v,%v, not %v", i+1, k, any(v), ok, any(e))
					}
				}
				nr, bad := 0, ""
				m.Range(func(k int, v V) bool {
					nr++
					if k < 0 || k > 2 || cur[k] < 0 || !same(v, vals[cur[k]]) {
						bad = fmt.Sprintf("after operation %d Range passed k%d with %v", i+1, k, any(v))
					}
					v = other(0)
					keep = v
					return true
				})
				cnt := 0
				for _, a := range cur {
					if a >= 0 {
						cnt++
					}
				}
				if bad != "" {
					return bad
				}
				if nr != cnt || m.Len() != cnt {
					return fmt.Sprintf("after operation %d Range passed %d entries, Len() = %d, stored %d", i+1, nr, m.Len(), cnt)
				}
			}
			return ""
		})
	}
	idx := make([]int, n)
	ops := make([]vop, n)
	for cnt := 0; ; cnt++ {
		for i := range idx {
			ops[i] = alpha[idx[i]]
		}
		w.Stats.States++
		w.Stats.Scenarios++
		w.Stats.Transitions += n
		if s := run(ops); s != "" {
			if s = w.again(func() string { return run(ops) }); s != "" {
				v := w.viol(s)
				v.Ctor, v.Scenario = c.name, "values of type "+name+": "+show(ops)
				return v
			}
		}
		if cnt&255 == 0 {
			progress.Add(1)
			if w.expired() {
				w.Stats.Incomplete++
				return nil
			}
		}
		i := n - 1
		for i >= 0 {
			idx[i]++
			if idx[i] < len(alpha) {
				break
			}
			idx[i] = 0
			i--
		}
		if i < 0 {
			return nil
		}
	}
}

type (
	mixed struct {
		A uint8
		S string
		B int64
		P *int
		F float32
		I any
	}
	bigArr [40]uint64
	tri    [3]uint8
)

func mixedEq(a, b mixed) bool { return a == b }

func allValueUnits(n int) []Unit {
	x, y := new(int), new(int)
	*x, *y = 1, 1
	sa, sb := []int{1, 2, 3}, make([]int, 1, 8)
	var b1, b2 bigArr
	for i := range b1 {
		b1[i], b2[i] = uint64(i)+1, ^uint64(i)
	}
	f1, f2 := func() int { return 1 }, func() int { return 2 }
	ch := make(chan int)
	mp := map[int]int{1: 1}
	e1, e2 := errors.New("e"), errors.New("e")
	lists := [][]Unit{
		valueUnits("struct{}", n, []struct{}{{}}, func(a, b struct{}) bool { return true }),
		valueUnits("multi-word struct", n, []mixed{{1, "x", -1, x, 1.5, 3}, {}, {255, "yy", math.MinInt64, y, -2, "s"}}, mixedEq),
		valueUnits("[40]uint64", n, []bigArr{b1, {}, b2}, eqc[bigArr]),
		valueUnits("[3]uint8", n, []tri{{1, 2, 3}, {}, {255, 0, 1}}, eqc[tri]),
		valueUnits("[0]int", n, [][0]int{{}}, func(a, b [0]int) bool { return true }),
		valueUnits("string", n, []string{"abc", "", strings.Repeat("z", 100)}, eqc[string]),
		valueUnits("[]int", n, [][]int{sa, nil, sb, {}}, func(a, b []int) bool {
			return (a == nil) == (b == nil) && len(a) == len(b) && cap(a) == cap(b) && (cap(a) == 0 || &a[:1][0] == &b[:1][0])
		}),
		valueUnits("*int", n, []*int{x, nil, y}, eqc[*int]),
		valueUnits("any", n, []any{1, nil, "s", (*int)(nil), x, struct{}{}}, eqc[any]),
		valueUnits("error", n, []error{e1, nil, e2}, eqc[error]),
		valueUnits("func() int", n, []func() int{f1, nil, f2}, func(a, b func() int) bool {
			return (a == nil) == (b == nil) && (a == nil || a() == b())
		}),
		valueUnits("chan int", n, []chan int{ch, nil}, eqc[chan int]),
		valueUnits("map[int]int", n, []map[int]int{mp, nil}, func(a, b map[int]int) bool { return (a == nil) == (b == nil) && len(a) == len(b) }),
		valueUnits("bool", n, []bool{true, false}, eqc[bool]),
		valueUnits("uint8", n, []uint8{1, 0, 255}, eqc[uint8]),
		valueUnits("float64", n, []float64{math.NaN(), 0, math.Copysign(0, -1), math.Inf(1)}, func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }),
		valueUnits("complex128", n, []complex128{complex(1, -2), 0}, eqc[complex128]),
	}
	return round(lists...)
}

func init() {
	checks["C15"] = func(th bool) []Unit {
		us := append(allValueUnits(1), allValueUnits(2)...)
		us = append(us, allValueUnits(3)...)
		if th {
			us = append(us, allValueUnits(4)...)
		}
		return us
	}
}
