package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/zhangyunhao116/skipmap"
	"verifmc/vrt"
)

// NK is the number of key codes; key code i is the i-th key in map order.
const NK = 6

// Map is a map of any type, with keys and values coded as small integers.
type Map interface {
	Store(k, v int)
	Load(k int) (int, bool)
	LoadOrStore(k, v int) (int, bool)
	LoadOrStoreLazy(k int, f func() int) (int, bool)
	LoadAndDelete(k int) (int, bool)
	Delete(k int) bool
	Range(f func(k, v int) bool)
	Len() int
}

type api[K, V any] interface {
	Store(K, V)
	Load(K) (V, bool)
	LoadOrStore(K, V) (V, bool)
	LoadOrStoreLazy(K, func() V) (V, bool)
	LoadAndDelete(K) (V, bool)
	Delete(K) bool
	Range(func(K, V) bool)
	Len() int
}

type adaptor[K, V any] struct {
	m   api[K, V]
	enc []K
	eq  func(a, b K) bool
	ve  func(int) V
	vd  func(V) int
}

const badKey = -77

func (a *adaptor[K, V]) dec(k K) int {
	for i := range a.enc {
		if a.eq(k, a.enc[i]) {
			return i
		}
	}
	return badKey
}
func (a *adaptor[K, V]) val(v V, ok bool) (int, bool) { return a.vd(v), ok }
func (a *adaptor[K, V]) Store(k, v int)               { a.m.Store(a.enc[k], a.ve(v)) }
func (a *adaptor[K, V]) Load(k int) (int, bool)       { return a.val(a.m.Load(a.enc[k])) }
func (a *adaptor[K, V]) LoadOrStore(k, v int) (int, bool) {
	return a.val(a.m.LoadOrStore(a.enc[k], a.ve(v)))
}
func (a *adaptor[K, V]) LoadOrStoreLazy(k int, f func() int) (int, bool) {
	return a.val(a.m.LoadOrStoreLazy(a.enc[k], func() V { return a.ve(f()) }))
}
func (a *adaptor[K, V]) LoadAndDelete(k int) (int, bool) { return a.val(a.m.LoadAndDelete(a.enc[k])) }
func (a *adaptor[K, V]) Delete(k int) bool               { return a.m.Delete(a.enc[k]) }
func (a *adaptor[K, V]) Range(f func(k, v int) bool) {
	a.m.Range(func(k K, v V) bool { return f(a.dec(k), a.vd(v)) })
}
func (a *adaptor[K, V]) Len() int { return a.m.Len() }

// Big is a multi-word value with an integrity relation between its words and
// a payload that the storing goroutine initialises with plain writes.
type Big struct {
	A uint64
	S string
	B uint64
	P *payload
}
type payload struct{ v int }

func encBig(v int) Big {
	p := &payload{}
	*vrt.W(&p.v) = v
	return Big{uint64(v), strings.Repeat("x", v&7), ^uint64(v), p}
}

const torn = -1000001

func decBig(b Big) int {
	if b.P == nil {
		if b.A == 0 && b.B == 0 && b.S == "" {
			return 0
		}
		return torn
	}
	v := *vrt.R(&b.P.v)
	if b.A != uint64(v) || b.B != ^uint64(v) || len(b.S) != v&7 {
		return torn
	}
	return v
}

// Ctor is one way to construct a map.
type Ctor struct {
	Name string
	File string // generated file that holds the code of the map type
	Mk   func() Map
	Big  func() Map

	Extra int // entries that are always there (crowded maps)
}

func eqc[K comparable](a, b K) bool { return a == b }
func eqf[K float32 | float64](a, b K) bool {
	return a == b || a != a && b != b
}

func rev[K any](s []K) []K {
	r := make([]K, len(s))
	for i := range s {
		r[len(s)-1-i] = s[i]
	}
	return r
}

func mk[K, V any, M api[K, V]](f func() M, enc []K, eq func(a, b K) bool, ve func(int) V, vd func(V) int) func() Map {
	return func() Map { return &adaptor[K, V]{f(), enc, eq, ve, vd} }
}

func id(v int) int { return v }

func ctor[K any, MI api[K, int], MB api[K, Big]](name, file string, fi func() MI, fb func() MB, enc []K, eq func(a, b K) bool) Ctor {
	if len(enc) != NK {
		panic("key alphabet of " + name)
	}
	return Ctor{Name: name, File: file, Mk: mk(fi, enc, eq, id, id), Big: mk(fb, enc, eq, encBig, decBig)}
}

// ints includes the extreme values: comparing by subtraction overflows.
func ints[K int | int32 | int64](bits int) []K {
	hi := K(1)<<(bits-2) - 1 + K(1)<<(bits-2)
	return []K{-hi - 1, -1, 0, 1, hi - 1, hi}
}

func uints[K uint | uint32 | uint64]() []K {
	return []K{0, 1, 2, ^K(0)/2 + 1, ^K(0) - 1, ^K(0)}
}

type fkey struct{ a, b int }

func fless(x, y fkey) bool { return x.a < y.a }

var ctors = func() []Ctor {
	var (
		i   = ints[int](strconv.IntSize)
		i32 = ints[int32](32)
		i64 = ints[int64](64)
		u   = uints[uint]()
		u32 = uints[uint32]()
		u64 = uints[uint64]()
		s   = []string{"", "a", "a common prefix 1", "a common prefix 1\x00", "a common prefix 2", "b"}
		f64 = []float64{math.NaN(), math.Inf(-1), -1.5, 0, 0.5, math.Inf(1)}
		f32 = []float32{float32(math.NaN()), float32(math.Inf(-1)), -1.5, 0, 2.5, float32(math.Inf(1))}
		d64 = []float64{math.NaN(), math.Inf(1), 2.5, 0, -1.5, math.Inf(-1)}
		d32 = []float32{float32(math.NaN()), float32(math.Inf(1)), 2.5, 0, -1.5, float32(math.Inf(-1))}
		fk  = []fkey{{1, 0}, {2, 0}, {3, 0}, {4, 0}, {5, 0}, {6, 0}}
	)
	return []Ctor{
		ctor("NewInt", "gen_int.go", skipmap.NewInt[int], skipmap.NewInt[Big], i, eqc[int]),
		ctor("NewFunc", "gen_func.go",
			func() *skipmap.FuncMap[fkey, int] { return skipmap.NewFunc[fkey, int](fless) },
			func() *skipmap.FuncMap[fkey, Big] { return skipmap.NewFunc[fkey, Big](fless) }, fk, eqc[fkey]),
		ctor("NewIntDesc", "gen_intdesc.go", skipmap.NewIntDesc[int], skipmap.NewIntDesc[Big], rev(i), eqc[int]),
		ctor("New", "gen_ordered.go", skipmap.New[int, int], skipmap.New[int, Big], i, eqc[int]),
		ctor("NewDesc", "gen_ordereddesc.go", skipmap.NewDesc[int, int], skipmap.NewDesc[int, Big], rev(i), eqc[int]),
		ctor("NewString", "gen_string.go", skipmap.NewString[int], skipmap.NewString[Big], s, eqc[string]),
		ctor("NewStringDesc", "gen_stringdesc.go", skipmap.NewStringDesc[int], skipmap.NewStringDesc[Big], rev(s), eqc[string]),
		ctor("NewInt32", "gen_int32.go", skipmap.NewInt32[int], skipmap.NewInt32[Big], i32, eqc[int32]),
		ctor("NewInt32Desc", "gen_int32desc.go", skipmap.NewInt32Desc[int], skipmap.NewInt32Desc[Big], rev(i32), eqc[int32]),
		ctor("NewInt64", "gen_int64.go", skipmap.NewInt64[int], skipmap.NewInt64[Big], i64, eqc[int64]),
		ctor("NewInt64Desc", "gen_int64desc.go", skipmap.NewInt64Desc[int], skipmap.NewInt64Desc[Big], rev(i64), eqc[int64]),
		ctor("NewUint", "gen_uint.go", skipmap.NewUint[int], skipmap.NewUint[Big], u, eqc[uint]),
		ctor("NewUintDesc", "gen_uintdesc.go", skipmap.NewUintDesc[int], skipmap.NewUintDesc[Big], rev(u), eqc[uint]),
		ctor("NewUint32", "gen_uint32.go", skipmap.NewUint32[int], skipmap.NewUint32[Big], u32, eqc[uint32]),
		ctor("NewUint32Desc", "gen_uint32desc.go", skipmap.NewUint32Desc[int], skipmap.NewUint32Desc[Big], rev(u32), eqc[uint32]),
		ctor("NewUint64", "gen_uint64.go", skipmap.NewUint64[int], skipmap.NewUint64[Big], u64, eqc[uint64]),
		ctor("NewUint64Desc", "gen_uint64desc.go", skipmap.NewUint64Desc[int], skipmap.NewUint64Desc[Big], rev(u64), eqc[uint64]),
		ctor("NewFloat64", "gen_func.go+NewFloat64", skipmap.NewFloat64[int], skipmap.NewFloat64[Big], f64, eqf[float64]),
		ctor("NewFloat64Desc", "gen_func.go+NewFloat64Desc", skipmap.NewFloat64Desc[int], skipmap.NewFloat64Desc[Big], d64, eqf[float64]),
		ctor("NewFloat32", "gen_func.go+NewFloat32", skipmap.NewFloat32[int], skipmap.NewFloat32[Big], f32, eqf[float32]),
		ctor("NewFloat32Desc", "gen_func.go+NewFloat32Desc", skipmap.NewFloat32Desc[int], skipmap.NewFloat32Desc[Big], d32, eqf[float32]),
	}
}()

func ctorByName(n string) *Ctor {
	for i := range ctors {
		if ctors[i].Name == n {
			return &ctors[i]
		}
	}
	panic(fmt.Sprintf("no constructor %q", n))
}
