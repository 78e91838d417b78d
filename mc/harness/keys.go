package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"github.com/zhangyunhao116/skipmap"
	"verifmc/vrt"
)

// C09: every constructor over boundary keys of its key type. classes lists
// the keys in map order; keys within a class are equal for the map.

type keyTest struct {
	name string
	n    int // keys
	run  func(w *W, seq []int, dels []int) string
	show func(i int) string
}

// mkKeyTest builds the test of one constructor. same must be independent of the map's own comparison.
func mkKeyTest[K any, M api[K, int]](name string, f func() M, classes [][]K, same func(a, b K) bool, show func(K) string) keyTest {
	var keys []K
	var cls []int
	for i, c := range classes {
		for _, k := range c {
			keys = append(keys, k)
			cls = append(cls, i)
		}
	}
	find := func(k K) int {
		for i := range keys {
			if same(k, keys[i]) {
				return cls[i]
			}
		}
		return -1
	}
	run := func(w *W, seq []int, dels []int) string {
		m := f()
		val := make([]int, len(classes))
		n := 0
		check := func() string {
			for i, k := range keys {
				v, ok := m.Load(k)
				if ok != (val[cls[i]] != 0) || v != val[cls[i]] {
					return fmt.Sprintf("Load(%s) = %d,%v; stored: %d", show(k), v, ok, val[cls[i]])
				}
			}
			next, bad := 0, ""
			cnt := 0
			m.Range(func(k K, v int) bool {
				cnt++
				for next < len(val) && val[next] == 0 {
					next++
				}
				g := find(k)
				if next >= len(val) || g != next || v != val[next] {
					bad = fmt.Sprintf("Range gave %s as entry %d", show(k), cnt)
					if next < len(val) {
						bad += ", expected " + show(classes[next][0])
					}
					return false
				}
				next++
				return true
			})
			if bad != "" {
				return bad
			}
			if cnt != n {
				return fmt.Sprintf("Range gave %d of %d keys", cnt, n)
			}
			if l := m.Len(); l != n {
				return fmt.Sprintf("Len() = %d with %d keys", l, n)
			}
			return ""
		}
		for i, k := range seq {
			x, c := keys[k], cls[k]
			vrt.X.T().Grow = (i * 2) % 3
			old := val[c]
			switch i % 3 {
			case 0:
				m.Store(x, i+1)
				val[c] = i + 1
			case 1:
				v, ok := m.LoadOrStore(x, i+1)
				if ok != (old != 0) || ok && v != old || !ok && v != i+1 {
					return fmt.Sprintf("LoadOrStore(%s) = %d,%v; stored: %d", show(x), v, ok, old)
				}
				if !ok {
					val[c] = i + 1
				}
			case 2:
				v, ok := m.LoadOrStoreLazy(x, func() int { return i + 1 })
				if ok != (old != 0) || ok && v != old || !ok && v != i+1 {
					return fmt.Sprintf("LoadOrStoreLazy(%s) = %d,%v; stored: %d", show(x), v, ok, old)
				}
				if !ok {
					val[c] = i + 1
				}
			}
			if old == 0 {
				n++
			}
			if s := check(); s != "" {
				return s
			}
		}
		for i, k := range dels {
			x, c := keys[k], cls[k]
			old := val[c]
			var ok bool
			if i%2 == 0 {
				ok = m.Delete(x)
			} else {
				var v int
				v, ok = m.LoadAndDelete(x)
				if v != old {
					return fmt.Sprintf("LoadAndDelete(%s) = %d,%v; stored: %d", show(x), v, ok, old)
				}
			}
			if ok != (old != 0) {
				return fmt.Sprintf("deleting %s gave %v; stored: %d", show(x), ok, old)
			}
			if old != 0 {
				n--
				val[c] = 0
			}
			if s := check(); s != "" {
				return s
			}
		}
		return ""
	}
	return keyTest{name, len(keys), run, func(i int) string { return show(keys[i]) }}
}

func (t keyTest) one(w *W, seq []int) string {
	return w.seq(func(x *vrt.Exec) string {
		x.T().Begin()
		dels := make([]int, len(seq))
		for i := range seq {
			dels[i] = seq[(i*2+1)%len(seq)]
		}
		return t.run(w, seq, append(dels, seq...))
	})
}

// unit runs all sequences of up to n of the keys.
func (t keyTest) unit(n int) Unit {
	return Unit{Name: fmt.Sprintf("all sequences of %d keys/%s", n, t.name), Run: func(w *W) *Viol {
		seq := make([]int, n)
		for cnt := 0; ; cnt++ {
			w.Stats.States++
			w.Stats.Scenarios++
			w.Stats.Transitions += 3 * n
			if s := t.one(w, seq); s != "" {
				if s = w.again(func() string { return t.one(w, seq) }); s != "" {
					v := w.viol(s)
					v.Ctor = t.name
					for _, i := range seq {
						v.Scenario += t.show(i) + " "
					}
					return v
				}
			}
			if cnt&63 == 0 {
				progress.Add(1)
				if w.expired() {
					w.Stats.Incomplete++
					return nil
				}
			}
			i := n - 1
			for i >= 0 {
				seq[i]++
				if seq[i] < t.n {
					break
				}
				seq[i] = 0
				i--
			}
			if i < 0 {
				w.count("keys of "+t.name, t.n)
				return nil
			}
		}
	}}
}

func showAny[K any](k K) string { return fmt.Sprintf("%v", k) }

func single[K any](ks ...K) [][]K {
	var r [][]K
	for _, k := range ks {
		r = append(r, []K{k})
	}
	return r
}

type signed interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64
}
type unsigned interface {
	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}
type floats interface{ ~float32 | ~float64 }

// signedKeys are the extreme values and values that differ only in high, only
// in low bits or beyond the precision of floats.
func signedKeys[K signed](bits int) [][]K {
	lo := int64(-1) << (bits - 1)
	hi := -(lo + 1)
	half := int64(1) << (bits / 2)
	c := []int64{lo, lo + 1, -half - 1, -half, -2, -1, 0, 1, 2, half, half + 1, hi - 1, hi}
	if bits == 64 {
		c = []int64{lo, lo + 1, -half - 1, -half, -1, 0, 1, half - 1, half, half + 1, 1 << 53, 1<<53 + 1, hi - 1, hi}
	}
	var r [][]K
	for _, v := range c {
		r = append(r, []K{K(v)})
	}
	return r
}

func unsignedKeys[K unsigned](bits int) [][]K {
	top := uint64(1) << (bits - 1)
	hi := top + (top - 1)
	half := uint64(1) << (bits / 2)
	c := []uint64{0, 1, 2, half - 1, half, half + 1, top - 1, top, top + 1, hi - 1, hi}
	if bits == 64 {
		c = []uint64{0, 1, half - 1, half, half + 1, 1 << 53, 1<<53 + 1, top - 1, top, top + 1, hi - 1, hi}
	}
	var r [][]K
	for _, v := range c {
		r = append(r, []K{K(v)})
	}
	return r
}

func f64Keys[K ~float64]() [][]K {
	nan := []K{K(math.NaN()), K(math.Float64frombits(0xfff8000000000001)), K(math.Float64frombits(0x7ff0000000000001))}
	r := [][]K{nan}
	for _, v := range []float64{math.Inf(-1), -math.MaxFloat64, -1, -math.SmallestNonzeroFloat64} {
		r = append(r, []K{K(v)})
	}
	r = append(r, []K{K(math.Copysign(0, -1)), K(0)})
	for _, v := range []float64{math.SmallestNonzeroFloat64, 1, math.Nextafter(1, 2), math.MaxFloat64, math.Inf(1)} {
		r = append(r, []K{K(v)})
	}
	return r
}

func f32Keys[K ~float32]() [][]K {
	nan := []K{K(math.NaN()), K(math.Float32frombits(0xffc00001)), K(math.Float32frombits(0x7f800001))}
	r := [][]K{nan}
	for _, v := range []float32{float32(math.Inf(-1)), -math.MaxFloat32, -1, -math.SmallestNonzeroFloat32} {
		r = append(r, []K{K(v)})
	}
	r = append(r, []K{K(math.Copysign(0, -1)), K(0)})
	for _, v := range []float32{math.SmallestNonzeroFloat32, 1, math.Nextafter32(1, 2), math.MaxFloat32, float32(math.Inf(1))} {
		r = append(r, []K{K(v)})
	}
	return r
}

func stringKeys[K ~string]() [][]K {
	long := strings.Repeat("long common prefix ", 20)
	return single[K]("", "\x00", "A", "Z", "a", "a\x00", "aa", "ab", "b", K(long), K(long+"1"), K(long+"2"), "\u00e9", "\u65e5\u672c", "\xff", "\xff\x00")
}

// The walks are larger key sets of which all pairs are tried: every power of two and its
// neighbours, and strings that differ in any one place.
func classesOf[K any](ks []K, less func(a, b K) bool) [][]K {
	sort.Slice(ks, func(i, j int) bool { return less(ks[i], ks[j]) })
	var r [][]K
	for i, k := range ks {
		if i == 0 || less(ks[i-1], k) {
			r = append(r, []K{k})
		}
	}
	return r
}

func lessThan[K signed | unsigned | floats | ~string](a, b K) bool { return a < b }

func walkInts[K signed | unsigned]() [][]K {
	var ks []K
	for v, i := K(1), 0; v != 0 && i < 64; v, i = v<<1, i+1 {
		ks = append(ks, v, v-1, -v, ^v)
	}
	return classesOf(ks, lessThan[K])
}

func walkFloats[K floats](exps []int) [][]K {
	var ks []K
	for _, e := range exps {
		for _, m := range []float64{1, 1.5} {
			v := K(math.Ldexp(m, e))
			ks = append(ks, v, -v, v+1, -v-1, v*(1+1.0/(1<<20)))
		}
	}
	return classesOf(ks, lessThan[K])
}

func walkStrings[K ~string]() [][]K {
	ks := []K{""}
	for _, n := range []int{1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 256} {
		b := []byte(strings.Repeat("m", n))
		ks = append(ks, K(b))
		for _, p := range []int{0, 1, 3, 7, 8, 15, 16, 31, 32, 63, 64, n - 1} {
			if p >= 0 && p < n && (p == n-1 || p != n-2) {
				for _, c := range []byte{'a', 0x80} {
					b[p] = c
					ks = append(ks, K(b))
				}
				b[p] = 'm'
			}
		}
	}
	return classesOf(ks, lessThan[K])
}

// longStrings have lengths around n and differ in one place, if at all; one of
// each class has its bytes elsewhere, and the prefixes of one string share them.
func longStrings[K ~string](n int) [][]K {
	var ks []K
	all := strings.Repeat("m", n+1)
	for l := n - 1; l <= n+1; l++ {
		ks = append(ks, K(all[:l]))
		b := []byte(all[:l])
		for _, p := range []int{0, l / 2, l - 1} {
			b[p] = 'n'
			ks = append(ks, K(b))
			b[p] = 'm'
		}
	}
	cs := classesOf(ks, lessThan[K])
	for i := range cs {
		cs[i] = append(cs[i], K(strings.Clone(string(cs[i][0]))))
	}
	return cs
}

func longTests() (r []keyTest) {
	for _, n := range []int{8, 64, 128, 256, 1024, 4096, 65536} {
		s := longStrings[string](n)
		r = append(r, mkKeyTest(fmt.Sprintf("NewString, length %d", n), skipmap.NewString[int], s, eqc[string], quoted),
			mkKeyTest(fmt.Sprintf("NewStringDesc, length %d", n), skipmap.NewStringDesc[int], rev(s), eqc[string], quoted),
			mkKeyTest(fmt.Sprintf("New[string], length %d", n), skipmap.New[string, int], s, eqc[string], quoted),
			mkKeyTest(fmt.Sprintf("NewDesc[string], length %d", n), skipmap.NewDesc[string, int], rev(s), eqc[string], quoted))
	}
	return
}

// walks are the constructors with the large key sets.
func walks() []keyTest {
	e64 := []int{-1074, -1022, -500, -126, -64, -32, -1, 0, 1, 23, 24, 31, 32, 52, 53, 62, 63, 64, 127, 500, 1023}
	e32 := []int{-149, -126, -64, -32, -1, 0, 1, 23, 24, 31, 32, 62, 63, 64, 126}
	f64, f32 := walkFloats[float64](e64), walkFloats[float32](e32)
	wi, wi32, wi64 := walkInts[int](), walkInts[int32](), walkInts[int64]()
	wu, wu32, wu64 := walkInts[uint](), walkInts[uint32](), walkInts[uint64]()
	ws := walkStrings[string]()
	return []keyTest{
		mkKeyTest("NewInt", skipmap.NewInt[int], wi, eqc[int], showAny[int]),
		mkKeyTest("NewIntDesc", skipmap.NewIntDesc[int], rev(wi), eqc[int], showAny[int]),
		mkKeyTest("NewInt64", skipmap.NewInt64[int], wi64, eqc[int64], showAny[int64]),
		mkKeyTest("NewInt64Desc", skipmap.NewInt64Desc[int], rev(wi64), eqc[int64], showAny[int64]),
		mkKeyTest("NewInt32", skipmap.NewInt32[int], wi32, eqc[int32], showAny[int32]),
		mkKeyTest("NewInt32Desc", skipmap.NewInt32Desc[int], rev(wi32), eqc[int32], showAny[int32]),
		mkKeyTest("NewUint", skipmap.NewUint[int], wu, eqc[uint], showAny[uint]),
		mkKeyTest("NewUintDesc", skipmap.NewUintDesc[int], rev(wu), eqc[uint], showAny[uint]),
		mkKeyTest("NewUint64", skipmap.NewUint64[int], wu64, eqc[uint64], showAny[uint64]),
		mkKeyTest("NewUint64Desc", skipmap.NewUint64Desc[int], rev(wu64), eqc[uint64], showAny[uint64]),
		mkKeyTest("NewUint32", skipmap.NewUint32[int], wu32, eqc[uint32], showAny[uint32]),
		mkKeyTest("NewUint32Desc", skipmap.NewUint32Desc[int], rev(wu32), eqc[uint32], showAny[uint32]),
		mkKeyTest("NewString", skipmap.NewString[int], ws, eqc[string], quoted),
		mkKeyTest("NewStringDesc", skipmap.NewStringDesc[int], rev(ws), eqc[string], quoted),
		mkKeyTest("NewFloat64", skipmap.NewFloat64[int], f64, eqnan[float64], showAny[float64]),
		mkKeyTest("NewFloat64Desc", skipmap.NewFloat64Desc[int], rev(f64), eqnan[float64], showAny[float64]),
		mkKeyTest("NewFloat32", skipmap.NewFloat32[int], f32, eqnan[float32], showAny[float32]),
		mkKeyTest("NewFloat32Desc", skipmap.NewFloat32Desc[int], rev(f32), eqnan[float32], showAny[float32]),
		mkKeyTest("New[int]", skipmap.New[int, int], wi, eqc[int], showAny[int]),
		mkKeyTest("NewDesc[int]", skipmap.NewDesc[int, int], rev(wi), eqc[int], showAny[int]),
		mkKeyTest("New[uint64]", skipmap.New[uint64, int], wu64, eqc[uint64], showAny[uint64]),
		mkKeyTest("NewDesc[uint64]", skipmap.NewDesc[uint64, int], rev(wu64), eqc[uint64], showAny[uint64]),
		mkKeyTest("New[float32]", skipmap.New[float32, int], f32, eqnan[float32], showAny[float32]),
		mkKeyTest("NewDesc[float32]", skipmap.NewDesc[float32, int], rev(f32), eqnan[float32], showAny[float32]),
		mkKeyTest("New[float64]", skipmap.New[float64, int], f64, eqnan[float64], showAny[float64]),
		mkKeyTest("NewDesc[float64]", skipmap.NewDesc[float64, int], rev(f64), eqnan[float64], showAny[float64]),
		mkKeyTest("New[string]", skipmap.New[string, int], ws, eqc[string], quoted),
		mkKeyTest("NewDesc[string]", skipmap.NewDesc[string, int], rev(ws), eqc[string], quoted),
	}
}

// down turns ascending classes into descending ones; NaN (first) stays first in float maps.
func down[K any](c [][]K, keepFirst bool) [][]K {
	if keepFirst {
		return append([][]K{c[0]}, rev(c[1:])...)
	}
	return rev(c)
}

type (
	myInt    int
	myInt8   int8
	myUint64 uint64
	myFloat  float64
	myFloat3 float32
	myString string
)

func eqnan[K floats](a, b K) bool { return a == b || a != a && b != b }

func ordTests[K interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64 | ~string
}](name string, asc [][]K, float bool, same func(a, b K) bool) []keyTest {
	return []keyTest{
		mkKeyTest("New["+name+"]", skipmap.New[K, int], asc, same, showAny[K]),
		mkKeyTest("NewDesc["+name+"]", skipmap.NewDesc[K, int], down(asc, float), same, showAny[K]),
	}
}

func quoted(s string) string {
	if len(s) > 20 {
		return fmt.Sprintf("%q...(%d bytes)", s[len(s)-10:], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func keyTests() []keyTest {
	var t []keyTest
	add := func(x ...keyTest) { t = append(t, x...) }
	add(
		mkKeyTest("NewInt", skipmap.NewInt[int], signedKeys[int](strconv.IntSize), eqc[int], showAny[int]),
		mkKeyTest("NewIntDesc", skipmap.NewIntDesc[int], rev(signedKeys[int](strconv.IntSize)), eqc[int], showAny[int]),
		mkKeyTest("NewInt64", skipmap.NewInt64[int], signedKeys[int64](64), eqc[int64], showAny[int64]),
		mkKeyTest("NewInt64Desc", skipmap.NewInt64Desc[int], rev(signedKeys[int64](64)), eqc[int64], showAny[int64]),
		mkKeyTest("NewInt32", skipmap.NewInt32[int], signedKeys[int32](32), eqc[int32], showAny[int32]),
		mkKeyTest("NewInt32Desc", skipmap.NewInt32Desc[int], rev(signedKeys[int32](32)), eqc[int32], showAny[int32]),
		mkKeyTest("NewUint", skipmap.NewUint[int], unsignedKeys[uint](strconv.IntSize), eqc[uint], showAny[uint]),
		mkKeyTest("NewUintDesc", skipmap.NewUintDesc[int], rev(unsignedKeys[uint](strconv.IntSize)), eqc[uint], showAny[uint]),
		mkKeyTest("NewUint64", skipmap.NewUint64[int], unsignedKeys[uint64](64), eqc[uint64], showAny[uint64]),
		mkKeyTest("NewUint64Desc", skipmap.NewUint64Desc[int], rev(unsignedKeys[uint64](64)), eqc[uint64], showAny[uint64]),
		mkKeyTest("NewUint32", skipmap.NewUint32[int], unsignedKeys[uint32](32), eqc[uint32], showAny[uint32]),
		mkKeyTest("NewUint32Desc", skipmap.NewUint32Desc[int], rev(unsignedKeys[uint32](32)), eqc[uint32], showAny[uint32]),
		mkKeyTest("NewString", skipmap.NewString[int], stringKeys[string](), eqc[string], quoted),
		mkKeyTest("NewStringDesc", skipmap.NewStringDesc[int], rev(stringKeys[string]()), eqc[string], quoted),
		mkKeyTest("NewFloat64", skipmap.NewFloat64[int], f64Keys[float64](), eqnan[float64], showAny[float64]),
		mkKeyTest("NewFloat64Desc", skipmap.NewFloat64Desc[int], down(f64Keys[float64](), true), eqnan[float64], showAny[float64]),
		mkKeyTest("NewFloat32", skipmap.NewFloat32[int], f32Keys[float32](), eqnan[float32], showAny[float32]),
		mkKeyTest("NewFloat32Desc", skipmap.NewFloat32Desc[int], down(f32Keys[float32](), true), eqnan[float32], showAny[float32]),
	)
	add(ordTests("int", signedKeys[int](strconv.IntSize), false, eqc[int])...)
	add(ordTests("int8", signedKeys[int8](8), false, eqc[int8])...)
	add(ordTests("int16", signedKeys[int16](16), false, eqc[int16])...)
	add(ordTests("int32", signedKeys[int32](32), false, eqc[int32])...)
	add(ordTests("int64", signedKeys[int64](64), false, eqc[int64])...)
	add(ordTests("uint", unsignedKeys[uint](strconv.IntSize), false, eqc[uint])...)
	add(ordTests("uint8", unsignedKeys[uint8](8), false, eqc[uint8])...)
	add(ordTests("uint16", unsignedKeys[uint16](16), false, eqc[uint16])...)
	add(ordTests("uint32", unsignedKeys[uint32](32), false, eqc[uint32])...)
	add(ordTests("uint64", unsignedKeys[uint64](64), false, eqc[uint64])...)
	add(ordTests("uintptr", unsignedKeys[uintptr](strconv.IntSize), false, eqc[uintptr])...)
	add(ordTests("float64", f64Keys[float64](), true, eqnan[float64])...)
	add(ordTests("float32", f32Keys[float32](), true, eqnan[float32])...)
	add(ordTests("string", stringKeys[string](), false, eqc[string])...)
	add(ordTests("named int", signedKeys[myInt](strconv.IntSize), false, eqc[myInt])...)
	add(ordTests("named int8", signedKeys[myInt8](8), false, eqc[myInt8])...)
	add(ordTests("named uint64", unsignedKeys[myUint64](64), false, eqc[myUint64])...)
	add(ordTests("named float64", f64Keys[myFloat](), true, eqnan[myFloat])...)
	add(ordTests("named float32", f32Keys[myFloat3](), true, eqnan[myFloat3])...)
	add(ordTests("named string", stringKeys[myString](), false, eqc[myString])...)
	return t
}

func init() {
	checks["C09"] = func(th bool) []Unit {
		var us []Unit
		for _, t := range walks() {
			us = append(us, t.unit(1))
		}
		for n := 1; n <= pick2(th, 5, 4); n++ {
			if n == 3 {
				for _, t := range append(walks(), longTests()...) {
					us = append(us, t.unit(2))
				}
			}
			for _, t := range keyTests() {
				us = append(us, t.unit(n))
			}
			if n == 1 {
				us = append(us, bytes8()) // every value of the 8- and 16-bit types at once
			}
		}
		return us
	}

	checks["C10"] = func(th bool) []Unit {
		var us []Unit
		for i, r := range weakOrders(4) {
			us = append(us, orderUnit(fmt.Sprintf("weak order %d of 75, sequences of 3", i), r, 3))
		}
		for i, r := range weakOrders(3) {
			us = append(us, orderUnit(fmt.Sprintf("weak order %d of 13 on 3 keys, sequences of 4", i), r, 4))
		}
		us = append(us, orderings()...)
		for i, r := range weakOrders(4) {
			us = append(us, orderUnit(fmt.Sprintf("weak order %d of 75, sequences of 4", i), r, 4))
		}
		if th {
			for i, r := range weakOrders(3) {
				us = append(us, orderUnit(fmt.Sprintf("weak order %d of 13 on 3 keys, sequences of 5", i), r, 5))
			}
			for i, r := range weakOrders(5) {
				us = append(us, orderUnit(fmt.Sprintf("weak order %d of 541 on 5 keys, sequences of 3", i), r, 3))
			}
		}
		return us
	}
}

// bytes8 fills 8- and 16-bit ordered maps with their whole domain.
func bytes8() Unit {
	return Unit{Name: "whole domain of 8- and 16-bit keys", Run: func(w *W) *Viol {
		run := func() string {
			return w.seq(func(x *vrt.Exec) string {
				if s := whole(skipmap.New[int8, int](), func(i int) int8 { return int8(i - 128) }, false); s != "" {
					return "New[int8]: " + s
				}
				if s := whole(skipmap.NewDesc[int8, int](), func(i int) int8 { return int8(i - 128) }, true); s != "" {
					return "NewDesc[int8]: " + s
				}
				if s := whole(skipmap.New[uint8, int](), func(i int) uint8 { return uint8(i) }, false); s != "" {
					return "New[uint8]: " + s
				}
				if s := whole(skipmap.NewDesc[uint8, int](), func(i int) uint8 { return uint8(i) }, true); s != "" {
					return "NewDesc[uint8]: " + s
				}
				if s := whole(skipmap.New[int16, int](), func(i int) int16 { return int16(i - 1<<15) }, false); s != "" {
					return "New[int16]: " + s
				}
				if s := whole(skipmap.NewDesc[int16, int](), func(i int) int16 { return int16(i - 1<<15) }, true); s != "" {
					return "NewDesc[int16]: " + s
				}
				if s := whole(skipmap.New[uint16, int](), func(i int) uint16 { return uint16(i) }, false); s != "" {
					return "New[uint16]: " + s
				}
				if s := whole(skipmap.NewDesc[uint16, int](), func(i int) uint16 { return uint16(i) }, true); s != "" {
					return "NewDesc[uint16]: " + s
				}
				return ""
			})
		}
		w.Stats.States += 4
		w.Stats.Transitions += 1024
		if s := run(); s != "" {
			if s = w.again(run); s != "" {
				return w.viol(s)
			}
		}
		return nil
	}}
}

func whole[K comparable](m api[K, int], key func(i int) K, desc bool) string {
	all := 1 << (8 * unsafe.Sizeof(key(0)))
	for i := 0; i < all; i++ {
		j := i * 77 % all
		vrt.X.T().Begin()
		vrt.X.T().Grow = int(ruler(j)) - 1
		m.Store(key(j), j)
	}
	n, bad := 0, ""
	m.Range(func(k K, v int) bool {
		want := n
		if desc {
			want = all - 1 - n
		}
		if k != key(want) || v != want {
			bad = fmt.Sprintf("entry %d is key %v with %d, expected %v", n, k, v, key(want))
			return false
		}
		n++
		return true
	})
	if bad == "" && (n != all || m.Len() != all) {
		bad = fmt.Sprintf("%d keys, Len %d", n, m.Len())
	}
	return bad
}

// weakOrders lists all strict weak orders of n keys as rank vectors.
func weakOrders(n int) [][]int {
	var out [][]int
	r := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			top := 0
			var used [8]bool
			for _, x := range r {
				used[x] = true
				top = max(top, x)
			}
			for x := 0; x <= top; x++ {
				if !used[x] {
					return
				}
			}
			out = append(out, append([]int(nil), r...))
			return
		}
		for x := 0; x < n; x++ {
			r[i] = x
			rec(i + 1)
		}
	}
	rec(0)
	return out
}

type wkey struct {
	id  int
	tag string
}

// assoc is a sorted association list under a weak order given by ranks.
type assoc struct {
	key [8]int // rank -> id of the key it was inserted with, -1 absent
	val [8]int
}

// orderUnit runs all sequences of n operations on the keys of one weak order.
func orderUnit(name string, rank []int, n int) Unit {
	nk := len(rank)
	tags := []string{"a", "b", "c", "d", "e"}
	return Unit{Name: name, Run: func(w *W) *Viol {
		var alpha []Op
		for _, k := range pointKinds {
			for i := 0; i < nk; i++ {
				alpha = append(alpha, Op{K: k, Key: int8(i)})
			}
		}
		foreign := false
		less := func(a, b wkey) bool {
			if a.tag == "" || b.tag == "" || a.tag != tags[a.id] || b.tag != tags[b.id] {
				foreign = true
				return false
			}
			return rank[a.id] < rank[b.id]
		}
		run := func(ops []Op) string {
			return w.seq(func(x *vrt.Exec) string {
				foreign = false
				m := skipmap.NewFunc[wkey, int](less)
				var as assoc
				for i := range as.key {
					as.key[i] = -1
				}
				cnt := 0
				for i, o := range ops {
					k := wkey{int(o.Key), tags[o.Key]}
					r := rank[o.Key]
					had := as.key[r] >= 0
					old := as.val[r]
					x.T().Begin()
					x.T().Grow = (i * 5) % 4
					val := i + 1
					var v int
					var ok bool
					want, wok := 0, had
					if had {
						want = old
					}
					switch o.K {
					case KStore:
						m.Store(k, val)
						v, ok, want, wok = 0, false, 0, false
						as.val[r] = val
					case KLoad:
						v, ok = m.Load(k)
					case KLOS:
						v, ok = m.LoadOrStore(k, val)
						if !had {
							want = val
						}
					case KLazy:
						v, ok = m.LoadOrStoreLazy(k, func() int { return val })
						if !had {
							want = val
						}
					case KLAD:
						v, ok = m.LoadAndDelete(k)
					case KDel:
						ok = m.Delete(k)
						want = 0
					}
					if v != want || ok != wok {
						return fmt.Sprintf("operation %d %s with ranks %v gave %d,%v, expected %d,%v", i+1, o, rank, v, ok, want, wok)
					}
					switch {
					case inserts(o.K) && !had:
						as.key[r], as.val[r] = int(o.Key), val
						cnt++
					case (o.K == KLAD || o.K == KDel) && had:
						as.key[r] = -1
						cnt--
					}
				}
				next, bad, seen := 0, "", 0
				m.Range(func(k wkey, v int) bool {
					for next < 8 && as.key[next] < 0 {
						next++
					}
					if next == 8 || k.id != as.key[next] || k.tag != tags[k.id] || v != as.val[next] {
						bad = fmt.Sprintf("Range with ranks %v gave key %d with %d as entry %d", rank, k.id, v, seen+1)
						return false
					}
					next++
					seen++
					return true
				})
				if bad != "" {
					return bad
				}
				if seen != cnt || m.Len() != cnt {
					return fmt.Sprintf("Range gave %d keys, Len() = %d, with %d keys present (ranks %v)", seen, m.Len(), cnt, rank)
				}
				if foreign {
					return "less was called with a key that was never passed to the map"
				}
				return ""
			})
		}
		idx := make([]int, n)
		ops := make([]Op, n)
		for c := 0; ; c++ {
			for i := range idx {
				ops[i] = alpha[idx[i]]
			}
			w.Stats.States++
			w.Stats.Scenarios++
			w.Stats.Transitions += n
			if s := run(ops); s != "" {
				if s = w.again(func() string { return run(ops) }); s != "" {
					v := w.viol(s)
					v.Ctor, v.Scenario = "NewFunc", seqString(ops)
					return v
				}
			}
			if c&255 == 0 {
				progress.Add(1)
				if w.expired() {
					w.Stats.Incomplete++
					return nil
				}
			}
			i := n - 1
			for i >= 0 {
				idx[i]++
				if idx[i] < len(alpha) {
					break
				}
				idx[i] = 0
				i--
			}
			if i < 0 {
				return nil
			}
		}
	}}
}

// orderings are further less functions over structured key types.
func orderings() []Unit {
	var us []Unit
	add := func(t keyTest) {
		for n := 1; n <= 3; n++ {
			us = append(us, t.unit(n))
		}
	}
	add(mkKeyTest("NewFunc case-insensitive", func() *skipmap.FuncMap[string, int] {
		return skipmap.NewFunc[string, int](func(a, b string) bool { return strings.ToLower(a) < strings.ToLower(b) })
	}, [][]string{{""}, {"a", "A"}, {"aa", "AA", "aA", "Aa"}, {"B", "b"}, {"z"}}, eqc[string], quoted))
	add(mkKeyTest("NewFunc slices", func() *skipmap.FuncMap[[]int, int] {
		return skipmap.NewFunc[[]int, int](func(a, b []int) bool {
			for i := 0; i < len(a) && i < len(b); i++ {
				if a[i] != b[i] {
					return a[i] < b[i]
				}
			}
			return len(a) < len(b)
		})
	}, [][][]int{{nil, {}}, {{0}}, {{0, 1}}, {{1}}, {{1, 0}}, {{2, -1}}}, func(a, b []int) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}, showAny[[]int]))
	type pt = *struct{ x int }
	p := []pt{{-5}, {-5}, {0}, {7}, {8}}
	add(mkKeyTest("NewFunc pointers", func() *skipmap.FuncMap[pt, int] {
		return skipmap.NewFunc[pt, int](func(a, b pt) bool { return a.x > b.x })
	}, [][]pt{{p[4]}, {p[3]}, {p[2]}, {p[0], p[1]}}, eqc[pt], func(k pt) string { return fmt.Sprint("&", k.x) }))
	add(mkKeyTest("NewFunc interfaces", func() *skipmap.FuncMap[any, int] {
		return skipmap.NewFunc[any, int](func(a, b any) bool { return fmt.Sprint(a) < fmt.Sprint(b) })
	}, [][]any{{-1, "-1"}, {1, "1", int64(1)}, {"2"}, {nil}, {"b"}}, eqc[any], showAny[any]))
	add(mkKeyTest("NewFunc one class", func() *skipmap.FuncMap[int, int] {
		return skipmap.NewFunc[int, int](func(a, b int) bool { return false })
	}, [][]int{{0, 1, -1, 5, math.MaxInt}}, eqc[int], showAny[int]))
	add(mkKeyTest("NewFunc modulo", func() *skipmap.FuncMap[int, int] {
		return skipmap.NewFunc[int, int](func(a, b int) bool { return a&3 < b&3 })
	}, [][]int{{0, 4, 8}, {1, 5}, {2, -2}, {3, -1}}, eqc[int], showAny[int]))
	return us
}
