// Package rand replaces math/rand in the code under test: every draw of the package functions,
// and of a Rand over a source of the package, is answered by the controlled runtime. A Rand
// over the code's own Source computes from that source.
package rand

import (
	real "math/rand"

	"verifmc/vrt"
)

type (
	Source   = real.Source
	Source64 = real.Source64
	Zipf     = real.Zipf
)

type source struct{ state uint64 }

func NewSource(seed int64) Source { return &source{} }

// touch is the write access to the state of a source that is not safe for concurrent use.
func (s *source) touch()         { *vrt.W(&s.state) = 0 }
func (s *source) Int63() int64   { s.touch(); return Int63() }
func (s *source) Uint64() uint64 { s.touch(); return Uint64() }
func (s *source) Seed(int64)     { s.touch() }

type Rand struct {
	src *source
	own *real.Rand
}

func New(src Source) *Rand {
	if s, ok := src.(*source); ok {
		return &Rand{src: s}
	}
	return &Rand{own: real.New(src)}
}

func (r *Rand) ctl() bool {
	if r.own != nil {
		return false
	}
	r.src.touch()
	return true
}

func (r *Rand) Uint32() uint32 {
	if r.ctl() {
		return Uint32()
	}
	return r.own.Uint32()
}
func (r *Rand) Uint64() uint64 {
	if r.ctl() {
		return Uint64()
	}
	return r.own.Uint64()
}
func (r *Rand) Int() int {
	if r.ctl() {
		return Int()
	}
	return r.own.Int()
}
func (r *Rand) Int31() int32 {
	if r.ctl() {
		return Int31()
	}
	return r.own.Int31()
}
func (r *Rand) Int63() int64 {
	if r.ctl() {
		return Int63()
	}
	return r.own.Int63()
}
func (r *Rand) Intn(n int) int {
	if r.ctl() {
		return Intn(n)
	}
	return r.own.Intn(n)
}
func (r *Rand) Int31n(n int32) int32 {
	if r.ctl() {
		return Int31n(n)
	}
	return r.own.Int31n(n)
}
func (r *Rand) Int63n(n int64) int64 {
	if r.ctl() {
		return Int63n(n)
	}
	return r.own.Int63n(n)
}
func (r *Rand) Float64() float64 {
	if r.ctl() {
		return Float64()
	}
	return r.own.Float64()
}
func (r *Rand) Float32() float32 {
	if r.ctl() {
		return Float32()
	}
	return r.own.Float32()
}
func (r *Rand) NormFloat64() float64 {
	if r.ctl() {
		return NormFloat64()
	}
	return r.own.NormFloat64()
}
func (r *Rand) ExpFloat64() float64 {
	if r.ctl() {
		return ExpFloat64()
	}
	return r.own.ExpFloat64()
}
func (r *Rand) Perm(n int) []int {
	if r.ctl() {
		return Perm(n)
	}
	return r.own.Perm(n)
}
func (r *Rand) Seed(seed int64) {
	if !r.ctl() {
		r.own.Seed(seed)
	}
}
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	if r.ctl() {
		Shuffle(n, swap)
		return
	}
	r.own.Shuffle(n, swap)
}
func (r *Rand) Read(p []byte) (int, error) {
	if r.ctl() {
		return Read(p)
	}
	return r.own.Read(p)
}

// raw is a Source64 of controlled draws.
type raw struct{}

func (raw) Int63() int64   { return Int63() }
func (raw) Uint64() uint64 { return Uint64() }
func (raw) Seed(int64)     {}

func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf {
	if r.own != nil {
		return real.NewZipf(r.own, s, v, imax)
	}
	return real.NewZipf(real.New(raw{}), s, v, imax)
}

func Uint32() uint32       { return uint32(vrt.Draw(1 << 32)) }
func Uint64() uint64       { return vrt.Draw(0) }
func Int() int             { return int(uint(vrt.Draw(0)) >> 1) }
func Int31() int32         { return int32(vrt.Draw(1 << 31)) }
func Int63() int64         { return int64(vrt.Draw(1 << 63)) }
func Intn(n int) int       { return int(vrt.Draw(uint64(n))) }
func Int31n(n int32) int32 { return int32(vrt.Draw(uint64(n))) }
func Int63n(n int64) int64 { return int64(vrt.Draw(uint64(n))) }
func Float64() float64     { return float64(vrt.Draw(1<<53)) / (1 << 53) }
func Float32() float32     { return float32(vrt.Draw(1<<24)) / (1 << 24) }
func NormFloat64() float64 { return Float64()*4 - 2 }
func ExpFloat64() float64  { return Float64() * 4 }
func Seed(int64)           {}

func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(vrt.Draw(256))
	}
	return len(p), nil
}

func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}

func Perm(n int) []int {
	m := make([]int, n)
	for i := 1; i < n; i++ {
		j := Intn(i + 1)
		m[i] = m[j]
		m[j] = i
	}
	return m
}
