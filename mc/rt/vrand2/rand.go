// Package rand replaces math/rand/v2 in the code under test: every draw of the package
// functions, and of a Rand over a source of the package, is answered by the controlled runtime.
// A Rand over the code's own Source computes from that source.
package rand

import (
	real "math/rand/v2"

	"verifmc/vrt"
)

type (
	Source = real.Source
	Zipf   = real.Zipf
)

// PCG and ChaCha8 are not safe for concurrent use.
type PCG struct{ state uint64 }
type ChaCha8 struct{ state uint64 }

func NewPCG(seed1, seed2 uint64) *PCG   { return &PCG{} }
func NewChaCha8(seed [32]byte) *ChaCha8 { return &ChaCha8{} }
func (p *PCG) Seed(seed1, seed2 uint64) { *vrt.W(&p.state) = 0 }
func (p *PCG) Uint64() uint64           { *vrt.W(&p.state) = 0; return Uint64() }
func (c *ChaCha8) Seed(seed [32]byte)   { *vrt.W(&c.state) = 0 }
func (c *ChaCha8) Uint64() uint64       { *vrt.W(&c.state) = 0; return Uint64() }
func (c *ChaCha8) Read(p []byte) (int, error) {
	*vrt.W(&c.state) = 0
	for i := range p {
		p[i] = byte(vrt.Draw(256))
	}
	return len(p), nil
}

type Rand struct {
	state *uint64
	own   *real.Rand
}

func New(src Source) *Rand {
	switch s := src.(type) {
	case *PCG:
		return &Rand{state: &s.state}
	case *ChaCha8:
		return &Rand{state: &s.state}
	}
	return &Rand{own: real.New(src)}
}

func (r *Rand) ctl() bool {
	if r.own != nil {
		return false
	}
	*vrt.W(r.state) = 0
	return true
}

func (r *Rand) Uint32() uint32 {
	if r.ctl() {
		return Uint32()
	}
	return r.own.Uint32()
}
func (r *Rand) Uint64() uint64 {
	if r.ctl() {
		return Uint64()
	}
	return r.own.Uint64()
}
func (r *Rand) Uint() uint {
	if r.ctl() {
		return Uint()
	}
	return r.own.Uint()
}
func (r *Rand) Int() int {
	if r.ctl() {
		return Int()
	}
	return r.own.Int()
}
func (r *Rand) Int32() int32 {
	if r.ctl() {
		return Int32()
	}
	return r.own.Int32()
}
func (r *Rand) Int64() int64 {
	if r.ctl() {
		return Int64()
	}
	return r.own.Int64()
}
func (r *Rand) IntN(n int) int {
	if r.ctl() {
		return IntN(n)
	}
	return r.own.IntN(n)
}
func (r *Rand) Int32N(n int32) int32 {
	if r.ctl() {
		return Int32N(n)
	}
	return r.own.Int32N(n)
}
func (r *Rand) Int64N(n int64) int64 {
	if r.ctl() {
		return Int64N(n)
	}
	return r.own.Int64N(n)
}
func (r *Rand) UintN(n uint) uint {
	if r.ctl() {
		return UintN(n)
	}
	return r.own.UintN(n)
}
func (r *Rand) Uint32N(n uint32) uint32 {
	if r.ctl() {
		return Uint32N(n)
	}
	return r.own.Uint32N(n)
}
func (r *Rand) Uint64N(n uint64) uint64 {
	if r.ctl() {
		return Uint64N(n)
	}
	return r.own.Uint64N(n)
}
func (r *Rand) Float64() float64 {
	if r.ctl() {
		return Float64()
	}
	return r.own.Float64()
}
func (r *Rand) Float32() float32 {
	if r.ctl() {
		return Float32()
	}
	return r.own.Float32()
}
func (r *Rand) NormFloat64() float64 {
	if r.ctl() {
		return NormFloat64()
	}
	return r.own.NormFloat64()
}
func (r *Rand) ExpFloat64() float64 {
	if r.ctl() {
		return ExpFloat64()
	}
	return r.own.ExpFloat64()
}
func (r *Rand) Perm(n int) []int {
	if r.ctl() {
		return Perm(n)
	}
	return r.own.Perm(n)
}
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	if r.ctl() {
		Shuffle(n, swap)
		return
	}
	r.own.Shuffle(n, swap)
}

// raw is a Source of controlled draws.
type raw struct{}

func (raw) Uint64() uint64 { return Uint64() }

func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf {
	if r.own != nil {
		return real.NewZipf(r.own, s, v, imax)
	}
	return real.NewZipf(real.New(raw{}), s, v, imax)
}

func Uint32() uint32          { return uint32(vrt.Draw(1 << 32)) }
func Uint64() uint64          { return vrt.Draw(0) }
func Uint() uint              { return uint(vrt.Draw(0)) }
func Int() int                { return int(uint(vrt.Draw(0)) >> 1) }
func Int32() int32            { return int32(vrt.Draw(1 << 31)) }
func Int64() int64            { return int64(vrt.Draw(1 << 63)) }
func IntN(n int) int          { return int(vrt.Draw(uint64(n))) }
func Int32N(n int32) int32    { return int32(vrt.Draw(uint64(n))) }
func Int64N(n int64) int64    { return int64(vrt.Draw(uint64(n))) }
func UintN(n uint) uint       { return uint(vrt.Draw(uint64(n))) }
func Uint32N(n uint32) uint32 { return uint32(vrt.Draw(uint64(n))) }
func Uint64N(n uint64) uint64 { return vrt.Draw(n) }
func Float64() float64        { return float64(vrt.Draw(1<<53)) / (1 << 53) }
func Float32() float32        { return float32(vrt.Draw(1<<24)) / (1 << 24) }
func NormFloat64() float64    { return Float64()*4 - 2 }
func ExpFloat64() float64     { return Float64() * 4 }

func N[Int interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n Int) Int {
	return Int(vrt.Draw(uint64(n)))
}

func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, IntN(i+1))
	}
}

func Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	Shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}
