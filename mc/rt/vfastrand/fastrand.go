// Package fastrand replaces github.com/zhangyunhao116/fastrand: every draw is answered by the controlled runtime.
package fastrand

import "verifmc/vrt"

func Uint32n(n uint32) uint32 { return uint32(vrt.Draw(uint64(n))) }
func Uint64n(n uint64) uint64 { return vrt.Draw(n) }
func Uintn(n uint) uint       { return uint(vrt.Draw(uint64(n))) }
func Intn(n int) int          { return int(vrt.Draw(uint64(n))) }
func Int31n(n int32) int32    { return int32(vrt.Draw(uint64(n))) }
func Int63n(n int64) int64    { return int64(vrt.Draw(uint64(n))) }

var Uint32 = func() uint32 { return uint32(vrt.Draw(1 << 32)) }
var Uint64 = func() uint64 { return vrt.Draw(0) }
var Uint = func() uint { return uint(vrt.Draw(0)) }

func Int() int         { return int(vrt.Draw(0) >> 1) }
func Int31() int32     { return int32(vrt.Draw(1 << 31)) }
func Int63() int64     { return int64(vrt.Draw(1 << 63)) }
func Float64() float64 { return float64(vrt.Draw(1<<53)) / (1 << 53) }
func Float32() float32 { return float32(vrt.Draw(1<<24)) / (1 << 24) }

func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(vrt.Draw(256))
	}
	return len(p), nil
}

func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, int(vrt.Draw(uint64(i+1))))
	}
}

func Perm(n int) []int {
	m := make([]int, n)
	for i := 1; i < n; i++ {
		j := Intn(i + 1)
		m[i] = m[j]
		m[j] = i
	}
	return m
}
