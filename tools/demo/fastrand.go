// Package fastrand stands in for the random source: the next tower heights can be set.
package fastrand

import (
	"math/rand"
	"sync"
)

var (
	mu    sync.Mutex
	queue []uint32
)

// Heights makes the next draws give towers of these heights. When the queue is empty all
// towers have height 1.
func Heights(hs ...int) {
	mu.Lock()
	defer mu.Unlock()
	queue = queue[:0]
	for _, h := range hs {
		for i := 1; i < h; i++ {
			queue = append(queue, 0)
		}
		queue = append(queue, 1)
	}
}

func Uint32n(n uint32) uint32 {
	mu.Lock()
	defer mu.Unlock()
	if len(queue) > 0 {
		v := queue[0]
		queue = queue[1:]
		return v
	}
	return 1
}

func Int() int                           { return rand.Int() }
func Int31() int32                       { return rand.Int31() }
func Int63() int64                       { return rand.Int63() }
func Int63n(n int64) int64               { return rand.Int63n(n) }
func Int31n(n int32) int32               { return rand.Int31n(n) }
func Intn(n int) int                     { return int(Uint32n(uint32(n))) }
func Float64() float64                   { return rand.Float64() }
func Float32() float32                   { return rand.Float32() }
func Uintn(n uint) uint                  { return uint(Uint32n(uint32(n))) }
func Uint64n(n uint64) uint64            { return uint64(Uint32n(uint32(n))) }
func Uint32() uint32                     { return rand.Uint32() }
func Uint64() uint64                     { return rand.Uint64() }
func Read(p []byte) (int, error)         { return rand.Read(p) }
func Shuffle(n int, swap func(i, j int)) { rand.Shuffle(n, swap) }
func Perm(n int) []int                   { return rand.Perm(n) }
