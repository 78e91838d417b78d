package main

import (
	"sort"

	"verifmc/vrt"
)

// calibrated reports whether the runtime knows how to make the code under test
// choose a given tower height.
var calibrated bool

// calibrate finds out which answers of the random source lead to which tower
// height. Heights show in the number of visible operations of the entry's deletion
// from a map whose highest level is the maximum.
func calibrate() {
	w := newW()
	try := func(n int) (cost []int) {
		w.ex.Seq(func(x *vrt.Exec) {
			m := ctors[0].Mk()
			m.Store(0, 1)
			for pass := 0; pass < 2; pass++ {
				cost = cost[:0]
				for i := 0; i < n; i++ {
					x.T().Begin()
					x.T().Grow = i
					m.Store(2, 1)
					x.T().Grow = 0
					x.T().Begin()
					m.Delete(2)
					cost = append(cost, x.T().Vis)
				}
			}
		})
		return
	}
	good := func() bool {
		cost := try(16)
		if len(cost) < 16 {
			return false
		}
		for i := 1; i < 6; i++ {
			if cost[i] <= cost[i-1] {
				return false
			}
		}
		return true
	}
	calibrated = true
	for _, h := range []vrt.Heights{{}, {Flip: true}} {
		vrt.Tall = h
		if good() {
			return
		}
	}
	var cand []uint64
	for i := 0; i < 64; i++ {
		b := uint64(1) << i
		cand = append(cand, b, b-1, ^b, ^(b - 1))
	}
	vrt.Tall = vrt.Heights{First: cand}
	cost := try(len(cand))
	if len(cost) == len(cand) {
		by := map[int]uint64{}
		for i := len(cost) - 1; i >= 0; i-- {
			by[cost[i]] = cand[i]
		}
		var cs []int
		for c := range by {
			cs = append(cs, c)
		}
		sort.Ints(cs)
		vrt.Tall.First = nil
		for _, c := range cs {
			vrt.Tall.First = append(vrt.Tall.First, by[c])
		}
		if len(cs) >= 6 && good() {
			return
		}
	}
	vrt.Tall = vrt.Heights{}
	calibrated = false
}
