package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

var pointKinds = []Kind{KStore, KLoad, KLOS, KLazy, KLAD, KDel}

func inserts(k Kind) bool { return k == KStore || k == KLOS || k == KLazy || k == KLazyP }

// opsOf lists the operations of the kinds on the keys; insertions with every height.
func opsOf(kinds []Kind, keys []int8, hs []uint8) []Op {
	var r []Op
	for _, k := range kinds {
		if !hasKey(k) {
			r = append(r, Op{K: k})
			continue
		}
		for _, key := range keys {
			if !inserts(k) {
				r = append(r, Op{K: k, Key: key})
				continue
			}
			for _, h := range hs {
				r = append(r, Op{K: k, Key: key, H: h})
			}
		}
	}
	return r
}

// seqsOf lists all sequences of n of the operations.
func seqsOf(ops []Op, n int) [][]Op {
	out := [][]Op{nil}
	for i := 0; i < n; i++ {
		var nx [][]Op
		for _, s := range out {
			for _, o := range ops {
				nx = append(nx, append(append([]Op(nil), s...), o))
			}
		}
		out = nx
	}
	return out
}

func store(k int8, h uint8) Op { return Op{K: KStore, Key: k, H: h} }

// inits lists the contents in which every key of keys is absent or present with one of the heights.
func inits(keys []int8, hs []uint8) [][]Op {
	out := [][]Op{nil}
	for _, k := range keys {
		var nx [][]Op
		for _, s := range out {
			nx = append(nx, s)
			for _, h := range hs {
				nx = append(nx, append(append([]Op(nil), s...), store(k, h)))
			}
		}
		out = nx
	}
	return out
}

func key(s Scen) string { return s.String() }

// norm orders identical-role threads canonically.
func norm(s Scen) Scen {
	th := append([][]Op(nil), s.Th...)
	sort.SliceStable(th, func(i, j int) bool { return fmt.Sprint(th[i]) < fmt.Sprint(th[j]) })
	return Scen{s.Init, th}
}

// product combines every initial content with every choice of one sequence per
// thread, without repeating programs that differ only in thread names.
func product(ini [][]Op, threads ...[][]Op) []Scen {
	var out []Scen
	seen := map[string]bool{}
	var rec func(i int, th [][]Op)
	rec = func(i int, th [][]Op) {
		if i == len(threads) {
			for _, in := range ini {
				s := norm(Scen{in, append([][]Op(nil), th...)})
				if k := s.String(); !seen[k] {
					seen[k] = true
					out = append(out, s)
				}
			}
			return
		}
		for _, t := range threads[i] {
			rec(i+1, append(th[:len(th):len(th)], t))
		}
	}
	rec(0, nil)
	return out
}

// filter keeps the scenarios for which f holds.
func filter(ss []Scen, f func(Scen) bool) []Scen {
	var r []Scen
	for _, s := range ss {
		if f(s) {
			r = append(r, s)
		}
	}
	return r
}

// twins adds to families with few kinds of updates the same programs with the other kinds
// in their place: the kinds have code of their own.
func twins(fs []family, th bool) []family {
	maps := []map[Kind]Kind{{KStore: KLOS, KLOS: KLazy, KLazy: KStore, KDel: KLAD, KLAD: KDel}}
	if th {
		maps = append(maps, map[Kind]Kind{KStore: KLazy, KLOS: KStore, KLazy: KLOS, KDel: KLAD, KLAD: KDel})
	}
	var out []family
	for _, f := range fs {
		if !th && (f.o.Long || len(f.o.Lockstep) > 0 || f.crowd > 0) {
			continue
		}
		seen := map[string]bool{}
		for _, s := range f.ss {
			seen[s.String()] = true
		}
		t := f
		t.name, t.ss = f.name+", other kinds", nil
		for _, m := range maps {
			for _, s := range f.ss {
				n := Scen{Init: s.Init}
				for _, th := range s.Th {
					ops := append([]Op(nil), th...)
					for i, o := range ops {
						if k, ok := m[o.K]; ok && !o.Sub.On {
							ops[i].K = k
						}
					}
					n.Th = append(n.Th, ops)
				}
				n = norm(n)
				if k := n.String(); !seen[k] {
					seen[k] = true
					t.ss = append(t.ss, n)
				}
			}
		}
		if len(t.ss) > 0 {
			out = append(out, t)
		}
	}
	return append(fs, out...)
}

// interacting: not all operations are reads, and the threads touch common or neighbouring entries.
func interacting(s Scen) bool {
	w := 0
	for _, t := range s.Th {
		for _, o := range t {
			if o.K != KLoad && !isRange(o.K) && o.K != KLen || o.Sub.On {
				w++
			}
		}
	}
	return w > 0
}

// chunk turns scenarios into units.
func chunk(name string, c *Ctor, ss []Scen, n int, o Opt) []Unit {
	var us []Unit
	for i := 0; i < len(ss); i += n {
		part := ss[i:min(len(ss), i+n)]
		us = append(us, Unit{Name: fmt.Sprintf("%s/%s/%d", name, c.Name, i/n), Run: func(w *W) *Viol {
			fam, _, _ := strings.Cut(name, " with New")
			w.count("scenarios of family "+fam, len(part))
			for j, s := range part {
				if w.expired() {
					w.Stats.Incomplete += len(part) - j
					break
				}
				if v := w.explore(c, s, o); v != nil {
					return v
				}
			}
			return nil
		}})
	}
	return us
}

// parse reads "S1.2 L1 D2 A1 O1.1 Z1.1 R N" into operations (kind, key, height).
func parse(s string) []Op {
	var r []Op
	for _, f := range strings.Fields(s) {
		o := Op{}
		switch f[0] {
		case 'S':
			o.K = KStore
		case 'L':
			o.K = KLoad
		case 'O':
			o.K = KLOS
		case 'Z':
			o.K = KLazy
		case 'A':
			o.K = KLAD
		case 'D':
			o.K = KDel
		case 'R':
			o.K = KRange
		case 'N':
			o.K = KLen
		case 'P':
			o.K = KLazyP
		case 'Q':
			o.K = KRangeP
		case 'T':
			o.K = KRangeS
		default:
			panic(s)
		}
		if len(f) > 1 {
			o.Key = int8(f[1] - '0')
		}
		if len(f) > 3 {
			h := 0
			fmt.Sscan(f[3:], &h)
			o.H = uint8(h)
		}
		if inserts(o.K) && o.H == 0 {
			o.H = 1
		}
		r = append(r, o)
	}
	return r
}

// sc parses "init | thread | thread".
func sc(s string) Scen {
	p := strings.Split(s, "|")
	r := Scen{Init: parse(p[0])}
	for _, t := range p[1:] {
		r.Th = append(r.Th, parse(t))
	}
	return r
}

func scs(lines string) []Scen {
	var r []Scen
	for _, l := range strings.Split(lines, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			r = append(r, sc(l))
		}
	}
	return r
}

const sec = time.Second
