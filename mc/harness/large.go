package main

import (
	"fmt"

	"verifmc/vrt"
)

// Large maps and long histories of one goroutine: the contents grow over every
// power of two up to n and shrink again; short cycles of operations repeat until
// every counter of up to 16 bits has gone round.

// aspect is what a unit of this file judges; a failure of another kind is not attributed to it.
type aspect uint8

const (
	everything aspect = iota
	onlyLen
	onlyRange
)

// turning reports whether a map of n entries may behave differently from one with n±1.
func turning(n int) bool {
	return n&(n-1) == 0 || (n+1)&n == 0 || n > 1 && (n-1)&(n-2) == 0 || n%997 == 0
}

func large(c *Ctor, n int, a aspect) Unit {
	return Unit{Name: fmt.Sprintf("%d entries/%s", n, c.Name), Run: func(w *W) *Viol {
		ord := orders(n)
		for i, in := range []string{"ascending", "interleaved", "outside in"} {
			del := []string{"ascending", "descending", "interleaved"}[i]
			sh := []string{"ideal", "flat", "few tall"}[i]
			if n > 2000 || i > 0 && n > 300 {
				sh = "ideal"
			}
			if i > 0 && n > 20000 {
				break
			}
			run := func() string { return w.large(c, n, a, ord[in], ord[del], shapes[sh]) }
			w.Stats.States += 2 * n
			w.Stats.Scenarios++
			if s := run(); s != "" {
				if s = w.again(run); s != "" {
					v := w.viol(s)
					v.Ctor, v.Scenario = c.Name, fmt.Sprintf("%d keys, inserted %s, deleted %s, heights %s", n, in, del, sh)
					return v
				}
			}
			if w.expired() {
				w.Stats.Incomplete++
				return nil
			}
		}
		return nil
	}}
}

func (w *W) large(c *Ctor, n int, a aspect, in, del func(i int) int, shape func(i int) uint8) string {
	return w.seq(func(x *vrt.Exec) string {
		m, r := wides[c.Name](n), newRef(n)
		var e Ev
		wrong := false
		step := func(k Kind, i, v int) string {
			wideOp(m, &e, k, i, v, shape(i))
			w.Stats.Transitions++
			x.T().Begin()
			s := r.apply(&e)
			if s != "" && a != everything {
				w.otherCause(c, fmt.Sprintf("%d entries", n), s)
				wrong, s = true, ""
			}
			return s
		}
		check := func(always bool) string {
			if l := m.Len(); a != onlyRange && l != r.n {
				return fmt.Sprintf("Len() = %d with %d keys present", l, r.n)
			}
			if !always && !turning(r.n) {
				return ""
			}
			progress.Add(1)
			x.T().Begin()
			if a != onlyLen {
				if s := r.visits(m, r.n+1); s != "" {
					return s
				}
				for _, stop := range []int{1, 2, r.n / 2, r.n - 1, r.n} {
					if stop > 0 {
						x.T().Begin()
						if s := r.visits(m, stop); s != "" {
							return s
						}
					}
				}
			}
			return ""
		}
		for i := 0; i < n; i++ {
			if s := step([]Kind{KStore, KLOS, KLazy}[i%3], in(i), i+1); s != "" || wrong {
				return s
			}
			if s := check(i == n-1); s != "" {
				return s
			}
		}
		for i := 0; i < n && a == everything; i++ {
			if s := step([]Kind{KLoad, KStore, KLoad, KLOS, KLoad, KLazy, KLoad}[i%7], i, i+n); s != "" {
				return s
			}
		}
		for i := 0; i < n; i++ {
			if s := step([]Kind{KDel, KLAD}[i%2], del(i), 0); s != "" || wrong {
				return s
			}
			if i%5 == 4 && a == everything {
				if s := step(KLoad, del(i), 0); s != "" {
					return s
				}
			}
			if s := check(i == n-1); s != "" {
				return s
			}
		}
		return ""
	})
}

// visits runs a Range that stops at entry number stop and checks what it gives.
func (r *ref) visits(m Map, stop int) string {
	next, bad, cnt := 0, "", 0
	m.Range(func(k, v int) bool {
		cnt++
		for next < len(r.v) && r.v[next] == absent {
			next++
		}
		if cnt > stop {
			bad = fmt.Sprintf("Range goes on after the callback returned false at entry %d", stop)
			return false
		}
		if next >= len(r.v) || k != next || v != r.v[next] {
			bad = fmt.Sprintf("Range gave key %d with %d as entry %d, expected key %d", k, v, cnt, next)
			return false
		}
		next++
		return cnt < stop
	})
	if bad == "" && cnt != min(stop, r.n) {
		bad = fmt.Sprintf("Range gave %d of %d keys", cnt, min(stop, r.n))
	}
	return bad
}

// cycles repeats every sequence of up to length operations of alpha n times.
func cycles(c *Ctor, ini []Op, alpha []Op, length, n int, a aspect) Unit {
	return Unit{Name: fmt.Sprintf("every cycle of up to %d operations, %d times/%s", length, n, c.Name), Run: func(w *W) *Viol {
		for l := 1; l <= length; l++ {
			for _, cyc := range seqsOf(alpha, l) {
				if v := w.cycle(c, ini, cyc, n, a); v != nil {
					return v
				}
				if w.expired() {
					w.Stats.Incomplete++
					return nil
				}
			}
		}
		return nil
	}}
}

func (w *W) cycle(c *Ctor, ini, cyc []Op, n int, a aspect) *Viol {
	run := func() string {
		return w.seq(func(x *vrt.Exec) string {
			m, md := c.Mk(), newModel()
			var ev Ev
			step := func(o Op, v int) (string, bool) {
				vs := ev.Visits[:0]
				ev = Ev{Op: o, Val: v, Visits: vs}
				ev.exec(m)
				if s := md.apply(&ev); s != "" {
					if a != everything {
						w.otherCause(c, seqString(cyc), s)
						s = ""
					}
					return s, true
				}
				return "", false
			}
			for i, o := range ini {
				if s, bad := step(o, 1000+i); bad {
					return s
				}
			}
			for i := 0; i < n; i++ {
				for j, o := range cyc {
					if s, bad := step(o, i*len(cyc)+j+1); bad {
						return fmt.Sprintf("in repetition %d: %s", i+1, s)
					}
				}
				if l := m.Len(); l != md.size() {
					return fmt.Sprintf("in repetition %d: Len() = %d with %d keys present", i+1, l, md.size())
				}
				if a == everything && (n < 1000 && i%4 == 0 || i%251 == 0 || i == n-1) {
					if s := md.compare(m); s != "" {
						return fmt.Sprintf("after repetition %d: %s", i+1, s)
					}
				}
			}
			return ""
		})
	}
	w.Stats.States += n
	w.Stats.Scenarios++
	w.Stats.Transitions += n * len(cyc)
	progress.Add(1)
	if s := run(); s != "" {
		if s = w.again(run); s != "" {
			v := w.viol(s)
			v.Ctor, v.Scenario = c.Name, fmt.Sprintf("%s, then %d times %s", seqString(ini), n, seqString(cyc))
			return v
		}
	}
	return nil
}

// largeUnits are the large maps and long histories for one aspect.
func largeUnits(a aspect, th bool) []Unit {
	var us []Unit
	for i := range ctors {
		c := &ctors[i]
		us = append(us, large(c, pick2(th, 4999, 1100), a))
	}
	for _, c := range reprs {
		us = append(us, large(c, 5003, a), large(c, 70001, a))
		if a == onlyRange {
			continue
		}
		ini := parse("S0.2 S2.3")
		us = append(us, cycles(c, ini, append(opsOf(upd, k12, h2), parse("R")...), 2, pick2(th, 1500, 300), a))
		for _, cy := range []string{"S1 D1", "O1.3 A1", "Z1.2", "S1", "D1", "S2", "L2", "S0.16 A0 S2 A2"} {
			us = append(us, Unit{Name: fmt.Sprintf("%s 70000 times/%s", cy, c.Name), Run: func(w *W) *Viol {
				return w.cycle(c, ini, parse(cy), 70000, a)
			}})
		}
	}
	return us
}
