package main

import (
	"fmt"

	"verifmc/vrt"
)

// Two threads on different keys of one wide map: one operation, and many that
// change the entries next to its key again and again while it runs. As the keys
// are different every result is known in advance.

type wop struct {
	k   Kind
	key int
	h   uint8
}

type erosion struct {
	c     *Ctor
	name  string
	n     int
	init  []wop
	th    [2][]wop
	live  bool // only termination is judged
	m     Map
	r     *ref
	wrong string
	evs   [2][]Ev
}

func (p *erosion) Setup(x *vrt.Exec) []func() {
	p.m, p.r, p.wrong = wides[p.c.Name](p.n), newRef(p.n), ""
	var e Ev
	for _, o := range p.init {
		wideOp(p.m, &e, o.k, o.key, o.key+1000, o.h)
		p.applied(&e)
	}
	var bodies []func()
	for i := range p.th {
		if cap(p.evs[i]) < len(p.th[i]) {
			p.evs[i] = make([]Ev, len(p.th[i]))
		}
		p.evs[i] = p.evs[i][:0]
		bodies = append(bodies, func() {
			for j, o := range p.th[i] {
				p.evs[i] = append(p.evs[i], Ev{})
				e := &p.evs[i][j]
				x.Invoke(func() {})
				wideOp(p.m, e, o.k, o.key, 10000*(i+1)+j, o.h)
				x.Return()
				p.applied(e)
			}
		})
	}
	return bodies
}

func (p *erosion) applied(e *Ev) {
	if s := p.r.apply(e); s != "" && p.wrong == "" {
		p.wrong = s
	}
}

func (p *erosion) Check(x *vrt.Exec) string {
	if p.wrong == "" {
		p.wrong = p.r.compare(p.m)
	}
	if p.wrong != "" && !p.live {
		return p.report(p.wrong)
	}
	var e Ev
	at := p.th[0][0].key
	for _, k := range []int{at, at - 1, at + 1, 0, p.n - 1} {
		if k < 0 || k >= p.n {
			continue
		}
		for i, kind := range []Kind{KLoad, KStore, KLAD, KLOS, KDel, KDel} {
			wideOp(p.m, &e, kind, k, 77+i, uint8(1+i%3))
			p.applied(&e)
		}
	}
	if p.wrong != "" && !p.live {
		return p.report(p.wrong)
	}
	return ""
}

func (p *erosion) Bad(x *vrt.Exec) string {
	return p.report(x.FailKind + ": " + x.Failure + "\n" + x.FailInfo)
}

func (p *erosion) report(s string) string {
	done := len(p.evs[1])
	return fmt.Sprintf("%s\nthread 1: %s of key %d, the other operations before or during it: %d of %d", s, kindNames[p.th[0][0].k], p.th[0][0].key, done, len(p.th[1]))
}

// erosions runs the schedules of one operation against a moving neighbourhood.
func erosions(c *Ctor, live bool, n int, scheds []int) []Unit {
	var us []Unit
	shapesOf := map[string]func(i int) uint8{"flat": shapes["flat"], "ideal": ruler, "height 3": func(int) uint8 { return 3 }}
	for _, sh := range sorted(shapesOf) {
		us = append(us, Unit{Name: fmt.Sprintf("%d changes next to one operation, %s/%s", n, sh, c.Name), Run: func(w *W) *Viol {
			for _, kind := range upd {
				for _, h := range []uint8{1, 3} {
					for _, last := range []bool{true, false} {
						for _, grow := range []bool{true, false} {
							p := &erosion{c: c, n: n, live: live}
							at := 0
							if last {
								at = n - 1
							}
							del := kind == KLAD || kind == KDel
							if del && last {
								p.init = append(p.init, wop{KStore, at, h})
							}
							for i := n - 1; i >= 0 && !grow; i-- {
								if i != at {
									p.init = append(p.init, wop{KStore, i, shapesOf[sh](i)})
								}
							}
							if del && !last {
								p.init = append(p.init, wop{KStore, at, h})
							}
							if del && h > 1 && sh == "flat" {
								p.init = append(p.init, wop{KStore, n / 2, 3}, wop{KDel, n / 2, 0})
							}
							p.th[0] = []wop{{kind, at, h}}
							for i := 0; i < n-1; i++ {
								// Away from the key when deleting, towards it when inserting.
								k := i // the last key, growing
								switch {
								case last && !grow:
									k = n - 2 - i
								case !last && grow:
									k = n - 1 - i
								case !last:
									k = 1 + i
								}
								if grow {
									p.th[1] = append(p.th[1], wop{[]Kind{KStore, KLOS, KLazy}[i%3], k, shapesOf[sh](i)})
								} else {
									p.th[1] = append(p.th[1], wop{[]Kind{KLAD, KDel}[i%2], k, 0})
								}
							}
							p.name = fmt.Sprintf("%s of the %s key with height %d, neighbours %s, %s", kindNames[kind], pick(last, "last", "first"), h, pick(grow, "inserted", "deleted"), sh)
							if v := w.erode(p, scheds); v != nil {
								return v
							}
							if w.expired() {
								w.Stats.Incomplete++
								return nil
							}
						}
					}
				}
			}
			return nil
		}})
	}
	return us
}

func (w *W) erode(p *erosion, scheds []int) *Viol {
	e := w.ex
	e.Bound, e.Solo, e.Horizon = 0, 0, 4_000_000
	e.X.RaceMode, e.X.ValueMode, e.X.BlockMode = false, true, false
	defer func() { e.Pick, e.Horizon = nil, 20000 }()
	e.Stop = func() bool { return w.expired() }
	for _, n := range scheds {
		e.Pick = lockstep(n, 2)
		e.Incomplete, e.Diverged = false, 0
		v := e.Explore(p)
		progress.Add(1)
		w.Stats.Execs++
		w.Stats.Steps += len(e.X.Schedule)
		w.Stats.States += len(e.X.Schedule)
		w.Stats.Transitions += len(e.X.Schedule)
		if v == nil {
			continue
		}
		msg := ""
		for i := 0; i < 5; i++ {
			if _, msg = e.Replay(p, v.Schedule, nil); msg == "" {
				w.Stats.Unstable++
				break
			}
		}
		if msg == "" {
			continue
		}
		r := w.viol(msg)
		r.Ctor, r.Scenario, r.Schedule = p.c.Name, p.name, v.Schedule
		return r
	}
	w.Stats.Scenarios++
	w.count("scenarios of family changes next to one operation", 1)
	return nil
}
