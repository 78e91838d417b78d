package main

import "time"

type checkFn = func(thorough bool) []Unit

var checks = map[string]checkFn{}

var (
	upd    = []Kind{KStore, KLOS, KLazy, KLAD, KDel}
	k1     = []int8{1}
	k12    = []int8{1, 2}
	k012   = []int8{0, 1, 2}
	k0123  = []int8{0, 1, 2, 3}
	h1     = []uint8{1}
	h2     = []uint8{2}
	h12    = []uint8{1, 2}
	readOp = [][]Op{parse("L1"), parse("R"), parse("N")}
)

// family is a named set of scenarios explored with one option set on every class.
type family struct {
	name string
	ss   []Scen
	o    Opt
	size int // scenarios per unit

	crowd  int  // other entries in the map
	spread bool // the keys are spread among them
}

// perClass lays out the families: family by family, every class in turn, so
// that a run cut short by its time limit has covered all classes evenly.
func perClass(fs []family) []Unit {
	var us []Unit
	for _, f := range fs {
		f.ss = filter(f.ss, interacting)
		n := f.size
		if n == 0 {
			n = max(8, len(f.ss)/32)
		}
		var per [][]Unit
		most := 0
		for _, c := range reprs {
			if f.crowd > 0 {
				c = crowded(c, f.crowd, f.spread)
			}
			u := chunk(f.name, c, f.ss, n, f.o)
			per = append(per, u)
			most = max(most, len(u))
		}
		for i := 0; i < most; i++ {
			for _, u := range per {
				if i < len(u) {
					us = append(us, u[i])
				}
			}
		}
	}
	return us
}

// everyCtor runs a small family on all constructors.
func everyCtor(f family) []Unit {
	var us []Unit
	f.ss = filter(f.ss, interacting)
	for i := range ctors {
		us = append(us, chunk(f.name, &ctors[i], f.ss, max(1, len(f.ss)), f.o)...)
	}
	return us
}

func unb(r Rules) Opt                 { return Opt{Rules: r, Bound: -1} }
func bnd(r Rules, b int) Opt          { return Opt{Rules: r, Bound: b} }
func one(ops []Op) [][]Op             { return seqsOf(ops, 1) }
func two(ops []Op) [][]Op             { return seqsOf(ops, 2) }
func (o Opt) lim(d time.Duration) Opt { o.Limit = d; return o }

// tall are programs around the highest level, the boundary of the inline
// pointer array (4) and the maximum height (16).
var tall = scs(`
| S1.4 | S2.4
| S1.5 | S2.4
| S1.5 A1 | S2.4 A2
| S1.4 A1 | S1.5 A1
| O1.4 A1 | O2.5 A2
| Z1.5 L1 | S2.4 L2
| O1.4 | O1.5 D1
| S1.16 A1 | S2.6 A2
| S1.6 | S2.5 | S3.4
| O1.4 A1 | S1.4
S1.5 | D1 | S2.5
S1.5 | A1 | S1.4 L1
S1.5 | D1 | S0.5
S1.5 S2.5 | D1 | D2
S1.5 S2.5 | D1 | S3.5
S1.5 S2.1 | A1 S1.5 | A2
S1.16 | A1 S1.5 | L1
S0.5 S2.5 | O1.6 | D2
S0.5 S2.5 | O1.6 | D0
S0.5 S2.5 | Z1.4 | D0 S0.1
S0.3 S2.5 | S1.5 | A2 L1
S1.4 S2.4 | D1 L2 | D2 L1
S1.2 | D1 | S1.6 A1
S1.2 A1 | O1.4 A1 | O1.5 A1
S1.4 A1 | O1.4 | L1 A1
`)

func init() {
	checks["C01"] = func(th bool) []Unit {
		r := Rules{Lin: true}
		p1, p12 := opsOf(pointKinds, k1, h1), opsOf(pointKinds, k12, h12)
		us := everyCtor(family{name: "every constructor, one operation each", ss: append(product(inits(k12, h1), one(p1), one(opsOf(pointKinds, k12, h1))), tall...), o: bnd(r, 2)})
		for _, c := range reprs {
			us = append(us, erosions(c, false, pick2(th, 280, 120), locksteps(pick2(th, 40, 6)))...)
		}
		fs := []family{
			{name: "1+1 operations, all neighbours", ss: product(inits(k012, h12), one(opsOf(pointKinds, k1, h12)), one(p12)), o: unb(r)},
			{name: "1+2 operations on one key", ss: product(inits(k1, h12), one(p1), two(p1)), o: unb(r)},
			{name: "tall towers", ss: tall, o: bnd(r, 2), size: 1},
			{name: "1+1+1 operations on one key", ss: product(inits(k1, h1), one(p1), one(p1), one(p1)), o: bnd(r, 3)},
			{name: "2+2 operations on one key", ss: product(inits(k1, h1), two(p1), two(p1)), o: bnd(r, 2)},
			{name: "1+2 operations, neighbours", ss: product(inits(k12, h2), one(opsOf(pointKinds, k1, h12)), two(opsOf([]Kind{KStore, KLoad, KLOS, KLAD, KDel}, k12, h2))), o: bnd(r, 2)},
			{name: "1+1+1 operations, neighbours", ss: product(inits(k12, h2), one(opsOf([]Kind{KStore, KLOS, KLAD}, k1, h2)), one(opsOf([]Kind{KStore, KLazy, KDel}, k12, h2)), one(opsOf([]Kind{KStore, KLoad, KLAD}, k12, h2))), o: bnd(r, 2)},
		}
		fs = append(fs, pressure(r, append(one(p1), parse("S1.3")), th)...)
		if th {
			p1, p12 = opsOf(pointKinds, k1, h2), opsOf(pointKinds, k12, h2)
			fs = append(fs,
				family{name: "1+1+1 operations on one key, unbounded", ss: product(inits(k1, h12), one(p1), one(p1), one(p1)), o: unb(r)},
				family{name: "1+1+1 operations, all kinds, neighbours", ss: product(inits(k12, h2), one(opsOf(upd, k1, h2)), one(opsOf(upd, k12, h2)), one(p12)), o: bnd(r, 2)},
				family{name: "2+2 operations on one key, unbounded", ss: product(inits(k1, h1), two(opsOf(pointKinds, k1, h1)), two(opsOf(pointKinds, k1, h1))), o: unb(r)},
				family{name: "1+2 operations, neighbours, unbounded", ss: product(inits(k012, h2), one(opsOf(pointKinds, k1, h12)), two(p12)), o: unb(r)},
				family{name: "tall towers, unbounded", ss: tall, o: unb(r).lim(60 * sec), size: 1},
				family{name: "2+2 operations, neighbours", ss: product(inits(k12, h2), two(p12), two(p12)), o: bnd(r, 2)},
				family{name: "1+1+2 operations on one key", ss: product(inits(k1, h1), one(p1), one(p1), two(p1)), o: bnd(r, 3)},
				family{name: "1+1+1 operations, neighbours, unbounded", ss: product(inits(k12, h2), one(opsOf(upd, k1, h2)), one(opsOf(upd, k12, h2)), one(p12)), o: unb(r)},
			)
		}
		return append(us, perClass(twins(fs, th))...)
	}

	checks["C02"] = func(th bool) []Unit {
		r := Rules{Range: true}
		rng := [][]Op{parse("R")}
		u1 := opsOf(upd, k0123, h1)
		full := [][]Op{parse("S0.1 S1.1 S2.1 S3.1"), parse("S0.1 S1.2 S2.1 S3.2")}
		ud := []Kind{KStore, KDel}
		us := everyCtor(family{name: "every constructor, Range + 1", ss: product(append(full, inits(k12, h1)...), rng, one(opsOf(upd, k12, h1))), o: unb(r)})
		us = append(us, largeUnits(onlyRange, th)...)
		fs := []family{
			{name: "Range + 1 update, all contents", ss: product(inits(k0123, h1), rng, one(opsOf(upd, k0123, h12))), o: unb(r)},
			{name: "Range + 2 updates", ss: product([][]Op{full[0], parse("S0.1 S2.1"), parse("S1.1 S2.2"), nil}, rng, two(u1)), o: unb(r)},
			{name: "Range + 3 updates", ss: product([][]Op{full[1], parse("S1.1 S3.1")}, rng, seqsOf(opsOf(ud, k12, h1), 3)), o: unb(r)},
			{name: "Range + 1 + 1 updates", ss: product([][]Op{full[0], parse("S1.1 S2.1"), nil}, rng, one(opsOf(upd, k12, h2)), one(opsOf(upd, k12, h1))), o: bnd(r, 2)},
			{name: "update, Range + updates", ss: product([][]Op{parse("S1.1"), nil}, [][]Op{parse("S1 R"), parse("O1 R"), parse("A1 R"), parse("R R"), parse("S2 R"), parse("Z2 R"), parse("D2 R")}, two(opsOf(upd, k12, h1))), o: bnd(r, 3)},
		}
		fs = append(fs, pressure(r, rng, th)...)
		if th {
			fs = append(fs,
				family{name: "Range + 3 updates, all keys", ss: product([][]Op{full[0], parse("S1.1 S3.1"), parse("S1.3 S2.2")}, rng, seqsOf(opsOf([]Kind{KStore, KLAD, KDel}, k0123, h1), 3)), o: unb(r)},
				family{name: "Range + 1 + 1 updates, unbounded", ss: product([][]Op{full[0], parse("S1.1 S2.1"), nil}, rng, one(opsOf(upd, k12, h2)), one(opsOf(upd, k12, h1))), o: unb(r)},
				family{name: "Range + 2 + 1 updates", ss: product([][]Op{full[1], parse("S1.1 S2.1")}, rng, two(opsOf(ud, k12, h2)), one(opsOf(upd, k012, h1))), o: bnd(r, 2)},
				family{name: "Range + 4 updates", ss: product([][]Op{full[1]}, rng, seqsOf(opsOf(ud, k12, h1), 4)), o: unb(r)},
				family{name: "Range + Range + updates", ss: product([][]Op{full[0], parse("S1.1 S2.1")}, rng, rng, two(opsOf(ud, k12, h1))), o: bnd(r, 3)},
			)
		}
		return append(us, perClass(twins(fs, th))...)
	}

	checks["C03"] = func(th bool) []Unit {
		r := Rules{Len: true}
		ln := [][]Op{parse("N")}
		us := everyCtor(family{name: "every constructor, Len + 1, 1+1", ss: append(product(inits(k12, h1), ln, one(opsOf(upd, k1, h1))), product(inits(k12, h1), one(opsOf(upd, k1, h1)), one(opsOf(upd, k12, h1)))...), o: unb(r)})
		us = append(us, largeUnits(onlyLen, th)...)
		fs := []family{
			{name: "1+1 updates, final Len", ss: product(inits(k012, h12), one(opsOf(upd, k1, h12)), one(opsOf(upd, k12, h12))), o: unb(r)},
			{name: "Len + 1 + 1 updates, one key", ss: product(inits(k1, h1), ln, one(opsOf(upd, k1, h1)), one(opsOf(upd, k1, h1))), o: unb(r)},
			{name: "Len + 1 + 1 updates", ss: product(inits(k12, h1), ln, one(opsOf(upd, k1, h1)), one(opsOf(upd, k12, h1))), o: bnd(r, 3)},
			{name: "Len Len + 2 updates", ss: product(inits(k1, h1), [][]Op{parse("N N")}, two(opsOf(upd, k12, h1))), o: unb(r)},
			{name: "update Len + 1 + 1 updates", ss: product(inits(k1, h1), [][]Op{parse("S1 N"), parse("O1 N"), parse("A1 N"), parse("D1 N"), parse("Z1 N")}, one(opsOf(upd, k1, h1)), one(opsOf(upd, k1, h1))), o: bnd(r, 2)},
			{name: "2+2 updates, final Len", ss: product(inits(k1, h1), two(opsOf(upd, k1, h1)), two(opsOf(upd, k1, h1))), o: bnd(r, 2)},
			{name: "1+1+1 updates, final Len", ss: product(inits(k12, h2), one(opsOf([]Kind{KStore, KLAD}, k1, h2)), one(opsOf([]Kind{KStore, KLazy, KDel}, k12, h2)), one(opsOf([]Kind{KLOS, KLAD}, k12, h1))), o: bnd(r, 2)},
		}
		fs = append(fs, pressure(r, append(one(opsOf(upd, k1, h1)), ln...), th)...)
		if th {
			fs = append(fs,
				family{name: "Len + 1 + 1 updates, unbounded", ss: product(inits(k12, h12), ln, one(opsOf(upd, k1, h1)), one(opsOf(upd, k12, h1))), o: unb(r)},
				family{name: "1+1+1 updates, all kinds, final Len", ss: product(inits(k12, h2), one(opsOf(upd, k1, h2)), one(opsOf(upd, k12, h2)), one(opsOf(upd, k12, h1))), o: bnd(r, 2)},
				family{name: "Len + 2 + 1 updates", ss: product(inits(k1, h1), ln, two(opsOf(upd, k1, h1)), one(opsOf(upd, k1, h1))), o: bnd(r, 3)},
				family{name: "Len Len + 2 updates, neighbours", ss: product(inits(k12, h2), [][]Op{parse("N N")}, two(opsOf(upd, k12, h12))), o: unb(r)},
				family{name: "Len + 1 + 1 + 1 updates, one key", ss: product(inits(k1, h1), ln, one(opsOf(upd, k1, h1)), one(opsOf(upd, k1, h1)), one(opsOf(upd, k1, h1))), o: bnd(r, 2)},
				family{name: "2+2 updates, final Len, unbounded", ss: product(inits(k1, h1), two(opsOf(upd, k1, h1)), two(opsOf(upd, k1, h1))), o: unb(r)},
				family{name: "1+1+1 updates, final Len, unbounded", ss: product(inits(k12, h2), one(opsOf(upd, k1, h2)), one(opsOf(upd, k12, h2)), one(opsOf(upd, k12, h1))), o: unb(r)},
			)
		}
		return append(us, perClass(twins(fs, th))...)
	}

	checks["C04"] = func(th bool) []Unit {
		r := Rules{Live: true}
		hs := []uint8{1, 3}
		idk := []Kind{KStore, KLazy, KDel}
		sd := []Kind{KStore, KDel}
		some := [][]Op{nil, parse("S1.3"), parse("S1.3 S2.1"), parse("S1.1 S2.3")}
		us := everyCtor(family{name: "every constructor, 1+1", ss: append(product(inits(k012, h2), one(opsOf(upd, k1, h2)), one(opsOf(upd, k12, h2))), tall...), o: bnd(r, 2)})
		for _, c := range reprs {
			us = append(us, erosions(c, true, pick2(th, 280, 120), locksteps(pick2(th, 40, 6)))...)
		}
		fs := []family{
			{name: "1+1 updates, all neighbours and heights", ss: product(inits(k012, hs), one(opsOf(upd, k1, hs)), one(opsOf(upd, k12, hs))), o: unb(r)},
			{name: "tall towers", ss: tall, o: bnd(r, 2), size: 1},
			{name: "1+1+1 updates, neighbours", ss: product(some, one(opsOf(sd, k12, hs)), one(opsOf(sd, k12, hs)), one(opsOf([]Kind{KLazy, KDel}, k12, hs))), o: bnd(r, 2)},
			{name: "1+2 updates, neighbours", ss: product(inits(k12, []uint8{3}), one(opsOf(upd, k1, hs)), two(opsOf(idk, k12, hs))), o: bnd(r, 2)},
			{name: "2+2 updates on one key", ss: product(inits(k1, h1), two(opsOf(upd, k1, h2)), two(opsOf(upd, k1, h1))), o: bnd(r, 2)},
		}
		fs = append(fs, pressure(r, one(opsOf(upd, k1, []uint8{3})), th)...)
		if th {
			fs = append(fs,
				family{name: "tall towers, unbounded", ss: tall, o: unb(r).lim(60 * sec), size: 1},
				family{name: "1+1+1 updates, all kinds, neighbours", ss: product(append(some, parse("S2.3"), parse("S0.3 S1.1 S2.3 S3.1")), one(opsOf(idk, k12, hs)), one(opsOf(idk, k12, hs)), one(opsOf(idk, k12, hs))), o: bnd(r, 2)},
				family{name: "2+2 updates, neighbours", ss: product(inits(k12, []uint8{3}), two(opsOf(idk, k12, hs)), two(opsOf(idk, k12, hs))), o: bnd(r, 2)},
				family{name: "1+2 updates, neighbours, unbounded", ss: product(inits(k12, []uint8{3}), one(opsOf(upd, k1, hs)), two(opsOf(idk, k12, hs))), o: unb(r)},
				family{name: "1+1+1 updates, neighbours, bound 3", ss: product(append(some, parse("S2.3"), parse("S0.3 S1.1 S2.3 S3.1")), one(opsOf(idk, k12, hs)), one(opsOf(idk, k12, hs)), one(opsOf(idk, k12, hs))), o: bnd(r, 3)},
				family{name: "1+1+1+1 updates", ss: product([][]Op{nil, parse("S1.3"), parse("S1.3 S2.3")}, one(opsOf(idk, k12, h2)), one(opsOf(idk, k12, h2)), one(opsOf(idk, k12, h2)), one(opsOf(idk, k12, h2))), o: bnd(r, 2)},
			)
		}
		return append(us, perClass(twins(fs, th))...)
	}

	checks["C05"] = func(th bool) []Unit {
		r := Rules{WaitFree: true}
		hs := []uint8{1, 3}
		rd := [][]Op{parse("L1"), parse("L2"), parse("R"), parse("N")}
		us := everyCtor(family{name: "every constructor, reader + 1", ss: product(inits(k12, h2), rd, one(opsOf(upd, k12, h2))), o: unb(r)})
		fs := []family{
			{name: "reader + 1 update, all neighbours", ss: product(inits(k012, hs), rd, one(opsOf(upd, k12, hs))), o: unb(r)},
			{name: "reader + 2 updates", ss: product(inits(k12, h1), rd, two(opsOf(upd, k12, h2))), o: unb(r)},
			{name: "reader + 1 + 1 updates, one key", ss: product(inits(k1, h1), [][]Op{parse("L1"), parse("R"), parse("N")}, one(opsOf(upd, k1, h2)), one(opsOf(upd, k1, h1))), o: bnd(r, 3)},
			{name: "reader + 1 + 1 updates", ss: product(inits(k12, h2), rd, one(opsOf(upd, k1, h2)), one(opsOf(upd, k12, h1))), o: bnd(r, 2)},
			{name: "reader + 3 updates", ss: product([][]Op{parse("S1.1"), parse("S1.2 S2.1")}, rd, seqsOf(opsOf([]Kind{KStore, KDel}, k12, h2), 3)), o: bnd(r, 3)},
		}
		fs = append(fs, pressure(r, [][]Op{parse("L1"), parse("R"), parse("N")}, th)...)
		if th {
			fs = append(fs,
				family{name: "reader + 1 + 1 updates, unbounded", ss: product(inits(k12, h2), rd, one(opsOf(upd, k1, h2)), one(opsOf(upd, k12, h1))), o: unb(r)},
				family{name: "reader + 4 updates", ss: product([][]Op{nil, parse("S1.1"), parse("S1.2 S2.1")}, rd, seqsOf(opsOf([]Kind{KStore, KDel}, k12, h2), 4)), o: bnd(r, 4)},
				family{name: "reader + 2 + 1 updates", ss: product(inits(k12, h2), rd, two(opsOf([]Kind{KStore, KLazy, KDel}, k12, h2)), one(opsOf([]Kind{KStore, KLazy, KDel}, k12, h1))), o: bnd(r, 2)},
			)
		}
		return append(us, perClass(twins(fs, th))...)
	}

	checks["C06"] = func(th bool) []Unit {
		r := Rules{Whole: true}
		o := Opt{Rules: r, Big: true, Race: true, Bound: -1}
		o2, o3 := o, o
		o2.Bound, o3.Bound = 2, 3
		all := append(append([]Kind(nil), pointKinds...), KRange, KLen)
		hs := []uint8{1, 5}
		us := everyCtor(family{name: "every constructor, 1+1", ss: product(inits(k12, h1), one(opsOf(all, k1, h1)), one(opsOf(all, k12, h2))), o: o})
		fs := []family{
			{name: "1+1 operations, all kinds and heights", ss: product(inits(k012, h2), one(opsOf(all, k1, hs)), one(opsOf(all, k12, hs))), o: o},
			{name: "1+2 operations on one key", ss: product(inits(k1, h1), one(opsOf(all, k1, h1)), two(opsOf(all, k1, h1))), o: o},
			{name: "tall towers", ss: tall, o: o2, size: 1},
			{name: "1+1+1 operations on one key", ss: product(inits(k1, h1), one(opsOf(pointKinds, k1, h1)), one(opsOf(upd, k1, h1)), one(opsOf(upd, k1, h1))), o: o2},
			{name: "1+1+1 operations, neighbours", ss: product(inits(k12, h2), one(opsOf(all, k1, h2)), one(opsOf([]Kind{KStore, KLazy, KLAD}, k1, h2)), one(opsOf([]Kind{KStore, KDel}, k12, h2))), o: o2},
		}
		if th {
			fs = append(fs,
				family{name: "1+2 operations, neighbours", ss: product(inits(k12, h2), one(opsOf(all, k1, h2)), two(opsOf(all, k12, h2))), o: o3},
				family{name: "2+2 operations on one key", ss: product(inits(k1, h1), two(opsOf(all, k1, h1)), two(opsOf(all, k1, h1))), o: o3},
				family{name: "1+1+1 operations on one key, bound 3", ss: product(inits(k1, h1), one(opsOf(pointKinds, k1, h1)), one(opsOf(upd, k1, h1)), one(opsOf(upd, k1, h1))), o: o3},
				family{name: "1+1+1 operations, neighbours, bound 3", ss: product(inits(k12, h2), one(opsOf(all, k1, h2)), one(opsOf([]Kind{KStore, KLazy, KLAD}, k1, h2)), one(opsOf([]Kind{KStore, KDel}, k12, h2))), o: o3},
				family{name: "tall towers, bound 3", ss: tall, o: o3, size: 1},
			)
		}
		return append(us, perClass(twins(fs, th))...)
	}

	checks["C07"] = func(th bool) []Unit {
		r := Rules{Winners: true}
		ins := []Kind{KLOS, KLazy}
		mix := []Kind{KLOS, KLazy, KLAD, KDel}
		us := everyCtor(family{name: "every constructor, 1+1 and 1+1+1", ss: append(product(inits(k1, h1), one(opsOf(mix, k1, h12)), one(opsOf(mix, k1, h12))), product([][]Op{nil, parse("S1")}, one(opsOf(mix, k1, h1)), one(opsOf(mix, k1, h1)), one(opsOf(mix, k1, h1)))...), o: bnd(r, 2)})
		fs := []family{
			{name: "1+1 operations", ss: product(inits(k012, h12), one(opsOf(mix, k1, h12)), one(opsOf(mix, k1, h12))), o: unb(r)},
			{name: "1+1+1 insert-if-absent, one key, heights", ss: product([][]Op{nil, parse("S0.2 S2.2")}, one(opsOf(ins, k1, h12)), one(opsOf(ins, k1, h12)), one(opsOf(ins, k1, []uint8{1, 4}))), o: bnd(r, 2)},
			{name: "1+1+1 insert/delete, one key", ss: product(inits(k1, h1), one(opsOf(mix, k1, h1)), one(opsOf(mix, k1, h1)), one(opsOf(mix, k1, h1))), o: unb(r)},
			{name: "2+2 insert/delete, one key", ss: product(inits(k1, h1), two(opsOf(mix, k1, h1)), two(opsOf(mix, k1, h1))), o: bnd(r, 3)},
			{name: "1+1+1+1 insert/delete, one key", ss: product(inits(k1, h1), one(opsOf(mix, k1, h1)), one(opsOf(ins, k1, h1)), one(opsOf([]Kind{KLazy, KDel}, k1, h1)), one(opsOf([]Kind{KLAD}, k1, h1))), o: bnd(r, 2)},
			{name: "1+1+1 with a neighbour", ss: product([][]Op{nil, parse("S1.2"), parse("S2.2"), parse("S0.1 S1.2")}, one(opsOf(mix, k1, h2)), one(opsOf(mix, k1, h2)), one(opsOf([]Kind{KStore, KDel}, []int8{0, 2}, h2))), o: bnd(r, 2)},
		}
		fs = append(fs, pressure(r, one(opsOf(mix, k1, h1)), th)...)
		if th {
			fs = append(fs,
				family{name: "1+1+1 insert-if-absent, one key, heights, bound 3", ss: product([][]Op{nil, parse("S0.2 S2.2")}, one(opsOf(ins, k1, h12)), one(opsOf(ins, k1, h12)), one(opsOf(ins, k1, []uint8{1, 4}))), o: bnd(r, 3)},
				family{name: "2+2 insert/delete, one key, unbounded", ss: product(inits(k1, h1), two(opsOf(mix, k1, h1)), two(opsOf(mix, k1, h1))), o: unb(r)},
				family{name: "1+1+1+1 insert/delete, one key, bound 3", ss: product(inits(k1, h1), one(opsOf(mix, k1, h1)), one(opsOf(mix, k1, h1)), one(opsOf(mix, k1, h1)), one(opsOf(mix, k1, h1))), o: bnd(r, 3)},
				family{name: "1+1+2 insert/delete, one key", ss: product(inits(k1, h1), one(opsOf(mix, k1, h2)), one(opsOf(mix, k1, h1)), two(opsOf(mix, k1, h1))), o: bnd(r, 3)},
				family{name: "1+1+1 with a neighbour, bound 4", ss: product([][]Op{nil, parse("S1.2"), parse("S2.2"), parse("S0.1 S1.2")}, one(opsOf(mix, k1, h2)), one(opsOf(mix, k1, h2)), one(opsOf([]Kind{KStore, KDel}, []int8{0, 2}, h2))), o: bnd(r, 4)},
			)
		}
		return append(us, perClass(fs)...)
	}
}
