package main

import (
	"fmt"
	"sort"
	"strings"

	"verifmc/vrt"
)

type Kind uint8

const (
	KStore Kind = iota
	KLoad
	KLOS
	KLazy
	KLAD
	KDel
	KRange
	KLen
	KLazyP  // LoadOrStoreLazy whose f panics
	KRangeP // Range whose f panics at its second call
	KRangeS // Range whose f returns false at its second call
	KNone   // unused slot
)

var kindNames = [...]string{"Store", "Load", "LoadOrStore", "LoadOrStoreLazy", "LoadAndDelete", "Delete", "Range", "Len", "LoadOrStoreLazy-panic", "Range-panic", "Range-stop", "-"}

func isRange(k Kind) bool { return k == KRange || k == KRangeP || k == KRangeS }
func hasKey(k Kind) bool  { return k != KLen && k != KNone && !isRange(k) }

// boom is what panicking callbacks panic with.
var boom = new(int)

// Sub is what the callback of a Range does at each of its calls: an operation
// on the key D places after the visited one.
type Sub struct {
	On bool
	K  Kind
	D  int8
	H  uint8
}

// Op is one operation; H is the tower height an insertion draws.
type Op struct {
	K   Kind
	Key int8
	H   uint8
	M   uint8 // map it works on (two-map scenarios)
	Sub Sub   // callback of a Range
}

func (o Op) String() string {
	m := ""
	if o.M > 0 {
		m = fmt.Sprintf("map%d.", o.M)
	}
	switch o.K {
	case KRange, KLen, KRangeP, KRangeS:
		if o.Sub.On {
			return fmt.Sprintf("%s%s(f does %s(k%+d))", m, kindNames[o.K], kindNames[o.Sub.K], o.Sub.D)
		}
		return m + kindNames[o.K] + "()"
	case KStore, KLOS, KLazy, KLazyP:
		return fmt.Sprintf("%s%s(k%d,h%d)", m, kindNames[o.K], o.Key, o.H)
	}
	return fmt.Sprintf("%s%s(k%d)", m, kindNames[o.K], o.Key)
}

// Scen is a bounded program: a sequential prefix and concurrent threads.
type Scen struct {
	Init []Op
	Th   [][]Op
}

func (s Scen) String() string {
	var b strings.Builder
	for i, o := range s.Init {
		if i > 0 {
			b.WriteByte(';')
		}
		b.WriteString(o.String())
	}
	for _, t := range s.Th {
		b.WriteString(" || ")
		n, ell := repeats(t)
		for i, o := range t[:n] {
			if i > 0 {
				b.WriteByte(';')
			}
			b.WriteString(o.String())
		}
		b.WriteString(ell)
	}
	return b.String()
}

// repeats finds the period of a long sequence of operations.
func repeats(t []Op) (int, string) {
	if len(t) > 12 {
		for n := 1; n <= 6; n++ {
			same := true
			for i := n; i < len(t) && same; i++ {
				same = t[i] == t[i-n]
			}
			if same {
				return n, fmt.Sprintf("; and so on, %d operations", len(t))
			}
		}
	}
	return len(t), ""
}

// Ev is one executed operation of a history.
type Ev struct {
	Op
	T        int8 // 0: set-up/audit
	Val      int
	Inv, Ret int
	Res      int
	OK       bool
	Calls    int // invocations of the factory
	Panicked bool
	nsub     int // slots for operations of the callback that follow this one
	Visits   []KV
	Vis      int
	Blocked  int
	Done     bool
	wide     int // key of a wide map
}

type KV struct{ K, V int }

func (e *Ev) String() string {
	s := fmt.Sprintf("T%d [%d,%d] ", e.T, e.Inv, e.Ret)
	switch e.K {
	case KStore:
		s += fmt.Sprintf("Store(k%d, %d)", e.Key, e.Val)
	case KLoad:
		s += fmt.Sprintf("Load(k%d) = %d,%v", e.Key, e.Res, e.OK)
	case KLOS:
		s += fmt.Sprintf("LoadOrStore(k%d, %d) = %d,%v", e.Key, e.Val, e.Res, e.OK)
	case KLazy:
		s += fmt.Sprintf("LoadOrStoreLazy(k%d, %d) = %d,%v (f ran %d times)", e.Key, e.Val, e.Res, e.OK, e.Calls)
	case KLAD:
		s += fmt.Sprintf("LoadAndDelete(k%d) = %d,%v", e.Key, e.Res, e.OK)
	case KDel:
		s += fmt.Sprintf("Delete(k%d) = %v", e.Key, e.OK)
	case KRange, KRangeP, KRangeS:
		s += fmt.Sprintf("%s = %v", kindNames[e.K], e.Visits)
	case KLazyP:
		s += fmt.Sprintf("LoadOrStoreLazy(k%d, panicking f) = %d,%v (f ran %d times)", e.Key, e.Res, e.OK, e.Calls)
	case KLen:
		s += fmt.Sprintf("Len = %d", e.Res)
	}
	if !e.Done {
		s += " (unfinished)"
	}
	return s
}

// Prog runs one scenario on one map type.
type Prog struct {
	S      Scen
	Ctor   *Ctor
	Ctor2  *Ctor // of the second map (nil: same)
	Big    bool
	Two    bool // operations with M=1 work on a second map
	Fresh  bool // every thread creates the map of its first operation itself
	Rules  Rules
	ms     [2]Map
	evs    []Ev // all events of the current execution: init, threads, audit
	ninit  int
	starts []int
	seen   map[uint64]bool // histories already judged
	hists  int
	judged int
	maxVis int
	after  func(p *Prog, x *vrt.Exec) string
	before func(p *Prog)
}

// Rules selects what is judged.
type Rules struct {
	Lin      bool // point operations per-key linearizable (with final audit)
	Range    bool // Range order and per-key validity
	Len      bool // Len bounds and final value
	Live     bool // further operations on every key return (results not judged)
	Whole    bool // values are whole and were stored under their key
	Usable   bool // every key can be deleted, inserted, deleted again afterwards
	WaitFree bool // Load/Range/Len never blocked, bounded steps
	Winners  bool // counting rules on LoadOrStore/Lazy/Delete
	NoBlock  bool // no operation ever waits for another (independent maps)
}

// catch runs f and recovers the panic of a panicking callback.
func catch(e *Ev, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if r != any(boom) {
				panic(r)
			}
			e.Panicked = true
		}
	}()
	f()
}

func doOp(m Map, e *Ev) {
	switch e.K {
	case KStore:
		m.Store(int(e.Key), e.Val)
	case KLoad:
		e.Res, e.OK = m.Load(int(e.Key))
	case KLOS:
		e.Res, e.OK = m.LoadOrStore(int(e.Key), e.Val)
	case KLazy:
		e.Res, e.OK = m.LoadOrStoreLazy(int(e.Key), func() int {
			e.Calls++
			vrt.ABefore() // f itself may be suspended
			return e.Val
		})
	case KLAD:
		e.Res, e.OK = m.LoadAndDelete(int(e.Key))
	case KDel:
		e.OK = m.Delete(int(e.Key))
	case KRange:
		e.Visits = e.Visits[:0]
		m.Range(func(k, v int) bool {
			e.Visits = append(e.Visits, KV{k, v})
			return true
		})
	case KRangeP, KRangeS:
		e.Visits = e.Visits[:0]
		catch(e, func() {
			m.Range(func(k, v int) bool {
				e.Visits = append(e.Visits, KV{k, v})
				if len(e.Visits) > 1 && e.K == KRangeP {
					panic(boom)
				}
				return len(e.Visits) < 2
			})
		})
	case KLazyP:
		catch(e, func() {
			e.Res, e.OK = m.LoadOrStoreLazy(int(e.Key), func() int {
				e.Calls++
				vrt.ABefore()
				panic(boom)
			})
		})
	case KLen:
		e.Res = m.Len()
	}
}

// rangeDo is a Range whose callback runs further operations, recorded in the slots after e.
func (p *Prog) rangeDo(x *vrt.Exec, at, t int) {
	e := &p.evs[at]
	e.Visits = e.Visits[:0]
	p.ms[e.M].Range(func(k, v int) bool {
		e.Visits = append(e.Visits, KV{k, v})
		n := len(e.Visits)
		if d := k + int(e.Sub.D); n <= e.nsub && d >= 0 && d < NK {
			s := &p.evs[at+n]
			val := t*10 + 100*(at+1) + n
			*s = Ev{Op: Op{K: e.Sub.K, Key: int8(d), H: e.Sub.H, M: e.M}, Val: val, Visits: s.Visits[:0]}
			p.run(x, at+n, t)
		}
		return n < 20
	})
}

func (p *Prog) run(x *vrt.Exec, at, t int) {
	e := &p.evs[at]
	th := x.T()
	th.Grow = 0
	if e.H > 0 {
		th.Grow = int(e.H) - 1
	}
	e.T = int8(t)
	e.Done = false
	e.Calls, e.Vis, e.Blocked = 0, 0, 0
	e.Res, e.OK, e.Panicked = 0, false, false
	x.Invoke(func() { e.Inv = x.Clock() })
	if e.Sub.On {
		p.rangeDo(x, at, t)
	} else {
		doOp(p.ms[e.M], e)
	}
	x.Return()
	e.Ret = x.Clock()
	e.Vis, e.Blocked = th.Vis, th.Blocked
	e.Done = true
}

func (p *Prog) Setup(x *vrt.Exec) []func() {
	mk := p.Ctor.Mk
	if p.Big {
		mk = p.Ctor.Big
	}
	mks := [2]func() Map{mk, mk}
	if p.Ctor2 != nil {
		mks[1] = p.Ctor2.Mk
	}
	p.ms = [2]Map{}
	if !p.Fresh {
		p.ms[0] = mk()
		if p.Two {
			p.ms[1] = mks[1]()
		}
	}
	n := len(p.S.Init)
	for _, t := range p.S.Th {
		n += len(t)
		for _, o := range t {
			if o.Sub.On {
				n += NK
			}
		}
	}
	if cap(p.evs) < n+64 {
		p.evs = make([]Ev, 0, n+64)
	}
	p.evs = p.evs[:n]
	k := 0
	for i, o := range p.S.Init {
		e := &p.evs[k]
		*e = Ev{Op: o, Val: 100 + i, Visits: e.Visits[:0]}
		p.run(x, k, 0)
		k++
	}
	p.ninit = k
	if p.before != nil {
		p.before(p)
	}
	var bodies []func()
	for ti, ops := range p.S.Th {
		lo := k
		for i, o := range ops {
			e := &p.evs[k]
			val := (ti+1)*10 + i + 1
			if len(ops) > 8 {
				val = (ti+1)*1_000_000 + i
			}
			*e = Ev{Op: o, T: int8(ti + 1), Val: val, Visits: e.Visits[:0]}
			k++
			if o.Sub.On {
				e.nsub = NK
				for j := 0; j < NK; j++ {
					s := &p.evs[k]
					*s = Ev{Op: Op{K: KNone}, Visits: s.Visits[:0]}
					k++
				}
			}
		}
		hi := k
		bodies = append(bodies, func() {
			if m := p.evs[lo].M; p.Fresh {
				p.ms[m] = mks[m]()
			}
			for i := lo; i < hi; i += 1 + p.evs[i].nsub {
				p.run(x, i, ti+1)
			}
		})
	}
	return bodies
}

func (p *Prog) add(x *vrt.Exec, o Op, val int) *Ev {
	p.evs = append(p.evs, Ev{Op: o, Val: val})
	p.run(x, len(p.evs)-1, 0)
	return &p.evs[len(p.evs)-1]
}

func (p *Prog) keys() []int8 {
	var seen [NK]bool
	var ks []int8
	f := func(o Op) {
		if hasKey(o.K) {
			seen[o.Key] = true
		}
		if o.Sub.On {
			seen = [NK]bool{true, true, true, true, true, true}
		}
	}
	for _, o := range p.S.Init {
		f(o)
	}
	for _, t := range p.S.Th {
		for _, o := range t {
			f(o)
		}
	}
	for i, b := range seen {
		if b {
			ks = append(ks, int8(i))
		}
	}
	return ks
}

func (p *Prog) Check(x *vrt.Exec) string {
	if p.after != nil {
		if s := p.after(p, x); s != "" {
			return p.report(s)
		}
	}
	if c, ok := p.ms[0].(*crowd); ok && (p.Rules.Lin || p.Rules.Usable) {
		if s := c.loads(); s != "" {
			return p.report(s)
		}
	}
	nm := uint8(1)
	if p.Two {
		nm = 2
	}
	for m := uint8(0); m < nm; m++ {
		if p.ms[m] == nil { // no thread has created it
			p.ms[m] = p.Ctor.Mk()
		}
	}
	ks := p.keys()
	audit := len(p.evs)
	for m := uint8(0); m < nm; m++ {
		for _, k := range ks {
			p.add(x, Op{K: pick3(p.Rules.Winners, KLAD, KLoad), Key: k, M: m}, 0)
		}
		if !p.Rules.Winners {
			p.add(x, Op{K: KRange, M: m}, 0)
			p.add(x, Op{K: KLen, M: m}, 0)
		}
	}
	h := p.hash()
	if !p.seen[h] {
		if p.seen == nil {
			p.seen = map[uint64]bool{}
		}
		p.seen[h] = true
		p.judged++
		for m := uint8(0); m < nm; m++ {
			if s := p.judge(ks, m, audit); s != "" {
				return p.report(s)
			}
		}
	}
	// Steps and blocking are not part of the history hash.
	if s := p.judgeSteps(); s != "" {
		return p.report(s)
	}
	if p.Rules.Usable || p.Rules.Live {
		for m := uint8(0); m < nm; m++ {
			if s := p.usable(x, ks, m); s != "" {
				return p.report(s)
			}
		}
	}
	return ""
}

func (p *Prog) Bad(x *vrt.Exec) string {
	s := x.FailKind + ": " + x.Failure
	if x.FailInfo != "" {
		s += "\n" + x.FailInfo
	}
	return p.report(s)
}

func (p *Prog) report(s string) string {
	var b strings.Builder
	b.WriteString(s)
	b.WriteString("\nhistory:")
	for i := range p.evs {
		if n := len(p.evs); n > 200 && i == 60 {
			fmt.Fprintf(&b, "\n  ... %d operations ...", n-120)
		} else if n > 200 && i > 60 && i < n-60 {
			continue
		}
		b.WriteString("\n  " + p.evs[i].String())
	}
	return b.String()
}

func (p *Prog) hash() uint64 {
	h := uint64(1)
	for i := range p.evs {
		e := &p.evs[i]
		b := uint64(0)
		if e.OK {
			b = 1
		}
		h = vrt.Mix(h, uint64(e.Inv)<<40|uint64(e.Ret)<<16|uint64(e.Calls)<<1|b)
		h = vrt.Mix(h, uint64(e.Res))
		for _, v := range e.Visits {
			h = vrt.Mix(h, uint64(v.K)<<32+uint64(v.V))
		}
	}
	return h
}

const absent = -1 << 30

// pop is one operation of a single-key history.
type pop struct {
	k        Kind
	val, res int
	ok       bool
	inv, ret int
	e        *Ev
}

// keyHist collects the operations on one key. Range counts as a read of every key.
func (p *Prog) keyHist(buf []pop, key int8, m uint8, withRange bool) []pop {
	buf = buf[:0]
	for i := range p.evs {
		e := &p.evs[i]
		if e.M != m || !e.Done {
			continue
		}
		switch e.K {
		case KLen, KNone:
		case KRange, KRangeP, KRangeS:
			if !withRange {
				continue
			}
			o := pop{k: KLoad, inv: e.Inv, ret: e.Ret, e: e}
			for _, v := range e.Visits {
				if v.K == int(key) {
					o.ok, o.res = true, v.V
					break
				}
			}
			if n := len(e.Visits); !o.ok && e.K != KRange && n >= 2 && e.Visits[n-1].K < int(key) {
				continue // ended before it could get there
			}
			buf = append(buf, o)
		case KLazyP:
			// Without effect if f ran; a load otherwise.
			if e.Key == key && e.OK {
				buf = append(buf, pop{KLoad, e.Val, e.Res, e.OK, e.Inv, e.Ret, e})
			}
		default:
			if e.Key == key {
				buf = append(buf, pop{e.K, e.Val, e.Res, e.OK, e.Inv, e.Ret, e})
			}
		}
	}
	return buf
}

// step applies o to state st of a key; false if the recorded result is impossible.
func (o *pop) step(st int) (int, bool) {
	switch o.k {
	case KStore:
		return o.val, true
	case KLoad:
		if st == absent {
			return st, !o.ok && o.res == 0
		}
		return st, o.ok && o.res == st
	case KLOS, KLazy:
		if st == absent {
			return o.val, !o.ok && o.res == o.val
		}
		return st, o.ok && o.res == st
	case KLAD:
		if st == absent {
			return st, !o.ok && o.res == 0
		}
		return absent, o.ok && o.res == st
	case KDel:
		if st == absent {
			return st, !o.ok
		}
		return absent, o.ok
	}
	panic("kind")
}

type linKey struct {
	mask uint64
	st   int
}

// linearizableLong is linearizable for long histories with few concurrent operations.
func linearizableLong(ops []pop) bool {
	ops = append([]pop(nil), ops...)
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].inv < ops[j].inv })
	const maxChains = 10
	var chains [maxChains][]pop // each in real-time order
	used := 0
next:
	for _, o := range ops {
		for c := 0; c < used; c++ {
			if chains[c][len(chains[c])-1].ret < o.inv {
				chains[c] = append(chains[c], o)
				continue next
			}
		}
		if used == maxChains {
			panic("too many concurrent operations")
		}
		chains[used] = []pop{o}
		used++
	}
	type st struct {
		at [maxChains]int32
		v  int
	}
	seen := map[st]bool{}
	var rec func(s st) bool
	rec = func(s st) bool {
		if seen[s] {
			return false
		}
		seen[s] = true
		minRet := int(^uint(0) >> 1)
		for c := 0; c < used; c++ {
			if i := int(s.at[c]); i < len(chains[c]) {
				minRet = min(minRet, chains[c][i].ret)
			}
		}
		done := true
		for c := 0; c < used; c++ {
			i := int(s.at[c])
			if i == len(chains[c]) {
				continue
			}
			done = false
			if o := &chains[c][i]; o.inv < minRet {
				if v, ok := o.step(s.v); ok {
					n := s
					n.at[c]++
					n.v = v
					if rec(n) {
						return true
					}
				}
			}
		}
		return done
	}
	return rec(st{v: absent})
}

// linearizable decides by exhaustive search whether ops have a legal order.
func linearizable(ops []pop) bool {
	if len(ops) > 60 {
		return linearizableLong(ops)
	}
	// Operations that precede all others in real time are applied directly.
	seen := map[linKey]bool{}
	full := uint64(1)<<len(ops) - 1
	var rec func(mask uint64, st int) bool
	rec = func(mask uint64, st int) bool {
		if mask == full {
			return true
		}
		k := linKey{mask, st}
		if seen[k] {
			return false
		}
		seen[k] = true
		minRet := int(^uint(0) >> 1)
		for i := range ops {
			if mask>>i&1 == 0 && ops[i].ret < minRet {
				minRet = ops[i].ret
			}
		}
		for i := range ops {
			if mask>>i&1 == 0 && ops[i].inv < minRet {
				if ns, ok := ops[i].step(st); ok && rec(mask|1<<i, ns) {
					return true
				}
			}
		}
		return false
	}
	return rec(0, absent)
}

func (p *Prog) judge(ks []int8, m uint8, audit int) string {
	var buf []pop
	for i := range p.evs {
		e := &p.evs[i]
		if e.M != m {
			continue
		}
		if e.Res == torn {
			return "a value was returned that is not one stored as a whole: " + e.String()
		}
		for _, v := range e.Visits {
			if v.V == torn {
				return "Range passed a value that is not one stored as a whole: " + e.String()
			}
		}
	}
	lazy, ranges := p.Rules.Lin || p.Rules.Winners || p.Rules.Usable, p.Rules.Range || p.Rules.Usable
	for i := range p.evs {
		e := &p.evs[i]
		if e.M != m || !e.Done {
			continue
		}
		if lazy && (e.K == KLazyP || e.K == KLazy) {
			if e.OK && e.Calls != 0 {
				return "LoadOrStoreLazy reported loaded=true but ran f: " + e.String()
			}
			if e.K == KLazy && !e.OK && e.Calls != 1 {
				return fmt.Sprintf("LoadOrStoreLazy stored but ran f %d times: %s", e.Calls, e.String())
			}
		}
		if ranges && (e.K == KRangeP || e.K == KRangeS) && len(e.Visits) > 2 {
			return "Range called f again after it had returned false or panicked: " + e.String()
		}
		if ranges && isRange(e.K) {
			last := -1
			for _, v := range e.Visits {
				known := false
				for _, k := range ks {
					known = known || int(k) == v.K
				}
				if !known {
					return "Range passed a key that was never stored: " + e.String()
				}
				if v.K <= last {
					return "Range is not strictly increasing in map order: " + e.String()
				}
				last = v.K
			}
		}
	}
	lin := p.Rules.Lin || p.Rules.Winners || p.Rules.Usable
	if lin || p.Rules.Range {
		for _, k := range ks {
			buf = p.keyHist(buf, k, m, false)
			if lin && !linearizable(buf) {
				return fmt.Sprintf("no sequential order of the operations on key k%d explains their results", k)
			}
			if !p.Rules.Range {
				continue
			}
			// Ranges one at a time: every (Range, key) pair is a read within the
			// Range. Without Lin only the updates are taken to be right.
			full := p.keyHist(nil, k, m, true)
			if !lin {
				n := 0
				for _, o := range buf {
					if o.k != KLoad {
						buf[n] = o
						n++
					}
				}
				buf = buf[:n]
				if !linearizable(buf) {
					continue
				}
			}
			for i := range full {
				if !isRange(full[i].e.K) {
					continue
				}
				one := append(append([]pop(nil), buf...), full[i])
				if !linearizable(one) {
					return fmt.Sprintf("what Range reported for key k%d was not its mapping at any moment of that Range: %s", k, full[i].e.String())
				}
			}
		}
	}
	if p.Rules.Whole {
		if s := p.judgeWhole(m); s != "" {
			return s
		}
	}
	if !p.Rules.Len && !p.Rules.Usable {
		return ""
	}
	// Final Len is exact.
	present := 0
	fin := -1
	for i := audit; i < len(p.evs); i++ {
		e := &p.evs[i]
		if e.M != m {
			continue
		}
		if e.K == KLoad && e.OK {
			present++
		}
		if e.K == KLen {
			fin = e.Res
		}
	}
	if fin != present {
		return fmt.Sprintf("Len() = %d at rest with %d keys present", fin, present)
	}
	if p.Rules.Len {
		if s := p.judgeLen(ks, m, audit); s != "" {
			return s
		}
	}
	return ""
}

// judgeLen checks every concurrent Len against the calls begun/completed around it.
func (p *Prog) judgeLen(ks []int8, m uint8, audit int) string {
	for i := range p.evs[:audit] {
		l := &p.evs[i]
		if l.K != KLen || l.M != m || !l.Done {
			continue
		}
		lo, hi := 0, 0
		for _, k := range ks {
			klo, khi := p.lenBounds(k, m, l, audit)
			lo += klo
			hi += khi
		}
		if l.Res < 0 {
			return "Len is negative: " + l.String()
		}
		if l.Res < lo || l.Res > hi {
			return fmt.Sprintf("Len returned %d but between %d and %d keys can be present during it: %s", l.Res, lo, hi, l.String())
		}
	}
	return ""
}

// lenBounds bounds the contribution of one key to a Len call: insertions
// completed before minus deletions begun before its end, and vice versa.
func (p *Prog) lenBounds(k int8, m uint8, l *Ev, audit int) (lo, hi int) {
	var insAll, insC, insB, delAll, delC, delB, stAll, stC, stB int
	final := 0
	for i := range p.evs {
		e := &p.evs[i]
		if e.M != m || e.Key != k || !hasKey(e.K) {
			continue
		}
		if i >= audit {
			if e.K == KLoad && e.OK {
				final = 1
			}
			continue
		}
		var all, c, b *int
		switch e.K {
		case KLOS, KLazy:
			if e.OK {
				continue
			}
			all, c, b = &insAll, &insC, &insB
		case KLAD, KDel:
			if !e.OK {
				continue
			}
			all, c, b = &delAll, &delC, &delB
		case KStore:
			all, c, b = &stAll, &stC, &stB
		default:
			continue
		}
		*all++
		if e.Ret < l.Inv {
			*c++
		}
		if e.Inv < l.Ret {
			*b++
		}
	}
	// Of the stAll Stores exactly x inserted.
	x := final + delAll - insAll
	notIns := stAll - x
	lo = insC + max(0, stC-notIns) - delB
	hi = insB + min(stB, x) - delC
	return
}

func (p *Prog) judgeSteps() string {
	if !p.Rules.WaitFree && !p.Rules.NoBlock {
		return ""
	}
	nodes := 0
	for i := range p.evs {
		switch p.evs[i].K {
		case KStore, KLOS, KLazy, KLazyP:
			nodes++
		}
	}
	bound := 8 * (16 + nodes + p.Ctor.Extra + 4)
	users := [2]int{}
	if p.Rules.NoBlock {
		for _, t := range p.S.Th {
			var on [2]bool
			for _, o := range t {
				if !on[o.M] {
					on[o.M] = true
					users[o.M]++
				}
			}
		}
	}
	for i := p.ninit; i < len(p.evs); i++ {
		e := &p.evs[i]
		if p.Rules.NoBlock && e.Blocked > 0 && users[e.M] < 2 {
			return "an operation waited for an operation on another map: " + e.String()
		}
		if p.Rules.WaitFree && (e.K == KLoad || e.K == KRange || e.K == KLen) {
			if e.Blocked > 0 {
				return "it had to wait for another goroutine: " + e.String()
			}
			if e.Vis > p.maxVis {
				p.maxVis = e.Vis
			}
			if e.Vis > bound {
				return fmt.Sprintf("%d own steps with at most %d entries: %s", e.Vis, nodes, e.String())
			}
		}
	}
	return ""
}

// usable runs further operations on every key after all threads have finished.
func (p *Prog) usable(x *vrt.Exec, ks []int8, m uint8) string {
	var present [NK]int
	n := 0
	for i := range present {
		present[i] = absent
	}
	for _, k := range ks {
		if e := p.add(x, Op{K: KLoad, Key: k, M: m}, 0); e.OK {
			present[k] = e.Res
			n++
		}
	}
	step := func(o Op, val int) string {
		e := p.add(x, o, val)
		if p.Rules.Live {
			return ""
		}
		q := pop{e.K, e.Val, e.Res, e.OK, 0, 0, e}
		ns, ok := q.step(present[o.Key])
		if !ok {
			return "an operation after all others finished gives a wrong result: " + e.String()
		}
		if (ns == absent) != (present[o.Key] == absent) {
			if ns == absent {
				n--
			} else {
				n++
			}
		}
		present[o.Key] = ns
		return ""
	}
	check := func() string {
		e := p.add(x, Op{K: KRange, M: m}, 0)
		if p.Rules.Live {
			p.add(x, Op{K: KLen, M: m}, 0)
			return ""
		}
		j := 0
		for k := 0; k < NK; k++ {
			if present[k] != absent {
				if j >= len(e.Visits) || e.Visits[j].K != k || e.Visits[j].V != present[k] {
					return "Range after all others finished is wrong: " + e.String()
				}
				j++
			}
		}
		if j != len(e.Visits) {
			return "Range after all others finished is wrong: " + e.String()
		}
		l := p.add(x, Op{K: KLen, M: m}, 0)
		if l.Res != n {
			return fmt.Sprintf("Len after all others finished is wrong (%d keys): %s", n, l.String())
		}
		return ""
	}
	if s := check(); s != "" {
		return s
	}
	for i, k := range ks {
		for _, o := range []Op{{K: KStore, Key: k, H: 1, M: m}, {K: KLAD, Key: k, M: m}, {K: KLAD, Key: k, M: m}, {K: KLOS, Key: k, H: uint8(2 + i), M: m}, {K: KLoad, Key: k, M: m}} {
			if s := step(o, 500+i); s != "" {
				return s
			}
		}
	}
	if s := check(); s != "" {
		return s
	}
	for _, k := range ks {
		if s := step(Op{K: KDel, Key: k, M: m}, 0); s != "" {
			return s
		}
	}
	return check()
}

func pick3(b bool, x, y Kind) Kind {
	if b {
		return x
	}
	return y
}

// judgeWhole checks that every value was stored under its key by some call.
func (p *Prog) judgeWhole(m uint8) string {
	stored := func(k, v int) bool {
		for i := range p.evs {
			e := &p.evs[i]
			if e.M == m && inserts(e.K) && int(e.Key) == k && e.Val == v {
				return true
			}
		}
		return false
	}
	for i := range p.evs {
		e := &p.evs[i]
		if e.M != m || !e.Done {
			continue
		}
		switch e.K {
		case KLoad, KLOS, KLazy, KLAD:
			if e.OK && !stored(int(e.Key), e.Res) {
				return "a value was returned that was never stored under its key: " + e.String()
			}
		}
		for _, v := range e.Visits {
			if !stored(v.K, v.V) {
				return "Range passed a key or value that was never stored: " + e.String()
			}
		}
	}
	return ""
}
