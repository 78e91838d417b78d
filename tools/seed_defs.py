T = 'skipmap.tpl'
DEFS = {}
def d(name, prop, edits, needs='', breaks='', **kw):
    DEFS[name] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, **kw)

N = '{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}}'

# occurrences (by operation order) in the template: Store 0, LoadAndDelete .., LoadOrStore, Lazy, Delete
d('los-marked', 'C01', [(T, '''			if !nodeFound.flags.Get(marked) {
				// The node is fully linked, just return the value.
				return nodeFound.loadVal(), true
			}
			// If the node is marked, represents some other goroutines is in the process of deleting this node,
			// we need to add this node in next loop.
			continue
''', '''			// The node is fully linked, just return the value.
			return nodeFound.loadVal(), true
''', [0])],
  'LoadOrStore while the deletion of its key is between marking and unlinking the entry, and another deletion of the key has already reported the key absent',
  'LoadOrStore returns the value of an entry that is already deleted (it no longer looks at the marked flag)')

d('load-marked', 'C01', [(T, '''			if nex.flags.MGet(fullyLinked|marked, fullyLinked) {
				return nex.loadVal(), true
			}
			return
''', '''			if nex.flags.Get(fullyLinked) {
				return nex.loadVal(), true
			}
			return
''')],
  'Load while a deletion of the key is between marking and unlinking the entry, and another deletion has already reported the key absent',
  'Load returns the value of a deleted entry')

d('lad-double', 'C07', [(T, '''				nodeToDelete.mu.Lock()
				if nodeToDelete.flags.Get(marked) {
					// The node is marked by another process,
					// the physical deletion will be accomplished by another process.
					nodeToDelete.mu.Unlock()
					return
				}
				nodeToDelete.flags.SetTrue(marked)
''', '''				nodeToDelete.mu.Lock()
				nodeToDelete.flags.SetTrue(marked)
''')],
  'two LoadAndDelete calls of the same key that both see the entry unmarked before either locks it',
  'both LoadAndDelete calls succeed and return the value, and Len is decremented twice')

d('del-toplayer', 'C04', [(T, ''' && (int(succs[lFound].level)-1) == lFound {''', ''' {''', 'all')],
  'a deletion whose search passes the upper levels before the entry is linked there and reaches level 0 after it is linked',
  'only the lower levels are unlinked; the marked entry stays linked above and every later Store of the key spins forever')

d('del-leak-lock', 'C04', [(T, '''					// the physical deletion will be accomplished by another process.
					nodeToDelete.mu.Unlock()
					return false
''', '''					// the physical deletion will be accomplished by another process.
					return false
''')],
  'two concurrent deletions of one entry, and a Store that found the entry as its predecessor before it was unlinked and locks it afterwards',
  'the losing Delete leaves the removed entry locked, so the Store blocks forever')

d('load-wait-marked', 'C05', [(T, '''			if nex.flags.MGet(fullyLinked|marked, fullyLinked) {
				return nex.loadVal(), true
			}
			return
''', '''			if nex.flags.MGet(fullyLinked|marked, fullyLinked) {
				return nex.loadVal(), true
			}
			if nex.flags.Get(marked) && atomic.LoadPointer(&nex.value) != nil {
				// The node is being deleted, it is gone when its lock is released.
				nex.mu.Lock()
				nex.mu.Unlock()
			}
			return
''')],
  'Load of a key whose deletion has marked the entry and waits for the lock of the predecessor',
  'Load waits for the deleting goroutine')

d('len-plain', 'C06', [(T, '''	return int(atomic.LoadInt64(&s.length))''', '''	return int(s.length)''')],
  'Len concurrent with any insertion or deletion', 'Len reads the counter without synchronisation')

d('range-plain', 'C06', [(T, '''		if !f(x.key, x.loadVal()) {
			break
		}
		x = x.atomicLoadNext(0)
''', '''		if !f(x.key, x.loadVal()) {
			break
		}
		x = x.loadNext(0)
''')],
  'Range concurrent with an insertion or deletion right after the visited entry', 'Range follows the level 0 links with a plain load')

d('link-order', 'C02', [(T, '''			nn.storeNext(layer, succs[layer])
			preds[layer].atomicStoreNext(layer, nn)
''', '''			preds[layer].atomicStoreNext(layer, nn)
			nn.atomicStoreNext(layer, succs[layer])
''', [0])],
  'Range (or any search) that reaches the new entry between the two stores of its insertion',
  'the rest of the map is missed by a reader that passes the new entry before its next pointer is set', kind='own')

d('range-batch', 'C12', [(T, '''	x := s.header.atomicLoadNext(0)
	for x != nil {
		if !x.flags.MGet(fullyLinked|marked, fullyLinked) {
			x = x.atomicLoadNext(0)
			continue
		}
		if !f(x.key, x.loadVal()) {
			break
		}
		x = x.atomicLoadNext(0)
	}
''', '''	// Collect a few nodes at a time, this keeps the pointer chasing out of the callback.
	var batch [8]*%s
	x := s.header.atomicLoadNext(0)
	for x != nil {
		n := 0
		for x != nil && n < len(batch) {
			if x.flags.MGet(fullyLinked|marked, fullyLinked) {
				batch[n] = x
				n++
			}
			x = x.atomicLoadNext(0)
		}
		for _, e := range batch[:n] {
			if !f(e.key, e.loadVal()) {
				return
			}
		}
	}
''' % N)],
  'a Range callback that deletes an entry at most seven entries ahead', 'the deleted entry is still visited')

d('range-marked', 'C12', [(T, '''		if !x.flags.MGet(fullyLinked|marked, fullyLinked) {
			x = x.atomicLoadNext(0)
			continue
		}
		if !f(''', '''		if !x.flags.Get(fullyLinked) {
			x = x.atomicLoadNext(0)
			continue
		}
		if !f(''')],
  'a Range callback that deletes the entry it is called for and then the following one',
  'the cursor stands on a removed entry that still points to the second one, which is visited although it is deleted')

d('lazy-link-first', 'C13', [(T, '''		value := callLazy{{.Name}}(f, &preds, highestLocked)
		nn := new{{.StructPrefix}}Node{{.StructSuffix}}(key, value, level)
		for layer := 0; layer < level; layer++ {
			nn.storeNext(layer, succs[layer])
			preds[layer].atomicStoreNext(layer, nn)
		}
''', '''		nn := new{{.StructPrefix}}Node{{.StructSuffix}}(key, actual, level)
		for layer := 0; layer < level; layer++ {
			nn.storeNext(layer, succs[layer])
			preds[layer].atomicStoreNext(layer, nn)
		}
		value := callLazy{{.Name}}(f, &preds, highestLocked)
		nn.storeVal(value)
''')],
  'the function passed to LoadOrStoreLazy panics, then the same key is stored',
  'a half-inserted entry stays in the list; Store, LoadOrStore and LoadOrStoreLazy of the key spin forever')

d('lazy-early', 'C07', [(T, '''		value := callLazy{{.Name}}(f, &preds, highestLocked)
		nn := new{{.StructPrefix}}Node{{.StructSuffix}}(key, value, level)
''', '''		nn := new{{.StructPrefix}}Node{{.StructSuffix}}(key, value, level)
'''), (T, '''				continue
			}
		}
		for layer := 0; valid && layer < level; layer++ {
			pred = preds[layer]   // target node's previous node
			succ = succs[layer]   // target node's next node
			if pred != prevPred { // the node in this layer could be locked by previous loop
				pred.mu.Lock()
				highestLocked = layer
				prevPred = pred
			}
			// valid check if there is another node has inserted into the skip list in this layer during this process.
			// It is valid if:
			// 1. The previous node and next node both are not marked.
			// 2. The previous node's next node is succ in this layer.
			valid = !pred.flags.Get(marked) && pred.loadNext(layer) == succ && (succ''', '''				continue
			}
		}
		if !called { // don't run the function of the user while holding the locks
			value, called = f(), true
		}
		for layer := 0; valid && layer < level; layer++ {
			pred = preds[layer]   // target node's previous node
			succ = succs[layer]   // target node's next node
			if pred != prevPred { // the node in this layer could be locked by previous loop
				pred.mu.Lock()
				highestLocked = layer
				prevPred = pred
			}
			// valid check if there is another node has inserted into the skip list in this layer during this process.
			// It is valid if:
			// 1. The previous node and next node both are not marked.
			// 2. The previous node's next node is succ in this layer.
			valid = !pred.flags.Get(marked) && pred.loadNext(layer) == succ && (succ'''),
  (T, '''LoadOrStoreLazy(key {{.KeyType}}, f func() {{.ValueType}}) (actual {{.ValueType}}, loaded bool) {
	var (
''', '''LoadOrStoreLazy(key {{.KeyType}}, f func() {{.ValueType}}) (actual {{.ValueType}}, loaded bool) {
	var (
		value        {{.ValueType}}
		called       bool
'''), (T, '''// callLazy{{.Name}} returns''', '''// callLazy{{.Name}}Unused returns'''),
 (T, '''func callLazy{{.Name}}{{.TypeParam}}(''', '''func callLazy{{.Name}}Unused{{.TypeParam}}(''')],
  'another goroutine inserts the key while f runs (or between f and the locking)',
  'LoadOrStoreLazy calls f and then reports loaded=true', kind='own')

d('lazy-global', 'C14', [(T, '''		value := callLazy{{.Name}}(f, &preds, highestLocked)
		nn := new{{.StructPrefix}}Node{{.StructSuffix}}(key, value, level)
''', '''		lazyMu.Lock() // one factory at a time
		value := callLazy{{.Name}}(f, &preds, highestLocked)
		lazyMu.Unlock()
		nn := new{{.StructPrefix}}Node{{.StructSuffix}}(key, value, level)
'''), ('util.go', '''const (
	maxLevel ''', '''// lazyMu serializes the functions passed to LoadOrStoreLazy.
var lazyMu sync.Mutex

const (
	maxLevel '''), ('util.go', '''import (
''', '''import (
	"sync"

''')],
  'the function passed to LoadOrStoreLazy of one map calls LoadOrStoreLazy of another map (or waits for a goroutine that does)',
  'the second map waits for the first: deadlock')

d('nil-iface', 'C15', [(T, '''	node.storeVal(value)
	if level > op1''', '''	if any(value) != nil {
		node.storeVal(value)
	}
	if level > op1'''), (T, '''	return *(*{{.ValueType}})(atomic.LoadPointer(&n.value))
''', '''	p := (*{{.ValueType}})(atomic.LoadPointer(&n.value))
	if p == nil {
		var zero {{.ValueType}}
		return zero
	}
	return *p
''')],
  'an interface value type, a stored nil, and LoadAndDelete of the key', 'LoadAndDelete panics with a nil dereference: it reads the value without the nil check of loadVal')

d('prev-link', 'C16', [(T, '''	mu    sync.Mutex
''', '''	mu    sync.Mutex
	prev  unsafe.Pointer // the previous node in level 0
'''), (T, '''			nn.storeNext(layer, succs[layer])
			preds[layer].atomicStoreNext(layer, nn)
		}
''', '''			nn.storeNext(layer, succs[layer])
			preds[layer].atomicStoreNext(layer, nn)
		}
		nn.prev = unsafe.Pointer(preds[0])
''', 'all')],
  'the entry before a stored entry is deleted and the later entry stays', 'the new entry keeps a pointer to its deleted predecessor (and through it to a chain of deleted ones)')

d('gen-func-equal', 'C17', [('gen.go', '''				return fmt.Sprintf("!s.less(%s,%s)", j, i)
''', '''				return fmt.Sprintf("!s.less(%s,%s)", i, j)
''')],
  'the code is generated again; an operation on a NewFunc map with a key that is not in it, before one that is',
  'the regenerated FuncMap takes the next greater entry for the entry with the given key', generate=False)

d('gen-desc-equal', 'C17', [('gen.go', '''				"Equal": func(i, j string) string {
					return fmt.Sprintf("%s == %s", i, j)
				},
''', '''				"Equal": func(i, j string) string {
					return fmt.Sprintf("%s >= %s", i, j)
				},
''', [0])],
  'the code is generated again; an operation on a key that is not in the map, before one that is',
  'the regenerated maps with ascending keys of a basic type take the next greater entry for the entry with the given key', generate=False)

d('load-lowstart', 'C18', [(T, '''	x := s.header
	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
		nex := x''', '''	x := s.header
	for i := defaultHighestLevel - 1; i >= 0; i-- {
		nex := x''')],
  'a map with more than a few hundred entries', 'Load ignores all levels above the third: its cost grows linearly with the number of entries')

d('level17', 'C11', [('util.go', '''	if level > maxLevel {
		return maxLevel
	}
	return level
''', '''	return level
'''), ('util.go', '''	for fastrand.Uint32n(1/p) == 0 {
''', '''	for level <= maxLevel && fastrand.Uint32n(1/p) == 0 {
''')],
  'sixteen growth draws in a row (once in 4 billion insertions)', 'a tower of height 17: index out of range', generate=False)

d('hl-late', 'C11', [(T, '''		hl           = int(atomic.LoadUint64(&s.highestLevel))
	)
	for {
		nodeFound := s.findNode(key, &preds, &succs)
''', '''		hl           int
	)
	for {
		nodeFound := s.findNode(key, &preds, &succs)
		hl = int(atomic.LoadUint64(&s.highestLevel))
''', [0])],
  'LoadOrStore whose search starts before and whose height draw comes after another goroutine raised the highest level, with a draw above the old one',
  'the predecessors of the new levels are nil: LoadOrStore panics')

d('int64-sub', 'C09', [('gen_int64.go', '(succ.key < key)', 'succ.key-key < 0', 'all'), ('gen_int64.go', '(nex.key < key)', 'nex.key-key < 0')],
  'int64 keys more than 2^63 apart', 'the comparison overflows: extreme keys are out of order or not found', generate=False)

d('f32desc-nan', 'C09', [('skipmap.go', '''		return a > b || (isNaNf32(a) && !isNaNf32(b))
''', '''		return a > b || isNaNf32(a)
''')],
  'two NaN keys in a NewFloat32Desc map', 'NaN is less than NaN: every Store of NaN adds another entry', generate=False, kind='own')

d('func-key-update', 'C10', [(T, '''				if nodeFound.replaceVal(value) {
					return
				}
''', '''				if nodeFound.replaceVal(value) {
					{{if eq .StructPrefix "Func"}}nodeFound.key = key
					{{end}}return
				}
''')],
  'NewFunc with a less function that does not distinguish two different keys', 'Store replaces the key the entry was inserted with', kind='own')

d('len-retry', 'C03', [(T, '''			// Accomplish the physical deletion.
''', '''			atomic.AddInt64(&s.length, -1)
			// Accomplish the physical deletion.
''', [1]), (T, '''			unlock{{.Name}}(preds, highestLocked)
			atomic.AddInt64(&s.length, -1)
			return true
''', '''			unlock{{.Name}}(preds, highestLocked)
			return true
''')],
  'a Delete that has to retry because a neighbour changed between its search and its locking', 'the length is decremented once per attempt')

d('f64-negzero', 'C09', [('skipmap.go', '''		return a < b || (math.IsNaN(a) && !math.IsNaN(b))
''', '''		return a < b || (math.IsNaN(a) && !math.IsNaN(b)) || (a == b && math.Signbit(a) && !math.Signbit(b))
''')],
  'the keys 0 and -0 in a NewFloat64 map', 'the equal keys 0 and -0 are two entries', generate=False)

d('func-del-ident', 'C10', [('gen_func.go', '''lFound == -1 && succ != nil && !s.less(key, succ.key)''', '''lFound == -1 && succ != nil && any(succ.key) == any(key)''')],
  'NewFunc with a less function that does not distinguish two different keys, one stored, the other deleted', 'Delete and LoadAndDelete do not find the entry', generate=False)

d('string-prefix', 'C08', [('gen.go', '''				"Equal": func(i, j string) string {
					return fmt.Sprintf("%s == %s", i, j)
				},
''', '''				"Equal": func(i, j string) string {
					if t == "String" {
						return fmt.Sprintf("sameString(%s, %s)", i, j)
					}
					return fmt.Sprintf("%s == %s", i, j)
				},
''', 'all'), ('util.go', '''func randomLevel() int {''', '''// sameString reports whether a == b. It compares at most 8 bytes without a call to the runtime.
func sameString(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a) && i < 8; i++ {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func randomLevel() int {''')],
  'string keys of equal length, more than eight bytes long, that differ only after the eighth byte', 'different keys are taken for the same entry')

d('hl-shrink', 'C11', [(T, '''			nodeToDelete.mu.Unlock()
			unlock{{.Name}}(preds, highestLocked)
			atomic.AddInt64(&s.length, -1)
			return true
''', '''			nodeToDelete.mu.Unlock()
			unlock{{.Name}}(preds, highestLocked)
			atomic.AddInt64(&s.length, -1)
			if topLayer >= defaultHighestLevel && s.header.atomicLoadNext(topLayer) == nil {
				// The highest level is empty now.
				atomic.CompareAndSwapUint64(&s.highestLevel, uint64(topLayer+1), uint64(topLayer))
			}
			return true
'''), (T, '''				// Now we own the `nodeToDelete`, no other goroutine will modify it.
				// So we don't need `nodeToDelete.loadNext`
				preds[i].atomic''', '''				// Now we own the `nodeToDelete`, no other goroutine will modify it.
				preds[i].atomic''', [1])],
  'a Delete of the tallest entry finishes between the height draw of an equally tall insertion and its search',
  'the insertion has no predecessor for its top level: nil dereference')

d('hl-store', 'C11', [(T, '''		if atomic.CompareAndSwapUint64(&s.highestLevel, hl, uint64(level)) {
			break
		}
''', '''		atomic.StoreUint64(&s.highestLevel, uint64(level))
		break
''')],
  'two goroutines that raise the highest level at the same time, the lower one writing last', 'the taller entry gets no predecessor in its top level: nil dereference, or is not found from the top')

d('fl-early', 'C01', [(T, '''			nn.storeNext(layer, succs[layer])
			preds[layer].atomicStoreNext(layer, nn)
		}
		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
		nn.flags.SetTrue(fullyLinked)
''', '''			nn.storeNext(layer, succs[layer])
			preds[layer].atomicStoreNext(layer, nn)
			if layer == 0 {
				// Everyone can find it now.
				atomic.AddInt64(&s.length, 1)
				nn.flags.SetTrue(fullyLinked)
			}
		}
''', 'all')],
  'Load and Delete of the key between the linking of the entry in level 0 and in its top level', 'Load finds the entry while Delete does not')

d('store-valid-l0', 'C01', [(T, '''			valid = !pred.flags.Get(marked) && (succ == nil || !succ.flags.Get(marked)) && pred.loadNext(layer) == succ
''', '''			valid = !pred.flags.Get(marked) && (layer > 0 || (succ == nil || !succ.flags.Get(marked)) && pred.loadNext(layer) == succ)
''', [0])],
  'two insertions of towers of height 2 with the same predecessor in level 1 and different ones in level 0',
  'the links of one of the towers in the upper levels are lost, after that it cannot be deleted', kind='own')

d('del-valid-marked', 'C01', [(T, '''				valid = !pred.flags.Get(marked) && pred.atomicLoadNext(layer) == succ
''', '''				valid = pred.atomicLoadNext(layer) == succ
''')],
  'a Delete whose predecessor is deleted between its search and its locking', 'the entry is unlinked from a removed predecessor only: it stays in the list, marked')

d('store-valid-marked', 'C01', [(T, '''			valid = !pred.flags.Get(marked) && (succ == nil''', '''			valid = (succ == nil''', [0])],
  'a Store whose predecessor is deleted between its search and its locking', 'the new entry hangs on a removed one: the completed Store is lost')

d('lock-order', 'C04', [(T, '''			for layer := 0; valid && (layer <= topLayer); layer++ {
				pred, succ = preds[layer], succs[layer]
				if pred != prevPred { // the node in this layer could be locked by previous loop
					pred.mu.Lock()
					highestLocked = layer
					prevPred = pred
				}
''', '''			for layer := topLayer; layer >= 0; layer-- {
				if preds[layer] != prevPred { // the node in this layer could be locked by previous loop
					preds[layer].mu.Lock()
					prevPred = preds[layer]
				}
			}
			highestLocked = topLayer
			for layer := 0; valid && (layer <= topLayer); layer++ {
				pred, succ = preds[layer], succs[layer]
''', [1])],
  'a Delete and an insertion with the same two different predecessors, each holding one of the locks', 'deadlock: Delete locks from the top, the others from the bottom')

d('range-wait', 'C05', [(T, '''		if !x.flags.MGet(fullyLinked|marked, fullyLinked) {
			x = x.atomicLoadNext(0)
			continue
		}
		if !f(''', '''		if x.flags.Get(marked) {
			x = x.atomicLoadNext(0)
			continue
		}
		if !x.flags.Get(fullyLinked) {
			// It is going to be in the map in a moment.
			continue
		}
		if !f(''')],
  'Range reaches an entry that is linked but not yet fully linked while its goroutine is suspended', 'Range waits for the inserting goroutine', kind='own')

d('range-break', 'C02', [(T, '''		if !x.flags.MGet(fullyLinked|marked, fullyLinked) {
			x = x.atomicLoadNext(0)
			continue
		}
		if !f(''', '''		if !x.flags.Get(fullyLinked) {
			break
		}
		if x.flags.Get(marked) {
			x = x.atomicLoadNext(0)
			continue
		}
		if !f(''')],
  'Range reaches an entry that is linked but not yet fully linked', 'Range ends there, the following keys are missed')

d('range-reseek', 'C02', [(T, '''			break
		}
		x = x.atomicLoadNext(0)
	}
''', '''			break
		}
		if x.flags.Get(marked) {
			// The node is removed, continue behind the place where it was.
			var preds, succs [maxLevel]*%s
			s.findNodeDelete(x.key, &preds, &succs)
			x = succs[0]
			continue
		}
		x = x.atomicLoadNext(0)
	}
''' % N)],
  'the key that Range just visited is deleted and stored again before Range goes on (by f or by another goroutine)', 'the key is visited twice')

# benign changes: no check may complain
B = dict(kind='benign')
d('b-succ-marked', '', [(T, '(succ == nil || !succ.flags.Get(marked)) && pred.loadNext(layer) == succ', 'pred.loadNext(layer) == succ', 'all')], **B)
d('b-prefetch', '', [(T, '''		if !f(x.key, x.loadVal()) {
			break
		}
		x = x.atomicLoadNext(0)
''', '''		next := x.atomicLoadNext(0)
		if !f(x.key, x.loadVal()) {
			break
		}
		x = next
''')], **B)
d('b-unlink-up', '', [(T, 'for i := topLayer; i >= 0; i-- {', 'for i := 0; i <= topLayer; i++ {', 'all')], **B)
d('link-down', 'C02', [(T, '''		for layer := 0; layer < level; layer++ {
			nn.storeNext''', '''		for layer := level - 1; layer >= 0; layer-- {
			nn.storeNext''', 'all')], kind='own')
d('b-link-split', '', [(T, '''			nn.storeNext(layer, succs[layer])
			preds[layer].atomicStoreNext(layer, nn)
''', '''			nn.storeNext(layer, succs[layer])
		}
		for layer := 0; layer < level; layer++ {
			preds[layer].atomicStoreNext(layer, nn)
''', 'all')], **B)
d('b-val-first', '', [(T, '''		if !x.flags.MGet(fullyLinked|marked, fullyLinked) {
			x = x.atomicLoadNext(0)
			continue
		}
		if !f(x.key, x.loadVal()) {
''', '''		v := x.loadVal()
		if !x.flags.MGet(fullyLinked|marked, fullyLinked) {
			x = x.atomicLoadNext(0)
			continue
		}
		if !f(x.key, v) {
''')], **B)
d('b-rand', '', [('util.go', '''	for fastrand.Uint32n(1/p) == 0 {
		level++
	}
	if level > maxLevel {
		return maxLevel
	}
	return level
''', '''	for level < maxLevel && fastrand.Uint32()%4 == 0 {
		level++
	}
	return level
''')], generate=False, **B)
d('b-rand64', '', [('util.go', '''	level := 1
	for fastrand.Uint32n(1/p) == 0 {
		level++
	}
	if level > maxLevel {
		return maxLevel
	}
	return level
''', '''	level := 1 + bits.TrailingZeros64(fastrand.Uint64()|1<<62)/2
	if level > maxLevel {
		return maxLevel
	}
	return level
'''), ('util.go', 'import (\n', 'import (\n\t"math/bits"\n\n'), ('util.go', '	p                   = 0.25\n', '')], generate=False, **B)
d('b-flip', '', [('util.go', 'for fastrand.Uint32n(1/p) == 0 {', 'for fastrand.Uint32n(1/p) == 1/p-1 {')], generate=False, **B)
d('b-float', '', [('util.go', 'for fastrand.Uint32n(1/p) == 0 {', 'for fastrand.Float32() >= 1-p {')], generate=False, **B)
d('b-gosched', '', [(T, '''				// don't see it until it is fully linked, so we need to wait for it.
				continue
''', '''				// don't see it until it is fully linked, so we need to wait for it.
				runtime.Gosched()
				continue
''', 'all'), ('gen.go', '\\"sync\\"\\n', '\\"runtime\\"\\n\\"sync\\"\\n', 'all')], **B)
d('b-atomic-types', '', [(T, '	length       int64', '	length       atomic.Int64'), (T, 'atomic.AddInt64(&s.length, 1)', 's.length.Add(1)', 'all'), (T, 'atomic.AddInt64(&s.length, -1)', 's.length.Add(-1)', 'all'), (T, 'atomic.LoadInt64(&s.length)', 's.length.Load()'), ('go.mod', 'go 1.18', 'go 1.19')], **B)
d('b-defer-range', '', [(T, '''	x := s.header.atomicLoadNext(0)
	for x != nil {
		if !x.flags.MGet(fullyLinked|marked, fullyLinked) {
			x = x.atomicLoadNext(0)
			continue
		}
		if !f(x.key, x.loadVal()) {
			break
		}
		x = x.atomicLoadNext(0)
	}
''', '''	for x := s.header.atomicLoadNext(0); x != nil; x = x.atomicLoadNext(0) {
		if x.flags.MGet(fullyLinked|marked, fullyLinked) && !f(x.key, x.loadVal()) {
			return
		}
	}
''')], **B)
d('b-level-loop', '', [(T, '''	for {
		hl := atomic.LoadUint64(&s.highestLevel)
		if uint64(level) <= hl {
			break
		}
		if atomic.CompareAndSwapUint64(&s.highestLevel, hl, uint64(level)) {
			break
		}
	}
''', '''	for hl := atomic.LoadUint64(&s.highestLevel); uint64(level) > hl; hl = atomic.LoadUint64(&s.highestLevel) {
		if atomic.CompareAndSwapUint64(&s.highestLevel, hl, uint64(level)) {
			return level
		}
	}
''')], **B)
d('b-helper-valid', '', [(T, '''			valid = !pred.flags.Get(marked) && (succ == nil || !succ.flags.Get(marked)) && pred.loadNext(layer) == succ
''', '''			valid = pred.leadsTo(layer, succ) && (succ == nil || !succ.flags.Get(marked))
''', 'all'), (T, '// findNode takes a key and two maximal-height arrays then searches exactly as in a sequential skipmap.', '''// leadsTo reports whether n is not marked and the next node in the layer is succ.
func (n *%s) leadsTo(layer int, succ *%s) bool {
	return !n.flags.Get(marked) && n.loadNext(layer) == succ
}

// findNode takes a key and two maximal-height arrays then searches exactly as in a sequential skipmap.''' % (N, N))], **B)
d('b-iface', '', [('flag.go', '''	for {
		old := atomic.LoadUint32(&f.data)
		if old&flags != flags {
			// Flag is 0, need set it to 1.
			n := old | flags
			if atomic.CompareAndSwapUint32(&f.data, old, n) {
				return
			}
			continue
		}
		return
	}
}

func (f *bitflag) SetFalse''', '''	for old := atomic.LoadUint32(&f.data); old&flags != flags && !atomic.CompareAndSwapUint32(&f.data, old, old|flags); old = atomic.LoadUint32(&f.data) {
	}
}

func (f *bitflag) SetFalse''')], generate=False, **B)
d('b-delete-lad', '', [(T, '''	return int(atomic.LoadInt64(&s.length))
''', '''	n := atomic.LoadInt64(&s.length)
	_ = n == 0
	return int(n)
''')], **B)

# ---- second batch: thresholds, sizes, counters ----
LOSWAIT = '''	for {
		nodeFound := s.findNode(key, &preds, &succs)
		if nodeFound != nil { // indicating the key is already in the skip-list
			if !nodeFound.flags.Get(fullyLinked) {
				// The node is being inserted by another goroutine. Load, Range and Delete
				// don't see it until it is fully linked, so we need to wait for it.
				continue
			}
'''
d('spin-cap', 'C01', [(T, LOSWAIT, '''	spins := 0
	for {
		nodeFound := s.findNode(key, &preds, &succs)
		if nodeFound != nil { // indicating the key is already in the skip-list
			if !nodeFound.flags.Get(fullyLinked) && spins < 100 {
				// The node is being inserted by another goroutine. Load, Range and Delete
				// don't see it until it is fully linked, so we need to wait for it.
				spins++
				continue
			}
''', [1])],
  'LoadOrStore of a key whose insertion is suspended between linking and completing for more than 100 rounds of waiting',
  'LoadOrStore reports an entry as loaded that a later Load does not see yet')

d('del-giveup', 'C04', [(T, '''			if !valid {
				unlock{{.Name}}(preds, highestLocked)
				continue
			}
			for i := topLayer; i >= 0; i-- {
				// Now we own the `nodeToDelete`, no other goroutine will modify it.
				// So we don't need `nodeToDelete.loadNext`
				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
			}
			nodeToDelete.mu.Unlock()
			unlock{{.Name}}(preds, highestLocked)
			atomic.AddInt64(&s.length, -1)
			return true
''', '''			if !valid {
				unlock{{.Name}}(preds, highestLocked)
				if retries++; retries > 2 {
					// Too much contention here, the node is unlinked by later operations.
					nodeToDelete.mu.Unlock()
					atomic.AddInt64(&s.length, -1)
					return true
				}
				continue
			}
			for i := topLayer; i >= 0; i-- {
				// Now we own the `nodeToDelete`, no other goroutine will modify it.
				// So we don't need `nodeToDelete.loadNext`
				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
			}
			nodeToDelete.mu.Unlock()
			unlock{{.Name}}(preds, highestLocked)
			atomic.AddInt64(&s.length, -1)
			return true
'''), (T, '''Delete(key {{.KeyType}}) bool {
	var (
''', '''Delete(key {{.KeyType}}) bool {
	var (
		retries int
''')],
  'a Delete whose validation fails three times in a row, because a predecessor is replaced before each attempt',
  'the entry stays linked and marked, so every later Store of the key spins forever')

d('len-16', 'C03', [(T, '''	return int(atomic.LoadInt64(&s.length))
''', '''	return int(uint16(atomic.LoadInt64(&s.length)))
''')], 'more than 65535 keys in the map', 'Len is taken modulo 65536')

d('range-cap', 'C02', [(T, '''	x := s.header.atomicLoadNext(0)
	for x != nil {
''', '''	x := s.header.atomicLoadNext(0)
	for n := 0; x != nil && n < 1<<12; n++ {
''')], 'a Range over more than 4096 entries', 'Range ends early')

d('new-global', 'C14', [('skipmap.go', '''func NewInt[valueT any]() *IntMap[valueT] {
''', '''// instances counts the maps of the most common type.
var instances int

func NewInt[valueT any]() *IntMap[valueT] {
	instances++
''')], 'two goroutines each constructing a map of their own', 'the constructor updates a global without synchronisation', generate=False)

d('pool-reuse', 'C02', [(T, '''func new{{.StructPrefix}}Node{{.StructSuffix}}{{.TypeParam}}(key {{.KeyType}}, value {{.ValueType}}, level int) *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}} {
''', '''// take returns a removed entry of the same height for reuse, if there is one.
func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) take(key {{.KeyType}}, value {{.ValueType}}, level int) *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}} {
	n := (*{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}})(atomic.SwapPointer(&s.spare, nil))
	if n == nil || int(n.level) != level || !({{Equal "n.key" "key"}}) {
		return new{{.StructPrefix}}Node{{.StructSuffix}}(key, value, level)
	}
	n.flags.SetFalse(fullyLinked | marked)
	n.storeVal(value)
	return n
}

func new{{.StructPrefix}}Node{{.StructSuffix}}{{.TypeParam}}(key {{.KeyType}}, value {{.ValueType}}, level int) *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}} {
'''), (T, '''	header       *''', '''	spare        unsafe.Pointer // a removed entry for reuse
	header       *'''), (T, '''		nn := new{{.StructPrefix}}Node{{.StructSuffix}}(key, value, level)
''', '''		nn := s.take(key, value, level)
''', [0]), (T, '''			nn.storeNext(layer, succs[layer])
''', '''			nn.atomicStoreNext(layer, succs[layer])
''', [0]), (T, '''			atomic.AddInt64(&s.length, -1)
			return true
''', '''			atomic.AddInt64(&s.length, -1)
			atomic.StorePointer(&s.spare, unsafe.Pointer(nodeToDelete))
			return true
''')], 'a reader standing on an entry while it is deleted and its memory is reused by a Store of the same key', 'Delete hands the removed entry to the next Store, which changes it under readers and under deletions that still hold it', kind='own')

d('load-restart', 'C05', [(T, '''	x := s.header
	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
		nex := x.atomicLoadNext(i)
		for nex != nil && {{Less "nex.key" "key"}} {
			x = nex
''', '''restart:
	x := s.header
	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
		nex := x.atomicLoadNext(i)
		for nex != nil && {{Less "nex.key" "key"}} {
			if nex.flags.Get(marked) {
				goto restart // never step on a removed entry
			}
			x = nex
''')], 'Load while the deletion of an entry before its key has marked that entry and waits for a lock',
  'Load starts over again and again until the deleting goroutine goes on')

d('mod-wrap', 'C01', [(T, '''	header       *''', '''	mods         uint32 // changes of the list
	header       *'''), (T, '''		nodeFound := s.findNode(key, &preds, &succs)
''', '''		mods := uint8(atomic.LoadUint32(&s.mods))
		nodeFound := s.findNode(key, &preds, &succs)
''', [0]), (T, '''			valid = !pred.flags.Get(marked) && (succ == nil || !succ.flags.Get(marked)) && pred.loadNext(layer) == succ
''', '''			// Nothing needs to be compared if the list has not changed since the search.
			valid = !pred.flags.Get(marked) && (succ == nil || !succ.flags.Get(marked)) &&
				(uint8(atomic.LoadUint32(&s.mods)) == mods || pred.loadNext(layer) == succ)
''', [0]), (T, '''		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
''', '''		atomic.AddUint32(&s.mods, 1)
		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length is never negative
''', 'all'), (T, '''			nodeToDelete.mu.Unlock()
			unlock''', '''			atomic.AddUint32(&s.mods, 1)
			nodeToDelete.mu.Unlock()
			unlock''', 'all')], 'exactly 256 changes of the map between the search of a Store and its locking, one of them next to its key',
  'Store takes its stale search result for valid and cuts the other new entry out of the list')

d('len-valid', 'C01', [(T, '''		nodeFound := s.findNode(key, &preds, &succs)
''', '''		length := atomic.LoadInt64(&s.length)
		nodeFound := s.findNode(key, &preds, &succs)
''', [1]), (T, '''			valid = !pred.flags.Get(marked) && (succ == nil || !succ.flags.Get(marked)) && pred.loadNext(layer) == succ
''', '''			valid = !pred.flags.Get(marked) && (succ == nil || !succ.flags.Get(marked)) &&
				(atomic.LoadInt64(&s.length) == length && length < 64 || pred.loadNext(layer) == succ)
''', [1])], 'an insertion next to the key and a deletion elsewhere between the search of a LoadOrStore and its locking, in a map with less than 64 entries',
  'LoadOrStore takes its stale search result for valid and cuts the other new entry out of the list')

d('same-skip', 'C15', [(T, '''			if !nodeFound.flags.Get(marked) {
				// The node is fully linked, just replace the value.
				if nodeFound.replaceVal(value) {
''', '''			if same(nodeFound.loadVal(), value) && !nodeFound.flags.Get(marked) {
				return
			}
			if !nodeFound.flags.Get(marked) {
				// The node is fully linked, just replace the value.
				if nodeFound.replaceVal(value) {
'''), ('util.go', '''func randomLevel() int {
''', '''// same reports whether a and b are the same comparable value.
func same(a, b any) bool {
	t := reflect.TypeOf(a)
	return t != nil && t.Comparable() && t == reflect.TypeOf(b) && a == b
}

func randomLevel() int {
'''), ('util.go', '''import (
''', '''import (
	"reflect"

''')], 'a stored value replaced by one that compares equal but is not the same (0 and -0), or by an interface inside a struct that cannot be compared',
  'the old value stays, or Store panics')

d('last-hint', 'C16', [(T, '''	header       *''', '''	last         unsafe.Pointer // the entry that was loaded last
	header       *'''), (T, '''	x := s.header
	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
		nex := x.atomicLoadNext(i)
''', '''	if n := (*%s)(atomic.LoadPointer(&s.last)); n != nil && {{Equal "n.key" "key"}} && !({{Less "n.key" "key"}}) && n.flags.MGet(fullyLinked|marked, fullyLinked) {
		return n.loadVal(), true
	}
	x := s.header
	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
		nex := x.atomicLoadNext(i)
''' % N), (T, '''			if nex.flags.MGet(fullyLinked|marked, fullyLinked) {
				return nex.loadVal(), true
''', '''			if nex.flags.MGet(fullyLinked|marked, fullyLinked) {
				atomic.StorePointer(&s.last, unsafe.Pointer(nex))
				return nex.loadVal(), true
''')], 'the entry that was loaded last is deleted, and no other key is loaded afterwards', 'the map keeps the removed entry reachable')

d('level-low', 'C18', [('util.go', '''	if level > maxLevel {
		return maxLevel
	}
''', '''	if level > maxLevel/4 {
		return maxLevel / 4
	}
''')], 'a map with many thousand entries', 'towers have at most four levels: searches become linear in the number of entries', generate=False)

d('b-flag-store', '', [('flag.go', '''			if atomic.CompareAndSwapUint32(&f.data, old, n) {
				return
			}
			continue
''', '''			atomic.StoreUint32(&f.data, n)
			return
''', [0])], generate=False, **B)
d('b-mget-rev', '', [(T, 'nex.flags.MGet(fullyLinked|marked, fullyLinked)', '!nex.flags.Get(marked) && nex.flags.Get(fullyLinked)')], **B)
d('b-unlock-late', '', [(T, '''			nodeToDelete.mu.Unlock()
			unlock{{.Name}}(preds, highestLocked)
			atomic.AddInt64(&s.length, -1)
''', '''			atomic.AddInt64(&s.length, -1)
			unlock{{.Name}}(preds, highestLocked)
			nodeToDelete.mu.Unlock()
''', 'all')], **B)

# C19: 32-bit platforms
d('func-align', 'C19', [('gen_func.go', '''	length       int64
	highestLevel uint64 // highest level for now
	header       *funcnode[keyT, valueT]

	less func(a, b keyT) bool
''', '''	less   func(a, b keyT) bool
	header *funcnode[keyT, valueT]

	highestLevel uint32 // highest level for now
	length       int64
''')] + [('gen_func.go', 'atomic.LoadUint64(&s.highestLevel)', 'atomic.LoadUint32(&s.highestLevel)', 'all'),
  ('gen_func.go', 'atomic.CompareAndSwapUint64(&s.highestLevel, hl, uint64(level))', 'atomic.CompareAndSwapUint32(&s.highestLevel, hl, uint32(level))', 'all'),
  ('gen_func.go', 'uint64(level) <= hl', 'uint32(level) <= hl')],
  'a map made by NewFunc (or the float constructors) in a program compiled for a 32-bit platform: the 64-bit counter is then not on a 64-bit boundary',
  'every Store on a FuncMap panics with an unaligned 64-bit atomic operation; the entry is linked already', generate=False)
d('i64-word', 'C19', [('gen_int64desc.go', 'succ.key == key', 'int(succ.key-key) == 0', 'all'), ('gen_int64desc.go', 'nex.key == key', 'int(nex.key-key) == 0', 'all')],
  'a 32-bit platform, and two int64 keys of a descending map that differ by a multiple of 1<<32 and are neighbours in the map',
  'the two keys are taken for one: the second is not inserted, or the wrong entry is found or deleted', generate=False)
d('ptr-stride', 'C19', [('oparray.go', '''	if i < op1 {
		return atomic.LoadPointer(&a.base[i])
	}
	return atomic.LoadPointer(&a.extra[i-op1])
''', '''	if i < op1 {
		return atomic.LoadPointer(&a.base[i])
	}
	return atomic.LoadPointer((*unsafe.Pointer)(unsafe.Pointer(uintptr(unsafe.Pointer(a.extra)) + uintptr(i-op1)*8)))
''')], 'a 32-bit platform (pointers of 4 bytes) and towers higher than 5 levels',
  'the upper levels are read from the wrong slots, beyond the end of the array for the highest ones: searches miss entries or follow garbage', generate=False)

def combo(name, *parts):
    d(name, '', [e for p in parts for e in DEFS[p]['edits']], **B)
combo('b-combo1', 'b-succ-marked', 'b-prefetch', 'b-unlink-up', 'b-link-split', 'b-rand', 'b-gosched', 'b-atomic-types', 'b-level-loop', 'b-iface', 'b-flag-store', 'b-mget-rev')
combo('b-combo2', 'b-val-first', 'b-rand64', 'b-helper-valid', 'b-delete-lad', 'b-unlock-late')
combo('b-combo3', 'b-flip', 'b-defer-range')

NODE = '*' + N
MAPT = '{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}'
LOCKED = '''		// Add this node into skip list.
		var (
			highestLocked        = -1 // the highest level being locked by this process
			valid                = true
			pred, succ, prevPred *%s
		)
''' % N
def _tpl():
    return open('/repo/skipmap.tpl').read()
def rewritten():
    """The whole template restructured: helpers for the descent, for locking and validating, and for linking."""
    import re
    s = _tpl()
    # insertion: lock and validate in a helper
    head = s.index(LOCKED)
    loop = re.compile(r'''		for layer := 0; valid && layer < level; layer\+\+ \{\n			pred = preds\[layer\].*?\n		\}\n		if !valid \{\n			(unlock\S+\(preds, highestLocked\))\n			continue\n		\}\n''', re.S)
    def rep(m):
        return '''		highestLocked, valid := lockPreds{{.Name}}(&preds, &succs, level, true)
		if !valid {
			%s
			continue
		}
''' % m.group(1)
    s, n = loop.subn(rep, s); assert n == 3, n
    s = s.replace(LOCKED, '		// Add this node into skip list.\n')
    # deletion
    loop = re.compile(r'''			var \(\n				highestLocked        = -1[^\n]*\n				valid                = true\n				pred, succ, prevPred [^\n]*\n			\)\n			for layer := 0; valid && \(layer <= topLayer\); layer\+\+ \{\n.*?\n			\}\n			if !valid \{\n''', re.S)
    s, n = loop.subn('''			highestLocked, valid := lockPreds{{.Name}}(&preds, &succs, topLayer+1, false)
			if !valid {
''', s); assert n == 2, n
    link = re.compile(r'''		nn := new(.*?)\n		for layer := 0; layer < level; layer\+\+ \{\n.*?\n		\}\n		atomic.AddInt64[^\n]*\n		nn.flags.SetTrue\(fullyLinked\)\n''', re.S)
    s, n = link.subn(r'''		s.insert(new\1, &preds, &succs, level)
''', s); assert n == 3, n
    s = s.replace('''			for i := topLayer; i >= 0; i-- {
				// Now we own the `nodeToDelete`, no other goroutine will modify it.
				// So we don't need `nodeToDelete.loadNext`
				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
			}
''', '''			for i := range preds[:topLayer+1] {
				l := topLayer - i
				preds[l].atomicStoreNext(l, nodeToDelete.loadNext(l))
			}
''')
    s = s.replace('''	x := s.header.atomicLoadNext(0)
	for x != nil {
		if !x.flags.MGet(fullyLinked|marked, fullyLinked) {
			x = x.atomicLoadNext(0)
			continue
		}
		if !f(x.key, x.loadVal()) {
			break
		}
		x = x.atomicLoadNext(0)
	}
''', '''	for x := s.header.atomicLoadNext(0); x != nil; x = x.atomicLoadNext(0) {
		if x.present() && !f(x.key, x.loadVal()) {
			return
		}
	}
''')
    s = s.replace('succs[lFound].flags.MGet(fullyLinked|marked, fullyLinked)', 'succs[lFound].present()').replace('nex.flags.MGet(fullyLinked|marked, fullyLinked)', 'nex.present()')
    i = s.index('// Store sets the value')
    s = s[:i] + '''// present reports whether the node is in the map.
func (n {NODE}) present() bool {
	return n.flags.MGet(fullyLinked|marked, fullyLinked)
}

// insert links a new node behind its locked predecessors, bottom up.
func (s *{MAPT}) insert(nn {NODE}, preds, succs *[maxLevel]{NODE}, level int) {
	for layer, succ := range succs[:level] {
		nn.storeNext(layer, succ)
		preds[layer].atomicStoreNext(layer, nn)
	}
	atomic.AddInt64(&s.length, 1)
	nn.flags.SetTrue(fullyLinked)
}

// lockPreds{{.Name}} locks distinct predecessors bottom up as long as they are valid.
func lockPreds{{.Name}}{{.TypeParam}}(preds, succs *[maxLevel]{NODE}, level int, checkSucc bool) (highestLocked int, valid bool) {
	highestLocked = -1
	var last {NODE}
	for layer := 0; layer < level; layer++ {
		pred, succ := preds[layer], succs[layer]
		if pred != last {
			pred.mu.Lock()
			last, highestLocked = pred, layer
		}
		if pred.flags.Get(marked) || checkSucc && succ != nil && succ.flags.Get(marked) {
			return highestLocked, false
		}
		if pred.loadNext(layer) != succ {
			return highestLocked, false
		}
	}
	return highestLocked, true
}

'''.replace('{NODE}', NODE).replace('{MAPT}', MAPT) + s[i:]
    return s
d('b-rewrite', '', [(T, _tpl(), rewritten())], **B)
d('b-rewrite-go', '', [(T, _tpl(), rewritten())], gofiles=True, **B)

# goroutines started by the code under test
d('go-len', 'C03', [(T, '			atomic.AddInt64(&s.length, -1)\n', '			go atomic.AddInt64(&s.length, -1)\n', 'all')], kind='own')
d('go-unlink', 'C01', [(T, '''			nodeToDelete.mu.Unlock()
			unlock{{.Name}}(preds, highestLocked)
''', '''			nodeToDelete.mu.Unlock()
			go unlock{{.Name}}(preds, highestLocked)
''', 'all')], kind='own')
d('b-go-wait', '', [(T, '''			nodeToDelete.mu.Unlock()
			unlock{{.Name}}(preds, highestLocked)
''', '''			var wg sync.WaitGroup
			wg.Add(1)
			go func() {
				unlock{{.Name}}(preds, highestLocked)
				wg.Done()
			}()
			nodeToDelete.mu.Unlock()
			wg.Wait()
''', 'all')], **B)

def path_alloc():
    import re
    s = rewritten()
    s = s.replace('''	var preds, succs [maxLevel]%s
	for {
		nodeFound := s.findNode(key, &preds, &succs)
''' % NODE, '''	for {
		at := new(path{{.Name}}{{.TypeArgument}})
		nodeFound := s.findNode(key, &at.preds, &at.succs)
''')
    s = s.replace('''		preds, succs [maxLevel]%s
''' % NODE, '')
    s = s.replace('''		nodeFound := s.findNode(key, &preds, &succs)
''', '''		at := new(path{{.Name}}{{.TypeArgument}})
		nodeFound := s.findNode(key, &at.preds, &at.succs)
''')
    s = s.replace('''		lFound := s.findNodeDelete(key, &preds, &succs)
''', '''		at := &path{{.Name}}{{.TypeArgument}}{}
		lFound := s.findNodeDelete(key, &at.preds, &at.succs)
''')
    i = s.index('// Store sets')
    h, t = s[:i], s[i:]
    t = t.replace('&preds, ', '&at.preds, ').replace('&succs, ', '&at.succs, ').replace('(preds, highest', '(at.preds, highest')
    t = t.replace(' succs[lFound]', ' at.succs[lFound]').replace('(succs[lFound]', '(at.succs[lFound]').replace('preds[l].', 'at.preds[l].').replace('range preds[', 'range at.preds[')
    h += '''// path{{.Name}} is a search path.
type path{{.Name}}{{.TypeParam}} struct {
	preds, succs [maxLevel]%s
}

''' % NODE
    return h + t
d('b-path-alloc', '', [(T, _tpl(), path_alloc())], **B)
d('b-early-node', '', [(T, '''		// Add this node into skip list.
		var (
			highestLocked ''', '''		// Add this node into skip list.
		nn := new{{.StructPrefix}}Node{{.StructSuffix}}(key, value, level)
		var (
			highestLocked ''', [0]), (T, '''		nn := new{{.StructPrefix}}Node{{.StructSuffix}}(key, value, level)
		for layer := 0; layer < level; layer++ {
			nn.''', '''		for layer := 0; layer < level; layer++ {
			nn.''', [0])], **B)
d('b-stat', '', [(T, '	highestLevel uint64 // highest level for now\n', '	highestLevel uint64 // highest level for now\n	retries      uint64\n'),
  (T, '			unlock{{.Name}}(preds, highestLocked)\n			continue\n', '			unlock{{.Name}}(preds, highestLocked)\n			atomic.AddUint64(&s.retries, 1)\n			continue\n', 'all')], **B)

# a further round
O = dict(kind='own')
DELTAIL = '''			nodeToDelete.mu.Unlock()
			unlock{{.Name}}(preds, highestLocked)
			atomic.AddInt64(&s.length, -1)
'''
d('hl-last', 'C08', [(T, DELTAIL + '			return true\n', DELTAIL + '''			if topLayer >= 2*op1 && nodeToDelete.loadNext(topLayer) == nil {
				// It was the last entry of the highest level, which is hardly ever used.
				atomic.CompareAndSwapUint64(&s.highestLevel, uint64(topLayer+1), uint64(topLayer))
			}
			return true
''')], 'two entries with towers of the same height, at least 9, and a Delete of the one with the greater key',
  'Delete lowers the highest level although the level still holds the other entry, which can no longer be deleted: Delete reports false and the entry stays')
d('lazy-goexit', 'C13', [(T, '''	returned := false
	defer func() {
		if !returned {
			unlock{{.Name}}(*preds, highestLocked)
		}
	}()
	value = f()
	returned = true
	return value
''', '''	defer func() {
		if r := recover(); r != nil {
			unlock{{.Name}}(*preds, highestLocked)
			panic(r)
		}
	}()
	return f()
''')], 'a factory that ends its goroutine with runtime.Goexit (as t.FailNow does), then an update next to the key',
  'the locks of the predecessors are released after a panic only: the update blocks forever')
d('load-head', 'C18', [(T, '''		preds[i] = x
		succs[i] = succ

		// Check if the key already in the skipmap.
''', '''		preds[i] = x
		succs[i] = succ
		if i == 1 {
			x = s.header // take a fresh look at the bottom level
		}

		// Check if the key already in the skipmap.
''')], **O)
d('store-lost', 'C01', [(T, '''		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
			return true
		}
''', '''		atomic.StorePointer(&n.value, unsafe.Pointer(&value))
		return old != nil
''')], **O)
d('len-two', 'C03', [(T, '	length       int64\n', '	length       int64\n	deleted      int64\n'),
  (T, 'atomic.AddInt64(&s.length, -1)', 'atomic.AddInt64(&s.deleted, 1)', 'all'),
  (T, 'return int(atomic.LoadInt64(&s.length))', 'n := atomic.LoadInt64(&s.length)\n	return int(n - atomic.LoadInt64(&s.deleted))')],
  'an insertion and a deletion that both complete between the two reads of one Len call', 'Len subtracts deletions of entries it has not counted: -1 for an empty map', )
d('hoist', 'C04', [(T, '''	var preds, succs [maxLevel]%s
	for {
''' % NODE, '''	var preds, succs [maxLevel]%s
	var pred, succ, prevPred %s
	for {
''' % (NODE, NODE)), (T, '''			valid                = true
			pred, succ, prevPred *%s
		)
''' % N, '''			valid                = true
		)
''', [0])], **O)
d('nested-cursor', 'C12', [(T, '	highestLevel uint64 // highest level for now\n', '	highestLevel uint64 // highest level for now\n	resume unsafe.Pointer\n'),
  (T, '''		if !f(x.key, x.loadVal()) {
			break
		}
		x = x.atomicLoadNext(0)
''', '''		atomic.StorePointer(&s.resume, unsafe.Pointer(x.atomicLoadNext(0)))
		if !f(x.key, x.loadVal()) {
			break
		}
		if nx := %s(atomic.LoadPointer(&s.resume)); nx != nil && {{Less "x.key" "nx.key"}} {
			x = x.atomicLoadNext(0)
		} else {
			x = nx
		}
''' % ('(*' + N + ')'))], **O)
def pooled(clear):
    s = _tpl()
    i = s.index('// Store sets the value')
    h, t = s[:i], s[i:]
    put = '*path = [2 * maxLevel]unsafe.Pointer{}; ' if clear else ''
    get = '''	path := pathPool.Get().(*[2 * maxLevel]unsafe.Pointer)
	preds, succs := (*[maxLevel]NODE)(unsafe.Pointer(&path[0])), (*[maxLevel]NODE)(unsafe.Pointer(&path[maxLevel]))
	defer func() { %spathPool.Put(path) }()
'''.replace('NODE', NODE) % put
    t = t.replace('	var preds, succs [maxLevel]%s\n' % NODE, get)
    t = t.replace('		preds, succs [maxLevel]%s\n	)\n' % NODE, '	)\n' + get)
    t = t.replace('		preds, succs [maxLevel]%s\n' % NODE, '		_ = 0\n')
    t = t.replace('	)\n	for {\n		nodeFound', '	)\n' + get + '	for {\n		nodeFound').replace('		_ = 0\n', '')
    t = t.replace('&preds, &succs', 'preds, succs').replace('(preds, highest', '(*preds, highest').replace('(f, &preds', '(f, preds')
    return h + t
POOLVAR = ('util.go', '// ordered is', '''var pathPool = sync.Pool{New: func() any { return new([2 * maxLevel]unsafe.Pointer) }}

// ordered is''')
POOLIMP = ('util.go', 'import (\n', 'import (\n	"sync"\n	"unsafe"\n\n')
d('b-pool', '', [(T, _tpl(), pooled(True)), POOLVAR, POOLIMP], **B)
d('b-pool-go', '', [(T, _tpl(), pooled(True)), POOLVAR, POOLIMP], gofiles=True, **B)
d('b-pool-dirty', '', [(T, _tpl(), pooled(False)), POOLVAR, POOLIMP], **B)
def pool_bug():
    s = pooled(False)
    o = '''			if level > hl {
				// If the highest level is updated, usually means that many goroutines
				// are inserting items. Hopefully we can find a better path in next loop.
				// TODO(zyh): consider filling the preds if s.header[level].next == nil,
				// but this strategy's performance is almost the same as the existing method.
				continue
			}
'''
    assert s.count(o) == 2
    i = s.rindex(o)
    return s[:i] + s[i:].replace(o, '''			if level > hl && hl < 7 {
				continue
			}
			for l := hl; l < level; l++ {
				if preds[l] == nil { // the levels above the search
					preds[l], succs[l] = s.header, nil
				}
			}
''')
d('preds-pool', 'C14', [(T, _tpl(), pool_bug()), POOLVAR, POOLIMP],
  'a LoadOrStoreLazy that raises the highest level of one map above 7 after an operation on another map of the same type had filled the same levels of a pooled search path',
  'search paths are reused between maps without clearing, and levels above the search keep the entries of the other map: the new entry is linked into the other map')
d('i64-float', 'C09', [('gen_int64.go', 'succ.key < key', 'float64(succ.key) < float64(key)', 'all'), ('gen_int64.go', 'nex.key < key', 'float64(nex.key) < float64(key)', 'all')], generate=False, **O)
d('str-word', 'C09', [('gen_string.go', 'succ.key == key', 'sameKey(succ.key, key)', 'all'), ('gen_string.go', 'nex.key == key', 'sameKey(nex.key, key)', 'all'),
 ('util.go', '// ordered is', '''func sameKey(a, b string) bool {
	if len(a) > 32 && len(b) > 32 {
		return a[:16] == b[:16] && a[len(a)-16:] == b[len(b)-16:] && len(a) == len(b)
	}
	return a == b
}

// ordered is''')], generate=False, **O)
d('len-seq', 'C05', [(T, '	length       int64\n', '	length       int64\n	ver          uint32\n'),
  (T, DELTAIL, '''			nodeToDelete.mu.Unlock()
			atomic.AddUint32(&s.ver, 1)
			unlock{{.Name}}(preds, highestLocked)
			atomic.AddInt64(&s.length, -1)
			atomic.AddUint32(&s.ver, ^uint32(0))
''', 'all'), (T, '	return int(atomic.LoadInt64(&s.length))', '''	for atomic.LoadUint32(&s.ver) != 0 {
	}
	return int(atomic.LoadInt64(&s.length))''')], **O)
d('free-list', 'C16', [(T, '	highestLevel uint64 // highest level for now\n', '	highestLevel uint64 // highest level for now\n	last unsafe.Pointer\n'),
  (T, '''		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
			return value
		}
''', '''		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
			return value
		}
'''), (T, DELTAIL, DELTAIL + '''			if topLayer >= 4 {
				atomic.StorePointer(&s.last, unsafe.Pointer(nodeToDelete))
			}
''', 'all')], **O)
d('lazy-twice', 'C07', [(T, '''		value := callLazy{{.Name}}(f, &preds, highestLocked)
''', '''		value := callLazy{{.Name}}(f, &preds, highestLocked)
		if preds[level-1].loadNext(level-1) != succs[level-1] {
			unlock{{.Name}}(preds, highestLocked)
			continue
		}
''')], **O)
d('flag-plain', 'C06', [('flag.go', '''			n := old | flags
			if atomic.CompareAndSwapUint32(&f.data, old, n) {
				return
			}
			continue
''', '''			f.data = old | flags
			return
''')], generate=False, **O)
d('val-late', 'C06', [(T, '''		nn := new{{.StructPrefix}}Node{{.StructSuffix}}(key, value, level)
		for layer''', '''		nn := new{{.StructPrefix}}Node{{.StructSuffix}}(key, value, level)
		nn.next.base[0] = nil
		for layer''', [0]), (T, '			nn.storeNext(layer, succs[layer])\n			preds[layer].atomicStoreNext(layer, nn)\n', '			preds[layer].atomicStoreNext(layer, nn)\n			nn.storeNext(layer, succs[layer])\n', [0])], **O)
d('pred-nomark', 'C01', [(T, 'valid = !pred.flags.Get(marked) && pred.loadNext(layer) == succ && (succ == nil', 'valid = pred.loadNext(layer) == succ && (succ == nil')], **O)
d('lvl-retry', 'C18', [(T, '		if level == 0 {\n', '		if level == 0 || level > maxLevel-2 {\n', [0])], **O)
d('p-half', 'C18', [('util.go', '	if level > maxLevel {\n', '	if level > 2 && fastrand.Uint32n(2) == 0 {\n		level--\n	}\n	if level > maxLevel {\n')], generate=False, **O)
d('range-lock', 'C05', [(T, '		if !f(x.key, x.loadVal()) {\n			break\n		}\n', '''		x.mu.Lock()
		key, value := x.key, x.loadVal()
		x.mu.Unlock()
		if !f(key, value) {
			break
		}
''')], **O)
d('lazy-zero', 'C15', [(T, '		value := callLazy{{.Name}}(f, &preds, highestLocked)\n', '''		value := callLazy{{.Name}}(f, &preds, highestLocked)
		if any(value) == nil {
			unlock{{.Name}}(preds, highestLocked)
			return value, false
		}
''')], **O)
# a random source of its own behind a lock
d('b-rand-lock', '', [('util.go', '	for fastrand.Uint32n(1/p) == 0 {\n', '	for draw() == 0 {\n'), ('util.go', '	"github.com/zhangyunhao116/fastrand"\n', '	"math/rand"\n	"sync"\n'),
 ('util.go', '// ordered is', '''var (
	rngMu sync.Mutex
	rng   = rand.New(rand.NewSource(1))
)

func draw() uint32 {
	rngMu.Lock()
	defer rngMu.Unlock()
	return rng.Uint32() & 3
}

// ordered is''')], generate=False, **B)
d('glob-lock', 'C14', [(T, '		for layer := 0; valid && layer < level; layer++ {\n', '		insertMu.Lock()\n		for layer := 0; valid && layer < level; layer++ {\n', [0]),
 (T, '''		nn := new{{.StructPrefix}}Node{{.StructSuffix}}(key, value, level)
''', '''		nn := new{{.StructPrefix}}Node{{.StructSuffix}}(key, value, level)
		insertMu.Unlock()
''', [0]), (T, '''		if !valid {
			unlock''', '''		if !valid {
			insertMu.Unlock()
			unlock''', [0]), ('util.go', '// ordered is', 'var insertMu sync.Mutex\n\n// ordered is'), ('util.go', 'import (\n', 'import (\n	"sync"\n\n')], **O)
def rand_src(name, imports, decl, expr='draw()&3', **kw):
    d(name, '', [('util.go', 'fastrand.Uint32n(1/p) == 0', expr + ' == 0'), ('util.go', '	"github.com/zhangyunhao116/fastrand"\n', imports), ('util.go', '// ordered is', decl + '\n// ordered is')], generate=False, **(kw or B))
rand_src('b-rand-xor', '	"sync/atomic"\n', '''var state uint64 = 88172645463325252

func draw() uint64 {
	for {
		old := atomic.LoadUint64(&state)
		x := old
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		if atomic.CompareAndSwapUint64(&state, old, x) {
			return x >> 20
		}
	}
}
''')
rand_src('b-rand-maphash', '	"hash/maphash"\n', '''func draw() uint64 { return new(maphash.Hash).Sum64() }
''')
rand_src('b-rand-crypto', '	"crypto/rand"\n', '''func draw() byte {
	var b [1]byte
	rand.Read(b[:])
	return b[0]
}
''')
rand_src('b-rand-time', '	"time"\n', '''func draw() uint64 {
	x := uint64(time.Now().UnixNano()) * 0x9E3779B97F4A7C15
	return x >> 40
}
''')
rand_src('b-rand-pool', '	"math/rand"\n	"sync"\n	"time"\n', '''var sources = sync.Pool{New: func() any { return rand.New(rand.NewSource(time.Now().UnixNano())) }}

func draw() int {
	r := sources.Get().(*rand.Rand)
	n := r.Intn(4)
	sources.Put(r)
	return n
}
''')
rand_src('b-rand-v2', '	"math/rand/v2"\n', '', 'rand.Uint32N(1/p)')
d('rand-shared', 'C06', [('util.go', 'fastrand.Uint32n(1/p)', 'rng.Intn(1 / p)'), ('util.go', '	"github.com/zhangyunhao116/fastrand"\n', '	"math/rand"\n'), ('util.go', '// ordered is', '''// rng decides on the heights.
var rng = rand.New(rand.NewSource(1))

// ordered is''')], generate=False, **O)
# random bits kept for later insertions
BITS = '''var (
	bitsMu   sync.Mutex
	bits     uint64
	bitsLeft int
)

// draw returns the next two random bits.
func draw() uint64 {
	bitsMu.Lock()
	defer bitsMu.Unlock()
	if bitsLeft == 0 {
		bits, bitsLeft = fastrand.Uint64(), 32
	}
	b := bits & 3
	bits >>= 2
	bitsLeft--
	return b
}
'''
d('b-rand-bits', '', [('util.go', 'fastrand.Uint32n(1/p)', 'draw()'), ('util.go', 'import (\n', 'import (\n	"sync"\n\n'), ('util.go', '// ordered is', BITS + '\n// ordered is')], generate=False, **B)
d('rand-bits', 'C18', [('util.go', 'fastrand.Uint32n(1/p)', 'draw()'), ('util.go', 'import (\n', 'import (\n	"sync"\n\n'), ('util.go', '// ordered is', BITS.replace('bits, bitsLeft = fastrand.Uint64(), 32', 'bits, bitsLeft = uint64(fastrand.Uint32()), 32') + '\n// ordered is')], generate=False, **O)

# small integers are not allocated
d('val-intern', 'C01', [('util.go', '// ordered is', '''// smallInts holds the values that are not allocated again and again.
var smallInts [256]int

func init() {
	for i := range smallInts {
		smallInts[i] = i
	}
}

// box returns a pointer to a copy of the value.
func box[T any](v *T) unsafe.Pointer {
	if i, ok := any(*v).(int); ok && uint(i) < uint(len(smallInts)) {
		return unsafe.Pointer(&smallInts[i])
	}
	return unsafe.Pointer(v)
}

// ordered is'''), ('util.go', 'import (\n', 'import (\n	"unsafe"\n\n'), (T, 'unsafe.Pointer(&value)', 'box(&value)', 'all')],
  'a Store that read the value of an entry before a deletion of the key marked it and replaces it after the deletion returned, while no other value was stored', 'values of small integers share one place, so the deletion does not make the replacement fail: the Store is lost', )
d('func-any-eq', 'C10', [('gen_func.go', 'if nex != nil && !s.less(key, nex.key) {', 'if nex != nil && (any(key) == any(nex.key) || !s.less(key, nex.key)) {')], generate=False, **O)
def fallback(n):
    return [(T, '	var preds, succs [maxLevel]%s\n	for {\n' % NODE, '	var preds, succs [maxLevel]%s\n	for retry := 0; ; retry++ {\n' % NODE),
     (T, 'valid = !pred.flags.Get(marked) && (succ == nil || !succ.flags.Get(marked)) && pred.loadNext(layer) == succ\n', 'valid = !pred.flags.Get(marked) && (succ == nil || !succ.flags.Get(marked) || retry > %d) && pred.loadNext(layer) == succ\n' % n, [0])]
# (skipping only the "succ marked" test turns out to be harmless: a marked succ still linked to a locked pred cannot be unlinked)
def fallback2(n):
    return [(T, '	var preds, succs [maxLevel]%s\n	for {\n' % NODE, '	var preds, succs [maxLevel]%s\n	for retry := 0; ; retry++ {\n' % NODE),
     (T, 'valid = !pred.flags.Get(marked) && (succ == nil || !succ.flags.Get(marked)) && pred.loadNext(layer) == succ\n', 'valid = (!pred.flags.Get(marked) || retry > %d) && (succ == nil || !succ.flags.Get(marked)) && pred.loadNext(layer) == succ\n' % n, [0])]
for n in (1, 2, 3):
    d('fallbackp-%d' % n, 'C01', fallback2(n), **O)
d('retry-marked', 'C01', fallback2(40),
  'a Store that fails its validation more than forty times, because other entries are stored right before its place each time, and then loses its predecessor to a deletion between its search and its validation',
  'the Store gives up on the test that the predecessor is not marked and links its node behind one that was removed already: the entry is lost')
for n in (3, 40, 150):
    d('fallback-%d' % n, 'C01', fallback(n), **O)
d('unlink-cap', 'C11', [(T, 'for i := topLayer; i >= 0; i-- {\n				// Now', 'for i := min16(topLayer); i >= 0; i-- {\n				// Now', [1]), ('util.go', '// ordered is', '''func min16(i int) int {
	if i > 13 {
		return 13
	}
	return i
}

// ordered is''')], **O)
d('tomb', 'C18', [(T, 'return 0', 'return 0')] if False else [(T, '''				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
			}
''', '''				if i > 0 || nodeToDelete.loadNext(0) == nil || preds[0] == s.header {
					preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
				}
			}
''', [1])], **O)
d('b-range-next', '', [(T, '''		if !f(x.key, x.loadVal()) {
			break
		}
		x = x.atomicLoadNext(0)
''', '''		nex := x.atomicLoadNext(0)
		if !f(x.key, x.loadVal()) {
			break
		}
		x = nex
''')], **B)
d('lazy-nested', 'C13', [(T, '''	returned := false
	defer func() {
		if !returned {
			unlock{{.Name}}(*preds, highestLocked)
		}
	}()
''', '''	returned := false
	defer func() {
		if !returned && preds[highestLocked] != nil {
			for i := highestLocked; i >= 0; i-- {
				if i == highestLocked || preds[i] != preds[highestLocked] {
					preds[i].mu.Unlock()
				}
			}
		}
	}()
''')], **O)
d('lazy-hl', 'C13', [(T, '''	value = f()
	returned = true
''', '''	value = f()
	returned = highestLocked < 12
	defer func() { returned = true }()
''')], **O)
d('len-panic', 'C13', [(T, '''		value := callLazy{{.Name}}(f, &preds, highestLocked)
''', '''		atomic.AddInt64(&s.length, 1)
		value := callLazy{{.Name}}(f, &preds, highestLocked)
		atomic.AddInt64(&s.length, -1)
''')], **O)
d('range-flag', 'C12', [(T, '	highestLevel uint64 // highest level for now\n', '	highestLevel uint64 // highest level for now\n	ranging int32\n'),
 (T, '''	x := s.header.atomicLoadNext(0)
	for x != nil {
''', '''	if !atomic.CompareAndSwapInt32(&s.ranging, 0, 1) {
		x := s.header.atomicLoadNext(0)
		for ; x != nil && x.flags.MGet(fullyLinked|marked, fullyLinked); x = x.atomicLoadNext(0) {
			if !f(x.key, x.loadVal()) {
				return
			}
		}
		return
	}
	defer atomic.StoreInt32(&s.ranging, 0)
	x := s.header.atomicLoadNext(0)
	for x != nil {
''')], **O)
