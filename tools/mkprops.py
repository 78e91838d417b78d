#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
T="skipmap.tpl and every gen_*.go"
F=["skipmap.tpl","gen_ordered.go","gen_ordereddesc.go","gen_func.go","gen_string.go","gen_stringdesc.go","gen_int.go","gen_intdesc.go","gen_int32.go","gen_int32desc.go","gen_int64.go","gen_int64desc.go","gen_uint.go","gen_uintdesc.go","gen_uint32.go","gen_uint32desc.go","gen_uint64.go","gen_uint64desc.go"]
def P(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook))
API=["Store","Load","LoadOrStore","LoadOrStoreLazy","LoadAndDelete","Delete"]
props=[
P("C01","Point operations are linearizable",
  "For every map type, any concurrent execution of Store, Load, LoadOrStore, LoadOrStoreLazy, LoadAndDelete and Delete from any number of goroutines has results that some sequential order of the same calls on an ordinary map would give, and that order respects real time: a call that returned before another began comes first. In particular no completed write is lost, no deleted or never-stored value is returned, and a goroutine always sees its own completed operations.",
  ["schedules","programs"],"every interleaving of every small program (2-3 goroutines, 1-2 operations each, all six operations, neighbouring and equal keys, several initial contents and tower heights) on every map type",
  "The tests run 1000 goroutines with one Go-scheduler interleaving each and check only final counts and single-winner facts; windows a few instructions wide (between publishing an entry and finishing it, between marking and unlinking) are never hit, and no history is compared with a sequential order.",
  F+["flag.go","oparray.go","util.go"],
  [("optimistic search, lock predecessors, validate, link bottom-up, then flag fullyLinked","Store/LoadOrStore/LoadOrStoreLazy in "+T),("mark under the victim's lock, validate predecessors, unlink top-down","Delete/LoadAndDelete in "+T),("flags checked atomically before a hit is reported","Load in "+T)],
  [("flags","fullyLinked/marked state of an entry","flag.go"),("next","per-level successor pointers","oparray.go")],API),
P("C02","Range is ordered, duplicate-free and per-key valid under concurrency",
  "A Range running concurrently with any other operations visits keys in strictly increasing map order (so no key twice), and for every key the outcome (visited with value v, or not visited) is a mapping that key really had at some moment between the start and the end of that Range. A key present with the same value throughout is therefore always visited with it, and a key absent throughout is never visited; operations that completed before the Range started are respected.",
  ["schedules","programs"],"every interleaving of a ranging goroutine with 1-2 goroutines doing 1-2 updates each, over neighbouring keys, on every map type",
  "The tests only range over a map whose key set never changes; concurrent inserts and deletes next to the cursor, where a cursor can stand on a removed entry, are not exercised.",
  F,[("bottom-level traversal skipping entries that are not (fully linked and unmarked)","Range in "+T),("a removed entry keeps its forward pointers","Delete/LoadAndDelete in "+T)],(),["Range"]),
P("C03","Len is exact at rest and never impossible during updates",
  "Whenever no operation is in progress Len returns exactly the number of keys in the map, after any concurrent history. While operations are in progress Len is never negative and always lies between the smallest and the largest number of keys consistent with the calls completed before it began and the calls begun before it returned.",
  ["schedules","histories"],"every interleaving of 2-3 goroutines inserting, deleting and calling Len; every sequential history",
  "The tests read Len only after all goroutines have been joined, with one observed interleaving.",
  F,[("atomic counter changed once per successful insert/delete","length field, "+T)],[("length","number of entries","map structs in "+T)],["Len"]),
P("C04","Every operation terminates: no deadlock, livelock or leaked lock",
  "Under any schedule that keeps running every goroutine, every operation on any map type returns; no set of concurrent operations can wait for each other forever, and no completed operation leaves anything behind that makes a later operation hang or panic.",
  ["schedules","programs"],"every interleaving of small programs of updates over neighbouring keys with tall and short towers, followed by further operations on every key",
  "A deadlock needs particular lock-acquisition interleavings between adjacent entries at different levels; the tests mostly hit uncontended predecessors and would only time out.",
  F,[("predecessor locks taken in one global order (descending position), released per distinct predecessor","Store/LoadOrStore/LoadOrStoreLazy/Delete/LoadAndDelete and unlock* in "+T)],(),API),
P("C05","Load, Range and Len are wait-free",
  "Load, Range and Len never wait for another goroutine: with every other goroutine suspended at any point whatsoever, even in the middle of an update or of a LoadOrStoreLazy callback, they complete, in a number of their own steps bounded by the size of the map.",
  ["schedules","programs"],"every reachable suspension point of 1-2 concurrent updating goroutines, readers then run alone",
  "No test suspends a writer in the middle of an operation; a reader that takes a lock or retries until a writer finishes passes all of them.",
  F+["readme.md"],[("readers only follow atomic pointers and flags; no locks, no retry","Load/Range/Len in "+T)],(),["Load","Range","Len"]),
P("C06","No data races: entries and values are published safely",
  "Concurrent use of any operations of one map never performs conflicting unsynchronised memory accesses (in the sense of the Go memory model), and every value or key read is exactly one that was stored as a whole: multi-word values are never torn and what a goroutine wrote before storing a value is visible to whoever loads it.",
  ["schedules","programs"],"happens-before race check and value integrity on every explored interleaving of all pairs of operations, with multi-word values",
  "The race detector used by CI sees only the interleavings that happen to run; a missing or too early publication needs a particular overlap.",
  F+["oparray.go","flag.go"],[("atomic pointer stores publish initialised entries; values are replaced by pointer","storeVal/atomicStoreNext in "+T),("plain reads of next only under the entry's lock","loadNext in "+T)],(),API+["Range"]),
P("C07","Winners are unique and lazy factories run exactly as promised",
  "Among concurrent LoadOrStore/LoadOrStoreLazy calls on an absent key exactly one stores (loaded=false) and all others get its value; each successful insertion of a key is matched by at most one successful Delete/LoadAndDelete. A LoadOrStoreLazy call runs f exactly once if it stores (and stores what f returned) and not at all if it reports loaded=true.",
  ["schedules","programs"],"every interleaving of 2-4 goroutines doing insert-if-absent and delete on one key (plus a neighbour), on every map type",
  "The tests check single winners with 1000 goroutines but without concurrent deletes, neighbours or control over where the factory runs relative to other operations.",
  F,[("validated predecessors are locked before f runs and the entry is linked","LoadOrStoreLazy in "+T),("deletion is claimed by marking under the entry's lock","Delete/LoadAndDelete in "+T)],(),["LoadOrStore","LoadOrStoreLazy","Delete","LoadAndDelete"]),
P("C08","Sequential behaviour equals an ordinary sorted map",
  "For every history of operations by one goroutine on a new map, every result (values, booleans, Len, and the complete Range output in key order) equals that of an ordinary sorted map, for every map type; storing to an existing key replaces the value, LoadOrStore and LoadOrStoreLazy never do, and operations on one key never affect another.",
  ["histories","inputs"],"all operation sequences to a bounded depth from the empty map and, by state-graph closure, all histories over a small key set with all tower shapes",
  "The tests compare one random sequence with sync.Map for int and a few fixed cases for string; most of the seventeen generated types are never executed at all.",
  F+["skipmap.go","oparray.go"],[("search, insert and delete on the skip list",T)],(),API+["Range","Len"]),
P("C09","Every constructor orders and identifies all keys of its type correctly",
  "Each New* constructor gives a map that treats two keys as the same exactly when they are equal values of the key type (for the float constructors all NaNs are one key) and ranges in ascending or, for Desc, descending order of that type over its whole domain, including extreme, zero, unsigned-high-bit and empty values; NaN comes first in float maps in both directions. A NaN key in New/NewDesc over a float type behaves in the same way and never hides other keys.",
  ["inputs","configurations"],"every sequence of insertions/deletions over boundary keys of each type, for every constructor and New/NewDesc at every ordered kind",
  "Tests cover int, int64 and string and one float case; no test touches the uint, int32, uint32, uint64 or string-descending maps, nor keys with the sign bit set.",
  F+["skipmap.go","gen.go","util.go"],[("comparison expressions substituted per type","gen.go Less/Equal"),("NaN-aware less functions","NewFloat32/64[Desc] in skipmap.go")],(),["New*","Range","Load","Delete"]),
P("C10","NewFunc honours every strict weak ordering",
  "With any less function that is a strict weak ordering, keys that less does not distinguish are one key, Range follows less, the key reported for an entry is the one it was inserted with, and results equal those of a sorted association list under that ordering.",
  ["inputs","histories"],"all strict weak orderings of a small key set, all operation sequences to a bounded depth",
  "TestFunc uses one total order (a<b), so equivalence classes with several distinct keys are only seen for NaN.",
  ["gen_func.go","skipmap.go","gen.go"],[("equality derived as !less(key, candidate) after the search","findNode/findNodeDelete/Load in gen_func.go")],(),["NewFunc"]),
P("C11","Behaviour does not depend on the random tower heights",
  "Whatever values the random source returns, every operation completes without panic and gives the same results; tower heights only influence cost. This includes drawing heights above the current highest level and arbitrarily long runs of growth draws.",
  ["inputs","histories"],"all height assignments (including more growth draws than there are levels) for bounded operation sequences",
  "Heights above 4 occur with probability 1/256 per insert and heights near the maximum essentially never occur in tests.",
  F+["util.go","oparray.go"],[("height clamp","randomLevel in util.go"),("highest-level maintenance and re-search when it grows","randomlevel, LoadOrStore in "+T),("split tower storage","oparray.go")],[("highestLevel","levels searched","map structs in "+T)],API),
P("C12","Range callbacks may stop early and may use the same map",
  "Range calls f at most once per key, never again after f returned false, and f may perform any operation on the same map, including changing or deleting the current, previous or following entries and ranging again: nothing deadlocks, keys ahead of the cursor deleted by f are not visited, keys inserted by f behind the cursor are not visited, keys inserted ahead of the cursor are visited at most once, and the remaining order stays correct.",
  ["programs","inputs"],"all callback programs of bounded length over all small maps and cursor positions",
  "Two fixed callbacks are tested (store to and delete of the current key).",
  F,[("f is called with no lock held and the cursor moves on through the entry's forward pointer","Range in "+T)],(),["Range"]),
P("C13","A panicking callback leaves the map consistent and usable",
  "If the function passed to LoadOrStoreLazy or Range panics or ends its goroutine, the call has no effect on the map contents beyond operations f itself performed, and every later operation by any goroutine on that map still completes with correct results.",
  ["fault_sequences","schedules"],"a fault at every callback invocation, for every small map, key position and tower height, alone and with a concurrent goroutine",
  "No test has a failing callback.",
  F,[("predecessor locks are held while f runs and must be released on every exit","LoadOrStoreLazy in "+T)],(),["LoadOrStoreLazy","Range"]),
P("C14","Maps are independent of each other",
  "Operations on one map, of the same or another type, never change the contents, results, ordering or progress of any other map, sequentially or concurrently, and map instances may be used from different goroutines without synchronisation.",
  ["schedules","histories"],"all interleavings of operations on two maps, including one suspended in a LoadOrStoreLazy callback; all merged sequential histories of two maps",
  "Tests use one map at a time and do not compare instances.",
  F+["skipmap.go","util.go"],[("all state is reached from the map value; no package-level mutable state",T)],(),["New*"]),
P("C15","Values come back exactly as stored, for every value type",
  "For any value type (empty struct, multi-word struct, array, string, slice, pointer, interface including nil, function) Load, LoadOrStore, LoadOrStoreLazy, LoadAndDelete and Range return exactly the last value stored, misses return the zero value, and later changes to the caller's own variable never change what the map holds.",
  ["inputs","histories"],"all short histories over a set of value types and representative values including nil and zero",
  "Tests use interface values holding strings and ints and plain ints only.",
  F,[("values are boxed per store and reached through an untyped pointer","storeVal/loadVal in "+T)],(),API+["Range"]),
P("C16","Deleted and overwritten data is released",
  "After a key is deleted or its value replaced and all calls have returned, the map no longer keeps the removed entry or the old value reachable, so they can be garbage collected, for any tower height and after any history or interleaving.",
  ["histories","schedules"],"all bounded operation sequences with all tower heights, and all interleavings of small concurrent programs",
  "No test looks at reachability; an entry unlinked on some levels only still gives correct lookups in most cases.",
  F,[("an entry is unlinked on all its levels by the deleting call","Delete/LoadAndDelete in "+T)],(),["Delete","LoadAndDelete","Store"]),
P("C17","Regenerating the code from the template preserves behaviour",
  "Running the code generator on the source tree yields a complete, compiling package whose map types behave the same as the committed ones, sequentially and concurrently.",
  ["configurations","histories"],"every generated type; operation sequences and interleavings as for the committed files",
  "No test runs the generator; a template or generator edit that is not regenerated, or a hand edit of a generated file that is not in the template, passes.",
  ["gen.go","skipmap.tpl","skipmap.go"],[("text/template expansion per type","gen.go generate()")],(),["go generate"]),
P("C18","Search cost follows the tower structure",
  "The number of steps an uncontended operation takes is bounded by the length of the skip-list search path for its key (a constant per level plus a constant per entry that path passes), not by the number of entries, and tower heights follow the geometric law with ratio 1/4 capped at the maximum, which together give logarithmic expected cost.",
  ["inputs"],"all height assignments of bounded maps, all keys and gaps, all operations; all outcomes of the random source to a bounded number of draws",
  "Tests check results only; a search that degrades to walking the bottom level, or a constant tower height, still passes.",
  F+["util.go"],[("search starts at the highest level in use and descends","findNode/findNodeDelete/Load in "+T),("geometric height","randomLevel in util.go")],[("highestLevel","levels in use","map structs")],API),
P("C19","The maps work the same where int and pointers have 32 bits",
  "On platforms where int, uint, uintptr and pointers have 32 bits (386, arm, mips) every map type keeps its guarantees: no operation panics or faults (64-bit counters stay aligned), 64-bit integer and float keys are told apart and ordered over their whole domain and int and uint keys over theirs, towers of every height work, values of every type come back as stored, Len is exact, and concurrent use behaves as on 64-bit platforms.",
  ["configurations","inputs","schedules"],"operation sequences over boundary keys of every constructor, all pairs of tower heights, all value types, and interleavings of small programs, in programs compiled for 32-bit words",
  "The tests run on the 64-bit build machine only; word size decides the alignment of 64-bit atomics, the layout of the pointer arrays and the width of int conversions.",
  F+["oparray.go","flag.go","util.go"],[("64-bit counters first in the map structs so that 64-bit atomics are aligned",T),("pointer arithmetic over the tower","oparray.go"),("tower height from random words","util.go")],[("length, highestLevel","counters used with 64-bit atomics","map structs in "+T)],API+["Range","Len"]),
]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for p in props:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
