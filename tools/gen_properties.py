#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mechanism, observe_at=observe or [], hook_needed=hook)))
def m(n, w): return dict(name=n, where=w)
def s(n, me, w): return dict(name=n, meaning=me, where=w)
RES = s("reserved length", "number of positions handed out to growing calls", "src/state.rs ConcurrentVecState.len_reserved")
WRI = s("written length cache", "monotone lower bound of the contiguous written prefix", "src/state.rs ConcurrentVecState.len_written")
SLOT = s("slot state", "NONE / RESERVED / SOME tag of each element (spin lock of the element)", "orx-concurrent-option ConcurrentOption.state, wrapped by src/elem.rs")
CAP = s("capacity", "number of allocated slots", "pinned storage, read through core.capacity()")

prop("C01", "Concurrent growth: every value stored exactly once at its own position",
 "Every push, push_for_idx, extend, extend_for_idx and extend_n_items that returns has stored each of its values at exactly one position, no two growing calls ever share a position, and the positions handed out are exactly 0..n-1 without holes when all calls succeed. After all growing calls have returned, the vector contains exactly the values given to them: nothing lost, duplicated or overwritten, whatever the storage (doubling, linear, fixed).",
 ["schedules","programs","configurations"], "All interleavings of any number of growing threads, any mix of growing calls and lengths (including 0), all three storages, across capacity growth.",
 "Tests run a handful of racing threads and compare sorted contents; they sample a few schedules, never place a preemption between reservation, growth and write, and never check positions returned against contents for mixed calls.",
 ["src/grow.rs","src/state.rs"], [m("fetch_add on the reserved length","src/grow.rs push/extend_*"), m("write permits: write / grow / spin","src/state.rs write_permit, write_permit_n_items")], [RES,CAP,SLOT],
 ["returned index of growing calls","to_vec / into_iter / clone_to_vec / get_cloned after the calls return"])

prop("C02", "Growth order: consecutive batches, call order, closures told their position",
 "All values of one extend call occupy consecutive positions in iterator order starting at the returned begin index. If a growing call returned before another one started, its positions are all smaller. push_for_idx and extend_for_idx call their closure exactly once, with exactly the (begin) position at which the values are then stored.",
 ["schedules","programs"], "All interleavings of growing calls with different batch sizes, including batches that span several fragments of the storage and empty batches.",
 "The tests check consecutiveness only for final content of a few racing runs; call-order and closure-argument guarantees under races at fragment boundaries are not observed at all.",
 ["src/grow.rs"], [m("single fetch_add(n) per batch","src/grow.rs extend_n_items, extend_for_idx"), m("slice-wise in-order writes","src/grow.rs")], [RES,SLOT],
 ["returned begin index","closure argument","values read back at the positions"])

prop("C03", "len is the contiguous fully-pushed prefix: exact when idle, bounded, monotone",
 "len() never counts a position whose value, or an earlier position's value, is not completely written yet, always counts every prefix of positions whose growing calls had returned before len() was called, and never decreases along calls that do not overlap (until clear). When no growing call is running it is exactly the number of elements; is_empty agrees with it, no matter which reads or updates of elements are in progress at the same time.",
 ["schedules","histories"], "All interleavings of len/is_empty with growing calls finishing out of order, with other len calls, and with element reads/updates in progress.",
 "len_exact.rs covers one blocked-writer situation on a single schedule; races between the prefix scan, the cached length, out-of-order completion and locked elements are not reachable by it.",
 ["src/vec.rs","src/state.rs"], [m("scan from cached length, stop at first unwritten slot, fetch_max of the cache","src/vec.rs len")], [WRI,RES,SLOT,CAP],
 ["return value of len / is_empty", "as_slice().len(), Index panics"])

prop("C04", "Indexed reads: pushed values are visible, unwritten or foreign data never",
 "get(i), indexing, get_cloned, get_copied and their slice versions never yield anything but a value completely written at position i (never uninitialised, torn or another position's data, and only after its write happens-before the read). They yield Some for every i below the contiguous prefix completed before the call and None (or an out-of-bounds panic for indexing) for positions not yet reserved or out of range. get and indexing yield an element only for positions inside the fully written prefix.",
 ["schedules","inputs"], "All interleavings of reads with growing calls (including storage growth) and updates, all indices including far out of range and usize::MAX.",
 "Reads racing with an in-progress write or allocation of a new fragment occur only by luck in the tests, and a torn or unsynchronised read of an integer is invisible to them.",
 ["src/vec.rs","src/concurrent_slice/slice.rs","src/common_traits/index.rs","src/elem.rs"], [m("bounds by len() or min(reserved, capacity) plus slot state","src/vec.rs get, get_cloned, reserved_len"), m("release on slot publication, acquire on element access","src/grow.rs, src/elem.rs via ConcurrentOption")], [RES,SLOT,CAP],
 ["results of get/get_cloned/get_copied/index"])

prop("C05", "Element operations are atomic (linearizable) per element",
 "cloned, copied, map, replace, set and update on an element each take effect atomically: every concurrent history of them on an element can be explained by a sequential order consistent with real time, starting from the pushed value. update sees the current value and its result is not lost, replace returns exactly the value it displaced, map/cloned never see a half-updated value.",
 ["schedules","histories"], "All interleavings of element operations by several threads on the same or different elements, while the vector grows, for heap-owning and plain values.",
 "Tests only check end sums after racing updates; a lost update, a torn read or a stale replace result shows up only on particular interleavings.",
 ["src/elem.rs","src/concurrent_slice/slice.rs"], [m("per-element spin lock SOME->RESERVED->SOME","src/elem.rs delegating to ConcurrentOption")], [SLOT],
 ["results of element calls, values passed to closures"])

prop("C06", "swap, fill and fill_with: atomic exchange, whole window, nothing else touched",
 "swap(i, j) returns true exactly when both positions are in bounds (of the vector or slice) and then atomically exchanges the two values, without losing or duplicating either under concurrent swaps and updates; otherwise it returns false and changes nothing. fill and fill_with set every element present when they start exactly once and in order (fill_with calls its closure with 0,1,2,... relative to the vector or slice), touching nothing outside of the slice.",
 ["schedules","inputs"], "All index pairs including equal and out-of-range ones, all slices, all interleavings with other swaps, updates, reads and growth.",
 "swap/fill are only doc-tested sequentially on one or two index pairs; equal indices, slices with offset, and concurrent swaps are not exercised.",
 ["src/mut_elem.rs","src/concurrent_slice/mut_elem.rs"], [m("both element handles held while exchanging","src/mut_elem.rs swap"), m("index translation of slices","src/concurrent_slice/slice.rs idx")], [SLOT],
 ["return value of swap, contents afterwards"])

prop("C07", "Progress: calls terminate; no deadlock, livelock or blocking on user closures",
 "Every call returns once the threads it can depend on are scheduled: no combination of concurrent swaps, comparisons, element operations, reads and growing calls can deadlock or spin forever. Storage growth waits only for the thread that owns the growth step, never for a user closure or iterator of another growing call, so a closure that is slow, panics or itself grows the vector does not block others.",
 ["schedules","programs"], "All fair schedules of bounded programs over all operations, including swaps and comparisons with crossing arguments, identical arguments, and re-entrant growth from closures at capacity boundaries.",
 "A deadlock needs a specific interleaving of two crossing calls, or a growth boundary hit inside a closure; a passing test run says nothing about the other schedules.",
 ["src/mut_elem.rs","src/common_traits/eq.rs","src/grow.rs","src/state.rs"], [m("lock ordering for two-element operations","src/mut_elem.rs swap, src/common_traits/eq.rs"), m("unique grower: the call whose range contains the capacity boundary","src/state.rs write_permit*")], [SLOT,CAP,RES],
 ["termination of every call"])

prop("C08", "Capacity limits: growth beyond maximum_capacity panics and corrupts nothing",
 "A growing call succeeds as long as its positions fit into maximum_capacity and panics, without writing outside the storage, when they do not. After such panics the vector stays fully usable: everything pushed successfully is still there, len, iteration, to_vec, into_inner, clear and drop work and see exactly these elements, and rejected values are dropped once. capacity never exceeds maximum_capacity, never decreases while the vector is shared, and always covers all stored positions.",
 ["schedules","configurations","fault_sequences"], "All storages and small maximum capacities, overflow by push and by batches that only partly fit, any number of failing calls on any threads, followed by any use of the vector.",
 "Existing tests never exceed the maximum capacity, so the state after a failed reservation is never looked at.",
 ["src/state.rs","src/vec.rs","src/exclusive.rs","src/grow.rs"], [m("bounds assertion on reserved position","src/grow.rs via single_item_as_ref / n_items_buffer_as_slices"), m("min(reserved, capacity)","src/vec.rs reserved_len")], [RES,CAP],
 ["panics of growing calls, contents after catch_unwind, capacity()/maximum_capacity()"])

prop("C09", "Raw access and pinning: stable addresses, complete views",
 "The address of an element never changes while the vector is shared, whatever is pushed concurrently, so references and pointers from get_ref, get_raw, get_mut, get_raw_mut stay valid. These return Some for every position inside the prefix completed before the call and None outside, even while other threads read the element; iter_ref and iter_mut yield every such element, in position order, and never an unwritten one. Slice versions address the same elements shifted by the slice start.",
 ["schedules","inputs"], "All interleavings of raw access with growth and with concurrent reads of the same elements, all indices and slice windows.",
 "Tests hold a few references over sequential pushes; None returned only while another thread holds the element, or an unsynchronised reference, needs a specific interleaving.",
 ["src/unsafe_api.rs","src/concurrent_slice/unsafe_api.rs"], [m("pinned fragments","orx-split-vec via core"), m("slot state checked before exposing memory","src/unsafe_api.rs")], [SLOT,RES,CAP],
 ["pointers and references returned"])

prop("C10", "Every value is dropped exactly once and never used after drop",
 "Each value handed to the vector is either returned to the caller once (to_vec, into_iter, into_inner, replace) or dropped exactly once by the vector (drop, clear, set, fill, partially consumed into_iter, overflow), and never leaked, dropped twice, or accessed after its drop. This holds for every storage, at every length relative to capacity, and after any history of calls.",
 ["histories","configurations","schedules"], "All sequences of growing, updating, clearing, converting and dropping calls, all storages, all lengths relative to fragment boundaries, concurrent set/replace on the same element.",
 "The tests use mostly Copy or String values and never count drops; double drops and use after free are silent there.",
 ["src/exclusive.rs","src/vec.rs","src/to_vec.rs","src/common_traits/into_iter.rs","src/elem.rs"], [m("unfilled slots hold NONE so that the storage can be dropped as a whole","src/state.rs fill_memory_with"), m("conversion with exact length","src/vec.rs into_inner")], [SLOT,RES],
 ["drop/live counters of instrumented values at quiescent points and at the end"])

prop("C11", "Slices are fixed windows: slice, as_slice, split_*, chunks cover exact ranges",
 "slice(range) of a vector or slice denotes exactly the positions of the range clamped to the current length, split_at(mid) the positions before and from mid (panicking if mid is out of bounds), split_first/split_last the first/last element and the rest (None when empty), and chunks(k) the consecutive windows of k elements with a shorter last one, reporting its exact number. A slice keeps its length and its elements while the vector grows, and indexing through nested slices reaches the same elements as direct indexing.",
 ["inputs","schedules"], "All ranges (including empty, inverted, beyond the end, inclusive and unbounded ones), all chunk sizes and lengths, nested slicing, slices taken while other threads push.",
 "Doc tests try one or two ranges on a fixed five-element vector; window arithmetic for nested slices or exact multiples and racing growth is not covered.",
 ["src/vec.rs","src/split.rs","src/concurrent_slice/slice.rs","src/concurrent_slice/split.rs"], [m("offset + length arithmetic","src/concurrent_slice/slice.rs, src/split.rs, src/concurrent_slice/split.rs")], [WRI],
 ["len, contents and element identity of the returned slices"])

prop("C12", "Iteration and shorthands visit a complete in-order snapshot prefix",
 "iter, iter_cloned, map, filter, fold, reduce, clone_to_vec, clone and Debug of a vector or slice visit each position of one prefix 0..n (the whole window for slices) exactly once and in order, where n is the length at some moment during the call. The results equal those of the same operation on a standard Vec with the values found there; reduce of nothing is None. Positions pushed later are never visited half-written.",
 ["schedules","inputs"], "All lengths around fragment boundaries, all interleavings of iteration with growth and updates, on vectors and slices.",
 "Tests iterate at rest on short vectors; a skipped, repeated or early-visited position at a fragment boundary or during growth is not reached.",
 ["src/vec.rs","src/iter_shorthands.rs","src/concurrent_slice/iter_shorthands.rs","src/to_vec.rs","src/common_traits/debug.rs","src/common_traits/clone.rs"], [m("iteration bounded by len()","src/vec.rs iter, iter_cloned"), m("window iteration","src/concurrent_slice/slice.rs iter")], [WRI,SLOT],
 ["sequence of values passed to closures / yielded"])

prop("C13", "Comparisons and searches equal those of plain sequences, race-free",
 "==, index_of and contains on vectors, slices, arrays, std slices and elements return what the same comparison on the values of the two sequences returns: equal iff same length and pairwise equal, index_of the first equal position. With concurrent updates the result is explainable by values each compared element held during the call, and the comparison never reads an element unsynchronised with writers or after its value was dropped.",
 ["schedules","inputs"], "All pairs of contents and lengths (equal, prefix, differing at any position), element compared with itself, all interleavings with set/replace/update/push.",
 "Tests compare equal short vectors at rest; a read of an element after its lock is released is only visible under a racing writer.",
 ["src/common_traits/eq.rs","src/partial_eq.rs","src/concurrent_slice/partial_eq.rs"], [m("pairwise iteration with length check","src/common_traits/eq.rs eq_elem_iters"), m("element locks held during comparison","src/common_traits/eq.rs ConcurrentElement eq")], [SLOT],
 ["results of ==, index_of, contains"])

prop("C14", "Panic safety: a panicking user callback harms nothing else",
 "If user code called by the vector panics (closures of map/update/fold/fill_with/push_for_idx/extend_for_idx, Clone, PartialEq, the Drop of a value being replaced or cleared, a too short iterator or a wrong length), the panic propagates to the caller, no element stays locked, no other value is lost, corrupted or dropped twice, and other threads and later calls proceed normally; clear leaves the vector empty even then. Positions reserved by a growing call that panicked before writing stay invisible: len stops before them and no read ever yields data from them.",
 ["fault_sequences","schedules"], "A panic at every callback position of every operation, sequentially and with other threads running, followed by further use and drop.",
 "No existing test lets user code panic inside a call.",
 ["src/elem.rs","src/grow.rs","src/mut_elem.rs"], [m("handle guards release on unwind","src/elem.rs via ConcurrentOption handles"), m("slot published only after the value is written","src/grow.rs")], [SLOT,RES],
 ["catch_unwind around calls, contents and drop counters afterwards"])

prop("C15", "Conversions and reuse (from, into, collect, clear, reserve) preserve contents",
 "Converting a pinned vector of elements into a concurrent vec, into_inner, to_vec, into_iter, collect/FromIterator and clone preserve the sequence of values exactly, for every storage and length. After clear the vector is empty and behaves as a new one of the same kind; reserve_maximum_capacity never loses or moves out elements, returns the new maximum_capacity which is at least the requested one, and growth up to it then succeeds. The result of any such conversion can again be grown and converted.",
 ["histories","inputs","configurations"], "All sequences of conversions, clears, reservations and growth, all storages and lengths around fragment boundaries, exact and inexact size hints.",
 "Tests convert each storage once after simple pushes and never reuse a cleared or converted vector across capacity boundaries.",
 ["src/vec.rs","src/new.rs","src/exclusive.rs","src/to_vec.rs","src/common_traits/from_iter.rs","src/common_traits/into_iter.rs","src/common_traits/clone.rs"], [m("len-exact hand-over to the storage","src/vec.rs into_inner, src/exclusive.rs"), m("state rebuilt from the storage","src/state.rs new_for_pinned_vec, new_for_con_pinned_vec")], [RES,WRI,CAP],
 ["contents after conversions, capacity()/maximum_capacity()"])

prop("C16", "Thread-safety traits only for element types that allow them",
 "ConcurrentVec, its slices and elements can be shared between or sent to other threads only for element types for which the exposed operations are sound: sharing requires T: Send + Sync (values can be moved out through a shared reference), sending requires T: Send.",
 ["programs"], "All safe programs that compile.",
 "A compile-time property of the type system; no test asserts that an unsound program is rejected.",
 ["src/vec.rs"], [m("unsafe impl Sync / Send bounds","src/vec.rs")], [], ["rustc accepting or rejecting programs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
