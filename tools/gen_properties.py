import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None,hook=False):
    a={"files":["include/gtl/"+f for f in files],"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("P01","Hash maps and sets behave exactly as mathematical maps and sets",
 "After any sequence of insertions, assignments, in-place constructions, lookups and erasures through any entry point of the flat and node hash maps and sets, the container holds exactly the entries a mathematical map (or set) would hold after the same calls, for every well-formed hash function and equality. Every call reports the truth: whether an insertion happened, which entry an iterator designates, how many entries were erased, whether a key is present, and which value is mapped to it; an insertion of a present key changes nothing unless the call is an assigning one. size() and empty() always agree with the number of stored entries.",
 ["histories","inputs","configurations"],"every finite call sequence, key set, hash function (including constant and colliding ones), element type and supported table implementation",
 "The unit tests run a few fixed call sequences on small tables with good hashes; correctness depends on the interplay of probing, tombstones, wrap-around, in-place rehash and growth over long histories.",
 ["phmap.hpp","gtl_base.hpp","phmap_utils.hpp"],
 [("open-addressing table with control bytes and tombstones","phmap.hpp: raw_hash_set find/find_or_prepare_insert/erase_meta_only/drop_deletes_without_resize"),("map layer","phmap.hpp: raw_hash_map"),("policies","phmap.hpp: FlatHash*/NodeHash* policies, DecomposePair/DecomposeValue")],
 ["return values of the public calls","size/empty","full iteration"])

p("P02","Hash tables grow, reserve and shrink without losing entries or looping",
 "Whatever the history of insertions, erasures, reserve, rehash and clear calls, every call terminates, no entry is lost, duplicated or altered by a change of capacity, and the load never exceeds the documented maximum of 7/8 (rounded up to whole entries in the smallest tables). After reserve(n) the table accepts insertions up to n entries in total without any further reallocation, so iterators and element addresses stay valid; a table whose entries are continually inserted and erased does not grow without bound.",
 ["histories","inputs"],"every interleaving of insert, erase, reserve(n), rehash(n), clear, for every n and every table size, with every hash",
 "Tests exercise a handful of capacities; failures (an endless probe in a table with no free cell, a wrong free-cell budget) need a particular accumulation of erasures and a particular request size.",
 ["phmap.hpp"],
 [("capacity policy","phmap.hpp: NormalizeCapacity, CapacityToGrowth, GrowthToLowerboundCapacity"),("resize and in-place rehash","phmap.hpp: raw_hash_set::resize, rehash_and_grow_if_necessary, drop_deletes_without_resize, reserve, rehash")],
 ["capacity()","load_factor()","element addresses","termination"])

p("P03","Hash iteration visits every entry once and erasing keeps it valid",
 "Iterating any hash container from begin to end yields each stored entry exactly once, in every state the container can reach. Erasing through an iterator, a range or a predicate removes exactly the designated entries, does not disturb iterators to other entries and lets the traversal continue; node containers keep the address of every entry for its whole life, across growth, moves, swaps and erasure of others.",
 ["histories","inputs"],"every reachable table state and every choice of entries to erase during a traversal",
 "The tests traverse tables in a few states; a skipped or repeated entry depends on where free, erased and full cells fall with respect to probe groups and table ends.",
 ["phmap.hpp"],
 [("iterator skipping","phmap.hpp: raw_hash_set::iterator::skip_empty_or_deleted, CountLeadingEmptyOrDeleted"),("erase overloads and erase_if","phmap.hpp: raw_hash_set::erase/_erase, gtl::erase_if"),("node ownership","phmap.hpp: node_hash_policy")],
 ["iteration order contents","addresses of elements"])

p("P04","Hash containers have value semantics: copy, move, swap, merge, extract",
 "Copying a hash container gives an equal container that is afterwards independent; moving, swapping and assigning transfer exactly the source's entries, including self-assignment and containers with unequal allocators (which travel as the allocator's traits say), and two containers compare equal exactly when they hold the same entries. extract removes one entry and hands it over intact, inserting a node gives it back or refuses it without losing it, and merge moves exactly the entries whose keys the target lacks and leaves the rest in the source.",
 ["histories","inputs","configurations"],"every pair of reachable containers, every allocator-propagation policy, every sequence of these operations followed by ordinary use",
 "The tests use freshly built tables; the operations must also work on tables with erased cells, empty or moved-from tables, and must leave both sides fully usable afterwards.",
 ["phmap.hpp","gtl_base.hpp"],
 [("special members","phmap.hpp: raw_hash_set constructors, operator=, swap, move_assign"),("node handles","phmap.hpp: extract/insert(node_type), gtl_base.hpp/phmap.hpp node_handle"),("merge","phmap.hpp: raw_hash_set::merge")],
 ["full contents of both containers after each call"])

p("P05","Every element is constructed once, destroyed once and its memory returned",
 "In all containers (hash, parallel hash, B-tree and vector) each element object that is constructed is destroyed exactly once, no element is used, copied from or assigned to before its construction or after its destruction, and the number of live elements equals what the container holds. Every block obtained from the container's allocator is given back exactly once, to an equal allocator and with the size it was requested with, so that nothing is left when the container is destroyed.",
 ["histories","inputs","configurations"],"every call sequence, on every container kind, with element types that are not trivially relocatable and with stateful allocators",
 "A leak or double destruction in a rarely taken path (in-place rehash, node merge, overlapping insert) has no effect on the values the tests compare.",
 ["phmap.hpp","btree.hpp","vector.hpp","gtl_base.hpp"],
 [("slot transfer/destroy","phmap.hpp: destroy_slots, resize, drop_deletes_without_resize, policy transfer"),("node split/merge/rebalance","btree.hpp: btree_node"),("relocation","vector.hpp: relocate_*, make_window, wrap_frame")],
 ["instrumented element type and allocator"])

p("P06","A call that throws leaves its container consistent and usable",
 "If constructing or copying an element, hashing or comparing the call's key, a callback, or a memory allocation throws during a call on a hash container, a parallel hash container or a vector, the exception reaches the caller and nothing is leaked (a hash function or element move that throws while a hash table is being reallocated is outside the guarantee). The container afterwards is consistent: its size equals the number of entries iteration yields, and all later calls behave normally. A failed insertion of one entry into a hash container, and a failed insertion at the end, resize or reserve of a vector, leave exactly the entries that were there before, and the failed entry absent.",
 ["fault_sequences","histories"],"every call, every point inside it at which a user operation or allocation can throw, and every state of the container before it",
 "The tests hardly inject failures; each call has several throw points whose handling depends on the state of the table or buffer.",
 ["phmap.hpp","vector.hpp"],
 [("insertion protocol","phmap.hpp: find_or_prepare_insert/prepare_insert/emplace_at"),("copy construction","phmap.hpp: raw_hash_set copy constructor"),("rollback guards","vector.hpp: scoped_guard rollbacks, emplace_back_aux, do_real_insert")],
 ["size, iteration and live-object counts after the throw"])

p("P07","Parallel hash containers used by one thread equal the plain ones",
 "Used from one thread, a parallel hash map or set gives, for every call it shares with the plain containers and for every number of submaps and lock type, the same results and the same contents. Its own calls (conditional access, modification and erasure, emplacement with callbacks, traversal, access to single submaps) act on exactly the entry or entries they name, invoke the right callback exactly as often as documented, and together the submaps always partition the contents.",
 ["histories","inputs","configurations"],"every call sequence, submap count, mutex type and hash function",
 "Each call is routed by hash to a submap and stitched back into one container view; tests cover few submap counts and mostly the shared calls.",
 ["phmap.hpp","phmap_utils.hpp"],
 [("sharding","phmap.hpp: parallel_hash_set subidx/get_inner, iterators"),("extended API","phmap.hpp: if_contains, modify_if, erase_if, try_emplace_l, lazy_emplace_l, for_each*, with_submap*")],
 ["return values, callback invocations, contents per submap"])

p("P08","Concurrent calls on a parallel hash container are linearizable",
 "When several threads use one parallel hash map or set (with a real mutex or reader-writer mutex type) through its thread-safe calls, every call on a single key takes effect atomically at one instant between its start and its end, and the results all threads see are explainable by one sequential order. In particular no insertion or update is lost, of several concurrent insertions or erasures of one key exactly one succeeds, and the final contents are those of that order.",
 ["schedules","histories"],"every interleaving of every set of concurrent calls, with exclusive and with reader-writer mutexes",
 "The concurrency tests run a few free-running threads; the windows (upgrade from shared to exclusive lock, rehash by another thread) are tiny and depend on scheduling.",
 ["phmap.hpp","gtl_base.hpp"],
 [("lock wrappers","gtl_base.hpp/phmap_utils.hpp: LockableBaseImpl, LockableImpl, ReadWriteLock"),("locked operations","phmap.hpp: parallel_hash_set find_ptr, emplace_decomposable, erase_if_impl, lazy_emplace_l, try_emplace_l, modify_if")],
 ["invocation and response of each call"])

p("P09","Callbacks run under the right lock; no call deadlocks or leaks a lock",
 "A callback given to a parallel container's modifying call runs while no other thread is inside any callback or operation on that submap, and a callback of a read-only call never runs together with a modification of the same submap. Every call returns with all the locks it took released, also when the callback throws, so that concurrent calls on distinct or identical containers always make progress.",
 ["schedules","fault_sequences"],"every interleaving of callback-taking and whole-container calls of several threads, including callbacks that throw",
 "A missing or wrongly shared lock, or a lock left held on an exceptional path, shows only under a particular interleaving or fault.",
 ["phmap.hpp","gtl_base.hpp"],
 [("lock scopes","phmap.hpp: UniqueLock/SharedLock/UpgradeToUnique uses in parallel_hash_set/map"),("whole-container calls","phmap.hpp: for_each, for_each_m, erase_if, with_submap, swap, operator==, clear, merge")],
 ["callback entry/exit, lock operations at the mutex interface"])

p("P10","A dumped hash container loads back identical and fully usable",
 "Dumping a flat hash map or set (plain or parallel, of trivially copyable elements) after any history and loading the bytes into another container of the same type yields a container equal to the original, whatever the loading container held before. The loaded container behaves like any other under every later call, including growth, erasure and being dumped again; loading a parallel dump made with a different number of submaps is refused.",
 ["histories","inputs","configurations"],"every history before the dump, every prior state of the target, every later history",
 "The tests dump freshly filled tables only; erased cells, the growth budget and empty tables also travel through the file.",
 ["phmap_dump.hpp","phmap.hpp"],
 [("dump/load","phmap_dump.hpp: raw_hash_set::dump/load, parallel_hash_set::dump/load, BinaryOutputArchive/BinaryInputArchive")],
 ["contents and later behaviour of the loaded container"])

p("P11","B-tree maps and sets behave as sorted maps and sets",
 "After any sequence of calls a B-tree map or set holds exactly the entries a sorted map (or set) would hold under the same comparator, iteration visits them in ascending order forwards and descending order backwards, and lookup, bounds, ranges, counts and insertion results are those of the sorted map, with any hint. Erasing an entry, a key or a range removes exactly that and returns the position of the next remaining entry.",
 ["histories","inputs","configurations"],"every call sequence and key order, element size (hence node fan-out), comparator (boolean or three-way, transparent or not) and tree height",
 "Node splits, merges, rotations and root shrinkage depend on the exact order and amount of insertions and deletions at each level.",
 ["btree.hpp"],
 [("search","btree.hpp: linear/binary search, internal_locate, internal_lower/upper_bound"),("balancing","btree.hpp: rebalance_or_split, try_merge_or_rebalance, rebalance_after_delete, erase ranges"),("iterators","btree.hpp: btree_iterator increment/decrement_slow")],
 ["return values, forward and backward traversal"])

p("P12","B-tree multimaps and multisets keep every duplicate in order",
 "A B-tree multimap or multiset holds every inserted entry, with duplicates, in key order, and entries with equal keys stay in the order in which un-hinted insertions added them. Counts, bounds and equal ranges delimit exactly the entries with the key, find returns one of them, erasing a key removes them all, and erasing a position or range removes exactly those entries.",
 ["histories","inputs","configurations"],"every call sequence with runs of equal keys of any length, including runs spanning several nodes",
 "Runs of equal keys that cross node boundaries at several levels arise only from particular histories.",
 ["btree.hpp"],
 [("multi insertion/erasure","btree.hpp: insert_multi, insert_hint_multi, erase_multi, count_multi, equal_range")],
 ["return values, traversal with entry identities"])

p("P13","B-tree containers have value semantics and exchange entries intact",
 "Copies of B-tree containers are equal and independent; moving, swapping and assigning transfer exactly the entries (also onto itself, from or to empty containers, and with unequal allocators), and equality and ordering comparisons are lexicographic on the entries. Extracting and re-inserting nodes, merging containers and erasing by predicate move or remove exactly the entries concerned and leave every other entry where it was.",
 ["histories","inputs","configurations"],"every pair of reachable trees and every later history",
 "Tests do this on a few shapes of trees; both sides must remain well-formed trees afterwards.",
 ["btree.hpp","gtl_base.hpp"],
 [("special members","btree.hpp: btree copy/move/assign/swap, copy_or_move_values_in_order"),("node handles and merge","btree.hpp: btree_container::extract, insert(node_type), merge, erase_if")],
 ["full ordered contents of both containers"])

p("P14","The vector behaves as a sequence with standard-vector results",
 "Every sequence of vector calls (construction, assignment, insertion and erasure of one, many or ranges of elements at any position, push, pop, resize, reserve, shrink, swap, move) leaves exactly the element sequence the standard vector would hold, and returns the same positions, references, comparisons and range errors. This includes inserting, assigning or filling with an element of the vector itself, and capacity never falls below size or below what was reserved.",
 ["histories","inputs","configurations"],"every call sequence, position, count, element kind (trivial, movable, copy-only, large) and allocator kind",
 "Each operation has separate code for trivial and non-trivial elements, for spare capacity and reallocation, and for overlapping shifts; tests touch some of the combinations.",
 ["vector.hpp"],
 [("insertion windows","vector.hpp: do_real_insert, make_window, wrap_frame"),("growth","vector.hpp: emplace_back_aux, reserve, computePushBackCapacity"),("aliasing","vector.hpp: dataIsInternal*")],
 ["contents, size, capacity, returned iterators"])

p("P15","The bit vector behaves as a resizable sequence of booleans",
 "A bit vector of any length acts as a sequence of that many booleans: setting, resetting, flipping, reading, resizing (with either fill value), shifting, the logical operators, comparisons, counting, any/every/none and searching for the first or next set bit all give the result of the corresponding operation on the boolean sequence. Bits outside the current length never influence any result.",
 ["inputs","histories"],"every length, every position, every content and every sequence of operations",
 "The implementation works on 64-bit slots; errors sit at slot boundaries, partial last slots and after length changes, of which tests sample a few.",
 ["bit_vector.hpp","bits.hpp"],
 [("slot arithmetic","bit_vector.hpp: vec class, resize, shifts, count, find_first/find_next"),("storage update","bit_vector.hpp: storage::update_bit/visit")],
 ["every bit after each call"])

p("P16","A bit view acts on exactly its sub-range of the bit vector",
 "Operations through a view of positions [first, last) of a bit vector read and change exactly those positions, with the meaning the same operation has on a standalone sequence of that length: set, reset, flip, logical assignment, shifts, assignment from other views, from integers and from single bits, counting, any/every/none, comparison, containment/disjointness tests and searches. All other bits of the vector keep their value.",
 ["inputs","histories"],"every vector length, every pair of bounds (aligned or not), every content and operand",
 "Views start and end at arbitrary bit offsets; tests try few offset pairs per operation.",
 ["bit_vector.hpp"],
 [("range visitor","bit_vector.hpp: storage::visit/visit_all, _view operators"),("view searches","bit_vector.hpp: _view::find_first/find_next/count/contains/disjoint")],
 ["every bit of the underlying vector, results of queries"])

p("P17","The LRU cache returns the latest value and evicts the oldest first",
 "A lookup in the LRU cache returns the value most recently inserted for the key if the key is cached and nothing otherwise; both a successful lookup and an insertion make the entry the most recently used. The cache never holds more than its configured number of entries (per shard when sharded; after the limit is lowered, never more than it held then), evicts only when an insertion of a new key exceeds the limit, and then evicts exactly the least recently used entry of the shard; clearing empties it completely. All this also holds, atomically per call, for threads using a cache with a real mutex concurrently.",
 ["histories","inputs","schedules"],"every sequence of insert, get, exists, clear and size changes, every capacity, and concurrent use of the sharded variant",
 "The two tests use one capacity and a simple access order.",
 ["lru_cache.hpp","phmap.hpp"],
 [("recency list","lru_cache.hpp: get, insert"),("per-submap auxiliary data","phmap.hpp: parallel_hash_set Inner::aux_, lazy_emplace_l")],
 ["return values of get/exists/size"])

p("P18","Memoized functions return the function's value, computing it once per key",
 "Calling a memoized function always returns what the original function returns for those arguments, for plain, recursive, multi-threaded and LRU variants, however calls interleave; a result that is cached is returned without calling the function again, and looking a result up never computes it. The non-recursive multi-threaded variant computes each distinct argument list at most once even under concurrent calls, an exception of the function is passed on and nothing is cached for it, and the LRU variants stay within their configured size (after it is lowered, never above what they held then) and forget the least recently used result first.",
 ["histories","schedules","fault_sequences"],"every sequence and interleaving of calls, every cache size, functions that throw or recurse",
 "There are no tests of memoization in the suite.",
 ["memoize.hpp","phmap.hpp"],
 [("memoize","memoize.hpp: mt_memoize::operator(), mt_memoize_lru::operator()")],
 ["returned values and invocations of the original function"])

p("P19","An intrusively counted object lives exactly as long as it is referenced",
 "An object managed by intrusive pointers is destroyed exactly once, immediately when the last pointer to it is destroyed, reset or re-assigned, and never before, for every sequence of copies, moves, assignments (including to itself and between related types), swaps, resets, detaches and raw adoptions, and for thread-safe counters under every interleaving of threads. Comparisons, conversions and the reported count always agree with the pointers that exist.",
 ["histories","schedules"],"every program over a set of pointers and objects, and every interleaving for the atomic policy",
 "There are no tests of intrusive pointers in the suite.",
 ["intrusive.hpp"],
 [("counter policies","intrusive.hpp: thread_unsafe_counter/thread_safe_counter, intrusive_ref_counter"),("pointer operations","intrusive.hpp: intrusive_ptr")],
 ["destructor calls, use_count, get"])

p("P20","Structure-of-arrays keeps rows intact under every operation",
 "In a structure of arrays each row keeps its field values together: insertion, resizing, clearing, element access, column access and views address the same row in every column. Sorting by a field, with the natural or a given ordering, puts the rows in that order, keeps rows that are equivalent in their former relative order, and reorders whole rows without losing, duplicating or tearing any, whatever was sorted before.",
 ["histories","inputs"],"every row set (with duplicates, already sorted or reversed) and every sequence of insertions, resizes, sorts and accesses over several instances",
 "There are no tests of this class in the suite.",
 ["soa.hpp","bit_vector.hpp"],
 [("columns and sort","soa.hpp: soa::insert, sort_by_field, reorder, view, resize")],
 ["every row after each call"])

p("P21","Scope guards, timestamps and search helpers do exactly what they promise",
 "A scope-exit action runs exactly once when its scope ends, by return or exception, unless dismissed or disabled, guards unwind in reverse order, and a scoped value change restores the previous value unless dismissed; change reports and performs exactly real changes and replace returns the previous value. Timestamps issued are unique and strictly increasing, comparisons and combination of timestamps follow the order in which they were issued, and an object's timestamp changes exactly when its value is changed through it. The generalized binary search returns the adjacent pair at which the predicate switches from false to true.",
 ["histories","inputs","fault_sequences"],"every nesting, dismissal and exception order, every sequence of touches, and every interval and switching point",
 "There are no tests of these utilities in the suite.",
 ["utils.hpp","adv_utils.hpp"],
 [("guards","utils.hpp: scoped_set_unset, scoped_guard, scoped_set_value"),("timestamps","utils.hpp: timestamp, provides_timestamp"),("binary search","adv_utils.hpp: binary_search, middle")],
 ["guard actions, values after scope exit, timestamp order, returned interval"])

p("P22","Equal keys hash equally and every entry is found by any equal key",
 "For every supported key type (integers, floating point, enums, pointers, strings and string views, pairs, tuples and user types with a hash), keys that compare equal have equal hashes, whatever their representation (such as signed zeros) and whichever equivalent type they are looked up through. Consequently heterogeneous lookup, insertion, conditional access and erasure find an entry exactly when an equal key is stored, in the plain and the parallel containers alike.",
 ["inputs","configurations"],"every pair of keys of every supported type combination",
 "Tests look up a handful of strings and integers.",
 ["phmap_utils.hpp","phmap.hpp","gtl_base.hpp"],
 [("hash functors","phmap_utils.hpp: Hash specialisations, HashState, phmap_mix"),("transparent lookup","phmap.hpp: StringHashEq, KeyArg")],
 ["hash values of equal keys, heterogeneous lookup results"])

p("P23","List helpers build exactly the lists they describe",
 "Concatenation yields the elements of all its arguments in order, slicing yields exactly the elements at first, first+stride, ... before last (positions counted from the front, or from the end when negative, -1 being the end), and mapping calls the function once per element in order and yields the results in order. None of them changes its arguments, whatever the element type, the vector type and the value category of the arguments.",
 ["inputs","configurations"],"every list, every pair of positions named from either end, every stride, and compositions of the helpers as recursive algorithms use them",
 "There are no tests of these helpers in the suite.",
 ["vec_utils.hpp"],
 [("helpers","vec_utils.hpp: cat, slice, map")],
 ["the resulting list, the calls of the mapped function, the arguments afterwards"])

p("P24","Stopwatches report exactly the time their events are apart",
 "A stopwatch reports the time elapsed since it was last started and since its last snapshot, and between the two, in its unit; starting it also takes a snapshot, a scoped timer starts it on entry and takes the snapshot on exit, and a basic stopwatch with a message reports the time since its start when destroyed.",
 ["histories"],"every sequence of starts, snapshots, nested scopes and readings at every clock advance between them",
 "There are no tests of the stopwatch in the suite.",
 ["stopwatch.hpp"],
 [("stopwatch","stopwatch.hpp: stopwatch, start_snap, basic_stopwatch")],
 ["since_start, since_snap, start_to_snap, get_time_us, the printed report"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80
print(len(P))
