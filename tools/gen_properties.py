#!/usr/bin/env python3
"""Writes properties.jsonl. The list here is the source; run after editing."""
import json, os
R="src/raw/mod.rs"; M="src/map.rs"; S="src/set.rs"
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    assert len(title)<=80,(id,len(title))
    return d
SC="schedules"; FS="fault_sequences"; H="histories"; I="inputs"; CF="configurations"
P=[
p("C01","Single-key map operations are linearizable",
 "Every history of lookups, inserts, conditional inserts, updates and removals issued by any number of threads on one map is, key by key, equivalent to some order of the same calls on a plain sequential map that respects real time and gives every call the result it actually returned. This holds in both resize modes, for any number of growing, shrinking, same-size, nested or retried resizes in flight, and for any hash distribution the map accepts.",
 [SC,H,CF],"all interleavings of the atomic steps of 2-4 threads, all operation sequences, both resize modes, any copy chunk, any initial capacity, any hash distribution",
 "The tests run each operation mix under whatever interleavings the OS happens to produce on tables that rarely resize mid-operation; they compare end states or monotone counters, never whole histories, so a result that is wrong only for one ordering of a racing insert, remove and copy is not observable to them.",
 [R,M],[("metadata/entry CAS protocol",R+": insert_at, update_at, insert_inner, remove_if, compute_with"),("COPYING/COPIED tags and per-entry wait",R+": copy_at_incremental, wait_copied, prepare_retry"),("promotion",R+": try_promote")],
 ["return values of the public HashMap / HashMapRef methods, in both guard and pinned form"]),
p("C02","Closure-based operations act atomically on the entry they were shown",
 "When an update, update-or-insert, compute, get-or-insert-with, try-insert-with or conditional removal succeeds, the value it installed is exactly what the caller's closure returned for the value it replaced (or for absence), or the entry it removed is exactly the one its closure accepted; when it aborts, is refused or loses, the map is unchanged by it. No concurrent modification is ever overwritten by a result computed from older state, whatever retries or memoisation happen inside.",
 [SC,H],"all interleavings and histories of closure-based operations racing with plain writes and resizes",
 "Tests call closures mostly from one thread or count increments on hot counters; a memoised result reused for the wrong entry, or a removal of an entry the predicate never saw, needs a replacement between closure call and commit, often across a table change.",
 [R,M],[("compare-and-swap commit of computed value",R+": compute_with, update_at"),("memoisation keyed by entry",R+": ComputeState::next / restore"),("predicate re-evaluation on lost race",R+": remove_if")],
 ["closure arguments and results, returned references, later reads"]),
p("C03","A read that observes a write happens after that write",
 "If a lookup, iteration or returned old value observes an entry, everything its writer did before publishing that entry, including building the key and value, happens-before the observation; if an operation observes that a key which was present is gone, what the remover did before the removal happens-before it likewise; and an operation that happens-after another (through any synchronisation between their threads) never observes an older state of that key. This holds under every visibility order the language memory model permits, not only those of strongly ordered hardware.",
 [SC,FS],"all interleavings and all delays in the visibility of individual atomic stores that the C11/Rust memory model permits",
 "The tests run natively on strongly ordered x86 where a missing release or acquire is invisible, and Miri runs sample a single schedule of a few tests.",
 [R,"src/raw/utils/parker.rs","src/raw/alloc.rs"],[("release publication, acquire/protected loads",R+": insert_at, update_at, get, Iter::next"),("table publication",R+": get_or_alloc_next, init, try_promote; src/raw/alloc.rs next_table"),("parking hand-off","src/raw/utils/parker.rs")],
 ["vector clocks of reader and writer at each value observation"]),
p("C04","References handed out stay valid for the whole life of the guard",
 "Every key or value reference returned under a guard or pin, by any operation, refers to a live, unmodified object until that guard is released, no matter what other threads insert, remove, clear, resize or reclaim meanwhile; and the map itself never touches memory that has been released. This holds for any collector batch size and any reclamation timing the collector is allowed to choose.",
 [SC,FS,CF],"all interleavings, all points at which the collector may legally reclaim (from earliest possible to latest), all batch sizes",
 "Native tests free memory late and in large batches, so a premature retirement is almost never followed by a use in the same run, and a use of freed memory normally reads plausible bytes and passes.",
 [R,"src/raw/utils/stack.rs","src/raw/alloc.rs"],[("deferred retirement of entries borrowed by older tables",R+": defer_retire, drop_table"),("table retirement after promotion",R+": try_promote"),("protected loads",R+": root, get, insert_inner, remove_if, clear, retain, Iter::next")],
 ["liveness of each referenced object and allocation at every access and again at guard release"]),
p("C05","Every key and value is dropped exactly once and no memory is leaked",
 "Every key and value moved into a map, and every value produced by a caller's closure for it, is dropped exactly once: by the caller if handed back, otherwise by the map, at the latest when the map and its guards are gone. All memory the map allocated, including tables abandoned or superseded by resizes, is released by then, whatever races, retries, caller panics or half-finished resizes preceded.",
 [SC,H,FS],"all interleavings and histories, including maps dropped in the middle of a resize and after closures that panic",
 "Only two tests look at drop counts and none at table memory; losing the race that duplicates or forgets one allocation needs a particular interleaving of a resize, a removal and a drop.",
 [R,"src/raw/alloc.rs","src/raw/utils/stack.rs"],[("map destructor",R+": Drop for HashMap, drop_entries, drop_table"),("lazy entry of compute",R+": LazyEntry, compute"),("losing table of an initialisation race",R+": init"),("retirement on promotion",R+": try_promote")],
 ["drop counts per object, allocator balance after the map is dropped"]),
p("C06","Resizes never lose, duplicate or resurrect entries",
 "Across any number of growing, shrinking, same-size, nested or retried resizes, forced or implicit, in either mode, the set of entries is preserved exactly: once all operations have returned, lookups, iteration and removal all agree on the same contents, equal to what the operations' results imply, with each key present at most once. An entry that was removed or replaced before, during or after its migration never reappears.",
 [SC,H,CF],"all interleavings of copying, helping, promotion and concurrent writes; all copy chunk sizes, capacities and hash distributions; tables from the minimum to several thousand slots",
 "Tests insert disjoint ranges and then look everything up once; a copy that is skipped, repeated, or races with a removal in the next table is only visible under specific interleavings with tiny chunks or multi-chunk tables.",
 [R,"src/raw/probe.rs"],[("claim/copied accounting",R+": help_copy_blocking, help_copy_incremental, try_promote"),("insert_copy",R+": insert_copy"),("capacity policy",R+": get_or_alloc_next, reserve")],
 ["contents seen by get, iter, remove at quiescence versus the linearized history"]),
p("C07","Iteration is a faithful weak snapshot",
 "An iteration (over pairs, keys or values) that runs concurrently with writers yields every key that stays present from before the iterator is created until it is exhausted, yields no key twice unless that key was absent in between, and yields only pairs that were actually in the map at some moment between the creation of the iterator and the yield. Resizes that start, run or finish during the iteration do not change this.",
 [SC,H],"all interleavings of an iterator's steps with writers and resizes, both modes",
 "The tests iterate while other threads write but only check that pre-inserted keys appear in a handful of native runs; duplicates or omissions need a resize boundary to fall inside iterator creation.",
 [R,M],[("completing in-flight resizes first",R+": linearize, iter"),("slot scan",R+": Iter::next")],
 ["sequence of yielded pairs with creation and yield instants"]),
p("C08","clear and retain remove exactly what they should",
 "When clear or retain returns, every key that was present before the call and was not concurrently written has been removed (for retain: if and only if the predicate rejected its value); a concurrently written key was absent, or for retain satisfied the predicate, at some moment during the call. Retain never removes a value the predicate accepted, and neither removes anything after returning.",
 [SC,H],"all interleavings of clear/retain with writers and resizes, both modes",
 "Existing tests call clear and retain mostly on quiescent maps; the hard case is a resize that starts while the table is being swept and moves entries the sweep has not reached.",
 [R],[("sweep and redo after copy",R+": clear, retain, linearize, help_copy")],
 ["lookups and iteration after the call, predicate call log, drop log"]),
p("C09","len and is_empty account for every completed operation",
 "At quiescence len equals the number of keys present and is_empty agrees with it. While operations run, len never deviates from the net effect of completed inserts and removals by more than the operations overlapping the call, and never underflows or panics.",
 [SC,H],"all interleavings and histories of every operation that changes membership, any number of counter shards",
 "Tests compare len after single-threaded scripts or disjoint-range inserts; a path that forgets or repeats a count update only when it loses a race or crosses a resize is not exercised.",
 [R,"src/raw/utils/counter.rs"],[("sharded counter updates",R+": insert, remove_if, compute_with, clear, retain"),("sum","src/raw/utils/counter.rs: sum")],
 ["len / is_empty results versus the recorded history and the final contents"]),
p("C10","Every operation completes: no deadlock, livelock or lost wakeup",
 "Whenever all threads keep being scheduled, every map operation returns after a bounded number of steps: no thread waits for a resize, entry copy or table allocation that has already finished, been superseded or been abandoned, and threads helping a resize cannot keep each other from finishing it. Spurious wakeups, stray unpark tokens, spurious compare-and-swap failures and arbitrarily long stalls of individual threads (once they end) do not change this.",
 [SC,FS],"all fair schedules after an arbitrary unfair prefix, with spurious wakeups, stray unparks, spurious CAS failures and stalls injected anywhere",
 "A lost wakeup or mis-addressed notification needs the waiter to park in a window of a few instructions; the test-suite would hang or, far more likely, never hit it.",
 [R,"src/raw/utils/parker.rs"],[("parker protocol","src/raw/utils/parker.rs"),("resize wait loops",R+": help_copy_blocking, help_copy_incremental, wait_copied"),("allocation lock",R+": get_or_alloc_next")],
 ["termination of every call within a step budget once scheduling is fair"]),
p("C11","Reads never block",
 "A lookup in either resize mode, and in blocking-resize mode also an iteration, finishes within a bounded number of its own steps even if every other thread is stopped at an arbitrary point of an arbitrary operation, including in the middle of a resize, and returns a correct result.",
 [SC,FS],"all points at which all other threads can be stalled, in all interleavings leading there",
 "No test can stop the other threads at a chosen instruction; a reader that waits for a writer shows up natively only as latency.",
 [R],[("lookup walks tables without waiting",R+": get, Iter::next, iter")],
 ["steps taken and blocking calls made by the reader while all other threads are frozen"]),
p("C12","Writers do not block one another when no resize is running",
 "As long as the table has room so that no resize is involved, any single-key write or closure-based operation finishes within a bounded number of its own steps even if every other thread is stopped at an arbitrary point of its own single-key operation, and its result and effect are correct.",
 [SC,FS],"all points at which all other writers can be stalled, on tables with spare room",
 "Lock-freedom is a statement about every possible stall point; tests never stall a thread inside an operation.",
 [R],[("lock-free insert/update/remove",R+": insert_inner, insert_slow, remove_if, compute_with, insert_at, update_at")],
 ["steps taken and blocking calls made by the running writer while all others are frozen"]),
p("C13","A panicking caller closure leaves the map intact",
 "If a closure passed to any operation panics, at any invocation including retries, the panic reaches the caller and the operation has no effect beyond removals a sweep had already completed; every other operation, concurrent or later, from any thread, still completes with correct results. Nothing is dropped twice, leaked or left inaccessible.",
 [SC,FS],"a panic injected at any invocation of any caller closure, under all interleavings",
 "No test panics inside a closure; the interesting cases are panics on a retry after a lost race, when an entry has already been allocated.",
 [R],[("lazy entry ownership",R+": compute, LazyEntry, ComputeState"),("predicate loops",R+": remove_if, retain")],
 ["results of all other operations, drop counts and allocator balance after the panic"]),
p("C14","A guard of another collector is always rejected",
 "Any map or set operation given a guard that belongs to a different collector panics without reading, changing or exposing any entry, regardless of what other threads are doing; guards of the map's own collector are always accepted.",
 [H,SC],"every guard-taking operation, at any point of any history",
 "Two tests try one method each; a single entry point that skips the check is memory-unsafe but works in every ordinary use.",
 [M,S,R],[("guard verification",R+": verify; every guard-taking method of src/map.rs and src/set.rs")],
 ["panic of the call and unchanged contents afterwards"]),
p("C15","The concurrent set is linearizable and shares the map's guarantees",
 "Every concurrent history of set inserts, lookups and removals is, key by key, equivalent to a sequential set respecting real time; set iteration, clear, retain and len obey the same guarantees as those of the map; references to set elements stay valid while the guard is held and elements are dropped exactly once.",
 [SC,H,CF],"all interleavings and histories on sets, both modes, including minimally aligned elements",
 "The set tests are single-threaded copies of the map tests.",
 [S,R],[("set wrapper over the raw table",S)],
 ["return values of the public HashSet / HashSetRef methods, drop counts"]),
p("C16","Owned guards protect across threads",
 "A reference obtained through an owned guard or owned pin stays valid until that guard is dropped even if the guard moves to, is used from, or is dropped on another thread than the one that created it; operations issued through it from any thread give the same results and accounting as through a local guard.",
 [SC,H],"all interleavings and all points at which an owned guard is handed to another thread, shared or dropped there",
 "The tests exercise owned guards only on one thread.",
 [M,S,R],[("owned guards in every operation",M+": owned_guard, pin_owned; src/raw/utils/mod.rs MapGuard")],
 ["liveness of references after hand-over, operation results, final len"]),
p("C17","Bulk and copying operations are consistent and fail cleanly",
 "Cloning, formatting, serializing, extending, collecting, converting and deserializing produce exactly the elements a weak snapshot or the input sequence implies, with later duplicates winning (a set keeps the first of equal elements), and equality holds exactly between maps with equal contents at quiescence; the result is independent of its source. If an element iterator, clone or deserializer fails or panics part way, the error or panic is reported, the source map is unharmed, elements already taken are kept or dropped exactly once and nothing leaks.",
 [SC,FS,H],"all interleavings of bulk operations with writers and resizes, and a failure injected at any element",
 "The tests clone, extend and round-trip quiescent maps with inputs that never fail.",
 [M,S,"src/serde_impls.rs"],[("Clone, PartialEq, Extend, FromIterator, Debug",M+", "+S),("Serialize/Deserialize","src/serde_impls.rs")],
 ["contents of produced maps, serialized pairs, errors, drop counts"]),
p("C18","Operations never panic unexpectedly and never shrink below capacity",
 "Apart from the documented cases (capacity overflow, foreign guard, removing an absent entry in compute, a panic of the caller's own code), no operation panics in any history, and after such a documented panic the map keeps working correctly. A map built with an initial capacity never shrinks its table below that capacity, for any capacity value; a capacity asked for at construction or by reserve is room for that many entries with well-spread hashes before the table has to grow, and capacity 0 allocates nothing.",
 [H,SC,CF,FS],"all histories and interleavings, all initial capacities, documented failures injected anywhere",
 "The tests only use default or power-of-two-like capacities with little churn, and never continue after a failed call.",
 [R,"src/raw/alloc.rs","src/raw/probe.rs"],[("next capacity policy",R+": get_or_alloc_next"),("allocation lock",R+": State::allocating"),("table allocation","src/raw/alloc.rs: alloc")],
 ["panics escaping calls; table memory held at quiescence"]),
p("C19","Correct with any conforming allocator and element type",
 "All guarantees hold for key and value types of any size and alignment and with any allocator that only returns blocks of the requested alignment, wherever it places them; and when the allocator refuses memory for a table the failure is reported through the standard allocation-error path instead of touching invalid memory.",
 [CF,FS,SC],"allocator placements down to the minimum requested alignment, element types of alignment 1 to 16 and size 0 upward, refusals of any table allocation",
 "Tests use one allocator that always over-aligns and never fails.",
 [R,"src/raw/alloc.rs","src/raw/utils/tagged.rs"],[("pointer tagging",R+": Entry tags; src/raw/utils/tagged.rs"),("table layout","src/raw/alloc.rs: layout, meta, entry")],
 ["operation results, memory-access checks, allocation-error calls"]),
p("C20","Garbage is reclaimed while the map lives",
 "Once a removed, replaced or cleared entry, or a table superseded by a resize, can no longer be observed by any live guard and no resize involving it is in progress, it is reclaimed without waiting for the map to be dropped, provided the collector is given the chance; memory held by a quiescent map is that of its current table and entries only.",
 [SC,H],"all interleavings and histories, both modes, ending in quiescence with all guards released",
 "Tests never look at what is still allocated while a map is alive.",
 [R],[("retirement of entries and tables",R+": defer_retire, try_promote, drop_table"),("deferred list","src/raw/utils/stack.rs")],
 ["live objects and table allocations at quiescence while the map is alive"]),
p("C23","An incremental resize costs each write a bounded amount of work",
 "With ResizeMode::Incremental(n), a single-key write or closure operation that meets a resize copies about n entries at most before it makes progress, whatever the size of the table. It does not wait for the resize as a whole: even if every other thread is stopped, between two operations or in the caller's Hash implementation while it copies some other entry, the operation finishes within a bounded number of its own steps, and its result and effect are correct.",
 [SC,FS,CF],"all chunk sizes, all states of a half-finished resize, all points at which all other threads can be stalled away from the key of the operation",
 "The tests only look at contents; the amount of work per write is visible natively only as latency, and no test stops a thread in the middle of a resize.",
 [R,"src/map.rs"],[("chunked helping",R+": help_copy, help_copy_incremental, prepare_retry_insert, try_retry")],
 ["entries hashed, steps taken and blocking calls made by a write during a resize"]),
p("C24","Insertion keeps the key instance that is already stored",
 "For keys that are equal without being identical, the stored instance is decided as documented, also under concurrency: a set keeps the element whose insertion returned true until it is removed (so lookups and iterations return that very instance, and equal elements inserted, extended or collected later change nothing), try_insert and get_or_insert change nothing when the key is present, and HashMap::insert replaces the value but not the key.",
 [H,SC],"all interleavings and histories of insertions, removals and lookups of equal keys",
 "The tests only use keys for which equality is identity, so a replaced instance is invisible to them.",
 [S,M,R],[("replacement policy of insertions",R+": insert_inner; src/set.rs insert; src/map.rs insert, try_insert, get_or_insert")],
 ["identity of the key returned by get, get_key_value, iter and retain"]),
p("C25","The table stays in proportion to the contents",
 "With well-spread hashes, and however many insertions and removals pass through a map or set, its table grows only for entries that are there: unless more room was asked for, no table has more than about four slots for each entry that is present at the same time. When few entries remain, further insertions and removals shrink the table again, down to about sixteen slots for each entry at most or to the initial capacity. Both hold in either resize mode and under concurrency.",
 [H,SC],"all histories of insertions and removals, however long, from any number of threads",
 "The tests look at contents and never at the memory a table takes; growth under churn shows only in long histories that keep few entries.",
 [R,"src/raw/utils/counter.rs"],[("choice of the next table's size",R+": get_or_alloc_next"),("entry count","src/raw/utils/counter.rs")],
 ["sizes of the blocks allocated for tables"]),
p("C26","Misbehaving keys never break memory safety",
 "Keys whose Hash or Eq is wrong (gives different answers to the same question, contradicts itself, collides at will) or panics, at any call including those a resize makes for entries inserted long ago, may spoil the results of operations on the map or set they are in, but never its memory safety: references handed out stay valid for the life of their guard, nothing is used after it was dropped and nothing is dropped twice, up to and including the drop of the map. If nothing panics, every key and value is still dropped exactly once.",
 [SC,FS,H],"all interleavings and histories, with any call of Hash or Eq answering wrongly or panicking",
 "The tests only use keys with lawful Hash and Eq; the interesting failures need a wrong answer or a panic in the middle of a resize, an insertion or an abandoned copy.",
 [R],[("what happens between marking an entry and copying it",R+": copy_at_blocking, copy_at_incremental, insert_copy"),("ownership of a new entry during the probe",R+": insert_inner, insert_slow, compute_with"),("drop of a map in whatever state",R+": Drop, drop_entries")],
 ["drop counts, accesses to freed or dropped elements, identity of held references, allocator balance"]),
]
NA=[
p("C21","Thread-safety marker bounds are sound",
 "Maps, sets, pins, guards and iterators can be sent to or shared with another thread only if every key, value and hasher they may expose or drop there permits it.",
 ["programs"],"all client programs the type checker accepts","It is a compile-time property over all type instantiations; tests only compile a few.",
 [M,S,R],[("unsafe impl Send/Sync",M+", "+S+", "+R)],["which client programs compile"]),
p("C22","Documented costs",
 "The documented throughput and wall-clock latency characteristics (scalability, read performance close to std, one allocation per entry) match the documentation.",
 [I],"all workloads; timing","Wall-clock performance.",
 [M,S],[("documentation of performance","README.md, src/lib.rs")],["timing"]),
]
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P+NA: f.write(json.dumps(d)+"\n")
