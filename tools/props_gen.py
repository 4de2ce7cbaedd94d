import json
import os; ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I="include/cpp-sort/"
def p(id,title,st,over,text,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[I+f for f in files],mechanism=[dict(name=n,where=I+w) for n,w in mech],observe_at=obs,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=I+c) for a,b,c in state]
    return d
MEM=[("temporary_buffer: shrinks its request until an allocation succeeds","detail/memory.h"),
     ("get_temporary_buffer-like loops over nothrow operator new","detail/memory.h")]
L=[]
L.append(p("C01","Memory-tolerant sorts finish correctly when memory is refused",
 "A sort documented to work with less or no additional memory (merge, quick-merge and split sorts, the default sorter, grail and wiki sorts with a fixed buffer, every in-place sorter such as quick, pdq, heap, smooth, insertion, ska and std sorts, and the adapters built from them) never fails for lack of memory: whichever of its allocations are refused, it returns normally. The collection is then a permutation of what was passed, ordered by the comparison and projection that were passed.",
 ["inputs","fault_sequences"],"for every sorter whose documentation promises to run with less memory, every iterator category and element kind it accepts, every input, and every subset of its allocations that the system refuses",
 "The tests run with memory that never runs out, so the in-place fallback branches of the merges and partitions behind the buffers are only reached by accident (a fixed set of sizes); which branch is taken depends on which allocation failed and how much was granted.",
 ["detail/memory.h","detail/inplace_merge.h","detail/recmerge_forward.h","detail/recmerge_bidirectional.h","detail/symmerge.h","detail/merge_sort.h","detail/stable_partition.h","detail/wiki_sort.h","detail/grail_sort.h"],
 MEM+[("recursive merges that split the work when the buffer is too small","detail/recmerge_bidirectional.h"),("in-place symmerge","detail/symmerge.h"),("in-place stable_partition","detail/stable_partition.h")],
 ["result of the sorting call","contents of the collection after the call"],
 [("temporary buffer size","how many elements the granted buffer can hold, zero when nothing was granted","detail/memory.h")]))
L.append(p("C02","A refused allocation ends in a correct result or in bad_alloc",
 "Whatever operation of the library is called (sorter, adapter, measure of presortedness, metric or utility), a failed allocation has only two possible outcomes: the operation completes with its correct result as if nothing had happened, or it throws std::bad_alloc to its caller. It never terminates the program, hangs, corrupts memory, reports another error, or silently returns a wrong result.",
 ["inputs","fault_sequences","programs"],"for every public operation, every input, and every allocation or set of allocations made during the call that is made to fail",
 "The tests refuse no allocation at all or every one of them, for the memory-tolerant sorters only; every allocation site of every algorithm would have to fail once, at every state the algorithm can be in at that point.",
 ["detail/memory.h","detail/fixed_size_list.h","detail/immovable_vector.h","detail/melsort.h","detail/drop_merge_sort.h","detail/indiesort.h","adapters/schwartz_adapter.h","adapters/stable_adapter.h","adapters/out_of_place_adapter.h","probes"],
 MEM+[("node pools and vectors that own what they allocate","detail/fixed_size_list.h"),("immovable_vector","detail/immovable_vector.h")],
 ["return value or exception of the call","contents of the collection"]))
L.append(p("C03","Exceptions of user callbacks reach the caller unchanged",
 "When a comparison, a projection, or a move or swap of an element throws while the library is working, the very exception object that was thrown propagates out of the library call. It is not swallowed, not replaced by another exception, and does not terminate the program.",
 ["inputs","fault_sequences","programs"],"for every public operation that calls user code, every input, and every callback invocation that can be the one that throws, also when memory was refused beforehand",
 "The tests throw from a handful of call sites in a few sorters; the property is about each of the thousands of invocations made on every path of every algorithm.",
 ["sorter_facade.h","detail/memory.h","detail/scope_exit.h","detail/fixed_size_list.h","detail/associate_iterator.h","detail/drop_merge_sort.h","detail/merge_insertion_sort.h"],
 [("no noexcept on functions that run user code","detail/associate_iterator.h"),("scope guards that do not throw","detail/scope_exit.h")],
 ["exception seen by the caller"]))
L.append(p("C04","No leaks, and every temporary is destroyed and freed exactly once",
 "Whatever way a call ends (normally, by a callback exception, or by a failed allocation), each object the library constructed has been destroyed exactly once, no object has been constructed over a live one, and each block of memory it allocated has been given back exactly once, with the matching deallocation. The collection still holds as many live elements as before the call, and lists are still well formed.",
 ["inputs","fault_sequences","programs"],"for every public operation, every input and every combination of refused allocations and of one throwing callback",
 "Sanitizer runs of the tests check only the fault-free path; constructing, destroying and freeing on the unwinding path depends on the precise step at which the fault lands.",
 ["detail/memory.h","detail/fixed_size_list.h","detail/immovable_vector.h","detail/scope_exit.h","detail/slabsort.h","detail/melsort.h","detail/wiki_sort.h","detail/schwartz_small_array.h"],
 [("destruct_n / uninitialized_move track how many objects were built","detail/memory.h"),("fixed_size_list node pool and node destructors","detail/fixed_size_list.h"),("make_scope_exit guards","detail/scope_exit.h")],
 ["constructor/destructor events of elements","allocation and deallocation events"]))
L.append(p("C05","User code is only ever handed live objects that hold a value",
 "A comparison or projection is never called with an element that has been moved from, destroyed or not constructed yet, an element is never moved from or assigned when it is not alive, and a moved-from element is never moved again into a place that is later read as a value. Comparison and projection objects and iterators are likewise never used after they were moved from or destroyed.",
 ["inputs","fault_sequences","programs"],"for every operation, input and fault sequence, for comparisons, projections and iterators whose moved-from state is unusable",
 "Tests use elements whose moved-from state usually still compares, and stateless function objects, so such a use goes unseen or depends on the input.",
 ["detail/insertion_sort.h","detail/merge_move.h","detail/buffered_inplace_merge.h","detail/heapsort.h","detail/pdqsort.h","detail/timsort.h","detail/grail_sort.h","detail/wiki_sort.h","utility/as_function.h"],
 [("hole-based loops that keep the moved element in a local","detail/insertion_sort.h"),("function objects passed by copy except at their last use","detail/recmerge_forward.h")],
 ["arguments of comparisons and projections","sources of moves"]))
L.append(p("C06","No element is move-assigned to itself",
 "The library never move-assigns an element that holds a value to itself, neither directly nor by way of its own algorithms, whatever the input and whatever memory is granted (a swap with itself through a temporary keeps the value and is allowed). Types for which a self-move loses the value can therefore be sorted safely.",
 ["inputs","fault_sequences"],"for every sorter, input and amount of memory granted",
 "A self-move only happens for particular inputs (an element that already is in its place at a particular point of the algorithm) and goes unnoticed with ordinary types; the tests check it for a few distributions.",
 ["detail/drop_merge_sort.h","detail/merge_insertion_sort.h","detail/swap_if.h","detail/associate_iterator.h","detail/move.h","detail/indiesort.h","utility/apply_permutation.h"],
 [("explicit checks before moves over the same position","detail/drop_merge_sort.h")],
 ["move assignments of elements"]))
L.append(p("C07","Read-only operations and indirect sorts leave the input alone on failure",
 "Measures of presortedness and sortedness queries never modify the collection, not even when a comparison, projection or allocation fails. An indirect sort that fails while it compares, projects or allocates leaves the collection exactly as it was, because it only moves elements once it knows their order.",
 ["inputs","fault_sequences"],"for every measure of presortedness, sorted_indices, sorted_iterators, the metrics on read-only data and every indirect adapter, for every input and every failing comparison, projection or allocation",
 "Nothing in the tests interrupts these operations, and an accidental write that is undone before returning, or that happens only when memory is short, is invisible to them.",
 ["probes","utility/sorted_indices.h","utility/sorted_iterators.h","detail/indiesort.h","adapters/indirect_adapter.h"],
 [("work on copies of the iterators","adapters/indirect_adapter.h"),("probes take const iterators or copies","probes/ham.h")],
 ["contents of the collection after success and after failure"]))
L.append(p("C08","List sorts relink nodes and keep iterators valid",
 "A container-aware sort of a linked list reorders it by relinking its nodes: no element is moved, copied or created, every iterator and reference into the list remains valid and designates the same element, and nodes never leave lists whose allocator is the one of the collection, so that lists with a stateful allocator (std::pmr::list) can be sorted too. The list is sorted, stably when the sort is stable, and after a failed comparison or projection it is still a well-formed list of the same nodes.",
 ["inputs","fault_sequences"],"for every container-aware sorter, list and forward_list of every content, and every fault in the middle of the relinking",
 "The tests check the order of a few sorted lists, not the identity of nodes nor the state of the list when a comparison throws between two splices.",
 ["detail/container_aware/insertion_sort.h","detail/container_aware/merge_sort.h","detail/container_aware/mel_sort.h","detail/container_aware/selection_sort.h","adapters/container_aware_adapter.h"],
 [("splice / splice_after only","detail/container_aware/merge_sort.h")],
 ["addresses and order of the nodes after the call"]))
L.append(p("C09","Stable sorts stay stable whatever memory they get",
 "A sorter documented as stable, or made stable by an adapter or by the stable sorting functions, keeps equivalent elements in their original relative order. This holds on every code path, including those taken when the system refuses some or all of the memory asked for.",
 ["inputs","fault_sequences"],"for every stable sorter and stable adapter, every input with equivalent elements and every amount of memory granted",
 "Stability is tested on a few distributions with all memory available, where the buffered path is taken; the in-place merges and rotations are separate code.",
 ["adapters/stable_adapter.h","detail/recmerge_bidirectional.h","detail/recmerge_forward.h","detail/symmerge.h","detail/stable_partition.h","detail/timsort.h","detail/vergesort.h","detail/grail_sort.h","detail/wiki_sort.h","detail/spinsort.h","detail/container_aware/merge_sort.h"],
 [("strict comparisons from the right run only","detail/merge_move.h"),("make_stable compares positions","adapters/stable_adapter.h")],
 ["relative order of equivalent elements after the call"]))
L.append(p("C10","Results depend on the input only, not on the environment",
 "The same call on the same input performs the same comparisons and moves in the same order and produces the same result, whatever the addresses of the memory it is given, whatever garbage that memory holds, whatever the clock says and whatever entropy is available. Sorting is reproducible.",
 ["inputs","fault_sequences","configurations"],"for every operation except elapsed time, every input and fault sequence, and every pair of environments (addresses, leftover memory contents, entropy, clock)",
 "One test run happens in one environment; reading uninitialised memory, ordering by address or seeding from the environment changes nothing that a test compares.",
 ["detail/pdqsort.h","detail/introselect.h","detail/quicksort.h","detail/adaptive_quickselect.h","detail/memory.h","detail/wiki_sort.h"],
 [("no source of randomness in the algorithms","detail/pdqsort.h"),("pattern breaking with deterministic swaps","detail/pdqsort.h")],
 ["sequence of callbacks, moves and allocations","result"]))
L.append(p("C11","Concurrent, nested and unwinding callers do not affect each other",
 "Two library calls on different collections never influence one another, however their executions interleave on different threads, when one is made from inside a callback of another, or when one is made while an exception is being handled or is unwinding the stack. Each behaves exactly as if it were alone.",
 ["schedules","inputs","fault_sequences","programs"],"for every pair of operations, every interleaving of their steps at callbacks, moves and allocations, every nesting point, and every fault in either caller",
 "The tests are single-threaded and never call the library from a callback; shared mutable state would only show under particular interleavings.",
 ["sorter_facade.h","utility/static_const.h","adapters/stable_adapter.h","detail/memory.h","metrics","utility/metrics_tools.h"],
 [("sorters without mutable state, constexpr instances","utility/static_const.h"),("all working memory is local to the call","detail/memory.h")],
 ["result and event sequence of each caller"]))
L.append(p("C12","A failed call leaves nothing behind that changes later calls",
 "After a call that failed (callback exception or failed allocation), any later call, with the same sorter object or another one, on the same data or other data, behaves exactly as it would in a fresh process. The outcome of an operation does not depend on the history of earlier operations.",
 ["histories","inputs","fault_sequences"],"for every sequence of operations with failures in the middle, with sorter objects reused or not",
 "The tests call each operation in isolation or after successful ones; state that survives a failure needs a history with a fault in it.",
 ["sorter_facade.h","utility/adapter_storage.h","detail/comparison_counter.h","adapters/counting_adapter.h","utility/buffer.h","detail/fixed_size_list.h"],
 [("no state kept between calls","sorter_facade.h"),("buffers and pools local to a call","detail/fixed_size_list.h")],
 ["result and event sequence of later calls"]))
L.append(p("C13","running_time reports the time the sort took, in the chosen unit",
 "The elapsed time reported by the running-time metric is the difference between the clock right after and right before the measured sort, expressed in the requested unit, whatever the clock does during the call (advances, stalls or jumps). Measuring sorts the collection as the sorter alone would and lets its exceptions through.",
 ["inputs","schedules","fault_sequences"],"for every sorter measured, every input, every progress of the clock during the call, and every fault",
 "The tests can only check that some duration is returned, since real time is not under their control.",
 ["metrics/running_time.h","utility/metrics_tools.h"],
 [("two readings of the clock around the call","metrics/running_time.h")],
 ["returned metric value compared with the simulated clock"]))
L.append(p("C14","Counting metrics report exactly what happened",
 "The comparisons, projections and moves metrics (alone or combined with others), and the counting adapter, return precisely the number of comparisons, projections and moves that took place during the call, on every path the sort takes, and the collection ends up as the measured sorter alone would leave it. Arguments, results and exceptions pass through them unchanged.",
 ["inputs","fault_sequences"],"for every metric and sorter it wraps, every input, and every amount of memory granted",
 "The tests compare a few counts on fixed inputs with memory available; copies of the counting wrappers on rarely taken paths can lose or duplicate counts.",
 ["metrics/comparisons.h","metrics/projections.h","metrics/moves.h","adapters/counting_adapter.h","detail/comparison_counter.h","utility/metrics_tools.h"],
 [("counters shared by reference between copies of the function object","detail/comparison_counter.h")],
 ["returned counts compared with the recorded events"]))
L.append(p("C15","Measures of presortedness return their defined value",
 "Each measure of presortedness returns exactly the value its definition gives for the sequence (0 for a sorted one), for every comparison and projection, iterator category and amount of memory, or throws. Running out of memory never changes the value.",
 ["inputs","fault_sequences"],"for every probe, input sequence (with and without equivalent elements), comparison, projection, iterator category and set of refused allocations",
 "Tests check a dozen sequences per probe with all memory available; several probes switch algorithm with the iterator category or with memory.",
 ["probes","detail/count_inversions.h","detail/is_p_sorted.h","detail/longest_non_descending_subsequence.h"],
 [("inversion counting by merging","detail/count_inversions.h"),("longest subsequence","detail/longest_non_descending_subsequence.h")],
 ["returned value compared with a quadratic model of the definition"]))
L.append(p("C16","Worst-case complexity guarantees hold, even against an adversary",
 "A sort documented as O(n log n) (or O(n log² n), or O(n log² n) when memory is short) in the worst case needs a number of comparisons, projections, element moves and iterator steps within that bound. No input degrades it to quadratic behaviour, not even one chosen by an adversary that answers comparisons to hurt it, whatever memory is granted.",
 ["inputs","fault_sequences"],"for every sorter documented with an n log n or n log² n worst case, every size, every input including adversarial ones, and every amount of memory granted",
 "The guarantee is about the worst input, which the fixed distributions of the tests do not contain, and about paths taken without memory.",
 ["detail/pdqsort.h","detail/introselect.h","detail/adaptive_quickselect.h","detail/quicksort.h","detail/quick_merge_sort.h","detail/heapsort.h","detail/timsort.h","detail/inplace_merge.h","detail/symmerge.h"],
 [("bad partition counter with heapsort fallback","detail/pdqsort.h"),("median of medians / introselect depth limit","detail/introselect.h"),("merge collapse invariants","detail/timsort.h")],
 ["numbers of comparisons, projections, moves and iterator steps"]))
L.append(p("C17","Buffered sorts work with a buffer of any size",
 "The sorters that take a buffer provider (block/wiki and grail sort) sort correctly, and stably, whatever number of elements the buffer holds, from none to more than needed. They never access the buffer outside of its bounds and never read elements they did not put there.",
 ["inputs","configurations","fault_sequences"],"for every buffer size, buffer provider, input and fault",
 "Tests use the default providers with one or two sizes; the algorithms behave differently for every relation between the buffer size and the block sizes.",
 ["sorters/wiki_sorter.h","sorters/grail_sorter.h","detail/wiki_sort.h","detail/grail_sort.h","utility/buffer.h"],
 [("size checks before cached merges","detail/wiki_sort.h"),("key collection and block size adjustment","detail/grail_sort.h")],
 ["accesses to the buffer","contents of the collection after the call"]))
L.append(p("C18","No access outside the collection and the library's own memory",
 "The library only dereferences iterators inside the range it was given and never forms an iterator before its beginning or beyond its end, and only reads or writes memory inside the blocks it allocated and still owns. This holds for every input, every amount of memory granted and every failing callback.",
 ["inputs","fault_sequences"],"for every operation, iterator category, input and fault sequence",
 "An access one past the end is harmless in most test runs; it needs a checking iterator and guarded memory on the one input, size and memory condition that triggers it.",
 ["detail/spinsort.h","detail/timsort.h","detail/pdqsort.h","detail/grail_sort.h","detail/wiki_sort.h","detail/recmerge_forward.h","detail/poplar_sort.h","detail/smoothsort.h","detail/ska_sort.h","detail/memory.h"],
 [("unguarded loops run only when a sentinel exists","detail/pdqsort.h"),("bounds derived from the granted buffer size","detail/memory.h")],
 ["iterator operations","guard bytes around every block"]))
L.append(p("C19","The Schwartzian adapter projects each element exactly once",
 "A sort through schwartz_adapter applies the projection exactly once to each element of the collection before comparing anything, whatever the input, the wrapped sorter and the memory granted (never more than once when something fails). The comparisons see the results of those projections, and the elements end up sorted by them.",
 ["inputs","fault_sequences"],"for every sorter wrapped in the adapter, every input, and every fault",
 "Tests check the order only; projecting again on some path leaves the result right and costs what the adapter exists to save.",
 ["adapters/schwartz_adapter.h","detail/associate_iterator.h","detail/schwartz_small_array.h"],
 [("projected values stored next to the iterators","detail/associate_iterator.h")],
 ["projection events per element"]))
L.append(p("C20","Memory use stays within the documented bounds",
 "The memory a sort allocates at any moment, plus the stack it uses, grows no faster than its documented space complexity: constant for the in-place sorts, logarithmic for the recursive ones and linear for the others. No input, amount of memory granted or exception makes it exceed that bound.",
 ["inputs","fault_sequences"],"for every sorter, size, input including adversarial ones, and fault sequence",
 "Tests do not measure memory; recursing into the wrong half or keeping buffers alive shows only for particular inputs.",
 ["detail/quicksort.h","detail/pdqsort.h","detail/memory.h","detail/wiki_sort.h","detail/grail_sort.h","detail/merge_insertion_sort.h","detail/melsort.h","detail/stable_partition.h"],
 [("recursion into the smaller part","detail/quicksort.h"),("fixed-size cache","sorters/wiki_sorter.h")],
 ["peak of live allocated bytes","depth of the stack at callbacks and allocations"]))
L.append(p("C21","Proxy iterators are moved and read only through their own operations",
 "Sorting a range whose iterators return proxy objects moves and swaps elements only through the iter_move and iter_swap that belong to the iterator (and assignments from their results), and never uses a proxy object after its lifetime. The result is sorted (stably for the stable sorts) and holds the same elements, whatever memory is granted.",
 ["inputs","fault_sequences","programs"],"for every sorter and adapter that accepts proxy iterators, every iterator category, input and fault sequence",
 "The tests have almost no proxy iterators beyond those the adapters use themselves, and a dangling proxy often still reads the right memory.",
 ["utility/iter_move.h","detail/move.h","detail/reverse.h","detail/rotate.h","detail/swap_ranges.h","detail/quicksort.h","detail/slabsort.h","detail/merge_sort.h","detail/grail_sort.h"],
 [("iter_move / iter_swap customization points","utility/iter_move.h"),("detail::move and friends","detail/move.h")],
 ["operations of the proxy references","contents after the call"]))
L.append(p("C22","Sorting with the library's comparators gives the documented order",
 "Sorting with a comparator of the library (total, weak and partial less and greater, natural_less, case_insensitive_less with the global or an explicit locale, and flip, not_fn and projection_compare around them) gives the order documented for it on every value, signed zeros, infinities, NaNs and mixed-case text included. A call sorts with the locale in force when it started, even if the global locale changes meanwhile, and gives its locales back. Refused memory, throwing projections and throwing facets end in that result or in the exception.",
 ["inputs","fault_sequences","histories"],"for every comparator, every collection of values, every moment at which the global locale changes, every refused allocation and every callback that throws",
 "The tests compare a handful of pairs of values and never change the locale or fail during a sort; a comparator that is not a strict weak order goes wrong only for some triples of values met in some order.",
 ["comparators/total_less.h","comparators/weak_less.h","comparators/partial_less.h","comparators/natural_less.h","comparators/case_insensitive_less.h","comparators/flip.h","comparators/not_fn.h","comparators/projection_compare.h","refined.h"],
 [("tag-dispatched comparison functions","comparators/total_less.h"),("refined comparator that keeps a locale and a facet","comparators/case_insensitive_less.h"),("refinement of comparators by sorters","refined.h")],
 ["contents of the collection after the call","result of comparisons"]))
L.append(p("C23","Radix-like sorts order every supported value like less-than",
 "The sorts that look at the representation of keys instead of comparing them (counting, ska and the spread sorts) leave every collection of the integer, character, floating point, string and compound keys they accept ordered as the less-than relation orders them, or as greater-than when that was asked for. Negative values, limits of the types, zeros of both signs, common prefixes and keys that are prefixes of others are no exception. Refused memory and throwing projections end in that result or in the exception.",
 ["inputs","fault_sequences"],"for every key type that the documentation lists, every collection of keys of every size, every refused allocation and every projection that throws",
 "The fall-back for small collections compares keys, so only large collections with the right corner-case values, prefixes and partition sizes reach the code that relies on representations.",
 ["detail/ska_sort.h","detail/counting_sort.h","detail/spreadsort/integer_sort.h","detail/spreadsort/float_sort.h","detail/spreadsort/string_sort.h"],
 [("order-preserving conversions of keys to unsigned integers","detail/ska_sort.h"),("common prefix of lists and recursion on their elements","detail/ska_sort.h"),("counting of occurrences from minimum to maximum","detail/counting_sort.h")],
 ["contents of the collection after the call"]))
L.append(p("C24","Adaptive sorts take linear time on inputs that are nearly sorted",
 "The sorts documented with a linear best case need a number of comparisons, element moves and iterator steps proportional to the number of elements on the inputs they take advantage of, however large: sorted or constant collections (strictly sorted ones for the quicksorts), reversed ones and a few long runs for the run-adaptive sorts, a few displaced elements for the Rem-adaptive ones, a few encroaching lists for the Enc-adaptive ones. Refused memory does not take this from the sorted, constant and reversed collections.",
 ["inputs","fault_sequences"],"for every sort with a documented linear best case, every size, every nearly sorted input of the documented kind and every pattern of refused allocations",
 "Tests check that presorted inputs come out sorted, never what that costs; an algorithm that stops recognizing presortedness passes them all.",
 ["detail/timsort.h","sorters/adaptive_shivers_sorter.h","detail/vergesort.h","detail/drop_merge_sort.h","detail/split_sort.h","detail/pdqsort.h","detail/spinsort.h","detail/wiki_sort.h","detail/melsort.h","detail/slabsort.h","detail/cartesian_tree_sort.h","detail/smoothsort.h","detail/splaysort.h","detail/container_aware/insertion_sort.h"],
 [("detection of runs and galloping merges","detail/timsort.h"),("detection of already partitioned collections","detail/pdqsort.h"),("run detection before falling back","detail/vergesort.h"),("dropped elements and backtracking","detail/drop_merge_sort.h")],
 ["numbers of comparisons, moves and iterator steps"]))
L.append(p("C25","Measures and sorted views cost no more than documented",
 "Every measure of presortedness, sorted_indices and sorted_iterators need comparisons, projections and iterator steps within their documented complexity on every input and for every category of iterators: linear for Mono, Runs and the buffered Dis, quadratic for Osc without memory, n log n for all others. The extra memory they use is at most proportional to the number of elements, and none for Mono and Runs. Refusing them memory does not change this, when it does not make them throw.",
 ["inputs","fault_sequences"],"for every measure, every category of iterators, every input including adversarial ones, and every pattern of refused allocations",
 "Tests compare values on short collections; a measure that became quadratic would return the same values.",
 ["probes/block.h","probes/dis.h","probes/enc.h","probes/exc.h","probes/ham.h","probes/inv.h","probes/max.h","probes/mono.h","probes/osc.h","probes/rem.h","probes/runs.h","probes/sus.h","utility/sorted_indices.h","utility/sorted_iterators.h"],
 [("cycles of the permutation","probes/exc.h"),("buffered and in-place algorithms","probes/dis.h"),("choice between the n log n and n squared algorithms","probes/osc.h"),("inversions counted while merging","probes/inv.h")],
 ["numbers of comparisons, projections and iterator steps","bytes of heap"]))
L.append(p("C26","Adapters sort with the sorter they were given and hand back its result",
 "An adapter stores a copy of every sorter it is given, with its state, and sorts with those copies. container_aware_adapter, hybrid_adapter, indirect_adapter, out_of_place_adapter, schwartz_adapter, self_sort_adapter, stable_adapter, make_stable and sorter_facade call the adapted sorter exactly once per call, on the whole collection, and return its result; hybrid_adapter calls the one whose iterator category fits best, the first of several; self_sort_adapter calls the method of the collection instead when there is one; container_aware_adapter calls the algorithm written for the container when there is one; sorter_facade calls the overload for ranges with ranges when there is one. The metrics call it once; drop_merge_adapter, split_adapter and verge_adapter call it on parts of the collection that together are no bigger than it. Whatever order the adapted sorter leaves equivalent elements in, the collection comes out sorted with the comparison and projection of the caller, stably where the adapter promises so. When the adapted sorter throws, before, during or after its work, or runs out of memory, the caller gets that exception, and nothing leaks.",
 ["inputs","fault_sequences"],"for every adapted sorter with or without state, every interface it may offer, every way to call the adapter, every input, and every point where the adapted sorter, a callback or an allocation may fail",
 "Tests adapt sorters of the library, which have no state, return nothing, and only fail when a callback does.",
 ["adapters","sorter_facade.h","utility/adapter_storage.h","detail/stable_adapter_hybrid_adapter.h","detail/stable_adapter_self_sort_adapter.h","metrics"],
 [("choice of the sorter","adapters/hybrid_adapter.h"),("overloads that complete calls","sorter_facade.h"),("copies of adapted sorters","utility/adapter_storage.h"),("order of equivalent elements","adapters/stable_adapter.h")],
 ["which sorter was called with which state, how often and on what","value returned","order of the collection","exception that reaches the caller"]))
L.append(p("C27","Fixed-size sorters do exactly what their networks and tables say",
 "Every sorting network compares the same pairs of positions in the same order (that of disjoint pairs aside) whatever the input, the comparison and the projection: those that its index_pairs publishes, as many as documented. These compare-exchanges sort every sequence of their size, whether run by the sorter, swap_index_pairs or swap_index_pairs_force_unroll; a callback that throws ends the sequence there, and its exception reaches the caller. low_comparisons_sorter and low_moves_sorter sort every order with no more comparisons and moves in all than the documented weights.",
 ["inputs","fault_sequences"],"for every size, every input, and every call of a callback that may throw",
 "Tests sort some shuffled collections of each size and look at the index pairs of one size; a network that lacks a compare-exchange, or publishes another than it runs, sorts most of them.",
 ["fixed","utility/sorting_networks.h","detail/sorting_network","detail/low_comparisons","detail/low_moves"],
 [("hard-coded networks and index pairs","detail/sorting_network"),("generated networks","fixed/merge_exchange_network_sorter.h"),("execution of index pairs","utility/sorting_networks.h")],
 ["positions compared, in order","order of the collection","numbers of comparisons and moves"]))
L.append(p("C28","Objects are created only where their alignment allows",
 "Every element and projected key that the library creates, moves or hands to a comparison lies at an address suitable for its type, types with a bigger alignment than operator new guarantees included (such as those of vector instructions), whatever addresses the heap gives out. Their memory is given back with the matching deallocation function. Collections of such elements, and keys, are sorted like any other, whatever memory is refused and whatever callback throws.",
 ["inputs","fault_sequences","configurations"],"for every address the heap may return, every sequence of refused allocations and thrown exceptions",
 "Tests sort no over-aligned type, and a heap that happens to return aligned addresses hides the error.",
 ["detail/memory.h","detail/immovable_vector.h","detail/fixed_size_list.h","detail/spinsort.h","detail/timsort.h","utility/buffer.h","detail/associate_iterator.h"],
 [("allocation of raw storage","detail/memory.h"),("node pool","detail/fixed_size_list.h")],
 ["addresses of elements and keys","allocation and deallocation functions called"]))
# not applicable to this family
L.append(p("N02","Sorter traits describe every sorter for every type",
 "Sorter traits, is_stable, rebinding and the fixed sorter traits yield, at compile time, the properties that the documentation prescribes for each combination of sorter, iterator category, size and callables.",
 ["programs"],"for every combination of types","The set of programs is unbounded; tests instantiate some.",["adapters/hybrid_adapter.h","adapters/self_sort_adapter.h","sorter_traits.h"],[("SFINAE overload sets","adapters/hybrid_adapter.h")],["type of the selected overload"]))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import os
with open(ROOT+'/properties.jsonl','w') as f:
    for d in L:
        jsonschema.validate(d,S); assert len(d["title"])<=80,(d["id"],len(d["title"]))
        n=d["statement"].count(". ")+1; 
        if n>3: print("statement",d["id"],n)
        for x in d["anchors"]["files"]+[m["where"] for m in d["anchors"]["mechanism"]]:
            if not os.path.exists('/repo/'+x): print("missing",d["id"],x)
        f.write(json.dumps(d)+"\n")
print(len(L))
