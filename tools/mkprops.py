import json
P=[]
def p(id,title,st,over,qt,why,files,mech,**kw):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=dict(files=files,mechanism=mech))
    d['anchors'].update(kw); P.append(d)
T='ttl/'
p("P01","Ordered set and map hold exactly what their history says",
 "After any sequence of insertions, removals and clears, a set or map contains exactly the keys that were inserted and not removed since, each once. Inserting a key already present changes nothing and reports the existing element; removing an absent key changes nothing and reports that nothing was removed.",
 ["histories","inputs"],"Every operation sequence over arbitrary keys (all relative orders and duplicates) and any strict ordering.",
 "Which rotations and colour changes happen depends on the relative order of all keys and on the removal order; the tests run a few fixed sequences out of factorially many.",
 [T+"rbtree.hpp",T+"set.hpp",T+"map.hpp"],["rbtree::insert_unique","rbtree::remove","set::insert/erase/clear","map::insert/erase/clear"])
p("P02","Ordered lookups agree with the sorted contents for every probe key",
 "For any contents and any probe key, present or absent, find, count, lower bound, upper bound and equal range of the ordered set and map return the position a sorted sequence of the contents would give. Lookups never modify the container.",
 ["histories","inputs"],"All reachable contents and all probe keys: below, between, equal to and above the stored ones.",
 "The answer for absent keys depends on where the search path ends in the particular tree shape; tests probe a handful of keys on one shape.",
 [T+"set.hpp",T+"map.hpp",T+"rbtree.hpp"],["set::lower_bound/upper_bound/equal_range/find/count","map::lower_bound/upper_bound/equal_range/find/count","rbtree::lower_bound/upper_bound/find"])
p("P03","Iteration over ordered containers is sorted, complete and reversible",
 "In any reachable state, walking a set or map from begin to end visits every element exactly once in strictly increasing key order, and walking back from end visits the same elements in reverse. Insertions and removals of other keys leave iterators and references to an element valid and pointing to the same element.",
 ["histories","inputs"],"Every history of insertions and removals, every position in the resulting order.",
 "Successor/predecessor links are only exercised through the shapes a history produces; a broken parent link shows only for some shapes and positions.",
 [T+"rbtree.hpp",T+"set.hpp",T+"map.hpp"],["rbtree_base::next_node/prev_node/min_node/max_node","iterator ++/-- of set and map","rbtree::remove relinking"])
p("P04","Ordered containers stay balanced: lookups take logarithmic comparisons",
 "After any sequence of insertions and removals, successful or not, finding, inserting or locating any key in a tree container of n elements uses at most about 2*log2(n+1) node visits. No removal, including one of an absent key, degrades that bound.",
 ["histories","inputs"],"Every history within bounds, measured by counting ordering-predicate calls for every probe.",
 "Results stay correct on a degenerate tree, so no functional test notices; only shapes reached by particular removal orders lose balance.",
 [T+"rbtree.hpp"],["rbtree_base::insert_rebalance/fixup/move_left/move_right/delete_min","rbtree::remove"])
p("P05","Tree with equal keys keeps duplicates, their order and their count",
 "A tree filled through the duplicate-accepting insertion keeps every element, iterates them in non-decreasing key order with equal keys in insertion order, and count, lower/upper bound and equal range cover exactly the elements equal to the probe. Removing a key takes out exactly one element with that key and leaves all others in place.",
 ["histories","inputs"],"All insertion/removal sequences with any pattern of equal keys.",
 "Rotations spread equal keys over both subtrees, so errors need particular duplicate patterns.",
 [T+"rbtree.hpp"],["rbtree::insert_equal","rbtree::count","rbtree::equal_range","rbtree::remove"])
p("P06","Copies of ordered containers are deep, equal and independent",
 "Copy construction and assignment of a set, map or tree give a container with equal contents, and any later change to one is never visible in the other; assigning a container to itself changes nothing. The copy is fully functional: it can be iterated, searched, extended and reduced like the original.",
 ["histories","inputs"],"All source contents, all previous target contents, all follow-up operations.",
 "A wrong parent link or colour in the copy matters only for later operations on particular shapes.",
 [T+"rbtree.hpp",T+"set.hpp",T+"map.hpp"],["rbtree::assign/preorder_copy","operator= and copy constructors of set and map"])
p("P07","Map associates each key with the value last stored for it",
 "Reading a key through subscript, at, find or iteration yields the value most recently stored for that key; subscript on an absent key inserts a default value, and inserting an existing key never overwrites its value. Operations on one key never change the value of another.",
 ["histories","inputs"],"Arbitrary interleavings of subscript, insert, assignment through references and erase over arbitrary keys.",
 "Mix-ups need a key order that moves nodes between a store and the read.",
 [T+"map.hpp",T+"rbtree.hpp"],["map::operator[]/at/insert/find/erase"])
p("P08","Vector behaves as a sequence under any editing history",
 "For every sequence of push, pop, insert (single, counted, range), erase, resize, assign and clear with valid positions, a vector holds exactly the elements, in the order, that the same edits give on an abstract sequence. Returned positions designate the inserted or following element.",
 ["histories","inputs"],"All positions, counts and sizes in bounds, with and without reallocation.",
 "Shifting in place versus reallocating depends on size, capacity, position and count together; tests fix a few combinations.",
 [T+"vector.hpp"],["vector::insert_values","vector::erase","vector::resize/assign/reserve"])
p("P09","Vector capacity promises: storage stable until capacity is exceeded",
 "After reserve(n) the capacity is at least n and contents are unchanged; as long as size stays within capacity no allocation or move of existing earlier elements happens. Size never exceeds capacity and elements are contiguous; capacity never shrinks except by swap.",
 ["histories","inputs"],"All sizes, reserve arguments and edit sequences in bounds.",
 "A stray reallocation leaves values right; only references and allocation counts show it.",
 [T+"vector.hpp"],["vector::reserve","vector::push_back","vector::insert_values","vector::operator="])
p("P10","Fixed-capacity vector never exceeds its capacity",
 "Whatever edits are requested, a fixed-capacity vector never holds more than its capacity and never touches memory outside itself or allocates. While the result fits it equals the abstract sequence; when it does not, exactly the elements that fit are kept and no existing leading element is corrupted.",
 ["histories","inputs"],"All sizes from empty to full, all positions, all counts including ones far larger than the capacity.",
 "Needs the combination of nearly full storage, position and oversized count; overflow by one lands in neighbouring memory unnoticed.",
 [T+"fixed_vector.hpp"],["fixed_vector::insert_values","fixed_vector::push_back","fixed_vector::resize/assign","fixed_vector::erase/swap"])
p("P11","Inserting an element of the container into itself is safe",
 "Passing a reference to one of the container's own elements to push_back, insert, resize or fill inserts the value the element had before the call, at every position and whether or not storage is reallocated. Removing by a value that aliases an element removes exactly the equal elements.",
 ["inputs","histories"],"All sizes, capacities, positions and source elements.",
 "Visible only when the source lies behind the insertion point or is released mid-operation.",
 [T+"vector.hpp",T+"fixed_vector.hpp",T+"list.hpp"],["vector::insert_values","fixed_vector::insert_values","list::remove","list::insert"])
p("P12","Doubly linked list edits match the abstract sequence both ways",
 "After any sequence of pushes, pops, inserts, erases, resizes, assigns and clears, a list read forward equals the abstract sequence and read backward equals its reverse; size, empty, front and back agree. A cleared or emptied list is as usable as a new one.",
 ["histories","inputs"],"All edit sequences and positions in bounds, values arbitrary.",
 "A stale back link or sentinel link only shows after a specific follow-up operation.",
 [T+"list.hpp"],["list_node insert/remove primitives","list::insert/erase/clear/resize/assign/push/pop"])
p("P13","List splice, merge, unique, remove and reverse only relink",
 "Splicing, merging, reversing, removing and deduplicating lists give the sequence their definition gives (merge stable), move elements between lists without copying, losing or duplicating any, and leave the source lists valid. This holds for empty, single-element and boundary ranges.",
 ["histories","inputs"],"All list lengths in bounds, all source ranges and target positions, all value orders and predicates.",
 "Boundary coincidences (empty range, range ending at target, self) corrupt links silently.",
 [T+"list.hpp"],["list::splice (3 forms)","list::merge","list::unique","list::remove/remove_if","list::reverse","list_node_base splice helpers"])
p("P14","Singly linked forward list matches the abstract sequence",
 "After any sequence of front pushes and pops, insert-after, erase-after, splice-after, reverse, assign and clear with valid positions, the forward list contains exactly the abstract sequence. Splicing moves exactly the designated elements, including for empty sources.",
 ["histories","inputs"],"All sequences, positions and ranges in bounds.",
 "Off-by-one in after-position ranges shows only at particular boundaries.",
 [T+"forward_list.hpp",T+"slist_node.hpp"],["forward_list::insert_after/erase_after/splice_after/reverse","slist_node link helpers"])
p("P15","Backward list keeps order and its tail under any history",
 "A singly linked list with tail insertion contains exactly the abstract sequence after any mix of front/back pushes, front pops, insert-after, erase-after, reverse, swap, assign and clear. The next back insertion always lands at the end, whatever happened to the last element before.",
 ["histories","inputs"],"All operation sequences in bounds, notably those removing or moving the last element.",
 "A stale tail is invisible until a later push_back or empty test.",
 [T+"backward_list.hpp",T+"slist_node.hpp"],["backward_list tail_ maintenance in insert_after/erase_after/pop_front/reverse/swap"])
p("P16","Lazy queue is FIFO and recycles nodes without losing or reviving elements",
 "Under any mix of back/front pushes, front pops and clears, a lazy queue yields elements in queue order; popped nodes are reused by later pushes before new memory is taken, and cleanup releases only unused nodes. A recycled node never exposes an old element and never leads to destroying an element twice.",
 ["histories","inputs"],"All interleavings of push, pop, cleanup, clear, copy and swap in bounds.",
 "Pool boundary handling depends on the interleaving; double destruction is silent for trivial types.",
 [T+"lazy_queue.hpp",T+"slist_node.hpp"],["lazy_queue::push_back/pop_front/cleanup/clear","dead-node pool between tail and end"])
p("P17","Unsorted vector map is a correct key-value association",
 "A vector-based map accepts arbitrary insertions and lookups and behaves as a unique-key association: find, count, at and subscript return the value stored for that key, absent keys are reported absent, and every call terminates.",
 ["histories","inputs"],"All key patterns including duplicates and absent probes.",
 "Non-termination or wrong answers appear only for certain present/absent patterns.",
 [T+"vector_map.hpp"],["vector_map::insert/find/count/operator[]"])
p("P18","Sorted vector map keeps keys unique, sorted and searchable",
 "After any sequence of insertions, subscripts and clears the sorted vector map iterates in strictly increasing key order with exactly the inserted keys and their values, growing its storage safely from any initial capacity. find, count, lower/upper bound and equal range agree with the sorted contents for every probe key.",
 ["histories","inputs"],"All insertion orders, probe keys and initial capacities in bounds.",
 "Growth boundaries and binary-search edge cases depend on size and probe position.",
 [T+"sorted_vector_map.hpp"],["sorted_vector_map::insert","lower_bound/upper_bound/find/count/equal_range","storage growth"])
p("P19","Bitset single-bit operations and queries are exact",
 "For every bitset width and every position inside it, set, reset, flip, test and subscript affect and report exactly that bit, and count, any, none, all, size reflect exactly the bits below the width. Writing through a subscript reference changes only its own bit, and testing a position beyond the width reads zero.",
 ["inputs","histories"],"All bit contents, positions and values; widths below, at and above machine-word multiples.",
 "2^N contents; word-boundary masks fail for a few positions only.",
 [T+"bitset.hpp"],["bitset::set/reset/flip/test/operator[]","bitset::reference","bitset::count/any/none/all"])
p("P20","Bitset logic, shifts and comparison act on the exact bit vector",
 "For all contents, and, or, xor, complement, left and right shift by any amount (including zero, word multiples and beyond the width) and (in)equality give the mathematically defined bit vector. Bits outside the width never influence a result.",
 ["inputs"],"All contents of both operands, all shift amounts, several widths.",
 "Cross-word carries and stray high bits depend on specific contents and amounts.",
 [T+"bitset.hpp"],["bitset::operator&= |= ^= ~ <<= >>=","bitset::operator==","base storage unused-bit handling"])
p("P21","Bitset conversions from integers, strings and other widths are exact",
 "Constructing a bitset from any integer, character string or differently sized bitset keeps exactly the bits that fit and zeroes the rest, never writing outside the object; conversion back to an integer returns the same bits. Of a string longer than the width the first characters count.",
 ["inputs"],"All integers, all 0/1 strings up to lengths beyond the width, all source/target widths tried.",
 "Truncation and stray-bit cases need over-long or dirty sources.",
 [T+"bitset.hpp"],["bitset constructors","bitset::to_ulong/to_ullong"])
p("P22","Searching algorithms return the first (or exact) match",
 "find, find_if(_not), all/any/none_of, count(_if), mismatch, equal, adjacent_find, search and search_n, with and without a predicate, return exactly the position or count their definition gives for every range, value and predicate, evaluate only elements inside the ranges and do not modify them.",
 ["inputs"],"All range lengths in bounds, all contents, arbitrary predicates (any truth table).",
 "Overlapping partial matches and empty or too-long patterns are rarely sampled.",
 [T+"algorithm.hpp"],["non-modifying sequence operations"])
p("P23","Modifying algorithms produce exactly the defined output range",
 "copy (forward, backward, counted, conditional), fill, generate, transform, replace, remove, swap_ranges and reverse with their copying and predicate forms write exactly the defined elements to exactly the defined places and return the end of what they wrote. Nothing outside the given ranges is read or written.",
 ["inputs"],"All lengths in bounds, all contents and predicates, legal overlaps.",
 "One-element and empty ranges, overlaps and runs of equal elements hide off-by-one errors.",
 [T+"algorithm.hpp",T+"numeric.hpp"],["modifying sequence operations","iota/accumulate"])
p("P24","Binary searches find the partition point of any sorted range",
 "lower_bound, upper_bound, equal_range and binary_search on a range ordered by the given comparison return exactly the partition point, with logarithmically many comparisons and without touching elements outside the range.",
 ["inputs"],"All sorted contents with any duplicate pattern, all probes, custom orderings, lengths in bounds.",
 "Halving arithmetic errs only for particular length/position pairs.",
 [T+"algorithm.hpp"],["lower_bound/upper_bound/equal_range/binary_search"])
p("P25","Merging, ordering and extremum algorithms honour the given order",
 "merge is a stable interleaving of two sorted ranges; is_sorted(_until), min, max, minmax and min/max/minmax_element return what the ordering defines, choosing the documented element among equivalents.",
 ["inputs"],"All lengths in bounds, all contents with ties, custom comparators where accepted.",
 "Ties and custom comparators are where the wrong element is picked.",
 [T+"algorithm.hpp"],["merge","min/max families","is_sorted family"])
p("P26","Contiguous containers construct and destroy every element exactly once",
 "Through any history, vector, fixed vector and the vector-based maps construct each element once in raw storage before use, destroy it once, never use it outside that span, and release all memory at the end. No operation reads or writes outside live storage.",
 ["histories","inputs"],"All edit histories in bounds with lifetime-tracked elements.",
 "Tests use mostly trivial types, where a missed or doubled destruction is invisible.",
 [T+"vector.hpp",T+"fixed_vector.hpp",T+"vector_map.hpp",T+"sorted_vector_map.hpp"],["placement construction and explicit destruction in insert_values/erase/reserve/clear"])
p("P27","Node containers construct, destroy and free every element exactly once",
 "Through any history, the linked lists, the lazy queue and the tree containers construct each stored element once, destroy it once, free every node they allocated with the matching operation, and never touch a freed node.",
 ["histories","inputs"],"All edit histories in bounds with lifetime-tracked elements.",
 "Leaks and use after free are silent in plain test runs.",
 [T+"list.hpp",T+"forward_list.hpp",T+"backward_list.hpp",T+"lazy_queue.hpp",T+"rbtree.hpp",T+"set.hpp",T+"map.hpp"],["node allocation/release in insert/erase/clear/destructors"])
p("P28","Swapping exchanges complete contents of two containers",
 "Swapping any two containers of the same kind, whatever their sizes including empty, exchanges their contents exactly, and both remain fully usable afterwards; swapping twice restores the original.",
 ["histories","inputs"],"All pairs of sizes in bounds with arbitrary values and a follow-up operation on each side.",
 "Sentinel and tail pointers of empty containers only fail for empty/non-empty combinations followed by more operations.",
 [T+"vector.hpp",T+"fixed_vector.hpp",T+"list.hpp",T+"forward_list.hpp",T+"backward_list.hpp",T+"lazy_queue.hpp",T+"array.hpp"],["swap members"])
p("P29","Copying a sequence container gives an equal, independent one",
 "Copy construction, range construction and assignment of vectors, fixed vectors, lists and queues reproduce the source contents exactly whatever the target held before, and later changes to either never affect the other. Assigning a container to itself leaves it unchanged.",
 ["histories","inputs"],"All source and target sizes in bounds, follow-up edits on both.",
 "Shared nodes or stale tails show only after a follow-up edit.",
 [T+"vector.hpp",T+"fixed_vector.hpp",T+"list.hpp",T+"forward_list.hpp",T+"backward_list.hpp",T+"lazy_queue.hpp"],["copy constructors","operator=","assign"])
p("P30","Equality comparison means same length and equal elements",
 "Two containers compare equal exactly when they have the same number of elements and corresponding elements are equal, and inequality is its negation, for any sizes including when one is a prefix of the other. Comparing never reads outside either container.",
 ["inputs"],"All pairs of sizes in bounds and all contents.",
 "Prefix and unequal-length pairs are rarely sampled.",
 [T+"algorithm.hpp",T+"vector.hpp",T+"fixed_vector.hpp",T+"list.hpp",T+"forward_list.hpp",T+"array.hpp",T+"bitset.hpp",T+"utility.hpp"],["operator== / operator!=","equal"])
p("P31","Pairs, arrays, swap and value helpers preserve values",
 "Pairs and fixed arrays store, copy, compare, swap, fill and index exactly the values given, element swaps exchange both values, and the integer sequence and sum helpers compute the defined results for all in-range inputs.",
 ["inputs"],"All values; array sizes including one and zero-length ranges.",
 "Wrong member or index order needs distinct values in every position.",
 [T+"utility.hpp",T+"array.hpp",T+"numeric.hpp",T+"functional.hpp"],["pair","array","swap","iota/accumulate","less/greater/equal_to"])
p("P32","Compile-time type queries classify types correctly",
 "The type classification and transformation helpers give the standard answer for every type.",
 ["programs"],"All types.",
 "The domain is all C++ types; a test names only some.",
 [T+"type_traits.hpp"],["type trait templates"])
p("P33","Elements of node-based containers stay where they are",
 "Editing a list, forward list, backward list, lazy queue, set or map leaves every element that the edit does not remove at its address with its value: such elements are not copied, assigned or destroyed, and iterators and references to them stay valid, also across splicing, merging, swapping, reversing, resizing and removing by condition, when they go along into the other container or position.",
 ["histories","inputs"],"All sizes, positions and counts in bounds and all element values; one edit, then another of the second container; every other element watched.",
 "Tests look at values only; an element replaced by an equal copy, or a stale iterator, is invisible to them.",
 [T+"list.hpp",T+"forward_list.hpp",T+"backward_list.hpp",T+"lazy_queue.hpp",T+"rbtree.hpp",T+"set.hpp",T+"map.hpp"],["node relinking in insert/erase/splice/merge/swap/reverse/resize/unique/remove","rbtree::remove","lazy_queue::roll_head/cleanup"])
p("P34","Algorithms apply operations exactly as often as needed",
 "Algorithms and list operations taking a function, predicate or comparison apply it exactly once to each element (or pair of neighbours or counterparts) they have to examine and to none beyond the deciding one; searches for a pattern, extrema and merging stay within the number of comparisons their definition needs; copying and filling write every place once.",
 ["inputs"],"All values and lengths in bounds, arbitrary predicates; every application recorded with the identity of its arguments.",
 "Results stay right when a predicate is asked twice or too far; only stateful functions and counts show it.",
 [T+"algorithm.hpp",T+"list.hpp"],["find/find_if/all_of/any_of/none_of/count/count_if","copy_if/remove_if/replace_if/transform/for_each","equal/mismatch/adjacent_find/search/search_n","min/max/minmax_element/merge","list::merge/unique/remove"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: 
        assert len(d['title'])<=80,d['id']
        f.write(json.dumps(d)+'\n')
import sys; print(len(P))
