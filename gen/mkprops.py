#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=observe, hook_needed=hook)))
AVL, AVS, BT, BTS, CORE, FIX, LIB, STK = ("src/avl.rs","src/avl/avl_set.rs","src/btree.rs",
  "src/btree/btree_set.rs","src/btree/core.rs","src/btree/fixed.rs","src/lib.rs","src/stack.rs")
MAPSTATE = [("root","the (possibly shared) tree of entries", AVL+":231, "+BT+":547"),
            ("len","number of entries the map reports", AVL+":231, "+BT+":547")]

p("C01","Map point operations behave like a sorted dictionary",
 "For AvlMap and BTreeMap (any minimum node size), starting from any reachable map, every sequence of insert, get, get_key_value, contains_key, get_mut, remove, remove_entry, pop_first, pop_last, first_key_value, last_key_value, indexing, len, is_empty and clear returns exactly what a dictionary sorted by key would return, and leaves exactly the entries that dictionary would hold. In particular an insert over an existing key returns the old value and keeps the length, a miss changes nothing, indexing panics only for an absent key, and the keys stay strictly increasing (which of two equal keys is stored after an overwriting insert is left open).",
 ["histories","inputs"], "all finite operation histories over all keys and values, for every tree shape they can produce and every minimum node size N>=1",
 "Rebalancing has many shape-dependent branches (single/double rotations, rotations during deletion at several levels, node splits, merges, borrow-left/right at inner and leaf nodes, one-sided nodes at small N); a sampled set of insert/remove sequences on 16-bit keys reaches only some shape/operation pairs.",
 [AVL,BT,LIB], [("insert with rebalancing","src/avl.rs ins, rotations; src/btree.rs Node::ins, split"),("removal with rebalancing","src/avl.rs rm, rm_leftmost, rm_rightmost; src/btree.rs Node::rm, rebal")],
 MAPSTATE, ["return value of every point operation","full iteration of the map after every operation"])

p("C02","Clones are isolated: an operation on one handle never shows through another",
 "After any number of clones of a collection (maps, sets, stacks), any operation on one handle - insertions, removals, mutation through references or mutable iterators, bulk operations, consuming it, clearing it or dropping it - leaves the observable contents, order and length of every other live handle unchanged. This includes handles that share storage with an operand of a bulk operation and iterators that already own a consumed clone. A clone initially equals its original.",
 ["histories"], "all histories of clone/mutate/drop over any number of handles, for every pattern of partially shared storage",
 "The bug needs a specific partially shared configuration (a node uniquely owned above a shared one, a rotation that pulls a shared sibling, a bulk operation that takes apart a tree still used elsewhere); the tests observe one clone at a time, mostly after whole-map copies.",
 [AVL,AVS,BT,BTS,CORE,FIX,STK], [("copy-on-write of shared nodes","Arc::make_mut / Arc::try_unwrap / Arc::get_mut uses in src/avl.rs, src/btree.rs, src/btree/core.rs; Rc uses in src/stack.rs")],
 [("sharing","which nodes are referenced by more than one handle","Arc/Rc strong counts in the node links")], ["full contents of every live handle after every operation on any handle"])

p("C03","Bulk map operations obey their algebra and precedence",
 "append, extend, collecting or converting from a list, split_off, retain, clear, and AvlMap's union, intersection, difference, symmetric difference and join of whole maps produce exactly the entries their definition gives: on keys present on both sides append, extend and union take the right-hand value and intersection the left-hand entry; append empties its argument; split_off moves exactly the keys at or after the split key; retain evaluates its predicate exactly once per entry and keeps exactly the accepted entries with the predicate's mutations. The results are valid maps on which every later operation works, whatever the sizes, shapes, overlap and sharing of the operands.",
 ["inputs","histories"], "all pairs of maps (sizes, shapes, key overlap patterns, sharing between operands, including a map and its own clone), all split keys, all predicates",
 "The recursive merge/split/join code handles size-mismatched trees, empty sides, and shared subtrees by different branches, and an error often shows only in a later operation on the result; tests use a few random pairs.",
 [AVL,BT,LIB], [("join/split/merge","src/avl.rs join, join2, split, Merger"),("retain","src/avl.rs retain, src/btree.rs retain"),("append/split_off","src/btree.rs append, split_off")],
 MAPSTATE, ["contents and length of result and operands","sequence of predicate calls"])

p("C04","Every iterator yields each entry exactly once, in order, from both ends",
 "Every iterator over a map, set or stack (by reference, mutable, consuming, keys, values, into_keys, into_values) yields exactly the collection's entries in ascending key order (stack: top to bottom), each exactly once, under every interleaving of next and next_back where it is double-ended, and keeps returning None once exhausted. Where it reports an exact length, the length and the size hint equal the number of entries still to come at every step. A consuming iterator is unaffected by later changes to clones of what it consumed, and dropping it early releases the rest.",
 ["inputs","histories"], "all collections (every tree shape and sharing state) and all interleavings of front, back and length calls, including calls after exhaustion",
 "The double-ended traversals keep a work list of partly expanded nodes; errors need the two ends to meet inside a particular node or subtree, which depends on both the shape and the exact front/back pattern.",
 [AVL,AVS,BT,BTS,STK,LIB], [("work-list traversal","src/avl.rs InnerIter, src/btree.rs InnerIter/BorrowedNodeIter/IntoNodeIter, src/stack.rs Iter"),("exact length","ExactSizeIterator impls")],
 [("pending work","nodes not yet visited from either end","InnerIter fields in src/avl.rs, src/btree.rs")], ["every yielded item, in order","len and size_hint at every step"])

p("C05","Range iteration visits exactly the entries between its bounds",
 "range and range_mut on maps, and range on sets, with any combination of included, excluded and unbounded ends yield exactly the entries whose keys satisfy both bounds, in ascending order, under any interleaving of front and back steps, and mutation through range_mut reaches exactly the yielded entries. BTreeMap and BTreeSet panic when the start lies after the end, and a range that excludes the same key at both ends may panic as in std; no other range panics, and an inverted range never yields an entry.",
 ["inputs"], "all maps, all pairs of bounds (present, absent, equal, adjacent, outside the key span), all front/back interleavings",
 "Bounds are resolved by descending both flanks of the tree with separate code for each bound kind and for where the flanks part; only particular alignments of bounds with node boundaries exercise the off-by-one cases.",
 [AVL,AVS,BT,BTS], [("flank descent","src/avl.rs range, range_mut; src/btree.rs Range::new, RangeMut::new")],
 MAPSTATE, ["items yielded by a range","contents after writing through range_mut","panic or not"])

p("C06","Set operations and relations agree with set theory",
 "For AvlSet and BTreeSet (any node size), union, intersection, difference and symmetric difference - as lazy iterators, as operators and as whole-set constructors - contain exactly the elements set theory gives, in ascending order without duplicates, and leave borrowed operands unchanged. is_subset, is_superset and is_disjoint return the set-theoretic truth for every pair, including empty, equal, proper, and storage-sharing operands. Append moves all elements over and leaves its argument empty; retain, split_off, extend and conversion follow their definitions.",
 ["inputs","histories"], "all pairs of sets, in every size ratio, overlap pattern, shape and sharing relation (including a set with its own clone)",
 "Size heuristics, pointer-equality shortcuts and early exits choose different code for different size ratios and sharing patterns; sampled pairs of random sets almost never are subsets, equal, or partly shared.",
 [AVS,BTS,LIB,AVL], [("set relations","src/avl/avl_set.rs is_subset/has_all, src/btree/btree_set.rs is_subset"),("sorted merge","src/lib.rs SortedMergeIter, SetOpIter"),("constructors","new_union, new_diff, new_intersection, new_sym_diff")],
 [("set contents","elements of each operand", AVS+":20, "+BTS+":12")], ["result sets","boolean relations","operands afterwards"])

p("C07","Operation cost stays logarithmic: trees stay balanced after any history",
 "In a map or set of n elements, every lookup, insertion, removal and minimum/maximum operation performs a number of key comparisons bounded by a small constant times the worst-case height of a balanced tree of n elements (AVL bound, or B-tree bound for the node size). So does a range iteration, however many entries it yields, and AvlMap's split_off; any other iteration, cloning, clearing and dropping compare nothing, and bulk operations compare at most logarithmically often per element. This holds after every history of operations, including bulk operations and deserialization, and the collection's own consistency check reports success in every reachable state.",
 ["histories"], "all operation histories (ascending, descending, random, delete-heavy, merge/split-heavy) and all keys",
 "Balance is lost silently: results remain correct when a rotation or merge is skipped or a cached height is stale, and it takes long or special histories (ordered inserts, one-sided deletes, repeated split/join) for the height to drift.",
 [AVL,BT,BTS,AVS,CORE,FIX], [("rebalancing","src/avl.rs rotations, join; src/btree.rs split/rebalance"),("self check","Map::check, Set::check")],
 [("height","cached subtree heights / node depth","src/avl.rs Node.left_ht,right_ht; src/btree.rs Node kids")], ["count of Ord::cmp calls per operation","check() result"])

p("C08","Cloning is lazy: cost of clone and of updates after a clone is bounded",
 "Cloning a map, set or stack clones no element and creates no new element instance. A point update on a collection that shares storage with others clones a number of elements bounded by the node path it touches (logarithmic in the size), a read clones nothing, and on collections that share with no one, point updates, append, whole-map set operations, join, split_off and mutable or consuming iteration clone no value and no more keys than they were given (filtering with AvlMap's retain, which rebuilds the map, is exempt). After any operation the element instances alive do not outnumber the total length of all handles and the elements of open consuming iterators. Stack push never clones, and pop and top_mut clone at most the top element, and only when it is shared.",
 ["histories","inputs"], "all histories of clones and updates, all sizes and all sharing patterns",
 "Extra copying never changes a result, so no functional test sees it; it needs counting element clones across histories with live clones.",
 [AVL,BT,CORE,STK,AVS,BTS], [("copy-on-write","Arc::make_mut, take_node, try_unwrap in src/avl.rs; src/btree.rs; src/stack.rs pop/top_mut/remove")],
 [("sharing","strong counts of nodes","node links")], ["count of Clone calls on keys and values per operation","live instances after each operation"])

p("C09","Every stored element is dropped exactly once and never used after",
 "Across any history of operations on maps, sets and stacks and their iterators - including clones, partially consumed and abandoned consuming iterators, bulk operations and replaced keys or values - every element instance the program or the library created is dropped exactly once, no instance is accessed after it was dropped, and when all handles, iterators and returned values are gone no instance remains alive.",
 ["histories"], "all histories of operations and abandonment points of consuming iterators, over all container types",
 "A leaked or doubly dropped element changes no returned value; it needs an instance ledger, and for the hand-managed storage of the fixed-capacity B-tree specific shapes (splits, merges, shifts) and half-consumed iterators.",
 [AVL,BT,CORE,FIX,STK], [("uninitialised inline storage","src/btree/core.rs InlineVec"),("consuming iterators","IntoIter in src/avl.rs, src/btree.rs, src/btree/core.rs, src/stack.rs")],
 [("live instances","instances constructed or cloned and not yet dropped","test element type")], ["Drop and access of instrumented elements"])

p("C10","Stack behaves like a LIFO list, whatever storage it shares",
 "A Stack with any sharing history behaves exactly like a list with one end: push, pop, top, top_mut, len, is_empty, contains, clear, remove(i) and split_off(i) (indices from the bottom), extend, from and collect, iteration (top to bottom), equality and ordering (top-first lexicographic) and Debug text give the list result. remove panics exactly when the index is not below the length and split_off exactly when it exceeds the length, and a panicking call changes nothing.",
 ["histories","inputs"], "all operation histories on any number of stacks cloned from one another, all indices",
 "remove and split_off walk and re-link nodes that may be shared with other stacks at some depth; the interesting cases combine the index with where sharing begins.",
 [STK], [("remove / split_off","src/stack.rs remove, split_off"),("pop","src/stack.rs pop")],
 [("elems","linked list of shared cells","src/stack.rs:44"),("len","reported length","src/stack.rs:44")], ["all return values","full iteration of every stack after each operation"])

p("C11","Arbitrarily deep stacks can be cleared, dropped and consumed without recursion",
 "Clearing, dropping, splitting, popping, removing from, or partially iterating and abandoning a Stack of any length completes without exhausting the call stack, also when the stack shares a prefix or suffix of its elements with clones that are dropped before or after it, and every element is released when its last owner goes.",
 ["inputs","histories"], "all lengths (up to hundreds of thousands of elements) and all orders of dropping stacks that share a tail",
 "Recursive destruction is invisible at the sizes tests use, and depends on the order in which sharing stacks are dropped.",
 [STK], [("iterative clear","src/stack.rs clear, Drop")], [("elems","linked list of cells","src/stack.rs:44")], ["completion of the operation on a thread with a small call stack","live instances afterwards"])

p("C12","Equality, ordering, hashing and Debug depend only on contents",
 "Two maps or sets of the same type compare equal exactly when they hold the same entries, compare in the lexicographic order of their entry sequences, hash equal when equal, and print the same Debug text (listing entries in ascending order), regardless of the histories, tree shapes or storage sharing that produced them. The order is total and consistent with equality, and cloning preserves all of these.",
 ["histories","inputs"], "all pairs of histories that lead to the same or to different contents",
 "Structure-dependent shortcuts or hashing give different answers only for equal contents built along different histories; tests compare a value with itself or with std.",
 [AVL,AVS,BT,BTS], [("comparison impls","PartialEq/PartialOrd/Ord/Hash/Debug impls")], MAPSTATE, ["==, cmp, partial_cmp, hash value, Debug text of pairs of handles"])

p("C13","Serialization round-trips and deserialization tolerates any well-typed input",
 "With the serde feature, serializing a map or set emits its entry count and its entries in ascending order, and deserializing that gives back an equal collection. Deserializing any sequence of entries - unsorted, with duplicates, with a missing, too small, too large or absurd size hint - yields exactly the map or set obtained by inserting the entries in order (last value wins) and a well-formed collection, without panicking; an error reported by the input at any position is returned as an error, and no element is leaked.",
 ["inputs","fault_sequences"], "all entry sequences, all size hints (including wrong ones), all error positions",
 "The balanced builder trusts the size hint and stitches halves; failures need particular combinations of hint and real length, order violations at the seam between halves, or an error in the middle of a half.",
 [LIB,AVL,BT,AVS,BTS], [("build by halves","src/lib.rs MapVisitor::visit_map; make_half, stitch, make_whole in src/avl.rs and src/btree.rs")],
 MAPSTATE, ["serializer calls","contents and later behaviour of the deserialized collection","returned error"])

p("C14","Panics in user code leave every collection consistent",
 "If the key ordering or a closure passed to the library panics during an operation on a map or set and the panic is caught, then no element is dropped twice or used after being dropped, every other handle (including clones sharing storage) keeps exactly its contents, and the collection operated on stays well formed: its keys are strictly increasing, its reported length equals the number of entries it iterates over, its own check succeeds, it holds only entries that were present before or were being added, and later operations on it behave normally. If an element's clone panics, the same holds except that the collection operated on may have any contents, or contents that cannot be read without a panic; reading and dropping it still never touches a dropped element.",
 ["fault_sequences","histories"], "every operation on every shape and sharing state, with the panic injected at every possible call of user code",
 "No test injects panics; the damage (a stale length, a half-moved slot) depends on exactly which callback invocation panics.",
 [AVL,AVS,BT,BTS,CORE,FIX,STK,LIB], [("take-apart-and-rebuild","retain/append/remove/split_off/entry in src/avl.rs, src/avl/avl_set.rs, src/btree.rs"),("raw slot moves","src/btree/core.rs")],
 MAPSTATE, ["contents, length and check of every handle after the caught panic","instance ledger"])

p("C15","Handles sharing storage can be used from different threads independently",
 "Maps and sets whose elements may be sent between threads can themselves be sent and shared between threads. When clones that share storage are read, updated, merged, consumed and dropped concurrently in different threads, each thread observes on its own handle exactly the sequential behaviour, under every schedule, and every element is dropped exactly once in the end.",
 ["schedules","histories"], "all schedules of threads operating on clones of a common collection",
 "Thread interleavings around the last release of a shared node cannot be enumerated by a unit test, and the sharing state changes with each schedule.",
 [AVL,AVS,BT,BTS,CORE,FIX], [("atomic reference counts and copy-on-write","Arc in src/avl.rs, src/btree.rs, src/btree/core.rs")],
 [("strong counts","number of owners of each node","node links")], ["per-thread operation results","instance ledger at the end","Send/Sync of the types"])

p("C16","The fixed-capacity B-tree map behaves like a sorted dictionary",
 "The fixed-capacity B-tree map (btree::fixed) behaves as a dictionary sorted by key under every history of insert, remove, get, get_mut, extend, collect, clone, clear and drop, for small keys and for large keys alike. Its iterators (shared, mutable and consuming) yield every entry exactly once in key order under every front/back interleaving, its clones are isolated from each other, its operations stay logarithmic, and every element is dropped exactly once.",
 ["histories","inputs"], "all histories over all key types and sizes of tree up to several levels, all interleavings of the iterators' two ends",
 "It manages raw storage by hand and has different search code per key size; faults need specific node occupancies (splits at a given position, borrow or merge with a given sibling) at several levels and are only lightly sampled by tests.",
 [CORE,FIX], [("inline vectors","src/btree/core.rs InlineVec"),("split/merge/borrow","src/btree/core.rs node insert/remove"),("iterators","src/btree/core.rs InnerIter, NodeIntoIter")],
 [("root, len","tree and its size","src/btree/fixed.rs:7")], ["all return values","contents of every handle","instance ledger and comparison counts"])

p("C17","The entry interface touches exactly the addressed key, exactly once",
 "For every map and key, entry(k).or_insert, or_insert_with, or_insert_with_key, or_default and and_modify insert the default only if the key is absent, call a supplied closure exactly once when its result is needed and never otherwise, run and_modify's closure only on a present value, and return a mutable reference to the value now stored under that key, through which writes are visible in this map only. first_entry and last_entry address the smallest and largest key and return nothing exactly on an empty map; key returns the addressed key, and creating an entry without using it changes nothing.",
 ["inputs","histories"], "all maps, keys (present and absent) and chains of entry calls, with and without storage shared with clones",
 "The entry is resolved lazily by repeated lookups; errors show only for particular chains (and_modify then or_insert on an absent key, first_entry on shared maps) which tests do not combine.",
 [LIB,AVL,BT], [("Entry","src/lib.rs Entry::or_aux, and_modify, or_insert_with_key")], MAPSTATE, ["returned references, closure call counts","contents of all handles afterwards"])

p("C18","Mutable access reaches exactly the addressed values of this handle",
 "Writes through get_mut, iter_mut, values_mut, range_mut, for_each_mut, mutable stack iteration and top_mut change exactly the values they address, each visited once, in this handle only: every other entry and every clone keeps its value, keys never change, and the writes are visible to all later reads. Abandoning a mutable iterator part-way leaves the unvisited values untouched and every collection intact.",
 ["histories","inputs"], "all shapes and sharing states, all interleavings and abandonment points of mutable iterators from both ends",
 "Copy-on-write during traversal copies nodes while references to siblings are pending; only partially shared trees combined with a partial double-ended traversal exercise it.",
 [AVL,BT,STK,FIX,CORE], [("mutable traversal with copy-on-write","IterMut and RangeMut in src/avl.rs and src/btree.rs; src/stack.rs IterMut")],
 MAPSTATE, ["contents of every handle after each write"])

p("C19","Set point operations identify elements by order and keep track of instances",
 "On AvlSet and BTreeSet, contains, get, insert, remove, take, replace, first, last, pop_first, pop_last, len and clear behave as on a sorted list of distinct elements: insert reports whether the element was new, remove and take report and return the stored element, replace stores exactly the new element and returns the stored one it displaced, and get, first and last return the stored element (not the probe). Elements that compare equal but are distinguishable are never mixed up by these operations.",
 ["histories","inputs"], "all histories over elements that compare equal yet are distinguishable, all shapes and sharing states",
 "The tests use plain integers, for which replacing, keeping or returning the wrong one of two equal elements cannot be seen.",
 [AVS,BTS,AVL,BT], [("replace/take/get","src/avl/avl_set.rs, src/btree/btree_set.rs replace, take, get")],
 [("stored element","the instance kept in the set", AVS+":20, "+BTS+":12")], ["returned elements with their identity tags","contents after each operation"])

p("C20","Internal raw-memory code has no undefined behaviour under aliasing rules",
 "The hand-written unsafe code (inline vectors, raw node links, work-list iterators of the fixed-capacity B-tree) never violates Rust's validity, initialization and aliasing rules for any history.",
 ["histories"], "all histories of operations on the fixed-capacity B-tree",
 "Undefined behaviour usually produces the expected result in a test run.",
 [CORE,FIX], [("unsafe blocks","src/btree/core.rs")], [("InlineVec slots","which slots are initialised","src/btree/core.rs")], ["abstract machine state (not observable from outside)"])

seen=set()
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80, x["id"]
        f.write(json.dumps(x)+"\n")
