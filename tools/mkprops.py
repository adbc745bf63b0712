#!/usr/bin/env python3
"""Writes properties.jsonl (kept here so that statements are edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
ds = "core/ds/"
H = ["histories", "inputs"]
p("C01", "Vector is the sequence its operation history says it is",
  "After any sequence of pushes, pops, element writes, clears, resizes and re-creations, a Vector holds exactly the elements a plain sequence would hold, in order, with size, emptiness, first/last, positive and negative indexing and iteration in both directions all agreeing and capacity never below size. This includes passing one of the vector's own elements as the argument of a push or resize. Shrinking keeps the leading elements; growing with a fill value appends it.",
  H, "all operation sequences of any length, all sizes across growth and shrink thresholds, all values and element types, self-referential arguments",
  "examples/array/vector.cpp pushes and pops one short int sequence; growth, shrink and resize interact with every prior state and element type.",
  [ds + "array/Vector.hpp", "core/common.hpp", "core/Iterator.hpp"],
  [("geometric growth and shrink by reallocation", ds + "array/Vector.hpp:push_back/pop_back/resize"), ("negative index translation", ds + "array/Vector.hpp:operator[]")],
  ["size()", "capacity()", "empty()", "front()", "back()", "operator[]", "begin()/end()"])
p("C02", "Fixed-size arrays keep exactly N independent, correctly indexed slots",
  "An array of N elements always has size N; writing slot i (by positive index, by negative index i-N, or through an iterator) changes that slot and no other. Filling, copying and moving an array transfers every one of the N slots, for every N including 0 and 1.",
  H, "all write/copy/move sequences, all index values in [-N, N), several N and element types",
  "examples/array/array.cpp checks one N and one fill pattern.",
  [ds + "array/Array.hpp", "core/Iterator.hpp"],
  [("index normalisation", ds + "array/Array.hpp:operator[]"), ("element-wise copy and move", ds + "array/Array.hpp")],
  ["operator[]", "begin()/end()", "size()", "front()", "back()"])
p("C03", "Linked lists are faithful double-ended sequences",
  "After any sequence of insertions and removals at the front and the back (through every equivalent operation the list offers), element writes, clears and re-fills, a singly or doubly linked list holds exactly the elements a plain sequence would, in order. Size, emptiness, front, back and iteration (both directions for the doubly linked list) always agree, in particular after the list has become empty and is used again.",
  H, "all operation sequences, including draining through one end and refilling through the other",
  "The examples run one fixed sequence per list; the cached last element and the circular links depend on the whole history.",
  [ds + "linked-list/LinkedList.hpp", ds + "linked-list/SinglyLinkedList.hpp", ds + "linked-list/DoublyLinkedList.hpp", ds + "linked-list/EmbeddedList.hpp"],
  [("circular list around a head node", ds + "linked-list/LinkedList.hpp"), ("cached tail of the singly linked list", ds + "linked-list/SinglyLinkedList.hpp")],
  ["size()", "front()", "back()", "begin()/end()"])
p("C04", "Deque is a faithful double-ended sequence in any block layout",
  "After any interleaving of pushes and pops at both ends, clears and re-fills, a double-ended queue holds exactly the elements a plain sequence would, in order; size, emptiness, front, back, positive and negative indexing and iteration in both directions agree, and capacity is never below size. This holds for every block size, at every block boundary, across every growth and shrink, and wherever the allocator places the blocks.",
  H + ["configurations"], "all operation sequences at both ends, all block sizes, all placements of blocks in memory including adjacent ones",
  "examples/queue/deque.cpp exercises a few hundred ints with one block size and one malloc layout; boundary coincidences between blocks and map resizing need specific histories and addresses.",
  [ds + "queue/DoubleEndedQueue.hpp", ds + "array/Array.hpp", ds + "array/Vector.hpp"],
  [("block map re-centring on resize", ds + "queue/DoubleEndedQueue.hpp:_resize"), ("iterator stepping across blocks", ds + "queue/DoubleEndedQueue.hpp:operator++/--")],
  ["size()", "front()", "back()", "operator[]", "begin()/end()"])
p("C05", "Queue is FIFO and Stack is LIFO over every underlying container",
  "For any interleaving of pushes and pops, a queue hands out elements in exactly insertion order and a stack in exactly reverse order, with size, emptiness, the visible ends and iteration agreeing. This holds whichever suitable container (vector, deque, singly or doubly linked list) carries the adapter.",
  H + ["configurations"], "all push/pop histories, all underlying containers and element types, including long runs at constant size",
  "The examples push a few ints through the default container only.",
  [ds + "queue/Queue.hpp", ds + "stack/Stack.hpp", ds + "queue/DoubleEndedQueue.hpp"],
  [("adapter forwarding", ds + "queue/Queue.hpp, " + ds + "stack/Stack.hpp")],
  ["front()", "back()", "top()", "size()", "iteration"])
p("C06", "Min/max stacks always report the extreme of their current content",
  "After any history of pushes and pops, a min (max) stack reports the smallest (largest) element currently in it, its top is the most recently pushed remaining element, and it is empty exactly when every pushed element has been popped. Duplicate extreme values, clears and any comparison order make no difference.",
  H, "all push/pop/clear histories, values with duplicates, both orders",
  "examples/stack/xvalue_stack.cpp pushes distinct values only.",
  [ds + "stack/XValueStack.hpp", ds + "stack/Stack.hpp"],
  [("saving the previous extreme under the new one", ds + "stack/XValueStack.hpp:push/pop")],
  ["getXValue()", "top()", "empty()"])
p("C07", "Heaps and priority queues always surface the first element of their order",
  "After any history of construction from a range, pushes and pops, the top of a heap is an element that precedes-or-ties every other held element under its comparison, the elements held are exactly those pushed minus those popped, and its layout keeps every parent at or before its children. This holds with duplicates and with comparison objects that carry state.",
  H, "all push/pop/range-construction histories, all value distributions, several orders and element types",
  "examples/heap.cpp covers one int sequence.",
  [ds + "Heap.hpp", ds + "array/Vector.hpp"],
  [("sift up and sift down", ds + "Heap.hpp:_adjust_up/_adjust_down")],
  ["top()", "size()", "begin()/end()"])
p("C08", "Heap sort sorts, heap build heapifies, and neither loses elements",
  "Sorting any range leaves it ordered under the given comparison and a permutation of what it held; building a heap in place leaves the range a permutation that satisfies the heap order, and the returned heap yields the same elements in sorted order. Elements outside the range are never touched.",
  ["inputs"], "all ranges (empty, single, sorted, reversed, all-equal, few distinct, large, sub-ranges) and orders",
  "examples/algorithms/heap_algo.cpp sorts one small array.",
  [ds + "Heap.hpp", "core/Iterator.hpp"],
  [("static build and sort", ds + "Heap.hpp:build/sort")],
  ["the range after the call", "the returned heap"])
p("C09", "Binary search tree is the ordered set its history says it is",
  "After any history of insertions, removals by value, removals through iterators and clears, a binary search tree contains exactly the inserted-and-not-removed values once each, in-order iteration lists them in the tree's order, lookups find exactly the present values, and size counts them. Inserting a present value or removing an absent one changes nothing, and erasing through an iterator returns the position of the next element.",
  H, "all insert/remove/erase histories, every tree shape, all orders of keys, stateful comparisons",
  "examples/tree/binary_search_tree.cpp uses one insertion order and few deletions; deletion cases depend on the tree shape.",
  [ds + "tree/BinarySearchTree.hpp", ds + "tree/BinarySearchTreeBase.hpp", ds + "tree/BinaryTree.hpp"],
  [("descent and deletion by successor", ds + "tree/BinarySearchTree.hpp:_insert/_delete/_try_to_delete")],
  ["size()", "find()", "begin()/end()", "erase() result"])
p("C10", "AVL tree is an ordered set that never loses its balance",
  "After any history of insertions of new values, removals by value, removals through iterators and clears, an AVL tree contains exactly the expected values in order, lookups find exactly those, and erasing returns the position of the next element. In every reachable state the two subtrees below every element differ in height by at most one, the reported height is the true height, and one insertion, lookup or removal by value needs only a logarithmic number of comparisons.",
  H, "all insert/remove/erase histories and key orders, from empty to thousands of elements",
  "examples/tree/avl_tree.cpp samples a few shapes; rotations after deletions and cached heights depend on the history.",
  [ds + "tree/AVLTree.hpp", ds + "tree/EmbeddedBinaryTree.hpp", ds + "tree/BinaryTree.hpp"],
  [("rotations and cached heights", ds + "tree/AVLTree.hpp:_insert/_delete/_check_and_balance"), ("structural node swap on delete", ds + "tree/AVLTree.hpp:_swap_node")],
  ["traversal()", "height()", "find()", "size()", "comparison count"])
p("C11", "Every traversal visits each element exactly once in its documented order",
  "For every reachable tree, pre-order, in-order and post-order traversal by callback and by iterator each visit every element exactly once in the order that the tree's shape prescribes, the callback and iterator forms agree, and an empty tree yields an empty traversal. The three orders of one tree are mutually consistent.",
  H, "all tree shapes reachable by insertions and removals (including chains, single nodes and the empty tree), all three orders",
  "The examples print or check in-order iteration of a few trees only.",
  [ds + "tree/BinaryTree.hpp", ds + "tree/EmbeddedBinaryTree.hpp", ds + "tree/AVLTree.hpp", ds + "tree/BinarySearchTree.hpp"],
  [("successor functions for the three orders", ds + "tree/EmbeddedBinaryTree.hpp:next_*"), ("starting node of an order", ds + "tree/BinaryTree.hpp:first_node")],
  ["traversal()", "begin(order)/end(order)"])
p("C12", "Map is a faithful ordered key-value mapping",
  "After any history of keyed writes, insertions, removals by key or iterator and clears, a map holds for every key exactly the value last written to it, iterates over its entries in key order once each, finds exactly the present keys and reports their number. Subscripting an absent key creates a default value, subscripting a present key never adds an entry, reading through a constant map agrees with reading through a mutable one, and removing an absent key changes nothing.",
  H, "all histories of keyed operations, all key distributions and orders, several key and value types",
  "examples/map.cpp inserts 26 characters once.",
  [ds + "Map.hpp", ds + "tree/AVLTree.hpp"],
  [("entries compared by key only", ds + "Map.hpp:KVCMPKey"), ("balanced tree of entries", ds + "tree/AVLTree.hpp")],
  ["operator[]", "find()", "size()", "iteration"])
p("C13", "Disjoint sets maintain exactly the connectivity of the connections made",
  "After any sequence of connections, two elements report as connected exactly when a chain of connections joins them, every element's representative is a member of its own set and the same for all its members, and the number of sets is the number of connected components. Connecting already connected elements changes nothing, and queries never change the partition, for any number of elements and any connection order.",
  H, "all connection/query sequences, including repeated, self, chain-shaped and very large ones",
  "examples/set/ufset.cpp performs a handful of connections.",
  [ds + "set/DisjointSet.hpp"],
  [("parent forest with path compression and union", ds + "set/DisjointSet.hpp:find/union_set")],
  ["connected()", "find()", "count()", "size()"])
p("C14", "String behaves as the character sequence and C string it represents",
  "After any sequence of constructions, assignments, appends (of characters, strings, C strings and itself), concatenations, element writes and clears, a string's size, characters, iteration and null-terminated view equal those of the mathematical string it should hold. Concatenation leaves its operands unchanged, and equality and inequality (in every operand combination) hold exactly when the contents are equal, for every length including zero.",
  H, "all operation histories, all lengths across the initial capacity and growth thresholds, all non-null characters, self-append",
  "examples/string.cpp works on a couple of literals.",
  [ds + "string/BasicString.hpp", ds + "array/Vector.hpp"],
  [("terminator kept as last element", ds + "string/BasicString.hpp")],
  ["size()", "c_str()", "operator[]", "operator==/!=", "iteration"])
p("C15", "Intrusive list and tree nodes keep their link structure consistent",
  "Any sequence of insertions and removals on intrusive singly or doubly linked rings links exactly the nodes inserted and not removed, in order, in both directions where available, with conversions between node and link lossless. For any intrusive binary tree, rotations preserve the in-order sequence and parent links and change only the local shape, and height, stepping and traversals agree with the structure.",
  H, "all insertion/removal positions and orders on rings, all binary tree shapes and rotation points",
  "examples/linked-list/embedded_list.cpp links a few nodes in one order; rotations and stepping are only reached through the containers.",
  [ds + "linked-list/EmbeddedList.hpp", ds + "tree/EmbeddedBinaryTree.hpp", ds + "tree/tree-base.hpp"],
  [("link add/del", ds + "linked-list/EmbeddedList.hpp"), ("rotations and successor functions", ds + "tree/EmbeddedBinaryTree.hpp")],
  ["link fields", "traversal order", "height"])
p("C16", "Copies are equal and independent",
  "Copy construction and copy assignment of any container, in any state and onto any state, yield an object with the same content as the source, leave the source unchanged, and share nothing with it: no later operation on one (including its destruction) is observable through the other. Self-assignment changes nothing.",
  H, "all container kinds, all source and target states, all histories of operations on original and copies afterwards",
  "The examples copy at most a few small containers and rarely mutate both sides or destroy one first.",
  ["core/common.hpp", ds + "array/Vector.hpp", ds + "linked-list", ds + "queue/DoubleEndedQueue.hpp", ds + "tree", ds + "Map.hpp", ds + "Heap.hpp", ds + "stack/XValueStack.hpp", ds + "string/BasicString.hpp", ds + "set/DisjointSet.hpp"],
  [("shared copy macro with self check", "core/common.hpp:DSTRUCT_COPY_SEMANTICS"), ("per-container copy", "each container")],
  ["full content of every object after every operation"])
p("C17", "Moves transfer the content and leave a usable empty source",
  "Move construction and move assignment of any container, from any state onto any state, give the target exactly the content the source had and leave the source a valid empty container. Source and target are afterwards independent and fully usable (refilled, copied, moved again, destroyed in any order), and self-move and swapping preserve content.",
  H, "all container kinds, all source and target states (including empty), all later histories",
  "The examples move a few non-empty containers and do not use the source again.",
  ["core/common.hpp", "core/utils.hpp", ds + "array/Vector.hpp", ds + "linked-list", ds + "queue/DoubleEndedQueue.hpp", ds + "tree", ds + "Heap.hpp", ds + "string/BasicString.hpp"],
  [("shared move macro", "core/common.hpp:DSTRUCT_MOVE_SEMANTICS"), ("per-container move with link and iterator fix-up", "each container")],
  ["full content of source and target after every operation"])
p("C18", "Every element is constructed once, alive while held, and destroyed once",
  "Across any history, a container only ever copies, compares, assigns, exposes or destroys element objects that are alive, never constructs one over a live element, never relocates one byte-wise, and destroys every element exactly once: removed elements when they are removed, the rest when the container is cleared or destroyed.",
  H, "all container kinds and operation histories including copies, moves and re-use, with element types whose lifetime is observable",
  "The examples use trivially copyable ints, for which lifetime errors are invisible.",
  ["core/common.hpp", ds + "array/Vector.hpp", ds + "linked-list", ds + "queue/DoubleEndedQueue.hpp", ds + "tree", ds + "Heap.hpp"],
  [("explicit construct/destroy on raw storage", "core/common.hpp:construct/destroy")],
  ["constructor, destructor and assignment calls on the element type"])
p("C19", "Containers use only their allocator and return every block exactly once",
  "Every container obtains all its memory from the allocator it is parameterised with, returns every block exactly once with the size it was requested with, never touches memory outside the blocks it holds, and holds nothing after it is destroyed. Empty and cleared containers do not accumulate blocks.",
  H + ["configurations"], "all container kinds and histories including copies, moves and swaps, with several allocators (checking, adjacent-block, immediate-reuse)",
  "The tests run on malloc/free, which ignore sizes and do not report what is left over.",
  ["spec/DStructSpec.hpp", "port/dstruct-port.h", ds],
  [("typed allocator wrapper", "spec/DStructSpec.hpp:AllocSpec")],
  ["allocate/deallocate calls and sizes"])
p("C20", "Static allocator hands out aligned, disjoint, in-pool blocks",
  "Every block handed out by a static memory allocator is aligned to its documented alignment, lies entirely inside one fixed pool, overlaps no other live block, and keeps its content until it is returned, whatever is allocated, returned or merged in between. Two different allocators never share memory.",
  H, "all interleavings of allocations, returns and merges, all sizes from 1 byte to the whole pool, several pool sizes and quick-block limits",
  "examples/static_mem_allocator.cpp performs a short fixed sequence and does not check overlap or content.",
  ["memory/StaticMemAllocator.hpp"],
  [("per-size free lists", "memory/StaticMemAllocator.hpp:quick_mem_allocate_d"), ("first-fit pool list and splitting", "memory/StaticMemAllocator.hpp:mem_pool_allocate_d")],
  ["returned addresses", "content of live blocks"])
p("C21", "Static allocator accounts for every byte and recovers it by merging",
  "The reported free size always equals the pool size minus the (rounded-up) live blocks; a request succeeds exactly when it is positive and not larger than the largest free block reported, and a refused request, or an attempt to return an invalid block (null, or a size that is not positive), is reported as refused and changes nothing. After merging, every maximal run of adjacent free memory is one block, so the largest free block is the longest free run and an all-returned pool is whole again.",
  H, "all interleavings of allocations, returns (in any order) and merges, all sizes including invalid ones",
  "The example checks two merge results; which blocks coalesce depends on the order and sizes of returns.",
  ["memory/StaticMemAllocator.hpp", "docs/sma-design"],
  [("quick-list and pool merging", "memory/StaticMemAllocator.hpp:quick_mem_memory_merge_d/mem_pool_memory_merge_d"), ("free size counter", "memory/StaticMemAllocator.hpp:mFreeMemSize_d")],
  ["free_mem_size()", "max_free_mblock_size()", "success of allocate()"])
p("C22", "Containers on static memory behave like containers on the heap",
  "Every container variant backed by a static pool, and every container when the library's default allocator is configured to static memory, gives exactly the same observable results as the heap-backed one for the same history, as long as the pool suffices. When the containers are gone the pool is entirely free again, and with the default configuration a fragmented pool is merged automatically before a request is given up; the configuration's log and dump options change no result.",
  H + ["configurations"], "all container kinds of the static namespace and of the static default configuration, all histories that fit the pool, repeated for many generations on the same pool",
  "Only a vector on static memory is exercised, once, and no test runs the static default configuration.",
  ["dstruct-static.hpp", "port/static-memory/sma-dstruct-port.hpp", "memory/StaticMemAllocator.hpp", ds],
  [("static namespace aliases", "dstruct-static.hpp"), ("default allocator on a static pool with merge fallback", "port/static-memory/sma-dstruct-port.hpp")],
  ["container content", "free_mem_size()", "max_free_mblock_size()"])
p("C23", "Elements stay where they are until they are removed",
  "References, pointers and iterators to elements of node-based containers (linked lists, AVL trees, maps) stay valid and keep denoting the same element until that element itself is removed, whatever is inserted or removed elsewhere. Pushing and popping at the ends of a deque, and pushing to a vector within its capacity, never relocates the elements that remain; moving a linked list, tree or map keeps its elements in place.",
  H, "all histories of insertions and removals of other elements, all container kinds named",
  "No test keeps a reference or iterator across later modifications.",
  [ds + "linked-list", ds + "queue/DoubleEndedQueue.hpp", ds + "tree/AVLTree.hpp", ds + "Map.hpp", ds + "array/Vector.hpp"],
  [("stable nodes, structural swap on delete", ds + "tree/AVLTree.hpp:_swap_node"), ("blocks never relocated", ds + "queue/DoubleEndedQueue.hpp:_resize")],
  ["addresses and values behind saved references and iterators"])
p("C24", "Memory and element work stay proportional to content and operations",
  "For any history of end insertions and removals, a vector's, deque's, queue's, stack's or heap's capacity stays within a constant factor of its recent content, so a queue used at constant length never grows without bound, and the number of element copies and allocations stays within a constant factor of the number of operations. A linked list, tree or map holds at most one block per element.",
  H, "all push/pop histories, in particular sliding-window use, oscillation around growth and shrink thresholds and large fill-drain cycles",
  "The examples never look at capacity over a long run or count copies.",
  [ds + "array/Vector.hpp", ds + "queue/DoubleEndedQueue.hpp", ds + "Heap.hpp", ds + "linked-list/LinkedList.hpp", ds + "tree/AVLTree.hpp"],
  [("doubling growth, delayed shrink", ds + "array/Vector.hpp:push_back/pop_back"), ("map growth and shrink", ds + "queue/DoubleEndedQueue.hpp:_resize")],
  ["capacity()", "bytes held from the allocator", "element copy and allocation counts"])
p("C25", "Generic algorithms and helpers meet their definitions on every input",
  "Applying a function over a range visits each element of the range once in order; searching returns the first position holding the value and the range's end when there is none; the distance of two positions is the number of steps between them. Swap exchanges two values, maximum and absolute value are the mathematical ones, and the default orders are strict orders consistent with the built-in comparisons, with null pointers ordered before all others.",
  ["inputs"], "all ranges over every container with iterators, all values and pointer pairs",
  "examples/algorithms/for_each.cpp runs one callback over a few containers; the helpers are untested.",
  ["core/algorithm.hpp", "core/utils.hpp", "core/Iterator.hpp"],
  [("for_each and find", "core/algorithm.hpp"), ("less/greater/swap/max/abs", "core/utils.hpp")],
  ["callback sequence", "returned positions and values"])
p("C26", "Empty containers are safe and re-usable however they became empty",
  "A container that is empty because it was just created (in any storage), cleared, drained element by element, moved from, or copied from an empty one answers size, emptiness, iteration, traversal and lookup as empty, accepts removal of absent values and repeated clearing, can be copied, moved, destroyed, and refilled with the same results as a fresh container.",
  H, "all container kinds, all ways of becoming empty, all subsequent operation sequences, arbitrary previous content of the object's storage",
  "The examples seldom operate on an empty container, and never on one whose storage held arbitrary bytes.",
  [ds, "core/common.hpp"],
  [("initial and reset states", "constructors and clear() of each container")],
  ["size()", "empty()", "begin()==end()", "find()", "traversal()", "content after refill"])
p("C27", "Checked misuse and memory exhaustion stop the program before any damage",
  "In builds with checks enabled, an index at or past the end of a vector, reading or removing the last element of an empty vector or list, subscripting a constant map with an absent key and inserting a present value into an AVL tree or map terminate the program at the offending call, in every state, without touching memory outside the container. So does any insertion for which the allocator (including an exhausted static pool) supplies no memory, and any request for more bytes than an allocator can be asked for.",
  H + ["fault_sequences"], "all states reachable by any history, all out-of-range indices, failure of every k-th allocation",
  "The tests contain no failing call, and no test makes an allocation fail.",
  ["port/dstruct-port.h", "spec/DStructSpec.hpp", "core/common.hpp", ds + "array/Vector.hpp", ds + "linked-list/LinkedList.hpp", ds + "Map.hpp", ds + "tree/AVLTree.hpp", "port/static-memory/sma-dstruct-port.hpp"],
  [("assertion and crash macros", "port/dstruct-port.h:DSTRUCT_ASSERT, spec/DStructSpec.hpp:DSTRUCT_CRASH"), ("null check on construction", "core/common.hpp:construct")],
  ["termination of the process", "absence of out-of-bounds accesses before it"])
p("C28", "Iterators obey the laws of their category in every container state",
  "For every container state, stepping from the first position reaches the end after exactly as many steps as there are elements; pre- and post-increment (and decrement where offered) move by one and return the new and the old position, decrement undoes increment, moving by n (forwards or backwards) equals n single steps, and equality holds exactly for equal positions. Copies and assignments of iterators are independent, and mutable, constant and range-for iteration see the same elements.",
  H, "all container kinds and states, all start positions and offsets including across block boundaries and negative ones",
  "The examples only run begin-to-end loops.",
  ["core/Iterator.hpp", "spec/DStructSpec.hpp", ds + "queue/DoubleEndedQueue.hpp", ds + "linked-list", ds + "tree/BinaryTree.hpp", ds + "tree/AVLTree.hpp"],
  [("iterator base and per-container stepping", "spec/DStructSpec.hpp, core/Iterator.hpp, each container")],
  ["iterator operations"])
p("C29", "One program behaves the same in every supported build",
  "A program that uses the public interface compiles and gives the same results in every supported build: any language standard from C++11 on, either compiler at any optimisation level, assertions on or off, exceptions or RTTI off, signed or unsigned plain char, the entry headers included in any order, repeatedly and around standard headers, any number of translation units that share containers and static memory, and any memory port: libc, static memory, or an own port with no standard library header at all. Every block taken from the port is returned to it exactly once with its size.",
  ["inputs", "histories"], "all programs over the public containers and all combinations of standard, compiler, optimisation, NDEBUG, port, include form and number of translation units",
  "The examples are built by one compiler in one configuration, each as a single translation unit on libc.",
  ["dstruct.hpp", "dstruct-static.hpp", "port/dstruct-port.h", "port/libc/libc-dstruct-port.hpp", "spec/DStructSpec.hpp", "memory/StaticMemAllocator.hpp", "core/common.hpp"],
  [("port interface and its default implementations", "port/"), ("allocator selection", "spec/DStructSpec.hpp, core/common.hpp"), ("one static pool per program", "memory/StaticMemAllocator.hpp:Instance_")],
  ["results of every container operation", "allocate/deallocate of the port"])
p("C30", "Containers of containers behave as trees of values, at every level",
  "Any container can be an element of any other, to any depth, and a record may hold vectors of records of its own type. An operation at any depth changes exactly that part and nothing beside or above it. Copying or assigning an element that is itself a container, or the whole, copies everything beneath it; moving or swapping carries it along; afterwards the two share nothing. Elements of a container may be passed to its own operations. Growing, sorting, removing and destroying at any level release everything beneath exactly once.",
  ["inputs", "histories"], "all histories over nested containers of every kind and depth",
  "The tests nest no containers, and nesting makes every container an element with a nontrivial copy, move, size and destructor.",
  ["core/common.hpp", "core/ds/array/Vector.hpp", "core/ds/array/Array.hpp", "core/ds/linked-list/", "core/ds/queue/DoubleEndedQueue.hpp", "core/ds/tree/", "core/ds/Heap.hpp", "core/ds/Map.hpp"],
  [("construction and destruction of elements", "core/common.hpp"), ("relocation of elements", "core/ds/array/Vector.hpp:resize"), ("copy and move of every container", "core/ds/")],
  ["size, order and values at every level", "construction and destruction of the innermost elements", "allocate/deallocate"])
p("C31", "Containers share no hidden state, and reading one writes nothing",
  "Threads that work on different containers (of the same or of different types, on the heap, or each on a static pool of its own) at the same time never influence each other: each gets the results it would get alone, without a data race. Any number of threads may read one container, iterate over it, look up in it and copy it at the same time as long as none changes it; what each does with its own copy concerns nobody else. (One static pool is for one thread; find in a disjoint set counts as a change.)",
  ["schedules", "histories"], "all interleavings of histories on separate containers and of readers of one",
  "The tests have one thread.",
  ["core/ds/array/Vector.hpp", "core/ds/linked-list/", "core/ds/queue/DoubleEndedQueue.hpp", "core/ds/tree/", "core/ds/Heap.hpp", "core/ds/Map.hpp", "core/ds/string/BasicString.hpp", "core/ds/set/DisjointSet.hpp", "core/common.hpp", "memory/StaticMemAllocator.hpp"],
  [("const operations and iterators", "core/ds/"), ("one pool per allocator type", "memory/StaticMemAllocator.hpp:Instance_"), ("allocation wrapper", "spec/DStructSpec.hpp")],
  ["results of every operation in every thread", "absence of data races"])
p("C32", "Containers work for elements of any type",
  "A container works the same whatever the type of its elements, as long as the type has what the container needs (copy construction; for some containers default construction, assignment or an order). The element's own conversions, constructors from anything or from lists, operators that are coarser than, differ from or lack equality, proxy or int results of comparisons, its operator new, virtual bases, alignment, size, member names, and functions found in its namespace never change what a container holds or returns. Likewise for built-in, pointer, enumeration, lambda and standard library types, and for any kind of callable as the order (stateful ones where the container takes an object).",
  ["inputs", "histories"], "all element types and comparators that meet a container's needs, all containers, all histories, all builds",
  "The tests hold int, double, std::string and two small classes.",
  ["core/common.hpp", "core/utils.hpp", "core/algorithm.hpp", "core/ds/array/", "core/ds/linked-list/", "core/ds/queue/DoubleEndedQueue.hpp", "core/ds/tree/", "core/ds/Heap.hpp", "core/ds/Map.hpp", "core/ds/stack/XValueStack.hpp"],
  [("construction and destruction of elements", "core/common.hpp:construct/destroy"), ("element storage in nodes", "core/ds/tree/tree-base.hpp, core/ds/tree/AVLTree.hpp, core/ds/Map.hpp, core/ds/linked-list/"), ("comparison and swap of elements", "core/utils.hpp, core/ds/Heap.hpp, core/ds/stack/XValueStack.hpp")],
  ["compilation of the program", "content, order and results of every operation", "count and addresses of living elements"])
p("C33", "Every operation takes the time its structure promises, at any size",
  "The time of an operation depends on the number of elements only as its structure promises. Constant whatever the size (for growing containers in the mean over a run): adding, removing and reading at the ends of vectors, deques, lists, queues and stacks; a vector's access by index; size and emptiness; one step of any iterator, in the mean over a full pass in any traversal order and any shape of tree; moving and swapping whole containers. Logarithmic: pushing to and popping from a heap; insertion, lookup and removal in an AVL tree and a map in every order of keys, and in a search tree filled in random order; a disjoint set's connections and queries, whatever roots are joined in whatever order. n log n at most: sorting by heap, building a heap. Linear: copying, clearing, destruction, counting, comparison, concatenation. (A deque's access by index, and the static allocator's search for a free block, are linear.)",
  ["histories", "inputs"], "all histories on containers of any size, all orders of keys, all shapes of tree",
  "The tests hold a few elements, and an operation that is a hundred times too slow still passes.",
  ["core/ds/array/Vector.hpp", "core/ds/linked-list/", "core/ds/queue/DoubleEndedQueue.hpp", "core/ds/stack/XValueStack.hpp", "core/ds/Heap.hpp", "core/ds/tree/", "core/ds/Map.hpp", "core/ds/set/DisjointSet.hpp", "core/ds/string/BasicString.hpp"],
  [("growth and shrinkage", "core/ds/array/Vector.hpp, core/ds/queue/DoubleEndedQueue.hpp"), ("balance", "core/ds/tree/AVLTree.hpp"), ("sift up and down", "core/ds/Heap.hpp"), ("iterators of trees", "core/ds/tree/BinaryTree.hpp"), ("union by rank and path compression", "core/ds/set/DisjointSet.hpp")],
  ["branches executed by runs of operations at growing sizes"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties", [x["id"] for x in P if len(x["title"]) > 80])
