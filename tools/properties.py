#!/usr/bin/env python3
"""Writes /verif/properties.jsonl: one place to edit the texts."""
import json, os
P = []
I, H, C, F, S, G = "inputs", "histories", "configurations", "fault_sequences", "schedules", "programs"
ARR = "include/xme/container/array.hpp"
ICO = "include/xme/container/icontainer.hpp"
LL = "include/xme/container/linked_list.hpp"
LLB = "private/container/linked_list_base.hpp"
QB = "private/container/spsc_queue_base.hpp"
QQ = "include/xme/container/spsc_queue.hpp"
AD = "include/xme/container/aligned_data.hpp"
DEL = "include/xme/core/functional/delegate.hpp"

def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

p("A01", "Array behaves as a sequence under every history of operations",
  "After any history of constructing, copying, moving, swapping, assigning, pushing, emplacing, inserting (one value or a range, at any position), erasing (one element or a range), popping, resizing, reserving and clearing, an Array holds exactly the elements, in order, that the same history gives on an ideal sequence, whether it is read through size, empty, indexing, front, back, data or iteration. "
  "The iterator or reference an operation returns designates the element its documentation names, also when the value being added is an element of the same Array. "
  "Copies and moved-to Arrays have the value of their source, and later changes to one never show in another.",
  [H, I], "every finite history of public operations, every position and range length, several element types (int, std::string, instrumented, move-only) and allocators, input/forward/contiguous source ranges",
  "The 16 example tests call each operation once on 3-5 ints with a fresh array; they never combine operations, never start from a full/shrunk/moved-from array, and use no element type whose value depends on being properly constructed.",
  [ARR, ICO, "include/xme/ranges/uninitialized.hpp"],
  [("insert / realloc_insert / erase / push_back / emplace_back", ARR), ("grow_storage / shrink_storage", ARR)],
  ["size()", "operator[]", "begin()..end()", "returned iterators"])

p("A02", "Array creates and destroys every element and every block exactly once",
  "In any history of operations on Arrays every element object is created in unused storage exactly once, is only read, assigned or moved from while it is alive, and is destroyed exactly once, no later than the destruction of its Array. "
  "Exactly size() elements are alive in each Array between operations. "
  "Every block of memory is obtained from and returned to an equal allocator with the same element count, and none is left when the last Array is gone.",
  [H], "every finite history of operations over several Arrays, with an element type and allocators that record each construction, assignment, destruction, allocation and release",
  "The tests store ints, for which missing constructors, double destruction and leaks are invisible; no test runs under an allocator or element that counts.",
  [ARR, "include/xme/ranges/destroy.hpp", "include/xme/ranges/uninitialized.hpp"],
  [("grow_storage / shrink_storage / realloc_insert", ARR), ("destroy_a / destroy_n_a / destroy_at_a", "include/xme/ranges/destroy.hpp")],
  ["element constructors and destructors", "allocator calls"])

p("A03", "Array capacity: promised room, no reallocation, no moves while it suffices",
  "capacity() is never below size(); reserve(n) leaves at least n and never less than before, resize(n) leaves exactly n and keeps the first min(size, n) elements, clear, pop_back and erase leave it unchanged, and creating an Array for n elements gives room for n without creating any. "
  "While the capacity suffices, adding elements obtains no memory and leaves the existing elements before the insertion point at their addresses; moving or swapping Arrays hands over the storage without touching any element. "
  "Appending n elements one by one obtains memory only a logarithmic number of times.",
  [H, I], "every history of operations and every n, including 0 and values around the current size and capacity",
  "The tests check capacity after one reserve and one resize call; they never relate it to reallocation, element addresses or a later operation.",
  [ARR], [("capacity / reserve / resize / clear", ARR), ("growth in emplace_back", ARR)],
  ["capacity()", "data()", "addresses of elements", "allocator calls"])

p("A04", "Array survives failing constructors and allocations without losing anything",
  "If creating or copying an element, or obtaining memory, fails during an operation on an Array, the exception reaches the caller, nothing leaks, and no element is destroyed twice or without having been created. "
  "The Array can still be read, used and destroyed, holding only live elements. "
  "If the failed operation is a construction, an assignment of a whole Array, a reserve, a resize, or the append of a single value, the Array that existed before is unchanged.",
  [F, H], "every history of operations in which any one or several element copies/value constructions (element moves do not throw) or allocations fail, at every possible point",
  "No test throws from an element or an allocator.",
  [ARR, "include/xme/ranges/uninitialized.hpp"],
  [("catch blocks of realloc_insert, uninitialized_copy_a, uninitialized_fill_n_a", ARR), ("copy-and-swap assignment", ARR)],
  ["exceptions", "element registry", "allocator calls", "contents after the failure"])

p("A05", "ArrayView shows exactly the viewed elements and every sub-view of them",
  "A view made from an iterator and a size, two iterators, a contiguous range, a C array or a std::array (static or dynamic extent) has exactly those elements, at their own addresses, in order, through size, size_bytes, empty, indexing, front, back, data and iteration in both directions; writing through it writes the viewed element. "
  "first, last and subview (static or dynamic) designate exactly the requested stretch, as_bytes and as_writable_bytes exactly the bytes of the viewed elements. "
  "Copying a view never copies elements.",
  [I], "every viewed length, offset and count within bounds, several element types including const ones, static and dynamic extents, chains of sub-views",
  "The tests check one fixed int array with a few constant offsets.",
  ["include/xme/container/array_view.hpp", ICO],
  [("subview / first / last", "include/xme/container/array_view.hpp"), ("as_bytes / as_writable_bytes", "include/xme/container/array_view.hpp"), ("Extent", "include/xme/container/array_view.hpp")],
  ["data()", "size()", "addresses of elements"])

p("A06", "Array iterators obey the laws of random access over contiguous elements",
  "Iterators and const_iterators of an Array behave as positions 0..size: increment, decrement (prefix and postfix), +, -, +=, -=, [], *, ->, difference and all comparisons agree with arithmetic on the positions, and each dereferences to the element at that position. "
  "An iterator converts to a const_iterator of the same position, and standard and range algorithms run over them as over a plain array.",
  [I, H], "every pair of positions and offset in range, on Arrays of any length",
  "The tests only increment from begin and compare with end.",
  [ARR], [("Array::Iterator", ARR)], ["iterator expressions"])

p("H01", "Heap always yields the greatest element and loses none",
  "After any history of creating a Heap from a range, pushing, emplacing and popping, front() is an element that no other held element exceeds under the comparator, and iteration, size and empty show exactly the elements pushed and not yet popped. "
  "Popping removes exactly one such greatest element, so popping everything yields all elements in comparator order. "
  "This holds for any strict weak order, with equivalent elements, and for any supported underlying container.",
  [H, I], "every history of push/emplace/pop and every initial range (sized or not), comparators less/greater/by key, element types with and without ownership, Array and std::vector as container",
  "The tests push a handful of ints and check the order once.",
  ["include/xme/container/heap.hpp", ARR],
  [("heapfy_up / heapfy_down", "include/xme/container/heap.hpp")], ["front()", "begin()..end()", "size()"])

p("L01", "LinkedList behaves as a forward sequence under every history of operations",
  "After any history of constructing, copying, moving, assigning, pushing and popping at the front, inserting or emplacing after a position (one value or a range), erasing after a position (one node or up to another), assigning ranges, reversing and clearing, a LinkedList holds exactly the elements, in order, of an ideal sequence subjected to the same history, as seen by iteration, front and empty. "
  "Insertions return an iterator to the last inserted element (or the given position if none), and iterators to elements that were not erased keep designating the same element. "
  "Copies are independent of their source, and a move transfers the elements without creating, copying or destroying any.",
  [H, I], "every finite history of public operations over several lists, every position including before_begin, several element types and source ranges",
  "The list's test program is not part of the build (the header did not compile on its own), and only tried single operations on two or three ints.",
  [LL, LLB], [("emplace_after / insert_after / erase_after", LL), ("assign / reverse", LL)],
  ["begin()..end()", "returned iterators"])

p("L02", "LinkedList owns each node once, also when constructors or allocations fail",
  "In any history every element of a LinkedList is created once, used only while alive and destroyed exactly once, and every node is released exactly once, by the time the list is destroyed. "
  "If creating an element or obtaining a node fails at any point, the exception reaches the caller, nothing leaks, and the list remains usable, holding only live elements. "
  "A failed single insertion leaves the list unchanged.",
  [F, H], "every history of operations with zero or more failing element constructions, copies or allocations, at every possible point",
  "No test constructs a counting or throwing element; constructors that fail half-way are never exercised.",
  [LL], [("create_node", LL), ("delegating constructors", LL), ("erase_after", LL)],
  ["element registry", "allocator calls", "exceptions"])

p("Q01", "SPSCQueue is a bounded FIFO with exact counts",
  "Used by one thread at a time, a queue of capacity N (static or dynamic, any power of two) accepts a value exactly when fewer than N-1 are waiting, and refuses without any effect otherwise, leaving the offered value untouched. "
  "pop and consume remove the oldest waiting value and consume hands exactly that value to the function; values come out in the order they went in, unchanged, across any number of wrap-arounds. "
  "read_available is the number of waiting values and write_available the number of further values that would be accepted; the function given to consume may itself push and count, the value it was given counting as waiting until it returns.",
  [H, I], "every history of push/emplace/pop/consume, every power-of-two capacity from 1 up, static and dynamic queues, several element types",
  "The queue's test program is not part of the build; it tried capacities 8 and 16 without wrapping around more than once.",
  [QQ, QB], [("emplace / pop / consume", QB), ("read_available / write_available", QB), ("next_index", QB)],
  ["push() result", "values given to consume", "read_available()", "write_available()"])

p("Q02", "SPSCQueue creates and destroys every queued element exactly once",
  "Every accepted value is created exactly once in the queue's own suitably aligned storage, is destroyed exactly once, when it is popped or consumed or when the queue is destroyed, and a refused value creates no element. "
  "If creating an element throws, the queue is unchanged; if the function given to consume throws, the element stays in the queue. "
  "The dynamic queue's buffer is released exactly once with the size it was obtained with.",
  [H, F], "every history of operations, including destruction of queues that are empty, partially filled, full or wrapped around, with failing element constructors, failing consumers and failing allocations",
  "No test uses an element with a constructor or destructor, nor destroys a non-empty queue of them.",
  [QQ, QB, AD], [("destructors of StaticSPSCQueue and DynamicSPSCQueue", QB), ("emplace / pop / consume", QB)],
  ["element registry", "allocator calls"])

p("Q03", "SPSCQueue is safe for one producer and one consumer under every schedule",
  "With one thread pushing and one consuming concurrently, under every interleaving and every reordering the C++ memory model allows, the consumer receives exactly the accepted values, each once, in order, fully constructed. "
  "No slot is accessed by both threads without a happens-before edge between the accesses. "
  "A count seen by the consumer never exceeds what it can then consume, one seen by the producer never exceeds what it can then push, and neither thread waits for the other.",
  [S, H], "every interleaving at the granularity of atomic operations and element accesses, with every stale value the memory model lets a load return, for small capacities and operation counts",
  "The one concurrency test is not built, runs one schedule on x86 (which hides missing release/acquire) and discards what it reads.",
  [QB, QQ], [("release store / acquire load of the indices", QB)],
  ["values given to consume", "vector clocks of element accesses"])

p("D01", "AlignedData gives correctly aligned storage holding exactly the object",
  "Whatever the element type, the requested power-of-two alignment and the place of the object (stack, heap, array, member), address() and data() are the same location, inside the AlignedData object, a multiple of the alignment, with room for one whole element. "
  "An AlignedData created from arguments holds the element those arguments construct; writing the element changes nothing outside it, and copying the AlignedData of a trivially copyable element copies its value.",
  [I, C], "element types of many sizes and alignments, alignments 1..4096, arrays of any length and any stack/heap/member placement",
  "The tests check one alignment of one local object.",
  [AD], [("alignas storage", AD), ("construct_at", AD)], ["data()", "address()"])

p("T01", "Pair keeps its two values apart and compares them lexicographically",
  "However a Pair is created (aggregate, deduction, make_pair, assignment from any pair-like), first/second, indexing, get and structured bindings give exactly those two values, as references to the stored objects with the value category of the Pair, references being stored as references and reference_wrappers unwrapped. "
  "== and <=> agree with lexicographic comparison of (first, second). "
  "swap exchanges both values and nothing else, and copies and moves copy and move each element once.",
  [I], "all value pairs of several types: integers, floats including NaN and -0.0, strings, move-only, empty and reference types",
  "The tests check a single pair of values per operation.",
  ["include/xme/container/pair.hpp"], [("operator[] / get / swap / make_pair", "include/xme/container/pair.hpp"), ("defaulted comparisons", "include/xme/container/pair.hpp")],
  ["get", "operator[]", "comparisons"])

p("T02", "Tuple keeps N independent values; apply, tie and tuple_cat preserve them",
  "A Tuple of any number and kind of types (repeated, empty, references, move-only) holds exactly the values it was given, reachable by get, indexing and structured bindings with the right type and value category; assigning from or converting to another tuple-like or aggregate transfers every element to its own position, and swap exchanges every element. "
  "== and <=> are lexicographic; make_tuple decays and unwraps, tie and forward_as_tuple bind the very objects given. "
  "apply calls the function with the elements in order, and tuple_cat concatenates any tuple-likes in order, moving from rvalues only.",
  [I, G], "all values over generated tuple shapes of 0..8 elements with repeated, empty, reference and move-only types",
  "The tests use a few fixed small tuples and values; comparison, swap and tuple_cat of owning or reference types is untested.",
  ["include/xme/container/tuple.hpp", "private/container/tuple_base.hpp"],
  [("TypeMap / TupleElement", "private/container/tuple_base.hpp"), ("tuple_cat / apply / tie / make_tuple", "include/xme/container/tuple.hpp")],
  ["get", "comparisons", "arguments received by the applied function"])

p("F01", "bind_front and bind_back call the function with all arguments in order",
  "Calling the result of bind_front(f, a...) with b... gives exactly f(a..., b...), and that of bind_back(f, a...) gives f(b..., a...), with the same result and type, for functions, function objects and member pointers. "
  "Bound arguments are stored by value (reference_wrappers passed as such), call arguments are forwarded with their value category, and bound ones are passed with the constness and value category of the bound object: copied or modified in place when it is an lvalue, moved when it is an rvalue. "
  "Copies of a bound object are independent of it.",
  [I, G], "all argument values, 0-4 bound and 0-4 call arguments of copyable, move-only and reference types, and all four ways (lvalue/rvalue, const/non-const) of calling",
  "The tests only check std::is_invocable; no bound function is ever called.",
  ["include/xme/core/functional/bind.hpp", "include/xme/container/tuple.hpp"],
  [("BindFront::call / BindBack::call", "include/xme/core/functional/bind.hpp")], ["arguments received and result returned"])

p("F02", "Delegate calls the target it was last given, and only that",
  "After any history of creating, copying, moving, swapping, assigning callables, assigning nullptr and calling, a Delegate calls the target it was last given with exactly the arguments of the call and returns its result, whatever the target is: function, member pointer, lambda or functor of any size. "
  "A copy has its own target with the state of the source at that moment, a moved-from or cleared Delegate is empty, a null function or member pointer makes an empty one, and calling an empty one throws bad_function_call. "
  "The Delegate is true exactly when it has a target, and handle<F>() gives that target exactly when its type is F, and null otherwise.",
  [H, I], "every history of operations over several Delegates with small, large, stateful, trivially and non-trivially copyable targets and all argument values",
  "The tests only check that a Delegate of a lambda is invocable; copying did not even compile.",
  [DEL], [("FunctorManager::invoke / manager", DEL), ("swap / operator=", DEL)], ["arguments received by the target", "operator bool", "handle()"])

p("F03", "Delegate owns its target: created, copied and destroyed exactly once",
  "In any history each target object held by a Delegate is created once, only called or copied while alive, and destroyed exactly once: when its Delegate is destroyed, cleared or given another target. "
  "Moving and swapping Delegates never copies a target and leaves it intact even if it refers to its own address. "
  "If copying a target fails during the construction of a Delegate, nothing leaks and the source is unaffected.",
  [H, F], "every history of operations over several Delegates, with counting, self-referencing, small and large targets and failing copies",
  "No test uses a target with a destructor.",
  [DEL], [("create_functor / destroy_functor / is_local_storage", DEL)], ["element registry of targets"])

p("F04", "ScopedDelegate runs its function exactly once, at the end of its scope",
  "A ScopedDelegate does not call its function before its lifetime ends, and calls it exactly once when it does, however the scope is left (normally, by return, or by an exception), in reverse order of creation for nested ones. "
  "The function called is a copy of (or moved from) the one it was given and sees the state at that moment.",
  [H, I], "every nesting of scopes and way of leaving them, functions given as lvalue or rvalue, stateful ones",
  "The one test leaves one scope normally.",
  ["include/xme/core/functional/scoped_delegate.hpp"], [("destructor", "include/xme/core/functional/scoped_delegate.hpp")], ["call log"])

p("E01", "An exception thrown by what the user supplied reaches the caller",
  "When a constructor, copy, move, comparison or call of a user's type, or an allocation, throws inside an operation of Delegate, bind_front, bind_back, Pair, Tuple, AlignedData, ScopedDelegate, Heap, find or reverse, that same exception comes out of the operation; the program isn't terminated, and every object that was created is destroyed once. "
  "A Delegate whose assignment fails keeps its target; a Pair or Tuple whose assignment fails holds in each place the old or the new value; a Heap whose comparison fails holds the elements it had before or would have had after; what was only read isn't changed; a ScopedDelegate that couldn't be created calls nothing; a function is called at most once.",
  [F, I], "every operation, failing at each of the points where something of the user's can throw, one after the other",
  "No test has an element, callable or comparison that throws.",
  [DEL, "include/xme/core/functional/bind.hpp", "include/xme/container/pair.hpp", "include/xme/container/tuple.hpp", "include/xme/container/heap.hpp", "include/xme/core/functional/scoped_delegate.hpp", AD],
  [("noexcept specifications", "include/xme/container/pair.hpp"), ("assignment through a temporary", DEL), ("heapfy_up / heapfy_down", "include/xme/container/heap.hpp")],
  ["exceptions caught by the caller", "counts of living objects", "values after a failure"])

p("N01", "IContainer gives a container members that agree with iterating it",
  "A class that derives from xme::IContainer of itself and has begin() and end() offers exactly what iterating it allows: empty and front when it can be iterated more than once, back when it can be iterated backwards, size when the sentinel can be subtracted, operator[] with random access, data with contiguous elements; for constant objects as the constant begin() and end() allow. "
  "Each gives what iterating that very object gives (the same elements, in the same places, as the iterators give them), writes through them reach the elements, and neither reads or moves outside of the range.",
  [I], "every contents, over every category of iterators, values and proxies and references, sentinels of another type, with and without a known size, iterated differently when constant, anywhere among the bases",
  "The tests only use Array, ArrayView and Heap, and no container of their own.",
  ["include/xme/container/icontainer.hpp"], [("IContainer", "include/xme/container/icontainer.hpp")], ["results of the members"])

p("I01", "ReverseIterator walks any bidirectional sequence backwards, consistently",
  "Over any bidirectional sequence, a ReverseIterator from the end to the beginning visits exactly the elements in reverse order, and increment, decrement, +, -, +=, -=, [], *, -> and difference agree with positions in the reversed sequence. "
  "Its comparisons (same or convertible iterator types) agree with the order of those positions: a < b exactly when b - a > 0. "
  "Reversing twice, or converting from a mutable to a const iterator, preserves the position.",
  [I], "every pair of positions and offset in range, over pointers, vector, deque and list iterators",
  "The tests walk one 3-element vector and never compare order.",
  ["include/xme/core/iterators/reverse_iterator.hpp"], [("operators", "include/xme/core/iterators/reverse_iterator.hpp")], ["iterator expressions"])

p("I02", "ConstIterator mirrors the wrapped iterator but never allows writing",
  "A ConstIterator designates the same element as the iterator it wraps; increment, decrement, +, -, +=, -=, [], *, ->, difference and every comparison, with other ConstIterators, with plain iterators and with sentinels, give the same answer as for the wrapped iterators. "
  "What it dereferences to cannot be modified. "
  "make_const_iterator and make_const_sentinel keep the position, and leave alone what is already constant.",
  [I], "every pair of positions and offset in range, over pointers, vector, deque, list, forward_list and input iterators",
  "The tests use fixed positions in one 3-element vector.",
  ["include/xme/core/iterators/const_iterator.hpp", "include/xme/core/concepts/constant_iterator.hpp", "include/xme/core/iterators/iterator_traits.hpp"],
  [("operators", "include/xme/core/iterators/const_iterator.hpp")], ["iterator expressions"])

p("G01", "find returns the first equal element whatever the SIMD configuration",
  "For every range and value, find returns the position of the first element that compares equal to the value, or the end if there is none, with and without SIMD enabled (SSE levels, AVX2) and for every execution policy. "
  "It reads only elements of the range, wherever it starts in memory and whatever its length. "
  "This holds for every element type, including floating point, enumerations, pointers and class types of any size.",
  [I, C], "all contents, lengths, start alignments and match positions, element sizes 1/2/4/8 and others, signed/unsigned/floating/class types, contiguous and non-contiguous ranges, SIMD off/SSE2..SSE4.2/AVX2",
  "The tests search a few constant vectors under the one SIMD configuration they are compiled for.",
  ["include/xme/core/algorithm/find.hpp", "include/xme/hal/simd_detection.hpp"],
  [("find_simd", "include/xme/core/algorithm/find.hpp")], ["returned iterator", "memory read"])

p("G02", "reverse reverses every range whatever the SIMD configuration",
  "For every range, reverse puts element i at position n-1-i for all i, touches nothing outside the range, and returns its end, with and without SIMD enabled (SSE levels, AVX2), wherever the range starts in memory and whatever its length. "
  "This holds for every element type and for non-contiguous ranges; applying it twice restores the range.",
  [I, C], "all contents, lengths and start alignments, element sizes 1/2/4/8 and others, owning element types, vector/deque/list, SIMD off/SSE3..SSE4.2/AVX2",
  "The tests reverse a few constant ranges of bytes under one SIMD configuration.",
  ["include/xme/core/algorithm/reverse.hpp", "include/xme/hal/simd_detection.hpp"],
  [("reverse_simd", "include/xme/core/algorithm/reverse.hpp")], ["contents and surroundings of the range"])

p("B01", "has_single_bit, to_unsigned and forward_like agree with their definitions",
  "has_single_bit(n) is true exactly when n is a power of two, for every value of every unsigned type (of 8 to 64 bits, and of 128 where it counts as one). "
  "to_unsigned(n) is the value of the unsigned type of the same width congruent to n. "
  "forward_like<Like>(x) designates x itself with the value category and added constness of Like.",
  [I], "all values of 8/16-bit types, boundary and random values of 32/64-bit types, all cv/ref combinations",
  "The tests have one or no example of each.",
  ["include/xme/core/bit/has_single_bit.hpp", "include/xme/core/utility/to_unsigned.hpp", "include/xme/core/utility/forward_like.hpp"],
  [("has_single_bit", "include/xme/core/bit/has_single_bit.hpp"), ("forward_like", "include/xme/core/utility/forward_like.hpp")])

p("R01", "Allocator-aware range helpers create and destroy exactly what they are told to",
  "uninitialized_copy_a creates in raw memory, in order and through the given allocator, copies of the elements of the input until either range ends, and returns both stopping points; uninitialized_fill_n_a creates exactly n copies, each of the given value itself, and returns the end. "
  "destroy_a, destroy_n_a and destroy_at_a destroy through the allocator exactly the given objects, each once (every element of a nested array). "
  "If a copy throws, everything created so far is destroyed, nothing else is, and the exception propagates.",
  [I, F], "all input and output lengths, n from 0, pointer/list/vector input iterators, an exception at every possible copy",
  "No test calls these helpers directly or makes a copy throw.",
  ["include/xme/ranges/uninitialized.hpp", "include/xme/ranges/destroy.hpp"],
  [("try/catch roll-back", "include/xme/ranges/uninitialized.hpp")], ["element registry", "allocator construct/destroy calls"])

p("M01", "Vector arithmetic, access and conversion are component-wise for every size",
  "For every size and arithmetic component type, constructing a Vector (from a scalar, components, smaller vectors and scalars, or another component type) puts each value in its own component, and indexing and the x/y/z/w names refer to those components. "
  "+, -, *, / with a vector or a scalar, their assigning forms and negation give in every component exactly the scalar result of that component, the operand of another type being converted to the component type first, and touch nothing else. "
  "== and <=> are lexicographic over the components.",
  [I], "all component values, sizes 1-8, float/double/int/unsigned/8-bit components, mixed operand types",
  "The tests check each operator once on one constant vector per size.",
  ["include/xme/math/vector.hpp", "include/xme/math/vectors/vector2.hpp", "include/xme/math/vectors/vector3.hpp", "include/xme/math/vectors/vector4.hpp"],
  [("VEC_OP / VEC_SELF_OP", "include/xme/math/vector.hpp")], ["components of the result"])

p("M02", "Vector geometry follows the Euclidean definitions for every size",
  "For all vectors, dot is the sum of component products, length (function and member) its square root with itself, distance(a, b) the length of b - a, normalize the parallel vector of length 1, and cross the right-handed orthogonal vector with components given by the usual determinant. "
  "reflect(v, n) is v - 2 dot(n, v) n, and faceforward(v, i, n) is v when dot(n, i) is negative and -v when it is positive. "
  "Exact for integers, and within rounding for floating point.",
  [I], "all component values away from overflow, sizes 2-8, float, double and integer components",
  "The tests check one constant vector per function.",
  ["include/xme/math/vectors/geometry.hpp", "include/xme/math/vector.hpp", "include/xme/math/vectors/vector2.hpp", "include/xme/math/vectors/vector3.hpp", "include/xme/math/vectors/vector4.hpp"],
  [("dot / cross / length / normalize / distance / reflect / faceforward", "include/xme/math/vectors/geometry.hpp")], ["returned values"])

p("M03", "Matrix arithmetic and products follow column-major linear algebra",
  "For every shape, a Matrix made from a scalar is that multiple of the identity, one made from columns has those columns, conversions keep every entry (a 3x3 embeds in a 4x4 with 1 in the corner), and m[c][r], row and column agree. "
  "+, - with a matrix or scalar, *, / with a scalar, their assigning forms and negation act on every entry; == and <=> are lexicographic over the columns. "
  "matrix*vector and matrix*matrix are the linear algebra products of the corresponding shapes.",
  [I], "all entries, shapes 2x2 to 5x4, float and double, mixed element types",
  "The tests check each operation on one constant matrix, mostly square.",
  ["include/xme/math/matrix.hpp", "include/xme/math/matrices/matrix4x4.hpp"],
  [("MAT_OP macros and operator*", "include/xme/math/matrix.hpp"), ("4x4 specialization", "include/xme/math/matrices/matrix4x4.hpp")], ["entries of the result"])

p("M04", "Determinant, transpose, outer and Hadamard products satisfy their definitions",
  "For all matrices, determinant (2x2, 3x3, 4x4) equals the Leibniz sum over permutations, so it is multiplicative, changes sign when two columns are exchanged and is unchanged by transposition. "
  "transpose exchanges rows and columns of any shape, outer_product(a, b) has entry a[r]*b[c] at column c, row r, and hadamard_product multiplies entry by entry.",
  [I], "all entries (small integers for exact comparison, general floats within rounding), all supported shapes",
  "The tests check one constant matrix for each.",
  ["include/xme/math/matrices/functions.hpp", "include/xme/math/matrices/matrix4x4.hpp"],
  [("determinant / transpose / outer_product / hadamard_product", "include/xme/math/matrices/functions.hpp")], ["returned values"])

p("M05", "translate, scale and rotate compose the right affine transformation",
  "For every matrix m, translate(m, v), scale(m, v) and rotate(m, angle, n) equal m multiplied on the right by the translation by v, the scaling by v, and the right-handed rotation by angle radians about the unit axis n. "
  "So points move by v, stretch by v, or turn about n keeping lengths and the axis, and rotations about one axis add their angles.",
  [I], "all matrices, vectors, unit axes and angles, float and double, mixed component types",
  "The tests check one constant call each.",
  ["include/xme/math/matrices/transformation.hpp"],
  [("translate / scale / rotate", "include/xme/math/matrices/transformation.hpp")], ["entries of the result"])

p("M06", "Projections map the view volume to the clip cube in both handednesses",
  "perspective_lh/rh (from field of view and aspect ratio, or from frustum planes) and ortho_lh/rh map, after division by w, every corner of their view volume to the corresponding corner of the cube [-1, 1]^3, near to -1 and far to 1, the left-handed ones looking along +z and the right-handed ones along -z. "
  "perspective and ortho are the right-handed ones by default and the left-handed ones when XME_MATH_CLIP_LH is defined.",
  [I, C], "all non-degenerate volumes: fov, aspect, near < far, left < right, bottom < top, symmetric or not, float and double, with and without XME_MATH_CLIP_LH",
  "No test calls any projection function.",
  ["include/xme/math/matrices/perspective.hpp"],
  [("perspective_* / ortho_*", "include/xme/math/matrices/perspective.hpp")], ["entries of the result", "images of the corners"])

p("M07", "Quaternion arithmetic is the Hamilton algebra",
  "For all quaternions, w/x/y/z and indices 0..3 name the same components, sum and difference are component-wise, and the product is the Hamilton product with i*i = j*j = k*k = i*j*k = -1: it is associative and distributive, has 1 as identity, multiplies norms, and does not commute in general. "
  "== and <=> compare the components lexicographically, and construction and mixed element types convert each component.",
  [I], "all component values (small integers exactly, general floats within rounding), float and double, mixed types",
  "The test checks one constant sum, difference and product.",
  ["include/xme/math/quaternion.hpp"], [("operator* / + / -", "include/xme/math/quaternion.hpp")], ["components of the result"])

p("M08", "Scalar functions and mathematical constants have their true values",
  "radians and degrees are inverse scalings by pi/180 (whole numbers being taken as doubles), and sec, csc, cot, arcsin, arccos and arctan are the reciprocal and inverse trigonometric functions, to within rounding for every argument and floating type. "
  "Every named constant, in float, double and long double, is the correctly rounded true value of the mathematical constant it names.",
  [I], "all finite arguments in each function's domain, every constant in every floating type",
  "No test covers the scalar functions or the constants.",
  ["include/xme/math/constants.hpp", "include/xme/math/scalars/trigonometry.hpp"],
  [("constants", "include/xme/math/constants.hpp"), ("radians / degrees / sec / csc / cot", "include/xme/math/scalars/trigonometry.hpp")], ["returned values"])

p("M09", "lerp, mix and sign act on every component with exact endpoints",
  "lerp(a, b, t) is a(1-t) + bt in every component, for a scalar t or a vector of them: exactly a at t = 0 and exactly b at t = 1; a boolean t (scalar or per component) selects b when true and a when false. "
  "mix is the same function as lerp. "
  "sign of a number, and of every component of a vector, is -1, 0 or 1 according to whether it is negative, zero or positive.",
  [I], "all component values and parameters, sizes 2-8, float/double/int parameters, signed integers and floats (infinities included) for sign",
  "The tests check one constant call each.",
  ["include/xme/math/vectors/functions.hpp", "include/xme/math/scalars/functions.hpp", "include/xme/math/glsl_mapping.hpp"],
  [("lerp / sign", "include/xme/math/vectors/functions.hpp"), ("mix", "include/xme/math/glsl_mapping.hpp")], ["returned values"])

p("S01", "Environment variables read back what was set, for every name and value",
  "After any history of set_environment_variable calls, get_environment_variable(name) gives the last value set for exactly that name, or null if it was never set or last set to an empty value, and other variables are not affected; a string that was read stays as it is until its variable is changed. "
  "Names and values are taken as exactly the characters of the string views given, even when more characters follow them in memory.",
  [H, I], "every history of set/get over names and values of any characters valid in an environment, given as views into larger buffers",
  "No test includes the platform header.",
  ["include/xme/hal/linux/platform.hpp", "include/xme/hal/platform.hpp"],
  [("get/set_environment_variable", "include/xme/hal/linux/platform.hpp")], ["returned strings", "getenv"])

p("S02", "SharedLibrary holds a library open exactly as long as it should",
  "After any history of opening (by constructor or call, existing or missing libraries, by names that are parts of larger strings), closing, moving, swapping and destroying SharedLibrary objects, is_open tells exactly whether the object has a library, and a library stays loaded while any object has it and is released when the last one lets go of it. "
  "proc_address gives the address of the named symbol of the held library, or null if it has none or no library is held. "
  "Closing twice, closing a moved-from object, assigning an object to itself, or a failed open is harmless.",
  [H], "every history of operations over several objects and several libraries, existing and missing symbols",
  "No test includes the shared library header.",
  ["include/xme/hal/shared_library.hpp"],
  [("open / close / move / proc_address", "include/xme/hal/shared_library.hpp")], ["is_open()", "dlopen(RTLD_NOLOAD)", "calls through proc_address"])

p("S03", "SIMD feature flags are complete and consistent in every build configuration",
  "In every build configuration, enabling an instruction set enables it and every older set it implies (AVX512F, AVX2, AVX, SSE4.2, SSE4.1, SSSE3, SSE3, SSE2, SSE, MMX) and no newer one, and supported_simd names exactly the sets the compiler targets. "
  "The names of the feature enumeration are distinct bits, and combining them with | and & is exact set union and intersection.",
  [C], "every subset of the enable macros and target options, every pair of feature sets",
  "The tests are compiled in a single configuration and never look at the flags.",
  ["include/xme/hal/simd_detection.hpp"],
  [("XME_SIMD_ENABLE_* cascade", "include/xme/hal/simd_detection.hpp"), ("ESimd operators", "include/xme/hal/simd_detection.hpp")], ["macro values", "enabled_simd", "supported_simd"])

p("S04", "Detection macros name the real platform, compiler and language version",
  "For every compilation target, compiler and language version, and whichever detection headers are included in whatever order, exactly the macros of the platform, architecture and compiler compiled for are true, "
  "export and import markers are those of the platform, and the language-version macros name the version asked for. "
  "A program using the macros compiles and runs with each of them.",
  [C], "every target of the compiler, language versions C++20 to C++26, orders and subsets of the detection headers",
  "The tests are compiled on a single platform and never look at the macros.",
  ["include/xme/hal/platform_macros.hpp", "include/xme/hal/architecture_detection.hpp", "include/xme/hal/compiler_detection.hpp", "include/xme/hal/std_detection.hpp", "include/xme/setup.hpp"],
  [("XME_PLATFORM_*", "include/xme/hal/platform_macros.hpp"), ("XME_ARCH_*", "include/xme/hal/architecture_detection.hpp"), ("XME_CPP20 / XME_CPP23", "include/xme/setup.hpp")],
  ["macro values", "compilation"])

p("C01", "Concepts and type traits accept exactly the types they describe",
  "For every type, however qualified, nested or user-defined: CArithmetic, CIntegral, CSignedIntegral, CUnsignedIntegral, CFloatingPoint, CDifferentFrom and CDifferentFromSelf answer as the language defines those notions; is_initializer_list and is_scoped_enum are true for exactly initializer lists and scoped enumerations; "
  "CTupleLike and CPairLike hold for exactly the types that have a tuple size, elements and get<I> for each of them (two of them for a pair); CAllocator for exactly those with its members; CConstantIterator for exactly iterators whose elements can't be written. "
  "More specific concepts are preferred in overload resolution.",
  [G], "all types built from arithmetic types, enumerations, classes, qualifiers, pointers, references and arrays; tuples of any element types; iterators; allocators and tuple-likes that lack some member",
  "The tests assert the concepts for a handful of types, and never that a near miss is rejected.",
  ["include/xme/core/concepts/concepts.hpp", "include/xme/core/type_traits/is_initializer_list.hpp", "include/xme/core/type_traits/is_scoped_enum.hpp", "include/xme/core/concepts/constant_iterator.hpp"],
  [("concepts", "include/xme/core/concepts/concepts.hpp"), ("traits", "include/xme/core/type_traits/is_scoped_enum.hpp")], ["static assertions over generated types", "which overload is chosen"])

p("K01", "Constant evaluation gives what running the same operations gives",
  "Every history of operations on Arrays, Heaps, ArrayViews, Pairs, Tuples, bound functions, iterators, bit functions, find and reverse, uninitialized memory, and vectors, matrices and quaternions can be evaluated in a constant expression, "
  "without undefined behaviour, lost memory or a call that isn't constexpr, and observes exactly the values that it observes when it is executed, with whichever SIMD extensions, optimizations and compilers.",
  [H, C], "every history of operations of each part, element types that own memory, int, float and double, SIMD sets and optimization levels, g++ and clang++",
  "The static tests evaluate a few constants; none evaluates a history both ways, and the SIMD branches only exist at run time.",
  [ARR, "include/xme/container/heap.hpp", "include/xme/container/tuple.hpp", "include/xme/core/algorithm/find.hpp", "include/xme/core/algorithm/reverse.hpp", "include/xme/math/vector.hpp", "include/xme/math/matrix.hpp"],
  [("constexpr members", ARR), ("std::is_constant_evaluated branches", "include/xme/core/algorithm/find.hpp"), ("operator[]", "include/xme/math/vectors/vector4.hpp")],
  ["constexpr variables compared with the values of the same function at run time"])

p("P01", "Public headers can be combined in any order, in any number of units",
  "Any selection of public headers, each any number of times and in any order, in any number of translation units of a program, compiles and links to one working program: each header provides by itself what it declares, no order changes what a facility does or what a type is, "
  "objects made in one unit can be used in another, nothing is defined twice, each constant, trait or function object of the library is one object that all units share, and no helper macro is left defined after a header (only XME_*, DLLEXPORT and DLLIMPORT).",
  [G, C], "all selections, repetitions and orders of the 60 public headers in several translation units, language versions, SIMD sets and compilers",
  "Each test is a single translation unit that includes one or two headers in a fixed order.",
  ["include/xme/container/container.hpp", "include/xme/math/math.hpp", "include/xme/math/vector.hpp", "include/xme/core/algorithm/reverse.hpp", "include/xme/hal/linux/platform.hpp"],
  [("#include structure", "include/xme/math/math.hpp"), ("helper macros", "include/xme/math/vector.hpp"), ("inline functions", "include/xme/hal/linux/platform.hpp")],
  ["compilation, linking and results of programs", "macros defined after a header"])

p("P02", "Importing the modules gives what including the headers gives",
  "The modules xme, xme.container, xme.functional, xme.iterators, xme.math and xme.utility compile, and xme exports what the others export. Whatever selection of them a translation unit imports, in any order and together with any headers included before, each facility that they export "
  "works as that of the header does, with its traits, structured bindings, operators and comparisons; it is the same entity, so objects made in units that import and in units that include can be exchanged.",
  [G, C], "all selections and orders of modules and headers in several translation units, language versions, optimization and SIMD sets",
  "No test imports a module, and the build of the tests doesn't compile them.",
  ["modules/xme.cppm", "modules/container/container.cppm", "modules/core/functional/functional.cppm", "modules/core/iterators/iterators.cppm", "modules/core/utility/utility.cppm", "modules/math/math.cppm"],
  [("export declarations", "modules/container/container.cppm"), ("export import", "modules/xme.cppm")],
  ["compilation, linking and results of programs"])

p("W01", "Types of the library keep their guarantees inside one another",
  "Array, LinkedList, Heap, Pair, Tuple, SPSCQueue and Delegate can hold each other, and bound objects, at any depth, as they hold anything else that is copied and moved (a LinkedList where nothing is converted or swapped). Whatever is done with the outer object or, through it, with the ones inside, at any level, changes what it says it does and nothing else: copies are independent all the way down, moved objects keep all they hold, nothing is lost or destroyed twice, whether it is moved by growing, inserting, erasing, reversing, rotating, passing through a queue, capturing in a Delegate or binding. "
  "Iterators, reversed and constant ones, views, find, reverse, apply, tie, tuple_cat and the helpers for uninitialized memory work on them, too.",
  [H, I], "all combinations of the types, all histories of changes at every level",
  "Tests use each type with ints and simple structs only.",
  ["include/xme/container", "include/xme/core/functional", "include/xme/core/algorithm", "include/xme/core/iterators", "include/xme/ranges"],
  [("insert", "include/xme/container/array.hpp"), ("operator=", "include/xme/container/linked_list.hpp"), ("heapfy_down", "include/xme/container/heap.hpp"), ("manager", "include/xme/core/functional/delegate.hpp"), ("tuple_cat", "include/xme/container/tuple.hpp"), ("consume", "private/container/spsc_queue_base.hpp")],
  ["contents of all objects at every level, results of calls", "a ledger of elements and blocks"])

p("O01", "Operations leave their operands as they were, however they are passed",
  "What an operation isn't said to change, it doesn't change: a range or an element that is copied into a container, view, tuple, queue, bound object or Delegate is afterwards what it was, also if it is a variable that could be changed; only what is passed as a temporary (or by move iterators) is moved from, and not by an operation that did not take it, such as a push into a full queue. "
  "Calculations on numbers, vectors, matrices and quaternions, and searches, take constants, variables and temporaries alike, give the same result for all of them and each time, and leave them alone. The same object may be passed twice, be both sides of an assignment, or be part of the left side.",
  [I], "all operations, all types of sources, all values, all ways of passing operands and of aliasing",
  "Tests pass each function the one kind of operand that was at hand and don't look at it again.",
  ["include/xme/container", "include/xme/core", "include/xme/math", "include/xme/ranges"],
  [("operator*", "include/xme/math/matrix.hpp"), ("insert", "include/xme/container/array.hpp"), ("assign", "include/xme/container/linked_list.hpp"), ("push", "include/xme/container/heap.hpp"), ("emplace", "private/container/spsc_queue_base.hpp"), ("create_functor", "include/xme/core/functional/delegate.hpp")],
  ["operands before and after", "results for each way of passing them"])

p("X01", "Threads that share nothing, or only read, don't affect each other",
  "What a thread does with objects of its own, of any part of the library, has the same results whatever other threads do with theirs at the same time, including on their first use. Constant operations on an object that several threads share (iterating, accessing, searching, comparing, copying it, calling const function objects, looking up symbols) change nothing, so any number of threads can do them at once. "
  "Objects can be built in one thread, used in another and destroyed in a third. There are no conflicting accesses.",
  [C, I], "every program of several threads over all parts of the library, every schedule, first and later uses",
  "No test starts a thread, and the tests of the queue use it from one.",
  ["include/xme"], [("Array", "include/xme/container/array.hpp"), ("Delegate", "include/xme/core/functional/delegate.hpp"), ("LinkedList", "include/xme/container/linked_list.hpp"), ("SharedLibrary", "include/xme/hal/shared_library.hpp")],
  ["results in each thread", "conflicting accesses to memory"])

p("Z01", "Operations do no more work than their kind needs",
  "Elements are copied, moved, compared and created, and memory is allocated, no more than the operation needs. An Array copies each element that is added or copied at most once (inserted values twice), moves only elements behind the place of insertion or erasure, a constant number of times, or all once more when it takes new storage, which it does not while its capacity suffices, and once per operation (once per doubling when a range can only be read once). "
  "Heap::push and pop compare and move O(log n) elements. LinkedList and SPSCQueue operations touch only the elements added (LinkedList's one allocation per node; queues none), in constant time per element. Moving, swapping and clearing containers and Delegates touches no element and allocates nothing, and containers of such objects, of std too, move rather than copy them; nor do accesses, views and iterators. "
  "find compares up to the element found only; reverse swaps n/2 pairs; comparisons of tuples stop at the first difference; Delegates of functions and of trivially copyable targets no larger than a pointer to member function don't allocate, and calls don't copy what is bound or passed by reference.",
  [I, H], "all histories, lengths, positions, categories of ranges and arguments",
  "Tests check results, which are the same however much work was done.",
  ["include/xme/container/array.hpp", "include/xme/container/heap.hpp", "include/xme/container/linked_list.hpp", "private/container/spsc_queue_base.hpp", "include/xme/core/algorithm/find.hpp", "include/xme/core/functional/delegate.hpp"],
  [("insert", "include/xme/container/array.hpp"), ("heapfy_down", "include/xme/container/heap.hpp"), ("reverse", "include/xme/container/linked_list.hpp"), ("emplace", "private/container/spsc_queue_base.hpp")],
  ["counts of copies, moves, comparisons, calls and allocations per operation"])

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    ids = [x["id"] for x in P]
    assert len(set(ids)) == len(ids)
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    with open(path, "w") as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")
