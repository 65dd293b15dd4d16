#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import plan
B, S, D, U = "include/boost/circular_buffer/base.hpp", "include/boost/circular_buffer/space_optimized.hpp", "include/boost/circular_buffer/details.hpp", "include/boost/circular_buffer/debug.hpp"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, level, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
        _level=level, _technique=technique, _note=note))
MODEL = "model-based runtime monitoring: reference sequence compared after every call, under ASan+UBSan"
WHY = "The tests run each operation on a few hand-picked buffers; the guarantee is over every combination of capacity, size, physical offset (where the contents wrap) and argument, and over every history that led there."
NOTE = "Every small state x every argument class of these operations, sampled pairs, sampled larger states and seeded random histories were executed and compared; nothing is claimed beyond those executions. Trusts the reference sequence in harness/core.hpp."

prop("C01", "push and pop keep exactly the most recent elements",
 "Pushing at either end of a buffer that is not full adds the value at that end; pushing onto a full buffer of non-zero capacity adds it and drops exactly the element at the opposite end; pushing with capacity 0 changes nothing. "
 "Popping removes exactly the element at that end. In every case size never exceeds capacity, capacity does not change, and all other elements keep their values and order.",
 ["inputs", "histories"], "every capacity, size, physical offset, element type, push/pop form (copy, move, default) and history, for circular_buffer and circular_buffer_space_optimized", WHY, [B, S],
 [("circular_buffer::push_back_impl / push_front_impl / pop_back / pop_front", B), ("circular_buffer_space_optimized::push_* / pop_*", S)],
 ["size()", "capacity()", "operator[]", "iteration"], "exploration", MODEL, NOTE)
prop("C02", "positional insert and rinsert give the documented result",
 "insert and rinsert of one item, of n copies and of a range put the items, in order, at the given position; when room runs out insert discards from the front of the buffer (then the first inserted items) and rinsert from the back (then the last inserted items), so that the result is what the unbounded insertion would hold, cut to the capacity at that end. "
 "Elements outside the discarded ones keep their values and order, and a single-item form returns an iterator to the new element, or begin()/end() respectively when it does not fit.",
 ["inputs", "histories"], "every state, position, count (including counts up to the maximum of size_type) and source range", WHY, [B, S],
 [("insert_item, insert_n, insert_range, rinsert_item, rinsert_n, rinsert_range", B), ("insert/rinsert of the space optimized variant", S)], ["contents", "returned iterator"], "exploration", MODEL, NOTE)
prop("C03", "erasing and shrinking remove exactly the requested elements",
 "erase, rerase, erase_begin, erase_end, clear and shrinking resize/rresize remove exactly the designated elements, keep the others in order and leave the capacity unchanged; growing resize appends and growing rresize prepends copies of the given value and raises the capacity only when it has to. "
 "erase returns the position after the removed elements, rerase the one before them.",
 ["inputs", "histories"], "every state, position, range and target size", WHY, [B, S],
 [("erase, rerase, erase_begin, erase_end, clear, resize, rresize", B), ("the same in the space optimized variant", S)], ["contents", "capacity()", "returned iterator"], "exploration", MODEL, NOTE)
prop("C04", "construction, assignment, swap and capacity changes give the documented state",
 "Every constructor and assign form yields the documented size, capacity and contents; a source longer than the requested capacity leaves its last elements; copies equal their source and are independent of it; swap exchanges the complete states. "
 "set_capacity keeps the first elements that fit, rset_capacity the last ones, and both keep the order and set exactly the requested capacity.",
 ["inputs", "histories"], "every constructor and assignment form, capacity, count, source range and prior state of both operands", WHY, [B, S],
 [("constructors, assign, operator=, swap, set_capacity, rset_capacity, initialize, assign_n", B), ("the same in the space optimized variant", S)], ["contents", "size()", "capacity()"], "exploration", MODEL, NOTE)
prop("C05", "every access path shows the same sequence",
 "In every state operator[], at, front, back, forward and reverse iteration, iterator arithmetic, array_one followed by array_two, and their const forms designate the same elements in the same order, and a write through one is seen through all. "
 "empty, full, size, reserve and capacity agree with that sequence, and at throws std::out_of_range for every index at or beyond size and only then.",
 ["inputs", "histories"], "every state, index and access path after every history", WHY, [B, S],
 [("operator[], at, front, back, array_one, array_two, is_linearized, size, reserve", B), ("iterator dereference and arithmetic", D)], ["addresses and values of elements"], "exploration", MODEL, NOTE)
prop("C06", "iterators obey random-access laws and work with standard algorithms",
 "For any two positions of a buffer, in any layout, difference, advance, ordering, equality and subscripting of iterators and const_iterators agree with the positions' indices, including past-the-end. "
 "Standard algorithms run over a buffer give the same result as over a contiguous array with the same elements.",
 ["inputs"], "every layout (capacity, size, physical offset), pair of positions and algorithm", "The tests check a few iterators of one or two buffers; the laws range over all position pairs of all layouts, in particular where the storage wraps and where begin and end share an address.", [D],
 [("cb_details::iterator", D), ("begin, end, rbegin, rend", B)], ["iterator operators", "algorithm results"], "exploration", "runtime monitoring: law checker over all position pairs and differential run of standard algorithms, under ASan+UBSan", NOTE)
prop("C07", "linearize, is_linearized and rotate do what they promise",
 "linearize keeps the sequence, makes the elements contiguous and returns the address of the first (null when empty), without allocating and leaving contiguous elements in place; is_linearized is true exactly when the elements are contiguous, which includes the empty buffer. "
 "rotate(new_begin) yields the sequence std::rotate would, whatever the layout, without allocating.",
 ["inputs", "histories"], "every layout, size, capacity and rotation point", WHY, [B], [("linearize, is_linearized, rotate", B)], ["contents", "element addresses", "array_one/array_two"], "exploration", MODEL, NOTE)
prop("C08", "every element is constructed and destroyed exactly once",
 "At all times the live element objects are exactly the elements held by the buffers: nothing is constructed over a live element, read, assigned or destroyed when not alive, moved bitwise, or left alive after removal, overwriting or destruction of the buffer. "
 "This holds also when element operations throw.",
 ["inputs", "histories", "fault_sequences"], "every operation in every state, and every history, for copyable, move-only, copy-only and throwing element types", "Tests count instances in a few scenarios; leaks and double destruction depend on the layout, on which element is overwritten and on where an exception strikes.", [B, S, D],
 [("destroy_item, construct_or_replace, replace, destroy, uninitialized_copy/move helpers", B), ("uninitialized_copy, uninitialized_fill_n_with_alloc, assign_n, assign_range", D)], ["element constructors, assignments, destructors"], "exploration",
 "live-object registry fed by instrumented element types, checked on every event and at quiescence", "The registry sees every construction, assignment, read and destruction of the executed workloads. Elements whose type has no observable lifetime are outside its reach.")
prop("C09", "no undefined behaviour on any valid use",
 "No valid sequence of calls reads or writes outside the buffer's storage, uses freed or uninitialised memory, misaligns elements, overflows arithmetic or otherwise has undefined behaviour; this includes capacity 0, empty and full buffers, and sizes near the maximum. ",
 ["inputs", "histories"], "every valid call sequence, element type (trivial, over-aligned, owning memory), compiler and optimisation level tried", "The test suite is run without sanitizers, and an out-of-bounds or uninitialised read usually changes no result.", [B, S, D],
 [("pointer arithmetic: add, sub, increment, decrement, linearize_pointer", B), ("allocate, deallocate", B), ("iterator arithmetic", D)], ["sanitizer reports", "guard bytes"], "exploration",
 "AddressSanitizer + UndefinedBehaviorSanitizer, MemorySanitizer and valgrind memcheck over the model-driven workloads", "Held on the executed workloads, as far as the sanitizers detect: red zones and poisoned blocks, not every conceivable stray access.")
prop("C10", "an exception at any point leaves a valid buffer and leaks nothing",
 "Whenever an element's constructor or assignment, the allocator or a source iterator throws during any operation, that very exception reaches the caller, every buffer involved remains a valid sequence within its capacity and fully usable, only live elements are visible, and neither elements nor memory are leaked, also when a constructor fails. ",
 ["fault_sequences", "inputs"], "every throw point of every operation in every state", "Tests throw at a handful of places; the guarantee is over every throw point of every operation in every layout.", [B, S, D],
 [("BOOST_TRY/BOOST_CATCH blocks in constructors, insert, rinsert, linearize, rotate, set_capacity, assign", B), ("assign guards and uninitialized fill/copy rollback", D)], ["exception at the caller", "contents and liveness afterwards"], "fault_enumeration",
 "fault injection at every throw point with state, lifetime and allocation monitors", "Complete over the throw points of the listed states and arguments; sampled for larger states and the space optimized variant.")
prop("C11", "operations with strong or no-throw guarantees keep them",
 "If set_capacity, rset_capacity or copy assignment throws, the buffer has exactly the contents, capacity and element addresses it had before. "
 "Operations documented as no-throw (swap, move construction and assignment, pop, clear, observers, rotate of a full buffer, linearize of a linear one) perform no operation that can throw, and are noexcept where declared.",
 ["fault_sequences", "inputs"], "every throw point of these operations in every state; every no-throw operation in every state", "Whether state survives a throw depends on the point of the throw and the layout; the tests check a few.", [B, S, D],
 [("build-then-swap in set_capacity, assign_n", B), ("move_if_noexcept", B), ("BOOST_NOEXCEPT declarations", B)], ["contents and addresses after the exception", "operations performed"], "fault_enumeration",
 "fault injection at every throw point, comparing the state before and after; armed-to-throw execution of no-throw operations", "Complete over the throw points of the listed states and arguments. The list of operations with each guarantee is taken from the reference documentation.")
prop("C12", "memory comes from the allocator given, exactly as needed, and goes back to it",
 "Every block is obtained from the container's allocator and returned to an equal one exactly once with the size it was requested with; a circular_buffer holds one block of exactly capacity() elements (none for capacity 0), and only operations that change the capacity, assign or construct allocate. "
 "Elements of class type are created and destroyed inside such a block by the allocator's construct and destroy, get_allocator returns the allocator in use (kept by copies, carried along by move and swap), max_size is what the allocator and the difference type allow, and a request to hold more throws std::length_error before anything is allocated or any element touched.",
 ["inputs", "histories", "fault_sequences"], "every operation in every state with stateful, unequal allocators", "Tests use std::allocator or one counting allocator in a few scenarios; ownership mistakes show only with unequal allocators, exceptions, or self-/cross-container operations.", [B, S],
 [("allocate, deallocate, initialize_buffer, destroy, swap_allocator", B)], ["allocate/deallocate events"], "exploration", "instrumented allocator: every block recorded with owner, size and guard bytes and checked on every event", NOTE)
prop("C13", "moving transfers the elements and nothing is copied needlessly",
 "Move construction, move assignment and swap transfer the storage without any element operation or allocation: element addresses are unchanged and the moved-from buffer is empty, owns nothing it gave away and can be reused. "
 "Operations that relocate elements move them, falling back to copies only when the element's move may throw and the operation would otherwise lose its strong guarantee; move-only types work with every operation that does not copy, and rvalue arguments and move iterators are moved from, not copied.",
 ["inputs", "histories"], "every relocating operation in every state for element types with throwing, non-throwing, missing copy or missing move operations", "Tests exercise one move-only type in a few calls.", [B, S, D],
 [("move constructor, move assignment, swap", B), ("move_if_noexcept uses", B), ("uninitialized_move_if_noexcept", D)], ["element copies and moves counted", "element addresses"], "exploration", "runtime monitoring of element copy/move events against the specification, per operation", NOTE)
prop("C14", "operations stay within their documented complexity",
 "The number of element operations and of executed steps of every operation is bounded as documented: constant for access, push, pop and the like (amortised constant for growth in the space optimized variant), linear in the documented distance for insert, erase, rotate, linearize, assign and capacity changes, irrespective of layout. ",
 ["inputs", "histories"], "every operation, at small sizes in every layout and at sizes up to 65536 in four layouts", "No test measures cost; an operation that became linear or quadratic passes.", [B, S, D],
 [("pointer wrap arithmetic instead of iteration; choice of the shorter side in erase/rotate", B), ("double_capacity, ensure_reserve", S)], ["element operations", "executed basic blocks"], "exploration",
 "runtime monitoring of element-operation counts and of executed basic blocks (sanitizer coverage callbacks) against complexity budgets", "Growth is judged from three sizes with a factor-two margin; it would miss a change of constant factor below that.")
prop("C15", "references and iterators stay valid where documented",
 "For circular_buffer, an operation leaves valid every iterator, pointer and reference that its documentation does not list as invalidated: it still designates the same element with the same value and is at the element's new position, and end() iterators remain end() where promised. "
 "Neither push, pop, clear, erase at an end nor rotation of a full buffer moves any remaining element in memory, and swap lets iterators follow the storage.",
 ["inputs", "histories"], "every operation, every iterator, every state", "Tests with invalidation support compare a few iterators; whether an element moves depends on layout and on the side that is shifted.", [B, D],
 [("in-place push/pop, erase and insert shifting only the documented side", B)], ["addresses and iterators captured before, dereferenced after the operation"], "exploration", "runtime monitoring: iterators captured before every operation and re-checked afterwards, under ASan", NOTE)
prop("C16", "the space optimized variant is observably a circular_buffer",
 "circular_buffer_space_optimized gives, for every history of operations they share, the same contents, size, capacity, return positions and exceptions as circular_buffer with the same capacity, whatever its minimum capacity and however its internal memory grows and shrinks. ",
 ["inputs", "histories"], "every operation in every state, minimum capacity and internal buffer size; random histories", "Growth and shrinking happen inside each operation at sizes the tests do not combine with positions and wrapped layouts.", [S],
 [("check_low_capacity, check_high_capacity around each base operation", S)], ["contents", "capacity()", "exceptions"], "exploration", MODEL, NOTE)
prop("C17", "the space optimized variant bounds its memory as documented",
 "The memory held by a circular_buffer_space_optimized is never below size() or min_capacity() elements nor above its capacity; construction, assignment and capacity changes allocate exactly max(size, min_capacity), growth is geometric, and removals release memory so that what is held stays proportional to size() and min_capacity(). "
 "Removals never increase it, a failed change of the capacity leaves the settings as they were, and repeated insertion and removal around one size does not reallocate each time.",
 ["inputs", "histories"], "every operation in every state with every minimum capacity; long insertion/removal phases", "Tests look at the observable contents; the memory held is seen by the allocator only.", [S],
 [("check_low_capacity, ensure_reserve, double_capacity, check_high_capacity, reduce_capacity, adjust_min_capacity", S)], ["allocate/deallocate events"], "exploration", "instrumented allocator: memory held compared with the documented bounds after every operation", NOTE)
prop("C18", "comparisons are those of the sequences",
 "==, !=, <, >, <= and >= of two buffers are exactly element-wise equality and lexicographic comparison of their sequences, independent of capacity and of where the contents wrap, consistent with each other, and use only == and < of the elements. ",
 ["inputs"], "every pair of sequences and layouts", "Tests compare a few buffers, mostly linear ones.", [B], [("operator==, operator<, and the derived operators", B)], ["comparison results"], "exploration", "runtime differential monitoring against std::vector's comparisons, under ASan+UBSan", NOTE)
prop("C19", "concurrent reading and separate containers need no lock",
 "Any number of threads may read one buffer at the same time, and threads working on different buffers never interfere; a buffer shared under a lock as in the documented bounded buffer delivers every item exactly once and in order. ",
 ["schedules", "inputs"], "every interleaving of reading threads, of threads with separate containers, and of producers and consumers under a lock", "The tests are single-threaded.", [B, S, D],
 [("const members write nothing; no shared static state", B)], ["ThreadSanitizer reports", "consumer logs"], "exploration", "ThreadSanitizer and offline checking of recorded hand-off logs, with injected delays", "Held on the interleavings that occurred; the happens-before detector flags an unsynchronised pair even when it did not collide.")
prop("C20", "works with fancy pointers, also in shared memory",
 "With an allocator whose pointer type is a class convertible from raw addresses of the same region (such as an offset pointer), all operations give the same results and never turn stored pointers into raw ones that outlive a call: a buffer placed in a memory region keeps working when the region is mapped at another address or used from another process. ",
 ["inputs", "histories"], "every operation in every state with checked fancy pointers; histories interleaved with remapping", "The tests do not use fancy pointers beyond one interprocess smoke example.", [B, D],
 [("pointer typedefs taken from the allocator; boost::to_address", B), ("item_wrapper, iterator_wrapper", D)], ["contents", "checked pointer operations", "faults at unmapped addresses"], "exploration", "runtime monitoring with a checking pointer type and with a region remapped between operations", NOTE)
prop("C21", "source ranges are read as their iterator category allows",
 "Every range-taking operation accepts input, forward, bidirectional and random-access ranges, pointers, move iterators and integral arguments, reads each source element at most once and in order from a single-pass range, never reads or steps past the end, leaves a source that is not moved from unchanged, and with move iterators moves from the elements it keeps and no others. "
 "If reading the source throws, the exception passes through and the buffer remains valid.",
 ["inputs", "fault_sequences"], "every range operation, category, length and state, and a throw at every source step", "Tests use vectors and one input iterator.", [B, S, D],
 [("tag dispatch in initialize, assign, insert, rinsert", B), ("iterator_wrapper, assign_range", D)], ["source iterator events"], "fault_enumeration", "instrumented source iterators: every dereference and step is an event checked against its category", NOTE)
prop("C22", "arguments may refer to elements of the buffer itself",
 "push_back, push_front, insert, rinsert (one item or n copies), resize and rresize given a reference to an element of the same buffer act as if given a copy of it made before the call, even if that element is overwritten, moved or relocated meanwhile. "
 "Self-assignment, self-swap and setting the capacity it already has leave a buffer and the addresses of its elements unchanged.",
 ["inputs", "histories"], "every operation, position, count and referred element in every state", "No test passes an element of the buffer to its own operations beyond self-assignment.", [B, S],
 [("insert, rinsert, resize, rresize, push_back, push_front", B), ("growth before the insertion", S)], ["contents", "element and block liveness"], "exploration", "runtime monitoring: differential run against the same call with a copy of the argument, with the element and block registry, under ASan", NOTE)
prop("C23", "debug support detects misuse and nothing else",
 "With BOOST_CB_ENABLE_DEBUG every use of an iterator that the documentation calls invalidated, of a default-constructed iterator or of one belonging to another container, and every violated precondition that the library asserts, is reported through BOOST_ASSERT before it does harm; no valid use is reported. "
 "After an operation that completes, memory of the buffer that holds no element shows the documented fill pattern 0xcc (history without exceptions), iterators equal to end() are reported as invalid only after swap and destruction, and the observable behaviour is that of the release mode.",
 ["inputs", "histories"], "every operation and every previously obtained iterator in every state", "The invalidation tests cover a few iterators per operation.", [B, U, D],
 [("BOOST_CB_ASSERT, debug_iterator_registry, invalidate_iterators", U), ("do_fill_uninitialized_memory", U)], ["calls of the assertion handler"], "exploration", "runtime monitoring of the assertion handler: every iterator probed after every operation and compared with the documented invalidation", NOTE)
prop("C24", "behaviour is the same in every standard, compiler and build mode",
 "The same program using the common interface gives identical observable results with C++03 through C++26, gcc and clang, any optimisation level, and with debug support on or off; the guarantees after an exception are the same too. ",
 ["configurations", "histories"], "the configurations built, on the same seeded histories", "Each test binary is built in one configuration and checked against constants, not against each other.", [B, S, D],
 [("emulated and native move, conditional noexcept, BOOST_CB_ENABLE_DEBUG", B)], ["digest of every observation of a history"], "exploration", "differential runtime monitoring: digests of observations compared across builds", "Covers the configurations listed in the evidence file.")
prop("C25", "any element type that meets the documented requirements works",
 "Containers of any admissible element type behave the same: built-in types, pointers, enumerations, aggregates, types without a default constructor, move-only, over-aligned, polymorphic, final or self-referential ones, ones that convert from anything or overload operator new, and containers, also buffers themselves. "
 "Each operation needs no more of the type than documented, and the result is that of the same operation on the sequence of values.",
 ["inputs", "histories", "configurations"], "every admissible element type and every operation applicable to it, over seeded histories", "The tests use int, a few integer wrappers and one instrumented class; what an operation requires of its element type, or does differently for trivial, scalar or move-only ones, shows with other types only.", [B, S, D],
 [("uses of value_type: construction through the allocator, assignment, conversion; dispatch on is_scalar, is_nothrow_move_constructible, is_integral", B), ("uninitialized algorithms, item_wrapper", D)], ["contents", "compilation"], "exploration", "model-based runtime monitoring over a collection of 48 element types, under ASan+UBSan and optimised", NOTE.replace("Every small state x every argument class of these operations, sampled pairs, sampled larger states and s", "S").replace("harness/core.hpp", "harness/zoo.cpp").replace("were executed", "over 48 element types were executed"))

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps({k: (v.strip() if isinstance(v, str) else v) for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in P:
        if hasattr(plan, p["id"]):
            checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"], technique=p["_technique"], level=p["_level"], level_note=p["_note"]))
        else: na.append(dict(property=p["id"], reason="its check is not built yet"))
    m = dict(version=1, setup_cmd="python3 -c 'import plan, run'", checks=checks, not_applicable=na,
             notes="Every check compiles harness/ against /repo/include into a scratch directory under evidence/ (git-ignored) that it removes. No hooks in /repo: the monitors observe through element types, allocators, iterators, the assertion handler and compiler instrumentation. Findings and repairs: known_findings.txt.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
main()
