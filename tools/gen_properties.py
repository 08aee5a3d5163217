#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe or [], hook_needed=hook)))
CONC = "include/efp/concurrency.hpp"; CYC = "include/efp/cyclic.hpp"; IO = "include/efp/io.hpp"
SEQ = "include/efp/sequence.hpp"; STR = "include/efp/string.hpp"; ENUM = "include/efp/enum.hpp"
MAYBE = "include/efp/maybe.hpp"; PRE = "include/efp/prelude.hpp"; SORT = "include/efp/sort.hpp"
FMT = "include/efp/format.hpp"; FMTI = "include/efp/fmt/format-inl.h"; META = "include/efp/meta.hpp"
m = lambda n, w: dict(name=n, where=w)

p("C01", "BlockingQ without a capacity is a linearizable exactly-once FIFO queue",
  "When any number of threads enqueue to and dequeue from one BlockingQ of dynamic capacity, every value whose enqueue returned is handed to exactly one dequeue (or is still in the queue), unaltered, and no dequeue returns a value nobody enqueued. The whole history of calls is explained by some sequential FIFO queue that respects the real-time order of the calls.",
  ["schedules", "histories"], "every number of producers and consumers, every mix of calls and every interleaving at the granularity of single memory accesses",
  "The unit tests call the queue from one thread only, at most three elements deep; no schedule with two threads inside the queue is ever run.",
  [CONC], [m("one mutex held around every access of the underlying queue", "BlockingQ<A, dyn>::enqueue / dequeue in " + CONC)],
  [dict(name="_q", meaning="values enqueued and not yet dequeued, oldest first", where=CONC)], ["enqueue", "dequeue"])
p("C02", "Fixed-capacity queues keep exactly the newest N values in FIFO order",
  "A BlockingQ or NonBlockingQ with capacity N behaves, for any number of concurrent callers, like a sequential FIFO queue in which enqueueing into a full queue discards the oldest value and nothing else: nothing is lost while there is room, the newest N values survive in order, and no value is delivered twice or altered. This holds for every capacity, every element type and however often the storage has wrapped around.",
  ["schedules", "histories", "configurations"], "every capacity, fill level, wrap-around position, element type, mix of calls and interleaving",
  "The tests use one capacity (5) for BlockingQ, never fill it, never wrap it and never use two threads; NonBlockingQ with a capacity is not tested at all.",
  [CONC, CYC], [m("Vcq ring with read and write cursors, overwrite of the oldest element when full", "Vcq::push_back / pop_front in " + CYC), m("mutex around the ring", CONC)],
  [dict(name="_size/_read/_write", meaning="fill level and cursors of the mirrored ring buffer", where=CYC)], ["enqueue", "dequeue"])
p("C03", "A blocked dequeue never misses an element and never returns without one",
  "A BlockingQ dequeue (either capacity form) waits while the queue is empty, whatever spurious wake-ups occur, and returns as soon as scheduling allows once an element is available: there is never a state in which the queue holds an element, a thread is blocked in dequeue and no thread can make progress. Every blocked dequeue is served by further enqueues, one each as long as none of their values is overwritten before it is taken, without deadlock or livelock.",
  ["schedules", "fault_sequences"], "every interleaving of any number of producers and consumers, every pattern of spurious wake-ups, every choice of which waiter a notification wakes and every stall of a thread",
  "No test ever blocks in dequeue: each one enqueues first, from the same thread, so the wait/notify protocol is never exercised.",
  [CONC], [m("predicate loop around the condition wait; one notification per enqueue, issued while the element is visible", "BlockingQ::dequeue / enqueue in " + CONC)],
  [dict(name="_c", meaning="condition on which consumers of an empty queue sleep", where=CONC)], ["dequeue", "enqueue"])
p("C04", "NonBlockingQ is linearizable, including is_empty and the empty result",
  "For any number of threads calling enqueue, dequeue and is_empty on one NonBlockingQ, the history is explained by a sequential FIFO queue respecting real-time order: dequeue returns nothing only if the queue was empty at some instant during the call, and is_empty tells the truth for some instant during the call. No call ever waits for another thread to supply or remove an element.",
  ["schedules", "histories"], "every mix of calls from any number of threads and every interleaving, for the dynamic and the fixed-capacity form",
  "Tests are single-threaded; is_empty is only called when nothing else can be running.",
  [CONC, CYC], [m("mutex held in every operation that looks at the queue", "NonBlockingQ in " + CONC)], None, ["enqueue", "dequeue", "is_empty"])
p("C05", "DoubleBuffer hands each produced value to the consumer once, in order",
  "With any number of producer threads calling enqueue and one consumer thread calling swap_buffer, empty and dequeue, a DoubleBuffer behaves like two bounded FIFO buffers of the given capacity that swap roles atomically: after a swap the consumer reads exactly the newest values enqueued since the previous swap (after whatever that buffer still held), each exactly once, intact and in enqueue order. Producers and consumer never deadlock, and the storage is released when the buffer is destroyed.",
  ["schedules", "histories", "configurations"], "every capacity, number of producers, burst length, swap pattern and interleaving",
  "The tests swap twice from a single thread with capacity 10 and at most two elements.",
  [CONC, CYC], [m("spin lock (acquire/release) around enqueue and swap", "DoubleBuffer in " + CONC)],
  [dict(name="_read_buffer/_write_buffer", meaning="the two rings whose roles are exchanged by swap_buffer", where=CONC)], ["enqueue", "swap_buffer", "dequeue", "empty"])
p("C06", "Documented concurrent use of the queues and DoubleBuffer has no data race",
  "In every concurrent use the types are meant for (any calls on BlockingQ and NonBlockingQ from any threads; many producers and one consumer on DoubleBuffer), any two conflicting accesses to the shared storage are ordered by a lock or by an acquire/release pair, and everything a producer wrote before enqueueing a value is visible to the thread that receives the value. No call deadlocks, unlocks a lock it does not hold or destroys storage another thread is using.",
  ["schedules"], "every interleaving, judged by the C++ happens-before relation rather than by what one machine happens to do",
  "A single-threaded test cannot race; even a multi-threaded run on x86 would hide a weakened memory order.",
  [CONC], [m("std::mutex in the queues", CONC), m("spin lock with acquire on lock and release on unlock", "DoubleBuffer::Spinlock in " + CONC)], None, ["all public members of the three types"])
p("C07", "A queue call that fails for lack of memory has no effect and blocks nobody",
  "If an allocation or an element copy fails inside enqueue or dequeue of BlockingQ or NonBlockingQ, enqueue of DoubleBuffer, or the construction of any of them, the call ends with that exception and the queue is as if the call had not been made: nothing lost, duplicated, leaked or left locked, and other threads can go on using the queue. In particular a consumer waiting in dequeue is not left asleep beside an available element because another consumer's call failed.",
  ["fault_sequences", "schedules"], "every sequence of allocation and element-copy failures at every point of every call, combined with every interleaving",
  "No test makes an allocation or a copy fail.",
  [CONC, CYC], [m("lock guards released by unwinding; ring updates its cursors only after the new element exists", "BlockingQ/NonBlockingQ/DoubleBuffer in " + CONC + ", Vcq::push_back in " + CYC)], None, ["enqueue", "dequeue", "constructors"])
p("C08", "File never loses acknowledged data silently",
  "Bytes passed to File::write calls that returned true are in the file, complete (any byte value, including NUL), in order and at the right place, once a later flush returned 0 or close returned true; this holds for every open mode and survives a process crash after that point. If the operating system fails or truncates a write, at least one of the write, flush, seek and close calls on that file reports it, and the file never contains bytes that were not written. Files do not influence each other: this holds for any number of File objects used alternately.",
  ["fault_sequences", "crash_points", "histories"], "every sequence of writes, flushes, seeks, moves and closes in every mode, every buffer size, and every pattern of short writes, EIO, ENOSPC, EINTR and failing close, with a crash after any call",
  "File has no unit test at all; the example program writes one text once, without faults.",
  [IO], [m("return values of fputc/fputs/fwrite/fflush/fclose are checked and passed on", "File::write / flush / close in " + IO)],
  [dict(name="_file/_mode", meaning="the C stream and the mode it was opened with", where=IO)], ["write", "flush", "close"])
p("C09", "File reads return exactly the stored bytes, line by line",
  "read_line and read_lines return the content of the file from the current position as the exact sequence of newline-separated lines (every byte value, empty lines, arbitrarily long lines, a last line without a newline) and nothing at end of file, however the operating system splits its reads; seek and tell agree with the byte position, a seek to a negative position fails and changes nothing, and bytes appended to the file by somebody else are read after a seek. After a read error a line may end where the error struck, but no byte is invented, repeated or reordered, and reading can continue.",
  ["inputs", "fault_sequences"], "every file content, every splitting of reads, every buffer size, every position of a read error or interruption",
  "File has no unit test; the example reads one small file.",
  [IO, SEQ, STR], [m("character loop ending at newline or EOF", "File::read_line / read_lines in " + IO)], None, ["read_line", "read_lines", "seek", "tell"])
p("C10", "Every opened File stream is closed exactly once and never used afterwards",
  "For every history of opening, moving, move-assigning, closing and destroying File objects (alone or inside Maybe or a container), including failed opens, failed closes and exceptions, each stream the library opened is closed exactly once, at the latest when its last owner is destroyed or overwritten. After it was closed no operation touches it, and moving a File carries its stream and mode to the new owner.",
  ["histories", "fault_sequences"], "every sequence of ownership transfers and every failure of open, close and memory allocation",
  "File has no unit test; descriptor leaks and double closes need failing closes or overwritten owners to show.",
  [IO, ENUM, MAYBE], [m("owning pointer nulled on move and close, closed in the destructor", "File in " + IO)], None, ["open", "close", "move construction and assignment", "destructor"])
p("C11", "A closed or moved-from File is inert and reports failure",
  "On a File that was closed (successfully or not) or moved from, every operation is safe, performs no I/O on any stream and reports failure: write, seek and close return false, flush returns non-zero, tell returns a negative number, read_line returns nothing and read_lines returns an empty sequence. A failed open yields nothing.",
  ["histories", "fault_sequences"], "every operation in every order after any way of losing the stream, including a close that failed",
  "File has no unit test.",
  [IO], [m("null check of the stream before each operation", "File in " + IO)], None, ["all members of File"])
p("C12", "print and println emit each message whole, once, or report failure",
  "When several threads call print and println concurrently, the bytes reaching standard output are the complete messages of the calls, each contiguous, each exactly once and in an order consistent with real time. If formatting fails for lack of memory nothing of that message is emitted, and a failed or short write on an unbuffered stream is reported by an exception rather than ignored.",
  ["schedules", "fault_sequences"], "every interleaving of printing threads, every stream buffer size, every pattern of failing writes and allocations",
  "No test prints concurrently or onto a failing stream.",
  [FMT, FMTI, "include/efp/fmt/core.h"], [m("message formatted into a private buffer, then one checked stream write", "vprint, detail::print, fwrite_fully in " + FMTI)], None, ["print", "println"])
p("C13", "Vector and String survive failing allocations unchanged and leak nothing",
  "For every history of operations on Vector and String (construction, copy, move, assignment, growth, insertion, removal, resizing, shrinking, appending, including arguments that refer to the container itself), an operation either completes with the contents a plain list would have, or ends with the exception of the failed allocation or element copy and leaves every container as it was. Every element constructed is destroyed exactly once, no memory is leaked and no memory outside a container's storage is touched; moved-from objects stay valid, and element moves are assumed not to fail.",
  ["histories", "fault_sequences"], "every sequence of operations, every element type whose move does not throw, every position of a failing allocation or element copy",
  "Tests check a few fixed sequences on mostly trivial element types and never make an allocation fail.",
  [SEQ, STR], [m("allocate before modifying; construct, destroy and size updates kept in step", "detail::VectorBase in " + SEQ), m("String built on the same storage, one extra slot for the terminator", STR)],
  [dict(name="_data/_size/_capacity", meaning="owned storage and number of live elements", where=SEQ)], ["public members of Vector and String"])
p("C14", "Array and ArrVec survive failing element copies unchanged and leak nothing",
  "For every history of operations on Array and ArrVec, an operation either completes with the contents a plain fixed-capacity list would have, or throws (element copy failed, capacity exceeded, bad index) and leaves the container as it was. Every element constructed in the inline storage is destroyed exactly once and memory is never allocated by the container itself.",
  ["histories", "fault_sequences"], "every sequence of operations and every position of a failing element copy, for every capacity",
  "Tests check a few fixed sequences and never make an element copy fail.",
  [SEQ, META], [m("placement construction and explicit destruction kept in step with the size", "Array and ArrVec in " + SEQ)], None, ["public members of Array and ArrVec"])
p("C15", "Vcb and Vcq stay exact sliding windows over any history, faults included",
  "After every history of push, pop, copy, move and assignment, Vcb<N> shows exactly the last N pushed values in order and Vcq<N> shows exactly the newest N values pushed and not yet popped, and the same contents are seen through indexing, iteration and the contiguous data pointer, wherever the storage has wrapped. A push or copy whose element copy fails changes nothing, and every element (and its mirror image) is destroyed exactly once.",
  ["histories", "fault_sequences", "configurations"], "every capacity, wrap position, history and position of a failing element copy",
  "Tests push at most four elements, copy only containers that have not wrapped and never look at the contents of a copy.",
  [CYC], [m("every element stored twice, one capacity apart, so the window is contiguous from the read cursor", "Vcb and Vcq in " + CYC)], None, ["push_back", "pop_front", "operator[]", "begin/end", "data", "copy/move"])
p("C16", "Enum and Maybe always hold exactly one live alternative, even after a failure",
  "For every history of construction, copy, move, assignment and matching, an Enum or Maybe holds exactly one live alternative, the one last stored; index, get, match and equality agree on it, and asking for another alternative throws. If copying the new alternative fails during assignment, the old value is still there; each alternative object is destroyed exactly once.",
  ["histories", "fault_sequences"], "every sequence of assignments among alternatives of different types and every position of a failing copy",
  "Tests check fixed sequences with resource counting but never a failing copy.",
  [ENUM, MAYBE], [m("switch on the stored tag for copy, move, destroy, equality and match", "detail::EnumBase in " + ENUM)],
  [dict(name="_index/_storage", meaning="tag and storage of the live alternative", where=ENUM)], ["assignment", "get", "match", "index", "value"])
p("C17", "Sequence functions are all-or-nothing when memory or a callback fails",
  "map, map_with_index, cartesian_map, filter, append, concat, intercalate, from_function, elem_indices, find_indices, elem, find, foldl, foldr and the for_each family, applied to sequences of values that own memory, either return the complete correct result or propagate the exception of the failed allocation, element copy or callback. In the failing case the arguments are unchanged (for_each_mut: changed only by the calls that were made) and every intermediate element is released exactly once; callbacks are called once per element, in order, and not after a failure.",
  ["fault_sequences", "inputs"], "every position of a failing allocation, element copy or callback, for every combination of static, bounded and dynamic sequences",
  "Tests use trivial element types, mostly, and never a failing callback or allocation.",
  [PRE, SEQ], [m("result container sized or grown first, then filled; unwinding releases it", "map, filter, append, ... in " + PRE)], None, ["the listed functions"])
p("C18", "Sorting yields the ordered permutation or, on failure, a leak-free vector",
  "Every sort function applied to a Vector ends with the same elements in comparator order (sort, sort_by, timsort and insertion sort keep equal elements in their original order), for every length. If the comparator, an element copy or an allocation fails partway, the exception reaches the caller, the vector keeps its length and holds only values it had before (or moved-from elements), and every element object is released exactly once.",
  ["inputs", "fault_sequences"], "every length and order of elements, every comparator that is a strict weak order, every position of a failing copy or comparison",
  "Tests sort vectors of about ten integers, once each, shorter than one run of the merge sort, and no comparator throws.",
  [SORT, SEQ], [m("insertion-sorted runs merged bottom-up", "timsort_by / timsort_merge in " + SORT), m("quick, heap, merge and insertion sort", SORT)], None, ["sort family"])
p("C19", "Formatting to a String is complete or fails cleanly when memory runs out",
  "format returns the complete text for any argument lengths, including text far larger than any internal buffer and sequences of any length, or ends with the exception of the failed allocation, in which case nothing is leaked and the arguments are unchanged. A later call is unaffected by an earlier failure.",
  ["fault_sequences", "inputs"], "every output length around the internal buffer sizes and every position of a failing allocation",
  "Tests format a few short texts without allocation failures.",
  [FMT, "include/efp/fmt/format.h", FMTI, STR], [m("growing memory buffer, converted to a String at the end", "basic_memory_buffer::grow and vformat in include/efp/fmt")], None, ["format"])
p("C20", "Concurrent read-only use of shared containers is safe and consistent",
  "Any number of threads may use the const operations of one shared Array, ArrVec, Vector, String, Vcb, Vcq, Enum, Maybe, Tuple, composition or view at the same time (observers, indexing, iteration, comparison, copying, assigning from it, matching, substring, the sequence and statistical functions, formatting) without a data race. Each of them gets the result it would get alone.",
  ["schedules"], "every set of threads, const operations and interleavings",
  "Tests are single-threaded; a hidden write in a const operation is invisible to them.",
  [SEQ, STR, ENUM, PRE, CYC], [m("const operations do not write shared state", SEQ + ", " + STR + ", " + ENUM)], None, ["const members and sequence functions"])
p("C22", "take, drop, slice, head, tail, init and last respect bounds for every input",
  "take and drop with any count, take_while and drop_while with any predicate, slice within the bounds, and head, tail, init and last give views of (references to) exactly the requested elements of the argument, never reaching outside it, for every kind of sequence, also a ring buffer that has wrapped around and a view of a view; the partial functions throw on an empty sequence. A view shows its elements as they are now, also after they were written to. Making, copying or converting a view neither copies an element nor needs memory, so it succeeds when all allocations and copies fail. A predicate is called once per element, in order, up to the first it rejects; if it throws, its exception reaches the caller and it is not called again.",
  ["fault_sequences", "histories", "inputs"], "all counts, predicates and sequences, all chains of view functions, every position of a failing allocation, element copy or predicate, and every later write to the elements", "Tests sample a handful of inputs per function, on unchanging containers; take_while and drop_while were never instantiated (and did not compile).",
  [PRE, SEQ], [m("counts clamped to the length", PRE), m("pointer and length, no copy", "ArrayView, ArrVecView, VectorView in " + SEQ)], None, ["take", "drop", "slice", "head", "tail", "init", "last", "take_while", "drop_while", "is_null", "view types"])
p("C24", "Result types avoid allocation whenever size or capacity is static",
  "A sequence function returns an Array when the result size is known at compile time, an ArrVec when only its capacity is known and a Vector otherwise, and the capacity always suffices. So a sequence function whose arguments all have a static size or capacity needs no heap: it completes, with the right result, while every allocation fails.",
  ["fault_sequences", "inputs", "configurations"], "all combinations of argument types, sizes and fill levels, with memory exhausted or failing at any point", "Tests check a few type combinations and never run out of memory.",
  [PRE, SEQ, "include/efp/trait.hpp"], [m("type-level functions on CtSize and CtCapacity", PRE)], None, ["map", "filter", "append", "concat", "intercalate", "cartesian_map", "from_function", "elem_indices", "find_indices", "for_each family", "folds"])
p("C28", "Tuples, compositions, Maybe combinators and statistics complete or fail cleanly",
  "Building, copying, comparing, matching and assigning a Tuple, swapping two values, calling a composition, fmap, ap, bind and pure on a Maybe, func_ptr, and the numeric and statistical functions on sequences either complete with the right result, or end with the exception of the failed allocation, element copy or supplied function. Supplied functions are called exactly once each, in the documented order (compose: the last one first; none on Nothing), and none after a failure. After a failure const arguments are unchanged, each part of an assigned Tuple holds its old or its new value, and every intermediate value is released exactly once; swap does not fail for values whose moves do not.",
  ["fault_sequences", "inputs"], "every combination of part types (owning, textual, containers, nested tuples), every number of composed functions, every position of a failing allocation, element copy or function call",
  "Tests use numbers as parts and pure functions, and nothing ever fails.",
  [META, PRE, MAYBE, "include/efp/scientific.hpp", "include/efp/numeric.hpp", "include/efp/c_utility.hpp"],
  [m("one leaf per part, copied member by member", "Tuple and TupleLeaf in " + META), m("functions held by reference and applied from the last to the first", "Composed in " + PRE),
   m("case distinction on the tag before any call", "fmap, ap, bind in " + MAYBE), m("temporary sequences released by unwinding", "include/efp/scientific.hpp")], None, ["tuple", "get", "match", "swap", "compose", "fmap", "ap", "bind", "statistics"])
# --- properties outside the reach of deterministic simulation
p("C21", "Sequence functions compute the textbook list-function results",
  "For all sequences and pure functions, map, filter, foldl, foldr, append, concat, intercalate, the cartesian and indexed forms, elem, find and their index forms return what the corresponding list functions of Haskell return, independent of which sequence types hold the arguments.",
  ["inputs", "programs"], "all input sequences, all element and sequence types", "Tests sample a handful of inputs per function.",
  [PRE], [m("index loops over nth and length", PRE)])
p("C23", "Pattern matching picks the branch overload resolution would pick",
  "match calls exactly the branch that overload resolution selects for the stored alternative, a wildcard only if no other branch applies, and a match that does not cover every alternative does not compile.",
  ["programs", "inputs"], "all sets of alternatives and branches", "Tests compile a handful of matches; most of the statement is about programs that must not compile.",
  [ENUM], [m("inherited call operators of all branches, static checks", ENUM)])
p("C25", "Numeric and statistical functions match their mathematical definitions",
  "sum, product, max_elem, min_elem, mean, variance, covariance, correlation, regression, detrend and the error measures return their mathematical definition up to rounding, for every input on which it is defined.",
  ["inputs"], "all numeric inputs", "Tests compare a few reference values.",
  ["include/efp/numeric.hpp", "include/efp/scientific.hpp"], [m("folds over the sequence", "include/efp/numeric.hpp")])
p("C26", "format renders every specification as fmtlib documents it",
  "For every format string and argument list accepted at compile time the text produced is the one fmtlib specifies, for integers, floating point, strings, containers and all alignment, width, precision and type options.",
  ["inputs", "programs"], "all format strings and arguments", "Tests sample a few specifications.",
  [FMT, "include/efp/fmt/format.h"], [m("vendored fmtlib", "include/efp/fmt")])
p("C27", "Maybe obeys the functor and monad laws; Tuple and compose are transparent",
  "fmap, pure, ap and bind on Maybe satisfy the functor, applicative and monad laws for all pure functions; compose, tuple, apply and func_ptr pass arguments and results through unchanged.",
  ["inputs", "programs"], "all values and pure functions", "Tests check examples.",
  [MAYBE, META, "include/efp/c_utility.hpp"], [m("case distinction on the tag", MAYBE)])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
