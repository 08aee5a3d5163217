"""What each check runs."""

TSAN = ["-g1", "-D__NO_INLINE__", "-fsanitize=thread", "-ftrivial-auto-var-init=pattern", "-w"]
CLANG = ["clang++", "-fsized-deallocation"] + TSAN + ["-mllvm", "-tsan-instrument-func-entry-exit=0"]
GCC = ["g++", "-fsized-deallocation"] + TSAN + ["--param", "tsan-instrument-func-entry-exit=0"]

RT_FLAGS = ["clang++", "-std=c++17", "-O2", "-g1", "-D__NO_INLINE__", "-fno-delete-null-pointer-checks", "-fno-builtin"]
LIN_FLAGS = ["clang++", "-std=c++17", "-O2", "-g1"]

VARIANTS = {
    "clang17": CLANG + ["-std=c++17", "-O1"],
    "gcc11": GCC + ["-std=c++11", "-O1"],
    "gcc20": GCC + ["-std=c++20", "-O2"],
    "clang14": CLANG + ["-std=c++14", "-O0"],
}
QUICK_VARIANTS = ["clang17", "clang17", "clang17", "clang17", "clang17", "gcc11", "gcc11", "gcc11"]
THOROUGH_VARIANTS = ["clang17", "clang17", "clang17", "gcc11", "gcc11", "gcc20", "gcc20", "clang14"]

WALL = {"quick": 150, "thorough": 1500}
MINIMISE_S = 25

HARNESS_SRC = {}
HARNESS_DEFS = {}
HARNESS_FALLBACK = {"view": ["-DVIEW_NO_WHILE"]}

ASSUMPTIONS = [
    "memory accesses interleave sequentially consistently (weak-memory reorderings appear as data races, which are checked for, not as reordered values)",
    "the code under test is the headers of /repo compiled by clang 18 and gcc 13 with thread-sanitizer code generation, on x86-64",
    "seeded search: schedules and fault sequences that were not drawn are not covered",
]

THREAD_STUB = ["thread scheduler, mutexes, condition variables, thread yield and sleep, clocks: simulated",
               "operator new and delete: simulated heap with redzones and quarantine"]
FILE_STUB = ["fopen and friends: glibc stdio on a simulated disk (cookie streams) behind interposed calls",
             "operator new and delete: simulated heap with redzones and quarantine"]
HEAP_STUB = ["operator new and delete: simulated heap with redzones, quarantine and injected failures",
             "thread scheduler: simulated (one thread unless stated)"]


def conc(quick, thorough, rule, extra=None):
    return {
        "harness": "conc", "quick": quick, "thorough": thorough, "rule": rule,
        "real": ["efp/concurrency.hpp (Spinlock, BlockingQ, NonBlockingQ, DoubleBuffer)", "efp/cyclic.hpp", "efp/maybe.hpp", "efp/enum.hpp",
                 "efp/sequence.hpp and efp/string.hpp for String elements", "libstdc++ std::queue, std::mutex, std::condition_variable wrappers"],
        "stub": THREAD_STUB,
        "assumptions": extra or [],
    }


Q = "2 to 5 simulated threads issue seeded calls on one queue (element types int, 3-word struct, owning object, pointer, String; capacities 1, 2, 3, 5); "
PROPS = {
    "C01": conc(1000000, 60000000, Q + "the recorded history of the unbounded blocking queue is checked for linearizability against a FIFO."),
    "C02": conc(1000000, 60000000, Q + "the recorded history of the bounded queues is checked against a FIFO that drops its oldest element when full."),
    "C03": conc(1000000, 60000000, Q + "mostly consumers, with spurious wake-ups; at quiescence a blocked consumer means the queue must be empty, and further enqueues must serve every blocked consumer."),
    "C04": conc(1000000, 60000000, Q + "histories of the non-blocking queue, including is_empty and unsuccessful dequeues, are checked for linearizability; no call may block forever."),
    "C05": conc(1000000, 60000000, Q + "several producers and one consumer use a double buffer; histories are checked against a two-buffer model."),
    "C06": conc(1000000, 60000000, Q + "every plain memory access is checked for a happens-before race (vector clocks over every byte), for use after free and for out-of-bounds access."),
    "C07": conc(1000000, 60000000, Q + "allocations and element copies fail at seeded points; a failed call must have had no effect, later calls must succeed, nothing may leak or be released twice."),
}


def filep(quick, thorough, rule):
    return {
        "harness": "file", "quick": quick, "thorough": thorough, "rule": rule,
        "real": ["efp/io.hpp (File)", "efp/maybe.hpp", "efp/enum.hpp", "efp/sequence.hpp", "efp/string.hpp", "glibc stdio buffering"],
        "stub": FILE_STUB, "assumptions": [],
    }


F = "one simulated process issues a seeded history of calls on several Files (opened by C string or String, all modes including long ones) on a simulated disk with seeded buffer sizes; "
PROPS.update({
    "C08": filep(4000000, 200000000, F + "writes, opens, flushes and closes fail or are cut short and the process may crash at seeded points; the disk is compared with what was acknowledged."),
    "C09": filep(4000000, 200000000, F + "files of up to 90000 bytes and far more than ten thousand lines, some growing while they are read; reads are split, interrupted or fail at seeded points; the lines returned are compared with the content of the disk."),
    "C10": filep(4000000, 200000000, F + "files are opened, moved, assigned, closed and destroyed with failing calls; each stream must be closed exactly once and never used afterwards."),
    "C11": filep(4000000, 200000000, F + "every operation is issued on files that were closed, moved from or failed to close; it must report failure and touch no stream."),
})


def textp(quick, thorough, rule, stub):
    return {
        "harness": "text", "quick": quick, "thorough": thorough, "rule": rule,
        "real": ["efp/format.hpp", "efp/fmt/core.h", "efp/fmt/format.h", "efp/fmt/format-inl.h", "efp/string.hpp", "efp/sequence.hpp", "efp/cyclic.hpp", "glibc stdio buffering"],
        "stub": stub, "assumptions": [],
    }


PROPS.update({
    "C12": textp(600000, 30000000, "1 to 5 simulated threads print seeded messages of 0 to 2500 bytes onto a simulated standard output (unbuffered, fully and line buffered); allocations and writes fail at seeded points; "
                 "the text that arrives must be whole messages, each once, in real-time order.", THREAD_STUB + FILE_STUB[:1]),
    "C19": textp(1000000, 60000000, "seeded format calls (strings, sequences, doubles, padded and precise numbers, numbered arguments, up to 17 arguments, refused widths, texts of 0 to 2500 bytes) with allocations failing at seeded points; the text is compared with an independent rendering, "
                 "failures must leak nothing and leave arguments and later calls unaffected.", HEAP_STUB),
})


def contp(harness, quick, thorough, rule, real, extra=None):
    return {
        "harness": harness, "quick": quick, "thorough": thorough, "rule": rule,
        "real": real, "stub": HEAP_STUB, "assumptions": extra or [],
    }


H = "a seeded history of calls on several objects, with allocations and element copies failing at seeded points; after every call each object is compared with a reference model, and the live element objects and blocks are counted; "
PROPS.update({
    "C13": contp("vec", 2000000, 100000000, H + "Vector and String.", ["efp/sequence.hpp (Vector)", "efp/string.hpp", "efp/prelude.hpp"]),
    "C14": contp("fixed", 2000000, 100000000, H + "Array and ArrVec.", ["efp/sequence.hpp (Array, ArrVec)", "efp/cpp_core.hpp (RawStorage, ConstructionGuard)"]),
    "C15": contp("fixed", 2000000, 100000000, H + "Vcb and Vcq.", ["efp/cyclic.hpp (Vcb, Vcq)"]),
    "C16": contp("fixed", 2000000, 100000000, H + "Enum (1 to 100 alternatives) and Maybe, every form of get, move and match, with failing and re-entrant visitors.", ["efp/enum.hpp", "efp/maybe.hpp"]),
})
PROPS.update({
    "C17": contp("seq", 2000000, 100000000, "seeded calls of every sequence function on Vector, Array, ArrVec and Vcq arguments of 0 to 40 elements; allocations, element copies and callbacks fail at seeded points; result, callback "
                 "calls, arguments and live objects are compared with a reference after each call.", ["efp/prelude.hpp", "efp/sequence.hpp", "efp/cyclic.hpp", "efp/maybe.hpp"]),
    "C24": contp("seq", 4000000, 200000000, "seeded calls of every sequence function on Vector, Array, ArrVec and Vcq arguments of numbers, with no memory left in most runs and allocations and callbacks failing at seeded points in others; "
                 "a call whose arguments are all bounded at compile time must not fail for lack of memory, and the kind of its result must be the expected one; results are compared with a reference.", ["efp/prelude.hpp", "efp/sequence.hpp", "efp/cyclic.hpp", "efp/maybe.hpp"]),
    "C18": contp("seq", 400000, 20000000, "seeded calls of every sort function on vectors of 0 to 140 (thorough 400; some up to 3000) elements in eight input patterns; the comparator, element copies and allocations fail at seeded points; order, "
                 "stability, permutation and live objects are checked after each call.", ["efp/sort.hpp", "efp/sequence.hpp"]),
})
PROPS.update({
    "C22": contp("view", 8000000, 400000000, "seeded histories of take, drop, slice (counts from 0 to the largest size_t and static ones), head, tail, init, last, take_while and drop_while on Vector, Array, ArrVec, Vcq, Vcb and String and on views of them; "
                 "allocations and element copies fail (in a quarter of the runs all of them do), predicates throw at seeded points, elements below the views are overwritten; after every step every view is compared, address by address, with the "
                 "container's elements.", ["efp/prelude.hpp", "efp/sequence.hpp (containers and views)", "efp/cyclic.hpp", "efp/string.hpp"]),
    "C28": contp("value", 2000000, 100000000, "seeded calls on Tuples of 1 to 7 parts (owning objects, texts, containers, Maybe, nested Tuples), compositions of 2 to 5 functions, Maybe combinators, swap, func_ptr and 32 statistical "
                 "functions on Vector, Array and ArrVec; allocations, element copies and functions fail at seeded points; result, calls made, arguments and live objects are compared with a reference after each call.",
                 ["efp/meta.hpp (Tuple, swap)", "efp/prelude.hpp (compose)", "efp/maybe.hpp", "efp/numeric.hpp", "efp/scientific.hpp", "efp/c_utility.hpp", "efp/sequence.hpp", "efp/string.hpp"]),
})
PROPS.update({
    "C20": {
        "harness": "shared", "quick": 1000000, "thorough": 60000000,
        "rule": "2 to 4 simulated threads issue seeded const calls on one shared Vector, ArrVec, Array, Vcb, Vcq, String, Enum, Maybe, Tuple, composition, number sequence or view (elements int, owning object, String); every plain memory access is checked "
                "for a happens-before race, each result is compared with the result of the same call made alone, and the object afterwards with itself before; allocations and copies fail in a quarter of the runs.",
        "real": ["efp/sequence.hpp", "efp/string.hpp", "efp/cyclic.hpp", "efp/enum.hpp", "efp/maybe.hpp", "efp/prelude.hpp", "efp/sort.hpp", "efp/format.hpp", "efp/meta.hpp (Tuple)", "efp/numeric.hpp", "efp/scientific.hpp"],
        "stub": THREAD_STUB, "assumptions": [],
    },
})
PROPS["C18"]["quick"] = 1500000
