// Deterministic simulation runtime: public interface.
// rt.cpp implements the __tsan_* compiler hooks, pthread, stdio and allocation
// entry points, so unmodified efp headers compiled with clang -fsanitize=thread
// (code generation only) run on simulated threads, memory and disk.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t u32() { return (uint32_t)(next() >> 32); }
    uint32_t below(uint32_t n) { return n ? (uint32_t)(((uint64_t)u32() * n) >> 32) : 0; }
    long range(long lo, long hi) { return lo + (long)below((uint32_t)(hi - lo + 1)); }
    bool chance(double p) { return u32() < (uint32_t)(p * 4294967295.0); }
};

// ---------------------------------------------------------------- choices
// Every nondeterministic decision is one choice in one stream; 0 is the quiet
// default (no switch, no fault), so a run is described by its non-zero choices.
enum Stream : int { SCHED = 0, ALLOC, COPY, IO, SPUR, CB, NSTREAM };
extern const char stream_letter[NSTREAM + 1];
struct Choice {
    uint32_t ord;
    uint32_t val;
};

struct Policy {
    int mode = 0;            // 0 random walk, 1 priority based (PCT), 2 run to completion
    uint32_t p_mem = 0;      // preemption probability per plain memory access (of 2^32)
    uint32_t p_sync = 0;     // ... per lock, condition, atomic operation
    int pct_depth = 0;       // number of priority change points
    uint32_t pct_len = 2000; // expected number of points
    uint32_t p_alloc = 0, p_copy = 0, p_io = 0, p_spur = 0, p_cb = 0;
    long one_alloc = -1, one_copy = -1, one_io = -1, one_cb = -1;  // fail exactly this ordinal
    uint32_t io_kinds = ~0u;  // enabled io fault kinds (bit set)
    uint32_t max_faults = 1000;
    int starve = -1;          // fiber that is only scheduled when nothing else can run
};

// ---------------------------------------------------------------- run control
const int MAXF = 10;  // fiber 0 is the host context
void init();          // once per process
void reset(uint64_t seed, const Policy& pol, bool replay);
void replay_choice(Stream s, uint32_t ord, uint32_t val);
const Choice* choices(Stream s, size_t* n);
uint32_t choose(Stream s, uint32_t n);  // explicit choice point for harness code
void faults_enable(bool on);            // globally (quiescence phases switch faults off)
bool faults_enabled();

// fibers
int spawn(void (*fn)(void*), void* arg);  // returns fiber id (1..)
int spawn_left();  // fibers that can still be spawned
void recycle();    // all fibers are done: their ids can be used again
enum Status { ALL_DONE, STUCK, LIMIT };
Status run_all();
int cur();
bool fiber_done(int id);
const char* fiber_state(int id);
void set_step_limit(uint64_t n);
uint64_t steps();
uint64_t tick();  // global event sequence number
void note(uint64_t x);  // fold an observation into the trace hash
uint64_t trace_hash();
uint64_t interleaving_hash();
uint64_t switches();
void op_tag(int tag);  // what the current fiber is doing (for reports)
int op_tag_of(int fiber);
void yield_point();  // a pure scheduling point

// kinds of injected faults
enum Fault { F_ALLOC, F_COPY, F_CB, F_SPURIOUS, F_STALL, F_TIMEOUT, F_OPENFAIL, F_SHORTWRITE, F_EIO_W, F_ENOSPC, F_EINTR_W,
             F_SHORTREAD, F_EIO_R, F_EINTR_R, F_CLOSEFAIL, F_SEEKFAIL, F_CRASH, NFAULT };

// code under test region: hooks act only inside
struct Sut {
    Sut(bool faults = true);
    ~Sut();
    Sut(const Sut&) = delete;
private:
    int prev_;
};
struct NoSut {  // suspends it (bookkeeping called back from code under test)
    NoSut();
    ~NoSut();
    int prev_;
};
bool in_sut();
// a fault point of the harness (element copy, callback): true = fail now
bool fault_here(Stream s, Fault f);

// memory
void* arena_alloc(size_t n, int kind = 3);  // never fails by injection
void* arena_place(size_t n, size_t align);  // the same, aligned as asked for and no better
void arena_free(void* p, int kind = 3);
bool in_arena(const void* p);
size_t live_blocks();
size_t live_bytes();
size_t alloc_calls();  // operator new calls made by code under test so far in the run
void describe_live(char* buf, size_t n);

// element registry (object lifetime oracle)
void obj_born(void* p, const char* what);
void obj_dead(void* p, const char* what);
void obj_used(const void* p, const char* what);
size_t live_objs();

// statistics, per process
extern const char* const fault_name[NFAULT];
extern uint64_t fault_count[NFAULT];
void count_fault(Fault f);
uint64_t run_faults();  // faults fired in this run
uint64_t fiber_faults(int fiber);  // ... while this thread ran (allocation, copy, call-back and i/o faults)
extern uint64_t total_points, total_switches;

// failure
void violation(const char* cls, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
extern void (*on_violation)(const char* cls, const char* msg);  // must not return
// a data race goes through this filter first: true = ignore it (known finding)
extern bool (*race_filter)(int fiber_a, int fiber_b, uintptr_t addr);
extern bool race_known_hit;

// ---------------------------------------------------------------- simulated disk
struct DiskStats { uint64_t opens, closes, reads, writes; };
void disk_reset();
void disk_on(bool on);            // interpose fopen
void disk_set(const char* path, const void* data, size_t n);
bool disk_get(const char* path, const unsigned char** data, size_t* n);
int disk_open_streams();
uint64_t disk_calls();            // stdio calls made by code under test
uint64_t disk_faults();           // io faults that fired since reset
uint64_t disk_read_faults();
void disk_bufsize(int mode);      // -1 default, 0 unbuffered, n bytes, -n line buffered
DiskStats disk_stats();
extern void (*disk_write_hook)(const char* path, size_t n);  // after n bytes reached the disk
FILE* disk_stream(const char* path, const char* mode);  // opened by the harness
int disk_close_harness(FILE* f);
}  // namespace sim
