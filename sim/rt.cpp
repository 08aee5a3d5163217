// Deterministic simulation runtime (see rt.h).  Compiled without instrumentation.
// It replaces, by link-time interposition, everything the code under test could
// get nondeterminism from: preemption (compiler hooks emitted by
// clang -fsanitize=thread), pthread locks and condition variables, operator new,
// stdio streams, sleep and clocks.  No part of the ThreadSanitizer runtime is used.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <exception>
#include <fcntl.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace __cxxabiv1 {
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept;
}
namespace abi = __cxxabiv1;

namespace sim {

const char stream_letter[NSTREAM + 1] = "SACIPB";
void (*on_violation)(const char*, const char*) = nullptr;
bool (*race_filter)(int, int, uintptr_t) = nullptr;
bool race_known_hit = false;
const char* const fault_name[NFAULT] = {
    "failed_allocation", "failed_element_copy", "failed_callback", "spurious_wakeup", "stalled_thread",
    "timeout_clock_jump", "open_error",        "short_write",      "write_error",      "disk_full",
    "interrupted_write", "short_read",         "read_error",       "interrupted_read", "close_error",
    "seek_error",        "process_crash"};
uint64_t fault_count[NFAULT];
uint64_t total_points, total_switches;
static uint64_t run_fault_n, fiber_fault_n[MAXF];

void count_fault(Fault f) {
    fault_count[f]++;
    run_fault_n++;
    if (f != F_SPURIOUS && f != F_STALL && f != F_TIMEOUT) fiber_fault_n[cur()]++;
}
uint64_t run_faults() { return run_fault_n; }
uint64_t fiber_faults(int f) { return fiber_fault_n[f]; }

static void fib_off();
static char vmsg[2048];
static volatile int in_violation;
void violation(const char* cls, const char* fmt, ...) {
    if (in_violation++) _exit(12);
    fib_off();
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(vmsg, sizeof vmsg, fmt, ap);
    va_end(ap);
    if (on_violation) on_violation(cls, vmsg);
    fprintf(stderr, "violation %s: %s\n", cls, vmsg);
    _exit(11);
}

// ---------------------------------------------------------------- fibers
struct VC {
    uint32_t c[MAXF];
};
static inline void vc_join(VC& a, const VC& b) {
    for (int i = 0; i < MAXF; i++)
        if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}

enum FState { F_FREE, F_READY, F_MUTEX, F_COND, F_SLEEP, F_DONE };
struct Fiber {
    bool unlocked;  // inside a call that does not lock its stream
    void* sp;
    FState st;
    void (*fn)(void*);
    void* arg;
    int active;   // 0 outside code under test, 1 inside, 2 inside with faults
    int tag;
    VC vc;
    VC acq_fence, rel_fence;
    void* wait_obj;
    uint64_t deadline;  // 0 none
    int woken;          // why a condition wait ended: 1 notified, 2 spurious, 3 timed out
    uint64_t eh[2];
    int err;
    uint32_t atomics, points;
    int statics;  // function-local statics being initialised
    uint32_t prio;
    uint64_t wait_seq;
};
static Fiber fib[MAXF];
static int curf;
static int nfib;
static uint32_t runmask;
static const size_t STACK = 512 * 1024;
static char* const STACK_BASE = (char*)0x200000000000ull;
static char* host_lo;
static char* host_hi;

extern "C" void sim_switch(void** save, void** load);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq (%rsi), %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");

// ---------------------------------------------------------------- choices
static Policy pol;
static Rng rng(1), frng(2);
static bool replaying;
static bool faults_on = true;
static uint32_t ordn[NSTREAM];
static Choice* rec[NSTREAM];
static size_t nrec[NSTREAM], crec[NSTREAM];
static size_t rpos[NSTREAM];
static uint64_t nsteps, step_limit = 200000, ntick;
static uint64_t thash, ihash, nswitch;
static bool fair;
static uint64_t time_off;
static uint32_t pct_pts[64];
static int npct;
static uint32_t pct_low;
static uint64_t cond_seq;
static bool race_on;

static inline void mix(uint64_t& h, uint64_t x) {
    h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xBF58476D1CE4E5B9ull;
    h ^= h >> 29;
}
void note(uint64_t x) { mix(thash, x); mix(ihash, x); }
uint64_t trace_hash() { return thash; }
uint64_t interleaving_hash() { return ihash; }
uint64_t switches() { return nswitch; }
uint64_t steps() { return nsteps; }
uint64_t tick() { return ++ntick; }
void set_step_limit(uint64_t n) { step_limit = n; }
void faults_enable(bool on) { faults_on = on; }
bool faults_enabled() { return faults_on; }

static void push_choice(Stream s, uint32_t ord, uint32_t val) {
    if (nrec[s] == crec[s]) {
        crec[s] = crec[s] ? crec[s] * 2 : 256;
        rec[s] = (Choice*)realloc(rec[s], crec[s] * sizeof(Choice));
    }
    rec[s][nrec[s]].ord = ord;
    rec[s][nrec[s]].val = val;
    nrec[s]++;
}
void replay_choice(Stream s, uint32_t ord, uint32_t val) { push_choice(s, ord, val); }
const Choice* choices(Stream s, size_t* n) {
    *n = nrec[s];
    return rec[s];
}
// value recorded for this ordinal, 0 if none
static uint32_t replay_val(Stream s, uint32_t ord) {
    while (rpos[s] < nrec[s] && rec[s][rpos[s]].ord < ord) rpos[s]++;
    if (rpos[s] < nrec[s] && rec[s][rpos[s]].ord == ord) return rec[s][rpos[s]].val;
    return 0;
}
static inline uint32_t settle(Stream s, uint32_t fresh, uint32_t n) {
    uint32_t ord = ordn[s]++;
    uint32_t v;
    if (replaying) {
        v = replay_val(s, ord);
        if (v >= n) v = n ? n - 1 : 0;
    } else {
        v = fresh;
        if (v) push_choice(s, ord, v);
    }
    if (v) mix(thash, ((uint64_t)s << 56) ^ ((uint64_t)ord << 16) ^ v);
    return v;
}
uint32_t choose(Stream s, uint32_t n) {
    uint32_t fresh = 0;
    if (!replaying && n > 1) {
        uint32_t p = 0;
        long one = -1;
        switch (s) {
            case ALLOC: p = pol.p_alloc; one = pol.one_alloc; break;
            case COPY: p = pol.p_copy; one = pol.one_copy; break;
            case IO: p = pol.p_io; one = pol.one_io; break;
            case SPUR: p = pol.p_spur; break;
            case CB: p = pol.p_cb; one = pol.one_cb; break;
            default: p = 0xFFFFFFFFu; break;
        }
        if (s == SCHED) {
            fresh = frng.below(n);
        } else if (faults_on && run_fault_n < pol.max_faults) {
            if ((one >= 0 && (long)ordn[s] == one) || (p && frng.u32() < p)) fresh = 1 + frng.below(n - 1);
        }
    }
    if (!faults_on && s != SCHED) {
        // quiescence phase: no ordinal is used up, so replay stays aligned
        return 0;
    }
    return settle(s, fresh, n);
}

// ---------------------------------------------------------------- scheduling
// thread-local variables of the program: every fiber has its own copy, swapped in
// when it runs; errno and the exception state of the C and C++ runtimes as well
static char* tls_block;
static const char* tls_image;
static size_t tls_size, tls_init;
static char* tls_of[MAXF];
struct TlsDtor {
    void (*fn)(void*);
    void* obj;
};
static TlsDtor tls_dtors[MAXF][32];
static int tls_ndtor[MAXF];
static int find_tls(dl_phdr_info* i, size_t, void*) {
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
            tls_block = (char*)i->dlpi_tls_data;
            tls_image = (const char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
            tls_init = i->dlpi_phdr[k].p_filesz;
            tls_size = i->dlpi_phdr[k].p_memsz;
        }
    return 1;  // the first object is the program itself
}
static void tls_fresh(char* to) {
    if (!tls_size) return;
    memcpy(to, tls_image, tls_init);
    memset(to + tls_init, 0, tls_size - tls_init);
}
static inline void save_tls(Fiber& f) {
    uint64_t* g = (uint64_t*)abi::__cxa_get_globals();
    f.eh[0] = g[0];
    f.eh[1] = g[1];
    f.err = errno;
    if (tls_size) memcpy(tls_of[&f - fib], tls_block, tls_size);
}
static inline void load_tls(Fiber& f) {
    uint64_t* g = (uint64_t*)abi::__cxa_get_globals();
    g[0] = f.eh[0];
    g[1] = f.eh[1];
    errno = f.err;
    if (tls_size) memcpy(tls_block, tls_of[&f - fib], tls_size);
}
static Status final_status;
static void switch_to(int t) {
    int from = curf;
    if (t == from) return;
    nswitch++;
    total_switches++;
    mix(thash, 0x5157 ^ ((uint64_t)t << 32) ^ nsteps);
    Fiber& a = fib[from];
    Fiber& b = fib[t];
    a.atomics = a.points = 0;
    b.atomics = b.points = 0;
    save_tls(a);
    curf = t;
    sim_switch(&a.sp, &b.sp);
    load_tls(fib[curf]);
}
static inline int nth_after(uint32_t mask, int from, uint32_t k) {
    // k-th set bit of mask in cyclic order after `from`
    for (int i = 1; i <= MAXF; i++) {
        int j = (from + i) % MAXF;
        if (mask & (1u << j)) {
            if (k == 0) return j;
            k--;
        }
    }
    return -1;
}
static uint64_t now_us() { return 1000000000ull + nsteps + time_off; }

static inline bool pct_change() {
    for (int i = 0; i < npct; i++)
        if (pct_pts[i] == ordn[SCHED]) return true;
    return false;
}
static int pct_best(uint32_t mask) {
    int best = -1;
    for (int i = 1; i < MAXF; i++)
        if ((mask & (1u << i)) && (best < 0 || fib[i].prio > fib[best].prio)) best = i;
    return best;
}
static inline uint32_t index_after(uint32_t mask, int from, int target) {
    uint32_t k = 0;
    for (int i = 1; i <= MAXF; i++) {
        int j = (from + i) % MAXF;
        if (j == target) return k;
        if (mask & (1u << j)) k++;
    }
    return 0;
}

static void to_host(Status s) {
    final_status = s;
    int from = curf;
    save_tls(fib[from]);
    curf = 0;
    sim_switch(&fib[from].sp, &fib[0].sp);
    load_tls(fib[curf]);
}

// a voluntary or forced scheduling point of the running fiber
static void point(int kind) {
    nsteps++;
    total_points++;
    Fiber& f = fib[curf];
    if (curf == 0) {
        if (nsteps > step_limit) violation("hang", "the call made no end after %llu steps", (unsigned long long)nsteps);
        return;
    }
    if (nsteps > step_limit) {
        if (!fair) {
            fair = true;
            faults_on = false;
            step_limit += step_limit;
        } else {
            to_host(LIMIT);  // never resumed
        }
    }
    f.points++;
    uint32_t others = runmask & ~(1u << curf);
    if (kind == 2) f.atomics++;
    bool force = others && (f.atomics > 64 || f.points > 20000 || (fair && f.points > 40));
    uint32_t n = (uint32_t)__builtin_popcount(others);
    uint32_t fresh = 0;
    if (!replaying && n && !force && !fair) {
        if (pol.mode == 1) {
            if (pct_change()) {
                f.prio = --pct_low;
            }
            int b = pct_best(runmask);
            if (b != curf) fresh = 1 + index_after(others, curf, b);
        } else if (pol.mode == 0) {
            uint32_t cand = others;
            if (pol.starve > 0 && (cand & ~(1u << pol.starve))) cand &= ~(1u << pol.starve);
            uint32_t p = kind == 0 ? pol.p_mem : pol.p_sync;
            if (curf == pol.starve) p = 0xFFFFFFFFu;
            if (p && rng.u32() <= p) {
                int t = nth_after(cand, curf, rng.below((uint32_t)__builtin_popcount(cand)));
                if (t == pol.starve) {
                    if (rng.below(64) == 0) fresh = 1 + index_after(others, curf, t);
                } else {
                    fresh = 1 + index_after(others, curf, t);
                }
            }
        }
    }
    uint32_t v = settle(SCHED, fresh, n + 1);
    if (force) {
        if (pol.mode == 1) f.prio = --pct_low;
        switch_to(nth_after(others, curf, 0));
    } else if (v && n) {
        switch_to(nth_after(others, curf, v - 1));
    }
}

// Threads that wake up by time-out alone, find nothing to do and wait again are
// as good as blocked: after a number of such rounds without any call beginning or
// ending the run is reported as stuck.
static uint64_t poll_tick;
static int poll_rounds;
static bool polling() {
    if (poll_tick != ntick) {
        poll_tick = ntick;
        poll_rounds = 0;
    }
    return ++poll_rounds > 60;
}
static void fire_timeouts(bool jump) {
    uint64_t best = 0;
    for (int i = 1; i <= nfib; i++) {
        Fiber& f = fib[i];
        if ((f.st == F_COND || f.st == F_SLEEP || f.st == F_MUTEX) && f.deadline) {
            if (!best || f.deadline < best) best = f.deadline;
        }
    }
    if (!best) return;
    if (jump && best > now_us()) time_off += best - now_us();
    for (int i = 1; i <= nfib; i++) {
        Fiber& f = fib[i];
        if ((f.st == F_COND || f.st == F_SLEEP || f.st == F_MUTEX) && f.deadline && f.deadline <= now_us()) {
            f.st = F_READY;
            f.woken = 3;
            runmask |= 1u << i;
        }
    }
}

// the running fiber gave up the processor (blocked or done)
static void resched() {
    nsteps++;
    total_points++;
    fire_timeouts(false);
    if (!runmask && !polling()) fire_timeouts(true);
    if (!runmask) {
        bool live = false;
        for (int i = 1; i <= nfib; i++)
            if (fib[i].st != F_DONE && fib[i].st != F_FREE) live = true;
        to_host(live ? STUCK : ALL_DONE);
        return;
    }
    uint32_t n = (uint32_t)__builtin_popcount(runmask);
    uint32_t fresh = 0;
    if (!replaying && !fair) {
        if (pol.mode == 1) {
            fresh = index_after(runmask, curf, pct_best(runmask));
        } else {
            uint32_t cand = runmask;
            if (pol.starve > 0 && (cand & ~(1u << pol.starve))) cand &= ~(1u << pol.starve);
            int t = nth_after(cand, curf, rng.below((uint32_t)__builtin_popcount(cand)));
            fresh = index_after(runmask, curf, t);
        }
    }
    uint32_t v = settle(SCHED, fresh, n);
    int t = nth_after(runmask, curf, v);
    if (t == curf) return;
    switch_to(t);
}

static void fiber_main() {
    Fiber& f = fib[curf];
    load_tls(f);
    try {
        f.fn(f.arg);
    } catch (...) {
        violation("uncaught", "an exception escaped from simulated thread %d", curf);
    }
    if (tls_ndtor[curf]) {
        Sut q(false);
        while (tls_ndtor[curf]) {
            TlsDtor d = tls_dtors[curf][--tls_ndtor[curf]];
            d.fn(d.obj);
        }
    }
    f.st = F_DONE;
    f.active = 0;
    runmask &= ~(1u << curf);
    for (;;) resched();
}

static void prep_stack(Fiber& f, int id) {
    char* top = STACK_BASE + (size_t)id * 0x100000 + STACK;
    memset(top - 4096, 0, 4096);
    uint64_t* sp = (uint64_t*)(top - 64);
    *--sp = 0;
    *--sp = (uint64_t)(void*)fiber_main;
    for (int i = 0; i < 6; i++) *--sp = 0;
    uint32_t mxcsr;
    uint16_t cw;
    asm volatile("stmxcsr %0" : "=m"(mxcsr));
    asm volatile("fnstcw %0" : "=m"(cw));
    *--sp = (uint64_t)mxcsr | ((uint64_t)cw << 32);
    f.sp = sp;
}

int spawn(void (*fn)(void*), void* arg) {
    if (nfib + 1 >= MAXF) abort();
    int id = ++nfib;
    Fiber& f = fib[id];
    uint32_t clk = f.vc.c[id];
    memset(&f, 0, sizeof f);
    f.st = F_READY;
    f.fn = fn;
    f.arg = arg;
    f.vc = fib[curf].vc;
    f.vc.c[id] = clk + 1;
    fib[curf].vc.c[curf]++;
    f.prio = 1000 + rng.below(1000000);
    prep_stack(f, id);
    if (tls_size) tls_fresh(tls_of[id]);
    tls_ndtor[id] = 0;
    runmask |= 1u << id;
    race_on = true;
    return id;
}
int spawn_left() { return MAXF - 1 - nfib; }
void recycle() {
    // finished fibers at the top of the table are released.  Their clock values
    // stay, so that a new fiber with the same id continues them.
    while (nfib && fib[nfib].st == F_DONE) nfib--;
}
Status run_all() {
    final_status = ALL_DONE;
    for (int i = 1; i <= nfib; i++)
        if (fib[i].st == F_READY) runmask |= 1u << i;
    if (!runmask) {
        // only blocked or finished fibers are left
        poll_rounds = 0;
        fire_timeouts(true);
        if (!runmask) {
            for (int i = 1; i <= nfib; i++)
                if (fib[i].st != F_DONE && fib[i].st != F_FREE) return STUCK;
            return ALL_DONE;
        }
    }
    uint32_t n = (uint32_t)__builtin_popcount(runmask);
    uint32_t fresh = 0;
    if (!replaying) fresh = pol.mode == 1 ? index_after(runmask, 0, pct_best(runmask)) : rng.below(n);
    uint32_t v = settle(SCHED, fresh, n);
    switch_to(nth_after(runmask, 0, v));
    for (int i = 1; i <= nfib; i++)
        if (fib[i].st == F_DONE) vc_join(fib[0].vc, fib[i].vc);
    return final_status;
}
int cur() { return curf; }
bool fiber_done(int id) { return fib[id].st == F_DONE; }
const char* fiber_state(int id) {
    switch (fib[id].st) {
        case F_READY: return "ready";
        case F_MUTEX: return "lock";
        case F_COND: return "wait";
        case F_SLEEP: return "sleep";
        case F_DONE: return "done";
        default: return "-";
    }
}
void op_tag(int t) { fib[curf].tag = t; }
int op_tag_of(int f) { return fib[f].tag; }
void yield_point() { point(1); }

Sut::Sut(bool faults) : prev_(fib[curf].active) { fib[curf].active = faults ? 2 : 1; }
Sut::~Sut() { fib[curf].active = prev_; }
NoSut::NoSut() : prev_(fib[curf].active) { fib[curf].active = 0; }
NoSut::~NoSut() { fib[curf].active = prev_; }
bool in_sut() { return fib[curf].active != 0; }
bool fault_here(Stream s, Fault f) {
    if (fib[curf].active != 2 || !choose(s, 2)) return false;
    count_fault(f);
    mix(ihash, 0xFA17 + (uint64_t)f);
    return true;
}
static void fib_off() {
    for (int i = 0; i < MAXF; i++) fib[i].active = 0;
}
static inline bool act() { return fib[curf].active != 0; }

// ---------------------------------------------------------------- memory
static const size_t ARENA = 128u << 20;
static char* const ARENA_BASE = (char*)0x100000000000ull;
static unsigned char* shadow;  // 0 never allocated or red zone, 1 live, 2 freed
static size_t bump;
static const size_t RZ = 32;
struct Block {
    uint32_t off;
    uint32_t size;
    uint8_t kind;  // 0 new, 1 new[], 3 harness
    uint8_t live;
    uint16_t fiber;
    uint32_t tag;
};
static Block* blocks;
static size_t nblocks, cblocks;
static size_t nlive, blive, nalloc;

bool in_arena(const void* p) { return (const char*)p >= ARENA_BASE && (const char*)p < ARENA_BASE + ARENA; }
static Block* find_block(size_t off) {
    size_t lo = 0, hi = nblocks;
    while (lo < hi) {
        size_t m = (lo + hi) / 2;
        if (blocks[m].off <= off) lo = m + 1;
        else hi = m;
    }
    return lo ? &blocks[lo - 1] : nullptr;
}

// race cells -------------------------------------------------------
struct Cell {
    uint32_t gen;
    uint8_t wf, awf, pad[2];
    uint32_t wc, awc;
    uint32_t rc[MAXF], arc[MAXF];
};
static Cell* cells;  // one per arena byte, for the first CELLS bytes of the arena; the hash table holds the rest
static const size_t CELLS = 32u << 20;
static uint32_t gen = 1;
static const size_t HSIZE = 1u << 17;
struct HCell {
    uintptr_t addr;
    Cell c;
};
static HCell* htab;
static Cell* cell_of(uintptr_t a) {
    if (a >= (uintptr_t)ARENA_BASE && a < (uintptr_t)ARENA_BASE + CELLS) return &cells[a - (uintptr_t)ARENA_BASE];
    size_t h = (a * 0x9E3779B97F4A7C15ull) >> 47;
    for (size_t i = 0; i < 64; i++) {
        HCell& e = htab[(h + i) & (HSIZE - 1)];
        if (e.c.gen != gen) {
            memset(&e.c, 0, sizeof e.c);
            e.c.gen = gen;
            e.addr = a;
            return &e.c;
        }
        if (e.addr == a) return &e.c;
    }
    return nullptr;  // table crowded: this address is not tracked
}
static void race(int other, const char* a, const char* b, uintptr_t addr) {
    if (race_filter && race_filter(other, curf, addr)) {
        race_known_hit = true;
        return;
    }
    char where[64] = "static or stack memory";
    if (in_arena((void*)addr)) {
        Block* bl = find_block((size_t)(addr - (uintptr_t)ARENA_BASE));
        if (bl) snprintf(where, sizeof where, "byte %ld of a block of %u bytes", (long)((char*)addr - ARENA_BASE) - (long)bl->off, bl->size);
    }
    violation("race", "data race: %s by simulated thread %d (op tag %d) is not ordered with the earlier %s by thread %d (op tag %d) on %s",
              a, curf, fib[curf].tag, b, other, fib[other].tag, where);
}
static inline void race_access(uintptr_t a, size_t n, bool wr, bool at) {
    if (!race_on) return;
    const VC& vc = fib[curf].vc;
    for (size_t i = 0; i < n; i++) {
        Cell* c = cell_of(a + i);
        if (!c) continue;
        if (c->gen != gen) {
            memset(c, 0, sizeof *c);
            c->gen = gen;
        }
        if (c->wc && c->wf != curf && c->wc > vc.c[c->wf]) race(c->wf, wr ? "write" : "read", "write", a + i);
        if (!at && c->awc && c->awf != curf && c->awc > vc.c[c->awf]) race(c->awf, wr ? "write" : "read", "atomic write", a + i);
        if (wr) {
            for (int f = 0; f < MAXF; f++) {
                if (f == curf) continue;
                if (c->rc[f] > vc.c[f]) race(f, at ? "atomic write" : "write", "read", a + i);
                if (!at && c->arc[f] > vc.c[f]) race(f, "write", "atomic read", a + i);
            }
        }
        uint32_t me = vc.c[curf];
        if (wr) {
            if (at) {
                c->awf = (uint8_t)curf;
                c->awc = me;
            } else {
                c->wf = (uint8_t)curf;
                c->wc = me;
                memset(c->rc, 0, sizeof c->rc);
            }
        } else {
            if (at) c->arc[curf] = me;
            else c->rc[curf] = me;
        }
    }
}
static void check_range(uintptr_t a, size_t n, const char* what) {
    if (a < (uintptr_t)ARENA_BASE || a >= (uintptr_t)ARENA_BASE + ARENA) return;
    size_t off = a - (uintptr_t)ARENA_BASE;
    for (size_t i = 0; i < n; i++) {
        unsigned char s = shadow[off + i];
        if (s == 1) continue;
        Block* b = find_block(off + i);
        if (s == 2)
            violation("use-after-free", "%s of %zu bytes in freed memory (block of %u bytes, offset %ld), thread %d op tag %d", what, n,
                      b ? b->size : 0, b ? (long)(off + i) - (long)b->off : 0, curf, fib[curf].tag);
        violation("out-of-bounds", "%s of %zu bytes outside a block (nearest block of %u bytes, offset %ld), thread %d op tag %d", what, n,
                  b ? b->size : 0, b ? (long)(off + i) - (long)b->off : 0, curf, fib[curf].tag);
    }
}

static void* arena_raw(size_t n, size_t align, int kind, size_t shift = 0) {
    size_t off = bump + RZ;
    if (align < 16) align = 16;
    off = ((off + align - 1) & ~(align - 1)) + shift;
    if (off + n + RZ > ARENA) violation("runaway-allocation", "more than %zu bytes allocated in one run", (size_t)ARENA);
    bump = off + n;
    bump = (bump + 15) & ~(size_t)15;
    memset(shadow + off, 1, n);
    memset(ARENA_BASE + off, 0xCB, n);
    if (nblocks == cblocks) {
        cblocks = cblocks ? cblocks * 2 : 1024;
        blocks = (Block*)realloc(blocks, cblocks * sizeof(Block));
    }
    Block& b = blocks[nblocks++];
    b.off = (uint32_t)off;
    b.size = (uint32_t)n;
    b.kind = (uint8_t)kind;
    b.live = 1;
    b.fiber = (uint16_t)curf;
    b.tag = (uint32_t)fib[curf].tag;
    if (kind != 3) {
        nlive++;
        blive += n;
    }
    return ARENA_BASE + off;
}
void* arena_alloc(size_t n, int kind) { return arena_raw(n ? n : 1, 16, kind); }
void* arena_place(size_t n, size_t align) { return arena_raw(n ? n : 1, align, 3, align); }
void arena_free(void* p, int kind) {
    if (!p) return;
    size_t off = (size_t)((char*)p - ARENA_BASE);
    Block* b = find_block(off);
    if (!b || b->off != off) {
        violation("bad-free", "release of a pointer that was not allocated (offset %ld in the nearest block), thread %d op tag %d",
                  b ? (long)off - (long)b->off : -1, curf, fib[curf].tag);
    }
    if (!b->live) violation("double-free", "second release of a block of %u bytes, thread %d op tag %d", b->size, curf, fib[curf].tag);
    if (b->kind != kind)
        violation("bad-free", "block of %u bytes allocated with %s but released with %s", b->size,
                  b->kind == 0 ? "operator new" : b->kind == 1 ? "operator new[]" : "simulator", kind == 0 ? "operator delete" : kind == 1 ? "operator delete[]" : "simulator");
    if (act()) race_access((uintptr_t)p, b->size, true, false);
    b->live = 0;
    memset(shadow + off, 2, b->size);
    memset(p, 0xDB, b->size);
    if (kind != 3) {
        nlive--;
        blive -= b->size;
    }
}
size_t live_blocks() { return nlive; }
size_t live_bytes() { return blive; }
size_t alloc_calls() { return nalloc; }
void describe_live(char* buf, size_t n) {
    size_t k = 0;
    buf[0] = 0;
    for (size_t i = 0; i < nblocks && k + 60 < n; i++)
        if (blocks[i].live && blocks[i].kind != 3)
            k += (size_t)snprintf(buf + k, n - k, "[%u bytes, thread %u, op tag %u] ", blocks[i].size, blocks[i].fiber, blocks[i].tag);
}

static void* do_new(size_t n, size_t align, int kind, bool nothrow) {
    if (!act()) {
        void* p = align > 16 ? aligned_alloc(align, (n + align - 1) & ~(align - 1)) : malloc(n ? n : 1);
        if (!p) abort();
        return p;
    }
    point(1);
    nalloc++;
    bool fail = false;
    if (fib[curf].statics) {  // lives as long as the program, not as long as the run
        void* p = align > 16 ? aligned_alloc(align, (n + align - 1) & ~(align - 1)) : malloc(n ? n : 1);
        if (!p) abort();
        return p;
    }
    if (n > (1u << 24)) {
        fail = true;
    } else if (fib[curf].active == 2 && choose(ALLOC, 2)) {
        fail = true;
        count_fault(F_ALLOC);
        mix(ihash, 0xA110C);
    }
    if (fail) {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    return arena_raw(n ? n : 1, align, kind);
}
static void do_delete(void* p, int kind, size_t n = (size_t)-1) {
    if (!p) return;
    if (in_arena(p)) {
        size_t off = (size_t)((char*)p - ARENA_BASE);
        Block* b = find_block(off);
        if (b && b->off == off && b->live && n != (size_t)-1 && b->size != (n ? n : 1))
            violation("bad-free", "a block of %u bytes is released as one of %zu bytes", b->size, n);
        if (act()) point(1);
        arena_free(p, kind);
    } else {
        free(p);
    }
}

// ---------------------------------------------------------------- object registry
struct Obj {
    uintptr_t p;
    uint32_t gen;
    uint8_t live;
    const char* what;
};
static const size_t OSIZE = 1u << 17;
static Obj* objs;
static size_t nobj;
static Obj* obj_slot(uintptr_t p) {
    size_t h = (p * 0x9E3779B97F4A7C15ull) >> 47;
    for (size_t i = 0; i < OSIZE; i++) {
        Obj& o = objs[(h + i) & (OSIZE - 1)];
        if (o.gen != gen) {
            o.gen = gen;
            o.p = p;
            o.live = 0;
            return &o;
        }
        if (o.p == p) return &o;
    }
    abort();
}
void obj_born(void* p, const char* what) {
    Obj* o = obj_slot((uintptr_t)p);
    if (o->live) violation("lifetime", "%s constructed over a live object, thread %d op tag %d", what, curf, fib[curf].tag);
    o->live = 1;
    o->what = what;
    nobj++;
}
void obj_dead(void* p, const char* what) {
    Obj* o = obj_slot((uintptr_t)p);
    if (!o->live) violation("lifetime", "%s destroyed twice or never constructed, thread %d op tag %d", what, curf, fib[curf].tag);
    o->live = 0;
    nobj--;
}
void obj_used(const void* p, const char* what) {
    Obj* o = obj_slot((uintptr_t)p);
    if (!o->live) violation("lifetime", "%s used outside its lifetime, thread %d op tag %d", what, curf, fib[curf].tag);
}
size_t live_objs() { return nobj; }

// ---------------------------------------------------------------- access hooks
static char* errno_addr;
static inline bool own_stack(uintptr_t a) {
    if (a == (uintptr_t)errno_addr || a - (uintptr_t)tls_block < tls_size) return true;  // thread-local
    if (curf == 0) return a >= (uintptr_t)host_lo && a < (uintptr_t)host_hi;
    uintptr_t lo = (uintptr_t)STACK_BASE + (uintptr_t)curf * 0x100000;
    return a >= lo && a < lo + STACK;
}
static void access(uintptr_t a, size_t n, bool wr) {
    if (!act()) return;
    if (own_stack(a)) {
        // still counts as progress of the simulated clock, so loops end
        nsteps++;
        if (nsteps > step_limit + 3000000) violation("hang", "the call made no end after %llu steps", (unsigned long long)nsteps);
        return;
    }
    point(0);
    check_range(a, n, wr ? "write" : "read");
    race_access(a, n, wr, false);
}

// ---------------------------------------------------------------- locks
struct Lock {
    uintptr_t addr;
    uint32_t gen;
    int owner;    // 0 free
    int count;
    int readers;  // rwlock
    uint32_t rdmask;
    VC vc, rvc;
};
static const size_t LSIZE = 4096;
static Lock locks[LSIZE];
static Lock* lock_of(const void* p) {
    uintptr_t a = (uintptr_t)p;
    size_t h = (a * 0x9E3779B97F4A7C15ull) >> 52;
    for (size_t i = 0; i < LSIZE; i++) {
        Lock& l = locks[(h + i) & (LSIZE - 1)];
        if (l.gen != gen) {
            memset(&l, 0, sizeof l);
            l.gen = gen;
            l.addr = a;
            return &l;
        }
        if (l.addr == a) return &l;
    }
    abort();
}
static void ev(int k) { mix(ihash, (uint64_t)(k * 16 + curf)); mix(thash, (uint64_t)(k * 16 + curf)); }

static void acq(Lock* l) {
    vc_join(fib[curf].vc, l->vc);
    ev(1);
}
static void rel(Lock* l) {
    vc_join(l->vc, fib[curf].vc);
    fib[curf].vc.c[curf]++;
    ev(2);
}
static void wake_lock(Lock* l) {
    for (int i = 1; i <= nfib; i++)
        if (fib[i].st == F_MUTEX && fib[i].wait_obj == l) {
            fib[i].st = F_READY;
            runmask |= 1u << i;
        }
}
// returns 0 or ETIMEDOUT
static int block_on(Lock* l, uint64_t deadline) {
    Fiber& f = fib[curf];
    if (curf == 0) violation("deadlock", "lock is still held by thread %d when only the main thread is left", l->owner);
    f.st = F_MUTEX;
    f.wait_obj = l;
    f.deadline = deadline;
    f.woken = 0;
    runmask &= ~(1u << curf);
    resched();
    f.wait_obj = nullptr;
    f.deadline = 0;
    return f.woken == 3 ? ETIMEDOUT : 0;
}
static int do_lock(const void* m, bool recursive, bool tryonly, uint64_t deadline) {
    if (!act()) return 0;
    check_range((uintptr_t)m, 1, "lock");
    point(1);
    check_range((uintptr_t)m, 1, "lock");
    Lock* l = lock_of(m);
    int me = curf + 1;
    for (;;) {
        if (l->owner == 0 && l->readers == 0) {
            l->owner = me;
            l->count = 1;
            acq(l);
            return 0;
        }
        if (l->owner == me) {
            if (recursive) {
                l->count++;
                return 0;
            }
            if (tryonly) return EBUSY;
            violation("deadlock", "thread %d locks a mutex it already holds (op tag %d)", curf, fib[curf].tag);
        }
        if (tryonly) return EBUSY;
        if (block_on(l, deadline)) return ETIMEDOUT;
        check_range((uintptr_t)m, 1, "lock");
    }
}
static int do_unlock(const void* m) {
    if (!act()) return 0;
    check_range((uintptr_t)m, 1, "unlock");
    Lock* l = lock_of(m);
    if (l->owner != curf + 1)
        violation("bad-unlock", "thread %d unlocks a mutex it does not hold (op tag %d)", curf, fib[curf].tag);
    if (--l->count == 0) {
        rel(l);
        l->owner = 0;
        wake_lock(l);
    }
    point(1);
    return 0;
}
static inline uint64_t ts_us(const timespec* t, clockid_t) {
    return (uint64_t)t->tv_sec * 1000000ull + (uint64_t)t->tv_nsec / 1000ull + 1;
}

static int do_cond_wait(void* c, void* m, uint64_t deadline) {
    if (!act()) return 0;
    check_range((uintptr_t)c, 1, "wait");
    point(1);
    Lock* l = lock_of(m);
    if (l->owner != curf + 1) violation("bad-unlock", "thread %d waits without holding the mutex", curf);
    Fiber& f = fib[curf];
    if (curf == 0) violation("deadlock", "the main thread would wait forever on a condition");
    uint32_t v = choose(SPUR, deadline ? 3 : 2);
    rel(l);
    int saved = l->count;
    l->count = 0;
    l->owner = 0;
    wake_lock(l);
    ev(3);
    f.wait_obj = c;
    f.deadline = deadline;
    f.woken = 0;
    f.wait_seq = ++cond_seq;
    if (v == 1) {
        count_fault(F_SPURIOUS);
        f.woken = 2;
        point(1);
    } else if (v == 2) {
        count_fault(F_TIMEOUT);
        if (deadline > now_us()) time_off += deadline - now_us();
        f.woken = 3;
        point(1);
    } else {
        f.st = F_COND;
        runmask &= ~(1u << curf);
        resched();
    }
    f.wait_obj = nullptr;
    f.deadline = 0;
    int why = f.woken;
    for (;;) {
        if (l->owner == 0 && l->readers == 0) break;
        block_on(l, 0);
    }
    l->owner = curf + 1;
    l->count = saved;
    acq(l);
    check_range((uintptr_t)c, 1, "wait");
    return why == 3 ? ETIMEDOUT : 0;
}
static int do_signal(void* c, bool all) {
    if (!act()) return 0;
    poll_rounds = 0;
    check_range((uintptr_t)c, 1, "notify");
    point(1);
    check_range((uintptr_t)c, 1, "notify");
    ev(4);
    int w[MAXF], n = 0;
    for (int i = 1; i <= nfib; i++)
        if (fib[i].st == F_COND && fib[i].wait_obj == c) w[n++] = i;
    if (!n) return 0;
    for (int i = 1; i < n; i++)
        for (int j = i; j > 0 && fib[w[j]].wait_seq < fib[w[j - 1]].wait_seq; j--) {
            int t = w[j];
            w[j] = w[j - 1];
            w[j - 1] = t;
        }
    int lo = 0, hi = n;
    if (!all) {
        lo = n > 1 ? (int)choose(SCHED, (uint32_t)n) : 0;
        hi = lo + 1;
    }
    for (int i = lo; i < hi; i++) {
        fib[w[i]].st = F_READY;
        fib[w[i]].woken = 1;
        runmask |= 1u << w[i];
    }
    point(1);
    return 0;
}
static void do_sleep(uint64_t us) {
    if (!act()) return;
    ev(5);
    if (curf == 0) {
        time_off += us;
        return;
    }
    Fiber& f = fib[curf];
    f.st = F_SLEEP;
    f.deadline = now_us() + us + 1;
    runmask &= ~(1u << curf);
    resched();
    f.deadline = 0;
}

// ---------------------------------------------------------------- atomics
struct Atom {
    uintptr_t addr;
    uint32_t gen;
    VC vc;
};
static const size_t ASIZE = 4096;
static Atom atoms[ASIZE];
static Atom* atom_of(const volatile void* p) {
    uintptr_t a = (uintptr_t)p;
    size_t h = (a * 0x9E3779B97F4A7C15ull) >> 52;
    for (size_t i = 0; i < ASIZE; i++) {
        Atom& l = atoms[(h + i) & (ASIZE - 1)];
        if (l.gen != gen) {
            memset(&l, 0, sizeof l);
            l.gen = gen;
            l.addr = a;
            return &l;
        }
        if (l.addr == a) return &l;
    }
    abort();
}
static inline bool mo_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool mo_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void at_load(const volatile void* p, size_t n, int mo) {
    if (!act()) return;
    if (own_stack((uintptr_t)p)) return;
    point(2);
    check_range((uintptr_t)p, n, "atomic read");
    race_access((uintptr_t)p, n, false, true);
    Atom* a = atom_of(p);
    if (mo_acq(mo)) vc_join(fib[curf].vc, a->vc);
    else vc_join(fib[curf].acq_fence, a->vc);
    ev(6);
}
static void at_publish(Atom* a, int mo, bool rmw) {
    Fiber& f = fib[curf];
    if (mo_rel(mo)) {
        if (rmw) vc_join(a->vc, f.vc);
        else a->vc = f.vc;
        f.vc.c[curf]++;
    } else {
        if (rmw) vc_join(a->vc, f.rel_fence);
        else a->vc = f.rel_fence;
    }
}
static void at_store(const volatile void* p, size_t n, int mo) {
    if (!act()) return;
    if (own_stack((uintptr_t)p)) return;
    point(2);
    check_range((uintptr_t)p, n, "atomic write");
    race_access((uintptr_t)p, n, true, true);
    at_publish(atom_of(p), mo, false);
    ev(7);
}
static void at_rmw_pre(const volatile void* p, size_t n) {
    if (!act()) return;
    if (own_stack((uintptr_t)p)) return;
    point(2);
    check_range((uintptr_t)p, n, "atomic update");
}
static void at_rmw_post(const volatile void* p, size_t n, int mo, bool wrote) {
    if (!act()) return;
    if (own_stack((uintptr_t)p)) return;
    race_access((uintptr_t)p, n, wrote, true);
    Atom* a = atom_of(p);
    if (mo_acq(mo)) vc_join(fib[curf].vc, a->vc);
    else vc_join(fib[curf].acq_fence, a->vc);
    if (wrote) at_publish(a, mo, true);
    ev(8);
}
static void at_fence(int mo) {
    if (!act()) return;
    Fiber& f = fib[curf];
    if (mo_acq(mo)) vc_join(f.vc, f.acq_fence);
    if (mo_rel(mo)) {
        f.rel_fence = f.vc;
        f.vc.c[curf]++;
    }
}

// ---------------------------------------------------------------- disk
struct DFile {
    char path[64];
    unsigned char* data;
    size_t size, cap;
    bool used;
};
static const int NDF = 16;
static DFile dfiles[NDF];
struct Strm {
    FILE* f;
    DFile* d;
    long pos;
    bool append, can_read, can_write, open, harness, zombie;
    int last_f;       // thread that used the stream last, and when
    uint32_t last_e;
    char* ubuf;       // buffer given by setvbuf
    size_t ulen;
};
static const int NSTRM = 4096;
static Strm* strms[NSTRM];
static char* sbufs[NSTRM];
static int nstrm;
static bool disk_enabled;
static int bufmode = -1;
static uint64_t dcalls, dfaults, drfaults;
static DiskStats dstats;
static bool real_close;

void (*disk_write_hook)(const char* path, size_t n);
void disk_on(bool on) { disk_enabled = on; }
void disk_bufsize(int m) { bufmode = m; }
uint64_t disk_calls() { return dcalls; }
uint64_t disk_faults() { return dfaults; }
uint64_t disk_read_faults() { return drfaults; }
DiskStats disk_stats() { return dstats; }
static DFile* dfind(const char* p, bool create) {
    for (int i = 0; i < NDF; i++)
        if (dfiles[i].used && !strcmp(dfiles[i].path, p)) return &dfiles[i];
    if (!create) return nullptr;
    for (int i = 0; i < NDF; i++)
        if (!dfiles[i].used) {
            dfiles[i].used = true;
            snprintf(dfiles[i].path, sizeof dfiles[i].path, "%s", p);
            dfiles[i].size = 0;
            return &dfiles[i];
        }
    return nullptr;
}
static void dgrow(DFile* d, size_t n) {
    if (n > d->cap) {
        d->cap = n * 2 + 64;
        d->data = (unsigned char*)realloc(d->data, d->cap);
    }
}
void disk_set(const char* p, const void* data, size_t n) {
    DFile* d = dfind(p, true);
    dgrow(d, n);
    if (n) memcpy(d->data, data, n);
    d->size = n;
}
bool disk_get(const char* p, const unsigned char** data, size_t* n) {
    DFile* d = dfind(p, false);
    if (!d) return false;
    *data = d->data;
    *n = d->size;
    return true;
}
int disk_open_streams() {
    int k = 0;
    for (int i = 0; i < nstrm; i++)
        if (strms[i]->open && !strms[i]->harness) k++;
    return k;
}
enum IoKind { IO_OPEN = 1, IO_EIO_W = 2, IO_NOSPC = 4, IO_SHORTW = 8, IO_EINTR_W = 16, IO_SHORTR = 32, IO_EIO_R = 64, IO_EINTR_R = 128, IO_CLOSE = 256, IO_SEEK = 512 };
// choose among the enabled kinds; returns 0 or the kind
static uint32_t io_choice(const uint32_t* kinds, int n) {
    uint32_t en[4];
    int m = 0;
    for (int i = 0; i < n; i++)
        if (pol.io_kinds & kinds[i]) en[m++] = kinds[i];
    // the position in `kinds` is recorded, so a replay needs no policy
    uint32_t v;
    if (replaying) {
        v = faults_on ? settle(IO, 0, (uint32_t)n + 1) : 0;
    } else {
        uint32_t fresh = 0;
        if (!faults_on) return 0;
        if (m && run_fault_n < pol.max_faults &&
            ((pol.one_io >= 0 && (long)ordn[IO] == pol.one_io) || (pol.p_io && frng.u32() < pol.p_io))) {
            uint32_t k = en[frng.below((uint32_t)m)];
            for (int i = 0; i < n; i++)
                if (kinds[i] == k) fresh = (uint32_t)i + 1;
        }
        v = settle(IO, fresh, (uint32_t)n + 1);
    }
    return v ? kinds[v - 1] : 0;
}
static bool io_faulty() { return faults_on && fib[curf].active != 1; }

static ssize_t ck_read(void* c, char* buf, size_t n) {
    Strm* s = (Strm*)c;
    if (s->zombie) {
        if (real_close) return 0;
        violation("closed-io", "a closed stream reads from the disk (op tag %d)", fib[curf].tag);
    }
    dstats.reads++;
    size_t avail = (size_t)s->pos < s->d->size ? s->d->size - (size_t)s->pos : 0;
    if (n > avail) n = avail;
    if (io_faulty()) {
        static const uint32_t k[3] = {IO_SHORTR, IO_EIO_R, IO_EINTR_R};
        uint32_t f = io_choice(k, 3);
        if (f == IO_SHORTR && n > 1) {
            count_fault(F_SHORTREAD);
            n = 1 + (ordn[IO] * 2654435761u >> 7) % (n - 1);
        } else if (f == IO_EIO_R || f == IO_EINTR_R) {
            count_fault(f == IO_EIO_R ? F_EIO_R : F_EINTR_R);
            dfaults++;
            drfaults++;
            errno = f == IO_EIO_R ? EIO : EINTR;
            return -1;
        }
    }
    if (n) memcpy(buf, s->d->data + s->pos, n);
    s->pos += (long)n;
    return (ssize_t)n;
}
static void put_bytes(Strm* s, const char* buf, size_t n) {
    if (s->append) s->pos = (long)s->d->size;
    size_t end = (size_t)s->pos + n;
    dgrow(s->d, end);
    if ((size_t)s->pos > s->d->size) memset(s->d->data + s->d->size, 0, (size_t)s->pos - s->d->size);
    if (n) memcpy(s->d->data + s->pos, buf, n);
    if (end > s->d->size) s->d->size = end;
    s->pos = (long)end;
}
static ssize_t ck_write(void* c, const char* buf, size_t n) {
    Strm* s = (Strm*)c;
    if (s->zombie) {
        if (real_close) return (ssize_t)n;
        violation("closed-io", "a closed stream writes to the disk (op tag %d)", fib[curf].tag);
    }
    dstats.writes++;
    if (io_faulty()) {
        static const uint32_t k[4] = {IO_SHORTW, IO_EIO_W, IO_NOSPC, IO_EINTR_W};
        uint32_t f = io_choice(k, 4);
        if (f) {
            count_fault(f == IO_SHORTW ? F_SHORTWRITE : f == IO_EIO_W ? F_EIO_W : f == IO_NOSPC ? F_ENOSPC : F_EINTR_W);
            dfaults++;
            size_t part = 0;
            if (f == IO_SHORTW || f == IO_NOSPC) part = n ? (ordn[IO] * 2654435761u >> 7) % n : 0;
            put_bytes(s, buf, part);
            if (disk_write_hook) disk_write_hook(s->d->path, part);
            errno = f == IO_NOSPC || f == IO_SHORTW ? ENOSPC : f == IO_EIO_W ? EIO : EINTR;
            return (ssize_t)part;  // fewer bytes than asked for: the stream records an error
        }
    }
    put_bytes(s, buf, n);
    if (disk_write_hook) disk_write_hook(s->d->path, n);
    return (ssize_t)n;
}
static int ck_seek(void* c, off64_t* off, int wh) {
    Strm* s = (Strm*)c;
    if (io_faulty() && !s->zombie && wh != SEEK_CUR) {
        static const uint32_t k[1] = {IO_SEEK};
        if (io_choice(k, 1)) {
            count_fault(F_SEEKFAIL);
            dfaults++;
            errno = EIO;
            return -1;
        }
    }
    long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? s->pos : (long)s->d->size;
    long t = b + (long)*off;
    if (t < 0) {
        errno = EINVAL;
        return -1;
    }
    s->pos = t;
    *off = t;
    return 0;
}
static int ck_close(void*) { return 0; }

template<typename T>
static T real(const char* name) {
    return (T)dlsym(RTLD_NEXT, name);
}
#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__) = nullptr; \
    if (!real_##name) real_##name = real<ret (*)(__VA_ARGS__)>(#name);

static FILE* sim_open(const char* path, const char* mode, bool harness) {
    bool plus = strchr(mode, '+') != nullptr, excl = strchr(mode, 'x') != nullptr;
    char m = mode[0];
    if (m != 'r' && m != 'w' && m != 'a') {
        errno = EINVAL;
        return nullptr;
    }
    if (!harness && io_faulty()) {
        static const uint32_t k[1] = {IO_OPEN};
        if (io_choice(k, 1)) {
            count_fault(F_OPENFAIL);
            errno = EMFILE;
            return nullptr;
        }
    }
    DFile* d = dfind(path, m != 'r');
    if (!d) {
        errno = ENOENT;
        return nullptr;
    }
    if (m == 'w' && excl && d->size) {
        errno = EEXIST;
        return nullptr;
    }
    if (m == 'w') d->size = 0;
    if (nstrm == NSTRM) abort();
    Strm* s = (Strm*)calloc(1, sizeof(Strm));
    s->d = d;
    s->append = m == 'a';
    s->can_read = m == 'r' || plus;
    s->can_write = m != 'r' || plus;
    s->open = true;
    s->harness = harness;
    char md[4] = {m, plus ? '+' : '\0', 0, 0};
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    s->f = fopencookie(s, md, io);
    if (!s->f) abort();
    sbufs[nstrm] = nullptr;
    if (bufmode == 0) setvbuf(s->f, nullptr, _IONBF, 0);
    else if (bufmode > 0 || bufmode < -1) {
        size_t bn = (size_t)(bufmode > 0 ? bufmode : -bufmode);
        sbufs[nstrm] = (char*)malloc(bn + 8);
        setvbuf(s->f, sbufs[nstrm], bufmode > 0 ? _IOFBF : _IOLBF, bn);
    }
    strms[nstrm++] = s;
    dstats.opens++;
    return s->f;
}
static Strm* strm_of(FILE* f) {
    for (int i = nstrm; i-- > 0;)
        if (strms[i]->f == f) return strms[i];
    return nullptr;
}
FILE* disk_stream(const char* path, const char* mode) { return sim_open(path, mode, true); }
static int sim_close(FILE* f, Strm* s) {
    REAL(int, fflush, FILE*)
    int r = real_fflush(f);
    if (!s->harness && io_faulty()) {
        static const uint32_t k[1] = {IO_CLOSE};
        if (io_choice(k, 1)) {
            count_fault(F_CLOSEFAIL);
            dfaults++;
            errno = EIO;
            r = EOF;
        }
    }
    s->open = false;
    s->zombie = true;
    dstats.closes++;
    return r ? EOF : 0;
}
int disk_close_harness(FILE* f) {
    Strm* s = strm_of(f);
    return s ? sim_close(f, s) : EOF;
}
void disk_reset() {
    REAL(int, fclose, FILE*)
    real_close = true;
    for (int i = 0; i < nstrm; i++) {
        strms[i]->zombie = true;
        real_fclose(strms[i]->f);
        free(strms[i]);
        free(sbufs[i]);
    }
    real_close = false;
    nstrm = 0;
    for (int i = 0; i < NDF; i++) dfiles[i].used = false, dfiles[i].size = 0;
    dcalls = dfaults = drfaults = 0;
    memset(&dstats, 0, sizeof dstats);
}

// entry of every interposed stdio call.  Returns the stream record if the
// simulator owns the stream; takes the stream lock.
static Strm* io_enter(FILE* f, const char* what) {
    if (!act()) return nullptr;
    dcalls++;
    if (!f) violation("null-stream", "%s on a null stream (op tag %d)", what, fib[curf].tag);
    Strm* s = strm_of(f);
    if (!s) return nullptr;
    if (!s->open) violation("closed-io", "%s on a closed stream (op tag %d)", what, fib[curf].tag);
    if (fib[curf].unlocked) point(1);  // the caller says the lock is held
    else do_lock(f, true, false, 0);
    if (!s->open) violation("closed-io", "%s on a closed stream (op tag %d)", what, fib[curf].tag);
    if (s->last_f != curf && s->last_e > fib[curf].vc.c[s->last_f])
        violation("race", "threads %d and %d use a stream at the same time without its lock (%s, op tag %d)", s->last_f, curf, what, fib[curf].tag);
    s->last_f = curf;
    s->last_e = fib[curf].vc.c[curf];
    if (s->ubuf) access((uintptr_t)s->ubuf, 1, true);  // must still be there
    return s;
}
static void io_leave(FILE* f, Strm* s) {
    if (s && act() && !fib[curf].unlocked) do_unlock(f);
}
struct Unlocked {
    bool was;
    Unlocked() : was(fib[curf].unlocked) { fib[curf].unlocked = true; }
    ~Unlocked() { fib[curf].unlocked = was; }
};

// ---------------------------------------------------------------- run control
static void on_signal(int sig, siginfo_t* si, void*) {
    if (sig == SIGVTALRM) violation("hang", "no progress within the processor time limit (op tag %d)", fib[curf].tag);
    violation("crash", "signal %d (%s) at address %s, thread %d op tag %d", sig,
              sig == SIGSEGV ? "invalid memory access" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "arithmetic" : sig == SIGBUS ? "bus error" : "illegal instruction",
              sig == SIGSEGV ? ((uintptr_t)si->si_addr < 4096 ? "near null" : "other") : "-", curf, fib[curf].tag);
}
static void on_terminate() {
    violation("terminate", "std::terminate was called (an exception left a noexcept function or a destructor), thread %d op tag %d", curf, fib[curf].tag);
}

void init() {
    dl_iterate_phdr(find_tls, nullptr);
    if (tls_size)
        for (int i = 0; i < MAXF; i++) tls_of[i] = (char*)calloc(1, tls_size);
    errno_addr = (char*)&errno;
    void* p = mmap(ARENA_BASE, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != ARENA_BASE) {
        fprintf(stderr, "simulator: cannot map the arena\n");
        _exit(13);
    }
    shadow = (unsigned char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    cells = (Cell*)mmap(nullptr, CELLS * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    htab = (HCell*)mmap(nullptr, HSIZE * sizeof(HCell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    objs = (Obj*)mmap(nullptr, OSIZE * sizeof(Obj), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = 1; i < MAXF; i++) {
        char* b = STACK_BASE + (size_t)i * 0x100000;
        if (mmap(b, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != b) {
            fprintf(stderr, "simulator: cannot map a stack\n");
            _exit(13);
        }
    }
    pthread_attr_t at;
    void* sa;
    size_t ss;
    if (pthread_getattr_np(pthread_self(), &at) == 0 && pthread_attr_getstack(&at, &sa, &ss) == 0) {
        host_lo = (char*)sa;
        host_hi = (char*)sa + ss;
    }
    static char alt[65536];
    stack_t st;
    memset(&st, 0, sizeof st);
    st.ss_sp = alt;
    st.ss_size = sizeof alt;
    sigaltstack(&st, nullptr);
    struct sigaction sact;
    memset(&sact, 0, sizeof sact);
    sact.sa_sigaction = on_signal;
    sact.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    const int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM};
    for (int s : sigs) sigaction(s, &sact, nullptr);
    std::set_terminate(on_terminate);
}
void reset(uint64_t seed, const Policy& p, bool rp) {
    pol = p;
    rng = Rng(seed ^ 0xC0FFEE);
    frng = Rng(seed ^ 0xFA017);
    replaying = rp;
    faults_on = true;
    for (int s = 0; s < NSTREAM; s++) {
        ordn[s] = 0;
        nrec[s] = 0;
        rpos[s] = 0;
    }
    nsteps = 0;
    poll_tick = 0;
    poll_rounds = 0;
    ntick = 0;
    nswitch = 0;
    step_limit = 200000;
    fair = false;
    time_off = 0;
    thash = 0x1234567;
    ihash = 0x7654321;
    run_fault_n = 0;
    memset(fiber_fault_n, 0, sizeof fiber_fault_n);
    cond_seq = 0;
    race_on = false;
    race_known_hit = false;
    npct = 0;
    pct_low = 999;
    if (p.mode == 1) {
        npct = p.pct_depth < 64 ? p.pct_depth : 64;
        for (int i = 0; i < npct; i++) pct_pts[i] = rng.below(p.pct_len);
    }
    memset(shadow, 0, bump + 4096 < ARENA ? bump + 4096 : ARENA);
    bump = 4096;
    nblocks = 0;
    nlive = blive = nalloc = 0;
    nobj = 0;
    gen++;
    memset(&fib[0], 0, sizeof fib[0]);
    fib[0].st = F_READY;
    fib[0].vc.c[0] = 1;
    tls_fresh(tls_block);
    memset(tls_ndtor, 0, sizeof tls_ndtor);
    save_tls(fib[0]);
    for (int i = 1; i < MAXF; i++) memset(&fib[i], 0, sizeof fib[i]);
    nfib = 0;
    runmask = 0;
    curf = 0;
    disk_reset();
    disk_write_hook = nullptr;
    bufmode = -1;
    itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = 30;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
}  // namespace sim

// =================================================================== interposition
using namespace sim;

void* operator new(size_t n) { return do_new(n, 16, 0, false); }
void* operator new[](size_t n) { return do_new(n, 16, 1, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, 1, true); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, 0, false); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, 1, false); }
void operator delete(void* p) noexcept { do_delete(p, 0); }
void operator delete[](void* p) noexcept { do_delete(p, 1); }
void operator delete(void* p, size_t n) noexcept { do_delete(p, 0, n); }
void operator delete[](void* p, size_t n) noexcept { do_delete(p, 1, n); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, 0); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p, 1); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p, 0); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p, 1); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept { do_delete(p, 0, n); }
void operator delete[](void* p, size_t n, std::align_val_t) noexcept { do_delete(p, 1, n); }

#define EXP extern "C" __attribute__((visibility("default"), used))
typedef unsigned char a8;
typedef unsigned short a16;
typedef unsigned int a32;
typedef unsigned long long a64;
typedef unsigned __int128 a128;

EXP void __tsan_init() {}
EXP void __tsan_func_entry(void*) {}
EXP void __tsan_func_exit() {}
EXP void __tsan_ignore_thread_begin() {}
EXP void __tsan_ignore_thread_end() {}
#define RW(N) \
    EXP void __tsan_read##N(void* p) { access((uintptr_t)p, N, false); } \
    EXP void __tsan_write##N(void* p) { access((uintptr_t)p, N, true); } \
    EXP void __tsan_read_write##N(void* p) { access((uintptr_t)p, N, false); access((uintptr_t)p, N, true); } \
    EXP void __tsan_unaligned_read##N(void* p) { access((uintptr_t)p, N, false); } \
    EXP void __tsan_unaligned_write##N(void* p) { access((uintptr_t)p, N, true); } \
    EXP void __tsan_unaligned_read_write##N(void* p) { access((uintptr_t)p, N, false); access((uintptr_t)p, N, true); } \
    EXP void __tsan_volatile_read##N(void* p) { access((uintptr_t)p, N, false); } \
    EXP void __tsan_volatile_write##N(void* p) { access((uintptr_t)p, N, true); } \
    EXP void __tsan_unaligned_volatile_read##N(void* p) { access((uintptr_t)p, N, false); } \
    EXP void __tsan_unaligned_volatile_write##N(void* p) { access((uintptr_t)p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXP void __tsan_read_range(void* p, size_t n) { access((uintptr_t)p, n, false); }
EXP void __tsan_write_range(void* p, size_t n) { access((uintptr_t)p, n, true); }
EXP void __tsan_vptr_update(void** p, void*) { access((uintptr_t)p, 8, true); }
EXP void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false); }
static void copy_fwd(char* d, const char* s, size_t n) { for (size_t i = 0; i < n; i++) d[i] = s[i]; }
static void copy_bwd(char* d, const char* s, size_t n) { for (size_t i = n; i-- > 0;) d[i] = s[i]; }
EXP void* __tsan_memcpy(void* d, const void* s, size_t n) {
    if (n) {
        access((uintptr_t)s, n, false);
        access((uintptr_t)d, n, true);
        if (act() && in_arena(d) && d != s && (char*)d < (const char*)s + n && (const char*)s < (char*)d + n)
            violation("overlap", "memcpy between overlapping ranges of %zu bytes (op tag %d)", n, fib[curf].tag);
        copy_fwd((char*)d, (const char*)s, n);
    }
    return d;
}
EXP void* __tsan_memmove(void* d, const void* s, size_t n) {
    if (n) {
        access((uintptr_t)s, n, false);
        access((uintptr_t)d, n, true);
        if (d < s) copy_fwd((char*)d, (const char*)s, n);
        else copy_bwd((char*)d, (const char*)s, n);
    }
    return d;
}
EXP void* __tsan_memset(void* d, int c, size_t n) {
    if (n) {
        access((uintptr_t)d, n, true);
        for (size_t i = 0; i < n; i++) ((char*)d)[i] = (char)c;
    }
    return d;
}

#define ATOMICS(T, B) \
    EXP T __tsan_atomic##B##_load(const volatile T* p, int mo) { at_load(p, sizeof(T), mo); return *p; } \
    EXP void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { at_store(p, sizeof(T), mo); *p = v; } \
    EXP T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { at_rmw_pre(p, sizeof(T)); T o = *p; *p = v; at_rmw_post(p, sizeof(T), mo, true); return o; } \
    EXP T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { at_rmw_pre(p, sizeof(T)); T o = *p; *p = (T)(o + v); at_rmw_post(p, sizeof(T), mo, true); return o; } \
    EXP T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { at_rmw_pre(p, sizeof(T)); T o = *p; *p = (T)(o - v); at_rmw_post(p, sizeof(T), mo, true); return o; } \
    EXP T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { at_rmw_pre(p, sizeof(T)); T o = *p; *p = (T)(o & v); at_rmw_post(p, sizeof(T), mo, true); return o; } \
    EXP T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { at_rmw_pre(p, sizeof(T)); T o = *p; *p = (T)(o | v); at_rmw_post(p, sizeof(T), mo, true); return o; } \
    EXP T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { at_rmw_pre(p, sizeof(T)); T o = *p; *p = (T)(o ^ v); at_rmw_post(p, sizeof(T), mo, true); return o; } \
    EXP T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { at_rmw_pre(p, sizeof(T)); T o = *p; *p = (T)(~(o & v)); at_rmw_post(p, sizeof(T), mo, true); return o; } \
    EXP int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) { \
        at_rmw_pre(p, sizeof(T)); T o = *p; if (o == *c) { *p = v; at_rmw_post(p, sizeof(T), mo, true); return 1; } \
        at_rmw_post(p, sizeof(T), fmo, false); *c = o; return 0; } \
    EXP int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) { \
        at_rmw_pre(p, sizeof(T)); T o = *p; bool sp = act() && choose(SPUR, 2); \
        if (o == *c && !sp) { *p = v; at_rmw_post(p, sizeof(T), mo, true); return 1; } \
        at_rmw_post(p, sizeof(T), fmo, false); *c = o; return 0; } \
    EXP T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) { \
        at_rmw_pre(p, sizeof(T)); T o = *p; if (o == c) { *p = v; at_rmw_post(p, sizeof(T), mo, true); } \
        else at_rmw_post(p, sizeof(T), fmo, false); return o; }
ATOMICS(a8, 8) ATOMICS(a16, 16) ATOMICS(a32, 32) ATOMICS(a64, 64) ATOMICS(a128, 128)
EXP void __tsan_atomic_thread_fence(int mo) { at_fence(mo); }
EXP void __tsan_atomic_signal_fence(int) {}

// pthread -----------------------------------------------------------
static bool is_rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
EXP int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return do_lock(m, is_rec(m), false, 0); }
EXP int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return do_lock(m, is_rec(m), true, 0); }
EXP int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) noexcept { return do_lock(m, is_rec(m), false, ts_us(t, CLOCK_REALTIME)); }
EXP int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) noexcept { return do_lock(m, is_rec(m), false, ts_us(t, c)); }
EXP int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { return do_unlock(m); }
EXP int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return do_cond_wait(c, m, 0); }
EXP int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return do_cond_wait(c, m, ts_us(t, CLOCK_REALTIME)); }
EXP int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { return do_cond_wait(c, m, ts_us(t, k)); }
EXP int pthread_cond_signal(pthread_cond_t* c) noexcept { return do_signal(c, false); }
EXP int pthread_cond_broadcast(pthread_cond_t* c) noexcept { return do_signal(c, true); }
EXP int pthread_cond_destroy(pthread_cond_t* c) noexcept {
    if (act())
        for (int i = 1; i < MAXF; i++)
            if (fib[i].st == F_COND && fib[i].wait_obj == c) violation("lifetime", "condition variable destroyed while thread %d waits on it", i);
    return 0;
}
EXP int pthread_spin_lock(pthread_spinlock_t* l) noexcept { return do_lock((const void*)l, false, false, 0); }
EXP int pthread_spin_trylock(pthread_spinlock_t* l) noexcept { return do_lock((const void*)l, false, true, 0); }
EXP int pthread_spin_unlock(pthread_spinlock_t* l) noexcept { return do_unlock((const void*)l); }
static int rw_rd(pthread_rwlock_t* m, bool tryonly, uint64_t dl) {
    if (!act()) return 0;
    point(1);
    Lock* l = lock_of(m);
    while (l->owner) {
        if (tryonly) return EBUSY;
        if (l->owner == curf + 1) return EDEADLK;
        if (block_on(l, dl)) return ETIMEDOUT;
    }
    l->readers++;
    l->rdmask |= 1u << curf;
    acq(l);
    return 0;
}
static int rw_wr(pthread_rwlock_t* m, bool tryonly, uint64_t dl) {
    if (!act()) return 0;
    point(1);
    Lock* l = lock_of(m);
    while (l->owner || l->readers) {
        if (tryonly) return EBUSY;
        if (l->owner == curf + 1) return EDEADLK;
        if (block_on(l, dl)) return ETIMEDOUT;
    }
    l->owner = curf + 1;
    l->count = 1;
    acq(l);
    vc_join(fib[curf].vc, l->rvc);
    return 0;
}
EXP int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { return rw_rd(m, false, 0); }
EXP int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { return rw_rd(m, true, 0); }
EXP int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { return rw_wr(m, false, 0); }
EXP int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { return rw_wr(m, true, 0); }
EXP int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
    if (!act()) return 0;
    Lock* l = lock_of(m);
    if (l->owner == curf + 1) return do_unlock(m);
    if (!(l->rdmask & (1u << curf))) violation("bad-unlock", "thread %d unlocks a lock it does not hold", curf);
    l->rdmask &= ~(1u << curf);
    l->readers--;
    vc_join(l->rvc, fib[curf].vc);
    fib[curf].vc.c[curf]++;
    ev(2);
    if (!l->readers) wake_lock(l);
    point(1);
    return 0;
}
EXP int pthread_once(pthread_once_t* o, void (*fn)()) {
    if (!act()) {
        if (!*o) {
            *o = 2;
            fn();
        }
        return 0;
    }
    do_lock((char*)o + 1, true, false, 0);
    if (*o != 2) {
        fn();
        *o = 2;
    }
    do_unlock((char*)o + 1);
    return 0;
}
EXP int sched_yield() noexcept {
    if (act()) {
        fib[curf].atomics += 16;
        point(2);
    }
    return 0;
}
EXP int nanosleep(const timespec* t, timespec*) {
    do_sleep((uint64_t)t->tv_sec * 1000000ull + (uint64_t)t->tv_nsec / 1000);
    return 0;
}
EXP int clock_nanosleep(clockid_t, int flags, const timespec* t, timespec*) {
    uint64_t us = (uint64_t)t->tv_sec * 1000000ull + (uint64_t)t->tv_nsec / 1000;
    if (flags & TIMER_ABSTIME) us = us > now_us() ? us - now_us() : 0;
    do_sleep(us);
    return 0;
}
EXP int usleep(useconds_t us) {
    do_sleep(us);
    return 0;
}
EXP int clock_gettime(clockid_t c, timespec* t) noexcept {
    if (act()) {
        uint64_t n = now_us();
        t->tv_sec = (time_t)(n / 1000000);
        t->tv_nsec = (long)(n % 1000000) * 1000;
        return 0;
    }
    REAL(int, clock_gettime, clockid_t, timespec*)
    return real_clock_gettime(c, t);
}

// function-local statics: the guard byte is real, waiting is simulated
EXP int __cxa_guard_acquire(uint64_t* g) noexcept {
    if (*(volatile char*)g) {
        if (act()) vc_join(fib[curf].vc, atom_of(g)->vc);
        return 0;
    }
    if (act()) {
        do_lock((char*)g + 1, true, false, 0);
        if (*(volatile char*)g) {
            do_unlock((char*)g + 1);
            return 0;
        }
        fib[curf].statics++;
    }
    return 1;
}
EXP void __cxa_guard_release(uint64_t* g) noexcept {
    *(volatile char*)g = 1;
    if (act()) {
        atom_of(g)->vc = fib[curf].vc;
        fib[curf].statics--;
        do_unlock((char*)g + 1);
    }
}
EXP void __cxa_guard_abort(uint64_t* g) noexcept {
    if (act()) {
        fib[curf].statics--;
        do_unlock((char*)g + 1);
    }
}

// memory of a thrown object is new memory, whoever used it before
EXP void* __cxa_allocate_exception(size_t n) noexcept {
    REAL(void*, __cxa_allocate_exception, size_t)
    void* p = real___cxa_allocate_exception(n);
    if (act() && race_on)
        for (size_t i = 0; i < n; i++) {
            Cell* c = cell_of((uintptr_t)p + i);
            if (!c) continue;
            memset(c, 0, sizeof *c);
            c->gen = gen;
        }
    return p;
}
EXP int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*) noexcept {
    if (tls_ndtor[curf] < 32) tls_dtors[curf][tls_ndtor[curf]++] = TlsDtor{fn, obj};
    return 0;
}

// string functions used on simulated memory -------------------------
EXP size_t strlen(const char* s) noexcept {
    size_t n = 0;
    while (s[n]) n++;
    if (act()) access((uintptr_t)s, n + 1, false);
    return n;
}
EXP int memcmp(const void* a, const void* b, size_t n) noexcept {
    if (act() && n) {
        access((uintptr_t)a, n, false);
        access((uintptr_t)b, n, false);
    }
    const unsigned char* x = (const unsigned char*)a;
    const unsigned char* y = (const unsigned char*)b;
    for (size_t i = 0; i < n; i++)
        if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
extern "C" __attribute__((visibility("default"), used)) void* sim_memchr(const void*, int, size_t) noexcept __asm__("memchr");
extern "C" void* sim_memchr(const void* a, int c, size_t n) noexcept {
    const unsigned char* x = (const unsigned char*)a;
    size_t i = 0;
    while (i < n && x[i] != (unsigned char)c) i++;
    if (act() && n) access((uintptr_t)a, i < n ? i + 1 : n, false);
    return i < n ? (void*)(x + i) : nullptr;
}
EXP int strncmp(const char* a, const char* b, size_t n) noexcept {
    size_t i = 0;
    while (i < n && a[i] && a[i] == b[i]) i++;
    if (act() && n) {
        access((uintptr_t)a, i < n ? i + 1 : n, false);
        access((uintptr_t)b, i < n ? i + 1 : n, false);
    }
    return i < n ? (int)(unsigned char)a[i] - (int)(unsigned char)b[i] : 0;
}
// scans of strings: what is read must be readable
static size_t scan(const char* s, int c, bool stop_at_c) {
    size_t n = 0;
    while (s[n] && !(stop_at_c && s[n] == (char)c)) n++;
    if (act()) access((uintptr_t)s, n + 1, false);
    return n;
}
extern "C" __attribute__((visibility("default"), used)) char* sim_strchr(const char*, int) noexcept __asm__("strchr");
extern "C" char* sim_strchr(const char* s, int c) noexcept {
    size_t n = scan(s, c, true);
    return s[n] == (char)c ? (char*)s + n : nullptr;
}
extern "C" __attribute__((visibility("default"), used)) int sim_strcmp(const char*, const char*) noexcept __asm__("strcmp");
extern "C" int sim_strcmp(const char* a, const char* b) noexcept {
    size_t i = 0;
    while (a[i] && a[i] == b[i]) i++;
    if (act()) {
        access((uintptr_t)a, i + 1, false);
        access((uintptr_t)b, i + 1, false);
    }
    return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
EXP char* strncpy(char* d, const char* s, size_t n) noexcept {
    size_t i = 0;
    while (i < n && s[i]) i++;
    if (act()) {
        access((uintptr_t)s, i < n ? i + 1 : i, false);
        if (n) access((uintptr_t)d, n, true);
    }
    for (size_t j = 0; j < n; j++) d[j] = j < i ? s[j] : 0;
    return d;
}
EXP char* strcpy(char* d, const char* s) noexcept {
    size_t n = strlen(s);
    if (act()) access((uintptr_t)d, n + 1, true);
    for (size_t j = 0; j <= n; j++) d[j] = s[j];
    return d;
}
extern "C" __attribute__((visibility("default"), used)) int bcmp(const void* a, const void* b, size_t n) noexcept { return memcmp(a, b, n); }

// stdio --------------------------------------------------------------
#define IOCALL(ret, name, params, args, types, stream) \
    EXP ret name params { \
        static ret(*real_) types = nullptr; \
        if (!real_) real_ = real<ret(*) types>(#name); \
        Strm* s_ = io_enter(stream, #name); \
        ret r_ = real_ args; \
        io_leave(stream, s_); \
        return r_; \
    }
EXP FILE* fopen(const char* p, const char* m) {
    if (disk_enabled && act()) {
        dcalls++;
        point(1);
        return sim_open(p, m, false);
    }
    REAL(FILE*, fopen, const char*, const char*)
    return real_fopen(p, m);
}
EXP FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
EXP int fclose(FILE* f) {
    REAL(int, fclose, FILE*)
    if (!act()) {
        Strm* s = strm_of(f);
        if (s) return sim_close(f, s);
        return real_fclose(f);
    }
    dcalls++;
    FILE* volatile fv = f;
    if (!fv) violation("null-stream", "fclose on a null stream (op tag %d)", fib[curf].tag);
    Strm* s = strm_of(f);
    if (!s) violation("closed-io", "fclose on something that is not an open stream (op tag %d)", fib[curf].tag);
    if (!s->open) violation("closed-io", "a stream is closed twice (op tag %d)", fib[curf].tag);
    point(1);
    return sim_close(f, s);
}
IOCALL(int, fflush, (FILE * f), (f), (FILE*), f)
IOCALL(int, fgetc, (FILE * f), (f), (FILE*), f)
IOCALL(int, getc, (FILE * f), (f), (FILE*), f)
// a buffer handed to stdio must be readable or writable as far as stdio goes
#define IOBUF(ret, name, params, args, types, stream, before, after) \
    EXP ret name params { \
        static ret(*real_) types = nullptr; \
        if (!real_) real_ = real<ret(*) types>(#name); \
        Strm* s_ = io_enter(stream, #name); \
        if (s_) { before; } \
        ret r_ = real_ args; \
        if (s_) { after; } \
        io_leave(stream, s_); \
        return r_; \
    }
static void io_range(const void* p, size_t n, bool wr) {
    if (act() && n) access((uintptr_t)p, n, wr);
}
IOBUF(char*, fgets, (char* b, int n, FILE* f), (b, n, f), (char*, int, FILE*), f, , if (r_) io_range(b, strlen(b) + 1, true))
IOBUF(size_t, fread, (void* b, size_t a, size_t n, FILE* f), (b, a, n, f), (void*, size_t, size_t, FILE*), f, , io_range(b, a * r_, true))
IOCALL(ssize_t, getline, (char** b, size_t* n, FILE* f), (b, n, f), (char**, size_t*, FILE*), f)
IOCALL(ssize_t, getdelim, (char** b, size_t* n, int d, FILE* f), (b, n, d, f), (char**, size_t*, int, FILE*), f)
IOCALL(int, fputc, (int c, FILE* f), (c, f), (int, FILE*), f)
IOCALL(int, putc, (int c, FILE* f), (c, f), (int, FILE*), f)
IOBUF(int, fputs, (const char* b, FILE* f), (b, f), (const char*, FILE*), f, (void)strlen(b), )
IOBUF(size_t, fwrite, (const void* b, size_t a, size_t n, FILE* f), (b, a, n, f), (const void*, size_t, size_t, FILE*), f, io_range(b, a * n, false), )
IOCALL(int, fgetpos, (FILE * f, fpos_t* p), (f, p), (FILE*, fpos_t*), f)
IOCALL(int, fsetpos, (FILE * f, const fpos_t* p), (f, p), (FILE*, const fpos_t*), f)
IOCALL(int, ungetc, (int c, FILE* f), (c, f), (int, FILE*), f)
IOCALL(int, fseek, (FILE * f, long o, int w), (f, o, w), (FILE*, long, int), f)
IOCALL(int, fseeko, (FILE * f, off_t o, int w), (f, o, w), (FILE*, off_t, int), f)
IOCALL(long, ftell, (FILE * f), (f), (FILE*), f)
IOCALL(off_t, ftello, (FILE * f), (f), (FILE*), f)
IOCALL(int, feof, (FILE * f) noexcept, (f), (FILE*), f)
IOCALL(int, ferror, (FILE * f) noexcept, (f), (FILE*), f)
EXP int setvbuf(FILE* f, char* b, int mode, size_t n) noexcept {
    REAL(int, setvbuf, FILE*, char*, int, size_t)
    Strm* s = io_enter(f, "setvbuf");
    if (s) {
        if (b && n) access((uintptr_t)b, n, true);
        s->ubuf = n ? b : nullptr;
        s->ulen = n;
    }
    int r = real_setvbuf(f, b, mode, n);
    io_leave(f, s);
    return r;
}
EXP void setbuf(FILE* f, char* b) noexcept { setvbuf(f, b, b ? _IOFBF : _IONBF, BUFSIZ); }
EXP void rewind(FILE* f) { fseek(f, 0, SEEK_SET); clearerr(f); }
EXP size_t fwrite_unlocked(const void* b, size_t a, size_t n, FILE* f) { Unlocked u; return fwrite(b, a, n, f); }
EXP size_t fread_unlocked(void* b, size_t a, size_t n, FILE* f) { Unlocked u; return fread(b, a, n, f); }
EXP int fputs_unlocked(const char* b, FILE* f) { Unlocked u; return fputs(b, f); }
EXP int fputc_unlocked(int c, FILE* f) { Unlocked u; return fputc(c, f); }
EXP int putc_unlocked(int c, FILE* f) { Unlocked u; return fputc(c, f); }
EXP int fgetc_unlocked(FILE* f) { Unlocked u; return fgetc(f); }
EXP int getc_unlocked(FILE* f) { Unlocked u; return fgetc(f); }
EXP int fflush_unlocked(FILE* f) { Unlocked u; return fflush(f); }
EXP int putchar_unlocked(int c) { Unlocked u; return fputc(c, stdout); }
EXP int putchar(int c) { return fputc(c, stdout); }
EXP int puts(const char* s) {
    Strm* k = io_enter(stdout, "puts");
    int r = fputs(s, stdout);
    if (r != EOF) r = fputc('\n', stdout);
    io_leave(stdout, k);
    return r;
}
EXP int vfprintf(FILE* f, const char* fmt, va_list ap) {
    REAL(int, vfprintf, FILE*, const char*, va_list)
    Strm* s = io_enter(f, "vfprintf");
    int r = real_vfprintf(f, fmt, ap);
    io_leave(f, s);
    return r;
}
EXP int fprintf(FILE* f, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int r = vfprintf(f, fmt, ap);
    va_end(ap);
    return r;
}
EXP int printf(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int r = vfprintf(stdout, fmt, ap);
    va_end(ap);
    return r;
}
EXP void flockfile(FILE* f) noexcept { do_lock(f, true, false, 0); }
EXP int ftrylockfile(FILE* f) noexcept { return do_lock(f, true, true, 0); }
EXP void funlockfile(FILE* f) noexcept { do_unlock(f); }
