// Queues and DoubleBuffer under simulated threads: C01 to C07.
#include "efp.hpp"
#include "efp/concurrency.hpp"
#include "../sim/driver.h"
#include "../sim/lin.h"
#include "elem.h"
#include <deque>
#include <map>
#include <set>

using drv::Rec;
using sim::NoSut;
using sim::Rng;
using sim::Sut;

// ------------------------------------------------------------- element kinds
template<typename E>
struct Tr;
template<>
struct Tr<int> {
    static int make(long v) { return (int)v; }
    static long val(const int& e) { return e; }
};
template<>
struct Tr<Pod> {
    static Pod make(long v) { return Pod(v); }
    static long val(const Pod& e) { return e.get(); }
};
template<>
struct Tr<TElem> {
    static TElem make(long v) { return TElem(v); }
    static long val(const TElem& e) { return e.get(); }
};
// a pointer to data written before the call: the receiver must see the data
template<>
struct Tr<long*> {
    static long* make(long v) {
        long* p = (long*)sim::arena_alloc(sizeof(long) * 2);
        p[0] = v;
        p[1] = ~v;
        return p;
    }
    static long val(long* const& p) {
        long v = p[0];
        if (p[1] != ~v) sim::violation("torn", "data published with a value is not visible to its receiver");
        return v;
    }
};
template<>
struct Tr<efp::String> {
    static efp::String make(long v) {
        char b[64];
        int n = snprintf(b, sizeof b, "%ld", v);
        int pad = (int)(v % 9) * 3;
        for (int i = 0; i < pad; i++) b[n++] = '.';
        return efp::String(b, (size_t)n);
    }
    static long val(const efp::String& e) {
        char b[64];
        size_t n = e.size() < 63 ? e.size() : 63;
        for (size_t i = 0; i < n; i++) b[i] = e[i];
        b[n] = 0;
        long v = strtol(b, nullptr, 10);
        char w[64];
        int k = snprintf(w, sizeof w, "%ld", v);
        int pad = (int)(v % 9) * 3;
        for (int i = 0; i < pad; i++) w[k++] = '.';
        w[k] = 0;
        if (v <= 0 || (size_t)k != e.size() || strcmp(w, b)) sim::violation("torn", "a string value arrived altered: \"%s\"", b);
        return v;
    }
};

// ------------------------------------------------------------- queue kinds
enum QKind { BQ_DYN, BQ_FIX, NBQ_DYN, NBQ_FIX, DBUF };
struct IQ {
    virtual ~IQ() {}
    virtual void enq(long v, bool faults) = 0;
    virtual long deq(bool faults) = 0;             // blocking, or buffer dequeue
    virtual bool try_deq(long& v, bool faults) = 0;
    virtual bool is_empty() = 0;
    virtual void swap() = 0;
    virtual void destroy() = 0;
};
template<typename Q, typename E>
struct Base: IQ {
    Q* q = nullptr;
    void* mem = nullptr;
    explicit Base(bool faults) {
        mem = sim::arena_place(sizeof(Q), alignof(Q));
        Sut s(faults);
        q = new (mem) Q();
    }
    void destroy() override {
        {
            Sut s(false);
            q->~Q();
        }
        sim::arena_free(mem);
    }
    void enq(long v, bool faults) override {
        Sut s0(false);
        E e = Tr<E>::make(v);
        Sut s(faults);
        if (v & 1) q->enqueue(e);
        else q->enqueue(efp::move(e));
    }
    long deq(bool) override { abort(); }
    bool try_deq(long&, bool) override { abort(); }
    bool is_empty() override { abort(); }
    void swap() override { abort(); }
};
template<typename Q, typename E>
struct BlkQ: Base<Q, E> {
    using Base<Q, E>::Base;
    long deq(bool faults) override {
        Sut s(faults);
        E e = this->q->dequeue();
        Sut s2(false);
        return Tr<E>::val(e);
    }
};
template<typename Q, typename E>
struct NblQ: Base<Q, E> {
    using Base<Q, E>::Base;
    bool try_deq(long& v, bool faults) override {
        Sut s(faults);
        efp::Maybe<E> m = this->q->dequeue();
        Sut s2(false);
        if (!m) return false;
        v = Tr<E>::val(m.template get<E>());
        return true;
    }
    bool is_empty() override {
        Sut s(false);
        return this->q->is_empty();
    }
};
template<typename Q, typename E>
struct DblB: Base<Q, E> {
    using Base<Q, E>::Base;
    long deq(bool faults) override {
        Sut s(faults);
        E e = this->q->dequeue();
        Sut s2(false);
        return Tr<E>::val(e);
    }
    bool is_empty() override {
        Sut s(false);
        return this->q->empty();
    }
    void swap() override {
        Sut s(false);
        this->q->swap_buffer();
    }
};
template<typename E, size_t N>
IQ* mk_fix(int kind, bool f) {
    switch (kind) {
        case BQ_FIX: return new BlkQ<efp::BlockingQ<E, N>, E>(f);
        case NBQ_FIX: return new NblQ<efp::NonBlockingQ<E, N>, E>(f);
        default: return new DblB<efp::DoubleBuffer<E, N>, E>(f);
    }
}
// large capacities, for two element types only
template<typename E>
struct Bulky { static const bool value = false; };
template<>
struct Bulky<int> { static const bool value = true; };
template<>
struct Bulky<TElem> { static const bool value = true; };
template<typename E, size_t N>
IQ* mk_big(int kind, bool f) { return mk_fix<typename std::conditional<Bulky<E>::value, E, int>::type, N>(kind, f); }
template<typename E>
IQ* mk_e(int kind, int cap, bool f) {
    if (kind == BQ_DYN) return new BlkQ<efp::BlockingQ<E>, E>(f);
    if (kind == NBQ_DYN) return new NblQ<efp::NonBlockingQ<E>, E>(f);
    switch (cap) {
        case 1: return mk_fix<E, 1>(kind, f);
        case 2: return mk_fix<E, 2>(kind, f);
        case 3: return mk_fix<E, 3>(kind, f);
        case 16: return mk_big<E, 16>(kind, f);
        case 300: return mk_big<E, 300>(kind, f);
        default: return mk_fix<E, 5>(kind, f);
    }
}
static const int caps[4] = {1, 2, 3, 5};
static IQ* mk(int kind, int elem, int cap, bool f) {
    switch (elem) {
        case 0: return mk_e<int>(kind, cap, f);
        case 1: return mk_e<Pod>(kind, cap, f);
        case 2: return mk_e<TElem>(kind, cap, f);
        case 3: return mk_e<long*>(kind, cap, f);
        default: return mk_e<efp::String>(kind, cap, f);
    }
}

// ------------------------------------------------------------- scenario
enum OpKind { O_ENQ = 1, O_DEQ, O_TRY, O_EMPTY, O_SWAP, O_TAKE, O_CYCLE };
// cfg: kind elem cap nthreads faults ctor_faults prefix
enum Cfg { K_KIND, K_ELEM, K_CAP, K_NT, K_FAULTS, K_CTORF, K_PREFIX, NCFG };

static std::vector<lin::Op> hist;
static IQ* Q;
static const Rec* R;
static bool FAULTS;
static long next_val;

static void begin(int kind, long v, size_t& slot) {
    NoSut n;
    lin::Op o;
    o.kind = kind;
    o.val = v;
    o.inv = sim::tick();
    o.ret = ~0ull;
    slot = hist.size();
    hist.push_back(o);
}
static void finish(size_t slot, int kind, long v) {
    hist[slot].kind = kind;
    hist[slot].val = v;
    hist[slot].ret = sim::tick();
    sim::note((uint64_t)kind * 1000003 + (uint64_t)v);
}
static void dropped(size_t slot) {  // the call failed: it must have had no effect
    hist[slot].kind = -1;
    hist[slot].ret = sim::tick();
    sim::note(0xDEAD);
}
static void unexpected(const char* what) {
    sim::violation("exception", "%s threw although nothing had failed", what);
}
static bool injected(uint64_t before) { return sim::run_faults() != before; }

static void do_op(int kind, long v) {
    size_t s;
    uint64_t f0 = sim::run_faults();
    sim::op_tag(kind);
    switch (kind) {
        case O_ENQ:
            begin(lin::ENQ, v, s);
            try {
                Q->enq(v, FAULTS);
                finish(s, lin::ENQ, v);
            } catch (...) {
                if (!FAULTS || !injected(f0)) unexpected("enqueue");
                dropped(s);
            }
            break;
        case O_DEQ: {
            begin(lin::DEQ, -1, s);
            try {
                long r = Q->deq(FAULTS);
                finish(s, lin::DEQ, r);
            } catch (...) {
                if (!FAULTS || !injected(f0)) unexpected("dequeue");
                dropped(s);
            }
            break;
        }
        case O_TRY: {
            begin(lin::DEQ, -1, s);
            try {
                long r = -1;
                bool ok = Q->try_deq(r, FAULTS);
                finish(s, ok ? lin::DEQ : lin::DEQ_NONE, r);
            } catch (...) {
                if (!FAULTS || !injected(f0)) unexpected("dequeue");
                dropped(s);
            }
            break;
        }
        case O_EMPTY: {
            begin(lin::IS_EMPTY, 0, s);
            bool e = Q->is_empty();
            finish(s, lin::IS_EMPTY, e);
            break;
        }
        case O_SWAP:
            begin(lin::SWAP, 0, s);
            Q->swap();
            finish(s, lin::SWAP, 0);
            break;
        case O_TAKE: {  // consumer of a DoubleBuffer: dequeue is only defined if not empty
            begin(lin::IS_EMPTY, 0, s);
            bool e = Q->is_empty();
            finish(s, lin::IS_EMPTY, e);
            if (!e) {
                begin(lin::DEQ, -1, s);
                long r = Q->deq(false);
                finish(s, lin::DEQ, r);
            }
            break;
        }
    }
    sim::op_tag(0);
}

static void thread_main(void* arg) {
    long t = (long)(intptr_t)arg;
    for (const auto& op : R->ops)
        if (op.size() >= 3 && op[0] == t) do_op((int)op[1], op[2]);
}
static void rescue_main(void*) { do_op(O_ENQ, next_val++); }
static bool drain_stop;
static void drain_main(void*) {
    // takes until it blocks on the empty queue; the last element it gets is the
    // sentinel that ends it
    while (!drain_stop) do_op(O_DEQ, 0);
}

// ------------------------------------------------------------- bulk scenario
// Long histories and long queues.  First one thread works against an exact
// list; then several threads at once, checked for exactly-once delivery and for
// the order of every producer's values as seen by every consumer.
enum BulkCfg { B_KIND, B_ELEM, B_CAP, B_PROD, B_CONS, B_PER, NBULK };
static const long PSTEP = 1000000;
struct Taken {
    std::vector<long> v;
};
static Taken taken[sim::MAXF];
static long bulk_per, bulk_quota[sim::MAXF];
static int bulk_kind;
static int bulk_left;  // producers still running
static long bulk_attempts;
static void bulk_producer(void* arg) {
    long p = (long)(intptr_t)arg;
    sim::op_tag(O_ENQ);
    for (long i = 0; i < bulk_per; i++) Q->enq(p * PSTEP + i, false);
    bulk_left--;
    sim::op_tag(0);
}
static void bulk_take(int c, long v) {
    NoSut n;
    taken[c].v.push_back(v);
}
static void bulk_consumer(void* arg) {
    int c = (int)(intptr_t)arg;
    if (bulk_kind == BQ_DYN || bulk_kind == BQ_FIX) {
        sim::op_tag(O_DEQ);
        for (long i = 0; i < bulk_quota[c]; i++) bulk_take(c, Q->deq(false));
    } else if (bulk_kind == DBUF) {
        for (long i = 0; i < bulk_attempts; i++) {
            sim::op_tag(O_SWAP);
            Q->swap();
            while (!Q->is_empty()) bulk_take(c, Q->deq(false));
        }
    } else {
        sim::op_tag(O_TRY);
        for (long i = 0; i < bulk_attempts; i++) {
            long v = 0;
            if (Q->try_deq(v, false)) bulk_take(c, v);
        }
    }
    sim::op_tag(0);
}
struct ListModel {
    std::deque<long> a, b;  // b: read buffer of a DoubleBuffer
    size_t cap = 0;
    void push(long v) {
        if (cap && a.size() == cap) a.pop_front();
        a.push_back(v);
    }
};
static void bulk_pop_check(ListModel& m, int kind) {
    std::deque<long>& rd = kind == DBUF ? m.b : m.a;
    if (kind == DBUF || kind == NBQ_DYN || kind == NBQ_FIX) {
        bool e = Q->is_empty();
        if (e != rd.empty()) sim::violation("wrong-content", "the queue says %s although it should hold %zu elements", e ? "empty" : "not empty", rd.size());
    }
    if (kind == NBQ_DYN || kind == NBQ_FIX) {
        long v = 0;
        bool got = Q->try_deq(v, false);
        if (got == rd.empty()) sim::violation("wrong-content", "dequeue %s although the queue should hold %zu elements", got ? "returned a value" : "returned nothing", rd.size());
        if (!got) return;
        if (v != rd.front()) sim::violation("wrong-content", "dequeue returned %ld instead of %ld (%zu elements)", v, rd.front(), rd.size());
        rd.pop_front();
        return;
    }
    if (rd.empty()) return;  // would block, or be undefined
    long v = Q->deq(false);
    if (v != rd.front()) sim::violation("wrong-content", "dequeue returned %ld instead of %ld (%zu elements)", v, rd.front(), rd.size());
    rd.pop_front();
}
static void bulk_exec(const Rec& r);

static int model_cap;
static lin::Model model;
static void check_hist(bool end_empty, const char* when) {
    // failed calls had no effect; unfinished calls (blocked consumers) had none yet
    std::vector<lin::Op> h;
    for (auto& o : hist)
        if (o.kind >= 0 && o.ret != ~0ull) h.push_back(o);
    drv::stats().checks++;
    lin::Result res = lin::check(h.data(), (int)h.size(), model, model_cap, end_empty);
    if (res == lin::UNKNOWN) {
        drv::stats().inconclusive++;
        return;
    }
    if (res == lin::OK) return;
    if (end_empty) {
        lin::Result r2 = lin::check(h.data(), (int)h.size(), model, model_cap, false);
        if (r2 == lin::OK)
            sim::violation("lost-wakeup", "%s: a consumer is blocked although the queue holds an element", when);
        if (r2 == lin::UNKNOWN) {
            drv::stats().inconclusive++;
            return;
        }
    }
    std::string d;
    char b[80];
    static const char* nm[] = {"enqueue", "dequeue", "dequeue=nothing", "is_empty", "swap"};
    for (auto& o : h) {
        if (d.size() > 1200) break;
        snprintf(b, sizeof b, "%s(%ld)@%llu-%llu ", nm[o.kind], o.val, (unsigned long long)o.inv, (unsigned long long)o.ret);
        d += b;
    }
    sim::violation("not-linearizable", "%s: no sequential queue explains the history: %s", when, d.c_str());
}
static void require_not_deadlocked(sim::Status st, bool consumers_may_wait) {
    if (st == sim::LIMIT) sim::violation("livelock", "threads make no progress although every fault has stopped");
    if (st != sim::STUCK) return;
    for (int i = 1; i < sim::MAXF; i++)
        if (!strcmp(sim::fiber_state(i), "lock"))
            sim::violation("deadlock", "thread %d waits for a lock that is never released (op tag %d)", i, sim::op_tag_of(i));
    if (!consumers_may_wait) sim::violation("deadlock", "a non-blocking call waits forever");
    for (int i = 1; i < sim::MAXF; i++)
        if ((!strcmp(sim::fiber_state(i), "wait") || !strcmp(sim::fiber_state(i), "sleep")) && sim::op_tag_of(i) != O_DEQ)
            sim::violation("deadlock", "thread %d waits in a call that is not a dequeue (op tag %d)", i, sim::op_tag_of(i));
}
static int waiting() {
    int n = 0;
    for (int i = 1; i < sim::MAXF; i++)
        if (!strcmp(sim::fiber_state(i), "wait") || !strcmp(sim::fiber_state(i), "sleep")) n++;
    return n;
}

static void bulk_exec(const Rec& r) {
    int kind = bulk_kind = (int)r.cfg[B_KIND];
    bool blocking = kind == BQ_DYN || kind == BQ_FIX;
    ListModel m;
    m.cap = (size_t)r.cfg[B_CAP];
    sim::set_step_limit(200000000);
    Q = mk(kind, (int)r.cfg[B_ELEM], (int)r.cfg[B_CAP], false);
    long v = 100;
    for (const auto& op : r.ops) {
        if (op.size() < 3) continue;
        for (long i = 0; i < op[2]; i++) {
            if (op[1] == O_ENQ) {
                ++v;
                Q->enq(v, false);
                m.push(v);
            } else if (op[1] == O_SWAP) {
                if (kind == DBUF) {
                    Q->swap();
                    std::swap(m.a, m.b);
                }
            } else if (op[1] == O_CYCLE) {
                // the storage wraps around again and again
                ++v;
                Q->enq(v, false);
                m.push(v);
                if (kind == DBUF && i % 2) {
                    Q->swap();
                    std::swap(m.a, m.b);
                }
                if (i % 7 != 3 || (!m.cap && m.a.size() > 20)) bulk_pop_check(m, kind);
            } else {
                bulk_pop_check(m, kind);
            }
        }
    }
    // what is left must come out, too
    for (int round = 0; round < 2; round++) {
        std::deque<long>& rd = kind == DBUF ? m.b : m.a;
        while (!rd.empty()) bulk_pop_check(m, kind);
        if (!blocking) bulk_pop_check(m, kind);
        if (kind != DBUF) break;
        Q->swap();
        std::swap(m.a, m.b);
    }
    drv::stats().checks++;
    int P = (int)r.cfg[B_PROD], C = (int)r.cfg[B_CONS];
    if (P) {
        for (auto& t : taken) t.v.clear();
        bulk_per = r.cfg[B_PER];
        long total = bulk_per * P;
        bulk_left = P;
        bulk_attempts = kind == DBUF ? total / 4 + 2 : total / C + 2;
        // a bounded queue keeps at least its newest values, an unbounded one all of them
        long supply = kind == BQ_FIX ? (total < r.cfg[B_CAP] ? total : r.cfg[B_CAP]) : total;
        for (int c = 0; c < C; c++) bulk_quota[c] = supply / C;
        for (int p = 1; p <= P; p++) sim::spawn(bulk_producer, (void*)(intptr_t)p);
        for (int c = 0; c < C; c++) sim::spawn(bulk_consumer, (void*)(intptr_t)c);
        sim::Status st = sim::run_all();
        if (st == sim::LIMIT) sim::violation("livelock", "threads make no progress");
        if (st != sim::ALL_DONE) sim::violation("deadlock", "a thread waits forever although values for it were enqueued");
        // the rest, by the host
        Taken& rest = taken[C];
        if (kind == DBUF) {
            for (int round = 0; round < 2; round++) {
                while (!Q->is_empty()) rest.v.push_back(Q->deq(false));
                Q->swap();
            }
        } else if (kind == BQ_DYN) {
            for (long i = supply / C * C; i < total; i++) rest.v.push_back(Q->deq(false));
        } else if (!blocking) {
            long x;
            while (Q->try_deq(x, false)) rest.v.push_back(x);
            if (!Q->is_empty()) sim::violation("wrong-content", "a drained queue is not empty");
        }
        std::set<long> all;
        for (int c = 0; c <= C; c++) {
            std::map<long, long> last;
            for (long x : taken[c].v) {
                long p = x / PSTEP;
                if (p < 1 || p > P || x % PSTEP >= bulk_per) sim::violation("wrong-content", "a dequeue returned %ld, which nobody enqueued", x);
                auto it = last.find(p);
                if (it != last.end() && it->second >= x)
                    sim::violation("wrong-order", "one consumer received %ld after %ld of the same producer", x, it->second);
                last[p] = x;
                if (!all.insert(x).second) sim::violation("duplicate", "the value %ld was delivered twice", x);
            }
        }
        bool lossless = kind == BQ_DYN || kind == NBQ_DYN || total <= r.cfg[B_CAP];
        if (kind == BQ_FIX && (total % C || total > r.cfg[B_CAP])) lossless = false;
        if (lossless && (long)all.size() != total) sim::violation("lost", "%ld of %ld values were delivered", (long)all.size(), total);
        drv::stats().checks++;
    }
    Q->destroy();
    delete Q;
    Q = nullptr;
    if (sim::live_objs()) sim::violation("leak", "%zu element objects were never destroyed", sim::live_objs());
    if (sim::live_blocks()) sim::violation("leak", "%zu blocks of memory leaked", sim::live_blocks());
}
static void bulk_gen(Rng& g, int kind, int elem, Rec& r, sim::Policy& p) {
    r.scen = "bulk";
    r.cfg.assign(NBULK, 0);
    r.cfg[B_KIND] = kind;
    r.cfg[B_ELEM] = elem;
    static const int bc[4] = {5, 16, 300, 300};
    r.cfg[B_CAP] = (kind == BQ_DYN || kind == NBQ_DYN) ? 0 : bc[g.below(4)];
    if (r.cfg[B_CAP] > 5 && elem != 2) r.cfg[B_ELEM] = 0;
    static const long top[5] = {40, 150, 400, 1200, 3000};
    long size = top[g.below(g.below(4) ? 4 : 5)];
    int bursts = 1 + (int)g.below(6);
    for (int i = 0; i < bursts; i++) {
        uint32_t k = g.below(kind == DBUF ? 5 : 4);
        long n = 1 + (long)g.below((uint32_t)size);
        r.ops.push_back({0, k < 2 || i == 0 ? O_ENQ : k == 4 ? O_SWAP : O_TAKE, k == 4 ? 1 + n % 3 : n});
    }
    if (g.below(50) == 0) {
        // past 65536 values through one queue
        if (r.cfg[B_CAP]) r.cfg[B_CAP] = g.below(3) ? 5 : 300;
        r.cfg[B_ELEM] = 0;
        r.ops.push_back({0, O_CYCLE, 65300 + (long)g.below(1000)});
    }
    if (g.below(2)) {
        r.cfg[B_PROD] = 1 + (long)g.below(3);
        r.cfg[B_CONS] = kind == DBUF ? 1 : 1 + (long)g.below(3);
        r.cfg[B_PER] = 1 + (long)g.below((uint32_t)(size / r.cfg[B_PROD]));
    }
    const double M = 4294967295.0;
    if (g.below(3)) {
        static const double syn[4] = {0.02, 0.1, 0.3, 0.6};
        p.mode = 0;
        p.p_mem = (uint32_t)(0.002 * M);
        p.p_sync = (uint32_t)(syn[g.below(4)] * M);
    } else {
        p.mode = 1;
        p.pct_depth = 1 + (int)g.below(8);
        p.pct_len = 20000;
    }
}

namespace drv {
const char* op_name(const Rec& rec, const std::vector<long>& op, char* buf, size_t n) {
    if (rec.scen == "bulk" && op.size() >= 3) {
        snprintf(buf, n, "%ld times %s", op[2], op[1] == O_ENQ ? "enqueue" : op[1] == O_CYCLE ? "enqueue and dequeue" : op[1] == O_SWAP ? "swap_buffer" : "dequeue");
        return buf;
    }
    static const char* nm[] = {"?", "enqueue", "dequeue", "try_dequeue", "is_empty", "swap_buffer", "take"};
    if (op.size() < 3) return "?";
    snprintf(buf, n, "thread %ld: %s %ld", op[0], nm[op[1] < 7 ? op[1] : 0], op[2]);
    return buf;
}

void gen(const std::string& prop, uint64_t seed, bool thorough, Rec& r, sim::Policy& p) {
    Rng g(seed);
    int kind = 0;
    if (prop == "C01") kind = BQ_DYN;
    else if (prop == "C02") kind = g.below(2) ? BQ_FIX : NBQ_FIX;
    else if (prop == "C03") kind = g.below(2) ? BQ_FIX : BQ_DYN;
    else if (prop == "C04") kind = g.below(2) ? NBQ_FIX : NBQ_DYN;
    else if (prop == "C05") kind = DBUF;
    else kind = (int)g.below(5);
    // not for the checks of failing calls and of races, which need short histories
    if (prop != "C07" && g.below(prop == "C06" ? 1200 : 400) == 0) {
        bulk_gen(g, kind, (int)g.below(5), r, p);
        return;
    }
    r.scen = "queue";
    r.cfg.assign(NCFG, 0);
    r.cfg[K_KIND] = kind;
    int elem = (int)g.below(5);
    if (prop == "C07" && elem < 2) elem = 2;
    if (prop == "C07" && elem == 3) elem = 4;
    if (prop == "C06" && g.below(3) == 0) elem = 3;
    r.cfg[K_ELEM] = elem;
    int cap = caps[g.below(4)];
    r.cfg[K_CAP] = (kind == BQ_DYN || kind == NBQ_DYN) ? 0 : cap;
    int big = thorough ? 2 : 1;
    int nt = 2 + (int)g.below(4);  // 2..5 threads
    r.cfg[K_NT] = nt;
    bool faults = prop == "C07";
    r.cfg[K_FAULTS] = faults;
    r.cfg[K_CTORF] = faults && g.below(6) == 0;
    r.cfg[K_PREFIX] = g.below(3) == 0 ? (long)g.below((uint32_t)cap * 3 + 3) : (long)g.below(3);
    long v = 100;
    int per = 1 + (int)g.below((uint32_t)(4 * big + 2));
    bool blocking = kind == BQ_DYN || kind == BQ_FIX;
    // roles: thread 1 produces; the last one consumes; others either
    for (int t = 1; t <= nt; t++) {
        int role = t == 1 ? 0 : t == nt ? 1 : (int)g.below(3);  // 0 producer 1 consumer 2 both
        if (kind == DBUF) role = t == nt ? 1 : 0;
        if (prop == "C03" && t > 1) role = g.below(4) ? 1 : 2;
        int n = 1 + (int)g.below((uint32_t)per);
        if (prop == "C03" && t == 1) n += (int)g.below(4);
        for (int i = 0; i < n; i++) {
            std::vector<long> op;
            op.push_back(t);
            if (kind == DBUF) {
                if (role == 0) op.push_back(O_ENQ);
                else {
                    static const int c[6] = {O_SWAP, O_TAKE, O_TAKE, O_EMPTY, O_SWAP, O_TAKE};
                    op.push_back(c[g.below(6)]);
                }
            } else if (role == 0 || (role == 2 && g.below(2))) {
                op.push_back(O_ENQ);
            } else if (blocking) {
                op.push_back(O_DEQ);
            } else {
                op.push_back(g.below(4) == 0 ? O_EMPTY : O_TRY);
            }
            op.push_back(op[1] == O_ENQ ? ++v : 0);
            r.ops.push_back(op);
        }
        if (kind == DBUF && role == 1) {
            int extra = (int)g.below(6);
            for (int i = 0; i < extra; i++) r.ops.push_back({t, g.below(3) ? O_TAKE : O_SWAP, 0});
        }
    }
    // schedule policy
    uint32_t pm = g.below(10);
    const double M = 4294967295.0;
    if (pm < 4) {
        static const double mem[4] = {0.002, 0.01, 0.05, 0.25};
        static const double syn[4] = {0.05, 0.2, 0.5, 0.8};
        p.mode = 0;
        p.p_mem = (uint32_t)(mem[g.below(4)] * M);
        p.p_sync = (uint32_t)(syn[g.below(4)] * M);
        if (g.below(4) == 0) {
            p.starve = 1 + (int)g.below((uint32_t)nt);
            sim::count_fault(sim::F_STALL);
        }
    } else if (pm < 8) {
        p.mode = 1;
        p.pct_depth = 1 + (int)g.below(6);
        static const uint32_t len[4] = {60, 200, 600, 1500};
        p.pct_len = len[g.below(4)];
    } else {
        p.mode = pm == 8 ? 2 : 0;
        p.p_sync = (uint32_t)(0.3 * M);
    }
    if (prop == "C03") p.p_spur = (uint32_t)((g.below(2) ? 0.25 : 0.03) * M);
    else if (blocking && g.below(3) == 0) p.p_spur = (uint32_t)(0.1 * M);
    if (faults) {
        if (g.below(2)) {
            p.one_alloc = (long)g.below(40);
            p.one_copy = g.below(2) ? (long)g.below(30) : -1;
        } else {
            p.p_alloc = (uint32_t)((g.below(2) ? 0.05 : 0.2) * M);
            p.p_copy = (uint32_t)((g.below(2) ? 0.05 : 0.2) * M);
        }
    }
}

void exec(const Rec& r) {
    if (r.scen == "bulk") {
        bulk_exec(r);
        return;
    }
    R = &r;
    hist.clear();
    int kind = (int)r.cfg[K_KIND];
    bool blocking = kind == BQ_DYN || kind == BQ_FIX;
    model = kind == DBUF ? lin::DOUBLE : lin::FIFO;
    model_cap = (int)r.cfg[K_CAP];
    FAULTS = false;
    next_val = 5000;
    drain_stop = false;
    Q = nullptr;
    for (int attempt = 0; !Q && attempt < 20; attempt++) {
        uint64_t f0 = sim::run_faults();
        try {
            Q = mk(kind, (int)r.cfg[K_ELEM], model_cap, r.cfg[K_CTORF] != 0 && attempt < 19);
        } catch (...) {
            if (!injected(f0)) unexpected("the constructor");
            if (sim::live_blocks()) {
                char d[300];
                sim::describe_live(d, sizeof d);
                sim::violation("leak", "a failed construction leaks memory: %s", d);
            }
        }
    }
    // earlier use of the queue by one thread moves the storage around
    for (long i = 0; i < r.cfg[K_PREFIX]; i++) {
        do_op(O_ENQ, next_val++);
        if (kind == DBUF) {
            if (i % 3 == 2) {
                do_op(O_SWAP, 0);
                do_op(O_TAKE, 0);
            }
        } else if (i % 4 != 3) {
            if (blocking) {
                if (i % 4 == 0 || true) do_op(O_DEQ, 0);
            } else {
                do_op(O_TRY, 0);
            }
        }
    }
    FAULTS = r.cfg[K_FAULTS] != 0;
    for (long t = 1; t <= r.cfg[K_NT]; t++) sim::spawn(thread_main, (void*)(intptr_t)t);
    sim::Status st = sim::run_all();
    FAULTS = false;
    sim::faults_enable(false);
    require_not_deadlocked(st, blocking);
    int w = waiting();
    if (w) stats().stuck++;
    check_hist(w > 0, w ? "at quiescence with blocked consumers" : "after all calls returned");
    // blocked consumers are served by further enqueues
    for (int k = 0; waiting() && k < 100; k++) {
        int before = waiting();
        sim::spawn(rescue_main, nullptr);
        st = sim::run_all();
        require_not_deadlocked(st, true);
        if (waiting() >= before && hist.back().kind == lin::ENQ) {
            // the consumer that was served may block again in its next dequeue
            check_hist(waiting() > 0, "after a further enqueue");
        }
        if (sim::spawn_left() < 3) sim::recycle();
    }
    if (waiting()) sim::violation("lost-wakeup", "consumers stay blocked after any number of further enqueues");
    // empty the queue completely
    if (blocking) {
        if (sim::spawn_left() < 3) sim::recycle();
        sim::spawn(drain_main, nullptr);
        st = sim::run_all();
        require_not_deadlocked(st, true);
        check_hist(true, "after draining the queue");
        drain_stop = true;
        sim::spawn(rescue_main, nullptr);
        st = sim::run_all();
        require_not_deadlocked(st, true);
        if (st != sim::ALL_DONE) sim::violation("lost-wakeup", "the draining consumer is not woken by an enqueue");
        check_hist(true, "after the last enqueue");
    } else {
        sim::recycle();
        if (kind == DBUF) {
            for (int round = 0; round < 2; round++) {
                for (int i = 0; i < 2 * model_cap + 2; i++) do_op(O_TAKE, 0);
                do_op(O_SWAP, 0);
            }
        } else {
            for (int i = 0; i < 100; i++) {
                do_op(O_TRY, 0);
                if (hist.back().kind == lin::DEQ_NONE) break;
            }
            do_op(O_EMPTY, 0);
        }
        check_hist(true, "after draining");
    }
    Q->destroy();
    delete Q;
    Q = nullptr;
    if (sim::live_objs()) sim::violation("leak", "%zu element objects were never destroyed", sim::live_objs());
    if (sim::live_blocks()) {
        char d[400];
        sim::describe_live(d, sizeof d);
        sim::violation("leak", "%zu blocks of memory leaked: %s", sim::live_blocks(), d);
    }
}
}  // namespace drv
