// Views (C22): take, drop, slice, head, tail, init, last, take_while, drop_while on
// containers and on views of them, while memory and element copies fail, predicates
// throw and the elements below change.
#include "cont.h"
#include <limits>

static bool g_faults;
template<>
struct Conv<char> {
    static char make(long v) { return (char)('a' + v % 26); }
    static long get(const char& e) { return e - 'a'; }
};
template<typename E>
struct Plain { typedef E T; };
template<typename E>
struct Plain<const E> { typedef E T; };

// ------------------------------------------------------------- predicates
static Model* g_calls;
static bool g_cb_failed;
static long g_pivot;
static bool keep(long v) { return v % 5 != g_pivot; }
template<typename E>
struct Pred {
    bool operator()(const E& e) const {
        long v = Conv<typename Plain<E>::T>::get(e);
        if (g_cb_failed) sim::violation("called-again", "the predicate is called again after it failed, in %s", g_what);
        {
            NoSut ns;
            if (g_calls->size() > 200) sim::violation("calls", "%s does not stop calling its predicate", g_what);
            g_calls->push_back(v);
        }
        if (sim::fault_here(sim::CB, sim::F_CB)) {
            g_cb_failed = true;
            throw CallFail();
        }
        return keep(v);
    }
};

// ------------------------------------------------------------- what there is to look at
template<typename E>
struct World {
    Model m;                     // the container's elements
    std::vector<const E*> at;    // and where they are
};
template<typename E>
struct Held {
    size_t off = 0, len = 0;
    virtual ~Held() {}
    virtual void check(const World<E>& w) = 0;
    virtual Held<E>* step(const World<E>& w, const std::vector<long>& op) = 0;
    virtual void assign(const Held<E>* o) = 0;
    virtual void use(const World<E>& w, long how) = 0;
};

enum VFn {
    V_TAKE, V_DROP, V_SLICE, V_TAKEU, V_DROPU, V_SLICEU, V_TAIL, V_INIT, V_TAKE0, V_TAKE2, V_TAKE9, V_DROP0, V_DROP2, V_DROP9, V_SLICEC, V_TWHILE, V_DWHILE, V_COPY, V_CONV,
    V_HEAD, V_LAST, V_NULL, NV
};
static const char* const vname[NV] = {"take", "drop", "slice", "take_unsafe", "drop_unsafe", "slice_unsafe", "tail", "init", "take of a static count", "take of a static count",
                                      "take of a static count", "drop of a static count", "drop of a static count", "drop of a static count", "slice of static bounds", "take_while",
                                      "drop_while", "copy of a view", "conversion of a view", "head", "last", "is_null"};

template<typename E, typename V>
struct View;
// (type-erased: there are many types of views)
typedef void (*Thunk)(const void*, void*);
template<typename F>
static void thunk(const void* f, void* mem) { (*(const F*)f)(mem); }
static bool built(Thunk f, const void* ctx, void* mem, bool must_refuse, const Model* calls) {
    Model seen;
    g_calls = &seen;
    g_cb_failed = false;
    size_t o0 = sim::live_objs(), b0 = sim::live_blocks();
    Outcome r = attempt([&] { f(ctx, mem); }, g_faults);
    drv::stats().checks++;
    if (must_refuse) {
        if (r == OK) sim::violation("no-error", "%s of an empty sequence returns", g_what);
    } else if (r == REFUSED) sim::violation("false-failure", "%s refuses a valid call", g_what);
    else if (r == FAILED && !g_cb_failed) sim::violation("needs-memory", "%s fails when an allocation or a copy of an element does, though it only makes a view", g_what);
    if (g_cb_failed && r == OK) sim::violation("swallowed", "%s returns although its predicate threw", g_what);
    if (calls) {
        if (r == OK && seen.size() != calls->size()) sim::violation("calls", "%s calls its predicate %zu times, expected %zu", g_what, seen.size(), calls->size());
        for (size_t i = 0; i < seen.size(); i++)
            if (i >= calls->size() || seen[i] != (*calls)[i]) sim::violation("calls", "call %zu of the predicate of %s is given %ld, another element than number %zu", i, g_what, seen[i], i);
    }
    if (sim::live_objs() != o0 || sim::live_blocks() != b0) sim::violation("leak", "%s leaves %zu element objects and %zu blocks, %zu and %zu before", g_what, sim::live_objs(), sim::live_blocks(), o0, b0);
    return r == OK;
}
// a view made by f at a place of its own
template<typename E, typename V, typename F>
static Held<E>* make(const F& f, size_t off, size_t len, bool must_refuse, const Model* calls) {
    void* mem = sim::arena_place(sizeof(V), alignof(V));
    if (!built(thunk<F>, &f, mem, must_refuse, calls)) {
        sim::arena_free(mem);
        return nullptr;
    }
    auto* h = new View<E, V>();
    h->v = (V*)mem;
    h->off = off;
    h->len = len;
    return h;
}
// a reference to one element
static void one_core(Thunk f, const void* ctx, const void* want, bool must_refuse) {
    const void* got = nullptr;
    Outcome r = attempt([&] { f(ctx, &got); }, g_faults);
    drv::stats().checks++;
    if (must_refuse) {
        if (r == OK) sim::violation("no-error", "%s of an empty sequence returns", g_what);
        return;
    }
    if (r != OK) sim::violation("false-failure", "%s of a sequence that is not empty fails", g_what);
    if (got != want) sim::violation("element", "%s is not the element asked for", g_what);
}
template<typename E, typename F>
static void one(const F& f, const E* want, bool must_refuse) {
    auto g = [&](void* to) { *(const void**)to = f(); };
    one_core(thunk<decltype(g)>, &g, want, must_refuse);
}
#define VIEWCALL(EXPR, OFF, LEN, REFUSE, CALLS)                                                            \
    {                                                                                                      \
        typedef typename std::decay<decltype(EXPR)>::type R_;                                              \
        return make<E, R_>([&](void* mem_) { new (mem_) R_(EXPR); }, OFF, LEN, REFUSE, CALLS);             \
    }

// tail and init exist where there can be an element
template<bool may>
struct Ends {
    template<typename E, typename A>
    static Held<E>* tail(A& a, size_t off, size_t len) { VIEWCALL(efp::tail(a), off + 1, len - 1, len == 0, nullptr) }
    template<typename E, typename A>
    static Held<E>* init(A& a, size_t off, size_t len) { VIEWCALL(efp::init(a), off, len - 1, len == 0, nullptr) }
};
template<>
struct Ends<false> {
    template<typename E, typename A>
    static Held<E>* tail(A&, size_t, size_t) { return nullptr; }
    template<typename E, typename A>
    static Held<E>* init(A&, size_t, size_t) { return nullptr; }
};
template<typename E, typename A, typename N>
static Held<E>* counted(A& a, size_t off, size_t len, int fn, size_t n, size_t n2) {
    size_t k = n < len ? n : len;
    N c = (N)n, c2 = (N)n2;
    switch (fn) {
        case V_TAKE: VIEWCALL(efp::take(c, a), off, k, false, nullptr)
        case V_DROP: VIEWCALL(efp::drop(c, a), off + k, len - k, false, nullptr)
        case V_SLICE: VIEWCALL(efp::slice(c, c2, a), off + n, n2 - n, false, nullptr)
        case V_TAKEU: VIEWCALL(efp::take_unsafe(c, a), off, n, false, nullptr)
        case V_DROPU: VIEWCALL(efp::drop_unsafe(c, a), off + n, len - n, false, nullptr)
        default: VIEWCALL(efp::slice_unsafe(c, c2, a), off + n, n2 - n, false, nullptr)
    }
}
// the static forms are made of containers, not of views again
template<bool container>
struct Static {
    template<typename E, typename A>
    static Held<E>* go(A& a, size_t off, size_t len, int fn) {
        size_t two = len < 2 ? len : 2, nine = len < 9 ? len : 9;
        switch (fn) {
            case V_TAKE0: VIEWCALL(efp::take(efp::Size<0>(), a), off, 0, false, nullptr)
            case V_TAKE2: VIEWCALL(efp::take(efp::Size<2>(), a), off, two, false, nullptr)
            case V_TAKE9: VIEWCALL(efp::take(efp::Size<9>(), a), off, nine, false, nullptr)
            case V_DROP0: VIEWCALL(efp::drop(efp::Size<0>(), a), off, len, false, nullptr)
            case V_DROP2: VIEWCALL(efp::drop(efp::Size<2>(), a), off + two, len - two, false, nullptr)
            case V_DROP9: VIEWCALL(efp::drop(efp::Size<9>(), a), off + nine, len - nine, false, nullptr)
            default:
                if (len < 3) return nullptr;
                VIEWCALL(efp::slice(efp::Size<1>(), efp::Size<3>(), a), off + 1, 2, false, nullptr)
        }
    }
};
template<>
struct Static<false> {
    template<typename E, typename A>
    static Held<E>* go(A&, size_t, size_t, int) { return nullptr; }
};
// op: kind, source, function, form, n, n2
template<bool container, typename E, typename A>
static Held<E>* call(A& a, const World<E>& w, size_t off, size_t len, const std::vector<long>& op) {
    typedef typename std::remove_const<A>::type B;
    int fn = (int)op[2];
    long form = op[3];
    sim::op_tag(fn + 1);
    g_what = vname[fn];
    size_t n = (size_t)op[4], n2;
    bool bounded = fn == V_SLICE || fn == V_TAKEU || fn == V_DROPU || fn == V_SLICEU;
    if (bounded) n = n % (len + 1);
    n2 = bounded ? n + (size_t)op[5] % (len - n + 1) : 0;
    if (!bounded && n > 20) {
        static const size_t wide[] = {256, 65536, (size_t)1 << 31, (size_t)1 << 32, (size_t)1 << 63, 0};  // a narrower type would make small numbers of these
        n = form / 3 % 2 ? wide[(size_t)form / 6 % 2 * 3 + n % 3] + n / 3 % 6 - (n > 52 ? n - 50 : 0) : 200 + n % 50;
    }
    switch (fn) {
        case V_TAKE: case V_DROP: case V_SLICE: case V_TAKEU: case V_DROPU: case V_SLICEU:
            if (n > 250 || form % 3 == 1) return counted<E, A, size_t>(a, off, len, fn, n, n2);
            if (form % 3 == 0) return counted<E, A, typename std::conditional<container, int, size_t>::type>(a, off, len, fn, n, n2);
            return counted<E, A, typename std::conditional<container, unsigned char, size_t>::type>(a, off, len, fn, n, n2);
        case V_TAIL: return Ends<efp::CtCapacity<B>::value != 0>::template tail<E>(a, off, len);
        case V_INIT: return Ends<efp::CtCapacity<B>::value != 0>::template init<E>(a, off, len);
        case V_TWHILE: case V_DWHILE: {
            Model calls;
            g_pivot = op[4] % 6;
            size_t k = 0;
            while (k < len) {
                calls.push_back(w.m[off + k]);
                if (!keep(w.m[off + k])) break;
                k++;
            }
            Pred<efp::Element<B>> p;
            const B& ca = a;
#ifdef VIEW_NO_WHILE
            sim::violation("compile", "%s does not compile", g_what);
#else
            if (fn == V_TWHILE) VIEWCALL(efp::take_while(p, ca), off, k, false, &calls)
            VIEWCALL(efp::drop_while(p, ca), off + k, len - k, false, &calls)
#endif
        }
        case V_HEAD:
            one<E>([&] { return &efp::head(a); }, len ? w.at[off] : nullptr, len == 0);
            return nullptr;
        case V_LAST:
            one<E>([&] { return &efp::last(a); }, len ? w.at[off + len - 1] : nullptr, len == 0);
            return nullptr;
        case V_NULL: {
            bool got;
            {
                Sut s;
                got = efp::is_null(a);
            }
            if (got != (len == 0)) sim::violation("element", "is_null of a sequence of %zu elements is %d", len, got);
            return nullptr;
        }
        default: return Static<container>::template go<E>(a, off, len, fn);
    }
}
// copies and conversions
template<typename E, typename A>
static Held<E>* convert(efp::VectorView<A>& v, size_t off, size_t len) {
    const efp::VectorView<A>& c = v;
    VIEWCALL(efp::VectorView<A>(c), off, len, false, nullptr)
}
template<typename E, typename A, size_t n>
static Held<E>* convert(efp::ArrVecView<A, n>& v, size_t off, size_t len) {
    const efp::ArrVecView<A, n>& c = v;
    VIEWCALL(efp::VectorView<A>(c), off, len, false, nullptr)
}
template<typename E, typename A, size_t n>
static Held<E>* convert(efp::ArrayView<A, n>& v, size_t off, size_t len) {
    typedef efp::ArrVecView<A, n> R;
    const efp::ArrayView<A, n>& c = v;
    if (off % 2) VIEWCALL(efp::VectorView<A>(c), off, len, false, nullptr)
    VIEWCALL(R(c), off, len, false, nullptr)
}
template<typename E, typename V>
struct View : Held<E> {
    V* v = nullptr;
    ~View() override {
        v->~V();
        sim::arena_free(v);
    }
    void check(const World<E>& w) override {
        drv::stats().checks++;
        size_t bad = 0, n = this->len;
        {
            Sut s(false);
            V& m = *v;
            const V& c = m;
            if (c.size() != n || (size_t)efp::length(c) != n || c.empty() != (n == 0) || c.capacity() < n) bad = 1;
            else if (c.begin() != c.data() || m.begin() != c.data() || m.data() != c.data() || efp::data(c) != c.data() || efp::data(m) != c.data()) bad = 2;
            else if ((size_t)(c.end() - c.begin()) != n || m.end() != c.end()) bad = 3;
            else if (!(c == c)) bad = 4;
            for (size_t i = 0; !bad && i < n; i++) {
                const E* want = w.at[this->off + i];
                if (&c[i] != want || &m[i] != want || &efp::nth(i, c) != want || &efp::nth(i, m) != want) bad = 10 + i;
                else if (Conv<E>::get(c[i]) != w.m[this->off + i]) bad = 10 + i;
            }
        }
        switch (bad) {
            case 0: break;
            case 1: sim::violation("size", "a view of %zu elements reports size %zu, length %zu, empty %d, capacity %zu, after %s", n, v->size(), (size_t)efp::length(*v), v->empty(), v->capacity(), g_what);
            case 2: case 3: case 4: sim::violation("contents", "begin, end, data and == of a view do not agree after %s", g_what);
            default: sim::violation("contents", "element %zu of a view of elements %zu to %zu is not that element of the container, after %s", bad - 10, this->off, this->off + n, g_what);
        }
    }
    Held<E>* step(const World<E>& w, const std::vector<long>& op) override {
        size_t off = this->off, len = this->len;
        if (op[2] == V_COPY) {
            g_what = vname[V_COPY];
            const V& c = *v;
            VIEWCALL(V(c), off, len, false, nullptr)
        }
        if (op[2] == V_CONV) {
            g_what = vname[V_CONV];
            return convert<E>(*v, off, len);
        }
        if (op[3] % 2) return call<false, E>(*v, w, off, len, op);
        const V& c = *v;
        return call<false, E>(c, w, off, len, op);
    }
    void assign(const Held<E>* o) override {
        const View* s = dynamic_cast<const View*>(o);
        if (!s) return;
        g_what = "assignment of a view";
        Outcome r = attempt([&] { *v = (const V&)*s->v; }, g_faults);
        settle(r, false);
        if (r != OK) sim::violation("needs-memory", "assignment of a view fails");
        this->off = s->off;
        this->len = s->len;
    }
    // a sequence function applied to a view
    void use(const World<E>& w, long how) override {
        Model seen, want(w.m.begin() + (long)this->off, w.m.begin() + (long)(this->off + this->len));
        g_calls = &seen;
        g_cb_failed = false;
        g_pivot = 5;  // keeps everything
        size_t o0 = sim::live_objs(), b0 = sim::live_blocks();
        const V& c = *v;
        Pred<efp::Element<V>> p;
        size_t results = want.size();
        auto each = [&](void*) { efp::for_each(p, c); };
        auto map = [&](void*) { results = efp::length(efp::map(p, c)); };
        bool m = how % 2;
        g_what = m ? "map over a view" : "for_each over a view";
        Thunk f = m ? thunk<decltype(map)> : thunk<decltype(each)>;
        const void* ctx = m ? (const void*)&map : (const void*)&each;
        Outcome r = attempt([&] { f(ctx, nullptr); }, g_faults);
        if (r == OK && results != want.size()) sim::violation("result", "%s has %zu results, expected %zu", g_what, results, want.size());
        drv::stats().checks++;
        settle(r, false);
        if (g_cb_failed && r == OK) sim::violation("swallowed", "%s returns although the function threw", g_what);
        for (size_t i = 0; i < seen.size(); i++)
            if (i >= want.size() || seen[i] != want[i]) sim::violation("calls", "call %zu of %s is given %ld, another element than number %zu", i, g_what, seen[i], i);
        if (r == OK && seen.size() != want.size()) sim::violation("calls", "%s makes %zu calls, expected %zu", g_what, seen.size(), want.size());
        if (sim::live_objs() != o0 || sim::live_blocks() != b0) sim::violation("leak", "%s leaves element objects or memory behind", g_what);
    }
};

// ------------------------------------------------------------- containers
template<typename E>
static E val(long seed, size_t i) {
    uint64_t h = ((uint64_t)seed * 31 + i + 1) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
    return Conv<E>::make((long)((h >> 33) % 24));
}
template<typename E>
struct BoxV {
    typedef Vector<E> C;
    static void fill(C& c, size_t n, long seed) {
        if (seed % 2) c.reserve(n + (size_t)seed % 5);
        for (size_t i = 0; i < n; i++) c.push_back(val<E>(seed, i));
        if (seed % 3 == 0 && n) c.pop_back();
    }
    static void change(C& c, long p) {
        if (p % 3 == 0 && !c.empty()) c.pop_back();
        else if (c.size() < 60) c.push_back(val<E>(p, 1));
    }
};
template<typename E, size_t n>
struct BoxA {
    typedef Array<E, n> C;
    static void fill(C& c, size_t, long seed) {
        for (size_t i = 0; i < n; i++) c[i] = val<E>(seed, i);
    }
    static void change(C&, long) {}
};
template<typename E>
struct BoxAV {
    typedef ArrVec<E, 5> C;
    static void fill(C& c, size_t n, long seed) {
        for (size_t i = 0; i < n % 6; i++) c.push_back(val<E>(seed, i));
    }
    static void change(C& c, long p) {
        if ((p % 3 == 0 && !c.empty()) || c.size() == 5) c.pop_back();
        else c.push_back(val<E>(p, 1));
    }
};
template<typename E>
struct BoxQ {
    typedef Vcq<E, 4> C;
    static void fill(C& c, size_t n, long seed) {
        for (size_t i = 0; i < (size_t)seed % 9; i++) c.push_back(val<E>(seed, i + 50));
        while (!c.empty()) c.pop_front();
        for (size_t i = 0; i < n % 5; i++) c.push_back(val<E>(seed, i));
    }
    static void change(C& c, long p) {
        if (p % 3 == 0 && !c.empty()) c.pop_front();
        else c.push_back(val<E>(p, 1));
    }
};
template<typename E>
struct BoxB {
    typedef Vcb<E, 3> C;
    static void fill(C& c, size_t n, long seed) {
        for (size_t i = 0; i < 3 + n % 4; i++) c.push_back(val<E>(seed, i));
    }
    static void change(C& c, long p) { c.push_back(val<E>(p, 1)); }
};
struct BoxS {
    typedef String C;
    static void fill(C& c, size_t n, long seed) {
        for (size_t i = 0; i < n; i++) c.push_back(val<char>(seed, i));
    }
    static void change(C& c, long p) {
        if (p % 3 == 0 && c.size() > 1) c.resize(c.size() - 1);
        else if (c.size() < 60) c.push_back(val<char>(p, 1));
    }
};
template<typename E, typename C>
static void look(const C& c, World<E>& w) {
    static long buf[100];
    static const E* ptr[100];
    size_t n;
    {
        Sut s(false);
        n = efp::length(c);
        if (n > 100) sim::violation("contents", "a container has %zu elements", n);
        for (size_t i = 0; i < n; i++) ptr[i] = &c[i], buf[i] = Conv<E>::get(c[i]);
    }
    w.m.assign(buf, buf + n);
    w.at.assign(ptr, ptr + n);
}
enum Act { A_MAKE, A_CHAIN, A_WRITE, A_CHANGE, A_ASSIGN, A_USE, NA };
template<typename E, typename Box>
static void history(const drv::Rec& r) {
    typedef typename Box::C C;
    C* c = (C*)sim::arena_place(sizeof(C), alignof(C));
    {
        Sut s(false);
        new (c) C();
        Box::fill(*c, (size_t)r.cfg[2], r.cfg[3]);
    }
    World<E> w;
    look<E>(*c, w);
    std::vector<Held<E>*> held;
    auto forget = [&] {
        for (auto* h : held) delete h;
        held.clear();
    };
    for (const auto& op : r.ops) {
        if (op.size() < 6 || op[2] < 0 || op[2] >= NV || op[1] < 0 || op[3] < 0 || op[4] < 0 || op[5] < 0) continue;
        Held<E>* h = nullptr;
        switch (op[0]) {
            case A_CHAIN:
                if (!held.empty()) {
                    h = held[(size_t)op[1] % held.size()]->step(w, op);
                    break;
                }
                // fall through
            case A_MAKE: {
                if (op[2] == V_COPY || op[2] == V_CONV) break;
                const C& cc = *c;
                if (op[3] % 2) h = call<true, E>(*c, w, 0, w.m.size(), op);
                else h = call<true, E>(cc, w, 0, w.m.size(), op);
                break;
            }
            case A_WRITE: {
                if (w.m.empty()) break;
                g_what = "a write to the container";
                size_t i = (size_t)op[4] % w.m.size();
                {
                    Sut s(false);
                    E& x = efp::nth(i, *c);
                    x = val<E>(op[5], 3);
                    w.m[i] = Conv<E>::get(x);
                }
                break;
            }
            case A_CHANGE: {
                forget();
                g_what = "a change of the container";
                {
                    Sut s(false);
                    Box::change(*c, op[4]);
                }
                look<E>(*c, w);
                break;
            }
            case A_ASSIGN:
                if (held.size() > 1) held[(size_t)op[1] % held.size()]->assign(held[(size_t)op[4] % held.size()]);
                break;
            default:
                if (!held.empty()) held[(size_t)op[1] % held.size()]->use(w, op[4]);
        }
        if (h) {
            if (held.size() >= 6) {
                size_t i = (size_t)op[5] % held.size();
                delete held[i];
                held[i] = h;
            } else held.push_back(h);
        }
        World<E> now;
        look<E>(*c, now);
        if (now.m != w.m || now.at != w.at) sim::violation("arguments", "the container holds %s after %s, expected %s", show(now.m).c_str(), g_what, show(w.m).c_str());
        for (auto* x : held) x->check(w);
    }
    forget();
    {
        Sut s(false);
        c->~C();
    }
    sim::arena_free(c);
}

namespace drv {
// cfg: element, container, length, seed, faults
void gen(const std::string&, uint64_t seed, bool thorough, Rec& r, sim::Policy& p) {
    Rng g(seed);
    r.scen = "view";
    bool faults = g.below(4) != 0;
    long len = (long)g.below(g.below(5) == 0 ? 40 : 7);
    r.cfg = {(long)g.below(2), (long)g.below(7), len, (long)g.below(100000), faults};
    int n = 2 + (int)g.below(thorough ? 24 : 10);
    for (int i = 0; i < n; i++) {
        long act = g.below(3) == 0 ? (long)g.below(NA) : (long)g.below(2);
        long k = (long)g.below(8);
        r.ops.push_back({act, (long)g.below(6), (long)g.below(NV), (long)g.below(12), k == 0 ? 21 + (long)g.below(40) : k == 1 ? (long)g.below(20) : (long)g.below(5), (long)g.below(50)});
    }
    p.mode = 2;
    if (faults) {
        switch (g.below(3)) {
            case 0: p.p_alloc = p.p_copy = 0xffffffffu; break;  // no memory at all
            case 1: p.p_alloc = p.p_copy = (uint32_t)(0.3 * M32); break;
            default: break;
        }
        if (g.below(2)) p.one_cb = (long)g.below(12);
        else p.p_cb = (uint32_t)(0.1 * M32);
    }
}
const char* op_name(const Rec&, const std::vector<long>& op, char* buf, size_t n) {
    static const char* const act[NA] = {"", "view of a view: ", "write to the container", "change of the container", "assignment of a view", "sequence function over a view"};
    long a = op[0] >= 0 && op[0] < NA ? op[0] : 0;
    snprintf(buf, n, "%s%s", act[a], a < 2 && op.size() > 2 && op[2] >= 0 && op[2] < NV ? vname[op[2]] : "");
    return buf;
}
template<typename E>
static void kinds(const Rec& r) {
    switch (r.cfg[1]) {
        case 0: return history<E, BoxV<E>>(r);
        case 1: return history<E, BoxA<E, 3>>(r);
        case 2: return history<E, BoxAV<E>>(r);
        case 3: return history<E, BoxQ<E>>(r);
        case 4: return history<E, BoxB<E>>(r);
        case 5: return history<E, BoxA<E, 1>>(r);
        default: return history<char, BoxS>(r);
    }
}
void exec(const Rec& r) {
    sim::set_step_limit(200000000);
    if (r.cfg.size() < 5) return;
    g_faults = r.cfg[4] != 0;
    if (r.cfg[0] == 0) kinds<int>(r);
    else kinds<TElem>(r);
    no_leaks();
    drv::nontrivial_flag() = true;
}
}  // namespace drv
