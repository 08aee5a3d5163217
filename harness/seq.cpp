// Sequence functions (C17) and sorting (C18) under failing allocations, element
// copies and callbacks.
#include "cont.h"
#include "efp/sort.hpp"
#include <algorithm>

// ------------------------------------------------------------- callbacks
static std::vector<std::vector<long>>* g_calls;
static bool g_cb_failed;
static size_t g_cb_limit;
static long cut(long x) { return x < 0 ? -x % 1000003 : x % 1000003; }
// one call of a callback: recorded, and it may fail
static void called(std::initializer_list<long> args) {
    if (g_cb_failed) sim::violation("called-again", "a callback is called again after it failed, in %s", g_what);
    {
        NoSut ns;
        if (g_calls->size() >= g_cb_limit) sim::violation("calls", "%s calls its callback more than %zu times", g_what, g_cb_limit);
        g_calls->push_back(std::vector<long>(args));
    }
    if (sim::fault_here(sim::CB, sim::F_CB)) {
        g_cb_failed = true;
        throw CallFail();
    }
}
static long r1(long a) { return cut(3 * a + 1); }
static long r2(long a, long b) { return cut(a * 101 + b * 7 + 2); }
static long r3(long a, long b, long c) { return cut(a * 101 + b * 7 + c * 1009 + 3); }
static bool keep(long a) { return a % 3 != 0; }
template<typename E>
struct F1 {
    E operator()(const E& a) const {
        long x = Conv<E>::get(a);
        called({x});
        return Conv<E>::make(r1(x));
    }
};
template<typename E>
struct F2 {
    E operator()(const E& a, const E& b) const {
        long x = Conv<E>::get(a), y = Conv<E>::get(b);
        called({x, y});
        return Conv<E>::make(r2(x, y));
    }
};
template<typename E>
struct F3 {
    E operator()(const E& a, const E& b, const E& c) const {
        long x = Conv<E>::get(a), y = Conv<E>::get(b), z = Conv<E>::get(c);
        called({x, y, z});
        return Conv<E>::make(r3(x, y, z));
    }
};
template<typename E>
struct I1 {
    E operator()(size_t i, const E& a) const {
        long x = Conv<E>::get(a);
        called({(long)i, x});
        return Conv<E>::make(r2((long)i, x));
    }
};
template<typename E>
struct I2 {
    E operator()(size_t i, const E& a, const E& b) const {
        long x = Conv<E>::get(a), y = Conv<E>::get(b);
        called({(long)i, x, y});
        return Conv<E>::make(r3((long)i, x, y));
    }
};
template<typename E>
struct P1 {
    bool operator()(const E& a) const {
        long x = Conv<E>::get(a);
        called({x});
        return keep(x);
    }
};
template<typename E>
struct G0 {
    E operator()(size_t i) const {
        called({(long)i});
        return Conv<E>::make(r1((long)i));
    }
};
template<typename E>
struct Each1 {
    void operator()(const E& a) const { called({Conv<E>::get(a)}); }
};
template<typename E>
struct Each2 {
    void operator()(const E& a, const E& b) const { called({Conv<E>::get(a), Conv<E>::get(b)}); }
};
template<typename E>
struct EachI {
    void operator()(size_t i, const E& a) const { called({(long)i, Conv<E>::get(a)}); }
};

// these change their first argument, unless they fail
template<typename E>
struct Mut2 {
    void operator()(E& a, const E& b) const {
        long x = Conv<E>::get(a), y = Conv<E>::get(b);
        called({x, y});
        a = Conv<E>::make(r2(x, y));
    }
};
template<typename E>
struct MutI {
    void operator()(size_t i, E& a) const {
        long x = Conv<E>::get(a);
        called({(long)i, x});
        a = Conv<E>::make(r2((long)i, x));
    }
};
struct Idx {
    void operator()(size_t i) const { called({(long)i}); }
    void operator()(size_t i, size_t j) const { called({(long)i, (long)j}); }
    void operator()(size_t i, size_t j, size_t k) const { called({(long)i, (long)j, (long)k}); }
};

// ------------------------------------------------------------- arguments
template<typename E>
struct MakeV {
    enum { rank = 0 };
    typedef Vector<E> C;
    static C make(const Model& m) {
        C c;
        for (size_t i = 0; i < m.size(); i++) c.push_back(Conv<E>::make(m[i]));
        return c;
    }
    static size_t len(size_t n) { return n; }
};
template<typename E>
struct MakeA {
    enum { rank = 2 };
    typedef Array<E, 3> C;
    static C make(const Model& m) { return C {Conv<E>::make(m[0]), Conv<E>::make(m[1]), Conv<E>::make(m[2])}; }
    static size_t len(size_t) { return 3; }
};
template<typename E>
struct MakeAV {
    enum { rank = 1 };
    typedef ArrVec<E, 5> C;
    static C make(const Model& m) {
        C c;
        for (size_t i = 0; i < m.size(); i++) c.push_back(Conv<E>::make(m[i]));
        return c;
    }
    static size_t len(size_t n) { return n % 6; }
};
template<typename E>
struct MakeQ {
    enum { rank = 1 };
    typedef Vcq<E, 4> C;
    static C make(const Model& m) {
        C c;
        // wrap the storage around first
        for (size_t i = 0; i < 3; i++) c.push_back(Conv<E>::make((long)i));
        for (size_t i = 0; i < 3; i++) c.pop_front();
        for (size_t i = 0; i < m.size(); i++) c.push_back(Conv<E>::make(m[i]));
        return c;
    }
    static size_t len(size_t n) { return n % 5; }
};
static Model values(long seed, size_t n, bool few) {
    Model m;
    for (size_t i = 0; i < n; i++) {
        uint64_t h = ((uint64_t)seed * 31 + i + 1) * 0x9E3779B97F4A7C15ull;
        h ^= h >> 29;
        h *= 0xBF58476D1CE4E5B9ull;
        m.push_back((long)((h >> 40) % (few ? 4 : 5000)));
    }
    return m;
}
static long outl[50000];
template<typename E, typename C>
static Model rd(const C& c) {
    size_t n;
    {
        Sut q(false);
        n = efp::length(c);
        if (n > 50000) sim::violation("result", "the result of %s has length %zu", g_what, n);
        for (size_t i = 0; i < n; i++) outl[i] = Conv<E>::get(efp::nth(i, c));
    }
    return Model(outl, outl + n);
}
template<>
struct Conv<size_t> {
    static long get(const size_t& x) { return (long)x; }
};

// ------------------------------------------------------------- one call and its checks
typedef std::vector<std::vector<long>> Calls;
static bool g_faults;
static size_t g_seen;
// C24: what a result is made of (2 Array, 1 ArrVec, 0 Vector, -1 no sequence); bounded results need no memory
static bool g_kinds;
static int g_got_rank, g_rank;
template<typename R>
static int rank_of(const R&) { return efp::IsStaticSize<R>::value ? 2 : efp::IsStaticCapacity<R>::value ? 1 : 0; }
static void expect_rank(int fn, int lowest);
// f stores its result (read by rd) into *got
template<typename F>
static Outcome judge(const F& f, const Model& want, const Calls& calls, bool call_order) {
    Calls seen;
    g_calls = &seen;
    g_cb_failed = false;
    g_cb_limit = calls.size();
    g_got_rank = -1;
    size_t o0 = sim::live_objs(), b0 = sim::live_blocks();
    Model got;
    Outcome r = attempt([&] {
        f(got);
    }, g_faults);
    settle(r, false);
    drv::stats().checks++;
    if (g_kinds) {
        if (r == FAILED && !g_cb_failed && g_rank > 0) sim::violation("needs-memory", "%s fails for lack of memory although its arguments are bounded at compile time", g_what);
        if (g_got_rank != -1 && g_got_rank != g_rank) {
            static const char* const kind[] = {"a Vector", "an ArrVec", "an Array"};
            sim::violation("result-kind", "%s returns %s, expected %s", g_what, kind[g_got_rank], kind[g_rank]);
        }
    }
    if (g_cb_failed && r == OK) sim::violation("swallowed", "%s returns although its callback threw", g_what);
    if (r == OK && got != want) sim::violation("result", "%s gives %s, expected %s", g_what, show(got).c_str(), show(want).c_str());
    if (call_order) {
        if (r == OK && seen.size() != calls.size()) sim::violation("calls", "%s calls its callback %zu times, expected %zu", g_what, seen.size(), calls.size());
        for (size_t i = 0; i < seen.size(); i++)
            if (seen[i] != calls[i])
                sim::violation("calls", "call %zu of the callback of %s has arguments %s, expected %s", i, g_what, show(seen[i]).c_str(), show(calls[i]).c_str());
    }
    if (sim::live_objs() != o0) sim::violation("leak", "%zu element objects are alive after %s%s, %zu before", sim::live_objs(), r == OK ? "" : "a failed ", g_what, o0);
    if (sim::live_blocks() != b0) {
        char d[300];
        sim::describe_live(d, sizeof d);
        sim::violation("leak", "%s%s leaks memory: %s", r == OK ? "" : "a failed ", g_what, d);
    }
    g_seen = seen.size();
    return r;
}
// runs a call whose result is a sequence of T
#define RESULT(T, EXPR)                \
    [&](Model& got) {                  \
        const auto res = EXPR;         \
        NoSut ns_;                     \
        g_got_rank = rank_of(res);     \
        got = rd<T>(res);              \
    }

enum Fn {
    Q_MAP, Q_MAP2, Q_MAPI, Q_MAPI2, Q_CART2, Q_CART3, Q_FILTER, Q_APPEND2, Q_APPEND3, Q_CONCAT, Q_INTERC, Q_FROM, Q_FROMST, Q_ELEMIDX, Q_FINDIDX, Q_FOLDL, Q_FOLDR,
    Q_EACH, Q_EACH2, Q_EACHI, Q_CEACH, Q_ELEM, Q_FIND, Q_MAP3, Q_EACHMUT, Q_EACHIMUT, Q_INDEX, Q_CINDEX, NQ
};
static const char* const qname[NQ] = {"map", "map of two sequences", "map_with_index", "map_with_index of two sequences", "cartesian_map of two sequences",
                                      "cartesian_map of three sequences", "filter", "append", "append of three sequences", "concat", "intercalate", "from_function",
                                      "from_function of static size", "elem_indices", "find_indices", "foldl", "foldr", "for_each", "for_each of two sequences",
                                      "for_each_with_index", "cartesian_for_each", "elem and elem_index", "find and find_index", "map of three sequences",
                                      "for_each_mut", "for_each_with_index_mut", "for_index", "cartesian_for_index"};

static void expect_rank(int fn, int lowest) {
    bool some = fn == Q_FILTER || fn == Q_ELEMIDX || fn == Q_FINDIDX;  // any number of the elements
    g_rank = some && lowest == 2 ? 1 : lowest;
}
template<typename E, typename C>
static void unchanged(const C& c, const Model& m) {
    Model now = rd<E>(c);
    if (now != m) sim::violation("arguments", "an argument of %s changed from %s to %s", g_what, show(m).c_str(), show(now).c_str());
}
static Calls wrap(const Model& m) {
    Calls c;
    for (long x : m) c.push_back({x});
    return c;
}

// E must be comparable for elem_indices: Strings have ==
template<typename E, template<typename> class MA>
static void unary(int fn, long seed, size_t len) {
    typedef typename MA<E>::C A;
    expect_rank(fn, MA<E>::rank);
    Model ma = values(seed, MA<E>::len(len), seed % 2 == 0);
    Sut outer(false);
    const A a = MA<E>::make(ma);
    NoSut ns;
    switch (fn) {
        case Q_MAP: {
            Model w;
            for (long x : ma) w.push_back(r1(x));
            F1<E> f;
            judge(RESULT(E, efp::map(f, a)), w, wrap(ma), true);
            break;
        }
        case Q_MAPI: {
            Model w;
            Calls c;
            for (size_t i = 0; i < ma.size(); i++) w.push_back(r2((long)i, ma[i])), c.push_back({(long)i, ma[i]});
            I1<E> f;
            judge(RESULT(E, efp::map_with_index(f, a)), w, c, true);
            break;
        }
        case Q_FILTER: {
            Model w;
            for (long x : ma)
                if (keep(x)) w.push_back(x);
            P1<E> f;
            judge(RESULT(E, efp::filter(f, a)), w, wrap(ma), true);
            break;
        }
        case Q_ELEMIDX: {
            Model w;
            long v = ma.empty() ? 3 : ma[(size_t)seed % ma.size()];
            for (size_t i = 0; i < ma.size(); i++)
                if (ma[i] == v) w.push_back((long)i);
            Sut o2(false);
            const E key = Conv<E>::make(v);
            NoSut n2;
            judge(RESULT(size_t, efp::elem_indices(key, a)), w, {}, true);
            break;
        }
        case Q_ELEM: {
            long v = ma.empty() || seed % 3 == 0 ? 999999 : ma[(size_t)seed % ma.size()];
            size_t at = (size_t)(std::find(ma.begin(), ma.end(), v) - ma.begin());
            Sut o2(false);
            const E key = Conv<E>::make(v);
            NoSut n2;
            judge([&](Model& got) {
                bool e = efp::elem(key, a);
                Maybe<size_t> i = efp::elem_index(key, a);
                NoSut ns_;
                got = {e, i.is_nothing() ? -1 : (long)i.value()};
            }, {at < ma.size(), at < ma.size() ? (long)at : -1}, {}, true);
            break;
        }
        case Q_FIND: {
            size_t at = 0;
            Calls c;
            while (at < ma.size()) {
                c.push_back({ma[at]});
                if (keep(ma[at])) break;
                at++;
            }
            P1<E> f;
            judge([&](Model& got) {
                bool e = efp::find(f, a);
                NoSut ns_;
                got = {e};
            }, {at < ma.size()}, c, true);
            judge([&](Model& got) {
                Maybe<size_t> i = efp::find_index(f, a);
                NoSut ns_;
                got = {i.is_nothing() ? -1 : (long)i.value()};
            }, {at < ma.size() ? (long)at : -1}, c, true);
            break;
        }
        case Q_FINDIDX: {
            Model w;
            for (size_t i = 0; i < ma.size(); i++)
                if (keep(ma[i])) w.push_back((long)i);
            P1<E> f;
            judge(RESULT(size_t, efp::find_indices(f, a)), w, wrap(ma), true);
            break;
        }
        case Q_FOLDL:
        case Q_FOLDR: {
            long acc = 5;
            Calls c;
            if (fn == Q_FOLDL)
                for (size_t i = 0; i < ma.size(); i++) c.push_back({acc, ma[i]}), acc = r2(acc, ma[i]);
            else
                for (size_t i = ma.size(); i > 0; i--) c.push_back({ma[i - 1], acc}), acc = r2(ma[i - 1], acc);
            F2<E> f;
            Sut o2(false);
            const E init = Conv<E>::make(5);
            NoSut n2;
            if (fn == Q_FOLDL)
                judge([&](Model& got) {
                    const E r = efp::foldl(f, init, a);
                    NoSut ns_;
                    got = {Conv<E>::get(r)};
                }, {acc}, c, true);
            else
                judge([&](Model& got) {
                    const E r = efp::foldr(f, init, a);
                    NoSut ns_;
                    got = {Conv<E>::get(r)};
                }, {acc}, c, true);
            if (Conv<E>::get(init) != 5) sim::violation("arguments", "%s changed its initial value", g_what);
            break;
        }
        case Q_EACH: {
            Each1<E> f;
            judge([&](Model&) { efp::for_each(f, a); }, {}, wrap(ma), true);
            break;
        }
        case Q_EACHI: {
            Calls c;
            for (size_t i = 0; i < ma.size(); i++) c.push_back({(long)i, ma[i]});
            EachI<E> f;
            judge([&](Model&) { efp::for_each_with_index(f, a); }, {}, c, true);
            break;
        }
    }
    unchanged<E>(a, ma);
}
template<typename E, template<typename> class MA, template<typename> class MB>
static void binary(int fn, long seed, size_t la, size_t lb) {
    typedef typename MA<E>::C A;
    typedef typename MB<E>::C B;
    expect_rank(fn, (int)MA<E>::rank < (int)MB<E>::rank ? (int)MA<E>::rank : (int)MB<E>::rank);
    Model ma = values(seed, MA<E>::len(la), seed % 2 == 0), mb = values(seed + 1, MB<E>::len(lb), seed % 4 == 0);
    Sut outer(false);
    const A a = MA<E>::make(ma);
    const B b = MB<E>::make(mb);
    NoSut ns;
    size_t n = std::min(ma.size(), mb.size());
    Model w;
    Calls c;
    switch (fn) {
        case Q_MAP2: {
            for (size_t i = 0; i < n; i++) w.push_back(r2(ma[i], mb[i])), c.push_back({ma[i], mb[i]});
            F2<E> f;
            judge(RESULT(E, efp::map(f, a, b)), w, c, true);
            break;
        }
        case Q_MAPI2: {
            for (size_t i = 0; i < n; i++) w.push_back(r3((long)i, ma[i], mb[i])), c.push_back({(long)i, ma[i], mb[i]});
            I2<E> f;
            judge(RESULT(E, efp::map_with_index(f, a, b)), w, c, true);
            break;
        }
        case Q_CART2: {
            for (long x : ma)
                for (long y : mb) w.push_back(r2(x, y)), c.push_back({x, y});
            F2<E> f;
            judge(RESULT(E, efp::cartesian_map(f, a, b)), w, c, true);
            break;
        }
        case Q_CART3: {
            if (ma.size() > 6 || mb.size() > 6) break;
            for (long x : ma)
                for (long y : mb)
                    for (long z : ma) w.push_back(r3(x, y, z)), c.push_back({x, y, z});
            F3<E> f;
            judge(RESULT(E, efp::cartesian_map(f, a, b, a)), w, c, true);
            break;
        }
        case Q_APPEND2:
            w = ma;
            w.insert(w.end(), mb.begin(), mb.end());
            judge(RESULT(E, efp::append(a, b)), w, {}, true);
            break;
        case Q_APPEND3:
            w = ma;
            w.insert(w.end(), mb.begin(), mb.end());
            w.insert(w.end(), ma.begin(), ma.end());
            judge(RESULT(E, efp::append(a, b, a)), w, {}, true);
            break;
        case Q_MAP3: {
            for (size_t i = 0; i < n; i++) w.push_back(r3(ma[i], mb[i], ma[i])), c.push_back({ma[i], mb[i], ma[i]});
            F3<E> f;
            judge(RESULT(E, efp::map(f, a, b, a)), w, c, true);
            break;
        }
        case Q_EACH2: {
            for (size_t i = 0; i < n; i++) c.push_back({ma[i], mb[i]});
            Each2<E> f;
            judge([&](Model&) { efp::for_each(f, a, b); }, {}, c, true);
            break;
        }
        case Q_CEACH: {
            for (long x : ma)
                for (long y : mb) c.push_back({x, y});
            Each2<E> f;
            judge([&](Model&) { efp::cartesian_for_each(f, a, b); }, {}, c, true);
            break;
        }
    }
    unchanged<E>(a, ma);
    unchanged<E>(b, mb);
}
// functions that change their argument: up to the failing call, and no further
template<typename E, template<typename> class MA>
static void mutating(int fn, long seed, size_t la, size_t lb) {
    typedef typename MA<E>::C A;
    expect_rank(fn, MA<E>::rank);  // what they call never allocates
    Model ma = values(seed, MA<E>::len(la), seed % 2 == 0), mb = values(seed + 1, lb, false);
    Calls c;
    std::vector<Model> after(1, ma);  // what a holds after so many calls
    size_t o0, o1;
    {
        Sut outer(false);
        A a = MA<E>::make(ma);
        Vector<E> b = MakeV<E>::make(mb);
        NoSut ns;
        auto step = [&](size_t i, std::vector<long> args, long v) {
            c.push_back(args);
            if (after.size() < 400) after.push_back(after.back());
            after.back()[i] = v;
        };
        Model now = ma;
        Outcome r = OK;
        if (fn == Q_EACHMUT) {
            for (size_t i = 0; i < std::min(ma.size(), mb.size()); i++) step(i, {now[i], mb[i]}, r2(now[i], mb[i])), now[i] = r2(now[i], mb[i]);
            Mut2<E> f;
            r = judge([&](Model&) { efp::for_each_mut(f, a, b); }, {}, c, true);
        } else {
            for (size_t i = 0; i < ma.size(); i++) step(i, {(long)i, now[i]}, r2((long)i, now[i])), now[i] = r2((long)i, now[i]);
            MutI<E> f;
            r = judge([&](Model&) { efp::for_each_with_index_mut(f, a); }, {}, c, true);
        }
        o0 = g_seen;
        o1 = r == OK ? o0 : o0 ? o0 - 1 : 0;
        if (after.size() == c.size() + 1) {
            Model is = rd<E>(a);
            if (is != after[o1] && (r == OK || o0 >= after.size() || is != after[o0]))
                sim::violation("arguments", "after %zu calls%s %s has left %s, expected %s", o0, r == OK ? "" : ", the last of which failed,", g_what, show(is).c_str(),
                               show(after[o1]).c_str());
        }
        unchanged<E>(b, mb);
    }
}
// sequences of sequences: MO<E> is the outer kind, MI the inner kind
template<typename Outer, typename E, template<typename> class MI>
static void nested(int fn, long seed, const std::vector<size_t>& lens, Outer& ass, const std::vector<Model>& ms) {
    (void)lens;
    Model w, md;
    if (fn == Q_CONCAT) {
        for (const Model& m : ms) w.insert(w.end(), m.begin(), m.end());
        judge(RESULT(E, efp::concat((const Outer&)ass)), w, {}, true);
    } else {
        md = values(seed + 77, MI<E>::len((size_t)seed % 4), false);
        Sut o2(false);
        const typename MI<E>::C d = MI<E>::make(md);
        NoSut n2;
        for (size_t i = 0; i < ms.size(); i++) {
            if (i) w.insert(w.end(), md.begin(), md.end());
            w.insert(w.end(), ms[i].begin(), ms[i].end());
        }
        judge(RESULT(E, efp::intercalate(d, (const Outer&)ass)), w, {}, true);
        unchanged<E>(d, md);
    }
    for (size_t i = 0; i < ms.size(); i++) unchanged<E>(efp::nth(i, (const Outer&)ass), ms[i]);
}
template<typename E, template<typename> class MI>
static void nest(int fn, int outer, long seed, size_t n) {
    typedef typename MI<E>::C I;
    int ro = outer == 0 ? 0 : outer == 1 ? 2 : 1;
    expect_rank(fn, ro < (int)MI<E>::rank ? ro : (int)MI<E>::rank);
    std::vector<Model> ms;
    size_t cnt = outer == 1 ? 2 : outer == 2 ? n % 4 : n % 5;
    for (size_t i = 0; i < cnt; i++) ms.push_back(values(seed + (long)i * 5, MI<E>::len((size_t)(seed + (long)i * 7) % 5), false));
    Sut o1(false);
    if (outer == 0) {
        Vector<I> v;
        for (auto& m : ms) v.push_back(MI<E>::make(m));
        NoSut ns;
        nested<Vector<I>, E, MI>(fn, seed, {}, v, ms);
    } else if (outer == 1) {
        Array<I, 2> v {MI<E>::make(ms[0]), MI<E>::make(ms[1])};
        NoSut ns;
        nested<Array<I, 2>, E, MI>(fn, seed, {}, v, ms);
    } else {
        ArrVec<I, 3> v;
        for (auto& m : ms) v.push_back(MI<E>::make(m));
        NoSut ns;
        nested<ArrVec<I, 3>, E, MI>(fn, seed, {}, v, ms);
    }
}
template<typename E>
static void from(int fn, size_t n) {
    Model w;
    Calls c;
    if (fn == Q_FROMST) n = 4;
    expect_rank(fn, fn == Q_FROMST ? 2 : 0);
    for (size_t i = 0; i < n; i++) w.push_back(r1((long)i)), c.push_back({(long)i});
    G0<E> f;
    if (fn == Q_FROM) judge(RESULT(E, efp::from_function(n, f)), w, c, true);
    else judge(RESULT(E, efp::from_function(efp::Size<4>(), f)), w, c, true);
}
template<typename E>
static void seq_op(const std::vector<long>& op) {
    int fn = (int)op[0], ka = (int)(op[1] % 4), kb = (int)(op[2] % 4);
    size_t la = (size_t)op[3], lb = (size_t)op[4];
    long seed = op[5];
    if (fn < 0 || fn >= NQ) return;
    g_what = qname[fn];
    sim::op_tag(fn + 1);
    if (fn == Q_FROM || fn == Q_FROMST) return from<E>(fn, la);
    if (fn == Q_CONCAT || fn == Q_INTERC) {
        if (ka == 0) nest<E, MakeV>(fn, kb % 3, seed, la);
        else if (ka == 1) nest<E, MakeA>(fn, kb % 3, seed, la);
        else nest<E, MakeAV>(fn, kb % 3, seed, la);
        return;
    }
    expect_rank(fn, 2);
    if (fn == Q_INDEX) {
        Calls c;
        for (size_t i = 0; i < la; i++) c.push_back({(long)i});
        Idx f;
        judge([&](Model&) { efp::for_index(f, la); }, {}, c, true);
        return;
    }
    if (fn == Q_CINDEX) {
        Calls c;
        size_t n = la % 12, m = lb % 9, k = (size_t)seed % 4;
        Idx f;
        if (ka % 2) {
            for (size_t i = 0; i < n; i++)
                for (size_t j = 0; j < m; j++) c.push_back({(long)i, (long)j});
            judge([&](Model&) { efp::cartesian_for_index(f, n, m); }, {}, c, true);
        } else {
            for (size_t i = 0; i < n; i++)
                for (size_t j = 0; j < m; j++)
                    for (size_t l = 0; l < k; l++) c.push_back({(long)i, (long)j, (long)l});
            judge([&](Model&) { efp::cartesian_for_index(f, n, m, k); }, {}, c, true);
        }
        return;
    }
    if (fn == Q_EACHMUT || fn == Q_EACHIMUT) {
        switch (ka) {
            case 0: case 3: return mutating<E, MakeV>(fn, seed, la, lb);
            case 1: return mutating<E, MakeA>(fn, seed, la, lb);
            default: return mutating<E, MakeAV>(fn, seed, la, lb);
        }
    }
    bool bin = fn == Q_MAP3 || fn == Q_MAP2 || fn == Q_MAPI2 || fn == Q_CART2 || fn == Q_CART3 || fn == Q_APPEND2 || fn == Q_APPEND3 || fn == Q_EACH2 || fn == Q_CEACH;
    if (!bin) {
        switch (ka) {
            case 0: return unary<E, MakeV>(fn, seed, la);
            case 1: return unary<E, MakeA>(fn, seed, la);
            case 2: return unary<E, MakeAV>(fn, seed, la);
            default: return unary<E, MakeQ>(fn, seed, la);
        }
    }
    switch (ka * 4 + kb) {
        case 0: case 3: return binary<E, MakeV, MakeV>(fn, seed, la, lb);
        case 1: case 2: return binary<E, MakeV, MakeA>(fn, seed, la, lb);
        case 4: case 7: return binary<E, MakeA, MakeV>(fn, seed, la, lb);
        case 5: return binary<E, MakeA, MakeA>(fn, seed, la, lb);
        case 6: return binary<E, MakeA, MakeAV>(fn, seed, la, lb);
        case 9: return binary<E, MakeAV, MakeA>(fn, seed, la, lb);
        case 8: case 11: return binary<E, MakeAV, MakeV>(fn, seed, la, lb);
        case 10: return binary<E, MakeAV, MakeAV>(fn, seed, la, lb);
        case 12: return binary<E, MakeQ, MakeV>(fn, seed, la, lb);
        default: return binary<E, MakeQ, MakeAV>(fn, seed, la, lb);
    }
}

// ------------------------------------------------------------- sorting
// an element is key * KS + position; the comparator looks at the key
static const long KS = 10000;
template<typename E>
struct Key {
    E e;
    Key() : e(Conv<E>::make(0)) {}
    explicit Key(long v) : e(Conv<E>::make(v)) {}
    long get() const { return Conv<E>::get(e); }
};
static unsigned g_cmp, g_cmp_limit;
static bool less(long x, long y) {
    if (x == MOVED || y == MOVED) sim::violation("moved-from", "%s compares an element it has moved from", g_what);
    if (g_cb_failed) sim::violation("called-again", "the comparator is called again after it failed, in %s", g_what);
    if (++g_cmp > g_cmp_limit) sim::violation("endless", "%s has compared %u times", g_what, g_cmp);
    if (sim::fault_here(sim::CB, sim::F_CB)) {
        g_cb_failed = true;
        throw CallFail();
    }
    return x / KS < y / KS;
}
template<typename E>
static bool operator<(const Key<E>& a, const Key<E>& b) { return less(a.get(), b.get()); }
template<typename E>
struct Less {
    bool operator()(const Key<E>& a, const Key<E>& b) const { return less(a.get(), b.get()); }
};
enum SFn { T_QUICK, T_HEAP, T_INS, T_INTRO, T_TIM, T_SORT, T_UNST, T_QUICKBY, T_HEAPBY, T_INSBY, T_INTROBY, T_TIMBY, T_SORTBY, T_UNSTBY, T_MERGEBY, NT };
static const char* const tname[NT] = {"quicksort", "heapsort", "insertion_sort", "size_trosort", "timsort", "sort", "sort_unstable", "quicksort_by", "heapsort_by",
                                      "insertion_sort_by", "size_trosort_by", "timsort_by", "sort_by", "sort_unstable_by", "merge_sort_by"};
static bool stable_fn(int t) { return t == T_INS || t == T_TIM || t == T_SORT || t == T_INSBY || t == T_TIMBY || t == T_SORTBY; }
static Model keys(long pattern, size_t n, long seed) {
    Model m = values(seed, n, false);
    for (size_t i = 0; i < n; i++) {
        long k;
        switch (pattern % 8) {
            case 0: k = m[i] % 4; break;                                          // few keys
            case 1: k = (long)i; break;                                           // sorted
            case 2: k = (long)(n - i); break;                                     // reversed
            case 3: k = 7; break;                                                 // all equal
            case 4: k = (long)(i % 32) * 10 + m[i] % 3; break;                    // sorted runs
            case 5: k = (long)i + (m[i] % 16 == 0 ? -(long)(m[i] % 50) + 50 : 0); break;  // nearly sorted
            case 6: k = i < n / 2 ? (long)(n + i) : (long)i; break;               // two runs
            default: k = m[i] % 2000;
        }
        m[i] = k * KS + (long)i;
    }
    return m;
}
template<typename E>
static void sort_op(const std::vector<long>& op) {
    typedef Key<E> K;
    int fn = (int)op[0];
    size_t n = (size_t)op[1], lo = 0, hi = n ? n - 1 : 0;
    if (fn < 0 || fn >= NT || n > MAXN) return;
    g_what = tname[fn];
    sim::op_tag(100 + fn);
    Model m = keys(op[2], n, op[3]);
    if (fn == T_QUICKBY || fn == T_MERGEBY) {  // they take the first and the last index
        if (n == 0) return;
        if (op.size() > 4 && op[4]) {
            lo = (size_t)op[4] % n;
            hi = lo + (size_t)(op[4] / 7) % (n - lo);
        }
    }
    Less<E> lt;
    size_t got_n;
    Outcome r;
    size_t o0 = sim::live_objs(), b0 = sim::live_blocks(), extra = 0;
    {
        Sut outer(false);
        Vector<K> v;
        for (size_t i = 0; i < n; i++) v.push_back(K(m[i]));
        {
            NoSut ns;
            g_cmp = 0;
            g_cmp_limit = (unsigned)(n * n * 4 + 200);
            g_cb_failed = false;
            r = attempt([&] {
                switch (fn) {
                    case T_QUICK: efp::quicksort(v); break;
                    case T_HEAP: efp::heapsort(v); break;
                    case T_INS: efp::insertion_sort(v); break;
                    case T_INTRO: efp::size_trosort(v); break;
                    case T_TIM: efp::timsort(v); break;
                    case T_SORT: efp::sort(v); break;
                    case T_UNST: efp::sort_unstable(v); break;
                    case T_QUICKBY: efp::quicksort_by(v, lo, hi, lt); break;
                    case T_HEAPBY: efp::heapsort_by(v, lt); break;
                    case T_INSBY: efp::insertion_sort_by(v, lt); break;
                    case T_INTROBY: efp::size_trosort_by(v, lt); break;
                    case T_TIMBY: efp::timsort_by(v, lt); break;
                    case T_SORTBY: efp::sort_by(v, lt); break;
                    case T_UNSTBY: efp::sort_unstable_by(v, lt); break;
                    default: efp::merge_sort_by(v, lo, hi, lt);
                }
            }, g_faults);
        }
        got_n = v.size();
        if (got_n != n) sim::violation("length", "a vector of %zu elements has %zu after %s", n, got_n, g_what);
        for (size_t i = 0; i < n; i++) outl[i] = v[i].get();
        extra = sim::live_objs() - o0;
        NoSut ns;
        settle(r, false);
        drv::stats().checks++;
        if (std::is_same<E, TElem>::value && extra != n)
            sim::violation("lifetime", "%zu element objects are alive after %s of %zu elements", extra, g_what, n);
        if (g_cb_failed && r == OK) sim::violation("swallowed", "%s returns although the comparator threw", g_what);
        Model got(outl, outl + n);
        Model want = m, ms = m;
        if (n) std::stable_sort(want.begin() + (long)lo, want.begin() + (long)hi + 1, [](long a, long b) { return a / KS < b / KS; });
        if (r == OK) {
            if (stable_fn(fn)) {
                for (size_t i = 0; i < n; i++)
                    if (got[i] != want[i])
                        sim::violation(got[i] / KS != want[i] / KS ? "order" : "stability", "after %s of %zu elements, position %zu holds element %ld with key %ld, expected element %ld with key %ld",
                                       g_what, n, i, got[i] % KS, got[i] / KS, want[i] % KS, want[i] / KS);
            } else {
                for (size_t i = 0; i < n; i++)
                    if (got[i] / KS != want[i] / KS)
                        sim::violation("order", "after %s of %zu elements, position %zu holds key %ld, expected %ld", g_what, n, i, got[i] / KS, want[i] / KS);
                for (size_t i = 0; i < n; i++)
                    if ((i < lo || i > hi) && got[i] != want[i]) sim::violation("range", "%s of positions %zu to %zu changes position %zu", g_what, lo, hi, i);
                std::sort(got.begin(), got.end());
                std::sort(ms.begin(), ms.end());
                if (got != ms) sim::violation("permutation", "%s of %zu elements lost or repeated an element", g_what, n);
            }
        } else {
            std::sort(ms.begin(), ms.end());
            for (size_t i = 0; i < n; i++)
                if ((i < lo || i > hi) && got[i] != m[i]) sim::violation("range", "a failed %s of positions %zu to %zu changes position %zu", g_what, lo, hi, i);
                else if (got[i] != MOVED && !(got[i] == 0 && std::is_same<E, String>::value) && !std::binary_search(ms.begin(), ms.end(), got[i]))
                    sim::violation("invented", "after a failed %s position %zu holds %ld, which was not there before", g_what, i, got[i]);
        }
    }
    if (sim::live_objs() != o0) sim::violation("leak", "%zu element objects are left over after %s", sim::live_objs() - o0, g_what);
    if (sim::live_blocks() != b0) {
        char d[300];
        sim::describe_live(d, sizeof d);
        sim::violation("leak", "%s%s leaks memory: %s", r == OK ? "" : "a failed ", g_what, d);
    }
}

namespace drv {
// cfg: element faults
void gen(const std::string& prop, uint64_t seed, bool thorough, Rec& r, sim::Policy& p) {
    Rng g(seed);
    bool sorting = prop == "C18", kinds = prop == "C24", faults = kinds ? g.below(10) != 0 : g.below(4) != 0;
    r.scen = sorting ? "sort" : "seq";
    r.cfg = {kinds ? 0 : (long)g.below(4), faults};
    if (kinds) r.cfg.push_back(1);
    uint32_t span;
    if (sorting) {
        int n = 1 + (int)g.below(2);
        for (int i = 0; i < n; i++) {
            static const long special[] = {0, 1, 2, 3, 31, 32, 33, 34, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 130};
            long len;
            switch (g.below(4)) {
                case 0: len = special[g.below(19)]; break;
                case 1: len = (long)g.below(12); break;
                case 2: len = (long)g.below(70); break;
                default: len = (long)g.below(thorough ? 400 : 140);
            }
            if (g.below(150) == 0) len = r.cfg[0] == 2 ? 100 + (long)g.below(200) : 200 + (long)g.below(1100);  // strings allocate on every move
            long fn = (long)g.below(NT);
            if (g.below(1000) == 0 && r.cfg[0] == 0 && fn != T_INS && fn != T_INSBY) len = 1300 + (long)g.below(1700);
            bool quadratic = fn == T_QUICK || fn == T_QUICKBY || fn == T_UNST || fn == T_UNSTBY || fn == T_INTRO || fn == T_INTROBY;
            long pattern = (long)g.below(8);
            if (len > 1300 && quadratic) pattern = 7;  // its worst case is allowed to be slow
            r.ops.push_back({fn, len, pattern, (long)g.below(100000), g.below(2) ? 0 : (long)g.below(100000)});
        }
        span = g.below(2) ? 40 : 600;
    } else {
        int n = 1 + (int)g.below(thorough ? 12 : 5);
        for (int i = 0; i < n; i++) {
            long la = (long)g.below(g.below(4) == 0 ? (thorough ? 120 : 40) : 7), lb = (long)g.below(g.below(4) == 0 ? 20 : 6);
            if (g.below(100) == 0) la = (long)g.below(700), lb = (long)g.below(60);
            long ka = (long)g.below(4), kb = (long)g.below(4);
            if (kinds && g.below(6)) ka = 1 + (long)g.below(3), kb = 1 + (long)g.below(2);
            r.ops.push_back({(long)g.below(NQ), ka, kb, la, lb, (long)g.below(100000)});
        }
        span = g.below(2) ? 20 : 120;
    }
    p.mode = 2;
    if (faults && kinds && g.below(4)) p.p_alloc = 0xffffffffu;  // no memory at all
    else if (faults) fault_policy(g, p, span, true);
}
const char* op_name(const Rec& r, const std::vector<long>& op, char* buf, size_t n) {
    if (r.scen == "sort")
        snprintf(buf, n, "%s of %ld elements, pattern %ld", op[0] >= 0 && op[0] < NT ? tname[op[0]] : "?", op.size() > 1 ? op[1] : -1, op.size() > 2 ? op[2] : -1);
    else
        snprintf(buf, n, "%s", op[0] >= 0 && op[0] < NQ ? qname[op[0]] : "?");
    return buf;
}
template<typename E>
static void all(const Rec& r) {
    for (const auto& op : r.ops) {
        if (r.scen == "sort") {
            if (op.size() >= 4) sort_op<E>(op);
        } else if (op.size() >= 6) seq_op<E>(op);
    }
}
void exec(const Rec& r) {
    sim::set_step_limit(200000000);
    g_faults = r.cfg[1] != 0;
    g_kinds = r.cfg.size() > 2 && r.cfg[2] != 0;
    switch (r.cfg[0]) {
        case 0: all<int>(r); break;
        case 1: all<TElem>(r); break;
        case 2: all<String>(r); break;
        default: all<TElem>(r);
    }
    no_leaks();
    drv::nontrivial_flag() = true;
}
}  // namespace drv
