// Shared by the container harnesses: conversions between elements and numbers,
// calls that may fail, objects placed in simulated memory.
#pragma once
#include "efp.hpp"
#include "../sim/driver.h"
#include "elem.h"

using drv::Rec;
using efp::Array;
using efp::ArrVec;
using efp::Enum;
using efp::Maybe;
using efp::String;
using efp::Vcb;
using efp::Vcq;
using efp::Vector;
using sim::NoSut;
using sim::Rng;
using sim::Sut;
typedef std::vector<long> Model;
static const double M32 = 4294967295.0;

// ------------------------------------------------------------- elements
template<typename E>
struct Conv;
template<>
struct Conv<int> {
    static int make(long v) { return (int)v; }
    static long get(const int& e) { return e; }
    static const char* name() { return "int"; }
};
template<>
struct Conv<Pod> {
    static Pod make(long v) { return Pod(v); }
    static long get(const Pod& e) { return e.get(); }
    static const char* name() { return "struct"; }
};
template<>
struct Conv<TElem> {
    static TElem make(long v) { return TElem(v); }
    static long get(const TElem& e) { return e.get(); }
    static const char* name() { return "owner"; }
};
template<>
struct Conv<String> {
    static String make(long v) {
        char b[32];
        int n = 0;
        bool neg = v < 0;
        if (neg) v = -v;
        do b[n++] = (char)('0' + v % 10);
        while (v /= 10);
        if (neg) b[n++] = '-';
        String s;
        s.push_back('s');
        while (n) s.push_back(b[--n]);
        return s;
    }
    static long get(const String& s) {
        size_t n = s.size();
        if (n == 0) return 0;
        const char* d = s.data();
        if (d[0] != 's' || n < 2) sim::violation("torn", "an element String holds foreign text");
        size_t i = 1;
        bool neg = d[i] == '-';
        if (neg) i++;
        long v = 0;
        for (; i < n; i++) {
            if (d[i] < '0' || d[i] > '9') sim::violation("torn", "an element String holds foreign text");
            v = v * 10 + (d[i] - '0');
        }
        return neg ? -v : v;
    }
    static const char* name() { return "String"; }
};

// Strings have no !=, so containers of Strings have no ==
template<typename E>
struct CanEq { enum { value = 1 }; };
template<>
struct CanEq<String> { enum { value = 0 }; };
template<typename E, typename C, bool = CanEq<E>::value>
struct Eq {
    static bool eq(const C& a, const C& b) { return a == b; }
};
template<typename E, typename C>
struct Eq<E, C, false> {
    static bool eq(const C&, const C&) { return false; }
};

// ------------------------------------------------------------- calls that may fail
enum Outcome { OK = 0, FAILED = 1, REFUSED = 2 };
static const char* g_what = "";
// runs a call; its own temporaries are the callee's business
template<typename F>
static Outcome attempt(const F& f, bool faults) {
    uint64_t f0 = sim::run_faults();
    Outcome o = OK;
    {
        Sut s(faults);
        try {
            f();
        } catch (const CopyFail&) {
            o = FAILED;
        } catch (const CallFail&) {
            o = FAILED;
        } catch (const std::bad_alloc&) {
            o = FAILED;
        } catch (const std::length_error&) {
            o = REFUSED;
        } catch (const efp::RuntimeError&) {
            o = REFUSED;
        }
    }
    if (o == FAILED && sim::run_faults() == f0) sim::violation("false-failure", "%s throws although nothing failed", g_what);
    sim::note((uint64_t)o + 1);
    return o;
}
// refused: what the call must be, given its arguments
static bool settle(Outcome o, bool must_refuse) {
    if (o == OK && must_refuse) sim::violation("no-error", "%s accepts what it must refuse", g_what);
    if (o == REFUSED && !must_refuse) sim::violation("false-failure", "%s refuses a valid call", g_what);
    return o == OK;
}

static std::string show(const Model& m) {
    std::string s = "[";
    for (size_t i = 0; i < m.size() && i < 12; i++) s += (i ? " " : "") + (m[i] == MOVED ? std::string("moved") : std::to_string(m[i]));
    if (m.size() > 12) s += " ...";
    return s + "](" + std::to_string(m.size()) + ")";
}

// ------------------------------------------------------------- objects under test
template<typename C>
struct Obj {
    C* c = nullptr;
    void* mem = nullptr;
    Model m;
};
// builds a new object with f and, if that succeeds, puts it in place of the old one
template<typename C, typename F>
static Outcome construct(Obj<C>& o, const F& f, bool faults) {
    void* mem = sim::arena_place(sizeof(C), alignof(C));
    Outcome r = attempt([&] { f(mem); }, faults);
    if (r != OK) {
        sim::arena_free(mem);
        return r;
    }
    if (o.c) {
        Sut s(false);
        o.c->~C();
    }
    if (o.mem) sim::arena_free(o.mem);
    o.c = (C*)mem;
    o.mem = mem;
    return OK;
}
template<typename C>
static void destroy(Obj<C>& o) {
    if (o.c) {
        Sut s(false);
        o.c->~C();
    }
    if (o.mem) sim::arena_free(o.mem);
    o = Obj<C>();
}
static void no_leaks() {
    if (sim::live_objs()) sim::violation("leak", "%zu element objects were never destroyed", sim::live_objs());
    if (sim::live_blocks()) {
        char d[300];
        sim::describe_live(d, sizeof d);
        sim::violation("leak", "memory leaked: %s", d);
    }
}
static const size_t MAXN = 3000;
// contents, read the way a user reads them
template<typename E, typename C>
static Model contents(const C& c, const char* what) {
    static long a[MAXN], b[MAXN];
    size_t n, k = 0;
    {
        Sut s(false);
        n = c.size();
        if (n > MAXN) sim::violation("contents", "%s: size() is %zu after %s", what, n, g_what);
        for (size_t i = 0; i < n; i++) a[i] = Conv<E>::get(c[i]);
        for (const E* p = c.begin(); p != c.end(); ++p) {
            if (k == MAXN) sim::violation("contents", "%s: iteration does not end after %s", what, g_what);
            b[k++] = Conv<E>::get(*p);
        }
        if (n && c.data() != c.begin()) sim::violation("contents", "%s: data() and begin() differ after %s", what, g_what);
        if (c.empty() != (n == 0)) sim::violation("contents", "%s: empty() is wrong for size %zu after %s", what, n, g_what);
        // the same through a non-const object, and through the free functions
        C& m = const_cast<C&>(c);
        bool same = m.begin() == c.begin() && m.end() == c.end() && m.data() == c.data() && efp::data(m) == c.data() && efp::data(c) == c.data() && (size_t)efp::length(c) == n;
        for (size_t i = 0; i < n; i += 1 + n / 4)
            if (&m[i] != &c[i] || &efp::nth(i, m) != &c[i] || &efp::nth(i, c) != &c[i]) same = false;
        if (!same) sim::violation("contents", "%s: const and non-const access or the free functions differ after %s", what, g_what);
    }
    if (k != n) sim::violation("contents", "%s: iteration gives %zu elements, size() is %zu after %s", what, k, n, g_what);
    for (size_t i = 0; i < n; i++)
        if (a[i] != b[i]) sim::violation("contents", "%s: indexing and iteration differ at %zu after %s", what, i, g_what);
    return Model(a, a + n);
}
template<typename E, typename C>
static void compare(const Obj<C>& o, const char* what, Outcome r) {
    if (!o.c) return;
    drv::stats().checks++;
    Model got = contents<E>(*o.c, what);
    if (got != o.m)
        sim::violation(r == OK ? "contents" : "not-unchanged", "%s holds %s after %s%s, expected %s", what, show(got).c_str(), r == OK ? "" : "a failed ", g_what,
                       show(o.m).c_str());
}
static void fault_policy(Rng& g, sim::Policy& p, uint32_t span, bool cb = false) {
    switch (g.below(4)) {
        case 0: p.one_alloc = (long)g.below(span); break;
        case 1: p.one_copy = (long)g.below(span); break;
        case 2:
            p.p_alloc = (uint32_t)((g.below(2) ? 0.05 : 0.25) * M32);
            p.p_copy = (uint32_t)((g.below(2) ? 0.05 : 0.25) * M32);
            break;
        default:
            p.one_alloc = (long)g.below(span);
            p.one_copy = (long)g.below(span);
    }
    if (cb) {
        if (g.below(2)) p.one_cb = (long)g.below(span);
        else p.p_cb = (uint32_t)(0.1 * M32);
    }
}
