// Concurrent read-only use of shared containers (C20): the const operations of one
// object are called from several simulated threads at once.
#include "cont.h"
#include "efp/format.hpp"
#include "efp/sort.hpp"
#include <stdlib.h>
#include <string.h>

// what a read gave, folded into one number (no addresses)
struct Acc {
    uint64_t h = 1469598103934665603ull;
    void add(long x) {
        h ^= (uint64_t)x + 0x9E37;
        h *= 1099511628211ull;
        h ^= h >> 29;
    }
};
static const char* const g_texts[4] = {"s42", "s7", "", "something else entirely"};

enum Op {
    R_SIZE, R_INDEX, R_ITER, R_DATA, R_COPY, R_EQ, R_MAP, R_FILTER, R_FOLD, R_APPEND, R_ELEM, R_TAKE, R_HEAD, R_INDICES, R_EACH, R_FORMAT, R_SORTCOPY, R_CART, R_ASSIGN,
    R_SUBSTR, R_COMPARE, R_COPYOUT, R_AT, R_CSTR, R_EQTEXT, R_VIEW, R_STD, R_FRONT, R_GET, R_MATCH, R_WILD, R_VALUE, R_FMAP, R_INDEXOF, R_CONVERT, R_IDX2, R_FIND, R_WITHIDX, R_SLICE, R_NEST, R_FROM, R_STATS, R_REGRESS, R_TREND, R_CALL, NR
};
static const char* const rname[NR] = {"size", "indexing", "iteration", "data", "copying", "==", "map", "filter", "folds", "append", "elem", "take and drop", "head, last, tail, init",
                                      "find_indices", "for_each", "format", "sorting a copy", "cartesian_map", "assignment to another object", "substr", "compare", "copy", "at", "c_str", "== with text",
                                      "conversion to a view", "conversion to std::string", "front and back", "get", "match", "match with a wildcard", "value", "fmap and bind",
                                      "index", "conversion to another container", "elem_indices", "find and find_index", "map_with_index", "slice",
                                      "concat and intercalate", "from_function", "sums, means and deviations", "regression and covariance", "remove_dc and detrend", "calling a composition"};

template<>
struct Conv<char> {
    static char make(long v) { return (char)v; }
    static long get(const char& x) { return x; }
};
template<>
struct Conv<size_t> {
    static long get(const size_t& x) { return (long)x; }
};
template<typename E, typename C>
static void seq_acc(Acc& a, const C& c) {
    size_t n = efp::length(c);
    a.add((long)n);
    for (size_t i = 0; i < n; i++) a.add(Conv<E>::get(efp::nth(i, c)));
}
template<typename E>
struct Fm {
    static void f(Acc&, const void*) {}
    template<typename C>
    static void go(Acc&, const C&) {}
};
template<>
struct Fm<int> {
    template<typename C>
    static void go(Acc& a, const C& c) {
        String s = efp::format("{} and {:>4}", c, 17);
        a.add((long)s.size());
        for (size_t i = 0; i < s.size(); i++) a.add(s[i]);
    }
};
// copying to a Vector, where the library converts
template<typename E>
static void conv(Acc& a, const Array<E, 3>& c) { seq_acc<E>(a, Vector<E>(c)); }
template<typename E>
static void conv(Acc& a, const ArrVec<E, 5>& c) { seq_acc<E>(a, Vector<E>(c)); }
template<typename E, typename C>
static void conv(Acc&, const C&) {}

template<typename E>
struct Lt {
    bool operator()(const E& x, const E& y) const { return Conv<E>::get(x) < Conv<E>::get(y); }
};
template<typename E>
static bool odd(const E& x) { return Conv<E>::get(x) % 2 != 0; }
template<typename E>
static E nxt(const E& x) { return Conv<E>::make(Conv<E>::get(x) + 1); }
template<typename E>
static E mix(const E& x, const E& y) { return Conv<E>::make((Conv<E>::get(x) * 7 + Conv<E>::get(y)) % 10007); }

template<typename E, typename C, bool view>
struct CopyOps {
    static void copy(Acc& a, const C& c) {
        C d(c);
        seq_acc<E>(a, d);
    }
    static void assign(Acc& a, const C& c) {
        C d;
        d = c;
        seq_acc<E>(a, d);
    }
};
// the rest of the sequence functions
template<typename E, typename C>
static void read_more(int k, const C& c, long p, Acc& a) {
    switch (k) {
        case R_IDX2: {
            E z = efp::length(c) && p % 2 ? efp::nth((size_t)p % efp::length(c), c) : Conv<E>::make(p);
            seq_acc<size_t>(a, efp::elem_indices(z, c));
            break;
        }
        case R_FIND: {
            a.add(efp::find([&](const E& x) { return Conv<E>::get(x) == p; }, c));
            Maybe<size_t> m = efp::find_index([&](const E& x) { return Conv<E>::get(x) > p; }, c);
            a.add(m.is_nothing() ? -1 : (long)m.value());
            break;
        }
        case R_WITHIDX:
            seq_acc<E>(a, efp::map_with_index([](size_t i, const E& x) { return Conv<E>::make(Conv<E>::get(x) + (long)i); }, c));
            break;
        case R_FROM: seq_acc<E>(a, efp::from_function((size_t)p % 6, [&](size_t i) { return Conv<E>::make((long)i + p); })); break;
    }
}
template<typename E, typename C>
static void read_nest(int k, const C& c, long p, Acc& a) {
    if (k == R_SLICE) {
        size_t n = efp::length(c), lo = std::min((size_t)p % 3, n), hi = std::min(lo + (size_t)p % 4, n);
        auto t = efp::slice(lo, hi, c);
        for (size_t i = 0; i < t.size(); i++) a.add(Conv<E>::get(t[i]));
    } else if (k == R_NEST) {
        Vector<C> v;
        v.push_back(c);
        v.push_back(c);
        seq_acc<E>(a, efp::concat(v));
        seq_acc<E>(a, efp::intercalate(c, v));
    } else
        read_more<E>(k, c, p, a);
}
template<typename E, typename C>
static void read_seq(int k, const C& c, long p, Acc& a) {
    size_t n = efp::length(c);
    switch (k) {
        case R_SIZE:
            a.add((long)c.size());
            a.add(c.empty());
            a.add((long)efp::length(c));
            a.add(efp::is_null(c));
            a.add(c.capacity() >= c.size());
            break;
        case R_INDEX:
            for (size_t i = 0; i < n; i++) a.add(Conv<E>::get(c[i]));
            break;
        case R_ITER:
            for (auto it = c.begin(); it != c.end(); ++it) a.add(Conv<E>::get(*it));
            break;
        case R_DATA:
            for (size_t i = 0; i < n; i++) a.add(Conv<E>::get(efp::data(c)[i]));
            break;
        case R_COPY: CopyOps<E, C, false>::copy(a, c); break;
        case R_ASSIGN: CopyOps<E, C, false>::assign(a, c); break;
        case R_EQ: a.add(CanEq<E>::value ? Eq<E, C>::eq(c, c) : 0); break;
        case R_MAP: seq_acc<E>(a, efp::map(nxt<E>, c)); seq_acc<E>(a, efp::map(mix<E>, c, c)); break;
        case R_FILTER: seq_acc<E>(a, efp::filter(odd<E>, c)); break;
        case R_FOLD: {
            E z = Conv<E>::make(3);
            a.add(Conv<E>::get(efp::foldl(mix<E>, z, c)));
            a.add(Conv<E>::get(efp::foldr(mix<E>, z, c)));
            break;
        }
        case R_APPEND: seq_acc<E>(a, efp::append(c, c)); break;
        case R_ELEM: {
            E z = Conv<E>::make(p);
            a.add(efp::elem(z, c));
            Maybe<size_t> m = efp::elem_index(z, c);
            a.add(m.is_nothing() ? -1 : (long)m.value());
            break;
        }
        case R_TAKE: {
            auto t = efp::take((size_t)p % 4, c);
            for (size_t i = 0; i < t.size(); i++) a.add(Conv<E>::get(t[i]));
            auto d = efp::drop((size_t)p % 4, c);
            for (size_t i = 0; i < d.size(); i++) a.add(Conv<E>::get(d[i]));
            break;
        }
        case R_HEAD:
            if (!n) break;
            a.add(Conv<E>::get(efp::head(c)));
            a.add(Conv<E>::get(efp::last(c)));
            break;
        case R_INDICES: seq_acc<size_t>(a, efp::find_indices(odd<E>, c)); break;
        case R_EACH: {
            long s = 0;
            efp::for_each([&](const E& x) { s = s * 3 + Conv<E>::get(x); }, c);
            efp::for_each_with_index([&](size_t i, const E& x) { s = s * 3 + (long)i * Conv<E>::get(x); }, c);
            a.add(s);
            break;
        }
        case R_FORMAT: Fm<E>::go(a, c); break;
        case R_SORTCOPY: {
            Vector<E> v;
            for (size_t i = 0; i < n; i++) v.push_back(efp::nth(i, c));
            efp::sort_by(v, Lt<E>());
            seq_acc<E>(a, v);
            break;
        }
        case R_CART: seq_acc<E>(a, efp::cartesian_map(mix<E>, c, c)); break;
        case R_CONVERT: conv<E>(a, c); break;
        default: read_nest<E>(k, c, p, a);
    }
}
template<typename V, typename E>
static void read_view(int k, const V& c, long p, Acc& a) {
    size_t n = c.size();
    switch (k) {
        case R_SIZE: a.add((long)n), a.add(c.empty()), a.add((long)efp::length(c)), a.add((long)c.capacity()); break;
        case R_INDEX:
            for (size_t i = 0; i < n; i++) a.add(Conv<E>::get(c[i]));
            break;
        case R_ITER:
            for (auto it = c.begin(); it != c.end(); ++it) a.add(Conv<E>::get(*it));
            break;
        case R_DATA:
            for (size_t i = 0; i < n; i++) a.add(Conv<E>::get(efp::data(c)[i]));
            break;
        case R_COPY: {
            V d(c);
            for (size_t i = 0; i < d.size(); i++) a.add(Conv<E>::get(d[i]));
            a.add(d == c);
            break;
        }
        case R_ASSIGN: {
            V d;
            d = c;
            const V& self = d;
            d = self;
            a.add((long)d.size()), a.add((long)d.capacity()), a.add(d == c);
            for (size_t i = 0; i < d.size(); i++) a.add(Conv<E>::get(d[i]));
            break;
        }
        case R_EQ: a.add(c == c); break;
        case R_MAP: seq_acc<E>(a, efp::map(nxt<E>, c)); break;
        case R_FILTER: seq_acc<E>(a, efp::filter(odd<E>, c)); break;
        case R_FOLD: {
            E z = Conv<E>::make(3);
            a.add(Conv<E>::get(efp::foldl(mix<E>, z, c)));
            break;
        }
        case R_TAKE: {
            auto t = efp::take((size_t)p % 4, c);
            for (size_t i = 0; i < t.size(); i++) a.add(Conv<E>::get(t[i]));
            break;
        }
    }
}
static void str_acc(Acc& a, const String& s) {
    a.add((long)s.size());
    for (size_t i = 0; i < s.size(); i++) a.add(s[i]);
}
static void read_str(int k, const String& c, long p, Acc& a) {
    size_t n = c.size();
    switch (k) {
        case R_SIZE: a.add((long)n), a.add(c.empty()), a.add(c.capacity() >= n); break;
        case R_INDEX:
            for (size_t i = 0; i < n; i++) a.add(c[i]);
            break;
        case R_ITER:
            for (char x : c) a.add(x);
            break;
        case R_DATA:
            for (size_t i = 0; i < n; i++) a.add(c.data()[i]);
            break;
        case R_COPY: {
            String d(c);
            str_acc(a, d);
            break;
        }
        case R_ASSIGN: {
            String d("other");
            d = c;
            str_acc(a, d);
            d += c;
            str_acc(a, d);
            break;
        }
        case R_EQ: a.add(c == c); break;
        case R_SUBSTR: {
            String d = c.substr(n ? (size_t)p % n : 0, 4);
            str_acc(a, d);
            break;
        }
        case R_COMPARE: {
            a.add(c.compare(c));
            String t(g_texts[p % 4]);
            int o = c.compare(t);
            a.add(o < 0 ? -1 : o > 0);
            break;
        }
        case R_COPYOUT: {
            char b[64];
            size_t got = c.copy(b, 60, n ? (size_t)p % n : 0);
            for (size_t i = 0; i < got; i++) a.add(b[i]);
            break;
        }
        case R_AT:
            for (size_t i = 0; i < n; i++) a.add(c.at(i));
            break;
        case R_CSTR: {
            const char* s = c.c_str();
            for (size_t i = 0; i <= n; i++) a.add(s[i]);
            break;
        }
        case R_EQTEXT: a.add(c == g_texts[p % 4]); break;
        case R_VIEW: {
            efp::StringView w(p % 2 ? efp::StringView(c) : c.operator efp::StringView());
            a.add((long)w.size());
            for (size_t i = 0; i < w.size(); i++) a.add(w[i]);
            break;
        }
        case R_STD: {
            std::string s = c;
            a.add((long)s.size());
            break;
        }
        case R_FRONT:
            if (n) a.add(c.front()), a.add(c.back());
            break;
        case R_FORMAT: {
            String s = efp::format("<{}> {:>8} {}", c, c, (int)n);
            str_acc(a, s);
            break;
        }
        case R_FILTER: {
            auto r = efp::filter([](const char& x) { return x % 2 == 0; }, c);
            a.add((long)r.size());
            break;
        }
        case R_MAP: {
            auto r = efp::map([](const char& x) { return (int)x; }, c);
            for (size_t i = 0; i < r.size(); i++) a.add(r[i]);
            break;
        }
        case R_FOLD: a.add(efp::foldl([](const int& s, const char& x) { return s * 3 % 10007 + x; }, 1, c)); break;
        case R_ELEM: a.add(efp::elem('4', c)); break;
        case R_IDX2: seq_acc<size_t>(a, efp::elem_indices(p % 2 ? '4' : 's', c)); break;
        case R_FIND: {
            a.add(efp::find([](const char& x) { return x == '4'; }, c));
            Maybe<size_t> m = efp::find_index([](const char& x) { return x < '5'; }, c);
            a.add(m.is_nothing() ? -1 : (long)m.value());
            break;
        }
    }
}
typedef Enum<int, TElem, String, Pod> E4;
static void read_enum(int k, const E4& e, long p, Acc& a) {
    switch (k) {
        case R_INDEXOF: a.add(e.index()); break;
        case R_GET:
            switch (e.index()) {
                case 0: a.add(e.get<int>()); break;
                case 1: a.add(e.get<TElem>().get()); break;
                case 2: str_acc(a, e.get<String>()); break;
                default: a.add(e.get<Pod>().get());
            }
            break;
        case R_MATCH:
            a.add(e.match([p](const int& x) { return (long)x + p; }, [p](const TElem& x) { return x.get() + p; }, [p](const String& s) { return (long)s.size() + p; },
                          [p](const Pod& x) { return x.get() + p; }));
            break;
        case R_WILD: a.add(e.match([p](const TElem& x) { return x.get() + p; }, [p]() { return 5L + p; })); break;
        case R_COPY: {
            E4 d(e);
            read_enum(R_GET, d, 0, a);
            break;
        }
        case R_ASSIGN: {
            E4 d(1);
            d = e;
            read_enum(R_GET, d, 0, a);
            break;
        }
    }
}
template<typename E>
static void read_maybe(int k, const Maybe<E>& m, long p, Acc& a) {
    switch (k) {
        case R_INDEXOF: a.add(m.index()), a.add(m.is_nothing()), a.add(m.has_value()), a.add((bool)m); break;
        case R_VALUE:
            if (m.has_value()) a.add(Conv<E>::get(m.value()));
            break;
        case R_GET:
            if (m.has_value()) a.add(Conv<E>::get(m.template get<E>()));
            break;
        case R_MATCH: a.add(m.match([p](const efp::Nothing&) { return -1L - p; }, [p](const E& x) { return Conv<E>::get(x) + p; })); break;
        case R_WILD: a.add(m.match([p](const E& x) { return Conv<E>::get(x) + p; }, [p]() { return 5L + p; })); break;
        case R_FMAP: {
            auto r = efp::fmap(nxt<E>, m);
            a.add(r.has_value() ? Conv<E>::get(r.value()) : -1);
            auto b = efp::bind(m, [&](const E& x) -> Maybe<E> {
                if (Conv<E>::get(x) % 2 == p % 2) return x;
                return efp::nothing;
            });
            a.add(b.has_value() ? Conv<E>::get(b.value()) : -1);
            break;
        }
        case R_COPY: {
            Maybe<E> d(m);
            read_maybe<E>(R_GET, d, 0, a);
            break;
        }
        case R_ASSIGN: {
            Maybe<E> d = efp::nothing;
            d = m;
            read_maybe<E>(R_GET, d, 0, a);
            break;
        }
    }
}

// ------------------------------------------------------------- the shared object
struct Shared {
    virtual ~Shared() {}
    virtual void read(int k, long p, Acc& a) = 0;  // inside code under test
    virtual uintptr_t terminator() { return 0; }
};
// what a constructor leaves unset differs between the two objects of a run
static unsigned char place_fill;
static void* place(size_t n, size_t align) {
    void* m = sim::arena_place(n, align);
    memset(m, place_fill, n);
    return m;
}
template<typename C>
struct Holder : Shared {
    C* c = nullptr;
    void* mem;
    Holder() : mem(place(sizeof(C), alignof(C))) {}
    ~Holder() {
        {
            Sut s(false);
            c->~C();
        }
        sim::arena_free(mem);
    }
};
static long val(long seed, size_t i) {
    uint64_t h = ((uint64_t)seed * 31 + i + 1) * 0x9E3779B97F4A7C15ull;
    return (long)((h >> 40) % 50);
}
template<typename E>
struct SVector : Holder<Vector<E>> {
    SVector(long seed, size_t n) {
        Sut s(false);
        this->c = new (this->mem) Vector<E>();
        for (size_t i = 0; i < n; i++) this->c->push_back(Conv<E>::make(val(seed, i)));
    }
    void read(int k, long p, Acc& a) override { read_seq<E>(k, *(const Vector<E>*)this->c, p, a); }
};
template<typename E>
struct SArrVec : Holder<ArrVec<E, 5>> {
    SArrVec(long seed, size_t n) {
        Sut s(false);
        this->c = new (this->mem) ArrVec<E, 5>();
        for (size_t i = 0; i < n % 6; i++) this->c->push_back(Conv<E>::make(val(seed, i)));
    }
    void read(int k, long p, Acc& a) override { read_seq<E>(k, *(const ArrVec<E, 5>*)this->c, p, a); }
};
template<typename E>
struct SArray : Holder<Array<E, 3>> {
    SArray(long seed, size_t) {
        Sut s(false);
        this->c = new (this->mem) Array<E, 3> {Conv<E>::make(val(seed, 0)), Conv<E>::make(val(seed, 1)), Conv<E>::make(val(seed, 2))};
    }
    void read(int k, long p, Acc& a) override { read_seq<E>(k, *(const Array<E, 3>*)this->c, p, a); }
};
template<typename E>
struct SVcb : Holder<Vcb<E, 3>> {
    SVcb(long seed, size_t n) {
        Sut s(false);
        this->c = new (this->mem) Vcb<E, 3>();
        for (size_t i = 0; i < n + 2; i++) this->c->push_back(Conv<E>::make(val(seed, i)));
    }
    void read(int k, long p, Acc& a) override {
        if (k == R_EQ || k == R_HEAD) k = R_SIZE;
        go(k, *(const Vcb<E, 3>*)this->c, p, a);
    }
    static void go(int k, const Vcb<E, 3>& c, long p, Acc& a) {
        switch (k) {
            case R_SIZE: a.add((long)c.size()), a.add((long)efp::length(c)); break;
            case R_INDEX:
                for (size_t i = 0; i < 3; i++) a.add(Conv<E>::get(c[i]));
                break;
            case R_ITER:
                for (const E& x : c) a.add(Conv<E>::get(x));
                break;
            case R_DATA:
                for (size_t i = 0; i < 3; i++) a.add(Conv<E>::get(efp::data(c)[i]));
                break;
            case R_COPY: {
                Vcb<E, 3> d(c);
                seq_acc<E>(a, d);
                break;
            }
            case R_ASSIGN: {
                Vcb<E, 3> d;
                d = c;
                seq_acc<E>(a, d);
                break;
            }
            case R_MAP: seq_acc<E>(a, efp::map(nxt<E>, c)); break;
            case R_FILTER: seq_acc<E>(a, efp::filter(odd<E>, c)); break;
            case R_FORMAT: Fm<E>::go(a, c); break;
            case R_APPEND: seq_acc<E>(a, efp::append(c, c)); break;
            case R_ELEM: {
                E z = Conv<E>::make(p);
                a.add(efp::elem(z, c));
                break;
            }            case R_FOLD: {
                E z = Conv<E>::make(3);
                a.add(Conv<E>::get(efp::foldl(mix<E>, z, c)));
                a.add(Conv<E>::get(efp::foldr(mix<E>, z, c)));
                break;
            }
            case R_EACH: {
                long s = 0;
                efp::for_each([&](const E& x) { s = s * 3 + Conv<E>::get(x); }, c);
                a.add(s);
                break;
            }
            case R_CART: seq_acc<E>(a, efp::cartesian_map(mix<E>, c, c)); break;
            default: read_more<E>(k, c, p, a);
        }
    }
};
template<typename E>
struct SVcq : Holder<Vcq<E, 4>> {
    SVcq(long seed, size_t n) {
        Sut s(false);
        this->c = new (this->mem) Vcq<E, 4>();
        for (size_t i = 0; i < n; i++) {
            this->c->push_back(Conv<E>::make(val(seed, i)));
            if (i % 3 == 1) this->c->pop_front();
        }
    }
    void read(int k, long p, Acc& a) override {
        const Vcq<E, 4>& c = *(const Vcq<E, 4>*)this->c;
        switch (k) {
            case R_SIZE: a.add((long)c.size()), a.add((long)efp::length(c)), a.add(c.empty()); break;
            case R_INDEX:
                for (size_t i = 0; i < c.size(); i++) a.add(Conv<E>::get(c[i]));
                break;
            case R_ITER:
                for (const E& x : c) a.add(Conv<E>::get(x));
                break;
            case R_DATA:
                for (size_t i = 0; i < c.size(); i++) a.add(Conv<E>::get(efp::data(c)[i]));
                break;
            case R_COPY: {
                Vcq<E, 4> d(c);
                seq_acc<E>(a, d);
                break;
            }
            case R_ASSIGN: {
                Vcq<E, 4> d;
                d = c;
                seq_acc<E>(a, d);
                break;
            }
            case R_MAP: seq_acc<E>(a, efp::map(nxt<E>, c)); break;
            case R_FILTER: seq_acc<E>(a, efp::filter(odd<E>, c)); break;
            case R_FORMAT: Fm<E>::go(a, c); break;
            case R_APPEND: seq_acc<E>(a, efp::append(c, c)); break;
            case R_ELEM: {
                E z = Conv<E>::make(p);
                a.add(efp::elem(z, c));
                break;
            }            case R_FOLD: {
                E z = Conv<E>::make(3);
                a.add(Conv<E>::get(efp::foldl(mix<E>, z, c)));
                a.add(Conv<E>::get(efp::foldr(mix<E>, z, c)));
                break;
            }
            case R_EACH: {
                long s = 0;
                efp::for_each([&](const E& x) { s = s * 3 + Conv<E>::get(x); }, c);
                a.add(s);
                break;
            }
            case R_CART: seq_acc<E>(a, efp::cartesian_map(mix<E>, c, c)); break;
            default: read_more<E>(k, c, p, a);
        }
    }
};
struct SString : Holder<String> {
    uintptr_t term = 0;
    SString(long seed, size_t n, bool grown) {
        Sut s(false);
        if (seed % 3 == 0) c = new (mem) String(g_texts[(size_t)seed % 2]);
        else c = new (mem) String();
        for (size_t i = 0; i < n; i++) c->push_back((char)('0' + val(seed, i)));
        if (grown) {
            c->reserve(40);
            if (!c->empty()) c->pop_back();
        }
        term = c->data() ? (uintptr_t)(c->data() + c->size()) : 0;
    }
    void read(int k, long p, Acc& a) override { read_str(k, *(const String*)c, p, a); }
    uintptr_t terminator() override { return term; }
};
struct SEnum : Holder<E4> {
    SEnum(long seed, size_t n) {
        Sut s(false);
        switch (n % 4) {
            case 0: c = new (mem) E4((int)seed); break;
            case 1: c = new (mem) E4(TElem(seed)); break;
            case 2: c = new (mem) E4(Conv<String>::make(seed)); break;
            default: c = new (mem) E4(Pod(seed));
        }
    }
    void read(int k, long p, Acc& a) override { read_enum(k, *(const E4*)c, p, a); }
};
template<typename E>
struct SMaybe : Holder<Maybe<E>> {
    SMaybe(long seed, size_t n) {
        Sut s(false);
        if (n % 4 == 0) this->c = new (this->mem) Maybe<E>(efp::nothing);
        else this->c = new (this->mem) Maybe<E>(Conv<E>::make(seed));
    }
    void read(int k, long p, Acc& a) override { read_maybe<E>(k, *(const Maybe<E>*)this->c, p, a); }
};
template<typename E>
struct SView : Holder<efp::VectorView<E>> {
    SVector<E> under;
    SView(long seed, size_t n) : under(seed, n) {
        Sut s(false);
        const Vector<E>& u = *under.c;
        this->c = new (this->mem) efp::VectorView<E>(u.data(), u.size());
    }
    void read(int k, long p, Acc& a) override { read_view<efp::VectorView<E>, E>(k, *(const efp::VectorView<E>*)this->c, p, a); }
};
template<typename E>
struct SAvView : Holder<efp::ArrVecView<E, 5>> {
    SArrVec<E> under;
    SAvView(long seed, size_t n) : under(seed, n) {
        Sut s(false);
        const ArrVec<E, 5>& u = *under.c;
        this->c = new (this->mem) efp::ArrVecView<E, 5>(u.data(), u.size());
    }
    void read(int k, long p, Acc& a) override { read_view<efp::ArrVecView<E, 5>, E>(k, *(const efp::ArrVecView<E, 5>*)this->c, p, a); }
};
template<typename E>
struct SArrView : Holder<efp::ArrayView<E, 3>> {
    SArray<E> under;
    SArrView(long seed, size_t n) : under(seed, n) {
        Sut s(false);
        const Array<E, 3>& u = *under.c;
        this->c = new (this->mem) efp::ArrayView<E, 3>(u.data());
    }
    void read(int k, long p, Acc& a) override { read_view<efp::ArrayView<E, 3>, E>(k, *(const efp::ArrayView<E, 3>*)this->c, p, a); }
};
// a view made from another view
template<typename E>
struct SConvView : Holder<efp::VectorView<E>> {
    SArrView<E> fixed;
    SAvView<E> bounded;
    SConvView(long seed, size_t n) : fixed(seed, n), bounded(seed, n) {
        Sut s(false);
        if (seed % 2) this->c = new (this->mem) efp::VectorView<E>(*(const efp::ArrayView<E, 3>*)fixed.c);
        else this->c = new (this->mem) efp::VectorView<E>(*(const efp::ArrVecView<E, 5>*)bounded.c);
    }
    void read(int k, long p, Acc& a) override { read_view<efp::VectorView<E>, E>(k, *(const efp::VectorView<E>*)this->c, p, a); }
};
struct SStrView : Holder<efp::StringView> {
    SString under;
    SStrView(long seed, size_t n) : under(seed, n, false) {
        Sut s(false);
        const String& u = *under.c;
        switch (seed % 3) {
            case 0: c = new (mem) efp::StringView(u); break;
            case 1: c = new (mem) efp::StringView(g_texts[(size_t)seed / 3 % 4]); break;
            default: c = new (mem) efp::StringView(u.data(), u.size());
        }
    }
    void read(int k, long p, Acc& a) override {
        const efp::StringView& v = *(const efp::StringView*)c;
        switch (k) {
            case R_EQTEXT: a.add(v == g_texts[p % 4]); break;
            case R_CSTR:
                for (size_t i = 0; i < v.size(); i++) a.add(v.c_str()[i]);
                break;
            case R_STD: {
                std::string s = v;
                for (char ch : s) a.add(ch);
                break;
            }
            case R_CONVERT: {
                String s(v.data(), v.size());
                str_acc(a, s);
                break;
            }
            case R_FORMAT: {
#if __cplusplus >= 201703L
                // before C++17 a StringView is not taken for text
                String s = efp::format("<{}> {:>8}", v, v);
                str_acc(a, s);
#else
                a.add((long)v.size());
#endif
                break;
            }
            case R_FIND: {
                a.add(efp::find([](const char& x) { return x == '4'; }, v));
                a.add(efp::elem('4', v));
                break;
            }
            default: read_view<efp::StringView, char>(k, v, p, a);
        }
    }
};
static void real(Acc& a, double d) {
    long v;
    memcpy(&v, &d, sizeof v);
    a.add(v);
}
typedef efp::Tuple<TElem, int, String, Vector<int>, Pod> T5;
struct STuple : Holder<T5> {
    STuple(long seed, size_t n) {
        Sut s(false);
        Vector<int> v;
        for (size_t i = 0; i < n % 5; i++) v.push_back((int)val(seed, i));
        c = new (mem) T5(TElem(seed), (int)seed + 1, Conv<String>::make(seed + 2), v, Pod(seed + 3));
    }
    static void all(Acc& a, const T5& t) {
        a.add(t.get<0>().get()), a.add(efp::get<1>(t));
        str_acc(a, efp::p<2>(t));
        seq_acc<int>(a, t.get<3>());
        a.add(efp::get<4>(t).get());
    }
    void read(int k, long p, Acc& a) override {
        const T5& t = *(const T5*)c;
        switch (k) {
            case R_GET: all(a, t); break;
            case R_FRONT: a.add(efp::fst(t).get()), a.add(efp::snd(t)); break;
            case R_MATCH:
                a.add(t.match([&](const TElem& x, const int& y, const String& z, const Vector<int>& v, const Pod& w) {
                    return x.get() + y * 3 + (long)z.size() * 5 + (long)v.size() * 7 + w.get() * 11 + p;
                }));
                break;
            case R_VALUE:
                a.add(t.match([](TElem x, int y, String z, Vector<int> v, Pod w) { return x.get() + y * 3 + (long)z.size() * 5 + (long)v.size() * 7 + w.get() * 11; }));
                break;
            case R_COPY: {
                T5 d(t);
                all(a, d);
                break;
            }
            case R_ASSIGN: {
                Vector<int> none;
                T5 d(TElem(1), 2, Conv<String>::make(3), none, Pod(4));
                d = t;
                all(a, d);
                break;
            }
            case R_EQ: {
                efp::Tuple<TElem, int, Pod> x(t.get<0>(), t.get<1>(), t.get<4>()), y(t.get<0>(), (int)p, t.get<4>());
                a.add(x == x), a.add(x == y), a.add(x != y);
                break;
            }
        }
    }
};
template<typename C>
struct SNumbers : Holder<C> {
    static void fill(Vector<double>& c, long seed, size_t n) {
        for (size_t i = 0; i < n + 3; i++) c.push_back((double)val(seed, i) / 8);
    }
    static void fill(Array<double, 4>& c, long seed, size_t) {
        for (size_t i = 0; i < 4; i++) c[i] = (double)val(seed, i) / 8;
    }
    SNumbers(long seed, size_t n) {
        Sut s(false);
        this->c = new (this->mem) C();
        fill(*this->c, seed, n);
    }
    static void seq(Acc& a, const Vector<double>& v) { for (double x : v) real(a, x); }
    static void seq(Acc& a, const Array<double, 4>& v) { for (double x : v) real(a, x); }
    void read(int k, long p, Acc& a) override {
        const C& c = *(const C*)this->c;
        switch (k) {
            case R_STATS:
                real(a, efp::sum(c)), real(a, efp::product(c)), real(a, efp::max_elem(c)), real(a, efp::min_elem(c));
                real(a, efp::mean<double>(c)), real(a, efp::rms<double>(c)), real(a, efp::variance<double>(c)), real(a, efp::standard_deviation<double, true>(c));
                break;
            case R_REGRESS: {
                real(a, efp::covariance<double>(c, c)), real(a, efp::correlation<double>(c, c)), real(a, efp::autocovariance<double>(c, (int)(p % 3)));
                auto t = efp::linear_regression<double>(c, c);
                real(a, efp::fst(t)), real(a, efp::snd(t));
                auto u = efp::linear_regression_with_index<double>(c);
                real(a, u.template get<0>()), real(a, u.template get<1>());
                real(a, efp::rmse<double>(c, c));
                break;
            }
            case R_TREND:
                seq(a, efp::remove_dc<double>(c));
                seq(a, efp::detrend<double>(c));
                break;
        }
    }
};
struct Twice {
    TElem k;
    long operator()(const TElem& x) const { return x.get() * 2 + k.get(); }
};
struct Wrap {
    String s;
    TElem operator()(long x) const { return TElem(x + (long)s.size()); }
};
typedef efp::Composed<Twice, Wrap> Comp;
struct SComp : Holder<Comp> {
    Twice* f;
    Wrap* g;
    SComp(long seed, size_t) {
        Sut s(false);
        f = new Twice {TElem(seed)};
        g = new Wrap {Conv<String>::make(seed + 1)};
        c = new (mem) Comp(efp::compose(*f, *g));
    }
    ~SComp() {
        Sut s(false);
        delete f;
        delete g;
    }
    void read(int k, long p, Acc& a) override {
        const Comp& h = *(const Comp*)c;
        if (k == R_CALL) a.add(h(p)), a.add(h(p + 1));
        else {
            Comp d(h);
            a.add(d(p));
        }
    }
};
template<typename E>
static Shared* make_e(int kind, long seed, size_t n) {
    switch (kind) {
        case 0: return new SVector<E>(seed, n);
        case 1: return new SArrVec<E>(seed, n);
        case 2: return new SArray<E>(seed, n);
        case 3: return new SVcb<E>(seed, n);
        case 4: return new SVcq<E>(seed, n);
        case 5: return new SMaybe<E>(seed, n);
        case 6: return new SView<E>(seed, n);
        case 7: return new SAvView<E>(seed, n);
        case 10: return new SArrView<E>(seed, n);
        default: return new SConvView<E>(seed, n);
    }
}
static Shared* make(int kind, int elem, long seed, size_t n) {
    if (kind == 8) return new SString(seed, n, elem == 1);
    if (kind == 9) return new SEnum(seed, n);
    if (kind == 12) return new SStrView(seed, n);
    if (kind == 13) return new STuple(seed, n);
    if (kind == 14 && elem == 0) return new SNumbers<Array<double, 4>>(seed, n);
    if (kind == 14) return new SNumbers<Vector<double>>(seed, n);
    if (kind == 15) return new SComp(seed, n);
    switch (elem) {
        case 0: return make_e<int>(kind, seed, n);
        case 1: return make_e<TElem>(kind, seed, n);
        default: return make_e<String>(kind, seed, n);
    }
}

// ------------------------------------------------------------- threads
static Shared* S;
static const Rec* R;
static std::vector<uint64_t> want;
static bool known_cstr;
static bool filter(int, int cur, uintptr_t addr) {
    return known_cstr && S && addr == S->terminator() && sim::op_tag_of(cur) == 100 + R_CSTR;
}
// true = finished; false = failed by injection
static bool one(Shared* s, const std::vector<long>& op, bool faults, uint64_t* h) {
    Acc a;
    int me = sim::cur();
    uint64_t f0 = sim::fiber_faults(me);
    bool ok = true;
    sim::op_tag(100 + (int)op[1]);
    {
        Sut q(faults);
        try {
            s->read((int)op[1], op[2], a);
        } catch (const CopyFail&) {
            ok = false;
        } catch (const std::bad_alloc&) {
            ok = false;
        }
    }
    if (!ok && sim::fiber_faults(me) == f0) sim::violation("false-failure", "%s throws although nothing failed", rname[op[1]]);
    *h = a.h;
    return ok;
}
static void thread_main(void* arg) {
    long t = (long)(intptr_t)arg;
    for (size_t i = 0; i < R->ops.size(); i++) {
        const auto& op = R->ops[i];
        if (op.size() < 3 || op[0] != t || op[1] < 0 || op[1] >= NR) continue;
        uint64_t h;
        if (one(S, op, R->cfg[5] != 0, &h)) {
            drv::stats().checks++;
            if (h != want[i]) sim::violation("result", "%s by thread %ld gives another result than alone", rname[op[1]], t);
        }
        sim::note(h);
    }
}

namespace drv {
// cfg: kind, element, seed, length, threads, faults
static const int seq_ops[] = {R_SIZE, R_INDEX, R_ITER, R_DATA, R_COPY, R_EQ, R_MAP, R_FILTER, R_FOLD, R_APPEND, R_ELEM, R_TAKE, R_HEAD, R_INDICES, R_EACH, R_FORMAT, R_SORTCOPY, R_CART, R_ASSIGN, R_CONVERT, R_IDX2, R_FIND, R_WITHIDX, R_SLICE, R_NEST, R_FROM};
static const int str_ops[] = {R_SIZE, R_INDEX, R_ITER, R_DATA, R_COPY, R_EQ, R_MAP, R_FILTER, R_FOLD, R_ELEM, R_FORMAT, R_ASSIGN, R_SUBSTR, R_COMPARE, R_COPYOUT, R_AT, R_CSTR, R_EQTEXT, R_VIEW, R_STD, R_FRONT, R_IDX2, R_FIND};
static const int view_ops[] = {R_SIZE, R_INDEX, R_ITER, R_DATA, R_COPY, R_EQ, R_MAP, R_FILTER, R_FOLD, R_TAKE, R_EQTEXT, R_CSTR, R_STD, R_CONVERT, R_FORMAT, R_FIND, R_ASSIGN};
static const int tuple_ops[] = {R_GET, R_FRONT, R_MATCH, R_VALUE, R_COPY, R_ASSIGN, R_EQ};
static const int num_ops[] = {R_STATS, R_REGRESS, R_TREND};
static const int enum_ops[] = {R_GET, R_MATCH, R_WILD, R_VALUE, R_FMAP, R_INDEXOF, R_COPY, R_ASSIGN};
void gen(const std::string&, uint64_t seed, bool thorough, Rec& r, sim::Policy& p) {
    Rng g(seed);
    long kind = (long)g.below(19);
    if (kind > 15) kind = 8;
    r.scen = "shared";
    int nt = 2 + (int)g.below(3);
    bool faults = g.below(4) == 0;
    r.cfg = {kind, (long)g.below(3), (long)g.below(10000), (long)g.below(8), nt, faults};
    long focus = g.below(2) ? -1 : (long)g.below(26);  // some runs have every thread call the same two operations
    for (int t = 1; t <= nt; t++) {
        int n = 1 + (int)g.below(thorough ? 8 : 4);
        for (int i = 0; i < n; i++) {
            uint32_t x = g.below(26);
            if (focus >= 0 && g.below(3)) x = (uint32_t)focus;
            long k;
            if (kind == 8) k = str_ops[x % 23];
            else if (kind == 12) k = view_ops[x % 17];
            else if (kind == 13) k = tuple_ops[x % 7];
            else if (kind == 14) k = num_ops[x % 3];
            else if (kind == 15) k = x % 3 ? R_CALL : R_COPY;
            else if (kind == 9 || kind == 5) k = enum_ops[x % 8];
            else k = seq_ops[x % 26];
            r.ops.push_back({t, k, (long)g.below(50)});
        }
    }
    uint32_t pm = g.below(10);
    if (pm < 5) {
        static const double mem[4] = {0.002, 0.01, 0.05, 0.25};
        p.mode = 0;
        p.p_mem = (uint32_t)(mem[g.below(4)] * M32);
        p.p_sync = (uint32_t)(0.3 * M32);
        if (g.below(4) == 0) {
            p.starve = 1 + (int)g.below((uint32_t)nt);
            sim::count_fault(sim::F_STALL);
        }
    } else if (pm < 9) {
        p.mode = 1;
        p.pct_depth = 1 + (int)g.below(6);
        static const uint32_t len[4] = {60, 200, 600, 1500};
        p.pct_len = len[g.below(4)];
    } else {
        p.mode = 2;
    }
    if (faults) fault_policy(g, p, 30);
}
const char* op_name(const Rec&, const std::vector<long>& op, char* buf, size_t n) {
    snprintf(buf, n, "thread %ld: %s", op[0], op.size() > 1 && op[1] >= 0 && op[1] < NR ? rname[op[1]] : "?");
    return buf;
}
void exec(const Rec& r) {
    sim::set_step_limit(2000000);
    R = &r;
    const char* kf = getenv("EFP_KNOWN");
    known_cstr = kf && strstr(kf, "string-c_str-terminator");
    sim::race_filter = nullptr;
    S = nullptr;
    place_fill = 0x35;
    Shared* alone = make((int)r.cfg[0], (int)r.cfg[1], r.cfg[2], (size_t)r.cfg[3]);
    want.assign(r.ops.size(), 0);
    for (size_t i = 0; i < r.ops.size(); i++)
        if (r.ops[i].size() >= 3 && r.ops[i][1] >= 0 && r.ops[i][1] < NR) one(alone, r.ops[i], false, &want[i]);
    delete alone;
    place_fill = 0xC9;
    S = make((int)r.cfg[0], (int)r.cfg[1], r.cfg[2], (size_t)r.cfg[3]);
    sim::race_filter = filter;
    for (long t = 1; t <= r.cfg[4]; t++) sim::spawn(thread_main, (void*)(intptr_t)t);
    sim::Status st = sim::run_all();
    if (st == sim::LIMIT) sim::violation("livelock", "read-only calls do not end");
    if (st != sim::ALL_DONE) sim::violation("deadlock", "read-only calls wait for each other");
    sim::faults_enable(false);
    // and the object is as it was
    for (size_t i = 0; i < r.ops.size(); i++) {
        uint64_t h;
        if (r.ops[i].size() < 3 || r.ops[i][1] < 0 || r.ops[i][1] >= NR) continue;
        one(S, r.ops[i], false, &h);
        if (h != want[i]) sim::violation("changed", "%s gives another result after read-only use", rname[r.ops[i][1]]);
    }
    delete S;
    S = nullptr;
    no_leaks();
}
}  // namespace drv
