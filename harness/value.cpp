// Tuples, compositions, Maybe combinators, swap and the statistical functions
// under failing allocations, element copies and callbacks (C28).
#include "cont.h"
#include <functional>
#include <math.h>

typedef std::vector<std::vector<long>> Calls;
static Calls* g_calls;
static bool g_cb_failed, g_faults;
static void called(std::initializer_list<long> args) {
    if (g_cb_failed) sim::violation("called-again", "a function is called after one has failed, in %s", g_what);
    {
        NoSut ns;
        if (g_calls->size() >= 100) sim::violation("calls", "%s calls its functions more than 100 times", g_what);
        g_calls->push_back(std::vector<long>(args));
    }
    if (sim::fault_here(sim::CB, sim::F_CB)) {
        g_cb_failed = true;
        throw CallFail();
    }
}
static Outcome judge(const std::function<void(Model&)>& f, const Model& want, const Calls& calls, bool order = true);

// ------------------------------------------------------------- values and numbers
// what is read goes to a fixed area first: reading happens inside the simulation
struct Sink {
    size_t n = 0;
    static long* area() {
        static long a[4000];
        return a;
    }
    void push_back(long v) {
        if (n == 4000) sim::violation("contents", "a value is endless after %s", g_what);
        area()[n++] = v;
    }
};
template<typename A>
struct Num {
    static A make(long v) { return Conv<A>::make(v); }
    static void add(Sink& m, const A& a) { m.push_back(Conv<A>::get(a)); }
    static void model(Model& m, long v) { m.push_back(v); }
};
template<>
struct Num<double> {
    static double make(long v) { return (double)v / 4; }
    static void add(Sink& m, const double& a) { m.push_back((long)(a * 4)); }
    static void model(Model& m, long v) { m.push_back(v); }
};
template<>
struct Num<bool> {
    static bool make(long v) { return v % 2; }
    static void add(Sink& m, const bool& a) { m.push_back(a); }
    static void model(Model& m, long v) { m.push_back(v % 2); }
};
template<>
struct Num<String> {
    static String make(long v) { return Conv<String>::make(v); }
    static void add(Sink& m, const String& a) { m.push_back(Conv<String>::get(a)); }
    static void model(Model& m, long v) { m.push_back(v); }
};
template<typename E>
struct Num<Vector<E>> {
    static Vector<E> make(long v) {
        Vector<E> r;
        for (long i = 0; i < v % 4; i++) r.push_back(Conv<E>::make(v + i));
        return r;
    }
    static void add(Sink& m, const Vector<E>& a) {
        m.push_back((long)a.size());
        for (size_t i = 0; i < a.size(); i++) m.push_back(Conv<E>::get(a[i]));
    }
    static void model(Model& m, long v) {
        m.push_back(v % 4);
        for (long i = 0; i < v % 4; i++) m.push_back(v + i);
    }
};
template<typename E>
struct Num<Maybe<E>> {
    static Maybe<E> make(long v) {
        if (v % 3 == 0) return efp::nothing;
        return Conv<E>::make(v);
    }
    static void add(Sink& m, const Maybe<E>& a) {
        m.push_back(a.is_nothing());
        if (a) m.push_back(Conv<E>::get(a.template get<E>()));
    }
    static void model(Model& m, long v) {
        m.push_back(v % 3 == 0);
        if (v % 3) m.push_back(v);
    }
};
// called inside the simulation
template<typename A>
static void take(Model& to, const A& a) {
    Sink s;
    Num<A>::add(s, a);
    NoSut ns;
    to.insert(to.end(), Sink::area(), Sink::area() + s.n);
}
template<typename A>
static Model one(const A& a) {
    Model m;
    Sut q(false);
    take<A>(m, a);
    return m;
}
template<typename A>
static Model mdl(long v) {
    Model m;
    Num<A>::model(m, v);
    return m;
}
typedef std::vector<Model> Parts;
static Model join(const Parts& p) {
    Model m;
    for (auto& x : p) m.insert(m.end(), x.begin(), x.end());
    return m;
}

// ------------------------------------------------------------- one call and its checks
static Outcome judge(const std::function<void(Model&)>& f, const Model& want, const Calls& calls, bool order) {
    Calls seen;
    g_calls = &seen;
    g_cb_failed = false;
    size_t o0 = sim::live_objs(), b0 = sim::live_blocks();
    Model got;
    Outcome r = attempt([&] { f(got); }, g_faults);
    settle(r, false);
    drv::stats().checks++;
    if (g_cb_failed && r == OK) sim::violation("swallowed", "%s returns although a function it called threw", g_what);
    if (r == OK && got != want) sim::violation("result", "%s gives %s, expected %s", g_what, show(got).c_str(), show(want).c_str());
    if (order) {
        if (r == OK && seen.size() != calls.size()) sim::violation("calls", "%s makes %zu calls, expected %zu", g_what, seen.size(), calls.size());
        for (size_t i = 0; i < seen.size(); i++)
            if (i >= calls.size() || seen[i] != calls[i])
                sim::violation("calls", "call %zu made by %s is %s, expected %s", i, g_what, show(seen[i]).c_str(), i < calls.size() ? show(calls[i]).c_str() : "none");
    }
    if (sim::live_objs() != o0) sim::violation("leak", "%zu element objects are alive after %s%s, %zu before", sim::live_objs(), r == OK ? "" : "a failed ", g_what, o0);
    if (sim::live_blocks() != b0) {
        char d[300];
        sim::describe_live(d, sizeof d);
        sim::violation("leak", "%s%s leaks memory: %s", r == OK ? "" : "a failed ", g_what, d);
    }
    return r;
}
static void expect(const Model& is, const Model& want, const char* what, Outcome r) {
    if (is != want)
        sim::violation(r == OK ? "contents" : "not-unchanged", "%s holds %s after %s%s, expected %s", what, show(is).c_str(), r == OK ? "" : "a failed ", g_what, show(want).c_str());
}

// ------------------------------------------------------------- tuples
template<typename T>
struct Tup;
template<typename... As>
struct Tup<efp::Tuple<As...>> {
    typedef efp::Tuple<As...> T;
    static const size_t N = sizeof...(As);
    template<size_t i, bool = (i < N)>
    struct At {
        typedef efp::PackAt<i, As...> A;
        static void read(const T& t, Parts& p, int how) {
            const A* a;
            {
                Sut q(false);
                T& m = const_cast<T&>(t);
                switch (how % 6) {
                    case 0: a = &t.template get<i>(); break;
                    case 1: a = &m.template get<i>(); break;
                    case 2: a = &efp::get<i>(t); break;
                    case 3: a = &efp::get<i>(m); break;
                    case 4: a = &efp::p<i>(t); break;
                    default: a = &efp::p<i>(m);
                }
                if (i == 0 && ((const void*)&efp::fst(t) != (const void*)a || (const void*)&efp::fst(m) != (const void*)a)) sim::violation("contents", "fst and get<0> differ");
                if (i == 1 && N > 1) At<1>::second(t, a);
            }
            p.push_back(one(*a));
            At<i + 1>::read(t, p, how);
        }
        static void second(const T& t, const void* a) {
            if ((const void*)&efp::snd(t) != a || (const void*)&efp::snd(const_cast<T&>(t)) != a) sim::violation("contents", "snd and get<1> differ");
        }
        static void set(T& t, size_t which, long v) {
            if (which == i) {
                A x = Num<A>::make(v);
                t.template get<i>() = x;
            } else At<i + 1>::set(t, which, v);
        }
        static void part(size_t which, long v, Model& m) {
            if (which == i) m = mdl<A>(v);
            else At<i + 1>::part(which, v, m);
        }
    };
    template<size_t i>
    struct At<i, false> {
        static void read(const T&, Parts&, int) {}
        static void second(const T&, const void*) {}
        static void set(T&, size_t, long) {}
        static void part(size_t, long, Model&) {}
    };
    static Parts parts(const T& t, int how) {
        Parts p;
        At<0>::read(t, p, how);
        return p;
    }
    static Parts model(const std::vector<long>& v) {
        Parts p;
        for (size_t i = 0; i < N; i++) {
            p.push_back(Model());
            At<0>::part(i, v[i], p.back());
        }
        return p;
    }
    struct Next {
        const long* v;
        template<typename A>
        A make() { return Num<A>::make(*v++); }
    };
    static T make(const std::vector<long>& v) {
        Next s {v.data()};
        return T {s.template make<As>()...};
    }
    // the visitor reads the parts it is given
    struct Visit {
        static void all(Sink&) {}
        template<typename A, typename... Bs>
        static void all(Sink& m, const A& a, const Bs&... bs) {
            Num<A>::add(m, a);
            all(m, bs...);
        }
        long operator()(const As&... as) const {
            called({1});
            Sink s;
            all(s, as...);
            NoSut ns;
            return hash(Model(Sink::area(), Sink::area() + s.n));
        }
    };
    struct VisitByValue {
        long operator()(As... as) const { return Visit()(as...); }
    };
    static long hash(const Model& m) {
        long h = 0;
        for (long x : m) h = h * 31 + x;
        return h % 1000003;
    }
    struct From {
        Model& got;
        T operator()(const As&... as) const { return efp::tuple(as...); }
    };
};
enum VFn {
    V_MAKE, V_COPY, V_COPYASSIGN, V_SELF, V_SET, V_MATCH, V_MATCHVAL, V_EQ, V_SWAP, V_COMPOSE2, V_COMPOSE3, V_COMPOSE5, V_COMPOSEN, V_ID,
    V_FMAP, V_FMAPM, V_AP, V_APM, V_BIND, V_BINDM, V_BINDOP, V_PURE, V_CHAIN, V_STAT, V_FUNCPTR, V_NESTED, V_LEAF, NV
};
static const char* const vname[NV] = {"tuple", "copying a Tuple", "assigning a Tuple", "assigning a Tuple to itself", "assigning to a part of a Tuple", "Tuple::match", "Tuple::match by value",
                                      "== of Tuples", "swap", "compose of two", "compose of three", "compose of five", "compose with several arguments", "id", "fmap", "Maybe::fmap", "ap", "Maybe::ap",
                                      "bind", "Maybe::bind", ">>=", "pure", "a chain of fmap and bind", "statistics", "func_ptr", "a Tuple of Tuples", "one part of a Tuple"};
template<typename A, bool = true>
struct Same {
    static bool eq(const A& a, const A& b) { return a == b; }
};
template<typename T, bool EQ>
struct TupEq {
    static void go(const T&, const T&, bool) {}
};
template<typename T>
struct TupEq<T, true> {
    static void go(const T& a, const T& b, bool want) {
        bool e = false, n = false;
        judge([&](Model&) { e = a == b, n = a != b; }, {}, {});
        if (e != want || n == want) sim::violation("result", "== of Tuples gives %d, != gives %d for %s Tuples", e, n, want ? "equal" : "different");
    }
};
template<typename T, bool EQ>
static void tuple_op(int fn, long seed, int how) {
    typedef Tup<T> U;
    std::vector<long> va, vb;
    for (size_t i = 0; i < U::N; i++) {
        uint64_t h = ((uint64_t)seed + 1) * 0x9E3779B97F4A7C15ull + i * 0xBF58476D1CE4E5B9ull;
        h ^= h >> 31;
        va.push_back((long)(h % 97));
        vb.push_back((long)((h >> 20) % 97));
    }
    Parts ma = U::model(va), mb = U::model(vb);
    Sut o1(false);
    T a = U::make(va), b = U::make(vb);
    NoSut n1;
    Outcome r = OK;
    switch (fn) {
        case V_MAKE:
            r = judge([&](Model& got) {
                const T& ca = a;
                T t = ca.match(typename U::From {got});
                NoSut ns;
                got = join(U::parts(t, how));
            }, join(ma), {});
            break;
        case V_COPY:
            r = judge([&](Model& got) {
                T t(how % 2 ? (const T&)a : a);
                NoSut ns;
                got = join(U::parts(t, how));
            }, join(ma), {});
            break;
        case V_LEAF:
            r = judge([&](Model& got) {
                typedef typename U::template At<0>::A A0;
                A0 tmp(a.template get<0>());
                efp::TupleLeaf<3, A0> l(efp::move(tmp)), k(b.template get<0>());
                efp::TupleLeaf<3, A0> m(l);
                m = k;
                take<A0>(got, l.get());
                take<A0>(got, m.get());
                take<A0>(got, ((const efp::TupleLeaf<3, A0>&)k).get());
            }, [&] {
                Model w = ma[0];
                w.insert(w.end(), mb[0].begin(), mb[0].end());
                w.insert(w.end(), mb[0].begin(), mb[0].end());
                return w;
            }(), {});
            break;
        case V_NESTED:
            r = judge([&](Model& got) {
                efp::Tuple<T, int, T> t(a, 7, b);
                efp::Tuple<T, int, T> u(t);
                NoSut ns;
                got = join(U::parts(u.template get<0>(), how));
                got.push_back(u.template get<1>());
                Model m = join(U::parts(efp::get<2>(u), how));
                got.insert(got.end(), m.begin(), m.end());
            }, [&] {
                Model w = join(ma), m = join(mb);
                w.push_back(7);
                w.insert(w.end(), m.begin(), m.end());
                return w;
            }(), {});
            break;
        case V_COPYASSIGN:
        case V_SELF:
        case V_SET: {
            size_t which = (size_t)how % U::N;
            long nv = (seed * 7 + 5) % 89;
            // an assignment may change what the target owns: count from a copy that is released again
            size_t o0 = sim::live_objs(), b0 = sim::live_blocks();
            (void)o0, (void)b0;
            Calls seen;
            g_calls = &seen;
            g_cb_failed = false;
            r = attempt([&] {
                if (fn == V_COPYASSIGN) a = how % 2 ? (const T&)b : b;
                else if (fn == V_SELF) a = (const T&)a;
                else U::template At<0>::set(a, which, nv);
            }, g_faults);
            settle(r, false);
            drv::stats().checks++;
            Parts now = U::parts(a, how), want = ma;
            if (fn == V_COPYASSIGN) want = mb;
            if (fn == V_SET) U::template At<0>::part(which, nv, want[which]);
            for (size_t i = 0; i < U::N; i++)
                if (now[i] != want[i] && (r == OK || now[i] != ma[i]))
                    sim::violation("contents", "part %zu of a Tuple holds %s after %s%s, expected %s", i, show(now[i]).c_str(), r == OK ? "" : "a failed ", g_what, show(want[i]).c_str());
            ma = now;
            break;
        }
        case V_MATCH:
        case V_MATCHVAL:
            r = judge([&](Model& got) {
                long h = fn == V_MATCH ? ((const T&)a).match(typename U::Visit()) : ((const T&)a).match(typename U::VisitByValue());
                NoSut ns;
                got.push_back(h);
            }, {U::hash(join(ma))}, {{1}});
            break;
        case V_EQ: {
            TupEq<T, EQ>::go(a, b, ma == mb);
            TupEq<T, EQ>::go(a, a, true);
            // equal but for one part
            size_t which = (size_t)how % U::N;
            std::vector<long> vc = va;
            vc[which] = vb[which];
            Sut o2(false);
            T c = U::make(vc);
            NoSut n2;
            TupEq<T, EQ>::go(a, c, ma[which] == mb[which]);
            TupEq<T, EQ>::go(c, a, ma[which] == mb[which]);
            break;
        }
        case V_SWAP: {
            r = attempt([&] { efp::swap(a, b); }, g_faults);
            settle(r, false);
            drv::stats().checks++;
            Parts na = U::parts(a, how), nb = U::parts(b, how);
            for (size_t i = 0; i < U::N; i++)
                if (r == OK ? na[i] != mb[i] || nb[i] != ma[i] : (na[i] != ma[i] && na[i] != mb[i]) || (nb[i] != ma[i] && nb[i] != mb[i]))
                    sim::violation("contents", "part %zu of two Tuples holds %s and %s after %sswap, before %s and %s", i, show(na[i]).c_str(), show(nb[i]).c_str(), r == OK ? "" : "a failed ",
                                   show(ma[i]).c_str(), show(mb[i]).c_str());
            ma = na, mb = nb;
            break;
        }
    }
    expect(join(U::parts(a, how + 1)), join(ma), "the first Tuple", r);
    expect(join(U::parts(b, how + 2)), join(mb), "the second Tuple", r);
}

// ------------------------------------------------------------- compositions
static long stepv(int k, long x) { return (x * (k + 2) + k) % 5003; }
template<typename E>
struct Step {
    int k;
    E operator()(const E& x) const {
        long v = Conv<E>::get(x);
        called({k, v});
        return Conv<E>::make(stepv(k, v));
    }
};
template<typename E>
struct Start {
    E operator()(const E& x, int y, const E& z) const {
        long v = Conv<E>::get(x), w = Conv<E>::get(z);
        called({99, v, y, w});
        return Conv<E>::make((v * 3 + y * 5 + w * 7) % 5003);
    }
};
template<typename E>
static E plain_step(const E& x) {
    return Step<E> {7}(x);
}
template<typename E>
static void compose_op(int fn, long seed, int how) {
    long v = seed % 4999;
    Sut o1(false);
    const E x = Conv<E>::make(v), z = Conv<E>::make(v / 2 + 1);
    NoSut n1;
    Outcome r;
    Step<E> f1 {1}, f2 {2}, f3 {3}, f4 {4}, f5 {5};
    Start<E> st;
    Calls calls;
    long cur = v;
    auto run = [&](std::initializer_list<int> ks) {
        for (int k : ks) calls.push_back({k, cur}), cur = stepv(k, cur);
    };
    auto read = [](Model& got, const E& e) {
        take<E>(got, e);
    };
    int twice = 1 + how % 2;
    switch (fn) {
        case V_COMPOSE2:
            for (int i = 0; i < twice; i++) run({2, 1});
            r = judge([&](Model& got) {
                auto c = efp::compose(f1, f2);
                if (twice == 2) {
                    E once = c(x);
                    read(got, c(once));
                } else read(got, c(x));
            }, {cur}, calls);
            break;
        case V_COMPOSE3:
            run({3, 7, 1});
            r = judge([&](Model& got) { read(got, efp::compose(f1, plain_step<E>, f3)(x)); }, {cur}, calls);
            break;
        case V_COMPOSE5:
            for (int i = 0; i < twice; i++) run({5, 4, 3, 2, 1});
            r = judge([&](Model& got) {
                const auto c = efp::compose(f1, f2, f3, f4, f5);
                if (twice == 2) read(got, c(c(x)));
                else read(got, c(x));
            }, {cur}, calls);
            break;
        case V_COMPOSEN:
            calls.push_back({99, v, how, v / 2 + 1});
            cur = (v * 3 + (long)how * 5 + (v / 2 + 1) * 7) % 5003;
            run({2, 1});
            r = judge([&](Model& got) { read(got, efp::compose(f1, f2, st)(x, how, z)); }, {cur}, calls);
            break;
        case V_ID:
            r = judge([&](Model& got) { read(got, efp::id(x)); }, {v}, {});
            break;
        default: {
            run({4});
            r = judge([&](Model& got) {
                auto f = [&](const E& e) { return f4(e); };
                E (*p)(const E&) = efp::func_ptr(f);
                read(got, p(x));
            }, {cur}, calls);
        }
    }
    expect(one(x), mdl<E>(v), "the argument", r);
    expect(one(z), mdl<E>(v / 2 + 1), "the last argument", r);
}

// ------------------------------------------------------------- Maybe
template<typename E>
struct Half {
    Maybe<E> operator()(const E& x) const {
        long v = Conv<E>::get(x);
        called({8, v});
        if (v % 2) return efp::nothing;
        return Conv<E>::make(v / 2);
    }
};
template<typename E>
struct Widen {
    Vector<E> operator()(const E& x) const {
        long v = Conv<E>::get(x);
        called({9, v});
        return Num<Vector<E>>::make(v);
    }
};
template<typename E>
static void maybe_op(int fn, long seed, int how) {
    long v = seed % 999;
    bool none = how % 4 == 0, no_f = how % 5 == 0;
    Sut o1(false);
    Maybe<E> m;
    if (!none) m = Maybe<E>(Conv<E>::make(v));
    const Maybe<E>& cm = m;
    E plain = Conv<E>::make(v);
    NoSut n1;
    Step<E> f {3};
    Half<E> h;
    Widen<E> wd;
    Calls calls;
    Outcome r;
    Model want;
    auto add = [](Model& got, const Maybe<E>& x) {
        take<Maybe<E>>(got, x);
    };
    auto just = [](long x) { return Model {0, x}; };
    const Model empty {1};
    switch (fn) {
        case V_FMAP:
        case V_FMAPM:
            if (how % 3 == 0) {  // to another type
                want = empty;
                if (!none) calls = {{9, v}}, want = {0}, Num<Vector<E>>::model(want, v);
                r = judge([&](Model& got) {
                    Maybe<Vector<E>> y = fn == V_FMAP ? efp::fmap(wd, cm) : m.fmap(wd);
                    {
                        NoSut ns;
                        got.push_back(y.is_nothing());
                    }
                    if (y) take<Vector<E>>(got, y.template get<Vector<E>>());
                }, want, calls);
            } else {
                if (!none) calls = {{3, v}};
                r = judge([&](Model& got) { add(got, fn == V_FMAP ? efp::fmap(f, cm) : m.fmap(f)); }, none ? empty : just(stepv(3, v)), calls);
            }
            break;
        case V_AP:
        case V_APM: {
            typedef Step<E> F;
            Sut o2(false);
            Maybe<F> mf;
            if (!no_f) mf = Maybe<F>(f);
            NoSut n2;
            bool nil = none || no_f;
            if (!nil) calls = {{3, v}};
            r = judge([&](Model& got) { add(got, fn == V_AP ? efp::ap((const Maybe<F>&)mf, cm) : m.ap(mf)); }, nil ? empty : just(stepv(3, v)), calls);
            break;
        }
        case V_BIND:
        case V_BINDM:
        case V_BINDOP:
            if (!none) calls = {{8, v}};
            r = judge([&](Model& got) { add(got, fn == V_BIND ? efp::bind(cm, h) : fn == V_BINDM ? m.bind(h) : m >>= h); }, none || v % 2 ? empty : just(v / 2), calls);
            break;
        case V_PURE:
            r = judge([&](Model& got) { add(got, how % 2 ? efp::pure<Maybe<E>>(plain) : Maybe<E>::template pure<int>(plain)); }, just(v), {});
            break;
        default: {  // V_CHAIN
            bool a1 = !none, a2 = a1 && v % 2 == 0;
            long v1 = v / 2, v2 = stepv(3, v1);
            bool a3 = a2 && v2 % 2 == 0;
            if (a1) calls.push_back({8, v});
            if (a2) calls.push_back({3, v1}), calls.push_back({8, v2});
            r = judge([&](Model& got) {
                Maybe<E> y = efp::bind(efp::fmap(f, efp::bind(cm, h)), h);
                add(got, y);
            }, a3 ? just(v2 / 2) : empty, calls);
        }
    }
    expect(one(m), none ? empty : just(v), "the Maybe", r);
    expect(one(plain), {v}, "the argument", r);
}

// ------------------------------------------------------------- swap of single values
template<typename A, bool MAY_FAIL>
static void swap_op(long seed) {
    long v = seed % 93, w = (seed / 93) % 93;
    Sut o1(false);
    A a = Num<A>::make(v), b = Num<A>::make(w);
    NoSut n1;
    Outcome r = attempt([&] { efp::swap(a, b); }, g_faults);
    settle(r, false);
    drv::stats().checks++;
    if (!MAY_FAIL && r != OK) sim::violation("false-failure", "swap fails although moving its arguments does not");
    if (r == OK) {
        expect(one(a), mdl<A>(w), "the first value", r);
        expect(one(b), mdl<A>(v), "the second value", r);
    }
}

// ------------------------------------------------------------- statistics
static void near(const char* what, double got, double want, double scale) {
    if (!(fabs(got - want) <= 1e-9 * (scale + fabs(want)))) sim::violation("result", "%s gives %.17g, expected %.17g", what, got, want);
}
static const char* const sname[] = {"mean", "rms", "sse", "mse", "rmse", "nrmse_mean", "nrmse_max_min", "variance", "variance, corrected", "standard_deviation", "covariance", "covariance, corrected",
                                    "correlation", "autocovariance", "autocovariance, adjusted", "autocorrelation", "remove_dc", "linear_regression", "linear_regression_with_index", "detrend",
                                    "sum", "product", "max_elem", "min_elem", "max_min", "standard_deviation, corrected", "correlation, corrected", "autocovariance, corrected",
                                    "autocovariance, corrected and adjusted", "autocorrelation, corrected", "autocorrelation, adjusted", "abs and square"};
static const int NS = 32;
struct FillV {
    typedef Vector<double> C;
    static size_t len(size_t n) { return n; }
};
struct FillA {
    typedef Array<double, 4> C;
    static size_t len(size_t) { return 4; }
};
struct FillAV {
    typedef ArrVec<double, 6> C;
    static size_t len(size_t n) { return n < 6 ? n : 6; }
};
struct FillI {  // whole numbers
    typedef Vector<int> C;
    static size_t len(size_t n) { return n; }
};
static void put(Vector<int>& c, const std::vector<double>& v) { for (double x : v) c.push_back((int)x); }
static void put(Vector<double>& c, const std::vector<double>& v) { for (double x : v) c.push_back(x); }
static void put(ArrVec<double, 6>& c, const std::vector<double>& v) { for (double x : v) c.push_back(x); }
static void put(Array<double, 4>& c, const std::vector<double>& v) { for (size_t i = 0; i < 4; i++) c[i] = v[i]; }
template<typename M>
static void stat_op(long seed, int which, size_t n) {
    typedef typename M::C C;
    n = M::len(n < 3 ? 3 : n);
    std::vector<double> x(n), y(n);
    Rng g((uint64_t)seed);
    for (size_t i = 0; i < n; i++) x[i] = (double)((long)g.below(41)) - 20, y[i] = (double)((long)g.below(41)) - 18;
    x[0] = 21, x[1] = -21, y[0] = -19, y[1] = 30;  // never constant
    y[2] += 1000;                                  // never of mean zero
    if (seed % 5 == 0)
        for (double& v : x) v -= 60;  // all of one sign
    if (seed % 5 == 1)
        for (double& v : x) v += 60;
    which %= NS;
    if (which == 21 && n > (std::is_same<M, FillI>::value ? 4u : 150u)) which = 20;
    static char name[64];
    snprintf(name, sizeof name, "%s", sname[which]);
    g_what = name;
    double N = (double)n, mx = 0, my = 0, sxx = 0, sxy = 0, syy = 0, sq = 0, se = 0;
    for (size_t i = 0; i < n; i++) mx += x[i] / N, my += y[i] / N, sq += x[i] * x[i], se += (x[i] - y[i]) * (x[i] - y[i]);
    for (size_t i = 0; i < n; i++) sxx += (x[i] - mx) * (x[i] - mx), syy += (y[i] - my) * (y[i] - my), sxy += (x[i] - mx) * (y[i] - my);
    double ymax = y[0], ymin = y[0], prod = 1, xmax = x[0], xmin = x[0], sum = 0;
    for (size_t i = 0; i < n; i++) {
        ymax = y[i] > ymax ? y[i] : ymax, ymin = y[i] < ymin ? y[i] : ymin;
        xmax = x[i] > xmax ? x[i] : xmax, xmin = x[i] < xmin ? x[i] : xmin;
        prod *= x[i], sum += x[i];
    }
    size_t lag = (size_t)seed % (n - 1);  // n - lag is at least 2
    double ac = 0;
    for (size_t i = 0; i + lag < n; i++) ac += (x[i] - mx) * (x[i + lag] - mx);
    double si = 0, sii = 0;
    for (size_t i = 0; i < n; i++) si += ((double)i - (N - 1) / 2) * (x[i] - mx), sii += ((double)i - (N - 1) / 2) * ((double)i - (N - 1) / 2);
    double b1 = si / sii, b0 = mx - b1 * (N - 1) / 2;
    Sut o1(false);
    C cx {}, cy {};
    put(cx, x), put(cy, y);
    const C &as = cx, &bs = cy;
    NoSut n1;
    double got = 0, got2 = 0, want = 0, want2 = 0, scale = 1;
    bool pair = false, seq = false;
    std::vector<double> wants;
    static double out[4000];
    size_t outn = 0;
    Outcome r = judge([&](Model&) {
        switch (which) {
            case 0: got = efp::mean<double>(as), want = mx; break;
            case 1: got = efp::rms<double>(as), want = ::sqrt(sq / N); break;
            case 2: got = efp::sse<double>(as, bs), want = se; break;
            case 3: got = efp::mse<double>(as, bs), want = se / N; break;
            case 4: got = efp::rmse<double>(as, bs), want = ::sqrt(se / N); break;
            case 5: got = efp::nrmse_mean<double>(as, bs), want = ::sqrt(se / N) / my; break;
            case 6: got = efp::nrmse_max_min<double>(as, bs), want = ::sqrt(se / N) / (ymax - ymin); break;
            case 7: got = efp::variance<double>(as), want = sxx / N; break;
            case 8: got = efp::variance<double, true>(as), want = sxx / (N - 1); break;
            case 9: got = efp::standard_deviation<double>(as), want = ::sqrt(sxx / N); break;
            case 10: got = efp::covariance<double>(as, bs), want = sxy / N, scale = sxx + syy; break;
            case 11: got = efp::covariance<double, true>(as, bs), want = sxy / (N - 1), scale = sxx + syy; break;
            case 12: got = efp::correlation<double>(as, bs), want = sxy / ::sqrt(sxx * syy); break;
            case 13: got = efp::autocovariance<double>(as, (int)lag), want = ac / N, scale = sxx; break;
            case 14: got = efp::autocovariance<double, false, true>(as, (int)lag), want = ac / (double)(n - lag), scale = sxx; break;
            case 15: got = efp::autocorrelation<double>(as, (int)lag), want = ac / sxx; break;
            case 16: {
                const auto d = efp::remove_dc<double>(as);
                outn = (size_t)efp::length(d);
                for (size_t i = 0; i < outn && i < 4000; i++) out[i] = efp::nth(i, d);
                seq = true, scale = 20;
                NoSut ns;
                for (size_t i = 0; i < n; i++) wants.push_back(x[i] - mx);
                break;
            }
            case 17: {
                const auto t = efp::linear_regression<double>(as, bs);
                got = t.template get<0>(), got2 = efp::snd(t), want = sxy / sxx, want2 = my - want * mx, pair = true, scale = 1000;
                break;
            }
            case 18: {
                const auto t = efp::linear_regression_with_index<double>(as);
                got = efp::fst(t), got2 = t.template get<1>(), want = b1, want2 = b0, pair = true, scale = 100;
                break;
            }
            case 19: {
                const auto d = efp::detrend<double>(as);
                outn = (size_t)efp::length(d);
                for (size_t i = 0; i < outn && i < 4000; i++) out[i] = efp::nth(i, d);
                seq = true, scale = 100;
                NoSut ns;
                for (size_t i = 0; i < n; i++) wants.push_back(x[i] - (b1 * (double)i + b0));
                break;
            }
            case 20: got = efp::sum(as), want = sum; break;
            case 21: got = efp::product(as), want = prod; break;
            case 22: got = efp::max_elem(as), want = xmax; break;
            case 23: got = efp::min_elem(as), want = xmin; break;
            case 24: got = efp::max_min(as), want = xmax - xmin; break;
            case 25: got = efp::standard_deviation<double, true>(as), want = ::sqrt(sxx / (N - 1)); break;
            case 26: got = efp::correlation<double, true>(as, bs), want = sxy / ::sqrt(sxx * syy); break;
            case 27: got = efp::autocovariance<double, true>(as, (int)lag), want = ac / (N - 1), scale = sxx; break;
            case 28: got = efp::autocovariance<double, true, true>(as, (int)lag), want = ac / (double)(n - lag - 1), scale = sxx; break;
            case 29: got = efp::autocorrelation<double, true>(as, (int)lag), want = ac / sxx; break;
            case 30: got = efp::autocorrelation<double, false, true>(as, (int)lag), want = ac / (double)(n - lag) / (sxx / N); break;
            default:
                for (size_t i = 0; i < n; i++) {
                    got += (double)efp::abs(as[i]) * (double)(i % 7 + 1) + (double)efp::square(bs[i]);
                    want += fabs(x[i]) * (double)(i % 7 + 1) + y[i] * y[i];
                }
        }
    }, {}, {});
    if (r == OK) {
        if (seq) {
            if (outn != n) sim::violation("result", "%s gives %zu values for %zu", g_what, outn, n);
            for (size_t i = 0; i < n; i++) near(g_what, out[i], wants[i], scale);
        } else near(g_what, got, want, scale);
        if (pair) near(g_what, got2, want2, scale);
    }
    for (size_t i = 0; i < n; i++)
        if (as[i] != x[i] || bs[i] != y[i]) sim::violation("not-unchanged", "%s changes its arguments", g_what);
}

template<typename E>
static void value_op(const std::vector<long>& op) {
    int fn = (int)op[0], shape = (int)op[1], how = (int)op[2];
    long seed = op[3];
    if (fn < 0 || fn >= NV || shape < 0 || how < 0 || seed < 0) return;
    g_what = vname[fn];
    sim::op_tag(fn + 1);
    switch (fn) {
        case V_COMPOSE2: case V_COMPOSE3: case V_COMPOSE5: case V_COMPOSEN: case V_ID: case V_FUNCPTR: return compose_op<E>(fn, seed, how);
        case V_FMAP: case V_FMAPM: case V_AP: case V_APM: case V_BIND: case V_BINDM: case V_BINDOP: case V_PURE: case V_CHAIN: return maybe_op<E>(fn, seed, how);
        case V_STAT:
            switch (shape % 4) {
                case 3: return stat_op<FillI>(seed, how, (size_t)shape);
                case 0: return stat_op<FillV>(seed, how, (size_t)shape);
                case 1: return stat_op<FillA>(seed, how, (size_t)shape);
                default: return stat_op<FillAV>(seed, how, (size_t)shape);
            }
        case V_SWAP:
            if (how % 2) {
                switch (shape % 5) {
                    case 4: return swap_op<Pod, false>(seed);
                    case 0: return swap_op<E, false>(seed);
                    case 1: return swap_op<Vector<E>, false>(seed);
                    case 2: return swap_op<Maybe<E>, false>(seed);
                    default: return swap_op<Vector<String>, false>(seed);
                }
            }
    }
    switch (shape % 5) {
        case 0: return tuple_op<efp::Tuple<E>, CanEq<E>::value>(fn, seed, how);
        case 1: return tuple_op<efp::Tuple<E, E>, CanEq<E>::value>(fn, seed, how);
        case 2: return tuple_op<efp::Tuple<E, Vector<E>, Maybe<E>>, false>(fn, seed, how);
        case 3: return tuple_op<efp::Tuple<E, double, Pod, bool, E>, CanEq<E>::value>(fn, seed, how);
        default: return tuple_op<efp::Tuple<TElem, int, String, Vector<int>, E, Pod, TElem>, false>(fn, seed, how);
    }
}

namespace drv {
// cfg: element faults
void gen(const std::string&, uint64_t seed, bool thorough, Rec& r, sim::Policy& p) {
    Rng g(seed);
    bool faults = g.below(4) != 0;
    r.scen = "value";
    r.cfg = {(long)g.below(4), faults};
    int n = 1 + (int)g.below(thorough ? 10 : 5);
    for (int i = 0; i < n; i++) {
        long fn = g.below(7) ? (long)g.below(NV) : (long)V_STAT;
        long shape = fn == V_STAT ? (long)g.below(g.below(8) ? 9 : g.below(100) ? 150 : 3000) : (long)g.below(20);
        r.ops.push_back({fn, shape, (long)g.below(fn == V_STAT ? 32 : 60), (long)g.below(100000)});
    }
    p.mode = 2;
    if (faults) fault_policy(g, p, 30, true);
}
const char* op_name(const Rec&, const std::vector<long>& op, char* buf, size_t n) {
    snprintf(buf, n, "%s", op[0] >= 0 && op[0] < NV ? vname[op[0]] : "?");
    return buf;
}
template<typename E>
static void all(const Rec& r) {
    for (const auto& op : r.ops)
        if (op.size() >= 4) value_op<E>(op);
}
void exec(const Rec& r) {
    sim::set_step_limit(5000000);
    g_faults = r.cfg[1] != 0;
    switch (r.cfg[0]) {
        case 0: all<int>(r); break;
        case 1: all<TElem>(r); break;
        case 2: all<String>(r); break;
        default: all<TElem>(r);
    }
    no_leaks();
    drv::nontrivial_flag() = true;
}
}  // namespace drv
