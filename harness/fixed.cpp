// Containers with inline storage under failing element copies:
// C14 (Array, ArrVec), C15 (Vcb, Vcq), C16 (Enum, Maybe).
#include "cont.h"

static const int NP = 3;

// ------------------------------------------------------------- C14: Array
enum AOp { A_DEFAULT, A_COPY, A_MOVE, A_CASSIGN, A_MASSIGN, A_INIT, A_BADINIT, A_SET, A_EQ, A_RESIZE, A_RESERVE, A_DESTROY, NA };
static const char* const aname[NA] = {"construction",         "copy construction", "move construction", "copy assignment", "move assignment", "construction from a list",
                                      "construction from a list of another size", "assignment to an element", "==", "resize", "reserve", "destruction"};
template<typename E, size_t N>
struct Init {  // no lists for the large sizes
    static const bool can = false;
    static void make(void*, const E*) {}
    static void bad(void*, const E*) {}
};
template<typename E>
struct Init<E, 1> {
    static const bool can = true;
    static void make(void* m, const E* x) { new (m) Array<E, 1>({x[0]}); }
    static void bad(void* m, const E* x) { new (m) Array<E, 1>({x[0], x[1]}); }
};
template<typename E>
struct Init<E, 3> {
    static const bool can = true;
    static void make(void* m, const E* x) { new (m) Array<E, 3>({x[0], x[1], x[2]}); }
    static void bad(void* m, const E* x) { new (m) Array<E, 3>({x[0], x[1]}); }
};
template<typename E>
struct Init<E, 5> {
    static const bool can = true;
    static void make(void* m, const E* x) { new (m) Array<E, 5>({x[0], x[1], x[2], x[3], x[4]}); }
    static void bad(void* m, const E* x) { new (m) Array<E, 5>({x[0], x[1], x[2], x[3], x[4], x[0]}); }
};
// a row of values in simulated memory, for lists
template<typename E>
struct Row {
    E* e;
    int n;
    Row(long v, int cnt) : n(cnt) {
        e = (E*)sim::arena_alloc(sizeof(E) * 6);
        Sut q(false);
        for (int i = 0; i < n; i++) new (e + i) E(Conv<E>::make(v + i));
    }
    ~Row() {
        {
            Sut q(false);
            for (int i = 0; i < n; i++) e[i].~E();
        }
        sim::arena_free(e);
    }
};
template<typename E, typename C>
static void check_all(Obj<C>* o, Outcome r, const char* what, bool count, size_t per, size_t allocs) {
    size_t total = 0;
    for (int i = 0; i < NP; i++) {
        compare<E>(o[i], what, r);
        if (o[i].c) total += o[i].m.size() * per;
    }
    if (count && sim::live_objs() != total)
        sim::violation("lifetime", "%zu element objects are alive after %s, expected %zu", sim::live_objs(), g_what, total);
    if (allocs != (size_t)-1 && sim::alloc_calls() != allocs) sim::violation("allocation", "%s allocates memory", g_what);
}

template<typename E, size_t N>
static void exec_array(const Rec& r) {
    typedef Array<E, N> C;
    bool faults = r.cfg[3] != 0, count = std::is_same<E, TElem>::value, plain = std::is_same<E, int>::value || std::is_same<E, Pod>::value;
    static Obj<C> o[NP];
    for (int i = 0; i < NP; i++) {
        o[i] = Obj<C>();
        g_what = aname[0];
        construct(o[i], [&](void* m) { new (m) C(); }, false);
        o[i].m.assign(N, 0);
        o[i].m = contents<E>(*o[i].c, "an Array");
        if (!plain && o[i].m != Model(N, 0)) sim::violation("contents", "a new Array holds %s", show(o[i].m).c_str());
    }
    for (const auto& op : r.ops) {
        int k = (int)op[0];
        if (k < 0 || k >= NA) continue;
        Obj<C>& a = o[op[1] % NP];
        Obj<C>& b = o[op[2] % NP];
        long p = op[3], v = op[4];
        g_what = aname[k];
        sim::op_tag(k + 1);
        Outcome res = OK;
        size_t al = plain ? sim::alloc_calls() : (size_t)-1;
        switch (k) {
            case A_DEFAULT:
                res = construct(a, [&](void* m) { new (m) C(); }, faults);
                if (settle(res, false)) a.m = plain ? contents<E>(*a.c, "an Array") : Model(N, 0);
                break;
            case A_COPY: {
                Model src = b.m;
                res = construct(a, [&](void* m) { new (m) C(*(const C*)b.c); }, faults);
                if (settle(res, false)) a.m = src;
                break;
            }
            case A_MOVE:
                if (&a == &b) break;
                res = construct(a, [&](void* m) { new (m) C(efp::move(*b.c)); }, faults);
                if (settle(res, false)) {
                    a.m = b.m;
                    b.m = contents<E>(*b.c, "a moved-from Array");
                }
                break;
            case A_CASSIGN:
                res = attempt([&] { *a.c = *(const C*)b.c; }, faults);
                if (settle(res, false)) a.m = Model(b.m);
                break;
            case A_MASSIGN:
                res = attempt([&] { *a.c = efp::move(*b.c); }, faults);
                if (settle(res, false) && &a != &b) {
                    a.m = b.m;
                    b.m = contents<E>(*b.c, "a moved-from Array");
                }
                break;
            case A_INIT:
            case A_BADINIT: {
                if (!Init<E, N>::can) break;
                Row<E> x(v, 6);
                res = construct(a, [&](void* m) { k == A_INIT ? Init<E, N>::make(m, x.e) : Init<E, N>::bad(m, x.e); }, faults);
                if (k == A_BADINIT) al = (size_t)-1;  // an exception may allocate
                if (settle(res, k == A_BADINIT)) {
                    a.m.clear();
                    for (size_t i = 0; i < N; i++) a.m.push_back(v + (long)i);
                }
                break;
            }
            case A_SET: {
                size_t i = (size_t)p % N;
                Row<E> x(v, 1);
                res = attempt([&] { (*a.c)[i] = x.e[0]; }, faults);
                if (settle(res, false)) a.m[i] = v;
                break;
            }
            case A_EQ: {
                if (!CanEq<E>::value) break;
                bool eq = false;
                res = attempt([&] { eq = Eq<E, C>::eq(*a.c, *b.c); }, faults);
                if (settle(res, false) && eq != (a.m == b.m)) sim::violation("contents", "== is %d for %s and %s", eq, show(a.m).c_str(), show(b.m).c_str());
                break;
            }
            case A_RESIZE:
            case A_RESERVE: {
                size_t w = (size_t)p % (N + 3);
                res = attempt([&] { k == A_RESIZE ? a.c->resize(w) : a.c->reserve(w); }, faults);
                if (res != OK) al = (size_t)-1;
                settle(res, k == A_RESIZE ? w != N : w > N);
                break;
            }
            case A_DESTROY:
                destroy(a);
                construct(a, [&](void* m) { new (m) C(); }, false);
                a.m = contents<E>(*a.c, "an Array");
                break;
        }
        check_all<E>(o, res, "an Array", count, 1, al);
    }
    g_what = "destruction";
    for (int i = 0; i < NP; i++) destroy(o[i]);
    no_leaks();
}

// ------------------------------------------------------------- C14: ArrVec
enum BOp {
    B_DEFAULT, B_COPY, B_MOVE, B_CASSIGN, B_MASSIGN, B_INIT, B_CONVERT, B_PUSH, B_PUSHSELF, B_PUSHMOVE, B_POP, B_INSERT, B_INSERTSELF, B_ERASE, B_CLEAR, B_RESIZE,
    B_RESERVE, B_EQ, B_SET, B_DESTROY, B_BULK, NB
};
static const char* const bname[NB] = {"construction", "copy construction", "move construction", "copy assignment", "move assignment", "construction from a list",
                                      "conversion from a smaller ArrVec", "push_back", "push_back of an own element", "push_back of a temporary", "pop_back", "insert",
                                      "insert of an own element", "erase", "clear", "resize", "reserve", "==", "assignment to an element", "destruction", "a row of push_backs"};
template<typename E, size_t N>
static void exec_arrvec(const Rec& r) {
    typedef ArrVec<E, N> C;
    bool faults = r.cfg[3] != 0, count = std::is_same<E, TElem>::value, plain = std::is_same<E, int>::value || std::is_same<E, Pod>::value;
    static Obj<C> o[NP];
    for (int i = 0; i < NP; i++) {
        o[i] = Obj<C>();
        g_what = bname[0];
        construct(o[i], [&](void* m) { new (m) C(); }, false);
    }
    for (const auto& op : r.ops) {
        int k = (int)op[0];
        if (k < 0 || k >= NB) continue;
        Obj<C>& a = o[op[1] % NP];
        Obj<C>& b = o[op[2] % NP];
        long p = op[3], v = op[4];
        g_what = bname[k];
        sim::op_tag(k + 1);
        Outcome res = OK;
        size_t n = a.m.size();
        size_t al = plain ? sim::alloc_calls() : (size_t)-1;
        switch (k) {
            case B_DEFAULT:
                res = construct(a, [&](void* m) { new (m) C(); }, faults);
                if (settle(res, false)) a.m.clear();
                break;
            case B_COPY: {
                Model src = b.m;
                res = construct(a, [&](void* m) { new (m) C(*(const C*)b.c); }, faults);
                if (settle(res, false)) a.m = src;
                break;
            }
            case B_MOVE:
                if (&a == &b) break;
                res = construct(a, [&](void* m) { new (m) C(efp::move(*b.c)); }, faults);
                if (settle(res, false)) a.m = b.m;
                break;
            case B_CASSIGN:
                res = attempt([&] { *a.c = *(const C*)b.c; }, faults);
                if (settle(res, false)) a.m = Model(b.m);
                break;
            case B_MASSIGN:
                res = attempt([&] { *a.c = efp::move(*b.c); }, faults);
                if (settle(res, false)) a.m = Model(b.m);
                break;
            case B_INIT: {
                Row<E> x(v, 6);
                size_t cnt = (size_t)p % 7;
                const E* e = x.e;
                res = construct(a, [&](void* m) {
                    switch (cnt) {
                        case 0: new (m) C(efp::InitializerList<E> {}); break;
                        case 1: new (m) C({e[0]}); break;
                        case 2: new (m) C({e[0], e[1]}); break;
                        case 3: new (m) C({e[0], e[1], e[2]}); break;
                        case 4: new (m) C({e[0], e[1], e[2], e[3]}); break;
                        case 5: new (m) C({e[0], e[1], e[2], e[3], e[4]}); break;
                        default: new (m) C({e[0], e[1], e[2], e[3], e[4], e[5]});
                    }
                }, faults);
                if (settle(res, cnt > N)) {
                    a.m.clear();
                    for (size_t i = 0; i < cnt; i++) a.m.push_back(v + (long)i);
                }
                break;
            }
            case B_CONVERT: {
                static const size_t M = N > 1 ? N - 1 : 1;
                size_t cnt = (size_t)p % (M + 1);
                typedef ArrVec<E, M> S;
                S* src = (S*)sim::arena_place(sizeof(S), alignof(S));
                {
                    Sut q(false);
                    new (src) S();
                    for (size_t i = 0; i < cnt; i++) src->push_back(Conv<E>::make(v + (long)i));
                }
                res = construct(a, [&](void* m) { new (m) C((const S&)*src); }, faults);
                if (settle(res, false)) {
                    a.m.clear();
                    for (size_t i = 0; i < cnt; i++) a.m.push_back(v + (long)i);
                }
                {
                    Sut q(false);
                    src->~S();
                }
                sim::arena_free(src);
                break;
            }
            case B_PUSH:
            case B_PUSHMOVE: {
                Row<E> x(v, 1);
                res = attempt([&] {
                    if (k == B_PUSH) a.c->push_back((const E&)x.e[0]);
                    else a.c->push_back(efp::move(x.e[0]));
                }, faults);
                if (settle(res, n == N)) a.m.push_back(v);
                break;
            }
            case B_PUSHSELF: {
                if (!n) break;
                size_t i = (size_t)p % n;
                res = attempt([&] { a.c->push_back((*(const C*)a.c)[i]); }, faults);
                if (settle(res, n == N)) a.m.push_back(long(a.m[i]));
                break;
            }
            case B_BULK:
                for (long i = 0; i < p * (long)(N / 8) && res == OK && a.m.size() < N; i++) {
                    Row<E> x(v + i, 1);
                    res = attempt([&] { a.c->push_back((const E&)x.e[0]); }, faults);
                    if (settle(res, false)) a.m.push_back(v + i);
                }
                break;
            case B_POP:
                res = attempt([&] { a.c->pop_back(); }, faults);
                if (settle(res, n == 0)) a.m.pop_back();
                break;
            case B_INSERT: {
                size_t i = (size_t)p % (n + 2);
                Row<E> x(v, 1);
                res = attempt([&] { a.c->insert(i, x.e[0]); }, faults);
                if (settle(res, i > n || n == N)) a.m.insert(a.m.begin() + (long)i, v);
                break;
            }
            case B_INSERTSELF: {
                if (!n) break;
                size_t i = (size_t)p % (n + 1), j = (size_t)v % n;
                res = attempt([&] { a.c->insert(i, (*(const C*)a.c)[j]); }, faults);
                if (settle(res, n == N)) {
                    long x = a.m[j];
                    a.m.insert(a.m.begin() + (long)i, x);
                }
                break;
            }
            case B_ERASE: {
                size_t i = (size_t)p % (n + 1);
                res = attempt([&] { a.c->erase(i); }, faults);
                if (settle(res, i >= n)) a.m.erase(a.m.begin() + (long)i);
                break;
            }
            case B_CLEAR:
                res = attempt([&] { a.c->clear(); }, faults);
                if (settle(res, false)) a.m.clear();
                break;
            case B_RESIZE: {
                size_t w = (size_t)p % (N + 3);
                res = attempt([&] { a.c->resize(w); }, faults);
                if (settle(res, w > N)) a.m.resize(w, 0);
                break;
            }
            case B_RESERVE: {
                size_t w = (size_t)p % (N + 3);
                res = attempt([&] { a.c->reserve(w); }, faults);
                settle(res, w > N);
                break;
            }
            case B_EQ: {
                if (!CanEq<E>::value) break;
                bool eq = false;
                res = attempt([&] { eq = Eq<E, C>::eq(*a.c, *b.c); }, faults);
                if (settle(res, false) && eq != (a.m == b.m)) sim::violation("contents", "== is %d for %s and %s", eq, show(a.m).c_str(), show(b.m).c_str());
                break;
            }
            case B_SET: {
                if (!n) break;
                size_t i = (size_t)p % n;
                Row<E> x(v, 1);
                res = attempt([&] { (*a.c)[i] = x.e[0]; }, faults);
                if (settle(res, false)) a.m[i] = v;
                break;
            }
            case B_DESTROY:
                destroy(a);
                construct(a, [&](void* m) { new (m) C(); }, false);
                a.m.clear();
                break;
        }
        if (res != OK) al = (size_t)-1;
        if (res == OK && (k == B_MOVE || k == B_MASSIGN) && &a != &b) b.m = contents<E>(*b.c, "a moved-from ArrVec");
        check_all<E>(o, res, "an ArrVec", count, 1, al);
    }
    g_what = "destruction";
    for (int i = 0; i < NP; i++) destroy(o[i]);
    no_leaks();
}

// ------------------------------------------------------------- C15
enum COp { C_DEFAULT, C_COPY, C_MOVE, C_CASSIGN, C_MASSIGN, C_PUSH, C_PUSHSELF, C_PUSHMOVE, C_POP, C_DESTROY, C_SELFASSIGN, C_BULK, C_LONG, NC };
static const char* const cname[NC] = {"construction", "copy construction", "move construction", "copy assignment", "move assignment", "push_back", "push_back of an own element",
                                      "push_back of a temporary", "pop_front", "destruction", "self-assignment", "a row of push_backs", "more than 65000 push_backs"};
template<typename C>
struct Ring;
template<typename E, size_t N>
struct Ring<Vcb<E, N>> {
    static const bool queue = false;
    static const char* name() { return "a Vcb"; }
    static E pop(Vcb<E, N>&) { return Conv<E>::make(0); }
};
template<typename E, size_t N>
struct Ring<Vcq<E, N>> {
    static const bool queue = true;
    static const char* name() { return "a Vcq"; }
    static E pop(Vcq<E, N>& q) { return q.pop_front(); }
};
template<typename E, size_t N, typename C>
static void exec_ring(const Rec& r) {
    bool faults = r.cfg[3] != 0, plain = std::is_same<E, int>::value || std::is_same<E, Pod>::value;
    const bool q = Ring<C>::queue;
    const char* name = Ring<C>::name();
    static Obj<C> o[NP];
    auto fresh = [&](Obj<C>& a) { a.m = q ? Model() : plain ? contents<E>(*a.c, name) : Model(N, 0); };
    for (int i = 0; i < NP; i++) {
        o[i] = Obj<C>();
        g_what = cname[0];
        construct(o[i], [&](void* m) { new (m) C(); }, false);
        fresh(o[i]);
    }
    for (const auto& op : r.ops) {
        int k = (int)op[0];
        if (k < 0 || k >= NC) continue;
        Obj<C>& a = o[op[1] % NP];
        Obj<C>& b = o[op[2] % NP];
        long p = op[3], v = op[4];
        g_what = cname[k];
        sim::op_tag(k + 1);
        Outcome res = OK;
        size_t n = a.m.size();
        bool moved = false;
        auto pushed = [&](long x) {
            a.m.push_back(x);
            if (a.m.size() > N) a.m.erase(a.m.begin());
        };
        switch (k) {
            case C_DEFAULT:
                res = construct(a, [&](void* m) { new (m) C(); }, faults);
                if (settle(res, false)) fresh(a);
                break;
            case C_COPY: {
                Model src = b.m;
                res = construct(a, [&](void* m) { new (m) C(*(const C*)b.c); }, faults);
                if (settle(res, false)) a.m = src;
                break;
            }
            case C_MOVE:
                if (&a == &b) break;
                res = construct(a, [&](void* m) { new (m) C(efp::move(*b.c)); }, faults);
                if (settle(res, false)) a.m = b.m, moved = true;
                break;
            case C_CASSIGN:
                res = attempt([&] { *a.c = *(const C*)b.c; }, faults);
                if (settle(res, false)) a.m = Model(b.m);
                break;
            case C_SELFASSIGN:
                res = attempt([&] { *a.c = *(const C*)a.c; }, faults);
                settle(res, false);
                break;
            case C_MASSIGN:
                res = attempt([&] { *a.c = efp::move(*b.c); }, faults);
                if (settle(res, false)) a.m = Model(b.m), moved = &a != &b;
                break;
            case C_PUSH:
            case C_PUSHMOVE: {
                Row<E> x(v, 1);
                res = attempt([&] {
                    if (k == C_PUSH) a.c->push_back((const E&)x.e[0]);
                    else a.c->push_back(efp::move(x.e[0]));
                }, faults);
                if (settle(res, false)) pushed(v);
                break;
            }
            case C_PUSHSELF: {
                if (!n) break;
                size_t i = (size_t)p % n;
                res = attempt([&] { a.c->push_back((*(const C*)a.c)[i]); }, faults);
                if (settle(res, false)) pushed(long(a.m[i]));
                break;
            }
            case C_BULK:
                for (long i = 0; i < p * (long)(N / 8) && res == OK; i++) {
                    Row<E> x(v + i, 1);
                    res = attempt([&] { a.c->push_back((const E&)x.e[0]); }, faults);
                    if (settle(res, false)) pushed(v + i);
                }
                break;
            case C_LONG:
                // past 65536 pushes; a queue is popped now and then
                for (long i = 0; i < 65000 + p * 20; i++) {
                    Row<E> x(v + i % 300, 1);
                    Sut s(false);
                    a.c->push_back((const E&)x.e[0]);
                    NoSut ns;
                    pushed(v + i % 300);
                    if (q && i % 5 > 1) {
                        long got;
                        {
                            Sut s2(false);
                            E y = Ring<C>::pop(*a.c);
                            got = Conv<E>::get(y);
                        }
                        if (got != a.m[0]) sim::violation("contents", "pop_front gives %ld, the oldest element is %ld", got, a.m[0]);
                        a.m.erase(a.m.begin());
                    }
                    if (a.c->size() != a.m.size() || (!a.m.empty() && Conv<E>::get((*(const C*)a.c)[a.m.size() / 2]) != a.m[a.m.size() / 2]))
                        sim::violation("contents", "after %ld further pushes the contents differ from the model", i + 1);
                }
                break;
            case C_POP: {
                if (!q || !n) break;  // popping an empty queue is documented as undefined
                long got = 0;
                res = attempt([&] {
                    E x = Ring<C>::pop(*a.c);
                    got = Conv<E>::get(x);
                }, faults);
                if (settle(res, false)) {
                    if (got != a.m[0]) sim::violation("contents", "pop_front gives %ld, the oldest element is %ld", got, a.m[0]);
                    a.m.erase(a.m.begin());
                }
                break;
            }
            case C_DESTROY:
                destroy(a);
                construct(a, [&](void* m) { new (m) C(); }, false);
                fresh(a);
                break;
        }
        if (moved) {
            // a moved-from ring is only assigned, pushed to or destroyed afterwards
            b.m = contents<E>(*b.c, "a moved-from ring");
        }
        check_all<E>(o, res, name, false, 1, (size_t)-1);
    }
    g_what = "destruction";
    for (int i = 0; i < NP; i++) destroy(o[i]);
    no_leaks();
}

// ------------------------------------------------------------- C16
template<int k>
struct Alt {
    TElem e;
    Alt() : e(0) {}
    explicit Alt(long v) : e(v) {}
    bool operator==(const Alt& o) const { return e == o.e; }
};
template<int k>
struct Conv<Alt<k>> {
    static Alt<k> make(long v) { return Alt<k>(v); }
    static long get(const Alt<k>& a) { return a.e.get(); }
};
template<>
struct Conv<efp::Nothing> {
    static efp::Nothing make(long) { return efp::Nothing(); }
    static long get(const efp::Nothing&) { return 0; }
};
enum EOp { E_DEFAULT, E_FROMCOPY, E_FROMMOVE, E_COPY, E_MOVE, E_CASSIGN, E_MASSIGN, E_SELFASSIGN, E_SETCOPY, E_SETMOVE, E_GET, E_GETI, E_MATCH, E_WILD, E_EQ, E_TAKE, E_NEST, E_DESTROY, NE };
static const char* const ename[NE] = {"construction",    "construction from a copied alternative",        "construction from a moved alternative", "copy construction",
                                      "move construction", "copy assignment",                             "move assignment",                       "self-assignment",
                                      "assignment of a copied alternative", "assignment of a moved alternative", "get",                            "get by index",
                                      "match",           "match with a wildcard",                         "==",                                    "move",
                                      "assignment within a Vector",      "destruction"};
struct Val {
    int i;
    long v;
};
// operations that depend on the alternative, one level of recursion per alternative
template<typename C, int i, typename... As>
struct Alts;
template<typename C, int i>
struct Alts<C, i> {
    static void from(void*, int, long, bool, bool, Outcome&, bool, C*) {}
    static void get(const C&, int, long*, bool*) {}
    static void take(C&, int, int, long*) {}
    static void refuse(C&, int, int) {}
};
template<typename... T>
static efp::detail::EnumBase<T...>& enum_base(efp::detail::EnumBase<T...>& b) {
    return b;
}
template<typename C, int i, typename A, typename... As>
struct Alts<C, i, A, As...> {
    // builds (mem) or assigns (to) alternative `want` with value v
    static void from(void* mem, int want, long v, bool mv, bool faults, Outcome& res, bool, C* to) {
        if (want != i) {
            Alts<C, i + 1, As...>::from(mem, want, v, mv, faults, res, false, to);
            return;
        }
        void* am = sim::arena_place(sizeof(A), alignof(A));
        A* x;
        {
            Sut q(false);
            x = new (am) A(Conv<A>::make(v));
        }
        res = attempt([&] {
            if (to) {
                if (mv) *to = efp::move(*x);
                else *to = *(const A*)x;
            } else {
                if (mv) new (mem) C(efp::move(*x));
                else new (mem) C(*(const A*)x);
            }
        }, faults);
        {
            Sut q(false);
            x->~A();
        }
        sim::arena_free(am);
    }
    // reads alternative i by type and by index; threw tells whether that was refused
    static void get(const C& c, int want, long* val, bool* threw) {
        if (want != i) {
            Alts<C, i + 1, As...>::get(c, want, val, threw);
            return;
        }
        *threw = false;
        try {
            const A& x = c.template get<A>();
            const A& y = c.template get<(uint8_t)i>();
            if (&x != &y) sim::violation("contents", "get by type and get by index differ");
            *val = Conv<A>::get(x);
        } catch (const efp::RuntimeError&) {
            *threw = true;
            try {
                (void)c.template get<(uint8_t)i>();
                sim::violation("contents", "get by type is refused, get by index is not");
            } catch (const efp::RuntimeError&) {
            }
        }
    }
    // moves alternative i out, by type or by index, through get or move
    static void take(C& c, int want, int form, long* val) {
        if (want != i) {
            Alts<C, i + 1, As...>::take(c, want, form, val);
            return;
        }
        auto& b = enum_base(c);
        A x(form == 0 ? efp::move(b.template get<A>()) : form == 1 ? efp::move(b.template get<(uint8_t)i>()) : form == 2 ? b.template move<A>() : b.template move<(uint8_t)i>());
        *val = Conv<A>::get(x);
    }
    // the same forms on another alternative must refuse
    static void refuse(C& c, int want, int form) {
        if (want != i) {
            Alts<C, i + 1, As...>::refuse(c, want, form);
            return;
        }
        auto& b = enum_base(c);
        try {
            if (form == 0) (void)b.template get<A>();
            else if (form == 1) (void)b.template get<(uint8_t)i>();
            else if (form == 2) (void)b.template move<A>();
            else (void)b.template move<(uint8_t)i>();
        } catch (const efp::RuntimeError&) {
            return;
        }
        sim::violation("contents", "index() is %d but form %d of get and move gives alternative %d", (int)c.index(), form, i);
    }
};
static bool cb_fail() { return sim::fault_here(sim::CB, sim::F_CB); }
template<typename C>
struct Matcher;
typedef Enum<int, TElem, String, Pod> E4;
typedef Enum<TElem, String> E2;
typedef Enum<TElem, Alt<1>, Alt<2>, Alt<3>, Alt<4>, Alt<5>, Alt<6>, Alt<7>, Alt<8>> E9;
typedef Enum<int, TElem, Pod, Alt<1>, Alt<2>> E5;
typedef Enum<String, int, TElem> E3;
typedef Enum<Alt<1>, int, Alt<2>, Alt<3>, Alt<4>, Alt<5>, Alt<6>, Alt<7>, Alt<8>, Alt<9>, Alt<10>, Alt<11>, Alt<12>, Alt<13>, Alt<14>, Alt<15>, Alt<16>, String, Alt<18>, Alt<19>> E20;
typedef Maybe<TElem> MT;
typedef Maybe<String> MS;
struct MV {
    int i;
    long v;
};
// each call of match gets branches of its own
static long match_call;
static long next_call() { return ++match_call; }
template<typename A>
static MV hit(int i, const A& a, long call) {
    if (call != match_call) sim::violation("contents", "match calls a branch that belongs to another call");
    if (cb_fail()) throw CallFail();
    return MV {i, Conv<A>::get(a)};
}
#define BR(T, i) [call](const T& x) { return hit(i, x, call); }
#define WILD [call]() { return hit(-1, 0, call); }
template<>
struct Matcher<E4> {
    static const int n = 4;
    static MV all(const E4& e, long call = next_call()) { return e.match(BR(int, 0), BR(TElem, 1), BR(String, 2), BR(Pod, 3)); }
    static MV wild(const E4& e, long call = next_call()) { return e.match(BR(String, 2), WILD); }
    static int wild_i() { return 2; }
};
template<>
struct Matcher<E2> {
    static const int n = 2;
    static MV all(const E2& e, long call = next_call()) { return e.match(BR(String, 1), BR(TElem, 0)); }
    static MV wild(const E2& e, long call = next_call()) { return e.match(BR(TElem, 0), WILD); }
    static int wild_i() { return 0; }
};
template<>
struct Matcher<E5> {
    static const int n = 5;
    static MV all(const E5& e, long call = next_call()) { return e.match(BR(int, 0), BR(TElem, 1), BR(Pod, 2), BR(Alt<1>, 3), BR(Alt<2>, 4)); }
    static MV wild(const E5& e, long call = next_call()) { return e.match(BR(Alt<2>, 4), WILD); }
    static int wild_i() { return 4; }
};
template<>
struct Matcher<E3> {
    static const int n = 3;
    static MV all(const E3& e, long call = next_call()) { return e.match(BR(String, 0), BR(TElem, 2), BR(int, 1)); }
    static MV wild(const E3& e, long call = next_call()) { return e.match(BR(TElem, 2), BR(int, 1), WILD); }
    static int wild_i() { return -1; }
};
template<>
struct Matcher<E20> {
    static const int n = 20;
    static MV all(const E20& e, long call = next_call()) {
        return e.match(BR(Alt<1>, 0), BR(int, 1), BR(Alt<2>, 2), BR(Alt<3>, 3), BR(Alt<4>, 4), BR(Alt<5>, 5), BR(Alt<6>, 6), BR(Alt<7>, 7), BR(Alt<8>, 8), BR(Alt<9>, 9),
                       BR(Alt<10>, 10), BR(Alt<11>, 11), BR(Alt<12>, 12), BR(Alt<13>, 13), BR(Alt<14>, 14), BR(Alt<15>, 15), BR(Alt<16>, 16), BR(String, 17),
                       BR(Alt<18>, 18), BR(Alt<19>, 19));
    }
    static MV wild(const E20& e, long call = next_call()) { return e.match(BR(Alt<18>, 18), WILD); }
    static int wild_i() { return 18; }
};
template<>
struct Matcher<E9> {
    static const int n = 9;
    static MV all(const E9& e, long call = next_call()) {
        return e.match(BR(TElem, 0), BR(Alt<1>, 1), BR(Alt<2>, 2), BR(Alt<3>, 3), BR(Alt<4>, 4), BR(Alt<5>, 5), BR(Alt<6>, 6), BR(Alt<7>, 7), BR(Alt<8>, 8));
    }
    static MV wild(const E9& e, long call = next_call()) { return e.match(BR(Alt<8>, 8), WILD); }
    static int wild_i() { return 8; }
};
template<>
struct Matcher<MT> {
    static const int n = 2;
    static MV all(const MT& e, long call = next_call()) { return e.match([](const efp::Nothing&) { return MV {0, 0}; }, BR(TElem, 1)); }
    static MV wild(const MT& e, long call = next_call()) { return e.match(BR(TElem, 1), WILD); }
    static int wild_i() { return 1; }
};
template<>
struct Matcher<MS> {
    static const int n = 2;
    static MV all(const MS& e, long call = next_call()) { return e.match([](const efp::Nothing&) { return MV {0, 0}; }, BR(String, 1)); }
    static MV wild(const MS& e, long call = next_call()) { return e.match(BR(String, 1), WILD); }
    static int wild_i() { return 1; }
};
// wide ones: int first, String last, the sizes around the powers of two
template<int k, typename... As>
struct Wide {
    typedef Wide<k - 1, Alt<k>, As...> Next;
    typedef typename Next::type type;
    static void run(const Rec& r) { Next::run(r); }
};
template<typename... As>
struct Wide<0, As...> {
    typedef Enum<int, As..., String> type;
    static void run(const Rec& r);
};
template<int last, typename C>
struct WMatcher {  // alternatives 1 to last are Alt
    static const int n = last + 2;
    static MV all(const C& e, long call = next_call()) {
        MV m = e.match(BR(int, 0), BR(Alt<1>, 1), BR(Alt<last / 2>, last / 2), BR(Alt<last - 1>, last - 1), BR(Alt<last>, last), BR(String, last + 1), WILD);
        if (m.i == -1) {
            m.i = e.index();
            if (m.i == 0 || m.i == 1 || m.i == last / 2 || m.i >= last - 1) sim::violation("contents", "match calls the wildcard although alternative %d has a branch", m.i);
            m.v = -1;
        }
        return m;
    }
    static MV wild(const C& e, long call = next_call()) { return e.match(BR(Alt<last>, last), WILD); }
    static int wild_i() { return last; }
};
typedef Wide<31>::type E33;
typedef Wide<37>::type E39;
typedef Wide<98>::type E100;
template<>
struct Matcher<E33> : WMatcher<31, E33> {};
template<>
struct Matcher<E39> : WMatcher<37, E39> {};
template<>
struct Matcher<E100> : WMatcher<98, E100> {};
template<typename C>
struct EqE {
    static const bool can = true;
    static bool eq(const C& a, const C& b) { return a == b; }
    static bool ne(const C& a, const C& b) { return a != b; }
};
template<typename A>
struct EqE<Maybe<A>> {  // Nothing has no ==
    static const bool can = false;
    static bool eq(const Maybe<A>&, const Maybe<A>&) { return false; }
    static bool ne(const Maybe<A>&, const Maybe<A>&) { return false; }
};
template<typename C>
struct EObj {
    C* c = nullptr;
    void* mem = nullptr;
    Val m = {0, 0};
};
template<typename C, typename... As>
static Val eread(const C& c) {
    Val got;
    int n = (int)sizeof...(As);
    Sut q(false);
    got.i = c.index();
    got.v = 0;
    if (got.i < 0 || got.i >= n) sim::violation("contents", "index() is %d after %s", got.i, g_what);
    auto look = [&](int i) {
        bool threw = false;
        long v = 0;
        Alts<C, 0, As...>::get(c, i, &v, &threw);
        if (threw == (i == got.i)) sim::violation("contents", "index() is %d but get of alternative %d %s", got.i, i, threw ? "is refused" : "succeeds");
        if (!threw) got.v = v;
    };
    look(got.i);
    // refused reads are slow (they throw): one of the other alternatives, and not every time
    unsigned h = ((unsigned)got.v * 2654435761u + (unsigned)got.i * 40503u) >> 8;
    int other = (int)(h % (unsigned)(n * 3));
    if (other < n && other != got.i) look(other);
    return got;
}
template<typename A>
static void maybe_ops(Maybe<A>& c, const Val& m, int which, bool faults) {
    Outcome r;
    switch (which % 6) {
        case 0: {
            bool n = false, h = false, b = false;
            r = attempt([&] { n = c.is_nothing(), h = c.has_value(), b = (bool)c; }, faults);
            if (settle(r, false) && (n == (m.i == 1) || h != (m.i == 1) || b != (m.i == 1))) sim::violation("contents", "is_nothing, has_value or bool disagree");
            break;
        }
        case 1: {
            g_what = "value";
            long v = 0;
            r = attempt([&] {
                A x = ((const Maybe<A>&)c).value();
                v = Conv<A>::get(x);
            }, faults);
            if (settle(r, m.i == 0) && v != m.v) sim::violation("contents", "value() gives %ld, expected %ld", v, m.v);
            break;
        }
        case 2:
        case 3: {
            g_what = "fmap";
            long v = -1;
            int calls = 0;
            r = attempt([&] {
                auto f = [&](const A& x) {
                    calls++;
                    if (cb_fail()) throw CallFail();
                    return (int)(Conv<A>::get(x) + 1);
                };
                Maybe<int> y = which % 2 ? c.fmap(f) : efp::fmap(f, c);
                v = y ? y.value() : -1;
            }, faults);
            if (settle(r, false) && (v != (m.i ? m.v + 1 : -1) || calls != m.i)) sim::violation("contents", "fmap gives %ld after %d calls", v, calls);
            break;
        }
        case 4:
        case 5: {
            g_what = "bind";
            long v = -1;
            int calls = 0;
            bool none = m.v % 2;
            r = attempt([&] {
                auto f = [&](const A& x) -> Maybe<int> {
                    calls++;
                    if (cb_fail()) throw CallFail();
                    if (none) return efp::nothing;
                    return (int)(Conv<A>::get(x) + 2);
                };
                Maybe<int> y = which % 2 ? c.bind(f) : efp::bind(c, f);
                v = y ? y.value() : -1;
            }, faults);
            if (settle(r, false) && (v != (m.i && !none ? m.v + 2 : -1) || calls != m.i)) sim::violation("contents", "bind gives %ld after %d calls", v, calls);
            break;
        }
    }
}
template<typename C>
static void maybe_ops(C&, const Val&, int, bool) {}

template<typename C, typename... As>
static void exec_enum(const Rec& r) {
    bool faults = r.cfg[3] != 0;
    const int n = Matcher<C>::n;
    static EObj<C> o[NP];
    auto build = [&](EObj<C>& a, Outcome res, void* mem) {
        if (res != OK) {
            sim::arena_free(mem);
            return;
        }
        if (a.c) {
            Sut q(false);
            a.c->~C();
        }
        if (a.mem) sim::arena_free(a.mem);
        a.c = (C*)mem;
        a.mem = mem;
    };
    for (int i = 0; i < NP; i++) {
        o[i] = EObj<C>();
        g_what = ename[0];
        void* mem = sim::arena_place(sizeof(C), alignof(C));
        Outcome res = attempt([&] { new (mem) C(); }, false);
        build(o[i], res, mem);
    }
    for (const auto& op : r.ops) {
        int k = (int)op[0];
        if (k < 0 || k >= NE) continue;
        EObj<C>& a = o[op[1] % NP];
        EObj<C>& b = o[op[2] % NP];
        int alt = (int)(op[3] % n);
        long v = op[4];
        g_what = ename[k];
        sim::op_tag(k + 1);
        Outcome res = OK;
        Val made = {alt, v};
        if (EqE<C>::can == false && alt == 0) made.v = 0;
        bool moved = false;
        switch (k) {
            case E_DEFAULT: {
                void* mem = sim::arena_place(sizeof(C), alignof(C));
                res = attempt([&] { new (mem) C(); }, faults);
                build(a, res, mem);
                if (settle(res, false)) a.m = Val {0, 0};
                break;
            }
            case E_FROMCOPY:
            case E_FROMMOVE: {
                void* mem = sim::arena_place(sizeof(C), alignof(C));
                Alts<C, 0, As...>::from(mem, alt, v, k == E_FROMMOVE, faults, res, true, nullptr);
                build(a, res, mem);
                if (settle(res, false)) a.m = made;
                break;
            }
            case E_COPY:
            case E_MOVE: {
                if (&a == &b && k == E_MOVE) break;
                void* mem = sim::arena_place(sizeof(C), alignof(C));
                Val src = b.m;
                res = attempt([&] {
                    if (k == E_COPY) new (mem) C(*(const C*)b.c);
                    else new (mem) C(efp::move(*b.c));
                }, faults);
                build(a, res, mem);
                if (settle(res, false)) a.m = src, moved = k == E_MOVE;
                break;
            }
            case E_CASSIGN:
                res = attempt([&] { *a.c = *(const C*)b.c; }, faults);
                if (settle(res, false)) a.m = b.m;
                break;
            case E_SELFASSIGN:
                res = attempt([&] { *a.c = *(const C*)a.c; }, faults);
                settle(res, false);
                break;
            case E_MASSIGN:
                res = attempt([&] { *a.c = efp::move(*b.c); }, faults);
                if (settle(res, false)) a.m = b.m, moved = &a != &b;
                break;
            case E_SETCOPY:
            case E_SETMOVE:
                Alts<C, 0, As...>::from(nullptr, alt, v, k == E_SETMOVE, faults, res, false, a.c);
                if (settle(res, false)) a.m = made;
                break;
            case E_GET:
            case E_GETI: maybe_ops(*a.c, a.m, (int)v, faults); break;
            case E_MATCH: {
                MV m = {-2, 0};
                res = attempt([&] { m = Matcher<C>::all(*a.c); }, faults);
                if (settle(res, false) && (m.i != a.m.i || (m.v != a.m.v && (n < 33 || m.v != -1)))) sim::violation("contents", "match calls branch %d with %ld, stored is alternative %d with %ld", m.i, m.v, a.m.i, a.m.v);
                break;
            }
            case E_WILD: {
                MV m = {-2, 0};
                res = attempt([&] { m = Matcher<C>::wild(*a.c); }, faults);
                bool spec = Matcher<C>::wild_i() == -1 ? a.m.i != 0 : a.m.i == Matcher<C>::wild_i();
                if (settle(res, false) && (m.i != (spec ? a.m.i : -1) || (spec && m.v != a.m.v))) sim::violation("contents", "match with a wildcard calls branch %d", m.i);
                break;
            }
            case E_EQ: {
                if (!EqE<C>::can) break;
                bool eq = false, ne = false, want = a.m.i == b.m.i && a.m.v == b.m.v;
                res = attempt([&] { eq = EqE<C>::eq(*a.c, *b.c), ne = EqE<C>::ne(*a.c, *b.c); }, faults);
                if (settle(res, false) && (eq != want || ne == want)) sim::violation("contents", "== is %d, != is %d, expected %d", eq, ne, want);
                break;
            }
            case E_TAKE: {
                long got = 0;
                int form = (int)(op[3] & 3);
                if (n > 1) {
                    Sut q(false);
                    int other = (int)(op[3] >> 2) % (n - 1);
                    Alts<C, 0, As...>::refuse(*a.c, other + (other >= a.m.i), form);
                }
                res = attempt([&] { Alts<C, 0, As...>::take(*a.c, a.m.i, form, &got); }, faults);
                if (settle(res, false)) {
                    if (got != a.m.v) sim::violation("contents", "the value moved out is %ld, expected %ld", got, a.m.v);
                    int was = a.m.i;
                    a.m = eread<C, As...>(*a.c);
                    if (a.m.i != was) sim::violation("contents", "moving the value out changed the alternative");
                }
                break;
            }
            case E_NEST: {
                bool same = false;
                res = attempt([&] {
                    Vector<C> w;
                    w.push_back(*a.c);
                    w.push_back(*b.c);
                    w[0] = w[1];
                    w.push_back(w[0]);
                    same = w.size() == 3 && w[2].index() == b.m.i;
                }, faults);
                if (settle(res, false) && !same) sim::violation("contents", "a Vector of Enums holds another alternative than stored");
                break;
            }
            case E_DESTROY: {
                void* mem = sim::arena_place(sizeof(C), alignof(C));
                res = attempt([&] { new (mem) C(); }, false);
                build(a, res, mem);
                a.m = Val {0, 0};
                break;
            }
        }
        if (moved) b.m = eread<C, As...>(*b.c);
        g_what = ename[k];
        for (int i = 0; i < NP; i++) {
            drv::stats().checks++;
            Val got = eread<C, As...>(*o[i].c);
            if (got.i != o[i].m.i || got.v != o[i].m.v)
                sim::violation(res == OK ? "contents" : "not-unchanged", "alternative %d with %ld is stored after %s%s, expected alternative %d with %ld", got.i, got.v,
                               res == OK ? "" : "a failed ", g_what, o[i].m.i, o[i].m.v);
        }
    }
    g_what = "destruction";
    for (int i = 0; i < NP; i++) {
        {
            Sut q(false);
            o[i].c->~C();
        }
        sim::arena_free(o[i].mem);
    }
    no_leaks();
}

template<typename... As>
void Wide<0, As...>::run(const Rec& r) {
    exec_enum<type, int, As..., String>(r);
}

namespace drv {
enum { K_ARRAY, K_ARRVEC, K_VCB, K_VCQ, K_ENUM };
// cfg: container element size faults
void gen(const std::string& prop, uint64_t seed, bool thorough, Rec& r, sim::Policy& p) {
    Rng g(seed);
    long kind, elem = (long)g.below(4), size = (long)g.below(4);
    if (g.below(2)) elem = 1;
    if (prop == "C14") kind = g.below(3) == 0 ? K_ARRAY : K_ARRVEC;
    else if (prop == "C15") kind = g.below(3) == 0 ? K_VCB : K_VCQ;
    else kind = K_ENUM, elem = g.below(10) ? (long)g.below(8) : 8 + (long)g.below(3);
    if (kind != K_ENUM && g.below(8) == 0) {  // powers of two
        size = g.below(3) == 0 ? 7 : 6;
        if (size == 7) elem = (long)g.below(2);
    }
    if (kind != K_ENUM && g.below(40) == 0) {  // large ones, now and then
        size = g.below(3) == 0 ? 5 : 4;
        if (size == 5) elem = (long)g.below(2);
    }
    bool faults = g.below(4) != 0;
    r.scen = kind == K_ENUM ? "enum" : kind == K_VCB || kind == K_VCQ ? "ring" : "inline";
    r.cfg = {kind, elem, size, faults};
    int n = 2 + (int)g.below(thorough ? 40 : 18);
    long v = 10;
    for (int i = 0; i < n; i++) {
        long op = 0;
        switch (kind) {
            case K_ARRAY: op = (long)g.below(NA); break;
            case K_ARRVEC: op = g.below(4) == 0 ? (g.below(2) ? B_PUSH : B_INSERT) : (long)g.below(NB); break;
            case K_VCB:
            case K_VCQ: op = g.below(2) ? (g.below(3) ? C_PUSH : C_POP) : (long)g.below(C_LONG); break;
            default: op = (long)g.below(NE);
        }
        r.ops.push_back({op, (long)g.below(g.below(3) ? 2 : NP), (long)g.below(NP), (long)g.below(kind == K_ENUM ? 200 : size != 5 ? 64 : 400), v});
        v += size < 4 || size > 5 ? 4 + (long)g.below(3) : 400;
    }
    if (size > 3 && kind != K_ARRAY)
        for (auto& op : r.ops)
            if (g.below(4) == 0) op[0] = kind == K_ARRVEC ? (long)B_BULK : (long)C_BULK, op[3] = 1 + (long)g.below(kind == K_ARRVEC ? 9 : 18);
    if (r.scen == "ring" && elem == 0 && g.below(2500) == 0) r.ops[g.below((uint32_t)n)][0] = C_LONG;
    p.mode = 2;
    if (faults) fault_policy(g, p, size == 4 || size == 5 ? 30 << g.below(5) : 30, kind == K_ENUM);
}
const char* op_name(const Rec& r, const std::vector<long>& op, char* buf, size_t n) {
    static const char* const* const names[5] = {aname, bname, cname, cname, ename};
    static const long cnt[5] = {NA, NB, NC, NC, NE};
    long k = r.cfg.empty() ? 0 : r.cfg[0];
    snprintf(buf, n, "object %ld (other %ld): %s", op.size() > 1 ? op[1] % NP : -1, op.size() > 2 ? op[2] % NP : -1,
             k >= 0 && k < 5 && op[0] >= 0 && op[0] < cnt[k] ? names[k][op[0]] : "?");
    return buf;
}
template<template<typename, size_t> class F>
void by_size(const Rec& r);
#define BY_ELEM(CALL, N) \
    switch (r.cfg[1]) { \
        case 0: CALL(int, N); break; \
        case 1: CALL(TElem, N); break; \
        case 2: CALL(String, N); break; \
        default: CALL(Pod, N); \
    }
#define BY_2(CALL, N) \
    if (r.cfg[1] == 1) CALL(TElem, N); \
    else CALL(int, N);
#define X_ARRAY(E, N) exec_array<E, N>(r)
#define X_ARRVEC(E, N) exec_arrvec<E, N>(r)
#define X_VCB(E, N) exec_ring<E, N, Vcb<E, N>>(r)
#define X_VCQ(E, N) exec_ring<E, N, Vcq<E, N>>(r)
void exec(const Rec& r) {
    sim::set_step_limit(20000000);
    switch (r.cfg[0]) {
        case K_ARRAY:
            switch (r.cfg[2]) {
                case 0: BY_ELEM(X_ARRAY, 1) break;
                case 1: BY_ELEM(X_ARRAY, 3) break;
                case 4: BY_ELEM(X_ARRAY, 17) break;
                case 6: BY_ELEM(X_ARRAY, 4) break;
                case 7: BY_2(X_ARRAY, 8) break;
                case 5: BY_2(X_ARRAY, 300) break;
                default: BY_ELEM(X_ARRAY, 5)
            }
            break;
        case K_ARRVEC:
            switch (r.cfg[2]) {
                case 0: BY_ELEM(X_ARRVEC, 2) break;
                case 1: BY_ELEM(X_ARRVEC, 3) break;
                case 4: BY_ELEM(X_ARRVEC, 17) break;
                case 6: BY_ELEM(X_ARRVEC, 4) break;
                case 7: BY_2(X_ARRVEC, 8) break;
                case 5: BY_2(X_ARRVEC, 300) break;
                default: BY_ELEM(X_ARRVEC, 5)
            }
            break;
        case K_VCB:
            switch (r.cfg[2]) {
                case 0: BY_ELEM(X_VCB, 1) break;
                case 1: BY_ELEM(X_VCB, 2) break;
                case 2: BY_ELEM(X_VCB, 3) break;
                case 4: BY_ELEM(X_VCB, 17) break;
                case 6: BY_ELEM(X_VCB, 4) break;
                case 7: BY_2(X_VCB, 8) break;
                case 5: BY_2(X_VCB, 300) break;
                default: BY_ELEM(X_VCB, 5)
            }
            break;
        case K_VCQ:
            switch (r.cfg[2]) {
                case 0: BY_ELEM(X_VCQ, 1) break;
                case 1: BY_ELEM(X_VCQ, 2) break;
                case 2: BY_ELEM(X_VCQ, 3) break;
                case 4: BY_ELEM(X_VCQ, 17) break;
                case 6: BY_ELEM(X_VCQ, 4) break;
                case 7: BY_2(X_VCQ, 8) break;
                case 5: BY_2(X_VCQ, 300) break;
                default: BY_ELEM(X_VCQ, 5)
            }
            break;
        default:
            switch (r.cfg[1]) {
                case 0: exec_enum<E4, int, TElem, String, Pod>(r); break;
                case 1: exec_enum<E2, TElem, String>(r); break;
                case 2: exec_enum<E9, TElem, Alt<1>, Alt<2>, Alt<3>, Alt<4>, Alt<5>, Alt<6>, Alt<7>, Alt<8>>(r); break;
                case 3: exec_enum<MT, efp::Nothing, TElem>(r); break;
                case 4: exec_enum<MS, efp::Nothing, String>(r); break;
                case 6: exec_enum<E3, String, int, TElem>(r); break;
                case 7:
                    exec_enum<E20, Alt<1>, int, Alt<2>, Alt<3>, Alt<4>, Alt<5>, Alt<6>, Alt<7>, Alt<8>, Alt<9>, Alt<10>, Alt<11>, Alt<12>, Alt<13>, Alt<14>, Alt<15>,
                              Alt<16>, String, Alt<18>, Alt<19>>(r);
                    break;
                case 8: Wide<31>::run(r); break;
                case 9: Wide<37>::run(r); break;
                case 10: Wide<98>::run(r); break;
                default: exec_enum<E5, int, TElem, Pod, Alt<1>, Alt<2>>(r);
            }
    }
    drv::nontrivial_flag() = true;
}
}  // namespace drv
