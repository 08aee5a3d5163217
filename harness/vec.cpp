// Vector and String under failing allocations and element copies (C13).
#include "cont.h"
#include <string>

static const int NP = 3;

// ------------------------------------------------------------- Vector<E>
enum VOp {
    V_DEFAULT, V_COPY, V_MOVE, V_CASSIGN, V_MASSIGN, V_INIT, V_FROMARR, V_FROMAV, V_PUSH, V_PUSHSELF, V_PUSHMOVE, V_EMPLACE, V_POP, V_INSERT, V_INSERTSELF,
    V_ERASE, V_CLEAR, V_RESIZE, V_RESERVE, V_SHRINK, V_EQ, V_SET, V_DESTROY, V_EMPLACESELF, V_BULK, NV
};
static const char* const vname[NV] = {"construction", "copy construction", "move construction", "copy assignment", "move assignment", "construction from a list",
                                      "construction from an Array", "construction from an ArrVec", "push_back", "push_back of an own element", "push_back of a temporary",
                                      "emplace_back", "pop_back", "insert", "insert of an own element", "erase", "clear", "resize", "reserve", "shrink_to_fit", "==",
                                      "assignment to an element", "destruction", "emplace_back of an own element",
                                      "a row of push_backs"};

template<typename E>
static void emplace(Vector<E>& v, long x) { v.emplace_back(x); }
template<>
void emplace<String>(Vector<String>& v, long x) {
    static const char* const t[4] = {"s11", "s7", "s123456789", "s-5"};
    v.emplace_back(t[(size_t)x % 4]);
}
template<>
void emplace<int>(Vector<int>& v, long x) { v.emplace_back((int)x); }
template<typename E>
static long emplaced(long x) { return x; }
template<>
long emplaced<String>(long x) {
    static const long t[4] = {11, 7, 123456789, -5};
    return t[(size_t)x % 4];
}

template<typename E>
static void check_vec(Obj<Vector<E>>* o, Outcome r, bool count) {
    size_t total = 0;
    for (int i = 0; i < NP; i++) {
        compare<E>(o[i], "a Vector", r);
        if (!o[i].c) continue;
        total += o[i].m.size();
        size_t cap;
        {
            Sut s(false);
            cap = o[i].c->capacity();
        }
        if (cap < o[i].m.size()) sim::violation("contents", "capacity %zu is below size %zu after %s", cap, o[i].m.size(), g_what);
    }
    if (count && sim::live_objs() != total)
        sim::violation("lifetime", "%zu element objects are alive after %s but the Vectors hold %zu", sim::live_objs(), g_what, total);
}

template<typename E>
static void exec_vec(const Rec& r) {
    typedef Vector<E> C;
    bool faults = r.cfg[2] != 0;
    bool count = std::is_same<E, TElem>::value;
    static Obj<C> o[NP];
    for (int i = 0; i < NP; i++) {
        o[i] = Obj<C>();
        g_what = vname[V_DEFAULT];
        construct(o[i], [&](void* m) { new (m) C(); }, false);
    }
    for (const auto& op : r.ops) {
        int k = (int)op[0];
        Obj<C>& a = o[op[1] % NP];
        Obj<C>& b = o[op[2] % NP];
        long p = op[3], v = op[4];
        if (k < 0 || k >= NV) continue;
        g_what = vname[k];
        sim::op_tag(k + 1);
        if (!a.c && k != V_DEFAULT) {
            construct(a, [&](void* m) { new (m) C(); }, false);
            a.m.clear();
        }
        if (!b.c) {
            construct(b, [&](void* m) { new (m) C(); }, false);
            b.m.clear();
        }
        Outcome res = OK;
        size_t n = a.m.size();
        switch (k) {
            case V_DEFAULT:
                res = construct(a, [&](void* m) { new (m) C(); }, faults);
                if (settle(res, false)) a.m.clear();
                break;
            case V_COPY: {
                Model src = b.m;
                res = construct(a, [&](void* m) { new (m) C(*(const C*)b.c); }, faults);
                if (settle(res, false)) a.m = src;
                break;
            }
            case V_MOVE: {
                if (&a == &b) break;
                res = construct(a, [&](void* m) { new (m) C(efp::move(*b.c)); }, faults);
                if (settle(res, false)) {
                    a.m = b.m;
                    b.m = contents<E>(*b.c, "a moved-from Vector");
                }
                break;
            }
            case V_CASSIGN: {
                const C& src = *b.c;
                res = attempt([&] { *a.c = src; }, faults);
                if (settle(res, false)) a.m = Model(b.m);
                break;
            }
            case V_MASSIGN:
                res = attempt([&] { *a.c = efp::move(*b.c); }, faults);
                if (settle(res, false) && &a != &b) {
                    a.m = b.m;
                    b.m = contents<E>(*b.c, "a moved-from Vector");
                }
                break;
            case V_INIT: {
                int cnt = (int)(p % 4);
                Sut q(false);
                E x = Conv<E>::make(v), y = Conv<E>::make(v + 1), z = Conv<E>::make(v + 2);
                NoSut ns;
                res = construct(a, [&](void* m) {
                    if (cnt == 0) new (m) C(efp::InitializerList<E> {});
                    else if (cnt == 1) new (m) C {x};
                    else if (cnt == 2) new (m) C {x, y};
                    else new (m) C {x, y, z};
                }, faults);
                if (settle(res, false)) {
                    a.m.clear();
                    for (int i = 0; i < cnt; i++) a.m.push_back(v + i);
                }
                break;
            }
            case V_FROMARR: {
                Sut q(false);
                Array<E, 3> src = {Conv<E>::make(v), Conv<E>::make(v + 1), Conv<E>::make(v + 2)};
                NoSut ns;
                res = construct(a, [&](void* m) { new (m) C((const Array<E, 3>&)src); }, faults);
                if (settle(res, false)) a.m = {v, v + 1, v + 2};
                break;
            }
            case V_FROMAV: {
                Sut q(false);
                ArrVec<E, 5> src;
                for (long i = 0; i < p % 6; i++) src.push_back(Conv<E>::make(v + i));
                NoSut ns;
                res = construct(a, [&](void* m) { new (m) C((const ArrVec<E, 5>&)src); }, faults);
                if (settle(res, false)) {
                    a.m.clear();
                    for (long i = 0; i < p % 6; i++) a.m.push_back(v + i);
                }
                break;
            }
            case V_PUSH: {
                Sut q(false);
                const E x = Conv<E>::make(v);
                NoSut ns;
                res = attempt([&] { a.c->push_back(x); }, faults);
                if (settle(res, false)) a.m.push_back(v);
                break;
            }
            case V_PUSHSELF:
            case V_EMPLACESELF: {
                if (!n) break;
                size_t i = (size_t)p % n;
                res = attempt([&] {
                    if (k == V_PUSHSELF) a.c->push_back((*(const C*)a.c)[i]);
                    else a.c->emplace_back((*(const C*)a.c)[i]);
                }, faults);
                if (settle(res, false)) a.m.push_back(long(a.m[i]));
                break;
            }
            case V_PUSHMOVE: {
                Sut q(false);
                E x = Conv<E>::make(v);
                NoSut ns;
                res = attempt([&] { a.c->push_back(efp::move(x)); }, faults);
                if (settle(res, false)) a.m.push_back(v);
                break;
            }
            case V_EMPLACE:
                res = attempt([&] { emplace<E>(*a.c, v); }, faults);
                if (settle(res, false)) a.m.push_back(emplaced<E>(v));
                break;
            case V_BULK:
                for (long i = 0; i < p && res == OK && a.m.size() < 1000; i++) {
                    Sut q(false);
                    const E x = Conv<E>::make(v + i);
                    NoSut ns;
                    res = attempt([&] { a.c->push_back(x); }, faults);
                    if (settle(res, false)) a.m.push_back(v + i);
                }
                break;
            case V_POP:
                res = attempt([&] { a.c->pop_back(); }, faults);
                if (settle(res, n == 0)) a.m.pop_back();
                break;
            case V_INSERT: {
                size_t i = (size_t)p % (n + 2);
                Sut q(false);
                const E x = Conv<E>::make(v);
                NoSut ns;
                res = attempt([&] { a.c->insert(i, x); }, faults);
                if (settle(res, i > n)) a.m.insert(a.m.begin() + (long)i, v);
                break;
            }
            case V_INSERTSELF: {
                if (!n) break;
                size_t i = (size_t)p % (n + 1), j = (size_t)v % n;
                res = attempt([&] { a.c->insert(i, (*(const C*)a.c)[j]); }, faults);
                if (settle(res, false)) {
                    long x = a.m[j];
                    a.m.insert(a.m.begin() + (long)i, x);
                }
                break;
            }
            case V_ERASE: {
                size_t i = (size_t)p % (n + 1);
                res = attempt([&] { a.c->erase(i); }, faults);
                if (settle(res, i >= n)) a.m.erase(a.m.begin() + (long)i);
                break;
            }
            case V_CLEAR:
                res = attempt([&] { a.c->clear(); }, faults);
                if (settle(res, false)) a.m.clear();
                break;
            case V_RESIZE: {
                size_t w = p < 64 ? (size_t)p % 12 : (size_t)p;
                res = attempt([&] { a.c->resize(w); }, faults);
                if (settle(res, false)) a.m.resize(w, 0);
                break;
            }
            case V_RESERVE: {
                size_t w = p < 64 ? (size_t)p % 20 : (size_t)p, cap = 0;
                res = attempt([&] { a.c->reserve(w); }, faults);
                if (settle(res, false)) {
                    Sut q(false);
                    cap = a.c->capacity();
                    NoSut ns;
                    if (cap < w) sim::violation("contents", "capacity is %zu after reserve(%zu)", cap, w);
                }
                break;
            }
            case V_SHRINK:
                res = attempt([&] { a.c->shrink_to_fit(); }, faults);
                settle(res, false);
                break;
            case V_EQ: {
                if (!CanEq<E>::value) break;
                bool eq = false;
                res = attempt([&] { eq = Eq<E, C>::eq(*a.c, *b.c); }, faults);
                if (settle(res, false) && eq != (a.m == b.m)) sim::violation("contents", "== is %d for %s and %s", eq, show(a.m).c_str(), show(b.m).c_str());
                break;
            }
            case V_SET: {
                if (!n) break;
                size_t i = (size_t)p % n;
                Sut q(false);
                const E x = Conv<E>::make(v);
                NoSut ns;
                res = attempt([&] { (*a.c)[i] = x; }, faults);
                if (settle(res, false)) a.m[i] = v;
                break;
            }
            case V_DESTROY: destroy(a); break;
        }
        check_vec<E>(o, res, count);
    }
    g_what = "destruction";
    for (int i = 0; i < NP; i++) destroy(o[i]);
    no_leaks();
}

// ------------------------------------------------------------- strings
enum SOp {
    S_DEFAULT, S_CSTR, S_PTR, S_FILL, S_COPY, S_MOVE, S_CASSIGN, S_MASSIGN, S_APPEND, S_APPENDN, S_PLUS, S_APPENDSELF, S_ASSIGN, S_ASSIGNN, S_ASSIGNSELF, S_INSERT,
    S_INSERTN, S_INSERTSELF, S_SUBSTR, S_COPYOUT, S_COMPARE, S_AT, S_CSTROUT, S_PUSH, S_PUSHSELF, S_POP, S_ERASE, S_CLEAR, S_RESIZE, S_RESERVE, S_SHRINK, S_EQ, S_EQC,
    S_INIT, S_CONVERT, S_FRONT, S_VIEW, S_PLUSSELF, S_FROMARR, S_FROMAV, NS
};
static const char* const sname[NS] = {"construction", "construction from text", "construction from pointer and length", "construction from count and character",
                                      "copy construction", "move construction", "copy assignment", "move assignment", "append", "append of repeated characters", "+=",
                                      "append of own text", "assign", "assign of repeated characters", "assign of own text", "insert", "insert of counted text",
                                      "insert of own text", "substr", "copy", "compare", "at", "c_str", "push_back", "push_back of an own character", "pop_back", "erase",
                                      "clear", "resize", "reserve", "shrink_to_fit", "==", "== with text", "construction from a list", "conversion to std::string",
                                      "front and back", "conversion to a view", "+= of itself", "construction from an Array", "construction from an ArrVec"};

template<typename Ch>
struct SObj {
    typedef efp::BasicString<Ch> C;
    C* c = nullptr;
    void* mem = nullptr;
    std::basic_string<Ch> m;
};
template<typename Ch>
static std::string shows(const std::basic_string<Ch>& s) {
    std::string r = "\"";
    for (size_t i = 0; i < s.size() && i < 40; i++) r += s[i] >= 32 && s[i] < 127 && s[i] != '#' ? std::string(1, (char)s[i]) : "<" + std::to_string((long)s[i]) + ">";
    return r + "\"(" + std::to_string(s.size()) + ")";
}
template<typename Ch>
static std::basic_string<Ch> sread(const efp::BasicString<Ch>& c) {
    static Ch buf[20000];
    size_t n, k = 0;
    {
        Sut s(false);
        n = c.size();
        if (n > 20000) sim::violation("contents", "a String has size %zu after %s", n, g_what);
        for (size_t i = 0; i < n; i++) buf[i] = c[i];
        for (const Ch* p = c.begin(); p != c.end() && k <= n; ++p, ++k)
            if (k < n && *p != buf[k]) sim::violation("contents", "indexing and iteration of a String differ after %s", g_what);
        if (c.empty() != (n == 0)) sim::violation("contents", "empty() is wrong after %s", g_what);
        efp::BasicString<Ch>& m = const_cast<efp::BasicString<Ch>&>(c);
        bool same = m.begin() == c.begin() && m.end() == c.end() && m.data() == c.data() && efp::data(m) == c.data() && efp::data(c) == c.data() && (size_t)efp::length(c) == n;
        for (size_t i = 0; i < n; i += 1 + n / 4)
            if (&m[i] != &c[i] || &efp::nth(i, m) != &c[i] || &efp::nth(i, c) != &c[i]) same = false;
        if (!same) sim::violation("contents", "const and non-const access of a String or the free functions differ after %s", g_what);
    }
    if (k != n) sim::violation("contents", "iteration of a String gives %zu characters, size() is %zu, after %s", k, n, g_what);
    return std::basic_string<Ch>(buf, n);
}
template<typename Ch, typename F>
static Outcome sconstruct(SObj<Ch>& o, const F& f, bool faults) {
    typedef efp::BasicString<Ch> C;
    void* mem = sim::arena_place(sizeof(C), alignof(C));
    Outcome r = attempt([&] { f(mem); }, faults);
    if (r != OK) {
        sim::arena_free(mem);
        return r;
    }
    if (o.c) {
        Sut s(false);
        o.c->~C();
    }
    if (o.mem) sim::arena_free(o.mem);
    o.c = (C*)mem;
    o.mem = mem;
    return OK;
}
template<typename Ch>
static std::basic_string<Ch> text(uint64_t seed, size_t n, bool zero) {
    std::basic_string<Ch> s;
    for (size_t i = 0; i < n; i++) {
        uint64_t h = (seed + 3) * 0x9E3779B97F4A7C15ull + i * 0xC2B2AE3D27D4EB4Full;
        h ^= h >> 31;
        h *= 0xBF58476D1CE4E5B9ull;
        h >>= 33;
        s.push_back(zero && h % 7 == 0 ? Ch(0) : sizeof(Ch) > 1 && h % 5 == 0 ? Ch(300 + h % 100) : h % 11 == 0 ? (Ch)(unsigned char)(0x80 + h % 128) : Ch('a' + h % 26));
    }
    return s;
}
static void maybe_std(const String& c, const std::string& m, bool faults) {
    bool same = false;
    Outcome r = attempt([&] {
        std::string t = c;
        same = t.size() == m.size() && (m.empty() || memcmp(t.data(), m.data(), m.size()) == 0);
    }, faults);
    if (settle(r, false) && !same) sim::violation("contents", "the conversion to std::string differs from %s", shows(m).c_str());
}
static void maybe_std(const efp::WString&, const std::wstring&, bool) {}

template<typename Ch>
static void exec_str(const Rec& r) {
    typedef efp::BasicString<Ch> C;
    typedef std::basic_string<Ch> M;
    bool faults = r.cfg[2] != 0;
    static SObj<Ch> o[NP];
    for (int i = 0; i < NP; i++) {
        o[i] = SObj<Ch>();
        g_what = sname[0];
        sconstruct(o[i], [&](void* m) { new (m) C(); }, false);
    }
    for (const auto& op : r.ops) {
        int k = (int)op[0];
        if (k < 0 || k >= NS) continue;
        SObj<Ch>& a = o[op[1] % NP];
        SObj<Ch>& b = o[op[2] % NP];
        size_t p = (size_t)op[3], len = (size_t)op[4] % (p < 64 ? 40 : 1000);
        if (a.m.size() > 6000 && k != S_EQ) k = S_CLEAR;
        if (b.m.size() > 6000 && k == S_PLUS) k = S_EQ;
        uint64_t seed = (uint64_t)op[4];
        size_t n = a.m.size();
        g_what = sname[k];
        sim::op_tag(k + 1);
        Outcome res = OK;
        // argument text lives in simulated memory, exactly as long as it is
        bool is_c = k == S_CSTR || k == S_APPEND || k == S_ASSIGN || k == S_INSERT || k == S_EQC;
        M t = text<Ch>(seed, len, !is_c);
        Ch* tx = (Ch*)sim::arena_alloc((len + (is_c ? 1 : 0)) * sizeof(Ch));
        memcpy((void*)tx, t.data(), len * sizeof(Ch));
        if (is_c) tx[len] = 0;
        Ch ch = Ch('a' + seed % 26);
        switch (k) {
            case S_DEFAULT:
                res = sconstruct(a, [&](void* m) { new (m) C(); }, faults);
                if (settle(res, false)) a.m.clear();
                break;
            case S_CSTR:
                res = sconstruct(a, [&](void* m) { new (m) C((const Ch*)tx); }, faults);
                if (settle(res, false)) a.m = t;
                break;
            case S_PTR:
                res = sconstruct(a, [&](void* m) { new (m) C((const Ch*)tx, len); }, faults);
                if (settle(res, false)) a.m = t;
                break;
            case S_FROMARR: {
                Array<Ch, 4> four = {ch, Ch(0), Ch('q'), ch};
                Array<Ch, 1> one = {ch};
                res = sconstruct(a, [&](void* m) {
                    if (p % 2) new (m) C((const Array<Ch, 4>&)four);
                    else new (m) C((const Array<Ch, 1>&)one);
                }, faults);
                if (settle(res, false)) a.m = p % 2 ? M {ch, Ch(0), Ch('q'), ch} : M {ch};
                break;
            }
            case S_FROMAV: {
                Sut q(false);
                ArrVec<Ch, 9> src;
                for (size_t i = 0; i < p % 10; i++) src.push_back(Ch('a' + (seed + i) % 26));
                NoSut ns;
                res = sconstruct(a, [&](void* m) { new (m) C((const ArrVec<Ch, 9>&)src); }, faults);
                if (settle(res, false)) {
                    a.m.clear();
                    for (size_t i = 0; i < p % 10; i++) a.m.push_back(Ch('a' + (seed + i) % 26));
                }
                break;
            }
            case S_FILL:
                res = sconstruct(a, [&](void* m) { new (m) C(len, ch); }, faults);
                if (settle(res, false)) a.m = M(len, ch);
                break;
            case S_COPY: {
                M src = b.m;
                res = sconstruct(a, [&](void* m) { new (m) C(*(const C*)b.c); }, faults);
                if (settle(res, false)) a.m = src;
                break;
            }
            case S_MOVE:
                if (&a == &b) break;
                res = sconstruct(a, [&](void* m) { new (m) C(efp::move(*b.c)); }, faults);
                if (settle(res, false)) {
                    a.m = b.m;
                    b.m = sread<Ch>(*b.c);
                }
                break;
            case S_CASSIGN:
                res = attempt([&] { *a.c = *(const C*)b.c; }, faults);
                if (settle(res, false)) a.m = M(b.m);
                break;
            case S_MASSIGN:
                res = attempt([&] { *a.c = efp::move(*b.c); }, faults);
                if (settle(res, false) && &a != &b) {
                    a.m = b.m;
                    b.m = sread<Ch>(*b.c);
                }
                break;
            case S_APPEND:
                res = attempt([&] { a.c->append((const Ch*)tx); }, faults);
                if (settle(res, false)) a.m += t;
                break;
            case S_APPENDN:
                res = attempt([&] { a.c->append(len, ch); }, faults);
                if (settle(res, false)) a.m.append(len, ch);
                break;
            case S_PLUS:
            case S_PLUSSELF: {
                SObj<Ch>& s = k == S_PLUS ? b : a;
                res = attempt([&] { *a.c += *(const C*)s.c; }, faults);
                if (settle(res, false)) a.m += M(s.m);
                break;
            }
            case S_APPENDSELF: {
                size_t off = p % (n + 1);
                const Ch* own = nullptr;
                Outcome c = attempt([&] { own = a.c->c_str() + off; }, false);
                settle(c, false);
                M want = M(a.m.c_str() + off);
                res = attempt([&] { a.c->append(own); }, faults);
                if (settle(res, false)) a.m += want;
                break;
            }
            case S_ASSIGN:
                res = attempt([&] { a.c->assign((const Ch*)tx); }, faults);
                if (settle(res, false)) a.m = t;
                break;
            case S_ASSIGNN:
                res = attempt([&] { a.c->assign(len, ch); }, faults);
                if (settle(res, false)) a.m.assign(len, ch);
                break;
            case S_ASSIGNSELF: {
                size_t off = p % (n + 1);
                const Ch* own = nullptr;
                Outcome c = attempt([&] { own = a.c->c_str() + off; }, false);
                settle(c, false);
                M want = M(a.m.c_str() + off);
                res = attempt([&] { a.c->assign(own); }, faults);
                if (settle(res, false)) a.m = want;
                break;
            }
            case S_INSERT: {
                size_t i = p % (n + 2);
                res = attempt([&] { a.c->insert(i, (const Ch*)tx); }, faults);
                if (settle(res, i > n)) a.m.insert(i, t);
                break;
            }
            case S_INSERTN: {
                size_t i = p % (n + 2);
                res = attempt([&] { a.c->insert(i, (const Ch*)tx, len); }, faults);
                if (settle(res, i > n)) a.m.insert(i, t);
                break;
            }
            case S_INSERTSELF: {
                size_t i = p % (n + 1), off = n ? seed % n : 0, cnt = (seed / 7) % (n - off + 1);
                M want = a.m.substr(off, cnt);
                res = attempt([&] { a.c->insert(i, (const Ch*)a.c->data() + off, cnt); }, faults);
                if (settle(res, false)) a.m.insert(i, want);
                break;
            }
            case S_SUBSTR: {
                size_t i = p % (n + 2), l = seed % 3 == 0 ? (size_t)-1 - seed / 3 % 3 : seed % 15;
                bool rest = seed % 9 == 0;  // the length left out, and the position as well
                if (rest) l = C::npos;
                res = sconstruct(b, [&](void* m) { new (m) C(!rest ? ((const C*)a.c)->substr(i, l) : i || seed % 2 ? ((const C*)a.c)->substr(i) : ((const C*)a.c)->substr()); }, faults);
                if (settle(res, i > n)) b.m = M(a.m.substr(i, l));
                break;
            }
            case S_COPYOUT: {
                size_t i = p % (n + 2), l = seed % 4 == 0 ? (size_t)-1 - seed / 4 % 3 : len, cnt = i > n ? 0 : std::min(l, n - i), got = 0;
                Ch* dst = (Ch*)sim::arena_alloc(cnt * sizeof(Ch));
                res = attempt([&] { got = i == 0 && seed % 2 ? ((const C*)a.c)->copy(dst, l) : ((const C*)a.c)->copy(dst, l, i); }, faults);
                if (settle(res, i > n) && (got != cnt || a.m.compare(i, cnt, dst, cnt))) sim::violation("contents", "copy gives other characters than the String holds");
                sim::arena_free(dst);
                break;
            }
            case S_COMPARE: {
                int c = 0;
                size_t i = p % (n + 2), l = seed % 4 == 0 ? (size_t)-1 - seed / 4 % 3 : seed % 12;
                bool whole = seed % 3 == 0;
                res = attempt([&] { c = whole ? ((const C*)a.c)->compare(*b.c) : ((const C*)a.c)->compare(i, l, *b.c); }, faults);
                if (settle(res, !whole && i > n)) {
                    int w = whole ? a.m.compare(b.m) : a.m.compare(i, l, b.m);
                    if ((c < 0) != (w < 0) || (c > 0) != (w > 0)) sim::violation("contents", "compare gives %d, expected a number like %d", c, w);
                }
                break;
            }
            case S_AT: {
                size_t i = p % (n + 2);
                Ch c = 0;
                res = attempt([&] { c = ((const C*)a.c)->at(i); }, faults);
                if (settle(res, i >= n) && c != a.m[i]) sim::violation("contents", "at gives another character than the String holds");
                break;
            }
            case S_CSTROUT: {
                const Ch* z = nullptr;
                bool same = true;
                res = attempt([&] {
                    z = ((const C*)a.c)->c_str();
                    for (size_t i = 0; i <= n; i++)
                        if (z[i] != (i < n ? a.m[i] : Ch(0))) same = false;
                }, faults);
                if (settle(res, false) && !same) sim::violation("contents", "c_str() is not the terminated text %s", shows(a.m).c_str());
                break;
            }
            case S_PUSH:
                res = attempt([&] { a.c->push_back(ch); }, faults);
                if (settle(res, false)) a.m.push_back(ch);
                break;
            case S_PUSHSELF: {
                if (!n) break;
                size_t i = p % n;
                res = attempt([&] { a.c->push_back((*(const C*)a.c)[i]); }, faults);
                if (settle(res, false)) a.m.push_back(Ch(a.m[i]));
                break;
            }
            case S_POP:
                res = attempt([&] { a.c->pop_back(); }, faults);
                if (settle(res, n == 0)) a.m.pop_back();
                break;
            case S_ERASE: {
                size_t i = p % (n + 1);
                res = attempt([&] { a.c->erase(i); }, faults);
                if (settle(res, i >= n)) a.m.erase(i, 1);
                break;
            }
            case S_CLEAR:
                res = attempt([&] { a.c->clear(); }, faults);
                if (settle(res, false)) a.m.clear();
                break;
            case S_RESIZE:
                res = attempt([&] { a.c->resize(len); }, faults);
                if (settle(res, false)) a.m.resize(len, Ch(0));
                break;
            case S_RESERVE:
                res = attempt([&] { a.c->reserve(p < 64 ? p % 60 : p); }, faults);
                settle(res, false);
                break;
            case S_SHRINK:
                res = attempt([&] { a.c->shrink_to_fit(); }, faults);
                settle(res, false);
                break;
            case S_EQ: {
                bool eq = false;
                res = attempt([&] { eq = *(const C*)a.c == *(const C*)b.c; }, faults);
                if (settle(res, false) && eq != (a.m == b.m)) sim::violation("contents", "== of two Strings is %d", eq);
                break;
            }
            case S_EQC: {
                bool own = seed % 2 && a.m.find(Ch(0)) == M::npos;
                if (own) {
                    sim::arena_free(tx);
                    tx = (Ch*)sim::arena_alloc((n + 1) * sizeof(Ch));
                    memcpy((void*)tx, a.m.c_str(), (n + 1) * sizeof(Ch));
                }
                bool eq = false;
                if (seed % 7 == 3) {  // no text at all equals no String that holds some
                    res = attempt([&] { eq = *(const C*)a.c == (const Ch*)nullptr; }, faults);
                    if (settle(res, false) && eq && n) sim::violation("contents", "a String of %zu characters equals a null pointer", n);
                    break;
                }
                res = attempt([&] { eq = *(const C*)a.c == (const Ch*)tx; }, faults);
                if (settle(res, false) && eq != (own || a.m == t)) sim::violation("contents", "== of a String and text is %d", eq);
                break;
            }
            case S_INIT:
                res = sconstruct(a, [&](void* m) { new (m) C {ch, Ch('x'), ch}; }, faults);
                if (settle(res, false)) a.m = M {ch, Ch('x'), ch};
                break;
            case S_CONVERT: maybe_std(*a.c, a.m, faults); break;
            case S_FRONT: {
                if (!n) break;
                Ch f = 0, l = 0;
                res = attempt([&] { f = ((const C*)a.c)->front(), l = ((const C*)a.c)->back(); }, faults);
                if (settle(res, false) && (f != a.m[0] || l != a.m[n - 1])) sim::violation("contents", "front or back give another character");
                break;
            }
            case S_VIEW: {
                bool same = true;
                res = attempt([&] {
                    efp::VectorView<Ch> w(*(const C*)a.c);
                    if (w.size() != n) same = false;
                    for (size_t i = 0; i < w.size() && i < n; i++)
                        if (w[i] != a.m[i]) same = false;
                }, faults);
                if (settle(res, false) && !same) sim::violation("contents", "a view differs from its String");
                break;
            }
        }
        sim::arena_free(tx);
        for (int i = 0; i < NP; i++) {
            drv::stats().checks++;
            M got = sread<Ch>(*o[i].c);
            if (got != o[i].m)
                sim::violation(res == OK ? "contents" : "not-unchanged", "a String holds %s after %s%s, expected %s", shows(got).c_str(), res == OK ? "" : "a failed ", g_what,
                               shows(o[i].m).c_str());
        }
    }
    g_what = "destruction";
    for (int i = 0; i < NP; i++) {
        {
            Sut s(false);
            o[i].c->~C();
        }
        sim::arena_free(o[i].mem);
    }
    no_leaks();
}

namespace drv {
// cfg: container element faults
void gen(const std::string&, uint64_t seed, bool thorough, Rec& r, sim::Policy& p) {
    Rng g(seed);
    long kind = (long)g.below(5), elem = (long)g.below(4);
    if (kind > 1) kind = kind < 4 ? 0 : 1;  // Vector more often
    bool str = kind == 1;
    if (str) elem = (long)g.below(4) == 0;
    bool faults = g.below(4) != 0;
    r.scen = str ? "string" : "vector";
    r.cfg = {kind, elem, faults};
    int n = 2 + (int)g.below(thorough ? 40 : 18);
    bool large = g.below(100) == 0;
    long v = 10;
    for (int i = 0; i < n; i++) {
        long op;
        if (str) op = g.below(8) ? (long)g.below(NS) : (long)S_CSTROUT;
        else {
            op = (long)g.below(NV);
            if (g.below(4) == 0) op = g.below(2) ? V_PUSH : V_INSERT;
        }
        r.ops.push_back({op, (long)g.below(g.below(3) ? 2 : NP), (long)g.below(NP), (long)g.below(64), v});
        if (large && g.below(2)) {
            auto& o = r.ops.back();
            o[3] = 64 + (long)g.below(400);
            if (!str && g.below(2)) o[0] = V_BULK;
        }
        v += str ? 1 + (long)g.below(500) : large ? 500 : 4;
    }
    p.mode = 2;
    if (faults) fault_policy(g, p, large ? 30 << g.below(5) : 30);
}
const char* op_name(const Rec& r, const std::vector<long>& op, char* buf, size_t n) {
    bool s = r.scen == "string";
    snprintf(buf, n, "object %ld (other %ld): %s", op.size() > 1 ? op[1] % NP : -1, op.size() > 2 ? op[2] % NP : -1,
             op[0] >= 0 && op[0] < (s ? (long)NS : (long)NV) ? (s ? sname : vname)[op[0]] : "?");
    return buf;
}
void exec(const Rec& r) {
    sim::set_step_limit(20000000);
    if (r.scen == "string") {
        if (r.cfg[1]) exec_str<wchar_t>(r);
        else exec_str<char>(r);
    } else switch (r.cfg[1]) {
        case 0: exec_vec<int>(r); break;
        case 1: exec_vec<TElem>(r); break;
        case 2: exec_vec<String>(r); break;
        default: exec_vec<Pod>(r);
    }
    drv::nontrivial_flag() = true;
}
}  // namespace drv
