// Formatting and printing: C12 (print, println from several threads onto a failing
// stream), C19 (format when memory runs out).
#include "efp.hpp"
#include "../sim/driver.h"

using drv::Rec;
using efp::String;
using efp::Vector;
using sim::NoSut;
using sim::Rng;
using sim::Sut;

static const double M32 = 4294967295.0;

static char letter(uint64_t seed, size_t i) {
    uint64_t h = (seed + 1) * 0x9E3779B97F4A7C15ull + i * 0xC2B2AE3D27D4EB4Full;
    h ^= h >> 29;
    h *= 0xBF58476D1CE4E5B9ull;
    return (char)('a' + (h >> 33) % 26);
}
static std::string letters(uint64_t seed, size_t n) {
    std::string s(n, 0);
    for (size_t i = 0; i < n; i++) s[i] = letter(seed, i);
    return s;
}
static std::string show(const std::string& s, size_t from = 0) {
    std::string r = "\"";
    for (size_t i = from; i < s.size() && i < from + 70; i++) r += s[i] == '\n' ? "\\n" : std::string(1, s[i] == '#' || s[i] < 32 || s[i] > 126 ? '?' : s[i]);
    r += "\"(";
    r += std::to_string(s.size());
    return r + ")";
}
static String mkstr(uint64_t seed, size_t n) {
    String r;
    for (size_t i = 0; i < n; i++) r.push_back(letter(seed, i));
    return r;
}
// any byte may occur in a String
static char byte_at(uint64_t seed, size_t i) {
    static const char b[13] = {0, '\n', '\r', '%', '{', '}', (char)0x80, (char)0xff, (char)0xc3, ' ', 'a', 'z', '\t'};
    return b[(unsigned char)(letter(seed, i) - 'a') % 13];
}
static std::string bytes(uint64_t seed, size_t n) {
    std::string s(n, 0);
    for (size_t i = 0; i < n; i++) s[i] = byte_at(seed, i);
    return s;
}
static String mkbytes(uint64_t seed, size_t n) {
    String r;
    for (size_t i = 0; i < n; i++) r.push_back(byte_at(seed, i));
    return r;
}
static std::string unstr(const String& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); i++) r.push_back(s[i]);
    return r;
}
static long num(uint64_t seed, size_t i) {
    static const long w[6] = {0, -1, 7, 123456, -2147483647 - 1, 2147483647};
    return w[(unsigned char)letter(seed, i) % 6];
}
static std::string joined(uint64_t seed, size_t n) {
    std::string s = "[";
    for (size_t i = 0; i < n; i++) {
        if (i) s += ", ";
        s += std::to_string(num(seed, i));
    }
    return s + "]";
}
// ------------------------------------------------------------- C12
// op: thread kind len
enum { P_STR, P_LNSTR, P_CSTR, P_LNVEC, P_PAD, P_LNPAD, P_BYTES, P_LNBYTES, NPK };
static const char* const pname[NPK] = {"print(String)", "println(String)", "print(cstr)", "println(Vector)", "print(padded)", "println(padded)",
                                       "print(String of any bytes)", "println(String of any bytes)"};
struct Call {
    int t, kind;
    size_t len;
    uint64_t id;
    std::string want;
    uint64_t t0 = 0, t1 = 0;
    int res = -1;  // 0 returned, 1 threw; -1 not finished
    uint64_t faults = 0, io = 0;
    std::string got;  // bytes written during the call (unbuffered)
};
static std::vector<Call>* calls;
static int now_op[sim::MAXF];
static bool attributed;
static std::string out;  // what reached standard output
static std::vector<std::pair<int, size_t>> chunks;
static const char* OUT = "stdout";

static void on_write(const char* path, size_t n) {
    NoSut ns;
    if (strcmp(path, OUT) || n == 0) return;
    const unsigned char* d;
    size_t k;
    sim::disk_get(OUT, &d, &k);
    int op = now_op[sim::cur()];
    if (attributed && op >= 0) {
        (*calls)[(size_t)op].got.append((const char*)d + k - n, n);
        if (chunks.empty() || chunks.back().first != op) chunks.push_back({op, n});
        else chunks.back().second += n;
    }
}
static std::string want_of(const Call& c) {
    std::string h = "<" + std::to_string(c.t) + ":" + std::to_string(c.id) + "|";
    std::string b;
    switch (c.kind) {
        case P_STR:
        case P_LNSTR:
        case P_CSTR: b = letters(c.id, c.len); break;
        case P_BYTES:
        case P_LNBYTES: b = bytes(c.id, c.len); break;
        case P_LNVEC: b = joined(c.id, c.len / 8); break;
        default: b = c.len > 1 ? std::string(c.len - 1, ' ') + "7" : "7";
    }
    b = h + b + ">";
    if (c.kind == P_LNSTR || c.kind == P_LNVEC || c.kind == P_LNPAD || c.kind == P_LNBYTES) b += "\n";
    return b;
}
static int io_seen;
static void do_call(size_t k) {
    Call& c = (*calls)[k];
    int me = sim::cur();
    sim::op_tag(c.kind + 1);
    std::string body = c.kind <= P_CSTR ? letters(c.id, c.len) : std::string();
    char* cs = nullptr;
    if (c.kind == P_CSTR) {
        cs = (char*)sim::arena_alloc(body.size() + 1);
        memcpy(cs, body.c_str(), body.size() + 1);
    }
    {
        Sut quiet(false);
        String str = c.kind <= P_LNSTR ? mkstr(c.id, c.len) : c.kind >= P_BYTES ? mkbytes(c.id, c.len) : String();
        Vector<int> vec;
        if (c.kind == P_LNVEC)
            for (size_t i = 0; i < c.len / 8; i++) vec.push_back((int)num(c.id, i));
        int t = c.t, id = (int)c.id, w = (int)c.len, seven = 7;
        now_op[me] = (int)k;
        uint64_t f0 = sim::fiber_faults(me);
        c.t0 = sim::tick();
        try {
            Sut s(true);
            switch (c.kind) {
                case P_STR: efp::print("<{}:{}|{}>", t, id, str); break;
                case P_LNSTR: efp::println("<{}:{}|{}>", t, id, str); break;
                case P_CSTR: efp::print("<{}:{}|{}>", t, id, (const char*)cs); break;
                case P_LNVEC: efp::println("<{}:{}|{}>", t, id, vec); break;
                case P_BYTES: efp::print("<{}:{}|{}>", t, id, str); break;
                case P_LNBYTES: efp::println("<{}:{}|{}>", t, id, str); break;
                case P_PAD: efp::print("<{}:{}|{:>{}}>", t, id, seven, w); break;
                default: efp::println("<{}:{}|{:>{}}>", t, id, seven, w);
            }
            c.res = 0;
        } catch (const std::exception&) {
            c.res = 1;
        }
        c.t1 = sim::tick();
        now_op[me] = -1;
        c.faults = sim::fiber_faults(me) - f0;
    }
    if (cs) sim::arena_free(cs);
    if (c.res == 1 && c.faults == 0) sim::violation("false-failure", "%s throws although nothing failed", pname[c.kind]);
}
static void worker(void* a) {
    int me = (int)(long)a;
    for (size_t k = 0; k < calls->size(); k++)
        if ((*calls)[k].t == me) do_call(k);
}
// cfg: threads bufmode alloc_faults io_faults
static void exec_print(const Rec& r) {
    int nt = (int)r.cfg[0];
    sim::disk_bufsize((int)r.cfg[1]);
    attributed = r.cfg[1] == 0;
    static std::vector<Call> cs;
    cs.clear();
    calls = &cs;
    chunks.clear();
    uint64_t id = 10;
    for (const auto& op : r.ops) {
        Call c;
        c.t = (int)op[0];
        if (c.t < 1 || c.t > nt) continue;
        c.kind = (int)op[1];
        c.len = (size_t)op[2];
        c.id = id++;
        c.want = want_of(c);
        cs.push_back(c);
    }
    for (int i = 0; i < sim::MAXF; i++) now_op[i] = -1;
    sim::disk_write_hook = on_write;
    FILE* real_out = stdout;
    FILE* f = sim::disk_stream(OUT, "w");
    stdout = f;
    for (int t = 1; t <= nt; t++) sim::spawn(worker, (void*)(long)t);
    sim::Status st = sim::run_all();
    sim::faults_enable(false);
    stdout = real_out;
    if (st != sim::ALL_DONE) sim::violation("deadlock", "a printing thread never returns");
    fflush(f);
    const unsigned char* d;
    size_t n;
    std::string text;
    if (sim::disk_get(OUT, &d, &n)) text.assign((const char*)d, n);
    sim::disk_close_harness(f);
    drv::stats().checks++;
    std::vector<std::pair<size_t, size_t>> order;  // call, position
    if (attributed) {
        // every write is known to belong to a call
        std::vector<int> seen(cs.size(), 0);
        for (auto& c : chunks) {
            if (seen[(size_t)c.first]++)
                sim::violation("interleaved", "the text of one %s is broken up by the text of another thread: %s", pname[cs[(size_t)c.first].kind], show(text).c_str());
            order.push_back({(size_t)c.first, 0});
        }
        for (size_t k = 0; k < cs.size(); k++) {
            Call& c = cs[k];
            if (c.res == 0 && c.got != c.want)
                sim::violation("lost-text", "%s returned normally but %s of %s was emitted (faults in the call: %llu)", pname[c.kind], show(c.got).c_str(),
                               show(c.want).c_str(), (unsigned long long)c.faults);
            if (c.res == 1) {
                if (c.want.compare(0, c.got.size(), c.got)) sim::violation("foreign-text", "%s emitted %s instead of %s", pname[c.kind], show(c.got).c_str(), show(c.want).c_str());
                if (!r.cfg[3] && !c.got.empty()) sim::violation("partial-text", "%s failed for lack of memory but emitted %s", pname[c.kind], show(c.got).c_str());
            }
        }
    } else {
        std::vector<char> done(cs.size(), 0);
        size_t p = 0;
        while (p < text.size()) {
            size_t hit = cs.size();
            for (size_t k = 0; k < cs.size(); k++)
                if (!done[k] && cs[k].res == 0 && text.compare(p, cs[k].want.size(), cs[k].want) == 0) {
                    hit = k;
                    break;
                }
            if (hit == cs.size()) sim::violation("interleaved", "at byte %zu the output is no whole message of a call that returned: %s", p, show(text, p).c_str());
            done[hit] = 1;
            order.push_back({hit, p});
            p += cs[hit].want.size();
        }
        for (size_t k = 0; k < cs.size(); k++)
            if (cs[k].res == 0 && !done[k]) sim::violation("lost-text", "%s returned normally but its text %s never appeared", pname[cs[k].kind], show(cs[k].want).c_str());
    }
    for (size_t i = 0; i < order.size(); i++)
        for (size_t j = i + 1; j < order.size(); j++)
            if (cs[order[j].first].t1 < cs[order[i].first].t0)
                sim::violation("order", "a message appears after the message of a call that began when it was already complete");
    for (auto& c : cs) sim::note((uint64_t)c.res * 31 + c.t1);
    if (sim::live_blocks()) {
        char b[300];
        sim::describe_live(b, sizeof b);
        sim::violation("leak", "memory leaked: %s", b);
    }
    drv::nontrivial_flag() = cs.size() > 1;
}

// ------------------------------------------------------------- C19
// op: kind len seed
enum { F_STR, F_CSTR, F_VEC, F_VECSTR, F_ARRVEC, F_PAD, F_PREC, F_MANY, F_VCQ, F_ARRAY, F_INT, F_VCB, F_TWICE, F_BYTES, F_SPEC, F_ARGS, F_EXP, F_SHORTEST, F_REFUSED, F_ORDER, NFK };
static const char* const fname[NFK] = {"format(String)",  "format(cstr)", "format(Vector<int>)", "format(Vector<cstr>)", "format(ArrVec)",     "format(padded)",
                                       "format(precise)", "format(many)", "format(Vcq)",         "format(Array)",          "format(integers)", "format(Vcb)",
                                       "nested format",   "format(String of any bytes)", "format(String with width and precision)", "format(15 to 20 arguments)", "format(double with exponent)", "format(double)", "format with a negative width",
                                       "format(numbered arguments)"};

template<typename F>
static void try_format(int kind, const std::string& want, const F& call, bool faults) {
    std::string got;
    bool ok = false;
    uint64_t f0 = sim::run_faults();
    {
        Sut s(faults);
        try {
            String str = call();
            NoSut n;
            got = unstr(str);
            {
                Sut again(false);
                const char* z = str.c_str();
                NoSut n2;
                if (memcmp(z, want.c_str(), want.size() + 1)) sim::violation("wrong-text", "%s: c_str() is not the text", fname[kind]);
            }
            ok = true;
        } catch (const std::exception&) {
        }
    }
    if (ok && got != want) sim::violation("wrong-text", "%s gives %s, expected %s", fname[kind], show(got).c_str(), show(want).c_str());
    if (!ok && sim::run_faults() == f0) sim::violation("false-failure", "%s throws although nothing failed", fname[kind]);
    drv::stats().checks++;
    sim::note(ok);
}
static double dbl(uint64_t seed) {
    uint64_t h = (seed + 11) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 30;
    h *= 0xBF58476D1CE4E5B9ull;
    h ^= h >> 27;
    h *= 0x94D049BB133111EBull;
    static const double odd[8] = {0.0, -0.0, 0.1, 1e16, 123456789012345678.0, 5e-324, 1.7976931348623157e308, 9007199254740993.0};
    if (seed % 9 == 0) return odd[(h >> 20) % 8];
    if (seed % 3 == 0) return (double)((long)(h >> 40) - 8000000) / 1000.0;
    double d;
    if ((h >> 52 & 0x7ff) == 0x7ff) h ^= 1ull << 60;
    memcpy(&d, &h, sizeof d);
    return d;
}
// the shortest digits that read back as the same number
static std::string digits_of(const std::string& t) {
    std::string d;
    for (char c : t) {
        if (c == 'e' || c == 'E') break;
        if (c >= '0' && c <= '9' && !(d.empty() && c == '0')) d += c;
    }
    while (!d.empty() && d.back() == '0') d.pop_back();
    return d;
}
static void shortest(double x, bool faults) {
    std::string got;
    bool ok = false;
    uint64_t f0 = sim::run_faults();
    {
        Sut s(faults);
        try {
            String str = efp::format("{}", x);
            NoSut n;
            got = unstr(str);
            ok = true;
        } catch (const std::exception&) {
        }
    }
    if (!ok && sim::run_faults() == f0) sim::violation("false-failure", "format of a double throws although nothing failed");
    if (!ok) return;
    char b[64];
    int p = 1;
    for (; p < 17; p++) {
        snprintf(b, sizeof b, "%.*e", p - 1, x);
        if (strtod(b, nullptr) == x) break;
    }
    snprintf(b, sizeof b, "%.*e", p - 1, x);
    char* e = nullptr;
    double back = strtod(got.c_str(), &e);
    if (*e || memcmp(&back, &x, sizeof x) || digits_of(got) != digits_of(b)) sim::violation("wrong-text", "format of the double %s gives %s", b, show(got).c_str());
    drv::stats().checks++;
}
// a call that must be refused after part of the text has been put together
template<typename F>
static void refused(const F& call, bool faults) {
    uint64_t f0 = sim::run_faults();
    bool bad = false, mem = false;
    {
        Sut s(faults);
        try {
            String str = call();
        } catch (const std::bad_alloc&) {
            mem = true;
        } catch (const std::exception&) {
            bad = true;
        }
    }
    if (mem && sim::run_faults() == f0) sim::violation("false-failure", "format runs out of memory although nothing failed");
    if (!bad && !mem) sim::violation("no-error", "format accepts a negative width");
    drv::stats().checks++;
}
template<typename C, typename F>
static void with(int kind, C& c, const std::string& want, const F& call, bool faults) {
    try_format(kind, want, [&] { return call(c); }, faults);
    // the argument is unchanged and a later call is unaffected by an earlier failure
    try_format(kind, want, [&] { return call(c); }, false);
}
static void exec_format(const Rec& r) {
    bool faults = r.cfg[0] != 0;
    for (const auto& op : r.ops) {
        int kind = (int)op[0];
        size_t len = (size_t)op[1];
        uint64_t seed = (uint64_t)op[2];
        sim::op_tag(kind + 1);
        size_t blocks = sim::live_blocks();
        {
            Sut quiet(false);
            switch (kind) {
                case F_STR: {
                    String s = mkstr(seed, len);
                    with(kind, s, "a" + letters(seed, len) + "-" + std::to_string(num(seed, 1)) + "z",
                         [&](String& x) { return efp::format("a{}-{}z", x, (int)num(seed, 1)); }, faults);
                    break;
                }
                case F_CSTR: {
                    NoSut n;
                    char* p = (char*)sim::arena_alloc(len + 1);
                    std::string t = letters(seed, len);
                    memcpy(p, t.c_str(), len + 1);
                    {
                        Sut q(false);
                        with(kind, p, t + "|" + t, [&](char* x) { return efp::format("{0}|{0}", (const char*)x); }, faults);
                    }
                    sim::arena_free(p);
                    break;
                }
                case F_VEC: {
                    Vector<int> v;
                    for (size_t i = 0; i < len / 4; i++) v.push_back((int)num(seed, i));
                    with(kind, v, joined(seed, len / 4) + "!", [&](Vector<int>& x) { return efp::format("{}!", x); }, faults);
                    break;
                }
                case F_VECSTR: {
                    NoSut n;
                    std::string want = "[", t = letters(seed, 40);
                    char* p = (char*)sim::arena_alloc(41);
                    memcpy(p, t.c_str(), 41);
                    {
                        Sut q(false);
                        Vector<const char*> v;
                        for (size_t i = 0; i < len / 20; i++) {
                            v.push_back(p + 20 + i % 20);
                            NoSut ns;
                            want += (i ? ", " : "") + t.substr(20 + i % 20);
                        }
                        with(kind, v, want + "]", [&](Vector<const char*>& x) { return efp::format("{}", x); }, faults);
                    }
                    sim::arena_free(p);
                    break;
                }
                case F_ARRVEC: {
                    efp::ArrVec<long, 40> v;
                    size_t n = len % 41;
                    for (size_t i = 0; i < n; i++) v.push_back(num(seed, i));
                    with(kind, v, joined(seed, n), [&](efp::ArrVec<long, 40>& x) { return efp::format("{}", x); }, faults);
                    break;
                }
                case F_PAD: {
                    int w = (int)len, k = (int)num(seed, 3);
                    std::string d = std::to_string(k);
                    std::string want = "(" + (d.size() < len ? d + std::string(len - d.size(), '*') : d) + ")";
                    with(kind, k, want, [&](int& x) { return efp::format("({:*<{}})", x, w); }, faults);
                    break;
                }
                case F_PREC: {
                    int prec = (int)(len % 700);
                    double x = (double)num(seed, 5) + 0.5;
                    char b[1000];
                    {
                        NoSut n;
                        snprintf(b, sizeof b, "%.*f", prec, x);
                    }
                    with(kind, x, std::string(b), [&](double& y) { return efp::format("{:.{}f}", y, prec); }, faults);
                    break;
                }
                case F_MANY: {
                    String s = mkstr(seed, len / 3);
                    std::string t = letters(seed, len / 3);
                    with(kind, s, t + "1" + t + "x" + t + "{}" + t + "end",
                         [&](String& x) { return efp::format("{}{}{}{}{}{{}}{}end", x, 1, x, 'x', x, x); }, faults);
                    break;
                }
                case F_VCQ: {
                    efp::Vcq<int, 7> q;
                    size_t n = len % 23;
                    for (size_t i = 0; i < n; i++) q.push_back((int)num(seed, i));
                    size_t pops = q.size() ? seed % (q.size() + 1) : 0;
                    for (size_t i = 0; i < pops; i++) q.pop_front();
                    std::string want = "[";
                    for (size_t i = n - (n < 7 ? n : 7) + pops; i < n; i++) {
                        if (want.size() > 1) want += ", ";
                        want += std::to_string(num(seed, i));
                    }
                    with(kind, q, want + "]", [&](efp::Vcq<int, 7>& x) { return efp::format("{}", x); }, faults);
                    break;
                }
                case F_VCB: {
                    efp::Vcb<int, 5> q;
                    size_t n = 5 + len % 23;
                    for (size_t i = 0; i < n; i++) q.push_back((int)num(seed, i));
                    std::string want = "[";
                    for (size_t i = n - 5; i < n; i++) {
                        if (want.size() > 1) want += ", ";
                        want += std::to_string(num(seed, i));
                    }
                    with(kind, q, want + "]", [&](efp::Vcb<int, 5>& x) { return efp::format("{}", x); }, faults);
                    break;
                }
                case F_TWICE: {
                    String s = mkstr(seed, len);
                    with(kind, s, "(" + letters(seed, len) + ")" + std::string(3, ' ') + "7" + letters(seed, len),
                         [&](String& x) { return efp::format("{}{:4}{}", efp::format("({})", x), 7, x); }, faults);
                    break;
                }
                case F_BYTES: {
                    String s = mkbytes(seed, len);
                    std::string t = bytes(seed, len);
                    with(kind, s, t + "=" + t, [&](String& x) { return efp::format("{}={}", x, x); }, faults);
                    break;
                }
                case F_SPEC: {
                    String s = mkstr(seed, len);
                    size_t prec = seed % (len + 20), wid = (seed / 7) % (len + 30);
                    std::string t = letters(seed, len).substr(0, prec);
                    size_t pad = wid > t.size() ? wid - t.size() : 0;
                    std::string want = std::string(pad / 2, '_') + t + std::string(pad - pad / 2, '_');
                    with(kind, s, want, [&](String& x) { return efp::format("{:_^{}.{}}", x, (int)wid, (int)prec); }, faults);
                    break;
                }
                case F_ARGS: {
                    String s = mkstr(seed, len % 60);
                    std::string t = letters(seed, len % 60);
                    int a = (int)num(seed, 1);
                    long b = num(seed, 2);
                    std::string A = std::to_string(a), B = std::to_string(b);
                    std::string twelve = t + A + "," + B + ",c" + t + A + "," + B + ",c" + t + A + "," + B + ",c";
                    switch (seed % 4) {
                        case 0:
                            with(kind, s, twelve + "true" + t + "7", [&](String& x) { return efp::format("{}{},{},{}{}{},{},{}{}{},{},{}{}{}{}", x, a, b, 'c', x, a, b, 'c', x, a, b, 'c', true, x, 7u); }, faults);
                            break;
                        case 1:
                            with(kind, s, twelve + "true" + t + "7" + t, [&](String& x) { return efp::format("{}{},{},{}{}{},{},{}{}{},{},{}{}{}{}{}", x, a, b, 'c', x, a, b, 'c', x, a, b, 'c', true, x, 7u, x); }, faults);
                            break;
                        case 2:
                            with(kind, s, twelve + "true" + t + "7false" + B, [&](String& x) { return efp::format("{}{},{},{}{}{},{},{}{}{},{},{}{}{}{}{}{}", x, a, b, 'c', x, a, b, 'c', x, a, b, 'c', true, x, 7u, false, b); }, faults);
                            break;
                        default:
                            with(kind, s, twelve + "true" + t + "7false" + B + t + A + ".", [&](String& x) { return efp::format("{}{},{},{}{}{},{},{}{}{},{},{}{}{}{}{}{}{}{}{}", x, a, b, 'c', x, a, b, 'c', x, a, b, 'c', true, x, 7u, false, b, x, a, '.'); }, faults);
                    }
                    break;
                }
                case F_EXP: {
                    int prec = (int)(len % 40);
                    double x = dbl(seed);
                    char b[200];
                    {
                        NoSut n;
                        snprintf(b, sizeof b, seed % 2 ? "%.*e" : "%+.*e", prec, x);
                    }
                    if (seed % 2) with(kind, x, std::string(b), [&](double& y) { return efp::format("{:.{}e}", y, prec); }, faults);
                    else with(kind, x, std::string(b), [&](double& y) { return efp::format("{:+.{}e}", y, prec); }, faults);
                    break;
                }
                case F_SHORTEST: {
                    NoSut n;
                    shortest(dbl(seed), faults);
                    shortest(dbl(seed), false);
                    break;
                }
                case F_REFUSED: {
                    NoSut n;
                    String s;
                    {
                        Sut q(false);
                        s = mkstr(seed, len);
                    }
                    int w = -1 - (int)(seed % 100);
                    refused([&] { return efp::format("{}{:{}}{}", s, 7, w, s); }, faults);
                    {
                        Sut q(false);
                        s = String();
                    }
                    break;
                }
                case F_ORDER: {
                    String s = mkstr(seed, len);
                    std::string t = letters(seed, len);
                    int a = (int)num(seed, 4);
                    char b[64];
                    {
                        NoSut n;
                        snprintf(b, sizeof b, "|%08d|%+d|%#x|%X", a, a, 255u, (unsigned)seed);
                    }
                    with(kind, s, t + std::to_string(a) + t + b, [&](String& x) { return efp::format("{1}{0}{1}|{0:08}|{0:+}|{2:#x}|{3:X}", a, x, 255u, (unsigned)seed); }, faults);
                    break;
                }
                case F_ARRAY: {
                    NoSut n;
                    std::string t = letters(seed, len);
                    char* p = (char*)sim::arena_alloc(len + 1);
                    memcpy(p, t.c_str(), len + 1);
                    {
                        Sut q(false);
                        efp::Array<const char*, 3> a = {p, "", "xyz"};
                        with(kind, a, "[" + t + ", , xyz]", [&](efp::Array<const char*, 3>& x) { return efp::format("{}", x); }, faults);
                    }
                    sim::arena_free(p);
                    break;
                }
                case F_INT: {
                    int a = (int)num(seed, 1);
                    unsigned long b = (unsigned long)(seed * 0x9E3779B97F4A7C15ull);
                    char buf[200];
                    {
                        NoSut n;
                        snprintf(buf, sizeof buf, "%d %lx %lu %5d|", a, b, b, (int)(len % 1000));
                    }
                    with(kind, a, std::string(buf), [&](int& x) { return efp::format("{} {:x} {} {:5}|", x, b, b, (int)(len % 1000)); }, faults);
                    break;
                }
            }
        }
        if (sim::live_blocks() != blocks) {
            char b[300];
            sim::describe_live(b, sizeof b);
            sim::violation("leak", "%s leaked memory: %s", fname[kind], b);
        }
    }
    drv::nontrivial_flag() = true;
}

namespace drv {
void gen(const std::string& prop, uint64_t seed, bool thorough, Rec& r, sim::Policy& p) {
    Rng g(seed);
    auto length = [&]() -> long {
        if (g.below(prop == "C12" ? 400 : 60) == 0) return (long)g.below(g.below(8) ? 40000 : 150000);
        static const long edge[10] = {0, 1, 480, 494, 499, 500, 501, 740, 755, 1100};
        switch (g.below(6)) {
            case 0: return (long)g.below(30);
            case 1: return edge[g.below(10)] + (long)g.below(12);
            case 2: return (long)g.below(600);
            case 3: return (long)g.below(thorough ? 6000 : 2500);
            case 4: return 470 + (long)g.below(40);
            default: return (long)g.below(100);
        }
    };
    if (prop == "C12") {
        r.scen = "print";
        static const long bm[8] = {0, 0, -1, 1, 16, 64, -64, 600};
        long mode = bm[g.below(8)];
        int nt = 1 + (int)g.below(5);
        bool af = g.below(3) == 0, iof = mode == 0 && g.below(2);
        r.cfg = {nt, mode, af, iof};
        for (int t = 1; t <= nt; t++) {
            int n = 1 + (int)g.below(4);
            for (int i = 0; i < n; i++) r.ops.push_back({t, (long)g.below(NPK), g.below(4) ? (long)g.below(24) : length()});
        }
        uint32_t m = g.below(8);
        static const double mem[4] = {0.0005, 0.003, 0.01, 0.05};
        static const double syn[4] = {0.05, 0.2, 0.5, 0.8};
        if (m < 4) {
            p.mode = 0;
            p.p_mem = (uint32_t)(mem[g.below(4)] * M32);
            p.p_sync = (uint32_t)(syn[g.below(4)] * M32);
            if (g.below(4) == 0) {
                p.starve = 1 + (int)g.below((uint32_t)nt);
                sim::count_fault(sim::F_STALL);
            }
        } else if (m < 7) {
            p.mode = 1;
            p.pct_depth = 1 + (int)g.below(6);
            static const uint32_t len[4] = {200, 1000, 4000, 15000};
            p.pct_len = len[g.below(4)];
        } else {
            p.p_sync = (uint32_t)(0.5 * M32);
        }
        if (af) {
            if (g.below(2)) p.one_alloc = (long)g.below(25);
            else p.p_alloc = (uint32_t)((g.below(2) ? 0.1 : 0.4) * M32);
        }
        if (iof) {
            if (g.below(2)) p.one_io = (long)g.below(12);
            else p.p_io = (uint32_t)((g.below(2) ? 0.1 : 0.4) * M32);
        }
    } else {
        r.scen = "format";
        bool f = g.below(4) != 0;
        r.cfg = {f};
        int n = 1 + (int)g.below(thorough ? 6 : 3);
        for (int i = 0; i < n; i++) r.ops.push_back({(long)g.below(NFK), length(), (long)g.below(60000)});
        p.mode = 2;
        if (f) {
            if (g.below(3)) p.one_alloc = (long)g.below(14);
            else p.p_alloc = (uint32_t)((g.below(2) ? 0.1 : 0.4) * M32);
        }
    }
}
const char* op_name(const Rec& r, const std::vector<long>& op, char* buf, size_t n) {
    if (r.scen == "print") snprintf(buf, n, "thread %ld: %s of about %ld", op[0], op[1] >= 0 && op[1] < NPK ? pname[op[1]] : "?", op[2]);
    else snprintf(buf, n, "%s of about %ld", op[0] >= 0 && op[0] < NFK ? fname[op[0]] : "?", op[1]);
    return buf;
}
void exec(const Rec& r) {
    sim::disk_on(true);
    sim::set_step_limit(50000000);
    if (r.scen == "print") exec_print(r);
    else exec_format(r);
}
}  // namespace drv
