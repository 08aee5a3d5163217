// efp::File on a simulated disk: C08 (writes), C09 (reads), C10 (stream ownership),
// C11 (closed and moved-from files).
#include "efp.hpp"
#include "efp/io.hpp"
#include "../sim/driver.h"

using drv::Rec;
using efp::File;
using efp::Maybe;
using efp::String;
using efp::Vector;
using sim::NoSut;
using sim::Rng;
using sim::Sut;

static const double M32 = 4294967295.0;
static const int NSLOT = 4;
static const char* const PATHS[4] = {"a.txt", "b.bin", "c", "missing"};
static const char* const MODES[17] = {"w", "wb", "a", "ab", "r+", "r+b", "w+", "w+b", "a+", "rb+", "r", "rb",
                                      // with the flags stdio libraries add: longer than a File keeps
                                      "wcmecmecme", "wbcmecmecme", "acmecmecmb", "w+cmecmecmeb", "rcmecmecmcme"};
static int longer(int m) { return m == 0 ? 12 : m == 1 ? 13 : m == 2 ? 14 : m == 6 ? 15 : m == 10 ? 16 : m; }
static bool mode_append(int m) { return MODES[m][0] == 'a'; }

// a byte stream that is easy to tell apart: position dependent
static unsigned char byte_of(uint64_t seed, size_t i, int alphabet) {
    uint64_t h = (seed * 0x9E3779B97F4A7C15ull) ^ (i * 0xC2B2AE3D27D4EB4Full);
    h ^= h >> 29;
    h *= 0xBF58476D1CE4E5B9ull;
    h ^= h >> 32;
    static const unsigned char odd[8] = {0, '\n', 0xFF, 0x1A, '\r', 'x', 0x80, '\n'};
    switch (alphabet) {
        case 0: return (unsigned char)('a' + h % 26);
        case 1: return h % 6 == 0 ? (unsigned char)'\n' : (unsigned char)('A' + h % 26);
        case 2: return odd[h % 8];
        default: return (unsigned char)(h & 0xFF);
    }
}
// byte sequences that text handling code likes to treat specially
static const char* const WORDS[28] = {"\xEF\xBB\xBF", "\xFF\xFE", "\xFE\xFF", "\r\n", "\n\r", "\r", "\n", "\n\n", "\x1a", "\x04", "\\\n", "\\", "\"", "#", "//", "\t", " ", "  \n", " \n",
                                       "\t\n", "\x0b", "\x0c", "\xC2\x85", "\xE2\x80\xA8", "\xC0\x80", "\x7f", "%s", "text"};
static std::string bytes(uint64_t seed, size_t n, int alphabet) {
    if (alphabet == 4) {
        std::string w;
        for (size_t i = 0; w.size() < n; i++) w += WORDS[(byte_of(seed, i, 3) * 256u + byte_of(seed, i + 7777, 3)) % 28];
        w.resize(n);
        return w;
    }
    std::string s(n, '\0');
    for (size_t i = 0; i < n; i++) s[i] = (char)byte_of(seed, i, alphabet);
    return s;
}
static std::string disk(const char* path) {
    const unsigned char* d;
    size_t n;
    if (!sim::disk_get(path, &d, &n)) return std::string();
    return std::string((const char*)d, n);
}
static std::string show(const std::string& s) {
    std::string r = "\"";
    char b[8];
    for (size_t i = 0; i < s.size() && i < 60; i++) {
        unsigned char c = (unsigned char)s[i];
        if (c >= 32 && c < 127 && c != '"' && c != '#') r += (char)c;
        else {
            snprintf(b, sizeof b, "<%02x>", c);
            r += b;
        }
    }
    r += "\"";
    snprintf(b, sizeof b, "(%zu)", s.size());
    return r + b;
}
static String mkstr(const std::string& s) {
    // built element by element: how a String is made is not the question here
    String r;
    for (char c : s) r.push_back(c);
    return r;
}
static std::string unstr(const String& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); i++) r.push_back(s[i]);
    return r;
}

// ------------------------------------------------------------- owners of files
struct Slot {
    File* f = nullptr;
    void* mem = nullptr;
};
static Slot slots[NSLOT];
// both forms of open (a C string, a String) are used, as the run's seed says
static uint64_t open_bits;
static bool next_form() {
    NoSut ns;
    open_bits = (open_bits >> 1) | (open_bits << 63);
    return open_bits & 1;
}
static Maybe<File> open_file(const char* path, const char* mode, bool path_faults = false) {
    if (!next_form()) return File::open(path, mode);
    if (path_faults) return File::open(String(path), mode);
    // the path is made without faults, the call itself has them
    alignas(String) char mem[sizeof(String)];
    String* name;
    {
        Sut s(false);
        name = new (mem) String(path);
    }
    struct End {
        String* n;
        ~End() { n->~String(); }
    } end {name};
    return File::open(*name, mode);
}
static void place_begin(int i) { slots[i].mem = sim::arena_place(sizeof(File), alignof(File)); }
static bool open_into(int i, const char* path, const char* mode, bool faults, bool path_faults = false) {
    place_begin(i);
    Sut s(faults);
    Maybe<File> m = open_file(path, mode, path_faults);
    if (!m) {
        NoSut n;
        sim::arena_free(slots[i].mem);
        slots[i].mem = nullptr;
        return false;
    }
    slots[i].f = new (slots[i].mem) File(m.move());
    return true;
}
static void move_into(int to, int from) {
    place_begin(to);
    Sut s(false);
    slots[to].f = new (slots[to].mem) File(efp::move(*slots[from].f));
}
static void destroy(int i, bool faults = false) {
    if (!slots[i].f) return;
    {
        Sut s(faults);
        slots[i].f->~File();
    }
    sim::arena_free(slots[i].mem);
    slots[i] = Slot();
}
static void end_checks() {
    for (int i = 0; i < NSLOT; i++) destroy(i);
    if (int n = sim::disk_open_streams()) sim::violation("stream-leak", "%d streams were never closed", n);
    if (sim::live_blocks()) {
        char d[300];
        sim::describe_live(d, sizeof d);
        sim::violation("leak", "memory leaked: %s", d);
    }
}

// ------------------------------------------------------------- C08
enum WOp { W_CSTR = 1, W_PTR, W_STR, W_FLUSH, W_SEEK, W_TELL, W_CLOSE, W_MOVE, W_REOPEN, W_CHUNK };
// cfg: mode bufmode faults crash torn init_len
static std::string acked;  // what a crash must leave on the disk (append-only runs)
static bool acked_valid, crash_armed;
static long crash_left;
static std::string snap;
static bool snapped;
static std::string snap_acked;
static long torn;
static const char* W_PATH = "a.txt";
static const long FAR = 1000000;  // positions from here on are only looked at, not written to
static const long far_away[6] = {2147483647L, 2147483648L, 4294967295L, 4294967296L, 4294967301L, 1L << 40};

static void on_disk_write(const char* path, size_t n) {
    NoSut ns;
    if (strcmp(path, W_PATH)) return;
    std::string now = disk(W_PATH);
    if (acked_valid && (now.size() < acked.size() || now.compare(0, acked.size(), acked)))
        sim::violation("durability", "bytes acknowledged by flush or close are damaged by a later write");
    if (crash_armed && !snapped && crash_left-- == 0) {
        // the process stops here: only the disk survives, the last write perhaps torn
        snapped = true;
        snap = now;
        size_t cut = torn < 0 ? 0 : n ? (size_t)torn % (n + 1) : 0;
        if (cut <= snap.size()) snap.resize(snap.size() - cut);
        snap_acked = acked;
        sim::count_fault(sim::F_CRASH);
    }
}
static bool subsequence(const std::string& sub, const std::string& all, size_t from) {
    size_t j = from;
    for (char c : sub) {
        while (j < all.size() && all[j] != c) j++;
        if (j == all.size()) return false;
        j++;
    }
    return true;
}

static void exec_write(const Rec& r) {
    int mode = (int)r.cfg[0];
    bool faults = r.cfg[2] != 0;
    sim::disk_bufsize((int)r.cfg[1]);
    std::string model = MODES[mode][0] == 'w' ? std::string() : bytes(7, (size_t)r.cfg[5], 0);
    if (MODES[mode][0] != 'w') sim::disk_set(W_PATH, model.data(), model.size());
    acked = model;
    bool sequential = r.cfg[2] == 1 || mode_append(mode);
    acked_valid = sequential;
    crash_armed = r.cfg[3] >= 0 && acked_valid;
    crash_left = r.cfg[3];
    torn = r.cfg[4];
    snapped = false;
    size_t init = model.size();
    size_t pos = 0;
    size_t furthest = init;
    sim::disk_write_hook = on_disk_write;
    uint64_t f0 = sim::run_faults();
    int cur = 0;
    bool is_open = open_into(cur, W_PATH, MODES[mode], faults);
    if (!is_open) {
        if (sim::run_faults() == f0) sim::violation("open", "open of a writable file gives nothing");
        end_checks();
        return;
    }
    if (faults && mode == 4) pos = 0;
    bool reported = false;
    uint64_t faults_seen = 0;
    std::string maybe = model;  // every byte ever handed to write, in order
    long n = 0;
    auto settle = [&](bool ok, const char* what) {
        // data handed over and acknowledged must now be on the disk
        if (!ok) {
            if (sim::disk_faults() == 0 && !faults) sim::violation("false-failure", "%s reports failure although nothing failed", what);
            return;
        }
        drv::stats().checks++;
        std::string d = disk(W_PATH);
        if (!reported) {
            if (d != model)
                sim::violation("lost-data", "after %s the file holds %s but %s was written and acknowledged (faults fired: %llu)", what,
                               show(d).c_str(), show(model).c_str(), (unsigned long long)sim::disk_faults());
            if (sim::disk_faults() > faults_seen) sim::violation("silent-failure", "an i/o failure was reported by no call (before %s)", what);
            acked = model;
        } else {
            if (sim::disk_faults() > faults_seen) sim::violation("silent-failure", "an i/o failure was reported by no call (before %s)", what);
        }
    };
    auto report = [&]() {
        reported = true;
        faults_seen = sim::disk_faults();
    };
    for (const auto& op : r.ops) {
        int k = (int)op[0];
        n++;
        sim::op_tag(k);
        File* f = slots[cur].f;
        std::string data = k <= W_STR ? bytes((uint64_t)op[2], (size_t)op[1], k == W_CSTR ? (op[2] % 5 == 4 ? 4 : 0) : (int)(op[2] % 5)) : std::string();
        switch (k) {
            case W_CSTR:
            case W_PTR:
            case W_STR: {
                if (is_open && !mode_append(mode) && (long)pos >= FAR) break;
                bool ok;
                char* buf = (char*)sim::arena_alloc(data.size() + (k == W_CSTR ? 1 : 0));
                memcpy(buf, data.data(), data.size());
                if (k == W_CSTR) buf[data.size()] = 0;
                {
                    Sut s0(false);
                    String str = k == W_STR ? mkstr(data) : String();
                    Sut s(faults);
                    if (k == W_CSTR) ok = f->write(buf);
                    else if (k == W_PTR) ok = f->write(buf, data.size());
                    else ok = f->write(str);
                }
                sim::arena_free(buf);
                if (!is_open) {
                    if (ok) sim::violation("closed-write", "write on a closed file returns true");
                    break;
                }
                maybe += data;
                if (!ok) {
                    if (sim::disk_faults() <= faults_seen)
                        sim::violation("false-failure", "write of %zu bytes reports failure although nothing failed", data.size());
                    report();
                } else {
                    if (mode_append(mode) && !data.empty()) pos = model.size();
                    if (pos > model.size() && !data.empty()) model.resize(pos, '\0');
                    if (!data.empty()) model.replace(pos, data.size() < model.size() - pos ? data.size() : model.size() - pos, data);
                    pos += data.size();
                    if (pos > furthest) furthest = pos;
                }
                break;
            }
            case W_FLUSH: {
                int rc;
                {
                    Sut s(faults);
                    rc = f->flush();
                }
                if (!is_open) break;
                if (rc != 0 && sim::disk_faults() > faults_seen) report();
                else settle(rc == 0, "flush");
                break;
            }
            case W_SEEK: {
                if (sequential || !is_open) break;
                long to = op[1];
                bool ok;
                {
                    Sut s(faults);
                    ok = f->seek(to);
                }
                if (!ok && sim::disk_faults() > faults_seen) {  // what was to be written first could not be
                    report();
                    break;
                }
                if (to < 0) {
                    if (ok) sim::violation("seek", "seek to %ld reports success", to);
                    break;
                }
                if (!ok) sim::violation("seek", "seek to %ld reports failure although nothing failed", to);
                pos = (size_t)to;
                break;
            }
            case W_TELL: {
                if (sequential || reported || !is_open) break;
                long t;
                {
                    Sut s(false);
                    t = f->tell();
                }
                if (t != (long)pos) sim::violation("tell", "tell gives %ld but the position is %zu", t, pos);
                break;
            }
            case W_MOVE: {
                int to = (cur + 1) % NSLOT;
                move_into(to, cur);
                destroy(cur);
                cur = to;
                break;
            }
            case W_CLOSE:
            case W_REOPEN: {
                if (k == W_CLOSE && op[1] != 0) break;  // closing for good is rare
                bool ok;
                {
                    Sut s(faults);
                    ok = f->close();
                }
                if (is_open) {
                    if (!ok && sim::disk_faults() > faults_seen) report();
                    else settle(ok, "close");
                } else if (ok) {
                    sim::violation("closed-close", "closing a closed file returns true");
                }
                is_open = false;
                if (k == W_REOPEN && mode_append(mode)) {
                    destroy(cur);
                    is_open = open_into(cur, W_PATH, MODES[mode], false);
                    if (!is_open) sim::violation("open", "reopening for append gives nothing");
                }
                break;
            }
        }
        // the file never holds bytes that were not written
        if (sequential) {
            std::string d = disk(W_PATH);
            if (!subsequence(d, maybe, 0))
                sim::violation("foreign-bytes", "the file holds %s, which is no part of what was written: %s", show(d).c_str(), show(maybe).c_str());
        }
        sim::note((uint64_t)k * 31 + disk(W_PATH).size());
    }
    if (is_open) {
        if (r.ops.size() % 3 == 0) {
            // the destructor closes the stream and hands the rest to the disk
            destroy(cur);
            if (!faults && disk(W_PATH) != model)
                sim::violation("lost-data", "after destruction the file holds %s but %s was written", show(disk(W_PATH)).c_str(), show(model).c_str());
        } else {
            bool ok;
            {
                Sut s(faults);
                ok = slots[cur].f->close();
            }
            if (!ok && sim::disk_faults() > faults_seen) report();
            else settle(ok, "close");
        }
    }
    end_checks();
    if (snapped) {
        // restart after the crash: a new process reads what survived
        drv::nontrivial_flag() = true;
        sim::disk_write_hook = nullptr;
        if (snap.size() < snap_acked.size() || snap.compare(0, snap_acked.size(), snap_acked))
            sim::violation("durability", "after a crash the file holds %s, without acknowledged bytes %s", show(snap).c_str(), show(snap_acked).c_str());
        if (!subsequence(snap, maybe, 0)) sim::violation("foreign-bytes", "after a crash the file holds bytes that were never written");
        sim::disk_set(W_PATH, snap.data(), snap.size());
        {
            Sut s(false);
            Maybe<File> m = open_file(W_PATH, "rb");
            if (!m) sim::violation("open", "the file cannot be opened after the crash");
            File f = m.move();
            std::string got;
            for (;;) {
                Maybe<String> l = f.read_line();
                if (!l) break;
                NoSut ns;
                got += unstr(l.template get<String>());
                got += '\n';
            }
            NoSut ns;
            if (!snap.empty() && snap.back() != '\n' && !got.empty()) got.pop_back();
            if (got != snap) sim::violation("recovery", "after the crash %s is read back as %s", show(snap).c_str(), show(got).c_str());
        }
        end_checks();
    }
}

// ------------------------------------------------------------- C09
enum ROp { R_LINE = 1, R_LINES, R_SEEK, R_TELL, R_MOVE, R_WRITE, R_GROW };
// cfg: mode bufmode faults alphabet len seed longline
// after a read error a line may be cut: set of positions that explain the result
static void exec_read(const Rec& r) {
    int mode = (int)r.cfg[0];
    bool faults = r.cfg[2] != 0;
    sim::disk_bufsize((int)r.cfg[1]);
    std::string content = bytes((uint64_t)r.cfg[5], (size_t)r.cfg[4], (int)r.cfg[3]);
    if (r.cfg[6]) content.insert(content.size() / 2, std::string((size_t)r.cfg[6], 'L'));
    int cur = 0;
    if (MODES[mode][0] == 'w') {
        // written through the library first
        if (!open_into(cur, W_PATH, MODES[mode], false)) sim::violation("open", "open gives nothing");
        Sut s(false);
        String str = mkstr(content);
        if (!slots[cur].f->write(str)) sim::violation("false-failure", "write reports failure although nothing failed");
        if (!slots[cur].f->seek(0)) sim::violation("seek", "seek(0) reports failure");
    } else {
        sim::disk_set(W_PATH, content.data(), content.size());
        uint64_t f0 = sim::run_faults();
        if (!open_into(cur, W_PATH, MODES[mode], faults)) {
            if (sim::run_faults() == f0) sim::violation("open", "open of an existing file gives nothing");
            end_checks();
            return;
        }
        if (MODES[mode][0] == 'a') {
            Sut s(false);
            if (!slots[cur].f->seek(0)) sim::violation("seek", "seek(0) reports failure");
        }
    }
    size_t pos = 0;
    bool can_write = MODES[mode][0] != 'r' || strchr(MODES[mode], '+');
    for (const auto& op : r.ops) {
        int k = (int)op[0];
        sim::op_tag(k);
        File* f = slots[cur].f;
        uint64_t e0 = sim::disk_read_faults(), all0 = sim::disk_faults();
        switch (k) {
            case R_LINE:
            case R_LINES: {
                std::vector<std::string> got;
                bool nothing = false;
                if (k == R_LINE) {
                    Sut s(faults);
                    Maybe<String> l = f->read_line();
                    Sut s2(false);
                    NoSut ns;
                    if (!l) nothing = true;
                    else got.push_back(unstr(l.template get<String>()));
                } else {
                    Sut s(faults);
                    Vector<String> ls = f->read_lines();
                    Sut s2(false);
                    NoSut ns;
                    for (size_t i = 0; i < ls.size(); i++) got.push_back(unstr(ls[i]));
                }
                uint64_t errs = sim::disk_read_faults() - e0;
                drv::stats().checks++;
                if (!errs) {
                    size_t p = pos;
                    size_t limit = k == R_LINE ? 1 : (size_t)-1;
                    std::vector<std::string> want;
                    while (p < content.size() && want.size() < limit) {
                        size_t e = content.find('\n', p);
                        if (e == std::string::npos) {
                            want.push_back(content.substr(p));
                            p = content.size();
                        } else {
                            want.push_back(content.substr(p, e - p));
                            p = e + 1;
                        }
                    }
                    if (k == R_LINE && nothing != want.empty())
                        sim::violation("read", "read_line at position %zu of %zu returns %s", pos, content.size(), nothing ? "nothing" : "a line");
                    if (got != want) {
                        size_t i = 0;
                        while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
                        sim::violation("read", "line %zu from position %zu is %s, expected %s", i, pos,
                                       i < got.size() ? show(got[i]).c_str() : "missing", i < want.size() ? show(want[i]).c_str() : "nothing");
                    }
                    pos = p;
                } else {
                    drv::nontrivial_flag() = true;
                    // prefix of what is there, cut at most once per error
                    std::vector<std::pair<size_t, uint64_t>> st{{pos, 0}}, nx;
                    for (auto& g : got) {
                        nx.clear();
                        for (auto& c : st) {
                            size_t p = c.first;
                            if (p + g.size() > content.size() || content.compare(p, g.size(), g) || g.find('\n') != std::string::npos) continue;
                            size_t e = p + g.size();
                            if (e < content.size() && content[e] == '\n') nx.push_back({e + 1, c.second});
                            if (c.second < errs) nx.push_back({e, c.second + 1});
                            else if (e == content.size()) nx.push_back({e, c.second});
                        }
                        st.swap(nx);
                    }
                    if (st.empty()) sim::violation("read-error", "after a read error the %zu returned lines are not what the file holds (first: %s)", got.size(), got.empty() ? "-" : show(got[0]).c_str());
                    size_t lo = content.size() + 1;
                    for (auto& c : st) lo = c.first < lo ? c.first : lo;
                    // reading goes on from where the file now stands
                    long t;
                    {
                        Sut s(false);
                        t = f->tell();
                    }
                    if (t < (long)lo || t > (long)std::max(content.size(), pos))
                        sim::violation("read-error", "after a read error the position is %ld, expected at least %zu", t, lo);
                    pos = (size_t)t;
                }
                sim::note(got.size() * 977 + pos);
                break;
            }
            case R_SEEK: {
                long to = op[1] < FAR ? op[1] % (long)(content.size() + 3) : op[1];
                bool ok;
                {
                    Sut s(faults);
                    ok = f->seek(to);
                }
                if (to < 0) {  // no such position: the file stays where it is
                    if (ok) sim::violation("seek", "seek to %ld reports success", to);
                    break;
                }
                if (ok) pos = (size_t)to;
                else {
                    if (sim::disk_faults() == all0) sim::violation("seek", "seek to %ld reports failure although nothing failed", to);
                    Sut s(false);
                    if (!f->seek(to)) sim::violation("seek", "seek to %ld keeps failing after the fault has passed", to);
                    pos = (size_t)to;
                }
                break;
            }
            case R_TELL: {
                long t;
                {
                    Sut s(false);
                    t = f->tell();
                }
                if (t != (long)pos) sim::violation("tell", "tell gives %ld but the position is %zu", t, pos);
                break;
            }
            case R_MOVE: {
                int to = (cur + 1) % NSLOT;
                move_into(to, cur);
                destroy(cur);
                cur = to;
                break;
            }
            case R_GROW: {  // another program appends to the file; after a seek reading goes on
                if (disk(W_PATH) != content || pos >= FAR) break;
                content += bytes((uint64_t)op[1] + 7, 1 + (size_t)op[1] % 30, (int)r.cfg[3]);
                sim::disk_set(W_PATH, content.data(), content.size());
                Sut s(false);
                if (!f->seek((long)pos)) sim::violation("seek", "seek to %zu reports failure although nothing failed", pos);
                break;
            }
            case R_WRITE: {
                if (!can_write || faults || (pos >= FAR && !mode_append(mode))) break;
                std::string data = bytes((uint64_t)op[1] + 99, (size_t)op[1] % 20, 1);
                Sut s(false);
                String str = mkstr(data);
                if (!f->seek((long)pos)) sim::violation("seek", "seek reports failure although nothing failed");
                if (!f->write(str)) sim::violation("false-failure", "write reports failure although nothing failed");
                NoSut ns;
                if (mode_append(mode) && !data.empty()) pos = content.size();
                if (pos > content.size() && !data.empty()) content.resize(pos, '\0');
                if (!data.empty()) content.replace(pos, data.size() < content.size() - pos ? data.size() : content.size() - pos, data);
                pos += data.size();
                Sut s2(false);
                if (!f->seek((long)pos)) sim::violation("seek", "seek reports failure although nothing failed");
                break;
            }
        }
    }
    end_checks();
}

// ------------------------------------------------------------- C08 and C09, several files
// Threads that each own files of their own; nothing one does may show in the
// files of another.  cfg: reading bufmode threads seed
struct MF {
    std::string path, model;
    const char* mode = "";
    size_t pos = 0;
    void* mem = nullptr;
    File* f = nullptr;
};
static const Rec* MR;
static void multi_open(MF& m) {
    void* mem = sim::arena_place(sizeof(File), alignof(File));
    {
        Sut s(true);
        Maybe<File> o = open_file(m.path.c_str(), m.mode);
        if (o) m.f = new (mem) File(o.move());
    }
    if (!m.f) sim::violation("open", "open of %s gives nothing although nothing failed", m.path.c_str());
    m.mem = mem;
}
static void multi_drop(MF& m) {
    {
        Sut s(true);
        m.f->~File();
    }
    sim::arena_free(m.mem);
    m.f = nullptr;
}
static void multi_check(MF& m, const char* what) {
    drv::stats().checks++;
    std::string d = disk(m.path.c_str());
    if (d != m.model)
        sim::violation("lost-data", "after %s %s holds %s but %s was written to it", what, m.path.c_str(), show(d).c_str(), show(m.model).c_str());
}
static void multi_thread(void* arg) {
    long t = (long)(intptr_t)arg;
    bool reading = MR->cfg[0] != 0;
    uint64_t seed = (uint64_t)MR->cfg[3];
    MF mf[2];
    for (int i = 0; i < 2; i++) {
        MF& m = mf[i];
        m.path = std::string("f") + (char)('0' + t) + (char)('0' + i);
        m.model = disk(m.path.c_str());
        static const char* const wm[4] = {"w", "wb", "a", "w+"};
        m.mode = reading ? "r" : wm[(seed + (uint64_t)t * 3 + (uint64_t)i) % 4];
        if (m.mode[0] == 'w') m.model.clear();
    }
    for (const auto& op : MR->ops) {
        if (op.size() < 4 || op[0] != t) continue;
        int k = (int)op[1];
        MF& m = mf[op[3] & 1];
        sim::op_tag(k);
        if (!m.f) {
            multi_open(m);
            m.pos = 0;
        }
        if (reading) {
            switch (k) {
                case R_LINE:
                case R_LINES: {
                    std::vector<std::string> got, want;
                    if (k == R_LINE) {
                        Sut s(true);
                        Maybe<String> l = m.f->read_line();
                        NoSut ns;
                        if (l) got.push_back(unstr(l.template get<String>()));
                    } else {
                        Sut s(true);
                        Vector<String> ls = m.f->read_lines();
                        NoSut ns;
                        for (size_t i = 0; i < ls.size(); i++) got.push_back(unstr(ls[i]));
                    }
                    while (m.pos < m.model.size() && (k == R_LINES || want.empty())) {
                        size_t e = m.model.find('\n', m.pos);
                        want.push_back(m.model.substr(m.pos, e == std::string::npos ? e : e - m.pos));
                        m.pos = e == std::string::npos ? m.model.size() : e + 1;
                    }
                    drv::stats().checks++;
                    if (got != want)
                        sim::violation("read", "thread %ld reads %zu lines of %s, expected %zu (first %s, expected %s)", t, got.size(), m.path.c_str(), want.size(),
                                       got.empty() ? "-" : show(got[0]).c_str(), want.empty() ? "-" : show(want[0]).c_str());
                    break;
                }
                case R_SEEK: {
                    long to = op[2] % (long)(m.model.size() + 2);
                    bool ok;
                    {
                        Sut s(true);
                        ok = m.f->seek(to);
                    }
                    if (!ok) sim::violation("seek", "seek reports failure although nothing failed");
                    m.pos = (size_t)to;
                    break;
                }
                case R_TELL: {
                    long at;
                    {
                        Sut s(true);
                        at = m.f->tell();
                    }
                    if (at != (long)m.pos) sim::violation("tell", "thread %ld: tell gives %ld but the position is %zu", t, at, m.pos);
                    break;
                }
            }
        } else {
            switch (k) {
                case W_CSTR:
                case W_PTR:
                case W_STR: {
                    std::string data = bytes((uint64_t)op[2], (size_t)op[2] % 50, k == W_CSTR ? (op[2] % 5 == 4 ? 4 : 0) : (int)(op[2] % 5));
                    char* buf = (char*)sim::arena_alloc(data.size() + 1);
                    memcpy(buf, data.c_str(), data.size() + 1);
                    bool ok;
                    {
                        Sut s0(true);
                        String str = k == W_STR ? mkstr(data) : String();
                        ok = k == W_CSTR ? m.f->write(buf) : k == W_PTR ? m.f->write(buf, data.size()) : m.f->write(str);
                    }
                    sim::arena_free(buf);
                    if (!ok) sim::violation("false-failure", "write reports failure although nothing failed");
                    m.model += data;
                    break;
                }
                case W_FLUSH: {
                    int rc;
                    {
                        Sut s(true);
                        rc = m.f->flush();
                    }
                    if (rc != 0) sim::violation("false-failure", "flush reports failure although nothing failed");
                    multi_check(m, "flush");
                    break;
                }
                case W_CLOSE: {
                    bool ok;
                    {
                        Sut s(true);
                        ok = m.f->close();
                    }
                    if (!ok) sim::violation("false-failure", "close reports failure although nothing failed");
                    multi_check(m, "close");
                    multi_drop(m);
                    m.mode = "a";
                    break;
                }
            }
        }
        if (m.f && k == W_MOVE) {
            void* mem = sim::arena_place(sizeof(File), alignof(File));
            File* n;
            {
                Sut s(true);
                n = new (mem) File(efp::move(*m.f));
                m.f->~File();
            }
            sim::arena_free(m.mem);
            m.f = n;
            m.mem = mem;
        }
        sim::note((uint64_t)t * 131 + (uint64_t)k * 31 + m.pos + m.model.size());
    }
    for (int i = 0; i < 2; i++) {
        MF& m = mf[i];
        if (!m.f) continue;
        multi_drop(m);
        if (!reading) multi_check(m, "destruction");
    }
}
static void exec_multi(const Rec& r) {
    MR = &r;
    sim::disk_write_hook = nullptr;
    sim::disk_bufsize((int)r.cfg[1]);
    for (long t = 1; t <= r.cfg[2]; t++)
        for (int i = 0; i < 2; i++) {
            std::string d = bytes((uint64_t)(r.cfg[3] * 7 + t * 2 + i), (size_t)(r.cfg[3] * 31 + t * 17 + i * 5) % 90, r.cfg[0] ? 1 : 0);
            char p[8] = {'f', (char)('0' + t), (char)('0' + i), 0};
            sim::disk_set(p, d.data(), d.size());
        }
    for (long t = 1; t <= r.cfg[2]; t++) sim::spawn(multi_thread, (void*)(intptr_t)t);
    sim::Status st = sim::run_all();
    if (st == sim::LIMIT) sim::violation("livelock", "calls on files do not end");
    if (st != sim::ALL_DONE) sim::violation("deadlock", "calls on different files wait for each other");
    sim::faults_enable(false);
    end_checks();
}
static void gen_multi(Rng& g, bool reading, int n0, Rec& r, sim::Policy& p) {
    r.scen = "multi";
    int nt = 1 + (int)g.below(4);
    static const int bufs[4] = {-1, 0, 3, 64};
    r.cfg = {reading, bufs[g.below(4)], nt, (long)g.below(100000)};
    for (int t = 1; t <= nt; t++) {
        int n = 1 + (int)g.below((uint32_t)n0);
        for (int i = 0; i < n; i++) {
            static const int rd[8] = {R_LINE, R_LINE, R_LINE, R_LINES, R_SEEK, R_TELL, R_LINE, W_MOVE};
            static const int wr[8] = {W_CSTR, W_PTR, W_STR, W_STR, W_PTR, W_FLUSH, W_CLOSE, W_MOVE};
            r.ops.push_back({t, reading ? rd[g.below(8)] : wr[g.below(8)], (long)g.below(100000), (long)g.below(2)});
        }
    }
    if (nt > 1 && g.below(8)) {
        p.mode = (int)g.below(2);
        static const double mem[4] = {0.002, 0.01, 0.05, 0.25};
        p.p_mem = (uint32_t)(mem[g.below(4)] * M32);
        p.p_sync = (uint32_t)(0.3 * M32);
        p.pct_depth = 1 + (int)g.below(6);
        static const uint32_t len[4] = {60, 200, 600, 1500};
        p.pct_len = len[g.below(4)];
    }
    if (reading && g.below(3) == 0) {
        p.io_kinds = 32u;
        p.p_io = (uint32_t)(0.3 * M32);
    }
}

// ------------------------------------------------------------- C10 and C11
enum LOp { L_OPEN = 1, L_MOVE, L_ASSIGN, L_CLOSE, L_DESTROY, L_WRITE, L_READ, L_FLUSH, L_SEEK, L_TELL, L_LINES, L_MAYBE, L_MASSIGN, L_MCLEAR, L_PUSH, L_POP, L_CLEAR, L_THROW, L_WPTR, L_WCSTR };
struct MStream {
    int path;
    int mode;
    std::string written;
};
static std::vector<MStream> ms;
struct MFile {
    bool live = false;
    int stream = -1;
};
struct Thrown {};

static void exec_life(const Rec& r) {
    bool faults = r.cfg[0] != 0;
    sim::disk_bufsize((int)r.cfg[1]);
    ms.clear();
    MFile mf[NSLOT];
    MFile mm[2];              // Maybe<File> objects
    std::vector<MFile> mv;    // Vector<File>
    void* mmem[2];
    Maybe<File>* mo[2];
    void* vmem = sim::arena_place(sizeof(Vector<File>), alignof(Vector<File>));
    Vector<File>* vec;
    {
        Sut s(false);
        vec = new (vmem) Vector<File>();
    }
    for (int i = 0; i < 2; i++) {
        mmem[i] = sim::arena_place(sizeof(Maybe<File>), alignof(Maybe<File>));
        Sut s(false);
        mo[i] = new (mmem[i]) Maybe<File>(efp::nothing);
        mm[i].live = true;
    }
    for (int i = 0; i < 3; i++) sim::disk_set(PATHS[i], "line1\nline2\n", 12);
    auto closed = [&](int st) {
        if (st < 0) return;
        // data reached the disk when its stream was closed
        ms[(size_t)st].path = -1;
    };
    auto expect_open = [&]() {
        int n = 0;
        for (auto& f : mf) n += f.live && f.stream >= 0;
        for (auto& f : mm) n += f.stream >= 0;
        for (auto& f : mv) n += f.stream >= 0;
        return n;
    };
    int opno = 0;
    for (const auto& op : r.ops) {
        int k = (int)op[0];
        int a = (int)(op[1] % NSLOT), b = (int)(op[2] % NSLOT);
        int p = (int)(op[3] % 4);
        int md = op[3] % 8 == 7 ? longer((int)(op[2] % 12)) : (int)(op[2] % 12);
        sim::op_tag(k);
        opno++;
        MFile& A = mf[a];
        uint64_t c0 = sim::disk_calls(), df0 = sim::disk_faults(), rf0 = sim::run_faults();
        bool closed_file = A.live && A.stream < 0;
        auto inert = [&](bool ok, const char* what) {
            drv::stats().checks++;
            if (!ok) sim::violation("closed-result", "%s on a closed or moved-from file does not report failure", what);
            if (sim::disk_calls() != c0) sim::violation("closed-io", "%s on a closed or moved-from file performs i/o", what);
        };
        switch (k) {
            case L_OPEN: {
                if (A.live) break;
                bool ok = false;
                bool threw = false;
                try {
                    ok = open_into(a, PATHS[p], MODES[md], faults, true);
                } catch (const std::bad_alloc&) {
                    threw = true;
                    if (slots[a].mem) sim::arena_free(slots[a].mem);
                    slots[a] = Slot();
                    if (sim::run_faults() == rf0) sim::violation("exception", "open threw although nothing failed");
                }
                bool should = !(p == 3 && MODES[md][0] == 'r');
                const unsigned char* dd;
                size_t dn;
                if (p == 3 && MODES[md][0] == 'r' && sim::disk_get(PATHS[3], &dd, &dn)) should = true;
                if (ok && !should) sim::violation("open", "opening a missing file for reading gives a file");
                if (!ok && should && sim::run_faults() == rf0) sim::violation("open", "open gives nothing although nothing failed");
                if (ok) {
                    A.live = true;
                    A.stream = (int)ms.size();
                    ms.push_back(MStream{p, md, std::string()});
                }
                (void)threw;
                break;
            }
            case L_MOVE:
                if (!A.live || mf[b].live || a == b) break;
                move_into(b, a);
                mf[b] = A;
                A.stream = -1;
                break;
            case L_ASSIGN: {
                if (!A.live || !mf[b].live) break;
                {
                    Sut s(faults);
                    File& dst = *slots[b].f;
                    File& src = *slots[a].f;
                    dst = efp::move(src);
                }
                if (a != b) {
                    closed(mf[b].stream);
                    mf[b].stream = A.stream;
                    A.stream = -1;
                }
                break;
            }
            case L_CLOSE: {
                if (!A.live) break;
                bool ok;
                {
                    Sut s(faults);
                    ok = slots[a].f->close();
                }
                if (closed_file) inert(!ok, "close");
                else {
                    if (!ok && sim::disk_faults() == df0) sim::violation("false-failure", "close reports failure although nothing failed");
                    if (ok && sim::disk_faults() != df0) sim::violation("silent-failure", "a failing close reports success");
                    closed(A.stream);
                    A.stream = -1;
                }
                break;
            }
            case L_DESTROY:
                if (!A.live) break;
                destroy(a, faults);
                closed(A.stream);
                A = MFile();
                break;
            case L_WRITE:
            case L_WPTR:
            case L_WCSTR: {
                if (!A.live) break;
                std::string data = bytes((uint64_t)op[2], (size_t)op[3] % 30, 0);
                bool ok;
                {
                    Sut s0(false);
                    String str = mkstr(data);
                    Sut s(faults);
                    if (k == L_WRITE) ok = slots[a].f->write(str);
                    else if (k == L_WPTR) ok = slots[a].f->write(data.data(), data.size());
                    else ok = slots[a].f->write(data.c_str());
                }
                if (closed_file) inert(!ok, "write");
                else {
                    int m = ms[(size_t)A.stream].mode;
                    bool can = MODES[m][0] != 'r' || strchr(MODES[m], '+');
                    if (!can && ok && !data.empty()) sim::violation("write", "writing to a file opened for reading succeeds");
                }
                break;
            }
            case L_READ:
            case L_LINES: {
                if (!A.live) break;
                if (!closed_file) {
                    // a position call between writing and reading, as stdio demands
                    Sut s(false);
                    slots[a].f->seek(0);
                }
                c0 = sim::disk_calls();
                size_t n = 0;
                try {
                    Sut s(faults);
                    if (k == L_READ) {
                        Maybe<String> l = slots[a].f->read_line();
                        n = l ? 1 : 0;
                    } else {
                        Vector<String> ls = slots[a].f->read_lines();
                        n = ls.size();
                    }
                } catch (const std::bad_alloc&) {
                    if (sim::run_faults() == rf0) sim::violation("exception", "reading threw although nothing failed");
                }
                if (closed_file) inert(n == 0, "reading");
                else {
                    Sut s(false);
                    slots[a].f->seek(0);
                }
                break;
            }
            case L_FLUSH: {
                if (!A.live) break;
                int rc;
                {
                    Sut s(faults);
                    rc = slots[a].f->flush();
                }
                if (closed_file) inert(rc != 0, "flush");
                break;
            }
            case L_SEEK: {
                if (!A.live) break;
                bool ok;
                {
                    Sut s(faults);
                    ok = slots[a].f->seek(0);
                }
                if (closed_file) inert(!ok, "seek");
                break;
            }
            case L_TELL: {
                if (!A.live) break;
                long t;
                {
                    Sut s(faults);
                    t = slots[a].f->tell();
                }
                if (closed_file) inert(t < 0, "tell");
                break;
            }
            case L_MAYBE: {  // move a file into a Maybe
                if (!A.live) break;
                int i = (int)(op[3] & 1);
                {
                    Sut s(faults);
                    *mo[i] = Maybe<File>(efp::move(*slots[a].f));
                }
                closed(mm[i].stream);
                mm[i].stream = A.stream;
                A.stream = -1;
                break;
            }
            case L_MASSIGN: {  // between two Maybe objects, or a fresh open into one
                int i = (int)(op[3] & 1);
                if (op[2] & 1) {
                    {
                        Sut s(faults);
                        *mo[i] = efp::move(*mo[1 - i]);
                    }
                    closed(mm[i].stream);
                    mm[i].stream = mm[1 - i].stream;
                    mm[1 - i].stream = -1;
                } else {
                    bool ok;
                    {
                        Sut s(faults);
                        *mo[i] = open_file(PATHS[p % 3], MODES[md]);
                        ok = (bool)*mo[i];
                    }
                    closed(mm[i].stream);
                    mm[i].stream = -1;
                    if (ok) {
                        mm[i].stream = (int)ms.size();
                        ms.push_back(MStream{p % 3, md, std::string()});
                    } else if (sim::run_faults() == rf0) {
                        sim::violation("open", "open gives nothing although nothing failed");
                    }
                }
                break;
            }
            case L_MCLEAR: {
                int i = (int)(op[3] & 1);
                {
                    Sut s(faults);
                    *mo[i] = Maybe<File>(efp::nothing);
                }
                closed(mm[i].stream);
                mm[i].stream = -1;
                break;
            }
            case L_PUSH: {
                if (!A.live || mv.size() > 6) break;
                bool ok = false;
                try {
                    Sut s(faults);
                    vec->push_back(efp::move(*slots[a].f));
                    ok = true;
                } catch (const std::bad_alloc&) {
                    if (sim::run_faults() == rf0) sim::violation("exception", "push_back threw although nothing failed");
                }
                if (ok) {
                    mv.push_back(MFile());
                    mv.back().live = true;
                    mv.back().stream = A.stream;
                    A.stream = -1;
                }
                break;
            }
            case L_POP:
                if (mv.empty()) break;
                {
                    Sut s(faults);
                    vec->pop_back();
                }
                closed(mv.back().stream);
                mv.pop_back();
                break;
            case L_CLEAR: {
                {
                    Sut s(faults);
                    vec->clear();
                }
                mv.clear();
                break;
            }
            case L_THROW: {  // an exception passes a scope that owns files
                bool ok = false;
                try {
                    Sut s(faults);
                    Maybe<File> m = open_file(PATHS[p % 3], MODES[md]);
                    ok = (bool)m;
                    if (m) {
                        File f = m.move();
                        f.write("x", 1);
                        throw Thrown();
                    }
                } catch (const Thrown&) {
                }
                if (!ok && sim::run_faults() == rf0) sim::violation("open", "open gives nothing although nothing failed");
                break;
            }
        }
        drv::stats().checks++;
        int want = expect_open(), have = sim::disk_open_streams();
        if (have > want) sim::violation("stream-leak", "%d streams are open although only %d owners hold one (operation %d)", have, want, opno);
        if (have < want) sim::violation("stream-closed", "%d streams are open although %d owners hold one (operation %d)", have, want, opno);
        sim::note((uint64_t)k * 131 + (uint64_t)have);
    }
    for (int i = 0; i < NSLOT; i++) destroy(i);
    for (int i = 0; i < 2; i++) {
        Sut s(false);
        mo[i]->~Maybe<File>();
        NoSut n;
        sim::arena_free(mmem[i]);
    }
    {
        Sut s(false);
        vec->~Vector<File>();
    }
    sim::arena_free(vmem);
    end_checks();
    if (sim::disk_stats().opens != sim::disk_stats().closes)
        sim::violation("stream-leak", "%llu opens but %llu closes", (unsigned long long)sim::disk_stats().opens, (unsigned long long)sim::disk_stats().closes);
}

namespace drv {
const char* op_name(const Rec& r, const std::vector<long>& op, char* buf, size_t n) {
    static const char* w[] = {"?", "write(cstr)", "write(ptr,len)", "write(String)", "flush", "seek", "tell", "close", "move", "reopen"};
    static const char* rd[] = {"?", "read_line", "read_lines", "seek", "tell", "move", "write", "file grows"};
    static const char* l[] = {"?", "open", "move-construct", "move-assign", "close", "destroy", "write(String)", "read_line", "flush", "seek", "tell", "read_lines",
                              "into-Maybe", "assign-Maybe", "clear-Maybe", "push_back", "pop_back", "clear", "throw-through", "write(ptr,len)", "write(cstr)"};
    size_t k = op.empty() ? 0 : (size_t)op[0];
    const char* s = "?";
    if (r.scen == "multi" && op.size() > 1) {
        size_t j = (size_t)op[1];
        snprintf(buf, n, "thread %ld: %s", op[0], r.cfg[0] && op[1] != W_MOVE ? (j < sizeof rd / sizeof *rd ? rd[j] : "?") : j < sizeof w / sizeof *w ? w[j] : "?");
        return buf;
    }
    if (r.scen == "write" && k < sizeof w / sizeof *w) s = w[k];
    if (r.scen == "read" && k < sizeof rd / sizeof *rd) s = rd[k];
    if (r.scen == "life" && k < sizeof l / sizeof *l) s = l[k];
    snprintf(buf, n, "%s", s);
    return buf;
}
static const int BUFS[6] = {-1, 0, 1, 3, 16, 64};

void gen(const std::string& prop, uint64_t seed, bool thorough, Rec& r, sim::Policy& p) {
    Rng g(seed);
    int big = thorough ? 2 : 1;
    p.mode = 2;
    if ((prop == "C08" || prop == "C09") && g.below(12) == 0) {
        gen_multi(g, prop == "C09", 6 * big, r, p);
    } else if (prop == "C08") {
        r.scen = "write";
        int mode = (int)g.below(10);
        bool faults = g.below(2);
        bool seeks = faults && g.below(3) == 0;  // failing writes that a seek brings about
        if (faults && mode >= 4 && !seeks) mode = (int)g.below(4);
        if (g.below(12) == 0) mode = longer(mode);
        long crash = g.below(2) ? (long)g.below(8) : -1;
        r.cfg = {mode, BUFS[g.below(6)], seeks ? 2 : faults, crash, g.below(2) ? (long)g.below(50) : -1, (long)g.below(40)};
        int n = 1 + (int)g.below((uint32_t)(10 * big));
        for (int i = 0; i < n; i++) {
            uint32_t k = g.below(20);
            if (k < 12) {
                long len = g.below(4) == 0 ? (long)g.below(3) : g.below(8) == 0 ? (long)g.below(600) : (long)g.below(40);
                if (g.below(60) == 0) len = 4096 + (long)g.below(3000);
                if (g.below(4000) == 0) len = 65000 + (long)g.below(2000);
                r.ops.push_back({1 + (long)g.below(3), len, (long)g.below(100000)});
            } else if (k < 14) r.ops.push_back({W_FLUSH, 0, 0});
            else if (k < 16) r.ops.push_back({W_SEEK, g.below(12) == 0 ? -1L : g.below(30) == 0 ? far_away[g.below(6)] : g.below(60) == 0 ? (long)g.below(70000) : (long)g.below(120), 0});
            else if (k < 17) r.ops.push_back({W_TELL, 0, 0});
            else if (k < 18) r.ops.push_back({W_MOVE, 0, 0});
            else if (k < 19) r.ops.push_back({W_REOPEN, 0, 0});
            else r.ops.push_back({W_CLOSE, (long)g.below(4), 0});
        }
        if (faults) {
            p.io_kinds = g.below(3) == 0 ? 2u | 4u | 8u | 16u | 256u : g.below(4) == 0 ? 256u : 1u << (1 + g.below(4));
            if (g.below(2)) p.one_io = (long)g.below(12);
            else p.p_io = (uint32_t)((g.below(2) ? 0.05 : 0.3) * M32);
            if (g.below(8) == 0) p.io_kinds |= 1;
        }
    } else if (prop == "C09") {
        r.scen = "read";
        static const int rm[9] = {10, 11, 4, 5, 6, 7, 8, 9, 10};
        int mode = rm[g.below(9)];
        if (g.below(12) == 0) mode = longer(mode);
        bool faults = g.below(3) != 0;
        bool many = g.below(4000) == 0;  // very many lines
        long len = many ? 60000 + (long)g.below(30000) : g.below(3) == 0 ? (long)g.below(6) : g.below(6) == 0 ? (long)g.below(1200) : (long)g.below(120);
        r.cfg = {mode, BUFS[g.below(6)], faults && !many, many ? 1 + (long)g.below(2) : (long)g.below(5), len, (long)g.below(1000000), g.below(2000) == 0 ? (long)(65000 + g.below(2000)) : g.below(40) == 0 ? (long)(1000 + g.below(6000)) : 0};
        int n = 1 + (int)g.below((uint32_t)(8 * big));
        for (int i = 0; i < n; i++) {
            uint32_t k = g.below(13);
            if (k == 12) r.ops.push_back({R_GROW, (long)g.below(1000)});
            else if (k < 5) r.ops.push_back({R_LINE, 0});
            else if (k < 7) r.ops.push_back({R_LINES, 0});
            else if (k < 9) r.ops.push_back({R_SEEK, g.below(40) == 0 ? far_away[g.below(6)] : g.below(12) == 0 ? -1 - (long)g.below(40) : (long)g.below(3000)});
            else if (k < 10) r.ops.push_back({R_TELL, 0});
            else if (k < 11) r.ops.push_back({R_MOVE, 0});
            else r.ops.push_back({R_WRITE, (long)g.below(1000)});
        }
        if (faults && !many) {
            p.io_kinds = g.below(2) ? 32u : g.below(2) ? 64u | 128u : 32u | 64u | 128u | 512u;
            if (g.below(3) == 0) p.one_io = (long)g.below(12);
            else p.p_io = (uint32_t)((g.below(2) ? 0.1 : 0.4) * M32);
        }
    } else {
        r.scen = "life";
        bool faults = g.below(2);
        r.cfg = {faults, BUFS[g.below(6)]};
        int n = 3 + (int)g.below((uint32_t)(14 * big));
        for (int i = 0; i < n; i++) {
            long k;
            if (i < 2 || g.below(5) == 0) k = L_OPEN;
            else if (prop == "C10") {
                static const int c[] = {L_MOVE, L_ASSIGN, L_ASSIGN, L_CLOSE, L_DESTROY, L_WRITE, L_READ, L_MAYBE, L_MASSIGN, L_MCLEAR, L_PUSH, L_PUSH, L_POP, L_CLEAR, L_THROW, L_FLUSH, L_SEEK};
                k = c[g.below(sizeof c / sizeof *c)];
            } else {
                static const int c[] = {L_MOVE, L_ASSIGN, L_CLOSE, L_CLOSE, L_WRITE, L_WPTR, L_WCSTR, L_READ, L_LINES, L_FLUSH, L_SEEK, L_TELL, L_PUSH, L_MAYBE, L_OPEN};
                k = c[g.below(sizeof c / sizeof *c)];
            }
            r.ops.push_back({k, (long)g.below(NSLOT), (long)g.below(48), (long)g.below(64)});
        }
        if (faults) {
            p.io_kinds = g.below(2) ? 1u | 256u : g.below(2) ? ~0u : 256u;
            if (g.below(2)) p.one_io = (long)g.below(8);
            else p.p_io = (uint32_t)((g.below(2) ? 0.1 : 0.4) * M32);
            if (g.below(3) == 0) {
                if (g.below(2)) p.one_alloc = (long)g.below(30);
                else p.p_alloc = (uint32_t)(0.1 * M32);
            }
        }
    }
}
void exec(const Rec& r) {
    sim::disk_on(true);
    sim::set_step_limit(50000000);
    open_bits = (r.seed + 0x9e3779b97f4a7c15ull) * 0xbf58476d1ce4e5b9ull;
    for (int i = 0; i < NSLOT; i++) slots[i] = Slot();
    if (r.scen == "multi") exec_multi(r);
    else if (r.scen == "write") exec_write(r);
    else if (r.scen == "read") exec_read(r);
    else exec_life(r);
}
}  // namespace drv
