// Driver shared by the harnesses: record format, run and replay modes, statistics.
#pragma once
#include "rt.h"
#include <algorithm>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace drv {

struct Rec {
    std::string prop, scen;
    uint64_t seed = 0;
    std::vector<long> cfg;
    std::vector<std::vector<long>> ops;
    std::vector<sim::Choice> ch[sim::NSTREAM];
    bool has_choices = false;
    std::vector<uint64_t> pre;  // runs (seeds) made before this one in the same process
    bool pre_thorough = false;
};

// provided by the harness
void gen(const std::string& prop, uint64_t seed, bool thorough, Rec& r, sim::Policy& p);
void exec(const Rec& r);  // runs one simulation; reports through sim::violation
const char* op_name(const Rec& r, const std::vector<long>& op, char* buf, size_t n);

struct Stats {
    uint64_t runs = 0, nontrivial = 0, ops = 0, checks = 0, inconclusive = 0, known = 0, repeats = 0;
    uint64_t faulted_runs = 0, stuck = 0, mismatches = 0;
};
inline Stats& stats() {
    static Stats s;
    return s;
}
inline Rec*& cur_rec() {
    static Rec* r = nullptr;
    return r;
}
inline std::string& out_path() {
    static std::string s;
    return s;
}
// seeds of the runs this process has made so far
inline std::vector<uint64_t>& past() {
    static std::vector<uint64_t> v;
    return v;
}
inline bool& past_thorough() {
    static bool b = false;
    return b;
}
inline bool& nontrivial_flag() {
    static bool b = false;
    return b;
}

inline std::string to_text(const Rec& r, bool live_choices) {
    std::string s;
    char b[256];
    s += "efpsim 1\n";
    s += "prop " + r.prop + "\n";
    s += "scenario " + r.scen + "\n";
    snprintf(b, sizeof b, "seed %llu\n", (unsigned long long)r.seed);
    s += b;
    s += "cfg";
    for (long c : r.cfg) {
        snprintf(b, sizeof b, " %ld", c);
        s += b;
    }
    s += "\n";
    for (size_t i = 0; i < r.ops.size(); i++) {
        s += "op";
        for (long c : r.ops[i]) {
            snprintf(b, sizeof b, " %ld", c);
            s += b;
        }
        char nb[200];
        s += "   # ";
        s += op_name(r, r.ops[i], nb, sizeof nb);
        s += "\n";
    }
    for (int st = 0; st < sim::NSTREAM; st++) {
        size_t n = 0;
        const sim::Choice* c = nullptr;
        if (live_choices) c = sim::choices((sim::Stream)st, &n);
        else {
            n = r.ch[st].size();
            c = r.ch[st].data();
        }
        for (size_t i = 0; i < n; i++) {
            snprintf(b, sizeof b, "ch %c %u %u\n", sim::stream_letter[st], c[i].ord, c[i].val);
            s += b;
        }
    }
    return s;
}

inline bool load(const char* path, Rec& r, std::string* expect, std::string* hash) {
    FILE* f = fopen(path, "r");
    if (!f) return false;
    char* line = nullptr;
    size_t cap = 0;
    bool ok = false;
    while (getline(&line, &cap, f) > 0) {
        char* c = strchr(line, '#');
        if (c) *c = 0;
        std::string s(line);
        while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back();
        size_t sp = s.find(' ');
        std::string k = s.substr(0, sp), v = sp == std::string::npos ? "" : s.substr(sp + 1);
        if (k == "efpsim") ok = v == "1";
        else if (k == "prop") r.prop = v;
        else if (k == "scenario") r.scen = v;
        else if (k == "seed") r.seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "cfg" || k == "op") {
            std::vector<long> x;
            const char* p = v.c_str();
            char* e;
            for (;;) {
                long n = strtol(p, &e, 10);
                if (e == p) break;
                x.push_back(n);
                p = e;
            }
            if (k == "cfg") r.cfg = x;
            else r.ops.push_back(x);
        } else if (k == "ch") {
            char l;
            unsigned o, w;
            if (sscanf(v.c_str(), "%c %u %u", &l, &o, &w) == 3) {
                const char* q = strchr(sim::stream_letter, l);
                if (q && *q) r.ch[q - sim::stream_letter].push_back(sim::Choice{o, w});
            }
            r.has_choices = true;
        } else if (k == "pre") {
            char t;
            unsigned long long x;
            if (sscanf(v.c_str(), "%c %llu", &t, &x) == 2) {
                r.pre.push_back(x);
                r.pre_thorough = t == 't';
            }
        } else if (k == "expect") {
            if (expect) *expect = v;
        } else if (k == "hash") {
            if (hash) *hash = v;
        }
    }
    free(line);
    fclose(f);
    return ok;
}

inline void write_file(const std::string& path, const std::string& s) {
    int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return;
    size_t off = 0;
    while (off < s.size()) {
        ssize_t n = ::write(fd, s.data() + off, s.size() - off);
        if (n <= 0) break;
        off += (size_t)n;
    }
    ::close(fd);
}

inline void violation_hook(const char* cls, const char* msg) {
    Rec* r = cur_rec();
    std::string s = r ? to_text(*r, true) : std::string();
    char b[128];
    s += std::string("expect ") + cls + "\n";
    snprintf(b, sizeof b, "hash %016llx\n", (unsigned long long)sim::trace_hash());
    s += b;
    s += std::string("# ") + msg + "\n";
    write_file(out_path(), s);
    if (!past().empty()) {
        std::string h;
        for (uint64_t x : past()) {
            snprintf(b, sizeof b, "pre %c %llu\n", past_thorough() ? 't' : 'q', (unsigned long long)x);
            h += b;
        }
        write_file(out_path() + ".past", h);
    }
    _exit(10);
}

inline double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}

inline void run_one(Rec& r, const sim::Policy& p, bool replay) {
    cur_rec() = &r;
    sim::reset(r.seed, p, replay);
    if (replay)
        for (int s = 0; s < sim::NSTREAM; s++)
            for (auto& c : r.ch[s]) sim::replay_choice((sim::Stream)s, c.ord, c.val);
    nontrivial_flag() = false;
    exec(r);
}

inline int main_(int argc, char** argv) {
    // a fixed environment: address layout does not matter, but run once under
    // a personality without randomisation is not needed because no decision
    // depends on an address
    sim::init();
    sim::on_violation = violation_hook;
    if (argc >= 4 && !strcmp(argv[1], "exec")) {
        Rec r;
        if (!load(argv[2], r, nullptr, nullptr)) {
            fprintf(stderr, "cannot read %s\n", argv[2]);
            return 3;
        }
        out_path() = argv[3];
        // only for code that keeps state between calls: the runs before this one
        for (uint64_t seed : r.pre) {
            Rec q;
            sim::Policy qp;
            gen(r.prop, seed, r.pre_thorough, q, qp);
            q.prop = r.prop;
            q.seed = seed;
            run_one(q, qp, false);
        }
        sim::Policy p;
        run_one(r, p, true);
        printf("no violation hash %016llx\n", (unsigned long long)sim::trace_hash());
        return 0;
    }
    if (argc >= 9 && !strcmp(argv[1], "run")) {
        // run PROP TIER SEED FIRST STRIDE COUNT WALL OUT
        std::string prop = argv[2];
        bool thorough = !strcmp(argv[3], "thorough");
        uint64_t base = strtoull(argv[4], nullptr, 10);
        uint64_t first = strtoull(argv[5], nullptr, 10), stride = strtoull(argv[6], nullptr, 10), count = strtoull(argv[7], nullptr, 10);
        double wall = atof(argv[8]);
        std::string out = argv[9];
        out_path() = out + ".viol";
        double t0 = now();
        Stats& st = stats();
        std::vector<uint64_t> hashes;
        std::vector<std::string> samples;
        uint64_t sim_steps = 0, sim_switches = 0;
        bool cut = false;
        past_thorough() = thorough;
        for (uint64_t i = first, k = 0; k < count; i += stride, k++) {
            if ((k & 15) == 0 && now() - t0 > wall) {
                cut = true;
                break;
            }
            sim::Rng mixr(base * 1000003ull + i * 7919ull + 17);
            uint64_t seed = mixr.next() >> 1;
            Rec r;
            sim::Policy p;
            gen(prop, seed, thorough, r, p);
            r.prop = prop;
            r.seed = seed;
            run_one(r, p, false);
            if (past().size() < 4096) past().push_back(seed);
            else {
                past().erase(past().begin(), past().begin() + 2048);
                past().push_back(seed);
            }
            uint64_t h = sim::trace_hash();
            st.runs++;
            st.ops += r.ops.size();
            if (sim::race_known_hit) st.known++;
            if (sim::run_faults()) st.faulted_runs++;
            sim_steps += sim::steps();
            sim_switches += sim::switches();
            if (nontrivial_flag() || sim::run_faults() || sim::switches() > 2) {
                st.nontrivial++;
                uint64_t ih = sim::interleaving_hash();
                if (sim::switches() == 0) {
                    // one thread: what distinguishes runs is the history of calls and faults
                    for (auto& o : r.ops)
                        for (long x : o) ih = (ih ^ (uint64_t)x) * 0x100000001B3ull;
                    ih ^= h;
                }
                hashes.push_back(ih);
            }
            if (samples.size() < 3 && (k % 37) == 5) samples.push_back(to_text(r, true));
            if (k % 101 == 3) {
                // the same seed must give the same execution
                uint64_t f0[sim::NFAULT];
                memcpy(f0, sim::fault_count, sizeof f0);
                Stats keep = st;
                run_one(r, p, false);
                st = keep;
                memcpy(sim::fault_count, f0, sizeof f0);
                st.repeats++;
                if (sim::trace_hash() != h) {
                    // code that does something only once (a static initialised on first use) settles down
                    h = sim::trace_hash();
                    run_one(r, p, false);
                    st = keep;
                    memcpy(sim::fault_count, f0, sizeof f0);
                    if (sim::trace_hash() != h) {
                        st.mismatches++;
                        continue;
                    }
                }
                // and so must a replay of its recorded choices
                Rec q = r;
                for (int s = 0; s < sim::NSTREAM; s++) {
                    size_t n;
                    const sim::Choice* c = sim::choices((sim::Stream)s, &n);
                    q.ch[s].assign(c, c + n);
                }
                sim::Policy quiet;
                keep = st;
                run_one(q, quiet, true);
                st = keep;
                memcpy(sim::fault_count, f0, sizeof f0);
                if (sim::trace_hash() != h) st.mismatches++;
            }
        }
        std::sort(hashes.begin(), hashes.end());
        hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
        std::string hb((const char*)hashes.data(), hashes.size() * 8);
        write_file(out + ".hashes", hb);
        std::string s = "{";
        char b[256];
        auto num = [&](const char* k, uint64_t v) {
            snprintf(b, sizeof b, "\"%s\": %llu, ", k, (unsigned long long)v);
            s += b;
        };
        num("runs", st.runs);
        num("nontrivial", st.nontrivial);
        num("ops", st.ops);
        num("checks", st.checks);
        num("inconclusive", st.inconclusive);
        num("known", st.known);
        num("repeats", st.repeats);
        num("mismatches", st.mismatches);
        num("faulted_runs", st.faulted_runs);
        num("stuck", st.stuck);
        num("points", sim::total_points);
        num("steps", sim_steps);
        num("switches", sim_switches);
        num("cut", cut);
        s += "\"faults\": {";
        for (int i = 0; i < sim::NFAULT; i++) {
            snprintf(b, sizeof b, "%s\"%s\": %llu", i ? ", " : "", sim::fault_name[i], (unsigned long long)sim::fault_count[i]);
            s += b;
        }
        s += "}, \"samples\": [";
        for (size_t i = 0; i < samples.size(); i++) {
            s += i ? ", \"" : "\"";
            for (char c : samples[i]) {
                if (c == '\n') s += "\\n";
                else if (c == '"' || c == '\\') s += '\\', s += c;
                else if ((unsigned char)c < 32) s += ' ';
                else s += c;
            }
            s += "\"";
        }
        snprintf(b, sizeof b, "], \"wall\": %.3f}\n", now() - t0);
        s += b;
        write_file(out + ".stats", s);
        return 0;
    }
    fprintf(stderr, "usage: run PROP TIER SEED FIRST STRIDE COUNT WALL OUT | exec FILE OUT\n");
    return 3;
}
}  // namespace drv

int main(int argc, char** argv) { return drv::main_(argc, argv); }
