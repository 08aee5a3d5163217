#include "lin.h"
#include <stdlib.h>
#include <string.h>
namespace lin {
uint64_t nodes;
typedef unsigned __int128 Mask;
struct Q {
    int n;
    long v[MAXOPS];
};
struct State {
    Q a, b;  // a: queue or write buffer, b: read buffer
};
static const Op* O;
static int N, CAP;
static Model M;
static bool END_EMPTY;
static uint64_t LIMIT_NODES = 400000;

struct Key {
    uint64_t h1, h2;
};
static Key* memo;
static const size_t MEMO = 1u << 20;
static uint32_t* stamp;
static uint32_t cur_stamp;
static size_t used;

static inline uint64_t mx(uint64_t h, uint64_t x) {
    h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xBF58476D1CE4E5B9ull;
    return h ^ (h >> 31);
}
static bool seen(Mask m, const State& s) {
    uint64_t h1 = 1, h2 = 2;
    h1 = mx(h1, (uint64_t)m), h1 = mx(h1, (uint64_t)(m >> 64));
    h2 = mx(h2, (uint64_t)(m >> 64)), h2 = mx(h2, (uint64_t)m);
    for (int i = 0; i < s.a.n; i++) h1 = mx(h1, (uint64_t)s.a.v[i]), h2 = mx(h2, (uint64_t)s.a.v[i] * 31 + 7);
    h1 = mx(h1, 0xABCD), h2 = mx(h2, 0xDCBA);
    for (int i = 0; i < s.b.n; i++) h1 = mx(h1, (uint64_t)s.b.v[i]), h2 = mx(h2, (uint64_t)s.b.v[i] * 31 + 7);
    if (used > MEMO / 2) return false;
    for (size_t i = h1 & (MEMO - 1);; i = (i + 1) & (MEMO - 1)) {
        if (stamp[i] != cur_stamp) {
            stamp[i] = cur_stamp;
            memo[i].h1 = h1;
            memo[i].h2 = h2;
            used++;
            return false;
        }
        if (memo[i].h1 == h1 && memo[i].h2 == h2) return true;
    }
}
static void push(Q& q, long v) {
    if (CAP && q.n == CAP) {
        for (int i = 1; i < q.n; i++) q.v[i - 1] = q.v[i];
        q.n--;
    }
    q.v[q.n++] = v;
}
static bool apply(State& s, const Op& o) {
    Q& rd = M == DOUBLE ? s.b : s.a;
    switch (o.kind) {
        case ENQ: push(s.a, o.val); return true;
        case DEQ:
            if (!rd.n || rd.v[0] != o.val) return false;
            for (int i = 1; i < rd.n; i++) rd.v[i - 1] = rd.v[i];
            rd.n--;
            return true;
        case DEQ_NONE: return rd.n == 0;
        case IS_EMPTY: return (rd.n == 0) == (o.val != 0);
        case SWAP: {
            Q t = s.a;
            s.a = s.b;
            s.b = t;
            return true;
        }
    }
    return false;
}
static Result dfs(Mask done, int left, const State& s) {
    if (!left) return !END_EMPTY || (s.a.n == 0 && s.b.n == 0) ? OK : BAD;
    if (++nodes > LIMIT_NODES) return UNKNOWN;
    if (seen(done, s)) return BAD;
    uint64_t minret = ~0ull;
    for (int i = 0; i < N; i++)
        if (!(done >> i & 1) && O[i].ret < minret) minret = O[i].ret;
    for (int i = 0; i < N; i++) {
        if (done >> i & 1 || O[i].inv > minret) continue;
        State t = s;
        if (!apply(t, O[i])) continue;
        Result r = dfs(done | (Mask)1 << i, left - 1, t);
        if (r != BAD) return r;
    }
    return BAD;
}
Result check(const Op* ops, int n, Model m, int cap, bool end_empty) {
    if (n > MAXOPS) return UNKNOWN;
    if (!memo) {
        memo = (Key*)malloc(MEMO * sizeof(Key));
        stamp = (uint32_t*)calloc(MEMO, sizeof(uint32_t));
    }
    cur_stamp++;
    used = 0;
    nodes = 0;
    O = ops;
    N = n;
    M = m;
    CAP = cap;
    END_EMPTY = end_empty;
    static State s0;
    memset(&s0, 0, sizeof s0);
    return dfs(0, n, s0);
}
}  // namespace lin
