// LP container, text format, deterministic RNG.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>

static const double INF_ = INFINITY;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) { s = seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull; next(); next(); }
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int in(int a, int b) { return a + (int) (next() % (uint64_t) (b - a + 1)); } // inclusive
    double u() { return (double) (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool p(double q) { return u() < q; }
    template <class T> T pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};
static inline uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 31)) * 0x94D049BB133111EBull;
    return z ^ (z >> 29);
}

struct LP {
    size_t m = 0, n = 0, nnz = 0;
    std::vector<double> Ax, lhs, rhs, lb, ub, c;
    std::vector<int> Ai, Ap;
    double off = 0;
};

static inline uint64_t fnv(const void *p, size_t len, uint64_t h = 1469598103934665603ull) {
    const unsigned char *q = (const unsigned char *) p;
    for (size_t i = 0; i < len; i++) { h ^= q[i]; h *= 1099511628211ull; }
    return h;
}
template <class T> static uint64_t hv(const std::vector<T> &v, uint64_t h) {
    return v.empty() ? fnv("e", 1, h) : fnv(v.data(), v.size() * sizeof(T), h);
}
static inline uint64_t lp_hash(const LP &l) {
    uint64_t h = fnv(&l.m, sizeof l.m); h = fnv(&l.n, sizeof l.n, h);
    h = hv(l.Ax, h); h = hv(l.Ai, h); h = hv(l.Ap, h); h = hv(l.lhs, h); h = hv(l.rhs, h);
    h = hv(l.lb, h); h = hv(l.ub, h); h = hv(l.c, h);
    return h;
}

static inline std::string lp_text(const LP &l, size_t maxlen = 100000000) {
    std::string s; char b[128];
    auto num = [&](double v) { snprintf(b, sizeof b, "%.17g ", v); s += b; };
    snprintf(b, sizeof b, "LP %zu %zu %zu\n", l.m, l.n, l.nnz); s += b;
    s += "c "; for (double v : l.c) num(v);
    s += "\nlb "; for (double v : l.lb) num(v);
    s += "\nub "; for (double v : l.ub) num(v);
    s += "\n";
    for (size_t i = 0; i < l.m && s.size() < maxlen; i++) {
        s += "row "; num(l.lhs[i]); num(l.rhs[i]);
        snprintf(b, sizeof b, "%d ", l.Ap[i + 1] - l.Ap[i]); s += b;
        for (int k = l.Ap[i]; k < l.Ap[i + 1]; k++) { snprintf(b, sizeof b, "%d:%.17g ", l.Ai[k], l.Ax[k]); s += b; }
        s += "\n";
    }
    if (s.size() > maxlen) { s.resize(maxlen); s += "..."; }
    return s;
}

static inline bool lp_read(FILE *f, LP &l) {
    char w[64];
    if (fscanf(f, " LP %zu %zu %zu", &l.m, &l.n, &l.nnz) != 3) return false;
    auto vec = [&](std::vector<double> &v, size_t k) { v.resize(k); for (auto &x : v) if (fscanf(f, "%lf", &x) != 1) return false; return true; };
    if (fscanf(f, "%60s", w) != 1 || strcmp(w, "c") || !vec(l.c, l.n)) return false;
    if (fscanf(f, "%60s", w) != 1 || strcmp(w, "lb") || !vec(l.lb, l.n)) return false;
    if (fscanf(f, "%60s", w) != 1 || strcmp(w, "ub") || !vec(l.ub, l.n)) return false;
    l.Ap.assign(1, 0); l.lhs.resize(l.m); l.rhs.resize(l.m); l.Ai.clear(); l.Ax.clear();
    for (size_t i = 0; i < l.m; i++) {
        int k;
        if (fscanf(f, "%60s %lf %lf %d", w, &l.lhs[i], &l.rhs[i], &k) != 4) return false;
        for (; k > 0; k--) { int j; double v; if (fscanf(f, "%d:%lf", &j, &v) != 2) return false; l.Ai.push_back(j); l.Ax.push_back(v); }
        l.Ap.push_back((int) l.Ai.size());
    }
    return l.Ai.size() == l.nnz;
}

// Build CSR from row maps (canonical: sorted columns, no zeros, no duplicates).
struct Builder {
    size_t n = 0;
    std::vector<std::map<int, double>> rows;
    std::vector<double> lhs, rhs, lb, ub, c;
    LP make() const {
        LP l; l.m = rows.size(); l.n = n; l.lhs = lhs; l.rhs = rhs; l.lb = lb; l.ub = ub; l.c = c;
        l.Ap.push_back(0);
        for (auto &r : rows) {
            for (auto &e : r) if (e.second != 0) { l.Ai.push_back(e.first); l.Ax.push_back(e.second); }
            l.Ap.push_back((int) l.Ai.size());
        }
        l.nnz = l.Ai.size();
        return l;
    }
};
