// Workloads: classes of LPs, composition of many small LPs into one large one,
// and a reference answer for every LP by connected components.
#pragma once
#include "gen.hpp"
#include "ref.hpp"
#include "run.hpp"

// ---------------------------------------------------------------- components
struct Parts { std::vector<std::vector<int>> rows, cols; };
static inline Parts split(const LP &l) {
    std::vector<int> f(l.n + l.m); for (size_t i = 0; i < f.size(); i++) f[i] = (int) i;
    std::function<int(int)> fd = [&](int v) { while (f[v] != v) { f[v] = f[f[v]]; v = f[v]; } return v; };
    for (size_t i = 0; i < l.m; i++) for (int k = l.Ap[i]; k < l.Ap[i + 1]; k++) { int a = fd((int) (l.n + i)), b = fd(l.Ai[k]); if (a != b) f[a] = b; }
    std::vector<int> id(f.size(), -1); Parts p;
    auto get = [&](int v) { int r = fd(v); if (id[r] < 0) { id[r] = (int) p.rows.size(); p.rows.emplace_back(); p.cols.emplace_back(); } return id[r]; };
    for (size_t j = 0; j < l.n; j++) { int q = get((int) j); p.cols[q].push_back((int) j); }
    for (size_t i = 0; i < l.m; i++) { int q = get((int) (l.n + i)); p.rows[q].push_back((int) i); }
    return p;
}
static inline LP sub_lp(const LP &l, const std::vector<int> &rows, const std::vector<int> &cols, std::vector<int> &pos) {
    LP s; s.m = rows.size(); s.n = cols.size(); for (size_t t = 0; t < cols.size(); t++) pos[cols[t]] = (int) t;
    for (int j : cols) { s.lb.push_back(l.lb[j]); s.ub.push_back(l.ub[j]); s.c.push_back(l.c[j]); }
    s.Ap.push_back(0); for (int i : rows) { s.lhs.push_back(l.lhs[i]); s.rhs.push_back(l.rhs[i]); for (int k = l.Ap[i]; k < l.Ap[i + 1]; k++) { s.Ai.push_back(pos[l.Ai[k]]); s.Ax.push_back(l.Ax[k]); } s.Ap.push_back((int) s.Ai.size()); }
    s.nnz = s.Ai.size(); return s;
}
static inline RefResult ref_big(const LP &l, uint64_t seed, const std::vector<double> *alt = nullptr, bool plain = false);
// rows that no point within the bounds can violate and fixed columns tie the
// components of a huge LP together: take them out first, then put them back
static inline RefResult ref_stripped(const LP &l, uint64_t seed, const std::vector<double> *alt) {
    std::vector<char> dr(l.m, 0); LP s; s.m = l.m; s.n = l.n; s.lhs = l.lhs; s.rhs = l.rhs; s.lb = l.lb; s.ub = l.ub; s.c = l.c; s.Ap.push_back(0);
    for (size_t i = 0; i < l.m; i++) {
        LD lo = 0, up = 0; for (int k = l.Ap[i]; k < l.Ap[i + 1]; k++) { LD a = l.Ax[k]; int j = l.Ai[k]; lo += a > 0 ? a * l.lb[j] : a * l.ub[j]; up += a > 0 ? a * l.ub[j] : a * l.lb[j]; }
        dr[i] = l.Ap[i + 1] - l.Ap[i] > 1000 && lo >= l.lhs[i] && up <= l.rhs[i];
        if (dr[i]) { s.lhs[i] = -INF_; s.rhs[i] = INF_; }
        else for (int k = l.Ap[i]; k < l.Ap[i + 1]; k++) { int j = l.Ai[k]; if (l.lb[j] == l.ub[j]) { s.lhs[i] -= l.Ax[k] * l.lb[j]; s.rhs[i] -= l.Ax[k] * l.lb[j]; } else { s.Ai.push_back(j); s.Ax.push_back(l.Ax[k]); } }
        s.Ap.push_back((int) s.Ai.size());
    }
    s.nnz = s.Ai.size(); RefResult R = ref_big(s, seed, alt, true);
    if (R.st == R_OPT) { std::vector<LD> z(l.c.begin(), l.c.end()); for (size_t i = 0; i < l.m; i++) for (int k = l.Ap[i]; k < l.Ap[i + 1]; k++) z[l.Ai[k]] -= (LD) R.y[i] * l.Ax[k]; for (size_t j = 0; j < l.n; j++) if (l.lb[j] == l.ub[j]) R.z[j] = (double) z[j]; }
    return R;
}
// one row over many bounded columns: a fractional knapsack
static inline bool ref_knapsack(const LP &s, RefResult &R) {
    if (s.m != 1 || s.n < 400 || s.nnz != s.n) return false;
    std::vector<int> col(s.Ai.begin(), s.Ai.end()); std::vector<double> a(s.n); for (size_t k = 0; k < s.n; k++) a[col[k]] = s.Ax[k];
    for (size_t j = 0; j < s.n; j++) if (!a[j] || !std::isfinite(s.lb[j]) || !std::isfinite(s.ub[j])) return false;
    R.st = R_OPT; R.x.assign(s.n, 0); LD t = 0, lo = 0, up = 0; double y = 0; R.margin = INF_;
    for (size_t j = 0; j < s.n; j++) { R.x[j] = s.c[j] >= 0 ? s.lb[j] : s.ub[j]; t += (LD) a[j] * R.x[j]; lo += a[j] > 0 ? (LD) a[j] * s.lb[j] : (LD) a[j] * s.ub[j]; up += a[j] > 0 ? (LD) a[j] * s.ub[j] : (LD) a[j] * s.lb[j]; }
    if (lo > s.rhs[0] + 1e-6 || up < s.lhs[0] - 1e-6) { R.st = R_INF; R.margin = (double) std::max(lo - s.rhs[0], s.lhs[0] - up); R.why = "knapsack"; R.x.clear(); return true; }
    int d = t < s.lhs[0] ? 1 : t > s.rhs[0] ? -1 : 0;
    if (d) { LD need = d > 0 ? s.lhs[0] - t : t - s.rhs[0]; std::sort(col.begin(), col.end(), [&](int u, int v) { double p = d * s.c[u] / a[u], q = d * s.c[v] / a[v]; return p != q ? p < q : u < v; });
        for (int j : col) { if (need <= 0) break; double to = (a[j] > 0) == (d > 0) ? s.ub[j] : s.lb[j]; LD can = std::fabs((LD) a[j] * (to - R.x[j])); if (can <= 0) continue; y = s.c[j] / a[j];
            if (can <= need) { R.x[j] = to; need -= can; } else { R.x[j] += (double) (d * need / a[j]); need = 0; } } }
    R.y.assign(1, y); R.z.resize(s.n); LD o = 0; for (size_t j = 0; j < s.n; j++) { R.z[j] = s.c[j] - y * a[j]; o += (LD) s.c[j] * R.x[j]; } R.obj = (double) o;
    return true;
}
// reference answer of the whole LP
static inline RefResult ref_big(const LP &l, uint64_t seed, const std::vector<double> *alt, bool plain) {
    if (l.n <= 12 && l.m <= 12) return ref_solve(l, seed, alt);
    if (!plain && l.m + l.n > 20000) { bool tied = false; for (size_t i = 0; i < l.m; i++) { if (l.Ap[i + 1] - l.Ap[i] > 1000) tied = true; for (int k = l.Ap[i]; k < l.Ap[i + 1]; k++) if (l.lb[l.Ai[k]] == l.ub[l.Ai[k]]) tied = true; } if (tied) return ref_stripped(l, seed, alt); }
    Parts p = split(l); std::vector<int> pos(l.n, -1);
    RefResult R; R.st = R_OPT; R.x.assign(l.n, 0); R.y.assign(l.m, 0); R.z.assign(l.n, 0); bool unk = false, unb = false; R.margin = INF_;
    for (size_t q = 0; q < p.rows.size(); q++) {
        LP s = sub_lp(l, p.rows[q], p.cols[q], pos); std::vector<double> ac; if (alt) for (int j : p.cols[q]) ac.push_back((*alt)[j]);
        RefResult a; if (!ref_knapsack(s, a)) a = ref_solve(s, seed + q, alt ? &ac : nullptr);
        if (a.st == R_INF) { R.st = R_INF; R.margin = a.margin; R.why = a.why; R.x.clear(); return R; }
        if (a.st == R_UNK) { unk = true; R.why = a.why; } if (a.st == R_UNB) unb = true;
        R.obj += a.obj;
        if (a.x.size() == s.n) for (size_t t = 0; t < s.n; t++) R.x[p.cols[q][t]] = a.x[t]; else unk = true;
        if (a.st == R_OPT) { for (size_t t = 0; t < s.n; t++) R.z[p.cols[q][t]] = a.z[t]; for (size_t t = 0; t < s.m; t++) R.y[p.rows[q][t]] = a.y[t]; }
    }
    R.st = unk ? R_UNK : unb ? R_UNB : R_OPT; return R;
}

// ---------------------------------------------------------------- composition
static inline LP compose(const std::vector<LP> &bl, Rng &r, bool shuffle) {
    size_t M = 0, N = 0; for (auto &b : bl) M += b.m, N += b.n;
    std::vector<int> pr(M), pc(N); for (size_t i = 0; i < M; i++) pr[i] = (int) i; for (size_t j = 0; j < N; j++) pc[j] = (int) j;
    if (shuffle) { for (int i = (int) M - 1; i > 0; i--) std::swap(pr[i], pr[r.in(0, i)]); for (int j = (int) N - 1; j > 0; j--) std::swap(pc[j], pc[r.in(0, j)]); }
    Builder q; q.n = N; q.rows.resize(M); q.lhs.resize(M); q.rhs.resize(M); q.lb.resize(N); q.ub.resize(N); q.c.resize(N);
    size_t ro = 0, co = 0;
    for (auto &b : bl) {
        for (size_t i = 0; i < b.m; i++) { int t = pr[ro + i]; q.lhs[t] = b.lhs[i]; q.rhs[t] = b.rhs[i]; for (int k = b.Ap[i]; k < b.Ap[i + 1]; k++) q.rows[t][pc[co + b.Ai[k]]] = b.Ax[k]; }
        for (size_t j = 0; j < b.n; j++) { int t = pc[co + j]; q.lb[t] = b.lb[j]; q.ub[t] = b.ub[j]; q.c[t] = b.c[j]; }
        ro += b.m; co += b.n;
    }
    return q.make();
}
static inline LP flip_rows(const LP &l) { // a <= r.x <= b  ->  -b <= -r.x <= -a
    LP t = l; for (size_t i = 0; i < l.m; i++) { t.lhs[i] = -l.rhs[i] + 0.0; t.rhs[i] = -l.lhs[i] + 0.0; } for (auto &v : t.Ax) v = -v; return t;
}
static inline LP scaled(const LP &l, double k) { LP t = l; for (auto &v : t.lb) v *= k; for (auto &v : t.ub) v *= k; for (auto &v : t.lhs) v *= k; for (auto &v : t.rhs) v *= k; return t; }

// ---------------------------------------------------------------- structured families
static inline LP family(Rng &r) {
    Builder b; auto col = [&](double lo, double up, double c) { b.lb.push_back(lo); b.ub.push_back(up); b.c.push_back(c); return (int) b.n++; };
    auto row = [&](double lo, double up) { b.rows.emplace_back(); b.lhs.push_back(lo); b.rhs.push_back(up); return (int) b.rows.size() - 1; };
    switch (r.in(0, 6)) {
    case 0: { // transportation
        int s = r.in(2, 5), d = r.in(2, 6); std::vector<int> sup(s), dem(d); int tot = 0; for (auto &v : dem) { v = r.in(1, 6); tot += v; }
        for (auto &v : sup) v = 0; for (int t = 0; t < tot; t++) sup[r.in(0, s - 1)]++; bool eq = r.p(.6);
        std::vector<int> R, C; for (int i = 0; i < s; i++) R.push_back(row(eq ? sup[i] : -INF_, sup[i])); for (int j = 0; j < d; j++) C.push_back(row(dem[j], eq || r.p(.5) ? dem[j] : INF_));
        for (int i = 0; i < s; i++) for (int j = 0; j < d; j++) if (r.p(.8)) { int x = col(0, r.p(.3) ? r.in(1, 8) : INF_, r.in(0, 9)); b.rows[R[i]][x] = 1; b.rows[C[j]][x] = 1; }
        break; }
    case 1: { // network flow on a random tree plus extra arcs
        int n = r.in(3, 10); std::vector<double> bal(n, 0); std::vector<int> R; for (int i = 0; i < n; i++) R.push_back(row(0, 0));
        auto arc = [&](int u, int v) { double f = r.in(0, 4); int x = col(r.p(.8) ? 0 : -INF_, r.p(.5) ? f + r.in(0, 3) : INF_, r.in(-1, 6)); b.rows[R[u]][x] = -1; b.rows[R[v]][x] = 1; bal[u] -= f; bal[v] += f; };
        for (int i = 1; i < n; i++) { int p = r.in(0, i - 1); if (r.p(.5)) arc(p, i); else arc(i, p); }
        int e = r.in(0, n); for (int t = 0; t < e; t++) { int u = r.in(0, n - 1), v = r.in(0, n - 1); if (u != v) arc(u, v); }
        for (int i = 0; i < n; i++) b.lhs[R[i]] = b.rhs[R[i]] = bal[i]; break; }
    case 2: { // multi-period inventory: s_t = s_{t-1} + p_t - d_t, p_t <= cap, s_0 fixed
        int T = r.in(2, 12); int prev = col(3, 3, 0); for (int t = 0; t < T; t++) { int p = col(0, r.in(3, 8), r.in(1, 9)), s = col(0, r.p(.5) ? r.in(4, 9) : INF_, r.in(0, 2)); double d = r.in(0, 3); int i = row(d, d); b.rows[i][prev] = 1; b.rows[i][p] = 1; b.rows[i][s] = -1; prev = s;
            if (r.p(.4)) { int o = col(0, INF_, r.in(2, 9)); b.rows[i][o] = 1; } } if (r.p(.3)) { int i = row(1, INF_); b.rows[i][prev] = 1; } break; }
    case 3: { // covering / packing with duplicated sets
        int n = r.in(3, 10), m = r.in(2, 8); for (int j = 0; j < n; j++) col(0, r.p(.6) ? 1 : INF_, r.in(0, 5)); bool cover = r.p(.5);
        for (int i = 0; i < m; i++) { int q = row(cover ? 1 : -INF_, cover ? INF_ : r.in(1, 3)); for (int j = 0; j < n; j++) if (r.p(.5)) b.rows[q][j] = 1; if (r.p(.2)) { auto src = b.rows[q]; int q2 = row(b.lhs[q] * 2, b.rhs[q] * 2 + (cover ? 0 : r.in(0, 2))); for (auto &e : src) b.rows[q2][e.first] = 2 * e.second; } }
        if (!cover) for (auto &c : b.c) c = -c; for (size_t j = 0; j < b.n; j++) if (!cover && !std::isfinite(b.ub[j])) b.ub[j] = 10; break; }
    case 4: { // L1 fit: min sum u+v, A x + u - v = y, x free
        int p = r.in(1, 3), k = r.in(2, 7); for (int j = 0; j < p; j++) col(-INF_, INF_, 0); for (int i = 0; i < k; i++) { int q = row(0, 0); b.lhs[q] = b.rhs[q] = r.in(-6, 6); for (int j = 0; j < p; j++) b.rows[q][j] = j ? r.in(-3, 3) : 1; int u = col(0, INF_, 1), v = col(0, INF_, 1); b.rows[q][u] = 1; b.rows[q][v] = -1; } break; }
    case 5: { // minimax with an epigraph variable
        int p = r.in(2, 5), k = r.in(2, 7); for (int j = 0; j < p; j++) col(-r.in(1, 5), r.in(1, 5), 0); int t = col(-INF_, INF_, 1); for (int i = 0; i < k; i++) { int q = row(-INF_, r.in(-4, 4)); for (int j = 0; j < p; j++) if (r.p(.7)) b.rows[q][j] = r.in(-3, 3); b.rows[q][t] = -1; } if (r.p(.4)) { int q = row(1, 1); for (int j = 0; j < p; j++) b.rows[q][j] = 1; b.lhs[q] = b.rhs[q] = r.in(-2, 2); } break; }
    default: { // staircase: coupled doubleton equalities and inequalities
        int k = r.in(4, 14); for (int j = 0; j < k; j++) col(r.p(.7) ? 0 : -INF_, r.p(.5) ? r.in(2, 9) : INF_, r.in(0, 4)); for (int j = 0; j + 1 < k; j++) { bool eq = r.p(.5); double v = r.in(0, 3); int q = row(eq ? v : v - 3, eq || r.p(.5) ? v : INF_); if (b.lhs[q] > b.rhs[q]) b.rhs[q] = b.lhs[q]; b.rows[q][j] = r.p(.7) ? 1 : 2; b.rows[q][j + 1] = r.p(.6) ? -1 : 1; if (r.p(.3)) b.rows[q][r.in(0, k - 1)] = r.p(.5) ? 1 : -1; } break; }
    }
    for (auto &rw : b.rows) for (auto it = rw.begin(); it != rw.end();) it = it->second == 0 ? rw.erase(it) : std::next(it);
    return b.make();
}

static inline LP shape(Rng &r) { // degenerate shapes
    Builder b; auto col = [&](double lo, double up, double c) { b.lb.push_back(lo); b.ub.push_back(up); b.c.push_back(c); return (int) b.n++; };
    auto row = [&](double lo, double up) { b.rows.emplace_back(); b.lhs.push_back(lo); b.rhs.push_back(up); return (int) b.rows.size() - 1; };
    switch (r.in(0, 8)) {
    case 0: { int n = r.in(1, 4); for (int j = 0; j < n; j++) { double c = r.in(-2, 2); col(c > 0 || r.p(.7) ? -1 : -INF_, c < 0 || r.p(.7) ? 2 : INF_, c); } break; } // no rows
    case 1: { int n = r.in(1, 4), m = r.in(1, 4); for (int j = 0; j < n; j++) col(0, 3, r.in(-2, 2)); for (int i = 0; i < m; i++) row(r.p(.8) ? -1 : r.in(-1, 1), 1); break; } // only empty rows
    case 2: { int n = r.in(1, 5); for (int j = 0; j < n; j++) { double v = r.in(-3, 3); col(v, v, r.in(-2, 2)); } int i = row(-INF_, INF_); for (int j = 0; j < n; j++) b.rows[i][j] = r.in(1, 3); double a = 0; for (auto &e : b.rows[i]) a += e.second * b.lb[e.first]; int t = r.in(0, 2); if (t) b.rhs[i] = a + r.in(0, 1); if (t == 2) b.lhs[i] = a - r.in(0, 1); break; } // all fixed
    case 3: { int n = r.in(20, 60); int i = row(1, r.p(.5) ? 1 : INF_); for (int j = 0; j < n; j++) { col(0, r.p(.5) ? 1 : INF_, r.in(0, 3)); b.rows[i][j] = r.p(.7) ? 1 : r.in(1, 4); } break; } // one dense row
    case 4: { int m = r.in(20, 60); col(-INF_, INF_, r.in(-1, 1)); for (int i = 0; i < m; i++) { int q = row(r.p(.4) ? -INF_ : -r.in(0, 9), r.p(.4) ? INF_ : r.in(0, 9)); b.rows[q][0] = r.p(.5) ? 1 : -2; } if (b.c[0] != 0) { int q = row(-20, 20); b.rows[q][0] = 1; } break; } // one dense column
    case 5: { int k = r.in(2, 12); for (int j = 0; j < k; j++) col(-5, 5, r.in(-2, 2)); for (int j = 0; j < k; j++) { int q = row(r.in(-3, 0), r.in(0, 3)); b.rows[q][j] = r.p(.5) ? 1 : -1; } break; } // diagonal
    case 6: { int k = r.in(2, 6); for (int j = 0; j < k; j++) col(0, 4, r.in(-2, 2)); int m = r.in(2, 6); for (int i = 0; i < m; i++) { int q = row(-r.in(0, 4), r.in(1, 9)); for (int j = 0; j < k; j++) b.rows[q][j] = 1; } break; } // identical rows and columns
    case 7: { int k = r.in(2, 8); for (int j = 0; j < k; j++) col(-3, 3, r.in(-2, 2)); for (int i = 0; i < k; i++) { double v = r.in(-1, 1); int q = row(v, r.p(.7) ? v : v + 1); for (int j = 0; j <= i; j++) b.rows[q][j] = j == i ? 1 : r.in(-1, 1); } break; } // triangular
    default: { int k = r.in(3, 7); for (int j = 0; j < k; j++) col(-4, 4, r.in(-2, 2)); int m = r.in(3, 7); for (int i = 0; i < m; i++) { double v = r.in(-3, 3); int q = row(r.p(.4) ? -INF_ : v - r.in(0, 4), r.p(.4) ? INF_ : v + r.in(0, 4)); for (int j = 0; j < k; j++) b.rows[q][j] = r.in(-2, 2); } } // dense random
    }
    for (auto &rw : b.rows) for (auto it = rw.begin(); it != rw.end();) it = it->second == 0 ? rw.erase(it) : std::next(it);
    return b.make();
}

static inline LP dense_cols(Rng &r) { // doubleton equalities among rows that share a few dense columns: much fill-in in rows and columns
    Builder b; int n = r.in(5, 12), m = r.in(8, 30), q = r.in(2, 5); b.n = n; double pd = r.p(.5) ? .18 : .35, ints = r.p(.7);
    for (int j = 0; j < n; j++) { b.c.push_back(r.in(-3, 3)); double lo = r.p(.3) ? -INF_ : r.in(-50, 2), up = r.p(.3) ? INF_ : (std::isfinite(lo) ? lo : 0) + r.in(5, 80); b.lb.push_back(lo); b.ub.push_back(up); }
    std::vector<double> x(n); for (int j = 0; j < n; j++) x[j] = std::isfinite(b.lb[j]) ? (std::isfinite(b.ub[j]) ? (int) ((b.lb[j] + b.ub[j]) / 2) : b.lb[j] + 3) : std::isfinite(b.ub[j]) ? b.ub[j] - 2 : 0;
    b.rows.resize(m);
    for (int i = 0; i < m; i++) {
        bool d = r.p(pd); int k = d ? 2 : r.in(2, std::min(n, 7)); double D = r.p(.5) ? .5 : .9;
        while ((int) b.rows[i].size() < k) b.rows[i][r.p(D) ? r.in(0, q - 1) : r.in(0, n - 1)] = r.pick(std::vector<double>{1, 1, -1, 2, -2, ints ? 3. : .5, -1});
        double a = 0; for (auto &e : b.rows[i]) a += e.second * x[e.first];
        int t = d ? 0 : r.in(1, 3); b.lhs.push_back(t == 0 ? a : t == 1 ? -INF_ : a - r.in(0, 20)); b.rhs.push_back(t == 0 ? a : t == 2 ? INF_ : a + r.in(0, 20));
    }
    return b.make();
}

static inline LP shuffled(const Builder &b, Rng &r) {
    std::vector<int> pr(b.rows.size()); for (size_t i = 0; i < pr.size(); i++) pr[i] = (int) i; for (int i = (int) pr.size() - 1; i > 0; i--) std::swap(pr[i], pr[r.in(0, i)]);
    std::vector<int> pc(b.n); for (size_t j = 0; j < b.n; j++) pc[j] = (int) j; for (int j = (int) b.n - 1; j > 0; j--) std::swap(pc[j], pc[r.in(0, j)]);
    Builder q; q.n = b.n; q.rows.resize(pr.size()); q.lhs.resize(pr.size()); q.rhs.resize(pr.size()); q.lb.resize(b.n); q.ub.resize(b.n); q.c.resize(b.n);
    for (size_t i = 0; i < pr.size(); i++) { q.lhs[pr[i]] = b.lhs[i]; q.rhs[pr[i]] = b.rhs[i]; for (auto &e : b.rows[i]) q.rows[pr[i]][pc[e.first]] = e.second; }
    for (size_t j = 0; j < b.n; j++) { q.lb[pc[j]] = b.lb[j]; q.ub[pc[j]] = b.ub[j]; q.c[pc[j]] = b.c[j]; }
    return q.make();
}
// A doubleton equality whose substitution creates a coefficient below the zero
// tolerance in rows that do not depend on it (all their other terms are ordinary).
static inline LP tiny_fill(Rng &r) {
    Builder b; auto col = [&](double lo, double up) { b.lb.push_back(lo); b.ub.push_back(up); b.c.push_back(r.in(-4, 4) + (r.p(.5) ? 0 : .25)); return (int) b.n++; };
    auto row = [&](double lo, double up) { b.rows.emplace_back(); b.lhs.push_back(lo); b.rhs.push_back(up); return (int) b.rows.size() - 1; };
    auto cf = [&]() { double v = 0; while (v == 0) v = r.in(-4, 4); return v; };
    auto put = [&](int i, int j, double v) { b.rows[i][j] = v; };
    int k = r.in(1, 2), nu = r.in(3, 6); std::vector<int> u; std::vector<std::pair<int, int>> xy;
    for (int t = 0; t < nu; t++) u.push_back(col(r.p(.8) ? 0 : -INF_, r.p(.7) ? r.in(4, 9) : INF_));
    for (int t = 0; t < k; t++) {
        int x = col(0, 5), y = r.p(.3) ? col(-INF_, INF_) : col(-r.in(0, 900), r.in(100, 900)); if (r.p(.5)) { std::swap(b.lb[x], b.lb[y]); std::swap(b.ub[x], b.ub[y]); std::swap(b.c[x], b.c[y]); std::swap(x, y); }
        double al = cf(), be = cf() * 0.01; int i = row(0, 0); put(i, x, al); put(i, y, be); b.lhs[i] = b.rhs[i] = 2 * al + be * r.in(1, 90); xy.push_back({x, y});
    }
    for (auto &p : xy) for (int y : {p.first, p.second}) if (r.p(.6)) { int i = row(-INF_, INF_); put(i, y, cf()); int q = r.in(1, 3); for (int t = 0; t < q; t++) put(i, u[r.in(0, nu - 1)], cf()); if (r.p(.5)) b.rhs[i] = 40 + r.in(0, 30) + .37; else b.lhs[i] = -30 - r.in(0, 30) - .37; }
    int w = r.in(2, 4);
    for (int t = 0; t < w; t++) {
        int i = row(-INF_, INF_); int q = r.in(2, 4); for (int e = 0; e < q; e++) put(i, u[r.in(0, nu - 1)], cf());
        if (b.rows[i].size() < 2) { put(i, u[0], cf()); put(i, u[nu - 1], cf()); }
        for (auto &p : xy) if (r.p(.6)) put(i, r.p(.5) ? p.first : p.second, cf() * 1e-9);
        double a = 0; for (auto &e : b.rows[i]) a += e.second * 2; a = std::floor(a); int h = r.in(0, 2);
        if (h != 0) b.rhs[i] = a + r.in(0, 9) + .37; if (h != 1) b.lhs[i] = a - r.in(0, 9) - .61;
    }
    return shuffled(b, r);
}

// A column whose bounds are close but not equal and whose coefficients are so
// large that fixing it at one of them moves the rows visibly.
static inline LP close_fix(Rng &r) {
    Builder b; auto col = [&](double lo, double up) { b.lb.push_back(lo); b.ub.push_back(up); b.c.push_back(r.in(-2, 2) * .5); return (int) b.n++; };
    auto cf = [&]() { double v = 0; while (v == 0) v = r.in(-3, 3); return v; };
    int nu = r.in(3, 5); for (int t = 0; t < nu; t++) col(0, r.in(2, 6));
    int k = r.in(1, 2), w = r.in(3, 4); std::vector<int> x; for (int t = 0; t < k; t++) { double v = r.in(-2, 2), g = r.in(5, 12) * 1e-8; int j = r.p(.5) ? col(v, v + g) : col(v - g, v); b.c[j] = 0; x.push_back(j); }
    for (int i = 0; i < w; i++) {
        b.rows.emplace_back(); int q = r.in(nu - 1, nu); for (int e = 0; e < q; e++) b.rows[i][(e + i) % nu] = cf();
        double a = 0; for (auto &e : b.rows[i]) a += e.second * (r.in(1, 2) + .37);
        for (int j : x) if (r.p(.6)) { double v = cf() * (r.p(.7) ? 1e6 : 1); b.rows[i][j] = v; a += v * (r.p(.5) ? b.lb[j] : b.ub[j]); }
        int h = r.in(0, 2); b.lhs.push_back(h == 0 ? -INF_ : a - (h == 2 ? 3.61 : 0)); b.rhs.push_back(h == 1 ? INF_ : a + (h == 2 ? .43 : 0));
    }
    return shuffled(b, r);
}

// Parallel columns with small coefficients and wide ranges whose costs differ a little.
static inline LP par_cost(Rng &r) {
    Builder b; auto col = [&](double lo, double up, double c) { b.lb.push_back(lo); b.ub.push_back(up); b.c.push_back(c); return (int) b.n++; };
    auto cf = [&]() { double v = 0; while (v == 0) v = r.in(-3, 3); return v; };
    int nu = r.in(3, 5); for (int t = 0; t < nu; t++) col(0, r.in(2, 6), r.in(-2, 2) * .25);
    static const double S[] = {1, -1, 2, -2, .5, -.5}; double s = S[r.in(0, 5)], t = r.p(.5) ? 1e-3 : 1.0 / 1024, c = r.in(-2, 2) * 1e-3;
    int j = col(0, 1000 * r.in(1, 9), c), k = col(0, 1000 * r.in(1, 9), c * s + (r.p(.8) ? 1e-4 * r.in(2, 8) * (r.p(.5) ? 1 : -1) : 0)), w = r.in(2, 4); bool any = false;
    for (int i = 0; i < w; i++) {
        b.rows.emplace_back(); int q = r.in(2, nu); double a = 0; for (int e = 0; e < q; e++) { double v = cf(); b.rows[i][(e + i) % nu] = v; a += v * (r.in(1, 2) + .37); }
        if (r.p(.7) || (i + 1 == w && !any)) { any = true; double v = cf() * t; b.rows[i][j] = v; b.rows[i][k] = v * s; a += v * b.ub[j] * .25 * r.in(0, 4) + v * s * b.ub[k] * .25 * r.in(0, 4); }
        int h = r.in(0, 2); b.lhs.push_back(h == 0 ? -INF_ : a - (h == 2 ? 3.61 : 0)); b.rhs.push_back(h == 1 ? INF_ : a + (h == 2 ? .43 : 0));
    }
    return shuffled(b, r);
}

// Groups of long proportional rows (and columns) whose sides (bounds) lie on
// different members, so that the merged row (column) owes its multiplier to another.
static inline LP wide_par(Rng &r) {
    Builder b; auto cf = [&]() { double v = 0; while (v == 0) v = r.in(-4, 4); return v; };
    int n = r.in(6, 16); std::vector<double> x0; for (int j = 0; j < n; j++) { double l = r.p(.8) ? r.in(-2, 1) : -INF_, u = r.p(.8) ? r.in(2, 6) : INF_; b.lb.push_back(l); b.ub.push_back(u); b.c.push_back(r.in(-6, 6) * .5); x0.push_back(r.in(1, 2) + (r.p(.5) ? .5 : 0)); b.n++; }
    auto row = [&](double L, double U) { b.rows.emplace_back(); b.lhs.push_back(L); b.rhs.push_back(U); return (int) b.rows.size() - 1; };
    static const double S[] = {1, -1, 2, -2, .5, -.5, 3, -3, .1, -7};
    int g = r.in(1, 3); for (int t = 0; t < g; t++) {
        std::map<int, double> src; for (int j = 0; j < n; j++) if (r.p(.85)) src[j] = cf(); if (src.size() < 2) { src[0] = 1; src[1] = 2; }
        double a = 0; for (auto &e : src) a += e.second * x0[e.first]; int k = r.in(2, 4);
        for (int q = 0; q < k; q++) { double s = S[r.in(0, 9)], L = r.p(.7) ? a - r.in(0, 6) * .5 : -INF_, U = r.p(.7) ? a + r.in(0, 6) * .5 : INF_; if (q == 0 && r.p(.2)) L = U = a; if (s < 0) std::swap(L, U); int i = row(L * s, U * s); for (auto &e : src) b.rows[i][e.first] = e.second * s; }
    }
    int w = r.in(1, 6); for (int t = 0; t < w; t++) { double a = 0; int i = row(-INF_, INF_); for (int j = 0; j < n; j++) if (r.p(.6)) { double v = cf(); b.rows[i][j] = v; a += v * x0[j]; } if (b.rows[i].empty()) { b.rows[i][0] = 1; a = x0[0]; } int h = r.in(0, 2); if (h) b.lhs[i] = a - r.in(0, 5); if (h != 1) b.rhs[i] = a + r.in(0, 5); }
    int pc = r.in(0, 3); for (int t = 0; t < pc; t++) { int j = r.in(0, n - 1); double s = S[r.in(0, 5)]; int k = (int) b.n++; b.lb.push_back(r.p(.8) ? r.in(-2, 0) : -INF_); b.ub.push_back(r.p(.8) ? r.in(1, 3) : INF_); b.c.push_back(b.c[j] * s); for (auto &q : b.rows) { auto it = q.find(j); if (it != q.end()) q[k] = it->second * s; } }
    return shuffled(b, r);
}

// ---------------------------------------------------------------- cases
struct Case { LP l; Cfg cfg; std::string cls; uint64_t seed = 0, k = 0; };
enum { W_SMALL = 1, W_GRID = 2, W_MID = 4, W_BLOCKS = 8, W_LARGE = 16, W_FAM = 32, W_SHAPE = 64, W_DENSE = 128, W_EXTREME = 256, W_TINY = 512, W_LONG = 1024, W_STD = W_LONG | W_TINY | W_SMALL | W_GRID | W_MID | W_BLOCKS | W_FAM | W_SHAPE | W_DENSE };

static inline LP gen_small(Rng &r, bool feas = false, bool grid = false) { GenOpt o; o.only_feasible = feas; o.only_bounded = feas; o.grid = grid; if (feas) o.p_huge = 0; Gen g(r, o); return g.build(); }
static inline LP gen_mid(Rng &r) { GenOpt o; o.ncol_lo = 5; o.ncol_hi = 20; o.nrow_lo = 3; o.nrow_hi = 14; o.gad_lo = 2; o.gad_hi = 14; o.p_huge = 0.01; o.p_eps = 0.02; Gen g(r, o); return g.build(); }
static inline LP gen_blocks(Rng &r, int nb, double pbad) {
    std::vector<LP> bl; for (int t = 0; t < nb; t++) { Rng q(r.next()); int u = q.in(0, 9); LP b; if (u < 6) b = gen_small(q, !q.p(pbad)); else if (u < 9) b = family(q); else b = shape(q); if (!q.p(pbad) && ref_big(b, 1).st != R_OPT) continue; bl.push_back(b); }
    if (bl.empty()) bl.push_back(family(r));
    return compose(bl, r, r.p(.8));
}
// more than 2^16 rows, columns and entries, perhaps with a row or a column of that length
static inline LP knapsack(Rng &r, int n) {
    Builder b; b.n = n; b.rows.emplace_back(); bool tight = r.p(.5); int cc = r.in(0, 2); LD lo = 0, up = 0, at = 0;
    for (int j = 0; j < n; j++) { double a = (r.p(.8) ? 1 : -1) * (r.p(.7) ? 1 : r.in(2, 4)), l = r.p(.7) ? 0 : r.in(-3, 2), u = l + r.in(1, 4); b.rows[0][j] = a; b.lb.push_back(l); b.ub.push_back(u);
        double c = cc == 0 ? r.in(0, 40) : cc == 1 ? r.in(-40, 40) : a * r.in(1, 3); b.c.push_back(c); double x = c >= 0 ? l : u; at += a * x; lo += a > 0 ? a * l : a * u; up += a > 0 ? a * u : a * l; }
    double v = std::floor((double) (lo + (up - lo) * (r.in(5, 95) / 100.))); bool lhs = at < v; if (!tight) lhs = r.p(.5);
    b.lhs.push_back(r.p(.2) || lhs ? v : -INF_); b.rhs.push_back(b.lhs[0] == v && (lhs || r.p(.5)) ? (r.p(.3) ? v : r.p(.5) ? INF_ : v + r.in(1, n)) : v); return b.make();
}
static inline LP gen_huge(Rng &r) {
    std::vector<LP> pool, bl; while (pool.size() < 40) { Rng q(r.next()); LP b = q.p(.6) ? gen_small(q, true) : q.p(.7) ? family(q) : shape(q); if (b.m && b.n && ref_big(b, 1).st == R_OPT) pool.push_back(b); }
    size_t M = 0, N = 0; while (M < 66500 || N < 66500) { LP b = pool[r.in(0, 39)]; if (r.p(.3)) b = flip_rows(b); M += b.m; N += b.n; bl.push_back(b); }
    if (r.p(.5)) { bl.push_back(knapsack(r, r.p(.5) ? r.in(66000, 67000) : r.in(33000, 34000))); }
    LP l = compose(bl, r, r.p(.8));
    if (r.p(.6)) { // a long row that cannot be violated
        LD lo = 0, up = 0; for (size_t j = 0; j < l.n; j++) if (fabs(l.lb[j]) < 1e4 && fabs(l.ub[j]) < 1e4) { double a = r.p(.5) ? 1 : -1; l.Ai.push_back((int) j); l.Ax.push_back(a); lo += a > 0 ? l.lb[j] : -l.ub[j]; up += a > 0 ? l.ub[j] : -l.lb[j]; }
        int h = r.in(0, 2); l.lhs.push_back(h == 0 ? -INF_ : std::floor((double) lo) - 3); l.rhs.push_back(h == 1 ? INF_ : std::ceil((double) up) + 3); l.Ap.push_back((int) l.Ai.size()); l.m++; l.nnz = l.Ai.size(); }
    if (r.p(.6)) { // a long fixed column
        LP t = l; t.Ai.clear(); t.Ax.clear(); t.Ap.assign(1, 0); double v = r.in(-2, 3);
        for (size_t i = 0; i < l.m; i++) { t.Ai.insert(t.Ai.end(), l.Ai.begin() + l.Ap[i], l.Ai.begin() + l.Ap[i + 1]); t.Ax.insert(t.Ax.end(), l.Ax.begin() + l.Ap[i], l.Ax.begin() + l.Ap[i + 1]); double a = r.p(.5) ? 1 : -1; t.Ai.push_back((int) l.n); t.Ax.push_back(a); t.lhs[i] += a * v; t.rhs[i] += a * v; t.Ap.push_back((int) t.Ai.size()); }
        t.lb.push_back(v); t.ub.push_back(v); t.c.push_back(r.in(-3, 3)); t.n++; t.nnz = t.Ai.size(); l = t; }
    return l;
}
// one row or column much longer than the rest
static inline LP gen_long(Rng &r, bool feas) { GenOpt o; o.only_feasible = feas; o.only_bounded = feas; o.longrow = r.p(.6) ? r.in(40, 400) : 0; o.longcol = !o.longrow || r.p(.3) ? r.in(40, o.longrow ? 80 : 300) : 0; o.p_huge = 0; o.p_eps = 0; o.collide = r.p(.5); Gen g(r, o); return g.build(); }
// data far outside the usual range (only for checks whose oracle needs no numerical judgement)
static inline void extreme(LP &l, Rng &r) {
    bool wild = r.p(.3); int e = wild ? 300 : r.in(2, 12); double share = r.p(.5) ? 1 : .3;
    auto f = [&]() { return r.p(share) ? std::pow(10., r.in(-e, e)) : 1.; };
    std::vector<double> cs(l.n), rs(l.m); for (auto &v : cs) v = f(); for (auto &v : rs) v = f();
    auto clip = [](double v) { return std::min(std::max(v, -1e300), 1e300); };
    for (size_t i = 0; i < l.m; i++) {
        for (int k = l.Ap[i]; k < l.Ap[i + 1]; k++) { double v = clip(l.Ax[k] * rs[i] * cs[l.Ai[k]] * (r.p(.05) ? f() : 1)); l.Ax[k] = v == 0 ? 1e-300 : v; }
        if (std::isfinite(l.lhs[i])) l.lhs[i] = clip(l.lhs[i] * rs[i]); if (std::isfinite(l.rhs[i])) l.rhs[i] = clip(l.rhs[i] * rs[i]);
        if (r.p(.03)) { double v = f() * (r.p(.5) ? 1 : -1); if (v <= l.rhs[i]) l.lhs[i] = v; }
    }
    for (size_t j = 0; j < l.n; j++) {
        double k = r.p(.8) ? cs[j] : 1; if (std::isfinite(l.lb[j])) l.lb[j] = clip(l.lb[j] / k); if (std::isfinite(l.ub[j])) l.ub[j] = clip(l.ub[j] / k); l.c[j] = clip(l.c[j] * k);
        if (r.p(.03)) { double v = f() * (r.p(.5) ? 1 : -1); if (v >= l.lb[j]) l.ub[j] = v; }
    }
}
static inline Case make_case(uint64_t seed, uint64_t k, int mask = W_STD) {
    Rng r(mix(seed, k)); Case c; c.seed = seed; c.k = k; int cls = 0;
    if ((mask & W_LARGE) && k % 499 == 7) cls = W_LARGE;
    if ((mask & W_LONG) && (k % 97 == 5 || k % 97 == 50)) cls = W_LONG;
    bool huge = (mask & W_LARGE) && k % 10007 == 11; if (huge) cls = W_LARGE;
    while (!cls) { int t = r.in(0, 99); int q = t < 52 ? W_SMALL : t < 60 ? W_DENSE : t < 72 ? W_GRID : t < 80 ? W_MID : t < 83 ? W_BLOCKS : t < 92 ? W_FAM : t < 95 ? W_TINY : W_SHAPE; if (mask & q) cls = q; }
    switch (cls) {
    case W_SMALL: c.cls = "small"; c.l = gen_small(r); break;
    case W_GRID: c.cls = "grid"; c.l = gen_small(r, false, true); break;
    case W_MID: c.cls = "mid"; c.l = gen_mid(r); break;
    case W_BLOCKS: c.cls = "blocks"; c.l = gen_blocks(r, r.in(2, 20), 0.01); break;
    case W_LARGE: c.cls = huge ? "huge" : "large"; c.l = huge ? gen_huge(r) : gen_blocks(r, r.in(250, 600), 0); break;
    case W_LONG: c.cls = "long"; c.l = gen_long(r, r.p(.8)); break;
    case W_FAM: c.cls = "family"; c.l = family(r); break;
    case W_TINY: { int u = r.in(0, 4); c.cls = u == 0 ? "tinyfill" : u == 1 ? "closefix" : u == 2 ? "parcost" : "widepar"; c.l = u == 0 ? tiny_fill(r) : u == 1 ? close_fix(r) : u == 2 ? par_cost(r) : wide_par(r); break; }
    case W_DENSE: c.cls = "dense"; c.l = dense_cols(r); break;
    default: c.cls = "shape"; c.l = shape(r); break;
    }
    // (sums of decimal numbers leave costs like 4e-16, which make a problem unbounded that was meant to have an optimum)
    for (double &v : c.l.c) if (std::fabs(v) < 1e-11) v = 0;
    if (r.p(.1)) c.l = flip_rows(c.l);
    c.cfg = rand_cfg(r);
    if ((mask & W_EXTREME) && r.p(.2)) { c.cls = "extreme"; extreme(c.l, r); }
    return c;
}
