// Reference LP solver: dense bounded-variable primal simplex in long double.
// Every claim it returns carries a certificate that is re-verified from the
// problem data: OPT (primal + dual feasible + complementary), INFEAS (Farkas
// ray with a margin), UNB (feasible point + improving recession ray).
// Anything it cannot certify is UNKNOWN (inconclusive).
#pragma once
#include "lp.hpp"

enum RStat { R_OPT, R_INF, R_UNB, R_UNK };
static const char *rname(RStat s) { const char *t[] = {"OPT", "INF", "UNB", "UNK"}; return t[s]; }

typedef long double LD;
struct RefResult {
    RStat st = R_UNK;
    double obj = 0;         // excluding l.off
    double margin = 0;      // Farkas margin (normalised by |y|_1)
    std::vector<double> x, y, z;
    long iters = 0;
    const char *why = "";
};

struct Simplex {
    const LP &l;
    int m, n, N;
    std::vector<LD> T;              // m x n, basic_i = sum_j T[i][j] nonbasic_j
    std::vector<int> B, Nb;         // variable ids
    std::vector<LD> lo, up, cost, val; // per variable (n structurals, m activities)
    std::vector<int> prio;
    long it = 0, maxit;
    LD ftol;
    Simplex(const LP &lp, uint64_t seed) : l(lp), m((int) lp.m), n((int) lp.n), N(m + n) {
        T.assign((size_t) m * n, 0); B.resize(m); Nb.resize(n); lo.resize(N); up.resize(N); cost.assign(N, 0); val.assign(N, 0);
        for (int j = 0; j < n; j++) { Nb[j] = j; lo[j] = l.lb[j]; up[j] = l.ub[j]; cost[j] = l.c[j]; }
        for (int i = 0; i < m; i++) { B[i] = n + i; lo[n + i] = l.lhs[i]; up[n + i] = l.rhs[i];
            for (int k = l.Ap[i]; k < l.Ap[i + 1]; k++) T[(size_t) i * n + l.Ai[k]] += l.Ax[k]; }
        Rng r(seed); prio.resize(N); for (int i = 0; i < N; i++) prio[i] = i;
        for (int i = N - 1; i > 0; i--) std::swap(prio[i], prio[r.in(0, i)]);
        maxit = 200 + 60L * (N + 10);
        ftol = 1e-10L;
        for (int j = 0; j < n; j++) val[j] = std::isfinite((double) lo[j]) ? lo[j] : std::isfinite((double) up[j]) ? up[j] : 0;
        // start at the bound closer to zero when both are finite
        for (int j = 0; j < n; j++) if (std::isfinite((double) lo[j]) && std::isfinite((double) up[j])) val[j] = fabsl(lo[j]) <= fabsl(up[j]) ? lo[j] : up[j];
        recompute();
    }
    void recompute() {
        for (int i = 0; i < m; i++) { LD s = 0; for (int j = 0; j < n; j++) s += T[(size_t) i * n + j] * val[Nb[j]]; val[B[i]] = s; }
    }
    void pivot(int r, int q) { // basic r leaves, nonbasic q enters
        LD *R = &T[(size_t) r * n]; LD p = R[q]; LD inv = 1 / p;
        for (int j = 0; j < n; j++) R[j] = (j == q) ? inv : -R[j] * inv;
        for (int i = 0; i < m; i++) if (i != r) {
            LD *Q = &T[(size_t) i * n]; LD a = Q[q]; if (a == 0) continue;
            for (int j = 0; j < n; j++) { if (j == q) Q[j] = a * inv; else { Q[j] += a * R[j]; if (fabsl(Q[j]) < 1e-17L) Q[j] = 0; } }
        }
        std::swap(B[r], Nb[q]);
    }
    LD tol(LD b) const { return ftol * (1 + fabsl(b)); }
    int viol(int v) const { // -1 below, +1 above
        if (val[v] < lo[v] - tol(lo[v])) return -1;
        if (val[v] > up[v] + tol(up[v])) return 1;
        return 0;
    }
    // returns 0 = done(no improving), 1 = unbounded dir (ray), 2 = iteration limit
    std::vector<LD> d; int rayq = -1, raydir = 0;
    int run(bool phase1) {
        int degen = 0;
        for (;;) {
            if (++it > maxit) return 2;
            if (it % 50 == 0) recompute();
            d.assign(n, 0);
            bool any = false;
            if (phase1) {
                for (int i = 0; i < m; i++) { int v = viol(B[i]); if (v) { any = true; LD *R = &T[(size_t) i * n]; for (int j = 0; j < n; j++) d[j] += v * R[j]; } }
                if (!any) return 0;
            } else {
                for (int j = 0; j < n; j++) d[j] = cost[Nb[j]];
                for (int i = 0; i < m; i++) { LD cb = cost[B[i]]; if (cb != 0) { LD *R = &T[(size_t) i * n]; for (int j = 0; j < n; j++) d[j] += cb * R[j]; } }
            }
            bool bland = degen > 30;
            int q = -1, dir = 0; LD best = 0;
            for (int j = 0; j < n; j++) {
                int v = Nb[j]; if (lo[v] == up[v]) continue;
                LD dj = d[j]; if (fabsl(dj) < 1e-11L) continue;
                int dd = dj < 0 ? 1 : -1;
                bool atlo = std::isfinite((double) lo[v]) && val[v] <= lo[v] + tol(lo[v]);
                bool atup = std::isfinite((double) up[v]) && val[v] >= up[v] - tol(up[v]);
                if (dd > 0 && atup) continue;
                if (dd < 0 && atlo) continue;
                if (bland) { if (q < 0 || prio[v] < prio[Nb[q]]) { q = j; dir = dd; } }
                else { LD s = fabsl(dj) * (1 + 1e-3L * (prio[v] % 97)); if (s > best) { best = s; q = j; dir = dd; } }
            }
            if (q < 0) return 0;
            // ratio test
            int ev = Nb[q];
            LD tmax = INFINITY; int leave = -1; LD leaveval = 0, pivabs = 0;
            if (dir > 0 && std::isfinite((double) up[ev])) tmax = up[ev] - val[ev];
            if (dir < 0 && std::isfinite((double) lo[ev])) tmax = val[ev] - lo[ev];
            for (int i = 0; i < m; i++) {
                LD a = T[(size_t) i * n + q] * dir; if (fabsl(a) < 1e-11L) continue;
                int v = B[i]; int vi = viol(v); LD lim; bool has = false;
                if (vi == 0) {
                    if (a > 0 && std::isfinite((double) up[v])) { lim = up[v]; has = true; }
                    if (a < 0 && std::isfinite((double) lo[v])) { lim = lo[v]; has = true; }
                } else if (vi < 0) { // below lower
                    if (a > 0) { lim = lo[v]; has = true; }
                } else { if (a < 0) { lim = up[v]; has = true; } }
                if (!has) continue;
                LD t = (lim - val[v]) / a; if (t < 0) t = 0;
                bool better = false;
                if (t < tmax - 1e-12L) better = true;
                else if (t <= tmax + 1e-12L && leave >= 0) {
                    if (bland) better = prio[v] < prio[B[leave]];
                    else better = fabsl(a) > pivabs;
                } else if (t <= tmax + 1e-15L && leave < 0 && t <= tmax) better = true;
                if (better) { if (t < tmax) tmax = t; leave = i; leaveval = lim; pivabs = fabsl(a); }
            }
            if (!std::isfinite((double) tmax)) { rayq = q; raydir = dir; return 1; }
            if (tmax < 1e-12L) degen++; else degen = 0;
            LD step = tmax * dir;
            for (int i = 0; i < m; i++) val[B[i]] += T[(size_t) i * n + q] * step;
            if (leave < 0) { val[ev] = dir > 0 ? up[ev] : lo[ev]; }
            else { val[ev] += step; val[B[leave]] = leaveval; pivot(leave, q); }
        }
    }
};

static inline LD row_dot(const LP &l, size_t i, const std::vector<double> &x) {
    LD s = 0; for (int k = l.Ap[i]; k < l.Ap[i + 1]; k++) s += (LD) l.Ax[k] * x[l.Ai[k]]; return s;
}
// scaled max primal violation
static inline double primal_viol(const LP &l, const std::vector<double> &x) {
    LD w = 0;
    for (size_t j = 0; j < l.n; j++) {
        if (!(std::isfinite(x[j]))) return INF_;
        LD sc = 1 + fabsl((LD) x[j]) ;
        if (x[j] < l.lb[j]) w = std::max(w, (l.lb[j] - x[j]) / (std::isfinite(l.lb[j]) ? sc : 1));
        if (x[j] > l.ub[j]) w = std::max(w, (x[j] - (LD) l.ub[j]) / sc);
    }
    for (size_t i = 0; i < l.m; i++) {
        LD s = 0, mag = 1; for (int k = l.Ap[i]; k < l.Ap[i + 1]; k++) { LD t = (LD) l.Ax[k] * x[l.Ai[k]]; s += t; mag = std::max(mag, fabsl(t)); }
        if (s < l.lhs[i]) w = std::max(w, (l.lhs[i] - s) / mag);
        if (s > l.rhs[i]) w = std::max(w, (s - l.rhs[i]) / mag);
    }
    return (double) w;
}

// range-based Farkas check: y on rows; returns margin (>0 proves infeasible)
static inline double farkas_margin(const LP &l, const std::vector<LD> &y) {
    LD lo = 0; // min over box of  y.s - (A^T y).x  must be > 0
    LD ny = 0; std::vector<LD> g(l.n, 0), gm(l.n, 0);
    for (size_t i = 0; i < l.m; i++) { ny += fabsl(y[i]);
        for (int k = l.Ap[i]; k < l.Ap[i + 1]; k++) { g[l.Ai[k]] += y[i] * l.Ax[k]; gm[l.Ai[k]] = std::max(gm[l.Ai[k]], fabsl(y[i] * l.Ax[k])); } }
    if (ny == 0) return -1;
    for (size_t i = 0; i < l.m; i++) {
        if (fabsl(y[i]) <= 1e-13L * ny) continue;
        LD b = y[i] > 0 ? l.lhs[i] : l.rhs[i]; if (!std::isfinite((double) b)) return -1; lo += y[i] * b;
    }
    for (size_t j = 0; j < l.n; j++) {
        LD a = -g[j]; if (fabsl(a) <= 1e-13L * (gm[j] + 1e-3L * ny)) continue;
        LD b = a > 0 ? l.lb[j] : l.ub[j]; if (!std::isfinite((double) b)) return -1; lo += a * b;
    }
    return (double) (lo / ny);
}

static inline double sgn_viol(double d, double at, double lo, double up, double tol) {
    // d>0 requires at==lo, d<0 requires at==up; returns magnitude of violation of d
    double w = 0;
    if (d > 0 && !(std::isfinite(lo) && at - lo <= tol * (1 + fabs(lo)))) w = d;
    if (d < 0 && !(std::isfinite(up) && up - at <= tol * (1 + fabs(up)))) w = -d;
    return w;
}

static inline RefResult ref_solve(const LP &l, uint64_t seed, const std::vector<double> *altcost = nullptr) {
    RefResult R;
    for (size_t j = 0; j < l.n; j++) if (l.lb[j] > l.ub[j]) {
        if (l.lb[j] - l.ub[j] > 1e-8 * (1 + fabs(l.ub[j]))) { R.st = R_INF; R.margin = l.lb[j] - l.ub[j]; R.why = "lb>ub"; return R; } R.why = "lb>ub tiny"; return R; }
    for (size_t i = 0; i < l.m; i++) if (l.lhs[i] > l.rhs[i]) {
        if (l.lhs[i] - l.rhs[i] > 1e-8 * (1 + fabs(l.rhs[i]))) { R.st = R_INF; R.margin = l.lhs[i] - l.rhs[i]; R.why = "lhs>rhs"; return R; } R.why = "lhs>rhs tiny"; return R; }
    Simplex S(l, seed);
    if (altcost) for (int j = 0; j < S.n; j++) S.cost[j] = (*altcost)[j];
    int r = S.run(true);
    R.iters = S.it;
    bool anyv = false; for (int i = 0; i < S.m; i++) if (S.viol(S.B[i])) anyv = true;
    if (r != 0) { R.why = "phase1 limit"; return R; }
    if (anyv) {
        S.recompute();
        // phase-1 functional: sum_i v_i * B_i - sum_j d_j N_j == 0
        std::vector<LD> f(S.N, 0);
        for (int i = 0; i < S.m; i++) { int v = S.viol(S.B[i]); if (v) f[S.B[i]] += v; }
        for (int j = 0; j < S.n; j++) { if (fabsl(S.d[j]) > 1e-13L) f[S.Nb[j]] -= S.d[j]; }
        std::vector<LD> y(S.m); for (int i = 0; i < S.m; i++) y[i] = f[S.n + i];
        double m1 = farkas_margin(l, y);
        R.margin = m1;
        // total violation
        if (m1 > 1e-9) R.st = R_INF; else {
            for (auto &v : y) v = -v;
            m1 = farkas_margin(l, y); R.margin = m1; if (m1 > 1e-9) R.st = R_INF; else R.why = "farkas unverified";
        }
        return R;
    }
    r = S.run(false);
    R.iters = S.it;
    S.recompute();
    R.x.resize(S.n); for (int j = 0; j < S.n; j++) R.x[j] = (double) S.val[j];
    double pv = primal_viol(l, R.x);
    if (pv > 1e-8) { R.why = "primal unverified"; return R; }
    if (r == 2) { R.why = "phase2 limit"; return R; }
    if (r == 1) {
        std::vector<LD> ray(S.N, 0); ray[S.Nb[S.rayq]] = S.raydir;
        for (int i = 0; i < S.m; i++) ray[S.B[i]] = S.T[(size_t) i * S.n + S.rayq] * S.raydir;
        LD co = 0, nr = 0; for (int j = 0; j < S.n; j++) { co += S.cost[j] * ray[j]; nr = std::max(nr, fabsl(ray[j])); }
        bool ok = co < -1e-9L * nr;
        for (int j = 0; j < S.n && ok; j++) { LD t = ray[j]; if (fabsl(t) <= 1e-11L * nr) continue; if (t > 0 ? std::isfinite(l.ub[j]) : std::isfinite(l.lb[j])) ok = false; }
        for (int i = 0; i < S.m && ok; i++) {
            LD s = 0; for (int k = l.Ap[i]; k < l.Ap[i + 1]; k++) s += (LD) l.Ax[k] * ray[l.Ai[k]];
            if (fabsl(s) <= 1e-10L * nr) continue; if (s > 0 ? std::isfinite(l.rhs[i]) : std::isfinite(l.lhs[i])) ok = false; }
        if (ok) { R.st = R_UNB; R.margin = (double) (-co / nr); } else R.why = "ray unverified";
        return R;
    }
    R.y.assign(S.m, 0); R.z.assign(S.n, 0);
    for (int j = 0; j < S.n; j++) { int v = S.Nb[j]; if (v >= S.n) R.y[v - S.n] = (double) S.d[j]; }
    // z = c - A^T y recomputed from data
    std::vector<LD> z(S.n); for (int j = 0; j < S.n; j++) z[j] = S.cost[j];
    LD ysc = 1; for (int i = 0; i < S.m; i++) { ysc = std::max(ysc, fabsl((LD) R.y[i])); for (int k = l.Ap[i]; k < l.Ap[i + 1]; k++) z[l.Ai[k]] -= (LD) R.y[i] * l.Ax[k]; }
    LD obj = 0; double dv = 0;
    for (int j = 0; j < S.n; j++) { R.z[j] = (double) z[j]; if (fabs(R.z[j]) < 1e-12 * (double) ysc) R.z[j] = 0; obj += S.cost[j] * R.x[j]; dv = std::max(dv, sgn_viol(R.z[j], R.x[j], l.lb[j], l.ub[j], 1e-8)); }
    for (int i = 0; i < S.m; i++) dv = std::max(dv, sgn_viol(R.y[i], (double) row_dot(l, i, R.x), l.lhs[i], l.rhs[i], 1e-8));
    R.obj = (double) obj;
    if (dv > 1e-8 * (double) ysc) { R.why = "dual unverified"; return R; }
    R.st = R_OPT;
    return R;
}
