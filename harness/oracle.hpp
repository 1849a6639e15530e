// Oracles at the API boundary.
#pragma once
#include "ctx.hpp"

// tolerances: far above what the presolver's own feasibility tolerances (1e-6)
// and their amplification explain, far below the integer-sized data.
static const double T_PRIMAL = 2e-4, T_OBJ = 1e-4, T_DUAL = 1e-4, T_AT = 2e-4, T_STAT = 1e-4;

// A disagreement on one LP may be an artefact of absolute tolerances. It is
// reported only if it survives most rescalings of all bounds and sides (an exact
// symmetry of the problem, under which artefacts move and defects stay), or two
// of them if the error itself is far larger than any tolerance.
static const double CONF[] = {16, 1.0 / 16, 4096, 5, 64, 3, 256, 7};
template <class F> static bool confirm(const Case &c, F bad, bool gross = false) {
    int n = 0; for (double k : CONF) { Case q = c; q.l = scaled(c.l, k); if (bad(q, k)) n++; }
    return n >= (gross ? 2 : 6);
}

// --------------------------------------------------- P01
static std::string o_verdict(Ctx &X, const Case &c, const RefResult &a, int st) {
    (void) X;
    // (a point that is feasible only up to a residual proves nothing)
    if (st == INFEASIBLE && (a.st == R_OPT || a.st == R_UNB) && primal_viol(c.l, a.x) <= 1e-12) return "infeasible-but-feasible";
    if (st == UNBNDORINFEAS && a.st == R_OPT) return "unbounded-but-optimum-exists";
    if (st != UNCHANGED && st != REDUCED && st != INFEASIBLE && st != UNBNDORINFEAS) return "undefined-status";
    return "";
}

struct Sol { std::vector<double> x, y, z; };
static Sol do_postsolve(Run &R, const LP &l, std::vector<double> x, std::vector<double> y, std::vector<double> z) {
    Heap<double> hx(x), hy(y), hz(z); postsolve(R.p, hx.p, hy.p, hz.p);
    Sol s; s.x.assign(R.p->sol->x, R.p->sol->x + l.n); s.y.assign(R.p->sol->y, R.p->sol->y + l.m); s.z.assign(R.p->sol->z, R.p->sol->z + l.n); return s;
}
static double obj_of(const LP &l, const std::vector<double> &x) { LD s = 0; for (size_t j = 0; j < l.n; j++) s += (LD) l.c[j] * x[j]; return (double) s; }
static double obj_scale(const LP &l, const std::vector<double> &x) { LD s = 1; for (size_t j = 0; j < l.n; j++) { LD t = fabsl((LD) l.c[j] * x[j]); if (std::isfinite((double) t)) s = std::max(s, t); } return (double) s; }

// --------------------------------------------------- P02: returns key or ""
static std::string o_equiv(const Case &c, const RefResult &a, Run &R, const RefResult &b) {
    const LP &l = c.l;
    if (a.st == R_UNK || b.st == R_UNK) return "";
    if (a.st == R_INF && b.st != R_INF) {
        // witness: the recovered point must really be feasible (otherwise the
        // disagreement is within the feasibility tolerance of the presolver)
        if (b.x.size() != R.red.n) return "";
        Sol s = do_postsolve(R, l, b.x, std::vector<double>(R.red.m, 0), std::vector<double>(R.red.n, 0));
        return primal_viol(l, s.x) > T_PRIMAL ? (b.st == R_OPT ? "infeasibility-lost" : "infeasible-became-unbounded") : "";
    }
    if (a.st != R_INF && b.st == R_INF) { // by more than the tolerances?
        LP q = R.red; for (auto *v : {&q.lhs, &q.lb}) for (double &t : *v) t -= 2e-5 * (1 + fabs(t)); for (auto *v : {&q.rhs, &q.ub}) for (double &t : *v) t += 2e-5 * (1 + fabs(t));
        return ref_big(q, c.k).st == R_INF ? "feasible-became-infeasible" : "";
    }
    if (a.st == R_UNB && b.st == R_OPT) return "unboundedness-lost";
    if (a.st == R_OPT && b.st == R_UNB) return "optimum-became-unbounded";
    if (a.st == R_OPT) {
        double o2 = b.obj + R.red.off, sc = std::max({1.0, fabs(a.obj), obj_scale(l, a.x), obj_scale(R.red, b.x)});
        if (!(fabs(o2 - a.obj) <= T_OBJ * sc)) return "optimal-value-differs";
    }
    return "";
}

// --------------------------------------------------- P03: recovered primal point
static std::string o_primal(const LP &l, const LP &red, const std::vector<double> &xr, const Sol &s, bool optimal, double opt, double *worst, double *objerr = nullptr) {
    for (double v : s.x) if (!std::isfinite(v)) return "recovered-x-not-finite";
    double pv = primal_viol(l, s.x); if (worst) *worst = pv;
    if (!(pv <= T_PRIMAL)) return optimal ? "optimal-point-maps-to-infeasible" : "feasible-point-maps-to-infeasible";
    double o = obj_of(l, s.x), orr = obj_of(red, xr) + red.off, sc = std::max({1.0, fabs(o), obj_scale(l, s.x), obj_scale(red, xr)}); if (objerr) *objerr = std::max(fabs(o - orr), optimal ? fabs(o - opt) : 0) / sc;
    if (!(fabs(o - orr) <= T_OBJ * sc)) return optimal ? "objective-of-optimal-point-differs" : "objective-of-feasible-point-differs";
    if (optimal && !(fabs(o - opt) <= T_OBJ * sc)) return "recovered-point-not-optimal";
    return "";
}

// --------------------------------------------------- P04: recovered dual point
static std::string o_dual(const LP &l, const Sol &s, double *wst, double *wsg) {
    LD ysc = 1; for (double v : s.y) { if (!std::isfinite(v)) return "recovered-y-not-finite"; ysc = std::max(ysc, fabsl((LD) v)); }
    for (double v : s.z) if (!std::isfinite(v)) return "recovered-z-not-finite";
    std::vector<LD> z(l.n), mag(l.n, 1); for (size_t j = 0; j < l.n; j++) { z[j] = l.c[j]; mag[j] = std::max(mag[j], fabsl(z[j])); }
    for (size_t i = 0; i < l.m; i++) for (int k = l.Ap[i]; k < l.Ap[i + 1]; k++) { LD t = (LD) s.y[i] * l.Ax[k]; z[l.Ai[k]] -= t; mag[l.Ai[k]] = std::max(mag[l.Ai[k]], fabsl(t)); }
    double st = 0; for (size_t j = 0; j < l.n; j++) st = std::max(st, (double) (fabsl(z[j] - s.z[j]) / mag[j]));
    if (wst) *wst = st;
    if (!(st <= T_STAT)) return "stationarity";
    double w = 0; for (size_t j = 0; j < l.n; j++) w = std::max(w, sgn_viol(s.z[j], s.x[j], l.lb[j], l.ub[j], T_AT) / (double) mag[j]);
    double wy = 0; for (size_t i = 0; i < l.m; i++) {
        LD a = 0, mg = 1; for (int k = l.Ap[i]; k < l.Ap[i + 1]; k++) { LD t = (LD) l.Ax[k] * s.x[l.Ai[k]]; a += t; mg = std::max(mg, fabsl(t)); }
        wy = std::max(wy, sgn_viol(s.y[i], (double) a, l.lhs[i], l.rhs[i], T_AT * (double) mg) / (double) ysc);
    }
    if (wsg) *wsg = std::max(w, wy);
    if (!(w <= T_DUAL)) return "reduced-cost-sign";
    if (!(wy <= T_DUAL)) return "multiplier-sign";
    return "";
}

// --------------------------------------------------- P05
static std::string o_form(const LP &orig, const PresolvedProblem *q) {
    size_t m = q->m, n = q->n, nnz = q->nnz;
    if (m > orig.m || n > orig.n) return "more-rows-or-columns-than-the-original";
    if (!q->Ap) return "null-row-pointers";
    if (n && (!q->lbs || !q->ubs || !q->c)) return "null-column-data";
    if (m && (!q->lhs || !q->rhs)) return "null-row-data";
    if (nnz && (!q->Ax || !q->Ai)) return "null-matrix";
    if (q->Ap[0] != 0 || (size_t) q->Ap[m] != nnz) return "row-pointers-do-not-span-nnz";
    std::vector<int> cc(n, 0);
    for (size_t i = 0; i < m; i++) {
        if (q->Ap[i + 1] < q->Ap[i]) return "row-pointers-not-monotone";
        if (q->Ap[i + 1] == q->Ap[i]) return "empty-row-left";
        for (int k = q->Ap[i]; k < q->Ap[i + 1]; k++) {
            if (q->Ai[k] < 0 || (size_t) q->Ai[k] >= n) return "column-index-out-of-range";
            if (k > q->Ap[i] && q->Ai[k] <= q->Ai[k - 1]) return "column-indices-not-increasing";
            if (!std::isfinite(q->Ax[k]) || q->Ax[k] == 0) return "zero-or-nonfinite-coefficient";
            cc[q->Ai[k]]++;
        }
        if (std::isnan(q->lhs[i]) || std::isnan(q->rhs[i])) return "nan-side";
        if (q->lhs[i] > q->rhs[i]) return "crossed-sides";
        if (q->lhs[i] == INF_ || q->rhs[i] == -INF_) return "infinite-side-of-wrong-sign";
        if (q->Ap[i + 1] - q->Ap[i] == 1) return "singleton-row-left";
    }
    for (size_t j = 0; j < n; j++) {
        if (!cc[j]) return "empty-column-left";
        if (std::isnan(q->lbs[j]) || std::isnan(q->ubs[j])) return "nan-bound";
        if (q->lbs[j] > q->ubs[j]) return "crossed-bounds";
        if (q->lbs[j] == INF_ || q->ubs[j] == -INF_) return "infinite-bound-of-wrong-sign";
        if (!std::isfinite(q->c[j])) return "nonfinite-cost";
    }
    if (!std::isfinite(q->obj_offset)) return "nonfinite-offset";
    return "";
}

// digest of everything visible after run_presolver
static uint64_t red_digest(const Presolver *p, int st) {
    uint64_t h = fnv(&st, sizeof st);
    if (st == INFEASIBLE || st == UNBNDORINFEAS) return h;
    const PresolvedProblem *q = p->reduced_prob; h = fnv(&q->m, sizeof q->m, h); h = fnv(&q->n, sizeof q->n, h); h = fnv(&q->nnz, sizeof q->nnz, h);
    auto d = [&](const double *v, size_t k) { for (size_t i = 0; i < k; i++) { double t = v[i] + 0.0; if (t != t) t = NAN; h = fnv(&t, sizeof t, h); } };
    d(q->Ax, q->nnz); h = fnv(q->Ai, q->nnz * sizeof(int), h); h = fnv(q->Ap, (q->m + 1) * sizeof(int), h);
    d(q->lhs, q->m); d(q->rhs, q->m); d(q->lbs, q->n); d(q->ubs, q->n); d(q->c, q->n); d(&q->obj_offset, 1);
    return h;
}
static uint64_t sol_digest(const Sol &s) { uint64_t h = 7; auto d = [&](const std::vector<double> &v) { for (double t : v) { t += 0.0; if (t != t) t = NAN; h = fnv(&t, sizeof t, h); } }; d(s.x); d(s.y); d(s.z); return h; }
// deterministic arbitrary input for postsolve
static void some_point(const LP &red, Rng &r, std::vector<double> &x, std::vector<double> &y, std::vector<double> &z) {
    x.resize(red.n); y.resize(red.m); z.resize(red.n);
    for (size_t j = 0; j < red.n; j++) { double lo = std::isfinite(red.lb[j]) ? red.lb[j] : std::isfinite(red.ub[j]) ? red.ub[j] - 4 : -2, up = std::isfinite(red.ub[j]) ? red.ub[j] : lo + 4; int t = r.in(0, 2); x[j] = t == 0 ? lo : t == 1 ? up : lo + (up - lo) * r.u(); z[j] = r.in(-2, 2); }
    for (size_t i = 0; i < red.m; i++) y[i] = r.in(-2, 2);
}

// An optimal primal-dual pair of a small reduced problem (there the postsolve
// steps that look at active rows and bounds act), else any point.
static void any_point(const LP &red, Rng &r, std::vector<double> &x, std::vector<double> &y, std::vector<double> &z) {
    bool opt = r.p(.4); uint64_t q = r.next();
    if (opt && red.n && red.n <= 40 && red.m <= 40) { RefResult b = ref_big(red, q); if (b.st == R_OPT && b.x.size() == red.n && b.y.size() == red.m && b.z.size() == red.n) { x = b.x; y = b.y; z = b.z; return; } }
    some_point(red, r, x, y, z);
}
