// One execution of the real library on one LP, observed at the API boundary.
#pragma once
#include "lp.hpp"
extern "C" {
#include "PSLP_API.h"
#include "PSLP_sol.h"
#include "PSLP_stats.h"
}

struct Run {
    Settings *st = nullptr;
    Presolver *p = nullptr;
    PresolveStatus status = (PresolveStatus) 0;
    LP red;
    ~Run() { close(); }
    void close() { if (p) free_presolver(p); p = nullptr; if (st) free_settings(st); st = nullptr; }
};

struct Cfg { // 8 booleans + shift + time
    bool sc = 1, de = 1, pr = 1, pc = 1, pp = 1, fb = 1, df = 1, rb = 1; int shift = 10; double maxt = 60; bool verbose = false;
    void to(Settings *s) const { s->ston_cols = sc; s->dton_eq = de; s->parallel_rows = pr; s->parallel_cols = pc; s->primal_propagation = pp; s->finite_bound_tightening = fb; s->dual_fix = df; s->relax_bounds = rb; s->max_shift = shift; s->max_time = maxt; s->verbose = verbose; }
    std::string str() const { char b[200]; snprintf(b, sizeof b, "ston_cols=%d dton_eq=%d parallel_rows=%d parallel_cols=%d primal_propagation=%d finite_bound_tightening=%d dual_fix=%d relax_bounds=%d max_shift=%d max_time=%g verbose=%d", sc, de, pr, pc, pp, fb, df, rb, shift, maxt, verbose); return b; }
    bool parse(const char *s) { int a[8], v; int k = sscanf(s, "ston_cols=%d dton_eq=%d parallel_rows=%d parallel_cols=%d primal_propagation=%d finite_bound_tightening=%d dual_fix=%d relax_bounds=%d max_shift=%d max_time=%lf verbose=%d", a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7, &shift, &maxt, &v); if (k != 11) return false; sc = a[0]; de = a[1]; pr = a[2]; pc = a[3]; pp = a[4]; fb = a[5]; df = a[6]; rb = a[7]; verbose = v; return true; }
};
static inline Cfg rand_cfg(Rng &r) {
    Cfg c;
    if (r.p(0.45)) return c;
    if (r.p(0.12)) { c.sc = c.de = c.pr = c.pc = c.pp = c.fb = c.df = c.rb = false; int k = r.in(0, 7); bool *q[] = {&c.sc, &c.de, &c.pr, &c.pc, &c.pp, &c.fb, &c.df, &c.rb}; *q[k] = true; if (k == 5 || k == 7) c.pp = true; return c; }
    c.sc = r.p(.7); c.de = r.p(.7); c.pr = r.p(.7); c.pc = r.p(.7); c.pp = r.p(.7); c.fb = r.p(.6); c.df = r.p(.7); c.rb = r.p(.6);
    c.shift = r.p(.5) ? 10 : r.in(0, 25);
    return c;
}

// exact-size heap copies so that a one-element overread is visible to ASan
template <class T> struct Heap {
    T *p; size_t k;
    explicit Heap(const std::vector<T> &v) : k(v.size()) { p = (T *) malloc(k * sizeof(T) + (k ? 0 : 1)); if (k) memcpy(p, v.data(), k * sizeof(T)); }
    ~Heap() { free(p); }
    bool same(const std::vector<T> &v) const { return v.size() == k && (k == 0 || !memcmp(p, v.data(), k * sizeof(T))); }
    void scribble(int byte) { if (k) memset(p, byte, k * sizeof(T)); }
};

static inline LP grab_reduced(const Presolver *p) {
    const PresolvedProblem *q = p->reduced_prob; LP l; l.m = q->m; l.n = q->n; l.nnz = q->nnz; l.off = q->obj_offset;
    auto cp = [](auto &v, auto *ptr, size_t k) { v.resize(k); for (size_t i = 0; i < k; i++) v[i] = ptr[i]; };
    cp(l.Ap, q->Ap, l.m + 1); cp(l.Ai, q->Ai, l.nnz); cp(l.Ax, q->Ax, l.nnz); cp(l.lhs, q->lhs, l.m); cp(l.rhs, q->rhs, l.m); cp(l.lb, q->lbs, l.n); cp(l.ub, q->ubs, l.n); cp(l.c, q->c, l.n);
    return l;
}
static inline bool run_new(Run &R, const LP &l, const Cfg &cfg) {
    R.st = default_settings(); if (!R.st) return false; cfg.to(R.st);
    Heap<double> Ax(l.Ax), lhs(l.lhs), rhs(l.rhs), lb(l.lb), ub(l.ub), c(l.c); Heap<int> Ai(l.Ai), Ap(l.Ap);
    R.p = new_presolver(Ax.p, Ai.p, Ap.p, l.m, l.n, l.nnz, lhs.p, rhs.p, lb.p, ub.p, c.p, R.st);
    return R.p != nullptr;
}
static inline bool run_lp(Run &R, const LP &l, const Cfg &cfg) {
    if (!run_new(R, l, cfg)) return false;
    R.status = run_presolver(R.p);
    if (!(R.status & INFEASIBLE)) R.red = grab_reduced(R.p);
    return true;
}
static inline const char *sname(int s) { return s == 0 ? "UNCHANGED" : s == 1 ? "REDUCED" : s == 2 ? "INFEASIBLE" : s == 6 ? "UNBNDORINFEAS" : "?"; }
