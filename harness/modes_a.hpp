// Functional properties: verdict, equivalence, recovery, form, accounting, settings.
#pragma once
#include "oracle.hpp"

struct Full { RefResult a, b; Run R; };
static bool both(const Case &c, Full &F) { // reference, presolve, reference of the reduced problem
    F.a = ref_big(c.l, c.k);
    if (!run_lp(F.R, c.l, c.cfg)) return false;
    if (!(F.R.status & INFEASIBLE)) F.b = ref_big(F.R.red, c.k + 7);
    return true;
}
static bool reduced_any(const Case &c, const Run &R) { return (R.status & INFEASIBLE) || R.red.m != c.l.m || R.red.n != c.l.n || R.red.nnz != c.l.nnz; }

static void m_verdict(Ctx &X, uint64_t k) {
    Case c = X.get(k, W_STD | W_LARGE);
    // LPs near the edge of feasibility are where verdicts are hard: also
    // probe the same LP with one side shifted
    RefResult a = ref_big(c.l, k); Run R;
    if (!run_lp(R, c.l, c.cfg)) { X.viol("no-presolver", c, "new_presolver returned NULL"); return; }
    X.hit(std::string("class ") + c.cls); X.hit(std::string("original ") + rname(a.st)); X.hit(std::string("verdict ") + sname(R.status));
    if (a.st != R_UNK) X.hit(std::string("decided ") + rname(a.st) + "/" + sname(R.status));
    if (a.st != R_UNK && reduced_any(c, R)) X.nontrivial(lp_hash(c.l));
    if (a.st != R_UNK && (R.status & INFEASIBLE)) X.sample(Ctx::case_text(c) + "verdict " + sname(R.status) + " reference " + rname(a.st));
    std::string e = o_verdict(X, c, a, R.status);
    if (e.empty()) return;
    X.hit("candidates");
    bool sure = e == "undefined-status" || confirm(c, [&](const Case &q, double) { RefResult a2 = ref_big(q.l, k); Run S; if (!run_lp(S, q.l, q.cfg)) return true; return o_verdict(X, q, a2, S.status) == e; });
    if (!sure) { X.hit("candidates explained by tolerances"); return; }
    X.viol(e, c, fmt("verdict %s, reference %s (objective %.9g)", sname(R.status), rname(a.st), a.obj));
}

static void m_equiv(Ctx &X, uint64_t k) {
    Case c = X.get(k, W_STD | W_LARGE); Full F;
    if (!both(c, F)) { X.viol("no-presolver", c, "new_presolver returned NULL"); return; }
    X.hit(std::string("class ") + c.cls); X.hit(std::string("verdict ") + sname(F.R.status));
    if (F.R.status & INFEASIBLE) return;
    X.hit(std::string("compared ") + rname(F.a.st) + "/" + rname(F.b.st));
    if (F.a.st == R_UNK || F.b.st == R_UNK) return;
    if (reduced_any(c, F.R)) X.nontrivial(lp_hash(c.l));
    if (F.R.red.n && F.R.red.n < c.l.n && F.R.red.m) X.sample(Ctx::case_text(c) + "reduced:\n" + lp_text(F.R.red) + fmt("offset %.17g; optimum %.12g, reduced optimum + offset %.12g", F.R.red.off, F.a.obj, F.b.obj + F.R.red.off));
    if (F.a.st == R_OPT) { X.max("max relative difference of optimal values", fabs(F.b.obj + F.R.red.off - F.a.obj) / (1 + fabs(F.a.obj))); if (F.R.red.off != 0) X.hit("nonzero objective offset"); }
    std::string e = o_equiv(c, F.a, F.R, F.b);
    if (e.empty()) return;
    X.hit("candidates");
    bool sure = confirm(c, [&](const Case &q, double) { Full G; if (!both(q, G)) return true; if (G.R.status & INFEASIBLE) return G.a.st == R_OPT; return !o_equiv(q, G.a, G.R, G.b).empty(); }, e == "optimal-value-differs" && fabs(F.b.obj + F.R.red.off - F.a.obj) > 2e-2 * std::max({1.0, fabs(F.a.obj), obj_scale(c.l, F.a.x), obj_scale(F.R.red, F.b.x)}));
    if (!sure) { X.hit("candidates explained by tolerances"); return; }
    X.viol(e, c, fmt("original %s %.12g, reduced %s %.12g + offset %.12g", rname(F.a.st), F.a.obj, rname(F.b.st), F.b.obj, F.R.red.off));
}

// points of the reduced problem: optimal vertices, points inside the optimal
// face, feasible non-optimal vertices and interior points
struct Pts { std::vector<std::vector<double>> opt, feas; std::vector<std::pair<std::vector<double>, std::vector<double>>> dual; };
static Pts points(const LP &red, uint64_t k, const RefResult &b, int extra) {
    Pts P; if (b.st == R_OPT) { P.opt.push_back(b.x); P.dual.push_back({b.y, b.z}); }
    Rng r(mix(k, 99));
    auto avg = [](const std::vector<double> &u, const std::vector<double> &v, double t) { std::vector<double> w(u.size()); for (size_t i = 0; i < u.size(); i++) w[i] = t * u[i] + (1 - t) * v[i]; return w; };
    for (int e = 0; e < extra; e++) {
        if (b.st == R_OPT) { RefResult b2 = ref_big(red, k + 100 + e); if (b2.st == R_OPT && fabs(b2.obj - b.obj) <= 1e-7 * (1 + fabs(b.obj))) {
            P.opt.push_back(b2.x); P.opt.push_back(avg(b.x, b2.x, .5)); P.dual.push_back({b2.y, b2.z}); P.dual.push_back({avg(b.y, b2.y, .25), avg(b.z, b2.z, .25)}); } }
        if (b.st != R_INF) { std::vector<double> ac(red.n); for (auto &v : ac) v = r.in(-3, 3); RefResult f = ref_big(red, k + 200 + e, &ac); if (f.x.size() == red.n && (f.st == R_OPT || f.st == R_UNB)) { P.feas.push_back(f.x); if (b.x.size() == red.n && (b.st == R_OPT)) P.feas.push_back(avg(b.x, f.x, r.u())); if (P.feas.size() >= 2) P.feas.push_back(avg(P.feas[0], P.feas.back(), r.u())); } }
    }
    if (b.st == R_OPT && P.opt.size() > 1) { // points on the optimal face found by tilting the costs only along it
        P.opt.push_back(avg(P.opt[0], P.opt.back(), .37)); }
    return P;
}

// Solvers return approximate solutions: the same points with noise of size NOISE (in
// the primal within the bounds; reduced costs belong to the multipliers), for problems
// whose data are moderate, so that the noise stays far below the tolerance (1e-6)
// with which postsolve decides whether a bound or side is active.
static const double NOISE = 1e-9;
static bool moderate(const LP &q) {
    auto big = [](double v) { return std::isfinite(v) && fabs(v) > 100; }; for (double v : q.Ax) if (big(v) || fabs(v) < 1e-2) return false;
    for (auto *w : {&q.c, &q.lb, &q.ub, &q.lhs, &q.rhs}) for (double v : *w) if (big(v)) return false; return true;
}
static std::vector<double> noisy_x(const LP &q, std::vector<double> x, uint64_t k) {
    Rng r(mix(k, 101)); for (size_t j = 0; j < x.size(); j++) if (r.p(.8)) { x[j] += NOISE * (2 * r.u() - 1); x[j] = std::min(std::max(x[j], q.lb[j]), q.ub[j]); } return x;
}
static void noisy_yz(const LP &q, std::vector<double> &y, std::vector<double> &z, uint64_t k) {
    Rng r(mix(k, 102)); for (auto &v : y) if (r.p(.8)) v += NOISE * (2 * r.u() - 1);
    for (size_t j = 0; j < q.n; j++) z[j] = q.c[j]; for (size_t i = 0; i < q.m; i++) for (int e = q.Ap[i]; e < q.Ap[i + 1]; e++) z[q.Ai[e]] -= y[i] * q.Ax[e];
}

static std::string primal_case(Ctx *X, const Case &c, Full &F, std::string *det, bool *gross = nullptr, bool noise = false) {
    const LP &red = F.R.red; int extra = c.l.n > 400 ? 0 : 2;
    Pts P = points(red, c.k, F.b, extra);
    std::vector<double> y0(red.m, 0), z0(red.n, 0); std::string e; double w, oe = 0;
    for (auto &x : P.opt) { Sol s = do_postsolve(F.R, c.l, x, F.b.y, F.b.z); if (X) X->hit("optimal points mapped"); e = o_primal(c.l, red, x, s, true, F.b.obj + red.off, &w, &oe); if (X && e.empty()) X->max("max primal violation of a recovered optimal point", w); if (!e.empty()) { if (gross) *gross = w > 2e-2 || oe > 2e-2; if (det) *det = fmt("violation %g, objective %.12g, expected %.12g", w, obj_of(c.l, s.x), F.b.obj + red.off); return e; } }
    for (auto &x : P.feas) { Sol s = do_postsolve(F.R, c.l, x, y0, z0); if (X) X->hit("feasible points mapped"); e = o_primal(c.l, red, x, s, false, 0, &w, &oe); if (X && e.empty()) X->max("max primal violation of a recovered feasible point", w); if (!e.empty()) { if (gross) *gross = w > 2e-2 || oe > 2e-2; if (det) *det = fmt("violation %g, objective %.12g, objective of the reduced point %.12g", w, obj_of(c.l, s.x), obj_of(red, x) + red.off); return e; } }
    if (noise) for (size_t t = 0; t < P.opt.size() + P.feas.size(); t++) {
        std::vector<double> x = noisy_x(red, t < P.opt.size() ? P.opt[t] : P.feas[t - P.opt.size()], c.k + t); if (primal_viol(red, x) > 1e3 * NOISE) continue;
        Sol s = do_postsolve(F.R, c.l, x, F.b.st == R_OPT ? F.b.y : y0, F.b.st == R_OPT ? F.b.z : z0); if (X) X->hit("approximate points mapped"); e = o_primal(c.l, red, x, s, false, 0, &w, &oe); if (X && e.empty()) X->max("max primal violation of a recovered approximate point", w);
        if (!e.empty()) { if (gross) *gross = w > 2e-2 || oe > 2e-2; if (det) *det = fmt("violation %g, objective %.12g (reduced point perturbed by %g)", w, obj_of(c.l, s.x), NOISE); return "approximate-" + e; }
    }
    return "";
}
static void m_primal(Ctx &X, uint64_t k) {
    Case c = X.get(k, W_STD | W_LARGE); Full F;
    if (!both(c, F)) { X.viol("no-presolver", c, "new_presolver returned NULL"); return; }
    X.hit(std::string("class ") + c.cls); X.hit(std::string("verdict ") + sname(F.R.status));
    if ((F.R.status & INFEASIBLE) || F.b.st == R_UNK || F.b.st == R_INF) return;
    if (reduced_any(c, F.R)) X.nontrivial(lp_hash(c.l));
    bool gross = false, noise = moderate(c.l) && moderate(F.R.red); std::string det; std::string e = primal_case(&X, c, F, &det, &gross, noise);
    if (F.R.red.n && F.R.red.n < c.l.n && F.b.st == R_OPT) { Sol s = do_postsolve(F.R, c.l, F.b.x, F.b.y, F.b.z); std::string t = "reduced x:"; for (double v : F.b.x) t += fmt(" %g", v); t += " -> x:"; for (double v : s.x) t += fmt(" %g", v); X.sample(Ctx::case_text(c) + t); }
    if (e.empty()) return;
    if (F.a.st == R_INF) { X.hit("original infeasible within tolerance"); return; } // P02's business
    X.hit("candidates");
    bool sure = confirm(c, [&](const Case &q, double) { Full G; if (!both(q, G)) return true; if ((G.R.status & INFEASIBLE) || G.b.st == R_UNK || G.b.st == R_INF) return false; return !primal_case(nullptr, q, G, nullptr, nullptr, noise).empty(); }, gross);
    if (!sure) { X.hit("candidates explained by tolerances"); return; }
    X.viol(e, c, det);
}

static std::string dual_case(Ctx *X, const Case &c, Full &F, std::string *det, bool noise = false) {
    if (F.b.st != R_OPT) return "";
    const LP &red = F.R.red; Pts P = points(red, c.k, F.b, c.l.n > 400 ? 0 : 2);
    size_t np = 0;
    for (size_t i = 0; i < P.opt.size(); i++) for (size_t j = 0; j < P.dual.size(); j++) {
        if (i && j && (i * 7 + j * 3 + c.k) % 3) continue;
        Sol s = do_postsolve(F.R, c.l, P.opt[i], P.dual[j].first, P.dual[j].second); double st = 0, sg = 0; np++;
        if (primal_viol(c.l, s.x) > T_PRIMAL) continue; // P03's business
        std::string e = o_dual(c.l, s, &st, &sg); if (X) X->hit("optimal primal-dual pairs mapped");
        if (X && e.empty()) { X->max("max stationarity residual", st); X->max("max sign or complementarity residual", sg); for (double v : s.y) if (v != 0) { X->hit("nonzero recovered multipliers"); break; } }
        if (!e.empty()) { if (det) *det = fmt("stationarity %g, sign/complementarity %g", st, sg); return e; }
    }
    if (noise) for (size_t i = 0; i < P.opt.size() && i < 2; i++) {
        std::vector<double> x = noisy_x(red, P.opt[i], c.k + i), y = P.dual[i % P.dual.size()].first, z = P.dual[i % P.dual.size()].second; noisy_yz(red, y, z, c.k + i);
        if (primal_viol(red, x) > 1e3 * NOISE) continue; Sol s = do_postsolve(F.R, c.l, x, y, z); if (primal_viol(c.l, s.x) > T_PRIMAL) continue;
        double st = 0, sg = 0; std::string e = o_dual(c.l, s, &st, &sg); if (X) X->hit("approximate primal-dual pairs mapped"); if (X && e.empty()) { X->max("max stationarity residual (approximate pairs)", st); X->max("max sign or complementarity residual (approximate pairs)", sg); }
        if (!e.empty()) { if (det) *det = fmt("stationarity %g, sign/complementarity %g (reduced pair perturbed by %g)", st, sg, NOISE); return "approximate-" + e; }
    }
    return "";
}
static void m_dual(Ctx &X, uint64_t k) {
    Case c = X.get(k, W_STD | W_LARGE); Full F;
    if (!both(c, F)) { X.viol("no-presolver", c, "new_presolver returned NULL"); return; }
    X.hit(std::string("class ") + c.cls); X.hit(std::string("verdict ") + sname(F.R.status));
    if ((F.R.status & INFEASIBLE) || F.b.st != R_OPT || F.a.st == R_INF) return;
    if (reduced_any(c, F.R)) X.nontrivial(lp_hash(c.l));
    if (F.R.red.n < c.l.n && c.l.m > 1) { Sol s = do_postsolve(F.R, c.l, F.b.x, F.b.y, F.b.z); std::string t = "recovered x:"; for (double v : s.x) t += fmt(" %g", v); t += " y:"; for (double v : s.y) t += fmt(" %g", v); t += " z:"; for (double v : s.z) t += fmt(" %g", v); X.sample(Ctx::case_text(c) + t); }
    bool noise = moderate(c.l) && moderate(F.R.red); std::string det; std::string e = dual_case(&X, c, F, &det, noise);
    if (e.empty()) return;
    X.hit("candidates");
    bool sure = confirm(c, [&](const Case &q, double) { Full G; if (!both(q, G)) return true; if ((G.R.status & INFEASIBLE) || G.b.st != R_OPT) return false; return !dual_case(nullptr, q, G, nullptr, noise).empty(); });
    if (!sure) { X.hit("candidates explained by tolerances"); return; }
    X.viol(e, c, det);
}

static void m_form(Ctx &X, uint64_t k) {
    Case c = X.get(k, W_STD | W_LARGE); Run R;
    if (!run_lp(R, c.l, c.cfg)) { X.viol("no-presolver", c, "new_presolver returned NULL"); return; }
    X.hit(std::string("class ") + c.cls); X.hit(std::string("verdict ") + sname(R.status));
    if (R.status & INFEASIBLE) return;
    X.hit("reduced problems inspected"); X.hit("reduced rows inspected", (long) R.red.m); X.hit("reduced columns inspected", (long) R.red.n); X.hit("reduced coefficients inspected", (long) R.red.nnz);
    if (R.red.n == 0) X.hit("empty reduced problems");
    if (reduced_any(c, R)) X.nontrivial(lp_hash(c.l));
    if (R.red.m > 1 && R.red.n < c.l.n) X.sample(Ctx::case_text(c) + "reduced:\n" + lp_text(R.red));
    std::string e = o_form(c.l, R.p->reduced_prob);
    if (!e.empty()) X.viol(e, c, "reduced problem:\n" + lp_text(R.red));
}

// ------------------------------------------------------------------ accounting
static void m_stats(Ctx &X, uint64_t k) {
    Case c = X.get(k, W_STD | W_LARGE); Run R;
    if (!run_new(R, c.l, c.cfg)) { X.viol("no-presolver", c, "new_presolver returned NULL"); return; }
    const PresolveStats *s = R.p->stats;
    auto V = [&](const char *key, const std::string &d) { X.viol(key, c, d); };
    if (s->n_rows_original != c.l.m || s->n_cols_original != c.l.n || s->nnz_original != c.l.nnz) V("original-size-wrong-before-run", fmt("%zu %zu %zu", s->n_rows_original, s->n_cols_original, s->nnz_original));
    R.status = run_presolver(R.p);
    X.hit(std::string("class ") + c.cls); X.hit(std::string("verdict ") + sname(R.status));
    if (s->n_rows_original != c.l.m || s->n_cols_original != c.l.n || s->nnz_original != c.l.nnz) V("original-size-changed", fmt("%zu %zu %zu", s->n_rows_original, s->n_cols_original, s->nnz_original));
    if (!(R.status == UNCHANGED || R.status == REDUCED || R.status == INFEASIBLE || R.status == UNBNDORINFEAS)) V("undefined-status", fmt("%d", R.status));
    const double tm[] = {s->time_init, s->time_fast_reductions, s->time_medium_reductions, s->time_primal_propagation, s->time_parallel_rows, s->time_parallel_cols, s->time_presolve};
    for (double t : tm) if (!(t >= 0 && t < 1e6)) V("time-negative-or-nonfinite", fmt("%g", t));
    if (R.status & INFEASIBLE) { if (R.p->reduced_prob->m || R.p->reduced_prob->n || R.p->reduced_prob->nnz) V("reduced-problem-present-after-infeasible", ""); return; }
    R.red = grab_reduced(R.p); const LP &q = R.red;
    if (reduced_any(c, R)) X.nontrivial(lp_hash(c.l));
    if (s->n_rows_reduced != q.m || s->n_cols_reduced != q.n || s->nnz_reduced != q.nnz) V("reduced-size-differs-from-reduced-problem", fmt("stats %zu %zu %zu, problem %zu %zu %zu", s->n_rows_reduced, s->n_cols_reduced, s->nnz_reduced, q.m, q.n, q.nnz));
    bool same = q.m == c.l.m && q.n == c.l.n && q.nnz == c.l.nnz;
    if ((R.status == UNCHANGED) != same) V("status-does-not-match-sizes", fmt("status %s, %zu %zu %zu -> %zu %zu %zu", sname(R.status), c.l.m, c.l.n, c.l.nnz, q.m, q.n, q.nnz));
    size_t part[] = {s->nnz_removed_trivial, s->nnz_removed_fast, s->nnz_removed_primal_propagation, s->nnz_removed_parallel_rows, s->nnz_removed_parallel_cols};
    size_t sum = 0; for (size_t v : part) sum += v; // modular on purpose: a phase may add fill-in
    if (sum != s->nnz_original - s->nnz_reduced) V("removed-nonzeros-do-not-add-up", fmt("%zd %zd %zd %zd %zd, %zu -> %zu", part[0], part[1], part[2], part[3], part[4], s->nnz_original, s->nnz_reduced));
    const char *nm[] = {"trivial", "fast", "propagation", "parallel rows", "parallel cols"};
    for (int t = 0; t < 5; t++) { if (part[t]) X.hit(std::string("runs with nonzeros removed by ") + nm[t]); if (t != 1 && part[t] > c.l.nnz + (c.l.m + c.l.n) * 50) V("negative-removed-count", fmt("%s %zd", nm[t], part[t])); }
    if (!c.cfg.pr && part[3]) V("disabled-family-has-removals", "parallel rows"); if (!c.cfg.pc && part[4]) V("disabled-family-has-removals", "parallel cols"); if (!c.cfg.pp && part[2]) V("disabled-family-has-removals", "propagation");
    double tot = s->time_presolve + 1e-9, inner = s->time_primal_propagation + s->time_parallel_rows + s->time_parallel_cols;
    if (s->time_fast_reductions + s->time_medium_reductions > tot) V("phase-times-exceed-total", fmt("%g + %g > %g", s->time_fast_reductions, s->time_medium_reductions, tot));
    if (inner > s->time_medium_reductions + 1e-9) V("family-times-exceed-phase", fmt("%g > %g", inner, s->time_medium_reductions));
    if (same && c.l.nnz) { // nothing removed: coefficients must be the original ones
        if (q.Ai != c.l.Ai || q.Ap != c.l.Ap) V("unchanged-but-pattern-differs", "");
    }
    if (R.p->sol->dim_x != c.l.n || R.p->sol->dim_y != c.l.m) V("solution-dimension-wrong", fmt("%zu %zu", (size_t) R.p->sol->dim_x, (size_t) R.p->sol->dim_y));
    Rng r(mix(k, 3)); std::vector<double> x, y, z; some_point(q, r, x, y, z);
    for (double &v : x) if (r.p(.2)) v += (r.p(.5) ? 1 : -1) * std::pow(10., -r.in(6, 15)) * r.in(1, 9); // what is returned must be these very bits
    Sol so = do_postsolve(R, c.l, x, y, z);
    if (!(s->time_postsolve >= 0 && s->time_postsolve < 1e6)) V("time-negative-or-nonfinite", "postsolve");
    if (same) { X.hit("identity recoveries checked"); for (size_t j = 0; j < q.n; j++) if (so.x[j] != x[j]) { V("unchanged-but-primal-point-altered", fmt("x[%zu] %g -> %g", j, x[j], so.x[j])); break; } }
    X.sample(Ctx::case_text(c) + fmt("status %s stats %zu x %zu (%zu) -> %zu x %zu (%zu); removed %zd %zd %zd %zd %zd", sname(R.status), s->n_rows_original, s->n_cols_original, s->nnz_original, q.m, q.n, q.nnz, part[0], part[1], part[2], part[3], part[4]));
}

// ------------------------------------------------------------------ settings
static bool close_(double a, double b) { return a == b || fabs(a - b) <= 1e-7 * (1 + fabs(b)); }
// executable model of the reductions that cannot be switched off: close bounds,
// singleton rows, empty rows, empty columns
struct Trivial { LP l; int st = 0; };
static Trivial trivial_model(const LP &o) {
    Trivial T; std::vector<std::map<int, double>> R(o.m), C(o.n); for (size_t i = 0; i < o.m; i++) for (int k = o.Ap[i]; k < o.Ap[i + 1]; k++) { R[i][o.Ai[k]] = o.Ax[k]; C[o.Ai[k]][(int) i] = o.Ax[k]; }
    auto lb = o.lb, ub = o.ub, lhs = o.lhs, rhs = o.rhs; std::vector<char> ra(o.m, 1), ca(o.n, 1); double off = 0;
    auto fix = [&](int j, double v) { off += o.c[j] * v; for (auto &e : C[j]) { int i = e.first; if (!ra[i]) continue; lhs[i] -= e.second * v; rhs[i] -= e.second * v; R[i].erase(j); } ca[j] = 0; };
    for (bool ch = true; ch;) { ch = false;
        for (size_t j = 0; j < o.n; j++) if (ca[j] && lb[j] == ub[j]) { fix((int) j, lb[j]); ch = true; }
        for (size_t i = 0; i < o.m; i++) if (ra[i] && R[i].size() == 1) { int j = R[i].begin()->first; double a = R[i].begin()->second, lo = lhs[i] / a, up = rhs[i] / a; if (a < 0) std::swap(lo, up); lb[j] = std::max(lb[j], lo); ub[j] = std::min(ub[j], up); ra[i] = 0; C[j].erase((int) i); ch = true; if (lb[j] > ub[j]) { T.st = lb[j] - ub[j] > 1e-3 ? 1 : 9; return T; } if (ub[j] - lb[j] < 1e-3 && ub[j] != lb[j]) { T.st = 9; return T; } }
        for (size_t i = 0; i < o.m; i++) if (ra[i] && R[i].empty()) { ra[i] = 0; if (lhs[i] > 1e-3 || rhs[i] < -1e-3) { T.st = 1; return T; } if (lhs[i] > 1e-9 || rhs[i] < -1e-9) { T.st = 9; return T; } ch = true; }
        for (size_t j = 0; j < o.n; j++) if (ca[j]) { bool e = true; for (auto &q : C[j]) if (ra[q.first]) e = false; if (e) { double v = o.c[j] > 0 ? lb[j] : o.c[j] < 0 ? ub[j] : 0; if (!std::isfinite(v)) { T.st = 2; return T; } off += o.c[j] * v; ca[j] = 0; ch = true; } }
    }
    Builder b; std::vector<int> nc(o.n, -1); for (size_t j = 0; j < o.n; j++) if (ca[j]) { nc[j] = (int) b.n++; b.lb.push_back(lb[j]); b.ub.push_back(ub[j]); b.c.push_back(o.c[j]); }
    for (size_t i = 0; i < o.m; i++) if (ra[i]) { b.rows.emplace_back(); for (auto &e : R[i]) b.rows.back()[nc[e.first]] = e.second; b.lhs.push_back(lhs[i]); b.rhs.push_back(rhs[i]); }
    T.l = b.make(); T.l.off = off; return T;
}
static std::string cmp_lp(const LP &a, const LP &b) {
    if (a.m != b.m || a.n != b.n || a.nnz != b.nnz) return fmt("size %zu %zu %zu, expected %zu %zu %zu", a.m, a.n, a.nnz, b.m, b.n, b.nnz);
    if (a.Ap != b.Ap || a.Ai != b.Ai) return "pattern";
    for (size_t i = 0; i < a.nnz; i++) if (a.Ax[i] != b.Ax[i]) return "coefficient";
    for (size_t i = 0; i < a.m; i++) if (!close_(a.lhs[i], b.lhs[i]) || !close_(a.rhs[i], b.rhs[i])) return fmt("sides of row %zu", i);
    for (size_t j = 0; j < a.n; j++) { if (!close_(a.lb[j], b.lb[j]) || !close_(a.ub[j], b.ub[j])) return fmt("bounds of column %zu", j); if (!close_(a.c[j], b.c[j])) return fmt("cost of column %zu", j); }
    if (!close_(a.off, b.off)) return fmt("offset %.12g expected %.12g", a.off, b.off);
    return "";
}
// Original index of every reduced row and column, read back through postsolve:
// a kept column/row keeps its value. -1 if no original index or more than one
// carries the value (a merged or aggregated column): such cases are not judged.
static bool trace_ids(Run &R, const LP &l, std::vector<int> &row, std::vector<int> &col, bool &rok) {
    const LP &q = R.red; col.assign(q.n, -1); row.assign(q.m, -1); bool cok = true; rok = true;
    for (int rep = 0; rep < 2; rep++) { // two unrelated points: coincidences do not repeat
        std::vector<double> x(q.n), y(q.m), z(q.n, 0); Rng r(mix(q.nnz * 31 + q.n, 77 + rep));
        for (auto &v : x) v = 1e5 + 1e4 * r.u(); for (auto &v : y) v = 1e5 + 1e4 * r.u();
        Sol s = do_postsolve(R, l, x, y, z);
        auto look = [](const std::vector<double> &red, const std::vector<double> &full, std::vector<int> &id, bool &ok, int rp) {
            std::map<double, int> at; for (size_t o = 0; o < full.size(); o++) { auto it = at.find(full[o]); if (it == at.end()) at[full[o]] = (int) o; else it->second = -1; }
            for (size_t j = 0; j < red.size(); j++) { auto it = at.find(red[j]); int o = it == at.end() ? -1 : it->second; if (o < 0 || (rp && id[j] != o)) ok = false; id[j] = o; } };
        look(x, s.x, col, cok, rep); look(y, s.y, row, rok, rep);
    }
    return cok;
}
// the helpers that fill a Settings structure: what is wrong, or nothing
static std::string settings_helpers(Rng &r) {
    auto all = [](const Settings &s, bool v) { return s.ston_cols == v && s.dton_eq == v && s.parallel_rows == v && s.parallel_cols == v && s.primal_propagation == v && s.finite_bound_tightening == v && s.dual_fix == v && s.relax_bounds == v; };
    Settings *d = default_settings(); if (!d) return "default_settings returned NULL";
    std::string w; if (!all(*d, true)) w = "default_settings leaves a technique off"; if (!(d->max_time > 0) || d->max_shift < 0) w = "default_settings: limits";
    auto mixed = [&]() { bool *q[] = {&d->ston_cols, &d->dton_eq, &d->parallel_rows, &d->parallel_cols, &d->primal_propagation, &d->finite_bound_tightening, &d->dual_fix, &d->relax_bounds, &d->verbose}; for (auto b : q) *b = r.p(.5); d->max_shift = r.in(0, 99); d->max_time = r.in(1, 999) / 8.; };
    for (int v = 0; v < 2 && w.empty(); v++) { mixed(); int ms = d->max_shift; double mt = d->max_time; (v ? set_settings_true : set_settings_false)(d);
        if (!all(*d, v)) w = v ? "set_settings_true leaves a technique off" : "set_settings_false leaves a technique on"; else if (d->max_shift != ms || d->max_time != mt) w = "set_settings_*: a limit was changed"; }
    free_settings(d); return w;
}
static void m_settings(Ctx &X, uint64_t k) {
    Case c = X.get(k, W_STD); Rng r(mix(k, 17)); Rng rh(mix(k, 18));
    if (k % 8 == 0 || X.replay) { std::string w = settings_helpers(rh); X.hit("settings helpers called"); if (!w.empty()) { X.viol("settings-helper", c, w); return; } }
    X.hit(std::string("class ") + c.cls);
    int kind = X.replay ? (int) (c.k % 3) : (int) (k % 3);
    Cfg &g = c.cfg; g.maxt = 60;
    if (!X.replay) {
        if (kind == 0) g.sc = g.de = g.pr = g.pc = g.pp = g.fb = g.df = g.rb = false;
        if (kind == 1) { g.sc = g.de = false; g.pr = r.p(.2); g.pc = r.p(.2); g.pp = r.p(.6); g.fb = r.p(.5); g.df = r.p(.6); g.rb = r.p(.5); }
        if (kind == 2) { g.sc = r.p(.6); g.de = r.p(.6); g.pr = r.p(.3); g.pc = r.p(.3); g.pp = r.p(.3); g.fb = r.p(.5); g.df = r.p(.3); g.rb = r.p(.5); }
    }
    bool alloff = !(g.sc || g.de || g.pr || g.pc || g.pp || g.df);
    Run R; if (!run_lp(R, c.l, c.cfg)) { X.viol("no-presolver", c, "new_presolver returned NULL"); return; }
    X.hit(std::string("verdict ") + sname(R.status));
    auto V = [&](const char *key, const std::string &d) { X.viol(key, c, d); };
    if (alloff && !g.rb) { // the mandatory reductions alone: compare with the model
        Trivial T = trivial_model(c.l);
        if (T.st == 9) { X.hit("model undecided (within tolerance)"); return; }
        X.nontrivial(lp_hash(c.l)); X.hit("compared with the model of the mandatory reductions");
        if (T.st == 1) { if (!(R.status & INFEASIBLE)) V("infeasible-by-mandatory-reductions-not-detected", ""); return; }
        if (T.st == 2) { if (!(R.status & INFEASIBLE)) V("unbounded-by-mandatory-reductions-not-detected", ""); return; }
        bool tiny = false; for (size_t j = 0; j < c.l.n; j++) if (c.l.ub[j] != c.l.lb[j] && c.l.ub[j] - c.l.lb[j] < 1e-4) tiny = true; for (size_t j = 0; j < T.l.n; j++) if (T.l.ub[j] - T.l.lb[j] < 1e-4) tiny = true;
        for (size_t i = 0; i < c.l.m; i++) if (c.l.lhs[i] != c.l.rhs[i] && c.l.rhs[i] - c.l.lhs[i] < 1e-4) tiny = true;
        if (tiny) { X.hit("model undecided (within tolerance)"); return; }
        if (R.status & INFEASIBLE) { V("verdict-with-all-reductions-off", sname(R.status)); return; }
        std::string e = cmp_lp(R.red, T.l);
        if (!e.empty() && c.l.nnz > 20) { // presolve may stop before the fixpoint when little is left to gain: the rest must be the rest of the same reductions
            Trivial U = trivial_model(R.red); U.l.off += R.red.off; if (!U.st && cmp_lp(U.l, T.l).empty()) { X.hit("stopped before the fixpoint"); e.clear(); } }
        if (!e.empty()) V("differs-from-mandatory-reductions", e + "\ngot:\n" + lp_text(R.red) + "expected:\n" + lp_text(T.l));
        X.sample(Ctx::case_text(c) + "all families off -> \n" + lp_text(R.red));
        return;
    }
    if (R.status & INFEASIBLE) return;
    const LP &l = c.l, &q = R.red; std::vector<int> row, col; bool rok; bool ok = trace_ids(R, l, row, col, rok);
    if (reduced_any(c, R)) X.nontrivial(lp_hash(c.l));
    const PresolveStats *s = R.p->stats;
    if (!g.pr && (s->nnz_removed_parallel_rows || s->time_parallel_rows != 0)) V("parallel-rows-ran", ""); if (!g.pc && (s->nnz_removed_parallel_cols || s->time_parallel_cols != 0)) V("parallel-cols-ran", ""); if (!g.pp && (s->nnz_removed_primal_propagation || s->time_primal_propagation != 0)) V("propagation-ran", "");
    if (!ok) { X.hit("columns not traced uniquely"); return; }
    if (!rok) X.hit("rows not traced uniquely"); // multipliers may legitimately move between parallel rows
    if (g.pc) return; // merging columns may hand the value of the kept one to the other
    if (!g.fb && !g.de) { // no tightening of finite bounds: only a singleton row can move one, and a row with two kept columns never was one
        std::vector<char> kept(l.n, 0), bound(l.n, 1); for (int o : col) kept[o] = 1;
        for (size_t i = 0; i < l.m; i++) { int nk = 0; for (int t = l.Ap[i]; t < l.Ap[i + 1]; t++) nk += kept[l.Ai[t]]; if (nk < 2) for (int t = l.Ap[i]; t < l.Ap[i + 1]; t++) bound[l.Ai[t]] = 0; }
        for (size_t j = 0; j < q.n; j++) { int o = col[j]; if (!bound[o]) continue; X.hit("finite bounds that must stay", (l.lb[o] != -INF_) + (l.ub[o] != INF_)); if (g.pp) X.hit("finite bounds that must stay, with propagation on", (l.lb[o] != -INF_) + (l.ub[o] != INF_));
            if ((l.lb[o] != -INF_ && q.lb[j] != l.lb[o]) || (l.ub[o] != INF_ && q.ub[j] != l.ub[o])) { V("finite-bound-moved-although-tightening-is-off", fmt("column %d [%g,%g] -> [%g,%g]", o, l.lb[o], l.ub[o], q.lb[j], q.ub[j])); return; } } }
    for (size_t j = 1; j < q.n; j++) if (col[j] <= col[j - 1]) { V("kept-columns-out-of-order", fmt("%d after %d", col[j], col[j - 1])); return; }
    if (g.pr || g.sc || g.de) rok = false; else X.hit("rows traced");
    for (size_t i = 1; rok && i < q.m; i++) if (row[i] <= row[i - 1]) { V("kept-rows-out-of-order", fmt("%d after %d", row[i], row[i - 1])); return; }
    if (!g.sc && !g.de && rok) { // no family that combines rows: the reduced matrix is a submatrix
        X.hit("submatrix checks");
        for (size_t i = 0; i < q.m; i++) { std::map<int, double> o; for (int t = l.Ap[row[i]]; t < l.Ap[row[i] + 1]; t++) o[l.Ai[t]] = l.Ax[t];
            for (int t = q.Ap[i]; t < q.Ap[i + 1]; t++) { auto it = o.find(col[q.Ai[t]]); if (it == o.end() || it->second != q.Ax[t]) { V("coefficient-changed-although-substitution-is-off", fmt("reduced row %zu (original %d) column %d", i, row[i], col[q.Ai[t]])); return; } o.erase(it); }
            for (auto &e : o) { for (size_t j = 0; j < q.n; j++) if (col[j] == e.first) { V("coefficient-lost-although-its-row-and-column-stay", fmt("original row %d column %d", row[i], e.first)); return; } } }
        for (size_t j = 0; j < q.n; j++) if (q.c[j] != l.c[col[j]]) { V("cost-changed-although-substitution-is-off", fmt("column %d: %g -> %g", col[j], l.c[col[j]], q.c[j])); return; }
    }
    // bounds may be moved only by families that are on (singleton rows always act)
    if (!g.pp && !g.pc && !g.sc && !g.de && !g.rb) {
        X.hit("bound provenance checks");
        for (size_t j = 0; j < q.n; j++) { int o = col[j]; std::set<double> lo{l.lb[o]}, up{l.ub[o]}; bool ston = false;
            for (size_t i = 0; i < l.m; i++) for (int t = l.Ap[i]; t < l.Ap[i + 1]; t++) if (l.Ai[t] == o) { bool kept = false; for (size_t q2 = 0; q2 < q.m; q2++) if (rok && row[q2] == (int) i) kept = true; if (!kept) ston = true; }
            if (!ston && (q.lb[j] != l.lb[o] || q.ub[j] != l.ub[o])) { V("bound-moved-although-every-bound-family-is-off", fmt("column %d [%g,%g] -> [%g,%g]", o, l.lb[o], l.ub[o], q.lb[j], q.ub[j])); return; } }
    }
    // only equality-substitution families may reduce the number of columns of size >= 2 rows: with
    // everything but dual fixing off, kept bounds are the original ones (covered above)
    if (!g.pp && !g.pr && !g.pc && !g.df && !g.sc && g.de) { // doubleton substitution alone: rows of size >= 3 or inequalities stay
        size_t big = 0; for (size_t i = 0; i < l.m; i++) { int len = l.Ap[i + 1] - l.Ap[i]; if (len > 2) big++; } (void) big; X.hit("doubleton-only runs");
    }
    X.sample(Ctx::case_text(c) + "reduced:\n" + lp_text(q));
}
