// Structured random LP generator. Every gadget plants the precondition of some
// presolve reduction; sides/bounds/costs are then derived from a planted point
// (and usually a planted dual), so most cases are feasible and bounded, with
// controlled shares of infeasible, unbounded, degenerate and badly scaled ones.
#pragma once
#include "lp.hpp"

enum { H_EQ, H_LE, H_GE, H_RANGE, H_FREE };

struct GenOpt {
    int ncol_lo = 1, ncol_hi = 7, nrow_lo = 0, nrow_hi = 5, gad_lo = 0, gad_hi = 6;
    double p_decimal = 0.15, p_eps = 0.06, p_infeas = 0.12, p_huge = 0.04;
    bool only_feasible = false;
    bool only_bounded = false;
    int longrow = 0, longcol = 0; // entries of one extra row / column much longer than the rest
    bool collide = false; // rows and columns that share the hash of others without being parallel to them
    bool grid = false; // coefficients +-1,+-2,+-3; all sides and bounds multiples of U
};

struct Gen {
    Rng &r; GenOpt o;
    Builder b;
    std::vector<double> x0;
    struct Side { int hint; int act; double slack1, slack2; double shift; };
    std::vector<Side> side;
    struct ParCol { int j, k; double s; bool copycost; };
    std::vector<ParCol> pars;
    std::set<int> free_cost, onesided;
    std::vector<std::pair<int, double>> conflicts;
    bool decimal = false; double eps = 0; double U = 1;
    std::map<std::string, int> tags;

    Gen(Rng &rr, const GenOpt &oo) : r(rr), o(oo) {}

    double coef() {
        if (decimal) { double v = 0; while (v == 0) v = r.in(-60, 60) * 0.1; return v; }
        if (o.grid) { int t = r.in(0, 9); double v = t < 6 ? 1 : t < 9 ? 2 : 3; return r.p(.5) ? v : -v; }
        int t = r.in(0, 9);
        if (t < 6) return r.p(0.5) ? 1 : -1;
        int v = 0; while (!v) v = r.in(-5, 5);
        return v;
    }
    double scale() { if (o.grid) { static const double G[] = {1, -1, 2, -2}; return G[r.in(0, 3)]; } static const double S[] = {1, -1, 2, -2, 3, -3, 0.5, -0.5, 4, -5, 0.25, 1.0 / 3, -0.1}; return S[r.in(0, decimal ? 12 : 10)]; }
    double val() { return decimal ? r.in(-50, 50) * 0.1 : U * r.in(-5, 5); }
    double gap() { return decimal ? r.in(0, 60) * 0.1 : U * r.in(0, 6); }

    int add_col(int type = -1) {
        // type: 0 free 1 lb 2 ub 3 box 4 fixed
        if (type < 0) { int t = r.in(0, 99); type = t < 15 ? 0 : t < 50 ? 1 : t < 60 ? 2 : t < 95 ? 3 : 4; }
        double v = val(), lo = -INF_, up = INF_;
        bool zerolb = r.p(0.5);
        if (zerolb) v = std::fabs(v);
        double g1 = r.p(0.4) ? 0 : gap(), g2 = r.p(0.3) ? 0 : gap();
        if (type == 1) { lo = zerolb ? 0 : v - g1; if (zerolb && r.p(0.4)) v = 0; }
        if (type == 2) { up = v + g2; }
        if (type == 3) { lo = zerolb ? 0 : v - g1; if (zerolb && r.p(0.4)) v = 0; up = v + g2; if (up - lo < 1e-9 && r.p(0.85)) up = lo + U * (1 + r.in(0, 3)); }
        if (type == 4) { lo = up = v; }
        b.lb.push_back(lo); b.ub.push_back(up); x0.push_back(v);
        return (int) b.n++;
    }
    int add_row(int hint = -1) {
        if (hint < 0) { int t = r.in(0, 99); hint = t < 35 ? H_EQ : t < 60 ? H_LE : t < 80 ? H_GE : t < 95 ? H_RANGE : H_FREE; }
        b.rows.emplace_back();
        side.push_back({hint, r.in(0, 2), gap(), gap(), 0});
        return (int) b.rows.size() - 1;
    }
    void setc(int i, int j, double v) { if (v == 0) b.rows[i].erase(j); else b.rows[i][j] = v; }
    int lrow = -1, lcol = -1;
    int rc() { if (b.n == 0) add_col(); if (lcol >= 0 && r.p(.35)) return lcol; return r.in(0, (int) b.n - 1); }
    int rr() { if (lrow >= 0 && r.p(.35)) return lrow; if (b.rows.empty()) { int i = add_row(); setc(i, rc(), coef()); setc(i, rc(), coef()); } return r.in(0, (int) b.rows.size() - 1); }
    void fill_row(int i, int k) { for (int t = 0; t < k; t++) setc(i, rc(), coef()); }

    void gadget(int g) {
        switch (g) {
        case 0: { int i = add_row(); setc(i, rc(), coef()); tags["stonrow"]++; break; }
        case 1: { int q = rr(); auto src = b.rows[q]; double s = scale(); int i = add_row();
                  for (auto &e : src) b.rows[i][e.first] = e.second * s;
                  if (eps && r.p(0.3) && !src.empty()) { auto it = b.rows[i].begin(); it->second *= 1 + eps; }
                  tags["parrow"]++; break; }
        case 2: { int j = rc(); int k = add_col(); double s = scale();
                  for (auto &row : b.rows) { auto it = row.find(j); if (it != row.end()) row[k] = it->second * s; }
                  pars.push_back({j, k, s, r.p(0.85)}); tags["parcol"]++; break; }
        case 3: { int i = add_row(H_EQ); int a = rc(), c = rc(); if (a == c) c = add_col(); setc(i, a, coef()); setc(i, c, coef());
                  // make sure the substituted variable occurs elsewhere
                  int nb = r.in(0, 3); for (int t = 0; t < nb; t++) { int q = rr(); if (q != i) { if (r.p(.5)) setc(q, a, coef()); if (r.p(.5)) setc(q, c, coef()); } }
                  tags["dton"]++; break; }
        case 4: { int i = rr(); int cnt = r.p(0.25) ? 2 : 1; for (int t = 0; t < cnt; t++) { int j = add_col(); setc(i, j, coef()); if (r.p(0.5)) free_cost.insert(j); } tags["stoncol"]++; break; }
        case 5: { int i = add_row(H_EQ); fill_row(i, r.in(2, 4)); int j = add_col(r.in(0, 3)); setc(i, j, coef()); if (r.p(0.5)) free_cost.insert(j); tags["stoncol_eq"]++; break; }
        case 6: { int i = add_row(r.p(.5) ? H_LE : H_GE); fill_row(i, r.in(2, 4)); int j = add_col(r.in(0, 3)); setc(i, j, coef()); if (r.p(0.7)) free_cost.insert(j); tags["stoncol_ineq"]++; break; }
        case 7: { // forcing row
                  int i = add_row(r.p(.5) ? H_LE : H_EQ); fill_row(i, r.in(2, 5)); bool mx = r.p(0.5);
                  for (auto &e : b.rows[i]) { int j = e.first; bool lo = (e.second > 0) != mx; if (lo) { if (!std::isfinite(b.lb[j])) b.lb[j] = x0[j]; x0[j] = b.lb[j]; } else { if (!std::isfinite(b.ub[j])) b.ub[j] = x0[j]; x0[j] = b.ub[j]; } }
                  if (side[i].hint == H_LE && mx) side[i].hint = H_GE;
                  side[i].act = 0; tags["forcing"]++; break; }
        case 8: { int i = add_row(r.in(1, 3)); fill_row(i, r.in(1, 4)); side[i].act = 3; side[i].slack1 = side[i].slack2 = 500 * U; tags["redundant"]++; break; }
        case 9: { int i = add_row(H_FREE); fill_row(i, r.in(1, 4)); tags["freerow"]++; break; }
        case 10: { add_row(); tags["emptyrow"]++; break; }
        case 11: { int j = add_col(); if (r.p(.3)) free_cost.insert(j); tags["emptycol"]++; break; }
        case 12: { int j = rc(); if (r.p(0.5)) { b.lb[j] = b.ub[j] = x0[j]; } else if (!o.grid) { double w = 1e-9; if (std::isfinite(b.lb[j])) b.ub[j] = b.lb[j] + w, x0[j] = b.lb[j]; else b.lb[j] = x0[j], b.ub[j] = x0[j] + w; } tags["fixed"]++; break; }
        case 13: { // one-sided locks column
                  int j = add_col(r.in(0, 3)); int k = r.in(1, 3); double up = r.p(.5) ? 1 : -1;
                  for (int t = 0; t < k; t++) { int i = rr(); if (side[i].hint == H_EQ || side[i].hint == H_RANGE) { i = add_row(r.p(.5) ? H_LE : H_GE); fill_row(i, r.in(1, 3)); }
                      double a = std::fabs(coef()) * up; if (side[i].hint == H_GE) a = -a; setc(i, j, a); }
                  onesided.insert(up > 0 ? j : -1 - j); tags["onesided"]++; break; }
        case 14: { // doubleton chain
                  int k = r.in(2, 4); int p = rc(); for (int t = 0; t < k; t++) { int q = r.p(.6) ? add_col() : rc(); if (q == p) q = add_col(); int i = add_row(H_EQ); setc(i, p, coef()); setc(i, q, coef()); p = q; } tags["chain"]++; break; }
        case 15: { // sum constraints over nonnegatives
                  int k = r.in(2, 4); std::vector<int> cs; for (int t = 0; t < k; t++) cs.push_back(r.p(.5) ? add_col(r.p(.5) ? 1 : 3) : rc());
                  int i = add_row(r.p(.6) ? H_EQ : H_LE); for (int j : cs) setc(i, j, 1);
                  int i2 = add_row(r.p(.4) ? H_EQ : H_LE); for (int j : cs) if (r.p(.7)) setc(i2, j, 1); tags["sum"]++; break; }
        case 16: { // dense row over most columns
                  int i = add_row(); for (int j = 0; j < (int) b.n; j++) if (r.p(.7)) setc(i, j, coef()); tags["dense"]++; break; }
        case 17: { // free column in an equality and an inequality
                  int j = add_col(0); int i = add_row(H_EQ); fill_row(i, r.in(1, 3)); setc(i, j, coef()); if (r.p(.5)) { int i2 = rr(); setc(i2, j, coef()); } tags["freecol"]++; break; }
        case 18: { // several parallel rows, mixed sides
                  int q = add_row(); fill_row(q, r.in(2, 3)); auto src = b.rows[q]; int k = r.in(2, 4);
                  for (int t = 0; t < k; t++) { double s = scale(); int i = add_row(r.p(.3) ? H_EQ : -1); for (auto &e : src) b.rows[i][e.first] = e.second * s; } tags["parrows"]++; break; }
        case 19: { // bounded vars pinned by propagation
                  int i = add_row(r.in(0, 3)); int k = r.in(2, 4); for (int t = 0; t < k; t++) { int j = add_col(r.p(.6) ? 3 : 1); setc(i, j, coef()); if (r.p(.5)) setc(rr(), j, coef()); } side[i].act = r.in(0, 1); tags["prop"]++; break; }
        case 20: { // two singleton-ish columns sharing one doubleton equality
                  int a = add_col(r.in(0, 3)), c = add_col(r.in(0, 3)); int i = add_row(H_EQ); setc(i, a, coef()); setc(i, c, coef());
                  int i2 = rr(); if (i2 != i) { setc(i2, a, coef()); if (r.p(.5)) setc(i2, c, coef()); } tags["dton_small"]++; break; }
        case 21: { // same sparsity pattern, nearly parallel columns/rows (not parallel)
                  int q = rr(); auto src = b.rows[q]; int i = add_row(); double s = scale(); bool first = true;
                  for (auto &e : src) { b.rows[i][e.first] = e.second * s + (first ? 1 : 0); first = false; if (b.rows[i][e.first] == 0) b.rows[i][e.first] = 1; } tags["almostpar"]++; break; }
        case 22: { // variable with wide bounds made implied free by an equality
                  int i = add_row(H_EQ); int k = r.in(2, 3); for (int t = 0; t < k; t++) setc(i, add_col(3), coef()); int j = add_col(3); setc(i, j, 1); b.lb[j] = x0[j] - 60 * U; b.ub[j] = x0[j] + 60 * U; if (r.p(.6)) setc(rr(), j, coef()); tags["impliedfree"]++; break; }
        case 23: { // duplicated column with opposite sign (split free variable)
                  int j = rc(); int k = add_col(r.in(0, 3)); for (auto &row : b.rows) { auto it = row.find(j); if (it != row.end()) row[k] = -it->second; } pars.push_back({j, k, -1, r.p(.9)}); tags["split"]++; break; }
        case 24: { if (o.grid) break; int i = rr(); int j = rc(); double f = r.p(.5) ? 50 : 0.02; setc(i, j, coef() * f); tags["scale"]++; break; }
        case 25: { // substitution that cancels a coefficient exactly or up to rounding
                  if (o.grid) break;
                  int a = add_col(r.in(0, 3)), c = add_col(r.in(0, 3)); double al = r.p(.2) ? 99.5 : r.p(.5) ? coef() : coef() * 0.1, be = coef(); int i = add_row(H_EQ); setc(i, a, al); setc(i, c, be);
                  int i2 = rr(); if (i2 == i) break; setc(i2, a, coef()); setc(i2, c, b.rows[i2][a] * be / al);
                  if (r.p(.5)) setc(rr(), c, coef()); if (r.p(.3)) setc(rr(), a, coef()); tags["cancel"]++; break; }
        case 26: { // parallel inequalities whose sides must be combined, then an equality of the group
                  int q = add_row(H_LE); fill_row(q, r.in(2, 3)); auto src = b.rows[q]; int k = r.in(2, 3);
                  for (int t = 0; t < k; t++) { double s = scale(); int i = add_row(r.in(1, 3)); for (auto &e : src) b.rows[i][e.first] = e.second * s; side[i].act = r.in(0, 2); }
                  if (r.p(.5)) { double s = scale(); int i = add_row(H_EQ); for (auto &e : src) b.rows[i][e.first] = e.second * s; } tags["pargroup"]++; break; }
        case 27: { // several columns parallel to one another, different kinds of bounds
                  int j = add_col(r.in(0, 3)); int nr_ = r.in(1, 3); for (int t = 0; t < nr_; t++) setc(rr(), j, coef());
                  int k = r.in(1, 3); for (int t = 0; t < k; t++) { int c = add_col(r.in(0, 3)); double s = scale(); for (auto &row : b.rows) { auto it = row.find(j); if (it != row.end()) row[c] = it->second * s; } pars.push_back({j, c, s, r.p(.9)}); }
                  tags["parcols"]++; break; }
        case 28: { // long doubleton chain closing on itself or ending in a singleton row
                  int k = r.in(3, 8); int p = add_col(r.in(0, 3)); int first = p; for (int t = 0; t < k; t++) { int q = add_col(r.p(.5) ? 0 : -1); int i = add_row(H_EQ); setc(i, p, coef()); setc(i, q, coef()); p = q; if (r.p(.2)) setc(rr(), q, coef()); }
                  if (r.p(.3)) { int i = add_row(); setc(i, p, coef()); } else if (r.p(.3)) { int i = add_row(H_EQ); setc(i, p, coef()); setc(i, first, coef()); } tags["longchain"]++; break; }
        case 29: { // cascade of implied bounds: x_{t+1} <= f(x_t)
                  int k = r.in(2, 5); int p = add_col(3); for (int t = 0; t < k; t++) { int q = add_col(r.p(.6) ? 1 : 0); int i = add_row(r.in(1, 3)); setc(i, p, coef()); setc(i, q, coef()); if (r.p(.3)) setc(i, rc(), coef()); p = q; } tags["cascade"]++; break; }
        case 30: { // column with many one-sided rows that becomes redundant at infinity
                  int j = add_col(r.p(.5) ? 0 : r.in(1, 2)); int k = r.in(1, 4); bool ge = r.p(.5); for (int t = 0; t < k; t++) { int i = add_row(ge ? H_GE : H_LE); fill_row(i, r.in(1, 2)); setc(i, j, std::fabs(coef())); } onesided.insert(ge ? -1 - j : j); tags["atinf"]++; break; }
        case 31: { // one-sided parallel rows that bound the same form from both sides, sometimes in conflict
                  int q = add_row(H_GE); fill_row(q, r.in(2, 3)); auto src = b.rows[q]; double s = scale(); int i = add_row(s > 0 ? H_LE : H_GE); for (auto &e : src) b.rows[i][e.first] = e.second * s;
                  side[q].act = side[i].act = r.in(0, 2); if (r.p(.4)) conflicts.push_back({i, -U * r.in(1, 6) * s}); tags["parsides"]++; break; }
        }
    }

    // entries of a row or column with the same polynomial hash (base 33): either other
    // positions (a, b) -> (a + 1, b - 33), or other values at the same positions
    std::map<int, double> twin(const std::map<int, double> &v, int dim) {
        std::vector<std::pair<int, double>> e(v.begin(), v.end()); double mx = 0; for (auto &p : e) mx = std::max(mx, std::fabs(p.second));
        bool pos = dim > 35 && r.p(.6); size_t k = e.size();
        for (int t = 0; t < 10 && k > 1; t++) { size_t i = r.in(0, (int) k - 2); int d = r.p(.5) ? 1 : -1;
            if (pos) { int a = e[i].first + d, c = e[i + 1].first - 33 * d; if (a < 0 || c >= dim || a >= c || (i && e[i - 1].first >= a) || (i + 2 < k && e[i + 2].first <= c)) continue; e[i].first = a; e[i + 1].first = c; break; }
            double st = d * r.in(1, 15) * 1e-3 * mx, a = e[i].second + st, c = e[i + 1].second - 33 * st;
            if (std::fabs(e[i].second) == mx || std::fabs(e[i + 1].second) == mx || std::fabs(a) > mx || std::fabs(c) > mx || std::fabs(a) < .01 || std::fabs(c) < .01) continue; e[i].second = a; e[i + 1].second = c; break; }
        double s = r.p(.5) ? 1 : scale(); std::map<int, double> w; for (auto &p : e) w[p.first] = p.second * s; return w;
    }
    void collide(Builder &q, std::vector<double> &xx) {
        int m = (int) q.rows.size(), n = (int) q.n; if (!m || !n) return;
        if (r.p(.5)) { // another row
            int i = r.in(0, m - 1); for (int t = 0; t < 20 && q.rows[i].size() < 2; t++) i = r.in(0, m - 1);
            auto w = twin(q.rows[i], n); double a = 0, f = 0; for (auto &e : q.rows[i]) a += e.second * xx[e.first]; for (auto &e : w) f += e.second * xx[e.first];
            double lo = q.lhs[i] - a, up = q.rhs[i] - a; if (r.p(.3)) up = lo = 0; int at = r.in(0, m); q.rows.insert(q.rows.begin() + at, w); q.lhs.insert(q.lhs.begin() + at, f + lo); q.rhs.insert(q.rhs.begin() + at, f + up);
        } else { // another column
            int j = r.in(0, n - 1); std::map<int, double> v; for (int t = 0; t < 20 && v.size() < 2; t++) { if (t) j = r.in(0, n - 1); v.clear(); for (int i = 0; i < m; i++) { auto it = q.rows[i].find(j); if (it != q.rows[i].end()) v[i] = it->second; } }
            if (v.empty()) return; auto w = twin(v, m); for (auto &e : w) q.rows[e.first][n] = e.second;
            q.n++; q.c.push_back(r.p(.8) ? q.c[j] * (w.begin()->second / v.begin()->second) : r.in(0, 3)); q.lb.push_back(r.p(.7) ? 0 : -r.in(0, 3)); q.ub.push_back(r.p(.5) ? r.in(1, 6) : q.c.back() >= 0 ? INF_ : 4); xx.push_back(0);
        }
    }
    LP build() {
        decimal = r.p(o.p_decimal) && !o.grid; if (o.grid) U = 2304;
        static const double E[] = {1e-3, 1e-4, 3e-5, -1e-3, -1e-4};
        if (r.p(o.p_eps) && !o.grid) eps = E[r.in(0, 4)];
        int nc = r.in(o.ncol_lo, o.ncol_hi), nr = r.in(o.nrow_lo, o.nrow_hi), ng = r.in(o.gad_lo, o.gad_hi);
        for (int j = 0; j < nc; j++) add_col();
        for (int i = 0; i < nr; i++) { int q = add_row(); fill_row(q, r.in(1, std::min(5, nc + 1))); }
        if (o.longrow) { lrow = add_row(); int fit = r.p(.15) ? r.p(.6) ? 257 : r.in(255, 258) : -1; if (fit > 0) o.longrow = fit + r.in(0, 40); // (about 256 columns without one bound)
            int dir = fit < 0 && r.p(.3) ? r.p(.5) ? 1 : -1 : 0; // (at its least or largest activity, perhaps up to a few columns: a forcing row, or one that tightens every bound)
            for (int t = 0; t < o.longrow; t++) { double a = coef(); int j = add_col(dir ? 3 : fit > 0 ? t >= fit ? 3 : a > 0 ? 1 : 2 : r.p(.2) ? -1 : r.p(.7) ? 3 : 1); b.rows[lrow][j] = a; if (dir && r.p(.99)) x0[j] = (a > 0) == (dir > 0) ? b.ub[j] : b.lb[j]; }
            if (dir) { side[lrow].hint = r.p(.3) ? H_EQ : r.p(.2) ? H_RANGE : dir > 0 ? H_GE : H_LE; side[lrow].act = side[lrow].hint == H_RANGE ? dir > 0 ? 0 : 1 : r.p(.7) ? 0 : 2; }
            else if (r.p(.3)) { side[lrow].act = 3; side[lrow].slack1 = side[lrow].slack2 = 500 * U; } }
        if (o.longcol) { int t = add_col(r.p(.5) ? -1 : 3); for (int q = 0; q < o.longcol; q++) { int i = add_row(); fill_row(i, r.in(1, 3)); setc(i, t, coef()); } lcol = t; }
        auto pick = [&] { return r.in(0, 31); };
        int focus = r.p(0.35) ? pick() : -1;
        for (int g = 0; g < ng; g++) gadget(focus >= 0 && r.p(0.6) ? focus : pick());
        // occasional free-standing variety
        size_t m = b.rows.size(), n = b.n;
        if (!o.grid && r.p(o.p_huge)) { int j = rc(); static const double Hh[] = {1e6, 1e7, 2e7, 1e8}; double h = Hh[r.in(0, 3)]; if (r.p(.5)) b.lb[j] = -h; else b.ub[j] = h; n = b.n; tags["huge"]++; }
        // sides
        b.lhs.resize(m); b.rhs.resize(m);
        std::vector<int> actside(m, 0); // -1 lhs, +1 rhs, 2 eq
        for (size_t i = 0; i < m; i++) {
            double a = 0; for (auto &e : b.rows[i]) a += e.second * x0[e.first];
            Side &s = side[i]; double lo = -INF_, up = INF_;
            double s1 = s.act == 0 || s.act == 1 ? 0 : s.slack1, s2 = s.act == 0 || s.act == 2 ? 0 : s.slack2;
            switch (s.hint) {
            case H_EQ: lo = up = a; actside[i] = 2; break;
            case H_LE: { double q = s.act == 0 || s.act == 1 ? 0 : s.slack2; up = a + q; if (q == 0) actside[i] = 1; break; }
            case H_GE: { double q = s.act == 0 || s.act == 1 ? 0 : s.slack1; lo = a - q; if (q == 0) actside[i] = -1; break; }
            case H_RANGE: if (s.act == 0) { s1 = 0; s2 = s.slack2 + U; actside[i] = -1; } else if (s.act == 1) { s2 = 0; s1 = s.slack1 + U; actside[i] = 1; } else { s1 = s.slack1; s2 = s.slack2; }
                          lo = a - s1; up = a + s2; if (lo == up) actside[i] = 2; break;
            default: break;
            }
            b.lhs[i] = lo; b.rhs[i] = up;
        }
        // costs
        b.c.assign(n, 0);
        int cm = r.in(0, 99);
        if (cm < 62 || o.only_bounded) {
            for (size_t i = 0; i < m; i++) if (actside[i] && r.p(0.6)) {
                double y = r.in(1, 4); if (actside[i] == 1) y = -y; if (actside[i] == 2 && r.p(.5)) y = -y;
                for (auto &e : b.rows[i]) b.c[e.first] += y * e.second;
            }
            for (size_t j = 0; j < n; j++) { if (b.lb[j] == x0[j] && r.p(.6)) b.c[j] += r.in(0, 4); else if (b.ub[j] == x0[j] && r.p(.6)) b.c[j] -= r.in(0, 4); }
        } else if (cm < 90) { for (size_t j = 0; j < n; j++) if (r.p(.7)) b.c[j] = decimal ? r.in(-30, 30) * 0.1 : r.in(-3, 3);
            // lean towards bounded
            if (r.p(.6)) for (size_t j = 0; j < n; j++) { if (!std::isfinite(b.lb[j]) && b.c[j] > 0) b.c[j] = std::isfinite(b.ub[j]) ? -b.c[j] : 0; if (!std::isfinite(b.ub[j]) && b.c[j] < 0) b.c[j] = std::isfinite(b.lb[j]) ? -b.c[j] : 0; } }
        if (!o.only_bounded) {
            for (int j : free_cost) if (r.p(.6)) b.c[j] = 0;
            for (int t : onesided) { int j = t >= 0 ? t : -1 - t; double sg = t >= 0 ? 1 : -1; if (r.p(.7)) b.c[j] = r.p(.5) ? 0 : sg * r.in(0, 3); }
            for (auto &p : pars) if (p.copycost) b.c[p.k] = b.c[p.j] * p.s;
        }
        // perturbations towards infeasibility
        if (!o.only_feasible && r.p(o.p_infeas)) {
            int k = r.in(1, 2);
            for (int t = 0; t < k; t++) {
                double d = r.p(.5) ? r.in(1, 8) : r.in(1, 40); d *= U; if (r.p(.5)) d = -d; if (eps) d = eps * 10;
                if (m && r.p(.75)) { size_t i = r.in(0, (int) m - 1); if (std::isfinite(b.lhs[i])) b.lhs[i] += d; if (std::isfinite(b.rhs[i])) b.rhs[i] += d; }
                else if (n) { size_t j = r.in(0, (int) n - 1); if (std::isfinite(b.lb[j])) b.lb[j] += d; if (std::isfinite(b.ub[j])) b.ub[j] += d; }
            }
        }
        if (!o.only_feasible && r.p(.7)) for (auto &e : conflicts) { double d = e.second * (r.p(.2) ? 40 : 1); if (side[e.first].hint == H_GE ? std::isfinite(b.lhs[e.first]) : std::isfinite(b.rhs[e.first])) { (side[e.first].hint == H_GE ? b.lhs : b.rhs)[e.first] += d; } }
        if (!o.only_feasible && eps && m && r.p(.7)) { size_t i = r.in(0, (int) m - 1); if (std::isfinite(b.lhs[i])) b.lhs[i] += eps; if (std::isfinite(b.rhs[i])) b.rhs[i] += eps; }
        // column / row scaling by powers of two or small ints (keeps parallelism up to scaling)
        if (!o.grid && r.p(.15)) for (size_t i = 0; i < m; i++) if (r.p(.3)) { double s = scale(); for (auto &e : b.rows[i]) e.second *= s; double lo = b.lhs[i] * s, up = b.rhs[i] * s; if (s < 0) std::swap(lo, up); b.lhs[i] = lo; b.rhs[i] = up; }
        // change of units of a few columns
        if (!o.grid && r.p(.06)) for (size_t j = 0; j < n; j++) if (r.p(.3)) { double s = r.p(.5) ? 1.0 / 8 : 4; for (auto &row : b.rows) { auto it = row.find((int) j); if (it != row.end()) it->second *= s; } b.c[j] *= s; b.lb[j] /= s; b.ub[j] /= s; x0[j] /= s; }
        // shuffle
        std::vector<int> pr(m), pc(n);
        for (size_t i = 0; i < m; i++) pr[i] = (int) i;
        for (size_t j = 0; j < n; j++) pc[j] = (int) j;
        if (r.p(.8)) { for (int i = (int) m - 1; i > 0; i--) std::swap(pr[i], pr[r.in(0, i)]); for (int j = (int) n - 1; j > 0; j--) std::swap(pc[j], pc[r.in(0, j)]); }
        Builder q; q.n = n; q.rows.resize(m); q.lhs.resize(m); q.rhs.resize(m); q.lb.resize(n); q.ub.resize(n); q.c.resize(n);
        std::vector<double> xx(n);
        for (size_t i = 0; i < m; i++) { q.lhs[pr[i]] = b.lhs[i] + 0.0; q.rhs[pr[i]] = b.rhs[i] + 0.0; for (auto &e : b.rows[i]) if (e.second != 0) q.rows[pr[i]][pc[e.first]] = e.second; }
        for (size_t j = 0; j < n; j++) { q.lb[pc[j]] = b.lb[j]; q.ub[pc[j]] = b.ub[j]; q.c[pc[j]] = b.c[j]; xx[pc[j]] = x0[j]; }
        if (o.collide) for (int t = r.in(1, 4); t > 0; t--) collide(q, xx);
        x0 = xx;
        return q.make();
    }
};
