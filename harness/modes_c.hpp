// P18: enabled techniques remove what they are there to remove. Every rule is
// about rows and columns of the ORIGINAL problem that qualify as they stand, so
// no order of the techniques can excuse their survival.
#pragma once
#include "modes_a.hpp"

static Case effect_case(Ctx &X, uint64_t k) {
    Rng r(mix(X.seed, k * 5 + 3)); Case c; bool own = r.p(.6);
    if (X.replay || !own) c = X.get(k, W_STD);
    else {
        c.cls = "effect"; c.seed = X.seed; c.k = k;
        bool vast = k % 211 == 3, big = r.p(.03) || vast; Builder b; int n = vast ? r.in(300, 2500) : big ? r.in(30, 200) : r.in(2, 9), m = vast ? r.in(300, 2000) : big ? r.in(20, 150) : r.in(1, 7); if (vast) c.cls = "effect-vast"; b.n = (size_t) n; std::vector<double> x0(n), lo(n), up(n);
        auto coef = [&]() { double v = r.p(.5) ? 1 : r.in(1, 6); return r.p(.5) ? v : -v; };
        std::vector<std::map<int, double>> rows; std::vector<int> hint;
        for (int i = 0; i < m; i++) { std::map<int, double> q; int len = vast ? r.in(4, 6) : r.in(2, std::max(2, std::min(4, n))); for (int t = 0; t < len; t++) q[r.in(0, n - 1)] = coef(); rows.push_back(q); hint.push_back(r.in(0, 3)); }
        auto col = [&]() { return n++; };
        int g = big ? r.in(5, 60) : r.in(0, 4); std::vector<int> pin; double bad = 0; int badrow = -1;
        for (int t = 0; t < g; t++) switch (r.in(0, 7)) {
        case 0: { int i = r.in(0, (int) rows.size() - 1); rows[i][col()] = coef(); break; } // singleton column
        case 1: { int i = r.in(0, (int) rows.size() - 1); auto q = rows[i]; double s = r.pick(std::vector<double>{1, -1, 2, -2, .5, -.5, 4, 3, -3}); for (auto &e : q) e.second *= s; rows.push_back(q); hint.push_back(r.in(0, 3)); break; }
        case 2: case 3: { int j = r.in(0, n - 1), d = col(); double s = r.pick(std::vector<double>{1, -1, 2, -2, .5, -.5, 4, 3, -3}); for (auto &q : rows) { auto it = q.find(j); if (it != q.end()) q[d] = it->second * s; } pin.push_back(j); pin.push_back(d); break; }
        case 4: { std::map<int, double> q; q[r.in(0, n - 1)] = coef(); if (r.p(.5)) q[col()] = coef(); else q[r.in(0, n - 1)] = coef(); rows.push_back(q); hint.push_back(0); break; } // doubleton equality
        case 5: { std::map<int, double> q; int len = r.in(2, 4); for (int u = 0; u < len; u++) q[r.in(0, n - 1)] = coef(); rows.push_back(q); hint.push_back(4); break; } // redundant side
        case 6: { if (badrow >= 0 || !r.p(.3)) break; badrow = r.in(0, (int) rows.size() - 1); break; }
        default: { std::map<int, double> q; int len = r.in(2, 4); for (int u = 0; u < len; u++) q[r.in(0, n - 1)] = coef(); rows.push_back(q); hint.push_back(r.in(1, 2)); break; } }
        b.n = (size_t) n; b.rows = rows; m = (int) rows.size(); x0.resize(n); lo.resize(n); up.resize(n); double wide = r.p(.3) ? 40 : 4;
        for (int j = 0; j < n; j++) { x0[j] = r.in(-3, 5); int t = r.in(0, 9); lo[j] = t < 2 ? -INF_ : x0[j] - r.in(0, (int) wide); up[j] = t < 4 && t != 2 ? INF_ : x0[j] + r.in(1, (int) wide); if (t == 3 && r.p(.5)) std::swap(lo[j], up[j]), lo[j] = -INF_, up[j] = x0[j] + r.in(0, 3); }
        b.c.assign(n, 0); for (int j = 0; j < n; j++) b.c[j] = r.p(.35) ? 0 : r.in(-4, 4);
        if (vast) for (int j = 0; j < n; j++) if (b.c[j] > 0 ? lo[j] == -INF_ : up[j] == INF_) b.c[j] = b.c[j] > 0 && up[j] < INF_ ? -b.c[j] : b.c[j] < 0 && lo[j] > -INF_ ? -b.c[j] : 0; // (mostly bounded)
        for (size_t t = 0; t + 1 < pin.size(); t += 2) { if (!r.p(.7)) continue; double s = 0; for (auto &q : rows) { auto i1 = q.find(pin[t]), i2 = q.find(pin[t + 1]); if (i1 != q.end() && i2 != q.end()) s = i2->second / i1->second; } if (s != 0) b.c[pin[t + 1]] = s * b.c[pin[t]]; }
        for (int i = 0; i < m; i++) { double a = 0, mn = 0, mx = 0; for (auto &e : rows[i]) { a += e.second * x0[e.first]; mn += e.second * (e.second > 0 ? lo : up)[e.first]; mx += e.second * (e.second > 0 ? up : lo)[e.first]; }
            double l = -INF_, u = INF_; switch (hint[i]) { case 0: l = u = a; break; case 1: u = a + r.in(0, 5); break; case 2: l = a - r.in(0, 5); break; case 3: l = a - r.in(0, 4); u = a + r.in(1, 4); break;
                default: { int w = r.in(1, 3); if (w & 1) u = std::isfinite(mx) ? mx + r.in(0, 3) : a + 1; if (w & 2) l = std::isfinite(mn) ? mn - r.in(0, 3) : a - 1; } }
            if (i == badrow) { bad = r.in(1, 3); if (r.p(.5)) { l = std::isfinite(mx) ? mx + bad : a; if (u < l) u = r.p(.5) ? l : INF_; } else { u = std::isfinite(mn) ? mn - bad : a; if (l > u) l = r.p(.5) ? u : -INF_; } }
            b.lhs.push_back(l + 0.0); b.rhs.push_back(u + 0.0); }
        b.lb = lo; b.ub = up; c.l = b.make();
    }
    if (X.replay) { c.seed = X.seed; c.k = k; return c; }
    Cfg g; g.sc = r.p(.3); g.de = r.p(.3); g.pr = r.p(.4); g.pc = r.p(.3); g.pp = r.p(.4); g.df = r.p(.4); g.fb = r.p(.5); g.rb = r.p(.5); g.shift = r.p(.7) ? 10 : r.in(0, 25);
    int w = r.in(0, 7); if (w == 0) { g = Cfg(); } else if (w < 7) { bool *q[] = {&g.sc, &g.de, &g.pr, &g.pc, &g.pp, &g.df}; if (r.p(.7)) for (auto p : q) *p = false; *q[w - 1] = true; }
    g.maxt = 60; c.cfg = g; return c;
}

struct Facts { // of the original problem
    const LP &l; std::vector<std::vector<std::pair<int, double>>> col; std::vector<int> dn, up; std::vector<double> mn, mx; std::vector<int> nmn, nmx; std::vector<double> mag;
    bool plain = true; // no fixed columns, no empty or singleton rows
    explicit Facts(const LP &q) : l(q), col(q.n), dn(q.n, 0), up(q.n, 0), mn(q.m, 0), mx(q.m, 0), nmn(q.m, 0), nmx(q.m, 0), mag(q.m, 0) {
        for (size_t i = 0; i < l.m; i++) { if (l.Ap[i + 1] - l.Ap[i] < 2) plain = false; mag[i] = 1;
            for (int t = l.Ap[i]; t < l.Ap[i + 1]; t++) { int j = l.Ai[t]; double a = l.Ax[t]; col[j].push_back({(int) i, a});
                if (std::isfinite(l.lhs[i])) (a > 0 ? dn : up)[j]++; if (std::isfinite(l.rhs[i])) (a > 0 ? up : dn)[j]++;
                double lo = a > 0 ? l.lb[j] : l.ub[j], hi = a > 0 ? l.ub[j] : l.lb[j]; if (std::isfinite(lo)) { mn[i] += a * lo; mag[i] += fabs(a * lo); } else nmn[i]++; if (std::isfinite(hi)) { mx[i] += a * hi; mag[i] += fabs(a * hi); } else nmx[i]++; } }
        for (size_t j = 0; j < l.n; j++) if (!(l.ub[j] - l.lb[j] > 1e-3)) plain = false;
    }
    int len(int i) const { return l.Ap[i + 1] - l.Ap[i]; }
    // bound implied by row i on the column of entry t, from the original bounds of the others; false if there is none
    bool implied_ub(int i, int j, double a, double *v) const {
        if (a > 0 ? !std::isfinite(l.rhs[i]) : !std::isfinite(l.lhs[i])) return false; double own = l.lb[j]; int k = a > 0 ? nmn[i] : nmx[i]; double s = a > 0 ? mn[i] : mx[i];
        if (k - (std::isfinite(own) ? 0 : 1) != 0) return false; if (std::isfinite(own)) s -= a * own; *v = ((a > 0 ? l.rhs[i] : l.lhs[i]) - s) / a; return true; }
    bool implied_lb(int i, int j, double a, double *v) const {
        if (a > 0 ? !std::isfinite(l.lhs[i]) : !std::isfinite(l.rhs[i])) return false; double own = l.ub[j]; int k = a > 0 ? nmx[i] : nmn[i]; double s = a > 0 ? mx[i] : mn[i];
        if (k - (std::isfinite(own) ? 0 : 1) != 0) return false; if (std::isfinite(own)) s -= a * own; *v = ((a > 0 ? l.lhs[i] : l.rhs[i]) - s) / a; return true; }
};
// groups of exactly proportional vectors; -2 = some pair is close to proportional without being it: not judged
static int prop_groups(const std::vector<std::vector<std::pair<int, double>>> &v, std::vector<int> &gid) {
    std::map<std::vector<int>, std::vector<int>> bysup; gid.assign(v.size(), -1); int ng = 0; std::vector<std::vector<double>> nv(v.size());
    for (size_t i = 0; i < v.size(); i++) { std::vector<int> s; double mx = 0; for (auto &e : v[i]) { s.push_back(e.first); mx = std::max(mx, fabs(e.second)); if (!(fabs(e.second) <= 1e3 && fabs(e.second) >= 1e-2)) return -2; } for (auto &e : v[i]) nv[i].push_back((v[i][0].second > 0 ? 1 : -1) * (e.second / mx)); bysup[s].push_back((int) i); }
    for (auto &q : bysup) for (size_t x = 0; x < q.second.size(); x++) { int i = q.second[x]; for (size_t y = 0; y < x; y++) { int o = q.second[y]; if (nv[o] == nv[i]) { gid[i] = gid[o]; continue; } double d = 0; for (size_t t = 0; t < nv[i].size(); t++) d = std::max(d, fabs(nv[i][t] - nv[o][t])); if (d < 1e-4) return -2; } if (gid[i] < 0) gid[i] = ng++; }
    return ng;
}
static std::vector<std::vector<std::pair<int, double>>> rows_of(const LP &l) { std::vector<std::vector<std::pair<int, double>>> v(l.m); for (size_t i = 0; i < l.m; i++) for (int t = l.Ap[i]; t < l.Ap[i + 1]; t++) v[i].push_back({l.Ai[t], l.Ax[t]}); return v; }

// different supports with the same (documented) djb2 hash share a bin and may hide proportional rows
// two vectors that share the solver's 32-bit hashes without being proportional (one group per hash bin is found, as documented)
static bool supports_collide(const std::vector<std::vector<std::pair<int, double>>> &v) {
    std::map<std::pair<uint32_t, uint32_t>, size_t> at;
    for (size_t i = 0; i < v.size(); i++) { auto &w = v[i]; uint32_t h = 5381, d = 5381; double mx = 0; for (auto &e : w) mx = std::max(mx, std::fabs(e.second));
        for (auto &e : w) { h = h * 33 + (uint32_t) e.first; double q = (w[0].second > 0 ? 1 : -1) * (e.second / mx); d = d * 33 + (uint32_t) (int64_t) std::round((std::fabs(q) <= 1 ? q : 0) * 1e6); }
        auto it = at.find({h, d}); if (it == at.end()) { at[{h, d}] = i; continue; }
        auto &o = v[it->second]; if (o.size() != w.size()) return true;
        for (size_t t = 0; t < w.size(); t++) if (o[t].first != w[t].first || std::fabs(o[t].second * w[0].second - w[t].second * o[0].second) > 1e-4 * std::fabs(w[t].second * o[0].second)) return true; }
    return false;
}

static void m_effect(Ctx &X, uint64_t k) {
    Case c = effect_case(X, k); const LP &l = c.l; const Cfg &g = c.cfg; X.hit(std::string("class ") + c.cls);
    Run R; if (!run_lp(R, l, g)) { X.viol("no-presolver", c, "new_presolver returned NULL"); return; }
    X.hit(std::string("verdict ") + sname(R.status)); Facts F(l); auto V = [&](const char *key, const std::string &d) { X.viol(key, c, d); };
    // a row whose activity bounds exclude its sides is noticed by propagation
    if (g.pp && !g.sc && !g.de) for (size_t i = 0; i < l.m; i++) { if (F.len((int) i) < 2) continue;
        bool hi = !F.nmx[i] && F.mx[i] < l.lhs[i] - .5, lo = !F.nmn[i] && F.mn[i] > l.rhs[i] + .5; if ((!hi && !lo) || F.mag[i] > 1e6) continue; bool big = false; for (int t = l.Ap[i]; t < l.Ap[i + 1]; t++) if (fabs(l.Ax[t]) > 1e3) big = true; if (big) continue;
        X.nontrivial(lp_hash(l)); X.hit("rows infeasible by their activity"); if (!(R.status & INFEASIBLE)) { V("infeasible-activity-not-noticed", fmt("row %zu", i)); return; } }
    if (R.status & INFEASIBLE) return;
    const LP &q = R.red; std::vector<int> row, col; bool rok, cok = trace_ids(R, l, row, col, rok);
    std::vector<int> at(l.n, -1); if (cok) for (size_t j = 0; j < q.n; j++) at[col[j]] = (int) j;
    if (!cok) X.hit("columns not traced uniquely");
    if (cok && !g.pc) {
        if (g.df) for (size_t j = 0; j < l.n; j++) { double cj = l.c[j]; bool fix = (cj > 0 && !F.dn[j]) || (cj < 0 && !F.up[j]) || (cj == 0 && (!F.dn[j] || !F.up[j])); if (!fix) continue;
            X.nontrivial(lp_hash(l)); X.hit("columns that dual fixing must remove"); if (at[j] >= 0) { V("dual-fixable-column-left", fmt("column %zu cost %g locks %d down %d up", j, cj, F.dn[j], F.up[j])); return; } }
        if (g.sc) for (size_t j = 0; j < l.n; j++) { if (F.col[j].size() != 1) continue; int i = F.col[j][0].first; double a = F.col[j][0].second, cj = l.c[j]; bool ll = std::isfinite(l.lhs[i]), rr = std::isfinite(l.rhs[i]); const char *why = nullptr;
            if (F.len(i) < 2 || fabs(a) > 1e3 || fabs(a) < 1e-3) continue; bool il = l.lb[j] == -INF_, iu = l.ub[j] == INF_;
            if (il && iu) why = "free";
            int nst = 0; for (int t = l.Ap[i]; t < l.Ap[i + 1]; t++) if (F.col[l.Ai[t]].size() == 1) nst++;
            if (!why && F.plain && !g.df && nst == 1) { double v; bool fa = iu || (F.implied_ub(i, (int) j, a, &v) && v <= l.ub[j] - .01), fb = il || (F.implied_lb(i, (int) j, a, &v) && v >= l.lb[j] + .01);
                if (F.mag[i] > 1e5) { fa = iu; fb = il; }
                if (ll && rr && l.lhs[i] == l.rhs[i]) { if (fa || fb) why = "equality"; }
                else if (ll && rr && l.rhs[i] - l.lhs[i] < 1e-3) {}
                else if ((cj > 0 && (a > 0 ? !ll : !rr)) || (cj < 0 && (a > 0 ? !rr : !ll))) why = "dual fix";
                else if (fa && fb) why = "implied free";
                else if ((cj < 0 && fa) || (cj > 0 && fb)) why = "active side"; }
            if (!why) continue; X.nontrivial(lp_hash(l)); X.hit(std::string("singleton columns that must go: ") + why);
            if (at[j] >= 0) { V("removable-singleton-column-left", fmt("column %zu (%s)", j, why)); return; } }
        if (g.de && !g.sc && !g.pp && !g.pr && !g.df && F.plain) { // the only doubleton equality, without fill-in
            int nd = 0, d = -1; for (size_t i = 0; i < l.m; i++) if (F.len((int) i) == 2 && l.lhs[i] == l.rhs[i]) { nd++; d = (int) i; }
            if (nd == 1) { int t = l.Ap[d], u = l.Ai[t], v = l.Ai[t + 1]; double rat = fabs(l.Ax[t] / l.Ax[t + 1]); auto sup = [&](int j) { std::set<int> s; for (auto &e : F.col[j]) s.insert(e.first); return s; };
                bool one = F.col[u].size() == 1 || F.col[v].size() == 1, eq = sup(u) == sup(v);
                if (rat < 900 && rat > 1 / 900. && (one || eq)) { X.nontrivial(lp_hash(l)); X.hit("doubleton equalities that must be substituted"); if (at[u] >= 0 && at[v] >= 0) { V("doubleton-equality-left", fmt("row %d columns %d %d", d, u, v)); return; } } } }
        if (g.pp && !g.sc && !g.de && !g.pr) { // rows no point can violate
            std::vector<char> keep(l.m, 0); if (rok) for (int i : row) keep[i] = 1;
            for (size_t i = 0; rok && i < l.m; i++) { bool ll = std::isfinite(l.lhs[i]), rr = std::isfinite(l.rhs[i]); if ((ll && rr && l.rhs[i] - l.lhs[i] < 1e-3) || F.mag[i] > 1e5 || (!ll && !rr)) continue;
                if ((ll && (F.nmn[i] || F.mn[i] < l.lhs[i])) || (rr && (F.nmx[i] || F.mx[i] > l.rhs[i]))) continue;
                X.nontrivial(lp_hash(l)); X.hit("rows that no point can violate"); if (keep[i]) { V("redundant-row-left", fmt("row %zu", i)); return; } }
            // bounds that one row implies
            if (!g.df && !g.rb) for (size_t i = 0; i < l.m; i++) { if (F.len((int) i) < 2 || F.mag[i] > 1e5 || (l.lhs[i] != l.rhs[i] && l.rhs[i] - l.lhs[i] < 1e-3)) continue;
                for (int t = l.Ap[i]; t < l.Ap[i + 1]; t++) { int j = l.Ai[t], r = at[j]; double a = l.Ax[t], v; if (r < 0 || fabs(a) < 1e-3 || fabs(a) > 1e3) continue;
                    bool mnok = !F.nmn[i], mxok = !F.nmx[i];
                    bool q0 = mnok || mxok; // the row is looked at
                    if (q0 && F.implied_ub((int) i, j, a, &v) && fabs(v) < 1e6) { X.hit("implied bounds that must show"); if (l.ub[j] == INF_) { X.nontrivial(lp_hash(l)); X.hit("infinite bounds that must become finite"); }
                        if (q.ub[r] == INF_ || (g.fb && !(q.ub[r] <= v + .02 * std::max(1.0, std::max(fabs(v), fabs(q.ub[r])))))) { V("implied-bound-missing", fmt("column %d ub %g, row %zu implies %g", j, q.ub[r], i, v)); return; } }
                    if (q0 && F.implied_lb((int) i, j, a, &v) && fabs(v) < 1e6) { X.hit("implied bounds that must show"); if (l.lb[j] == -INF_) { X.nontrivial(lp_hash(l)); X.hit("infinite bounds that must become finite"); }
                        if (q.lb[r] == -INF_ || (g.fb && !(q.lb[r] >= v - .02 * std::max(1.0, std::max(fabs(v), fabs(q.lb[r])))))) { V("implied-bound-missing", fmt("column %d lb %g, row %zu implies %g", j, q.lb[r], i, v)); return; } } } }
        }
    }
    if (g.pr && !g.pc && (l.n <= 33 || (F.plain && !g.sc && !g.de && !g.pp && !g.df)) && !supports_collide(rows_of(l)) && !supports_collide(rows_of(q))) { // no two proportional rows are left
        if (l.n > 33) X.hit("wide problems searched for proportional rows"); auto rv = rows_of(q); std::vector<int> id; auto rv0 = rows_of(l); int n0 = prop_groups(rv0, id); if (n0 >= 0 && n0 < (int) l.m) X.hit("problems with proportional rows");
        int ng = prop_groups(rv, id); if (ng >= 0) { if (n0 >= 0 && n0 < (int) l.m) X.nontrivial(lp_hash(l)); X.hit("reduced problems searched for proportional rows"); if (ng < (int) q.m) { V("proportional-rows-left", lp_text(q)); return; } } else X.hit("nearly proportional rows, not judged"); }
    if (g.pc && !g.sc && !g.de && !g.pr && !g.pp && !g.df && F.plain && !supports_collide(F.col)) {
        if (l.m > 33) X.hit("tall problems searched for proportional columns");
        std::vector<int> id; int ng = prop_groups(F.col, id); bool ok = ng > 0; for (size_t j = 0; j < l.n; j++) if (F.col[j].empty()) ok = false;
        if (ok && ng < (int) l.n) { // costs of a group proportional as well: exactly one column of each group stays
            bool cost = true; for (size_t u = 0; u < l.n; u++) for (size_t v = u + 1; v < l.n; v++) if (id[u] == id[v] && l.c[u] * F.col[v][0].second != l.c[v] * F.col[u][0].second) cost = false;
            bool wide = true; for (size_t i = 0; i < l.m; i++) { std::set<int> s; for (int t = l.Ap[i]; t < l.Ap[i + 1]; t++) s.insert(id[l.Ai[t]]); if (s.size() < 2) wide = false; }
            if (cost && wide) { X.nontrivial(lp_hash(l)); X.hit("problems whose proportional columns must be merged"); if ((int) q.n != ng) { V("proportional-columns-left", fmt("%zu columns left, %d groups", q.n, ng)); return; } }
            if (!cost && wide) { // two columns of different cost, one of which can be fixed
                std::vector<int> cnt(ng, 0); for (int v : id) cnt[v]++; 
                for (size_t u = 0; u < l.n; u++) for (size_t v = u + 1; v < l.n; v++) if (id[u] == id[v] && cnt[id[u]] == 2 && fabs(l.c[u] * F.col[v][0].second - l.c[v] * F.col[u][0].second) > 1e-3) {
                    double s = F.col[v][0].second / F.col[u][0].second, dv = l.c[v] - s * l.c[u]; // v costs more per unit than the same amount of u
                    bool can = dv > 0 ? ((s > 0 ? l.ub[u] == INF_ : l.lb[u] == -INF_) || l.lb[v] == -INF_) : ((s > 0 ? l.lb[u] == -INF_ : l.ub[u] == INF_) || l.ub[v] == INF_);
                    if (!can) continue; X.nontrivial(lp_hash(l)); X.hit("pairs of proportional columns of which one is dominated");
                    if (cok && at[u] >= 0 && at[v] >= 0) { V("dominated-column-left", fmt("columns %zu %zu", u, v)); return; } } } } }
    if (q.n < l.n) X.sample(Ctx::case_text(c) + "reduced:\n" + lp_text(q));
}
