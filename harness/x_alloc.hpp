// P10: every allocation (and the thread creation) performed by default_settings
// and new_presolver fails once, alone, in pairs, and together with all later ones.
extern "C" { extern int g_al_on; extern long g_al_count[3], g_failed, g_live_n, g_fail2_at; extern int g_fail2_kind; extern const char *g_al_bad; void al_arm(int, long, int); void al_disarm(void); void al_nofail(void); }
static void m_alloc(Ctx &X, uint64_t k) {
    Case c = X.get(k, W_STD | W_LARGE); const LP &l = c.l; X.hit(std::string("class ") + c.cls); Rng r(mix(k, 71));
    Heap<double> Ax(l.Ax), lhs(l.lhs), rhs(l.rhs), lb(l.lb), ub(l.ub), cc(l.c); Heap<int> Ai(l.Ai), Ap(l.Ap); Rng pr(mix(k, 5));
    uint64_t want = full_digest(c, pr);
    auto V = [&](const char *key, const std::string &d) { X.viol(key, c, d); };
    auto finish_run = [&](Presolver *p) { // run, postsolve; digest of everything
        PresolveStatus s = run_presolver(p); uint64_t h = red_digest(p, s); if (s & INFEASIBLE) return h; LP red = grab_reduced(p); std::vector<double> x, y, z; Rng q = pr; any_point(red, q, x, y, z); Heap<double> hx(x), hy(y), hz(z); postsolve(p, hx.p, hy.p, hz.p); Sol so; so.x.assign(p->sol->x, p->sol->x + l.n); so.y.assign(p->sol->y, p->sol->y + l.m); so.z.assign(p->sol->z, p->sol->z + l.n); return mix(h, sol_digest(so)); };
    // fault-free: count the fault points
    al_arm(0, -1, 0); Settings *st = default_settings(); long ns = g_al_count[0]; if (st) c.cfg.to(st); Presolver *p = st ? new_presolver(Ax.p, Ai.p, Ap.p, l.m, l.n, l.nnz, lhs.p, rhs.p, lb.p, ub.p, cc.p, st) : nullptr;
    long n[3] = {g_al_count[0], g_al_count[1], g_al_count[2]}; al_nofail();
    if (!p) { al_disarm(); V("no-presolver", "without any fault"); return; }
    free_presolver(p); free_settings(st); long left = g_live_n; al_disarm(); if (left) { V("leak-without-fault", fmt("%ld blocks", left)); return; }
    X.max("allocations during construction", (double) (n[0] + n[1] - ns)); X.hit("fault points counted", n[0] + n[1] + n[2]);
    auto attempt = [&](int kind, long at, int rest, int k2, long at2) -> bool {
        g_fail2_kind = k2; g_fail2_at = at2; al_arm(kind, at, rest);
        Settings *s = default_settings(); Presolver *q = nullptr; long f0 = g_failed; if (s) { c.cfg.to(s); q = new_presolver(Ax.p, Ai.p, Ap.p, l.m, l.n, l.nnz, lhs.p, rhs.p, lb.p, ub.p, cc.p, s); }
        long f = g_failed; const char *bad = g_al_bad; al_nofail();
        std::string d = fmt("fault at %s %ld%s", kind == 2 ? "thread creation" : kind ? "helper-thread allocation" : "allocation", at, rest ? " and all later ones" : at2 >= 0 ? fmt(" and kind %d number %ld", k2, at2).c_str() : "");
        X.hit("constructions under faults"); X.hit("faults delivered", f); if (!f) X.hit("fault point not reached");
        if (q) { if (f > f0) X.hit("constructions that survived a fault"); bool same = finish_run(q) == want; free_presolver(q); if (!same) { al_disarm(); V("wrong-result-after-a-fault", d); return false; } }
        else if (!f) { al_disarm(); free_settings(s); V("no-presolver", d + " (not reached)"); return false; }
        else X.hit("NULL returned");
        free_settings(s); bad = bad ? bad : g_al_bad; long lv = g_live_n; al_disarm();
        if (bad) { V("bad-free-after-a-fault", d + ": " + bad); return false; }
        if (lv) { V("leak-after-a-fault", d + fmt(": %ld blocks", lv)); return false; }
        X.nontrivial(mix(mix(lp_hash(l), (uint64_t) kind * 1000 + (uint64_t) at), (uint64_t) rest * 7 + (uint64_t) (at2 + 1) * 31 + (uint64_t) k2)); return true;
    };
    for (int kind = 0; kind < 3; kind++) for (long at = 0; at < n[kind]; at++) for (int rest = 0; rest < 2; rest++) if (!attempt(kind, at, rest, 0, -1)) return;
    for (int t = 0; t < (X.quick() ? 6 : 40); t++) { int a = r.in(0, 2), b = r.in(0, 2); if (!n[a] || !n[b]) continue; if (!attempt(a, r.in(0, (int) n[a] - 1), 0, b, r.in(0, (int) n[b] - 1))) return; X.hit("pairs of faults"); }
    // the library still works afterwards
    if (full_digest(c, pr) != want) V("later-construction-disturbed", "");
    X.sample(Ctx::case_text(c) + fmt("%ld allocations (%ld of them for settings), %ld in the helper thread, %ld thread creation: each failed alone and with all later ones", n[0], ns, n[1], n[2]));
}
static void extra_modes(std::map<std::string, Mode> &M) { M["alloc"] = m_alloc; }
