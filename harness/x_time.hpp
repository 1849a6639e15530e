// P16: time limit, under a virtual clock.
extern "C" { extern int g_clock_on; extern long g_clock_calls, g_jump_at; extern double g_clock_now, g_tick, g_jump; extern void (*g_vp)(const char *, const struct Problem *); }
static long t_phase_after, t_work_after; 
static void t_point(const char *w, const struct Problem *) { if (g_jump_at < 0 || g_clock_calls <= g_jump_at) return; if (!strcmp(w, "phase")) t_phase_after++; }
// construct, then run with the clock under control; at < 0: the clock only ticks
static bool run_at(Run &R, const LP &l, const Cfg &cfg, long at, double tick, double jump, long *calls) {
    R.close(); if (!run_new(R, l, cfg)) return false;
    g_clock_calls = 0; g_jump_at = at; g_clock_now = 1000; g_tick = tick; g_jump = jump; t_phase_after = 0; g_vp = t_point; g_clock_on = 1;
    R.status = run_presolver(R.p); g_clock_on = 0; g_vp = nullptr; if (calls) *calls = g_clock_calls; g_jump_at = -1;
    R.red = LP(); if (!(R.status & INFEASIBLE)) R.red = grab_reduced(R.p);
    return true;
}
static std::string time_case(Ctx *X, const Case &c, long at, const RefResult &a, std::string *det, bool *gross) {
    Rng jr(mix(c.k, (uint64_t) at)); double past = jr.p(.5) ? 1e6 : c.cfg.maxt + (jr.p(.5) ? .001 : .3) * jr.in(1, 3); // far beyond the limit or just
    Full F; F.a = a; if (!run_at(F.R, c.l, c.cfg, at, 1e-6, past, nullptr)) return "no-presolver";
    if (t_phase_after > 1) { *det = fmt("%ld further phases", t_phase_after); return "work-continues-after-the-limit"; }
    if (X) { X->hit(std::string("interrupted runs ending ") + sname(F.R.status)); }
    std::string e; if (F.R.status & INFEASIBLE) { Ctx D; return o_verdict(D, c, a, F.R.status); }
    if (F.R.status != UNCHANGED && F.R.status != REDUCED) return "undefined-status";
    e = o_form(c.l, F.R.p->reduced_prob); if (!e.empty()) { *det = "reduced problem:\n" + lp_text(F.R.red); *gross = true; return e; }
    F.b = ref_big(F.R.red, c.k + 7); e = o_equiv(c, F.a, F.R, F.b); if (!e.empty()) { *det = fmt("original %s %.12g, reduced %s %.12g + %.12g", rname(F.a.st), F.a.obj, rname(F.b.st), F.b.obj, F.R.red.off); return e; }
    if (F.a.st == R_INF || F.b.st == R_UNK || F.b.st == R_INF) return "";
    if (X) X->hit("interrupted runs whose solutions were recovered");
    e = primal_case(X, c, F, det, gross); if (!e.empty()) return e;
    return dual_case(X, c, F, det);
}
static void m_time(Ctx &X, uint64_t k) {
    Case c = X.get(k, W_STD | W_LARGE); X.hit(std::string("class ") + c.cls); Rng r(mix(k, 61)); { static const double T[] = {100, .25, 3.7, 59.999}; if (!X.replay || !(c.cfg.maxt > 0)) c.cfg.maxt = T[r.in(0, 3)]; }
    Run R; long n = 0, n2 = 0;
    if (!run_at(R, c.l, c.cfg, -1, 0, 0, &n)) { X.viol("no-presolver", c, ""); return; }
    uint64_t h = red_digest(R.p, R.status); X.hit("clock reads", n);
    run_at(R, c.l, c.cfg, -1, .999 * c.cfg.maxt / (double) (n + 1), 0, &n2); X.hit("runs that end just before the limit");
    if (red_digest(R.p, R.status) != h) { X.viol("limit-not-reached-but-result-differs", c, fmt("%ld clock reads over 99.9%% of %g s", n2, c.cfg.maxt)); return; }
    RefResult a = ref_big(c.l, c.k); int lim = c.l.n > 60 ? 2 : X.quick() ? 6 : 40;
    std::vector<long> at; if (n - 1 <= lim) for (long t = 1; t < n; t++) at.push_back(t); else for (int t = 0; t < lim; t++) at.push_back(1 + (long) (r.next() % (uint64_t) (n - 1)));
    for (long t : at) {
        std::string det; bool gross = false; X.hit("runs interrupted by the limit"); X.nontrivial(mix(lp_hash(c.l), (uint64_t) t));
        std::string e = time_case(&X, c, t, a, &det, &gross); if (e.empty()) continue;
        X.hit("candidates");
        bool sure = gross || e == "work-continues-after-the-limit" || e == "undefined-status" || confirm(c, [&](const Case &q, double) { std::string d2; bool g2 = false; RefResult a2 = ref_big(q.l, q.k); return !time_case(nullptr, q, t, a2, &d2, &g2).empty(); });
        if (!sure) { X.hit("candidates explained by tolerances"); continue; }
        X.viol(e, c, fmt("clock jumps at read %ld of %ld: ", t, n) + det); return;
    }
    if (R.red.n && R.red.n < c.l.n) X.sample(Ctx::case_text(c) + fmt("clock read %ld times; interrupted at %zu of them", n, at.size()));
}
// P06: reported times. The virtual clock stands still except at the observation
// points, where it advances by known random amounts; what the statistics
// attribute to a phase must be what passed inside it.
extern "C" long vp_nnz(const struct Problem *);
static struct Ledger { double all, in[5], may[5]; int ctx; Rng *r; long pts, last, rem[6]; } t_led; // families: 0 fast 1 propagation 2 parallel rows 3 parallel columns 4 medium; rem[5]: trivial
static void t_account(const char *w, const struct Problem *p) {
    Ledger &L = t_led; double d = L.r->p(.3) ? L.r->in(1, 999) * 1e-6 : L.r->in(1, 4000) * .001 + L.r->in(0, 999) * 1e-9; g_clock_now += d; L.all += d; L.pts++;
    auto is = [&](const char *q) { return !strcmp(w, q); };
    long z = vp_nnz(p), gone = L.last - z; L.last = z;
    if (is("trivial")) { L.rem[L.ctx >= 0 ? L.ctx : 5] += gone; if (L.ctx == 0) L.may[0] += d; else if (L.ctx > 0) { L.may[L.ctx] += d; L.may[4] += d; } L.ctx = -1; return; }
    int f = is("ston_cols") || is("dton_eq") ? 0 : is("check_activities") || is("propagation") ? 1 : is("parallel_rows") ? 2 : is("parallel_cols") ? 3 : -1;
    L.rem[f >= 0 ? f : 5] += gone; L.ctx = f; if (f >= 0) { L.in[f] += d; if (f) L.in[4] += d; }
}
static void m_times(Ctx &X, uint64_t k) {
    Case c = X.get(k, W_STD | W_LARGE); X.hit(std::string("class ") + c.cls); Rng r(mix(k, 63)); c.cfg.maxt = 1e9; Run R;
    auto near = [](double a, double b) { return fabs(a - b) <= 1e-6 * (1 + fabs(b)); };
    auto step = [&](const char *what, double tick, auto f) { // every read advances the clock by tick
        g_clock_calls = 0; g_jump_at = -1; g_clock_now = 1000 + r.in(0, 999) * .001; g_tick = tick; g_clock_on = 1; double t = f(); g_clock_on = 0;
        double span = tick * (double) (g_clock_calls - 1);
        if (g_clock_calls < 2 ? t != 0 : !(t > 0 && t <= span * (1 + 1e-6) + 1e-6)) X.viol(std::string(what) + "-time-wrong", c, fmt("reported %.9g s, %.9g s between the first and the last reading of the clock", t, span)); };
    bool ok = false; step("construction", r.in(1, 3000) * .0010007, [&] { ok = run_new(R, c.l, c.cfg); return ok ? R.p->stats->time_init : 0.; });
    if (!ok) { X.viol("no-presolver", c, ""); return; }
    const PresolveStats *s = R.p->stats; t_led = Ledger(); t_led.ctx = -1; t_led.r = &r; t_led.last = (long) c.l.nnz;
    g_clock_calls = 0; g_clock_now = 1000.25; g_tick = 0; g_vp = t_account; g_clock_on = 1; R.status = run_presolver(R.p); g_clock_on = 0; g_vp = nullptr;
    X.hit("observation points at which time passed", t_led.pts); X.hit(std::string("verdict ") + sname(R.status));
    if (R.status & INFEASIBLE) return;
    if (t_led.pts > 8) X.nontrivial(lp_hash(c.l));
    const char *nm[] = {"fast", "propagation", "parallel-rows", "parallel-cols", "medium"}; double got[] = {s->time_fast_reductions, s->time_primal_propagation, s->time_parallel_rows, s->time_parallel_cols, s->time_medium_reductions};
    if (!near(s->time_presolve, t_led.all)) X.viol("presolve-time-wrong", c, fmt("reported %.9g s, %.9g s passed", s->time_presolve, t_led.all));
    for (int f = 0; f < 5; f++) { double lo = t_led.in[f], up = lo + t_led.may[f]; X.hit(std::string("phase times compared: ") + nm[f], lo > 0); if (!(got[f] >= lo - 1e-6 * (1 + lo) && got[f] <= up + 1e-6 * (1 + up))) X.viol(std::string(nm[f]) + "-time-wrong", c, fmt("reported %.9g s, between %.9g and %.9g s passed inside", got[f], lo, up)); }
    long fam[] = {(long) s->nnz_removed_fast, (long) s->nnz_removed_primal_propagation, (long) s->nnz_removed_parallel_rows, (long) s->nnz_removed_parallel_cols, 0, (long) s->nnz_removed_trivial};
    if (t_led.last >= 0) { X.hit("attributions of removed nonzeros compared"); for (int f : {0, 1, 2, 3, 5}) if (fam[f] != t_led.rem[f]) X.viol(std::string(f == 5 ? "trivial" : nm[f]) + "-nonzeros-attributed-wrongly", c, fmt("reported %ld, %ld removed by it", fam[f], t_led.rem[f])); }
    LP q = grab_reduced(R.p); std::vector<double> x, y, z; some_point(q, r, x, y, z);
    step("postsolve", r.in(1, 3000) * .0010007, [&] { do_postsolve(R, c.l, x, y, z); return s->time_postsolve; });
    step("second postsolve", r.in(1, 300) * .0010007, [&] { do_postsolve(R, c.l, x, y, z); return s->time_postsolve; });
    if (q.n && q.n < c.l.n) X.sample(Ctx::case_text(c) + fmt("presolve %.6g s: fast %.6g medium %.6g propagation %.6g rows %.6g cols %.6g", s->time_presolve, got[0], got[4], got[1], got[2], got[3]));
}
static void extra_modes(std::map<std::string, Mode> &M) { M["time"] = m_time; M["times"] = m_times; }
