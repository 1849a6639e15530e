// P13: consistency of the working problem at every observation point.
extern "C" { extern void (*g_vp)(const char *, const struct Problem *); const char *inv_check(const struct Problem *, const char *, double *); const char *inv_detail(void); extern long inv_count[8]; }
static Ctx *i_X; static std::string i_key, i_det, i_where; static double i_worst; static int i_status;
static void i_point(const char *w, const struct Problem *p) {
    if (!i_key.empty()) return;
    i_X->hit(std::string("points after ") + w); const char *e = inv_check(p, w, &i_worst); if (*e) { i_key = e; i_det = inv_detail(); i_where = w; }
}
static void m_inv(Ctx &X, uint64_t k) {
    Case c = X.get(k, W_STD | W_LARGE); X.hit(std::string("class ") + c.cls); i_X = &X; i_key.clear(); i_worst = 0; long b0 = inv_count[3], b6 = inv_count[6];
    { Run R; g_vp = i_point; run_lp(R, c.l, c.cfg); i_status = R.status; g_vp = nullptr; if (R.red.n != c.l.n || R.red.m != c.l.m) X.nontrivial(lp_hash(c.l)); if (inv_count[6] - b6 > 12) X.sample(Ctx::case_text(c) + fmt("%ld points observed, %ld activities compared, largest drift %g", inv_count[6] - b6, inv_count[3] - b0, i_worst)); }
    X.max("largest relative drift of an activity", i_worst); X.hit("activities compared", inv_count[3] - b0); X.hit("points", inv_count[6] - b6);
    if (!i_key.empty() && !(i_status & INFEASIBLE)) X.viol(i_key, c, "after " + i_where + ": " + i_det);
}
static void extra_modes(std::map<std::string, Mode> &M) { M["inv"] = m_inv; }
