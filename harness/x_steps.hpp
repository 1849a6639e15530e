// P15: termination, measured in executed control-flow edges of the library.
extern "C" { extern uint64_t g_steps, g_step_limit; extern int g_steps_on; extern void (*g_step_overrun)(void); }
static const char *const SCAL[] = {"chain", "cycle", "contract", "pingpong", "cascade", "parrows", "parcols", "dense", "ladder", "fill", "flow", "tower", "knap", "slack", "interval"};
static const int NSCAL = 15;
// structured LPs of size ~N; the same seed at two sizes gives two members of one family
static LP scal(int kind, int N, Rng r) {
    Builder b; auto col = [&](double lo, double up, double c) { b.lb.push_back(lo); b.ub.push_back(up); b.c.push_back(c); return (int) b.n++; };
    auto row = [&](double lo, double up) { b.rows.emplace_back(); b.lhs.push_back(lo); b.rhs.push_back(up); return (int) b.rows.size() - 1; };
    int rev = r.in(0, 2); double f = r.pick(std::vector<double>{.5, .9, .95, .98, .99, 1, 1.01, 2}); bool ub = r.p(.5), fr = r.p(.3), cost = r.p(.6); int aux = r.in(0, 3);
    auto C = [&](double v) { return cost ? v : 0; };
    switch (kind) {
    case 0: case 1: { for (int j = 0; j < N; j++) col(fr ? -INF_ : 0, ub ? 100 : INF_, C(r.in(0, 3))); for (int j = 0; j + (kind ? 0 : 1) < N; j++) { int i = row(0, 0); b.rows[i][j] = 1; b.rows[i][(j + 1) % N] = aux ? -1 : -f; } break; }
    case 2: { for (int j = 0; j < N; j++) col(0, 1000, -1); for (int j = 0; j < N; j++) { int i = row(-INF_, aux == 0 ? 1 : 0); b.rows[i][j] = 1; b.rows[i][(j + 1) % N] = -f; } break; } // x_j <= f x_{j+1}
    case 3: { for (int j = 0; j < N; j += 2) { col(0, 1000, -1); col(0, 1000, -1); int i = row(-INF_, 0); b.rows[i][j] = 1; b.rows[i][j + 1] = -f; i = row(-INF_, aux); b.rows[i][j + 1] = 1; b.rows[i][j] = -f; } break; }
    case 4: { for (int j = 0; j < N; j++) col(0, ub ? 50 : INF_, C(1)); for (int j = 0; j < N; j++) { int i = row(j ? 0 : 2, j ? (aux ? 0 : INF_) : 2); b.rows[i][j] = 1; if (j) b.rows[i][j - 1] = -1; if (j > 1 && fr) b.rows[i][j - 2] = 1, b.lhs[i] = b.rhs[i] = aux ? 2 : b.lhs[i]; if (b.lhs[i] > b.rhs[i]) b.lhs[i] = b.rhs[i]; } break; } // triangular
    case 5: { int w = r.in(2, 6); for (int j = 0; j < w; j++) col(-10, 10, C(j)); for (int q = 0; q < N; q++) { double g = 1 + q % 7; int i = row(-INF_, g * (3 + q % 5)); for (int j = 0; j < w; j++) b.rows[i][j] = g * (j + 1); } break; }
    case 6: { int w = r.in(2, 6); for (int i = 0; i < w; i++) row(1, ub ? 40. * N : INF_); for (int q = 0; q < N; q++) { double g = 1 + q % 7; int j = col(0, ub ? 5 : INF_, g * 2); for (int i = 0; i < w; i++) b.rows[i][j] = g * (i + 1); } break; }
    case 7: { int K = std::max(2, (int) sqrt((double) N)); for (int j = 0; j < K; j++) col(0, ub ? 9 : INF_, C(1 + j % 4)); for (int i = 0; i < K; i++) { row(1, INF_); for (int j = 0; j < K; j++) b.rows[i][j] = aux ? 1 + (i * j) % 5 : 1; } break; }
    case 8: { for (int j = 0; j < N; j++) col(0, 10, C(-1)); for (int j = 0; j + 1 < N; j++) { int i = row(-INF_, 10 + (j == 0 ? -5 : 0)); b.rows[i][j] = 1; b.rows[i][j + 1] = ub ? -1 : 1; if (j + 2 < N && fr) b.rows[i][j + 2] = -f; } break; }
    case 9: { int K = std::max(3, N / 4); for (int j = 0; j <= K; j++) col(0, ub ? 99 : INF_, C(1)); for (int j = 1; j <= K; j++) { int i = row(0, 0); b.rows[i][j] = 1; b.rows[i][0] = -f; } for (int q = 0; q < K; q++) { int i = row(-INF_, 500); for (int t = 0; t < 3; t++) b.rows[i][1 + r.in(0, K - 1)] = 1 + t; b.rows[i][0] = 1; } break; } // all doubletons share one column
    case 10: { int K = std::max(3, N / 2); for (int i = 0; i < K; i++) row(0, 0); for (int i = 0; i < K; i++) for (int t = 0; t < 2; t++) { int u = i, v = t ? r.in(0, K - 1) : (i + 1) % K; if (u == v) continue; int x = col(0, ub ? 7 : INF_, C(r.in(0, 5))); b.rows[u][x] = -1; b.rows[v][x] = 1; } break; }
    case 11: { int prev = col(0, 1, -1); for (int j = 1; j < N; j++) { int x = col(0, INF_, C(-1)); int i = row(-INF_, 0); b.rows[i][x] = 1; b.rows[i][prev] = -f; if (aux == 1 && j > 3) { i = row(0, INF_); b.rows[i][x] = 1; b.rows[i][j / 2] = -.1; } prev = x; } break; } // bounds travel down a tower
    case 12: { int K = std::max(2, N / 10); for (int j = 0; j < N; j++) col(0, 1, -C(r.in(1, 9))); for (int i = 0; i < K; i++) { row(-INF_, 12); for (int t = 0; t < 12; t++) b.rows[i][r.in(0, N - 1)] = r.in(1, 9); } break; }
    case 13: { for (int j = 0; j < N / 2; j++) col(0, ub ? 6 : INF_, C(1)); for (int i = 0; i < N / 2; i++) { int q = row(4, 4); b.rows[q][i] = 1; b.rows[q][(i * 7 + 1) % (N / 2)] += 1; int s = col(0, fr ? INF_ : 9, 0); b.rows[q][s] = aux ? -1 : 1; if (aux == 3) { int s2 = col(-INF_, INF_, 1); b.rows[q][s2] = 1; } } break; }
    default: { for (int j = 0; j < N; j++) col(-100, 100, C(j % 3)); for (int j = 0; j + 1 < N; j++) { int i = row(0, 1 - (j % 2) * .5); b.rows[i][j + 1] = 1; b.rows[i][j] = -f; } int i = row(3, 3); b.rows[i][N - 1] = 1; if (aux) b.rows[i][0] = 1; break; }
    }
    for (auto &rw : b.rows) for (auto it = rw.begin(); it != rw.end();) it = it->second == 0 ? rw.erase(it) : std::next(it);
    if (rev) { // another numbering: reversed or shuffled
        Builder q; q.n = b.n; size_t M = b.rows.size(); std::vector<int> pr(M), pc(b.n); for (size_t i = 0; i < M; i++) pr[i] = (int) (M - 1 - i); for (size_t j = 0; j < b.n; j++) pc[j] = (int) (b.n - 1 - j);
        if (rev == 2) { for (int i = (int) M - 1; i > 0; i--) std::swap(pr[i], pr[r.in(0, i)]); for (int j = (int) b.n - 1; j > 0; j--) std::swap(pc[j], pc[r.in(0, j)]); }
        q.rows.resize(M); q.lhs.resize(M); q.rhs.resize(M); q.lb.resize(b.n); q.ub.resize(b.n); q.c.resize(b.n);
        for (size_t i = 0; i < M; i++) { for (auto &e : b.rows[i]) q.rows[pr[i]][pc[e.first]] = e.second; q.lhs[pr[i]] = b.lhs[i]; q.rhs[pr[i]] = b.rhs[i]; }
        for (size_t j = 0; j < b.n; j++) { q.lb[pc[j]] = b.lb[j]; q.ub[pc[j]] = b.ub[j]; q.c[pc[j]] = b.c[j]; }
        return q.make();
    }
    return b.make();
}
static jmp_buf g_over; static void on_over() { longjmp(g_over, 1); }
static double sz(const LP &l) { return (double) (l.m + l.n + l.nnz + 8); }
struct Steps { uint64_t n[3] = {0, 0, 0}; int at = 0; bool over = false; int st = 0; };
static Steps count_steps(const LP &l, const Cfg &cfg, double limit, uint64_t k) {
    static Run *R; static Steps S; S = Steps(); R = new Run; g_step_overrun = on_over; g_step_limit = (uint64_t) limit;
    if (setjmp(g_over)) { S.over = true; S.n[S.at] = g_steps; return S; } // (the interrupted presolver is leaked)
    g_steps = 0; g_steps_on = 1; bool ok = run_new(*R, l, cfg); g_steps_on = 0; S.n[0] = g_steps; if (!ok) abort();
    S.at = 1; g_steps = 0; g_steps_on = 1; S.st = R->status = run_presolver(R->p); g_steps_on = 0; S.n[1] = g_steps;
    if (!(R->status & INFEASIBLE)) { R->red = grab_reduced(R->p); static std::vector<double> x, y, z; Rng r(mix(k, 5)); some_point(R->red, r, x, y, z); S.at = 2; g_steps = 0; g_steps_on = 1; postsolve(R->p, x.data(), y.data(), z.data()); g_steps_on = 0; S.n[2] = g_steps; }
    delete R; return S;
}
static const char *const PHASE[] = {"new_presolver", "run_presolver", "postsolve"};
// Allowed work for size s = rows + columns + nonzeros + 8: four or more times the
// envelope of what was observed (two constants for presolve: small and large s).
static double allowed(int phase, double s) { return phase == 0 ? 60 * s : phase == 1 ? s * std::min(600 + 12 * s, 3000 + 1.5 * s) : s * (60 + 3 * s); }
static Case steps_case(Ctx &X, uint64_t k, int &kind, int &N) {
    Rng r(mix(X.seed, k * 3 + 2)); Case c; kind = -1;
    if (X.replay || !r.p(.5)) return X.get(k, W_STD | W_LARGE | W_EXTREME);
    kind = r.in(0, NSCAL - 1); N = X.quick() ? r.in(20, 400) : r.in(20, 2000); if (r.p(.02)) N *= 8;
    c.l = scal(kind, N, Rng(mix(k, 3))); c.cfg = r.p(.5) ? Cfg() : rand_cfg(r); c.cls = std::string("scaled ") + SCAL[kind]; c.seed = X.seed; c.k = k; return c;
}
static void m_steps(Ctx &X, uint64_t k) {
    int kind, N = 0; Case c = steps_case(X, k, kind, N); bool fam = kind >= 0;
    c.cfg.maxt = 1e18; X.hit("class " + c.cls); std::string name = kind >= 0 ? SCAL[kind] : "other";
    auto one = [&](const Case &q, Steps &S) {
        double s = sz(q.l); S = count_steps(q.l, q.cfg, allowed(1, s), k);
        X.hit("edges executed", (long) (S.n[0] + S.n[1] + S.n[2])); X.nontrivial(lp_hash(q.l));
        if (S.over) { X.viol("no-termination-within-the-step-bound", q, fmt("%s stopped after %llu edges, size %g", PHASE[S.at], (unsigned long long) S.n[S.at], s)); return false; }
        for (int t = 0; t < 3; t++) { X.max(fmt("edges / allowed: %s", PHASE[t]), (double) S.n[t] / allowed(t, s)); if ((double) S.n[t] > allowed(t, s)) { X.viol("too-many-steps", q, fmt("%s took %llu edges, size %g, allowed %g", PHASE[t], (unsigned long long) S.n[t], s, allowed(t, s))); return false; } }
        return true; };
    Steps S, T; if (!one(c, S) || !fam) return;
    Case d = c; d.l = scal(kind, 2 * N, Rng(mix(k, 3))); d.cls += " doubled"; if (!one(d, T)) return;
    X.hit("pairs of one family at size N and 2N"); if (S.st == T.st && S.n[1] > 20000) X.max("growth exponent of run_presolver: " + name, std::log((double) T.n[1] / (double) S.n[1]) / std::log(sz(d.l) / sz(c.l)));
    if (N < 40) X.sample(Ctx::case_text(c) + fmt("%s, N = %d: %llu + %llu + %llu edges", c.cls.c_str(), N, (unsigned long long) S.n[0], (unsigned long long) S.n[1], (unsigned long long) S.n[2]));
}
static void extra_modes(std::map<std::string, Mode> &M) { M["steps"] = m_steps; g_case_of = [](Ctx &X, uint64_t k) { int a, b; Case c = steps_case(X, k, a, b); c.cfg.maxt = 1e18; return c; }; }
