// P11: data races and cross-thread interference (run under ThreadSanitizer).
#include <pthread.h>
#include <sched.h>
#include <memory>
extern "C" { extern int g_delay_on; extern long g_threads_started; void wrap_thread_seed(unsigned); extern void (*g_vp)(const char *, const struct Problem *); }
struct TShare {
    struct Slot { Run R; uint64_t h = 0; std::unique_ptr<Heap<double>> Ax, lhs, rhs, lb, ub, c; std::unique_ptr<Heap<int>> Ai, Ap; };
    std::vector<LP> lps; std::vector<int> which; std::vector<std::unique_ptr<Slot>> in; // inputs by LP, presolvers by thread
    std::vector<Presolver *> p; std::vector<PresolveStatus> s; std::vector<uint64_t> got; Settings *st = nullptr; bool handover = false; int T = 0, rounds = 1; uint64_t k = 0;
    pthread_barrier_t bar; int inside = 0, most = 0; long ticket = 0; std::vector<unsigned char> order;
    void enter(int t, int step) { long at = __atomic_fetch_add(&ticket, 1, __ATOMIC_RELAXED); if (at < (long) order.size()) __atomic_store_n(&order[at], (unsigned char) (t * 8 + step), __ATOMIC_RELAXED); int v = __atomic_add_fetch(&inside, 1, __ATOMIC_RELAXED); int m = __atomic_load_n(&most, __ATOMIC_RELAXED); while (v > m && !__atomic_compare_exchange_n(&most, &m, v, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {} }
    void leave() { __atomic_sub_fetch(&inside, 1, __ATOMIC_RELAXED); }
};
struct TArg { TShare *S; int t; };
static thread_local unsigned t_pt = 1;
static void t_yield(const char *, const struct Problem *) { t_pt = t_pt * 1664525u + 1013904223u; if ((t_pt >> 24) % 4 == 0) sched_yield(); }
static uint64_t t_post(TShare &S, Presolver *p, PresolveStatus s, int lp) {
    uint64_t h = red_digest(p, s); if (s & INFEASIBLE) return h; const LP &l = S.lps[lp]; LP red = grab_reduced(p); Rng r(mix(S.k, 5 + lp)); std::vector<double> x, y, z; some_point(red, r, x, y, z);
    { Heap<double> hx(x), hy(y), hz(z); postsolve(p, hx.p, hy.p, hz.p); }
    Sol o; o.x.assign(p->sol->x, p->sol->x + l.n); o.y.assign(p->sol->y, p->sol->y + l.m); o.z.assign(p->sol->z, p->sol->z + l.n); return mix(h, sol_digest(o));
}
static Presolver *t_new(TShare &S, int lp) { const LP &l = S.lps[lp]; auto &q = *S.in[lp]; return new_presolver(q.Ax->p, q.Ai->p, q.Ap->p, l.m, l.n, l.nnz, q.lhs->p, q.rhs->p, q.lb->p, q.ub->p, q.c->p, S.st); }
static void *t_main(void *a) {
    TShare &S = *((TArg *) a)->S; int t = ((TArg *) a)->t, T = S.T; wrap_thread_seed((unsigned) mix(S.k, t)); t_pt = (unsigned) mix(S.k, t + 100);
    auto wait = [&] { pthread_barrier_wait(&S.bar); };
    for (int q = 0; q < S.rounds; q++) {
        wait(); S.enter(t, 0); S.p[t] = t_new(S, S.which[t]); S.leave(); if (!S.p[t]) abort();
        int o = t; if (S.handover) { wait(); o = (t + 1) % T; }
        S.enter(o, 1); S.s[o] = run_presolver(S.p[o]); S.leave();
        if (S.handover) { wait(); o = (t + 2) % T; }
        S.enter(o, 2); S.got[o * 4 + q] = t_post(S, S.p[o], S.s[o], S.which[o]); S.leave();
        if (S.handover) { wait(); o = (t + 3) % T; }
        S.enter(o, 3); free_presolver(S.p[o]); S.leave(); S.p[o] = nullptr;
    }
    return nullptr;
}
static std::unordered_set<uint64_t> g_orders;
static void m_threads(Ctx &X, uint64_t k) {
    Case c = X.get(k, W_STD | W_LARGE | W_EXTREME); X.hit(std::string("class ") + c.cls); Rng r(mix(k, 81)); TShare S; S.k = k; S.T = r.in(2, 6); S.rounds = c.l.n > 100 ? 1 : r.in(1, 4); S.handover = r.p(.3); bool big = c.l.n > 100;
    if (big) S.T = r.in(2, 3);
    S.lps.push_back(c.l); int L = big ? 1 : r.in(1, S.T); for (int q = 1; q < L; q++) S.lps.push_back(make_case(X.seed + 31, k * 7 + q, W_STD & ~W_BLOCKS).l);
    for (int t = 0; t < S.T; t++) S.which.push_back(r.in(0, L - 1));
    S.st = default_settings(); c.cfg.verbose = false; c.cfg.to(S.st); S.p.assign(S.T, nullptr); S.s.assign(S.T, UNCHANGED); S.got.assign(S.T * 4, 0); S.order.assign(S.T * S.rounds * 4, 0);
    std::vector<uint64_t> want;
    for (auto &l : S.lps) { std::unique_ptr<TShare::Slot> q(new TShare::Slot); q->Ax.reset(new Heap<double>(l.Ax)); q->lhs.reset(new Heap<double>(l.lhs)); q->rhs.reset(new Heap<double>(l.rhs)); q->lb.reset(new Heap<double>(l.lb)); q->ub.reset(new Heap<double>(l.ub)); q->c.reset(new Heap<double>(l.c)); q->Ai.reset(new Heap<int>(l.Ai)); q->Ap.reset(new Heap<int>(l.Ap)); S.in.push_back(std::move(q)); }
    for (int q = 0; q < L; q++) { Presolver *p = t_new(S, q); if (!p) { X.viol("no-presolver", c, ""); return; } PresolveStatus s = run_presolver(p); want.push_back(t_post(S, p, s, q)); free_presolver(p); }
    pthread_barrier_init(&S.bar, nullptr, (unsigned) S.T); std::vector<pthread_t> th(S.T); std::vector<TArg> ar(S.T); long before = g_threads_started; g_vp = t_yield; 
    for (int t = 0; t < S.T; t++) { ar[t] = {&S, t}; if (pthread_create(&th[t], nullptr, t_main, &ar[t])) abort(); if (t == S.T - 2) g_delay_on = 1; }
    for (int t = 0; t < S.T; t++) pthread_join(th[t], nullptr);
    g_delay_on = 0; g_vp = nullptr; pthread_barrier_destroy(&S.bar); free_settings(S.st);
    X.hit("threads of the caller", S.T); X.hit("helper threads", g_threads_started - before - 1); X.max("library calls in progress at once", S.most); if (S.most > 1) X.hit("cases with overlapping library calls"); if (S.handover) X.hit("cases that hand presolvers over between threads");
    uint64_t h = S.T; for (unsigned char q : S.order) h = mix(h, q); X.nontrivial(h);
    for (int t = 0; t < S.T; t++) for (int q = 0; q < S.rounds; q++) { X.hit("results compared with the sequential run"); if (S.got[t * 4 + q] != want[S.which[t]]) { X.viol("result-differs-from-sequential-run", c, fmt("thread %d round %d", t, q)); return; } }
    if (X.samples.size() < 2) { std::string o; for (unsigned char q : S.order) o += fmt("%d%c ", q / 8, "NRPF"[q % 8]); X.sample(Ctx::case_text(c) + fmt("%d threads, %d LPs, order of calls (instance, New/Run/Postsolve/Free): ", S.T, L) + o); }
}
static void extra_modes(std::map<std::string, Mode> &M) { M["threads"] = m_threads; }
