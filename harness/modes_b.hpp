// Robustness properties: inputs, determinism, API lifecycle, build digests, output.
#pragma once
#include "oracle.hpp"
#include <malloc.h>
#include <setjmp.h>
#include <stdarg.h>

// ------------------------------------------------------------------ P07
// Input arrays live on their own pages: read-only while the library may read
// them, inaccessible afterwards; a store or a retained pointer faults.
struct Pages {
    char *base; size_t len, cap;
    explicit Pages(size_t c) : len(0), cap((c + 8191) & ~(size_t) 4095) { base = (char *) mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
    ~Pages() { munmap(base, cap); }
    template <class T> T *put(const std::vector<T> &v) { len = (len + 15) & ~(size_t) 15; T *p = (T *) (base + len); if (!v.empty()) memcpy(p, v.data(), v.size() * sizeof(T)); len += v.size() * sizeof(T); return p; }
    void prot(int f) { mprotect(base, cap, f); }
};
static sigjmp_buf g_jmp; static volatile sig_atomic_t g_armed = 0; static void *volatile g_fault;
static void on_segv(int sig, siginfo_t *si, void *) { if (g_armed) { g_fault = si->si_addr; g_armed = 0; siglongjmp(g_jmp, 1); } signal(sig, SIG_DFL); raise(sig); }
static void arm_segv() { static bool done = false; if (done) return; done = true; struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); }

static uint64_t full_digest(const Case &c, Rng r) { Run R; if (!run_lp(R, c.l, c.cfg)) return 0; uint64_t h = red_digest(R.p, R.status); if (R.status & INFEASIBLE) return h; std::vector<double> x, y, z; any_point(R.red, r, x, y, z); Sol s = do_postsolve(R, c.l, x, y, z); return mix(h, sol_digest(s)); }

static void m_inputs(Ctx &X, uint64_t k) {
    Case c = X.get(k, W_STD | W_LARGE | W_EXTREME); const LP &l = c.l; X.hit(std::string("class ") + c.cls);
    arm_segv();
    Rng pr(mix(k, 5)); uint64_t want = full_digest(c, pr);
    size_t bytes = (l.Ax.size() + 2 * l.m + 3 * l.n) * 8 + (l.Ai.size() + l.Ap.size()) * 4 + 256;
    Pages P(bytes); double *Ax = P.put(l.Ax), *lhs = P.put(l.lhs), *rhs = P.put(l.rhs), *lb = P.put(l.lb), *ub = P.put(l.ub), *cc = P.put(l.c); int *Ai = P.put(l.Ai), *Ap = P.put(l.Ap);
    std::vector<char> snap(P.base, P.base + P.len);
    Pages PS(sizeof(Settings)); Settings *st; { Settings *d = default_settings(); c.cfg.to(d); st = (Settings *) PS.base; memcpy(st, d, sizeof *d); PS.len = sizeof *d; free_settings(d); }
    static const char *volatile stage; static Presolver *volatile pv; stage = "new_presolver"; pv = nullptr;
    static Pages *volatile in_flight; in_flight = nullptr;
    auto fail = [&](const char *key) { X.viol(key, c, fmt("fault at %p during %s", (void *) g_fault, stage)); };
    P.prot(PROT_READ); PS.prot(PROT_READ);
    // the initialisation thread must have finished with the inputs on return; a
    // store by it faults there, outside the armed region, and ends the worker
    g_armed = 1;
    if (sigsetjmp(g_jmp, 1)) { fail("input-written-or-retained"); return; }
    pv = new_presolver(Ax, Ai, Ap, l.m, l.n, l.nnz, lhs, rhs, lb, ub, cc, st);
    P.prot(PROT_READ); if (memcmp(P.base, snap.data(), P.len)) X.viol("input-array-modified", c, "contents changed");
    P.prot(PROT_NONE); X.hit("inputs made inaccessible after construction");
    stage = "run_presolver"; if (!pv) { g_armed = 0; X.viol("no-presolver", c, ""); return; }
    PresolveStatus s = run_presolver(pv); uint64_t h = red_digest(pv, s);
    if (!(s & INFEASIBLE)) {
        LP red = grab_reduced(pv); Rng r2 = pr; std::vector<double> x, y, z; any_point(red, r2, x, y, z);
        Pages Q((x.size() + y.size() + z.size()) * 8 + 64); double *qx = Q.put(x), *qy = Q.put(y), *qz = Q.put(z); Q.prot(PROT_READ);
        stage = "postsolve"; uint64_t before = red_digest(pv, s); postsolve(pv, qx, qy, qz); Q.prot(PROT_NONE);
        stage = "after postsolve";
        if (red_digest(pv, s) != before) X.viol("reduced-problem-modified-by-postsolve", c, "");
        Sol so; so.x.assign(pv->sol->x, pv->sol->x + l.n); so.y.assign(pv->sol->y, pv->sol->y + l.m); so.z.assign(pv->sol->z, pv->sol->z + l.n); h = mix(h, sol_digest(so)); X.hit("postsolves with protected inputs");
    }
    if (h != want) X.viol("result-depends-on-callers-arrays", c, "result differs from the run with ordinary buffers");
    stage = "free_presolver"; free_presolver(pv); g_armed = 0;
    X.hit(std::string("verdict ") + sname(s)); X.nontrivial(lp_hash(l));
    X.sample(Ctx::case_text(c) + fmt("%zu input bytes read-only during construction, inaccessible afterwards; digest %016llx", P.len, (unsigned long long) h));
}

// ------------------------------------------------------------------ P08
static void m_determ(Ctx &X, uint64_t k) {
    Case c = X.get(k, k % 4 == 1 ? W_MID | W_TINY | W_LONG : W_STD | W_LARGE | W_EXTREME), d = X.replay ? X.get(k) : make_case(X.seed + 7777, k * 3 + 1, W_STD), e = X.replay ? X.get(k) : make_case(X.seed + 8888, k * 5 + 1, W_STD); X.hit(std::string("class ") + c.cls);
    Rng pr(mix(k, 5));
    auto V = [&](const char *key, const std::string &s) { X.viol(key, c, s); };
    mallopt(M_PERTURB, 0); uint64_t h0 = full_digest(c, pr);
    mallopt(M_PERTURB, 0x5A); uint64_t h1 = full_digest(c, pr);
    mallopt(M_PERTURB, 0xFF); uint64_t h2 = full_digest(c, pr);
    mallopt(M_PERTURB, 0); X.hit("runs with perturbed heap contents", 2);
    if (h0 != h1 || h0 != h2) { V("depends-on-heap-contents", fmt("%016llx %016llx %016llx", (unsigned long long) h0, (unsigned long long) h1, (unsigned long long) h2)); return; }
    // several presolvers alive at once, calls interleaved in a random order
    const Case *cs[3] = {&c, &d, &e}; uint64_t want[3] = {h0, full_digest(d, pr), full_digest(e, pr)}; Run R[3]; int pc[3] = {0, 0, 0}; uint64_t got[3] = {0, 0, 0}; Rng r(mix(k, 77)); Sol first; std::vector<double> x, y, z; std::string order;
    for (int left = 9; left > 0;) {
        int t = r.in(0, 2); if (pc[t] >= 3) continue; left--; order += fmt("%d.%d ", t, pc[t]);
        if (pc[t] == 0) { if (!run_new(R[t], cs[t]->l, cs[t]->cfg)) { V("no-presolver", ""); return; } }
        if (pc[t] == 1) { R[t].status = run_presolver(R[t].p); got[t] = red_digest(R[t].p, R[t].status); if (!(R[t].status & INFEASIBLE)) R[t].red = grab_reduced(R[t].p); }
        if (pc[t] == 2 && !(R[t].status & INFEASIBLE)) { Rng r2 = pr; any_point(R[t].red, r2, x, y, z); Sol s = do_postsolve(R[t], cs[t]->l, x, y, z); got[t] = mix(got[t], sol_digest(s)); }
        pc[t]++;
    }
    X.hit("interleaved instances", 3); X.nontrivial(fnv(order.data(), order.size(), lp_hash(c.l)));
    for (int t = 0; t < 3; t++) if (got[t] != want[t]) { V("depends-on-other-instances", fmt("instance %d of order %s", t, order.c_str())); return; }
    // postsolve: p, q, p again must give the first answer again
    if (!(R[0].status & INFEASIBLE)) {
        std::vector<double> x2, y2, z2; Rng ra(mix(k, 1)), rb(mix(k, 2)); any_point(R[0].red, ra, x, y, z); any_point(R[0].red, rb, x2, y2, z2);
        Sol s1 = do_postsolve(R[0], c.l, x, y, z), s2 = do_postsolve(R[0], c.l, x2, y2, z2), s3 = do_postsolve(R[0], c.l, x, y, z); X.hit("repeated postsolves", 3);
        std::vector<double> x0, y0, z0; Rng r0 = pr; any_point(R[0].red, r0, x0, y0, z0); // the very first call again
        if (mix(red_digest(R[0].p, R[0].status), sol_digest(do_postsolve(R[0], c.l, x0, y0, z0))) != want[0]) { V("postsolve-not-repeatable", "a later call differs from the very first on the same input"); return; }
        { Run F; run_lp(F, c.l, c.cfg); if (sol_digest(do_postsolve(F, c.l, x2, y2, z2)) != sol_digest(s2)) { V("postsolve-depends-on-earlier-calls", "a fresh presolver recovers another solution"); return; } }
        if (sol_digest(s1) != sol_digest(s3)) { V("postsolve-not-repeatable", "third call differs from the first on the same input"); return; }
        if (R[0].red.n && x != x2 && sol_digest(s1) == sol_digest(s2)) X.hit("postsolve inputs that coincide");
        if (red_digest(R[0].p, R[0].status) != red_digest(R[0].p, R[0].status)) V("unstable", "");
        // destroying the others does not disturb the survivor
        R[1].close(); R[2].close(); Sol s4 = do_postsolve(R[0], c.l, x, y, z); if (sol_digest(s4) != sol_digest(s1)) V("disturbed-by-freeing-another-instance", "");
    }
    X.sample(Ctx::case_text(c) + "call order (instance.step): " + order);
}

// ------------------------------------------------------------------ P09 (run under sanitizers)
static double g_sink;
static void m_memory(Ctx &X, uint64_t k) {
    Case c = X.get(k, W_STD | W_LARGE | W_EXTREME); const LP &l = c.l; X.hit(std::string("class ") + c.cls); Rng r(mix(k, 31)); int how = r.in(0, 9);
    Settings *st = default_settings(); if (r.p(.05)) set_settings_false(st); if (r.p(.05)) set_settings_true(st); c.cfg.to(st);
    Presolver *p; {
        Heap<double> Ax(l.Ax), lhs(l.lhs), rhs(l.rhs), lb(l.lb), ub(l.ub), cc(l.c); Heap<int> Ai(l.Ai), Ap(l.Ap);
        p = new_presolver(Ax.p, Ai.p, Ap.p, l.m, l.n, l.nnz, lhs.p, rhs.p, lb.p, ub.p, cc.p, st);
    }
    if (!p) { free_settings(st); X.viol("no-presolver", c, ""); return; }
    if (how == 0) { free_presolver(p); free_settings(st); X.hit("freed before running"); return; }
    PresolveStatus s = run_presolver(p); X.hit(std::string("verdict ") + sname(s)); X.nontrivial(lp_hash(l));
    if (!(s & INFEASIBLE)) {
        LP red = grab_reduced(p); double t = p->reduced_prob->obj_offset; for (double v : red.lhs) if (v > 0) t += 1; for (double v : red.lb) if (v > 0) t += 1; for (double v : red.ub) if (v > 0) t += 1; for (double v : red.c) if (v > 0) t += 1; for (double v : red.rhs) if (v > 0) t += 1; g_sink += t > 0;
        int np = how == 1 ? 0 : how < 6 ? 1 : 2; for (int q = 0; q < np; q++) { std::vector<double> x, y, z; any_point(red, r, x, y, z); { Heap<double> hx(x), hy(y), hz(z); postsolve(p, hx.p, hy.p, hz.p); } X.hit("postsolves"); for (size_t j = 0; j < l.n; j++) if (p->sol->x[j] > 0 || p->sol->z[j] > 0) g_sink++; for (size_t i = 0; i < l.m; i++) if (p->sol->y[i] > 0) g_sink++; }
    }
    if (how == 2) { free_settings(st); free_presolver(p); X.hit("settings freed first"); } else { free_presolver(p); free_settings(st); }
    X.sample(Ctx::case_text(c) + sname(s));
}

// ------------------------------------------------------------------ P14
static void m_build(Ctx &X, uint64_t k) {
    Case c = X.get(k, W_STD | W_LARGE | W_EXTREME); uint64_t h = full_digest(c, Rng(mix(k, 5)));
    X.hit(std::string("class ") + c.cls); X.nontrivial(lp_hash(c.l));
    if (X.digest) { uint64_t t[2] = {k, h}; fwrite(t, sizeof t, 1, X.digest); }
    X.sample(Ctx::case_text(c) + fmt("digest %016llx", (unsigned long long) h));
}

// ------------------------------------------------------------------ P17
struct Capture { // what the library writes to stdout and stderr
    int so, se, f; explicit Capture() { fflush(stdout); fflush(stderr); so = dup(1); se = dup(2); f = memfd_create("cap", 0); dup2(f, 1); dup2(f, 2); }
    std::string stop() { fflush(stdout); fflush(stderr); dup2(so, 1); dup2(se, 2); close(so); close(se); std::string s; lseek(f, 0, SEEK_SET); char b[4096]; ssize_t n; while ((n = read(f, b, sizeof b)) > 0) s.append(b, n); close(f); return s; }
};
static void m_quiet(Ctx &X, uint64_t k) {
    Case c = X.get(k, W_STD | W_EXTREME); X.hit(std::string("class ") + c.cls); Rng r(mix(k, 41));
    if (!X.replay && r.p(.15)) c.cfg.maxt = r.p(.5) ? 0 : 1e-9;
    auto V = [&](const char *key, const std::string &d) { X.viol(key, c, d); };
    uint64_t hq, hv; Rng pr(mix(k, 5));
    c.cfg.verbose = false; { Capture C; hq = full_digest(c, pr); std::string o = C.stop(); X.hit("silent runs observed"); if (!o.empty()) V("output-although-not-verbose", o); }
    Case v = c; v.cfg.verbose = true; std::string o; Run R; Sol s;
    { Capture C; run_lp(R, v.l, v.cfg); hv = red_digest(R.p, R.status); if (!(R.status & INFEASIBLE)) { Rng r2 = pr; std::vector<double> x, y, z; any_point(R.red, r2, x, y, z); s = do_postsolve(R, v.l, x, y, z); hv = mix(hv, sol_digest(s)); } o = C.stop(); }
    X.hit("verbose runs observed"); X.hit(std::string("verdict ") + sname(R.status)); if (c.cfg.maxt < 1) X.hit("runs with an expired time limit");
    if (hv != hq) V("verbosity-changes-the-result", "");
    std::string a = fmt("Original problem:  %zu rows, %zu columns, %zu nnz", c.l.m, c.l.n, c.l.nnz); if (o.find(a) == std::string::npos) V("reported-original-size-wrong", o);
    if (!(R.status & INFEASIBLE)) { std::string b = fmt("Presolved problem: %zu rows, %zu columns, %zu nnz", R.red.m, R.red.n, R.red.nnz); if (o.find(b) == std::string::npos) V("reported-reduced-size-wrong", o); if (o.find("declares") != std::string::npos) V("reports-a-verdict-it-did-not-return", o); }
    else { bool inf = o.find("declares problem as infeasible.") != std::string::npos, unb = o.find("infeasible or unbounded") != std::string::npos; if (inf != (R.status == INFEASIBLE) || unb != (R.status == UNBNDORINFEAS)) V("reported-verdict-wrong", o); }
    X.nontrivial(lp_hash(c.l)); X.sample(Ctx::case_text(c) + o);
}
