// One worker process: runs cases first, first+stride, ... of one mode.
#include "modes_a.hpp"
#include "modes_b.hpp"
#include "modes_c.hpp"
typedef void (*Mode)(Ctx &, uint64_t);
static Case (*g_case_of)(Ctx &, uint64_t); // for modes with cases of their own
#ifdef WITH_EXTRA
#include WITH_EXTRA
#endif
static std::vector<uint8_t> g_seen;
static void cov_merge() { size_t n = g_cov_stop - g_cov_start; if (g_seen.size() != n) g_seen.assign(n, 0); for (size_t i = 0; i < n; i++) if (g_cov_start[i]) { g_seen[i] = 1; g_cov_start[i] = 0; } }
// Greedy shrinking of a failing case (developer aid): drop rows, columns and
// entries, simplify numbers, as long as the same key is reported.
static LP lp_without(const LP &l, int dr, int dc, int de) {
    Builder b; std::vector<int> nc(l.n); for (size_t j = 0; j < l.n; j++) { nc[j] = (int) b.n; if ((int) j != dc) { b.n++; b.lb.push_back(l.lb[j]); b.ub.push_back(l.ub[j]); b.c.push_back(l.c[j]); } }
    for (size_t i = 0; i < l.m; i++) if ((int) i != dr) { b.rows.emplace_back(); for (int t = l.Ap[i]; t < l.Ap[i + 1]; t++) if (l.Ai[t] != dc && t != de) b.rows.back()[nc[l.Ai[t]]] = l.Ax[t]; b.lhs.push_back(l.lhs[i]); b.rhs.push_back(l.rhs[i]); }
    return b.make();
}
static void reduce(Ctx &X, Mode f, const std::string &key) {
    X.silent = true; auto bad = [&](const LP &q) { Ctx Y; Y.prop = X.prop; Y.mode = X.mode; Y.outdir = X.outdir; Y.seed = X.seed; Y.replay = Y.silent = true; Y.prog = X.prog; Y.rc = X.rc; Y.rc.l = q; f(Y, X.first); return Y.nviol.count(key) && Y.nviol[key] > 0; };
    LP l = X.rc.l; if (!bad(l)) { printf("not reproduced\n"); return; }
    if (l.n > 60) { // whole components first, halving
        Parts p = split(l); std::vector<int> alive(p.rows.size()); for (size_t i = 0; i < alive.size(); i++) alive[i] = (int) i; std::vector<int> pos(l.n, -1); LP full = l;
        auto make = [&](const std::vector<int> &a) { std::vector<int> rr, cc; for (int q : a) { rr.insert(rr.end(), p.rows[q].begin(), p.rows[q].end()); cc.insert(cc.end(), p.cols[q].begin(), p.cols[q].end()); } std::sort(rr.begin(), rr.end()); std::sort(cc.begin(), cc.end()); return sub_lp(full, rr, cc, pos); };
        for (size_t w = alive.size() / 2; w >= 1; w = w == 1 ? 0 : w / 2) for (size_t at = 0; at + w <= alive.size() && alive.size() > 1;) { std::vector<int> a = alive; a.erase(a.begin() + at, a.begin() + at + w); LP q = make(a); if (bad(q)) { alive = a; l = q; } else at += w; }
    }
    for (bool ch = true; ch && l.n <= 200;) { ch = false;
        for (int i = (int) l.m - 1; i >= 0; i--) { LP q = lp_without(l, i, -1, -1); if (bad(q)) { l = q; ch = true; } }
        for (int j = (int) l.n - 1; j >= 0; j--) { LP q = lp_without(l, -1, j, -1); if (bad(q)) { l = q; ch = true; } }
        for (int j = (int) l.n - 1; j >= 0; j--) { // fix the column at a value and drop it
            std::vector<double> vs; if (std::isfinite(l.lb[j])) vs.push_back(l.lb[j]); if (std::isfinite(l.ub[j])) vs.push_back(l.ub[j]); vs.push_back(1);
            for (double v : vs) { LP q = l; for (size_t i = 0; i < l.m; i++) for (int t = l.Ap[i]; t < l.Ap[i + 1]; t++) if (l.Ai[t] == j) { q.lhs[i] -= l.Ax[t] * v; q.rhs[i] -= l.Ax[t] * v; } q = lp_without(q, -1, j, -1); if (bad(q)) { l = q; ch = true; break; } } }
        for (int t = (int) l.nnz - 1; t >= 0; t--) { LP q = lp_without(l, -1, -1, t); if (bad(q)) { l = q; ch = true; } }
        auto simp = [&](std::vector<double> LP::*v) { for (size_t i = 0; i < (l.*v).size(); i++) { double o = (l.*v)[i]; std::vector<double> alt = {0, o > 0 ? INF_ : -INF_, 1, -1, std::round(o)}; for (double a : alt) { if (v == &LP::Ax && (a == 0 || !std::isfinite(a))) continue; if (v == &LP::c && !std::isfinite(a)) continue; if ((v == &LP::lhs || v == &LP::lb) && a == INF_) continue; if ((v == &LP::rhs || v == &LP::ub) && a == -INF_) continue; if (o == a || (!std::isfinite(o)) || (v == &LP::Ax && fabs(o) == 1)) break; LP q = l; (q.*v)[i] = a; if (bad(q)) { l = q; ch = true; break; } } } };
        simp(&LP::c); simp(&LP::lhs); simp(&LP::rhs); simp(&LP::lb); simp(&LP::ub); simp(&LP::Ax);
    }
    X.rc.l = l; printf("%s%s\n", lp_text(l).c_str(), X.rc.cfg.str().c_str());
}
int main(int argc, char **argv) {
    std::map<std::string, Mode> M = {{"verdict", m_verdict}, {"equiv", m_equiv}, {"primal", m_primal}, {"dual", m_dual}, {"form", m_form}, {"stats", m_stats}, {"effect", m_effect}, {"settings", m_settings}, {"inputs", m_inputs}, {"determ", m_determ}, {"memory", m_memory}, {"build", m_build}, {"quiet", m_quiet}};
#ifdef WITH_EXTRA
    extra_modes(M);
#endif
    Ctx X; const char *progf = nullptr, *digf = nullptr, *repf = nullptr, *hashf = nullptr, *redk = nullptr; bool dump = false; double deadline = 0; struct timeval tv0; gettimeofday(&tv0, nullptr);
    for (int i = 1; i + 1 < argc; i += 2) { std::string a = argv[i]; const char *v = argv[i + 1];
        if (a == "--mode") X.mode = v; else if (a == "--prop") X.prop = v; else if (a == "--out") X.outdir = v; else if (a == "--seed") X.seed = strtoull(v, 0, 10); else if (a == "--first") X.first = strtoull(v, 0, 10); else if (a == "--count") X.count = strtoull(v, 0, 10); else if (a == "--stride") X.stride = strtoull(v, 0, 10); else if (a == "--prog") progf = v; else if (a == "--digest") digf = v; else if (a == "--replay") repf = v; else if (a == "--hashes") hashf = v; else if (a == "--tier") X.tier = v; else if (a == "--reduce") redk = v; else if (a == "--dump") dump = true; else if (a == "--deadline") deadline = atof(v); }
    if (!M.count(X.mode)) { fprintf(stderr, "unknown mode %s\n", X.mode.c_str()); return 3; }
    static uint64_t dummy; X.prog = &dummy;
    if (progf) { int fd = open(progf, O_RDWR | O_CREAT, 0644); if (fd < 0 || ftruncate(fd, 64)) return 3; X.prog = (uint64_t *) mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); }
    if (digf) X.digest = fopen(digf, "w");
    if (repf) {
        FILE *f = fopen(repf, "r"); if (!f) return 3; char line[4096]; unsigned long long v; X.replay = true; bool got = false;
        long at = 0; while (fgets(line, sizeof line, f)) { if (sscanf(line, "seed %llu", &v) == 1) X.seed = v; if (sscanf(line, "case %llu", &v) == 1) X.first = v; if (!strncmp(line, "class ", 6)) { X.rc.cls = line + 6; while (!X.rc.cls.empty() && X.rc.cls.back() == '\n') X.rc.cls.pop_back(); } if (!strncmp(line, "LP ", 3)) { fseek(f, at, SEEK_SET); got = lp_read(f, X.rc.l); break; } at = ftell(f); }
        while (fgets(line, sizeof line, f)) if (!strncmp(line, "ston_cols=", 10)) X.rc.cfg.parse(line);
        fclose(f); if (!got) return 3; X.rc.seed = X.seed; X.rc.k = X.first; X.count = 1;
    }
    if (dump) { Case c = X.mode == "effect" ? effect_case(X, X.first) : g_case_of ? g_case_of(X, X.first) : X.get(X.first, X.mode == "quiet" || X.mode == "settings" ? W_STD : W_STD | W_LARGE); printf("class %s\n%s", c.cls.c_str(), Ctx::case_text(c).c_str()); return 0; }
    if (redk) { reduce(X, M[X.mode], redk); return 0; }
    Mode run = M[X.mode]; uint64_t ran = 0;
    for (uint64_t t = 0; t < X.count; t++) {
        uint64_t k = X.first + t * X.stride; X.prog[0] = k; X.prog[1] = t + 1; run(X, k); ran++;
        if ((t & 31) == 31) { cov_merge(); struct timeval tv; gettimeofday(&tv, nullptr); if (deadline > 0 && (double) (tv.tv_sec - tv0.tv_sec) > deadline) { X.hit("workers stopped at their deadline"); break; } }
    }
    cov_merge(); X.prog[2] = 1;
    for (auto &e : X.cnt) printf("C %ld %s\n", e.second, e.first.c_str());
    for (auto &e : X.mx) printf("M %.17g %s\n", e.second, e.first.c_str());
    for (auto &s : X.samples) { printf("S %zu\n", s.size()); fwrite(s.data(), 1, s.size(), stdout); printf("\n"); }
    if (!g_seen.empty()) { printf("E "); for (auto v : g_seen) putchar(v ? '1' : '0'); printf("\n"); }
    if (hashf) { FILE *f = fopen(hashf, "w"); for (uint64_t h : X.distinct) fwrite(&h, 8, 1, f); fclose(f); }
    printf("D %llu\n", (unsigned long long) ran);
    return 0;
}
