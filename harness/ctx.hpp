// Worker context: counters, violations with replay files, progress record.
#pragma once
#include "work.hpp"
#include <unordered_set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

struct Ctx {
    std::string prop, mode, outdir, tier = "quick";
    uint64_t seed = 1, first = 0, count = 0, stride = 1;
    std::map<std::string, long> cnt; std::map<std::string, double> mx;
    std::map<std::string, int> nviol;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t *prog = nullptr; // shared page: current case
    bool replay = false, silent = false; Case rc;
    int build_id = 0; FILE *digest = nullptr;
    void hit(const std::string &k, long d = 1) { cnt[k] += d; }
    void max(const std::string &k, double v) { auto it = mx.find(k); if (it == mx.end() || v > it->second) mx[k] = v; }
    void nontrivial(uint64_t h) { distinct.insert(h); }
    void sample(const std::string &s) { if (samples.size() < 2) samples.push_back(s); }
    static std::string case_text(const Case &c) { return lp_text(c.l) + c.cfg.str() + "\n"; }
    void viol(const std::string &key, const Case &c, std::string detail) {
        for (char &ch : detail) if (ch == 10) ch = 59;
        int n = nviol[key]++;
        if (silent || n >= 3) return;
        char nm[256]; snprintf(nm, sizeof nm, "%s/%s-%llu-%llu-%s.case", outdir.c_str(), prop.c_str(), (unsigned long long) c.seed, (unsigned long long) c.k, key.c_str());
        if (FILE *f = fopen(nm, "w")) {
            fprintf(f, "property %s\nmode %s\nkey %s\nseed %llu\ncase %llu\nclass %s\ndetail %s\n%s", prop.c_str(), mode.c_str(), key.c_str(), (unsigned long long) c.seed, (unsigned long long) c.k, c.cls.c_str(), detail.c_str(), case_text(c).c_str());
            fclose(f);
        }
        printf("V %s %llu %s\t%s\n", key.c_str(), (unsigned long long) c.k, nm, detail.c_str()); fflush(stdout);
    }
    Case get(uint64_t k, int mask = W_STD) { if (replay) { rc.k = k; return rc; } return make_case(seed, k, mask); }
    bool quick() const { return tier == "quick"; }
};

static inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
#include <cstdarg>
static inline std::string fmt(const char *f, ...) { char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

// Observed code edges (clang inline 8 bit counters in the library objects).
extern "C" { extern uint8_t *g_cov_start, *g_cov_stop; }
