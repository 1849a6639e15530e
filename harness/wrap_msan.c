/* MemorySanitizer boundary: the harness is not instrumented, the library is.
   Inputs are declared initialised, everything a caller may read afterwards must be. */
#include <sanitizer/msan_interface.h>
#include "PSLP_API.h"
#include "PSLP_sol.h"
#include "PSLP_stats.h"
long g_msan_bytes; int g_msan = 1;
/* interceptors (memcmp, write, ...) check their arguments only inside the library */
__attribute__((constructor)) static void start(void) { __msan_scoped_disable_interceptor_checks(); }
#define LIB(call) (__msan_scoped_enable_interceptor_checks(), (call)); __msan_scoped_disable_interceptor_checks()
#define IN(p, n) __msan_unpoison((void *) (p), (n))
#define OUT(p, n) (g_msan_bytes += (long) (n), __msan_check_mem_is_initialized((p), (n)))
Settings *__real_default_settings(void);
Presolver *__real_new_presolver(const double *Ax, const int *Ai, const int *Ap, size_t m, size_t n, size_t nnz, const double *lhs, const double *rhs, const double *lbs, const double *ubs, const double *c, const Settings *s);
PresolveStatus __real_run_presolver(Presolver *p);
void __real_postsolve(Presolver *p, const double *x, const double *y, const double *z);
void __real_free_presolver(Presolver *p);
void __real_free_settings(Settings *s);
Settings *__wrap_default_settings(void)
{
    Settings *s = LIB(__real_default_settings());
    IN(&s, sizeof s);
#define F(f) OUT(&s->f, sizeof s->f)
    if (s) { F(ston_cols); F(dton_eq); F(parallel_rows); F(parallel_cols); F(primal_propagation); F(finite_bound_tightening); F(dual_fix); F(relax_bounds); F(max_shift); F(max_time); F(verbose); }
    return s;
}
void __wrap_free_settings(Settings *s) { IN(&s, sizeof s); LIB(__real_free_settings(s)); }
void __wrap_free_presolver(Presolver *p) { IN(&p, sizeof p); LIB(__real_free_presolver(p)); }
Presolver *__wrap_new_presolver(const double *Ax, const int *Ai, const int *Ap, size_t m, size_t n, size_t nnz, const double *lhs, const double *rhs, const double *lbs, const double *ubs, const double *c, const Settings *s)
{
    IN(&Ax, 8); IN(&Ai, 8); IN(&Ap, 8); IN(&m, 8); IN(&n, 8); IN(&nnz, 8); IN(&lhs, 8); IN(&rhs, 8); IN(&lbs, 8); IN(&ubs, 8); IN(&c, 8); IN(&s, 8);
    IN(Ax, nnz * 8); IN(Ai, nnz * 4); IN(Ap, (m + 1) * 4); IN(lhs, m * 8); IN(rhs, m * 8); IN(lbs, n * 8); IN(ubs, n * 8); IN(c, n * 8);
    Presolver *p = LIB(__real_new_presolver(Ax, Ai, Ap, m, n, nnz, lhs, rhs, lbs, ubs, c, s));
    OUT(&p, sizeof p);
    return p;
}
PresolveStatus __wrap_run_presolver(Presolver *p)
{
    IN(&p, 8);
    PresolveStatus s = LIB(__real_run_presolver(p));
    OUT(&s, sizeof s); OUT(p->stats, sizeof *p->stats);
    if (!(s & INFEASIBLE))
    {
        PresolvedProblem *q = p->reduced_prob;
        OUT(q, sizeof *q); OUT(q->Ap, (q->m + 1) * sizeof *q->Ap); OUT(q->Ai, q->nnz * sizeof *q->Ai); OUT(q->Ax, q->nnz * 8); OUT(q->lhs, q->m * 8); OUT(q->rhs, q->m * 8); OUT(q->c, q->n * 8); OUT(q->lbs, q->n * 8); OUT(q->ubs, q->n * 8);
    }
    return s;
}
void __wrap_postsolve(Presolver *p, const double *x, const double *y, const double *z)
{
    IN(&p, 8); IN(&x, 8); IN(&y, 8); IN(&z, 8);
    IN(x, p->reduced_prob->n * 8); IN(y, p->reduced_prob->m * 8); IN(z, p->reduced_prob->n * 8);
    LIB(__real_postsolve(p, x, y, z));
    OUT(p->sol, sizeof *p->sol); OUT(p->sol->x, p->sol->dim_x * 8); OUT(p->sol->z, p->sol->dim_x * 8); OUT(p->sol->y, p->sol->dim_y * 8); OUT(p->stats, sizeof *p->stats);
}
