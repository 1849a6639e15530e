/* Internal consistency of the working problem at an observation point. Returns a
   key ("" if consistent) and a description; *worst gets the largest drift of a
   stored activity from its recomputed value. */
#include "Activity.h"
#include "Bounds.h"
#include "Constraints.h"
#include "Locks.h"
#include "Matrix.h"
#include "Problem.h"
#include "State.h"
#include "Tags.h"
#include "glbopts.h"
#include "iVec.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static char detail[600];
long inv_count[8]; /* rows, columns, entries, activities compared, locks, list entries, points */
#define BAD(key, ...) do { snprintf(detail, sizeof detail, __VA_ARGS__); free(mark); return key; } while (0)
#define RIN(i) (rt[i] & R_TAG_INACTIVE)
#define CIN(j) (ct[j] & C_TAG_INACTIVE)
static char *mark;
static long double *hist; static size_t n_hist; /* largest terms seen in each row so far: drift is measured against them */
static const char *csr(const Matrix *M, const char *nm)
{
    size_t nnz = 0;
    if (M->nnz > M->n_alloc) BAD("nonzero-count", "%s: nnz %zu of %zu allocated", nm, M->nnz, M->n_alloc);
    for (size_t i = 0; i < M->m; i++)
    {
        int s = M->p[i].start, e = M->p[i].end;
        if (s < 0 || e < s || (size_t) e > M->n_alloc || M->p[i + 1].start < e) BAD("row-ranges", "%s row %zu: [%d, %d), next starts at %d, %zu allocated", nm, i, s, e, M->p[i + 1].start, M->n_alloc);
        for (int k = s; k < e; k++)
        {
            if (M->i[k] < 0 || (size_t) M->i[k] >= M->n || (k > s && M->i[k] <= M->i[k - 1])) BAD("indices", "%s row %zu: index %d at %d", nm, i, M->i[k], k - s);
            if (M->x[k] == 0 || !isfinite(M->x[k])) BAD("values", "%s row %zu: value %g", nm, i, M->x[k]);
        }
        nnz += (size_t) (e - s);
    }
    if (nnz != M->nnz) BAD("nonzero-count", "%s: nnz %zu, stored %zu", nm, M->nnz, nnz);
    return "";
}
static const char *list(const iVec *v, size_t n, const char *nm)
{
    memset(mark, 0, n);
    for (size_t k = 0; k < v->len; k++)
    {
        int q = v->data[k];
        if (q < 0 || (size_t) q >= n) BAD("list-range", "%s: %d of %zu", nm, q, n);
        if (mark[q]) BAD("list-duplicate", "%s: %d twice", nm, q);
        mark[q] = 1; inv_count[5]++;
    }
    return "";
}
#define TRY(e) do { const char *r_ = (e); if (*r_) return r_; } while (0)
const char *inv_detail(void) { return detail; }
const char *inv_check(const Problem *prob, const char *where, double *worst)
{
    const Constraints *C = prob->constraints; const State *S = C->state; const Matrix *A = C->A, *T = C->AT;
    const RowTag *rt = C->row_tags; const ColTag *ct = C->col_tags; const Bound *b = C->bounds; size_t m = A->m, n = A->n; int fin = !strcmp(where, "clean") || !strcmp(where, "final"); /* bounds to be relaxed are marked */
    detail[0] = 0; mark = malloc((m > n ? m : n) + 1); inv_count[6]++; inv_count[0] += (long) m; inv_count[1] += (long) n; inv_count[2] += (long) A->nnz;
    if (T->m != n || T->n != m || C->m != m || C->n != n) BAD("dimensions", "A %zux%zu, AT %zux%zu, constraints %zux%zu", m, n, T->m, T->n, C->m, C->n);
    TRY(csr(A, "A")); TRY(csr(T, "AT"));
    if (A->nnz != T->nnz) BAD("transpose", "A has %zu entries, AT %zu", A->nnz, T->nnz);
    { /* walk A row by row, each column of AT in step */
        int *at = malloc((n + 1) * sizeof(int)); for (size_t j = 0; j < n; j++) at[j] = T->p[j].start;
        for (size_t i = 0; i < m; i++) for (int k = A->p[i].start; k < A->p[i].end; k++)
        {
            int j = A->i[k], q = at[j]++;
            if (q >= T->p[j].end || T->i[q] != (int) i || T->x[q] != A->x[k]) { free(at); BAD("transpose", "entry (%zu, %d) = %.17g missing or different in AT", i, j, A->x[k]); }
        }
        free(at);
    }
    for (size_t i = 0; i < m; i++)
    {
        int len = A->p[i].end - A->p[i].start;
        if (RIN(i)) { if (S->row_sizes[i] != SIZE_INACTIVE_ROW || len) BAD("row-size", "inactive row %zu: size %d, stored %d", i, S->row_sizes[i], len); continue; }
        if (S->row_sizes[i] != len) BAD("row-size", "row %zu: size %d, stored %d", i, S->row_sizes[i], len);
        double l = C->lhs[i], r = C->rhs[i];
        if (isnan(l) || isnan(r) || l == INFINITY || r == -INFINITY) BAD("sides", "row %zu: [%g, %g]", i, l, r);
        if (!(rt[i] & R_TAG_LHS_INF) != !isinf(l) || !(rt[i] & R_TAG_RHS_INF) != !isinf(r)) BAD("row-tag", "row %zu: [%g, %g] tag %d", i, l, r, rt[i]);
        if (!(rt[i] & R_TAG_EQ) != !(l == r)) BAD("row-tag", "row %zu: [%.17g, %.17g] tag %d", i, l, r, rt[i]);
        if (rt[i] & R_TAG_INFEAS) BAD("row-tag", "row %zu: tag %d", i, rt[i]);
    }
    for (size_t j = 0; j < n; j++)
    {
        int len = T->p[j].end - T->p[j].start;
        if (CIN(j)) { if (S->col_sizes[j] != SIZE_INACTIVE_COL || len) BAD("column-size", "inactive column %zu: size %d, stored %d", j, S->col_sizes[j], len); continue; }
        if (S->col_sizes[j] != len) BAD("column-size", "column %zu: size %d, stored %d", j, S->col_sizes[j], len);
        double l = b[j].lb, u = b[j].ub;
        if (isnan(l) || isnan(u) || l == INFINITY || u == -INFINITY) BAD("bounds", "column %zu: [%g, %g]", j, l, u);
        if ((!(ct[j] & C_TAG_LB_INF) && isinf(l)) || (!(ct[j] & C_TAG_UB_INF) && isinf(u))) BAD("column-tag", "column %zu: [%g, %g] tag %d", j, l, u, ct[j]);
        if (!fin && (((ct[j] & C_TAG_LB_INF) && !isinf(l)) || ((ct[j] & C_TAG_UB_INF) && !isinf(u)))) BAD("column-tag-spurious", "column %zu: [%g, %g] tag %d", j, l, u, ct[j]);
        if (!fin)
        {
            int up = 0, dn = 0;
            for (int k = T->p[j].start; k < T->p[j].end; k++) { int i = T->i[k]; int hasr = !(rt[i] & R_TAG_RHS_INF), hasl = !(rt[i] & R_TAG_LHS_INF); if (T->x[k] > 0) { up += hasr; dn += hasl; } else { up += hasl; dn += hasr; } }
            inv_count[4]++;
            if (up != S->col_locks[j].up || dn != S->col_locks[j].down) BAD("locks", "column %zu: up %d down %d, stored %d %d", j, up, dn, S->col_locks[j].up, S->col_locks[j].down);
        }
    }
    if (fin) { free(mark); return ""; }
    if (m > n_hist) { hist = realloc(hist, m * sizeof *hist); n_hist = m; }
    if (!strcmp(where, "init")) for (size_t i = 0; i < m; i++) hist[i] = 1;
    for (size_t i = 0; i < m; i++)
    {
        if (RIN(i)) continue;
        const Activity *a = &S->activities[i]; int nmin = 0, nmax = 0; long double mn = 0, mx = 0, sc = 1;
        for (int k = A->p[i].start; k < A->p[i].end; k++)
        {
            int j = A->i[k]; double v = A->x[k], lo = v > 0 ? b[j].lb : b[j].ub, hi = v > 0 ? b[j].ub : b[j].lb;
            if (isinf(lo)) nmin++; else { mn += (long double) v * lo; sc += fabsl((long double) v * lo); }
            if (isinf(hi)) nmax++; else { mx += (long double) v * hi; sc += fabsl((long double) v * hi); }
        }
        if (sc > hist[i]) hist[i] = sc;
        sc = hist[i];
        if (nmin != a->n_inf_min || nmax != a->n_inf_max) BAD("infinite-contributions", "row %zu: %d min %d max, stored %d %d", i, nmin, nmax, a->n_inf_min, a->n_inf_max);
        if (!nmin) { inv_count[3]++; double d = (double) (fabsl(a->min - mn) / sc); if (!(d <= *worst)) *worst = d; if (!(d <= 1e-6)) BAD("activity", "row %zu: min %.17g, stored %.17g", i, (double) mn, a->min); }
        if (!nmax) { inv_count[3]++; double d = (double) (fabsl(a->max - mx) / sc); if (!(d <= *worst)) *worst = d; if (!(d <= 1e-6)) BAD("activity", "row %zu: max %.17g, stored %.17g", i, (double) mx, a->max); }
    }
    TRY(list(S->empty_rows, m, "empty rows")); for (size_t i = 0; i < m; i++) if (!RIN(i) && S->row_sizes[i] == 0 && !mark[i]) BAD("list-missing", "empty row %zu", i);
    TRY(list(S->ston_rows, m, "singleton rows")); for (size_t i = 0; i < m; i++) if (!RIN(i) && S->row_sizes[i] == 1 && !mark[i]) BAD("list-missing", "singleton row %zu", i);
    TRY(list(S->dton_rows, m, "doubleton equalities")); for (size_t i = 0; i < m; i++) if (!RIN(i) && S->row_sizes[i] == 2 && (rt[i] & R_TAG_EQ) && !mark[i]) BAD("list-missing", "doubleton equality %zu", i);
    TRY(list(S->updated_activities, m, "updated activities"));
    TRY(list(S->rows_to_delete, m, "rows to delete"));
    TRY(list(S->fixed_cols_to_delete, n, "fixed columns")); TRY(list(S->sub_cols_to_delete, n, "substituted columns"));
    if (S->rows_to_delete->len || S->fixed_cols_to_delete->len || S->sub_cols_to_delete->len) BAD("pending-deletions", "%zu rows, %zu + %zu columns", S->rows_to_delete->len, S->fixed_cols_to_delete->len, S->sub_cols_to_delete->len);
    TRY(list(S->empty_cols, n, "empty columns")); for (size_t j = 0; j < n; j++) if (!CIN(j) && S->col_sizes[j] == 0 && !mark[j]) BAD("list-missing", "empty column %zu", j);
    TRY(list(S->ston_cols, n, "singleton columns")); for (size_t j = 0; j < n; j++) if (!CIN(j) && S->col_sizes[j] == 1 && !mark[j]) BAD("list-missing", "singleton column %zu", j);
    free(mark); return "";
}
