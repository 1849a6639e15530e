From 1c5cd4dd873abe357d459400fb28918575199e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 01/34] fix: do not fix empty columns twice (objective offset
 was counted twice)

---
 src/explorers/SimpleReductions.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/explorers/SimpleReductions.c b/src/explorers/SimpleReductions.c
index 22ced65..36c4d39 100644
--- a/src/explorers/SimpleReductions.c
+++ b/src/explorers/SimpleReductions.c
@@ -691,6 +691,13 @@ PresolveStatus remove_variables_with_close_bounds(Problem *prob)
 
         if (IS_EQUAL_FEAS_TOL(bounds[ii].lb, bounds[ii].ub))
         {
+            // empty columns are fixed by remove_empty_cols (fixing them here
+            // too would count their objective contribution twice)
+            if (col_sizes[ii] == 0)
+            {
+                continue;
+            }
+
             // no need to check return value since bounds are equal
             fix_col(constraints, (int) ii, bounds[ii].lb, c[ii]);
         }
-- 
2.43.0


From 35bcc32454d8d301d14ed6b0450c755dbe46e6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 02/34] fix: store the bound tags of the kept parallel column
 before they are merged

---
 src/explorers/Parallel_cols.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/explorers/Parallel_cols.c b/src/explorers/Parallel_cols.c
index 717b72e..a06cb2b 100644
--- a/src/explorers/Parallel_cols.c
+++ b/src/explorers/Parallel_cols.c
@@ -52,6 +52,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
     int ii, jj, j, k, len_j;
     const int *aj_cols;
     double ratio, cj, ck, ak0, lb_j_old, ub_j_old;
+    ColTag tag_j_old;
     const double *aj_vals;
 
     for (ii = 0; ii < bin_size - 1; ++ii)
@@ -97,6 +98,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
                 // ---------------------------------------------------------------------
                 lb_j_old = bounds[j].lb;
                 ub_j_old = bounds[j].ub;
+                tag_j_old = col_tags[j];
                 if (ratio > 0)
                 {
                     // update lb
@@ -162,7 +164,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
                 set_col_to_substituted(k, col_tags + k, sub_cols_to_delete);
                 save_retrieval_parallel_col(postsolve_info, ub_j_old, lb_j_old,
                                             bounds[k].lb, bounds[k].ub, ratio, j, k,
-                                            col_tags[j], col_tags[k]);
+                                            tag_j_old, col_tags[k]);
             }
             else
             {
-- 
2.43.0


From b13a9837636f89d9ff71ed685f773c7ab39705de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 03/34] fix: free column singleton in a free row was retrieved
 as infinity

---
 src/explorers/StonCols.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/explorers/StonCols.c b/src/explorers/StonCols.c
index 5f07098..58fae41 100644
--- a/src/explorers/StonCols.c
+++ b/src/explorers/StonCols.c
@@ -465,8 +465,10 @@ process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
         }
         else
         {
+            // any row activity is optimal (the row might even be free)
             assert(ck == 0);
             new_side = (is_lhs_inf) ? *row->rhs : *row->lhs;
+            new_side = (is_lhs_inf && is_rhs_inf) ? 0.0 : new_side;
         }
 
         // substitute variable in objective and mark it as substituted
-- 
2.43.0


From cc6053ef6f9f2b25c97269156d3036d24dad01eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 04/34] fix: a column dual-fixed to infinity that occurs in a
 free row was retrieved as infinite

---
 src/core/Postsolver.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index 6e4bc03..4c9ccf8 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -180,6 +180,12 @@ static void retrieve_fix_col_inf(Solution *sol, const int *indices,
         cols = indices + counter + 1;
         counter += row_len + 1;
 
+        // a free row imposes no restriction on the column
+        if (IS_ABS_INF(side))
+        {
+            continue;
+        }
+
         for (j = 0; j < row_len; ++j)
         {
             if (cols[j] == col)
@@ -210,7 +216,12 @@ static void retrieve_fix_col_inf(Solution *sol, const int *indices,
         }
     }
 
-    assert(!IS_ABS_INF(extreme_val));
+    // a free column that only appears in free rows can take any value
+    if (IS_ABS_INF(extreme_val))
+    {
+        extreme_val = 0.0;
+    }
+
     sol->x[col] = extreme_val;
     sol->z[col] = 0.0;
 }
@@ -713,8 +724,6 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
         iVec_append_array(info->indices, A->i + A->p[row].start,
                           (size_t) row_sizes[row]);
 
-        assert(!(HAS_TAG(row_tags[row], R_TAG_LHS_INF) &&
-                 HAS_TAG(row_tags[row], R_TAG_RHS_INF)));
         assert(HAS_TAG(row_tags[row], (R_TAG_LHS_INF | R_TAG_RHS_INF)));
     }
 
-- 
2.43.0


From 4debc15584a7b19998c27a7443c5410b777c115b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 05/34] fix: account for columns fixed in the same dual-fix
 pass when retrieving a column fixed to infinity

---
 src/core/Postsolver.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index 4c9ccf8..16ed1b2 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -695,7 +695,7 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
                                   const Constraints *constraints, double bound)
 {
     assert(pos_inf == 1 || pos_inf == -1);
-    int i, row;
+    int i, j, k, row;
     const Matrix *AT = constraints->AT;
     const Matrix *A = constraints->A;
     int *row_sizes = constraints->state->row_sizes;
@@ -717,6 +717,19 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
     {
         row = rows[i];
         side = (HAS_TAG(row_tags[row], R_TAG_LHS_INF)) ? rhs[row] : lhs[row];
+
+        // columns fixed to finite values in the same pass have not yet been
+        // removed from the row, but they are retrieved after this column
+        for (j = A->p[row].start; j < A->p[row].start + row_sizes[row]; ++j)
+        {
+            k = A->i[j];
+            if (HAS_TAG(constraints->col_tags[k], C_TAG_FIXED) &&
+                !IS_ABS_INF(constraints->bounds[k].lb))
+            {
+                side -= A->x[j] * constraints->bounds[k].lb;
+            }
+        }
+
         dVec_append(info->vals, side);
         dVec_append_array(info->vals, A->x + A->p[row].start,
                           (size_t) row_sizes[row]);
-- 
2.43.0


From d244c08e361d7c9bf7bf346542b0c3a52aecd182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 06/34] fix: doubleton substitution ignored conflicting bounds
 (infeasibility was lost)

---
 src/core/Presolver.c    |  2 ++
 src/explorers/DtonsEq.c | 41 ++++++++++++++++++++++++++++-------------
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 5adc344..6e7ee28 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -481,6 +481,8 @@ static inline PresolveStatus run_fast_explorers(Problem *prob, const Settings *s
     if (stgs->dton_eq)
     {
         status |= remove_dton_eq_rows(prob, stgs->max_shift);
+        RETURN_IF_NOT_UNCHANGED(status);
+
         // after removing doubleton equality rows, there can be new empty rows,
         // new singleton rows, and new empty columns
         status |= run_trivial_explorers(prob, stgs);
diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index 1f08315..3a4f955 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -33,6 +33,7 @@
 #include "State.h"
 #include "Timer.h"
 #include "Workspace.h"
+#include "glbopts.h"
 #include <string.h>
 
 /* Checks if there is sufficient space in AT for the substitution.
@@ -185,12 +186,15 @@ static inline void can_dton_be_eliminated(Matrix *AT, const double *row_vals,
     *subst = row_cols[*subst];
 }
 
-// lb and ub are bounds on variable that gets substituted
-static inline void modify_bounds(Constraints *constraints, int i, double aij,
-                                 double aik, double rhs, double lb_subst,
-                                 double ub_subst, int stay, ColTag col_tag_subst)
+// lb and ub are bounds on variable that gets substituted. Returns INFEASIBLE if
+// they are incompatible with the bounds of the variable that stays.
+static inline PresolveStatus modify_bounds(Constraints *constraints, int i,
+                                           double aij, double aik, double rhs,
+                                           double lb_subst, double ub_subst,
+                                           int stay, ColTag col_tag_subst)
 {
     assert(aij != 0 && aik != 0);
+    PresolveStatus status = UNCHANGED;
     bool same_sign = (aik * aij > 0.0);
 
     if (same_sign)
@@ -198,18 +202,20 @@ static inline void modify_bounds(Constraints *constraints, int i, double aij,
         if (!HAS_TAG(col_tag_subst, C_TAG_LB_INF))
         {
             double new_ub_cand = (rhs - aik * lb_subst) / aij;
-            update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK);
+            status |=
+                update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK);
 
             if (HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
             {
-                return;
+                return status;
             }
         }
 
         if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
         {
             double new_lb_cand = (rhs - aik * ub_subst) / aij;
-            update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK);
+            status |=
+                update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK);
         }
     }
     else
@@ -217,20 +223,24 @@ static inline void modify_bounds(Constraints *constraints, int i, double aij,
         if (!HAS_TAG(col_tag_subst, C_TAG_LB_INF))
         {
             double new_lb_cand = (rhs - aik * lb_subst) / aij;
-            update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK);
+            status |=
+                update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK);
 
             if (HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
             {
-                return;
+                return status;
             }
         }
 
         if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
         {
             double new_ub_cand = (rhs - aik * ub_subst) / aij;
-            update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK);
+            status |=
+                update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK);
         }
     }
+
+    return status;
 }
 
 #ifndef TESTING
@@ -701,8 +711,12 @@ static PresolveStatus remove_dton_eq_rows__(Problem *prob, int max_shift_per_row
 
         // transfer bounds to variable that stays and skip the reduction
         // if the variable that stays was fixed because of the bound change
-        modify_bounds(constraints, i, aij, aik, *row.rhs, bounds[k].lb, bounds[k].ub,
-                      j, col_tags[k]);
+        if (modify_bounds(constraints, i, aij, aik, *row.rhs, bounds[k].lb,
+                          bounds[k].ub, j, col_tags[k]) == INFEASIBLE)
+        {
+            AT->nnz = A->nnz;
+            return INFEASIBLE;
+        }
 
         if (HAS_TAG(col_tags[j], C_TAG_INACTIVE))
         {
@@ -751,6 +765,7 @@ PresolveStatus remove_dton_eq_rows(Problem *prob, int max_shift_per_row)
     while ((*dton_rows)->len > 0)
     {
         PresolveStatus temp = remove_dton_eq_rows__(prob, max_shift_per_row);
+        RETURN_IF_INFEASIBLE(temp);
 
         if (temp != REDUCED)
         {
@@ -767,6 +782,6 @@ PresolveStatus remove_dton_eq_rows(Problem *prob, int max_shift_per_row)
 
     DEBUG(verify_problem_up_to_date(prob->constraints));
 
-    // always return UNCHANGED because this function can't detect infeas/unbnd.
+    // always return UNCHANGED if the problem was not detected to be infeasible
     return UNCHANGED;
 }
-- 
2.43.0


From adfa50e691bf8c36d566a4eaff3c6f30305a05df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 07/34] fix: recompute both activities when the last infinite
 contribution to each vanishes

---
 src/core/Activity.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/Activity.c b/src/core/Activity.c
index 49c7a8f..63fb92d 100644
--- a/src/core/Activity.c
+++ b/src/core/Activity.c
@@ -704,18 +704,20 @@ Altered_Activity update_activity_coeff_change(Activity *act, double lb, double u
     }
 #endif
 
-    // recompute from scratch if necessary
+    // recompute from scratch if necessary (possibly both activities)
+    Altered_Activity altered = 0;
+
     if (act->n_inf_min == 0 && n_inf_min_before == 1)
     {
-        return MIN_ALTERED_RECOMPUTE;
+        altered |= MIN_ALTERED_RECOMPUTE;
     }
 
     if (act->n_inf_max == 0 && n_inf_max_before == 1)
     {
-        return MAX_ALTERED_RECOMPUTE;
+        altered |= MAX_ALTERED_RECOMPUTE;
     }
 
-    return NO_RECOMPUTE;
+    return (altered == 0) ? NO_RECOMPUTE : altered;
 }
 
 void remove_finite_lb_from_activities(const ConstColView *col, Activity *acts,
-- 
2.43.0


From a29990ba61ef5114271bfe20c16953106140b05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 08/34] fix: columns with close but unequal bounds were fixed
 despite a non-negligible activity error

---
 src/explorers/SimpleReductions.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/explorers/SimpleReductions.c b/src/explorers/SimpleReductions.c
index 36c4d39..a85303f 100644
--- a/src/explorers/SimpleReductions.c
+++ b/src/explorers/SimpleReductions.c
@@ -29,6 +29,7 @@
 #include "Problem.h"
 #include "RowColViews.h"
 #include "State.h"
+#include "utils.h"
 
 void delete_fixed_cols_from_problem(Problem *prob)
 {
@@ -698,6 +699,20 @@ PresolveStatus remove_variables_with_close_bounds(Problem *prob)
                 continue;
             }
 
+            // bounds that are close but not equal may stem from propagation,
+            // which relaxes the bounds it derives. Fixing such a variable at
+            // one of its bounds perturbs the activities by up to the
+            // gap times the largest coefficient, so (as in the propagation)
+            // we only fix it if this is negligible.
+            const Matrix *AT = constraints->AT;
+            if ((bounds[ii].ub - bounds[ii].lb) *
+                    get_max_abs(AT->x + AT->p[ii].start,
+                                (size_t) (AT->p[ii].end - AT->p[ii].start)) >
+                FEAS_TOL)
+            {
+                continue;
+            }
+
             // no need to check return value since bounds are equal
             fix_col(constraints, (int) ii, bounds[ii].lb, c[ii]);
         }
-- 
2.43.0


From b38cf41698491d79290bb4770daa9d3a70685a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 09/34] fix: parallel equality and inequality rows were
 compared without tolerance (feasible problems declared infeasible)

---
 src/explorers/Parallel_rows.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index f29c8b9..e928851 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -441,12 +441,16 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
         {
             bool infeas_rhs =
                 !is_rhs_inf_other_row &&
-                ((ratio > 0 && remaining_row_new_rhs > other_row_rhs_scaled) ||
-                 (ratio < 0 && remaining_row_new_rhs < other_row_rhs_scaled));
+                ((ratio > 0 &&
+                  IS_GT_FEAS_TOL(remaining_row_new_rhs, other_row_rhs_scaled)) ||
+                 (ratio < 0 &&
+                  IS_LT_FEAS_TOL(remaining_row_new_rhs, other_row_rhs_scaled)));
             bool infeas_lhs =
                 !is_lhs_inf_other_row &&
-                ((ratio > 0 && remaining_row_new_rhs < other_row_lhs_scaled) ||
-                 (ratio < 0 && remaining_row_new_rhs > other_row_lhs_scaled));
+                ((ratio > 0 &&
+                  IS_LT_FEAS_TOL(remaining_row_new_rhs, other_row_lhs_scaled)) ||
+                 (ratio < 0 &&
+                  IS_GT_FEAS_TOL(remaining_row_new_rhs, other_row_lhs_scaled)));
 
             if (infeas_rhs || infeas_lhs)
             {
-- 
2.43.0


From 576a4d0035bee4d6e27bb5189f5fbf403e66079b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 10/34] fix: parallel rows lost tightened sides when an
 equality row followed two inequality rows (infeasibility was hidden)

---
 src/explorers/Parallel_rows.c | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index e928851..a95d411 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -389,6 +389,18 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
     // ------------------------------------------------------------------------
     bool is_remaining_row_eq, is_rhs_inf_remaining_row, is_lhs_inf_remaining_row;
     int remaining_row_idx = bin[0];
+
+    // if the bin contains an equality row it remains, so that all other rows
+    // are compared to it
+    for (int i = 0; i < bin_size; ++i)
+    {
+        if (HAS_TAG(row_tags[bin[i]], R_TAG_EQ))
+        {
+            remaining_row_idx = bin[i];
+            break;
+        }
+    }
+
     is_remaining_row_eq = HAS_TAG(row_tags[remaining_row_idx], R_TAG_EQ);
     is_rhs_inf_remaining_row = HAS_TAG(row_tags[remaining_row_idx], R_TAG_RHS_INF);
     is_lhs_inf_remaining_row = HAS_TAG(row_tags[remaining_row_idx], R_TAG_LHS_INF);
@@ -396,25 +408,16 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
     remaining_row_new_lhs = lhs[remaining_row_idx];
     remaining_row_coeff = A->x[A->p[remaining_row_idx].start];
 
-    for (int i = 1; i < bin_size; ++i)
+    for (int i = 0; i < bin_size; ++i)
     {
         int other_row_idx = bin[i];
-        bool is_other_row_eq = HAS_TAG(row_tags[other_row_idx], R_TAG_EQ);
-
-        if (!is_remaining_row_eq && is_other_row_eq)
+        if (other_row_idx == remaining_row_idx)
         {
-            // swap(remaining_row, other_row)
-            int temp = remaining_row_idx;
-            remaining_row_idx = other_row_idx;
-            other_row_idx = temp;
-
-            is_remaining_row_eq = true;
-            is_other_row_eq = false;
-            remaining_row_new_rhs = rhs[remaining_row_idx];
-            remaining_row_new_lhs = lhs[remaining_row_idx];
-            remaining_row_coeff = A->x[A->p[remaining_row_idx].start];
+            continue;
         }
 
+        bool is_other_row_eq = HAS_TAG(row_tags[other_row_idx], R_TAG_EQ);
+
         assert(!(is_other_row_eq && !is_remaining_row_eq));
 
         other_row_coeff = A->x[A->p[other_row_idx].start];
-- 
2.43.0


From 8dff9a219a9e0e88efd4d17402471af4f773852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 11/34] fix: rounding residue of a cancelled cost made bounded
 problems be declared unbounded

---
 src/core/Problem.c      | 9 +++++++++
 src/explorers/DtonsEq.c | 8 ++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/core/Problem.c b/src/core/Problem.c
index f9e792c..1ae2b9a 100644
--- a/src/core/Problem.c
+++ b/src/core/Problem.c
@@ -20,6 +20,7 @@
 #include "Constraints.h"
 #include "Matrix.h"
 #include "Memory_wrapper.h"
+#include "Numerics.h"
 #include "State.h"
 #include "Workspace.h"
 #include "utils.h"
@@ -103,7 +104,15 @@ void sub_var_in_obj(Objective *obj, const double *vals, const int *cols, int len
     double ratio = obj->c[k] / aik;
     for (int i = 0; i < len; ++i)
     {
+        double old_cost = obj->c[cols[i]];
         obj->c[cols[i]] -= ratio * vals[i];
+
+        // a cost that cancels up to rounding errors is zero (otherwise the sign
+        // of the rounding error can make the problem look unbounded)
+        if (ABS(obj->c[cols[i]]) <= ZERO_TOL * ABS(old_cost))
+        {
+            obj->c[cols[i]] = 0.0;
+        }
     }
 
     obj->offset += rhs * ratio;
diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index 3a4f955..a79a850 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -380,7 +380,15 @@ static inline
 static inline void subst_col_in_obj_dton(Objective *obj, int stay, int subst,
                                          double aik, double aij, double rhs)
 {
+    double old_cost = obj->c[stay];
     obj->c[stay] -= (aij / aik) * obj->c[subst];
+
+    // a cost that cancels up to rounding errors is zero
+    if (ABS(obj->c[stay]) <= ZERO_TOL * ABS(old_cost))
+    {
+        obj->c[stay] = 0.0;
+    }
+
     obj->offset += (rhs / aik) * obj->c[subst];
 }
 
-- 
2.43.0


From 8ee27445c9a6eecd4bde6d9f8569cf564a20d496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 12/34] fix: wrong sign of the multiplier of an inequality
 turned into an equality by a singleton column

---
 src/explorers/StonCols.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/explorers/StonCols.c b/src/explorers/StonCols.c
index 58fae41..7eece99 100644
--- a/src/explorers/StonCols.c
+++ b/src/explorers/StonCols.c
@@ -671,6 +671,17 @@ PresolveStatus remove_ston_cols__(Problem *prob)
                 &row_view, &col_view, prob->obj, Aik, impl_free_from_above,
                 impl_free_from_below, acts + i, locks, rows_to_delete, A_nnz, bounds,
                 ston_rows, dton_rows, postsolve_info);
+
+            // If the inequality was turned into an equality we must eliminate
+            // the column right away. Otherwise another singleton column in the
+            // row could be eliminated using the equality, and nothing would
+            // guarantee that the multiplier of the original inequality gets the
+            // right sign.
+            if (HAS_TAG(row_tags[i], R_TAG_EQ) &&
+                !HAS_TAG(row_tags[i], R_TAG_INACTIVE))
+            {
+                kk--;
+            }
         }
     }
 
-- 
2.43.0


From e52921f1b73682d3ed717b88edfcd85c492ce721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 13/34] fix: explorers kept running on a half-updated problem
 after it was found infeasible or unbounded

---
 src/core/Presolver.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 6e7ee28..2a3aadc 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -435,6 +435,7 @@ static inline PresolveStatus run_trivial_explorers(Problem *prob,
         //   and empty columns (if rows are marked as inactive due to a variable
         //   being set to inf)
         status |= remove_empty_cols(prob);
+        RETURN_IF_UNBNDORINFEAS(status);
         status |= simple_dual_fix(prob);
         RETURN_IF_UNBNDORINFEAS(status);
     }
@@ -471,11 +472,13 @@ static inline PresolveStatus run_fast_explorers(Problem *prob, const Settings *s
     if (stgs->ston_cols)
     {
         status |= remove_ston_cols(prob);
+        RETURN_IF_NOT_UNCHANGED(status);
 
         // after removing singleton columns, there can be new empty columns
         // and singleton rows, but no empty rows
         assert(prob->constraints->state->empty_rows->len == 0);
         status |= run_trivial_explorers(prob, stgs);
+        RETURN_IF_NOT_UNCHANGED(status);
     }
 
     if (stgs->dton_eq)
@@ -513,7 +516,9 @@ run_medium_explorers(Problem *prob, const Settings *stgs, PresolveStats *stats)
 
         // the actual reduction
         status |= check_activities(prob);
+        RETURN_IF_NOT_UNCHANGED(status);
         status |= propagate_primal(prob, stgs->finite_bound_tightening);
+        RETURN_IF_INFEASIBLE(status);
 
         // after dom prop propagation there can be new empty and ston rows
         status |= run_trivial_explorers(prob, stgs);
@@ -559,9 +564,9 @@ run_medium_explorers(Problem *prob, const Settings *stgs, PresolveStats *stats)
         assert(prob->constraints->state->empty_rows->len == 0);
         assert(prob->constraints->state->empty_cols->len == 0);
         status |= run_trivial_explorers(prob, stgs);
-        assert(prob->constraints->state->ston_rows->len == 0);
         assert(!(status & REDUCED));
         RETURN_IF_NOT_UNCHANGED(status);
+        assert(prob->constraints->state->ston_rows->len == 0);
 
         // stats
         stats->nnz_removed_parallel_cols += nnz_before - *nnz;
-- 
2.43.0


From 97c4b1427183a381241984c957fd6dac361e1286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 14/34] fix: doubleton substitution removed the wrong
 coefficient when the new coefficient is negligible

---
 src/core/Matrix.c       |  9 +++------
 src/explorers/DtonsEq.c | 16 +++++++++++-----
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index 3736b02..c7f89c9 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -484,13 +484,10 @@ double insert_or_update_coeff(Matrix *A, int row, int col, double val, int *row_
             *row_size += 1;
         }
     }
-    // if the new value is zero, we just have to shift
-    else
+    // if the new value is zero, we just have to shift (if the coefficient
+    // exists)
+    else if (insertion != end && A->i[insertion] == col)
     {
-        // we only expect that the new value is zero if the coefficient
-        // already exists
-        assert(A->i[insertion] == col);
-
         // we only have to shift values if the zero is not in the end
         if (insertion != end - 1)
         {
diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index a79a850..de11355 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -331,11 +331,17 @@ static inline
     // -------------------------------------------------------------------
     if (ABS(new_val) <= ZERO_TOL)
     {
-        len = (size_t) (end - insertion - 1);
-        memmove(A->x + insertion, A->x + insertion + 1, len * sizeof(double));
-        memmove(A->i + insertion, A->i + insertion + 1, len * sizeof(int));
-        end -= 1;
-        diff_row_size += 1;
+        // the coefficient does not exist if a tiny value would be inserted
+        if (insertion != end && A->i[insertion] == j)
+        {
+            len = (size_t) (end - insertion - 1);
+            memmove(A->x + insertion, A->x + insertion + 1, len * sizeof(double));
+            memmove(A->i + insertion, A->i + insertion + 1, len * sizeof(int));
+            end -= 1;
+            diff_row_size += 1;
+        }
+
+        old_and_new_coeff.new_coeff_stay = 0.0;
     }
     // -----------------------------------------------------------------
     // Insert the new value. If it exists or should be inserted in
-- 
2.43.0


From 0e2a53e53527486e96cf6690ec5cd8426ae45abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 15/34] fix: new_presolver read one element past the end of the
 row pointer array

---
 src/core/Matrix.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index c7f89c9..da87f5a 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -107,12 +107,16 @@ Matrix *matrix_new_no_extra_space(const double *Ax, const int *Ai, const int *Ap
     memcpy(A->x, Ax, nnz * sizeof(double));
     memcpy(A->i, Ai, nnz * sizeof(int));
 
-    for (int i = 0; i <= n_rows; ++i)
+    for (int i = 0; i < n_rows; ++i)
     {
         A->p[i].start = Ap[i];
         A->p[i].end = Ap[i + 1];
     }
 
+    // Ap has n_rows + 1 entries
+    A->p[n_rows].start = Ap[n_rows];
+    A->p[n_rows].end = Ap[n_rows];
+
     return A;
 }
 
-- 
2.43.0


From 4c13109ee133b3b25250e77bb9c210187b4370f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 16/34] fix: removing a coefficient read one element past the
 end of the row

---
 src/core/Matrix.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index da87f5a..b601b2d 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -520,8 +520,12 @@ void remove_coeff(RowView *row, int col)
             shift = 1;
         }
 
-        row->vals[i] = row->vals[i + shift];
-        row->cols[i] = row->cols[i + shift];
+        // there is nothing to shift into the last position
+        if (i + shift < len)
+        {
+            row->vals[i] = row->vals[i + shift];
+            row->cols[i] = row->cols[i + shift];
+        }
     }
 
     assert(shift != 0);
-- 
2.43.0


From 620679112f191e09dae2a924a849b0edc6054d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 17/34] fix: undefined conversion of negative doubles to
 unsigned in the hash of parallel rows

---
 src/explorers/Parallel_rows.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index a95d411..d8bc5e9 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -75,7 +75,9 @@ static inline uint32_t hash_double_array_with_scale(const double *arr, int size)
     uint32_t hash = 5381;
     for (int i = 0; i < size; i++)
     {
-        uint32_t scaled = (uint32_t) (round((arr[i] * scale) * INV_PRECISION));
+        // (converting a negative double directly to unsigned is undefined)
+        uint32_t scaled =
+            (uint32_t) (int64_t) (round((arr[i] * scale) * INV_PRECISION));
         hash = ((hash << 5) + hash) + scaled;
     }
 
-- 
2.43.0


From ca0b225f4f46e2d7aa2b80e6fe9a078dc8b7880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:11 +0000
Subject: [PATCH 18/34] fix: bound updaters were called through an incompatible
 function pointer type

---
 src/explorers/Primal_propagation.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/explorers/Primal_propagation.c b/src/explorers/Primal_propagation.c
index a77fb97..b1d2880 100644
--- a/src/explorers/Primal_propagation.c
+++ b/src/explorers/Primal_propagation.c
@@ -33,8 +33,9 @@
 static PresolveStatus update_lb_within_propagation(double new_lb, double *lb,
                                                    double ub, int col, ColTag *cTag,
                                                    Problem *prob,
-                                                   bool *finite_bound_tightening)
+                                                   void *arg1)
 {
+    const bool *finite_bound_tightening = (const bool *) arg1;
     assert(!IS_ABS_INF(new_lb) && !HAS_TAG(*cTag, C_TAG_INACTIVE));
     assert((HAS_TAG(*cTag, C_TAG_LB_INF) || new_lb >= *lb) && !IS_HUGE(new_lb));
 
@@ -109,8 +110,9 @@ static PresolveStatus update_lb_within_propagation(double new_lb, double *lb,
 static PresolveStatus update_ub_within_propagation(double new_ub, double *ub,
                                                    double lb, int col, ColTag *cTag,
                                                    Problem *prob,
-                                                   bool *finite_bound_tightening)
+                                                   void *arg1)
 {
+    const bool *finite_bound_tightening = (const bool *) arg1;
     assert(!IS_ABS_INF(new_ub) && !HAS_TAG(*cTag, C_TAG_INACTIVE));
     assert((HAS_TAG(*cTag, C_TAG_UB_INF) || new_ub <= *ub) && !IS_HUGE(new_ub));
 
@@ -699,8 +701,7 @@ PresolveStatus propagate_primal(Problem *prob, bool finite_bound_tightening)
 
             status = bound_tightening_single_row(
                 &row, acts + i, prob, bounds, col_tags, &finite_bound_tightening,
-                (BoundUpdater) update_lb_within_propagation,
-                (BoundUpdater) update_ub_within_propagation);
+                update_lb_within_propagation, update_ub_within_propagation);
 
             if (HAS_STATUS(status, INFEASIBLE))
             {
-- 
2.43.0


From 8e19c73d09da81890c26b4127abd950819d65174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 19/34] fix: appending an empty array passed a null pointer to
 memcpy

---
 include/data_structures/Vec_macros.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/data_structures/Vec_macros.h b/include/data_structures/Vec_macros.h
index f71b6ed..42d7ebe 100644
--- a/include/data_structures/Vec_macros.h
+++ b/include/data_structures/Vec_macros.h
@@ -95,6 +95,11 @@
     static inline void TYPE_NAME##Vec_append_array(TYPE_NAME##Vec *vec,             \
                                                    const TYPE *values, size_t n)    \
     {                                                                               \
+        if (n == 0)                                                                 \
+        {                                                                           \
+            return; /* values may be NULL */                                        \
+        }                                                                           \
+                                                                                    \
         if (vec->len + n > vec->capacity)                                           \
         {                                                                           \
             size_t new_capacity = vec->capacity > 0 ? vec->capacity : 1;            \
-- 
2.43.0


From eecdd989c35bdc5c132984fd84282e00247701af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 20/34] fix: integrality test converted doubles outside the
 range of int to int

---
 include/core/Numerics.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/core/Numerics.h b/include/core/Numerics.h
index 215fcce..d62d31d 100644
--- a/include/core/Numerics.h
+++ b/include/core/Numerics.h
@@ -19,6 +19,7 @@
 #ifndef CORE_NUMERICS_H
 #define CORE_NUMERICS_H
 
+#include <limits.h>
 #include <math.h>
 
 #define FEAS_TOL 1e-6
@@ -43,7 +44,8 @@
 #define ABS(x) (((x) < 0) ? -(x) : (x))
 #endif
 
-#define IS_INTEGRAL(x) ((x) == (int) (x))
+// (the cast is undefined if the value does not fit)
+#define IS_INTEGRAL(x) (ABS(x) <= INT_MAX && (x) == (int) (x))
 
 #define IS_EQUAL_FEAS_TOL(x, y) (ABS((x) - (y)) <= FEAS_TOL)
 #define IS_ZERO_FEAS_TOL(x) (ABS(x) <= FEAS_TOL)
-- 
2.43.0


From 86a179394ed916ca814df0d70d6fe437b15d8748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 21/34] fix: independent presolvers running in different
 threads raced on global sort keys

---
 include/core/pslp_thread.h         | 7 +++++++
 src/explorers/Parallel_rows.c      | 5 +++--
 src/explorers/Primal_propagation.c | 3 ++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/core/pslp_thread.h b/include/core/pslp_thread.h
index e0ac373..4812def 100644
--- a/include/core/pslp_thread.h
+++ b/include/core/pslp_thread.h
@@ -57,4 +57,11 @@ static inline int ps_thread_join(ps_thread_t *thread, void **retval)
 
 #endif /* Windows / POSIX */
 
+/* storage class of variables that must not be shared between threads */
+#if defined(_MSC_VER)
+#define PSLP_THREAD_LOCAL __declspec(thread)
+#else
+#define PSLP_THREAD_LOCAL __thread
+#endif
+
 #endif /* PSLP_THREAD_H */
diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index d8bc5e9..02558e3 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -28,14 +28,15 @@
 #include "Workspace.h"
 #include "iVec.h"
 #include "limits.h" // for INT_MAX
+#include "pslp_thread.h"
 #include "utils.h"
 #include <PSLP_warnings.h>
 #include <math.h> // For round()
 #include <stdint.h>
 
 // global variables needed for qsort
-static int *global_sparsity_IDs;
-static int *global_coeff_hashes;
+static PSLP_THREAD_LOCAL int *global_sparsity_IDs;
+static PSLP_THREAD_LOCAL int *global_coeff_hashes;
 
 // djb2 hash function
 static inline uint32_t hash_int_array(const int *arr, int size)
diff --git a/src/explorers/Primal_propagation.c b/src/explorers/Primal_propagation.c
index b1d2880..11d4d22 100644
--- a/src/explorers/Primal_propagation.c
+++ b/src/explorers/Primal_propagation.c
@@ -28,6 +28,7 @@
 #include "SimpleReductions.h"
 #include "State.h"
 #include "Workspace.h"
+#include "pslp_thread.h"
 #include "utils.h"
 
 static PresolveStatus update_lb_within_propagation(double new_lb, double *lb,
@@ -784,7 +785,7 @@ PresolveStatus propagate_primal(Problem *prob, bool finite_bound_tightening)
 }
 
 // Static variable to hold col_sizes (for qsort)
-static const int *global_col_sizes;
+static PSLP_THREAD_LOCAL const int *global_col_sizes;
 
 int compare_col_len(const void *a, const void *b)
 {
-- 
2.43.0


From 47b8f6487818bda6fcda4332baf29b6606737cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:41 +0000
Subject: [PATCH 22/34] fix: null dereference when the workspace cannot be
 allocated

---
 include/data_structures/Vec_macros.h |  1 +
 src/core/Workspace.c                 | 16 +++++++++++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/data_structures/Vec_macros.h b/include/data_structures/Vec_macros.h
index 42d7ebe..b0563eb 100644
--- a/include/data_structures/Vec_macros.h
+++ b/include/data_structures/Vec_macros.h
@@ -62,6 +62,7 @@
                                                                                     \
     static inline void TYPE_NAME##Vec_free(TYPE_NAME##Vec *vec)                     \
     {                                                                               \
+        RETURN_IF_NULL(vec);                                                        \
         PS_FREE(vec->data);                                                         \
         PS_FREE(vec);                                                               \
     }                                                                               \
diff --git a/src/core/Workspace.c b/src/core/Workspace.c
index ffd3d46..258ba50 100644
--- a/src/core/Workspace.c
+++ b/src/core/Workspace.c
@@ -36,8 +36,11 @@ Work *new_work(size_t n_rows, size_t n_cols)
         (int *) ps_calloc(MAX(n_rows, n_cols), sizeof(int));
     work->int_vec = iVec_new(INT_VEC_INITIALIZATION);
     work->mappings = (Mapping *) ps_malloc(1, sizeof(Mapping));
-    work->mappings->cols = (int *) ps_malloc(n_cols, sizeof(int));
-    work->mappings->rows = (int *) ps_malloc(n_rows, sizeof(int));
+    if (work->mappings)
+    {
+        work->mappings->cols = (int *) ps_malloc(n_cols, sizeof(int));
+        work->mappings->rows = (int *) ps_malloc(n_rows, sizeof(int));
+    }
 
     if (!work->iwork_n_cols || !work->iwork_n_rows ||
         !work->iwork1_max_nrows_ncols || !work->iwork2_max_nrows_ncols ||
@@ -63,8 +66,11 @@ void free_work(Work *work)
     PS_FREE(work->iwork1_max_nrows_ncols);
     PS_FREE(work->iwork2_max_nrows_ncols);
     iVec_free(work->int_vec);
-    PS_FREE(work->mappings->cols);
-    PS_FREE(work->mappings->rows);
-    PS_FREE(work->mappings);
+    if (work->mappings)
+    {
+        PS_FREE(work->mappings->cols);
+        PS_FREE(work->mappings->rows);
+        PS_FREE(work->mappings);
+    }
     PS_FREE(work);
 }
-- 
2.43.0


From 20cdaa81003fc2f2f39b09b8a08518fe5ab86a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 23/34] fix: allocation failures in new_state and
 postsolve_info_new dereferenced null or leaked

---
 src/core/Postsolver.c | 9 +++++----
 src/core/State.c      | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index 16ed1b2..26b311b 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -38,6 +38,7 @@
 PostsolveInfo *postsolve_info_new(size_t n_rows, size_t n_cols)
 {
     PostsolveInfo *info = (PostsolveInfo *) ps_malloc(1, sizeof(PostsolveInfo));
+    RETURN_PTR_IF_NULL(info, NULL);
 
     size_t init_size;
 
@@ -55,10 +56,10 @@ PostsolveInfo *postsolve_info_new(size_t n_rows, size_t n_cols)
     info->type = u16Vec_new(init_size);
     if (!info->starts || !info->indices || !info->vals || !info->type)
     {
-        PS_FREE(info->starts);
-        PS_FREE(info->indices);
-        PS_FREE(info->vals);
-        PS_FREE(info->type);
+        iVec_free(info->starts);
+        iVec_free(info->indices);
+        dVec_free(info->vals);
+        u16Vec_free(info->type);
         PS_FREE(info);
         return NULL;
     }
diff --git a/src/core/State.c b/src/core/State.c
index 408cca5..06c6fd3 100644
--- a/src/core/State.c
+++ b/src/core/State.c
@@ -88,8 +88,9 @@ State *new_state(int *row_sizes, int *col_sizes, Lock *col_locks, size_t n_rows,
     data->postsolve_info = postsolve_info_new(n_rows, n_cols);
 
     if (!data->ston_rows || !data->ston_cols || !data->dton_rows ||
-        !data->empty_cols || !data->empty_rows || !data->fixed_cols_to_delete ||
-        !data->sub_cols_to_delete || !data->rows_to_delete || !data->postsolve_info)
+        !data->empty_cols || !data->empty_rows || !data->updated_activities ||
+        !data->fixed_cols_to_delete || !data->sub_cols_to_delete ||
+        !data->rows_to_delete || !data->postsolve_info)
     {
         free_state(data);
         return NULL;
-- 
2.43.0


From fd83f6ba23abbecd458fabd48e3877e244f2594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 24/34] fix: failure to create the initialization thread or to
 allocate its arrays was not handled

---
 src/core/Presolver.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 2a3aadc..895e368 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -118,6 +118,7 @@ static void *init_thread_func(void *arg)
     ParallelInitData *data = (ParallelInitData *) arg;
 
     data->row_tags = new_rowtags(data->lhs_copy, data->rhs_copy, data->n_rows);
+    RETURN_PTR_IF_NULL(data->row_tags, NULL);
 
     for (int i = 0; i < data->n_cols; i++)
     {
@@ -274,25 +275,31 @@ Presolver *new_presolver(const double *Ax, const int *Ai, const int *Ap, size_t
                                       ubs,  lhs_copy, rhs_copy, bounds,   col_tags,
                                       NULL, NULL,     NULL,     row_sizes};
 
-    ps_thread_create(&thread_id, NULL, init_thread_func, &parallel_data);
+    bool has_thread =
+        ps_thread_create(&thread_id, NULL, init_thread_func, &parallel_data) == 0;
+    if (!has_thread)
+    {
+        // could not create a thread, do the work in this thread
+        init_thread_func(&parallel_data);
+    }
 
     // Main thread: Transpose A and count rows
     AT = transpose(A, work->iwork_n_cols);
-    if (!AT)
+    if (AT)
     {
-        ps_thread_join(&thread_id, NULL);
-        goto cleanup;
+        count_rows(AT, col_sizes);
     }
-    count_rows(AT, col_sizes);
 
     // sync threads
-    ps_thread_join(&thread_id, NULL);
+    if (has_thread)
+    {
+        ps_thread_join(&thread_id, NULL);
+    }
 
     row_tags = parallel_data.row_tags;
-    if (!row_tags) goto cleanup;
     locks = parallel_data.locks;
     activities = parallel_data.activities;
-    if (!locks || !activities) goto cleanup;
+    if (!AT || !row_tags || !locks || !activities) goto cleanup;
 
     // ---------------------------------------------------------------------------
     //  Initialize internal data and constraints
-- 
2.43.0


From 576b923fa7e85237d1b60d81428cc4620b0a4182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:45 +0000
Subject: [PATCH 25/34] fix: double frees and uninitialized members when
 new_presolver runs out of memory

---
 src/core/Presolver.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 895e368..a49eb38 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -63,6 +63,7 @@ enum Complexity
 PresolveStats *init_stats(size_t n_rows, size_t n_cols, size_t nnz)
 {
     PresolveStats *stats = (PresolveStats *) ps_calloc(1, sizeof(PresolveStats));
+    RETURN_PTR_IF_NULL(stats, NULL);
     stats->n_rows_original = n_rows;
     stats->n_cols_original = n_cols;
     stats->nnz_original = nnz;
@@ -312,24 +313,44 @@ Presolver *new_presolver(const double *Ax, const int *Ai, const int *Ap, size_t
         constraints_new(A, AT, lhs_copy, rhs_copy, bounds, data, row_tags, col_tags);
     if (!constraints) goto cleanup;
 
+    // the constraints own these now (and free them)
+    A = AT = NULL;
+    lhs_copy = rhs_copy = NULL;
+    bounds = NULL;
+    row_tags = NULL;
+    col_tags = NULL;
+
     // ---------------------------------------------------------------------------
     //             Allocate the actual presolver
     // ---------------------------------------------------------------------------
-    presolver = (Presolver *) ps_malloc(1, sizeof(Presolver));
+    presolver = (Presolver *) ps_calloc(1, sizeof(Presolver));
     obj = objective_new(c_copy);
     if (!presolver || !obj) goto cleanup;
+    c_copy = NULL; // owned by the objective
     presolver->stgs = stgs;
     presolver->prob = new_problem(constraints, obj);
-    presolver->stats = init_stats(A->m, A->n, nnz);
+    if (!presolver->prob) goto cleanup;
+
+    // the problem (and hence the presolver) owns these now
+    constraints = NULL;
+    obj = NULL;
+    data = NULL;
+    work = NULL;
+    locks = NULL;
+    activities = NULL;
+    row_sizes = col_sizes = NULL;
+
+    presolver->stats = init_stats(n_rows, n_cols, nnz);
     // presolver->stats->nnz_removed_trivial = nnz - A->nnz; due to clean_small_coeff
     presolver->reduced_prob =
         (PresolvedProblem *) ps_calloc(1, sizeof(PresolvedProblem));
-    DEBUG(run_debugger(constraints, false));
+    if (!presolver->stats || !presolver->reduced_prob) goto cleanup;
+    DEBUG(run_debugger(presolver->prob->constraints, false));
 
     // ---------------------------------------------------------------------------
     //           Allocate space for returning the solution
     // ---------------------------------------------------------------------------
-    presolver->sol = (Solution *) ps_malloc(1, sizeof(Solution));
+    presolver->sol = (Solution *) ps_calloc(1, sizeof(Solution));
     if (!presolver->sol) goto cleanup;
     presolver->sol->x = (double *) ps_malloc(n_cols, sizeof(double));
     presolver->sol->y = (double *) ps_malloc(n_rows, sizeof(double));
-- 
2.43.0


From e68cbd4e5711fa4c9c33e37c0c66fce5a839c313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 26/34] fix: messages were printed although verbose is false

---
 src/core/Presolver.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index a49eb38..eb8c8d4 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -388,7 +388,7 @@ cleanup:
 static inline bool update_termination(size_t nnz_after_cycle,
                                       size_t nnz_before_cycle, Complexity complexity,
                                       PresolveStatus status, double max_time,
-                                      Timer outer_timer)
+                                      Timer outer_timer, bool verbose)
 {
     if (HAS_STATUS(status, UNBNDORINFEAS))
     {
@@ -405,7 +405,11 @@ static inline bool update_termination(size_t nnz_after_cycle,
 
     if (GET_ELAPSED_SECONDS(outer_timer) >= max_time)
     {
-        printf("Maximum time limit of %.2f seconds reached.\n", max_time);
+        if (verbose)
+        {
+            printf("Maximum time limit of %.2f seconds reached.\n", max_time);
+        }
+
         return true;
     }
 
@@ -750,7 +754,7 @@ PresolveStatus run_presolver(Presolver *presolver)
 
         terminate =
             update_termination(nnz_after_cycle, nnz_before_cycle, curr_complexity,
-                               status, stgs->max_time, outer_timer);
+                               status, stgs->max_time, outer_timer, stgs->verbose);
 
         if (curr_complexity == MEDIUM)
         {
@@ -765,7 +769,11 @@ PresolveStatus run_presolver(Presolver *presolver)
     if (status != UNCHANGED)
     {
         // problem detected to be infeasible or unbounded
-        print_infeas_or_unbnd_message(status);
+        if (stgs->verbose)
+        {
+            print_infeas_or_unbnd_message(status);
+        }
+
         return status;
     }
 
-- 
2.43.0


From 3716c1c39a4708d964167f9e54fab74c2090bc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 27/34] Observation points for runtime verification (compiled
 in with PSLP_VERIF_HOOKS)

---
 include/core/verif_hooks.h | 17 +++++++++++++++++
 src/core/Presolver.c       | 14 ++++++++++++++
 2 files changed, 31 insertions(+)
 create mode 100644 include/core/verif_hooks.h

diff --git a/include/core/verif_hooks.h b/include/core/verif_hooks.h
new file mode 100644
index 0000000..44e1ae9
--- /dev/null
+++ b/include/core/verif_hooks.h
@@ -0,0 +1,17 @@
+/* Observation points for runtime verification. They are compiled in only if
+   PSLP_VERIF_HOOKS is defined; the observer must not modify the problem. */
+#ifndef PSLP_CORE_VERIF_HOOKS_H
+#define PSLP_CORE_VERIF_HOOKS_H
+
+#ifdef PSLP_VERIF_HOOKS
+struct Problem;
+extern void pslp_verif_point(const char *where, const struct Problem *prob);
+#define VERIF_POINT(where, prob) pslp_verif_point((where), (prob))
+#else
+#define VERIF_POINT(where, prob)                                                    \
+    do                                                                              \
+    {                                                                               \
+    } while (0)
+#endif
+
+#endif // PSLP_CORE_VERIF_HOOKS_H
diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index eb8c8d4..654dc6b 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -46,6 +46,7 @@
 #include "glbopts.h"
 #include "iVec.h"
 #include "pslp_thread.h"
+#include "verif_hooks.h"
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -364,6 +365,7 @@ Presolver *new_presolver(const double *Ax, const int *Ai, const int *Ap, size_t
 
     clock_gettime(CLOCK_MONOTONIC, &timer.end);
     presolver->stats->time_init = GET_ELAPSED_SECONDS(timer);
+    VERIF_POINT("init", presolver->prob);
 
     return presolver;
 
@@ -487,6 +489,7 @@ static inline PresolveStatus run_trivial_explorers(Problem *prob,
     assert(prob->constraints->state->ston_rows->len == 0);
     assert(prob->constraints->state->empty_rows->len == 0);
     assert(prob->constraints->state->empty_cols->len == 0);
+    VERIF_POINT("trivial", prob);
     return UNCHANGED;
 }
 
@@ -505,6 +508,7 @@ static inline PresolveStatus run_fast_explorers(Problem *prob, const Settings *s
     {
         status |= remove_ston_cols(prob);
         RETURN_IF_NOT_UNCHANGED(status);
+        VERIF_POINT("ston_cols", prob);
 
         // after removing singleton columns, there can be new empty columns
         // and singleton rows, but no empty rows
@@ -517,6 +521,7 @@ static inline PresolveStatus run_fast_explorers(Problem *prob, const Settings *s
     {
         status |= remove_dton_eq_rows(prob, stgs->max_shift);
         RETURN_IF_NOT_UNCHANGED(status);
+        VERIF_POINT("dton_eq", prob);
 
         // after removing doubleton equality rows, there can be new empty rows,
         // new singleton rows, and new empty columns
@@ -549,8 +554,10 @@ run_medium_explorers(Problem *prob, const Settings *stgs, PresolveStats *stats)
         // the actual reduction
         status |= check_activities(prob);
         RETURN_IF_NOT_UNCHANGED(status);
+        VERIF_POINT("check_activities", prob);
         status |= propagate_primal(prob, stgs->finite_bound_tightening);
         RETURN_IF_INFEASIBLE(status);
+        VERIF_POINT("propagation", prob);
 
         // after dom prop propagation there can be new empty and ston rows
         status |= run_trivial_explorers(prob, stgs);
@@ -572,6 +579,7 @@ run_medium_explorers(Problem *prob, const Settings *stgs, PresolveStats *stats)
         // the actual reduction (after removing parallel rows there can
         // be no new empty or ston rows so no need to run trivial presolvers)
         status |= remove_parallel_rows(prob->constraints);
+        VERIF_POINT("parallel_rows", prob);
         assert(prob->constraints->state->empty_rows->len == 0);
         assert(prob->constraints->state->ston_rows->len == 0);
         assert(!(status & REDUCED));
@@ -593,6 +601,7 @@ run_medium_explorers(Problem *prob, const Settings *stgs, PresolveStats *stats)
         // be no new empty rows or empty cols but might be new stonrows, probably
         // although that's rare but it does happen
         status |= remove_parallel_cols(prob);
+        VERIF_POINT("parallel_cols", prob);
         assert(prob->constraints->state->empty_rows->len == 0);
         assert(prob->constraints->state->empty_cols->len == 0);
         status |= run_trivial_explorers(prob, stgs);
@@ -724,6 +733,8 @@ PresolveStatus run_presolver(Presolver *presolver)
         nnz_before_reduction = A->nnz;
         status = run_trivial_explorers(prob, stgs);
 
+        VERIF_POINT("phase", prob);
+
         // run_trivial_explorers returns something else than UNCHANGED only
         // if the problem is detected to be infeasible or unbounded
         if (status != UNCHANGED)
@@ -751,6 +762,7 @@ PresolveStatus run_presolver(Presolver *presolver)
         }
 
         nnz_after_phase = A->nnz;
+        VERIF_POINT(curr_complexity == FAST ? "fast" : "medium", prob);
 
         terminate =
             update_termination(nnz_after_cycle, nnz_before_cycle, curr_complexity,
@@ -782,7 +794,9 @@ PresolveStatus run_presolver(Presolver *presolver)
         remove_redundant_bounds(prob->constraints);
     }
 
+    VERIF_POINT("final", prob);
     problem_clean(prob, true);
+    VERIF_POINT("clean", prob);
     DEBUG(run_debugger(prob->constraints, true));
     stats->n_rows_reduced = A->m;
     stats->n_cols_reduced = A->n;
-- 
2.43.0


From 6820956b246ac3f0380980c2c69062a7752deb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 28/34] fix: compare the costs of parallel columns in the units
 of both columns

---
 src/explorers/Parallel_cols.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/explorers/Parallel_cols.c b/src/explorers/Parallel_cols.c
index a06cb2b..8b401d9 100644
--- a/src/explorers/Parallel_cols.c
+++ b/src/explorers/Parallel_cols.c
@@ -86,8 +86,11 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
 
             // if column j and column k are parallel, remove column k
             // if you run into issues with parallel cols activated, try to
-            // change this
-            if (IS_EQUAL_FEAS_TOL(ck * aj_vals[0], cj * ak0))
+            // change this (the costs are compared in the units of both columns:
+            // an absolute test on the products would merge columns with small
+            // coefficients even if their costs are different)
+            if (ABS(ck * aj_vals[0] - cj * ak0) <=
+                FEAS_TOL * MIN(1.0, MIN(ABS(aj_vals[0]), ABS(ak0))))
             {
                 // mark that we must recount n_infs for rows in which column j
                 // appears in
-- 
2.43.0


From 9aafc0b46da8d4db31c47d2e84e218aeac56f9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:11 +0000
Subject: [PATCH 29/34] fix: bounds that cross within the tolerance were stored
 and exported crossed

---
 src/core/CoreTransformation.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/core/CoreTransformation.c b/src/core/CoreTransformation.c
index 8129a2d..4f741f5 100644
--- a/src/core/CoreTransformation.c
+++ b/src/core/CoreTransformation.c
@@ -155,6 +155,13 @@ PresolveStatus update_lb(Constraints *constraints, int col, double new_lb,
         return INFEASIBLE;
     }
 
+    // bounds may cross within the tolerance, but they must not be stored crossed
+    // (the presolver can stop before the variable is fixed)
+    if (!HAS_TAG(*col_tag, C_TAG_UB_INF) && new_lb > ub)
+    {
+        new_lb = ub;
+    }
+
     bool is_lb_inf = HAS_TAG(*col_tag, C_TAG_LB_INF);
 
     // update the lower bound if it is tighter
@@ -208,6 +215,13 @@ PresolveStatus update_ub(Constraints *constraints, int col, double new_ub,
         return INFEASIBLE;
     }
 
+    // bounds may cross within the tolerance, but they must not be stored crossed
+    // (the presolver can stop before the variable is fixed)
+    if (!HAS_TAG(*col_tag, C_TAG_LB_INF) && new_ub < lb)
+    {
+        new_ub = lb;
+    }
+
     bool is_ub_inf = HAS_TAG(*col_tag, C_TAG_UB_INF);
 
     // update the upper bound if it is tighter
-- 
2.43.0


From 7f49f941cc0f19b6eb1b70c3ca102f745994a7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:05 +0000
Subject: [PATCH 30/34] fix: double free of the objective when new_presolver
 cannot allocate the presolver

---
 src/core/Presolver.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 654dc6b..fac617d 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -326,8 +326,8 @@ Presolver *new_presolver(const double *Ax, const int *Ai, const int *Ap, size_t
     // ---------------------------------------------------------------------------
     presolver = (Presolver *) ps_calloc(1, sizeof(Presolver));
     obj = objective_new(c_copy);
+    if (obj) c_copy = NULL; // owned by the objective
     if (!presolver || !obj) goto cleanup;
-    c_copy = NULL; // owned by the objective
     presolver->stgs = stgs;
     presolver->prob = new_problem(constraints, obj);
     if (!presolver->prob) goto cleanup;
-- 
2.43.0


From f5fdb3199dbc6f0f41a0af251fbc4552dccdc1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:06 +0000
Subject: [PATCH 31/34] fix: new_presolver terminated the process when
 recording rows and columns ran out of memory

---
 src/core/State.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/core/State.c b/src/core/State.c
index 06c6fd3..1ed2463 100644
--- a/src/core/State.c
+++ b/src/core/State.c
@@ -73,6 +73,32 @@ State *new_state(int *row_sizes, int *col_sizes, Lock *col_locks, size_t n_rows,
     /* enable conversion compiler warnings */
     PSLP_DIAG_POP();
 
+    // --------------------------------------------------------------------------
+    //   count what is recorded below, so that recording it never has to
+    //   reallocate (a failed reallocation terminates the process)
+    // --------------------------------------------------------------------------
+    size_t n_empty_rows = 0, n_ston_rows = 0, n_dton_rows = 0, n_updated_acts = 0;
+    size_t n_empty_cols = 0, n_ston_cols = 0;
+    for (size_t i = 0; i < n_rows; ++i)
+    {
+        n_empty_rows += (row_sizes[i] == 0);
+        n_ston_rows += (row_sizes[i] == 1);
+        n_dton_rows += (row_sizes[i] == 2 && HAS_TAG(row_tags[i], R_TAG_EQ));
+        n_updated_acts +=
+            (activities[i].n_inf_min == 0 || activities[i].n_inf_max == 0);
+    }
+    for (size_t i = 0; i < n_cols; ++i)
+    {
+        n_empty_cols += (col_sizes[i] == 0);
+        n_ston_cols += (col_sizes[i] == 1);
+    }
+    len_empty_rows = MAX(len_empty_rows, n_empty_rows);
+    len_ston_rows = MAX(len_ston_rows, n_ston_rows);
+    len_dton_rows = MAX(len_dton_rows, n_dton_rows);
+    len_updated_act = MAX(len_updated_act, n_updated_acts);
+    len_empty_cols = MAX(len_empty_cols, n_empty_cols);
+    len_ston_cols = MAX(len_ston_cols, n_ston_cols);
+
     // --------------------------------------------------------------------------
     //                    allocate a bunch of vectors
     // --------------------------------------------------------------------------
-- 
2.43.0


From b6e85232e1cdff8f8db3f8a3632270bee0cf9588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 32/34] fix: the activities of a row kept part of the
 contribution of a dual-fixed column singleton

---
 src/explorers/StonCols.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/explorers/StonCols.c b/src/explorers/StonCols.c
index 7eece99..3e4dd09 100644
--- a/src/explorers/StonCols.c
+++ b/src/explorers/StonCols.c
@@ -331,10 +331,11 @@ static void fix_col_ston(double val, double Aik, RowView *row, ColView *col,
         *row->rhs -= Aik * val;
     }
 
-    // update min activity
+    // update min activity (the contribution to remove is that of the bound, which
+    // is not necessarily val)
     if (act->n_inf_min == 0)
     {
-        act->min -= Aik * val;
+        act->min -= Aik * ((Aik > 0) ? *col->lb : *col->ub);
     }
     else if ((Aik > 0 && HAS_TAG(*col->tag, C_TAG_LB_INF)) ||
              (Aik < 0 && HAS_TAG(*col->tag, C_TAG_UB_INF)))
@@ -352,7 +353,7 @@ static void fix_col_ston(double val, double Aik, RowView *row, ColView *col,
     // update max activity
     if (act->n_inf_max == 0)
     {
-        act->max -= Aik * val;
+        act->max -= Aik * ((Aik > 0) ? *col->ub : *col->lb);
     }
     else if ((Aik > 0 && HAS_TAG(*col->tag, C_TAG_UB_INF)) ||
              (Aik < 0 && HAS_TAG(*col->tag, C_TAG_LB_INF)))
-- 
2.43.0


From 581b56a17ef9aa8bf42d679a9d7f910e2316cef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:20 +0000
Subject: [PATCH 33/34] fix: a row that its new right-hand side turned into an
 equality was processed again as an inequality

---
 src/explorers/Parallel_rows.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index 02558e3..982a53f 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -552,8 +552,16 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
             }
         }
 
-        if (!is_lhs_inf_remaining_row &&
-            remaining_row_new_lhs != lhs[remaining_row_idx])
+        // the new rhs may already have turned the row into an equality
+        if (HAS_TAG(*row_tag, R_TAG_EQ))
+        {
+            if (remaining_row_new_lhs >= rhs[remaining_row_idx] + FEAS_TOL)
+            {
+                return INFEASIBLE;
+            }
+        }
+        else if (!is_lhs_inf_remaining_row &&
+                 remaining_row_new_lhs != lhs[remaining_row_idx])
         {
             assert(!IS_ABS_INF(remaining_row_new_lhs));
             assert(remaining_row_new_lhs > lhs[remaining_row_idx]);
-- 
2.43.0


From 23f1ddd03488d7c47b3cd296f9bdbcba36b1f2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:21 +0000
Subject: [PATCH 34/34] fix: undefined conversion of inf in the hash of
 parallel rows when the reciprocal of the scale overflows

---
 src/explorers/Parallel_rows.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index 982a53f..8743860 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -70,15 +70,18 @@ static inline uint32_t hash_double_array_with_scale(const double *arr, int size)
             max = ABS(arr[i]);
         }
     }
-    double scale = (arr[0] > 0) ? 1 / max : -1 / max;
+    double sign = (arr[0] > 0) ? 1.0 : -1.0;
 
     // compute has value
     uint32_t hash = 5381;
     for (int i = 0; i < size; i++)
     {
+        // (1 / max may overflow, and converting a value that is not in the range
+        // of the integer type, such as inf or NaN, is undefined)
+        double ratio = sign * (arr[i] / max);
+        ratio = (ABS(ratio) <= 1.0) ? ratio : 0.0;
         // (converting a negative double directly to unsigned is undefined)
-        uint32_t scaled =
-            (uint32_t) (int64_t) (round((arr[i] * scale) * INV_PRECISION));
+        uint32_t scaled = (uint32_t) (int64_t) (round(ratio * INV_PRECISION));
         hash = ((hash << 5) + hash) + scaled;
     }
 
-- 
2.43.0

