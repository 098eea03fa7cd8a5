From d78e06490d3c12a973f780d1cd910e19328d7469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:57 +0000
Subject: [PATCH 01/46] fix: check the allocation of the optimizer in
 opk_new_optimizer

---
 src/driver.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/driver.c b/src/driver.c
index 5961e79..6fee9a9 100644
--- a/src/driver.c
+++ b/src/driver.c
@@ -342,6 +342,9 @@ opk_new_optimizer(opk_algorithm algorithm, /* optimization algorithm */
   /* Allocate optimizer and instanciate it. */
   opt = (opk_optimizer*)opk_allocate_object(finalize_optimizer,
                                               sizeof(opk_optimizer));
+  if (opt == NULL) {
+    return NULL;
+  }
   opt->single = single;
   opt->n = n;
   opt->algorithm = algorithm;
-- 
2.43.0


From be635e7d9cda2d10909e9858aac7d3aa6f760d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:57 +0000
Subject: [PATCH 02/46] fix: do not turn the convergence of a line search at a
 step bound into a warning

---
 src/lnsrch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 89ec57a..041d1c0 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -175,12 +175,12 @@ opk_lnsrch_iterate(opk_lnsrch* ls, double* stp_ptr,
   }
   ls->task = ls->ops->iterate(ls, stp_ptr, f1, g1);
   if (*stp_ptr <= ls->stpmin) {
-    if (bound < 0) {
+    if (bound < 0 && ls->task == OPK_LNSRCH_SEARCH) {
       warning(ls, OPK_STEP_EQ_STPMIN);
     }
     *stp_ptr = ls->stpmin;
   } else if (*stp_ptr >= ls->stpmax) {
-    if (bound > 0) {
+    if (bound > 0 && ls->task == OPK_LNSRCH_SEARCH) {
       warning(ls, OPK_STEP_EQ_STPMAX);
     }
     *stp_ptr = ls->stpmax;
-- 
2.43.0


From 0074fbfd537e9fd685896c3da0cae7ad96d8144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:57 +0000
Subject: [PATCH 03/46] fix: avoid overflowing the local buffer in
 opk_get_nlcg_description

---
 src/nlcg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlcg.c b/src/nlcg.c
index 135043d..fa5aa8a 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -595,7 +595,7 @@ opk_get_nlcg_name(char* buf, size_t size, const opk_nlcg* opt)
 size_t
 opk_get_nlcg_description(char* buf, size_t size, const opk_nlcg* opt)
 {
-  char str[80];
+  char str[160];
   int and;
 
   if (opt == NULL || (buf == NULL && size > 0)) {
-- 
2.43.0


From 38ac71e0fc738f926d7065d12e65f1df728e315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:11 +0000
Subject: [PATCH 04/46] fix: always project the trial variables of VMLMB so
 that rounding errors cannot break the bounds

---
 src/vmlmb.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vmlmb.c b/src/vmlmb.c
index a8b6367..14023d6 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -128,7 +128,6 @@ struct opk_vmlmb_ {
   double stp;              /**< Current step length. */
   double stpmin;           /**< Relative minimum step length. */
   double stpmax;           /**< Relative maximum step length. */
-  double bsmin;            /**< Step size to the first encountered bound. */
   opk_vspace* vspace;    /**< Variable space. */
   opk_lnsrch* lnsrch;    /**< Line search method. */
   opk_vector* x0;        /**< Variables at the start of the line search. */
@@ -699,7 +698,6 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
       if (stpmax > bsmax) {
         stpmax = bsmax;
       }
-      opt->bsmin = bsmin2;
     }
 
     /* Save current point. */
@@ -732,7 +730,9 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
 
   /* Compute a new trial point along the line search. */
   opk_vaxpby(x, 1, opt->x0, -opt->stp, opt->d);
-  if (bounded && opt->stp > opt->bsmin) {
+  if (bounded) {
+    /* Even a step shorter than the distance to the first bound may, because of
+       rounding errors, yield variables slightly out of the bounds. */
     opk_status status = opk_project_variables(x, x, opt->box);
     if (status != OPK_SUCCESS) {
       return failure(opt, status);
-- 
2.43.0


From f5529e57113ca51c2f8f47933c0b2c0c2888e886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 05/46] fix: never claim convergence when the norm of the
 gradient is not finite

---
 src/nlcg.c  | 3 ++-
 src/vmlmb.c | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nlcg.c b/src/nlcg.c
index fa5aa8a..cb049fa 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -758,7 +758,8 @@ opk_iterate_nlcg(opk_nlcg* opt, opk_vector* x,
     if (opt->evaluations <= 1) {
       opt->ginit = opt->gnorm;
     }
-    if (opt->gnorm <= max3(0.0, opt->gatol, opt->grtol*opt->ginit)) {
+    if (opt->gnorm <= max3(0.0, opt->gatol, opt->grtol*opt->ginit) &&
+        ! non_finite(opt->gnorm)) {
       next_task = OPK_TASK_FINAL_X;
     } else {
       next_task = OPK_TASK_NEW_X;
diff --git a/src/vmlmb.c b/src/vmlmb.c
index 14023d6..5588f9c 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -595,7 +595,7 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
       opt->ginit = opt->gnorm;
     }
     gtest = max3(0.0, opt->gatol, opt->grtol*opt->ginit);
-    return success(opt, (opt->gnorm <= gtest
+    return success(opt, (opt->gnorm <= gtest && ! non_finite(opt->gnorm)
                          ? OPK_TASK_FINAL_X
                          : OPK_TASK_NEW_X));
 
-- 
2.43.0


From fbb2d0f2e255271251e75fd8e332068122f06468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 06/46] fix: honor the fmin_given option of NLCG

---
 src/nlcg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlcg.c b/src/nlcg.c
index cb049fa..c8ead1b 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -521,7 +521,7 @@ opk_new_nlcg_optimizer(const opk_nlcg_options* opts,
   opt->stpmax = opts->stpmax;
   opt->fmin = opts->fmin;
   opt->flags = flags;
-  opt->fmin_given = FALSE;
+  opt->fmin_given = opts->fmin_given;
   opt->update_Hager_Zhang_orig = FALSE;
 
   /* Allocate work vectors. */
-- 
2.43.0


From 666826dd91b55c41efe6247e0cf1f267c681b483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:26 +0000
Subject: [PATCH 07/46] fix: forget the history of a nonmonotone line search
 when an optimization is (re)started

---
 src/lnsrch.c            | 13 ++++++++++---
 src/nlcg.c              |  1 +
 src/optimpack-private.h |  9 +++++++++
 src/vmlmb.c             |  1 +
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 041d1c0..c548816 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -119,6 +119,14 @@ opk_allocate_line_search(opk_lnsrch_operations *ops,
   return ls;
 }
 
+void
+opk__reset_lnsrch(opk_lnsrch* ls)
+{
+  if (ls != NULL && ls->ops->reset != NULL) {
+    ls->ops->reset(ls);
+  }
+}
+
 /* after an error or convergence, you must call opk_lnsrch_start */
 
 opk_lnsrch_task
@@ -358,14 +366,12 @@ nonmonotone_start(opk_lnsrch* ls)
   return success(ls, OPK_LNSRCH_SEARCH);
 }
 
-#if 0
 static void
 nonmonotone_reset(opk_lnsrch* ls)
 {
   nonmonotone_lnsrch* nmls = (nonmonotone_lnsrch*)ls;
   nmls->mp = 0;
 }
-#endif
 
 static opk_lnsrch_task
 nonmonotone_iterate(opk_lnsrch* ls,
@@ -415,7 +421,8 @@ static opk_lnsrch_operations nonmonotone_operations = {
   NULL,
   nonmonotone_start,
   nonmonotone_iterate,
-  FALSE
+  FALSE,
+  nonmonotone_reset
 };
 
 opk_lnsrch*
diff --git a/src/nlcg.c b/src/nlcg.c
index c8ead1b..97eddf9 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -711,6 +711,7 @@ opk_start_nlcg(opk_nlcg* opt, opk_vector* x)
   opt->iterations = 0;
   opt->evaluations = 0;
   opt->restarts = 0;
+  opk__reset_lnsrch(opt->lnsrch);
   return success(opt, OPK_TASK_COMPUTE_FG);
 }
 
diff --git a/src/optimpack-private.h b/src/optimpack-private.h
index 26aa301..9b40cdc 100644
--- a/src/optimpack-private.h
+++ b/src/optimpack-private.h
@@ -490,12 +490,21 @@ struct opk_lnsrch_operations_ {
      or 1st Wolfe condition only).  The initial directional derivative at the
      start of each search is always needed. */
   opk_bool use_deriv;
+
+  /* Method called when a new optimization is started to forget what has been
+     memorized from the previous line searches (can be NULL if there is nothing
+     to forget). */
+  void (*reset)(opk_lnsrch* self);
 };
 
 extern opk_lnsrch*
 opk_allocate_line_search(opk_lnsrch_operations *ops,
                          size_t size);
 
+/* Forget previous line searches. */
+extern void
+opk__reset_lnsrch(opk_lnsrch* ls);
+
 extern void
 opk__set_nlcg_status(opk_nlcg* opt, opk_status status);
 
diff --git a/src/vmlmb.c b/src/vmlmb.c
index 5588f9c..cee868e 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -374,6 +374,7 @@ opk_start_vmlmb(opk_vmlmb* opt, opk_vector* x)
   opt->restarts = 0;
   opt->updates = 0;
   opt->mp = 0;
+  opk__reset_lnsrch(opt->lnsrch);
   if (opt->box != NULL) {
     opk_status status = opk_project_variables(x, x, opt->box);
     if (status != OPK_SUCCESS) {
-- 
2.43.0


From 8550cdc8d7890e2228e2f4fc7ab59687d07a732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 08/46] fix: do not accept an iterate whose function value is
 worse or not a number because of rounding errors in the line search

---
 src/nlcg.c  | 3 ++-
 src/vmlmb.c | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/nlcg.c b/src/nlcg.c
index 97eddf9..75eae1b 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -746,7 +746,8 @@ opk_iterate_nlcg(opk_nlcg* opt, opk_vector* x,
         }
         status = opk_lnsrch_get_status(opt->lnsrch);
         if (lnsrch_task != OPK_LNSRCH_WARNING ||
-            status != OPK_ROUNDING_ERRORS_PREVENT_PROGRESS) {
+            status != OPK_ROUNDING_ERRORS_PREVENT_PROGRESS ||
+            ! (f <= opt->f0)) {
           return failure(opt, status);
         }
       }
diff --git a/src/vmlmb.c b/src/vmlmb.c
index cee868e..a4cc5c9 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -563,10 +563,13 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
       }
       if (lnsrch_task != OPK_LNSRCH_CONVERGENCE) {
         /* An error may have occurred during the line search.  Figure out
-           whether this error can be safely ignored. */
+           whether this error can be safely ignored (which is not the case if
+           the function value is worse than at the start of the line search or
+           is not a number). */
         status = opk_lnsrch_get_status(opt->lnsrch);
         if (lnsrch_task != OPK_LNSRCH_WARNING ||
-            status != OPK_ROUNDING_ERRORS_PREVENT_PROGRESS) {
+            status != OPK_ROUNDING_ERRORS_PREVENT_PROGRESS ||
+            ! (f <= opt->f0)) {
           return failure(opt, status);
         }
       }
-- 
2.43.0


From 0d931d75f0c3df83ec8de175d5cab5377a89ccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 09/46] fix: take a bisection step when a backtracking line
 search is given a function value which is not a number

---
 src/lnsrch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index c548816..588d2e6 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -284,8 +284,8 @@ backtrack_iterate(opk_lnsrch* ls,
   } else {
     double q = -stp*ls->ginit;
     double r = (f - (ls->finit - q))*2;
-    if (r <= 0) {
-      /* Bisection step. */
+    if (! (r > 0)) {
+      /* Bisection step (also if the function value is not a number). */
       stp *= 0.5;
     } else if (q <= bls->amin*r) {
       /* Small step. */
-- 
2.43.0


From a748ace6f74f5633135b810e82ffe1c52a5fcf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 10/46] fix: refuse to start a line search with a step, step
 bounds or a derivative that is not a number

---
 src/lnsrch.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 588d2e6..453af65 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -136,19 +136,20 @@ opk_lnsrch_start(opk_lnsrch* ls, double f0, double g0,
   if (ls == NULL) {
     return OPK_ILLEGAL_ADDRESS;
   }
-  if (stpmin < 0) {
+  /* The tests are written so as to also fail if a value is not a number. */
+  if (! (stpmin >= 0)) {
     return failure(ls, OPK_STPMIN_LT_ZERO);
   }
-  if (stpmin > stpmax) {
+  if (! (stpmin <= stpmax)) {
     return failure(ls, OPK_STPMIN_GT_STPMAX);
   }
-  if (stp < stpmin) {
+  if (! (stp >= stpmin)) {
     return failure(ls, OPK_STEP_LT_STPMIN);
   }
-  if (stp > stpmax) {
+  if (! (stp <= stpmax)) {
     return failure(ls, OPK_STEP_GT_STPMAX);
   }
-  if (g0 >= 0) {
+  if (! (g0 < 0)) {
     return failure(ls, OPK_NOT_A_DESCENT);
   }
   ls->stp = stp;
-- 
2.43.0


From a47e63975dcd885ed40844878bcf48677aba6900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 11/46] =?UTF-8?q?fix:=20start=20the=20Mor=C3=A9=20&=20Thue?=
 =?UTF-8?q?nte=20line=20search=20with=20the=20extrapolation=20limits=20of?=
 =?UTF-8?q?=20the=20original=20algorithm?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/lnsrch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 453af65..feae1b0 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -505,8 +505,8 @@ csrch_start(opk_lnsrch* ls)
   cls->gtest = cls->ftol*cls->base.ginit;
 
   /* Initialize parameters for the interval of search. */
-  cls->stmin = cls->base.stpmin; /* FIXME: ??? */
-  cls->stmax = cls->base.stpmax;
+  cls->stmin = 0.0;
+  cls->stmax = cls->base.stp + 4.0*cls->base.stp;
   cls->width = cls->base.stpmax - cls->base.stpmin;
   cls->width1 = cls->width/0.5;
   cls->brackt = FALSE;
-- 
2.43.0


From 89e420db212722ca866642ff591f8fa7cd4b3740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 12/46] fix: never call the scale operation of a vector space
 with a factor equal to one

The contract of the operations of a vector space guarantees that.
---
 src/algebra.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algebra.c b/src/algebra.c
index f46234b..f982929 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -398,11 +398,11 @@ opk_vaxpby(opk_vector* dst,
       if (beta == 0.0) {
         vspace->ops->fill(vspace, dst, 0.0);
       } else {
-        vspace->ops->scale(vspace, dst, beta, y);
+        opk_vscale(dst, beta, y);
       }
     } else {
       if (beta == 0.0) {
-        vspace->ops->scale(vspace, dst, alpha, x);
+        opk_vscale(dst, alpha, x);
       } else {
         vspace->ops->axpby(vspace, dst, alpha, x, beta, y);
       }
@@ -426,11 +426,11 @@ opk_vaxpbypcz(opk_vector* dst,
         if (gamma == 0.0) {
           vspace->ops->fill(vspace, dst, 0.0);
         } else {
-          vspace->ops->scale(vspace, dst, gamma, z);
+          opk_vscale(dst, gamma, z);
         }
       } else {
         if (gamma == 0.0) {
-          vspace->ops->scale(vspace, dst, beta, y);
+          opk_vscale(dst, beta, y);
         } else {
           vspace->ops->axpby(vspace, dst, beta, y, gamma, z);
         }
@@ -438,7 +438,7 @@ opk_vaxpbypcz(opk_vector* dst,
     } else {
       if (beta == 0.0) {
         if (gamma == 0.0) {
-          vspace->ops->scale(vspace, dst, alpha, x);
+          opk_vscale(dst, alpha, x);
         } else {
           vspace->ops->axpby(vspace, dst, alpha, x, gamma, z);
         }
-- 
2.43.0


From 905d1d28bd91af8132680a64e156e20c3e9a6a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 13/46] fix: report the lack of memory when the bounds of a box
 cannot be copied

---
 src/algebra.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/algebra.c b/src/algebra.c
index f982929..622932d 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -844,10 +844,13 @@ opk_new_boxset(opk_vspace* space,
                                               freevar, steplim,
                                               sizeof(opk_boxset));
   if (box != NULL) {
-    if (set_bound(space, &box->lower, lower_type, lower) != OPK_SUCCESS ||
-        set_bound(space, &box->upper, upper_type, upper) != OPK_SUCCESS) {
+    opk_status status = set_bound(space, &box->lower, lower_type, lower);
+    if (status == OPK_SUCCESS) {
+      status = set_bound(space, &box->upper, upper_type, upper);
+    }
+    if (status != OPK_SUCCESS) {
       OPK_DROP(box);
-      errno = EINVAL;
+      errno = (status == OPK_INSUFFICIENT_MEMORY ? ENOMEM : EINVAL);
       return NULL;
     }
   }
-- 
2.43.0


From 79db573d09023fa659d1fb7bbffb6cf60c6f4897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 14/46] fix: let opk_hold_object accept a NULL argument as
 documented

---
 src/algebra.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algebra.c b/src/algebra.c
index 622932d..a56bf67 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -61,7 +61,9 @@ opk_allocate_object(void (*finalize)(opk_object* self),
 opk_object*
 opk_hold_object(opk_object* obj)
 {
-  ++obj->references;
+  if (obj != NULL) {
+    ++obj->references;
+  }
   return obj;
 }
 
-- 
2.43.0


From 9b26de4a24efa505406d4af76df8d18c9c5b7efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 15/46] fix: print a NULL vector on the standard output when no
 file is given

---
 src/algebra.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algebra.c b/src/algebra.c
index a56bf67..8ee8aeb 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -231,6 +231,9 @@ opk_vprint(FILE* file, const char* name, const opk_vector* vect,
   opk_vspace* vspace;
   opk_index i, n;
 
+  if (file == NULL) {
+    file = stdout;
+  }
   if (vect == NULL) {
     if (name != NULL) {
       fputs(name, file);
@@ -240,9 +243,6 @@ opk_vprint(FILE* file, const char* name, const opk_vector* vect,
     }
     return;
   }
-  if (file == NULL) {
-    file = stdout;
-  }
   if (name != NULL) {
     fputs(name, file);
     fputs(" = {", file);
-- 
2.43.0


From 5c4907d068608bfd4b0e1303b0fec4bd1d11f7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 16/46] fix: report NULL line search or step address as an
 error

opk_lnsrch_start and opk_lnsrch_iterate returned the status
OPK_ILLEGAL_ADDRESS, which is strictly positive and thus means that the
line search has converged, instead of a (strictly negative) error task.
---
 src/lnsrch.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index feae1b0..2caaa65 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -134,7 +134,7 @@ opk_lnsrch_start(opk_lnsrch* ls, double f0, double g0,
                  double stp, double stpmin, double stpmax)
 {
   if (ls == NULL) {
-    return OPK_ILLEGAL_ADDRESS;
+    return OPK_LNSRCH_ERROR;
   }
   /* The tests are written so as to also fail if a value is not a number. */
   if (! (stpmin >= 0)) {
@@ -166,8 +166,11 @@ opk_lnsrch_iterate(opk_lnsrch* ls, double* stp_ptr,
 {
   int bound;
 
-  if (ls == NULL || stp_ptr == NULL) {
-    return OPK_ILLEGAL_ADDRESS;
+  if (ls == NULL) {
+    return OPK_LNSRCH_ERROR;
+  }
+  if (stp_ptr == NULL) {
+    return failure(ls, OPK_ILLEGAL_ADDRESS);
   }
   if (ls->task != OPK_LNSRCH_SEARCH) {
     return failure(ls, OPK_NOT_STARTED);
-- 
2.43.0


From ef65eff24364adbf9a88ad880adf28538a86f7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:25 +0000
Subject: [PATCH 17/46] fix: refuse line search parameters which are not a
 number

The check of sigma1 was duplicated in place of the one of sigma2 for the
nonmonotone line search, the other constructors had no check.
---
 src/lnsrch.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 2caaa65..ea06a3f 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -319,7 +319,8 @@ opk_lnsrch_new_backtrack(double ftol, double amin)
 {
   opk_lnsrch* ls;
 
-  if (ftol <= 0 || ftol > 0.5 || amin <= 0 || amin >= 1) {
+  /* The tests are written so as to also fail if a value is not a number. */
+  if (! (ftol > 0 && ftol <= 0.5 && amin > 0 && amin < 1)) {
     errno = EINVAL;
     return NULL;
   }
@@ -436,7 +437,7 @@ opk_lnsrch_new_nonmonotone(opk_index m, double ftol,
   opk_lnsrch* ls;
   size_t size, offset;
 
-  if (non_finite(ftol) || non_finite(sigma1) || non_finite(sigma1) ||
+  if (non_finite(ftol) || non_finite(sigma1) || non_finite(sigma2) ||
       ftol <= 0.0 || sigma1 <= 0.0 || sigma1 >= sigma2 || sigma2 >= 1.0 ||
       m < 1) {
     errno = EINVAL;
@@ -662,15 +663,15 @@ opk_lnsrch_new_csrch(double ftol, double gtol, double xtol)
 {
   opk_lnsrch* ls;
 
-  if (ftol < 0) {
+  if (! (ftol >= 0)) {
     errno = EINVAL;
     return NULL;
   }
-  if (gtol < 0) {
+  if (! (gtol >= 0)) {
     errno = EINVAL;
     return NULL;
   }
-  if (xtol < 0) {
+  if (! (xtol >= 0)) {
     errno = EINVAL;
     return NULL;
   }
-- 
2.43.0


From 52a0526dd5126fc0d9cf498ecad7baeed0601070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:25 +0000
Subject: [PATCH 18/46] fix: opk_lnsrch_use_deriv crashed on a NULL line search

All other queries accept a NULL line search.
---
 src/lnsrch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index ea06a3f..1394efd 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -246,7 +246,7 @@ opk_lnsrch_finished(const opk_lnsrch* ls)
 opk_bool
 opk_lnsrch_use_deriv(const opk_lnsrch* ls)
 {
-  return ls->ops->use_deriv;
+  return (ls != NULL ? ls->ops->use_deriv : FALSE);
 }
 
 /*---------------------------------------------------------------------------*/
-- 
2.43.0


From f039d0d1d9993df378b60a8176032631cf540652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:36 +0000
Subject: [PATCH 19/46] fix: nonmonotone line search looped forever near the
 minimum step

When the step is next to its lower bound, the result of the bisection
(alpha + stpmin)/2 may be rounded to alpha itself.  The same step was then
tried again and again if the function value remained too large (or was
not a number).
---
 src/lnsrch.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 1394efd..c9cbf24 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -413,7 +413,11 @@ nonmonotone_iterate(opk_lnsrch* ls,
     alpha = (alpha + ls->stpmin)/2.0;
   }
 
-  /* Safeguard the step. */
+  /* Safeguard the step.  Near the lower bound, rounding errors may prevent the
+     bisection from reducing the step. */
+  if (! (alpha < *stp_ptr)) {
+    alpha = ls->stpmin;
+  }
   alpha = MAX(alpha, ls->stpmin);
   *stp_ptr = alpha;
   if (alpha <= 0) {
-- 
2.43.0


From 79262d77c004e55a6503e3a64344f94f55c9a571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 20/46] fix: opk_fmin looped forever when rounding errors
 prevent progress

The golden section search never ended if the relative precision could not
be reached.  This was the case when the precision was set to zero, but
also with the default precision when the minimum is at zero (for instance
for f(x) = |x|) because the uncertainty relatively to the position then
never decreases.
---
 src/fmin.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/fmin.c b/src/fmin.c
index 8b2d504..00a3543 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -349,8 +349,13 @@ opk_fmin_next(opk_fmin_context* ctx, double* xptr, double fx)
       return (ctx->status = OPK_FMIN_CONVERGENCE);
     }
 
-    /* Take a golden section interpolation step. */
-    EVAL(5, x, FMIN_ALPHA*(w - v) + v);
+    /* Take a golden section interpolation step unless rounding errors (or
+       overflows) prevent further progress. */
+    t = FMIN_ALPHA*(w - v) + v;
+    if (t == v || t == w || isnan(t)) {
+      return (ctx->status = OPK_FMIN_CONVERGENCE);
+    }
+    EVAL(5, x, t);
 
     /* Update the interval.  In case of a tie (fx = fv and fu = fw), the
        situation is symmetrical and the choice arbitrary. */
@@ -553,16 +558,13 @@ int func(args)
       goto done;
     }
 
-    /* Take a golden section interpolation step. */
+    /* Take a golden section interpolation step unless rounding errors (or
+       overflows) prevent further progress. */
     x = FMIN_ALPHA*(w - v) + v;
-#if 0
-    /* FIXME: This test may be used to save one function evaluation when
-       extreme precision is requested and rounding errors prevent further
-       progresses. */
-    if (x == u || x == v || x == w) {
-      break;
+    if (x == v || x == w || isnan(x)) {
+      status = 0; /* convergence */
+      goto done;
     }
-#endif
     fx = f(x);
     ++nevals;
     /* Update the interval.  In case of a tie (fx = fv and fu = fw), the
-- 
2.43.0


From f2cbd36cd72f4e07e0ea9ca0442e1c9a782c1a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 21/46] fix: opk_fmin took a limit of zero evaluations as no
 limits

The documentation states that there are no limits if maxeval is negative
and that at least 1 to 3 evaluations are made whatever maxeval.
---
 src/fmin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmin.c b/src/fmin.c
index 00a3543..f8cb9be 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -531,7 +531,7 @@ int func(args)
   fv = f(v);
   ++nevals;
   while (fv > fw) {
-    if (maxeval > 0 && nevals >= maxeval) {
+    if (maxeval >= 0 && nevals >= maxeval) {
       status = 2; /* no bracket yet */
       goto done;
     }
@@ -553,7 +553,7 @@ int func(args)
     if (fabs(w - v) <= prec*r) {
       status = 0; /* convergence */
       goto done;
-    } else if (maxeval > 0 && nevals >= maxeval) {
+    } else if (maxeval >= 0 && nevals >= maxeval) {
       status = 1; /* bracket but no convergence */
       goto done;
     }
-- 
2.43.0


From 992f6258e4b1b54bddfccb618ccb66193cce1feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 22/46] fix: opk_fmin_get_final gave the solution as one end of
 the interval

The other end of the final interval was never given.
---
 src/fmin.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fmin.c b/src/fmin.c
index f8cb9be..2028405 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -211,11 +211,11 @@ opk_fmin_get_final(opk_fmin_context* ctx,
   if (ctx->u > ctx->w) {
     MAYBE_GET(xlo, ctx->w);
     MAYBE_GET(flo, ctx->fw);
-    MAYBE_GET(xup, ctx->v);
-    MAYBE_GET(fup, ctx->fv);
+    MAYBE_GET(xup, ctx->u);
+    MAYBE_GET(fup, ctx->fu);
   } else {
-    MAYBE_GET(xlo, ctx->v);
-    MAYBE_GET(flo, ctx->fv);
+    MAYBE_GET(xlo, ctx->u);
+    MAYBE_GET(flo, ctx->fu);
     MAYBE_GET(xup, ctx->w);
     MAYBE_GET(fup, ctx->fw);
   }
-- 
2.43.0


From 99a644bd075694a4aecd2e52be72dbf830d9a576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 23/46] fix: opk_fmin accepted arguments which are not a number

There is nothing to search with an end of the initial interval which is
not a number and the algorithm never converged for such a precision.
---
 src/fmin.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fmin.c b/src/fmin.c
index 2028405..db2c556 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -123,7 +123,7 @@ opk_fmin_set_precision(opk_fmin_context* ctx, double prec)
   if (ctx == NULL) {
     return OPK_ILLEGAL_ADDRESS;
   }
-  if (prec < 0) {
+  if (prec < 0 || isnan(prec)) {
     return OPK_INVALID_ARGUMENT;
   }
   ctx->prec = prec;
@@ -162,7 +162,7 @@ opk_fmin_start(opk_fmin_context* ctx,
   if (ctx == NULL) {
     return OPK_ILLEGAL_ADDRESS;
   }
-  if (a == b) {
+  if (a == b || isnan(a) || isnan(b)) {
     return OPK_INVALID_ARGUMENT;
   }
   ctx->a = a;
@@ -497,7 +497,7 @@ int func(args)
   if (prec < 0.0) {
     prec = FMIN_SQRT_EPSILON;
   }
-  if (a == b) {
+  if (a == b || isnan(a) || isnan(b) || isnan(prec)) {
     /* A and B must be different. */
     errno = EINVAL;
     return -1;
-- 
2.43.0


From fe88d9c642503cbff8d7c5cb5dbf3cfce9d5cbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:42 +0000
Subject: [PATCH 24/46] fix: opk_fmin_next could not continue after convergence

To continue with a smaller precision, opk_fmin_next has to be called again
after OPK_FMIN_CONVERGENCE.  It then took the last evaluation into account
a second time, which yields a wrong interval and count of evaluations.
---
 src/fmin.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fmin.c b/src/fmin.c
index db2c556..c2d1478 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -232,6 +232,7 @@ opk_fmin_get_final(opk_fmin_context* ctx,
  *    ctx->stage =  3    evaluation of f(x) for x inside (a,b)
  *    ctx->stage =  4    evaluation of f(x) while trying to bracket
  *    ctx->stage =  5    evaluation of f(x) while converging
+ *    ctx->stage =  6    convergence
  */
 
 opk_fmin_task
@@ -293,6 +294,7 @@ opk_fmin_next(opk_fmin_context* ctx, double* xptr, double fx)
       JUMP(3);
       JUMP(4);
       JUMP(5);
+      JUMP(6);
     default:
       return (ctx->status = OPK_FMIN_ERROR);
     }
@@ -341,11 +343,13 @@ opk_fmin_next(opk_fmin_context* ctx, double* xptr, double fx)
 
   /* Reduce the bracketing interval to improve the precision. */
   for (;;) {
+  stage_6:
     /* Check for convergence. */
     r = fabs(u);
     if ((t = fabs(v)) > r) r = t;
     if ((t = fabs(w)) > r) r = t;
     if (fabs(w - v) <= prec*r) {
+      ctx->stage = 6;
       return (ctx->status = OPK_FMIN_CONVERGENCE);
     }
 
@@ -353,6 +357,7 @@ opk_fmin_next(opk_fmin_context* ctx, double* xptr, double fx)
        overflows) prevent further progress. */
     t = FMIN_ALPHA*(w - v) + v;
     if (t == v || t == w || isnan(t)) {
+      ctx->stage = 6;
       return (ctx->status = OPK_FMIN_CONVERGENCE);
     }
     EVAL(5, x, t);
-- 
2.43.0


From 86d8f87139a520b0fe3ef0a84b7205eb441d66bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 25/46] fix: conjugate gradients went on with residuals which
 underflow

If the iterations are pursued until OPK_CG_FINISH, the dot product r'.z
becomes so small (notably in single precision) that p'.A.p is rounded to
zero.  The operator was then considered as not being positive definite: PLCG
stopped with OPK_CG_NON_CONVEX while TRCG moved the variables from the
solution to the boundary of the trust region.
---
 src/lcg.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lcg.c b/src/lcg.c
index 33321af..d67f108 100644
--- a/src/lcg.c
+++ b/src/lcg.c
@@ -36,6 +36,7 @@
 #define OPK_LCG_C_ 1
 
 #include <math.h>
+#include <float.h>
 
 #include "optimpack-linalg.h"
 
@@ -46,6 +47,9 @@
 #define SCAL(n, a, x)    OPK_SCAL(n, a, x, 1);
 #define ZERO(n, x)       OPK_ZERO(n, x, 1);
 
+/* Smallest normalized number. */
+#define TINY   (sizeof(real_t) == sizeof(float) ? FLT_MIN : DBL_MIN)
+
 #ifndef NULL
 # define NULL ((void *)0)
 #endif
@@ -109,7 +113,7 @@ OPK_PLCG(const opk_index n, real_t p[], real_t q[], real_t r[],
     /* Caller has been requested to compute preconditioned residuals.  Use
        conjugate gradients recurrence to compute next search direption p. */
     rho[1] = DOT(n, r, z);
-    if (rho[1] <= zero) {
+    if (rho[1] <= zero || (rho[0] > zero && rho[1] < TINY)) {
       /* If r'.z too small, then algorithm has converged
          or A is not positive definite. */
       *state = (rho[1] < zero ? OPK_CG_NON_CONVEX : OPK_CG_FINISH);
@@ -261,7 +265,7 @@ OPK_TRCG(const opk_index n, real_t p[], const real_t q[], real_t r[],
     /* Caller has been requested to compute preconditioned residuals.  Use
        conjugate gradients recurrence to compute next search direption p. */
     rho[1] = DOT(n, r, z);
-    if (rho[1] <= zero) {
+    if (rho[1] <= zero || (rho[0] > zero && rho[1] < TINY)) {
       /* If r'.z too small, then algorithm has converged
          or preconditioner is not positive definite. */
       *state = (rho[1] < zero ? OPK_CG_NON_CONVEX : OPK_CG_FINISH);
-- 
2.43.0


From 58aa06e8a6ebb4effefe69d06fdd8cc4ca6f57ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 26/46] fix: truncated conjugate gradient step could be longer
 than the optimal one

When the variables are at the boundary of the trust region up to rounding
errors, the positive root of the truncation equation can be much larger
than the optimal step, and the objective function was then increased.
---
 src/lcg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lcg.c b/src/lcg.c
index d67f108..4fb6536 100644
--- a/src/lcg.c
+++ b/src/lcg.c
@@ -365,6 +365,11 @@ OPK_TRCG(const opk_index n, real_t p[], const real_t q[], real_t r[],
         *state = OPK_CG_ERROR;
         return;
       }
+      if (pq > zero && alpha > rho[1]/pq) {
+        /* Rounding errors must not make the truncated step longer than the
+           optimal one. */
+        alpha = rho[1]/pq;
+      }
       if (alpha > zero) {
         AXPY(n,  alpha, p, x);
         AXPY(n, -alpha, q, r);
-- 
2.43.0


From 33f9f78637b8a0ef67f5d9a596cb59859f0a66b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 27/46] fix: return the best point when NEWUOA stops during its
 initialization

---
 src/newuoa.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/newuoa.c b/src/newuoa.c
index 6d36508..8039280 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -1310,6 +1310,12 @@ newuoa_optimize(INTEGER n, INTEGER npt,
  L310:
   if (nf > MAX(maxfun,1)) {
     --nf;
+    if (nf < npt) {
+      /* The initial model is not complete, XOPT has not yet been set. */
+      LOOP(i,n) {
+        XOPT(i) = XPT(kopt,i);
+      }
+    }
     reason = "CALFUN has been called MAXFUN times";
     status = NEWUOA_TOO_MANY_EVALUATIONS;
     goto done;
-- 
2.43.0


From 3a8cc7314b9a82db1ababde5b8ad065e34812339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:19 +0000
Subject: [PATCH 28/46] fix: trust region radius reported before and during the
 initialization of NEWUOA and COBYLA

---
 src/cobyla.c | 1 +
 src/newuoa.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/cobyla.c b/src/cobyla.c
index 8a88cb1..40142b5 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -266,6 +266,7 @@ cobyla_restart(cobyla_context* ctx)
     return COBYLA_BAD_ADDRESS;
   }
   ctx->nfvals = 0;
+  ctx->rho = 0;
   ctx->status = COBYLA_ITERATE;
   return ctx->status;
 }
diff --git a/src/newuoa.c b/src/newuoa.c
index 8039280..37b0686 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -618,6 +618,7 @@ newuoa_restart(newuoa_context* ctx)
     return NEWUOA_BAD_ADDRESS;
   }
   ctx->nevals = 0;
+  ctx->rho = 0;
   ctx->status = NEWUOA_ITERATE;
   return ctx->status;
 }
@@ -1005,6 +1006,7 @@ newuoa_optimize(INTEGER n, INTEGER npt,
   /* Begin the initialization procedure. NF becomes one more than the number of
      function values so far. The coordinates of the displacement of the next
      initial interpolation point from XBASE are set in XPT(NF,.). */
+  rho = rhobeg;
   rhosq = rhobeg*rhobeg;
   recip = one/rhosq;
   reciq = SQRT(half)/rhosq;
-- 
2.43.0


From abb91bddc35adb0587a2bb4ff9d24f3c873b409a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:19 +0000
Subject: [PATCH 29/46] fix: NEWUOA returns the best point even when the last
 value is NaN

---
 src/newuoa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/newuoa.c b/src/newuoa.c
index 37b0686..edd9e44 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -1639,7 +1639,7 @@ newuoa_optimize(INTEGER n, INTEGER npt,
   }
   status = NEWUOA_SUCCESS;
  done:
-  if (fopt <= f) {
+  if (! (f < fopt)) { /* the last value may be NaN */
     LOOP(i,n) {
       X(i) = XBASE(i) + XOPT(i);
     }
-- 
2.43.0


From 06a29d15bd88dc2d73e3744c7f8a416154e751cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:06 +0000
Subject: [PATCH 30/46] fix: BOBYQA leaves the variables unchanged when the
 bounds are too close

---
 src/bobyqa.c | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 8c8c257..cd63c3b 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -387,14 +387,12 @@ bobyqa_status bobyqa_optimize(
       }
     }
     if (scaling) {
-      /* If scaling, divide the initial variables and the bounds by the scaling
-         factors. */
+      /* If scaling, divide the bounds by the scaling factors. */
       REAL* tmpx  = w + WORK_SIZE(n, npt);
       REAL* tmpxl = tmpx + n;
       REAL* tmpxu = tmpxl + n;
       for (j = 0; j < n; ++j) {
         REAL s = one/scl[j];
-        x[j] *= s;
         tmpxl[j] = s*xl[j];
         tmpxu[j] = s*xu[j];
       }
@@ -405,6 +403,23 @@ bobyqa_status bobyqa_optimize(
     }
   }
 
+  /* Return if there is insufficient space between the bounds. */
+  for (j = 0; j < n; ++j) {
+    if (xu[j] - xl[j] < rhobeg + rhobeg) {
+      if (iprint > 0) {
+        print_error("one of the differences XU(I)-XL(I) is less than 2*RHOBEG");
+      }
+      return BOBYQA_TOO_CLOSE;
+    }
+  }
+
+  /* If scaling, divide the initial variables by the scaling factors. */
+  if (ctx.scl != NULL) {
+    for (j = 0; j < n; ++j) {
+      x[j] *= one/scl[j];
+    }
+  }
+
   /* Partition the working space array, so that different parts of it can
      be treated separately during the calculation of BOBYQB.  The partition
      requires the first (NPT+2)*(NPT+N)+3*N*(N+5)/2 elements of W plus the
@@ -428,20 +443,13 @@ bobyqa_status bobyqa_optimize(
   ivl = id + n;
   iw = ivl + ndim;
 
-  /* Return if there is insufficient space between the bounds.  Modify the
-     initial X if necessary in order to avoid conflicts between the bounds and
-     the construction of the first quadratic model.  The lower and upper bounds
-     on moves from the updated X are set now, in the ISL and ISU partitions of
-     W, in order to provide useful and exact information about components of X
-     that become within distance RHOBEG from their bounds. */
+  /* Modify the initial X if necessary in order to avoid conflicts between the
+     bounds and the construction of the first quadratic model.  The lower and
+     upper bounds on moves from the updated X are set now, in the ISL and ISU
+     partitions of W, in order to provide useful and exact information about
+     components of X that become within distance RHOBEG from their bounds. */
   for (j = 0; j < n; ++j) {
     temp = xu[j] - xl[j];
-    if (temp < rhobeg + rhobeg) {
-      if (iprint > 0) {
-        print_error("one of the differences XU(I)-XL(I) is less than 2*RHOBEG");
-      }
-      return BOBYQA_TOO_CLOSE;
-    }
     jsl = isl + j;
     jsu = jsl + n;
     w[jsl] = xl[j] - x[j];
-- 
2.43.0


From bc67833ecabf17425900d8ae8e90991a9db131b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:06 +0000
Subject: [PATCH 31/46] fix: BOBYQA never leaves the bounds when the variables
 are scaled

---
 src/bobyqa.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index cd63c3b..ef35e50 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -103,13 +103,15 @@ typedef struct {
   bobyqa_objfun* objfun; /* objective function */
   void*          data;   /* client data for the objective function */
   const REAL*    scl;    /* scaling factors */
+  const REAL*    xl;     /* lower bounds before scaling */
+  const REAL*    xu;     /* upper bounds before scaling */
   REAL*          ws;     /* temporary workspace */
   REAL           sgn;    /* sign: +1 for minimize, -1 for maximize */
   INTEGER        n;      /* number of variables */
 } context;
 
 #define GET_VARIABLES(ctx, x) ((ctx)->scl == NULL ? (x) : \
-                               scale((ctx)->ws, (ctx)->n, (ctx)->scl, (x)))
+                               unscale((ctx)->ws, (ctx), (x)))
 
 #define CALL_OBJFUN(ctx, x)   ((ctx)->objfun((ctx)->n, GET_VARIABLES(ctx, x), \
                                            (ctx)->data)*(ctx)->sgn)
@@ -171,17 +173,6 @@ update(const INTEGER n, const INTEGER npt, REAL* bmat,
        REAL* zmat, const INTEGER ndim, REAL* vlag, const REAL beta,
        const REAL denom, const INTEGER knew, REAL* w);
 
-static REAL*
-scale(REAL* dst, INTEGER n, const REAL* scl, const REAL* src)
-{
-  INTEGER i;
-
-  for (i = 0; i < n; ++i) {
-    dst[i] = scl[i]*src[i];
-  }
-  return dst;
-}
-
 /* `clamp(x,lo,hi)` returns the value in the range `[lo,hi]` which is the
    closest to `x`.  It is assumed that 'lo <= hi` holds.  */
 static REAL
@@ -190,6 +181,19 @@ clamp(REAL x, REAL lo, REAL hi)
   return (x >= hi ? hi : (x <= lo ? lo : x));
 }
 
+/* Multiply the variables by the scaling factors.  The result is clamped to the
+   bounds because of rounding errors. */
+static REAL*
+unscale(REAL* dst, const context* ctx, const REAL* src)
+{
+  INTEGER i;
+
+  for (i = 0; i < ctx->n; ++i) {
+    dst[i] = clamp(ctx->scl[i]*src[i], ctx->xl[i], ctx->xu[i]);
+  }
+  return dst;
+}
+
 static REAL
 min(REAL a, REAL b)
 {
@@ -370,6 +374,8 @@ bobyqa_status bobyqa_optimize(
   ctx.objfun = objfun;
   ctx.data = data;
   ctx.scl = NULL;
+  ctx.xl = xl;
+  ctx.xu = xu;
   ctx.ws = NULL;
   ctx.sgn = (maximize ? FLT(-1.0) : FLT(1.0));
   ctx.n = n;
@@ -487,7 +493,7 @@ bobyqa_status bobyqa_optimize(
 
   /* Scale the final variables, if scaling. */
   if (ctx.scl != NULL) {
-    scale(x, n, ctx.scl, x);
+    unscale(x, &ctx, x);
   }
 
   /* Return status. */
-- 
2.43.0


From c0258426941621c7e18318f6f341f5e2ee75cd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:06 +0000
Subject: [PATCH 32/46] fix: BOBYQA returns the best point when the last value
 is NaN or when the last step failed

---
 src/bobyqa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index ef35e50..947ea9b 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -1054,6 +1054,7 @@ bobyqb(const INTEGER n, const INTEGER npt, const context* ctx,
   /* Pick the next value of DELTA after a trust region step. */
   if (ntrits > 0) {
     if (vquad >= zero) {
+      fsave = f;
       goto step_failed;
     }
     ratio = (f - fopt)/vquad;
@@ -1325,7 +1326,7 @@ bobyqb(const INTEGER n, const INTEGER npt, const context* ctx,
     goto L360;
   }
  done:
-  if (fval[kopt] <= fsave) {
+  if (! (fsave < fval[kopt])) { /* the last value may be NaN */
     LOOP(i,n) {
       x[i] = (xopt[i]  == su[i] ? xu[i] :
               (xopt[i] == sl[i] ? xl[i] :
-- 
2.43.0


From 5af77d0d7294ec1338992f9edd40f160015e535c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:06 +0000
Subject: [PATCH 33/46] fix: COBYLA prints nothing when IPRINT is 0

---
 src/cobyla.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index 40142b5..69baa76 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -528,8 +528,10 @@ cobyla_optimize(INTEGER n, INTEGER m,
  call_calcfc:
   if (nfvals >= maxfun && nfvals > 0) {
     status = COBYLA_TOO_MANY_EVALUATIONS;
-    fprintf(stderr, "Return from subroutine COBYLA because %s.\n",
-            cobyla_reason(status));
+    if (iprint >= 1) {
+      fprintf(stderr, "Return from subroutine COBYLA because %s.\n",
+              cobyla_reason(status));
+    }
     goto L_600;
   }
 #ifdef COBYLA_REVCOM_
-- 
2.43.0


From 71266c2e41e751f42b2a849322cc3367dd3b8cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 34/46] fix: endless loop in COBYLA when function values are
 not finite

---
 src/cobyla.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index 69baa76..ed3e07c 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -794,15 +794,23 @@ cobyla_optimize(INTEGER n, INTEGER m,
     trstlp(n, m, a, con, rho, dx, &ifull, iact, z, zdota,
            vmc, sdirn, dxnew, vmd);
   }
-  if (ifull == 0) {
-    temp = zero;
-    LOOP(i,n) {
-      temp += DX(i)*DX(i);
-    }
-    if (temp < FLT(0.25)*rho*rho) {
-      ibrnch = 1;
-      goto L_550;
+  temp = zero;
+  LOOP(i,n) {
+    temp += DX(i)*DX(i);
+  }
+  if (temp - temp != zero) {
+    /* The step is not finite, certainly because some function values are not
+       finite.  There is no way to continue. */
+    status = COBYLA_ROUNDING_ERRORS;
+    if (iprint >= 1) {
+      fprintf(stderr, "Return from subroutine COBYLA because %s.\n",
+              cobyla_reason(status));
     }
+    goto L_600;
+  }
+  if (ifull == 0 && temp < FLT(0.25)*rho*rho) {
+    ibrnch = 1;
+    goto L_550;
   }
 
   /* Predict the change to F and the new maximum constraint violation if the
@@ -1527,7 +1535,7 @@ trstlp(const INTEGER n, const INTEGER m, const REAL a[], const REAL b[],
   /* If the full step is not acceptable then begin another iteration.
      Otherwise switch to stage two or end the calculation. */
   if (icon > 0) goto L_70;
-  if (step == stpful) goto L_500;
+  if (step == stpful || mcon > m) goto L_500; /* STEP may be a NaN */
  L_480:
   mcon = m + 1;
   icon = mcon;
-- 
2.43.0


From 056343700e17790ff2e9b1aca7c162fde48195a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:23 +0000
Subject: [PATCH 35/46] fix: NEWUOA and BOBYQA never evaluate the objective
 function at undefined variables

---
 src/bobyqa.c | 10 ++++++++++
 src/newuoa.c |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 947ea9b..3309be1 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -1010,6 +1010,11 @@ bobyqb(const INTEGER n, const INTEGER npt, const context* ctx,
             (xnew[i] == sl[i] ? xl[i] :
              clamp(xbase[i] + xnew[i], xl[i], xu[i])));
   }
+  LOOP(i,n) {
+    if (x[i] != x[i]) {
+      goto undefined_variables;
+    }
+  }
   if (nf >= maxfun) {
     goto too_many_evaluations;
   }
@@ -1359,6 +1364,11 @@ bobyqb(const INTEGER n, const INTEGER npt, const context* ctx,
   status = BOBYQA_ROUNDING_ERRORS;
   goto error;
 
+ undefined_variables:
+  reason = "the next variables are undefined";
+  status = BOBYQA_ROUNDING_ERRORS;
+  goto error;
+
  step_failed:
   reason = "a trust region step has failed to reduce Q";
   status = BOBYQA_STEP_FAILED;
diff --git a/src/newuoa.c b/src/newuoa.c
index edd9e44..795fbd6 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -1308,6 +1308,15 @@ newuoa_optimize(INTEGER n, INTEGER npt,
     XNEW(i) = XOPT(i) + D(i);
     X(i) = XBASE(i) + XNEW(i);
   }
+  LOOP(i,n) {
+    if (X(i) - X(i) != zero) {
+      /* The objective function cannot be computed there. */
+      f = fopt;
+      reason = "the next variables are not finite";
+      status = NEWUOA_ROUNDING_ERRORS;
+      goto done;
+    }
+  }
   ++nf;
  L310:
   if (nf > MAX(maxfun,1)) {
-- 
2.43.0


From 89e5289fa4417208fc175772e97a59ee68a6f2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:58 +0000
Subject: [PATCH 36/46] fix: NEWUOA, BOBYQA and COBYLA accepted undefined or
 infinite radii, undefined bounds, a single variable

---
 src/bobyqa.c | 4 ++--
 src/cobyla.c | 5 +++--
 src/newuoa.c | 7 ++++---
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 3309be1..542dea4 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -366,7 +366,7 @@ bobyqa_status bobyqa_optimize(
     }
     return BOBYQA_BAD_NPT;
   }
-  if (rhoend <= zero || rhoend > rhobeg) {
+  if (! (rhoend > zero && rhoend <= rhobeg) || rhobeg - rhobeg != zero) {
     return BOBYQA_BAD_RHO_RANGE;
   }
 
@@ -411,7 +411,7 @@ bobyqa_status bobyqa_optimize(
 
   /* Return if there is insufficient space between the bounds. */
   for (j = 0; j < n; ++j) {
-    if (xu[j] - xl[j] < rhobeg + rhobeg) {
+    if (! (xu[j] - xl[j] >= rhobeg + rhobeg)) { /* bounds may be NaN */
       if (iprint > 0) {
         print_error("one of the differences XU(I)-XL(I) is less than 2*RHOBEG");
       }
diff --git a/src/cobyla.c b/src/cobyla.c
index ed3e07c..b07ac87 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -208,7 +208,8 @@ cobyla_create(INTEGER n, INTEGER m, REAL rhobeg, REAL rhoend,
   size_t size, offset1, offset2;
 
   /* Check arguments. */
-  if (n < 1 || m < 0 || rhobeg < rhoend || rhoend <= 0 || maxfun < 1) {
+  if (n < 1 || m < 0 || ! (rhoend > 0 && rhoend <= rhobeg) ||
+      rhobeg - rhobeg != 0 || maxfun < 1) {
     errno = EINVAL;
     return NULL;
   }
@@ -425,7 +426,7 @@ cobyla_optimize(INTEGER n, INTEGER m,
   if (m < 0) {
     return COBYLA_BAD_NCONS;
   }
-  if (rhoend <= zero || rhoend > rhobeg) {
+  if (! (rhoend > zero && rhoend <= rhobeg) || rhobeg - rhobeg != zero) {
     return COBYLA_BAD_RHO_RANGE;
   }
 
diff --git a/src/newuoa.c b/src/newuoa.c
index 795fbd6..2706712 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -532,7 +532,7 @@ newuoa_create(const INTEGER n, const INTEGER npt,
   size_t size, offset;
 
   /* Check arguments. */
-  if (n < 0) {
+  if (n < 2) {
     if (iprint > 0) {
       print_error("invalid number of variables N");
     }
@@ -543,9 +543,10 @@ newuoa_create(const INTEGER n, const INTEGER npt,
     if (iprint > 0) {
       print_error("NPT is not in the required interval");
     }
+    errno = EINVAL;
     return NULL;
   }
-  if (rhoend <= 0 || rhoend > rhobeg) {
+  if (! (rhoend > 0 && rhoend <= rhobeg) || rhobeg - rhobeg != 0) {
     if (iprint > 0) {
       print_error("invalid RHOBEG and/or RHOEND");
     }
@@ -848,7 +849,7 @@ newuoa_optimize(INTEGER n, INTEGER npt,
     }
     return NEWUOA_BAD_NPT;
   }
-  if (rhoend <= zero || rhoend > rhobeg) {
+  if (! (rhoend > zero && rhoend <= rhobeg) || rhobeg - rhobeg != zero) {
     return NEWUOA_BAD_RHO_RANGE;
   }
 
-- 
2.43.0


From 4fe442ba63c497f842bd9da2801647b8c4a3a457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:08 +0000
Subject: [PATCH 37/46] fix: COBYLA drops the right constraint when exchanging
 active constraints

---
 src/cobyla.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index b07ac87..23b62ce 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -1119,11 +1119,11 @@ trstlp(const INTEGER n, const INTEGER m, const REAL a[], const REAL b[],
   const REAL Op1   = FLT(0.1);
   const REAL Op2   = FLT(0.2);
 
-  /* Local variables (FIXME: `iout` was unused). */
+  /* Local variables. */
   REAL acca, accb, alpha, beta, dd, optnew, optold, ratio, resmax, resold, sd,
     sp, spabs, ss, step, stpful, sum, sumabs, temp, tempa, tempb, tot, vsave,
     zdotv, zdotw, zdvabs, zdwabs;
-  INTEGER i, icon, icount, isave, j, k, kk, kl, kp, kw, mcon, nact, nactx;
+  INTEGER i, icon, icount, iout, isave, j, k, kk, kl, kp, kw, mcon, nact, nactx;
 
   *ifull = 1;
   icon = 0; /* FIXME: `icon` was uninitialized */
@@ -1239,6 +1239,7 @@ trstlp(const INTEGER n, const INTEGER m, const REAL a[], const REAL b[],
      of the linear combination.  Further, set IOUT to the index of the
      constraint to be deleted, but branch if no suitable index can be found. */
   ratio = -one;
+  iout = nact;
   k = nact;
  L_130:
   zdotv = zero;
@@ -1256,7 +1257,7 @@ trstlp(const INTEGER n, const INTEGER m, const REAL a[], const REAL b[],
       tempa = VMULTC(k)/temp;
       if (ratio < zero || tempa < ratio) {
         ratio = tempa;
-        /* iout = k; (FIXME: `iout` unused) */
+        iout = k;
       }
     }
     if (k >= 2) {
@@ -1280,10 +1281,10 @@ trstlp(const INTEGER n, const INTEGER m, const REAL a[], const REAL b[],
     tempb = VMULTC(k) - ratio*VMULTD(k);
     VMULTC(k) = MAX(zero, tempb);
   }
-  if (icon < nact) {
-    isave = IACT(icon);
-    vsave = VMULTC(icon);
-    k = icon;
+  if (iout < nact) {
+    isave = IACT(iout);
+    vsave = VMULTC(iout);
+    k = iout;
     do {
       kp = k + 1;
       kw = IACT(kp);
-- 
2.43.0


From 8fb959dfd827479c52b0b3031cf9438cef23bbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 38/46] fix: VMLMB gave up with a minimum step greater than the
 distance to the bounds

The minimum step length was relative to the step before it is shortened by
the bounds.  An infinite first step is now reported as an undefined value.
---
 src/vmlmb.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vmlmb.c b/src/vmlmb.c
index a4cc5c9..45cd594 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -679,7 +679,9 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
       }
     }
 
-    stpmin = opt->stp*opt->stpmin;
+    if (non_finite(opt->stp)) {
+      return failure(opt, OPK_UNDEFINED_VALUE);
+    }
     stpmax = opt->stp*opt->stpmax;
     if (bounded) {
       /* Shortcut the step length. */
@@ -703,6 +705,7 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
         stpmax = bsmax;
       }
     }
+    stpmin = opt->stp*opt->stpmin; /* relative to the actual first step */
 
     /* Save current point. */
     if (opt->save_memory) {
-- 
2.43.0


From 0f56cffe920e87c91b78b3a03fbb545edb45dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:08 +0000
Subject: [PATCH 39/46] fix: opk_gqtpar (Yorick) used an address past the end
 of the copied matrix

---
 yorick/opky.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yorick/opky.c b/yorick/opky.c
index 7191433..9615248 100644
--- a/yorick/opky.c
+++ b/yorick/opky.c
@@ -943,6 +943,7 @@ void Y_opk_gqtpar(int argc)
     if (type == Y_DOUBLE) {
       double* dst = ypush_d(dims);
       const double* src = (const double*)A;
+      A = (void*)dst;
       if (A_full) {
         for (j2 = 0; j2 < n; ++j2, dst += n, src += n) {
           for (j1 = 0; j1 <= j2; ++j1) {
@@ -956,10 +957,10 @@ void Y_opk_gqtpar(int argc)
           }
         }
       }
-      A = (void*)dst;
     } else {
       float* dst = ypush_f(dims);
       const float* src = (const float*)A;
+      A = (void*)dst;
       if (A_full) {
         for (j2 = 0; j2 < n; ++j2, dst += n, src += n) {
           for (j1 = 0; j1 <= j2; ++j1) {
@@ -973,7 +974,6 @@ void Y_opk_gqtpar(int argc)
           }
         }
       }
-      A = (void*)dst;
     }
     yarg_swap(A_iarg + 1, 0);
     yarg_drop(1);
-- 
2.43.0


From f3c1f2871cb2a02d792274a0e57c27dbcdb4714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:08 +0000
Subject: [PATCH 40/46] fix: opk_gqtpar (Yorick) overwrote the matrix of the
 caller when it is not a simple variable

---
 yorick/opky.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yorick/opky.c b/yorick/opky.c
index 9615248..c78dcde 100644
--- a/yorick/opky.c
+++ b/yorick/opky.c
@@ -898,7 +898,7 @@ void Y_opk_gqtpar(int argc)
     }
     A_temp = TRUE;
   } else {
-    A_temp = (yget_ref(A_iarg) < 0L);
+    A_temp = (yget_ref(A_iarg) < 0L && yarg_scratch(A_iarg));
   }
   if (b_type != type && ! IS_REAL(b_type)) {
     y_error("bad data type for vector B");
-- 
2.43.0


From dae3c0d89a3f7cf618511e7773dcb9d7981ec129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:08 +0000
Subject: [PATCH 41/46] fix: opk_start and opk_iterate (Yorick) never updated
 scalar variables

---
 yorick/opky.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/yorick/opky.c b/yorick/opky.c
index c78dcde..dee89b7 100644
--- a/yorick/opky.c
+++ b/yorick/opky.c
@@ -396,6 +396,25 @@ get_array(int iarg, const yopt_instance_t* opt)
   return arr;
 }
 
+/* Get the array of variables and the index of the corresponding Yorick variable
+   (-1 if it is not a simple variable reference). */
+static void*
+get_variables(int iarg, const yopt_instance_t* opt, long* index)
+{
+  *index = yget_ref(iarg);
+  return get_array(iarg, opt);
+}
+
+/* Update the Yorick variable with the array of variables.  This is needed if
+   the variables are a scalar which Yorick does not store as an array. */
+static void
+put_variables(int iarg, long index)
+{
+  if (index >= 0L && yarg_scratch(iarg)) {
+    yput_global(index, iarg);
+  }
+}
+
 static void
 get_bound(int iarg, yopt_instance_t* opt, value_t* val,
           opk_bound_type* type_ptr, void** addr_ptr)
@@ -761,12 +780,14 @@ void Y_opk_start(int argc)
 {
   yopt_instance_t* opt;
   void* x;
+  long x_index;
   opk_task task;
 
   if (argc != 2) y_error("expecting exactly 2 arguments");
   opt = get_opt_instance(1);
-  x = get_array(0, opt);
+  x = get_variables(0, opt, &x_index);
   task = opk_start(opt->optimizer, x);
+  put_variables(0, x_index);
   ypush_int(task);
 }
 
@@ -776,14 +797,16 @@ void Y_opk_iterate(int argc)
   double f;
   void* x;
   void* g;
+  long x_index;
   opk_task task;
 
   if (argc != 4) y_error("expecting exactly 4 arguments");
   opt = get_opt_instance(3);
-  x = get_array(2, opt);
+  x = get_variables(2, opt, &x_index);
   f = ygets_d(1);
   g = get_array(0, opt);
   task = opk_iterate(opt->optimizer, x, f, g);
+  put_variables(2, x_index);
   ypush_int(task);
 }
 
-- 
2.43.0


From 98dc6a5cd441e77e92bb61482aba9519fee688cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:08 +0000
Subject: [PATCH 42/46] fix: opk_minimize returns the best iterate when there
 are too many evaluations

---
 yorick/opky.i | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/yorick/opky.i b/yorick/opky.i
index 86cff44..3c3d8a8 100644
--- a/yorick/opky.i
+++ b/yorick/opky.i
@@ -319,6 +319,7 @@ func opk_minimize(fg, x0, &fx, &gx,
    SEE ALSO: opk_nlcg, opk_vmlmb.
  */
 {
+  local best_x, best_fx, best_gx;
   TRUE = 1n;
   FALSE = 0n;
   if (identof(x0) > Y_DOUBLE) {
@@ -371,7 +372,12 @@ func opk_minimize(fg, x0, &fx, &gx,
   for (;;) {
     if (task == OPK_TASK_COMPUTE_FG) {
       if (check_eval && opt.evaluations >= maxeval) {
-        /* FIXME: should restore best solution so far. */
+        /* Restore best solution so far. */
+        if (! is_void(best_x)) {
+          x = best_x;
+          fx = best_fx;
+          gx = best_gx;
+        }
         task = OPK_TASK_WARNING;
         reason = "too many evaluations";
         stage = 2;
@@ -398,6 +404,12 @@ func opk_minimize(fg, x0, &fx, &gx,
       }
       error, reason;
     }
+    if (stage == 1 && check_eval) {
+      /* Memorize best solution so far. */
+      best_x = x;
+      best_fx = fx;
+      best_gx = gx;
+    }
     if (stage >= 1) {
       if (verb) {
         evals = opt.evaluations;
-- 
2.43.0


From 5160d7f9556adbee64f12d43cb8e3ac657c628e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:08 +0000
Subject: [PATCH 43/46] fix: opk_minimize writes its warnings to OUTPUT also
 when VERB is not set

---
 yorick/opky.i | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yorick/opky.i b/yorick/opky.i
index 3c3d8a8..6d7f8a8 100644
--- a/yorick/opky.i
+++ b/yorick/opky.i
@@ -434,6 +434,9 @@ func opk_minimize(fg, x0, &fx, &gx,
       }
       if (stage >= 2) {
         if (task == OPK_TASK_WARNING) {
+          if (is_string(output)) {
+            output = open(output, "a");
+          }
           write, output, format="%sWARNING: %s\n", (verb ? "# " : ""), reason;
         }
         return x;
-- 
2.43.0


From 16b3f6783013385a1d19925dd655dd76cc3b5bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:08 +0000
Subject: [PATCH 44/46] fix: cobyla_minimize and cobyla_maximize gave an
 infeasible point as the best one with keyword ALL

---
 yorick/opky.i | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/yorick/opky.i b/yorick/opky.i
index 6d7f8a8..1e6c9b2 100644
--- a/yorick/opky.i
+++ b/yorick/opky.i
@@ -573,6 +573,13 @@ func cobyla_minimize(f, c, x0, rhobeg, rhoend, scale,
     x = scale*u;
   } while (status == COBYLA_ITERATE);
   if (status != COBYLA_SUCCESS) cobyla_error, status, err;
+  if (all && constrained) {
+    /* The extreme value may have been found at variables which violate the
+       constraints, the solution is the final variables. */
+    xmin = x;
+    fmin = f(x);
+    cmin = c(x);
+  }
   return (all ? save(fmin, cmin, xmin, nevals = ctx.nevals,
                      status, rho = ctx.rho*scale) : x);
 }
@@ -604,6 +611,13 @@ func cobyla_maximize(f, c, x0, rhobeg, rhoend, scale,
     x = scale*u;
   } while (status == COBYLA_ITERATE);
   if (status != COBYLA_SUCCESS) cobyla_error, status, err;
+  if (all && constrained) {
+    /* The extreme value may have been found at variables which violate the
+       constraints, the solution is the final variables. */
+    xmax = x;
+    fmax = f(x);
+    cmax = c(x);
+  }
   return (all ? save(fmax, cmax, xmax, nevals = ctx.nevals,
                      status, rho = ctx.rho*scale) : x);
 }
-- 
2.43.0


From fae8ef3d1eceb0313008ae0a48e9b93f2e4aada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:09 +0000
Subject: [PATCH 45/46] fix: opk_get_integer_constant knows OPK_NLCG_DEFAULT

---
 src/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index 468ddea..8e3a2c9 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -157,7 +157,7 @@ opk_get_integer_constant(const char* name, long* ptr)
     TEST(OPK_NLCG_HAGER_ZHANG);
     TEST(OPK_NLCG_POWELL);
     TEST(OPK_NLCG_SHANNO_PHUA);
-    TEST(OPK_NLCG_POLAK_RIBIERE_POLYAK);
+    TEST(OPK_NLCG_DEFAULT);
 
     TEST(OPK_BOUND_NONE);
     TEST(OPK_BOUND_SCALAR_FLOAT);
-- 
2.43.0


From 1354baf4f77e8ee28fb357f0bacbca935da24503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:31 +0000
Subject: [PATCH 46/46] fix: COBYLA prints the best variables with their
 scaling when rho is reduced

---
 src/cobyla.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index 23b62ce..a55a65f 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -972,8 +972,14 @@ cobyla_optimize(INTEGER n, INTEGER m,
       fprintf(stdout, "\n   Reduction in RHO to%13.6E  and PARMU =%13.6E\n",
               (double)rho, (double)parmu);
       if (iprint == 2) {
-        PRINT(stdout, n, nfvals, DATMAT(mp,np), DATMAT(mpp,np),
-                     &SIM(1,np));
+        /* Print the best variables in the units of the caller. */
+        xs = &SIM(1,np);
+#ifndef COBYLA_REVCOM_
+        if (scl != NULL) {
+          xs = scale(w, n, scl, xs);
+        }
+#endif
+        PRINT(stdout, n, nfvals, DATMAT(mp,np), DATMAT(mpp,np), xs);
       }
     }
     goto L_140;
-- 
2.43.0

