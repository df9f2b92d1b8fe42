From a44f111c2a143769a8bc815ffb36e32961fe4ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 01/15] fix: gf2e_t16_init reads past the multiplication table
 when degree < w

---
 src/gf2e.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gf2e.h b/src/gf2e.h
index a6a8542..bf0f176 100644
--- a/src/gf2e.h
+++ b/src/gf2e.h
@@ -167,7 +167,8 @@ static inline word *gf2e_t16_init(const gf2e *ff, const word a) {
   word *mul = (word*)m4ri_mm_calloc(1<<16, sizeof(word));
 
   const deg_t w = gf2e_degree_to_w(ff);
-  const word mask_w = (1<<w)-1;
+  /* a slot is w bits wide but only holds elements of degree bits */
+  const word mask_w = (1<<ff->degree)-1;
 
   /**
    * @todo: this is a bit of overkill, we could do better
-- 
2.43.0


From 6f0ca9a326b64001027c9589e249b4929ac83b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 02/15] fix: mzd_slice_rescale_row addresses row r of a one-row
 copy

---
 src/conversion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conversion.h b/src/conversion.h
index 81068bc..bda003b 100644
--- a/src/conversion.h
+++ b/src/conversion.h
@@ -287,7 +287,7 @@ static inline void mzd_slice_rescale_row(mzd_slice_t *A, rci_t r, rci_t c, word
   mzd_slice_t *A_w = mzd_slice_init_window(A, r, 0, r+1, A->ncols);
   mzed_t *A_we = mzed_cling(NULL, A_w);
 
-  mzed_rescale_row(A_we, r, c, x);
+  mzed_rescale_row(A_we, 0, c, x);
 
   mzed_slice(A_w, A_we);
   mzed_free(A_we);
-- 
2.43.0


From d24743b6219920f62a91a980f81401bf76761f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 03/15] fix: mzed_(add)mul_strassen with cutoff 0 never
 terminates instead of using the heuristic cutoff

---
 src/strassen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/strassen.c b/src/strassen.c
index c36520b..31815ab 100644
--- a/src/strassen.c
+++ b/src/strassen.c
@@ -32,11 +32,15 @@
 
 mzed_t *mzed_mul_strassen(mzed_t *C, const mzed_t *A, const mzed_t *B, int cutoff) {
   C = _mzed_mul_init(C, A, B, TRUE);
+  if (cutoff == 0)
+    cutoff = _mzed_strassen_cutoff(C, A, B);
   return _mzed_mul_strassen(C, A, B, cutoff);
 }
 
 mzed_t *mzed_addmul_strassen(mzed_t *C, const mzed_t *A, const mzed_t *B, int cutoff) {
   C = _mzed_mul_init(C, A, B, FALSE);
+  if (cutoff == 0)
+    cutoff = _mzed_strassen_cutoff(C, A, B);
   return _mzed_addmul_strassen(C, A, B, cutoff);
 }
 
-- 
2.43.0


From acb6ad144401786d25b0f0925c08b5245bd1ae91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 04/15] fix: Newton-John product and echelon form fault on
 windows at odd word offsets

---
 src/newton_john.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/newton_john.c b/src/newton_john.c
index 606a2bc..1d71a94 100644
--- a/src/newton_john.c
+++ b/src/newton_john.c
@@ -237,6 +237,15 @@ rci_t mzed_echelonize_newton_john(mzed_t *A, int full) {
 
   rci_t r,c;
 
+  /* a window may not be aligned as the tables are, which the row operations rely on */
+  if(mzd_is_windowed(A->x) && A->nrows && __M4RI_ALIGNMENT(A->x->rows[0], 16)) {
+    mzed_t *Abar = mzed_copy(NULL, A);
+    r = mzed_echelonize_newton_john(Abar, full);
+    mzed_copy(A, Abar);
+    mzed_free(Abar);
+    return r;
+  }
+
   rci_t k = ff->degree;
 
   /* cf. mzd_echelonize_m4ri */
@@ -413,6 +422,15 @@ mzed_t *_mzed_mul_newton_john(mzed_t *C, const mzed_t *A, const mzed_t *B) {
   if (A->finite_field->degree > A->nrows)
     return _mzed_mul_naive(C, A, B);
 
+  /* a window may not be aligned as the tables are, which mzed_combine8 relies on */
+  if(mzd_is_windowed(C->x) && C->nrows && __M4RI_ALIGNMENT(C->x->rows[0], 16)) {
+    mzed_t *Cbar = mzed_copy(NULL, C);
+    _mzed_mul_newton_john(Cbar, A, B);
+    mzed_copy(C, Cbar);
+    mzed_free(Cbar);
+    return C;
+  }
+
   njt_mzed_t *T0 = njt_mzed_init(B->finite_field, B->ncols);
   njt_mzed_t *T1 = njt_mzed_init(B->finite_field, B->ncols);
   njt_mzed_t *T2 = njt_mzed_init(B->finite_field, B->ncols);
-- 
2.43.0


From 047a953ed5c1b8c0ce93515afabdf1db69dcaa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 05/15] fix: _blm_finish_polymult loops forever or reads out of
 bounds for unbalanced or dependent maps

The pairs (v,w) with w >= v only span the symmetric forms, which is not
enough when F != G, when the number of columns differ or when the plan has
more products than there are such pairs (e.g. crt_init(4,4)). Solve for H
on all pairs instead.
---
 src/blm.c | 101 +++++++++++-------------------------------------------
 1 file changed, 20 insertions(+), 81 deletions(-)

diff --git a/src/blm.c b/src/blm.c
index 1cff88b..52966a9 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -384,91 +384,30 @@ blm_t *_blm_finish_polymult(const gf2e *ff, blm_t *f) {
   const rci_t m = f->F->nrows;
   const rci_t c_nrows = f->F->ncols + f->G->ncols - 1;
 
-  mzd_t *H = mzd_init(c_nrows, m);
-
-  mzd_t *F_T = mzd_transpose(NULL, f->F);
-  mzd_t *G_T = mzd_transpose(NULL, f->G);
-
-  mzd_t *C = mzd_init(m, m);
-
-  /* we find a full rank matrix */
-
-  word v = 0;
-  word w = 0;
-  rci_t r = 0;
-  rci_t rank = 0;
-
-  mzd_t *pivots = mzd_init(m, m4ri_radix*2);
-
-  mzp_t *P = mzp_init(m);
-  mzp_t *Q = mzp_init(m);
-
-  while(rank < m) {
-    /* x^v = (0, 0, ... , 1, ..., 0, 0) * F_T -> select row v */
-    for(wi_t j=0; j< C->width; j++)
-      C->rows[r][j] = F_T->rows[v][j] & G_T->rows[w][j];
-
-    pivots->rows[r][0] = v;
-    pivots->rows[r][1] = w;
-
-    w++;
-    if (w == (word)f->G->ncols) {
-      v++;
-      if (v == (word)f->F->ncols)
-        v = 0;
-      w = v;
+  /* one equation (F*x^v x G*x^w) * H^T = x^(v+w) for each pair v,w */
+  const rci_t pairs = f->F->ncols * f->G->ncols;
+  const rci_t n = (pairs > m) ? pairs : m;
+
+  mzd_t *C = mzd_init(n, m);
+  mzd_t *X = mzd_init(n, c_nrows);
+
+  for(rci_t v=0; v<f->F->ncols; v++) {
+    for(rci_t w=0; w<f->G->ncols; w++) {
+      const rci_t r = v*f->G->ncols + w;
+      for(rci_t i=0; i<m; i++)
+        mzd_write_bit(C, r, i, mzd_read_bit(f->F, i, v) & mzd_read_bit(f->G, i, w));
+      mzd_write_bit(X, r, v+w, 1);
     }
-    r++;
-    if (r == C->nrows) {
-      mzd_t *D = mzd_copy(NULL, C);
-      rank = mzd_ple(D, P, Q, 0);
-      mzd_apply_p_left(pivots, P);
-      mzd_apply_p_left(C, P);
-      mzd_free(D);
-
-      if (rank < m)
-        r = rank;
-    }
-  }
-  mzp_free(P);
-  mzp_free(Q);
-
-  for(r=0; r<m; r++) {
-    /* x^v = (0, 0, ... , 1, ..., 0, 0) * F_T -> select row v */
-    v = pivots->rows[r][0];
-    w = pivots->rows[r][1];
-    for(wi_t j=0; j< C->width; j++)
-      C->rows[r][j] = F_T->rows[v][j] & G_T->rows[w][j];
   }
-  mzd_free(F_T);
-  mzd_free(G_T);
 
-  // This should be replaced by TRSM calls
-  mzd_t *D = mzd_inv_m4ri(NULL, C, 0); 
-  mzd_free(C);
-  mzd_t *DT = mzd_transpose(NULL, D);
-  mzd_free(D);
-
-  mzd_t *a = mzd_init(1, m);
-  mzd_t *b = mzd_init(1, H->ncols);
-
-  for(rci_t i=0; i<H->nrows; i++) {
-    mzd_set_ui(a, 0);
-    for(rci_t j=0; j<m; j++) {
-      v = pivots->rows[j][0];
-      w = pivots->rows[j][1];
-      if ((v+w) == (word)i)
-        mzd_write_bit(a, 0, j, 1);
-    }
-    mzd_mul(b, a, DT, 0);
+  if (m == 0 || mzd_solve_left(C, X, 0, 1) != 0)
+    m4ri_die("_blm_finish_polymult: F and G do not determine the product.\n");
 
-    /* copy result to H */
-    for(rci_t j=0; j<H->ncols; j++)
-      mzd_write_bit(H, i, j, mzd_read_bit(b, 0, j ));
-  }
-  mzd_free(a);
-  mzd_free(b);
-  mzd_free(pivots);
+  mzd_t *HT = mzd_submatrix(NULL, X, 0, 0, m, c_nrows);
+  mzd_t *H  = mzd_transpose(NULL, HT);
+  mzd_free(HT);
+  mzd_free(X);
+  mzd_free(C);
 
   if (ff == NULL) {
     f->H = H;
-- 
2.43.0


From 7a28f2e58e17c0dd02c6c066577563833b2bacad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 06/15] fix: crt_init returns an empty plan where schoolbook
 multiplication is cheaper

---
 src/blm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blm.c b/src/blm.c
index 52966a9..2a68363 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include <m4ri/djb.h>
 #include <m4rie/blm.h>
 #include <m4rie/mzd_ptr.h>
@@ -104,7 +105,7 @@ void _mzd_ptr_apply_blm_djb(mzd_t **X, const mzd_t **A, const mzd_t **B, const b
 
 int *crt_init(const deg_t f_len, const deg_t g_len) {
   int *p_best = (int*)m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int));
-  int  c_best = f_len * g_len;
+  int  c_best = INT_MAX;
 
   int *p = (int*)m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int));
 
-- 
2.43.0


From fe96c30db09ee2b7971f7c449a970a495f17d10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 07/15] fix: blm_free dereferences NULL for maps without DJB
 encoding

---
 src/blm.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/blm.c b/src/blm.c
index 2a68363..b76a48b 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -552,10 +552,12 @@ void blm_free(blm_t *f) {
   mzd_free(f->F);
   mzd_free(f->G);
   mzd_free(f->H);
-  if (f->f != f->g)
-    djb_free(f->g);
-  djb_free(f->f);
-  djb_free(f->h);
+  if (f->f != NULL) {
+    if (f->f != f->g)
+      djb_free(f->g);
+    djb_free(f->f);
+    djb_free(f->h);
+  }
 
   m4ri_mm_free(f);
 }
-- 
2.43.0


From e464c77e4fa5d76230fe42398a3e4fd755bedda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:27 +0000
Subject: [PATCH 08/15] fix: DJB encoded bilinear maps overwrite their target
 instead of adding to it

---
 src/blm.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/blm.c b/src/blm.c
index b76a48b..e3eeaeb 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -90,7 +90,17 @@ void _mzd_ptr_apply_blm_djb(mzd_t **X, const mzd_t **A, const mzd_t **B, const b
 
   
 
-  djb_apply_mzd_ptr(f->h, X, (const mzd_t**)t0);
+  mzd_t **t3 = (mzd_t**)m4ri_mm_malloc(sizeof(mzd_t*)*f->H->nrows);
+  for(rci_t i=0; i<f->H->nrows; i++)
+    t3[i] = mzd_init(A[0]->nrows, B[0]->ncols);
+
+  djb_apply_mzd_ptr(f->h, t3, (const mzd_t**)t0);
+
+  for(rci_t i=0; i<f->H->nrows; i++) {
+    mzd_add(X[i], X[i], t3[i]);
+    mzd_free(t3[i]);
+  }
+  m4ri_mm_free(t3);
 
   for(rci_t i=0; i<f->F->nrows; i++) {
     mzd_free(t0[i]);
-- 
2.43.0


From 2671872552c3b2a2f2913069992486e6436283fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 09/15] fix: reduction modulo (x-infinity)^d writes left of the
 matrix for d > length

---
 src/blm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blm.c b/src/blm.c
index e3eeaeb..7b92a8e 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -355,7 +355,7 @@ mzd_t *_crt_modred_mat(const deg_t length, const word poly, const deg_t d) {
 
   /* (x-infinity)^d */
   if (poly == 0) {
-    for(deg_t i=0; i<d; i++) 
+    for(deg_t i=0; i<d && i<length; i++) 
       mzd_write_bit(A, i, length-i-1, 1);
     return A;
   }
-- 
2.43.0


From ff1c843f591cd4488f78bee0edeb0efbc2aace08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 10/15] fix: _mzd_poly_adapt_depth writes past the coefficient
 array when growing

---
 src/mzd_poly.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mzd_poly.h b/src/mzd_poly.h
index 4736c0d..8ac1ee6 100644
--- a/src/mzd_poly.h
+++ b/src/mzd_poly.h
@@ -130,10 +130,15 @@ static inline mzd_poly_t *_mzd_poly_adapt_depth(mzd_poly_t *A, const deg_t new_d
       mzd_free(A->x[i]);
       A->x[i] = NULL;
     }
-  } else {
+  } else if (new_depth > A->depth) {
+    mzd_t **x = (mzd_t**)m4ri_mm_malloc(sizeof(mzd_t*)*new_depth);
+    for(int i=0; i<A->depth; i++)
+      x[i] = A->x[i];
     for(int i=A->depth; i<new_depth; i++) {
-      A->x[i] = mzd_init(A->nrows,A->ncols);
+      x[i] = mzd_init(A->nrows,A->ncols);
     }
+    m4ri_mm_free(A->x);
+    A->x = x;
   }
   A->depth = new_depth;
   return A;
-- 
2.43.0


From 36012d4ed81a84e1135b0a840ae01c5cdefbc863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 11/15] fix: _mzd_poly_addmul_ext1 faults on constant
 polynomials

---
 src/mzd_poly.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mzd_poly.c b/src/mzd_poly.c
index 0cd0815..f015870 100644
--- a/src/mzd_poly.c
+++ b/src/mzd_poly.c
@@ -11,6 +11,10 @@ static inline mzd_slice_t * mzd_slice_addmul_mzd(mzd_slice_t *C, const word a, c
 
 mzd_poly_t *_mzd_poly_addmul_ext1(mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
   const int d = A->depth + B->depth-1;
+  if (d == 1) {
+    mzd_addmul(C->x[0], A->x[0], B->x[0], 0);
+    return C;
+  }
   const int log2d = (int)ceil(log2( (double)d ));
   assert(log2d <= 16);
 
-- 
2.43.0


From 5cf7825c5066ec0d99883a3aa9197e223c6f3269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:07 +0000
Subject: [PATCH 12/15] fix: _mzd_poly_addmul_ext1 aborts on products with two
 coefficients

---
 src/mzd_poly.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mzd_poly.c b/src/mzd_poly.c
index f015870..e325c10 100644
--- a/src/mzd_poly.c
+++ b/src/mzd_poly.c
@@ -15,7 +15,8 @@ mzd_poly_t *_mzd_poly_addmul_ext1(mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
     mzd_addmul(C->x[0], A->x[0], B->x[0], 0);
     return C;
   }
-  const int log2d = (int)ceil(log2( (double)d ));
+  /* two evaluation points already exist in GF(2), but the smallest extension we have is GF(2^2) */
+  const int log2d = (d == 2) ? 2 : (int)ceil(log2( (double)d ));
   assert(log2d <= 16);
 
   gf2e *ff = gf2e_init(irreducible_polynomials[log2d][1]);
-- 
2.43.0


From e266fba3e171b2536b2ae0b13628ce3b34707b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:41 +0000
Subject: [PATCH 13/15] fix: free the working rows of _crt_modred_mat

Every call leaked two matrices, so every blm_init_crt and every product
through a bilinear map that is created on the fly did.
---
 src/blm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blm.c b/src/blm.c
index 7b92a8e..24017bb 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -386,6 +386,8 @@ mzd_t *_crt_modred_mat(const deg_t length, const word poly, const deg_t d) {
     for(deg_t j=0; j<= ii; j++) 
       mzd_write_bit(A, j, i, (f->rows[0][j/m4ri_radix]>>(j%m4ri_radix)) & 0x1);
   }
+  mzd_free(f);
+  mzd_free(t);
   return A;
 }
 
-- 
2.43.0


From 1d831ccf4ea57db09799b27dc1c5703edc143a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:09 +0000
Subject: [PATCH 14/15] fix: check the target of mzed_mul_scalar

For small matrices and for degrees above 8 the dimensions and the field of
the target were checked by mzed_copy; for large ones nothing was checked and
the product was written beyond a target of other dimensions.
---
 src/mzed.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mzed.c b/src/mzed.c
index 093b9ee..613b2a4 100644
--- a/src/mzed.c
+++ b/src/mzed.c
@@ -144,6 +144,8 @@ mzed_t *mzed_mul_scalar(mzed_t *C, const word a, const mzed_t *B) {
    */
   if(C == NULL)
     C = mzed_init(B->finite_field, B->nrows, B->ncols);
+  else if (C->finite_field != B->finite_field || C->nrows != B->nrows || C->ncols != B->ncols)
+    m4ri_die("mzed_mul_scalar: rows, columns and field of returned matrix must match.\n");
 
   const gf2e *ff = B->finite_field;
 
-- 
2.43.0


From 09162930f2f7f469582c48f3ff63f776c611720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:47 +0000
Subject: [PATCH 15/15] fix: mzed_process_rows5/6 over fields of degree above 8

Five or six entries of 16 bits do not fit in the one word which
mzd_process_rows5/6 read, so that wrong multiples of the tables were
added. Look the entries up one by one in this case.
---
 src/newton_john.h | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/newton_john.h b/src/newton_john.h
index b1e41e3..b008325 100644
--- a/src/newton_john.h
+++ b/src/newton_john.h
@@ -307,6 +307,22 @@ static inline void mzed_process_rows4(mzed_t *M, const rci_t startrow, const rci
 
 static inline void mzed_process_rows5(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2, const njt_mzed_t *T3, const njt_mzed_t *T4) {
+  if(5*M->w > m4ri_radix) {
+    /* the entries looked up do not fit in one word */
+    for(rci_t i=startrow; i<endrow; i++) {
+      const rci_t x0 = T0->L[mzed_read_elem(M, i, startcol  )];
+      const rci_t x1 = T1->L[mzed_read_elem(M, i, startcol+1)];
+      const rci_t x2 = T2->L[mzed_read_elem(M, i, startcol+2)];
+      const rci_t x3 = T3->L[mzed_read_elem(M, i, startcol+3)];
+      const rci_t x4 = T4->L[mzed_read_elem(M, i, startcol+4)];
+      mzed_add_row(M, i, T0->T, x0, startcol);
+      mzed_add_row(M, i, T1->T, x1, startcol);
+      mzed_add_row(M, i, T2->T, x2, startcol);
+      mzed_add_row(M, i, T3->T, x3, startcol);
+      mzed_add_row(M, i, T4->T, x4, startcol);
+    }
+    return;
+  }
   mzd_process_rows5(M->x, startrow, endrow, startcol*M->w, 5*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L, T3->T->x, T3->L, T4->T->x, T4->L);
 }
 
@@ -332,6 +348,24 @@ static inline void mzed_process_rows5(mzed_t *M, const rci_t startrow, const rci
 static inline void mzed_process_rows6(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2,
                                       const njt_mzed_t *T3, const njt_mzed_t *T4, const njt_mzed_t *T5) {
+  if(6*M->w > m4ri_radix) {
+    /* the entries looked up do not fit in one word */
+    for(rci_t i=startrow; i<endrow; i++) {
+      const rci_t x0 = T0->L[mzed_read_elem(M, i, startcol  )];
+      const rci_t x1 = T1->L[mzed_read_elem(M, i, startcol+1)];
+      const rci_t x2 = T2->L[mzed_read_elem(M, i, startcol+2)];
+      const rci_t x3 = T3->L[mzed_read_elem(M, i, startcol+3)];
+      const rci_t x4 = T4->L[mzed_read_elem(M, i, startcol+4)];
+      const rci_t x5 = T5->L[mzed_read_elem(M, i, startcol+5)];
+      mzed_add_row(M, i, T0->T, x0, startcol);
+      mzed_add_row(M, i, T1->T, x1, startcol);
+      mzed_add_row(M, i, T2->T, x2, startcol);
+      mzed_add_row(M, i, T3->T, x3, startcol);
+      mzed_add_row(M, i, T4->T, x4, startcol);
+      mzed_add_row(M, i, T5->T, x5, startcol);
+    }
+    return;
+  }
   mzd_process_rows6(M->x, startrow, endrow, startcol*M->w, 6*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L, T3->T->x, T3->L, T4->T->x, T4->L, T5->T->x, T5->L);
 }
 
-- 
2.43.0

