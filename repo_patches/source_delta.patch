From 242b551969b71852b162a388b9d127eb2d5456e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 01/59] fix: gemv must scale y when op(A) has no columns

gemv returned early when n == 0 (or, for the transposed operations, when
the reduction dimension was empty) and left y untouched, although
y := alpha*op(A)*x + beta*y reduces to y := beta*y (or y := 0 in the
version without beta) in that case.
---
 include/tlapack/blas/gemv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/blas/gemv.hpp b/include/tlapack/blas/gemv.hpp
index 032a25e..036def6 100644
--- a/include/tlapack/blas/gemv.hpp
+++ b/include/tlapack/blas/gemv.hpp
@@ -79,7 +79,7 @@ void gemv(Op trans,
     tlapack_check_false((idx_t)size(y) != m);
 
     // quick return
-    if (m == 0 || n == 0) return;
+    if (m == 0) return;
 
     // form y := beta*y
     for (idx_t i = 0; i < m; ++i)
-- 
2.43.0


From feb0e1fdcb48e1a427535d1535b95730671bbe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:28 +0000
Subject: [PATCH 02/59] fix: ul_mult must return on an empty matrix instead of
 recursing forever

---
 include/tlapack/lapack/ul_mult.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/ul_mult.hpp b/include/tlapack/lapack/ul_mult.hpp
index f9ba976..11693bb 100644
--- a/include/tlapack/lapack/ul_mult.hpp
+++ b/include/tlapack/lapack/ul_mult.hpp
@@ -43,8 +43,8 @@ int ul_mult(matrix_t& A)
     // constant
     const idx_t n = ncols(A);
 
-    // if L and U are 1-by-1, then L is 1 and we simply UL=A(0,0)
-    if (n == 1) return 0;
+    // quick return, also if L and U are 1-by-1: then L is 1 and UL=A(0,0)
+    if (n <= 1) return 0;
 
     // if n>1
     idx_t n0 = n / 2;
-- 
2.43.0


From 307005121fa5661ac11e60f68e3016e9a650ed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:28 +0000
Subject: [PATCH 03/59] fix: mult_hehe must not touch element (0,0) of empty
 matrices

---
 include/tlapack/lapack/mult_hehe.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/mult_hehe.hpp b/include/tlapack/lapack/mult_hehe.hpp
index 3943cc8..0016533 100644
--- a/include/tlapack/lapack/mult_hehe.hpp
+++ b/include/tlapack/lapack/mult_hehe.hpp
@@ -70,7 +70,10 @@ void mult_hehe(Uplo uplo,
 
     if (m != n) return;
 
-    if (n <= 1) {
+    // quick return
+    if (n == 0) return;
+
+    if (n == 1) {
         C(0, 0) = alpha * real(A(0, 0)) * real(B(0, 0)) + beta * C(0, 0);
         return;
     }
-- 
2.43.0


From 465832c2d4f9f674241142990048863a8d688ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:28 +0000
Subject: [PATCH 04/59] fix: trmm_out must return on empty operands instead of
 recursing forever

---
 include/tlapack/lapack/trmm_out.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tlapack/lapack/trmm_out.hpp b/include/tlapack/lapack/trmm_out.hpp
index 4772496..acea4b0 100644
--- a/include/tlapack/lapack/trmm_out.hpp
+++ b/include/tlapack/lapack/trmm_out.hpp
@@ -99,6 +99,9 @@ void trmm_out(Side side,
     m = (transB == Op::NoTrans) ? nrows(B) : ncols(B);
     n = (transB == Op::NoTrans) ? ncols(B) : nrows(B);
 
+    // quick return
+    if (m == 0 || n == 0) return;
+
     if (transB == Op::NoTrans) {
         if (uplo == Uplo::Upper) {
             if (diag == Diag::NonUnit) {
-- 
2.43.0


From 418ff8bd2821de33d9cc902c1bd050e33f93888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:33 +0000
Subject: [PATCH 05/59] fix: getri_uxli on an empty matrix

---
 include/tlapack/lapack/getri_uxli.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/getri_uxli.hpp b/include/tlapack/lapack/getri_uxli.hpp
index e778b59..b6118b8 100644
--- a/include/tlapack/lapack/getri_uxli.hpp
+++ b/include/tlapack/lapack/getri_uxli.hpp
@@ -29,7 +29,7 @@ template <class T, TLAPACK_SMATRIX matrix_t>
 constexpr WorkInfo getri_uxli_worksize(const matrix_t& A)
 {
     if constexpr (is_same_v<T, type_t<matrix_t>>)
-        return WorkInfo(ncols(A) - 1);
+        return WorkInfo((ncols(A) > 0) ? ncols(A) - 1 : 0);
     else
         return WorkInfo(0);
 }
@@ -55,6 +55,9 @@ int getri_uxli_work(matrix_t& A, work_t& work)
     // check arguments
     tlapack_check(nrows(A) == n);
 
+    // Quick return
+    if (n <= 0) return 0;
+
     // Vector W
     auto [W, work2] = reshape(work, n - 1);
 
-- 
2.43.0


From 9759a18ff46dcedc9bb22a5a89c5cfae938bca75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:33 +0000
Subject: [PATCH 06/59] fix: trsm_tri on empty matrices

---
 include/tlapack/lapack/trsm_tri.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tlapack/lapack/trsm_tri.hpp b/include/tlapack/lapack/trsm_tri.hpp
index 8330517..976d1b5 100644
--- a/include/tlapack/lapack/trsm_tri.hpp
+++ b/include/tlapack/lapack/trsm_tri.hpp
@@ -118,6 +118,9 @@ void trsm_tri(Side sideA,
 
     idx_t n = nrows(A);
 
+    // Quick return
+    if (n <= 0) return;
+
     // lascl(uploB, T(1.), alpha, B); this does not work
 
     if (uploB == Uplo::Upper) {
-- 
2.43.0


From e22acbc3a254e8dc668e6202a687f797cfd069d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 07/59] fix: getri_worksize did not compile

---
 include/tlapack/lapack/getri.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/getri.hpp b/include/tlapack/lapack/getri.hpp
index 3696427..ccd0b2b 100644
--- a/include/tlapack/lapack/getri.hpp
+++ b/include/tlapack/lapack/getri.hpp
@@ -49,7 +49,7 @@ constexpr WorkInfo getri_worksize(const matrix_t& A,
                                   const GetriOpts& opts = {})
 {
     if (opts.variant == GetriVariant::UXLI)
-        return getri_uxli_worksize<T>(A, opts);
+        return getri_uxli_worksize<T>(A);
 
     return WorkInfo(0);
 }
-- 
2.43.0


From f2d571cba49efeeaaf4697b8cecee7b4dae36381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 08/59] fix: ungq with no reflectors divided by zero

---
 include/tlapack/lapack/ungq.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/tlapack/lapack/ungq.hpp b/include/tlapack/lapack/ungq.hpp
index 304d7f5..9cc3bcd 100644
--- a/include/tlapack/lapack/ungq.hpp
+++ b/include/tlapack/lapack/ungq.hpp
@@ -73,6 +73,10 @@ constexpr WorkInfo ungq_worksize(direction_t direction,
     const idx_t nb = min((idx_t)opts.nb, k);
 
     WorkInfo workinfo;
+
+    // No reflectors: no workspace needed
+    if (k <= 0) return workinfo;
+
     auto&& V = (storeMode == StoreV::Columnwise)
                    ? slice(A, range{0, m}, range{0, nb})
                    : slice(A, range{0, nb}, range{0, n});
@@ -164,6 +168,9 @@ int ungq_work(direction_t direction,
     // quick return
     if (m <= 0 || n <= 0) return 0;
 
+    // No reflectors: Q is a block of the identity matrix
+    if (k <= 0) return ungq_level2_work(direction, storeMode, A, tau, work);
+
     // Matrix matrixT
     auto [matrixT, work1] =
         (min(m, n) > nb) ? reshape(work, nb, nb) : reshape(work, 0, 0);
-- 
2.43.0


From 3eb34ede9101a378f1b8357b374e41d7bdaa4d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 09/59] fix: ungq_level2, ung2r, ung2l, ungl2, ungr2 workspace
 query with an empty tau read tau out of range

---
 include/tlapack/lapack/ung2l.hpp       | 2 +-
 include/tlapack/lapack/ung2r.hpp       | 2 +-
 include/tlapack/lapack/ungl2.hpp       | 2 +-
 include/tlapack/lapack/ungq_level2.hpp | 4 ++--
 include/tlapack/lapack/ungr2.hpp       | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/tlapack/lapack/ung2l.hpp b/include/tlapack/lapack/ung2l.hpp
index 7995846..152e4ba 100644
--- a/include/tlapack/lapack/ung2l.hpp
+++ b/include/tlapack/lapack/ung2l.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ung2l_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (n > 1 && size(tau) > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, BACKWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/ung2r.hpp b/include/tlapack/lapack/ung2r.hpp
index 3657fcd..646d2af 100644
--- a/include/tlapack/lapack/ung2r.hpp
+++ b/include/tlapack/lapack/ung2r.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ung2r_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (n > 1 && size(tau) > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, FORWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/ungl2.hpp b/include/tlapack/lapack/ungl2.hpp
index 52681a1..3346734 100644
--- a/include/tlapack/lapack/ungl2.hpp
+++ b/include/tlapack/lapack/ungl2.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ungl2_worksize(const matrix_t& Q, const vector_t& tauw)
     // constants
     const idx_t k = nrows(Q);
 
-    if (k > 1) {
+    if (k > 1 && size(tauw) > 0) {
         auto&& C = rows(Q, range{1, k});
         return larf_worksize<T>(RIGHT_SIDE, FORWARD, ROWWISE_STORAGE, row(Q, 0),
                                 tauw[0], C);
diff --git a/include/tlapack/lapack/ungq_level2.hpp b/include/tlapack/lapack/ungq_level2.hpp
index 3b39478..e90142c 100644
--- a/include/tlapack/lapack/ungq_level2.hpp
+++ b/include/tlapack/lapack/ungq_level2.hpp
@@ -61,13 +61,13 @@ constexpr WorkInfo ungq_level2_worksize(direction_t direction,
     const idx_t n = ncols(A);
 
     if (storeMode == StoreV::Columnwise) {
-        return (n > 1)
+        return (n > 1 && size(tau) > 0)
                    ? larf_worksize<T>(LEFT_SIDE, direction, COLUMNWISE_STORAGE,
                                       col(A, 0), tau[0], cols(A, range{1, n}))
                    : WorkInfo(0);
     }
     else {
-        return (m > 1)
+        return (m > 1 && size(tau) > 0)
                    ? larf_worksize<T>(RIGHT_SIDE, direction, ROWWISE_STORAGE,
                                       row(A, 0), tau[0], rows(A, range{1, m}))
                    : WorkInfo(0);
diff --git a/include/tlapack/lapack/ungr2.hpp b/include/tlapack/lapack/ungr2.hpp
index 8a92e8f..b3df24b 100644
--- a/include/tlapack/lapack/ungr2.hpp
+++ b/include/tlapack/lapack/ungr2.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ungr2_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t m = nrows(A);
 
-    if (m > 1) {
+    if (m > 1 && size(tau) > 0) {
         auto&& C = rows(A, range{1, m});
         return larf_worksize<T>(RIGHT_SIDE, BACKWARD, ROWWISE_STORAGE,
                                 row(A, 0), tau[0], C);
-- 
2.43.0


From d9ae7492d0e2724d769b46a7675297b17c80a229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 10/59] fix: geqr2, gelq2, geql2, gerq2 workspace query with an
 empty tau sliced out of range

---
 include/tlapack/lapack/gelq2.hpp | 2 +-
 include/tlapack/lapack/geql2.hpp | 2 +-
 include/tlapack/lapack/geqr2.hpp | 2 +-
 include/tlapack/lapack/gerq2.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/gelq2.hpp b/include/tlapack/lapack/gelq2.hpp
index 995959d..21be27f 100644
--- a/include/tlapack/lapack/gelq2.hpp
+++ b/include/tlapack/lapack/gelq2.hpp
@@ -37,7 +37,7 @@ constexpr WorkInfo gelq2_worksize(const matrix_t& A, const vector_t& tauw)
     // constants
     const idx_t m = nrows(A);
 
-    if (m > 1) {
+    if (m > 1 && size(tauw) > 0) {
         auto&& C = rows(A, range{1, m});
         return larf_worksize<T>(RIGHT_SIDE, FORWARD, ROWWISE_STORAGE, row(A, 0),
                                 tauw[0], C);
diff --git a/include/tlapack/lapack/geql2.hpp b/include/tlapack/lapack/geql2.hpp
index 85e3684..4f03d23 100644
--- a/include/tlapack/lapack/geql2.hpp
+++ b/include/tlapack/lapack/geql2.hpp
@@ -37,7 +37,7 @@ constexpr WorkInfo geql2_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (n > 1 && size(tau) > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, BACKWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/geqr2.hpp b/include/tlapack/lapack/geqr2.hpp
index 33da9e0..70cd102 100644
--- a/include/tlapack/lapack/geqr2.hpp
+++ b/include/tlapack/lapack/geqr2.hpp
@@ -37,7 +37,7 @@ constexpr WorkInfo geqr2_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (n > 1 && size(tau) > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, FORWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/gerq2.hpp b/include/tlapack/lapack/gerq2.hpp
index 2957910..d6aa533 100644
--- a/include/tlapack/lapack/gerq2.hpp
+++ b/include/tlapack/lapack/gerq2.hpp
@@ -37,7 +37,7 @@ constexpr WorkInfo gerq2_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t m = nrows(A);
 
-    if (m > 1) {
+    if (m > 1 && size(tau) > 0) {
         auto&& C = rows(A, range{1, m});
         return larf_worksize<T>(RIGHT_SIDE, BACKWARD, ROWWISE_STORAGE,
                                 row(A, 0), tau[0], C);
-- 
2.43.0


From 49f97a862b6538fd2076c39c7542e6f79ff072e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 11/59] fix: gelqt did not update the rows below the last panel
 when m > n

---
 include/tlapack/lapack/gelqt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/gelqt.hpp b/include/tlapack/lapack/gelqt.hpp
index 943b309..1017eaa 100644
--- a/include/tlapack/lapack/gelqt.hpp
+++ b/include/tlapack/lapack/gelqt.hpp
@@ -86,7 +86,7 @@ int gelqt_work(matrix_t& A, matrix_t& TT, work_t& work)
         // . . . H(j+ib-1)
         larft(FORWARD, ROWWISE_STORAGE, A11, tauw1, TT1);
 
-        if (j + ib < k) {
+        if (j + ib < m) {
             // Apply H to A(j+ib:m,j:n) from the right
             auto A12 = slice(A, range(j + ib, m), range(j, n));
             auto work1 = slice(TT, range(j + ib, m), range(0, ib));
-- 
2.43.0


From 1794f10ce6f4684a2a51b9dbac66e70f493a6eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:24 +0000
Subject: [PATCH 12/59] fix: gehd2 and gehrd with ihi = 0 ran past the matrix

---
 include/tlapack/lapack/gehd2.hpp | 2 +-
 include/tlapack/lapack/gehrd.hpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/gehd2.hpp b/include/tlapack/lapack/gehd2.hpp
index ef47ef2..dea300e 100644
--- a/include/tlapack/lapack/gehd2.hpp
+++ b/include/tlapack/lapack/gehd2.hpp
@@ -92,7 +92,7 @@ int gehd2_work(size_type<matrix_t> ilo,
     // quick return
     if (n <= 0) return 0;
 
-    for (idx_t i = ilo; i < ihi - 1; ++i) {
+    for (idx_t i = ilo; i + 1 < ihi; ++i) {
         // Define v := A[i+1:ihi,i]
         auto v = slice(A, range{i + 1, ihi}, i);
 
diff --git a/include/tlapack/lapack/gehrd.hpp b/include/tlapack/lapack/gehrd.hpp
index 8a9ce5d..e08dbe0 100644
--- a/include/tlapack/lapack/gehrd.hpp
+++ b/include/tlapack/lapack/gehrd.hpp
@@ -139,10 +139,10 @@ int gehrd_work(size_type<matrix_t> ilo,
     laset(GENERAL, zero, zero, Y);
 
     idx_t i = ilo;
-    for (; i + nx < ihi - 1; i = i + nb) {
+    for (; i + nx + 1 < ihi; i = i + nb) {
         const idx_t nb2 = min(nb, ihi - i - 1);
 
-        auto V = slice(A, range{i + 1, ihi}, range{i, i + nb2});
+        auto V = slice(A, range{i + 1, ihi}, range{i, ihi});
         auto A2 = slice(A, range{0, ihi}, range{i, ihi});
         auto tau2 = slice(tau, range{i, ihi});
         auto T_s = slice(matrixT, range{0, nb2}, range{0, nb2});
@@ -163,7 +163,7 @@ int gehrd_work(size_type<matrix_t> ilo,
             V(nb2 - 1, nb2 - 1) = ei;
         }
         // Apply the block reflector H to A(0:i+1,i+1:i+ib) from the right
-        auto V1 = slice(A, range{i + 1, i + nb2 + 1}, range{i, i + nb2});
+        auto V1 = slice(A, range{i + 1, i + nb2 + 1}, range{i, ihi});
         trmm(RIGHT_SIDE, LOWER_TRIANGLE, CONJ_TRANS, UNIT_DIAG, one, V1, Y_s);
         for (idx_t j = 0; j < nb2 - 1; ++j) {
             auto A4 = slice(A, range{0, i + 1}, i + j + 1);
-- 
2.43.0


From baae06a3576d19db2e35e568628c6ab1e84d18df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:24 +0000
Subject: [PATCH 13/59] fix: gehrd sliced tau past its documented length n-1

---
 include/tlapack/lapack/gehrd.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/gehrd.hpp b/include/tlapack/lapack/gehrd.hpp
index e08dbe0..252f92b 100644
--- a/include/tlapack/lapack/gehrd.hpp
+++ b/include/tlapack/lapack/gehrd.hpp
@@ -142,9 +142,9 @@ int gehrd_work(size_type<matrix_t> ilo,
     for (; i + nx + 1 < ihi; i = i + nb) {
         const idx_t nb2 = min(nb, ihi - i - 1);
 
-        auto V = slice(A, range{i + 1, ihi}, range{i, ihi});
+        auto V = slice(A, range{i + 1, ihi}, range{i, i + nb2});
         auto A2 = slice(A, range{0, ihi}, range{i, ihi});
-        auto tau2 = slice(tau, range{i, ihi});
+        auto tau2 = slice(tau, range{i, i + nb2});
         auto T_s = slice(matrixT, range{0, nb2}, range{0, nb2});
         auto Y_s = slice(Y, range{0, n}, range{0, nb2});
         lahr2(i, nb2, A2, tau2, T_s, Y_s);
@@ -163,7 +163,7 @@ int gehrd_work(size_type<matrix_t> ilo,
             V(nb2 - 1, nb2 - 1) = ei;
         }
         // Apply the block reflector H to A(0:i+1,i+1:i+ib) from the right
-        auto V1 = slice(A, range{i + 1, i + nb2 + 1}, range{i, ihi});
+        auto V1 = slice(A, range{i + 1, i + nb2 + 1}, range{i, i + nb2});
         trmm(RIGHT_SIDE, LOWER_TRIANGLE, CONJ_TRANS, UNIT_DIAG, one, V1, Y_s);
         for (idx_t j = 0; j < nb2 - 1; ++j) {
             auto A4 = slice(A, range{0, i + 1}, i + j + 1);
-- 
2.43.0


From 104860132950d53e3939fcc1f411f04adccb3245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:24 +0000
Subject: [PATCH 14/59] fix: larf with a separate first row/column rejected
 valid arguments (precedence of ?:)

---
 include/tlapack/lapack/larf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/larf.hpp b/include/tlapack/lapack/larf.hpp
index 49426ec..a2fe9cf 100644
--- a/include/tlapack/lapack/larf.hpp
+++ b/include/tlapack/lapack/larf.hpp
@@ -68,7 +68,7 @@ void larf_work(side_t side,
     tlapack_check(side == Side::Left || side == Side::Right);
     tlapack_check(storeMode == StoreV::Columnwise ||
                   storeMode == StoreV::Rowwise);
-    tlapack_check((idx_t)size(x) == (side == Side::Left) ? m : n);
+    tlapack_check((idx_t)size(x) == ((side == Side::Left) ? m : n));
 
     // Quick return if possible
     if (m == 0 || n == 0) {
@@ -282,7 +282,7 @@ void larf(side_t side,
     tlapack_check(side == Side::Left || side == Side::Right);
     tlapack_check(storeMode == StoreV::Columnwise ||
                   storeMode == StoreV::Rowwise);
-    tlapack_check((idx_t)size(x) == (side == Side::Left) ? m : n);
+    tlapack_check((idx_t)size(x) == ((side == Side::Left) ? m : n));
 
     // Quick return if possible
     if (m == 0 || n == 0) {
-- 
2.43.0


From 927bac67b17294af1f80fa138386a851c9e049b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:39 +0000
Subject: [PATCH 15/59] fix: gehd2, gehrd and hetd2 rejected an empty matrix
 (size check wrapped around)

---
 include/tlapack/lapack/gehd2.hpp | 4 ++--
 include/tlapack/lapack/gehrd.hpp | 4 ++--
 include/tlapack/lapack/hetd2.hpp | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/tlapack/lapack/gehd2.hpp b/include/tlapack/lapack/gehd2.hpp
index dea300e..1ec3486 100644
--- a/include/tlapack/lapack/gehd2.hpp
+++ b/include/tlapack/lapack/gehd2.hpp
@@ -87,7 +87,7 @@ int gehd2_work(size_type<matrix_t> ilo,
 
     // check arguments
     tlapack_check_false(ncols(A) != nrows(A));
-    tlapack_check_false((idx_t)size(tau) < n - 1);
+    tlapack_check_false((idx_t)size(tau) + 1 < n);
 
     // quick return
     if (n <= 0) return 0;
@@ -166,7 +166,7 @@ int gehd2(size_type<matrix_t> ilo,
 
     // check arguments
     tlapack_check_false(ncols(A) != nrows(A));
-    tlapack_check_false((idx_t)size(tau) < n - 1);
+    tlapack_check_false((idx_t)size(tau) + 1 < n);
 
     // quick return
     if (n <= 0) return 0;
diff --git a/include/tlapack/lapack/gehrd.hpp b/include/tlapack/lapack/gehrd.hpp
index 252f92b..b67a0dd 100644
--- a/include/tlapack/lapack/gehrd.hpp
+++ b/include/tlapack/lapack/gehrd.hpp
@@ -120,10 +120,10 @@ int gehrd_work(size_type<matrix_t> ilo,
     const idx_t nx = max(nb, (idx_t)opts.nx_switch);
 
     // check arguments
-    tlapack_check_false((ilo < 0) or (ilo >= n));
+    tlapack_check_false((ilo < 0) or (ilo >= n and ilo > 0));
     tlapack_check_false((ihi < 0) or (ihi > n));
     tlapack_check_false(ncols(A) != nrows(A));
-    tlapack_check_false((idx_t)size(tau) < n - 1);
+    tlapack_check_false((idx_t)size(tau) + 1 < n);
 
     // quick return
     if (n <= 0) return 0;
diff --git a/include/tlapack/lapack/hetd2.hpp b/include/tlapack/lapack/hetd2.hpp
index 76892a7..b89bb0c 100644
--- a/include/tlapack/lapack/hetd2.hpp
+++ b/include/tlapack/lapack/hetd2.hpp
@@ -60,7 +60,7 @@ int hetd2(uplo_t uplo, A_t& A, tau_t& tau)
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
     tlapack_check(nrows(A) == ncols(A));
-    tlapack_check((idx_t)size(tau) >= n - 1);
+    tlapack_check((idx_t)size(tau) + 1 >= n);
 
     // quick return
     if (n <= 0) return 0;
-- 
2.43.0


From 9884dfa5985a575b461de57d48e3095a1614c0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:39 +0000
Subject: [PATCH 16/59] fix: gebd2 workspace query with no rows sliced an empty
 tauv out of range

---
 include/tlapack/lapack/gebd2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/gebd2.hpp b/include/tlapack/lapack/gebd2.hpp
index ad4fb98..90665aa 100644
--- a/include/tlapack/lapack/gebd2.hpp
+++ b/include/tlapack/lapack/gebd2.hpp
@@ -45,7 +45,7 @@ constexpr WorkInfo gebd2_worksize(const matrix_t& A,
     const idx_t n = ncols(A);
 
     WorkInfo workinfo;
-    if (n > 1) {
+    if (n > 1 && m > 0) {
         auto&& A11 = cols(A, range{1, n});
         workinfo = larf_worksize<T>(LEFT_SIDE, FORWARD, COLUMNWISE_STORAGE,
                                     col(A, 0), tauv[0], A11);
-- 
2.43.0


From fbe0cf9d0e0e91d249612434d072d34144eee2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 17/59] fix: infnorm_*colmajor did not compile (undeclared
 functor, complex workspace)

---
 include/tlapack/lapack/infnorm_colmajor.hpp           |  5 ++++-
 include/tlapack/lapack/infnorm_hermitian_colmajor.hpp |  9 ++++++---
 include/tlapack/lapack/infnorm_symmetric_colmajor.hpp |  9 ++++++---
 .../tlapack/lapack/infnorm_triangular_colmajor.hpp    | 11 +++++++----
 4 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/include/tlapack/lapack/infnorm_colmajor.hpp b/include/tlapack/lapack/infnorm_colmajor.hpp
index 7ca5d24..0f67ef2 100644
--- a/include/tlapack/lapack/infnorm_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_colmajor.hpp
@@ -65,7 +65,7 @@ auto infnorm_colmajor_work(const matrix_t& A, work_t& work)
             w[i] += abs(A(i, j));
 
     for (idx_t i = 0; i < m; ++i) {
-        real_t temp = w[i];
+        real_t temp = real(w[i]);
 
         if (temp > norm)
             norm = temp;
@@ -95,6 +95,9 @@ auto infnorm_colmajor(const matrix_t& A)
     using real_t = real_type<T>;
     using idx_t = size_type<matrix_t>;
 
+    // Functor
+    Create<matrix_t> new_matrix;
+
     // constants
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
diff --git a/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp b/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
index 474063d..86009c9 100644
--- a/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
@@ -69,7 +69,7 @@ auto infnorm_hermitian_colmajor_work(uplo_t uplo,
     real_t norm(0);
 
     for (idx_t i = 0; i < n; ++i)
-        w[i] = T(0);
+        w[i] = real_t(0);
 
     if (uplo == Uplo::Upper) {
         for (idx_t j = 0; j < n; ++j) {
@@ -82,7 +82,7 @@ auto infnorm_hermitian_colmajor_work(uplo_t uplo,
             w[j] = sum + abs(real(A(j, j)));
         }
         for (idx_t i = 0; i < n; ++i) {
-            real_t sum = w[i];
+            real_t sum = real(w[i]);
             if (sum > norm)
                 norm = sum;
             else {
@@ -92,7 +92,7 @@ auto infnorm_hermitian_colmajor_work(uplo_t uplo,
     }
     else {
         for (idx_t j = 0; j < n; ++j) {
-            real_t sum = w[j] + abs(real(A(j, j)));
+            real_t sum = real(w[j]) + abs(real(A(j, j)));
             for (idx_t i = j + 1; i < n; ++i) {
                 const real_t absa = abs(A(i, j));
                 sum += absa;
@@ -131,6 +131,9 @@ auto infnorm_hermitian_colmajor(uplo_t uplo, const matrix_t& A)
     using real_t = real_type<T>;
     using idx_t = size_type<matrix_t>;
 
+    // Functor
+    Create<matrix_t> new_matrix;
+
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
 
diff --git a/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp b/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
index 9cf0a0a..a3abcad 100644
--- a/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
@@ -69,7 +69,7 @@ auto infnorm_symmetric_colmajor_work(uplo_t uplo,
     real_t norm(0);
 
     for (idx_t i = 0; i < n; ++i)
-        w[i] = T(0);
+        w[i] = real_t(0);
 
     if (uplo == Uplo::Upper) {
         for (idx_t j = 0; j < n; ++j) {
@@ -82,7 +82,7 @@ auto infnorm_symmetric_colmajor_work(uplo_t uplo,
             w[j] = sum + abs(A(j, j));
         }
         for (idx_t i = 0; i < n; ++i) {
-            real_t sum = w[i];
+            real_t sum = real(w[i]);
             if (sum > norm)
                 norm = sum;
             else {
@@ -92,7 +92,7 @@ auto infnorm_symmetric_colmajor_work(uplo_t uplo,
     }
     else {
         for (idx_t j = 0; j < n; ++j) {
-            real_t sum = w[j] + abs(A(j, j));
+            real_t sum = real(w[j]) + abs(A(j, j));
             for (idx_t i = j + 1; i < n; ++i) {
                 const real_t absa = abs(A(i, j));
                 sum += absa;
@@ -131,6 +131,9 @@ auto infnorm_symmetric_colmajor(uplo_t uplo, const matrix_t& A)
     using real_t = real_type<T>;
     using idx_t = size_type<matrix_t>;
 
+    // Functor
+    Create<matrix_t> new_matrix;
+
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
 
diff --git a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
index 967f94d..28e439f 100644
--- a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
@@ -82,7 +82,7 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
     real_t norm(0);
 
     for (idx_t i = 0; i < n; ++i)
-        w[i] = T(0);
+        w[i] = real_t(0);
 
     if (uplo == Uplo::Upper) {
         if (diag == Diag::NonUnit) {
@@ -126,7 +126,7 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
     }
 
     for (idx_t i = 0; i < m; ++i) {
-        real_t temp = w[i];
+        real_t temp = real(w[i]);
 
         if (temp > norm)
             norm = temp;
@@ -165,6 +165,9 @@ auto infnorm_triangular_colmajor(uplo_t uplo, diag_t diag, const matrix_t& A)
     using real_t = real_type<T>;
     using idx_t = size_type<matrix_t>;
 
+    // Functor
+    Create<matrix_t> new_matrix;
+
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
     tlapack_check_false(diag != Diag::NonUnit && diag != Diag::Unit);
@@ -177,11 +180,11 @@ auto infnorm_triangular_colmajor(uplo_t uplo, diag_t diag, const matrix_t& A)
     if (m == 0 || n == 0) return real_t(0);
 
     // Allocates workspace
-    WorkInfo workinfo = infnorm_triangular_colmajor_worksize<T>(uplo, A);
+    WorkInfo workinfo = infnorm_triangular_colmajor_worksize<T>(uplo, diag, A);
     std::vector<T> work_;
     auto work = new_matrix(work_, workinfo.m, workinfo.n);
 
-    return infnorm_triangular_colmajor_work(uplo, A, work);
+    return infnorm_triangular_colmajor_work(uplo, diag, A, work);
 }
 
 }  // namespace tlapack
-- 
2.43.0


From 098ac8c0726157eadb11bff106ebe5d0b4af842f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:33 +0000
Subject: [PATCH 18/59] fix: infnorm_triangular_colmajor overran its workspace
 and skipped column 0

---
 include/tlapack/lapack/infnorm_triangular_colmajor.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
index 28e439f..cc39a20 100644
--- a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
@@ -81,9 +81,6 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
     // Norm value
     real_t norm(0);
 
-    for (idx_t i = 0; i < n; ++i)
-        w[i] = real_t(0);
-
     if (uplo == Uplo::Upper) {
         if (diag == Diag::NonUnit) {
             for (idx_t i = 0; i < m; ++i)
@@ -118,7 +115,7 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
             for (idx_t i = n; i < m; ++i)
                 w[i] = real_t(0);
 
-            for (idx_t j = 1; j < n; ++j) {
+            for (idx_t j = 0; j < n; ++j) {
                 for (idx_t i = j + 1; i < m; ++i)
                     w[i] += abs(A(i, j));
             }
-- 
2.43.0


From 2ac807b2f36a3ff0bbc5fba877745175f6d7fa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:43 +0000
Subject: [PATCH 19/59] fix: hasnan and hasinf read one row past an upper
 Hessenberg matrix

---
 include/tlapack/lapack/hasinf.hpp | 2 +-
 include/tlapack/lapack/hasnan.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hasinf.hpp b/include/tlapack/lapack/hasinf.hpp
index e6172f3..feea0a2 100644
--- a/include/tlapack/lapack/hasinf.hpp
+++ b/include/tlapack/lapack/hasinf.hpp
@@ -54,7 +54,7 @@ bool hasinf(uplo_t uplo, const matrix_t& A)
 
     if (uplo == Uplo::UpperHessenberg) {
         for (idx_t j = 0; j < n; ++j)
-            for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+            for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                 if (isinf(A(i, j))) return true;
         return false;
     }
diff --git a/include/tlapack/lapack/hasnan.hpp b/include/tlapack/lapack/hasnan.hpp
index 18c8a84..688a438 100644
--- a/include/tlapack/lapack/hasnan.hpp
+++ b/include/tlapack/lapack/hasnan.hpp
@@ -54,7 +54,7 @@ bool hasnan(uplo_t uplo, const matrix_t& A)
 
     if (uplo == Uplo::UpperHessenberg) {
         for (idx_t j = 0; j < n; ++j)
-            for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+            for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                 if (isnan(A(i, j))) return true;
         return false;
     }
-- 
2.43.0


From 4df6e73000bc0fe5adaa60d05ab98a072f3d6122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:48 +0000
Subject: [PATCH 20/59] fix: lascl wrote one row past an upper Hessenberg
 matrix

---
 include/tlapack/lapack/lascl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/lascl.hpp b/include/tlapack/lapack/lascl.hpp
index 0d760ee..d17cf00 100644
--- a/include/tlapack/lapack/lascl.hpp
+++ b/include/tlapack/lapack/lascl.hpp
@@ -130,7 +130,7 @@ int lascl(uplo_t uplo, const b_type& b, const a_type& a, matrix_t& A)
 
         if (uplo == Uplo::UpperHessenberg) {
             for (idx_t j = 0; j < n; ++j)
-                for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+                for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                     A(i, j) *= c;
         }
         else if (uplo == Uplo::Upper) {
-- 
2.43.0


From fcf3fc91182628e7aab0b774c199167919390878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:38 +0000
Subject: [PATCH 21/59] fix: rotmg overwrote the rotation when both scalings
 had to be adjusted more than once

---
 include/tlapack/blas/rotmg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/blas/rotmg.hpp b/include/tlapack/blas/rotmg.hpp
index 5c760ce..e9aaf86 100644
--- a/include/tlapack/blas/rotmg.hpp
+++ b/include/tlapack/blas/rotmg.hpp
@@ -161,7 +161,7 @@ int rotmg(T& d1, T& d2, T& a, const T& b, T h[4])
                         h[3] = one;
                         flag = -1;
                     }
-                    else {
+                    else if (flag == 1) {
                         h[1] = -one;
                         h[2] = one;
                         flag = -1;
@@ -188,7 +188,7 @@ int rotmg(T& d1, T& d2, T& a, const T& b, T h[4])
                         h[3] = one;
                         flag = -1;
                     }
-                    else {
+                    else if (flag == 1) {
                         h[1] = -one;
                         h[2] = one;
                         flag = -1;
-- 
2.43.0


From a94ec0a18e6ee6389bae484db63261cf197b4f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:38 +0000
Subject: [PATCH 22/59] fix: rot_sequence3 applied the first rotations once per
 block of 256 columns

---
 include/tlapack/lapack/rot_sequence3.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/rot_sequence3.hpp b/include/tlapack/lapack/rot_sequence3.hpp
index d9c9ee0..b5b0f34 100644
--- a/include/tlapack/lapack/rot_sequence3.hpp
+++ b/include/tlapack/lapack/rot_sequence3.hpp
@@ -133,7 +133,7 @@ void rot_sequence3(
                 for (idx_t ib = 0; ib < n; ib += nb) {
                     idx_t ib2 = std::min(ib + nb, n);
                     // Startup phase
-                    for (idx_t i1 = 0; i1 < n; ++i1) {
+                    for (idx_t i1 = ib; i1 < ib2; ++i1) {
                         for (idx_t j = 0; j < l - 1; ++j) {
                             for (idx_t i = 0, g2 = j; i < j + 1; ++i, --g2) {
                                 idx_t g = m - 2 - g2;
@@ -536,7 +536,7 @@ void rot_sequence3(
                     for (idx_t j = 0; j < l - 1; ++j) {
                         for (idx_t i = 0, g2 = j; i < j + 1; ++i, --g2) {
                             idx_t g = m - 2 - g2;
-                            for (idx_t i1 = 0; i1 < n; ++i1) {
+                            for (idx_t i1 = ib; i1 < ib2; ++i1) {
                                 T temp =
                                     C(g, i) * A(g, i1) + S(g, i) * A(g + 1, i1);
                                 A(g + 1, i1) = -conj(S(g, i)) * A(g, i1) +
-- 
2.43.0


From 81ea0922380e362a2eea0d7621321624cd83c590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:38 +0000
Subject: [PATCH 23/59] fix: rscl lost the result to underflow when one part of
 alpha is much smaller than the other

---
 include/tlapack/lapack/rscl.hpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/tlapack/lapack/rscl.hpp b/include/tlapack/lapack/rscl.hpp
index 6931f17..d5910a4 100644
--- a/include/tlapack/lapack/rscl.hpp
+++ b/include/tlapack/lapack/rscl.hpp
@@ -80,6 +80,7 @@ void rscl(const alpha_t& alpha, vector_t& x)
     const real_t safeMin = safe_min<real_t>();
     const real_t zero(0);
     const real_t one(1);
+    const real_t scale = ulp<real_t>();
 
     const real_t alphaR = real(alpha);
     const real_t alphaI = imag(alpha);
@@ -123,39 +124,41 @@ void rscl(const alpha_t& alpha, vector_t& x)
             scal(alpha_t(safeMin / a, -safeMin / b), x);
             scal(safeMax, x);
         }
-        else if (abs(a) > safeMax || abs(b) > safeMax) {
+        else if ((abs(a) > safeMax || abs(b) > safeMax) &&
+                 min(abs(a), abs(b)) > scale * safeMax) {
             if (isinf(alphaR) || isinf(alphaI)) {
                 // This means that a and b are both Inf. No need for scaling.
                 // Propagates zero.
                 scal(alpha_t(one / a, -one / b), x);
             }
             else {
-                scal(safeMin, x);
+                scal(scale, x);
                 if (isinf(a) || isinf(b)) {
                     // Infs were generated. We do proper scaling to avoid them.
                     if (absR >= absI) {
                         // |a| <= |b|
-                        a = (safeMin * alphaR) +
-                            safeMin * (alphaI * (alphaI / alphaR));
-                        b = (safeMin * alphaI) +
-                            alphaR * ((safeMin * alphaR) / alphaI);
+                        a = (scale * alphaR) +
+                            scale * (alphaI * (alphaI / alphaR));
+                        b = (scale * alphaI) +
+                            alphaR * ((scale * alphaR) / alphaI);
                     }
                     else {
                         // |a| > |b|
-                        a = (safeMin * alphaR) +
-                            alphaI * ((safeMin * alphaI) / alphaR);
-                        b = (safeMin * alphaI) +
-                            safeMin * (alphaR * (alphaR / alphaI));
+                        a = (scale * alphaR) +
+                            alphaI * ((scale * alphaI) / alphaR);
+                        b = (scale * alphaI) +
+                            scale * (alphaR * (alphaR / alphaI));
                     }
                     scal(alpha_t(one / a, -one / b), x);
                 }
                 else {
-                    scal(alpha_t(safeMax / a, -safeMax / b), x);
+                    scal(alpha_t(one / (scale * a), -one / (scale * b)), x);
                 }
             }
         }
         else {
-            // No overflow or underflow.
+            // No overflow, and an underflow in one of the components is negligible
+            // compared with the other one.
             scal(alpha_t(one / a, -one / b), x);
         }
     }
-- 
2.43.0


From 749aac230dc4c0adea3445bf84d2f148ad1f2595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:38 +0000
Subject: [PATCH 24/59] fix: rot_sequence documented the two directions the
 wrong way round

---
 include/tlapack/lapack/rot_sequence.hpp  | 4 ++--
 include/tlapack/lapack/rot_sequence3.hpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/tlapack/lapack/rot_sequence.hpp b/include/tlapack/lapack/rot_sequence.hpp
index f370bb9..55c7080 100644
--- a/include/tlapack/lapack/rot_sequence.hpp
+++ b/include/tlapack/lapack/rot_sequence.hpp
@@ -33,11 +33,11 @@ namespace tlapack {
  *
  * When direction = Direction::Forward, then
  *
- *    P = P(k-1) * P(k-2) * ... * P(1) * P(0)
+ *    P = P(0) * P(1) * ... * P(k-2) * P(k-1)
  *
  * and when direction = Direction::Backward, then
  *
- *    P = P(0) * P(1) * ... * P(k-2) * P(k-1),
+ *    P = P(k-1) * P(k-2) * ... * P(1) * P(0),
  *
  * when P(i) is a plane rotation matrix defined as
  *
diff --git a/include/tlapack/lapack/rot_sequence3.hpp b/include/tlapack/lapack/rot_sequence3.hpp
index b5b0f34..6e8315a 100644
--- a/include/tlapack/lapack/rot_sequence3.hpp
+++ b/include/tlapack/lapack/rot_sequence3.hpp
@@ -31,13 +31,13 @@ namespace tlapack {
  *
  * When direction = Direction::Forward, then
  *
- *    P = P(k-1,l-1) * ... * P(0,l-1) * ... * P(k-1,l-2) * ... * P(0,l-2)
- *        * ... * P(k-1,0) * ... * P(0,0)
+ *    P = P(0,l-1) * ... * P(k-1,l-1) * ... * P(0,l-2) * ... * P(k-1,l-2)
+ *        * ... * P(0,0) * ... * P(k-1,0)
  *
  * and when direction = Direction::Backward, then
  *
- *    P = P(0,l-1) * ... * P(k-1,l-1) * ... * P(0,l-2) * ... * P(k-1,l-2)
- *        * ... * P(0,0) * ... * P(k-1,0)
+ *    P = P(k-1,l-1) * ... * P(0,l-1) * ... * P(k-1,l-2) * ... * P(0,l-2)
+ *        * ... * P(k-1,0) * ... * P(0,0)
  *
  * where P(i,j) is a plane rotation matrix defined as
  *
-- 
2.43.0


From b465f94e720a81e0228751516603a0264f8b94ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:43 +0000
Subject: [PATCH 25/59] fix: lahqr read A(i+1,i) past the last row in the
 deflation test

---
 include/tlapack/lapack/lahqr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/lahqr.hpp b/include/tlapack/lapack/lahqr.hpp
index c65af46..f38f4e0 100644
--- a/include/tlapack/lapack/lahqr.hpp
+++ b/include/tlapack/lapack/lahqr.hpp
@@ -170,7 +170,7 @@ int lahqr(bool want_t,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
@@ -505,7 +505,7 @@ int lahqr(bool want_t,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
-- 
2.43.0


From 82b98c97a5f9222e08e269405c694707300353dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:50 +0000
Subject: [PATCH 26/59] fix: multishift_qr took the extra shifts from scratch
 space and too many of them

---
 include/tlapack/lapack/multishift_qr.hpp | 45 +++++++++++++++---------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/include/tlapack/lapack/multishift_qr.hpp b/include/tlapack/lapack/multishift_qr.hpp
index a55cb43..ee12235 100644
--- a/include/tlapack/lapack/multishift_qr.hpp
+++ b/include/tlapack/lapack/multishift_qr.hpp
@@ -37,7 +37,9 @@ constexpr WorkInfo multishift_qr_worksize_sweep(bool want_t,
 
     const idx_t n = ncols(A);
     const idx_t nh = ihi - ilo;
-    const idx_t nsr = opts.nshift_recommender(n, nh);
+    idx_t nsr = min<idx_t>(opts.nshift_recommender(n, nh),
+                           min<idx_t>(nh, (n - 3) / 6));
+    nsr = max<idx_t>(2, nsr - nsr % 2);
     auto&& shifts = slice(w, range{0, nsr});
 
     return multishift_QR_sweep_worksize<T>(want_t, want_z, ilo, ihi, A, shifts,
@@ -141,8 +143,11 @@ int multishift_qr_work(bool want_t,
     // if n < nmin, the matrix will be passed to lahqr
     const idx_t nmin = opts.nmin;
 
-    // Recommended number of shifts
-    const idx_t nsr = opts.nshift_recommender(n, nh);
+    // Recommended number of shifts. It must be even, and the shifts must fit
+    // in the active block and in the scratch space
+    idx_t nsr = min<idx_t>(opts.nshift_recommender(n, nh),
+                           min<idx_t>(nh, (n - 3) / 6));
+    nsr = max<idx_t>(2, nsr - nsr % 2);
 
     // Recommended deflation window size
     const idx_t nwr = opts.deflation_window_recommender(n, nh);
@@ -257,32 +262,38 @@ int multishift_qr_work(bool want_t,
         }
 
         k_defl = k_defl + 1;
-        idx_t ns = min(nh - 1, min(ls, nsr));
+        idx_t ns = max<idx_t>(2, min<idx_t>(nsr, istop - istart - 1));
+        ns = ns - ns % 2;
 
         idx_t i_shifts = istop - ls;
 
         if (k_defl % non_convergence_limit_shift == 0) {
-            ns = nsr;
-            for (idx_t i = i_shifts; i < istop - 1; i = i + 2) {
+            // Exceptional shifts
+            i_shifts = istop - ns;
+            for (idx_t k = 0; k < ns; k = k + 2) {
+                const idx_t i = istop - 1 - k;
                 real_t ss = abs1(A(i, i - 1));
                 if (i > 1) ss += abs1(A(i - 1, i - 2));
                 TA aa = dat1 * ss + A(i, i);
                 TA bb = ss;
                 TA cc = dat2 * ss;
                 TA dd = aa;
-                lahqr_eig22(aa, bb, cc, dd, w[i], w[i + 1]);
+                lahqr_eig22(aa, bb, cc, dd, w[i - 1], w[i]);
             }
         }
         else {
-            if (ls < nsr / 2) {
-                // Got nsr/2 or fewer shifts? Then use multi/double shift qr to
-                // get more
-                auto temp = slice(A, range{n - nsr, n}, range{0, nsr});
-                auto shifts = slice(w, range{istop - nsr, istop});
-                auto Z_slice = slice(Z, range{0, nsr}, range{0, nsr});
-                int ierr = lahqr(false, false, 0, nsr, temp, shifts, Z_slice);
-
-                ns = nsr - ierr;
+            if (ls <= ns / 2) {
+                // Got ns/2 or fewer shifts? Then use double shift qr on the
+                // trailing principal submatrix to get more
+                auto window =
+                    slice(A, range{istop - ns, istop}, range{istop - ns, istop});
+                auto temp = slice(A, range{n - ns, n}, range{0, ns});
+                auto shifts = slice(w, range{istop - ns, istop});
+                auto Z_slice = slice(Z, range{0, ns}, range{0, ns});
+                lacpy(GENERAL, window, temp);
+                int ierr = lahqr(false, false, 0, ns, temp, shifts, Z_slice);
+
+                ns = ns - ierr;
 
                 if (ns < 2) {
                     // In case of a rare QR failure, use eigenvalues
@@ -297,6 +308,8 @@ int multishift_qr_work(bool want_t,
 
                 i_shifts = istop - ns;
             }
+            else
+                ns = min<idx_t>(ns, ls);
 
             // Sort the shifts (helps a little)
             // Bubble sort keeps complex conjugate pairs together
-- 
2.43.0


From 819975c39708c633ec510239845fec1463bf91b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:50 +0000
Subject: [PATCH 27/59] fix: lahqr_schur22 used sgn(0) = 0 where a sign of one
 is required

---
 include/tlapack/lapack/lahqr_schur22.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/lahqr_schur22.hpp b/include/tlapack/lapack/lahqr_schur22.hpp
index f2431bd..84dedf9 100644
--- a/include/tlapack/lapack/lahqr_schur22.hpp
+++ b/include/tlapack/lapack/lahqr_schur22.hpp
@@ -92,7 +92,7 @@ void lahqr_schur22(T& a,
             // Real eigenvalues.
 
             // Compute a and d.
-            z = p + T(sgn(p)) * sqrt(scale) * sqrt(z);
+            z = p + ((p < zero) ? -one : one) * sqrt(scale) * sqrt(z);
             a = d + z;
             d = d - (bcmax / z) * bcmin;
             // Compute b and the rotation matrix
@@ -124,7 +124,7 @@ void lahqr_schur22(T& a,
             p = half * temp;
             T tau = lapy2(sigma, temp);
             cs = sqrt(half * (one + abs(sigma) / tau));
-            sn = -(p / (tau * cs)) * T(sgn(sigma));
+            sn = -(p / (tau * cs)) * ((sigma < zero) ? -one : one);
             //
             // Compute [aa bb] = [a b][cs -sn]
             //         [cc dd] = [c d][sn  cs]
-- 
2.43.0


From c38306ab03bfec3359fbe5dc7028dc4cd9c58704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:16 +0000
Subject: [PATCH 28/59] fix: inv_house3 returned the wrong null vector for a
 singular system

---
 include/tlapack/lapack/inv_house3.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/inv_house3.hpp b/include/tlapack/lapack/inv_house3.hpp
index 304cea9..83d373c 100644
--- a/include/tlapack/lapack/inv_house3.hpp
+++ b/include/tlapack/lapack/inv_house3.hpp
@@ -98,8 +98,9 @@ void inv_house3(const matrix_t& A, vector_t& v, type_t<vector_t>& tau)
     real_t scale = (real_t)1;
     if (abs1(u22) < safemin) {
         v[0] = (T)0;
-        v[1] = (T)1;
-        v[2] = -u12 / u11;
+        v[1] = -u12 / u11;
+        v[2] = (T)1;
+        if (colswapped) std::swap(v[1], v[2]);
         larfg(FORWARD, COLUMNWISE_STORAGE, v, tau);
         return;
     }
-- 
2.43.0


From 088a1cb9c5331eec2c2c338ddc9d8ebd3f89a27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:51 +0000
Subject: [PATCH 29/59] fix: lahqr_schur22 left a lower triangular block when b
 vanishes

---
 include/tlapack/lapack/lahqr_schur22.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/tlapack/lapack/lahqr_schur22.hpp b/include/tlapack/lapack/lahqr_schur22.hpp
index 84dedf9..bb084d6 100644
--- a/include/tlapack/lapack/lahqr_schur22.hpp
+++ b/include/tlapack/lapack/lahqr_schur22.hpp
@@ -165,6 +165,14 @@ void lahqr_schur22(T& a,
                         cs = temp;
                     }
                 }
+                else {
+                    // Lower triangular: swap rows and columns
+                    b = -c;
+                    c = zero;
+                    temp = cs;
+                    cs = -sn;
+                    sn = temp;
+                }
             }
         }
     }
-- 
2.43.0


From ce7b7e1307186aba13596be989b96f9cf8b6ab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 30/59] fix: multishift_qr workspace query omitted the
 Hessenberg reduction of the deflation window

---
 .../tlapack/lapack/aggressive_early_deflation.hpp   | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/tlapack/lapack/aggressive_early_deflation.hpp b/include/tlapack/lapack/aggressive_early_deflation.hpp
index 1d342e4..f181310 100644
--- a/include/tlapack/lapack/aggressive_early_deflation.hpp
+++ b/include/tlapack/lapack/aggressive_early_deflation.hpp
@@ -64,14 +64,11 @@ namespace internal {
         const idx_t nw_max = (n - 3) / 3;
         const idx_t jw = min(min(nw, ihi - ilo), nw_max);
 
-        if (jw != ihi - ilo) {
-            // Hessenberg reduction
-            auto&& TW = slice(A, range{0, jw}, range{0, jw});
-            auto&& tau = slice(A, range{0, jw}, 0);
-            return gehrd_worksize<T>(0, jw, TW, tau);
-        }
-        else
-            return WorkInfo();
+        // The Hessenberg reduction is also needed for a full-size window, as nw
+        // is only an upper bound on the window size that will be used
+        auto&& TW = slice(A, range{0, jw}, range{0, jw});
+        auto&& tau = slice(A, range{0, jw}, 0);
+        return gehrd_worksize<T>(0, jw, TW, tau);
     }
 }  // namespace internal
 
-- 
2.43.0


From 43c6b81db9fb8af40bcf754cd9b4516a93ab98c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:08 +0000
Subject: [PATCH 31/59] fix: the sorting loop of aggressive_early_deflation did
 not terminate

---
 include/tlapack/lapack/aggressive_early_deflation.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/tlapack/lapack/aggressive_early_deflation.hpp b/include/tlapack/lapack/aggressive_early_deflation.hpp
index f181310..a6faf2e 100644
--- a/include/tlapack/lapack/aggressive_early_deflation.hpp
+++ b/include/tlapack/lapack/aggressive_early_deflation.hpp
@@ -338,10 +338,7 @@ void aggressive_early_deflation_work(bool want_t,
                 if (TW(i1 + 1, i1) != zero) n1 = 2;
 
             // Check if there is a next block
-            if (i1 + n1 == jw) {
-                ilst = ilst - n1;
-                break;
-            }
+            if (i1 + n1 >= sorting_window_size) break;
 
             // Index of the second block
             idx_t i2 = i1 + n1;
@@ -364,7 +361,7 @@ void aggressive_early_deflation_work(bool want_t,
                 ev2 = abs(TW(i2, i2)) +
                       sqrt(abs(TW(i2 + 1, i2))) * sqrt(abs(TW(i2, i2 + 1)));
 
-            if (ev1 > ev2) {
+            if (ev1 >= ev2) {
                 i1 = i2;
             }
             else {
-- 
2.43.0


From a65779ee111190961fa90b78cdb24c60db148f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:38 +0000
Subject: [PATCH 32/59] fix: steqr divided by zero when the shift uses equal
 diagonal entries

---
 include/tlapack/lapack/steqr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/steqr.hpp b/include/tlapack/lapack/steqr.hpp
index 087f5bb..7d32b98 100644
--- a/include/tlapack/lapack/steqr.hpp
+++ b/include/tlapack/lapack/steqr.hpp
@@ -177,7 +177,7 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
             real_t p = d[istop - 1];
             real_t g = (d[istop - 2] - p) / (two * e[istop - 2]);
             real_t r = lapy2(g, one);
-            g = d[istart] - p + e[istop - 2] / (real_t)(g + (sgn(g) * r));
+            g = d[istart] - p + e[istop - 2] / (real_t)(g + ((g < zero) ? -r : r));
 
             real_t s = one;
             real_t c = one;
@@ -211,7 +211,7 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
             real_t p = d[istart];
             real_t g = (d[istart + 1] - p) / (two * e[istart]);
             real_t r = lapy2(g, one);
-            g = d[istop - 1] - p + e[istart] / (real_t)(g + (sgn(g) * r));
+            g = d[istop - 1] - p + e[istart] / (real_t)(g + ((g < zero) ? -r : r));
 
             real_t s = one;
             real_t c = one;
-- 
2.43.0


From 5c7abe928e330708310f18556077eec9c31e3814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:28 +0000
Subject: [PATCH 33/59] fix: trevc3 with HowMny::Select skipped, repeated or
 overran eigenvectors

---
 include/tlapack/lapack/trevc3.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/trevc3.hpp b/include/tlapack/lapack/trevc3.hpp
index d436e95..d08734d 100644
--- a/include/tlapack/lapack/trevc3.hpp
+++ b/include/tlapack/lapack/trevc3.hpp
@@ -268,13 +268,16 @@ int trevc3_work(const side_t side,
             if (howmny == HowMny::Select) {
                 // Find the first eigenvalue with index <= i with select ==
                 // true
+                bool found = false;
                 for (idx_t jj = 0; jj < i + 1; jj++) {
                     idx_t j = i - jj;
                     if (select[j]) {
                         i_end = j;
+                        found = true;
                         break;
                     }
                 }
+                if (!found) break;
                 // Find the last eigenvalue with index <= i_end with select ==
                 // true
                 i_start = 0;
@@ -333,7 +336,7 @@ int trevc3_work(const side_t side,
                 iVr -= nb2;
             }
 
-            ii += nb2;
+            ii = n - i_start;
         }
     }
 
@@ -349,19 +352,22 @@ int trevc3_work(const side_t side,
             idx_t i_end;
 
             if (howmny == HowMny::Select) {
-                // Find the first eigenvalue with index <= i with select ==
+                // Find the first eigenvalue with index >= i with select ==
                 // true
+                bool found = false;
                 for (idx_t j = i; j < n; j++) {
                     if (select[j]) {
                         i_start = j;
+                        found = true;
                         break;
                     }
                 }
+                if (!found) break;
                 // Find the last eigenvalue with index <= i_end with select ==
                 // true
                 i_end = n - 1;
                 for (idx_t j = i_start + 1; j < n; j++) {
-                    if (j > i_start + nb) {
+                    if (j >= i_start + nb) {
                         // Don't make the block too big
                         i_end = j - 1;
                         break;
@@ -413,7 +419,7 @@ int trevc3_work(const side_t side,
                 iVl += nb2;
             }
 
-            i += nb2;
+            i = i_end + 1;
         }
     }
 
-- 
2.43.0


From acdedf8a946f68d492e798b333da3ea2193dd24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:29 +0000
Subject: [PATCH 34/59] fix: trevc3 multiplied uninitialised workspace by zero

---
 include/tlapack/lapack/trevc3.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/trevc3.hpp b/include/tlapack/lapack/trevc3.hpp
index d08734d..2b4a42b 100644
--- a/include/tlapack/lapack/trevc3.hpp
+++ b/include/tlapack/lapack/trevc3.hpp
@@ -321,8 +321,7 @@ int trevc3_work(const side_t side,
                 auto X_block = slice(X, range(0, i_end + 1), range(0, nb2));
                 auto [Qx, work3] = reshape(work2, n, nb2);
 
-                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block, TT(0),
-                     Qx);
+                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block, Qx);
 
                 auto Vr_block =
                     slice(Vr, range(0, n), range(i_start, i_end + 1));
@@ -405,8 +404,7 @@ int trevc3_work(const side_t side,
                 auto X_block = slice(X, range(i_start, n), range(0, nb2));
                 auto [Qx, work3] = reshape(work2, n, nb2);
 
-                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block, TT(0),
-                     Qx);
+                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block, Qx);
 
                 auto Vl_block =
                     slice(Vl, range(0, n), range(i_start, i_end + 1));
-- 
2.43.0


From a51705c3bf33a46338a84aa21b4683b6299edeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:44 +0000
Subject: [PATCH 35/59] fix: trevc and trevc3 divided by zero for repeated
 eigenvalues

---
 include/tlapack/lapack/trevc3_backsolve.hpp   |  6 ++++--
 .../tlapack/lapack/trevc3_forwardsolve.hpp    |  6 ++++--
 include/tlapack/lapack/trevc_backsolve.hpp    |  4 ++--
 include/tlapack/lapack/trevc_forwardsolve.hpp |  4 ++--
 include/tlapack/lapack/trevc_protect.hpp      | 20 +++++++++++++++++++
 5 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/include/tlapack/lapack/trevc3_backsolve.hpp b/include/tlapack/lapack/trevc3_backsolve.hpp
index ce5b1c9..34859e7 100644
--- a/include/tlapack/lapack/trevc3_backsolve.hpp
+++ b/include/tlapack/lapack/trevc3_backsolve.hpp
@@ -254,7 +254,8 @@ void trevc3_backsolve(const matrix_T_t& T,
                     for (idx_t ii = 0; ii < nb; ++ii) {
                         idx_t i = nb - 1 - ii;
 
-                        X_ii(i, k) = X_ii(i, k) / (T_ii(i, i) - w);
+                        X_ii(i, k) =
+                            X_ii(i, k) / trevc_perturb<TT>(T_ii(i, i) - w, w);
 
                         for (idx_t j = 0; j < i; ++j) {
                             X_ii(j, k) -= T_ii(j, i) * X_ii(i, k);
@@ -302,7 +303,8 @@ void trevc3_backsolve(const matrix_T_t& T,
                         }
                         else {
                             // 1x1 block
-                            X_ii(i, k) = X_ii(i, k) / (T_ii(i, i) - w);
+                            X_ii(i, k) =
+                            X_ii(i, k) / trevc_perturb<TT>(T_ii(i, i) - w, w);
 
                             for (idx_t j = 0; j < i; ++j) {
                                 X_ii(j, k) -= T_ii(j, i) * X_ii(i, k);
diff --git a/include/tlapack/lapack/trevc3_forwardsolve.hpp b/include/tlapack/lapack/trevc3_forwardsolve.hpp
index 7756470..a2d42f2 100644
--- a/include/tlapack/lapack/trevc3_forwardsolve.hpp
+++ b/include/tlapack/lapack/trevc3_forwardsolve.hpp
@@ -241,7 +241,8 @@ void trevc3_forwardsolve(const matrix_T_t& T,
                             X_ii(i, k) -= conj(T_ii(j, i)) * X_ii(j, k);
                         }
 
-                        X_ii(i, k) = X_ii(i, k) / conj(T_ii(i, i) - w);
+                        X_ii(i, k) = X_ii(i, k) /
+                                     conj(trevc_perturb<TT>(T_ii(i, i) - w, w));
                     }
                 }
                 else {
@@ -290,7 +291,8 @@ void trevc3_forwardsolve(const matrix_T_t& T,
                                 X_ii(i, k) -= T_ii(j, i) * X_ii(j, k);
                             }
 
-                            X_ii(i, k) = X_ii(i, k) / (T_ii(i, i) - w);
+                            X_ii(i, k) =
+                                X_ii(i, k) / trevc_perturb<TT>(T_ii(i, i) - w, w);
 
                             i += 1;
                         }
diff --git a/include/tlapack/lapack/trevc_backsolve.hpp b/include/tlapack/lapack/trevc_backsolve.hpp
index d897916..4d01e81 100644
--- a/include/tlapack/lapack/trevc_backsolve.hpp
+++ b/include/tlapack/lapack/trevc_backsolve.hpp
@@ -192,7 +192,7 @@ void trevc_backsolve_single(const matrix_T_t& T,
             // not just if the matrix is ill-conditioned.
             // The equations to take the scaling into account also don't
             // seem fully correct.
-            TT denom = T11(i, i) - w;
+            TT denom = trevc_perturb<TT>(T11(i, i) - w, w);
             // Scale factor so that we can safely calculate v1[i] / (T11(i, i) -
             // w)
             real_t scale1 = trevc_protectdiv(v1[i], denom, sf_min, sf_max);
@@ -294,7 +294,7 @@ void trevc_backsolve_single(const matrix_T_t& T,
 
     for (idx_t ii = 0; ii < k; ++ii) {
         idx_t i = k - 1 - ii;
-        TT denom = T11(i, i) - w;
+        TT denom = trevc_perturb<TT>(T11(i, i) - w, w);
         // Scale factor so that we can safely calculate v1[i] / (T11(i, i) - w)
         real_t scale1 = trevc_protectdiv(v1[i], denom, sf_min, sf_max);
 
diff --git a/include/tlapack/lapack/trevc_forwardsolve.hpp b/include/tlapack/lapack/trevc_forwardsolve.hpp
index 4c6dd65..6ffebb7 100644
--- a/include/tlapack/lapack/trevc_forwardsolve.hpp
+++ b/include/tlapack/lapack/trevc_forwardsolve.hpp
@@ -199,7 +199,7 @@ void trevc_forwardsolve_single(const matrix_T_t& T,
 
             // Step 2: division
 
-            real_t denom = T33(i, i) - w;
+            real_t denom = trevc_perturb<TT>(T33(i, i) - w, w);
             real_t scale2 = trevc_protectdiv(v3[i], denom, sf_min, sf_max);
             v3[i] = (scale2 * v3[i]) / denom;
 
@@ -290,7 +290,7 @@ void trevc_forwardsolve_single(const matrix_T_t& T,
 
         // Step 2: division
 
-        TT denom = conj(T33(i, i) - w);
+        TT denom = conj(trevc_perturb<TT>(T33(i, i) - w, w));
         real_t scale2 = trevc_protectdiv(v3[i], denom, sf_min, sf_max);
         v3[i] = ladiv(scale2 * v3[i], denom);
 
diff --git a/include/tlapack/lapack/trevc_protect.hpp b/include/tlapack/lapack/trevc_protect.hpp
index 7b89251..f85dd37 100644
--- a/include/tlapack/lapack/trevc_protect.hpp
+++ b/include/tlapack/lapack/trevc_protect.hpp
@@ -116,6 +116,26 @@ real_type<T> trevc_protectdiv(
     return trevc_protectdiv(a1, b1, sf_min, sf_max);
 }
 
+/**
+ * Perturb the denominator T(i,i) - w if it is so small that w should be
+ * considered a repeated eigenvalue
+ *
+ * @param denom Denominator
+ * @param w Eigenvalue
+ *
+ * @return denom, or a small number if denom is negligible with respect to w
+ *
+ */
+template <TLAPACK_SCALAR T>
+T trevc_perturb(const T& denom, const T& w)
+{
+    using real_t = real_type<T>;
+    const real_t small_num = safe_min<real_t>() / ulp<real_t>();
+    const real_t wnorm = ulp<real_t>() * abs1(w);
+    const real_t dmin = (wnorm > small_num) ? wnorm : small_num;
+    return (abs1(denom) < dmin) ? T(dmin) : denom;
+}
+
 /**
  * Given the infinity norms of the matrices Y, T, and X, calculate a scaling
  * factor scale in (0, 1] such that the update Z = scale*Y - T * (scale * X)
-- 
2.43.0


From e5bbfa39a9456e90f042cc8f3d4ae9a8f6e80fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:07 +0000
Subject: [PATCH 36/59] fix: laed6 used b in place of c in its cubic convergent
 step

---
 include/tlapack/lapack/laed6.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/laed6.hpp b/include/tlapack/lapack/laed6.hpp
index b840692..9131fcf 100644
--- a/include/tlapack/lapack/laed6.hpp
+++ b/include/tlapack/lapack/laed6.hpp
@@ -278,7 +278,7 @@ int laed6(idx_t kniter,
         temp = max(max(abs(a), abs(b)), abs(c));
         a = a / temp;
         b = b / temp;
-        c = b / temp;
+        c = c / temp;
 
         if (c == 0.0) {
             eta = b / a;
-- 
2.43.0


From 5e6db7610da56bb00c59d7ece51011e55b79287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:07 +0000
Subject: [PATCH 37/59] fix: laed4 returned without an eigenvalue after a three
 pole interpolation

---
 include/tlapack/lapack/laed4.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/laed4.hpp b/include/tlapack/lapack/laed4.hpp
index f2d340a..cf710c6 100644
--- a/include/tlapack/lapack/laed4.hpp
+++ b/include/tlapack/lapack/laed4.hpp
@@ -609,7 +609,7 @@ int laed4(
             std::vector<real_t> sub(delta.begin() + iim1, delta.end());
             info = laed6(niter, orgati, c, sub, zz, w, eta);
 
-            if (info == 0) {
+            if (info != 0) {
                 return info;
             }
         }
@@ -795,7 +795,7 @@ int laed4(
                 std::vector<real_t> sub(delta.begin() + iim1, delta.end());
                 info = laed6(niter, orgati, c, sub, zz, w, eta);
 
-                if (info == 0) {
+                if (info != 0) {
                     return info;
                 }
             }
-- 
2.43.0


From 400dba8efdf370e76f63021d524841602322aebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:07 +0000
Subject: [PATCH 38/59] fix: ungbr_q and ungbr_p wrote outside an empty matrix

---
 include/tlapack/lapack/ungbr.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/tlapack/lapack/ungbr.hpp b/include/tlapack/lapack/ungbr.hpp
index 642ee29..3f09edc 100644
--- a/include/tlapack/lapack/ungbr.hpp
+++ b/include/tlapack/lapack/ungbr.hpp
@@ -56,6 +56,9 @@ constexpr WorkInfo ungbr_q_worksize(const size_type<matrix_t> k,
     // constants
     const idx_t m = nrows(A);
 
+    // quick return
+    if (m == 0) return WorkInfo(0);
+
     if (m >= k) {
         return ungq_worksize<T>(FORWARD, COLUMNWISE_STORAGE, A, tau,
                                 UngqOpts{opts.nb});
@@ -100,6 +103,9 @@ constexpr WorkInfo ungbr_p_worksize(const size_type<matrix_t> k,
     // constants
     const idx_t n = ncols(A);
 
+    // quick return
+    if (n == 0) return WorkInfo(0);
+
     if (n <= k) {
         auto&& A2 = slice(A, range{0, n - 1}, range{0, n - 1});
         auto&& tau2 = slice(tau, range{0, n - 1});
@@ -139,6 +145,9 @@ int ungbr_q_work(const size_type<matrix_t> k,
     const real_t one(1);
     const idx_t m = nrows(A);
 
+    // quick return
+    if (m == 0) return 0;
+
     if (m >= k) {
         // If m >= k, assume m >= n >= k
         ungq_work(FORWARD, COLUMNWISE_STORAGE, A, tau, work, UngqOpts{opts.nb});
@@ -244,6 +253,9 @@ int ungbr_p_work(const size_type<matrix_t> k,
     const real_t one(1);
     const idx_t n = ncols(A);
 
+    // quick return
+    if (n == 0) return 0;
+
     //
     // Form P**H, determined by a call to gebrd to reduce a k-by-n
     // matrix
-- 
2.43.0


From cea73a0267bcf02b3e59dc1bd9c1c2231b119aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:07 +0000
Subject: [PATCH 39/59] fix: steqr returned success when the iteration did not
 converge

---
 include/tlapack/lapack/steqr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/steqr.hpp b/include/tlapack/lapack/steqr.hpp
index 7d32b98..2f2c531 100644
--- a/include/tlapack/lapack/steqr.hpp
+++ b/include/tlapack/lapack/steqr.hpp
@@ -112,7 +112,7 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
     bool forwarddirection = true;
 
     // Main loop
-    for (idx_t iter = 0; iter < itmax; iter++) {
+    for (idx_t iter = 0; iter <= itmax; iter++) {
         if (iter == itmax) {
             // The QR algorithm failed to converge, return with error.
             return istop;
-- 
2.43.0


From 47d277c373dd26054d71afe90ad29c5e80c1c756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:52 +0000
Subject: [PATCH 40/59] fix: generalized_schur_swap updated Q and Z although
 not wanted

---
 .../tlapack/lapack/generalized_schur_swap.hpp | 48 +++++++++++--------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/include/tlapack/lapack/generalized_schur_swap.hpp b/include/tlapack/lapack/generalized_schur_swap.hpp
index 83e1b76..6f8850c 100644
--- a/include/tlapack/lapack/generalized_schur_swap.hpp
+++ b/include/tlapack/lapack/generalized_schur_swap.hpp
@@ -948,7 +948,7 @@ int generalized_schur_swap(bool want_q,
                  work_slice);
             lacpy(GENERAL, work_slice, B_slice);
         }
-        {
+        if (want_q) {
             auto Q_slice = slice(Q, range(0, n), range(j0, j3 + 1));
             auto work_slice = slice(workr, range(0, n), range(0, 4));
             gemm(NO_TRANS, NO_TRANS, (T)1, Q_slice, QQ, StrongZero(T(0)),
@@ -974,7 +974,7 @@ int generalized_schur_swap(bool want_q,
                  work_slice);
             lacpy(GENERAL, work_slice, B_slice);
         }
-        {
+        if (want_z) {
             auto Z_slice = slice(Z, range(0, n), range(j0, j3 + 1));
             auto work_slice = slice(workr, range(0, n), range(0, 4));
             gemm(NO_TRANS, NO_TRANS, (T)1, Z_slice, ZZ, StrongZero(T(0)),
@@ -1029,9 +1029,11 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, j0, range(j2, n));
             auto b2 = slice(B, j1, range(j2, n));
             rot(b1, b2, cl, sl);
-            auto q0 = col(Q, j0);
-            auto q1 = col(Q, j1);
-            rot(q0, q1, cl, sl);
+            if (want_q) {
+                auto q0 = col(Q, j0);
+                auto q1 = col(Q, j1);
+                rot(q0, q1, cl, sl);
+            }
         }
         // Apply right rotation and scaling
         {
@@ -1041,20 +1043,22 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, range(0, j0), j0);
             auto b2 = slice(B, range(0, j0), j1);
             rot(b1, b2, cr, sr);
-            auto z0 = col(Z, j0);
-            auto z1 = col(Z, j1);
-            rot(z0, z1, cr, sr);
-
             if (scal0 != (T)1) {
                 scal(scal0, a1);
                 scal(scal0, b1);
-                scal(scal0, z0);
             }
 
             if (scal1 != (T)1) {
                 scal(scal1, a2);
                 scal(scal1, b2);
-                scal(scal1, z1);
+            }
+
+            if (want_z) {
+                auto z0 = col(Z, j0);
+                auto z1 = col(Z, j1);
+                rot(z0, z1, cr, sr);
+                if (scal0 != (T)1) scal(scal0, z0);
+                if (scal1 != (T)1) scal(scal1, z1);
             }
         }
     }
@@ -1091,9 +1095,11 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, j0 + n2, range(j2 + n2, n));
             auto b2 = slice(B, j1 + n2, range(j2 + n2, n));
             rot(b1, b2, cl, sl);
-            auto q0 = col(Q, j0 + n2);
-            auto q1 = col(Q, j1 + n2);
-            rot(q0, q1, cl, sl);
+            if (want_q) {
+                auto q0 = col(Q, j0 + n2);
+                auto q1 = col(Q, j1 + n2);
+                rot(q0, q1, cl, sl);
+            }
         }
         // Apply right rotation
         {
@@ -1103,20 +1109,22 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, range(0, j0 + n2), j0 + n2);
             auto b2 = slice(B, range(0, j0 + n2), j1 + n2);
             rot(b1, b2, cr, sr);
-            auto z0 = col(Z, j0 + n2);
-            auto z1 = col(Z, j1 + n2);
-            rot(z0, z1, cr, sr);
-
             if (scal0 != (T)1) {
                 scal(scal0, a1);
                 scal(scal0, b1);
-                scal(scal0, z0);
             }
 
             if (scal1 != (T)1) {
                 scal(scal1, a2);
                 scal(scal1, b2);
-                scal(scal1, z1);
+            }
+
+            if (want_z) {
+                auto z0 = col(Z, j0 + n2);
+                auto z1 = col(Z, j1 + n2);
+                rot(z0, z1, cr, sr);
+                if (scal0 != (T)1) scal(scal0, z0);
+                if (scal1 != (T)1) scal(scal1, z1);
             }
         }
     }
-- 
2.43.0


From 51fe2bb7da0627586d83b5b409964ac3c9a17f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:52 +0000
Subject: [PATCH 41/59] fix: lahqz_eig22 returned NaN for a complex pencil with
 a double eigenvalue

---
 include/tlapack/lapack/lahqz_eig22.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/lahqz_eig22.hpp b/include/tlapack/lapack/lahqz_eig22.hpp
index 311ce78..cdf86fa 100644
--- a/include/tlapack/lapack/lahqz_eig22.hpp
+++ b/include/tlapack/lapack/lahqz_eig22.hpp
@@ -216,7 +216,7 @@ void lahqz_eig22(const A_t& A,
         else {
             mu_big = pp - root;
         }
-        TA mu_small = -qq / mu_big;
+        TA mu_small = (mu_big != zero) ? TA(-qq / mu_big) : TA(zero);
         alpha1 = shift + mu_big;
         alpha2 = shift + mu_small;
     }
-- 
2.43.0


From 5b8b9c66f23b27fa3c4b5eea84f4db89301bb0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:52 +0000
Subject: [PATCH 42/59] fix: lahqz_shiftcolumn divided the complex part by
 scales that were not applied

---
 include/tlapack/lapack/lahqz_shiftcolumn.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tlapack/lapack/lahqz_shiftcolumn.hpp b/include/tlapack/lapack/lahqz_shiftcolumn.hpp
index c150c4d..5c4a824 100644
--- a/include/tlapack/lapack/lahqz_shiftcolumn.hpp
+++ b/include/tlapack/lapack/lahqz_shiftcolumn.hpp
@@ -92,6 +92,8 @@ int lahqz_shiftcolumn(const matrix_t& A,
             w1 = w1 / scale1;
             w2 = w2 / scale1;
         }
+        else
+            scale1 = real_t(1);
         // Solve linear system
         w2 = w2 / B(1, 1);
         w1 = (w1 - B(0, 1) * w2) / B(0, 0);
@@ -100,6 +102,8 @@ int lahqz_shiftcolumn(const matrix_t& A,
             w1 = w1 / scale2;
             w2 = w2 / scale2;
         }
+        else
+            scale2 = real_t(1);
         // Apply second shift
         v[0] = beta2 * (A(0, 0) * w1 + A(0, 1) * w2) -
                real(s2) * (B(0, 0) * w1 + B(0, 1) * w2);
-- 
2.43.0


From 3420f3afe7efae8dacc7fca49f08d643148f002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:52 +0000
Subject: [PATCH 43/59] fix: gghd3 updated Q and Z although not wanted

---
 include/tlapack/lapack/gghd3.hpp | 44 +++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/include/tlapack/lapack/gghd3.hpp b/include/tlapack/lapack/gghd3.hpp
index a7cb39a..3ed664d 100644
--- a/include/tlapack/lapack/gghd3.hpp
+++ b/include/tlapack/lapack/gghd3.hpp
@@ -184,10 +184,12 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, C3, B2);
             }
 
-            auto Q2 = cols(Q, range(ihi - nblst, ihi));
-            auto D2 = cols(D, range(0, nblst));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
-            lacpy(GENERAL, D2, Q2);
+            if (wantq) {
+                auto Q2 = cols(Q, range(ihi - nblst, ihi));
+                auto D2 = cols(D, range(0, nblst));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
+                lacpy(GENERAL, D2, Q2);
+            }
         }
         for (idx_t ib = n2nb - 1; ib != (idx_t)-1; ib--) {
             auto Qt2 = slice(Qt, range(0, 2 * nnb), range(0, 2 * nnb));
@@ -218,11 +220,13 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, C3, B2);
             }
 
-            auto Q2 =
-                cols(Q, range(j + 1 + nnb * ib, j + 1 + nnb * ib + 2 * nnb));
-            auto D2 = cols(D, range(0, 2 * nnb));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
-            lacpy(GENERAL, D2, Q2);
+            if (wantq) {
+                auto Q2 = cols(
+                    Q, range(j + 1 + nnb * ib, j + 1 + nnb * ib + 2 * nnb));
+                auto D2 = cols(D, range(0, 2 * nnb));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
+                lacpy(GENERAL, D2, Q2);
+            }
         }
 
         //
@@ -254,10 +258,12 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, D2, B2);
             }
 
-            auto Z2 = cols(Z, range(ihi - nblst, ihi));
-            auto D2 = cols(D, range(0, nblst));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
-            lacpy(GENERAL, D2, Z2);
+            if (wantz) {
+                auto Z2 = cols(Z, range(ihi - nblst, ihi));
+                auto D2 = cols(D, range(0, nblst));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
+                lacpy(GENERAL, D2, Z2);
+            }
         }
         for (idx_t ib = n2nb - 1; ib != (idx_t)-1; ib--) {
             auto Qt2 = slice(Qt, range(0, 2 * nnb), range(0, 2 * nnb));
@@ -287,11 +293,13 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, D2, B2);
             }
 
-            auto Z2 =
-                cols(Z, range(j + 1 + nnb * ib, j + 1 + nnb * ib + 2 * nnb));
-            auto D2 = cols(D, range(0, 2 * nnb));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
-            lacpy(GENERAL, D2, Z2);
+            if (wantz) {
+                auto Z2 = cols(
+                    Z, range(j + 1 + nnb * ib, j + 1 + nnb * ib + 2 * nnb));
+                auto D2 = cols(D, range(0, 2 * nnb));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
+                lacpy(GENERAL, D2, Z2);
+            }
         }
     }
 
-- 
2.43.0


From c9de024e7b0fd996cd9cb55034b98772a857e14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:52 +0000
Subject: [PATCH 44/59] fix: lahqz and multishift_qz read A(i+1,i) past the
 last row in the deflation test

---
 include/tlapack/lapack/lahqz.hpp         | 2 +-
 include/tlapack/lapack/multishift_qz.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/lahqz.hpp b/include/tlapack/lapack/lahqz.hpp
index 3176bb8..7a6854f 100644
--- a/include/tlapack/lapack/lahqz.hpp
+++ b/include/tlapack/lapack/lahqz.hpp
@@ -182,7 +182,7 @@ int lahqz(bool want_s,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index 15c5d91..88d4ad7 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -204,7 +204,7 @@ int multishift_qz(bool want_s,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
-- 
2.43.0


From 39367fa3a4e1a9c3e0dc6d077b8ec2bd81cb7f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:52 +0000
Subject: [PATCH 45/59] fix: lahqz and multishift_qz replaced real positive
 diagonal entries of a complex B by zero

---
 include/tlapack/lapack/lahqz.hpp         | 2 +-
 include/tlapack/lapack/multishift_qz.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/lahqz.hpp b/include/tlapack/lapack/lahqz.hpp
index 7a6854f..2f52147 100644
--- a/include/tlapack/lapack/lahqz.hpp
+++ b/include/tlapack/lapack/lahqz.hpp
@@ -328,7 +328,7 @@ int lahqz(bool want_s,
                     }
                     B(istart, istart) = absB;
                 }
-                else {
+                else if (absB <= small_num) {
                     B(istart, istart) = zero;
                 }
             }
diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index 88d4ad7..54032d1 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -350,7 +350,7 @@ int multishift_qz(bool want_s,
                     }
                     B(istart, istart) = absB;
                 }
-                else {
+                else if (absB <= small_num) {
                     B(istart, istart) = zero;
                 }
             }
-- 
2.43.0


From 6b81e7803e3f9001271dc6e0e75593068dffa39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:40 +0000
Subject: [PATCH 46/59] fix: lahqz used exceptional shifts that cannot break a
 cycle

---
 include/tlapack/lapack/lahqz.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/lahqz.hpp b/include/tlapack/lapack/lahqz.hpp
index 2f52147..a2b03a8 100644
--- a/include/tlapack/lapack/lahqz.hpp
+++ b/include/tlapack/lapack/lahqz.hpp
@@ -416,10 +416,10 @@ int lahqz(bool want_s,
         TA beta2;
         if (k_defl % non_convergence_limit == 0) {
             // Exceptional shift
-            if (k_defl % 2 * non_convergence_limit == 0 or istop < 2)
+            if (k_defl % (2 * non_convergence_limit) == 0 or istop < 2)
                 eshift += A(istop - 1, istop - 1) / B(istop - 1, istop - 1);
             else
-                eshift += A(istop - 2, istop - 2) / B(istop - 2, istop - 2);
+                eshift += A(istop - 1, istop - 2) / B(istop - 2, istop - 2);
 
             shift1 = eshift;
             shift2 = eshift;
-- 
2.43.0


From c213e60f3cb5e72d57a7004ab4f37b8c89f2625d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:54 +0000
Subject: [PATCH 47/59] fix: multishift_qz used more shifts than it had

The number of shifts was not bounded by the size of the active block nor by
the number of eigenvalues that the deflation window left, so slices of alpha
and beta started below zero (or ran past the window). The exceptional shifts
were stored at positions that the sweep did not read.
---
 include/tlapack/lapack/multishift_qz.hpp | 34 +++++++++++++++++++-----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index 54032d1..587b756 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -94,8 +94,11 @@ int multishift_qz(bool want_s,
     // if n < nmin, the matrix will be passed to lahqr
     const idx_t nmin = opts.nmin;
 
-    // Recommended number of shifts
-    const idx_t nsr = opts.nshift_recommender(n, nh);
+    // Recommended number of shifts. It must be even, and the shifts must fit
+    // in the active block and in the scratch space
+    idx_t nsr = min<idx_t>(opts.nshift_recommender(n, nh),
+                           min<idx_t>(nh, (n - 3) / 6));
+    nsr = max<idx_t>(2, nsr - nsr % 2);
 
     // Recommended deflation window size
     const idx_t nwr = opts.deflation_window_recommender(n, nh);
@@ -474,27 +477,44 @@ int multishift_qz(bool want_s,
         }
 
         k_defl = k_defl + 1;
-        idx_t ns = min(nh - 1, min(ls, nsr));
+        idx_t ns = max<idx_t>(2, min<idx_t>(nsr, istop - istart - 1));
+        ns = ns - ns % 2;
 
         idx_t i_shifts = istop - ls;
 
         if (k_defl % non_convergence_limit_shift == 0) {
             // This exceptional shift closely resembles the QR exceptional shift
             // This is nice for easy maintenance, but is not guaranteed to work.
-            ns = nsr;
-            for (idx_t i = i_shifts; i < istop - 1; i = i + 2) {
+            i_shifts = istop - ns;
+            for (idx_t k = 0; k < ns; k = k + 2) {
+                const idx_t i = istop - 1 - k;
                 real_t ss = abs1(A(i, i - 1));
                 if (i > 1) ss += abs1(A(i - 1, i - 2));
                 TA aa = dat1 * ss + A(i, i);
                 TA bb = ss;
                 TA cc = dat2 * ss;
                 TA dd = aa;
-                lahqr_eig22(aa, bb, cc, dd, alpha[i], alpha[i + 1]);
+                lahqr_eig22(aa, bb, cc, dd, alpha[i - 1], alpha[i]);
+                beta[i - 1] = (TA)1;
                 beta[i] = (TA)1;
-                beta[i + 1] = (TA)1;
             }
         }
         else {
+            if (ls < 2) {
+                // Not enough shifts, use the eigenvalues of the trailing 2x2
+                // principal subpencil
+                i_shifts = istop - 2;
+                auto A22 =
+                    slice(A, range{i_shifts, istop}, range{i_shifts, istop});
+                auto B22 =
+                    slice(B, range{i_shifts, istop}, range{i_shifts, istop});
+                lahqz_eig22(A22, B22, alpha[i_shifts], alpha[i_shifts + 1],
+                            beta[i_shifts], beta[i_shifts + 1]);
+                ns = 2;
+            }
+            else
+                ns = min<idx_t>(ns, ls);
+
             // Sort the shifts (helps a little)
             // Bubble sort keeps complex conjugate pairs together
             bool sorted = false;
-- 
2.43.0


From a027e18d066ed521a72ba4fcd227a173e0196c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:54 +0000
Subject: [PATCH 48/59] fix: inv_house3 returned the zero vector if the scale
 underflowed

If the trailing block of a matrix with large entries is nearly singular, the
scale abs1(u22 / v[2]) underflows to zero, and the reflector is the identity
although the column is not reduced.
---
 include/tlapack/lapack/inv_house3.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/inv_house3.hpp b/include/tlapack/lapack/inv_house3.hpp
index 83d373c..2847431 100644
--- a/include/tlapack/lapack/inv_house3.hpp
+++ b/include/tlapack/lapack/inv_house3.hpp
@@ -54,7 +54,13 @@ void inv_house3(const matrix_t& A, vector_t& v, type_t<vector_t>& tau)
     real_t temp1 = max<real_t>(abs1(A(0, 1)), abs1(A(0, 2)));
     real_t temp2 = max<real_t>(abs1(A(1, 1)), abs1(A(1, 2)));
 
-    if (temp1 < safemin and temp2 < safemin) {
+    // A block that is negligible with respect to the first column is treated as
+    // zero: the scale of x would underflow
+    const real_t small =
+        safemin *
+        max<real_t>(real_t(1), max<real_t>(abs1(A(0, 0)), abs1(A(1, 0))));
+
+    if (temp1 < small and temp2 < small) {
         v[0] = (T)0;
         v[1] = (T)1;
         v[2] = (T)0;
@@ -96,7 +102,7 @@ void inv_house3(const matrix_t& A, vector_t& v, type_t<vector_t>& tau)
     v[2] = v[2] - v[1] * l21;
     // Solve upper triangular system
     real_t scale = (real_t)1;
-    if (abs1(u22) < safemin) {
+    if (abs1(u22) < safemin * max<real_t>(real_t(1), abs1(v[2]))) {
         v[0] = (T)0;
         v[1] = -u12 / u11;
         v[2] = (T)1;
-- 
2.43.0


From ccbb8d0886f4e6f627381438568d32b9e7c9dcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:34 +0000
Subject: [PATCH 49/59] fix: lahqz and multishift_qz divided by zeros that the
 deflation of infinite eigenvalues introduced

The rotations that move an infinite eigenvalue to the top may make other
diagonal entries of B zero. These were not deflated before the next iteration,
which then filled A and B with NaN.
---
 include/tlapack/lapack/lahqz.hpp         | 4 ++++
 include/tlapack/lapack/multishift_qz.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/tlapack/lapack/lahqz.hpp b/include/tlapack/lapack/lahqz.hpp
index a2b03a8..0da50d8 100644
--- a/include/tlapack/lapack/lahqz.hpp
+++ b/include/tlapack/lapack/lahqz.hpp
@@ -218,6 +218,7 @@ int lahqz(bool want_s,
         }
 
         // check for infinite eigenvalues
+        const idx_t istart_old = istart;
         for (idx_t i = istart; i < istop; ++i) {
             if (abs1(B(i, i)) <= max(small_num, eps * bnorm)) {
                 // B(i,i) is negligible, so B is singular, i.e. (A,B) has an
@@ -294,6 +295,9 @@ int lahqz(bool want_s,
             istart = ilo;
             continue;
         }
+        // The rotations above may have introduced zeros on the diagonal of B or on
+        // the subdiagonal of A, check the rest of the block again.
+        if (istart != istart_old && istart + 1 < istop) continue;
         // Check if 1x1 block has split off
         if (istart + 1 == istop) {
             k_defl = 0;
diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index 587b756..6f32ef3 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -243,6 +243,7 @@ int multishift_qz(bool want_s,
         }
 
         // check for infinite eigenvalues
+        const idx_t istart_old = istart;
         for (idx_t i = istart; i < istop; ++i) {
             if (abs1(B(i, i)) <= max(small_num, eps * bnorm)) {
                 // B(i,i) is negligible, so B is singular, i.e. (A,B) has an
@@ -319,6 +320,9 @@ int multishift_qz(bool want_s,
             istart = ilo;
             continue;
         }
+        // The rotations above may have introduced zeros on the diagonal of B or on
+        // the subdiagonal of A, check the rest of the block again.
+        if (istart != istart_old && istart + 1 < istop) continue;
         // Check if 1x1 block has split off
         if (istart + 1 == istop) {
             k_defl = 0;
-- 
2.43.0


From 2912bab35a58c9fbfe2d0295082dd804e0b7c170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:58 +0000
Subject: [PATCH 50/59] fix: multishift_qz exceptional shifts ignored B

The exceptional shifts were eigenvalues of A alone, so pencils that need one
did not converge unless the entries of B were of size one.
---
 include/tlapack/lapack/multishift_qz.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index 6f32ef3..a9ada90 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -499,8 +499,8 @@ int multishift_qz(bool want_s,
                 TA cc = dat2 * ss;
                 TA dd = aa;
                 lahqr_eig22(aa, bb, cc, dd, alpha[i - 1], alpha[i]);
-                beta[i - 1] = (TA)1;
-                beta[i] = (TA)1;
+                beta[i - 1] = B(i, i);
+                beta[i] = B(i, i);
             }
         }
         else {
-- 
2.43.0


From b3993732d90d353ba131c6efa99f37e6f14c47b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:39 +0000
Subject: [PATCH 51/59] fix: move_bulge applied the reflector of a reintroduced
 bulge with a wrong coefficient

---
 include/tlapack/lapack/move_bulge.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/move_bulge.hpp b/include/tlapack/lapack/move_bulge.hpp
index 5a6385d..461b94d 100644
--- a/include/tlapack/lapack/move_bulge.hpp
+++ b/include/tlapack/lapack/move_bulge.hpp
@@ -82,7 +82,7 @@ void move_bulge(matrix_t& H,
         larfg(FORWARD, COLUMNWISE_STORAGE, vt, tau);
         vt[0] = tau;
 
-        refsum = conj(vt[0]) * H(1, 0) + conj(vt[1]) * H(2, 0);
+        refsum = conj(vt[0]) * (H(1, 0) + conj(vt[1]) * H(2, 0));
         if (abs1(H(2, 0) - refsum * vt[1]) + abs1(refsum * vt[2]) >
             eps * (abs1(H(0, 0)) + abs1(H(1, 1)) + abs1(H(2, 2)))) {
             // Starting a new bulge here would create non-negligible fill. Use
-- 
2.43.0


From 15a28f8e3368e2f49df11c86569ae756925b476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:52 +0000
Subject: [PATCH 52/59] fix: unmq_level2_worksize read tau[0] of an empty tau

---
 include/tlapack/lapack/unmq_level2.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tlapack/lapack/unmq_level2.hpp b/include/tlapack/lapack/unmq_level2.hpp
index ec34350..3ec7b5c 100644
--- a/include/tlapack/lapack/unmq_level2.hpp
+++ b/include/tlapack/lapack/unmq_level2.hpp
@@ -82,6 +82,9 @@ constexpr WorkInfo unmq_level2_worksize(side_t side,
     const idx_t n = ncols(C);
     const idx_t nQ = (side == Side::Left) ? m : n;
 
+    // quick return
+    if (size(tau) == 0 || nQ == 0) return WorkInfo(0);
+
     if (storeMode == StoreV::Columnwise)
         return larf_worksize<T>(side, direction, storeMode,
                                 slice(V, range{0, nQ}, 0), tau[0], C);
-- 
2.43.0


From 540520f0de7f7aacbfaf1368e9c3369897be1f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:47 +0000
Subject: [PATCH 53/59] fix: WorkInfo::transpose forgot that the workspace must
 be contiguous

---
 include/tlapack/base/workspace.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/base/workspace.hpp b/include/tlapack/base/workspace.hpp
index fd6b2f7..1be8a93 100644
--- a/include/tlapack/base/workspace.hpp
+++ b/include/tlapack/base/workspace.hpp
@@ -161,8 +161,11 @@ struct WorkInfo {
     {
         if (size() == 0 || isVector)
             return *this;
-        else
-            return WorkInfo(n, m);
+        else {
+            WorkInfo transposed(n, m);
+            transposed.isContiguous = isContiguous;
+            return transposed;
+        }
     }
 
    protected:
-- 
2.43.0


From 8b7c19f6ec69606aa0529f797a3f30e12e90d5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:08 +0000
Subject: [PATCH 54/59] fix: legacy her and her2 used the conjugate update for
 row-major matrices

---
 include/tlapack/legacy_api/blas/her.hpp  | 20 +++++++++++++-------
 include/tlapack/legacy_api/blas/her2.hpp | 21 +++++++++++++--------
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/include/tlapack/legacy_api/blas/her.hpp b/include/tlapack/legacy_api/blas/her.hpp
index db2fb72..51a70b3 100644
--- a/include/tlapack/legacy_api/blas/her.hpp
+++ b/include/tlapack/legacy_api/blas/her.hpp
@@ -71,6 +71,7 @@ namespace legacy {
              idx_t lda)
     {
         using internal::create_matrix;
+        using internal::create_rowmajor_matrix;
         using real_t = real_type<TA, TX>;
 
         // check arguments
@@ -84,15 +85,20 @@ namespace legacy {
         // quick return
         if (n == 0 || alpha == real_t(0)) return;
 
-        // for row major, swap lower <=> upper
-        if (layout == Layout::RowMajor) {
-            uplo = (uplo == Uplo::Lower ? Uplo::Upper : Uplo::Lower);
-        }
+        if (layout == Layout::ColMajor) {
+            // Matrix views
+            auto A_ = create_matrix<TA>(A, n, n, lda);
 
-        // Matrix views
-        auto A_ = create_matrix<TA>(A, n, n, lda);
+            tlapack_expr_with_vector(x_, TX, n, x, incx,
+                                     her(uplo, alpha, x_, A_));
+        }
+        else {
+            // Matrix views
+            auto A_ = create_rowmajor_matrix<TA>(A, n, n, lda);
 
-        tlapack_expr_with_vector(x_, TX, n, x, incx, her(uplo, alpha, x_, A_));
+            tlapack_expr_with_vector(x_, TX, n, x, incx,
+                                     her(uplo, alpha, x_, A_));
+        }
     }
 
 }  // namespace legacy
diff --git a/include/tlapack/legacy_api/blas/her2.hpp b/include/tlapack/legacy_api/blas/her2.hpp
index 6a3e02c..c87c20b 100644
--- a/include/tlapack/legacy_api/blas/her2.hpp
+++ b/include/tlapack/legacy_api/blas/her2.hpp
@@ -80,6 +80,7 @@ namespace legacy {
               idx_t lda)
     {
         using internal::create_matrix;
+        using internal::create_rowmajor_matrix;
         using scalar_t = scalar_type<TA, TX>;
 
         // check arguments
@@ -94,16 +95,20 @@ namespace legacy {
         // quick return
         if (n == 0 || alpha == scalar_t(0)) return;
 
-        // for row major, swap lower <=> upper
-        if (layout == Layout::RowMajor) {
-            uplo = (uplo == Uplo::Lower ? Uplo::Upper : Uplo::Lower);
-        }
+        if (layout == Layout::ColMajor) {
+            // Matrix views
+            auto A_ = create_matrix<TA>(A, n, n, lda);
 
-        // Matrix views
-        auto A_ = create_matrix<TA>(A, n, n, lda);
+            tlapack_expr_with_2vectors(x_, TX, n, x, incx, y_, TY, n, y, incy,
+                                       return her2(uplo, alpha, x_, y_, A_));
+        }
+        else {
+            // Matrix views
+            auto A_ = create_rowmajor_matrix<TA>(A, n, n, lda);
 
-        tlapack_expr_with_2vectors(x_, TX, n, x, incx, y_, TY, n, y, incy,
-                                   return her2(uplo, alpha, x_, y_, A_));
+            tlapack_expr_with_2vectors(x_, TX, n, x, incx, y_, TY, n, y, incy,
+                                       return her2(uplo, alpha, x_, y_, A_));
+        }
     }
 
 }  // namespace legacy
-- 
2.43.0


From 7e8121add0b178bf0e9018a238575c9d0d91b9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:08 +0000
Subject: [PATCH 55/59] fix: legacy herk, her2k, syrk and syr2k wrote to both
 triangles if alpha is zero

---
 include/tlapack/legacy_api/blas/her2k.hpp | 6 ++++--
 include/tlapack/legacy_api/blas/herk.hpp  | 6 ++++--
 include/tlapack/legacy_api/blas/syr2k.hpp | 6 ++++--
 include/tlapack/legacy_api/blas/syrk.hpp  | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/tlapack/legacy_api/blas/her2k.hpp b/include/tlapack/legacy_api/blas/her2k.hpp
index dbcc272..ce1be54 100644
--- a/include/tlapack/legacy_api/blas/her2k.hpp
+++ b/include/tlapack/legacy_api/blas/her2k.hpp
@@ -162,12 +162,14 @@ namespace legacy {
         if (alpha == scalar_t(0)) {
             if (beta == real_t(0)) {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = ((uplo == Uplo::Lower) ? j : 0);
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) = TC(0);
             }
             else {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = ((uplo == Uplo::Lower) ? j : 0);
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) *= beta;
             }
         }
diff --git a/include/tlapack/legacy_api/blas/herk.hpp b/include/tlapack/legacy_api/blas/herk.hpp
index e75494c..9352ec0 100644
--- a/include/tlapack/legacy_api/blas/herk.hpp
+++ b/include/tlapack/legacy_api/blas/herk.hpp
@@ -140,12 +140,14 @@ namespace legacy {
         if (alpha == real_t(0)) {
             if (beta == real_t(0)) {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = ((uplo == Uplo::Lower) ? j : 0);
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) = TC(0);
             }
             else {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = ((uplo == Uplo::Lower) ? j : 0);
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) *= beta;
             }
         }
diff --git a/include/tlapack/legacy_api/blas/syr2k.hpp b/include/tlapack/legacy_api/blas/syr2k.hpp
index b5e1500..e4d6608 100644
--- a/include/tlapack/legacy_api/blas/syr2k.hpp
+++ b/include/tlapack/legacy_api/blas/syr2k.hpp
@@ -162,12 +162,14 @@ namespace legacy {
         if (alpha == scalar_t(0)) {
             if (beta == scalar_t(0)) {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = ((uplo == Uplo::Lower) ? j : 0);
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) = TC(0);
             }
             else {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = ((uplo == Uplo::Lower) ? j : 0);
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) *= beta;
             }
         }
diff --git a/include/tlapack/legacy_api/blas/syrk.hpp b/include/tlapack/legacy_api/blas/syrk.hpp
index 41d9a22..1653a10 100644
--- a/include/tlapack/legacy_api/blas/syrk.hpp
+++ b/include/tlapack/legacy_api/blas/syrk.hpp
@@ -142,12 +142,14 @@ namespace legacy {
         if (alpha == scalar_t(0)) {
             if (beta == scalar_t(0)) {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = ((uplo == Uplo::Lower) ? j : 0);
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) = TC(0);
             }
             else {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = ((uplo == Uplo::Lower) ? j : 0);
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) *= beta;
             }
         }
-- 
2.43.0


From d54efb851d863c9d45d2f6811876aebce74d0da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:08 +0000
Subject: [PATCH 56/59] fix: legacy ung2r ignored the number of reflectors k

---
 include/tlapack/legacy_api/lapack/ung2r.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/legacy_api/lapack/ung2r.hpp b/include/tlapack/legacy_api/lapack/ung2r.hpp
index 64d79a4..f2dcb02 100644
--- a/include/tlapack/legacy_api/lapack/ung2r.hpp
+++ b/include/tlapack/legacy_api/lapack/ung2r.hpp
@@ -57,7 +57,7 @@ namespace legacy {
 
         // Matrix views
         auto A_ = create_matrix<TA>(A, m, n, lda);
-        auto tau_ = create_vector((TT*)tau, min(m, n));
+        auto tau_ = create_vector((TT*)tau, k);
 
         return ung2r(A_, tau_);
     }
-- 
2.43.0


From 23ebee70520affdcb16029b3348e0a62105f2d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:08 +0000
Subject: [PATCH 57/59] fix: legacy unm2r did not compile

---
 include/tlapack/legacy_api/lapack/unm2r.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/legacy_api/lapack/unm2r.hpp b/include/tlapack/legacy_api/lapack/unm2r.hpp
index b7e6eca..8c12265 100644
--- a/include/tlapack/legacy_api/lapack/unm2r.hpp
+++ b/include/tlapack/legacy_api/lapack/unm2r.hpp
@@ -56,7 +56,7 @@ namespace legacy {
               idx_t k,
               TA* A,
               idx_t lda,
-              const real_type<TA, TC>* tau,
+              const TA* tau,
               TC* C,
               idx_t ldc)
     {
@@ -82,7 +82,7 @@ namespace legacy {
         const auto tau_ = create_vector((TA*)tau, k);
         auto C_ = create_matrix<TC>(C, m, n, ldc);
 
-        return unm2r(side, trans, A, tau_, C_);
+        return unm2r(side, trans, A_, tau_, C_);
     }
 
 }  // namespace legacy
-- 
2.43.0


From 2ea4b5f050e3fc0c77a07308e1d2d9c07cfa707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:16 +0000
Subject: [PATCH 58/59] fix: slices of a backward LegacyVector denoted the
 wrong entries

---
 include/tlapack/plugins/legacyArray.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/plugins/legacyArray.hpp b/include/tlapack/plugins/legacyArray.hpp
index 744eeca..7443ea1 100644
--- a/include/tlapack/plugins/legacyArray.hpp
+++ b/include/tlapack/plugins/legacyArray.hpp
@@ -380,8 +380,11 @@ constexpr auto slice(const LegacyVector<T, idx_t, int_t, direction>& v,
            rows.first == rows.second);
     assert(rows.second >= 0 and (idx_t) rows.second <= size(v));
     assert(rows.first <= rows.second);
+    // The first entry of a backward vector is the last one in memory
+    const auto first =
+        (direction == Direction::Forward) ? rows.first : v.n - rows.second;
     return LegacyVector<const T, idx_t, int_t, direction>(
-        rows.second - rows.first, &v.ptr[rows.first * v.inc], v.inc);
+        rows.second - rows.first, &v.ptr[first * v.inc], v.inc);
 }
 
 // -----------------------------------------------------------------------------
@@ -568,8 +571,11 @@ constexpr auto slice(LegacyVector<T, idx_t, int_t, direction>& v,
            rows.first == rows.second);
     assert(rows.second >= 0 and (idx_t) rows.second <= size(v));
     assert(rows.first <= rows.second);
+    // The first entry of a backward vector is the last one in memory
+    const auto first =
+        (direction == Direction::Forward) ? rows.first : v.n - rows.second;
     return LegacyVector<T, idx_t, int_t, direction>(
-        rows.second - rows.first, &v.ptr[rows.first * v.inc], v.inc);
+        rows.second - rows.first, &v.ptr[first * v.inc], v.inc);
 }
 
 // Reshape LegacyMatrix
-- 
2.43.0


From cdc5810b4bee339bfea6049c418d49dfebf96da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:16 +0000
Subject: [PATCH 59/59] fix: reshape of a non-contiguous LegacyMatrix to an
 empty one returned the wrong size

---
 include/tlapack/plugins/legacyArray.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/plugins/legacyArray.hpp b/include/tlapack/plugins/legacyArray.hpp
index 7443ea1..6e50d03 100644
--- a/include/tlapack/plugins/legacyArray.hpp
+++ b/include/tlapack/plugins/legacyArray.hpp
@@ -606,12 +606,14 @@ auto reshape(LegacyMatrix<T, idx_t, layout>& A,
                 : matrix_t(1, size - new_size, &A.ptr[0] + new_size));
     }
     else {
-        if (m == A.m || n == 0)
+        if (m == A.m)
             return std::make_pair(cols(A, std::pair{(idx_t)0, n}),
                                   cols(A, std::pair{n, A.n}));
-        else if (n == A.n || m == 0)
+        else if (n == A.n)
             return std::make_pair(rows(A, std::pair{(idx_t)0, m}),
                                   rows(A, std::pair{m, A.m}));
+        else if (new_size == 0)
+            return std::make_pair(matrix_t(m, n, &A.ptr[0]), A);
         else
             throw std::domain_error(
                 "Cannot reshape to non-contiguous matrix into a matrix if both "
-- 
2.43.0

