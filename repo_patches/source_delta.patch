From 427ad42e5232a15623ca2605477baa1d1b726625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 01/55] fix: conjugate matrix entries in the multi-vector
 transposed products

---
 src/hif/ds/CompressedStorage.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 0079753..3622323 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1302,7 +1302,8 @@ class CRS
       for (auto last = col_ind_cend(i); i_itr != last; ++i_itr, ++v_itr) {
         const size_type j = *i_itr;
         hif_assert(j < _ncols, "%zd exceeds column size", j);
-        for (size_type k(0); k < Nrhs; ++k) y[j * Nrhs + k] += temp[k] * *v_itr;
+        const v_t avc = conjugate(*v_itr);
+        for (size_type k(0); k < Nrhs; ++k) y[j * Nrhs + k] += temp[k] * avc;
       }
     }
   }
@@ -2211,8 +2212,9 @@ class CCS
       for (auto last = row_ind_cend(i); i_itr != last; ++i_itr, ++v_itr) {
         hif_assert(size_type(*i_itr) < _nrows, "%zd exceeds the size bound",
                    size_type(*i_itr));
-        const auto av = *v_itr;
-        for (size_type k(0); k < Nrhs; ++k) tmp[k] += x[*i_itr * Nrhs + k] * av;
+        const v_t avc = conjugate(*v_itr);
+        for (size_type k(0); k < Nrhs; ++k)
+          tmp[k] += x[*i_itr * Nrhs + k] * avc;
       }
       for (size_type k(0); k < Nrhs; ++k) y[i * Nrhs + k] = tmp[k];
     }
-- 
2.43.0


From 77973647da9d0fcc3995978bcc7b05a9cf179444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 02/55] fix: process every entry in the transposed strict lower
 solves with several right-hand sides

---
 src/hif/ds/CompressedStorage.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 3622323..754387a 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1430,7 +1430,7 @@ class CRS
     using rev_v_iterator = std::reverse_iterator<const_v_iterator>;
 
     std::array<InOutType, Nrhs> tmp;
-    for (size_type j(_ncols - 1); j != 0u; --j) {
+    for (size_type j(_ncols); j != 0u; --j) {
       const auto j1 = j - 1;
       for (size_type k(0); k < Nrhs; ++k) tmp[k] = y[j1][k];
       auto itr   = rev_iterator(col_ind_cend(j1));
@@ -2342,7 +2342,7 @@ class CCS
       auto            itr   = row_ind_cbegin(j1);
       auto            v_itr = _base::val_cbegin(j1);
       tmp.fill(v_t(0));
-      for (auto last = row_ind_cbegin(j1); itr != last; ++itr, ++v_itr) {
+      for (auto last = row_ind_cend(j1); itr != last; ++itr, ++v_itr) {
         const auto avc = conjugate(static_cast<v_t>(*v_itr));
         for (size_type k(0); k < Nrhs; ++k) tmp[k] += avc * y[*itr][k];
       }
-- 
2.43.0


From 2dba3e320d8d7ad5fed2ebaa8fcd32dea25dbe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 03/55] fix: zero the product with an empty matrix instead of
 leaving the output unset

---
 src/hif/ds/CompressedStorage.hpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 754387a..1bfe202 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1214,8 +1214,8 @@ class CRS
                                Array<std::array<OutType, Nrhs>> &     y) const {
     hif_error_if(nrows() != y.size() || ncols() != x.size(),
                  "matrix vector multiplication unmatched sizes!");
-    if (x.size() && y.size())
-      multiply_mrhs_nt_low<Nrhs>(x[0].data(), y[0].data());
+    if (y.size())
+      multiply_mrhs_nt_low<Nrhs>(x.size() ? x[0].data() : nullptr, y[0].data());
   }
 
   /// \brief matrix vector multiplication for MT (CRS only)
@@ -1236,8 +1236,9 @@ class CRS
                  nrows());
     hif_error_if(istart + len > nrows(),
                  "out-of-bound pass-of-end range detected");
-    if (x.size() && y.size())
-      multiply_mrhs_nt_low<Nrhs>(x[0].data(), istart, len, y[0].data());
+    if (y.size())
+      multiply_mrhs_nt_low<Nrhs>(x.size() ? x[0].data() : nullptr, istart, len,
+                                 y[0].data());
   }
 
   /// \brief matrix transpose vector multiplication with different type
@@ -1252,7 +1253,6 @@ class CRS
         typename std::conditional<(sizeof(Vx) > sizeof(Vy)), Vx, Vy>::type;
     using v_t = typename std::conditional<(sizeof(v1_t) > sizeof(value_type)),
                                           v1_t, value_type>::type;
-    if (!_psize) return;
     std::fill_n(y, ncols(), Vy(0));
     for (size_type i = 0u; i < _psize; ++i) {
       const v_t temp  = x[i];
@@ -1292,7 +1292,6 @@ class CRS
         typename std::conditional<(sizeof(Vx) > sizeof(Vy)), Vx, Vy>::type;
     using v_t = typename std::conditional<(sizeof(v1_t) > sizeof(value_type)),
                                           v1_t, value_type>::type;
-    if (!_psize) return;
     std::fill_n(y, Nrhs * ncols(), Vy(0));
     std::array<v_t, Nrhs> temp;
     for (size_type i = 0u; i < _psize; ++i) {
@@ -1319,8 +1318,8 @@ class CRS
                               Array<std::array<OutType, Nrhs>> &     y) const {
     hif_error_if(nrows() != x.size() || ncols() != y.size(),
                  "T(matrix) vector multiplication unmatched sizes!");
-    if (x.size() && y.size())
-      multiply_mrhs_t_low<Nrhs>(x[0].data(), y[0].data());
+    if (y.size())
+      multiply_mrhs_t_low<Nrhs>(x.size() ? x[0].data() : nullptr, y[0].data());
   }
 
   /// \brief matrix vector multiplication
@@ -2148,8 +2147,8 @@ class CCS
                                Array<std::array<OutType, Nrhs>> &     y) const {
     hif_error_if(nrows() != y.size() || ncols() != x.size(),
                  "matrix vector unmatched sizes!");
-    if (x.size() && y.size())
-      multiply_mrhs_nt_low<Nrhs>(x[0].data(), y[0].data());
+    if (y.size())
+      multiply_mrhs_nt_low<Nrhs>(x.size() ? x[0].data() : nullptr, y[0].data());
   }
 
   /// \brief matrix transpose vector multiplication with different type
@@ -2231,8 +2230,8 @@ class CCS
                               Array<std::array<OutType, Nrhs>> &     y) const {
     hif_error_if(nrows() != x.size() || ncols() != y.size(),
                  "T(matrix) vector unmatched sizes!");
-    if (x.size() && y.size())
-      multiply_mrhs_t_low<Nrhs>(x[0].data(), y[0].data());
+    if (y.size())
+      multiply_mrhs_t_low<Nrhs>(x.size() ? x[0].data() : nullptr, y[0].data());
   }
 
   /// \brief matrix vector multiplication
-- 
2.43.0


From 5b109b181354266b1ca632a9dcd5f36951c618a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 04/55] fix: copy Schur-complement data in the right direction
 in the multi-vector multilevel solve

---
 src/hif/alg/prec_solve.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hif/alg/prec_solve.hpp b/src/hif/alg/prec_solve.hpp
index 74f177c..d3f8dcc 100644
--- a/src/hif/alg/prec_solve.hpp
+++ b/src/hif/alg/prec_solve.hpp
@@ -484,17 +484,17 @@ inline void prec_solve_mrhs(PrecItr prec_itr,
   } else {
     auto y_mn = interface_array_type(nm, y.data() + m, WRAP);
     // advance to next buffer region
-    auto work_next = work_array_type(nm, &work[n], WRAP);
+    auto work_next = work_array_type(work.size() - n, work.data() + n, WRAP);
     auto work_b    = work_array_type(nm, &work[0] + m, WRAP);
     for (size_type i(0); i < nm; ++i)
-      for (size_type k(0); k < Nrhs; ++k) y_mn[i][k] = work_b[i][k];
+      for (size_type k(0); k < Nrhs; ++k) work_b[i][k] = y_mn[i][k];
     // rec call, note that y_mn should store the solution
     prec_solve_mrhs(++prec_itr, work_b, last_dim, y_mn, work_next);
   }
 
   // copy y(m+1:n) to work(m+1:n)
   for (size_type i(m); i < n; ++i)
-    for (size_type k(0); k < Nrhs; ++k) y[i][k] = work[i][k];
+    for (size_type k(0); k < Nrhs; ++k) work[i][k] = y[i][k];
 
   // only handle the F part if it's not empty
   if (prec.F.ncols()) {
-- 
2.43.0


From 6d813b82d2fdae056634821b979cf9551a3854d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 05/55] fix: size the workspace of the multi-vector solve for
 all right-hand sides

---
 src/hif/builder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index aa23a49..8c18730 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -438,7 +438,7 @@ class HIF {
     hif_error_if(b.size() != x.size(), "unmatched sizes");
     hif_error_if(nsp, "multiple RHS does not support null space filter.");
     const auto nw = compute_prec_work_space(_precs.cbegin(), _precs.cend());
-    if (_prec_work.empty()) _prec_work.resize(nw * Nrhs);
+    if (_prec_work.size() < nw * Nrhs) _prec_work.resize(nw * Nrhs);
     Array<std::array<boost_value_type, Nrhs>> w(
         nw, (std::array<boost_value_type, Nrhs> *)_prec_work.data(), true);
     prec_solve_mrhs(_precs.cbegin(), b, r, x, w);
-- 
2.43.0


From 44d824878b3e82a642c7eb32753125adc1fc3078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:11 +0000
Subject: [PATCH 06/55] fix: address the columns of the multi-vector buffer
 correctly in the symmetric dense solver

---
 src/hif/small_scale/SYEIG.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hif/small_scale/SYEIG.hpp b/src/hif/small_scale/SYEIG.hpp
index b259604..c8b4151 100644
--- a/src/hif/small_scale/SYEIG.hpp
+++ b/src/hif/small_scale/SYEIG.hpp
@@ -234,7 +234,7 @@ class SYEIG {
     for (size_type i = 0; i < Nrhs; ++i) {
       // step 1, compute y=Q^T*x
       lapack_kernel::gemv('C', _mat.nrows(), _mat.ncols(), value_type(1),
-                          _mat.data(), _mat.nrows(), &_mrhs(0, i * Nrhs),
+                          _mat.data(), _mat.nrows(), &_mrhs(0, i),
                           value_type(0), _work.data());
       // step 2, solve inv(lambda)*y with truncation
       for (size_type i(0); i < rk; ++i)
@@ -243,7 +243,7 @@ class SYEIG {
       // step 3, compute x=Q*y
       lapack_kernel::gemv('N', _mat.nrows(), _mat.ncols(), value_type(1),
                           _mat.data(), _mat.nrows(), _work.data(),
-                          value_type(0), &_mrhs(0, i * Nrhs));
+                          value_type(0), &_mrhs(0, i));
     }
     // copy back to the application
     for (int j = 0; j < Nrhs; ++j)
@@ -300,7 +300,7 @@ class SYEIG {
     for (size_type i = 0; i < Nrhs; ++i) {
       // step 1, compute y=Q^T*x
       lapack_kernel::gemv('C', _mat.nrows(), _mat.ncols(), value_type(1),
-                          _mat.data(), _mat.nrows(), &_mrhs(0, i * Nrhs),
+                          _mat.data(), _mat.nrows(), &_mrhs(0, i),
                           value_type(0), _work.data());
       // step 2, compute lambda*y with truncation
       for (size_type i(0); i < rk; ++i)
@@ -309,7 +309,7 @@ class SYEIG {
       // step 3, compute x=Q*y
       lapack_kernel::gemv('N', _mat.nrows(), _mat.ncols(), value_type(1),
                           _mat.data(), _mat.nrows(), _work.data(),
-                          value_type(0), &_mrhs(0, i * Nrhs));
+                          value_type(0), &_mrhs(0, i));
     }
     // copy back to the application
     for (int j = 0; j < Nrhs; ++j)
-- 
2.43.0


From d225d59ce56beaeab37a1b07f28472da3757c991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 07/55] fix: truncate the eigenvalues of smallest magnitude of
 definite last-level blocks

---
 src/hif/small_scale/SYEIG.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/hif/small_scale/SYEIG.hpp b/src/hif/small_scale/SYEIG.hpp
index c8b4151..2e3eab0 100644
--- a/src/hif/small_scale/SYEIG.hpp
+++ b/src/hif/small_scale/SYEIG.hpp
@@ -134,23 +134,25 @@ class SYEIG {
     _trunc_order.resize(n);
     std::iota(_trunc_order.begin(), _trunc_order.end(), 0);
     const scalar_type thres =
-        EPS * *std::max_element(_w.cbegin(), _w.cend(),
-                                [](const value_type a, const value_type b) {
-                                  return std::abs(a) < std::abs(b);
-                                });
+        EPS *
+        std::abs(*std::max_element(_w.cbegin(), _w.cend(),
+                                   [](const value_type a, const value_type b) {
+                                     return std::abs(a) < std::abs(b);
+                                   }));
     _rank = n;
+    // NOTE ?syev returns the eigenvalues in ascending order
     if (opts.spd > 0) {
       // ensure pd-ness
-      for (int i(n - 1); i > -1; --i)
+      // reverse the order for truncations, so that the smallest come last
+      std::reverse(_trunc_order.begin(), _trunc_order.end());
+      for (size_type i(0); i < n; ++i)
         if (_w[i] <= 0.0 || std::abs(_w[i]) <= thres)
           --_rank;
         else
           break;
     } else if (opts.spd < 0) {
       // ensure nd-ness
-      // reverse the order for truncations
-      std::reverse(_trunc_order.begin(), _trunc_order.end());
-      for (size_type i(0); i < n; ++i)
+      for (int i(n - 1); i > -1; --i)
         if (_w[i] >= 0.0 || std::abs(_w[i]) <= thres)
           --_rank;
         else
-- 
2.43.0


From 132ee9681bb0e51527c651079df925500372f873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 08/55] fix: solve with the conjugate transpose in the
 transposed LU solves

---
 src/hif/small_scale/LUP.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/small_scale/LUP.hpp b/src/hif/small_scale/LUP.hpp
index 0c7d93e..5743baa 100644
--- a/src/hif/small_scale/LUP.hpp
+++ b/src/hif/small_scale/LUP.hpp
@@ -140,7 +140,7 @@ class LUP {
         "either the matrix is not set or the factorization has not yet done!");
     hif_error_if(x.size() != _mat.nrows(),
                  "unmatched sizes between system and rhs");
-    if (lapack_kernel::getrs(_mat, _ipiv, x, tran ? 'T' : 'N') < 0)
+    if (lapack_kernel::getrs(_mat, _ipiv, x, tran ? 'C' : 'N') < 0)
       hif_error("GETRS returned negative info!");
   }
 
@@ -166,7 +166,7 @@ class LUP {
     _mrhs.resize(x.size(), Nrhs);
     for (size_type j = 0; j < Nrhs; ++j)
       for (size_type i(0); i < x.size(); ++i) _mrhs(i, j) = x[i][j];
-    if (lapack_kernel::getrs(_mat, _ipiv, _mrhs, tran ? 'T' : 'N') < 0)
+    if (lapack_kernel::getrs(_mat, _ipiv, _mrhs, tran ? 'C' : 'N') < 0)
       hif_error("GETRS returned negative info!");
     for (size_type j = 0; j < Nrhs; ++j)
       for (size_type i(0); i < x.size(); ++i) x[i][j] = _mrhs(i, j);
-- 
2.43.0


From 1a3a340cd222c86bbd9bba1304b8e71417504efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:26 +0000
Subject: [PATCH 09/55] fix: reject vectors that do not match the factorized
 matrix before any solve

---
 src/hif/builder.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 8c18730..0685076 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -410,7 +410,8 @@ class HIF {
   inline void solve(const RhsType &b, SolType &x, const bool trans = false,
                     const size_type r = 0u) const {
     hif_error_if(empty(), "MILU-Prec is empty!");
-    hif_error_if(b.size() != x.size(), "unmatched sizes");
+    hif_error_if(b.size() != x.size() || b.size() != _precs.front().n,
+                 "unmatched sizes");
     if (_prec_work.empty())
       _prec_work.resize(
           compute_prec_work_space(_precs.cbegin(), _precs.cend()));
@@ -435,7 +436,8 @@ class HIF {
                          Array<std::array<SolValueType, Nrhs>> &      x,
                          const size_type r = 0u) const {
     hif_error_if(empty(), "MILU-Prec is empty!");
-    hif_error_if(b.size() != x.size(), "unmatched sizes");
+    hif_error_if(b.size() != x.size() || b.size() != _precs.front().n,
+                 "unmatched sizes");
     hif_error_if(nsp, "multiple RHS does not support null space filter.");
     const auto nw = compute_prec_work_space(_precs.cbegin(), _precs.cend());
     if (_prec_work.size() < nw * Nrhs) _prec_work.resize(nw * Nrhs);
@@ -461,6 +463,9 @@ class HIF {
                     const size_type r = static_cast<size_type>(-1)) const {
     // NOTE, do not assume A shares interface of CRS, as it can be
     // user callback
+    hif_error_if(empty(), "MILU-Prec is empty!");
+    hif_error_if(b.size() != x.size() || b.size() != _precs.front().n,
+                 "unmatched sizes");
     _ir.iter_refine(*this, A, b, N, x, r, trans);
   }
 
@@ -485,6 +490,9 @@ class HIF {
       const size_type r = static_cast<size_type>(-1)) const {
     // NOTE, do not assume A shares interface of CRS, as it can be
     // user callback
+    hif_error_if(empty(), "MILU-Prec is empty!");
+    hif_error_if(b.size() != x.size() || b.size() != _precs.front().n,
+                 "unmatched sizes");
     return _ir.iter_refine(*this, A, b, N, betas, x, r, trans);
   }
 
@@ -503,7 +511,8 @@ class HIF {
   inline void mmultiply(const RhsType &x, SolType &y, const bool trans = false,
                         const size_type r = 0u) const {
     hif_error_if(empty(), "MILU-Prec is empty!");
-    hif_error_if(y.size() != x.size(), "unmatched sizes");
+    hif_error_if(y.size() != x.size() || y.size() != _precs.front().n,
+                 "unmatched sizes");
     if (_prec_work.empty())
       _prec_work.resize(
           compute_prec_work_space(_precs.cbegin(), _precs.cend()));
-- 
2.43.0


From 1870777e2b5ae9a29ed000359900d7d366adbea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:26 +0000
Subject: [PATCH 10/55] fix: report a failed workspace allocation instead of
 using it

---
 src/hif/builder.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 0685076..0dd7f4f 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -415,6 +415,7 @@ class HIF {
     if (_prec_work.empty())
       _prec_work.resize(
           compute_prec_work_space(_precs.cbegin(), _precs.cend()));
+    hif_error_if(_prec_work.status() == DATA_UNDEF, "memory allocation failed");
     !trans ? prec_solve(_precs.cbegin(), b, r, x, _prec_work)
            : prec_solve_tran(_precs.cbegin(), b, r, x, _prec_work);
     if (!trans && nsp)
@@ -441,6 +442,7 @@ class HIF {
     hif_error_if(nsp, "multiple RHS does not support null space filter.");
     const auto nw = compute_prec_work_space(_precs.cbegin(), _precs.cend());
     if (_prec_work.size() < nw * Nrhs) _prec_work.resize(nw * Nrhs);
+    hif_error_if(_prec_work.status() == DATA_UNDEF, "memory allocation failed");
     Array<std::array<boost_value_type, Nrhs>> w(
         nw, (std::array<boost_value_type, Nrhs> *)_prec_work.data(), true);
     prec_solve_mrhs(_precs.cbegin(), b, r, x, w);
@@ -516,6 +518,7 @@ class HIF {
     if (_prec_work.empty())
       _prec_work.resize(
           compute_prec_work_space(_precs.cbegin(), _precs.cend()));
+    hif_error_if(_prec_work.status() == DATA_UNDEF, "memory allocation failed");
     !trans ? prec_prod(_precs.cbegin(), x, r, y, _prec_work)
            : prec_prod_tran(_precs.cbegin(), x, r, y, _prec_work);
   }
-- 
2.43.0


From a63a8ee0a26f10ac9b479c050dec8ed0149c7ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:26 +0000
Subject: [PATCH 11/55] fix: prec() accepted the dense level, for which no
 entry exists

---
 src/hif/builder.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 0dd7f4f..a909221 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -236,8 +236,9 @@ class HIF {
   /// \brief get constant reference to a specific level
   /// \note This function takes linear time complexity
   inline const prec_type &prec(const size_type level) const {
-    hif_error_if(level >= levels(), "%zd exceeds the total level number %zd",
-                 level, levels());
+    hif_error_if(level >= _precs.size(),
+                 "%zd exceeds the total level number %zd", level,
+                 _precs.size());
     auto itr = _precs.cbegin();
     std::advance(itr, level);
     return *itr;
-- 
2.43.0


From c638a49df70eff52fae57dc1b83327e9036b03e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:59 +0000
Subject: [PATCH 12/55] fix: a failed factorization leaves the object empty

---
 src/hif/builder.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index a909221..a6c8829 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -351,12 +351,18 @@ class HIF {
 
     // create size references for dropping
     iarray_type row_sizes, col_sizes;
-    if (hif_verbose(FAC, params))
-      _factorize_kernel(AA, m0, params, row_sizes, col_sizes, Crout_cout,
-                        schur_threads);
-    else
-      _factorize_kernel(AA, m0, params, row_sizes, col_sizes, Crout_cout_dummy,
-                        schur_threads);
+    try {
+      if (hif_verbose(FAC, params))
+        _factorize_kernel(AA, m0, params, row_sizes, col_sizes, Crout_cout,
+                          schur_threads);
+      else
+        _factorize_kernel(AA, m0, params, row_sizes, col_sizes,
+                          Crout_cout_dummy, schur_threads);
+    } catch (...) {
+      // don't leave the levels computed so far as if they were complete
+      _precs.clear();
+      throw;
+    }
     t.finish();
     if (hif_verbose(INFO, params)) {
       const size_type Nnz = nnz();
-- 
2.43.0


From a10086b78daac5888bfbfe6cf230974d2c3c6f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:13 +0000
Subject: [PATCH 13/55] fix: reading options from a stream skipped pivot

---
 src/hif/Options.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/Options.h b/src/hif/Options.h
index ffb8550..39d477d 100644
--- a/src/hif/Options.h
+++ b/src/hif/Options.h
@@ -568,7 +568,7 @@ inline InStream &operator>>(InStream &in_str, hif::Options &opt) {
       opt.alpha_U >> opt.rho >> opt.c_d >> opt.c_h >> opt.N >> opt.verbose >>
       opt.rf_par >> opt.reorder >> opt.spd >> opt.check >> opt.pre_scale >>
       opt.symm_pre_lvls >> opt.threads >> opt.mumps_blr >> opt.fat_schur_1st >>
-      opt.rrqr_cond >> opt.gamma >> opt.beta >> opt.is_symm >> opt.no_pre >>
+      opt.rrqr_cond >> opt.pivot >> opt.gamma >> opt.beta >> opt.is_symm >> opt.no_pre >>
       opt.nzp_thres >> opt.dense_thres;
   return in_str;
 }
-- 
2.43.0


From 9e7f219569be2c44bf867f5c94d9380ee665dd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:13 +0000
Subject: [PATCH 14/55] fix: the textual form of verbose dropped info behind
 warning, and info2

---
 src/hif/Options.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/hif/Options.h b/src/hif/Options.h
index 39d477d..5f843f3 100644
--- a/src/hif/Options.h
+++ b/src/hif/Options.h
@@ -601,7 +601,12 @@ inline std::string hif::get_verbose(const hif::Options &opt) {
     name = "none";
   else {
     if (hif_verbose(WARN, opt)) name = "warning";
-    else if (hif_verbose(INFO, opt)) name = "info";
+    if (hif_verbose(INFO, opt)) {
+      if (name != "")
+        name += ",info";
+      else
+        name = "info";
+    }
     if (hif_verbose(PRE, opt)) {
       if (name != "")
         name += ",pre";
@@ -626,6 +631,12 @@ inline std::string hif::get_verbose(const hif::Options &opt) {
       else
         name = "mem";
     }
+    if (hif_verbose(INFO2, opt)) {
+      if (name != "")
+        name += ",info2";
+      else
+        name = "info2";
+    }
   }
   return name;
 }
-- 
2.43.0


From ab6d6be3415eb6a1db6ae9b384078c46e962bb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:13 +0000
Subject: [PATCH 15/55] fix: verbose levels of the C interface were not those
 of the core

---
 libhifir/include/libhifir.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libhifir/include/libhifir.h b/libhifir/include/libhifir.h
index c75ddde..0130426 100644
--- a/libhifir/include/libhifir.h
+++ b/libhifir/include/libhifir.h
@@ -119,11 +119,12 @@ enum {
 // verbose levels
 enum {
   LHF_VERBOSE_NULL     = 0,
-  LHF_VERBOSE_INFO     = 1,
-  LHF_VERBOSE_PRE      = 2,
-  LHF_VERBOSE_FAC      = 4,
-  LHF_VERBOSE_PRE_TIME = 8,
-  LHF_VERBOSE_MEM      = 16,
+  LHF_VERBOSE_WARN     = 1,
+  LHF_VERBOSE_INFO     = 2,
+  LHF_VERBOSE_PRE      = 4,
+  LHF_VERBOSE_FAC      = 8,
+  LHF_VERBOSE_PRE_TIME = 16,
+  LHF_VERBOSE_MEM      = 32,
 };
 
 // reordering options
-- 
2.43.0


From edd1b7163a7654bcd7f7288a86636be7db57da36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 16/55] fix: lhfcCreate checks the allocation of the
 preconditioner like its siblings

---
 libhifir/src/libhifir.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index d59d310..c0a2fef 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -1049,6 +1049,10 @@ LhfcHifHdl lhfcCreate(const LhfcMatrixHdl A, const LhfcMatrixHdl S,
   LhfcHifHdl M = (LhfcHifHdl)std::malloc(sizeof(LhfcHif));
   if (!M) return nullptr;
   M->M = new (std::nothrow) hif::HIF<std::complex<float>, LhfInt, LhfIndPtr>();
+  if (!M->M) {
+    std::free(M);
+    return nullptr;
+  }
   const auto status = lhfcSetup(M, A, S, params);
   if (status == LHF_HIFIR_ERROR) {
     lhfcDestroy(M);
-- 
2.43.0


From 1360509ca349b1cb519f26722c0757a76a0d75e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 17/55] fix: number of nonzeros of an empty C matrix is zero

---
 libhifir/src/libhifir.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index c0a2fef..08eba88 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -335,7 +335,8 @@ size_t lhfdGetMatrixSize(const LhfdMatrixHdl mat) {
 
 // get nnz
 size_t lhfdGetMatrixNnz(const LhfdMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -553,7 +554,8 @@ size_t lhfsGetMatrixSize(const LhfsMatrixHdl mat) {
 
 // get nnz
 size_t lhfsGetMatrixNnz(const LhfsMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -773,7 +775,8 @@ size_t lhfzGetMatrixSize(const LhfzMatrixHdl mat) {
 
 // get nnz
 size_t lhfzGetMatrixNnz(const LhfzMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -998,7 +1001,8 @@ size_t lhfcGetMatrixSize(const LhfcMatrixHdl mat) {
 
 // get nnz
 size_t lhfcGetMatrixNnz(const LhfcMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
-- 
2.43.0


From 6f44bdde7e3971c1150f048b5ea13b8c514180b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 18/55] fix: reject empty C matrices instead of dereferencing
 their null arrays

---
 libhifir/src/libhifir.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 08eba88..8a8c092 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -414,6 +414,7 @@ LhfStatus lhfdSetup(LhfdHifHdl hif, const LhfdMatrixHdl A,
   hif->A             = A ? A : S;
   LhfdMatrixHdl facA = S ? S : A;
   _LHF_CANNOT_ACCEPT_NULL(facA);
+  _LHF_CANNOT_ACCEPT_NULL(facA->indptr);
   try {
     libhifir_impl::factorize(*hif->M, facA, params);
   } catch (const std::exception &e) {
@@ -436,6 +437,7 @@ LhfStatus lhfdRefactorize(LhfdHifHdl hif, const LhfdMatrixHdl S,
                           const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
   _LHF_CANNOT_ACCEPT_NULL(S);
+  _LHF_CANNOT_ACCEPT_NULL(S->indptr);
   try {
     libhifir_impl::factorize(*hif->M, S, params);
   } catch (const std::exception &e) {
@@ -462,6 +464,7 @@ LhfStatus lhfdApply(const LhfdHifHdl hif, const LhfOperationType op,
         libhifir_impl::solve(*hif->M, b, x, trans);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
+      _LHF_CANNOT_ACCEPT_NULL(hif->A->indptr);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
       libhifir_impl::hifir(*hif->M, hif->A, b, nirs, betas, trans, rnk, x,
                            ir_status);
@@ -635,6 +638,7 @@ LhfStatus lhfsSetup(LhfsHifHdl hif, const LhfsMatrixHdl A,
   LhfsMatrixHdl facA = S ? S : A;
   hif->Ad            = nullptr;
   _LHF_CANNOT_ACCEPT_NULL(facA);
+  _LHF_CANNOT_ACCEPT_NULL(facA->indptr);
   try {
     libhifir_impl::factorize(*hif->M, facA, params);
   } catch (const std::exception &e) {
@@ -657,6 +661,7 @@ LhfStatus lhfsRefactorize(LhfsHifHdl hif, const LhfsMatrixHdl S,
                           const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
   _LHF_CANNOT_ACCEPT_NULL(S);
+  _LHF_CANNOT_ACCEPT_NULL(S->indptr);
   try {
     libhifir_impl::factorize(*hif->M, S, params);
   } catch (const std::exception &e) {
@@ -683,6 +688,7 @@ LhfStatus lhfsApply(const LhfsHifHdl hif, const LhfOperationType op,
         libhifir_impl::solve(*hif->M, b, x, trans);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
+      _LHF_CANNOT_ACCEPT_NULL(hif->A->indptr);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
       libhifir_impl::hifir(*hif->M, hif->A, b, nirs, betas, trans, rnk, x,
                            ir_status);
@@ -855,6 +861,7 @@ LhfStatus lhfzSetup(LhfzHifHdl hif, const LhfzMatrixHdl A,
   hif->A             = A ? A : S;
   LhfzMatrixHdl facA = S ? S : A;
   _LHF_CANNOT_ACCEPT_NULL(facA);
+  _LHF_CANNOT_ACCEPT_NULL(facA->indptr);
   try {
     libhifir_impl::factorize(*hif->M, facA, params);
   } catch (const std::exception &e) {
@@ -877,6 +884,7 @@ LhfStatus lhfzRefactorize(LhfzHifHdl hif, const LhfzMatrixHdl S,
                           const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
   _LHF_CANNOT_ACCEPT_NULL(S);
+  _LHF_CANNOT_ACCEPT_NULL(S->indptr);
   try {
     libhifir_impl::factorize(*hif->M, S, params);
   } catch (const std::exception &e) {
@@ -906,6 +914,7 @@ LhfStatus lhfzApply(const LhfzHifHdl hif, const LhfOperationType op,
                              (std::complex<double> *)x, trans);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
+      _LHF_CANNOT_ACCEPT_NULL(hif->A->indptr);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
       libhifir_impl::hifir(*hif->M, hif->A, (const std::complex<double> *)b,
                            nirs, betas, trans, rnk, (std::complex<double> *)x,
@@ -1082,6 +1091,7 @@ LhfStatus lhfcSetup(LhfcHifHdl hif, const LhfcMatrixHdl A,
   LhfcMatrixHdl facA = S ? S : A;
   hif->Az            = nullptr;
   _LHF_CANNOT_ACCEPT_NULL(facA);
+  _LHF_CANNOT_ACCEPT_NULL(facA->indptr);
   try {
     libhifir_impl::factorize(*hif->M, facA, params);
   } catch (const std::exception &e) {
@@ -1104,6 +1114,7 @@ LhfStatus lhfcRefactorize(LhfcHifHdl hif, const LhfcMatrixHdl S,
                           const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
   _LHF_CANNOT_ACCEPT_NULL(S);
+  _LHF_CANNOT_ACCEPT_NULL(S->indptr);
   try {
     libhifir_impl::factorize(*hif->M, S, params);
   } catch (const std::exception &e) {
@@ -1133,6 +1144,7 @@ LhfStatus lhfcApply(const LhfcHifHdl hif, const LhfOperationType op,
                              (std::complex<float> *)x, trans);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
+      _LHF_CANNOT_ACCEPT_NULL(hif->A->indptr);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
       libhifir_impl::hifir(*hif->M, hif->A, (const std::complex<float> *)b,
                            nirs, betas, trans, rnk, (std::complex<float> *)x,
@@ -1215,6 +1227,7 @@ LhfStatus lhfsdApply(const LhfsHifHdl hif, const LhfOperationType op,
     } else {
       // Ad not A
       _LHF_CANNOT_ACCEPT_NULL(hif->Ad);
+      _LHF_CANNOT_ACCEPT_NULL(hif->Ad->indptr);
       if (hif->M->nrows() != hif->Ad->n) return LHF_MISMATCHED_SIZES;
       libhifir_impl::hifir(*hif->M, hif->Ad, b, nirs, betas, trans, rnk, x,
                            ir_status);
@@ -1267,6 +1280,7 @@ LhfStatus lhfczApply(const LhfcHifHdl hif, const LhfOperationType op,
     } else {
       // Az not A
       _LHF_CANNOT_ACCEPT_NULL(hif->Az);
+      _LHF_CANNOT_ACCEPT_NULL(hif->Az->indptr);
       if (hif->M->nrows() != hif->Az->n) return LHF_MISMATCHED_SIZES;
       libhifir_impl::hifir(*hif->M, hif->Az, (const std::complex<double> *)b,
                            nirs, betas, trans, rnk, (std::complex<double> *)x,
-- 
2.43.0


From 57d660bb5d3a46bb1cb38c48b07692a31d8592b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:57 +0000
Subject: [PATCH 19/55] fix: lhf?Apply passes an explicit rank to solves and
 products

---
 libhifir/src/libhifir.cpp | 44 +++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 8a8c092..a1afd2e 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -147,25 +147,25 @@ static inline void factorize(PrecType &M, const MatHdlType mat,
 // solve implementation
 template <class PrecType, class ValueType>
 static inline void solve(PrecType &M, const ValueType *b, ValueType *x,
-                         const bool trans = false) {
+                         const bool trans = false, const int rank = 0) {
   using array_t              = hif::Array<ValueType>;
   static constexpr bool WRAP = true;
 
   const array_t rhs(M.nrows(), (ValueType *)b, WRAP);
   array_t       lhs(M.nrows(), x, WRAP);
-  M.solve(rhs, lhs, trans);
+  M.solve(rhs, lhs, trans, rank);
 }
 
 // multiplication implementation
 template <class PrecType, class ValueType>
 static inline void mmultiply(PrecType &M, const ValueType *b, ValueType *x,
-                             const bool trans = false) {
+                             const bool trans, const int rank) {
   using array_t              = hif::Array<ValueType>;
   static constexpr bool WRAP = true;
 
   const array_t rhs(M.nrows(), (ValueType *)b, WRAP);
   array_t       lhs(M.nrows(), x, WRAP);
-  M.mmultiply(rhs, lhs, trans);
+  M.mmultiply(rhs, lhs, trans, rank);
 }
 
 template <class PrecType, class MatHdlType, class ValueType>
@@ -455,13 +455,13 @@ LhfStatus lhfdApply(const LhfdHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = (op == LHF_S || op == LHF_SH) && nirs > 1 ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       _LHF_CANNOT_ACCEPT_NULL(hif->A->indptr);
@@ -679,13 +679,13 @@ LhfStatus lhfsApply(const LhfsHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = (op == LHF_S || op == LHF_SH) && nirs > 1 ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       _LHF_CANNOT_ACCEPT_NULL(hif->A->indptr);
@@ -903,15 +903,15 @@ LhfStatus lhfzApply(const LhfzHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = (op == LHF_S || op == LHF_SH) && nirs > 1 ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<double> *)b,
-                                 (std::complex<double> *)x, trans);
+                                 (std::complex<double> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<double> *)b,
-                             (std::complex<double> *)x, trans);
+                             (std::complex<double> *)x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       _LHF_CANNOT_ACCEPT_NULL(hif->A->indptr);
@@ -1133,15 +1133,15 @@ LhfStatus lhfcApply(const LhfcHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = (op == LHF_S || op == LHF_SH) && nirs > 1 ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<float> *)b,
-                                 (std::complex<float> *)x, trans);
+                                 (std::complex<float> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<float> *)b,
-                             (std::complex<float> *)x, trans);
+                             (std::complex<float> *)x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       _LHF_CANNOT_ACCEPT_NULL(hif->A->indptr);
@@ -1217,13 +1217,13 @@ LhfStatus lhfsdApply(const LhfsHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = (op == LHF_S || op == LHF_SH) && nirs > 1 ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       // Ad not A
       _LHF_CANNOT_ACCEPT_NULL(hif->Ad);
@@ -1268,15 +1268,15 @@ LhfStatus lhfczApply(const LhfcHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = (op == LHF_S || op == LHF_SH) && nirs > 1 ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<double> *)b,
-                                 (std::complex<double> *)x, trans);
+                                 (std::complex<double> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<double> *)b,
-                             (std::complex<double> *)x, trans);
+                             (std::complex<double> *)x, trans, rnk);
     } else {
       // Az not A
       _LHF_CANNOT_ACCEPT_NULL(hif->Az);
-- 
2.43.0


From 802ce74ab438a857984348bc32d2fc6a9c41285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:44 +0000
Subject: [PATCH 20/55] fix: bound the tokens of a matrix-market header and
 close the file when it is missing

---
 src/hif/utils/io.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 44436d8..e1e4752 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -627,8 +627,11 @@ inline void mm_read_firstline(std::FILE *f, bool &is_sparse, bool &is_real,
   char storage_scheme[65];
 
   // read the first line
-  if (!std::fgets(line, 1025, f)) hif_error("unable to read the first line");
-  if (std::sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type,
+  if (!std::fgets(line, 1025, f)) {
+    std::fclose(f);
+    hif_error("unable to read the first line");
+  }
+  if (std::sscanf(line, "%64s %64s %64s %64s %64s", banner, mtx, crd, data_type,
                   storage_scheme) != 5) {
     std::fclose(f);
     hif_error("insufficient number of tokens in the first line");
-- 
2.43.0


From c738184b7e7c7f6b87ae38526fd9716512d549dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:44 +0000
Subject: [PATCH 21/55] fix: malformed matrix-market sizes no longer loop
 forever

---
 src/hif/utils/io.hpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index e1e4752..3e87bc2 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -710,14 +710,10 @@ inline void mm_read_sparse_size(std::FILE *f, std::size_t &nrows,
     return;
   }
 
-  int num_items_read;
-  do {
-    num_items_read = std::fscanf(f, "%d %d %d", &m, &n, &nz);
-    if (num_items_read == EOF) {
-      std::fclose(f);
-      hif_error("reached EOF!");
-    }
-  } while (num_items_read != 3);
+  if (std::fscanf(f, "%d %d %d", &m, &n, &nz) != 3) {
+    std::fclose(f);
+    hif_error("unable to read the sizes");
+  }
   nrows = m;
   ncols = n;
   nnz   = nz;
@@ -744,14 +740,10 @@ inline void mm_read_dense_size(std::FILE *f, std::size_t &nrows,
     return;
   }
 
-  int num_items_read;
-  do {
-    num_items_read = std::fscanf(f, "%d %d", &m, &n);
-    if (num_items_read == EOF) {
-      std::fclose(f);
-      hif_error("reached EOF!");
-    }
-  } while (num_items_read != 2);
+  if (std::fscanf(f, "%d %d", &m, &n) != 2) {
+    std::fclose(f);
+    hif_error("unable to read the sizes");
+  }
   nrows = m;
   ncols = n;
 }
-- 
2.43.0


From 55a2657a4dfc3725cbf44ba0a2897e7cb625c703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:44 +0000
Subject: [PATCH 22/55] fix: range-check sizes and indices read from
 matrix-market files

---
 src/hif/utils/io.hpp | 54 ++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 3e87bc2..4a03e3b 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -544,7 +544,8 @@ set_imag(const double i, V &x) {
 
 /// \brief Internal routine to read sparse data
 template <int TypeID, bool IsReal, class IndexType, class ValueType>
-inline void mm_read_sparse_data(std::FILE *f, const std::size_t nnz,
+inline void mm_read_sparse_data(std::FILE *f, const std::size_t nrows,
+                                const std::size_t ncols, const std::size_t nnz,
                                 Array<IndexType> &rows, Array<IndexType> &cols,
                                 Array<ValueType> &vals) {
   // type IDs
@@ -574,6 +575,10 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nnz,
       std::fclose(f);
       hif_error("insufficient objects scanned from fscanf");
     }
+    if (r < 1 || std::size_t(r) > nrows || c < 1 || std::size_t(c) > ncols) {
+      std::fclose(f);
+      hif_error("entry (%d,%d) is out of range", r, c);
+    }
     rows[index] = r - 1;  // to 0-based index
     cols[index] = c - 1;  // to 0-based index
     set_real(vr, vals[index]);
@@ -703,17 +708,15 @@ inline void mm_read_sparse_size(std::FILE *f, std::size_t &nrows,
   } while (line[0] == '%');
 
   int m, n, nz;
-  if (sscanf(line, "%d %d %d", &m, &n, &nz) == 3) {
-    nrows = m;
-    ncols = n;
-    nnz   = nz;
-    return;
-  }
-
-  if (std::fscanf(f, "%d %d %d", &m, &n, &nz) != 3) {
+  if (sscanf(line, "%d %d %d", &m, &n, &nz) != 3 &&
+      std::fscanf(f, "%d %d %d", &m, &n, &nz) != 3) {
     std::fclose(f);
     hif_error("unable to read the sizes");
   }
+  if (m < 0 || n < 0 || nz < 0) {
+    std::fclose(f);
+    hif_error("negative sizes");
+  }
   nrows = m;
   ncols = n;
   nnz   = nz;
@@ -734,16 +737,15 @@ inline void mm_read_dense_size(std::FILE *f, std::size_t &nrows,
   } while (line[0] == '%');
 
   int m, n;
-  if (sscanf(line, "%d %d", &m, &n) == 2) {
-    nrows = m;
-    ncols = n;
-    return;
-  }
-
-  if (std::fscanf(f, "%d %d", &m, &n) != 2) {
+  if (sscanf(line, "%d %d", &m, &n) != 2 &&
+      std::fscanf(f, "%d %d", &m, &n) != 2) {
     std::fclose(f);
     hif_error("unable to read the sizes");
   }
+  if (m < 0 || n < 0) {
+    std::fclose(f);
+    hif_error("negative sizes");
+  }
   nrows = m;
   ncols = n;
 }
@@ -795,25 +797,29 @@ inline void read_mm_sparse(const char *filename, std::size_t &nrows,
   }
   std::size_t nnz;
   internal::mm_read_sparse_size(f, nrows, ncols, nnz);
+  if (type_id != 0 && nrows != ncols) {
+    std::fclose(f);
+    hif_error("symmetric storage requires a square matrix");
+  }
   // read data
   if (is_real) {
     if (type_id == 0)
-      internal::mm_read_sparse_data<0, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<0, true>(f, nrows, ncols, nnz, rows, cols, vals);
     else if (type_id == 1)
-      internal::mm_read_sparse_data<1, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<1, true>(f, nrows, ncols, nnz, rows, cols, vals);
     else if (type_id == 2)
-      internal::mm_read_sparse_data<2, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<2, true>(f, nrows, ncols, nnz, rows, cols, vals);
     else
-      internal::mm_read_sparse_data<3, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<3, true>(f, nrows, ncols, nnz, rows, cols, vals);
   } else {
     if (type_id == 0)
-      internal::mm_read_sparse_data<0, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<0, false>(f, nrows, ncols, nnz, rows, cols, vals);
     else if (type_id == 1)
-      internal::mm_read_sparse_data<1, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<1, false>(f, nrows, ncols, nnz, rows, cols, vals);
     else if (type_id == 2)
-      internal::mm_read_sparse_data<2, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<2, false>(f, nrows, ncols, nnz, rows, cols, vals);
     else
-      internal::mm_read_sparse_data<3, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<3, false>(f, nrows, ncols, nnz, rows, cols, vals);
   }
   std::fclose(f);
 }
-- 
2.43.0


From ca1b58173b7c54bce6435ace1b29f965105e4ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:44 +0000
Subject: [PATCH 23/55] fix: report failed allocations in the matrix-market
 readers

---
 src/hif/utils/io.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 4a03e3b..8b152f1 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -564,6 +564,11 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nrows,
     cols.resize(nnz);
     vals.resize(nnz);
   }
+  if (rows.status() == DATA_UNDEF || cols.status() == DATA_UNDEF ||
+      vals.status() == DATA_UNDEF) {
+    std::fclose(f);
+    hif_error("memory allocation failed");
+  }
 
   std::size_t index(0);
   int         r, c;
@@ -608,6 +613,10 @@ template <bool IsReal, class ValueType>
 inline void mm_read_vector_data(std::FILE *f, const std::size_t n,
                                 Array<ValueType> &v) {
   v.resize(n);
+  if (v.status() == DATA_UNDEF) {
+    std::fclose(f);
+    hif_error("memory allocation failed");
+  }
   double vr, vi;
   for (std::size_t i(0); i < n; ++i) {
     const int flag = IsReal ? std::fscanf(f, "%lg", &vr)
-- 
2.43.0


From 95636f266bf413eff9fe3ae1b947a11f604ac8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:08 +0000
Subject: [PATCH 24/55] fix: drop the unused half of the buffers when a
 symmetric file is diagonal

---
 src/hif/utils/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 8b152f1..3920444 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -601,7 +601,7 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nrows,
       vals[index] = -vals[index - 1];
     ++index;
   }
-  if (index != nnz) {
+  if (index != rows.size()) {
     rows.resize(index);
     cols.resize(index);
     vals.resize(index);
-- 
2.43.0


From 1e88b76ae81985ebd9fa362cd818c1eeaaacdd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:08 +0000
Subject: [PATCH 25/55] fix: lhfQueryMmFile reports malformed files instead of
 letting the exception escape

---
 libhifir/src/libhifir.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index a1afd2e..c366aae 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -275,16 +275,20 @@ LhfStatus lhfQueryMmFile(const char *fname, int *is_sparse, int *is_real,
   if (!f) return LHF_NULL_OBJ;
   bool is_sparse2, is_real2;
   int  type_id;
-  // parse the first line
-  hif::internal::mm_read_firstline(f, is_sparse2, is_real2, type_id);
-  *is_sparse = is_sparse2;
-  *is_real   = is_real2;
-  (void)type_id;  // not used
-  if (is_sparse2)
-    hif::internal::mm_read_sparse_size(f, *nrows, *ncols, *nnz);
-  else {
-    *nnz = 0u;
-    hif::internal::mm_read_dense_size(f, *nrows, *ncols);
+  try {
+    // parse the first line, note that the readers close f upon errors
+    hif::internal::mm_read_firstline(f, is_sparse2, is_real2, type_id);
+    *is_sparse = is_sparse2;
+    *is_real   = is_real2;
+    (void)type_id;  // not used
+    if (is_sparse2)
+      hif::internal::mm_read_sparse_size(f, *nrows, *ncols, *nnz);
+    else {
+      *nnz = 0u;
+      hif::internal::mm_read_dense_size(f, *nrows, *ncols);
+    }
+  } catch (const std::exception &e) {
+    _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
   std::fclose(f);
   return LHF_SUCCESS;
-- 
2.43.0


From 23b4ee9103a998f5f9da9232c3c4ca6dfa320aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:08 +0000
Subject: [PATCH 26/55] fix: saving and fetching the C error message cannot
 throw

---
 libhifir/src/libhifir.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index c366aae..e3aa9fb 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -42,7 +42,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #define _LHF_CANNOT_ACCEPT_NULL(__obj) \
   if (!(__obj)) return LHF_NULL_OBJ
 
-#define _LHF_SET_HIFIR_ERROR(__e) libhifir_impl::error_msgs[1] = __e.what()
+#define _LHF_SET_HIFIR_ERROR(__e) libhifir_impl::set_error_msg(__e.what())
 
 #define _LHF_RETURN_FROM_HIFIR_ERROR(__e) \
   _LHF_SET_HIFIR_ERROR(__e);              \
@@ -52,6 +52,15 @@ namespace libhifir_impl {
 // handle internal C++ HIFIR errors
 static std::string error_msgs[2];
 
+// save an error message, which must not throw again
+static inline void set_error_msg(const char *msg) noexcept {
+  try {
+    error_msgs[1] = msg;
+  } catch (...) {
+    error_msgs[1].clear();
+  }
+}
+
 // get factorization result statistics
 template <class PrecType>
 static inline void get_factor_stats(const PrecType &M, std::size_t stats[]) {
@@ -222,7 +231,7 @@ void lhfGetVersions(int versions[]) {
 
 // error message
 const char *lhfGetErrorMsg() {
-  libhifir_impl::error_msgs[0] = libhifir_impl::error_msgs[1];
+  libhifir_impl::error_msgs[0].swap(libhifir_impl::error_msgs[1]);
   libhifir_impl::error_msgs[1].clear();
   if (libhifir_impl::error_msgs[0].empty()) return NULL;
   return libhifir_impl::error_msgs[0].c_str();
-- 
2.43.0


From bcc3de3167b52e9b698943ebcdb89285325da822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:27 +0000
Subject: [PATCH 27/55] fix: sizes of an unfactorized preconditioner are zero,
 not indeterminate

---
 src/hif/builder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index a6c8829..658966d 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -598,8 +598,8 @@ class HIF {
   mutable work_array_type _prec_work;
   ///< preconditioner work space for solving
   size_type                    _stats[6];  ///< statistics
-  size_type                    _nrows;     ///< number of rows from user input
-  size_type                    _ncols;  ///< number of columns from user input
+  size_type _nrows = 0u;  ///< number of rows from user input
+  size_type _ncols = 0u;  ///< number of columns from user input
   IterRefine<boost_value_type> _ir;     ///< high-precision iterative refinement
 };
 
-- 
2.43.0


From 936ee7b0b09117fc635d1764389cbff9e4de9d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:27 +0000
Subject: [PATCH 28/55] fix: alias Hif honours its index type; factorize checks
 the indptr type

---
 src/hif/builder.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 658966d..54b74b9 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -271,9 +271,8 @@ class HIF {
 
     static_assert(sizeof(index_type) == sizeof(typename CsType::index_type),
                   "inconsistent index types");
-    static_assert(
-        sizeof(index_type) == sizeof(typename CsType::index_type),
-        "inconsistent indptr types");
+    static_assert(sizeof(indptr_type) == sizeof(typename CsType::indptr_type),
+                  "inconsistent indptr types");
 
     // print introduction
     if (hif_verbose(INFO, params)) {
@@ -609,7 +608,7 @@ typedef HIF<double, int> DefaultHIF;
 
 template <class ValueType, class IndexType = int, class IndPtrType = std::ptrdiff_t,
           template <class> class UserDenseFactor = DefaultDenseSolver>
-using Hif = HIF<ValueType, int, IndPtrType, UserDenseFactor>;
+using Hif = HIF<ValueType, IndexType, IndPtrType, UserDenseFactor>;
 
 /*!
  * @}
-- 
2.43.0


From eba727c8bef515f1f8e109fb577afc777d78cbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:27 +0000
Subject: [PATCH 29/55] fix: hif_warning_if honours its condition

---
 src/hif/utils/log.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hif/utils/log.hpp b/src/hif/utils/log.hpp
index 1fdce93..0f826ea 100644
--- a/src/hif/utils/log.hpp
+++ b/src/hif/utils/log.hpp
@@ -163,6 +163,7 @@ inline void error(const char *prefix, const char *file, const char *func,
 /// \sa hif::warning
 /// \ingroup util
 #define hif_warning_if(__cond, __msgs...)                                     \
+  if (__cond)                                                                 \
   ::hif::warning("condition " #__cond " alerted", __HIF_FILE__, __HIF_FUNC__, \
                  __LINE__, __msgs);
 
-- 
2.43.0


From bd84eaa5362fdd55798c8b8576b90faecd2f47b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:27 +0000
Subject: [PATCH 30/55] fix: define the declared lhfEnableWarning and
 lhfDisableWarning

---
 libhifir/src/libhifir.cpp |  5 +++++
 src/hif/utils/log.hpp     | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index e3aa9fb..f42c705 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -229,6 +229,11 @@ void lhfGetVersions(int versions[]) {
   versions[2] = HIF_MINOR_VERSION;
 }
 
+// warnings
+void lhfEnableWarning() { hif::warn_flag(1); }
+
+void lhfDisableWarning() { hif::warn_flag(0); }
+
 // error message
 const char *lhfGetErrorMsg() {
   libhifir_impl::error_msgs[0].swap(libhifir_impl::error_msgs[1]);
diff --git a/src/hif/utils/log.hpp b/src/hif/utils/log.hpp
index 0f826ea..4820876 100644
--- a/src/hif/utils/log.hpp
+++ b/src/hif/utils/log.hpp
@@ -64,6 +64,16 @@ namespace internal {
 
 }  // namespace internal
 
+/// \brief query or set the flag that enables warnings
+/// \param[in] flag if negative (default), then the flag is not changed
+/// \return whether or not warnings are enabled
+/// \ingroup util
+inline bool warn_flag(const int flag = -1) {
+  static bool enabled = true;
+  if (flag >= 0) enabled = flag;
+  return enabled;
+}
+
 /// \brief common information streaming, dump \a msg to \ref HIF_STDOUT
 /// \param[in] msg message string
 /// \sa hif_info top level macro wrapper
@@ -84,6 +94,7 @@ inline void info(std::string msg, ...) {
 /// \ingroup util
 inline void warning(const char *prefix, const char *file, const char *func,
                     const unsigned line, std::string msg, ...) {
+  if (!warn_flag()) return;
   std::vector<char> msg_buf;
   const bool        print_pre = prefix;
   _PARSE_VA(msg_buf, msg);
-- 
2.43.0


From 9513718ed38e5fb7c60ebc5ed1323ebe1d973bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:45 +0000
Subject: [PATCH 31/55] fix: allocation failures in the C readers and
 constructors do not escape

---
 libhifir/src/libhifir.cpp | 74 ++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 32 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index f42c705..4adace8 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -79,6 +79,16 @@ static inline void get_factor_stats(const PrecType &M, std::size_t stats[]) {
   }
 }
 
+// create an empty preconditioner, nullptr if out of memory
+template <class PrecType>
+static inline PrecType *create_hif() noexcept {
+  try {
+    return new PrecType();
+  } catch (...) {
+    return nullptr;
+  }
+}
+
 // create parameters from C parameter array
 static inline hif::Params create_params(const double params[]) {
   hif::Params p   = hif::get_default_params();
@@ -108,28 +118,28 @@ static inline LhfStatus mm_read_sparse(const char *fname, MatHdlType mat) {
   _LHF_CANNOT_ACCEPT_NULL(mat);
   if (mat->is_rowmajor) {
     using matrix_t = hif::CRS<ValueType, LhfInt, LhfIndPtr>;
-    matrix_t A;
     try {
-      A = matrix_t::from_mm(fname);
+      const matrix_t A(matrix_t::from_mm(fname));
+      if (A.nrows() != mat->n || A.ncols() != mat->n)
+        return LHF_MISMATCHED_SIZES;
+      std::copy(A.ind_start().cbegin(), A.ind_start().cend(), mat->indptr);
+      std::copy(A.inds().cbegin(), A.inds().cend(), mat->indices);
+      std::copy(A.vals().cbegin(), A.vals().cend(), mat->vals);
     } catch (const std::exception &e) {
       _LHF_RETURN_FROM_HIFIR_ERROR(e);
     }
-    if (A.nrows() != mat->n || A.ncols() != mat->n) return LHF_MISMATCHED_SIZES;
-    std::copy(A.ind_start().cbegin(), A.ind_start().cend(), mat->indptr);
-    std::copy(A.inds().cbegin(), A.inds().cend(), mat->indices);
-    std::copy(A.vals().cbegin(), A.vals().cend(), mat->vals);
   } else {
     using matrix_t = hif::CCS<ValueType, LhfInt, LhfIndPtr>;
-    matrix_t A;
     try {
-      A = matrix_t::from_mm(fname);
+      const matrix_t A(matrix_t::from_mm(fname));
+      if (A.nrows() != mat->n || A.ncols() != mat->n)
+        return LHF_MISMATCHED_SIZES;
+      std::copy(A.ind_start().cbegin(), A.ind_start().cend(), mat->indptr);
+      std::copy(A.inds().cbegin(), A.inds().cend(), mat->indices);
+      std::copy(A.vals().cbegin(), A.vals().cend(), mat->vals);
     } catch (const std::exception &e) {
       _LHF_RETURN_FROM_HIFIR_ERROR(e);
     }
-    if (A.nrows() != mat->n || A.ncols() != mat->n) return LHF_MISMATCHED_SIZES;
-    std::copy(A.ind_start().cbegin(), A.ind_start().cend(), mat->indptr);
-    std::copy(A.inds().cbegin(), A.inds().cend(), mat->indices);
-    std::copy(A.vals().cbegin(), A.vals().cend(), mat->vals);
   }
   return LHF_SUCCESS;
 }
@@ -381,14 +391,13 @@ LhfStatus lhfdReadSparse(const char *fname, LhfdMatrixHdl mat) {
 // double vector mm io
 LhfStatus lhfdReadVector(const char *fname, const size_t n, double *v) {
   using vector_t = hif::Array<double>;
-  vector_t vec;
   try {
-    vec = vector_t::from_mm(fname);
+    const vector_t vec(vector_t::from_mm(fname));
+    if (n != vec.size()) return LHF_MISMATCHED_SIZES;
+    std::copy(vec.cbegin(), vec.cend(), v);
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
-  if (n != vec.size()) return LHF_MISMATCHED_SIZES;
-  std::copy(vec.cbegin(), vec.cend(), v);
   return LHF_SUCCESS;
 }
 
@@ -403,7 +412,8 @@ LhfdHifHdl lhfdCreate(const LhfdMatrixHdl A, const LhfdMatrixHdl S,
                       const double params[]) {
   LhfdHifHdl M = (LhfdHifHdl)std::malloc(sizeof(LhfdHif));
   if (!M) return nullptr;
-  M->M = new (std::nothrow) hif::HIF<double, LhfInt, LhfIndPtr>();
+  M->M = libhifir_impl::create_hif<
+      hif::HIF<double, LhfInt, LhfIndPtr>>();
   if (!M->M) {
     std::free(M);
     return nullptr;
@@ -603,14 +613,13 @@ LhfStatus lhfsReadSparse(const char *fname, LhfsMatrixHdl mat) {
 // single vector mm io
 LhfStatus lhfsReadVector(const char *fname, const size_t n, float *v) {
   using vector_t = hif::Array<float>;
-  vector_t vec;
   try {
-    vec = vector_t::from_mm(fname);
+    const vector_t vec(vector_t::from_mm(fname));
+    if (n != vec.size()) return LHF_MISMATCHED_SIZES;
+    std::copy(vec.cbegin(), vec.cend(), v);
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
-  if (n != vec.size()) return LHF_MISMATCHED_SIZES;
-  std::copy(vec.cbegin(), vec.cend(), v);
   return LHF_SUCCESS;
 }
 
@@ -626,7 +635,8 @@ LhfsHifHdl lhfsCreate(const LhfsMatrixHdl A, const LhfsMatrixHdl S,
                       const double params[]) {
   LhfsHifHdl M = (LhfsHifHdl)std::malloc(sizeof(LhfsHif));
   if (!M) return nullptr;
-  M->M = new (std::nothrow) hif::HIF<float, LhfInt, LhfIndPtr>();
+  M->M = libhifir_impl::create_hif<
+      hif::HIF<float, LhfInt, LhfIndPtr>>();
   if (!M->M) {
     std::free(M);
     return nullptr;
@@ -828,14 +838,13 @@ LhfStatus lhfzReadSparse(const char *fname, LhfzMatrixHdl mat) {
 LhfStatus lhfzReadVector(const char *fname, const size_t n,
                          double _Complex *v) {
   using vector_t = hif::Array<std::complex<double>>;
-  vector_t vec;
   try {
-    vec = vector_t::from_mm(fname);
+    const vector_t vec(vector_t::from_mm(fname));
+    if (n != vec.size()) return LHF_MISMATCHED_SIZES;
+    std::copy(vec.cbegin(), vec.cend(), (std::complex<double> *)v);
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
-  if (n != vec.size()) return LHF_MISMATCHED_SIZES;
-  std::copy(vec.cbegin(), vec.cend(), (std::complex<double> *)v);
   return LHF_SUCCESS;
 }
 
@@ -850,7 +859,8 @@ LhfzHifHdl lhfzCreate(const LhfzMatrixHdl A, const LhfzMatrixHdl S,
                       const double params[]) {
   LhfzHifHdl M = (LhfzHifHdl)std::malloc(sizeof(LhfzHif));
   if (!M) return nullptr;
-  M->M = new (std::nothrow) hif::HIF<std::complex<double>, LhfInt, LhfIndPtr>();
+  M->M = libhifir_impl::create_hif<
+      hif::HIF<std::complex<double>, LhfInt, LhfIndPtr>>();
   if (!M->M) {
     std::free(M);
     return nullptr;
@@ -1056,14 +1066,13 @@ LhfStatus lhfcReadSparse(const char *fname, LhfcMatrixHdl mat) {
 // double complex vector mm io
 LhfStatus lhfcReadVector(const char *fname, const size_t n, float _Complex *v) {
   using vector_t = hif::Array<std::complex<float>>;
-  vector_t vec;
   try {
-    vec = vector_t::from_mm(fname);
+    const vector_t vec(vector_t::from_mm(fname));
+    if (n != vec.size()) return LHF_MISMATCHED_SIZES;
+    std::copy(vec.cbegin(), vec.cend(), (std::complex<float> *)v);
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
-  if (n != vec.size()) return LHF_MISMATCHED_SIZES;
-  std::copy(vec.cbegin(), vec.cend(), (std::complex<float> *)v);
   return LHF_SUCCESS;
 }
 
@@ -1079,7 +1088,8 @@ LhfcHifHdl lhfcCreate(const LhfcMatrixHdl A, const LhfcMatrixHdl S,
                       const double params[]) {
   LhfcHifHdl M = (LhfcHifHdl)std::malloc(sizeof(LhfcHif));
   if (!M) return nullptr;
-  M->M = new (std::nothrow) hif::HIF<std::complex<float>, LhfInt, LhfIndPtr>();
+  M->M = libhifir_impl::create_hif<
+      hif::HIF<std::complex<float>, LhfInt, LhfIndPtr>>();
   if (!M->M) {
     std::free(M);
     return nullptr;
-- 
2.43.0


From 23eb6ee1092df49501c9b9ebc6649a948a5ed401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:43 +0000
Subject: [PATCH 32/55] fix: failed resize of an Array left its freed buffer in
 use

---
 src/hif/ds/Array.hpp | 71 +++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 34 deletions(-)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index a63dea3..faac753 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -190,22 +190,7 @@ class Array {
   }
 
   /// \brief destructor, handle shallow copy and external data
-  ~Array() {
-    // first trigger reference counter to decrement
-    // Added checking nullptr so that move can work
-    if (_counts) _counts->dec();
-    // handle memory deallocation
-    if (_data && _status == DATA_OWN && _counts && *_counts == 0u)
-      if (!_counts->_invalid) delete[] _data;
-    if (_counts && *_counts == 0u) {
-      // don't forget to free the counter
-      delete _counts;
-      _counts = nullptr;
-    }
-    _data = nullptr;
-    _size = _cap = 0;
-    _status      = DATA_UNDEF;
-  }
+  ~Array() { _release(); }
 
   /// \brief constructor for shallow or deep copy
   /// \note the default copy constructor is shallow
@@ -260,7 +245,7 @@ class Array {
   Array& operator=(const Array& other) {
     if (_data != other._data) {
       // first, deallocate this
-      this->~Array();
+      _release();
       _data   = other._data;
       _size   = other._size;
       _cap    = other._cap;
@@ -276,8 +261,8 @@ class Array {
   /// \return lvalue reference of \a this
   Array& operator=(Array&& other) {
     if (_data != other._data) {
-      // call destructor
-      this->~Array();
+      // release this
+      _release();
       _data   = other._data;
       _size   = other._size;
       _cap    = other._cap;
@@ -355,20 +340,21 @@ class Array {
       _size = n;
       return;
     }
-    const size_type cap  = _size ? 1.2 * n : n;  // 20% more
-    pointer         data = new (std::nothrow) value_type[cap];
+    const size_type cap    = _size ? 1.2 * n : n;  // 20% more
+    _RefCount*      counts = new _RefCount();
+    pointer         data   = new (std::nothrow) value_type[cap];
     hif_assert(data, "memory allocation failed");
     if (!data) {
-      // call destructor
-      this->~Array();
-      _counts = new _RefCount();
+      // release this
+      _release();
+      _counts = counts;
       return;
     }
     if (presv) std::copy_n(_data, _size, data);
-    // now call destructor
-    this->~Array();
+    // now release this
+    _release();
     // since we own a new database, reset the counter
-    _counts = new _RefCount();
+    _counts = counts;
     _data   = data;
     _size   = n;
     _cap    = cap;
@@ -382,20 +368,21 @@ class Array {
   inline void reserve(const size_type n) {
     hif_assert(_status != DATA_WRAP, "cannot call reserve for external data");
     if (_cap >= n) return;
-    pointer data = new (std::nothrow) value_type[n];
+    _RefCount* counts = new _RefCount();
+    pointer    data   = new (std::nothrow) value_type[n];
     hif_assert(data, "memory allocation failed");
     if (!data) {
-      // call destructor
-      this->~Array();
-      _counts = new _RefCount();
+      // release this
+      _release();
+      _counts = counts;
       return;
     }
     std::copy_n(_data, _size, data);
     const size_type size_bak = _size;
-    // now call destructor
-    this->~Array();
+    // now release this
+    _release();
     // since we own a new database, reset the counter
-    _counts = new _RefCount();
+    _counts = counts;
     _data   = data;
     _cap    = n;
     _size   = size_bak;
@@ -456,6 +443,22 @@ class Array {
   unsigned char _status;  ///< array status, see \a enum above
 
  private:
+  /// \brief release the database and leave \a this empty without a counter
+  inline void _release() {
+    // first trigger reference counter to decrement
+    // Added checking nullptr so that move can work
+    if (_counts) _counts->dec();
+    // handle memory deallocation
+    if (_data && _status == DATA_OWN && _counts && *_counts == 0u)
+      if (!_counts->_invalid) delete[] _data;
+    // don't forget to free the counter
+    if (_counts && *_counts == 0u) delete _counts;
+    _counts = nullptr;
+    _data   = nullptr;
+    _size = _cap = 0;
+    _status      = DATA_UNDEF;
+  }
+
   _RefCount* _counts;  ///< reference counter
 
   template <class _T>
-- 
2.43.0


From 5ba9bf191c8b78bd309807b828affe25c057a7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:43 +0000
Subject: [PATCH 33/55] fix: copying external data into an Array reported its
 size although the allocation failed

---
 src/hif/ds/Array.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index faac753..b230a5f 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -160,10 +160,10 @@ class Array {
       if (!_data) {
         _size = _cap = 0u;
         _status      = DATA_UNDEF;
-      } else {
-        std::copy_n(data, n, _data);
-        _status = DATA_OWN;
+        return;
       }
+      std::copy_n(data, n, _data);
+      _status = DATA_OWN;
     } else {
       _data   = data;
       _status = DATA_WRAP;
-- 
2.43.0


From 7df96d4f0416da1bb7092ea446d95a813021c06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:43 +0000
Subject: [PATCH 34/55] fix: assignment of an Array was skipped when both sides
 shared their buffer

---
 src/hif/ds/Array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index b230a5f..72c76c3 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -243,7 +243,7 @@ class Array {
   /// \param[in] other rhs Array
   /// \return lvalue reference of \a this
   Array& operator=(const Array& other) {
-    if (_data != other._data) {
+    if (this != &other) {
       // first, deallocate this
       _release();
       _data   = other._data;
@@ -260,7 +260,7 @@ class Array {
   /// \param[in] other rhs temp Array
   /// \return lvalue reference of \a this
   Array& operator=(Array&& other) {
-    if (_data != other._data) {
+    if (this != &other) {
       // release this
       _release();
       _data   = other._data;
-- 
2.43.0


From 5fd4f78b56aebeac1a54baa66d33d274e548186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:43 +0000
Subject: [PATCH 35/55] fix: copying a moved-from Array dereferenced its null
 counter

---
 src/hif/ds/Array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index 72c76c3..99d4513 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -205,7 +205,7 @@ class Array {
       _cap    = other._cap;
       _status = other._status;
       // increment the counter
-      _counts->inc();
+      if (_counts) _counts->inc();
     } else {
       // deep copy
       _counts = new _RefCount();
@@ -251,7 +251,7 @@ class Array {
       _cap    = other._cap;
       _status = other._status;
       _counts = other._counts;
-      _counts->inc();
+      if (_counts) _counts->inc();
     }
     return *this;
   }
-- 
2.43.0


From 79ea67d1cadb03c69a7946ad34e54b9195da7bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:43 +0000
Subject: [PATCH 36/55] fix: appending to an Array wrote through null after a
 failed allocation

---
 src/hif/ds/Array.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index 99d4513..9c5073e 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -393,6 +393,7 @@ class Array {
   /// \param[in] v value to be append
   inline void push_back(const value_type v) {
     resize(_size + 1);
+    hif_error_if(!_size, "memory allocation failed");
     back() = v;
   }
 
@@ -408,6 +409,7 @@ class Array {
     const auto      n     = std::distance(first, last);
     const size_type start = _size;
     resize(_size + n);
+    hif_error_if(_size < start + n, "memory allocation failed");
     std::copy(first, last, _data + start);
   }
 
@@ -420,6 +422,7 @@ class Array {
   inline void push_back_n(Iter first, const size_type n) {
     const size_type start = _size;
     resize(_size + n);
+    hif_error_if(_size < start + n, "memory allocation failed");
     std::copy_n(first, n, _data + start);
   }
 
-- 
2.43.0


From fae7f70c3b2db33047c7f54694ea532ea5a1c1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:43 +0000
Subject: [PATCH 37/55] fix: allocation failures in the constructors of Array
 leaked the other allocation

---
 src/hif/ds/Array.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index 9c5073e..0b33f29 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -125,11 +125,12 @@ class Array {
   /// \param[in] n length of the array
   /// \sa DATA_OWN
   explicit Array(const size_type n)
-      : _data(new (std::nothrow) value_type[n]),
+      : _data(nullptr),
         _size(n),
         _cap(n),
         _status(DATA_OWN),
         _counts(new _RefCount()) {
+    _data = new (std::nothrow) value_type[n];
     // handle overflow
     hif_assert(_data, "memory allocation failed");
     if (!_data) {
@@ -176,11 +177,12 @@ class Array {
   /// \param other another array
   template <class V>
   explicit Array(const Array<V>& other)
-      : _data(new (std::nothrow) value_type[other.size()]),
+      : _data(nullptr),
         _size(other.size()),
         _cap(_size),
         _status(DATA_OWN),
         _counts(new _RefCount()) {
+    _data = new (std::nothrow) value_type[_size];
     hif_assert(_data, "memory allocation failed");
     if (!_data) {
       _size = _cap = 0u;
@@ -209,7 +211,11 @@ class Array {
     } else {
       // deep copy
       _counts = new _RefCount();
-      _data   = new value_type[other._size];
+      _data   = new (std::nothrow) value_type[other._size];
+      if (!_data) {
+        delete _counts;
+        throw std::bad_alloc();
+      }
       _size   = other._size;
       _cap    = _size;
       _status = DATA_OWN;
-- 
2.43.0


From eb911aca0aeaffadb0cdc1834572e03e0f3df2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:27 +0000
Subject: [PATCH 38/55] fix: an empty stack trace made hif::error return
 instead of raising

---
 src/hif/utils/stacktrace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/utils/stacktrace.hpp b/src/hif/utils/stacktrace.hpp
index f50fac2..6778236 100644
--- a/src/hif/utils/stacktrace.hpp
+++ b/src/hif/utils/stacktrace.hpp
@@ -50,7 +50,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
       const int addr_len = backtrace(addrs, sizeof(addrs) / sizeof(void *)); \
       if (addr_len == 0) {                                                   \
         __ss << " <empty, possibly corrupt>\n";                              \
-        return;                                                              \
+        break;                                                               \
       }                                                                      \
       char **     symbol_list    = backtrace_symbols(addrs, addr_len);       \
       std::size_t func_name_size = 512u;                                     \
-- 
2.43.0


From b4380b0689d763db621d439e5534d32272e22bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:29 +0000
Subject: [PATCH 39/55] fix: matrix-market writers lost digits of extended
 precision values

---
 src/hif/utils/io.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 3920444..f6a3bcf 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -48,6 +48,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #include <cstdint>
 #include <cstdio>
 #include <fstream>
+#include <limits>
 #include <tuple>
 #include <type_traits>
 
@@ -875,11 +876,11 @@ inline void write_mm_vector(const char *filename, const Array<ValueType> &v) {
   // only for floating numbers
   static constexpr bool IS_REAL   = std::is_floating_point<ValueType>::value;
   static const char *   DATA_TYPE = IS_REAL ? "real" : "complex";
-  static constexpr int  PREC =
-      (IS_REAL && sizeof(ValueType) == sizeof(double)) ||
-              (!IS_REAL && sizeof(ValueType) == sizeof(std::complex<double>))
-          ? 16
-          : 8;
+  // scientific notation writes one more digit in front of the point
+  static constexpr int PREC =
+      std::numeric_limits<
+          typename ValueTypeTrait<ValueType>::value_type>::max_digits10 -
+      1;
 
   std::ofstream f(filename);
   hif_error_if(!f.is_open(), "cannot open file %s", filename);
@@ -919,11 +920,11 @@ inline void write_mm_sparse(const char *filename, const std::size_t other_size,
                             const Array<ValueType> & vals) {
   static constexpr bool IS_REAL   = std::is_floating_point<ValueType>::value;
   static const char *   DATA_TYPE = IS_REAL ? "real" : "complex";
-  static constexpr int  PREC =
-      (IS_REAL && sizeof(ValueType) == sizeof(double)) ||
-              (!IS_REAL && sizeof(ValueType) == sizeof(std::complex<double>))
-          ? 16
-          : 8;
+  // scientific notation writes one more digit in front of the point
+  static constexpr int PREC =
+      std::numeric_limits<
+          typename ValueTypeTrait<ValueType>::value_type>::max_digits10 -
+      1;
 
   if (ind_start.size() == 0u) hif_error("cannot write empty matrix");
   std::ofstream f(filename);
-- 
2.43.0


From 17b25817c6a189c1c316f11caf541fe3cb921d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:29 +0000
Subject: [PATCH 40/55] fix: matrix-market writers ignored write errors

---
 src/hif/utils/io.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index f6a3bcf..fd0b527 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -896,6 +896,7 @@ inline void write_mm_vector(const char *filename, const Array<ValueType> &v) {
     f << '\n';
   }
   f.close();
+  hif_error_if(!f, "failed to write file %s", filename);
 }
 
 /// \brief Write a sparse matrix
@@ -949,6 +950,7 @@ inline void write_mm_sparse(const char *filename, const std::size_t other_size,
     }
   }
   f.close();
+  hif_error_if(!f, "failed to write file %s", filename);
 }
 
 /*!
-- 
2.43.0


From 92671da9241acace7d67ef2a3d8adf0e898f3a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:54 +0000
Subject: [PATCH 41/55] fix: converting coordinates with repeated entries in an
 unsorted row lost values

---
 src/hif/utils/coo2compress.hpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/hif/utils/coo2compress.hpp b/src/hif/utils/coo2compress.hpp
index 1d52102..01a96a1 100644
--- a/src/hif/utils/coo2compress.hpp
+++ b/src/hif/utils/coo2compress.hpp
@@ -30,6 +30,8 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #define _HIF_UTILS_COO2COMPRESS_HPP
 
 #include <algorithm>
+#include <utility>
+#include <vector>
 
 #include "hif/ds/Array.hpp"
 
@@ -53,7 +55,7 @@ namespace hif {
 /// convert_coo2crs(ncols, nrows, cols, rows, coovals, colptr, rowind, vals).
 template <class IndPtrType, class IndexType, class ValueType>
 inline void convert_coo2cs(const std::size_t       primary_size,
-                           const std::size_t       secondary_size,
+                           const std::size_t /* secondary_size */,
                            const Array<IndexType> &pidx,
                            const Array<IndexType> &sids,
                            const Array<ValueType> &coovals,
@@ -91,22 +93,25 @@ inline void convert_coo2cs(const std::size_t       primary_size,
   ind_start[0] = 0u;
 
   // sort locally
-  Array<ValueType> vbuf;
+  std::vector<std::pair<IndexType, ValueType>> vbuf;
   for (size_type i(0); i < primary_size; ++i)
     if (!std::is_sorted(indices.cbegin() + ind_start[i],
                         indices.cbegin() + ind_start[i + 1])) {
-      // not sorted
-      vbuf.resize(secondary_size);
-      hif_error_if(vbuf.status() == DATA_UNDEF, "memory allocation failed");
-      // backup values
+      // not sorted, keep each value with its index (which can be repeated)
+      vbuf.clear();
       for (size_type k = ind_start[i]; k < (size_type)ind_start[i + 1]; ++k)
-        vbuf[indices[k]] = vals[k];
+        vbuf.emplace_back(indices[k], vals[k]);
       // sort
-      std::sort(indices.begin() + ind_start[i],
-                indices.begin() + ind_start[i + 1]);
+      std::stable_sort(vbuf.begin(), vbuf.end(),
+                       [](const std::pair<IndexType, ValueType> &l,
+                          const std::pair<IndexType, ValueType> &r) {
+                         return l.first < r.first;
+                       });
       // copy back
-      for (size_type k = ind_start[i]; k < (size_type)ind_start[i + 1]; ++k)
-        vals[k] = vbuf[indices[k]];
+      for (size_type k = ind_start[i]; k < (size_type)ind_start[i + 1]; ++k) {
+        indices[k] = vbuf[k - ind_start[i]].first;
+        vals[k]    = vbuf[k - ind_start[i]].second;
+      }
     }
 }
 
-- 
2.43.0


From 60589f7544d0651bbd3414a6952f700798069076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:53 +0000
Subject: [PATCH 42/55] fix: the drop tolerances of L and U were exchanged

---
 src/hif/alg/factor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index 8472352..2777374 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -101,7 +101,7 @@ determine_fac_pars(const Options &opts, const int lvl) {
     alpha_L = opts.alpha_L;
     alpha_U = opts.alpha_U;
   }
-  return std::make_tuple(kappa_d, kappa, tau_U, tau_L, alpha_L, alpha_U);
+  return std::make_tuple(kappa_d, kappa, tau_L, tau_U, alpha_L, alpha_U);
 }
 
 /// \brief extract permutated diagonal
-- 
2.43.0


From 12d4d6c4bf2fb99740c8c0106d40bd654e0d1050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:06 +0000
Subject: [PATCH 43/55] fix: symmetric factorization of complex Hermitian
 matrices was wrong

---
 src/hif/alg/Crout.hpp       | 25 +++++++++++++++++++++----
 src/hif/alg/symm_factor.hpp | 16 ++++++----------
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/hif/alg/Crout.hpp b/src/hif/alg/Crout.hpp
index dded03a..d93361e 100644
--- a/src/hif/alg/Crout.hpp
+++ b/src/hif/alg/Crout.hpp
@@ -352,7 +352,7 @@ class Crout {
   ///   \mathbf{\ell}_{k}=
   ///     \hat{\mathbf{A}}[\mathbf{p}_{k+1:n},q_{k}]-
   ///     \mathbf{L}_{k+1:n,1:k-1}\mathbf{D}_{k-1}
-  ///       \mathbf{L}_{k,1:k-1}^{T}
+  ///       \mathbf{L}_{k,1:k-1}^{H}
   /// \f]
   template <class ScaleArray, class CcsType, class PermType, class ListArray,
             class IndPtrArray, class DiagType, class SpVecType>
@@ -379,9 +379,9 @@ class Crout {
         hif_assert((size_type)L_col < _step,
                    "compute_ut row index %zd should not exceed step %zd for U",
                    (size_type)L_col, _step);
-        // compute d*L^T
+        // compute d*L^H
         auto       L_v_itr = L.val_cbegin(L_col) + L_start[L_col];
-        const auto dlt     = d[L_col] * *L_v_itr;
+        const auto dlt     = d[L_col] * conjugate(*L_v_itr);
         auto       L_i_itr = L.row_ind_cbegin(L_col) + L_start[L_col],
              L_last        = L.row_ind_cend(L_col);
         if (L_i_itr != L_last) {
@@ -395,7 +395,7 @@ class Crout {
                      "%zd(defers:%zd)",
                      (size_type)idx, _step, _defers);
           // compute this entry, if index does not exist, assign new value to
-          // -L*d*L^T, else, -= L*d*L^T
+          // -L*d*L^H, else, -= L*d*L^H
           if (l.push_back(idx, _step))
             l.vals()[idx] = -dlt * *L_v_itr;
           else
@@ -629,6 +629,23 @@ class Crout {
     }
   }
 
+  /// \brief update diagonal entries for symmetric (Hermitian) systems
+  /// \tparam SpVecType sparse vector for storing l, see \ref SparseVector
+  /// \tparam DiagType diagonal matrix type, see \ref Array
+  /// \param[in] l column vector of L of current step, scaled by \a d
+  /// \param[in] m leading block size
+  /// \param[in,out] d diagonal vector to be updated
+  template <class SpVecType, class DiagType>
+  inline void update_diag_symm(const SpVecType &l, const size_type m,
+                               DiagType &d) const {
+    const auto      dk = d[_step];
+    const size_type n  = l.size();
+    for (size_type i(0); i < n; ++i) {
+      const size_type idx = l.idx(i);
+      if (idx < m) d[idx] -= dk * l.val(i) * conjugate(l.val(i));
+    }
+  }
+
   /// \brief scale the computed row/column vectors by current diagonal inverse
   /// \tparam DiagType diagonal matrix type, see \ref Array
   /// \tparam SpVecType sparse vector for storing l/U, see \ref SparseVector
diff --git a/src/hif/alg/symm_factor.hpp b/src/hif/alg/symm_factor.hpp
index 546d38e..f829daf 100644
--- a/src/hif/alg/symm_factor.hpp
+++ b/src/hif/alg/symm_factor.hpp
@@ -152,9 +152,9 @@ inline CsType symm_level_factorize(
 
   // build counterpart type
   other_type A_counterpart;
-  // NOTE: This can be done efficiently for symmetric real systems
-  // NOTE: For complex Hermitian matrix, the following will not work
-  internal::make_transpose(A, A_counterpart);
+  // NOTE: This can be done efficiently for symmetric real systems; for complex
+  // Hermitian systems, only the values are copied (conjugated)
+  internal::make_transpose(A, A_counterpart, true);
 
   // now use our trait and its static methods to precisely determine the ccs
   // and crs components.
@@ -396,7 +396,7 @@ inline CsType symm_level_factorize(
                cur_level, step);
 
     // update diagonals b4 dropping
-    step.update_diag<true>(l, l, m2, d);
+    step.update_diag_symm(l, m2, d);
 
     //---------------
     // drop and sort
@@ -623,12 +623,8 @@ inline CsType symm_level_factorize(
     A_counterpart.destroy();
   }
 
-  // construct F differently for symmetric real systems
-  crs_type F_ccs(E);
-  F.resize(E.ncols(), E.nrows());
-  F.inds()      = F_ccs.inds();
-  F.ind_start() = F_ccs.ind_start();
-  F.vals()      = F_ccs.vals();
+  // construct F as the (conjugate) transpose of E
+  internal::make_transpose(E, F, true);
 
   // recursive function free
   if (cur_level > 1u) const_cast<input_type &>(A).destroy();
-- 
2.43.0


From e4dbde05fdab019a88d3cb5866bb96ac4d58f308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:38 +0000
Subject: [PATCH 44/55] fix: partition work by the actual team of threads,
 which can be smaller than requested

---
 src/hif/alg/Schur.hpp   | 14 ++++++++------
 src/hif/utils/mt.hpp    | 10 ++++++++++
 src/hif/utils/mt_mv.hpp | 12 ++++++++----
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/hif/alg/Schur.hpp b/src/hif/alg/Schur.hpp
index 8f89701..6602b15 100644
--- a/src/hif/alg/Schur.hpp
+++ b/src/hif/alg/Schur.hpp
@@ -447,10 +447,10 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
 #pragma omp parallel num_threads(2) default(shared)
     do {
       const int thread = get_thread();
-      if (thread)
+      // NOTE the team can be smaller than requested
+      if (thread || get_team_size() == 1)
         drop_L_E(ref_indptr_L, alpha_L, L_E, buf_L, ibuf_L);
-      else
-        drop_U_F(ref_indptr_U, alpha_U, U_F, buf_U, ibuf_U);
+      if (!thread) drop_U_F(ref_indptr_U, alpha_U, U_F, buf_U, ibuf_U);
     } while (false);  // end of parallel region for 2
     return;
   }
@@ -462,7 +462,8 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
   do {
     // determine thread id and work of partition
     const int       thread    = get_thread();
-    const auto      part      = uniform_partition(n, nthreads, thread);
+    const int       team      = get_team_size();
+    const auto      part      = uniform_partition(n, team, thread);
     const size_type start_idx = part.first, poe_idx = part.second;
 
     // create additional work buffer
@@ -542,7 +543,8 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
       // resize nnz arrays
       L_E.col_ind().resize(L_E.nnz());
       L_E.vals().resize(L_E.nnz());
-    } else if (thread == 1) {
+    }
+    if (thread == (team > 1 ? 1 : 0)) {
       // U part
       auto i_itr = U_F.row_ind().begin();
       auto v_itr = U_F.vals().begin();
@@ -624,7 +626,7 @@ inline CrsType compute_Schur_simple(const ScaleArray &s, const CrsType &A,
 #pragma omp parallel num_threads(nthreads) default(shared)
   do {
     const int       thread    = get_thread();
-    const auto      part      = uniform_partition(N, nthreads, thread);
+    const auto      part      = uniform_partition(N, get_team_size(), thread);
     const size_type start_idx = part.first, poe_idx = part.second;
 
     // create local sparse buffer
diff --git a/src/hif/utils/mt.hpp b/src/hif/utils/mt.hpp
index a736c6c..ad2c321 100644
--- a/src/hif/utils/mt.hpp
+++ b/src/hif/utils/mt.hpp
@@ -87,6 +87,16 @@ inline int get_thread() {
 #endif
 }
 
+/// \brief get the size of the current team of threads, which can be smaller
+///        than requested, e.g., in nested parallel regions
+inline int get_team_size() {
+#ifdef _OPENMP
+  return omp_get_num_threads();
+#else
+  return 1;
+#endif
+}
+
 /// \brief uniform partition
 inline std::pair<std::size_t, std::size_t> uniform_partition(
     const std::size_t n, const int threads, const int thread) {
diff --git a/src/hif/utils/mt_mv.hpp b/src/hif/utils/mt_mv.hpp
index 9047317..c97693f 100644
--- a/src/hif/utils/mt_mv.hpp
+++ b/src/hif/utils/mt_mv.hpp
@@ -67,7 +67,8 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_nt(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part =
+        uniform_partition(A.nrows(), get_team_size(), get_thread());
     A.multiply_nt_low(x.data(), part.first, part.second - part.first, y.data());
   } while (false);  // parallel region
 }
@@ -91,7 +92,8 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_nt_low(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part =
+        uniform_partition(A.nrows(), get_team_size(), get_thread());
     A.multiply_nt_low(x, part.first, part.second - part.first, y);
   } while (false);  // parallel region
 }
@@ -142,7 +144,8 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_mrhs_nt(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part =
+        uniform_partition(A.nrows(), get_team_size(), get_thread());
     A.template multiply_mrhs_nt_low<Nrhs>(x[0].data(), part.first,
                                  part.second - part.first, y[0].data());
   } while (false);  // parallel region
@@ -169,7 +172,8 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_mrhs_nt_low(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part =
+        uniform_partition(A.nrows(), get_team_size(), get_thread());
     A.template multiply_mrhs_nt_low<Nrhs>(x, part.first, part.second - part.first, y);
   } while (false);  // parallel region
 }
-- 
2.43.0


From 3c9b36bd7807c3f739881947d9c6e0cc1f4718c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:49 +0000
Subject: [PATCH 45/55] fix: threaded dropping of the off-diagonal blocks kept
 everything for non-positive alpha

---
 src/hif/alg/Schur.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hif/alg/Schur.hpp b/src/hif/alg/Schur.hpp
index 6602b15..a6ed1c4 100644
--- a/src/hif/alg/Schur.hpp
+++ b/src/hif/alg/Schur.hpp
@@ -433,7 +433,8 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
 
   const size_type n = L_E.nrows();
   hif_assert(n == U_F.ncols(), "mismatched sizes between L_E and U_F");
-  if (nthreads == 1 || n <= 200u) {
+  // NOTE non-positive alpha drops all entries, see the serial versions
+  if (nthreads == 1 || n <= 200u || !(alpha_L > 0) || !(alpha_U > 0)) {
     drop_L_E(ref_indptr_L, alpha_L, L_E, buf_L, ibuf_L);
     drop_U_F(ref_indptr_U, alpha_U, U_F, buf_U, ibuf_U);
     return;
-- 
2.43.0


From 2e082aa14b97f756da4a8935a3ea8bd069165c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:27 +0000
Subject: [PATCH 46/55] fix: AugCRS/AugCCS build_aug and row_end do not compile
 when used

---
 src/hif/ds/AugmentedStorage.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hif/ds/AugmentedStorage.hpp b/src/hif/ds/AugmentedStorage.hpp
index 9750c0f..804ccae 100644
--- a/src/hif/ds/AugmentedStorage.hpp
+++ b/src/hif/ds/AugmentedStorage.hpp
@@ -452,7 +452,7 @@ class AugCRS : public CrsType,
     hif_error_if(nrows() + 1u != crs_type::row_start().size(),
                  "row-start array size (%zd) does not agree with nrows (%zd)",
                  crs_type::row_start().size(), nrows());
-    hif_error_if(crs_type::nnz() != col_ind.size(), "inconsistent nnz");
+    hif_error_if(crs_type::nnz() != col_ind().size(), "inconsistent nnz");
     _base::_build_aug(ncols(), crs_type::row_start(), col_ind());
   }
 
@@ -821,7 +821,7 @@ class AugCCS : public CcsType,
 
   /// \brief build augmented data structure based on mature CCS
   /// \param[in] ccs temp CCS system
-  inline void build_aug(crs_type &&ccs) {
+  inline void build_aug(ccs_type &&ccs) {
     ccs_type::operator=(ccs);
     hif_error_if(ccs.status() == DATA_UNDEF, "undefined data input");
     hif_error_if(
@@ -1080,7 +1080,7 @@ class AugCCS : public CcsType,
   inline iparray_type &      row_start() { return _base::_node_start; }
   inline const iparray_type &row_start() const { return _base::_node_start; }
   inline iparray_type &      row_end() { return _base::_node_end; }
-  inline const iparray_type *row_end() const { return _base::_node_end; }
+  inline const iparray_type &row_end() const { return _base::_node_end; }
   inline iparray_type &      row_next() { return _base::_node_next; }
   inline const iparray_type &row_next() const { return _base::_node_next; }
   inline iarray_type &       row_counts() { return _base::_node_counts; }
-- 
2.43.0


From 33581f812afff6a0fc5ca388f4bc560ed03d656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:27 +0000
Subject: [PATCH 47/55] fix: CRS::split_ccs takes the position array of its
 callees

---
 src/hif/ds/CompressedStorage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 1bfe202..4153cfd 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1667,7 +1667,7 @@ class CRS
   /// \param[in] m column size
   /// \param[in] start starting position array, at least size of nrows()
   inline std::pair<other_type, other_type> split_ccs(
-      const size_type m, const iarray_type &start) const {
+      const size_type m, const iparray_type &start) const {
     return std::make_pair(split_ccs<false>(m, start),
                           split_ccs<true>(m, start));
   }
-- 
2.43.0


From d451a981dda716df539da0061262f3011bd6e71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:27 +0000
Subject: [PATCH 48/55] fix: QRCP rank estimation compiles for complex matrices

---
 src/hif/small_scale/QRCP.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/small_scale/QRCP.hpp b/src/hif/small_scale/QRCP.hpp
index f8b8644..1b78654 100644
--- a/src/hif/small_scale/QRCP.hpp
+++ b/src/hif/small_scale/QRCP.hpp
@@ -291,7 +291,7 @@ class QRCP {
     scalar_type nrm, inrm;
     for (_rank = 0u; _rank < n; ++_rank) {
       // esimate norm of the current leading block
-      if (_mat(_rank, _rank) == 0) break;
+      if (_mat(_rank, _rank) == value_type(0)) break;
       _est_cond1(inrm, nrm);
       if (inrm * nrm >= cond_tol) break;
     }
-- 
2.43.0


From d10f64e87632e20344bee58af9b0051a66e71885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:47 +0000
Subject: [PATCH 49/55] fix: Lapack::trcon compiles for complex matrices

---
 src/hif/small_scale/lapack.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/hif/small_scale/lapack.hpp b/src/hif/small_scale/lapack.hpp
index b2897f4..99d4b91 100644
--- a/src/hif/small_scale/lapack.hpp
+++ b/src/hif/small_scale/lapack.hpp
@@ -58,6 +58,10 @@ class Lapack {
   constexpr static bool IS_REAL = std::is_same<scalar_type, value_type>::value;
   ///< flag indicating whether or not complex arithmetic is used
 
+  /// \brief extra buffer type of trcon, integers for real, reals for complex
+  typedef typename std::conditional<IS_REAL, hif_lapack_int, scalar_type>::type
+      trcon_aux_type;
+
  private:
   constexpr static bool _INT_TYPE_CONSIS =
       sizeof(int_type) == sizeof(hif_lapack_int);
@@ -186,19 +190,19 @@ class Lapack {
   inline static int_type trcon(const char norm, const char uplo,
                                const char diag, const hif_lapack_int n,
                                const value_type *a, const hif_lapack_int lda,
-                               value_type &rcond, pointer work,
-                               hif_lapack_int *iwork) {
+                               scalar_type &rcond, pointer work,
+                               trcon_aux_type *iwork) {
     return internal::trcon(norm, uplo, diag, n, a, lda, rcond, work, iwork);
   }
 
   inline static int_type trcon(const char norm, const char uplo,
                                const char                     diag,
                                const DenseMatrix<value_type> &a,
-                               value_type &                   rcond) {
+                               scalar_type &                  rcond) {
     hif_assert(a.nrows() >= a.ncols(),
                "a must have row size that is no smaller than its column size");
     std::vector<value_type>     work(3 * a.ncols());
-    std::vector<hif_lapack_int> iwork(a.ncols());
+    std::vector<trcon_aux_type> iwork(a.ncols());
     return trcon(norm, uplo, diag, a.ncols(), a.data(), a.nrows(), rcond,
                  work.data(), iwork.data());
   }
@@ -206,11 +210,11 @@ class Lapack {
   inline static int_type trcon(const char norm, const char uplo,
                                const char                     diag,
                                const DenseMatrix<value_type> &a,
-                               const int_type rank, value_type &rcond) {
+                               const int_type rank, scalar_type &rcond) {
     hif_assert((int_type)a.nrows() >= rank,
                "a must have row size that is no smaller than its rank size");
     std::vector<value_type>     work(3 * a.ncols());
-    std::vector<hif_lapack_int> iwork(a.ncols());
+    std::vector<trcon_aux_type> iwork(a.ncols());
     return trcon(norm, uplo, diag, rank, a.data(), a.nrows(), rcond,
                  work.data(), iwork.data());
   }
-- 
2.43.0


From 854fdf926de2c5e1ff92316adec8e15d7f3b3503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:00 +0000
Subject: [PATCH 50/55] fix: LUP multiplies in place as the preconditioner
 product requires

---
 src/hif/small_scale/LUP.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/hif/small_scale/LUP.hpp b/src/hif/small_scale/LUP.hpp
index 5743baa..210bcf9 100644
--- a/src/hif/small_scale/LUP.hpp
+++ b/src/hif/small_scale/LUP.hpp
@@ -198,6 +198,26 @@ class LUP {
     std::copy(_y.cbegin(), _y.cend(), y.begin());
   }
 
+  /// \brief compute \f$\mathbf{x}=\mathbf{P}^{T}\mathbf{LUx}\f$ in place
+  /// \param[in,out] x input vector, output product
+  /// \param[in] tran (optional) tranpose flag
+  inline void multiply(Array<value_type> &x, const size_type rank = 0,
+                       const bool tran = false) const {
+    _y.resize(x.size());
+    multiply(x, _y, rank, tran);
+    std::copy(_y.cbegin(), _y.cend(), x.begin());
+  }
+
+  /// \brief in-place wrapper if \a value_type is different from input's
+  template <class ArrayType>
+  inline void multiply(ArrayType &x, const size_type rank = 0,
+                       const bool tran = false) const {
+    _x.resize(x.size());
+    std::copy(x.cbegin(), x.cend(), _x.begin());
+    multiply(_x, rank, tran);
+    std::copy(_x.cbegin(), _x.cend(), x.begin());
+  }
+
  protected:
   dense_type                _mat;         ///< matrix
   dense_type                _mat_backup;  ///< backup matrix
-- 
2.43.0


From 18f5965b605952d87eeaf49ed8d957ae50f76644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:00 +0000
Subject: [PATCH 51/55] fix: wrap_const_crs keeps the index pointer type

---
 src/hif/ds/CompressedStorage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 4153cfd..13cf440 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1758,7 +1758,7 @@ using CSR = CRS<ValueType, IndexType, IndPtrType>;
 /// \warning It's the user's responsibility to maintain the external data
 /// \ingroup ds
 template <class ValueType, class IndexType, class IndPtrType>
-inline CRS<ValueType, IndexType> wrap_const_crs(
+inline CRS<ValueType, IndexType, IndPtrType> wrap_const_crs(
     const typename CRS<ValueType, IndexType, IndPtrType>::size_type nrows,
     const typename CRS<ValueType, IndexType, IndPtrType>::size_type ncols,
     const IndPtrType *row_start, const IndexType *col_ind,
-- 
2.43.0


From 35cfcd8135db7465d5bdb9010e9be3abbeeacd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:00 +0000
Subject: [PATCH 52/55] fix: wrap_const_ccs checks every column

---
 src/hif/ds/CompressedStorage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 13cf440..30fb58b 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -2681,7 +2681,7 @@ inline CCS<ValueType, IndexType, IndPtrType> wrap_const_ccs(
     if (col_start[0] != 0)
       hif_error("first entry of row_start does not agree with 0.");
     Array<ValueType> buf;
-    for (size_type i = 0u; i < nrows; ++i) {
+    for (size_type i = 0u; i < ncols; ++i) {
       if (!mat.nnz_in_col(i)) {
 #ifdef HIF_DEBUG
         hif_warning("row %zd is empty!", i);
-- 
2.43.0


From 3dfa162c54cb4b1537a4f4df876355b14d660fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:16 +0000
Subject: [PATCH 53/55] fix: check_validity rejects a decreasing position array

---
 src/hif/ds/CompressedStorage.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 30fb58b..c0dac2e 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -204,6 +204,10 @@ class CompressedStorage {
             "inconsistent between nnz (%s_start(end)-%s_start(first),%zd) and "
             "indices/values length %zd/%zd",
             pname, pname, nnz(), _indices.size(), _vals.size());
+      // the position array must not decrease
+      for (size_type i = 0u; i < _psize; ++i)
+        hif_error_if(_ind_start[i + 1] < _ind_start[i],
+                     "%s start decreases at %s %zd (C-based)", pname, pname, i);
       // check each entry
       for (size_type i = 0u; i < _psize; ++i) {
         hif_error_if(!std::is_sorted(_ind_cbegin(i), _ind_cend(i),
-- 
2.43.0


From 19913acc1728a4576269018bcfeb6875c10285e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:16 +0000
Subject: [PATCH 54/55] fix: wrap_const_crs/ccs reject a negative first index

---
 src/hif/ds/CompressedStorage.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index c0dac2e..aed9129 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1797,7 +1797,8 @@ inline CRS<ValueType, IndexType, IndPtrType> wrap_const_crs(
         hif_error("%zd row is not sorted, the checking failed at entry %td", i,
                   itr - first);
       else
-        hif_error_if(size_type(*(last - 1)) >= mat.ncols(),
+        hif_error_if(size_type(*(last - 1)) >= mat.ncols() ||
+                         size_type(*first) >= mat.ncols(),
                      "%zd exceeds column size %zd", size_type(*(last - 1)),
                      mat.ncols());
     }
@@ -2700,7 +2701,8 @@ inline CCS<ValueType, IndexType, IndPtrType> wrap_const_ccs(
         hif_error("%zd row is not sorted, the checking failed at entry %td", i,
                   itr - first);
       else
-        hif_error_if(size_type(*(last - 1)) >= mat.nrows(),
+        hif_error_if(size_type(*(last - 1)) >= mat.nrows() ||
+                         size_type(*first) >= mat.nrows(),
                      "%zd exceeds row size %zd", size_type(*(last - 1)),
                      mat.nrows());
     }
-- 
2.43.0


From 04ba72046d241c6130b62e52e126a08f63ec85b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:29 +0000
Subject: [PATCH 55/55] fix: wrap_const_crs/ccs reject a decreasing position
 array

---
 src/hif/ds/CompressedStorage.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index aed9129..bdeef45 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1782,6 +1782,8 @@ inline CRS<ValueType, IndexType, IndPtrType> wrap_const_crs(
   if (check) {
     if (row_start[0] != 0)
       hif_error("first entry of row_start does not agree with 0.");
+    for (size_type i = 0u; i < nrows; ++i)
+      hif_error_if(row_start[i + 1] < row_start[i], "row_start decreases at %zd", i);
     for (size_type i = 0u; i < nrows; ++i) {
       if (!mat.nnz_in_row(i)) {
 #ifdef HIF_DEBUG
@@ -2685,6 +2687,8 @@ inline CCS<ValueType, IndexType, IndPtrType> wrap_const_ccs(
   if (check) {
     if (col_start[0] != 0)
       hif_error("first entry of row_start does not agree with 0.");
+    for (size_type i = 0u; i < ncols; ++i)
+      hif_error_if(col_start[i + 1] < col_start[i], "col_start decreases at %zd", i);
     Array<ValueType> buf;
     for (size_type i = 0u; i < ncols; ++i) {
       if (!mat.nnz_in_col(i)) {
-- 
2.43.0

