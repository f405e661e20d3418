From 3fe2cd4c9f32590f9080c2144ba770a6cdc4ae5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 01/38] fix: zero the output of CRS::multiply_t for a matrix
 without rows

---
 src/hif/ds/CompressedStorage.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 0079753..cf56eda 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1252,8 +1252,8 @@ class CRS
         typename std::conditional<(sizeof(Vx) > sizeof(Vy)), Vx, Vy>::type;
     using v_t = typename std::conditional<(sizeof(v1_t) > sizeof(value_type)),
                                           v1_t, value_type>::type;
-    if (!_psize) return;
     std::fill_n(y, ncols(), Vy(0));
+    if (!_psize) return;
     for (size_type i = 0u; i < _psize; ++i) {
       const v_t temp  = x[i];
       auto      v_itr = _base::val_cbegin(i);
@@ -1292,8 +1292,8 @@ class CRS
         typename std::conditional<(sizeof(Vx) > sizeof(Vy)), Vx, Vy>::type;
     using v_t = typename std::conditional<(sizeof(v1_t) > sizeof(value_type)),
                                           v1_t, value_type>::type;
-    if (!_psize) return;
     std::fill_n(y, Nrhs * ncols(), Vy(0));
+    if (!_psize) return;
     std::array<v_t, Nrhs> temp;
     for (size_type i = 0u; i < _psize; ++i) {
       for (size_type k(0); k < Nrhs; ++k) temp[k] = x[i * Nrhs + k];
-- 
2.43.0


From b212dffd489a4bf65b0ca305733923aacc6c8682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 02/38] fix: conjugate the matrix in multiply_mrhs_t as
 multiply_t does

---
 src/hif/ds/CompressedStorage.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index cf56eda..0c861f3 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1302,7 +1302,8 @@ class CRS
       for (auto last = col_ind_cend(i); i_itr != last; ++i_itr, ++v_itr) {
         const size_type j = *i_itr;
         hif_assert(j < _ncols, "%zd exceeds column size", j);
-        for (size_type k(0); k < Nrhs; ++k) y[j * Nrhs + k] += temp[k] * *v_itr;
+        for (size_type k(0); k < Nrhs; ++k)
+          y[j * Nrhs + k] += temp[k] * conjugate(*v_itr);
       }
     }
   }
@@ -2211,7 +2212,7 @@ class CCS
       for (auto last = row_ind_cend(i); i_itr != last; ++i_itr, ++v_itr) {
         hif_assert(size_type(*i_itr) < _nrows, "%zd exceeds the size bound",
                    size_type(*i_itr));
-        const auto av = *v_itr;
+        const auto av = conjugate(*v_itr);
         for (size_type k(0); k < Nrhs; ++k) tmp[k] += x[*i_itr * Nrhs + k] * av;
       }
       for (size_type k(0); k < Nrhs; ++k) y[i * Nrhs + k] = tmp[k];
-- 
2.43.0


From 2b981f94dbf20340c8b705d8e0e2b072661a6333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 03/38] fix: write every output of multiply_mrhs also when the
 input vector is empty

---
 src/hif/ds/CompressedStorage.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 0c861f3..ba38d40 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1214,8 +1214,8 @@ class CRS
                                Array<std::array<OutType, Nrhs>> &     y) const {
     hif_error_if(nrows() != y.size() || ncols() != x.size(),
                  "matrix vector multiplication unmatched sizes!");
-    if (x.size() && y.size())
-      multiply_mrhs_nt_low<Nrhs>(x[0].data(), y[0].data());
+    if (y.size())
+      multiply_mrhs_nt_low<Nrhs>(x.size() ? x[0].data() : nullptr, y[0].data());
   }
 
   /// \brief matrix vector multiplication for MT (CRS only)
@@ -1236,8 +1236,8 @@ class CRS
                  nrows());
     hif_error_if(istart + len > nrows(),
                  "out-of-bound pass-of-end range detected");
-    if (x.size() && y.size())
-      multiply_mrhs_nt_low<Nrhs>(x[0].data(), istart, len, y[0].data());
+    if (y.size())
+      multiply_mrhs_nt_low<Nrhs>(x.size() ? x[0].data() : nullptr, istart, len, y[0].data());
   }
 
   /// \brief matrix transpose vector multiplication with different type
@@ -1319,8 +1319,8 @@ class CRS
                               Array<std::array<OutType, Nrhs>> &     y) const {
     hif_error_if(nrows() != x.size() || ncols() != y.size(),
                  "T(matrix) vector multiplication unmatched sizes!");
-    if (x.size() && y.size())
-      multiply_mrhs_t_low<Nrhs>(x[0].data(), y[0].data());
+    if (y.size())
+      multiply_mrhs_t_low<Nrhs>(x.size() ? x[0].data() : nullptr, y[0].data());
   }
 
   /// \brief matrix vector multiplication
@@ -2148,8 +2148,8 @@ class CCS
                                Array<std::array<OutType, Nrhs>> &     y) const {
     hif_error_if(nrows() != y.size() || ncols() != x.size(),
                  "matrix vector unmatched sizes!");
-    if (x.size() && y.size())
-      multiply_mrhs_nt_low<Nrhs>(x[0].data(), y[0].data());
+    if (y.size())
+      multiply_mrhs_nt_low<Nrhs>(x.size() ? x[0].data() : nullptr, y[0].data());
   }
 
   /// \brief matrix transpose vector multiplication with different type
@@ -2230,8 +2230,8 @@ class CCS
                               Array<std::array<OutType, Nrhs>> &     y) const {
     hif_error_if(nrows() != x.size() || ncols() != y.size(),
                  "T(matrix) vector unmatched sizes!");
-    if (x.size() && y.size())
-      multiply_mrhs_t_low<Nrhs>(x[0].data(), y[0].data());
+    if (y.size())
+      multiply_mrhs_t_low<Nrhs>(x.size() ? x[0].data() : nullptr, y[0].data());
   }
 
   /// \brief matrix vector multiplication
-- 
2.43.0


From 4ef3ee5703814d6c6cd9a3f8d5dbafab729264ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 04/38] fix: cover every row and entry in the transposed
 multi-RHS lower solves

---
 src/hif/ds/CompressedStorage.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index ba38d40..46f9696 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1430,7 +1430,7 @@ class CRS
     using rev_v_iterator = std::reverse_iterator<const_v_iterator>;
 
     std::array<InOutType, Nrhs> tmp;
-    for (size_type j(_ncols - 1); j != 0u; --j) {
+    for (size_type j(_ncols); j != 0u; --j) {
       const auto j1 = j - 1;
       for (size_type k(0); k < Nrhs; ++k) tmp[k] = y[j1][k];
       auto itr   = rev_iterator(col_ind_cend(j1));
@@ -2341,7 +2341,7 @@ class CCS
       auto            itr   = row_ind_cbegin(j1);
       auto            v_itr = _base::val_cbegin(j1);
       tmp.fill(v_t(0));
-      for (auto last = row_ind_cbegin(j1); itr != last; ++itr, ++v_itr) {
+      for (auto last = row_ind_cend(j1); itr != last; ++itr, ++v_itr) {
         const auto avc = conjugate(static_cast<v_t>(*v_itr));
         for (size_type k(0); k < Nrhs; ++k) tmp[k] += avc * y[*itr][k];
       }
-- 
2.43.0


From c50db0a608b487d9197770855506e80e0ed28c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 05/38] fix: triangular solves with an empty matrix do nothing
 instead of underflowing

---
 src/hif/ds/CompressedStorage.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 46f9696..a07761a 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1455,7 +1455,7 @@ class CRS
     using v_t =
         typename std::conditional<(sizeof(value_type_) < sizeof(value_type)),
                                   value_type, value_type_>::type;
-    hif_assert(_psize, "cannot be empty");
+    if (!_psize) return;  // nothing to solve
     for (size_type j = _psize - 1; j != 0u; --j) {
       const size_type j1    = j - 1;
       auto            itr   = col_ind_cbegin(j1);
@@ -1481,7 +1481,7 @@ class CRS
         typename std::conditional<(sizeof(InOutType) < sizeof(value_type)),
                                   value_type, InOutType>::type;
 
-    hif_assert(_psize, "cannot be empty");
+    if (!_psize) return;  // nothing to solve
     std::array<v_t, Nrhs> tmp;
     for (size_type j = _psize - 1; j != 0u; --j) {
       const size_type j1    = j - 1;
@@ -2311,6 +2311,7 @@ class CCS
         typename std::conditional<(sizeof(value_type_) < sizeof(value_type)),
                                   value_type, value_type_>::type;
 
+    if (!_nrows) return;  // nothing to solve
     for (size_type j = _nrows - 1; j != 0u; --j) {
       const size_type j1    = j - 1;
       auto            itr   = row_ind_cbegin(j1);
@@ -2335,6 +2336,7 @@ class CCS
         typename std::conditional<(sizeof(InOutType) < sizeof(value_type)),
                                   value_type, InOutType>::type;
 
+    if (!_nrows) return;  // nothing to solve
     std::array<v_t, Nrhs> tmp;
     for (size_type j = _nrows - 1; j != 0u; --j) {
       const size_type j1    = j - 1;
@@ -2359,6 +2361,7 @@ class CCS
     using rev_iterator   = std::reverse_iterator<const_i_iterator>;
     using rev_v_iterator = std::reverse_iterator<const_v_iterator>;
 
+    if (!_psize) return;  // nothing to solve
     for (size_type j(_psize - 1); j != 0u; --j) {
       const auto y_j   = y[j];
       auto       itr   = rev_iterator(row_ind_cend(j));
@@ -2380,6 +2383,7 @@ class CCS
     using rev_iterator   = std::reverse_iterator<const_i_iterator>;
     using rev_v_iterator = std::reverse_iterator<const_v_iterator>;
 
+    if (!_psize) return;  // nothing to solve
     std::array<InOutType, Nrhs> tmp;
     for (size_type j(_psize - 1); j != 0u; --j) {
       tmp        = y[j];
-- 
2.43.0


From b076e73d409779c8318963abc3fa0ea97286b7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 06/38] fix: a leading block without entries is empty, not a
 memory allocation failure

---
 src/hif/ds/CompressedStorage.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index a07761a..2df929e 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -620,15 +620,13 @@ class CompressedStorage {
       nz += (last - ind_cbegin(i));
     }
     indices.resize(nz);
-    if (nz) {
-      hif_error_if(indices.status() == DATA_UNDEF, "memory allocation failed");
-      indptr.front() = 0;
-      auto itr       = indices.begin();
-      for (size_type i(0); i < m; ++i) {
-        auto last     = _indices.cbegin() + indptr[i + 1];
-        itr           = std::copy(ind_cbegin(i), last, itr);
-        indptr[i + 1] = indptr[i] + (last - ind_cbegin(i));
-      }
+    hif_error_if(nz && indices.status() == DATA_UNDEF,
+                 "memory allocation failed");
+    auto itr = indices.begin();
+    for (size_type i(0); i < m; ++i) {
+      auto last     = _indices.cbegin() + indptr[i + 1];
+      itr           = std::copy(ind_cbegin(i), last, itr);
+      indptr[i + 1] = indptr[i] + (last - ind_cbegin(i));
     }
   }
 
@@ -641,7 +639,8 @@ class CompressedStorage {
                                iarray_type &indices, array_type &vals) const {
     _extract_leading_struct(m, indptr, indices);
     vals.resize(indices.size());
-    hif_error_if(vals.status() == DATA_UNDEF, "memory allocation failed");
+    hif_error_if(indices.size() && vals.status() == DATA_UNDEF,
+                 "memory allocation failed");
     auto v_itr = vals.begin();
     for (size_type i(0); i < m; ++i)
       v_itr = std::copy_n(val_cbegin(i), indptr[i + 1] - indptr[i], v_itr);
-- 
2.43.0


From a9e96187d65f6e01b166b50afb1ed3dffbd397c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 07/38] fix: check the block bound before reading the mask of
 an index outside of it

---
 src/hif/pre/matching_scaling.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/pre/matching_scaling.hpp b/src/hif/pre/matching_scaling.hpp
index f005e52..7bb3607 100644
--- a/src/hif/pre/matching_scaling.hpp
+++ b/src/hif/pre/matching_scaling.hpp
@@ -269,7 +269,7 @@ inline CcsType compute_leading_block(const CcsType &A, const CrsType &A_crs,
                   last = A_crs.col_ind_cend(row);
              itr != last; ++itr) {
           const size_type ind = q.inv(*itr);
-          if (!masks[ind] && ind < m) {
+          if (ind < m && !masks[ind]) {
             masks[ind] = true;
             buf[nnz++] = ind;
           }
@@ -303,7 +303,7 @@ inline CcsType compute_leading_block(const CcsType &A, const CrsType &A_crs,
       for (auto itr = A_crs.col_ind_cbegin(row), last = A_crs.col_ind_cend(row);
            itr != last; ++itr) {
         const size_type ind = q.inv(*itr);
-        if (!masks[ind] && ind < m) {
+        if (ind < m && !masks[ind]) {
           masks[ind] = true;
           *i_itr++   = ind;
         }
-- 
2.43.0


From 0c532b9e5bb1c923eff00f8d7ac36b776339db12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 08/38] fix: give RCM a symmetric graph also in the symmetric
 preprocessing

---
 src/hif/pre/matching_scaling.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hif/pre/matching_scaling.hpp b/src/hif/pre/matching_scaling.hpp
index 7bb3607..7b4a9de 100644
--- a/src/hif/pre/matching_scaling.hpp
+++ b/src/hif/pre/matching_scaling.hpp
@@ -441,8 +441,10 @@ inline std::pair<CcsType, typename CcsType::size_type> do_maching(
   return_type BB;
   if (compute_perm && m) {
     p.build_inv();
-    // to see if we need to build A^T+A pattern
-    const bool build_apat = !IsSymm && opts.reorder == REORDER_RCM;
+    // to see if we need to build A^T+A pattern, which RCM requires. Notice that
+    // the symmetric preprocessing is also used for nearly symmetric patterns
+    const bool build_apat = opts.reorder == REORDER_RCM ||
+                            (IsSymm && opts.reorder == REORDER_AUTO);
     if (build_apat) q.build_inv();
     BB = internal::compute_leading_block(A, A_crs, m, p, q, build_apat);
   }
-- 
2.43.0


From 9af14127cd700a6c72063fbbbd531d8a45bba6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 09/38] fix: an array whose copy could not be allocated is
 empty

---
 src/hif/ds/Array.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index a63dea3..72dbb58 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -160,10 +160,10 @@ class Array {
       if (!_data) {
         _size = _cap = 0u;
         _status      = DATA_UNDEF;
-      } else {
-        std::copy_n(data, n, _data);
-        _status = DATA_OWN;
+        return;
       }
+      std::copy_n(data, n, _data);
+      _status = DATA_OWN;
     } else {
       _data   = data;
       _status = DATA_WRAP;
-- 
2.43.0


From 13c164def54abd67b2a6843f6c9add7fe119c5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:36 +0000
Subject: [PATCH 10/38] fix: array assignment compares objects instead of data
 pointers, copying a moved array is safe

---
 src/hif/ds/Array.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index 72dbb58..d4ee6c7 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -219,8 +219,8 @@ class Array {
       _size   = other._size;
       _cap    = other._cap;
       _status = other._status;
-      // increment the counter
-      _counts->inc();
+      // increment the counter, a moved array doesn't have one
+      if (_counts) _counts->inc();
     } else {
       // deep copy
       _counts = new _RefCount();
@@ -258,7 +258,7 @@ class Array {
   /// \param[in] other rhs Array
   /// \return lvalue reference of \a this
   Array& operator=(const Array& other) {
-    if (_data != other._data) {
+    if (this != &other) {
       // first, deallocate this
       this->~Array();
       _data   = other._data;
@@ -266,7 +266,7 @@ class Array {
       _cap    = other._cap;
       _status = other._status;
       _counts = other._counts;
-      _counts->inc();
+      if (_counts) _counts->inc();
     }
     return *this;
   }
@@ -275,7 +275,7 @@ class Array {
   /// \param[in] other rhs temp Array
   /// \return lvalue reference of \a this
   Array& operator=(Array&& other) {
-    if (_data != other._data) {
+    if (this != &other) {
       // call destructor
       this->~Array();
       _data   = other._data;
-- 
2.43.0


From 61420f09882b3297957528ef759bc4daf41a8c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 11/38] fix: matrix validity check reads only the given arrays
 and wrapped matrices are fully checked

---
 src/hif/ds/CompressedStorage.hpp | 58 +++++---------------------------
 1 file changed, 8 insertions(+), 50 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 2df929e..97294c3 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -206,6 +206,11 @@ class CompressedStorage {
             pname, pname, nnz(), _indices.size(), _vals.size());
       // check each entry
       for (size_type i = 0u; i < _psize; ++i) {
+        hif_error_if(_ind_start[i + 1] < _ind_start[i] ||
+                         _ind_start[i + 1] > _ind_start[_psize] ||
+                         size_type(_ind_start[i + 1]) > _indices.size(),
+                     "invalid %s start array in %s %zd (C-based)", pname, pname,
+                     i);
         hif_error_if(!std::is_sorted(_ind_cbegin(i), _ind_cend(i),
                                      [](const index_type l,
                                         const index_type r) { return l <= r; }),
@@ -1758,13 +1763,12 @@ using CSR = CRS<ValueType, IndexType, IndPtrType>;
 /// \warning It's the user's responsibility to maintain the external data
 /// \ingroup ds
 template <class ValueType, class IndexType, class IndPtrType>
-inline CRS<ValueType, IndexType> wrap_const_crs(
+inline CRS<ValueType, IndexType, IndPtrType> wrap_const_crs(
     const typename CRS<ValueType, IndexType, IndPtrType>::size_type nrows,
     const typename CRS<ValueType, IndexType, IndPtrType>::size_type ncols,
     const IndPtrType *row_start, const IndexType *col_ind,
     const ValueType *vals, bool check = true) {
   using return_type = CRS<ValueType, IndexType, IndPtrType>;
-  using size_type   = typename CRS<ValueType, IndexType, IndPtrType>::size_type;
   constexpr static bool WRAP = true;
   static_assert(std::is_integral<IndexType>::value, "must be integer");
   static_assert(std::is_integral<IndPtrType>::value, "must be integer");
@@ -1775,29 +1779,7 @@ inline CRS<ValueType, IndexType> wrap_const_crs(
                   const_cast<IndexType *>(col_ind),
                   const_cast<ValueType *>(vals), WRAP);
 
-  if (check) {
-    if (row_start[0] != 0)
-      hif_error("first entry of row_start does not agree with 0.");
-    for (size_type i = 0u; i < nrows; ++i) {
-      if (!mat.nnz_in_row(i)) {
-#ifdef HIF_DEBUG
-        hif_warning("row %zd is empty!", i);
-#endif
-        continue;
-      }
-      auto last = mat.col_ind_cend(i), first = mat.col_ind_cbegin(i);
-      auto itr = std::is_sorted_until(
-          first, last,
-          [](const IndexType i, const IndexType j) { return i <= j; });
-      if (itr != last)
-        hif_error("%zd row is not sorted, the checking failed at entry %td", i,
-                  itr - first);
-      else
-        hif_error_if(size_type(*(last - 1)) >= mat.ncols(),
-                     "%zd exceeds column size %zd", size_type(*(last - 1)),
-                     mat.ncols());
-    }
-  }
+  if (check) mat.check_validity();
   return mat;
 }
 
@@ -2669,7 +2651,6 @@ inline CCS<ValueType, IndexType, IndPtrType> wrap_const_ccs(
     const IndPtrType *col_start, const IndexType *row_ind,
     const ValueType *vals, bool check = true) {
   using return_type = CCS<ValueType, IndexType, IndPtrType>;
-  using size_type   = typename CCS<ValueType, IndexType, IndPtrType>::size_type;
   constexpr static bool WRAP = true;
   static_assert(std::is_integral<IndexType>::value, "must be integer");
   static_assert(std::is_integral<IndPtrType>::value, "must be integer");
@@ -2680,30 +2661,7 @@ inline CCS<ValueType, IndexType, IndPtrType> wrap_const_ccs(
                   const_cast<IndexType *>(row_ind),
                   const_cast<ValueType *>(vals), WRAP);
 
-  if (check) {
-    if (col_start[0] != 0)
-      hif_error("first entry of row_start does not agree with 0.");
-    Array<ValueType> buf;
-    for (size_type i = 0u; i < nrows; ++i) {
-      if (!mat.nnz_in_col(i)) {
-#ifdef HIF_DEBUG
-        hif_warning("row %zd is empty!", i);
-#endif
-        continue;
-      }
-      auto last = mat.row_ind_cend(i), first = mat.row_ind_cbegin(i);
-      auto itr = std::is_sorted_until(
-          first, last,
-          [](const IndexType i, const IndexType j) { return i <= j; });
-      if (itr != last)
-        hif_error("%zd row is not sorted, the checking failed at entry %td", i,
-                  itr - first);
-      else
-        hif_error_if(size_type(*(last - 1)) >= mat.nrows(),
-                     "%zd exceeds row size %zd", size_type(*(last - 1)),
-                     mat.nrows());
-    }
-  }
+  if (check) mat.check_validity();
   return mat;
 }
 
-- 
2.43.0


From da0cef4c26155cdb1375a43fe485ff534412f8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:18 +0000
Subject: [PATCH 12/38] fix: assembling a coordinate matrix without entries is
 not a memory allocation failure

---
 src/hif/utils/coo2compress.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hif/utils/coo2compress.hpp b/src/hif/utils/coo2compress.hpp
index 1d52102..d61a690 100644
--- a/src/hif/utils/coo2compress.hpp
+++ b/src/hif/utils/coo2compress.hpp
@@ -76,9 +76,10 @@ inline void convert_coo2cs(const std::size_t       primary_size,
 
   // assemble to compressed storage
   indices.resize(nnz);
-  hif_error_if(indices.status() == DATA_UNDEF, "memory allocation failed");
+  hif_error_if(nnz && indices.status() == DATA_UNDEF,
+               "memory allocation failed");
   vals.resize(nnz);
-  hif_error_if(vals.status() == DATA_UNDEF, "memory allocation failed");
+  hif_error_if(nnz && vals.status() == DATA_UNDEF, "memory allocation failed");
   for (size_type i(0); i < nnz; ++i) {
     const auto pos = ind_start[pidx[i]];
     indices[pos]   = sids[i];
-- 
2.43.0


From bfcdfa468b6af62b18f1198605aed729ec354a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:18 +0000
Subject: [PATCH 13/38] fix: permuting an empty matrix is not a memory
 allocation failure

---
 src/hif/ds/CompressedStorage.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 97294c3..dc3021f 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -562,7 +562,8 @@ class CompressedStorage {
     const size_type psize = OnlyLeading ? leading : m;
     if (DoValue) {
       buf.resize(OnlyLeading ? leading : n);
-      hif_error_if(buf.status() == DATA_UNDEF, "memory allocation failed");
+      hif_error_if((OnlyLeading ? leading : n) && buf.status() == DATA_UNDEF,
+                   "memory allocation failed");
     }
     indptr.resize(psize + 1);
     hif_error_if(indptr.status() == DATA_UNDEF, "memory allocation failed");
-- 
2.43.0


From 28521ef6073c6e426a862d439deaeb60cf8d4f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:18 +0000
Subject: [PATCH 14/38] fix: prune applies the threshold to the largest entry
 once

---
 src/hif/ds/CompressedStorage.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index dc3021f..9b9a139 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -683,7 +683,7 @@ class CompressedStorage {
       std::fill_n(buf.begin(), n, scalar_type(0));
       // determine the thresholds for the orthogonal direction
       for (size_type i(0); i < nz; ++i)
-        buf[_indices[i]] = eps * std::max(buf[_indices[i]], std::abs(_vals[i]));
+        buf[_indices[i]] = std::max(buf[_indices[i]], std::abs(_vals[i]));
       for (size_type i(0); i < psize; ++i) {
         const size_type j_bak(j);
         auto            v_itr = v_itr_first + pos;
@@ -699,7 +699,7 @@ class CompressedStorage {
                   }));
           auto i_itr2 = i_itr;
           for (auto itr = v_itr; itr != last; ++itr, ++i_itr2)
-            if (!(std::abs(*itr) <= std::min(thres, buf[*i_itr2]))) {
+            if (!(std::abs(*itr) <= std::min(thres, eps * buf[*i_itr2]))) {
               _indices[j] = *i_itr2;
               _vals[j++]  = *itr;
             }
-- 
2.43.0


From 09f01e16a3bd2a7d148c9f19e65264498aae40a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:45 +0000
Subject: [PATCH 15/38] fix: multi-RHS preconditioner solve copied the trailing
 block the wrong way

---
 src/hif/alg/prec_solve.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/alg/prec_solve.hpp b/src/hif/alg/prec_solve.hpp
index 74f177c..cd19d6c 100644
--- a/src/hif/alg/prec_solve.hpp
+++ b/src/hif/alg/prec_solve.hpp
@@ -487,14 +487,14 @@ inline void prec_solve_mrhs(PrecItr prec_itr,
     auto work_next = work_array_type(nm, &work[n], WRAP);
     auto work_b    = work_array_type(nm, &work[0] + m, WRAP);
     for (size_type i(0); i < nm; ++i)
-      for (size_type k(0); k < Nrhs; ++k) y_mn[i][k] = work_b[i][k];
+      for (size_type k(0); k < Nrhs; ++k) work_b[i][k] = y_mn[i][k];
     // rec call, note that y_mn should store the solution
     prec_solve_mrhs(++prec_itr, work_b, last_dim, y_mn, work_next);
   }
 
   // copy y(m+1:n) to work(m+1:n)
   for (size_type i(m); i < n; ++i)
-    for (size_type k(0); k < Nrhs; ++k) y[i][k] = work[i][k];
+    for (size_type k(0); k < Nrhs; ++k) work[i][k] = y[i][k];
 
   // only handle the F part if it's not empty
   if (prec.F.ncols()) {
-- 
2.43.0


From cb98d85eb2ad189ad50e175ad51ef078c6887b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:45 +0000
Subject: [PATCH 16/38] fix: grow solve work space when a multi-RHS solve
 follows a single one

---
 src/hif/builder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index aa23a49..8c18730 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -438,7 +438,7 @@ class HIF {
     hif_error_if(b.size() != x.size(), "unmatched sizes");
     hif_error_if(nsp, "multiple RHS does not support null space filter.");
     const auto nw = compute_prec_work_space(_precs.cbegin(), _precs.cend());
-    if (_prec_work.empty()) _prec_work.resize(nw * Nrhs);
+    if (_prec_work.size() < nw * Nrhs) _prec_work.resize(nw * Nrhs);
     Array<std::array<boost_value_type, Nrhs>> w(
         nw, (std::array<boost_value_type, Nrhs> *)_prec_work.data(), true);
     prec_solve_mrhs(_precs.cbegin(), b, r, x, w);
-- 
2.43.0


From f533dcbae8161bae902fef2d3ebcef7bd16775c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:00 +0000
Subject: [PATCH 17/38] fix: LUP transposed solves use the conjugate transpose,
 as its products do

---
 src/hif/small_scale/LUP.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/small_scale/LUP.hpp b/src/hif/small_scale/LUP.hpp
index 0c7d93e..5743baa 100644
--- a/src/hif/small_scale/LUP.hpp
+++ b/src/hif/small_scale/LUP.hpp
@@ -140,7 +140,7 @@ class LUP {
         "either the matrix is not set or the factorization has not yet done!");
     hif_error_if(x.size() != _mat.nrows(),
                  "unmatched sizes between system and rhs");
-    if (lapack_kernel::getrs(_mat, _ipiv, x, tran ? 'T' : 'N') < 0)
+    if (lapack_kernel::getrs(_mat, _ipiv, x, tran ? 'C' : 'N') < 0)
       hif_error("GETRS returned negative info!");
   }
 
@@ -166,7 +166,7 @@ class LUP {
     _mrhs.resize(x.size(), Nrhs);
     for (size_type j = 0; j < Nrhs; ++j)
       for (size_type i(0); i < x.size(); ++i) _mrhs(i, j) = x[i][j];
-    if (lapack_kernel::getrs(_mat, _ipiv, _mrhs, tran ? 'T' : 'N') < 0)
+    if (lapack_kernel::getrs(_mat, _ipiv, _mrhs, tran ? 'C' : 'N') < 0)
       hif_error("GETRS returned negative info!");
     for (size_type j = 0; j < Nrhs; ++j)
       for (size_type i(0); i < x.size(); ++i) x[i][j] = _mrhs(i, j);
-- 
2.43.0


From 7592bc0dc2a8a4555986c91cbe9cd4166658d48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:00 +0000
Subject: [PATCH 18/38] fix: QRCP reports rank zero for a zero block

---
 src/hif/small_scale/QRCP.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hif/small_scale/QRCP.hpp b/src/hif/small_scale/QRCP.hpp
index f8b8644..fd172bc 100644
--- a/src/hif/small_scale/QRCP.hpp
+++ b/src/hif/small_scale/QRCP.hpp
@@ -159,9 +159,10 @@ class QRCP {
         do_cond_test = true;
         break;
       }
-    // initial rank to be full rank
-    _rank = _mat.ncols();
-    if (do_cond_test) {
+    // initial rank to be full rank, unless the pivoted R is identically zero,
+    // in which case neither of the relative tests below can tell
+    _rank = _mat[0] == value_type(0) ? size_type(0) : _mat.ncols();
+    if (_rank && do_cond_test) {
 #ifdef HIF_TQRCP_USE_1NORM
       static const char *nrm_sig = "1";
       _est_rank(cond_thres <= 0.0 ? cond_tol : scalar_type(cond_thres));
-- 
2.43.0


From 25aba88b913a6c4fc447e9bda2cfb7fd0f391f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:35 +0000
Subject: [PATCH 19/38] fix: SYEIG keeps the dominant eigenvalues of definite
 blocks and truncates the others

---
 src/hif/small_scale/SYEIG.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hif/small_scale/SYEIG.hpp b/src/hif/small_scale/SYEIG.hpp
index b259604..9074254 100644
--- a/src/hif/small_scale/SYEIG.hpp
+++ b/src/hif/small_scale/SYEIG.hpp
@@ -139,18 +139,20 @@ class SYEIG {
                                   return std::abs(a) < std::abs(b);
                                 });
     _rank = n;
+    // NOTE that ?syev returns the eigenvalues in ascending order, and that the
+    // leading _rank entries in the truncation order are kept
     if (opts.spd > 0) {
       // ensure pd-ness
-      for (int i(n - 1); i > -1; --i)
+      // reverse the order for truncations, i.e., largest eigenvalue comes first
+      std::reverse(_trunc_order.begin(), _trunc_order.end());
+      for (size_type i(0); i < n; ++i)
         if (_w[i] <= 0.0 || std::abs(_w[i]) <= thres)
           --_rank;
         else
           break;
     } else if (opts.spd < 0) {
       // ensure nd-ness
-      // reverse the order for truncations
-      std::reverse(_trunc_order.begin(), _trunc_order.end());
-      for (size_type i(0); i < n; ++i)
+      for (int i(n - 1); i > -1; --i)
         if (_w[i] >= 0.0 || std::abs(_w[i]) <= thres)
           --_rank;
         else
-- 
2.43.0


From 8bb9b985978605af848a6fb620c7c8b4b2d87edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:30 +0000
Subject: [PATCH 20/38] fix: SYEIG addresses the i-th right-hand side in its
 multiple right-hand side kernels

---
 src/hif/small_scale/SYEIG.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hif/small_scale/SYEIG.hpp b/src/hif/small_scale/SYEIG.hpp
index 9074254..0b8ddb2 100644
--- a/src/hif/small_scale/SYEIG.hpp
+++ b/src/hif/small_scale/SYEIG.hpp
@@ -236,7 +236,7 @@ class SYEIG {
     for (size_type i = 0; i < Nrhs; ++i) {
       // step 1, compute y=Q^T*x
       lapack_kernel::gemv('C', _mat.nrows(), _mat.ncols(), value_type(1),
-                          _mat.data(), _mat.nrows(), &_mrhs(0, i * Nrhs),
+                          _mat.data(), _mat.nrows(), &_mrhs(0, i),
                           value_type(0), _work.data());
       // step 2, solve inv(lambda)*y with truncation
       for (size_type i(0); i < rk; ++i)
@@ -245,7 +245,7 @@ class SYEIG {
       // step 3, compute x=Q*y
       lapack_kernel::gemv('N', _mat.nrows(), _mat.ncols(), value_type(1),
                           _mat.data(), _mat.nrows(), _work.data(),
-                          value_type(0), &_mrhs(0, i * Nrhs));
+                          value_type(0), &_mrhs(0, i));
     }
     // copy back to the application
     for (int j = 0; j < Nrhs; ++j)
@@ -302,7 +302,7 @@ class SYEIG {
     for (size_type i = 0; i < Nrhs; ++i) {
       // step 1, compute y=Q^T*x
       lapack_kernel::gemv('C', _mat.nrows(), _mat.ncols(), value_type(1),
-                          _mat.data(), _mat.nrows(), &_mrhs(0, i * Nrhs),
+                          _mat.data(), _mat.nrows(), &_mrhs(0, i),
                           value_type(0), _work.data());
       // step 2, compute lambda*y with truncation
       for (size_type i(0); i < rk; ++i)
@@ -311,7 +311,7 @@ class SYEIG {
       // step 3, compute x=Q*y
       lapack_kernel::gemv('N', _mat.nrows(), _mat.ncols(), value_type(1),
                           _mat.data(), _mat.nrows(), _work.data(),
-                          value_type(0), &_mrhs(0, i * Nrhs));
+                          value_type(0), &_mrhs(0, i));
     }
     // copy back to the application
     for (int j = 0; j < Nrhs; ++j)
-- 
2.43.0


From 150892e7356c07a6692d0abc21b6ddacda6215ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:01 +0000
Subject: [PATCH 21/38] fix: SYEIG truncation threshold is a magnitude, also if
 the dominant eigenvalue is negative

---
 src/hif/small_scale/SYEIG.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hif/small_scale/SYEIG.hpp b/src/hif/small_scale/SYEIG.hpp
index 0b8ddb2..60ea4b6 100644
--- a/src/hif/small_scale/SYEIG.hpp
+++ b/src/hif/small_scale/SYEIG.hpp
@@ -134,10 +134,11 @@ class SYEIG {
     _trunc_order.resize(n);
     std::iota(_trunc_order.begin(), _trunc_order.end(), 0);
     const scalar_type thres =
-        EPS * *std::max_element(_w.cbegin(), _w.cend(),
-                                [](const value_type a, const value_type b) {
-                                  return std::abs(a) < std::abs(b);
-                                });
+        EPS *
+        std::abs(*std::max_element(_w.cbegin(), _w.cend(),
+                                   [](const value_type a, const value_type b) {
+                                     return std::abs(a) < std::abs(b);
+                                   }));
     _rank = n;
     // NOTE that ?syev returns the eigenvalues in ascending order, and that the
     // leading _rank entries in the truncation order are kept
-- 
2.43.0


From 97a638e321036025a6fca8a3ebe355f69c75f211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:40 +0000
Subject: [PATCH 22/38] fix: operator>> for Options reads the pivot parameter

---
 src/hif/Options.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/Options.h b/src/hif/Options.h
index ffb8550..66ebf69 100644
--- a/src/hif/Options.h
+++ b/src/hif/Options.h
@@ -568,8 +568,8 @@ inline InStream &operator>>(InStream &in_str, hif::Options &opt) {
       opt.alpha_U >> opt.rho >> opt.c_d >> opt.c_h >> opt.N >> opt.verbose >>
       opt.rf_par >> opt.reorder >> opt.spd >> opt.check >> opt.pre_scale >>
       opt.symm_pre_lvls >> opt.threads >> opt.mumps_blr >> opt.fat_schur_1st >>
-      opt.rrqr_cond >> opt.gamma >> opt.beta >> opt.is_symm >> opt.no_pre >>
-      opt.nzp_thres >> opt.dense_thres;
+      opt.rrqr_cond >> opt.pivot >> opt.gamma >> opt.beta >> opt.is_symm >>
+      opt.no_pre >> opt.nzp_thres >> opt.dense_thres;
   return in_str;
 }
 
-- 
2.43.0


From 8ad1637b6b9226f9896fac7857eed87ce842a3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:54 +0000
Subject: [PATCH 23/38] fix: number of nonzeros of an unset C matrix handle is
 zero

---
 libhifir/src/libhifir.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index d59d310..01cdacb 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -335,7 +335,8 @@ size_t lhfdGetMatrixSize(const LhfdMatrixHdl mat) {
 
 // get nnz
 size_t lhfdGetMatrixNnz(const LhfdMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -553,7 +554,8 @@ size_t lhfsGetMatrixSize(const LhfsMatrixHdl mat) {
 
 // get nnz
 size_t lhfsGetMatrixNnz(const LhfsMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -773,7 +775,8 @@ size_t lhfzGetMatrixSize(const LhfzMatrixHdl mat) {
 
 // get nnz
 size_t lhfzGetMatrixNnz(const LhfzMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -998,7 +1001,8 @@ size_t lhfcGetMatrixSize(const LhfcMatrixHdl mat) {
 
 // get nnz
 size_t lhfcGetMatrixNnz(const LhfcMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
-- 
2.43.0


From 773f68566889509bed5a04660ac2a757b0efa013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:29 +0000
Subject: [PATCH 24/38] fix: lhfQueryMmFile returns an error status on
 malformed files and sizes as documented

---
 libhifir/src/libhifir.cpp | 25 +++++++++++++++----------
 src/hif/utils/io.hpp      |  5 ++++-
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 01cdacb..8dcd9ec 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -275,16 +275,21 @@ LhfStatus lhfQueryMmFile(const char *fname, int *is_sparse, int *is_real,
   if (!f) return LHF_NULL_OBJ;
   bool is_sparse2, is_real2;
   int  type_id;
-  // parse the first line
-  hif::internal::mm_read_firstline(f, is_sparse2, is_real2, type_id);
-  *is_sparse = is_sparse2;
-  *is_real   = is_real2;
-  (void)type_id;  // not used
-  if (is_sparse2)
-    hif::internal::mm_read_sparse_size(f, *nrows, *ncols, *nnz);
-  else {
-    *nnz = 0u;
-    hif::internal::mm_read_dense_size(f, *nrows, *ncols);
+  // NOTE that the internal routines close the file upon errors
+  try {
+    // parse the first line
+    hif::internal::mm_read_firstline(f, is_sparse2, is_real2, type_id);
+    *is_sparse = is_sparse2;
+    *is_real   = is_real2;
+    (void)type_id;  // not used
+    if (is_sparse2)
+      hif::internal::mm_read_sparse_size(f, *nrows, *ncols, *nnz);
+    else {
+      hif::internal::mm_read_dense_size(f, *nrows, *ncols);
+      *ncols = *nnz = 0u;
+    }
+  } catch (const std::exception &e) {
+    _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
   std::fclose(f);
   return LHF_SUCCESS;
diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 44436d8..5ba7ab5 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -627,7 +627,10 @@ inline void mm_read_firstline(std::FILE *f, bool &is_sparse, bool &is_real,
   char storage_scheme[65];
 
   // read the first line
-  if (!std::fgets(line, 1025, f)) hif_error("unable to read the first line");
+  if (!std::fgets(line, 1025, f)) {
+    std::fclose(f);
+    hif_error("unable to read the first line");
+  }
   if (std::sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type,
                   storage_scheme) != 5) {
     std::fclose(f);
-- 
2.43.0


From a7f7bb7e3046fd6a486bc87178ff62c9893258ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:08 +0000
Subject: [PATCH 25/38] fix: C apply functions honour the given rank without
 refinement too

---
 libhifir/src/libhifir.cpp | 44 +++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 8dcd9ec..dd586f7 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -147,25 +147,25 @@ static inline void factorize(PrecType &M, const MatHdlType mat,
 // solve implementation
 template <class PrecType, class ValueType>
 static inline void solve(PrecType &M, const ValueType *b, ValueType *x,
-                         const bool trans = false) {
+                         const bool trans = false, const int rank = 0) {
   using array_t              = hif::Array<ValueType>;
   static constexpr bool WRAP = true;
 
   const array_t rhs(M.nrows(), (ValueType *)b, WRAP);
   array_t       lhs(M.nrows(), x, WRAP);
-  M.solve(rhs, lhs, trans);
+  M.solve(rhs, lhs, trans, static_cast<std::size_t>(rank));
 }
 
 // multiplication implementation
 template <class PrecType, class ValueType>
 static inline void mmultiply(PrecType &M, const ValueType *b, ValueType *x,
-                             const bool trans = false) {
+                             const bool trans = false, const int rank = 0) {
   using array_t              = hif::Array<ValueType>;
   static constexpr bool WRAP = true;
 
   const array_t rhs(M.nrows(), (ValueType *)b, WRAP);
   array_t       lhs(M.nrows(), x, WRAP);
-  M.mmultiply(rhs, lhs, trans);
+  M.mmultiply(rhs, lhs, trans, static_cast<std::size_t>(rank));
 }
 
 template <class PrecType, class MatHdlType, class ValueType>
@@ -458,13 +458,13 @@ LhfStatus lhfdApply(const LhfdHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -679,13 +679,13 @@ LhfStatus lhfsApply(const LhfsHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -900,15 +900,15 @@ LhfStatus lhfzApply(const LhfzHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<double> *)b,
-                                 (std::complex<double> *)x, trans);
+                                 (std::complex<double> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<double> *)b,
-                             (std::complex<double> *)x, trans);
+                             (std::complex<double> *)x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -1123,15 +1123,15 @@ LhfStatus lhfcApply(const LhfcHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<float> *)b,
-                                 (std::complex<float> *)x, trans);
+                                 (std::complex<float> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<float> *)b,
-                             (std::complex<float> *)x, trans);
+                             (std::complex<float> *)x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -1206,13 +1206,13 @@ LhfStatus lhfsdApply(const LhfsHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       // Ad not A
       _LHF_CANNOT_ACCEPT_NULL(hif->Ad);
@@ -1256,15 +1256,15 @@ LhfStatus lhfczApply(const LhfcHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<double> *)b,
-                                 (std::complex<double> *)x, trans);
+                                 (std::complex<double> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<double> *)b,
-                             (std::complex<double> *)x, trans);
+                             (std::complex<double> *)x, trans, rnk);
     } else {
       // Az not A
       _LHF_CANNOT_ACCEPT_NULL(hif->Az);
-- 
2.43.0


From 2cf2c46e3ac6b6f922f5af3fc840a321d0302284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:08 +0000
Subject: [PATCH 26/38] fix: C functions refuse an unset matrix handle

---
 libhifir/src/libhifir.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index dd586f7..be06d36 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -97,6 +97,7 @@ static inline hif::Params create_params(const double params[]) {
 template <class ValueType, class MatHdlType>
 static inline LhfStatus mm_read_sparse(const char *fname, MatHdlType mat) {
   _LHF_CANNOT_ACCEPT_NULL(mat);
+  _LHF_CANNOT_ACCEPT_NULL(mat->indptr);
   if (mat->is_rowmajor) {
     using matrix_t = hif::CRS<ValueType, LhfInt, LhfIndPtr>;
     matrix_t A;
@@ -419,6 +420,7 @@ LhfStatus lhfdSetup(LhfdHifHdl hif, const LhfdMatrixHdl A,
   hif->A             = A ? A : S;
   LhfdMatrixHdl facA = S ? S : A;
   _LHF_CANNOT_ACCEPT_NULL(facA);
+  _LHF_CANNOT_ACCEPT_NULL(facA->indptr);
   try {
     libhifir_impl::factorize(*hif->M, facA, params);
   } catch (const std::exception &e) {
@@ -441,6 +443,7 @@ LhfStatus lhfdRefactorize(LhfdHifHdl hif, const LhfdMatrixHdl S,
                           const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
   _LHF_CANNOT_ACCEPT_NULL(S);
+  _LHF_CANNOT_ACCEPT_NULL(S->indptr);
   try {
     libhifir_impl::factorize(*hif->M, S, params);
   } catch (const std::exception &e) {
@@ -467,6 +470,7 @@ LhfStatus lhfdApply(const LhfdHifHdl hif, const LhfOperationType op,
         libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
+      _LHF_CANNOT_ACCEPT_NULL(hif->A->indptr);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
       libhifir_impl::hifir(*hif->M, hif->A, b, nirs, betas, trans, rnk, x,
                            ir_status);
@@ -640,6 +644,7 @@ LhfStatus lhfsSetup(LhfsHifHdl hif, const LhfsMatrixHdl A,
   LhfsMatrixHdl facA = S ? S : A;
   hif->Ad            = nullptr;
   _LHF_CANNOT_ACCEPT_NULL(facA);
+  _LHF_CANNOT_ACCEPT_NULL(facA->indptr);
   try {
     libhifir_impl::factorize(*hif->M, facA, params);
   } catch (const std::exception &e) {
@@ -662,6 +667,7 @@ LhfStatus lhfsRefactorize(LhfsHifHdl hif, const LhfsMatrixHdl S,
                           const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
   _LHF_CANNOT_ACCEPT_NULL(S);
+  _LHF_CANNOT_ACCEPT_NULL(S->indptr);
   try {
     libhifir_impl::factorize(*hif->M, S, params);
   } catch (const std::exception &e) {
@@ -688,6 +694,7 @@ LhfStatus lhfsApply(const LhfsHifHdl hif, const LhfOperationType op,
         libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
+      _LHF_CANNOT_ACCEPT_NULL(hif->A->indptr);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
       libhifir_impl::hifir(*hif->M, hif->A, b, nirs, betas, trans, rnk, x,
                            ir_status);
@@ -860,6 +867,7 @@ LhfStatus lhfzSetup(LhfzHifHdl hif, const LhfzMatrixHdl A,
   hif->A             = A ? A : S;
   LhfzMatrixHdl facA = S ? S : A;
   _LHF_CANNOT_ACCEPT_NULL(facA);
+  _LHF_CANNOT_ACCEPT_NULL(facA->indptr);
   try {
     libhifir_impl::factorize(*hif->M, facA, params);
   } catch (const std::exception &e) {
@@ -882,6 +890,7 @@ LhfStatus lhfzRefactorize(LhfzHifHdl hif, const LhfzMatrixHdl S,
                           const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
   _LHF_CANNOT_ACCEPT_NULL(S);
+  _LHF_CANNOT_ACCEPT_NULL(S->indptr);
   try {
     libhifir_impl::factorize(*hif->M, S, params);
   } catch (const std::exception &e) {
@@ -911,6 +920,7 @@ LhfStatus lhfzApply(const LhfzHifHdl hif, const LhfOperationType op,
                              (std::complex<double> *)x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
+      _LHF_CANNOT_ACCEPT_NULL(hif->A->indptr);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
       libhifir_impl::hifir(*hif->M, hif->A, (const std::complex<double> *)b,
                            nirs, betas, trans, rnk, (std::complex<double> *)x,
@@ -1083,6 +1093,7 @@ LhfStatus lhfcSetup(LhfcHifHdl hif, const LhfcMatrixHdl A,
   LhfcMatrixHdl facA = S ? S : A;
   hif->Az            = nullptr;
   _LHF_CANNOT_ACCEPT_NULL(facA);
+  _LHF_CANNOT_ACCEPT_NULL(facA->indptr);
   try {
     libhifir_impl::factorize(*hif->M, facA, params);
   } catch (const std::exception &e) {
@@ -1105,6 +1116,7 @@ LhfStatus lhfcRefactorize(LhfcHifHdl hif, const LhfcMatrixHdl S,
                           const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
   _LHF_CANNOT_ACCEPT_NULL(S);
+  _LHF_CANNOT_ACCEPT_NULL(S->indptr);
   try {
     libhifir_impl::factorize(*hif->M, S, params);
   } catch (const std::exception &e) {
@@ -1134,6 +1146,7 @@ LhfStatus lhfcApply(const LhfcHifHdl hif, const LhfOperationType op,
                              (std::complex<float> *)x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
+      _LHF_CANNOT_ACCEPT_NULL(hif->A->indptr);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
       libhifir_impl::hifir(*hif->M, hif->A, (const std::complex<float> *)b,
                            nirs, betas, trans, rnk, (std::complex<float> *)x,
@@ -1216,6 +1229,7 @@ LhfStatus lhfsdApply(const LhfsHifHdl hif, const LhfOperationType op,
     } else {
       // Ad not A
       _LHF_CANNOT_ACCEPT_NULL(hif->Ad);
+      _LHF_CANNOT_ACCEPT_NULL(hif->Ad->indptr);
       if (hif->M->nrows() != hif->Ad->n) return LHF_MISMATCHED_SIZES;
       libhifir_impl::hifir(*hif->M, hif->Ad, b, nirs, betas, trans, rnk, x,
                            ir_status);
@@ -1268,6 +1282,7 @@ LhfStatus lhfczApply(const LhfcHifHdl hif, const LhfOperationType op,
     } else {
       // Az not A
       _LHF_CANNOT_ACCEPT_NULL(hif->Az);
+      _LHF_CANNOT_ACCEPT_NULL(hif->Az->indptr);
       if (hif->M->nrows() != hif->Az->n) return LHF_MISMATCHED_SIZES;
       libhifir_impl::hifir(*hif->M, hif->Az, (const std::complex<double> *)b,
                            nirs, betas, trans, rnk, (std::complex<double> *)x,
-- 
2.43.0


From 98a8f95fff71bbda2b717b9e8b81f30c14def6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:34 +0000
Subject: [PATCH 27/38] fix: lhfcCreate checks the allocation of the
 preconditioner

---
 libhifir/src/libhifir.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index be06d36..0722a65 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -1068,6 +1068,10 @@ LhfcHifHdl lhfcCreate(const LhfcMatrixHdl A, const LhfcMatrixHdl S,
   LhfcHifHdl M = (LhfcHifHdl)std::malloc(sizeof(LhfcHif));
   if (!M) return nullptr;
   M->M = new (std::nothrow) hif::HIF<std::complex<float>, LhfInt, LhfIndPtr>();
+  if (!M->M) {
+    std::free(M);
+    return nullptr;
+  }
   const auto status = lhfcSetup(M, A, S, params);
   if (status == LHF_HIFIR_ERROR) {
     lhfcDestroy(M);
-- 
2.43.0


From 0a198c73f687c6dbfc3e2a92d32c88723ad154a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:22 +0000
Subject: [PATCH 28/38] fix: words of the first line of a MatrixMarket file no
 longer overrun their buffers

---
 src/hif/utils/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 5ba7ab5..e1e4752 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -631,7 +631,7 @@ inline void mm_read_firstline(std::FILE *f, bool &is_sparse, bool &is_real,
     std::fclose(f);
     hif_error("unable to read the first line");
   }
-  if (std::sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type,
+  if (std::sscanf(line, "%64s %64s %64s %64s %64s", banner, mtx, crd, data_type,
                   storage_scheme) != 5) {
     std::fclose(f);
     hif_error("insufficient number of tokens in the first line");
-- 
2.43.0


From b6b2283d4798acce9c65fc73415cc3c81eb4f0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:22 +0000
Subject: [PATCH 29/38] fix: MatrixMarket size lines that are no sizes are
 reported instead of looping forever or being taken as huge sizes

---
 src/hif/utils/io.hpp | 70 ++++++++++++++++----------------------------
 1 file changed, 26 insertions(+), 44 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index e1e4752..6234eec 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -47,6 +47,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #include <complex>
 #include <cstdint>
 #include <cstdio>
+#include <cstring>
 #include <fstream>
 #include <tuple>
 #include <type_traits>
@@ -687,6 +688,19 @@ inline void mm_read_firstline(std::FILE *f, bool &is_sparse, bool &is_real,
   }
 }
 
+/// \brief Internal routine to get the line of sizes
+/// \param[in] f File handle, closed if there is no such line
+/// \param[out] line Buffer of size 1025
+inline void mm_read_size_line(std::FILE *f, char *line) {
+  /* continue scanning until you reach the end-of-comments and empty lines */
+  do {
+    if (!std::fgets(line, 1025, f)) {
+      std::fclose(f);
+      hif_error("unable to read file");
+    }
+  } while (line[0] == '%' || line[std::strspn(line, " \t\r\n")] == '\0');
+}
+
 /// \brief Internal routine to read sizes
 inline void mm_read_sparse_size(std::FILE *f, std::size_t &nrows,
                                 std::size_t &ncols, std::size_t &nnz) {
@@ -694,30 +708,14 @@ inline void mm_read_sparse_size(std::FILE *f, std::size_t &nrows,
 
   nrows = ncols = nnz = 0u;
 
-  /* now continue scanning until you reach the end-of-comments */
-  do {
-    if (!std::fgets(line, 1025, f)) {
-      std::fclose(f);
-      hif_error("unable to read file");
-    }
-  } while (line[0] == '%');
-
-  int m, n, nz;
-  if (sscanf(line, "%d %d %d", &m, &n, &nz) == 3) {
-    nrows = m;
-    ncols = n;
-    nnz   = nz;
-    return;
-  }
+  mm_read_size_line(f, line);
 
-  int num_items_read;
-  do {
-    num_items_read = std::fscanf(f, "%d %d %d", &m, &n, &nz);
-    if (num_items_read == EOF) {
-      std::fclose(f);
-      hif_error("reached EOF!");
-    }
-  } while (num_items_read != 3);
+  long long m, n, nz;
+  if (std::sscanf(line, "%lld %lld %lld", &m, &n, &nz) != 3 || m < 0 || n < 0 ||
+      nz < 0) {
+    std::fclose(f);
+    hif_error("invalid sizes");
+  }
   nrows = m;
   ncols = n;
   nnz   = nz;
@@ -729,29 +727,13 @@ inline void mm_read_dense_size(std::FILE *f, std::size_t &nrows,
 
   nrows = ncols = 0u;
 
-  /* now continue scanning until you reach the end-of-comments */
-  do {
-    if (!std::fgets(line, 1025, f)) {
-      std::fclose(f);
-      hif_error("unable to read file");
-    }
-  } while (line[0] == '%');
+  mm_read_size_line(f, line);
 
-  int m, n;
-  if (sscanf(line, "%d %d", &m, &n) == 2) {
-    nrows = m;
-    ncols = n;
-    return;
+  long long m, n;
+  if (std::sscanf(line, "%lld %lld", &m, &n) != 2 || m < 0 || n < 0) {
+    std::fclose(f);
+    hif_error("invalid sizes");
   }
-
-  int num_items_read;
-  do {
-    num_items_read = std::fscanf(f, "%d %d", &m, &n);
-    if (num_items_read == EOF) {
-      std::fclose(f);
-      hif_error("reached EOF!");
-    }
-  } while (num_items_read != 2);
   nrows = m;
   ncols = n;
 }
-- 
2.43.0


From d9e96d9723948988bbe3fc6089524a95a9e958a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:22 +0000
Subject: [PATCH 30/38] fix: MatrixMarket entries outside of the matrix are
 reported instead of being written out of bounds

---
 src/hif/utils/io.hpp | 54 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 6234eec..41c089b 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -49,6 +49,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #include <cstdio>
 #include <cstring>
 #include <fstream>
+#include <limits>
 #include <tuple>
 #include <type_traits>
 
@@ -545,7 +546,8 @@ set_imag(const double i, V &x) {
 
 /// \brief Internal routine to read sparse data
 template <int TypeID, bool IsReal, class IndexType, class ValueType>
-inline void mm_read_sparse_data(std::FILE *f, const std::size_t nnz,
+inline void mm_read_sparse_data(std::FILE *f, const std::size_t nrows,
+                                const std::size_t ncols, const std::size_t nnz,
                                 Array<IndexType> &rows, Array<IndexType> &cols,
                                 Array<ValueType> &vals) {
   // type IDs
@@ -565,16 +567,27 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nnz,
     vals.resize(nnz);
   }
 
+  if (nnz && (rows.status() == DATA_UNDEF || cols.status() == DATA_UNDEF ||
+              vals.status() == DATA_UNDEF)) {
+    std::fclose(f);
+    hif_error("memory allocation failed");
+  }
+
   std::size_t index(0);
-  int         r, c;
+  long long   r, c;
   double      vr, vi;
   for (std::size_t i(0); i < nnz; ++i) {
-    const int flag = IsReal ? std::fscanf(f, "%d %d %lg", &r, &c, &vr)
-                            : std::fscanf(f, "%d %d %lg %lg", &r, &c, &vr, &vi);
+    const int flag = IsReal ? std::fscanf(f, "%lld %lld %lg", &r, &c, &vr)
+                            : std::fscanf(f, "%lld %lld %lg %lg", &r, &c, &vr, &vi);
     if (flag != 4 - IsReal) {
       std::fclose(f);
       hif_error("insufficient objects scanned from fscanf");
     }
+    if (r < 1 || c < 1 || (unsigned long long)r > nrows ||
+        (unsigned long long)c > ncols) {
+      std::fclose(f);
+      hif_error("entry (%lld,%lld) is out of the matrix", r, c);
+    }
     rows[index] = r - 1;  // to 0-based index
     cols[index] = c - 1;  // to 0-based index
     set_real(vr, vals[index]);
@@ -785,25 +798,42 @@ inline void read_mm_sparse(const char *filename, std::size_t &nrows,
   }
   std::size_t nnz;
   internal::mm_read_sparse_size(f, nrows, ncols, nnz);
+  if (type_id && nrows != ncols) {
+    std::fclose(f);
+    hif_error("a matrix with symmetric storage must be square");
+  }
+  if (nrows > (std::size_t)std::numeric_limits<IndexType>::max() ||
+      ncols > (std::size_t)std::numeric_limits<IndexType>::max()) {
+    std::fclose(f);
+    hif_error("matrix sizes exceed the range of the index type");
+  }
   // read data
   if (is_real) {
     if (type_id == 0)
-      internal::mm_read_sparse_data<0, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<0, true>(f, nrows, ncols, nnz, rows,
+                                                cols, vals);
     else if (type_id == 1)
-      internal::mm_read_sparse_data<1, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<1, true>(f, nrows, ncols, nnz, rows,
+                                                cols, vals);
     else if (type_id == 2)
-      internal::mm_read_sparse_data<2, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<2, true>(f, nrows, ncols, nnz, rows,
+                                                cols, vals);
     else
-      internal::mm_read_sparse_data<3, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<3, true>(f, nrows, ncols, nnz, rows,
+                                                cols, vals);
   } else {
     if (type_id == 0)
-      internal::mm_read_sparse_data<0, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<0, false>(f, nrows, ncols, nnz, rows,
+                                                cols, vals);
     else if (type_id == 1)
-      internal::mm_read_sparse_data<1, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<1, false>(f, nrows, ncols, nnz, rows,
+                                                cols, vals);
     else if (type_id == 2)
-      internal::mm_read_sparse_data<2, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<2, false>(f, nrows, ncols, nnz, rows,
+                                                cols, vals);
     else
-      internal::mm_read_sparse_data<3, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<3, false>(f, nrows, ncols, nnz, rows,
+                                                cols, vals);
   }
   std::fclose(f);
 }
-- 
2.43.0


From aac6be550254ce46ec26968d0cbd411f3839767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:22 +0000
Subject: [PATCH 31/38] fix: failing to write a MatrixMarket file is reported

---
 src/hif/utils/io.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 41c089b..99fe8be 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -900,6 +900,7 @@ inline void write_mm_vector(const char *filename, const Array<ValueType> &v) {
     f << '\n';
   }
   f.close();
+  hif_error_if(!f, "failed writing file %s", filename);
 }
 
 /// \brief Write a sparse matrix
@@ -953,6 +954,7 @@ inline void write_mm_sparse(const char *filename, const std::size_t other_size,
     }
   }
   f.close();
+  hif_error_if(!f, "failed writing file %s", filename);
 }
 
 /*!
-- 
2.43.0


From bd321fef7fb3612a25452c1ba6771f5871d39b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:22 +0000
Subject: [PATCH 32/38] fix: MatrixMarket header announces the number of
 entries that are written

---
 src/hif/utils/io.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 99fe8be..d957a93 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -939,7 +939,8 @@ inline void write_mm_sparse(const char *filename, const std::size_t other_size,
     << '.' << HIF_MINOR_VERSION << '\n';
   const std::size_t primary_size = ind_start.size() - 1;
   f << ' ' << (IsRowMajor ? primary_size : other_size) << ' '
-    << (IsRowMajor ? other_size : primary_size) << ' ' << vals.size() << '\n';
+    << (IsRowMajor ? other_size : primary_size) << ' '
+    << ind_start[primary_size] - ind_start[0] << '\n';
   f.setf(std::ios::scientific);
   f.precision(PREC);
   for (std::size_t i(0); i < primary_size; ++i) {
-- 
2.43.0


From ae1b354b5e8ef5668f99791f4aa74c3977634e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:22 +0000
Subject: [PATCH 33/38] fix: symmetric MatrixMarket files with diagonal entries
 only have no uninitialised entries

---
 src/hif/utils/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index d957a93..2f000c5 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -605,7 +605,7 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nrows,
       vals[index] = -vals[index - 1];
     ++index;
   }
-  if (index != nnz) {
+  if (index != rows.size()) {
     rows.resize(index);
     cols.resize(index);
     vals.resize(index);
-- 
2.43.0


From 67af58eeed5b7c9e0c05b77a10ee183390ff5243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:22 +0000
Subject: [PATCH 34/38] fix: MatrixMarket vectors too large for memory are
 reported instead of written through a null pointer

---
 src/hif/utils/io.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 2f000c5..64fe7b9 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -617,6 +617,10 @@ template <bool IsReal, class ValueType>
 inline void mm_read_vector_data(std::FILE *f, const std::size_t n,
                                 Array<ValueType> &v) {
   v.resize(n);
+  if (n && v.status() == DATA_UNDEF) {
+    std::fclose(f);
+    hif_error("memory allocation failed");
+  }
   double vr, vi;
   for (std::size_t i(0); i < n; ++i) {
     const int flag = IsReal ? std::fscanf(f, "%lg", &vr)
-- 
2.43.0


From 559103793b798ee3384265e5045bfe96e62956c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:36 +0000
Subject: [PATCH 35/38] fix: MC64 overwrote visited column entries when many
 rows had the shortest distance

---
 src/hif/pre/equilibrate.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/hif/pre/equilibrate.hpp b/src/hif/pre/equilibrate.hpp
index 035f476..9dd6953 100644
--- a/src/hif/pre/equilibrate.hpp
+++ b/src/hif/pre/equilibrate.hpp
@@ -541,16 +541,14 @@ inline void kernel(const _Integer n, const _Integer *ip, const _Index *irn,
       } else {
         if (dnew < dmin_) dmin_ = dnew;
         d__[i__] = dnew;
-        ++qlen;
-        q[qlen] = k;
       }
     }
-    // initialize heap q and q2 with rows held in q(1:qlen)
-    const _Integer kkstop = qlen;
-    qlen                  = 0;
-    for (kk = 1; kk <= kkstop; ++kk) {
-      k   = q[kk];
+    // initialize heap q and q2 with the rows visited above, whose d are set;
+    // NOTE that we rescan the column, because storing the visited entries in
+    // q can overlap with q2 that grows from the end of q
+    for (k = ip[j]; k <= kstop; ++k) {
       i__ = irn[k];
+      if (d__[i__] == rinf) continue;
       if (csp <= d__[i__]) {
         d__[i__] = rinf;
         continue;
-- 
2.43.0


From 8e021d0bed303c03fe78f2eba482d2392dccb88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:36 +0000
Subject: [PATCH 36/38] fix: finite positive scaling factors for structurally
 or numerically singular matrices

---
 src/hif/pre/EqlDriver.hpp        | 14 +++++++++++---
 src/hif/pre/equilibrate.hpp      |  5 +++--
 src/hif/pre/matching_scaling.hpp |  2 +-
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/hif/pre/EqlDriver.hpp b/src/hif/pre/EqlDriver.hpp
index 5b5c120..cff89ff 100644
--- a/src/hif/pre/EqlDriver.hpp
+++ b/src/hif/pre/EqlDriver.hpp
@@ -113,8 +113,8 @@ class EqlDriver {
       // update scaling if necessary, NOTE we pass in CRS, thus it matching
       // rescaling on the transpose of CCS
       for (size_type i(0); i < n; ++i) {
-        s[i] *= eq.t(i);
-        t[i] *= eq.s(i);
+        update_scaling(s[i], eq.t(i));
+        update_scaling(t[i], eq.s(i));
       }
     } while (false);  // bufs freed here
 
@@ -125,11 +125,19 @@ class EqlDriver {
     // handle symmetric
     if (IsSymm) {
       std::copy_n(p.cbegin(), n, q.begin());
-      for (size_type i(0); i < n; ++i) s[i] = std::sqrt(s[i] * t[i]);
+      for (size_type i(0); i < n; ++i) s[i] = std::sqrt(s[i]) * std::sqrt(t[i]);
       std::copy_n(s.cbegin(), n, t.begin());
     } else
       for (size_type i(0); i < n; ++i) q[i] = i;
   }
+ protected:
+  /// \brief update a scaling factor with that of MC64
+  /// \note For (structurally) singular matrices, the factors from MC64 may
+  ///       overflow or vanish, in which case they are ignored.
+  inline static void update_scaling(scalar_type &s, const scalar_type factor) {
+    const scalar_type new_s = s * factor;
+    if (std::isfinite(new_s) && new_s > scalar_type(0)) s = new_s;
+  }
 };
 
 }  // namespace hif
diff --git a/src/hif/pre/equilibrate.hpp b/src/hif/pre/equilibrate.hpp
index 9dd6953..d3a6f9d 100644
--- a/src/hif/pre/equilibrate.hpp
+++ b/src/hif/pre/equilibrate.hpp
@@ -36,6 +36,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #define _HIF_PRE_EQUILIBRATE_HPP
 
 #include <cmath>
+#include <limits>
 #include <vector>
 
 #define _PAR_NUM 10
@@ -78,7 +79,7 @@ inline void compute(const _Integer n, const _Integer ne, const _Integer *indptr,
   --work;
   --pars;
   --info;
-  rinf = sizeof(_Real) == 8u ? HUGE_VAL : HUGE_VALF;
+  rinf = std::numeric_limits<_Real>::max();
   if (n < 1) {
     info[1] = -2;
     info[2] = n;
@@ -406,7 +407,7 @@ inline void kernel(const _Integer n, const _Integer *ip, const _Index *irn,
   --a;
   --irn;
   // initialize
-  rinf = sizeof(_Real) == 8u ? HUGE_VAL : HUGE_VALF;
+  rinf = std::numeric_limits<_Real>::max();
   *num = 0;
   for (k = 1; k <= n; ++k) {
     u[k]     = rinf;
diff --git a/src/hif/pre/matching_scaling.hpp b/src/hif/pre/matching_scaling.hpp
index 7b4a9de..9b59f8e 100644
--- a/src/hif/pre/matching_scaling.hpp
+++ b/src/hif/pre/matching_scaling.hpp
@@ -72,7 +72,7 @@ inline void fix_poor_scaling(const typename ScalingArray::size_type m0,
   if (level > 1u && beta0 > 1.0)  // starting from 2nd level only
     for (size_type i(0); i < m0; ++i)
       if (std::min(s[p[i]], t[q[i]]) * beta0 < std::max(s[p[i]], t[q[i]]))
-        s[p[i]] = t[q[i]] = std::sqrt(s[p[i]] * t[q[i]]);
+        s[p[i]] = t[q[i]] = std::sqrt(s[p[i]]) * std::sqrt(t[q[i]]);
 }
 
 /// \brief defer any zero diags to the end
-- 
2.43.0


From 495d736043cad143491b2b303b23ebb6950db12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:36 +0000
Subject: [PATCH 37/38] fix: iterative pre-scaling divided by zero for empty
 rows and columns

---
 src/hif/pre/a_priori_scaling.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hif/pre/a_priori_scaling.hpp b/src/hif/pre/a_priori_scaling.hpp
index 5517bca..c7f8dad 100644
--- a/src/hif/pre/a_priori_scaling.hpp
+++ b/src/hif/pre/a_priori_scaling.hpp
@@ -199,12 +199,14 @@ inline void iterative_scale_p(const PermType &p, CrsType &A, ScalingType &rs,
           local_cs[j]  = std::max(std::abs(*v_itr), local_cs[j]);
         }
       }
-      local_rs[p[row]] = 1. / std::sqrt(tmp);
+      // leave empty (or all-zero) rows unscaled
+      local_rs[p[row]] = tmp == scalar_type(0) ? 1. : 1. / std::sqrt(tmp);
     }
     for (size_type i(0); i < m; ++i) rs[i] *= local_rs[i];
     if (!IsSymm) {
       for (size_type i(0); i < n; ++i) {
-        const auto tmp = 1. / std::sqrt(local_cs[i]);
+        const auto tmp =
+            local_cs[i] == scalar_type(0) ? 1. : 1. / std::sqrt(local_cs[i]);
         local_cs[i]    = tmp;
         cs[i] *= tmp;
       }
-- 
2.43.0


From a51d60165f36854928b59b45313ac8f1d2002418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:25 +0000
Subject: [PATCH 38/38] fix: symmetric levels whose leading block is empty no
 longer report a failed allocation

---
 src/hif/alg/factor.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index 8472352..2070d95 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -743,13 +743,11 @@ inline CsType level_factorize(
       "memory allocation failed for L_start and/or U_start at level %zd.",
       cur_level);
 
-  Array<indptr_type> L_offsets;
-  if (IsSymm) {
-    L_offsets.resize(m);
-    hif_error_if(L_offsets.status() == DATA_UNDEF,
-                 "memory allocation failed for L_offsets at level %zd.",
-                 cur_level);
-  }
+  // NOTE the leading block may become empty due to static deferrals
+  Array<indptr_type> L_offsets(IsSymm ? m : size_type(0));
+  hif_error_if(L_offsets.status() == DATA_UNDEF,
+               "memory allocation failed for L_offsets at level %zd.",
+               cur_level);
 
   const Array<indptr_type> &Crout_L_start = !IsSymm ? L_start : L_offsets;
 
-- 
2.43.0

