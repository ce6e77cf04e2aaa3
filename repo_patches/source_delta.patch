From 8be4bfb757bdae6dbb0f3e8747e7101b6c889832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 01/76] fix: ranges accept negative positions as documented and
 stay inside the dimension

Negative bounds, single positions and list entries count from the end of the
dimension (sec_tensor.hdoc); they used to read and write outside the tensor, a
list entry equal to the dimension was accepted, and an empty stepped range had
size 1. solve_with_svd() no longer relies on range(0,-1) being empty.
---
 src/linalg/solve_with_svd_d.cc |  6 +++---
 src/linalg/solve_with_svd_z.cc |  6 +++---
 src/views/range.cc             | 19 +++++++++++++------
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/linalg/solve_with_svd_d.cc b/src/linalg/solve_with_svd_d.cc
index d71afe6..31d7c92 100644
--- a/src/linalg/solve_with_svd_d.cc
+++ b/src/linalg/solve_with_svd_d.cc
@@ -43,9 +43,9 @@ namespace linalg {
     }
     for (tensor::index i = 0; i < s.size(); i++) {
       if (s[i] <= tol) {
-	U = U(range(), range(0,i-1));
-	s = s(range(0,i-1));
-	VT = VT(range(0,i-1), range());
+	U = U(range(), range(iota(0,i-1)));
+	s = s(range(iota(0,i-1)));
+	VT = VT(range(iota(0,i-1)), range());
       }
     }
     RTensor X = foldc(U, 0, B, 0);
diff --git a/src/linalg/solve_with_svd_z.cc b/src/linalg/solve_with_svd_z.cc
index 79b6a68..6bc7478 100644
--- a/src/linalg/solve_with_svd_z.cc
+++ b/src/linalg/solve_with_svd_z.cc
@@ -43,9 +43,9 @@ namespace linalg {
     }
     for (tensor::index i = 0; i < s.size(); i++) {
       if (s[i] <= tol) {
-	U = U(range(), range(0,i-1));
-	s = s(range(0,i-1));
-	VT = VT(range(0,i-1), range());
+	U = U(range(), range(iota(0,i-1)));
+	s = s(range(iota(0,i-1)));
+	VT = VT(range(iota(0,i-1)), range());
       }
     }
     CTensor X = foldc(U, 0, B, 0);
diff --git a/src/views/range.cc b/src/views/range.cc
index c927d4e..036d6ea 100644
--- a/src/views/range.cc
+++ b/src/views/range.cc
@@ -20,6 +20,7 @@
 #include <cassert>
 #include <iostream>
 #include <tensor/indices.h>
+#include <tensor/detail/common.h>
 
 namespace tensor {
 
@@ -139,7 +140,7 @@ namespace tensor {
   void
   SingleRange::set_limit(index limit)
   {
-    assert(limit > ndx_);
+    ndx_ = normalize_index(ndx_, limit);
     Range::set_limit(limit);
   }
 
@@ -189,6 +190,14 @@ namespace tensor {
   void
   StepRange::set_limit(index limit)
   {
+    if (start_ < 0)
+      start_ += limit;
+    if (end_ < 0)
+      end_ += limit;
+    assert(step_ > 0);
+    assert(start_ >= 0);
+    // Only the range 0:-1 of an empty dimension may end before its beginning
+    assert((end_ >= 0) || (limit == 0 && end_ == -1));
     assert(limit > end_);
     Range::set_limit(limit);
   }
@@ -196,7 +205,7 @@ namespace tensor {
   index
   StepRange::size() const
   {
-    return (end_ - start_) / step_ + 1;
+    return (end_ < start_) ? 0 : ((end_ - start_) / step_ + 1);
   }
 
   void
@@ -235,11 +244,9 @@ namespace tensor {
   void
   IndexRange::set_limit(index limit)
   {
-#ifndef NDEBUG
-    for (Indices::const_iterator it = indices_.begin(); it != indices_.end(); it++) {
-      assert(*it <= limit);
+    for (Indices::iterator it = indices_.begin(); it != indices_.end(); it++) {
+      *it = normalize_index(*it, limit);
     }
-#endif
     Range::set_limit(limit);
   }
 
-- 
2.43.0


From 9a8cfca92c64b7bf8920411d757e243d497fe37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 02/76] fix: slicing a tensor with an empty dimension does not
 hang or divide by zero

The second factor of a product of ranges was scaled by the size of the first
dimension, so that stepped ranges after an empty dimension had step 0.
---
 src/views/range.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/views/range.cc b/src/views/range.cc
index 036d6ea..b0c30de 100644
--- a/src/views/range.cc
+++ b/src/views/range.cc
@@ -17,6 +17,7 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <algorithm>
 #include <cassert>
 #include <iostream>
 #include <tensor/indices.h>
@@ -265,9 +266,18 @@ namespace tensor {
   /************************************************************
    * TENSOR PRODUCT RANGE
    */
+  /* Distance between consecutive indices of the second range. When the first
+     range runs over an empty dimension, no index is ever produced, but factors
+     have to remain nonzero for the second range to be exhausted. */
+  static inline index
+  next_factor(const Range *r)
+  {
+    return r->get_factor() * std::max<index>(r->get_limit(), 1);
+  }
+
   ProductRange::ProductRange(Range *r1, Range *r2) : r1_(r1), r2_(r2)
   {
-    r2_->set_factor(r1_->get_factor() * r1_->get_limit());
+    r2_->set_factor(next_factor(r1_));
   }
 
   ProductRange::~ProductRange()
@@ -303,7 +313,7 @@ namespace tensor {
   ProductRange::set_factor(index factor)
   {
     r1_->set_factor(factor);
-    r2_->set_factor(factor * r1_->get_limit());
+    r2_->set_factor(next_factor(r1_));
   }
 
   void
-- 
2.43.0


From 94e94a8e11f71b58ad62148b875212f771f860c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 03/76] fix: assigning a tensor to a slice of itself reads the
 old values

---
 src/tensor/tensor_view.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tensor/tensor_view.hpp b/src/tensor/tensor_view.hpp
index 09437cf..d3c800f 100644
--- a/src/tensor/tensor_view.hpp
+++ b/src/tensor/tensor_view.hpp
@@ -266,9 +266,11 @@ namespace tensor {
   {
     //assert(verify_tensor_dimensions_match(dims_, t.dimensions()));
     assert(dims_.total_size() == t.dims_.total_size());
+    // The tensor may be the one we write to: keep a handle to the old data
+    const Vector<elt_t> values(t.data_);
     ranges_->reset();
     for (index i = 0, j; (j = ranges_->pop()) != ranges_->nomore(); i++) {
-      data_.at(j) = t[i];
+      data_.at(j) = values[i];
     }
   }
 
-- 
2.43.0


From 703df7514ea615164f3a9e162d0c7c266aba8f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 04/76] fix: comparisons with a number on the left keep the
 order of the operands

a < t was evaluated as t >= a, and so on for >, <= and >=.
---
 include/tensor/indices.h | 8 ++++----
 include/tensor/tensor.h  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/tensor/indices.h b/include/tensor/indices.h
index ad93c73..4493f2f 100644
--- a/include/tensor/indices.h
+++ b/include/tensor/indices.h
@@ -85,10 +85,10 @@ namespace tensor {
   const Booleans operator!=(const Indices &a, index b);
 
   inline const Booleans operator==(index a, const Indices &b) { return b == a; }
-  inline const Booleans operator<(index a, const Indices &b) { return b >= a; }
-  inline const Booleans operator>(index a, const Indices &b) { return b <= a; }
-  inline const Booleans operator<=(index a, const Indices &b) { return b > a; }
-  inline const Booleans operator>=(index a, const Indices &b) {  return b < a; }
+  inline const Booleans operator<(index a, const Indices &b) { return b > a; }
+  inline const Booleans operator>(index a, const Indices &b) { return b < a; }
+  inline const Booleans operator<=(index a, const Indices &b) { return b >= a; }
+  inline const Booleans operator>=(index a, const Indices &b) {  return b <= a; }
   inline const Booleans operator!=(index a, const Indices &b) { return b != a; }
 
   //////////////////////////////////////////////////////////////////////
diff --git a/include/tensor/tensor.h b/include/tensor/tensor.h
index a9c33ab..bb6b604 100644
--- a/include/tensor/tensor.h
+++ b/include/tensor/tensor.h
@@ -449,10 +449,10 @@ namespace tensor {
   const Booleans operator!=(const RTensor &a, double b);
 
   inline const Booleans operator==(double a, const RTensor &b) { return b == a; }
-  inline const Booleans operator<(double a, const RTensor &b) { return b >= a; }
-  inline const Booleans operator>(double a, const RTensor &b) { return b <= a; }
-  inline const Booleans operator<=(double a, const RTensor &b) { return b > a; }
-  inline const Booleans operator>=(double a, const RTensor &b) {  return b < a; }
+  inline const Booleans operator<(double a, const RTensor &b) { return b > a; }
+  inline const Booleans operator>(double a, const RTensor &b) { return b < a; }
+  inline const Booleans operator<=(double a, const RTensor &b) { return b >= a; }
+  inline const Booleans operator>=(double a, const RTensor &b) {  return b <= a; }
   inline const Booleans operator!=(double a, const RTensor &b) { return b != a; }
 
   const RTensor operator+(const RTensor &a, const RTensor &b);
-- 
2.43.0


From 39407108e36ba09b5aeb2ff3aa5d5e1b299cc80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 05/76] fix: sparse matrices from coordinates infer their size
 and drop repeated positions

The inferred number of rows and columns was one too small, so that the row
offsets were written out of bounds, and repeated positions were only dropped in
the first column, leaving repeated columns in a row.
---
 include/tensor/detail/sparse_base.hpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/tensor/detail/sparse_base.hpp b/include/tensor/detail/sparse_base.hpp
index d3f6389..bc619a0 100644
--- a/include/tensor/detail/sparse_base.hpp
+++ b/include/tensor/detail/sparse_base.hpp
@@ -74,6 +74,9 @@ namespace tensor {
         return col < other.col;
       return 0;
     }
+    static bool same_position(const sparse_triplet &a, const sparse_triplet &b) {
+      return a.row == b.row && a.col == b.col;
+    }
   };
 
   template<typename elt_t>
@@ -89,7 +92,7 @@ namespace tensor {
                         index nrows, index ncols) :
     dims_(2), row_start_(), column_(), data_()
   {
-    index i, j, last_row, last_col, l = rows.size();
+    index i, j, last_row, l = rows.size();
     assert(cols.size() == l);
     assert(data.size() == l);
 
@@ -101,13 +104,17 @@ namespace tensor {
     for (i = 0; i < l; i++) {
       index r = rows[i];
       index c = cols[i];
-      nrows = std::max(nrows, r);
-      ncols = std::max(ncols, c);
+      nrows = std::max(nrows, r+1);
+      ncols = std::max(ncols, c+1);
       if (data[i] != number_zero<elt_t>()) {
         sorted_data.push_back(sparse_triplet<elt_t>(r, c, data[i]));
       }
     }
-    std::sort(sorted_data.begin(), sorted_data.end());
+    /* Only the first of several values for the same position is kept. */
+    std::stable_sort(sorted_data.begin(), sorted_data.end());
+    sorted_data.erase(std::unique(sorted_data.begin(), sorted_data.end(),
+                                  sparse_triplet<elt_t>::same_position),
+                      sorted_data.end());
     dims_.at(0) = nrows;
     dims_.at(1) = ncols;
     row_start_ = Indices(nrows+1);
@@ -117,15 +124,10 @@ namespace tensor {
     /* Fill in the Sparse structure.
      */
     std::fill(row_start_.begin(), row_start_.end(), 0);
-    for (last_col = 0, last_row = -1, j = i = 0; i < l; i++) {
+    for (last_row = -1, j = i = 0; i < l; i++) {
       const sparse_triplet<elt_t> &d = sorted_data[i];
-      if (d.row == last_row) {
-        if (d.col == last_col)
-          continue;
-      } else {
-        while(last_row < d.row) {
-          row_start_.at(++last_row) = j;
-        }
+      while (last_row < d.row) {
+        row_start_.at(++last_row) = j;
       }
       column_.at(j) = d.col;
       data_.at(j) = d.value;
-- 
2.43.0


From fcf7af0d490421ff0f1221397e210e7649ac3219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 06/76] fix: foldin of two vectors writes its dimension inside
 the dimension list

---
 src/tensor/tensor_foldin.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor_foldin.cc b/src/tensor/tensor_foldin.cc
index 0426e0b..f448c65 100644
--- a/src/tensor/tensor_foldin.cc
+++ b/src/tensor/tensor_foldin.cc
@@ -39,7 +39,7 @@ namespace tensor {
     const index rankb = b.rank();
     index ndx1 = normalize_index(_ndx1, ranka);
     index ndx2 = normalize_index(_ndx2, rankb);
-    Indices new_dims(ranka + rankb - 2);
+    Indices new_dims(std::max<index>(ranka + rankb - 2, 1));
     /*
      * Since we use row-major order, in which the first
      * index varies faster, we nest the loops beginning with the last index,
-- 
2.43.0


From d23c911d15521ee971fa9b68358f1f5f55d8282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 07/76] fix: fold_into, foldin_into and mmult_into accept an
 argument as target

The target was replaced by an uninitialized tensor before the argument was read.
---
 src/tensor/tensor_fold.cc   | 4 +++-
 src/tensor/tensor_foldin.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_fold.cc b/src/tensor/tensor_fold.cc
index c6e8ed6..2435b7a 100644
--- a/src/tensor/tensor_fold.cc
+++ b/src/tensor/tensor_fold.cc
@@ -31,8 +31,10 @@ namespace tensor {
   template<typename elt_t, bool do_conj>
   void
   do_fold(Tensor<elt_t> &output,
-          const Tensor<elt_t> &a, int _ndx1, const Tensor<elt_t> &b, int _ndx2)
+          const Tensor<elt_t> &_a, int _ndx1, const Tensor<elt_t> &_b, int _ndx2)
   {
+    // The output may be one of the arguments: keep handles to their data
+    const Tensor<elt_t> a(_a), b(_b);
     index i_len,j_len,k_len,l_len,m_len;
     index rank, i;
     const index ranka = a.rank();
diff --git a/src/tensor/tensor_foldin.cc b/src/tensor/tensor_foldin.cc
index f448c65..d56203b 100644
--- a/src/tensor/tensor_foldin.cc
+++ b/src/tensor/tensor_foldin.cc
@@ -31,8 +31,10 @@ namespace tensor {
   template<typename elt_t>
   void
   do_foldin_into(Tensor<elt_t> &output,
-                 const Tensor<elt_t> &a, int _ndx1, const Tensor<elt_t> &b, int _ndx2)
+                 const Tensor<elt_t> &_a, int _ndx1, const Tensor<elt_t> &_b, int _ndx2)
   {
+    // The output may be one of the arguments: keep handles to their data
+    const Tensor<elt_t> a(_a), b(_b);
     index i_len,j_len,k_len,l_len,m_len;
     index rank, i;
     const index ranka = a.rank();
-- 
2.43.0


From 94a1034f46d78a58b5278b075c7ef669f985bb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 08/76] fix: take_diag strides over the second index by its own
 dimension

---
 src/tensor/tensor_take_diag.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor_take_diag.cc b/src/tensor/tensor_take_diag.cc
index 4acd9a6..9feda7a 100644
--- a/src/tensor/tensor_take_diag.cc
+++ b/src/tensor/tensor_take_diag.cc
@@ -99,7 +99,7 @@ const tensor::Tensor<elt_t> do_take_diag(const tensor::Tensor<elt_t> &a, int whi
   tensor::Tensor<elt_t> output(new_dims);
   which = -which;
   if (a2b) {
-    do_diag<elt_t>(output.begin(), a.begin(), a1,a2,a2b,a3,a3,a5,which);
+    do_diag<elt_t>(output.begin(), a.begin(), a1,a2,a2b,a3,a4,a5,which);
   }
   return output;
 }
-- 
2.43.0


From e584cc25538d0767a4fddc808a2171dec8e4f82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 09/76] fix: trace(D,i1,i2) accepts the first index written as
 -rank

---
 src/tensor/tensor_trace.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_trace.cc b/src/tensor/tensor_trace.cc
index ab198db..3332506 100644
--- a/src/tensor/tensor_trace.cc
+++ b/src/tensor/tensor_trace.cc
@@ -53,8 +53,8 @@ namespace tensor {
   template<typename elt_t>
   static const Tensor<elt_t> do_trace(const Tensor<elt_t> &D, index i1, index i2)
   {
-    assert(i1 < D.rank() && i1 > -D.rank());
-    assert(i2 < D.rank() && i2 > -D.rank());
+    assert(i1 < D.rank() && i1 >= -D.rank());
+    assert(i2 < D.rank() && i2 >= -D.rank());
     if (i1 < 0)
       i1 = i1 + D.rank();
     if (i2 < 0)
-- 
2.43.0


From 24ff1cf261eeec92fb562d4a8ebc595102d1a311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 10/76] fix: squeeze keeps empty dimensions and accepts
 one-element tensors

A dimension of size 0 left uninitialized dimensions behind, and a tensor in which
all dimensions are 1 stopped the program.
---
 src/tensor/tensor_squeeze.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_squeeze.cc b/src/tensor/tensor_squeeze.cc
index dad3232..f7122de 100644
--- a/src/tensor/tensor_squeeze.cc
+++ b/src/tensor/tensor_squeeze.cc
@@ -24,10 +24,15 @@ namespace tensor {
 
   const Indices squeeze_dimensions(const Indices &d)
   {
-    Indices output(d.size() - std::count(d.begin(), d.end(), 1));
+    index rank = d.size() - std::count(d.begin(), d.end(), 1);
+    if (rank == 0 && d.size()) {
+      // A single element remains a vector of length 1
+      return igen << 1;
+    }
+    Indices output(rank);
     Indices::const_iterator b = d.begin();
     for (Indices::iterator a = output.begin(); a != output.end() && b != d.end(); b++) {
-      if (*b > 1)
+      if (*b != 1)
         *(a++) = *b;
     }
     return output;
-- 
2.43.0


From 2118cbf0b230bcaf484eb9e41b02893fa69972de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 11/76] fix: linspace between tensors of more than one index

---
 src/indices/linspace.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/indices/linspace.hpp b/src/indices/linspace.hpp
index fe99c8d..8b5580f 100644
--- a/src/indices/linspace.hpp
+++ b/src/indices/linspace.hpp
@@ -33,10 +33,10 @@ namespace tensor {
     if (n == 1) {
       output = min;
     } else if (n) {
-      const Tensor<elt_t> base = reshape(max, d);
+      const Tensor<elt_t> base = reshape(min, d);
       const Tensor<elt_t> delta = reshape((max - min) / (n - 1.0), d);
       for (index i = 0; i < n; i++) {
-        output.at(range(), range(i)) = delta * (double)i + min;
+        output.at(range(), range(i)) = delta * (double)i + base;
       }
     }
     if (d == 1)
-- 
2.43.0


From 55bed3b75a10a701b2247d8767d8f4034d8b68ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 12/76] fix: product of a tensor and a sparse matrix no longer
 always aborts

---
 src/sparse/mmult_tensor_sparse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse/mmult_tensor_sparse.h b/src/sparse/mmult_tensor_sparse.h
index eb8e7fc..f786dfc 100644
--- a/src/sparse/mmult_tensor_sparse.h
+++ b/src/sparse/mmult_tensor_sparse.h
@@ -63,7 +63,7 @@ do_mmult(const Tensor<elt_t> &m1, const Sparse<elt_t> &m2)
 	dims.at(k) = m1.dimension(k);
 	i_len *= dims[k];
     }
-    index j_len = m1.dimension(-1);
+    index j_len = m1.dimension(N-1);
     index l_len = dims.at(N-1) = m2.columns();
 
     if (j_len != m2.rows()) {
-- 
2.43.0


From 3b4ee02265cd5974162ebe3f6c665f16d2054ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 13/76] fix: kron2_sum of sparse matrices uses the sizes of the
 matrices

It used the number of nonzero elements as the size of the identities, and the
order of the factors opposite to that of kron2_sum for dense matrices.
---
 src/sparse/sparse_kron_d.cc | 6 +++---
 src/sparse/sparse_kron_z.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sparse/sparse_kron_d.cc b/src/sparse/sparse_kron_d.cc
index e441eaf..a4359d8 100644
--- a/src/sparse/sparse_kron_d.cc
+++ b/src/sparse/sparse_kron_d.cc
@@ -33,10 +33,10 @@ namespace tensor {
     return kron(s2, s1);
   }
 
-  const Sparse<double> kron2_sum(const Sparse<double> &s2, const Sparse<double> &s1)
+  const Sparse<double> kron2_sum(const Sparse<double> &s1, const Sparse<double> &s2)
   {
-    return kron(s1, Sparse<double>::eye(s2.length())) +
-      kron(Sparse<double>::eye(s1.length()), s2);
+    return kron(s1, Sparse<double>::eye(s2.rows(), s2.columns())) +
+      kron(Sparse<double>::eye(s1.rows(), s1.columns()), s2);
   }
 
 } // namespace tensor
diff --git a/src/sparse/sparse_kron_z.cc b/src/sparse/sparse_kron_z.cc
index 1523f9e..7495a20 100644
--- a/src/sparse/sparse_kron_z.cc
+++ b/src/sparse/sparse_kron_z.cc
@@ -33,10 +33,10 @@ namespace tensor {
     return kron(s2, s1);
   }
 
-  const Sparse<cdouble> kron2_sum(const Sparse<cdouble> &s2, const Sparse<cdouble> &s1)
+  const Sparse<cdouble> kron2_sum(const Sparse<cdouble> &s1, const Sparse<cdouble> &s2)
   {
-    return kron(s1, Sparse<cdouble>::eye(s2.length())) +
-      kron(Sparse<cdouble>::eye(s1.length()), s2);
+    return kron(s1, Sparse<cdouble>::eye(s2.rows(), s2.columns())) +
+      kron(Sparse<cdouble>::eye(s1.rows(), s1.columns()), s2);
   }
 
 } // namespace tensor
-- 
2.43.0


From cab884867767919cab7e3b89bf935797002e542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 14/76] fix: define the documented list generator xgen

---
 src/indices/indices.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/indices/indices.cc b/src/indices/indices.cc
index 051ef69..b125ebb 100644
--- a/src/indices/indices.cc
+++ b/src/indices/indices.cc
@@ -26,6 +26,7 @@ namespace tensor {
 
   const ListGenerator<index> igen = {};
   const ListGenerator<double> rgen = {};
+  FlexiListGenerator xgen;
   const ListGenerator<cdouble> cgen = {};
 
   template class Vector<index>;
-- 
2.43.0


From 366054104e3abe476783f794370964a11c2f9ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 15/76] fix: arithmetic with a number taken from the same
 tensor uses its original value

---
 include/tensor/detail/functional.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tensor/detail/functional.h b/include/tensor/detail/functional.h
index 13d55e5..853f9a5 100644
--- a/include/tensor/detail/functional.h
+++ b/include/tensor/detail/functional.h
@@ -79,7 +79,7 @@ struct divided {
 //
 template<typename t1, typename t2>
 struct plus_constant {
-  const t2 &value;
+  const t2 value;
   plus_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a + value;
@@ -88,7 +88,7 @@ struct plus_constant {
 
 template<typename t1, typename t2>
 struct minus_constant {
-  const t2 &value;
+  const t2 value;
   minus_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a - value;
@@ -97,7 +97,7 @@ struct minus_constant {
 
 template<typename t1, typename t2>
 struct times_constant {
-  const t2 &value;
+  const t2 value;
   times_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a * value;
@@ -106,7 +106,7 @@ struct times_constant {
 
 template<typename t1, typename t2>
 struct divided_constant {
-  const t2 &value;
+  const t2 value;
   divided_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a / value;
-- 
2.43.0


From 920da252da7c9323af80769e68f41684d5daa0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 16/76] fix: scaling a tensor in place returns the tensor, not
 a copy

---
 include/tensor/detail/tensor_ops.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tensor/detail/tensor_ops.hpp b/include/tensor/detail/tensor_ops.hpp
index 7f3dc16..6a22ca0 100644
--- a/include/tensor/detail/tensor_ops.hpp
+++ b/include/tensor/detail/tensor_ops.hpp
@@ -184,12 +184,12 @@ Tensor<t1> &operator-=(Tensor<t1> &a, const t2 &b) {
   return a;
 }
 template<typename t1, typename t2>
-Tensor<t1> operator*=(Tensor<t1> &a, const t2 &b) {
+Tensor<t1> &operator*=(Tensor<t1> &a, const t2 &b) {
   std::transform(a.begin(), a.end(), a.begin(), times_constant<t1,t2>(b));
   return a;
 }
 template<typename t1, typename t2>
-Tensor<t1> operator/=(Tensor<t1> &a, const t2 &b) {
+Tensor<t1> &operator/=(Tensor<t1> &a, const t2 &b) {
   std::transform(a.begin(), a.end(), a.begin(), divided_constant<t1,t2>(b));
   return a;
 }
-- 
2.43.0


From be139c15c84bfe783a011dd991ea2414605c7450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 17/76] fix: define the declared comparisons of a complex
 tensor with a complex number

---
 src/compare/ctensor_cdouble_e.cc  | 2 +-
 src/compare/ctensor_cdouble_ne.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compare/ctensor_cdouble_e.cc b/src/compare/ctensor_cdouble_e.cc
index 1dcdcb8..d6a1c5e 100644
--- a/src/compare/ctensor_cdouble_e.cc
+++ b/src/compare/ctensor_cdouble_e.cc
@@ -22,7 +22,7 @@
 
 namespace tensor {
 
-  const Booleans operator==(const CTensor &a, double b)
+  const Booleans operator==(const CTensor &a, cdouble b)
   {
     Booleans c(a.size());
     Booleans::iterator ic = c.begin();
diff --git a/src/compare/ctensor_cdouble_ne.cc b/src/compare/ctensor_cdouble_ne.cc
index 8503fdc..5273f2f 100644
--- a/src/compare/ctensor_cdouble_ne.cc
+++ b/src/compare/ctensor_cdouble_ne.cc
@@ -22,7 +22,7 @@
 
 namespace tensor {
 
-  const Booleans operator!=(const CTensor &a, double b)
+  const Booleans operator!=(const CTensor &a, cdouble b)
   {
     Booleans c(a.size());
     Booleans::iterator ic = c.begin();
-- 
2.43.0


From 935f607b151eead436a31350fb253e3757450f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 18/76] fix: matrix_norminf of a matrix without columns reads
 nothing

---
 src/tensor/matrix_norminf_d.cc | 6 +++---
 src/tensor/matrix_norminf_z.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tensor/matrix_norminf_d.cc b/src/tensor/matrix_norminf_d.cc
index f280414..04d31ea 100644
--- a/src/tensor/matrix_norminf_d.cc
+++ b/src/tensor/matrix_norminf_d.cc
@@ -31,10 +31,10 @@ namespace tensor {
 
     double *aux = new double[r];
     RTensor::const_iterator p = m.begin_const();
-    for (size_t i = 0; i < r; i++, p++) {
-      aux[i] = abs(*p);
+    for (size_t i = 0; i < r; i++) {
+      aux[i] = 0.0;
     }
-    for (size_t j = 1; j < c; j++) {
+    for (size_t j = 0; j < c; j++) {
       for (size_t i = 0; i < r; i++, p++) {
 	aux[i] += abs(*p);
       }
diff --git a/src/tensor/matrix_norminf_z.cc b/src/tensor/matrix_norminf_z.cc
index 0499649..b1abd84 100644
--- a/src/tensor/matrix_norminf_z.cc
+++ b/src/tensor/matrix_norminf_z.cc
@@ -31,10 +31,10 @@ namespace tensor {
 
     double *aux = new double[r];
     CTensor::const_iterator p = m.begin_const();
-    for (size_t i = 0; i < r; i++, p++) {
-      aux[i] = abs(*p);
+    for (size_t i = 0; i < r; i++) {
+      aux[i] = 0.0;
     }
-    for (size_t j = 1; j < c; j++) {
+    for (size_t j = 0; j < c; j++) {
       for (size_t i = 0; i < r; i++, p++) {
 	aux[i] += abs(*p);
       }
-- 
2.43.0


From 7f6200b989039a73931f4fc75aa2968600f4ab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 19/76] fix: sorting indices compares them as integers

---
 src/tensor/tensor_sort_i.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_sort_i.cc b/src/tensor/tensor_sort_i.cc
index 85a512c..883bfb1 100644
--- a/src/tensor/tensor_sort_i.cc
+++ b/src/tensor/tensor_sort_i.cc
@@ -28,9 +28,9 @@ namespace tensor {
   {
     Indices output(v);
     if (reverse) {
-      std::sort(output.begin(), output.end(), std::greater<double>());
+      std::sort(output.begin(), output.end(), std::greater<index>());
     } else {
-      std::sort(output.begin(), output.end(), std::less<double>());
+      std::sort(output.begin(), output.end(), std::less<index>());
     }
     return output;
   }
-- 
2.43.0


From 46a32fc4aa4706a141d722faf9f62cec22849394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 20/76] fix: mean over the last index stays inside the
 dimension list

---
 src/tensor/tensor_mean_ndx.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tensor/tensor_mean_ndx.cc b/src/tensor/tensor_mean_ndx.cc
index 0e44f3f..b6346e2 100644
--- a/src/tensor/tensor_mean_ndx.cc
+++ b/src/tensor/tensor_mean_ndx.cc
@@ -37,15 +37,14 @@ namespace {
       tensor::index left = 1, middle, right = 1;
       for (int i = 0, j = 0; i < rank; i++) {
 	tensor::index d = t.dimension(i);
-	dimensions.at(j++) = d;
+	if (i != ndx)
+	  dimensions.at(j++) = d;
 	if (i < ndx)
 	  left *= d;
 	else if (i > ndx)
 	  right *= d;
-	else {
+	else
 	  middle = d;
-	  j--;
-	}
       }
       Tensor aux = reshape(t, left, middle, right);
       Tensor output = Tensor::zeros(left, right);
-- 
2.43.0


From f678471eb0296065b85e0e420762392dc72d7c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 21/76] fix: comparison of sparse matrices ignores stored zeros

---
 include/tensor/sparse.h | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/tensor/sparse.h b/include/tensor/sparse.h
index 8088046..069b433 100644
--- a/include/tensor/sparse.h
+++ b/include/tensor/sparse.h
@@ -112,12 +112,29 @@ namespace tensor {
   //
   // Comparison
   //
+  /* Zeros that happen to be stored, for instance by imag() or by scaling, do not
+   * make a difference. */
   template<typename t1, typename t2>
   inline bool all_equal(const Sparse<t1> &s1, const Sparse<t2> &s2) {
-    return all_equal(s1.dimensions(), s2.dimensions()) &&
-      all_equal(s1.priv_row_start(), s2.priv_row_start()) &&
-      all_equal(s1.priv_column(), s2.priv_column()) &&
-      all_equal(s1.priv_data(), s2.priv_data());
+    if (!all_equal(s1.dimensions(), s2.dimensions()))
+      return false;
+    const Indices &row1 = s1.priv_row_start(), &row2 = s2.priv_row_start();
+    const Indices &col1 = s1.priv_column(), &col2 = s2.priv_column();
+    for (index r = 0; r < s1.rows(); r++) {
+      index i1 = row1[r], i2 = row2[r];
+      while (1) {
+        while (i1 < row1[r+1] && s1.priv_data()[i1] == number_zero<t1>()) i1++;
+        while (i2 < row2[r+1] && s2.priv_data()[i2] == number_zero<t2>()) i2++;
+        if (i1 == row1[r+1] || i2 == row2[r+1])
+          break;
+        if (col1[i1] != col2[i2] || s1.priv_data()[i1] != s2.priv_data()[i2])
+          return false;
+        i1++, i2++;
+      }
+      if (i1 != row1[r+1] || i2 != row2[r+1])
+        return false;
+    }
+    return true;
   }
 
   template<typename t1, typename t2>
-- 
2.43.0


From 9943ea5ff47998416e1ec9929ded80abcdedc458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 22/76] fix: solve_with_svd of a zero matrix returns the zero
 solution

---
 src/linalg/solve_with_svd_d.cc | 6 ++++++
 src/linalg/solve_with_svd_z.cc | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/linalg/solve_with_svd_d.cc b/src/linalg/solve_with_svd_d.cc
index 31d7c92..2c8abce 100644
--- a/src/linalg/solve_with_svd_d.cc
+++ b/src/linalg/solve_with_svd_d.cc
@@ -48,6 +48,12 @@ namespace linalg {
 	VT = VT(range(iota(0,i-1)), range());
       }
     }
+    if (s.size() == 0) {
+      /* All singular values were discarded: the pseudoinverse is zero. */
+      Indices dims(B.dimensions());
+      dims.at(0) = A.columns();
+      return RTensor::zeros(dims);
+    }
     RTensor X = foldc(U, 0, B, 0);
     scale_inplace(X, 0, 1.0/s);
     return foldc(VT, 0, X, 0);
diff --git a/src/linalg/solve_with_svd_z.cc b/src/linalg/solve_with_svd_z.cc
index 6bc7478..01a658f 100644
--- a/src/linalg/solve_with_svd_z.cc
+++ b/src/linalg/solve_with_svd_z.cc
@@ -48,6 +48,12 @@ namespace linalg {
 	VT = VT(range(iota(0,i-1)), range());
       }
     }
+    if (s.size() == 0) {
+      /* All singular values were discarded: the pseudoinverse is zero. */
+      Indices dims(B.dimensions());
+      dims.at(0) = A.columns();
+      return CTensor::zeros(dims);
+    }
     CTensor X = foldc(U, 0, B, 0);
     scale_inplace(X, 0, 1.0/s);
     return foldc(VT, 0, X, 0);
-- 
2.43.0


From 025412f436bda6ba673410e268aa8facae473da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 23/76] fix: solve_with_svd judges singular values relative to
 the largest one

---
 src/linalg/solve_with_svd_d.cc | 4 +++-
 src/linalg/solve_with_svd_z.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/linalg/solve_with_svd_d.cc b/src/linalg/solve_with_svd_d.cc
index 2c8abce..390e603 100644
--- a/src/linalg/solve_with_svd_d.cc
+++ b/src/linalg/solve_with_svd_d.cc
@@ -17,6 +17,7 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <algorithm>
 #include <cfloat>
 #include <tensor/tensor.h>
 #include <tensor/linalg.h>
@@ -30,6 +31,7 @@ namespace linalg {
      This function solves the system of equations A * X = B using the SVD
      of the matrix A = U * S * VT, through the formula X = V * (S^-1) * UT * B.
      When computing (S^-1), singular values below the tolerance are discarded.
+     By default, the tolerance is proportional to the largest singular value.
      
      \ingroup Linalg
   */
@@ -39,7 +41,7 @@ namespace linalg {
     RTensor U, VT;
     RTensor s = svd(A, &U, &VT, SVD_ECONOMIC);
     if (tol <= 0) {
-      tol = DBL_EPSILON;
+      tol = DBL_EPSILON * std::max(A.rows(), A.columns()) * s[0];
     }
     for (tensor::index i = 0; i < s.size(); i++) {
       if (s[i] <= tol) {
diff --git a/src/linalg/solve_with_svd_z.cc b/src/linalg/solve_with_svd_z.cc
index 01a658f..63cd7d4 100644
--- a/src/linalg/solve_with_svd_z.cc
+++ b/src/linalg/solve_with_svd_z.cc
@@ -17,6 +17,7 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <algorithm>
 #include <cfloat>
 #include <tensor/tensor.h>
 #include <tensor/linalg.h>
@@ -30,6 +31,7 @@ namespace linalg {
      This function solves the system of equations A * X = B using the SVD
      of the matrix A = U * S * VT, through the formula X = V * (S^-1) * UT * B.
      When computing (S^-1), singular values below the tolerance are discarded.
+     By default, the tolerance is proportional to the largest singular value.
      
      \ingroup Linalg
   */
@@ -39,7 +41,7 @@ namespace linalg {
     CTensor U, VT;
     RTensor s = svd(A, &U, &VT, SVD_ECONOMIC);
     if (tol <= 0) {
-      tol = DBL_EPSILON;
+      tol = DBL_EPSILON * std::max(A.rows(), A.columns()) * s[0];
     }
     for (tensor::index i = 0; i < s.size(); i++) {
       if (s[i] <= tol) {
-- 
2.43.0


From 21182dae6f2c021747e4f4416684e2c00cb6c7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 24/76] fix: block_svd returns complete bases for empty rows
 and rectangular blocks

---
 src/linalg/block_svd.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/linalg/block_svd.hpp b/src/linalg/block_svd.hpp
index 1183b45..7fd1e14 100644
--- a/src/linalg/block_svd.hpp
+++ b/src/linalg/block_svd.hpp
@@ -51,6 +51,18 @@ namespace linalg {
       return s;
     }
 
+    // The singular vectors of the blocks are only a complete basis when there
+    // are no empty rows or columns and the blocks have the right shapes.
+    index nvalues = 0;
+    for (index b = 0; b < nblocks; b++) {
+      nvalues += std::min(block_rows[b].size(), block_cols[b].size());
+    }
+    if (nvalues != minrc) {
+      delete[] block_rows;
+      delete[] block_cols;
+      return svd(A, pU, pVT, economic);
+    }
+
     RTensor s(minrc);
     s.fill_with_zeros();
     if (pU) {
-- 
2.43.0


From 62f1b4e4523e6921374aaff03ef4d1db6c194c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 25/76] fix: the power method returns the eigenvalue, not its
 conjugate

---
 src/linalg/eig_power.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/eig_power.hpp b/src/linalg/eig_power.hpp
index 224d965..0c8247f 100644
--- a/src/linalg/eig_power.hpp
+++ b/src/linalg/eig_power.hpp
@@ -52,7 +52,7 @@ namespace linalg {
     //
     for (size_t i = 0; i <= iter; i++) {
       Tensor<elt_t> v_new = (*A)(v);
-      eig = scprod(v, v_new);
+      eig = scprod(v_new, v);
       double err = norm0(v_new - eig * v);
       v = (v_new /= norm2(v_new));
       // Stop if the vector is sufficiently close to an eigenstate
-- 
2.43.0


From 1b4781e40655b88d891723199b106034e0c81954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 26/76] fix: eigs of small matrices returns right eigenvectors

---
 src/arpack/eigs_d.cc     | 2 +-
 src/arpack/eigs_map_d.cc | 2 +-
 src/arpack/eigs_map_z.cc | 2 +-
 src/arpack/eigs_z.cc     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arpack/eigs_d.cc b/src/arpack/eigs_d.cc
index a9abd54..0d76025 100644
--- a/src/arpack/eigs_d.cc
+++ b/src/arpack/eigs_d.cc
@@ -49,7 +49,7 @@ namespace linalg {
        * using the full routine.
        */
       CTensor vectors;
-      CTensor values = eig(A, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(A, eigenvectors? &vectors : 0);
       Indices ndx = RArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
diff --git a/src/arpack/eigs_map_d.cc b/src/arpack/eigs_map_d.cc
index 2019e6b..5ff4b8e 100644
--- a/src/arpack/eigs_map_d.cc
+++ b/src/arpack/eigs_map_d.cc
@@ -49,7 +49,7 @@ namespace linalg {
         M.at(range(),range(i)) = (*A)(v);
       }
       CTensor vectors;
-      CTensor values = eig(M, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(M, eigenvectors? &vectors : 0);
       Indices ndx = RArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
diff --git a/src/arpack/eigs_map_z.cc b/src/arpack/eigs_map_z.cc
index aa7a178..d4e8cca 100644
--- a/src/arpack/eigs_map_z.cc
+++ b/src/arpack/eigs_map_z.cc
@@ -48,7 +48,7 @@ namespace linalg {
         M.at(range(),range(i)) = (*A)(v);
       }
       CTensor vectors;
-      CTensor values = eig(M, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(M, eigenvectors? &vectors : 0);
       Indices ndx = CArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
diff --git a/src/arpack/eigs_z.cc b/src/arpack/eigs_z.cc
index b53d49c..0d278e8 100644
--- a/src/arpack/eigs_z.cc
+++ b/src/arpack/eigs_z.cc
@@ -53,7 +53,7 @@ namespace linalg {
        * using the full routine.
        */
       CTensor vectors;
-      CTensor values = eig(A, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(A, eigenvectors? &vectors : 0);
       Indices ndx = CArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
-- 
2.43.0


From aa127cb23118566e6257235e19a723be0acedd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 27/76] fix: do_eigs deletes the map it was given, as the other
 solvers do

---
 src/arpack/eigs_map_d.cc | 2 ++
 src/arpack/eigs_map_z.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/arpack/eigs_map_d.cc b/src/arpack/eigs_map_d.cc
index 5ff4b8e..40fa052 100644
--- a/src/arpack/eigs_map_d.cc
+++ b/src/arpack/eigs_map_d.cc
@@ -48,6 +48,7 @@ namespace linalg {
         v.at(i) = 1.0;
         M.at(range(),range(i)) = (*A)(v);
       }
+      delete A;
       CTensor vectors;
       CTensor values = eig(M, eigenvectors? &vectors : 0);
       Indices ndx = RArpack::sort_values(values, t);
@@ -70,6 +71,7 @@ namespace linalg {
     while (data.update() < RArpack::Finished) {
       data.set_y((*A)(data.get_x()));
     }
+    delete A;
     if (data.get_status() == RArpack::Finished) {
       if (converged)
         *converged = true;
diff --git a/src/arpack/eigs_map_z.cc b/src/arpack/eigs_map_z.cc
index d4e8cca..43564ca 100644
--- a/src/arpack/eigs_map_z.cc
+++ b/src/arpack/eigs_map_z.cc
@@ -47,6 +47,7 @@ namespace linalg {
         v.at(i) = 1.0;
         M.at(range(),range(i)) = (*A)(v);
       }
+      delete A;
       CTensor vectors;
       CTensor values = eig(M, eigenvectors? &vectors : 0);
       Indices ndx = CArpack::sort_values(values, t);
@@ -69,6 +70,7 @@ namespace linalg {
     while (data.update() < CArpack::Finished) {
       data.set_y((*A)(data.get_x()));
     }
+    delete A;
     if (data.get_status() == CArpack::Finished) {
       if (converged)
         *converged = true;
-- 
2.43.0


From b0daa523892d8c39e9258f3dbc40ec6f78732751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 28/76] fix: ARPACK rejects vectors of the wrong size, such as
 from non square matrices

---
 src/arpack/arpack_t.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arpack/arpack_t.cc b/src/arpack/arpack_t.cc
index 83f6507..86d5f4b 100644
--- a/src/arpack/arpack_t.cc
+++ b/src/arpack/arpack_t.cc
@@ -302,6 +302,10 @@ Tensor<ELT_T> ARPACK::get_y()
 
 void ARPACK::set_y(const Tensor<ELT_T> &y)
 {
+  if (y.size() != n) {
+    std::cerr << "In ARPACK::set_y(): the map returned a vector of the wrong size.\n";
+    abort();
+  }
   memcpy(get_y_vector(), y.begin(), sizeof(Tensor<ELT_T>::elt_t)*n);
 }
 
-- 
2.43.0


From f3267d590552a0b38506534818446a04de44c7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 29/76] fix: solve of a system without equations does not
 divide by zero

---
 src/linalg/solve_d.cc | 5 +++++
 src/linalg/solve_z.cc | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/linalg/solve_d.cc b/src/linalg/solve_d.cc
index a164dae..526aa47 100644
--- a/src/linalg/solve_d.cc
+++ b/src/linalg/solve_d.cc
@@ -57,6 +57,11 @@ namespace linalg {
       abort();
     }
 
+    // A system without equations has an empty solution
+    if (n == 0) {
+      return B;
+    }
+
     // The matrix that we pass to LAPACK is overwritten with the solution X
     RTensor output(B);
     RTensor::elt_t *b = tensor_pointer(output);
diff --git a/src/linalg/solve_z.cc b/src/linalg/solve_z.cc
index 0688578..a5d46ed 100644
--- a/src/linalg/solve_z.cc
+++ b/src/linalg/solve_z.cc
@@ -51,6 +51,11 @@ namespace linalg {
       abort();
     }
 
+    // A system without equations has an empty solution
+    if (n == 0) {
+      return B;
+    }
+
     // The matrix that we pass to LAPACK is overwritten with the solution X
     CTensor output(B);
     cdouble *b = tensor_pointer(output);
-- 
2.43.0


From 354336346b78e9f6ed0324b80534d26aa823a271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:04 +0000
Subject: [PATCH 30/76] fix: expm of a zero matrix does not convert an infinite
 number to integer

---
 src/linalg/expm_d.cc | 4 ++--
 src/linalg/expm_z.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/linalg/expm_d.cc b/src/linalg/expm_d.cc
index 7b27ff6..f244b96 100644
--- a/src/linalg/expm_d.cc
+++ b/src/linalg/expm_d.cc
@@ -50,8 +50,8 @@ namespace linalg {
     assert(Aunorm.columns() == Aunorm.rows());
 
     // Scale A until the norm is < 1/2
-    double val = log2(matrix_norminf(Aunorm));
-    int e = (int)floor(val);
+    double norm = matrix_norminf(Aunorm);
+    int e = (norm > 0)? (int)floor(log2(norm)) : -1;
     size_t j = std::max((int)0, (int)(e+1));
 
     // Pade approximation for exp(A)
diff --git a/src/linalg/expm_z.cc b/src/linalg/expm_z.cc
index 7ed7da9..905f0db 100644
--- a/src/linalg/expm_z.cc
+++ b/src/linalg/expm_z.cc
@@ -49,8 +49,8 @@ namespace linalg {
     assert(Aunorm.columns() == Aunorm.rows());
 
     // Scale A until the norm is < 1/2
-    double val = log2(matrix_norminf(Aunorm));
-    int e = (int)floor(val);
+    double norm = matrix_norminf(Aunorm);
+    int e = (norm > 0)? (int)floor(log2(norm)) : -1;
     size_t j = std::max(0, e+1);
 
     // Pade approximation for exp(A)
-- 
2.43.0


From 0b90a6867fe9cdb81f40f135c5f7c5c23b597060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 31/76] fix: declare the conjugate gradient solver for complex
 sparse matrices that is defined

---
 include/tensor/linalg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor/linalg.h b/include/tensor/linalg.h
index a2194f6..54fb757 100644
--- a/include/tensor/linalg.h
+++ b/include/tensor/linalg.h
@@ -56,7 +56,7 @@ namespace linalg {
   const RTensor cgs(const RSparse &A, const RTensor &b, const RTensor *x_start = 0,
                     int maxiter = 0, double tol = 0);
   /**Solve a real linear system of equations by the conjugate gradient method.*/
-  const CTensor cgs(const RSparse &A, const CTensor &b, const CTensor *x_start = 0,
+  const CTensor cgs(const CSparse &A, const CTensor &b, const CTensor *x_start = 0,
                     int maxiter = 0, double tol = 0);
 
   /**Solve a real linear system of equations by the conjugate gradient
-- 
2.43.0


From 0ffb1a622aa939629b6669d3c50c02e0f72034ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 32/76] fix: Fourier transforms of empty tensors return instead
 of using a null plan

---
 src/fftw/fftw_common.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fftw/fftw_common.cc b/src/fftw/fftw_common.cc
index d614b22..2f6fb30 100644
--- a/src/fftw/fftw_common.cc
+++ b/src/fftw/fftw_common.cc
@@ -22,9 +22,17 @@
 
 namespace tensor {
 
+// FFTW does not create plans for tensors without elements
+static bool
+is_empty(const Indices& dims)
+{
+  return dims.total_size() == 0;
+}
+
 // basic FFTW along all degrees of freedom
 void
 do_fftw(fftw_complex* pin, fftw_complex* pout, const Indices& dims, int direction) {
+  if (is_empty(dims)) return;
   fftw_plan plan;
   int d = dims.size();
 
@@ -44,9 +52,10 @@ do_fftw(fftw_complex* pin, fftw_complex* pout, const Indices& dims, int directio
 
 void
 do_fftw(fftw_complex* pin, fftw_complex* pout, index dim, const Indices& dims, int direction) {
+  if (is_empty(dims)) return;
   // Collect the dimensions for the transform
   fftw_iodim fft_dim;
-  fftw_iodim loop_dims[dims.size()-1];
+  fftw_iodim loop_dims[dims.size()];
   index stride = 1;
 
   for (index i = 0; i < dim; i++) {
@@ -77,6 +86,7 @@ do_fftw(fftw_complex* pin, fftw_complex* pout, index dim, const Indices& dims, i
 
 void
 do_fftw(fftw_complex* pin, fftw_complex* pout, const Booleans& convert, const Indices& dims, int direction) {
+  if (is_empty(dims)) return;
   // Collect the dimensions for the transform
   fftw_iodim fft_dims[dims.size()];
   fftw_iodim loop_dims[dims.size()];
-- 
2.43.0


From 83d6f7f419172dc5a11cf0dd31f0e634f93587ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 33/76] fix: replacing a file by another is atomic

---
 src/sdf/rename_file.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sdf/rename_file.cc b/src/sdf/rename_file.cc
index c937f53..4aa6c12 100644
--- a/src/sdf/rename_file.cc
+++ b/src/sdf/rename_file.cc
@@ -25,7 +25,14 @@ namespace sdf {
   bool rename_file(const std::string &orig, const std::string &dest, bool overwrite)
   {
     if (file_exists(dest)) {
-      if (!overwrite || !delete_file(dest)) {
+#if defined(_MSC_VER) || defined(__MINGW32__)
+      bool cleared = overwrite && delete_file(dest);
+#else
+      // rename() replaces the destination atomically: do not delete it before,
+      // or an interruption would lose both files.
+      bool cleared = overwrite;
+#endif
+      if (!cleared) {
 	std::cerr << "Unable to move file to destination " << dest
 		  << " because destination cannot be deleted." << std::endl;
 	abort();
-- 
2.43.0


From 234378ba2b313f668e2e638fe705f642e43ff014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 34/76] fix: a data file that cannot be renamed is not silently
 left behind

---
 src/sdf/data_file.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 9c6b34f..0d3d02a 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -120,8 +120,12 @@ DataFile::close()
       }
       break;
     case SDF_PARANOID:
-      if (file_exists(_actual_filename))
-        rename_file(_actual_filename, _filename);
+      if (file_exists(_actual_filename)
+          && !rename_file(_actual_filename, _filename)) {
+        std::cerr << "Cannot rename file " << _actual_filename << " to "
+                  << _filename << std::endl;
+        abort();
+      }
     }
   }
 }
-- 
2.43.0


From 92a41aa283bc1ad77201350d7c35d9bf7844d95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 35/76] fix: data that could not be written stops the program

---
 src/sdf/odata_file.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sdf/odata_file.cc b/src/sdf/odata_file.cc
index a38e255..34e7eec 100644
--- a/src/sdf/odata_file.cc
+++ b/src/sdf/odata_file.cc
@@ -27,13 +27,13 @@ template <class number>
 void write_raw_with_endian(std::ofstream &s, const number *data, size_t n)
 {
   s.write((char *)data, n * sizeof(number));
-  if (s.bad()) {
-    std::cerr << "I/O error when writing to SDF stream";
-    abort();
-  }
   // Horrible hack to ensure icc flushes our buffers and does not
   // cause buffer overflow.
   s.flush();
+  if (!s) {
+    std::cerr << "I/O error when writing to SDF stream";
+    abort();
+  }
 }
 
 #else
@@ -116,6 +116,10 @@ OutDataFile::close()
   if (is_open()) {
     _stream.flush();
     _stream.close();
+    if (!_stream) {
+      std::cerr << "I/O error when closing file " << _filename << std::endl;
+      abort();
+    }
     DataFile::close();
   }
 }
-- 
2.43.0


From 0ffb66d1160187544ce0174da0a0e6e0a776bdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 36/76] fix: reading past the end of a data file stops the
 program

---
 src/sdf/idata_file.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index b3f02b7..20b2237 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -26,7 +26,7 @@ template <class number>
 void read_raw_with_endian(std::ifstream &s, number *data, size_t n)
 {
   s.read((char *)data, n * sizeof(number));
-  if (s.bad()) {
+  if (!s) {
     std::cerr << "I/O error when reading from SDF stream";
     abort();
   }
@@ -38,7 +38,7 @@ void read_raw_with_endian(std::ifstream &s, number *data, size_t n)
   const int size = sizeof(number);
   if (size == 1) {
     s.read((char *)data, n * sizeof(number));
-    if (s.bad()) {
+    if (!s) {
       std::cerr << "I/O error when reading from SDF stream";
       abort();
     }
@@ -52,7 +52,7 @@ void read_raw_with_endian(std::ifstream &s, number *data, size_t n)
   do {
     size_t now = min<size_t>(n*size, buffer_size);
     s.read(buffer, now);
-    if (s.bad()) {
+    if (!s) {
       std::cerr << "I/O error when reading from stream " << s;
       abort();
     }
-- 
2.43.0


From 6799f078c4216671b944c86b7e0eaf2655b85246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 37/76] fix: names of a damaged data file are not read past
 their buffer

---
 src/sdf/idata_file.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index 20b2237..963cc61 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -17,6 +17,7 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <algorithm>
 #include <tensor/sdf.h>
 
 using namespace sdf;
@@ -146,7 +147,8 @@ InDataFile::read_variable_name()
 {
   char *buffer = new char[var_name_size];
   read_raw(buffer, var_name_size);
-  std::string output(buffer);
+  // The name of a damaged file might not be terminated
+  std::string output(buffer, std::find(buffer, buffer + var_name_size, '\0'));
   delete[] buffer;
   return output;
 }
@@ -265,7 +267,7 @@ InDataFile::read_header()
 {
   std::string var_name = read_variable_name();
 
-  if (var_name[0] != 's' || var_name[1] != 'd' || var_name[2] != 'f') {
+  if (var_name.size() < 6 || var_name[0] != 's' || var_name[1] != 'd' || var_name[2] != 'f') {
     std::cerr << "Bogus SDF file" << std::endl
               << "Wrong header: '" << var_name << "'" << std::endl;
     abort();
-- 
2.43.0


From ef8d61e80618b426c74e5245e36a3a93dd8ca5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 38/76] fix: type codes of a damaged data file are not looked
 up outside the table

---
 src/sdf/data_file.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 0d3d02a..02a845a 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -137,8 +137,10 @@ DataFile::tag_to_name(size_t tag)
 	"RTensor", "CTensor", "Real MPS", "Complex MPS"
     };
 
-    if (tag > 4 /* || tag < 0 */) {
-	std::cerr << "Not a valid tag code, " << tag << " found in " << _filename;
+    if (tag > TAG_CTENSOR_VECTOR /* || tag < 0 */) {
+	std::cerr << "Not a valid tag code, " << tag << " found in " << _filename
+                  << std::endl;
+        return "unknown object";
     }
     return names[tag];
 }
-- 
2.43.0


From 8796abeb6d4a98ae4f5320eca170dbcdd86d2b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 39/76] fix: an empty tensor in a data file is not read as a
 number

---
 src/sdf/idata_file.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index 963cc61..cc9b620 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -225,7 +225,7 @@ InDataFile::load(double *value, const std::string &name)
 {
   RTensor t;
   load(&t, name);
-  if (t.size() > 1) {
+  if (t.size() != 1) {
     std::cerr << "While reading file " << _filename << " found a tensor of size "
 	      << t.size() << " while a single value was expected.";
     abort();
@@ -238,7 +238,7 @@ InDataFile::load(cdouble *value, const std::string &name)
 {
   CTensor t;
   load(&t, name);
-  if (t.size() > 1) {
+  if (t.size() != 1) {
     std::cerr << "While reading file " << _filename << " found a tensor of size "
 	      << t.size() << " while a single value was expected.";
     abort();
-- 
2.43.0


From 6c49cc745949211a364894d8010817433e828bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 40/76] fix: opening a shared data file stops when its lock
 cannot be created

---
 src/sdf/data_file.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 02a845a..5440a0e 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -27,6 +27,7 @@
 #include <tensor/config.h>
 #include <tensor/sdf.h>
 #include <errno.h>
+#include <string.h>
 
 namespace sdf {
 
@@ -48,6 +49,11 @@ static int get_lock(char const *lockName, bool wait)
       mode_t m = umask(0);
       int fd = open(lockName, O_RDWR|O_CREAT, 0666);
       umask(m);
+      if (fd < 0 && errno != EINTR) {
+        std::cerr << "Cannot create lock file " << lockName << ": "
+                  << strerror(errno) << std::endl;
+        abort();
+      }
       if( fd >= 0 && flock( fd, LOCK_EX | LOCK_NB ) < 0 )
 	{
           if (errno == ENOTSUP) {
-- 
2.43.0


From 367d7fd02ffcb02d31be75187b224800cf7c48a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 41/76] fix: two processes cannot own the lock of a data file
 at once

---
 src/sdf/data_file.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 5440a0e..2fcd631 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -63,6 +63,18 @@ static int get_lock(char const *lockName, bool wait)
 	  close(fd);
 	  fd = -1;
 	}
+      if (fd >= 0)
+        {
+          // The previous owner removes the file before it releases the lock. If
+          // it did so after we opened it, our lock excludes nobody.
+          struct stat ours, current;
+          if (fstat(fd, &ours) < 0 || stat(lockName, &current) < 0 ||
+              ours.st_dev != current.st_dev || ours.st_ino != current.st_ino)
+            {
+              close(fd);
+              continue;
+            }
+        }
       if (fd > 0 || !wait)
 	return fd;
       sleep(1);
-- 
2.43.0


From d641306379895a53af5df6d2ceacf3cd9378c5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 42/76] fix: a shared data file can be locked when standard
 input is closed

---
 include/tensor/sdf.h | 2 +-
 src/sdf/data_file.cc | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tensor/sdf.h b/include/tensor/sdf.h
index dbc7f45..57b34d4 100644
--- a/include/tensor/sdf.h
+++ b/include/tensor/sdf.h
@@ -72,7 +72,7 @@ namespace sdf {
     const char *tag_to_name(size_t tag);
     void close();
     bool is_open() { return _open; }
-    bool is_locked() { return _lock; }
+    bool is_locked() { return _lock >= 0; }
     const std::string &actual_filename() { return _actual_filename; }
 
   };
diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 2fcd631..cd5e29f 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -75,7 +75,7 @@ static int get_lock(char const *lockName, bool wait)
               continue;
             }
         }
-      if (fd > 0 || !wait)
+      if (fd >= 0 || !wait)
 	return fd;
       sleep(1);
     } while (1);
@@ -99,7 +99,7 @@ DataFile::DataFile(const std::string &a_filename, int flags) :
   _actual_filename(a_filename),
   _filename(_actual_filename),
   _lock_filename(_actual_filename + ".lck"),
-  _lock((flags == SDF_SHARED) ? get_lock(_lock_filename.c_str(), true) : 0),
+  _lock((flags == SDF_SHARED) ? get_lock(_lock_filename.c_str(), true) : -1),
   _open(true)
 {
   switch (flags) {
-- 
2.43.0


From 1b343c6ff56f0bcfc8e1129357bc2f203b4ed3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 43/76] fix: the job file is read

---
 src/tools/jobs.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 72b86ff..84fe323 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -90,14 +90,14 @@ int
 Job::parse_file(std::istream &s, var_list &data)
 {
   std::string buffer;
-  int line;
-  for (line = 0; 1; line++) {
+  for (int line = 1; std::getline(s, buffer); line++) {
+    if (split_string(buffer).size() == 0)
+      continue;
     const Variable v = parse_line(buffer);
     if (v.name().size() == 0)
       return line;
-    else
-      data.push_back(v);
-  } while(1);
+    data.push_back(v);
+  }
   return 0;
 }
 
@@ -120,6 +120,10 @@ Job::Job(int argc, const char **argv) :
       }
       filename_ = std::string(argv[i]);
       std::ifstream s(argv[i]);
+      if (!s) {
+	std::cerr << "Cannot open job file " << filename_ << std::endl;
+	abort();
+      }
       int line = parse_file(s, variables_);
       if (line) {
 	std::cerr << "Syntax error in line " << line << " of job file " << filename_
-- 
2.43.0


From b59e812c9fea8b22c5626e0107b38011f6de3eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 44/76] fix: --job-blocks without --this-job runs the first
 block

---
 src/tools/jobs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 84fe323..772fed3 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -110,7 +110,7 @@ Job::Job(int argc, const char **argv) :
   bool job_blocks_found = false;
   bool this_job_found = false;
   tensor::index blocks;
-  tensor::index current_job;
+  tensor::index current_job = 0;
   int i;
   for (i = 0; i < argc; i++) {
     if (!strcmp(argv[i], "--job")) {
-- 
2.43.0


From 4e8e869b54a93060e9d9be4460d317c9de66abbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 45/76] fix: --first-job without --last-job runs until the end

---
 src/tools/jobs.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 772fed3..4c666eb 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -241,7 +241,9 @@ Job::Job(int argc, const char **argv) :
       std::cerr << "--first-job exceeds the number of jobs" << std::endl;
       abort();
     }
-    if (last_job_found) {
+    if (!last_job_found) {
+      last_job_ = number_of_jobs_ - 1;
+    } else {
       if (last_job_ >= number_of_jobs_) {
         std::cerr << "warning: --last-job exceeds the number of jobs" << std::endl;
         last_job_ = std::max<tensor::index>(0, number_of_jobs_ - 1);
-- 
2.43.0


From 50abb4adfbd3834e5a60292b8bb6e9e74858f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 46/76] fix: job variables without steps are a syntax error

---
 src/tools/jobs.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 4c666eb..296fa4b 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -59,7 +59,7 @@ Job::parse_line(const std::string &s)
   // where
   //  variable_name is any string
   //  min_value, max_value are real
-  //  n_steps is a non-negative integer, defaulting to 10
+  //  n_steps is a positive integer, defaulting to 10
   //  separator is any number of spaces, tabs, newlines, commas or semicolons
   if (data.size() == 0)
     return no_variable;
@@ -81,6 +81,11 @@ Job::parse_line(const std::string &s)
       return no_variable;
     } else {
       nsteps = atoi(data[3].c_str());
+      if (nsteps <= 0) {
+        std::cerr << "The number of steps of variable " << data[0]
+                  << " must be positive" << std::endl;
+        return no_variable;
+      }
     }
   }
   return Variable(data[0], min, max, nsteps);
-- 
2.43.0


From fce1517b27f1c9aee3e38776c4a95c5a9a0be666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 47/76] fix: copies of a shared pointer count as owners

---
 include/tensor/refcount.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/tensor/refcount.h b/include/tensor/refcount.h
index 8341d39..9e6bd6e 100644
--- a/include/tensor/refcount.h
+++ b/include/tensor/refcount.h
@@ -104,10 +104,19 @@ private:
   class shared_ptr {
   public:
     shared_ptr(T *t) : _value(t), _ref(new int(1)) {}
-    ~shared_ptr() { --(*_ref); if (!(*_ref)) { delete _value; delete _ref; }}
+    shared_ptr(const shared_ptr &o) : _ref(o._ref), _value(o._value) { ++(*_ref); }
+    shared_ptr &operator=(const shared_ptr &o) {
+      ++(*o._ref); /* Before release(), in case o is *this */
+      release();
+      _ref = o._ref;
+      _value = o._value;
+      return *this;
+    }
+    ~shared_ptr() { release(); }
     T* operator->() const { return _value; }
     T& operator*() const { return *_value; }
   private:
+    void release() { --(*_ref); if (!(*_ref)) { delete _value; delete _ref; }}
     int *_ref;
     T *_value;
   };
-- 
2.43.0


From 719c46fd04a9c78337c58e0f71533881fa06f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:47 +0000
Subject: [PATCH 48/76] fix: random long integers below a bound are not
 negative

---
 include/tensor/rand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor/rand.h b/include/tensor/rand.h
index 2d77084..b756bf2 100644
--- a/include/tensor/rand.h
+++ b/include/tensor/rand.h
@@ -72,7 +72,7 @@ template<> inline int rand<int>(int lower, int upper) {
 
 template<> inline long rand<long>(long upper) {
   if (upper)
-    return (long)rand<unsigned long>() % upper;
+    return (long)(rand<unsigned long>() % (unsigned long)upper);
   return 0;
 }
 
-- 
2.43.0


From bd230347486e5b6904ff04e4e2bec839f46f002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:47 +0000
Subject: [PATCH 49/76] fix: random integers in an interval wider than half the
 type do not overflow

---
 include/tensor/rand.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tensor/rand.h b/include/tensor/rand.h
index b756bf2..c3d9d77 100644
--- a/include/tensor/rand.h
+++ b/include/tensor/rand.h
@@ -67,7 +67,8 @@ template<> inline int rand<int>(int upper) {
 }
 
 template<> inline int rand<int>(int lower, int upper) {
-  return rand<int>(upper - lower) + lower;
+  unsigned int range = (unsigned int)upper - (unsigned int)lower;
+  return range? (int)((unsigned int)lower + rand<unsigned int>() % range) : lower;
 }
 
 template<> inline long rand<long>(long upper) {
@@ -77,7 +78,8 @@ template<> inline long rand<long>(long upper) {
 }
 
 template<> inline long rand<long>(long lower, long upper) {
-  return rand<long>(upper - lower) + lower;
+  unsigned long range = (unsigned long)upper - (unsigned long)lower;
+  return range? (long)((unsigned long)lower + rand<unsigned long>() % range) : lower;
 }
 
 template<> inline unsigned long rand<unsigned long>(unsigned long upper) {
-- 
2.43.0


From 117ff45669a310a6599a5bee4c968a55d4aed746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:47 +0000
Subject: [PATCH 50/76] fix: random real numbers do not reach the excluded
 upper bound

---
 include/tensor/rand.h | 8 ++++++--
 src/rand/rand.cc      | 7 ++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/tensor/rand.h b/include/tensor/rand.h
index c3d9d77..7dc9dfc 100644
--- a/include/tensor/rand.h
+++ b/include/tensor/rand.h
@@ -52,12 +52,16 @@ template<> double rand<double>();
 template<> cdouble rand<cdouble>();
 
 template<class real_number> inline real_number rand(real_number upper_limit) {
-  return static_cast<real_number>(upper_limit * rand<double>());
+  real_number x = static_cast<real_number>(upper_limit * rand<double>());
+  /* The product might be rounded up to the limit, which is excluded. */
+  return (x == upper_limit)? static_cast<real_number>(0) : x;
 }
 
 template<class real_number> inline real_number rand(real_number lower_limit,
                                           real_number upper_limit) {
-  return rand<real_number>(upper_limit - lower_limit) + lower_limit;
+  real_number x = rand<real_number>(upper_limit - lower_limit) + lower_limit;
+  /* The sum might be rounded up to the limit, which is excluded. */
+  return (x == upper_limit)? lower_limit : x;
 }
 
 template<> inline int rand<int>(int upper) {
diff --git a/src/rand/rand.cc b/src/rand/rand.cc
index 49616fa..b68fe95 100644
--- a/src/rand/rand.cc
+++ b/src/rand/rand.cc
@@ -113,7 +113,12 @@ template<> unsigned long rand<unsigned long>() { return genrand_int32(); }
 #endif
 
 template<> float rand<float>() {
-  return (float)genrand_res53();
+  /* Rounding to single precision might give 1, which is excluded. */
+  float x;
+  do {
+    x = (float)genrand_res53();
+  } while (x >= 1.0f);
+  return x;
 }
 
 template<> double rand<double>() {
-- 
2.43.0


From a99b600d327da9e3972e3d663cf458cbd3f23027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 51/76] fix: scprod() of vectors of different size read beyond
 the shorter one

---
 src/tensor/tensor_norm2_d.cc | 2 ++
 src/tensor/tensor_norm2_z.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/tensor/tensor_norm2_d.cc b/src/tensor/tensor_norm2_d.cc
index d83433d..c1fbe07 100644
--- a/src/tensor/tensor_norm2_d.cc
+++ b/src/tensor/tensor_norm2_d.cc
@@ -17,6 +17,7 @@
 */
 
 #define TENSOR_LOAD_IMPL
+#include <cassert>
 #include <tensor/tensor.h>
 
 namespace tensor {
@@ -28,6 +29,7 @@ namespace tensor {
 
   double scprod(const RTensor &a, const RTensor &b)
   {
+    assert(a.size() == b.size());
     double output = 0;
     for (RTensor::const_iterator ia = a.begin(), ib = b.begin();
 	 ia != a.end(); ia++, ib++)
diff --git a/src/tensor/tensor_norm2_z.cc b/src/tensor/tensor_norm2_z.cc
index 18522dd..5df9632 100644
--- a/src/tensor/tensor_norm2_z.cc
+++ b/src/tensor/tensor_norm2_z.cc
@@ -17,6 +17,7 @@
 */
 
 #define TENSOR_LOAD_IMPL
+#include <cassert>
 #include <tensor/tensor.h>
 
 namespace tensor {
@@ -28,6 +29,7 @@ namespace tensor {
 
   cdouble scprod(const CTensor &a, const CTensor &b)
   {
+    assert(a.size() == b.size());
     cdouble output = 0;
     for (CTensor::const_iterator ia = a.begin(), ib = b.begin();
 	 ia != a.end(); ia++, ib++)
-- 
2.43.0


From 2086191f8b206eb66f229a50f529fec3bf0683b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 52/76] fix: to_complex(re, im) read beyond IM when it was
 smaller than RE

---
 src/tensor/tensor_to_complex.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tensor/tensor_to_complex.cc b/src/tensor/tensor_to_complex.cc
index 997fd3b..5008fdd 100644
--- a/src/tensor/tensor_to_complex.cc
+++ b/src/tensor/tensor_to_complex.cc
@@ -18,6 +18,7 @@
 */
 
 #define TENSOR_LOAD_IMPL
+#include <cassert>
 #include <tensor/tensor.h>
 
 namespace tensor {
@@ -34,6 +35,7 @@ namespace tensor {
 
   const CTensor to_complex(const RTensor &r, const RTensor &i)
   {
+    assert(r.size() == i.size());
     CTensor output(r.dimensions());
     RTensor::const_iterator ir = r.begin();
     RTensor::const_iterator ii = i.begin();
-- 
2.43.0


From 2208f4da267f856b527a291acc9925f9b2853af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 53/76] fix: surrounding_dimensions() read outside the
 dimensions for a wrong index

---
 src/indices/surrounding_dimensions.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/indices/surrounding_dimensions.cc b/src/indices/surrounding_dimensions.cc
index 895f723..054f674 100644
--- a/src/indices/surrounding_dimensions.cc
+++ b/src/indices/surrounding_dimensions.cc
@@ -17,6 +17,7 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <cassert>
 #include <tensor/indices.h>
 
 namespace tensor {
@@ -36,6 +37,7 @@ namespace tensor {
 			 index *d1, index *d2, index *d3)
   {
     index i, l = d.size();
+    assert(ndx >= 0 && ndx < l);
     for (i = 0, *d1 = 1; i < ndx; i++) {
       *d1 *= d[i];
     }
-- 
2.43.0


From a0d1dd5f921a58b67ac3c71433a66c25575fc24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 54/76] fix: a sparse matrix could be built from a tensor that
 is not a matrix

---
 include/tensor/detail/sparse_base.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tensor/detail/sparse_base.hpp b/include/tensor/detail/sparse_base.hpp
index bc619a0..cf3ff53 100644
--- a/include/tensor/detail/sparse_base.hpp
+++ b/include/tensor/detail/sparse_base.hpp
@@ -178,6 +178,7 @@ namespace tensor {
     dims_(t.dimensions()), row_start_(t.rows()+1),
     column_(), data_()
   {
+    assert(t.rank() == 2);
     index nonzero = number_of_nonzero<elt_t>(t);
     column_ = Indices(nonzero);
     data_ = Tensor<elt_t>(nonzero);
-- 
2.43.0


From ee6042fa81dcd1ef342beb235cacfe049cbcddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 55/76] fix: solve() ignored part of a tensor of coefficients
 that is not a matrix

---
 src/linalg/solve_d.cc | 2 +-
 src/linalg/solve_z.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linalg/solve_d.cc b/src/linalg/solve_d.cc
index 526aa47..f1f4812 100644
--- a/src/linalg/solve_d.cc
+++ b/src/linalg/solve_d.cc
@@ -43,7 +43,7 @@ namespace linalg {
     blas::integer nrhs;
 
     // Currently, we only solve square systems
-    if ((size_t)n != A.columns()) {
+    if (A.rank() != 2 || (size_t)n != A.columns()) {
       std::cerr << "Routine solve() can only operate on square systems of equations, i.e\n"
                 << "when the number of unknowns is equal to the number of equations.\n"
                 << "However, you have passed a matrix of size " << A.columns() << " by " << A.rows();
diff --git a/src/linalg/solve_z.cc b/src/linalg/solve_z.cc
index a5d46ed..cf63e0f 100644
--- a/src/linalg/solve_z.cc
+++ b/src/linalg/solve_z.cc
@@ -37,7 +37,7 @@ namespace linalg {
     blas::integer nrhs;
 
     // Currently, we only solve square systems
-    if (n != (blas::integer)A.columns()) {
+    if (A.rank() != 2 || n != (blas::integer)A.columns()) {
       std::cerr << "Routine solve() can only operate on square systems of equations, i.e\n"
 		<< "when the number of unknowns is equal to the number of equations.\n"
 		<< "However, you have passed a matrix of size " << A.columns() << " by " << A.rows();
-- 
2.43.0


From fd77852fc58b7bf7afaa6736958477f50a45480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:56 +0000
Subject: [PATCH 56/76] fix: sockets and block devices are not directories

---
 src/sdf/isdir.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdf/isdir.cc b/src/sdf/isdir.cc
index b1b3b5e..9a1df82 100644
--- a/src/sdf/isdir.cc
+++ b/src/sdf/isdir.cc
@@ -28,7 +28,7 @@ namespace sdf {
     struct stat s[1];
     if (stat(filename.c_str(), s))
       return false;
-    return s->st_mode & S_IFDIR;
+    return (s->st_mode & S_IFMT) == S_IFDIR;
   }
 
 }
-- 
2.43.0


From 1c4a2df9b13bad0c1a5afd96802075273641c9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:56 +0000
Subject: [PATCH 57/76] fix: the value of a flag that does not exist is not
 read

---
 src/tools/flags.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools/flags.cc b/src/tools/flags.cc
index df09757..dc30fbe 100644
--- a/src/tools/flags.cc
+++ b/src/tools/flags.cc
@@ -33,7 +33,11 @@ namespace tensor {
 
   double Flags::get(unsigned int code) const
   {
-    return _values[code];  
+    if (code >= _values.size()) {
+      std::cerr << "Invalid flag code " << code << " into Flags array\n";
+      abort();
+    }
+    return _values[code];
   }
 
   class Flags &Flags::set(unsigned int code, double value)
-- 
2.43.0


From e134bb0f8a88a508421452bdde9ae2b9c4e4fe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:56 +0000
Subject: [PATCH 58/76] fix: the matrix form of an empty tensor has an opening
 bracket

---
 src/views/matrix_form.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/views/matrix_form.cc b/src/views/matrix_form.cc
index 6e2bd0c..12bc1d1 100644
--- a/src/views/matrix_form.cc
+++ b/src/views/matrix_form.cc
@@ -31,10 +31,9 @@ namespace tensor {
     } else if (data.rank() == 2) {
       index rows = data.rows();
       index cols = data.columns();
+      s << "[";
       for (index i = 0; i < rows; i++) {
-	if (i == 0)
-	  s << "[";
-	else
+	if (i)
 	  s << "\n ";
 	for (index j = 0; j < cols; j++) {
 	  if (j) s << ", ";
@@ -43,11 +42,10 @@ namespace tensor {
       }
       s << "]";
     } else if (data.rank() == 1) {
+      s << "[";
       for (index i = 0; i < data.size(); i++) {
 	if (i)
 	  s << ", ";
-	else
-	  s << "[";
 	s << data[i];
       }
       s << "]";
-- 
2.43.0


From 41337a169dd010c4315f521345aa49cc4dae767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:18 +0000
Subject: [PATCH 59/76] fix: the eigensolvers accepted a selector just past the
 last one

---
 src/arpack/arpack_t.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arpack/arpack_t.cc b/src/arpack/arpack_t.cc
index 86d5f4b..63658d1 100644
--- a/src/arpack/arpack_t.cc
+++ b/src/arpack/arpack_t.cc
@@ -39,7 +39,7 @@ ARPACK::ARPACK(size_t _n, enum EigType _t, size_t _nev)
     abort();
   }
 #endif
-  if (_t < 0 || _t > 6) {
+  if (_t < 0 || _t > 5) {
     std::cerr << "Invalid argument EigType passed to Arpack constructor"
               << std::endl;
     abort();
@@ -332,6 +332,10 @@ ARPACK::sort_values(const CTensor &values, EigType t)
   case SmallestReal:
     aux = tensor::real(values);
     break;
+  default:
+    std::cerr << "Invalid argument EigType passed to ARPACK::sort_values()"
+              << std::endl;
+    abort();
   }
   return sort_indices(aux);
 }
-- 
2.43.0


From a2e947b9269621453773879924786cdf04b21597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:18 +0000
Subject: [PATCH 60/76] fix: error_message() read an uninitialized pointer
 unless the eigensolver had failed

---
 src/arpack/arpack_t.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arpack/arpack_t.cc b/src/arpack/arpack_t.cc
index 63658d1..879ebef 100644
--- a/src/arpack/arpack_t.cc
+++ b/src/arpack/arpack_t.cc
@@ -111,6 +111,9 @@ ARPACK::ARPACK(size_t _n, enum EigType _t, size_t _nev)
   for (size_t i = 0; i < 15; i++)
     ipntr[i] = 0;
 
+  // No error so far
+  error = "";
+
   // We have initialized this structure
   status = Initialized;
 }
-- 
2.43.0


From 8a2c1a22640fa36373a18260054e9d0bb6d3a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:18 +0000
Subject: [PATCH 61/76] fix: a copy of the vector given to an operator by
 eigs() changed and dangled later

---
 src/arpack/arpack_t.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arpack/arpack_t.cc b/src/arpack/arpack_t.cc
index 879ebef..aa3700b 100644
--- a/src/arpack/arpack_t.cc
+++ b/src/arpack/arpack_t.cc
@@ -295,7 +295,11 @@ ELT_T *ARPACK::get_y_vector() {
 
 const Tensor<ELT_T> ARPACK::get_x()
 {
-  return Vector<ELT_T>(n, get_x_vector());
+  // A copy of our own memory, because the receiver may keep it
+  const ELT_T *x = get_x_vector();
+  Tensor<ELT_T> output(n);
+  memcpy(output.begin(), x, n * sizeof(ELT_T));
+  return output;
 }
 
 Tensor<ELT_T> ARPACK::get_y()
-- 
2.43.0


From d345ed8c32199973f120e13d6722280194121a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:43 +0000
Subject: [PATCH 62/76] fix: the Python reader failed on files of the other
 byte order

---
 python/sdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/sdf.py b/python/sdf.py
index 1e7a8a8..2096bbf 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -106,21 +106,21 @@ class SDF:
         output = np.ndarray(shape=(n,),dtype=self.long_type)
         self.f.readinto(output)
         if self.interpret:
-            output.byteswwap()
+            output.byteswap(True)
         return output
 
     def read_doubles(self, n):
         output = np.ndarray(shape=(n,),dtype=self.double)
         self.f.readinto(output)
         if self.interpret:
-            output.byteswwap()
+            output.byteswap(True)
         return output
     
     def read_complex(self, n):
         output = np.ndarray(shape=(n,),dtype=self.cdouble)
         self.f.readinto(output)
         if self.interpret:
-            output.byteswwap()
+            output.byteswap(True)
         return output
 
     def load_tag(self):
-- 
2.43.0


From cccb2e3db4b24f77c9486d62391349464b26d57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:43 +0000
Subject: [PATCH 63/76] fix: the Python reader lost the lists of tensors

---
 python/sdf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/sdf.py b/python/sdf.py
index 2096bbf..a3a8697 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -89,8 +89,7 @@ class SDF:
 
     def load_mp(self, iscomplex):
         L = self.read_longs(1)[0]
-        [self.load_record()[0] for i in range(L)]
-        return []
+        return [self.load_record()[0] for i in range(L)]
 
     def load_tensor(self, iscomplex):
         rank = self.read_longs(1)[0]
-- 
2.43.0


From effd74efeebb0687c1889bf8bb7a40c4c6e1cb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:43 +0000
Subject: [PATCH 64/76] fix: the Python reader took records named sdf... for
 file headers and anything for a data file

---
 python/sdf.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/python/sdf.py b/python/sdf.py
index a3a8697..fe24636 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -55,6 +55,7 @@ class SDF:
     def load(self):
         self.f = self.filename.open('rb')
         output = {}
+        self.load_header()
         while self.f.readable():
             obj, name = self.load_record()
             if len(name):
@@ -84,7 +85,7 @@ class SDF:
         elif code == 3:
             obj = self.load_mp(True)
         else:
-            raise Error('Unknown SDF tag')
+            raise ValueError('Unknown SDF tag')
         return obj, name
 
     def load_mp(self, iscomplex):
@@ -122,22 +123,27 @@ class SDF:
             output.byteswap(True)
         return output
 
+    def load_header(self):
+        header = self.f.read(64)
+        if len(header) != 64 or header[0:3] != b'sdf':
+            raise ValueError('Not an SDF file')
+        if header[4] == ord('4'):
+            self.long_type = self.int32
+        elif header[4] == ord('8'):
+            self.long_type = self.int64
+        else:
+            raise ValueError('Unsupported tag size in SDF file')
+        if header[5] == ord('1'):
+            self.set_endian('little')
+        elif header[5] == ord('0'):
+            self.set_endian('big')
+        else:
+            raise ValueError('Unsupported byte order in SDF file')
+
     def load_tag(self):
         name = self.f.read(64)
         code = []
         if len(name):
-            if name[0] == 115 and name[1] == 100 and name[2] == 102:
-                if name[4] == ord('4'):
-                    self.long_type = self.int32
-                elif name[4] == ord('8'):
-                    self.long_type = self.int64
-                else:
-                    raise ValueError('Unsupported tag size in SDF file');
-                if name[5] == ord('1'):
-                    self.set_endian('little')
-                else:
-                    self.set_endian('big')
-                name = self.f.read(64)
             name, sep, rest = name.partition(b'\x00')
             name = str(name,'utf-8')
             code = self.read_longs(1)[0]
-- 
2.43.0


From 501e3470cb9c10833c1eb632563e297ce5a7fbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:43 +0000
Subject: [PATCH 65/76] fix: the Python reader stopped at the first unnamed
 record

---
 python/sdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/sdf.py b/python/sdf.py
index fe24636..fbd74b0 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -58,7 +58,7 @@ class SDF:
         self.load_header()
         while self.f.readable():
             obj, name = self.load_record()
-            if len(name):
+            if name is not None:
                 output[name] = obj
             else:
                 break
@@ -74,8 +74,8 @@ class SDF:
         name, code = self.load_tag()
         obj = []
         if code == -1:
-            name = '';
-            obj = [];
+            name = None
+            obj = []
         elif code == 0:
             obj = self.load_tensor(False)
         elif code == 1:
-- 
2.43.0


From 43b893818626b255e69b8478924bb3999ecca57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:43 +0000
Subject: [PATCH 66/76] fix: the Python reader returned garbage from truncated
 files and refused empty tensors

---
 python/sdf.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/sdf.py b/python/sdf.py
index fbd74b0..f7ea9db 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -102,23 +102,28 @@ class SDF:
             data = self.read_doubles(L)
         return np.ndarray(shape=dims,buffer=data,dtype=data.dtype,order='F')
 
+    def read_exactly(self, output):
+        # Empty arrays cannot be seen as a sequence of bytes
+        if output.size and self.f.readinto(output) != output.nbytes:
+            raise EOFError('Unexpected end of SDF file')
+
     def read_longs(self, n):
         output = np.ndarray(shape=(n,),dtype=self.long_type)
-        self.f.readinto(output)
+        self.read_exactly(output)
         if self.interpret:
             output.byteswap(True)
         return output
 
     def read_doubles(self, n):
         output = np.ndarray(shape=(n,),dtype=self.double)
-        self.f.readinto(output)
+        self.read_exactly(output)
         if self.interpret:
             output.byteswap(True)
         return output
     
     def read_complex(self, n):
         output = np.ndarray(shape=(n,),dtype=self.cdouble)
-        self.f.readinto(output)
+        self.read_exactly(output)
         if self.interpret:
             output.byteswap(True)
         return output
@@ -144,6 +149,8 @@ class SDF:
         name = self.f.read(64)
         code = []
         if len(name):
+            if len(name) != 64:
+                raise EOFError('Unexpected end of SDF file')
             name, sep, rest = name.partition(b'\x00')
             name = str(name,'utf-8')
             code = self.read_longs(1)[0]
-- 
2.43.0


From 5d550abaf814e46b09d4c9909005e1f3a602e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:43 +0000
Subject: [PATCH 67/76] fix: the Python reader refused tensors without indices

---
 python/sdf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/sdf.py b/python/sdf.py
index f7ea9db..388b1b4 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -100,7 +100,10 @@ class SDF:
             data = self.read_complex(L)
         else:
             data = self.read_doubles(L)
-        return np.ndarray(shape=dims,buffer=data,dtype=data.dtype,order='F')
+        if rank == 0:
+            # A tensor without indices has no elements
+            return data
+        return data.reshape(dims,order='F')
 
     def read_exactly(self, output):
         # Empty arrays cannot be seen as a sequence of bytes
-- 
2.43.0


From c7739742bc1d3572018a316e22bad245d5f0c3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:58 +0000
Subject: [PATCH 68/76] fix: the Python reader accepted lists of tensors that
 end too early

---
 python/sdf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/sdf.py b/python/sdf.py
index 388b1b4..043b912 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -90,7 +90,13 @@ class SDF:
 
     def load_mp(self, iscomplex):
         L = self.read_longs(1)[0]
-        return [self.load_record()[0] for i in range(L)]
+        output = []
+        for i in range(L):
+            obj, name = self.load_record()
+            if name is None:
+                raise EOFError('Unexpected end of SDF file')
+            output.append(obj)
+        return output
 
     def load_tensor(self, iscomplex):
         rank = self.read_longs(1)[0]
-- 
2.43.0


From 0ff84b010c57d310d4784a3551acdf1624846a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:05 +0000
Subject: [PATCH 69/76] fix: jobs whose numbers differ by 2^32 shared one
 record of a dataset

---
 src/tools/jobs_dataset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/jobs_dataset.cc b/src/tools/jobs_dataset.cc
index 1d2029e..4af1477 100644
--- a/src/tools/jobs_dataset.cc
+++ b/src/tools/jobs_dataset.cc
@@ -42,7 +42,7 @@ namespace jobs {
   }
 
   static std::string
-  dataset_name(const std::string &base, int jobid)
+  dataset_name(const std::string &base, tensor::index jobid)
   {
     return base + "/" + NumberToString(jobid);
   }
-- 
2.43.0


From dd64b1b69c7f8bff1cb582678b0edc81fb731e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:40 +0000
Subject: [PATCH 70/76] fix: job numbers beyond 2^31 on the command line

---
 src/tools/jobs.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 296fa4b..192f2b4 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -142,14 +142,14 @@ Job::Job(int argc, const char **argv) :
 	std::cerr << "Missing argument to --this-job" << std::endl;
 	abort();
       }
-      current_job = atoi(argv[i]);
+      current_job = atol(argv[i]);
       this_job_found = true;
     } else if (!strcmp(argv[i], "--job-blocks")) {
       if (++i == argc) {
 	std::cerr << "Missing argument to --job-blocks" << std::endl;
 	abort();
       }
-      blocks = atoi(argv[i]);
+      blocks = atol(argv[i]);
       job_blocks_found = true;
     } else if (!strcmp(argv[i], "--first-job")) {
       if (this_job_found) {
@@ -160,7 +160,7 @@ Job::Job(int argc, const char **argv) :
 	std::cerr << "Missing argument to --first-job" << std::endl;
 	abort();
       }
-      first_job_ = atoi(argv[i]);
+      first_job_ = atol(argv[i]);
       first_job_found = true;
     } else if (!strcmp(argv[i], "--last-job")) {
       if (!first_job_found) {
@@ -171,7 +171,7 @@ Job::Job(int argc, const char **argv) :
 	std::cerr << "Missing argument to --last-job" << std::endl;
 	abort();
       }
-      last_job_ = atoi(argv[i]);
+      last_job_ = atol(argv[i]);
       last_job_found = true;
     } else if (!strcmp(argv[i], "--variable")) {
       if (++i == argc) {
-- 
2.43.0


From 47eb37a7706e0a8974a92a856f924025ccc25ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:16 +0000
Subject: [PATCH 71/76] fix: sparse matrices with preallocated room left it
 uninitialized

---
 include/tensor/detail/sparse_base.hpp | 2 ++
 src/sparse/sparse_rows.cc             | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/tensor/detail/sparse_base.hpp b/include/tensor/detail/sparse_base.hpp
index cf3ff53..b6bd66c 100644
--- a/include/tensor/detail/sparse_base.hpp
+++ b/include/tensor/detail/sparse_base.hpp
@@ -59,6 +59,8 @@ namespace tensor {
     dims_.at(0) = rows;
     dims_.at(1) = cols;
     std::fill(row_start_.begin(), row_start_.end(), 0);
+    std::fill(column_.begin(), column_.end(), 0);
+    data_.fill_with_zeros();
   }
 
   template<typename elt_t>
diff --git a/src/sparse/sparse_rows.cc b/src/sparse/sparse_rows.cc
index 9ddeb85..e318caf 100644
--- a/src/sparse/sparse_rows.cc
+++ b/src/sparse/sparse_rows.cc
@@ -17,6 +17,7 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <algorithm>
 #include <tensor/sparse.h>
 
 namespace tensor {
@@ -25,11 +26,14 @@ namespace tensor {
   sparse_rows(const Indices &row_start, const Indices &column)
   {
     Indices output(column.size());
-    for (index n = 0, i = 0, rows = row_start.size()-1; i < rows; i++) {
+    index n = 0;
+    for (index i = 0, rows = row_start.size()-1; i < rows; i++) {
       for (index j = row_start[i], j_end = row_start[i+1]; j < j_end; j++) {
 	output.at(n++) = i;
       }
     }
+    // The elements that are preallocated, but not used, are zeros.
+    std::fill(output.begin() + n, output.end(), 0);
     return output;
   }
 
-- 
2.43.0


From 5d1f740f4550232fffdc64007564f89f28b148fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:16 +0000
Subject: [PATCH 72/76] fix: sparse matrices were built from negative
 coordinates and inconsistent parts

---
 include/tensor/detail/sparse_base.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/tensor/detail/sparse_base.hpp b/include/tensor/detail/sparse_base.hpp
index b6bd66c..5b22131 100644
--- a/include/tensor/detail/sparse_base.hpp
+++ b/include/tensor/detail/sparse_base.hpp
@@ -81,12 +81,37 @@ namespace tensor {
     }
   };
 
+  /* Row offsets that grow from zero and stay within the elements (there may be
+   * preallocated ones left), and valid column numbers that grow along each row.
+   */
+  static inline bool
+  is_compressed_row_form(const Indices &dims, const Indices &row_start,
+                         const Indices &column)
+  {
+    index rows = dims[0];
+    if (row_start[0] != 0 || row_start[rows] > column.size())
+      return false;
+    for (index i = 0; i < rows; i++) {
+      if (row_start[i] > row_start[i+1] || row_start[i+1] > column.size())
+        return false;
+      for (index j = row_start[i]; j < row_start[i+1]; j++) {
+        if (column[j] < ((j == row_start[i]) ? 0 : column[j-1] + 1) ||
+            column[j] >= dims[1])
+          return false;
+      }
+    }
+    return true;
+  }
+
   template<typename elt_t>
   Sparse<elt_t>::Sparse(const Indices &dims, const Indices &row_start,
                         const Indices &column, const Tensor<elt_t> &data) :
     dims_(dims), row_start_(row_start), column_(column), data_(data)
   {
+	  assert(dims.size() == 2);
 	  assert(row_start.size() == dims[0]+1);
+	  assert(column.size() == data.size());
+	  assert(is_compressed_row_form(dims, row_start, column));
   }
 
   template<typename elt_t>
@@ -106,6 +131,7 @@ namespace tensor {
     for (i = 0; i < l; i++) {
       index r = rows[i];
       index c = cols[i];
+      assert(r >= 0 && c >= 0);
       nrows = std::max(nrows, r+1);
       ncols = std::max(ncols, c+1);
       if (data[i] != number_zero<elt_t>()) {
-- 
2.43.0


From bc9c22fbd2233bd11bd83ab1753d376ef1af58b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:16 +0000
Subject: [PATCH 73/76] fix: take_diag accepted the same index twice

---
 src/tensor/tensor_take_diag.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tensor/tensor_take_diag.cc b/src/tensor/tensor_take_diag.cc
index 9feda7a..4a0969b 100644
--- a/src/tensor/tensor_take_diag.cc
+++ b/src/tensor/tensor_take_diag.cc
@@ -57,6 +57,7 @@ const tensor::Tensor<elt_t> do_take_diag(const tensor::Tensor<elt_t> &a, int whi
   if (ndx2 < 0)
     ndx2 += a.rank();
   assert((ndx2 < a.rank()) && (ndx2 >= 0));
+  assert(ndx1 != ndx2);
 
   tensor::Indices new_dims(std::max((int)a.rank()-1,(int)1));
   size_t rank = 0;
-- 
2.43.0


From 0a1a69b13693f1eae4f2a986f97b6b1bd786b915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:16 +0000
Subject: [PATCH 74/76] fix: cgs and eig_power took tensors of other ranks for
 matrices

---
 src/linalg/cgs_d.cc       | 1 +
 src/linalg/cgs_z.cc       | 1 +
 src/linalg/eig_power_d.cc | 2 ++
 src/linalg/eig_power_z.cc | 2 ++
 4 files changed, 6 insertions(+)

diff --git a/src/linalg/cgs_d.cc b/src/linalg/cgs_d.cc
index 2dbac4d..534ca97 100644
--- a/src/linalg/cgs_d.cc
+++ b/src/linalg/cgs_d.cc
@@ -33,6 +33,7 @@ namespace linalg {
   cgs(const RTensor &A, const RTensor &b, const RTensor *x_start,
       int maxiter, double tol)
   {
+    assert(A.rank() == 2);
     return do_cgs(new tensor::MatrixMap<RTensor>(A), b, x_start, maxiter, tol);
   }
 
diff --git a/src/linalg/cgs_z.cc b/src/linalg/cgs_z.cc
index 2c9f8c8..6e3b007 100644
--- a/src/linalg/cgs_z.cc
+++ b/src/linalg/cgs_z.cc
@@ -33,6 +33,7 @@ namespace linalg {
   cgs(const CTensor &A, const CTensor &b, const CTensor *x_start,
       int maxiter, double tol)
   {
+    assert(A.rank() == 2);
     return do_cgs(new tensor::MatrixMap<CTensor>(A), b, x_start, maxiter, tol);
   }
 
diff --git a/src/linalg/eig_power_d.cc b/src/linalg/eig_power_d.cc
index 1c59527..35ead59 100644
--- a/src/linalg/eig_power_d.cc
+++ b/src/linalg/eig_power_d.cc
@@ -31,6 +31,7 @@ namespace linalg {
   double
   eig_power_right(const RTensor &O, RTensor *vector, size_t iter, double tol)
   {
+    assert(O.rank() == 2);
     assert(O.rows() == O.columns());
     return do_eig_power(new tensor::MatrixMap<RTensor>(O), O.columns(),
                         vector, iter, tol);
@@ -46,6 +47,7 @@ namespace linalg {
   double
   eig_power_left(const RTensor &O, RTensor *vector, size_t iter, double tol)
   {
+    assert(O.rank() == 2);
     assert(O.rows() == O.columns());
     return do_eig_power(new tensor::MatrixMap<RTensor>(O, true), O.columns(),
                         vector, iter, tol);
diff --git a/src/linalg/eig_power_z.cc b/src/linalg/eig_power_z.cc
index e5e733d..1907321 100644
--- a/src/linalg/eig_power_z.cc
+++ b/src/linalg/eig_power_z.cc
@@ -31,6 +31,7 @@ namespace linalg {
   tensor::cdouble
   eig_power_right(const CTensor &O, CTensor *vector, size_t iter, double tol)
   {
+    assert(O.rank() == 2);
     assert(O.rows() == O.columns());
     return do_eig_power(new tensor::MatrixMap<CTensor>(O), O.columns(),
                         vector, iter, tol);
@@ -46,6 +47,7 @@ namespace linalg {
   tensor::cdouble
   eig_power_left(const CTensor &O, CTensor *vector, size_t iter, double tol)
   {
+    assert(O.rank() == 2);
     assert(O.rows() == O.columns());
     return do_eig_power(new tensor::MatrixMap<CTensor>(O, true), O.columns(),
                         vector, iter, tol);
-- 
2.43.0


From 5389ca57d2d43f5d2109c95d5168d33d086f4ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:16 +0000
Subject: [PATCH 75/76] fix: numbers of blocks so large that the share of a job
 overflowed

---
 src/tools/jobs.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 192f2b4..e497084 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -232,8 +232,10 @@ Job::Job(int argc, const char **argv) :
       std::cerr << "The number of job blocks cannot be zero or negative.";
       abort();
     }
-    tensor::index delta = (number_of_jobs_ + blocks - 1) / blocks;
-    first_job_ = current_job = std::min(current_job * delta, number_of_jobs_);
+    // There may be so many blocks that sums and products with them overflow
+    tensor::index delta = number_of_jobs_ / blocks + (number_of_jobs_ % blocks != 0);
+    first_job_ = current_job = (current_job < blocks)?
+      std::min(current_job * delta, number_of_jobs_) : number_of_jobs_;
     last_job_ = std::min(number_of_jobs_ - 1, first_job_ + delta - 1);
   } else if (first_job_found) {
     /*
-- 
2.43.0


From b3bbc1b2773e7f0737579c1e04bf0685a68bb58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:41 +0000
Subject: [PATCH 76/76] fix: the power method returned NaN for operators that
 annihilate the vector

---
 src/linalg/eig_power.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/linalg/eig_power.hpp b/src/linalg/eig_power.hpp
index 0c8247f..19a4867 100644
--- a/src/linalg/eig_power.hpp
+++ b/src/linalg/eig_power.hpp
@@ -54,7 +54,11 @@ namespace linalg {
       Tensor<elt_t> v_new = (*A)(v);
       eig = scprod(v_new, v);
       double err = norm0(v_new - eig * v);
-      v = (v_new /= norm2(v_new));
+      double norm = norm2(v_new);
+      // The map annihilates the vector: an eigenstate with zero eigenvalue
+      if (norm == 0)
+        break;
+      v = (v_new /= norm);
       // Stop if the vector is sufficiently close to an eigenstate
       if (err < tol * std::abs(eig))
         break;
-- 
2.43.0

