From 74005110b5930fad5c9c04d193d3bb9191659d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 01/70] fix: strided column-major to row-major matrix copy used
 the sizes swapped

---
 src/ovxx/assign/copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/assign/copy.hpp b/src/ovxx/assign/copy.hpp
index 24bc4bd..f09a850 100644
--- a/src/ovxx/assign/copy.hpp
+++ b/src/ovxx/assign/copy.hpp
@@ -210,7 +210,7 @@ void copy(LHS &lhs, RHS const &rhs, row2_type, col2_type)
   {
     copy(lhs_data.ptr(), lhs_data.stride(0), lhs_data.stride(1),
 	 rhs_data.ptr(), rhs_data.stride(0), rhs_data.stride(1),
-	 lhs.size(2, 1), lhs.size(2, 0));
+	 lhs.size(2, 0), lhs.size(2, 1));
   }
 }
 
-- 
2.43.0


From 22d0548b18e3187cb8a1ded16a0079ee09f8e1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 02/70] fix: minmg of complex views yields the scalar type,
 like maxmg

---
 src/ovxx/view/fns_elementwise.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/view/fns_elementwise.hpp b/src/ovxx/view/fns_elementwise.hpp
index 6ce8eda..020a3b4 100644
--- a/src/ovxx/view/fns_elementwise.hpp
+++ b/src/ovxx/view/fns_elementwise.hpp
@@ -447,7 +447,7 @@ OVXX_BINARY_FUNC(max, Max)
 OVXX_BINARY_FUNC_SCALAR_RETN(maxmg, Maxmg)
 OVXX_BINARY_FUNC_SCALAR_RETN(maxmgsq, Maxmgsq)
 OVXX_BINARY_FUNC(min, Min)
-OVXX_BINARY_FUNC(minmg, Minmg)
+OVXX_BINARY_FUNC_SCALAR_RETN(minmg, Minmg)
 OVXX_BINARY_FUNC_SCALAR_RETN(minmgsq, Minmgsq)
 OVXX_BINARY_FUNC_RETN(ne, Ne, bool)
 OVXX_BINARY_FUNC(pow, Pow)
-- 
2.43.0


From 47e5ffcc3d14364babdf3d1aaa2c92416007deeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 03/70] fix: long single-precision sums honour the stride and
 sum magnitudes squared

---
 src/ovxx/reductions/reductions.hpp | 48 +++++++++++++++++-------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/ovxx/reductions/reductions.hpp b/src/ovxx/reductions/reductions.hpp
index b61caf2..dd79ea8 100644
--- a/src/ovxx/reductions/reductions.hpp
+++ b/src/ovxx/reductions/reductions.hpp
@@ -160,34 +160,40 @@ struct extract<complex<T1>, T2>
 };
 
 template <template <typename> class R, typename T>
-T partial_sum(T const *data, std::ptrdiff_t offset, length_type len)
+T partial_sum(T const *data, std::ptrdiff_t offset, stride_type stride,
+	      length_type len)
 {
   T result = T();
-  data += offset;
-  if (is_sum_squared_based<R>::value)
-    for (index_type i = 0; i < len; ++i)
-      result += data[i]*data[i];
+  data += offset * stride;
+  if (is_same<R<T>, Mean_magsq_value<T> >::value)
+    for (index_type i = 0; i < len; ++i, data += stride)
+      result += math::magsq(*data);
+  else if (is_sum_squared_based<R>::value)
+    for (index_type i = 0; i < len; ++i, data += stride)
+      result += *data * *data;
   else
-    for (index_type i = 0; i < len; ++i)
-      result += data[i];
+    for (index_type i = 0; i < len; ++i, data += stride)
+      result += *data;
   return result;
 }
 
 template <template <typename> class R, typename T>
-complex<T> partial_sum(std::pair<T const*, T const*> const &data, std::ptrdiff_t offset, length_type len)
+complex<T> partial_sum(std::pair<T const*, T const*> const &data,
+		       std::ptrdiff_t offset, stride_type stride,
+		       length_type len)
 {
   complex<T> result = complex<T>();
-  if (is_sum_squared_based<R>::value)
-    for (index_type i = 0; i < len; ++i)
-    {
-      complex<T> val = 
-        complex<T>(data.first[i + offset], data.second[i + offset]);
+  for (index_type i = 0; i < len; ++i)
+  {
+    stride_type const j = (offset + i) * stride;
+    complex<T> val(data.first[j], data.second[j]);
+    if (is_same<R<complex<T> >, Mean_magsq_value<complex<T> > >::value)
+      result += math::magsq(val);
+    else if (is_sum_squared_based<R>::value)
       result += val*val;
-    }
-  else
-    for (index_type i = 0; i < len; ++i)
-      result += complex<T>(data.first[i + offset], data.second[i + offset]);
-
+    else
+      result += val;
+  }
   return result;
 }
 
@@ -286,9 +292,11 @@ struct Evaluator<op::reduce<R>, be::generic,
       index_type sb = 0;
       for (; sb < subblocks - 1; ++sb)
       {
-        result += partial_sum<R>(data.ptr(), sb * max_length, max_length);
+        result += partial_sum<R>(data.ptr(), sb * max_length, data.stride(0),
+				 max_length);
       }
-      result += partial_sum<R>(data.ptr(), sb * max_length, last_subblock_size);
+      result += partial_sum<R>(data.ptr(), sb * max_length, data.stride(0),
+			       last_subblock_size);
 
       // Partial sums are accumlated in the view's natural type, even
       // for magnitude-of-squared values where the imaginary part is zero.
-- 
2.43.0


From 5c06236f68de25b92e2846c46042a02f1b342c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 04/70] fix: long sums of complex floats keep the imaginary
 part

---
 src/ovxx/reductions/reductions.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ovxx/reductions/reductions.hpp b/src/ovxx/reductions/reductions.hpp
index dd79ea8..07eda72 100644
--- a/src/ovxx/reductions/reductions.hpp
+++ b/src/ovxx/reductions/reductions.hpp
@@ -159,6 +159,12 @@ struct extract<complex<T1>, T2>
   static void apply(complex<T1> const& src, T2& dst) { dst = src.real();}
 };
 
+template <typename T1, typename T2>
+struct extract<complex<T1>, complex<T2> >
+{
+  static void apply(complex<T1> const& src, complex<T2>& dst) { dst = src;}
+};
+
 template <template <typename> class R, typename T>
 T partial_sum(T const *data, std::ptrdiff_t offset, stride_type stride,
 	      length_type len)
-- 
2.43.0


From fa7e58f0b8bff929628834f54d8c356b92c1a8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:47 +0000
Subject: [PATCH 05/70] fix: BLAS gemv with reversed vectors

The BLAS interface expects the address of the lowest element for vectors
with a negative increment, while callers pass the address of element 0
(the dot wrappers already account for that).
---
 src/ovxx/lapack/blas.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ovxx/lapack/blas.hpp b/src/ovxx/lapack/blas.hpp
index 8e9ba34..f2ee2a4 100644
--- a/src/ovxx/lapack/blas.hpp
+++ b/src/ovxx/lapack/blas.hpp
@@ -115,6 +115,9 @@ gemv(char transa,				\
      T const *x, int incx,			\
      T beta, T *y, int incy)			\
 {						\
+  bool ntrans = transa == 'n';			\
+  if (incx < 0) x += incx * ((ntrans ? n : m)-1);\
+  if (incy < 0) y += incy * ((ntrans ? m : n)-1);\
   B(&transa,					\
     &m, &n,					\
     &alpha,					\
-- 
2.43.0


From 36db1327c1c17d47f6821768522f7c5f838b6ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:47 +0000
Subject: [PATCH 06/70] fix: leading dimension in BLAS products of matrix
 sub-views and vectors

---
 src/ovxx/lapack/blas.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/lapack/blas.hpp b/src/ovxx/lapack/blas.hpp
index f2ee2a4..a77f98d 100644
--- a/src/ovxx/lapack/blas.hpp
+++ b/src/ovxx/lapack/blas.hpp
@@ -458,7 +458,7 @@ struct Evaluator<op::prod, be::blas,
 		 a.size(2, 1),       // K
 		 1.0,                // alpha
 		 data_b.ptr(), data_b.stride(0),
-		 data_a.ptr(), a.size(2, 1),
+		 data_a.ptr(), data_a.stride(0),
 		 0.0,                // beta
 		 data_r.ptr(), data_r.stride(0));
     }
@@ -538,7 +538,7 @@ struct Evaluator<op::prod, be::blas,
 		 b.size(2, 0),       // K
 		 1.0,                // alpha
 		 data_a.ptr(), data_a.stride(0),
-		 data_b.ptr(), b.size(2, 0),
+		 data_b.ptr(), data_b.stride(1),
 		 0.0,                // beta
 		 data_r.ptr(), data_r.stride(0));
     }
-- 
2.43.0


From b9b961212d7422baa436452e0e497e9ffdab7004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:47 +0000
Subject: [PATCH 07/70] fix: don't pass invalid leading dimensions to BLAS

Reversed sub-views have negative strides, which BLAS rejects; let the
generic evaluators handle them.
---
 src/ovxx/lapack/blas.hpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/ovxx/lapack/blas.hpp b/src/ovxx/lapack/blas.hpp
index a77f98d..86efa7e 100644
--- a/src/ovxx/lapack/blas.hpp
+++ b/src/ovxx/lapack/blas.hpp
@@ -218,6 +218,13 @@ struct traits<complex<double> >
   static char const trans = 'c';
 };
 
+/// Return true if the given (major) stride can be passed as leading
+/// dimension for a matrix with the given (minor) size.
+inline bool valid_ld(stride_type stride, length_type size)
+{
+  return stride >= 1 && static_cast<length_type>(stride) >= size;
+}
+
 } // namespace ovxx::blas
 
 namespace dispatcher
@@ -434,8 +441,10 @@ struct Evaluator<op::prod, be::blas,
     // Note: gemm is used for row type and b is restricted to unit stride.
     // gemv is used for col type and can handle any stride for b.
     bool is_a_row = is_same<order1_type, row2_type>::value;
-    return is_a_row ? ((data_a.stride(1) == 1) && (data_b.stride(0) == 1))
-                    : (data_a.stride(0) == 1);
+    return is_a_row ? ((data_a.stride(1) == 1) && (data_b.stride(0) == 1) &&
+                       blas::valid_ld(data_a.stride(0), a.size(2, 1)))
+                    : ((data_a.stride(0) == 1) &&
+                       blas::valid_ld(data_a.stride(1), a.size(2, 0)));
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -504,8 +513,10 @@ struct Evaluator<op::prod, be::blas,
     // gemm is used for col type and a is restricted to unit stride.
     // 
     bool is_b_row = is_same<order2_type, row2_type>::value;
-    return is_b_row ? (data_b.stride(1) == 1) 
-                    : ((data_b.stride(0) == 1) && (data_a.stride(0) == 1));
+    return is_b_row ? ((data_b.stride(1) == 1) &&
+                       blas::valid_ld(data_b.stride(0), b.size(2, 1)))
+                    : ((data_b.stride(0) == 1) && (data_a.stride(0) == 1) &&
+                       blas::valid_ld(data_b.stride(1), b.size(2, 0)));
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -578,7 +589,11 @@ struct Evaluator<op::prod, be::blas,
     bool is_b_row = is_same<order2_type, row2_type>::value;
 
     return (data_a.stride(is_a_row ? 1 : 0) == 1 &&
-            data_b.stride(is_b_row ? 1 : 0) == 1 );
+            data_b.stride(is_b_row ? 1 : 0) == 1 &&
+            blas::valid_ld(data_a.stride(is_a_row ? 0 : 1),
+                           a.size(2, is_a_row ? 1 : 0)) &&
+            blas::valid_ld(data_b.stride(is_b_row ? 0 : 1),
+                           b.size(2, is_b_row ? 1 : 0)));
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -664,7 +679,11 @@ struct Evaluator<op::gemp, be::blas,
     bool is_b_row = is_same<order2_type, row2_type>::value;
 
     return (data_a.stride(is_a_row ? 1 : 0) == 1 &&
-            data_b.stride(is_b_row ? 1 : 0) == 1 );
+            data_b.stride(is_b_row ? 1 : 0) == 1 &&
+            blas::valid_ld(data_a.stride(is_a_row ? 0 : 1),
+                           a.size(2, is_a_row ? 1 : 0)) &&
+            blas::valid_ld(data_b.stride(is_b_row ? 0 : 1),
+                           b.size(2, is_b_row ? 1 : 0)));
   }
 
   static void exec(B0 &r, T1 alpha, B1 const &a, B2 const &b, T2 beta)
-- 
2.43.0


From cee839509920eb157f671d77c68df513036881a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:47 +0000
Subject: [PATCH 08/70] fix: use BLAS for gemp only if the destination is
 contiguous in its minor dimension

---
 src/ovxx/lapack/blas.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/lapack/blas.hpp b/src/ovxx/lapack/blas.hpp
index 86efa7e..3c297ce 100644
--- a/src/ovxx/lapack/blas.hpp
+++ b/src/ovxx/lapack/blas.hpp
@@ -667,18 +667,24 @@ struct Evaluator<op::gemp, be::blas,
     !is_split_block<B1>::value &&
     !is_split_block<B2>::value;
 
-  static bool rt_valid(B0 &, T1, B1 const &a, B2 const &b, T2)
+  static bool rt_valid(B0 &r, T1, B1 const &a, B2 const &b, T2)
   {
+    typedef typename get_block_layout<B0>::order_type order0_type;
     typedef typename get_block_layout<B1>::order_type order1_type;
     typedef typename get_block_layout<B2>::order_type order2_type;
 
+    dda::Data<B0, dda::out> data_r(r);
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
+    bool is_r_row = is_same<order0_type, row2_type>::value;
     bool is_a_row = is_same<order1_type, row2_type>::value;
     bool is_b_row = is_same<order2_type, row2_type>::value;
 
-    return (data_a.stride(is_a_row ? 1 : 0) == 1 &&
+    return (data_r.stride(is_r_row ? 1 : 0) == 1 &&
+            blas::valid_ld(data_r.stride(is_r_row ? 0 : 1),
+                           r.size(2, is_r_row ? 1 : 0)) &&
+            data_a.stride(is_a_row ? 1 : 0) == 1 &&
             data_b.stride(is_b_row ? 1 : 0) == 1 &&
             blas::valid_ld(data_a.stride(is_a_row ? 0 : 1),
                            a.size(2, is_a_row ? 1 : 0)) &&
-- 
2.43.0


From 8cef3ba56a8a9b353e8cd8822e7cf0190df9e0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:47 +0000
Subject: [PATCH 09/70] fix: keep double precision in BLAS complex dot products

---
 src/ovxx/lapack/blas.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/lapack/blas.hpp b/src/ovxx/lapack/blas.hpp
index 3c297ce..23e63be 100644
--- a/src/ovxx/lapack/blas.hpp
+++ b/src/ovxx/lapack/blas.hpp
@@ -70,7 +70,7 @@ F(int n,					\
 {						\
   if (incx < 0) x += incx * (n-1);		\
   if (incy < 0) y += incy * (n-1);		\
-  float __complex__ retn =			\
+  T __complex__ retn =				\
     B(&n,					\
       const_cast<complex<T>*>(x), &incx,	\
       const_cast<complex<T>*>(y), &incy); 	\
-- 
2.43.0


From 29bdc7281469f3b6af06e7b5382dbd117a8be9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 10/70] fix: swap exchanges views of different storage order
 element by element

---
 src/vsip/selgen.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/vsip/selgen.hpp b/src/vsip/selgen.hpp
index 3682879..28e81de 100644
--- a/src/vsip/selgen.hpp
+++ b/src/vsip/selgen.hpp
@@ -10,6 +10,7 @@
 #define vsip_selgen_hpp_
 
 #include <ovxx/block_traits.hpp>
+#include <ovxx/domain_utils.hpp>
 #include <ovxx/expr/unary.hpp>
 #include <ovxx/expr/generator.hpp>
 #include <vsip/vector.hpp>
@@ -262,13 +263,14 @@ struct Swap
   static void apply(Block1 &block1, Block2 &block2)
   {
     assert(block1.size() == block2.size());
-    for (index_type i = 0; i != block1.size(); ++i)
+    dimension_type const dim = Block1::dim;
+    ovxx::Length<dim> const length = ovxx::extent<dim>(block1);
+    for (Index<dim> i; ovxx::valid(length, i); ovxx::next(length, i))
     {
-      typename Block1::value_type tmp = block1.get(i);
-      block1.put(i, block2.get(i));
-      block2.put(i, tmp);
+      typename Block1::value_type tmp = ovxx::get(block1, i);
+      ovxx::put(block1, i, ovxx::get(block2, i));
+      ovxx::put(block2, i, tmp);
     }
-
   }
 };
 }
-- 
2.43.0


From a0c84ec1904b4709c7b707a0b55eafe02ea22396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:17 +0000
Subject: [PATCH 11/70] fix: divide negative domain strides as signed numbers

---
 src/vsip/domain.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vsip/domain.hpp b/src/vsip/domain.hpp
index 683f6ba..fc68c3d 100644
--- a/src/vsip/domain.hpp
+++ b/src/vsip/domain.hpp
@@ -207,10 +207,17 @@ Domain<1>::Mem(Arg const a) VSIP_NOTHROW	      \
 OVXX_DEF_DOM1_MEMBER(impl_add_in, index_difference_type, index_, +=)
 OVXX_DEF_DOM1_MEMBER(impl_sub_out, index_difference_type, index_, -=)
 OVXX_DEF_DOM1_MEMBER(impl_mul_by, stride_scalar_type, stride_, *=)
-OVXX_DEF_DOM1_MEMBER(impl_div_by, stride_scalar_type, stride_, /=)
 
 #undef OVXX_DEF_DOM1_MEMBER
 
+inline void
+Domain<1>::impl_div_by(stride_scalar_type const a) VSIP_NOTHROW
+{
+  // The stride may be negative, so this has to be a signed division.
+  this->stride_ /= static_cast<stride_type>(a);
+  assert(this->impl_is_valid());
+}
+
 
 inline bool 
 Domain<1>::element_conformant(Domain<1> const& d) const VSIP_NOTHROW
-- 
2.43.0


From b6245bd1236dbce9d314bbb38a3ad0afb8fa1bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:17 +0000
Subject: [PATCH 12/70] fix: domains of one index are equal whatever their
 strides

---
 src/vsip/domain.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vsip/domain.hpp b/src/vsip/domain.hpp
index fc68c3d..1a0108e 100644
--- a/src/vsip/domain.hpp
+++ b/src/vsip/domain.hpp
@@ -226,8 +226,11 @@ Domain<1>::element_conformant(Domain<1> const& d) const VSIP_NOTHROW
 inline bool 
 Domain<1>::impl_equals(Domain const& d) const VSIP_NOTHROW
 {
+  // The stride of a domain with a single index is irrelevant.
   return this->length() == d.length() &&
-    ((this->stride() == d.stride() && this->first() == d.first()) ||
+    (this->length() == 0 ||
+     (this->first() == d.first() &&
+      (this->length() == 1 || this->stride() == d.stride())) ||
      (this->stride() == -d.stride() && 
       this->first() == d.first() + (d.length() - 1) * d.stride()));
 }
-- 
2.43.0


From 5ef9af6140f42577dedbb9f5e9ba9830edb2b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:26 +0000
Subject: [PATCH 13/70] fix: column-major aligned layouts constructed from two
 sizes use the right stride

---
 src/ovxx/layout.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/layout.hpp b/src/ovxx/layout.hpp
index b77e075..f353401 100644
--- a/src/ovxx/layout.hpp
+++ b/src/ovxx/layout.hpp
@@ -384,7 +384,7 @@ public:							   \
   {							   \
     size_[0] = size0;					   \
     size_[1] = size1;					   \
-    stride_ = size_[1];					   \
+    stride_ = size_[0];					   \
     if (stride_ % A != 0) stride_ += (A - stride_%A);	   \
   }							   \
 							   \
-- 
2.43.0


From 57c6092c01349a7bd220f649b64c52b913219600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:26 +0000
Subject: [PATCH 14/70] fix: recognize aligned_512 as an aligned packing

---
 src/ovxx/layout.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ovxx/layout.hpp b/src/ovxx/layout.hpp
index f353401..a4a4b82 100644
--- a/src/ovxx/layout.hpp
+++ b/src/ovxx/layout.hpp
@@ -93,6 +93,7 @@ OVXX_ALIGNED(aligned_32)
 OVXX_ALIGNED(aligned_64)
 OVXX_ALIGNED(aligned_128)
 OVXX_ALIGNED(aligned_256)
+OVXX_ALIGNED(aligned_512)
 OVXX_ALIGNED(aligned_1024)
 
 #undef OVXX_ALIGNED
-- 
2.43.0


From 2103c96a640df39b06c3a28d87b9a6e3bef09ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:12 +0000
Subject: [PATCH 15/70] fix: initialize both pointers of user storage, as
 find() may return them

---
 src/ovxx/storage/user.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ovxx/storage/user.hpp b/src/ovxx/storage/user.hpp
index e1d80a2..13c4169 100644
--- a/src/ovxx/storage/user.hpp
+++ b/src/ovxx/storage/user.hpp
@@ -74,13 +74,20 @@ class user_storage<complex<T> >
   friend struct detail::storage_cast;
 public:
   user_storage()
-    : format_(no_user_format), size_(0) { data_.a = 0;}
+    : format_(no_user_format), size_(0)
+  { data_.s.first = data_.s.second = 0;}
   user_storage(complex<T> *data, length_type size)
     : format_(data ? array_format : no_user_format), size_(size)
-  { data_.a = data;}
+  {
+    data_.s.first = data_.s.second = 0;
+    data_.a = data;
+  }
   user_storage(T *data, length_type size)
     : format_(data ? interleaved_format : no_user_format), size_(size)
-  { data_.i = data;}
+  {
+    data_.s.first = data_.s.second = 0;
+    data_.i = data;
+  }
   user_storage(std::pair<T*,T*> data, length_type size)
     : format_(data.first ? split_format : no_user_format), size_(size)
   {
-- 
2.43.0


From f56af6561740d93e0e6147d6e2a361a5b1187788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:12 +0000
Subject: [PATCH 16/70] fix: admit and release copy nothing if there is no user
 storage

---
 src/ovxx/storage/manager.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/storage/manager.hpp b/src/ovxx/storage/manager.hpp
index 455d71a..edce52e 100644
--- a/src/ovxx/storage/manager.hpp
+++ b/src/ovxx/storage/manager.hpp
@@ -206,7 +206,8 @@ public:
   }
   void admit(bool update=true)
   {
-    if (!admitted_ && !use_user_storage_ && update)
+    if (!admitted_ && !use_user_storage_ && update &&
+	user_storage_.format() != no_user_format)
       for (index_type i = 0; i < host_storage_.size(); ++i)
 	host_storage_.put(i, user_storage_.get(i));
     admitted_ = true;
@@ -214,7 +215,8 @@ public:
   void release(bool update = true)
   {
     if (!admitted_) return;
-    if (!use_user_storage_ && update)
+    if (!use_user_storage_ && update &&
+	user_storage_.format() != no_user_format)
       for (index_type i = 0; i < host_storage_.size(); ++i)
 	user_storage_.put(i, host_storage_.get(i));
     admitted_ = false;
-- 
2.43.0


From 3d46022523933165fa7e3d7b09f4fc61b4904e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 17/70] fix: judge the alignment of split-complex rows by the
 size of their parts

is_compatible multiplied strides of split-complex blocks by the size of a
complex value, so rows aligned to half the requested boundary were handed
out as aligned.
---
 src/ovxx/dda/accessor.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ovxx/dda/accessor.hpp b/src/ovxx/dda/accessor.hpp
index 6c97dc3..e03fae8 100644
--- a/src/ovxx/dda/accessor.hpp
+++ b/src/ovxx/dda/accessor.hpp
@@ -93,6 +93,9 @@ is_compatible(B const &block)
   else if (is_packing_aligned<L::packing>::value)
   {
     unsigned alignment = is_packing_aligned<L::packing>::alignment;
+    // The real and imaginary parts are stored separately in split format.
+    std::size_t const elem_size = storage_format == split_complex ?
+      sizeof(typename scalar_of<value_type>::type) : sizeof(value_type);
 
     if (!is_aligned_to(block.ptr(), alignment)) return false;
 
@@ -100,12 +103,12 @@ is_compatible(B const &block)
       return block.stride(1, 0) == 1;
     else if (L::dim == 2)
       return block.stride(2, dim1) == 1 &&
-	((block.stride(2, dim0) * sizeof(value_type)) % alignment == 0);
+	((block.stride(2, dim0) * elem_size) % alignment == 0);
     else // L::dim == 3
       return 
 	block.stride(3, dim2) == 1 &&
-	(block.stride(3, dim1) * sizeof(value_type)) % alignment == 0 &&
-	(block.stride(3, dim0) * sizeof(value_type)) % alignment == 0;
+	(block.stride(3, dim1) * elem_size) % alignment == 0 &&
+	(block.stride(3, dim0) * elem_size) % alignment == 0;
   }
   else // any_packing
   {
@@ -170,6 +173,9 @@ is_compatible(B const &block, L const &layout)
   else if (is_aligned(layout_packing(layout)))
   {
     unsigned alignment = layout_alignment(layout);
+    // The real and imaginary parts are stored separately in split format.
+    std::size_t const elem_size = layout_storage_format(block_layout) == split_complex ?
+      sizeof(typename scalar_of<value_type>::type) : sizeof(value_type);
 
     if (!is_aligned_to(block.ptr(), alignment))
       return false;
@@ -178,12 +184,12 @@ is_compatible(B const &block, L const &layout)
       return block.stride(1, 0) == 1;
     else if (dim == 2)
       return block.stride(2, dim1) == 1 &&
-	((block.stride(2, dim0) * sizeof(value_type)) % alignment == 0);
+	((block.stride(2, dim0) * elem_size) % alignment == 0);
     else // L::dim == 3
       return 
 	block.stride(3, dim2) == 1 &&
-	(block.stride(3, dim1) * sizeof(value_type)) % alignment == 0 &&
-	(block.stride(3, dim0) * sizeof(value_type)) % alignment == 0;
+	(block.stride(3, dim1) * elem_size) % alignment == 0 &&
+	(block.stride(3, dim0) * elem_size) % alignment == 0;
   }
   else // any_packing
   {
-- 
2.43.0


From b74b005f60af94b5343858e9efc2e4bdc44d7b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 18/70] fix: allow access to interleaved complex data in blocks
 with run-time strides

The accessor that decides at run time whether to copy required the block's
pointer to convert to the requested type implicitly, so asking for the
interleaved format of e.g. a sub-block did not compile.
---
 src/ovxx/dda/accessor.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/dda/accessor.hpp b/src/ovxx/dda/accessor.hpp
index e03fae8..862eb7e 100644
--- a/src/ovxx/dda/accessor.hpp
+++ b/src/ovxx/dda/accessor.hpp
@@ -604,9 +604,12 @@ public:
   int cost() const { return use_direct_ ? 0 : 2;}
 
   ptr_type ptr()
-  { return use_direct_ ? block_.ptr() : storage_.ptr();}
+  { return use_direct_ ? pointer_cast<ptr_type>(block_.ptr()) : storage_.ptr();}
   const_ptr_type ptr() const
-  { return use_direct_ ? block_.ptr() : storage_.ptr();}
+  {
+    return use_direct_ ?
+      pointer_cast<const_ptr_type>(block_.ptr()) : storage_.ptr();
+  }
   stride_type stride(dimension_type d) const
   { return use_direct_ ? block_.stride(dim, d) : layout_.stride(d);}
   length_type size(dimension_type d) const
-- 
2.43.0


From 290bd19e393500653f8dd95e7812bc3340f445d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 19/70] fix: report the number of elements as the size of
 run-time layout data

With a padded layout size() returned the number of elements of the buffer
including padding, and for blocks without direct access it was missing.
---
 src/ovxx/dda/accessor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/dda/accessor.hpp b/src/ovxx/dda/accessor.hpp
index 862eb7e..362742f 100644
--- a/src/ovxx/dda/accessor.hpp
+++ b/src/ovxx/dda/accessor.hpp
@@ -705,8 +705,7 @@ public:
 
   length_type size(dimension_type d) const
   { return use_direct_ ? block_.size(dim, d) : layout_.size(d);}
-  length_type size() const
-  { return use_direct_ ? block_.size() : layout_.total_size();}
+  length_type size() const { return block_.size();}
 
 private:
   B &block_;
@@ -775,6 +774,7 @@ public:
   const_ptr_type ptr() const { return storage_.ptr();}
   stride_type stride(dimension_type d) const { return layout_.stride(d);}
   length_type size(dimension_type d) const { return block_.size(B::dim, d);}
+  length_type size() const { return block_.size();}
 
 private:
   B &block_;
-- 
2.43.0


From 2fa8a0f20c3012abdce526e64b78f4eabfbc7279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 20/70] fix: align the rows of split-complex run-time layout
 buffers

The padding of buffers made for a run-time layout was computed from the size
of a complex value even if real and imaginary parts are stored separately,
so rows were aligned to half the requested boundary only.
---
 src/ovxx/dda/accessor.hpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/ovxx/dda/accessor.hpp b/src/ovxx/dda/accessor.hpp
index 362742f..75dad87 100644
--- a/src/ovxx/dda/accessor.hpp
+++ b/src/ovxx/dda/accessor.hpp
@@ -39,6 +39,15 @@ namespace dda
 {
 using namespace vsip::dda;
 
+/// The size of the elements whose alignment counts. In split format
+/// the real and imaginary parts are stored separately.
+template <typename T>
+inline std::size_t
+element_size(storage_format_type f)
+{
+  return f == split_complex ? sizeof(typename scalar_of<T>::type) : sizeof(T);
+}
+
 /// Determine if 'block' is compatible with
 /// the given layout 'L'.
 template <typename L, typename B>
@@ -93,9 +102,7 @@ is_compatible(B const &block)
   else if (is_packing_aligned<L::packing>::value)
   {
     unsigned alignment = is_packing_aligned<L::packing>::alignment;
-    // The real and imaginary parts are stored separately in split format.
-    std::size_t const elem_size = storage_format == split_complex ?
-      sizeof(typename scalar_of<value_type>::type) : sizeof(value_type);
+    std::size_t const elem_size = element_size<value_type>(storage_format);
 
     if (!is_aligned_to(block.ptr(), alignment)) return false;
 
@@ -173,9 +180,8 @@ is_compatible(B const &block, L const &layout)
   else if (is_aligned(layout_packing(layout)))
   {
     unsigned alignment = layout_alignment(layout);
-    // The real and imaginary parts are stored separately in split format.
-    std::size_t const elem_size = layout_storage_format(block_layout) == split_complex ?
-      sizeof(typename scalar_of<value_type>::type) : sizeof(value_type);
+    std::size_t const elem_size =
+      element_size<value_type>(layout_storage_format(block_layout));
 
     if (!is_aligned_to(block.ptr(), alignment))
       return false;
@@ -652,7 +658,8 @@ public:
       use_direct_(!force_copy && is_compatible(b, rtl)),
       layout_(use_direct_ ?
 	      Applied_layout<Rt_layout<D> >(empty_layout) :
-	      Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b), sizeof(value_type))),
+	      Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b),
+					    element_size<value_type>(rtl.storage_format))),
       storage_(use_direct_ ? 0 : layout_.total_size(), rtl.storage_format)
   {
     sync_in();
@@ -664,7 +671,8 @@ public:
       use_direct_(!force_copy && is_compatible(b, rtl)),
       layout_(use_direct_ ?
 	      Applied_layout<Rt_layout<D> >(empty_layout) :
-	      Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b), sizeof(value_type))),
+	      Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b),
+					    element_size<value_type>(rtl.storage_format))),
       storage_(use_direct_ ? 0 : layout_.total_size(),
 	       buffer ? buffer :
 	       // yuck !
@@ -739,7 +747,8 @@ public:
 
   Accessor(B &b, Rt_layout<D> const& rtl, bool /*force_copy*/)
     : block_(b),
-      layout_(Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b), sizeof(value_type))),
+      layout_(Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b),
+					    element_size<value_type>(rtl.storage_format))),
       storage_(layout_.total_size(), rtl.storage_format)
   {
     sync_in();
@@ -748,7 +757,8 @@ public:
   Accessor(B &b, Rt_layout<D> const &rtl, bool /*force_copy*/,
 	   non_const_ptr_type buffer, length_type buffer_size)
     : block_(b),
-      layout_(Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b), sizeof(value_type))),
+      layout_(Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b),
+					    element_size<value_type>(rtl.storage_format))),
       storage_(layout_.total_size(),
 	       buffer ? buffer :
 	       // yuck !
-- 
2.43.0


From e0c6e7c0f39e0522d7e2553ec665d667e7da4608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 21/70] fix: compute the bin width of integer histograms
 without truncation

---
 src/vsip/impl/signal/histo.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/vsip/impl/signal/histo.hpp b/src/vsip/impl/signal/histo.hpp
index b5660df..3f99206 100644
--- a/src/vsip/impl/signal/histo.hpp
+++ b/src/vsip/impl/signal/histo.hpp
@@ -13,14 +13,25 @@
 #include <vsip/vector.hpp>
 #include <vsip/matrix.hpp>
 #include <ovxx/dispatch.hpp>
+#include <limits>
 
 namespace vsip
 {
 namespace impl
 {
+/// The type of the width of a bin, which need not be integral even if
+/// the values are.
+template <typename T>
+struct Hist_delta
+{
+  typedef typename ovxx::conditional<std::numeric_limits<T>::is_integer,
+				     double, T>::type type;
+};
+
 template <typename T>
 inline index_type
-hist_bin(T min, T max, T delta, length_type num, T value)
+hist_bin(T min, T max, typename Hist_delta<T>::type delta,
+	 length_type num, T value)
 {
   if (value < min) return 0;
   else if (value >= max) return num - 1;
@@ -37,7 +48,8 @@ struct Histogram_accumulator<1>
   static void exec(T min, T max, HBlock &hist, DBlock const &input)
   {
     length_type num = hist.size();
-    T delta = (max - min) / (num - 2);
+    typedef typename Hist_delta<T>::type delta_type;
+    delta_type delta = static_cast<delta_type>(max - min) / (num - 2);
 
     for (index_type i = 0; i < input.size(1, 0); ++i)
     {
@@ -54,7 +66,8 @@ struct Histogram_accumulator<2>
   static void exec(T min, T max, HBlock &hist, DBlock const &input)
   {
     length_type num = hist.size();
-    T delta = (max - min) / (num - 2);
+    typedef typename Hist_delta<T>::type delta_type;
+    delta_type delta = static_cast<delta_type>(max - min) / (num - 2);
 
     for (index_type i = 0; i < input.size(2, 0); ++i)
       for (index_type j = 0; j < input.size(2, 1); ++j)
-- 
2.43.0


From 2cbd2ba894f7a529d0cb182d1d961dd1baf271d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 22/70] fix: window functions defined in a header must be
 inline

---
 src/vsip/impl/signal/window.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vsip/impl/signal/window.hpp b/src/vsip/impl/signal/window.hpp
index 4effeba..a782471 100644
--- a/src/vsip/impl/signal/window.hpp
+++ b/src/vsip/impl/signal/window.hpp
@@ -15,7 +15,7 @@ namespace vsip
 {
 
 // Generates Blackman window
-const_Vector<float>
+inline const_Vector<float>
 blackman(length_type len) VSIP_THROW((std::bad_alloc))
 {
   OVXX_PRECONDITION(len > 1);
@@ -23,7 +23,7 @@ blackman(length_type len) VSIP_THROW((std::bad_alloc))
 }
 
 // Generates Chebyshev window
-const_Vector<float>
+inline const_Vector<float>
 cheby(length_type len, float ripple) VSIP_THROW((std::bad_alloc))
 {
   OVXX_PRECONDITION(len > 1);
@@ -31,7 +31,7 @@ cheby(length_type len, float ripple) VSIP_THROW((std::bad_alloc))
 }
 
 // Generates Hanning window
-const_Vector<float>
+inline const_Vector<float>
 hanning(length_type len) VSIP_THROW((std::bad_alloc))
 {
   OVXX_PRECONDITION(len > 1);
@@ -39,7 +39,7 @@ hanning(length_type len) VSIP_THROW((std::bad_alloc))
 }
 
 // Generates Kaiser window
-const_Vector<float>
+inline const_Vector<float>
 kaiser(length_type len, float beta) VSIP_THROW((std::bad_alloc))
 {
   OVXX_PRECONDITION(len > 1);
-- 
2.43.0


From 0c683b4d096a9172cc800a896836b2437c95c10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 23/70] fix: freqswap<col> must visit every column

---
 src/vsip/impl/signal/freqswap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vsip/impl/signal/freqswap.hpp b/src/vsip/impl/signal/freqswap.hpp
index 3a58388..53bc6fc 100644
--- a/src/vsip/impl/signal/freqswap.hpp
+++ b/src/vsip/impl/signal/freqswap.hpp
@@ -62,7 +62,7 @@ freqswap(const_Matrix<T1, B1> in, Matrix<T2, B2> out)
   }
   else
   {
-    for (index_type c = 0; c != rows; ++c)
+    for (index_type c = 0; c != cols; ++c)
       freqswap(in.col(c), out.col(c));
   }
   return out;
-- 
2.43.0


From 208ff1884cef8d591a79dd9b514f793bb19864df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 24/70] fix: projected maps take the distributions of the
 remaining dimensions

---
 src/ovxx/parallel/map_utils.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ovxx/parallel/map_utils.hpp b/src/ovxx/parallel/map_utils.hpp
index 203b1fa..054d5da 100644
--- a/src/ovxx/parallel/map_utils.hpp
+++ b/src/ovxx/parallel/map_utils.hpp
@@ -92,7 +92,7 @@ struct map_project_1<1, Map<D0, D1, D2> >
 					 fix_sb_1*num_sb_2      + sb_2);
     }
 
-    return type(pvec, copy_dist<D1>(map, 0), copy_dist<D2>(map, 2));
+    return type(pvec, copy_dist<D0>(map, 0), copy_dist<D2>(map, 2));
   }
 };
 
@@ -136,7 +136,7 @@ struct map_project_1<2, Map<D0, D1, D2> >
 					 fix_sb_2);
     }
 
-    return type(pvec, copy_dist<D1>(map, 0), copy_dist<D2>(map, 1));
+    return type(pvec, copy_dist<D0>(map, 0), copy_dist<D1>(map, 1));
   }
 };
 
@@ -185,7 +185,7 @@ struct map_project_2<0, 1, Map<D0, D1, D2> >
 template <typename D0, typename D1, typename D2>
 struct map_project_2<0, 2, Map<D0, D1, D2> >
 {
-  typedef Map<D2> type;
+  typedef Map<D1> type;
 
   static type project(Map<D0, D1, D2> const& map,
 		      index_type idx0,
@@ -227,7 +227,7 @@ struct map_project_2<0, 2, Map<D0, D1, D2> >
 template <typename D0, typename D1, typename D2>
 struct map_project_2<1, 2, Map<D0, D1, D2> >
 {
-  typedef Map<D2> type;
+  typedef Map<D0> type;
 
   static type project(Map<D0, D1, D2> const& map,
 		      index_type idx1,
-- 
2.43.0


From 4dd3f9b0dbb17508891e276164b59d952e5443f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 25/70] fix: patch_from_global_index must return the patch, not
 the subblock

---
 src/ovxx/parallel/support.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/parallel/support.hpp b/src/ovxx/parallel/support.hpp
index 4526ec5..0eee988 100644
--- a/src/ovxx/parallel/support.hpp
+++ b/src/ovxx/parallel/support.hpp
@@ -159,7 +159,7 @@ block_patch_from_global_index(B const &block, Index<D> const &idx)
   for (dimension_type d = 0; d < D; ++d)
     OVXX_PRECONDITION(idx[d] < block.size(D, d));
 
-  return block.map().template impl_subblock_from_global_index<D>(idx);
+  return block.map().template impl_patch_from_global_index<D>(idx);
 }
 
 template <typename B>
-- 
2.43.0


From 40d02522013ec7976f07c00367efa90b73c16a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 26/70] fix: global_from_local_index of a view, with dimension

---
 src/vsip/impl/parallel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vsip/impl/parallel.hpp b/src/vsip/impl/parallel.hpp
index ee91bde..8aa460f 100644
--- a/src/vsip/impl/parallel.hpp
+++ b/src/vsip/impl/parallel.hpp
@@ -276,7 +276,7 @@ typename ovxx::enable_if<ovxx::is_view_type<V>::value, index_type>::type
 global_from_local_index(V const &view, dimension_type dim,
 			index_type sb, index_type idx)
 {
-  return ovxx::parallel::block_global_from_local_index(view, dim, sb, idx);
+  return ovxx::parallel::block_global_from_local_index(view.block(), dim, sb, idx);
 }
 
 /// Determine VIEW's global index corresponding to local index L_IDX
-- 
2.43.0


From cf2207681b5450d139b6c353838c937d67f075ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 27/70] fix: Replicated_map queries for processors that hold no
 subblock

---
 src/vsip/impl/replicated_map.hpp | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/vsip/impl/replicated_map.hpp b/src/vsip/impl/replicated_map.hpp
index e919d59..a065225 100644
--- a/src/vsip/impl/replicated_map.hpp
+++ b/src/vsip/impl/replicated_map.hpp
@@ -13,6 +13,7 @@
 #include <ovxx/parallel/service.hpp>
 #include <ovxx/parallel/map_traits.hpp>
 #include <ovxx/parallel/scalar_map.hpp>
+#include <ovxx/domain_utils.hpp>
 #include <ovxx/block_traits.hpp>
 #include <ovxx/c++11.hpp>
 
@@ -143,28 +144,43 @@ public:
   }
 
   length_type impl_num_patches(index_type sb) const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0); return 1;}
+  {
+    OVXX_PRECONDITION(sb == 0 || sb == no_subblock);
+    return sb == no_subblock ? 0 : 1;
+  }
 
   void impl_apply(Domain<D> const& dom) VSIP_NOTHROW
   { dom_ = dom;}
 
   template <dimension_type D1>
   Domain<D1> impl_subblock_domain(index_type sb) const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0); return dom_;}
+  {
+    OVXX_PRECONDITION(sb == 0 || sb == no_subblock);
+    return sb == no_subblock ? ovxx::empty_domain<D>() : dom_;
+  }
 
   template <dimension_type D1>
   ovxx::Length<D1> impl_subblock_extent(index_type sb) const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0); return extent(dom_);}
+  {
+    OVXX_PRECONDITION(sb == 0 || sb == no_subblock);
+    return extent(sb == no_subblock ? ovxx::empty_domain<D>() : dom_);
+  }
 
   template <dimension_type D1>
   Domain<D1> impl_global_domain(index_type sb, index_type patch)
     const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0 && patch == 0); return dom_;}
+  {
+    OVXX_PRECONDITION((sb == 0 && patch == 0) || sb == no_subblock);
+    return sb == no_subblock ? ovxx::empty_domain<D>() : dom_;
+  }
 
   template <dimension_type D1>
   Domain<D1> impl_local_domain (index_type sb, index_type patch)
     const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0 && patch == 0); return dom_;}
+  {
+    OVXX_PRECONDITION((sb == 0 && patch == 0) || sb == no_subblock);
+    return sb == no_subblock ? ovxx::empty_domain<D>() : dom_;
+  }
 
   index_type impl_global_from_local_index(dimension_type /*d*/, index_type sb,
 					  index_type idx)
@@ -180,6 +196,11 @@ public:
     const VSIP_NOTHROW
   { return 0;}
 
+  template <dimension_type D1>
+  index_type impl_patch_from_global_index(Index<D1> const& /*idx*/)
+    const VSIP_NOTHROW
+  { return 0;}
+
   template <dimension_type D1>
   Domain<D> impl_local_from_global_domain(index_type /*sb*/,
 					  Domain<D1> const& dom)
-- 
2.43.0


From 46d94c7a58b34f71cccbe8faa1d51140cc4761e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 28/70] fix: subset_map: subblock extent of the subset,
 processors without subblock

---
 src/ovxx/parallel/subset_map_decl.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/ovxx/parallel/subset_map_decl.hpp b/src/ovxx/parallel/subset_map_decl.hpp
index a1f5f7b..03cd137 100644
--- a/src/ovxx/parallel/subset_map_decl.hpp
+++ b/src/ovxx/parallel/subset_map_decl.hpp
@@ -80,8 +80,8 @@ public:
 
   length_type impl_num_patches(index_type sb) const VSIP_NOTHROW
   {
-    OVXX_PRECONDITION(sb < this->num_subblocks());
-    return sb_patch_gd_[sb].size();
+    OVXX_PRECONDITION(sb < this->num_subblocks() || sb == no_subblock);
+    return sb == no_subblock ? 0 : sb_patch_gd_[sb].size();
   }
 
   void impl_apply(Domain<D> const& dom) VSIP_NOTHROW
@@ -92,16 +92,23 @@ public:
 
   template <dimension_type D1>
   Domain<D1> impl_subblock_domain(index_type sb) const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb < this->num_subblocks()); return domain(sb_ext_[sb]);}
+  {
+    OVXX_PRECONDITION(sb < this->num_subblocks() || sb == no_subblock);
+    return sb == no_subblock ? empty_domain<D>() : domain(sb_ext_[sb]);
+  }
 
   template <dimension_type D1>
   Length<D1> impl_subblock_extent(index_type sb) const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb < this->num_subblocks()); return sb_ext_[sb];}
+  {
+    OVXX_PRECONDITION(sb < this->num_subblocks() || sb == no_subblock);
+    return sb == no_subblock ? extent(empty_domain<D>()) : sb_ext_[sb];
+  }
 
   template <dimension_type D1>
   Domain<D1> impl_global_domain(index_type sb, index_type p)
     const VSIP_NOTHROW
   {
+    if (sb == no_subblock) return empty_domain<D>();
     OVXX_PRECONDITION(sb < this->num_subblocks());
     OVXX_PRECONDITION(p < this->impl_num_patches(sb));
     return sb_patch_gd_[sb][p];
@@ -111,6 +118,7 @@ public:
   Domain<D1> impl_local_domain (index_type sb, index_type p)
     const VSIP_NOTHROW
   {
+    if (sb == no_subblock) return empty_domain<D>();
     OVXX_PRECONDITION(sb < this->num_subblocks());
     OVXX_PRECONDITION(p < this->impl_num_patches(sb));
     return sb_patch_ld_[sb][p];
@@ -255,7 +263,7 @@ subset_map<D>::subset_map(M const &map, Domain<D> const &dom)
       pvec_.push_back(map.impl_proc_from_rank(sb));
 
       Length<D> par_sb_ext = map.template impl_subblock_extent<D>(sb);
-      Length<D> sb_ext     = par_sb_ext;
+      Length<D> sb_ext     = extent(l_vec[0]);
       parent_sdom_.push_back(domain(par_sb_ext));
       sb_ext_.push_back(sb_ext);
       parent_sb_.push_back(sb);
-- 
2.43.0


From d9a8aae6ddc504669b0803659616295ee5a79dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 29/70] fix: transpose_map::num_subblocks(dim) must compile

---
 src/ovxx/parallel/transpose_map_decl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/parallel/transpose_map_decl.hpp b/src/ovxx/parallel/transpose_map_decl.hpp
index 558eec9..26a6802 100644
--- a/src/ovxx/parallel/transpose_map_decl.hpp
+++ b/src/ovxx/parallel/transpose_map_decl.hpp
@@ -43,7 +43,7 @@ public:
   { return map_.distribution(parent_dim(dim));}
 
   length_type num_subblocks(dimension_type dim) const VSIP_NOTHROW
-  { return map_.num_subblock(parent_dim(dim));}
+  { return map_.num_subblocks(parent_dim(dim));}
 
   length_type cyclic_contiguity(dimension_type dim) const VSIP_NOTHROW
   { return map_.cyclic_contiguity(parent_dim(dim));}
-- 
2.43.0


From 6a890459d77308eb80601930ab5e5ca9f0633b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 30/70] fix: nested expressions and operator state when
 redistributing an expression

---
 src/ovxx/expr/transform.hpp | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/ovxx/expr/transform.hpp b/src/ovxx/expr/transform.hpp
index b2985c1..b4017ca 100644
--- a/src/ovxx/expr/transform.hpp
+++ b/src/ovxx/expr/transform.hpp
@@ -22,6 +22,28 @@ template <typename F, typename B> struct return_type;
 //        for overload resolution to work a little later in this file.
 //        Without it, the parallel/expr.cpp test fails with a compile-time
 //        failure.
+template <typename F,
+	  template <typename> class O, typename B, bool E>
+typename return_type<F, Unary<O, B, E> const>::type
+combine(F const &, Unary<O, B, E> const &);
+
+template <typename F,
+	  template <typename> class O, typename B, bool E>
+void
+apply(F const &, Unary<O, B, E> const &);
+
+template <typename F,
+	  template <typename, typename> class O,
+	  typename B1, typename B2, bool E>
+typename return_type<F, Binary<O, B1, B2, E> const>::type
+combine(F const &, Binary<O, B1, B2, E> const &);
+
+template <typename F,
+	  template <typename, typename> class O,
+	  typename B1, typename B2, bool E>
+void
+apply(F const &, Binary<O, B1, B2, E> const &);
+
 template <typename F,
 	  template <typename, typename, typename> class O,
 	  typename B1, typename B2, typename B3, bool E>
@@ -136,7 +158,8 @@ combine(F const &func, Binary<O, B1, B2, E> const &block)
     return_type<F, Binary<O, B1, B2, E> const>::type
     block_type;
 
-  return block_type(combine(func, block.arg1()),
+  return block_type(block.operation(),
+		    combine(func, block.arg1()),
 		    combine(func, block.arg2()));
 }
 
@@ -181,7 +204,8 @@ combine(F const &func, Ternary<O, B1, B2, B3, E> const &block)
     return_type<F, Ternary<O, B1, B2, B3, E> const>::type
     block_type;
 
-  return block_type(combine(func, block.arg1()),
+  return block_type(block.operation(),
+		    combine(func, block.arg1()),
 		    combine(func, block.arg2()),
 		    combine(func, block.arg3()));
 }
@@ -237,7 +261,8 @@ combine(F const &func, Unary<O, B, E> const &block)
   typedef typename return_type<F, Unary<O, B, E> const>::type
     block_type;
 
-  return block_type(combine(func, block.arg()));
+  return block_type(block.operation(),
+		    combine(func, block.arg()));
 }
 
 template <typename F,
-- 
2.43.0


From ec83cd72814e1e02a1dec03a80063481a581b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 31/70] fix: distributed assignment to and from real() and
 imag() subviews

---
 src/ovxx/expr/component.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ovxx/expr/component.hpp b/src/ovxx/expr/component.hpp
index b1b58dd..35491e6 100644
--- a/src/ovxx/expr/component.hpp
+++ b/src/ovxx/expr/component.hpp
@@ -191,6 +191,9 @@ get_local_proxy(expr::Component<Block, Extractor> const& block,
   return local_proxy_type(super_block);
 }
 
+template <typename Block, template <typename> class Extractor>
+void assert_local(expr::Component<Block, Extractor> const &, index_type) {}
+
 } // namespace ovxx::detail
 } // namespace ovxx
 
-- 
2.43.0


From 9365fe3f2aa4474bc3dcdae0809fe24c1c0a0325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 32/70] fix: distributed assignment between different value
 types or storage formats

---
 src/ovxx/assign.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/assign.hpp b/src/ovxx/assign.hpp
index eddf66d..36fcea7 100644
--- a/src/ovxx/assign.hpp
+++ b/src/ovxx/assign.hpp
@@ -56,6 +56,12 @@ struct trait
   static bool const is_lhs_split  = is_split_block<LHS>::value;
   static bool const is_rhs_split  = is_split_block<RHS>::value;
 
+  // Data can only be transferred directly into the destination
+  // if both sides represent their elements the same way.
+  static bool const is_same_repr  =
+    is_same<typename LHS::value_type, typename RHS::value_type>::value &&
+    is_lhs_split == is_rhs_split;
+
   static int const  lhs_cost      = dda::Data<LHS, dda::out>::ct_cost;
   static int const  rhs_cost      = dda::Data<RHS, dda::in>::ct_cost;
 
@@ -65,7 +71,7 @@ struct trait
   typedef 
   typename conditional<is_illegal, illegal_mix_of_local_and_global_in_assign,
   typename conditional<is_local, serial_expr,
-  typename conditional<is_rhs_simple, par_assign<par_assign_type>,
+  typename conditional<is_rhs_simple && is_same_repr, par_assign<par_assign_type>,
   typename conditional<is_rhs_reorg, par_expr,
                        /* else */ par_expr_noreorg>::type
 	              >::type 
-- 
2.43.0


From 5aeb99660f1278e58cd1f5051e42938188c768bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 33/70] fix: distributed assignment to local data that needs to
 be copied

---
 src/ovxx/dda/persistent.hpp               | 11 ++++++++++-
 src/ovxx/parallel/assign_block_vector.hpp |  2 +-
 src/ovxx/parallel/assign_chain.hpp        |  4 ++--
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ovxx/dda/persistent.hpp b/src/ovxx/dda/persistent.hpp
index 6890140..07fa363 100644
--- a/src/ovxx/dda/persistent.hpp
+++ b/src/ovxx/dda/persistent.hpp
@@ -49,7 +49,16 @@ public:
 
   ~Persistent_data() {}
   void sync_in() { if (sync_ & dda::in) backend_.sync_in();}
-  void sync_out() { if (sync_ & dda::out) backend_.sync_out();}
+  void sync_out()
+  {
+    // The backend itself never writes, so block and buffer only
+    // get synchronized upon request. Write back, if data was copied.
+    if (sync_ & dda::out && backend_.cost() != 0)
+    {
+      Accessor<B, L, dda::out> writer(*block_, non_const_ptr());
+      writer.ptr();
+    }
+  }
 
   ptr_type ptr() { return backend_.ptr();}
   const_ptr_type ptr() const { return backend_.ptr();}
diff --git a/src/ovxx/parallel/assign_block_vector.hpp b/src/ovxx/parallel/assign_block_vector.hpp
index a4459c4..e56d6e0 100644
--- a/src/ovxx/parallel/assign_block_vector.hpp
+++ b/src/ovxx/parallel/assign_block_vector.hpp
@@ -152,7 +152,7 @@ public:
       req_list  (),
       msg_count (0),
       src_dda_  (src_.local().block(), dda::in),
-      dst_dda_  (dst_.local().block(), dda::out)
+      dst_dda_  (dst_.local().block(), dda::inout)
   {
     OVXX_PRECONDITION(src_am_.impl_comm() == dst_am_.impl_comm());
 
diff --git a/src/ovxx/parallel/assign_chain.hpp b/src/ovxx/parallel/assign_chain.hpp
index e54b5eb..02458c0 100644
--- a/src/ovxx/parallel/assign_chain.hpp
+++ b/src/ovxx/parallel/assign_chain.hpp
@@ -261,7 +261,7 @@ public:
     OVXX_PRECONDITION(rhs_am_.impl_comm() == lhs_am_.impl_comm());
 
     chain_assign::build_dda_array<D, RHS>(rhs_, rhs_am_, rhs_dda_, dda::in);
-    chain_assign::build_dda_array<D, LHS>(lhs_, lhs_am_, lhs_dda_, dda::out);
+    chain_assign::build_dda_array<D, LHS>(lhs_, lhs_am_, lhs_dda_, dda::inout);
 
     build_send_list();
     if (!disable_copy)
@@ -686,11 +686,11 @@ Assignment<D, LHS, RHS, Chained_assign>::exec_recv_list()
     lhs_dda_type* dda = lhs_dda_[(*rl_cur).subblock_];
     dda->sync_in();
     builder.stitch(dda->ptr(), (*rl_cur).chain_);
-    dda->sync_out();
 
     chain_type chain = builder.get_chain();
     comm_.recv(proc, chain);
     free_chain(chain);
+    dda->sync_out();
   }
 }
 
-- 
2.43.0


From b49a3fa8282267e2a73324ef5d50637085e47822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 34/70] fix: data access to distributed slices: layout and size
 of the local copy

---
 src/ovxx/dda/accessor.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/dda/accessor.hpp b/src/ovxx/dda/accessor.hpp
index 75dad87..bafa247 100644
--- a/src/ovxx/dda/accessor.hpp
+++ b/src/ovxx/dda/accessor.hpp
@@ -487,7 +487,12 @@ class Accessor<B, L, S, remote_access,
 public:
   static access_kind const access = remote_access;
   typedef typename adjust_layout<L, typename get_block_layout<B>::type>::type
-    layout_type;
+    adjusted_layout_type;
+  // The local copy needs a layout that can be realized.
+  typedef typename conditional<adjusted_layout_type::packing == unit_stride ||
+			       adjusted_layout_type::packing == any_packing,
+    typename adjust_layout_packing<dense, adjusted_layout_type>::type,
+    adjusted_layout_type>::type layout_type;
   typedef typename B::value_type value_type;
   typedef typename view_of<B>::type dist_view_type;
 
@@ -512,7 +517,7 @@ public:
 
   Accessor(B &b, non_const_ptr_type buffer = non_const_ptr_type())
     : block_(b),
-      storage_(b.size(), buffer),
+      storage_(required_buffer_size(b), buffer),
       lblock_(block_domain<B::dim>(b), storage_.ptr()),
       assigner_(lblock_, block_),
       local_access_(lblock_)
-- 
2.43.0


From 5f494f0d945a0bc6eb53fb1b70d907cb893380d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:44 +0000
Subject: [PATCH 35/70] fix: slices of replicated views live on the processors
 of the view

---
 src/ovxx/expr/sliced.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/expr/sliced.hpp b/src/ovxx/expr/sliced.hpp
index cad73b4..f0899ee 100644
--- a/src/ovxx/expr/sliced.hpp
+++ b/src/ovxx/expr/sliced.hpp
@@ -30,7 +30,8 @@ template <dimension_type D, dimension_type S>
 struct sliced_map<Replicated_map<D>, S>
 {
   typedef Replicated_map<D - 1> type;
-  static type convert_map(Replicated_map<D> const&, index_type) { return type();}
+  static type convert_map(Replicated_map<D> const &map, index_type)
+  { return type(map.processor_set());}
 }; 
 
 template <dimension_type D, dimension_type S>
@@ -78,7 +79,8 @@ template <dimension_type D, dimension_type S1, dimension_type S2>
 struct sliced2_map<Replicated_map<D>, S1, S2>
 {
   typedef Replicated_map<D - 2> type;
-  static type convert_map(Replicated_map<D> const&, index_type, index_type) { return type();}
+  static type convert_map(Replicated_map<D> const &map, index_type, index_type)
+  { return type(map.processor_set());}
 }; 
 
 template <dimension_type S1, dimension_type S2>
-- 
2.43.0


From 34d463d84f97f42cf9e274ed7162a44c4f1854c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:13 +0000
Subject: [PATCH 36/70] fix: local view of a vector in a tensor on processors
 that do not hold it

---
 src/ovxx/expr/sliced.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/ovxx/expr/sliced.hpp b/src/ovxx/expr/sliced.hpp
index f0899ee..dc7b417 100644
--- a/src/ovxx/expr/sliced.hpp
+++ b/src/ovxx/expr/sliced.hpp
@@ -320,9 +320,9 @@ public:
   // The total size of a sliced block is the total size of the underlying
   // block, divided by the size of the bound index.
   length_type size() const VSIP_NOTHROW
-  { return block_->size() / block_->size(Block::dim, D1) / block_->size(Block::dim, D2);}
+  { return index1_ == no_index ? 0 : block_->size() / block_->size(Block::dim, D1) / block_->size(Block::dim, D2);}
   length_type size(dimension_type block_d, dimension_type d) const VSIP_NOTHROW
-  { return block_->size(block_d + 2,
+  { return index1_ == no_index ? 0 : block_->size(block_d + 2,
 		      ovxx::detail::compare<dimension_type, D1>() > d     ? d   :
 		      ovxx::detail::compare<dimension_type, D2>() > (d+1) ? d+1 : d+2);
   }
@@ -558,10 +558,18 @@ get_local_block(expr::Sliced2<B, D1, D2> const &block)
   typedef expr::Sliced2<typename distributed_local_block<B>::type, D1, D2>
     local_block_type;
 
-  index_type idx1 = block.block().map().
-    impl_local_from_global_index(D1, block.index1());
-  index_type idx2 = block.block().map().
-    impl_local_from_global_index(D2, block.index2());
+  // This conversion is only valid if the local processor holds
+  // the subblock containing the slice.
+
+  index_type idx1 = no_index;
+  index_type idx2 = no_index;
+  if (block.map().subblock() != no_subblock)
+  {
+    idx1 = block.block().map().
+      impl_local_from_global_index(D1, block.index1());
+    idx2 = block.block().map().
+      impl_local_from_global_index(D2, block.index2());
+  }
 
   return local_block_type(get_local_block(block.block()), idx1, idx2);
 }
-- 
2.43.0


From dc99486aa26c2ed7a8af674c9e98deaebee58091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:13 +0000
Subject: [PATCH 37/70] fix: foreach_patch must compile

---
 src/ovxx/parallel/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/parallel/util.hpp b/src/ovxx/parallel/util.hpp
index 2eebaef..4b5e6f9 100644
--- a/src/ovxx/parallel/util.hpp
+++ b/src/ovxx/parallel/util.hpp
@@ -46,7 +46,7 @@ foreach_patch(V<T, B> view, F fcn)
 
   if (sb != no_subblock)
   {
-    V<T, local_block_type> local_view = ovxx::get_local_view(view, sb);
+    V<T, local_block_type> local_view = ovxx::get_local_view(view);
 
     for (index_type p = 0; p < ovxx::num_patches(view, sb); ++p)
     {
-- 
2.43.0


From d89561e054b831be16489e407bc9daddb8cca282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 38/70] fix: excluding no process from a group leaves the group

---
 src/ovxx/mpi/group.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/mpi/group.hpp b/src/ovxx/mpi/group.hpp
index cd43993..b98ddd6 100644
--- a/src/ovxx/mpi/group.hpp
+++ b/src/ovxx/mpi/group.hpp
@@ -89,7 +89,7 @@ Group::include(int *first, int *last)
 template<typename InputIterator>
 Group Group::exclude(InputIterator first, InputIterator last)
 {
-  if (first == last) return Group();
+  if (first == last) return *this;
   std::vector<int> ranks(first, last);
   MPI_Group g;
   OVXX_MPI_CHECK_RESULT(MPI_Group_excl, (*this, ranks.size(), &ranks[0], &g));
-- 
2.43.0


From e3e4d12ab0ef437fb413a5befe0a91982f4eb96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 39/70] fix: mpi::exception::what() must override
 std::exception::what()

---
 src/ovxx/mpi/exception.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/mpi/exception.hpp b/src/ovxx/mpi/exception.hpp
index 85ced12..62c74c3 100644
--- a/src/ovxx/mpi/exception.hpp
+++ b/src/ovxx/mpi/exception.hpp
@@ -36,7 +36,7 @@ class exception : public std::exception
   }
 
   virtual ~exception() throw() {}
-  virtual char const *what() { return this->msg_.c_str();}
+  virtual char const *what() const throw() { return this->msg_.c_str();}
   char const *routine() const { return routine_;}
   int result_code() const { return code_;}
   int error_class() const 
-- 
2.43.0


From 3401bf04120dcd4ddea939f51c541ad881bf1432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 40/70] fix: report errors of MPI_Wait and MPI_Barrier

---
 src/ovxx/mpi/communicator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/mpi/communicator.hpp b/src/ovxx/mpi/communicator.hpp
index b1a8f08..2841b95 100644
--- a/src/ovxx/mpi/communicator.hpp
+++ b/src/ovxx/mpi/communicator.hpp
@@ -78,7 +78,7 @@ public:
   }
   Communicator split(int color) const { return split(color, rank());}
 
-  void barrier() const { MPI_Barrier(*this);}
+  void barrier() const { OVXX_MPI_CHECK_RESULT(MPI_Barrier, (*this));}
 
   template <typename T>
   void buf_send(processor_type dest_proc, T* data, length_type size);
@@ -175,7 +175,7 @@ inline void
 Communicator::wait(request_type& req)
 {
   MPI_Status status;
-  MPI_Wait(&req, &status);
+  OVXX_MPI_CHECK_RESULT(MPI_Wait, (&req, &status));
 }
 
 /// Broadcast a value from root processor to other processors.
-- 
2.43.0


From c6e28cf6b092977854ea3bcbe9578781da79d64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 41/70] fix: the default communicator knows its processors

---
 src/ovxx/mpi/communicator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ovxx/mpi/communicator.cpp b/src/ovxx/mpi/communicator.cpp
index 6745373..a7bbc64 100644
--- a/src/ovxx/mpi/communicator.cpp
+++ b/src/ovxx/mpi/communicator.cpp
@@ -28,6 +28,13 @@ struct comm_free
 Communicator::Communicator()
 {
   impl_.reset(new MPI_Comm(MPI_COMM_WORLD));
+  int initialized;
+  OVXX_MPI_CHECK_RESULT(MPI_Initialized, (&initialized));
+  if (!initialized) return;
+  length_type s = size();
+  pvec_.resize(s);
+  for (index_type i = 0; i < s; ++i)
+    pvec_[i] = static_cast<processor_type>(i);
 }
 
 Communicator::Communicator(MPI_Comm const & comm, comm_create_kind kind)
-- 
2.43.0


From d28591b93a81dbb5ebd3994664a3e727ae7e3920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 42/70] fix: detach the buffer from MPI before it is released

---
 src/ovxx/mpi/service.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ovxx/mpi/service.cpp b/src/ovxx/mpi/service.cpp
index 733f3de..af8895d 100644
--- a/src/ovxx/mpi/service.cpp
+++ b/src/ovxx/mpi/service.cpp
@@ -61,7 +61,15 @@ void finalize(bool final)
   {
     if (finalize_mpi)
       MPI_Finalize();
+    else
+    {
+      // MPI stays in use, but must not keep using our buffer.
+      void *detached;
+      int size;
+      MPI_Buffer_detach(&detached, &size);
+    }
     delete[] buffer;
+    buffer = 0;
   }
 }
 
-- 
2.43.0


From 6d295ad1feb99197331870ab8b48395e04d004f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 43/70] fix: polartorect of a view of magnitudes must compile

---
 src/vsip/complex.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vsip/complex.hpp b/src/vsip/complex.hpp
index 3559b57..d260f1c 100644
--- a/src/vsip/complex.hpp
+++ b/src/vsip/complex.hpp
@@ -101,11 +101,13 @@ polartorect(T rho) VSIP_NOTHROW { return complex<T>(rho);}
 template <typename                            T,
 	  template <typename, typename> class const_View,
 	  typename                            Block0>
-inline const_View<complex<T>, 
-                  ovxx::functors::unary_view<ovxx::expr::op::R2C, T> >
+inline typename
+ovxx::functors::unary_view<ovxx::expr::op::R2C,
+                           const_View<T, Block0> >::result_type
 polartorect(const_View<T, Block0> rho) VSIP_NOTHROW
 {
-  return ovxx::functors::unary_view<ovxx::expr::op::R2C, T>::apply(rho);
+  return ovxx::functors::unary_view<ovxx::expr::op::R2C,
+    const_View<T, Block0> >::apply(rho);
 }
 
 template <typename T1, typename T2>
-- 
2.43.0


From 1cba8983b2c3d8b6cec7418b19df9d93029d8ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 44/70] fix: recttopolar of matrices and tensors must compile

---
 src/vsip/complex.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vsip/complex.hpp b/src/vsip/complex.hpp
index d260f1c..95af63f 100644
--- a/src/vsip/complex.hpp
+++ b/src/vsip/complex.hpp
@@ -12,6 +12,7 @@
 #include <vsip/support.hpp>
 #include <vsip/impl/complex_decl.hpp>
 #include <ovxx/view/fns_elementwise.hpp>
+#include <ovxx/domain_utils.hpp>
 #include <vsip/math.hpp>
 
 //  Definitions - Conversion [complex.convert]
@@ -46,13 +47,14 @@ recttopolar(const_View<complex<T1>, Block0> z,
   VSIP_NOTHROW
 {
   assert(z.size() == rho.size() && z.size() == theta.size());
-  for (index_type i = 0; i < z.size(); i++)
+  ovxx::Length<View<T2, Block1>::dim> ext = ovxx::extent(rho);
+  for (Index<View<T2, Block1>::dim> i; ovxx::valid(ext, i); ovxx::next(ext, i))
   {
     // Use abs/arg instead of calling scalar recttopolar because that
     // would require lvalue_proxy for split-storage.
-    complex<T1> tmp = z.get(i);
-    rho.put(i,   abs(tmp));
-    theta.put(i, arg(tmp));
+    complex<T1> tmp = ovxx::get(z, i);
+    ovxx::put(rho, i, static_cast<T2>(abs(tmp)));
+    ovxx::put(theta, i, static_cast<T2>(arg(tmp)));
   }
 }
 } // namespace vsip
-- 
2.43.0


From 06b80aabd0bd37956b46fc6945ca9d9655f7561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:33 +0000
Subject: [PATCH 45/70] fix: assignment of solver objects

---
 src/ovxx/lapack/cholesky.hpp |  1 +
 src/ovxx/lapack/lu.hpp       |  4 +++-
 src/ovxx/lapack/qr.hpp       |  1 +
 src/ovxx/lapack/svd.hpp      | 21 +++++++++++++++++++++
 4 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/lapack/cholesky.hpp b/src/ovxx/lapack/cholesky.hpp
index 6542708..8b3a55f 100644
--- a/src/ovxx/lapack/cholesky.hpp
+++ b/src/ovxx/lapack/cholesky.hpp
@@ -50,6 +50,7 @@ public:
     OVXX_PRECONDITION(length_ == other.length_);
     uplo_ = other.uplo_;
     data_ = other.data_;
+    return *this;
   }
 
   length_type length() const { return length_;}
diff --git a/src/ovxx/lapack/lu.hpp b/src/ovxx/lapack/lu.hpp
index 992057f..2b0c57a 100644
--- a/src/ovxx/lapack/lu.hpp
+++ b/src/ovxx/lapack/lu.hpp
@@ -49,8 +49,10 @@ public:
     // TODO: At present assignment requires dimensions to match,
     //       as views aren't resizable.
     OVXX_PRECONDITION(length_ == other.length_);
-    ipiv_ = other.ipiv_;
     data_ = other.data_;
+    for (index_type i = 0; i < length_; ++i)
+      ipiv_[i] = other.ipiv_[i];
+    return *this;
   }
 
   length_type length()const VSIP_NOTHROW { return length_;}
diff --git a/src/ovxx/lapack/qr.hpp b/src/ovxx/lapack/qr.hpp
index ffe7bb9..5a2b2b8 100644
--- a/src/ovxx/lapack/qr.hpp
+++ b/src/ovxx/lapack/qr.hpp
@@ -73,6 +73,7 @@ public:
       tau_[i] = other.tau_[i];
     for (index_type i = 0; i != work_.size(); ++i)
       work_[i] = other.work_[i];
+    return *this;
   }
 
   length_type rows() const VSIP_NOTHROW { return rows_;}
diff --git a/src/ovxx/lapack/svd.hpp b/src/ovxx/lapack/svd.hpp
index cee3a65..d11edf0 100644
--- a/src/ovxx/lapack/svd.hpp
+++ b/src/ovxx/lapack/svd.hpp
@@ -275,6 +275,27 @@ svd<T>::svd(svd const &other) VSIP_THROW((std::bad_alloc))
   }
 }
 
+template <typename T>
+svd<T> &
+svd<T>::operator=(svd const &other) VSIP_THROW((std::bad_alloc))
+{
+  // TODO: At present assignment requires dimensions to match,
+  //       as views aren't resizable.
+  OVXX_PRECONDITION(m_ == other.m_ && n_ == other.n_);
+  OVXX_PRECONDITION(ust_ == other.ust_ && vst_ == other.vst_);
+  data_ = other.data_;
+  q_ = other.q_;
+  pt_ = other.pt_;
+  for (index_type i = 0; i< p_; ++i)
+  {
+    b_d_[i]  = other.b_d_[i];
+    b_e_[i]  = other.b_e_[i];
+    tauq_[i] = other.tauq_[i];
+    taup_[i] = other.taup_[i];
+  }
+  return *this;
+}
+
 template <typename T>
 template <typename B0, typename B1>
 bool
-- 
2.43.0


From d500ef3f761369f72523901365d135301a438689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 46/70] fix: toepsol of a system of size one

---
 src/vsip/impl/solver/toepsol.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vsip/impl/solver/toepsol.hpp b/src/vsip/impl/solver/toepsol.hpp
index bac4900..c3162ac 100644
--- a/src/vsip/impl/solver/toepsol.hpp
+++ b/src/vsip/impl/solver/toepsol.hpp
@@ -58,6 +58,11 @@ VSIP_THROW((std::bad_alloc, computation_error))
 
   length_type n = t.size();
 
+  if (n == 1)
+  {
+    x.put(0, b.get(0) / ovxx::math::impl_real(t.get(0)));
+    return x;
+  }
 
   typename const_Vector<T, Block0>::subview_type r = t(Domain<1>(1, 1, n-1));
   Vector<T> tmpv(n);
-- 
2.43.0


From 6211dd79f09b816bdee05bff8a7f5a6ee729c2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 47/70] fix: products with the economy-size Q of a tall matrix

---
 src/ovxx/lapack/qr.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/ovxx/lapack/qr.hpp b/src/ovxx/lapack/qr.hpp
index 5a2b2b8..58f9d42 100644
--- a/src/ovxx/lapack/qr.hpp
+++ b/src/ovxx/lapack/qr.hpp
@@ -153,11 +153,18 @@ public:
       mqr_lwork = b.size(0);
     }
 
-    Matrix<T, data_block_type> b_int(b.size(0), b.size(1));
-    parallel::assign_local(b_int, b);
+    // mqr multiplies by the full (m, m) Q.  If only the first n columns
+    // of it are asked for, the operand is extended by zeros, and the excess
+    // of the product is dropped.
+    length_type c_rows = ps == mat_lside ? rows_ : b.size(0);
+    length_type c_cols = ps == mat_lside ? b.size(1) : rows_;
+    Matrix<T, data_block_type> b_int(c_rows, c_cols, T());
+    typename Matrix<T, data_block_type>::subview_type
+      b_sub = b_int(Domain<2>(b.size(0), b.size(1)));
+    parallel::assign_local(b_sub, b);
 
     int work = lapack::mqr_work<T>(side, trans,
-				   b.size(0), b.size(1), k_reflectors);
+				   c_rows, c_cols, k_reflectors);
     mqr_lwork *= work;
     aligned_array<T> mqr_work(mqr_lwork);
     {
@@ -165,15 +172,15 @@ public:
       dda::Data<data_block_type, dda::in> a_data(data_.block());
       lapack::mqr(side,
 		  trans,
-		  b.size(0), b.size(1),
+		  c_rows, c_cols,
 		  k_reflectors,
 		  a_data.ptr(), rows_,
 		  tau_.get(),
-		  b_data.ptr(), b.size(0),
+		  b_data.ptr(), c_rows,
 		  mqr_work.get(), mqr_lwork);
 		
     }
-    parallel::assign_local(x, b_int);
+    parallel::assign_local(x, b_int(Domain<2>(x.size(0), x.size(1))));
     return true;
   }
 
-- 
2.43.0


From 564c765d4a5b793670acfab0d88ac4361e14c9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:11 +0000
Subject: [PATCH 48/70] fix: unary() of a function object

---
 src/vsip/impl/fns_userelt.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vsip/impl/fns_userelt.hpp b/src/vsip/impl/fns_userelt.hpp
index 9f2ed6b..860a7b5 100644
--- a/src/vsip/impl/fns_userelt.hpp
+++ b/src/vsip/impl/fns_userelt.hpp
@@ -231,12 +231,14 @@ typename ovxx::operators::unary<
 unary(F f, View<T, Block> v)
 {
   using namespace ovxx;
+  typedef typename
+    userelt::unary_traits<typename F::result_type, F>::template Type<T> Function;
   typedef operators::unary<
     userelt::unary_traits<typename F::result_type, F>::template Type,
     View, T, Block> type_traits;
   typedef typename type_traits::block_type block_type;
   typedef typename type_traits::view_type view_type;
-  return view_type(block_type(std::ptr_fun(f), v.block()));
+  return view_type(block_type(Function(f), v.block()));
 }
 
 template <typename R, typename F,
-- 
2.43.0


From fe29542deda5f5f84046da2aa9bb848be66a7736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:11 +0000
Subject: [PATCH 49/70] fix: element type of the view returned by unary()

---
 src/ovxx/view/operators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/view/operators.hpp b/src/ovxx/view/operators.hpp
index 85725e7..03d2a34 100644
--- a/src/ovxx/view/operators.hpp
+++ b/src/ovxx/view/operators.hpp
@@ -27,8 +27,8 @@ template <template <typename> class O,
 	  typename Tag = typename is_view_type<V<T, B> >::type>
 struct unary
 {
-  typedef T value_type;
   typedef expr::Unary<O, B, true> const block_type;
+  typedef typename block_type::value_type value_type;
   typedef typename ViewConversion<V, value_type, block_type>::const_view_type view_type;
 };
 
-- 
2.43.0


From 354fb22c1d394c84bd9078173bf2f9f6e5111dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:53 +0000
Subject: [PATCH 50/70] fix: is_compatible ignored the dimension of integral
 blocks

---
 src/vsip/serialization.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vsip/serialization.hpp b/src/vsip/serialization.hpp
index 5f71220..3ec41cb 100644
--- a/src/vsip/serialization.hpp
+++ b/src/vsip/serialization.hpp
@@ -145,7 +145,8 @@ struct block_compatibility<ovxx::Strided<D, T, Layout<D, O, dense, S>, Local_map
     // ...else we require strict type equality
     else if (type_info<T>::value != info.value_type)
       return false;
-    else if (D != info.dimensions)
+
+    if (D != info.dimensions)
       return false; // dimension mismatch
     
     // TODO: support non-dense layouts
-- 
2.43.0


From 03694f3effc8150f1b8c186515eff221d8841504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:53 +0000
Subject: [PATCH 51/70] fix: is_compatible accepted three-dimensional data with
 padded rows

---
 src/vsip/serialization.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vsip/serialization.hpp b/src/vsip/serialization.hpp
index 3ec41cb..54ce6c3 100644
--- a/src/vsip/serialization.hpp
+++ b/src/vsip/serialization.hpp
@@ -125,7 +125,9 @@ struct ordering_compatibility<tuple<D0, D1, D2> >
 	 static_cast<length_type>(info.stride[D0]) != info.size[D1])) return false;
     else if (info.dimensions == 3 && 
 	     (info.stride[D0] < 0 ||
-	      static_cast<length_type>(info.stride[D0]) != info.size[D2] * info.size[D1])) return false;
+	      static_cast<length_type>(info.stride[D0]) != info.size[D2] * info.size[D1] ||
+	      info.stride[D1] < 0 ||
+	      static_cast<length_type>(info.stride[D1]) != info.size[D2])) return false;
     return true;
   }
 };
-- 
2.43.0


From 4c0f0564a25ec40d2ea20f64ae9d84c9596cabfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:34 +0000
Subject: [PATCH 52/70] fix: refcounted_ptr assignment takes the new reference
 before dropping the old, and accepts null

---
 src/ovxx/refcounted.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/refcounted.hpp b/src/ovxx/refcounted.hpp
index 1ce0dc0..51b0488 100644
--- a/src/ovxx/refcounted.hpp
+++ b/src/ovxx/refcounted.hpp
@@ -79,9 +79,11 @@ public:
   {
     if (ptr_ != from.ptr_)
     {
-      if (ptr_) ptr_->decrement_count();
+      // `from` may be part of the object that is released.
+      T *old = ptr_;
       ptr_ = from.ptr_;
-      ptr_->increment_count();
+      if (ptr_) ptr_->increment_count();
+      if (old) old->decrement_count();
     }
     return *this;
   }
-- 
2.43.0


From 0486ade71698eb361bf035e3e5b7e6ae4339d2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:35 +0000
Subject: [PATCH 53/70] fix: library set-up and tear-down hold the global lock;
 allocator is finalized without MPI, too

---
 src/ovxx/library.cpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/ovxx/library.cpp b/src/ovxx/library.cpp
index 09338e5..f8acabe 100644
--- a/src/ovxx/library.cpp
+++ b/src/ovxx/library.cpp
@@ -50,15 +50,16 @@ unsigned int thread_local_count = 0;
 
 void initialize(int &argc, char **&argv)
 {
+  bool first;
   {
 #if defined(OVXX_ENABLE_THREADING)
-    std::lock_guard<std::mutex> lock(global_count_guard);
+  // The global state may only be used by other threads once it is complete.
+  std::lock_guard<std::mutex> lock(global_count_guard);
 #endif
-    ++global_count;
-  }
+  first = ++global_count == 1;
   if (thread_local_count++) return;
 
-  if (global_count == 1)
+  if (first)
   {
 #ifndef OVXX_TIMER_SYSTEM
     chrono::high_resolution_clock::init();
@@ -85,15 +86,13 @@ void initialize(int &argc, char **&argv)
 # endif
 #endif // OVXX_FFTW_THREADS
   }
-  if (thread_local_count == 1)
-  {
-    allocator::initialize(argc, argv);
+  allocator::initialize(argc, argv);
 #if OVXX_HAVE_MPI
-    mpi::initialize(argc, argv);
+  mpi::initialize(argc, argv);
 #endif
   }
 #ifdef OVXX_ENABLE_OMP
-  if (global_count == 1)
+  if (first)
   {
     // Initialize OpenMP threads
 #pragma omp parallel
@@ -120,19 +119,17 @@ void finalize()
     omp_library = 0;
   }
 #endif
-  {
-#if OVXX_ENABLE_THREADING
-    std::lock_guard<std::mutex> lock(global_count_guard);
+#if defined(OVXX_ENABLE_THREADING)
+  std::lock_guard<std::mutex> lock(global_count_guard);
 #endif
-    --global_count;
-  }
+  --global_count;
   --thread_local_count;
   if (!thread_local_count)
   {
 #if OVXX_HAVE_MPI
     mpi::finalize(global_count == 0);
-    allocator::finalize();
 #endif
+    allocator::finalize();
   }
   if (!global_count)
   {
-- 
2.43.0


From 04c1f1ad03efbee02b1f678abe5d4b24c8e81ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:35 +0000
Subject: [PATCH 54/70] fix: MPI datatypes are created once, guarded against
 concurrent first use

---
 src/ovxx/mpi/datatype.hpp | 50 +++++++++++----------------------------
 1 file changed, 14 insertions(+), 36 deletions(-)

diff --git a/src/ovxx/mpi/datatype.hpp b/src/ovxx/mpi/datatype.hpp
index a6e7da9..7602dd0 100644
--- a/src/ovxx/mpi/datatype.hpp
+++ b/src/ovxx/mpi/datatype.hpp
@@ -41,21 +41,21 @@ OVXX_DATATYPE(float,          MPI_FLOAT)
 OVXX_DATATYPE(double,         MPI_DOUBLE)
 OVXX_DATATYPE(long double,    MPI_LONG_DOUBLE)
 
+inline MPI_Datatype make_contiguous(int count, MPI_Datatype type)
+{
+  MPI_Datatype datatype;
+  MPI_Type_contiguous(count, type, &datatype);
+  MPI_Type_commit(&datatype);
+  return datatype;
+}
+
 template <dimension_type D>
 struct Datatype<Index<D> >
 {
   static MPI_Datatype value()
   {
-    static bool first = true;
-    static MPI_Datatype datatype;
-
-    if (first)
-    {
-      first = false;
-      MPI_Type_contiguous(D, Datatype<index_type>::value(), &datatype);
-      MPI_Type_commit(&datatype);
-    }
-
+    static MPI_Datatype const datatype = 
+      make_contiguous(D, Datatype<index_type>::value());
     return datatype;
   }
 };
@@ -65,16 +65,8 @@ struct Datatype<std::complex<T> >
 {
   static MPI_Datatype value()
   {
-    static bool first = true;
-    static MPI_Datatype datatype;
-
-    if (first)
-    {
-      first = false;
-      MPI_Type_contiguous(2, Datatype<T>::value(), &datatype);
-      MPI_Type_commit(&datatype);
-    }
-
+    static MPI_Datatype const datatype = 
+      make_contiguous(2, Datatype<T>::value());
     return datatype;
   }
 };
@@ -84,22 +76,8 @@ struct Datatype<bool>
 {
   static MPI_Datatype value()
   {
-    static bool first = true;
-    static MPI_Datatype datatype;
-
-    if (first)
-    {
-      first = false;
-
-      if (sizeof(bool) == 1)
-	datatype = MPI_BYTE;
-      else
-      {
-	MPI_Type_contiguous(sizeof(bool), MPI_BYTE, &datatype);
-	MPI_Type_commit(&datatype);
-      }
-    }
-
+    static MPI_Datatype const datatype = sizeof(bool) == 1 ?
+      MPI_BYTE : make_contiguous(sizeof(bool), MPI_BYTE);
     return datatype;
   }
 };
-- 
2.43.0


From 8c337d76e32e4c03b54bbcaacb4128b116e17d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:35 +0000
Subject: [PATCH 55/70] fix: processor_set() shares no unguarded state and
 follows the default communicator

---
 src/vsip/impl/parallel.hpp | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/vsip/impl/parallel.hpp b/src/vsip/impl/parallel.hpp
index 8aa460f..8abb394 100644
--- a/src/vsip/impl/parallel.hpp
+++ b/src/vsip/impl/parallel.hpp
@@ -19,23 +19,18 @@ namespace vsip
 
 inline const_Vector<processor_type> processor_set()
 {
-  static Dense<1, processor_type> *pset_block_ = 0;
-
-  if (pset_block_ == 0)
-  {
 #if OVXX_PARALLEL
-    namespace p = ovxx::parallel;
-    p::Communicator::pvec_type const &pvec = p::default_communicator().pvec();
-    pset_block_ = new Dense<1, processor_type>(Domain<1>(pvec.size()));
-    for (index_type i=0; i<pvec.size(); ++i)
-      pset_block_->put(i, pvec[i]);
+  namespace p = ovxx::parallel;
+  p::Communicator::pvec_type const &pvec = p::default_communicator().pvec();
+  Vector<processor_type> pset(pvec.size());
+  for (index_type i=0; i<pvec.size(); ++i)
+    pset.put(i, pvec[i]);
 #else
-    pset_block_ = new Dense<1, processor_type>(1);
-    pset_block_->put(0, 0);
+  Vector<processor_type> pset(1);
+  pset.put(0, 0);
 #endif
-  }
 
-  return Vector<processor_type>(*pset_block_);
+  return pset;
 }
 
 // [view.support.fcn] parallel support functions
-- 
2.43.0


From fc822f27284a419eecbf624fb5d76dc17f26e181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:35 +0000
Subject: [PATCH 56/70] fix: FFTW plans are created and destroyed under a lock

---
 src/ovxx/fftw/fft.cpp  | 10 ++++++++++
 src/ovxx/fftw/fftw.cpp | 16 ++++++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/fftw/fft.cpp b/src/ovxx/fftw/fft.cpp
index e46d43e..aa0a66e 100644
--- a/src/ovxx/fftw/fft.cpp
+++ b/src/ovxx/fftw/fft.cpp
@@ -9,6 +9,7 @@
 #include <ovxx/support.hpp>
 #include <ovxx/layout.hpp>
 #include <ovxx/aligned_array.hpp>
+#include <ovxx/thread.hpp>
 #include <vsip/dense.hpp>
 #include <fftw3.h>
 
@@ -17,6 +18,15 @@ namespace ovxx
 namespace fftw
 {
 
+// Creating and destroying plans modifies FFTW's process-wide state.
+// (Only executing a plan is thread-safe.)
+#if OVXX_ENABLE_THREADING
+std::mutex planner_guard;
+# define OVXX_FFTW_LOCK_PLANNER std::lock_guard<std::mutex> lock(planner_guard)
+#else
+# define OVXX_FFTW_LOCK_PLANNER
+#endif
+
 // FFTW needs to know the complex storage-format during planning.
 // Since the actual storage-format is only known at execution time,
 // we need to use a best guess, and then require that via query_layout().
diff --git a/src/ovxx/fftw/fftw.cpp b/src/ovxx/fftw/fftw.cpp
index dd42b5b..63f9da9 100644
--- a/src/ovxx/fftw/fftw.cpp
+++ b/src/ovxx/fftw/fftw.cpp
@@ -64,6 +64,7 @@ struct planner<D, complex<SCALAR_TYPE>, complex<SCALAR_TYPE> >
       dims[i].n = layout.size(i);
       dims[i].is = dims[i].os = layout.stride(i);
     }
+    OVXX_FFTW_LOCK_PLANNER;
     if (complex_storage_format == split_complex)
     {
       std::pair<SCALAR_TYPE*,SCALAR_TYPE*> in = 
@@ -103,6 +104,7 @@ struct planner<D, complex<SCALAR_TYPE>, complex<SCALAR_TYPE> >
   }
   ~planner() VSIP_NOTHROW
   {
+    OVXX_FFTW_LOCK_PLANNER;
     FFTW(destroy_plan)(plan_op_);
     FFTW(destroy_plan)(plan_ip_);
   }
@@ -171,6 +173,7 @@ struct planner<D, SCALAR_TYPE, complex<SCALAR_TYPE> >
       dims[i].is = in_layout.stride(i); 
       dims[i].os = out_layout.stride(i); 
     }
+    OVXX_FFTW_LOCK_PLANNER;
     if (complex_storage_format == split_complex)
     {
       SCALAR_TYPE *in = in_buffer_.get();
@@ -188,7 +191,11 @@ struct planner<D, SCALAR_TYPE, complex<SCALAR_TYPE> >
     }
     if (!plan_) OVXX_DO_THROW(std::bad_alloc());
   }
-  ~planner() VSIP_NOTHROW { FFTW(destroy_plan)(plan_);}
+  ~planner() VSIP_NOTHROW
+  {
+    OVXX_FFTW_LOCK_PLANNER;
+    FFTW(destroy_plan)(plan_);
+  }
 
   aligned_array<SCALAR_TYPE> in_buffer_;
   aligned_array<complex<SCALAR_TYPE> > out_buffer_;
@@ -253,6 +260,7 @@ struct planner<D, complex<SCALAR_TYPE>, SCALAR_TYPE>
       dims[i].is = in_layout.stride(i); 
       dims[i].os = out_layout.stride(i); 
     }
+    OVXX_FFTW_LOCK_PLANNER;
     if (complex_storage_format == split_complex)
     {
       std::pair<SCALAR_TYPE*,SCALAR_TYPE*> in = 
@@ -270,7 +278,11 @@ struct planner<D, complex<SCALAR_TYPE>, SCALAR_TYPE>
     }
     if (!plan_) OVXX_DO_THROW(std::bad_alloc());
   }
-  ~planner() VSIP_NOTHROW { FFTW(destroy_plan)(plan_);}
+  ~planner() VSIP_NOTHROW
+  {
+    OVXX_FFTW_LOCK_PLANNER;
+    FFTW(destroy_plan)(plan_);
+  }
 
   aligned_array<complex<SCALAR_TYPE> > in_buffer_;
   aligned_array<SCALAR_TYPE> out_buffer_;
-- 
2.43.0


From f84190c731a01905f8e2e6c37eae49278169e941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:35 +0000
Subject: [PATCH 57/70] fix: post-increment of processor iterators returns by
 value

---
 src/ovxx/value_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/value_iterator.hpp b/src/ovxx/value_iterator.hpp
index cbd7c04..f94f357 100644
--- a/src/ovxx/value_iterator.hpp
+++ b/src/ovxx/value_iterator.hpp
@@ -42,9 +42,9 @@ public:
   value_iterator &operator+=(int dx) { current_ += dx * delta_; return *this;}
   value_iterator &operator-=(int dx) { current_ -= dx * delta_; return *this;}
 
-  value_iterator &operator++(int)
+  value_iterator operator++(int)
   { value_iterator tmp = *this; current_ += delta_; return tmp;}
-  value_iterator &operator--(int)
+  value_iterator operator--(int)
   { value_iterator tmp = *this; current_ -= delta_; return tmp;}
 
   bool operator==(value_iterator const &other) const
-- 
2.43.0


From 47323d155b43a3cc1eb1844e49ace999e72221f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:35 +0000
Subject: [PATCH 58/70] fix: post-increment and assignment of vector_iterator

---
 src/ovxx/vector_iterator.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/vector_iterator.hpp b/src/ovxx/vector_iterator.hpp
index 379936d..3ccdd8e 100644
--- a/src/ovxx/vector_iterator.hpp
+++ b/src/ovxx/vector_iterator.hpp
@@ -24,13 +24,31 @@ public:
       idx_ (idx)
     {}
 
+  vector_iterator(vector_iterator const &other)
+    : view_(other.view_),
+      idx_(other.idx_)
+    {}
+
+  // Refer to the other's view (assigning the view would copy its elements
+  // into the one referred to so far).
+  vector_iterator &operator=(vector_iterator const &other)
+  {
+    if (this != &other)
+    {
+      view_.~V();
+      new (&view_) V(other.view_);
+      idx_ = other.idx_;
+    }
+    return *this;
+  }
+
   vector_iterator &operator++() { idx_ += 1; return *this;}
   vector_iterator &operator--() { idx_ -= 1; return *this;}
   vector_iterator &operator+=(int dx) { idx_ += dx; return *this;}
   vector_iterator &operator-=(int dx) { idx_ -= dx; return *this;}
-  vector_iterator& operator++(int)
+  vector_iterator operator++(int)
   { vector_iterator tmp = *this; idx_ += 1; return tmp;}
-  vector_iterator& operator--(int)
+  vector_iterator operator--(int)
   { vector_iterator tmp = *this; idx_ -= 1; return tmp;}
 
   bool operator==(vector_iterator const &rhs) const
-- 
2.43.0


From 8433d76d3fe78de8a8d020f6b3f4f4f07c981697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:18 +0000
Subject: [PATCH 59/70] fix: keep the operation object in the local part of an
 expression

---
 src/ovxx/expr/binary.hpp  | 3 ++-
 src/ovxx/expr/ternary.hpp | 3 ++-
 src/ovxx/expr/unary.hpp   | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ovxx/expr/binary.hpp b/src/ovxx/expr/binary.hpp
index bb4b930..3bfd954 100644
--- a/src/ovxx/expr/binary.hpp
+++ b/src/ovxx/expr/binary.hpp
@@ -289,7 +289,8 @@ get_local_block(expr::Binary<Operation, Arg1, Arg2, true> const &block)
 		       typename distributed_local_block<Arg2>::type, true>
     block_type;
 
-  return block_type(get_local_block(block.arg1()),
+  return block_type(block.operation(),
+		    get_local_block(block.arg1()),
 		    get_local_block(block.arg2()));
 }
 
diff --git a/src/ovxx/expr/ternary.hpp b/src/ovxx/expr/ternary.hpp
index fef5ce6..57386fd 100644
--- a/src/ovxx/expr/ternary.hpp
+++ b/src/ovxx/expr/ternary.hpp
@@ -288,7 +288,8 @@ get_local_block(Ternary<O, B1, B2, B3, true> const &block)
 		  true>
     block_type;
 
-  return block_type(get_local_block(block.arg1()),
+  return block_type(block.operation(),
+		    get_local_block(block.arg1()),
 		    get_local_block(block.arg2()),
 		    get_local_block(block.arg3()));
 }
diff --git a/src/ovxx/expr/unary.hpp b/src/ovxx/expr/unary.hpp
index dceecec..fad0b18 100644
--- a/src/ovxx/expr/unary.hpp
+++ b/src/ovxx/expr/unary.hpp
@@ -199,7 +199,7 @@ get_local_block(expr::Unary<O, B, true> const &block)
   typedef expr::Unary<O, typename distributed_local_block<B>::type, true>
     block_type;
 
-  return block_type(get_local_block(block.arg()));
+  return block_type(block.operation(), get_local_block(block.arg()));
 }
 
 template <template <typename> class O, typename B>
-- 
2.43.0


From a6f221d610e4e066acac45ad9e47c8a032995f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:18 +0000
Subject: [PATCH 60/70] fix: compare the maps of a vector-matrix product with
 its destination

---
 src/ovxx/expr/vmmul.hpp      | 65 +++++++++++++++++++++++++++++-------
 src/ovxx/parallel/assign.hpp |  1 +
 2 files changed, 54 insertions(+), 12 deletions(-)

diff --git a/src/ovxx/expr/vmmul.hpp b/src/ovxx/expr/vmmul.hpp
index 8dd0a1e..637cea6 100644
--- a/src/ovxx/expr/vmmul.hpp
+++ b/src/ovxx/expr/vmmul.hpp
@@ -129,6 +129,57 @@ namespace parallel
 //  - vector and matrix mapped to single, single processor
 //
 
+/// Whether every processor of 'map' holds all elements of 'block'.
+template <typename M, typename B, typename V>
+bool is_replicated_on(M const &, B const &, V const &) { return false;}
+
+template <typename M, typename B, dimension_type D>
+bool is_replicated_on(M const &map, B const &block, Replicated_map<D> const &vmap)
+{
+  if (!has_same_map<D>(vmap, block)) return false;
+  for (index_type i = 0; i < map.num_processors(); ++i)
+    if (vmap.subblock(map.impl_proc_from_rank(i)) == no_subblock)
+      return false;
+  return true;
+}
+
+/// Whether the elements of the vector needed for the local part of
+/// a matrix mapped by M are held by the same processors.
+template <dimension_type VecDim, typename M>
+struct vmmul_vector
+{
+  template <typename B>
+  static bool is_local_to(M const &, B const &) { return false;}
+};
+
+template <dimension_type VecDim>
+struct vmmul_vector<VecDim, Replicated_map<2> >
+{
+  template <typename B>
+  static bool is_local_to(Replicated_map<2> const &map, B const &block)
+  { return is_replicated_on(map, block, block.map());}
+};
+
+template <dimension_type VecDim, typename D0, typename D1, typename D2>
+struct vmmul_vector<VecDim, Map<D0, D1, D2> >
+{
+  typedef Map<D0, D1, D2> map_type;
+
+  template <typename B>
+  static bool is_local_to(map_type const &map, B const &block)
+  {
+    return
+      // Case 1: vector is replicated
+      (map.num_subblocks(1-VecDim) == 1 &&
+       is_replicated_on(map, block, block.map())) ||
+
+      // Case 2:
+      (map.num_subblocks(VecDim) == 1 &&
+       has_same_map<1>(map_project_1<VecDim, map_type>::project(map, 0),
+		       block));
+  }
+};
+
 template <dimension_type D,
 	  typename       M,
 	  dimension_type VecDim,
@@ -136,18 +187,8 @@ template <dimension_type D,
 	  typename       Block1>
 bool has_same_map(M const &map, expr::Vmmul<VecDim, Block0, Block1> const &block)
 {
-  using namespace parallel;
-  return 
-    // Case 1: vector is replicated
-    (has_same_map<1>(Replicated_map<1>(), block.get_vblk()) &&
-     map.num_subblocks(1-VecDim) == 1 &&
-     has_same_map<D>(map, block.get_mblk())) ||
-
-    // Case 2:
-    (map.num_subblocks(VecDim) == 1 &&
-     has_same_map<1>(map_project_1<VecDim, M>::project(map, 0),
-		     block.get_vblk()) &&
-     has_same_map<D>(map, block.get_mblk()));
+  return has_same_map<D>(map, block.get_mblk()) &&
+    vmmul_vector<VecDim, M>::is_local_to(map, block.get_vblk());
 }
 
 template <dimension_type VecDim,
diff --git a/src/ovxx/parallel/assign.hpp b/src/ovxx/parallel/assign.hpp
index 3b78418..9b47443 100644
--- a/src/ovxx/parallel/assign.hpp
+++ b/src/ovxx/parallel/assign.hpp
@@ -15,6 +15,7 @@
 #include <ovxx/parallel/assign_chain.hpp>
 #include <ovxx/parallel/assign_block_vector.hpp>
 #include <ovxx/parallel/expr.hpp>
+#include <ovxx/expr/vmmul.hpp>
 
 namespace ovxx
 {
-- 
2.43.0


From 967be1df5741162190a4d706f4e2d5a3067e15e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:18 +0000
Subject: [PATCH 61/70] fix: refuse freqswap of data distributed over several
 subblocks; do not read past even or empty views

---
 src/ovxx/signal/freqswap.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ovxx/signal/freqswap.hpp b/src/ovxx/signal/freqswap.hpp
index f65f541..60cb96b 100644
--- a/src/ovxx/signal/freqswap.hpp
+++ b/src/ovxx/signal/freqswap.hpp
@@ -38,7 +38,8 @@ struct Freqswap<1>
 
     index_type const ia = M % 2;  // adjustment to get source index
 
-    typename ArgumentBlock::value_type mid = in.get(M / 2);
+    typename ArgumentBlock::value_type mid =
+      ia ? in.get(M / 2) : typename ArgumentBlock::value_type();
 
     for (index_type i = 0, ii = M / 2; i < M / 2; ++i, ++ii)
     {
@@ -75,7 +76,8 @@ struct Freqswap<2>
       // First swap rows.
       for (index_type i=0; i < M; ++i)
       {
-	typename ArgumentBlock::value_type mid = in.get(i, N / 2);
+	typename ArgumentBlock::value_type mid =
+	  ja ? in.get(i, N / 2) : typename ArgumentBlock::value_type();
 
 	for (index_type j = 0, jj = N / 2; j < N / 2; ++j, ++jj)
 	{
@@ -92,7 +94,8 @@ struct Freqswap<2>
       // Second, swap columns.
       for (index_type j=0; j < N; ++j)
       {
-	typename ArgumentBlock::value_type mid = in.get(M / 2, j);
+	typename ArgumentBlock::value_type mid =
+	  ia ? in.get(M / 2, j) : typename ArgumentBlock::value_type();
 
 	for (index_type i = 0, ii = M / 2; i < M / 2; ++i, ++ii)
 	{
@@ -208,7 +211,14 @@ public:
     namespace d = ovxx::dispatcher;
     dispatch<d::op::freqswap, void, B1 &, B const &>(out, in_);
   }
-  local_type local() const { return local_type(get_local_block(in_));}
+  local_type local() const
+  {
+    if (parallel::is_global_map<map_type>::value &&
+	in_.map().num_subblocks() != 1)
+      OVXX_DO_THROW(unimplemented(
+	"freqswap requires its argument to not be distributed"));
+    return local_type(get_local_block(in_));
+  }
 
 private:
   block_ref_type in_;
-- 
2.43.0


From e3e1b1f21e255872604f6f9d5adf34dba9de0b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:18 +0000
Subject: [PATCH 62/70] fix: copy distributed blocks when their layout is
 requested at run time

---
 src/ovxx/dda/accessor.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/dda/accessor.hpp b/src/ovxx/dda/accessor.hpp
index bafa247..b36a476 100644
--- a/src/ovxx/dda/accessor.hpp
+++ b/src/ovxx/dda/accessor.hpp
@@ -251,8 +251,14 @@ struct get_block_access
 template <typename B, dimension_type D, sync_policy S, typename E>
 struct get_block_access<B, Rt_layout<D>, S, E>
 {
+  // The data of a distributed block are only partially available
+  // in local storage, so they need to be copied.
+  static bool const is_local =
+    is_same<Local_map, typename B::map_type>::value ||
+    is_same<Replicated_map<D>, typename B::map_type>::value;
+
   static access_kind const value =
-    supports_dda<B>::value ? maybe_direct_access : copy_access;
+    is_local && supports_dda<B>::value ? maybe_direct_access : copy_access;
 };
 
 /// Low-level data access class.
-- 
2.43.0


From 422dbb19143ac0abd51377ec7ba4ee0cb0622f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:18 +0000
Subject: [PATCH 63/70] fix: refuse by-value transforms along a distributed
 dimension; skip processes without a subblock

---
 src/ovxx/signal/fft/functor.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/signal/fft/functor.hpp b/src/ovxx/signal/fft/functor.hpp
index 555f99f..768df94 100644
--- a/src/ovxx/signal/fft/functor.hpp
+++ b/src/ovxx/signal/fft/functor.hpp
@@ -10,6 +10,7 @@
 
 #include <ovxx/block_traits.hpp>
 #include <ovxx/parallel/support.hpp>
+#include <ovxx/signal/fft/backend.hpp>
 
 namespace ovxx
 {
@@ -75,6 +76,12 @@ struct fft
 
     local_type local() const
     {
+      // Only dimensions that aren't transformed may be distributed.
+      if (parallel::is_global_map<map_type>::value &&
+	  (signal::fft::is_fftm_backend<BE>::value ?
+	   arg_.map().num_subblocks(BE::axis) : arg_.map().num_subblocks()) != 1)
+	OVXX_DO_THROW(unimplemented(
+	  "Fft requires dimensions along FFT to not be distributed"));
       length_type rows = output_size_[0].size();
       length_type cols = output_size_[1].size();
       if (BE::axis == 0)
@@ -103,7 +110,9 @@ struct fft
     template <typename R>
     void apply(R &result) const
     {
-      workspace_.out_of_place(backend_, arg_, result);
+      // The local subblock may be empty.
+      if (arg_.size())
+	workspace_.out_of_place(backend_, arg_, result);
     }
 
   private:
-- 
2.43.0


From 391eca90d2adb92119c72f93fbed90d7c4f69559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:18 +0000
Subject: [PATCH 64/70] fix: give map_subset_block a map of its own instead of
 leaking one per query

---
 src/ovxx/parallel/map_subset_block.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/parallel/map_subset_block.hpp b/src/ovxx/parallel/map_subset_block.hpp
index 0d4d725..d26349c 100644
--- a/src/ovxx/parallel/map_subset_block.hpp
+++ b/src/ovxx/parallel/map_subset_block.hpp
@@ -39,7 +39,7 @@ public:
 
   void increment_count() const VSIP_NOTHROW {}
   void decrement_count() const VSIP_NOTHROW {}
-  map_type const &map() const VSIP_NOTHROW { return *(new map_type());}
+  map_type const &map() const VSIP_NOTHROW { return local_map_;}
 
   value_type get(index_type i) const
   {
@@ -77,6 +77,7 @@ private:
   M const &map_;
   index_type   sb_;
   Domain<dim>  dom_;
+  map_type     local_map_;
 
 };
 
-- 
2.43.0


From fc8f9a2efe1fe30d110382b334ac07813d77c618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:18 +0000
Subject: [PATCH 65/70] fix: size of an even-length symmetric two-dimensional
 kernel

---
 src/ovxx/signal/conv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/signal/conv.hpp b/src/ovxx/signal/conv.hpp
index 948a278..cd5b007 100644
--- a/src/ovxx/signal/conv.hpp
+++ b/src/ovxx/signal/conv.hpp
@@ -89,7 +89,7 @@ conv_kernel_size<sym_even_len_odd, 2>(Domain<2> const &coeff_size)
 template <>
 inline Domain<2>
 conv_kernel_size<sym_even_len_even, 2>(Domain<2> const &coeff_size) 
-{ return Domain<2>(2 * coeff_size[0].length(), 2 * coeff_size[1].length() - 1);}
+{ return Domain<2>(2 * coeff_size[0].length(), 2 * coeff_size[1].length());}
 
 template <>
 inline Domain<2>
-- 
2.43.0


From b087e18d7824c849583553d735827acd9fc3a7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:18 +0000
Subject: [PATCH 66/70] fix: promote char to the wider arithmetic types

---
 src/vsip/impl/promotion.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vsip/impl/promotion.hpp b/src/vsip/impl/promotion.hpp
index 9e84878..54f7162 100755
--- a/src/vsip/impl/promotion.hpp
+++ b/src/vsip/impl/promotion.hpp
@@ -47,6 +47,12 @@ template <> struct Promotion<bool, long> { typedef long type;};
 template <> struct Promotion<bool, float> { typedef float type;};
 template <> struct Promotion<bool, double> { typedef double type;};
 
+template <> struct Promotion<char, short> { typedef short type;};
+template <> struct Promotion<char, int> { typedef int type;};
+template <> struct Promotion<char, long> { typedef long type;};
+template <> struct Promotion<char, float> { typedef float type;};
+template <> struct Promotion<char, double> { typedef double type;};
+
 template <> struct Promotion<short, int> { typedef int type;};
 template <> struct Promotion<short, long> { typedef long type;};
 template <> struct Promotion<short, float> { typedef float type;};
-- 
2.43.0


From 4c2419199bfd196f3289f9ec9b0a70dddff2a2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:18 +0000
Subject: [PATCH 67/70] fix: separate the elements of a printed tensor

---
 src/ovxx/output.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/output.hpp b/src/ovxx/output.hpp
index 3bbf344..d49c3b0 100644
--- a/src/ovxx/output.hpp
+++ b/src/ovxx/output.hpp
@@ -110,7 +110,7 @@ operator<<(std::ostream & out, const_Tensor<T, B> t)
     {
       out << r << ": ";
       for (index_type c = 0; c != t.size(2); ++c)
-        out << t.get(z, r, c);
+        out << "  " << t.get(z, r, c);
       out << std::endl;
     }
     out << std::endl;
-- 
2.43.0


From 3f771af0a273eda8a91fb52f8c92303e858dcee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:02 +0000
Subject: [PATCH 68/70] fix: byteswap passes values, not addresses, and is not
 ambiguous

---
 src/ovxx/byteswap.hpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/ovxx/byteswap.hpp b/src/ovxx/byteswap.hpp
index 762e1c7..ef6e6a0 100644
--- a/src/ovxx/byteswap.hpp
+++ b/src/ovxx/byteswap.hpp
@@ -10,7 +10,8 @@
 
 #include <vsip/complex.hpp>
 #include <ovxx/detail/endian.hpp>
-#include <byteswap.h>
+#include <algorithm>
+#include <cstddef>
 
 namespace ovxx
 {
@@ -25,22 +26,30 @@ struct bswap
   static void apply(T *) {}
 };
 
+// Reverse the N bytes starting at d.
+template <std::size_t N>
+inline void reverse_bytes(void *d)
+{
+  char *bytes = static_cast<char*>(d);
+  std::reverse(bytes, bytes + N);
+}
+
 template <typename T>
 struct bswap<T, true, 2, false>
 {
-  static void apply(T *d) { bswap_16(reinterpret_cast<char*>(d));}
+  static void apply(T *d) { reverse_bytes<2>(d);}
 };
 
 template <typename T>
 struct bswap<T, true, 4, false>
 {
-  static void apply(T *d) { bswap_32(reinterpret_cast<char*>(d));}
+  static void apply(T *d) { reverse_bytes<4>(d);}
 };
 
 template <typename T>
 struct bswap<T, true, 8, false>
 {
-  static void apply(T *d) { bswap_64(reinterpret_cast<char*>(d));}
+  static void apply(T *d) { reverse_bytes<8>(d);}
 };
 
 template <typename T>
@@ -48,8 +57,8 @@ struct bswap<T, true, 8, true>   // complex
 {
   static void apply(T *d) 
   {
-    bswap_32(reinterpret_cast<char*>(d));
-    bswap_32(reinterpret_cast<char*>(d)+4);
+    reverse_bytes<4>(d);
+    reverse_bytes<4>(reinterpret_cast<char*>(d)+4);
   }
 };
 
@@ -58,8 +67,8 @@ struct bswap<T, true, 16, true>  // complex
 {
   static void apply(T *d) 
   {
-    bswap_64(reinterpret_cast<char*>(d));
-    bswap_64(reinterpret_cast<char*>(d)+8);
+    reverse_bytes<8>(d);
+    reverse_bytes<8>(reinterpret_cast<char*>(d)+8);
   }
 };
 
@@ -67,7 +76,7 @@ struct bswap<T, true, 16, true>  // complex
 
 // swap bytes
 template <typename T>
-void byteswap(T &data, bool swap_bytes = true)
+void byteswap(T &data, bool swap_bytes)
 {
   if(swap_bytes) detail::bswap<T,true>::apply(&data);
 }
-- 
2.43.0


From d1ae28c050b476d6a2efafd2ba73aed4fe107064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:02 +0000
Subject: [PATCH 69/70] fix: a zero duration is zero

---
 src/ovxx/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/chrono.hpp b/src/ovxx/chrono.hpp
index 7e7d824..1ac8cd0 100644
--- a/src/ovxx/chrono.hpp
+++ b/src/ovxx/chrono.hpp
@@ -41,7 +41,7 @@ struct duration
   duration &operator-=(duration const &d)
   { value_ -= d.value_; return *this;}
 
-  static duration zero() { return duration();}
+  static duration zero() { return duration(0);}
 
 private:
   rep value_;
-- 
2.43.0


From 9be2335edbf241a3998beae755eedfb670ece3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:02 +0000
Subject: [PATCH 70/70] fix: resetting a counted pointer to the object it holds

---
 src/ovxx/refcounted.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ovxx/refcounted.hpp b/src/ovxx/refcounted.hpp
index 51b0488..30c7c67 100644
--- a/src/ovxx/refcounted.hpp
+++ b/src/ovxx/refcounted.hpp
@@ -90,10 +90,11 @@ public:
 
   void reset(T *p, bool increment = false)
   {
-    if (ptr_) ptr_->decrement_count();
+    OVXX_PRECONDITION(p || !increment);
+    if (increment) p->increment_count();
+    T *old = ptr_;
     ptr_ = p;
-    OVXX_PRECONDITION(ptr_ || !increment);
-    if (increment) ptr_->increment_count();
+    if (old) old->decrement_count();
   }
 
   T &operator*() const { return *ptr_;}
-- 
2.43.0

