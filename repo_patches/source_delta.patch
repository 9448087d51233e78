From 1ac93c1d346148811864a5ad82f8ec05c7e852d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:44 +0000
Subject: [PATCH 01/32] fix: prefer_aligned must not leave the range when it
 ends before the first aligned address

---
 vir/simd_execution.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index 383307b..d2b02bb 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -594,9 +594,26 @@ case0:
               if (misaligned_by_bytes == 0)
                 return;
               const auto misaligned_by_elements = misaligned_by_bytes / sizeof(T);
-              const auto to_process = max_misalignment - misaligned_by_elements;
+              std::size_t to_process = max_misalignment - misaligned_by_elements;
               if constexpr (use_aligned_loadstore)
-                do_prologue(max_misalignment, to_process);
+                {
+                  if (remaining < to_process)
+                    {
+                      // The range ends before the first aligned address. Process all of it in
+                      // naturally aligned chunks.
+                      while (remaining)
+                        {
+                          const std::size_t n = std::min(to_process & -to_process,
+                                                         std::bit_floor(remaining));
+                          do_prologue(max_misalignment, n);
+                          ((iterators_to_advance += n), ...);
+                          to_process -= n;
+                          remaining -= n;
+                        }
+                      return;
+                    }
+                  do_prologue(max_misalignment, to_process);
+                }
               else if (remaining * sizeof(T) > 4000
                          or (to_process & remaining) == to_process) // prologue replaces epilogue
                 do_prologue(max_misalignment, to_process);
-- 
2.43.0


From ba7a17a259f49fb77523f3f7ee57cb6c7625eb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:30 +0000
Subject: [PATCH 02/32] fix: loading 8 structs of 3 floats must keep the
 element order

---
 vir/simdize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simdize.h b/vir/simdize.h
index a3b7ecd..3187ac8 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -667,7 +667,7 @@ namespace vir
 		      // c = [b5 c5 a6 b6 c6 a7 b7 c7] 233 = 121+112
 
 		      using v8sf [[gnu::vector_size(32)]] = float;
-		      if constexpr (true) // allow_unordered
+		      if constexpr (false) // allow_unordered
 			{
 			  v8sf x0, x1, x2, a0, b0, c0;
 			  std::memcpy(&x0, byte_ptr +  0, 32);
-- 
2.43.0


From 42a4b3272afe531f7d44360277fc3ed19e4ae0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:30 +0000
Subject: [PATCH 03/32] fix: transform_reduce must return after a prologue that
 processed the complete range

---
 vir/simd_execution.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index d2b02bb..1c046ca 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -1003,6 +1003,9 @@ case0:
                          acc1, first1, to_process, reduce_op, transform_op, first2...);
               }, first1, first2...);
 
+            if (distance == 0) // the prologue already processed the complete range
+              return acc1[0];
+
             const auto leftover = distance % size;
 
             constexpr int lo_size = std::bit_ceil(unsigned(size)) / 2;
-- 
2.43.0


From 41a4300daebce4f1915e8c30d07ba988f4229a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:30 +0000
Subject: [PATCH 04/32] fix: for_each in constant expressions must not process
 the last element twice

---
 vir/simd_execution.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index 1c046ca..a5ed019 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -1155,8 +1155,9 @@ case0:
                                                         stdx::element_aligned, detail::no_unroll);
 
           if constexpr (size > 1)
-            detail::simd_for_each_epilogue<V, write_back>(fun, distance % size, last,
-                                                          stdx::element_aligned);
+            if (distance % size)
+              detail::simd_for_each_epilogue<V, write_back>(fun, distance % size, last,
+                                                            stdx::element_aligned);
         }
       else
         {
-- 
2.43.0


From 7b1ce1957e89ae3df31cf93af62cc30e5bdd32ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:30 +0000
Subject: [PATCH 05/32] fix: simd_permute.h must include the header that
 defines detail::bit_cast

---
 vir/simd_permute.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index 5502830..643264a 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -18,6 +18,7 @@
 #define VIR_HAVE_SIMD_PERMUTE 1
 
 #include "simd.h"
+#include "detail.h"
 #include "constexpr_wrapper.h"
 #include <bit>
 
-- 
2.43.0


From 748735dc187016a542bbb7bc82ff3bcdf65b0c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:32 +0000
Subject: [PATCH 06/32] fix: rotate with a negative offset must work for every
 simd size

(i + Offset) % size.value converts the negative index to an unsigned type, which yields wrong
indexes unless size is a power of two.
---
 vir/simd_permute.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index 643264a..eca68ed 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -145,7 +145,10 @@ namespace vir
 
 	VIR_CONSTEVAL int
 	operator()(int i, auto size) const
-	{ return (i + Offset) % size.value; }
+	{
+	  constexpr int n = size.value;
+	  return (i + Offset % n + n) % n;
+	}
       };
 
     /// Rotate the elements by \p Offset.
-- 
2.43.0


From 374a724ee7e891fdd5ec5dc666e2ac1bead7775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:47 +0000
Subject: [PATCH 07/32] fix: even rotations of 8 floats with AVX2 must honor
 size and arbitrary offsets

The permutation control was only valid for offsets in [0, 8) and ignored a different result size.
---
 vir/simd_permute.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index eca68ed..e539a7e 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -193,7 +193,7 @@ namespace vir
 #if defined __AVX2__
 	    using v4df [[gnu::vector_size(32)]] = double;
 	    if constexpr (std::same_as<T, float> and std::is_trivially_copyable_v<V>
-			    and sizeof(v4df) == sizeof(V)
+			    and sizeof(v4df) == sizeof(V) and R::size() == V::size()
 			    and requires {
 			      F::is_even_rotation;
 			      F::Offset;
@@ -202,10 +202,11 @@ namespace vir
 			    })
 	      {
 		const v4df intrin = detail::bit_cast<v4df>(v);
-		constexpr int control = ((F::Offset / 2) << 0)
-					  | (((F::Offset / 2 + 1) % 4) << 2)
-					  | (((F::Offset / 2 + 2) % 4) << 4)
-					  | (((F::Offset / 2 + 3) % 4) << 6);
+		constexpr int first = (F::Offset / 2 % 4 + 4) % 4;
+		constexpr int control = first
+					  | (((first + 1) % 4) << 2)
+					  | (((first + 2) % 4) << 4)
+					  | (((first + 3) % 4) << 6);
 		return detail::bit_cast<R>(__builtin_ia32_permdf256(intrin, control));
 	      }
 #endif
-- 
2.43.0


From db53aadee47302b626767942587406d322ad9ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:12 +0000
Subject: [PATCH 08/32] fix: simd_permute must not use shufflevector on simd
 objects with padding

The result must have a power-of-two number of elements, and the index used for zeros would refer
to the padding.
---
 vir/simd_permute.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index e539a7e..760ffe3 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -216,7 +216,9 @@ namespace vir
 		using VBuiltin [[gnu::vector_size(sizeof(V))]] = T;
 		using RBuiltin [[gnu::vector_size(sizeof(R))]] = T;
 		if constexpr (std::is_trivially_copyable_v<V> and std::is_trivially_copyable_v<R>
-				and sizeof(VBuiltin) == sizeof(V) and sizeof(RBuiltin) == sizeof(R))
+				and sizeof(VBuiltin) == sizeof(V) and sizeof(RBuiltin) == sizeof(R)
+				and V::size() * sizeof(T) == sizeof(V)
+				and R::size() * sizeof(T) == sizeof(R))
 		  {
 		    const VBuiltin vec = detail::bit_cast<VBuiltin>(v);
 		    constexpr auto idx_perm2 = [=](constexpr_value auto i) {
-- 
2.43.0


From 088203d67ea5d989fd090e76a5af6ba0066767ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:14 +0000
Subject: [PATCH 09/32] fix: simd_resize of a simd_mask must compile with
 libstdc++'s simd

simd_mask has no generator constructor there.
---
 vir/simd_resize.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vir/simd_resize.h b/vir/simd_resize.h
index af5dee6..d86e207 100644
--- a/vir/simd_resize.h
+++ b/vir/simd_resize.h
@@ -28,6 +28,10 @@ namespace vir
     constexpr vir::detail::deduced_simd_mask<T, N>
     simd_resize(const stdx::simd_mask<T, A>& x)
     {
+#if VIR_GLIBCXX_STDX_SIMD
+      return std::experimental::parallelism_v2::__proposed::resizing_simd_cast<
+               vir::detail::deduced_simd_mask<T, N>>(x);
+#else
       constexpr int xn = stdx::simd_size_v<T, A>;
       return vir::detail::deduced_simd_mask<T, N>([&x](auto i) {
                if constexpr (i < xn)
@@ -35,6 +39,7 @@ namespace vir
                else
                  return false;
              });
+#endif
     }
 
   template <typename V, typename A>
-- 
2.43.0


From 537b66d87124c01d59c6ebdfd0df19bae0cc0fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:53 +0000
Subject: [PATCH 10/32] fix: simd_permute and simd_shift_in must accept
 simd_mask as declared

simd<bool> was named for masks and libstdc++'s simd_mask has no generator constructor.
---
 vir/simd_permute.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index 760ffe3..1fe65e5 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -47,6 +47,21 @@ namespace vir
     template <typename F, std::size_t Size>
       concept index_permutation_function
 	= index_permutation_function_size<F, Size> or index_permutation_function_nosize<F>;
+
+    /// Generator "constructor" which also works for simd_mask types without such a constructor.
+    template <vir::any_simd_or_mask V, typename F>
+      VIR_ALWAYS_INLINE constexpr V
+      generate(F&& gen)
+      {
+	if constexpr (vir::any_simd<V> or std::is_constructible_v<V, F&&>)
+	  return V(static_cast<F&&>(gen));
+	else
+	  {
+	    V r(false);
+	    vir::detail::unroll<int(V::size())>([&](auto i) { r[i] = gen(i); });
+	    return r;
+	  }
+      }
   }
 
   /// Constant that requests a zero value instead of one of the input values.
@@ -188,6 +203,7 @@ namespace vir
 
 #if defined __GNUC__
       if (not std::is_constant_evaluated())
+       if constexpr (vir::any_simd<V>)
 	if constexpr (std::has_single_bit(sizeof(V)) and V::size() <= stdx::native_simd<T>::size())
 	  {
 #if defined __AVX2__
@@ -255,7 +271,7 @@ namespace vir
 	  }
 #endif // __GNUC__
 
-      return R([&](auto i) -> T {
+      return detail::generate<R>([&](auto i) -> T {
 	       constexpr int j = [&] {
 		 if constexpr (detail::index_permutation_function_nosize<F>)
 		   return idx_perm(i);
@@ -319,7 +335,7 @@ namespace vir
     VIR_ALWAYS_INLINE constexpr V
     simd_shift_in(V const& a, std::convertible_to<V> auto const&... more) noexcept
     {
-      return V([&](auto i) -> typename V::value_type {
+      return detail::generate<V>([&](auto i) -> typename V::value_type {
 	       constexpr int ninputs = 1 + sizeof...(more);
 	       constexpr int w = V::size();
 	       constexpr int j = Offset + int(i);
-- 
2.43.0


From fe66dc8dae931660382be59d8e8d31b300fe3e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:31 +0000
Subject: [PATCH 11/32] fix: a run-time precondition failure must trap by
 default

VIR_CHECK_PRECONDITIONS got its default after it was used, so that a failed precondition invoked
undefined behavior unless the macro was set. Levels 4 and 5 need <cstdio>.
---
 vir/simd.h | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 5f2d6a8..2cbaf37 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -18,6 +18,7 @@
 
 #include "simd_version.h"
 
+#include <cstdio> // std::fprintf
 #include <cstdlib> // std::abort
 
 #if __has_include (<experimental/simd>) && !defined VIR_DISABLE_STDX_SIMD \
@@ -37,6 +38,19 @@
 #endif
 #endif
 
+/* VIR_CHECK_PRECONDITIONS:
+ * 0: Compile-time warning, invoke UB on run-time failure.
+ * 1: Compile-time   error, invoke UB on run-time failure.
+ * 2: Compile-time warning, trap on run-time failure.
+ * 3: Compile-time   error, trap on run-time failure.
+ * 4: Compile-time warning, print error and abort on run-time failure.
+ * 5: Compile-time   error, print error and abort on run-time failure.
+ */
+
+#ifndef VIR_CHECK_PRECONDITIONS
+#define VIR_CHECK_PRECONDITIONS 3
+#endif
+
 namespace vir::detail
 {
   [[noreturn]] VIR_GNU_COLD VIR_ALWAYS_INLINE void
@@ -83,19 +97,6 @@ namespace vir::detail
 #define VIR_SIMD_TOSTRING(x) VIR_SIMD_TOSTRING_IMPL(x)
 #define VIR_SIMD_LOC __FILE__ ":" VIR_SIMD_TOSTRING(__LINE__) ": "
 
-/* VIR_CHECK_PRECONDITIONS:
- * 0: Compile-time warning, invoke UB on run-time failure.
- * 1: Compile-time   error, invoke UB on run-time failure.
- * 2: Compile-time warning, trap on run-time failure.
- * 3: Compile-time   error, trap on run-time failure.
- * 4: Compile-time warning, print error and abort on run-time failure.
- * 5: Compile-time   error, print error and abort on run-time failure.
- */
-
-#ifndef VIR_CHECK_PRECONDITIONS
-#define VIR_CHECK_PRECONDITIONS 3
-#endif
-
 #if VIR_CHECK_PRECONDITIONS > 5 or VIR_CHECK_PRECONDITIONS < 0
 #warning "Invalid value for VIR_CHECK_PRECONDITIONS."
 #endif
-- 
2.43.0


From bced1241c102992cc976f410ca96fcec3ce29ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:08 +0000
Subject: [PATCH 12/32] fix: precondition messages must not use the expression
 as format string

'distance % size == 0' made fprintf read an argument that was not passed.
---
 vir/simd.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 2cbaf37..92be167 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -135,8 +135,8 @@ namespace vir::detail
         { vir::detail::trap(); }();                                                         \
     else if (__builtin_expect(not precondition_result, false))                              \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_);                                                              \
+        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('%s' does not hold)\n",        \
+        VIR_PRETTY_FUNCTION_, #expr);                                                       \
   } while(false)
 
 #define vir_simd_precondition_vaargs(expr, msg, ...)                                        \
@@ -149,8 +149,8 @@ namespace vir::detail
         { vir::detail::trap(); }();                                                         \
     else if (__builtin_expect(not precondition_result, false))                              \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_, __VA_ARGS__);                                                 \
+        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('%s' does not hold)\n",        \
+        VIR_PRETTY_FUNCTION_, __VA_ARGS__, #expr);                                          \
   } while(false)
 
 #else
@@ -159,8 +159,8 @@ namespace vir::detail
     const bool precondition_result = bool(expr);                                            \
     if (not precondition_result) [[unlikely]]                                               \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_);                                                              \
+        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('%s' does not hold)\n",        \
+        VIR_PRETTY_FUNCTION_, #expr);                                                       \
   } while(false)
 
 #define vir_simd_precondition_vaargs(expr, msg, ...)                                        \
@@ -168,8 +168,8 @@ namespace vir::detail
     const bool precondition_result = bool(expr);                                            \
     if (not precondition_result) [[unlikely]]                                               \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_, __VA_ARGS__);                                                 \
+        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('%s' does not hold)\n",        \
+        VIR_PRETTY_FUNCTION_, __VA_ARGS__, #expr);                                          \
   } while(false)
 
 #endif
-- 
2.43.0


From 2679c78186952b33deb2d79ed4074b7812153398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:37 +0000
Subject: [PATCH 13/32] fix: hmin/hmax of a where-expression must not ignore
 selected infinities

__FINITE_MATH_ONLY__ is always defined by GCC and Clang, so that selected values larger than max()
(smaller than lowest()) were replaced. With no selected element the result stays max()/lowest().
---
 vir/simd.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 92be167..01a9d20 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -2375,11 +2375,11 @@ namespace vir::stdx
     hmin(const const_where_expression<M, V>& x) noexcept
     {
       using T = typename V::value_type;
-      constexpr T id_elem =
-#ifdef __FINITE_MATH_ONLY__
-        std::numeric_limits<T>::max();
-#else
-        std::numeric_limits<T>::infinity();
+      T id_elem = std::numeric_limits<T>::max();
+#if not __FINITE_MATH_ONLY__
+      if constexpr (std::numeric_limits<T>::has_infinity)
+        if (any_of(get_mask(x)))
+          id_elem = std::numeric_limits<T>::infinity();
 #endif
       return reduce(x, id_elem, [](const auto& l, const auto& r) {
                using std::min;
@@ -2393,11 +2393,11 @@ namespace vir::stdx
     hmax(const const_where_expression<M, V>& x) noexcept
     {
       using T = typename V::value_type;
-      constexpr T id_elem =
-#ifdef __FINITE_MATH_ONLY__
-        std::numeric_limits<T>::lowest();
-#else
-        -std::numeric_limits<T>::infinity();
+      T id_elem = std::numeric_limits<T>::lowest();
+#if not __FINITE_MATH_ONLY__
+      if constexpr (std::numeric_limits<T>::has_infinity)
+        if (any_of(get_mask(x)))
+          id_elem = -std::numeric_limits<T>::infinity();
 #endif
       return reduce(x, id_elem, [](const auto& l, const auto& r) {
                using std::max;
-- 
2.43.0


From 0616cc394127a193287930c37b8ed31f2356e95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:21 +0000
Subject: [PATCH 14/32] fix: is_simd_flag_type must be true for the load and
 store flag types

---
 vir/simd.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/vir/simd.h b/vir/simd.h
index 01a9d20..98d74e1 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -547,6 +547,18 @@ namespace vir::stdx
     struct is_simd_flag_type : std::false_type
     {};
 
+  template <>
+    struct is_simd_flag_type<element_aligned_tag> : std::true_type
+    {};
+
+  template <>
+    struct is_simd_flag_type<vector_aligned_tag> : std::true_type
+    {};
+
+  template <size_t N>
+    struct is_simd_flag_type<overaligned_tag<N>> : std::true_type
+    {};
+
   template <class T>
     inline constexpr bool is_simd_flag_type_v = is_simd_flag_type<T>::value;
 
-- 
2.43.0


From ce4d4e25d5c6aae6270ee6eacb41ea3b4dbe2a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:07 +0000
Subject: [PATCH 15/32] fix: to_native, to_compatible, and to_fixed_size must
 accept all sizes and ABI tags

native and compatible are not scalar in general.
---
 vir/simd.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 98d74e1..704c15e 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -1824,35 +1824,35 @@ namespace vir::stdx
 
   template <typename T>
     constexpr fixed_size_simd<T, 1>
-    to_fixed_size(const simd<T> x)
+    to_fixed_size(const simd<T, simd_abi::scalar>& x)
     { return x[0]; }
 
   template <typename T>
     constexpr fixed_size_simd_mask<T, 1>
-    to_fixed_size(const simd_mask<T> x)
+    to_fixed_size(const simd_mask<T, simd_abi::scalar>& x)
     { return fixed_size_simd_mask<T, 1>(x[0]); }
 
   // to_native
-  template <typename T>
-    constexpr simd<T>
-    to_native(const fixed_size_simd<T, 1> x)
-    { return x[0]; }
+  template <typename T, int N>
+    constexpr std::enable_if_t<(N == native_simd<T>::size()), native_simd<T>>
+    to_native(const fixed_size_simd<T, N>& x)
+    { return native_simd<T>([&x](size_t i) { return x[i]; }); }
 
-  template <typename T>
-    constexpr simd_mask<T>
-    to_native(const fixed_size_simd_mask<T, 1> x)
-    { return simd_mask<T>(x[0]); }
+  template <typename T, int N>
+    constexpr std::enable_if_t<(N == native_simd_mask<T>::size()), native_simd_mask<T>>
+    to_native(const fixed_size_simd_mask<T, N>& x)
+    { return native_simd_mask<T>([&x](size_t i) { return x[i]; }); }
 
   // to_compatible
-  template <typename T>
-    constexpr simd<T>
-    to_compatible(const fixed_size_simd<T, 1> x)
-    { return x[0]; }
+  template <typename T, int N>
+    constexpr std::enable_if_t<(N == simd<T>::size()), simd<T>>
+    to_compatible(const fixed_size_simd<T, N>& x)
+    { return simd<T>([&x](size_t i) { return x[i]; }); }
 
-  template <typename T>
-    constexpr simd_mask<T>
-    to_compatible(const fixed_size_simd_mask<T, 1> x)
-    { return simd_mask<T>(x[0]); }
+  template <typename T, int N>
+    constexpr std::enable_if_t<(N == simd_mask<T>::size()), simd_mask<T>>
+    to_compatible(const fixed_size_simd_mask<T, N>& x)
+    { return simd_mask<T>([&x](size_t i) { return x[i]; }); }
 
   // split(simd)
   template <typename V, int N, size_t Parts = N / V::size()>
-- 
2.43.0


From 1838c87f7d17e62f4fce1a1c740b0a3a4656ccef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:27 +0000
Subject: [PATCH 16/32] fix: _cw must accept every spelling of zero and the 0B
 prefix

---
 vir/constexpr_wrapper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vir/constexpr_wrapper.h b/vir/constexpr_wrapper.h
index 2f1cfae..dd599f9 100644
--- a/vir/constexpr_wrapper.h
+++ b/vir/constexpr_wrapper.h
@@ -397,7 +397,7 @@ namespace vir
         constexpr std::array arr = cw_prepare_array<Chars...>();
         constexpr int base = arr[0] == '0' and 2 < arr.size()
                                ? arr[1] == 'x' or arr[1] == 'X' ? 16
-                                                                : arr[1] == 'b' ? 2 : 8
+                                                                : arr[1] == 'b' or arr[1] == 'B' ? 2 : 8
                                : 10;
         constexpr int offset = base == 10 ? 0 : base == 8 ? 1 : 2;
         constexpr bool valid_chars = std::all_of(arr.begin() + offset, arr.end(), [=](char c) {
@@ -410,7 +410,7 @@ namespace vir
         static_assert(valid_chars, "invalid characters in constexpr_wrapper literal");
 
         // common values, freeing values for error conditions
-        if constexpr (arr.size() == 1 and arr[0] =='0')
+        if constexpr (std::all_of(arr.begin() + offset, arr.end(), [](char c) { return c == '0'; }))
           return static_cast<signed char>(0);
         else if constexpr (arr.size() == 1 and arr[0] =='1')
           return static_cast<signed char>(1);
-- 
2.43.0


From 08a6b7ca28dfd7f5411a4feedc8f898fcbefe23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:09 +0000
Subject: [PATCH 17/32] fix: the masked load constructor of scalar simd_mask
 must compile

---
 vir/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simd.h b/vir/simd.h
index 704c15e..301e4c2 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -678,7 +678,7 @@ namespace vir::stdx
       template <typename Flags>
         constexpr
         simd_mask(const value_type* mem, simd_mask k, Flags)
-        : data(k ? mem[0] : false)
+        : data(k.data ? mem[0] : false)
         {}
 
       // loads [simd_mask.load]
-- 
2.43.0


From 857e6c9cc084919c725fd9567260193e19cca330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:22 +0000
Subject: [PATCH 18/32] fix: bitwise operators of floating-point simd must
 accept fixed_size with libstdc++'s simd

---
 vir/simd_float_ops.h | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/vir/simd_float_ops.h b/vir/simd_float_ops.h
index f1c06ac..33045b2 100644
--- a/vir/simd_float_ops.h
+++ b/vir/simd_float_ops.h
@@ -11,6 +11,19 @@
 
 namespace vir
 {
+  namespace detail
+  {
+    /// Whether a bit_cast to the simd of corresponding unsigned integers is possible.
+    template <typename V, bool = (sizeof(typename V::value_type) <= sizeof(long long))>
+      inline constexpr bool bit_castable_to_unsigned_v
+        = std::is_trivially_copyable_v<V>
+            and std::is_trivially_copyable_v<
+                  stdx::rebind_simd_t<meta::as_unsigned_t<typename V::value_type>, V>>;
+
+    template <typename V>
+      inline constexpr bool bit_castable_to_unsigned_v<V, false> = false;
+  }
+
   namespace simd_float_ops
   {
     template <typename T, typename A>
@@ -18,9 +31,9 @@ namespace vir
       operator&(const stdx::simd<detail::FloatingPoint<T>, A> a,
                 const stdx::simd<T, A> b) noexcept
       {
-        if constexpr (sizeof(T) <= sizeof(long long))
+        using V = stdx::simd<T, A>;
+        if constexpr (detail::bit_castable_to_unsigned_v<V>)
           {
-            using V = stdx::simd<T, A>;
             using I = stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>;
             return detail::bit_cast<V>(detail::bit_cast<I>(a) & detail::bit_cast<I>(b));
           }
@@ -36,9 +49,9 @@ namespace vir
       operator|(const stdx::simd<detail::FloatingPoint<T>, A> a,
                 const stdx::simd<T, A> b) noexcept
       {
-        if constexpr (sizeof(T) <= sizeof(long long))
+        using V = stdx::simd<T, A>;
+        if constexpr (detail::bit_castable_to_unsigned_v<V>)
           {
-            using V = stdx::simd<T, A>;
             using I = stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>;
             return detail::bit_cast<V>(detail::bit_cast<I>(a) | detail::bit_cast<I>(b));
           }
@@ -54,9 +67,9 @@ namespace vir
       operator^(const stdx::simd<detail::FloatingPoint<T>, A> a,
                 const stdx::simd<T, A> b) noexcept
       {
-        if constexpr (sizeof(T) <= sizeof(long long))
+        using V = stdx::simd<T, A>;
+        if constexpr (detail::bit_castable_to_unsigned_v<V>)
           {
-            using V = stdx::simd<T, A>;
             using I = stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>;
             return detail::bit_cast<V>(detail::bit_cast<I>(a) ^ detail::bit_cast<I>(b));
           }
-- 
2.43.0


From 985ceb2b1ca2037d671807e856df20ea6a69674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:06 +0000
Subject: [PATCH 19/32] fix: loads and stores of simdized std::tuple must not
 assume in-order storage

The shuffle-based load and store require that the data members are stored
in declaration order. std::tuple typically stores its elements in reverse.
---
 vir/simdize.h | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/vir/simdize.h b/vir/simdize.h
index 3187ac8..05ecaca 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -297,6 +297,33 @@ namespace vir
 	  }
       }
 
+    /** \internal
+     * Determine whether the non-reflectable data members of T are known to be stored in the order of
+     * flat_get. (E.g. std::tuple typically stores its elements in reverse order.)
+     */
+    template <typename T>
+      struct stores_members_in_order
+      : std::bool_constant<not vir::reflectable_struct<T>>
+      {};
+
+    template <aggregate_without_tuple_size T>
+      struct stores_members_in_order<T>
+      : std::bool_constant<
+	  []<std::size_t... Is>(std::index_sequence<Is...>) {
+	    return (stores_members_in_order<vir::struct_element_t<Is, T>>::value and ...);
+	  }(std::make_index_sequence<vir::struct_size_v<T>>())>
+      {};
+
+    template <typename T, std::size_t N>
+      struct stores_members_in_order<std::array<T, N>>
+      : stores_members_in_order<T>
+      {};
+
+    template <typename T, typename U>
+      struct stores_members_in_order<std::pair<T, U>>
+      : std::bool_constant<stores_members_in_order<T>::value and stores_members_in_order<U>::value>
+      {};
+
     template <template <typename...> class Comp,
 	      template <std::size_t, typename> class Element1, typename T1,
 	      template <std::size_t, typename> class Element2, typename T2, std::size_t... Is>
@@ -583,6 +610,7 @@ namespace vir
 #if VIR_HAVE_WORKING_SHUFFLEVECTOR
 	if (not std::is_constant_evaluated())
 	  if constexpr (N > 1 and sizeof(T) * N == sizeof(base_type) and _flat_member_count >= 2
+			  and detail::stores_members_in_order<T>::value
 			  and std::has_single_bit(unsigned(N)))
 	    {
 	      const std::byte* byte_ptr = reinterpret_cast<const std::byte*>(addr);
@@ -819,6 +847,7 @@ namespace vir
 	  if (not std::is_constant_evaluated())
 	    if constexpr (N > 2 and _flat_member_count >= 2
 			    and sizeof(T) * N == sizeof(base_type)
+			    and detail::stores_members_in_order<T>::value
 			    and std::has_single_bit(unsigned(N)))
 	      {
 		using V0 = detail::flat_element_t<0, tuple_type>;
-- 
2.43.0


From b2ddfe91640991c333b58fe6645279815ef930fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:06 +0000
Subject: [PATCH 20/32] fix: loading structs with two flattened members must
 compile

A struct with an array of two elements or a single nested struct of two
members has two flat members but only one direct data member.
---
 vir/simdize.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vir/simdize.h b/vir/simdize.h
index 05ecaca..d87d1e5 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -623,8 +623,8 @@ namespace vir
 		  static_assert(N == V0::size());
 		  constexpr int N2 = N / 2;
 		  using U = typename V0::value_type;
-		  if constexpr (sizeof(U) == sizeof(vir::struct_element_t<0, T>)
-				  and sizeof(U) == sizeof(vir::struct_element_t<1, T>)
+		  if constexpr (sizeof(U) == sizeof(detail::flat_element_t<0, T>)
+				  and sizeof(U) == sizeof(detail::flat_element_t<1, T>)
 				  and std::has_single_bit(V0::size())
 				  and V0::size() <= stdx::native_simd<U>::size())
 		    {
@@ -632,9 +632,9 @@ namespace vir
 
 		      V x0, x1;
 		      // [a0 b0 a1 b1 a2 b2 a3 b3]
-		      std::memcpy(&x0, std::addressof(vir::struct_get<0>(addr[0])), sizeof(V));
+		      std::memcpy(&x0, byte_ptr, sizeof(V));
 		      // [a4 b4 a5 b5 a6 b6 a7 b7]
-		      std::memcpy(&x1, std::addressof(vir::struct_get<0>(addr[N2])), sizeof(V));
+		      std::memcpy(&x1, byte_ptr + sizeof(V), sizeof(V));
 
 		      return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
 			return base_type {
-- 
2.43.0


From b4d66a5fe8f9a0b2c387a446fd8bddcb404f522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:56 +0000
Subject: [PATCH 21/32] fix: simd_tuple must load structs with nested structs

simdize is applied recursively to the data members, but the members which
are simd_tuple or vectorized_struct have no generator constructor.
---
 vir/simdize.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/vir/simdize.h b/vir/simdize.h
index d87d1e5..15b80f3 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -401,6 +401,22 @@ namespace vir
 
       static constexpr auto tuple_size_idx_seq = std::make_index_sequence<vir::struct_size_v<T>>();
 
+      /// Loads the I-th data member of N consecutive objects of type T.
+      template <std::size_t I, typename It>
+	static constexpr std::tuple_element_t<I, tuple_type>
+	_load_member(It it)
+	{
+	  using U = vir::struct_element_t<I, T>;
+	  using V = std::tuple_element_t<I, tuple_type>;
+	  if constexpr (vectorizable<U>)
+	    return V([&](size_t i) { return U(struct_get<I>(it[i])); });
+	  else
+	    return [&]<std::size_t... Js>(std::index_sequence<Js...>) {
+	      const U tmp[N] = {U(struct_get<I>(it[Js]))...};
+	      return V(std::begin(tmp));
+	    }(std::make_index_sequence<N>());
+	}
+
     public:
       /// The element type of this `simd`-like type.
       using value_type = T;
@@ -487,9 +503,7 @@ namespace vir
 	constexpr
 	simd_tuple(It it, Flags = {})
 	: elements([&]<std::size_t... Is>(std::index_sequence<Is...>) {
-	    return tuple_type {std::tuple_element_t<Is, tuple_type>([&](size_t i) {
-				 return struct_get<Is>(it[i]);
-			       })...};
+	    return tuple_type {_load_member<Is>(it)...};
 	  }(tuple_size_idx_seq))
 	{}
 
@@ -499,9 +513,7 @@ namespace vir
 	copy_from(It it, Flags = {})
 	{
 	  [&]<std::size_t... Is>(std::index_sequence<Is...>) {
-	    ((std::get<Is>(elements) = std::tuple_element_t<Is, tuple_type>([&](size_t i) {
-					 return struct_get<Is>(it[i]);
-				       })), ...);
+	    ((std::get<Is>(elements) = _load_member<Is>(it)), ...);
 	  }(tuple_size_idx_seq);
 	}
 
-- 
2.43.0


From f8e46b6ffd7068c2cda8d04cce6d3ea0527a4c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:42 +0000
Subject: [PATCH 22/32] fix: broadcast to a vectorized struct with an array
 member must compile

---
 vir/simdize.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vir/simdize.h b/vir/simdize.h
index 15b80f3..685809b 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -603,8 +603,8 @@ namespace vir
 					 std::tuple_element, tuple_type>(_struct_size_idx_seq).value)
 	vectorized_struct(const U& init)
 	: base_type([&]<std::size_t... Is>(std::index_sequence<Is...>) {
-	    return base_type {std::tuple_element_t<Is, tuple_type>(vir::struct_get<Is>(init))...};
-	  }(_struct_size_idx_seq))
+	    return base_type {detail::flat_element_t<Is, tuple_type>(detail::flat_get<Is>(init))...};
+	  }(_flat_member_idx_seq))
 	{}
 
       VIR_ALWAYS_INLINE constexpr T
-- 
2.43.0


From a74400dfaa49adb6dce7659d1bbd2150c97398f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:52 +0000
Subject: [PATCH 23/32] fix: fake_modify must keep constant values and accept
 every simd size

The multi-alternative in/out constraint lost the value of a constant long
double, rejected constant vector operands, and the general-register
constraint rejected fallback simd types of sizes like 3 or 12 bytes.
---
 vir/simd_benchmarking.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/vir/simd_benchmarking.h b/vir/simd_benchmarking.h
index 2f66795..c4edbe4 100644
--- a/vir/simd_benchmarking.h
+++ b/vir/simd_benchmarking.h
@@ -15,16 +15,21 @@ namespace vir
 {
 #if defined(__x86_64__) or defined(__i686__)
 #define VIR_SIMD_REG "v,x,"
+// not "v,x,g,m": multiple alternatives reject (vectors) or lose (long double) constant values
+#define VIR_SIMD_INOUT "+vm"
 #else
 #define VIR_SIMD_REG
+#define VIR_SIMD_INOUT "+g,m"
 #endif
 
   template <typename T>
     VIR_ALWAYS_INLINE void
     fake_modify_one(T& x)
     {
-      if constexpr (std::is_floating_point_v<T>)
-	asm volatile("" : "+" VIR_SIMD_REG "g,m"(x));
+      if constexpr (std::is_floating_point_v<T> && sizeof(x) > sizeof(double))
+	asm volatile("" : "+m"(x));
+      else if constexpr (std::is_floating_point_v<T>)
+	asm volatile("" : VIR_SIMD_INOUT(x));
       else if constexpr (stdx::is_simd_v<T> || stdx::is_simd_mask_v<T>)
 	{
 #if defined _GLIBCXX_EXPERIMENTAL_SIMD && __cpp_lib_experimental_parallel_simd >= 201803
@@ -39,14 +44,11 @@ namespace vir
 	    fake_modify_one(d);
 #else
 	  // assuming vir::stdx::simd implementation
-	  if constexpr (sizeof(x) < 16)
-	    asm volatile("" : "+g"(x));
-	  else
-	    asm volatile("" : "+" VIR_SIMD_REG "g,m"(x));
+	  asm volatile("" : "+m"(x));
 #endif
 	}
       else if constexpr (sizeof(x) >= 16)
-	asm volatile("" : "+" VIR_SIMD_REG "g,m"(x));
+	asm volatile("" : VIR_SIMD_INOUT(x));
       else
 	asm volatile("" : "+g"(x));
     }
@@ -88,6 +90,7 @@ namespace vir
 	asm volatile("" ::"g"(x));
     }
 #undef VIR_SIMD_REG
+#undef VIR_SIMD_INOUT
 
   template <typename... Ts>
     VIR_ALWAYS_INLINE void
-- 
2.43.0


From 663e60948e83b0a5a756d15bf6dcf47489772a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:47 +0000
Subject: [PATCH 24/32] fix: assume_matching_size must call callables only with
 the one simd type

---
 vir/simd_execution.h | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index a5ed019..c75751f 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -762,12 +762,13 @@ case0:
                 result.copy_to(std::to_address(d_first), stdx::element_aligned);
               }
 
-            for (; first1 < last1; advance(1, first1, d_first, first2...))
-              {
-                const vir::simdize<OutT, 1>& result
-                  = simdized_load_and_invoke(op, 1_cw, first1, first2...);
-                result.copy_to(std::to_address(d_first), stdx::element_aligned);
-              }
+            if constexpr (not assume_matching_size)
+              for (; first1 < last1; advance(1, first1, d_first, first2...))
+                {
+                  const vir::simdize<OutT, 1>& result
+                    = simdized_load_and_invoke(op, 1_cw, first1, first2...);
+                  result.copy_to(std::to_address(d_first), stdx::element_aligned);
+                }
           }
         else
           {
@@ -986,10 +987,13 @@ case0:
         if (std::is_constant_evaluated())
           {
             // needs element_aligned because of GCC PR111302
-            for (; first1 < last1; ((first1 += 1), ..., (first2 += 1)))
+            constexpr int step = assume_matching_size ? size : 1;
+            for (; first1 < last1; ((first1 += step), ..., (first2 += step)))
               {
-                const A1 r = simdized_load_and_invoke(transform_op, 1_cw, first1, first2...);
-                acc1 = std::invoke(reduce_op, acc1, r);
+                const vir::simdize<T, step> r
+                  = simdized_load_and_invoke(transform_op, vir::cw<step>, first1, first2...);
+                for (int i = 0; i < step; ++i)
+                  acc1 = std::invoke(reduce_op, acc1, A1(r[i]));
               }
             return acc1[0];
           }
@@ -1082,7 +1086,9 @@ case0:
                   }
                 if constexpr (size == 1)
                   return std::invoke(reduce_op, acc1, acc)[0];
-                else if (assume_matching_size or leftover == 0)
+                else if constexpr (assume_matching_size)
+                  return std::invoke(reduce_op, acc1, A1(reduce(acc, reduce_op)))[0];
+                else if (leftover == 0)
                   return std::invoke(reduce_op, acc1, A1(reduce(acc, reduce_op)))[0];
                 else
                   {
@@ -1096,7 +1102,7 @@ case0:
                                                           transform_op, flags, first2...);
                   }
               }
-            else if constexpr (lo_size > 0)
+            else if constexpr (lo_size > 0 and not assume_matching_size)
               {
                 // leftover > 0 by construction
                 return simd_transform_reduce_epilogue<lo_size>(
@@ -1154,7 +1160,7 @@ case0:
             detail::simd_load_and_invoke<V, write_back>(fun, std::to_address(first),
                                                         stdx::element_aligned, detail::no_unroll);
 
-          if constexpr (size > 1)
+          if constexpr (not assume_matching_size and size > 1)
             if (distance % size)
               detail::simd_for_each_epilogue<V, write_back>(fun, distance % size, last,
                                                             stdx::element_aligned);
-- 
2.43.0


From 6a14245af7251cbdff6b655e9d95333ba4e84f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:47 +0000
Subject: [PATCH 25/32] fix: masked reductions must be usable in constant
 expressions

---
 vir/simd.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 301e4c2..7eb3386 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -1969,11 +1969,11 @@ namespace vir::stdx
       using value_type =
         typename std::conditional_t<std::is_arithmetic_v<V>, Wrapper, V>::value_type;
 
-      friend const M&
+      friend constexpr const M&
       get_mask(const const_where_expression& x)
       { return x.m_k; }
 
-      friend const V&
+      friend constexpr const V&
       get_lvalue(const const_where_expression& x)
       { return x.m_value; }
 
@@ -2030,11 +2030,11 @@ namespace vir::stdx
       using value_type =
         typename std::conditional_t<std::is_arithmetic_v<V>, Wrapper, V>::value_type;
 
-      friend const M&
+      friend constexpr const M&
       get_mask(const const_where_expression& x)
       { return x.m_k; }
 
-      friend const V&
+      friend constexpr const V&
       get_lvalue(const const_where_expression& x)
       { return x.m_value; }
 
-- 
2.43.0


From b2c8fe8e7f4215dc592cd047e8822cd47d7a749c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:47 +0000
Subject: [PATCH 26/32] fix: simdize_size of types without simd is 0

---
 vir/simdize.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/vir/simdize.h b/vir/simdize.h
index 685809b..f267f03 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -38,12 +38,17 @@ namespace vir
 #ifndef DOXYGEN
 	if constexpr (stdx::is_simd_v<T>)
 	  return T::size();
-	else if constexpr (reflectable_struct<T> and []<std::size_t... Is>(
-			     std::index_sequence<Is...>) {
-			     return ((simdize_size<vir::struct_element_t<0, T>>::value
-					== simdize_size<vir::struct_element_t<Is, T>>::value) and ...);
-			   }(std::make_index_sequence<vir::struct_size_v<T>>()))
-	  return simdize_size<vir::struct_element_t<0, T>>::value;
+	else if constexpr (reflectable_struct<T>)
+	  {
+	    if constexpr (vir::struct_size_v<T> == 0)
+	      return 0;
+	    else
+	      return []<std::size_t... Is>(std::index_sequence<Is...>) {
+		constexpr int size0 = simdize_size<vir::struct_element_t<0, T>>::value;
+		return ((size0 == simdize_size<vir::struct_element_t<Is, T>>::value) and ...)
+			 ? size0 : 0;
+	      }(std::make_index_sequence<vir::struct_size_v<T>>());
+	  }
 	else
 	  return 0;
 #endif
-- 
2.43.0


From ea64f6fb04fab8867cbba8209e5c6673c1ebf5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:47 +0000
Subject: [PATCH 27/32] fix: struct_reflect.h must compile after detail.h with
 the fallback simd

---
 vir/struct_reflect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/struct_reflect.h b/vir/struct_reflect.h
index 9e46179..98c4863 100644
--- a/vir/struct_reflect.h
+++ b/vir/struct_reflect.h
@@ -378,7 +378,7 @@ namespace vir
     template <typename T>
       concept aggregate_without_tuple_size
 	= std::is_aggregate_v<T> and not has_tuple_size<T>
-	    and requires (const T& x) { detail::struct_size<T>(); };
+	    and requires (const T& x) { struct_size<T>(); };
 
     // traits
     template <typename From, typename To>
-- 
2.43.0


From 8172e8ab96d28fa61143f2f976a0c6ce08d00532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:28 +0000
Subject: [PATCH 28/32] fix: the fallback lacks fabs, cbrt, exp, exp2 and expm1

---
 vir/simd.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vir/simd.h b/vir/simd.h
index 7eb3386..156a4f6 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -2505,6 +2505,7 @@ namespace vir::stdx
     { return simd<T, A>([&x](size_t i) { return std::abs(x[i]); }); }
 
   SIMD_MATH_1ARG(abs, simd)
+  SIMD_MATH_1ARG(fabs, simd)
   SIMD_MATH_1ARG(isnan, simd_mask)
   SIMD_MATH_1ARG(isfinite, simd_mask)
   SIMD_MATH_1ARG(isinf, simd_mask)
@@ -2571,6 +2572,7 @@ namespace vir::stdx
     { return simd<T, A>([&x, &exp](size_t i) { return std::ldexp(x[i], exp[i]); }); }
 
   SIMD_MATH_1ARG(sqrt, simd)
+  SIMD_MATH_1ARG(cbrt, simd)
 
   SIMD_MATH_3ARG(fma, simd)
 
@@ -2601,6 +2603,11 @@ namespace vir::stdx
   SIMD_MATH_1ARG(acosh, simd)
   SIMD_MATH_1ARG(atanh, simd)
 
+  // exponentials
+  SIMD_MATH_1ARG(exp, simd)
+  SIMD_MATH_1ARG(exp2, simd)
+  SIMD_MATH_1ARG(expm1, simd)
+
   // logarithms
   SIMD_MATH_1ARG(log, simd)
   SIMD_MATH_1ARG(log10, simd)
-- 
2.43.0


From b12c5e6217165625451ebdfe1900e0d68e2dbcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:28 +0000
Subject: [PATCH 29/32] fix: 3-argument math calls mixing two simds and a
 scalar are ambiguous

---
 vir/simd.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/vir/simd.h b/vir/simd.h
index 156a4f6..e39bab3 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -2478,6 +2478,27 @@ namespace vir::stdx
          const simd<T, A>& y, const simd<T, A> &z) noexcept                                        \
     { return return_temp<T, A>([&](size_t i) { return std::name(x[i], y[i], z[i]); }); }           \
                                                                                                    \
+  template <typename T, typename A>                                                                \
+    constexpr return_temp<T, A>                                                                    \
+    name(const simd<detail::FloatingPoint<T>, A>& x,                                               \
+         const simd<T, A>& y,                                                                      \
+         const detail::type_identity_t<simd<T, A>>& z) noexcept                                    \
+    { return return_temp<T, A>([&](size_t i) { return std::name(x[i], y[i], z[i]); }); }           \
+                                                                                                   \
+  template <typename T, typename A>                                                                \
+    constexpr return_temp<T, A>                                                                    \
+    name(const simd<detail::FloatingPoint<T>, A>& x,                                               \
+         const detail::type_identity_t<simd<T, A>>& y,                                             \
+         const simd<T, A>& z) noexcept                                                             \
+    { return return_temp<T, A>([&](size_t i) { return std::name(x[i], y[i], z[i]); }); }           \
+                                                                                                   \
+  template <typename T, typename A>                                                                \
+    constexpr return_temp<T, A>                                                                    \
+    name(const detail::type_identity_t<simd<T, A>>& x,                                             \
+         const simd<detail::FloatingPoint<T>, A>& y,                                               \
+         const simd<T, A>& z) noexcept                                                             \
+    { return return_temp<T, A>([&](size_t i) { return std::name(x[i], y[i], z[i]); }); }           \
+                                                                                                   \
   template <typename T, typename A>                                                                \
     constexpr return_temp<T, A>                                                                    \
     name(const simd<detail::FloatingPoint<T>, A>& x,                                               \
-- 
2.43.0


From 0ab6af9493a28d1e176ff058a931832be8e49d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:07 +0000
Subject: [PATCH 30/32] fix: simd.h does not compile with Clang and
 VIR_CHECK_PRECONDITIONS >= 4

---
 vir/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simd.h b/vir/simd.h
index e39bab3..52d9221 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -85,7 +85,7 @@ namespace vir::detail
 #elif defined __GNUC__ and VIR_CHECK_PRECONDITIONS < 4
       __builtin_trap();
 #else
-      [&] VIR_GNU_ATTR_COLD () {
+      [&]() VIR_GNU_ATTR_COLD {
         std::fprintf(stderr, msg, args...);
       }();
       std::abort();
-- 
2.43.0


From 32a18cb20283b1665610df6691a12eec3fcbfa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:03 +0000
Subject: [PATCH 31/32] fix: fake_modify and fake_read must compile with Clang

---
 vir/simd_benchmarking.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/vir/simd_benchmarking.h b/vir/simd_benchmarking.h
index c4edbe4..749ba17 100644
--- a/vir/simd_benchmarking.h
+++ b/vir/simd_benchmarking.h
@@ -15,11 +15,19 @@ namespace vir
 {
 #if defined(__x86_64__) or defined(__i686__)
 #define VIR_SIMD_REG "v,x,"
+#if defined __clang__
+#define VIR_SIMD_INOUT "+v,x,g,m"
+#define VIR_SIMD_SMALL_INOUT "+g,m" // vectors of less than 16 bytes reject "+g"
+#else
 // not "v,x,g,m": multiple alternatives reject (vectors) or lose (long double) constant values
 #define VIR_SIMD_INOUT "+vm"
+#endif
 #else
 #define VIR_SIMD_REG
 #define VIR_SIMD_INOUT "+g,m"
+#endif
+#ifndef VIR_SIMD_SMALL_INOUT
+#define VIR_SIMD_SMALL_INOUT "+g"
 #endif
 
   template <typename T>
@@ -50,7 +58,7 @@ namespace vir
       else if constexpr (sizeof(x) >= 16)
 	asm volatile("" : VIR_SIMD_INOUT(x));
       else
-	asm volatile("" : "+g"(x));
+	asm volatile("" : VIR_SIMD_SMALL_INOUT(x));
     }
 
   template <typename... Ts>
@@ -78,10 +86,7 @@ namespace vir
 	    fake_read_one(d);
 #else
 	  // assuming vir::stdx::simd implementation
-	  if constexpr (sizeof(x) < 16)
-	    asm volatile("" ::"g"(x));
-	  else
-	    asm volatile("" ::VIR_SIMD_REG "g,m"(x));
+	  asm volatile("" ::"m"(x));
 #endif
 	}
       else if constexpr (sizeof(x) >= 16)
@@ -91,6 +96,7 @@ namespace vir
     }
 #undef VIR_SIMD_REG
 #undef VIR_SIMD_INOUT
+#undef VIR_SIMD_SMALL_INOUT
 
   template <typename... Ts>
     VIR_ALWAYS_INLINE void
-- 
2.43.0


From 3e6fb8ba181b2afcd3ece1ddc3269a61a2467990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:03 +0000
Subject: [PATCH 32/32] fix: no pointers past the end of the range in constant
 evaluation of for_each and transform

---
 vir/simd_execution.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index c75751f..f6e4663 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -756,7 +756,7 @@ case0:
         if (std::is_constant_evaluated())
           {
             // needs element_aligned because of GCC PR111302
-            for (; first1 + (size - 1) < last1; advance(size, first1, d_first, first2...))
+            for (; last1 - first1 >= size; advance(size, first1, d_first, first2...))
               {
                 const OutV& result = simdized_load_and_invoke(op, size, first1, first2...);
                 result.copy_to(std::to_address(d_first), stdx::element_aligned);
@@ -1156,7 +1156,7 @@ case0:
       if (std::is_constant_evaluated())
         {
           // needs element_aligned because of GCC PR111302
-          for (; first + (size - 1) < last; first += size)
+          for (; last - first >= size; first += size)
             detail::simd_load_and_invoke<V, write_back>(fun, std::to_address(first),
                                                         stdx::element_aligned, detail::no_unroll);
 
-- 
2.43.0

