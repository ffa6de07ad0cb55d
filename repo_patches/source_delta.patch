From c46a9a9fa07b69d07d5c85381b983b17abaa43e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 01/35] fix: fmod derivative w.r.t. the divisor uses the
 truncated quotient

---
 src/XAD/BinaryMathFunctors.hpp | 2 +-
 src/XAD/UnaryMathFunctors.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index 9c9fd51..e1affcc 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -217,7 +217,7 @@ struct fmod_op
 {
     XAD_INLINE Scalar operator()(const Scalar& a, const Scalar& b) const { return fmod(a, b); }
     XAD_INLINE Scalar derivative_a(const Scalar&, const Scalar&) const { return Scalar(1); }
-    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const { return -floor(a / b); }
+    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const { return -trunc(a / b); }
 };
 
 template <class Scalar>
diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index e919c89..e8d778a 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -192,7 +192,7 @@ struct fabs_op : abs_op<Scalar>
     };
 
 XAD_MAKE_UNARY_BINFUNCTOR(pow, Scalar(b) * Scalar(pow(a, b - T2(1))), log(b) * v)
-XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -floor(Scalar(b) / a))
+XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -trunc(Scalar(b) / a))
 XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b * b)),
                           -Scalar(b) / (a * a + Scalar(b * b)))
 XAD_MAKE_UNARY_BINFUNCTOR(nextafter, Scalar(1), Scalar(0))
-- 
2.43.0


From d189fc8896fb65f0d5a1c96d42acb9469146151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 02/35] fix: ldexp and frexp derivatives for negative and large
 exponents

---
 src/XAD/UnaryMathFunctors.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index e8d778a..e00a87d 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -203,7 +203,7 @@ struct ldexp_op
 {
     XAD_INLINE explicit ldexp_op(int exp) : exp_(exp) {}
     XAD_INLINE Scalar operator()(const Scalar& a) const { return ldexp(a, exp_); }
-    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(1 << exp_); }
+    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(ldexp(Scalar(1), exp_)); }
     int exp_;
 };
 
@@ -217,7 +217,7 @@ struct frexp_op
         // we assume that operator() and derivative are called in succession and in
         // this order, which is always the case in XAD. Therefore we can read the
         // value in *exp_ here to calculate the derivative
-        return Scalar(1.0) / Scalar(1 << *exp_);
+        return Scalar(ldexp(Scalar(1), -*exp_));
     }
     int* exp_;
 };
-- 
2.43.0


From d3e332209c79ff1ae787794be786022300f2c8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 03/35] fix: remainder and remquo derivatives use the full
 integer quotient

---
 src/XAD/BinaryMathFunctors.hpp | 12 +++++++-----
 src/XAD/UnaryMathFunctors.hpp  | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index e1affcc..45e33b0 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -265,10 +265,8 @@ struct remainder_op
     XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const
     {
         // function is rare enough that there's no need to optimize this better
-        int n_;
-        using std::remquo;
-        XAD_UNUSED_VARIABLE(remquo(a, b, &n_));
-        return Scalar(-n_);
+        // (remquo only gives the low-order bits of the quotient)
+        return -round((a - remainder(a, b)) / b);
     }
 };
 
@@ -284,7 +282,11 @@ struct remquo_op
         return v;
     }
     XAD_INLINE Scalar derivative_a(const Scalar&, const Scalar&) const { return Scalar(1); }
-    XAD_INLINE Scalar derivative_b(const Scalar&, const Scalar&) const { return Scalar(-q_); }
+    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const
+    {
+        // quo only has the low-order bits of the quotient
+        return -round((a - remainder(a, b)) / b);
+    }
     int* quo_;
     mutable int q_;
 };
diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index e00a87d..08c2e86 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -375,10 +375,8 @@ struct scalar_remainder1_op
     XAD_INLINE Scalar derivative(const Scalar& a) const
     {
         // function is rare enough that there's no need to optimize this better
-        int n_;
-        using std::remquo;
-        (void)remquo(b_, a, &n_);
-        return Scalar(-n_);
+        // (remquo only gives the low-order bits of the quotient)
+        return -round((Scalar(b_) - Scalar(remainder(b_, a))) / a);
     }
     T2 b_;
 };
@@ -403,7 +401,11 @@ struct scalar_remquo1_op
         *quo_ = q_;
         return v;
     }
-    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(-q_); }
+    XAD_INLINE Scalar derivative(const Scalar& a) const
+    {
+        // quo only has the low-order bits of the quotient
+        return -round((Scalar(b_) - Scalar(remainder(b_, a))) / a);
+    }
     T2 b_;
     int* quo_;
     mutable int q_;
-- 
2.43.0


From c35e272f9275ea20023b667166cde0607cfd6f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 04/35] fix: pow derivatives for zero base or exponent and
 extreme integer exponents

---
 src/XAD/BinaryMathFunctors.hpp | 8 +++++++-
 src/XAD/UnaryMathFunctors.hpp  | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index 45e33b0..07e6184 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -37,10 +37,16 @@ struct pow_op
     XAD_INLINE Scalar operator()(const Scalar& a, const Scalar& b) const { return pow(a, b); }
     XAD_INLINE Scalar derivative_a(const Scalar& a, const Scalar& b, const Scalar&) const
     {
+        // pow(a, 0) is 1 everywhere
+        if (a == Scalar(0) && b == Scalar(0))
+            return Scalar(0);
         return b * pow(a, b - Scalar(1));
     }
-    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar&, const Scalar& v) const
+    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b, const Scalar& v) const
     {
+        // pow(0, b) is 0 for all positive b
+        if (a == Scalar(0) && b > Scalar(0))
+            return Scalar(0);
         return log(a) * v;
     }
 };
diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index 08c2e86..0a0f005 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -191,7 +191,9 @@ struct fabs_op : abs_op<Scalar>
         };                                                                                         \
     };
 
-XAD_MAKE_UNARY_BINFUNCTOR(pow, Scalar(b) * Scalar(pow(a, b - T2(1))), log(b) * v)
+XAD_MAKE_UNARY_BINFUNCTOR(pow,
+                          b == T2(0) ? Scalar(0) : Scalar(Scalar(b) * Scalar(pow(a, b - 1.0))),
+                          (b == T2(0) && a > Scalar(0)) ? Scalar(0) : Scalar(log(b) * v))
 XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -trunc(Scalar(b) / a))
 XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b * b)),
                           -Scalar(b) / (a * a + Scalar(b * b)))
-- 
2.43.0


From c42cf5a7109b8783706f1c8c001f38f74641eaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 05/35] fix: atan2 derivative with an integer operand no longer
 overflows

---
 src/XAD/UnaryMathFunctors.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index 0a0f005..bc0fa6a 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -195,8 +195,8 @@ XAD_MAKE_UNARY_BINFUNCTOR(pow,
                           b == T2(0) ? Scalar(0) : Scalar(Scalar(b) * Scalar(pow(a, b - 1.0))),
                           (b == T2(0) && a > Scalar(0)) ? Scalar(0) : Scalar(log(b) * v))
 XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -trunc(Scalar(b) / a))
-XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b * b)),
-                          -Scalar(b) / (a * a + Scalar(b * b)))
+XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b) * Scalar(b)),
+                          -Scalar(b) / (a * a + Scalar(b) * Scalar(b)))
 XAD_MAKE_UNARY_BINFUNCTOR(nextafter, Scalar(1), Scalar(0))
 XAD_MAKE_UNARY_BINFUNCTOR(hypot, Scalar(a) / v, Scalar(a) / v)
 
-- 
2.43.0


From 63a0d7c5c7adf9be75ef8deed5a9446ffe5e25dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 06/35] fix: copysign honours the sign of zero

---
 src/XAD/UnaryOperators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index fcb6592..faa6057 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -461,7 +461,7 @@ XAD_INLINE typename ExprTraits<Derived>::value_type copysign(const Expression<Sc
 {
     using T = typename ExprTraits<Derived>::value_type;
     bool sign = signbit(y);
-    if (x < 0)
+    if (signbit(x))
     {
         if (sign)
             return T(x);
-- 
2.43.0


From 51d3eb06a09965f5ef480b9e9987c6e9ed513da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 07/35] fix: scalbn value is exact when the scaling factor
 itself is not representable

---
 src/XAD/UnaryOperators.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index faa6057..910be7b 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -450,9 +450,8 @@ template <class Scalar, class Derived>
 XAD_INLINE typename ExprTraits<Derived>::value_type scalbn(const Expression<Scalar, Derived>& x,
                                                            int exp)
 {
-    using std::scalbn;
     using T = typename ExprTraits<Derived>::value_type;
-    return T(x * scalbn(1.0, exp));
+    return T(ldexp(x, exp));
 }
 
 template <class Scalar, class Derived, class T2>
-- 
2.43.0


From d86bae07e1ac94902689aa99f3b0043e5015fef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 08/35] fix: max and min of nested active types return the
 exact value

---
 src/XAD/BinaryMathFunctors.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index 07e6184..5403796 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -110,7 +110,7 @@ struct smooth_abs_op
 
 //////// max
 
-// need this complicated expression to have a kind-of smooth 2nd derivative
+// for nested types, max/min are delegated to the inner type (keeping its derivatives at ties)
 template <class Scalar>
 struct max_op
 {
@@ -119,7 +119,7 @@ struct max_op
         if (!ExprTraits<Scalar>::isExpr)
             return (a < b) ? b : a;
         else
-            return (a + b + abs(a - b)) / Scalar(2);
+            return max(a, b);
     }
     XAD_INLINE Scalar derivative_a(const Scalar& a, const Scalar& b) const
     {
@@ -167,7 +167,7 @@ struct min_op
         if (!ExprTraits<Scalar>::isExpr)
             return (a < b) ? a : b;
         else
-            return (a + b - abs(a - b)) / Scalar(2);
+            return min(a, b);
     }
     XAD_INLINE Scalar derivative_a(const Scalar& a, const Scalar& b) const
     {
-- 
2.43.0


From 34cbc9d4440c1393156b20e98cbfb61671d538bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 09/35] fix: max and min of two expressions of the same type
 use the active overload (ties)

---
 src/XAD/BinaryOperators.hpp | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/XAD/BinaryOperators.hpp b/src/XAD/BinaryOperators.hpp
index 725eb8d..d46f406 100644
--- a/src/XAD/BinaryOperators.hpp
+++ b/src/XAD/BinaryOperators.hpp
@@ -33,6 +33,8 @@
 
 namespace xad
 {
+template <class, class, class>
+struct UnaryExpr;
 
 XAD_BINARY_OPERATOR(operator+, add_op)
 XAD_BINARY_OPERATOR(operator*, prod_op)
@@ -43,6 +45,39 @@ XAD_BINARY_OPERATOR(max, max_op)
 XAD_BINARY_OPERATOR(fmax, fmax_op)
 XAD_BINARY_OPERATOR(min, min_op)
 XAD_BINARY_OPERATOR(fmin, fmin_op)
+
+// the generic std::max / std::min would be the better match for two expressions of the same type
+#define XAD_MINMAX_SAME_TYPE(_op, func)                                                            \
+    template <class Scalar>                                                                        \
+    XAD_INLINE typename std::enable_if<                                                            \
+        std::is_floating_point<typename ExprTraits<Scalar>::nested_type>::value,                   \
+        BinaryExpr<Scalar, func<Scalar>, ADVar<Scalar>,                                            \
+                   ADVar<Scalar>>>::type(_op)(const ADVar<Scalar>& a, const ADVar<Scalar>& b)      \
+    {                                                                                              \
+        return BinaryExpr<Scalar, func<Scalar>, ADVar<Scalar>, ADVar<Scalar>>(a, b);               \
+    }                                                                                              \
+    template <class Scalar, class Op, class Expr>                                                  \
+    XAD_INLINE BinaryExpr<Scalar, func<Scalar>, UnaryExpr<Scalar, Op, Expr>,                       \
+                          UnaryExpr<Scalar, Op, Expr>>(_op)(                                       \
+        const UnaryExpr<Scalar, Op, Expr>& a, const UnaryExpr<Scalar, Op, Expr>& b)                \
+    {                                                                                              \
+        return BinaryExpr<Scalar, func<Scalar>, UnaryExpr<Scalar, Op, Expr>,                       \
+                          UnaryExpr<Scalar, Op, Expr>>(a, b);                                      \
+    }                                                                                              \
+    template <class Scalar, class Op, class Expr1, class Expr2>                                    \
+    XAD_INLINE BinaryExpr<Scalar, func<Scalar>, BinaryExpr<Scalar, Op, Expr1, Expr2>,              \
+                          BinaryExpr<Scalar, Op, Expr1, Expr2>>(_op)(                              \
+        const BinaryExpr<Scalar, Op, Expr1, Expr2>& a,                                             \
+        const BinaryExpr<Scalar, Op, Expr1, Expr2>& b)                                             \
+    {                                                                                              \
+        return BinaryExpr<Scalar, func<Scalar>, BinaryExpr<Scalar, Op, Expr1, Expr2>,              \
+                          BinaryExpr<Scalar, Op, Expr1, Expr2>>(a, b);                             \
+    }
+
+XAD_MINMAX_SAME_TYPE(max, max_op)
+XAD_MINMAX_SAME_TYPE(min, min_op)
+#undef XAD_MINMAX_SAME_TYPE
+
 XAD_BINARY_OPERATOR(fmod, fmod_op)
 XAD_BINARY_OPERATOR(atan2, atan2_op)
 XAD_BINARY_OPERATOR(hypot, hypot_op)
-- 
2.43.0


From ece29e715d412ab0e6fcdebae4c1e084587a9040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 10/35] fix: fmod derivative is exact when the quotient rounds
 to an integer

---
 src/XAD/BinaryMathFunctors.hpp | 6 +++++-
 src/XAD/UnaryMathFunctors.hpp  | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index 5403796..5a4e7a2 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -223,7 +223,11 @@ struct fmod_op
 {
     XAD_INLINE Scalar operator()(const Scalar& a, const Scalar& b) const { return fmod(a, b); }
     XAD_INLINE Scalar derivative_a(const Scalar&, const Scalar&) const { return Scalar(1); }
-    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const { return -trunc(a / b); }
+    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const
+    {
+        // a / b may round up to the next integer
+        return -round((a - fmod(a, b)) / b);
+    }
 };
 
 template <class Scalar>
diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index bc0fa6a..3487a03 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -194,7 +194,7 @@ struct fabs_op : abs_op<Scalar>
 XAD_MAKE_UNARY_BINFUNCTOR(pow,
                           b == T2(0) ? Scalar(0) : Scalar(Scalar(b) * Scalar(pow(a, b - 1.0))),
                           (b == T2(0) && a > Scalar(0)) ? Scalar(0) : Scalar(log(b) * v))
-XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -trunc(Scalar(b) / a))
+XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -round((Scalar(b) - v) / a))
 XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b) * Scalar(b)),
                           -Scalar(b) / (a * a + Scalar(b) * Scalar(b)))
 XAD_MAKE_UNARY_BINFUNCTOR(nextafter, Scalar(1), Scalar(0))
-- 
2.43.0


From 9cf81745d28e2e67b1a517d4e0d5eff23b36af1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:35 +0000
Subject: [PATCH 11/35] fix: moving a chunk container leaves the source empty
 (its destructor ran over freed elements)

---
 src/XAD/ChunkContainer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 9e359cc..6fd8e66 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -135,14 +135,19 @@ class ChunkContainer
     ChunkContainer(ChunkContainer&& o) noexcept
         : chunkList_(std::move(o.chunkList_)), chunk_(o.chunk_), idx_(o.idx_)
     {
+        o.chunk_ = o.idx_ = 0;
     }
 
     ChunkContainer& operator=(ChunkContainer&& o)
     {
+        if (this == &o)
+            return *this;
         _free_memory();
         chunkList_ = std::move(o.chunkList_);
         chunk_ = o.chunk_;
         idx_ = o.idx_;
+        o.chunkList_.clear();
+        o.chunk_ = o.idx_ = 0;
         return *this;
     }
 
-- 
2.43.0


From 4c0a48b344ef2de1134694679c473b533c5fec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:35 +0000
Subject: [PATCH 12/35] fix: resizing or assigning a chunk container to a
 multiple of the block size ran past the allocated blocks, and shrinking by
 assignment filled the wrong block

---
 src/XAD/ChunkContainer.hpp | 41 ++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 6fd8e66..d535baf 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -259,8 +259,7 @@ class ChunkContainer
             // clear the remainder - for now without destruct
             destructAllImpl<std::is_trivially_destructible<value_type>::value>::make(this, s,
                                                                                      size());
-            chunk_ = getHighPart(s);
-            idx_ = getLowPart(s);
+            set_end(s);
             return;
         }
 
@@ -276,11 +275,11 @@ class ChunkContainer
             ix = 0;
         }
 
-        size_type lc = getLowPart(s);  // maybe 0
-        std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[nc_new]) + ix, lc - ix,
-                                  v);
-        idx_ = lc;
-        chunk_ = nc_new;
+        size_type lc = getLowPart(s);  // maybe 0, then block nc_new may not exist
+        if (lc > ix)
+            std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[nc_new]) + ix,
+                                      lc - ix, v);
+        set_end(s);
     }
 
     template <class It>
@@ -389,16 +388,16 @@ class ChunkContainer
             for (size_type i = 0; i < nc; ++i)
                 std::fill(reinterpret_cast<value_type*>(chunkList_[i]),
                           reinterpret_cast<value_type*>(chunkList_[i]) + chunk_size, v);
-            std::fill(reinterpret_cast<value_type*>(chunkList_[chunk_]),
-                      reinterpret_cast<value_type*>(chunkList_[chunk_]) + lc, v);
-            chunk_ = nc;
-            idx_ = lc;
+            if (lc > 0)
+                std::fill(reinterpret_cast<value_type*>(chunkList_[nc]),
+                          reinterpret_cast<value_type*>(chunkList_[nc]) + lc, v);
+            set_end(s);
 
             return;
         }
 
         // here we have something bigger than it was - assign existing and fill rest
-        for (int i = 0; i < chunk_; ++i)
+        for (size_type i = 0; i < chunk_; ++i)
             std::fill(reinterpret_cast<value_type*>(chunkList_[i]),
                       reinterpret_cast<value_type*>(chunkList_[i]) + chunk_size, v);
         std::fill(reinterpret_cast<value_type*>(chunkList_[chunk_]),
@@ -409,10 +408,9 @@ class ChunkContainer
                                 reinterpret_cast<value_type*>(chunkList_[chunk_]) + fillsize, v);
         for (size_type i = chunk_ + 1; i < nc; ++i)
             std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[i]), chunk_size, v);
-        if (nc > chunk_)
+        if (nc > chunk_ && lc > 0)
             std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[nc]), lc, v);
-        chunk_ = nc;
-        idx_ = lc;
+        set_end(s);
         return;
     }
 
@@ -452,6 +450,19 @@ class ChunkContainer
         }
     }
 
+    // set the end position, where a full block counts as full rather than the next one as empty
+    // (chunk_ always refers to an allocated block)
+    void set_end(size_type s)
+    {
+        chunk_ = getHighPart(s);
+        idx_ = getLowPart(s);
+        if (idx_ == 0 && chunk_ > 0)
+        {
+            --chunk_;
+            idx_ = chunk_size;
+        }
+    }
+
     void check_space(size_type i) { reserve(chunk_ * chunk_size + idx_ + i); }
 
     void _free_memory()
-- 
2.43.0


From 9681bd2ff102e9cf28f75df29660eca8989294f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:35 +0000
Subject: [PATCH 13/35] fix: extending or appending to a chunk container across
 more than one block

---
 src/XAD/ChunkContainer.hpp | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index d535baf..a86f1ab 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -224,12 +224,7 @@ class ChunkContainer
     void uninitialized_extend(size_type i)
     {
         reserve(size() + i);
-        idx_ += i;
-        if (idx_ > chunk_size)
-        {
-            ++chunk_;
-            idx_ = idx_ - chunk_size;
-        }
+        set_end(size() + i);
     }
 
     void push_back(const_reference v)
@@ -286,7 +281,6 @@ class ChunkContainer
     void append(It first, It last)
     {
         auto n = static_cast<size_type>(std::distance(first, last));
-        assert(n <= chunk_size);
 #if defined(_MSC_VER)
         if (idx_ + n <= chunk_size)
 #else
@@ -299,16 +293,15 @@ class ChunkContainer
         }
         else
         {
-            assert(chunk_size - idx_ < n);
-            auto dst = reinterpret_cast<value_type*>(chunkList_[chunk_]) + idx_;
-            auto endn = chunk_size - idx_;
-            for (size_type i = 0; i < endn; ++i) ::new (dst++) value_type(*first++);
-            idx_ = chunk_size;
-            check_space();  // appends a chunk, moves idx_ / chunk_
-            endn = static_cast<size_type>(std::distance(first, last));
-            dst = reinterpret_cast<value_type*>(chunkList_[chunk_]);
-            for (size_type i = 0; i < endn; ++i) ::new (dst++) value_type(*first++);
-            idx_ += endn;
+            while (n > 0)
+            {
+                check_space();  // appends a chunk if needed, moves idx_ / chunk_
+                auto dst = reinterpret_cast<value_type*>(chunkList_[chunk_]) + idx_;
+                auto endn = (std::min)(n, size_type(chunk_size - idx_));
+                for (size_type i = 0; i < endn; ++i) ::new (dst++) value_type(*first++);
+                idx_ += endn;
+                n -= endn;
+            }
         }
     }
 
-- 
2.43.0


From 639536a874eef85382d4b13b134778731eea5f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:35 +0000
Subject: [PATCH 14/35] fix: capacity of a chunk container counted blocks that
 are not allocated

---
 src/XAD/ChunkContainer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index a86f1ab..56b8acc 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -215,7 +215,7 @@ class ChunkContainer
         chunk_ = idx_ = 0;
     }
 
-    size_type capacity() const { return getNumElements(chunkList_.capacity()); }
+    size_type capacity() const { return getNumElements(chunkList_.size()); }
 
     size_type size() const { return chunk_ * chunk_size + idx_; }
 
-- 
2.43.0


From 83e1de32634454371f09c2f45382a828610dcc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:35 +0000
Subject: [PATCH 15/35] fix: chunk container iterators repeated a block after
 the second boundary and read past the block list

---
 src/XAD/ChunkContainer.hpp | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 56b8acc..fd10de3 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -322,22 +322,16 @@ class ChunkContainer
 
     struct iterator
     {
-        pointer point_;
-        pointer next_chunk_;
-        int space_left_;
-        explicit iterator(pointer point = nullptr, int space_left = 0, pointer next = NULL)
-            : point_(point), next_chunk_(next), space_left_(space_left)
+        ChunkContainer* container_;
+        size_type index_;
+        explicit iterator(ChunkContainer* container = nullptr, size_type index = 0)
+            : container_(container), index_(index)
         {
         }
 
         iterator& operator++()
         {
-            ++point_;
-            if (--space_left_ == 0)
-            {
-                point_ = next_chunk_;
-                space_left_ = chunk_size;
-            }
+            ++index_;
             return *this;
         }
         iterator operator++(int)
@@ -346,19 +340,13 @@ class ChunkContainer
             ++(*this);
             return r;
         }
-        reference operator*() const { return *point_; }
-        pointer operator->() const { return point_; }
-        bool operator==(const iterator& o) const { return point_ == o.point_; }
-        bool operator!=(const iterator& o) const { return point_ != o.point_; }
+        reference operator*() const { return (*container_)[index_]; }
+        pointer operator->() const { return &(*container_)[index_]; }
+        bool operator==(const iterator& o) const { return index_ == o.index_; }
+        bool operator!=(const iterator& o) const { return index_ != o.index_; }
     };
 
-    iterator iterator_at(size_type i)
-    {
-        auto nc = getHighPart(i);
-        auto lc = getLowPart(i);
-        return iterator(&reinterpret_cast<value_type*>(chunkList_[nc])[lc], int(chunk_size - lc),
-                        reinterpret_cast<value_type*>(*(&chunkList_[nc] + 1)));
-    }
+    iterator iterator_at(size_type i) { return iterator(this, i); }
 
     void assign(size_type s, const_reference v = value_type())
     {
-- 
2.43.0


From 401e49a5d75adc74bcf4e48e542bee787becbb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:00 +0000
Subject: [PATCH 16/35] fix: moving the active tape terminated the program, and
 move assignment leaked the previous callbacks

---
 src/Tape.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 88b2c43..0b2cbb7 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -68,14 +68,15 @@ Tape<T>::Tape(Tape&& o) noexcept
       currentRec_(o.currentRec_)
 {
     if (o.isActive())
-        activate();
-    else
-        deactivate();
+        active_tape_ = this;
 }
 
 template <class T>
 Tape<T>& Tape<T>::operator=(Tape&& o) noexcept
 {
+    if (this == &o)
+        return *this;
+    for (auto p : callbacks_) delete p;
     multiplier_ = std::move(o.multiplier_);
     slot_ = std::move(o.slot_);
     statement_ = std::move(o.statement_);
@@ -87,8 +88,9 @@ Tape<T>& Tape<T>::operator=(Tape&& o) noexcept
 #endif
     nestedRecordings_ = std::move(o.nestedRecordings_);
     currentRec_ = o.currentRec_;
+    o.callbacks_.clear();
     if (o.isActive())
-        activate();
+        active_tape_ = this;
     else
         deactivate();
     return *this;
-- 
2.43.0


From 687a0462e6816ef31511730eb95ce162002e022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:43 +0000
Subject: [PATCH 17/35] fix: propagating adjoints accessed the adjoint vector
 out of bounds for variables registered after seeding, or if no adjoint was
 set

---
 src/Tape.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 0b2cbb7..6e3e0e2 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -401,7 +401,9 @@ void Tape<T>::initDerivatives()
     {
         std::fill(derivatives_.begin() + currentRec_->startDerivative_, derivatives_.end(), T());
     }
-    derivatives_.resize(currentRec_->maxDerivative_, T());
+    // never shrink: after clearDerivativesAfter, the recording still refers to slots out of range
+    if (derivatives_.size() < currentRec_->maxDerivative_)
+        derivatives_.resize(currentRec_->maxDerivative_, T());
     currentRec_->derivativesInitialized_ = true;
 }
 
@@ -496,6 +498,10 @@ void Tape<T>::computeAdjoints()
 template <class T>
 void Tape<T>::computeAdjointsTo(position_type pos)
 {
+    if (!currentRec_->derivativesInitialized_)
+        throw DerivativesNotInitialized();
+
+    initDerivatives();  // variables may have been registered since
     position_type start = position_type(statement_.size() - 1);
     LOG_DEBUG("number checkpoints: " << checkpoints_.size());
     for (unsigned i = unsigned(checkpoints_.size()); i > 0; --i)
-- 
2.43.0


From ad0b9129223565a89630800cbc81bc14108c5387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:43 +0000
Subject: [PATCH 18/35] fix: reading, resetting or incrementing an adjoint used
 stale values after clearDerivatives or newRecording, and rejected valid slots

---
 src/Tape.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 6e3e0e2..2680dc6 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -428,6 +428,9 @@ const T& Tape<T>::derivative(slot_type s) const
             "attempt to get derivative value from const object without setting "
             "derivatives first");
 #endif
+    static const T zero = T();
+    if (!currentRec_->derivativesInitialized_ || s >= derivatives_.size())
+        return zero;
     return derivatives_[s];
 }
 
@@ -653,9 +656,10 @@ void Tape<T>::insertCallback(CheckpointCallback<Tape<T> >* cb)
 template <class T>
 void Tape<T>::incrementAdjoint(slot_type slot, const T& x)
 {
-    if (slot >= derivatives_.size())
+    if (slot >= currentRec_->maxDerivative_)
         throw OutOfRange("adjoint to be incremented is out of range");
 
+    initDerivatives();
     derivatives_[slot] += x;
 }
 
@@ -754,9 +758,10 @@ void Tape<T>::clearDerivativesAfter(position_type pos)
 template <class T>
 T Tape<T>::getAndResetOutputAdjoint(slot_type slot)
 {
-    if (slot >= slot_type(derivatives_.size()))
+    if (slot >= currentRec_->maxDerivative_)
         throw OutOfRange("Requested output slot does not exist");
 
+    initDerivatives();
     T ret = derivatives_[slot];
     derivatives_[slot] = 0.0;
     return ret;
-- 
2.43.0


From b63a5d0f618f0f1ce2f6d6fdd9af3996deab26a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:43 +0000
Subject: [PATCH 19/35] fix: clearDerivativesAfter dropped adjoints of live
 variables registered before the position

---
 src/Tape.cpp     | 20 +++++++++++++++++---
 src/XAD/Tape.hpp |  2 ++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 2680dc6..f82880c 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -351,6 +351,7 @@ void Tape<T>::newNestedRecording()
     newr.opStartPos_ = slot_type(multiplier_.size());
     newr.derivativesInitialized_ = false;
     newr.startDerivative_ = currentRec_->maxDerivative_;
+    newr.startSlots_ = newr.startDerivative_;
     nestedRecordings_.push(newr);
 
     currentRec_ = &nestedRecordings_.top();
@@ -376,6 +377,7 @@ void Tape<T>::newRecording()
     checkpoints_.clear();
     foldSubrecordings();
     currentRec_->maxDerivative_ = currentRec_->iDerivative_ + 1;
+    currentRec_->startSlots_ = currentRec_->iDerivative_;
     statement_.push_back(std::make_pair(size_type(slot_.size()), slot_type(INVALID_SLOT)));
     currentRec_->derivativesInitialized_ = false;
 }
@@ -750,9 +752,21 @@ bool Tape<T>::haveCallbacks() const
 template <class T>
 void Tape<T>::clearDerivativesAfter(position_type pos)
 {
-    auto& st = statement_[pos];
-    derivatives_.resize(st.second + 1);
-    currentRec_->maxDerivative_ = st.second + 1;
+    // the variables up to pos are those that existed when the recording was started and the targets
+    // of the statements up to there
+    slot_type end = currentRec_->startSlots_;
+    pos = (std::min)(pos, getPosition());
+    for (position_type i = 1; i <= pos; ++i)
+    {
+        if (statement_[i].second != INVALID_SLOT)
+            end = (std::max)(end, statement_[i].second + 1);
+    }
+    // the recording may still refer to the slots after that
+    if (derivatives_.size() < currentRec_->maxDerivative_)
+        derivatives_.resize(currentRec_->maxDerivative_, T());
+    if (derivatives_.size() > end)
+        std::fill(derivatives_.begin() + end, derivatives_.end(), T());
+    currentRec_->maxDerivative_ = end;
 }
 
 template <class T>
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index bd4c709..b7186e4 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -283,6 +283,7 @@ class Tape
               statementStartPos_(1),
               opStartPos_(),
               startDerivative_(),
+              startSlots_(),
               prevMax_(slot_type(-1)),
 #ifdef XAD_TAPE_REUSE_SLOTS
               startRange_(parent->reusable_ranges_.end()),
@@ -298,6 +299,7 @@ class Tape
         slot_type statementStartPos_;
         slot_type opStartPos_;
         slot_type startDerivative_;
+        slot_type startSlots_;
         slot_type prevMax_;
 #ifdef XAD_TAPE_REUSE_SLOTS
         range_list::iterator startRange_;
-- 
2.43.0


From a45e40bcec4e5040ac4c995dc68b2664110c54b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:37 +0000
Subject: [PATCH 20/35] fix: slot re-use: nested recordings, rollback and moves
 corrupted the list of released slots

---
 src/Tape.cpp     | 153 +++++++++++++++++------------------------------
 src/XAD/Tape.hpp |  15 ++---
 2 files changed, 58 insertions(+), 110 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index f82880c..9d84c8d 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -45,8 +45,10 @@ namespace xad
 template <class T>
 Tape<T>::Tape(bool activateNow)
 {
-
-    nestedRecordings_.push(SubRecording(this));
+#ifdef XAD_TAPE_REUSE_SLOTS
+    latestRange_ = reusable_ranges_.end();
+#endif
+    nestedRecordings_.push(SubRecording());
     currentRec_ = &nestedRecordings_.top();
     if (activateNow)
         activate();
@@ -63,6 +65,8 @@ Tape<T>::Tape(Tape&& o) noexcept
       callbacks_(std::move(o.callbacks_)),
 #ifdef XAD_TAPE_REUSE_SLOTS
       reusable_ranges_(std::move(o.reusable_ranges_)),
+      latestRange_(reusable_ranges_.end()),
+      outerRanges_(std::move(o.outerRanges_)),
 #endif
       nestedRecordings_(std::move(o.nestedRecordings_)),
       currentRec_(o.currentRec_)
@@ -85,6 +89,8 @@ Tape<T>& Tape<T>::operator=(Tape&& o) noexcept
     callbacks_ = std::move(o.callbacks_);
 #ifdef XAD_TAPE_REUSE_SLOTS
     reusable_ranges_ = std::move(o.reusable_ranges_);
+    latestRange_ = reusable_ranges_.end();
+    outerRanges_ = std::move(o.outerRanges_);
 #endif
     nestedRecordings_ = std::move(o.nestedRecordings_);
     currentRec_ = o.currentRec_;
@@ -113,10 +119,12 @@ void Tape<T>::clearAll()
     checkpoints_.clear();
 #ifdef XAD_TAPE_REUSE_SLOTS
     reusable_ranges_.clear();
+    latestRange_ = reusable_ranges_.end();
+    outerRanges_.clear();
 #endif
     while (!nestedRecordings_.empty()) nestedRecordings_.pop();
     statement_.push_back(std::make_pair(size_type(slot_.size()), slot_type(INVALID_SLOT)));
-    nestedRecordings_.push(SubRecording(this));
+    nestedRecordings_.push(SubRecording());
     currentRec_ = &nestedRecordings_.top();
 }
 
@@ -130,52 +138,41 @@ typename Tape<T>::size_type Tape<T>::getNumVariables() const
 template <class T>
 typename Tape<T>::slot_type Tape<T>::registerVariableReuseSlots()
 {
+    auto& ranges = reusable_ranges_;
     // at the end
-    if (currentRec_->startRange_ == reusable_ranges_.end())
+    if (ranges.empty())
         return registerVariableAtEnd();
 
     // insert in a reusable slot
-    auto& first_range = *currentRec_->startRange_;
-    auto ret = first_range.insert();
-    if (first_range.isClosed())
+    auto first_range = ranges.begin();
+    auto ret = first_range->insert();
+    if (first_range->isClosed())
     {
-        if (currentRec_->latestRange_ == currentRec_->startRange_)
-            currentRec_->latestRange_ = reusable_ranges_.end();
-        auto nextRange = currentRec_->startRange_;
-        ++nextRange;
-        reusable_ranges_.erase(currentRec_->startRange_);
-        currentRec_->startRange_ = nextRange;
-        currentRec_->latestRange_ = nextRange;
+        if (latestRange_ == first_range)
+            latestRange_ = ranges.end();
+        ranges.erase(first_range);
     }
+    currentRec_->maxDerivative_ = (std::max)(ret + 1, currentRec_->maxDerivative_);
     return ret;
 }
 
 template <class T>
 void Tape<T>::unregisterVariableReuseSlots(slot_type slot)
 {
+    auto& ranges = reusable_ranges_;
     --currentRec_->numDerivatives_;
     if (slot == currentRec_->iDerivative_ - 1)  // it's at the end of the tape
     {
         --currentRec_->iDerivative_;
         // if this brings us into a re-usable range, delete the last range and update iDerivative_
-        if (currentRec_->startRange_ != reusable_ranges_.end())
+        if (!ranges.empty() && currentRec_->iDerivative_ == ranges.back().second())
         {
-            auto& last_range = reusable_ranges_.back();
-            if (currentRec_->iDerivative_ == last_range.second())
-            {
-                currentRec_->iDerivative_ = last_range.first();
-                auto it = reusable_ranges_.end();
-                --it;
-                if (currentRec_->latestRange_ == it)
-                    currentRec_->latestRange_ = reusable_ranges_.end();
-                if (it == currentRec_->startRange_)
-                {
-                    reusable_ranges_.pop_back();
-                    currentRec_->startRange_ = reusable_ranges_.end();
-                }
-                else
-                    reusable_ranges_.pop_back();
-            }
+            currentRec_->iDerivative_ = ranges.back().first();
+            auto it = ranges.end();
+            --it;
+            if (latestRange_ == it)
+                latestRange_ = ranges.end();
+            ranges.pop_back();
         }
     }
     else  // not at the end of the tape
@@ -184,77 +181,52 @@ void Tape<T>::unregisterVariableReuseSlots(slot_type slot)
         // list at the right point
         slot_range_type::ExpandResult status = slot_range_type::FAILED;
         // if element is at start or end of an existing range, expand
-        if (currentRec_->startRange_ != reusable_ranges_.end() &&
-            currentRec_->latestRange_ != reusable_ranges_.end())
-        {
-            auto& currentRange = *currentRec_->latestRange_;
-            status = currentRange.expand(slot);
-        }
+        if (latestRange_ != ranges.end())
+            status = latestRange_->expand(slot);
 
         // if expanding failed, look over the other ranges to see if it fits
         if (status == slot_range_type::FAILED)
         {
-#ifndef NDEBUG
-            // make sure startRange is valid
-            bool isValid = currentRec_->startRange_ == reusable_ranges_.end();
-            for (auto it = reusable_ranges_.begin(), eit = reusable_ranges_.end(); it != eit; ++it)
-                isValid = isValid || currentRec_->startRange_ == it;
-            assert(isValid && "startRange is invalid");
-#endif
-            if (reusable_ranges_.empty() || slot > reusable_ranges_.back().second())
+            if (ranges.empty() || slot > ranges.back().second())
             {
                 // insert a new range at the end
-                reusable_ranges_.emplace_back(slot, slot + 1);
-                currentRec_->latestRange_ = reusable_ranges_.end();
-                --currentRec_->latestRange_;
-                if (reusable_ranges_.size() == 1)
-                    currentRec_->startRange_ = currentRec_->latestRange_;
+                ranges.emplace_back(slot, slot + 1);
+                latestRange_ = ranges.end();
+                --latestRange_;
             }
             else
             {
                 // it must fit into another range now - using binary search
-                auto it = std::lower_bound(currentRec_->startRange_, reusable_ranges_.end(), slot,
+                auto it = std::lower_bound(ranges.begin(), ranges.end(), slot,
                                            [](const slot_range_type& range, slot_type s)
                                            { return range.second() < s; });
                 status = it->expand(slot);
                 if (status != slot_range_type::FAILED)
-                {
-                    currentRec_->latestRange_ = it;
-                }
-                else
-                {
-                    // insert a new range
-                    currentRec_->latestRange_ = reusable_ranges_.emplace(it, slot, slot + 1);
-                    if (it == currentRec_->startRange_)
-                        currentRec_->startRange_ = currentRec_->latestRange_;
-                }
+                    latestRange_ = it;
+                else  // insert a new range
+                    latestRange_ = ranges.emplace(it, slot, slot + 1);
             }
         }
         // check if ranges can now be merged
-        if (status == slot_range_type::START &&
-            currentRec_->latestRange_ != currentRec_->startRange_)
+        if (status == slot_range_type::START && latestRange_ != ranges.begin())
         {
-            auto it = currentRec_->latestRange_;
+            auto it = latestRange_;
             --it;
-            if (currentRec_->latestRange_->isJoinableStart(*it))
+            if (latestRange_->isJoinableStart(*it))
             {
                 // merge two ranges
-                currentRec_->latestRange_->joinStart(*it);
-                if (it == currentRec_->startRange_)
-                    ++currentRec_->startRange_;
-                reusable_ranges_.erase(it);
+                latestRange_->joinStart(*it);
+                ranges.erase(it);
             }
         }
         else if (status == slot_range_type::END)
         {
-            auto it = currentRec_->latestRange_;
+            auto it = latestRange_;
             ++it;
-            if (it != reusable_ranges_.end() && currentRec_->latestRange_->isJoinableEnd(*it))
+            if (it != ranges.end() && latestRange_->isJoinableEnd(*it))
             {
-                currentRec_->latestRange_->joinEnd(*it);
-                if (currentRec_->startRange_ == it)
-                    ++currentRec_->startRange_;
-                reusable_ranges_.erase(it);
+                latestRange_->joinEnd(*it);
+                ranges.erase(it);
             }
         }
     }
@@ -322,7 +294,9 @@ void Tape<T>::foldSubrecording()
                          [=](const chkpt_type& ckpt, slot_type pos) { return ckpt.first < pos; });
     checkpoints_.erase(it, checkpoints_.end());
 #ifdef XAD_TAPE_REUSE_SLOTS
-    reusable_ranges_.erase(prev.startRange_, reusable_ranges_.end());
+    reusable_ranges_ = std::move(outerRanges_.back());
+    outerRanges_.pop_back();
+    latestRange_ = reusable_ranges_.end();
 #endif
 }
 
@@ -340,8 +314,10 @@ void Tape<T>::newNestedRecording()
 {
     SubRecording newr(*currentRec_);
 #ifdef XAD_TAPE_REUSE_SLOTS
-    newr.startRange_ = reusable_ranges_.end();
-    newr.latestRange_ = newr.startRange_;
+    // each recording only re-uses slots released in it
+    outerRanges_.push_back(std::move(reusable_ranges_));
+    reusable_ranges_.clear();
+    latestRange_ = reusable_ranges_.end();
 #endif
     // clearDerivativesAfter(position_type(statement_.size())-1);
     derivatives_.resize(currentRec_->prevMax_);
@@ -689,27 +665,6 @@ void Tape<T>::resetTo(position_type pos)
         LOG_DEBUG("removing " << std::distance(newend, checkpoints_.end()) << " checkpoints");
         checkpoints_.erase(newend, checkpoints_.end());
     }
-#ifdef XAD_TAPE_REUSE_SLOTS
-    if (!reusable_ranges_.empty())
-    {
-        auto it = reusable_ranges_.end();
-        --it;
-        while (!reusable_ranges_.empty() && it->second() >= currentRec_->maxDerivative_)
-        {
-            if (it->first() >= currentRec_->maxDerivative_)
-            {
-                auto it2 = it;
-                --it2;
-                reusable_ranges_.erase(it);
-                it = it2;
-            }
-            else
-            {
-                it->second(currentRec_->maxDerivative_);
-            }
-        }
-    }
-#endif
 
     // clearDerivatives(getPosition());
     // std::cout << "reset to " << pos << "\n";
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index b7186e4..74a3787 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -268,7 +268,9 @@ class Tape
     void unregisterVariableReuseSlots(slot_type slot);
     typedef ReusableRange<slot_type> slot_range_type;
     typedef std::list<slot_range_type> range_list;
-    range_list reusable_ranges_;
+    range_list reusable_ranges_;             // released in the current recording
+    typename range_list::iterator latestRange_;
+    std::vector<range_list> outerRanges_;    // released in the enclosing ones
 #endif
 
     void foldSubrecordings();
@@ -276,7 +278,7 @@ class Tape
 
     struct SubRecording
     {
-        explicit SubRecording(Tape<Real>* parent)
+        SubRecording()
             : numDerivatives_(),
               iDerivative_(),
               maxDerivative_(),
@@ -285,13 +287,8 @@ class Tape
               startDerivative_(),
               startSlots_(),
               prevMax_(slot_type(-1)),
-#ifdef XAD_TAPE_REUSE_SLOTS
-              startRange_(parent->reusable_ranges_.end()),
-              latestRange_(parent->reusable_ranges_.end()),
-#endif
               derivativesInitialized_(false)
         {
-            XAD_UNUSED_VARIABLE(parent);
         }
         slot_type numDerivatives_;
         slot_type iDerivative_;
@@ -301,10 +298,6 @@ class Tape
         slot_type startDerivative_;
         slot_type startSlots_;
         slot_type prevMax_;
-#ifdef XAD_TAPE_REUSE_SLOTS
-        range_list::iterator startRange_;
-        range_list::iterator latestRange_;
-#endif
         bool derivativesInitialized_;
     };
     std::stack<SubRecording> nestedRecordings_;
-- 
2.43.0


From dd893eb1fd9f783c81e17078295684f54af2155f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:32 +0000
Subject: [PATCH 21/35] fix: a nested recording outside of a callback allocated
 the whole slot range, and its variables shared slots with the enclosing
 recording

---
 src/Tape.cpp     | 43 +++++++++++++++++++++++++++++++++++++------
 src/XAD/Tape.hpp | 11 +++++++++++
 2 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 9d84c8d..438f47f 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -68,6 +68,7 @@ Tape<T>::Tape(Tape&& o) noexcept
       latestRange_(reusable_ranges_.end()),
       outerRanges_(std::move(o.outerRanges_)),
 #endif
+      releasedOuter_(std::move(o.releasedOuter_)),
       nestedRecordings_(std::move(o.nestedRecordings_)),
       currentRec_(o.currentRec_)
 {
@@ -92,6 +93,7 @@ Tape<T>& Tape<T>::operator=(Tape&& o) noexcept
     latestRange_ = reusable_ranges_.end();
     outerRanges_ = std::move(o.outerRanges_);
 #endif
+    releasedOuter_ = std::move(o.releasedOuter_);
     nestedRecordings_ = std::move(o.nestedRecordings_);
     currentRec_ = o.currentRec_;
     o.callbacks_.clear();
@@ -122,6 +124,7 @@ void Tape<T>::clearAll()
     latestRange_ = reusable_ranges_.end();
     outerRanges_.clear();
 #endif
+    releasedOuter_.clear();
     while (!nestedRecordings_.empty()) nestedRecordings_.pop();
     statement_.push_back(std::make_pair(size_type(slot_.size()), slot_type(INVALID_SLOT)));
     nestedRecordings_.push(SubRecording());
@@ -279,8 +282,9 @@ void Tape<T>::foldSubrecording()
     currentRec_ = cur;
     // std::cout << "prev.max: " << prev.maxDerivative_
     //     << ", cur max: " << cur->maxDerivative_ << "\n";
-    if (derivatives_.size() > cur->maxDerivative_)
-        derivatives_.resize(cur->maxDerivative_);
+    if (derivatives_.size() > prev.startDerivative_)
+        derivatives_.resize(prev.startDerivative_);
+    releaseOuter();
     if (multiplier_.size() > prev.opStartPos_)
     {
         slot_.resize(prev.opStartPos_);
@@ -300,6 +304,21 @@ void Tape<T>::foldSubrecording()
 #endif
 }
 
+template <class T>
+typename Tape<T>::slot_type Tape<T>::nextUnusedSlot() const
+{
+    return (std::max)((std::max)(currentRec_->iDerivative_, currentRec_->maxDerivative_),
+                      slot_type(derivatives_.size()));
+}
+
+template <class T>
+void Tape<T>::releaseOuter()
+{
+    std::vector<slot_type> released;
+    released.swap(releasedOuter_);
+    for (auto slot : released) unregisterVariable(slot);
+}
+
 template <class T>
 void Tape<T>::foldSubrecordings()
 {
@@ -319,14 +338,26 @@ void Tape<T>::newNestedRecording()
     reusable_ranges_.clear();
     latestRange_ = reusable_ranges_.end();
 #endif
-    // clearDerivativesAfter(position_type(statement_.size())-1);
-    derivatives_.resize(currentRec_->prevMax_);
-    currentRec_->maxDerivative_ = currentRec_->prevMax_;
+    if (currentRec_->prevMax_ != INVALID_SLOT)
+    {
+        // within a checkpoint callback, the variables registered there belong to the new recording
+        newr.startDerivative_ = currentRec_->firstSlot_;
+        currentRec_->maxDerivative_ = currentRec_->prevMax_;
+    }
+    else
+    {
+        // slots below this may carry adjoints of the enclosing recording
+        newr.startDerivative_ = nextUnusedSlot();
+        newr.iDerivative_ = newr.startDerivative_;
+        newr.maxDerivative_ = newr.startDerivative_;
+    }
+    derivatives_.resize(newr.startDerivative_, T());
 
+    newr.prevMax_ = INVALID_SLOT;
+    newr.firstSlot_ = newr.startDerivative_;
     newr.statementStartPos_ = slot_type(statement_.size());
     newr.opStartPos_ = slot_type(multiplier_.size());
     newr.derivativesInitialized_ = false;
-    newr.startDerivative_ = currentRec_->maxDerivative_;
     newr.startSlots_ = newr.startDerivative_;
     nestedRecordings_.push(newr);
 
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index 74a3787..66d63a1 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -213,6 +213,11 @@ class Tape
 
     XAD_INLINE void unregisterVariable(slot_type slot)
     {
+        if (slot < currentRec_->firstSlot_)
+        {
+            releasedOuter_.push_back(slot);  // handed back at the end of the current one
+            return;
+        }
 #ifndef XAD_TAPE_REUSE_SLOTS
         --currentRec_->numDerivatives_;
         if (slot == currentRec_->iDerivative_ - 1)  // it's at the end of the tape
@@ -275,6 +280,9 @@ class Tape
 
     void foldSubrecordings();
     void foldSubrecording();
+    void runCallback(callback_type cb);
+    void releaseOuter();
+    slot_type nextUnusedSlot() const;
 
     struct SubRecording
     {
@@ -287,6 +295,7 @@ class Tape
               startDerivative_(),
               startSlots_(),
               prevMax_(slot_type(-1)),
+              firstSlot_(),
               derivativesInitialized_(false)
         {
         }
@@ -298,8 +307,10 @@ class Tape
         slot_type startDerivative_;
         slot_type startSlots_;
         slot_type prevMax_;
+        slot_type firstSlot_;  // slots below are of an enclosing recording
         bool derivativesInitialized_;
     };
+    std::vector<slot_type> releasedOuter_;
     std::stack<SubRecording> nestedRecordings_;
     SubRecording* currentRec_;
 };
-- 
2.43.0


From 85442b8d9ad159e87912be81c20905fc9b50ea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:32 +0000
Subject: [PATCH 22/35] fix: variables registered in a checkpoint callback
 overwrote pending adjoints of released variables

---
 src/Tape.cpp | 67 +++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 61 insertions(+), 6 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 438f47f..b5dfd8d 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -507,6 +507,66 @@ void Tape<T>::computeAdjoints()
     computeAdjointsTo(currentRec_->statementStartPos_ - 1);
 }
 
+template <class T>
+void Tape<T>::runCallback(callback_type cb)
+{
+    // variables registered by the callback get slots of their own, as released ones may still carry
+    // adjoints to be propagated
+    struct Guard
+    {
+        Guard(Tape* t)
+            : tape(t),
+              rec(t->currentRec_),
+              depth(t->nestedRecordings_.size()),
+              prevMax(rec->prevMax_),
+              firstSlot(rec->firstSlot_),
+              iDerivative(rec->iDerivative_),
+              numDerivatives(rec->numDerivatives_)
+        {
+#ifdef XAD_TAPE_REUSE_SLOTS
+            t->outerRanges_.push_back(std::move(t->reusable_ranges_));
+            t->reusable_ranges_.clear();
+            t->latestRange_ = t->reusable_ranges_.end();
+#endif
+            // keep the prevMax stored, so we can resize the der. vector on a subrecording
+            rec->prevMax_ = rec->maxDerivative_;
+            rec->firstSlot_ = rec->iDerivative_ = t->nextUnusedSlot();
+        }
+        ~Guard()
+        {
+            // nested recordings are left open if the callback throws
+            while (tape->nestedRecordings_.size() > depth) tape->foldSubrecording();
+            auto first = rec->firstSlot_;
+            bool allReleased = rec->numDerivatives_ == numDerivatives;
+            rec->prevMax_ = prevMax;
+            rec->firstSlot_ = firstSlot;
+            if (allReleased)
+            {
+                rec->iDerivative_ = iDerivative;
+                rec->maxDerivative_ = (std::min)(rec->maxDerivative_, first);
+                if (tape->derivatives_.size() > first)
+                    tape->derivatives_.resize(first);
+#ifdef XAD_TAPE_REUSE_SLOTS
+                tape->reusable_ranges_.clear();
+#endif
+            }
+#ifdef XAD_TAPE_REUSE_SLOTS
+            tape->reusable_ranges_.splice(tape->reusable_ranges_.begin(),
+                                          tape->outerRanges_.back());
+            tape->outerRanges_.pop_back();
+            tape->latestRange_ = tape->reusable_ranges_.end();
+#endif
+            tape->releaseOuter();
+        }
+        Tape* tape;
+        SubRecording* rec;
+        std::size_t depth;
+        slot_type prevMax, firstSlot, iDerivative, numDerivatives;
+    } guard(this);
+
+    cb->computeAdjoint(this);
+}
+
 template <class T>
 void Tape<T>::computeAdjointsTo(position_type pos)
 {
@@ -531,12 +591,7 @@ void Tape<T>::computeAdjointsTo(position_type pos)
 
         resetTo(end - 1);  // removes up to and incl. the checkpoint from statements
 
-        // keep the prevMax stored, so we can resize the der. vector on a
-        // subrecording
-        currentRec_->prevMax_ = currentRec_->maxDerivative_;
-
-        cb->computeAdjoint(this);
-        currentRec_->prevMax_ = INVALID_SLOT;
+        runCallback(cb);
         // std::cout << "********Reset to " << end-1 << std::endl;
 
         resetTo(end - 1);  // another reset, in case the checkpoint added to the tape again
-- 
2.43.0


From 7ffa9ece2e1744d2a7aaad2261efd4d44af2f8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:54 +0000
Subject: [PATCH 23/35] fix: variables released in a nested recording were lost
 from the counts and from the list of reusable slots

---
 src/Tape.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index b5dfd8d..96bb7ea 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -280,11 +280,12 @@ void Tape<T>::foldSubrecording()
     nestedRecordings_.pop();
     auto cur = &nestedRecordings_.top();
     currentRec_ = cur;
+    // variables of the enclosing callback may have been released in the nested recording
+    cur->numDerivatives_ = (std::min)(cur->numDerivatives_, prev.numDerivatives_);
     // std::cout << "prev.max: " << prev.maxDerivative_
     //     << ", cur max: " << cur->maxDerivative_ << "\n";
     if (derivatives_.size() > prev.startDerivative_)
         derivatives_.resize(prev.startDerivative_);
-    releaseOuter();
     if (multiplier_.size() > prev.opStartPos_)
     {
         slot_.resize(prev.opStartPos_);
@@ -302,6 +303,7 @@ void Tape<T>::foldSubrecording()
     outerRanges_.pop_back();
     latestRange_ = reusable_ranges_.end();
 #endif
+    releaseOuter();
 }
 
 template <class T>
-- 
2.43.0


From e20eb1bd1130eed58fd77e658bfe5d57aa6c12b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 24/35] fix: Jacobian and Hessian with no outputs or no inputs
 dereferenced the end of the result range

---
 src/XAD/Hessian.hpp  | 4 ++--
 src/XAD/Jacobian.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/XAD/Hessian.hpp b/src/XAD/Hessian.hpp
index 3018d6d..ce9d07a 100644
--- a/src/XAD/Hessian.hpp
+++ b/src/XAD/Hessian.hpp
@@ -57,7 +57,7 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
     unsigned int domain(static_cast<unsigned int>(vec.size()));
 
     if (std::distance(first, last) != domain ||
-        std::distance(first->cbegin(), first->cend()) != domain)
+        (domain > 0 && std::distance(first->cbegin(), first->cend()) != domain))
         throw OutOfRange("Iterator not allocated enough space");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
@@ -110,7 +110,7 @@ void computeHessian(const std::vector<FReal<FReal<T>>> &vec,
     unsigned int domain(static_cast<unsigned int>(vec.size()));
 
     if (std::distance(first, last) != domain ||
-        std::distance(first->cbegin(), first->cend()) != domain)
+        (domain > 0 && std::distance(first->cbegin(), first->cend()) != domain))
         throw OutOfRange("Iterator not allocated enough space");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index 1c2778b..421d625 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -53,7 +53,7 @@ void computeJacobian(const std::vector<AReal<T>> &vec,
                      std::function<std::vector<AReal<T>>(std::vector<AReal<T>> &)> foo,
                      RowIterator first, RowIterator last, Tape<T> *tape = Tape<T>::getActive())
 {
-    if (std::distance(first->cbegin(), first->cend()) != vec.size())
+    if (first != last && std::distance(first->cbegin(), first->cend()) != vec.size())
         throw OutOfRange("Iterator not allocated enough space (domain)");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
@@ -104,7 +104,7 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
                      std::function<std::vector<FReal<T>>(std::vector<FReal<T>> &)> foo,
                      RowIterator first, RowIterator last)
 {
-    if (std::distance(first->cbegin(), first->cend()) != vec.size())
+    if (first != last && std::distance(first->cbegin(), first->cend()) != vec.size())
         throw OutOfRange("Iterator not allocated enough space (domain)");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
-- 
2.43.0


From 6a35ecc29031bc15968da3310592df77565f7f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 25/35] fix: Jacobian and Hessian used incoming derivatives as
 seeds, and were wrong for functions that modify their argument

---
 src/XAD/Hessian.hpp  | 19 +++++++++++++------
 src/XAD/Jacobian.hpp | 14 +++++++++-----
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/XAD/Hessian.hpp b/src/XAD/Hessian.hpp
index ce9d07a..946dc56 100644
--- a/src/XAD/Hessian.hpp
+++ b/src/XAD/Hessian.hpp
@@ -69,6 +69,7 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
     }
 
     auto v(vec);
+    for (auto &x : v) derivative(value(x)) = T();  // the incoming derivatives are not seeds
     tape->registerInputs(v);
 
     auto row = first;
@@ -76,7 +77,8 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
     {
         derivative(value(v[i])) = 1.0;
         tape->newRecording();
-        AReal<FReal<T>> y = foo(v);
+        auto x(v);  // the function may modify its argument
+        AReal<FReal<T>> y = foo(x);
         tape->registerOutput(y);
         value(derivative(y)) = 1.0;
         tape->computeAdjoints();
@@ -115,21 +117,26 @@ void computeHessian(const std::vector<FReal<FReal<T>>> &vec,
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
 
+    // the incoming derivatives are not seeds
     auto v(vec);
+    for (auto &x : v)
+    {
+        derivative(x) = FReal<T>();
+        derivative(value(x)) = T();
+    }
 
     auto row = first;
     for (unsigned int i = 0; i < domain; i++, row++)
     {
-        value(derivative(v[i])) = 1.0;
         auto col = row->begin();
         for (unsigned int j = 0; j < domain; j++, col++)
         {
-            derivative(value(v[j])) = 1.0;
-            FReal<FReal<T>> y = foo(v);
+            auto x(v);  // the function may modify its argument
+            value(derivative(x[i])) = 1.0;
+            derivative(value(x[j])) = 1.0;
+            FReal<FReal<T>> y = foo(x);
             *col = derivative(derivative(y));
-            derivative(value(v[j])) = 0.0;
         }
-        value(derivative(v[i])) = 0.0;
     }
 }
 }  // namespace xad
diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index 421d625..221d0a4 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -68,7 +68,8 @@ void computeJacobian(const std::vector<AReal<T>> &vec,
 
     tape->registerInputs(v);
     tape->newRecording();
-    auto y = foo(v);
+    auto x(v);  // the function may modify its argument
+    auto y = foo(x);
     unsigned int domain = static_cast<unsigned int>(vec.size()),
                  codomain = static_cast<unsigned int>(y.size());
     if (std::distance(first, last) != codomain)
@@ -109,9 +110,12 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
 
+    // the incoming derivatives are not seeds
     auto v(vec);
+    for (auto &x : v) derivative(x) = T();
+    auto v0(v);  // the function may modify its argument
     unsigned int domain = static_cast<unsigned int>(vec.size()),
-                 codomain = static_cast<unsigned int>(foo(v).size());
+                 codomain = static_cast<unsigned int>(foo(v0).size());
 
     if (std::distance(first, last) != codomain)
         throw OutOfRange("Iterator not allocated enough space (codomain)");
@@ -119,9 +123,9 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
     auto row = first;
     for (unsigned int i = 0; i < domain; i++)
     {
-        derivative(v[i]) = 1.0;
-        auto y = foo(v);
-        derivative(v[i]) = 0.0;
+        auto x(v);
+        derivative(x[i]) = 1.0;
+        auto y = foo(x);
         for (unsigned int j = 0; j < codomain; j++)
         {
             row = first;
-- 
2.43.0


From c3b54974152fac6fc580c8793e6302f879357737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 26/35] fix: Jacobian and Hessian wrote outside of the result
 if a row other than the first is too short

---
 src/XAD/Hessian.hpp    |  6 ++----
 src/XAD/Jacobian.hpp   |  4 ++--
 src/XAD/TypeTraits.hpp | 14 ++++++++++++++
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/XAD/Hessian.hpp b/src/XAD/Hessian.hpp
index 946dc56..659700a 100644
--- a/src/XAD/Hessian.hpp
+++ b/src/XAD/Hessian.hpp
@@ -56,8 +56,7 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
 {
     unsigned int domain(static_cast<unsigned int>(vec.size()));
 
-    if (std::distance(first, last) != domain ||
-        (domain > 0 && std::distance(first->cbegin(), first->cend()) != domain))
+    if (std::distance(first, last) != domain || !detail::rows_have_size(first, last, domain))
         throw OutOfRange("Iterator not allocated enough space");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
@@ -111,8 +110,7 @@ void computeHessian(const std::vector<FReal<FReal<T>>> &vec,
 {
     unsigned int domain(static_cast<unsigned int>(vec.size()));
 
-    if (std::distance(first, last) != domain ||
-        (domain > 0 && std::distance(first->cbegin(), first->cend()) != domain))
+    if (std::distance(first, last) != domain || !detail::rows_have_size(first, last, domain))
         throw OutOfRange("Iterator not allocated enough space");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index 221d0a4..f7f4679 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -53,7 +53,7 @@ void computeJacobian(const std::vector<AReal<T>> &vec,
                      std::function<std::vector<AReal<T>>(std::vector<AReal<T>> &)> foo,
                      RowIterator first, RowIterator last, Tape<T> *tape = Tape<T>::getActive())
 {
-    if (first != last && std::distance(first->cbegin(), first->cend()) != vec.size())
+    if (!detail::rows_have_size(first, last, vec.size()))
         throw OutOfRange("Iterator not allocated enough space (domain)");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
@@ -105,7 +105,7 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
                      std::function<std::vector<FReal<T>>(std::vector<FReal<T>> &)> foo,
                      RowIterator first, RowIterator last)
 {
-    if (first != last && std::distance(first->cbegin(), first->cend()) != vec.size())
+    if (!detail::rows_have_size(first, last, vec.size()))
         throw OutOfRange("Iterator not allocated enough space (domain)");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
diff --git a/src/XAD/TypeTraits.hpp b/src/XAD/TypeTraits.hpp
index 17c2928..e3321db 100644
--- a/src/XAD/TypeTraits.hpp
+++ b/src/XAD/TypeTraits.hpp
@@ -24,6 +24,8 @@
 
 #pragma once
 
+#include <cstddef>
+#include <iterator>
 #include <type_traits>
 
 namespace xad
@@ -42,5 +44,17 @@ struct has_begin : decltype(has_begin_impl<U>(0))
 {
 };
 
+// check that every row of a result matrix given by iterators has n elements
+template <typename RowIterator>
+bool rows_have_size(RowIterator first, RowIterator last, std::size_t n)
+{
+    for (; first != last; ++first)
+    {
+        if (static_cast<std::size_t>(std::distance(first->cbegin(), first->cend())) != n)
+            return false;
+    }
+    return true;
+}
+
 }  // namespace detail
 }  // namespace xad
-- 
2.43.0


From 14fec39368bfcd7c399bc657596c5836720a6185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 27/35] fix: multiplying or dividing a complex number by its
 own real part used the updated real part

---
 src/XAD/Complex.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 2957863..c3bdbe5 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -160,8 +160,16 @@ class complex<xad::ADTypeBase<Scalar, T>> : public xad::detail::complex_impl<T>
 
     XAD_INLINE complex<T>& operator*=(const T& other)
     {
-        base::real() *= other;
-        base::imag() *= other;
+        if (&other == &base::real())  // don't modify other before its last use
+        {
+            base::imag() *= other;
+            base::real() *= other;
+        }
+        else
+        {
+            base::real() *= other;
+            base::imag() *= other;
+        }
         return derived();
     }
 
@@ -176,8 +184,16 @@ class complex<xad::ADTypeBase<Scalar, T>> : public xad::detail::complex_impl<T>
 
     XAD_INLINE complex<T>& operator/=(const T& other)
     {
-        base::real() /= other;
-        base::imag() /= other;
+        if (&other == &base::real())  // don't modify other before its last use
+        {
+            base::imag() /= other;
+            base::real() /= other;
+        }
+        else
+        {
+            base::real() /= other;
+            base::imag() /= other;
+        }
         return derived();
     }
 
-- 
2.43.0


From d8d518c7f1578be0f75042fc334761ba6f6b0199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 28/35] fix: frexp derivative used the exponent variable, which
 may have been overwritten within the expression

---
 src/XAD/UnaryMathFunctors.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index 3487a03..cebbf3c 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -214,12 +214,13 @@ struct frexp_op
 {
     XAD_INLINE explicit frexp_op(int* exp) : exp_(exp) {}
     XAD_INLINE Scalar operator()(const Scalar& a) const { return frexp(a, exp_); }
-    XAD_INLINE Scalar derivative(const Scalar&) const
+    XAD_INLINE Scalar derivative(const Scalar& a) const
     {
-        // we assume that operator() and derivative are called in succession and in
-        // this order, which is always the case in XAD. Therefore we can read the
-        // value in *exp_ here to calculate the derivative
-        return Scalar(ldexp(Scalar(1), -*exp_));
+        // *exp_ may have been changed since, e.g. by another frexp in the same expression
+        int e = 0;
+        Scalar frac = frexp(a, &e);
+        XAD_UNUSED_VARIABLE(frac);
+        return Scalar(ldexp(Scalar(1), -e));
     }
     int* exp_;
 };
-- 
2.43.0


From bbf48d579b58890242d12eb26ccf9e8633247794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 29/35] fix: adjoints with zero value but non-zero nested
 derivative were dropped in the reverse sweep

---
 src/Tape.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 96bb7ea..fa5ff6d 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -624,6 +624,29 @@ XAD_FORCE_INLINE double fused_multiply_add(double a, double b, double c)
 
 XAD_FORCE_INLINE float fused_multiply_add(float a, float b, float c) { return std::fma(a, b, c); }
 
+// An adjoint may only be skipped if it's zero including its own derivatives -
+// for nested active types, comparing the values alone is not sufficient.
+template <class T>
+XAD_FORCE_INLINE bool isZeroAdjoint(const T& a)
+{
+    return a == T();
+}
+
+template <class T>
+bool isZeroAdjoint(const FReal<T>& a);
+
+template <class T>
+XAD_FORCE_INLINE bool isZeroAdjoint(const AReal<T>& a)
+{
+    return !a.shouldRecord() && isZeroAdjoint(a.getValue());
+}
+
+template <class T>
+XAD_FORCE_INLINE bool isZeroAdjoint(const FReal<T>& a)
+{
+    return isZeroAdjoint(a.getValue()) && isZeroAdjoint(a.getDerivative());
+}
+
 }  // namespace detail
 
 template <class T>
@@ -658,7 +681,7 @@ void Tape<T>::computeAdjointsToImpl(position_type pos, position_type start)
             auto st = *it;
             auto a = derivatives_[st.second];
             derivatives_[st.second] = T();
-            if (a != T())
+            if (!detail::isZeroAdjoint(a))
             {
                 for (auto opi = it[-1].first, ope = st.first; opi != ope; ++opi)
                 {
@@ -676,7 +699,7 @@ void Tape<T>::computeAdjointsToImpl(position_type pos, position_type start)
             auto st = chunk_it[0][endidx];
             auto a = derivatives_[st.second];
             derivatives_[st.second] = T();
-            if (a != T())
+            if (!detail::isZeroAdjoint(a))
             {
                 for (auto opi = prevendpoint, ope = st.first; opi != ope; ++opi)
                 {
-- 
2.43.0


From 006e863c6f0add9cd89d09a7fed60221327b4af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 30/35] fix: hypot(expression, number) overload was misspelled,
 the generic one referred to a temporary variable

---
 src/XAD/UnaryOperators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index 910be7b..eeeb2e0 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -86,7 +86,7 @@ XAD_UNARY_BINSCAL2(atan2, scalar_atan22_op)
 XAD_UNARY_BINSCAL1(nextafter, scalar_nextafter1_op)
 XAD_UNARY_BINSCAL2(nextafter, scalar_nextafter2_op)
 XAD_UNARY_BINSCAL1(hypot, scalar_hypot1_op)
-XAD_UNARY_BINSCAL2(hypto, scalar_hypot2_op)
+XAD_UNARY_BINSCAL2(hypot, scalar_hypot2_op)
 
 // pown (integral exponents)
 template <class Scalar, class Expr>
-- 
2.43.0


From 67a8ad9809c9970cc44fdcd4683c879eee98425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 31/35] fix: complex tanh (and tan) returned NaN when the
 exponential of the argument overflows

---
 src/XAD/Complex.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index c3bdbe5..7381835 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2383,7 +2383,14 @@ XAD_INLINE std::complex<T> tanh_impl(const std::complex<T>& z)
         return std::complex<T>(1.0, 0.0);
     if (xad::isnan(z.real()) && z.imag() == 0.0)
         return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(), 0.0);
-    return sinh(z) / cosh(z);
+    // sinh(z) / cosh(z), in terms of the decaying exponential to avoid overflow
+    if (z.real() > 0.0)
+    {
+        std::complex<T> w = exp(z * T(-2.0));
+        return (T(1.0) - w) / (T(1.0) + w);
+    }
+    std::complex<T> w = exp(z * T(2.0));
+    return (w - T(1.0)) / (w + T(1.0));
 }
 
 template <class T>
-- 
2.43.0


From f7a1edb608591c903ae3ccefa7d962b0f66dea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 32/35] fix: complex asinh (and asin) lost all accuracy for
 arguments with large negative real part

---
 src/XAD/Complex.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 7381835..258b279 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2419,6 +2419,8 @@ XAD_INLINE std::complex<T> asinh_impl(const std::complex<T>& z)
     if (xad::isinf(z.imag()) && z.imag() > 0.0 && xad::isfinite(z.real()) && z.real() > 0.0)
         return std::complex<T>(std::numeric_limits<nested>::infinity(),
                                3.141592653589793238462643383279502884197169399 * 0.5);
+    if (z.real() < 0.0)  // odd function, avoids cancellation
+        return -log(sqrt(T(1.0) + (z * z)) - z);
     return log(z + sqrt(T(1.0) + (z * z)));
 }
 
-- 
2.43.0


From 1b6c8dd658c82e2adccf8fd851cf9184e4ee2acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 33/35] fix: complex atanh and atan had no derivative at zero

---
 src/XAD/Complex.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 258b279..03a71e8 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2488,13 +2488,8 @@ XAD_INLINE std::complex<T> atanh_impl(const std::complex<T>& z)
         return std::complex<T>(std::numeric_limits<nested>::infinity(), 0.0);
     if (z.real() > 0.0 && xad::isfinite(z.real()) && xad::isinf(z.imag()) && z.imag() > 0.0)
         return std::complex<T>(0.0, 3.141592653589793238462643383279502884197169399 * 0.5);
-    if (z.real() == 0.0)
-    {
-        if (z.imag() == 0.0)
-            return std::complex<T>(0.0, 0.0);
-        if (xad::isnan(z.imag()))
-            return std::complex<T>(0.0, std::numeric_limits<nested>::quiet_NaN());
-    }
+    if (z.real() == 0.0 && xad::isnan(z.imag()))
+        return std::complex<T>(0.0, std::numeric_limits<nested>::quiet_NaN());
     return (log(T(1.0) + z) - log(T(1.0) - z)) / T(2.0);
 }
 
-- 
2.43.0


From 4576414940fb5e427cc5a0b8728d597c5bbbdbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 34/35] fix: complex acos had no derivative at zero and lost
 all accuracy for large arguments

---
 src/XAD/Complex.hpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 03a71e8..e2b1915 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2419,7 +2419,7 @@ XAD_INLINE std::complex<T> asinh_impl(const std::complex<T>& z)
     if (xad::isinf(z.imag()) && z.imag() > 0.0 && xad::isfinite(z.real()) && z.real() > 0.0)
         return std::complex<T>(std::numeric_limits<nested>::infinity(),
                                3.141592653589793238462643383279502884197169399 * 0.5);
-    if (z.real() < 0.0)  // odd function, avoids cancellation
+    if (xad::signbit(z.real()))  // odd function, avoids cancellation
         return -log(sqrt(T(1.0) + (z * z)) - z);
     return log(z + sqrt(T(1.0) + (z * z)));
 }
@@ -2532,14 +2532,9 @@ template <class T>
 XAD_INLINE std::complex<T> acos_impl(const std::complex<T>& z)
 {
     typedef typename xad::ExprTraits<T>::nested_type nested;
-    if (z.real() == 0.0)
-    {
-        if (z.imag() == 0.0 && !xad::signbit(z.imag()))
-            return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5, -0.0);
-        if (xad::isnan(z.imag()))
-            return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5,
-                                   -std::numeric_limits<nested>::quiet_NaN());
-    }
+    if (z.real() == 0.0 && xad::isnan(z.imag()))
+        return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5,
+                               -std::numeric_limits<nested>::quiet_NaN());
     if (xad::isfinite(z.real()) && xad::isinf(z.imag()) && z.imag() > 0.0)
         return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5,
                                -std::numeric_limits<nested>::infinity());
@@ -2578,9 +2573,9 @@ XAD_INLINE std::complex<T> acos_impl(const std::complex<T>& z)
     }
 
     std::complex<T> iz(-z.imag(), z.real());
-    std::complex<T> lnizsqrt = log(iz + sqrt(T(1.0) - (z * z)));
-    std::complex<T> ilnizsqrt(-lnizsqrt.imag(), lnizsqrt.real());
-    return T(3.141592653589793238462643383279502884197169399 * 0.5) + ilnizsqrt;
+    std::complex<T> asinhiz = asinh(iz);
+    std::complex<T> iasinhiz(-asinhiz.imag(), asinhiz.real());
+    return T(3.141592653589793238462643383279502884197169399 * 0.5) + iasinhiz;
 }
 
 template <class T>
-- 
2.43.0


From 00b6b5efdaa918ecba912ce77f5e55f3ec6e61a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:35 +0000
Subject: [PATCH 35/35] fix: complex pow of a negative real base returned NaN

---
 src/XAD/Complex.hpp | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index e2b1915..09812c4 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -1845,68 +1845,68 @@ XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, unsigned
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const xad::AReal<T>& x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<xad::AReal<T>>(x)) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const T& x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<T>(x)) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(int x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(short x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(long long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned short x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned long long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T, class T2>
 XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::AReal<T>>>::type pow(
     const T2& x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<xad::AReal<T>>(x)) * y);
 }
 
 template <class T>
@@ -1998,68 +1998,68 @@ XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::FRe
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const xad::FReal<T>& x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<xad::FReal<T>>(x)) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const T& x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<T>(x)) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(int x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(short x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(long long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned long long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned short x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T, class T2>
 XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::FReal<T>>>::type pow(
     const T2& x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<xad::FReal<T>>(x)) * y);
 }
 
 template <class T>
-- 
2.43.0

