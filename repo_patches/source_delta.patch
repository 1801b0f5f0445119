From f5227e375be66afe5ec1713126b950ffc7b2ed90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 01/71] fix: Mul::simplify must not multiply x*x^n with x^n
 once more

---
 symbolics/functions/Mul.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index f35de60..fc3da70 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -219,6 +219,7 @@ BasicPtr Mul::simplify()
             const Pow *c = Util::getAsConstPtr<Pow>(dst[i]);
             if (lastarg == c->getBase())
               lastarg = BasicPtr(new Pow(lastarg,Add::New(c->getExponent(),Int::getOne())));
+            else
             {
               addArg(lastarg->simplify());
               lastarg = dst[i];
-- 
2.43.0


From 319a2f4284afa2201b1159255e757b28d062772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 02/71] fix: a vector of ones is not the neutral element of a
 product

---
 symbolics/functions/Mul.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index fc3da70..ba065e2 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -195,11 +195,12 @@ BasicPtr Mul::simplify()
             // mul them
             lastarg = New(lastarg,dst[i]);
         }
-        else if (Util::is_One(lastarg) && (!dst[i]->is_Scalar()))
+        // a vector of ones is not a neutral element
+        else if (Util::is_One(lastarg) && (!lastarg->is_Vector()) && (!dst[i]->is_Scalar()))
         {
           lastarg=dst[i];
         }
-        else if (Util::is_One(dst[i]) && (!lastarg->is_Scalar()))
+        else if (Util::is_One(dst[i]) && (!dst[i]->is_Vector()) && (!lastarg->is_Scalar()))
         {
           continue;
         }
-- 
2.43.0


From 58c15aaad9bcd1db884166b12adf9e66d0a0de1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 03/71] fix: a non-integer power of an integer power must not
 be merged

---
 symbolics/functions/Pow.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index 5d4dc21..f4596c9 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -213,6 +213,11 @@ BasicPtr Pow::simplify()
     case Type_Pow:
         {
             const Pow *c = Util::getAsConstPtr<Pow>(getArg1());
+            // (x^2)^0.5 is abs(x) and not x
+            int iOuter = 0;
+            int iInner = 0;
+            if ( !Util::is_Int(getArg2(), iOuter) && Util::is_Int(c->getExponent(), iInner))
+                break;
             setArg2(getArg2()*c->getExponent()->simplify());
             setArg1(c->getBase());
             m_simplified = true;
@@ -359,6 +364,11 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
     case Type_Pow:
         {
             const Pow *c = Util::getAsConstPtr<Pow>(arg1);
+            // (x^2)^0.5 is abs(x) and not x
+            int iOuter = 0;
+            int iInner = 0;
+            if ( !Util::is_Int(arg2, iOuter) && Util::is_Int(c->getExponent(), iInner))
+                break;
             return New(c->getBase(),Mul::New(arg2,c->getExponent()));
         }
         // move neg to front in case of round number remove it
-- 
2.43.0


From ca820b97c9f20875a77c44cdbc8316f610e3179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 04/71] fix: a sign must not be moved out of a non-integer
 power

---
 symbolics/functions/Pow.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index f4596c9..dbda999 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -230,7 +230,9 @@ BasicPtr Pow::simplify()
 
             // try arg2 as integer
             int iExp = 0;
-            if ( Util::is_Int(getArg2(), iExp) && (iExp%2==0))
+            if ( !Util::is_Int(getArg2(), iExp))
+                break;
+            if (iExp%2==0)
             {
                 setArg1(c->getArg());
                 m_simplified = true;
@@ -379,7 +381,9 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
             // try arg2 as integer
             BasicPtr arg_1 = c->getArg();
             int iExp = 0;
-            if ( Util::is_Int(arg2, iExp) && (iExp%2==0))
+            if ( !Util::is_Int(arg2, iExp))
+                break;
+            if (iExp%2==0)
             {
                 return New(arg_1,arg2);
             }
-- 
2.43.0


From 4dd7a403cf6c783e3d6a4cfc96148a606b98baac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 05/71] fix: Add::simplify loses the matrix in the sum of a
 matrix and a scalar

---
 symbolics/functions/Add.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Add.cpp b/symbolics/functions/Add.cpp
index 762ab19..3b5024c 100644
--- a/symbolics/functions/Add.cpp
+++ b/symbolics/functions/Add.cpp
@@ -247,7 +247,7 @@ BasicPtr Add::simplify()
     {
       BasicPtrVec scalars;
       BasicPtrVec matrixes;
-      bool hasMatZero;
+      bool hasMatZero = false;
       for (size_t i=0; i<other_args1.size(); ++i)
       {
         if (other_args1[i]->getType() == Type_Matrix)
@@ -283,6 +283,7 @@ BasicPtr Add::simplify()
             Matrix *c = new Matrix( *(Util::getAsConstPtr<Matrix>(matrixes[0])) );
             for (size_t i=0; i<c->getNumEl(); ++i)
               c->set(i,c->get(i)+s);
+            addArg(BasicPtr(c));
           }
           else
             addArg(matrixes[0]);
@@ -293,7 +294,7 @@ BasicPtr Add::simplify()
           for (size_t i=1; i<matrixes.size(); ++i)
           {
             const Matrix *m = Util::getAsConstPtr<Matrix>(matrixes[i]);
-            *mat *= (*m); 
+            *mat += (*m); 
           }
           if (scalars.size() > 0)
           {
-- 
2.43.0


From c9db093c07dcce40d70386f612299013ca8ce9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 06/71] fix: trigonometric functions of an identity matrix
 fail, cos and atan of a scalar one are wrong

---
 symbolics/functions/Acos.cpp | 6 ++++--
 symbolics/functions/Asin.cpp | 6 ++++--
 symbolics/functions/Atan.cpp | 6 ++++--
 symbolics/functions/Cos.cpp  | 6 ++++--
 symbolics/functions/Sin.cpp  | 6 ++++--
 symbolics/functions/Tan.cpp  | 6 ++++--
 6 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/symbolics/functions/Acos.cpp b/symbolics/functions/Acos.cpp
index 2327076..1a7c218 100644
--- a/symbolics/functions/Acos.cpp
+++ b/symbolics/functions/Acos.cpp
@@ -77,7 +77,8 @@ BasicPtr Acos::simplify()
     case Type_Eye:
         {
           if (getArg()->is_Scalar())
-            return BasicPtr( new Real(acos(1.0)) );
+            return BasicPtr( new Real(::acos(1.0)) );
+          break;
         }
     case Type_Int:
         {
@@ -128,7 +129,8 @@ BasicPtr Acos::New( BasicPtr const& arg)
     case Type_Eye:
         {
           if (arg->is_Scalar())
-            return BasicPtr( new Real(acos(1.0)) );
+            return BasicPtr( new Real(::acos(1.0)) );
+          break;
         }
     case Type_Int:
         {
diff --git a/symbolics/functions/Asin.cpp b/symbolics/functions/Asin.cpp
index 21e28e7..eea4f4e 100644
--- a/symbolics/functions/Asin.cpp
+++ b/symbolics/functions/Asin.cpp
@@ -75,7 +75,8 @@ BasicPtr Asin::simplify()
     case Type_Eye:
         {
           if (getArg()->is_Scalar())
-            return BasicPtr( new Real(asin(1.0)) );
+            return BasicPtr( new Real(::asin(1.0)) );
+          break;
         }
     case Type_Int:
         {
@@ -127,7 +128,8 @@ BasicPtr Asin::New( BasicPtr const& arg)
     case Type_Eye:
         {
           if (arg->is_Scalar())
-            return BasicPtr( new Real(asin(1.0)) );
+            return BasicPtr( new Real(::asin(1.0)) );
+          break;
         }
     case Type_Int:
         {
diff --git a/symbolics/functions/Atan.cpp b/symbolics/functions/Atan.cpp
index f9d5873..a2f7351 100644
--- a/symbolics/functions/Atan.cpp
+++ b/symbolics/functions/Atan.cpp
@@ -73,7 +73,8 @@ BasicPtr Atan::simplify()
     case Type_Eye:
         {
           if (getArg()->is_Scalar())
-            return BasicPtr( new Real(asin(1.0)) );
+            return BasicPtr( new Real(::atan(1.0)) );
+          break;
         }
     case Type_Int:
         {
@@ -124,7 +125,8 @@ BasicPtr Atan::New( BasicPtr const& arg)
     case Type_Eye:
         {
           if (arg->is_Scalar())
-            return BasicPtr( new Real(asin(1.0)) );
+            return BasicPtr( new Real(::atan(1.0)) );
+          break;
         }
     case Type_Int:
         {
diff --git a/symbolics/functions/Cos.cpp b/symbolics/functions/Cos.cpp
index 9757888..ecf572c 100644
--- a/symbolics/functions/Cos.cpp
+++ b/symbolics/functions/Cos.cpp
@@ -76,7 +76,8 @@ BasicPtr Cos::simplify()
     case Type_Eye:
         {
           if (getArg()->is_Scalar())
-            return BasicPtr( new Real(asin(1.0)) );
+            return BasicPtr( new Real(::cos(1.0)) );
+          break;
         }
     case Type_Int:
         {
@@ -135,7 +136,8 @@ BasicPtr Cos::New( BasicPtr const& arg)
     case Type_Eye:
         {
           if (arg->is_Scalar())
-            return BasicPtr( new Real(cos(1.0)) );
+            return BasicPtr( new Real(::cos(1.0)) );
+          break;
         }
     case Type_Int:
         {
diff --git a/symbolics/functions/Sin.cpp b/symbolics/functions/Sin.cpp
index 805e7d4..ad3d8a7 100644
--- a/symbolics/functions/Sin.cpp
+++ b/symbolics/functions/Sin.cpp
@@ -69,7 +69,8 @@ BasicPtr Sin::simplify()
     case Type_Eye:
         {
           if (getArg()->is_Scalar())
-            return BasicPtr( new Real(sin(1.0)) );
+            return BasicPtr( new Real(::sin(1.0)) );
+          break;
         }
     case Type_Int:
         {
@@ -118,7 +119,8 @@ BasicPtr Sin::New( BasicPtr const& arg)
     case Type_Eye:
         {
           if (arg->is_Scalar())
-            return BasicPtr( new Real(sin(1.0)) );
+            return BasicPtr( new Real(::sin(1.0)) );
+          break;
         }
     case Type_Int:
         {
diff --git a/symbolics/functions/Tan.cpp b/symbolics/functions/Tan.cpp
index 7c5e461..aaaa33a 100644
--- a/symbolics/functions/Tan.cpp
+++ b/symbolics/functions/Tan.cpp
@@ -70,7 +70,8 @@ BasicPtr Tan::simplify()
     case Type_Eye:
         {
           if (getArg()->is_Scalar())
-            return BasicPtr( new Real(tan(1.0)) );
+            return BasicPtr( new Real(::tan(1.0)) );
+          break;
         }
     case Type_Int:
         {
@@ -121,7 +122,8 @@ BasicPtr Tan::New( BasicPtr const& arg)
     case Type_Eye:
         {
           if (arg->is_Scalar())
-            return BasicPtr( new Real(tan(1.0)) );
+            return BasicPtr( new Real(::tan(1.0)) );
+          break;
         }
     case Type_Int:
         {
-- 
2.43.0


From 5ccac32830600db3162190820a5e5614eeebebfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 07/71] fix: Outer with a zero vector yields a scalar zero

---
 symbolics/functions/Outer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/symbolics/functions/Outer.cpp b/symbolics/functions/Outer.cpp
index 6cba047..2840e06 100644
--- a/symbolics/functions/Outer.cpp
+++ b/symbolics/functions/Outer.cpp
@@ -109,8 +109,7 @@ BasicPtr Outer::New( BasicPtr const& arg1, BasicPtr const& arg2 )
 /*****************************************************************************/
 {
     // if zero, return zero
-    if (Util::is_Zero(arg1)) return Zero::getZero();
-    if (Util::is_Zero(arg2)) return Zero::getZero();
+    if (Util::is_Zero(arg1) || Util::is_Zero(arg2)) return BasicPtr(new Outer(arg1, arg2))->simplify();
 
 	// simplify matrices
 	if ( (arg1->getType() == Type_Matrix) && (arg2->getType() == Type_Matrix) )
-- 
2.43.0


From 3e911372207fb7488a12bca59e5938a1fab7424f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 08/71] fix: text of Atan2 and Outer names the first argument
 twice

---
 symbolics/functions/Atan2.cpp | 4 ++--
 symbolics/functions/Outer.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/symbolics/functions/Atan2.cpp b/symbolics/functions/Atan2.cpp
index 64abb8b..3612ed6 100644
--- a/symbolics/functions/Atan2.cpp
+++ b/symbolics/functions/Atan2.cpp
@@ -60,9 +60,9 @@ std::string Atan2::toString() const
 /*****************************************************************************/
 {
 #ifdef _DEBUG
-    return "atan2(" + getArg1()->toString() + "," + getArg1()->toString() + ")";
+    return "atan2(" + getArg1()->toString() + "," + getArg2()->toString() + ")";
 #else
-    return "atan2(" + getArg1()->toString() + "," + getArg1()->toString() + ")";
+    return "atan2(" + getArg1()->toString() + "," + getArg2()->toString() + ")";
 #endif
 }
 /*****************************************************************************/
diff --git a/symbolics/functions/Outer.cpp b/symbolics/functions/Outer.cpp
index 2840e06..ac3e986 100644
--- a/symbolics/functions/Outer.cpp
+++ b/symbolics/functions/Outer.cpp
@@ -69,9 +69,9 @@ std::string Outer::toString() const
 /*****************************************************************************/
 {
 #ifdef _DEBUG
-    return "Outer(" + getArg1()->toString() + "," + getArg1()->toString() + ")";
+    return "Outer(" + getArg1()->toString() + "," + getArg2()->toString() + ")";
 #else
-    return "Outer(" + getArg1()->toString() + "," + getArg1()->toString() + ")";
+    return "Outer(" + getArg1()->toString() + "," + getArg2()->toString() + ")";
 #endif
 }
 /*****************************************************************************/
-- 
2.43.0


From a76c8704f32fca5e196cbeb614abf7c4d5e3f567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 09/71] fix: the product of a matrix and its inverse is the
 identity matrix, not the scalar 1

---
 symbolics/functions/Mul.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index ba065e2..c810e13 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -49,6 +49,16 @@ std::string Mul::toString() const
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+static BasicPtr power(BasicPtr const& base, BasicPtr const& exponent)
+/*****************************************************************************/
+{
+    // A*A^-1 is the identity matrix and not the scalar 1
+    if (exponent == Zero::getZero()) return Util::eye(base->getShape());
+    return BasicPtr(new Pow(base,exponent));
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 BasicPtr Mul::simplify()
 /*****************************************************************************/
@@ -208,7 +218,7 @@ BasicPtr Mul::simplify()
         {
             const Pow *c = Util::getAsConstPtr<Pow>(lastarg);
             if (dst[i] == c->getBase())
-              lastarg = BasicPtr(new Pow(dst[i],Add::New(c->getExponent(),Int::getOne())));
+              lastarg = power(dst[i],Add::New(c->getExponent(),Int::getOne()));
             else
             {
               addArg(lastarg->simplify());
@@ -219,7 +229,7 @@ BasicPtr Mul::simplify()
         {
             const Pow *c = Util::getAsConstPtr<Pow>(dst[i]);
             if (lastarg == c->getBase())
-              lastarg = BasicPtr(new Pow(lastarg,Add::New(c->getExponent(),Int::getOne())));
+              lastarg = power(lastarg,Add::New(c->getExponent(),Int::getOne()));
             else
             {
               addArg(lastarg->simplify());
-- 
2.43.0


From 331d8cb05884c078c702f46bbec96812eed071ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:18 +0000
Subject: [PATCH 10/71] fix: an inner product multiplied by a matrix must not
 be taken apart

---
 symbolics/functions/Mul.cpp | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index c810e13..291dee2 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -49,6 +49,18 @@ std::string Mul::toString() const
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+static bool is_InnerProduct(BasicPtr const& arg)
+/*****************************************************************************/
+{
+    // a scalar product of factors, which are not all scalars themselves
+    if ((arg->getType() != Type_Mul) || !arg->is_Scalar()) return false;
+    for (size_t i=0; i<arg->getArgsSize(); ++i)
+        if (!arg->getArg(i)->is_Scalar()) return true;
+    return false;
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 static BasicPtr power(BasicPtr const& base, BasicPtr const& exponent)
 /*****************************************************************************/
@@ -74,6 +86,16 @@ BasicPtr Mul::simplify()
     BasicPtrVec new_args;
     new_args.reserve(getArgsSize());
     std::list<BasicPtr> scalar_args;
+    // (a*b)*M must not be taken apart if a*b is an inner product: b*M and M*a need not exist
+    size_t nonscalars = 0;
+    for (size_t i=0; i<getArgsSize(); ++i)
+    {
+        BasicPtr arg = getArg(i);
+        if (arg->getType() == Type_Neg)
+            arg = arg->getArg(0);
+        if (!arg->is_Scalar() || is_InnerProduct(arg))
+            ++nonscalars;
+    }
     for (size_t i=0; i<getArgsSize(); ++i)
     {
         if (getArg(i)->getType() == Type_Zero)
@@ -83,7 +105,7 @@ BasicPtr Mul::simplify()
             addArg(Zero::getZero(m_shape));
             return getArg(0);
         }
-        else if (getArg(i)->getType() == Type_Mul)
+        else if ((getArg(i)->getType() == Type_Mul) && ((nonscalars < 2) || !is_InnerProduct(getArg(i))))
         {
             const Mul *a = Util::getAsConstPtr<Mul>(getArg(i));
             size_t argssize = a->getArgsSize();
@@ -101,7 +123,7 @@ BasicPtr Mul::simplify()
             const Neg *n = Util::getAsConstPtr<Neg>(getArg(i));
             BasicPtr narg = n->getArg();
             negate_me = !negate_me;
-            if (narg->getType() == Type_Mul)
+            if ((narg->getType() == Type_Mul) && ((nonscalars < 2) || !is_InnerProduct(narg)))
             {
                 const Mul *a = Util::getAsConstPtr<Mul>(narg);
                 size_t argssize = a->getArgsSize();
@@ -460,7 +482,10 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
             return BasicPtr(c);
         }
     }
-    if (lhs->getType() == Type_Mul)
+    // (a*b)*M must not be taken apart if a*b is an inner product
+    bool lhs_inner = is_InnerProduct(lhs) && (!rhs->is_Scalar() || is_InnerProduct(rhs));
+    bool rhs_inner = is_InnerProduct(rhs) && (!lhs->is_Scalar() || is_InnerProduct(lhs));
+    if ((lhs->getType() == Type_Mul) && !lhs_inner)
     {
         BasicPtrVec mulargs;
         const Mul *a = Util::getAsConstPtr<Mul>(lhs);
@@ -468,7 +493,7 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
         for (size_t j=0; j<argssize; ++j)
           mulargs.push_back(a->getArg(j));
 
-        if (rhs->getType() == Type_Mul)
+        if ((rhs->getType() == Type_Mul) && !rhs_inner)
         {
           const Mul *b = Util::getAsConstPtr<Mul>(rhs);
           size_t argssize = b->getArgsSize();
@@ -479,7 +504,7 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
             mulargs.push_back(rhs);
         return BasicPtr(new Mul(mulargs));
     }
-    if (rhs->getType() == Type_Mul)
+    if ((rhs->getType() == Type_Mul) && !rhs_inner)
     {
         BasicPtrVec mulargs;
         mulargs.push_back(lhs);
-- 
2.43.0


From 7d7b37e82caed75140b37adee259670b9b64b05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:18 +0000
Subject: [PATCH 11/71] fix: the inverse of a scalar is its reciprocal

---
 symbolics/functions/Inverse.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Inverse.cpp b/symbolics/functions/Inverse.cpp
index 665f9c0..8f2d95e 100644
--- a/symbolics/functions/Inverse.cpp
+++ b/symbolics/functions/Inverse.cpp
@@ -61,7 +61,7 @@ BasicPtr Inverse::simplify()
     
     // Ist es ein Skalar?
     if (getArg()->is_Scalar())
-        return getArg();
+        return Util::div(Int::getOne(), getArg());
 
     // simplify matrices
     switch(getArg()->getType())
@@ -92,7 +92,7 @@ BasicPtr Inverse::New( BasicPtr const& arg )
 {
     // Ist es ein Skalar?
     if (arg->is_Scalar())
-        return arg;
+        return Util::div(Int::getOne(), arg);
 
     // simplify matrices
     switch(arg->getType())
-- 
2.43.0


From ba4a6795ce9d4c71467b6e72e8d4c0ac584e4e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:26 +0000
Subject: [PATCH 12/71] fix: simplifying the transpose of a zero matrix must
 transpose its shape

---
 symbolics/functions/Transpose.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolics/functions/Transpose.cpp b/symbolics/functions/Transpose.cpp
index f942b41..eba6e62 100644
--- a/symbolics/functions/Transpose.cpp
+++ b/symbolics/functions/Transpose.cpp
@@ -63,8 +63,9 @@ BasicPtr Transpose::simplify()
     // simplify matrices
     switch(getArg()->getType())
     {
-	  case Type_Eye:
     case Type_Zero:
+        return Zero::getZero(m_shape);
+	  case Type_Eye:
     case Type_Int:
     case Type_Real:
         return getArg();
-- 
2.43.0


From a6ec55f8e5499d7d9b2aacab5f85c9f2d34a827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:58 +0000
Subject: [PATCH 13/71] fix: operands of the wrong shape must be rejected, also
 if the construction takes a shortcut

---
 symbolics/functions/Atan2.cpp   | 4 ++++
 symbolics/functions/Element.cpp | 3 +++
 symbolics/functions/If.cpp      | 4 ++++
 symbolics/functions/Inverse.cpp | 3 +++
 symbolics/functions/Outer.cpp   | 1 +
 symbolics/functions/Pow.cpp     | 5 +++++
 symbolics/functions/Scalar.cpp  | 4 ++++
 symbolics/functions/Skew.cpp    | 6 +++++-
 symbolics/functions/Solve.cpp   | 6 ++++++
 9 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/symbolics/functions/Atan2.cpp b/symbolics/functions/Atan2.cpp
index 3612ed6..b2d158c 100644
--- a/symbolics/functions/Atan2.cpp
+++ b/symbolics/functions/Atan2.cpp
@@ -161,6 +161,10 @@ BasicPtr Atan2::simplify()
 BasicPtr Atan2::New( BasicPtr const& arg1, BasicPtr const& arg2)
 /*****************************************************************************/
 {
+    // the same shapes as in validate, the shortcuts below do not get there
+    if (!arg1->is_Scalar() || !arg2->is_Scalar())
+      throw ShapeError("Atan2 - Both arguments must be scalar!");
+
     // fuer Konstanten einfach die Operation ausfuehren
     // Was haben wir denn als Argument?
     // Zero, Zero
diff --git a/symbolics/functions/Element.cpp b/symbolics/functions/Element.cpp
index 0b69b59..b7e2bf1 100644
--- a/symbolics/functions/Element.cpp
+++ b/symbolics/functions/Element.cpp
@@ -204,6 +204,9 @@ BasicPtr Element::New( BasicPtr const& arg, size_t zeroBasedRow, size_t zeroBase
     else
       throw InternalError("Cannot get Element[" + str(zeroBasedRow) + "," + str(zeroBasedCol) + "] from expression " + arg->toString());
   }
+  // the same range as in validate, the shortcuts below do not get there
+  if ((zeroBasedRow >= arg->getShape().getDimension(1)) || (zeroBasedCol >= arg->getShape().getDimension(2)))
+    throw IndexError("Element: Index outside range!");
   // simplify matrices
   switch(arg->getType())
   {
diff --git a/symbolics/functions/If.cpp b/symbolics/functions/If.cpp
index c4c09f5..bb28c4d 100644
--- a/symbolics/functions/If.cpp
+++ b/symbolics/functions/If.cpp
@@ -101,6 +101,10 @@ bool If::operator==(  Basic const& rhs ) const
 BasicPtr If::New( BasicPtr const& cond, BasicPtr const& arg1, BasicPtr const& arg2 )
 /*****************************************************************************/
 {
+    // the same shapes as in the constructor, the shortcut below does not get there
+    if (arg1->getShape() != arg2->getShape())
+        throw InternalError("If then exp has different shape as else exp!");
+
     // check cond
     if (cond->getType() == Type_Bool)
     {
diff --git a/symbolics/functions/Inverse.cpp b/symbolics/functions/Inverse.cpp
index 8f2d95e..a7ed69e 100644
--- a/symbolics/functions/Inverse.cpp
+++ b/symbolics/functions/Inverse.cpp
@@ -94,6 +94,9 @@ BasicPtr Inverse::New( BasicPtr const& arg )
     if (arg->is_Scalar())
         return Util::div(Int::getOne(), arg);
 
+    if (arg->getShape().getDimension(1) != arg->getShape().getDimension(2))
+        throw ShapeError("Inverse is only defined for square matrices! Shape of argument is " + arg->getShape().toString() + ".");
+
     // simplify matrices
     switch(arg->getType())
     {
diff --git a/symbolics/functions/Outer.cpp b/symbolics/functions/Outer.cpp
index ac3e986..8fca775 100644
--- a/symbolics/functions/Outer.cpp
+++ b/symbolics/functions/Outer.cpp
@@ -114,6 +114,7 @@ BasicPtr Outer::New( BasicPtr const& arg1, BasicPtr const& arg2 )
 	// simplify matrices
 	if ( (arg1->getType() == Type_Matrix) && (arg2->getType() == Type_Matrix) )
 	{
+		BasicPtr check( new Outer(arg1, arg2) ); // throws, if the shapes do not match
 		const Matrix *mat1 = Util::getAsConstPtr<Matrix>(arg1.get());
 		const Matrix *mat2 = Util::getAsConstPtr<Matrix>(arg2.get());
 		Matrix *mat3 = new Matrix( (*mat1)*mat2->transpose() );
diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index dbda999..7a8f9e3 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -253,6 +253,11 @@ BasicPtr Pow::simplify()
 BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
 /*****************************************************************************/
 {
+    // the same shapes as in validate, the shortcuts below do not get there
+    Shape const& s = arg1->getShape();
+    if (s.getDimension(1) != s.getDimension(2))
+        throw ShapeError("Pow is only defined for scalars and square matrices!");
+
     // if arg2 == 0, then return One
     if (arg2 == Zero::getZero() ) return Int::getOne();
     if (arg2 == Int::getOne() ) return arg1;
diff --git a/symbolics/functions/Scalar.cpp b/symbolics/functions/Scalar.cpp
index 9fc8709..366e11f 100644
--- a/symbolics/functions/Scalar.cpp
+++ b/symbolics/functions/Scalar.cpp
@@ -102,6 +102,10 @@ BasicPtr Scalar::simplify()
 BasicPtr Scalar::New(BasicPtr const& arg)
 /*****************************************************************************/
 {
+    // only one element, see validate
+    if (arg->getShape().getNumEl() != 1)
+        throw ShapeError("Scalar - Argument must have one element but has shape " + arg->getShape().toString() + "!");
+
     // if constant move sign into value
     switch (arg->getType())
     {
diff --git a/symbolics/functions/Skew.cpp b/symbolics/functions/Skew.cpp
index 2f1fef1..e09af00 100644
--- a/symbolics/functions/Skew.cpp
+++ b/symbolics/functions/Skew.cpp
@@ -38,7 +38,7 @@ void Skew::validate()
 /*****************************************************************************/
 {
     // Skew ist f�r 0 und einen 3x1 Vektor definiert
-    if ( (getArg() != Zero::getZero()) && (getArg()->getShape() != Shape(3)) )
+    if ( (getArg()->getShape() != Shape(3)) && !((getArg() == Zero::getZero()) && getArg()->is_Scalar()) )
     {
          std::string msg = "Skew is only defined for 3x1 Vectors! Shape of argument is " + getArg()->getShape().toString() + ".";
         throw ShapeError( msg.c_str() );
@@ -102,6 +102,10 @@ BasicPtr Skew::simplify()
 BasicPtr Skew::New( BasicPtr const& arg)
 /*****************************************************************************/
 {
+    // the same shapes as in validate, the shortcuts below do not get there
+    if ( (arg->getShape() != Shape(3)) && !(Util::is_Zero(arg) && arg->is_Scalar()) )
+        throw ShapeError("Skew is only defined for 3x1 Vectors! Shape of argument is " + arg->getShape().toString() + ".");
+
     // if zero, return zero
     if (Util::is_Zero(arg)) return Zero::getZero(Shape(3,3));
 
diff --git a/symbolics/functions/Solve.cpp b/symbolics/functions/Solve.cpp
index 0e4c21b..c1ab37c 100644
--- a/symbolics/functions/Solve.cpp
+++ b/symbolics/functions/Solve.cpp
@@ -107,6 +107,12 @@ BasicPtr Solve::simplify()
 BasicPtr Solve::New( BasicPtr const& arg1, BasicPtr const& arg2)
 /*****************************************************************************/
 {
+    // the same shapes as in validate, the shortcuts below do not get there
+    Shape const& s1 = arg1->getShape();
+    Shape const& s2 = arg2->getShape();
+    if ((s1.getDimension(1) != s1.getDimension(2)) || (s2.getDimension(2) != 1) || (s1.getDimension(1) != s2.getDimension(1)))
+        throw ShapeError("Solve: Shapes " + s1.toString() + " and " + s2.toString() + " do not match!");
+
     // b is zero
     if (Util::is_Zero(arg2))
     {
-- 
2.43.0


From df8ec83ae0e794728723249c13e805d243e761a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:25 +0000
Subject: [PATCH 14/71] fix: a zero vector or matrix with one element is not a
 scalar

---
 symbolics/Zero.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/Zero.cpp b/symbolics/Zero.cpp
index d22e29b..3484521 100644
--- a/symbolics/Zero.cpp
+++ b/symbolics/Zero.cpp
@@ -109,7 +109,7 @@ BasicPtr Zero::getExactZero(Shape const& s)
 BasicPtr Zero::getZero(Shape const& s)
 /*****************************************************************************/
 {
-    if (s.getNumEl() == 1)
+    if (s.getNrDimensions() == 0)
         return zero;
     return BasicPtr(new Zero(s));
 }
-- 
2.43.0


From b0f889084555f9c3000948fc736e7ca3af392b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 15/71] fix: Outer is defined for columns only, and tan of a
 1x1 zero matrix is one

---
 symbolics/functions/Outer.cpp | 4 ++--
 symbolics/functions/Tan.cpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/functions/Outer.cpp b/symbolics/functions/Outer.cpp
index 8fca775..fb6bec1 100644
--- a/symbolics/functions/Outer.cpp
+++ b/symbolics/functions/Outer.cpp
@@ -42,12 +42,12 @@ void Outer::validate()
     // Outer ist f�r 0 und einen nx1 Vektor definiert
 	Shape const& s = getArg1()->getShape();
 	const int n = s.getDimension(1);
-    if (!getArg1()->is_Vector())
+    if (!getArg1()->is_Vector() || (s.getDimension(2) != 1))
     {
         const std::string msg = "First Argument of Outer must be a nx1 Vector! Shape of argument is " + getArg1()->getShape().toString() + ".";
         throw ShapeError( msg.c_str() );
     }
-    if (!getArg2()->is_Vector())
+    if (!getArg2()->is_Vector() || (getArg2()->getShape().getDimension(2) != 1))
     {
         const std::string msg = "Second Argument of Outer must be a nx1 Vector! Shape of argument is " + getArg2()->getShape().toString() + ".";
         throw ShapeError( msg.c_str() );
diff --git a/symbolics/functions/Tan.cpp b/symbolics/functions/Tan.cpp
index aaaa33a..e98a53e 100644
--- a/symbolics/functions/Tan.cpp
+++ b/symbolics/functions/Tan.cpp
@@ -110,7 +110,7 @@ BasicPtr Tan::New( BasicPtr const& arg)
 /*****************************************************************************/
 {
     // if zero, return zero
-    if (arg == Zero::getZero()) return Zero::getZero();
+    if (arg == Zero::getZero()) return Zero::getZero(arg->getShape());
 
     // simplify matrices
     switch(arg->getType())
-- 
2.43.0


From b86d606acd46704ba399e426e45e81665d359946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:47 +0000
Subject: [PATCH 16/71] fix: a sum keeps its shape when its vectors and
 matrices cancel

---
 symbolics/functions/Add.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/symbolics/functions/Add.cpp b/symbolics/functions/Add.cpp
index 3b5024c..09686f4 100644
--- a/symbolics/functions/Add.cpp
+++ b/symbolics/functions/Add.cpp
@@ -240,6 +240,15 @@ BasicPtr Add::simplify()
         addArg(Zero::getZero(m_shape));
         return getArg(0);
     }
+    // If all vectors and matrices cancel, the scalars alone do not have the shape of the sum
+    if (!is_Scalar())
+    {
+      Shape s;
+      for (size_t i=0; i<other_args1.size(); ++i)
+        s += other_args1[i]->getShape();
+      if (s != m_shape)
+        other_args1.push_back(Zero::getZero(m_shape));
+    }
     clearArgs();
     reserveArgs( other_args1.size() );
     // combine Matrix args
-- 
2.43.0


From 52d0e02777862774401eaec5bf1723ed048144be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:38 +0000
Subject: [PATCH 17/71] fix: the solution of a linear system has the shape of
 its right-hand side

---
 symbolics/functions/Solve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/functions/Solve.cpp b/symbolics/functions/Solve.cpp
index c1ab37c..48e3817 100644
--- a/symbolics/functions/Solve.cpp
+++ b/symbolics/functions/Solve.cpp
@@ -56,7 +56,7 @@ void Solve::validate()
         throw ShapeError(msg.c_str());
     }
     // Shape berechnen
-    m_shape = Shape(s1.getDimension(2));
+    m_shape = s2;
 }
 /*****************************************************************************/
 
-- 
2.43.0


From 9d1b77bcedacfa46e0abafc5e378e6c760972160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:44 +0000
Subject: [PATCH 18/71] fix: the derivative of an outer product follows the
 product rule

---
 symbolics/functions/Outer.cpp       | 21 ++++++++++++++++++++-
 symbolics/functions/include/Outer.h |  4 ++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/symbolics/functions/Outer.cpp b/symbolics/functions/Outer.cpp
index fb6bec1..2f38273 100644
--- a/symbolics/functions/Outer.cpp
+++ b/symbolics/functions/Outer.cpp
@@ -1,4 +1,5 @@
 #include "Outer.h"
+#include "Add.h"
 #include "Matrix.h"
 #include "Neg.h"
 #include "Util.h"
@@ -123,4 +124,22 @@ BasicPtr Outer::New( BasicPtr const& arg1, BasicPtr const& arg2 )
 
     return BasicPtr(new Outer(arg1, arg2));
 }
-/*****************************************************************************/
\ No newline at end of file
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Outer::der()
+/*****************************************************************************/
+{
+  // der(outer(a,b)) = outer(der(a),b) + outer(a,der(b))
+  return Add::New(New(getArg1()->der(), getArg2()), New(getArg1(), getArg2()->der()));
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Outer::der(BasicPtr const& symbol)
+/*****************************************************************************/
+{
+  // der(outer(a,b)) = outer(der(a),b) + outer(a,der(b))
+  return Add::New(New(getArg1()->der(symbol), getArg2()), New(getArg1(), getArg2()->der(symbol)));
+}
+/*****************************************************************************/
diff --git a/symbolics/functions/include/Outer.h b/symbolics/functions/include/Outer.h
index 28af848..f0bf05f 100644
--- a/symbolics/functions/include/Outer.h
+++ b/symbolics/functions/include/Outer.h
@@ -25,8 +25,8 @@ namespace Symbolics
         static BasicPtr New( BasicPtr const& arg1, BasicPtr const& arg2 );
 
         // derivative
-        inline BasicPtr der() { return New(getArg1()->der(), getArg2()->der()); };
-        inline BasicPtr der(BasicPtr const& symbol) { return New(getArg1()->der(symbol), getArg2()->der(symbol)); };
+        BasicPtr der();
+        BasicPtr der(BasicPtr const& symbol);
 
 	protected:
 		void validate();
-- 
2.43.0


From b4a1a747b0c64f990ba3ad77d0487444046936bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:44 +0000
Subject: [PATCH 19/71] fix: differentiating the inverse of a matrix must not
 recurse for ever

---
 symbolics/functions/Inverse.cpp       | 21 ++++++++++++++++++++-
 symbolics/functions/include/Inverse.h |  4 ++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/symbolics/functions/Inverse.cpp b/symbolics/functions/Inverse.cpp
index a7ed69e..4a7c13c 100644
--- a/symbolics/functions/Inverse.cpp
+++ b/symbolics/functions/Inverse.cpp
@@ -1,4 +1,5 @@
 #include "Inverse.h"
+#include "Mul.h"
 #include "Matrix.h"
 #include "Util.h"
 #include "Neg.h"
@@ -119,4 +120,22 @@ BasicPtr Inverse::New( BasicPtr const& arg )
     }
     return BasicPtr( new Inverse(arg) );
 }
-/*****************************************************************************/
\ No newline at end of file
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Inverse::der()
+/*****************************************************************************/
+{
+  // der(inv(A)) = -inv(A)*der(A)*inv(A)
+  return Neg::New(Mul::New(BasicPtr(this), Mul::New(getArg()->der(), BasicPtr(this))));
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Inverse::der(BasicPtr const& symbol)
+/*****************************************************************************/
+{
+  // der(inv(A)) = -inv(A)*der(A)*inv(A)
+  return Neg::New(Mul::New(BasicPtr(this), Mul::New(getArg()->der(symbol), BasicPtr(this))));
+}
+/*****************************************************************************/
diff --git a/symbolics/functions/include/Inverse.h b/symbolics/functions/include/Inverse.h
index 79da607..5310ad6 100644
--- a/symbolics/functions/include/Inverse.h
+++ b/symbolics/functions/include/Inverse.h
@@ -26,8 +26,8 @@ namespace Symbolics
 		    static BasicPtr New( BasicPtr const& arg );
 
         // derivative
-        inline BasicPtr der() { return Der::New(BasicPtr(this)); };
-        inline BasicPtr der(BasicPtr const& symbol) { return Der::New(BasicPtr(this)); };
+        BasicPtr der();
+        BasicPtr der(BasicPtr const& symbol);
 
     };
 
-- 
2.43.0


From 410d8c39af587fa320cf68c85408f34dc9b130f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:44 +0000
Subject: [PATCH 20/71] fix: the partial derivative of a sign is zero

---
 symbolics/functions/Sign.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolics/functions/Sign.cpp b/symbolics/functions/Sign.cpp
index 3bfbe65..a8b98b6 100644
--- a/symbolics/functions/Sign.cpp
+++ b/symbolics/functions/Sign.cpp
@@ -157,6 +157,7 @@ inline BasicPtr Sign::der()
 inline BasicPtr Sign::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {
-  return New(getArg()->der(symbol));
+  // constant wherever it is differentiable
+  return Zero::getZero(m_shape);
 }
 /*****************************************************************************/
\ No newline at end of file
-- 
2.43.0


From 73edc1ad27626cf3bb0a39eb879e1517fa9418b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:44 +0000
Subject: [PATCH 21/71] fix: the derivative of atan2(y,x) has the wrong sign

---
 symbolics/functions/Atan2.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/symbolics/functions/Atan2.cpp b/symbolics/functions/Atan2.cpp
index b2d158c..7dc1de9 100644
--- a/symbolics/functions/Atan2.cpp
+++ b/symbolics/functions/Atan2.cpp
@@ -247,9 +247,9 @@ BasicPtr Atan2::New( BasicPtr const& arg1, BasicPtr const& arg2)
 BasicPtr Atan2::der()
 /*****************************************************************************/
 {   
-    // der(atan2(x,y)) = der(y/x) / (1+(y/x)^2 )
-  BasicPtr ydx = Util::div(getArg2(),getArg1());
-  return Mul::New(ydx->der(),Pow::New(Add::New(Int::getOne(),Pow::New(ydx,Int::New(2))),Int::getMinusOne())); 
+  // der(atan2(y,x)) = (der(y)*x - y*der(x)) / (x^2 + y^2)
+  BasicPtr num = Add::New(Mul::New(getArg1()->der(),getArg2()),Neg::New(Mul::New(getArg1(),getArg2()->der())));
+  return Util::div(num,Add::New(Pow::New(getArg1(),Int::New(2)),Pow::New(getArg2(),Int::New(2))));
 }
 /*****************************************************************************/
 
@@ -257,8 +257,8 @@ BasicPtr Atan2::der()
 BasicPtr Atan2::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {   
-    // der(atan2(x,y)) = der(y/x) / (1+(y/x)^2 )
-  BasicPtr ydx = Util::div(getArg2(),getArg1());
-  return Mul::New(ydx->der(symbol),Pow::New(Add::New(Int::getOne(),Pow::New(ydx,Int::New(2))),Int::getMinusOne())); 
+  // der(atan2(y,x)) = (der(y)*x - y*der(x)) / (x^2 + y^2)
+  BasicPtr num = Add::New(Mul::New(getArg1()->der(symbol),getArg2()),Neg::New(Mul::New(getArg1(),getArg2()->der(symbol))));
+  return Util::div(num,Add::New(Pow::New(getArg1(),Int::New(2)),Pow::New(getArg2(),Int::New(2))));
 }
 /*****************************************************************************/
\ No newline at end of file
-- 
2.43.0


From c53337df337246f1b56a41b307ecceb96a58bb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:35 +0000
Subject: [PATCH 22/71] fix: differentiating a matrix power keeps the order of
 its factors

---
 symbolics/functions/Pow.cpp       | 33 +++++++++++++++++++++++++++++++
 symbolics/functions/include/Pow.h |  1 +
 2 files changed, 34 insertions(+)

diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index 7a8f9e3..40f2e0f 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -405,6 +405,8 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
 inline BasicPtr Pow::der()
 /*****************************************************************************/
 {
+  if (!getBase()->is_Scalar())
+    return derMatrix(getBase()->der());
   // pow(x,y) = der(x)*y*pow(x,y-1)
   return Mul::New(getExponent(),Mul::New(getBase()->der(),New(getBase(),Add::New(getExponent(),Int::getMinusOne()))));
 }
@@ -414,7 +416,38 @@ inline BasicPtr Pow::der()
 inline BasicPtr Pow::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {
+  if (!getBase()->is_Scalar())
+    return derMatrix(getBase()->der(symbol));
   // pow(x,y) = der(x)*y*pow(x,y-1)
   return Mul::New(getExponent(),Mul::New(getBase()->der(symbol),New(getBase(),Add::New(getExponent(),Int::getMinusOne()))));
 }
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Pow::derMatrix(BasicPtr const& dbase) const
+/*****************************************************************************/
+{
+  // the factors of a matrix power do not commute with the derivative:
+  // der(A^n) = sum of A^i*der(A)*A^(n-1-i), der(A^-n) = -A^-n*der(A^n)*A^-n
+  int n = 0;
+  if (getExponent()->getType() == Type_Int)
+    n = Util::getAsConstPtr<Int>(getExponent())->getValue();
+  else if (getExponent()->getType() == Type_Real)
+    n = static_cast<int>(Util::getAsConstPtr<Real>(getExponent())->getValue());
+  if ((n == 0) || !(getExponent() == Int::New(n)))
+    throw InternalError("Derivative of " + toString() + " is not supported!");
+  bool negative = n < 0;
+  if (negative) n = -n;
+  BasicPtr sum = Zero::getZero(m_shape);
+  for (int i=0;i<n;++i)
+  {
+    BasicPtr term = dbase;
+    if (i > 0) term = Mul::New(New(getBase(),Int::New(i)),term);
+    if (i < n-1) term = Mul::New(term,New(getBase(),Int::New(n-1-i)));
+    sum = Add::New(sum,term);
+  }
+  if (!negative) return sum;
+  BasicPtr inv = New(getBase(),getExponent());
+  return Neg::New(Mul::New(inv,Mul::New(sum,inv)));
+}
 /*****************************************************************************/
\ No newline at end of file
diff --git a/symbolics/functions/include/Pow.h b/symbolics/functions/include/Pow.h
index 8b5a3ae..d5ba06d 100644
--- a/symbolics/functions/include/Pow.h
+++ b/symbolics/functions/include/Pow.h
@@ -38,6 +38,7 @@ namespace Symbolics
 
 	protected:
 		void validate();
+		BasicPtr derMatrix(BasicPtr const& dbase) const;
     };
 
     typedef boost::intrusive_ptr< Pow> ConstPowPtr;
-- 
2.43.0


From e6f3aeaa56ec7ff8edc60409790a0177d28b1db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:35 +0000
Subject: [PATCH 23/71] fix: the derivative of an identity matrix is zero

---
 symbolics/functions/Der.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Der.cpp b/symbolics/functions/Der.cpp
index 9a087ba..381cc36 100644
--- a/symbolics/functions/Der.cpp
+++ b/symbolics/functions/Der.cpp
@@ -55,8 +55,9 @@ BasicPtr Der::simplify()
   switch( getArg()->getType())
   {
   case Type_Zero:
-  case Type_Eye:
         return getArg();
+  case Type_Eye:
+        return Zero::getZero(getArg()->getShape());
   case Type_Int:
   case Type_Real:
         return Zero::getZero();
@@ -80,8 +81,9 @@ BasicPtr Der::New( BasicPtr const& arg)
   switch( arg->getType())
   {
   case Type_Zero:
-  case Type_Eye:
         return arg;
+  case Type_Eye:
+        return Zero::getZero(arg->getShape());
   case Type_Int:
   case Type_Real:
         return Zero::getZero();
-- 
2.43.0


From 9e2e8a2a40412c161549c2ff5fea673695d1d997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:40 +0000
Subject: [PATCH 24/71] fix: simplifying a Jacobian transposes it

---
 symbolics/functions/Jacobian.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/symbolics/functions/Jacobian.cpp b/symbolics/functions/Jacobian.cpp
index b2c1c87..e73b308 100644
--- a/symbolics/functions/Jacobian.cpp
+++ b/symbolics/functions/Jacobian.cpp
@@ -41,8 +41,10 @@ void Jacobian::validate()
   if (!getArg2()->is_Vector())
     throw InternalError("Jacobian could only be uses with Vector as second argument!");
 
-  m_shape = Shape(getArg1()->getShape().getNumEl(),getArg2()->getShape().getNumEl());
-
+  if (getArg1()->is_Scalar()) // Wir leiten einen Skalar ab => Vektor mit Shape(1,n)
+    m_shape = Shape(1,1,getArg2()->getShape().getNumEl());
+  else
+    m_shape = Shape(getArg1()->getShape().getNumEl(),getArg2()->getShape().getNumEl());
 }
 /*****************************************************************************/
 
@@ -76,7 +78,7 @@ BasicPtr Jacobian::simplify()
     vec.reserve(numelem);
     for (size_t i=0;i<numelem;++i)
       vec.push_back(getArg1()->der(getArg2()->getArg(i))->simplify());
-    return BasicPtr(new Matrix(vec,Shape(numelem)));
+    return BasicPtr(new Matrix(vec,m_shape));
   }
   else if (Util::is_Const(getArg1()))
   {
@@ -87,7 +89,7 @@ BasicPtr Jacobian::simplify()
     Matrix *mat = new Matrix(m_shape);
     for (size_t i=0;i<getArg2()->getShape().getNumEl();++i)
       for (size_t j=0;j<getArg1()->getShape().getNumEl();++j)
-        mat->set(i,j,getArg1()->getArg(j)->der(getArg2()->getArg(i))->simplify());
+        mat->set(j,i,getArg1()->getArg(j)->der(getArg2()->getArg(i))->simplify());
     return BasicPtr(mat);
   }
   m_simplified = true;
-- 
2.43.0


From a4af0fa5bf0780ee97d0c27f5b8618e8fcc24b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:11 +0000
Subject: [PATCH 25/71] fix: substituting in or taking an element of a product
 with Sign, Inverse, Outer or Jacobian fails

---
 symbolics/Factory.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/symbolics/Factory.cpp b/symbolics/Factory.cpp
index dcf17b8..b97dc71 100644
--- a/symbolics/Factory.cpp
+++ b/symbolics/Factory.cpp
@@ -158,6 +158,14 @@ BasicPtr Factory::newBasic( Basic_Type type,  BasicPtrVec &args, Shape const& sh
         return BasicPtr( new Equal(args) );
     case Type_If:
         return BasicPtr( new If(args) );
+    case Type_Sign:
+        return BasicPtr( new Sign(args) );
+    case Type_Inverse:
+        return BasicPtr( new Inverse(args) );
+    case Type_Outer:
+        return BasicPtr( new Outer(args) );
+    case Type_Jacobian:
+        return BasicPtr( new Jacobian(args) );
     case Type_Unknown:
         throw InternalError("Unknown is not supported by Factory!");
     case Type_Tan:
-- 
2.43.0


From 8a81d7af65a1d9e577d328c6a6a6261d7186f253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:40 +0000
Subject: [PATCH 26/71] fix: objects of different shape are never equal

---
 symbolics/Eye.cpp        | 107 ++++++---------------------------------
 symbolics/Int.cpp        |   2 +-
 symbolics/Real.cpp       |   2 +-
 symbolics/Symbol.cpp     |   2 +-
 symbolics/Zero.cpp       |  62 ++++-------------------
 symbolics/include/Eye.h  |   2 +-
 symbolics/include/Zero.h |   2 +-
 7 files changed, 32 insertions(+), 147 deletions(-)

diff --git a/symbolics/Eye.cpp b/symbolics/Eye.cpp
index 86a765e..65dbc5d 100644
--- a/symbolics/Eye.cpp
+++ b/symbolics/Eye.cpp
@@ -46,6 +46,9 @@ Eye::~Eye()
 bool Eye::operator==(  Basic const& rhs ) const
 /*****************************************************************************/
 {
+    // objects of different shape are never equal
+    if (m_shape != rhs.getShape())
+        return false;
     // Typ pruefen
     switch (rhs.getType())
     {
@@ -54,12 +57,12 @@ bool Eye::operator==(  Basic const& rhs ) const
     case Type_Int:
         {
             const Int &i = dynamic_cast<const Int&>(rhs);
-            return 0 == i.getValue();
+            return 1 == i.getValue();
         }
     case Type_Real:
         {
             const Real &r = dynamic_cast<const Real&>(rhs);
-            return 0 == r.getValue();
+            return 1 == r.getValue();
         }
     case Type_Matrix:
       {
@@ -82,7 +85,7 @@ bool Eye::operator==(  Basic const& rhs ) const
         for (size_t i=0; i<dim1; ++i)
           for (size_t j=0; j<dim2; ++j)
             if (i!=j)
-              if (mat.get(i,i) != Int::getZero())
+              if (mat.get(i,j) != Int::getZero())
                 return false;
         return true;
       }
@@ -119,6 +122,9 @@ BasicPtr Eye::getEye(Shape const& s)
 bool Symbolics::operator== (Eye const& lhs, BasicPtr  const& rhs)
 /*****************************************************************************/
 {
+    // objects of different shape are never equal
+    if (lhs.getShape() != rhs->getShape())
+        return false;
     if (rhs->getType() == Type_Eye)
     {
         return true;
@@ -157,7 +163,7 @@ bool Symbolics::operator== (Eye const& lhs, BasicPtr  const& rhs)
         for (size_t i=0; i<dim1; ++i)
             for (size_t j=0; j<dim2; ++j)
             if (i!=j)
-                if (mat->get(i,i) != Int::getZero())
+                if (mat->get(i,j) != Int::getZero())
                 return false;
         return true;
     }
@@ -169,6 +175,9 @@ bool Symbolics::operator== (Eye const& lhs, BasicPtr  const& rhs)
 bool Symbolics::operator== (BasicPtr const& lhs, Eye  const& rhs)
 /*****************************************************************************/
 {
+    // objects of different shape are never equal
+    if (lhs->getShape() != rhs.getShape())
+        return false;
     if (lhs->getType() == Type_Eye)
     {
         return true;
@@ -207,7 +216,7 @@ bool Symbolics::operator== (BasicPtr const& lhs, Eye  const& rhs)
         for (size_t i=0; i<dim1; ++i)
             for (size_t j=0; j<dim2; ++j)
             if (i!=j)
-                if (mat->get(i,i) != Int::getZero())
+                if (mat->get(i,j) != Int::getZero())
                 return false;
         return true;
     }
@@ -219,49 +228,7 @@ bool Symbolics::operator== (BasicPtr const& lhs, Eye  const& rhs)
 bool Symbolics::operator!= (Eye const& lhs, BasicPtr  const& rhs)
 /*****************************************************************************/
 {
-    if (rhs->getType() == Type_Eye)
-    {
-        return false;
-
-    }
-    if (rhs->getType() == Type_Int)
-    {
-        const Int *crhs = Util::getAsConstPtr<Int>(rhs);
-        return 1 != (*crhs).getValue();
-
-    }
-    if (rhs->getType() == Type_Real)
-    {
-        const Real *crhs = Util::getAsConstPtr<Real>(rhs);
-        return 1 != (*crhs).getValue();
-
-    }
-    if(rhs->getType() ==  Type_Matrix)
-    {
-        const Matrix *mat = Util::getAsConstPtr<Matrix>(rhs);
-        if (mat->is_Vector())
-        {
-            size_t elem = mat->getShape().getNumEl();
-            for (size_t i=0; i<elem; ++i)
-            if (mat->get(i) != Int::getOne())
-                return true;
-            return false;
-        }
-        size_t dim1 = mat->getShape().getDimension(1);
-        size_t dim2 = mat->getShape().getDimension(2);
-        if (dim1 != dim2)
-            return true;
-        for (size_t i=0; i<dim1; ++i)
-            if (mat->get(i,i) != Int::getOne())
-                return true;
-        for (size_t i=0; i<dim1; ++i)
-            for (size_t j=0; j<dim2; ++j)
-            if (i!=j)
-                if (mat->get(i,i) != Int::getZero())
-                    return true;
-        return false;
-    }
-    return true;
+    return !(lhs == rhs);
 }
 /*****************************************************************************/
 
@@ -269,48 +236,6 @@ bool Symbolics::operator!= (Eye const& lhs, BasicPtr  const& rhs)
 bool Symbolics::operator!= (BasicPtr const& lhs, Eye  const& rhs)
 /*****************************************************************************/
 {
-    if (lhs->getType() == Type_Eye)
-    {
-        return false;
-
-    }
-    if (lhs->getType() == Type_Int)
-    {
-        const Int *clhs = Util::getAsConstPtr<Int>(lhs);
-        return 1 != (*clhs).getValue();
-
-    }
-    if (lhs->getType() == Type_Real)
-    {
-        const Real *clhs = Util::getAsConstPtr<Real>(lhs);
-        return 1 != (*clhs).getValue();
-
-    }
-    if(lhs->getType() ==  Type_Matrix)
-    {
-        const Matrix *mat = Util::getAsConstPtr<Matrix>(lhs);
-        if (mat->is_Vector())
-        {
-            size_t elem = mat->getShape().getNumEl();
-            for (size_t i=0; i<elem; ++i)
-            if (mat->get(i) != Int::getOne())
-                return true;
-            return false;
-        }
-        size_t dim1 = mat->getShape().getDimension(1);
-        size_t dim2 = mat->getShape().getDimension(2);
-        if (dim1 != dim2)
-            return true;
-        for (size_t i=0; i<dim1; ++i)
-            if (mat->get(i,i) != Int::getOne())
-                return true;
-        for (size_t i=0; i<dim1; ++i)
-            for (size_t j=0; j<dim2; ++j)
-            if (i!=j)
-                if (mat->get(i,i) != Int::getZero())
-                    return true;
-        return false;
-    }
-    return true;
+    return !(lhs == rhs);
 }
 /*****************************************************************************/
diff --git a/symbolics/Int.cpp b/symbolics/Int.cpp
index 44d2004..2e539a7 100644
--- a/symbolics/Int.cpp
+++ b/symbolics/Int.cpp
@@ -79,7 +79,7 @@ bool Int::operator==(  Basic const& rhs ) const
     {
     case Type_Zero:
         {
-            if (m_shape != rhs.getShape()) return true;
+            if (m_shape != rhs.getShape()) return false;
             return m_value == 0;
         }
     case Type_Bool:
diff --git a/symbolics/Real.cpp b/symbolics/Real.cpp
index 337a7dc..1fb5e1f 100644
--- a/symbolics/Real.cpp
+++ b/symbolics/Real.cpp
@@ -65,7 +65,7 @@ bool Real::operator==(  Basic const& rhs ) const
     {
     case Type_Zero:
         {
-            if (m_shape != rhs.getShape()) return true;
+            if (m_shape != rhs.getShape()) return false;
             return m_value == 0.0;
         }
     case Type_Bool:
diff --git a/symbolics/Symbol.cpp b/symbolics/Symbol.cpp
index 6ec8bad..e4be723 100644
--- a/symbolics/Symbol.cpp
+++ b/symbolics/Symbol.cpp
@@ -91,7 +91,7 @@ bool Symbol::operator==(  Basic const& rhs ) const
     const Symbol *symbol = dynamic_cast<const Symbol*>(&rhs);
     if (symbol == NULL) return false;
 
-    return getName() == symbol->getName();
+    return (getName() == symbol->getName()) && (getShape() == symbol->getShape());
 }
 /*****************************************************************************/
 
diff --git a/symbolics/Zero.cpp b/symbolics/Zero.cpp
index 3484521..c61f251 100644
--- a/symbolics/Zero.cpp
+++ b/symbolics/Zero.cpp
@@ -46,6 +46,9 @@ Zero::~Zero()
 bool Zero::operator==(  Basic const& rhs ) const
 /*****************************************************************************/
 {
+    // objects of different shape are never equal
+    if (m_shape != rhs.getShape())
+        return false;
     // Typ pruefen
     switch (rhs.getType())
     {
@@ -120,6 +123,9 @@ BasicPtr Zero::getZero(Shape const& s)
 bool Symbolics::operator== (Zero const& lhs, BasicPtr  const& rhs)
 /*****************************************************************************/
 {
+    // objects of different shape are never equal
+    if (lhs.getShape() != rhs->getShape())
+        return false;
     if (rhs->getType() == Type_Zero)
     {
         return lhs.getShape() == rhs->getShape();
@@ -152,6 +158,9 @@ bool Symbolics::operator== (Zero const& lhs, BasicPtr  const& rhs)
 bool Symbolics::operator== (BasicPtr const& lhs, Zero  const& rhs)
 /*****************************************************************************/
 {
+    // objects of different shape are never equal
+    if (lhs->getShape() != rhs.getShape())
+        return false;
     if (lhs->getType() == Type_Zero)
     {
         return lhs->getShape() == rhs.getShape();
@@ -185,62 +194,13 @@ bool Symbolics::operator== (BasicPtr const& lhs, Zero  const& rhs)
 bool Symbolics::operator!= (Zero const& lhs, BasicPtr  const& rhs)
 /*****************************************************************************/
 {
-    if (rhs->getType() == Type_Zero)
-    {
-        return lhs.getShape() != rhs->getShape();
-    }
-    if (rhs->getType() == Type_Int)
-    {
-        const Int *crhs = Util::getAsConstPtr<Int>(rhs);
-        return 0 != (*crhs).getValue();
-
-    }
-    if (rhs->getType() == Type_Real)
-    {
-        const Real *crhs = Util::getAsConstPtr<Real>(rhs);
-        return 0 != (*crhs).getValue();
-
-    }
-    if (rhs->getType() == Type_Matrix)
-    {
-        size_t argssize = rhs->getArgsSize();
-        for (size_t i=0;i<argssize;++i)
-          if ((rhs->getArg(i) != Zero::getZero()))
-                return true;
-        return false;
-    }
-    return true;
+    return !(lhs == rhs);
 }
 /*****************************************************************************/
 /*****************************************************************************/
 bool Symbolics::operator!= (BasicPtr const& lhs, Zero  const& rhs)
 /*****************************************************************************/
 {
-    if (lhs->getType() == Type_Zero)
-    {
-        return lhs->getShape() != rhs.getShape();;
-
-    }
-    if (lhs->getType() == Type_Int)
-    {
-        const Int *clhs = Util::getAsConstPtr<Int>(lhs);
-        return 0 != (*clhs).getValue();
-
-    }
-    if (lhs->getType() == Type_Real)
-    {
-        const Real *clhs = Util::getAsConstPtr<Real>(lhs);
-        return 0 != (*clhs).getValue();
-
-    }
-    if (lhs->getType() == Type_Matrix)
-    {
-        size_t argssize = lhs->getArgsSize();
-        for (size_t i=0;i<argssize;++i)
-          if ((lhs->getArg(i) != Zero::getZero()))
-                return true;
-        return false;
-    }
-    return true;
+    return !(lhs == rhs);
 }
 /*****************************************************************************/
diff --git a/symbolics/include/Eye.h b/symbolics/include/Eye.h
index 9ccacbf..e339917 100644
--- a/symbolics/include/Eye.h
+++ b/symbolics/include/Eye.h
@@ -21,7 +21,7 @@ namespace Symbolics
         inline BasicPtr simplify() { return BasicPtr(this); };
 
         bool operator==(  Basic const& rhs ) const;
-        bool operator!=(  Basic const& rhs ) const { return m_type != rhs.getType(); };
+        bool operator!=(  Basic const& rhs ) const { return !(*this == rhs); };
         bool operator<(Basic const& rhs) const { return m_type < rhs.getType(); };
 
         template< typename T >
diff --git a/symbolics/include/Zero.h b/symbolics/include/Zero.h
index 080d415..c07296a 100644
--- a/symbolics/include/Zero.h
+++ b/symbolics/include/Zero.h
@@ -20,7 +20,7 @@ namespace Symbolics
         inline BasicPtr simplify() { return BasicPtr(this); };
 
         bool operator==(  Basic const& rhs ) const;
-        bool operator!=(  Basic const& rhs ) const { return m_type != rhs.getType(); };
+        bool operator!=(  Basic const& rhs ) const { return !(*this == rhs); };
         bool operator<( Basic const& rhs ) const { return m_type < rhs.getType(); };
 
         template< typename T >
-- 
2.43.0


From 70e96965ca73962aee584df1788acb66c05a89b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:40 +0000
Subject: [PATCH 27/71] fix: a product whose only scalar factor is not the
 first one does not equal itself

---
 symbolics/functions/Mul.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index 291dee2..b747d66 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -333,7 +333,7 @@ bool Mul::operator==(  Basic const& rhs ) const
     case 0:
         return true;
     case 1:
-        return (m_scalars[0] == mul->getArg(0));
+        return (m_scalars[0] == rhs_scalars[0]);
     case 2:
         return (((m_scalars[0] == rhs_scalars[0]) && (m_scalars[1] == rhs_scalars[1])) ||
                 ((m_scalars[0] == rhs_scalars[1]) && (m_scalars[1] == rhs_scalars[0])));
-- 
2.43.0


From 055459b14a96c2fe23394e7ae6f7f6839faa94a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:40 +0000
Subject: [PATCH 28/71] fix: a number is unequal to an expression of another
 type

---
 symbolics/Int.cpp  | 4 ++--
 symbolics/Real.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/symbolics/Int.cpp b/symbolics/Int.cpp
index 2e539a7..a9e4b6f 100644
--- a/symbolics/Int.cpp
+++ b/symbolics/Int.cpp
@@ -331,7 +331,7 @@ bool Symbolics::operator!= (Int const& lhs, BasicPtr  const& rhs)
         return lhs.getValue() != (*crhs).getValue();
 
     }
-    return false;
+    return true;
 }
 /*****************************************************************************/
 /*****************************************************************************/
@@ -344,7 +344,7 @@ bool Symbolics::operator!= (BasicPtr const& lhs, Int  const& rhs)
         return (*clhs).getValue() != rhs.getValue();
 
     }
-    return false;
+    return true;
 }
 /*****************************************************************************/
 
diff --git a/symbolics/Real.cpp b/symbolics/Real.cpp
index 1fb5e1f..50d2535 100644
--- a/symbolics/Real.cpp
+++ b/symbolics/Real.cpp
@@ -317,7 +317,7 @@ bool Symbolics::operator!= (Real const& lhs, BasicPtr  const& rhs)
         return lhs.getValue() != (*crhs).getValue();
 
     }
-    return false;
+    return true;
 }
 /*****************************************************************************/
 /*****************************************************************************/
@@ -330,7 +330,7 @@ bool Symbolics::operator!= (BasicPtr const& lhs, Real  const& rhs)
         return (*clhs).getValue() != rhs.getValue();
 
     }
-    return false;
+    return true;
 }
 /*****************************************************************************/
 
-- 
2.43.0


From cf286e82ee8f440668394675d25efd506c239cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 29/71] fix: the ordering of expressions is a strict weak order
 consistent with equality

---
 symbolics/BinaryOp.cpp            |  7 +--
 symbolics/NaryOp.cpp              | 43 +++++++++++++--
 symbolics/UnaryOp.cpp             |  3 +-
 symbolics/functions/Operators.cpp | 89 ++++++++++++++++---------------
 symbolics/include/NaryOp.h        |  2 +
 5 files changed, 94 insertions(+), 50 deletions(-)

diff --git a/symbolics/BinaryOp.cpp b/symbolics/BinaryOp.cpp
index 449e313..83800bb 100644
--- a/symbolics/BinaryOp.cpp
+++ b/symbolics/BinaryOp.cpp
@@ -1,6 +1,7 @@
 #include "BinaryOp.h"
 #include "str.h"
 #include "Factory.h"
+#include "Operators.h"
 
 using namespace Symbolics;
 
@@ -86,9 +87,9 @@ bool BinaryOp::operator<(Basic const& rhs) const
     BasicPtr rhsArg2(binaryop.getArg2()); 
 
     // Args vergleichen
-    if ((*getArg1().get()) == (*rhsArg1.get()))
-        return (*getArg2().get()) < (*rhsArg2.get());
-    return (*getArg1().get()) < (*rhsArg1.get());
+    if (getArg1() == rhsArg1)
+        return Symbolics::operator<(getArg2(), rhsArg2);
+    return Symbolics::operator<(getArg1(), rhsArg1);
 }
 /*****************************************************************************/
 
diff --git a/symbolics/NaryOp.cpp b/symbolics/NaryOp.cpp
index fc7d660..5cdd30b 100644
--- a/symbolics/NaryOp.cpp
+++ b/symbolics/NaryOp.cpp
@@ -1,5 +1,7 @@
 #include "NaryOp.h"
 #include "Factory.h"
+#include "Operators.h"
+#include <algorithm>
 
 using namespace Symbolics;
 
@@ -131,6 +133,38 @@ bool NaryOp::operator ==( Basic const& rhs) const
 /*****************************************************************************/
 
 
+/*****************************************************************************/
+static bool argLess(BasicPtr const& lhs, BasicPtr const& rhs)
+/*****************************************************************************/
+{
+    return Symbolics::operator<(lhs, rhs);
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+static bool isScalarArg(BasicPtr const& arg)
+/*****************************************************************************/
+{
+    return arg->is_Scalar();
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtrVec NaryOp::orderedArgs() const
+/*****************************************************************************/
+{
+    // summands and scalar factors commute, their order must not matter
+    BasicPtrVec args;
+    for (size_t i=0;i<m_args.size();++i)
+        args.push_back(getArg(i));
+    if (getType() == Type_Add)
+        std::sort(args.begin(), args.end(), argLess);
+    if (getType() == Type_Mul)
+        std::sort(args.begin(), std::stable_partition(args.begin(), args.end(), isScalarArg), argLess);
+    return args;
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 bool NaryOp::operator<(Basic  const& rhs) const
 /*****************************************************************************/
@@ -146,13 +180,14 @@ bool NaryOp::operator<(Basic  const& rhs) const
 
     if (m_args.size() == naryop.m_args.size())
     {
-        for (size_t i=0;i<m_args.size();++i)
+        BasicPtrVec lhsArgs = orderedArgs();
+        BasicPtrVec rhsArgs = naryop.orderedArgs();
+        for (size_t i=0;i<lhsArgs.size();++i)
         {
-            BasicPtr rhsArg(naryop.getArg(i)); 
             // Args vergleichen
-            if ((*getArg(i).get()) == (*rhsArg.get()))
+            if (lhsArgs[i] == rhsArgs[i])
                 continue;
-            return (*getArg(i).get()) < (*rhsArg.get());
+            return Symbolics::operator<(lhsArgs[i], rhsArgs[i]);
         }
         // all args equal return false
         return false;
diff --git a/symbolics/UnaryOp.cpp b/symbolics/UnaryOp.cpp
index 58b3bef..224f5e8 100644
--- a/symbolics/UnaryOp.cpp
+++ b/symbolics/UnaryOp.cpp
@@ -1,6 +1,7 @@
 #include "UnaryOp.h"
 #include "str.h"
 #include "Factory.h"
+#include "Operators.h"
 
 using namespace Symbolics;
 
@@ -80,7 +81,7 @@ bool UnaryOp::operator<(Basic const& rhs) const
     BasicPtr rhsArg(unary.getArg()); 
 
     // Args vergleichen
-    return (*(getArg().get())) < (*rhsArg.get());
+    return Symbolics::operator<(getArg(), rhsArg);
 
 }
 /*****************************************************************************/
diff --git a/symbolics/functions/Operators.cpp b/symbolics/functions/Operators.cpp
index 795c072..e36a0f2 100644
--- a/symbolics/functions/Operators.cpp
+++ b/symbolics/functions/Operators.cpp
@@ -13,58 +13,63 @@
 using namespace Symbolics;
 
 /*****************************************************************************/
-bool Symbolics::operator<(BasicPtr const& lhs, BasicPtr  const& rhs)
+// value of a number, scalar zero included
+static bool numericValue(BasicPtr const& p, double &value)
 /*****************************************************************************/
 {
-    // zuerst den Typ vergleichen
-    // Ausnamen fuer Zero
-    if ((lhs->getType() == Type_Zero) &&
-        (rhs->getType() == Type_Real))
-    {
-        const Real *cd = Util::getAsConstPtr<Real>(rhs);
-        return 0.0 < cd->getValue();
-    }
-    if ((lhs->getType() == Type_Real) &&
-        (rhs->getType() == Type_Zero))
+    switch (p->getType())
     {
-        const Real *cd = Util::getAsConstPtr<Real>(lhs);
-        return cd->getValue() < 0.0;
-    }
-    if ((lhs->getType() == Type_Zero) &&
-        (rhs->getType() == Type_Int))
-    {
-        const Int *ci = Util::getAsConstPtr<Int>(rhs);
-        return 0 < ci->getValue();
-    }
-    if ((lhs->getType() == Type_Int) &&
-        (rhs->getType() == Type_Zero))
-    {
-        const Int *ci = Util::getAsConstPtr<Int>(lhs);
-        return ci->getValue() < 0;
-    }
-    // Ausnahme fuer Int==Dbl und andersherum
-    if ((lhs->getType() == Type_Int) &&
-        (rhs->getType() == Type_Real))
-    {
-        const Int *ci = Util::getAsConstPtr<Int>(lhs);
-        const Real *cd = Util::getAsConstPtr<Real>(rhs);
-        return (*ci) < (*cd);
-    }
-    if ((lhs->getType() == Type_Real) &&
-        (rhs->getType() == Type_Int))
-    {
-        const Real *cd = Util::getAsConstPtr<Real>(lhs);
-        const Int *ci = Util::getAsConstPtr<Int>(rhs);
-        return (*ci) < (*cd);
+    case Type_Zero:
+        value = 0.0;
+        return p->is_Scalar();
+    case Type_Int:
+        value = Util::getAsConstPtr<Int>(p)->getValue();
+        return true;
+    case Type_Real:
+        value = Util::getAsConstPtr<Real>(p)->getValue();
+        return true;
+    default:
+        return false;
     }
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+// type for the ordering, a matrix of zeros equals Zero
+static int orderType(BasicPtr const& p)
+/*****************************************************************************/
+{
+    if ((p->getType() == Type_Matrix) && (Zero::getZero(p->getShape()) == p))
+        return Type_Zero;
+    return p->getType();
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+bool Symbolics::operator<(BasicPtr const& lhs, BasicPtr  const& rhs)
+/*****************************************************************************/
+{
+    // Zahlen nach ihrem Wert ordnen (Zero, Int und Real koennen gleich sein)
+    double lval, rval;
+    bool lnum = numericValue(lhs,lval);
+    bool rnum = numericValue(rhs,rval);
+    if (lnum && rnum)
+        return lval < rval;
+
     // Vergleich Type
-    if (lhs->getType() != rhs->getType())
-        return (lhs->getType() < rhs->getType());
+    int ltype = lnum ? Type_Int : orderType(lhs);
+    int rtype = rnum ? Type_Int : orderType(rhs);
+    if (ltype != rtype)
+        return ltype < rtype;
 
     // Vergleich Shape
     if (lhs->getShape() != rhs->getShape())
         return (lhs->getShape() < rhs->getShape());
 
+    // Matrizen aus Nullen und Zero gleicher Groesse sind gleich
+    if (ltype == Type_Zero)
+        return false;
+
     // Nun als Basic vergleichen
     return (*lhs.get() < *rhs.get());
 }
diff --git a/symbolics/include/NaryOp.h b/symbolics/include/NaryOp.h
index 4b34f26..bd97836 100644
--- a/symbolics/include/NaryOp.h
+++ b/symbolics/include/NaryOp.h
@@ -46,6 +46,8 @@ namespace Symbolics
         inline void simplifyArgs() { for (size_t i=0; i<m_args.size(); ++i) setArg(i,m_args[i].getArg()->simplify()); };
         
     private:
+        // Arguments independent of the order of commuting ones
+        BasicPtrVec orderedArgs() const;
         // Arguments
         ArgumentPtrVec m_args;
     };
-- 
2.43.0


From 6d9a593ca693579bd5d22970bdc6f7be3b0fffbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 30/71] fix: substituting in a Sign, Inverse, Outer or Jacobian
 itself fails

---
 symbolics/Factory.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/symbolics/Factory.cpp b/symbolics/Factory.cpp
index b97dc71..503eab7 100644
--- a/symbolics/Factory.cpp
+++ b/symbolics/Factory.cpp
@@ -56,6 +56,10 @@ BasicPtr Factory::newBasic( Basic_Type type,  BasicPtr &arg, Shape const& shape)
         return Skew::New(arg);
     case Type_Transpose:
         return BasicPtr( new Transpose(arg) );
+    case Type_Sign:
+        return BasicPtr( new Sign(arg) );
+    case Type_Inverse:
+        return BasicPtr( new Inverse(arg) );
     case Type_Unknown:
         throw InternalError("Unknown is not supported by Factory!");
     case Type_Tan:
@@ -94,6 +98,10 @@ BasicPtr Factory::newBasic( Basic_Type type,  BasicPtr &arg1, BasicPtr &arg2, Sh
         return BasicPtr( new Greater(arg1,arg2) );
     case Type_Equal:
         return BasicPtr( new Equal(arg1,arg2) );
+    case Type_Outer:
+        return BasicPtr( new Outer(arg1,arg2) );
+    case Type_Jacobian:
+        return BasicPtr( new Jacobian(arg1,arg2) );
     case Type_Unknown:
         throw InternalError("Unknown is not supported by Factory!");
     default:
-- 
2.43.0


From 9889421b1842deb5b2f8763f1a34ae12123e4fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 31/71] fix: an equation in which the unknown cancels is not
 solved by zero

---
 symbolics/Basic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolics/Basic.cpp b/symbolics/Basic.cpp
index 3f7e5de..74bff61 100644
--- a/symbolics/Basic.cpp
+++ b/symbolics/Basic.cpp
@@ -166,9 +166,10 @@ BasicPtr Basic::solve(BasicPtr exp)
     if (exp->getType() == Type_Symbol)
     {
       BasicPtr m_der = der(exp)->simplify();
+      // exp disappears, so there is nothing to solve for
       if (Util::is_Zero(m_der))
       {
-          return Zero::getZero(m_shape);
+          return BasicPtr();
       }
 
       LookFor lookfor(exp);
-- 
2.43.0


From b947ba68c4e2f85564d128940bd9bd716a6470aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 32/71] fix: solving for a matrix puts the inverse factor on
 the wrong side

---
 symbolics/Basic.cpp | 51 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/symbolics/Basic.cpp b/symbolics/Basic.cpp
index 74bff61..c9fc3a6 100644
--- a/symbolics/Basic.cpp
+++ b/symbolics/Basic.cpp
@@ -153,6 +153,49 @@ void Basic::calcHash()
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+static bool is_Factor(BasicPtr const& e, BasicPtr const& exp, bool left)
+/*****************************************************************************/
+{
+    // is e = c + a*exp (left) or e = c + exp*a?
+    if (e == exp)
+        return true;
+    Basic::LookFor lookfor(exp);
+    e->scanExp(lookfor);
+    if (!lookfor.found)
+        return true;
+    bool found = false;
+    switch (e->getType())
+    {
+    case Type_Neg:
+        return is_Factor(e->getArg(0),exp,left);
+    case Type_Add:
+        for (size_t i=0; i<e->getArgsSize(); ++i)
+            if (!is_Factor(e->getArg(i),exp,left))
+                return false;
+        return true;
+    case Type_Mul:
+        for (size_t i=0; i<e->getArgsSize(); ++i)
+        {
+            Basic::LookFor l(exp);
+            e->getArg(i)->scanExp(l);
+            if (l.found)
+            {
+                if (found || !is_Factor(e->getArg(i),exp,left))
+                    return false;
+                found = true;
+            }
+            // a matrix on the other side
+            else if ((found == left) && !e->getArg(i)->is_Scalar())
+                return false;
+        }
+        return true;
+    default:
+        return false;
+    }
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 BasicPtr Basic::solve(BasicPtr exp)
 /*****************************************************************************/
@@ -178,7 +221,13 @@ BasicPtr Basic::solve(BasicPtr exp)
       {
           return BasicPtr();
       }
-      return Neg::New(Util::div(subs(exp,Zero::getZero(exp->getShape())),m_der));
+      BasicPtr rest = subs(exp,Zero::getZero(exp->getShape()));
+      // the factor of a matrix may stand on either side
+      if (exp->is_Scalar() || is_Factor(BasicPtr(this),exp,false))
+          return Neg::New(Util::div(rest,m_der));
+      if (is_Factor(BasicPtr(this),exp,true))
+          return Neg::New(Mul::New(Pow::New(m_der,Int::getMinusOne()),rest)->simplify());
+      return BasicPtr();
     }
     else
     {
-- 
2.43.0


From 5a648c70bd9cc26a66ad985f86db9534e21d8466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 33/71] fix: the scalar part of a scalar expression is printed
 as the expression itself

---
 symbolics/printer/FortranPrinter.cpp | 2 ++
 symbolics/printer/PythonPrinter.cpp  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/symbolics/printer/FortranPrinter.cpp b/symbolics/printer/FortranPrinter.cpp
index 9506f56..baf1ccd 100644
--- a/symbolics/printer/FortranPrinter.cpp
+++ b/symbolics/printer/FortranPrinter.cpp
@@ -176,6 +176,8 @@ std::string FortranPrinter::print_Scalar( const Scalar *s )
 /*****************************************************************************/
 {  // Diese Funktion sollte so funktionieren, wird aber scheinbar kaum genutzt - momentan wird es in mul "emuliert"
 	if (s == NULL) throw InternalError("FortranPrinter: Scalar is NULL");
+	if (s->getArg()->is_Scalar())
+		return print(s->getArg());
 	return "scalar(" + print(s->getArg()) + ")";
 }
 /*****************************************************************************/
diff --git a/symbolics/printer/PythonPrinter.cpp b/symbolics/printer/PythonPrinter.cpp
index 60375b8..322bfd5 100644
--- a/symbolics/printer/PythonPrinter.cpp
+++ b/symbolics/printer/PythonPrinter.cpp
@@ -104,6 +104,8 @@ std::string PythonPrinter::print_Scalar( const Scalar *s )
 /*****************************************************************************/
 {
     if (s == NULL) throw InternalError("PythonPrinter: Scalar is NULL");
+    if (s->getArg()->is_Scalar())
+        return print(s->getArg());
     return print(s->getArg()) + "[0,0]";
 }
 /*****************************************************************************/
-- 
2.43.0


From 89515eb0a204edeedbcf1f5d7e6aa4761e0dbc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 34/71] fix: a conditional expression in C# is enclosed in
 parentheses

---
 symbolics/printer/CSharpPrinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/printer/CSharpPrinter.cpp b/symbolics/printer/CSharpPrinter.cpp
index 06ae49e..766b300 100644
--- a/symbolics/printer/CSharpPrinter.cpp
+++ b/symbolics/printer/CSharpPrinter.cpp
@@ -142,7 +142,7 @@ std::string CSharpPrinter::print_If( const If *e )
 { 
 	if (e==NULL) throw InternalError("CSharpPrinter: If is NULL");
     //Es muss die inline expression sein, da es ja kein Gleichheitszeichen als function gibt
-    return print(e->getArg(0)) + " ? " + print(e->getArg(1)) + " : " + print(e->getArg(2));
+    return "(" + print(e->getArg(0)) + " ? " + print(e->getArg(1)) + " : " + print(e->getArg(2)) + ")";
 }
 /*****************************************************************************/
 
-- 
2.43.0


From 27d6db97433c66341ad29acf34a28c0f992246a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 35/71] fix: Fortran matrix products with a scalar between the
 matrices use matmul

---
 symbolics/printer/FortranPrinter.cpp | 30 ++++++++++++++++++----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/symbolics/printer/FortranPrinter.cpp b/symbolics/printer/FortranPrinter.cpp
index baf1ccd..e242781 100644
--- a/symbolics/printer/FortranPrinter.cpp
+++ b/symbolics/printer/FortranPrinter.cpp
@@ -43,21 +43,29 @@ std::string FortranPrinter::print_Mul( const Mul *mul )
 /*****************************************************************************/
 {
 	if (mul == NULL) throw InternalError("FortranPrinter: Mul is NULL");
-	std::string s="(", t="";
+	// Skalare zuerst, damit alle Matrizen in matmul verschachtelt werden koennen
+	std::string s="(", m="", t="";
     size_t n = mul->getArgsSize();
-    bool includes_matmul = false;
-    for (size_t i=0; i<n-1; ++i)
+    size_t matrices = 0;
+    for (size_t i=0; i<n; ++i)
+		if (!mul->getArg(i)->is_Scalar())
+			++matrices;
+    bool includes_matmul = matrices > 1;
+    size_t seen = 0;
+    for (size_t i=0; i<n; ++i)
     {
-		if (!mul->getArg(i)->is_Scalar() && !mul->getArg(i+1)->is_Scalar()) {
-			s += "matmul(" + print(mul->getArg(i)) + ",";
+		std::string a = print(mul->getArg(i));
+		if (!includes_matmul)
+			s += (i > 0 ? "*" : "") + a;
+		else if (mul->getArg(i)->is_Scalar())
+			s += a + "*";
+		else if (++seen < matrices) {
+			m += "matmul(" + a + ",";
 			t += ")";
-			includes_matmul = true;
-		} else {
-			s+= print(mul->getArg(i)) + t + "*";
-			t="";
-		}
+		} else
+			m += a;
     }
-    s += print(mul->getArg(n-1)) + t + ")";
+    s += m + t + ")";
 	if (includes_matmul && mul->is_Scalar()) //TODO: was ist mit (1,1) Matrizen? 
 		s = "scalar" + s; //keine Klammern n�tig, diese sollten schon da sein
     return s;
-- 
2.43.0


From dc197127f1653a5b41e2084fde30d3f4ee44fc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 36/71] fix: a negative power of a matrix is printed as a power
 of its inverse in Modelica

---
 symbolics/printer/ModelicaPrinter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/symbolics/printer/ModelicaPrinter.cpp b/symbolics/printer/ModelicaPrinter.cpp
index 29d233a..905d269 100644
--- a/symbolics/printer/ModelicaPrinter.cpp
+++ b/symbolics/printer/ModelicaPrinter.cpp
@@ -83,6 +83,16 @@ std::string ModelicaPrinter::print_Pow( const Pow *pow )
 /*****************************************************************************/
 {
     if (pow == NULL) throw InternalError("ModelicaPrinter: Pow is NULL");
+    // In Modelica sind nur nicht negative Potenzen einer Matrix erlaubt
+    if (!pow->getBase()->is_Scalar() && pow->getExponent()->getType() == Type_Int)
+    {
+        int e = Util::getAsConstPtr<Int>(pow->getExponent())->getValue();
+        if (e < 0)
+        {
+            std::string inv = "Modelica.Math.Matrices.inv(" + print(pow->getBase()) + ")";
+            return e == -1 ? inv : "(" + inv + "^" + str(-e) + ")";
+        }
+    }
     return "(" + print(pow->getBase()) + "^" + print(pow->getExponent()) + ")";
 }
 /*****************************************************************************/
-- 
2.43.0


From ba8a34c8c52db2a05fc5778ab7eaa8a5d4c5af9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:54 +0000
Subject: [PATCH 37/71] fix: a second definition of a vector element is refused
 instead of crashing

---
 symbolics/graph/EquationSystem.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/symbolics/graph/EquationSystem.cpp b/symbolics/graph/EquationSystem.cpp
index a1e230d..d4882a4 100644
--- a/symbolics/graph/EquationSystem.cpp
+++ b/symbolics/graph/EquationSystem.cpp
@@ -335,14 +335,18 @@ void EquationSystem::checkEquation(DerivativeScanner *scanner,
       }
       else
       {
+        // the whole symbol cannot be solved if one of its elements already is
+        if ((is->second.kind == ALL) && !ii->second.elements.empty())
+          throw SymbolAlreadySolvedInError("elements of " + name + " are already solved");
         for (SizeTPairSet::iterator ie=is->second.elements.begin();ie!=is->second.elements.end();ie++)
         {
-          if (ii->second.elements.find(SizeTPair(ie->first,ie->second)) != ii->second.elements.end())
+          SizeTPairEquationPtrMap::iterator se = ii->second.elements.find(SizeTPair(ie->first,ie->second));
+          if (se != ii->second.elements.end())
           {
             std::string msg = name + "[" + str(ie->first) + "," + str(ie->second) +  "] is already solved in ";
-            for (size_t k=0;k<ii->second.eqn->getRhsSize();++k)
+            for (size_t k=0;k<se->second->getRhsSize();++k)
             {
-              msg += ii->second.eqn->getRhs(k)->toString();
+              msg += se->second->getRhs(k)->toString();
             }
             throw SymbolAlreadySolvedInError(msg);
           }
@@ -448,14 +452,18 @@ void EquationSystem::addEquation( EquationPtr eqn)
       }
       else
       {
+        // the whole symbol cannot be solved if one of its elements already is
+        if ((is->second.kind == ALL) && !ii->second.elements.empty())
+          throw SymbolAlreadySolvedInError("elements of " + name + " are already solved");
         for (SizeTPairSet::iterator ie=is->second.elements.begin();ie!=is->second.elements.end();ie++)
         {
-          if (ii->second.elements.find(SizeTPair(ie->first,ie->second)) != ii->second.elements.end())
+          SizeTPairEquationPtrMap::iterator se = ii->second.elements.find(SizeTPair(ie->first,ie->second));
+          if (se != ii->second.elements.end())
           {
             std::string msg = name + "[" + str(ie->first) + "," + str(ie->second) +  "] is already solved in ";
-            for (size_t k=0;k<ii->second.eqn->getRhsSize();++k)
+            for (size_t k=0;k<se->second->getRhsSize();++k)
             {
-              msg += ii->second.eqn->getRhs(k)->toString();
+              msg += se->second->getRhs(k)->toString();
             }
             throw SymbolAlreadySolvedInError(msg);
           }
-- 
2.43.0


From 8cbe9f26f6477638639535e262b15c014195216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 38/71] fix: graph optimisation leaves aliases of inputs,
 states and jointly solved unknowns alone

---
 symbolics/graph/PastOptimisation.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/symbolics/graph/PastOptimisation.cpp b/symbolics/graph/PastOptimisation.cpp
index 30987c0..8d1ad64 100644
--- a/symbolics/graph/PastOptimisation.cpp
+++ b/symbolics/graph/PastOptimisation.cpp
@@ -182,14 +182,14 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
       {
         SymbolPtr as = Util::getAsPtr<Symbol>(exp);
         SymbolNodeElement *elem = static_cast<SymbolNodeElement*>(as->getUserData(ID_UD_NODE));
+        // inputs and states have no equation
         if (elem == NULL)
-        {
-          //return;
-          throw InternalError("Symbol: " + as->getName() + " has no equation!");
-        }
+          return;
         if (elem->kind != ALL)
           return;
         NodePtr ap = elem->node;
+        if (ap->getRhsSize() != 1 || ap->getLhs(0) != exp)
+          return;
         if(ap->get_Category() < PARAMETER)
         {
           // set b = a.exp
@@ -212,14 +212,14 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
           const Symbol *sconst = Util::getAsConstPtr< Symbol>(c->getArg());
           Symbol *as = const_cast<Symbol*>(sconst);
           SymbolNodeElement *elem = static_cast<SymbolNodeElement*>(as->getUserData(ID_UD_NODE));
+          // inputs and states have no equation
           if (elem == NULL)
-          {
-            //return;
-            throw InternalError("Symbol: " + as->getName() + " has no equation!");
-          }
+            return;
           if (elem->kind != ALL)
             return;
           NodePtr ap = elem->node;
+          if (ap->getRhsSize() != 1 || ap->getLhs(0) != c->getArg())
+            return;
           if(ap->get_Category() < PARAMETER)
           {
             // set b = a.exp
-- 
2.43.0


From d3a5d44d3ae1b55e94697005e0c1434699766bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:43 +0000
Subject: [PATCH 39/71] fix: a vector used after one of its elements waits for
 all of its elements

---
 symbolics/graph/Equation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symbolics/graph/Equation.cpp b/symbolics/graph/Equation.cpp
index c237dc0..216d975 100644
--- a/symbolics/graph/Equation.cpp
+++ b/symbolics/graph/Equation.cpp
@@ -414,6 +414,8 @@ bool Equation::DerivativeScanner::process_Arg(BasicPtr const &p, bool &stop)
       SymbolPtrElemSizeTMap::iterator ii = atoms.find(sp);
       if (ii != atoms.end())
       {
+        // used as a whole, whatever elements were used before
+        ii->second.kind = ALL;
         ii->second.counter++;
       }
       else
-- 
2.43.0


From 5703447fcb307629d26f4a47f011142770176d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:37 +0000
Subject: [PATCH 40/71] fix: names of extracted functions avoid all symbols of
 the graph

---
 symbolics/graph/include/PreOptimisation.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symbolics/graph/include/PreOptimisation.h b/symbolics/graph/include/PreOptimisation.h
index bb3b64c..8c98e8e 100644
--- a/symbolics/graph/include/PreOptimisation.h
+++ b/symbolics/graph/include/PreOptimisation.h
@@ -71,8 +71,9 @@ namespace Symbolics
                   else
                     name += str(n++);
                   // check for free name
-                  if (m_eqsys->hasSymbol(name))
-                    name += str(n++);
+                  std::string base = name;
+                  while (m_eqsys->hasSymbol(name))
+                    name = base + str(n++);
                   SymbolPtr sp(new Symbol(name,ii->first->getShape()));
                   m_eqsys->addSymbol(sp);
                   ii->first->subs(sp);
-- 
2.43.0


From a129105aa1dfee6f65ce803098059fbf63e062b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:04 +0000
Subject: [PATCH 41/71] fix: extraction of common functions leaves expressions
 outside the graph alone

---
 symbolics/graph/PreOptimisation.cpp       | 19 +++++++++++++++++++
 symbolics/graph/include/PreOptimisation.h |  9 +++++++++
 2 files changed, 28 insertions(+)

diff --git a/symbolics/graph/PreOptimisation.cpp b/symbolics/graph/PreOptimisation.cpp
index 7953988..9979668 100644
--- a/symbolics/graph/PreOptimisation.cpp
+++ b/symbolics/graph/PreOptimisation.cpp
@@ -41,6 +41,25 @@ void PreOptimisation::optimize()
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+bool PreOptimisation::isOwn(BasicPtr const& p)
+/*****************************************************************************/
+{
+  Basic::BasicSet atoms = p->getAtoms();
+  for (Basic::BasicSet::iterator ii = atoms.begin();ii!=atoms.end();++ii)
+  {
+    if ((*ii)->getType() != Type_Symbol)
+      continue;
+    const Symbol *s = Util::getAsConstPtr<Symbol>(*ii);
+    if (!m_eqsys->hasSymbol(s->getName()))
+      return false;
+    if (m_eqsys->getSymbol(s->getName()).get() != s)
+      return false;
+  }
+  return true;
+}
+/*****************************************************************************/
+
 std::string sin_str="sin";
 std::string cos_str="cos";
 std::string atan_str="atan";
diff --git a/symbolics/graph/include/PreOptimisation.h b/symbolics/graph/include/PreOptimisation.h
index 8c98e8e..514b3df 100644
--- a/symbolics/graph/include/PreOptimisation.h
+++ b/symbolics/graph/include/PreOptimisation.h
@@ -45,6 +45,12 @@ namespace Symbolics
                 // cast
                 Ty *unary = List::getAsPtr<Ty>(list);
                 BasicPtr p(unary);
+                // expressions of nobody or of another graph stay as they are
+                if (!isOwn(p))
+                {
+                  list = list->getRigth();
+                  continue;
+                }
                 ii = repl.find(p);
                 if (ii != repl.end())
                 {
@@ -82,6 +88,9 @@ namespace Symbolics
               }
             };
             std::string& Basic_TypetoStr(Basic_Type const& t);
+
+            // true if all symbols of the expression belong to the equation system
+            bool isOwn(BasicPtr const& p);
         };
 /*****************************************************************************/
     };
-- 
2.43.0


From 98294a03d5c04abc15c2c4ad7bf6dc51df922201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:17 +0000
Subject: [PATCH 42/71] fix: a vector element that is used but never defined is
 reported

---
 symbolics/graph/Node.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/symbolics/graph/Node.cpp b/symbolics/graph/Node.cpp
index b5d101b..74a9ed2 100644
--- a/symbolics/graph/Node.cpp
+++ b/symbolics/graph/Node.cpp
@@ -229,6 +229,22 @@ void Node::findParentsNodes()
     }
     else
     {
+      // every element that is used needs an equation, unless it is a state
+      size_t dim1 = jj->first->getShape().getDimension(1);
+      size_t dim2 = jj->first->getShape().getDimension(2);
+      for (size_t i=0;i<dim1;i++)
+      {
+        for (size_t j=0;j<dim2;j++)
+        {
+          SizeTPair pair(i,j);
+          if ((jj->second.kind != ALL) && (jj->second.elements.find(pair) == jj->second.elements.end()))
+            continue;
+          if ((jj->first->stateKind() == SEVERAL) && (jj->first->is_State(i,j) & STATE))
+            continue;
+          if (elem->elements.find(pair) == elem->elements.end())
+            throw InternalError("Symbol: " + jj->first->getName() + "[" + str(i) + "," + str(j) + "] has no equation!");
+        }
+      }
       if (jj->second.kind == ALL)
       {
         for (SizeTPairNodePtrMap::iterator ie = elem->elements.begin();ie!=elem->elements.end();ie++)
-- 
2.43.0


From d13969ec181b75bbb85aded90637363072256a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:29 +0000
Subject: [PATCH 43/71] fix: equations that depend on each other in a cycle are
 reported

---
 symbolics/graph/MatchedSystem.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/symbolics/graph/MatchedSystem.cpp b/symbolics/graph/MatchedSystem.cpp
index 7983fa5..7072a7c 100644
--- a/symbolics/graph/MatchedSystem.cpp
+++ b/symbolics/graph/MatchedSystem.cpp
@@ -29,6 +29,27 @@ MatchedSystem::~MatchedSystem()
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+static void checkCycles(NodePtr p, std::map<NodePtr,bool> &finished)
+/*****************************************************************************/
+{
+  std::map<NodePtr,bool>::iterator ii = finished.find(p);
+  if (ii != finished.end())
+  {
+    if (!ii->second)
+      throw InternalError("Equation is part of a cycle: " + p->toString());
+    return;
+  }
+  finished[p] = false;
+  NodePtrSet &parents = p->getParents();
+  for (NodePtrSet::iterator jj = parents.begin();jj != parents.end();++jj)
+  {
+    checkCycles(*jj,finished);
+  }
+  finished[p] = true;
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 double MatchedSystem::buildGraph()
 /*****************************************************************************/
@@ -39,6 +60,12 @@ double MatchedSystem::buildGraph()
   {
     m_nodes[i]->findParentsNodes();
   }
+  // equations which depend on each other can not be sorted
+  std::map<NodePtr,bool> finished;
+  for (size_t i=0;i<m_nodes.size();++i)
+  {
+    checkCycles(m_nodes[i],finished);
+  }
   //return t2-t1;
   return Util::getTime()-t1;
 }
-- 
2.43.0


From 595d857140bf49ea1347d9e78bb79b3f0453bb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 44/71] fix: order-n: axis of a translation lies in the frame
 of the joint, not of the body

---
 pymbs/processing/generator_order_n.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 752ba33..17979a2 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -208,7 +208,7 @@ class Generator_OrderN(Generator):
                 body.I_R = graph.addEquation(T1%bName, T_cs*T_j, shape=(3,3))
                 body._R = graph.addEquation(T2%(pName,bName), transpose(cs.R*T_j))
 
-                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+joint.Psi*joint.q, shape=(3,))
+                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+cs.R*joint.Psi*joint.q, shape=(3,))
                 body._p_z = p_z_p_b
                 body._p_z_tilde = graph.addEquation(p_z_tilde%(pName,bName), skew(p_z_p_b), shape=(3,3))
 
@@ -228,7 +228,7 @@ class Generator_OrderN(Generator):
                 body._K_om_tilde = graph.addEquation(omega_tilde%bName, skew(body.K_om), shape=(3,3))
 
                 # Velocity
-                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*joint.Psi), shape=(3,))
+                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*cs.R*joint.Psi), shape=(3,))
                 body.I_ldot = graph.addEquation(I_ldot%bName, body.I_v + body.I_R*body._K_om_tilde*body._l, shape=(3,))
 
                 if (not self.kinematicsOnly):
@@ -275,7 +275,7 @@ class Generator_OrderN(Generator):
                 body.I_R = graph.addEquation(T1%bName, T_cs*T_j, shape=(3,3))
                 body._R = graph.addEquation(T2%(pName,bName), transpose(cs.R*T_j))
 
-                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+joint.Psi*joint.q, shape=(3,))
+                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+cs.R*joint.Psi*joint.q, shape=(3,))
                 body._p_z = p_z_p_b
                 body._p_z_tilde = graph.addEquation(p_z_tilde%(pName,bName), skew(p_z_p_b), shape=(3,3))
 
@@ -305,7 +305,7 @@ class Generator_OrderN(Generator):
                 #K_om_q = Symbolics.Matrix = ([[body.K_om[0,0]*body.K_om[0,0]],[body.K_om[1,0]*body.K_om[1,0]],[body.K_om[2,0]*body.K_om[2,0]],[body.K_om[0,0]*body.K_om[1,0]],[body.K_om[1,0]*body.K_om[2,0]],[body.K_om[0,0]*body.K_om[2,0]]])
                 body._K_om_q = graph.addEquation(omega_q%bName,omegaq)
 
-                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*joint.Psi), shape=(3,))
+                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*cs.R*joint.Psi), shape=(3,))
                 body.I_ldot = graph.addEquation(I_ldot%bName, body.I_v + body.I_R*body._K_om_tilde*body._l, shape=(3,))
 
                 if (not self.kinematicsOnly):
-- 
2.43.0


From b7e8d939819d98f27ca76a0b06bbf86e41f79c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 45/71] fix: order-n: sign of the gyroscopic torque

---
 pymbs/processing/generator_order_n.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 17979a2..5ebbaa3 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -616,8 +616,7 @@ class Generator_OrderN(Generator):
                 J_3 = graph.addEquation(J%bName+"_3", body.mass*eye((3,3)))
                 body._J = graph.addEquation(J%bName, block_matrix([[body.inertia, J_1], [J_2, J_3]]))        # (21 a)
     #            D_1 = graph.addEquation(D%bName+"_1", body._L_ext + body._l_tilde*body._F_ext - body._K_om_tilde*body.inertia*body.K_om)
-                # Warum  + body._K_om_tilde*body.inertia*body.K_om und nicht -
-                D_1 = graph.addEquation(D%bName+"_1", body._L_ext + body._K_om_tilde*body.inertia*body.K_om)
+                D_1 = graph.addEquation(D%bName+"_1", body._L_ext - body._K_om_tilde*body.inertia*body.K_om)
                 D_2 = graph.addEquation(D%bName+"_2", body._F_ext - body.mass*body._beta_star*body.cg)
                 body._d = graph.addEquation(D%bName, block_vector([D_1, D_2]))                               # (21 b)
                 tmp_e = block_vector([joint.Phi, joint.Psi])
-- 
2.43.0


From 63915736f46a5839a3aab3f28bb0c57fc0079821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 46/71] fix: order-n: loads act in the body frame; reference
 frame of the load

---
 pymbs/processing/generator_order_n.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 5ebbaa3..116d63a 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -569,16 +569,17 @@ class Generator_OrderN(Generator):
                         assert child in (load.parent, load.child), "Internal Error: load %s must have this Coordinate System (child) as a parent or a child!"%(load.name)
 
                         # Calculate Rotation Matrix
-                        if ((load.ref is None) or (load.ref == child)): # ref = parent
-                            if (load.parent == child):
-                                T = 1
-                            else:
-                                # child <- world <- parent
-                                T = transpose(child.I_R)*load.parent.I_R
+                        if (load.ref is None): # ref = inertial frame
+                            # child <- I
+                            T = transpose(child.I_R)
+                        elif (load.ref == child):
+                            T = 1
                         else:   # ref = irgendetwas
                             # child (child/parent) <- I <- ref
                             T = transpose(child.I_R)*load.ref.I_R
 
+                        # body <- child
+                        T = child.R*T
 
                         if (not isinstance(load, Constraint)):  # We are dealing with a normal load
                             f_local = T*load._F
@@ -699,12 +700,11 @@ class Generator_OrderN(Generator):
                         assert child in (load.parent, load.child), "Internal Error: load %s must have this Coordinate System (child) as a parent or a child!"%(load.name)
 
                         # Calculate Rotation Matrix
-                        if ((load.ref is None) or (load.ref == child)): # ref = parent
-                            if (load.parent == child):
-                                T = 1
-                            else:
-                                # child <- world <- parent
-                                T = transpose(child.I_R)*load.parent.I_R
+                        if (load.ref is None): # ref = inertial frame
+                            # child <- I
+                            T = transpose(child.I_R)
+                        elif (load.ref == child):
+                            T = 1
                         else:   # ref = irgendetwas
                             # child (child/parent) <- I <- ref
                             T = transpose(child.I_R)*load.ref.I_R
-- 
2.43.0


From 9c599330b6863c349f02d945261f811afda75dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 47/71] fix: order-n: acceleration of bodies without gravity

---
 pymbs/processing/generator_order_n.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 116d63a..3432749 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -996,7 +996,7 @@ class Generator_OrderN(Generator):
 
             b._a = graph.addEquation(A%b.name, b._RR*p._a + b._a_star + b._e*qdd[i]) # (22)
             graph.addEquation(b.K_al, b._a[0:3])
-            graph.addEquation(b.I_a, b.I_R*b._a[3:6])
+            graph.addEquation(b.I_a, b.I_R*b._a[3:6] + self.g)   # gravity is part of the acceleration of the inertial body
 
             if isinstance(b,FlexibleBody):
                 # calculate the flexible accelerations
-- 
2.43.0


From ad34daec24a62eeb98a95ad4e6a308642c95dd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 48/71] fix: explicit: angular sensors, vector loads with a
 single joint

---
 pymbs/processing/generator_explicit.py        | 29 ++++++++++++++++---
 .../sensors/ang_acceleration_sensor.py        |  9 ++----
 .../processing/sensors/ang_velocity_sensor.py |  9 ++----
 3 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/pymbs/processing/generator_explicit.py b/pymbs/processing/generator_explicit.py
index 6b52d40..fcf5d06 100644
--- a/pymbs/processing/generator_explicit.py
+++ b/pymbs/processing/generator_explicit.py
@@ -75,6 +75,8 @@ class Generator_Explicit(Generator):
                 body.I_R = symbolics.eye((3,3))
                 body.K_om = symbolics.zeros((3,))
                 body.K_al = symbolics.zeros((3,))
+                body.I_om = symbolics.zeros((3,))
+                body.I_al = symbolics.zeros((3,))
             else:
                 # Get Reference to Parent Body
                 joint = body.joint
@@ -93,6 +95,8 @@ class Generator_Explicit(Generator):
     #            body.K_al = body.I_R.transpose()*I_al
     #            body.K_al = body.K_al.applyfunc(lambda x: pymbs.Symbolics.trigsimp(x, recursive=True))
                 body.K_al = jacobian(body.K_om, self.q)*self.qd + jacobian(body.K_om, self.qd)*self.qdd
+                body.I_om = body.I_R*body.K_om
+                body.I_al = body.I_R*body.K_al
 
             # Update cg
             body.I_l = body.I_r + body.I_R*body.cg
@@ -103,12 +107,25 @@ class Generator_Explicit(Generator):
                 # Do the Update
                 childCS.K_om = transpose(childCS.R)*body.K_om
                 childCS.K_al = transpose(childCS.R)*body.K_al
+                childCS.I_om = body.I_om
+                childCS.I_al = body.I_al
                 childCS.I_R = body.I_R*childCS.R
                 childCS.I_r = body.I_r + body.I_R*childCS.p
                 childCS.I_v = jacobian(childCS.I_r, self.q)*self.qd
                 childCS.I_a = jacobian(childCS.I_v, self.q)*self.qd + jacobian(childCS.I_v, self.qd)*self.qdd
 
 
+    def transposedRows(self, J, i, n):
+        '''
+        Transpose of the three rows of J beginning at i, as a nx3 matrix even if there is only one joint
+        '''
+        res = Matrix((n,3))
+        for r in range(n):
+            for c in range(3):
+                res[r,c] = J[i+c,r]
+        return res
+
+
     def calcEquations(self, graph, inertial, bodies, joints, fels, loops, q, qd):
         '''
         Obtain Equations of Motion Using an Explicit Newton/Euler Algorithm
@@ -213,8 +230,10 @@ class Generator_Explicit(Generator):
                     Wft_temp = skew(cs.p - body.cg)*transpose(body.I_R)*Rref*fel.Wf
                     Wt_temp = transpose(body.I_R)*Rref*fel.Wt
 
-                Wf += transpose(J1[i:i+3,:])*Wf_temp + transpose(J2[i:i+3,:])*Wft_temp
-                Wt += transpose(J2[i:i+3,:])*Wt_temp
+                J1T = self.transposedRows(J1, i, n)
+                J2T = self.transposedRows(J2, i, n)
+                Wf += J1T*Wf_temp + J2T*Wft_temp
+                Wt += J2T*Wt_temp
 
             # Child
             Wf_temp = Matrix((3,3))
@@ -233,8 +252,10 @@ class Generator_Explicit(Generator):
                         Wft_temp = skew(cs.p - body.cg)*transpose(body.I_R)*Rref*fel.Wf
                         Wt_temp = transpose(body.I_R)*Rref*fel.Wt
 
-                    Wf -= transpose(J1[i:i+3,:])*Wf_temp + transpose(J2[i:i+3,:])*Wft_temp
-                    Wt -= transpose(J2[i:i+3,:])*Wt_temp
+                    J1T = self.transposedRows(J1, i, n)
+                    J2T = self.transposedRows(J2, i, n)
+                    Wf -= J1T*Wf_temp + J2T*Wft_temp
+                    Wt -= J2T*Wt_temp
 
             # Simplify Them
             print("Simplifying Load-Distribution Matrices")
diff --git a/pymbs/processing/sensors/ang_acceleration_sensor.py b/pymbs/processing/sensors/ang_acceleration_sensor.py
index 5b7665c..7686fd2 100644
--- a/pymbs/processing/sensors/ang_acceleration_sensor.py
+++ b/pymbs/processing/sensors/ang_acceleration_sensor.py
@@ -17,12 +17,9 @@ class AngAccelerationSensor(Sensor):
         self.check()
 
         # Calculate Vector Pointing From Child to Parent (w.r.t. Inertial Frame)
-        if (isinstance(self.parent.I_a, sym.Matrix)):
-            alpha = transpose(self.ref.I_R)*(self.child.I_R*self.child.K_al - self.parent.I_R*self.parent.K_al)
-        else:
-            alpha = transpose(self.ref.I_R)*(self.child.I_al - self.parent.I_al)
-            if (alpha == 0):
-                alpha = sym.zeros(self.getShape())
+        alpha = transpose(self.ref.I_R)*(self.child.I_al - self.parent.I_al)
+        if (alpha == 0):
+            alpha = sym.zeros(self.getShape())
 
         # Add Result to the List of Equations
         self.writeResult(graph, alpha)
diff --git a/pymbs/processing/sensors/ang_velocity_sensor.py b/pymbs/processing/sensors/ang_velocity_sensor.py
index 8351934..fddec8b 100644
--- a/pymbs/processing/sensors/ang_velocity_sensor.py
+++ b/pymbs/processing/sensors/ang_velocity_sensor.py
@@ -17,12 +17,9 @@ class AngVelocitySensor(Sensor):
         self.check()
 
         # Calculate Vector Pointing From Child to Parent (w.r.t. Inertial Frame)
-        if (isinstance(self.parent.I_a, sym.Matrix)):
-            om = transpose(self.ref.I_R)*(self.child.I_R*self.child.K_om - self.parent.I_R*self.parent.K_om)
-        else:
-            om = transpose(self.ref.I_R)*(self.child.I_om - self.parent.I_om)
-            if (om == 0):
-                om = sym.zeros(self.getShape())
+        om = transpose(self.ref.I_R)*(self.child.I_om - self.parent.I_om)
+        if (om == 0):
+            om = sym.zeros(self.getShape())
 
         # Add Result to the List of Equations
         self.writeResult(graph, om)
-- 
2.43.0


From a21375dac1c6544778017005bbac17411cfc934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 49/71] fix: mass properties and frames of bodies joined by
 fixed joints

---
 pymbs/input/transformation.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pymbs/input/transformation.py b/pymbs/input/transformation.py
index d3d859f..2dd01ce 100644
--- a/pymbs/input/transformation.py
+++ b/pymbs/input/transformation.py
@@ -658,12 +658,6 @@ def redefineCS(cs, body, p, R):
     # still point to the old coordinate system
     cs.parent = body
 
-    # change cg if it is a body (which was connected to a fixed joint)
-    # TODO: Check that
-    if (cs.__class__ is iBody):
-        cs.cg = R*cs.cg + cs.p
-        cs.inertia = transpose(R)*cs.inertia*R
-
 
 def updateChildCS(new_Body, p_bif, R_bif):
     """
@@ -704,7 +698,7 @@ def applyFixedJoints(iBody, stage):
 
 
                 # 4. Update Information of Child and Child's Body
-                body.p = -child.p
+                body.p = -(transpose(child.R)*child.p)
                 body.R = transpose(child.R)
                 body.children.remove(child)
                 body.coordList.remove(child)
@@ -734,11 +728,18 @@ def applyFixedJoints(iBody, stage):
                 # Remove Child Body from List
                 del iBody.bodyDict[child.oldName]
 
+                # Centre of gravity and inertia of the child w.r.t. the frame of the parent
+                child_cg = child.p + child.R*child.cg
+                child_inertia = child.R*child.inertia*transpose(child.R)
+
                 # Calculate new Properties of Combined Body
-                m = parent.mass + child.mass;
-                cg = (parent.mass*parent.cg + child.mass*child.cg) / m;
-                # Inertia
-                inertia = parent.inertia + child.inertia + child.mass*transpose(skew(child.cg))*skew(child.cg)
+                m = parent.mass + child.mass
+                cg = (parent.mass*parent.cg + child.mass*child_cg) / m
+                # Inertia w.r.t. the common centre of gravity
+                d_p = skew(parent.cg - cg)
+                d_c = skew(child_cg - cg)
+                inertia = parent.inertia + parent.mass*transpose(d_p)*d_p + \
+                          child_inertia + child.mass*transpose(d_c)*d_c
 
                 # save new values
                 parent.mass = m
-- 
2.43.0


From 002837219b2327a5e59174ba8c11117d27216168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 50/71] fix: energy sensor in all formulations and with fixed
 joints; category of joint and energy sensors

---
 pymbs/input/mbs_system.py                 |  4 +--
 pymbs/input/sensors.py                    |  4 +++
 pymbs/input/transformation.py             |  7 +++--
 pymbs/processing/sensors/energy_sensor.py | 38 +++++++++++++----------
 4 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 30b3000..e760f07 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -1170,7 +1170,7 @@ class MbsSystem(Body):
         # check, that the symbols parent already used
         assert not symb in list(self.symbolDict.keys())
 
-        newSensor = JointSensor(name, thejoint, symb)
+        newSensor = JointSensor(name, thejoint, symb, category)
 
         # mark the jointSensorSlot as used
         thejoint.jointSensor = newSensor
@@ -1246,7 +1246,7 @@ class MbsSystem(Body):
 
         # check, that the symbols parent already used
         assert not symb in list(self.symbolDict.keys())
-        newSensor = EnergySensor(name, body, symb)
+        newSensor = EnergySensor(name, body, symb, category)
 
         # !! CodeDuplication ;(
         self.sensorDict[name]=newSensor
diff --git a/pymbs/input/sensors.py b/pymbs/input/sensors.py
index be41816..a133c64 100644
--- a/pymbs/input/sensors.py
+++ b/pymbs/input/sensors.py
@@ -59,5 +59,9 @@ class EnergySensor(MbsInputElement):
     def __init__(self, name, body, symb, category=VarKind.Sensor):
         self.name = name
         self.body = body
+        # mass properties of this very body, fixed joints lump bodies together
+        self.mass = body.mass
+        self.cg = body.cg
+        self.inertia = body.inertia
         self.symb = symb
         self.category = category
diff --git a/pymbs/input/transformation.py b/pymbs/input/transformation.py
index 2dd01ce..0eab2b1 100644
--- a/pymbs/input/transformation.py
+++ b/pymbs/input/transformation.py
@@ -443,11 +443,12 @@ def convertSensors(sensorList):
     # process energy sensors
     for eS in energySensorList:
         name = eS.name
-        newBody = eS.body.referenceToNew;
-        assert not newBody == None
+        # the frame of the body, which might have become part of another one
+        newFrame = eS.body._CS_0.referenceToNew
+        assert not newFrame == None
         symb = eS.symb
         cat = eS.category
-        newSensor = pSensors.EnergySensor(name, newBody, symb, _gravity, cat)
+        newSensor = pSensors.EnergySensor(name, newFrame, eS.mass, eS.cg, eS.inertia, symb, _gravity, cat)
         newSensorList.append(newSensor)
 
 
diff --git a/pymbs/processing/sensors/energy_sensor.py b/pymbs/processing/sensors/energy_sensor.py
index 5fafbd6..41f5d83 100644
--- a/pymbs/processing/sensors/energy_sensor.py
+++ b/pymbs/processing/sensors/energy_sensor.py
@@ -1,6 +1,6 @@
-from pymbs.processing import Body
+from pymbs.processing import Frame
 from pymbs.processing.sensors.sensor import Sensor
-from pymbs.common.functions import transpose
+from pymbs.common.functions import transpose, skew
 
 import pymbs.symbolics as sym
 
@@ -10,17 +10,20 @@ class EnergySensor(Sensor):
     Obtain the potential and kinetic energy of a body
     '''
 
-    def __init__(self, name, body, symbol, gravity, category=sym.VarKind.Sensor):
+    def __init__(self, name, frame, mass, cg, inertia, symbol, gravity, category=sym.VarKind.Sensor):
         '''
         Constructor
+        frame: Frame of the body in which cg and inertia are given
         '''
 
-        assert( isinstance(body, Body) )
+        assert( isinstance(frame, Frame) )
 
         # Call Constructor of Super Class
-        Sensor.__init__(self, name, body.CS_0, body.CS_0, symbol, None, category)
+        Sensor.__init__(self, name, frame, frame, symbol, None, category)
         self.gravity = gravity
-        self.body = body
+        self.mass = mass
+        self.cg = cg
+        self.inertia = inertia
 
     def calc(self, graph):
         '''
@@ -28,23 +31,26 @@ class EnergySensor(Sensor):
         '''
         assert( graph is not None )
 
-        # get mass and Inertia of body
-        m = self.body.mass
-        I = self.body.inertia
+        frame = self.parent
+        m = self.mass
+
+        # Centre of gravity w.r.t. the inertial frame
+        assert frame.I_r is not None, 'Position of Frame "%s" has not been calculated!'%frame.name
+        l = frame.I_R*self.cg
 
         # get potential Energy
-        assert self.body.I_l is not None, 'Position of Body "%s" has not been calculated!'%self.body
-        E_pot = -m*transpose(self.gravity)*self.body.I_l
+        E_pot = -m*transpose(self.gravity)*(frame.I_r + l)
 
         # get kinetic energy
-        assert self.body.I_ldot is not None, 'Velocity of Body "%s" has not been calculated!'%self.body
-        E_kin = 0.5*m*transpose(self.body.I_ldot)*self.body.I_ldot + \
-                0.5*transpose(self.body.K_om)*I*self.body.K_om
+        assert frame.I_v is not None, 'Velocity of Frame "%s" has not been calculated!'%frame.name
+        v = frame.I_v + skew(frame.I_om)*l
+        om = transpose(frame.I_R)*frame.I_om
+        E_kin = 0.5*m*transpose(v)*v + 0.5*transpose(om)*self.inertia*om
 
         # Total Energy
         E = E_pot + E_kin
         if isinstance(E, sym.Matrix):
-            assert E.shape == (1,1)
+            assert E.shape() == (1,)
             E = E[0]
 
         self.writeResult(graph, E)
@@ -54,4 +60,4 @@ class EnergySensor(Sensor):
         Returns Shape of Sensor Result
         '''
 
-        return (1,1)
\ No newline at end of file
+        return (1,1)
-- 
2.43.0


From 1cd5da8886d905965ece05cbdf4f371631bcf68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 51/71] fix: recursive: torque in a joint with loads applied
 away from the origin of the body

---
 pymbs/processing/generator_recursive.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pymbs/processing/generator_recursive.py b/pymbs/processing/generator_recursive.py
index 612938b..bd17680 100644
--- a/pymbs/processing/generator_recursive.py
+++ b/pymbs/processing/generator_recursive.py
@@ -529,14 +529,16 @@ class Generator_Recursive(Generator):
                     F_C_b += cBody._F_C
                     F_b += cBody._F
                     p_z_tilde_b_c = cBody._p_z_tilde
-                    L_b += cBody._L + (p_z_tilde_b_c-body._l_tilde)*cBody._F
+                    L_b += cBody._L + p_z_tilde_b_c*cBody._F
 
             F_C_b += body._G_C - body._F_ext # (32) - modified
             body._F_C = graph.addEquation(F_C%bName, F_C_b, shape=(3,))
 
-            F_b += body.mass*(body._I_l_ddot+self.inertial._alpha_C)-body._F_ext   # (24), self.inertial._alpha_C = -g, see p.189 below (10)
+            F_body = body.mass*(body._I_l_ddot+self.inertial._alpha_C)   # self.inertial._alpha_C = -g, see p.189 below (10)
+            F_b += F_body-body._F_ext   # (24)
             body._F = graph.addEquation(F%bName, F_b, shape=(3,))
-            L_b += body._l_tilde*body._F + \
+            # all moments (also L_ext) are taken about the origin of the body
+            L_b += body._l_tilde*F_body + \
                    body.inertia*body.I_al + \
                    body._I_om_tilde*body.inertia*body.I_om - \
                    body._L_ext   # (26)
-- 
2.43.0


From 2bd5e03a45273d86328af0d9f848cdcb19af2c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 52/71] fix: crank slider: rate and acceleration of the slider
 match its position

---
 pymbs/processing/loops/crank_slider.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymbs/processing/loops/crank_slider.py b/pymbs/processing/loops/crank_slider.py
index 1ff23e6..d3d6c01 100644
--- a/pymbs/processing/loops/crank_slider.py
+++ b/pymbs/processing/loops/crank_slider.py
@@ -235,9 +235,9 @@ class CrankSlider(Loop):
 
         alphad = q3d
 
-        Bvu = Matrix([[-l1*sin(alpha+q1)/cos(alpha)], [l1*cos(q1)/(l2*cos(alpha))]])
+        Bvu = Matrix([[-l1*sin(q1-alpha)/cos(alpha)], [l1*cos(q1)/(l2*cos(alpha))]])
 
-        b_prime = Matrix([-l1*q1d*(2*alphad*cos(q1)+q1d*cos(q1)+q1d*cos(2*alpha+q1))/(2*cos(alpha)*cos(alpha)),
+        b_prime = Matrix([-l1*q1d*(-2*alphad*cos(q1)+q1d*cos(q1)+q1d*cos(q1-2*alpha))/(2*cos(alpha)*cos(alpha)),
                           (-l1*q1d*q1d*cos(alpha)*sin(q1)+l1*alphad*q1d*cos(q1)*sin(alpha))/(l2*cos(alpha)*cos(alpha))])
 
         return ([v0, v1], Bvu, b_prime)
-- 
2.43.0


From 29b353bb629043183d56a36778a1a984e24536f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 53/71] fix: four bar: lengths of the bars are measured in the
 plane of the motion

---
 pymbs/processing/loops/fourbar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymbs/processing/loops/fourbar.py b/pymbs/processing/loops/fourbar.py
index 62b58d3..f9f0692 100644
--- a/pymbs/processing/loops/fourbar.py
+++ b/pymbs/processing/loops/fourbar.py
@@ -176,22 +176,22 @@ class FourBar(Loop):
         # Length of bars and angle between x-axis and bar
         l1_vec = self.jD.coordSys.p - self.jA.coordSys.p
         l1_vec2 = self.pick*l1_vec
-        l1 = graph.addEquation(L1%self.name, sqrt((transpose(l1_vec)*l1_vec)))
+        l1 = graph.addEquation(L1%self.name, sqrt((transpose(l1_vec2)*l1_vec2)))
         alpha = graph.addEquation(AL%self.name, s*atan2(l1_vec2[1],l1_vec2[0]))
 
         l2_vec = self.jB.coordSys.p
         l2_vec2 = self.pick*l2_vec
-        l2 = graph.addEquation(L2%self.name, sqrt((transpose(l2_vec)*l2_vec)))
+        l2 = graph.addEquation(L2%self.name, sqrt((transpose(l2_vec2)*l2_vec2)))
         beta = graph.addEquation(BE%self.name, s*atan2(l2_vec2[1],l2_vec2[0]))
 
         l3_vec = self.csC3.p
         l3_vec2 = self.pick*l3_vec
-        l3 = graph.addEquation(L3%self.name, sqrt((transpose(l3_vec)*l3_vec)))
+        l3 = graph.addEquation(L3%self.name, sqrt((transpose(l3_vec2)*l3_vec2)))
         gamma = graph.addEquation(GA%self.name, s*atan2(l3_vec2[1],l3_vec2[0]))
 
         l4_vec = self.csC4.p
         l4_vec2 = self.pick*l4_vec
-        l4 = graph.addEquation(L4%self.name, sqrt((transpose(l4_vec)*l4_vec)))
+        l4 = graph.addEquation(L4%self.name, sqrt((transpose(l4_vec2)*l4_vec2)))
         delta = graph.addEquation(DE%self.name, s*atan2(l4_vec2[1],l4_vec2[0]))
 
         # angle between bars
-- 
2.43.0


From d7c6437436a253e0989af0fb142ae8c24daacabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:33 +0000
Subject: [PATCH 54/71] fix: explicit: a single coordinate has a scalar
 acceleration without loads

---
 pymbs/processing/generator_explicit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymbs/processing/generator_explicit.py b/pymbs/processing/generator_explicit.py
index fcf5d06..9b21e13 100644
--- a/pymbs/processing/generator_explicit.py
+++ b/pymbs/processing/generator_explicit.py
@@ -301,7 +301,7 @@ class Generator_Explicit(Generator):
             h_ = graph.addEquation('h_', scalar_if_possible(h_red))
             f_gravity_ = graph.addEquation('f_gravity_', scalar_if_possible(f_red))
 
-        if (f_ext==0):
+        if (f_ext==0) and (f_gravity_.shape() != ()):
             f_ext = Matrix( f_gravity_.shape() )
 
         f_ext_ = graph.addEquation('f_ext_', scalar_if_possible(f_ext))
-- 
2.43.0


From dac7c8ee9296e1c9d6cb3d693daa8065f1fee097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 55/71] fix: writers: each state has one place in the state
 vector, in every generated function

---
 symbolics/writer/CSharpWriter.cpp  | 17 +++++++++----
 symbolics/writer/CWriter.cpp       | 22 ++++++++++++-----
 symbolics/writer/FortranWriter.cpp | 38 ++++++++++++++++--------------
 symbolics/writer/MatlabWriter.cpp  | 12 ++++++----
 symbolics/writer/PythonWriter.cpp  | 27 +++++++++++----------
 symbolics/writer/Writer.cpp        | 38 ++++++++++++++++++++++++++++++
 symbolics/writer/include/Writer.h  |  9 +++++++
 7 files changed, 118 insertions(+), 45 deletions(-)

diff --git a/symbolics/writer/CSharpWriter.cpp b/symbolics/writer/CSharpWriter.cpp
index 4ea02ac..934b18f 100644
--- a/symbolics/writer/CSharpWriter.cpp
+++ b/symbolics/writer/CSharpWriter.cpp
@@ -84,6 +84,7 @@ double CSharpWriter::generateDerState(Graph::Graph& g, int &dim)
 
 	// Sort variable vectors
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	Graph::VariableVec allStates = getStates(g);
 	std::sort(inputs.begin(),inputs.end(), sortVariableVec);
 
 	std::ofstream f;
@@ -109,10 +110,11 @@ double CSharpWriter::generateDerState(Graph::Graph& g, int &dim)
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
+		size_t k = getStateIndex(allStates, states.at(i));
 		dim = n;
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << k+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;
 		f << "    double " << "der_" << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " 
           << m_p->print(Zero::getZero(states.at(i)->getShape())) << ";" << std::endl;	
@@ -159,13 +161,14 @@ double CSharpWriter::generateDerState(Graph::Graph& g, int &dim)
     f << std::endl;
 
 	f << "    /* set return values */" << std::endl;
-	f << "    yd = new double[" << states.size() << "];" << std::endl;
+	f << "    yd = new double[" << getStateSize(allStates) << "];" << std::endl;
  	for (size_t i=0;i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
+		size_t k = getStateIndex(allStates, states.at(i));
 		for (size_t j=0; j < n ; ++j) 
 		{
-			f << "    yd[" << i*n+j << "] = der_" << m_p->print(states.at(i));
+			f << "    yd[" << k+j << "] = der_" << m_p->print(states.at(i));
 			if (n>1) // hm.. was ist schneller "n-1" oder "n>1"?
 				f << "[" << j << "];" << std::endl;
 			else 
@@ -211,6 +214,7 @@ double CSharpWriter::generateVisual(Graph::Graph& g)
 
 	// Sort variable vectors
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	Graph::VariableVec allStates = getStates(g);
 	std::sort(sens_vis.begin(),sens_vis.end(), sortVariableVec);
 
 	std::ofstream f;
@@ -266,9 +270,10 @@ double CSharpWriter::generateVisual(Graph::Graph& g)
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
+		size_t k = getStateIndex(allStates, states.at(i));
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << k+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;	
 	}
 	f << std::endl; 
@@ -336,6 +341,7 @@ double CSharpWriter::generateSensors(Graph::Graph& g)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	Graph::VariableVec allStates = getStates(g);
 	// Sensors Vector sortieren: 
 	std::sort(sensors.begin(),sensors.end(), sortVariableVec);
     // Inputs Vector sortieren: 
@@ -366,9 +372,10 @@ double CSharpWriter::generateSensors(Graph::Graph& g)
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
+		size_t k = getStateIndex(allStates, states.at(i));
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << k+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;	
 	}
 	f << std::endl; 
diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 0007cc9..6cc10e5 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -103,6 +103,7 @@ double CWriter::generateDerState(Graph::Graph& g, int &dim)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	Graph::VariableVec allStates = getStates(g);
     // Inputs Vector sortieren: 
 	std::sort(inputs.begin(),inputs.end(), sortVariableVec);
 
@@ -127,10 +128,11 @@ double CWriter::generateDerState(Graph::Graph& g, int &dim)
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
+		size_t k = getStateIndex(allStates, states.at(i));
 		dim = n;
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << k+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;
 		f << "    double " << "der_" << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " 
           << m_p->print(Zero::getZero(states.at(i)->getShape())) << ";" << std::endl;	
@@ -165,9 +167,10 @@ double CWriter::generateDerState(Graph::Graph& g, int &dim)
 	for (size_t i=0;i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
+		size_t k = getStateIndex(allStates, states.at(i));
 		for (size_t j=0; j < n ; ++j) 
 		{
-			f << "    yd[" << i*n+j << "] = der_" << m_p->print(states.at(i));
+			f << "    yd[" << k+j << "] = der_" << m_p->print(states.at(i));
 			if (n>1) // hm.. was ist schneller "n-1" oder "n>1"?
 				f << "[" << j << "];" << std::endl;
 			else 
@@ -219,6 +222,7 @@ double CWriter::generateVisual(Graph::Graph& g)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	Graph::VariableVec allStates = getStates(g);
 	// Visual_sensors Vector sortieren: 
 	std::sort(sens_vis.begin(),sens_vis.end(), sortVariableVec);
 
@@ -242,9 +246,10 @@ double CWriter::generateVisual(Graph::Graph& g)
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
+		size_t k = getStateIndex(allStates, states.at(i));
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << k+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;	
 	}
 	f << std::endl; 
@@ -311,6 +316,7 @@ double CWriter::generateSensors(Graph::Graph& g)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	Graph::VariableVec allStates = getStates(g);
 	// Sensors Vector sortieren: 
 	std::sort(sensors.begin(),sensors.end(), sortVariableVec);
     // Inputs Vector sortieren: 
@@ -341,9 +347,10 @@ double CWriter::generateSensors(Graph::Graph& g)
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
+		size_t k = getStateIndex(allStates, states.at(i));
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << k+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;	
 	}
 	f << std::endl; 
@@ -864,6 +871,7 @@ double CWriter::generateAll(Graph::Graph& g, int &dim)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	Graph::VariableVec allStates = getStates(g);
 
 	f << "/* " << getHeaderLine() << " */" << std::endl;
 	f << "/*";
@@ -876,10 +884,11 @@ double CWriter::generateAll(Graph::Graph& g, int &dim)
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
+		size_t k = getStateIndex(allStates, states.at(i));
 		dim = n;
 		f << "    const double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << k+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;
 		f << "    double " << "der_" << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " 
           << m_p->print(Zero::getZero(states.at(i)->getShape())) << ";" << std::endl;	
@@ -913,9 +922,10 @@ double CWriter::generateAll(Graph::Graph& g, int &dim)
 	for (size_t i=0;i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
+		size_t k = getStateIndex(allStates, states.at(i));
 		for (size_t j=0; j < n ; ++j) 
 		{
-			f << "    yd[" << i*n+j << "] = der_" << m_p->print(states.at(i));
+			f << "    yd[" << k+j << "] = der_" << m_p->print(states.at(i));
 			if (n>1) // hm.. was ist schneller "n-1" oder "n>1"?
 				f << "[" << j << "];" << std::endl;
 			else 
diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index fe06b7b..bffba71 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -77,6 +77,7 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	Graph::VariableVec allStates = getStates(g);
     // Inputs Vector sortieren: 
 	std::sort(inputs.begin(),inputs.end(), sortVariableVec);
 
@@ -97,12 +98,11 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 	f << std::endl;
 
 	f << "!declare fixed variables" << std::endl;
-	int input_dim=0; 
+	size_t input_dim = getStateSize(allStates);
 	for (Graph::VariableVec::iterator it=states.begin();it != states.end();++it)
 	{
 		f << "    double precision"<< m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
 		f << "    double precision"<< m_p->dimension(*it) << " :: der_" << m_p->print(*it) << std::endl;
-		input_dim += (*it)->getShape().getDimension(1);
 	}
     f << "    double precision, intent(in) :: time" << std::endl;
 	f << "    double precision, dimension(" << input_dim << ",1), intent(in) :: y" << std::endl;
@@ -141,15 +141,15 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 	std::stringstream fss;
 
 	fss << "!define states" << std::endl;
-	Shape n = states.at(0)->getShape(); 
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
 		fss << "    " << m_p->print(states[i]) << " = y(";
+		size_t k = getStateIndex(allStates, states[i]);
 		if (states[i]->is_Scalar())
-			fss << str(n.getDimension(1) * i + 1) << ",1)" << std::endl;
+			fss << str(k + 1) << ",1)" << std::endl;
 		else
-			fss << str(n.getDimension(1) * i + 1) << ":" 
-			  << str(n.getDimension(1) * (i+1)) << ",:)" 
+			fss << str(k + 1) << ":" 
+			  << str(k + states[i]->getShape().getNumEl()) << ",:)" 
 			  << std::endl;
 	}
 	fss << std::endl;
@@ -209,6 +209,7 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	Graph::VariableVec allStates = getStates(g);
     // Inputs Vector sortieren: 
 	std::sort(inputs.begin(),inputs.end(), sortVariableVec);
 	// Sensors Vector sortieren: 
@@ -237,11 +238,10 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 
 	f << "!declare arguments and return variables" << std::endl;
     f << "    double precision, intent(in) :: time" << std::endl;
-	int input_dim=0; 
+	size_t input_dim = getStateSize(allStates);
 	for (Graph::VariableVec::iterator it=states.begin();it != states.end();++it)
 	{
 		f << "    double precision"<< m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
-		input_dim += (*it)->getShape().getDimension(1);
 	}
 	f << "    double precision, dimension(" << input_dim << ",1), intent(in) :: y" << std::endl;
 	for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
@@ -282,13 +282,13 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 	fss << "!define states" << std::endl; 
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
-        Shape n = states.at(i)->getShape();
 		fss << "    " << m_p->print(states[i]) << " = y(";
+		size_t k = getStateIndex(allStates, states[i]);
 		if (states[i]->is_Scalar())
-			fss << str(n.getDimension(1) * i + 1) << ",1)" << std::endl;
+			fss << str(k + 1) << ",1)" << std::endl;
 		else
-			fss << str(n.getDimension(1) * i + 1) << ":" 
-			  << str(n.getDimension(1) * (i+1)) << ",:)" 
+			fss << str(k + 1) << ":" 
+			  << str(k + states[i]->getShape().getNumEl()) << ",:)" 
 			  << std::endl;
 	}
 	fss << std::endl;
@@ -342,6 +342,7 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	Graph::VariableVec allStates = getStates(g);
 	// Visual_sensors Vector sortieren: 
 	std::sort(sens_vis.begin(),sens_vis.end(), sortVariableVec);
 
@@ -362,11 +363,12 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	f << std::endl;
 
 	f << "!declare arguments and return variables" << std::endl;
-	int input_dim=0; 
+	// visual sensors do not need the whole state vector
+	size_t input_dim=0; 
 	for (Graph::VariableVec::iterator it=states.begin();it != states.end();++it)
 	{
 		f << "    double precision"<< m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
-		input_dim += (*it)->getShape().getDimension(1);
+		input_dim = std::max(input_dim, getStateIndex(allStates, *it) + (*it)->getShape().getNumEl());
 	}
 	f << "    double precision, dimension(" << input_dim << ",1), intent(in) :: y" << std::endl;
 	for (Graph::VariableVec::iterator it=sens_vis.begin();it!=sens_vis.end();++it)
@@ -403,13 +405,13 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	fss << "!define states" << std::endl;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
-        Shape n = states.at(i)->getShape(); 
 		fss << "    " << m_p->print(states[i]) << " = y(";
+		size_t k = getStateIndex(allStates, states[i]);
 		if (states[i]->is_Scalar())
-			fss << str(n.getDimension(1) * i + 1) << ",1)" << std::endl;
+			fss << str(k + 1) << ",1)" << std::endl;
 		else
-			fss << str(n.getDimension(1) * i + 1) << ":" 
-			  << str(n.getDimension(1) * (i+1)) << ",:)" 
+			fss << str(k + 1) << ":" 
+			  << str(k + states[i]->getShape().getNumEl()) << ",:)" 
 			  << std::endl;
 	}
 	fss << std::endl;
diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index 8c519ad..2ea2149 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -164,6 +164,7 @@ double MatlabWriter::generateDerState(Graph::Graph& g)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	Graph::VariableVec allStates = getStates(g);
 	
 	std::ofstream f;
 	std::string filename= m_path + "/" + m_name + "_der_state.m";
@@ -177,9 +178,10 @@ double MatlabWriter::generateDerState(Graph::Graph& g)
 	f << "% State" << std::endl;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
+		size_t k = getStateIndex(allStates, states.at(i));
 		f << "	" << m_p->print(states.at(i)) << " = y("
-		  << str(states.at(i)->getShape().getDimension(1) * i + 1) << ":" 
-		  << str(states.at(i)->getShape().getDimension(1) * (i+1)) << ");" 
+		  << str(k + 1) << ":" 
+		  << str(k + states.at(i)->getShape().getNumEl()) << ");" 
 		  << std::endl;
 	}
 	f << std::endl;
@@ -351,6 +353,7 @@ double MatlabWriter::generateSensors(Graph::Graph& g)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	Graph::VariableVec allStates = getStates(g);
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + "_sensors.m";
@@ -368,9 +371,10 @@ double MatlabWriter::generateSensors(Graph::Graph& g)
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
 		const Symbolics::BasicPtr s = states.at(i);
+		size_t k = getStateIndex(allStates, states.at(i));
 		f << "	" << m_p->print(s) << " = y("
-		  << str(s->getShape().getDimension(1) * i + 1) << ":" 
-		  << str(s->getShape().getDimension(1) * (i+1)) << ");" 
+		  << str(k + 1) << ":" 
+		  << str(k + s->getShape().getNumEl()) << ");" 
 		  << std::endl;
 	}
 
diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 44facdc..7e1627b 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -81,6 +81,7 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	Graph::VariableVec allStates = getStates(g);
 
 	// open file
 	std::ofstream f;
@@ -141,13 +142,13 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	f << "    # state" << std::endl;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
-		Shape n = states.at(i)->getShape();
+		size_t n = states.at(i)->getShape().getNumEl();
+		size_t k = getStateIndex(allStates, states[i]);
 		f << "    " << m_p->print(states[i]) << " = ";
 		if (states[i]->is_Scalar())
-			f << "y[" << str(i) << "]" << std::endl;
+			f << "y[" << str(k) << "]" << std::endl;
 		else
-			f << "matrix(y[" << str(n.getDimension(1) * i) << ":"
-			  << str(n.getDimension(1) * (i+1)) << "], dtype=float).T"
+			f << "matrix(y[" << str(k) << ":" << str(k+n) << "], dtype=float).T"
 			  << std::endl;
 	}
 	f << std::endl;
@@ -240,6 +241,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	Graph::VariableVec allStates = getStates(g);
 
 	// open file
 	std::ofstream f;
@@ -287,13 +289,13 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	f << "    # state" << std::endl;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
-		Shape n = states.at(i)->getShape();
+		size_t n = states.at(i)->getShape().getNumEl();
+		size_t k = getStateIndex(allStates, states[i]);
 		f << "    " << m_p->print(states[i]) << " = ";
 		if (states[i]->is_Scalar())
-			f << "y[" << str(i) << "]" << std::endl;
+			f << "y[" << str(k) << "]" << std::endl;
 		else
-			f << "matrix(y[" << str(n.getDimension(1) * i) << ":"
-			  << str(n.getDimension(1) * (i+1)) << "], dtype=float).T"
+			f << "matrix(y[" << str(k) << ":" << str(k+n) << "], dtype=float).T"
 			  << std::endl;
 	}
 	f << std::endl;
@@ -370,6 +372,7 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	Graph::VariableVec allStates = getStates(g);
 
 	// open file
 	std::ofstream f;
@@ -417,13 +420,13 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	f << "    # state" << std::endl;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
-		Shape n = states.at(i)->getShape();
+		size_t n = states.at(i)->getShape().getNumEl();
+		size_t k = getStateIndex(allStates, states[i]);
 		f << "    " << m_p->print(states[i]) << " = ";
 		if (states[i]->is_Scalar())
-			f << "y[" << str(i) << "]" << std::endl;
+			f << "y[" << str(k) << "]" << std::endl;
 		else
-			f << "matrix(y[" << str(n.getDimension(1) * i) << ":"
-			  << str(n.getDimension(1) * (i+1)) << "], dtype=float).T"
+			f << "matrix(y[" << str(k) << ":" << str(k+n) << "], dtype=float).T"
 			  << std::endl;
 	}
 	f << std::endl;
diff --git a/symbolics/writer/Writer.cpp b/symbolics/writer/Writer.cpp
index bc212b5..d2b188e 100644
--- a/symbolics/writer/Writer.cpp
+++ b/symbolics/writer/Writer.cpp
@@ -1,6 +1,8 @@
 #include "Writer.h"
 #include "str.h"
 
+#include <algorithm>
+
 #ifdef WIN32
   #include <time.h>
 #else
@@ -73,3 +75,39 @@ bool Writer::sortVariableVec (boost::intrusive_ptr<Symbolics::Symbol> a, boost::
 	return (*(a.get()) < *(b.get())); 
 }
 /*****************************************************************************/
+
+/*****************************************************************************/
+Graph::VariableVec Writer::getStates(Graph::Graph& g)
+/*****************************************************************************/
+{
+    Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
+    std::sort(states.begin(), states.end(), sortVariableVec);
+    return states;
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+size_t Writer::getStateIndex(Graph::VariableVec const& states, boost::intrusive_ptr<Symbolics::Symbol> const& state)
+/*****************************************************************************/
+{
+    size_t index = 0;
+    for (Graph::VariableVec::const_iterator it=states.begin(); it!=states.end(); ++it)
+    {
+        if (*it == state)
+            return index;
+        index += (*it)->getShape().getNumEl();
+    }
+    throw InternalError("Writer: State " + state->getName() + " is not part of the state vector!");
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+size_t Writer::getStateSize(Graph::VariableVec const& states)
+/*****************************************************************************/
+{
+    size_t size = 0;
+    for (Graph::VariableVec::const_iterator it=states.begin(); it!=states.end(); ++it)
+        size += (*it)->getShape().getNumEl();
+    return size;
+}
+/*****************************************************************************/
diff --git a/symbolics/writer/include/Writer.h b/symbolics/writer/include/Writer.h
index 3766aaa..9ca12ab 100644
--- a/symbolics/writer/include/Writer.h
+++ b/symbolics/writer/include/Writer.h
@@ -38,6 +38,15 @@ namespace Symbolics
 		// Die Funktion muss static sein, da sie als functionpointer verwendet wird
 		static bool sortVariableVec (boost::intrusive_ptr<Symbolics::Symbol> a, boost::intrusive_ptr<Symbolics::Symbol> b);
 
+        // States of the model in the order they are stacked in the state vector y
+        static Graph::VariableVec getStates(Graph::Graph& g);
+
+        // Index of the first element of a state in the state vector y
+        static size_t getStateIndex(Graph::VariableVec const& states, boost::intrusive_ptr<Symbolics::Symbol> const& state);
+
+        // Number of elements of the state vector y
+        static size_t getStateSize(Graph::VariableVec const& states);
+
     public:
         double generateTarget(std::string name, std::string path, Graph::Graph& g, bool optimize);
 
-- 
2.43.0


From c459755566a8188b050a38ccd743011ea31760bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 56/71] fix: fortran: vector and matrix parameters of sensors
 keep their shape

---
 symbolics/writer/FortranWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index bffba71..028549c 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -255,7 +255,7 @@ double FortranWriter::generateSensors(Graph::Graph& g)
     
 	f << "!Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double precision, parameter"          << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
+		f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
 	f << "!Constants" << std::endl;
@@ -378,7 +378,7 @@ double FortranWriter::generateVisual(Graph::Graph& g)
     
 	f << "!Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double precision, parameter"          << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
+		f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
 	f << "!Constants" << std::endl;
-- 
2.43.0


From cff662c73155781054fc2f4a07b20319fb9e71fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 57/71] fix: fortran: constants are declared as named constants

---
 symbolics/writer/FortranWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 028549c..343fcdd 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -121,7 +121,7 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, constant" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
@@ -260,7 +260,7 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, constant" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
@@ -383,7 +383,7 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, constant" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
-- 
2.43.0


From 96de5dd221e1b56d012def75becac5ee293175e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 58/71] fix: fortran: several results are taken from their own
 temporary variable

---
 symbolics/writer/FortranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 343fcdd..3cec2f2 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -470,7 +470,7 @@ std::string FortranWriter::writeEquations(std::vector<Graph::Assignment> const&
 					s << "    temp_var_" << additionalVarDefs.size() << " = " << m_p->print(simple_exp) << std::endl; 
 					for (size_t j=0; j < mat->getShape().getDimension(1); j++)
 						for (size_t k=0; k < mat->getShape().getDimension(2); k++)
-							s << "    " << m_p->print(mat->get(j,k)) << " = temp_var_1(" << j+1<< "," << k+1 << ")" << std::endl;
+							s << "    " << m_p->print(mat->get(j,k)) << " = temp_var_" << additionalVarDefs.size() << "(" << j+1<< "," << k+1 << ")" << std::endl;
 				}
 			} else {
 				// ordinary equation
-- 
2.43.0


From 18074c479558f1192afafb15bfbfbdf9447c3e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 59/71] fix: python: constants are indented like the other
 statements

---
 symbolics/writer/PythonWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 7e1627b..94d0209 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -183,7 +183,7 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	f << "    # constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
 	{
-		f << "   " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	}
 	f << std::endl;
 
@@ -312,7 +312,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	f << "    # constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
 	{
-		f << "   " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	}
 	f << std::endl;
 
@@ -443,7 +443,7 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	f << "    # constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
 	{
-		f << "   " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	}
 	f << std::endl;
 
-- 
2.43.0


From f056f4e330cad9aa81e555fd93e14abb2336a8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 60/71] fix: python: import tan

---
 symbolics/writer/PythonWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 94d0209..775a5c2 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -94,7 +94,7 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	f << std::endl << std::endl;
 
 	//f << "from numba import njit" << std::endl;
-	f << "from numpy import linalg, vstack, asarray, sin, cos, pi, sqrt, zeros, bmat, matrix" << std::endl;
+	f << "from numpy import linalg, vstack, asarray, sin, cos, tan, pi, sqrt, zeros, bmat, matrix" << std::endl;
 	f << "from numpy import arctan2 as atan2" << std::endl;
 	f << "from numpy import arctan as atan" << std::endl;
 	f << "from numpy import arcsin as asin" << std::endl;
@@ -253,7 +253,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl << std::endl;
 
-	f << "from numpy import linalg, vstack, asarray, sin, cos, pi, sqrt, zeros, bmat, matrix" << std::endl;
+	f << "from numpy import linalg, vstack, asarray, sin, cos, tan, pi, sqrt, zeros, bmat, matrix" << std::endl;
 	f << "from numpy import arctan2 as atan2" << std::endl;
 	f << "from numpy import arctan as atan" << std::endl;
 	f << "from numpy import arcsin as asin" << std::endl;
@@ -384,7 +384,7 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl << std::endl;
 
-	f << "from numpy import linalg, vstack, asarray, sin, cos, pi, sqrt, zeros, bmat, matrix" << std::endl;
+	f << "from numpy import linalg, vstack, asarray, sin, cos, tan, pi, sqrt, zeros, bmat, matrix" << std::endl;
 	f << "from numpy import arctan2 as atan2" << std::endl;
 	f << "from numpy import arctan as atan" << std::endl;
 	f << "from numpy import arcsin as asin" << std::endl;
-- 
2.43.0


From db5bd94da08886bf00ace2e60fa488df3c5c6365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:42 +0000
Subject: [PATCH 61/71] fix: c: scalar sensors reach the caller

---
 symbolics/writer/CWriter.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 6cc10e5..0f596cb 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -336,13 +336,25 @@ double CWriter::generateSensors(Graph::Graph& g)
 	for (Graph::VariableVec::iterator it=inputs.begin();it!=inputs.end();++it)
 		f << ", double " << m_p->print(*it) << m_p->dimension(*it); 
 	for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
+	{
+		f << ", ";
 		if (it==sensors.begin())
-			f << ", " << std::endl <<"                double " << m_p->print(*it) << m_p->dimension(*it);
+			f << std::endl << "                ";
+		// scalars have to be passed by address in order to be returned
+		if ((*it)->is_Scalar())
+			f << "double * out_" << m_p->print(*it);
 		else
-			f << ", double " << m_p->print(*it) << m_p->dimension(*it); 
+			f << "double " << m_p->print(*it) << m_p->dimension(*it); 
+	}
 	f << ")" << std::endl;  
 	f << "{" << std::endl;
 
+	f << "/* scalar sensors */" << std::endl;
+	for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
+		if ((*it)->is_Scalar())
+			f << "    double " << m_p->print(*it) << " = 0;" << std::endl;
+	f << std::endl;
+
 	f << "/* declare state variables */" << std::endl;
 	for (size_t i=0; i < states.size(); ++i)
 	{
@@ -379,6 +391,12 @@ double CWriter::generateSensors(Graph::Graph& g)
 	f << writeEquations(a->getEquations(PARAMETER | CONSTANT | INPUT )) << std::endl;
     f << std::endl;
 
+	f << "/* set return values */" << std::endl;
+	for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
+		if ((*it)->is_Scalar())
+			f << "    *out_" << m_p->print(*it) << " = " << m_p->print(*it) << ";" << std::endl;
+	f << std::endl;
+
 	f << "	return 0;" << std::endl;
 	f << "}" << std::endl;
 	
@@ -630,7 +648,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	for (Graph::VariableVec::iterator it=sensors.begin(); it!=sensors.end(); ++it)
 	{
 		if ((*it)->is_Scalar())
-			f << "," << std::endl << "                    c_double";
+			f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=1)";
 		else
 		//	f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=" << (*it)->getShape().getNrDimensions() << ")";
             f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=2)";
-- 
2.43.0


From c514e184ec2533501c94845c395fcab28e578600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:57 +0000
Subject: [PATCH 62/71] fix: c: systems of equations of any size can be solved

---
 symbolics/writer/CWriter.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 0f596cb..b6152d7 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -435,7 +435,7 @@ std::string CWriter::writeEquations(std::vector<Graph::Assignment> const& equati
 				s << "    {" << std::endl;
 				s << "        double solve_A[" << dim << "][" << dim << "] = " << m_p->print(solve->getArg1()) << ";" << std::endl;
 				s << "        double solve_b[" << dim << "] = " << m_p->print(solve->getArg2()) << ";" << std::endl;
-				s << "        legs(solve_A, solve_b, " << m_p->print(it->lhs[i]->getArg(0)->getArg(0)) << ");" << std::endl;
+				s << "        legs(" << dim << ", solve_A, solve_b, " << m_p->print(it->lhs[i]->getArg(0)->getArg(0)) << ");" << std::endl;
 				s << "    }" << std::endl;
 			} else {
 				// ordinary equation
@@ -721,7 +721,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 
 
 /*****************************************************************************/
-double CWriter::generateFunctionmodule(int n)
+double CWriter::generateFunctionmodule(int)
 /*****************************************************************************/
 {
 	//get timestamp and catch variables from graph
@@ -749,11 +749,10 @@ double CWriter::generateFunctionmodule(int n)
 	f << std::endl;
 	f << "#include <stdio.h>" << std::endl;
 	f << "#include <math.h>" << std::endl;
-	f << "#define n " << n << std::endl;
 	f << std::endl;
-	f << "void elgs(double A[n][n], int *indx);" << std::endl;
+	f << "void elgs(int n, double A[n][n], int *indx);" << std::endl;
 	f << std::endl;
-	f << "void legs (double A[n][n], double *b, double *x)" << std::endl;
+	f << "void legs (int n, double A[n][n], double *b, double *x)" << std::endl;
 	f << "/* Function to solve the equation A[n][n]*x[n] = b[n] with the" << std::endl;
 	f << "   partial-pivoting Gaussian elimination scheme." << std::endl;
 	f << "   Copyright (c) Tao Pang 2001. */" << std::endl;
@@ -761,7 +760,7 @@ double CWriter::generateFunctionmodule(int n)
 	f << "  int indx[n];" << std::endl;
 	f << "  int i, j;" << std::endl;
 	f << std::endl;
-	f << "  elgs (A,indx);" << std::endl;
+	f << "  elgs (n, A, indx);" << std::endl;
 	f << std::endl;
 	f << "  for(i = 0; i < n-1; ++i)" << std::endl;
 	f << "  {" << std::endl;
@@ -784,7 +783,7 @@ double CWriter::generateFunctionmodule(int n)
 	f << std::endl;
 	f << "}" << std::endl;
 	f << std::endl;
-	f << "void elgs (double A[n][n], int *indx)" << std::endl;
+	f << "void elgs (int n, double A[n][n], int *indx)" << std::endl;
 	f << std::endl;
 	f << "/* Function to perform the partial pivoting Gaussian elimination." << std::endl;
 	f << "   A[][] is the original matrix in the input and transformed" << std::endl;
-- 
2.43.0


From 85f5f62046bbe5406a564f8e0435f02a9b88d7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:03 +0000
Subject: [PATCH 63/71] fix: modelica: dimension of a constant is declared once

---
 symbolics/writer/ModelicaWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/ModelicaWriter.cpp b/symbolics/writer/ModelicaWriter.cpp
index 04bb019..1a9b712 100644
--- a/symbolics/writer/ModelicaWriter.cpp
+++ b/symbolics/writer/ModelicaWriter.cpp
@@ -123,7 +123,7 @@ double ModelicaWriter::generateTarget_Impl(Graph::Graph &g)
   f << "//Constants" << std::endl;
   for (Graph::VariableVec::iterator ii=constants.begin();ii!=constants.end();++ii)
   {
-    f << "   constant Real" <<  p.dimension(*ii) << " " <<  p.dimension(*ii) << (*ii)->getName() << " = " << p.print(g.getEquation(*ii)) << p.comment2(g,*ii) <<  ";" << std::endl;
+    f << "   constant Real" <<  p.dimension(*ii) << " " << (*ii)->getName() << " = " << p.print(g.getEquation(*ii)) << p.comment2(g,*ii) <<  ";" << std::endl;
   }
   f << "//Variables" << std::endl;
   for (Graph::VariableVec::iterator ii=variables.begin();ii!=variables.end();++ii)
-- 
2.43.0


From a3b87929e3d2ddf6849decf793eafb0837d9dbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:03 +0000
Subject: [PATCH 64/71] fix: fortran: negative powers of matrices beyond the
 inverse

---
 symbolics/writer/FortranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 3cec2f2..1e5884d 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -689,7 +689,7 @@ double FortranWriter::generateFunctionmodule()
 	f << "    end if" << std::endl;
 	f << "    matpow = B" << std::endl;
 	f << std::endl;
-	f << "    do i=2, e" << std::endl;
+	f << "    do i=2, abs(e)" << std::endl;
 	f << "        matpow = matmul(matpow, B)" << std::endl;
 	f << "    end do" << std::endl;
 	f << std::endl;
-- 
2.43.0


From b8977f74285b87e18e4aa6fc03d1cc0db916ab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:31 +0000
Subject: [PATCH 65/71] fix: the scalar in a zero matrix of one element is zero

---
 symbolics/functions/Scalar.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symbolics/functions/Scalar.cpp b/symbolics/functions/Scalar.cpp
index 366e11f..66c1fe5 100644
--- a/symbolics/functions/Scalar.cpp
+++ b/symbolics/functions/Scalar.cpp
@@ -4,6 +4,7 @@
 #include "Util.h"
 #include "Matrix.h"
 #include "Int.h"
+#include "Zero.h"
 
 using namespace Symbolics;
 
@@ -82,6 +83,8 @@ BasicPtr Scalar::simplify()
             const Matrix *mat = Util::getAsConstPtr<Matrix>(getArg());
             return (*mat)(0,0);
         }
+    case Type_Zero:
+        return Zero::getExactZero(Shape());
     case Type_Neg:
         {
             const Neg *neg = Util::getAsConstPtr<Neg>(getArg());
-- 
2.43.0


From d9597fd35e59e0a6c34891552a74806a96b8191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 66/71] fix: negative indices of zero vectors and matrices are
 refused like those of others

---
 symbolics/wrapper/CBasic.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/symbolics/wrapper/CBasic.cpp b/symbolics/wrapper/CBasic.cpp
index 60b1f56..dd42855 100644
--- a/symbolics/wrapper/CBasic.cpp
+++ b/symbolics/wrapper/CBasic.cpp
@@ -585,6 +585,11 @@ bool getIndex( PyObject *index, Shape const& s, std::vector<int> &m, std::vector
 		PyErr_SetString(SymbolicsError, "No first index specified!");
 		return false;
 	}
+	if ((m[0] < 0) || ((n.size() > 0) && (n[0] < 0)))
+	{
+		PyErr_SetString(SymbolicsError, "Index is negative!");
+		return false;
+	}
 	if (n.size() == 0)	// Als Vektor
 	{
 		// Letztes, und damit groesstes m vergleichen
-- 
2.43.0


From e298c0e22e43de487df9ee48e7b0cee7a8b470b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:08 +0000
Subject: [PATCH 67/71] fix: addJoint leaves the list of degrees of freedom it
 is given unchanged

---
 pymbs/input/mbs_system.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index e760f07..04f8c0b 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -372,6 +372,7 @@ class MbsSystem(Body):
         if (dofList is None):
             dofList = []
         assert isinstance(dofList, list)
+        dofList = list(dofList)    # the caller's list is left as it is
         assert 0 <= len(dofList) <=6
 
         if startVals is None:
-- 
2.43.0


From 7ce78e87be5f1f2e66046a9a19a34a68a2a1102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:14 +0000
Subject: [PATCH 68/71] fix: symbolic Matlab sensors are computed in the order
 of their dependencies

---
 symbolics/writer/MatlabWriter.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index 2ea2149..70bfce9 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -472,13 +472,8 @@ double MatlabWriter::generateSymSensors(Graph::Graph& g)
 	}
 	f << std::endl;
 
-	f << "% Equations" << std::endl;
-	f << writeEquations(a->getEquations(PARAMETER | CONSTANT | INPUT | SENSOR )) << std::endl;
-
-	f << "% Sensors" << std::endl;
-    for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
-        f << "	" << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << " " << m_p->comment2(g,*it) << std::endl;
-	f << std::endl;
+	f << "% Equations and Sensors" << std::endl;
+	f << writeEquations(a->getEquations(PARAMETER | CONSTANT | INPUT )) << std::endl;
 
 	f << "% Struct including sensor-values" << std::endl;
 	for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
-- 
2.43.0


From 1efa830500b4077f114c89aca9fcee455257c009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:14 +0000
Subject: [PATCH 69/71] fix: values of matrix parameters stay within the
 comment in symbolic Matlab code

---
 symbolics/writer/MatlabWriter.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index 70bfce9..d6ee0b0 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -39,6 +39,17 @@ MatlabWriter::~MatlabWriter()
 /*****************************************************************************/
 
 
+/*****************************************************************************/
+// every line of a value within a comment
+static std::string commented(std::string s)
+/*****************************************************************************/
+{
+	for (size_t i = s.find('\n'); i != std::string::npos; i = s.find('\n', i + 1))
+		s.insert(i + 1, "	%");
+	return s;
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 double MatlabWriter::generateTarget_Impl(Graph::Graph &g)
 /*****************************************************************************/
@@ -265,14 +276,14 @@ double MatlabWriter::generateSymDerState(Graph::Graph& g)
 	f << "% Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it) {
 		f << "	" << m_p->print(*it) << " = sym ('" << m_p->print(*it) << "'" << m_p->dimension(*it) << ")" << m_p->comment2(g,*it) << std::endl;
-		f << "	%" << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << ";" << std::endl;
+		f << "	%" << m_p->print(*it) << " = " << commented(m_p->print(g.getEquation(*it))) << ";" << std::endl;
 	}
 	f << std::endl;
 
 	f << "% Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it) {
 		f << "	" << m_p->print(*it) << " = sym ('" << m_p->print(*it) << "'" << m_p->dimension(*it) << ")" << m_p->comment2(g,*it) << std::endl;
-        f << "	% " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << ";" << std::endl;
+        f << "	% " << m_p->print(*it) << " = " << commented(m_p->print(g.getEquation(*it))) << ";" << std::endl;
 	}
 	f << std::endl;
 
@@ -461,14 +472,14 @@ double MatlabWriter::generateSymSensors(Graph::Graph& g)
 	f << "% Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it) {
 		f << "	" << m_p->print(*it) << " = sym ('" << m_p->print(*it) << "'" << m_p->dimension(*it) << ")" << m_p->comment2(g,*it) << std::endl;
-		f << "	%" << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << ";" << std::endl;
+		f << "	%" << m_p->print(*it) << " = " << commented(m_p->print(g.getEquation(*it))) << ";" << std::endl;
 	}
 	f << std::endl;
 
 	f << "% Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it) {
 		f << "	" << m_p->print(*it) << " = sym ('" << m_p->print(*it) << "'" << m_p->dimension(*it) << ")" << m_p->comment2(g,*it) << std::endl;
-        f << "	% " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << ";" << std::endl;
+        f << "	% " << m_p->print(*it) << " = " << commented(m_p->print(g.getEquation(*it))) << ";" << std::endl;
 	}
 	f << std::endl;
 
-- 
2.43.0


From ee3f6f645b4aba4fcf6e703da7462b4c5071a690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:00 +0000
Subject: [PATCH 70/71] fix: rates and accelerations of a hexapod's legs belong
 to the angles of the legs

---
 pymbs/processing/loops/hexapod.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pymbs/processing/loops/hexapod.py b/pymbs/processing/loops/hexapod.py
index 6aad9c8..9f3a504 100644
--- a/pymbs/processing/loops/hexapod.py
+++ b/pymbs/processing/loops/hexapod.py
@@ -233,6 +233,10 @@ class Hexapod(Loop):
 
 
         # and calculate Bvu and b_prime respectively
+        # (the formulas below are written for the angle atan2(l[2],l[0]) = -v1)
+        v1  = -Alpha_Zyl
+        v1d = -v1d
+
         Bvu = Matrix([
         [      cos(v1)*cos(v2),    sin(v2),      sin(v1)*cos(v2),       tpx*sin(u3)*sin(u4)*sin(v1)*cos(u5)*cos(v2) - tpx*sin(u3)*sin(u5)*sin(v2) + tpx*sin(u4)*sin(v2)*cos(u3)*cos(u5) + tpx*sin(u5)*sin(v1)*cos(u3)*cos(v2) - tpy*sin(u3)*sin(u4)*sin(u5)*sin(v1)*cos(v2) - tpy*sin(u3)*sin(v2)*cos(u5) - tpy*sin(u4)*sin(u5)*sin(v2)*cos(u3) + tpy*sin(v1)*cos(u3)*cos(u5)*cos(v2) - tpz*sin(u3)*sin(v1)*cos(u4)*cos(v2) - tpz*sin(v2)*cos(u3)*cos(u4),        tpx*sin(u3)*sin(v2)*cos(u4)*cos(u5) - tpx*sin(u4)*cos(u5)*cos(v1)*cos(v2) - tpx*sin(v1)*cos(u3)*cos(u4)*cos(u5)*cos(v2) - tpy*sin(u3)*sin(u5)*sin(v2)*cos(u4) + tpy*sin(u4)*sin(u5)*cos(v1)*cos(v2) + tpy*sin(u5)*sin(v1)*cos(u3)*cos(u4)*cos(v2) + tpz*sin(u3)*sin(u4)*sin(v2) - tpz*sin(u4)*sin(v1)*cos(u3)*cos(v2) + tpz*cos(u4)*cos(v1)*cos(v2),      -tpx*sin(u3)*sin(u4)*sin(u5)*sin(v2) + tpx*sin(u3)*sin(v1)*cos(u5)*cos(v2) + tpx*sin(u4)*sin(u5)*sin(v1)*cos(u3)*cos(v2) - tpx*sin(u5)*cos(u4)*cos(v1)*cos(v2) + tpx*sin(v2)*cos(u3)*cos(u5) - tpy*sin(u3)*sin(u4)*sin(v2)*cos(u5) - tpy*sin(u3)*sin(u5)*sin(v1)*cos(v2) + tpy*sin(u4)*sin(v1)*cos(u3)*cos(u5)*cos(v2) - tpy*sin(u5)*sin(v2)*cos(u3) - tpy*cos(u4)*cos(u5)*cos(v1)*cos(v2)],
         [-sin(v1)/(v0*cos(v2)),          0, cos(v1)/(v0*cos(v2)),                                                                                                                                                                                                                                      (tpx*sin(u3)*sin(u4)*cos(u5) + tpx*sin(u5)*cos(u3) - tpy*sin(u3)*sin(u4)*sin(u5) + tpy*cos(u3)*cos(u5) - tpz*sin(u3)*cos(u4))*cos(v1)/(v0*cos(v2)),                                                                                                                                                   (tpx*sin(u4)*sin(v1)*cos(u5) - tpx*cos(u3)*cos(u4)*cos(u5)*cos(v1) - tpy*sin(u4)*sin(u5)*sin(v1) + tpy*sin(u5)*cos(u3)*cos(u4)*cos(v1) - tpz*sin(u4)*cos(u3)*cos(v1) - tpz*sin(v1)*cos(u4))/(v0*cos(v2)),                                                                                                                                                                                (tpx*sin(u3)*cos(u5)*cos(v1) + tpx*sin(u4)*sin(u5)*cos(u3)*cos(v1) + tpx*sin(u5)*sin(v1)*cos(u4) - tpy*sin(u3)*sin(u5)*cos(v1) + tpy*sin(u4)*cos(u3)*cos(u5)*cos(v1) + tpy*sin(v1)*cos(u4)*cos(u5))/(v0*cos(v2))],
@@ -244,4 +248,8 @@ class Hexapod(Loop):
         (-tpx*u3d**2*sin(u3)*sin(u5)*cos(v1) + tpx*u3d**2*sin(u4)*cos(u3)*cos(u5)*cos(v1) + 2*tpx*u3d*u4d*sin(u3)*cos(u4)*cos(u5)*cos(v1) - 2*tpx*u3d*u5d*sin(u3)*sin(u4)*sin(u5)*cos(v1) + 2*tpx*u3d*u5d*cos(u3)*cos(u5)*cos(v1) + tpx*u4d**2*sin(u4)*cos(u3)*cos(u5)*cos(v1) + tpx*u4d**2*sin(v1)*cos(u4)*cos(u5) - 2*tpx*u4d*u5d*sin(u4)*sin(u5)*sin(v1) + 2*tpx*u4d*u5d*sin(u5)*cos(u3)*cos(u4)*cos(v1) - tpx*u5d**2*sin(u3)*sin(u5)*cos(v1) + tpx*u5d**2*sin(u4)*cos(u3)*cos(u5)*cos(v1) + tpx*u5d**2*sin(v1)*cos(u4)*cos(u5) - tpy*u3d**2*sin(u3)*cos(u5)*cos(v1) - tpy*u3d**2*sin(u4)*sin(u5)*cos(u3)*cos(v1) - 2*tpy*u3d*u4d*sin(u3)*sin(u5)*cos(u4)*cos(v1) - 2*tpy*u3d*u5d*sin(u3)*sin(u4)*cos(u5)*cos(v1) - 2*tpy*u3d*u5d*sin(u5)*cos(u3)*cos(v1) - tpy*u4d**2*sin(u4)*sin(u5)*cos(u3)*cos(v1) - tpy*u4d**2*sin(u5)*sin(v1)*cos(u4) - 2*tpy*u4d*u5d*sin(u4)*sin(v1)*cos(u5) + 2*tpy*u4d*u5d*cos(u3)*cos(u4)*cos(u5)*cos(v1) - tpy*u5d**2*sin(u3)*cos(u5)*cos(v1) - tpy*u5d**2*sin(u4)*sin(u5)*cos(u3)*cos(v1) - tpy*u5d**2*sin(u5)*sin(v1)*cos(u4) - tpz*u3d**2*cos(u3)*cos(u4)*cos(v1) + 2*tpz*u3d*u4d*sin(u3)*sin(u4)*cos(v1) + tpz*u4d**2*sin(u4)*sin(v1) - tpz*u4d**2*cos(u3)*cos(u4)*cos(v1) + 2*v0*v1d*v2d*sin(v2) - 2*v0d*v1d*cos(v2))/(v0*cos(v2)),
         -(tpx*u3d**2*sin(u3)*sin(u4)*cos(u5)*cos(v2) - tpx*u3d**2*sin(u3)*sin(u5)*sin(v1)*sin(v2) + tpx*u3d**2*sin(u4)*sin(v1)*sin(v2)*cos(u3)*cos(u5) + tpx*u3d**2*sin(u5)*cos(u3)*cos(v2) + 2*tpx*u3d*u4d*sin(u3)*sin(v1)*sin(v2)*cos(u4)*cos(u5) - 2*tpx*u3d*u4d*cos(u3)*cos(u4)*cos(u5)*cos(v2) - 2*tpx*u3d*u5d*sin(u3)*sin(u4)*sin(u5)*sin(v1)*sin(v2) + 2*tpx*u3d*u5d*sin(u3)*cos(u5)*cos(v2) + 2*tpx*u3d*u5d*sin(u4)*sin(u5)*cos(u3)*cos(v2) + 2*tpx*u3d*u5d*sin(v1)*sin(v2)*cos(u3)*cos(u5) + tpx*u4d**2*sin(u3)*sin(u4)*cos(u5)*cos(v2) + tpx*u4d**2*sin(u4)*sin(v1)*sin(v2)*cos(u3)*cos(u5) - tpx*u4d**2*sin(v2)*cos(u4)*cos(u5)*cos(v1) + 2*tpx*u4d*u5d*sin(u3)*sin(u5)*cos(u4)*cos(v2) + 2*tpx*u4d*u5d*sin(u4)*sin(u5)*sin(v2)*cos(v1) + 2*tpx*u4d*u5d*sin(u5)*sin(v1)*sin(v2)*cos(u3)*cos(u4) + tpx*u5d**2*sin(u3)*sin(u4)*cos(u5)*cos(v2) - tpx*u5d**2*sin(u3)*sin(u5)*sin(v1)*sin(v2) + tpx*u5d**2*sin(u4)*sin(v1)*sin(v2)*cos(u3)*cos(u5) + tpx*u5d**2*sin(u5)*cos(u3)*cos(v2) - tpx*u5d**2*sin(v2)*cos(u4)*cos(u5)*cos(v1) - tpy*u3d**2*sin(u3)*sin(u4)*sin(u5)*cos(v2) - tpy*u3d**2*sin(u3)*sin(v1)*sin(v2)*cos(u5) - tpy*u3d**2*sin(u4)*sin(u5)*sin(v1)*sin(v2)*cos(u3) + tpy*u3d**2*cos(u3)*cos(u5)*cos(v2) - 2*tpy*u3d*u4d*sin(u3)*sin(u5)*sin(v1)*sin(v2)*cos(u4) + 2*tpy*u3d*u4d*sin(u5)*cos(u3)*cos(u4)*cos(v2) - 2*tpy*u3d*u5d*sin(u3)*sin(u4)*sin(v1)*sin(v2)*cos(u5) - 2*tpy*u3d*u5d*sin(u3)*sin(u5)*cos(v2) + 2*tpy*u3d*u5d*sin(u4)*cos(u3)*cos(u5)*cos(v2) - 2*tpy*u3d*u5d*sin(u5)*sin(v1)*sin(v2)*cos(u3) - tpy*u4d**2*sin(u3)*sin(u4)*sin(u5)*cos(v2) - tpy*u4d**2*sin(u4)*sin(u5)*sin(v1)*sin(v2)*cos(u3) + tpy*u4d**2*sin(u5)*sin(v2)*cos(u4)*cos(v1) + 2*tpy*u4d*u5d*sin(u3)*cos(u4)*cos(u5)*cos(v2) + 2*tpy*u4d*u5d*sin(u4)*sin(v2)*cos(u5)*cos(v1) + 2*tpy*u4d*u5d*sin(v1)*sin(v2)*cos(u3)*cos(u4)*cos(u5) - tpy*u5d**2*sin(u3)*sin(u4)*sin(u5)*cos(v2) - tpy*u5d**2*sin(u3)*sin(v1)*sin(v2)*cos(u5) - tpy*u5d**2*sin(u4)*sin(u5)*sin(v1)*sin(v2)*cos(u3) + tpy*u5d**2*sin(u5)*sin(v2)*cos(u4)*cos(v1) + tpy*u5d**2*cos(u3)*cos(u5)*cos(v2) - tpz*u3d**2*sin(u3)*cos(u4)*cos(v2) - tpz*u3d**2*sin(v1)*sin(v2)*cos(u3)*cos(u4) + 2*tpz*u3d*u4d*sin(u3)*sin(u4)*sin(v1)*sin(v2) - 2*tpz*u3d*u4d*sin(u4)*cos(u3)*cos(v2) - tpz*u4d**2*sin(u3)*cos(u4)*cos(v2) - tpz*u4d**2*sin(u4)*sin(v2)*cos(v1) - tpz*u4d**2*sin(v1)*sin(v2)*cos(u3)*cos(u4) + v0*v1d**2*sin(v2)*cos(v2) - 2*v0d*v2d*sin(v1)**2*cos(v2)**2 + 2*v0d*v2d*sin(v1)**2 - 2*v0d*v2d*cos(v1)**2*cos(v2)**2 + 2*v0d*v2d*cos(v1)**2 + 2*v0d*v2d*cos(v2)**2)/v0,        ])
 
-        return ([v0,v1,v2],Bvu,b_prime)
\ No newline at end of file
+        for i in range(len(self.u)):
+            Bvu[1,i] = -Bvu[1,i]
+        b_prime[1] = -b_prime[1]
+
+        return ([l_Zyl,Alpha_Zyl,Beta_Zyl],Bvu,b_prime)
\ No newline at end of file
-- 
2.43.0


From df33b501e47778785d920db6700c2cea0ec38ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:35 +0000
Subject: [PATCH 71/71] fix: the explicit formulation defines its states when
 only kinematics is asked for

---
 pymbs/processing/generator_explicit.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pymbs/processing/generator_explicit.py b/pymbs/processing/generator_explicit.py
index 9b21e13..6dfb351 100644
--- a/pymbs/processing/generator_explicit.py
+++ b/pymbs/processing/generator_explicit.py
@@ -42,6 +42,7 @@ class Generator_Explicit(Generator):
 
         if (self.kinematicsOnly):
             self.handleLoops(graph)
+            self.defineStates(graph)
         else:
             # Obtain Equations
             print(self.q, self.q.__class__)
@@ -56,6 +57,23 @@ class Generator_Explicit(Generator):
         return True
 
 
+    def defineStates(self, graph):
+        '''
+        Generate equations for q, qd and qdd if self.kinematicsOnly
+        '''
+
+        # Define State variables
+        q = graph.addVariable(name='q', shape=self.reduce_shape( self.q.shape() ), initialValue=scalar_if_possible(self.q0) )
+        qd = graph.addVariable(name='qd', shape=self.reduce_shape( self.qd.shape() ), initialValue=scalar_if_possible(self.qd0) )
+        qdd = graph.addVariable(name='qdd', shape=self.reduce_shape( self.qdd.shape() ), varKind=VarKind.Input)
+        graph.addEquation(self.state.q, q)
+        graph.addEquation(self.state.qd, qd)
+        graph.addEquation(self.state.qdd, qdd)
+
+        graph.addEquation(der(q), qd)
+        graph.addEquation(der(qd), qdd)
+
+
     def calcBodyStates(self, graph):
         '''
         Calculates All Positions w.r.t. Inertial Frame
-- 
2.43.0

