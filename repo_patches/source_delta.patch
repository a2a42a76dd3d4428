From 5e83db54ae393301f049fbcd04ee28aa655b47ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 001/126] fix: a column vector times a matrix with one row is a
 matrix

---
 symbolics/Shape.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symbolics/Shape.cpp b/symbolics/Shape.cpp
index 90ccdcf..b127e14 100644
--- a/symbolics/Shape.cpp
+++ b/symbolics/Shape.cpp
@@ -181,6 +181,9 @@ Shape& Shape::operator*= ( Shape const& rhs)
     // Matrix * Matrix
     m_ndim = min(getNrDimensions(), rhs.getNrDimensions());
     m_dim2 = rhs.getDimension(2);
+    // a vector times a matrix may have several rows and columns
+    if ((m_ndim == 1) && (m_dim1 != 1) && (m_dim2 != 1))
+        m_ndim = 2;
     m_numElem = m_dim1*m_dim2;    
     
 
-- 
2.43.0


From 509d3da08f37ec83f9a7445640e5ebb6e4f54b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 002/126] fix: -(1) is not one

---
 symbolics/functions/Util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/functions/Util.cpp b/symbolics/functions/Util.cpp
index 42341e4..0eb5733 100644
--- a/symbolics/functions/Util.cpp
+++ b/symbolics/functions/Util.cpp
@@ -189,7 +189,7 @@ bool Util::is_One( BasicPtr const& e)
     {
         const Basic *b = e.get();
         const Neg *c = dynamic_cast<const Neg*>(b);
-        return is_One(c->getArg());
+        return c->getArg() == Int::getMinusOne();
     }
     default:
         return false;
-- 
2.43.0


From 9b99970d60f04ecc6395934bbb4b462c6c12b661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 003/126] fix: a vector of ones is not the neutral element of a
 product

---
 symbolics/functions/Mul.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index f35de60..84f7e9e 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -195,11 +195,11 @@ BasicPtr Mul::simplify()
             // mul them
             lastarg = New(lastarg,dst[i]);
         }
-        else if (Util::is_One(lastarg) && (!dst[i]->is_Scalar()))
+        else if (Util::is_One(lastarg) && (!dst[i]->is_Scalar()) && (lastarg->getShape()*dst[i]->getShape() == dst[i]->getShape()))
         {
           lastarg=dst[i];
         }
-        else if (Util::is_One(dst[i]) && (!lastarg->is_Scalar()))
+        else if (Util::is_One(dst[i]) && (!lastarg->is_Scalar()) && (lastarg->getShape()*dst[i]->getShape() == lastarg->getShape()))
         {
           continue;
         }
-- 
2.43.0


From 6dc3620c13d9c2939188e0a2a3a40345073dd4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 004/126] fix: x*x^n simplified to x^(n+1)*x^n

---
 symbolics/functions/Mul.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index 84f7e9e..5362fea 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -219,6 +219,7 @@ BasicPtr Mul::simplify()
             const Pow *c = Util::getAsConstPtr<Pow>(dst[i]);
             if (lastarg == c->getBase())
               lastarg = BasicPtr(new Pow(lastarg,Add::New(c->getExponent(),Int::getOne())));
+            else
             {
               addArg(lastarg->simplify());
               lastarg = dst[i];
-- 
2.43.0


From fbce9b406d788416300a6245c8dfaef5c681d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 005/126] fix: the zero of a one-component vector or matrix
 keeps its shape

---
 symbolics/Zero.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/Zero.cpp b/symbolics/Zero.cpp
index d22e29b..3484521 100644
--- a/symbolics/Zero.cpp
+++ b/symbolics/Zero.cpp
@@ -109,7 +109,7 @@ BasicPtr Zero::getExactZero(Shape const& s)
 BasicPtr Zero::getZero(Shape const& s)
 /*****************************************************************************/
 {
-    if (s.getNumEl() == 1)
+    if (s.getNrDimensions() == 0)
         return zero;
     return BasicPtr(new Zero(s));
 }
-- 
2.43.0


From 38c8f3541c47ed7219e7d260e7e878a11550a542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 006/126] fix: solve checks the shapes of its arguments before
 it simplifies

---
 symbolics/functions/Solve.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/symbolics/functions/Solve.cpp b/symbolics/functions/Solve.cpp
index 0e4c21b..687b5d1 100644
--- a/symbolics/functions/Solve.cpp
+++ b/symbolics/functions/Solve.cpp
@@ -56,7 +56,7 @@ void Solve::validate()
         throw ShapeError(msg.c_str());
     }
     // Shape berechnen
-    m_shape = Shape(s1.getDimension(2));
+    m_shape = (getArg1()->is_Scalar() && getArg2()->is_Scalar()) ? Shape() : Shape(s1.getDimension(2));
 }
 /*****************************************************************************/
 
@@ -86,10 +86,10 @@ BasicPtr Solve::simplify()
     // b is zero
     if (Util::is_Zero(getArg2()))
     {
-        return getArg2();
+        return Zero::getZero(m_shape);
     }
     // A is One
-    if (Util::is_One(getArg1()))
+    if (Util::is_One(getArg1()) && (getArg2()->getShape() == m_shape))
     {
         return getArg2();
     }
@@ -107,13 +107,16 @@ BasicPtr Solve::simplify()
 BasicPtr Solve::New( BasicPtr const& arg1, BasicPtr const& arg2)
 /*****************************************************************************/
 {
+    // b is zero
+    // check the shapes before anything is simplified
+    BasicPtr solve(new Solve(arg1,arg2));
     // b is zero
     if (Util::is_Zero(arg2))
     {
-        return arg2;
+        return Zero::getZero(solve->getShape());
     }
     // A is One
-    if (Util::is_One(arg1))
+    if (Util::is_One(arg1) && (arg2->getShape() == solve->getShape()))
     {
         return arg2;
     }
@@ -122,7 +125,7 @@ BasicPtr Solve::New( BasicPtr const& arg1, BasicPtr const& arg2)
     {
         return Util::div(arg2,arg1);
     }
-    return BasicPtr(new Solve(arg1,arg2));
+    return solve;
 }
 /*****************************************************************************/
 
-- 
2.43.0


From f49153518f845e7981bad36ae31e615aab746990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 007/126] fix: inv checks for square matrices, inverts scalars
 and has a derivative

---
 symbolics/functions/Inverse.cpp       | 50 +++++++++++++++++++--------
 symbolics/functions/include/Inverse.h |  7 ++--
 2 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/symbolics/functions/Inverse.cpp b/symbolics/functions/Inverse.cpp
index 665f9c0..06db8df 100644
--- a/symbolics/functions/Inverse.cpp
+++ b/symbolics/functions/Inverse.cpp
@@ -2,6 +2,7 @@
 #include "Matrix.h"
 #include "Util.h"
 #include "Neg.h"
+#include "Mul.h"
 #include "Operators.h"
 
 using namespace Symbolics;
@@ -10,9 +11,7 @@ using namespace Symbolics;
 Inverse::Inverse( BasicPtrVec const& args ): UnaryOp(Type_Inverse, args)
 /*****************************************************************************/
 {
-    m_shape = getArg()->getShape();
-    if (m_shape.getNrDimensions() != 2)
-		  throw InternalError("inv of " + getArg()->toString() + " is not definet");
+    validate();
 }
 /*****************************************************************************/
 
@@ -22,9 +21,20 @@ Inverse::Inverse( BasicPtr const& arg ): UnaryOp(Type_Inverse, arg)
 /*****************************************************************************/
 {
     // Shape berechnen
-  m_shape = getArg()->getShape();
-	if (m_shape.getNrDimensions() != 2)
-	 throw InternalError("inv of " + getArg()->toString() + " is not definet");
+    validate();
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+void Inverse::validate()
+/*****************************************************************************/
+{
+    // Shape berechnen
+    m_shape = getArg()->getShape();
+    if (m_shape.getNrDimensions() != 2)
+        throw InternalError("inv of " + getArg()->toString() + " is not definet");
+    if (m_shape.getDimension(1) != m_shape.getDimension(2))
+        throw ShapeError("inv is only defined for square matrices!");
 }
 /*****************************************************************************/
 
@@ -61,13 +71,11 @@ BasicPtr Inverse::simplify()
     
     // Ist es ein Skalar?
     if (getArg()->is_Scalar())
-        return getArg();
-
+        return Util::pow(getArg(),-1);
     // simplify matrices
     switch(getArg()->getType())
     {
     case Type_Eye:
-    case Type_Zero:
         return getArg();
     case Type_Neg:
         {
@@ -92,13 +100,10 @@ BasicPtr Inverse::New( BasicPtr const& arg )
 {
     // Ist es ein Skalar?
     if (arg->is_Scalar())
-        return arg;
-
+        return Util::pow(arg,-1);
     // simplify matrices
     switch(arg->getType())
     {
-    case Type_Zero:
-		return Zero::getZero( arg->getShape());
 	  case Type_Eye:
         return arg;
     case Type_Neg:
@@ -116,4 +121,21 @@ BasicPtr Inverse::New( BasicPtr const& arg )
     }
     return BasicPtr( new Inverse(arg) );
 }
-/*****************************************************************************/
\ No newline at end of file
+/*****************************************************************************/
+/*****************************************************************************/
+BasicPtr Inverse::der()
+/*****************************************************************************/
+{
+    // der(inv(A)) = -inv(A)*der(A)*inv(A)
+    return Neg::New(Mul::New(Mul::New(BasicPtr(this),getArg()->der()),BasicPtr(this)));
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Inverse::der(BasicPtr const& symbol)
+/*****************************************************************************/
+{
+    // der(inv(A)) = -inv(A)*der(A)*inv(A)
+    return Neg::New(Mul::New(Mul::New(BasicPtr(this),getArg()->der(symbol)),BasicPtr(this)));
+}
+/*****************************************************************************/
diff --git a/symbolics/functions/include/Inverse.h b/symbolics/functions/include/Inverse.h
index 79da607..b8c9d93 100644
--- a/symbolics/functions/include/Inverse.h
+++ b/symbolics/functions/include/Inverse.h
@@ -26,8 +26,11 @@ namespace Symbolics
 		    static BasicPtr New( BasicPtr const& arg );
 
         // derivative
-        inline BasicPtr der() { return Der::New(BasicPtr(this)); };
-        inline BasicPtr der(BasicPtr const& symbol) { return Der::New(BasicPtr(this)); };
+        BasicPtr der();
+        BasicPtr der(BasicPtr const& symbol);
+
+    protected:
+        void validate();
 
     };
 
-- 
2.43.0


From 9a296bdc3906ef2fdb5968bcde97fbe9ad90d664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 008/126] fix: outer keeps its shape when an argument is zero,
 refuses row vectors; product rule

---
 symbolics/functions/Outer.cpp       | 31 ++++++++++++++++++++++++-----
 symbolics/functions/include/Outer.h |  4 ++--
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/symbolics/functions/Outer.cpp b/symbolics/functions/Outer.cpp
index 6cba047..ba802cc 100644
--- a/symbolics/functions/Outer.cpp
+++ b/symbolics/functions/Outer.cpp
@@ -53,6 +53,8 @@ void Outer::validate()
         throw ShapeError( msg.c_str() );
     }
 	const int m = getArg2()->getShape().getDimension(1);
+	if ((s.getDimension(2) != 1) || (getArg2()->getShape().getDimension(2) != 1))
+        throw ShapeError( "Outer is not defined for row vectors!" );
 	if (m != n)
 	{
         const std::string msg = "First and second argument must have same length (" + str(n) + "!=" + str(n) + ")!";
@@ -69,9 +71,9 @@ std::string Outer::toString() const
 /*****************************************************************************/
 {
 #ifdef _DEBUG
-    return "Outer(" + getArg1()->toString() + "," + getArg1()->toString() + ")";
+    return "Outer(" + getArg1()->toString() + "," + getArg2()->toString() + ")";
 #else
-    return "Outer(" + getArg1()->toString() + "," + getArg1()->toString() + ")";
+    return "Outer(" + getArg1()->toString() + "," + getArg2()->toString() + ")";
 #endif
 }
 /*****************************************************************************/
@@ -109,8 +111,9 @@ BasicPtr Outer::New( BasicPtr const& arg1, BasicPtr const& arg2 )
 /*****************************************************************************/
 {
     // if zero, return zero
-    if (Util::is_Zero(arg1)) return Zero::getZero();
-    if (Util::is_Zero(arg2)) return Zero::getZero();
+    BasicPtr outer(new Outer(arg1, arg2));
+    if (Util::is_Zero(arg1)) return Zero::getZero(outer->getShape());
+    if (Util::is_Zero(arg2)) return Zero::getZero(outer->getShape());
 
 	// simplify matrices
 	if ( (arg1->getType() == Type_Matrix) && (arg2->getType() == Type_Matrix) )
@@ -121,6 +124,24 @@ BasicPtr Outer::New( BasicPtr const& arg1, BasicPtr const& arg2 )
 		return BasicPtr(mat3);
 	}
 
-    return BasicPtr(new Outer(arg1, arg2));
+    return outer;
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Outer::der()
+/*****************************************************************************/
+{
+    // der(outer(a,b)) = outer(der(a),b) + outer(a,der(b))
+    return New(getArg1()->der(), getArg2()) + New(getArg1(), getArg2()->der());
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Outer::der(BasicPtr const& symbol)
+/*****************************************************************************/
+{
+    // der(outer(a,b)) = outer(der(a),b) + outer(a,der(b))
+    return New(getArg1()->der(symbol), getArg2()) + New(getArg1(), getArg2()->der(symbol));
 }
 /*****************************************************************************/
\ No newline at end of file
diff --git a/symbolics/functions/include/Outer.h b/symbolics/functions/include/Outer.h
index 28af848..f0bf05f 100644
--- a/symbolics/functions/include/Outer.h
+++ b/symbolics/functions/include/Outer.h
@@ -25,8 +25,8 @@ namespace Symbolics
         static BasicPtr New( BasicPtr const& arg1, BasicPtr const& arg2 );
 
         // derivative
-        inline BasicPtr der() { return New(getArg1()->der(), getArg2()->der()); };
-        inline BasicPtr der(BasicPtr const& symbol) { return New(getArg1()->der(symbol), getArg2()->der(symbol)); };
+        BasicPtr der();
+        BasicPtr der(BasicPtr const& symbol);
 
 	protected:
 		void validate();
-- 
2.43.0


From 3fb8c26f07ed260d2e8c24227255fd48b6fea03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 009/126] fix: a folded comparison is a Bool

---
 symbolics/functions/Equal.cpp   | 6 +++---
 symbolics/functions/Greater.cpp | 6 +++---
 symbolics/functions/Less.cpp    | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/symbolics/functions/Equal.cpp b/symbolics/functions/Equal.cpp
index 33822ca..a2f0036 100644
--- a/symbolics/functions/Equal.cpp
+++ b/symbolics/functions/Equal.cpp
@@ -75,7 +75,7 @@ BasicPtr Equal::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()==(clhs->getValue()?1.0:0.0)));
+            return Bool::New(crhs->getValue()==(clhs->getValue()?1.0:0.0));
         }
     }
     if (getArg1()->getType() == Type_Int) 
@@ -94,7 +94,7 @@ BasicPtr Equal::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()==clhs->getValue()));
+            return Bool::New(crhs->getValue()==clhs->getValue());
         }
     }
     if (getArg1()->getType() == Type_Real) 
@@ -113,7 +113,7 @@ BasicPtr Equal::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()==clhs->getValue()));
+            return Bool::New(crhs->getValue()==clhs->getValue());
         }
     }
     m_simplified = true;
diff --git a/symbolics/functions/Greater.cpp b/symbolics/functions/Greater.cpp
index f9b4058..06e15ab 100644
--- a/symbolics/functions/Greater.cpp
+++ b/symbolics/functions/Greater.cpp
@@ -75,7 +75,7 @@ BasicPtr Greater::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()<(clhs->getValue()?1.0:0.0)));
+            return Bool::New(crhs->getValue()<(clhs->getValue()?1.0:0.0));
         }
     }
     if (getArg1()->getType() == Type_Int) 
@@ -94,7 +94,7 @@ BasicPtr Greater::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()<clhs->getValue()));
+            return Bool::New(crhs->getValue()<clhs->getValue());
         }
     }
     if (getArg1()->getType() == Type_Real) 
@@ -113,7 +113,7 @@ BasicPtr Greater::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()<clhs->getValue()));
+            return Bool::New(crhs->getValue()<clhs->getValue());
         }
     }
     m_simplified = true;
diff --git a/symbolics/functions/Less.cpp b/symbolics/functions/Less.cpp
index 60d4612..67d1d00 100644
--- a/symbolics/functions/Less.cpp
+++ b/symbolics/functions/Less.cpp
@@ -75,7 +75,7 @@ BasicPtr Less::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()>(clhs->getValue()?1.0:0.0)));
+            return Bool::New(crhs->getValue()>(clhs->getValue()?1.0:0.0));
         }
     }
     if (getArg1()->getType() == Type_Int) 
@@ -94,7 +94,7 @@ BasicPtr Less::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()>clhs->getValue()));
+            return Bool::New(crhs->getValue()>clhs->getValue());
         }
     }
     if (getArg1()->getType() == Type_Real) 
@@ -113,7 +113,7 @@ BasicPtr Less::simplify()
         else if (getArg2()->getType() == Type_Real) 
         {
             const Real *crhs = Util::getAsConstPtr<Real>(getArg2());
-            return BasicPtr(new Real(crhs->getValue()>clhs->getValue()));
+            return Bool::New(crhs->getValue()>clhs->getValue());
         }
     }
     m_simplified = true;
-- 
2.43.0


From 61d98a068f86c23de64b2610988246b8913fa042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 010/126] fix: the derivative of a comparison is zero

---
 symbolics/functions/include/Equal.h   | 5 +++--
 symbolics/functions/include/Greater.h | 5 +++--
 symbolics/functions/include/Less.h    | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/symbolics/functions/include/Equal.h b/symbolics/functions/include/Equal.h
index e2e0b4a..2c1646a 100644
--- a/symbolics/functions/include/Equal.h
+++ b/symbolics/functions/include/Equal.h
@@ -2,6 +2,7 @@
 #define __EQUAL_H_
 
 #include "BinaryOp.h"
+#include "Zero.h"
 
 namespace Symbolics
 {
@@ -24,8 +25,8 @@ namespace Symbolics
         static BasicPtr New( BasicPtr const& arg1, BasicPtr const& arg2 );
 
         // derivative
-        inline BasicPtr der() { return New(getArg1()->der(),getArg2()->der()); };
-        inline BasicPtr der(BasicPtr const& symbol) { return New(getArg1()->der(symbol),getArg2()->der(symbol)); };
+        inline BasicPtr der() { return Zero::getZero(m_shape); };
+        inline BasicPtr der(BasicPtr const& symbol) { return Zero::getZero(m_shape); };
     };
 };
 
diff --git a/symbolics/functions/include/Greater.h b/symbolics/functions/include/Greater.h
index 8e9d33a..3a47161 100644
--- a/symbolics/functions/include/Greater.h
+++ b/symbolics/functions/include/Greater.h
@@ -2,6 +2,7 @@
 #define __GREATER_H_
 
 #include "BinaryOp.h"
+#include "Zero.h"
 
 namespace Symbolics
 {
@@ -24,8 +25,8 @@ namespace Symbolics
         static BasicPtr New( BasicPtr const& arg1, BasicPtr const& arg2 );
 
         // derivative
-        inline BasicPtr der() { return New(getArg1()->der(),getArg2()->der()); };
-        inline BasicPtr der(BasicPtr const& symbol) { return New(getArg1()->der(symbol),getArg2()->der(symbol)); };
+        inline BasicPtr der() { return Zero::getZero(m_shape); };
+        inline BasicPtr der(BasicPtr const& symbol) { return Zero::getZero(m_shape); };
     };
 };
 
diff --git a/symbolics/functions/include/Less.h b/symbolics/functions/include/Less.h
index 33e426f..7993d55 100644
--- a/symbolics/functions/include/Less.h
+++ b/symbolics/functions/include/Less.h
@@ -2,6 +2,7 @@
 #define __LESS_H_
 
 #include "BinaryOp.h"
+#include "Zero.h"
 
 namespace Symbolics
 {
@@ -24,8 +25,8 @@ namespace Symbolics
         static BasicPtr New( BasicPtr const& arg1, BasicPtr const& arg2 );
 
         // derivative
-        inline BasicPtr der() { return New(getArg1()->der(),getArg2()->der()); };
-        inline BasicPtr der(BasicPtr const& symbol) { return New(getArg1()->der(symbol),getArg2()->der(symbol)); };
+        inline BasicPtr der() { return Zero::getZero(m_shape); };
+        inline BasicPtr der(BasicPtr const& symbol) { return Zero::getZero(m_shape); };
     };
 };
 
-- 
2.43.0


From 7ea44c4f4c9d31bfa44cf1771074ed9a86fc182c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 011/126] fix: only inv() itself insists on square matrices

---
 symbolics/functions/Inverse.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Inverse.cpp b/symbolics/functions/Inverse.cpp
index 06db8df..1f0b6cb 100644
--- a/symbolics/functions/Inverse.cpp
+++ b/symbolics/functions/Inverse.cpp
@@ -33,8 +33,6 @@ void Inverse::validate()
     m_shape = getArg()->getShape();
     if (m_shape.getNrDimensions() != 2)
         throw InternalError("inv of " + getArg()->toString() + " is not definet");
-    if (m_shape.getDimension(1) != m_shape.getDimension(2))
-        throw ShapeError("inv is only defined for square matrices!");
 }
 /*****************************************************************************/
 
@@ -101,6 +99,10 @@ BasicPtr Inverse::New( BasicPtr const& arg )
     // Ist es ein Skalar?
     if (arg->is_Scalar())
         return Util::pow(arg,-1);
+
+    // only square matrices have an inverse
+    if (arg->getShape().getDimension(1) != arg->getShape().getDimension(2))
+        throw ShapeError("inv is only defined for square matrices!");
     // simplify matrices
     switch(arg->getType())
     {
-- 
2.43.0


From 2594f7f441a6dc2ca96be9b1177ec6dc7b946e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 012/126] fix: the power of a matrix or vector checks its
 shape, (x^2)^0.5 is not x, (-x)^0.5 is not -(x^0.5)

---
 symbolics/functions/Pow.cpp       | 40 ++++++++++++++++++++++++-------
 symbolics/functions/include/Pow.h |  2 ++
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index 5d4dc21..1e4d907 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -47,17 +47,35 @@ Pow::~Pow()
 /*****************************************************************************/
 
 
+/*****************************************************************************/
+bool Pow::mergeable(BasicPtr const& inner, BasicPtr const& outer)
+/*****************************************************************************/
+{
+    // (x^a)^b = x^(a*b) does not hold for negative x, if a is even and b no integer
+    int i = 0;
+    return Util::is_Int(outer,i) || !Util::is_Int(inner,i) || (i%2 != 0);
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 void Pow::validate()
 /*****************************************************************************/
+{
+    m_shape = getArg1()->getShape();
+    validate(getArg1(),getArg2());
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+void Pow::validate(BasicPtr const& arg1, BasicPtr const& arg2)
+/*****************************************************************************/
 {
     // Shape holen
-    Shape s = getArg1()->getShape();
-    m_shape = s;
+    Shape s = arg1->getShape();
 
     // getArg2() pruefen
-    if ((getArg2()->getType() != Type_Int) && (getArg2()->getType() != Type_Real) && ((getArg2()->getType() != Type_Zero) && (getArg2()->is_Scalar())))
-        throw InternalError("getArg2() must be either Int or Real!");
+    if ((arg2->getType() != Type_Int) && (arg2->getType() != Type_Real) && !((arg2->getType() == Type_Zero) && (arg2->is_Scalar())))
+        throw InternalError("arg2 must be either Int or Real!");
 
     // Matrix
     if (s.getNrDimensions() == 2)
@@ -94,7 +112,7 @@ BasicPtr Pow::simplify()
     simplifyArgs();
 
     // if getArg2() == 0, then return One
-    if (getArg2() == Zero::getZero() ) return Int::getOne();
+    if (getArg2() == Zero::getZero() ) return Util::eye(m_shape);
     if (getArg2() == Int::getOne() ) return getArg1();
 
     // test if exponent is really Real, convert to Int otherwise
@@ -213,6 +231,7 @@ BasicPtr Pow::simplify()
     case Type_Pow:
         {
             const Pow *c = Util::getAsConstPtr<Pow>(getArg1());
+            if (!mergeable(c->getExponent(),getArg2())) break;
             setArg2(getArg2()*c->getExponent()->simplify());
             setArg1(c->getBase());
             m_simplified = true;
@@ -225,7 +244,8 @@ BasicPtr Pow::simplify()
 
             // try arg2 as integer
             int iExp = 0;
-            if ( Util::is_Int(getArg2(), iExp) && (iExp%2==0))
+            if (!Util::is_Int(getArg2(), iExp)) break;
+            if (iExp%2==0)
             {
                 setArg1(c->getArg());
                 m_simplified = true;
@@ -247,7 +267,9 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
 /*****************************************************************************/
 {
     // if arg2 == 0, then return One
-    if (arg2 == Zero::getZero() ) return Int::getOne();
+    validate(arg1,arg2);
+    // if arg2 == 0, then return One
+    if (arg2 == Zero::getZero() ) return Util::eye(arg1->getShape());
     if (arg2 == Int::getOne() ) return arg1;
 
     // if we have a constant, then perform the calculation
@@ -359,6 +381,7 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
     case Type_Pow:
         {
             const Pow *c = Util::getAsConstPtr<Pow>(arg1);
+            if (!mergeable(c->getExponent(),arg2)) break;
             return New(c->getBase(),Mul::New(arg2,c->getExponent()));
         }
         // move neg to front in case of round number remove it
@@ -369,7 +392,8 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
             // try arg2 as integer
             BasicPtr arg_1 = c->getArg();
             int iExp = 0;
-            if ( Util::is_Int(arg2, iExp) && (iExp%2==0))
+            if (!Util::is_Int(arg2, iExp)) break;
+            if (iExp%2==0)
             {
                 return New(arg_1,arg2);
             }
diff --git a/symbolics/functions/include/Pow.h b/symbolics/functions/include/Pow.h
index 8b5a3ae..1886ffe 100644
--- a/symbolics/functions/include/Pow.h
+++ b/symbolics/functions/include/Pow.h
@@ -38,6 +38,8 @@ namespace Symbolics
 
 	protected:
 		void validate();
+		static void validate(BasicPtr const& arg1, BasicPtr const& arg2);
+		static bool mergeable(BasicPtr const& inner, BasicPtr const& outer);
     };
 
     typedef boost::intrusive_ptr< Pow> ConstPowPtr;
-- 
2.43.0


From 67425314a070bc8a48cecb4ecc373d72053311f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 013/126] fix: derivative of the power of a matrix

---
 symbolics/functions/Pow.cpp       | 27 ++++++++++++++++++++++++---
 symbolics/functions/include/Pow.h |  1 +
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index 1e4d907..9c69f77 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -411,7 +411,7 @@ inline BasicPtr Pow::der()
 /*****************************************************************************/
 {
   // pow(x,y) = der(x)*y*pow(x,y-1)
-  return Mul::New(getExponent(),Mul::New(getBase()->der(),New(getBase(),Add::New(getExponent(),Int::getMinusOne()))));
+  return der_base(getBase()->der());
 }
 /*****************************************************************************/
 
@@ -420,6 +420,27 @@ inline BasicPtr Pow::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {
   // pow(x,y) = der(x)*y*pow(x,y-1)
-  return Mul::New(getExponent(),Mul::New(getBase()->der(symbol),New(getBase(),Add::New(getExponent(),Int::getMinusOne()))));
+  return der_base(getBase()->der(symbol));
 }
-/*****************************************************************************/
\ No newline at end of file
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Pow::der_base(BasicPtr const& dbase)
+/*****************************************************************************/
+{
+  int n = 0;
+  if (is_Scalar() || !Util::is_Int(getExponent(),n))
+    // pow(x,y) = der(x)*y*pow(x,y-1)
+    return Mul::New(getExponent(),Mul::New(dbase,New(getBase(),Add::New(getExponent(),Int::getMinusOne()))));
+
+  // matrices do not commute: der(A^n) = der(A)*A^(n-1) + A*der(A)*A^(n-2) + ... + A^(n-1)*der(A)
+  int m = (n < 0) ? -n : n;
+  BasicPtr sum = Zero::getZero(m_shape);
+  for (int i=0; i<m; ++i)
+    sum = Add::New(sum,Mul::New(Mul::New(New(getBase(),Int::New(i)),dbase),New(getBase(),Int::New(m-1-i))));
+  if (n >= 0)
+    return sum;
+  // der(A^(-n)) = -A^(-n)*der(A^n)*A^(-n)
+  return Neg::New(Mul::New(Mul::New(BasicPtr(this),sum),BasicPtr(this)));
+}
+/*****************************************************************************/
diff --git a/symbolics/functions/include/Pow.h b/symbolics/functions/include/Pow.h
index 1886ffe..210c527 100644
--- a/symbolics/functions/include/Pow.h
+++ b/symbolics/functions/include/Pow.h
@@ -40,6 +40,7 @@ namespace Symbolics
 		void validate();
 		static void validate(BasicPtr const& arg1, BasicPtr const& arg2);
 		static bool mergeable(BasicPtr const& inner, BasicPtr const& outer);
+		BasicPtr der_base(BasicPtr const& dbase);
     };
 
     typedef boost::intrusive_ptr< Pow> ConstPowPtr;
-- 
2.43.0


From 76a35e0379b9bd374dce6f0629d92e9929540737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 014/126] fix: x^n*x keeps folding exponents, A*A^-1 is an
 identity matrix

---
 symbolics/functions/Mul.cpp | 4 ++--
 symbolics/functions/Pow.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index 5362fea..faeae04 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -207,7 +207,7 @@ BasicPtr Mul::simplify()
         {
             const Pow *c = Util::getAsConstPtr<Pow>(lastarg);
             if (dst[i] == c->getBase())
-              lastarg = BasicPtr(new Pow(dst[i],Add::New(c->getExponent(),Int::getOne())));
+              lastarg = Pow::New(dst[i],Add::New(c->getExponent(),Int::getOne()));
             else
             {
               addArg(lastarg->simplify());
@@ -218,7 +218,7 @@ BasicPtr Mul::simplify()
         {
             const Pow *c = Util::getAsConstPtr<Pow>(dst[i]);
             if (lastarg == c->getBase())
-              lastarg = BasicPtr(new Pow(lastarg,Add::New(c->getExponent(),Int::getOne())));
+              lastarg = Pow::New(lastarg,Add::New(c->getExponent(),Int::getOne()));
             else
             {
               addArg(lastarg->simplify());
diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index 9c69f77..00dea29 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -112,7 +112,7 @@ BasicPtr Pow::simplify()
     simplifyArgs();
 
     // if getArg2() == 0, then return One
-    if (getArg2() == Zero::getZero() ) return Util::eye(m_shape);
+    if (getArg2() == Zero::getZero() ) return Int::getOne();
     if (getArg2() == Int::getOne() ) return getArg1();
 
     // test if exponent is really Real, convert to Int otherwise
-- 
2.43.0


From 30dc88cc0e26a69f5f124257b88cf4b3e6096ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 015/126] fix: a number with the coefficient -1 keeps its sign
 in a simplified sum

---
 symbolics/functions/Add.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/symbolics/functions/Add.cpp b/symbolics/functions/Add.cpp
index 762ab19..d438599 100644
--- a/symbolics/functions/Add.cpp
+++ b/symbolics/functions/Add.cpp
@@ -210,16 +210,8 @@ BasicPtr Add::simplify()
             }
             else if (Util::is_One(Neg::New(iter->second)))
             {
-                BasicPtr arg = iter->first;
-                if (arg->getType() == Type_Real)
-                    other_args1.push_back(iter->first);
-                else if (arg->getType() == Type_Int)
-                    other_args1.push_back(iter->first);
-                else
-                {
-                    BasicPtr arg = Neg::New(iter->first);
-                    other_args1.push_back(arg);
-                }
+                // add negated arg
+                other_args1.push_back(Neg::New(iter->first));
             }
             else
             {
-- 
2.43.0


From 04ddeece8272234f95a26c8670b1db5b07880a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:48 +0000
Subject: [PATCH 016/126] fix: sums of matrices and scalars lost summands or
 multiplied the matrices when simplified

---
 symbolics/functions/Add.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/symbolics/functions/Add.cpp b/symbolics/functions/Add.cpp
index d438599..2436350 100644
--- a/symbolics/functions/Add.cpp
+++ b/symbolics/functions/Add.cpp
@@ -239,7 +239,6 @@ BasicPtr Add::simplify()
     {
       BasicPtrVec scalars;
       BasicPtrVec matrixes;
-      bool hasMatZero;
       for (size_t i=0; i<other_args1.size(); ++i)
       {
         if (other_args1[i]->getType() == Type_Matrix)
@@ -254,7 +253,6 @@ BasicPtr Add::simplify()
         }
         else if (other_args1[i]->getType() == Type_Zero)
         {
-          hasMatZero=true;
           continue;
         }
         else
@@ -275,6 +273,7 @@ BasicPtr Add::simplify()
             Matrix *c = new Matrix( *(Util::getAsConstPtr<Matrix>(matrixes[0])) );
             for (size_t i=0; i<c->getNumEl(); ++i)
               c->set(i,c->get(i)+s);
+            addArg(BasicPtr(c));
           }
           else
             addArg(matrixes[0]);
@@ -285,7 +284,7 @@ BasicPtr Add::simplify()
           for (size_t i=1; i<matrixes.size(); ++i)
           {
             const Matrix *m = Util::getAsConstPtr<Matrix>(matrixes[i]);
-            *mat *= (*m); 
+            *mat += (*m);
           }
           if (scalars.size() > 0)
           {
@@ -300,8 +299,9 @@ BasicPtr Add::simplify()
           addArg(BasicPtr(mat));
         }
       }
-      else if(hasMatZero)
+      else if(getArgsSize() == 0)
       {
+        // nothing else has the shape of the sum
         if (scalars.size() > 0)
         {
           BasicPtr s;
-- 
2.43.0


From 4aee59f143798eb85b5781224fcc96ae5cfd74ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:45 +0000
Subject: [PATCH 017/126] fix: a scalar product of vectors is not merged into a
 product of matrices

---
 symbolics/functions/Mul.cpp       | 35 ++++++++++++++++++++++++++-----
 symbolics/functions/include/Mul.h |  3 +++
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index faeae04..799eeb1 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -49,6 +49,21 @@ std::string Mul::toString() const
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+bool Mul::is_InnerProduct(BasicPtr const& arg)
+/*****************************************************************************/
+{
+    BasicPtr e = (arg->getType() == Type_Neg) ? arg->getArg(0) : arg;
+    if ((e->getType() != Type_Mul) || !e->is_Scalar())
+        return false;
+    size_t argssize = e->getArgsSize();
+    for (size_t i=0; i<argssize; ++i)
+        if (!e->getArg(i)->is_Scalar())
+            return true;
+    return false;
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 BasicPtr Mul::simplify()
 /*****************************************************************************/
@@ -58,6 +73,12 @@ BasicPtr Mul::simplify()
     // call arg
     simplifyArgs();
 
+    // a scalar product of vectors can only be merged with scalars
+    size_t nonscalars = 0;
+    for (size_t i=0; i<getArgsSize(); ++i)
+        if (!getArg(i)->is_Scalar() || is_InnerProduct(getArg(i)))
+            ++nonscalars;
+
     // merge all muls together
     // move neg to front
     bool negate_me = false;
@@ -73,7 +94,7 @@ BasicPtr Mul::simplify()
             addArg(Zero::getZero(m_shape));
             return getArg(0);
         }
-        else if (getArg(i)->getType() == Type_Mul)
+        else if ((getArg(i)->getType() == Type_Mul) && ((nonscalars < 2) || !is_InnerProduct(getArg(i))))
         {
             const Mul *a = Util::getAsConstPtr<Mul>(getArg(i));
             size_t argssize = a->getArgsSize();
@@ -91,7 +112,7 @@ BasicPtr Mul::simplify()
             const Neg *n = Util::getAsConstPtr<Neg>(getArg(i));
             BasicPtr narg = n->getArg();
             negate_me = !negate_me;
-            if (narg->getType() == Type_Mul)
+            if ((narg->getType() == Type_Mul) && ((nonscalars < 2) || !is_InnerProduct(narg)))
             {
                 const Mul *a = Util::getAsConstPtr<Mul>(narg);
                 size_t argssize = a->getArgsSize();
@@ -449,7 +470,11 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
             return BasicPtr(c);
         }
     }
-    if (lhs->getType() == Type_Mul)
+    const bool lhs_inner = is_InnerProduct(lhs);
+    const bool rhs_inner = is_InnerProduct(rhs);
+    const bool lhs_flat = (lhs->getType() == Type_Mul) && !(lhs_inner && (rhs_inner || !rhs->is_Scalar()));
+    const bool rhs_flat = (rhs->getType() == Type_Mul) && !(rhs_inner && (lhs_inner || !lhs->is_Scalar()));
+    if (lhs_flat)
     {
         BasicPtrVec mulargs;
         const Mul *a = Util::getAsConstPtr<Mul>(lhs);
@@ -457,7 +482,7 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
         for (size_t j=0; j<argssize; ++j)
           mulargs.push_back(a->getArg(j));
 
-        if (rhs->getType() == Type_Mul)
+        if (rhs_flat)
         {
           const Mul *b = Util::getAsConstPtr<Mul>(rhs);
           size_t argssize = b->getArgsSize();
@@ -468,7 +493,7 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
             mulargs.push_back(rhs);
         return BasicPtr(new Mul(mulargs));
     }
-    if (rhs->getType() == Type_Mul)
+    if (rhs_flat)
     {
         BasicPtrVec mulargs;
         mulargs.push_back(lhs);
diff --git a/symbolics/functions/include/Mul.h b/symbolics/functions/include/Mul.h
index ae7f819..167e8d0 100644
--- a/symbolics/functions/include/Mul.h
+++ b/symbolics/functions/include/Mul.h
@@ -28,6 +28,9 @@ namespace Symbolics
 
         static BasicPtr New(BasicPtr const& lhs,BasicPtr const& rhs);
 
+        // scalar product of vectors (the order of its factors matters)
+        static bool is_InnerProduct(BasicPtr const& arg);
+
         // derivative
         BasicPtr der();
         BasicPtr der(BasicPtr const& symbol);
-- 
2.43.0


From 8017fd818c6f0db521f0934151a9c34cddb8034f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:45 +0000
Subject: [PATCH 018/126] fix: equality of products with one scalar factor

---
 symbolics/functions/Mul.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index 799eeb1..62d6654 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -321,7 +321,7 @@ bool Mul::operator==(  Basic const& rhs ) const
     case 0:
         return true;
     case 1:
-        return (m_scalars[0] == mul->getArg(0));
+        return (m_scalars[0] == rhs_scalars[0]);
     case 2:
         return (((m_scalars[0] == rhs_scalars[0]) && (m_scalars[1] == rhs_scalars[1])) ||
                 ((m_scalars[0] == rhs_scalars[1]) && (m_scalars[1] == rhs_scalars[0])));
-- 
2.43.0


From db08ede61c8e5c196fec953cd9a5b8838b42507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:18 +0000
Subject: [PATCH 019/126] fix: If checks the shape of its condition and of both
 branches

---
 symbolics/functions/If.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/symbolics/functions/If.cpp b/symbolics/functions/If.cpp
index c4c09f5..158cd5f 100644
--- a/symbolics/functions/If.cpp
+++ b/symbolics/functions/If.cpp
@@ -101,6 +101,11 @@ bool If::operator==(  Basic const& rhs ) const
 BasicPtr If::New( BasicPtr const& cond, BasicPtr const& arg1, BasicPtr const& arg2 )
 /*****************************************************************************/
 {
+    // check the shapes
+    if (!cond->is_Scalar())
+        throw ShapeError("If needs a scalar condition!");
+    if (arg1->getShape() != arg2->getShape())
+        throw InternalError("If then exp has different shape as else exp!");
     // check cond
     if (cond->getType() == Type_Bool)
     {
-- 
2.43.0


From 9715d177e2be5199000ab04172f60bd77d78d1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 020/126] fix: Equal of the Python module built a Less

---
 symbolics/wrapper/PySymbolics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/wrapper/PySymbolics.cpp b/symbolics/wrapper/PySymbolics.cpp
index 97fa665..6255ceb 100644
--- a/symbolics/wrapper/PySymbolics.cpp
+++ b/symbolics/wrapper/PySymbolics.cpp
@@ -152,7 +152,7 @@ PyMODINIT_FUNC PyInit_symbolics(void)
     if (!registerObject( &CGreaterObjectType, "Greater", m))
         return NULL;
     // CEqual
-    if (!registerObject( &CLessObjectType, "Equal", m))
+    if (!registerObject( &CEqualObjectType, "Equal", m))
         return NULL;
     // CGraph
     if (!registerObject( &CGraphObjectType, "CGraph", m))
-- 
2.43.0


From fa0573cfb1002c211862a0ef3de73a09335943c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 021/126] fix: a single index of a row vector, matrix
 expression or identity counts through the components

---
 symbolics/wrapper/CBasic.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/symbolics/wrapper/CBasic.cpp b/symbolics/wrapper/CBasic.cpp
index 60b1f56..e488014 100644
--- a/symbolics/wrapper/CBasic.cpp
+++ b/symbolics/wrapper/CBasic.cpp
@@ -745,6 +745,8 @@ static PyObject* CBasic_get(CBasicObject *self, PyObject *index)
 				// Slicing ist nur im Falle von Matrizen-aehnlichen Typen erlaubt
 				if (slicing(m,n)) 
           throw ShapeError("Slicing is currently not supported for Identity matrices!");
+				if (n.size() == 0)
+					n.push_back(m[0] % basic->getShape().getDimension(2)), m[0] /= basic->getShape().getDimension(2);
 				element = (m == n) ? Int::getOne() : Int::getZero();
 
 				break;
@@ -754,8 +756,10 @@ static PyObject* CBasic_get(CBasicObject *self, PyObject *index)
 				if (!slicing(m,n)) // no slicing
 				{
 					//row und col
-					int row = m[0];
-					int col = (n.size() == 1) ? n[0] : 0;
+					// ein einzelner Index zaehlt alle Elemente durch
+					const int cols = basic->getShape().getDimension(2);
+					int row = (n.size() == 1) ? m[0] : m[0]/cols;
+					int col = (n.size() == 1) ? n[0] : m[0]%cols;
 					element = Element::New(basic, row, col);
 				}
 				else // slicing
@@ -768,7 +772,7 @@ static PyObject* CBasic_get(CBasicObject *self, PyObject *index)
 					for(size_t i=0; i<m.size(); ++i)
 					{
 						if (n.size() == 0)	// keine Spalte angegeben
-							tmp->set(i, Element::New(basic, m[i],0));
+							tmp->set(i, Element::New(basic, m[i]/basic->getShape().getDimension(2), m[i]%basic->getShape().getDimension(2)));
 						else
 							for(size_t j=0; j<n.size(); ++j)
 								tmp->set(i,j, Element::New(basic, m[i],n[j]));
-- 
2.43.0


From c9e7c55a10be9877197cc3b7762bfa9d52b48d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 022/126] fix: setting a component of an identity matrix took
 the shape of the value

---
 symbolics/wrapper/CBasic.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/symbolics/wrapper/CBasic.cpp b/symbolics/wrapper/CBasic.cpp
index e488014..86a5ef3 100644
--- a/symbolics/wrapper/CBasic.cpp
+++ b/symbolics/wrapper/CBasic.cpp
@@ -848,11 +848,12 @@ static int CBasic_set(CBasicObject *self, PyObject *index, PyObject *value)
 			// Casten des Objektes fuer Python
 			self->ob_type = &CMatrixObjectType;
 			Py_INCREF(&CMatrixObjectType);
-			Matrix *mat = new Matrix( sb );
+			const Shape se = basic->getShape();
+			Matrix *mat = new Matrix( se );
 			self->m_basic = BasicPtr( mat );
 			basic = self->m_basic;
-			size_t min = sb.getDimension(1);
-			if (sb.getDimension(2) < min) min = sb.getDimension(2);
+			size_t min = se.getDimension(1);
+			if (se.getDimension(2) < min) min = se.getDimension(2);
 			for(size_t i=0; i<min; ++i)
 				mat->set(i,i, Int::getOne());
 		}
-- 
2.43.0


From 486a254f0d250e1f4e314af82d3507100df7c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 023/126] fix: an expression simplified in place to a number
 became an invalid Python object

---
 symbolics/wrapper/CBasic.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symbolics/wrapper/CBasic.cpp b/symbolics/wrapper/CBasic.cpp
index 86a5ef3..d8ebb8f 100644
--- a/symbolics/wrapper/CBasic.cpp
+++ b/symbolics/wrapper/CBasic.cpp
@@ -459,7 +459,11 @@ static PyObject* CBasic_simplify(CBasicObject *self, PyObject *args)
 		// Simplify ausfuehren
 		self->m_basic = self->m_basic->simplify();
 
-    self->ob_type = PyFactory::ObjectType(self->m_basic);
+    // Zahlen sind hier keine Python-Zahlen, sondern bleiben Objekte dieses Moduls
+    if ((self->m_basic->getType() == Type_Int) || (self->m_basic->getType() == Type_Real) || (self->m_basic->getType() == Type_Bool))
+        self->ob_type = &CBasicObjectType;
+    else
+        self->ob_type = PyFactory::ObjectType(self->m_basic);
     
 		Py_IncRef(Py_None);
 		return Py_None;
-- 
2.43.0


From 865cbd6a44d83f6a60bdefeb529cd8edf205003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 024/126] fix: negative indices were read out of bounds, slices
 with a negative step did not end

---
 symbolics/wrapper/CBasic.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/symbolics/wrapper/CBasic.cpp b/symbolics/wrapper/CBasic.cpp
index d8ebb8f..95c56cc 100644
--- a/symbolics/wrapper/CBasic.cpp
+++ b/symbolics/wrapper/CBasic.cpp
@@ -511,7 +511,7 @@ bool getIndex( PyObject *index, Shape const& s, std::vector<int> &m, std::vector
 		// Slice "auspacken"
 		Py_ssize_t start, stop, step;
 		PySlice_GetIndices(index, s.getDimension(1)*s.getDimension(2), &start, &stop, &step);
-		if (start > stop)
+		if ((start > stop) || (step < 1))
       throw ShapeError("Slice seems strange start>stop?!");
 		for(int i=(int)start; i<(int)stop; i+=(int)step)
 			m.push_back(i);
@@ -542,7 +542,7 @@ bool getIndex( PyObject *index, Shape const& s, std::vector<int> &m, std::vector
 				PySlice_GetIndices(row, s.getDimension(1)*s.getDimension(2), &start, &stop, &step);
 			else
 				PySlice_GetIndices(row, s.getDimension(1), &start, &stop, &step);
-			if (start > stop) 
+			if ((start > stop) || (step < 1)) 
         throw ShapeError("Slice seems strange start>stop?!");
 			for(int i=(int)start; i<(int)stop; i+=(int)step)
 				m.push_back(i);
@@ -565,7 +565,7 @@ bool getIndex( PyObject *index, Shape const& s, std::vector<int> &m, std::vector
 				// Slice "auspacken"
 				Py_ssize_t start, stop, step;
 				PySlice_GetIndices(col, s.getDimension(2), &start, &stop, &step);
-				if (start > stop) 
+				if ((start > stop) || (step < 1)) 
           throw ShapeError("Slice seems strange start>stop?!");
 				for(int i=(int)start; i<(int)stop; i+=(int)step)
 					n.push_back(i);
@@ -589,6 +589,19 @@ bool getIndex( PyObject *index, Shape const& s, std::vector<int> &m, std::vector
 		PyErr_SetString(SymbolicsError, "No first index specified!");
 		return false;
 	}
+	// alle Indizes muessen innerhalb liegen
+	for (size_t i=0; i<m.size(); ++i)
+		if ((m[i] < 0) || (m[i] >= static_cast<int>((n.size() == 0) ? s.getDimension(1)*s.getDimension(2) : s.getDimension(1))))
+		{
+			PyErr_SetString(SymbolicsError, "First index out of bounds!");
+			return false;
+		}
+	for (size_t i=0; i<n.size(); ++i)
+		if (n[i] < 0)
+		{
+			PyErr_SetString(SymbolicsError, "Second index out of bounds!");
+			return false;
+		}
 	if (n.size() == 0)	// Als Vektor
 	{
 		// Letztes, und damit groesstes m vergleichen
-- 
2.43.0


From ae8efc49673dfb539c09b7c8f3eadb2361bc1a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 025/126] fix: the components of a matrix must be scalars

---
 symbolics/wrapper/CBasic.cpp  | 3 +++
 symbolics/wrapper/CMatrix.cpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/symbolics/wrapper/CBasic.cpp b/symbolics/wrapper/CBasic.cpp
index 95c56cc..7972729 100644
--- a/symbolics/wrapper/CBasic.cpp
+++ b/symbolics/wrapper/CBasic.cpp
@@ -890,6 +890,9 @@ static int CBasic_set(CBasicObject *self, PyObject *index, PyObject *value)
 		}
 		else				// Kein Slicing
 		{
+			// Elemente einer Matrix sind Skalare
+			if (!b->is_Scalar())
+				b = Element::New(b,0,0);
 			if (n.size() > 0)
 				mat->set(m[0],n[0], b);
 			else
diff --git a/symbolics/wrapper/CMatrix.cpp b/symbolics/wrapper/CMatrix.cpp
index d580e83..9ef3a3f 100644
--- a/symbolics/wrapper/CMatrix.cpp
+++ b/symbolics/wrapper/CMatrix.cpp
@@ -199,6 +199,7 @@ void getElements( PyObject* arg, int level, int dim[], BasicPtrVec &elements )
 		// Wir haben einen Skalar
         BasicPtr a( getBasic(item) );
 		if (a.get() == NULL) throw InternalError("items in list must be in (int, float, CBasic)!");
+		if (!a->is_Scalar()) throw ShapeError("items in list must be scalar!");
 
 		// Der Liste hinzufuegen
 		elements.push_back(a);
-- 
2.43.0


From 509bf2d823e12f491ff45c15b4a1d9454bbd0ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 026/126] fix: skew checks the shape of a matrix

---
 symbolics/functions/Skew.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolics/functions/Skew.cpp b/symbolics/functions/Skew.cpp
index 2f1fef1..f1801a7 100644
--- a/symbolics/functions/Skew.cpp
+++ b/symbolics/functions/Skew.cpp
@@ -103,6 +103,7 @@ BasicPtr Skew::New( BasicPtr const& arg)
 /*****************************************************************************/
 {
     // if zero, return zero
+    BasicPtr skew(new Skew(arg));
     if (Util::is_Zero(arg)) return Zero::getZero(Shape(3,3));
 
     // simplify matrices
@@ -124,6 +125,6 @@ BasicPtr Skew::New( BasicPtr const& arg)
             return Neg::New(New(neg->getArg()));
         }
     }
-    return BasicPtr(new Skew(arg));
+    return skew;
 }
 /*****************************************************************************/
\ No newline at end of file
-- 
2.43.0


From 79f185f576bd7aa78c3a59d56d187ac38066a29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 027/126] fix: a simplified transposed zero keeps its shape

---
 symbolics/functions/Transpose.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolics/functions/Transpose.cpp b/symbolics/functions/Transpose.cpp
index f942b41..268bff5 100644
--- a/symbolics/functions/Transpose.cpp
+++ b/symbolics/functions/Transpose.cpp
@@ -63,8 +63,9 @@ BasicPtr Transpose::simplify()
     // simplify matrices
     switch(getArg()->getType())
     {
-	  case Type_Eye:
     case Type_Zero:
+        return Zero::getZero( m_shape );
+	  case Type_Eye:
     case Type_Int:
     case Type_Real:
         return getArg();
-- 
2.43.0


From 99f11dea558dd3e946e1b4d8b89a65277b8dcb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:50 +0000
Subject: [PATCH 028/126] fix: derivative and text of atan2

---
 symbolics/functions/Atan2.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/symbolics/functions/Atan2.cpp b/symbolics/functions/Atan2.cpp
index 64abb8b..2d66569 100644
--- a/symbolics/functions/Atan2.cpp
+++ b/symbolics/functions/Atan2.cpp
@@ -60,9 +60,9 @@ std::string Atan2::toString() const
 /*****************************************************************************/
 {
 #ifdef _DEBUG
-    return "atan2(" + getArg1()->toString() + "," + getArg1()->toString() + ")";
+    return "atan2(" + getArg1()->toString() + "," + getArg2()->toString() + ")";
 #else
-    return "atan2(" + getArg1()->toString() + "," + getArg1()->toString() + ")";
+    return "atan2(" + getArg1()->toString() + "," + getArg2()->toString() + ")";
 #endif
 }
 /*****************************************************************************/
@@ -243,9 +243,12 @@ BasicPtr Atan2::New( BasicPtr const& arg1, BasicPtr const& arg2)
 BasicPtr Atan2::der()
 /*****************************************************************************/
 {   
-    // der(atan2(x,y)) = der(y/x) / (1+(y/x)^2 )
-  BasicPtr ydx = Util::div(getArg2(),getArg1());
-  return Mul::New(ydx->der(),Pow::New(Add::New(Int::getOne(),Pow::New(ydx,Int::New(2))),Int::getMinusOne())); 
+    // der(atan2(y,x)) = (x*der(y) - y*der(x)) / (x^2 + y^2)
+  BasicPtr y = getArg1();
+  BasicPtr x = getArg2();
+  BasicPtr num = Add::New(Mul::New(x,y->der()),Neg::New(Mul::New(y,x->der())));
+  BasicPtr den = Add::New(Pow::New(x,Int::New(2)),Pow::New(y,Int::New(2)));
+  return Mul::New(num,Pow::New(den,Int::getMinusOne()));
 }
 /*****************************************************************************/
 
@@ -253,8 +256,11 @@ BasicPtr Atan2::der()
 BasicPtr Atan2::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {   
-    // der(atan2(x,y)) = der(y/x) / (1+(y/x)^2 )
-  BasicPtr ydx = Util::div(getArg2(),getArg1());
-  return Mul::New(ydx->der(symbol),Pow::New(Add::New(Int::getOne(),Pow::New(ydx,Int::New(2))),Int::getMinusOne())); 
+    // der(atan2(y,x)) = (x*der(y) - y*der(x)) / (x^2 + y^2)
+  BasicPtr y = getArg1();
+  BasicPtr x = getArg2();
+  BasicPtr num = Add::New(Mul::New(x,y->der(symbol)),Neg::New(Mul::New(y,x->der(symbol))));
+  BasicPtr den = Add::New(Pow::New(x,Int::New(2)),Pow::New(y,Int::New(2)));
+  return Mul::New(num,Pow::New(den,Int::getMinusOne()));
 }
 /*****************************************************************************/
\ No newline at end of file
-- 
2.43.0


From 1b01b4aedd286baf7d1045c6087106ac850e35ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:50 +0000
Subject: [PATCH 029/126] fix: element() refuses indices outside the expression

---
 symbolics/functions/Element.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symbolics/functions/Element.cpp b/symbolics/functions/Element.cpp
index 0b69b59..9d9349c 100644
--- a/symbolics/functions/Element.cpp
+++ b/symbolics/functions/Element.cpp
@@ -204,6 +204,8 @@ BasicPtr Element::New( BasicPtr const& arg, size_t zeroBasedRow, size_t zeroBase
     else
       throw InternalError("Cannot get Element[" + str(zeroBasedRow) + "," + str(zeroBasedCol) + "] from expression " + arg->toString());
   }
+  if ((zeroBasedRow >= arg->getShape().getDimension(1)) || (zeroBasedCol >= arg->getShape().getDimension(2)))
+    throw IndexError("Element: Index outside range!");
   // simplify matrices
   switch(arg->getType())
   {
-- 
2.43.0


From 5d12a9d2db5a336c083ee5974f030b5ce3c5ab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:50 +0000
Subject: [PATCH 030/126] fix: a product of 1x1 vectors survives simplify

---
 symbolics/functions/Mul.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index 62d6654..6cc7d21 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -204,8 +204,8 @@ BasicPtr Mul::simplify()
           addArg(one);
         return getArg(0);
     }
-    clearArgs();
-    reserveArgs( dst.size() );
+    BasicPtrVec merged;
+    merged.reserve( dst.size() );
     // combine Matrix args
     BasicPtr lastarg = dst[0];
     for (size_t i=1; i<dst.size(); ++i)
@@ -231,7 +231,7 @@ BasicPtr Mul::simplify()
               lastarg = Pow::New(dst[i],Add::New(c->getExponent(),Int::getOne()));
             else
             {
-              addArg(lastarg->simplify());
+              merged.push_back(lastarg->simplify());
               lastarg = dst[i];
             }
         }
@@ -242,21 +242,25 @@ BasicPtr Mul::simplify()
               lastarg = Pow::New(lastarg,Add::New(c->getExponent(),Int::getOne()));
             else
             {
-              addArg(lastarg->simplify());
+              merged.push_back(lastarg->simplify());
               lastarg = dst[i];
             }
         }
-        else if(lastarg == dst[i])
+        else if((lastarg == dst[i]) && (lastarg->getShape().getNrDimensions() != 1))
         {
             lastarg = BasicPtr(new Pow(lastarg,Int::New(2)));
         }
         else
         {
-            addArg(lastarg->simplify());
+            merged.push_back(lastarg->simplify());
             lastarg = dst[i];
         }
     }
-    addArg(lastarg->simplify());
+    merged.push_back(lastarg->simplify());
+    clearArgs();
+    reserveArgs( merged.size() );
+    for (size_t i=0; i<merged.size(); ++i)
+        addArg(merged[i]);
     if (getArgsSize() == 1)
     {
         if (negate_me)
-- 
2.43.0


From 93626e85de6644293f6d80cf2eb941124add870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:50 +0000
Subject: [PATCH 031/126] fix: scalar() checks the shape of matrices too

---
 symbolics/functions/Scalar.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/symbolics/functions/Scalar.cpp b/symbolics/functions/Scalar.cpp
index 9fc8709..596c76f 100644
--- a/symbolics/functions/Scalar.cpp
+++ b/symbolics/functions/Scalar.cpp
@@ -102,6 +102,10 @@ BasicPtr Scalar::simplify()
 BasicPtr Scalar::New(BasicPtr const& arg)
 /*****************************************************************************/
 {
+    if ((arg->getShape().getDimension(1) != 1) || (arg->getShape().getDimension(2) != 1))
+        throw ShapeError("Scalar: Argument must be (1,1) but is " + arg->getShape().toString() + "!");
+    if (arg->is_Scalar())
+        return arg;
     // if constant move sign into value
     switch (arg->getType())
     {
-- 
2.43.0


From ee57c767529f9cf410706f350630fa9e044cefdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:50 +0000
Subject: [PATCH 032/126] fix: derivative of a truth value is zero

---
 symbolics/include/Bool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/include/Bool.h b/symbolics/include/Bool.h
index b7db6d7..d474f1f 100644
--- a/symbolics/include/Bool.h
+++ b/symbolics/include/Bool.h
@@ -49,7 +49,7 @@ namespace Symbolics
         inline BasicPtr const& getArg(size_t i) const { return getArgres; };
 
         // derivative
-        inline BasicPtr der() { throw InternalError("Derivative of Bool does not exist!"); return Zero::getZero(); };
+        inline BasicPtr der() { return Zero::getZero(); };
         inline BasicPtr der(BasicPtr const& symbol) { return Zero::getZero(); };
         
     protected:
-- 
2.43.0


From 1ee322b21139c7509485bd27f3248f94460387b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:50 +0000
Subject: [PATCH 033/126] fix: trigonometric functions of an identity matrix

---
 symbolics/functions/Acos.cpp | 6 ++++--
 symbolics/functions/Asin.cpp | 6 ++++--
 symbolics/functions/Atan.cpp | 6 ++++--
 symbolics/functions/Cos.cpp  | 6 ++++--
 symbolics/functions/Sin.cpp  | 6 ++++--
 symbolics/functions/Tan.cpp  | 6 ++++--
 6 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/symbolics/functions/Acos.cpp b/symbolics/functions/Acos.cpp
index 2327076..1a7c218 100644
--- a/symbolics/functions/Acos.cpp
+++ b/symbolics/functions/Acos.cpp
@@ -77,7 +77,8 @@ BasicPtr Acos::simplify()
     case Type_Eye:
         {
           if (getArg()->is_Scalar())
-            return BasicPtr( new Real(acos(1.0)) );
+            return BasicPtr( new Real(::acos(1.0)) );
+          break;
         }
     case Type_Int:
         {
@@ -128,7 +129,8 @@ BasicPtr Acos::New( BasicPtr const& arg)
     case Type_Eye:
         {
           if (arg->is_Scalar())
-            return BasicPtr( new Real(acos(1.0)) );
+            return BasicPtr( new Real(::acos(1.0)) );
+          break;
         }
     case Type_Int:
         {
diff --git a/symbolics/functions/Asin.cpp b/symbolics/functions/Asin.cpp
index 21e28e7..eea4f4e 100644
--- a/symbolics/functions/Asin.cpp
+++ b/symbolics/functions/Asin.cpp
@@ -75,7 +75,8 @@ BasicPtr Asin::simplify()
     case Type_Eye:
         {
           if (getArg()->is_Scalar())
-            return BasicPtr( new Real(asin(1.0)) );
+            return BasicPtr( new Real(::asin(1.0)) );
+          break;
         }
     case Type_Int:
         {
@@ -127,7 +128,8 @@ BasicPtr Asin::New( BasicPtr const& arg)
     case Type_Eye:
         {
           if (arg->is_Scalar())
-            return BasicPtr( new Real(asin(1.0)) );
+            return BasicPtr( new Real(::asin(1.0)) );
+          break;
         }
     case Type_Int:
         {
diff --git a/symbolics/functions/Atan.cpp b/symbolics/functions/Atan.cpp
index f9d5873..a2f7351 100644
--- a/symbolics/functions/Atan.cpp
+++ b/symbolics/functions/Atan.cpp
@@ -73,7 +73,8 @@ BasicPtr Atan::simplify()
     case Type_Eye:
         {
           if (getArg()->is_Scalar())
-            return BasicPtr( new Real(asin(1.0)) );
+            return BasicPtr( new Real(::atan(1.0)) );
+          break;
         }
     case Type_Int:
         {
@@ -124,7 +125,8 @@ BasicPtr Atan::New( BasicPtr const& arg)
     case Type_Eye:
         {
           if (arg->is_Scalar())
-            return BasicPtr( new Real(asin(1.0)) );
+            return BasicPtr( new Real(::atan(1.0)) );
+          break;
         }
     case Type_Int:
         {
diff --git a/symbolics/functions/Cos.cpp b/symbolics/functions/Cos.cpp
index 9757888..ecf572c 100644
--- a/symbolics/functions/Cos.cpp
+++ b/symbolics/functions/Cos.cpp
@@ -76,7 +76,8 @@ BasicPtr Cos::simplify()
     case Type_Eye:
         {
           if (getArg()->is_Scalar())
-            return BasicPtr( new Real(asin(1.0)) );
+            return BasicPtr( new Real(::cos(1.0)) );
+          break;
         }
     case Type_Int:
         {
@@ -135,7 +136,8 @@ BasicPtr Cos::New( BasicPtr const& arg)
     case Type_Eye:
         {
           if (arg->is_Scalar())
-            return BasicPtr( new Real(cos(1.0)) );
+            return BasicPtr( new Real(::cos(1.0)) );
+          break;
         }
     case Type_Int:
         {
diff --git a/symbolics/functions/Sin.cpp b/symbolics/functions/Sin.cpp
index 805e7d4..ad3d8a7 100644
--- a/symbolics/functions/Sin.cpp
+++ b/symbolics/functions/Sin.cpp
@@ -69,7 +69,8 @@ BasicPtr Sin::simplify()
     case Type_Eye:
         {
           if (getArg()->is_Scalar())
-            return BasicPtr( new Real(sin(1.0)) );
+            return BasicPtr( new Real(::sin(1.0)) );
+          break;
         }
     case Type_Int:
         {
@@ -118,7 +119,8 @@ BasicPtr Sin::New( BasicPtr const& arg)
     case Type_Eye:
         {
           if (arg->is_Scalar())
-            return BasicPtr( new Real(sin(1.0)) );
+            return BasicPtr( new Real(::sin(1.0)) );
+          break;
         }
     case Type_Int:
         {
diff --git a/symbolics/functions/Tan.cpp b/symbolics/functions/Tan.cpp
index 7c5e461..aaaa33a 100644
--- a/symbolics/functions/Tan.cpp
+++ b/symbolics/functions/Tan.cpp
@@ -70,7 +70,8 @@ BasicPtr Tan::simplify()
     case Type_Eye:
         {
           if (getArg()->is_Scalar())
-            return BasicPtr( new Real(tan(1.0)) );
+            return BasicPtr( new Real(::tan(1.0)) );
+          break;
         }
     case Type_Int:
         {
@@ -121,7 +122,8 @@ BasicPtr Tan::New( BasicPtr const& arg)
     case Type_Eye:
         {
           if (arg->is_Scalar())
-            return BasicPtr( new Real(tan(1.0)) );
+            return BasicPtr( new Real(::tan(1.0)) );
+          break;
         }
     case Type_Int:
         {
-- 
2.43.0


From 0898b73bf5852246e26e42fb619b009eb7217368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:28 +0000
Subject: [PATCH 034/126] fix: a 1x1 vector times a row vector is a row vector

---
 symbolics/Shape.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/Shape.cpp b/symbolics/Shape.cpp
index b127e14..f01dcd3 100644
--- a/symbolics/Shape.cpp
+++ b/symbolics/Shape.cpp
@@ -161,7 +161,7 @@ Shape& Shape::operator*= ( Shape const& rhs)
     if ((getNrDimensions() == 1) && (rhs.getNrDimensions() == 1))
     {
       // unterscheide inneres oder aeusseres Produkt
-      if (m_dim1 == 1) // inneres Product
+      if ((m_dim1 == 1) && (rhs.m_dim2 == 1)) // inneres Product
       {
         m_ndim = 0;
         m_dim1 = 1;
@@ -170,7 +170,7 @@ Shape& Shape::operator*= ( Shape const& rhs)
       }
       else // aeusseres Product
       {
-        m_ndim = 2;
+        m_ndim = (m_dim1 == 1) ? 1 : 2;
 		    m_dim2 = rhs.getDimension(2);
         m_numElem = m_dim1*m_dim2;
       }
-- 
2.43.0


From 722b0a4382007caddffd53f13e92a120b863e436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:28 +0000
Subject: [PATCH 035/126] fix: nested products are merged only if this keeps
 the shape

---
 symbolics/functions/Mul.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index 6cc7d21..1b86676 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -79,6 +79,21 @@ BasicPtr Mul::simplify()
         if (!getArg(i)->is_Scalar() || is_InnerProduct(getArg(i)))
             ++nonscalars;
 
+    // nested products can only be merged if this keeps the shape
+    Shape flat;
+    for (size_t i=0; i<getArgsSize(); ++i)
+    {
+        BasicPtr e = (getArg(i)->getType() == Type_Neg) ? getArg(i)->getArg(0) : getArg(i);
+        if (e->is_Scalar())
+            continue;
+        if (e->getType() != Type_Mul)
+            flat *= e->getShape();
+        else
+            for (size_t j=0; j<e->getArgsSize(); ++j)
+                flat *= e->getArg(j)->getShape();
+    }
+    const bool keeps_shape = is_Scalar() || (flat == m_shape);
+
     // merge all muls together
     // move neg to front
     bool negate_me = false;
@@ -94,7 +109,7 @@ BasicPtr Mul::simplify()
             addArg(Zero::getZero(m_shape));
             return getArg(0);
         }
-        else if ((getArg(i)->getType() == Type_Mul) && ((nonscalars < 2) || !is_InnerProduct(getArg(i))))
+        else if ((getArg(i)->getType() == Type_Mul) && ((nonscalars < 2) || !is_InnerProduct(getArg(i))) && (keeps_shape || getArg(i)->is_Scalar()))
         {
             const Mul *a = Util::getAsConstPtr<Mul>(getArg(i));
             size_t argssize = a->getArgsSize();
@@ -112,7 +127,7 @@ BasicPtr Mul::simplify()
             const Neg *n = Util::getAsConstPtr<Neg>(getArg(i));
             BasicPtr narg = n->getArg();
             negate_me = !negate_me;
-            if ((narg->getType() == Type_Mul) && ((nonscalars < 2) || !is_InnerProduct(narg)))
+            if ((narg->getType() == Type_Mul) && ((nonscalars < 2) || !is_InnerProduct(narg)) && (keeps_shape || narg->is_Scalar()))
             {
                 const Mul *a = Util::getAsConstPtr<Mul>(narg);
                 size_t argssize = a->getArgsSize();
@@ -495,7 +510,8 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
         }
         else
             mulargs.push_back(rhs);
-        return BasicPtr(new Mul(mulargs));
+        BasicPtr res(new Mul(mulargs));
+        return (res->getShape() == shape) ? res : BasicPtr(new Mul(lhs,rhs));
     }
     if (rhs_flat)
     {
@@ -505,7 +521,8 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
         size_t argssize = a->getArgsSize();
         for (size_t j=0; j<argssize; ++j)
           mulargs.push_back(a->getArg(j));
-        return BasicPtr(new Mul(mulargs));
+        BasicPtr res(new Mul(mulargs));
+        return (res->getShape() == shape) ? res : BasicPtr(new Mul(lhs,rhs));
     }
     return BasicPtr(new Mul(lhs,rhs));
 }
-- 
2.43.0


From edc1a5c8c97b9d558d534ffe2d870977e2211e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:28 +0000
Subject: [PATCH 036/126] fix: derivatives with respect to components and
 derivatives of a symbol

---
 symbolics/Symbol.cpp                  |  8 +++++++
 symbolics/functions/Der.cpp           | 32 +++++++++++++++++++++++++--
 symbolics/functions/include/Der.h     |  2 +-
 symbolics/functions/include/Element.h |  3 ++-
 4 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/symbolics/Symbol.cpp b/symbolics/Symbol.cpp
index 6ec8bad..d3b12f6 100644
--- a/symbolics/Symbol.cpp
+++ b/symbolics/Symbol.cpp
@@ -325,6 +325,14 @@ BasicPtr Symbol::der(BasicPtr const& symbol)
     {
       return Util::eye(m_shape);
     }
+    if ((symbol->getType() == Type_Element) && (*symbol->getArg(0) == *this))
+    {
+      // derivative with respect to one of the components
+      const Element *elem = Util::getAsConstPtr<Element>(symbol);
+      Matrix *mat = new Matrix(m_shape);
+      mat->set(elem->getRow(),elem->getCol(),Int::getOne());
+      return BasicPtr(mat);
+    }
     return Zero::getZero(m_shape);
 }
 /*****************************************************************************/
diff --git a/symbolics/functions/Der.cpp b/symbolics/functions/Der.cpp
index 9a087ba..f8b8259 100644
--- a/symbolics/functions/Der.cpp
+++ b/symbolics/functions/Der.cpp
@@ -3,6 +3,8 @@
 #include "Symbol.h"
 #include "Int.h"
 #include "Matrix.h"
+#include "Element.h"
+#include "Zero.h"
 
 using namespace Symbolics;
 
@@ -55,8 +57,9 @@ BasicPtr Der::simplify()
   switch( getArg()->getType())
   {
   case Type_Zero:
-  case Type_Eye:
         return getArg();
+  case Type_Eye:
+        return Zero::getZero(m_shape);
   case Type_Int:
   case Type_Real:
         return Zero::getZero();
@@ -80,8 +83,9 @@ BasicPtr Der::New( BasicPtr const& arg)
   switch( arg->getType())
   {
   case Type_Zero:
-  case Type_Eye:
         return arg;
+  case Type_Eye:
+        return Zero::getZero(arg->getShape());
   case Type_Int:
   case Type_Real:
         return Zero::getZero();
@@ -98,3 +102,27 @@ BasicPtr Der::New( BasicPtr const& arg)
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+BasicPtr Der::der(BasicPtr const& symbol)
+/*****************************************************************************/
+{
+  if (*symbol == *this)
+    return Util::eye(m_shape);
+  // derivative with respect to one of the components
+  BasicPtr self(this);
+  BasicPtr other = symbol;
+  while ((self->getType() == Type_Der) && (other->getType() == Type_Der))
+  {
+    self = self->getArg(0);
+    other = other->getArg(0);
+  }
+  if ((self->getType() != Type_Der) && (other->getType() == Type_Element) && (*other->getArg(0) == *self))
+  {
+    const Element *elem = Util::getAsConstPtr<Element>(other);
+    Matrix *mat = new Matrix(m_shape);
+    mat->set(elem->getRow(),elem->getCol(),Int::getOne());
+    return BasicPtr(mat);
+  }
+  return New(getArg()->der(symbol));
+}
+/*****************************************************************************/
diff --git a/symbolics/functions/include/Der.h b/symbolics/functions/include/Der.h
index a5b4fba..0bdfce6 100644
--- a/symbolics/functions/include/Der.h
+++ b/symbolics/functions/include/Der.h
@@ -25,7 +25,7 @@ namespace Symbolics
         static BasicPtr New( BasicPtr const& arg);
 
         inline BasicPtr der() { return New(BasicPtr(this)); };
-        BasicPtr der(BasicPtr const& symbol) { return New(getArg()->der(symbol)); };
+        BasicPtr der(BasicPtr const& symbol);
     };
 
     typedef boost::intrusive_ptr< Der> ConstDerPtr;
diff --git a/symbolics/functions/include/Element.h b/symbolics/functions/include/Element.h
index 8a394ea..5afd391 100644
--- a/symbolics/functions/include/Element.h
+++ b/symbolics/functions/include/Element.h
@@ -2,6 +2,7 @@
 #define __ELEMENT_H_
 
 #include "NaryOp.h"
+#include "Int.h"
 
 namespace Symbolics
 {
@@ -31,7 +32,7 @@ namespace Symbolics
 
         // derivative
         inline BasicPtr der() { return New(getArg(0)->der(),getRow(),getCol()); };
-        inline BasicPtr der(BasicPtr const& symbol) { return New(getArg(0)->der(symbol),getRow(),getCol()); };
+        inline BasicPtr der(BasicPtr const& symbol) { if (*symbol == *this) return Int::getOne(); return New(getArg(0)->der(symbol),getRow(),getCol()); };
 
         class Scalarizer: public Basic::Iterator
         {
-- 
2.43.0


From bfefccef257dfb514e590b6812ee06b238c97a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:28 +0000
Subject: [PATCH 037/126] fix: the simplified jacobian of a scalar is a row,
 components of vector expressions

---
 symbolics/functions/Jacobian.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/symbolics/functions/Jacobian.cpp b/symbolics/functions/Jacobian.cpp
index b2c1c87..990112a 100644
--- a/symbolics/functions/Jacobian.cpp
+++ b/symbolics/functions/Jacobian.cpp
@@ -2,10 +2,18 @@
 #include "Util.h"
 #include "Matrix.h"
 #include "Der.h"
-#include "Matrix.h"
+#include "Element.h"
 
 using namespace Symbolics;
 
+// component of a column or row vector
+static BasicPtr component(BasicPtr const& vector, size_t i)
+{
+  if (vector->getShape().getDimension(2) == 1)
+    return Element::New(vector,i,0);
+  return Element::New(vector,0,i);
+}
+
 /*****************************************************************************/
 Jacobian::Jacobian( BasicPtr const& exp, BasicPtr const& symbols ): BinaryOp(Type_Jacobian, exp, symbols)
 /*****************************************************************************/
@@ -75,8 +83,8 @@ BasicPtr Jacobian::simplify()
     size_t numelem = getArg2()->getShape().getNumEl();
     vec.reserve(numelem);
     for (size_t i=0;i<numelem;++i)
-      vec.push_back(getArg1()->der(getArg2()->getArg(i))->simplify());
-    return BasicPtr(new Matrix(vec,Shape(numelem)));
+      vec.push_back(getArg1()->der(component(getArg2(),i))->simplify());
+    return BasicPtr(new Matrix(vec,Shape(1,1,numelem)));
   }
   else if (Util::is_Const(getArg1()))
   {
@@ -87,7 +95,7 @@ BasicPtr Jacobian::simplify()
     Matrix *mat = new Matrix(m_shape);
     for (size_t i=0;i<getArg2()->getShape().getNumEl();++i)
       for (size_t j=0;j<getArg1()->getShape().getNumEl();++j)
-        mat->set(i,j,getArg1()->getArg(j)->der(getArg2()->getArg(i))->simplify());
+        mat->set(j,i,component(getArg1(),j)->der(component(getArg2(),i))->simplify());
     return BasicPtr(mat);
   }
   m_simplified = true;
@@ -114,7 +122,7 @@ BasicPtr Jacobian::New( BasicPtr const& exp, BasicPtr const& symbols)
     size_t numelem = symbols->getShape().getNumEl();
     vec.reserve(numelem);
     for (size_t i=0;i<numelem;++i)
-      vec.push_back(exp1->der(symbols->getArg(i))->simplify());
+      vec.push_back(exp1->der(component(symbols,i))->simplify());
     return BasicPtr(new Matrix(vec,Shape(1,1,numelem)));
   }
   else if (Util::is_Const(exp1))
@@ -131,7 +139,7 @@ BasicPtr Jacobian::New( BasicPtr const& exp, BasicPtr const& symbols)
 		// j - Expression (=Zeilen)
 		for (size_t j=0;j<exp1->getShape().getNumEl();++j)
 			// Matrixelement
-			mat->set(j,i, exp1->getArg(j)->der(symbols->getArg(i))->simplify());
+			mat->set(j,i, component(exp1,j)->der(component(symbols,i))->simplify());
 
     return BasicPtr(mat);
   }
-- 
2.43.0


From 76d761864693b75d2f2349a001da7182c364bbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:28 +0000
Subject: [PATCH 038/126] fix: derivative of solve with a one-column matrix on
 the right hand side

---
 symbolics/functions/Solve.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Solve.cpp b/symbolics/functions/Solve.cpp
index 687b5d1..630860b 100644
--- a/symbolics/functions/Solve.cpp
+++ b/symbolics/functions/Solve.cpp
@@ -134,7 +134,10 @@ inline BasicPtr Solve::der()
 /*****************************************************************************/
 {
   // der(solve(A,b)) = solve(A,der(b)-der(A)*solve(A,b))
-  return New(getArg1(),getArg2()->der()-Mul::New(getArg1()->der(),BasicPtr(this)));
+  BasicPtr rhs = Mul::New(getArg1()->der(),BasicPtr(this));
+  if (getArg2()->getShape() == m_shape)
+    return New(getArg1(),getArg2()->der()-rhs);
+  return New(getArg1(),getArg2()->der())-New(getArg1(),rhs);
 }
 /*****************************************************************************/
 
@@ -143,6 +146,9 @@ inline BasicPtr Solve::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {
   // der(solve(A,b)) = solve(A,der(b)-der(A)*solve(A,b))
-  return New(getArg1(),getArg2()->der(symbol)-Mul::New(getArg1()->der(symbol),BasicPtr(this)));
+  BasicPtr rhs = Mul::New(getArg1()->der(symbol),BasicPtr(this));
+  if (getArg2()->getShape() == m_shape)
+    return New(getArg1(),getArg2()->der(symbol)-rhs);
+  return New(getArg1(),getArg2()->der(symbol))-New(getArg1(),rhs);
 }
 /*****************************************************************************/
\ No newline at end of file
-- 
2.43.0


From 44c27ec033950c724b3ff3b35448872863d5a22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:28 +0000
Subject: [PATCH 039/126] fix: sign(0) is zero, the derivative of sign is zero

---
 symbolics/functions/Sign.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/symbolics/functions/Sign.cpp b/symbolics/functions/Sign.cpp
index 3bfbe65..12c1abb 100644
--- a/symbolics/functions/Sign.cpp
+++ b/symbolics/functions/Sign.cpp
@@ -68,18 +68,18 @@ BasicPtr Sign::simplify()
         {
             const Int *c = Util::getAsConstPtr<Int>(getArg());
             int i = c->getValue();
-            return i>0?Int::getOne():Int::getMinusOne();
+            return i>0?Int::getOne():(i<0?Int::getMinusOne():Zero::getZero());
         }
     case Type_Real:
         {
             const Real *c = Util::getAsConstPtr<Real>(getArg());
-            return c->getValue()>0?Int::getOne():Int::getMinusOne();
+            return c->getValue()>0?Int::getOne():(c->getValue()<0?Int::getMinusOne():Zero::getZero());
         }
     case Type_Bool:
         {
             const Bool *c = Util::getAsConstPtr<Bool>(getArg());
             bool b = c->getValue();
-            return c->getValue()?Int::getOne():Int::getMinusOne();
+            return b?Int::getOne():Zero::getZero();
         }
     case Type_Matrix:
         {
@@ -116,18 +116,18 @@ BasicPtr Sign::New( BasicPtr const& arg)
         {
             const Int *c = Util::getAsConstPtr<Int>(arg);
             int i = c->getValue();
-            return i>0?Int::getOne():Int::getMinusOne();
+            return i>0?Int::getOne():(i<0?Int::getMinusOne():Zero::getZero());
         }
     case Type_Real:
         {
             const Real *c = Util::getAsConstPtr<Real>(arg);
-            return c->getValue()>0?Int::getOne():Int::getMinusOne();
+            return c->getValue()>0?Int::getOne():(c->getValue()<0?Int::getMinusOne():Zero::getZero());
         }
     case Type_Bool:
         {
             const Bool *c = Util::getAsConstPtr<Bool>(arg);
             bool b = c->getValue();
-            return c->getValue()?Int::getOne():Int::getMinusOne();
+            return b?Int::getOne():Zero::getZero();
         }
     case Type_Matrix:
         {
@@ -149,7 +149,8 @@ BasicPtr Sign::New( BasicPtr const& arg)
 inline BasicPtr Sign::der()
 /*****************************************************************************/
 {
-  return BasicPtr(new Der(BasicPtr(this)));
+  // piecewise constant
+  return Zero::getZero(m_shape);
 }
 /*****************************************************************************/
 
@@ -157,6 +158,7 @@ inline BasicPtr Sign::der()
 inline BasicPtr Sign::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {
-  return New(getArg()->der(symbol));
+  // piecewise constant
+  return Zero::getZero(m_shape);
 }
 /*****************************************************************************/
\ No newline at end of file
-- 
2.43.0


From 0fdce8a06d36942603697e28605332ab0fc5631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:28 +0000
Subject: [PATCH 040/126] fix: derivative of elementwise functions of vectors
 and matrices

---
 symbolics/functions/Abs.cpp       |  5 +++++
 symbolics/functions/Acos.cpp      |  5 +++++
 symbolics/functions/Asin.cpp      |  5 +++++
 symbolics/functions/Atan.cpp      |  5 +++++
 symbolics/functions/Cos.cpp       |  5 +++++
 symbolics/functions/Sin.cpp       |  5 +++++
 symbolics/functions/Tan.cpp       |  5 +++++
 symbolics/include/Componentwise.h | 33 +++++++++++++++++++++++++++++++
 8 files changed, 68 insertions(+)
 create mode 100644 symbolics/include/Componentwise.h

diff --git a/symbolics/functions/Abs.cpp b/symbolics/functions/Abs.cpp
index 77ef156..7351caa 100644
--- a/symbolics/functions/Abs.cpp
+++ b/symbolics/functions/Abs.cpp
@@ -1,4 +1,5 @@
 #include "Abs.h"
+#include "Componentwise.h"
 #include "Neg.h"
 #include "Pow.h"
 #include "Util.h"
@@ -174,6 +175,8 @@ BasicPtr Abs::New( BasicPtr const& arg)
 BasicPtr Abs::der()
 /*****************************************************************************/
 { 
+  if (!is_Scalar())
+    return componentwise_der<Abs>(getArg());
   // der(abs(x)) = sign(x)*der(x)
   BasicPtr derarg = getArg()->der();
   return Mul::New(Sign::New(getArg()),getArg()->der()); 
@@ -184,6 +187,8 @@ BasicPtr Abs::der()
 BasicPtr Abs::der(BasicPtr const& symbol)
 /*****************************************************************************/
 { 
+  if (!is_Scalar())
+    return componentwise_der<Abs>(getArg(),symbol);
   // der(abs(x)) = sign(x)*der(x)
   BasicPtr derarg = getArg()->der(symbol);
   return Mul::New(Sign::New(getArg()),getArg()->der(symbol)); 
diff --git a/symbolics/functions/Acos.cpp b/symbolics/functions/Acos.cpp
index 1a7c218..d21a0c8 100644
--- a/symbolics/functions/Acos.cpp
+++ b/symbolics/functions/Acos.cpp
@@ -1,4 +1,5 @@
 #include "Acos.h"
+#include "Componentwise.h"
 #include "Cos.h"
 #include "Util.h"
 #include "Neg.h"
@@ -162,6 +163,8 @@ BasicPtr Acos::New( BasicPtr const& arg)
 inline BasicPtr Acos::der()
 /*****************************************************************************/
 { 
+  if (!is_Scalar())
+    return componentwise_der<Acos>(getArg());
   // der(acos(x)) = -der(x)/sqrt(1-x^2)
   return Neg::New(Util::div(getArg()->der(),Util::sqrt(Add::New(Int::getOne(),Neg::New(Pow::New(getArg(),Int::New(2)))))));
 }
@@ -171,6 +174,8 @@ inline BasicPtr Acos::der()
 inline BasicPtr Acos::der(BasicPtr const& symbol)
 /*****************************************************************************/
 { 
+  if (!is_Scalar())
+    return componentwise_der<Acos>(getArg(),symbol);
   // der(acos(x)) = -der(x)/sqrt(1-x^2)
   return Neg::New(Util::div(getArg()->der(symbol),Util::sqrt(Add::New(Int::getOne(),Neg::New(Pow::New(getArg(),Int::New(2)))))));
 }
diff --git a/symbolics/functions/Asin.cpp b/symbolics/functions/Asin.cpp
index eea4f4e..567731c 100644
--- a/symbolics/functions/Asin.cpp
+++ b/symbolics/functions/Asin.cpp
@@ -1,4 +1,5 @@
 #include "Asin.h"
+#include "Componentwise.h"
 #include "Sin.h"
 #include "Pow.h"
 #include "Util.h"
@@ -162,6 +163,8 @@ BasicPtr Asin::New( BasicPtr const& arg)
 inline BasicPtr Asin::der()
 /*****************************************************************************/
 { 
+  if (!is_Scalar())
+    return componentwise_der<Asin>(getArg());
   // der(asin(x)) = der(x)/sqrt(1-x^2)
   return Util::div(getArg()->der(),Util::sqrt(Add::New(Int::getOne(),Neg::New(Pow::New(getArg(),Int::New(2))))));
 }
@@ -171,6 +174,8 @@ inline BasicPtr Asin::der()
 inline BasicPtr Asin::der(BasicPtr const& symbol)
 /*****************************************************************************/
 { 
+  if (!is_Scalar())
+    return componentwise_der<Asin>(getArg(),symbol);
   // der(asin(x)) = der(x)/sqrt(1-x^2)
   return Util::div(getArg()->der(symbol),Util::sqrt(Add::New(Int::getOne(),Neg::New(Pow::New(getArg(),Int::New(2))))));
 }
diff --git a/symbolics/functions/Atan.cpp b/symbolics/functions/Atan.cpp
index a2f7351..5cb5040 100644
--- a/symbolics/functions/Atan.cpp
+++ b/symbolics/functions/Atan.cpp
@@ -1,4 +1,5 @@
 #include "Atan.h"
+#include "Componentwise.h"
 #include "Tan.h"
 #include "Pow.h"
 #include "Add.h"
@@ -158,6 +159,8 @@ BasicPtr Atan::New( BasicPtr const& arg)
 inline BasicPtr Atan::der()
 /*****************************************************************************/
 { 
+  if (!is_Scalar())
+    return componentwise_der<Atan>(getArg());
   // der(atan(x)) = der(x)/(1+x^2)
     return Util::div(getArg()->der(),Add::New(Int::getOne(),Pow::New(getArg(),BasicPtr(new Int(2))))); 
 }
@@ -167,6 +170,8 @@ inline BasicPtr Atan::der()
 inline BasicPtr Atan::der(BasicPtr const& symbol)
 /*****************************************************************************/
 { 
+  if (!is_Scalar())
+    return componentwise_der<Atan>(getArg(),symbol);
   // der(atan(x)) = der(x)/(1+x^2)
     return Util::div(getArg()->der(symbol),Add::New(Int::getOne(),Pow::New(getArg(),BasicPtr(new Int(2))))); 
 }
diff --git a/symbolics/functions/Cos.cpp b/symbolics/functions/Cos.cpp
index ecf572c..a1048b0 100644
--- a/symbolics/functions/Cos.cpp
+++ b/symbolics/functions/Cos.cpp
@@ -1,5 +1,6 @@
 #include <stdarg.h>
 #include "Cos.h"
+#include "Componentwise.h"
 #include "Sin.h"
 #include "Acos.h"
 #include "Neg.h"
@@ -174,6 +175,8 @@ BasicPtr Cos::New( BasicPtr const& arg)
 /*****************************************************************************/
 inline BasicPtr Cos::der()
 { 
+  if (!is_Scalar())
+    return componentwise_der<Cos>(getArg());
   // der(cos(x)) = -der(x)*sin(x)
     return Neg::New(Mul::New(getArg()->der(),Sin::New(getArg()))); 
 }
@@ -182,6 +185,8 @@ inline BasicPtr Cos::der()
 /*****************************************************************************/
 inline BasicPtr Cos::der(BasicPtr const& symbol)
 { 
+  if (!is_Scalar())
+    return componentwise_der<Cos>(getArg(),symbol);
   // der(cos(x)) = -der(x)*sin(x)
     return Neg::New(Mul::New(getArg()->der(symbol),Sin::New(getArg()))); 
 }
diff --git a/symbolics/functions/Sin.cpp b/symbolics/functions/Sin.cpp
index ad3d8a7..9dc29ba 100644
--- a/symbolics/functions/Sin.cpp
+++ b/symbolics/functions/Sin.cpp
@@ -1,5 +1,6 @@
 #include <stdarg.h>
 #include "Sin.h"
+#include "Componentwise.h"
 #include "Asin.h"
 #include "Cos.h"
 #include "Neg.h"
@@ -158,6 +159,8 @@ BasicPtr Sin::New( BasicPtr const& arg)
 inline BasicPtr Sin::der()
 /*****************************************************************************/
 { 
+  if (!is_Scalar())
+    return componentwise_der<Sin>(getArg());
   // der(sin(x)) = der(x)*cos(x); 
   return Mul::New(getArg()->der(),Cos::New(getArg())); 
 }
@@ -167,6 +170,8 @@ inline BasicPtr Sin::der()
 inline BasicPtr Sin::der(BasicPtr const& symbol)
 /*****************************************************************************/
 { 
+  if (!is_Scalar())
+    return componentwise_der<Sin>(getArg(),symbol);
   // der(sin(x)) = der(x)*cos(x); 
   return Mul::New(getArg()->der(symbol),Cos::New(getArg())); 
 }
diff --git a/symbolics/functions/Tan.cpp b/symbolics/functions/Tan.cpp
index aaaa33a..75cdde5 100644
--- a/symbolics/functions/Tan.cpp
+++ b/symbolics/functions/Tan.cpp
@@ -1,5 +1,6 @@
 #include <stdarg.h>
 #include "Tan.h"
+#include "Componentwise.h"
 #include "Atan.h"
 #include "Neg.h"
 #include "Util.h"
@@ -160,6 +161,8 @@ BasicPtr Tan::New( BasicPtr const& arg)
 BasicPtr Tan::der()
 /*****************************************************************************/
 {
+  if (!is_Scalar())
+    return componentwise_der<Tan>(getArg());
   // der(tan(x)) = der(x)/(cos(x)^2)
   return Util::div(getArg()->der(),Pow::New(Cos::New(getArg()),Int::New(2)));
 }
@@ -169,6 +172,8 @@ BasicPtr Tan::der()
 BasicPtr Tan::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {
+  if (!is_Scalar())
+    return componentwise_der<Tan>(getArg(),symbol);
   // der(tan(x)) = der(x)/(cos(x)^2)
   return Util::div(getArg()->der(symbol),Pow::New(Cos::New(getArg()),Int::New(2)));
 }
diff --git a/symbolics/include/Componentwise.h b/symbolics/include/Componentwise.h
new file mode 100644
index 0000000..b7a967e
--- /dev/null
+++ b/symbolics/include/Componentwise.h
@@ -0,0 +1,33 @@
+#ifndef __COMPONENTWISE_H_
+#define __COMPONENTWISE_H_
+
+#include "Matrix.h"
+#include "Element.h"
+
+namespace Symbolics
+{
+    // derivative of the function F, applied to each component of a vector or matrix
+    template< typename F >
+    BasicPtr componentwise_der( BasicPtr const& arg )
+    {
+        Matrix *mat = new Matrix(arg->getShape());
+        BasicPtr res(mat);
+        for (size_t i=0; i<arg->getShape().getDimension(1); ++i)
+            for (size_t j=0; j<arg->getShape().getDimension(2); ++j)
+                mat->set(i,j,F::New(Element::New(arg,i,j))->der());
+        return res;
+    }
+
+    template< typename F >
+    BasicPtr componentwise_der( BasicPtr const& arg, BasicPtr const& symbol )
+    {
+        Matrix *mat = new Matrix(arg->getShape());
+        BasicPtr res(mat);
+        for (size_t i=0; i<arg->getShape().getDimension(1); ++i)
+            for (size_t j=0; j<arg->getShape().getDimension(2); ++j)
+                mat->set(i,j,F::New(Element::New(arg,i,j))->der(symbol));
+        return res;
+    }
+};
+
+#endif // __COMPONENTWISE_H_
-- 
2.43.0


From 3610eaa3e190ba74a33de7bd3df915cad4e2cf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:28 +0000
Subject: [PATCH 041/126] fix: subs and expansion know sign, inv, outer and
 jacobian

---
 symbolics/Factory.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/symbolics/Factory.cpp b/symbolics/Factory.cpp
index dcf17b8..77dc024 100644
--- a/symbolics/Factory.cpp
+++ b/symbolics/Factory.cpp
@@ -60,6 +60,10 @@ BasicPtr Factory::newBasic( Basic_Type type,  BasicPtr &arg, Shape const& shape)
         throw InternalError("Unknown is not supported by Factory!");
     case Type_Tan:
         return BasicPtr( new Tan(arg) );
+    case Type_Sign:
+        return BasicPtr( new Sign(arg) );
+    case Type_Inverse:
+        return BasicPtr( new Inverse(arg) );
     default:
         throw InternalError("Unknown Type: " + str(type) + "!");
     };
@@ -94,6 +98,10 @@ BasicPtr Factory::newBasic( Basic_Type type,  BasicPtr &arg1, BasicPtr &arg2, Sh
         return BasicPtr( new Greater(arg1,arg2) );
     case Type_Equal:
         return BasicPtr( new Equal(arg1,arg2) );
+    case Type_Outer:
+        return BasicPtr( new Outer(arg1,arg2) );
+    case Type_Jacobian:
+        return BasicPtr( new Jacobian(arg1,arg2) );
     case Type_Unknown:
         throw InternalError("Unknown is not supported by Factory!");
     default:
@@ -162,6 +170,14 @@ BasicPtr Factory::newBasic( Basic_Type type,  BasicPtrVec &args, Shape const& sh
         throw InternalError("Unknown is not supported by Factory!");
     case Type_Tan:
         return BasicPtr( new Tan(args) );
+    case Type_Sign:
+        return BasicPtr( new Sign(args) );
+    case Type_Inverse:
+        return BasicPtr( new Inverse(args) );
+    case Type_Outer:
+        return BasicPtr( new Outer(args) );
+    case Type_Jacobian:
+        return BasicPtr( new Jacobian(args) );
     default:
         throw InternalError("Unknown Type: " + str(type) + "!");
     };
-- 
2.43.0


From c7508475a87817e43944e3080ff5df42173cdf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:31 +0000
Subject: [PATCH 042/126] fix: minus a truth value is a number

---
 symbolics/functions/Neg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Neg.cpp b/symbolics/functions/Neg.cpp
index 08edced..13c6b14 100644
--- a/symbolics/functions/Neg.cpp
+++ b/symbolics/functions/Neg.cpp
@@ -74,7 +74,7 @@ BasicPtr Neg::simplify()
         {
             const Bool *c = Util::getAsConstPtr<Bool>(getArg());
             bool b = c->getValue();
-            return BasicPtr(new Bool(!b));
+            return b?Int::getMinusOne():Zero::getZero();
         }
     case Type_Matrix:
         {
@@ -114,7 +114,7 @@ BasicPtr Neg::New(BasicPtr const& e)
         {
             const Bool *c = Util::getAsConstPtr<Bool>(e);
             bool b = c->getValue();
-            return BasicPtr(new Bool(!b));
+            return b?Int::getMinusOne():Zero::getZero();
         }
     case Type_Real:
         {
-- 
2.43.0


From 97455ee7aff2f6a8c86760e38b62d82772496ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:31 +0000
Subject: [PATCH 043/126] fix: equality and order of expressions are consistent

---
 symbolics/BinaryOp.cpp                  |   7 +-
 symbolics/Eye.cpp                       |  60 ++-----
 symbolics/NaryOp.cpp                    |   5 +-
 symbolics/UnaryOp.cpp                   |   3 +-
 symbolics/Zero.cpp                      |  48 ++----
 symbolics/functions/Add.cpp             |  18 +++
 symbolics/functions/Mul.cpp             |  26 +++
 symbolics/functions/Operators.cpp       | 200 ++++++++++++++----------
 symbolics/functions/include/Add.h       |   1 +
 symbolics/functions/include/Mul.h       |   1 +
 symbolics/functions/include/Operators.h |   6 +
 symbolics/include/Eye.h                 |   4 +-
 symbolics/include/Zero.h                |   4 +-
 13 files changed, 214 insertions(+), 169 deletions(-)

diff --git a/symbolics/BinaryOp.cpp b/symbolics/BinaryOp.cpp
index 449e313..5abddd9 100644
--- a/symbolics/BinaryOp.cpp
+++ b/symbolics/BinaryOp.cpp
@@ -1,6 +1,7 @@
 #include "BinaryOp.h"
 #include "str.h"
 #include "Factory.h"
+#include "Operators.h"
 
 using namespace Symbolics;
 
@@ -86,9 +87,9 @@ bool BinaryOp::operator<(Basic const& rhs) const
     BasicPtr rhsArg2(binaryop.getArg2()); 
 
     // Args vergleichen
-    if ((*getArg1().get()) == (*rhsArg1.get()))
-        return (*getArg2().get()) < (*rhsArg2.get());
-    return (*getArg1().get()) < (*rhsArg1.get());
+    if (getArg1() == rhsArg1)
+        return getArg2() < rhsArg2;
+    return getArg1() < rhsArg1;
 }
 /*****************************************************************************/
 
diff --git a/symbolics/Eye.cpp b/symbolics/Eye.cpp
index 86a765e..45f3fe6 100644
--- a/symbolics/Eye.cpp
+++ b/symbolics/Eye.cpp
@@ -46,49 +46,23 @@ Eye::~Eye()
 bool Eye::operator==(  Basic const& rhs ) const
 /*****************************************************************************/
 {
-    // Typ pruefen
-    switch (rhs.getType())
-    {
-    case Type_Eye: 
-        return true;
-    case Type_Int:
-        {
-            const Int &i = dynamic_cast<const Int&>(rhs);
-            return 0 == i.getValue();
-        }
-    case Type_Real:
-        {
-            const Real &r = dynamic_cast<const Real&>(rhs);
-            return 0 == r.getValue();
-        }
-    case Type_Matrix:
-      {
-        const Matrix &mat = dynamic_cast<const Matrix&>(rhs);
-        if (mat.is_Vector())
-        {
-          size_t elem = mat.getShape().getNumEl();
-          for (size_t i=0; i<elem; ++i)
-            if (mat.get(i) != Int::getOne())
-              return false;
-            return true;
-        }
-        size_t dim1 = mat.getShape().getDimension(1);
-        size_t dim2 = mat.getShape().getDimension(2);
-        if (dim1 != dim2)
-            return false;
-        for (size_t i=0; i<dim1; ++i)
-          if (mat.get(i,i) != Int::getOne())
-            return false;
-        for (size_t i=0; i<dim1; ++i)
-          for (size_t j=0; j<dim2; ++j)
-            if (i!=j)
-              if (mat.get(i,i) != Int::getZero())
-                return false;
-        return true;
-      }
-    default:
-        return false;
-    }
+    return is_Equal(*this,rhs);
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+bool Eye::operator!=(  Basic const& rhs ) const
+/*****************************************************************************/
+{
+    return !is_Equal(*this,rhs);
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+bool Eye::operator<(  Basic const& rhs ) const
+/*****************************************************************************/
+{
+    return is_Less(*this,rhs);
 }
 /*****************************************************************************/
  
diff --git a/symbolics/NaryOp.cpp b/symbolics/NaryOp.cpp
index fc7d660..4b7d644 100644
--- a/symbolics/NaryOp.cpp
+++ b/symbolics/NaryOp.cpp
@@ -1,5 +1,6 @@
 #include "NaryOp.h"
 #include "Factory.h"
+#include "Operators.h"
 
 using namespace Symbolics;
 
@@ -150,9 +151,9 @@ bool NaryOp::operator<(Basic  const& rhs) const
         {
             BasicPtr rhsArg(naryop.getArg(i)); 
             // Args vergleichen
-            if ((*getArg(i).get()) == (*rhsArg.get()))
+            if (getArg(i) == rhsArg)
                 continue;
-            return (*getArg(i).get()) < (*rhsArg.get());
+            return getArg(i) < rhsArg;
         }
         // all args equal return false
         return false;
diff --git a/symbolics/UnaryOp.cpp b/symbolics/UnaryOp.cpp
index 58b3bef..edd7af2 100644
--- a/symbolics/UnaryOp.cpp
+++ b/symbolics/UnaryOp.cpp
@@ -1,6 +1,7 @@
 #include "UnaryOp.h"
 #include "str.h"
 #include "Factory.h"
+#include "Operators.h"
 
 using namespace Symbolics;
 
@@ -80,7 +81,7 @@ bool UnaryOp::operator<(Basic const& rhs) const
     BasicPtr rhsArg(unary.getArg()); 
 
     // Args vergleichen
-    return (*(getArg().get())) < (*rhsArg.get());
+    return getArg() < rhsArg;
 
 }
 /*****************************************************************************/
diff --git a/symbolics/Zero.cpp b/symbolics/Zero.cpp
index 3484521..b9486bb 100644
--- a/symbolics/Zero.cpp
+++ b/symbolics/Zero.cpp
@@ -46,37 +46,23 @@ Zero::~Zero()
 bool Zero::operator==(  Basic const& rhs ) const
 /*****************************************************************************/
 {
-    // Typ pruefen
-    switch (rhs.getType())
-    {
-    case Type_Zero: 
-        return true;
-    case Type_Bool:
-        {
-            const Bool &b = dynamic_cast<const Bool&>(rhs);
-            return false == b.getValue();
-        }
-    case Type_Int:
-        {
-            const Int &i = dynamic_cast<const Int&>(rhs);
-            return 0 == i.getValue();
-        }
-    case Type_Real:
-        {
-            const Real &r = dynamic_cast<const Real&>(rhs);
-            return 0 == r.getValue();
-        }
-    case Type_Matrix:
-        {
-            size_t argssize = rhs.getArgsSize();
-            for (size_t i=0;i<argssize;++i)
-              if (!(rhs.getArg(i) == 0))
-                    return false;
-            return true;
-        }
-    default:
-        return false;
-    }
+    return is_Equal(*this,rhs);
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+bool Zero::operator!=(  Basic const& rhs ) const
+/*****************************************************************************/
+{
+    return !is_Equal(*this,rhs);
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+bool Zero::operator<(  Basic const& rhs ) const
+/*****************************************************************************/
+{
+    return is_Less(*this,rhs);
 }
 /*****************************************************************************/
  
diff --git a/symbolics/functions/Add.cpp b/symbolics/functions/Add.cpp
index 2436350..f29863c 100644
--- a/symbolics/functions/Add.cpp
+++ b/symbolics/functions/Add.cpp
@@ -348,6 +348,24 @@ BasicPtr Add::simplify()
 /*****************************************************************************/
 
 
+/*****************************************************************************/
+bool Add::operator<(  Basic const& rhs ) const
+/*****************************************************************************/
+{
+    const Add *add = dynamic_cast<const Add*>(& rhs);
+    if ((add == NULL) || (getShape() != rhs.getShape()))
+        return NaryOp::operator<(rhs);
+
+    // wie bei == spielt die Reihenfolge keine Rolle
+    BasicPtrVec args,rhs_args;
+    for (size_t i=0;i<getArgsSize();++i)
+        args.push_back(getArg(i));
+    for (size_t i=0;i<add->getArgsSize();++i)
+        rhs_args.push_back(add->getArg(i));
+    return is_Less(args,rhs_args);
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 bool Add::operator==(  Basic const& rhs ) const
 /*****************************************************************************/
diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index 1b86676..412d337 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -298,6 +298,32 @@ BasicPtr Mul::simplify()
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+bool Mul::operator<(  Basic const& rhs ) const
+/*****************************************************************************/
+{
+    const Mul *mul = dynamic_cast<const Mul*>(& rhs);
+    if ((mul == NULL) || (getShape() != rhs.getShape()))
+        return NaryOp::operator<(rhs);
+
+    // wie bei == spielt die Reihenfolge der Skalare keine Rolle
+    BasicPtrVec scalars,rhs_scalars,nonscalars,rhs_nonscalars;
+    for (size_t i=0;i<getArgsSize();++i)
+        (getArg(i)->is_Scalar() ? scalars : nonscalars).push_back(getArg(i));
+    for (size_t i=0;i<mul->getArgsSize();++i)
+        (mul->getArg(i)->is_Scalar() ? rhs_scalars : rhs_nonscalars).push_back(mul->getArg(i));
+    if (nonscalars.size() != rhs_nonscalars.size())
+        return nonscalars.size() < rhs_nonscalars.size();
+    for (size_t i=0;i<nonscalars.size();++i)
+    {
+        if (nonscalars[i] == rhs_nonscalars[i])
+            continue;
+        return nonscalars[i] < rhs_nonscalars[i];
+    }
+    return is_Less(scalars,rhs_scalars);
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 bool Mul::operator==(  Basic const& rhs ) const
 /*****************************************************************************/
diff --git a/symbolics/functions/Operators.cpp b/symbolics/functions/Operators.cpp
index 795c072..8fbd398 100644
--- a/symbolics/functions/Operators.cpp
+++ b/symbolics/functions/Operators.cpp
@@ -1,6 +1,9 @@
 #include "Operators.h"
 #include "Basic.h"
 #include "Int.h"
+#include "Real.h"
+#include "Zero.h"
+#include "Bool.h"
 #include "Symbol.h"
 #include "Add.h"
 #include "Mul.h"
@@ -8,65 +11,133 @@
 #include "Util.h"
 #include "Pow.h"
 
+#include <algorithm>
 #include <cassert>
 
 using namespace Symbolics;
 
 /*****************************************************************************/
-bool Symbolics::operator<(BasicPtr const& lhs, BasicPtr  const& rhs)
+// scalar numbers are compared by their value
+static bool is_Number(Basic const& exp, double &value)
 /*****************************************************************************/
 {
-    // zuerst den Typ vergleichen
-    // Ausnamen fuer Zero
-    if ((lhs->getType() == Type_Zero) &&
-        (rhs->getType() == Type_Real))
-    {
-        const Real *cd = Util::getAsConstPtr<Real>(rhs);
-        return 0.0 < cd->getValue();
-    }
-    if ((lhs->getType() == Type_Real) &&
-        (rhs->getType() == Type_Zero))
+    switch (exp.getType())
     {
-        const Real *cd = Util::getAsConstPtr<Real>(lhs);
-        return cd->getValue() < 0.0;
+    case Type_Zero:
+        value = 0.0;
+        return exp.is_Scalar();
+    case Type_Int:
+        value = dynamic_cast<const Int&>(exp).getValue();
+        return true;
+    case Type_Real:
+        value = dynamic_cast<const Real&>(exp).getValue();
+        return true;
+    default:
+        return false;
     }
-    if ((lhs->getType() == Type_Zero) &&
-        (rhs->getType() == Type_Int))
-    {
-        const Int *ci = Util::getAsConstPtr<Int>(rhs);
-        return 0 < ci->getValue();
-    }
-    if ((lhs->getType() == Type_Int) &&
-        (rhs->getType() == Type_Zero))
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+// numbers are sorted among the Ints, a matrix of zeros like Zero
+static Basic_Type getClass(Basic const& exp)
+/*****************************************************************************/
+{
+    double value;
+    if (is_Number(exp,value))
+        return Type_Int;
+    if (exp.getType() != Type_Matrix)
+        return exp.getType();
+    for (size_t i=0; i<exp.getArgsSize(); ++i)
+        if (!is_Number(*exp.getArg(i),value) || (value != 0.0))
+            return Type_Matrix;
+    return Type_Zero;
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+bool Symbolics::is_Equal(Basic const& lhs, Basic const& rhs)
+/*****************************************************************************/
+{
+    if (&lhs == &rhs) return true;
+    // Typ und Shape vergleichen
+    const Basic_Type type = getClass(lhs);
+    if (type != getClass(rhs)) return false;
+    if (lhs.getShape() != rhs.getShape()) return false;
+    switch (type)
     {
-        const Int *ci = Util::getAsConstPtr<Int>(lhs);
-        return ci->getValue() < 0;
+    case Type_Int:
+        {
+            double l,r;
+            is_Number(lhs,l);
+            is_Number(rhs,r);
+            return l == r;
+        }
+    case Type_Zero:
+    case Type_Eye:
+        return true;
+    case Type_Bool:
+        return dynamic_cast<const Bool&>(lhs).getValue() == dynamic_cast<const Bool&>(rhs).getValue();
+    default:
+        // Nun als Basic vergleichen
+        return lhs == rhs;
     }
-    // Ausnahme fuer Int==Dbl und andersherum
-    if ((lhs->getType() == Type_Int) &&
-        (rhs->getType() == Type_Real))
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+bool Symbolics::is_Less(Basic const& lhs, Basic const& rhs)
+/*****************************************************************************/
+{
+    if (&lhs == &rhs) return false;
+    // Typ und Shape vergleichen
+    const Basic_Type type = getClass(lhs);
+    const Basic_Type rhs_type = getClass(rhs);
+    if (type != rhs_type) return type < rhs_type;
+    if (lhs.getShape() != rhs.getShape()) return lhs.getShape() < rhs.getShape();
+    switch (type)
     {
-        const Int *ci = Util::getAsConstPtr<Int>(lhs);
-        const Real *cd = Util::getAsConstPtr<Real>(rhs);
-        return (*ci) < (*cd);
+    case Type_Int:
+        {
+            double l,r;
+            is_Number(lhs,l);
+            is_Number(rhs,r);
+            return l < r;
+        }
+    case Type_Zero:
+    case Type_Eye:
+        return false;
+    case Type_Bool:
+        return dynamic_cast<const Bool&>(lhs).getValue() < dynamic_cast<const Bool&>(rhs).getValue();
+    default:
+        // Nun als Basic vergleichen
+        return lhs < rhs;
     }
-    if ((lhs->getType() == Type_Real) &&
-        (rhs->getType() == Type_Int))
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+bool Symbolics::is_Less(BasicPtrVec lhs, BasicPtrVec rhs)
+/*****************************************************************************/
+{
+    if (lhs.size() != rhs.size()) return lhs.size() < rhs.size();
+    // die Reihenfolge spielt keine Rolle
+    std::sort(lhs.begin(),lhs.end());
+    std::sort(rhs.begin(),rhs.end());
+    for (size_t i=0; i<lhs.size(); ++i)
     {
-        const Real *cd = Util::getAsConstPtr<Real>(lhs);
-        const Int *ci = Util::getAsConstPtr<Int>(rhs);
-        return (*ci) < (*cd);
+        if (lhs[i] < rhs[i]) return true;
+        if (rhs[i] < lhs[i]) return false;
     }
-    // Vergleich Type
-    if (lhs->getType() != rhs->getType())
-        return (lhs->getType() < rhs->getType());
-
-    // Vergleich Shape
-    if (lhs->getShape() != rhs->getShape())
-        return (lhs->getShape() < rhs->getShape());
+    return false;
+}
+/*****************************************************************************/
 
-    // Nun als Basic vergleichen
-    return (*lhs.get() < *rhs.get());
+/*****************************************************************************/
+bool Symbolics::operator<(BasicPtr const& lhs, BasicPtr  const& rhs)
+/*****************************************************************************/
+{
+    return is_Less(*lhs,*rhs);
 }
 /*****************************************************************************/
 
@@ -85,48 +156,7 @@ bool Symbolics::operator>(BasicPtr const& lhs, BasicPtr  const& rhs)
 bool Symbolics::operator== (BasicPtr const& lhs, BasicPtr  const& rhs)
 /*****************************************************************************/
 {
-    // zuerst den Typ vergleichen
-    // Ausnamen fuer Zero
-    if (lhs->getType() == Type_Zero)
-    {
-        const Zero *ci = Util::getAsConstPtr<Zero>(lhs);
-        return (*ci) == rhs;
-    }
-    if (rhs->getType() == Type_Zero)
-    {
-        const Zero *ci = Util::getAsConstPtr<Zero>(rhs);
-        return (*ci) == lhs;
-    }
-    if ((lhs->getType() == Type_Real) &&
-        (rhs->getType() == Type_Int))
-    {
-        const Real *cd = Util::getAsConstPtr<Real>(lhs);
-        const Int *ci = Util::getAsConstPtr<Int>(rhs);
-        return (*ci) == (*cd);
-    }
-    // Ausnahme fuer Int==Dbl und andersherum
-    if ((lhs->getType() == Type_Int) &&
-        (rhs->getType() == Type_Real))
-    {
-        const Int *ci = Util::getAsConstPtr<Int>(lhs);
-        const Real *cd = Util::getAsConstPtr<Real>(rhs);
-        return (*ci) == (*cd);
-    }
-    if ((lhs->getType() == Type_Real) &&
-        (rhs->getType() == Type_Int))
-    {
-        const Real *cd = Util::getAsConstPtr<Real>(lhs);
-        const Int *ci = Util::getAsConstPtr<Int>(rhs);
-        return (*ci) == (*cd);
-    }
-
-    // falls dieser verschieden ist, aufgeben
-    if (lhs->getType() != rhs->getType()) return false;
-    // Als naechstes den Shape vergleichen
-    if (lhs->getShape() != rhs->getShape()) return false;
-
-    // Nun als Basic vergleichen
-    return (*lhs.get() == *rhs.get());
+    return is_Equal(*lhs,*rhs);
 }
 /*****************************************************************************/
 
diff --git a/symbolics/functions/include/Add.h b/symbolics/functions/include/Add.h
index 01a0792..a07474e 100644
--- a/symbolics/functions/include/Add.h
+++ b/symbolics/functions/include/Add.h
@@ -17,6 +17,7 @@ namespace Symbolics
 
         // Vergleich
         bool operator==(  Basic const& rhs ) const ;
+        bool operator<( Basic const& rhs) const;
 
         // toString
         std::string toString() const;
diff --git a/symbolics/functions/include/Mul.h b/symbolics/functions/include/Mul.h
index 167e8d0..89d6253 100644
--- a/symbolics/functions/include/Mul.h
+++ b/symbolics/functions/include/Mul.h
@@ -19,6 +19,7 @@ namespace Symbolics
 
         // Vergleich
         bool operator==( Basic const& rhs) const;
+        bool operator<( Basic const& rhs) const;
 
         // toString
         std::string toString() const;
diff --git a/symbolics/functions/include/Operators.h b/symbolics/functions/include/Operators.h
index ab287a0..ceee63b 100644
--- a/symbolics/functions/include/Operators.h
+++ b/symbolics/functions/include/Operators.h
@@ -16,6 +16,12 @@ namespace Symbolics
     bool operator<( BasicPtr const& lhs, BasicPtr  const& rhs);
     bool operator>( BasicPtr const& lhs, BasicPtr  const& rhs);
 
+    // Gleichheit und Ordnung; die Ordnung kennt keine inhaltliche Bedeutung
+    bool is_Equal( Basic const& lhs, Basic const& rhs);
+    bool is_Less( Basic const& lhs, Basic const& rhs);
+    // Ordnung von Argumenten, deren Reihenfolge keine Rolle spielt
+    bool is_Less( BasicPtrVec lhs, BasicPtrVec rhs);
+
     // Operatoren mit doubles
     BasicPtr operator+ (double lhs, BasicPtr  const& rhs);
     BasicPtr operator+ (BasicPtr const& lhs, double rhs);
diff --git a/symbolics/include/Eye.h b/symbolics/include/Eye.h
index 9ccacbf..1feab12 100644
--- a/symbolics/include/Eye.h
+++ b/symbolics/include/Eye.h
@@ -21,8 +21,8 @@ namespace Symbolics
         inline BasicPtr simplify() { return BasicPtr(this); };
 
         bool operator==(  Basic const& rhs ) const;
-        bool operator!=(  Basic const& rhs ) const { return m_type != rhs.getType(); };
-        bool operator<(Basic const& rhs) const { return m_type < rhs.getType(); };
+        bool operator!=(  Basic const& rhs ) const;
+        bool operator<(Basic const& rhs) const;
 
         template< typename T >
         BasicPtr operator* ( T const& t) { return BasicPtr(this); };
diff --git a/symbolics/include/Zero.h b/symbolics/include/Zero.h
index 080d415..e1ca3ef 100644
--- a/symbolics/include/Zero.h
+++ b/symbolics/include/Zero.h
@@ -20,8 +20,8 @@ namespace Symbolics
         inline BasicPtr simplify() { return BasicPtr(this); };
 
         bool operator==(  Basic const& rhs ) const;
-        bool operator!=(  Basic const& rhs ) const { return m_type != rhs.getType(); };
-        bool operator<( Basic const& rhs ) const { return m_type < rhs.getType(); };
+        bool operator!=(  Basic const& rhs ) const;
+        bool operator<( Basic const& rhs ) const;
 
         template< typename T >
         BasicPtr operator* ( T const& t) { return BasicPtr(this); };
-- 
2.43.0


From c07fe89a97bf641735689cf1dc50a84183662536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:04 +0000
Subject: [PATCH 044/126] fix: abs of an even power of a matrix

---
 symbolics/functions/Abs.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Abs.cpp b/symbolics/functions/Abs.cpp
index 7351caa..7eb7eeb 100644
--- a/symbolics/functions/Abs.cpp
+++ b/symbolics/functions/Abs.cpp
@@ -94,7 +94,7 @@ BasicPtr Abs::simplify()
         {
             const Pow *p = Util::getAsConstPtr<Pow>(getArg());
             int exp;
-            if (Util::is_Int(p->getArg2(), exp))
+            if (p->is_Scalar() && Util::is_Int(p->getArg2(), exp))
                 // Ist der Exponent auch gerade?
                 if ((exp%2)==0)
                     return getArg();
@@ -154,7 +154,7 @@ BasicPtr Abs::New( BasicPtr const& arg)
         {
             const Pow *p = Util::getAsConstPtr<Pow>(arg);
             int exp;
-            if (Util::is_Int(p->getArg2(), exp))
+            if (p->is_Scalar() && Util::is_Int(p->getArg2(), exp))
                 // Ist der Exponent auch gerade?
                 if ((exp%2)==0)
                     return arg;
-- 
2.43.0


From cdd6e54dddb730a3e1257d03631b0538c55a3471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:04 +0000
Subject: [PATCH 045/126] fix: products of 1x1 vectors and matrices keep their
 shape

---
 symbolics/functions/Mul.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index 412d337..4734f3c 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -92,7 +92,7 @@ BasicPtr Mul::simplify()
             for (size_t j=0; j<e->getArgsSize(); ++j)
                 flat *= e->getArg(j)->getShape();
     }
-    const bool keeps_shape = is_Scalar() || (flat == m_shape);
+    const bool keeps_shape = (flat == m_shape);
 
     // merge all muls together
     // move neg to front
-- 
2.43.0


From 913bf63adbc14d7b04e48aeb4c2786101482ca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:04 +0000
Subject: [PATCH 046/126] fix: assigning an expression to a slice of a matrix
 it depends on

---
 symbolics/wrapper/CBasic.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/symbolics/wrapper/CBasic.cpp b/symbolics/wrapper/CBasic.cpp
index 7972729..0b94fa9 100644
--- a/symbolics/wrapper/CBasic.cpp
+++ b/symbolics/wrapper/CBasic.cpp
@@ -881,12 +881,20 @@ static int CBasic_set(CBasicObject *self, PyObject *index, PyObject *value)
 		// Wert(e) setzen
 		if (slicing(m,n))	// Slicing
 		{
+			// zuerst alle Werte bestimmen, denn b kann von der Matrix abhaengen
+			BasicPtrVec values;
 			for (size_t i=0; i<m.size(); ++i)
 				if (n.size() == 0)
-					mat->set(m[i], Element::New(b,i,0));
+					values.push_back(Element::New(b,i,0));
 				else
 					for (size_t j=0; j<n.size(); ++j)
-						mat->set(m[i],n[j], Element::New(b,i,j));
+						values.push_back(Element::New(b,i,j));
+			for (size_t i=0; i<m.size(); ++i)
+				if (n.size() == 0)
+					mat->set(m[i], values[i]);
+				else
+					for (size_t j=0; j<n.size(); ++j)
+						mat->set(m[i],n[j], values[i*n.size()+j]);
 		}
 		else				// Kein Slicing
 		{
-- 
2.43.0


From 724939e5433d169064d484012752a25787fab697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:48 +0000
Subject: [PATCH 047/126] fix: the outer product of one-component vectors stays
 a matrix

---
 symbolics/functions/Outer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Outer.cpp b/symbolics/functions/Outer.cpp
index ba802cc..3a0bb84 100644
--- a/symbolics/functions/Outer.cpp
+++ b/symbolics/functions/Outer.cpp
@@ -93,7 +93,7 @@ BasicPtr Outer::simplify()
     if (Util::is_Zero(getArg2())) return Zero::getZero(m_shape);
 
 	  // simplify matrices
-	  if ( (getArg1()->getType() == Type_Matrix) && (getArg2()->getType() == Type_Matrix) )
+	  if ( (getArg1()->getType() == Type_Matrix) && (getArg2()->getType() == Type_Matrix) && (m_shape.getNumEl() > 1) )
 	  {
 		  const Matrix *mat1 = Util::getAsConstPtr<Matrix>(getArg1().get());
 		  const Matrix *mat2 = Util::getAsConstPtr<Matrix>(getArg2().get());
@@ -116,7 +116,7 @@ BasicPtr Outer::New( BasicPtr const& arg1, BasicPtr const& arg2 )
     if (Util::is_Zero(arg2)) return Zero::getZero(outer->getShape());
 
 	// simplify matrices
-	if ( (arg1->getType() == Type_Matrix) && (arg2->getType() == Type_Matrix) )
+	if ( (arg1->getType() == Type_Matrix) && (arg2->getType() == Type_Matrix) && (outer->getShape().getNumEl() > 1) )
 	{
 		const Matrix *mat1 = Util::getAsConstPtr<Matrix>(arg1.get());
 		const Matrix *mat2 = Util::getAsConstPtr<Matrix>(arg2.get());
-- 
2.43.0


From 3cb52753ab039e017119e6b04cf55021eef62985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:47 +0000
Subject: [PATCH 048/126] fix: a one-component vector times a row vector is a
 row vector

---
 symbolics/Matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/Matrix.cpp b/symbolics/Matrix.cpp
index 59c2906..e0f5d55 100644
--- a/symbolics/Matrix.cpp
+++ b/symbolics/Matrix.cpp
@@ -530,7 +530,7 @@ Matrix& Matrix::operator*=( Matrix const& rhs)
         // Ist der andere ein Vektor?
         if (rhs.m_shape.getNrDimensions() == 1)
         {
-          if (m_shape.getDimension(1) == 1)  // Skalarprodukt berechnen
+          if (m_shape.getDimension(1) == 1 && rhs.m_shape.getDimension(2) == 1)  // Skalarprodukt berechnen
           {
             BasicPtr val = Zero::getZero();
             for (size_t i=0; i<getNumEl(); ++i)
-- 
2.43.0


From b3a40cbcd4fef4fa854076509f40ffdd9de55a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:27 +0000
Subject: [PATCH 049/126] fix: symbols compare like any other expression in
 Python

---
 symbolics/wrapper/CSymbol.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/symbolics/wrapper/CSymbol.cpp b/symbolics/wrapper/CSymbol.cpp
index 0988f66..256f2d5 100644
--- a/symbolics/wrapper/CSymbol.cpp
+++ b/symbolics/wrapper/CSymbol.cpp
@@ -12,6 +12,7 @@ static int CSymbol_init(CSymbolObject *self, PyObject *args, PyObject *kwds);
 static void CSymbol_del(CSymbolObject *self);
 
 static long CSymbol_hash(CSymbolObject *self);
+static PyObject* CSymbol_cmp(PyObject *self, PyObject *other, int op);
 
 // Dokumentation
 static char CSymbol_doc[] = 
@@ -42,7 +43,7 @@ PyTypeObject Symbolics::Python::CSymbolObjectType = {
     CSymbol_doc,                /* tp_doc            */
     0,                            /* tp_traverse       */
     0,                            /* tp_clear          */
-    0,                            /* tp_richcompare    */
+    CSymbol_cmp,                  /* tp_richcompare    */
     0,                            /* tp_weaklistoffset */
     0,                            /* tp_iter           */
     0,                            /* tp_iternext       */
@@ -134,3 +135,16 @@ static long CSymbol_hash(CSymbolObject *self)
 }
 /*****************************************************************************/
 
+// Ein eigener Hash verhindert das Erben von tp_richcompare
+/*****************************************************************************/
+static PyObject* CSymbol_cmp(PyObject *self, PyObject *other, int op)
+/*****************************************************************************/
+{
+    if (!PyObject_TypeCheck(other, &CBasicObjectType) && !PyLong_Check(other) && !PyFloat_Check(other))
+    {
+        Py_INCREF(Py_NotImplemented);
+        return Py_NotImplemented;
+    }
+    return CBasicObjectType.tp_richcompare(self, other, op);
+}
+/*****************************************************************************/
-- 
2.43.0


From f1b8b1d13aff8a8ce624edb4d4473391b16c0122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:22 +0000
Subject: [PATCH 050/126] fix: a variable whose initial value is refused is not
 registered

---
 symbolics/graph/EquationSystem.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/symbolics/graph/EquationSystem.cpp b/symbolics/graph/EquationSystem.cpp
index a1e230d..e1ce70b 100644
--- a/symbolics/graph/EquationSystem.cpp
+++ b/symbolics/graph/EquationSystem.cpp
@@ -46,25 +46,25 @@ BasicPtr EquationSystem::addSymbol_Internal( SymbolPtr const& s,
   StringSymbolMap::iterator ii = m_SymbolMap.find(s->getName());
   if (ii != m_SymbolMap.end())
     return ii->second;
-  // add
-  m_SymbolMap[s->getName()] = s;
-
+  // check the initial value first: a refused symbol must not be registered
+  BasicPtr init;
   if (initalValue == NULL)
   {
-    m_symbolsvaluemap[s] = Zero::getExactZero(s->getShape());
+    init = Zero::getExactZero(s->getShape());
   }
   else
   {
     if (s->getShape() != initalValue->getShape())
       throw ShapeError("Could not use Initvalue " + initalValue->toString() + " for Symbol " + s->toString() + "!");
-    BasicPtr init = BasicPtr(initalValue->simplify());
+    init = BasicPtr(initalValue->simplify());
     InitValueScanner sc;
     init->scanExp(sc);
     if (sc.variable)
       throw InitalValueError("Initvalue is not constant: " + init->toString() + "!");
-    m_symbolsvaluemap[s] = init;
   }
-
+  // add
+  m_SymbolMap[s->getName()] = s;
+  m_symbolsvaluemap[s] = init;
   m_symbolscommentmap[s] = comment;
 
   switch( s->getKind())
-- 
2.43.0


From 4122427e657478c9a7f4b8c708c71f1872822d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:28 +0000
Subject: [PATCH 051/126] fix: a refused equation leaves the equation system
 unchanged

---
 symbolics/Symbol.cpp                     |  52 ++--
 symbolics/graph/Equation.cpp             |  22 +-
 symbolics/graph/EquationSystem.cpp       | 329 +++++++++++------------
 symbolics/graph/include/Equation.h       |   3 +
 symbolics/graph/include/EquationSystem.h |  18 +-
 symbolics/include/Symbol.h               |   1 +
 6 files changed, 225 insertions(+), 200 deletions(-)

diff --git a/symbolics/Symbol.cpp b/symbolics/Symbol.cpp
index d3b12f6..72a2266 100644
--- a/symbolics/Symbol.cpp
+++ b/symbolics/Symbol.cpp
@@ -59,6 +59,13 @@ Basic(Type_Symbol), m_name(name), m_kind(category)
 Symbol::~Symbol()
 /*****************************************************************************/
 {
+  // a symbol and its derivative know each other
+  Symbol *state = static_cast<Symbol*>(getUserData(ID_UD_STATE));
+  if (state != NULL)
+    state->setUserData(NULL,ID_UD_STATEDERIVATIVE);
+  Symbol *ders = static_cast<Symbol*>(getUserData(ID_UD_STATEDERIVATIVE));
+  if (ders != NULL)
+    ders->setUserData(NULL,ID_UD_STATE);
   if (m_state)
     free (m_state);
 #ifdef _DEBUG
@@ -114,6 +121,7 @@ void Symbol::setState()
   for (size_t i=0;i<m_shape.getNumEl();i++)
     m_state[i] = STATE | m_state[i];
   m_statekind = ALL;
+  updateDerivative();
 }
 /*****************************************************************************/
 
@@ -133,10 +141,13 @@ void Symbol::setState(size_t dim1, size_t dim2)
   }
   size_t indx = getIndex(dim1,dim2);
   m_state[indx] = STATE | m_state[indx];
-  for (size_t i=1;i<m_shape.getNumEl();i++)
+  bool all=true;
+  for (size_t i=0;i<m_shape.getNumEl();i++)
     if (!(m_state[i] & STATE))
-      return;
-  m_statekind = ALL;
+      all = false;
+  if (all)
+    m_statekind = ALL;
+  updateDerivative();
 }
 /*****************************************************************************/
 
@@ -347,23 +358,26 @@ Symbol* Symbol::getDerivative()
     s = new Symbol("$DER" + getName(),getShape());
     s->setUserData(static_cast<void*>(this),ID_UD_STATE);
     setUserData(static_cast<void*>(s),ID_UD_STATEDERIVATIVE);
-    if (m_statekind == ALL)
-    {
-      if (m_state[0] & STATE)
-        s->m_state[0] = DER_STATE;
-    }
-    else
-    {
-      s->m_statekind = SEVERAL;
-      for (size_t i=0;i<m_shape.getNrDimensions();i++)
-      {
-        if (m_state[i] & STATE)
-          s->m_state[i] = s->m_state[i] | DER_STATE;
-        else
-          s->m_state[i] = NO_STATE;
-      }
-    }
+    updateDerivative();
   }
   return s;
 }
 /*****************************************************************************/
+
+/*****************************************************************************/
+/* the derivative is the derivative of a state where the symbol is a state */
+void Symbol::updateDerivative()
+/*****************************************************************************/
+{
+  Symbol *s = static_cast<Symbol*>(getUserData(ID_UD_STATEDERIVATIVE));
+  if (s == NULL)
+    return;
+  for (size_t i=m_shape.getNumEl();i>0;i--)
+  {
+    size_t state = (m_statekind == ALL) ? m_state[0] : m_state[i-1];
+    size_t other = ((s->m_statekind == ALL) ? s->m_state[0] : s->m_state[i-1]) & ~static_cast<size_t>(DER_STATE);
+    s->m_state[i-1] = other | ((state & STATE) ? DER_STATE : NO_STATE);
+  }
+  s->m_statekind = m_statekind;
+}
+/*****************************************************************************/
diff --git a/symbolics/graph/Equation.cpp b/symbolics/graph/Equation.cpp
index c237dc0..3b4c8f3 100644
--- a/symbolics/graph/Equation.cpp
+++ b/symbolics/graph/Equation.cpp
@@ -346,6 +346,17 @@ std::string Equation::toString()
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+bool Equation::isElementOfSymbol(BasicPtr const &p)
+/*****************************************************************************/
+{
+  BasicPtr arg = p->getArg(0);
+  if (arg->getType() == Type_Der)
+    arg = arg->getArg(0);
+  return arg->getType() == Type_Symbol;
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 bool Equation::DerivativeScanner::process_Arg(BasicPtr const &p, bool &stop)
 /*****************************************************************************/
@@ -365,8 +376,9 @@ bool Equation::DerivativeScanner::process_Arg(BasicPtr const &p, bool &stop)
   */
   else if (p->getType() == Type_Element)
   {
-    if (inelement)
-      throw InternalError("Error: element(element(exp)) is not supported!");
+    // element of another expression: which elements of its symbols it needs is not known
+    if (inelement || !isElementOfSymbol(p))
+      return true;
     const Element *e= Util::getAsConstPtr<Element>(p);
     dim1 = e->getRow();
     dim2 = e->getCol();
@@ -415,6 +427,7 @@ bool Equation::DerivativeScanner::process_Arg(BasicPtr const &p, bool &stop)
       if (ii != atoms.end())
       {
         ii->second.counter++;
+        ii->second.kind = ALL;
       }
       else
       {
@@ -443,8 +456,9 @@ bool Equation::SymbolScanner::process_Arg(BasicPtr const &p, bool &stop)
   }
   else if (p->getType() == Type_Element)
   {
-    if (inelement)
-      throw InternalError("Error: element(element(exp)) is not supported!");
+    // element of another expression: which elements of its symbols it needs is not known
+    if (inelement || !isElementOfSymbol(p))
+      return true;
     const Element *e= Util::getAsConstPtr<Element>(p);
     dim1 = e->getRow();
     dim2 = e->getCol();
diff --git a/symbolics/graph/EquationSystem.cpp b/symbolics/graph/EquationSystem.cpp
index e1ce70b..c0269f3 100644
--- a/symbolics/graph/EquationSystem.cpp
+++ b/symbolics/graph/EquationSystem.cpp
@@ -136,15 +136,24 @@ BasicPtr EquationSystem::addSymbol_Internal( SymbolPtr const& s,
 void EquationSystem::addEquation(BasicPtr const& solveFor,
   BasicPtr const& exp, bool implicit)
 /*****************************************************************************/
+{
+  PreparedEquation eqn;
+  prepareEquation(eqn,solveFor,exp,implicit);
+  commitEquation(eqn);
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+/* everything that can be refused is checked here, nothing is changed yet */
+void EquationSystem::prepareEquation(PreparedEquation &eqn, BasicPtr const& solveFor,
+  BasicPtr const& exp, bool implicit)
+/*****************************************************************************/
 {
   BasicPtr simpleexp = exp->simplify();
 
-  // wenn der(x)=... dann x wird zu State und auch stateder hinzufuegen
-  SymbolPtrElemMap symbols;
-  getSymbolOrDer(symbols,solveFor);
+  getSymbolOrDer(eqn.symbols,eqn.scanner.states,solveFor);
   // get all other derivatives
-  DerivativeScanner scanner;
-  simpleexp->scanExp(scanner);
+  simpleexp->scanExp(eqn.scanner);
 
     // check shape
   if (!implicit)
@@ -169,23 +178,92 @@ void EquationSystem::addEquation(BasicPtr const& solveFor,
   }
 
   // Symbols of eqn
-  checkEquation(&scanner,simpleexp,BasicPtrVec(),implicit,symbols);
+  checkEquation(&eqn.scanner,simpleexp,BasicPtrVec(),implicit,eqn.symbols);
 
-  // add
-  EquationPtr eqn;
   if (implicit || (solveFor.get() == NULL))
-  {
-    eqn = new Equation(symbols,Zero::getZero(simpleexp->getShape()),simpleexp,implicit);
-  }
+    eqn.lhs.push_back(Zero::getZero(simpleexp->getShape()));
   else
-    eqn = new Equation(symbols,solveFor,simpleexp,implicit);
+    eqn.lhs.push_back(solveFor);
+  eqn.rhs.push_back(simpleexp);
+  eqn.implicit = implicit;
+}
+/*****************************************************************************/
 
-  // add
-  assignEqnstoSymbols(symbols,eqn);
+/*****************************************************************************/
+void EquationSystem::commitEquation(PreparedEquation &p)
+/*****************************************************************************/
+{
+  // wenn der(x)=... dann x wird zu State und auch stateder hinzufuegen
+  registerStates(p.scanner.states);
+  // balanced ?
+  if (p.symbols.size() == 0)
+    m_balanced = false;
+  EquationPtr eqn = new Equation(p.symbols,p.lhs,p.rhs,p.implicit);
+  assignEqnstoSymbols(p.symbols,eqn);
   m_equations.insert(eqn);
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+void EquationSystem::registerStates(SymbolPtrElemMap &states)
+/*****************************************************************************/
+{
+  for (SymbolPtrElemMap::iterator ii=states.begin();ii!=states.end();ii++)
+  {
+    SymbolPtr s = ii->first;
+    SymbolPtr ders = s->getDerivative();
+    if (ii->second.kind == ALL)
+    {
+      s->setState();
+      addSymbol_Internal(ders, NULL, "");
+      m_states[s] = SymbolElement();
+      m_derstates[ders] = SymbolElement();
+      m_variables.erase(s);
+      continue;
+    }
+    for (SizeTPairSet::iterator ie=ii->second.elements.begin();ie!=ii->second.elements.end();ie++)
+    {
+      s->setState(ie->first,ie->second);
+      addSymbol_Internal(ders, NULL, "");
+      SymbolPtrElemMap::iterator is = m_states.find(s);
+      if (is == m_states.end())
+      {
+        m_states[s] = SymbolElement(ie->first,ie->second);
+        m_derstates[ders] = SymbolElement(ie->first,ie->second);
+      }
+      else if (is->second.kind != ALL)
+      {
+        is->second.elements.insert(*ie);
+        m_derstates[ders].elements.insert(*ie);
+      }
+      SymbolPtrElemMap::iterator iv = m_variables.find(s);
+      if (iv != m_variables.end())
+      {
+        if (iv->second.kind == ALL)
+        {
+          size_t dim1 = s->getShape().getDimension(1);
+          size_t dim2 = s->getShape().getDimension(2);
+          for(size_t i=0;i<dim1;++i)
+            for(size_t j=0;j<dim2;++j)
+              iv->second.elements.insert(SizeTPair(i,j));
+          iv->second.kind = SEVERAL;
+        }
+        iv->second.elements.erase(*ie);
+        if (iv->second.elements.size() == 0)
+          m_variables.erase(iv);
+      }
+    }
+    // all elements are states: the variable as a whole is one
+    if (s->stateKind() == ALL)
+    {
+      m_states[s] = SymbolElement();
+      m_derstates[ders] = SymbolElement();
+      m_variables.erase(s);
+    }
+  }
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 void EquationSystem::assignEqnstoSymbols(SymbolPtrElemMap &symbols, EquationPtr eqn)
 /*****************************************************************************/
@@ -230,52 +308,6 @@ void EquationSystem::checkEquation(DerivativeScanner *scanner,
 {
   // Symbols of eqn
   SymbolPtrElemMap &atoms = scanner->atoms;
-  // add StateDerivative
-  for (SymbolPtrElemMap::iterator ii=scanner->states.begin();ii!=scanner->states.end();ii++)
-  {
-    Symbol *s = const_cast<Symbol*>(Util::getAsConstPtr<Symbol>(ii->first));
-    SymbolPtr sp(s);
-    SymbolPtr ders = ii->first->getDerivative();
-    SymbolPtrElemMap::iterator is = m_states.find(ii->first);
-    if (is == m_states.end())
-    {
-      m_states[ii->first] = ii->second;
-      addSymbol_Internal(ders, NULL, "");
-      m_derstates[ders] = ii->second;
-      if (ii->second.kind == ALL)
-        m_variables.erase(s);
-      else
-      {
-        SymbolPtrElemMap::iterator iv = m_variables.find(ii->first);
-        if (iv != m_variables.end())
-        {
-          for (SizeTPairSet::iterator ie=ii->second.elements.begin();ie!=ii->second.elements.end();ie++)
-          {
-            iv->second.elements.erase(SizeTPair(ie->first,ie->second));
-          }
-          if (iv->second.elements.size() == 0)
-            m_variables.erase(iv);
-        }
-      }
-    }
-    else
-    {
-      if (is->second.kind != ALL)
-      {
-        if (ii->second.kind != ALL)
-        {
-          SymbolPtrElemMap::iterator iv = m_variables.find(ii->first);
-          for (SizeTPairSet::iterator ie=ii->second.elements.begin();ie!=ii->second.elements.end();ie++)
-          {
-            is->second.elements.insert(SizeTPair(ie->first,ie->second));
-            m_derstates[ders].elements.insert(SizeTPair(ie->first,ie->second));
-            if (iv != m_variables.end())
-              iv->second.elements.erase(SizeTPair(ie->first,ie->second));
-          }
-        }
-      }
-    }
-  }
   // symbol in exp dann Fehler
   if (!implicit)
   {
@@ -351,17 +383,22 @@ void EquationSystem::checkEquation(DerivativeScanner *scanner,
     }
   }
   // symbol nicht angelegt dann Fehler
+  for (SymbolPtrElemMap::iterator ii = symbols.begin();ii!=symbols.end();++ii)
+    checkKnown(ii->first);
   for (SymbolPtrElemMap::iterator ii = atoms.begin();ii!=atoms.end();++ii)
-  {
-    StringSymbolMap::iterator is = m_SymbolMap.find(ii->first->getName());
-    if (is == m_SymbolMap.end())
-      throw VarUnknownError(ii->first->getName());
-  }
-  // balanced ?
-  if (symbols.size() == 0)
-    m_balanced = false;
-
+    checkKnown(ii->first);
+}
+/*****************************************************************************/
 
+/*****************************************************************************/
+void EquationSystem::checkKnown(SymbolPtr const& s)
+/*****************************************************************************/
+{
+  // the derivative of a variable is known if the variable is
+  Symbol *state = static_cast<Symbol*>(s->getUserData(ID_UD_STATE));
+  std::string name = (state != NULL) ? state->getName() : s->getName();
+  if (m_SymbolMap.find(name) == m_SymbolMap.end())
+    throw VarUnknownError(name);
 }
 /*****************************************************************************/
 
@@ -376,44 +413,40 @@ void EquationSystem::addEquation( BasicPtrVec const& solveFor,
     std::string msg = "Symbolics::  addExpression: size of solveFor (" + str(solveFor.size()) + ") and exp (" + str(exp.size()) + ") not equal!";
     throw InternalError(msg);
   }
-  // if not implicit us addEquation
+  // if not implicit use addEquation
   if (!implicit)
   {
+    // all or none of them
+    std::vector<PreparedEquation> eqns(exp.size());
+    SymbolPtrElemMap all, states;
+    for (size_t i=0;i<exp.size();++i)
+    {
+      getSymbolOrDer(all,states,solveFor[i]);
+      prepareEquation(eqns[i],solveFor[i],exp[i],implicit);
+    }
     for (size_t i=0;i<exp.size();++i)
-      addEquation(solveFor[i],exp[i],implicit);
+      commitEquation(eqns[i]);
     return;
   }
 
+  PreparedEquation eqn;
   // Versuchen lhs in Symbols zu casten
-  SymbolPtrElemMap symbols;
   for(size_t j=0;j<solveFor.size();++j)
   {
-    // wenn der(x)=... dann x wird zu State und auch stateder hinzufuegen
-    getSymbolOrDer(symbols, solveFor[j]);
+    getSymbolOrDer(eqn.symbols,eqn.scanner.states,solveFor[j]);
   }
 
   // get all other derivatives
-  DerivativeScanner scanner;
-  BasicPtrVec simpleexp;
-  simpleexp.reserve(exp.size());
   for(size_t j=0;j<exp.size();++j)
   {
-    simpleexp.push_back(exp[j]->simplify());
-    simpleexp[j]->scanExp(scanner);
+    eqn.rhs.push_back(exp[j]->simplify());
+    eqn.rhs[j]->scanExp(eqn.scanner);
+    eqn.lhs.push_back(Zero::getZero(solveFor[j]->getShape()));
   }
   // Symbols of eqn
-  checkEquation(&scanner,BasicPtr(),exp,implicit,symbols);
-
-  // add
-  BasicPtrVec lhs;
-  for(size_t j=0;j<solveFor.size();++j)
-  {
-    lhs.push_back(Zero::getZero(solveFor[j]->getShape()));
-  }
-  // add
-  EquationPtr eqn = new Equation(symbols,lhs,simpleexp,implicit);
-  assignEqnstoSymbols(symbols,eqn);
-  m_equations.insert(eqn);
+  checkEquation(&eqn.scanner,BasicPtr(),exp,implicit,eqn.symbols);
+  eqn.implicit = implicit;
+  commitEquation(eqn);
 }
 /*****************************************************************************/
 
@@ -828,7 +861,7 @@ EquationPtr EquationSystem::combineEquations(EquationPtrVec equations)
 /*****************************************************************************/
 
 /*****************************************************************************/
-void EquationSystem::getSymbolOrDer( SymbolPtrElemMap & res,
+void EquationSystem::getSymbolOrDer( SymbolPtrElemMap & res, SymbolPtrElemMap & states,
   Symbolics::BasicPtr const& exp, bool inMatrix, bool inDer,
   bool inElement, size_t dim1, size_t dim2)
 /*****************************************************************************/
@@ -846,13 +879,13 @@ void EquationSystem::getSymbolOrDer( SymbolPtrElemMap & res,
     if (inElement)
     {
       const Matrix *mat = Util::getAsConstPtr<Matrix>(exp);
-      getSymbolOrDer(res,mat->get(dim1,dim2),false,inDer);
+      getSymbolOrDer(res,states,mat->get(dim1,dim2),false,inDer);
     }
     else
     {
       size_t elements = exp->getArgsSize();
       for (size_t i=0;i<elements;i++)
-        getSymbolOrDer(res,exp->getArg(i),true,inDer);
+        getSymbolOrDer(res,states,exp->getArg(i),true,inDer);
     }
     return;
   }
@@ -861,7 +894,7 @@ void EquationSystem::getSymbolOrDer( SymbolPtrElemMap & res,
   {
     if (inDer)
       throw InternalError("der(der(x)) is not supported!");
-    getSymbolOrDer(res,exp->getArg(0),inMatrix,true,inElement,dim1,dim2);
+    getSymbolOrDer(res,states,exp->getArg(0),inMatrix,true,inElement,dim1,dim2);
     return;
   }
   /* a[?,?] = exp */
@@ -870,7 +903,7 @@ void EquationSystem::getSymbolOrDer( SymbolPtrElemMap & res,
     if (inElement)
       throw InternalError("Element(Element(..)) is not supported!");
     const Element *e = Util::getAsConstPtr< Element>(exp);
-    getSymbolOrDer(res,e->getArg(0),inMatrix,inDer,true,e->getRow(),e->getCol());
+    getSymbolOrDer(res,states,e->getArg(0),inMatrix,inDer,true,e->getRow(),e->getCol());
     return;
   }
   /* a = exp */
@@ -881,58 +914,9 @@ void EquationSystem::getSymbolOrDer( SymbolPtrElemMap & res,
     SymbolPtr sp( s );
     if (inDer)
     {
-      if (inElement)
-      {
-        s->setState(dim1,dim2);
-        SymbolPtr ders = s->getDerivative();
-        addSymbol_Internal(ders, NULL, "");
-        SymbolPtrElemMap::iterator ii = m_states.find(sp);
-        if (ii == m_states.end())
-        {
-          m_states[sp] = SymbolElement(dim1,dim2);
-          m_derstates[ders] = SymbolElement(dim1,dim2);
-        }
-        else
-        {
-          SizeTPair pair(dim1,dim2);
-          ii->second.elements.insert(pair);
-          SymbolPtrElemMap::iterator id = m_derstates.find(ders);
-          if (id!=m_derstates.end())
-            id->second.elements.insert(pair);
-          else
-            m_derstates[ders] = ii->second;
-        }
-        SymbolPtrElemMap::iterator iv = m_variables.find(sp);
-        if (iv != m_variables.end())
-        {
-          if (iv->second.kind == ALL)
-          {
-            size_t dim1 = iv->first->getShape().getDimension(1);
-            size_t dim2 = iv->first->getShape().getDimension(2);
-            for(size_t i=0;i<dim1;++i)
-            {
-              for(size_t j=0;j<dim2;++j)
-              {
-                iv->second.elements.insert(SizeTPair(i,j));
-              }
-            }
-            iv->second.kind = SEVERAL;
-          }
-          iv->second.elements.erase(SizeTPair(dim1,dim2));
-        }
-        sp = ders;
-      }
-      else
-      {
-        s->setState();
-        SymbolPtr ders = s->getDerivative();
-        addSymbol_Internal(ders, NULL, "");
-        m_states[sp] = SymbolElement();
-        m_derstates[ders] = SymbolElement();
-        SymbolPtrElemMap::iterator iv = m_variables.find(sp);
-        m_variables.erase(sp);
-        sp = ders;
-      }
+      // registered as state with the equation
+      DerivativeScanner::addState(states,sp,inElement,dim1,dim2);
+      sp = s->getDerivative();
     }
     SymbolPtrElemMap::iterator ik = res.find(sp);
     if (ik == res.end())
@@ -1152,6 +1136,9 @@ bool EquationSystem::DerivativeScanner::process_Arg(BasicPtr const &p, bool &sto
   else if (p->getType() == Type_Element)
   {
     const Element *econst = Util::getAsConstPtr<Element>(p);
+    // element of another expression: which elements of its symbols it needs is not known
+    if (inelement || !Equation::isElementOfSymbol(p))
+      return true;
     inelement = true;
     dim1 = econst->getRow();
     dim2 = econst->getCol();
@@ -1180,34 +1167,24 @@ void EquationSystem::DerivativeScanner::process_derArg(BasicPtr const &p)
 {
   const Symbol *sconst = Util::getAsConstPtr<Symbol>(p);
   Symbol *s = const_cast<Symbol*>(sconst);
-  if (inelement)
-  {
-    s->setState(dim1,dim2);
-    SymbolPtr sd(s->getDerivative());
-    addAtom(sd);
-    SymbolPtrElemMap::iterator ii = states.find(s);
-    if (ii != states.end())
-    {
-      if (ii->second.kind != ALL)
-        ii->second.elements.insert(SizeTPair(dim1,dim2));
-    }
-    else
-      states[s] = SymbolElement(dim1,dim2);
-  }
-  else
-  {
-    s->setState();
-    SymbolPtr sd(s->getDerivative());
-    addAtom(sd);
-    SymbolPtrElemMap::iterator ii = states.find(s);
-    if (ii != states.end())
-    {
-      if (ii->second.kind != ALL)
-        ii->second.kind = ALL;
-    }
-    else
-      states[s] = SymbolElement();
-  }
+  SymbolPtr sd(s->getDerivative());
+  addAtom(sd);
+  addState(states,SymbolPtr(s),inelement,dim1,dim2);
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+void EquationSystem::DerivativeScanner::addState(SymbolPtrElemMap &states, SymbolPtr const& s,
+  bool inelement, size_t dim1, size_t dim2)
+/*****************************************************************************/
+{
+  SymbolPtrElemMap::iterator ii = states.find(s);
+  if (ii == states.end())
+    states[s] = inelement ? SymbolElement(dim1,dim2) : SymbolElement();
+  else if (!inelement)
+    ii->second.kind = ALL;
+  else if (ii->second.kind != ALL)
+    ii->second.elements.insert(SizeTPair(dim1,dim2));
 }
 /*****************************************************************************/
 
diff --git a/symbolics/graph/include/Equation.h b/symbolics/graph/include/Equation.h
index 605ab12..c984fea 100644
--- a/symbolics/graph/include/Equation.h
+++ b/symbolics/graph/include/Equation.h
@@ -69,6 +69,9 @@ namespace Symbolics
       // Destruktor
       virtual ~Equation();
 
+      // element of a symbol or of the derivative of a symbol
+      static bool isElementOfSymbol(BasicPtr const &p);
+
       // returns the symbols
       inline  SymbolPtrElemSizeTMap& getSymbols()  {return m_symbols; };
       inline  SymbolPtrElemMap& getSolveFor()  {return m_solveFor; };
diff --git a/symbolics/graph/include/EquationSystem.h b/symbolics/graph/include/EquationSystem.h
index 10b19fc..eb30d57 100644
--- a/symbolics/graph/include/EquationSystem.h
+++ b/symbolics/graph/include/EquationSystem.h
@@ -186,7 +186,7 @@ namespace Symbolics
 
       BasicPtr addSymbol_Internal( SymbolPtr const& s, Basic *initialValue, std::string comment);
 
-      void getSymbolOrDer( SymbolPtrElemMap &res, BasicPtr const& exp, bool inMatrix=false,
+      void getSymbolOrDer( SymbolPtrElemMap &res, SymbolPtrElemMap &states, BasicPtr const& exp, bool inMatrix=false,
         bool inDer=false, bool inElement=false, size_t dim1=0, size_t dim2=0);
 
       void assignEqnstoSymbols(SymbolPtrElemMap &symbols, EquationPtr eqn);
@@ -213,6 +213,7 @@ namespace Symbolics
 
           SymbolPtrElemMap atoms;
           SymbolPtrElemMap states;
+          static void addState(SymbolPtrElemMap &states, SymbolPtr const& s, bool inelement, size_t dim1, size_t dim2);
 
       private:
           bool inder;
@@ -237,6 +238,21 @@ namespace Symbolics
 
       void checkEquation(DerivativeScanner *scanner,
         BasicPtr const& exp, BasicPtrVec const& expvec, bool implicit, SymbolPtrElemMap &symbols);
+      void checkKnown(SymbolPtr const& s);
+
+      // an equation which has been checked, but not added yet
+      struct PreparedEquation
+      {
+        PreparedEquation(): implicit(false) {;}
+        SymbolPtrElemMap symbols;
+        DerivativeScanner scanner;
+        BasicPtrVec lhs;
+        BasicPtrVec rhs;
+        bool implicit;
+      };
+      void prepareEquation(PreparedEquation &eqn, BasicPtr const& solveFor, BasicPtr const& exp, bool implicit);
+      void commitEquation(PreparedEquation &p);
+      void registerStates(SymbolPtrElemMap &states);
 
     private:
       // Boost Intrusive Ptr
diff --git a/symbolics/include/Symbol.h b/symbolics/include/Symbol.h
index d1f59a7..1724184 100644
--- a/symbolics/include/Symbol.h
+++ b/symbolics/include/Symbol.h
@@ -107,6 +107,7 @@ namespace Symbolics
         // State
         SymbolElementKind m_statekind;
         size_t *m_state;
+        void updateDerivative();
         inline size_t getIndex(size_t row, size_t col) const { return row*m_shape.getDimension(2) + col; };
 
         // user Data
-- 
2.43.0


From 107ced4bd3479a320dd3e3deabe66c42b30367e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:33 +0000
Subject: [PATCH 052/126] fix: a variable cannot be defined as a whole when its
 elements are

---
 symbolics/graph/EquationSystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/symbolics/graph/EquationSystem.cpp b/symbolics/graph/EquationSystem.cpp
index c0269f3..2e78a54 100644
--- a/symbolics/graph/EquationSystem.cpp
+++ b/symbolics/graph/EquationSystem.cpp
@@ -365,6 +365,8 @@ void EquationSystem::checkEquation(DerivativeScanner *scanner,
         }
         throw SymbolAlreadySolvedInError(msg);
       }
+      else if (is->second.kind == ALL)
+        throw SymbolAlreadySolvedInError("elements of " + name + " are already solved");
       else
       {
         for (SizeTPairSet::iterator ie=is->second.elements.begin();ie!=is->second.elements.end();ie++)
@@ -479,6 +481,8 @@ void EquationSystem::addEquation( EquationPtr eqn)
         }
         throw SymbolAlreadySolvedInError(msg);
       }
+      else if (is->second.kind == ALL)
+        throw SymbolAlreadySolvedInError("elements of " + name + " are already solved");
       else
       {
         for (SizeTPairSet::iterator ie=is->second.elements.begin();ie!=is->second.elements.end();ie++)
-- 
2.43.0


From da7e08f43c2d71a91b557c1b186cb89b4bafceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:11 +0000
Subject: [PATCH 053/126] fix: optimising an alias of a state or input does not
 fail

---
 symbolics/graph/PastOptimisation.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/symbolics/graph/PastOptimisation.cpp b/symbolics/graph/PastOptimisation.cpp
index 30987c0..fecd7c6 100644
--- a/symbolics/graph/PastOptimisation.cpp
+++ b/symbolics/graph/PastOptimisation.cpp
@@ -184,8 +184,8 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
         SymbolNodeElement *elem = static_cast<SymbolNodeElement*>(as->getUserData(ID_UD_NODE));
         if (elem == NULL)
         {
-          //return;
-          throw InternalError("Symbol: " + as->getName() + " has no equation!");
+          // given data (time, input, state): nothing to merge
+          return;
         }
         if (elem->kind != ALL)
           return;
@@ -214,8 +214,8 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
           SymbolNodeElement *elem = static_cast<SymbolNodeElement*>(as->getUserData(ID_UD_NODE));
           if (elem == NULL)
           {
-            //return;
-            throw InternalError("Symbol: " + as->getName() + " has no equation!");
+            // given data (time, input, state): nothing to merge
+            return;
           }
           if (elem->kind != ALL)
             return;
-- 
2.43.0


From 1b694727f29ecfdb7ee64ffff5519ce941388499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 054/126] fix: a needed element without equation is reported

---
 symbolics/graph/Node.cpp | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/symbolics/graph/Node.cpp b/symbolics/graph/Node.cpp
index b5d101b..3d1fc91 100644
--- a/symbolics/graph/Node.cpp
+++ b/symbolics/graph/Node.cpp
@@ -229,29 +229,31 @@ void Node::findParentsNodes()
     }
     else
     {
+      // every element needed must be given or defined
+      std::vector<SizeTPair> needed;
       if (jj->second.kind == ALL)
       {
-        for (SizeTPairNodePtrMap::iterator ie = elem->elements.begin();ie!=elem->elements.end();ie++)
-        {
-          if (jj->first->stateKind() == SEVERAL)
-            if (jj->first->is_State(ie->first.first,ie->first.second) & STATE)
-              continue;
-          addParent(ie->second);
-          ie->second->addChild(NodePtr(this));
-        }
+        size_t dim1=jj->first->getShape().getDimension(1);
+        size_t dim2=jj->first->getShape().getDimension(2);
+        for(size_t i=0;i<dim1;i++)
+          for(size_t j=0;j<dim2;j++)
+            needed.push_back(SizeTPair(i,j));
       }
       else
       {
-        for (SizeTPairNodePtrMap::iterator ie = elem->elements.begin();ie!=elem->elements.end();ie++)
-        {
-          if (jj->first->stateKind() == SEVERAL)
-            if (jj->first->is_State(ie->first.first,ie->first.second) & STATE)
-              continue;
-          if (jj->second.elements.find(ie->first) == jj->second.elements.end())
+        for (SizeTPairSizeTMap::iterator ie = jj->second.elements.begin();ie!=jj->second.elements.end();ie++)
+          needed.push_back(ie->first);
+      }
+      for (size_t n=0;n<needed.size();n++)
+      {
+        if (jj->first->stateKind() == SEVERAL)
+          if (jj->first->is_State(needed[n].first,needed[n].second) & STATE)
             continue;
-          addParent(ie->second);
-          ie->second->addChild(NodePtr(this));
-        }
+        SizeTPairNodePtrMap::iterator ie = elem->elements.find(needed[n]);
+        if (ie == elem->elements.end())
+          throw InternalError("Symbol: " + jj->first->getName() + "[" + str(needed[n].first) + "," + str(needed[n].second) + "] has no equation!");
+        addParent(ie->second);
+        ie->second->addChild(NodePtr(this));
       }
     }
   }
-- 
2.43.0


From d3976bf1ae65b499422a46040e5ccde5b529391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 055/126] fix: explicit equations depending on each other are
 refused instead of being ordered arbitrarily

---
 symbolics/graph/MatchedSystem.cpp       | 41 +++++++++++++++++++++++++
 symbolics/graph/include/MatchedSystem.h |  3 ++
 2 files changed, 44 insertions(+)

diff --git a/symbolics/graph/MatchedSystem.cpp b/symbolics/graph/MatchedSystem.cpp
index 7983fa5..1ae2f48 100644
--- a/symbolics/graph/MatchedSystem.cpp
+++ b/symbolics/graph/MatchedSystem.cpp
@@ -1,4 +1,5 @@
 #include "MatchedSystem.h"
+#include <map>
 #include "str.h"
 #include <iostream>
 #include <fstream>
@@ -39,11 +40,51 @@ double MatchedSystem::buildGraph()
   {
     m_nodes[i]->findParentsNodes();
   }
+  checkLoops();
   //return t2-t1;
   return Util::getTime()-t1;
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+/* assignments cannot be ordered if they depend on each other */
+void MatchedSystem::checkLoops()
+/*****************************************************************************/
+{
+  std::map<Node*,size_t> open;
+  NodeVec ready;
+  for (size_t i=0;i<m_nodes.size();++i)
+  {
+    size_t n = 0;
+    NodePtrSet const& parents = m_nodes[i]->getParents();
+    for (NodePtrSet::const_iterator ii=parents.begin();ii!=parents.end();++ii)
+      if ((*ii) != m_nodes[i])
+        n++;
+    open[m_nodes[i].get()] = n;
+    if (n == 0)
+      ready.push_back(m_nodes[i]);
+  }
+  size_t ordered = 0;
+  while (ready.size() > 0)
+  {
+    NodePtr p = ready.back();
+    ready.pop_back();
+    ordered++;
+    NodePtrSet const& childs = p->getChilds();
+    for (NodePtrSet::const_iterator ii=childs.begin();ii!=childs.end();++ii)
+      if (((*ii) != p) && (--open[(*ii).get()] == 0))
+        ready.push_back(*ii);
+  }
+  if (ordered == m_nodes.size())
+    return;
+  std::string names;
+  for (size_t i=0;i<m_nodes.size();++i)
+    if (open[m_nodes[i].get()] > 0)
+      names += " " + m_nodes[i]->getSolveFor().begin()->first->getName();
+  throw InternalError("Equations depend on each other:" + names);
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 void MatchedSystem::toGraphML( std::string file )
 /*****************************************************************************/
diff --git a/symbolics/graph/include/MatchedSystem.h b/symbolics/graph/include/MatchedSystem.h
index 3fbb7e3..c1e203c 100644
--- a/symbolics/graph/include/MatchedSystem.h
+++ b/symbolics/graph/include/MatchedSystem.h
@@ -35,6 +35,9 @@ namespace Symbolics
         private:
             SymbolPtr m_time;
 
+            // throws: InternalError
+            void checkLoops();
+
             class NodeSorter: public Node::Visitor
             {
             public:
-- 
2.43.0


From 44ceaf515636e3e72bd149b5f6804af11a189f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:12 +0000
Subject: [PATCH 056/126] fix: a list of variables to be solved for must
 consist of scalars

---
 symbolics/wrapper/CGraph.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/symbolics/wrapper/CGraph.cpp b/symbolics/wrapper/CGraph.cpp
index 3ded973..1696edd 100644
--- a/symbolics/wrapper/CGraph.cpp
+++ b/symbolics/wrapper/CGraph.cpp
@@ -382,9 +382,13 @@ static PyObject* CGraph_addEquation(CGraphObject *self, PyObject *args)
 			{
 				size_t size = PyList_Size(lhs_Object);
 				Matrix *mat = new Matrix( Shape( size ) );
-				for (size_t i=0; i<size; ++i)
-					mat->set(i, toBasic( PyList_GetItem(lhs_Object, i), self->m_graph) );
 				lhs = BasicPtr( mat );
+				for (size_t i=0; i<size; ++i)
+				{
+					BasicPtr var = toBasic( PyList_GetItem(lhs_Object, i), self->m_graph);
+					if (!var->is_Scalar()) throw ShapeError("a list of variables to be solved for must consist of scalars!");
+					mat->set(i, var);
+				}
 			}
 			else
 				// sonst ganz normal
-- 
2.43.0


From 3e550744e95ec41e6198510c2c634d45f43a90bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 057/126] fix: an alias of one of several variables defined
 together is not replaced by all of them

---
 symbolics/graph/PastOptimisation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/symbolics/graph/PastOptimisation.cpp b/symbolics/graph/PastOptimisation.cpp
index fecd7c6..3fc6c87 100644
--- a/symbolics/graph/PastOptimisation.cpp
+++ b/symbolics/graph/PastOptimisation.cpp
@@ -190,6 +190,9 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
         if (elem->kind != ALL)
           return;
         NodePtr ap = elem->node;
+        // only the definition of a single variable can be merged
+        if (ap->is_Implicit() || (ap->getRhsSize() != 1) || (ap->getLhs(0)->getType() != Type_Symbol))
+          return;
         if(ap->get_Category() < PARAMETER)
         {
           // set b = a.exp
@@ -220,6 +223,9 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
           if (elem->kind != ALL)
             return;
           NodePtr ap = elem->node;
+          // only the definition of a single variable can be merged
+          if (ap->is_Implicit() || (ap->getRhsSize() != 1) || (ap->getLhs(0)->getType() != Type_Symbol))
+            return;
           if(ap->get_Category() < PARAMETER)
           {
             // set b = a.exp
-- 
2.43.0


From 7ae25deec66156b98f99c83af6c9abc8849804c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 058/126] fix: equations that have to be solved together are
 implicit, all components they solve are kept

---
 symbolics/graph/EquationSystem.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/symbolics/graph/EquationSystem.cpp b/symbolics/graph/EquationSystem.cpp
index 2e78a54..310c700 100644
--- a/symbolics/graph/EquationSystem.cpp
+++ b/symbolics/graph/EquationSystem.cpp
@@ -820,7 +820,8 @@ EquationPtr EquationSystem::combineEquations(EquationPtrVec equations)
   SymbolPtrElemMap solveFor;
   BasicPtrVec lhs;
   BasicPtrVec rhs;
-  bool implizit=false;
+  // several equations have to be solved together
+  bool implizit=true;
   for (size_t i=0;i<equations.size();i++)
   {
     EquationPtrSet::iterator ii = m_equations.find(equations[i]);
@@ -838,10 +839,10 @@ EquationPtr EquationSystem::combineEquations(EquationPtrVec equations)
           throw InternalError("Symbol " + f->first->getName() + " is more than once solved in expression");
         else if(f->second.kind == SEVERAL)
         {
-          for (SizeTPairSet::iterator sa=f->second.elements.begin();sa!=f->second.elements.end();sa++)
+          for (SizeTPairSet::iterator sa=e->second.elements.begin();sa!=e->second.elements.end();sa++)
           {
             std::pair<SizeTPairSet::iterator,bool> ret;
-            ret = e->second.elements.insert(SizeTPair(sa->first,sa->second));
+            ret = f->second.elements.insert(SizeTPair(sa->first,sa->second));
             if (ret.second == false)
               throw InternalError("Symbol " + f->first->getName() + " is more than once solved in expression");
           }
-- 
2.43.0


From 6c2ce57b932fa8136c140bffa785320f719dc1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 059/126] fix: the ordering of equations follows all
 dependencies

---
 symbolics/graph/UnMatchedSystem.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/symbolics/graph/UnMatchedSystem.cpp b/symbolics/graph/UnMatchedSystem.cpp
index 918079c..37413cd 100644
--- a/symbolics/graph/UnMatchedSystem.cpp
+++ b/symbolics/graph/UnMatchedSystem.cpp
@@ -1183,7 +1183,6 @@ void UnMatchedSystem::strongConnect(size_t &i, MEquation* eqn,
             {
               if (eqn->lowlink > eq->number)
                 eqn->lowlink = eq->number;
-              break;
             }
           }
         }
-- 
2.43.0


From a2ba121d37b29147066a1716329242a8ba8a4f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 060/126] fix: a system with as many equations as unknowns
 missing is refused

---
 symbolics/graph/UnMatchedSystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/graph/UnMatchedSystem.cpp b/symbolics/graph/UnMatchedSystem.cpp
index 37413cd..ab2e457 100644
--- a/symbolics/graph/UnMatchedSystem.cpp
+++ b/symbolics/graph/UnMatchedSystem.cpp
@@ -518,8 +518,8 @@ double UnMatchedSystem::matchSystem()
   // check size
   if (m_equations.size() != (m_incidencematrixT.size() - m_states.size() - m_parameter.size()))
   {
-    toGraphML("IncidenceMatrix.graphml");
-    return -1;
+    throw InternalError("Number of equations (" + str(m_equations.size()) + ") is not equal to number of unknowns (" + 
+      str(m_incidencematrixT.size() - m_states.size() - m_parameter.size()) + ")!");
   }
   //
   if (debugmode)
-- 
2.43.0


From 4dc055d3b5f483beddc72095a69f30473dc0ecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 061/126] fix: equations of constants do not count as equations
 for the unknowns

---
 symbolics/graph/UnMatchedSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/graph/UnMatchedSystem.cpp b/symbolics/graph/UnMatchedSystem.cpp
index ab2e457..7999768 100644
--- a/symbolics/graph/UnMatchedSystem.cpp
+++ b/symbolics/graph/UnMatchedSystem.cpp
@@ -30,7 +30,7 @@ SystemHandler(eqsys,nodes)
     SymbolPtrElemMap& solveFor = e->getSolveFor();
     for (SymbolPtrElemMap::iterator j=solveFor.begin();j!=solveFor.end();j++)
     {
-      if (j->first->getKind() & PARAMETER)
+      if (j->first->getKind() & (PARAMETER | CONSTANT))
       {
         parameter = true;
       }
-- 
2.43.0


From b32fa9c9d0d9d3281deb0da0a9466ca7c80f2647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 062/126] fix: implicit equations and equations without a
 variable to solve for survive the scalar expansion

---
 symbolics/graph/EquationSystem.cpp | 38 ++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/symbolics/graph/EquationSystem.cpp b/symbolics/graph/EquationSystem.cpp
index 310c700..93023d3 100644
--- a/symbolics/graph/EquationSystem.cpp
+++ b/symbolics/graph/EquationSystem.cpp
@@ -601,9 +601,8 @@ EquationSystemPtr EquationSystem::makeScalar()
         rhs = rhs->iterateExp(repl);
         rhs = rhs->simplify();
 
-        if ((lhs->getType() != Type_Matrix) || ((rhs->getType() != Type_Matrix) &&  (rhs->getType() != Type_Zero) &&  (rhs->getType() != Type_Eye)))
+        if (rhs->is_Scalar())
         {
-          lhsscalar.push_back(lhs);
           rhsscalar.push_back(rhs);
         }
         else
@@ -614,12 +613,27 @@ EquationSystemPtr EquationSystem::makeScalar()
           {
             for(size_t j=0;j<dim2;++j)
             {
-              lhsscalar.push_back(Element::New(lhs,i,j));
               rhsscalar.push_back(Element::New(rhs,i,j));
             }
           }
         }
       }
+      // the components the equations are to be solved for
+      SymbolPtrElemMap &solvefor = (*e)->getSolveFor();
+      for (SymbolPtrElemMap::iterator s=solvefor.begin();s!=solvefor.end();s++)
+      {
+        size_t dim1 = s->first->getShape().getDimension(1);
+        size_t dim2 = s->first->getShape().getDimension(2);
+        for(size_t i=0;i<dim1;++i)
+        {
+          for(size_t j=0;j<dim2;++j)
+          {
+            if ((s->second.kind == SEVERAL) && (s->second.elements.find(SizeTPair(i,j)) == s->second.elements.end()))
+              continue;
+            lhsscalar.push_back(s->first->is_Scalar() ? BasicPtr(s->first) : Element::New(s->first,i,j));
+          }
+        }
+      }
       if (lhsscalar.size() > 0)
         eqsys->addEquation(lhsscalar,rhsscalar,(*e)->is_Implicit());
     }
@@ -642,6 +656,16 @@ EquationSystemPtr EquationSystem::makeScalar()
 
          std::string s2 = lhs->toString() + " = " + rhs->toString();
 
+        // no variable to solve for is known
+        if ((*e)->getSolveFor().size() == 0)
+        {
+          size_t dim1 = rhs->getShape().getDimension(1);
+          size_t dim2 = rhs->getShape().getDimension(2);
+          for(size_t i=0;i<dim1;++i)
+            for(size_t j=0;j<dim2;++j)
+              eqsys->addEquation(BasicPtr(),rhs->is_Scalar() ? rhs : Element::New(rhs,i,j),false);
+          continue;
+        }
 
         if ((lhs->getType() != Type_Matrix) || ((rhs->getType() != Type_Matrix) &&  (rhs->getType() != Type_Zero) &&  (rhs->getType() != Type_Eye)))
         {
@@ -657,7 +681,13 @@ EquationSystemPtr EquationSystem::makeScalar()
 			  eqsys->addEquation(lhs,rhs,false);
             }
             else
-              eqsys->addEquation(lhs,lhs-rhs,true);
+            {
+              size_t dim1 = lhs->getShape().getDimension(1);
+              size_t dim2 = lhs->getShape().getDimension(2);
+              for(size_t i=0;i<dim1;++i)
+                for(size_t j=0;j<dim2;++j)
+                  eqsys->addEquation(Element::New(lhs,i,j),Element::New(rhs,i,j),false);
+            }
           }
           continue;
         }
-- 
2.43.0


From 69a8dc4b41b4568f76bd417e423030ecff64b0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 063/126] fix: elements of expressions in coupled systems

---
 symbolics/graph/UnMatchedSystem.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/symbolics/graph/UnMatchedSystem.cpp b/symbolics/graph/UnMatchedSystem.cpp
index 7999768..63dc3da 100644
--- a/symbolics/graph/UnMatchedSystem.cpp
+++ b/symbolics/graph/UnMatchedSystem.cpp
@@ -205,8 +205,7 @@ bool UnMatchedSystem::SymbolScanner::process_Arg(BasicPtr const &p, bool &stop)
       }
       return false;
     }
-    else
-      throw InternalError("Element " + p->toString());
+    // element of another expression: all symbols of the expression
   }
   return true;
 }
-- 
2.43.0


From 39e39d0fa3c631aa5ee4cd9716f76eb806901a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 064/126] fix: printers keep the sign of the smallest integer
 in sums

---
 symbolics/printer/Printer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolics/printer/Printer.cpp b/symbolics/printer/Printer.cpp
index 04c70a8..d9f38a4 100644
--- a/symbolics/printer/Printer.cpp
+++ b/symbolics/printer/Printer.cpp
@@ -1,6 +1,7 @@
 #include "Printer.h"
 #include "str.h"
 #include <iostream>
+#include <limits>
 
 using namespace Symbolics;
 
@@ -475,7 +476,7 @@ std::string Printer::join( ConstBasicPtr const& arg,
 		case Type_Int:
 			{
 				const Int *i = Util::getAsConstPtr<Int>(a);
-				if (i->getValue() < 0)
+				if (i->getValue() < 0 && i->getValue() != std::numeric_limits<int>::min())
 					s += negSep + print( Int::New( -i->getValue() ) );
 				else
 					s += posSep + print( a );
-- 
2.43.0


From 6d89bb137e0fadb21df3e5ce9a46aa512bee4301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 065/126] fix: Fortran output of products with scalars between
 matrices and of matrix powers

---
 symbolics/printer/FortranPrinter.cpp | 30 ++++++++++++++++++----------
 symbolics/writer/FortranWriter.cpp   |  2 +-
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/symbolics/printer/FortranPrinter.cpp b/symbolics/printer/FortranPrinter.cpp
index 9506f56..b70c64e 100644
--- a/symbolics/printer/FortranPrinter.cpp
+++ b/symbolics/printer/FortranPrinter.cpp
@@ -43,21 +43,27 @@ std::string FortranPrinter::print_Mul( const Mul *mul )
 /*****************************************************************************/
 {
 	if (mul == NULL) throw InternalError("FortranPrinter: Mul is NULL");
-	std::string s="(", t="";
+	std::string s="", m="", t="", last="";
     size_t n = mul->getArgsSize();
     bool includes_matmul = false;
-    for (size_t i=0; i<n-1; ++i)
+    // skalare Faktoren vor das Produkt der Matrizen ziehen
+    for (size_t i=0; i<n; ++i)
     {
-		if (!mul->getArg(i)->is_Scalar() && !mul->getArg(i+1)->is_Scalar()) {
-			s += "matmul(" + print(mul->getArg(i)) + ",";
+		if (mul->getArg(i)->is_Scalar()) {
+			s += (s.empty() ? "" : "*") + print(mul->getArg(i));
+			continue;
+		}
+		if (!last.empty()) {
+			m += "matmul(" + last + ",";
 			t += ")";
 			includes_matmul = true;
-		} else {
-			s+= print(mul->getArg(i)) + t + "*";
-			t="";
 		}
+		last = print(mul->getArg(i));
     }
-    s += print(mul->getArg(n-1)) + t + ")";
+    m += last + t;
+    if (!s.empty() && !m.empty())
+		s += "*";
+    s = "(" + s + m + ")";
 	if (includes_matmul && mul->is_Scalar()) //TODO: was ist mit (1,1) Matrizen? 
 		s = "scalar" + s; //keine Klammern n�tig, diese sollten schon da sein
     return s;
@@ -142,10 +148,14 @@ std::string FortranPrinter::print_Pow( const Pow *pow )
     
     if (!pow->getBase()->is_Matrix())
         return error("FortranPrinter: Pow: Base is neither Scalar nor Matrix, it expands to: '" + print(pow->getBase()) + "'");
-	if (pow->getExponent()->getType() != Type_Int)
+	int exp_value = 0;
+	if (pow->getExponent()->getType() == Type_Int)
+		exp_value = Util::getAsConstPtr<Int>(pow->getExponent())->getValue();
+	else if (pow->getExponent()->getType() == Type_Real && Util::getAsConstPtr<Real>(pow->getExponent())->getValue() == (int)Util::getAsConstPtr<Real>(pow->getExponent())->getValue())
+		exp_value = (int)Util::getAsConstPtr<Real>(pow->getExponent())->getValue();
+	else
 		return error("FortranPrinter: Pow: Base is matrix but exponent is no Integer, it is of type '"
                     + str(pow->getExponent()->getType()) + "' and expands to '" + print(pow->getExponent()) + "'");
-    int exp_value = Util::getAsConstPtr<Int>(pow->getExponent())->getValue();
 	return "matpow(" + print(pow->getBase()) + "," + str(exp_value) + ")"; 
     //Exponent darf nicht mit print ausgegeben werden, da ein "echter" Integer benoetigt wird.
 }
diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index fe06b7b..6b06efb 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -687,7 +687,7 @@ double FortranWriter::generateFunctionmodule()
 	f << "    end if" << std::endl;
 	f << "    matpow = B" << std::endl;
 	f << std::endl;
-	f << "    do i=2, e" << std::endl;
+	f << "    do i=2, abs(e)" << std::endl;
 	f << "        matpow = matmul(matpow, B)" << std::endl;
 	f << "    end do" << std::endl;
 	f << std::endl;
-- 
2.43.0


From de1b5e80b6bb301affc8fb9dd8cc74aef5c4b1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 066/126] fix: a second equation for a component that is
 already solved is refused

---
 symbolics/graph/EquationSystem.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/symbolics/graph/EquationSystem.cpp b/symbolics/graph/EquationSystem.cpp
index 93023d3..f02ab8c 100644
--- a/symbolics/graph/EquationSystem.cpp
+++ b/symbolics/graph/EquationSystem.cpp
@@ -374,9 +374,10 @@ void EquationSystem::checkEquation(DerivativeScanner *scanner,
           if (ii->second.elements.find(SizeTPair(ie->first,ie->second)) != ii->second.elements.end())
           {
             std::string msg = name + "[" + str(ie->first) + "," + str(ie->second) +  "] is already solved in ";
-            for (size_t k=0;k<ii->second.eqn->getRhsSize();++k)
+            EquationPtr other = ii->second.elements[SizeTPair(ie->first,ie->second)];
+            for (size_t k=0;k<other->getRhsSize();++k)
             {
-              msg += ii->second.eqn->getRhs(k)->toString();
+              msg += other->getRhs(k)->toString();
             }
             throw SymbolAlreadySolvedInError(msg);
           }
@@ -490,9 +491,10 @@ void EquationSystem::addEquation( EquationPtr eqn)
           if (ii->second.elements.find(SizeTPair(ie->first,ie->second)) != ii->second.elements.end())
           {
             std::string msg = name + "[" + str(ie->first) + "," + str(ie->second) +  "] is already solved in ";
-            for (size_t k=0;k<ii->second.eqn->getRhsSize();++k)
+            EquationPtr other = ii->second.elements[SizeTPair(ie->first,ie->second)];
+            for (size_t k=0;k<other->getRhsSize();++k)
             {
-              msg += ii->second.eqn->getRhs(k)->toString();
+              msg += other->getRhs(k)->toString();
             }
             throw SymbolAlreadySolvedInError(msg);
           }
-- 
2.43.0


From 9838b72c21a9f702fcb7936db69be8e20997e197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 067/126] fix: generated functions read the states from their
 places in the state vector whatever their sizes

---
 symbolics/writer/CWriter.cpp       | 28 +++++++++----------------
 symbolics/writer/FortranWriter.cpp | 33 +++++++++++-------------------
 symbolics/writer/MatlabWriter.cpp  | 31 +++++++++-------------------
 symbolics/writer/PythonWriter.cpp  | 33 +++++++++++-------------------
 symbolics/writer/Writer.cpp        | 22 ++++++++++++++++++++
 symbolics/writer/include/Writer.h  |  6 ++++++
 6 files changed, 72 insertions(+), 81 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 0007cc9..eb746ab 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -91,7 +91,7 @@ double CWriter::generateDerState(Graph::Graph& g, int &dim)
 
 	Graph::AssignmentsPtr a = g.getAssignments(DER_STATE);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = getStates(g);
 	if (states.empty())
 		throw InternalError("Error: Models without states are not yet implemented in C!");
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR|SENSOR_VISUAL);
@@ -101,8 +101,6 @@ double CWriter::generateDerState(Graph::Graph& g, int &dim)
 	Graph::VariableVec controller = a->getVariables(CONTROLLER);
 	Graph::VariableVec userexp = a->getVariables(USER_EXP);
 
-	// StateVariables Vector sortieren:
-	std::sort(states.begin(),states.end(), sortVariableVec);
     // Inputs Vector sortieren: 
 	std::sort(inputs.begin(),inputs.end(), sortVariableVec);
 
@@ -130,7 +128,7 @@ double CWriter::generateDerState(Graph::Graph& g, int &dim)
 		dim = n;
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << stateOffset(states, i)+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;
 		f << "    double " << "der_" << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " 
           << m_p->print(Zero::getZero(states.at(i)->getShape())) << ";" << std::endl;	
@@ -167,7 +165,7 @@ double CWriter::generateDerState(Graph::Graph& g, int &dim)
 		size_t n = states.at(i)->getShape().getNumEl();
 		for (size_t j=0; j < n ; ++j) 
 		{
-			f << "    yd[" << i*n+j << "] = der_" << m_p->print(states.at(i));
+			f << "    yd[" << stateOffset(states, i)+j << "] = der_" << m_p->print(states.at(i));
 			if (n>1) // hm.. was ist schneller "n-1" oder "n>1"?
 				f << "[" << j << "];" << std::endl;
 			else 
@@ -204,7 +202,7 @@ double CWriter::generateVisual(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR_VISUAL);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = getStates(g);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR);
 	//Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
@@ -217,8 +215,6 @@ double CWriter::generateVisual(Graph::Graph& g)
 		return Util::getTime() - t1;
 	}
 
-	// StateVariables Vector sortieren:
-	std::sort(states.begin(),states.end(), sortVariableVec);
 	// Visual_sensors Vector sortieren: 
 	std::sort(sens_vis.begin(),sens_vis.end(), sortVariableVec);
 
@@ -244,7 +240,7 @@ double CWriter::generateVisual(Graph::Graph& g)
 		size_t n = states.at(i)->getShape().getNumEl();
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << stateOffset(states, i)+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;	
 	}
 	f << std::endl; 
@@ -296,7 +292,7 @@ double CWriter::generateSensors(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = getStates(g);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR_VISUAL);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
@@ -309,8 +305,6 @@ double CWriter::generateSensors(Graph::Graph& g)
 		return Util::getTime() - t1;
 	}
 
-	// StateVariables Vector sortieren:
-	std::sort(states.begin(),states.end(), sortVariableVec);
 	// Sensors Vector sortieren: 
 	std::sort(sensors.begin(),sensors.end(), sortVariableVec);
     // Inputs Vector sortieren: 
@@ -343,7 +337,7 @@ double CWriter::generateSensors(Graph::Graph& g)
 		size_t n = states.at(i)->getShape().getNumEl();
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << stateOffset(states, i)+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;	
 	}
 	f << std::endl; 
@@ -852,7 +846,7 @@ double CWriter::generateAll(Graph::Graph& g, int &dim)
 		cats |= SENSOR_VISUAL;
 	Graph::AssignmentsPtr a = g.getAssignments(cats);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = getStates(g);
 	cats = VARIABLE;
 	if (!m_include_visual)
 		cats |= SENSOR_VISUAL;
@@ -862,8 +856,6 @@ double CWriter::generateAll(Graph::Graph& g, int &dim)
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
 	Graph::VariableVec userexp = a->getVariables(USER_EXP);
 
-	// StateVariables Vector sortieren:
-	std::sort(states.begin(),states.end(), sortVariableVec);
 
 	f << "/* " << getHeaderLine() << " */" << std::endl;
 	f << "/*";
@@ -879,7 +871,7 @@ double CWriter::generateAll(Graph::Graph& g, int &dim)
 		dim = n;
 		f << "    const double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << stateOffset(states, i)+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;
 		f << "    double " << "der_" << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " 
           << m_p->print(Zero::getZero(states.at(i)->getShape())) << ";" << std::endl;	
@@ -915,7 +907,7 @@ double CWriter::generateAll(Graph::Graph& g, int &dim)
 		size_t n = states.at(i)->getShape().getNumEl();
 		for (size_t j=0; j < n ; ++j) 
 		{
-			f << "    yd[" << i*n+j << "] = der_" << m_p->print(states.at(i));
+			f << "    yd[" << stateOffset(states, i)+j << "] = der_" << m_p->print(states.at(i));
 			if (n>1) // hm.. was ist schneller "n-1" oder "n>1"?
 				f << "[" << j << "];" << std::endl;
 			else 
diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 6b06efb..fec3be8 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -65,7 +65,7 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(DER_STATE);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = getStates(g);
 	if (states.empty())
 		throw InternalError("Error: Models without states are not implemented yet in Fortran!");
 
@@ -75,8 +75,6 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
 	Graph::VariableVec userexp = a->getVariables(USER_EXP);
 
-	// StateVariables Vector sortieren:
-	std::sort(states.begin(),states.end(), sortVariableVec);
     // Inputs Vector sortieren: 
 	std::sort(inputs.begin(),inputs.end(), sortVariableVec);
 
@@ -141,15 +139,14 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 	std::stringstream fss;
 
 	fss << "!define states" << std::endl;
-	Shape n = states.at(0)->getShape(); 
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
 		fss << "    " << m_p->print(states[i]) << " = y(";
 		if (states[i]->is_Scalar())
-			fss << str(n.getDimension(1) * i + 1) << ",1)" << std::endl;
+			fss << str(stateOffset(states, i) + 1) << ",1)" << std::endl;
 		else
-			fss << str(n.getDimension(1) * i + 1) << ":" 
-			  << str(n.getDimension(1) * (i+1)) << ",:)" 
+			fss << str(stateOffset(states, i) + 1) << ":" 
+			  << str(stateOffset(states, i+1)) << ",:)" 
 			  << std::endl;
 	}
 	fss << std::endl;
@@ -194,7 +191,7 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = getStates(g);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR_VISUAL);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
@@ -207,8 +204,6 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 		return Util::getTime() - t1;
 	}
 
-	// StateVariables Vector sortieren:
-	std::sort(states.begin(),states.end(), sortVariableVec);
     // Inputs Vector sortieren: 
 	std::sort(inputs.begin(),inputs.end(), sortVariableVec);
 	// Sensors Vector sortieren: 
@@ -282,13 +277,12 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 	fss << "!define states" << std::endl; 
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
-        Shape n = states.at(i)->getShape();
 		fss << "    " << m_p->print(states[i]) << " = y(";
 		if (states[i]->is_Scalar())
-			fss << str(n.getDimension(1) * i + 1) << ",1)" << std::endl;
+			fss << str(stateOffset(states, i) + 1) << ",1)" << std::endl;
 		else
-			fss << str(n.getDimension(1) * i + 1) << ":" 
-			  << str(n.getDimension(1) * (i+1)) << ",:)" 
+			fss << str(stateOffset(states, i) + 1) << ":" 
+			  << str(stateOffset(states, i+1)) << ",:)" 
 			  << std::endl;
 	}
 	fss << std::endl;
@@ -327,7 +321,7 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR_VISUAL);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = getStates(g);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR);
 	//Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
@@ -340,8 +334,6 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 		return Util::getTime() - t1;
 	}
 	
-	// StateVariables Vector sortieren:
-	std::sort(states.begin(),states.end(), sortVariableVec);
 	// Visual_sensors Vector sortieren: 
 	std::sort(sens_vis.begin(),sens_vis.end(), sortVariableVec);
 
@@ -403,13 +395,12 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	fss << "!define states" << std::endl;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
-        Shape n = states.at(i)->getShape(); 
 		fss << "    " << m_p->print(states[i]) << " = y(";
 		if (states[i]->is_Scalar())
-			fss << str(n.getDimension(1) * i + 1) << ",1)" << std::endl;
+			fss << str(stateOffset(states, i) + 1) << ",1)" << std::endl;
 		else
-			fss << str(n.getDimension(1) * i + 1) << ":" 
-			  << str(n.getDimension(1) * (i+1)) << ",:)" 
+			fss << str(stateOffset(states, i) + 1) << ":" 
+			  << str(stateOffset(states, i+1)) << ",:)" 
 			  << std::endl;
 	}
 	fss << std::endl;
diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index 8c519ad..fe06643 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -73,12 +73,10 @@ double MatlabWriter::generateBasicSim(Graph::Graph& g)
 	Graph::AssignmentsPtr a = g.getAssignments(DER_STATE);
 
 	Graph::VariableVec sensors = a->getVariables(SENSOR);
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = getStates(g);
 	if (states.empty())
 		throw InternalError("System without States, Feature is not yet Implemented in Matlab");
 
-	// StateVariables Vector sortieren:
-	std::sort(states.begin(),states.end(), sortVariableVec);
 
 	//weil es h�ufiger verwendet wird:
 	size_t state0_dim1 = states.at(0)->getShape().getDimension(1);
@@ -155,15 +153,13 @@ double MatlabWriter::generateDerState(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(DER_STATE);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = getStates(g);
 	if (states.empty())
 		throw InternalError("Error: Models without states are not yet implemented in Matlab!");
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
 
-	// StateVariables Vector sortieren:
-	std::sort(states.begin(),states.end(), sortVariableVec);
 	
 	std::ofstream f;
 	std::string filename= m_path + "/" + m_name + "_der_state.m";
@@ -178,8 +174,8 @@ double MatlabWriter::generateDerState(Graph::Graph& g)
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
 		f << "	" << m_p->print(states.at(i)) << " = y("
-		  << str(states.at(i)->getShape().getDimension(1) * i + 1) << ":" 
-		  << str(states.at(i)->getShape().getDimension(1) * (i+1)) << ");" 
+		  << str(stateOffset(states, i) + 1) << ":" 
+		  << str(stateOffset(states, i+1)) << ");" 
 		  << std::endl;
 	}
 	f << std::endl;
@@ -231,15 +227,13 @@ double MatlabWriter::generateSymDerState(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(DER_STATE);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = getStates(g);
     Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR|SENSOR_VISUAL);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
 	Graph::VariableVec userexp = a->getVariables(USER_EXP);
 
-	// StateVariables Vector sortieren:
-	std::sort(states.begin(),states.end(), sortVariableVec);
 
 	f << "% " << getHeaderLine() << std::endl;
 	f << std::endl;
@@ -338,7 +332,7 @@ double MatlabWriter::generateSensors(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = getStates(g);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
@@ -349,8 +343,6 @@ double MatlabWriter::generateSensors(Graph::Graph& g)
         return Util::getTime() - t1;
     }
 
-	// StateVariables Vector sortieren:
-	std::sort(states.begin(),states.end(), sortVariableVec);
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + "_sensors.m";
@@ -367,10 +359,9 @@ double MatlabWriter::generateSensors(Graph::Graph& g)
 
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
-		const Symbolics::BasicPtr s = states.at(i);
-		f << "	" << m_p->print(s) << " = y("
-		  << str(s->getShape().getDimension(1) * i + 1) << ":" 
-		  << str(s->getShape().getDimension(1) * (i+1)) << ");" 
+		f << "	" << m_p->print(states.at(i)) << " = y("
+		  << str(stateOffset(states, i) + 1) << ":" 
+		  << str(stateOffset(states, i+1)) << ");" 
 		  << std::endl;
 	}
 
@@ -418,7 +409,7 @@ double MatlabWriter::generateSymSensors(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = getStates(g);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
@@ -429,8 +420,6 @@ double MatlabWriter::generateSymSensors(Graph::Graph& g)
         return Util::getTime() - t1;
     }
 
-	// StateVariables Vector sortieren:
-	std::sort(states.begin(),states.end(), sortVariableVec);
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + "_sensors_symbolic.m";
diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 44facdc..3ee1333 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -66,7 +66,7 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(DER_STATE);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = getStates(g);
 	if (states.empty())
 		throw InternalError("Error: Models without states are not implemented yet in Python!");
 	Graph::VariableVec inputs = a->getVariables(INPUT);
@@ -79,8 +79,6 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	Graph::AssignmentsPtr b = g.getAssignments(Writer::SENSOR);
 	Graph::VariableVec sensors = b->getVariables(Writer::SENSOR);
 
-	// StateVariables Vector sortieren:
-	std::sort(states.begin(),states.end(), sortVariableVec);
 
 	// open file
 	std::ofstream f;
@@ -141,13 +139,12 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	f << "    # state" << std::endl;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
-		Shape n = states.at(i)->getShape();
 		f << "    " << m_p->print(states[i]) << " = ";
 		if (states[i]->is_Scalar())
-			f << "y[" << str(i) << "]" << std::endl;
+			f << "y[" << str(stateOffset(states, i)) << "]" << std::endl;
 		else
-			f << "matrix(y[" << str(n.getDimension(1) * i) << ":"
-			  << str(n.getDimension(1) * (i+1)) << "], dtype=float).T"
+			f << "matrix(y[" << str(stateOffset(states, i)) << ":"
+			  << str(stateOffset(states, i+1)) << "], dtype=float).T"
 			  << std::endl;
 	}
 	f << std::endl;
@@ -225,7 +222,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	// get equations of visual sensors
 	Graph::AssignmentsPtr a = g.getAssignments(Writer::SENSOR_VISUAL);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = getStates(g);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
@@ -238,8 +235,6 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 
 	std::vector<Graph::Assignment> equations =  a->getEquations(PARAMETER | CONSTANT | INPUT);
 
-	// StateVariables Vector sortieren:
-	std::sort(states.begin(),states.end(), sortVariableVec);
 
 	// open file
 	std::ofstream f;
@@ -287,13 +282,12 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	f << "    # state" << std::endl;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
-		Shape n = states.at(i)->getShape();
 		f << "    " << m_p->print(states[i]) << " = ";
 		if (states[i]->is_Scalar())
-			f << "y[" << str(i) << "]" << std::endl;
+			f << "y[" << str(stateOffset(states, i)) << "]" << std::endl;
 		else
-			f << "matrix(y[" << str(n.getDimension(1) * i) << ":"
-			  << str(n.getDimension(1) * (i+1)) << "], dtype=float).T"
+			f << "matrix(y[" << str(stateOffset(states, i)) << ":"
+			  << str(stateOffset(states, i+1)) << "], dtype=float).T"
 			  << std::endl;
 	}
 	f << std::endl;
@@ -355,7 +349,7 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	// get equations of visual sensors
 	Graph::AssignmentsPtr a = g.getAssignments(Writer::SENSOR);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = getStates(g);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
@@ -368,8 +362,6 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 
 	std::vector<Graph::Assignment> equations =  a->getEquations(PARAMETER | CONSTANT | INPUT);
 
-	// StateVariables Vector sortieren:
-	std::sort(states.begin(),states.end(), sortVariableVec);
 
 	// open file
 	std::ofstream f;
@@ -417,13 +409,12 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	f << "    # state" << std::endl;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
-		Shape n = states.at(i)->getShape();
 		f << "    " << m_p->print(states[i]) << " = ";
 		if (states[i]->is_Scalar())
-			f << "y[" << str(i) << "]" << std::endl;
+			f << "y[" << str(stateOffset(states, i)) << "]" << std::endl;
 		else
-			f << "matrix(y[" << str(n.getDimension(1) * i) << ":"
-			  << str(n.getDimension(1) * (i+1)) << "], dtype=float).T"
+			f << "matrix(y[" << str(stateOffset(states, i)) << ":"
+			  << str(stateOffset(states, i+1)) << "], dtype=float).T"
 			  << std::endl;
 	}
 	f << std::endl;
diff --git a/symbolics/writer/Writer.cpp b/symbolics/writer/Writer.cpp
index bc212b5..739c1fe 100644
--- a/symbolics/writer/Writer.cpp
+++ b/symbolics/writer/Writer.cpp
@@ -1,5 +1,6 @@
 #include "Writer.h"
 #include "str.h"
+#include <algorithm>
 
 #ifdef WIN32
   #include <time.h>
@@ -73,3 +74,24 @@ bool Writer::sortVariableVec (boost::intrusive_ptr<Symbolics::Symbol> a, boost::
 	return (*(a.get()) < *(b.get())); 
 }
 /*****************************************************************************/
+
+/*****************************************************************************/
+Graph::VariableVec Writer::getStates(Graph::Graph& g)
+/*****************************************************************************/
+{
+    Graph::VariableVec states = g.getVariables(STATE);
+    std::sort(states.begin(), states.end(), sortVariableVec);
+    return states;
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+size_t Writer::stateOffset(Graph::VariableVec const& states, size_t i)
+/*****************************************************************************/
+{
+    size_t res = 0;
+    for (size_t k=0; k < i; ++k)
+        res += states.at(k)->getShape().getNumEl();
+    return res;
+}
+/*****************************************************************************/
diff --git a/symbolics/writer/include/Writer.h b/symbolics/writer/include/Writer.h
index 3766aaa..fdbf14b 100644
--- a/symbolics/writer/include/Writer.h
+++ b/symbolics/writer/include/Writer.h
@@ -38,6 +38,12 @@ namespace Symbolics
 		// Die Funktion muss static sein, da sie als functionpointer verwendet wird
 		static bool sortVariableVec (boost::intrusive_ptr<Symbolics::Symbol> a, boost::intrusive_ptr<Symbolics::Symbol> b);
 
+		// All states of the model in the order in which they occupy the state vector y; every generated function uses
+		// this layout, no matter which of the states it needs.
+		static Graph::VariableVec getStates(Graph::Graph& g);
+		// Position of the first component of the i-th state in the state vector
+		static size_t stateOffset(Graph::VariableVec const& states, size_t i);
+
     public:
         double generateTarget(std::string name, std::string path, Graph::Graph& g, bool optimize);
 
-- 
2.43.0


From 505c226b011e866721d95ece2f96538784d2ec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 068/126] fix: indentation of constants in generated Python
 modules

---
 symbolics/writer/PythonWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 3ee1333..46953c3 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -179,7 +179,7 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	f << "    # constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
 	{
-		f << "   " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	}
 	f << std::endl;
 
@@ -304,7 +304,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	f << "    # constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
 	{
-		f << "   " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	}
 	f << std::endl;
 
@@ -431,7 +431,7 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	f << "    # constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
 	{
-		f << "   " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	}
 	f << std::endl;
 
-- 
2.43.0


From 9a19bf03545c85550e51a18029756e268721fa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 069/126] fix: generated Python modules import tan

---
 symbolics/writer/PythonWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 46953c3..3707e53 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -91,7 +91,7 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	f << std::endl << std::endl;
 
 	//f << "from numba import njit" << std::endl;
-	f << "from numpy import linalg, vstack, asarray, sin, cos, pi, sqrt, zeros, bmat, matrix" << std::endl;
+	f << "from numpy import linalg, vstack, asarray, sin, cos, tan, pi, sqrt, zeros, bmat, matrix" << std::endl;
 	f << "from numpy import arctan2 as atan2" << std::endl;
 	f << "from numpy import arctan as atan" << std::endl;
 	f << "from numpy import arcsin as asin" << std::endl;
@@ -246,7 +246,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl << std::endl;
 
-	f << "from numpy import linalg, vstack, asarray, sin, cos, pi, sqrt, zeros, bmat, matrix" << std::endl;
+	f << "from numpy import linalg, vstack, asarray, sin, cos, tan, pi, sqrt, zeros, bmat, matrix" << std::endl;
 	f << "from numpy import arctan2 as atan2" << std::endl;
 	f << "from numpy import arctan as atan" << std::endl;
 	f << "from numpy import arcsin as asin" << std::endl;
@@ -373,7 +373,7 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl << std::endl;
 
-	f << "from numpy import linalg, vstack, asarray, sin, cos, pi, sqrt, zeros, bmat, matrix" << std::endl;
+	f << "from numpy import linalg, vstack, asarray, sin, cos, tan, pi, sqrt, zeros, bmat, matrix" << std::endl;
 	f << "from numpy import arctan2 as atan2" << std::endl;
 	f << "from numpy import arctan as atan" << std::endl;
 	f << "from numpy import arcsin as asin" << std::endl;
-- 
2.43.0


From e136d357b84b9c8d4586771e6cd9c32e27650f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 070/126] fix: derivative function of Python modules with one
 scalar state

---
 symbolics/writer/PythonWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 3707e53..3f7605d 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -200,7 +200,7 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	f << "    return " << "asarray(vstack((";
 	for (Graph::VariableVec::iterator it=states.begin();it!=states.end();++it)
 		f << (it==states.begin() ? "" : ", " ) << "der_" << m_p->print(*it);
-	f << "))).ravel()" << std::endl;
+	f << (states.size()==1 ? ",)" : ")") << ")).ravel()" << std::endl;
 
 	// close file
 	f.close();
-- 
2.43.0


From 653eb49aea25ebca85082413b74ff97de5acebd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:11 +0000
Subject: [PATCH 071/126] fix: Python modules create matrices that are defined
 component by component

---
 symbolics/writer/PythonWriter.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 3f7605d..1a22ab5 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -2,6 +2,7 @@
 #include "str.h"
 #include <iostream>
 #include <vector>
+#include <set>
 #include <fstream>
 #include <algorithm>
 
@@ -473,6 +474,8 @@ std::string PythonWriter::writeEquations(std::vector<Graph::Assignment> const& e
 /*****************************************************************************/
 {
 	std::stringstream s;
+	// matrices that are defined component by component
+	std::set<std::string> created;
 
 	for (std::vector<Graph::Assignment>::const_iterator it=equations.begin(); it!=equations.end(); ++it)
 	{
@@ -485,6 +488,22 @@ std::string PythonWriter::writeEquations(std::vector<Graph::Assignment> const& e
 			BasicPtr simple_exp = it->rhs[i]->simplify();
 			if (simple_exp.get() == NULL) throw InternalError("PythonWriter: Value of Rhs is not Valid!");
 
+			// a component can only be assigned to a matrix that exists
+			std::vector<BasicPtr> targets(1, it->lhs[i]);
+			if (it->lhs[i]->getType() == Type_Matrix)
+			{
+				targets.clear();
+				for (size_t j=0; j < it->lhs[i]->getArgsSize(); j++)
+					targets.push_back(it->lhs[i]->getArg(j));
+			}
+			for (size_t j=0; j < targets.size(); j++)
+			{
+				if (targets[j]->getType() != Type_Element) continue;
+				BasicPtr whole = targets[j]->getArg(0);
+				if (created.insert(m_p->print(whole)).second)
+					s << "    " << m_p->print(whole) << " = " << m_p->print(Zero::getZero(whole->getShape())) << std::endl;
+			}
+
 			// Matrix at left hand side (= multiple results)
 			if (it->lhs[i]->getType() == Type_Matrix)
 			{
-- 
2.43.0


From 65ce69f7d1dcad12d308040e461a7d16d685fcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 072/126] fix: systems of equations of any size in generated C
 programs

---
 symbolics/writer/CWriter.cpp       | 42 ++++++++++++++++--------------
 symbolics/writer/include/CWriter.h |  2 ++
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index eb746ab..95fba70 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -13,7 +13,7 @@ using namespace Symbolics;
 
 /*****************************************************************************/
 CWriter::CWriter( std::map<std::string, std::string> &kwds ): 
-	Writer(true), m_pymbs_wrapper(false), m_simulink_sfunction(false), m_include_visual(true)
+	Writer(true), m_solveDim(1), m_pymbs_wrapper(false), m_simulink_sfunction(false), m_include_visual(true)
 /*****************************************************************************/
 {
 	m_p = new CPrinter();
@@ -33,7 +33,7 @@ CWriter::CWriter( std::map<std::string, std::string> &kwds ):
 
 /*****************************************************************************/
 CWriter::CWriter(): 
-	Writer(true), m_pymbs_wrapper(false), m_simulink_sfunction(false), m_include_visual(true)
+	Writer(true), m_solveDim(1), m_pymbs_wrapper(false), m_simulink_sfunction(false), m_include_visual(true)
 /*****************************************************************************/
 {
 	m_p = new CPrinter();
@@ -401,10 +401,11 @@ std::string CWriter::writeEquations(std::vector<Graph::Assignment> const& equati
 				const Solve *solve = Util::getAsConstPtr<Solve>(it->rhs[i]);
 				//Util::getAsConstPtr<Element>(it->lhs[i]->getArg(0)->getArg(0));
 				int dim = solve->getArg2()->getShape().getDimension(1);
+				m_solveDim = std::max(m_solveDim, dim);
 				s << "    {" << std::endl;
 				s << "        double solve_A[" << dim << "][" << dim << "] = " << m_p->print(solve->getArg1()) << ";" << std::endl;
 				s << "        double solve_b[" << dim << "] = " << m_p->print(solve->getArg2()) << ";" << std::endl;
-				s << "        legs(solve_A, solve_b, " << m_p->print(it->lhs[i]->getArg(0)->getArg(0)) << ");" << std::endl;
+				s << "        legs(" << dim << ", &solve_A[0][0], solve_b, " << m_p->print(it->lhs[i]->getArg(0)->getArg(0)) << ");" << std::endl;
 				s << "    }" << std::endl;
 			} else {
 				// ordinary equation
@@ -718,42 +719,43 @@ double CWriter::generateFunctionmodule(int n)
 	f << std::endl;
 	f << "#include <stdio.h>" << std::endl;
 	f << "#include <math.h>" << std::endl;
-	f << "#define n " << n << std::endl;
+	f << "/* dimension of the largest system of equations */" << std::endl;
+	f << "#define LEGS_MAX " << std::max(n, m_solveDim) << std::endl;
 	f << std::endl;
-	f << "void elgs(double A[n][n], int *indx);" << std::endl;
+	f << "void elgs(int n, double *A, int *indx);" << std::endl;
 	f << std::endl;
-	f << "void legs (double A[n][n], double *b, double *x)" << std::endl;
-	f << "/* Function to solve the equation A[n][n]*x[n] = b[n] with the" << std::endl;
+	f << "void legs (int n, double *A, double *b, double *x)" << std::endl;
+	f << "/* Function to solve the equation A[n*n]*x[n] = b[n] (A row by row) with the" << std::endl;
 	f << "   partial-pivoting Gaussian elimination scheme." << std::endl;
 	f << "   Copyright (c) Tao Pang 2001. */" << std::endl;
 	f << "{" << std::endl;
-	f << "  int indx[n];" << std::endl;
+	f << "  int indx[LEGS_MAX];" << std::endl;
 	f << "  int i, j;" << std::endl;
 	f << std::endl;
-	f << "  elgs (A,indx);" << std::endl;
+	f << "  elgs (n,A,indx);" << std::endl;
 	f << std::endl;
 	f << "  for(i = 0; i < n-1; ++i)" << std::endl;
 	f << "  {" << std::endl;
 	f << "    for(j = i+1; j < n; ++j)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      b[indx[j]] = b[indx[j]]-A[indx[j]][i]*b[indx[i]];" << std::endl;
+	f << "      b[indx[j]] = b[indx[j]]-A[indx[j]*n+i]*b[indx[i]];" << std::endl;
 	f << "    }" << std::endl;
 	f << "  }" << std::endl;
 	f << std::endl;
-	f << "  x[n-1] = b[indx[n-1]]/A[indx[n-1]][n-1];" << std::endl;
+	f << "  x[n-1] = b[indx[n-1]]/A[indx[n-1]*n+n-1];" << std::endl;
 	f << "  for (i = n-2; i>=0; i--)" << std::endl;
 	f << "  {" << std::endl;
 	f << "    x[i] = b[indx[i]];" << std::endl;
 	f << "    for (j = i+1; j < n; ++j)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      x[i] = x[i]-A[indx[i]][j]*x[j];" << std::endl;
+	f << "      x[i] = x[i]-A[indx[i]*n+j]*x[j];" << std::endl;
 	f << "    }" << std::endl;
-	f << "    x[i] = x[i]/A[indx[i]][i];" << std::endl;
+	f << "    x[i] = x[i]/A[indx[i]*n+i];" << std::endl;
 	f << "  }" << std::endl;
 	f << std::endl;
 	f << "}" << std::endl;
 	f << std::endl;
-	f << "void elgs (double A[n][n], int *indx)" << std::endl;
+	f << "void elgs (int n, double *A, int *indx)" << std::endl;
 	f << std::endl;
 	f << "/* Function to perform the partial pivoting Gaussian elimination." << std::endl;
 	f << "   A[][] is the original matrix in the input and transformed" << std::endl;
@@ -762,7 +764,7 @@ double CWriter::generateFunctionmodule(int n)
 	f << "   Copyright (c) Tao Pang 2001. */" << std::endl;
 	f << std::endl;
 	f << "{" << std::endl;
-	f << "  double c[n];" << std::endl;
+	f << "  double c[LEGS_MAX];" << std::endl;
 	f << "  int i, j, l;" << std::endl;
 	f << std::endl;
 	f << "/* Initialize the index */" << std::endl;
@@ -779,7 +781,7 @@ double CWriter::generateFunctionmodule(int n)
 	f << "    double c1 = 0;" << std::endl;
 	f << "    for (j = 0; j < n; ++j)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      if (fabs(A[i][j]) > c1) c1 = fabs(A[i][j]);" << std::endl;
+	f << "      if (fabs(A[i*n+j]) > c1) c1 = fabs(A[i*n+j]);" << std::endl;
 	f << "    }" << std::endl;
 	f << "	c[i] = c1;" << std::endl;
 	f << "  }" << std::endl;
@@ -793,7 +795,7 @@ double CWriter::generateFunctionmodule(int n)
 	f << "    double pi1 = 0;" << std::endl;
 	f << "    for (i = j; i < n; ++i)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      double pi = fabs(A[indx[i]][j])/c[indx[i]];" << std::endl;
+	f << "      double pi = fabs(A[indx[i]*n+j])/c[indx[i]];" << std::endl;
 	f << "      if (pi > pi1)" << std::endl;
 	f << "      {" << std::endl;
 	f << "        pi1 = pi;" << std::endl;
@@ -808,17 +810,17 @@ double CWriter::generateFunctionmodule(int n)
 	f << "    indx[k] = itmp;" << std::endl;
 	f << "    for (i = j+1; i < n; ++i)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      double pj = A[indx[i]][j]/A[indx[j]][j];" << std::endl;
+	f << "      double pj = A[indx[i]*n+j]/A[indx[j]*n+j];" << std::endl;
 	f << std::endl;
 	f << "/* Record pivoting ratios below the diagonal */" << std::endl;
 	f << std::endl;
-	f << "      A[indx[i]][j] = pj;" << std::endl;
+	f << "      A[indx[i]*n+j] = pj;" << std::endl;
 	f << std::endl;
 	f << "/* Modify other elements accordingly */" << std::endl;
 	f << std::endl;
 	f << "      for (l = j+1; l < n; ++l)" << std::endl;
 	f << "      {" << std::endl;
-	f << "        A[indx[i]][l] = A[indx[i]][l]-pj*A[indx[j]][l];" << std::endl;
+	f << "        A[indx[i]*n+l] = A[indx[i]*n+l]-pj*A[indx[j]*n+l];" << std::endl;
 	f << "      }" << std::endl;
 	f << "    }" << std::endl;
 	f << "  }" << std::endl;
diff --git a/symbolics/writer/include/CWriter.h b/symbolics/writer/include/CWriter.h
index 29d2a92..bb984b1 100644
--- a/symbolics/writer/include/CWriter.h
+++ b/symbolics/writer/include/CWriter.h
@@ -23,6 +23,8 @@ namespace Symbolics
 		std::string writeEquations(std::vector<Graph::Assignment> const& equations) const;
 		double generateFunctionmodule(int n);
 
+		mutable int m_solveDim; // dimension of the largest system of equations written so far
+
     private:
 		bool m_pymbs_wrapper;
 		bool m_simulink_sfunction;
-- 
2.43.0


From 6d3ff85d79e9ea3e6badaa27783a63ec1054902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:22 +0000
Subject: [PATCH 073/126] fix: scalar sensors and graphics quantities are
 returned by generated C functions

---
 symbolics/writer/CWriter.cpp       | 45 ++++++++++++++++++++++++++----
 symbolics/writer/include/CWriter.h |  1 +
 2 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 95fba70..453d715 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -230,7 +230,7 @@ double CWriter::generateVisual(Graph::Graph& g)
 
 	f << "__declspec(dllexport) int "<< m_name <<"_visual(double * y"; 
 	for (Graph::VariableVec::iterator it=sens_vis.begin();it!=sens_vis.end();++it)
-		f << ", double " << m_p->print(*it) << m_p->dimension(*it); 
+		f << ", double " << outArgument(*it); 
 	f << ")" << std::endl;  //evtl noch die statesize mit�bergeben, aber die kenn wir eigentlich auch
 	f << "{" << std::endl;
 
@@ -265,10 +265,22 @@ double CWriter::generateVisual(Graph::Graph& g)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << "/* scalar results */" << std::endl;
+	for (Graph::VariableVec::iterator it=sens_vis.begin();it!=sens_vis.end();++it)
+		if ((*it)->is_Scalar())
+			f << "    double " << m_p->print(*it) << "= 0;" << std::endl;
+	f << std::endl;
+
 	f << "/* calculate visual sensors */" << std::endl;
 	f << writeEquations(a->getEquations(PARAMETER | CONSTANT | INPUT )) << std::endl;
     f << std::endl;
 
+	f << "/* set return values */" << std::endl;
+	for (Graph::VariableVec::iterator it=sens_vis.begin();it!=sens_vis.end();++it)
+		if ((*it)->is_Scalar())
+			f << "    *" << m_p->print(*it) << "_out = " << m_p->print(*it) << ";" << std::endl;
+	f << std::endl;
+
 	f << "	return 0;" << std::endl;
 	f << "}" << std::endl;
 	
@@ -325,9 +337,9 @@ double CWriter::generateSensors(Graph::Graph& g)
 		f << ", double " << m_p->print(*it) << m_p->dimension(*it); 
 	for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
 		if (it==sensors.begin())
-			f << ", " << std::endl <<"                double " << m_p->print(*it) << m_p->dimension(*it);
+			f << ", " << std::endl <<"                double " << outArgument(*it);
 		else
-			f << ", double " << m_p->print(*it) << m_p->dimension(*it); 
+			f << ", double " << outArgument(*it); 
 	f << ")" << std::endl;  
 	f << "{" << std::endl;
 
@@ -362,10 +374,22 @@ double CWriter::generateSensors(Graph::Graph& g)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << "/* scalar results */" << std::endl;
+	for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
+		if ((*it)->is_Scalar())
+			f << "    double " << m_p->print(*it) << "= 0;" << std::endl;
+	f << std::endl;
+
 	f << "/* calculate sensors */" << std::endl;
 	f << writeEquations(a->getEquations(PARAMETER | CONSTANT | INPUT )) << std::endl;
     f << std::endl;
 
+	f << "/* set return values */" << std::endl;
+	for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
+		if ((*it)->is_Scalar())
+			f << "    *" << m_p->print(*it) << "_out = " << m_p->print(*it) << ";" << std::endl;
+	f << std::endl;
+
 	f << "	return 0;" << std::endl;
 	f << "}" << std::endl;
 	
@@ -379,6 +403,17 @@ double CWriter::generateSensors(Graph::Graph& g)
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+std::string CWriter::outArgument(SymbolPtr const& s) const
+/*****************************************************************************/
+{
+	// arrays are passed by reference anyway
+	if (s->is_Scalar())
+		return "*" + m_p->print(s) + "_out";
+	return m_p->print(s) + m_p->dimension(s);
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 std::string CWriter::writeEquations(std::vector<Graph::Assignment> const& equations) const
 /*****************************************************************************/
@@ -549,7 +584,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	for (Graph::VariableVec::iterator it=sens_vis.begin(); it!=sens_vis.end(); ++it)
 	{
 		if ((*it)->is_Scalar())
-			f << "," << std::endl << "                    c_double";
+			f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=1)";
 		else
 			f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=" << (*it)->getShape().getNrDimensions() << ")";
 	}
@@ -618,7 +653,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	for (Graph::VariableVec::iterator it=sensors.begin(); it!=sensors.end(); ++it)
 	{
 		if ((*it)->is_Scalar())
-			f << "," << std::endl << "                    c_double";
+			f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=1)";
 		else
 		//	f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=" << (*it)->getShape().getNrDimensions() << ")";
             f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=2)";
diff --git a/symbolics/writer/include/CWriter.h b/symbolics/writer/include/CWriter.h
index bb984b1..c189d8f 100644
--- a/symbolics/writer/include/CWriter.h
+++ b/symbolics/writer/include/CWriter.h
@@ -21,6 +21,7 @@ namespace Symbolics
 		CPrinter *m_p; // Der Hauptprinter dieser Writerklasse
 
 		std::string writeEquations(std::vector<Graph::Assignment> const& equations) const;
+		std::string outArgument(SymbolPtr const& s) const;
 		double generateFunctionmodule(int n);
 
 		mutable int m_solveDim; // dimension of the largest system of equations written so far
-- 
2.43.0


From d1557be9d6c126590f052ea911b6848bd00fbb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:41 +0000
Subject: [PATCH 074/126] fix: angular velocity and acceleration in equations
 generated explicitly

---
 pymbs/processing/generator_explicit.py              | 6 ++++++
 pymbs/processing/sensors/ang_acceleration_sensor.py | 9 +++------
 pymbs/processing/sensors/ang_velocity_sensor.py     | 9 +++------
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pymbs/processing/generator_explicit.py b/pymbs/processing/generator_explicit.py
index 6b52d40..7efe656 100644
--- a/pymbs/processing/generator_explicit.py
+++ b/pymbs/processing/generator_explicit.py
@@ -94,6 +94,10 @@ class Generator_Explicit(Generator):
     #            body.K_al = body.K_al.applyfunc(lambda x: pymbs.Symbolics.trigsimp(x, recursive=True))
                 body.K_al = jacobian(body.K_om, self.q)*self.qd + jacobian(body.K_om, self.qd)*self.qdd
 
+            # Angular Velocity and Acceleration w.r.t. Inertial Frame
+            body.I_om = body.I_R*body.K_om
+            body.I_al = body.I_R*body.K_al
+
             # Update cg
             body.I_l = body.I_r + body.I_R*body.cg
             body.I_ldot = jacobian(body.I_l, self.q)*self.qd
@@ -103,6 +107,8 @@ class Generator_Explicit(Generator):
                 # Do the Update
                 childCS.K_om = transpose(childCS.R)*body.K_om
                 childCS.K_al = transpose(childCS.R)*body.K_al
+                childCS.I_om = body.I_om
+                childCS.I_al = body.I_al
                 childCS.I_R = body.I_R*childCS.R
                 childCS.I_r = body.I_r + body.I_R*childCS.p
                 childCS.I_v = jacobian(childCS.I_r, self.q)*self.qd
diff --git a/pymbs/processing/sensors/ang_acceleration_sensor.py b/pymbs/processing/sensors/ang_acceleration_sensor.py
index 5b7665c..7686fd2 100644
--- a/pymbs/processing/sensors/ang_acceleration_sensor.py
+++ b/pymbs/processing/sensors/ang_acceleration_sensor.py
@@ -17,12 +17,9 @@ class AngAccelerationSensor(Sensor):
         self.check()
 
         # Calculate Vector Pointing From Child to Parent (w.r.t. Inertial Frame)
-        if (isinstance(self.parent.I_a, sym.Matrix)):
-            alpha = transpose(self.ref.I_R)*(self.child.I_R*self.child.K_al - self.parent.I_R*self.parent.K_al)
-        else:
-            alpha = transpose(self.ref.I_R)*(self.child.I_al - self.parent.I_al)
-            if (alpha == 0):
-                alpha = sym.zeros(self.getShape())
+        alpha = transpose(self.ref.I_R)*(self.child.I_al - self.parent.I_al)
+        if (alpha == 0):
+            alpha = sym.zeros(self.getShape())
 
         # Add Result to the List of Equations
         self.writeResult(graph, alpha)
diff --git a/pymbs/processing/sensors/ang_velocity_sensor.py b/pymbs/processing/sensors/ang_velocity_sensor.py
index 8351934..fddec8b 100644
--- a/pymbs/processing/sensors/ang_velocity_sensor.py
+++ b/pymbs/processing/sensors/ang_velocity_sensor.py
@@ -17,12 +17,9 @@ class AngVelocitySensor(Sensor):
         self.check()
 
         # Calculate Vector Pointing From Child to Parent (w.r.t. Inertial Frame)
-        if (isinstance(self.parent.I_a, sym.Matrix)):
-            om = transpose(self.ref.I_R)*(self.child.I_R*self.child.K_om - self.parent.I_R*self.parent.K_om)
-        else:
-            om = transpose(self.ref.I_R)*(self.child.I_om - self.parent.I_om)
-            if (om == 0):
-                om = sym.zeros(self.getShape())
+        om = transpose(self.ref.I_R)*(self.child.I_om - self.parent.I_om)
+        if (om == 0):
+            om = sym.zeros(self.getShape())
 
         # Add Result to the List of Equations
         self.writeResult(graph, om)
-- 
2.43.0


From 3f6a0bf0b6e68a357873446f8d00654a5bed7891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:06 +0000
Subject: [PATCH 075/126] fix: equations generated explicitly for one
 coordinate without loads

---
 pymbs/processing/generator_explicit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymbs/processing/generator_explicit.py b/pymbs/processing/generator_explicit.py
index 7efe656..956c133 100644
--- a/pymbs/processing/generator_explicit.py
+++ b/pymbs/processing/generator_explicit.py
@@ -287,7 +287,7 @@ class Generator_Explicit(Generator):
             f_gravity_ = graph.addEquation('f_gravity_', scalar_if_possible(f_red))
 
         if (f_ext==0):
-            f_ext = Matrix( f_gravity_.shape() )
+            f_ext = zeros( f_gravity_.shape() )
 
         f_ext_ = graph.addEquation('f_ext_', scalar_if_possible(f_ext))
         f_ = graph.addEquation('f_', f_gravity_+f_ext_)
-- 
2.43.0


From 78aeb5ddcf0df7ce29d90324619758ea86174f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:19 +0000
Subject: [PATCH 076/126] fix: energy sensors in equations generated
 recursively

---
 pymbs/processing/generator_recursive.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymbs/processing/generator_recursive.py b/pymbs/processing/generator_recursive.py
index 612938b..2ff8936 100644
--- a/pymbs/processing/generator_recursive.py
+++ b/pymbs/processing/generator_recursive.py
@@ -94,6 +94,7 @@ class Generator_Recursive(Generator):
                 body.I_R = graph.addEquation(T1%bName, sym.eye((3,3)), shape=(3,3))
                 # K_om is written w.r.t. the Inertial Frame!!!
                 body.I_om = graph.addEquation(omega%bName, sym.zeros((3,)), shape=(3,))
+                body.K_om = body.I_om
                 body._I_om_tilde = graph.addEquation(omega_tilde%bName, zeros((3,3)), shape=(3,3))
 
                 if (not self.kinematicsOnly):
@@ -138,6 +139,7 @@ class Generator_Recursive(Generator):
                 # Omega (Angular Velocity)
                 # K_om is written w.r.t. the Inertial Frame!!!
                 body.I_om = graph.addEquation(omega%bName, parentBody.I_om + joint.qd*body._Phi, shape=(3,)) # (18)
+                body.K_om = body.I_om
                 body._I_om_tilde = graph.addEquation(omega_tilde%bName, skew(body.I_om), shape=(3,3))
 
                 # Velocity
@@ -228,6 +230,7 @@ class Generator_Recursive(Generator):
                 # Omega (Angular Velocity)
                 # K_om is written w.r.t. the Inertial Frame!!!
                 body.I_om = graph.addEquation(omega%bName, parentBody.I_om + joint.qd*body._Phi, shape=(3,)) # (18)
+                body.K_om = body.I_om
                 body._I_om_tilde = graph.addEquation(omega_tilde%bName, skew(body.I_om), shape=(3,3))
 
                  # Velocity
-- 
2.43.0


From 6186dd84fd842a47bb4a54d281d6020c0bb53d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:19 +0000
Subject: [PATCH 077/126] fix: component-wise loads on systems with one
 coordinate in equations generated explicitly

---
 pymbs/processing/generator_explicit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymbs/processing/generator_explicit.py b/pymbs/processing/generator_explicit.py
index 956c133..49d9f74 100644
--- a/pymbs/processing/generator_explicit.py
+++ b/pymbs/processing/generator_explicit.py
@@ -219,8 +219,8 @@ class Generator_Explicit(Generator):
                     Wft_temp = skew(cs.p - body.cg)*transpose(body.I_R)*Rref*fel.Wf
                     Wt_temp = transpose(body.I_R)*Rref*fel.Wt
 
-                Wf += transpose(J1[i:i+3,:])*Wf_temp + transpose(J2[i:i+3,:])*Wft_temp
-                Wt += transpose(J2[i:i+3,:])*Wt_temp
+                Wf[:,:] += transpose(J1[i:i+3,:])*Wf_temp + transpose(J2[i:i+3,:])*Wft_temp
+                Wt[:,:] += transpose(J2[i:i+3,:])*Wt_temp
 
             # Child
             Wf_temp = Matrix((3,3))
@@ -239,8 +239,8 @@ class Generator_Explicit(Generator):
                         Wft_temp = skew(cs.p - body.cg)*transpose(body.I_R)*Rref*fel.Wf
                         Wt_temp = transpose(body.I_R)*Rref*fel.Wt
 
-                    Wf -= transpose(J1[i:i+3,:])*Wf_temp + transpose(J2[i:i+3,:])*Wft_temp
-                    Wt -= transpose(J2[i:i+3,:])*Wt_temp
+                    Wf[:,:] -= transpose(J1[i:i+3,:])*Wf_temp + transpose(J2[i:i+3,:])*Wft_temp
+                    Wt[:,:] -= transpose(J2[i:i+3,:])*Wt_temp
 
             # Simplify Them
             print("Simplifying Load-Distribution Matrices")
-- 
2.43.0


From 24857a4fac443c059070a2c47865e93f390196b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:49 +0000
Subject: [PATCH 078/126] fix: mass properties and position of bodies attached
 by fixed joints

---
 pymbs/input/transformation.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/pymbs/input/transformation.py b/pymbs/input/transformation.py
index d3d859f..13c922c 100644
--- a/pymbs/input/transformation.py
+++ b/pymbs/input/transformation.py
@@ -658,12 +658,6 @@ def redefineCS(cs, body, p, R):
     # still point to the old coordinate system
     cs.parent = body
 
-    # change cg if it is a body (which was connected to a fixed joint)
-    # TODO: Check that
-    if (cs.__class__ is iBody):
-        cs.cg = R*cs.cg + cs.p
-        cs.inertia = transpose(R)*cs.inertia*R
-
 
 def updateChildCS(new_Body, p_bif, R_bif):
     """
@@ -704,8 +698,8 @@ def applyFixedJoints(iBody, stage):
 
 
                 # 4. Update Information of Child and Child's Body
-                body.p = -child.p
                 body.R = transpose(child.R)
+                body.p = -(body.R*child.p)
                 body.children.remove(child)
                 body.coordList.remove(child)
                 body.oldName = body.name
@@ -734,11 +728,25 @@ def applyFixedJoints(iBody, stage):
                 # Remove Child Body from List
                 del iBody.bodyDict[child.oldName]
 
+                # Bodies Fixed to the World do not Change the World
+                if (parent is iBody):
+                    continue
+
                 # Calculate new Properties of Combined Body
-                m = parent.mass + child.mass;
-                cg = (parent.mass*parent.cg + child.mass*child.cg) / m;
-                # Inertia
-                inertia = parent.inertia + child.inertia + child.mass*transpose(skew(child.cg))*skew(child.cg)
+                m = parent.mass + child.mass
+                # Properties of the Child w.r.t. the Frame of the Parent
+                child_cg = child.p + child.R*child.cg
+                child_inertia = child.R*child.inertia*transpose(child.R)
+                # Centre of Gravity
+                if (m == 0):
+                    cg = parent.cg
+                else:
+                    cg = (parent.mass*parent.cg + child.mass*child_cg) / m
+                # Inertia w.r.t. the Common Centre of Gravity
+                d_parent = skew(parent.cg - cg)
+                d_child = skew(child_cg - cg)
+                inertia = parent.inertia + parent.mass*transpose(d_parent)*d_parent + \
+                          child_inertia + child.mass*transpose(d_child)*d_child
 
                 # save new values
                 parent.mass = m
-- 
2.43.0


From 721376cd7f7fa437ad9b4f83aa3da56bcb48973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 079/126] fix: sign of the gyroscopic torque in the order-n
 equations

---
 pymbs/processing/generator_order_n.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 752ba33..413aaaa 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -615,9 +615,7 @@ class Generator_OrderN(Generator):
                 J_2 = graph.addEquation(J%bName+"_2", -J_1)
                 J_3 = graph.addEquation(J%bName+"_3", body.mass*eye((3,3)))
                 body._J = graph.addEquation(J%bName, block_matrix([[body.inertia, J_1], [J_2, J_3]]))        # (21 a)
-    #            D_1 = graph.addEquation(D%bName+"_1", body._L_ext + body._l_tilde*body._F_ext - body._K_om_tilde*body.inertia*body.K_om)
-                # Warum  + body._K_om_tilde*body.inertia*body.K_om und nicht -
-                D_1 = graph.addEquation(D%bName+"_1", body._L_ext + body._K_om_tilde*body.inertia*body.K_om)
+                D_1 = graph.addEquation(D%bName+"_1", body._L_ext - body._K_om_tilde*body.inertia*body.K_om)
                 D_2 = graph.addEquation(D%bName+"_2", body._F_ext - body.mass*body._beta_star*body.cg)
                 body._d = graph.addEquation(D%bName, block_vector([D_1, D_2]))                               # (21 b)
                 tmp_e = block_vector([joint.Phi, joint.Psi])
-- 
2.43.0


From 0812f58e309d897170d269e8f0083d87f6553159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 080/126] fix: frames in which the order-n equations resolve
 loads

---
 pymbs/processing/generator_order_n.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 413aaaa..3849e05 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -569,15 +569,15 @@ class Generator_OrderN(Generator):
                         assert child in (load.parent, load.child), "Internal Error: load %s must have this Coordinate System (child) as a parent or a child!"%(load.name)
 
                         # Calculate Rotation Matrix
-                        if ((load.ref is None) or (load.ref == child)): # ref = parent
-                            if (load.parent == child):
-                                T = 1
-                            else:
-                                # child <- world <- parent
-                                T = transpose(child.I_R)*load.parent.I_R
-                        else:   # ref = irgendetwas
-                            # child (child/parent) <- I <- ref
-                            T = transpose(child.I_R)*load.ref.I_R
+                        if (load.ref is None):      # ref = inertial frame
+                            # body <- I
+                            T = transpose(body.I_R)
+                        elif (load.ref == child):   # ref = child
+                            # body <- child
+                            T = child.R
+                        else:                       # ref = anything else
+                            # body <- I <- ref
+                            T = transpose(body.I_R)*load.ref.I_R
 
 
                         if (not isinstance(load, Constraint)):  # We are dealing with a normal load
-- 
2.43.0


From d7f276a60eb43c7b8682d5d70fc063e693bb98a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:20 +0000
Subject: [PATCH 081/126] fix: direction of sliding joints in the order-n
 equations

---
 pymbs/processing/generator_order_n.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 3849e05..cf24a82 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -208,7 +208,7 @@ class Generator_OrderN(Generator):
                 body.I_R = graph.addEquation(T1%bName, T_cs*T_j, shape=(3,3))
                 body._R = graph.addEquation(T2%(pName,bName), transpose(cs.R*T_j))
 
-                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+joint.Psi*joint.q, shape=(3,))
+                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+cs.R*joint.Psi*joint.q, shape=(3,))
                 body._p_z = p_z_p_b
                 body._p_z_tilde = graph.addEquation(p_z_tilde%(pName,bName), skew(p_z_p_b), shape=(3,3))
 
@@ -228,7 +228,7 @@ class Generator_OrderN(Generator):
                 body._K_om_tilde = graph.addEquation(omega_tilde%bName, skew(body.K_om), shape=(3,3))
 
                 # Velocity
-                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*joint.Psi), shape=(3,))
+                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*(cs.R*joint.Psi)), shape=(3,))
                 body.I_ldot = graph.addEquation(I_ldot%bName, body.I_v + body.I_R*body._K_om_tilde*body._l, shape=(3,))
 
                 if (not self.kinematicsOnly):
@@ -275,7 +275,7 @@ class Generator_OrderN(Generator):
                 body.I_R = graph.addEquation(T1%bName, T_cs*T_j, shape=(3,3))
                 body._R = graph.addEquation(T2%(pName,bName), transpose(cs.R*T_j))
 
-                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+joint.Psi*joint.q, shape=(3,))
+                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+cs.R*joint.Psi*joint.q, shape=(3,))
                 body._p_z = p_z_p_b
                 body._p_z_tilde = graph.addEquation(p_z_tilde%(pName,bName), skew(p_z_p_b), shape=(3,3))
 
@@ -305,7 +305,7 @@ class Generator_OrderN(Generator):
                 #K_om_q = Symbolics.Matrix = ([[body.K_om[0,0]*body.K_om[0,0]],[body.K_om[1,0]*body.K_om[1,0]],[body.K_om[2,0]*body.K_om[2,0]],[body.K_om[0,0]*body.K_om[1,0]],[body.K_om[1,0]*body.K_om[2,0]],[body.K_om[0,0]*body.K_om[2,0]]])
                 body._K_om_q = graph.addEquation(omega_q%bName,omegaq)
 
-                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*joint.Psi), shape=(3,))
+                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*(cs.R*joint.Psi)), shape=(3,))
                 body.I_ldot = graph.addEquation(I_ldot%bName, body.I_v + body.I_R*body._K_om_tilde*body._l, shape=(3,))
 
                 if (not self.kinematicsOnly):
-- 
2.43.0


From 355b34a45c75fb5e8dbbc630a8d97203c305c7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 082/126] fix: point at which loads of sliding joints act on
 the driven body

---
 pymbs/processing/loads/joint_load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymbs/processing/loads/joint_load.py b/pymbs/processing/loads/joint_load.py
index d107082..e81d305 100644
--- a/pymbs/processing/loads/joint_load.py
+++ b/pymbs/processing/loads/joint_load.py
@@ -3,7 +3,7 @@ from pymbs.common.functions import transpose, norm
 
 from pymbs.processing import Joint
 
-from pymbs.symbolics import eye
+from pymbs.symbolics import eye, zeros
 
 
 class JointLoad(Load):
@@ -33,7 +33,7 @@ class JointLoad(Load):
 
         # Constructor of Super Class
         # BugFix for 014:
-        if (joint.body.CS_0.R != eye(3)):
+        if (joint.body.CS_0.R != eye(3)) or (joint.body.CS_0.p != zeros((3,))):
             if (not hasattr(joint.body, '_CS_0')):
                 joint.body._CS_0 = joint.body.addFrame('_int_CS0_2')
             Load.__init__(self, name, joint.body._CS_0, joint.coordSys, force, torque)
-- 
2.43.0


From 7e8d28c5d62735251ac19e1bc4c41e73e1e80fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 083/126] fix: energy of bodies attached by fixed joints and in
 the order-n equations

---
 pymbs/input/sensors.py                    |  5 +++
 pymbs/input/transformation.py             |  7 +++--
 pymbs/processing/sensors/energy_sensor.py | 37 ++++++++++++++---------
 3 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/pymbs/input/sensors.py b/pymbs/input/sensors.py
index be41816..97019c7 100644
--- a/pymbs/input/sensors.py
+++ b/pymbs/input/sensors.py
@@ -60,4 +60,9 @@ class EnergySensor(MbsInputElement):
         self.name = name
         self.body = body
         self.symb = symb
+
+        # Properties of the body itself (bodies may be merged later on)
+        self.mass = body.mass
+        self.cg = body.cg
+        self.inertia = body.inertia
         self.category = category
diff --git a/pymbs/input/transformation.py b/pymbs/input/transformation.py
index 13c922c..8915bbf 100644
--- a/pymbs/input/transformation.py
+++ b/pymbs/input/transformation.py
@@ -443,11 +443,12 @@ def convertSensors(sensorList):
     # process energy sensors
     for eS in energySensorList:
         name = eS.name
-        newBody = eS.body.referenceToNew;
-        assert not newBody == None
+        newCS = eS.body._CS_0.referenceToNew
+        assert not newCS == None
         symb = eS.symb
         cat = eS.category
-        newSensor = pSensors.EnergySensor(name, newBody, symb, _gravity, cat)
+        newSensor = pSensors.EnergySensor(name, newCS, eS.mass, eS.cg,
+                                          eS.inertia, symb, _gravity, cat)
         newSensorList.append(newSensor)
 
 
diff --git a/pymbs/processing/sensors/energy_sensor.py b/pymbs/processing/sensors/energy_sensor.py
index 5fafbd6..6452d95 100644
--- a/pymbs/processing/sensors/energy_sensor.py
+++ b/pymbs/processing/sensors/energy_sensor.py
@@ -1,6 +1,6 @@
-from pymbs.processing import Body
+from pymbs.processing import Frame
 from pymbs.processing.sensors.sensor import Sensor
-from pymbs.common.functions import transpose
+from pymbs.common.functions import transpose, skew
 
 import pymbs.symbolics as sym
 
@@ -10,17 +10,22 @@ class EnergySensor(Sensor):
     Obtain the potential and kinetic energy of a body
     '''
 
-    def __init__(self, name, body, symbol, gravity, category=sym.VarKind.Sensor):
+    def __init__(self, name, frame, mass, cg, inertia, symbol, gravity, category=sym.VarKind.Sensor):
         '''
         Constructor
+        frame: Frame of the Body
+        mass, cg, inertia: Properties of the Body (w.r.t. frame)
         '''
 
-        assert( isinstance(body, Body) )
+        assert( isinstance(frame, Frame) )
 
         # Call Constructor of Super Class
-        Sensor.__init__(self, name, body.CS_0, body.CS_0, symbol, None, category)
+        Sensor.__init__(self, name, frame, frame, symbol, None, category)
         self.gravity = gravity
-        self.body = body
+        self.frame = frame
+        self.mass = mass
+        self.cg = cg
+        self.inertia = inertia
 
     def calc(self, graph):
         '''
@@ -28,23 +33,27 @@ class EnergySensor(Sensor):
         '''
         assert( graph is not None )
 
+        self.check()
+
         # get mass and Inertia of body
-        m = self.body.mass
-        I = self.body.inertia
+        m = self.mass
+        I = self.inertia
+
+        # get state of motion of the centre of gravity
+        I_l = self.frame.I_R*self.cg
+        I_ldot = self.frame.I_v + skew(self.frame.I_om)*I_l
+        K_om = transpose(self.frame.I_R)*self.frame.I_om
 
         # get potential Energy
-        assert self.body.I_l is not None, 'Position of Body "%s" has not been calculated!'%self.body
-        E_pot = -m*transpose(self.gravity)*self.body.I_l
+        E_pot = -m*transpose(self.gravity)*(self.frame.I_r + I_l)
 
         # get kinetic energy
-        assert self.body.I_ldot is not None, 'Velocity of Body "%s" has not been calculated!'%self.body
-        E_kin = 0.5*m*transpose(self.body.I_ldot)*self.body.I_ldot + \
-                0.5*transpose(self.body.K_om)*I*self.body.K_om
+        E_kin = 0.5*m*transpose(I_ldot)*I_ldot + 0.5*transpose(K_om)*I*K_om
 
         # Total Energy
         E = E_pot + E_kin
         if isinstance(E, sym.Matrix):
-            assert E.shape == (1,1)
+            assert E.shape() in ((1,), (1,1))
             E = E[0]
 
         self.writeResult(graph, E)
-- 
2.43.0


From 61817cad62498c08aae317e29724408730065329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 084/126] fix: loads between a frame and itself in recursive
 equations

---
 pymbs/processing/loads/load.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pymbs/processing/loads/load.py b/pymbs/processing/loads/load.py
index 0389726..858fff3 100644
--- a/pymbs/processing/loads/load.py
+++ b/pymbs/processing/loads/load.py
@@ -41,9 +41,11 @@ class Load(MbsElement):
         self.ref = ref
 
         # Connect to Parent and Child Coordinate System
-        parent.loads.append(self)
-        if (child is not None):
-            child.loads.append(self)
+        # (action and reaction on the same Coordinate System cancel out)
+        if (child is not parent):
+            parent.loads.append(self)
+            if (child is not None):
+                child.loads.append(self)
 
 
     def calc(self, graph = None, states = None):
-- 
2.43.0


From d36e9e0776b356fe6c0acc7aa87d530a28f83867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 085/126] fix: accelerations in the order-n equations do not
 contain gravity

---
 pymbs/processing/generator_order_n.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index cf24a82..99733c0 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -995,7 +995,7 @@ class Generator_OrderN(Generator):
 
             b._a = graph.addEquation(A%b.name, b._RR*p._a + b._a_star + b._e*qdd[i]) # (22)
             graph.addEquation(b.K_al, b._a[0:3])
-            graph.addEquation(b.I_a, b.I_R*b._a[3:6])
+            graph.addEquation(b.I_a, b.I_R*b._a[3:6] + self.g)   # _a contains the gravitational acceleration
 
             if isinstance(b,FlexibleBody):
                 # calculate the flexible accelerations
-- 
2.43.0


From d7b315bad041209bc30504d5a954a4700954b0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 086/126] fix: crank slider given in either order, numeric
 bars, velocities and accelerations

---
 pymbs/processing/loops/crank_slider.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymbs/processing/loops/crank_slider.py b/pymbs/processing/loops/crank_slider.py
index 1ff23e6..965aeb7 100644
--- a/pymbs/processing/loops/crank_slider.py
+++ b/pymbs/processing/loops/crank_slider.py
@@ -61,7 +61,7 @@ class CrankSlider(Loop):
         if j2.coordSys.parentBody.joint is None:
             j1 = csBb.parentBody.joint
             j2 = csBa.parentBody.joint
-            j3 = j1.coordSys.parentBody.joint
+            j3 = j2.coordSys.parentBody.joint
             csB1 = csBb
             csB2 = csBa
         else:
@@ -221,11 +221,11 @@ class CrankSlider(Loop):
         # Length of bars
         l1_vec = self.csB1.p
         l1_vec2 = self.pick*l1_vec
-        l1 = graph.addEquation(L1 % self.name, sqrt((transpose(l1_vec2)*l1_vec2)[0]))
+        l1 = graph.addEquation(L1 % self.name, sqrt(transpose(l1_vec2)*l1_vec2))
 
         l2_vec = self.csB2.p
         l2_vec2 = self.pick*l2_vec
-        l2 = graph.addEquation(L2 % self.name, sqrt((transpose(l2_vec2)*l2_vec2)[0]))
+        l2 = graph.addEquation(L2 % self.name, sqrt(transpose(l2_vec2)*l2_vec2))
 
         # Calculate v
         alpha = graph.addEquation(AL % self.name, asin((l1/l2)*sin(q1)))
@@ -235,9 +235,9 @@ class CrankSlider(Loop):
 
         alphad = q3d
 
-        Bvu = Matrix([[-l1*sin(alpha+q1)/cos(alpha)], [l1*cos(q1)/(l2*cos(alpha))]])
+        Bvu = Matrix([[-l1*sin(q1-alpha)/cos(alpha)], [l1*cos(q1)/(l2*cos(alpha))]])
 
-        b_prime = Matrix([-l1*q1d*(2*alphad*cos(q1)+q1d*cos(q1)+q1d*cos(2*alpha+q1))/(2*cos(alpha)*cos(alpha)),
+        b_prime = Matrix([-l1*q1d*(q1d*cos(q1-alpha)*cos(alpha)-alphad*cos(q1))/(cos(alpha)*cos(alpha)),
                           (-l1*q1d*q1d*cos(alpha)*sin(q1)+l1*alphad*q1d*cos(q1)*sin(alpha))/(l2*cos(alpha)*cos(alpha))])
 
         return ([v0, v1], Bvu, b_prime)
-- 
2.43.0


From a2c001207ceec189bf824d3419acd4bccba590a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 087/126] fix: four-bar and three-bar linkages in aligned
 postures and with offsets out of the plane

---
 pymbs/processing/loops/fourbar.py        | 10 +++++-----
 pymbs/processing/loops/fourbar_trans.py  |  2 +-
 pymbs/processing/loops/threebar_trans.py |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pymbs/processing/loops/fourbar.py b/pymbs/processing/loops/fourbar.py
index 62b58d3..95db234 100644
--- a/pymbs/processing/loops/fourbar.py
+++ b/pymbs/processing/loops/fourbar.py
@@ -176,22 +176,22 @@ class FourBar(Loop):
         # Length of bars and angle between x-axis and bar
         l1_vec = self.jD.coordSys.p - self.jA.coordSys.p
         l1_vec2 = self.pick*l1_vec
-        l1 = graph.addEquation(L1%self.name, sqrt((transpose(l1_vec)*l1_vec)))
+        l1 = graph.addEquation(L1%self.name, sqrt((transpose(l1_vec2)*l1_vec2)))
         alpha = graph.addEquation(AL%self.name, s*atan2(l1_vec2[1],l1_vec2[0]))
 
         l2_vec = self.jB.coordSys.p
         l2_vec2 = self.pick*l2_vec
-        l2 = graph.addEquation(L2%self.name, sqrt((transpose(l2_vec)*l2_vec)))
+        l2 = graph.addEquation(L2%self.name, sqrt((transpose(l2_vec2)*l2_vec2)))
         beta = graph.addEquation(BE%self.name, s*atan2(l2_vec2[1],l2_vec2[0]))
 
         l3_vec = self.csC3.p
         l3_vec2 = self.pick*l3_vec
-        l3 = graph.addEquation(L3%self.name, sqrt((transpose(l3_vec)*l3_vec)))
+        l3 = graph.addEquation(L3%self.name, sqrt((transpose(l3_vec2)*l3_vec2)))
         gamma = graph.addEquation(GA%self.name, s*atan2(l3_vec2[1],l3_vec2[0]))
 
         l4_vec = self.csC4.p
         l4_vec2 = self.pick*l4_vec
-        l4 = graph.addEquation(L4%self.name, sqrt((transpose(l4_vec)*l4_vec)))
+        l4 = graph.addEquation(L4%self.name, sqrt((transpose(l4_vec2)*l4_vec2)))
         delta = graph.addEquation(DE%self.name, s*atan2(l4_vec2[1],l4_vec2[0]))
 
         # angle between bars
@@ -209,7 +209,7 @@ class FourBar(Loop):
 
         # Calculate v
         theta_prime = graph.addEquation(THETA%self.name, 2*atan((P5-self.posture*sqrt(P4**2+P5**2-P6**2))/(P4-P6)))
-        psi_prime = graph.addEquation(PSI%self.name, ((l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime))/abs(l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime)))*acos((l2*cos(phi_prime)+l3*cos(phi_prime+theta_prime)-l1)/l4))
+        psi_prime = graph.addEquation(PSI%self.name, atan2(l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime), l2*cos(phi_prime)+l3*cos(phi_prime+theta_prime)-l1))
 
         v1 = (psi_prime + alpha - delta)
         v0 = (theta_prime + beta - gamma)
diff --git a/pymbs/processing/loops/fourbar_trans.py b/pymbs/processing/loops/fourbar_trans.py
index e9f322b..505a0ff 100644
--- a/pymbs/processing/loops/fourbar_trans.py
+++ b/pymbs/processing/loops/fourbar_trans.py
@@ -232,7 +232,7 @@ class FourBarTrans(Loop):
         P2 = graph.addEquation(B%self.name, -2*l2*l4*sin(phi_prime))
         P3 = graph.addEquation(C%self.name, l1**2+l2**2-l3**2+l4**2-2*l1*l2*cos(phi_prime))
 
-        psi_prime = graph.addEquation(PSI%self.name, ((l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime))/abs(l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime)))*acos((l2*cos(phi_prime)+l3*cos(phi_prime+theta_prime)-l1)/l4))
+        psi_prime = graph.addEquation(PSI%self.name, atan2(l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime), l2*cos(phi_prime)+l3*cos(phi_prime+theta_prime)-l1))
 
         v1 = (psi_prime + alpha - delta)
         v0 = (l4)
diff --git a/pymbs/processing/loops/threebar_trans.py b/pymbs/processing/loops/threebar_trans.py
index 9271fc4..b79dc1b 100644
--- a/pymbs/processing/loops/threebar_trans.py
+++ b/pymbs/processing/loops/threebar_trans.py
@@ -207,7 +207,7 @@ class ThreeBarTrans(Loop):
 
         # Calculate v
         l3 = graph.addEquation(L3%self.name, sqrt(l1**2+l2**2-2*l1*l2*cos(phi_prime)))
-        psi_prime = graph.addEquation(PSI%self.name, pi-sin(phi_prime)/abs(sin(phi_prime))*acos((l1**2+l3**2-l2**2)/(2*l1*l3)))
+        psi_prime = graph.addEquation(PSI%self.name, pi-atan2(l2*sin(phi_prime), l1-l2*cos(phi_prime)))
 
 
         # TODO: qsi_prime, psi
-- 
2.43.0


From e81df51bac6a03a1834bee1d99043c52bb9063aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 088/126] fix: accelerations measured in order-n equations
 contain the constraint forces

---
 pymbs/processing/generator_order_n.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 99733c0..cf15c4f 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -994,8 +994,9 @@ class Generator_OrderN(Generator):
                     qdd[i] = graph.addEquation(qdd_i, (1/b._rho)*(transpose(b._e)*b._d_hat + b._Q - transpose(b._e)*b._J_hat*(b._a_star + b._RR*p._a) ) )   # (26)
 
             b._a = graph.addEquation(A%b.name, b._RR*p._a + b._a_star + b._e*qdd[i]) # (22)
-            graph.addEquation(b.K_al, b._a[0:3])
-            graph.addEquation(b.I_a, b.I_R*b._a[3:6] + self.g)   # _a contains the gravitational acceleration
+            if (not self.hasKinematicLoops):
+                graph.addEquation(b.K_al, b._a[0:3])
+                graph.addEquation(b.I_a, b.I_R*b._a[3:6] + self.g)   # _a contains the gravitational acceleration
 
             if isinstance(b,FlexibleBody):
                 # calculate the flexible accelerations
@@ -1064,6 +1065,13 @@ class Generator_OrderN(Generator):
             # Adjust Accelerations
             qdd = graph.addEquation('int_qdd', qdd_star + Gamma_sym*gamma_sol)
 
+            # The constraint forces contribute to the accelerations of the bodies
+            for j in joints:
+                b = j.body
+                a = graph.addEquation(A%b.name + '_all', b._a + b._a_gamma*gamma_sol)
+                graph.addEquation(b.K_al, a[0:3])
+                graph.addEquation(b.I_a, b.I_R*a[3:6] + self.g)   # a contains the gravitational acceleration
+
             # in case of loops, extract only the independent qdd
             if (len(self.w) > 0):
                 # save all joint-accelerations
-- 
2.43.0


From 176554f93eca55d3d4823333a3a9187015cdccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 089/126] fix: four-bar linkages in order-n equations, states
 of explicit equations for kinematics only

---
 pymbs/processing/generator.py          | 37 ++++++++++++++++++++++----
 pymbs/processing/generator_explicit.py |  1 +
 pymbs/processing/generator_order_n.py  | 30 ++-------------------
 3 files changed, 35 insertions(+), 33 deletions(-)

diff --git a/pymbs/processing/generator.py b/pymbs/processing/generator.py
index 8d82d5a..efd0687 100644
--- a/pymbs/processing/generator.py
+++ b/pymbs/processing/generator.py
@@ -1,7 +1,7 @@
 from pymbs.common.mbselement import MbsElement
 from pymbs.common.state import State
 
-from pymbs.common.functions import transpose, element, norm
+from pymbs.common.functions import transpose, element, norm, scalar_if_possible, der
 
 from pymbs.processing.sensors.sensor import Sensor
 from pymbs.processing.loops.loop import Loop
@@ -10,7 +10,7 @@ from pymbs.processing.loads.constraint import Constraint
 from pymbs.processing import Body
 
 import pymbs.symbolics as symbolics
-from pymbs.symbolics import jacobian
+from pymbs.symbolics import jacobian, VarKind
 
 
 omega = 'int_omega_%s'
@@ -335,11 +335,37 @@ class Generator(MbsElement):
             graph.addEquation(None,p)
 
 
-    def handleLoops(self, graph):
+    def defineStates(self):
+        '''
+        Generate equations for q, qd and qdd if self.kinematicsOnly
+        '''
+
+        assert self.kinematicsOnly == True
+
+        graph = self.graph
+
+        # Define State variables
+        q = graph.addVariable(name='q', shape=self.reduce_shape( self.q.shape() ), initialValue=scalar_if_possible(self.q0) )
+        qd = graph.addVariable(name='qd', shape=self.reduce_shape( self.qd.shape() ), initialValue=scalar_if_possible(self.qd0) )
+        qdd = graph.addVariable(name='qdd', shape=self.reduce_shape( self.qdd.shape() ),varKind=VarKind.Input)
+
+        # Make a relation between vector q and its elements
+        graph.addEquation(self.state.q, q)
+        graph.addEquation(self.state.qd, qd)
+        graph.addEquation(self.state.qdd, qdd)
+
+        # Define q and qd as states
+        graph.addEquation(der(q), qd)
+        graph.addEquation(der(qd), qdd)
+
+    def handleLoops(self, graph, accelerations=True):
         '''
         return J and d_prime, such that
         pdd = J*qdd + d_prime
 
+        accelerations: whether equations for the accelerations of the
+            dependent coordinates are written
+
         p: Vector of All Generalised Positions
         q: Vector of independent Positions of all Loops
         w: Vector of dependent Positions of all Loops
@@ -458,8 +484,9 @@ class Generator(MbsElement):
                 wd_pick = symbolics.Matrix((1,len(loop.v)))
                 wd_pick[0,i] = 1
                 graph.addEquation(loop.vd[i], (wd_pick*Bwu_loc*symbolics.Matrix(loop.ud))[0])
-                tmp = (wd_pick*(Bwu_loc*symbolics.Matrix(loop.udd)+b_prime_loc))
-                graph.addEquation(loop.vdd[i], tmp[0])
+                if accelerations:
+                    tmp = (wd_pick*(Bwu_loc*symbolics.Matrix(loop.udd)+b_prime_loc))
+                    graph.addEquation(loop.vdd[i], tmp[0])
 
             # Assemble J
             Jpq = jacobian(qa_mat, qe_mat)
diff --git a/pymbs/processing/generator_explicit.py b/pymbs/processing/generator_explicit.py
index 49d9f74..f45de53 100644
--- a/pymbs/processing/generator_explicit.py
+++ b/pymbs/processing/generator_explicit.py
@@ -42,6 +42,7 @@ class Generator_Explicit(Generator):
 
         if (self.kinematicsOnly):
             self.handleLoops(graph)
+            self.defineStates()
         else:
             # Obtain Equations
             print(self.q, self.q.__class__)
diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index cf15c4f..445bdbe 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -1043,11 +1043,8 @@ class Generator_OrderN(Generator):
                 HR = jacobian(Matrix(self.u), self.q)
                 HL = jacobian(Matrix(self.w), self.q)
 
-                # Temporarily set self.kinematicsOnly = True, so that no acceleration data is written
-                tmp = self.kinematicsOnly
-                self.kinematicsOnly = True
-                J, d = self.handleLoops(graph)
-                self.kinematicsOnly = tmp
+                # All accelerations are calculated below
+                J, d = self.handleLoops(graph, accelerations=False)
 
                 # Transform J and d
                 J = graph.addEquation( 'int_J', HL*(J*HR-eye(n)) )
@@ -1233,29 +1230,6 @@ class Generator_OrderN(Generator):
         # return index
         return index
 
-    def defineStates(self):
-        '''
-        Generate equations for q, qd and qdd if self.kinematicsOnly
-        '''
-
-        assert self.kinematicsOnly == True
-
-        graph = self.graph
-
-        # Define State variables
-        q = graph.addVariable(name='q', shape=self.reduce_shape( self.q.shape() ), initialValue=scalar_if_possible(self.q0) )
-        qd = graph.addVariable(name='qd', shape=self.reduce_shape( self.qd.shape() ), initialValue=scalar_if_possible(self.qd0) )
-        qdd = graph.addVariable(name='qdd', shape=self.reduce_shape( self.qdd.shape() ),varKind=VarKind.Input)
-
-        # Make a relation between vector q and its elements
-        graph.addEquation(self.state.q, q)
-        graph.addEquation(self.state.qd, qd)
-        graph.addEquation(self.state.qdd, qdd)
-
-        # Define q and qd as states
-        graph.addEquation(der(q), qd)
-        graph.addEquation(der(qd), qdd)
-
     def get_SID_matrix(self,arg,bname,M0,M1,body):
         '''
         create matrices from SID-File
-- 
2.43.0


From ab6e0ca95d0a383a2788e7b1c097538892ec29b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 090/126] fix: components of choices between matrices

---
 symbolics/functions/Element.cpp    | 20 ++++++++++++++++++++
 symbolics/graph/EquationSystem.cpp | 10 ++++++++++
 2 files changed, 30 insertions(+)

diff --git a/symbolics/functions/Element.cpp b/symbolics/functions/Element.cpp
index 9d9349c..0a45517 100644
--- a/symbolics/functions/Element.cpp
+++ b/symbolics/functions/Element.cpp
@@ -8,6 +8,7 @@
 #include "Skew.h"
 #include "Add.h"
 #include "Mul.h"
+#include "If.h"
 #include "str.h"
 
 using namespace Symbolics;
@@ -180,6 +181,11 @@ BasicPtr Element::simplify()
        }
        return BasicPtr(new Add(args));
     }
+  case Type_If:
+    {
+      const If *i = Util::getAsConstPtr<If>(getArg(0));
+      return If::New(i->getArg(0),New(i->getArg(1),m_row,m_col),New(i->getArg(2),m_row,m_col));
+    }
   case Type_Mul:
     {
       Scalarizer sc;
@@ -293,6 +299,11 @@ BasicPtr Element::New( BasicPtr const& arg, size_t zeroBasedRow, size_t zeroBase
        }
        return BasicPtr(new Add(args));;
     }
+  case Type_If:
+    {
+      const If *i = Util::getAsConstPtr<If>(arg);
+      return If::New(i->getArg(0),New(i->getArg(1),zeroBasedRow,zeroBasedCol),New(i->getArg(2),zeroBasedRow,zeroBasedCol));
+    }
   case Type_Mul:
     {
       Scalarizer sc;
@@ -330,6 +341,15 @@ BasicPtr Element::Scalarizer::process_Arg(BasicPtr const &p)
     scalars[p] = matpr;
     return matpr;
   }
+  if ((p->getType() == Type_If) && !p->is_Scalar())
+  {
+    Matrix *mat = new Matrix(p->getShape());
+    BasicPtr matpr(mat);
+    for(size_t i=0;i<p->getShape().getDimension(1);++i)
+      for(size_t j=0;j<p->getShape().getDimension(2);++j)
+        mat->set(i,j, Element::New(p,i,j));
+    return matpr;
+  }
   return p;
 }
 /*****************************************************************************/
diff --git a/symbolics/graph/EquationSystem.cpp b/symbolics/graph/EquationSystem.cpp
index f02ab8c..7b1999a 100644
--- a/symbolics/graph/EquationSystem.cpp
+++ b/symbolics/graph/EquationSystem.cpp
@@ -722,6 +722,16 @@ BasicPtr EquationSystem::SymbolRepl::process_Arg(BasicPtr const &p)
     if (ii != m_symbolmap.end())
       return ii->second;
   }
+  // a choice between matrices is a matrix of choices
+  if ((p->getType() == Type_If) && !p->is_Scalar())
+  {
+    Matrix *mat = new Matrix(p->getShape());
+    BasicPtr matpr(mat);
+    for(size_t i=0;i<p->getShape().getDimension(1);++i)
+      for(size_t j=0;j<p->getShape().getDimension(2);++j)
+        mat->set(i,j, Element::New(p,i,j));
+    return matpr;
+  }
   return p;
 }
 /*****************************************************************************/
-- 
2.43.0


From 2f7e78c39d35a4d34a4486f425bf08405982f23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 091/126] fix: makeScalar: parameters and constants are
 initialised as a whole

---
 symbolics/graph/EquationSystem.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/symbolics/graph/EquationSystem.cpp b/symbolics/graph/EquationSystem.cpp
index 7b1999a..9d0d543 100644
--- a/symbolics/graph/EquationSystem.cpp
+++ b/symbolics/graph/EquationSystem.cpp
@@ -658,6 +658,20 @@ EquationSystemPtr EquationSystem::makeScalar()
 
          std::string s2 = lhs->toString() + " = " + rhs->toString();
 
+        // parameters and constants are initialised as a whole
+        BasicPtr whole = (*e)->getLhs(l);
+        if ((whole->getType() == Type_Symbol) && !whole->is_Scalar() &&
+          (Util::getAsConstPtr<Symbol>(whole)->getKind() & (PARAMETER | CONSTANT)))
+        {
+          Matrix *mat = new Matrix(whole->getShape());
+          BasicPtr value(mat);
+          for(size_t i=0;i<whole->getShape().getDimension(1);++i)
+            for(size_t j=0;j<whole->getShape().getDimension(2);++j)
+              mat->set(i,j,rhs->is_Scalar() ? rhs : Element::New(rhs,i,j)->simplify());
+          eqsys->addEquation(whole,value,false);
+          continue;
+        }
+
         // no variable to solve for is known
         if ((*e)->getSolveFor().size() == 0)
         {
-- 
2.43.0


From eb8a845e7ed9e96e5f7d3216f35ed5a937327a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 092/126] fix: systems of equations are never inlined

---
 symbolics/graph/PastOptimisation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symbolics/graph/PastOptimisation.cpp b/symbolics/graph/PastOptimisation.cpp
index 3fc6c87..f417101 100644
--- a/symbolics/graph/PastOptimisation.cpp
+++ b/symbolics/graph/PastOptimisation.cpp
@@ -97,6 +97,9 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
             return;
           }
         }
+        // a system of equations stays an assignment of its own
+        if (exp->getType() == Type_Solve)
+          return;
         Basic::BasicSet atoms = exp->getAtoms();
         //double t2 = Graph::Util::getTime() - t1;
         //removed = removed>t2?removed:t2;
-- 
2.43.0


From c0bcedebe32a51ad8853bfe7adb031b9b8938902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 093/126] fix: functions of parameters only are not replaced by
 variables

---
 symbolics/graph/PreOptimisation.cpp       | 18 ++++++++++++++++++
 symbolics/graph/include/PreOptimisation.h |  4 +++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/symbolics/graph/PreOptimisation.cpp b/symbolics/graph/PreOptimisation.cpp
index 7953988..f1a2aab 100644
--- a/symbolics/graph/PreOptimisation.cpp
+++ b/symbolics/graph/PreOptimisation.cpp
@@ -41,6 +41,24 @@ void PreOptimisation::optimize()
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+bool PreOptimisation::isFixed(BasicPtr const& exp)
+/*****************************************************************************/
+{
+  // parameters and constants may depend on such expressions,
+  // but not on the variables which would replace them
+  Basic::BasicSet atoms = exp->getAtoms();
+  for (Basic::BasicSet::iterator ii=atoms.begin();ii!=atoms.end();++ii)
+  {
+    if ((*ii)->getType() != Type_Symbol)
+      continue;
+    if (!(Util::getAsConstPtr<Symbol>(*ii)->getKind() & (PARAMETER | CONSTANT)))
+      return false;
+  }
+  return true;
+}
+/*****************************************************************************/
+
 std::string sin_str="sin";
 std::string cos_str="cos";
 std::string atan_str="atan";
diff --git a/symbolics/graph/include/PreOptimisation.h b/symbolics/graph/include/PreOptimisation.h
index bb3b64c..4e442dd 100644
--- a/symbolics/graph/include/PreOptimisation.h
+++ b/symbolics/graph/include/PreOptimisation.h
@@ -63,7 +63,7 @@ namespace Symbolics
               size_t n=0;
               for (ii =repl.begin(); ii != re;++ii)
               {
-                if (ii->second > 1)
+                if ((ii->second > 1) && !isFixed(ii->first))
                 {
                   std::string name = Basic_TypetoStr(type);
                   if (ii->first->getArg(0)->getType() == Type_Symbol)
@@ -80,6 +80,8 @@ namespace Symbolics
                 }
               }
             };
+            // is the value given by parameters and constants only?
+            static bool isFixed(BasicPtr const& exp);
             std::string& Basic_TypetoStr(Basic_Type const& t);
         };
 /*****************************************************************************/
-- 
2.43.0


From 890bf4031f1243dfd19da45c7a53209b03ea52ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 094/126] fix: names of common subexpressions are unique

---
 symbolics/graph/include/PreOptimisation.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symbolics/graph/include/PreOptimisation.h b/symbolics/graph/include/PreOptimisation.h
index 4e442dd..e47d257 100644
--- a/symbolics/graph/include/PreOptimisation.h
+++ b/symbolics/graph/include/PreOptimisation.h
@@ -71,8 +71,9 @@ namespace Symbolics
                   else
                     name += str(n++);
                   // check for free name
-                  if (m_eqsys->hasSymbol(name))
-                    name += str(n++);
+                  std::string base = name;
+                  while (m_eqsys->hasSymbol(name))
+                    name = base + str(n++);
                   SymbolPtr sp(new Symbol(name,ii->first->getShape()));
                   m_eqsys->addSymbol(sp);
                   ii->first->subs(sp);
-- 
2.43.0


From 1fee1c26e2ef17e3fc2fc74eb3d5ddc6923e2fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 095/126] fix: CWriter: constants are declared before
 parameters

---
 symbolics/writer/CWriter.cpp | 40 ++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 453d715..e01300b 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -135,16 +135,16 @@ double CWriter::generateDerState(Graph::Graph& g, int &dim)
 	}
 	f << std::endl; 
 
-	f << "/* Parameters */" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
-	f << std::endl;
-
 	f << "/* Constants */" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << "/* Parameters */" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
+	f << std::endl;
+
 	f << "/* User Expression variables */" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
 		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
@@ -245,16 +245,16 @@ double CWriter::generateVisual(Graph::Graph& g)
 	}
 	f << std::endl; 
 
-	f << "/* Parameters */" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
-	f << std::endl;
-
 	f << "/* Constants */" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << "/* Parameters */" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
+	f << std::endl;
+
 	f << "/* User Expression variables */" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
 		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
@@ -354,16 +354,16 @@ double CWriter::generateSensors(Graph::Graph& g)
 	}
 	f << std::endl; 
 
-	f << "/* Parameters */" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
-	f << std::endl;
-
 	f << "/* Constants */" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << "/* Parameters */" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
+	f << std::endl;
+
 	f << "/* User Expression variables */" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
 		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
@@ -914,16 +914,16 @@ double CWriter::generateAll(Graph::Graph& g, int &dim)
           << m_p->print(Zero::getZero(states.at(i)->getShape())) << ";" << std::endl;	
 	}
 
-	f << "/* Parameters */" << std::endl;
-	for (Graph::VariableVec::iterator it=parameters.begin();it!=parameters.end();++it)
-		f << "    const double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
-	f << std::endl;
-
 	f << "/* Constants */" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "    const double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << "/* Parameters */" << std::endl;
+	for (Graph::VariableVec::iterator it=parameters.begin();it!=parameters.end();++it)
+		f << "    const double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
+	f << std::endl;
+
 	f << "/* User Expression variables */" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
 		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
-- 
2.43.0


From 0a4f18617bf12c967e08fe492cdb37608cc88ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 096/126] fix: CWriter: systems of equations and matrix
 assignments component by component

---
 symbolics/writer/CWriter.cpp       | 30 +++++++++++++++++++++++++++---
 symbolics/writer/include/CWriter.h |  1 +
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index e01300b..9ece540 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -414,6 +414,22 @@ std::string CWriter::outArgument(SymbolPtr const& s) const
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+BasicPtr CWriter::components(BasicPtr const& exp) const
+/*****************************************************************************/
+{
+	// matrix expressions have to be written component by component
+	if (exp->is_Scalar() || (exp->getType() == Type_Matrix))
+		return exp;
+	Matrix *mat = new Matrix(exp->getShape());
+	BasicPtr ret(mat);
+	for (size_t i=0; i < exp->getShape().getDimension(1); ++i)
+		for (size_t j=0; j < exp->getShape().getDimension(2); ++j)
+			mat->set(i, j, Element::New(exp, i, j)->simplify());
+	return ret;
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 std::string CWriter::writeEquations(std::vector<Graph::Assignment> const& equations) const
 /*****************************************************************************/
@@ -438,10 +454,18 @@ std::string CWriter::writeEquations(std::vector<Graph::Assignment> const& equati
 				int dim = solve->getArg2()->getShape().getDimension(1);
 				m_solveDim = std::max(m_solveDim, dim);
 				s << "    {" << std::endl;
-				s << "        double solve_A[" << dim << "][" << dim << "] = " << m_p->print(solve->getArg1()) << ";" << std::endl;
-				s << "        double solve_b[" << dim << "] = " << m_p->print(solve->getArg2()) << ";" << std::endl;
-				s << "        legs(" << dim << ", &solve_A[0][0], solve_b, " << m_p->print(it->lhs[i]->getArg(0)->getArg(0)) << ");" << std::endl;
+				s << "        double solve_A[" << dim << "][" << dim << "] = " << m_p->print(components(solve->getArg1())) << ";" << std::endl;
+				s << "        double solve_b[" << dim << "] = " << m_p->print(components(solve->getArg2())) << ";" << std::endl;
+				s << "        double solve_x[" << dim << "];" << std::endl;
+				s << "        legs(" << dim << ", &solve_A[0][0], solve_b, solve_x);" << std::endl;
+				for (int j=0; j < dim; ++j)
+					s << "        " << m_p->print(Element::New(it->lhs[i], j, 0)) << " = solve_x[" << j << "];" << std::endl;
 				s << "    }" << std::endl;
+			} else if (!it->lhs[i]->is_Scalar()) {
+				// several components at once
+				for (size_t j=0; j < it->lhs[i]->getShape().getDimension(1); ++j)
+					for (size_t k=0; k < it->lhs[i]->getShape().getDimension(2); ++k)
+						s << "    " << m_p->print(Element::New(it->lhs[i], j, k)) << " = " << m_p->print(Element::New(simple_exp, j, k)->simplify()) << ";" << std::endl;
 			} else {
 				// ordinary equation
 				s << "    " << m_p->print(it->lhs[i]) << " = " << m_p->print(simple_exp) << ";" << std::endl;
diff --git a/symbolics/writer/include/CWriter.h b/symbolics/writer/include/CWriter.h
index c189d8f..5a87d33 100644
--- a/symbolics/writer/include/CWriter.h
+++ b/symbolics/writer/include/CWriter.h
@@ -22,6 +22,7 @@ namespace Symbolics
 
 		std::string writeEquations(std::vector<Graph::Assignment> const& equations) const;
 		std::string outArgument(SymbolPtr const& s) const;
+		BasicPtr components(BasicPtr const& exp) const;
 		double generateFunctionmodule(int n);
 
 		mutable int m_solveDim; // dimension of the largest system of equations written so far
-- 
2.43.0


From 29b82fee7c4c5ec4cd29f87dcbe549eededa4add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 097/126] fix: constants of Fortran programs are declared as
 such and before the parameters

---
 symbolics/writer/FortranWriter.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index fec3be8..47e3bde 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -112,16 +112,16 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 		f << "    double precision, intent(in)" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
     
+	f << "!Constants" << std::endl;
+	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
+        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+	f << std::endl;
+
 	f << "!Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
 		f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
-	f << "!Constants" << std::endl;
-	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, constant" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
-	f << std::endl;
-
 	f << "!User Expression variables" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
         f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
@@ -248,16 +248,16 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 		f << "    double precision, intent(in)" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
     
+	f << "!Constants" << std::endl;
+	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
+        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+	f << std::endl;
+
 	f << "!Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
 		f << "    double precision, parameter"          << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
-	f << "!Constants" << std::endl;
-	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, constant" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
-	f << std::endl;
-
 	f << "!User Expression variables" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
         f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
@@ -366,16 +366,16 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	f << std::endl;
 
     
+	f << "!Constants" << std::endl;
+	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
+        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+	f << std::endl;
+
 	f << "!Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
 		f << "    double precision, parameter"          << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
-	f << "!Constants" << std::endl;
-	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, constant" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
-	f << std::endl;
-
 	f << "!User Expression variables" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
         f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
-- 
2.43.0


From ed90cda98c621c16348e3e6b6bb0cb524bfd9ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 098/126] fix: dimension of parameters in the sensor and
 graphics subroutines of Fortran programs

---
 symbolics/writer/FortranWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 47e3bde..ec57461 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -255,7 +255,7 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 
 	f << "!Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double precision, parameter"          << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
+		f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
@@ -373,7 +373,7 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 
 	f << "!Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double precision, parameter"          << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
+		f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
-- 
2.43.0


From 51a55c1ee120e94fa45fbb26b5bcbbe1bcc2b9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 099/126] fix: Fortran programs with several systems of
 equations for scalars

---
 symbolics/writer/FortranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index ec57461..86ca06f 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -459,7 +459,7 @@ std::string FortranWriter::writeEquations(std::vector<Graph::Assignment> const&
 					s << "    temp_var_" << additionalVarDefs.size() << " = " << m_p->print(simple_exp) << std::endl; 
 					for (size_t j=0; j < mat->getShape().getDimension(1); j++)
 						for (size_t k=0; k < mat->getShape().getDimension(2); k++)
-							s << "    " << m_p->print(mat->get(j,k)) << " = temp_var_1(" << j+1<< "," << k+1 << ")" << std::endl;
+							s << "    " << m_p->print(mat->get(j,k)) << " = temp_var_" << additionalVarDefs.size() << "(" << j+1<< "," << k+1 << ")" << std::endl;
 				}
 			} else {
 				// ordinary equation
-- 
2.43.0


From c2afe8bbea69bf0a702b47a1c66a68650ccbf557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:48 +0000
Subject: [PATCH 100/126] fix: parameters and constants of Fortran programs are
 assigned, their values need not be constant expressions of that language

---
 symbolics/writer/FortranWriter.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 86ca06f..94628fa 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -114,12 +114,12 @@ double FortranWriter::generateDerState(Graph::Graph& g)
     
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
+		f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
@@ -138,6 +138,12 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 	// schreiben der Equations bekannt sind. Es ist in C++ nicht m�glich nachtr�glich etwas in einen Stream einzuf�gen
 	std::stringstream fss;
 
+	fss << "!values of constants and parameters" << std::endl;
+	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
+		fss << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		fss << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << std::endl;
+	fss << std::endl;
 	fss << "!define states" << std::endl;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
@@ -250,12 +256,12 @@ double FortranWriter::generateSensors(Graph::Graph& g)
     
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
+		f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
@@ -274,6 +280,12 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 	// schreiben der Equations bekannt sind. Es ist in C++ nicht m�glich nachtr�glich etwas in einen Stream einzuf�gen
 	std::stringstream fss;
 
+	fss << "!values of constants and parameters" << std::endl;
+	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
+		fss << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		fss << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << std::endl;
+	fss << std::endl;
 	fss << "!define states" << std::endl; 
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
@@ -368,12 +380,12 @@ double FortranWriter::generateVisual(Graph::Graph& g)
     
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
+		f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
@@ -392,6 +404,12 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	// schreiben der Equations bekannt sind. Es ist in C++ nicht m�glich nachtr�glich etwas in einen Stream einzuf�gen
 	std::stringstream fss;
 
+	fss << "!values of constants and parameters" << std::endl;
+	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
+		fss << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		fss << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << std::endl;
+	fss << std::endl;
 	fss << "!define states" << std::endl;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
-- 
2.43.0


From 5090220ca97722eb6f439f8d83fc3aa2c1942327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:02 +0000
Subject: [PATCH 101/126] fix: components of expressions in Fortran programs

---
 symbolics/printer/FortranPrinter.cpp | 4 ++--
 symbolics/writer/FortranWriter.cpp   | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/symbolics/printer/FortranPrinter.cpp b/symbolics/printer/FortranPrinter.cpp
index b70c64e..09897a2 100644
--- a/symbolics/printer/FortranPrinter.cpp
+++ b/symbolics/printer/FortranPrinter.cpp
@@ -75,9 +75,9 @@ std::string FortranPrinter::print_Element( const Element *e )
 /*****************************************************************************/
 {
 	if (e == NULL) throw InternalError("FortranPrinter: Element is NULL");
+    // Komponenten von Ausdruecken liefert eine Funktion
     if (e->getArg(0)->getType() != Type_Symbol)
-        error("FortranPrinter: Element: Is only possible for Symbols, but here it is: " 
-                + print(e->getArg(0)) + "(" + str(e->getRow()+1) + "," + str(e->getCol()+1) + ")");
+        return "component(" + print(e->getArg(0)) + "," + str(e->getRow()+1) + "," + str(e->getCol()+1) + ")";
 	return print(e->getArg(0)) + "(" + str(e->getRow()+1) + "," + str(e->getCol()+1) + ")";
 }
 /*****************************************************************************/
diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 94628fa..08d015e 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -663,6 +663,13 @@ double FortranWriter::generateFunctionmodule()
 	f << "    scalar = x(1,1)" << std::endl;
 	f << "  end function" << std::endl;
 	f << std::endl;
+	f << "  function component(x, i, j)" << std::endl;
+	f << "    double precision  :: component" << std::endl;
+	f << "    double precision, intent(in), dimension(:,:) :: x" << std::endl;
+	f << "    integer, intent(in) :: i, j" << std::endl;
+	f << "    component = x(i,j)" << std::endl;
+	f << "  end function" << std::endl;
+	f << std::endl;
     f << "  function skew(v)" << std::endl;
 	f << "    double precision, dimension(3,3)  :: skew" << std::endl;
 	f << "    double precision, intent(in), dimension(3,1) :: v" << std::endl;
-- 
2.43.0


From 1743e378c4800ea428df1c2c23cffe80fe6d9822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 102/126] fix: addJoint leaves the list of degrees of freedom
 of the caller alone

---
 pymbs/input/mbs_system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 30b3000..d760c12 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -372,6 +372,8 @@ class MbsSystem(Body):
         if (dofList is None):
             dofList = []
         assert isinstance(dofList, list)
+        # the list of the caller must not be changed
+        dofList = list(dofList)
         assert 0 <= len(dofList) <=6
 
         if startVals is None:
-- 
2.43.0


From d418648e523335c4d64fce1d981f42a69b662e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 103/126] fix: a refused frame is not added to the children of
 its parent

---
 pymbs/input/frame.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymbs/input/frame.py b/pymbs/input/frame.py
index 2ecf962..7ee44da 100644
--- a/pymbs/input/frame.py
+++ b/pymbs/input/frame.py
@@ -32,11 +32,12 @@ class Frame(AbstractFrame, MbsInputElement):
         :param R: Rotation matrix
         """
         cs = Frame(name, self, p, R)
+        assert not hasattr(self, name), f'name {name} already occupied'
+
         self.children.append(cs)
         self.coordList.append(cs)
 
         # add to object namespace
-        assert not hasattr(self, name), f'name {name} already occupied'
         self._frames[name] = cs
 
         return cs
-- 
2.43.0


From da5e37966eacaf4e8f1c8564011aa245f5fe067d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 104/126] fix: joints towards the world or a predecessor are
 refused before anything is added

---
 pymbs/input/mbs_system.py | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index d760c12..b97b13b 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -409,6 +409,7 @@ class MbsSystem(Body):
         parBodyName1 = CS1.getParentBody().name
         parBodyName2 = CS2.getParentBody().name
 
+        self._checkTree(CS1, CS2)
 
         # template for the names of elementary joints
         # TODO: decide whether the parent body names should be
@@ -494,17 +495,10 @@ class MbsSystem(Body):
         assert isinstance(startVal_d, (type(None), int, float, symbolics.Symbol))
 
 
-        # test whether there already ends a joint on the parent Body of CS2
-        parentBody1 = CS1.getParentBody()
+        # test whether the bodies still form a tree
+        self._checkTree(CS1, CS2)
         parentBody2 = CS2.getParentBody()
 
-        assert not parentBody1 == parentBody2
-
-        endingJoint = parentBody2.endOfJoint
-        if endingJoint is not None:
-            raise ValueError("Body '%s` is already the target body of joint '%s`" \
-                % ( parentBody2, endingJoint))
-
 
         J = Joint(name, CS1, CS2, dof, startVal, startVal_d)
 
@@ -530,6 +524,33 @@ class MbsSystem(Body):
 
         return J
 
+    def _checkTree(self, CS1, CS2):
+        """
+        raises an exception if the bodies would not form a tree rooted in the
+        world with a joint from CS1 to CS2
+        """
+        parentBody1 = CS1.getParentBody()
+        parentBody2 = CS2.getParentBody()
+
+        assert not parentBody1 == parentBody2
+
+        if parentBody2 is self:
+            raise ValueError("The world must not be the target body of a joint")
+
+        # test whether there already ends a joint on the parent Body of CS2
+        endingJoint = parentBody2.endOfJoint
+        if endingJoint is not None:
+            raise ValueError("Body '%s` is already the target body of joint '%s`" \
+                % ( parentBody2, endingJoint))
+
+        # follow the joints towards the world
+        body = parentBody1
+        while (body.endOfJoint is not None):
+            body = body.endOfJoint.parent.getParentBody()
+            if body is parentBody2:
+                raise ValueError("Body '%s` is a predecessor of body '%s`" \
+                    % ( parentBody2, parentBody1))
+
     def setJointRange(self, joint, minVal, maxVal):
         """
         Use this function to set the range in which the joint coordinate
-- 
2.43.0


From 2cfd2f7a733a84c576f651ace369944893467bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 105/126] fix: names of elementary joints and of the bodies
 between them do not clash

---
 pymbs/input/joint.py      | 13 +++++++++++--
 pymbs/input/mbs_system.py | 22 ++++++++++++++++++++--
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/pymbs/input/joint.py b/pymbs/input/joint.py
index caeac61..2774f8f 100644
--- a/pymbs/input/joint.py
+++ b/pymbs/input/joint.py
@@ -26,8 +26,7 @@ class Joint(MbsInputElement):
             raise ValueError("Invalid DOF-Specifier for Joint %s" % name)
 
         # append dof-suffix to name
-        if '_%s' % dof not in name:
-           name += '_%s' % dof
+        name = Joint.fullName(name, dof)
 
         assert isinstance(startVal, (int, float, Symbol))
         assert isinstance(startVal_d, (int, float, Symbol))
@@ -49,6 +48,16 @@ class Joint(MbsInputElement):
         self.jointLoad = None
 
 
+    @staticmethod
+    def fullName(name, dof):
+        '''
+        Return the name including the degree of freedom, which must be unique
+        '''
+        if '_%s' % dof not in name:
+           name += '_%s' % dof
+        return name
+
+
     @property
     def coord(self):
         '''
diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index b97b13b..978682a 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -417,11 +417,29 @@ class MbsSystem(Body):
         # currently the name provided by the model author is used
         jointNameTpl = name + "_%s"
 
+        # check the names before anything is added
+        allDOF = dofList + ([lastDOF] if (lastDOF is not None) else [])
+        if len(dofList) > 0:
+            elemNames = [jointNameTpl % dof for dof in allDOF]
+        else:
+            elemNames = [name]
+        if len(set(elemNames)) < len(elemNames):
+            raise ValueError("Joint %s has a degree of freedom twice" % name)
+        for elemName, dof in zip(elemNames, allDOF or [None]):
+            self._checkName(elemName)
+            fullNames = [j.name for j in list(self.jointDict.values())]
+            if Joint.fullName(elemName, dof) in fullNames:
+                raise ValueError("Name '%s` is already used by a joint" % Joint.fullName(elemName, dof))
+
         # complex or elementary joint?
         if len(dofList) > 0:
 
-            # template for dummy bodies
-            dummyName="dummy_%s_%s_" % (parBodyName1, parBodyName2)
+            # template for dummy bodies, there must not be bodies with such names
+            dummyName = dummyBase = "dummy_%s_%s_" % (parBodyName1, parBodyName2)
+            count = 1
+            while any((dummyName + dof) in self.bodyDict for dof in dofList):
+                count += 1
+                dummyName = "%s%i_" % (dummyBase, count)
 
 
             for i, dof in enumerate(dofList):
-- 
2.43.0


From efaee4efd16200dfe1b5d69e56d5ecdb6b4c6496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:56 +0000
Subject: [PATCH 106/126] fix: start values of joints are checked before
 anything is added

---
 pymbs/input/mbs_system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 978682a..071ca7f 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -394,6 +394,8 @@ class MbsSystem(Body):
         assert len(startVals) == len(dofList), 'Invalid startValue parameter for %s' % name
         assert len(startVals_d) == len(dofList)
 
+        for val in startVals + startVals_d:
+            assert isinstance(val, (int, float, symbolics.Symbol)), 'Invalid startValue parameter for %s' % name
 
         elemJointList = []
 
-- 
2.43.0


From 015ac9ec40aa668c527ee80843985e8a2dd17bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 107/126] fix: names of elements must be identifiers

---
 pymbs/input/mbs_system.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 071ca7f..c88eb7e 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -46,6 +46,7 @@ detail.
 
 import sys
 import tempfile
+from keyword import iskeyword
 
 from numpy import inf
 from math import pi
@@ -1722,13 +1723,7 @@ class MbsSystem(Body):
 
         # idea: everything, that is could be a python identifier
         # is a valid name
-
-        testSource = "%s = 5" % nameStr
-
-        try:
-            # will raise a SyntaxError if nameStr is no valid identifier
-            compile(testSource, '<no source file>', 'single' )
-        except SyntaxError:
+        if (not nameStr.isidentifier()) or iskeyword(nameStr):
             raise ValueError("'%s´ is an invalid name" % nameStr)
 
         # TODO: fill that dict in the appr. methods
-- 
2.43.0


From 036441eac6a6234013cc18fc5a6c53bc5783771c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 108/126] fix: parameters with a value of the wrong sign are
 refused

---
 pymbs/input/mbs_system.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index c88eb7e..c47b718 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -850,11 +850,11 @@ class MbsSystem(Body):
                 raise AttributeError('Parameter "%s" cannot be positive and negative at the same time'%name)
 
             if ((positive==True) and (defaultValue < 0)):
-                raise AttributeError('Parameter "%s" cannot be positive, if a default ' + \
-                                     'value of %f has been specified!'%(name,defaultValue))
+                raise AttributeError(('Parameter "%s" cannot be positive, if a default ' + \
+                                      'value of %f has been specified!')%(name,defaultValue))
             if ((negative==True) and (defaultValue > 0)):
-                raise AttributeError('Parameter "%s" cannot be negative, if a default ' + \
-                                     'value of %f has been specified!'%(name,defaultValue))
+                raise AttributeError(('Parameter "%s" cannot be negative, if a default ' + \
+                                      'value of %f has been specified!')%(name,defaultValue))
         except TypeError:
             pass
 
-- 
2.43.0


From e16d279b30cdba9d757d14118323b4fabb844de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 109/126] fix: automatic names do not clash with names in use

---
 pymbs/input/mbs_system.py | 93 ++++++++++++++++++++++++++++++---------
 1 file changed, 71 insertions(+), 22 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index c47b718..700234c 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -178,13 +178,46 @@ class MbsSystem(Body):
         '''
         returns automatically generated name
         '''
-        # increase counter
+        while True:
+            # increase counter
+            try:
+                self.counter[prefix] += 1
+            except:
+                self.counter[prefix] = 1
+            # generate name
+            name = '%s_%i'%(prefix,self.counter[prefix])
+            # leave out the names that have been used already
+            if not self._isUsed(name):
+                return name
+
+
+    def _isUsed(self, name):
+        '''
+        returns whether the name is used by an element, or the symbols and
+        joints named after it exist already
+        '''
+        for d in (self.usedNameDict, self.bodyDict, self.jointDict, self.loadDict,
+                  self.loopDict, self.sensorDict, self.constraintDict,
+                  self.graphRepDict):
+            if name in d:
+                return True
+
+        for dof in self.validDofStrings:
+            if ('%s_%s'%(name, dof)) in self.usedNameDict:
+                return True
+
+        return any(self._isSymbol(s%name) for s in ('%s', 'r_%s', 'T_%s', '%s_load'))
+
+
+    def _isSymbol(self, symbol_str):
+        '''
+        returns whether there is already a symbol with this name
+        '''
         try:
-            self.counter[prefix] += 1
-        except:
-            self.counter[prefix] = 1
-        # generate sensor name
-        return '%s_%i'%(prefix,self.counter[prefix])
+            self.graph.getVariable(symbol_str)
+        except Exception:
+            return False
+        return True
 
 
     def setGravity(self, value):
@@ -2001,10 +2034,14 @@ class AddSensor(object):
         '''
         returns automatically generated name
         '''
-        # increase counter
-        self.count = self.count + 1
-        # generate sensor name
-        return 'sensor_%i'%self.count
+        while True:
+            # increase counter
+            self.count = self.count + 1
+            # generate sensor name
+            name = 'sensor_%i'%self.count
+            # leave out the names that have been used already
+            if not self.world._isUsed(name):
+                return name
 
     def __init__(self, world):
         '''
@@ -2367,10 +2404,14 @@ class AddLoad(object):
         '''
         returns automatically generated name
         '''
-        # increase counter
-        self.count = self.count + 1
-        # generate sensor name
-        return 'load_%i'%self.count
+        while True:
+            # increase counter
+            self.count = self.count + 1
+            # generate sensor name
+            name = 'load_%i'%self.count
+            # leave out the names that have been used already
+            if not self.world._isUsed(name):
+                return name
 
     def __init__(self, world):
         '''
@@ -2525,10 +2566,14 @@ class AddLoop(object):
         '''
         returns automatically generated name
         '''
-        # increase counter
-        self.count = self.count + 1
-        # generate sensor name
-        return 'loop_%i'%self.count
+        while True:
+            # increase counter
+            self.count = self.count + 1
+            # generate sensor name
+            name = 'loop_%i'%self.count
+            # leave out the names that have been used already
+            if not self.world._isUsed(name):
+                return name
 
     def __init__(self, world):
         '''
@@ -2771,10 +2816,14 @@ class AddVisualisation(object):
         '''
         returns automatically generated name
         '''
-        # increase counter
-        self.count = self.count + 1
-        # generate sensor name
-        return 'visual_%i'%self.count
+        while True:
+            # increase counter
+            self.count = self.count + 1
+            # generate sensor name
+            name = 'visual_%i'%self.count
+            # leave out the names that have been used already
+            if not self.world._isUsed(name):
+                return name
 
     def __init__(self, world):
         '''
-- 
2.43.0


From bbfc9ef09a1b0d138c6b8d676f0bdc404c259de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:33 +0000
Subject: [PATCH 110/126] fix: names of symbols must be new identifiers,
 checked before anything is added

---
 pymbs/input/mbs_system.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 700234c..8db65ed 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -691,7 +691,7 @@ class MbsSystem(Body):
         assert isinstance(name, str)
         self._checkName(name)
 
-        assert isinstance(symbol_str, str)
+        self._checkSymbolName(symbol_str)
 
         if (shape is None):
             shape = tuple()
@@ -749,7 +749,7 @@ class MbsSystem(Body):
         if (name is None):
             name = symbol_str
 
-        assert isinstance(symbol_str, str)
+        self._checkSymbolName(symbol_str)
         assert isinstance(name, str)
         self._checkName(name)
 
@@ -801,7 +801,7 @@ class MbsSystem(Body):
         :returns: Symbol to the parameter.
         :rtype: :class:`pymbs.Symbolics.Symbol`
         """
-        assert isinstance(symbol_str, str)
+        self._checkSymbolName(symbol_str)
         assert defaultValue is not None
         if (name is None):
             name = symbol_str
@@ -1023,7 +1023,7 @@ class MbsSystem(Body):
         assert isinstance(name, str)
         self._checkName(name)
 
-        assert isinstance(symbol_str, str)
+        self._checkSymbolName(symbol_str)
 
         # TODO: getShape fuer eine Expression
         if (isinstance(exp,list)):
@@ -1174,7 +1174,7 @@ class MbsSystem(Body):
         assert isinstance(typeString, str)
         assert isinstance(CS1, Frame)
         assert isinstance(CS2, Frame)
-        assert isinstance(symb, str)
+        self._checkSymbolName(symb)
         assert isinstance(category, int)
 
         assert CSref.__class__ in  (type(None), Frame)
@@ -1235,7 +1235,7 @@ class MbsSystem(Body):
         self._checkName(name)
 
         assert isinstance(thejoint, Joint), "Expected Joint but got %s (%s)"%(thejoint, thejoint.__class__)
-        assert isinstance(symbstr, str)
+        self._checkSymbolName(symbstr)
 
         assert thejoint.jointSensor == None,\
             "The passed joint object already has a jointSensor"
@@ -1275,7 +1275,7 @@ class MbsSystem(Body):
         self._checkName(name)
 
         assert isinstance(thejoint, Joint)
-        assert isinstance(symbstr, str)
+        self._checkSymbolName(symbstr)
         assert isinstance(typeString, str)
 
         assert isinstance(category, int)
@@ -1315,7 +1315,7 @@ class MbsSystem(Body):
         self._checkName(name)
 
         assert isinstance(body, Body), 'body is not of type Body, but %s (%s)'%(body,body.__class__)
-        assert isinstance(symbstr, str)
+        self._checkSymbolName(symbstr)
 
         assert isinstance(category, int)
 
@@ -1764,6 +1764,18 @@ class MbsSystem(Body):
             raise ValueError("Name '%s´ is already used by %s"\
                                      % (nameStr, self.usedNameDict[nameStr]))
 
+    def _checkSymbolName(self, symbol_str):
+        """
+        raises an exception if there cannot be a new symbol with this name
+        """
+        assert isinstance(symbol_str, str)
+
+        if (not symbol_str.isidentifier()) or iskeyword(symbol_str):
+            raise ValueError("'%s' is an invalid name for a symbol" % symbol_str)
+
+        if self._isSymbol(symbol_str):
+            raise ValueError("Symbol '%s' already exists" % symbol_str)
+
     def _isscalar(self, arg):
         """
         check whether arg is an int or float instance or
-- 
2.43.0


From 58ac1a5e58d9b769c9c035d4852545059ee4dc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:33 +0000
Subject: [PATCH 111/126] fix: refused loads leave no expression behind and do
 not replace a load with the same name

---
 pymbs/input/mbs_system.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 8db65ed..466d4f1 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -916,16 +916,22 @@ class MbsSystem(Body):
             CS2 = CS2._CS_0
         if isinstance(CSref, Body):
             CSref = CSref._CS_0
-        if isinstance(loadSymb, list):
-            loadSymb = self.addExpression(symbol_str=name+'_load', exp=symbolics.Matrix(loadSymb))
-
-
         assert CS1.__class__ == Frame
         assert CS2.__class__ == Frame, "CS2 should be a Frame but is a '%s' with '%s'"%(str(CS2.__class__), str(CS2))
 
-        assert isinstance(loadSymb, symbolics.Symbol)
         assert CSref.__class__ in  (Frame, type(None))
 
+        if name in self.loadDict:
+            raise ValueError('Force name %s already exists'\
+                                                        % name)
+
+        if isinstance(loadSymb, list):
+            assert (typeString != "PtPForce") and (len(loadSymb) == 3), \
+                "The list must contain the three components of the load %s"%name
+            loadSymb = self.addExpression(symbol_str=name+'_load', exp=symbolics.Matrix(loadSymb))
+
+        assert isinstance(loadSymb, symbolics.Symbol)
+
 
         if typeString not in ['PtPForce', 'CmpForce', 'CmpTorque']:
             raise ValueError("Invalid force type specifier: %s"\
@@ -946,11 +952,6 @@ class MbsSystem(Body):
             assert loadSymb.shape() == (3,), "Shape must be (3,) but it is %s"%str(loadSymb.shape)
             loadObject=CmpTorque(name, CS1, CS2, loadSymb, CSref)
 
-
-        if name in self.loadDict:
-            raise ValueError('Force name %s already exists'\
-                                                        % name)
-
         self.loadDict[name]=loadObject
 
         # return nothing
@@ -971,6 +972,13 @@ class MbsSystem(Body):
         assert isinstance(thejoint, Joint),\
             "The passed joint object has the wrong type: %s" % type(thejoint)
 
+        assert thejoint.jointLoad == None,\
+            "The passed joint object already has a jointLoad"
+
+        if name in self.loadDict:
+            raise ValueError('Force name %s already exists'\
+                                                        % name)
+
         # Falls wir fuer die JointLoad einen Ausdruck aber kein Symbol erhalten,
         # dann neue temporaere Variable anlegen
         if (isinstance(loadSymb, symbolics.Basic) and not isinstance(loadSymb, symbolics.Symbol)):
@@ -979,9 +987,6 @@ class MbsSystem(Body):
         assert isinstance(loadSymb, symbolics.Symbol),\
             "loadSymb must be a Symbol, not a %s" % type(loadSymb)
 
-        assert thejoint.jointLoad == None,\
-            "The passed joint object already has a jointLoad"
-
         loadObject = JointLoad(name, thejoint, loadSymb)
         thejoint.jointLoad = loadObject
         self.loadDict[name] = loadObject
-- 
2.43.0


From 7ece389b7d6ca1bb79697583ce7b250adeeb0dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:33 +0000
Subject: [PATCH 112/126] fix: components of a vector of parameters are checked
 before they are added

---
 pymbs/input/mbs_system.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 466d4f1..57d6837 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -821,6 +821,12 @@ class MbsSystem(Body):
             #
             suffixes=['x', 'y', 'z']
 
+            # nothing must be added if there is something wrong with a component
+            for suffix in (suffixes if L == 3 else ['xx', 'xy', 'yy', 'xz', 'yz', 'zz']):
+                self._checkSymbolName("%s_%s" % (symbol_str, suffix))
+            for v in defaultValue:
+                assert isinstance(v, (int, float, symbolics.Basic))
+
             if L == 3:
                 p = symbolics.Matrix((3,))
                 for v, suffix, idx in zip(defaultValue, suffixes, list(range(3))):
-- 
2.43.0


From b4d9da92d6c0a1c1a9bf04e0f45ed225d8f8c462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:33 +0000
Subject: [PATCH 113/126] fix: the symbol of a refused expression is not added

---
 pymbs/input/mbs_system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 57d6837..9697bd0 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -1044,13 +1044,14 @@ class MbsSystem(Body):
         else:
             shape = exp.shape()
 
-        symbol = self.graph.addVariable(symbol_str, shape=shape, varKind=category, pos=positive, neg=negative)
         assert isinstance(exp, (int, float, symbolics.Basic, symbolics.Matrix, list))
 
         assert( (limits is None) or isinstance(limits, list) )
         if (isinstance(limits, list)):
             assert( len(limits) == 2 )
 
+        symbol = self.graph.addVariable(symbol_str, shape=shape, varKind=category, pos=positive, neg=negative)
+
         # let the shape be set:
         if (isinstance(exp, list)):
             exp = symbolics.Matrix(exp)
-- 
2.43.0


From 8d14832d708ca09435dc9dff26842f41be3745ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:55 +0000
Subject: [PATCH 114/126] fix: refused visualisations leave no sensors behind

---
 pymbs/input/mbs_system.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 9697bd0..357c8b8 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -1438,6 +1438,7 @@ class MbsSystem(Body):
         # create empty lists
         sensPos = [None]*len(csList)
         sensOri = [None]*len(csList)
+        sensNames = [None]*len(csList)
         # run through all elements in csList
         for i in range(len(csList)):
             cs = csList[i]
@@ -1460,7 +1461,10 @@ class MbsSystem(Body):
             if typeString == 'flexible_Body':
                name += "_%i"%i
 
-            sensPos[i], sensOri[i] = self.addGraphicSensors(cs=cs, name=name, category=VarKind.Graphics)
+            sensNames[i] = name
+            for sensName in ('r_%s' % name, 'T_%s' % name):
+                self._checkName(sensName)
+                self._checkSymbolName(sensName)
 
         # convert form tuple to list to have pop()
         args=list(args)
@@ -1576,6 +1580,10 @@ class MbsSystem(Body):
             # we should not end up here
             raise ValueError('Ivalid typeString')
 
+        # nothing can be wrong anymore, thus the sensors may be added
+        for i in range(len(csList)):
+            sensPos[i], sensOri[i] = self.addGraphicSensors(cs=csList[i], name=sensNames[i], category=VarKind.Graphics)
+
         graphRep.color = kwargs.get('color')
 
         self.usedNameDict[name] = graphRep
-- 
2.43.0


From 31e84f32daea49001317f899886c4ab37827e82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 115/126] fix: names of bodies and frames may be composed to
 the same name of an intermediate variable

---
 pymbs/input/transformation.py |  9 +++++++--
 pymbs/symbolics/graph.py      | 24 ++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/pymbs/input/transformation.py b/pymbs/input/transformation.py
index 8915bbf..c4af5fb 100644
--- a/pymbs/input/transformation.py
+++ b/pymbs/input/transformation.py
@@ -808,8 +808,13 @@ class PublicMethods(object):
         else:
             raise ValueError("genEquations: Unknown Mode '%s'"%mode)
 
-        # Do the calculations
-        gen.getSystemEqns()
+        # Do the calculations, the names of intermediate variables need not be
+        # unique as they are composed of the names of bodies and frames
+        _Graph.renameDuplicates = True
+        try:
+            gen.getSystemEqns()
+        finally:
+            _Graph.renameDuplicates = False
         iWorld.state = gen.state
 
         # Build the Graph
diff --git a/pymbs/symbolics/graph.py b/pymbs/symbolics/graph.py
index ea0c9be..5f926d6 100644
--- a/pymbs/symbolics/graph.py
+++ b/pymbs/symbolics/graph.py
@@ -122,7 +122,7 @@ class Assignment(object):
             # create variables if neccessary
             for i in range(len(lhs)):
                 if (isinstance(lhs[i], str)):
-                    lhs[i] = graph.addVariable(name=lhs[i], 
+                    lhs[i] = graph.addVariable(name=graph.freeName(lhs[i]), 
                                                shape=tuple(), 
                                                varKind=varKind)
                 assert isinstance(lhs[i], (Variable, der))
@@ -137,7 +137,7 @@ class Assignment(object):
         else:
             # create variable, if lhs is a string
             if (isinstance(lhs, str)):
-                lhs = graph.addVariable(name=lhs, 
+                lhs = graph.addVariable(name=graph.freeName(lhs), 
                                         shape=rshape, 
                                         varKind=varKind)
             if lhs is not None:
@@ -173,6 +173,9 @@ class Graph(object):
             print("Graph is in pedantic mode. May be painfully slow!!!")
         self.cgraph = symbolics.CGraph()
 
+        # change the names of new left hand sides that exist already?
+        self.renameDuplicates = False
+
         #self.nGetShape = 0
         #self.nAddVariable = 0
         #self.nAddEquation = 0
@@ -213,6 +216,23 @@ class Graph(object):
         return var
 
 
+    def freeName(self, name):
+        """
+        Return name, or a similar one if there is already such a variable
+        and duplicates shall be renamed
+        """
+        result = name
+        count = 1
+        while self.renameDuplicates:
+            try:
+                self.getVariable(result)
+            except symbolics.Error:
+                break
+            count += 1
+            result = '%s_%i' % (name, count)
+        return result
+
+
     def getVariable(self, name):
         """
         Return variable
-- 
2.43.0


From 58f70f520a05923eb437343fa6d700f6fcd6dc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:03 +0000
Subject: [PATCH 116/126] fix: setGravity changes the value of the
 gravitational acceleration

---
 pymbs/input/mbs_system.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 357c8b8..3f20b68 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -132,8 +132,11 @@ class MbsSystem(Body):
         # zero
         #  assert(self.gravity_vect.norm() in [0,1])
 
-        self.gravity_const = self.addParam(name='gravity', symbol_str='g',
-                                           defaultValue=9.81, positive=True)
+        # the equation of this parameter is added together with the equations
+        # of motion, until then the value can be changed (see setGravity)
+        self.gravity_const = self.graph.addVariable(name='g', shape=tuple(), varKind=VarKind.Parameter, positive=True)
+        self.paramDict['g'] = 9.81
+        self._gravityAdded = False
         self.time = self.graph.getVariable('time')
 
         self.validDofStrings = ('Tx', 'Ty', 'Tz',  'Rx', 'Ry', 'Rz')
@@ -238,7 +241,10 @@ class MbsSystem(Body):
         # cast to float should be possible
         assert isinstance(float(value), float)
 
-        self.expressionDict['gravity'].exp = symbolics.sympify(value)
+        if self._gravityAdded:
+            raise ValueError('The gravity must be set before the equations are generated')
+
+        self.paramDict['g'] = value
 
     def addBody(self, mass, cg=symbolics.zeros((3,)), \
                         inertia=symbolics.zeros((3,3)), \
@@ -1870,6 +1876,9 @@ class MbsSystem(Body):
         '''
         # CS 27.06.2011, En-/Disable simplify
         assert isinstance(mode,str)
+        if not self._gravityAdded:
+            self.graph.addEquation(lhs=self.gravity_const, rhs=self.paramDict['g'])
+            self._gravityAdded = True
         import pymbs.common.simple
         pymbs.common.simple.DO_NOT_SIMPLIFY = not simplify
 
-- 
2.43.0


From 40cde4a3e353063265bba7681b4706f48a868631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:03 +0000
Subject: [PATCH 117/126] fix: components of expressions in Matlab programs

---
 symbolics/printer/MatlabPrinter.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/symbolics/printer/MatlabPrinter.cpp b/symbolics/printer/MatlabPrinter.cpp
index 92e55a7..930e769 100644
--- a/symbolics/printer/MatlabPrinter.cpp
+++ b/symbolics/printer/MatlabPrinter.cpp
@@ -64,9 +64,30 @@ std::string MatlabPrinter::print_Element( const Element *e )
 //*****************************************************************************/
 {
     if (e == NULL) throw InternalError("MatlabPrinter: Element is NULL");
-    if (e->getArg(0)->getType() != Type_Symbol)
-        error("MatlabPrinter: Element: Is only possible for Symbols, but here it is: " 
-                + print(e->getArg(0)) + "(" + str(e->getRow()+1) + "," + str(e->getCol()+1) + ")");
+    // Ausdruecke koennen in Matlab nicht indiziert werden, die Komponente ist
+    // ein Produkt mit Einheitsvektoren
+    if ((e->getArg(0)->getType() != Type_Symbol) && (e->getArg(0)->getType() != Type_Der))
+    {
+        const size_t rows = e->getArg(0)->getShape().getDimension(1);
+        const size_t cols = e->getArg(0)->getShape().getDimension(2);
+        std::string s = "(";
+        if (rows > 1)
+        {
+            s += "[";
+            for (size_t i = 0; i < rows; ++i)
+                s += std::string(i > 0 ? "," : "") + (i == e->getRow() ? "1" : "0");
+            s += "] * ";
+        }
+        s += print(e->getArg(0));
+        if (cols > 1)
+        {
+            s += " * [";
+            for (size_t i = 0; i < cols; ++i)
+                s += std::string(i > 0 ? ";" : "") + (i == e->getCol() ? "1" : "0");
+            s += "]";
+        }
+        return s + ")";
+    }
     return print(e->getArg(0)) + "(" + str(e->getRow()+1) + "," + str(e->getCol()+1) + ")";
 }
 //*****************************************************************************/
-- 
2.43.0


From a7505ed9eca05f5b3a1f807a003bef1b32871d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:03 +0000
Subject: [PATCH 118/126] fix: skew symmetric matrices of expressions in Matlab
 programs

---
 symbolics/printer/MatlabPrinter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/symbolics/printer/MatlabPrinter.cpp b/symbolics/printer/MatlabPrinter.cpp
index 930e769..844b598 100644
--- a/symbolics/printer/MatlabPrinter.cpp
+++ b/symbolics/printer/MatlabPrinter.cpp
@@ -97,8 +97,14 @@ std::string MatlabPrinter::print_Skew( const Skew *s )
 /*****************************************************************************/
 {
     if (s == NULL) throw InternalError("MatlabPrinter: Skew is NULL");
+    // Ausdruecke koennen in Matlab nicht indiziert werden
     if (s->getArg()->getType() != Type_Symbol)
-        error("MatlabPrinter: Skew: Is only possible for Symbols, but the Argument is: " + print(s->getArg()));
+    {
+        std::string a = print(s->getArg());
+        if (s->getArg()->getShape().getDimension(1) == 1)
+            a = "transpose(" + a + ")";
+        return "cross(repmat(" + a + ",1,3),eye(3))";
+    }
 	std::string v = print(s->getArg());
     return "[[0,-" + v + "(3), " + v + "(2)];\n         [" + v + "(3), 0, -" + v + "(1)];\n         [-" + v + "(2), " + v + "(1), 0]]";
 }
-- 
2.43.0


From 3ab422f51364d96409dc312510a86d0bbc5b57d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:03 +0000
Subject: [PATCH 119/126] fix: the dimension of constants is declared once in
 Modelica models

---
 symbolics/writer/ModelicaWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/ModelicaWriter.cpp b/symbolics/writer/ModelicaWriter.cpp
index 04bb019..1a9b712 100644
--- a/symbolics/writer/ModelicaWriter.cpp
+++ b/symbolics/writer/ModelicaWriter.cpp
@@ -123,7 +123,7 @@ double ModelicaWriter::generateTarget_Impl(Graph::Graph &g)
   f << "//Constants" << std::endl;
   for (Graph::VariableVec::iterator ii=constants.begin();ii!=constants.end();++ii)
   {
-    f << "   constant Real" <<  p.dimension(*ii) << " " <<  p.dimension(*ii) << (*ii)->getName() << " = " << p.print(g.getEquation(*ii)) << p.comment2(g,*ii) <<  ";" << std::endl;
+    f << "   constant Real" <<  p.dimension(*ii) << " " << (*ii)->getName() << " = " << p.print(g.getEquation(*ii)) << p.comment2(g,*ii) <<  ";" << std::endl;
   }
   f << "//Variables" << std::endl;
   for (Graph::VariableVec::iterator ii=variables.begin();ii!=variables.end();++ii)
-- 
2.43.0


From 3cc172029c7cbe99856015de43308bdb622281fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:52 +0000
Subject: [PATCH 120/126] fix: variables are determined completely in Modelica
 models

---
 symbolics/graph/Graph.cpp           | 28 +++++++++++++++++++++++++++-
 symbolics/graph/include/Graph.h     |  2 +-
 symbolics/writer/ModelicaWriter.cpp |  3 ++-
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/symbolics/graph/Graph.cpp b/symbolics/graph/Graph.cpp
index 5afc589..8747f62 100644
--- a/symbolics/graph/Graph.cpp
+++ b/symbolics/graph/Graph.cpp
@@ -87,7 +87,7 @@ void Symbolics::Graph::Graph::makeScalar()
 
 /*****************************************************************************/
 Symbolics::Graph::AssignmentsPtr Symbolics::Graph::Graph::getAssignments(Category_Type inc,
-  Category_Type exclude)
+  Category_Type exclude, bool complete)
 /*****************************************************************************/
 {
   // get required nodes
@@ -105,6 +105,32 @@ Symbolics::Graph::AssignmentsPtr Symbolics::Graph::Graph::getAssignments(Categor
       }
     }
   }
+  // get the remaining elements of variables, of which some elements are required
+  if (complete)
+  {
+    std::map<SymbolPtr, NodeVec> parts;
+    for (size_t i=0;i<m_nodes.size();++i)
+    {
+      SymbolPtrElemMap &solveFor = m_nodes[i]->getSolveFor();
+      for (SymbolPtrElemMap::iterator ii=solveFor.begin();ii!=solveFor.end();++ii)
+        if (ii->second.kind != ALL)
+          parts[ii->first].push_back(m_nodes[i]);
+    }
+    // reqnodes may grow
+    for (size_t i=0;i<reqnodes.size();++i)
+    {
+      SymbolPtrElemMap &solveFor = reqnodes[i]->getSolveFor();
+      for (SymbolPtrElemMap::iterator ii=solveFor.begin();ii!=solveFor.end();++ii)
+      {
+        if (ii->second.kind == ALL)
+          continue;
+        NodeVec &nodes = parts[ii->first];
+        for (size_t j=0;j<nodes.size();++j)
+          if (nodes[j]->visited == false)
+            Node::node_iterate_depth_first(nodes[j],v);
+      }
+    }
+  }
   // reset visited
   for (size_t i=0;i<m_nodes.size();++i)
   {
diff --git a/symbolics/graph/include/Graph.h b/symbolics/graph/include/Graph.h
index e1e873b..c7be3d2 100644
--- a/symbolics/graph/include/Graph.h
+++ b/symbolics/graph/include/Graph.h
@@ -43,7 +43,7 @@ namespace Symbolics
             double buildGraph(bool optimize);
 
             // getsolved System
-            AssignmentsPtr getAssignments(Category_Type inc, Category_Type exclude=0x00);
+            AssignmentsPtr getAssignments(Category_Type inc, Category_Type exclude=0x00, bool complete=false);
 
             // getSymbol
             // throws: VarUnknownError
diff --git a/symbolics/writer/ModelicaWriter.cpp b/symbolics/writer/ModelicaWriter.cpp
index 1a9b712..c605aef 100644
--- a/symbolics/writer/ModelicaWriter.cpp
+++ b/symbolics/writer/ModelicaWriter.cpp
@@ -49,7 +49,8 @@ double ModelicaWriter::generateTarget_Impl(Graph::Graph &g)
 
   //f.close();
   double t1 = Util::getTime();
-  Graph::AssignmentsPtr a = g.getAssignments(DER_STATE | SENSOR | SENSOR_VISUAL);
+  // variables must be determined completely in Modelica
+  Graph::AssignmentsPtr a = g.getAssignments(DER_STATE | SENSOR | SENSOR_VISUAL, 0, true);
 
   Graph::VariableVec states = a->getVariables(STATE);
   Graph::VariableVec variables = a->getVariables(VARIABLE);
-- 
2.43.0


From ddf2fd7ba750df2ec7cef25ebdc25c06749eb5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:00 +0000
Subject: [PATCH 121/126] fix: constraint torques of joints in the presence of
 external loads

---
 pymbs/processing/generator_recursive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymbs/processing/generator_recursive.py b/pymbs/processing/generator_recursive.py
index 2ff8936..f09b51d 100644
--- a/pymbs/processing/generator_recursive.py
+++ b/pymbs/processing/generator_recursive.py
@@ -539,7 +539,7 @@ class Generator_Recursive(Generator):
 
             F_b += body.mass*(body._I_l_ddot+self.inertial._alpha_C)-body._F_ext   # (24), self.inertial._alpha_C = -g, see p.189 below (10)
             body._F = graph.addEquation(F%bName, F_b, shape=(3,))
-            L_b += body._l_tilde*body._F + \
+            L_b += body._l_tilde*(body._F+body._F_ext) + \
                    body.inertia*body.I_al + \
                    body._I_om_tilde*body.inertia*body.I_om - \
                    body._L_ext   # (26)
-- 
2.43.0


From 1181be223cb1eebf15e35d9d050b67bf176ddeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:40 +0000
Subject: [PATCH 122/126] fix: the Python wrapper of the C program starts with
 the initial values of the inputs and passes scalar inputs

---
 symbolics/writer/CWriter.cpp | 38 ++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 9ece540..1221164 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -505,7 +505,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	f << std::endl;
 	f << "import platform" << std::endl;
 	f << "from ctypes import c_double" << std::endl;
-	f << "from numpy import matrix, empty, zeros, ctypeslib" << std::endl;
+	f << "from numpy import matrix, array, empty, zeros, ctypeslib" << std::endl;
 	f << std::endl;
     if (!sensors.empty())
 	{
@@ -544,17 +544,15 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
     f << "# inputs" << std::endl;
 	f << "_inputs = {" << std::endl;
 	for (Graph::VariableVec::iterator it=state_inputs.begin();it!=state_inputs.end();++it)
-    { // Da wir in C momentan mit echten Vektoren arbeiten m�ssen wir hier unser eigenes zero bauen... (eigentlich geht das nicht wegen initVal - TODO!)
-		//f << "           '" << p.print(*it) << "' : " << p.print(g.getinitVal(*it)) 
-        //  << ",   " << p.comment2(g,*it) << std::endl;
-        f << "           '" << p.print(*it) << "' : zeros(";
-        if ((*it)->is_Scalar()) 
-			f << "1";
-		else if ((*it)->is_Vector()) 
-			f << (*it)->getShape().getNumEl();
+    { // the C function takes scalars by value, vectors and matrices as arrays
+        f << "           '" << p.print(*it) << "' : ";
+        if ((*it)->is_Scalar())
+			f << p.print(g.getinitVal(*it));
+		else if ((*it)->is_Vector())
+			f << "array(" << p.print(g.getinitVal(*it)) << ", dtype=float).reshape(" << (*it)->getShape().getNumEl() << ")";
 		else
-			f << "(" << (*it)->getShape().getDimension(1) << "," << (*it)->getShape().getDimension(2) << ")";
-		f << "),   " << p.comment2(g,*it) << std::endl;
+			f << "array(" << p.print(g.getinitVal(*it)) << ", dtype=float)";
+		f << ",   " << p.comment2(g,*it) << std::endl;
     }
 	f << "          }" << std::endl;        
 	f << std::endl;
@@ -688,17 +686,15 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
     f << "# inputs" << std::endl;
 	f << "_inputs = {" << std::endl;
 	for (Graph::VariableVec::iterator it=sens_inputs.begin();it!=sens_inputs.end();++it)
-    { // Da wir in C momentan mit echten Vektoren arbeiten m�ssen wir hier unser eigenes zero bauen... (eigentlich geht das nicht wegen initVal - TODO!)
-		//f << "           '" << p.print(*it) << "' : " << p.print(g.getinitVal(*it)) 
-        //  << ",   " << p.comment2(g,*it) << std::endl;
-        f << "           '" << p.print(*it) << "' : zeros(";
-        if ((*it)->is_Scalar()) 
-			f << "1";
-		else if ((*it)->is_Vector()) 
-			f << (*it)->getShape().getNumEl();
+    { // the C function takes scalars by value, vectors and matrices as arrays
+        f << "           '" << p.print(*it) << "' : ";
+        if ((*it)->is_Scalar())
+			f << p.print(g.getinitVal(*it));
+		else if ((*it)->is_Vector())
+			f << "array(" << p.print(g.getinitVal(*it)) << ", dtype=float).reshape(" << (*it)->getShape().getNumEl() << ")";
 		else
-			f << "(" << (*it)->getShape().getDimension(1) << "," << (*it)->getShape().getDimension(2) << ")";
-		f << "),   " << p.comment2(g,*it) << std::endl;
+			f << "array(" << p.print(g.getinitVal(*it)) << ", dtype=float)";
+		f << ",   " << p.comment2(g,*it) << std::endl;
     }
 	f << "          }" << std::endl;        
 	f << std::endl;
-- 
2.43.0


From 46359b16d9a3cbabfed57a9090394c026fae6fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:40 +0000
Subject: [PATCH 123/126] fix: the Python wrapper of the C program hands the
 sensors to the controllers

---
 symbolics/writer/CWriter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 1221164..8776901 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -563,6 +563,10 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	f << "def ode_int(t, y):" << std::endl;
 	f << "    global _inputs" << std::endl;
 	f << std::endl;
+    if (!controller.empty())
+    {
+        f << "    sensors = " << (sensors.empty() ? "dict()" : "graphSensors(t, y)") << std::endl;
+    }
     for (Graph::VariableVec::iterator it=controller.begin();it!=controller.end();++it)
 	{
         std::string comment_tmp = m_p->comment2(g,*it);
-- 
2.43.0


From a14f2212dbd063a1d26be83fc8349f58d9314d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:55 +0000
Subject: [PATCH 124/126] fix: the Python wrapper of the Fortran program
 imports matrix and zeros from numpy

---
 symbolics/writer/FortranWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 08d015e..0a740af 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -516,7 +516,7 @@ double FortranWriter::generatePymbsWrapper(Graph::Graph& g)
 
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl;
-	f << "from scipy import matrix, zeros" << std::endl;
+	f << "from numpy import matrix, zeros" << std::endl;
 	f << "from " << m_name << "_der_state_compiledF90 import " << m_name_lower << "_der_state" << std::endl;
 	f << std::endl;
     f << "# inputs" << std::endl;
@@ -554,7 +554,7 @@ double FortranWriter::generatePymbsWrapper(Graph::Graph& g)
 
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl;
-	f << "from scipy import matrix, zeros" << std::endl;
+	f << "from numpy import matrix, zeros" << std::endl;
 	f << "from " << m_name << "_visual_compiledF90 import " << m_name_lower << "_visual" << std::endl;
 
 	f << "def graphVisualSensors(q):" << std::endl;
@@ -596,7 +596,7 @@ double FortranWriter::generatePymbsWrapper(Graph::Graph& g)
 
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl;
-	f << "from scipy import matrix, zeros" << std::endl;
+	f << "from numpy import matrix, zeros" << std::endl;
 	f << "from " << m_name << "_sensors_compiledF90 import " << m_name_lower << "_sensors" << std::endl;
     f << std::endl;
     f << "# inputs" << std::endl;
-- 
2.43.0


From 5416958123640248245a18be8d33326d021d173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:26 +0000
Subject: [PATCH 125/126] fix: sums, products and signs of integers beyond the
 range of int

---
 symbolics/Int.cpp           | 12 ++++++++++++
 symbolics/functions/Abs.cpp |  4 ++--
 symbolics/functions/Add.cpp |  2 +-
 symbolics/functions/Mul.cpp |  2 +-
 symbolics/functions/Neg.cpp |  5 ++---
 symbolics/include/Int.h     |  2 ++
 6 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/symbolics/Int.cpp b/symbolics/Int.cpp
index 44d2004..209d3af 100644
--- a/symbolics/Int.cpp
+++ b/symbolics/Int.cpp
@@ -4,6 +4,8 @@
 #include "Operators.h"
 #include "Matrix.h"
 
+#include <limits>
+
 using namespace Symbolics;
 
 /*****************************************************************************/
@@ -46,6 +48,16 @@ BasicPtr Int::New( const int i)
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+BasicPtr Int::fromValue( const long long value )
+/*****************************************************************************/
+{
+    if ( value < std::numeric_limits<int>::min() || value > std::numeric_limits<int>::max() )
+        return BasicPtr( new Real( static_cast<double>(value) ) );
+    return Int::New( static_cast<int>(value) );
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
  BasicPtr Int::iterateExp(Symbolics::Basic::Iterator &v)
 /*****************************************************************************/
diff --git a/symbolics/functions/Abs.cpp b/symbolics/functions/Abs.cpp
index 7eb7eeb..00dfa91 100644
--- a/symbolics/functions/Abs.cpp
+++ b/symbolics/functions/Abs.cpp
@@ -78,7 +78,7 @@ BasicPtr Abs::simplify()
             if ( i >= 0 )
                 return getArg();
             else
-                return BasicPtr( new Int(-i) );
+                return Int::fromValue(-static_cast<long long>(i));
         }
     case Type_Real:
         {
@@ -138,7 +138,7 @@ BasicPtr Abs::New( BasicPtr const& arg)
             if ( i >= 0 )
                 return arg;
             else
-                return BasicPtr( new Int(-i) );
+                return Int::fromValue(-static_cast<long long>(i));
         }
     case Type_Real:
         {
diff --git a/symbolics/functions/Add.cpp b/symbolics/functions/Add.cpp
index f29863c..c597bca 100644
--- a/symbolics/functions/Add.cpp
+++ b/symbolics/functions/Add.cpp
@@ -441,7 +441,7 @@ BasicPtr Add::New( BasicPtr const& lhs, BasicPtr const& rhs )
         if (rhs->getType() == Type_Int) 
         {
             const Int *crhs = Util::getAsConstPtr<Int>(rhs);
-            return Int::New(clhs->getValue()+crhs->getValue());
+            return Int::fromValue(static_cast<long long>(clhs->getValue())+crhs->getValue());
         }
         else if (rhs->getType() == Type_Real) 
         {
diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index 4734f3c..00aac7c 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -426,7 +426,7 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
         if (rhs->getType() == Type_Int) 
         {
             const Int *crhs = Util::getAsConstPtr<Int>(rhs);
-            return Int::New(clhs->getValue()*crhs->getValue());
+            return Int::fromValue(static_cast<long long>(clhs->getValue())*crhs->getValue());
         }
         else if (rhs->getType() == Type_Real) 
         {
diff --git a/symbolics/functions/Neg.cpp b/symbolics/functions/Neg.cpp
index 13c6b14..0c6357a 100644
--- a/symbolics/functions/Neg.cpp
+++ b/symbolics/functions/Neg.cpp
@@ -62,8 +62,7 @@ BasicPtr Neg::simplify()
     case Type_Int:
         {
             const Int *c = Util::getAsConstPtr<Int>(getArg());
-            int i = c->getValue();
-            return Int::New(-i);
+            return Int::fromValue(-static_cast<long long>(c->getValue()));
         }
     case Type_Real:
         {
@@ -108,7 +107,7 @@ BasicPtr Neg::New(BasicPtr const& e)
     case Type_Int:
         {
             const Int *c = Util::getAsConstPtr<Int>(e);
-            return BasicPtr( new Int(-(*c).getValue()) );
+            return Int::fromValue(-static_cast<long long>(c->getValue()));
         }
     case Type_Bool:
         {
diff --git a/symbolics/include/Int.h b/symbolics/include/Int.h
index e9d6b14..9828e5a 100644
--- a/symbolics/include/Int.h
+++ b/symbolics/include/Int.h
@@ -23,6 +23,8 @@ namespace Symbolics
         ~Int();
 
         static BasicPtr New( const int i);
+        // a value, which does not fit into an Int, becomes a Real
+        static BasicPtr fromValue( const long long value );
 
         inline int getValue() const  { return m_value; };
 
-- 
2.43.0


From ba4984382c938b9b009f448b343dd5fa66e2c974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:47 +0000
Subject: [PATCH 126/126] fix: Python integers beyond the range of int

---
 symbolics/wrapper/CBasic.cpp        |  5 ++++-
 symbolics/wrapper/CNumber.cpp       |  2 +-
 symbolics/wrapper/convert.cpp       | 24 +++++++++++++++++++++++-
 symbolics/wrapper/include/convert.h |  2 ++
 4 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/symbolics/wrapper/CBasic.cpp b/symbolics/wrapper/CBasic.cpp
index 0b94fa9..eee33b6 100644
--- a/symbolics/wrapper/CBasic.cpp
+++ b/symbolics/wrapper/CBasic.cpp
@@ -394,7 +394,10 @@ static PyObject* CBasic_pow(PyObject *self, PyObject *other, PyObject *modulo)
         if (PyFloat_Check(other))
             exponent = PyFloat_AsDouble(other);
         else if (PyLong_Check(other))
-            exponent = PyLong_AsLong(other);
+        {
+            exponent = PyLong_AsDouble(other);
+            if (PyErr_Occurred()) return NULL;
+        }
         else
         {
             PyErr_SetString(SymbolicsError, "Exponent must be a number!");
diff --git a/symbolics/wrapper/CNumber.cpp b/symbolics/wrapper/CNumber.cpp
index 4597df3..b6e6d09 100644
--- a/symbolics/wrapper/CNumber.cpp
+++ b/symbolics/wrapper/CNumber.cpp
@@ -96,7 +96,7 @@ static int CNumber_init(CNumberObject *self, PyObject *args, PyObject *kwds)
 
 		// Ist es ein Int?
 		if (PyLong_Check(item))
-			self->m_basic = Int::New( PyLong_AsLong(item) );
+			self->m_basic = getInteger(item);
 		else if (PyFloat_Check(item))
 			self->m_basic = BasicPtr( new Real( PyFloat_AsDouble(item) ) );
 		else
diff --git a/symbolics/wrapper/convert.cpp b/symbolics/wrapper/convert.cpp
index 57053d2..008bd12 100644
--- a/symbolics/wrapper/convert.cpp
+++ b/symbolics/wrapper/convert.cpp
@@ -1,5 +1,6 @@
 #include "convert.h"
 #define _USE_MATH_DEFINES
+#include <limits.h>
 #include <math.h>
 #include <iostream>
 #include "CBasic.h"
@@ -427,6 +428,27 @@ template < class T > BasicPtr toBinary( PyObject *o, Graph::Graph* &g )
 /*****************************************************************************/
 #pragma endregion
 
+/*****************************************************************************/
+// Python-int in BasicPtr: ein Wert, der nicht in einen Int passt, wird ein Real
+/*****************************************************************************/
+BasicPtr getInteger( PyObject *o )
+/*****************************************************************************/
+{
+    int overflow = 0;
+    const long val = PyLong_AsLongAndOverflow(o, &overflow);
+    if (!overflow && val >= INT_MIN && val <= INT_MAX)
+        return BasicPtr( new Int( static_cast<int>(val) ) );
+
+    const double real = PyLong_AsDouble(o);
+    if (PyErr_Occurred())
+    {
+        PyErr_Clear();
+        throw InternalError("Integer is too large!");
+    }
+    return BasicPtr( new Real( real ) );
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 // PyObject in BasicPtr
 /*****************************************************************************/
@@ -441,7 +463,7 @@ BasicPtr getBasic( PyObject *o )
     }
     // Type == int
     if (PyLong_Check(o))
-        return BasicPtr( new Int( PyLong_AsLong(o) ) );
+        return getInteger( o );
     // Type == float
     if (PyFloat_Check(o))
         return BasicPtr( new Real( PyFloat_AsDouble(o) ) );
diff --git a/symbolics/wrapper/include/convert.h b/symbolics/wrapper/include/convert.h
index 6820761..8abf9f3 100644
--- a/symbolics/wrapper/include/convert.h
+++ b/symbolics/wrapper/include/convert.h
@@ -26,5 +26,7 @@ template < class T > BasicPtr toBinary( PyObject *o, Graph::Graph* &g );
 
 // PyObject in BasicPtr
 BasicPtr getBasic( PyObject *o );
+// Python-int in BasicPtr
+BasicPtr getInteger( PyObject *o );
 
 #endif // __TOBASIC_H_
\ No newline at end of file
-- 
2.43.0

