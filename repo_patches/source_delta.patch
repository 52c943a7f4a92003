From 700aa8054c5d0a3f2bcd9b8419f5a1dabb868a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 01/96] fix: HaddRankone writes through copy-on-write instead
 of into storage shared with other elements

---
 Manifolds/Element.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 40d25ab..855f3b2 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -1616,8 +1616,9 @@ namespace ROPTLIB{
         integer m = Getrow(), n = Getcol();
         const realdp *uptr = u.ObtainReadData();
         const realdp *vptr = v.ObtainReadData();
+        realdp *thisptr = this->ObtainWritePartialData();
 
-        ger_(&m, &n, &scalar, const_cast<realdp *> (uptr), &GLOBAL::IONE, const_cast<realdp *> (vptr), &GLOBAL::IONE, Space, &m);
+        ger_(&m, &n, &scalar, const_cast<realdp *> (uptr), &GLOBAL::IONE, const_cast<realdp *> (vptr), &GLOBAL::IONE, thisptr, &m);
         
         return *this;
     };
@@ -1631,9 +1632,10 @@ namespace ROPTLIB{
         integer m = Getrow(), n = Getcol();
         const realdp *uptr = u.ObtainReadData();
         const realdp *vptr = v.ObtainReadData();
+        realdp *thisptr = this->ObtainWritePartialData();
 
         ger_(&m, &n, &scalar, const_cast<realdpcomplex *> ((realdpcomplex *) uptr), &GLOBAL::IONE, const_cast<realdpcomplex *> ((realdpcomplex *) vptr), &GLOBAL::IONE,
-                 (realdpcomplex *) Space, &m);
+                 (realdpcomplex *) thisptr, &m);
         
         return *this;
     };
-- 
2.43.0


From 7385a750fb7bd312e9f128e01e72a9c5660782c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 02/96] fix: Element::Conj writes through copy-on-write instead
 of into storage shared with other elements

---
 Manifolds/Element.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 855f3b2..48ab634 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -1950,7 +1950,8 @@ namespace ROPTLIB{
         assert(Space != nullptr);
         assert(iscomplex);
         integer num = length / 2;
-        scal_(&num, &GLOBAL::DNONE, Space + 1, &GLOBAL::ITWO);
+        realdp *thisptr = this->ObtainWritePartialData();
+        scal_(&num, &GLOBAL::DNONE, thisptr + 1, &GLOBAL::ITWO);
         return (*this);
     };
 
-- 
2.43.0


From 7f5894674d800dab7dec1ef7085da16f2e5d6ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 03/96] fix: SubmatrixAssignment keeps the entries outside the
 submatrix when the storage is shared

---
 Manifolds/Element.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 48ab634..c1aa464 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2238,7 +2238,7 @@ namespace ROPTLIB{
         assert(rend - rstart + 1 == mat.Getrow() && cend - cstart + 1 == mat.Getcol() && mat.Getiscomplex() == iscomplex);
         const realdp *matptr = mat.ObtainReadData();
         integer matrow = mat.Getrow();
-        this->NewMemoryOnWrite();
+        this->ObtainWritePartialData();
         if(!iscomplex)
         {
             for(integer j = cstart; j <= cend; j++)
-- 
2.43.0


From df33f9d762aa4dbcb3dad8a17e7d2fa88ade0425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 04/96] fix: Reshape removes the cached decompositions of the
 old shape

---
 Manifolds/Element.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index c1aa464..856fe4a 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -1811,6 +1811,8 @@ namespace ROPTLIB{
 
     Element &Element::Reshape(integer r, integer c, integer n)
     {
+        if(Getrow() != r || size[1] != c || size[2] != n)
+            RemoveAllFromFields(); /*the temporary data, e.g., factorizations, belong to the old shape*/
         if(!iscomplex)
         {
             assert(r * c * n == length);
-- 
2.43.0


From 44b554b9a15d1b86ddf9acd057033cca22c35e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 05/96] fix: ScaledIdOPE removes the cached temporary data of
 the overwritten matrix

---
 Manifolds/Element.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 856fe4a..54559a5 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2863,7 +2863,7 @@ namespace ROPTLIB{
             printf("Warning: This is not a square matrix. It can not be assigned to be an identity matrix!\n");
             return;
         }
-        SmartSpace::NewMemoryOnWrite();
+        NewMemoryOnWrite();
         integer ell = size[0];
         for (integer i = 0; i < ell; i++)
         {
-- 
2.43.0


From bebff2bfd88c39924e3b7ca548326ff9d633b90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 06/96] fix: Element::CopyOnWrite removes the temporary data,
 as documented

---
 Manifolds/Element.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 54559a5..2003ad7 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2695,6 +2695,7 @@ namespace ROPTLIB{
 
     void Element::CopyOnWrite(void)
     {
+        RemoveAllFromFields();
         SmartSpace::CopyOnWrite();
         ResetMultiElementsParams(powsinterval, numoftypes, elements, numofelements);
     };
-- 
2.43.0


From e44d9865aa0474fd7ff1fb1ce60b2d75a3319619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 07/96] fix: copying between elements that share data copies
 the shape

---
 Manifolds/SmartSpace.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/Manifolds/SmartSpace.cpp b/Manifolds/SmartSpace.cpp
index 9d42f3d..23312b3 100644
--- a/Manifolds/SmartSpace.cpp
+++ b/Manifolds/SmartSpace.cpp
@@ -85,8 +85,22 @@ namespace ROPTLIB{
 
 	void SmartSpace::CopyTo(SmartSpace &eta) const
 	{
-		if (this == &eta || (eta.Space == Space && !(eta.Space == nullptr && Space == nullptr)))
+		if (this == &eta)
 			return;
+
+		if (eta.Space == Space && Space != nullptr)
+		{ /*the data are shared already, the shapes may still be different*/
+			if (eta.ls != ls)
+			{
+				delete[] eta.size;
+				eta.size = new integer[ls];
+				eta.ls = ls;
+			}
+			for (integer i = 0; i < ls; i++)
+				eta.size[i] = size[i];
+			eta.length = length;
+			return;
+		}
         
 		bool IsSameSize = true;
         
-- 
2.43.0


From 3c66b228ef50dbfc8990de280802c53806847a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 08/96] fix: assigning between product elements with equal
 lengths but different shapes copies the shapes

---
 Manifolds/Element.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 2003ad7..ee1b5ce 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2934,11 +2934,17 @@ namespace ROPTLIB{
         {
             for(integer i = 0; i < innumofelements; i++)
             {
-                if(inelements[i].Getlength() != elements[i].Getlength())
+                if(inelements[i].Getlength() != elements[i].Getlength() || inelements[i].Getls() != elements[i].Getls()
+                   || inelements[i].Getiscomplex() != elements[i].Getiscomplex())
                 {
                     issamesize = false;
                     break;
                 }
+                for(integer j = 0; j < elements[i].Getls(); j++)
+                {
+                    if(inelements[i].Getsize()[j] != elements[i].Getsize()[j])
+                        issamesize = false;
+                }
             }
         }
         
-- 
2.43.0


From 4d6885ab8e01ef42e702054883ba97d0f385f2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 09/96] fix: assigning a product element removes the old
 temporary data of its components

---
 Manifolds/Element.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index ee1b5ce..d2934eb 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2591,6 +2591,8 @@ namespace ROPTLIB{
 
     void Element::CopyTo(Element &eta) const
     {
+        if(this == &eta)
+            return;
         SmartSpace::CopyTo(eta);
         eta.Setiscomplex(iscomplex);
         eta.ResetMultiElementsParams(powsinterval, numoftypes, elements, numofelements);
@@ -2598,6 +2600,7 @@ namespace ROPTLIB{
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                eta.GetElement(j).RemoveAllFromFields(); /*they belong to the old data*/
                 elements[j].CopyFieldsTo(eta.GetElement(j));
             }
         }
-- 
2.43.0


From f906d19e35e08e1954422c08270dd779c8befb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 10/96] fix: an element can be assigned one of its own fields
 (use after free)

---
 Manifolds/Element.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index d2934eb..a868153 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2606,7 +2606,7 @@ namespace ROPTLIB{
         }
         
         MAP::const_iterator thisiter = Fields.begin();
-        MAP::const_iterator etaiter, etaiterpre;
+        MAP::const_iterator etaiter;
         for (thisiter = Fields.begin(); thisiter != Fields.end(); thisiter++)
         {
             etaiter = eta.Fields.find(thisiter->first);
@@ -2621,19 +2621,15 @@ namespace ROPTLIB{
             }
         }
         if (Fields.size() < eta.Fields.size())
-        {
-            for (etaiter = eta.Fields.begin(); etaiter != eta.Fields.end();)
+        { /*this element may be a field of eta, therefore, it must not be used once the removal starts*/
+            MAP outdated;
+            for (etaiter = eta.Fields.begin(); etaiter != eta.Fields.end(); etaiter++)
             {
-                thisiter = Fields.find(etaiter->first);
-                if (thisiter == Fields.end())
-                {
-                    etaiterpre = etaiter;
-                    etaiter++;
-                    eta.RemoveFromFields(etaiterpre->first);
-                }
-                else
-                    etaiter++;
+                if (Fields.find(etaiter->first) == Fields.end())
+                    outdated.insert(*etaiter);
             }
+            for (thisiter = outdated.begin(); thisiter != outdated.end(); thisiter++)
+                eta.RemoveFromFields(thisiter->first);
         }
     };
 
-- 
2.43.0


From 66896da378f7330c152fe16e07cc275273ae3da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 11/96] fix: operator+= and operator-= modify their left
 operand

---
 Manifolds/Element.cpp | 4 ++--
 Manifolds/Element.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index a868153..c9b8f76 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -214,7 +214,7 @@ namespace ROPTLIB{
         return result;
     };
 
-    Element operator+=(Element left, Element right)
+    Element operator+=(Element &left, Element right)
     {
         assert(left.Getlength() == right.Getlength());
         realdp *leftptr = left.ObtainWritePartialData();
@@ -290,7 +290,7 @@ namespace ROPTLIB{
         return result;
     };
 
-    Element operator-=(Element left, Element right)
+    Element operator-=(Element &left, Element right)
     {
         assert(left.Getlength() == right.Getlength());
         realdp *leftptr = left.ObtainWritePartialData();
diff --git a/Manifolds/Element.h b/Manifolds/Element.h
index b541cc1..57b9eff 100644
--- a/Manifolds/Element.h
+++ b/Manifolds/Element.h
@@ -65,7 +65,7 @@ namespace ROPTLIB{
         friend Element operator+(realdpcomplex left, Element right);
         
         /*left = left + right*/
-        friend Element operator+=(Element left, Element right);
+        friend Element operator+=(Element &left, Element right);
         
         /*substract an element from another. They have to be both real or complex*/
         friend Element operator-(Element left, Element right);
@@ -83,7 +83,7 @@ namespace ROPTLIB{
         friend Element operator-(realdpcomplex left, Element right);
         
         /*left = left - right*/
-        friend Element operator-=(Element left, Element right);
+        friend Element operator-=(Element &left, Element right);
         
         /*a element times another, they have to be both real or complex
          This is matrix multiplication*/
-- 
2.43.0


From 849e912364c5cff2bf47ab997c1b69bb1920bead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 12/96] fix: GetRealInComplex and GetImagInComplex return real
 elements that are completely filled

---
 Manifolds/Element.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index c9b8f76..33e5666 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2548,7 +2548,7 @@ namespace ROPTLIB{
     Element Element::GetRealInComplex(void) const
     {
         assert(iscomplex && Space != nullptr);
-        Element result(Getrow(), Getcol(), Getnum(), "complex");
+        Element result(Getrow(), Getcol(), Getnum());
         realdp *resultptr = result.ObtainWritePartialData();
         for(integer i = 0; i < length / 2; i++)
         {
@@ -2560,7 +2560,7 @@ namespace ROPTLIB{
     Element Element::GetImagInComplex(void) const
     {
         assert(iscomplex && Space != nullptr);
-        Element result(Getrow(), Getcol(), Getnum(), "complex");
+        Element result(Getrow(), Getcol(), Getnum());
         realdp *resultptr = result.ObtainWritePartialData();
         for(integer i = 0; i < length / 2; i++)
         {
-- 
2.43.0


From 411d3d4b548c2c3d6de2dc604dfc3c1f744f12b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 13/96] fix: the periodic spline systems no longer overlap in
 the work array

---
 Others/Spline.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Others/Spline.cpp b/Others/Spline.cpp
index 885c9ec..49fd9ae 100644
--- a/Others/Spline.cpp
+++ b/Others/Spline.cpp
@@ -9,10 +9,10 @@ namespace ROPTLIB{
 		int i, nn;
 		realdp *d, *ud, *ld, *vec, *s;
 		nn = n - 1;
-		d = new realdp[5 * nn - 1];
+		d = new realdp[5 * nn + 1];
 		ud = d + nn;
-		ld = ud + (nn - 1);
-		vec = ld + (nn - 1);
+		ld = ud + nn;
+		vec = ld + nn;
 		s = vec + nn;
 		if (fabs(Y[0] - Y[nn]) > sqrt(std::numeric_limits<realdp>::epsilon()))
 		{
@@ -54,10 +54,10 @@ namespace ROPTLIB{
 		realdp *d, *ud, *ld, *vec, *s;
 		realdp hi;
 		nn = n - 1;
-		d = new realdp[5 * nn - 1];
+		d = new realdp[5 * nn + 1];
 		ud = d + nn;
-		ld = ud + (nn - 1);
-		vec = ld + (nn - 1);
+		ld = ud + nn;
+		vec = ld + nn;
 		s = vec + nn;
 		if (fabs(Y[0] - Y[nn]) > sqrt(std::numeric_limits<realdp>::epsilon()))
 		{
-- 
2.43.0


From 03474282089519a293def921dcc92da399e444c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 14/96] fix: HHRMtp accepts the documented transposes for real
 and complex elements

---
 Manifolds/Element.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 33e5666..71abd11 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -1225,6 +1225,8 @@ namespace ROPTLIB{
     Element Element::HHRMtp(Element HHR, Element tau, char *Trans, char *Side) const
     {
         assert(iscomplex == HHR.Getiscomplex() && iscomplex == tau.Getiscomplex());
+        if(strcmp(Trans, "N") != 0) /*ormqr only accepts "T" and unmqr only accepts "C" for the (conjugate) transpose*/
+            Trans = iscomplex ? GLOBAL::C : GLOBAL::T;
         
         if(!iscomplex)
         {
-- 
2.43.0


From f93831d82567c0426190e4afab404bb706a262df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 15/96] fix: the spline piece is searched with the same origin
 as it is evaluated with

---
 Others/Spline.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Others/Spline.cpp b/Others/Spline.cpp
index 49fd9ae..2eb1cce 100644
--- a/Others/Spline.cpp
+++ b/Others/Spline.cpp
@@ -293,7 +293,7 @@ namespace ROPTLIB{
 		realdp output;
 		nn = N - 1;
 		i = 0;
-		while (i < N && t - (breaks[i] - breaks[0]) >= -std::numeric_limits<realdp>::epsilon())
+		while (i < N && t - breaks[i] >= -std::numeric_limits<realdp>::epsilon())
 			i++;
 		i--;
 		i = (i < 0) ? 0 : i;
@@ -352,7 +352,7 @@ namespace ROPTLIB{
 		nn = N - 1;
 		i = 0;
 
-		while (i < N && t - (breaks[i] - breaks[0]) >= -std::numeric_limits<realdp>::epsilon())
+		while (i < N && t - breaks[i] >= -std::numeric_limits<realdp>::epsilon())
 			i++;
 		i--;
 		i = (i < 0) ? 0 : i;
@@ -393,7 +393,7 @@ namespace ROPTLIB{
 		realdp output;
 		nn = N - 1;
 		i = 0;
-		while (i < N && t - (breaks[i] - breaks[0]) >= -std::numeric_limits<realdp>::epsilon())
+		while (i < N && t - breaks[i] >= -std::numeric_limits<realdp>::epsilon())
 			i++;
 		i--;
 		i = (i < 0) ? 0 : i;
-- 
2.43.0


From 1d7309a098548113794c0b0dcfe5699409d49334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 16/96] fix: the exponential map of the sphere and its
 derivatives are defined for the zero step

---
 Manifolds/Sphere.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Sphere.cpp b/Manifolds/Sphere.cpp
index a528d33..059ae3c 100644
--- a/Manifolds/Sphere.cpp
+++ b/Manifolds/Sphere.cpp
@@ -58,7 +58,7 @@ namespace ROPTLIB{
 	Variable &Sphere::ExpRetraction(const Variable &x, const Vector &etax, Variable *result) const
 	{
 		realdp normetax = sqrt(Metric(x, etax, etax));
-		VectorLinearCombination(x, cos(normetax), x, sin(normetax) / normetax, etax, result);
+		VectorLinearCombination(x, cos(normetax), x, (normetax == 0) ? 1 : sin(normetax) / normetax, etax, result);
 		realdp normresult = sqrt(Metric(x, *result, *result));
 		return ScalarTimesVector(x, static_cast<realdp> (1) / normresult, *result, result);
 	};
@@ -70,6 +70,8 @@ namespace ROPTLIB{
 		realdp normetax = sqrt(Metric(x, etax, etax));
 		realdp sinnormetax = sin(normetax);
 		realdp cosnormetax = cos(normetax);
+		if (normetax == 0) /*the differentiated retraction at zero is the identity*/
+			return Projection(x, xiy, result);
 		VectorLinearCombination(x, sinnormetax / normetax, xiy, (xiytetax * cosnormetax / normetax
 			- xiytx * sinnormetax - xiytetax * sinnormetax / normetax / normetax) / normetax, etax, result);
 		return Projection(x, *result, result);
@@ -80,6 +82,11 @@ namespace ROPTLIB{
 		realdp etaxtxix = Metric(x, etax, xix);
 		realdp normetax = sqrt(Metric(x, etax, etax));
 		realdp sinnormetax = sin(normetax);
+        if (normetax == 0) /*the differentiated retraction at zero is the identity*/
+        {
+            *result = xix;
+            return *result;
+        }
         VectorLinearCombination(x, -sinnormetax * etaxtxix / normetax, x, sinnormetax / normetax, xix, result);
         ScalarVectorAddVector(x, (cos(normetax) - sinnormetax / normetax) * etaxtxix / normetax / normetax, etax, *result, result);
         
-- 
2.43.0


From a04e875c965526ce4067e1d65e133f0029c8d110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 17/96] fix: the affine invariant distance of SPD matrices uses
 the logarithm of the eigenvalues

---
 Manifolds/SPDManifold.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Manifolds/SPDManifold.cpp b/Manifolds/SPDManifold.cpp
index 776398c..2912dab 100644
--- a/Manifolds/SPDManifold.cpp
+++ b/Manifolds/SPDManifold.cpp
@@ -444,7 +444,13 @@ namespace ROPTLIB{
         Vector tmp2(EMPTYEXTR); tmp2.AlphaABaddBetaThis(1, tmp, GLOBAL::N, tmp, GLOBAL::T, 0);
         tmp2.EigenDecomSym();
         Vector EigVals = tmp2.Field("_EigVal");
-        return EigVals.Fnorm();
+        const realdp *EigValsptr = EigVals.ObtainReadData();
+        realdp result = 0;
+        for (integer i = 0; i < n; i++)
+        {
+            result += std::log(EigValsptr[i]) * std::log(EigValsptr[i]);
+        }
+        return std::sqrt(result);
 	};
 
 	Vector &SPDManifold::EucGradToGradEuc(const Variable &x, const Vector &egf, const Problem *prob, Vector *result) const
-- 
2.43.0


From 5015ec609e87dd9d838fa6b157890cbbe6f86497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 18/96] fix: the inverse polar retraction of the complex
 Stiefel manifold uses complex temporaries

---
 Manifolds/CStiefel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index be3044d..5ab3f67 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -525,9 +525,9 @@ namespace ROPTLIB{
 
     Vector &CStiefel::InvPolarRetraction(const Variable &x, const Variable &y, Vector *result) const
     {
-        Vector A(p, p); A.AlphaABaddBetaThis(1, x, GLOBAL::C, y, GLOBAL::N, 0); /* A = x.GetTranspose() * y; */
+        Vector A(p, p, "complex"); A.AlphaABaddBetaThis(1, x, GLOBAL::C, y, GLOBAL::N, 0); /* A = x.GetTranspose() * y; */
 
-        Vector tIp(p, p); tIp.SetToIdentity(); tIp = 2 * tIp;
+        Vector tIp(p, p, "complex"); tIp.SetToIdentity(); tIp = 2 * tIp;
         Vector soln = tIp.SYL(A, A.GetTranspose());
         *result = x; result->AlphaABaddBetaThis(1, y, GLOBAL::N, soln, GLOBAL::N, -1); /* y * tIp.SYL(A, A.GetTranspose()) - x; */
 
-- 
2.43.0


From 03b071eb888b90de5d47ba694e669817ad6a2c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 19/96] fix: CStiefel::ObtainNorVerExtr initialises the
 imaginary part of the diagonal

---
 Manifolds/CStiefel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index 5ab3f67..0c2a42c 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -389,6 +389,7 @@ namespace ROPTLIB{
         for(integer i = 0; i < p; i++)
         {
             xTetaxptr[i + i * p].r = intretaxptr[idx];
+            xTetaxptr[i + i * p].i = 0;
             idx++;
         }
         for(integer i = 0; i < p; i++)
-- 
2.43.0


From 7f9ac01588a9534dce6992c7c6c423dd557b6562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 20/96] fix: FixedRankQ2F reports the dimension of the quotient
 manifold

---
 Manifolds/FixedRankQ2F.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Manifolds/FixedRankQ2F.cpp b/Manifolds/FixedRankQ2F.cpp
index 7691906..34a3ab4 100644
--- a/Manifolds/FixedRankQ2F.cpp
+++ b/Manifolds/FixedRankQ2F.cpp
@@ -12,6 +12,8 @@ namespace ROPTLIB{
 		r = inr;
 		name.assign("Fixed-rank manifold by 2-factor form");
 		IsIntrApproach = true;
+        IntrinsicDim = (m + n - r) * r;
+        ExtrinsicDim = (m + n) * r;
         Vector F1(m, r), F2(n, r);
         Vector Prod(2, &F1, 1, &F2, 1);
         EMPTYEXTR = Prod;
-- 
2.43.0


From 0f747bea7dca05faed067b73f9efafda257e8f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 21/96] fix: FixedRankE initialises HasHHR

---
 Manifolds/FixedRankE.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index 84ca83b..cb988b7 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -11,6 +11,7 @@ namespace ROPTLIB{
 		r = inr;
 		name.assign("FixedRankEmbedded");
         IsIntrApproach = false;
+        HasHHR = false;
         ExtrinsicDim = n * m;
         IntrinsicDim = (m - r) * r + r * r + (n - r) * r;
         EMPTYEXTR = Vector(m, n);
-- 
2.43.0


From 19bedcd371e69c5e83c6f70ba53486ac2565d90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 22/96] fix: FixedRankE::ObtainNorVerIntr computes the
 Householder data it needs, as ObtainNorVerExtr does

---
 Manifolds/FixedRankE.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index cb988b7..10a249b 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -117,6 +117,17 @@ namespace ROPTLIB{
     Vector &FixedRankE::ObtainNorVerIntr(const Variable &x, const Vector &etax, Vector *result) const
     {
         Vector U = x.Field("U"), D = x.Field("D"), V = x.Field("V");
+        if(!(U.FieldsExist("_HHR")))
+        {
+            U.HHRDecom();
+            x.AddToFields("U", U);
+        }
+        if(!(V.FieldsExist("_HHR")))
+        {
+            V.HHRDecom();
+            x.AddToFields("V", V);
+        }
+        
         Vector QUTetax = etax.HHRMtp(U.Field("_HHR"), U.Field("_tau"), GLOBAL::T, GLOBAL::L);
         Vector QUTetaxQV = QUTetax.HHRMtp(V.Field("_HHR"), V.Field("_tau"), GLOBAL::N, GLOBAL::R);
         const realdp *QUTetaxQVptr = QUTetaxQV.ObtainReadData();
-- 
2.43.0


From 4319c8a132b6ce86a76ac49a46537061af830071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 23/96] fix: Sphere::ExpHInvTran updates all rows of the
 columns it transports

---
 Manifolds/Sphere.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/Sphere.cpp b/Manifolds/Sphere.cpp
index 059ae3c..d9a0f61 100644
--- a/Manifolds/Sphere.cpp
+++ b/Manifolds/Sphere.cpp
@@ -147,7 +147,7 @@ namespace ROPTLIB{
 		realdp *resultL = result->ObtainWritePartialData();
 		/* resultL(:, start : start + length - 1) <- scalar * Hxpy * xv^T + resultL(:, start : start + length - 1),
 		details: www.netlib.org/lapack/explore-html/dc/da8/ger_8f.html */
-		ger_(&length, &ell, &scalar, Hxpy, &GLOBAL::IONE, const_cast<realdp *> (xv), &GLOBAL::IONE, resultL + start * ell, &ell);
+		ger_(&ell, &length, &scalar, Hxpy, &GLOBAL::IONE, const_cast<realdp *> (xv), &GLOBAL::IONE, resultL + start * ell, &ell);
 
 		delete[] Hxpy;
         return *result;
-- 
2.43.0


From 10cf96b6628d1d65a1b516ee9d5053deaa5c8ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 24/96] fix: Sphere::coTangentVector of the exponential map may
 overwrite its argument, as documented

---
 Manifolds/Sphere.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/Sphere.cpp b/Manifolds/Sphere.cpp
index d9a0f61..df03dbf 100644
--- a/Manifolds/Sphere.cpp
+++ b/Manifolds/Sphere.cpp
@@ -72,8 +72,8 @@ namespace ROPTLIB{
 		realdp cosnormetax = cos(normetax);
 		if (normetax == 0) /*the differentiated retraction at zero is the identity*/
 			return Projection(x, xiy, result);
-		VectorLinearCombination(x, sinnormetax / normetax, xiy, (xiytetax * cosnormetax / normetax
-			- xiytx * sinnormetax - xiytetax * sinnormetax / normetax / normetax) / normetax, etax, result);
+		VectorLinearCombination(x, (xiytetax * cosnormetax / normetax
+			- xiytx * sinnormetax - xiytetax * sinnormetax / normetax / normetax) / normetax, etax, sinnormetax / normetax, xiy, result);
 		return Projection(x, *result, result);
 	};
 
-- 
2.43.0


From f4ce36b6625e76adabd639daab1ee229fabb9cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 25/96] fix: the extrinsic differentiated retraction of the
 Grassmann manifold is horizontal

---
 Manifolds/Grassmann.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/Grassmann.cpp b/Manifolds/Grassmann.cpp
index b10c0c9..627a69c 100644
--- a/Manifolds/Grassmann.cpp
+++ b/Manifolds/Grassmann.cpp
@@ -112,7 +112,7 @@ namespace ROPTLIB{
         if(IsIntrApproach)
             ObtainIntr(y, exresult, result);
         else
-            *result = exresult;
+            ExtrProjection(y, exresult, result); /*the horizontal representation*/
         
         if (IsEtaXiSameDir && HasHHR)
         {
-- 
2.43.0


From 559bf996a7ddc63d6c5e60b6ac552febfcc49be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 26/96] fix: Beta returns the step ratio attached by
 DiffRetraction on every manifold that supports the locking condition

---
 Manifolds/Manifold.cpp | 2 ++
 Manifolds/Manifold.h   | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index 7f2125b..5992408 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -159,6 +159,8 @@ namespace ROPTLIB{
         #ifdef CHECKMANIFOLDOVERRIDDEN
                 printf("Manifold::Beta has not been overridden!\n");
         #endif
+        if (HasHHR && etax.FieldsExist("beta")) /*attached by the differentiated retraction*/
+            return etax.Field("beta").ObtainReadData()[0];
 		return 1;
 	};
 
diff --git a/Manifolds/Manifold.h b/Manifolds/Manifold.h
index b65ee03..e057ba6 100644
--- a/Manifolds/Manifold.h
+++ b/Manifolds/Manifold.h
@@ -127,7 +127,7 @@ namespace ROPTLIB{
 		virtual Vector &DiffRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir = false) const;
 
 		/*computes beta = \|etax\| / \|\mathcal{T}_{R_etax} etax\|
-		Default: beta <-- 1*/
+		Default: beta <-- 1 if HasHHR is false, the ratio attached to etax by DiffRetraction otherwise*/
 		virtual realdp Beta(const Variable &x, const Vector &etax) const;
 
 		/*compute the distance between two points on the manifold.
-- 
2.43.0


From 5dda7679cc6687b01712a0aa1e256180fa3a7d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 27/96] fix: FixedRankE::DiffRetraction is defined when the
 left or right factor of the step is zero

---
 Manifolds/FixedRankE.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index 10a249b..1d2db34 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -216,14 +216,16 @@ namespace ROPTLIB{
             Vector Dx = x.Field("D"), Dy = y.Field("D");
             Vector Vx = x.Field("V"), dVeta = etax.Field("dV"), Vy = y.Field("V"), dVxix = xix.Field("dV");
             
-            realdp alpha1 = sqrt(dUxix.DotProduct(dUxix) / dUeta.DotProduct(dUeta));
+            realdp ndUeta = dUeta.DotProduct(dUeta); /*zero if, e.g., m == r*/
+            realdp alpha1 = (ndUeta == 0) ? 0 : sqrt(dUxix.DotProduct(dUxix) / ndUeta);
             Vector Uy_Vt = Uy.Field("_Vt"), Uy_S = Uy.Field("_S");
             Vector tmp1 = dUeta * Uy_Vt.GetTranspose();
             Uy_S = 1 / Uy_S;
             tmp1 = Uy_S.GetDiagTimesM(tmp1, GLOBAL::R) * Uy_Vt;
             Vector result1 = (tmp1 - Uy * (tmp1.GetTranspose() * tmp1)) * alpha1;
             
-            realdp alpha2 = sqrt(dVxix.DotProduct(dVxix) / dVeta.DotProduct(dVeta));
+            realdp ndVeta = dVeta.DotProduct(dVeta); /*zero if, e.g., n == r*/
+            realdp alpha2 = (ndVeta == 0) ? 0 : sqrt(dVxix.DotProduct(dVxix) / ndVeta);
             Vector Vy_Vt = Vy.Field("_Vt"), Vy_S = Vy.Field("_S");
             Vector tmp2 = dVeta * Vy_Vt.GetTranspose();
             Vy_S = 1 / Vy_S;
-- 
2.43.0


From 1ba412cb13948392064d651759ac866ce64fe5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 28/96] fix: SymFixedRankQ and CSymFixedRankQ transport the
 operator, not a vector, with the locking condition

---
 Manifolds/CSymFixedRankQ.cpp | 2 +-
 Manifolds/SymFixedRankQ.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/CSymFixedRankQ.cpp b/Manifolds/CSymFixedRankQ.cpp
index 25e9b52..5351e91 100644
--- a/Manifolds/CSymFixedRankQ.cpp
+++ b/Manifolds/CSymFixedRankQ.cpp
@@ -236,7 +236,7 @@ namespace ROPTLIB{
         }
 
         if (HasHHR)
-            return LCVectorTransport(x, etax, y, Hx, result);
+            return LCTranHInvTran(x, etax, y, Hx, result);
 
         printf("Error: CSymFixedRankQ::TranHInvTran has not been done!\n");
         return Manifold::TranHInvTran(x, etax, y, Hx, result);
diff --git a/Manifolds/SymFixedRankQ.cpp b/Manifolds/SymFixedRankQ.cpp
index f2187ce..13b2bf4 100644
--- a/Manifolds/SymFixedRankQ.cpp
+++ b/Manifolds/SymFixedRankQ.cpp
@@ -287,7 +287,7 @@ namespace ROPTLIB{
         }
 
         if (HasHHR)
-            return LCVectorTransport(x, etax, y, Hx, result);
+            return LCTranHInvTran(x, etax, y, Hx, result);
 
         printf("Error: TranHInvTran has not been done!\n");
         return Manifold::TranHInvTran(x, etax, y, Hx, result);
-- 
2.43.0


From df387a504618a2379436fc686a4a717197a30e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 29/96] fix: LCVectorTransport measures the vector before
 overwriting it and transports the zero vector to zero

---
 Manifolds/Manifold.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index 5992408..f831eda 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -730,8 +730,11 @@ namespace ROPTLIB{
         {
             Obtainnu1nu2forLC(x, etax, y);
         }
+        realdp nxixsq = Metric(x, xix, xix); /*xix and result may be the same*/
         HasHHR = false; VectorTransport(x, etax, y, xix, result); HasHHR = true;
-        ScalarTimesVector(y, sqrt(Metric(x, xix, xix) / Metric(y, *result, *result)), *result, result);
+        realdp nresultsq = Metric(y, *result, *result);
+        if (nresultsq != 0)
+            ScalarTimesVector(y, sqrt(nxixsq / nresultsq), *result, result);
         
         Element tau1tau2 = etax.Field("tau1tau2");
         const realdp *tau1tau2ptr = tau1tau2.ObtainReadData();
-- 
2.43.0


From 206217fab4f5f89b904f4ea5dab490f644b6838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 30/96] fix: LinearOPEEta writes into complex vectors through
 their real coordinates

---
 Manifolds/Manifold.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index f831eda..baba504 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -27,6 +27,7 @@ namespace ROPTLIB{
         bool etaxiscomplex = etax.Getiscomplex();
         etax.Setiscomplex(false);
         Vector etaxreshape = etax; etaxreshape.Reshape(etax.Getlength());
+        result->Setiscomplex(false);
         result->AlphaABaddBetaThis(1, Hx, GLOBAL::N, etaxreshape, GLOBAL::N, 0);
         etax.Setiscomplex(etaxiscomplex);
         result->Setiscomplex(etaxiscomplex);
-- 
2.43.0


From 22b3b25571b18fc69705998ba72571bc00316ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 31/96] fix: the parallel translation of SPDManifold no longer
 returns zero

---
 Manifolds/SPDManifold.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Manifolds/SPDManifold.cpp b/Manifolds/SPDManifold.cpp
index 2912dab..23513d4 100644
--- a/Manifolds/SPDManifold.cpp
+++ b/Manifolds/SPDManifold.cpp
@@ -509,8 +509,11 @@ namespace ROPTLIB{
         Vector LiELiThalf = LiE.GetTranspose().TriangleLinSol(x.Field("_L"));
         LiELiThalf.ScalarTimesThis(0.5);
         Vector tmp = x.Field("_L") * LiELiThalf.ExpSym().TriangleLinSol(x.Field("_L"), GLOBAL::T).GetTranspose();
-        LiE.AlphaABaddBetaThis(0, tmp, GLOBAL::N, exxix, GLOBAL::N, 0); /*LiE is for temporary storage*/
-        result->AlphaABaddBetaThis(1, LiE, GLOBAL::N, tmp, GLOBAL::T, 0); /* *result = tmp * exxix * tmp.GetTranspose(); */
+        LiE.AlphaABaddBetaThis(1, tmp, GLOBAL::N, exxix, GLOBAL::N, 0); /*LiE is for temporary storage*/
+        exxix.AlphaABaddBetaThis(1, LiE, GLOBAL::N, tmp, GLOBAL::T, 0); /* exxix <- tmp * exxix * tmp.GetTranspose(); */
+        if(IsIntrApproach)
+            return ObtainIntr(y, exxix, result);
+        *result = exxix;
         return *result;
     };
         
-- 
2.43.0


From 4db8cfc2db2dc7d6a75d948fb6dff1cee40c730d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:00 +0000
Subject: [PATCH 32/96] fix: SPDManifold transports with the locking condition
 when asked to, and its inverse transport inverts the transport

---
 Manifolds/SPDManifold.cpp | 17 +++++++++++++++++
 Manifolds/SPDManifold.h   |  3 +++
 2 files changed, 20 insertions(+)

diff --git a/Manifolds/SPDManifold.cpp b/Manifolds/SPDManifold.cpp
index 23513d4..d4ffd1d 100644
--- a/Manifolds/SPDManifold.cpp
+++ b/Manifolds/SPDManifold.cpp
@@ -477,6 +477,9 @@ namespace ROPTLIB{
 
     Vector &SPDManifold::VectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
     {
+        if (HasHHR)
+            return LCVectorTransport(x, etax, y, xix, result);
+
         if (VecTran == SPDPARATRAN)
             return ParallelTranslation(x, etax, y, xix, result);
         
@@ -487,6 +490,20 @@ namespace ROPTLIB{
         return VectorTransportParallelization(x, etax, y, xix, result);
     };
 
+    Vector &SPDManifold::InverseVectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xiy, Vector *result) const
+    {
+        if (HasHHR)
+            return LCInverseVectorTransport(x, etax, y, xiy, result);
+
+        if (VecTran == SPDPARATRAN)
+        { /*the geodesic from y to x is the reversed one: translate along the translated and reversed direction*/
+            Vector etay(etax); ParallelTranslation(x, etax, y, etax, &etay);
+            ScalarTimesVector(y, -1, etay, &etay);
+            return ParallelTranslation(y, etay, x, xiy, result);
+        }
+        return VectorTransportParallelization(y, etax, x, xiy, result);
+    };
+
     Vector &SPDManifold::ParallelTranslation(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
     {
         if (!x.FieldsExist("_L"))
diff --git a/Manifolds/SPDManifold.h b/Manifolds/SPDManifold.h
index 9de6fcb..faf11f8 100644
--- a/Manifolds/SPDManifold.h
+++ b/Manifolds/SPDManifold.h
@@ -89,6 +89,9 @@ namespace ROPTLIB{
 
         /*Computes the vector transport, i.e., result = \mathcal{T}_etax (xix)*/
         virtual Vector &VectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const;
+
+        /*Computes the inverse vector transport, i.e., result = \mathcal{T}_etax^{-1} (xiy)*/
+        virtual Vector &InverseVectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xiy, Vector *result) const;
         
 	protected:
 		integer n; /*The size of the space, i.e., the number of row/column */
-- 
2.43.0


From c9c6df36e51722e8e2d22103862d7496efe809bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:00 +0000
Subject: [PATCH 33/96] fix: the intrinsic transport by projection of
 (C)SymFixedRankQ projects at the new point

---
 Manifolds/CSymFixedRankQ.cpp | 1 +
 Manifolds/SymFixedRankQ.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Manifolds/CSymFixedRankQ.cpp b/Manifolds/CSymFixedRankQ.cpp
index 5351e91..6add1c1 100644
--- a/Manifolds/CSymFixedRankQ.cpp
+++ b/Manifolds/CSymFixedRankQ.cpp
@@ -732,6 +732,7 @@ namespace ROPTLIB{
         if(IsIntrApproach)
         {
             Vector exxix(EMPTYEXTR); ObtainExtr(x, xix, &exxix);
+            ExtrProjection(y, exxix, &exxix);
             return ObtainIntr(y, exxix, result);
         }
         
diff --git a/Manifolds/SymFixedRankQ.cpp b/Manifolds/SymFixedRankQ.cpp
index 13b2bf4..86a3e46 100644
--- a/Manifolds/SymFixedRankQ.cpp
+++ b/Manifolds/SymFixedRankQ.cpp
@@ -922,6 +922,7 @@ namespace ROPTLIB{
         if(IsIntrApproach)
         {
             Vector exxix(EMPTYEXTR); ObtainExtr(x, xix, &exxix);
+            ExtrProjection(y, exxix, &exxix);
             return ObtainIntr(y, exxix, result);
         }
         
-- 
2.43.0


From e15941babfe0964195af902cc28dfb1202fe47f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 34/96] fix: the extrinsic inverse transport of (C)FixedRankQ2F
 starts from the coordinates at y

---
 Manifolds/CFixedRankQ2F.cpp | 2 +-
 Manifolds/FixedRankQ2F.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/CFixedRankQ2F.cpp b/Manifolds/CFixedRankQ2F.cpp
index 9842671..7835764 100644
--- a/Manifolds/CFixedRankQ2F.cpp
+++ b/Manifolds/CFixedRankQ2F.cpp
@@ -381,7 +381,7 @@ namespace ROPTLIB{
             return *result;
         }
         
-        Vector inxiy(EMPTYINTR); ObtainIntr(x, xiy, &inxiy);
+        Vector inxiy(EMPTYINTR); ObtainIntr(y, xiy, &inxiy);
         return ObtainExtr(x, inxiy, result);
     };
 
diff --git a/Manifolds/FixedRankQ2F.cpp b/Manifolds/FixedRankQ2F.cpp
index 34a3ab4..d623f7e 100644
--- a/Manifolds/FixedRankQ2F.cpp
+++ b/Manifolds/FixedRankQ2F.cpp
@@ -355,7 +355,7 @@ namespace ROPTLIB{
             return *result;
         }
         
-        Vector inxiy(EMPTYINTR); ObtainIntr(x, xiy, &inxiy);
+        Vector inxiy(EMPTYINTR); ObtainIntr(y, xiy, &inxiy);
         return ObtainExtr(x, inxiy, result);
     };
 
-- 
2.43.0


From 16daf4e00097dde6e02d86874905c823dc3cc8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 35/96] fix: the locking transports use one reflection when the
 transported step is opposite to the image of the step

---
 Manifolds/Manifold.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index baba504..25447d1 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -717,8 +717,10 @@ namespace ROPTLIB{
         realdp *tau1tau2ptr = tau1tau2.ObtainWriteEntireData();
         ScalarTimesVector(y, 2.0, eps1, &nu1);
         VectorLinearCombination(y, -1.0, eps1, -1.0, TRetaVector, &nu2);
-        tau1tau2ptr[0] = static_cast<realdp> (2) / Metric(y, nu1, nu1);
-        tau1tau2ptr[1] = static_cast<realdp> (2) / Metric(y, nu2, nu2);
+        realdp nnu1 = Metric(y, nu1, nu1), nnu2 = Metric(y, nu2, nu2);
+        tau1tau2ptr[0] = static_cast<realdp> (2) / nnu1;
+        /*nu2 is (numerically) zero if eps1 = -TRetaVector: the first reflection is enough*/
+        tau1tau2ptr[1] = (nnu2 <= std::numeric_limits<realdp>::epsilon() * nnu1) ? 0 : static_cast<realdp> (2) / nnu2;
         
         etax.AddToFields("tau1tau2", tau1tau2);
         etax.AddToFields("nu1", nu1);
-- 
2.43.0


From 8ac9479b4d885588279ea4b6a39ebc0d1aea7ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 36/96] fix: SymFixedRankQ::ObtainExtrQEUC computes the basis
 it needs when ObtainIntrQEUC has not been called

---
 Manifolds/SymFixedRankQ.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Manifolds/SymFixedRankQ.cpp b/Manifolds/SymFixedRankQ.cpp
index 86a3e46..b5d0177 100644
--- a/Manifolds/SymFixedRankQ.cpp
+++ b/Manifolds/SymFixedRankQ.cpp
@@ -699,6 +699,12 @@ namespace ROPTLIB{
         }
         
         integer dim = p * (p + 1) / 2;
+        if(!x.FieldsExist("BL"))
+        { /*computed with the coordinates of any vector*/
+            Vector exzero(EMPTYEXTR), inzero(EMPTYINTR);
+            exzero.SetToZeros();
+            ObtainIntrQEUC(x, exzero, &inzero);
+        }
         Vector BL = x.Field("BL");
         
         Vector tmp = BL.GetTranspose() % intretax.GetSubmatrix(0, dim - 1, 0, 0);
-- 
2.43.0


From 144a344b8f268a012859c6e6fa31508da8dccc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:21 +0000
Subject: [PATCH 37/96] fix: a problem does not use numerical derivatives
 unless asked to (the switches were uninitialised)

---
 Problems/Problem.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Problems/Problem.h b/Problems/Problem.h
index e721254..be008cd 100644
--- a/Problems/Problem.h
+++ b/Problems/Problem.h
@@ -108,9 +108,9 @@ namespace ROPTLIB{
         
 	protected:
 		Manifold *Domain; /*Domain of the cost function. It is required to be assigned.*/
-		mutable bool UseGrad; /*Mark whether the gradient is used*/
-		mutable bool UseHess; /*Mark whether the action of the Hessian is used.*/
-        mutable bool NumGradHess;
+		mutable bool UseGrad = false; /*Mark whether the gradient is used*/
+		mutable bool UseHess = false; /*Mark whether the action of the Hessian is used.*/
+        mutable bool NumGradHess = false;
 	};
 
 }; /*end of ROPTLIB namespace*/
-- 
2.43.0


From 17bc1c6e852b39a3240cad8a99a3924b369b778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 38/96] fix: MultiManifolds::TranHInvTran transports the given
 operator

---
 Manifolds/MultiManifolds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 4a53cd0..2ed49b7 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -387,7 +387,7 @@ namespace ROPTLIB{
 		if (HasHHR)
 			return LCTranHInvTran(x, etax, y, Hx, result);
 
-        result->CopyOnWrite();
+        *result = Hx;
         
 		integer start, end = 0;
 		for (integer i = 0; i < numoftypes; i++)
-- 
2.43.0


From addcd4c42048540555777a6fec87b1ab973af571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 39/96] fix: MultiManifolds::Beta overrides the function of the
 base class and reads the step

---
 Manifolds/MultiManifolds.cpp | 6 +++---
 Manifolds/MultiManifolds.h   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 2ed49b7..8bedc40 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -266,7 +266,7 @@ namespace ROPTLIB{
         return *result;
 	};
 
-	realdp MultiManifolds::Beta(const Variable &x, Vector &etax) const
+	realdp MultiManifolds::Beta(const Variable &x, const Vector &etax) const
 	{
 		if (!HasHHR)
 			return 1;
@@ -283,9 +283,9 @@ namespace ROPTLIB{
 		{
 			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
 			{
-				if (x.GetElement(j).FieldsExist("beta"))
+				if (etax.GetElement(j).FieldsExist("beta"))
 				{
-					betav = x.GetElement(j).Field("beta").ObtainReadData();
+					betav = etax.GetElement(j).Field("beta").ObtainReadData();
 					numerator += betav[1];
 					denominator += betav[2];
 				}
diff --git a/Manifolds/MultiManifolds.h b/Manifolds/MultiManifolds.h
index b10c763..0b0490e 100644
--- a/Manifolds/MultiManifolds.h
+++ b/Manifolds/MultiManifolds.h
@@ -121,7 +121,7 @@ namespace ROPTLIB{
 		/*computes beta = \|etax\| / \|\mathcal{T}_{R_etax} etax\|
 		Default: etax = (etax_1, dots, eta_n);
 		beta = \sqrt(sum \|eta_i\|_2^2) / \sqrt(sum \|\mathcal{T}_{R_{etax_i}} etax_i\|) */
-        virtual realdp Beta(const Variable &x, Vector &etax) const;
+        virtual realdp Beta(const Variable &x, const Vector &etax) const;
 
 		/*compute the distance between two points on the manifold.
 		Default: sqrt(dist_M1(x1_1, x2_2)^2 + dist_M2(x1_2, x2_2)^2 + ... + dist_M1(x1_n, x2_n)^2)
-- 
2.43.0


From f3cd46b501de1751dbc1558fa2534eb9d03ee75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 40/96] fix: the extrinsic retraction of a product leaves the
 representation of its factors as it was

---
 Manifolds/MultiManifolds.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 8bedc40..ff36240 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -214,9 +214,10 @@ namespace ROPTLIB{
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                bool isintr = manifolds[i]->GetIsIntrinsic();
                 manifolds[i]->SetIsIntrApproach(false);
                 manifolds[i]->Retraction(x.GetElement(j), etax.GetElement(j), &(result->GetElement(j)));
-                manifolds[i]->SetIsIntrApproach(true);
+                manifolds[i]->SetIsIntrApproach(isintr);
             }
         }
         return *result;
@@ -241,9 +242,10 @@ namespace ROPTLIB{
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                bool isintr = manifolds[i]->GetIsIntrinsic();
                 manifolds[i]->SetIsIntrApproach(false);
                 manifolds[i]->InvRetraction(x.GetElement(j), y.GetElement(j), &(result->GetElement(j)));
-                manifolds[i]->SetIsIntrApproach(true);
+                manifolds[i]->SetIsIntrApproach(isintr);
             }
         }
         
-- 
2.43.0


From ffb5aa9b56fa2571b8c538f8ed44ff671f49b3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:44 +0000
Subject: [PATCH 41/96] fix: the scale of the transport of a product compares
 the step at x with its image at y

---
 Manifolds/MultiManifolds.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index ff36240..7df5bf1 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -319,10 +319,10 @@ namespace ROPTLIB{
         {
             Vector beta(3);
             realdp *betaptr = beta.ObtainWriteEntireData();
-            realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, xix, xix));
-            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(x, *result, *result)) / EtatoXi;
+            realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, inxix, inxix));
+            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(y, *result, *result)) / EtatoXi;
             betaptr[1] = Metric(x, etax, etax);
-            betaptr[2] = Metric(x, *result, *result) * EtatoXi * EtatoXi;
+            betaptr[2] = Metric(y, *result, *result) * EtatoXi * EtatoXi;
             etax.AddToFields("beta", beta);
             
             if (HasHHR)
-- 
2.43.0


From 4169a1525045013def4ea262b5ca24d4450fdbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 42/96] fix: the default differentiated retraction measures the
 image at y and keeps the scale when it overwrites its input

---
 Manifolds/Manifold.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index 25447d1..f81f439 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -134,16 +134,18 @@ namespace ROPTLIB{
                 printf("Manifold::DiffRetraction has not been overridden!\n");
         #endif
         
-        Projection(y, xix, result);
+        /*xix and result may be the same. Store xix first.*/
+        Vector inxix = xix;
+        Projection(y, inxix, result);
 
         if (IsEtaXiSameDir && HasHHR)
         {
             Vector beta(3);
             realdp *betaptr = beta.ObtainWriteEntireData();
-            realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, xix, xix));
-            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(x, *result, *result)) / EtatoXi;
+            realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, inxix, inxix));
+            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(y, *result, *result)) / EtatoXi;
             betaptr[1] = Metric(x, etax, etax);
-            betaptr[2] = Metric(x, *result, *result) * EtatoXi * EtatoXi;
+            betaptr[2] = Metric(y, *result, *result) * EtatoXi * EtatoXi;
             etax.AddToFields("beta", beta);
             
             if (HasHHR)
-- 
2.43.0


From 74a8bfde7dcb9ea0f298b48ab76429a7c17b0cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 43/96] fix: the data of a component stay with its product of
 elements and are not shared with copies

---
 Manifolds/SmartSpace.cpp | 26 ++++++++++++++++++++++++++
 Manifolds/SmartSpace.h   |  1 +
 2 files changed, 27 insertions(+)

diff --git a/Manifolds/SmartSpace.cpp b/Manifolds/SmartSpace.cpp
index 23312b3..c1aeab9 100644
--- a/Manifolds/SmartSpace.cpp
+++ b/Manifolds/SmartSpace.cpp
@@ -102,6 +102,15 @@ namespace ROPTLIB{
 			return;
 		}
         
+		if (eta.ispart && eta.Space != nullptr)
+		{ /*the data of a component stay where the product of elements has them*/
+			assert(eta.length == length);
+			integer N = length, inc = 1;
+			if (Space != nullptr)
+				copy_(&N, Space, &inc, eta.Space, &inc);
+			return;
+		}
+        
 		bool IsSameSize = true;
         
 		if (eta.ls != ls)
@@ -132,6 +141,20 @@ namespace ROPTLIB{
              }
 			return;
 		}
+		if (ispart && Space != nullptr)
+		{ /*the data of a component are never shared since they live only as long as the product of elements does*/
+			realdp *newSpace = new realdp[length];
+			integer *newsize = new integer[ls];
+			integer N = length, inc = 1;
+			copy_(&N, Space, &inc, newSpace, &inc);
+			for (integer i = 0; i < ls; i++)
+				newsize[i] = size[i];
+			integer newls = ls, newlength = length; /*eta may contain this component*/
+			eta.SmartSpace::Delete();
+			eta.SetByParams(newsize, newls, newlength, new integer(1), newSpace);
+			eta.ispart = false;
+			return;
+		}
 		if (eta.sharedtimes != nullptr && *(eta.sharedtimes) > 1)
 		{
 			(*(eta.sharedtimes))--;
@@ -299,12 +322,14 @@ namespace ROPTLIB{
 		length = inlength;
 		sharedtimes = insharedtimes;
 		Space = inSpace;
+		ispart = true;
 	};
 
     void SmartSpace::SetByParams(integer *insharedtimes, realdp *inSpace)
     {
         sharedtimes = insharedtimes;
         Space = inSpace;
+        ispart = true;
     };
 
     void SmartSpace::DeleteBySettingNull(void)
@@ -312,6 +337,7 @@ namespace ROPTLIB{
         size = nullptr;
         sharedtimes = nullptr;
         Space = nullptr;
+        ispart = false;
     };
 
 	void SmartSpace::Delete(void)
diff --git a/Manifolds/SmartSpace.h b/Manifolds/SmartSpace.h
index 173dae9..4353e07 100644
--- a/Manifolds/SmartSpace.h
+++ b/Manifolds/SmartSpace.h
@@ -108,6 +108,7 @@ namespace ROPTLIB{
 
 		integer *sharedtimes; /*The number of use of the data*/
 		realdp *Space; /*The pointer which points to the data*/
+		bool ispart = false; /*The data are a part of the data of a product of elements, which owns them*/
 
 		/*allocate memory*/
 		void NewMemory(void);
-- 
2.43.0


From 8fcdfba09927be94d229457639e43438e5358caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 44/96] fix: the inverse polar retraction returns the
 representation of tangent vectors in use

---
 Manifolds/CStiefel.cpp | 5 ++++-
 Manifolds/Stiefel.cpp  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index 0c2a42c..90519e8 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -530,7 +530,10 @@ namespace ROPTLIB{
 
         Vector tIp(p, p, "complex"); tIp.SetToIdentity(); tIp = 2 * tIp;
         Vector soln = tIp.SYL(A, A.GetTranspose());
-        *result = x; result->AlphaABaddBetaThis(1, y, GLOBAL::N, soln, GLOBAL::N, -1); /* y * tIp.SYL(A, A.GetTranspose()) - x; */
+        Vector exresult(x); exresult.AlphaABaddBetaThis(1, y, GLOBAL::N, soln, GLOBAL::N, -1); /* y * tIp.SYL(A, A.GetTranspose()) - x; */
+        if (IsIntrApproach)
+            return ObtainIntr(x, exresult, result);
+        *result = exresult;
 
         return *result;
     };
diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index 6fbe5d5..76546be 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -584,7 +584,10 @@ namespace ROPTLIB{
         
         Vector tIp(p, p); tIp.SetToIdentity(); tIp = 2 * tIp;
         Vector soln = tIp.SYL(A, A.GetTranspose());
-        *result = x; result->AlphaABaddBetaThis(1, y, GLOBAL::N, soln, GLOBAL::N, -1); /* y * tIp.SYL(A, A.GetTranspose()) - x; */
+        Vector exresult(x); exresult.AlphaABaddBetaThis(1, y, GLOBAL::N, soln, GLOBAL::N, -1); /* y * tIp.SYL(A, A.GetTranspose()) - x; */
+        if (IsIntrApproach)
+            return ObtainIntr(x, exresult, result);
+        *result = exresult;
         
         return *result;
     };
-- 
2.43.0


From 2f9e86c393b7223d486e7601d699245a044feb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 45/96] fix: copies of a product of products carry the data
 attached to the inner components

---
 Manifolds/Element.cpp | 22 ++++++++++++++--------
 Manifolds/Element.h   |  3 +++
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 71abd11..24acbaf 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2598,14 +2598,7 @@ namespace ROPTLIB{
         SmartSpace::CopyTo(eta);
         eta.Setiscomplex(iscomplex);
         eta.ResetMultiElementsParams(powsinterval, numoftypes, elements, numofelements);
-        for(integer i = 0; i < numoftypes; i++)
-        {
-            for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
-            {
-                eta.GetElement(j).RemoveAllFromFields(); /*they belong to the old data*/
-                elements[j].CopyFieldsTo(eta.GetElement(j));
-            }
-        }
+        CopyFieldsOfElementsTo(eta);
         
         MAP::const_iterator thisiter = Fields.begin();
         MAP::const_iterator etaiter;
@@ -2635,6 +2628,19 @@ namespace ROPTLIB{
         }
     };
 
+    void Element::CopyFieldsOfElementsTo(Element &eta) const
+    {
+        if(numofelements != eta.numofelements)
+            return;
+        
+        for(integer i = 0; i < numofelements; i++)
+        {
+            eta.elements[i].RemoveAllFromFields(); /*they belong to the old data*/
+            elements[i].CopyFieldsTo(eta.elements[i]);
+            elements[i].CopyFieldsOfElementsTo(eta.elements[i]);
+        }
+    };
+
     void Element::CopyFieldsTo(Element &eta) const
     {
         MAP::const_iterator thisiter = Fields.begin();
diff --git a/Manifolds/Element.h b/Manifolds/Element.h
index 57b9eff..ee5258b 100644
--- a/Manifolds/Element.h
+++ b/Manifolds/Element.h
@@ -465,6 +465,9 @@ namespace ROPTLIB{
         this Element and "eta" Element will use same space to store shared temp data.*/
         virtual void CopyFieldsTo(Element &eta) const;
 
+        /*Copy all fields attached to the components of this element, and to their components, to those of eta*/
+        void CopyFieldsOfElementsTo(Element &eta) const;
+
         /*Randomly create this Element. In other words, the space will be allocated based
         on the size. Then each entry in the space will be generated by the uniform distribution in [start, end].
         Note that all the temporary data are also removed.*/
-- 
2.43.0


From c8818e087eef5d503c6e154a34add786e8b4f519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 46/96] fix: the data of the Cayley retraction belong to the
 new point and do not go stale

---
 Manifolds/Stiefel.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index 76546be..d5dbe4b 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -803,10 +803,10 @@ namespace ROPTLIB{
 		realdp *resultptr = result->ObtainWritePartialData();
 		gemm_(GLOBAL::N, GLOBAL::N, &N, &P, &P2, &GLOBAL::DONE, Uptr, &N, Mk3ptr, &P2, &GLOBAL::DONE, resultptr, &N);
 
-        x.AddToFields("Mk2", Mk2);
-        x.AddToFields("Mk3", Mk3);
-        x.AddToFields("LUP", LUP);
-        x.AddToFields("U", U);
+        result->AddToFields("Mk2", Mk2);
+        result->AddToFields("Mk3", Mk3);
+        result->AddToFields("LUP", LUP);
+        result->AddToFields("U", U);
         return *result;
 	};
 
@@ -820,10 +820,10 @@ namespace ROPTLIB{
 	{
 		if (IsEtaXiSameDir)
 		{
-			const realdp *Mk2ptr = x.Field("Mk2").ObtainReadData();
-			const realdp *Mk3ptr = x.Field("Mk3").ObtainReadData();
-			const realdp *LUPptr = x.Field("LUP").ObtainReadData();
-			const realdp *Uptr = x.Field("U").ObtainReadData();
+			const realdp *Mk2ptr = y.Field("Mk2").ObtainReadData();
+			const realdp *Mk3ptr = y.Field("Mk3").ObtainReadData();
+			const realdp *LUPptr = y.Field("LUP").ObtainReadData();
+			const realdp *Uptr = y.Field("U").ObtainReadData();
 
 			realdp *Mk2Mk3 = new realdp[4 * p * p];
 			realdp *tmp = Mk2Mk3 + 2 * p * p;
@@ -891,8 +891,8 @@ namespace ROPTLIB{
         else
             exxix = xix;
         
-        const realdp *LUPptr = x.Field("LUP").ObtainReadData();
-        const realdp *Uptr = x.Field("U").ObtainReadData();
+        const realdp *LUPptr = y.Field("LUP").ObtainReadData();
+        const realdp *Uptr = y.Field("U").ObtainReadData();
         
 		realdp *V = new realdp[n * 2 * p + 2 * p * p];
 		realdp *Vtxix = V + n * 2 * p;
@@ -932,8 +932,8 @@ namespace ROPTLIB{
         else
             exxiy = xiy;
         
-        const realdp *LUPptr = x.Field("LUP").ObtainReadData();
-        const realdp *Uptr = x.Field("U").ObtainReadData();
+        const realdp *LUPptr = y.Field("LUP").ObtainReadData();
+        const realdp *Uptr = y.Field("U").ObtainReadData();
         
 		realdp *V = new realdp[n * 2 * p + 2 * p * p];
 		realdp *Utxiy = V + n * 2 * p;
-- 
2.43.0


From 1c81ff980bc5c84120d7581ee52b26855d9a0f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 47/96] fix: FixedRankE keeps the Euclidean gradient, not its
 projection, when the gradient is overwritten

---
 Manifolds/FixedRankE.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index 1d2db34..ada7c83 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -289,12 +289,11 @@ namespace ROPTLIB{
 
 	Vector &FixedRankE::EucGradToGrad(const Variable &x, const Vector &egf, const Problem *prob, Vector *result)  const
 	{
-        Projection(x, egf, result);
         if(prob->GetUseHess())
         {
-            x.AddToFields("EGrad", egf);
+            x.AddToFields("EGrad", egf); /*before the projection since result may be egf*/
         }
-        return *result;
+        return Projection(x, egf, result);
 	};
 
 	Vector &FixedRankE::EucHvToHv(const Variable &x, const Vector &etax, const Vector &exix, const Problem *prob, Vector *result) const
-- 
2.43.0


From a001a7e5affb1fb94a3a881df3da4b788ebe45f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 48/96] fix: FixedRankE::DiffRetraction may overwrite its input

---
 Manifolds/FixedRankE.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index ada7c83..bbd0c73 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -213,6 +213,7 @@ namespace ROPTLIB{
         if(IsEtaXiSameDir)
         {
             Vector Ux = x.Field("U"), dUeta = etax.Field("dU"), Uy = y.Field("U"), dUxix = xix.Field("dU");
+            Vector dDxix = xix.Field("dD"); realdp nxix2 = Metric(x, xix, xix); /*result may be xix*/
             Vector Dx = x.Field("D"), Dy = y.Field("D");
             Vector Vx = x.Field("V"), dVeta = etax.Field("dV"), Vy = y.Field("V"), dVxix = xix.Field("dV");
             
@@ -232,14 +233,14 @@ namespace ROPTLIB{
             tmp2 = Vy_S.GetDiagTimesM(tmp2, GLOBAL::R) * Vy_Vt;
             Vector result2 = (tmp2 - Vy * (tmp2.GetTranspose() * tmp2)) * alpha2;
             
-            *result = Uy * Dy * result2.GetTranspose() + Uy * xix.Field("dD") * Vy.GetTranspose() + result1 * Dy * Vy.GetTranspose();
+            *result = Uy * Dy * result2.GetTranspose() + Uy * dDxix * Vy.GetTranspose() + result1 * Dy * Vy.GetTranspose();
             result->AddToFields("dU", result1);
-            result->AddToFields("dD", xix.Field("dD"));
+            result->AddToFields("dD", dDxix);
             result->AddToFields("dV", result2);
             
             if (IsEtaXiSameDir && HasHHR)
             {
-                realdp nxix = std::sqrt(Metric(x, xix, xix));
+                realdp nxix = std::sqrt(nxix2);
                 Vector beta(3);
                 realdp *betaptr = beta.ObtainWriteEntireData();
                 realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
-- 
2.43.0


From c87d798f4bc9487fd128ef1216cc326d6ab5f0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 49/96] fix: the differentiated retractions that may overwrite
 their input measure it beforehand

---
 Manifolds/CStiefel.cpp | 4 ++--
 Manifolds/Sphere.cpp   | 2 +-
 Manifolds/SphereTx.cpp | 2 +-
 Manifolds/Stiefel.cpp  | 9 +++++----
 4 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index 90519e8..a01b035 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -553,7 +553,8 @@ namespace ROPTLIB{
                 ObtainExtr(x, etax, &etaxtmp);
             else
                 etaxtmp = etax;
-			realdp alpha = sqrt(Metric(x, xix, xix) / Metric(x, etax, etax));
+			realdp nxix = std::sqrt(Metric(x, xix, xix)); /*xix and result may be the same*/
+			realdp alpha = nxix / std::sqrt(Metric(x, etax, etax));
             Vector Vt = y.Field("_Vt");
             Vector S = y.Field("_S");
             Vector tmp(EMPTYEXTR);
@@ -570,7 +571,6 @@ namespace ROPTLIB{
 
 			if (IsEtaXiSameDir && HasHHR)
 			{
-                realdp nxix = std::sqrt(Metric(x, xix, xix));
                 Vector beta(3);
                 realdp *betaptr = beta.ObtainWriteEntireData();
                 realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
diff --git a/Manifolds/Sphere.cpp b/Manifolds/Sphere.cpp
index df03dbf..125b870 100644
--- a/Manifolds/Sphere.cpp
+++ b/Manifolds/Sphere.cpp
@@ -80,6 +80,7 @@ namespace ROPTLIB{
 	Vector &Sphere::ExpDiffRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
 	{
 		realdp etaxtxix = Metric(x, etax, xix);
+		realdp nxix = std::sqrt(Metric(x, xix, xix)); /*xix and result may be the same*/
 		realdp normetax = sqrt(Metric(x, etax, etax));
 		realdp sinnormetax = sin(normetax);
         if (normetax == 0) /*the differentiated retraction at zero is the identity*/
@@ -93,7 +94,6 @@ namespace ROPTLIB{
 
         if (IsEtaXiSameDir && HasHHR)
         {
-            realdp nxix = std::sqrt(Metric(x, xix, xix));
             Vector beta(3);
             realdp *betaptr = beta.ObtainWriteEntireData();
             realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
diff --git a/Manifolds/SphereTx.cpp b/Manifolds/SphereTx.cpp
index 4c61b58..5ede719 100644
--- a/Manifolds/SphereTx.cpp
+++ b/Manifolds/SphereTx.cpp
@@ -97,11 +97,11 @@ namespace ROPTLIB{
 	{
 		if (IsEtaXiSameDir)
 		{
+            realdp nxix = std::sqrt(Metric(x, xix, xix)); /*xix and result may be the same*/
             VectorTransport(x, etax, y, xix, result);
             
             if (IsEtaXiSameDir && HasHHR)
             {
-                realdp nxix = std::sqrt(Metric(x, xix, xix));
                 Vector beta(3);
                 realdp *betaptr = beta.ObtainWriteEntireData();
                 realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index d5dbe4b..3637171 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -607,7 +607,8 @@ namespace ROPTLIB{
                 ObtainExtr(x, etax, &etaxtmp);
             else
                 etaxtmp = etax;
-			realdp alpha = sqrt(Metric(x, xix, xix) / Metric(x, etax, etax));
+			realdp nxix = std::sqrt(Metric(x, xix, xix)); /*xix and result may be the same*/
+			realdp alpha = nxix / std::sqrt(Metric(x, etax, etax));
             Vector Vt = y.Field("_Vt");
             Vector S = y.Field("_S");
             Vector tmp(EMPTYEXTR);
@@ -624,7 +625,6 @@ namespace ROPTLIB{
 
 			if (IsEtaXiSameDir && HasHHR)
 			{
-                realdp nxix = std::sqrt(Metric(x, xix, xix));
                 Vector beta(3);
                 realdp *betaptr = beta.ObtainWriteEntireData();
                 realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
@@ -820,6 +820,7 @@ namespace ROPTLIB{
 	{
 		if (IsEtaXiSameDir)
 		{
+			realdp nxix = std::sqrt(Metric(x, xix, xix)), netax = std::sqrt(Metric(x, etax, etax)); /*xix and result may be the same*/
 			const realdp *Mk2ptr = y.Field("Mk2").ObtainReadData();
 			const realdp *Mk3ptr = y.Field("Mk3").ObtainReadData();
 			const realdp *LUPptr = y.Field("LUP").ObtainReadData();
@@ -859,13 +860,13 @@ namespace ROPTLIB{
             else
                 *result = exresult;
             
-			ScalarTimesVector(x, sqrt(Metric(x, xix, xix) / Metric(x, etax, etax)), *result, result);
+			ScalarTimesVector(x, nxix / netax, *result, result);
 
             if (IsEtaXiSameDir && HasHHR)
             {
                 Vector beta(3);
                 realdp *betaptr = beta.ObtainWriteEntireData();
-                realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, xix, xix));
+                realdp EtatoXi = netax / nxix;
                 betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(y, *result, *result)) / EtatoXi;
                 betaptr[1] = Metric(x, etax, etax);
                 betaptr[2] = Metric(y, *result, *result) * EtatoXi * EtatoXi;
-- 
2.43.0


From 1c467a87158d25812f81f463809c33cd631cd785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 50/96] fix: the Riemannian gradient on the quotient of fixed
 rank factors may overwrite the Euclidean one

---
 Manifolds/CFixedRankQ2F.cpp | 2 +-
 Manifolds/FixedRankQ2F.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/CFixedRankQ2F.cpp b/Manifolds/CFixedRankQ2F.cpp
index 7835764..2a6d7d5 100644
--- a/Manifolds/CFixedRankQ2F.cpp
+++ b/Manifolds/CFixedRankQ2F.cpp
@@ -535,6 +535,7 @@ namespace ROPTLIB{
             Sharedegf.CopyOnWrite();
             x.AddToFields("EGrad", Sharedegf);
         }
+        Vector egfG = egf.GetElement(0), egfH = egf.GetElement(1); /*egf and result may be the same*/
         result->NewMemoryOnWrite();
         
         Vector G = x.GetElement(0), H = x.GetElement(1);
@@ -551,7 +552,6 @@ namespace ROPTLIB{
             x.GetElement(1).AddToFields("_L", tmp.Field("_L"));
         }
         
-        Vector egfG = egf.GetElement(0), egfH = egf.GetElement(1);
         Vector LG = x.GetElement(0).Field("_L"), LH = x.GetElement(1).Field("_L");
         Vector tmpG = egfG.GetTranspose().TriangleLinSol(LH, GLOBAL::N).TriangleLinSol(LH, GLOBAL::C).GetTranspose();
         realdpcomplex coef = {0.5, 0};
diff --git a/Manifolds/FixedRankQ2F.cpp b/Manifolds/FixedRankQ2F.cpp
index d623f7e..37ccbe2 100644
--- a/Manifolds/FixedRankQ2F.cpp
+++ b/Manifolds/FixedRankQ2F.cpp
@@ -510,6 +510,7 @@ namespace ROPTLIB{
             x.AddToFields("EGrad", Sharedegf);
         }
         
+        Vector egfG = egf.GetElement(0), egfH = egf.GetElement(1); /*egf and result may be the same*/
         result->NewMemoryOnWrite();
         
         Vector G = x.GetElement(0), H = x.GetElement(1);
@@ -526,7 +527,6 @@ namespace ROPTLIB{
             x.GetElement(1).AddToFields("_L", tmp.Field("_L"));
         }
         
-        Vector egfG = egf.GetElement(0), egfH = egf.GetElement(1);
         Vector LG = x.GetElement(0).Field("_L"), LH = x.GetElement(1).Field("_L");
         
         Vector tmpG = egfG.GetTranspose().TriangleLinSol(LH, GLOBAL::N).TriangleLinSol(LH, GLOBAL::T).GetTranspose();
-- 
2.43.0


From 2d97e62e1456cea3840341df938897ef44a0d1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 51/96] fix: SphereTx::EucHvToHv may overwrite the action of
 the Euclidean Hessian

---
 Manifolds/SphereTx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/SphereTx.cpp b/Manifolds/SphereTx.cpp
index 5ede719..f260ae1 100644
--- a/Manifolds/SphereTx.cpp
+++ b/Manifolds/SphereTx.cpp
@@ -160,7 +160,7 @@ namespace ROPTLIB{
 	{
         Vector EGrad = x.Field("EGrad");
         
-        mani->VectorLinearCombination(root, 1, exix, - mani->Metric(root, EGrad, x), etax, result);
+        mani->VectorLinearCombination(root, - mani->Metric(root, EGrad, x), etax, 1, exix, result); /*result may be exix*/
         return Projection(x, *result, result);
 	};
 }; /*end of ROPTLIB namespace*/
-- 
2.43.0


From d7c77ab10d29a47c104995abd6c2a187a5770fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:50 +0000
Subject: [PATCH 52/96] fix: the action of the Hessian of the l1 norm of Q x is
 zero, not the identity

---
 Problems/SphereSparsestVector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Problems/SphereSparsestVector.cpp b/Problems/SphereSparsestVector.cpp
index af3b503..a0b1c3c 100644
--- a/Problems/SphereSparsestVector.cpp
+++ b/Problems/SphereSparsestVector.cpp
@@ -45,7 +45,8 @@ namespace ROPTLIB{
 	
 	Vector &SphereSparsestVector::EucHessianEta(const Variable &x, const Vector &etax, Vector *result) const
 	{
-        *result = etax;
+        /* the gradient Q^T sign(Q x) is piecewise constant */
+        result->SetToZeros();
         return *result;
 	};
 
-- 
2.43.0


From 5c88247d518c1ad5db8414415603803fa9194736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:50 +0000
Subject: [PATCH 53/96] fix: the numerical action of the Hessian along the zero
 vector is zero

---
 Problems/Problem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Problems/Problem.cpp b/Problems/Problem.cpp
index a097f15..b28ec7a 100644
--- a/Problems/Problem.cpp
+++ b/Problems/Problem.cpp
@@ -139,6 +139,11 @@ namespace ROPTLIB{
 	Vector &Problem::EucHessianEta(const Variable &x, const Vector &etax, Vector *result) const
 	{ /*By finite difference*/
 		realdp normetax = sqrt(Domain->Metric(x, etax, etax));
+        if(normetax == 0)
+        {
+            result->SetToZeros();
+            return *result;
+        }
 #ifdef SINGLE_PRECISION
         realdp factor = static_cast<realdp> (5e-2) / normetax;
 #else
-- 
2.43.0


From 7966fcd12ab5f24b69c537ecafdd7d5c0bfcde2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:48 +0000
Subject: [PATCH 54/96] fix: evaluate the BB quotients with the metric at the
 point the vectors belong to

---
 Solvers/SolversSMLS.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index e73b786..039b130 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -217,8 +217,8 @@ namespace ROPTLIB{
                 Mani->VectorTransport(x2, eta2, x1, eta2, &s);
                 Mani->VectorTransport(x2, eta2, x1, gf2, &y);
                 Mani->VectorLinearCombination(x1, 1, gf1, -1, y, &y);
-				BB1 = Mani->Metric(x2, s, s) / Mani->Metric(x2, s, y);
-				BB2 = Mani->Metric(x2, s, y) / Mani->Metric(x2, y, y);
+				BB1 = Mani->Metric(x1, s, s) / Mani->Metric(x1, s, y);
+				BB2 = Mani->Metric(x1, s, y) / Mani->Metric(x1, y, y);
 				pre_BBs.push_front((BB2 < std::numeric_limits<realdp>::epsilon()) ? Initstepsize / ngf1 : BB2);
 				if (pre_BBs.size() > Num_pre_BB)
 					pre_BBs.pop_back();
@@ -259,8 +259,8 @@ namespace ROPTLIB{
 				{
                     Mani->VectorLinearCombination(x1, 1, gf1, -1, gf2, &y);
 				}
-				BB1 = Mani->Metric(x2, s, s) / Mani->Metric(x2, s, y);
-				BB2 = Mani->Metric(x2, s, y) / Mani->Metric(x2, y, y);
+				BB1 = Mani->Metric(x1, s, s) / Mani->Metric(x1, s, y);
+				BB2 = Mani->Metric(x1, s, y) / Mani->Metric(x1, y, y);
 
 				pre_BBs.push_front((BB2 < std::numeric_limits<realdp>::epsilon()) ? Initstepsize / ngf1 : BB2);
 				if (pre_BBs.size() > Num_pre_BB)
-- 
2.43.0


From 7ea9c23c184d9c29923b9b9ed9ad1147928d72e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 55/96] fix: weak Wolfe search no longer reports success
 without the curvature condition, nor loops forever on NaN

---
 Solvers/SolversSMLS.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 039b130..d8248be 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -701,7 +701,6 @@ namespace ROPTLIB{
 				newslope = dh();
 				if (newslope < LS_beta * initialslope)
 				{
-					times = 0;
 					while (f2 <= f1 + LS_alpha * stepsize * initialslope && newslope < LS_beta * initialslope && stepsize < Maxstepsize)
 					{
 						prestepsize = stepsize;
@@ -710,9 +709,6 @@ namespace ROPTLIB{
 						f2 = h();
 						if (f2 <= f1 + LS_alpha * stepsize * initialslope)
 							newslope = dh();
-						times++;
-						if (times > 10)
-							break;
 					}
 					if (stepsize >= Maxstepsize)
 					{
@@ -802,7 +798,7 @@ namespace ROPTLIB{
 				}
 				prestepsize = stepsize;
 				f2pre = f2;
-				stepsize = (steptemp <= static_cast<realdp> (1e-2) * stepsize) ? static_cast<realdp> (1e-2) * stepsize : steptemp;
+				stepsize = (steptemp > static_cast<realdp> (1e-2) * stepsize) ? steptemp : static_cast<realdp> (1e-2) * stepsize;
 			}
 		}
 	};
-- 
2.43.0


From 545bc4b360c24bb558d686a3db636f5121d3dc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 56/96] fix: weak Wolfe search does not accept the maximum step
 without sufficient decrease

---
 Solvers/SolversSMLS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index d8248be..407bf1f 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -710,7 +710,7 @@ namespace ROPTLIB{
 						if (f2 <= f1 + LS_alpha * stepsize * initialslope)
 							newslope = dh();
 					}
-					if (stepsize >= Maxstepsize)
+					if (stepsize >= Maxstepsize && f2 <= f1 + LS_alpha * stepsize * initialslope)
 					{
 						Prob->Grad(x2, &gf2); ng++;
 						LSstatus = LSSM_MAXSTEPSIZE;
-- 
2.43.0


From 8f2bfdcb647090787f5960db69c488ef2bb4a477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 57/96] fix: strong Wolfe search returns a consistent iterate
 when it fails

---
 Solvers/SolversSMLS.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 407bf1f..0f722d4 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -530,6 +530,10 @@ namespace ROPTLIB{
 			times++;
 			if (times >= 10)
 			{
+				/*Use the best step so far such that x2, f2 and gf2 belong to the same step*/
+				stepsize = xlo;
+				f2 = h();
+				newslope = dh();
 				LSstatus = LSSM_LSERROR;
 				return;
 			}
@@ -557,6 +561,9 @@ namespace ROPTLIB{
 			}
 			if (stepsize <= Minstepsize)
 			{
+				stepsize = xlo;
+				f2 = h();
+				newslope = dh();
 				LSstatus = LSSM_MINSTEPSIZE;
 				return;
 			}
-- 
2.43.0


From 702f8b547306af6c99b2c18e79faea9fdd28c894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:25 +0000
Subject: [PATCH 58/96] fix: stop at once when the initial iterate is exactly
 critical

---
 Solvers/SolversSM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversSM.cpp b/Solvers/SolversSM.cpp
index c935bd3..e88c9a0 100644
--- a/Solvers/SolversSM.cpp
+++ b/Solvers/SolversSM.cpp
@@ -66,7 +66,7 @@ namespace ROPTLIB{
 			return ngf2 < Tolerance;
         
 		if (Stop_Criterion == SM_GRAD_F_0)
-			return (ngf2 / ngf0) < Tolerance;
+			return (ngf2 == 0 || (ngf2 / ngf0) < Tolerance); /*ngf0 is also zero if the initial iterate is a critical point*/
         
 		printf("Error: Stopping Criterion is not specefic!\n");
 		return true;
-- 
2.43.0


From 9d624c8edc2faa2f98d33bce8a2e113982bafd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:02 +0000
Subject: [PATCH 59/96] fix: exact line search goes back to the best step when
 no decrease is found

---
 Solvers/SolversSMLS.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 0f722d4..9126613 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -413,16 +413,17 @@ namespace ROPTLIB{
 				t *= LS_ratio;
 				stepsize = a1 + t * dir; sf2 = h();
 				if (t * LS_ratio < minstep)
-				{
-					sgf2 = dh();
-					if (fabs(sgf2 / initialslope) > 1e-1 && sf2 > f1 + LS_alpha * stepsize * ngf1)
-						LSstatus = LSSM_NONEXACT;
 					break;
-				}
 			}
 
-			if (LSstatus == LSSM_NONEXACT)
+			if (sf2 > sf1 + LS_alpha * t * sgf1 * dir)
+			{   /* no decrease along dir, go back to the best point so far */
+				stepsize = a1; sf2 = h();
+				sgf2 = dh();
+				if (fabs(sgf2 / initialslope) > 1e-1)
+					LSstatus = LSSM_NONEXACT;
 				break;
+			}
             
 			s = t * dir;
 			if (fabs(s) < minstep)
-- 
2.43.0


From a931e96c93ae4a3571fdc2bea5094f4d4214867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:18 +0000
Subject: [PATCH 60/96] fix: a BB quotient of 0/0 no longer gives a NaN initial
 step

---
 Solvers/SolversSMLS.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 9126613..0878fdb 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -219,7 +219,7 @@ namespace ROPTLIB{
                 Mani->VectorLinearCombination(x1, 1, gf1, -1, y, &y);
 				BB1 = Mani->Metric(x1, s, s) / Mani->Metric(x1, s, y);
 				BB2 = Mani->Metric(x1, s, y) / Mani->Metric(x1, y, y);
-				pre_BBs.push_front((BB2 < std::numeric_limits<realdp>::epsilon()) ? Initstepsize / ngf1 : BB2);
+				pre_BBs.push_front((BB2 >= std::numeric_limits<realdp>::epsilon()) ? BB2 : Initstepsize / ngf1); /*0/0 when the gradient did not change*/
 				if (pre_BBs.size() > Num_pre_BB)
 					pre_BBs.pop_back();
 
@@ -262,7 +262,7 @@ namespace ROPTLIB{
 				BB1 = Mani->Metric(x1, s, s) / Mani->Metric(x1, s, y);
 				BB2 = Mani->Metric(x1, s, y) / Mani->Metric(x1, y, y);
 
-				pre_BBs.push_front((BB2 < std::numeric_limits<realdp>::epsilon()) ? Initstepsize / ngf1 : BB2);
+				pre_BBs.push_front((BB2 >= std::numeric_limits<realdp>::epsilon()) ? BB2 : Initstepsize / ngf1); /*0/0 when the gradient did not change*/
 				if (pre_BBs.size() > Num_pre_BB)
 					pre_BBs.pop_back();
 
@@ -300,7 +300,8 @@ namespace ROPTLIB{
 			};
 			/*Safeguard for the initial stepsize*/
             stepsize = (stepsize < quadintstepsize / 100) ? quadintstepsize : stepsize;
-			stepsize = (stepsize < std::numeric_limits<realdp>::epsilon()) ? Initstepsize / ngf1 : stepsize;
+			if (!(stepsize >= std::numeric_limits<realdp>::epsilon() && stepsize <= std::numeric_limits<realdp>::max())) /*too small, infinite or not a number*/
+				stepsize = Initstepsize / ngf1;
 		}
 	};
 
@@ -776,7 +777,7 @@ namespace ROPTLIB{
 				LSstatus = LSSM_SUCCESS;
 				return;
 			}
-			if (stepsize <= Minstepsize)
+			if (!(stepsize > Minstepsize))
 			{
 				stepsize = Minstepsize;
 				f2 = h();
-- 
2.43.0


From 689335c75695aaf74b02b19beb55b70be988ec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:52 +0000
Subject: [PATCH 61/96] fix: weak Wolfe search interpolates also when doubling
 lands on the initial step again

---
 Solvers/SolversSMLS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 0878fdb..a61aaed 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -725,7 +725,7 @@ namespace ROPTLIB{
 						LSstatus = LSSM_MAXSTEPSIZE;
 						return;
 					}
-					if (stepsize != initiallength && f2 > f1 + LS_alpha * stepsize * initialslope)
+					if (f2 > f1 + LS_alpha * stepsize * initialslope)
 					{
 						stepsizelo = (stepsize < prestepsize) ? stepsize : prestepsize;
 						stepsizediff = fabs(prestepsize - stepsize);
-- 
2.43.0


From 3844e1753bb98029ed34e944caa5f9aeef6a8f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 62/96] fix: LRTRSR1 keeps no more pairs than the dimension of
 the domain

---
 Solvers/LRTRSR1.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index ef2c5f6..60335ea 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -72,6 +72,8 @@ namespace ROPTLIB{
 
 	void LRTRSR1::Run(void)
 	{
+		if (LengthSY > Mani->GetIntrDim()) /*more pairs than the dimension make the compact representation singular*/
+			LengthSY = Mani->GetIntrDim();
 		DeleteVectors(S, LengthSY);
 		NewVectors(S, LengthSY);
 		DeleteVectors(Y, LengthSY);
-- 
2.43.0


From 32e2b1df1d6075c37c020ed86288be1cd0deb4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:26 +0000
Subject: [PATCH 63/96] fix: LRTRSR1 subproblem when the gradient lies in the
 span of the stored pairs

---
 Solvers/LRTRSR1.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 60335ea..7bb16c8 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -148,7 +148,7 @@ namespace ROPTLIB{
         const realdp *Dptr = D.ObtainReadData();
         for (integer i = 0; i < k; i++)
             Lambdaptr[i] = Dptr[i] + gamma;
-        Lambdaptr[k] = gamma;
+        Lambdaptr[k] = (k > 0 && k >= Mani->GetIntrDim()) ? Lambdaptr[k - 1] : gamma; /*gamma is not an eigenvalue if the span of P_parallel is the whole tangent space*/
         
         for (integer i = 0; i < k + 1; i++)
             if (fabs(Lambdaptr[i]) <= tolLocalNewton)
@@ -158,10 +158,8 @@ namespace ROPTLIB{
         for(integer i = 0; i < k + 1; i++)
             if(lambda_min > Lambdaptr[i])
                 lambda_min = Lambdaptr[i];
-        realdp a_kp2 = std::sqrt(Mani->Metric(x1, gf1, gf1) - ((k == 0) ? 0 : g_parallel.DotProduct(g_parallel)));
-        
-        if (a_kp2 * a_kp2 < tolLocalNewton)
-            a_kp2 = 0;
+        realdp a_kp2 = Mani->Metric(x1, gf1, gf1) - ((k == 0) ? 0 : g_parallel.DotProduct(g_parallel));
+        a_kp2 = (a_kp2 < tolLocalNewton) ? 0 : std::sqrt(a_kp2); /*the difference may be negative because of rounding*/
         
         Vector a_j(k + 1);
         realdp *a_jptr = a_j.ObtainWriteEntireData();
-- 
2.43.0


From c4708797514e45d6e6ee87463d63ec39a58cb201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 64/96] fix: LRTRSR1 subproblem in the hard case

---
 Solvers/LRTRSR1.cpp | 74 +++++++++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 33 deletions(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 7bb16c8..fa2115f 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -189,51 +189,59 @@ namespace ROPTLIB{
             if (lambda_min <= 0 && PhiBar_fg(-lambda_min, Delta, Lambda, a_j) > 0)
             {
                 sigmaStar = -lambda_min;
-                realdp *v = new realdp[k + 1];
-                for (integer i = 0; i < k + 1; i++)
-                {
-                    if (fabs(Lambdaptr[i] + sigmaStar) > tolLocalNewton)
-                    {
-                        v[i] = a_jptr[i] / (Lambdaptr[i] + sigmaStar);
-                    }
-                    else
-                    {
-                        v[i] = 0;
-                    }
-                }
                 const realdp *P_parallelptr = P_parallel.ObtainReadData();
-                gemm_(GLOBAL::N, GLOBAL::N, &n, &GLOBAL::IONE, &k, &GLOBAL::DNONE, const_cast<realdp *> (P_parallelptr), &n, v, &k, &GLOBAL::DZERO, pStar, &n);
-                delete[] v;
-                if (fabs(gamma + sigmaStar) > tolLocalNewton)
+                /* eta2 = - P_parallel * v - (I - P_parallel * P_parallel^T) gf1 / (gamma + sigmaStar), where terms with a zero denominator are dropped */
+                realdp gammainv = (fabs(gamma + sigmaStar) > tolLocalNewton) ? 1 / (gamma + sigmaStar) : 0;
+                eta2 = gf1; eta2.ScalarTimesThis(-gammainv);
+                pStar = eta2.ObtainWritePartialData();
+                for (integer i = 0; i < k; i++)
                 {
-                    eta2 = (P_parallel * g_parallel - gf1) / (gamma + sigmaStar) + eta2;
+                    realdp v = gammainv * a_jptr[i];
+                    if (fabs(Lambdaptr[i] + sigmaStar) > tolLocalNewton)
+                        v -= a_jptr[i] / (Lambdaptr[i] + sigmaStar);
+                    axpy_(&n, &v, const_cast<realdp *> (P_parallelptr + i * n), &GLOBAL::IONE, pStar, &GLOBAL::IONE);
                 }
 
                 if (lambda_min < 0)
                 {
-                    realdp alpha = sqrt(Delta * Delta - dot_(&n, pStar, &GLOBAL::IONE, pStar, &GLOBAL::IONE));
-
-                    Vector zstar(n);
-                    if (fabs(lambda_min - Lambdaptr[0]) < tolLocalNewton)
-                    {
-                        zstar = (alpha / std::sqrt(P_parallel.DotProduct(P_parallel))) * P_parallel;
+                    realdp alpha = Delta * Delta - dot_(&n, pStar, &GLOBAL::IONE, pStar, &GLOBAL::IONE);
+                    alpha = (alpha > 0) ? sqrt(alpha) : 0;
+                    if (k > 0 && fabs(lambda_min - Lambdaptr[0]) < tolLocalNewton)
+                    { /*The first column of P_parallel is an eigenvector of lambda_min*/
+                        axpy_(&n, &alpha, const_cast<realdp *> (P_parallelptr), &GLOBAL::IONE, pStar, &GLOBAL::IONE);
                     }
                     else
-                    {
-                        realdp norm_umin = 1;
-                        for (integer i = 0; i < k; i++)
+                    { /*Any tangent vector orthogonal to the columns of P_parallel is an eigenvector of lambda_min = gamma.
+                        Take a projected canonical vector that is not too short. */
+                        Vector zstar(gf1), zi(gf1);
+                        realdp norm_umin = 0;
+                        for (integer i = 0; i < n; i++)
                         {
-                            Vector subM = P_parallel.GetSubmatrix(i, i, 0, k - 1);
-                            zstar.AlphaABaddBetaThis(1, P_parallel, GLOBAL::N, subM, GLOBAL::T, 0); /*zstar = P_parallel * P_parallel.GetSubmatrix(i, i, 0, k - 1).GetTranspose();*/
-                            realdp *zstarptr = zstar.ObtainWritePartialData();
-                            zstarptr[i] += 1;
-                            norm_umin = std::sqrt(zstar.DotProduct(zstar));
-                            if (norm_umin > tolLocalNewton)
+                            realdp *ziptr = zi.ObtainWriteEntireData();
+                            for (integer j = 0; j < n; j++)
+                                ziptr[j] = (i == j) ? 1 : 0;
+                            Mani->Projection(x1, zi, &zi);
+                            ziptr = zi.ObtainWritePartialData();
+                            for (integer j = 0; j < k; j++)
+                            {
+                                realdp v = - dot_(&n, const_cast<realdp *> (P_parallelptr + j * n), &GLOBAL::IONE, ziptr, &GLOBAL::IONE);
+                                axpy_(&n, &v, const_cast<realdp *> (P_parallelptr + j * n), &GLOBAL::IONE, ziptr, &GLOBAL::IONE);
+                            }
+                            realdp norm_zi = std::sqrt(dot_(&n, ziptr, &GLOBAL::IONE, ziptr, &GLOBAL::IONE));
+                            if (norm_zi > norm_umin)
+                            {
+                                norm_umin = norm_zi;
+                                zstar = zi;
+                            }
+                            if (norm_umin > 0.5)
                                 break;
                         }
-                        zstar = (alpha / norm_umin) * zstar;
+                        if (norm_umin > tolLocalNewton)
+                        {
+                            alpha /= norm_umin;
+                            axpy_(&n, &alpha, const_cast<realdp *> (zstar.ObtainReadData()), &GLOBAL::IONE, pStar, &GLOBAL::IONE);
+                        }
                     }
-                    eta2 = zstar + eta2;
                 }
                 tCGstatusSM = TRSM_NEGCURVTURE;
             }
-- 
2.43.0


From feb0da9e85f035b17ed4ce99326262c038d2955e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 65/96] fix: LRTRSR1 does not use the pairs of an earlier run

---
 Solvers/LRTRSR1.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index fa2115f..2e5aa4a 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -87,6 +87,10 @@ namespace ROPTLIB{
 		if (SY != nullptr)
 			delete[] SY;
 		SY = new realdp[LengthSY * LengthSY];
+		Currentlength = 0;
+		beginidx = 0;
+		gamma = 1;
+		isupdated = false;
 		SolversSMTR::Run();
 	};
 
-- 
2.43.0


From bf7caf5410c8724055101fedf7de60995774e1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:10 +0000
Subject: [PATCH 66/96] fix: LRBFGS and LRBFGSSub do not use the pairs of an
 earlier run

---
 Solvers/LRBFGS.cpp    | 3 +++
 Solvers/LRBFGSSub.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/Solvers/LRBFGS.cpp b/Solvers/LRBFGS.cpp
index 1782b5c..00e6d81 100644
--- a/Solvers/LRBFGS.cpp
+++ b/Solvers/LRBFGS.cpp
@@ -87,6 +87,9 @@ namespace ROPTLIB{
 		if (RHO != nullptr)
 			delete[] RHO;
 		RHO = new realdp[LengthSY];
+		Currentlength = 0;
+		beginidx = 0;
+		gamma = 1;
 		SolversSMLS::Run();
 	};
 
diff --git a/Solvers/LRBFGSSub.cpp b/Solvers/LRBFGSSub.cpp
index 8c70bac..77d4134 100644
--- a/Solvers/LRBFGSSub.cpp
+++ b/Solvers/LRBFGSSub.cpp
@@ -13,6 +13,9 @@ namespace ROPTLIB{
         if (RHO != nullptr)
             delete[] RHO;
         RHO = new realdp[LengthSY];
+        Currentlength = 0;
+        beginidx = 0;
+        gamma = 1;
         SolversNSMSubLS::Run();
 	};
 
-- 
2.43.0


From ada7a1f4b34aa04b317dc328c7e973af0ad474a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:24 +0000
Subject: [PATCH 67/96] fix: LRTRSR1 finds the multiplier of the trust region

---
 Solvers/LRTRSR1.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 2e5aa4a..673a8ab 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -253,20 +253,20 @@ namespace ROPTLIB{
             {
                 if (lambda_min > 0)
                 {
-                    sigmaStar = LocalNewton(0, 10, tolLocalNewton, Lambda, a_j);
+                    sigmaStar = LocalNewton(0, 100, tolLocalNewton, Lambda, a_j);
                 }
                 else
                 {
                     realdp sigmaHat = 0;
                     for (integer i = 0; i < k + 1; i++)
                     {
-                        if (sigmaHat < a_jptr[i] / Delta - Lambdaptr[i])
-                            sigmaHat = a_jptr[i] / Delta - Lambdaptr[i];
+                        if (sigmaHat < std::fabs(a_jptr[i]) / Delta - Lambdaptr[i])
+                            sigmaHat = std::fabs(a_jptr[i]) / Delta - Lambdaptr[i];
                     }
                     if (sigmaHat > -lambda_min)
-                        sigmaStar = LocalNewton(sigmaHat, 10, tolLocalNewton, Lambda, a_j);
+                        sigmaStar = LocalNewton(sigmaHat, 100, tolLocalNewton, Lambda, a_j);
                     else
-                        sigmaStar = LocalNewton(-lambda_min, 10, tolLocalNewton, Lambda, a_j);
+                        sigmaStar = LocalNewton(-lambda_min, 100, tolLocalNewton, Lambda, a_j);
                 }
                 if(k == 0)
                     ComputeSBySMW(gamma + sigmaStar, Psig, Vector (), PMGQ, Psi);
-- 
2.43.0


From 08719e723ec18cb73162a78e113abdde50c651cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:24 +0000
Subject: [PATCH 68/96] fix: truncated CG stops when the local model is solved
 exactly, whatever Min_Inner_Iter

---
 Solvers/SolversSMTR.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Solvers/SolversSMTR.cpp b/Solvers/SolversSMTR.cpp
index 47f9f72..aabf428 100644
--- a/Solvers/SolversSMTR.cpp
+++ b/Solvers/SolversSMTR.cpp
@@ -220,7 +220,8 @@ namespace ROPTLIB{
 
 			tempnum = pow(norm_r0, theta);
 
-			if (j >= Min_Inner_Iter && norm_r <= norm_r0 * ((tempnum < kappa) ? tempnum : kappa))
+			if ((j >= Min_Inner_Iter && norm_r <= norm_r0 * ((tempnum < kappa) ? tempnum : kappa)) ||
+				norm_r <= 10 * std::numeric_limits<realdp>::epsilon() * norm_r0) /*the local model is solved, more iterations would divide by zero*/
 			{
 				if (kappa < tempnum)
 					tCGstatusSM = TRSM_LCON; /* linear convergence*/
-- 
2.43.0


From cdb8e2a33b4ca73b66c6de8ad321d8c03b0881e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:00 +0000
Subject: [PATCH 69/96] fix: LRTRSR1 does not scale by y'y/s'y when y is
 parallel to s

---
 Solvers/LRTRSR1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 673a8ab..8b9eaea 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -545,7 +545,7 @@ namespace ROPTLIB{
              function is quadratic and its Hessian is identity everywhere. */
         {
             inpyy = Mani->Metric(x1, y, y);
-            if(isupdated == true)
+            if(isupdated == true && fabs(inpyy / inpsy - inpsy / inpss) > mintol * fabs(inpyy / inpsy)) /*if y is parallel to s, then y - gamma s would be zero and PMGQ singular*/
                 gamma = inpyy / inpsy;
             
             if(LMrestart && Currentlength >= LengthSY)
-- 
2.43.0


From 90553318c537cbd1047a1ec145a79bc3a236bf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:41 +0000
Subject: [PATCH 70/96] fix: LRTRSR1 drops the gradient outside the span of the
 pairs only if it is relatively small

---
 Solvers/LRTRSR1.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 8b9eaea..cf8aa55 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -162,8 +162,9 @@ namespace ROPTLIB{
         for(integer i = 0; i < k + 1; i++)
             if(lambda_min > Lambdaptr[i])
                 lambda_min = Lambdaptr[i];
-        realdp a_kp2 = Mani->Metric(x1, gf1, gf1) - ((k == 0) ? 0 : g_parallel.DotProduct(g_parallel));
-        a_kp2 = (a_kp2 < tolLocalNewton) ? 0 : std::sqrt(a_kp2); /*the difference may be negative because of rounding*/
+        realdp ngf1sq = Mani->Metric(x1, gf1, gf1);
+        realdp a_kp2 = ngf1sq - ((k == 0) ? 0 : g_parallel.DotProduct(g_parallel));
+        a_kp2 = (a_kp2 < tolLocalNewton * ngf1sq) ? 0 : std::sqrt(a_kp2); /*the difference may be negative because of rounding*/
         
         Vector a_j(k + 1);
         realdp *a_jptr = a_j.ObtainWriteEntireData();
-- 
2.43.0


From 477905b9aa2853ade55d4ef610ca95af404b675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:58 +0000
Subject: [PATCH 71/96] fix: trust region: a rejected candidate's objective is
 not reported as the iterate's

---
 Solvers/SolversSMTR.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Solvers/SolversSMTR.cpp b/Solvers/SolversSMTR.cpp
index aabf428..592bc35 100644
--- a/Solvers/SolversSMTR.cpp
+++ b/Solvers/SolversSMTR.cpp
@@ -108,8 +108,8 @@ namespace ROPTLIB{
 			if (Verbose >= ITERRESULT)
 			{
 				timeSeriesptr[iter] = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
-				funSeriesptr[iter] = f2;
-                gradSeriesptr[iter] = ngf2;
+				funSeriesptr[iter] = f1; /*f1 and ngf1 belong to the current iterate also when the candidate was rejected*/
+                gradSeriesptr[iter] = ngf1;
 			}
 		}
 		ComTime = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
-- 
2.43.0


From b59021f0358062eb8b18294c3317d58589ded40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:58 +0000
Subject: [PATCH 72/96] fix: line search solvers forget the previous run's BB
 steps when run again

---
 Solvers/SolversSMLS.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index a61aaed..a947671 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -10,6 +10,7 @@ namespace ROPTLIB{
         Variable xTemp(x1);
         Vector gfTemp = Prob->GetDomain()->GetEMPTY();
 		pre_funs.clear();
+		pre_BBs.clear();
 
 		SolversSM::Run();
 
-- 
2.43.0


From b14432bb31ad3243e3a992ad8ee1e0d48e4e8d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 73/96] fix: count the vector transports of the BB step and of
 LRTRSR1's stored pairs

---
 Solvers/LRTRSR1.cpp     | 4 ++--
 Solvers/SolversSMLS.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index cf8aa55..b32d8f2 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -462,8 +462,8 @@ namespace ROPTLIB{
 	{
 		for (integer i = 0; i < Currentlength; i++)
 		{
-			Mani->VectorTransport(x1, eta2, x2, S[i], &S[i]);
-			Mani->VectorTransport(x1, eta2, x2, Y[i], &Y[i]);
+			Mani->VectorTransport(x1, eta2, x2, S[i], &S[i]); nVp++;
+			Mani->VectorTransport(x1, eta2, x2, Y[i], &Y[i]); nVp++;
 		}
 	};
 
diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index a947671..89d0a0e 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -215,8 +215,8 @@ namespace ROPTLIB{
 			case LSSM_BBSTEP:
 				/*Since x1 and x2 are swapped, gf1 and gf2 are swapped, we have the following formula.*/
                     
-                Mani->VectorTransport(x2, eta2, x1, eta2, &s);
-                Mani->VectorTransport(x2, eta2, x1, gf2, &y);
+                Mani->VectorTransport(x2, eta2, x1, eta2, &s); nV++;
+                Mani->VectorTransport(x2, eta2, x1, gf2, &y); nVp++;
                 Mani->VectorLinearCombination(x1, 1, gf1, -1, y, &y);
 				BB1 = Mani->Metric(x1, s, s) / Mani->Metric(x1, s, y);
 				BB2 = Mani->Metric(x1, s, y) / Mani->Metric(x1, y, y);
-- 
2.43.0


From 48f9a9cbf9b15adf1e4b9fa20c119a5e4a48786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:01 +0000
Subject: [PATCH 74/96] fix: trust region: the relative-decrease criterion also
 applies to the first accepted iterate

---
 Solvers/SolversSMTR.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversSMTR.cpp b/Solvers/SolversSMTR.cpp
index 592bc35..b69fcf3 100644
--- a/Solvers/SolversSMTR.cpp
+++ b/Solvers/SolversSMTR.cpp
@@ -83,12 +83,12 @@ namespace ROPTLIB{
 			{
 				Acceptence(); /* Algorithm specific operations */
 				ngf2 = sqrt(Mani->Metric(x2, gf2, gf2));
+				iter++;
 				isstop = IsStopped(); /*This is done when the candidate is accepted. This is necessary for partly smooth stopping criterion*/
                 xTemp = x1;
                 x1 = x2;
                 x2 = xTemp; xTemp.Delete();
                 gfTemp = gf1; gf1 = gf2; gf2 = gfTemp;
-				iter++;
 				if (Verbose >= ITERRESULT && iter % OutputGap == 0)
 				{
 					PrintInfo(); /* Output information specific to Algorithms */
-- 
2.43.0


From d9fcb96fa2b20ebd8edabfcd39923a04205d389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:13 +0000
Subject: [PATCH 75/96] fix: the Wolfe line search ends on a function value
 that is not a number instead of looping forever

---
 Solvers/SolversSMLS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 89d0a0e..e0ae7a1 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -706,6 +706,8 @@ namespace ROPTLIB{
 		while (1)
 		{
 			f2 = h();
+			if (std::isnan(f2)) /*no step size helps, the caller stops the run*/
+				return;
 			if (f2 <= f1 + LS_alpha * stepsize * initialslope)
 			{
 				newslope = dh();
-- 
2.43.0


From 2d0c045b2bfa791dc04a3d95e0a85534e9b5a6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:38 +0000
Subject: [PATCH 76/96] fix: RCG uses the preconditioned gradient in every
 direction, not only the first

---
 Solvers/RCG.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Solvers/RCG.cpp b/Solvers/RCG.cpp
index 70d174d..dbf2d74 100644
--- a/Solvers/RCG.cpp
+++ b/Solvers/RCG.cpp
@@ -141,9 +141,9 @@ namespace ROPTLIB{
         }
         Pgf1 = Pgf2;
         if(sigma == 0)
-            Mani->ScalarTimesVector(x2, -1, gf2, &eta1);
+            Mani->ScalarTimesVector(x2, -1, Pgf2, &eta1);
         else
-            Mani->VectorLinearCombination(x2, -1, gf2, sigma, Teta1, &eta1);
+            Mani->VectorLinearCombination(x2, -1, Pgf2, sigma, Teta1, &eta1);
 	};
 
 	void RCG::SetParams(PARAMSMAP params)
-- 
2.43.0


From 7fe597d0078ccfeb3fd89134534e680956d8c3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:46 +0000
Subject: [PATCH 77/96] fix: RNewton keeps the direction found when its inner
 iteration converges at once

---
 Solvers/RNewton.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/RNewton.cpp b/Solvers/RNewton.cpp
index 31b7b63..4d66053 100644
--- a/Solvers/RNewton.cpp
+++ b/Solvers/RNewton.cpp
@@ -165,7 +165,7 @@ namespace ROPTLIB{
             Mani->ScalarVectorAddVector(x2, -1, z, delta, &delta); /*delta =  - z + betatemp * delta*/
 		}
 		innerIter = j;
-		if (j == 0)
+		if (j == 0 && tCGLSSMstatus != LSSM_LCON && tCGLSSMstatus != LSSM_SCON)
             eta1 = delta;
 	};
 
-- 
2.43.0


From 43ede7372364b4c7e532cf928e3cf956ed7f5b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:13 +0000
Subject: [PATCH 78/96] fix: RTRSR1 scales its initial operator before, not
 between, forming and applying the first rank-one update

---
 Solvers/RTRSR1.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Solvers/RTRSR1.cpp b/Solvers/RTRSR1.cpp
index d6b017f..699eff0 100644
--- a/Solvers/RTRSR1.cpp
+++ b/Solvers/RTRSR1.cpp
@@ -81,12 +81,15 @@ namespace ROPTLIB{
         Mani->InverseVectorTransport(x1, eta2, x2, gf2, &y);  nV++;
         Mani->ScalarVectorAddVector(x1, -1, gf1, y, &y);
         s = eta2;
+        realdp inpsy = Mani->Metric(x1, s, y);
+        if (iter == 0 && inpsy != 0)
+        {/* the initial operator is scaled before the first pair is used */
+            B.ScaledIdOPE(Mani->Metric(x1, y, y) / inpsy);
+            Mani->LinearOPEEta(x1, B, s, &Heta2);
+        }
         Vector zeta(y); Mani->ScalarVectorAddVector(x1, -1, Heta2, y, &zeta);
         denorminator = Mani->Metric(x1, s, zeta);
         
-        if (iter == 1)
-            B.ScaledIdOPE(Mani->Metric(x1, y, y) / Mani->Metric(x1, s, y));
-        
         inpss = Mani->Metric(x1, s, s);
         norm2ymBs = Mani->Metric(x1, zeta, zeta);
         if (denorminator * denorminator >= mintolsq * inpss * norm2ymBs && (norm2ymBs >= mintolsq || ngf2 / ngf0 < 1e-3))
-- 
2.43.0


From 69d6fdb0143c962e7c17b92ec1f6ab56691960c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 79/96] fix: the proximal gradient solvers' LS_ratio, LS_alpha
 and Minstepsize are not truncated to integers when set through the map

---
 Solvers/SolversNSMPGLS.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Solvers/SolversNSMPGLS.cpp b/Solvers/SolversNSMPGLS.cpp
index cf6e767..edad6a0 100644
--- a/Solvers/SolversNSMPGLS.cpp
+++ b/Solvers/SolversNSMPGLS.cpp
@@ -115,17 +115,17 @@ namespace ROPTLIB{
             else
             if (iter->first == static_cast<std::string> ("LS_ratio"))
             {
-                LS_ratio = static_cast<integer> (iter->second);
+                LS_ratio = iter->second;
             }
             else
             if (iter->first == static_cast<std::string> ("LS_alpha"))
             {
-                LS_alpha = static_cast<integer> (iter->second);
+                LS_alpha = iter->second;
             }
             else
             if (iter->first == static_cast<std::string> ("Minstepsize"))
             {
-                Minstepsize = static_cast<integer> (iter->second);
+                Minstepsize = iter->second;
             }
         }
     };
-- 
2.43.0


From 29b3b95481b03c291d8228c33a24674b61ba181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:57 +0000
Subject: [PATCH 80/96] fix: checking parameters reports enumerations out of
 range instead of reading past their names

---
 Solvers/RCG.cpp            | 4 ++--
 Solvers/Solvers.cpp        | 2 +-
 Solvers/SolversNSM.cpp     | 2 +-
 Solvers/SolversNSMPGLS.cpp | 2 +-
 Solvers/SolversSM.cpp      | 2 +-
 Solvers/SolversSMLS.cpp    | 4 ++--
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/Solvers/RCG.cpp b/Solvers/RCG.cpp
index dbf2d74..8432aca 100644
--- a/Solvers/RCG.cpp
+++ b/Solvers/RCG.cpp
@@ -47,8 +47,8 @@ namespace ROPTLIB{
 		char *status;
 
 		printf("RCG METHOD PARAMETERS:\n");
-		status = (RCGmethod >= 0 && RCGmethod <= RCGMETHODSLENGTH) ? YES : NO;
-		printf("RCGmethod     :%15s[%s]\n", RCGmethodSetnames[RCGmethod].c_str(), status);
+		status = (RCGmethod >= 0 && RCGmethod < RCGMETHODSLENGTH) ? YES : NO;
+		printf("RCGmethod     :%15s[%s]\n", (status == YES) ? RCGmethodSetnames[RCGmethod].c_str() : "UNKNOWN", status);
 	};
 
 	void RCG::PrintInfo(void)
diff --git a/Solvers/Solvers.cpp b/Solvers/Solvers.cpp
index 0c8d7e3..9ed80e1 100644
--- a/Solvers/Solvers.cpp
+++ b/Solvers/Solvers.cpp
@@ -23,7 +23,7 @@ namespace ROPTLIB{
 		status = (Min_Iteration >= 0 && Min_Iteration <= Max_Iteration) ? YES : NO;
 		printf("Min_Iteration :%15d[%s],\t", Min_Iteration, status);
         status = (Verbose >= 0 && Verbose < VERBOSELENGTH) ? YES : NO;
-        printf("Verbose       :%15s[%s],\n", VERBOSEnames[Verbose].c_str(), status);
+        printf("Verbose       :%15s[%s],\n", (status == YES) ? VERBOSEnames[Verbose].c_str() : "UNKNOWN", status);
 	};
 
 	void Solvers::Run(void)
diff --git a/Solvers/SolversNSM.cpp b/Solvers/SolversNSM.cpp
index 97e751b..f22d149 100644
--- a/Solvers/SolversNSM.cpp
+++ b/Solvers/SolversNSM.cpp
@@ -23,7 +23,7 @@ namespace ROPTLIB{
         char *status;
         printf("NONSMOOTH OPTIMIZATION PARAMETERS:\n");
         status = (Stop_Criterion >= 0 && Stop_Criterion < STOPCRITNNSMLENGTH) ? YES : NO;
-        printf("Stop_Criterion:%15s[%s],\n", STOPCRITnames[Stop_Criterion].c_str(), status);
+        printf("Stop_Criterion:%15s[%s],\n", (status == YES) ? STOPCRITnames[Stop_Criterion].c_str() : "UNKNOWN", status);
     };
 
     void SolversNSM::SetDefaultParams(void)
diff --git a/Solvers/SolversNSMPGLS.cpp b/Solvers/SolversNSMPGLS.cpp
index edad6a0..8fb7569 100644
--- a/Solvers/SolversNSMPGLS.cpp
+++ b/Solvers/SolversNSMPGLS.cpp
@@ -50,7 +50,7 @@ namespace ROPTLIB{
 
         printf("RPG LINESEARCH-BASED METHODS PARAMETERS:\n");
         status = (Variant >= 0 && Variant < RPGVARIANTLENGTH) ? YES : NO;
-        printf("RPGVariant    :%15s[%s],\t", RPGVariantnames[Variant].c_str(), status);
+        printf("RPGVariant    :%15s[%s],\t", (status == YES) ? RPGVariantnames[Variant].c_str() : "UNKNOWN", status);
         status = (Minstepsize > 0 && Minstepsize <= 1) ? YES : NO;
         printf("Minstepsize   :%15g[%s],\n", Minstepsize, status);
         status = (LS_ratio > 0 && LS_ratio < 1) ? YES : NO;
diff --git a/Solvers/SolversSM.cpp b/Solvers/SolversSM.cpp
index e88c9a0..07611d4 100644
--- a/Solvers/SolversSM.cpp
+++ b/Solvers/SolversSM.cpp
@@ -81,7 +81,7 @@ namespace ROPTLIB{
 		char *status;
 		printf("SMOOTH OPTIMIZATION PARAMETERS:\n");
 		status = (Stop_Criterion >= 0 && Stop_Criterion < STOPCRITSMLENGTH) ? YES : NO;
-		printf("Stop_Criterion:%15s[%s],\t", STOPCRITnames[Stop_Criterion].c_str(), status);
+		printf("Stop_Criterion:%15s[%s],\t", (status == YES) ? STOPCRITnames[Stop_Criterion].c_str() : "UNKNOWN", status);
 		status = (Accuracy >= 0 && Accuracy <= 1) ? YES : NO;
 		printf("Accuracy      :%15g[%s],\n", Accuracy, status);
 	};
diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index e0ae7a1..93c952d 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -586,9 +586,9 @@ namespace ROPTLIB{
 
 		printf("LINE SEARCH TYPE METHODS PARAMETERS:\n");
 		status = (LineSearch_LS >= 0 && LineSearch_LS < LSALGOSMLENGTH) ? YES : NO;
-		printf("LineSearch_LS :%15s[%s],\t", LSALGOnames[LineSearch_LS].c_str(), status);
+		printf("LineSearch_LS :%15s[%s],\t", (status == YES) ? LSALGOnames[LineSearch_LS].c_str() : "UNKNOWN", status);
         status = (InitSteptype >= 0 && InitSteptype < INITSTEPSIZESETSMLENGTH) ? YES : NO;
-        printf("InitSteptype  :%15s[%s],\n", INITSTEPnames[InitSteptype].c_str(), status);
+        printf("InitSteptype  :%15s[%s],\n", (status == YES) ? INITSTEPnames[InitSteptype].c_str() : "UNKNOWN", status);
 		status = (LS_alpha > 0 && LS_alpha < 0.5) ? YES : NO;
 		printf("LS_alpha      :%15g[%s],\t", LS_alpha, status);
         status = (LS_beta > LS_alpha && LS_beta < 1) ? YES : NO;
-- 
2.43.0


From b0a0aad6f0cb9c225b24f10de9c10d1bd085784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:05 +0000
Subject: [PATCH 81/96] fix: HasHHR given together with ParamSet is not reset
 by the parameter set

---
 Manifolds/CStiefel.cpp | 2 +-
 Manifolds/Sphere.cpp   | 1 +
 Manifolds/Stiefel.cpp  | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index a01b035..159479f 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -695,7 +695,6 @@ namespace ROPTLIB{
 
 	void CStiefel::SetParams(PARAMSMAP params)
 	{
-		Manifold::SetParams(params);
 		PARAMSMAP::iterator iter;
 		for (iter = params.begin(); iter != params.end(); iter++)
 		{
@@ -720,5 +719,6 @@ namespace ROPTLIB{
 				}
 			}
 		}
+		Manifold::SetParams(params); /* a parameter set resets HasHHR */
 	};
 }; /*end of ROPTLIB namespace*/
diff --git a/Manifolds/Sphere.cpp b/Manifolds/Sphere.cpp
index 125b870..71de36b 100644
--- a/Manifolds/Sphere.cpp
+++ b/Manifolds/Sphere.cpp
@@ -283,5 +283,6 @@ namespace ROPTLIB{
 				}
 			}
 		}
+		Manifold::SetParams(params); /* a parameter set resets HasHHR */
 	};
 }; /*end of ROPTLIB namespace*/
diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index 3637171..1ed0f5f 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -968,7 +968,6 @@ namespace ROPTLIB{
 
 	void Stiefel::SetParams(PARAMSMAP params)
 	{
-		Manifold::SetParams(params);
 		PARAMSMAP::iterator iter;
 		for (iter = params.begin(); iter != params.end(); iter++)
 		{
@@ -996,5 +995,6 @@ namespace ROPTLIB{
 				}
 			}
 		}
+		Manifold::SetParams(params); /* a parameter set resets HasHHR */
 	};
 }; /*end of ROPTLIB namespace*/
-- 
2.43.0


From 50339204800c778c5404cc2832c97243f6056b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:44 +0000
Subject: [PATCH 82/96] fix: subgradient solvers: the search direction's norm
 is set when the shortest subgradient is below Del

---
 Solvers/SolversNSMSubLS.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 808097d..72fe266 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -251,6 +251,7 @@ namespace ROPTLIB{
 			}
 			if (nminPv <= Del)
 			{
+				ndir1 = nminPv;
 				return;
 			}
             /*end the stopping criterion*/
-- 
2.43.0


From cab8465e758ea9b00b552869d4ba0b5ada5f4feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:51 +0000
Subject: [PATCH 83/96] fix: subgradient solvers end at the time bound and when
 neither Eps nor the direction can be reduced, instead of looping forever

---
 Solvers/SolversNSMSubLS.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 72fe266..9808f1b 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -45,6 +45,10 @@ namespace ROPTLIB{
 			/*Call the function to check whether the stopping criterion is satisfied or not.
 			The default function is written in Solvers.h and Solvers.cpp*/
 			isstop = IsStopped();
+			if (iter >= Min_Iteration && static_cast<realdp>(getTickCount() - starttime) / CLK_PS > TimeBound)
+				break;
+			if (Eps <= Min_Eps && fabs(ndir1) <= Tolerance) /*neither Eps nor the direction can be reduced further*/
+				break;
 			if (fabs(ndir1) <= Del || fabs(ndir1) <= Tolerance)
 			{
 				Eps *= Theta_eps;
-- 
2.43.0


From e7e719cb72cd34486897b69c056f547a3fa1ae28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:57 +0000
Subject: [PATCH 84/96] fix: subgradient solvers: a step reported as the
 maximum step size is the step taken

---
 Solvers/SolversNSMSubLS.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 9808f1b..77606c6 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -338,11 +338,11 @@ namespace ROPTLIB{
                 break;
             } else
             {
+                if (stepsize >= Maxstepsize)
+                    break;
+
                 prestepsize = stepsize;
                 stepsize = (2 * stepsize < Maxstepsize) ? 2 * stepsize : Maxstepsize;
-
-                if (stepsize == Maxstepsize)
-                    break;
             }
         }
         if (stepsize <= Minstepsize)
-- 
2.43.0


From 92b37178128abc0010ce048ac448e2368fde2773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 85/96] fix: subgradient solvers report the last direction's
 norm and the step sizes

---
 Solvers/SolversNSMSubLS.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 77606c6..c16e3a1 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -113,7 +113,12 @@ namespace ROPTLIB{
 		}
 		ComTime = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
 		if (Verbose >= ITERRESULT)
+		{
+			dirSeriesptr[iter] = ndir1;
 			lengthSeries = iter + 1;
+			SolverInfo.AddToFields("initialstepsize", initialstepsize);
+			SolverInfo.AddToFields("acceptedstepsize", acceptedstepsize);
+		}
         PrintFinalInfo();
 	};
 
-- 
2.43.0


From f661e0401fea5669aa3d6a6a39ffcb10db789588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:25 +0000
Subject: [PATCH 86/96] fix: RNewton's check does not report useRand with the
 verdict on kappa

---
 Solvers/RNewton.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Solvers/RNewton.cpp b/Solvers/RNewton.cpp
index 4d66053..b76aabd 100644
--- a/Solvers/RNewton.cpp
+++ b/Solvers/RNewton.cpp
@@ -52,6 +52,7 @@ namespace ROPTLIB{
 		printf("theta         :%15g[%s],\t", theta, status);
 		status = (kappa > 0 && kappa < 1) ? YES : NO;
 		printf("kappa         :%15g[%s],\n", kappa, status);
+		status = YES;
 		printf("useRand       :%15d[%s],\n", useRand, status);
 	};
 
-- 
2.43.0


From 4edc46d131ae5d55d5c857de9c1784402ae82ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:04 +0000
Subject: [PATCH 87/96] fix: MinPNormConHull's accuracy is relative to the
 given vectors and its subproblem is solved to that accuracy

---
 Others/MinPNormConHull.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/Others/MinPNormConHull.cpp b/Others/MinPNormConHull.cpp
index f4da4bd..1158004 100644
--- a/Others/MinPNormConHull.cpp
+++ b/Others/MinPNormConHull.cpp
@@ -26,8 +26,21 @@ namespace ROPTLIB{
 		RTRNewton *RTRNewtonsolver = new RTRNewton(&subprob, &InitX);
 		RTRNewtonsolver->Stop_Criterion = SM_GRAD_F;
         RTRNewtonsolver->Verbose = NOOUTPUT;
-		RTRNewtonsolver->Max_Iteration = 100;
-		RTRNewtonsolver->Tolerance = static_cast<realdp> (1e-10);
+		RTRNewtonsolver->Max_Iteration = 1000;
+		/*the accuracy is relative to the vectors' (squared) P-norms*/
+		realdp scale = 0, tmp = 0;
+		Vector PYi(Ys[0]);
+		for (integer i = 0; i < LYs; i++)
+		{
+			if (Hv == nullptr)
+				PYi = Ys[i];
+			else
+				(solver->*Hv)(Ys[i], &PYi);
+			tmp = Ys[i].DotProduct(PYi);
+			scale = (tmp > scale) ? tmp : scale;
+		}
+		RTRNewtonsolver->Tolerance = static_cast<realdp> (1e-10) * ((scale > 0) ? scale : 1);
+		RTRNewtonsolver->Accuracy = 0; /*a rejected step must shrink the radius also near the solution*/
 		RTRNewtonsolver->Run();
 		realdp fopt = RTRNewtonsolver->Getfinalfun();
         Vector xopt = RTRNewtonsolver->GetXopt();
-- 
2.43.0


From f7c8c275659454748bd9e2ac625f1b0aa79d9abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:04 +0000
Subject: [PATCH 88/96] fix: subgradient solvers: the bisection for a new
 subgradient compares the sufficient decrease at the current step sizes

---
 Solvers/SolversNSMSubLS.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index c16e3a1..2572489 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -298,7 +298,7 @@ namespace ROPTLIB{
 			{
 				stepsize = (a + b) / 2;
 				f2 = h();
-				ht = f2 - f1 + LS_alpha * Eps / neta1 * Pngfsq;
+				ht = f2 - f1 + LS_alpha * stepsize * Pngfsq;
 				if (hb > ht)
 				{
 					a = stepsize;
@@ -306,6 +306,7 @@ namespace ROPTLIB{
 				else
 				{
 					b = stepsize;
+					hb = ht;
 				}
 			}
 			else
-- 
2.43.0


From 699b4dba7083b61d0e07a8dc3d2f96975c66d66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:04 +0000
Subject: [PATCH 89/96] fix: subgradient solvers: the stationarity measure is
 the norm of the shortest subgradient and the last found subgradient is used

---
 Solvers/SolversNSMSubLS.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 2572489..b4c76be 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -241,7 +241,7 @@ namespace ROPTLIB{
         gfs[0] = gf1;
 		Currentlengthgfs = 1;
 		realdp Pngfsq = 0, hb;
-		for (integer i = 0; i < Lengthgfs - 1; i++)
+		for (integer i = 0; i < Lengthgfs; i++)
 		{
 			/*minPv = argmin \| v \|_P^2, v in convex hall of W, let eta1 = - P minPv.*/
 			Pngfsq = MinPNormConHull(Mani, x1, gfs, Currentlengthgfs, this, Hv, minPv);
@@ -258,33 +258,35 @@ namespace ROPTLIB{
 				nminPv = sqrt(MinPNormConHull(Mani, x1, gfs, Currentlengthgfs, nullptr, nullptr, minPv));
 				subprobtimes++;
 			}
+			ndir1 = nminPv;
 			if (nminPv <= Del)
 			{
-				ndir1 = nminPv;
 				return;
 			}
             /*end the stopping criterion*/
             
-			ndir1 = sqrt(Mani->Metric(x1, eta1, eta1));
-			stepsize = Eps / ndir1;
+			realdp neta1 = sqrt(Mani->Metric(x1, eta1, eta1));
+			stepsize = Eps / neta1;
 			f2 = h();
 			hb = f2 - f1 + LS_alpha * stepsize * Pngfsq; /* - Pngfsq is the initial slope*/
 			if (hb <= 0)
 			{
 				return;
 			}
+			if (Currentlengthgfs == Lengthgfs)
+			{
+				if (Verbose >= ITERRESULT)
+					printf("Warning: the number of W reaches its upper-bound: %d!\n", Currentlengthgfs);
+				return;
+			}
 			/*get gf2 and stepsize*/
-			Increasing(ndir1, Pngfsq, hb);
+			Increasing(neta1, Pngfsq, hb);
             Vector invTgf2(gf2);
             Mani->InverseVectorTransport(x1, eta2, x2, gf2, &invTgf2);
 			realdp betay = Mani->Beta(x1, eta2);
 			Mani->ScalarTimesVector(x1, static_cast<realdp> (1) / betay, invTgf2, &invTgf2);
             gfs[Currentlengthgfs] = invTgf2;
 			Currentlengthgfs++;
-			if (Currentlengthgfs == Lengthgfs && Verbose >= ITERRESULT)
-			{
-				printf("Warning: the number of W reaches its upper-bound: %d!\n", Currentlengthgfs);
-			}
 		}
 	};
 
-- 
2.43.0


From c92d6d57346211ae9a5cfbb3efc45c9de67784e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:09 +0000
Subject: [PATCH 90/96] fix: subgradient solvers: measuring stationarity again
 in the plain norm does not replace the vector the direction is made of

---
 Solvers/SolversNSMSubLS.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index b4c76be..c82253c 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -251,11 +251,12 @@ namespace ROPTLIB{
 				subprobtimes++;
 
             /*if nminPv is sufficient small, then stop*/
-			if (sqrt(Pngfsq) > Del * lambdaLower)
-				nminPv = sqrt(Mani->Metric(x1, minPv, minPv));
-			else
+			nminPv = sqrt(Mani->Metric(x1, minPv, minPv));
+			if (sqrt(Pngfsq) <= Del * lambdaLower)
 			{
-				nminPv = sqrt(MinPNormConHull(Mani, x1, gfs, Currentlengthgfs, nullptr, nullptr, minPv));
+				Vector minv(minPv); /*minPv stays the vector that eta1 is made of*/
+				realdp nminv = sqrt(MinPNormConHull(Mani, x1, gfs, Currentlengthgfs, nullptr, nullptr, minv));
+				nminPv = (nminv < nminPv) ? nminv : nminPv;
 				subprobtimes++;
 			}
 			ndir1 = nminPv;
-- 
2.43.0


From 1873edf4c29deb61d2d2f78127fb8f5a4f572cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:28 +0000
Subject: [PATCH 91/96] fix: AManPG counts the evaluations and retractions of
 its accelerated iterates

---
 Solvers/AManPG.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Solvers/AManPG.cpp b/Solvers/AManPG.cpp
index 93045c1..695fadb 100644
--- a/Solvers/AManPG.cpp
+++ b/Solvers/AManPG.cpp
@@ -203,16 +203,16 @@ namespace ROPTLIB{
             totalSMiter += SMiter;
             totalSMCGiter += SMCGiter;
             
-            Mani->Retraction(y1, eta1, &z2);
-            fz2 = Prob->f(z2);
+            Mani->Retraction(y1, eta1, &z2); nR++;
+            fz2 = Prob->f(z2); nf++;
             s2 = (1.0 + std::sqrt(1.0 + 4.0 * s1 * s1)) / 2.0;
             Vector zeta(gf1); Mani->InvRetraction(z2, z1, &zeta);
             Mani->ScalarTimesVector(z2, -(s1 - 1) / s2, zeta, &zeta);
             
-            Mani->Retraction(z2, zeta, &y2);
+            Mani->Retraction(z2, zeta, &y2); nR++;
             
-            fy2 = Prob->f(y2);
-            Prob->Grad(y2, &gfy2);
+            fy2 = Prob->f(y2); nf++;
+            Prob->Grad(y2, &gfy2); ng++;
             
             /*Call the function to check whether the stopping criterion is satisfied or not.
             The default function is written in Solvers.h and Solvers.cpp*/
-- 
2.43.0


From 5fb9daa2f22b128593808381d1f280544ce8b7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:32 +0000
Subject: [PATCH 92/96] fix: MinPNormConHull starts again when its subproblem
 ends in a stationary point that is not a solution

---
 Others/MinPNormConHull.cpp | 45 +++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/Others/MinPNormConHull.cpp b/Others/MinPNormConHull.cpp
index 1158004..468c539 100644
--- a/Others/MinPNormConHull.cpp
+++ b/Others/MinPNormConHull.cpp
@@ -21,12 +21,7 @@ namespace ROPTLIB{
 		SphereConvexHull subprob(Mani, Ys, LYs, solver, Hv);
 		Sphere Domain(LYs);
 		subprob.SetDomain(&Domain);
-        Variable InitX = Domain.RandominManifold();
 
-		RTRNewton *RTRNewtonsolver = new RTRNewton(&subprob, &InitX);
-		RTRNewtonsolver->Stop_Criterion = SM_GRAD_F;
-        RTRNewtonsolver->Verbose = NOOUTPUT;
-		RTRNewtonsolver->Max_Iteration = 1000;
 		/*the accuracy is relative to the vectors' (squared) P-norms*/
 		realdp scale = 0, tmp = 0;
 		Vector PYi(Ys[0]);
@@ -39,14 +34,38 @@ namespace ROPTLIB{
 			tmp = Ys[i].DotProduct(PYi);
 			scale = (tmp > scale) ? tmp : scale;
 		}
-		RTRNewtonsolver->Tolerance = static_cast<realdp> (1e-10) * ((scale > 0) ? scale : 1);
-		RTRNewtonsolver->Accuracy = 0; /*a rejected step must shrink the radius also near the solution*/
-		RTRNewtonsolver->Run();
-		realdp fopt = RTRNewtonsolver->Getfinalfun();
-        Vector xopt = RTRNewtonsolver->GetXopt();
-        
-        outSoln = xopt.Field("Wxsq");
-		delete RTRNewtonsolver;
+
+		/*Weights that are (nearly) zero are stationary for the subproblem even if the vectors they belong to would
+		shorten the result. Such a point is not a solution: start again from another random point.*/
+		realdp fopt = 0;
+		for (integer attempt = 0; attempt < 5; attempt++)
+		{
+			Variable InitX = Domain.RandominManifold();
+			RTRNewton *RTRNewtonsolver = new RTRNewton(&subprob, &InitX);
+			RTRNewtonsolver->Stop_Criterion = SM_GRAD_F;
+			RTRNewtonsolver->Verbose = NOOUTPUT;
+			RTRNewtonsolver->Max_Iteration = 1000;
+			RTRNewtonsolver->Tolerance = static_cast<realdp> (1e-10) * ((scale > 0) ? scale : 1);
+			RTRNewtonsolver->Accuracy = 0; /*a rejected step must shrink the radius also near the solution*/
+			RTRNewtonsolver->Run();
+			realdp f = RTRNewtonsolver->Getfinalfun(), mindp = f;
+			Vector xopt = RTRNewtonsolver->GetXopt();
+			delete RTRNewtonsolver;
+
+			if (attempt == 0 || f < fopt)
+			{
+				fopt = f;
+				outSoln = xopt.Field("Wxsq");
+			}
+			Vector PWxsq = xopt.Field("PWxsq");
+			for (integer i = 0; i < LYs; i++)
+			{
+				tmp = Ys[i].DotProduct(PWxsq);
+				mindp = (tmp < mindp) ? tmp : mindp;
+			}
+			if (mindp >= f - static_cast<realdp> (1e-5) * scale)
+				break;
+		}
 		return fopt;
 	};
 }; /*end of ROPTLIB namespace*/
-- 
2.43.0


From a122f937a027c042e01a791f26be2aeee06b1339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:38 +0000
Subject: [PATCH 93/96] fix: SphereTx projects onto the tangent space at the
 root after removing the component along x

---
 Manifolds/SphereTx.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Manifolds/SphereTx.cpp b/Manifolds/SphereTx.cpp
index f260ae1..9448e68 100644
--- a/Manifolds/SphereTx.cpp
+++ b/Manifolds/SphereTx.cpp
@@ -56,7 +56,8 @@ namespace ROPTLIB{
     {
         mani->Projection(root, etax, result);
         realdp nume = mani->Metric(root, x, *result);
-        return mani->ScalarVectorAddVector(root, -nume, x, *result, result);
+        mani->ScalarVectorAddVector(root, -nume, x, *result, result);
+        return mani->Projection(root, *result, result); /*x is only in the tangent space up to rounding errors. Adding them again and again amplifies them.*/
     };
 
     Vector &SphereTx::ScalarTimesVector(const Variable &x, const realdp &scalar, const Vector &etax, Vector *result) const
-- 
2.43.0


From b326cf463717e8f1fa029d4acff5370b4ca3bfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:38 +0000
Subject: [PATCH 94/96] fix: MinMaxEigValHess stops at a gradient that is small
 relative to the Hessian

---
 Problems/SphereTxRQ.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Problems/SphereTxRQ.cpp b/Problems/SphereTxRQ.cpp
index 7cf49f1..c7c55a7 100644
--- a/Problems/SphereTxRQ.cpp
+++ b/Problems/SphereTxRQ.cpp
@@ -15,8 +15,13 @@ namespace ROPTLIB{
             Variable TV0 = DomainPH.RandominManifold();
             RTRNewton RTRNewtonsolver(&ProbHess, &TV0);
             RTRNewtonsolver.Verbose = NOOUTPUT;
+            /*relative to the Hessian rather than to the initial gradient, which only contains rounding errors if TV0 is an eigenvector*/
+            Vector HTV0(TV0); Prob->HessianEta(*X, TV0, &HTV0);
+            realdp tol = static_cast<realdp> (1e-6) * sqrt(Domain->Metric(*X, HTV0, HTV0));
+            RTRNewtonsolver.Stop_Criterion = SM_GRAD_F;
+            RTRNewtonsolver.Tolerance = (tol > 0) ? tol : std::numeric_limits<realdp>::min();
             RTRNewtonsolver.Run();
-            if(RTRNewtonsolver.Getnormgfgf0() > 1e-6)
+            if(RTRNewtonsolver.Getnormgf() > RTRNewtonsolver.Tolerance)
             {
                 printf("Warning: Rayleigh quotient for computing the smallest eigenvalue of the Hessian is not solved accurately!\n");
             }
@@ -29,8 +34,13 @@ namespace ROPTLIB{
             Variable TV0 = DomainPH.RandominManifold();
             RTRNewton RTRNewtonsolver(&ProbHess, &TV0);
             RTRNewtonsolver.Verbose = NOOUTPUT;
+            /*relative to the Hessian rather than to the initial gradient, which only contains rounding errors if TV0 is an eigenvector*/
+            Vector HTV0(TV0); Prob->HessianEta(*X, TV0, &HTV0);
+            realdp tol = static_cast<realdp> (1e-6) * sqrt(Domain->Metric(*X, HTV0, HTV0));
+            RTRNewtonsolver.Stop_Criterion = SM_GRAD_F;
+            RTRNewtonsolver.Tolerance = (tol > 0) ? tol : std::numeric_limits<realdp>::min();
             RTRNewtonsolver.Run();
-            if(RTRNewtonsolver.Getnormgfgf0() > 1e-6)
+            if(RTRNewtonsolver.Getnormgf() > RTRNewtonsolver.Tolerance)
             {
                 printf("Warning: Rayleigh quotient for computing the largest eigenvalue of the Hessian is not solved accurately!\n");
             }
-- 
2.43.0


From 2c84aeb49a8c40dbfda5151902a70e5428ab7a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:10 +0000
Subject: [PATCH 95/96] fix: RandGaussian draws with the given mean and
 variance

---
 Manifolds/SmartSpace.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Manifolds/SmartSpace.cpp b/Manifolds/SmartSpace.cpp
index c1aeab9..75d5e98 100644
--- a/Manifolds/SmartSpace.cpp
+++ b/Manifolds/SmartSpace.cpp
@@ -72,8 +72,9 @@ namespace ROPTLIB{
 	void SmartSpace::RandGaussian(realdp mean, realdp variance)
 	{
 		NewMemoryOnWrite();
+		realdp sigma = sqrt(variance);
 		for (integer i = 0; i < length; i++)
-			Space[i] = (genrandnormal() + mean) * variance;
+			Space[i] = genrandnormal() * sigma + mean;
 	};
 
     void SmartSpace::SetToZeros(void)
-- 
2.43.0


From 174d980f68e46da5f4b1380702545cecce5bbae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 96/96] fix: coTangentVector of FixedRankQ2F and CFixedRankQ2F
 no longer returns uninitialised memory

---
 Manifolds/CFixedRankQ2F.cpp | 2 +-
 Manifolds/FixedRankQ2F.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/CFixedRankQ2F.cpp b/Manifolds/CFixedRankQ2F.cpp
index 2a6d7d5..4084eca 100644
--- a/Manifolds/CFixedRankQ2F.cpp
+++ b/Manifolds/CFixedRankQ2F.cpp
@@ -352,7 +352,7 @@ namespace ROPTLIB{
     {
         printf("warning:CFixedRankQ2F::coTangentVector has not been done!\n");
     
-        return MultiManifolds::coTangentVector(x, etax, y, xiy, result);
+        return Manifold::coTangentVector(x, etax, y, xiy, result); /*the tangent vectors need not be products of elements*/
     };
 
     Vector &CFixedRankQ2F::VectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
diff --git a/Manifolds/FixedRankQ2F.cpp b/Manifolds/FixedRankQ2F.cpp
index 37ccbe2..5227e2d 100644
--- a/Manifolds/FixedRankQ2F.cpp
+++ b/Manifolds/FixedRankQ2F.cpp
@@ -327,7 +327,7 @@ namespace ROPTLIB{
     {
         printf("warning:FixedRankQ2F::coTangentVector has not been done!\n");
         
-        return MultiManifolds::coTangentVector(x, etax, y, xiy, result);
+        return Manifold::coTangentVector(x, etax, y, xiy, result); /*the tangent vectors need not be products of elements*/
     };
 
     Vector &FixedRankQ2F::VectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
-- 
2.43.0

