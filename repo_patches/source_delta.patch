From 183c43424dbf7b9dc992882648b7a37706eff0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:02 +0000
Subject: [PATCH 01/33] fix: eint division by unsigned long multiplied instead
 of dividing

---
 src/PLASMA/Utils/Number.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/Utils/Number.hh b/src/PLASMA/Utils/Number.hh
index 3de61e7..e80f344 100644
--- a/src/PLASMA/Utils/Number.hh
+++ b/src/PLASMA/Utils/Number.hh
@@ -454,7 +454,7 @@ namespace EUROPA {
     inline eint operator*(const basis_type o) const {handle_inf_mul(eint, m_v, o); op(eint, m_v, *, o);}
     inline eint operator*(const eint o) const {return operator*(o.m_v);}
     inline eint operator/(const int o) const {handle_inf_div(eint, m_v, o); op(eint, m_v, /, o);}
-    inline eint operator/(const unsigned long o) const {handle_inf_mul(eint, m_v, o); op(eint, m_v, *, o);}
+    inline eint operator/(const unsigned long o) const {handle_inf_div(eint, m_v, o); op(eint, m_v, /, o);}
     inline eint operator/(const basis_type o) const {handle_inf_div(eint, m_v, o); op(eint, m_v, /, o);}
     inline eint operator/(const eint o) const {return operator/(o.m_v);}
 
-- 
2.43.0


From 8bd18c2333eee8f18e21e5af981f32b49c5e5dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:28 +0000
Subject: [PATCH 02/33] fix: IntervalDomain assignment copied the upper bound
 into the lower bound

The assigned domain also became open whenever the source was not finite,
although an interval domain is always closed.
---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 9d7897b..a201263 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -660,9 +660,9 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
   Domain& IntervalDomain::operator=(const Domain& dom) {
     safeComparison(*this, dom);
     check_error(m_listener.isNoId());
-    m_lb = dom.getUpperBound();
+    m_lb = dom.getLowerBound();
     m_ub = dom.getUpperBound();
-    m_closed = dom.isFinite();
+    m_closed = dom.isClosed();
     return(*this);
   }
 
-- 
2.43.0


From 7cec85809c265eda3df375831c697448418d80cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:01 +0000
Subject: [PATCH 03/33] fix: BoolDomain::intersect dropped values that lie
 within the given bounds

Bounds outside {0,1} were mapped to 1 and swapped bounds reordered, so
{0,1} with [-5,0] became empty and {0,1} with [2,3] kept 1.
---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index a201263..8f3fef4 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -1229,16 +1229,6 @@ edouble IntervalIntDomain::convert(const edouble& value) const {
   }
 
   bool BoolDomain::intersect(edouble lb, edouble ub) {
-    edouble boolLb = lb;
-    edouble boolUb = ub;
-    if(boolLb > boolUb) {
-      boolLb = boolUb;
-      boolUb = lb;
-    }
-    if(boolLb != 0.0)
-      boolLb = 1.0;
-    if(boolUb != 0.0)
-      boolUb = 1.0;
-    return IntervalIntDomain::intersect(boolLb, boolUb);
+    return IntervalIntDomain::intersect(lb, ub);
   }
 }
-- 
2.43.0


From bab14d382eb86b94f372d4a635ef9bea3c63e23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:01 +0000
Subject: [PATCH 04/33] fix: EnumeratedDomain::isMember missed a value just
 above the greatest member

Membership is decided to within minDelta, but the predecessor was only
examined when some member lies above the value.
---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 8f3fef4..7cc778d 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -250,11 +250,11 @@ EnumeratedDomain::EnumeratedDomain(const Domain& org)
       // Try fast compare first, then epsilon safe version
       if (value == elem || compareEqual(value, elem))
         return true;
-      if(it != m_values.begin()) {
-        --it;
-        // Before giving up, see if prior position is within epsilon
-        return it != m_values.end() && compareEqual(value, *it);
-      }
+    }
+    if(it != m_values.begin()) {
+      --it;
+      // Before giving up, see if prior position is within epsilon
+      return compareEqual(value, *it);
     }
     return false;
   }
-- 
2.43.0


From 7e2c910b29b94d01891cca7c5917886d9dd1fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:51 +0000
Subject: [PATCH 05/33] fix: EnumeratedDomain::equate reported no change when
 only this domain changed

---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 7cc778d..f74b3e1 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -167,8 +167,11 @@ EnumeratedDomain::EnumeratedDomain(const Domain& org)
 		  return true;
 
 	  // Have to intersect again for the case of mixed types (enumeration and interval)
-	  if(intersect(dom) && !isEmpty())
-		  changed = dom.intersect(*this) || changed;
+	  if(intersect(dom)) {
+		  changed = true;
+		  if(!isEmpty())
+			  dom.intersect(*this);
+	  }
 
 	  return changed;
   }
-- 
2.43.0


From 0fe81e4f39b8e07ccdca776316f5e16fd70b7a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:02 +0000
Subject: [PATCH 06/33] fix: IntervalDomain::isSubsetOf and intersects judged
 an enumeration by its bounds alone

---
 .../ConstraintEngine/component/Domains.cc     | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index f74b3e1..c2f4ead 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -723,6 +723,21 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
     safeComparison(*this, dom);
     check_error(!isOpen());
     check_error(!dom.isEmpty());
+
+    // Bounds do not tell which values an enumeration holds
+    if (dom.isEnumerated() && dom.isClosed()) {
+      if (isEmpty())
+        return(true);
+      if (!isFinite() || getSize() > dom.getSize())
+        return(false);
+      std::list<edouble> values;
+      getValues(values);
+      for (std::list<edouble>::const_iterator it = values.begin(); it != values.end(); ++it)
+        if (!dom.isMember(*it))
+          return(false);
+      return(true);
+    }
+
     bool result = ((isFinite() || dom.isInfinite()) &&
                    leq(m_ub, dom.getUpperBound()) &&
                    leq(dom.getLowerBound(), m_lb));
@@ -734,6 +749,10 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
     check_error(!isOpen());
     check_error(!dom.isEmpty());
 
+    // Bounds do not tell which values an enumeration holds
+    if (dom.isEnumerated() && dom.isClosed())
+      return(dom.intersects(*this));
+
     edouble ub = dom.getUpperBound();
 
     if( lt(ub, m_lb) )
-- 
2.43.0


From a98b3dd2514e81981f7b485f9196800b8941fed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:30 +0000
Subject: [PATCH 07/33] fix: IntervalDomain equality with an enumeration
 compared bounds only

---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index c2f4ead..0600fbe 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -710,6 +710,10 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
   bool IntervalDomain::operator==(const Domain& dom) const {
     safeComparison(*this, dom);
 
+    // Bounds do not tell which values an enumeration holds
+    if (dom.isEnumerated())
+      return(dom == *this);
+
     return(eq(m_lb, dom.getLowerBound()) &&
            eq(m_ub, dom.getUpperBound()) &&
 	   Domain::operator==(dom));
-- 
2.43.0


From 2aad769a39d6e55dd207457843b049ea019b6f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:54 +0000
Subject: [PATCH 08/33] fix: IntervalIntDomain::translateNumber rounded
 negative upper bounds up

---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 0600fbe..357b147 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -1189,10 +1189,13 @@ edouble IntervalIntDomain::convert(const edouble& value) const {
   edouble IntervalIntDomain::translateNumber(edouble number, bool asMin) const {
     edouble result = IntervalDomain::translateNumber(eint(number), asMin);
 
-    // Incrementing result will round up.
-    // Why the condition that number is positive? It breaks symmetry if nothing else. --wedgingt 2004 Mar 4
-    if ((std::abs(result - number) >= EPSILON) && asMin && number > 0)
-      result = result + 1;
+    // The conversion truncates towards zero: round a minimum up and a maximum down.
+    if (std::abs(result - number) >= EPSILON) {
+      if (asMin && number > 0)
+        result = result + 1;
+      else if (!asMin && number < 0)
+        result = result - 1;
+    }
     return(result);
   }
 
-- 
2.43.0


From 1a6a5d9c3cd2d895dcfec14c7bcb5f6edc1a54ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:54 +0000
Subject: [PATCH 09/33] fix: absVal raised an error when the absolute value has
 no support

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 68692eb..cf40d40 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -2202,7 +2202,8 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
       ub = std::max(std::abs(m_y.getLowerBound()), m_y.getUpperBound());
     }
 
-    m_x.intersect(IntervalDomain(lb, ub));
+    if(m_x.intersect(IntervalDomain(lb, ub)) && m_x.isEmpty())
+      return;
     lb = m_x.getLowerBound();
     ub = m_x.getUpperBound();
 
-- 
2.43.0


From cd92ca969fab0b7535e71c48809afa7e33ef9bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:54 +0000
Subject: [PATCH 10/33] fix: testNeq raised an error on interior values and on
 empty intersections

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index cf40d40..4d60988 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1962,14 +1962,11 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
 
     if(m_test.isSingleton()) {
       if(m_test.getSingletonValue() == true) { //Enforce inequality
-	if(m_arg1.isSingleton()) {
-	  m_arg2.remove(m_arg1.getSingletonValue());
-	}
-	if(m_arg2.isSingleton()) {
-	  m_arg1.remove(m_arg2.getSingletonValue());
-	}
+	if(!NotEqualConstraint::checkAndRemove(m_arg1, m_arg2))
+	  NotEqualConstraint::checkAndRemove(m_arg2, m_arg1);
       } else { //Enforce equality
-	m_arg2.intersect(m_arg1);
+	if(m_arg2.intersect(m_arg1) && m_arg2.isEmpty())
+	  return;
 	m_arg1.intersect(m_arg2);
       }
     }
-- 
2.43.0


From d683584f8a0381045f6582fd970448233e56c751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:54 +0000
Subject: [PATCH 11/33] fix: condAllDiff/allDiff lost solutions when an
 interval was added to an enumeration

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 4d60988..d458f47 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1241,7 +1241,8 @@ void addToUnion(Domain **unionOfDomains,
   edouble toAddMin, toAddMax, newMin, newMax;
   domToAdd.getBounds(toAddMin, toAddMax);
   (*unionOfDomains)->getBounds(newMin, newMax);
-  bool changing = false;
+  // An enumeration has gaps, so its bounds alone do not cover the interval.
+  bool changing = (*unionOfDomains)->isEnumerated();
   if (toAddMin < newMin) {
     newMin = toAddMin;
     changing = true;
@@ -1251,7 +1252,7 @@ void addToUnion(Domain **unionOfDomains,
     changing = true;
   }
   if (changing) {
-    if((*unionOfDomains)->minDelta() < 1.0)
+    if((*unionOfDomains)->minDelta() < 1.0 || domToAdd.minDelta() < 1.0)
       newUnion = new IntervalDomain(newMin, newMax);
     else
       newUnion = new IntervalIntDomain(static_cast<eint>(newMin), static_cast<eint>(newMax));
-- 
2.43.0


From 2d3fcd28295a96b7efe08dc1854a2613d5166895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:54 +0000
Subject: [PATCH 12/33] fix: deleting eqProduct with four or more arguments
 destroyed its variables before its constraints

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index d458f47..4f2efd3 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1013,6 +1013,12 @@ EqualSumConstraint::EqualSumConstraint(const std::string& name,
   }
 
   void EqualProductConstraint::handleDiscard(){
+    // The member constraints must go before the variables they are posted on
+    m_eqProductC1.reset();
+    m_eqProductC2.reset();
+    m_eqProductC3.reset();
+    m_eqProductC4.reset();
+    m_eqProductC5.reset();
     // Further unwind for contained variables
     // m_product1.discard();
     // m_product2.discard();
-- 
2.43.0


From 680aebae7420e1a406a26a252bc5b4c6915184dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:54 +0000
Subject: [PATCH 13/33] fix: lt excluded solutions when comparing a real with
 an integer

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 4f2efd3..c5f9338 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -752,15 +752,17 @@ bool NotEqualConstraint::canIgnore(const ConstrainedVariableId variable,
 
     debugMsg("LessThanConstraint:handleExecute", "Computing " << domx.toString() << " < " << domy.toString() << " x.minDelta = " <<
 	     domx.minDelta() << " y.minDelta = " << domy.minDelta());
+    // With a real and an integer, values may differ by less than 1.
+    const edouble delta = std::min(domx.minDelta(), domy.minDelta());
     if(domx.getUpperBound() >= domy.getUpperBound() &&
        domy.getUpperBound() < PLUS_INFINITY &&
-       domx.intersect(domx.getLowerBound(), domy.getUpperBound() - domx.minDelta()) &&
+       domx.intersect(domx.getLowerBound(), domy.getUpperBound() - delta) &&
        domx.isEmpty())
       return;
 
     if(domy.getLowerBound() <= domx.getLowerBound() &&
        domx.getLowerBound() > MINUS_INFINITY &&
-       domy.intersect(domx.getLowerBound() + domy.minDelta(), domy.getUpperBound()) &&
+       domy.intersect(domx.getLowerBound() + delta, domy.getUpperBound()) &&
        domy.isEmpty())
       return;
 
-- 
2.43.0


From a9dd3aceb3793800313fa7db3bfc5a0d2a3b28a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:54 +0000
Subject: [PATCH 14/33] fix: neq excluded solutions when comparing a real with
 an integer

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index c5f9338..b18d687 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -695,13 +695,15 @@ bool LessThanEqualConstraint::testIsRedundant(const ConstrainedVariableId var) c
       return(true);
     }
 
+    // With a real and an integer, values may differ by less than 1.
+    const edouble delta = std::min(domx.minDelta(), domy.minDelta());
     if (domx.compareEqual(domx.getSingletonValue(), domy.getLowerBound())) {
-      edouble low = domx.getSingletonValue() + domx.minDelta();
+      edouble low = domx.getSingletonValue() + delta;
       domy.intersect(IntervalDomain(low, domy.getUpperBound()));
       return(true);
     }
     if (domx.compareEqual(domx.getSingletonValue(), domy.getUpperBound())) {
-      edouble hi = domx.getSingletonValue() - domx.minDelta();
+      edouble hi = domx.getSingletonValue() - delta;
       domy.intersect(IntervalDomain(domy.getLowerBound(), hi));
       return(true);
     }
-- 
2.43.0


From 137a56b402cb1320d5159f91815cdbab2be5a6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:54 +0000
Subject: [PATCH 15/33] fix: addEq emptied a consistent sum of a real and an
 integer

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index b18d687..d066fff 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -162,9 +162,10 @@ namespace EUROPA {
      * following inconsistency, not yet caught.  We handle it here
      * however, by emptying the domain if the invariant post-condition
      * is not satisfied. The motivating case for this: A:Int[-10,10] +
-     * B:Int[-10,10] == C:Real[0.01, 0.99].
+     * B:Int[-10,10] == C:Real[0.01, 0.99]. It only follows when both
+     * addends are integers.
      */
-    if (m_z.isInterval() &&
+    if (m_z.isInterval() && m_x.minDelta() >= 1.0 && m_y.minDelta() >= 1.0 &&
 	(!m_z.isMember(Infinity::plus(yMax, xMin, zMin)) ||
 	 !m_z.isMember(Infinity::plus(yMin, xMax, zMin))))
       m_z.empty();
-- 
2.43.0


From 2f9bd0c69fbf1228b6c020e1a5b133158ac430d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:54 +0000
Subject: [PATCH 16/33] fix: addEq accepted wrong values when an enumeration
 was narrowed past the requested bound

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index d066fff..cfcc817 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -132,6 +132,7 @@ namespace EUROPA {
 
     if (m_z.intersect(zMin, zMax) && m_z.isEmpty())
       return;
+    m_z.getBounds(zMin, zMax); // an enumeration may have been cut further
 
     // Process X
     edouble zMax_minus_yMin = Infinity::minus(zMax, yMin, xMax);
@@ -144,6 +145,7 @@ namespace EUROPA {
 
     if (m_x.intersect(xMin, xMax) && m_x.isEmpty())
       return;
+    m_x.getBounds(xMin, xMax); // an enumeration may have been cut further
 
     // Process Y
     edouble yMaxCandidate = Infinity::minus(zMax, xMin, yMax);
-- 
2.43.0


From f1bd4f2112d23437e33246c60bf649d8dcaf61d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:57 +0000
Subject: [PATCH 17/33] fix: intersects and isSubsetOf of an integer and a real
 interval ignored fractional bounds

---
 .../ConstraintEngine/component/Domains.cc     | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 357b147..586872c 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -742,9 +742,13 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
       return(true);
     }
 
+    // A real is a value of an integer domain only if it is an integer
+    if (minDelta() < dom.minDelta() && isFinite())
+      return(isEmpty() || dom.isMember(m_lb));
+
     bool result = ((isFinite() || dom.isInfinite()) &&
-                   leq(m_ub, dom.getUpperBound()) &&
-                   leq(dom.getLowerBound(), m_lb));
+                   leq(m_ub, translateNumber(dom.getUpperBound(), false)) &&
+                   leq(translateNumber(dom.getLowerBound(), true), m_lb));
     return result;
   }
 
@@ -757,17 +761,12 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
     if (dom.isEnumerated() && dom.isClosed())
       return(dom.intersects(*this));
 
-    edouble ub = dom.getUpperBound();
-
-    if( lt(ub, m_lb) )
-      return false;
-
-    edouble lb = dom.getLowerBound();
-
-    if( lt(m_ub, lb))
-      return false;
+    // Common values lie between these bounds, and both domains must be able to hold them
+    const Domain& coarser = (minDelta() < dom.minDelta() ? dom : *this);
+    const edouble lb = coarser.translateNumber(std::max(m_lb, dom.getLowerBound()), true);
+    const edouble ub = coarser.translateNumber(std::min(m_ub, dom.getUpperBound()), false);
 
-    return true;
+    return(!lt(ub, lb));
   }
 
   bool IntervalDomain::equate(Domain& dom) {
-- 
2.43.0


From 7e8bc8c21541089cd43cffb2d1f7583e84ae01e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:57 +0000
Subject: [PATCH 18/33] fix: neq lost values of a real interval within 1 of the
 other, integer value

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index cfcc817..04b45fe 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -699,14 +699,14 @@ bool LessThanEqualConstraint::testIsRedundant(const ConstrainedVariableId var) c
     }
 
     // With a real and an integer, values may differ by less than 1.
-    const edouble delta = std::min(domx.minDelta(), domy.minDelta());
-    if (domx.compareEqual(domx.getSingletonValue(), domy.getLowerBound())) {
-      edouble low = domx.getSingletonValue() + delta;
+    const Domain& finer = (domx.minDelta() < domy.minDelta() ? domx : domy);
+    if (finer.compareEqual(value, domy.getLowerBound())) {
+      edouble low = value + finer.minDelta();
       domy.intersect(IntervalDomain(low, domy.getUpperBound()));
       return(true);
     }
-    if (domx.compareEqual(domx.getSingletonValue(), domy.getUpperBound())) {
-      edouble hi = domx.getSingletonValue() - delta;
+    if (finer.compareEqual(value, domy.getUpperBound())) {
+      edouble hi = value - finer.minDelta();
       domy.intersect(IntervalDomain(domy.getLowerBound(), hi));
       return(true);
     }
-- 
2.43.0


From cedfb2891c59b70f94eb91c8b12659b84928c48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:48 +0000
Subject: [PATCH 19/33] fix: absVal lost values of an integer argument when the
 bounds of the real are fractional

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 04b45fe..b18519b 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -2225,12 +2225,15 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
     if(lb == 0 && m_y.isMember(-ub) && m_y.isMember(ub))
       m_y.intersect(IntervalDomain(-ub, ub));
 
-    if((m_y.isMember(lb) || m_y.isMember(ub)) && (m_y.isMember(-lb) || m_y.isMember(-ub)))
+    // Compare bounds: the bounds of a real need not be members of an integer domain
+    const bool positive = (m_y.getLowerBound() <= ub && lb <= m_y.getUpperBound());
+    const bool negative = (m_y.getLowerBound() <= -lb && -ub <= m_y.getUpperBound());
+    if(positive && negative)
       return;
 
-    if(m_y.isMember(lb) || m_y.isMember(ub))
+    if(positive)
       m_y.intersect(IntervalDomain(lb, ub));
-    else if(m_y.isMember(-lb) || m_y.isMember(-ub))
+    else if(negative)
       m_y.intersect(IntervalDomain(-ub, -lb));
   }
 
-- 
2.43.0


From 81dbda990314588e87541112dbffd3ff026ac09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:57 +0000
Subject: [PATCH 20/33] fix: constraints waiting on the agenda were dropped
 when an inconsistency was found

---
 .../ConstraintEngine/component/Propagators.cc      | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Propagators.cc b/src/PLASMA/ConstraintEngine/component/Propagators.cc
index 108bed9..774b467 100644
--- a/src/PLASMA/ConstraintEngine/component/Propagators.cc
+++ b/src/PLASMA/ConstraintEngine/component/Propagators.cc
@@ -77,18 +77,8 @@ DefaultPropagator::DefaultPropagator(const std::string& name,
       }
     }
 
-    // If we can continue propagation despite the discovered inconsistency,
-    // keep agenda for when the ConstraintEngine recovers and decides to resume propagation
-    if(getConstraintEngine()->provenInconsistent()) {
-        if (getConstraintEngine()->canContinuePropagation()) {
-	        debugMsg("DefaultPropagator:agenda","CE was proven inconsistent, keeping agenda because propagation can continue later");
-	        // TODO: should remove from the agenda any constraints associated with the empty variable, since it'll be relaxed and they'll ba added again
-        }
-        else {
-            m_agenda.clear();
-	        debugMsg("DefaultPropagator:agenda","Cleared agenda because CE was proven inconsistent");
-        }
-    }
+    // Keep the agenda even if an inconsistency was discovered: relaxing the emptied variable puts
+    // only the constraints of relaxed variables back, and the others must still be executed.
     m_activeConstraint = 0;
   }
 
-- 
2.43.0


From 3a835b95ad5ffb16209a030660a35095d9bb0188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:57 +0000
Subject: [PATCH 21/33] fix: specifying an inconsistent value while relaxations
 are pending raised an internal error

---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 31b43cf..1fffdb3 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -824,8 +824,8 @@ void ConstraintEngine::notify(const ConstrainedVariableId source,
     if (variable->getCurrentPropagatingConstraint().isId()) {
     	debugMsg("ConstraintEngine:emptied","Var emptied by constraint:"<< variable->getCurrentPropagatingConstraint()->toLongString());
     }
-    //check_error(m_relaxed == false);
-    check_error(m_relaxed.empty());
+    // A client may empty a variable by specifying it while relaxations are waiting to be propagated
+    check_error(!m_propInProgress || m_relaxed.empty());
     getViolationMgr().handleEmpty(variable);
   }
 
-- 
2.43.0


From 1382bcc5481878dab6d0bc7cc8809a8d24c2c296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:44 +0000
Subject: [PATCH 22/33] fix: subtracting an enumeration from an interval
 removes its members only

The bounds of the enumeration were subtracted as an interval, so [0 10] minus {0,10} became empty.
---
 .../ConstraintEngine/component/Domains.cc     | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 586872c..5f88143 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -631,6 +631,28 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
     check_error(dom.isOpen() || !dom.isEmpty());
     check_error(isOpen() || !isEmpty());
 
+    // Only the members of an enumeration are removed, not the values between them
+    if (dom.isEnumerated()) {
+      edouble lb = m_lb, ub = m_ub;
+      while (leq(lb, ub) && dom.isMember(lb))
+        lb = lb + minDelta();
+      while (leq(lb, ub) && dom.isMember(ub))
+        ub = ub - minDelta();
+
+      if (lt(ub, lb)) {
+        empty();
+        return(true);
+      }
+
+      // As below, a difference that would split the interval is not handled
+      std::list<edouble> values;
+      dom.getValues(values);
+      for (std::list<edouble>::const_iterator it = values.begin(); it != values.end(); ++it)
+        check_error(convert(*it) != *it || lt(*it, lb) || lt(ub, *it));
+
+      return(intersect(lb, ub));
+    }
+
     // Check for case where difference could cause a split in the interval;
     //   don't handle it in this implementation.
     check_error(! (lt(m_lb, dom.getLowerBound()) && lt(dom.getUpperBound(), m_ub)));
-- 
2.43.0


From 2b17a49dea584cb3cc4f5fb4b19ac5d802db6df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:11 +0000
Subject: [PATCH 23/33] fix: subtracting a real interval from an integer
 interval keeps the bounds integer

Subtracting [0.5 0.5] from an integer interval ending at 0 emptied or misplaced its bounds.
---
 .../ConstraintEngine/component/Domains.cc     | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 5f88143..8326158 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -653,29 +653,35 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
       return(intersect(lb, ub));
     }
 
+    // An integer domain holds only the integers between the bounds
+    const edouble lb = translateNumber(dom.getLowerBound(), true);
+    const edouble ub = translateNumber(dom.getUpperBound(), false);
+    if (lt(ub, lb))
+      return(false);
+
     // Check for case where difference could cause a split in the interval;
     //   don't handle it in this implementation.
-    check_error(! (lt(m_lb, dom.getLowerBound()) && lt(dom.getUpperBound(), m_ub)));
+    check_error(! (lt(m_lb, lb) && lt(ub, m_ub)));
 
     // Nothing to be done if the lower bound > dom.upper bound, or the upper bound < dom.lowerbound
-    if (lt(dom.getUpperBound(), m_lb) || lt(m_ub, dom.getLowerBound()))
+    if (lt(ub, m_lb) || lt(m_ub, lb))
       return(false);
 
     // If it is contained by dom then it will be emptied
-    if (leq(dom.getLowerBound(), m_lb) && leq(m_ub, dom.getUpperBound())) {
+    if (leq(lb, m_lb) && leq(m_ub, ub)) {
       empty();
       return(true);
     }
 
     // If lower bound > dom.lower bound then we must increment it to exceed the upper bound
-    if (leq(dom.getLowerBound(), m_lb)) {
-      m_lb = dom.getUpperBound() + minDelta();
+    if (leq(lb, m_lb)) {
+      m_lb = ub + minDelta();
       notifyChange(DomainListener::LOWER_BOUND_INCREASED);
     }
 
     // Similarly for the upper bound
-    if (leq(m_ub, dom.getUpperBound())) {
-      m_ub = dom.getLowerBound() - minDelta();
+    if (leq(m_ub, ub)) {
+      m_ub = lb - minDelta();
       notifyChange(DomainListener::UPPER_BOUND_DECREASED);
     }
 
-- 
2.43.0


From 461c95ea2b9f1ad5ec51a3d37e3bb1b9615b6314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:17 +0000
Subject: [PATCH 24/33] fix: calcDistance allows a zero offset whenever the
 coordinate ranges overlap

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index b18519b..3654a70 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -2332,7 +2332,7 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
     dx.insert(std::abs(m_x1.getLowerBound() - m_x2.getUpperBound()));
     dx.insert(std::abs(m_x1.getUpperBound() - m_x2.getLowerBound()));
     dx.insert(std::abs(m_x1.getUpperBound() - m_x2.getUpperBound()));
-    if(m_x1.intersects(m_x2))
+    if(m_x1.getLowerBound() <= m_x2.getUpperBound() && m_x2.getLowerBound() <= m_x1.getUpperBound())
       dx.insert(0.0);
     dx.close();
 
@@ -2342,7 +2342,7 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
     dy.insert(std::abs(m_y1.getLowerBound() - m_y2.getUpperBound()));
     dy.insert(std::abs(m_y1.getUpperBound() - m_y2.getLowerBound()));
     dy.insert(std::abs(m_y1.getUpperBound() - m_y2.getUpperBound()));
-    if(m_y1.intersects(m_y2))
+    if(m_y1.getLowerBound() <= m_y2.getUpperBound() && m_y2.getLowerBound() <= m_y1.getUpperBound())
       dy.insert(0.0);
     dy.close();
 
-- 
2.43.0


From 926d5f9144ec8d719cd082d2f94d56b42adbad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:16 +0000
Subject: [PATCH 25/33] fix: deleting a distance graph node forgets the edges
 that led to it

---
 src/PLASMA/TemporalNetwork/base/DistanceGraph.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc b/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc
index ff47394..f6ffdff 100644
--- a/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc
+++ b/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc
@@ -113,6 +113,7 @@ Void DistanceGraph::deleteNode(Dnode& node)
   for (Int j=0; j < node.inCount; j++) {
     Dedge* edge = node.inArray[j];
     detachEdge(edge->from.outArray, edge->from.outCount, *edge);
+    edge->from.edgemap.erase(&node);
     eraseEdge(*edge);
   }
   node.inCount = node.outCount = 0;
-- 
2.43.0


From 689910a5c906aa5b03143b3fc7ebba95ec169e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:55 +0000
Subject: [PATCH 26/33] fix: a timepoint joins at most one ring of equal
 timepoints

---
 src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
index 4c19bf8..008ec0f 100644
--- a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
+++ b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
@@ -969,7 +969,7 @@ Void TemporalNetwork::maintainTEQ (Time lb, Time ub, Timepoint& src, Timepoint&
       targ.ringLeader = src.ringLeader;
       src.ringLeader->ringFollowers.push_back(&targ);
     }
-    if (src.ringLeader) {
+    if (src.ringLeader == NULL) {
       // In this case targ->ringLeader must be non-null
       src.ringLeader = targ.ringLeader;
       targ.ringLeader->ringFollowers.push_back(&src);
-- 
2.43.0


From 40597f50e86788aa440d993ec028331ee27dcc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:25 +0000
Subject: [PATCH 27/33] fix: re-detect violations and flaws at every instant
 from the time a limit or capacity changes

---
 src/PLASMA/Resource/base/Resource.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/Resource/base/Resource.cc b/src/PLASMA/Resource/base/Resource.cc
index 3f8b8ba..1636426 100644
--- a/src/PLASMA/Resource/base/Resource.cc
+++ b/src/PLASMA/Resource/base/Resource.cc
@@ -139,8 +139,10 @@ void Resource::init(const edouble initCapacityLb, const edouble initCapacityUb,
 	{
 		const std::map<eint, InstantId>& usages = m_profile->getInstants();
 		std::map<eint, InstantId>::iterator nextUsage = m_profile->getLeastInstant(time);
-		if (nextUsage != usages.end())
-			m_detector->detect(nextUsage->second);
+		// A limit holds from its time until the next limit, so every later instant may be affected
+		for (; nextUsage != usages.end(); ++nextUsage)
+			if (m_detector->detect(nextUsage->second))
+				break;
 	}
 
   void Resource::setLimit(const eint& time, const edouble& lb, const edouble &ub)
-- 
2.43.0


From f802314d33e66761425b97edf72e314588f07527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:34 +0000
Subject: [PATCH 28/33] fix: TokenVariable::relax keeps the restrictions of
 merged tokens

The first relaxation went to the base domain of the variable; the second one, to the
integrated base domain, cannot restrict a domain and had no effect, so an active token lost
the restrictions of the tokens merged with it.
---
 src/PLASMA/PlanDatabase/base/TokenVariable.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/TokenVariable.hh b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
index 477bcc5..5e1175d 100644
--- a/src/PLASMA/PlanDatabase/base/TokenVariable.hh
+++ b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
@@ -284,9 +284,10 @@ TokenVariable<DomainType>::TokenVariable(const TokenId _parent,
 
   template<class DomainType>
   void TokenVariable<DomainType>::relax() {
-    Variable<DomainType>::relax();
-
-    if(!(this->isSpecified()))
+    // The integrated base domain includes the restrictions of merged tokens, so it replaces the base domain
+    if(this->isSpecified())
+    	Variable<DomainType>::relax();
+    else
     	this->m_derivedDomain->relax(*m_integratedBaseDomain);
   }
 
-- 
2.43.0


From 85f9aae4b0996c89405b9fb0c7bc0c6619488272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:34 +0000
Subject: [PATCH 29/33] fix: splitting the last merged token of an orphaned
 active token resets its variables

Token::split took the loss of the last reference for the deletion of the active token and
skipped restoring its variables, although nothing deletes the token there.
---
 src/PLASMA/PlanDatabase/base/Token.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/base/Token.cc b/src/PLASMA/PlanDatabase/base/Token.cc
index 3bae4b2..85922c2 100644
--- a/src/PLASMA/PlanDatabase/base/Token.cc
+++ b/src/PLASMA/PlanDatabase/base/Token.cc
@@ -401,7 +401,8 @@ void Token::doMerge(const TokenId activeToken){
     m_activeToken = TokenId::noId();
 
     // Now clean up
-    bool activeTokenDeleted = activeToken->removeMergedToken(m_id);
+    // A token that has lost its last reference is still there unless it is being deleted
+    bool activeTokenDeleted = activeToken->removeMergedToken(m_id) && activeToken->isDeleted();
     memento->undo(activeTokenDeleted);
     memento.release();
 
-- 
2.43.0


From 12a54b36eb971edad50909fc9fe242000b772450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:57 +0000
Subject: [PATCH 30/33] fix: depth limit of the solver is not exceeded by
 backtracking below the depth it started from

---
 src/PLASMA/Solvers/base/Solver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/Solvers/base/Solver.cc b/src/PLASMA/Solvers/base/Solver.cc
index c41fe21..bb8c2c0 100644
--- a/src/PLASMA/Solvers/base/Solver.cc
+++ b/src/PLASMA/Solvers/base/Solver.cc
@@ -325,7 +325,7 @@ const std::string& Solver::getName() const { return m_name;}
       }
 
       if(m_maxSteps <= getStepCount() - m_stepCountFloor || 
-         m_maxDepth < getDepth() - m_depthFloor){
+         getDepth() > m_depthFloor + m_maxDepth){
         debugMsg("Solver:step", 
                  "Timeout!  Max steps: " << m_maxSteps << " step (above floor) " << 
                  getStepCount() - m_stepCountFloor <<
-- 
2.43.0


From 0c6e95f94a03347c816f630003963c347a784ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:21 +0000
Subject: [PATCH 31/33] fix: a redundant constraint that is deactivated before
 it has been propagated is not forgotten when it is activated again

---
 src/PLASMA/ConstraintEngine/base/Constraint.cc     |  9 +++++----
 .../ConstraintEngine/base/ConstraintEngine.cc      | 14 +++++++++++++-
 .../ConstraintEngine/base/ConstraintEngine.hh      |  5 +++++
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/Constraint.cc b/src/PLASMA/ConstraintEngine/base/Constraint.cc
index a7168e6..8fae5ca 100644
--- a/src/PLASMA/ConstraintEngine/base/Constraint.cc
+++ b/src/PLASMA/ConstraintEngine/base/Constraint.cc
@@ -225,8 +225,9 @@ Constraint::getModifiedVariables(const ConstrainedVariableId) const {
     debugMsg("Constraint:notifyBaseDomainRestricted",
 	     "Base domain of " << var->toString() << " restricted in " << m_id->toString());
 
-    // If already redundant, nothing to do
-    if(m_isRedundant)
+    // If already redundant, nothing to do. An inactive constraint can not be propagated, so it may
+    // not be considered redundant yet.
+    if(m_isRedundant || !isActive())
       return;
 
     // Update
@@ -293,8 +294,8 @@ Constraint::getModifiedVariables(const ConstrainedVariableId) const {
   void Constraint::undoDeactivation(){
     check_error(!Entity::isPurging());
 
-    // Prevent deactivation if redundant
-    if(isRedundant())
+    // Prevent activation if redundant, unless it was deactivated before it could be propagated
+    if(isRedundant() && !m_constraintEngine->isPendingRedundant(m_id))
       return;
 
     m_deactivationRefCount--;
diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 1fffdb3..9ddb79f 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -585,6 +585,10 @@ void ConstraintEngine::add(const PropagatorId propagator){
     }
   }
 
+  bool ConstraintEngine::isPendingRedundant(const ConstraintId redundantConstraint) const {
+    return m_redundantConstraints.find(redundantConstraint) != m_redundantConstraints.end();
+  }
+
   void ConstraintEngine::notifyDeactivated(const ConstrainedVariableId var){
     check_error(!Entity::isPurging());
     check_error(var.isValid() && !var->isActive());
@@ -1023,17 +1027,25 @@ const PropagatorId ConstraintEngine::getPropagatorByName(const std::string& name
    */
   void ConstraintEngine::processRedundantConstraints(){
     checkError(constraintConsistent(), "Can only process when fully propagated.");
+    ConstraintSet inactiveConstraints;
     for(ConstraintSet::const_iterator it = m_redundantConstraints.begin();
 	it != m_redundantConstraints.end();
 	++it){
       ConstraintId constraint = *it;
       checkError(constraint.isValid(), constraint);
       checkError(constraint->isRedundant(), "Must be redundant. Buffering error.");
+
+      // If deactivated in the meantime, it has not been propagated, and must be able to become active again
+      if(!constraint->isActive()){
+        inactiveConstraints.insert(constraint);
+        continue;
+      }
+
       constraint->deactivate();
       debugMsg("ConstraintEngine:processRedundantConstraints", constraint->toString());
     }
 
-    m_redundantConstraints.clear();
+    m_redundantConstraints = inactiveConstraints;
   }
 
 
diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
index 48113bc..ef630c2 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
@@ -441,6 +441,11 @@ typedef Id<ConstraintEngineListener> ConstraintEngineListenerId;
      */
     void notifyRedundant(const ConstraintId redundantConstraint);
 
+    /**
+     * @brief Test if a redundant constraint has still to be propagated before it can be deactivated.
+     */
+    bool isPendingRedundant(const ConstraintId redundantConstraint) const;
+
     /**
      * @brief Notification from a variable when it has been deactivated
      */
-- 
2.43.0


From c285955e57c397c3ea1266573fe97772c878da76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:08:11 +0000
Subject: [PATCH 32/33] fix: relaxations made by rules executed after
 propagation raised an internal error in the next propagation cycle

---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 9ddb79f..6bbf8f3 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -682,13 +682,13 @@ void ConstraintEngine::add(const PropagatorId propagator){
       return false;
     }
 
-    //m_relaxed = false; // Reset by default
-    m_relaxed.clear();
     bool started = false;
 
     bool continueProp = true;
 
     while(continueProp) {
+      //m_relaxed = false; // Reset by default, and for what the callbacks have relaxed
+      m_relaxed.clear();
       incrementCycle();
       debugMsg("ConstraintEngine:propagate", "Starting cycle " << m_cycleCount);
       m_propInProgress = true;
-- 
2.43.0


From 8824ad0d1278a6c6e6651da2e138dd14018de7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:08:11 +0000
Subject: [PATCH 33/33] fix: a nested rule instance deleted while it was
 scheduled was still executed or undone

---
 src/PLASMA/RulesEngine/base/RuleInstance.cc |  4 ++++
 src/PLASMA/RulesEngine/base/RulesEngine.cc  | 17 +++++++++++++++--
 src/PLASMA/RulesEngine/base/RulesEngine.hh  |  1 +
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/RulesEngine/base/RuleInstance.cc b/src/PLASMA/RulesEngine/base/RuleInstance.cc
index 95400d4..86893b9 100644
--- a/src/PLASMA/RulesEngine/base/RuleInstance.cc
+++ b/src/PLASMA/RulesEngine/base/RuleInstance.cc
@@ -144,6 +144,10 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
     if(isExecuted())
       undo();
 
+    // It must not be executed or undone any more
+    if(!m_rulesEngine.isNoId())
+      m_rulesEngine->unschedule(m_id);
+
     // If there is a guard domain, delete it
     if(m_guardDomain != 0)
       delete m_guardDomain;
diff --git a/src/PLASMA/RulesEngine/base/RulesEngine.cc b/src/PLASMA/RulesEngine/base/RulesEngine.cc
index 06d38b6..074a79a 100644
--- a/src/PLASMA/RulesEngine/base/RulesEngine.cc
+++ b/src/PLASMA/RulesEngine/base/RulesEngine.cc
@@ -243,6 +243,19 @@ RulesEngine::~RulesEngine(){
     m_ruleInstancesToUndo.push_back(r);
   }
 
+  /**
+   * A rule instance may be deleted while it is scheduled, e.g. when its parent is undone by doRules. Entries are
+   * voided rather than erased, since doRules iterates over them.
+   */
+  void RulesEngine::unschedule(const RuleInstanceId r) {
+    for(std::vector<RuleInstanceId>::iterator it = m_ruleInstancesToExecute.begin(); it != m_ruleInstancesToExecute.end(); ++it)
+      if(*it == r)
+        *it = RuleInstanceId::noId();
+    for(std::vector<RuleInstanceId>::iterator it = m_ruleInstancesToUndo.begin(); it != m_ruleInstancesToUndo.end(); ++it)
+      if(*it == r)
+        *it = RuleInstanceId::noId();
+  }
+
   bool RulesEngine::doRules() {
     check_error(!m_executing);
     m_executing = true;
@@ -273,13 +286,13 @@ RulesEngine::~RulesEngine(){
 	       ((*it)->hasEmptyGuard() ? "G" : "*"));
     }
     for(std::vector<RuleInstanceId>::iterator it = m_ruleInstancesToExecute.begin(); it != execEnd; ++it)
-      if(!(*it)->isExecuted() && (*it)->test()) {
+      if(!it->isNoId() && !(*it)->isExecuted() && (*it)->test()) {
         debugMsg("RulesEngine:doRules", "Executing rule " << (*it)->toString());
         (*it)->execute();
         retval = true;
       }
     for(std::vector<RuleInstanceId>::iterator it = m_ruleInstancesToUndo.begin(); it != undoEnd; ++it)
-      if((*it)->isExecuted() && !(*it)->test() && !(*it)->hasEmptyGuard()) {
+      if(!it->isNoId() && (*it)->isExecuted() && !(*it)->test() && !(*it)->hasEmptyGuard()) {
         debugMsg("RulesEngine:doRules", "Undoing rule " << (*it)->toString());
         (*it)->undo();
         retval = true;
diff --git a/src/PLASMA/RulesEngine/base/RulesEngine.hh b/src/PLASMA/RulesEngine/base/RulesEngine.hh
index 2b2cf61..afd55dc 100644
--- a/src/PLASMA/RulesEngine/base/RulesEngine.hh
+++ b/src/PLASMA/RulesEngine/base/RulesEngine.hh
@@ -59,6 +59,7 @@ namespace EUROPA {
     bool isPending(const RuleInstanceId r) const;
     void scheduleForExecution(const RuleInstanceId r);
     void scheduleForUndoing(const RuleInstanceId r);
+    void unschedule(const RuleInstanceId r);
     bool doRules();
     bool hasWork() const;
     
-- 
2.43.0

