From f503bd73652847c434d76d52c4ecfe098e608d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:16 +0000
Subject: [PATCH 01/66] fix: interval product keeps a bound attained by only
 one of two equal extremal products

For operands with zero in their interior two products of end points compete for each bound.
If both products were equal, the bound type of one of them was taken, so that e.g.
[-1,1] * (-1,1] became [-1,1[ although 1 * 1 = 1.
---
 src/carl/interval/Interval.tpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 38cf2be..fd6bebb 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -439,6 +439,10 @@ Interval<Number> Interval<Number>::mul(const Interval<Number>& rhs) const
                         lowerA = lowerB;
                         lowerBoundType = getStrictestBoundType(xut, ylt);
                     }
+                    else if( lowerA == lowerB )
+                    {
+                        lowerBoundType = getWeakestBoundType(getStrictestBoundType(xlt, yut), getStrictestBoundType(xut, ylt));
+                    }
                     else
                     {
                         lowerBoundType = getStrictestBoundType(xlt, yut);
@@ -450,6 +454,10 @@ Interval<Number> Interval<Number>::mul(const Interval<Number>& rhs) const
                         upperA = upperB;
                         upperBoundType = getStrictestBoundType(xut, yut);
                     }
+                    else if( upperA == upperB )
+                    {
+                        upperBoundType = getWeakestBoundType(getStrictestBoundType(xlt, ylt), getStrictestBoundType(xut, yut));
+                    }
                     else
                     {
                         upperBoundType = getStrictestBoundType(xlt, ylt);
-- 
2.43.0


From 75f1bb5a2dcad2ff5e875cad81a50b9f4ca6cbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:16 +0000
Subject: [PATCH 02/66] fix: interval product does not claim zero if no factor
 contains zero

]-oo,0[ * [-2,-1] was reported as [0,oo[ instead of ]0,oo[.
---
 src/carl/interval/Interval.tpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index fd6bebb..8da763d 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -581,8 +581,7 @@ Interval<Number> Interval<Number>::mul(const Interval<Number>& rhs) const
     {
         if( zeroBoundInvolved == 2 )
             zeroBoundInvolved = (this->contains( carl::constant_zero<Number>().get() ) || rhs.contains( carl::constant_zero<Number>().get() )) ? 1 : 0;
-        if( zeroBoundInvolved == 1 )
-            lowerBoundType = BoundType::WEAK;
+        lowerBoundType = zeroBoundInvolved == 1 ? BoundType::WEAK : BoundType::STRICT;
     }
     if( (xlt == BoundType::INFTY && (yu < carl::constant_zero<Number>().get() || (yl < carl::constant_zero<Number>().get() || ylt == BoundType::INFTY)))
        || (xut == BoundType::INFTY && (yl > carl::constant_zero<Number>().get() || (yu > carl::constant_zero<Number>().get() || yut == BoundType::INFTY)))
@@ -595,8 +594,7 @@ Interval<Number> Interval<Number>::mul(const Interval<Number>& rhs) const
     {
         if( zeroBoundInvolved == 2 )
             zeroBoundInvolved = (this->contains( carl::constant_zero<Number>().get() ) || rhs.contains( carl::constant_zero<Number>().get() )) ? 1 : 0;
-        if( zeroBoundInvolved == 1 )
-            upperBoundType = BoundType::WEAK;
+        upperBoundType = zeroBoundInvolved == 1 ? BoundType::WEAK : BoundType::STRICT;
     }
     return Interval<Number>(std::move(resultInterval), lowerBoundType, upperBoundType );
 }
-- 
2.43.0


From 5ddca8a009a7d68f33bcb35a7894fe297c5cdc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:16 +0000
Subject: [PATCH 03/66] fix: adding to an empty interval yields the empty
 interval

Only the right operand was checked, so empty + [0,1] was a non-empty interval.
---
 src/carl/interval/Interval.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 8da763d..0d698d5 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -378,7 +378,7 @@ Interval<Number> Interval<Number>::add(const Interval<Number>& rhs) const
 {
     assert(this->isConsistent());
     assert(rhs.isConsistent());
-	if (rhs.isEmpty()) return emptyInterval();
+	if (this->isEmpty() || rhs.isEmpty()) return emptyInterval();
     return Interval<Number>( mContent + rhs.content(),
                           getStrictestBoundType( mLowerBoundType, rhs.lowerBoundType() ),
                           getStrictestBoundType( mUpperBoundType, rhs.upperBoundType() ) );
-- 
2.43.0


From 11289f769e0a82a941b02c6a692556450dda5765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:16 +0000
Subject: [PATCH 04/66] fix: keep the canonical empty interval when
 constructing from a boost interval

The normalisation of an empty interval was overwritten by the following branch, so that two empty
intervals could compare different.
---
 src/carl/interval/Interval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/interval/Interval.h b/src/carl/interval/Interval.h
index 885befb..25d5868 100644
--- a/src/carl/interval/Interval.h
+++ b/src/carl/interval/Interval.h
@@ -240,7 +240,7 @@ namespace carl
                     mLowerBoundType = BoundType::STRICT;
                     mUpperBoundType = BoundType::STRICT;
                 }
-                if (IS_UNBOUNDED(content.lower(), lowerBoundType, content.upper(), upperBoundType))
+                else if (IS_UNBOUNDED(content.lower(), lowerBoundType, content.upper(), upperBoundType))
                 {
                     mContent = BoostInterval(carl::constant_zero<Number>().get());
                     mLowerBoundType = BoundType::INFTY;
-- 
2.43.0


From f9232701b8ad676120fe5c6b226fb4dbbb3d1b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:16 +0000
Subject: [PATCH 05/66] fix: compound assignment of an interval with a number
 agrees with the binary operator

The bound types were not exchanged when multiplying with a negative number, and shifting an empty or
unbounded interval left the stored end points in a non-canonical state.
---
 src/carl/interval/operators.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/carl/interval/operators.h b/src/carl/interval/operators.h
index 19b6065..c72cfc6 100644
--- a/src/carl/interval/operators.h
+++ b/src/carl/interval/operators.h
@@ -305,8 +305,7 @@ inline Interval<Number>& operator+=(Interval<Number>& lhs, const Interval<Number
  */
 template<typename Number>
 inline Interval<Number>& operator+=(Interval<Number>& lhs, const Number& rhs) {
-	lhs.rContent() += rhs;
-	return lhs;
+	return lhs = lhs + rhs;
 }
 
 /**
@@ -372,8 +371,7 @@ inline Interval<Number>& operator-=(Interval<Number>& lhs, const Interval<Number
  */
 template<typename Number>
 inline Interval<Number>& operator-=(Interval<Number>& lhs, const Number& rhs) {
-	lhs.rContent() -= rhs;
-	return lhs;
+	return lhs = lhs - rhs;
 }
 
 /**
@@ -433,8 +431,7 @@ inline Interval<Number>& operator*=(Interval<Number>& lhs, const Interval<Number
  */
 template<typename Number>
 inline Interval<Number>& operator*=(Interval<Number>& lhs, const Number& rhs) {
-	lhs.rContent() *= rhs;
-	return lhs;
+	return lhs = lhs * rhs;
 }
 
 /**
-- 
2.43.0


From ae2d9a8bce8333770e9b1e362b23de43431dc73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:16 +0000
Subject: [PATCH 06/66] fix: scaling a non-empty interval by zero gives the
 point interval zero

The bound types of the operand were kept, so that e.g. ]0,1[ * 0 was empty.
---
 src/carl/interval/operators.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carl/interval/operators.h b/src/carl/interval/operators.h
index c72cfc6..bff1e4d 100644
--- a/src/carl/interval/operators.h
+++ b/src/carl/interval/operators.h
@@ -393,7 +393,9 @@ inline Interval<Number> operator*(const Interval<Number>& lhs, const Interval<Nu
  */
 template<typename Number>
 inline Interval<Number> operator*(const Interval<Number>& lhs, const Number& rhs) {
-	if (rhs >= 0) {
+	if (carl::isZero(rhs)) {
+		return lhs.isEmpty() ? lhs : Interval<Number>(rhs);
+	} else if (rhs >= 0) {
 		return Interval<Number>(lhs.rContent() * rhs, lhs.lowerBoundType(), lhs.upperBoundType());
 	} else {
 		return Interval<Number>(lhs.rContent() * rhs, lhs.upperBoundType(), lhs.lowerBoundType());
-- 
2.43.0


From 1f8010a5d13e3bb308e61c03f4f65b8651c4e992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:16 +0000
Subject: [PATCH 07/66] fix: absolute value of an interval containing zero or
 ending in zero

The larger bound was used instead of the bound with the larger absolute value ([-2,1] became [0,1]),
and unbounded intervals and intervals like ]-1,0[ were mapped wrongly.
---
 src/carl/interval/Interval.tpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 0d698d5..e265dbe 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -729,13 +729,21 @@ void Interval<Number>::inverse_assign()
         {
             if(this->contains(carl::constant_zero<Number>().get()))
             {
-                Number max = mContent.upper() > mContent.lower() ? mContent.upper() : mContent.lower();
-                BoundType bt = mContent.upper() > mContent.lower() ? mUpperBoundType : mLowerBoundType;
-                return Interval<Number>( carl::constant_zero<Number>().get(), BoundType::WEAK, max, bt );
+                if( this->isUnbounded() )
+                {
+                    return Interval<Number>( carl::constant_zero<Number>().get(), BoundType::WEAK, carl::constant_zero<Number>().get(), BoundType::INFTY );
+                }
+                Number negLower = -mContent.lower();
+                if( negLower == mContent.upper() )
+                {
+                    return Interval<Number>( carl::constant_zero<Number>().get(), BoundType::WEAK, negLower, getWeakestBoundType(mLowerBoundType, mUpperBoundType) );
+                }
+                bool upperIsMax = mContent.upper() > negLower;
+                return Interval<Number>( carl::constant_zero<Number>().get(), BoundType::WEAK, upperIsMax ? mContent.upper() : negLower, upperIsMax ? mUpperBoundType : mLowerBoundType );
             }
-            else if( mContent.upper() < carl::constant_zero<Number>().get()) // interval is fully negative
+            else if( this->isSemiNegative() && !this->isEmpty() ) // interval is fully negative
             {
-                return Interval<Number>(-mContent.upper(), mUpperBoundType, -mContent.lower(), mLowerBoundType);
+                return this->inverse();
             }
             // otherwise inteval is already fully positive
             return *this;
-- 
2.43.0


From 603b42ab94eaa8cd43e213f8469748f434d66648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:16 +0000
Subject: [PATCH 08/66] fix: even interval powers of intervals symmetric to
 zero and zeroth powers

[-1,1[ squared lost the value 1, which is attained at the closed bound.
The zeroth power of a half-bounded open interval excluded its only value 1.
---
 src/carl/interval/power.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/carl/interval/power.h b/src/carl/interval/power.h
index 81124d9..c96e7be 100644
--- a/src/carl/interval/power.h
+++ b/src/carl/interval/power.h
@@ -10,6 +10,9 @@ namespace carl {
 template<typename Number, typename Integer>
 Interval<Number> pow(const Interval<Number>& i, Integer exp) {
 	assert(i.isConsistent());
+	if (exp == 0 && !i.isEmpty()) {
+		return Interval<Number>(carl::constant_one<Number>().get());
+	}
 	if (exp % 2 == 0) {
 		if (i.isInfinite()) {
 			return Interval<Number>(carl::constant_zero<Number>().get(), BoundType::WEAK, carl::constant_zero<Number>().get(), BoundType::INFTY);
@@ -30,6 +33,8 @@ Interval<Number> pow(const Interval<Number>& i, Integer exp) {
 			BoundType lType = i.lowerBoundType();
 			if (carl::abs(i.lower()) > carl::abs(i.upper())) {
 				std::swap(lType, rType);
+			} else if (carl::abs(i.lower()) == carl::abs(i.upper()) && !i.isEmpty()) {
+				rType = getWeakestBoundType(lType, rType);
 			}
 			if (i.contains(carl::constant_zero<Number>().get())) {
 				return Interval<Number>(boost::numeric::pow(i.rContent(), int(exp)), BoundType::WEAK, rType);
-- 
2.43.0


From f630f6274a49775493a2e749ce14a430a745907c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:16 +0000
Subject: [PATCH 09/66] fix: reciprocal of the unbounded interval is not empty

---
 src/carl/interval/Interval.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index e265dbe..1d14106 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -759,7 +759,7 @@ template<typename Number>
 bool Interval<Number>::reciprocal(Interval<Number>& a, Interval<Number>& b) const {
         if( this->isInfinite() )
         {
-            a = emptyInterval();
+            a = unboundedInterval();
             return false;
         }
         else if( this->contains( carl::constant_zero<Number>().get() ) && mContent.lower() != carl::constant_zero<Number>().get() && mContent.upper() != carl::constant_zero<Number>().get() )
-- 
2.43.0


From 6901c6befbe78aee18fbfdc782432f0ea692f8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:16 +0000
Subject: [PATCH 10/66] fix: interval quotient respects open and infinite
 bounds

The bound types were guessed and infinite bounds of the divisor were treated like their stored number,
so that e.g. [1,2] / [1,oo[ did not contain 1/2 and [0,1] / ]1,2[ did not contain 0.
The quotient of two closed bounded intervals is computed as before.
---
 src/carl/interval/Interval.tpp | 35 ++++++----------------------------
 1 file changed, 6 insertions(+), 29 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 1d14106..17767e3 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -611,36 +611,13 @@ Interval<Number> Interval<Number>::div(const Interval<Number>& rhs) const
 		assert(this->isConsistent());
 		assert(rhs.isConsistent());
 		assert(!rhs.contains(carl::constant_zero<Number>().get()));
-		BoundType lowerBoundType = BoundType::WEAK;
-        BoundType upperBoundType = BoundType::WEAK;
-		///@todo Correctly determine if bounds are strict or weak.
-		if (this->isOpenInterval() || rhs.isOpenInterval()) {
-			// just a quick heuristic, by no means complete.
-            lowerBoundType = BoundType::STRICT;
-            upperBoundType = BoundType::STRICT;
+		if (this->isClosedInterval() && rhs.isClosedInterval()) {
+			return Interval<Number>(BoostInterval( mContent/rhs.content() ), BoundType::WEAK, BoundType::WEAK);
 		}
-        const Number& xl = mContent.lower();
-        const Number& yl = rhs.lower();
-        const Number& yu = rhs.upper();
-        const BoundType& xlt = mLowerBoundType;
-        const BoundType& xut = mUpperBoundType;
-        const BoundType& ylt = rhs.lowerBoundType();
-        const BoundType& yut = rhs.upperBoundType();
-        if( (xlt == BoundType::INFTY && (carl::isPositive(yu) || yut == BoundType::INFTY))
-		   || (xut == BoundType::INFTY && (carl::isNegative(yl) || ylt == BoundType::INFTY))
-		   || (ylt == BoundType::INFTY && (carl::isPositive(xl) || xut == BoundType::INFTY))
-		   || (yut == BoundType::INFTY && (carl::isNegative(xl) || (carl::isNegative(xl) || xlt == BoundType::INFTY))) )
-        {
-            lowerBoundType = BoundType::INFTY;
-        }
-        if( (xlt == BoundType::INFTY && (carl::isNegative(yu) || (carl::isNegative(yl) || ylt == BoundType::INFTY)))
-		   || (xut == BoundType::INFTY && (carl::isPositive(yl) || (carl::isPositive(yu) || yut == BoundType::INFTY)))
-		   || (ylt == BoundType::INFTY && (carl::isNegative(xl) || (carl::isNegative(xl) || xlt == BoundType::INFTY)))
-		   || (yut == BoundType::INFTY && (carl::isPositive(xl) || (carl::isPositive(xl) || xut == BoundType::INFTY))) )
-        {
-            upperBoundType = BoundType::INFTY;
-        }
-        return Interval<Number>(BoostInterval( mContent/rhs.content() ), lowerBoundType, upperBoundType );
+		// The divisor does not contain zero, hence its reciprocal is a single interval.
+		Interval<Number> reciprocalA, reciprocalB;
+		rhs.reciprocal(reciprocalA, reciprocalB);
+		return this->mul(reciprocalA);
 	}
 
 template<typename Number>
-- 
2.43.0


From 0e7817ff29103ac312276d6822fbd06534517b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:16 +0000
Subject: [PATCH 11/66] fix: convex hull of intervals keeps closed outer bounds

The bound types were chosen independently of the bounds they belong to, e.g. the hull of [0,3] and
]1,2[ was ]0,3[.
---
 src/carl/interval/Interval.tpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 17767e3..e81b791 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -361,12 +361,10 @@ Interval<Number> Interval<Number>::convexHull(const Interval<Number>& interval)
 	if(interval.isEmpty())
 		return *this;
 
-	BoundType newLowerBound = getStrictestBoundType(this->lowerBoundType(), interval.lowerBoundType());
-	BoundType newUpperBound = getStrictestBoundType(this->upperBoundType(), interval.upperBoundType());
-	Number newLower = interval.lower() < this->lower() ? interval.lower() : this->lower();
-	Number newUpper = interval.upper() > this->upper() ? interval.upper() : this->upper();
+	const LowerBound<Number> newLower = interval.lowerBound() < this->lowerBound() ? interval.lowerBound() : this->lowerBound();
+	const UpperBound<Number> newUpper = this->upperBound() < interval.upperBound() ? interval.upperBound() : this->upperBound();
 
-    return Interval(newLower, newLowerBound, newUpper, newUpperBound);
+    return Interval(newLower, newUpper);
 }
 
 /*******************************************************************************
-- 
2.43.0


From b62d896b4c2f98bdc5c534de6bf003c449ec48e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:16 +0000
Subject: [PATCH 12/66] fix: set union, symmetric difference and intersection
 test of intervals

The union with an empty interval extended to the end points stored for the empty interval, an empty
interval was reported to intersect intervals around zero, and the symmetric difference passed the same
object for both results of the union, which made it always empty for overlapping intervals.
---
 src/carl/interval/set_theory.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/carl/interval/set_theory.h b/src/carl/interval/set_theory.h
index 4531a3b..4ff29bf 100644
--- a/src/carl/interval/set_theory.h
+++ b/src/carl/interval/set_theory.h
@@ -116,6 +116,7 @@ Interval<Number> set_intersection(const Interval<Number>& lhs, const Interval<Nu
 
 template<typename Number>
 bool set_have_intersection(const Interval<Number>& lhs, const Interval<Number>& rhs) {
+	if (lhs.isEmpty() || rhs.isEmpty()) return false;
 	if (lhs.lowerBound() <= rhs.lowerBound() && rhs.lowerBound() <= lhs.upperBound()) return true;
 	if (rhs.lowerBound() <= lhs.lowerBound() && lhs.lowerBound() <= rhs.upperBound()) return true;
 	return false;
@@ -169,7 +170,8 @@ bool set_symmetric_difference(const Interval<Number>& lhs, const Interval<Number
 		return true;
 	} else {
 		Interval<Number> tmp;
-		bool res = set_union(lhs, rhs, tmp, tmp);
+		Interval<Number> unused;
+		bool res = set_union(lhs, rhs, tmp, unused);
 		assert(!res);
 		return set_difference(tmp, intersection, resA, resB);
 	}
@@ -187,6 +189,12 @@ template<typename Number>
 bool set_union(const Interval<Number>& lhs, const Interval<Number>& rhs, Interval<Number>& resA, Interval<Number>& resB) {
 	assert(lhs.isConsistent() && rhs.isConsistent());
 
+	if (lhs.isEmpty() || rhs.isEmpty()) {
+		resA = lhs.isEmpty() ? rhs : lhs;
+		resB = Interval<Number>::emptyInterval();
+		return false;
+	}
+
 	if (carl::bounds_connect(lhs.upperBound(), rhs.lowerBound())) {
 		resA = Interval<Number>(lhs.lowerBound(), rhs.upperBound());
 		resB = Interval<Number>::emptyInterval();
-- 
2.43.0


From 2555805c514064e62214f43ea9bff3197d527644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:16 +0000
Subject: [PATCH 13/66] fix: splitting half-bounded intervals

The split point was the finite bound itself, so that splitting ]0,oo[ yielded [0,oo[.
---
 src/carl/interval/Interval.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index e81b791..02d53e3 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -265,12 +265,12 @@ template<typename Number>
     template<typename Number>
     std::pair<Interval<Number>, Interval<Number>> Interval<Number>::split() const
     {
-	std::pair<BoostInterval, BoostInterval> bisection = boost::numeric::bisect(mContent);
 	if( this->isEmpty() || this->isPointInterval() )
 	{
 	    return std::pair<Interval<Number>, Interval<Number> >(Interval<Number>::emptyInterval(), Interval<Number>::emptyInterval());
 	}
-	return std::pair<Interval<Number>, Interval<Number> >(Interval(bisection.first, mLowerBoundType, BoundType::STRICT), Interval(bisection.second, BoundType::WEAK, mUpperBoundType));
+	Number middle = carl::center(*this);
+	return std::pair<Interval<Number>, Interval<Number> >(Interval(mContent.lower(), mLowerBoundType, middle, BoundType::STRICT), Interval(middle, BoundType::WEAK, mContent.upper(), mUpperBoundType));
     }
 
     template<typename Number>
-- 
2.43.0


From 51b1f92f463336605e436dd81c1d52e432c7c0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:16 +0000
Subject: [PATCH 14/66] fix: Stern-Brocot sampling respects strict bounds and
 excluded end points

An excluded end point could be returned, e.g. 1/2 for ]1/2,3/4[ or 0 for [0,1] without end points.
---
 src/carl/interval/sampling.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/carl/interval/sampling.h b/src/carl/interval/sampling.h
index 50014a6..95f1fc2 100644
--- a/src/carl/interval/sampling.h
+++ b/src/carl/interval/sampling.h
@@ -55,17 +55,19 @@ Number sample_stern_brocot(const Interval<Number>& i, bool includingBounds = tru
 	Int rightnum = carl::constant_one<Int>::get();
 	Int rightden = carl::constant_zero<Int>::get();
 	Number cur = Number(leftnum) / Number(leftden);
-	if (i.contains(cur)) {
+	const bool excludeLower = !includingBounds || i.lowerBoundType() == BoundType::STRICT;
+	const bool excludeUpper = !includingBounds || i.upperBoundType() == BoundType::STRICT;
+	if (i.contains(cur) && (includingBounds || ((i.lowerBoundType() == BoundType::INFTY || cur != i.lower()) && (i.upperBoundType() == BoundType::INFTY || cur != i.upper())))) {
 		return cur;
 	}
 	while (true) {
 		Int curnum = leftnum + rightnum;
 		Int curden = leftden + rightden;
 		cur = Number(curnum) / Number(curden);
-		if ((cur < i.lower()) || (!includingBounds && cur == i.lower())) {
+		if ((cur < i.lower()) || (excludeLower && cur == i.lower())) {
 			leftnum = curnum;
 			leftden = curden;
-		} else if ((cur > i.upper()) || (!includingBounds && cur == i.upper())) {
+		} else if ((cur > i.upper()) || (excludeUpper && cur == i.upper())) {
 			rightnum = curnum;
 			rightden = curden;
 		} else {
-- 
2.43.0


From 418ac2a172f5543b1d96d8cd6d00f319e102fc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:39 +0000
Subject: [PATCH 15/66] fix: set difference with an interval that is unbounded
 to the right

The part above the subtrahend was taken to start at minus infinity, e.g. [0,oo[ minus [1,oo[ contained
everything. The second result is now always set.
---
 src/carl/interval/set_theory.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/carl/interval/set_theory.h b/src/carl/interval/set_theory.h
index 4ff29bf..7ce6132 100644
--- a/src/carl/interval/set_theory.h
+++ b/src/carl/interval/set_theory.h
@@ -68,8 +68,9 @@ bool set_difference(const Interval<Number>& lhs, const Interval<Number>& rhs, In
 		return false;
 	}
 	if (lhs.lowerBound() < rhs.lowerBound()) {
-		if (lhs.upperBound() < rhs.upperBound()) {
+		if (rhs.upperBoundType() == BoundType::INFTY || lhs.upperBound() < rhs.upperBound()) {
 			resA = Interval<Number>(lhs.lowerBound(), rhs.lowerBound());
+			resB = Interval<Number>::emptyInterval();
 			return false;
 		} else {
 			resA = Interval<Number>(lhs.lowerBound(), rhs.lowerBound());
@@ -77,7 +78,7 @@ bool set_difference(const Interval<Number>& lhs, const Interval<Number>& rhs, In
 			return !resB.isEmpty();
 		}
 	} else {
-		if (lhs.upperBound() < rhs.upperBound()) {
+		if (rhs.upperBoundType() == BoundType::INFTY || lhs.upperBound() < rhs.upperBound()) {
 			resA = Interval<Number>::emptyInterval();
 			resB = Interval<Number>::emptyInterval();
 			return false;
-- 
2.43.0


From e0852b544f2be171bff454e6881ac7150695617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:33 +0000
Subject: [PATCH 16/66] fix: denominator of an integer is one

getDenom(mpz_class) returned the number itself.
---
 src/carl/numbers/adaption_gmpxx/operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/numbers/adaption_gmpxx/operations.h b/src/carl/numbers/adaption_gmpxx/operations.h
index 4cbfc99..030fe8c 100644
--- a/src/carl/numbers/adaption_gmpxx/operations.h
+++ b/src/carl/numbers/adaption_gmpxx/operations.h
@@ -92,8 +92,8 @@ inline mpz_class getDenom(const mpq_class& n) {
 	return n.get_den();
 }
 
-inline mpz_class getDenom(const mpz_class& n) {
-	return n;
+inline mpz_class getDenom(const mpz_class& /*unused*/) {
+	return carl::constant_one<mpz_class>::get();
 }
 
 inline bool isInteger(const mpq_class& n) {
-- 
2.43.0


From 4783d8132d537e1248bdcab30740123d115ae75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:33 +0000
Subject: [PATCH 17/66] fix: do not read past the end in sign_variations

The iterator was dereferenced before it was compared with the end of the
range, and again if the range is empty or only has zeros.
---
 src/carl/core/Sign.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/core/Sign.h b/src/carl/core/Sign.h
index 9ec9a2f..6265505 100644
--- a/src/carl/core/Sign.h
+++ b/src/carl/core/Sign.h
@@ -67,8 +67,9 @@ Sign sgn(const Number& n) {
  */
 template<typename InputIterator>
 std::size_t sign_variations(InputIterator begin, InputIterator end) {
-	while ((*begin == Sign::ZERO) && (begin != end))
+	while ((begin != end) && (*begin == Sign::ZERO))
 		++begin;
+	if (begin == end) return 0;
 
 	std::size_t changes = 0;
 	for (Sign last = *begin; begin != end; ++begin) {
-- 
2.43.0


From 9bcc579eafd6d52e09913d0e2c588da7e8035f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:33 +0000
Subject: [PATCH 18/66] fix: compute the size of a finite field without
 overflow

The power p^k was computed in the unsigned type of p.
---
 src/carl/numbers/GaloisField.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/numbers/GaloisField.h b/src/carl/numbers/GaloisField.h
index defe330..782ed52 100644
--- a/src/carl/numbers/GaloisField.h
+++ b/src/carl/numbers/GaloisField.h
@@ -48,7 +48,7 @@ private:
      */
 	explicit GaloisField(BaseIntType p, BaseIntType k = 1):
 		mP(p), mK(k),
-		mPK(pow(p,k)),
+		mPK(pow(IntegerType(p),k)),
 		mMaxValue((mPK-1)/2),
 		mModulus(mMaxValue+1)
 	{ 
-- 
2.43.0


From a696c6116d161cc7df832e8ee1e122c2962e3c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:33 +0000
Subject: [PATCH 19/66] fix: symmetric residue of negative numbers and for even
 field sizes

Numbers below -(p^k-1)/2 were not reduced to the symmetric range, and for
p = 2 the result was not congruent to the argument.
---
 src/carl/numbers/GaloisField.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/carl/numbers/GaloisField.h b/src/carl/numbers/GaloisField.h
index 782ed52..a9f87d3 100644
--- a/src/carl/numbers/GaloisField.h
+++ b/src/carl/numbers/GaloisField.h
@@ -79,11 +79,11 @@ private:
 	}
 	
 	IntegerType symmetricModulo(const IntegerType& n) const	{
-		if (n > mMaxValue) {
-			return carl::mod(IntegerType(n-mModulus), mPK) - mMaxValue;
-		} else {
-			return carl::mod(n, mPK);
-		}
+		// carl::mod has the sign of n, hence res is in (-mPK, mPK)
+		IntegerType res = carl::mod(n, mPK);
+		if (2*res > mPK) res -= mPK;
+		else if (res < -mMaxValue) res += mPK;
+		return res;
 	}
 	
 	friend bool operator==(const GaloisField& lhs, const GaloisField& rhs) {
-- 
2.43.0


From ca2419151abed5642d649f5c9e747c8f2ffdf7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:33 +0000
Subject: [PATCH 20/66] fix: reduce finite-field numbers in normalize and on
 change of the field

normalize() dropped the reduced value.
---
 src/carl/numbers/GFNumber.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/numbers/GFNumber.h b/src/carl/numbers/GFNumber.h
index 39209de..3062919 100644
--- a/src/carl/numbers/GFNumber.h
+++ b/src/carl/numbers/GFNumber.h
@@ -32,7 +32,7 @@ class GFNumber
 	}
 	
 	GFNumber(const GFNumber& n, const GaloisField<IntegerType>* gf):
-		mN(n.mN),
+		mN(gf == nullptr ? n.mN : gf->symmetricModulo(n.mN)),
 		mGf(gf)
 	{
 	}
@@ -51,7 +51,7 @@ class GFNumber
 	{
 		if(isZero() || isUnit()) return;
 		assert(mGf != nullptr);
-		mGf->modulo(mN);
+		mN = mGf->modulo(mN);
 	}
 	
 	bool isZero() const
-- 
2.43.0


From 883e6c8507025628ee01395961b7c01b0caa848f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:33 +0000
Subject: [PATCH 21/66] fix: keep finite-field numbers reduced in compound
 assignments

The results of ++, --, +=, -= and *= were not reduced, such that isZero and
isOne failed on them. *= dereferenced the missing field of a literal.
---
 src/carl/numbers/GFNumber.tpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/carl/numbers/GFNumber.tpp b/src/carl/numbers/GFNumber.tpp
index c546ea6..e4ca66a 100644
--- a/src/carl/numbers/GFNumber.tpp
+++ b/src/carl/numbers/GFNumber.tpp
@@ -116,6 +116,7 @@ template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator ++()
 {
 	mN++;
+	if (mGf != nullptr) normalize();
 	return *this;
 }
 
@@ -127,6 +128,7 @@ GFNumber<IntegerType>& GFNumber<IntegerType>::operator +=(const GFNumber& rhs)
 		mGf = rhs.mGf;
 	}
 	mN += rhs.mN;
+	if (mGf != nullptr) normalize();
 	return *this;
 }
 
@@ -134,6 +136,7 @@ template<typename IntegerType>
 GFNumber<IntegerType>& GFNumber<IntegerType>::operator +=(const IntegerType& rhs)
 {
 	mN += rhs;
+	if (mGf != nullptr) normalize();
 	return *this;
 }
 
@@ -159,17 +162,18 @@ template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator --()
 {
 	mN--;
+	if (mGf != nullptr) normalize();
 	return *this;
 }
 
 template<typename IntegerType>
 GFNumber<IntegerType>& GFNumber<IntegerType>::operator -=(const GFNumber& rhs)
 {
-	if (rhs.isZero()) return *this;
 	if (mGf == nullptr) {
 		mGf = rhs.mGf;
 	}
 	mN -= rhs.mN;
+	if (mGf != nullptr) normalize();
 	return *this;
 }
 
@@ -177,6 +181,7 @@ template<typename IntegerType>
 GFNumber<IntegerType>& GFNumber<IntegerType>::operator -=(const IntegerType& rhs)
 {
 	mN -= rhs;
+	if (mGf != nullptr) normalize();
 	return *this;
 }
 
@@ -201,8 +206,12 @@ GFNumber<IntegerT> operator*(const IntegerT& lhs, const GFNumber<IntegerT>& rhs)
 template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator *=(const GFNumber& rhs)
 {
-	assert(rhs.mGf == nullptr || *mGf == *(rhs.mGf));
+	assert(mGf == nullptr || rhs.mGf == nullptr || *mGf == *(rhs.mGf));
+	if (mGf == nullptr) {
+		mGf = rhs.mGf;
+	}
 	mN *= rhs.mN;
+	if (mGf != nullptr) normalize();
 	return *this;
 }
 
@@ -210,6 +219,7 @@ template<typename IntegerType>
 GFNumber<IntegerType>& GFNumber<IntegerType>::operator *=(const IntegerType& rhs)
 {
 	mN *= rhs;
+	if (mGf != nullptr) normalize();
 	return *this;
 }
 
-- 
2.43.0


From 994a299af618e12ee0aa08ffd08e1fb3b5f312ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:33 +0000
Subject: [PATCH 22/66] fix: division assignment of finite-field numbers

The quotient was computed and dropped.
---
 src/carl/numbers/GFNumber.tpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/carl/numbers/GFNumber.tpp b/src/carl/numbers/GFNumber.tpp
index e4ca66a..7fc7907 100644
--- a/src/carl/numbers/GFNumber.tpp
+++ b/src/carl/numbers/GFNumber.tpp
@@ -236,8 +236,7 @@ GFNumber<IntegerT> operator/(const GFNumber<IntegerT>& lhs, const GFNumber<Integ
 template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator /=(const GFNumber<IntegerT>& rhs)
 {
-	assert(!rhs.isZero());
-	mN * rhs.inverse().mN;
+	*this = *this / rhs;
 	return *this;
 }
 
-- 
2.43.0


From d240a58e1827ec83d83e6b82885a783506d3a618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:33 +0000
Subject: [PATCH 23/66] fix: compare finite-field numbers with integers modulo
 the field size

The integer was compared with the reduced representative without being
reduced itself.
---
 src/carl/numbers/GFNumber.tpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/carl/numbers/GFNumber.tpp b/src/carl/numbers/GFNumber.tpp
index 7fc7907..5eb7fc8 100644
--- a/src/carl/numbers/GFNumber.tpp
+++ b/src/carl/numbers/GFNumber.tpp
@@ -38,7 +38,7 @@ template<typename IntegerT>
 bool operator==(const GFNumber<IntegerT>& lhs, const IntegerT& rhs)
 {
 	assert(lhs.mGf != nullptr);
-	return lhs.mGf->modulo(lhs.mN) == rhs;
+	return lhs.mGf->modulo(lhs.mN - rhs) == 0;
 }
 template<typename IntegerT>
 bool operator==(const IntegerT& lhs, const GFNumber<IntegerT>& rhs)
@@ -50,10 +50,8 @@ bool operator==(const GFNumber<IntegerT>& lhs, int rhs)
 {
 	if(lhs.isZero() && rhs == 0) return true;
 	if(lhs.isUnit() && rhs == 1) return true;
-	if(lhs.isZero() && rhs != 0) return false;
-	if(lhs.isUnit() && rhs != 1) return false;
-	assert(lhs.mGf != nullptr);
-	return lhs.mGf->modulo(lhs.mN) == rhs;
+	if(lhs.mGf == nullptr) return lhs.mN == rhs;
+	return lhs.mGf->modulo(lhs.mN - rhs) == 0;
 }
 template<typename IntegerT>
 bool operator==(int lhs, const GFNumber<IntegerT>& rhs)
-- 
2.43.0


From 9b3cf6418497fceb262bb29ece2749599835bc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:48 +0000
Subject: [PATCH 24/66] fix: keep the default value of bits when a bit set
 grows

Writing a bit beyond the stored range filled the gap with false even if the
default value of the set is true.
---
 src/carl/util/Bitset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/util/Bitset.h b/src/carl/util/Bitset.h
index 8ea0fac..c67ddf5 100644
--- a/src/carl/util/Bitset.h
+++ b/src/carl/util/Bitset.h
@@ -92,7 +92,7 @@ namespace carl {
 		/// Resize mData to hold at least pos bits.
 		void ensureSize(std::size_t pos) {
 			if (pos >= mData.size()) {
-				mData.resize(pos+1);
+				mData.resize(pos+1, mDefault);
 			}
 		}
 	public:
-- 
2.43.0


From c339e69821f82fb335bdb1b043497151d114982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:48 +0000
Subject: [PATCH 25/66] fix: apply compound set operations to the default value
 of bit sets

The in-place operators updated only the explicitly stored bits, unlike the
binary operators.
---
 src/carl/util/Bitset.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/carl/util/Bitset.h b/src/carl/util/Bitset.h
index c67ddf5..73e2ac7 100644
--- a/src/carl/util/Bitset.h
+++ b/src/carl/util/Bitset.h
@@ -121,18 +121,21 @@ namespace carl {
 			assert(mDefault == rhs.mDefault);
 			alignSize(*this, rhs);
 			mData -= rhs.mData;
+			mDefault = mDefault && !rhs.mDefault;
 			return *this;
 		}
 		/// Computes the bitwise and with rhs.
 		Bitset& operator&=(const Bitset& rhs) {
 			alignSize(*this, rhs);
 			mData &= rhs.mData;
+			mDefault = mDefault && rhs.mDefault;
 			return *this;
 		}
 		/// Computes the bitwise or with rhs.
 		Bitset& operator|=(const Bitset& rhs) {
 			alignSize(*this, rhs);
 			mData |= rhs.mData;
+			mDefault = mDefault || rhs.mDefault;
 			return *this;
 		}
 		
-- 
2.43.0


From e8363842349db1f570b1e10802663e117faa0853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:48 +0000
Subject: [PATCH 26/66] fix: advance over trailing words in BitVector::subsetOf

The loop did not terminate for trailing zero words.
---
 src/carl/util/BitVector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/util/BitVector.cpp b/src/carl/util/BitVector.cpp
index 4c1e8cf..038107c 100644
--- a/src/carl/util/BitVector.cpp
+++ b/src/carl/util/BitVector.cpp
@@ -71,6 +71,7 @@ bool BitVector::subsetOf( const BitVector& superset)
     while( sub != mBits.end())
     {
         if( *sub != 0) return false;
+        ++sub;
     }
     return true;
 }
-- 
2.43.0


From 2ea62f92472274ba444c633857ebe4aee85f33c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:48 +0000
Subject: [PATCH 27/66] fix: reserving space in a bit vector must not change
 its bits

---
 src/carl/util/BitVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/util/BitVector.h b/src/carl/util/BitVector.h
index 03294d6..7543bf8 100644
--- a/src/carl/util/BitVector.h
+++ b/src/carl/util/BitVector.h
@@ -34,7 +34,7 @@ namespace carl
 		}
 		
 		void reserve(size_t capacity) {
-			mBits.resize(capacity);
+			mBits.reserve(capacity);
 		}
 		
         bool empty() const
-- 
2.43.0


From a1260e5c25d2341407f44645a94c35c73a5d14df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:40:10 +0000
Subject: [PATCH 28/66] fix: keep persistent variables of different types apart
 when clearing the variable pool

---
 src/carl/core/VariablePool.cpp | 7 ++-----
 src/carl/core/VariablePool.h   | 8 +++-----
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/carl/core/VariablePool.cpp b/src/carl/core/VariablePool.cpp
index a6879fc..20b9db0 100644
--- a/src/carl/core/VariablePool.cpp
+++ b/src/carl/core/VariablePool.cpp
@@ -39,16 +39,13 @@ Variable VariablePool::getFreshVariable(const std::string& name, VariableType ty
 
 Variable VariablePool::getFreshPersistentVariable(VariableType type) noexcept {
 	Variable res = getFreshVariable(type);
-	if (res.id() >= mPersistentVariables.size()) {
-		mPersistentVariables.resize(res.id()+1, std::make_pair(Variable::NO_VARIABLE, ""));
-	}
-	mPersistentVariables[res.id()] = std::make_pair(res, "");
+	mPersistentVariables.emplace_back(res, "");
 	return res;
 }
 
 Variable VariablePool::getFreshPersistentVariable(const std::string& name, VariableType type) {
 	Variable res = getFreshPersistentVariable(type);
-	mPersistentVariables[res.id()] = std::make_pair(res, name);
+	mPersistentVariables.back().second = name;
 	setName(res, name);
 	return res;
 }
diff --git a/src/carl/core/VariablePool.h b/src/carl/core/VariablePool.h
index 78334b7..f0b89e4 100644
--- a/src/carl/core/VariablePool.h
+++ b/src/carl/core/VariablePool.h
@@ -111,13 +111,11 @@ public:
 		mNextIDs.fill(1);
 		for (const auto& pv : mPersistentVariables) {
 			Variable v = pv.first;
-			while (nextID(v.type()) < v.id()) {
-				getFreshVariable(v.type());
+			if (nextID(v.type()) <= v.id()) {
+				nextID(v.type()) = v.id() + 1;
 			}
 			if (!pv.second.empty()) {
-				getFreshVariable(pv.second, v.type());
-			} else {
-				getFreshVariable(v.type());
+				setName(v, pv.second);
 			}
 		}
 	}
-- 
2.43.0


From 599bcd6a82e28a87aeddc1fbff5b58ecf3804c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:41 +0000
Subject: [PATCH 29/66] fix: sign of the signed remainder and modulo of
 bit-vector constants

For two negative operands remSigned negated the divisor twice.
For a positive dividend and a negative divisor modSigned subtracted the divisor from the remainder instead of adding it.
---
 src/carl/formula/bitvector/BVValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/formula/bitvector/BVValue.cpp b/src/carl/formula/bitvector/BVValue.cpp
index 4218f1e..48873cd 100644
--- a/src/carl/formula/bitvector/BVValue.cpp
+++ b/src/carl/formula/bitvector/BVValue.cpp
@@ -83,7 +83,7 @@ BVValue BVValue::remSigned(const BVValue& _other) const {
 	} else if (!firstNegative && secondNegative) {
 		return (*this) % -_other;
 	} else {
-		return -((*this) % -_other);
+		return -(-(*this) % -_other);
 	}
 }
 
@@ -105,7 +105,7 @@ BVValue BVValue::modSigned(const BVValue& _other) const {
 	} else if (firstNegative && !secondNegative) {
 		return -u + _other;
 	} else if (!firstNegative && secondNegative) {
-		return (*this) + _other;
+		return u + _other;
 	} else {
 		return -u;
 	}
-- 
2.43.0


From fb9c63d92f624db90efe61156c28536aeaa4882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:11 +0000
Subject: [PATCH 30/66] fix: sign of the difference of a coefficient and a
 univariate polynomial

---
 src/carl/core/UnivariatePolynomial.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index 162d281..cf5725f 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -592,7 +592,7 @@ UnivariatePolynomial<C> operator-(const UnivariatePolynomial<C>& lhs, const C& r
 template<typename C>
 UnivariatePolynomial<C> operator-(const C& lhs, const UnivariatePolynomial<C>& rhs)
 {
-	return rhs - lhs;
+	return -rhs + lhs;
 }
 
 template<typename Coefficient>
-- 
2.43.0


From 9cb0c25b142caf52b7780f005494dbda807ec803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:11 +0000
Subject: [PATCH 31/66] fix: multiplying the zero univariate polynomial by its
 variable yields zero

---
 src/carl/core/UnivariatePolynomial.tpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index cf5725f..4a76d14 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -599,6 +599,7 @@ template<typename Coefficient>
 template<typename C, EnableIf<is_number<C>>>
 UnivariatePolynomial<Coefficient>& UnivariatePolynomial<Coefficient>::operator*=(Variable rhs) {
 	if (rhs == this->mMainVar) {
+		if (this->mCoefficients.empty()) return *this;
 		this->mCoefficients.insert(this->mCoefficients.begin(), Coefficient(0));
 		return *this;
 	}
@@ -609,6 +610,7 @@ template<typename Coefficient>
 template<typename C, DisableIf<is_number<C>>>
 UnivariatePolynomial<Coefficient>& UnivariatePolynomial<Coefficient>::operator*=(Variable rhs) {
 	if (rhs == this->mMainVar) {
+		if (this->mCoefficients.empty()) return *this;
 		this->mCoefficients.insert(this->mCoefficients.begin(), Coefficient(0));
 		return *this;
 	}
-- 
2.43.0


From 31fa4ac6f864527b191a17b43ef7891ddeb95121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:11 +0000
Subject: [PATCH 32/66] fix: remove leading zeroes after reducing coefficients
 of a univariate polynomial

---
 src/carl/core/UnivariatePolynomial.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index 4a76d14..64257e5 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -156,6 +156,7 @@ UnivariatePolynomial<Coefficient>& UnivariatePolynomial<Coefficient>::mod(const
 	{
 		coeff = carl::mod(coeff, modulus);
 	}
+	stripLeadingZeroes();
 	return *this;
 }
 
-- 
2.43.0


From 13c4f951ed5282a105ef16c149c3789d10f4ab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:11 +0000
Subject: [PATCH 33/66] fix: construction of univariate polynomials from a map
 with gaps

A coefficient whose exponent exceeds the previous one by two was stored one position too low.
An empty map is the zero polynomial.
---
 src/carl/core/UnivariatePolynomial.tpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index 64257e5..f83381a 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -117,10 +117,11 @@ template<typename Coeff>
 UnivariatePolynomial<Coeff>::UnivariatePolynomial(Variable mainVar, const std::map<uint, Coeff>& coefficients)
 : mMainVar(mainVar)
 {
-	mCoefficients.reserve(coefficients.rbegin()->first);
+	if (coefficients.empty()) return;
+	mCoefficients.reserve(coefficients.rbegin()->first + 1);
 	for (const auto& expAndCoeff : coefficients)
 	{
-		if(expAndCoeff.first != mCoefficients.size() + 1)
+		if(expAndCoeff.first != mCoefficients.size())
 		{
 			mCoefficients.resize(expAndCoeff.first, Coeff(0));
 		}
-- 
2.43.0


From 1cdf45d69accbadacaf8e0a73a62a992f2833dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:11 +0000
Subject: [PATCH 34/66] fix: reversing the coefficients of the zero polynomial
 accessed an empty vector

---
 src/carl/core/UnivariatePolynomial.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/carl/core/UnivariatePolynomial.h b/src/carl/core/UnivariatePolynomial.h
index 841720e..5a02334 100644
--- a/src/carl/core/UnivariatePolynomial.h
+++ b/src/carl/core/UnivariatePolynomial.h
@@ -448,9 +448,7 @@ public:
 	UnivariatePolynomial reverseCoefficients() const {
 		UnivariatePolynomial<Coefficient> res(*this);
 		std::reverse(res.mCoefficients.begin(), res.mCoefficients.end());
-		while(carl::isZero(*std::prev(res.mCoefficients.end())) && std::prev(res.mCoefficients.end()) != res.mCoefficients.begin()) {
-			res.mCoefficients.erase(std::prev(res.mCoefficients.end()));
-		}
+		res.stripLeadingZeroes();
 		assert(res.isConsistent());
 		return res;
 	}
-- 
2.43.0


From a967b1370f3411571b058db1002f6aa7163bc624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:11 +0000
Subject: [PATCH 35/66] fix: integer division of univariate polynomials by a
 divisor of larger degree

---
 src/carl/core/polynomialfunctions/Division.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/carl/core/polynomialfunctions/Division.h b/src/carl/core/polynomialfunctions/Division.h
index 81d9333..054fd21 100644
--- a/src/carl/core/polynomialfunctions/Division.h
+++ b/src/carl/core/polynomialfunctions/Division.h
@@ -197,6 +197,10 @@ DivisionResult<UnivariatePolynomial<Coeff>> divide(const UnivariatePolynomial<Co
 		DivisionResult<UnivariatePolynomial<Coeff>> result {UnivariatePolynomial<Coeff>(dividend.mainVar()), dividend};
 		if(carl::isZero(dividend)) return result;
 		assert(dividend == divisor * result.quotient + result.remainder);
+		if(divisor.degree() > dividend.degree())
+		{
+			return result;
+		}
 
 		std::vector<Coeff> coeffs(1+dividend.coefficients().size()-divisor.coefficients().size(), Coeff(0));
 
-- 
2.43.0


From d52f45eff21015aacea4d7763cb2b90dd7c5fffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:11 +0000
Subject: [PATCH 36/66] fix: pseudo-remainders of the zero polynomial and
 compilation of the signed pseudo-remainder

---
 src/carl/core/polynomialfunctions/Remainder.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/core/polynomialfunctions/Remainder.h b/src/carl/core/polynomialfunctions/Remainder.h
index 4e1d413..1c80f75 100644
--- a/src/carl/core/polynomialfunctions/Remainder.h
+++ b/src/carl/core/polynomialfunctions/Remainder.h
@@ -106,6 +106,7 @@ UnivariatePolynomial<Coeff> pseudo_remainder(const UnivariatePolynomial<Coeff>&
 {
 	assert(dividend.mainVar() == divisor.mainVar());
 	Variable v = dividend.mainVar();
+	if (carl::isZero(dividend)) return dividend;
 	if (divisor.degree() == 0) return UnivariatePolynomial<Coeff>(v);
 	if (divisor.degree() > dividend.degree()) return dividend;
 
@@ -166,7 +167,7 @@ UnivariatePolynomial<Coeff> signed_pseudo_remainder(const UnivariatePolynomial<C
 	uint d = dividend.degree() - divisor.degree() + 1;
 	if (d % 2 == 1) ++d;
 	Coeff prefactor = pow(b,d);
-	return remainder(dividend, divisor, &prefactor);
+	return remainder(dividend, divisor, prefactor);
 }
 
 template<typename C, typename O, typename P>
-- 
2.43.0


From 6bb37d12b13ea7d4717d0d0b03c1caa6fa41b0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:49 +0000
Subject: [PATCH 37/66] fix: integer division of univariate polynomials read
 beyond the end of a shortened remainder

---
 src/carl/core/polynomialfunctions/Division.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/polynomialfunctions/Division.h b/src/carl/core/polynomialfunctions/Division.h
index 054fd21..ae6151b 100644
--- a/src/carl/core/polynomialfunctions/Division.h
+++ b/src/carl/core/polynomialfunctions/Division.h
@@ -206,6 +206,7 @@ DivisionResult<UnivariatePolynomial<Coeff>> divide(const UnivariatePolynomial<Co
 
 		uint degdiff = dividend.degree() - divisor.degree();
 		for (std::size_t offset = 0; offset <= degdiff; offset++) {
+			if (dividend.degree()-offset >= result.remainder.coefficients().size()) continue;
 			Coeff factor = carl::quotient(result.remainder.coefficients()[dividend.degree()-offset], divisor.lcoeff());
 			result.remainder -= UnivariatePolynomial<Coeff>(dividend.mainVar(), factor, degdiff - offset) * divisor;
 			coeffs[degdiff-offset] += factor;
-- 
2.43.0


From 583345360d7f4d31d10f71f5cfd73189138a55a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:51 +0000
Subject: [PATCH 38/66] fix: sign of the difference of a coefficient and a
 univariate polynomial, for polynomial coefficients

---
 src/carl/core/UnivariatePolynomial.tpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index f83381a..4889e03 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -594,7 +594,9 @@ UnivariatePolynomial<C> operator-(const UnivariatePolynomial<C>& lhs, const C& r
 template<typename C>
 UnivariatePolynomial<C> operator-(const C& lhs, const UnivariatePolynomial<C>& rhs)
 {
-	return -rhs + lhs;
+	UnivariatePolynomial<C> res(-rhs);
+	res += lhs;
+	return res;
 }
 
 template<typename Coefficient>
-- 
2.43.0


From f21a34cff7db2b05509c6023fdf9cb2e4421405d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:20 +0000
Subject: [PATCH 39/66] fix: comparing a monomial with a variable agrees with
 comparing it with the monomial of that variable

---
 src/carl/core/Monomial.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/carl/core/Monomial.h b/src/carl/core/Monomial.h
index a37e48a..fce655a 100644
--- a/src/carl/core/Monomial.h
+++ b/src/carl/core/Monomial.h
@@ -404,9 +404,10 @@ namespace carl
 		static CompareResult compareLexical(const Monomial::Arg& lhs, Variable rhs)
 		{
 			if(!lhs) return CompareResult::LESS;
-			if(lhs->mExponents.front().first < rhs) return CompareResult::GREATER;
-			if(lhs->mExponents.front().first > rhs) return CompareResult::LESS;
-			if(lhs->mExponents.front().second > 1) return CompareResult::GREATER;
+			if(lhs->mExponents.front().first < rhs) return CompareResult::LESS;
+			if(lhs->mExponents.front().first > rhs) return CompareResult::GREATER;
+			if(lhs->mExponents.front().second > 1) return CompareResult::LESS;
+			if(lhs->mExponents.size() > 1) return CompareResult::GREATER;
 			return CompareResult::EQUAL;
 		}
 
@@ -428,9 +429,8 @@ namespace carl
 		{
 			if(!lhs) return CompareResult::LESS;
 			if(lhs->mTotalDegree > 1) return CompareResult::GREATER;
-			if(lhs->mExponents.front().first < rhs) return CompareResult::GREATER;
-			if(lhs->mExponents.front().first > rhs) return CompareResult::LESS;
-			if(lhs->mExponents.front().second > 1) return CompareResult::GREATER;
+			if(lhs->mExponents.front().first < rhs) return CompareResult::LESS;
+			if(lhs->mExponents.front().first > rhs) return CompareResult::GREATER;
 			return CompareResult::EQUAL;
 		}
 		
-- 
2.43.0


From d5a772cea99ec486bc9ab28fe4bf237aa45aaec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:20 +0000
Subject: [PATCH 40/66] fix: std::less on monomials is irreflexive on the
 constant monomial

---
 src/carl/core/Monomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/Monomial.h b/src/carl/core/Monomial.h
index fce655a..bef41c3 100644
--- a/src/carl/core/Monomial.h
+++ b/src/carl/core/Monomial.h
@@ -693,7 +693,7 @@ namespace std
 	struct less<carl::Monomial::Arg> {
 		bool operator()(const carl::Monomial::Arg& lhs, const carl::Monomial::Arg& rhs) const {
 			if (lhs && rhs) return lhs < rhs;
-			return !lhs;
+			return !lhs && rhs;
 		}
 	};
 	
-- 
2.43.0


From 9e3fabd58bb855bbacaf1850a89fa8c47f1c1628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:20 +0000
Subject: [PATCH 41/66] fix: lcm and division of two constant monomials

---
 src/carl/core/Monomial.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/Monomial.h b/src/carl/core/Monomial.h
index bef41c3..2717902 100644
--- a/src/carl/core/Monomial.h
+++ b/src/carl/core/Monomial.h
@@ -450,6 +450,7 @@ namespace carl
 		 * Returns lcm(lhs, rhs) / rhs
 		 */
 		static Monomial::Arg calcLcmAndDivideBy(const Monomial::Arg& lhs, const Monomial::Arg& rhs) {
+			if (!rhs) return lhs;
 			Monomial::Arg res;
 			bool works = lcm(lhs, rhs)->divide(rhs, res);
 			assert(works);
-- 
2.43.0


From a8110703ce226605b6741edc13237a457ad61521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:20 +0000
Subject: [PATCH 42/66] fix: the power of a variable with exponent zero is the
 constant monomial

---
 src/carl/core/Monomial.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/Monomial.cpp b/src/carl/core/Monomial.cpp
index 5ce5277..87c081a 100644
--- a/src/carl/core/Monomial.cpp
+++ b/src/carl/core/Monomial.cpp
@@ -351,6 +351,7 @@ namespace carl
 	}
 	
 	Monomial::Arg pow(Variable v, std::size_t exp) {
+		if (exp == 0) return nullptr;
 		return createMonomial(v, exp);
 	}
 }
-- 
2.43.0


From 32710734f2931ad1e4501367185784371d47ee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:20 +0000
Subject: [PATCH 43/66] fix: the derivative of the constant monomial is zero

---
 src/carl/core/polynomialfunctions/Derivative.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/polynomialfunctions/Derivative.h b/src/carl/core/polynomialfunctions/Derivative.h
index 7b112a1..9374bbf 100644
--- a/src/carl/core/polynomialfunctions/Derivative.h
+++ b/src/carl/core/polynomialfunctions/Derivative.h
@@ -34,6 +34,7 @@ const T& derivative(const T& t, Variable, std::size_t n = 1) {
  */
 inline std::pair<std::size_t,Monomial::Arg> derivative(const Monomial::Arg& m, Variable v, std::size_t n = 1) {
 	if (n == 0) return std::make_pair(1, m);
+	if (!m) return std::make_pair(0, nullptr);
 	auto it = std::find_if(m->begin(), m->end(),
 		[v](const auto& e){ return e.first == v; }
 	);
-- 
2.43.0


From f12a8050d8479ac724e7c044d5591a4e77e0ffb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:20 +0000
Subject: [PATCH 44/66] fix: a constant term is only divisible by the constant
 monomial

---
 src/carl/core/Term.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/Term.tpp b/src/carl/core/Term.tpp
index 6403d06..7deec99 100644
--- a/src/carl/core/Term.tpp
+++ b/src/carl/core/Term.tpp
@@ -99,6 +99,7 @@ bool Term<Coefficient>::divide(const Monomial::Arg& m, Term& res) const
 		}
 		return false;
 	}
+	if (m) return false;
 	res = *this;
 	return true;
 }
-- 
2.43.0


From 958a7631f4da790bf3f0a29b2b944046d20fc073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:20 +0000
Subject: [PATCH 45/66] fix: comparison of missing terms by monomial is
 irreflexive

---
 src/carl/core/Term.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/Term.h b/src/carl/core/Term.h
index 72ce850..89567a2 100644
--- a/src/carl/core/Term.h
+++ b/src/carl/core/Term.h
@@ -296,7 +296,7 @@ public:
 	}
 	static bool monomialLess(const std::shared_ptr<const Term>& lhs, const std::shared_ptr<const Term>& rhs) {
 		if (lhs && rhs) return monomialLess(*lhs, *rhs);
-		return !lhs;
+		return !lhs && rhs;
 	}
 };
 
-- 
2.43.0


From f02b29c7d3f3d114af7fbbbda12822cab55b042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:15 +0000
Subject: [PATCH 46/66] fix: polynomial built from a term list with duplicates
 is not ordered

---
 src/carl/core/MultivariatePolynomial.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 7a3f3ea..bbbfe5b 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -212,8 +212,9 @@ MultivariatePolynomial<Coeff, Ordering, Policies>::MultivariatePolynomial(const
 			mTermAdditionManager.template addTerm<false>(id, t);
 		}
 		mTermAdditionManager.readTerms(id, mTerms);
+		mOrdered = false;
 	}
-	if (!ordered) {
+	if (!mOrdered) {
 		makeMinimallyOrdered();
 	}
 	assert(this->isConsistent());
-- 
2.43.0


From c43f02e738bb2a9633071ba7bebbfe0b4483993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:15 +0000
Subject: [PATCH 47/66] fix: subtracting a constant term merges it with the
 constant term of the polynomial

---
 src/carl/core/MultivariatePolynomial.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index bbbfe5b..cf87534 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -900,6 +900,7 @@ MultivariatePolynomial<Coeff, Ordering, Policies>& MultivariatePolynomial<Coeff,
 {
 	///@todo Check if this works with ordering.
 	if (carl::isZero(rhs.coeff())) return *this;
+	if (rhs.isConstant()) return *this -= rhs.coeff();
 	CARL_LOG_TRACE("carl.core", *this << " -= " << rhs);
 	if (Policies::searchLinear)
 	{
-- 
2.43.0


From 96fa448d3e34201fa8acb756207b20bf2658dd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:15 +0000
Subject: [PATCH 48/66] fix: adding the constant monomial to a polynomial adds
 one

---
 src/carl/core/MultivariatePolynomial.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index cf87534..56d6d60 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -762,6 +762,7 @@ MultivariatePolynomial<Coeff, Ordering, Policies>& MultivariatePolynomial<Coeff,
 template<typename Coeff, typename Ordering, typename Policies>
 MultivariatePolynomial<Coeff, Ordering, Policies>& MultivariatePolynomial<Coeff, Ordering, Policies>::operator+=(const Monomial::Arg& rhs)
 {
+	if (!rhs) return *this += constant_one<Coeff>::get();
 	if (mTerms.empty()) {
 		// Empty -> just insert.
 		mTerms.emplace_back(constant_one<Coeff>::get(), rhs);
-- 
2.43.0


From 97c62f3a129e6db288d76893ce1b9bb07cdf30dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:15 +0000
Subject: [PATCH 49/66] fix: product of a polynomial with the zero term is zero

---
 src/carl/core/MultivariatePolynomial.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 56d6d60..4f2df9a 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -1058,6 +1058,10 @@ MultivariatePolynomial<Coeff,Ordering,Policies>& MultivariatePolynomial<Coeff,Or
 {
 	assert(this->isConsistent());
 	///@todo more efficient.
+	if (carl::isZero(rhs)) {
+		mTerms.clear();
+		return *this;
+	}
 	TermsType newTerms;
 	newTerms.reserve(mTerms.size());
 	for(const auto& term : mTerms)
-- 
2.43.0


From fa516fdae70a2d70c1e37909b032dd8fe3f98ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:15 +0000
Subject: [PATCH 50/66] fix: subtractProduct subtracts only once from the zero
 polynomial

---
 src/carl/core/MultivariatePolynomial.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 4f2df9a..6844e2c 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -384,6 +384,7 @@ void MultivariatePolynomial<Coeff,Ordering,Policies>::subtractProduct(const Term
 	if (carl::isZero(*this)) {
 		*this = - factor * p;
         assert(this->isConsistent());
+		return;
 	}
 	if (carl::isZero(factor.coeff())) return;
 	if (p.nrTerms() == 1) {
-- 
2.43.0


From 6cf3d8e6109d4b9a4c1a782173bb87a38022a7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:15 +0000
Subject: [PATCH 51/66] fix: addTerm inserts the term at the right position

---
 src/carl/core/MultivariatePolynomial.tpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 6844e2c..97a950c 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -422,12 +422,19 @@ void MultivariatePolynomial<Coeff,Ordering,Policies>::addTerm(const Term<Coeff>&
 		} else mTerms.insert(mTerms.begin(), term);
 		return;
 	}
+	if (mTerms.empty()) {
+		mTerms.push_back(term);
+		return;
+	}
 	if (mOrdered) {
 		auto it = mTerms.begin();
 		for (; it != mTerms.end(); it++) {
 			CompareResult res = Ordering::compare(term, *it);
 			switch (res) {
-			case CompareResult::LESS: break;
+			case CompareResult::LESS: {
+				mTerms.insert(it, term);
+				return;
+			}
 			case CompareResult::EQUAL: {
 				it->coeff() += term.coeff();
 				if (carl::isZero(it->coeff())) {
@@ -463,9 +470,8 @@ void MultivariatePolynomial<Coeff,Ordering,Policies>::addTerm(const Term<Coeff>&
 					return;
 				}
 			}
-			auto lt = mTerms.back();
 			mTerms.push_back(term);
-			std::swap(lt, mTerms.back());
+			std::swap(mTerms[mTerms.size()-2], mTerms.back());
 		}
 		}
 	}
-- 
2.43.0


From 72f4e3a48fbf3e2167c8cdfb51e3471a1b7312f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:15 +0000
Subject: [PATCH 52/66] fix: zeroth power of the zero polynomial is one

---
 src/carl/core/polynomialfunctions/Power.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/polynomialfunctions/Power.h b/src/carl/core/polynomialfunctions/Power.h
index 111dc2f..0a3e156 100644
--- a/src/carl/core/polynomialfunctions/Power.h
+++ b/src/carl/core/polynomialfunctions/Power.h
@@ -40,8 +40,8 @@ Term<Coeff> pow(const Term<Coeff>& t, uint exp) {
 template<typename C, typename O, typename P>
 MultivariatePolynomial<C,O,P> pow(const MultivariatePolynomial<C,O,P>& p, std::size_t exp) {
 	//std::cout << "pw(" << *this << " ^ " << exp << ")" << std::endl;
-	if (carl::isZero(p)) return MultivariatePolynomial<C,O,P>(constant_zero<C>::get());
 	if (exp == 0) return MultivariatePolynomial<C,O,P>(constant_one<C>::get());
+	if (carl::isZero(p)) return MultivariatePolynomial<C,O,P>(constant_zero<C>::get());
 	if (exp == 1) return MultivariatePolynomial<C,O,P>(p);
 	if (exp == 2) return p*p;
 	MultivariatePolynomial<C,O,P> res(constant_one<C>::get());
-- 
2.43.0


From a4a22be5e17d011288977433575812878b76ec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:15 +0000
Subject: [PATCH 53/66] fix: comparing the zero polynomial with a term

---
 src/carl/core/MultivariatePolynomial_operators.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/MultivariatePolynomial_operators.h b/src/carl/core/MultivariatePolynomial_operators.h
index d4e1365..5100033 100644
--- a/src/carl/core/MultivariatePolynomial_operators.h
+++ b/src/carl/core/MultivariatePolynomial_operators.h
@@ -39,7 +39,7 @@ inline bool operator==(const MultivariatePolynomial<C,O,P>& lhs, const Multivari
 }
 template<typename C, typename O, typename P>
 inline bool operator==(const MultivariatePolynomial<C,O,P>& lhs, const Term<C>& rhs) {
-	if (isZero(lhs) && isZero(rhs)) return true;
+	if (isZero(lhs)) return isZero(rhs);
 	if (lhs.nrTerms() > 1) return false;
 	return lhs.lterm() == rhs;
 }
-- 
2.43.0


From ad45a6491a9e599d47ca9266fbd612591863c741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:15 +0000
Subject: [PATCH 54/66] fix: substituting terms skips vanishing terms

---
 src/carl/core/polynomialfunctions/Substitution.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/carl/core/polynomialfunctions/Substitution.h b/src/carl/core/polynomialfunctions/Substitution.h
index 26be063..42cc68f 100644
--- a/src/carl/core/polynomialfunctions/Substitution.h
+++ b/src/carl/core/polynomialfunctions/Substitution.h
@@ -215,7 +215,10 @@ MultivariatePolynomial<C,O,P> substitute(const MultivariatePolynomial<C,O,P>& p,
 	auto& tam = MultivariatePolynomial<C,O,P>::mTermAdditionManager;
 	auto id = tam.getId(p.nrTerms());
 	for (const auto& term: p) {
-		tam.template addTerm<false>(id, substitute(term, substitutions));
+		Term<C> resultTerm = substitute(term, substitutions);
+		if (!carl::isZero(resultTerm)) {
+			tam.template addTerm<false>(id, resultTerm);
+		}
 	}
 	tam.readTerms(id, result.getTerms());
 	result.reset_ordered();
-- 
2.43.0


From 121b4b5897823f18168a7d468883eb8293374f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:15 +0000
Subject: [PATCH 55/66] fix: substituting the main variable takes the powers of
 the value into account

---
 src/carl/core/polynomialfunctions/Substitution.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/Substitution.h b/src/carl/core/polynomialfunctions/Substitution.h
index 42cc68f..afeb805 100644
--- a/src/carl/core/polynomialfunctions/Substitution.h
+++ b/src/carl/core/polynomialfunctions/Substitution.h
@@ -379,10 +379,7 @@ UnivariatePolynomial<Coeff> substitute(const UnivariatePolynomial<Coeff>& p, Var
 		return p;
 	} else {
 		if (var == p.mainVar()) {
-			UnivariatePolynomial<Coeff> res(p.mainVar());
-			for (const auto& c: p.coefficients()) {
-				res += substitute(c, var, value);
-			}
+			UnivariatePolynomial<Coeff> res(p.mainVar(), carl::evaluate(p, value));
 			CARL_LOG_TRACE("carl.core.uvpolynomial", p << " [ " << var << " -> " << value << " ] = " << res);
 			return res;
 		} else {
-- 
2.43.0


From 642ecdd090c989910b9e7f2498986ee40f7e9fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:37:22 +0000
Subject: [PATCH 56/66] fix: convert the zero univariate polynomial to a
 multivariate one

The constructor reserved space by the degree, which is undefined for zero.
---
 src/carl/core/MultivariatePolynomial.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 97a950c..ce10229 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -153,7 +153,7 @@ MultivariatePolynomial<Coeff,Ordering,Policies>::MultivariatePolynomial(const Un
 	mOrdered(true)
 {
 	exponent exp = 0;
-	mTerms.reserve(p.degree());
+	mTerms.reserve(p.coefficients().size());
 	for (const auto& c: p.coefficients()) {
 		if (!carl::isZero(c)) {
 			if (exp == 0) mTerms.emplace_back(c);
-- 
2.43.0


From a3de569fc43e1791d10461b4e4d6f55030206e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:13:23 +0000
Subject: [PATCH 57/66] fix: evaluate univariate polynomials with number
 coefficients on intervals

The function called a member Interval::pow that does not exist, started from
the empty interval, which absorbs every summand, and left out the leading
coefficient.  Both univariate versions now iterate over the coefficients, so
that the zero polynomial, which has no degree, evaluates to zero.
---
 src/carl/interval/IntervalEvaluation.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/carl/interval/IntervalEvaluation.h b/src/carl/interval/IntervalEvaluation.h
index 11f36e5..d4456ec 100644
--- a/src/carl/interval/IntervalEvaluation.h
+++ b/src/carl/interval/IntervalEvaluation.h
@@ -108,14 +108,14 @@ template<typename Numeric, typename Coeff, EnableIf<std::is_same<Numeric, Coeff>
 inline Interval<Numeric> IntervalEvaluation::evaluate(const UnivariatePolynomial<Coeff>& p, const std::map<Variable, Interval<Numeric>>& map) {
 	CARL_LOG_FUNC("carl.core.monomial", p << ", " << map);
 	assert(map.count(p.mainVar()) > 0);
-	Interval<Numeric> res = Interval<Numeric>::emptyInterval();
-	const Interval<Numeric> varValue = map.at(p.mainVar());
+	Interval<Numeric> res = Interval<Numeric>(carl::constant_zero<Numeric>().get());
+	const Interval<Numeric>& varValue = map.at(p.mainVar());
 	Interval<Numeric> exp(1);
-	for (unsigned i = 0; i < p.degree(); i++) {
+	for (uint i = 0; i < p.coefficients().size(); i++) {
 		res += p.coefficients()[i] * exp;
         if( res.isInfinite() )
             return res;
-		exp = varValue.pow(i+1);
+		exp = carl::pow(varValue, i+1);
 	}
 	return res;
 }
@@ -127,7 +127,7 @@ inline Interval<Numeric> IntervalEvaluation::evaluate(const UnivariatePolynomial
 	Interval<Numeric> res = Interval<Numeric>(carl::constant_zero<Numeric>().get());
 	const Interval<Numeric>& varValue = map.at(p.mainVar());
 	Interval<Numeric> exp(1);
-	for (uint i = 0; i <= p.degree(); i++) {
+	for (uint i = 0; i < p.coefficients().size(); i++) {
 		res += IntervalEvaluation::evaluate(p.coefficients()[i], map) * exp;
         if( res.isInfinite() )
             return res;
-- 
2.43.0


From af0964d914d033b503822b918dcddf4e7df82bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:11:08 +0000
Subject: [PATCH 58/66] fix: divide square root expressions by the constant
 part of the divisor

---
 src/carl/vs/SqrtEx.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/vs/SqrtEx.tpp b/src/carl/vs/SqrtEx.tpp
index 8900383..8c3bc5f 100644
--- a/src/carl/vs/SqrtEx.tpp
+++ b/src/carl/vs/SqrtEx.tpp
@@ -221,7 +221,7 @@ namespace carl
     {
         assert( !rhs.hasSqrt() );
         SqrtEx<Poly> result = SqrtEx<Poly>( constantPart() * rhs.denominator(), factor() * rhs.denominator(),
-                         denominator() * rhs.factor(), radicand() );
+                         denominator() * rhs.constantPart(), radicand() );
         return result;
     }
     
-- 
2.43.0


From 9417e254e9761e06923b0f2676b77aff807b3116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:11:25 +0000
Subject: [PATCH 59/66] fix: keep the radicand when only the second operand has
 a square root

---
 src/carl/vs/SqrtEx.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/carl/vs/SqrtEx.tpp b/src/carl/vs/SqrtEx.tpp
index 8c3bc5f..6145e86 100644
--- a/src/carl/vs/SqrtEx.tpp
+++ b/src/carl/vs/SqrtEx.tpp
@@ -192,7 +192,7 @@ namespace carl
         assert( !hasSqrt() ||!rhs.hasSqrt() || radicand() == rhs.radicand() );
         SqrtEx<Poly> result = SqrtEx<Poly>( rhs.denominator() * constantPart() + rhs.constantPart() * denominator(),
                          rhs.denominator() * factor() + rhs.factor() * denominator(),
-                         denominator() * rhs.denominator(), radicand() );
+                         denominator() * rhs.denominator(), hasSqrt() ? radicand() : rhs.radicand() );
         return result;
     }
 
@@ -202,7 +202,7 @@ namespace carl
         assert( !hasSqrt() || !rhs.hasSqrt() || radicand() == rhs.radicand() );
         SqrtEx<Poly> result = SqrtEx<Poly>( rhs.denominator() * constantPart() - rhs.constantPart() * denominator(),
                          rhs.denominator() * factor() - rhs.factor() * denominator(),
-                         denominator() * rhs.denominator(), radicand() );
+                         denominator() * rhs.denominator(), hasSqrt() ? radicand() : rhs.radicand() );
         return result;
     }
 
@@ -212,7 +212,7 @@ namespace carl
         assert( !hasSqrt() || !rhs.hasSqrt() || radicand() == rhs.radicand() );
         SqrtEx<Poly> result = SqrtEx<Poly>( rhs.constantPart() * constantPart() + rhs.factor() * factor() * radicand(),
                          rhs.constantPart() * factor() + rhs.factor() * constantPart(),
-                         denominator() * rhs.denominator(), radicand() );
+                         denominator() * rhs.denominator(), hasSqrt() ? radicand() : rhs.radicand() );
         return result;
     }
 
-- 
2.43.0


From 80e2ac61d71f173cfcd8f383cbbb5fdeebe355a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:11:25 +0000
Subject: [PATCH 60/66] fix: take the denominator into account when converting
 a square root expression to a number

---
 src/carl/vs/SqrtEx.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/vs/SqrtEx.h b/src/carl/vs/SqrtEx.h
index 335c45e..2dca7d7 100644
--- a/src/carl/vs/SqrtEx.h
+++ b/src/carl/vs/SqrtEx.h
@@ -142,7 +142,7 @@ namespace carl
             Rational asConstant() const
             {
                 assert( isConstant() );
-                return mConstantPart.constantPart();
+                return mConstantPart.constantPart()/mDenominator.constantPart();
             }
 
             /**
@@ -162,7 +162,7 @@ namespace carl
                 if( isConstant() )
                     return asConstant();
                 assert( isRational() );
-                return mConstantPart.constantPart()/mFactor.constantPart();
+                return mConstantPart.constantPart()/mDenominator.constantPart();
             }
             
         private:
-- 
2.43.0


From f90b1520b264c6285237f49ade1904eebaaf54db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:15:23 +0000
Subject: [PATCH 61/66] fix: multivariate gcd without CoCoA called members that
 no longer exist

---
 src/carl/core/polynomialfunctions/GCD_multivariate.h   | 5 +++--
 src/carl/core/polynomialfunctions/PrimitiveEuclidean.h | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/GCD_multivariate.h b/src/carl/core/polynomialfunctions/GCD_multivariate.h
index 95a4a20..8d51ffe 100644
--- a/src/carl/core/polynomialfunctions/GCD_multivariate.h
+++ b/src/carl/core/polynomialfunctions/GCD_multivariate.h
@@ -2,6 +2,7 @@
 
 #include "../config.h"
 #include "PrimitiveEuclidean.h"
+#include "to_univariate_polynomial.h"
 #include "../MultivariatePolynomial.h"
 #include "../../numbers/typetraits.h"
 
@@ -32,8 +33,8 @@ namespace gcd_detail {
 			return Polynomial(1);
 		}
 		CARL_LOG_INEFFICIENT();
-		auto A = a.toUnivariatePolynomial(x);
-		auto B = b.toUnivariatePolynomial(x);
+		auto A = to_univariate_polynomial(a, x);
+		auto B = to_univariate_polynomial(b, x);
 		Polynomial result(primitive_euclidean(A.normalized(), B.normalized()));
 		if (carl::isNegative(result.lcoeff()) && !(carl::isNegative(a.lcoeff()) && carl::isNegative(b.lcoeff()))) {
 			return -result;
diff --git a/src/carl/core/polynomialfunctions/PrimitiveEuclidean.h b/src/carl/core/polynomialfunctions/PrimitiveEuclidean.h
index c94cc57..f1a08eb 100644
--- a/src/carl/core/polynomialfunctions/PrimitiveEuclidean.h
+++ b/src/carl/core/polynomialfunctions/PrimitiveEuclidean.h
@@ -2,6 +2,7 @@
 
 #include "Content.h"
 #include "PrimitivePart.h"
+#include "Remainder.h"
 
 #include "../UnivariatePolynomial.h"
 
@@ -18,7 +19,7 @@ UnivariatePolynomial<Coeff> primitive_euclidean(const UnivariatePolynomial<Coeff
 	UnivariatePolynomial<Coeff> d = primitive_part(b.normalized());
 	
 	while (!isZero(d)) {
-		UnivariatePolynomial<Coeff> r = c.prem(d);
+		UnivariatePolynomial<Coeff> r = pseudo_remainder(c, d);
 		c = d;
 		d = primitive_part(r.normalized());
 	}
-- 
2.43.0


From 7c34880a5d3e6aeb749b525a57bcc19c387d582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:17:44 +0000
Subject: [PATCH 62/66] fix: print negative durations and quantities of 2^63
 and more with their proper suffix

The comparison with the suffix thresholds was always true for negative
values, so negative durations were printed in nanoseconds. Quantities are
unsigned, but went through a signed type: values of 2^63 and more were
printed as negative numbers. Divide instead of comparing with products, and
let the quantities use an unsigned type.
---
 src/carl-settings/settings_utils.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/carl-settings/settings_utils.h b/src/carl-settings/settings_utils.h
index c4875ce..1712263 100644
--- a/src/carl-settings/settings_utils.h
+++ b/src/carl-settings/settings_utils.h
@@ -4,6 +4,7 @@
 #include <chrono>
 #include <iostream>
 #include <string>
+#include <type_traits>
 #include <utility>
 #include <vector>
 
@@ -21,15 +22,15 @@ namespace carl::settings {
  * The return value is the value converted to this unit suffix and the index into the array to retrieve the appropriate suffix string.
  * For the above example, `get_proper_suffix(30000000000, a) = {30, 3}`, that is `30s`.
  */
-template<typename Array>
-std::pair<std::intmax_t,std::size_t> get_proper_suffix(std::intmax_t value, const Array& a) {
+template<typename Int = std::intmax_t, typename Array>
+std::pair<Int,std::size_t> get_proper_suffix(std::common_type_t<Int> value, const Array& a) {
 	std::size_t id = 0;
-	std::intmax_t mult = 1;
+	Int mult = 1;
 	for (; id < a.size()-1; ++id) {
-		if (value < (a[id].second * mult)) {
+		if (value / mult / static_cast<Int>(a[id].second) == 0) {
 			break;
 		}
-		mult *= a[id].second;
+		mult *= static_cast<Int>(a[id].second);
 	}
 	return std::make_pair(value / mult, id);
 }
@@ -103,7 +104,7 @@ inline std::ostream& operator<<(std::ostream& os, const binary_quantity& q) {
 		{"", 1024}, {"Ki", 1024}, {"Mi", 1024},
 		{"Gi", 1024}, {"Ti", 1024}, {"Pi", 1024}, {"Ei", 1},
 	}};
-	auto res = get_proper_suffix(static_cast<std::intmax_t>(q.n()), suffixes);
+	auto res = get_proper_suffix<std::uintmax_t>(q.n(), suffixes);
 	return os << res.first << suffixes[res.second].first;
 }
 
@@ -149,7 +150,7 @@ inline std::ostream& operator<<(std::ostream& os, const metric_quantity& q) {
 		{"", 1000}, {"K", 1000}, {"M", 1000},
 		{"G", 1000}, {"T", 1000}, {"P", 1000}, {"E", 1},
 	}};
-	auto res = get_proper_suffix(static_cast<std::intmax_t>(q.n()), suffixes);
+	auto res = get_proper_suffix<std::uintmax_t>(q.n(), suffixes);
 	return os << res.first << suffixes[res.second].first;
 }
 
-- 
2.43.0


From 53509eb75f97aa1bc87a5a867c15ffcd51c9efc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:17:44 +0000
Subject: [PATCH 63/66] fix: trivial covering heuristic on an instance without
 sets

The interval of all sets was computed with an unsigned underflow when there
are none.
---
 src/carl-covering/heuristics/trivial.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carl-covering/heuristics/trivial.cpp b/src/carl-covering/heuristics/trivial.cpp
index daa27cd..fd91cfc 100644
--- a/src/carl-covering/heuristics/trivial.cpp
+++ b/src/carl-covering/heuristics/trivial.cpp
@@ -7,7 +7,9 @@ namespace carl::covering::heuristic {
 /// Trivial heuristic: select all sets.
 Bitset trivial(SetCover& sc) {
 	Bitset result;
-	result.set_interval(0, sc.set_count() - 1);
+	if (sc.set_count() > 0) {
+		result.set_interval(0, sc.set_count() - 1);
+	}
 	return result;
 }
 
-- 
2.43.0


From 512ecc8fb9c286c4a59fc24e3bae94a606e3e703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:17:44 +0000
Subject: [PATCH 64/66] fix: Heap::getCopy returned nothing and
 CompactTree::getCopy never advanced

---
 src/carl/util/CompactTree.h | 1 +
 src/carl/util/Heap.h        | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/util/CompactTree.h b/src/carl/util/CompactTree.h
index 6e3a9c2..c79d1a6 100644
--- a/src/carl/util/CompactTree.h
+++ b/src/carl/util/CompactTree.h
@@ -179,6 +179,7 @@ namespace carl
                 while( it <= _lastLeaf )
                 {
                     ret.push_back( (*this)[it] );
+                    ++it;
                 }
                 return ret;
             }
diff --git a/src/carl/util/Heap.h b/src/carl/util/Heap.h
index 50fdc24..8179b9e 100644
--- a/src/carl/util/Heap.h
+++ b/src/carl/util/Heap.h
@@ -91,7 +91,7 @@ namespace carl
 
             std::vector<Entry> getCopy() const
             {
-                _tree.getCopy();
+                return _tree.getCopy();
             }
 
             void print( std::ostream& out = std::cout ) const;
-- 
2.43.0


From d545e9df5d51114519cd76d3681ce3dfa6c9a7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:17:44 +0000
Subject: [PATCH 65/66] fix: primitive part of a polynomial that is not normal

The content is only defined for normal polynomials; asking for it with a
negative leading coefficient failed the assertion in content(), and without
assertions constants got the wrong sign.
---
 src/carl/core/polynomialfunctions/PrimitivePart.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/polynomialfunctions/PrimitivePart.h b/src/carl/core/polynomialfunctions/PrimitivePart.h
index bee7c53..1a84a2e 100644
--- a/src/carl/core/polynomialfunctions/PrimitivePart.h
+++ b/src/carl/core/polynomialfunctions/PrimitivePart.h
@@ -24,7 +24,7 @@ UnivariatePolynomial<Coeff> primitive_part(const UnivariatePolynomial<Coeff>& p)
 	if (p.isNormal()) {
 		return p / carl::content(p);
 	} else {
-		return p / Coeff(-carl::content(p));
+		return p / Coeff(-carl::content(-p));
 	}
 }
 
-- 
2.43.0


From 3cfd14e8a1b6f1980d6dc5ea28a095e6140eeac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:17:44 +0000
Subject: [PATCH 66/66] fix: keep the constant factor in square-free
 factorisations

The factors of a square-free factorisation were only correct up to a
constant: the constant of the polynomial ended up in the last factor and
was raised to its multiplicity.
---
 .../core/polynomialfunctions/Factorization_univariate.h   | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/carl/core/polynomialfunctions/Factorization_univariate.h b/src/carl/core/polynomialfunctions/Factorization_univariate.h
index c746554..920487f 100644
--- a/src/carl/core/polynomialfunctions/Factorization_univariate.h
+++ b/src/carl/core/polynomialfunctions/Factorization_univariate.h
@@ -77,6 +77,14 @@ CLANG_WARNING_RESET
 			}
 			result.emplace(i, w);
 			CARL_LOG_TRACE("carl.core.upoly", "UnivSSF: add the factor (" << w << ")^" << i);
+			// Up to now, the product of the factors is p up to a constant.
+			Coeff constant = p.lcoeff();
+			for (const auto& f: result) {
+				constant /= carl::pow(f.second.lcoeff(), f.first);
+			}
+			if (!carl::isOne(constant)) {
+				result.begin()->second *= constant;
+			}
 		}
 	}
 	return result;
-- 
2.43.0

