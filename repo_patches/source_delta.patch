From 04ef19c394434c789ee116747618cfb5280f80b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:09 +0000
Subject: [PATCH 01/26] fix: greater/less-than of magnitudes must stop at the
 first differing digit

abs_val_is_gt and abs_val_is_lt kept scanning towards the least significant
digit after a more significant digit had already decided the comparison, so
19 > 21 was true.
---
 include/bignum/impl/bn_compare_impl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/bignum/impl/bn_compare_impl.h b/include/bignum/impl/bn_compare_impl.h
index 459585e..cc45ab9 100644
--- a/include/bignum/impl/bn_compare_impl.h
+++ b/include/bignum/impl/bn_compare_impl.h
@@ -47,6 +47,9 @@ bool abs_val_is_gt(
         if (num1[i] > num2[i]) {
             return true;
         }
+        if (num1[i] < num2[i]) {
+            return false;
+        }
     }
     
     return false;
@@ -104,6 +107,9 @@ bool abs_val_is_lt(
         if (num1[i] < num2[i]) {
             return true;
         }
+        if (num1[i] > num2[i]) {
+            return false;
+        }
     }
     
     return false;
-- 
2.43.0


From 80145cc79c952a690a6e140a4c7e4bd7127260ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:09 +0000
Subject: [PATCH 02/26] fix: relational operators on two negative numbers

-5 > -5 was true, -5 >= -5 and -5 <= -5 were false: the magnitude comparisons
used for two negative operands were strict where they have to be non-strict
and the other way around.
---
 include/bignum/impl/bn_type_impl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 8b53407..c6cacd0 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -313,7 +313,7 @@ bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
         return false;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_le<container_t>(this->numData, num.numData);
+        return abs_val_is_lt<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
@@ -332,7 +332,7 @@ bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
         return false;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_lt<container_t>(this->numData, num.numData);
+        return abs_val_is_le<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
@@ -370,7 +370,7 @@ bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
         return true;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_gt<container_t>(this->numData, num.numData);
+        return abs_val_is_ge<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
-- 
2.43.0


From d4925956905747c168abb52a47ed69a4e3852873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:20 +0000
Subject: [PATCH 03/26] fix: subtracting numbers of different signs adds the
 magnitudes

5 - (-3) was 2 and -10 - 199 was -0: the branches for operands of different
signs subtracted the magnitudes instead of adding them.
---
 include/bignum/impl/bn_type_impl.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index c6cacd0..6d25a1d 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -547,15 +547,11 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
         }
         // subtract a negative from a positive
         else if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
-            container_t temp = abs_val_is_gt(numData, num.numData) ? numData : num.numData;
-            abs_val_sub<limits_t, container_t>(temp, num.numData);
-            numData = std::move(temp);
+            abs_val_add<limits_t, container_t>(numData, num.numData);
         }
         // subtract a positive from a negative
         else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
-            container_t temp = abs_val_is_gt(numData, num.numData) ? numData : num.numData;
-            abs_val_sub<limits_t, container_t>(temp, num.numData);
-            numData = std::move(temp);
+            abs_val_add<limits_t, container_t>(numData, num.numData);
         }
         // subtract a negative from a negative
         else {
-- 
2.43.0


From 63dddb4b3dc0152349c731e9b31436e417f22b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:20 +0000
Subject: [PATCH 04/26] fix: abs_val_sub must not run past the end of the
 number it modifies

0 - 0 (two numbers without digits) and a subtrahend with more digits than the
minuend, all of them leading zeroes, read and wrote beyond the last digit.
---
 include/bignum/impl/bn_subtraction_impl.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/bignum/impl/bn_subtraction_impl.h b/include/bignum/impl/bn_subtraction_impl.h
index f29615d..415f6ea 100644
--- a/include/bignum/impl/bn_subtraction_impl.h
+++ b/include/bignum/impl/bn_subtraction_impl.h
@@ -35,7 +35,7 @@ void abs_val_sub(
     // borrow/carry counter
     bn_double numBorrowed = 0;
     
-    while (true) {
+    while (outIter < largerNum.size()) {
         // get the single digits that are to be added
         const bn_double inDigit = (inIter < smallerNum.size()) ? smallerNum[inIter] : bn_double{0};
         const bn_double outDigit = (largerNum[outIter]-numBorrowed)-inDigit;
@@ -52,11 +52,6 @@ void abs_val_sub(
         // onto the next number
         ++outIter;
         ++inIter;
-        
-        // determine when to stop counting
-        if (outIter == largerNum.size() && inIter >= smallerNum.size()) {
-            break;
-        }
     }
     
     // pop off any remaining zeroes
-- 
2.43.0


From 1b3be91f73aa99123f264eacca625bc90e79e9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:33 +0000
Subject: [PATCH 05/26] fix: leading zeroes must not take part in magnitude
 comparisons

The comparisons are documented to compare numerical values but compared digit
counts first, so 05 was greater than 9, and operations that pick the larger
magnitude (subtraction, division) borrowed from the padding.
---
 include/bignum/bn_compare.h               | 11 +++++
 include/bignum/impl/bn_compare_impl.h     | 57 +++++++++++++++++------
 include/bignum/impl/bn_subtraction_impl.h |  4 +-
 3 files changed, 55 insertions(+), 17 deletions(-)

diff --git a/include/bignum/bn_compare.h b/include/bignum/bn_compare.h
index 023cbfd..89f82ad 100644
--- a/include/bignum/bn_compare.h
+++ b/include/bignum/bn_compare.h
@@ -11,6 +11,17 @@
 
 
 
+/**
+ * Count the significant digits contained within a bignum.
+ * 
+ * @param const container_type&
+ * 
+ * @return The number of digits up to, and including, the non-zero digit of
+ * highest magnitude. This is 0 if the number has no value other than zero.
+ */
+template <class container_type>
+typename container_type::size_type abs_val_num_digits(const container_type&);
+
 /**
  * Compare the raw numerical data contained within a bignum.
  * This function is not designed to compare a bignum's descriptors.
diff --git a/include/bignum/impl/bn_compare_impl.h b/include/bignum/impl/bn_compare_impl.h
index cc45ab9..8f9c37d 100644
--- a/include/bignum/impl/bn_compare_impl.h
+++ b/include/bignum/impl/bn_compare_impl.h
@@ -1,6 +1,20 @@
 
 
 
+///////////////////////////////////////////////////////////////////////////////
+// Count the digits of a number, without its leading zeroes
+///////////////////////////////////////////////////////////////////////////////
+template <class container_type>
+typename container_type::size_type abs_val_num_digits(const container_type& num) {
+    typename container_type::size_type numDigits = num.size();
+    
+    while (numDigits && 0 == num[numDigits-1]) {
+        --numDigits;
+    }
+    
+    return numDigits;
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 // Equating implementation
 ///////////////////////////////////////////////////////////////////////////////
@@ -9,12 +23,15 @@ bool abs_val_is_eq(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() != num2.size()) {
+    const typename container_type::size_type len1 = abs_val_num_digits(num1);
+    const typename container_type::size_type len2 = abs_val_num_digits(num2);
+    
+    if (len1 != len2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = len1;
     
     while (i--) {
         if (num1[i] != num2[i]) {
@@ -33,15 +50,18 @@ bool abs_val_is_gt(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() > num2.size()) {
+    const typename container_type::size_type len1 = abs_val_num_digits(num1);
+    const typename container_type::size_type len2 = abs_val_num_digits(num2);
+    
+    if (len1 > len2) {
         return true;
     }
-    if (num1.size() < num2.size()) {
+    if (len1 < len2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = len1;
     
     while (i--) {
         if (num1[i] > num2[i]) {
@@ -63,15 +83,18 @@ bool abs_val_is_ge(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() > num2.size()) {
+    const typename container_type::size_type len1 = abs_val_num_digits(num1);
+    const typename container_type::size_type len2 = abs_val_num_digits(num2);
+    
+    if (len1 > len2) {
         return true;
     }
-    if (num1.size() < num2.size()) {
+    if (len1 < len2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = len1;
     
     while (i--) {
         if (num1[i] > num2[i]) {
@@ -93,15 +116,18 @@ bool abs_val_is_lt(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() < num2.size()) {
+    const typename container_type::size_type len1 = abs_val_num_digits(num1);
+    const typename container_type::size_type len2 = abs_val_num_digits(num2);
+    
+    if (len1 < len2) {
         return true;
     }
-    if (num1.size() > num2.size()) {
+    if (len1 > len2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = len1;
     
     while (i--) {
         if (num1[i] < num2[i]) {
@@ -123,15 +149,18 @@ bool abs_val_is_le(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() < num2.size()) {
+    const typename container_type::size_type len1 = abs_val_num_digits(num1);
+    const typename container_type::size_type len2 = abs_val_num_digits(num2);
+    
+    if (len1 < len2) {
         return true;
     }
-    if (num1.size() > num2.size()) {
+    if (len1 > len2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = len1;
     
     while (i--) {
         if (num1[i] < num2[i]) {
diff --git a/include/bignum/impl/bn_subtraction_impl.h b/include/bignum/impl/bn_subtraction_impl.h
index 415f6ea..843a321 100644
--- a/include/bignum/impl/bn_subtraction_impl.h
+++ b/include/bignum/impl/bn_subtraction_impl.h
@@ -16,9 +16,7 @@ void abs_val_sub(
     const container_t& smallerNum
 ) {
     #ifdef BN_DEBUG
-        if (largerNum.size() < smallerNum.size()
-        || abs_val_is_lt(largerNum, smallerNum)
-        ) {
+        if (abs_val_is_lt(largerNum, smallerNum)) {
             throw BNUnderflow{};
         }
     #endif
-- 
2.43.0


From a656fe2134b2b81051abf63165641e7f5d3ab601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:07 +0000
Subject: [PATCH 06/26] fix: zero has no sign

-5 + 5, 0 * -5 and 1 / -2 produced a negative zero that was printed as -0,
reported itself as negative and did not compare equal to zero.
---
 include/bignum/impl/bn_type_impl.h | 68 ++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 18 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 6d25a1d..74c3117 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -44,6 +44,14 @@ std::ostream& operator << (std::ostream& ostr, const Bignum<limits_t, container_
     return ostr;
 }
 
+///////////////////////////////////////////////////////////////////////////////
+// Get the effective descriptor of a number. There is no negative zero.
+///////////////////////////////////////////////////////////////////////////////
+template <class container_t>
+inline bn_desc_t bn_signed_desc(bn_desc_t desc, const container_t& data) {
+    return (desc == BN_NEG && !abs_val_num_digits<container_t>(data)) ? BN_POS : desc;
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 // Constructor
 ///////////////////////////////////////////////////////////////////////////////
@@ -284,7 +292,10 @@ Bignum<limits_t, container_t>::operator[](typename container_type::size_type ite
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 inline bool Bignum<limits_t, container_t>::operator==(const Bignum& num) const {
-    if (this->descriptor != num.descriptor) {
+    const bn_desc_t lhs = bn_signed_desc(this->descriptor, this->numData);
+    const bn_desc_t rhs = bn_signed_desc(num.descriptor, num.numData);
+    
+    if (lhs != rhs) {
         return false;
     }
     return abs_val_is_eq<container_t>(this->numData, num.numData);
@@ -295,7 +306,10 @@ inline bool Bignum<limits_t, container_t>::operator==(const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 inline bool Bignum<limits_t, container_t>::operator!=(const Bignum& num) const {
-    if (this->descriptor != num.descriptor) {
+    const bn_desc_t lhs = bn_signed_desc(this->descriptor, this->numData);
+    const bn_desc_t rhs = bn_signed_desc(num.descriptor, num.numData);
+    
+    if (lhs != rhs) {
         return true;
     }
     return !abs_val_is_eq<container_t>(this->numData, num.numData);
@@ -306,13 +320,16 @@ inline bool Bignum<limits_t, container_t>::operator!=(const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
-    if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
+    const bn_desc_t lhs = bn_signed_desc(this->descriptor, this->numData);
+    const bn_desc_t rhs = bn_signed_desc(num.descriptor, num.numData);
+    
+    if (lhs == BN_POS && rhs == BN_NEG) {
         return true;
     }
-    else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
+    else if (lhs == BN_NEG && rhs == BN_POS) {
         return false;
     }
-    else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
+    else if (lhs == BN_NEG && rhs == BN_NEG) {
         return abs_val_is_lt<container_t>(this->numData, num.numData);
     }
     
@@ -325,13 +342,16 @@ bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
-    if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
+    const bn_desc_t lhs = bn_signed_desc(this->descriptor, this->numData);
+    const bn_desc_t rhs = bn_signed_desc(num.descriptor, num.numData);
+    
+    if (lhs == BN_POS && rhs == BN_NEG) {
         return true;
     }
-    else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
+    else if (lhs == BN_NEG && rhs == BN_POS) {
         return false;
     }
-    else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
+    else if (lhs == BN_NEG && rhs == BN_NEG) {
         return abs_val_is_le<container_t>(this->numData, num.numData);
     }
     
@@ -344,13 +364,16 @@ bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator < (const Bignum& num) const {
-    if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
+    const bn_desc_t lhs = bn_signed_desc(this->descriptor, this->numData);
+    const bn_desc_t rhs = bn_signed_desc(num.descriptor, num.numData);
+    
+    if (lhs == BN_POS && rhs == BN_NEG) {
         return false;
     }
-    else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
+    else if (lhs == BN_NEG && rhs == BN_POS) {
         return true;
     }
-    else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
+    else if (lhs == BN_NEG && rhs == BN_NEG) {
         return abs_val_is_gt<container_t>(this->numData, num.numData);
     }
     
@@ -363,13 +386,16 @@ bool Bignum<limits_t, container_t>::operator < (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
-    if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
+    const bn_desc_t lhs = bn_signed_desc(this->descriptor, this->numData);
+    const bn_desc_t rhs = bn_signed_desc(num.descriptor, num.numData);
+    
+    if (lhs == BN_POS && rhs == BN_NEG) {
         return false;
     }
-    else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
+    else if (lhs == BN_NEG && rhs == BN_POS) {
         return true;
     }
-    else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
+    else if (lhs == BN_NEG && rhs == BN_NEG) {
         return abs_val_is_ge<container_t>(this->numData, num.numData);
     }
     
@@ -472,14 +498,12 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
             if (abs_val_is_ge<container_t>(this->numData, num.numData)) {
                 // subtract as normal
                 abs_val_sub<limits_t, container_t>(numData, num.numData);
-                return *this;
             }
             else {
                 Bignum tempNum = num;
                 abs_val_sub<limits_t, container_t>(tempNum.numData, numData);
                 tempNum.descriptor = BN_NEG;
                 *this = std::move(tempNum);
-                return *this;
             }
         }
         // add a positive to a negative
@@ -488,14 +512,12 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
             if (abs_val_is_ge<container_t>(this->numData, num.numData)) {
                 // subtract as normal
                 abs_val_sub<limits_t, container_t>(numData, num.numData);
-                return *this;
             }
             else {
                 Bignum tempNum = num;
                 abs_val_sub<limits_t, container_t>(tempNum.numData, numData);
                 tempNum.descriptor = BN_POS;
                 *this = std::move(tempNum);
-                return *this;
             }
         }
         // add a negative to a negative
@@ -512,6 +534,8 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
         throw e;
     }
     
+    descriptor = bn_signed_desc(descriptor, numData);
+    
     return *this;
 }
 
@@ -577,6 +601,8 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
         throw e;
     }
     
+    descriptor = bn_signed_desc(descriptor, numData);
+
     return *this;
 }
 
@@ -624,6 +650,8 @@ Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
         throw e;
     }
 
+    descriptor = bn_signed_desc(descriptor, numData);
+
     return *this;
 }
 
@@ -666,11 +694,13 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
 
     if (num.numData.size() == 1 && num.numData[0] == (bn_single)1)
     {
+        descriptor = bn_signed_desc(descriptor, numData);
         return *this;
     }
 
     if (numData.empty() || (numData.size() == 1 && numData[0] == SINGLE_BASE_MIN))
     {
+        descriptor = bn_signed_desc(descriptor, numData);
         return *this;
     }
 
@@ -694,6 +724,8 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         throw e;
     }
 
+    descriptor = bn_signed_desc(descriptor, numData);
+
     return *this;
 }
 
-- 
2.43.0


From 671732297cd6b9a661ace4d8eda36e1b2a42fd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:08 +0000
Subject: [PATCH 07/26] fix: division by zero must not depend on how the zero
 is spelled

The constructor strips leading zeroes, so a zero divisor normally has no digits
at all. It was only recognised with exactly one zero digit: 5 / 0 never
terminated and allocated memory until it was exhausted.
---
 include/bignum/impl/bn_type_impl.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 74c3117..aa4e98e 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -669,8 +669,6 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         return *this;
     }
 
-    static constexpr bn_double SINGLE_BASE_MIN = bn_min_limit<bn_single>();
-    
     // subtract a negative from a positive
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         descriptor = BN_NEG;
@@ -685,7 +683,7 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         descriptor = BN_POS;
     }
 
-    if (num.numData.size() == 1 && num.numData[0] == SINGLE_BASE_MIN)
+    if (!abs_val_num_digits<container_t>(num.numData))
     {
         numData.clear();
         descriptor = descriptor == BN_NEG ? BN_NEG_INF : BN_POS_INF;
@@ -698,7 +696,7 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         return *this;
     }
 
-    if (numData.empty() || (numData.size() == 1 && numData[0] == SINGLE_BASE_MIN))
+    if (!abs_val_num_digits<container_t>(numData))
     {
         descriptor = bn_signed_desc(descriptor, numData);
         return *this;
-- 
2.43.0


From ad092cc34e8f1725513e4bfc29e826be8a8ed189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:08 +0000
Subject: [PATCH 08/26] fix: a number divided by itself is one

x / x was 0 because equal magnitudes were handled like a smaller dividend.
---
 include/bignum/impl/bn_type_impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index aa4e98e..e1115c4 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -708,6 +708,10 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         {
             abs_val_div<limits_t, container_t>(numData, num.numData);
         }
+        else if (abs_val_is_eq<container_t>(numData, num.numData))
+        {
+            numData = {bn_single{1}};
+        }
         else
         {
             numData = {bn_single{0}};
-- 
2.43.0


From b854253d2ee8ac5215e0a5f6a733b8b863c32a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:05 +0000
Subject: [PATCH 09/26] fix: doubling a divisor must not overflow the digit
 type

With digits that use all bits of their type (bignum_lowp/medp/highp) the carry
was lost and the reduction divided by (bn_single)(max+1), which is zero: most
native-precision divisions died with SIGFPE.
---
 include/bignum/impl/bn_division_impl.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/bignum/impl/bn_division_impl.h b/include/bignum/impl/bn_division_impl.h
index ed28528..54405ff 100644
--- a/include/bignum/impl/bn_division_impl.h
+++ b/include/bignum/impl/bn_division_impl.h
@@ -10,12 +10,11 @@ void abs_val_div(
     const container_t& divisor
 ) {
     typedef typename limits_t::base_single bn_single;
-    typedef typename limits_t::base_double bn_double;
     
     // numerical limits
-    static constexpr bn_double SINGLE_BASE_LIMIT = bn_max_limit<bn_single>() + (bn_double)1;
-    static constexpr bn_double SINGLE_BASE_MAX = bn_max_limit<bn_single>();
-    static constexpr bn_double SINGLE_BASE_MIN = bn_min_limit<bn_single>();
+    static constexpr bn_u64_t SINGLE_BASE_LIMIT = bn_max_limit<bn_single>() + (bn_u64_t)1;
+    static constexpr bn_u64_t SINGLE_BASE_MAX = bn_max_limit<bn_single>();
+    static constexpr bn_u64_t SINGLE_BASE_MIN = bn_min_limit<bn_single>();
     
     const auto shift_left_1 = [](container_t& container)->void
     {
@@ -29,10 +28,9 @@ void abs_val_div(
 
         while (curr < container.size())
         {
-            bn_single temp = (container[curr] * (bn_single)2) + carry;
-            container[curr] = temp;
-            carry = (bn_single)(temp > (bn_single)SINGLE_BASE_MAX ? 1 : 0);
-            container[curr] = temp % (bn_single)SINGLE_BASE_LIMIT;
+            const bn_u64_t temp = ((bn_u64_t)container[curr] * 2) + (bn_u64_t)carry;
+            carry = (bn_single)(temp > SINGLE_BASE_MAX ? 1 : 0);
+            container[curr] = (bn_single)(temp % SINGLE_BASE_LIMIT);
             ++curr;
         }
 
-- 
2.43.0


From 272c581016ea166c0c5824a2d664ea0bd9a2196c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:05 +0000
Subject: [PATCH 10/26] fix: the FFT of an empty list must not recurse forever

0 * 0 multiplies two numbers without digits and overflowed the stack.
---
 include/bignum/impl/fourier_impl.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/bignum/impl/fourier_impl.h b/include/bignum/impl/fourier_impl.h
index 10ecdb3..55462a2 100644
--- a/include/bignum/impl/fourier_impl.h
+++ b/include/bignum/impl/fourier_impl.h
@@ -45,8 +45,7 @@ void fft_complex(cmplx_list_t<flt_t>& x) {
     const cmplx_size_t<flt_t> len = x.size();
     
     // base case
-    if (len == 1) {
-        x = cmplx_list_t<flt_t>{x[0]};
+    if (len <= 1) {
         return;
     }
 
-- 
2.43.0


From 82af2311a9125f09d502c7687287a99a634ffc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:05 +0000
Subject: [PATCH 11/26] fix: mul_naive must accumulate in an integer wider than
 a digit

Products and carries were accumulated in the digit type, which is too narrow
for bignum_lowp, bignum_medp and bignum_highp.
---
 include/bignum/impl/bn_multiplication_impl.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index be54d91..ea928f9 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -67,9 +67,9 @@ container_t mul_strassen(const container_t& a, const container_t& b) {
 ///////////////////////////////////////////////////////////////////////////////
 template <typename limits_t, typename container_t>
 container_t mul_naive(const container_t& a, const container_t& b) {
-    typedef typename limits_t::base_double bn_double;
+    typedef typename limits_t::base_single bn_single;
     typedef typename container_t::size_type big_size_type;
-    static constexpr bn_double NUM_BASE = (bn_double)limits_t::SINGLE_BASE_MAX+(bn_double)1;
+    static constexpr bn_u64_t NUM_BASE = (bn_u64_t)limits_t::SINGLE_BASE_MAX+(bn_u64_t)1;
     
     container_t ret{};
     
@@ -81,17 +81,17 @@ container_t mul_naive(const container_t& a, const container_t& b) {
     
     ret.resize(totalLen);
     
-    for (unsigned i = 0; i < b.size(); ++i) {
-        unsigned remainder = 0;
+    for (big_size_type i = 0; i < b.size(); ++i) {
+        bn_u64_t remainder = 0;
         
-        for (unsigned j = 0; j < a.size(); ++j) {
+        for (big_size_type j = 0; j < a.size(); ++j) {
             const big_size_type index = i + j;
-            ret[index] += remainder + a[j] * b[i];
-            remainder = ret[index] / NUM_BASE;
-            ret[index] = ret[index] % NUM_BASE;
+            const bn_u64_t digit = (bn_u64_t)ret[index] + remainder + (bn_u64_t)a[j] * (bn_u64_t)b[i];
+            remainder = digit / NUM_BASE;
+            ret[index] = (bn_single)(digit % NUM_BASE);
         }
         
-        ret[i+a.size()] += remainder;
+        ret[i+a.size()] = (bn_single)remainder;
     }
     
     return ret;
-- 
2.43.0


From f9cd191214a6fcb54f34826c346b31d4f00cdd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:05 +0000
Subject: [PATCH 12/26] fix: mul_strassen must round its coefficients to an
 integer wider than a digit

A coefficient of the convolution is a sum of many digit products. Converting it
to base_double overflowed for 16 products of 8-bit digits, 256 binary digits
or 1338 octal digits.
---
 include/bignum/impl/bn_multiplication_impl.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index ea928f9..fab2c7a 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -16,9 +16,9 @@ template <typename limits_t, typename container_t>
 container_t mul_strassen(const container_t& a, const container_t& b) {
     // Default type is double. Use floats if they perform well enough.
     typedef double flt_t;
-    typedef typename limits_t::base_double bn_double;
+    typedef typename limits_t::base_single bn_single;
     typedef typename container_t::size_type big_size_type;
-    static constexpr bn_double NUM_BASE = bn_double{limits_t::SINGLE_BASE_MAX+1};
+    static constexpr bn_u64_t NUM_BASE = (bn_u64_t)limits_t::SINGLE_BASE_MAX+(bn_u64_t)1;
     
 	// building a complex signal with the information of both signals.
     cmplx_list_t<flt_t> fftTable = std::move(create_fft_table<container_t, flt_t>(a, b));
@@ -36,9 +36,9 @@ container_t mul_strassen(const container_t& a, const container_t& b) {
         const flt_t x = inverses[i].real();
         
         // round to an integer
-        const bn_double ci = (bn_double)(c + std::floor(x + 0.5));
+        const bn_u64_t ci = (bn_u64_t)(c + std::floor(x + 0.5));
         
-        ret.push_back(ci % NUM_BASE);
+        ret.push_back((bn_single)(ci % NUM_BASE));
 
         // carry propagation
         c = (ci / NUM_BASE);
-- 
2.43.0


From b2edd29b07164294ac48d816671b03a527e2d855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 13/26] fix: do not use the FFT where a double cannot hold the
 digit products

Products of 32-bit digits (bignum_highp, the default bignum) need 64 bits plus
the logarithm of the length, but a double has 53: most products of such
numbers were wrong. Fall back to mul_naive outside the exact range.
---
 include/bignum/impl/bn_multiplication_impl.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index fab2c7a..b6d241c 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -20,6 +20,21 @@ container_t mul_strassen(const container_t& a, const container_t& b) {
     typedef typename container_t::size_type big_size_type;
     static constexpr bn_u64_t NUM_BASE = (bn_u64_t)limits_t::SINGLE_BASE_MAX+(bn_u64_t)1;
     
+    // The sums of digit products must remain well within the precision of a
+    // double for the transform to be exact.
+    static constexpr bn_u64_t MAX_EXACT_SUM = (bn_u64_t)1 << 40;
+    static constexpr bn_u64_t MAX_PRODUCT = (NUM_BASE-1) * (NUM_BASE-1);
+    
+    if ((a.size() + b.size()) > MAX_EXACT_SUM / MAX_PRODUCT) {
+        container_t product = mul_naive<limits_t, container_t>(a, b);
+        
+        while (!product.empty() && 0 == product.back()) {
+            product.pop_back();
+        }
+        
+        return product;
+    }
+    
 	// building a complex signal with the information of both signals.
     cmplx_list_t<flt_t> fftTable = std::move(create_fft_table<container_t, flt_t>(a, b));
     
-- 
2.43.0


From 2e293adb115e34b950bd7a4ac918bc89365bdacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 14/26] fix: nextPow2 must consider all bits of 64-bit integers

nextPow2((1<<32)+1) was (1<<33)-1: the upper half was never folded down.
---
 include/bignum/impl/fourier_impl.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/bignum/impl/fourier_impl.h b/include/bignum/impl/fourier_impl.h
index 55462a2..005dcdd 100644
--- a/include/bignum/impl/fourier_impl.h
+++ b/include/bignum/impl/fourier_impl.h
@@ -27,11 +27,9 @@ num_t nextPow2(num_t n) {
     }
 
     --n;
-    n |= n >> 1;
-    n |= n >> 2;
-    n |= n >> 4;
-    n |= n >> 8;
-    n |= n >> 16;
+    for (unsigned shift = 1; shift < sizeof(num_t) * 8; shift *= 2) {
+        n |= n >> shift;
+    }
     return ++n;
 }
 
-- 
2.43.0


From 22b9a238b2366921b7ec912ea7266a4c587eb65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 15/26] fix: rethrow the original exception instead of a sliced
 copy

'throw e' copied the std::bad_alloc into a plain std::exception, so a caller
could not recognise an allocation failure.
---
 include/bignum/impl/bn_type_impl.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index e1115c4..a0eeeef 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -525,13 +525,13 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
             abs_val_add<limits_t, container_t>(numData, num.numData);
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
     
     descriptor = bn_signed_desc(descriptor, numData);
@@ -592,13 +592,13 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
             }
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
     
     descriptor = bn_signed_desc(descriptor, numData);
@@ -641,13 +641,13 @@ Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
         ret.numData = std::move(mul_strassen<limits_t, container_t>(numData, num.numData));
         *this = std::move(ret);
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
 
         numData.clear();
 
-        throw e;
+        throw;
     }
 
     descriptor = bn_signed_desc(descriptor, numData);
@@ -717,13 +717,13 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
             numData = {bn_single{0}};
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
 
     descriptor = bn_signed_desc(descriptor, numData);
-- 
2.43.0


From 61daf88f4eee4ef98ee3348b1d865abc4f348545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 16/26] fix: a failed copy assignment must not change the sign
 of the target

The descriptor was assigned before the digits, whose copy may throw.
---
 include/bignum/impl/bn_type_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index a0eeeef..33fbedb 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -409,8 +409,8 @@ bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
 template <class limits_t, class container_t>
 inline Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator=(const Bignum& num) {
-    descriptor = num.descriptor;
     numData = num.numData;
+    descriptor = num.descriptor;
     return *this;
 }
 
-- 
2.43.0


From 8f3f45a956afadfa0688d3be9d9cca222c9dcc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 17/26] fix: move construction leaves a positive number behind,
 like move assignment

The digits were moved out but the descriptor stayed, leaving -0, or a NaN or
infinity, in the source. The constructor assigned its own descriptor twice.
---
 include/bignum/impl/bn_type_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 33fbedb..312c8ed 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -118,7 +118,7 @@ inline Bignum<limits_t, container_t>::Bignum(Bignum&& num) :
     descriptor{num.descriptor},
     numData{std::move(num.numData)}
 {
-    descriptor = num.descriptor;
+    num.descriptor = BN_POS;
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 2498adf4bf1e9d44e99b056fc4353b0fe7461f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:03 +0000
Subject: [PATCH 18/26] fix: NaN and infinities must propagate through
 arithmetic

NaN + 5, INF - 5 and INF * 5 were 0 (the descriptor was taken from the finite
operand), and a NaN or infinite right operand was treated as a negative zero.
---
 include/bignum/impl/bn_type_impl.h | 57 +++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 8 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 312c8ed..afa01ce 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -52,6 +52,23 @@ inline bn_desc_t bn_signed_desc(bn_desc_t desc, const container_t& data) {
     return (desc == BN_NEG && !abs_val_num_digits<container_t>(data)) ? BN_POS : desc;
 }
 
+///////////////////////////////////////////////////////////////////////////////
+// Get the descriptor of a sum with at least one NaN or infinite operand.
+///////////////////////////////////////////////////////////////////////////////
+inline bn_desc_t bn_non_finite_sum(bn_desc_t lhs, bn_desc_t rhs) {
+    if (lhs == BN_NAN || rhs == BN_NAN) {
+        return BN_NAN;
+    }
+    if (lhs == BN_POS || lhs == BN_NEG) {
+        return rhs;
+    }
+    if (rhs == BN_POS || rhs == BN_NEG) {
+        return lhs;
+    }
+    
+    return (lhs == rhs) ? lhs : BN_NAN;
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 // Constructor
 ///////////////////////////////////////////////////////////////////////////////
@@ -480,9 +497,9 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
     
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        descriptor = bn_non_finite_sum(descriptor, num.descriptor);
         numData.clear();
-        descriptor = num.descriptor;
         return *this;
     }
     
@@ -547,9 +564,15 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
     
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        bn_desc_t negated = num.descriptor;
+        
+        if (num.isInfinite()) {
+            negated = num.isNegative() ? BN_POS_INF : BN_NEG_INF;
+        }
+        
+        descriptor = bn_non_finite_sum(descriptor, negated);
         numData.clear();
-        descriptor = num.descriptor;
         return *this;
     }
     
@@ -614,9 +637,18 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
 
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        const bool hasZero = (isComputable(descriptor) && !abs_val_num_digits<container_t>(numData))
+            || (isComputable(num.descriptor) && !abs_val_num_digits<container_t>(num.numData));
+        
+        if (isNan() || num.isNan() || hasZero) {
+            descriptor = BN_NAN;
+        }
+        else {
+            descriptor = (isNegative() == num.isNegative()) ? BN_POS_INF : BN_NEG_INF;
+        }
+        
         numData.clear();
-        descriptor = num.descriptor;
         return *this;
     }
 
@@ -663,9 +695,18 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
 
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        if (isNan() || num.isNan() || (isInfinite() && num.isInfinite())) {
+            descriptor = BN_NAN;
+        }
+        else if (num.isInfinite()) {
+            descriptor = BN_POS;
+        }
+        else {
+            descriptor = (isNegative() == num.isNegative()) ? BN_POS_INF : BN_NEG_INF;
+        }
+        
         numData.clear();
-        descriptor = num.descriptor;
         return *this;
     }
 
-- 
2.43.0


From b0023d505bed7ecd1bb6b7637c49e5ada95f09a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:03 +0000
Subject: [PATCH 19/26] fix: order infinities and NaN

Infinities compared as if they were zero and NaN was ordered like a number:
+INF < 5 and NaN < 5 were true.
---
 include/bignum/impl/bn_type_impl.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index afa01ce..6d579da 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -69,6 +69,13 @@ inline bn_desc_t bn_non_finite_sum(bn_desc_t lhs, bn_desc_t rhs) {
     return (lhs == rhs) ? lhs : BN_NAN;
 }
 
+///////////////////////////////////////////////////////////////////////////////
+// Order of infinities relative to each other and to all finite numbers.
+///////////////////////////////////////////////////////////////////////////////
+inline int bn_desc_order(bn_desc_t desc) {
+    return (desc == BN_POS_INF) ? 1 : (desc == BN_NEG_INF) ? -1 : 0;
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 // Constructor
 ///////////////////////////////////////////////////////////////////////////////
@@ -340,6 +347,10 @@ bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
     const bn_desc_t lhs = bn_signed_desc(this->descriptor, this->numData);
     const bn_desc_t rhs = bn_signed_desc(num.descriptor, num.numData);
     
+    if (!isComputable(lhs) || !isComputable(rhs)) {
+        return lhs != BN_NAN && rhs != BN_NAN && bn_desc_order(lhs) > bn_desc_order(rhs);
+    }
+    
     if (lhs == BN_POS && rhs == BN_NEG) {
         return true;
     }
@@ -362,6 +373,10 @@ bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
     const bn_desc_t lhs = bn_signed_desc(this->descriptor, this->numData);
     const bn_desc_t rhs = bn_signed_desc(num.descriptor, num.numData);
     
+    if (!isComputable(lhs) || !isComputable(rhs)) {
+        return lhs != BN_NAN && rhs != BN_NAN && bn_desc_order(lhs) >= bn_desc_order(rhs);
+    }
+    
     if (lhs == BN_POS && rhs == BN_NEG) {
         return true;
     }
@@ -384,6 +399,10 @@ bool Bignum<limits_t, container_t>::operator < (const Bignum& num) const {
     const bn_desc_t lhs = bn_signed_desc(this->descriptor, this->numData);
     const bn_desc_t rhs = bn_signed_desc(num.descriptor, num.numData);
     
+    if (!isComputable(lhs) || !isComputable(rhs)) {
+        return lhs != BN_NAN && rhs != BN_NAN && bn_desc_order(lhs) < bn_desc_order(rhs);
+    }
+    
     if (lhs == BN_POS && rhs == BN_NEG) {
         return false;
     }
@@ -406,6 +425,10 @@ bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
     const bn_desc_t lhs = bn_signed_desc(this->descriptor, this->numData);
     const bn_desc_t rhs = bn_signed_desc(num.descriptor, num.numData);
     
+    if (!isComputable(lhs) || !isComputable(rhs)) {
+        return lhs != BN_NAN && rhs != BN_NAN && bn_desc_order(lhs) <= bn_desc_order(rhs);
+    }
+    
     if (lhs == BN_POS && rhs == BN_NEG) {
         return false;
     }
-- 
2.43.0


From 7ccb44cedd9a1707a00777694bf791a82d9855f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:28 +0000
Subject: [PATCH 20/26] fix: stream 8-bit digits as numbers, not as characters

Numbers of base 2 and of the low precision printed raw control characters, and
an 8-bit BNIntType could not be read back from its own output.
---
 include/bignum/bn_int_type.h           |  1 +
 include/bignum/impl/bn_int_type_impl.h | 17 +++++++++++++++--
 include/bignum/impl/bn_type_impl.h     |  2 +-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/bignum/bn_int_type.h b/include/bignum/bn_int_type.h
index a403775..514e4eb 100644
--- a/include/bignum/bn_int_type.h
+++ b/include/bignum/bn_int_type.h
@@ -10,6 +10,7 @@
 
 #include <iostream>
 #include <limits>
+#include <type_traits>
 
 #include "bignum/bn_setup.h"
 
diff --git a/include/bignum/impl/bn_int_type_impl.h b/include/bignum/impl/bn_int_type_impl.h
index a77795f..3504ab2 100644
--- a/include/bignum/impl/bn_int_type_impl.h
+++ b/include/bignum/impl/bn_int_type_impl.h
@@ -235,10 +235,23 @@ constexpr BNIntType<numType, intId> BNIntType<numType, intId>::operator~() const
 ///////////////////////////////////////////////////////////////////////////////
 template <typename numType, BN_UINT64 intId>
 inline std::ostream& operator << (std::ostream& outStr, const BNIntType<numType, intId>& bni) {
-    return outStr << bni.num;
+    // promote 8-bit numbers, which would be printed as characters otherwise
+    return outStr << +bni.num;
 }
 
 template <typename numType, BN_UINT64 intId>
 inline std::istream& operator >> (std::istream& inStr, BNIntType<numType, intId>& bni) {
-    return inStr >> bni.num;
+    // don't let 8-bit numbers be read as characters
+    typename std::conditional<sizeof(numType) == 1, BN_UINT16, numType>::type n = 0;
+    
+    inStr >> n;
+    
+    if (n > std::numeric_limits<numType>::max()) {
+        n = std::numeric_limits<numType>::max();
+        inStr.setstate(std::ios_base::failbit);
+    }
+    
+    bni.num = (numType)n;
+    
+    return inStr;
 }
diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 6d579da..57ac194 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -38,7 +38,7 @@ std::ostream& operator << (std::ostream& ostr, const Bignum<limits_t, container_
     
     typename Bignum<limits_t, container_t>::container_type::size_type iter = numList.size();
     while (iter--) {
-        ostr << numList[iter];
+        ostr << +numList[iter]; // print 8-bit digits as numbers, not as characters
     }
 
     return ostr;
-- 
2.43.0


From 916e2187328240cd4b1eab82cb2bf5dbdbfec6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:23 +0000
Subject: [PATCH 21/26] fix: multiplying 16-bit BNIntTypes must not overflow
 int

65535 * 65535 was computed in (signed) int, which is undefined behaviour and
does not compile in a constant expression.
---
 include/bignum/impl/bn_int_type_impl.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/bignum/impl/bn_int_type_impl.h b/include/bignum/impl/bn_int_type_impl.h
index 3504ab2..42e657e 100644
--- a/include/bignum/impl/bn_int_type_impl.h
+++ b/include/bignum/impl/bn_int_type_impl.h
@@ -120,29 +120,38 @@ constexpr BNIntType<numType, intId> BNIntType<numType, intId>::operator~() const
     return BNIntType<numType, intId>{(numType)~num};
 }
 
+///////////////////////////////////////////////////////////////////////////////
+// Small unsigned numbers would be promoted to "int," which cannot hold all of
+// the products of 16-bit numbers. Keep them unsigned.
+///////////////////////////////////////////////////////////////////////////////
+template <typename numType>
+using bn_promoted_t = typename std::conditional<
+    std::is_unsigned<numType>::value && (sizeof(numType) < sizeof(unsigned)), unsigned, numType
+>::type;
+
 ///////////////////////////////////////////////////////////////////////////////
 // Binary operators returning a bn_int_type type
 ///////////////////////////////////////////////////////////////////////////////
 #define BN_INT_TYPE_BINARY_OP(op) \
     template <typename numType, BN_UINT64 intId> \
     constexpr BNIntType<numType, intId> BNIntType<numType, intId>::operator op (const BNIntType<numType, intId>& bni) const { \
-        return BNIntType<numType, intId>{(numType)(num op bni.num)}; \
+        return BNIntType<numType, intId>{(numType)((bn_promoted_t<numType>)num op bni.num)}; \
     } \
     \
     template <typename numType, BN_UINT64 intId> \
     constexpr BNIntType<numType, intId> BNIntType<numType, intId>::operator op (const numType& n) const { \
-        return BNIntType<numType, intId>{(numType)(num op n)}; \
+        return BNIntType<numType, intId>{(numType)((bn_promoted_t<numType>)num op n)}; \
     } \
     \
     template <typename numType, BN_UINT64 intId> \
     inline BNIntType<numType, intId>& BNIntType<numType, intId>::operator op##= (const BNIntType<numType, intId>& bni) { \
-        num op##= bni.num; \
+        num = (numType)((bn_promoted_t<numType>)num op bni.num); \
         return *this; \
     } \
     \
     template <typename numType, BN_UINT64 intId> \
     inline BNIntType<numType, intId>& BNIntType<numType, intId>::operator op##= (const numType& n) { \
-        num op##= n; \
+        num = (numType)((bn_promoted_t<numType>)num op n); \
         return *this; \
     }
     
@@ -190,12 +199,12 @@ constexpr BNIntType<numType, intId> BNIntType<numType, intId>::operator~() const
 #define BN_INT_TYPE_BINARY_OP_R(op) \
     template <typename numType, BN_UINT64 intId> \
     constexpr numType operator op (const numType& n, const BNIntType<numType, intId>& bni) { \
-        return n op bni.num; \
+        return (numType)((bn_promoted_t<numType>)n op bni.num); \
     } \
     \
     template <typename numType, BN_UINT64 intId> \
     inline numType& operator op##= (numType& n, const BNIntType<numType, intId>& bni) { \
-        return n op##= bni.num; \
+        return n = (numType)((bn_promoted_t<numType>)n op bni.num); \
     }
 
     // Non-Assigned arithmetic
-- 
2.43.0


From dd16b231f919db4fbbe9c8f70c08be3583d7aa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:23 +0000
Subject: [PATCH 22/26] fix: document which end push/pop_front and
 push/pop_back work on

The comments had the magnitudes the wrong way around: digits are stored from
low to high, and the front is the digit of lowest magnitude (the compression
test relies on it).
---
 include/bignum/bn_type.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bignum/bn_type.h b/include/bignum/bn_type.h
index 78cc93a..6b34a79 100644
--- a/include/bignum/bn_type.h
+++ b/include/bignum/bn_type.h
@@ -215,7 +215,7 @@ class Bignum final {
         typename container_type::size_type size() const;
         
         /**
-         * Push a single digit to the position of highest magnitude within this
+         * Push a single digit to the position of lowest magnitude within this
          * object's internal container.
          * 
          * @param bn_single
@@ -223,13 +223,13 @@ class Bignum final {
         void push_front(bn_single digit);
         
         /**
-         * Remove a single digit from the position of highest magnitude within
+         * Remove a single digit from the position of lowest magnitude within
          * this object's internal container.
          */
         void pop_front();
         
         /**
-         * Push a single digit to the position of lowest magnitude within this
+         * Push a single digit to the position of highest magnitude within this
          * object's internal container.
          * 
          * @param bn_single
@@ -238,7 +238,7 @@ class Bignum final {
         
         
         /**
-         * Remove a single digit from the position of lowest magnitude within
+         * Remove a single digit from the position of highest magnitude within
          * this object's internal container.
          */
         void pop_back();
-- 
2.43.0


From 14c8adb3b70fcf98fb0c48c424c8db8179fb3e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:55 +0000
Subject: [PATCH 23/26] fix: headers of the magnitude routines include what
 they use

---
 include/bignum/bn_addition.h       | 2 ++
 include/bignum/bn_division.h       | 5 +++++
 include/bignum/bn_multiplication.h | 2 ++
 include/bignum/bn_subtraction.h    | 4 ++++
 4 files changed, 13 insertions(+)

diff --git a/include/bignum/bn_addition.h b/include/bignum/bn_addition.h
index 72a2ccb..8afbbf8 100644
--- a/include/bignum/bn_addition.h
+++ b/include/bignum/bn_addition.h
@@ -9,6 +9,8 @@
 #ifndef __BN_ADDITION_H__
 #define __BN_ADDITION_H__
 
+#include "bignum/bn_limits.h"
+
 
         
 /**
diff --git a/include/bignum/bn_division.h b/include/bignum/bn_division.h
index 13c2709..6fd3086 100644
--- a/include/bignum/bn_division.h
+++ b/include/bignum/bn_division.h
@@ -9,6 +9,11 @@
 #ifndef __BN_DIVISION_H__
 #define __BN_DIVISION_H__
 
+#include "bignum/bn_limits.h"
+#include "bignum/bn_compare.h"
+#include "bignum/bn_addition.h"
+#include "bignum/bn_subtraction.h"
+
 
         
 /**
diff --git a/include/bignum/bn_multiplication.h b/include/bignum/bn_multiplication.h
index 0b3f3dd..a1c5384 100644
--- a/include/bignum/bn_multiplication.h
+++ b/include/bignum/bn_multiplication.h
@@ -8,6 +8,8 @@
 #ifndef __BN_MULTIPLICATION_H__
 #define	__BN_MULTIPLICATION_H__
 
+#include "bignum/bn_limits.h"
+
 
 
 /**
diff --git a/include/bignum/bn_subtraction.h b/include/bignum/bn_subtraction.h
index 794d598..4b75bc1 100644
--- a/include/bignum/bn_subtraction.h
+++ b/include/bignum/bn_subtraction.h
@@ -8,6 +8,10 @@
 #ifndef __BN_SUBTRACTION_H__
 #define	__BN_SUBTRACTION_H__
 
+#include "bignum/bn_limits.h"
+#include "bignum/bn_except.h"
+#include "bignum/bn_compare.h"
+
 
 
 /**
-- 
2.43.0


From 7ddbf7aea9708dcd4f8efa4a9384889ae731a482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:38 +0000
Subject: [PATCH 24/26] fix: digits stay unsigned when printed

Integer promotion made digits of 8 and 16 bits signed, so that a stream
with std::showpos printed a '+' in front of each of them.
---
 include/bignum/impl/bn_int_type_impl.h | 2 +-
 include/bignum/impl/bn_type_impl.h     | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bignum/impl/bn_int_type_impl.h b/include/bignum/impl/bn_int_type_impl.h
index 42e657e..b029aed 100644
--- a/include/bignum/impl/bn_int_type_impl.h
+++ b/include/bignum/impl/bn_int_type_impl.h
@@ -245,7 +245,7 @@ using bn_promoted_t = typename std::conditional<
 template <typename numType, BN_UINT64 intId>
 inline std::ostream& operator << (std::ostream& outStr, const BNIntType<numType, intId>& bni) {
     // promote 8-bit numbers, which would be printed as characters otherwise
-    return outStr << +bni.num;
+    return outStr << (bn_promoted_t<numType>)bni.num;
 }
 
 template <typename numType, BN_UINT64 intId>
diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 57ac194..124fec2 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -38,7 +38,8 @@ std::ostream& operator << (std::ostream& ostr, const Bignum<limits_t, container_
     
     typename Bignum<limits_t, container_t>::container_type::size_type iter = numList.size();
     while (iter--) {
-        ostr << +numList[iter]; // print 8-bit digits as numbers, not as characters
+        // print 8-bit digits as numbers, not as characters
+        ostr << (bn_promoted_t<typename container_t::value_type>)numList[iter];
     }
 
     return ostr;
-- 
2.43.0


From bf3504c56065f0e80c009599f0f49876aa733095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:38 +0000
Subject: [PATCH 25/26] fix: a digit keeps its value when nothing can be read

A stream that has already failed leaves a number that is read from it
unchanged.
---
 include/bignum/impl/bn_int_type_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_int_type_impl.h b/include/bignum/impl/bn_int_type_impl.h
index b029aed..7ad8bc8 100644
--- a/include/bignum/impl/bn_int_type_impl.h
+++ b/include/bignum/impl/bn_int_type_impl.h
@@ -251,7 +251,7 @@ inline std::ostream& operator << (std::ostream& outStr, const BNIntType<numType,
 template <typename numType, BN_UINT64 intId>
 inline std::istream& operator >> (std::istream& inStr, BNIntType<numType, intId>& bni) {
     // don't let 8-bit numbers be read as characters
-    typename std::conditional<sizeof(numType) == 1, BN_UINT16, numType>::type n = 0;
+    typename std::conditional<sizeof(numType) == 1, BN_UINT16, numType>::type n = bni.num;
     
     inStr >> n;
     
-- 
2.43.0


From c883fe70b3d6b7ce16d671d84ee0ad40f545c1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:14 +0000
Subject: [PATCH 26/26] fix: a width pads the number, not its first digit or
 its sign

---
 include/bignum/impl/bn_type_impl.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 124fec2..8eaf903 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -5,6 +5,8 @@
  * Created on July 18, 2014, 12:45 PM
  */
 
+#include <sstream>
+
 #include "bignum/bn_compare.h"
 #include "bignum/bn_addition.h"
 #include "bignum/bn_subtraction.h"
@@ -16,6 +18,15 @@
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 std::ostream& operator << (std::ostream& ostr, const Bignum<limits_t, container_t>& num) {
+    if (ostr.width() > 0) {
+        // the padding goes around the number, not between its digits
+        std::ostringstream text;
+        text.copyfmt(ostr);
+        text.width(0);
+        text << num;
+        return ostr << text.str();
+    }
+    
     if (num.getDescriptor() == BN_NEG) {
         ostr << '-';
     }
-- 
2.43.0

