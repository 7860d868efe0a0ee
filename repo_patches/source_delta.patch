From 38aaae4d2d2dc25d5be8166e136e6033560e4493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:46 +0000
Subject: [PATCH 01/11] fix: include <cstdint> in int.hpp, which uses int8_t
 and uint8_t

Without it the header does not compile on its own with current compilers.
---
 include/lexi/int.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lexi/int.hpp b/include/lexi/int.hpp
index bd6e3ae..fb493a0 100644
--- a/include/lexi/int.hpp
+++ b/include/lexi/int.hpp
@@ -9,6 +9,8 @@
 
 #include "detail/fmt.hpp"
 
+#include <cstdint>
+
 
 namespace lexi
 {
-- 
2.43.0


From 4de5d3117d9ab5bf3e9b1ecd2ba8dca234ebfaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:46 +0000
Subject: [PATCH 02/11] fix: read past the power-of-10 table when formatting
 doubles

Grisu2 generates up to 17 fractional digits, but the table ended at 10^9:
for most doubles the last digit was rounded with whatever lay behind it.
---
 src/detail/dtoa.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/detail/dtoa.cpp b/src/detail/dtoa.cpp
index d925785..efcacda 100644
--- a/src/detail/dtoa.cpp
+++ b/src/detail/dtoa.cpp
@@ -31,7 +31,13 @@ static const char DIGITS[200] = {
     '9', '0', '9', '1', '9', '2', '9', '3', '9', '4', '9', '5', '9', '6', '9', '7', '9', '8', '9', '9'
 };
 static const char *DIGITS_PTR = DIGITS;
-static const uint32_t POWER10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000};
+static const uint64_t POWER10[] = {
+    1ULL, 10ULL, 100ULL, 1000ULL, 10000ULL, 100000ULL, 1000000ULL, 10000000ULL,
+    100000000ULL, 1000000000ULL, 10000000000ULL, 100000000000ULL,
+    1000000000000ULL, 10000000000000ULL, 100000000000000ULL,
+    1000000000000000ULL, 10000000000000000ULL, 100000000000000000ULL,
+    1000000000000000000ULL, 10000000000000000000ULL
+};
 static const uint64_t CACHED_POWERS_F[] = {
     0XFA8FD5A0081C0288ULL,
     0XBAAEE17FA23EBF76ULL,
-- 
2.43.0


From de7430fd28cc2afb29844e31dcd3c9d9fe38fb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:22 +0000
Subject: [PATCH 03/11] fix: copies of integer and float formatters pointed
 into the original

The implicit copy operations copied the pointers into the source object's
buffer, so a copy changed with, or outlived, the object it was made from.
---
 include/lexi/float.hpp |  2 ++
 include/lexi/int.hpp   |  2 ++
 src/float.cpp          | 21 +++++++++++++++++++++
 src/int.cpp            | 23 +++++++++++++++++++++++
 4 files changed, 48 insertions(+)

diff --git a/include/lexi/float.hpp b/include/lexi/float.hpp
index caf710e..d0dbec1 100644
--- a/include/lexi/float.hpp
+++ b/include/lexi/float.hpp
@@ -31,6 +31,8 @@ public:
     FormatFloat(float value);
     FormatFloat(double value);
     FormatFloat(long double value);
+    FormatFloat(const FormatFloat &other);
+    FormatFloat & operator=(const FormatFloat &other);
 
     // DATA
     size_t size() const;
diff --git a/include/lexi/int.hpp b/include/lexi/int.hpp
index fb493a0..18759ec 100644
--- a/include/lexi/int.hpp
+++ b/include/lexi/int.hpp
@@ -38,6 +38,8 @@ public:
     FormatInt(unsigned long value);
     FormatInt(long long value);
     FormatInt(unsigned long long value);
+    FormatInt(const FormatInt &other);
+    FormatInt & operator=(const FormatInt &other);
 
     // DATA
     size_t size() const;
diff --git a/src/float.cpp b/src/float.cpp
index 52f7535..2265f9d 100644
--- a/src/float.cpp
+++ b/src/float.cpp
@@ -68,6 +68,27 @@ FormatFloat::FormatFloat(long double value)
 }
 
 
+/** \brief Copy constructor, must point to own buffer.
+ */
+FormatFloat::FormatFloat(const FormatFloat &other)
+{
+    *this = other;
+}
+
+
+/** \brief Copy assignment operator, must point to own buffer.
+ */
+FormatFloat & FormatFloat::operator=(const FormatFloat &other)
+{
+    if (this != &other) {
+        memcpy(buffer_, other.buffer_, sizeof(buffer_));
+        first = buffer_ + (other.first - other.buffer_);
+        last = buffer_ + (other.last - other.buffer_);
+    }
+    return *this;
+}
+
+
 /** \brief Size of current buffer.
  */
 size_t FormatFloat::size() const
diff --git a/src/int.cpp b/src/int.cpp
index 93884db..0e06e38 100644
--- a/src/int.cpp
+++ b/src/int.cpp
@@ -9,6 +9,8 @@
 #include "lexi/detail/architecture.hpp"
 #include "lexi/detail/itoa.hpp"
 
+#include <cstring>
+
 
 namespace lexi
 {
@@ -110,6 +112,27 @@ FormatInt::FormatInt(unsigned long long value)
 }
 
 
+/** \brief Copy constructor, must point to own buffer.
+ */
+FormatInt::FormatInt(const FormatInt &other)
+{
+    *this = other;
+}
+
+
+/** \brief Copy assignment operator, must point to own buffer.
+ */
+FormatInt & FormatInt::operator=(const FormatInt &other)
+{
+    if (this != &other) {
+        memcpy(buffer_, other.buffer_, sizeof(buffer_));
+        first = buffer_ + (other.first - other.buffer_);
+        last = buffer_ + (other.last - other.buffer_);
+    }
+    return *this;
+}
+
+
 /** \brief Number of characters written to the output buffer.
  */
 size_t FormatInt::size() const
-- 
2.43.0


From 07ba3c873e16afa817bf03865fabb54f96604c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:22 +0000
Subject: [PATCH 04/11] fix: BigInteger shift by a multiple of 64 bits lost all
 but the top digit

---
 src/detail/bigint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detail/bigint.cpp b/src/detail/bigint.cpp
index b3cfba8..0917ad5 100644
--- a/src/detail/bigint.cpp
+++ b/src/detail/bigint.cpp
@@ -331,7 +331,7 @@ BigInteger & BigInteger::operator<<=(size_t shift)
     LEXI_ASSERT(count_ + offset <= capacity, "BigInteger::operator<<= would exceeds bounds.");
 
     if (interShift == 0) {
-        memmove(&digits_[count_ - 1 + offset], &digits_[count_ - 1], count_ * sizeof(uint64_t));
+        memmove(&digits_[offset], &digits_[0], count_ * sizeof(uint64_t));
         count_ += offset;
     }
     else {
-- 
2.43.0


From 03b70d4e963ddadc33a03ba3e3df8ba7214a14ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:22 +0000
Subject: [PATCH 05/11] fix: BigInteger shift wrote one digit past a full
 buffer

---
 src/detail/bigint.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/detail/bigint.cpp b/src/detail/bigint.cpp
index 0917ad5..fb32551 100644
--- a/src/detail/bigint.cpp
+++ b/src/detail/bigint.cpp
@@ -335,6 +335,7 @@ BigInteger & BigInteger::operator<<=(size_t shift)
         count_ += offset;
     }
     else {
+        LEXI_ASSERT(count_ + offset < capacity, "BigInteger::operator<<= would exceeds bounds.");
         digits_[count_] = 0;
         for (size_t i = count_; i > 0; i--) {
             digits_[i + offset] = (digits_[i] << interShift) | (digits_[i - 1] >> (INT64_BYTE - interShift));
-- 
2.43.0


From 82a97bc40d3c4fa06a11e5853c571c16aeabacba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:22 +0000
Subject: [PATCH 06/11] fix: BigInteger difference lost the borrow out of an
 all-ones digit

---
 src/detail/bigint.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/detail/bigint.cpp b/src/detail/bigint.cpp
index fb32551..ecc5d1f 100644
--- a/src/detail/bigint.cpp
+++ b/src/detail/bigint.cpp
@@ -409,11 +409,10 @@ bool BigInteger::difference(const BigInteger &other,
 
     uint64_t borrow = 0;
     for (size_t i = 0; i < a->count_; i++) {
-        uint64_t d = a->digits_[i] - borrow;
-        if (i < b->count_) {
-            d -= b->digits_[i];
-        }
-        borrow = (d > a->digits_[i]) ? 1 : 0;
+        const uint64_t x = a->digits_[i];
+        const uint64_t y = i < b->count_ ? b->digits_[i] : 0;
+        const uint64_t d = x - y - borrow;
+        borrow = (x < y || (x == y && borrow)) ? 1 : 0;
         out->digits_[i] = d;
         if (d != 0) {
             out->count_ = i + 1;
-- 
2.43.0


From ce0b5f84c1a027a662d4235d4bf921d707b6afac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:22 +0000
Subject: [PATCH 07/11] fix: round extracted floats once, to the requested type

Parsing to long double and then converting rounds twice, so some doubles
read back from their own formatted text were one ulp off.
---
 include/lexi/float.hpp |  2 +-
 src/float.cpp          | 18 ++++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/lexi/float.hpp b/include/lexi/float.hpp
index d0dbec1..c704079 100644
--- a/include/lexi/float.hpp
+++ b/include/lexi/float.hpp
@@ -54,7 +54,7 @@ public:
 class ExtractFloat
 {
 protected:
-    long double data_;
+    std::string data_;
 
 public:
     ExtractFloat(const std::string &string);
diff --git a/src/float.cpp b/src/float.cpp
index 2265f9d..d1ed337 100644
--- a/src/float.cpp
+++ b/src/float.cpp
@@ -10,6 +10,7 @@
 #include "lexi/detail/dtoa.hpp"
 #include "lexi/detail/ieee754.hpp"
 
+#include <cstdlib>
 #include <cstring>
 
 
@@ -155,18 +156,17 @@ FormatFloat::operator std::string() const
 }
 
 
-ExtractFloat::ExtractFloat(const std::string &string)
-{
-    // TODO: optimize this.
-    data_ = std::strtold(string.data(), nullptr);
-}
+ExtractFloat::ExtractFloat(const std::string &string):
+    data_(string)
+{}
 
 
 /** \brief Conversion to float.
  */
 ExtractFloat::operator float() const
 {
-    return data_;
+    // TODO: optimize this.
+    return std::strtof(data_.data(), nullptr);
 }
 
 
@@ -174,7 +174,8 @@ ExtractFloat::operator float() const
  */
 ExtractFloat::operator double() const
 {
-    return data_;
+    // TODO: optimize this.
+    return std::strtod(data_.data(), nullptr);
 }
 
 
@@ -182,7 +183,8 @@ ExtractFloat::operator double() const
  */
 ExtractFloat::operator long double() const
 {
-    return data_;
+    // TODO: optimize this.
+    return std::strtold(data_.data(), nullptr);
 }
 
 }   /* lexi */
-- 
2.43.0


From a25e31df10b7e1cf03920feb7a1352d60ca21c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:03 +0000
Subject: [PATCH 08/11] fix: configured literals of another length than the
 default ones

LEXI_TRUE, LEXI_FALSE and LEXI_NULL can be overridden, but their sizes and
buffers were those of "true", "false" and "null": shorter literals came out
with trailing nulls, and longer ones overran the buffer.
---
 include/lexi/bool.hpp |  2 +-
 include/lexi/null.hpp |  2 +-
 src/bool.cpp          | 10 ++++------
 src/float.cpp         |  4 ++++
 src/null.cpp          |  8 +++-----
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/lexi/bool.hpp b/include/lexi/bool.hpp
index 6acc629..2ccf30a 100644
--- a/include/lexi/bool.hpp
+++ b/include/lexi/bool.hpp
@@ -21,7 +21,7 @@ namespace lexi
 class FormatBool
 {
 protected:
-    char buffer_[6];
+    const char *buffer_;
     size_t size_;
 
 public:
diff --git a/include/lexi/null.hpp b/include/lexi/null.hpp
index a334706..f171fe0 100644
--- a/include/lexi/null.hpp
+++ b/include/lexi/null.hpp
@@ -21,7 +21,7 @@ namespace lexi
 class FormatNull
 {
 protected:
-    char buffer_[5];
+    const char *buffer_;
 
 public:
     FormatNull();
diff --git a/src/bool.cpp b/src/bool.cpp
index a67d1b4..daef15c 100644
--- a/src/bool.cpp
+++ b/src/bool.cpp
@@ -8,8 +8,6 @@
 #include "lexi/bool.hpp"
 #include "lexi/detail/define.hpp"
 
-#include <cstring>
-
 
 namespace lexi
 {
@@ -26,11 +24,11 @@ static const char FALSE_STRING[] = LEXI_FALSE;
 FormatBool::FormatBool(const bool b)
 {
     if (b) {
-        strncpy(buffer_, TRUE_STRING, sizeof(TRUE_STRING));
-        size_ = 4;
+        buffer_ = TRUE_STRING;
+        size_ = sizeof(TRUE_STRING) - 1;
     } else {
-        strncpy(buffer_, FALSE_STRING, sizeof(FALSE_STRING));
-        size_ = 5;
+        buffer_ = FALSE_STRING;
+        size_ = sizeof(FALSE_STRING) - 1;
     }
 }
 
diff --git a/src/float.cpp b/src/float.cpp
index d1ed337..fa80622 100644
--- a/src/float.cpp
+++ b/src/float.cpp
@@ -23,6 +23,10 @@ static const char NAN_STRING[] = LEXI_NAN;
 static const char INFINITY_STRING[] = LEXI_INFINITY;
 static const char NEGATIVE_INFINITY_STRING[] = LEXI_NEGATIVE_INFINITY;
 
+static_assert(sizeof(NAN_STRING) <= detail::FLOAT_SIZE, "LEXI_NAN is too long.");
+static_assert(sizeof(INFINITY_STRING) <= detail::FLOAT_SIZE, "LEXI_INFINITY is too long.");
+static_assert(sizeof(NEGATIVE_INFINITY_STRING) <= detail::FLOAT_SIZE, "LEXI_NEGATIVE_INFINITY is too long.");
+
 // OBJECTS
 // -------
 
diff --git a/src/null.cpp b/src/null.cpp
index 905a338..1c49826 100644
--- a/src/null.cpp
+++ b/src/null.cpp
@@ -8,8 +8,6 @@
 #include "lexi/null.hpp"
 #include "lexi/detail/define.hpp"
 
-#include <cstring>
-
 
 namespace lexi
 {
@@ -24,13 +22,13 @@ static const char NULL_STRING[] = LEXI_NULL;
 
 FormatNull::FormatNull()
 {
-    strncpy(buffer_, NULL_STRING, sizeof(NULL_STRING));
+    buffer_ = NULL_STRING;
 }
 
 
 FormatNull::FormatNull(const std::nullptr_t nullp)
 {
-    strncpy(buffer_, NULL_STRING, sizeof(NULL_STRING));
+    buffer_ = NULL_STRING;
 }
 
 
@@ -38,7 +36,7 @@ FormatNull::FormatNull(const std::nullptr_t nullp)
  */
 size_t FormatNull::size() const
 {
-    return 4;
+    return sizeof(NULL_STRING) - 1;
 }
 
 
-- 
2.43.0


From 5022535aa8a23ff958ea35f1a9758bae07ca7212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:03 +0000
Subject: [PATCH 09/11] fix: extract floats with a "." radix in every locale

strtod and friends use the radix character of the global locale, so in
many of them formatted floats were read back without their fraction.
---
 src/float.cpp | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/float.cpp b/src/float.cpp
index fa80622..d5e7c3e 100644
--- a/src/float.cpp
+++ b/src/float.cpp
@@ -10,6 +10,7 @@
 #include "lexi/detail/dtoa.hpp"
 #include "lexi/detail/ieee754.hpp"
 
+#include <cstdio>
 #include <cstdlib>
 #include <cstring>
 
@@ -27,6 +28,32 @@ static_assert(sizeof(NAN_STRING) <= detail::FLOAT_SIZE, "LEXI_NAN is too long.")
 static_assert(sizeof(INFINITY_STRING) <= detail::FLOAT_SIZE, "LEXI_INFINITY is too long.");
 static_assert(sizeof(NEGATIVE_INFINITY_STRING) <= detail::FLOAT_SIZE, "LEXI_NEGATIVE_INFINITY is too long.");
 
+// FUNCTIONS
+// ---------
+
+
+/** \brief Extract number with a '.' radix, whatever the global locale uses.
+ */
+template <typename T>
+static T extract(const std::string &string, T (*convert)(const char *, char **))
+{
+    // "0", the radix, and "5": localeconv() is not safe to use with threads.
+    char half[16];
+    const int length = snprintf(half, sizeof(half), "%.1f", 0.5);
+    const std::string radix(half + 1, length - 2);
+    if (radix == ".") {
+        return convert(string.data(), nullptr);
+    }
+
+    // The radix of the locale ends the number, and "." takes its place.
+    std::string copy(string, 0, string.find(radix));
+    size_t position = copy.find('.');
+    if (position != std::string::npos) {
+        copy.replace(position, 1, radix);
+    }
+    return convert(copy.data(), nullptr);
+}
+
 // OBJECTS
 // -------
 
@@ -170,7 +197,7 @@ ExtractFloat::ExtractFloat(const std::string &string):
 ExtractFloat::operator float() const
 {
     // TODO: optimize this.
-    return std::strtof(data_.data(), nullptr);
+    return extract(data_, &std::strtof);
 }
 
 
@@ -179,7 +206,7 @@ ExtractFloat::operator float() const
 ExtractFloat::operator double() const
 {
     // TODO: optimize this.
-    return std::strtod(data_.data(), nullptr);
+    return extract(data_, &std::strtod);
 }
 
 
@@ -188,7 +215,7 @@ ExtractFloat::operator double() const
 ExtractFloat::operator long double() const
 {
     // TODO: optimize this.
-    return std::strtold(data_.data(), nullptr);
+    return extract(data_, &std::strtold);
 }
 
 }   /* lexi */
-- 
2.43.0


From b61cd1c1f15eabcf0471229bc51273949a293bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:23 +0000
Subject: [PATCH 10/11] fix: lower boundary of the smallest normal double

Its lower neighbor is the largest denormal, at the same distance as its upper
neighbor, but the boundary was computed as if it were at half the distance.
---
 src/detail/diyfp.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/detail/diyfp.cpp b/src/detail/diyfp.cpp
index 9837698..3b6cb8c 100644
--- a/src/detail/diyfp.cpp
+++ b/src/detail/diyfp.cpp
@@ -225,7 +225,10 @@ DiyFp DiyFp::normalizeBoundary() const
 void DiyFp::normalizedBoundaries(DiyFp *minus, DiyFp *plus) const
 {
     DiyFp pl = DiyFp((f << 1) + 1, e - 1).normalizeBoundary();
-    DiyFp mi = (f == HIDDEN_BIT) ? DiyFp((f << 2) - 1, e - 2) : DiyFp((f << 1) - 1, e - 1);
+    // the lower neighbor is closer only if it has a smaller exponent, which
+    // the smallest normal double's, a denormal, does not
+    const bool closer = (f == HIDDEN_BIT && e != DP_MIN_EXPONENT + 1);
+    DiyFp mi = closer ? DiyFp((f << 2) - 1, e - 2) : DiyFp((f << 1) - 1, e - 1);
     mi.f <<= mi.e - pl.e;
     mi.e = pl.e;
     *plus = pl;
-- 
2.43.0


From b93b8c5f61abf53f8c1f1c07ee7ecd38f3d7cf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:09 +0000
Subject: [PATCH 11/11] fix: BigInteger difference stopped early when the
 output is an operand

The digit counts of the operands were read while the output's count
changed, so x.difference(y, &x) lost its upper digits.
---
 src/detail/bigint.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/detail/bigint.cpp b/src/detail/bigint.cpp
index ecc5d1f..7655511 100644
--- a/src/detail/bigint.cpp
+++ b/src/detail/bigint.cpp
@@ -407,10 +407,12 @@ bool BigInteger::difference(const BigInteger &other,
         ret = false;
     }
 
+    // the output may be one of the operands
+    const size_t aCount = a->count_, bCount = b->count_;
     uint64_t borrow = 0;
-    for (size_t i = 0; i < a->count_; i++) {
+    for (size_t i = 0; i < aCount; i++) {
         const uint64_t x = a->digits_[i];
-        const uint64_t y = i < b->count_ ? b->digits_[i] : 0;
+        const uint64_t y = i < bCount ? b->digits_[i] : 0;
         const uint64_t d = x - y - borrow;
         borrow = (x < y || (x == y && borrow)) ? 1 : 0;
         out->digits_[i] = d;
-- 
2.43.0

