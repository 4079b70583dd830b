From 4385ae3a826f1bacce5fd93b3209a646c5389f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:00 +0000
Subject: [PATCH 1/9] fix: read the digit-distance scale of Grisu2 inside its
 table

generateDigits() indexed POWER10[-kappa] with up to 17 fractional digits,
but the table only had 10 entries: an out-of-bounds read, and a wrong
last digit for about a quarter of all doubles (1.0903743148420288 was
printed as 1.0903743148420289).
---
 src/detail/dtoa.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/detail/dtoa.cpp b/src/detail/dtoa.cpp
index d925785..efcacda 100644
--- a/src/detail/dtoa.cpp
+++ b/src/detail/dtoa.cpp
@@ -31,7 +31,13 @@ static const char DIGITS[200] = {
     '9', '0', '9', '1', '9', '2', '9', '3', '9', '4', '9', '5', '9', '6', '9', '7', '9', '8', '9', '9'
 };
 static const char *DIGITS_PTR = DIGITS;
-static const uint32_t POWER10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000};
+static const uint64_t POWER10[] = {
+    1ULL, 10ULL, 100ULL, 1000ULL, 10000ULL, 100000ULL, 1000000ULL, 10000000ULL,
+    100000000ULL, 1000000000ULL, 10000000000ULL, 100000000000ULL,
+    1000000000000ULL, 10000000000000ULL, 100000000000000ULL,
+    1000000000000000ULL, 10000000000000000ULL, 100000000000000000ULL,
+    1000000000000000000ULL, 10000000000000000000ULL
+};
 static const uint64_t CACHED_POWERS_F[] = {
     0XFA8FD5A0081C0288ULL,
     0XBAAEE17FA23EBF76ULL,
-- 
2.43.0


From 1d515751df2023c09c4f767f219b889eb5c3940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:01 +0000
Subject: [PATCH 2/9] fix: make copies of FormatInt and FormatFloat own their
 text

The implicit copy kept pointers into the source object's buffer, so a
copy dangled once the source was destroyed and changed with it when the
source was assigned to.
---
 include/lexi/float.hpp |  3 +++
 include/lexi/int.hpp   |  3 +++
 src/float.cpp          | 21 +++++++++++++++++++++
 src/int.cpp            | 23 +++++++++++++++++++++++
 4 files changed, 50 insertions(+)

diff --git a/include/lexi/float.hpp b/include/lexi/float.hpp
index caf710e..4e10ece 100644
--- a/include/lexi/float.hpp
+++ b/include/lexi/float.hpp
@@ -32,6 +32,9 @@ public:
     FormatFloat(double value);
     FormatFloat(long double value);
 
+    FormatFloat(const FormatFloat &other);
+    FormatFloat & operator=(const FormatFloat &other);
+
     // DATA
     size_t size() const;
     size_t length() const;
diff --git a/include/lexi/int.hpp b/include/lexi/int.hpp
index bd6e3ae..689911b 100644
--- a/include/lexi/int.hpp
+++ b/include/lexi/int.hpp
@@ -37,6 +37,9 @@ public:
     FormatInt(long long value);
     FormatInt(unsigned long long value);
 
+    FormatInt(const FormatInt &other);
+    FormatInt & operator=(const FormatInt &other);
+
     // DATA
     size_t size() const;
     size_t length() const;
diff --git a/src/float.cpp b/src/float.cpp
index 52f7535..250bb0b 100644
--- a/src/float.cpp
+++ b/src/float.cpp
@@ -68,6 +68,27 @@ FormatFloat::FormatFloat(long double value)
 }
 
 
+/** \brief Copy constructor, the range must point to our own buffer.
+ */
+FormatFloat::FormatFloat(const FormatFloat &other)
+{
+    *this = other;
+}
+
+
+/** \brief Copy assignment operator.
+ */
+FormatFloat & FormatFloat::operator=(const FormatFloat &other)
+{
+    const size_t length = other.size();
+    memmove(buffer_, other.first, length + 1);
+    first = buffer_;
+    last = buffer_ + length;
+
+    return *this;
+}
+
+
 /** \brief Size of current buffer.
  */
 size_t FormatFloat::size() const
diff --git a/src/int.cpp b/src/int.cpp
index 93884db..91cd77c 100644
--- a/src/int.cpp
+++ b/src/int.cpp
@@ -9,6 +9,8 @@
 #include "lexi/detail/architecture.hpp"
 #include "lexi/detail/itoa.hpp"
 
+#include <cstring>
+
 
 namespace lexi
 {
@@ -110,6 +112,27 @@ FormatInt::FormatInt(unsigned long long value)
 }
 
 
+/** \brief Copy constructor, the range must point to our own buffer.
+ */
+FormatInt::FormatInt(const FormatInt &other)
+{
+    *this = other;
+}
+
+
+/** \brief Copy assignment operator.
+ */
+FormatInt & FormatInt::operator=(const FormatInt &other)
+{
+    const size_t length = other.size();
+    memmove(buffer_, other.first, length + 1);
+    first = buffer_;
+    last = buffer_ + length;
+
+    return *this;
+}
+
+
 /** \brief Number of characters written to the output buffer.
  */
 size_t FormatInt::size() const
-- 
2.43.0


From ee8497793eecf440a4109da101eab44d8666be2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:01 +0000
Subject: [PATCH 3/9] fix: round extracted floats once, to the requested type

ExtractFloat rounded to long double first and narrowed afterwards. The
double rounding made extraction of float and double inexact near a
rounding boundary, so some doubles did not survive being formatted and
extracted again (0x1.b9f63d49c4741p+114).
---
 include/lexi/float.hpp |  2 +-
 src/float.cpp          | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/lexi/float.hpp b/include/lexi/float.hpp
index 4e10ece..0169654 100644
--- a/include/lexi/float.hpp
+++ b/include/lexi/float.hpp
@@ -55,7 +55,7 @@ public:
 class ExtractFloat
 {
 protected:
-    long double data_;
+    std::string data_;
 
 public:
     ExtractFloat(const std::string &string);
diff --git a/src/float.cpp b/src/float.cpp
index 250bb0b..8e94a8b 100644
--- a/src/float.cpp
+++ b/src/float.cpp
@@ -10,6 +10,7 @@
 #include "lexi/detail/dtoa.hpp"
 #include "lexi/detail/ieee754.hpp"
 
+#include <cstdlib>
 #include <cstring>
 
 
@@ -155,18 +156,17 @@ FormatFloat::operator std::string() const
 }
 
 
-ExtractFloat::ExtractFloat(const std::string &string)
-{
-    // TODO: optimize this.
-    data_ = std::strtold(string.data(), nullptr);
-}
+ExtractFloat::ExtractFloat(const std::string &string):
+    data_(string)
+{}
 
 
 /** \brief Conversion to float.
  */
 ExtractFloat::operator float() const
 {
-    return data_;
+    // TODO: optimize this.
+    return std::strtof(data_.data(), nullptr);
 }
 
 
@@ -174,7 +174,7 @@ ExtractFloat::operator float() const
  */
 ExtractFloat::operator double() const
 {
-    return data_;
+    return std::strtod(data_.data(), nullptr);
 }
 
 
@@ -182,7 +182,7 @@ ExtractFloat::operator double() const
  */
 ExtractFloat::operator long double() const
 {
-    return data_;
+    return std::strtold(data_.data(), nullptr);
 }
 
 }   /* lexi */
-- 
2.43.0


From c1f89e6154b6404583859bdda4eeff6e7e04fa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:53 +0000
Subject: [PATCH 4/9] fix: move all words when shifting a BigInteger by whole
 words

operator<<= with a multiple of 64 moved count_ words starting at the last
one: only the top word reached its place, and memory past the digits was
read and written.
---
 src/detail/bigint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detail/bigint.cpp b/src/detail/bigint.cpp
index b3cfba8..0917ad5 100644
--- a/src/detail/bigint.cpp
+++ b/src/detail/bigint.cpp
@@ -331,7 +331,7 @@ BigInteger & BigInteger::operator<<=(size_t shift)
     LEXI_ASSERT(count_ + offset <= capacity, "BigInteger::operator<<= would exceeds bounds.");
 
     if (interShift == 0) {
-        memmove(&digits_[count_ - 1 + offset], &digits_[count_ - 1], count_ * sizeof(uint64_t));
+        memmove(&digits_[offset], &digits_[0], count_ * sizeof(uint64_t));
         count_ += offset;
     }
     else {
-- 
2.43.0


From 3df4a3e4213182535fb3279ed04ae0fdd1aa4ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:53 +0000
Subject: [PATCH 5/9] fix: check the carry word against the capacity in
 BigInteger::operator<<=

A shift that is not a multiple of 64 wrote one word past the digits, over
the word count, when the result filled the capacity.
---
 src/detail/bigint.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/detail/bigint.cpp b/src/detail/bigint.cpp
index 0917ad5..ef86548 100644
--- a/src/detail/bigint.cpp
+++ b/src/detail/bigint.cpp
@@ -335,14 +335,15 @@ BigInteger & BigInteger::operator<<=(size_t shift)
         count_ += offset;
     }
     else {
-        digits_[count_] = 0;
-        for (size_t i = count_; i > 0; i--) {
+        const uint64_t carry = digits_[count_ - 1] >> (INT64_BYTE - interShift);
+        LEXI_ASSERT(carry == 0 || count_ + offset < capacity, "BigInteger::operator<<= would exceeds bounds.");
+        for (size_t i = count_ - 1; i > 0; i--) {
             digits_[i + offset] = (digits_[i] << interShift) | (digits_[i - 1] >> (INT64_BYTE - interShift));
         }
         digits_[offset] = digits_[0] << interShift;
         count_ += offset;
-        if (digits_[count_]) {
-            count_++;
+        if (carry) {
+            push_back(carry);
         }
     }
 
-- 
2.43.0


From ffc812262e51619d2cd33c39ae01243016d5ec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:53 +0000
Subject: [PATCH 6/9] fix: keep the borrow when BigInteger::difference
 subtracts a full word

With a borrow pending, subtracting 0xFFFFFFFFFFFFFFFF leaves the word
unchanged, which was taken for 'no borrow'.
---
 src/detail/bigint.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/detail/bigint.cpp b/src/detail/bigint.cpp
index ef86548..cca0c96 100644
--- a/src/detail/bigint.cpp
+++ b/src/detail/bigint.cpp
@@ -409,11 +409,10 @@ bool BigInteger::difference(const BigInteger &other,
 
     uint64_t borrow = 0;
     for (size_t i = 0; i < a->count_; i++) {
-        uint64_t d = a->digits_[i] - borrow;
-        if (i < b->count_) {
-            d -= b->digits_[i];
-        }
-        borrow = (d > a->digits_[i]) ? 1 : 0;
+        const uint64_t s = (i < b->count_) ? b->digits_[i] : 0;
+        const uint64_t d = a->digits_[i] - borrow - s;
+        // no borrow out for d == a unless the whole word was subtracted
+        borrow = (d > a->digits_[i] || (d == a->digits_[i] && s != 0)) ? 1 : 0;
         out->digits_[i] = d;
         if (d != 0) {
             out->count_ = i + 1;
-- 
2.43.0


From fcc17307379d4ab015a29dbf3afba09d0969e0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:53 +0000
Subject: [PATCH 7/9] fix: size null and boolean text by the configured
 literals

LEXI_NULL, LEXI_TRUE and LEXI_FALSE can be configured, but the buffers and
sizes assumed the default literals: other lengths gave embedded NULs,
truncated text or a buffer overflow.
---
 include/lexi/bool.hpp | 4 +++-
 include/lexi/null.hpp | 3 ++-
 src/bool.cpp          | 4 ++--
 src/null.cpp          | 2 +-
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/lexi/bool.hpp b/include/lexi/bool.hpp
index 6acc629..4812a87 100644
--- a/include/lexi/bool.hpp
+++ b/include/lexi/bool.hpp
@@ -7,6 +7,8 @@
 
 #pragma once
 
+#include "detail/define.hpp"
+
 #include <string>
 
 
@@ -21,7 +23,7 @@ namespace lexi
 class FormatBool
 {
 protected:
-    char buffer_[6];
+    char buffer_[sizeof(LEXI_TRUE) > sizeof(LEXI_FALSE) ? sizeof(LEXI_TRUE) : sizeof(LEXI_FALSE)];
     size_t size_;
 
 public:
diff --git a/include/lexi/null.hpp b/include/lexi/null.hpp
index a334706..bb539d9 100644
--- a/include/lexi/null.hpp
+++ b/include/lexi/null.hpp
@@ -7,6 +7,7 @@
 
 #pragma once
 
+#include "detail/define.hpp"
 #include "detail/fmt.hpp"
 
 
@@ -21,7 +22,7 @@ namespace lexi
 class FormatNull
 {
 protected:
-    char buffer_[5];
+    char buffer_[sizeof(LEXI_NULL)];
 
 public:
     FormatNull();
diff --git a/src/bool.cpp b/src/bool.cpp
index a67d1b4..a4586c0 100644
--- a/src/bool.cpp
+++ b/src/bool.cpp
@@ -27,10 +27,10 @@ FormatBool::FormatBool(const bool b)
 {
     if (b) {
         strncpy(buffer_, TRUE_STRING, sizeof(TRUE_STRING));
-        size_ = 4;
+        size_ = sizeof(TRUE_STRING) - 1;
     } else {
         strncpy(buffer_, FALSE_STRING, sizeof(FALSE_STRING));
-        size_ = 5;
+        size_ = sizeof(FALSE_STRING) - 1;
     }
 }
 
diff --git a/src/null.cpp b/src/null.cpp
index 905a338..1f5793f 100644
--- a/src/null.cpp
+++ b/src/null.cpp
@@ -38,7 +38,7 @@ FormatNull::FormatNull(const std::nullptr_t nullp)
  */
 size_t FormatNull::size() const
 {
-    return 4;
+    return sizeof(NULL_STRING) - 1;
 }
 
 
-- 
2.43.0


From 72878e446f4f39820bd4ececcf6ea745de1578d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:53 +0000
Subject: [PATCH 8/9] fix: include <cstdint> where int8_t and uint8_t are used

lexi/int.hpp did not compile on its own with GCC 13.
---
 include/lexi/detail/fmt.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/lexi/detail/fmt.hpp b/include/lexi/detail/fmt.hpp
index b14294e..da111dd 100644
--- a/include/lexi/detail/fmt.hpp
+++ b/include/lexi/detail/fmt.hpp
@@ -9,6 +9,7 @@
 
 #pragma once
 
+#include <cstdint>
 #include <limits>
 #include <string>
 
-- 
2.43.0


From 75472c92f98c7a071c64d5ef01ae96d52054ea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:47 +0000
Subject: [PATCH 9/9] fix: size the float buffer by the configured NaN and
 infinity literals

A configured LEXI_NAN, LEXI_INFINITY or LEXI_NEGATIVE_INFINITY longer than 29
characters overflowed the buffer of FormatFloat.
---
 include/lexi/float.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/lexi/float.hpp b/include/lexi/float.hpp
index 0169654..15f3b1d 100644
--- a/include/lexi/float.hpp
+++ b/include/lexi/float.hpp
@@ -7,6 +7,7 @@
 
 #pragma once
 
+#include "detail/define.hpp"
 #include "detail/fmt.hpp"
 
 
@@ -21,7 +22,16 @@ namespace lexi
 class FormatFloat
 {
 protected:
-    char buffer_[detail::FLOAT_SIZE];
+    // large enough for a formatted number and for each configured literal
+    union Storage
+    {
+        char number[detail::FLOAT_SIZE];
+        char nan[sizeof(LEXI_NAN)];
+        char infinity[sizeof(LEXI_INFINITY)];
+        char negative_infinity[sizeof(LEXI_NEGATIVE_INFINITY)];
+    };
+
+    char buffer_[sizeof(Storage)];
     char *first;
     char *last;
 
-- 
2.43.0

