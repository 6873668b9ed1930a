From 284574c3ef6aef1a38324eed516db202a1e5d0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:06 +0000
Subject: [PATCH 001/109] fix: TextView::split_suffix(n) must not modify the
 view if n is out of bounds

---
 code/include/swoc/TextView.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 01ddb65..7acd078 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1445,10 +1445,11 @@ TextView::remove_suffix_if(F const &pred) {
 
 inline TextView
 TextView::split_suffix(size_t n) {
-  self_type zret;
-  n    = std::min(n, this->size());
-  zret = this->suffix(n);
-  this->remove_suffix(n + 1);
+  self_type zret; // default to empty return.
+  if (n <= this->size()) {
+    zret = this->suffix(n);
+    this->remove_suffix(n + 1);
+  }
   return zret;
 }
 
-- 
2.43.0


From 35ed5ac0fbf1c6ac7ffdf979cc3e03ff95b82855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:06 +0000
Subject: [PATCH 002/109] fix: TextView::split_suffix_if and take_suffix_if
 used the offset of the match as a length / character

---
 code/include/swoc/TextView.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 7acd078..85d958f 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1473,7 +1473,8 @@ TextView::split_suffix_at(std::string_view const &delimiters) -> self_type {
 template <typename F>
 TextView::self_type
 TextView::split_suffix_if(F const &pred) {
-  return this->split_suffix(this->rfind_if(pred));
+  auto idx = this->rfind_if(pred);
+  return npos == idx ? self_type{} : this->split_suffix(this->size() - (idx + 1));
 }
 
 inline TextView
@@ -1501,7 +1502,7 @@ TextView::take_suffix_at(std::string_view const &delimiters) {
 template <typename F>
 TextView::self_type
 TextView::take_suffix_if(F const &pred) {
-  return this->take_suffix_at(this->rfind_if(pred));
+  return this->take_suffix(this->rfind_if(pred));
 }
 
 template <typename F>
-- 
2.43.0


From 8591d3c52ff8165c8ecfecf47721e74e9dfe8af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:06 +0000
Subject: [PATCH 003/109] fix: TextView::clip_suffix_of returned the wrong
 number of characters

---
 code/include/swoc/TextView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 85d958f..84b3e6e 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1759,8 +1759,8 @@ TextView::clip_prefix_of(F const &pred) {
 template <typename F>
 TextView::self_type
 TextView::clip_suffix_of(F const &pred) {
-  size_t idx = this->size() - 1;
-  for (auto spot = this->data() + idx, limit = this->data(); spot >= limit && pred(*spot); --spot, --idx)
+  size_t idx = 0;
+  for (auto spot = this->data_end(), limit = this->data(); spot > limit && pred(*(spot - 1)); --spot, ++idx)
     ; // empty
   TextView token = this->suffix(idx);
   this->remove_suffix(idx);
-- 
2.43.0


From 1e5aa9c4cffb0662447f7bf0d62a44b28b696300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:50 +0000
Subject: [PATCH 004/109] fix: memcmp and strcasecmp for views must order a
 prefix before the longer view

---
 code/src/string_view_util.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/src/string_view_util.cc b/code/src/string_view_util.cc
index 3c483ca..5abe524 100644
--- a/code/src/string_view_util.cc
+++ b/code/src/string_view_util.cc
@@ -14,10 +14,10 @@ memcmp(std::string_view const &lhs, std::string_view const &rhs) {
 
   // Seems a bit ugly but size comparisons must be done anyway to get the memcmp args.
   if (lhs.size() < rhs.size()) {
-    zret = 1;
+    zret = -1;
     n    = lhs.size();
   } else if (lhs.size() > rhs.size()) {
-    zret = -1;
+    zret = 1;
   } else if (lhs.data() == rhs.data()) { // same memory, obviously equal.
     return 0;
   }
@@ -33,10 +33,10 @@ strcasecmp(const std::string_view &lhs, const std::string_view &rhs) {
 
   // Seems a bit ugly but size comparisons must be done anyway to get the @c strncasecmp args.
   if (lhs.size() < rhs.size()) {
-    zret = 1;
+    zret = -1;
     n    = lhs.size();
   } else if (lhs.size() > rhs.size()) {
-    zret = -1;
+    zret = 1;
   } else if (lhs.data() == rhs.data()) { // the same memory, obviously equal.
     return 0;
   }
-- 
2.43.0


From 4980e750f9cf306448a7d0fa7c482ebc892ae760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:50 +0000
Subject: [PATCH 005/109] fix: TextView::LessThan and LessThanNoCase must
 accept any negative comparison

---
 code/include/swoc/TextView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 84b3e6e..0568812 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -947,7 +947,7 @@ public:
     /// @return Case sensitive ordering.
     bool
     operator()(self_type const &lhs, self_type const &rhs) const noexcept {
-      return -1 == strcmp(lhs, rhs);
+      return strcmp(lhs, rhs) < 0;
     }
   };
 
@@ -956,7 +956,7 @@ public:
     /// @return Case insensitive ordering.
     bool
     operator()(self_type const &lhs, self_type const &rhs) const noexcept {
-      return -1 == strcasecmp(lhs, rhs);
+      return strcasecmp(lhs, rhs) < 0;
     }
   };
 
-- 
2.43.0


From 36fa37c70bd08db37e01c466753e5da133ae8742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:50 +0000
Subject: [PATCH 006/109] fix: the digit T has the value 29, not 20

---
 code/src/TextView.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index fbfb343..3bd5110 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -27,9 +27,9 @@ const int8_t svtoi_convert[256] = {
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 20
   0,  1,  2,  3,  4,  5,  6,  7,  8,  9,  -1, -1, -1, -1, -1, -1, // 30
   -1, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, // 40
-  25, 26, 27, 28, 20, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 50
+  25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 50
   -1, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, // 60
-  25, 26, 27, 28, 20, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 70
+  25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 70
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 80
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 90
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // A0
-- 
2.43.0


From 981f4c89979634bb21abc60e0d53548418edee55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:50 +0000
Subject: [PATCH 007/109] fix: svtoi must clear the parsed text if nothing was
 parsed

---
 code/src/TextView.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index 3bd5110..0cb1a4b 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -47,6 +47,10 @@ svtoi(TextView src, TextView *out, int base) {
   static constexpr uintmax_t ABS_MIN = uintmax_t(std::numeric_limits<intmax_t>::min());
   intmax_t zret = 0;
 
+  if (out) {
+    out->clear();
+  }
+
   if (src.ltrim_if(&isspace)) {
     TextView parsed;
     const char *start = src.data();
-- 
2.43.0


From 7499df865f0e815a25dda1a25423ff8e2f20a69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:50 +0000
Subject: [PATCH 008/109] fix: svtoi negated the minimum value, which is
 undefined behavior

---
 code/src/TextView.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index 0cb1a4b..d825916 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -67,7 +67,7 @@ svtoi(TextView src, TextView *out, int base) {
         out->assign(start, parsed.data_end());
       }
       if (neg) {
-        zret = -intmax_t(std::min<uintmax_t>(n, ABS_MIN));
+        zret = n >= ABS_MIN ? std::numeric_limits<intmax_t>::min() : -intmax_t(n); // can't negate the minimum.
       } else {
         zret = std::min(n, ABS_MAX);
       }
-- 
2.43.0


From 4403f7b0df1066fdec5051fd54b1049ba16d1714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 009/109] fix: svtod lost the sign of integral text, overflowed
 on large numbers, and accumulated rounding error past one epsilon

---
 code/src/TextView.cc | 79 +++++++++++++++++++++++++++-----------------
 1 file changed, 49 insertions(+), 30 deletions(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index d825916..1d2ca10 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -151,14 +151,16 @@ svtou(TextView src, TextView *out, int base) {
 
 double
 svtod(swoc::TextView text, swoc::TextView *parsed) {
+  // Intermediate values use extended precision to keep the accumulated error less than the precision
+  // of the result.
+  using real = long double;
+  // Limit on the magnitude of the exponent - anything past this is infinite or zero.
+  static constexpr intmax_t EXP_LIMIT = 16384;
+
   // @return 10^e
-  auto pow10 = [](int e) -> double {
-    double zret  = 1.0;
-    double scale = 10.0;
-    if (e < 0) { // flip the scale and make @a e positive.
-      e     = -e;
-      scale = 0.1;
-    }
+  auto pow10 = [](uintmax_t e) -> real {
+    real zret  = 1.0;
+    real scale = 10.0;
 
     // Walk the bits in the exponent @a e and multiply the scale for set bits.
     while (e) {
@@ -171,16 +173,18 @@ svtod(swoc::TextView text, swoc::TextView *parsed) {
     return zret;
   };
 
-  if (text.empty()) {
-    return 0;
-  }
-
-  auto org_text = text; // save this to update @a parsed.
   // Check just once and dump to a local copy if needed.
   TextView local_parsed;
   if (!parsed) {
     parsed = &local_parsed;
   }
+  parsed->clear();
+
+  if (text.empty()) {
+    return 0;
+  }
+
+  auto org_text = text; // save this to update @a parsed.
 
   // Handle leading sign.
   int sign = 1;
@@ -190,42 +194,57 @@ svtod(swoc::TextView text, swoc::TextView *parsed) {
   } else if (*text == '+') {
     ++text;
   }
-  // Parse the leading whole part as an integer.
-  intmax_t whole = svto_radix<10>(text);
-  parsed->assign(org_text.data(), text.data());
 
-  if (text.empty()) {
-    return whole;
-  }
+  // Gather the digits as an integer and a power of 10. Digits past what fits are too small to matter
+  // except for their effect on the magnitude.
+  uintmax_t mantissa = 0;
+  intmax_t exp       = 0;
+  auto gather        = [&](bool frac_p) {
+    static constexpr auto LIMIT = std::numeric_limits<uintmax_t>::max() / 10 - 1;
+    for (; text && '0' <= *text && *text <= '9'; ++text) {
+      if (mantissa <= LIMIT) {
+        mantissa  = mantissa * 10 + (*text - '0');
+        exp      -= frac_p;
+      } else {
+        exp += !frac_p;
+      }
+    }
+  };
 
-  double frac = 0.0;
+  gather(false);
   if (*text == '.') { // fractional part.
     ++text;
-    double scale = 0.1;
-    while (text && isdigit(*text)) {
-      frac  += scale * (*text++ - '0');
-      scale /= 10.0;
-    }
+    gather(true);
   }
 
-  double exp = 1.0;
   if (text.starts_with_nocase("e")) {
-    int exp_sign = 1;
+    bool neg_p = false;
     ++text;
     if (text) {
       if (*text == '+') {
         ++text;
       } else if (*text == '-') {
         ++text;
-        exp_sign = -1;
+        neg_p = true;
       }
     }
-    auto exp_part = svto_radix<10>(text);
-    exp           = pow10(exp_part * exp_sign);
+    // Leave enough head room so that the sum can't overflow.
+    intmax_t exp_part  = std::min<uintmax_t>(svto_radix<10>(text), std::numeric_limits<intmax_t>::max() / 2);
+    exp               += neg_p ? -exp_part : exp_part;
   }
 
   parsed->assign(org_text.data(), text.data());
-  return sign * (whole + frac) * exp;
+
+  real value = mantissa;
+  if (mantissa != 0) {
+    exp = std::min(std::max(exp, -EXP_LIMIT), EXP_LIMIT);
+    if (exp < 0) {
+      value /= pow10(-exp);
+    } else {
+      value *= pow10(exp);
+    }
+  }
+  return sign * value;
 }
 
 // Do the template instantiations.
-- 
2.43.0


From 1e0e64613a1632c606427c2b965d185a7796946a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 010/109] fix: TransformView::end made a view from the iterator
 as if it were a C string

---
 code/include/swoc/TextView.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 0568812..992fd8e 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1860,7 +1860,9 @@ public:
   /// Iterator past last transformed character.
   iterator
   end() const {
-    return self_type{_xf, _limit};
+    auto zret{*this};
+    zret._spot = _limit;
+    return zret;
   }
 
 protected:
@@ -2057,7 +2059,9 @@ TransformView<void, V>::begin() const -> self_type {
 template <typename V>
 auto
 TransformView<void, V>::end() const -> self_type {
-  return self_type{_limit};
+  auto zret{*this};
+  zret._spot = _limit;
+  return zret;
 }
 
 /// @cond INTERNAL_DETAIL
-- 
2.43.0


From 693064a41dcacad783b8367cd7424d884618fc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 011/109] fix: FNV hash sign extended octets past 0x7F instead
 of hashing the octet

---
 code/include/swoc/ext/HashFNV.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/ext/HashFNV.h b/code/include/swoc/ext/HashFNV.h
index b22d43f..573dba6 100644
--- a/code/include/swoc/ext/HashFNV.h
+++ b/code/include/swoc/ext/HashFNV.h
@@ -25,6 +25,7 @@
 #pragma once
 
 #include <cstdint>
+#include <type_traits>
 
 #include "swoc/TextView.h"
 
@@ -177,7 +178,7 @@ template <typename X, typename V>
 auto
 Hash32FNV1a::update(TransformView<X, V> view) -> self_type & {
   for (; view; ++view) {
-    hval ^= static_cast<value_type>(*view);
+    hval ^= static_cast<std::make_unsigned_t<std::decay_t<decltype(*view)>>>(*view); // avoid sign extension of octets.
     hval += (hval << 1) + (hval << 4) + (hval << 7) + (hval << 8) + (hval << 24);
   }
   return *this;
@@ -221,7 +222,7 @@ template <typename X, typename V>
 auto
 Hash64FNV1a::update(TransformView<X, V> view) -> self_type & {
   for (; view; ++view) {
-    hval ^= static_cast<value_type>(*view);
+    hval ^= static_cast<std::make_unsigned_t<std::decay_t<decltype(*view)>>>(*view); // avoid sign extension of octets.
     hval += (hval << 1) + (hval << 4) + (hval << 5) + (hval << 7) + (hval << 8) + (hval << 40);
   }
   return *this;
-- 
2.43.0


From 76fe2f39ab21c420a513dd6ad1a289916d02e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 012/109] fix: comparing MemSpan instances must compare all of
 the bytes, not one byte per element

---
 code/include/swoc/MemSpan.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 02c170c..dd07cf1 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -959,14 +959,14 @@ template <typename T>
 int
 memcmp(MemSpan<T> const &lhs, MemSpan<T> const &rhs) {
   int zret = 0;
-  size_t n = lhs.size();
+  size_t n = lhs.data_size();
 
   // Seems a bit ugly but size comparisons must be done anyway to get the memcmp args.
   if (lhs.count() < rhs.count()) {
     zret = 1;
   } else if (lhs.count() > rhs.count()) {
     zret = -1;
-    n    = rhs.size();
+    n    = rhs.data_size();
   }
   // else the counts are equal therefore @a n and @a zret are already correct.
 
@@ -1118,7 +1118,7 @@ MemSpan<T>::is_same(self_type const &that) const {
 template <typename T>
 constexpr bool
 MemSpan<T>::operator==(self_type const &that) const {
-  return _count == that._count && (_ptr == that._ptr || 0 == memcmp(_ptr, that._ptr, this->size()));
+  return _count == that._count && (_ptr == that._ptr || 0 == memcmp(_ptr, that._ptr, this->data_size()));
 }
 
 template <typename T>
-- 
2.43.0


From 583894e3dc7615d4ffe0e7f47980393072c178e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 013/109] fix: memcpy for MemSpan must copy all of the bytes,
 not one byte per element

---
 code/include/swoc/MemSpan.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index dd07cf1..6a1f94a 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -983,19 +983,19 @@ using std::memcmp;
 template <typename T>
 T *
 memcpy(MemSpan<T> &dst, MemSpan<T> const &src) {
-  return static_cast<T *>(std::memcpy(dst.data(), src.data(), std::min(dst.size(), src.size())));
+  return static_cast<T *>(std::memcpy(dst.data(), src.data(), std::min(dst.data_size(), src.data_size())));
 }
 
 template <typename T>
 T *
 memcpy(MemSpan<T> &dst, T *src) {
-  return static_cast<T *>(std::memcpy(dst.data(), src, dst.size()));
+  return static_cast<T *>(std::memcpy(dst.data(), src, dst.data_size()));
 }
 
 template <typename T>
 T *
 memcpy(T *dst, MemSpan<T> &src) {
-  return static_cast<T *>(std::memcpy(dst, src.data(), src.size()));
+  return static_cast<T *>(std::memcpy(dst, src.data(), src.data_size()));
 }
 
 inline char *
-- 
2.43.0


From 12a51e27c9b9059ff66ed8fc6b5054aab960592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 014/109] fix: memcpy of text to a MemSpan must not write past
 the end of the span

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 6a1f94a..ffdd380 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1000,12 +1000,12 @@ memcpy(T *dst, MemSpan<T> &src) {
 
 inline char *
 memcpy(MemSpan<char> &span, std::string_view view) {
-  return static_cast<char *>(std::memcpy(span.data(), view.data(), std::min(view.size(), view.size())));
+  return static_cast<char *>(std::memcpy(span.data(), view.data(), std::min(span.size(), view.size())));
 }
 
 inline void *
 memcpy(MemSpan<void> &span, std::string_view view) {
-  return std::memcpy(span.data(), view.data(), std::min(view.size(), view.size()));
+  return std::memcpy(span.data(), view.data(), std::min(span.size(), view.size()));
 }
 
 using std::memcpy;
-- 
2.43.0


From 875fbca3a885d0e1a396b9d4758c43a3e7b21c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 015/109] fix: MemSpan::align did not align if the misalignment
 was not half the alignment

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index ffdd380..a6cc0d5 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1615,7 +1615,7 @@ MemSpan<void>::align() const -> self_type {
 inline auto
 MemSpan<void const>::align(size_t alignment) const -> self_type {
   auto p       = uintptr_t(_ptr);
-  auto padding = p & (alignment - 1);
+  auto padding = -p & (alignment - 1);
   size_t size  = 0;
   if (_size > padding) { // if there's not enough to pad, result is zero size.
     size = _size - padding;
@@ -1632,7 +1632,7 @@ MemSpan<void>::align(size_t alignment) const -> self_type {
 inline auto
 MemSpan<void const>::align(size_t alignment, size_t obj_size) const -> self_type {
   auto p       = uintptr_t(_ptr);
-  auto padding = p & (alignment - 1);
+  auto padding = -p & (alignment - 1);
   size_t size  = 0;
   if (_size > padding) { // if there's not enough to pad, result is zero size.
     size = ((_size - padding) / obj_size) * obj_size;
-- 
2.43.0


From 1ab7d92d31c481936475a4ffa04d54d899433c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 016/109] fix: rebinding a typed MemSpan to void scaled the
 size by the element size twice

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index a6cc0d5..f966698 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -935,7 +935,7 @@ template <typename T> struct is_span_compatible<T, void> {
 template <typename T>
 size_t
 is_span_compatible<T, void>::count(size_t size) {
-  return sizeof(T) * size;
+  return size;
 }
 
 template <typename T> struct is_span_compatible<T, void const> {
@@ -946,7 +946,7 @@ template <typename T> struct is_span_compatible<T, void const> {
 template <typename T>
 size_t
 is_span_compatible<T, void const>::count(size_t size) {
-  return sizeof(T) * size;
+  return size;
 }
 /// @endcond
 
-- 
2.43.0


From eebf78850f9e91daee81d96c2db745f89fd121f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 017/109] fix: MemArena::thaw must not recycle the static block
 if it is still active

---
 code/src/MemArena.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index 1d4d708..2e60797 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -133,7 +133,8 @@ MemArena &
 MemArena::thaw() {
   this->destroy_frozen();
   _frozen_reserved = _frozen_allocated = 0;
-  if (_static_block) {
+  // Recycle the static block, unless it is still in use in the active generation.
+  if (_static_block && std::none_of(_active.begin(), _active.end(), [this](Block const &b) { return &b == _static_block; })) {
     _static_block->discard();
     _active.prepend(_static_block);
     _active_reserved += _static_block->remaining();
-- 
2.43.0


From 7dacaf37734b2aaae2b1fd8ac86916af07366182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 018/109] fix: MemArena move assignment must transfer the
 static block, otherwise it is deleted later

---
 code/src/MemArena.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index 2e60797..e2f1318 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -7,6 +7,7 @@
  */
 #include "swoc/MemArena.h"
 #include <algorithm>
+#include <utility>
 
 namespace swoc { inline namespace SWOC_VERSION_NS {
 
@@ -66,6 +67,7 @@ MemArena::operator=(swoc::MemArena::self_type &&that) noexcept {
   std::swap(_reserve_hint, that._reserve_hint);
   _active = std::move(that._active);
   _frozen = std::move(that._frozen);
+  _static_block = std::exchange(that._static_block, nullptr);
   return *this;
 }
 
-- 
2.43.0


From 80e74fcacd55a2fb2317a9305d35762ab8bef538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 019/109] fix: MemArena::alloc threw for an over aligned
 allocation that needed a new block

---
 code/src/MemArena.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index e2f1318..51511fb 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -7,6 +7,7 @@
  */
 #include "swoc/MemArena.h"
 #include <algorithm>
+#include <cstddef>
 #include <utility>
 
 namespace swoc { inline namespace SWOC_VERSION_NS {
@@ -165,7 +166,8 @@ MemArena::require(size_t n, size_t align) {
     }
   }
   if (spot == _active.end()) {   // no block has enough free space
-    block = this->make_block(n); // assuming a new block is sufficiently aligned.
+    // A new block has fundamental alignment, leave room for the padding if that is not sufficient.
+    block = this->make_block(align > alignof(std::max_align_t) ? n + align : n);
     _active.prepend(block);
   } else if (spot != _active.begin()) {
     // big enough space, move to the head of the list.
-- 
2.43.0


From a8525f298cb34ae9b7053e09dc633d31d5428c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 020/109] fix: MemArena aligned remnant was not aligned, and
 the typed remnant was not the requested size

---
 code/include/swoc/MemArena.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index e0b25fb..4432443 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -696,8 +696,7 @@ inline MemSpan<char> MemArena::localize_c(char const * s) {
 template <typename T>
 MemSpan<T>
 MemArena::remnant_span(size_t n) {
-  auto span = this->require(sizeof(T) * n, alignof(T)).remnant();
-  return span.remove_prefix(Block::align_padding(span.data(), alignof(T))).rebind<T>();
+  return this->remnant(sizeof(T) * n, alignof(T)).template rebind<T>();
 }
 
 template <>
@@ -708,7 +707,9 @@ MemArena::remnant_span<void>(size_t n) {
 
 inline MemSpan<void>
 MemArena::remnant(size_t n, size_t align) {
-  return this->require(n, align).remnant().prefix(n);
+  auto span = this->require(n, align).remnant();
+  span.remove_prefix(Block::align_padding(span.data(), align));
+  return span.prefix(n);
 }
 
 inline size_t
-- 
2.43.0


From ecf08ba46547cf0215fd6850d6e99772002b7b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 021/109] fix: MemArena::localize_c read past the source and
 included the terminal nul in the returned view

---
 code/include/swoc/MemArena.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index 4432443..330501f 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -684,9 +684,9 @@ inline MemSpan<char> MemArena::localize(char const * s) {
 
 inline MemSpan<char> MemArena::localize_c(MemSpan<char const> s) {
   auto span = this->alloc(s.size() + 1).rebind<char>();
-  memcpy(span.data(), s.data(), span.size());
+  memcpy(span.data(), s.data(), s.size());
   span[s.size()] = '\0';
-  return { span.data(), span.size() };
+  return { span.data(), s.size() };
 }
 
 inline MemSpan<char> MemArena::localize_c(char const * s) {
-- 
2.43.0


From 4dcdc9f7beb0d078153304c97a7b153482bef2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 022/109] fix: Vectray fixed store span covered (and destroyed)
 elements that were never constructed

---
 code/include/swoc/Vectray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index e2e6485..679f911 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -52,7 +52,7 @@ public:                                                              // STL comp
 
   /// Internal (fixed) storage.
   struct FixedStore {
-    std::array<std::byte, sizeof(T) * N> _raw; ///< Raw memory for element storage.
+    alignas(T) std::array<std::byte, sizeof(T) * N> _raw; ///< Raw memory for element storage.
     size_t _count = 0;                         ///< Number of valid elements.
     allocator_type _a;                         ///< Allocator instance - used for construction.
 
@@ -263,7 +263,7 @@ template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::~FixedSto
 template <typename T, size_t N, class A>
 MemSpan<T>
 Vectray<T, N, A>::FixedStore::span() {
-  return MemSpan<std::byte>(_raw).template rebind<T>();
+  return {this->data(), _count};
 }
 
 template <typename T, size_t N, class A>
-- 
2.43.0


From d77455120506b8bd649f5495521614a2da110c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 023/109] fix: Vectray constant element access and data() did
 not compile

---
 code/include/swoc/Vectray.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 679f911..0b9fe91 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -69,6 +69,9 @@ public:                                                              // STL comp
     /// @return A span containing the valid elements.
     MemSpan<T> span();
 
+    /// @return A span containing the valid elements.
+    MemSpan<T const> span() const;
+
     /// @return A pointer to the data.
     T *data();
 
@@ -266,6 +269,12 @@ Vectray<T, N, A>::FixedStore::span() {
   return {this->data(), _count};
 }
 
+template <typename T, size_t N, class A>
+MemSpan<T const>
+Vectray<T, N, A>::FixedStore::span() const {
+  return {this->data(), _count};
+}
+
 template <typename T, size_t N, class A>
 T *
 Vectray<T, N, A>::FixedStore::data() {
@@ -275,7 +284,7 @@ Vectray<T, N, A>::FixedStore::data() {
 template <typename T, size_t N, class A>
 T const *
 Vectray<T, N, A>::FixedStore::data() const {
-  return reinterpret_cast<T *>(_raw.data());
+  return reinterpret_cast<T const *>(_raw.data());
 }
 
 template <typename T, size_t N, typename A>
@@ -287,7 +296,7 @@ Vectray<T, N, A>::operator[](size_type idx) {
 template <typename T, size_t N, typename A>
 T const &
 Vectray<T, N, A>::operator[](size_type idx) const {
-  return this->items[idx];
+  return this->items()[idx];
 }
 
 template <typename T, size_t N, typename A>
@@ -404,7 +413,7 @@ Vectray<T, N, A>::transfer(size_type rN) {
 template <typename T, size_t N, class A>
 auto
 Vectray<T, N, A>::items() const -> const_span {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.span(); },
+  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { return fs.span(); },
                                      [](DynamicStore const &ds) { return const_span(ds.data(), ds.size()); }},
                     _store);
 }
@@ -412,14 +421,14 @@ Vectray<T, N, A>::items() const -> const_span {
 template <typename T, size_t N, class A>
 T *
 Vectray<T, N, A>::data() {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
+  return std::visit(swoc::meta::vary{[](FixedStore &fs) { return fs.data(); }, [](DynamicStore &ds) { return ds.data(); }},
                     _store);
 }
 
 template <typename T, size_t N, class A>
 T const *
 Vectray<T, N, A>::data() const {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
+  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { return fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
                     _store);
 }
 
-- 
2.43.0


From fe2a1f70d3c47779ff00f1cd0199ff8195f26c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 024/109] fix: Vectray::pop_back did not compile

---
 code/include/swoc/Vectray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 0b9fe91..35e14e6 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -350,7 +350,7 @@ Vectray<T, N, A>::emplace_back(Args &&...args) {
 template <typename T, size_t N, class A>
 auto
 Vectray<T, N, A>::pop_back() -> self_type & {
-  std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void { std::destroy_at(fs.span()[--fs._count]); },
+  std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void { std::destroy_at(fs.data() + --fs._count); },
                               [&](DynamicStore &ds) -> void { ds.pop_back(); }},
              _store);
   return *this;
-- 
2.43.0


From 7538ef3f64048048c7d31738d3145b6f404c402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 025/109] fix: copying a Vectray copied the raw bytes of the
 elements instead of the elements

---
 code/include/swoc/Vectray.h | 76 +++++++++++++++++++++++++++++++++++++
 1 file changed, 76 insertions(+)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 35e14e6..4f079fb 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -64,8 +64,23 @@ public:                                                              // STL comp
      */
     explicit FixedStore(allocator_type const &a) : _a(a) {}
 
+    /// Copy construct - copies the valid elements.
+    FixedStore(FixedStore const &that);
+
+    /// Move construct - moves the valid elements.
+    FixedStore(FixedStore &&that);
+
+    /// Copy assign - replaces the elements with copies of those in @a that.
+    FixedStore &operator=(FixedStore const &that);
+
+    /// Move assign - replaces the elements with those in @a that.
+    FixedStore &operator=(FixedStore &&that);
+
     ~FixedStore();
 
+    /// Destroy all of the elements.
+    void clear();
+
     /// @return A span containing the valid elements.
     MemSpan<T> span();
 
@@ -103,6 +118,18 @@ public:
    */
   explicit Vectray(size_type n, allocator_type const &alloc = allocator_type{});
 
+  /// Copy constructor.
+  Vectray(self_type const &that) = default;
+
+  /// Move constructor.
+  Vectray(self_type &&that) = default;
+
+  /// Copy assignment.
+  self_type &operator=(self_type const &that) = default;
+
+  /// Move assignment.
+  self_type &operator=(self_type &&that) = default;
+
   /// Move constructor for difference static sized instance.
   template <size_t M> Vectray(Vectray<T, M, A> &&that);
 
@@ -257,10 +284,59 @@ template <typename T, size_t N, class A> template <size_t M> Vectray<T, N, A>::V
   }
 }
 
+template <typename T, size_t N, class A>
+Vectray<T, N, A>::FixedStore::FixedStore(FixedStore const &that)
+  : _a(std::allocator_traits<allocator_type>::select_on_container_copy_construction(that._a)) {
+  for (auto const &item : that.span()) {
+    new (this->data() + _count) T(item);
+    ++_count;
+  }
+}
+
+template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::FixedStore(FixedStore &&that) : _a(that._a) {
+  for (auto &item : that.span()) {
+    new (this->data() + _count) T(std::move(item));
+    ++_count;
+  }
+}
+
+template <typename T, size_t N, class A>
+auto
+Vectray<T, N, A>::FixedStore::operator=(FixedStore const &that) -> FixedStore & {
+  if (this != &that) {
+    this->clear();
+    for (auto const &item : that.span()) {
+      new (this->data() + _count) T(item);
+      ++_count;
+    }
+  }
+  return *this;
+}
+
+template <typename T, size_t N, class A>
+auto
+Vectray<T, N, A>::FixedStore::operator=(FixedStore &&that) -> FixedStore & {
+  if (this != &that) {
+    this->clear();
+    for (auto &item : that.span()) {
+      new (this->data() + _count) T(std::move(item));
+      ++_count;
+    }
+  }
+  return *this;
+}
+
 template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::~FixedStore() {
+  this->clear();
+}
+
+template <typename T, size_t N, class A>
+void
+Vectray<T, N, A>::FixedStore::clear() {
   for (auto &item : this->span()) {
     std::destroy_at(std::addressof(item));
   }
+  _count = 0;
 }
 
 template <typename T, size_t N, class A>
-- 
2.43.0


From 0efe5290ffaeb85054625b0513aedd26a100ca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 026/109] fix: Vectray move from a different static size did
 not compile and dropped the elements if they did not fit

---
 code/include/swoc/Vectray.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 4f079fb..ac5a543 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -36,6 +36,7 @@ namespace swoc { inline namespace SWOC_VERSION_NS {
 template <typename T, size_t N, class A = std::allocator<T>> class Vectray {
   using self_type   = Vectray;           ///< Self reference type.
   using vector_type = std::vector<T, A>; ///< Internal dynamic storage type.
+  template <typename U, size_t M, class B> friend class Vectray;
 
 public:                                                              // STL compliance types.
   using value_type      = T;                                         ///< Element type for container.
@@ -271,15 +272,13 @@ template <typename T, size_t N, class A> Vectray<T, N, A>::Vectray(Vectray::size
 
 template <typename T, size_t N, class A> template <size_t M> Vectray<T, N, A>::Vectray(Vectray<T, M, A> &&that) {
   // If @a that is already a vector, always move that here.
-  if (DYNAMIC == that._store.index()) {
+  if (that._store.index() == Vectray<T, M, A>::DYNAMIC) {
     _store = std::move(std::get<DYNAMIC>(that._store));
   } else {
     auto span = std::get<FIXED>(that._store).span();
-    if (span.size() > N) {
-    } else {
-      for (auto &&item : span) {
-        this->template emplace_back(std::move(item));
-      }
+    this->reserve(span.size()); // force to dynamic if needed.
+    for (auto &item : span) {
+      this->emplace_back(std::move(item));
     }
   }
 }
-- 
2.43.0


From aa0d9447b0cd5942e19dfceb622d75dfeb69cd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 027/109] fix: Vectray ignored the allocator in the sized
 constructor, and did not define the allocator extended move

---
 code/include/swoc/Vectray.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index ac5a543..d44635a 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -263,7 +263,7 @@ protected:
 
 template <typename T, size_t N, typename A> Vectray<T, N, A>::Vectray() {}
 
-template <typename T, size_t N, class A> Vectray<T, N, A>::Vectray(Vectray::size_type n, allocator_type const &alloc) : Vectray() {
+template <typename T, size_t N, class A> Vectray<T, N, A>::Vectray(Vectray::size_type n, allocator_type const &alloc) : Vectray(alloc) {
   this->reserve(n);
   while (n-- > 0) {
     this->emplace_back();
@@ -283,6 +283,13 @@ template <typename T, size_t N, class A> template <size_t M> Vectray<T, N, A>::V
   }
 }
 
+template <typename T, size_t N, class A> Vectray<T, N, A>::Vectray(self_type &&that, allocator_type const &a) : Vectray(a) {
+  this->reserve(that.size());
+  for (auto &item : that) {
+    this->emplace_back(std::move(item));
+  }
+}
+
 template <typename T, size_t N, class A>
 Vectray<T, N, A>::FixedStore::FixedStore(FixedStore const &that)
   : _a(std::allocator_traits<allocator_type>::select_on_container_copy_construction(that._a)) {
-- 
2.43.0


From f6cc35b19ae2bf00e2fdb7550a311d9c28000540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 028/109] fix: Vectray append of one of its own elements when
 full appended a moved from element

---
 code/include/swoc/Vectray.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index d44635a..b02dceb 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -388,8 +388,9 @@ Vectray<T, N, A>::push_back(const T &t) -> self_type & {
                                 if (fs._count < N) {
                                   new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(t); // A::traits ?
                                 } else {
+                                  T tmp(t); // @a t may be an element, which is moved by the transfer.
                                   this->transfer();
-                                  std::get<DYNAMIC>(_store).push_back(t);
+                                  std::get<DYNAMIC>(_store).push_back(std::move(tmp));
                                 }
                               },
                               [&](DynamicStore &ds) -> void { ds.push_back(t); }},
@@ -404,8 +405,9 @@ Vectray<T, N, A>::push_back(T &&t) -> self_type & {
                                 if (fs._count < N) {
                                   new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(std::move(t)); // A::traits ?
                                 } else {
+                                  T tmp(std::move(t)); // @a t may be an element, which is moved by the transfer.
                                   this->transfer();
-                                  std::get<DYNAMIC>(_store).push_back(std::move(t));
+                                  std::get<DYNAMIC>(_store).push_back(std::move(tmp));
                                 }
                               },
                               [&](DynamicStore &ds) -> void { ds.push_back(std::move(t)); }},
@@ -423,7 +425,10 @@ Vectray<T, N, A>::emplace_back(Args &&...args) {
       new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(std::forward<Args>(args)...); // A::traits ?
       return *this;
     }
-    this->transfer(); // transfer to dynamic and fall through to add item.
+    T tmp(std::forward<Args>(args)...); // The arguments may refer to an element, which is moved by the transfer.
+    this->transfer();
+    std::get<DYNAMIC>(_store).emplace_back(std::move(tmp));
+    return *this;
   }
   std::get<DYNAMIC>(_store).emplace_back(std::forward<Args>(args)...);
   return *this;
-- 
2.43.0


From 790c54c9f25c91e8589dfb4380a08f1f57d81f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 029/109] fix: Scalar rounding of negative values went up
 instead of toward the requested direction

---
 code/include/swoc/Scalar.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 339daf3..fcd84bd 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -47,11 +47,11 @@ scale_conversion_round_up(C c) {
   if constexpr (N == S) {
     return c;
   } else if constexpr (R::den == 1) {
-    return c / R::num + (0 != c % R::num); // N is a multiple of S.
+    return c / R::num + (c % R::num > 0); // N is a multiple of S.
   } else if constexpr (R::num == 1) {
     return c * R::den; // S is a multiple of N.
   }
-  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num + (0 != (c % R::num));
+  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num + (c % R::num > 0);
 }
 
 // Convert a count @a c that is scale @a S to scale @c N
@@ -62,11 +62,11 @@ scale_conversion_round_down(C c) {
   if constexpr (N == S) {
     return c;
   } else if constexpr (R::den == 1) {
-    return c / R::num; // N = k S
+    return c / R::num - (c % R::num < 0); // N = k S
   } else if constexpr (R::num == 1) {
     return c * R::den; // S = k N
   }
-  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num;
+  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num - (c % R::num < 0);
 }
 
 /* Helper classes for @c Scalar
@@ -104,7 +104,7 @@ template <typename C> struct scalar_unit_round_up_t {
   template <intmax_t N, typename I>
   constexpr I
   scale() const {
-    return static_cast<I>(_n / N + (0 != (_n % N)));
+    return static_cast<I>(_n / N + (_n % N > 0));
   }
 };
 
@@ -115,7 +115,7 @@ template <typename C> struct scalar_unit_round_down_t {
   template <intmax_t N, typename I>
   constexpr I
   scale() const {
-    return static_cast<I>(_n / N);
+    return static_cast<I>(_n / N - (_n % N < 0));
   }
 };
 
-- 
2.43.0


From 5ba4a2e199c00c28a249b133d94f5c3294cc79c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 030/109] fix: Scalar::plus and Scalar::minus did not compile

---
 code/include/swoc/Scalar.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index fcd84bd..42e35eb 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -988,13 +988,13 @@ Scalar<N, C, T>::operator()(Counter n) const -> self_type {
 template <intmax_t N, typename C, typename T>
 auto
 Scalar<N, C, T>::plus(Counter n) const -> self_type {
-  return {_n + n};
+  return self_type(_n + n);
 }
 
 template <intmax_t N, typename C, typename T>
 auto
 Scalar<N, C, T>::minus(Counter n) const -> self_type {
-  return {_n - n};
+  return self_type(_n - n);
 }
 
 /** Explicitly round @c value up to a multiple of @a N.
-- 
2.43.0


From e6c0104864192dac204916a856e53f38acf1b54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 031/109] fix: DiscreteRange relationship, has_union, and
 operator ^ did not compile

---
 code/include/swoc/DiscreteRange.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index cfd8dba..7becebf 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -464,7 +464,7 @@ template <typename T>
 auto
 DiscreteRange<T>::relationship(self_type const &that) const -> Relation {
   Relation retval = Relation::NONE;
-  if (this->has_intersection(that)) {
+  if (this->has_intersection_with(that)) {
     if (*this == that)
       retval = Relation::EQUAL;
     else if (this->is_subset_of(that))
@@ -568,7 +568,7 @@ DiscreteRange<T>::max() const {
 template <typename T>
 bool
 DiscreteRange<T>::has_union(DiscreteRange::self_type const &that) const {
-  return this->has_intersection(that) || this->is_adjacent_to(that);
+  return this->has_intersection_with(that) || this->is_adjacent_to(that);
 }
 
 template <typename T>
@@ -644,7 +644,7 @@ operator!=(DiscreteRange<T> const &lhs, DiscreteRange<T> const &rhs) {
 template <typename T>
 bool
 operator^(DiscreteRange<T> const &lhs, DiscreteRange<T> const &rhs) {
-  return lhs.has_intersection(rhs);
+  return lhs.has_intersection_with(rhs);
 }
 
 /** Containment ordering.
-- 
2.43.0


From ae3f0a1cf7a6bdfc12fd6cf8626e4e6bcc476874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 032/109] fix: DiscreteRange::left_edge_relationship compared
 with the wrong edge of the other range

---
 code/include/swoc/DiscreteRange.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 7becebf..b1dbdd1 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -454,10 +454,11 @@ DiscreteRange<T>::hull(DiscreteRange::self_type const &that) const {
 template <typename T>
 auto
 DiscreteRange<T>::left_edge_relationship(self_type const &that) const -> EdgeRelation {
-  if (_max < that._max) {
-    return ++metric_type(_max) < that._max ? EdgeRelation::GAP : EdgeRelation::ADJ;
+  if (_max < that._min) {
+    metric_type max(_max); // some built in integer types don't support increment on rvalues.
+    return ++max < that._min ? EdgeRelation::GAP : EdgeRelation::ADJ;
   }
-  return _min >= that._min ? EdgeRelation::NONE : EdgeRelation::OVLP;
+  return _min > that._min ? EdgeRelation::NONE : EdgeRelation::OVLP;
 }
 
 template <typename T>
-- 
2.43.0


From da8b2af553c1fc1173ddb09b9ba889efc747e087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:29 +0000
Subject: [PATCH 033/109] fix: DiscreteRange reported an intersection with an
 empty range

---
 code/include/swoc/DiscreteRange.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index b1dbdd1..42db130 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -8,6 +8,7 @@
  */
 
 #pragma once
+#include <algorithm>
 #include <limits>
 #include <functional>
 
@@ -582,7 +583,7 @@ DiscreteRange<T>::operator&=(DiscreteRange::self_type const &that) {
 template <typename T>
 bool
 DiscreteRange<T>::has_intersection_with(DiscreteRange::self_type const &that) const {
-  return (that._min <= _min && _min <= that._max) || (_min <= that._min && that._min <= _max);
+  return std::max(_min, that._min) <= std::min(_max, that._max); // false if either is empty.
 }
 
 template <typename T>
-- 
2.43.0


From b60adb6f7d0dac100fd3a0499b01f50350bcabeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:29 +0000
Subject: [PATCH 034/109] fix: DiscreteSpace::erase did nothing if no range
 started at or before the erased range

---
 code/include/swoc/DiscreteRange.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 42db130..011c4e2 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1277,6 +1277,9 @@ template <typename METRIC, typename PAYLOAD>
 DiscreteSpace<METRIC, PAYLOAD> &
 DiscreteSpace<METRIC, PAYLOAD>::erase(DiscreteSpace::range_type const &range) {
   Node *n = this->lower_node(range.min()); // current node.
+  if (nullptr == n) {
+    n = this->head(); // no node at or before the range, but some could start inside it.
+  }
   while (n) {
     auto nn = next(n);            // cache in case @a n disappears.
     if (n->min() > range.max()) { // cleared the target range, done.
-- 
2.43.0


From dc7cb78dc08b962eabc4680186c4992a0cefcab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:07 +0000
Subject: [PATCH 035/109] fix: DiscreteSpace::blend wrapped the remaining range
 at the maximum metric and painted the entire space

---
 code/include/swoc/DiscreteRange.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 011c4e2..33e7e92 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1608,6 +1608,9 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
           }
           n = fn; // skip to use new node as current node.
         }
+        if (n->max() == detail::maximum<METRIC>()) {
+          return *this; // nothing can be left to fill.
+        }
         remaining.assign_min(++metric_type(n->max())); // going to fill up n->max(), clip target.
       } else {                                         // clear, don't fill.
         auto n_r = n->range();                         // cache to avoid ordering requirements.
@@ -1695,7 +1698,11 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     unique_node fill{_fa.make(n->min(), max, n->payload()), node_cleaner};
     bool fill_p = blender(fill->payload(), color); // fill or clear?
     auto next_n = next(n);                         // cache this in case @a n is removed.
-    remaining.assign_min(++METRIC{fill->max()});   // Update what is left to fill.
+    if (fill->max() == detail::maximum<METRIC>()) { // Update what is left to fill.
+      remaining.clear();
+    } else {
+      remaining.assign_min(++METRIC{fill->max()});
+    }
 
     // Clean up the range for @a n
     if (fill_p) {
-- 
2.43.0


From fa3bf2210df408900d198c1bf958fa3a1c9c7ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:07 +0000
Subject: [PATCH 036/109] fix: DiscreteSpace::blend leaked a payload if the
 blend cleared the middle of a range

---
 code/include/swoc/DiscreteRange.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 33e7e92..4b40006 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1615,7 +1615,6 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
       } else {                                         // clear, don't fill.
         auto n_r = n->range();                         // cache to avoid ordering requirements.
         if (n_r.max() > remaining.max()) {             // overhang on the right, must split.
-          fill.release();                              // not going to use it,
           n->assign_min(++metric_type(remaining.max()));
           this->insert_before(n, _fa.make(n_r.min(), --metric_type(remaining.min()), n->payload()));
           return *this;
-- 
2.43.0


From 882198b78837b08cc400581c39bcfb1afb16ba30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:07 +0000
Subject: [PATCH 037/109] fix: DiscreteSpace::blend painted the gap to a
 non-adjacent range, and blended uncolored metrics twice, next to a range of
 the plain color

---
 code/include/swoc/DiscreteRange.h | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 4b40006..b1ebc5c 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1671,22 +1671,12 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
 
     // If there's a gap on the left, fill from @a r.min to @a n.min - 1
     if (plain_color_p && remaining.min() < n->min()) {
-      if (n->payload() == plain_color) {
-        if (pred && pred->payload() == n->payload()) {
-          auto pred_min{pred->min()};
-          this->remove(pred);
-          n->assign_min(pred_min);
-        } else {
-          n->assign_min(remaining.min());
-        }
+      auto n_min_minus_1{n->min()};
+      --n_min_minus_1;
+      if (pred && ++metric_type(pred->max()) == remaining.min() && pred->payload() == plain_color) {
+        pred->assign_max(n_min_minus_1);
       } else {
-        auto n_min_minus_1{n->min()};
-        --n_min_minus_1;
-        if (pred && pred->payload() == plain_color) {
-          pred->assign_max(n_min_minus_1);
-        } else {
-          this->insert_before(n, _fa.make(remaining.min(), n_min_minus_1, plain_color));
-        }
+        this->insert_before(n, _fa.make(remaining.min(), n_min_minus_1, plain_color));
       }
     }
 
@@ -1711,7 +1701,11 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
 
       if (right_ext_p) {
         if (n->payload() == fill->payload()) {
-          n->assign_min(fill->min());
+          if (pred_adj_p) { // same color on the left, collapse.
+            auto pred_min{pred->min()};
+            this->remove(pred);
+            n->assign_min(pred_min);
+          }
         } else {
           n->assign_min(range_max_plus_1);
           if (pred_adj_p) {
-- 
2.43.0


From debe3a0b8baf49ec38c0da90978b698ffe744819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:10 +0000
Subject: [PATCH 038/109] fix: DiscreteSpace lower_bound and upper_bound
 compile

---
 code/include/swoc/DiscreteRange.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index b1ebc5c..c8a9528 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1172,14 +1172,14 @@ template <typename METRIC, typename PAYLOAD>
 auto
 DiscreteSpace<METRIC, PAYLOAD>::lower_bound(METRIC const &m) -> iterator {
   auto n = this->lower_node(m);
-  return n ? iterator(n) : this->end();
+  return n ? _list.iterator_for(n) : this->end();
 }
 
 template <typename METRIC, typename PAYLOAD>
 auto
 DiscreteSpace<METRIC, PAYLOAD>::upper_bound(METRIC const &m) -> iterator {
   auto n = this->upper_node(m);
-  return n ? iterator(n) : this->end();
+  return n ? _list.iterator_for(n) : this->end();
 }
 
 template <typename METRIC, typename PAYLOAD>
-- 
2.43.0


From f9b1e574337c25d8c7ecab38866ffc6a459e1a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:35 +0000
Subject: [PATCH 039/109] fix: DiscreteSpace blend does not extend a neighbor
 over uncolored metrics if the plain blend is invalid

---
 code/include/swoc/DiscreteRange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index c8a9528..179e882 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1650,7 +1650,7 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     if (!right_overlap_p) {
       // @a pred has the same color as would be used for unmapped values
       // and is adjacent to @a remaining.
-      bool pred_plain_colored_p = pred && ++metric_type(pred->max()) == remaining.min() && pred->payload() == plain_color;
+      bool pred_plain_colored_p = plain_color_p && pred && ++metric_type(pred->max()) == remaining.min() && pred->payload() == plain_color;
 
       if (right_adj_p && n_plain_colored_p) { // can pull @a n left to cover
         n->assign_min(remaining.min());
-- 
2.43.0


From d497b0adf3ec83cfba9c9699dcf2201a72b62e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:23 +0000
Subject: [PATCH 040/109] fix: IP4Addr::load rejects empty octets

---
 code/src/swoc_ip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 6403922..163c007 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -313,7 +313,7 @@ IP4Addr::load(std::string_view const &text) {
     TextView parsed;
     auto token = src.take_prefix_at('.');
     auto v     = svtou(token, &parsed);
-    if (parsed.size() != token.size()) {
+    if (token.empty() || parsed.size() != token.size()) {
       break;
     }
     if (src.empty()) {
-- 
2.43.0


From 9c752c422337e4288c8d14da20dd646f7467d36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:54 +0000
Subject: [PATCH 041/109] fix: IP6Addr::load rejects out of range or signed
 quads and a trailing colon, and clears on failure

---
 code/src/swoc_ip.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 163c007..67d942f 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -421,6 +421,7 @@ IP6Addr::load(std::string_view const &str) {
   int empty_idx = -1;
   auto quad     = _addr._quad.data();
 
+  this->clear();
   src.trim_if(&isspace);
   if (src && '[' == *src) {
     ++src;
@@ -430,7 +431,8 @@ IP6Addr::load(std::string_view const &str) {
     src.remove_suffix(1);
   }
 
-  if (src.size() < 2) {
+  // A trailing ':' is valid only as part of a trailing "::".
+  if (src.size() < 2 || (src.back() == ':' && src[src.size() - 2] != ':')) {
     return false;
   }
 
@@ -460,13 +462,14 @@ IP6Addr::load(std::string_view const &str) {
     TextView token{src.take_prefix_at(':')};
     if (token.empty()) {
       if (empty_idx >= 0) { // two instances of "::", fail.
+        this->clear();
         return false;
       }
       empty_idx = n;
     } else {
       TextView r;
-      auto x = svtoi(token, &r, 16);
-      if (r.size() == token.size()) {
+      auto x = svtou(token, &r, 16);
+      if (r.size() == token.size() && x <= QUAD_MASK) {
         quad[QUAD_IDX[n++]] = x;
       } else {
         break;
@@ -484,6 +487,7 @@ IP6Addr::load(std::string_view const &str) {
       }
       n = N_QUADS; // Mark success.
     } else {
+      this->clear();
       return false; // too many quads - full set plus empty.
     }
   }
-- 
2.43.0


From ab07e67207047120bf71d12a6536fe74cc89ec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:13 +0000
Subject: [PATCH 042/109] fix: IP6Addr::load rejects an invalid quad after ::

---
 code/src/swoc_ip.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 67d942f..bfa0f8d 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -472,7 +472,8 @@ IP6Addr::load(std::string_view const &str) {
       if (r.size() == token.size() && x <= QUAD_MASK) {
         quad[QUAD_IDX[n++]] = x;
       } else {
-        break;
+        this->clear();
+        return false;
       }
     }
   }
-- 
2.43.0


From 358bfa0634f92f32a492b8ebaf3e795bbe934b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:13 +0000
Subject: [PATCH 043/109] fix: address shifts by zero or by the full width or
 more are defined

---
 code/include/swoc/IPAddr.h |  4 ++--
 code/src/swoc_ip.cc        | 12 ++++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/IPAddr.h b/code/include/swoc/IPAddr.h
index 4964129..a38c246 100644
--- a/code/include/swoc/IPAddr.h
+++ b/code/include/swoc/IPAddr.h
@@ -777,13 +777,13 @@ IP4Addr::family() const {
 
 inline auto
 IP4Addr::operator<<=(unsigned n) -> self_type & {
-  _addr <<= n;
+  _addr = n < WIDTH ? _addr << n : 0;
   return *this;
 }
 
 inline auto
 IP4Addr::operator>>=(unsigned n) -> self_type & {
-  _addr >>= n;
+  _addr = n < WIDTH ? _addr >> n : 0;
   return *this;
 }
 
diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index bfa0f8d..98ba148 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -373,7 +373,11 @@ IP6Addr::cmp(const self_type &that) const {
 IP6Addr &
 IP6Addr::operator<<=(unsigned int n) {
   static constexpr auto MASK = ~word_type{0};
-  if (n < WORD_WIDTH) {
+  if (n == 0) {
+    return *this;
+  } else if (n >= WIDTH) {
+    return this->clear();
+  } else if (n < WORD_WIDTH) {
     _addr._store[MSW] <<= n;
     _addr._store[MSW]  |= (_addr._store[LSW] >> (WORD_WIDTH - n)) & ~(MASK << n);
     _addr._store[LSW] <<= n;
@@ -388,7 +392,11 @@ IP6Addr::operator<<=(unsigned int n) {
 IP6Addr &
 IP6Addr::operator>>=(unsigned int n) {
   static constexpr auto MASK = ~word_type{0};
-  if (n < WORD_WIDTH) {
+  if (n == 0) {
+    return *this;
+  } else if (n >= WIDTH) {
+    return this->clear();
+  } else if (n < WORD_WIDTH) {
     _addr._store[LSW] >>= n;
     _addr._store[LSW]  |= (_addr._store[MSW] & ~(MASK << n)) << (WORD_WIDTH - n);
     _addr._store[MSW] >>= n;
-- 
2.43.0


From 37daa92aba4cf7233fa61d0f2057cb448f456df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:13 +0000
Subject: [PATCH 044/109] fix: IPAddr operator < orders IPv4 before IPv6, not
 both ways

---
 code/src/swoc_ip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 98ba148..3358664 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -601,7 +601,7 @@ IPAddr::operator<(self_type const &that) const {
   } else if (AF_INET6 == _family) {
     switch (that._family) {
     case AF_INET:
-      return true;
+      return false;
     case AF_INET6:
       return _addr._ip6 < that._addr._ip6;
     default:
-- 
2.43.0


From 8517e7b8645f1a81b89547f6445b050495cdb1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:13 +0000
Subject: [PATCH 045/109] fix: IPMask shifts saturate instead of wrapping

---
 code/include/swoc/IPAddr.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/IPAddr.h b/code/include/swoc/IPAddr.h
index a38c246..0877dd2 100644
--- a/code/include/swoc/IPAddr.h
+++ b/code/include/swoc/IPAddr.h
@@ -1179,13 +1179,17 @@ IPMask::clear() -> self_type & {
 
 inline auto
 IPMask::operator<<=(raw_type n) -> self_type & {
-  _cidr -= n;
+  if (this->is_valid()) {
+    _cidr = _cidr > n ? _cidr - n : 0;
+  }
   return *this;
 }
 
 inline auto
 IPMask::operator>>=(IPMask::raw_type n) -> self_type & {
-  _cidr += n;
+  if (this->is_valid()) {
+    _cidr = std::min<unsigned>(unsigned(_cidr) + n, IP6Addr::WIDTH);
+  }
   return *this;
 }
 
-- 
2.43.0


From 5701186f5952b95f2ae5693701e5dad70becbe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 046/109] fix: IPMask::load rejects an empty text and widths
 larger than any address instead of truncating

---
 code/include/swoc/IPAddr.h | 1 +
 code/src/swoc_ip.cc        | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/IPAddr.h b/code/include/swoc/IPAddr.h
index 0877dd2..21e1e57 100644
--- a/code/include/swoc/IPAddr.h
+++ b/code/include/swoc/IPAddr.h
@@ -7,6 +7,7 @@
 #pragma once
 
 #include <cstddef>
+#include <algorithm>
 
 #include "swoc/swoc_version.h"
 #include "swoc/swoc_meta.h"
diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 3358664..37ebbd3 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -675,11 +675,12 @@ bool operator == (IPAddr const& lhs, sockaddr const * sa) {
 bool
 IPMask::load(string_view const &text) {
   TextView parsed;
-  _cidr = swoc::svtou(text, &parsed);
-  if (parsed.size() != text.size()) {
+  auto n = swoc::svtou(text, &parsed);
+  if (text.empty() || parsed.size() != text.size() || n > IP6Addr::WIDTH) {
     _cidr = 0;
     return false;
   }
+  _cidr = n;
   return true;
 }
 
-- 
2.43.0


From 9208f8b0de8d9119061cbf117f6a6e582094cbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:47 +0000
Subject: [PATCH 047/109] fix: range and network text with a mask wider than
 the address family is rejected

---
 code/src/swoc_ip.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 37ebbd3..d17e6a0 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -873,7 +873,7 @@ IP4Net::load(TextView text) {
           mask_p = (m == mask.as_ip4()); // must be an actual mask like address.
         }
       }
-      if (mask_p) {
+      if (mask_p && mask.width() <= IP4Addr::WIDTH) {
         this->assign(addr, mask);
         return true;
       }
@@ -896,7 +896,7 @@ IP6Net::load(TextView text) {
           mask_p = (m == mask.as_ip6()); // must be an actual mask like address.
         }
       }
-      if (mask_p) {
+      if (mask_p && mask.width() <= IP6Addr::WIDTH) {
         this->assign(addr, mask);
         return true;
       }
@@ -920,7 +920,7 @@ IPNet::load(TextView text) {
           mask_p = (m == mask.as_ip6()); // must be an actual mask like address.
         }
       }
-      if (mask_p) {
+      if (mask_p && mask.width() <= IP6Addr::WIDTH) {
         this->assign(a6, mask);
         return true;
       }
@@ -931,7 +931,7 @@ IPNet::load(TextView text) {
           mask_p = (m == mask.as_ip4()); // must be an actual mask like address.
         }
       }
-      if (mask_p) {
+      if (mask_p && mask.width() <= IP4Addr::WIDTH) {
         this->assign(a4, mask);
         return true;
       }
@@ -975,7 +975,7 @@ IP4Range::load(string_view text) {
         if (addr.load(text.substr(0, idx))) { // load the address
           IPMask mask;
           text.remove_prefix(idx + 1); // drop address and separator.
-          if (mask.load(text)) {
+          if (mask.load(text) && mask.width() <= metric_type::WIDTH) {
             this->assign(addr, mask);
             return true;
           }
@@ -1096,7 +1096,7 @@ IP6Range::load(std::string_view text) {
         if (addr.load(text.substr(0, idx))) { // load the address
           IPMask mask;
           text.remove_prefix(idx + 1); // drop address and separator.
-          if (mask.load(text)) {
+          if (mask.load(text) && mask.width() <= metric_type::WIDTH) {
             this->assign(addr, mask);
             return true;
           }
-- 
2.43.0


From 84dd765322dc4d58b49cc51cec093264e658ba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:47 +0000
Subject: [PATCH 048/109] fix: IP6Range::assign assigns for masks wider than
 the address, as IP4Range does

---
 code/src/swoc_ip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index d17e6a0..224b367 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -1074,7 +1074,7 @@ IP6Range::assign(IP6Addr const &addr, IPMask const &mask) {
     _min._addr._store[0] = _max._addr._store[0] = addr._addr._store[0];
     _min._addr._store[1]                        = 0;
     _max._addr._store[1]                        = FULL_MASK;
-  } else if (cidr <= 128) { // _min bytes changed, _max bytes unaffected.
+  } else { // _min bytes changed, _max bytes unaffected.
     _min = _max = addr;
     if (cidr < 128) {
       auto bits             = FULL_MASK << (128 - cidr);
-- 
2.43.0


From 458e1736c1d8bfe452e19c9d02c7861221ef4733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:47 +0000
Subject: [PATCH 049/109] fix: IPRange::contains checks the family instead of
 the IPv4 range content

---
 code/include/swoc/IPRange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/IPRange.h b/code/include/swoc/IPRange.h
index 547afdb..6cc756f 100644
--- a/code/include/swoc/IPRange.h
+++ b/code/include/swoc/IPRange.h
@@ -2007,7 +2007,7 @@ inline bool IPRange::contains(IPAddr const & addr) const {
   if (addr.family() != _family) {
     return false;
   }
-  if (this->ip4()) {
+  if (this->is_ip4()) {
     return _range._ip4.contains(addr.ip4());
   } else if (this->is_ip6()) {
     return _range._ip6.contains(addr.ip6());
-- 
2.43.0


From 2ec370da7c2cb93b0acab4928ceae5ff27911c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:08 +0000
Subject: [PATCH 050/109] fix: IPRange::load marks the range invalid on failure

---
 code/src/swoc_ip.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 224b367..5b786ea 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -1133,6 +1133,7 @@ IPRange::load(std::string_view const &text) {
     return true;
   }
 
+  this->clear();
   return false;
 }
 
-- 
2.43.0


From db01978e6c32932e0ee5d03f6207757b6be932ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:09 +0000
Subject: [PATCH 051/109] fix: IPEndpoint is invalid after a failed parse or
 construction from an invalid address

---
 code/include/swoc/IPEndpoint.h | 2 ++
 code/src/swoc_ip.cc            | 1 +
 2 files changed, 3 insertions(+)

diff --git a/code/include/swoc/IPEndpoint.h b/code/include/swoc/IPEndpoint.h
index 0cfde9c..984c07b 100644
--- a/code/include/swoc/IPEndpoint.h
+++ b/code/include/swoc/IPEndpoint.h
@@ -282,10 +282,12 @@ inline IPEndpoint::IPEndpoint() {
 }
 
 inline IPEndpoint::IPEndpoint(IPAddr const &addr) {
+  this->invalidate(); // in case @a addr isn't valid.
   this->assign(addr);
 }
 
 inline IPEndpoint::IPEndpoint(IPSrv const &srv) {
+  this->invalidate(); // in case @a srv isn't valid.
   this->assign(srv);
 }
 
diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 5b786ea..d24cadd 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -207,6 +207,7 @@ IPEndpoint::parse(std::string_view const &str) {
     this->assign(srv);
     return true;
   }
+  this->invalidate();
   return false;
 }
 
-- 
2.43.0


From 61ac521e022486138f1f430dab2b0c311dd29ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:09 +0000
Subject: [PATCH 052/109] fix: IPEndpoint::tokenize rejects an unmatched
 bracket

---
 code/src/swoc_ip.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index d24cadd..e225615 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -170,6 +170,10 @@ IPEndpoint::tokenize(std::string_view str, std::string_view *addr, std::string_v
     // Check for brackets.
     if ('[' == *src) {
       ++src; // skip bracket.
+      if (src.find(']') == TextView::npos) { // unmatched bracket.
+        *rest = src;
+        return false;
+      }
       *addr = src.take_prefix_at(']');
       if (':' == *src) {
         colon_p = true;
-- 
2.43.0


From 6182e9b50a6a45f6715f28480ad2c3b5d8282896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:09 +0000
Subject: [PATCH 053/109] fix: IPEndpoint::assign to itself reports a valid
 address

---
 code/src/swoc_ip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index e225615..786c6e1 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -63,7 +63,7 @@ IPEndpoint::assign(sockaddr *dst, sockaddr const *src) {
       memcpy(dst, src, n);
     }
   }
-  return n != 0;
+  return self_type::is_valid(dst);
 }
 
 IPEndpoint &
-- 
2.43.0


From c0753bdbdaffa30d1a153702e2ac0c049a6b2d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:39 +0000
Subject: [PATCH 054/109] fix: IPAddr family is formatted as documented, the
 same as for a socket address

---
 code/src/bw_ip_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_ip_format.cc b/code/src/bw_ip_format.cc
index 2fd66fb..25cb07c 100644
--- a/code/src/bw_ip_format.cc
+++ b/code/src/bw_ip_format.cc
@@ -289,7 +289,7 @@ bwformat(BufferWriter &w, Spec const &spec, IPAddr const &addr) {
     if (spec.has_numeric_type()) {
       bwformat(w, local_spec, static_cast<uintmax_t>(addr.family()));
     } else {
-      swoc::bwformat(w, local_spec, addr.family());
+      swoc::bwformat(w, local_spec, IPEndpoint::family_name(addr.family()));
     }
   }
   return w;
-- 
2.43.0


From a5be5ce4f0719a9a305413b7f085af36d788750f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 055/109] fix: FixedBufferWriter::copy clips the regions to the
 buffer

---
 code/include/swoc/BufferWriter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/BufferWriter.h b/code/include/swoc/BufferWriter.h
index 154da37..9d0dac7 100644
--- a/code/include/swoc/BufferWriter.h
+++ b/code/include/swoc/BufferWriter.h
@@ -626,9 +626,9 @@ FixedBufferWriter::clear() -> self_type & {
 inline auto
 FixedBufferWriter::copy(size_t dst, size_t src, size_t n) -> self_type & {
   auto limit = std::min<size_t>(_capacity, _attempted); // max offset of region possible.
-  MemSpan<char> src_span{_buffer + src, std::min(limit, src + n)};
-  MemSpan<char> dst_span{_buffer + dst, std::min(limit, dst + n)};
-  std::memmove(dst_span.data(), src_span.data(), std::min(dst_span.size(), src_span.size()));
+  if (auto first = std::max(dst, src); first < limit) {
+    std::memmove(_buffer + dst, _buffer + src, std::min(n, limit - first));
+  }
   return *this;
 }
 
-- 
2.43.0


From df1c065028ec61d669226674d281cb968098b11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 056/109] fix: Spec::parse does not read past the end of the
 format text

---
 code/src/bw_format.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 60ceacc..2aa9d66 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -127,7 +127,9 @@ Spec::parse(TextView fmt) {
           _align = Align::SIGN;
         }
         _fill = '0';
-        ++sz;
+        if (!(++sz).size()) {
+          return true;
+        }
       }
       num = sz;
       n   = svto_radix<10>(num);
-- 
2.43.0


From 278c5b7ce0b662b69fa2fe62925f1cf8e8fb18f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:10 +0000
Subject: [PATCH 057/109] fix: post increment of the IPv6 and generic network
 iterators is defined

---
 code/include/swoc/IPRange.h | 7 +++++++
 code/src/swoc_ip.cc         | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/code/include/swoc/IPRange.h b/code/include/swoc/IPRange.h
index 6cc756f..aae045a 100644
--- a/code/include/swoc/IPRange.h
+++ b/code/include/swoc/IPRange.h
@@ -2431,6 +2431,13 @@ IPRange::NetSource::operator++() -> self_type & {
   return *this;
 }
 
+inline auto
+IPRange::NetSource::operator++(int) -> self_type {
+  auto zret{*this};
+  ++*this;
+  return zret;
+}
+
 inline auto
 IPRange::NetSource::operator->() -> self_type * {
   return this;
diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 786c6e1..e8ecc66 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -1240,6 +1240,13 @@ IP6Range::NetSource::operator++() -> self_type & {
   return *this;
 }
 
+auto
+IP6Range::NetSource::operator++(int) -> self_type {
+  auto zret{*this};
+  ++*this;
+  return zret;
+}
+
 void
 IP6Range::NetSource::search_wider() {
   while (_mask.width() > 0) {
-- 
2.43.0


From 0cfd7e9c0ee6be2074a1293e0e20623d59b6feb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:10 +0000
Subject: [PATCH 058/109] fix: assigning an invalid view to an IPRange makes it
 invalid

---
 code/include/swoc/IPRange.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/include/swoc/IPRange.h b/code/include/swoc/IPRange.h
index aae045a..7d0125e 100644
--- a/code/include/swoc/IPRange.h
+++ b/code/include/swoc/IPRange.h
@@ -1931,6 +1931,8 @@ IPRange::operator=(const IPRangeView &rv) -> self_type & {
     *this = *rv._raw._4;
   } else if (AF_INET6 == rv._family) {
     *this = *rv._raw._6;
+  } else {
+    this->clear();
   }
   return *this;
 }
-- 
2.43.0


From c8407b47e02d5353cdd231c3162443e216b57b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:58 +0000
Subject: [PATCH 059/109] fix: define IPEndpoint construction from sockaddr_in
 and sockaddr_in6, which were declared only

---
 code/include/swoc/IPEndpoint.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/code/include/swoc/IPEndpoint.h b/code/include/swoc/IPEndpoint.h
index 984c07b..a4a1c32 100644
--- a/code/include/swoc/IPEndpoint.h
+++ b/code/include/swoc/IPEndpoint.h
@@ -295,6 +295,14 @@ inline IPEndpoint::IPEndpoint(sockaddr const *addr) {
   this->assign(addr);
 }
 
+inline IPEndpoint::IPEndpoint(sockaddr_in const *sin) {
+  this->assign(sin);
+}
+
+inline IPEndpoint::IPEndpoint(sockaddr_in6 const *sin6) {
+  this->assign(sin6);
+}
+
 inline IPEndpoint::IPEndpoint(IPEndpoint::self_type const &that) : self_type(&that.sa) {}
 
 inline IPEndpoint &
-- 
2.43.0


From 68b7e9bb7296da4a59161e22c5aded93b9c8a883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:32 +0000
Subject: [PATCH 060/109] fix: IPEndpoint::tokenize result does not depend on
 which outputs are wanted

---
 code/src/swoc_ip.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index e8ecc66..d07cb68 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -148,15 +148,15 @@ IPEndpoint::tokenize(std::string_view str, std::string_view *addr, std::string_v
   TextView src(str); /// Easier to work with for parsing.
   // In case the incoming arguments are null, set them here and only check for null once.
   // it doesn't matter if it's all the same, the results will be thrown away.
-  std::string_view local;
+  std::string_view local_addr, local_port, local_rest;
   if (!addr) {
-    addr = &local;
+    addr = &local_addr;
   }
   if (!port) {
-    port = &local;
+    port = &local_port;
   }
   if (!rest) {
-    rest = &local;
+    rest = &local_rest;
   }
 
   *addr = std::string_view{};
-- 
2.43.0


From f50e27162f07e0b73de1cc918b549709252693d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 061/109] fix: IntrusiveDList::erase of a range compiles,
 updates the count, and allows an empty range

---
 code/include/swoc/IntrusiveDList.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/code/include/swoc/IntrusiveDList.h b/code/include/swoc/IntrusiveDList.h
index 2b5b0a2..630f610 100644
--- a/code/include/swoc/IntrusiveDList.h
+++ b/code/include/swoc/IntrusiveDList.h
@@ -924,28 +924,33 @@ IntrusiveDList<L>::erase(const iterator &loc) -> iterator {
 template <typename L>
 auto
 IntrusiveDList<L>::erase(const iterator &first, const iterator &limit) -> iterator {
-  value_type *spot = first;
+  value_type *spot = first._v;
+  value_type *stop = limit._v;
+  if (spot == stop) { // nothing to erase.
+    return this->iterator_for(stop);
+  }
   value_type *prev{L::prev_ptr(spot)};
   if (prev) {
-    L::next_ptr(prev) = limit;
+    L::next_ptr(prev) = stop;
   }
   if (spot == _head) {
-    _head = limit;
+    _head = stop;
   }
   // tail is only updated if @a limit is @a end (e.g., @c nullptr).
-  if (nullptr == limit) {
+  if (nullptr == stop) {
     _tail = prev;
   } else {
-    L::prev_ptr(limit) = prev;
+    L::prev_ptr(stop) = prev;
   }
   // Clear links in removed elements.
-  while (spot != limit) {
+  while (spot != stop) {
     value_type *target{spot};
     spot                = L::next_ptr(spot);
     L::prev_ptr(target) = L::next_ptr(target) = nullptr;
+    --_count;
   };
 
-  return {limit._v, this};
+  return this->iterator_for(stop);
 }
 
 template <typename L>
-- 
2.43.0


From 958548a89fe048c831517f4fcf8311def0a737c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 062/109] fix: IntrusiveHashMap::erase updates the chain length
 for any element of the chain

---
 code/include/swoc/IntrusiveHashMap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 4bbe3b6..231788b 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -555,6 +555,8 @@ IntrusiveHashMap<H>::erase(iterator const &loc) -> iterator {
       b->_v = nv;
       --b->_count;
     }
+  } else {
+    --b->_count;
   }
   _list.erase(loc);
   return zret;
-- 
2.43.0


From fa64feb1e99a1495b421efcbee384c7f7b01442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 063/109] fix: IntrusiveHashMap::erase of a range compiles and
 keeps the buckets consistent

---
 code/include/swoc/IntrusiveHashMap.h | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 231788b..38500f8 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -577,21 +577,10 @@ template <typename H>
 auto
 IntrusiveHashMap<H>::erase(iterator const &start, iterator const &limit) -> iterator {
   auto spot{start};
-  Bucket *bucket{this->bucket_for(spot)};
   while (spot != limit) {
-    auto target         = bucket;
-    bucket              = bucket->_link._next; // bump now to avoid forward iteration problems in case of bucket removal.
-    value_type *v_limit = bucket ? bucket->_v : nullptr;
-    while (spot != v_limit && spot != limit) {
-      --(target->_count);
-      ++spot;
-    }
-    if (target->_count == 0) {
-      _active_buckets.erase(target);
-    }
+    spot = this->erase(spot);
   }
-  _list.erase(start, limit);
-  return _list.iterator_for(limit); // convert from const_iterator back to iterator
+  return spot;
 };
 
 template <typename H>
-- 
2.43.0


From 05721997f22fd0f692f22fa8300d0e41b0408d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 064/109] fix: IntrusiveHashMap constructed with zero buckets
 is usable

---
 code/include/swoc/IntrusiveHashMap.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 38500f8..401c10b 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -382,9 +382,7 @@ IntrusiveHashMap<H>::const_range::end() const -> const_iterator const & {
 // ---------------------
 
 template <typename H> IntrusiveHashMap<H>::IntrusiveHashMap(size_t n) {
-  if (n) {
-    _table.resize(*std::lower_bound(PRIME.begin(), PRIME.end(), n));
-  }
+  _table.resize(*std::lower_bound(PRIME.begin(), PRIME.end(), n)); // always at least one bucket.
 }
 
 template <typename H>
-- 
2.43.0


From ac595d97efe3ab6141221fb9214aaed32d7a1c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 065/109] fix: define the conversion from range to const_range
 of IntrusiveHashMap

---
 code/include/swoc/IntrusiveHashMap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 401c10b..39dcf24 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -367,6 +367,8 @@ IntrusiveHashMap<H>::range::end() const -> iterator const & {
   return super_type::second;
 }
 
+template <typename H> IntrusiveHashMap<H>::const_range::const_range(range const &r) : super_type(r.first, r.second) {}
+
 template <typename H>
 auto
 IntrusiveHashMap<H>::const_range::begin() const -> const_iterator const & {
-- 
2.43.0


From 8b5c5248eee568005c9e0a2ea7e92d1de08f888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:42 +0000
Subject: [PATCH 066/109] fix: decrement of Lexicon iterators compiles and
 moves backwards

---
 code/include/swoc/Lexicon.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Lexicon.h b/code/include/swoc/Lexicon.h
index c574bc7..30d0f31 100644
--- a/code/include/swoc/Lexicon.h
+++ b/code/include/swoc/Lexicon.h
@@ -770,15 +770,15 @@ Lexicon<E>::value_iterator::operator++(int) -> self_type {
 template <typename E>
 auto
 Lexicon<E>::value_iterator::operator--() -> self_type & {
-  super_type::_item = super_type::_item->_value_link->_prev;
+  super_type::_item = super_type::_item->_value_link._prev;
   return *this;
 }
 
 template <typename E>
 auto
 Lexicon<E>::value_iterator::operator--(int) -> self_type {
-  self_type tmp;
-  ++*this;
+  self_type tmp{*this};
+  --*this;
   return tmp;
 }
 
@@ -800,15 +800,15 @@ Lexicon<E>::name_iterator::operator++(int) -> self_type {
 template <typename E>
 auto
 Lexicon<E>::name_iterator::operator--() -> self_type & {
-  super_type::_item = super_type::_item->_name_link->_prev;
+  super_type::_item = super_type::_item->_name_link._prev;
   return *this;
 }
 
 template <typename E>
 auto
 Lexicon<E>::name_iterator::operator--(int) -> self_type {
-  self_type tmp;
-  ++*this;
+  self_type tmp{*this};
+  --*this;
   return tmp;
 }
 
-- 
2.43.0


From 51d1cf8d769755730ca93d43527c931f65908594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:42 +0000
Subject: [PATCH 067/109] fix: Lexicon keeps its own copy of the default name,
 as of all other names

---
 code/include/swoc/Lexicon.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Lexicon.h b/code/include/swoc/Lexicon.h
index 30d0f31..d39a3fa 100644
--- a/code/include/swoc/Lexicon.h
+++ b/code/include/swoc/Lexicon.h
@@ -699,7 +699,7 @@ Lexicon<E>::set_default(Default const &handler) -> self_type & {
     _value_default = std::get<3>(handler);
     break;
   case 2:
-    _name_default = std::get<2>(handler);
+    _name_default = this->localize(std::get<2>(handler));
     break;
   case 4:
     _name_default = std::get<4>(handler);
-- 
2.43.0


From 02cf3c3959ca5a7deb71b60f10bdd053a4b3e974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:14 +0000
Subject: [PATCH 068/109] fix: Errata::code is the assigned code even if there
 are no annotations

---
 code/include/swoc/Errata.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Errata.h b/code/include/swoc/Errata.h
index 6ee0be5..09131dc 100644
--- a/code/include/swoc/Errata.h
+++ b/code/include/swoc/Errata.h
@@ -1124,7 +1124,7 @@ Errata::empty() const {
 
 inline auto
 Errata::code() const -> code_type const & {
-  return this->empty() ? DEFAULT_CODE : _data->_code;
+  return _data ? _data->_code : DEFAULT_CODE;
 }
 
 inline auto
-- 
2.43.0


From afe641887e6bddf591799d3a0d19515c10c641a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:14 +0000
Subject: [PATCH 069/109] fix: formatting an Errata does not read the severity
 of an annotation without one

---
 code/src/Errata.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/Errata.cc b/code/src/Errata.cc
index 4ffd875..3d28d8c 100644
--- a/code/src/Errata.cc
+++ b/code/src/Errata.cc
@@ -152,7 +152,7 @@ bwformat(BufferWriter &bw, bwf::Spec const &, Errata const &errata) {
   for (auto &note : errata) {
     if (note.text()) {
       bw.print("{}{}{}{}", swoc::bwf::If(trailing_p, "{}", glue), swoc::bwf::Pattern{int(note.level()), id_txt},
-               swoc::bwf::If(note.has_severity(), "{}{}", note.severity(), a_s_glue), note.text());
+               swoc::bwf::If(note.has_severity(), "{}{}", note.severity(Errata::DEFAULT_SEVERITY), a_s_glue), note.text());
       trailing_p = true;
     }
   }
-- 
2.43.0


From 411579612060217c34d38852b62dee76b6231ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:49 +0000
Subject: [PATCH 070/109] fix: Errata::note of an errata to itself ends

---
 code/src/Errata.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/src/Errata.cc b/code/src/Errata.cc
index 3d28d8c..aced742 100644
--- a/code/src/Errata.cc
+++ b/code/src/Errata.cc
@@ -103,8 +103,9 @@ Errata::note(const self_type &that) {
     if (that.has_severity()) {
       this->update(that.severity());
     }
-    for (auto const &annotation : that) {
-      d->_notes.append(d->_arena.make<Annotation>(d->localize(annotation._text), annotation._severity, annotation._level + 1));
+    auto n = that.length(); // Check the count, not the end, in case @a that is @a this.
+    for (auto spot = that.begin(); n > 0; --n, ++spot) {
+      d->_notes.append(d->_arena.make<Annotation>(d->localize(spot->_text), spot->_severity, spot->_level + 1));
     }
   }
   return *this;
-- 
2.43.0


From 748cfdbba79d9da051a58cbc020c65b651a66a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 071/109] fix: format specifier characters past 127 do not
 index outside the property table

---
 code/include/swoc/bwf_base.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index d5c426d..35ab202 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -474,37 +474,37 @@ extern ExternalNames Global_Names;
 
 inline Spec::Align
 Spec::align_of(char c) {
-  return static_cast<Align>(_prop._data[static_cast<unsigned>(c)] & Property::ALIGN_MASK);
+  return static_cast<Align>(_prop._data[static_cast<unsigned char>(c)] & Property::ALIGN_MASK);
 }
 
 inline bool
 Spec::is_sign(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::SIGN_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::SIGN_CHAR;
 }
 
 inline bool
 Spec::is_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::TYPE_CHAR;
 }
 
 inline bool
 Spec::is_upper_case_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::UPPER_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::UPPER_TYPE_CHAR;
 }
 
 inline bool
 Spec::is_numeric_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::NUMERIC_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::NUMERIC_TYPE_CHAR;
 }
 
 inline bool
 Spec::has_numeric_type() const {
-  return _prop._data[static_cast<unsigned>(_type)] & Property::NUMERIC_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(_type)] & Property::NUMERIC_TYPE_CHAR;
 }
 
 inline bool
 Spec::has_upper_case_type() const {
-  return _prop._data[static_cast<unsigned>(_type)] & Property::UPPER_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(_type)] & Property::UPPER_TYPE_CHAR;
 }
 
 inline bool
-- 
2.43.0


From b02c79cfee4c8bcd655b1f6d9656d68b047c3357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 072/109] fix: format specifier numbers saturate and do not
 wrap

---
 code/src/bw_format.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 2aa9d66..f9a21ef 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -75,7 +75,7 @@ Spec::parse(TextView fmt) {
   num    = _name;
   auto n = svto_radix<10>(num);
   if (num.empty()) {
-    _idx = static_cast<decltype(_idx)>(n);
+    _idx = std::min<decltype(n)>(n, std::numeric_limits<decltype(_idx)>::max());
   }
 
   if (fmt.size()) {
@@ -134,7 +134,8 @@ Spec::parse(TextView fmt) {
       num = sz;
       n   = svto_radix<10>(num);
       if (num.size() < sz.size()) {
-        _min = static_cast<decltype(_min)>(n);
+        // Limit because the fill is computed as a signed value.
+        _min = std::min<decltype(n)>(n, std::numeric_limits<int>::max());
         sz   = num;
         if (!sz.size()) {
           return true;
@@ -145,7 +146,7 @@ Spec::parse(TextView fmt) {
         num = ++sz;
         n   = svto_radix<10>(num);
         if (num.size() < sz.size()) {
-          _prec = static_cast<decltype(_prec)>(n);
+          _prec = std::min<decltype(n)>(n, std::numeric_limits<decltype(_prec)>::max());
           sz    = num;
           if (!sz.size()) {
             return true;
@@ -166,7 +167,7 @@ Spec::parse(TextView fmt) {
         num = ++sz;
         n   = svto_radix<10>(num);
         if (num.size() < sz.size()) {
-          _max = static_cast<decltype(_max)>(n);
+          _max = std::min<decltype(n)>(n, std::numeric_limits<decltype(_max)>::max());
           sz   = num;
           if (!sz.size()) {
             return true;
-- 
2.43.0


From b492a73ba769d96d62059e165a1d04d52faa958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 073/109] fix: formatting the minimum signed integer does not
 overflow

---
 code/include/swoc/bwf_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index 35ab202..cd45f9d 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -1104,7 +1104,7 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, I &&i) ->
   bool neg_p  = false;
   uintmax_t n = static_cast<uintmax_t>(i);
   if (i < 0) {
-    n     = static_cast<uintmax_t>(-i);
+    n     = 0 - n; // unsigned, because the minimum value can't be negated.
     neg_p = true;
   }
   return bwf::Format_Integer(w, spec, n, neg_p);
-- 
2.43.0


From fec0676e6b15838ae2a48d3340177f79532eea01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 074/109] fix: maximum width limits the fill too, which had no
 buffer space past the maximum

---
 code/src/bw_format.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index f9a21ef..075fc52 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -300,12 +300,11 @@ Adjust_Alignment(BufferWriter &aux, Spec const &spec) {
     for (int i = right_delta; i > 0; --i) {
       aux.write(spec._fill);
     }
+    extent = min;
+  }
 
-  } else {
-    size_t max = spec._max;
-    if (max < extent) {
-      aux.discard(extent - max);
-    }
+  if (size_t max = spec._max; max < extent) {
+    aux.discard(extent - max);
   }
 }
 
-- 
2.43.0


From daa1aa73600c19bcb0163b59430e7f0def321f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:44 +0000
Subject: [PATCH 075/109] fix: empty output is filled to the minimum width, as
 other output is

---
 code/include/swoc/bwf_base.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index cd45f9d..9c83113 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -903,11 +903,9 @@ BufferWriter::print_nfv(Binding &&names, Extractor &&ex, bwf::ArgPack const &arg
         } else if (spec._name.size()) {
           names(lw, spec);
         }
-        if (lw.extent()) {
-          bwf::Adjust_Alignment(lw, spec);
-          if (!this->commit(lw.extent())) {
-            continue;
-          }
+        bwf::Adjust_Alignment(lw, spec);
+        if (lw.extent() && !this->commit(lw.extent())) {
+          continue;
         }
         break;
       }
-- 
2.43.0


From 9a23561e8c996145e057013e94edb2da74e54030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:44 +0000
Subject: [PATCH 076/109] fix: the radix prefix of a hex dump is aligned with
 the dump

---
 code/src/bw_format.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 075fc52..a894902 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -703,12 +703,17 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::HexDump const &hex) {
 
   int width = int(spec._min) - hex._view.size() * 2; // amount left to fill.
   if (spec._radix_lead_p) {
-    w.write('0');
-    w.write(fmt_type);
     width -= 2;
   }
   bwf::Write_Aligned(
-    w, [&w, &hex, digits]() { bwf::Format_As_Hex(w, hex._view, digits); }, spec._align, width, spec._fill, 0);
+    w,
+    [&]() {
+      if (spec._radix_lead_p) {
+        w.write('0').write(fmt_type);
+      }
+      bwf::Format_As_Hex(w, hex._view, digits);
+    },
+    spec._align, width, spec._fill, 0);
   return w;
 }
 
-- 
2.43.0


From 5c13f1ba1118f95de1ddb6bd3eaa32b5bc9cb305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:07 +0000
Subject: [PATCH 077/109] fix: Format_Float keeps leading zeros and carry of
 the fraction and the sign of infinity, and handles any magnitude and
 precision

---
 code/src/bw_format.cc | 69 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 17 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index a894902..2eff90d 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -504,12 +504,26 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   static const std::string_view subnormal_bwf{"subnormal"};
   static const std::string_view unknown_bwf{"unknown float"};
 
+  char neg  = 0;
+  int width = static_cast<int>(spec._min); // amount left to fill.
+
+  if (spec._sign != Spec::SIGN_NEVER) {
+    if (negative_p) {
+      neg = '-';
+    } else if (spec._sign == Spec::SIGN_ALWAYS) {
+      neg = spec._sign;
+    }
+  }
+
   // Handle floating values that are not normal
   if (!std::isnormal(f)) {
     std::string_view unnormal;
     switch (std::fpclassify(f)) {
     case FP_INFINITE:
       unnormal = infinity_bwf;
+      if (neg) {
+        w.write(neg);
+      }
       break;
     case FP_NAN:
       unnormal = nan_bwf;
@@ -528,29 +542,40 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
     return w;
   }
 
+  // Past this the value is always an integer, and might not fit in an integral type.
+  static constexpr double MAX_WHOLE = static_cast<double>(uint64_t{1} << 63);
+  if (f >= MAX_WHOLE) {
+    char digits[std::numeric_limits<double>::max_exponent10 + 2];
+    int n  = snprintf(digits, sizeof(digits), "%.0f", f);
+    width -= n + (neg ? 1 : 0);
+    Write_Aligned(
+      w, [&]() { w.write(std::string_view(digits, n)); }, spec._align, width, spec._fill, neg);
+    return w;
+  }
+
   auto whole_part = static_cast<uint64_t>(f);
   if (whole_part == f || spec._prec == 0) { // integral
-    return Format_Integer(w, spec, whole_part, negative_p);
+    Spec whole_spec{spec};
+    whole_spec._type = 'd'; // always base 10.
+    return Format_Integer(w, whole_spec, whole_part, negative_p);
   }
 
-  static constexpr char dec = '.';
-  double frac               = NAN;
-  size_t l                  = 0;
-  size_t r                  = 0;
-  char whole[std::numeric_limits<double>::digits10 + 1];
-  char fraction[std::numeric_limits<double>::digits10 + 1];
-  char neg               = 0;
-  int width              = static_cast<int>(spec._min);                          // amount left to fill.
+  static constexpr char dec               = '.';
+  static constexpr unsigned MAX_PRECISION = std::numeric_limits<double>::max_digits10; // past this it's just zeros.
+  size_t l                                = 0;
+  size_t r                                = 0;
+  char whole[std::numeric_limits<uint64_t>::digits10 + 1];
+  char fraction[std::numeric_limits<uint64_t>::digits10 + 1];
   unsigned int precision = (spec._prec == Spec::DEFAULT._prec) ? 2 : spec._prec; // default precision 2
+  unsigned int pad       = 0;                                                    // trailing zeros.
 
-  frac = f - whole_part; // split the number
-
-  if (negative_p) {
-    neg = '-';
-  } else if (spec._sign != '-') {
-    neg = spec._sign;
+  if (precision > MAX_PRECISION) {
+    pad       = precision - MAX_PRECISION;
+    precision = MAX_PRECISION;
   }
 
+  double frac = f - whole_part; // split the number
+
   // Shift the floating point based on the precision. Used to convert
   //  trailing fraction into an integer value.
   uint64_t shift = 0;
@@ -558,15 +583,22 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
     shift = POWERS_OF_TEN[precision];
   } else { // not precomputed.
     shift = POWERS_OF_TEN.back();
-    for (precision -= (POWERS_OF_TEN.size() - 1); precision > 0; --precision) {
+    for (auto n = precision - (POWERS_OF_TEN.size() - 1); n > 0; --n) {
       shift *= 10;
     }
   }
 
   auto frac_part = static_cast<uint64_t>(frac * shift + 0.5 /* rounding */);
+  if (frac_part >= shift) { // rounded up to the next whole number.
+    frac_part -= shift;
+    ++whole_part;
+  }
 
   l = bwf::To_Radix<10>(whole_part, whole, sizeof(whole), bwf::LOWER_DIGITS);
   r = bwf::To_Radix<10>(frac_part, fraction, sizeof(fraction), bwf::LOWER_DIGITS);
+  while (r < precision) { // leading zeros are significant in a fraction.
+    fraction[sizeof(fraction) - ++r] = '0';
+  }
 
   // Clip fill width
   if (neg) {
@@ -574,7 +606,7 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   }
   width -= static_cast<int>(l);
   --width; // '.'
-  width -= static_cast<int>(r);
+  width -= static_cast<int>(r) + static_cast<int>(pad);
 
   std::string_view whole_digits{whole + sizeof(whole) - l, l};
   std::string_view frac_digits{fraction + sizeof(fraction) - r, r};
@@ -585,6 +617,9 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
       w.write(whole_digits);
       w.write(dec);
       w.write(frac_digits);
+      for (auto n = pad; n > 0; --n) {
+        w.write('0');
+      }
     },
     spec._align, width, spec._fill, neg);
 
-- 
2.43.0


From bf816bffda9a9436aad228e853f6e961aa0156c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:07 +0000
Subject: [PATCH 078/109] fix: short name of E2BIG has no trailing space

---
 code/src/bw_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 2eff90d..0452dbb 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -791,7 +791,7 @@ static const std::array<std::string_view, 134> ERRNO_SHORT_NAME = {
    "SUCCESS", "EPERM",
    "ENOENT", "ESRCH",
    "EINTR", "EIO",
-   "ENXIO", "E2BIG ",
+   "ENXIO", "E2BIG",
    "ENOEXEC", "EBADF",
    "ECHILD", "EAGAIN",
    "ENOMEM", "EACCES",
-- 
2.43.0


From 586d66d85e27c08e0b80fe6fb3a4bdd6030a7533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:13 +0000
Subject: [PATCH 079/109] fix: a Pattern with a negative count is empty

---
 code/src/bw_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 0452dbb..8bd4d7f 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -929,7 +929,7 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::Date const &date) {
 
 BufferWriter &
 bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::Pattern const &pattern) {
-  if (!pattern._text.empty()) { // If there's no text, no point in looping.
+  if (!pattern._text.empty() && pattern._n > 0) { // If there's no text, no point in looping.
     auto limit        = std::min<size_t>(spec._max, pattern._text.size() * pattern._n);
     decltype(limit) n = 0;
     while (n < limit) {
-- 
2.43.0


From 7c2e4223a76ab20287ada011f38ce4ed295439bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:13 +0000
Subject: [PATCH 080/109] fix: a Date with an empty format does not read before
 the format

---
 code/src/bw_format.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 8bd4d7f..dcc8d04 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -899,6 +899,9 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::Date const &date) {
     struct tm t {};
     auto r = w.remaining();
     size_t n{0};
+    if (date._fmt.empty()) { // nothing to output, and nothing in the view to check.
+      return w;
+    }
     // Verify @a fmt is null terminated, even outside the bounds of the view.
     if (date._fmt.data()[date._fmt.size() - 1] != 0 && date._fmt.data()[date._fmt.size()] != 0) {
       throw(std::invalid_argument{"BWF Date String is not null terminated."});
-- 
2.43.0


From cdfb9bf9aec2be9295a9f894c692608fb88e82cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:13 +0000
Subject: [PATCH 081/109] fix: Date output longer than 255 is not lost if the
 destination is too small

---
 code/src/bw_format.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index dcc8d04..c91371a 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -922,9 +922,17 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::Date const &date) {
       // Direct write didn't work. Unfortunately need to write to a temporary
       // buffer or the sizing isn't correct if @a w is clipped because @c
       // strftime returns 0 if the buffer isn't large enough.
-      char buff[256]; // hope for the best - no real way to resize appropriately on failure.
-      n = strftime(buff, sizeof(buff), date._fmt.data(), &t);
-      w.write(buff, n);
+      // That's ambiguous with empty output, so put a marker on the end to be able to tell.
+      static constexpr size_t MAX_SIZE = 1 << 20; // give up past this, something is wrong.
+      std::string fmt{date._fmt.data()};
+      std::string buff(256, '\0');
+      fmt += '.';
+      while (0 == (n = strftime(buff.data(), buff.size(), fmt.c_str(), &t)) && buff.size() < MAX_SIZE) {
+        buff.resize(buff.size() * 2);
+      }
+      if (n > 0) {
+        w.write(buff.data(), n - 1);
+      }
     }
   }
   return w;
-- 
2.43.0


From 6a0daf0e63f492bdb8980b6c6d53cc13acd40c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:13 +0000
Subject: [PATCH 082/109] fix: width of a formatted std::error_code is applied
 once, to the whole

---
 code/src/bw_format.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index c91371a..7e40845 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -961,13 +961,15 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, std::error_code const &ec) {
   if (spec.has_numeric_type()) {                        // if numeric type, print just the numeric part.
     bwformat(w, spec, ec.value());
   } else {
+    bwf::Spec elt_spec{spec};
+    elt_spec._min = 0; // Width is for the entire output, not each element.
     if ((&ec.category() == G_CAT || &ec.category() == S_CAT) && swoc::ERRNO_RANGE.contains(ec.value())) {
-      bwformat(w, spec, swoc::ERRNO_SHORT_NAME[ec.value()]);
+      bwformat(w, elt_spec, swoc::ERRNO_SHORT_NAME[ec.value()]);
     } else {
       w.write(ec.message());
     }
     if (spec._type != 's' && spec._type != 'S') {
-      w.write(' ').write('[').format(spec, ec.value()).write(']');
+      w.write(' ').write('[').format(elt_spec, ec.value()).write(']');
     }
   }
   return w;
-- 
2.43.0


From 43fc323bdb55e2b2ab52c4bbfe59cf819003e106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:13 +0000
Subject: [PATCH 083/109] fix: width of a formatted exception is applied to the
 whole

---
 code/include/swoc/bwf_std.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/bwf_std.h b/code/include/swoc/bwf_std.h
index bf26ecf..f19944e 100644
--- a/code/include/swoc/bwf_std.h
+++ b/code/include/swoc/bwf_std.h
@@ -49,8 +49,10 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, std::chrono::time_point<Clock,
 
 inline BufferWriter &
 bwformat(BufferWriter &w, bwf::Spec const &spec, std::exception const &e) {
+  bwf::Spec text_spec{spec};
+  text_spec._min = 0; // Width is for the entire output, not just the text.
   w.write("Exception - "_tv);
-  return bwformat(w, spec, e.what());
+  return bwformat(w, text_spec, e.what());
 }
 
 }} // namespace swoc::SWOC_VERSION_NS
-- 
2.43.0


From 2644e48239fd818dbef8ef02abc9de1502f027b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:30 +0000
Subject: [PATCH 084/109] fix: Format_Float precision is relative to the value
 for any value

---
 code/src/bw_format.cc | 58 +++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 7e40845..71139a1 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -560,45 +560,46 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
     return Format_Integer(w, whole_spec, whole_part, negative_p);
   }
 
-  static constexpr char dec               = '.';
-  static constexpr unsigned MAX_PRECISION = std::numeric_limits<double>::max_digits10; // past this it's just zeros.
+  static constexpr char dec = '.';
+  // No double has more fraction digits than this, past this it's just zeros.
+  static constexpr unsigned MAX_PRECISION = std::numeric_limits<double>::digits - std::numeric_limits<double>::min_exponent;
   size_t l                                = 0;
   size_t r                                = 0;
   char whole[std::numeric_limits<uint64_t>::digits10 + 1];
-  char fraction[std::numeric_limits<uint64_t>::digits10 + 1];
+  char fraction[MAX_PRECISION + 8]; // room for the leading whole digit, decimal point, terminal nul.
   unsigned int precision = (spec._prec == Spec::DEFAULT._prec) ? 2 : spec._prec; // default precision 2
   unsigned int pad       = 0;                                                    // trailing zeros.
+  double frac            = f - whole_part;                                       // split the number
+  std::string_view frac_digits;
 
-  if (precision > MAX_PRECISION) {
-    pad       = precision - MAX_PRECISION;
-    precision = MAX_PRECISION;
-  }
-
-  double frac = f - whole_part; // split the number
-
-  // Shift the floating point based on the precision. Used to convert
-  //  trailing fraction into an integer value.
-  uint64_t shift = 0;
   if (precision < POWERS_OF_TEN.size()) {
-    shift = POWERS_OF_TEN[precision];
-  } else { // not precomputed.
-    shift = POWERS_OF_TEN.back();
-    for (auto n = precision - (POWERS_OF_TEN.size() - 1); n > 0; --n) {
-      shift *= 10;
+    // Shift the floating point based on the precision. Used to convert
+    //  trailing fraction into an integer value.
+    uint64_t shift = POWERS_OF_TEN[precision];
+    auto frac_part = static_cast<uint64_t>(frac * shift + 0.5 /* rounding */);
+    if (frac_part >= shift) { // rounded up to the next whole number.
+      frac_part -= shift;
+      ++whole_part;
     }
-  }
-
-  auto frac_part = static_cast<uint64_t>(frac * shift + 0.5 /* rounding */);
-  if (frac_part >= shift) { // rounded up to the next whole number.
-    frac_part -= shift;
-    ++whole_part;
+    r = bwf::To_Radix<10>(frac_part, fraction, sizeof(fraction), bwf::LOWER_DIGITS);
+    while (r < precision) { // leading zeros are significant in a fraction.
+      fraction[sizeof(fraction) - ++r] = '0';
+    }
+    frac_digits = {fraction + sizeof(fraction) - r, r};
+  } else { // not precomputed, and an integer might not have enough digits.
+    if (precision > MAX_PRECISION) {
+      pad       = precision - MAX_PRECISION;
+      precision = MAX_PRECISION;
+    }
+    r = snprintf(fraction, sizeof(fraction), "%.*f", static_cast<int>(precision), frac);
+    if (fraction[0] != '0') { // rounded up to the next whole number.
+      ++whole_part;
+    }
+    frac_digits = {fraction + r - precision, precision};
+    r           = precision;
   }
 
   l = bwf::To_Radix<10>(whole_part, whole, sizeof(whole), bwf::LOWER_DIGITS);
-  r = bwf::To_Radix<10>(frac_part, fraction, sizeof(fraction), bwf::LOWER_DIGITS);
-  while (r < precision) { // leading zeros are significant in a fraction.
-    fraction[sizeof(fraction) - ++r] = '0';
-  }
 
   // Clip fill width
   if (neg) {
@@ -609,7 +610,6 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   width -= static_cast<int>(r) + static_cast<int>(pad);
 
   std::string_view whole_digits{whole + sizeof(whole) - l, l};
-  std::string_view frac_digits{fraction + sizeof(fraction) - r, r};
 
   Write_Aligned(
     w,
-- 
2.43.0


From 715161f54fbd28343fddf3a3995cc1149cfcaa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:42 +0000
Subject: [PATCH 085/109] fix: the name of errno 51 is EL2HLT

---
 code/src/bw_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 71139a1..1a4afad 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -813,7 +813,7 @@ static const std::array<std::string_view, 134> ERRNO_SHORT_NAME = {
    "ECHRNG", "EL2NSYNC",
    "EL3HLT", "EL3RST",
    "ELNRNG", "EUNATCH",
-   "ENOCSI", "EL2HTL",
+   "ENOCSI", "EL2HLT",
    "EBADE", "EBADR",
    "EXFULL", "ENOANO",
    "EBADRQC", "EBADSLT",
-- 
2.43.0


From ffd1bb2ef794b73b9e6303d8d36609c939ac4d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:52 +0000
Subject: [PATCH 086/109] fix: ArenaWriter growth keeps withheld capacity out
 of reach

---
 code/src/ArenaWriter.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/code/src/ArenaWriter.cc b/code/src/ArenaWriter.cc
index c25265e..e49d814 100644
--- a/code/src/ArenaWriter.cc
+++ b/code/src/ArenaWriter.cc
@@ -4,6 +4,8 @@
  * @c BufferWriter for a @c MemArena.
  */
 
+#include <algorithm>
+
 #include "swoc/ArenaWriter.h"
 
 namespace swoc { inline namespace SWOC_VERSION_NS {
@@ -37,11 +39,12 @@ ArenaWriter::commit(size_t n) {
 
 void
 ArenaWriter::realloc(size_t n) {
-  auto text                    = this->view(); // Current data.
-  auto span                    = _arena.require(n).remnant().rebind<char>();
+  auto text                    = this->view();                                                   // Current data.
+  auto restricted              = _arena.remaining() - std::min(_capacity, _arena.remaining()); // Capacity not to be used.
+  auto span                    = _arena.require(n + restricted).remnant().rebind<char>();
   const_cast<char *&>(_buffer) = span.data();
-  _capacity                    = span.size();
-  memcpy(_buffer, text.data(), text.size());
+  _capacity                    = span.size() - restricted;
+  memmove(_buffer, text.data(), text.size());
 }
 
 }} // namespace swoc::SWOC_VERSION_NS
-- 
2.43.0


From 33e6c19eeeda925d827ff7f5c00837fd69b7cdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:17 +0000
Subject: [PATCH 087/109] fix: parent_path of a single relative element is
 empty, not the path

---
 code/src/swoc_file.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 374f4fc..f1732fe 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -21,9 +21,11 @@ namespace file {
 
 path
 path::parent_path() const {
-  TextView parent{_path};
-  parent.split_suffix_at(SEPARATOR);
-  return parent ? parent : "/"_tv;
+  auto const idx = _path.find_last_of(SEPARATOR);
+  if (idx == std::string::npos) {
+    return {}; // relative path of a single element, there is no parent.
+  }
+  return 0 == idx ? "/"_tv : TextView{_path}.prefix(idx);
 }
 
 path
-- 
2.43.0


From 283f1b501c36aec34961afd6e54687cc05992c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:17 +0000
Subject: [PATCH 088/109] fix: relative_path drops all leading separators, it
 was absolute if more than one

---
 code/src/swoc_file.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index f1732fe..8a1b657 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -30,10 +30,8 @@ path::parent_path() const {
 
 path
 path::relative_path() const {
-  if (!_path.empty() && _path.front() == SEPARATOR) {
-    return _path.substr(1);
-  }
-  return *this;
+  auto const idx = _path.find_first_not_of(SEPARATOR);
+  return idx == std::string::npos ? self_type() : _path.substr(idx);
 }
 
 auto
-- 
2.43.0


From 145c777b7c7112363f4dc8f6e84ff934c5866b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:28 +0000
Subject: [PATCH 089/109] fix: appending a path to itself doesn't use released
 memory

---
 code/src/swoc_file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 8a1b657..1b5bb65 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -6,6 +6,7 @@
     Minimalist version of std::filesystem.
  */
 
+#include <functional>
 #include <variant>
 
 #include <fcntl.h>
@@ -45,6 +46,8 @@ path::operator/=(std::string_view that) {
   if (!that.empty()) { // don't waste time appending nothing.
     if (that.front() == SEPARATOR || _path.empty()) {
       _path.assign(that);
+    } else if (!std::less<>()(that.data(), _path.data()) && std::less<>()(that.data(), _path.data() + _path.size())) {
+      return *this /= self_type(that); // in this path, need a copy that's not affected by the change.
     } else {
       if (_path.back() == SEPARATOR) {
         _path.reserve(_path.size() + that.size());
-- 
2.43.0


From 4d4fb9d92c5fc2e29f182884a804c834232b901b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:36 +0000
Subject: [PATCH 090/109] fix: canonical clears the error code on success and
 does not leak the path

---
 code/src/swoc_file.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 1b5bb65..5d2e4c8 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -257,14 +257,18 @@ canonical(const path &p, std::error_code &ec) {
     return {};
   }
 
+  ec.clear();
+
   char buf[PATH_MAX + 1];
 
   if (auto rp = ::realpath(p.c_str(), buf); rp) {
     return path{rp};
   }
 
-  if (auto rp = ::realpath(p.c_str(), nullptr); rp) {
-    return path{rp};
+  if (errno == ENAMETOOLONG) {
+    if (swoc::unique_malloc<char> rp{::realpath(p.c_str(), nullptr)}; rp) {
+      return path{rp.get()};
+    }
   }
 
   ec = std::error_code(errno, std::system_category());
-- 
2.43.0


From 9cfe6486352ef4616852d0f74cdcb0406ca25380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:36 +0000
Subject: [PATCH 091/109] fix: create_directory reports the error of creating,
 not of checking the status

---
 code/src/swoc_file.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 5d2e4c8..a54fc57 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -284,14 +284,15 @@ create_directory(const path &path, std::error_code &ec, mode_t mode) noexcept {
 
   ec.clear();
   if (::mkdir(path.c_str(), mode) != 0) {
-    if (EEXIST == errno) {
+    auto err = errno; // checking the status can change it.
+    if (EEXIST == err) {
       std::error_code local_ec;
       auto fs = status(path, local_ec);
       if (!local_ec && is_dir(fs)) {
         return true;
       }
     }
-    ec = std::error_code(errno, std::system_category());
+    ec = std::error_code(err, std::system_category());
     return false;
   }
   return true;
-- 
2.43.0


From 982d069b111e0a9d7ba93a74fd8685eced38e94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:36 +0000
Subject: [PATCH 092/109] fix: remove succeeds without regard to an earlier
 error, and for a link that is not to a file

---
 code/src/swoc_file.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index a54fc57..564d546 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -438,11 +438,12 @@ bool
 remove(path const &p, std::error_code &ec) {
   // coverity TOCTOU - issue is doing stat before doing operation. Stupid complaint, ignore.
   struct ::stat fs {};
+  ec.clear();
   if (p.empty()) {
     ec = std::error_code(EINVAL, std::system_category());
-  } else if (::stat(p.c_str(), &fs) < 0) {
+  } else if (::lstat(p.c_str(), &fs) < 0) {
     ec = std::error_code(errno, std::system_category());
-  } else if (S_ISREG(fs.st_mode)) { // regular file, try to remove it!
+  } else if (S_ISREG(fs.st_mode) || S_ISLNK(fs.st_mode)) { // regular file or link, try to remove it!
     // coverity[toctou : SUPPRESS]
     if (unlink(p.c_str()) != 0) {
       ec = std::error_code(errno, std::system_category());
-- 
2.43.0


From de842d135e0d3c9b83b5582b34a9480fb72e0d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:21 +0000
Subject: [PATCH 093/109] fix: remove_all removes links instead of what is
 linked, and reports what was removed

---
 code/src/swoc_file.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 564d546..f3cd159 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -387,14 +387,15 @@ remove_all(const path &p, std::error_code &ec) {
   std::error_code err;
   uintmax_t zret = 0;
 
+  ec.clear();
   struct ::stat s {};
   if (p.empty()) {
     ec = std::error_code(EINVAL, std::system_category());
     return zret;
-  } else if (::stat(p.c_str(), &s) < 0) {
+  } else if (::lstat(p.c_str(), &s) < 0) { // never follow links, those can be to anywhere.
     ec = std::error_code(errno, std::system_category());
     return zret;
-  } else if (S_ISREG(s.st_mode)) { // regular file, try to remove it!
+  } else if (!S_ISDIR(s.st_mode)) { // not a directory, try to remove it!
     // coverity[toctou : SUPPRESS]
     if (unlink(p.c_str()) != 0) {
       ec = std::error_code(errno, std::system_category());
@@ -402,9 +403,6 @@ remove_all(const path &p, std::error_code &ec) {
       ++zret;
     }
     return zret;
-  } else if (!S_ISDIR(s.st_mode)) { // not a directory
-    ec = std::error_code(ENOTDIR, std::system_category());
-    return zret;
   }
   // Invariant - @a p is a directory.
 
@@ -422,13 +420,17 @@ remove_all(const path &p, std::error_code &ec) {
     }
     child  = p;
     child /= entry->d_name;
-    zret  += remove_all(child, ec);
+    zret  += remove_all(child, err);
+    if (err && !ec) {
+      ec = err; // report the first error.
+    }
   }
 
-  if (0 != rmdir(p.c_str())) {
+  if (0 == rmdir(p.c_str())) {
+    ++zret;
+  } else if (!ec) {
     ec = std::error_code(errno, std::system_category());
   }
-  ++zret;
 
   closedir(dir);
   return zret;
-- 
2.43.0


From 018da3ea967b1739739b8154a6ee399cf00f96f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:21 +0000
Subject: [PATCH 094/109] fix: copy replaces all of the target and reports
 failures

---
 code/src/swoc_file.cc | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index f3cd159..df0cebb 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -350,7 +350,15 @@ copy(const path &from, const path &to, std::error_code &ec) {
     ec = std::error_code(errno, std::system_category());
     return false;
   }
-  auto src_fs = file::status(from, local_ec);
+  struct ::stat src_stat {};
+  if (::fstat(src_fd, &src_stat) != 0) {
+    ec = std::error_code(errno, std::system_category());
+    return false;
+  }
+  if (S_ISDIR(src_stat.st_mode)) {
+    ec = std::error_code(EISDIR, std::system_category());
+    return false;
+  }
 
   path final_to;
   if (auto fs = file::status(to, local_ec); !(local_ec && ENOENT == local_ec.value()) && is_dir(fs)) {
@@ -359,21 +367,37 @@ copy(const path &from, const path &to, std::error_code &ec) {
     final_to = to;
   }
 
-  unique_fd dst_fd{::open(final_to.c_str(), O_WRONLY | O_CREAT, src_fs.mode())};
+  unique_fd dst_fd{::open(final_to.c_str(), O_WRONLY | O_CREAT, src_stat.st_mode)};
   if (NO_FD == dst_fd) {
     ec = std::error_code(errno, std::system_category());
     return false;
   }
 
+  off_t total = 0;
   while (true) {
-    if (auto n = read(src_fd, span.data(), span.size()); n > 0) {
-      if (::write(dst_fd, span.data(), n) < n) {
+    auto n = ::read(src_fd, span.data(), span.size());
+    if (n == 0) {
+      break;
+    } else if (n < 0) {
+      ec = std::error_code(errno, std::system_category());
+      return false;
+    }
+    for (ssize_t done = 0; done < n;) { // can be written in pieces.
+      auto count = ::write(dst_fd, span.data() + done, n - done);
+      if (count < 0) {
         ec = std::error_code(errno, std::system_category());
-        break;
+        return false;
       }
-    } else {
-      break;
+      done += count;
     }
+    total += n;
+  }
+
+  // Drop any previous content past the copy. This isn't done on open because the files could be the same file.
+  struct ::stat dst_stat {};
+  if (::fstat(dst_fd, &dst_stat) != 0 || (S_ISREG(dst_stat.st_mode) && dst_stat.st_size > total && ::ftruncate(dst_fd, total) != 0)) {
+    ec = std::error_code(errno, std::system_category());
+    return false;
   }
 
   return true;
-- 
2.43.0


From a308d1c4d5db9d4afa7844b53d16395f09c5250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:21 +0000
Subject: [PATCH 095/109] fix: load reads all of the file, with short reads or
 if the size is not known

---
 code/src/swoc_file.cc | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index df0cebb..0d91eee 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -6,6 +6,7 @@
     Minimalist version of std::filesystem.
  */
 
+#include <algorithm>
 #include <functional>
 #include <variant>
 
@@ -496,12 +497,25 @@ load(const path &p, std::error_code &ec) {
     if (0 != ::fstat(fd, &info)) {
       ec = std::error_code(errno, std::system_category());
     } else {
-      auto n = info.st_size;
-      zret.resize(n);
-      auto read_len = ::read(fd, zret.data(), n);
-      if (read_len < n) {
-        ec = std::error_code(errno, std::system_category());
+      static constexpr size_t MIN_READ = 4096;
+      size_t n                         = 0; // amount read.
+      // The size is a hint - it can be changing, or zero for special files, and a read can be short.
+      zret.resize(info.st_size > 0 ? info.st_size + 1 : MIN_READ);
+      while (true) {
+        auto read_len = ::read(fd, zret.data() + n, zret.size() - n);
+        if (read_len < 0) {
+          ec = std::error_code(errno, std::system_category());
+          n  = 0;
+        }
+        if (read_len <= 0) {
+          break;
+        }
+        n += read_len;
+        if (n == zret.size()) {
+          zret.resize(n + std::max(n, MIN_READ));
+        }
       }
+      zret.resize(n);
     }
   }
   return zret;
-- 
2.43.0


From 3d41f790c711e182bf72dbb2dbbb3d882c1548d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:21 +0000
Subject: [PATCH 096/109] fix: temp_directory_path uses TEMP, as listed

---
 code/src/swoc_file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 0d91eee..da6d28f 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -229,7 +229,7 @@ temp_directory_path() {
   /* ISO/IEC 9945 (POSIX): The path supplied by the first environment variable found in the list TMPDIR, TMP, TEMP, TEMPDIR.
    * If none of these are found, "/tmp"
    * */
-  for (char const *tp : {"TMPDIR", "TMP", "TEMPDIR"}) {
+  for (char const *tp : {"TMPDIR", "TMP", "TEMP", "TEMPDIR"}) {
     if (auto v = ::getenv(tp); v) {
       return path(v);
     }
-- 
2.43.0


From e0a713b23059cd240225e24d01824d0eefdceba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 097/109] fix: Scalar + and - with a same-scale round_up /
 round_down wrapper are ill-formed on instantiation (Counter is not implicitly
 convertible to Scalar)

---
 code/include/swoc/Scalar.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 42e35eb..f1aee43 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -732,25 +732,25 @@ operator+(Scalar<N, C, T> const &lhs, detail::scalar_unit_round_down_t<I> rhs) {
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(detail::scalar_round_up_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
-  return Scalar<N, C, T>(rhs) += lhs._n;
+  return Scalar<N, C, T>(rhs) += lhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(Scalar<N, C, T> const &lhs, detail::scalar_round_up_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) += rhs._n;
+  return Scalar<N, C, T>(lhs) += rhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(detail::scalar_round_down_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
-  return Scalar<N, C, T>(rhs) += lhs._n;
+  return Scalar<N, C, T>(rhs) += lhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(Scalar<N, C, T> const &lhs, detail::scalar_round_down_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) += rhs._n;
+  return Scalar<N, C, T>(lhs) += rhs;
 }
 /// @endcond
 
@@ -855,7 +855,7 @@ operator-(detail::scalar_round_up_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator-(Scalar<N, C, T> const &lhs, detail::scalar_round_up_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) -= rhs._n;
+  return Scalar<N, C, T>(lhs) -= rhs;
 }
 
 template <intmax_t N, typename C, typename T>
@@ -867,7 +867,7 @@ operator-(detail::scalar_round_down_t<N, C, T> lhs, Scalar<N, C, T> const &rhs)
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator-(Scalar<N, C, T> const &lhs, detail::scalar_round_down_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) -= rhs._n;
+  return Scalar<N, C, T>(lhs) -= rhs;
 }
 /// @endcond
 
-- 
2.43.0


From 803d1196b5e56c991df16f51110c5bc4d3f81ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 098/109] fix: Vectray counts an element before it is
 constructed, and does not destroy the copied elements, if an element
 constructor throws

---
 code/include/swoc/Vectray.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index b02dceb..82a1424 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -292,14 +292,15 @@ template <typename T, size_t N, class A> Vectray<T, N, A>::Vectray(self_type &&t
 
 template <typename T, size_t N, class A>
 Vectray<T, N, A>::FixedStore::FixedStore(FixedStore const &that)
-  : _a(std::allocator_traits<allocator_type>::select_on_container_copy_construction(that._a)) {
+  : FixedStore(std::allocator_traits<allocator_type>::select_on_container_copy_construction(that._a)) {
+  // Delegated construction is complete here, therefore if an element throws the others are destroyed.
   for (auto const &item : that.span()) {
     new (this->data() + _count) T(item);
     ++_count;
   }
 }
 
-template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::FixedStore(FixedStore &&that) : _a(that._a) {
+template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::FixedStore(FixedStore &&that) : FixedStore(that._a) {
   for (auto &item : that.span()) {
     new (this->data() + _count) T(std::move(item));
     ++_count;
@@ -386,7 +387,8 @@ auto
 Vectray<T, N, A>::push_back(const T &t) -> self_type & {
   std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void {
                                 if (fs._count < N) {
-                                  new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(t); // A::traits ?
+                                  new (reinterpret_cast<T *>(fs._raw.data()) + fs._count) T(t); // A::traits ?
+                                  ++fs._count; // not if the constructor throws.
                                 } else {
                                   T tmp(t); // @a t may be an element, which is moved by the transfer.
                                   this->transfer();
@@ -403,7 +405,8 @@ auto
 Vectray<T, N, A>::push_back(T &&t) -> self_type & {
   std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void {
                                 if (fs._count < N) {
-                                  new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(std::move(t)); // A::traits ?
+                                  new (reinterpret_cast<T *>(fs._raw.data()) + fs._count) T(std::move(t)); // A::traits ?
+                                  ++fs._count; // not if the constructor throws.
                                 } else {
                                   T tmp(std::move(t)); // @a t may be an element, which is moved by the transfer.
                                   this->transfer();
@@ -422,7 +425,8 @@ Vectray<T, N, A>::emplace_back(Args &&...args) {
   if (_store.index() == FIXED) {
     auto &fs{std::get<FIXED>(_store)};
     if (fs._count < N) {
-      new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(std::forward<Args>(args)...); // A::traits ?
+      new (reinterpret_cast<T *>(fs._raw.data()) + fs._count) T(std::forward<Args>(args)...); // A::traits ?
+      ++fs._count; // not if the constructor throws.
       return *this;
     }
     T tmp(std::forward<Args>(args)...); // The arguments may refer to an element, which is moved by the transfer.
-- 
2.43.0


From 642c8eb3c2639b266a2aecab25f55be1f585504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 099/109] fix: the status of a file that is not there reports
 an indeterminate size, mode and times

---
 code/include/swoc/swoc_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/swoc_file.h b/code/include/swoc/swoc_file.h
index 7e94239..d85fc6a 100644
--- a/code/include/swoc/swoc_file.h
+++ b/code/include/swoc/swoc_file.h
@@ -210,7 +210,7 @@ public:
   mode_t mode() const;
 
 protected:
-  struct ::stat _stat; ///< File information.
+  struct ::stat _stat{}; ///< File information.
   file_type _type = file_type::none;
 
   void init();
-- 
2.43.0


From 10dbee9c968754b5d47e1cff594b541b0e24fe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 100/109] fix: let loses the value of the variable if that is
 also the temporary value, or if copying the temporary value fails

---
 code/include/swoc/swoc_meta.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/swoc_meta.h b/code/include/swoc/swoc_meta.h
index 72dffaa..6b0a1c3 100644
--- a/code/include/swoc/swoc_meta.h
+++ b/code/include/swoc/swoc_meta.h
@@ -280,9 +280,8 @@ template <typename T> struct let {
   ~let();
 };
 
-template <typename T> let<T>::let(T &var, T const &value) : _var(var), _value(std::move(var)) {
-  _var = value;
-}
+// Copy first, because @a value can be @a var and the copy can fail - after this @a var is changed.
+template <typename T> let<T>::let(T &var, T const &value) : let(var, T(value)) {}
 template <typename T> let<T>::let(T &var, T &&value) : _var(var), _value(std::move(var)) {
   _var = std::move(value);
 }
-- 
2.43.0


From de4b41406b5007acfe86f5a50506c8b4e0df5b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 101/109] fix: mark, fill and blend of a payload that is in the
 space use it after it was changed or destroyed

---
 code/include/swoc/DiscreteRange.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 179e882..5793745 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1310,6 +1310,9 @@ DiscreteSpace<METRIC, PAYLOAD>::erase(DiscreteSpace::range_type const &range) {
 template <typename METRIC, typename PAYLOAD>
 DiscreteSpace<METRIC, PAYLOAD> &
 DiscreteSpace<METRIC, PAYLOAD>::mark(DiscreteSpace::range_type const &range, PAYLOAD const &payload) {
+  if (_arena.contains(std::addressof(payload))) { // in this space, that node could be removed while still in use.
+    return this->mark(range, PAYLOAD(payload));
+  }
   Node *n = this->lower_node(range.min()); // current node.
   Node *x = nullptr;                       // New node, gets set if we re-use an existing one.
   Node *y = nullptr;                       // Temporary for removing and advancing.
@@ -1431,6 +1434,9 @@ DiscreteSpace<METRIC, PAYLOAD>::mark(DiscreteSpace::range_type const &range, PAY
 template <typename METRIC, typename PAYLOAD>
 DiscreteSpace<METRIC, PAYLOAD> &
 DiscreteSpace<METRIC, PAYLOAD>::fill(DiscreteSpace::range_type const &range, PAYLOAD const &payload) {
+  if (_arena.contains(std::addressof(payload))) { // in this space, that node could be removed while still in use.
+    return this->fill(range, PAYLOAD(payload));
+  }
   // Rightmost node of interest with n->min() <= min.
   Node *n = this->lower_node(range.min());
   Node *x = nullptr; // New node (if any).
@@ -1550,6 +1556,12 @@ template <typename METRIC, typename PAYLOAD>
 template <typename F, typename U>
 auto
 DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U const &color, F &&blender) -> self_type & {
+  if constexpr (std::is_copy_constructible_v<U>) {
+    if (_arena.contains(std::addressof(color))) { // in this space, the blend could change it or remove its node.
+      U local(color);
+      return this->blend(range, local, std::forward<F>(blender));
+    }
+  }
   // Do a base check for the color to use on unmapped values. If self blending on @a color
   // is @c false, then do not color currently unmapped values.
   PAYLOAD plain_color{};                            // color to paint uncolored metrics.
-- 
2.43.0


From f08f4ac80196d61a554fc3bccc666c7918971e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 102/109] fix: rounding conversions between scalars are limited
 by the counter of the source, not by that of the target

---
 code/include/swoc/Scalar.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index f1aee43..cabecb6 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -41,7 +41,7 @@ namespace detail {
 
 // Convert a count @a c that is scale @a S to scale @c N
 template <intmax_t N, intmax_t S, typename C>
-C
+std::common_type_t<C, intmax_t> // not limited to @a C, the target counter can be wider.
 scale_conversion_round_up(C c) {
   using R = std::ratio<N, S>;
   if constexpr (N == S) {
@@ -56,7 +56,7 @@ scale_conversion_round_up(C c) {
 
 // Convert a count @a c that is scale @a S to scale @c N
 template <intmax_t N, intmax_t S, typename C>
-C
+std::common_type_t<C, intmax_t> // not limited to @a C, the target counter can be wider.
 scale_conversion_round_down(C c) {
   using R = std::ratio<N, S>;
   if constexpr (N == S) {
-- 
2.43.0


From 3f31becadecaf73034f214542c71b3c0acff938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 103/109] fix: the text of a lexicon has the wrong number for
 values that are negative or more than 32 bits

---
 code/include/swoc/Lexicon.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/Lexicon.h b/code/include/swoc/Lexicon.h
index d39a3fa..d8bde73 100644
--- a/code/include/swoc/Lexicon.h
+++ b/code/include/swoc/Lexicon.h
@@ -816,6 +816,14 @@ template <typename E>
 BufferWriter &
 bwformat(BufferWriter &w, bwf::Spec const &spec, Lexicon<E> const &lex) {
   bool sep_p = false;
+  // Numeric form of a value, which can be negative or wider than @c unsigned.
+  auto number = [](E value) {
+    if constexpr (std::is_enum_v<E> || std::is_integral_v<E>) {
+      return static_cast<std::conditional_t<(static_cast<E>(-1) < static_cast<E>(0)), intmax_t, uintmax_t>>(value);
+    } else {
+      return unsigned(value);
+    }
+  };
   if (spec._type == 's' || spec._type == 'S') {
     for (auto &&[value, name] : lex) {
       if (sep_p) {
@@ -829,7 +837,7 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, Lexicon<E> const &lex) {
       if (sep_p) {
         w.write(',');
       }
-      bwformat(w, spec, unsigned(value));
+      bwformat(w, spec, number(value));
       sep_p = true;
     }
   } else {
@@ -837,7 +845,7 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, Lexicon<E> const &lex) {
       if (sep_p) {
         w.write(',');
       }
-      w.print("[{},{}]", name, unsigned(value));
+      w.print("[{},{}]", name, number(value));
       sep_p = true;
     }
   }
-- 
2.43.0


From 026123bc21e3acda5b859e1b33bbf93fa6f2b695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 104/109] fix: arena requests of more than 2 GB fail or
 overflow the block, and failure of malloc is not detected

---
 code/include/swoc/MemArena.h | 21 ++++++++++++++++-----
 code/src/MemArena.cc         | 13 ++++++++++---
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index 330501f..e77ef9e 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -11,6 +11,7 @@
 #include <memory>
 #include <utility>
 #include <new>
+#include <limits>
 #if __has_include(<memory_resource>)
 #include <memory_resource>
 #endif
@@ -473,14 +474,24 @@ protected:
   /// Clean up the active list
   void destroy_active();
 
-  using Page        = Scalar<4096>;            ///< Size for rounding block sizes.
-  using QuarterPage = Scalar<Page::SCALE / 4>; ///< Quarter page - unit for sub page sizes.
-  using Paragraph   = Scalar<16>;              ///< Minimum unit of memory allocation.
+  using Page        = Scalar<4096, size_t>;            ///< Size for rounding block sizes.
+  using QuarterPage = Scalar<Page::SCALE / 4, size_t>; ///< Quarter page - unit for sub page sizes.
+  using Paragraph   = Scalar<16, size_t>;              ///< Minimum unit of memory allocation.
 
   static constexpr size_t ALLOC_HEADER_SIZE = 16; ///< Guess of overhead of @c malloc
   /// Initial block size to allocate if not specified via API.
   static constexpr size_t DEFAULT_BLOCK_SIZE = Page::SCALE - Paragraph{round_up(ALLOC_HEADER_SIZE + sizeof(Block))};
 
+  /// Larger than any possible block. Sums of such sizes do not overflow.
+  static constexpr size_t MAX_SIZE = std::numeric_limits<size_t>::max() / 4;
+
+  /// @return The size of @a n instances of @a T, or @c MAX_SIZE + 1 if that would be more.
+  template <typename T>
+  static constexpr size_t
+  span_size(size_t n) {
+    return n <= MAX_SIZE / sizeof(T) ? n * sizeof(T) : MAX_SIZE + 1;
+  }
+
   size_t _active_allocated = 0; ///< Total allocations in the active generation.
   size_t _active_reserved  = 0; ///< Total reserved memory (allocated from OS).
   /// Total allocations in the previous generation. This is only non-zero while the arena is frozen.
@@ -663,7 +674,7 @@ inline MemArena::MemArena(size_t n) : _reserve_hint(n) {}
 template <typename T>
 MemSpan<T>
 MemArena::alloc_span(size_t n) {
-  return this->alloc(sizeof(T) * n, alignof(T)).rebind<T>();
+  return this->alloc(span_size<T>(n), alignof(T)).template rebind<T>();
 }
 
 template <typename T, typename... Args>
@@ -696,7 +707,7 @@ inline MemSpan<char> MemArena::localize_c(char const * s) {
 template <typename T>
 MemSpan<T>
 MemArena::remnant_span(size_t n) {
-  return this->remnant(sizeof(T) * n, alignof(T)).template rebind<T>();
+  return this->remnant(span_size<T>(n), alignof(T)).template rebind<T>();
 }
 
 template <>
diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index 51511fb..bc31ef1 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -82,7 +82,7 @@ MemArena::make_block(size_t n) {
       _reserve_hint = _frozen_allocated;
     }
   }
-  n             = std::max<size_t>(n, _reserve_hint);
+  n             = std::max<size_t>(n, std::min<size_t>(_reserve_hint, MAX_SIZE));
   _reserve_hint = 0; // did this, clear for next time.
   // Add in overhead and round up to paragraph units.
   n = Paragraph{round_up(n + ALLOC_HEADER_SIZE + sizeof(Block))};
@@ -97,9 +97,13 @@ MemArena::make_block(size_t n) {
   // Allocate space for the Block instance and the request memory and construct a Block at the front.
   // In theory this could use ::operator new(n) but this causes a size mismatch during ::operator delete.
   // Easier to use malloc and override @c delete.
-  auto free_space   = n - sizeof(Block);
+  auto free_space = n - sizeof(Block);
+  auto ptr        = ::malloc(n);
+  if (ptr == nullptr) {
+    throw std::bad_alloc{};
+  }
   _active_reserved += free_space;
-  return new (::malloc(n)) Block(free_space);
+  return new (ptr) Block(free_space);
 }
 
 MemSpan<void>
@@ -154,6 +158,9 @@ MemArena::contains(const void *ptr) const {
 
 MemArena &
 MemArena::require(size_t n, size_t align) {
+  if (n > MAX_SIZE || align > MAX_SIZE) { // can't succeed, and the size of the block could overflow.
+    throw std::bad_alloc{};
+  }
   auto spot = _active.begin();
   Block *block{nullptr};
 
-- 
2.43.0


From 57d47e99a6963bb4d44161623db997b875ee2bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 105/109] fix: MemSpan::make moved temporary arguments in to
 the first element, leaving the others without.

---
 code/include/swoc/MemSpan.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index f966698..a3d8022 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1314,7 +1314,11 @@ template <typename... Args>
 auto
 MemSpan<T>::make(Args &&...args) -> self_type & {
   for (T *elt = this->data(), *limit = this->data_end(); elt < limit; ++elt) {
-    new (elt) T(std::forward<Args>(args)...);
+    if constexpr (std::is_constructible_v<T, Args &...>) {
+      new (elt) T(args...); // The arguments are for every element, do not let the first element consume them.
+    } else {
+      new (elt) T(std::forward<Args>(args)...);
+    }
   }
   return *this;
 }
-- 
2.43.0


From 27cb76e7f0efaa8c34c050c97b6fcfdbaebdc9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 106/109] fix: Case insensitive comparison of views stops at a
 nul character, so different views compare equal.

---
 code/include/swoc/TextView.h |  4 ++--
 code/src/string_view_util.cc | 14 ++++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 992fd8e..ed01fc5 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1681,7 +1681,7 @@ TextView::starts_with_nocase(char c) const noexcept {
 
 inline bool
 TextView::starts_with_nocase(std::string_view const &prefix) const noexcept {
-  return this->size() >= prefix.size() && 0 == ::strncasecmp(this->data(), prefix.data(), prefix.size());
+  return this->size() >= prefix.size() && 0 == strcasecmp(this->prefix(prefix.size()), prefix);
 }
 
 inline bool
@@ -1691,7 +1691,7 @@ TextView::ends_with(std::string_view const &suffix) const noexcept {
 
 inline bool
 TextView::ends_with_nocase(std::string_view const &suffix) const noexcept {
-  return this->size() >= suffix.size() && 0 == ::strncasecmp(this->data_end() - suffix.size(), suffix.data(), suffix.size());
+  return this->size() >= suffix.size() && 0 == strcasecmp(this->suffix(suffix.size()), suffix);
 }
 
 inline bool
diff --git a/code/src/string_view_util.cc b/code/src/string_view_util.cc
index 5abe524..ad505b2 100644
--- a/code/src/string_view_util.cc
+++ b/code/src/string_view_util.cc
@@ -5,6 +5,8 @@
     Additional handy utilities for @c string_view and hence also @c TextView.
 */
 
+#include <cctype>
+
 #include "swoc/string_view_util.h"
 
 int
@@ -31,7 +33,7 @@ strcasecmp(const std::string_view &lhs, const std::string_view &rhs) {
   int zret = 0;
   size_t n = rhs.size();
 
-  // Seems a bit ugly but size comparisons must be done anyway to get the @c strncasecmp args.
+  // Seems a bit ugly but size comparisons must be done anyway to get the common size.
   if (lhs.size() < rhs.size()) {
     zret = -1;
     n    = lhs.size();
@@ -41,7 +43,11 @@ strcasecmp(const std::string_view &lhs, const std::string_view &rhs) {
     return 0;
   }
 
-  int r = ::strncasecmp(lhs.data(), rhs.data(), n);
-
-  return r ? r : zret;
+  // Can't use @c ::strncasecmp because that stops at a nul character.
+  for (auto l = lhs.data(), r = rhs.data(), limit = lhs.data() + n; l < limit; ++l, ++r) {
+    if (auto delta = ::tolower(static_cast<unsigned char>(*l)) - ::tolower(static_cast<unsigned char>(*r)); delta) {
+      return delta;
+    }
+  }
+  return zret;
 }
-- 
2.43.0


From 11d62fcd05ebae675b3dcb5c39c172addc772656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 107/109] fix: memcmp of spans orders a span after longer ones
 it is a prefix of, the opposite of views

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index a3d8022..bc51ed6 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -963,9 +963,9 @@ memcmp(MemSpan<T> const &lhs, MemSpan<T> const &rhs) {
 
   // Seems a bit ugly but size comparisons must be done anyway to get the memcmp args.
   if (lhs.count() < rhs.count()) {
-    zret = 1;
-  } else if (lhs.count() > rhs.count()) {
     zret = -1;
+  } else if (lhs.count() > rhs.count()) {
+    zret = 1;
     n    = rhs.data_size();
   }
   // else the counts are equal therefore @a n and @a zret are already correct.
-- 
2.43.0


From 196f3972b6d25cf5ec1f266b9934e491248ad3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:19 +0000
Subject: [PATCH 108/109] fix: Range relations with an empty range depend on
 its unspecified bounds: adjacency, subset, superset and union.

---
 code/include/swoc/DiscreteRange.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 5793745..85b2669 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -517,6 +517,9 @@ DiscreteRange<T>::is_maximal() const {
 template <typename T>
 bool
 DiscreteRange<T>::is_strict_superset_of(DiscreteRange::self_type const &that) const {
+  if (this->empty() || that.empty()) {
+    return !this->empty();
+  }
   return (_min < that._min && that._max <= _max) || (_min <= that._min && that._max < _max);
 }
 
@@ -570,6 +573,9 @@ DiscreteRange<T>::max() const {
 template <typename T>
 bool
 DiscreteRange<T>::has_union(DiscreteRange::self_type const &that) const {
+  if (this->empty() || that.empty()) {
+    return true;
+  }
   return this->has_intersection_with(that) || this->is_adjacent_to(that);
 }
 
@@ -589,6 +595,9 @@ DiscreteRange<T>::has_intersection_with(DiscreteRange::self_type const &that) co
 template <typename T>
 bool
 DiscreteRange<T>::is_superset_of(DiscreteRange::self_type const &that) const {
+  if (that.empty()) {
+    return true;
+  }
   return _min <= that._min && that._max <= _max;
 }
 
@@ -607,6 +616,9 @@ DiscreteRange<T>::is_left_adjacent_to(DiscreteRange::self_type const &that) cons
    * T has a modulus and not depend on ++t > t always being true. However, we know that if t1 >
    * t0 then ++t0 > t0.
    */
+  if (this->empty() || that.empty()) {
+    return false;
+  }
   metric_type max(_max); // some built in integer types don't support increment on rvalues.
   return _max < that._min && ++max == that._min;
 }
-- 
2.43.0


From 151e4dab9573f31c4b490e5fefce2caef8bf36dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 109/109] fix: FirstOf handles a null pointer to non-const text

---
 code/include/swoc/bwf_ex.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/code/include/swoc/bwf_ex.h b/code/include/swoc/bwf_ex.h
index 3e0af20..5642c0e 100644
--- a/code/include/swoc/bwf_ex.h
+++ b/code/include/swoc/bwf_ex.h
@@ -71,6 +71,11 @@ FirstOfConverter(char const *s) {
   return std::string_view{s ? s : ""};
 }
 
+inline std::string_view
+FirstOfConverter(char *s) {
+  return FirstOfConverter(static_cast<char const *>(s));
+}
+
 // Otherwise do any compliant conversion.
 template <typename T>
 std::string_view
-- 
2.43.0

