From 219ea50a037f6a0011c90c224b1480ec1b8944e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 001/121] fix: overflow<Int>(overflow<J>) flagged exactly the
 values that fit

---
 best/math/overflow.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/math/overflow.h b/best/math/overflow.h
index d7633ac..3c4b476 100644
--- a/best/math/overflow.h
+++ b/best/math/overflow.h
@@ -187,8 +187,8 @@ struct overflow {
   constexpr overflow(overflow<J> that)
     : value(that.value),
       overflowed(that.overflowed ||
-                 best::int_cmp(best::min_of<Int>, that.value) < 0 ||
-                 best::int_cmp(best::max_of<Int>, that.value) > 0) {}
+                 best::int_cmp(best::min_of<Int>, that.value) > 0 ||
+                 best::int_cmp(best::max_of<Int>, that.value) < 0) {}
 
   /// # `overflow::wrap()`
   ///
-- 
2.43.0


From d96ea9eb4a90627356f96905a5500f928f79c234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 002/121] fix: next_pow2 of 8- and 16-bit integers detects
 overflow

---
 best/math/bit.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/math/bit.h b/best/math/bit.h
index 0265da6..4f30faa 100644
--- a/best/math/bit.h
+++ b/best/math/bit.h
@@ -162,7 +162,7 @@ BEST_INLINE_ALWAYS constexpr Int next_pow2_minus1(Int x) {
 /// Returns the next positive power of two, or zero on overflow.
 template <best::is_unsigned Int>
 BEST_INLINE_ALWAYS constexpr Int wrapping_next_pow2(Int x) {
-  return (best::next_pow2_minus1(x) + best::overflow(1)).wrap();
+  return (best::next_pow2_minus1(x) + best::overflow<Int>(1)).wrap();
 }
 
 /// # `best::checked_next_pow2()`
@@ -170,7 +170,7 @@ BEST_INLINE_ALWAYS constexpr Int wrapping_next_pow2(Int x) {
 /// Returns the next positive power of two; returns `best::none` on overflow.
 template <best::is_unsigned Int>
 BEST_INLINE_ALWAYS constexpr best::option<Int> checked_next_pow2(Int x) {
-  return (best::next_pow2_minus1(x) + best::overflow(1)).checked();
+  return (best::next_pow2_minus1(x) + best::overflow<Int>(1)).checked();
 }
 
 /// # `best::next_pow2()`
@@ -178,7 +178,7 @@ BEST_INLINE_ALWAYS constexpr best::option<Int> checked_next_pow2(Int x) {
 /// Returns the next positive power of two; returns crashes on overflow.
 template <best::is_unsigned Int>
 BEST_INLINE_ALWAYS constexpr Int next_pow2(Int x) {
-  return (best::next_pow2_minus1(x) + best::overflow(1)).strict();
+  return (best::next_pow2_minus1(x) + best::overflow<Int>(1)).strict();
 }
 
 /// # `best::bits_for()`
-- 
2.43.0


From 511decf246d9564f54fabb25d65bbd0b19492698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 003/121] fix: atoi_with_sign() ignored the sign for strings
 other than pretext

---
 best/math/conv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/math/conv.h b/best/math/conv.h
index 47d472c..5870644 100644
--- a/best/math/conv.h
+++ b/best/math/conv.h
@@ -122,7 +122,7 @@ constexpr best::result<Int, best::atoi_error> atoi_with_sign(
 
 #undef BEST_ATOI_LOOP_
   } else {
-    return best::atoi<Int>(best::pretext(str), radix);
+    return best::atoi_with_sign<Int>(best::pretext(str), is_negative, radix);
   }
 }
 
-- 
2.43.0


From 88b6f8180101eb3784395afebe2df3b6c2063be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 004/121] fix: atoi() accepted short negative numbers for
 unsigned integers

---
 best/math/conv.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/best/math/conv.h b/best/math/conv.h
index 5870644..8244393 100644
--- a/best/math/conv.h
+++ b/best/math/conv.h
@@ -84,6 +84,9 @@ constexpr best::result<Int, best::atoi_error> atoi_with_sign(
     size_t cannot_overflow =
       radix <= 16 && total_codes <= maximum_codes_without_overflow;
 
+    // Negating any nonzero value overflows an unsigned integer.
+    cannot_overflow &= best::is_signed<Int> || !is_negative;
+
 #define BEST_ATOI_LOOP_(result_, op_)                             \
   do {                                                            \
     result_ *= Int(radix);                                        \
-- 
2.43.0


From df2a4a143ce3511f45fe6b357826e1d9341d653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:49 +0000
Subject: [PATCH 005/121] fix: ceildiv(min, -1) overflowed to min + 1 instead
 of wrapping

---
 best/math/overflow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/math/overflow.h b/best/math/overflow.h
index 3c4b476..c3334f0 100644
--- a/best/math/overflow.h
+++ b/best/math/overflow.h
@@ -76,7 +76,7 @@ template <best::is_int A, best::is_int B>
 BEST_INLINE_ALWAYS constexpr overflow<best::common_int<A, B>> ceildiv(
   overflow<A> a, overflow<B> b) {
   auto [q, r] = best::div(a, b);
-  if ((r.value > 0 && b.value > 0) || (r.value < 0 && b.value < 0)) {
+  if ((r.value > 0 && b.value > 0) || (r.value < 0 && b.value < -1)) {
     return q + 1;
   }
   return q;
-- 
2.43.0


From f2dcda961f772fedf9854838e8b6f3b90427ddf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:07 +0000
Subject: [PATCH 006/121] fix: UTF-8 validation accepted lone continuation
 bytes and overlong encodings

---
 best/text/internal/utf.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index 1501dc2..feb5d0a 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -39,6 +39,8 @@ namespace best::utf_internal {
 inline constexpr int32_t OutOfBounds = ~int32_t(encoding_error::OutOfBounds);
 inline constexpr int32_t Invalid = ~int32_t(encoding_error::Invalid);
 
+constexpr int32_t encode8_size(uint32_t rune);
+
 constexpr bool validate_utf8_fast(const char* data, size_t len) {
   // This function is hit whenever we create a `best::str` from a literal, so
   // we need to avoid optional/span here.
@@ -52,8 +54,10 @@ constexpr bool validate_utf8_fast(const char* data, size_t len) {
     size_t bytes = best::leading_ones(uint8_t(value));
     value &= 0x7f >> bytes;
 
-    if (bytes > 4 || (end - data) < bytes - 1) { return false; }
-    while (--bytes > 0) {
+    // A leading byte is never a continuation byte.
+    if (bytes == 1 || bytes > 4) { return false; }
+    if (size_t(end - data) < bytes - 1) { return false; }
+    for (size_t i = 1; i < bytes; ++i) {
       char c = data[0];
       ++data;
       if (best::leading_ones(c) != 1) { return false; }
@@ -65,6 +69,9 @@ constexpr bool validate_utf8_fast(const char* data, size_t len) {
     if (value >= 0x11'0000 || (value >= 0xd800 && value <= 0xdfff)) {
       return false;
     }
+
+    // Reject oversized encodings.
+    if (bytes != size_t(encode8_size(value))) { return false; }
   }
   return true;
 }
-- 
2.43.0


From 918e99fc77fe6d1f0908915991a02fa8b78a39d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:07 +0000
Subject: [PATCH 007/121] fix: decoding truncated UTF-8 read past the end of
 the input

---
 best/text/internal/utf.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index feb5d0a..b1eed8b 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -92,6 +92,7 @@ constexpr int32_t decode8_size(best::span<const char> input) {
   if (input.is_empty()) { return OutOfBounds; }
   uint32_t ones = best::leading_ones(uint8_t(*input.data()));
   if (ones == 1 || ones > 4) { return Invalid; }
+  if (input.size() < ones) { return OutOfBounds; }
   return ones + (ones == 0);
 }
 
-- 
2.43.0


From 7a98a40f2d4986860a96a72b8ef6f857c6c5db41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:07 +0000
Subject: [PATCH 008/121] fix: decoding UTF-8 backwards accepted mismatched
 leading bytes

---
 best/text/internal/utf.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index b1eed8b..4aa3a20 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -128,6 +128,10 @@ constexpr int32_t undecode8(best::span<const char>* input) {
     if (best::leading_ones(byte) != 1) { break; }
   }
   if (len == 5) { return Invalid; }
+
+  // The leading byte must announce exactly the bytes that follow it.
+  auto lead = input->at(unsafe("bounds check above"), input->size() - len);
+  if (best::leading_ones(lead) != (len == 1 ? 0 : len)) { return Invalid; }
   *input = {input->data(), input->size() - len};
 
   return decode8(input->data().offset(input->size()).raw(), len);
-- 
2.43.0


From f7347606d308a07f8cc6ff4f933b32a4d56cf7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:07 +0000
Subject: [PATCH 009/121] fix: UTF-16 decode ignored errors found while sizing
 the rune

---
 best/text/internal/utf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index 4aa3a20..8924afa 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -169,10 +169,10 @@ constexpr bool is_low_surrogate(char16_t code) {
   return (code & 0xfc00) == Low;
 }
 
-constexpr size_t decode16_size(best::span<const char16_t> input) {
+constexpr int32_t decode16_size(best::span<const char16_t> input) {
   if (input.is_empty()) { return OutOfBounds; }
   auto value = input.data().raw()[0];
-  if (is_high_surrogate(value)) { return 2; }
+  if (is_high_surrogate(value)) { return input.size() < 2 ? OutOfBounds : 2; }
   if (is_low_surrogate(value)) { return Invalid; }
   return 1;
 }
-- 
2.43.0


From 04b43d3dc24a67744f24a2358719f078ff940be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:07 +0000
Subject: [PATCH 010/121] fix: UTF-8, UTF-16 and UTF-32 encoded unpaired
 surrogates

---
 best/text/utf16.h | 1 +
 best/text/utf32.h | 1 +
 best/text/utf8.h  | 9 ++++++++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/best/text/utf16.h b/best/text/utf16.h
index b0ebd93..106333b 100644
--- a/best/text/utf16.h
+++ b/best/text/utf16.h
@@ -55,6 +55,7 @@ struct utf16 final {
 
   static constexpr best::result<void, encoding_error> encode(
     best::span<char16_t>* output, rune rune) {
+    if (rune.is_unpaired_surrogate()) { return encoding_error::Invalid; }
     auto size =
       best::utf_internal::encode16(output->data().raw(), output->size(), rune);
     if (size < 0) { return encoding_error(~size); }
diff --git a/best/text/utf32.h b/best/text/utf32.h
index 19079d7..ebe0f56 100644
--- a/best/text/utf32.h
+++ b/best/text/utf32.h
@@ -58,6 +58,7 @@ struct utf32 final {
   template <int = 0>
   static constexpr best::result<void, encoding_error> encode(
     best::span<char32_t>* output, rune rune) {
+    if (rune.is_unpaired_surrogate()) { return encoding_error::Invalid; }
     auto next = output->take_first(1).ok_or(encoding_error::OutOfBounds);
     BEST_GUARD(next);
 
diff --git a/best/text/utf8.h b/best/text/utf8.h
index 53ba36c..a2a7698 100644
--- a/best/text/utf8.h
+++ b/best/text/utf8.h
@@ -58,6 +58,8 @@ struct utf8 final {
 
   static constexpr best::result<void, encoding_error> encode(
     best::span<char>* output, rune rune) {
+    if (rune.is_unpaired_surrogate()) { return encoding_error::Invalid; }
+
     size_t bytes = best::utf_internal::encode8_size(rune);
     if (output->size() < bytes) { return encoding_error::OutOfBounds; }
     best::utf_internal::encode8(output->data().raw(), rune, bytes);
@@ -115,7 +117,12 @@ struct wtf8 final {
 
   static constexpr best::result<void, encoding_error> encode(
     best::span<char>* output, rune rune) {
-    return utf8::encode(output, rune);
+    size_t bytes = best::utf_internal::encode8_size(rune);
+    if (output->size() < bytes) { return encoding_error::OutOfBounds; }
+    best::utf_internal::encode8(output->data().raw(), rune, bytes);
+
+    *output = (*output)[{.start = bytes}];
+    return best::ok();
   }
 
   static constexpr best::result<rune, encoding_error> decode(
-- 
2.43.0


From 9a29fe693bcc0660382a9a31b8c75fdf4ca8f8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:07 +0000
Subject: [PATCH 011/121] fix: Latin-1 decode rejected every character above
 U+007F

---
 best/text/ascii.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/text/ascii.h b/best/text/ascii.h
index 0309343..4c5f994 100644
--- a/best/text/ascii.h
+++ b/best/text/ascii.h
@@ -110,7 +110,8 @@ struct latin1 final {
     auto next = input->take_first(1).ok_or(encoding_error::OutOfBounds);
     BEST_GUARD(next);
 
-    return rune::from_int((*next.ok())[0]).ok_or(encoding_error::Invalid);
+    return rune::from_int(best::to_unsigned((*next.ok())[0]))
+      .ok_or(encoding_error::Invalid);
   }
 
   static constexpr best::result<rune, encoding_error> undecode(
@@ -118,7 +119,8 @@ struct latin1 final {
     auto next = input->take_last(1).ok_or(encoding_error::OutOfBounds);
     BEST_GUARD(next);
 
-    return rune::from_int((*next.ok())[0]).ok_or(encoding_error::Invalid);
+    return rune::from_int(best::to_unsigned((*next.ok())[0]))
+      .ok_or(encoding_error::Invalid);
   }
 
   constexpr bool operator==(const latin1&) const = default;
-- 
2.43.0


From e5b54beff5e078e502e48da8578ca1b3582f0443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:07 +0000
Subject: [PATCH 012/121] fix: default-constructed rune was indeterminate
 instead of NUL

---
 best/text/rune.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/rune.h b/best/text/rune.h
index 2c2760d..e631742 100644
--- a/best/text/rune.h
+++ b/best/text/rune.h
@@ -339,7 +339,7 @@ class rune final {
   static constexpr char Alphabet[] = "0123456789abcdefghijklmnopqrstuvwxyz";
   constexpr explicit rune(best::in_place_t, uint32_t value) : value_(value) {}
 
-  uint32_t value_;
+  uint32_t value_ = 0;
 };
 
 inline constexpr rune rune::Replacement = 0xfffd;
-- 
2.43.0


From 8f44e3d6409a6c16a81cdca12b4801e74bb30d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:07 +0000
Subject: [PATCH 013/121] fix: control characters were escaped as \x with
 decimal digits

---
 best/text/rune.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/rune.h b/best/text/rune.h
index e631742..67e2d40 100644
--- a/best/text/rune.h
+++ b/best/text/rune.h
@@ -456,7 +456,7 @@ void BestFmt(auto& fmt, const decltype(rune().escaped())& esc) {
   }
 
   if (esc._private.is_ascii_control()) {  // TODO: unicode is_control
-    fmt.format("\\x{:02}", esc._private.to_int());
+    fmt.format("\\x{:02x}", esc._private.to_int());
   } else if (esc._private == 0x200d) {
     // Handle the ZWJ explicitly for now, since it appears in some of our tests.
     fmt.write("\\u200D");
-- 
2.43.0


From 5e3f5ef89d04adda639dc74675cf14b27d518be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 014/121] fix: searching text for a rune its encoding lacks
 crashed

---
 best/text/str.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/text/str.h b/best/text/str.h
index e14f346..821faec 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1178,6 +1178,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<E> haystack,
                                        best::rune needle) {
   code<E> buf[E::About.max_codes_per_rune];
   auto encoded = needle.encode(buf, haystack.enc());
+  if (!encoded) { return {-1, -1}; }
   return str_internal::splits(haystack,
                               best::pretext<E>(*encoded.ok(), haystack.enc()));
 }
@@ -1187,6 +1188,7 @@ constexpr std::array<size_t, 2> rsplits(best::pretext<E> haystack,
                                         best::rune needle) {
   code<E> buf[E::About.max_codes_per_rune];
   auto encoded = needle.encode(buf, haystack.enc());
+  if (!encoded) { return {-1, -1}; }
   return str_internal::rsplits(haystack,
                                best::pretext<E>(*encoded.ok(), haystack.enc()));
 }
-- 
2.43.0


From 731ee237e81355d0c3218b24a0319b9542eeeebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 015/121] fix: rune-wise text search reported stale match
 positions

---
 best/text/str.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 821faec..ae5f702 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1108,7 +1108,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<N> haystack,
   while (!runes->rest().is_empty()) {
     // We need to know what index we were at before we find `first` in
     // runes, since that's the end of the prefix half.
-    size_t before = 0;
+    size_t before = haystack.size() - runes->rest().size();
     bool found = false;
     while (auto next = runes.next()) {
       if (!next->ok()) { return {-1, -1}; }
@@ -1151,7 +1151,7 @@ constexpr std::array<size_t, 2> rsplits(best::pretext<N> haystack,
   while (!runes->rest().is_empty()) {
     // We need to know what index we were at before we find `first` in
     // runes, since that's the end of the prefix half.
-    size_t before = 0;
+    size_t before = runes->rest().size();
     bool found = false;
     while (auto next = runes.next_back()) {
       if (!next->ok()) { return {-1, -1}; }
@@ -1211,7 +1211,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<E> haystack,
 template <typename E>
 constexpr std::array<size_t, 2> rsplits(
   best::pretext<E> haystack, best::callable<bool(rune)> auto&& pred) {
-  size_t before = 0;
+  size_t before = haystack.size();
   auto runes = haystack.try_runes();
   while (auto next = runes.next_back()) {
     if (!*next) { break; }
-- 
2.43.0


From 6295d16b8ef93de847f5cf23be03ea90769ef6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:58 +0000
Subject: [PATCH 016/121] fix: splitting text once at an empty string dropped
 the text

---
 best/text/str.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index ae5f702..86a3c7a 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1090,7 +1090,7 @@ namespace str_internal {
 template <typename N, typename H>
 constexpr std::array<size_t, 2> splits(best::pretext<N> haystack,
                                        best::pretext<H> needle) {
-  if (needle.is_empty()) { return {0, haystack.size()}; }
+  if (needle.is_empty()) { return {0, 0}; }
 
   if constexpr (best::bytes_internal::byte_comparable<code<H>> &&
                 haystack.About.is_self_syncing &&
@@ -1133,7 +1133,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<N> haystack,
 template <typename N, typename H>
 constexpr std::array<size_t, 2> rsplits(best::pretext<N> haystack,
                                         best::pretext<H> needle) {
-  if (needle.is_empty()) { return {0, haystack.size()}; }
+  if (needle.is_empty()) { return {haystack.size(), haystack.size()}; }
 
   if constexpr (best::bytes_internal::byte_comparable<code<H>> &&
                 haystack.About.is_self_syncing &&
-- 
2.43.0


From 25480dfac68e1bf7a297fa2a86b984b27239a8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:08 +0000
Subject: [PATCH 017/121] fix: text search across encodings sharing a code unit
 compared raw units

---
 best/text/str.h | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 86a3c7a..fb0e613 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1096,9 +1096,11 @@ constexpr std::array<size_t, 2> splits(best::pretext<N> haystack,
                 haystack.About.is_self_syncing &&
                 best::same_encoding_code<decltype(haystack),
                                          decltype(needle)>()) {
-    auto found = haystack.as_codes().find(needle.as_codes());
-    if (!found) { return {-1, -1}; }
-    return {{*found, *found + needle.size()}};
+    if (best::same_encoding(haystack, needle)) {
+      auto found = haystack.as_codes().find(needle.as_codes());
+      if (!found) { return {-1, -1}; }
+      return {{*found, *found + needle.size()}};
+    }
   }
 
   auto runes = haystack.try_runes();
@@ -1139,9 +1141,11 @@ constexpr std::array<size_t, 2> rsplits(best::pretext<N> haystack,
                 haystack.About.is_self_syncing &&
                 best::same_encoding_code<decltype(haystack),
                                          decltype(needle)>()) {
-    auto found = haystack.as_codes().rfind(needle.as_codes());
-    if (!found) { return {-1, -1}; }
-    return {{*found, *found + needle.size()}};
+    if (best::same_encoding(haystack, needle)) {
+      auto found = haystack.as_codes().rfind(needle.as_codes());
+      if (!found) { return {-1, -1}; }
+      return {{*found, *found + needle.size()}};
+    }
   }
 
   auto runes = haystack.try_runes();
@@ -1558,9 +1562,11 @@ constexpr best::option<pretext<E>> pretext<E>::strip_prefix(
   if constexpr (best::is_pretext<best::as_auto<decltype(s)>>) {
     if constexpr (best::same_encoding_code<pretext, decltype(s)>() &&
                   About.is_self_syncing) {
-      auto rest = span_.strip_prefix(s.as_codes());
-      BEST_GUARD(rest);
-      return pretext{*rest, enc()};
+      if (best::same_encoding(*this, s)) {
+        auto rest = span_.strip_prefix(s.as_codes());
+        BEST_GUARD(rest);
+        return pretext{*rest, enc()};
+      }
     }
 
     auto haystack = try_runes();
@@ -1583,9 +1589,11 @@ constexpr best::option<pretext<E>> pretext<E>::strip_suffix(
   if constexpr (best::is_pretext<best::as_auto<decltype(s)>>) {
     if constexpr (best::same_encoding_code<pretext, decltype(s)>() /*&&
                   About.is_self_syncing*/) {
-      auto rest = span_.strip_suffix(s.as_codes());
-      BEST_GUARD(rest);
-      return pretext{*rest, enc()};
+      if (best::same_encoding(*this, s)) {
+        auto rest = span_.strip_suffix(s.as_codes());
+        BEST_GUARD(rest);
+        return pretext{*rest, enc()};
+      }
     }
 
     auto haystack = try_runes();
-- 
2.43.0


From 3003279afd5ab0b1f5823687a402ce472387b655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:28 +0000
Subject: [PATCH 018/121] fix: texts in different encodings with the same code
 unit were ordered unit-wise

---
 best/text/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/str.h b/best/text/str.h
index fb0e613..0d3e16a 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1779,7 +1779,7 @@ constexpr best::ord pretext<E>::operator<=>(
     if constexpr (best::bytes_internal::byte_comparable<code> &&
                   About.is_self_syncing &&
                   best::same_encoding_code<pretext, decltype(str)>()) {
-      return span_ <=> str.as_codes();
+      if (best::same_encoding(*this, str)) { return span_ <=> str.as_codes(); }
     }
 
     auto lhs = runes();
-- 
2.43.0


From 9f5c42d13257d1f3590402b0e5e021f1b2449eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:28 +0000
Subject: [PATCH 019/121] fix: UTF-16 text was not ordered by code point

---
 best/text/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/str.h b/best/text/str.h
index 0d3e16a..4073017 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1777,7 +1777,7 @@ constexpr best::ord pretext<E>::operator<=>(
   const best::is_string auto& str) const {
   if constexpr (best::is_pretext<best::as_auto<decltype(str)>>) {
     if constexpr (best::bytes_internal::byte_comparable<code> &&
-                  About.is_self_syncing &&
+                  About.is_self_syncing && About.is_lexicographic &&
                   best::same_encoding_code<pretext, decltype(str)>()) {
       if (best::same_encoding(*this, str)) { return span_ <=> str.as_codes(); }
     }
-- 
2.43.0


From 4fa806736366a61d94dcc4172d8572f7a9f507ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:28 +0000
Subject: [PATCH 020/121] fix: text longer than an equal first rune was ordered
 before that rune

---
 best/text/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/str.h b/best/text/str.h
index 4073017..802b52e 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1769,7 +1769,7 @@ constexpr best::ord pretext<E>::operator<=>(rune r) const {
   auto iter = runes();
   if (auto result = *iter.next() <=> r; result != 0) { return result; }
 
-  return 0 <=> iter->rest().size();
+  return iter->rest().size() <=> size_t{0};
 }
 
 template <typename E>
-- 
2.43.0


From f7abd41232e5b9781f9a8555c7932fe985f3b3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:28 +0000
Subject: [PATCH 021/121] fix: text::consume_suffix() called itself instead of
 strip_suffix()

---
 best/text/str.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 802b52e..2801ffb 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -360,21 +360,21 @@ class text final {
   }
   constexpr bool consume_suffix(rune r) requires (About.is_self_syncing)
   {
-    auto prefix = consume_suffix(r);
+    auto prefix = strip_suffix(r);
     if (prefix) { *this = *prefix; }
     return prefix.has_value();
   }
   constexpr bool consume_suffix(const best::is_string auto& s)
     requires (About.is_self_syncing)
   {
-    auto prefix = consume_suffix(s);
+    auto prefix = strip_suffix(s);
     if (prefix) { *this = *prefix; }
     return prefix.has_value();
   }
   constexpr bool consume_suffix(best::callable<bool(rune)> auto&& p)
     requires (About.is_self_syncing)
   {
-    auto prefix = consume_suffix(BEST_FWD(p));
+    auto prefix = strip_suffix(BEST_FWD(p));
     if (prefix) { *this = *prefix; }
     return prefix.has_value();
   }
-- 
2.43.0


From ae049cc3e577ed8708afe75a5ee8c4d4dc9f3795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:28 +0000
Subject: [PATCH 022/121] fix: text::rune_indices() and text::from_partial()
 did not compile

---
 best/text/str.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 2801ffb..f09586f 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -917,7 +917,7 @@ class text<E>::rune_index_iter_impl final {
   using BestIterArrow = void;
 
  private:
-  friend pretext;
+  friend text;
   friend best::iter<rune_index_iter_impl>;
   friend best::iter<rune_index_iter_impl&>;
 
@@ -1236,10 +1236,10 @@ constexpr best::option<text<E>> text<E>::from(pretext data) {
 template <typename E>
 constexpr best::row<text<E>, pretext<E>> text<E>::from_partial(pretext data) {
   size_t split_at = 0;
-  auto runes = data.runes();
-  for (auto r : runes) {
+  auto runes = data.try_runes();
+  while (auto r = runes.next()) {
     if (r->err()) { break; }
-    split_at = data.size() - runes->rest();
+    split_at = data.size() - runes->rest().size();
   }
 
   unsafe u("the loop above did an implicit bounds check for us");
-- 
2.43.0


From fcb8c7409b2d9c0fcd030122afeaada4edaf539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:09 +0000
Subject: [PATCH 023/121] fix: pointer access to a value in a const option or
 choice did not compile

---
 best/container/internal/choice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/internal/choice.h b/best/container/internal/choice.h
index 50b350d..fcba448 100644
--- a/best/container/internal/choice.h
+++ b/best/container/internal/choice.h
@@ -239,7 +239,7 @@ class impl : public storage<Ts...> {
     return *get(u, i);
   }
   template <size_t n>
-  BEST_INLINE_SYNTHETIC constexpr best::as_raw_ptr<type<n>> ptr(
+  BEST_INLINE_SYNTHETIC constexpr best::as_raw_ptr<const type<n>> ptr(
     unsafe u, best::index_t<n> i = {}) const {
     return get(u, i).operator->();
   }
-- 
2.43.0


From 08decf0f817cef16f7143624dcb5124d9b8fb260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:33 +0000
Subject: [PATCH 024/121] fix: spans of signed or multi-byte values were
 ordered by memcmp

---
 best/memory/internal/bytes.h | 12 ++++++++++++
 best/memory/span.h           |  9 +++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index 0595947..6c1b87d 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -94,6 +94,18 @@ concept byte_comparable = requires {
                                    best::bytes_internal::tag<U>{});
 };
 
+/// # `best::byte_ordered`
+///
+/// Whether a pair of types' ordering is modeled by `memcmp()`. This is only the
+/// case for types that are a single, unsigned byte; `char` is treated as one.
+template <typename T, typename U = T>
+concept byte_ordered = requires {
+  requires byte_comparable<T, U>;
+  requires is_char<T> && is_char<U>;
+  requires !best::same<best::as_auto<T>, signed char>;
+  requires !best::same<best::as_auto<U>, signed char>;
+};
+
 /// # `best::constexpr_byte_comparable`
 ///
 /// Whether a pair of types can be `memcmp`'d in constexpr.
diff --git a/best/memory/span.h b/best/memory/span.h
index fdfea2f..c1742a2 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1416,12 +1416,9 @@ template <best::is_object U, best::option<size_t> m>
 constexpr auto span<T, n>::operator<=>(span<U, m> that) const
   requires best::comparable<T, U>
 {
-  if (std::is_constant_evaluated()) {
-    if constexpr (best::bytes_internal::constexpr_byte_comparable<T, U>) {
-      return best::bytes_internal::compare(best::span(*this), best::span(that));
-    }
-  } else {
-    if constexpr (best::bytes_internal::byte_comparable<T, U>) {
+  if constexpr (best::bytes_internal::byte_ordered<T, U>) {
+    if (!std::is_constant_evaluated() ||
+        best::bytes_internal::constexpr_byte_comparable<T, U>) {
       return best::bytes_internal::compare(best::span(*this), best::span(that));
     }
   }
-- 
2.43.0


From a8ffcdc45e66e5974c906484b8104405bbcc41c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:33 +0000
Subject: [PATCH 025/121] fix: span search underflowed the remaining size on a
 second misaligned hit

---
 best/memory/internal/bytes.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index 6c1b87d..f3712ba 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -161,7 +161,8 @@ constexpr best::option<size_t> search_memmem(best::span<T> haystack,
 
   auto* data = haystack.data().cast(best::types<const char>).raw();
   auto* start = data;
-  size_t size = haystack.size() * sizeof(T);
+  size_t total = haystack.size() * sizeof(T);
+  size_t size = total;
 
   while (true) {
     void* found = bytes_internal::memmem(data, size, needle.data().raw(),
@@ -181,7 +182,7 @@ constexpr best::option<size_t> search_memmem(best::span<T> haystack,
     // stride of T.
     size_t misalign = sizeof(T) - offset % sizeof(T);
     data += misalign;
-    size -= offset + misalign;
+    size = total - (offset + misalign);
   }
 }
 
-- 
2.43.0


From ea4b1b7c58234fe35a72bbff7e832e8a4ff2d889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:33 +0000
Subject: [PATCH 026/121] fix: generic span search restarted from the beginning
 instead of advancing

---
 best/memory/span.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index c1742a2..cc969a2 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1081,7 +1081,8 @@ constexpr best::option<size_t> span<T, n>::find(const R& needle) const
       if (next == haystack.size()) { return best::none; }
 
       // Skip forward.
-      haystack = at(unsafe("we just did a bounds check; avoid going through "
+      haystack =
+        haystack.at(unsafe("we just did a bounds check; avoid going through "
                            "best::option here for constexpr speed"),
                     {// SKip the first element for a speedier comparison.
                      .start = next + 1});
-- 
2.43.0


From fc2b4ba0dd0523d4a896c6c3542aad5121bf79e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:33 +0000
Subject: [PATCH 027/121] fix: span::split_once() and rsplit_once() by
 predicate did not compile

---
 best/memory/span.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index cc969a2..3f4a27a 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1204,7 +1204,7 @@ constexpr best::option<best::row<span<T>, span<T>>> span<T, n>::split_once(
   auto idx = find(pred);
   if (!idx) { return best::none; }
   return {{
-    best::span(data(), idx),
+    best::span(data(), *idx),
     best::span(data() + *idx + 1, size() - *idx - 1),
   }};
 }
@@ -1239,7 +1239,7 @@ constexpr best::option<best::row<span<T>, span<T>>> span<T, n>::rsplit_once(
   auto idx = rfind(pred);
   if (!idx) { return best::none; }
   return {{
-    best::span(data(), idx),
+    best::span(data(), *idx),
     best::span(data() + *idx + 1, size() - *idx - 1),
   }};
 }
-- 
2.43.0


From 69a1a01cdd1d32d8d70969a490f1c73f3b1d6d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:33 +0000
Subject: [PATCH 028/121] fix: unchecked subspan up to an inclusive end read
 the wrong bound

---
 best/memory/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 3f4a27a..9e9c264 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1006,7 +1006,7 @@ constexpr best::span<T> span<T, n>::at(unsafe, best::bounds range) const {
   if (range.end) {
     count = *range.end - range.start;
   } else if (range.including_end) {
-    count = *range.end - range.start + 1;
+    count = *range.including_end - range.start + 1;
   } else if (range.count) {
     count = *range.count;
   }
-- 
2.43.0


From 99b35cd95b71608b03f20caaaca421d65a3e980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:36 +0000
Subject: [PATCH 029/121] fix: splitting spans at ranges did not compile

---
 best/memory/span.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 9e9c264..da4715b 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1195,7 +1195,8 @@ constexpr best::option<best::row<span<T>, span<T>>> span<T, n>::split_once(
   if (!idx) { return best::none; }
   return {{
     best::span(data(), *idx),
-    best::span(data() + *idx + needle.size(), size() - *idx - needle.size()),
+    best::span(data() + *idx + best::size(needle),
+               size() - *idx - best::size(needle)),
   }};
 }
 template <best::is_object T, best::option<best::dependent<size_t, T>> n>
@@ -1230,7 +1231,8 @@ constexpr best::option<best::row<span<T>, span<T>>> span<T, n>::rsplit_once(
   if (!idx) { return best::none; }
   return {{
     best::span(data(), *idx),
-    best::span(data() + *idx + needle.size(), size() - *idx - needle.size()),
+    best::span(data() + *idx + best::size(needle),
+               size() - *idx - best::size(needle)),
   }};
 }
 template <best::is_object T, best::option<best::dependent<size_t, T>> n>
@@ -1260,7 +1262,7 @@ template <best::contiguous R>
 constexpr auto span<T, n>::split(const R& needle) const
   requires best::equatable<T, best::data_type<R>> && (!best::equatable<T, R>)
 {
-  return split_iter(split_impl<const R&>(needle, *this));
+  return split_iter<const R&>(split_impl<const R&>(needle, *this));
 }
 template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 constexpr auto span<T, n>::split(
-- 
2.43.0


From 8cd084f61c4874e5ad442044c799b559c49e0300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:03 +0000
Subject: [PATCH 030/121] fix: find(), rfind() and split_at() of statically
 sized spans did not compile

---
 best/memory/span.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index da4715b..769c3dc 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1032,10 +1032,7 @@ template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 constexpr best::option<std::array<best::span<T>, 2>> span<T, n>::split_at(
   size_t idx) const {
   if (auto prefix = at({.end = idx})) {
-    auto rest = *this;
-    rest.data_ += idx;
-    rest.size_ -= idx;
-    return {{*prefix, rest}};
+    return {{*prefix, as_dynamic(data() + idx, size() - idx)}};
   }
 
   return best::none;
@@ -1062,14 +1059,14 @@ constexpr best::option<size_t> span<T, n>::find(const R& needle) const
   if constexpr (best::is_span<R>) {
     using U = best::data_type<R>;
     if constexpr (best::bytes_internal::constexpr_byte_comparable<T, U>) {
-      return best::bytes_internal::search(*this, needle);
+      return best::bytes_internal::search(as_dynamic(*this), needle);
     } else if (!std::is_constant_evaluated()) {
       if constexpr (best::bytes_internal::byte_comparable<T, U>) {
-        return best::bytes_internal::search(*this, needle);
+        return best::bytes_internal::search(as_dynamic(*this), needle);
       }
     }
 
-    auto haystack = *this;
+    as_dynamic haystack = *this;
     auto [first, rest] = *needle.split_first();
     while (haystack.size() >= needle.size()) {
       // Skip to the next possible start.
@@ -1106,7 +1103,7 @@ constexpr best::option<size_t> span<T, n>::rfind(const R& needle) const
   if (best::size(needle) == 0) { return 0; }
 
   if constexpr (best::is_span<R>) {
-    auto haystack = *this;
+    as_dynamic haystack = *this;
     auto [last, rest] = *needle.split_last();
     while (haystack.size() >= needle.size()) {
       // Skip to the next possible end.
-- 
2.43.0


From bebd871d6c815d3b17c68b3b5e1ed8ec89b39413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:00 +0000
Subject: [PATCH 031/121] fix: statically sized spans could be built from a
 range of another size

---
 best/memory/span.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 769c3dc..1edc375 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -845,8 +845,8 @@ template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 constexpr span<T, n>::span(best::ptr<T> data, size_t size, best::location loc)
   : data_(data) {
   if constexpr (is_static) {
-    best::bounds bounds_check = {.start = this->size(), .count = 0};
-    bounds_check.compute_count(this->size(), loc);
+    best::bounds{.start = this->size(), .count = 0}.compute_count(size, loc);
+    best::bounds{.start = size, .count = 0}.compute_count(this->size(), loc);
   } else {
     size_ = size;
   }
-- 
2.43.0


From 8b783ae9cab5fa47f5b7933eb9b71eabd98034e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:52 +0000
Subject: [PATCH 032/121] fix: bounds up to and including the largest index
 passed the bounds check

---
 best/iter/bounds.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index 82efd80..3528ace 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -367,6 +367,9 @@ constexpr int_range<Int>::opt_t int_range<Int>::try_compute_count(
   auto count = normalize(max_size).count;
   if (!max_size) { return count; }
 
+  // This case is not visible below: the count wraps around to zero.
+  if (!end && including_end && *including_end == Max) { return {}; }
+
   auto [end, of] = (best::overflow(start) + *count);
   if (of || end > *max_size) { return {}; }
   return count;
-- 
2.43.0


From 9c89ca859ce23c3146d2681f22e80ff73fee954c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:52 +0000
Subject: [PATCH 033/121] fix: wrong sizes and last elements of signed, full
 and empty integer ranges

---
 best/iter/bounds.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index 3528ace..7d4e751 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -247,23 +247,26 @@ struct int_range final {
         return {};
       }
 
-      auto ret = start_ + count_ - !plus_one_;
+      auto ret = (best::overflow(start_) + count_ - Int(!plus_one_)).wrap();
       count_ = (best::overflow(count_) - 1).wrap();
       return ret;
     }
 
     constexpr std::array<size_t, 2> size_hint() const {
-      // TODO(mcyoung): This will overflow for uint64 ranges, need to return
-      // something else.
-      return {count_, count_};
+      // TODO(mcyoung): This will saturate for the range of all uint64 values,
+      // need to return something else.
+      size_t left = std::make_unsigned_t<Int>(count_);
+      if (plus_one_ && left + 1 != 0) { ++left; }
+      return {left, left};
     }
 
     constexpr size_t count() && {
       // We can just wrap here if count_ is larger than best::max_of<size_t>.
-      return size_t(count_) + size_t(plus_one_);
+      return size_t(std::make_unsigned_t<Int>(count_)) + size_t(plus_one_);
     }
 
     constexpr best::option<Int> last() && {
+      if (count_ == 0 && !plus_one_) { return {}; }
       return (best::overflow(start_) + count_ + Int(plus_one_) - 1).wrap();
     }
   };
-- 
2.43.0


From a7def5b60bedebe9ab83a2d05d168e14c498d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:16 +0000
Subject: [PATCH 034/121] fix: integer ranges ending at the maximum by count or
 default omitted elements

---
 best/iter/bounds.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index 7d4e751..b6bf912 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -300,6 +300,11 @@ constexpr auto int_range<Int>::iter() const {
       iter_impl{.start_ = Min, .count_ = Int(-1), .plus_one_ = true});
   }
 
+  // Max itself is part of a range without an end.
+  if (!including_end && !end && !count) {
+    return int_range{.start = start, .including_end = Max}.iter();
+  }
+
   return best::iter(
     iter_impl{.start_ = start, .count_ = *normalize(Max).count});
 }
@@ -341,7 +346,7 @@ constexpr int_range<Int> int_range<Int>::normalize(opt_t max_size) const {
   }
 
   if (count) {
-    if ((best::overflow(start) + *count).overflowed) {
+    if (*count != 0 && (best::overflow(start) + Int(*count - 1)).overflowed) {
       return {.start = start};
     }
     return {.start = start, .count = count};
-- 
2.43.0


From f95ebba4b649f8672d922626ac7a70de017a0753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:38 +0000
Subject: [PATCH 035/121] fix: reversing a reversed iterator did not compile

---
 best/iter/iter.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/best/iter/iter.h b/best/iter/iter.h
index d2c8d7b..26b1d7a 100644
--- a/best/iter/iter.h
+++ b/best/iter/iter.h
@@ -496,8 +496,11 @@ class rev_ final {
 template <typename I>
 constexpr auto iter<I>::rev() && requires double_ended
 {
-  BEST_ITER_FWD(rev);
-  return best::iter(best::iter_internal::rev_(std::move(*this)));
+  if constexpr (requires { BEST_MOVE(impl_).rev(); }) {
+    return BEST_MOVE(impl_).rev();
+  } else {
+    return best::iter(best::iter_internal::rev_(std::move(*this)));
+  }
 }
 
 #undef BEST_ITER_FWD
-- 
2.43.0


From 9a2794957b1366794dba402ce8e89c68b62826e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:38 +0000
Subject: [PATCH 036/121] fix: iter::take() gave wrong size hints

---
 best/iter/iter.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/iter/iter.h b/best/iter/iter.h
index 26b1d7a..e1c811c 100644
--- a/best/iter/iter.h
+++ b/best/iter/iter.h
@@ -449,7 +449,9 @@ class take final {
 
   constexpr best::size_hint size_hint() const {
     auto [min, max] = iter_.size_hint();
-    return {min, count_};
+    if (min > count_) { min = count_; }
+    if (!max || *max > count_) { max = count_; }
+    return {min, max};
   }
 
  private:
-- 
2.43.0


From 9c9257caff0302d3036886cd777d5259eb676a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:38 +0000
Subject: [PATCH 037/121] fix: iter::inspect() yielded a reference to an
 element already destroyed

---
 best/iter/iter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/iter/iter.h b/best/iter/iter.h
index e1c811c..25bb018 100644
--- a/best/iter/iter.h
+++ b/best/iter/iter.h
@@ -391,7 +391,7 @@ constexpr auto iter<Impl>::inspect(best::callable<void()> auto&& cb) && {
     std::move(*this),
     [cb = BEST_FWD(cb)](auto&& value) -> decltype(auto) {
       best::call(cb);
-      return BEST_FWD(value);
+      return item(BEST_FWD(value));
     },
   });
 }
@@ -402,7 +402,7 @@ constexpr auto iter<Impl>::inspect(best::callable<void(item&)> auto&& cb) && {
     std::move(*this),
     [cb = BEST_FWD(cb)](auto&& value) -> decltype(auto) {
       best::call(cb, value);
-      return item(value);
+      return item(BEST_FWD(value));
     },
   });
 }
-- 
2.43.0


From 8c49ffa01f54ae0ea8450b1842d42fe42640ba78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:01 +0000
Subject: [PATCH 038/121] fix: slicing a dynamic span with a constant range
 skipped the bounds check

---
 best/memory/span.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/memory/span.h b/best/memory/span.h
index 1edc375..680a9f2 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -983,6 +983,7 @@ constexpr auto span<T, n>::operator[](best::vlist<range>) const
   requires (range.try_compute_count(best::static_size<span>).has_value())
 {
   constexpr auto count = range.try_compute_count(best::static_size<span>);
+  if constexpr (is_dynamic) { range.compute_count(size()); }
   return with_extent<count>(data() + range.start, *count);
 }
 
-- 
2.43.0


From 5cca59aee3835b157a4bd79c67ce40b3ee8d1269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:01 +0000
Subject: [PATCH 039/121] fix: from_nul() of statically sized spans did not
 compile

---
 best/memory/span.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 680a9f2..0a06b33 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -912,7 +912,7 @@ constexpr auto span<T, n>::split_last(best::index_t<m>) const
 
 template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 constexpr span<T, n> span<T, n>::from_nul(T* data) {
-  if (data == nullptr) { return {data, 0}; }
+  if (data == nullptr) { return span(data, 0); }
 
   if constexpr (best::bytes_internal::constexpr_byte_comparable<T>) {
     if (BEST_CONSTEXPR_MEMCMP_ || !std::is_constant_evaluated()) {
@@ -922,14 +922,14 @@ constexpr span<T, n> span<T, n>::from_nul(T* data) {
 #else
         bytes_internal::strlen(data);
 #endif
-      return {data, len};
+      return span(data, len);
     }
   }
 
   auto ptr = data;
   while (*ptr++ != T{0})
     ;
-  return best::span(data, ptr - data - 1);
+  return span(data, ptr - data - 1);
 }
 
 template <best::is_object T, best::option<best::dependent<size_t, T>> n>
-- 
2.43.0


From a1b29042307e25071a94b1bec1365e1cc9a02ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:37 +0000
Subject: [PATCH 040/121] fix: spans of small signed and unsigned integers were
 equal if their bytes were

---
 best/memory/internal/bytes.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index f3712ba..42d39dc 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -50,9 +50,20 @@ size_t strlen(const char*) noexcept;
 template <typename>
 struct tag {};
 
+// Integers narrower than int compare after promotion, so that int8_t(-1) and
+// uint8_t(255) are different values with the same bytes. `char` is exempt: it
+// stands for a byte.
+template <typename T, typename U>
+inline constexpr bool same_promotion =
+  !std::is_integral_v<T> || !std::is_integral_v<U> || sizeof(T) >= sizeof(int) ||
+  std::is_signed_v<T> == std::is_signed_v<U> ||
+  std::is_same_v<std::remove_cv_t<T>, char> ||
+  std::is_same_v<std::remove_cv_t<U>, char>;
+
 template <typename T, typename U>
 void can_memcmp(tag<T>, tag<U>) requires requires {
   requires sizeof(T) == sizeof(U);
+  requires same_promotion<T, U>;
 #if BEST_HAS_BUILTIN(__is_trivially_equality_comparable)
   requires __is_trivially_equality_comparable(T);
   requires __is_trivially_equality_comparable(U);
-- 
2.43.0


From f56c121c90a9861364910384cecc73f0e7f9fab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:19 +0000
Subject: [PATCH 041/121] fix: searching spans of one-byte types other than
 char did not compile

---
 best/memory/internal/bytes.h | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index 42d39dc..92a486f 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -154,11 +154,28 @@ BEST_INLINE_ALWAYS constexpr best::ord compare(best::span<T> lhs,
   return result <=> 0;
 }
 
+template <typename T>
+constexpr T* find_byte(T* data, std::remove_const_t<T> byte, size_t size) {
+  // The constexpr memchr only works on `char`.
+  if constexpr (best::same<best::as_auto<T>, char>) {
+    return (T*)BEST_memchr_(data, byte, size);
+  } else if (!std::is_constant_evaluated()) {
+    return (T*)bytes_internal::memchr(data, (unsigned char)byte, size);
+  } else {
+    for (size_t i = 0; i < size; ++i) {
+      if (data[i] == byte) { return data + i; }
+    }
+    return nullptr;
+  }
+}
+
 template <typename T, typename U>
 constexpr best::option<size_t> search_byte(best::span<T> haystack,
                                            best::span<U> needle) {
-  auto* found =
-    BEST_memchr_(haystack.data().raw(), *needle.data(), haystack.size());
+  if (haystack.is_empty()) { return best::none; }
+  auto* found = bytes_internal::find_byte(haystack.data().raw(),
+                                          (std::remove_const_t<T>)*needle.data(),
+                                          haystack.size());
   if (!found) { return best::none; }
   return found - haystack.data().raw();
 }
@@ -220,7 +237,7 @@ BEST_INLINE_ALWAYS constexpr best::option<size_t> search_constexpr(
     if (len < nz) { return best::none; }
 
     // Skip to the next possible candidate.
-    hp = (T*)BEST_memchr_(hp, first, len);
+    hp = bytes_internal::find_byte(hp, (std::remove_const_t<T>)first, len);
     if (hp == nullptr) { return best::none; }
 
     // Check if we actually found the string.
-- 
2.43.0


From af2485694e616b45ac3dc653cbc961963b951db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:00 +0000
Subject: [PATCH 042/121] fix: empty ranges given by an inclusive end were out
 of bounds

---
 best/iter/bounds.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index b6bf912..f88927e 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -340,7 +340,10 @@ constexpr int_range<Int> int_range<Int>::normalize(opt_t max_size) const {
   if (including_end) {
     // NOTE: in the case that start = max and including_end = max, this
     // correctly produces a one-element range that yields `max`.
-    if (start > *including_end) { return {.start = start}; }
+    // As with `end`, a range that stops just before it starts is merely empty.
+    if (start > *including_end && start - 1 != *including_end) {
+      return {.start = start};
+    }
     return {.start = start,
             .count = (best::overflow(*including_end) - start + 1).wrap()};
   }
-- 
2.43.0


From 39af20aad843fccfdaa54125cb7cb29dd842a37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:59 +0000
Subject: [PATCH 043/121] fix: ordering statically sized spans of bytes did not
 compile

---
 best/memory/span.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 0a06b33..625bee4 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1420,7 +1420,8 @@ constexpr auto span<T, n>::operator<=>(span<U, m> that) const
   if constexpr (best::bytes_internal::byte_ordered<T, U>) {
     if (!std::is_constant_evaluated() ||
         best::bytes_internal::constexpr_byte_comparable<T, U>) {
-      return best::bytes_internal::compare(best::span(*this), best::span(that));
+      return best::bytes_internal::compare(best::span<T>(*this),
+                                           best::span<U>(that));
     }
   }
 
-- 
2.43.0


From 12329e0aafb697ed0dd7a190859d960d5cab827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:06 +0000
Subject: [PATCH 044/121] fix: overlapping relocation lost or leaked elements
 that need their move constructor

---
 best/memory/ptr.h | 57 ++++++-----------------------------------------
 1 file changed, 7 insertions(+), 50 deletions(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 5a43185..29a69ea 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -1019,35 +1019,6 @@ BEST_INLINE_ALWAYS constexpr void ptr<T>::relo_overlapping(ptr<T> that,
 
   if (dst == src) { return; }
 
-  // We need to handle the following cases.
-  //
-  // Non-overlapping shift. Happens when src + count <= dst or dst + count <=
-  // src, need to destroy {.start = src, .count = count }.
-  // | xxxx | yyyyyyyyyyyy | xxxxxxxxxxxx | ------------ | xxxx |
-  //        src            src + count    dst            dst + count
-  //
-  // Overlapping forward shift. Happens when src < dst < src + count, need to
-  // destroy {.start = src, .end = dest }
-  // | xxxx | yyyyyyyyyyyy | yyyyyy | ------------ | xxxx |
-  //        src            dst      src + count    dst + count
-  //
-  // The moved part is subdivided as follows according to how it needs to be
-  // moved:
-  // | aaaa | bbbbbbbbbbbb | cccc |
-  // src    src + overlap  dst    src + count
-  //
-  // Where overlap = src + count - dst. The c part is move-constructed
-  // but not destroyed; then the b part is relocated, and the a part is
-  // move-assigned and then destroyed.
-  //
-  // Overlapping backward shift. Happens when dst < src < dest + count, need to
-  // destroy {.start = dst + count, .end = src + count }
-  // | xxxx | ------------ | yyyyyy | yyyyyyyyyyyy | xxxx |
-  //        dst            src      dst + count    src + count
-  //
-  // The moved part is divided in the analogous way, but the move/relocate/
-  // assign regions are in the opposite order.
-
   // Non-overlapping case.
   if (src + count <= dst || dst + count <= src) {
     dst.relo(src, count);
@@ -1063,27 +1034,13 @@ BEST_INLINE_ALWAYS constexpr void ptr<T>::relo_overlapping(ptr<T> that,
     }
   }
 
-  // Forward case.
-  if (src < dst && dst < src + count) {
-    size_t overlap0 = src + count - dst;
-    size_t overlap1 = dst - src;
-    // Need to make the copies in backward order to avoid trampling.
-    (dst + overlap1).move(src + overlap1, count - overlap1);
-    (dst + overlap0).relo(src + overlap0, overlap1 - overlap0);
-    dst.relo_assign(src, overlap0);
-    return;
-  }
-
-  // Backward case.
-  if (dst < src && src < dst + count) {
-    size_t overlap0 = dst + count - src;
-    size_t overlap1 = src - dst;
-
-    dst.move(src, overlap0);
-    (dst + overlap0).relo(src + overlap0, overlap1 - overlap0);
-    (dst + overlap1).relo_assign(src + overlap1, count - overlap1);
-
-    return;
+  // Relocating one element at a time, starting from the end that the regions
+  // are being shifted towards, means that each destination is either outside
+  // of the source region, or has already been relocated away from.
+  if (src < dst) {
+    for (size_t i = count; i > 0; --i) { (dst + (i - 1)).relo(src + (i - 1)); }
+  } else {
+    for (size_t i = 0; i < count; ++i) { (dst + i).relo(src + i); }
   }
 }
 }  // namespace best
-- 
2.43.0


From 3767f4b48af9792dac94290228d8755400e1e751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:06 +0000
Subject: [PATCH 045/121] fix: overlapping copies of elements with nontrivial
 copies trampled their source

---
 best/memory/ptr.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 29a69ea..e1fa018 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -992,7 +992,13 @@ BEST_INLINE_SYNTHETIC constexpr void ptr<T>::copy_impl(ptr<U> that,
     }
   }
 
-  for (size_t i = 0; i < count; ++i) {
+  for (size_t j = 0; j < count; ++j) {
+    size_t i = j;
+    if constexpr (how.overlapping) {
+      // Avoid trampling elements that have not been copied yet.
+      if (that.to_pointee() < to_pointee()) { i = count - j - 1; }
+    }
+
     if constexpr (how.assign) {
       if constexpr (how.kind == how::Copy) {
         offset(i).assign(that.offset(i).deref());
-- 
2.43.0


From 3e17ad230d2f8533fdd854796772e1e114fb9716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:57 +0000
Subject: [PATCH 046/121] fix: span::copy_from() between overlapping spans was
 undefined, unlike Go's copy()

---
 best/memory/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 625bee4..ee63004 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1367,7 +1367,7 @@ template <typename U>
 constexpr void span<T, n>::copy_from(best::span<U> src) const
   requires (!is_const)
 {
-  data().copy_assign(src.data(), best::min(size(), src.size()));
+  data().copy_assign_overlapping(src.data(), best::min(size(), src.size()));
 }
 template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 template <typename U>
-- 
2.43.0


From 09f31fe9cda717941e9faf138a9535a4a276c5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:31 +0000
Subject: [PATCH 047/121] fix: relo_assign() of trivially relocatable types
 leaked the overwritten elements

---
 best/memory/ptr.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index e1fa018..86fca8c 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -754,7 +754,9 @@ class ptr final {
     constexpr bool can_memcpy() const {
       return best::same<const best::pointee<T>, const best::pointee<U>> &&
              (best::copyable<T, trivially> ||
-              (best::relocatable<T, trivially> && kind == how::Relo));
+              // Assignment must still destroy what it overwrites.
+              (best::relocatable<T, trivially> && kind == how::Relo &&
+               (!assign || best::destructible<T, trivially>)));
     }
 
     bool should_memcpy() const {
-- 
2.43.0


From 8a487079585037780293127d3b6a3e35634f0755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:31 +0000
Subject: [PATCH 048/121] fix: overlapping copies of a region onto itself
 trampled its elements

---
 best/memory/ptr.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 86fca8c..76bd5a9 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -973,6 +973,13 @@ BEST_INLINE_SYNTHETIC constexpr void ptr<T>::copy_impl(ptr<U> that,
   if (count == 0) { return; }
   check();
   that.check();
+
+  if constexpr (how.overlapping &&
+                best::same<const best::pointee<T>, const best::pointee<U>>) {
+    // Copying a region onto itself must not use elements to construct
+    // themselves.
+    if (to_pointee() == that.to_pointee()) { return; }
+  }
   if constexpr (how.template can_memcpy<U>()) {
     if (how.should_memcpy()) {
       auto len = count * sizeof(pointee);
-- 
2.43.0


From f67d4c3d5f3330dbdeea0dc215d9f26e19fa1497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:48 +0000
Subject: [PATCH 049/121] fix: vectors could not be made from boxes

---
 best/container/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index be4e4aa..d0704b9 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -166,7 +166,7 @@ class vec final {
   /// allocation.
   vec(box<T[], alloc>&& box)
     : alloc_(best::in_place, BEST_MOVE(box.allocator())) {
-    raw_ = BEST_MOVE(box).leak();
+    raw_ = *BEST_MOVE(box).leak();
     store_size(~raw_.size());
   }
 
-- 
2.43.0


From 3f15140def2f8ffd187835b671c000ed858fee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:17 +0000
Subject: [PATCH 050/121] fix: moving an inlined vector of elements with
 nontrivial moves lost its elements

---
 best/container/vec.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/container/vec.h b/best/container/vec.h
index d0704b9..157afaf 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -602,11 +602,13 @@ void vec<T, max_inline, A>::move_construct(vec&& that, bool assign) {
     } else {
       data().relo_assign(that.data(), new_size);
     }
+    set_size(unsafe("we just relocated this many elements"), new_size);
   } else {
     destroy();
     auto new_size = that.size();
     reserve(new_size);
     data().relo(that.data(), new_size);
+    set_size(unsafe("we just relocated this many elements"), new_size);
   }
 
   if (assign) { alloc_ = std::move(that.alloc_); }
-- 
2.43.0


From 947b257bf62f07e8fefbb22e420f8f5ceef7d1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:17 +0000
Subject: [PATCH 051/121] fix: vec::shrink_to_fit() did nothing

---
 best/container/vec.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index 157afaf..d246098 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -315,7 +315,11 @@ class vec final {
   /// Resizes the underlying allocation such that `capacity == size`.
   void shrink_to_fit() {
     if (size() == capacity() || !on_heap()) { return; }
-    spill_to_heap(size());
+    if (is_empty()) {
+      destroy();
+      return;
+    }
+    spill_to_heap(size(), true);
   }
 
   /// # `vec::truncate()`.
-- 
2.43.0


From 7449fa3892376a8c730d52f203800085f6edb074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:17 +0000
Subject: [PATCH 052/121] fix: the size of an inlined vector could overwrite
 its storage mode

---
 best/container/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index d246098..7d02ae2 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -478,7 +478,7 @@ class vec final {
     size_t bits = best::bits_for(max_inline);
     // We need to pay one extra bit, which is the sign bit of the MSB of size_,
     // which is used to tell whether or not this is an inlined string or not.
-    return best::ceildiv(bits, 8).wrap();
+    return best::ceildiv(bits + 1, 8).wrap();
   }();
 
   /// The amount of padding after raw_ to get the total needed space for
-- 
2.43.0


From 76776a75aed0eb79d9843a6f0f5aa1c59f340a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:17 +0000
Subject: [PATCH 053/121] fix: boxes of empty vectors did not keep their
 allocator

---
 best/container/vec.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index 7d02ae2..eaeec33 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -166,7 +166,10 @@ class vec final {
   /// allocation.
   vec(box<T[], alloc>&& box)
     : alloc_(best::in_place, BEST_MOVE(box.allocator())) {
-    raw_ = *BEST_MOVE(box).leak();
+    auto ptr = BEST_MOVE(box).leak();
+    if (ptr.raw() == ptr.dangling().raw()) { return; }
+
+    raw_ = *ptr;
     store_size(~raw_.size());
   }
 
@@ -293,7 +296,12 @@ class vec final {
   ///
   /// Converts this vector into a box by taking ownership of the allocation.
   best::box<T[], alloc> to_box() && {
-    if (is_empty()) { return best::box<T[], alloc>(); }
+    if (is_empty()) {
+      destroy();
+      return best::box<T[], alloc>(unsafe("dangling boxes own nothing"),
+                                   *BEST_MOVE(alloc_),
+                                   best::ptr<T[]>::dangling());
+    }
 
     spill_to_heap(size(), true);
     auto span = as_span();
-- 
2.43.0


From 75dd31f0a5997ee66a14a498771957f6958ad160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:28 +0000
Subject: [PATCH 054/121] fix: iterating a range from the least integer
 preferred its inclusive end over its end

---
 best/iter/bounds.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index f88927e..0f32559 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -293,9 +293,10 @@ template <typename Int>
 constexpr auto int_range<Int>::iter() const {
   // Deal with a funny special case: we need to yield every integer. This
   // happens when start == min and end/count is not set or including_end is
-  // Max.
-  if (start == Min && ((including_end && *including_end == Max) ||
-                       (!including_end && !end && !count))) {
+  // Max. Note that end takes priority over including_end.
+  if (start == Min && !end &&
+      ((including_end && *including_end == Max) ||
+       (!including_end && !count))) {
     return best::iter(
       iter_impl{.start_ = Min, .count_ = Int(-1), .plus_one_ = true});
   }
-- 
2.43.0


From bb6ed6d0a97b239355ea7eb7904b690a739bf9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:14 +0000
Subject: [PATCH 055/121] fix: dereferencing a box of an empty vector crashed

---
 best/memory/ptr.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 76bd5a9..a38962f 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -740,6 +740,10 @@ class ptr final {
     if (*this == nullptr) {
       best::crash_internal::crash("dereferenced a null `best::ptr`");
     }
+    if constexpr (best::is_unsized_array<T>) {
+      // Empty arrays do not occupy any memory, so they may be anywhere.
+      if (meta() == 0) { return; }
+    }
     if (to_pointee() < best::ptr<void>::from_addr(0x1000)) {
       best::crash_internal::crash("dereferenced a dangling `best::ptr`");
     };
-- 
2.43.0


From 4414dd7f6b26c7b8196a1c6879ccd3bcc27070b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:14 +0000
Subject: [PATCH 056/121] fix: copying into a moved-from box wrote through a
 dangling pointer

---
 best/container/box.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/best/container/box.h b/best/container/box.h
index 7327f45..3776f00 100644
--- a/best/container/box.h
+++ b/best/container/box.h
@@ -325,7 +325,11 @@ template <typename T, typename A>
 constexpr box<T, A>& box<T, A>::operator=(const box& that)
   requires requires(ptr p) { p.copy_assign(p); }
 {
-  if (layout() != that.layout()) {
+  if (best::equal(this, &that)) { return *this; }
+
+  // There is nothing to assign to in a moved-from box.
+  if (ptr_.raw() == best::ptr<T>::dangling().raw() ||
+      layout() != that.layout()) {
     this->~box();
     return *new (this) box(that);
   } else {
-- 
2.43.0


From cd47df4a2c1ef549cd316a35db081879c141f161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:32 +0000
Subject: [PATCH 057/121] fix: boxes of empty arrays asked their allocator for
 no memory

---
 best/container/box.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/best/container/box.h b/best/container/box.h
index 3776f00..30dd497 100644
--- a/best/container/box.h
+++ b/best/container/box.h
@@ -117,10 +117,7 @@ class BEST_RELOCATABLE box final {
     : alloc_(best::in_place, BEST_FWD(alloc)) {
     ptr null{nullptr, ptr::meta_for(BEST_FWD(args)...)};
 
-    ptr_ = {
-      allocator().alloc(null.layout()).cast(best::types<pointee>),
-      null.meta(),
-    };
+    ptr_ = {allocate(allocator(), null.layout()), null.meta()};
     ptr_.construct(BEST_FWD(args)...);
   }
 
@@ -287,6 +284,13 @@ class BEST_RELOCATABLE box final {
   constexpr bool operator==(niche) const { return ptr_ == nullptr; }
 
  private:
+  // Allocators need not tolerate sizes of zero, and empty arrays do not need
+  // any memory.
+  static constexpr pointee* allocate(alloc& alloc, best::layout layout) {
+    if (layout.size() == 0) { return best::ptr<T>::dangling().raw(); }
+    return alloc.alloc(layout).cast(best::types<pointee>).raw();
+  }
+
   best::ptr<T> ptr_;
   [[no_unique_address]] best::object<alloc> alloc_;
 };
@@ -314,10 +318,7 @@ constexpr box<T, A>::box(const box& that) requires requires(ptr p) {
   p.copy(p);
 }
   : alloc_(best::in_place, that.allocator()) {
-  ptr_ = {
-    allocator().alloc(that.as_ptr().layout()).cast(best::types<pointee>),
-    that.as_ptr().meta(),
-  };
+  ptr_ = {allocate(allocator(), that.layout()), that.meta()};
   ptr_.copy(that.as_ptr());
 }
 
-- 
2.43.0


From 284587dedba7d68105ca1f29026ce6590dac650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:32 +0000
Subject: [PATCH 058/121] fix: box::try_copy() did not compile for allocators
 with non-const functions

---
 best/container/box.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/best/container/box.h b/best/container/box.h
index 30dd497..19efcce 100644
--- a/best/container/box.h
+++ b/best/container/box.h
@@ -358,12 +358,10 @@ constexpr best::option<box<T, A>> box<T, A>::try_copy() const
 {
   if (!as_ptr().can_copy()) { return best::none; }
 
-  best::ptr<T> copy{
-    allocator().alloc(as_ptr().layout()).cast(best::types<pointee>),
-    {},
-  };
-  return box(best::unsafe("raw has been appropriately allocated"), allocator(),
-             copy.try_copy(as_ptr()));
+  alloc copy_alloc = allocator();
+  best::ptr<T> copy{allocate(copy_alloc, layout()), {}};
+  return box(best::unsafe("raw has been appropriately allocated"),
+             BEST_MOVE(copy_alloc), copy.try_copy(as_ptr()));
 }
 
 }  // namespace best
-- 
2.43.0


From 896e5d7afd8a31aca01a3149fe8fabb7fd71e031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:49 +0000
Subject: [PATCH 059/121] fix: defaulted const functions of interfaces did not
 compile

---
 best/func/internal/dyn.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/func/internal/dyn.h b/best/func/internal/dyn.h
index 1875ee0..b14a40f 100644
--- a/best/func/internal/dyn.h
+++ b/best/func/internal/dyn.h
@@ -194,7 +194,8 @@ class binder_impl {
                 args_)) -> decltype(auto)                                  \
       {                                                                    \
         BEST_IFACE_CONST_(__VA_ARGS__) BEST_This_ BEST_dyn_(               \
-          ::best::addr(BEST_this_),                                        \
+          const_cast<void*>(                                               \
+            static_cast<const void*>(::best::addr(BEST_this_))),           \
           ::best::itable<BEST_This_>::of(::best::types<BEST_T_>).operator->()); \
         return BEST_dyn_.name_(                                            \
           BEST_IFACE_ARGS_(::best::defaulted{}, args_)                     \
-- 
2.43.0


From 9fe488e099b553a2c6b33a7ac0df1ee39ab29ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:24 +0000
Subject: [PATCH 060/121] fix: matching and inspecting optionals, results and
 choices that are rvalues offered lvalues, or did not compile

---
 best/container/choice.h          | 2 +-
 best/container/internal/choice.h | 6 ++++--
 best/container/option.h          | 2 +-
 best/container/result.h          | 2 +-
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/best/container/choice.h b/best/container/choice.h
index e095b1d..3ebfc8d 100644
--- a/best/container/choice.h
+++ b/best/container/choice.h
@@ -367,7 +367,7 @@ class choice final {
 
   constexpr const auto& impl() const& { return BEST_CHOICE_IMPL_; }
   constexpr auto& impl() & { return BEST_CHOICE_IMPL_; }
-  constexpr const auto&& impl() const&& { return BEST_MOVE(BEST_CHOICE_IMPL_); }
+  constexpr const auto&& impl() const&& { return BEST_MOVE((BEST_CHOICE_IMPL_)); }
   constexpr auto&& impl() && { return BEST_MOVE(BEST_CHOICE_IMPL_); }
 
  public:
diff --git a/best/container/internal/choice.h b/best/container/internal/choice.h
index fcba448..7fc31a8 100644
--- a/best/container/internal/choice.h
+++ b/best/container/internal/choice.h
@@ -289,11 +289,13 @@ class impl : public storage<Ts...> {
   template <typename F>
   BEST_INLINE_SYNTHETIC constexpr decltype(auto) index_match(
     F&& callback) const&& {
-    return jump_table(make_index_match_arm(*this, BEST_FWD(callback)));
+    return jump_table(
+      make_index_match_arm(BEST_MOVE(*this), BEST_FWD(callback)));
   }
   template <typename F>
   BEST_INLINE_SYNTHETIC constexpr decltype(auto) index_match(F&& callback) && {
-    return jump_table(make_index_match_arm(*this, BEST_FWD(callback)));
+    return jump_table(
+      make_index_match_arm(BEST_MOVE(*this), BEST_FWD(callback)));
   }
 
  private:
diff --git a/best/container/option.h b/best/container/option.h
index 57075e2..84b190b 100644
--- a/best/container/option.h
+++ b/best/container/option.h
@@ -761,7 +761,7 @@ class option final {
 
   constexpr const auto& impl() const& { return BEST_OPTION_IMPL_; }
   constexpr auto& impl() & { return BEST_OPTION_IMPL_; }
-  constexpr const auto&& impl() const&& { return BEST_MOVE(BEST_OPTION_IMPL_); }
+  constexpr const auto&& impl() const&& { return BEST_MOVE((BEST_OPTION_IMPL_)); }
   constexpr auto&& impl() && { return BEST_MOVE(BEST_OPTION_IMPL_); }
 
   template <typename... Args>
diff --git a/best/container/result.h b/best/container/result.h
index c329ba2..b341262 100644
--- a/best/container/result.h
+++ b/best/container/result.h
@@ -398,7 +398,7 @@ class [[nodiscard(
 
   constexpr const auto& impl() const& { return BEST_RESULT_IMPL_; }
   constexpr auto& impl() & { return BEST_RESULT_IMPL_; }
-  constexpr const auto&& impl() const&& { return BEST_MOVE(BEST_RESULT_IMPL_); }
+  constexpr const auto&& impl() const&& { return BEST_MOVE((BEST_RESULT_IMPL_)); }
   constexpr auto&& impl() && { return BEST_MOVE(BEST_RESULT_IMPL_); }
 
  public:
-- 
2.43.0


From b404bcdcb8c2f723ab6c51ee490f0233a818caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:24 +0000
Subject: [PATCH 061/121] fix: call_result and callable took rvalue arguments
 for lvalues

---
 best/func/internal/call.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/func/internal/call.h b/best/func/internal/call.h
index b9ba755..de549bd 100644
--- a/best/func/internal/call.h
+++ b/best/func/internal/call.h
@@ -112,7 +112,7 @@ constexpr bool can_call(tag<R(Args...), TParams...>)
 {
   return best::is_void<R> ||
          best::convertible<R, decltype(call_internal::call<TParams...>(
-                                best::lie<F>, best::lie<Args>...))>;
+                                best::lie<F>, static_cast<Args&&>(best::lie<Args>)...))>;
 }
 
 template <typename F, typename... TParams, typename R, typename... Args>
@@ -123,12 +123,12 @@ constexpr bool can_call(tag<R(Args...) const, TParams...>)
 {
   return best::is_void<R> ||
          best::convertible<R, decltype(call_internal::call<TParams...>(
-                                best::lie<const F>, best::lie<Args>...))>;
+                                best::lie<const F>, static_cast<Args&&>(best::lie<Args>)...))>;
 }
 
 template <typename F, typename... Args>
 auto call_result(tag<Args...>)
-  -> decltype(call_internal::call(best::lie<F>, best::lie<Args>...));
+  -> decltype(call_internal::call(best::lie<F>, static_cast<Args&&>(best::lie<Args>)...));
 template <typename F, best::is_void V>
 auto call_result(tag<V>) -> decltype(call_internal::call(best::lie<F>));
 }  // namespace best::call_internal
-- 
2.43.0


From b73fa1450bc4162638b0a3eaf2c88b973c8c2715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:32 +0000
Subject: [PATCH 062/121] fix: ok_or() and err_or() of a named optional moved
 its value out

---
 best/container/option.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/best/container/option.h b/best/container/option.h
index 84b190b..79e7799 100644
--- a/best/container/option.h
+++ b/best/container/option.h
@@ -562,12 +562,12 @@ class option final {
     if (has_value()) return make_ok(); return best::err(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto ok_or(auto&& arg) const&& -> best::result<T, best::as_auto<decltype(arg)>>
+  constexpr auto ok_or(auto&& arg) & -> best::result<T, best::as_auto<decltype(arg)>>
   requires best::constructible<T, ref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return make_ok(); return best::err(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto ok_or(auto&& arg) & -> best::result<T, best::as_auto<decltype(arg)>>
+  constexpr auto ok_or(auto&& arg) const&& -> best::result<T, best::as_auto<decltype(arg)>>
   requires best::constructible<T, crref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return BEST_MOVE(*this).make_ok(); return best::err(BEST_FWD(arg));
   }
@@ -581,12 +581,12 @@ class option final {
   requires best::constructible<T, cref> {
     if (has_value()) return make_ok(); return best::err(best::call(BEST_FWD(arg)));
   }
-  constexpr auto ok_or(best::callable<void()> auto&& arg) const&&
+  constexpr auto ok_or(best::callable<void()> auto&& arg) &
   -> best::result<T, decltype(best::call(BEST_FWD(arg)))>
   requires best::constructible<T, ref> {
     if (has_value()) return make_ok(); return best::err(best::call(BEST_FWD(arg)));
   }
-  constexpr auto ok_or(best::callable<void()> auto&& arg) &
+  constexpr auto ok_or(best::callable<void()> auto&& arg) const&&
   -> best::result<T, decltype(best::call(BEST_FWD(arg)))>
   requires best::constructible<T, crref> {
     if (has_value()) return BEST_MOVE(*this).make_ok(); return best::err(best::call(BEST_FWD(arg)));
@@ -624,13 +624,13 @@ class option final {
     if (has_value()) return make_err(); return best::ok(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto err_or(auto&& arg) const&&
+  constexpr auto err_or(auto&& arg) &
   -> best::result<best::as_auto<decltype(arg)>, T>
   requires best::constructible<T, ref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return make_err(); return best::ok(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto err_or(auto&& arg) &
+  constexpr auto err_or(auto&& arg) const&&
   -> best::result<best::as_auto<decltype(arg)>, T>
   requires best::constructible<T, crref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return BEST_MOVE(*this).make_err(); return best::ok(BEST_FWD(arg));
@@ -646,12 +646,12 @@ class option final {
   requires best::constructible<T, cref> {
     if (has_value()) return make_err(); return best::ok(best::call(BEST_FWD(arg)));
   }
-  constexpr auto err_or(best::callable<void()> auto&& arg) const&&
+  constexpr auto err_or(best::callable<void()> auto&& arg) &
   -> best::result<decltype(best::call(BEST_FWD(arg))), T>
   requires best::constructible<T, ref> {
     if (has_value()) return make_err(); return best::ok(best::call(BEST_FWD(arg)));
   }
-  constexpr auto err_or(best::callable<void()> auto&& arg) &
+  constexpr auto err_or(best::callable<void()> auto&& arg) const&&
   -> best::result<decltype(best::call(BEST_FWD(arg))), T>
   requires best::constructible<T, crref> {
     if (has_value()) return BEST_MOVE(*this).make_err(); return best::ok(best::call(BEST_FWD(arg)));
-- 
2.43.0


From d126942224b475b86f442c28cfb283f0b4bc3096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:32 +0000
Subject: [PATCH 063/121] fix: choice::object() of an rvalue returned nothing

---
 best/container/choice.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/best/container/choice.h b/best/container/choice.h
index 3ebfc8d..aedb49f 100644
--- a/best/container/choice.h
+++ b/best/container/choice.h
@@ -477,14 +477,18 @@ constexpr best::option<
   const best::object<typename choice<A...>::template type<n>>&&>
 choice<A...>::object(best::index_t<n> i) const&& {
   if (which() != n) { return {}; }
-  return BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i));
+  return best::option(
+    best::bind,
+    BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i)));
 }
 template <typename... A>
 template <size_t n>
 constexpr best::option<best::object<typename choice<A...>::template type<n>>&&>
 choice<A...>::object(best::index_t<n> i) && {
   if (which() != n) { return {}; }
-  BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i));
+  return best::option(
+    best::bind,
+    BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i)));
 }
 
 template <typename... A>
-- 
2.43.0


From a01d9838c152d63246fb21ec064121e325e73c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:32 +0000
Subject: [PATCH 064/121] fix: permuting a choice that is an rvalue copied its
 value

---
 best/container/choice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/choice.h b/best/container/choice.h
index aedb49f..8ea34ab 100644
--- a/best/container/choice.h
+++ b/best/container/choice.h
@@ -305,7 +305,7 @@ class choice final {
 #undef BEST_CHOICE_CLANG_FORMAT_HACK_
     requires (inverse.has_value())
   {
-    return index_match([&](auto tag, auto&&... value) {
+    return BEST_MOVE(*this).index_match([&](auto tag, auto&&... value) {
       return best::choice<type<p>...>(best::index<(*inverse)[tag.value]>,
                                       BEST_FWD(value)...);
     });
-- 
2.43.0


From ddef02f1538ae45b4b6c46ea834cc5325c2d72e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:32 +0000
Subject: [PATCH 065/121] fix: comparing an optional reference to a null
 pointer dereferenced it

---
 best/container/option.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/container/option.h b/best/container/option.h
index 79e7799..978e448 100644
--- a/best/container/option.h
+++ b/best/container/option.h
@@ -719,8 +719,8 @@ class option final {
   template <best::equatable<T> U>
   constexpr bool operator==(const U* u) const requires best::is_ref<T>
   {
-    return (!has_value() && u == nullptr) ||
-           (has_value() && value(unsafe("just checked has_value()")) == *u);
+    if (is_empty() || u == nullptr) { return is_empty() && u == nullptr; }
+    return value(unsafe("just checked has_value()")) == *u;
   }
   constexpr bool operator==(const best::none_t&) const { return is_empty(); }
 
-- 
2.43.0


From 317a0011068a128cb2394ac1763fb9e9b93a36d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:00 +0000
Subject: [PATCH 066/121] fix: ordering a result against a bare value, ok() or
 err() disagreed with the order of results, or did not compile

---
 best/container/result.h | 42 +++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/best/container/result.h b/best/container/result.h
index b341262..47971d3 100644
--- a/best/container/result.h
+++ b/best/container/result.h
@@ -333,33 +333,35 @@ class [[nodiscard(
     const best::result<U, F>& that) const {
     return impl() <=> that.impl();
   }
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(
-    const best::comparable<T> auto& u) const {
-    if (auto v = ok()) { return v <=> u; }
-    return best::ord::less;
+  template <best::comparable<T> U>
+  BEST_INLINE_SYNTHETIC constexpr best::order_type<T, U> operator<=>(
+    const U& u) const {
+    if (is_err()) { return best::ord::greater; }
+    return impl()[best::index<0>] <=> u;
   }
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(
-    const best::comparable<E> auto& u) const {
-    if (auto v = err()) { return v <=> u; }
-    return best::ord::greater;
+  template <best::comparable<E> U>
+  BEST_INLINE_SYNTHETIC constexpr best::order_type<E, U> operator<=>(
+    const U& u) const {
+    if (is_ok()) { return best::ord::less; }
+    return impl()[best::index<1>] <=> u;
   }
   template <best::comparable<T> U>
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::ok<U> u) const {
-    if (auto v = ok()) { return v <=> u.args.args[best::index<0>]; }
-    return best::ord::less;
+  BEST_INLINE_SYNTHETIC constexpr best::order_type<T, U> operator<=>(
+    best::ok<U> u) const {
+    if (is_err()) { return best::ord::greater; }
+    return impl()[best::index<0>] <=> u.args.row[best::index<0>];
   }
   template <best::comparable<E> U>
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::err<U> u) const {
-    if (auto v = ok()) { return v <=> u.args.args[best::index<0>]; }
-    return best::ord::less;
+  BEST_INLINE_SYNTHETIC constexpr best::order_type<E, U> operator<=>(
+    best::err<U> u) const {
+    if (is_ok()) { return best::ord::less; }
+    return impl()[best::index<1>] <=> u.args.row[best::index<0>];
   }
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::ok<> u) const {
-    if (ok()) { return best::ord::equal; }
-    return best::ord::less;
+  BEST_INLINE_SYNTHETIC constexpr best::ord operator<=>(best::ok<> u) const {
+    return is_err() <=> false;
   }
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::err<> u) const {
-    if (err()) { return best::ord::equal; }
-    return best::ord::greater;
+  BEST_INLINE_SYNTHETIC constexpr best::ord operator<=>(best::err<> u) const {
+    return is_err() <=> true;
   }
 
   friend void BestFmt(auto& fmt, const result& res) requires requires {
-- 
2.43.0


From 82a935d7ab3a462d8fc789fa5f2900bd73b2fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:27 +0000
Subject: [PATCH 067/121] fix: checked access to the void side of an rvalue
 choice, and unwrapping results whose error is void, did not compile

---
 best/container/choice.h | 12 ++++++++----
 best/text/format.h      | 10 +++++++---
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/best/container/choice.h b/best/container/choice.h
index 8ea34ab..b511c51 100644
--- a/best/container/choice.h
+++ b/best/container/choice.h
@@ -438,22 +438,26 @@ template <size_t n>
 constexpr best::option<typename choice<A...>::template crref<n>>
 choice<A...>::at(best::index_t<n> i) const&& {
   if (which() != n) { return {}; }
-  return best::call_devoid([&]() -> decltype(auto) {
+  if constexpr (best::is_void<type<n>>) {
+    return best::option<crref<n>>(best::in_place);
+  } else {
     return best::option(
       best::bind, static_cast<crref<n>>(
                     impl().deref(unsafe{"checked which() before this"}, i)));
-  });
+  }
 }
 template <typename... A>
 template <size_t n>
 constexpr best::option<typename choice<A...>::template rref<n>>
 choice<A...>::at(best::index_t<n> i) && {
   if (which() != n) { return {}; }
-  return best::call_devoid([&]() -> decltype(auto) {
+  if constexpr (best::is_void<type<n>>) {
+    return best::option<rref<n>>(best::in_place);
+  } else {
     return best::option(
       best::bind, static_cast<rref<n>>(
                     impl().deref(unsafe{"checked which() before this"}, i)));
-  });
+  }
 }
 
 template <typename... A>
diff --git a/best/text/format.h b/best/text/format.h
index 155d79f..105192d 100644
--- a/best/text/format.h
+++ b/best/text/format.h
@@ -592,9 +592,13 @@ struct fmt final {
   template <typename T, typename E>
   BEST_INLINE_SYNTHETIC static void check_ok(const best::result<T, E>* result) {
     if (auto err = result->err()) {
-      auto message = best::format("unwrapped a best::err({:?})",
-                                  best::make_formattable(*err));
-      best::crash_internal::crash("%.*s", message.size(), message.data());
+      if constexpr (best::is_void<E>) {
+        best::crash_internal::crash("unwrapped a best::err()");
+      } else {
+        auto message = best::format("unwrapped a best::err({:?})",
+                                    best::make_formattable(*err));
+        best::crash_internal::crash("%.*s", message.size(), message.data());
+      }
     }
   }
 };
-- 
2.43.0


From 8926360fa47cdccb4736d00d439fb9e2175c9876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:20 +0000
Subject: [PATCH 068/121] fix: assigning a choice, option or result of
 unassignable values to itself destroyed the value and read it

---
 best/container/internal/choice.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/best/container/internal/choice.h b/best/container/internal/choice.h
index 7fc31a8..6c10047 100644
--- a/best/container/internal/choice.h
+++ b/best/container/internal/choice.h
@@ -182,6 +182,8 @@ class impl : public storage<Ts...> {
   = default;
   constexpr impl& operator=(const impl& that) requires (!info.trivial_copy())
   {
+    // emplace() may destroy this before it reads from that.
+    if (best::addr(that) == this) { return *this; }
     that.index_match(
       [&](auto tag, auto&... value) { emplace<tag.value>(value...); });
     return *this;
@@ -200,6 +202,7 @@ class impl : public storage<Ts...> {
   = default;
   constexpr impl& operator=(impl&& that) requires (!info.trivial_move())
   {
+    if (best::addr(that) == this) { return *this; }
     that.index_match([&](auto tag, auto&... value) {
       emplace<tag.value>(BEST_MOVE(value)...);
     });
-- 
2.43.0


From fc7903ce81a19dde31db589c90b7274e4923082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:45 +0000
Subject: [PATCH 069/121] fix: rows could not be ordered: their comparison took
 a choice

---
 best/container/row.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/best/container/row.h b/best/container/row.h
index 922c1b7..dbe81b5 100644
--- a/best/container/row.h
+++ b/best/container/row.h
@@ -521,13 +521,14 @@ class row final
   }
 
   template <typename... Us>
-  constexpr auto operator<=>(const choice<Us...>& that) const
+  constexpr best::common_ord<best::order_type<Elems, Us>...> operator<=>(
+    const row<Us...>& that) const
     requires (best::comparable<Elems, Us> && ...)
   {
     using Output = best::common_ord<best::order_type<Elems, Us>...>;
     Output result = Output::equivalent;
 
-    return indices.each([&](auto i) {
+    indices.each([&](auto i) {
       if (result == 0) { result = get(i) <=> that.get(i); }
     });
 
-- 
2.43.0


From 9a581b86dd9cf6fa4bb93b156976330241012e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 070/121] fix: tlist::update() inserted instead of replacing

---
 best/meta/tlist.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/meta/tlist.h b/best/meta/tlist.h
index 3d8d93c..f056aae 100644
--- a/best/meta/tlist.h
+++ b/best/meta/tlist.h
@@ -538,13 +538,13 @@ template <typename... Elems>
 template <size_t n, typename T>
 BEST_TLIST_MUST_USE(update)
 constexpr auto tlist<Elems...>::update() {
-  return splice<bounds{.start = n, .count = 0}, tlist>(best::types<T>);
+  return splice<bounds{.start = n, .count = 1}, tlist>(best::types<T>);
 }
 template <typename... Elems>
 template <size_t n, auto v>
 BEST_TLIST_MUST_USE(update)
 constexpr auto tlist<Elems...>::update() {
-  return splice<bounds{.start = n, .count = 0}, tlist>(best::vals<v>);
+  return splice<bounds{.start = n, .count = 1}, tlist>(best::vals<v>);
 }
 
 template <typename... Elems>
-- 
2.43.0


From ed46820c8c7ebe154ea406937ba3966aa0fa898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:18 +0000
Subject: [PATCH 071/121] fix: const rvalue objects of void could not be turned
 into empties

---
 best/container/object.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/object.h b/best/container/object.h
index f1cd2d5..e3b5053 100644
--- a/best/container/object.h
+++ b/best/container/object.h
@@ -159,7 +159,7 @@ class object final {
   }
   constexpr decltype(auto) or_empty() const&& {
     if constexpr (best::is_void<T>) {
-      return BEST_MOVE(BEST_OBJECT_VALUE_);
+      return static_cast<const wrapped_type&&>(BEST_OBJECT_VALUE_);
     } else {
       return *BEST_MOVE(*this);
     }
-- 
2.43.0


From 49c7748c776b22327c344d2ad3c9db5244ab056d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:18 +0000
Subject: [PATCH 072/121] fix: row::selectable did not compile

---
 best/container/row.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/row.h b/best/container/row.h
index dbe81b5..5157840 100644
--- a/best/container/row.h
+++ b/best/container/row.h
@@ -158,7 +158,7 @@ class row final
   /// such that `U::BestRowKey` is `T`.
   template <typename T>
   static constexpr bool selectable =
-    row_internal::lookup<T>.template count<T>() > 0;
+    row_internal::lookup<T, Elems...>[0] > 0;
 
  private:
   using impl = row_internal::impl<decltype(indices), Elems...>;
-- 
2.43.0


From 8540e24e8430b75a413d852ec1034f5b0a0a5296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:29 +0000
Subject: [PATCH 073/121] fix: row gather and scatter with void or move-only
 elements, scatter to given types

---
 best/container/internal/row.h | 8 ++++----
 best/container/row.h          | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/best/container/internal/row.h b/best/container/internal/row.h
index 19295ed..70aa11b 100644
--- a/best/container/internal/row.h
+++ b/best/container/internal/row.h
@@ -177,7 +177,7 @@ constexpr auto gather(auto&& row)
 {
   using Out =
     decltype(row.types.template gather<i...>().template apply<best::row>());
-  return Out{BEST_FWD(row)[best::index<i>]...};
+  return Out{BEST_FWD(row).get(best::index<i>)...};
 }
 template <size_t... i>
 constexpr auto scatter(auto&& row, auto those_types, auto&& those)
@@ -200,9 +200,9 @@ constexpr auto scatter(auto&& row, auto those_types, auto&& those)
       ((i < lut.size() ? lut[i] = n++ : 0), ...);
       return lut;
     }();
-    return those.apply([&](auto&&... args) {
-      return Out{best::row{best::bind, BEST_FWD(row)[J{}],
-                           args...}[best::index<lut[J::value]>]...};
+    return BEST_FWD(those).apply([&](auto&&... args) {
+      return Out{best::row{best::bind, BEST_FWD(row).get(J{}), BEST_FWD(args)...}
+                   .get(best::index<lut[J::value]>)...};
     });
   });
 }
diff --git a/best/container/row.h b/best/container/row.h
index 5157840..24b0fbe 100644
--- a/best/container/row.h
+++ b/best/container/row.h
@@ -1346,7 +1346,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) const& {
-  return row_internal::scatter<n...>(*this, those.types, BEST_FWD(those));
+  return row_internal::scatter<n...>(*this, those_types, BEST_FWD(those));
 }
 
 template <typename... A>
@@ -1355,7 +1355,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) & {
-  return row_internal::scatter<n...>(*this, those.types, BEST_FWD(those));
+  return row_internal::scatter<n...>(*this, those_types, BEST_FWD(those));
 }
 
 template <typename... A>
@@ -1364,7 +1364,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) const&& {
-  return row_internal::scatter<n...>(BEST_MOVE(*this), those.types,
+  return row_internal::scatter<n...>(BEST_MOVE(*this), those_types,
                                      BEST_FWD(those));
 }
 
@@ -1374,7 +1374,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) && {
-  return row_internal::scatter<n...>(BEST_MOVE(*this), those.types,
+  return row_internal::scatter<n...>(BEST_MOVE(*this), those_types,
                                      BEST_FWD(those));
 }
 
-- 
2.43.0


From 400a0d544eb38c187db9cfb1df0f94a27409df80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:22 +0000
Subject: [PATCH 074/121] fix: tlist::trim_suffix() never found a suffix

---
 best/meta/tlist.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/best/meta/tlist.h b/best/meta/tlist.h
index f056aae..66603fe 100644
--- a/best/meta/tlist.h
+++ b/best/meta/tlist.h
@@ -435,12 +435,15 @@ class tlist final {
   }
   static constexpr void remove_prefix_from(auto) {}
 
-  template <typename... Extra>
-  static constexpr tlist<Extra...> remove_suffix_from(
-    tlist<Extra..., Elems...>) {
-    return {};
+  template <typename... Those>
+  static constexpr auto remove_suffix_from(tlist<Those...> that) {
+    if constexpr (sizeof...(Those) >= sizeof...(Elems)) {
+      constexpr size_t n = sizeof...(Those) - sizeof...(Elems);
+      if constexpr (that.template at<best::bounds{.start = n}>() == tlist{}) {
+        return that.template at<best::bounds{.end = n}>();
+      }
+    }
   }
-  static constexpr void remove_suffix_from(auto) {}
 };
 }  // namespace best
 
-- 
2.43.0


From 27c82b134fdfa3f56514a70d03122167a2dcbbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:22 +0000
Subject: [PATCH 075/121] fix: row::as_args() held a reference to a temporary
 for void elements

---
 best/container/internal/row.h |  5 +++++
 best/container/row.h          | 16 ++++++++--------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/best/container/internal/row.h b/best/container/internal/row.h
index 70aa11b..c9b0576 100644
--- a/best/container/internal/row.h
+++ b/best/container/internal/row.h
@@ -51,6 +51,11 @@ inline constexpr auto do_lookup() {
     []<size_t... i> { return best::vals<lut[i + 1]...>; });
 }
 
+/// How an element of type `T` is passed along, given the type of a reference
+/// to it.
+template <typename T, typename Ref>
+using arg = best::select<best::is_void<T>, best::empty, Ref>;
+
 template <size_t i, typename T>
 struct elem {
   [[no_unique_address]] best::object<T> value;
diff --git a/best/container/row.h b/best/container/row.h
index 24b0fbe..b376e9b 100644
--- a/best/container/row.h
+++ b/best/container/row.h
@@ -550,29 +550,29 @@ namespace best {
 template <typename... A>
 constexpr auto row<A...>::as_args() const& {
   return apply([](auto&&... args) {
-    return best::args<decltype(args)...>{
-      row<decltype(args)...>(BEST_FWD(args)...)};
+    return best::args<row_internal::arg<A, decltype(args)>...>{
+      row<row_internal::arg<A, decltype(args)>...>(BEST_FWD(args)...)};
   });
 }
 template <typename... A>
 constexpr auto row<A...>::as_args() & {
   return apply([](auto&&... args) {
-    return best::args<decltype(args)...>{
-      row<decltype(args)...>(BEST_FWD(args)...)};
+    return best::args<row_internal::arg<A, decltype(args)>...>{
+      row<row_internal::arg<A, decltype(args)>...>(BEST_FWD(args)...)};
   });
 }
 template <typename... A>
 constexpr auto row<A...>::as_args() const&& {
   return BEST_MOVE(*this).apply([](auto&&... args) {
-    return best::args<decltype(args)...>{
-      row<decltype(args)...>(BEST_FWD(args)...)};
+    return best::args<row_internal::arg<A, decltype(args)>...>{
+      row<row_internal::arg<A, decltype(args)>...>(BEST_FWD(args)...)};
   });
 }
 template <typename... A>
 constexpr auto row<A...>::as_args() && {
   return BEST_MOVE(*this).apply([](auto&&... args) {
-    return best::args<decltype(args)...>{
-      row<decltype(args)...>(BEST_FWD(args)...)};
+    return best::args<row_internal::arg<A, decltype(args)>...>{
+      row<row_internal::arg<A, decltype(args)>...>(BEST_FWD(args)...)};
   });
 }
 
-- 
2.43.0


From 214b196b19e737e8217eb4ed0a7ac8095481cff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:57 +0000
Subject: [PATCH 076/121] fix: tlist::scatter() did not compile for
 out-of-bounds writes

---
 best/meta/internal/tlist.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/best/meta/internal/tlist.h b/best/meta/internal/tlist.h
index 2c3059c..7b11aed 100644
--- a/best/meta/internal/tlist.h
+++ b/best/meta/internal/tlist.h
@@ -175,14 +175,12 @@ auto gather_impl(tlist<Ts...>) {
 template <typename Default, typename Pack, size_t... i>
 using gather = decltype(gather_impl<Default, i...>(best::lie<Pack>));
 
-template <size_t... i, size_t... j, typename... Ts,
-          typename... Us>
-requires ((i < sizeof...(Ts)) && ...)  // Fast path for no out-of-bounds.
+template <size_t... i, size_t... j, typename... Ts, typename... Us>
 auto scatter_impl(std::index_sequence<j...>, tlist<Ts...>, tlist<Us...>) {
   constexpr auto lut = [] {
     std::array<size_t, sizeof...(Ts)> lut{(j - j)...};
     size_t n = 1;
-    ((i < lut.size() ? lut[i] = n++ : 0), ...);
+    (((void)(i < lut.size() ? lut[i] = n : 0), ++n), ...);
     return lut;
   }();
 
-- 
2.43.0


From 474712c4bb7298abb4f89e956686d4ddbc3b0d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:44 +0000
Subject: [PATCH 077/121] fix: common_ord gave up on three or more mixed
 orderings, or four of a kind

---
 best/base/internal/ord.h | 152 ++++++++++++---------------------------
 1 file changed, 46 insertions(+), 106 deletions(-)

diff --git a/best/base/internal/ord.h b/best/base/internal/ord.h
index bf7acd9..192c12f 100644
--- a/best/base/internal/ord.h
+++ b/best/base/internal/ord.h
@@ -20,7 +20,12 @@
 #ifndef BEST_BASE_INTERNAL_ORD_H_
 #define BEST_BASE_INTERNAL_ORD_H_
 
+#include <compare>
+#include <type_traits>
+
 #include "best/func/call.h"
+#include "best/meta/traits/refs.h"
+#include "best/meta/traits/types.h"
 
 namespace best::ord_internal {
 struct le {
@@ -53,115 +58,50 @@ using sord = std::strong_ordering;
 using pord = std::partial_ordering;
 using word = std::weak_ordering;
 
-sord common_ord();
-
-template <typename T>
-T common_ord(T);
+/// How much an ordering type leaves open; 3 for anything else.
 template <typename T>
-auto common_ord(T, T, auto... rest)  //
-  -> decltype(common_ord(best::lie<T>, rest...));
-
-sord common_ord(eq);
-sord common_ord(le);
-sord common_ord(gt);
-pord common_ord(uo);
-
-sord common_ord(eq, eq);
-sord common_ord(eq, le);
-sord common_ord(eq, gt);
-pord common_ord(eq, uo);
-sord common_ord(le, eq);
-sord common_ord(le, le);
-sord common_ord(le, gt);
-pord common_ord(le, uo);
-sord common_ord(gt, eq);
-sord common_ord(gt, le);
-sord common_ord(gt, gt);
-pord common_ord(gt, uo);
-
-pord common_ord(uo, eq);
-pord common_ord(uo, le);
-pord common_ord(uo, gt);
-pord common_ord(uo, uo);
-
-auto common_ord(sord, eq, auto... rest)  //
-  -> decltype(common_ord(sord::equivalent, rest...));
-auto common_ord(sord, le, auto... rest)  //
-  -> decltype(common_ord(sord::equivalent, rest...));
-auto common_ord(sord, gt, auto... rest)  //
-  -> decltype(common_ord(sord::equivalent, rest...));
-auto common_ord(eq, sord, auto... rest)  //
-  -> decltype(common_ord(sord::equivalent, rest...));
-auto common_ord(le, sord, auto... rest)  //
-  -> decltype(common_ord(sord::equivalent, rest...));
-auto common_ord(gt, sord, auto... rest)  //
-  -> decltype(common_ord(sord::equivalent, rest...));
-
-auto common_ord(word, eq, auto... rest)  //
-  -> decltype(common_ord(word::equivalent, rest...));
-auto common_ord(word, le, auto... rest)  //
-  -> decltype(common_ord(word::equivalent, rest...));
-auto common_ord(word, gt, auto... rest)  //
-  -> decltype(common_ord(word::equivalent, rest...));
-auto common_ord(eq, word, auto... rest)  //
-  -> decltype(common_ord(word::equivalent, rest...));
-auto common_ord(le, word, auto... rest)  //
-  -> decltype(common_ord(word::equivalent, rest...));
-auto common_ord(gt, word, auto... rest)  //
-  -> decltype(common_ord(word::equivalent, rest...));
-
-auto common_ord(pord, eq, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(pord, le, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(pord, gt, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(eq, pord, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(le, pord, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(gt, pord, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-
-auto common_ord(uo, sord, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(uo, word, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(uo, pord, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(sord, uo, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(word, uo, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(pord, uo, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-
-auto common_ord(sord, sord, auto... rest)  //
-  -> decltype(common_ord(sord::equivalent, rest...));
-auto common_ord(sord, word, auto... rest)  //
-  -> decltype(common_ord(word::equivalent, rest...));
-auto common_ord(sord, pord, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-
-auto common_ord(word, sord, auto... rest)  //
-  -> decltype(common_ord(word::equivalent, rest...));
-auto common_ord(word, word, auto... rest)  //
-  -> decltype(common_ord(word::equivalent, rest...));
-auto common_ord(word, pord, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-
-auto common_ord(pord, sord, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(pord, word, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-auto common_ord(pord, pord, auto... rest)  //
-  -> decltype(common_ord(pord::equivalent, rest...));
-
-auto common_impl(best::rank<1>, auto... args) -> decltype(common_ord(args...));
-void common_impl(best::rank<0>, auto...);
+inline constexpr int weakness = 3;
+template <>
+inline constexpr int weakness<sord> = 0;
+template <>
+inline constexpr int weakness<le> = 0;
+template <>
+inline constexpr int weakness<eq> = 0;
+template <>
+inline constexpr int weakness<gt> = 0;
+template <>
+inline constexpr int weakness<word> = 1;
+template <>
+inline constexpr int weakness<pord> = 2;
+template <>
+inline constexpr int weakness<uo> = 2;
+
+template <typename First, typename... Rest>
+constexpr auto common_other() {
+  constexpr bool same = (... && std::is_same_v<First, Rest>);
+  return best::id<best::select<same, First, void>>{};
+}
 
 template <typename... Ts>
-using common = decltype(common_impl(best::rank<1>{}, best::lie<Ts>...));
+constexpr auto common_ord() {
+  constexpr int weakest = [] {
+    int most = 0;
+    ((most = weakness<Ts> > most ? weakness<Ts> : most), ...);
+    return most;
+  }();
+
+  if constexpr (weakest == 0) {
+    return best::id<sord>{};
+  } else if constexpr (weakest == 1) {
+    return best::id<word>{};
+  } else if constexpr (weakest == 2) {
+    return best::id<pord>{};
+  } else {
+    return common_other<Ts...>();
+  }
+}
+template <typename... Ts>
+using common = decltype(common_ord<best::as_auto<Ts>...>())::type;
 
 template <typename Cb>
 class chain final {
-- 
2.43.0


From 1fbd433b9a54a2c0bf87a2020e93e5903021503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:56 +0000
Subject: [PATCH 078/121] fix: error numbers above EAGAIN had the names of
 their predecessors

---
 best/io/errnos.inc | 171 ++++++++++++++++++++++-----------------------
 best/io/errnos.py  |  10 +--
 2 files changed, 86 insertions(+), 95 deletions(-)

diff --git a/best/io/errnos.inc b/best/io/errnos.inc
index 6dd8e52..a45edc9 100644
--- a/best/io/errnos.inc
+++ b/best/io/errnos.inc
@@ -10,53 +10,53 @@
 /*0009*/ e{"EBADF", "Bad file descriptor"},
 /*0010*/ e{"ECHILD", "No child processes"},
 /*0011*/ e{"EAGAIN", "Resource temporarily unavailable"},
-/*0012*/ e{"EWOULDBLOCK", "Resource temporarily unavailable"},
-/*0013*/ e{"ENOMEM", "Cannot allocate memory"},
-/*0014*/ e{"EACCES", "Permission denied"},
-/*0015*/ e{"EFAULT", "Bad address"},
-/*0016*/ e{"ENOTBLK", "Block device required"},
-/*0017*/ e{"EBUSY", "Device or resource busy"},
-/*0018*/ e{"EEXIST", "File exists"},
-/*0019*/ e{"EXDEV", "Invalid cross-device link"},
-/*0020*/ e{"ENODEV", "No such device"},
-/*0021*/ e{"ENOTDIR", "Not a directory"},
-/*0022*/ e{"EISDIR", "Is a directory"},
-/*0023*/ e{"EINVAL", "Invalid argument"},
-/*0024*/ e{"ENFILE", "Too many open files in system"},
-/*0025*/ e{"EMFILE", "Too many open files"},
-/*0026*/ e{"ENOTTY", "Inappropriate ioctl for device"},
-/*0027*/ e{"ETXTBSY", "Text file busy"},
-/*0028*/ e{"EFBIG", "File too large"},
-/*0029*/ e{"ENOSPC", "No space left on device"},
-/*0030*/ e{"ESPIPE", "Illegal seek"},
-/*0031*/ e{"EROFS", "Read-only file system"},
-/*0032*/ e{"EMLINK", "Too many links"},
-/*0033*/ e{"EPIPE", "Broken pipe"},
-/*0034*/ e{"EDOM", "Numerical argument out of domain"},
-/*0035*/ e{"ERANGE", "Numerical result out of range"},
-/*0036*/ e{"EDEADLK", "Resource deadlock avoided"},
-/*0037*/ e{"EDEADLOCK", "Resource deadlock avoided"},
-/*0038*/ e{"ENAMETOOLONG", "File name too long"},
-/*0039*/ e{"ENOLCK", "No locks available"},
-/*0040*/ e{"ENOSYS", "Function not implemented"},
-/*0041*/ e{"ENOTEMPTY", "Directory not empty"},
-/*0042*/ e{"ELOOP", "Too many levels of symbolic links"},
-/*0043*/ e{"ENOMSG", "No message of desired type"},
-/*0044*/ e{"EIDRM", "Identifier removed"},
-/*0045*/ e{"ECHRNG", "Channel number out of range"},
-/*0046*/ e{"EL2NSYNC", "Level 2 not synchronized"},
-/*0047*/ e{"EL3HLT", "Level 3 halted"},
-/*0048*/ e{"EL3RST", "Level 3 reset"},
-/*0049*/ e{"ELNRNG", "Link number out of range"},
-/*0050*/ e{"EUNATCH", "Protocol driver not attached"},
-/*0051*/ e{"ENOCSI", "No CSI structure available"},
-/*0052*/ e{"EL2HLT", "Level 2 halted"},
-/*0053*/ e{"EBADE", "Invalid exchange"},
-/*0054*/ e{"EBADR", "Invalid request descriptor"},
-/*0055*/ e{"EXFULL", "Exchange full"},
-/*0056*/ e{"ENOANO", "No anode"},
-/*0057*/ e{"EBADRQC", "Invalid request code"},
-/*0058*/ e{"EBADSLT", "Invalid slot"},
+/*0012*/ e{"ENOMEM", "Cannot allocate memory"},
+/*0013*/ e{"EACCES", "Permission denied"},
+/*0014*/ e{"EFAULT", "Bad address"},
+/*0015*/ e{"ENOTBLK", "Block device required"},
+/*0016*/ e{"EBUSY", "Device or resource busy"},
+/*0017*/ e{"EEXIST", "File exists"},
+/*0018*/ e{"EXDEV", "Invalid cross-device link"},
+/*0019*/ e{"ENODEV", "No such device"},
+/*0020*/ e{"ENOTDIR", "Not a directory"},
+/*0021*/ e{"EISDIR", "Is a directory"},
+/*0022*/ e{"EINVAL", "Invalid argument"},
+/*0023*/ e{"ENFILE", "Too many open files in system"},
+/*0024*/ e{"EMFILE", "Too many open files"},
+/*0025*/ e{"ENOTTY", "Inappropriate ioctl for device"},
+/*0026*/ e{"ETXTBSY", "Text file busy"},
+/*0027*/ e{"EFBIG", "File too large"},
+/*0028*/ e{"ENOSPC", "No space left on device"},
+/*0029*/ e{"ESPIPE", "Illegal seek"},
+/*0030*/ e{"EROFS", "Read-only file system"},
+/*0031*/ e{"EMLINK", "Too many links"},
+/*0032*/ e{"EPIPE", "Broken pipe"},
+/*0033*/ e{"EDOM", "Numerical argument out of domain"},
+/*0034*/ e{"ERANGE", "Numerical result out of range"},
+/*0035*/ e{"EDEADLK", "Resource deadlock avoided"},
+/*0036*/ e{"ENAMETOOLONG", "File name too long"},
+/*0037*/ e{"ENOLCK", "No locks available"},
+/*0038*/ e{"ENOSYS", "Function not implemented"},
+/*0039*/ e{"ENOTEMPTY", "Directory not empty"},
+/*0040*/ e{"ELOOP", "Too many levels of symbolic links"},
+/*0041*/ e{},
+/*0042*/ e{"ENOMSG", "No message of desired type"},
+/*0043*/ e{"EIDRM", "Identifier removed"},
+/*0044*/ e{"ECHRNG", "Channel number out of range"},
+/*0045*/ e{"EL2NSYNC", "Level 2 not synchronized"},
+/*0046*/ e{"EL3HLT", "Level 3 halted"},
+/*0047*/ e{"EL3RST", "Level 3 reset"},
+/*0048*/ e{"ELNRNG", "Link number out of range"},
+/*0049*/ e{"EUNATCH", "Protocol driver not attached"},
+/*0050*/ e{"ENOCSI", "No CSI structure available"},
+/*0051*/ e{"EL2HLT", "Level 2 halted"},
+/*0052*/ e{"EBADE", "Invalid exchange"},
+/*0053*/ e{"EBADR", "Invalid request descriptor"},
+/*0054*/ e{"EXFULL", "Exchange full"},
+/*0055*/ e{"ENOANO", "No anode"},
+/*0056*/ e{"EBADRQC", "Invalid request code"},
+/*0057*/ e{"EBADSLT", "Invalid slot"},
+/*0058*/ e{},
 /*0059*/ e{"EBFONT", "Bad font file format"},
 /*0060*/ e{"ENOSTR", "Device not a stream"},
 /*0061*/ e{"ENODATA", "No data available"},
@@ -94,42 +94,41 @@
 /*0093*/ e{"EPROTONOSUPPORT", "Protocol not supported"},
 /*0094*/ e{"ESOCKTNOSUPPORT", "Socket type not supported"},
 /*0095*/ e{"EOPNOTSUPP", "Operation not supported"},
-/*0096*/ e{"ENOTSUP", "Operation not supported"},
-/*0097*/ e{"EPFNOSUPPORT", "Protocol family not supported"},
-/*0098*/ e{"EAFNOSUPPORT", "Address family not supported by protocol"},
-/*0099*/ e{"EADDRINUSE", "Address already in use"},
-/*0100*/ e{"EADDRNOTAVAIL", "Cannot assign requested address"},
-/*0101*/ e{"ENETDOWN", "Network is down"},
-/*0102*/ e{"ENETUNREACH", "Network is unreachable"},
-/*0103*/ e{"ENETRESET", "Network dropped connection on reset"},
-/*0104*/ e{"ECONNABORTED", "Software caused connection abort"},
-/*0105*/ e{"ECONNRESET", "Connection reset by peer"},
-/*0106*/ e{"ENOBUFS", "No buffer space available"},
-/*0107*/ e{"EISCONN", "Transport endpoint is already connected"},
-/*0108*/ e{"ENOTCONN", "Transport endpoint is not connected"},
-/*0109*/ e{"ESHUTDOWN", "Cannot send after transport endpoint shutdown"},
-/*0110*/ e{"ETOOMANYREFS", "Too many references: cannot splice"},
-/*0111*/ e{"ETIMEDOUT", "Connection timed out"},
-/*0112*/ e{"ECONNREFUSED", "Connection refused"},
-/*0113*/ e{"EHOSTDOWN", "Host is down"},
-/*0114*/ e{"EHOSTUNREACH", "No route to host"},
-/*0115*/ e{"EALREADY", "Operation already in progress"},
-/*0116*/ e{"EINPROGRESS", "Operation now in progress"},
-/*0117*/ e{"ESTALE", "Stale file handle"},
-/*0118*/ e{"EUCLEAN", "Structure needs cleaning"},
-/*0119*/ e{"ENOTNAM", "Not a XENIX named type file"},
-/*0120*/ e{"ENAVAIL", "No XENIX semaphores available"},
-/*0121*/ e{"EISNAM", "Is a named type file"},
-/*0122*/ e{"EREMOTEIO", "Remote I/O error"},
-/*0123*/ e{"EDQUOT", "Disk quota exceeded"},
-/*0124*/ e{"ENOMEDIUM", "No medium found"},
-/*0125*/ e{"EMEDIUMTYPE", "Wrong medium type"},
-/*0126*/ e{"ECANCELED", "Operation canceled"},
-/*0127*/ e{"ENOKEY", "Required key not available"},
-/*0128*/ e{"EKEYEXPIRED", "Key has expired"},
-/*0129*/ e{"EKEYREVOKED", "Key has been revoked"},
-/*0130*/ e{"EKEYREJECTED", "Key was rejected by service"},
-/*0131*/ e{"EOWNERDEAD", "Owner died"},
-/*0132*/ e{"ENOTRECOVERABLE", "State not recoverable"},
-/*0133*/ e{"ERFKILL", "Operation not possible due to RF-kill"},
-/*0134*/ e{"EHWPOISON", "Memory page has hardware error"},
+/*0096*/ e{"EPFNOSUPPORT", "Protocol family not supported"},
+/*0097*/ e{"EAFNOSUPPORT", "Address family not supported by protocol"},
+/*0098*/ e{"EADDRINUSE", "Address already in use"},
+/*0099*/ e{"EADDRNOTAVAIL", "Cannot assign requested address"},
+/*0100*/ e{"ENETDOWN", "Network is down"},
+/*0101*/ e{"ENETUNREACH", "Network is unreachable"},
+/*0102*/ e{"ENETRESET", "Network dropped connection on reset"},
+/*0103*/ e{"ECONNABORTED", "Software caused connection abort"},
+/*0104*/ e{"ECONNRESET", "Connection reset by peer"},
+/*0105*/ e{"ENOBUFS", "No buffer space available"},
+/*0106*/ e{"EISCONN", "Transport endpoint is already connected"},
+/*0107*/ e{"ENOTCONN", "Transport endpoint is not connected"},
+/*0108*/ e{"ESHUTDOWN", "Cannot send after transport endpoint shutdown"},
+/*0109*/ e{"ETOOMANYREFS", "Too many references: cannot splice"},
+/*0110*/ e{"ETIMEDOUT", "Connection timed out"},
+/*0111*/ e{"ECONNREFUSED", "Connection refused"},
+/*0112*/ e{"EHOSTDOWN", "Host is down"},
+/*0113*/ e{"EHOSTUNREACH", "No route to host"},
+/*0114*/ e{"EALREADY", "Operation already in progress"},
+/*0115*/ e{"EINPROGRESS", "Operation now in progress"},
+/*0116*/ e{"ESTALE", "Stale file handle"},
+/*0117*/ e{"EUCLEAN", "Structure needs cleaning"},
+/*0118*/ e{"ENOTNAM", "Not a XENIX named type file"},
+/*0119*/ e{"ENAVAIL", "No XENIX semaphores available"},
+/*0120*/ e{"EISNAM", "Is a named type file"},
+/*0121*/ e{"EREMOTEIO", "Remote I/O error"},
+/*0122*/ e{"EDQUOT", "Disk quota exceeded"},
+/*0123*/ e{"ENOMEDIUM", "No medium found"},
+/*0124*/ e{"EMEDIUMTYPE", "Wrong medium type"},
+/*0125*/ e{"ECANCELED", "Operation canceled"},
+/*0126*/ e{"ENOKEY", "Required key not available"},
+/*0127*/ e{"EKEYEXPIRED", "Key has expired"},
+/*0128*/ e{"EKEYREVOKED", "Key has been revoked"},
+/*0129*/ e{"EKEYREJECTED", "Key was rejected by service"},
+/*0130*/ e{"EOWNERDEAD", "Owner died"},
+/*0131*/ e{"ENOTRECOVERABLE", "State not recoverable"},
+/*0132*/ e{"ERFKILL", "Operation not possible due to RF-kill"},
+/*0133*/ e{"EHWPOISON", "Memory page has hardware error"},
diff --git a/best/io/errnos.py b/best/io/errnos.py
index a5afdb4..bc48e70 100755
--- a/best/io/errnos.py
+++ b/best/io/errnos.py
@@ -33,15 +33,7 @@ def main():
 
   next = 0
   for n, name, message in errnos:
-    while next < n:
-      print(f"/*{next:04}*/ e{{}},")
-      next += 1
-    print(f'/*{next:04}*/ e{{"{name}", "{message}"}},')
-    next += 1
-
-
-  next = 0
-  for n, name, message in errnos:
+    if n < next: continue  # An alias of the previous one.
     while next < n:
       print(f"/*{next:04}*/ e{{}},")
       next += 1
-- 
2.43.0


From 3d36bbf4cd53d33e482be8768157f72b0ccb2c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:18 +0000
Subject: [PATCH 079/121] fix: malloc::realloc() corrupted over-aligned blocks

---
 best/memory/allocator.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/best/memory/allocator.cc b/best/memory/allocator.cc
index fec2148..25c8434 100644
--- a/best/memory/allocator.cc
+++ b/best/memory/allocator.cc
@@ -131,11 +131,14 @@ best::ptr<void> malloc::zalloc(best::layout layout) {
 best::ptr<void> malloc::realloc(best::ptr<void> ptr, best::layout old,
                                 best::layout layout) {
   check_addr(ptr);
-  check_layout(ptr, old);
+  auto raw = ptr;
+  auto old_actual = old;
+  check_layout(raw, old_actual);
   auto actual = UseCookies ? embiggen(layout) : layout;
 
-  if (actual.align() <= MaxAlign) {
-    void* p = ::realloc(ptr.raw(), actual.size());
+  // realloc() preserves no more than the default alignment.
+  if (old_actual.align() <= MaxAlign && actual.align() <= MaxAlign) {
+    void* p = ::realloc(raw.raw(), actual.size());
     if (best::unlikely(p == nullptr)) {
       best::crash_internal::crash(
         "realloc() returned a null pointer on layout %zu:%zu -> %zu:%zu",
@@ -151,7 +154,7 @@ best::ptr<void> malloc::realloc(best::ptr<void> ptr, best::layout old,
   auto p = alloc(layout);
   size_t common = best::min(old.size(), layout.size());
   std::memcpy(p.raw(), ptr.raw(), common);
-  dealloc(ptr, layout);
+  dealloc(ptr, old);
   return p;
 }
 
-- 
2.43.0


From e27e1fc49a8eb3620026aea3681c4f9b2996c54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:18 +0000
Subject: [PATCH 080/121] fix: malloc handed out short blocks when the size of
 a cookie overflowed

---
 best/memory/allocator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/best/memory/allocator.cc b/best/memory/allocator.cc
index 25c8434..1908cbc 100644
--- a/best/memory/allocator.cc
+++ b/best/memory/allocator.cc
@@ -41,6 +41,11 @@ best::layout embiggen(best::layout layout) {
   size_t new_align = best::max(layout.align(), best::align_of<best::layout>);
   size_t grow_by = best::size_of<best::layout>;
   if (grow_by < new_align) { grow_by = new_align; }
+  if (layout.size() > best::max_of<size_t> - grow_by) {
+    best::crash_internal::crash(
+      "attempted to allocate more than max_of<size_t> bytes for layout %zu:%zu",
+      layout.size(), layout.align());
+  }
 
   return best::layout(
     unsafe("the alignment is a power of two, because it is either `layout`'s "
-- 
2.43.0


From 83bfca44d7c37fef9e35c4cd2c720c24f8d24fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:23 +0000
Subject: [PATCH 081/121] fix: ioerr could not be formatted with constant
 templates

---
 best/io/ioerr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/io/ioerr.h b/best/io/ioerr.h
index 1fe66db..ae99a38 100644
--- a/best/io/ioerr.h
+++ b/best/io/ioerr.h
@@ -80,7 +80,7 @@ class ioerr final {
     }
     fmt.format("Error {}: ({}), {}", e.raw(), *e.name(), *e.message());
   }
-  friend void BestFmtQuery(auto& query, ioerr*) {
+  constexpr friend void BestFmtQuery(auto& query, ioerr*) {
     query.requires_debug = false;
   }
 
-- 
2.43.0


From 04b2c280e6d2fa0defb41a47a7fa9c6384c0b8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:40 +0000
Subject: [PATCH 082/121] fix: tap[] indexed with the tapped value, and
 inspect() returned nothing

---
 best/func/tap.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/best/func/tap.h b/best/func/tap.h
index fd62e71..38853d6 100644
--- a/best/func/tap.h
+++ b/best/func/tap.h
@@ -175,40 +175,40 @@ constexpr auto tap<Guard, Cb>::operator()(auto&&... args) && {
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) const& {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) const& {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->**this)[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->**this)[BEST_FWD(idx)];
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) & {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) & {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->**this)[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->**this)[BEST_FWD(idx)];
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) const&& {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) const&& {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(idx)];
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) && {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) && {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(idx)];
   });
 }
 
 constexpr auto inspect(auto&& cb) {
   return best::tap([cb = BEST_FWD(cb)](auto&& arg) -> decltype(auto) {
-    (void)best::call(cb, BEST_FWD(arg));
-    BEST_FWD(arg);
+    (void)best::call(cb, arg);
+    return BEST_FWD(arg);
   });
 }
 constexpr auto inspect(best::bind_t, auto&& cb) {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    (void)best::call(BEST_FWD(cb), BEST_FWD(arg));
-    BEST_FWD(arg);
+    (void)best::call(BEST_FWD(cb), arg);
+    return BEST_FWD(arg);
   });
 }
 }  // namespace best
-- 
2.43.0


From 5a24f4460f80966443f8499f6c96795aaacfca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:03 +0000
Subject: [PATCH 083/121] fix: fnref and vtable_binder rejected const
 callables, noexcept functions and reference results

---
 best/func/internal/dyn.h   |  8 ++++++--
 best/func/internal/fnref.h | 16 +++++++++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/best/func/internal/dyn.h b/best/func/internal/dyn.h
index b14a40f..84cec98 100644
--- a/best/func/internal/dyn.h
+++ b/best/func/internal/dyn.h
@@ -90,9 +90,13 @@ class binder_impl {
   constexpr binder_impl(std::nullptr_t){};
 
   constexpr binder_impl(no_captures auto closure)
-    : fnptr_(+[](ptr self, Args... args) {
+    : fnptr_(+[](ptr self, Args... args) -> R {
         decltype(closure) closure;
-        return closure(ptr_cast{.ptr = self}, BEST_FWD(args)...);
+        if constexpr (best::is_void<R>) {
+          closure(ptr_cast{.ptr = self}, BEST_FWD(args)...);
+        } else {
+          return closure(ptr_cast{.ptr = self}, BEST_FWD(args)...);
+        }
       }) {}
 
   constexpr binder_impl(R (*fnptr)(ptr, Args...)) : fnptr_(fnptr) {}
diff --git a/best/func/internal/fnref.h b/best/func/internal/fnref.h
index 22f5a56..bdc1b2b 100644
--- a/best/func/internal/fnref.h
+++ b/best/func/internal/fnref.h
@@ -65,9 +65,13 @@ class impl {
     constexpr bound(std::nullptr_t){};
 
     constexpr bound(no_captures auto closure)
-      : pc_(+[](ptr thiz, Args... args) {
+      : pc_(+[](ptr thiz, Args... args) -> R {
           decltype(closure) closure;
-          return closure(ptr_cast{.ptr = thiz}, BEST_FWD(args)...);
+          if constexpr (best::is_void<R>) {
+            closure(ptr_cast{.ptr = thiz}, BEST_FWD(args)...);
+          } else {
+            return closure(ptr_cast{.ptr = thiz}, BEST_FWD(args)...);
+          }
         }) {}
 
     constexpr bound(R (*fnptr)(ptr, Args...)) : pc_(fnptr) {}
@@ -92,8 +96,9 @@ class impl {
 
   constexpr impl(const auto& fn)
     requires best::callable<decltype(fn), R(Args...)> &&
-               (!no_captures<decltype(fn)>)
-    : ptr_(best::addr(fn)),
+               (!no_captures<decltype(fn)>) &&
+               (!best::is_func<best::un_ref<decltype(fn)>>)
+    : ptr_(const_cast<ptr>(static_cast<const void*>(best::addr(fn)))),
       fnptr_{.bound = [](decltype(fn)& f, Args... args) -> R {
         if constexpr (best::is_void<R>) {
           best::call(f, BEST_FWD(args)...);
@@ -103,7 +108,8 @@ class impl {
       }} {}
 
   constexpr impl(best::callable<R(Args...)> auto&& fn)
-    requires (!best::is_const_func<Func>) && (!no_captures<decltype(fn)>)
+    requires (!best::is_const_func<Func>) && (!no_captures<decltype(fn)>) &&
+             (!best::is_func<best::un_ref<decltype(fn)>>)
     : ptr_(best::addr(fn)),
       fnptr_{.bound = [](decltype(fn)& f, Args... args) -> R {
         if constexpr (best::is_void<R>) {
-- 
2.43.0


From 97ea79b9519875c292bb71676510591a0430f86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:32 +0000
Subject: [PATCH 084/121] fix: best::call rejected callees that may only be
 called as rvalues

---
 best/func/internal/call.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/func/internal/call.h b/best/func/internal/call.h
index de549bd..f1123c8 100644
--- a/best/func/internal/call.h
+++ b/best/func/internal/call.h
@@ -38,7 +38,7 @@ BEST_INLINE_SYNTHETIC constexpr decltype(auto) call(
   best::is_func auto Class::*member, auto&& self, auto&&... args)
   requires requires {
     requires sizeof...(Ts) == 0;
-    (self.*member)(BEST_FWD(args)...);
+    (BEST_FWD(self).*member)(BEST_FWD(args)...);
   }
 {
   return (BEST_FWD(self).*member)(BEST_FWD(args)...);
@@ -77,7 +77,7 @@ template <typename... Args>
 BEST_INLINE_SYNTHETIC constexpr decltype(auto) call(auto&& func, auto&&... args)
   requires requires {
     requires sizeof...(Args) == 0;
-    func(BEST_FWD(args)...);
+    BEST_FWD(func)(BEST_FWD(args)...);
   }
 {
   return BEST_FWD(func)(BEST_FWD(args)...);
-- 
2.43.0


From 27f00117f4255f3bceabdbe1d7a92a013b12f1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:47 +0000
Subject: [PATCH 085/121] fix: pointers to dyns of const interfaces did not
 compile

---
 best/func/dyn.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/best/func/dyn.h b/best/func/dyn.h
index 5ea68ac..bca740e 100644
--- a/best/func/dyn.h
+++ b/best/func/dyn.h
@@ -427,7 +427,8 @@ class dyn<I...>::meta {
   template <typename P>
   constexpr meta(best::tlist<P>, const typename P::metadata&)
     requires (P::is_thin() && (best::implements<typename P::pointee, I> && ...))
-    : vt_(&best::itable<I...>::of(best::types<typename P::pointee>)) {}
+    : vt_(&best::itable<best::un_const<I>...>::of(
+          best::types<typename P::pointee>)) {}
 
   constexpr best::layout layout() const { return vt_->layout(); }
   constexpr auto deref(pointee* ptr) const { return accessor(ptr, vt_); }
@@ -435,7 +436,7 @@ class dyn<I...>::meta {
   template <typename T>
   static constexpr meta meta_for(T&&) requires (best::implements<T, I> && ...)
   {
-    return &best::itable<I...>::of(best::types<T>);
+    return &best::itable<best::un_const<I>...>::of(best::types<T>);
   }
   template <typename T>
   static constexpr void construct(pointee* dst, bool assign, T&& arg) {
-- 
2.43.0


From 6463813faa1abc187d389acdab2c7107b3cd5431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:31 +0000
Subject: [PATCH 086/121] fix: defaulted interface functions with results did
 not compile in a dyn of several interfaces

---
 best/func/dyn.h          | 5 +++++
 best/func/internal/dyn.h | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/best/func/dyn.h b/best/func/dyn.h
index bca740e..5ba63f6 100644
--- a/best/func/dyn.h
+++ b/best/func/dyn.h
@@ -407,6 +407,11 @@ constexpr const itable<I...>& itable<I...>::of(best::tlist<T>)
   return best::dyn_internal::impl<best::un_ref<T>, best::as_auto<I>...>;
 }
 
+template <typename I, typename T>
+const I::BestVtable* dyn_internal::vtable_of() {
+  return best::itable<I>::of(best::types<T>).operator->();
+}
+
 template <best::interface... I>
 class dyn<I...>::meta {
  public:
diff --git a/best/func/internal/dyn.h b/best/func/internal/dyn.h
index 84cec98..641ce45 100644
--- a/best/func/internal/dyn.h
+++ b/best/func/internal/dyn.h
@@ -42,6 +42,11 @@ struct access {
   }
 };
 
+// The vtable with which `T` implements only `I`. This is not constexpr so that
+// default implementations can name it while an itable is being initialized.
+template <typename I, typename T>
+const I::BestVtable* vtable_of();
+
 template <typename I, typename T>
 constexpr auto apply_vtable_defaults(auto vt) {
   if constexpr (requires {
@@ -200,7 +205,7 @@ class binder_impl {
         BEST_IFACE_CONST_(__VA_ARGS__) BEST_This_ BEST_dyn_(               \
           const_cast<void*>(                                               \
             static_cast<const void*>(::best::addr(BEST_this_))),           \
-          ::best::itable<BEST_This_>::of(::best::types<BEST_T_>).operator->()); \
+          ::best::dyn_internal::vtable_of<BEST_This_, BEST_T_>());             \
         return BEST_dyn_.name_(                                            \
           BEST_IFACE_ARGS_(::best::defaulted{}, args_)                     \
         );                                                                 \
-- 
2.43.0


From 13addb4cd7ae6679229c6a63a715ee2df565df2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:31 +0000
Subject: [PATCH 087/121] fix: a deferred action that threw, or ran its own
 defer, ran more than once

---
 best/func/defer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/func/defer.h b/best/func/defer.h
index 5c87e3b..194e70e 100644
--- a/best/func/defer.h
+++ b/best/func/defer.h
@@ -64,8 +64,9 @@ class [[nodiscard(
   /// Forcibly runs the defer. Further calls to run() will have no effect.
   constexpr void run() {
     if (!cancelled_) {
-      best::call(cb_);
+      // Cancel first, so that the callback may call run() itself.
       cancel();
+      best::call(cb_);
     }
   }
 
-- 
2.43.0


From 9a17c3295f08e4cf3e4402a856d1ec079dc2bcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:44 +0000
Subject: [PATCH 088/121] fix: deref_arrow() only followed arrows of this
 library, and const rvalue taps did not compile

---
 best/func/arrow.h | 20 ++++++++++++++++----
 best/func/tap.h   |  4 +++-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/best/func/arrow.h b/best/func/arrow.h
index 5b3b275..c12ae24 100644
--- a/best/func/arrow.h
+++ b/best/func/arrow.h
@@ -58,15 +58,27 @@
 //! full expression, so the pointer that the final `->b` offsets will be valid.
 
 namespace best {
+namespace arrow_internal {
+// Whether a deref sequence starting at `A` ends in a raw pointer.
+template <typename A>
+constexpr bool can_deref() {
+  if constexpr (best::is_raw_ptr<best::as_auto<A>>) {
+    return true;
+  } else if constexpr (requires(A&& a) { BEST_MOVE(a).operator->(); }) {
+    return can_deref<decltype(
+      static_cast<best::un_ref<A>&&>(best::lie<A&>).operator->())>();
+  } else {
+    return false;
+  }
+}
+}  // namespace arrow_internal
+
 /// # `best::deref_arrow()`
 ///
 /// Runs an `operator->` deref sequence to completion, simulating the result
 /// of doing `x->y`, without the final "real" `->y` part.
 template <typename A>
-auto* deref_arrow(A&& ptr) requires (best::is_raw_ptr<best::as_auto<A>> ||
-                                     requires {
-                                       { deref_arrow(ptr.operator->()) };
-                                     })
+auto* deref_arrow(A&& ptr) requires (arrow_internal::can_deref<A>())
 {
   if constexpr (best::is_raw_ptr<best::as_auto<A>>) {
     return ptr;
diff --git a/best/func/tap.h b/best/func/tap.h
index 38853d6..df05c3d 100644
--- a/best/func/tap.h
+++ b/best/func/tap.h
@@ -93,7 +93,9 @@ class [[nodiscard(
   /// Gets a reference to the wrapped callback.
   constexpr const Cb& callback() const& { return cb_; }
   constexpr Cb& callback() & { return cb_; }
-  constexpr const Cb&& callback() const&& { return BEST_MOVE(cb_); }
+  constexpr const Cb&& callback() const&& {
+    return static_cast<const Cb&&>(cb_);
+  }
   constexpr Cb&& callback() && { return BEST_MOVE(cb_); }
 
   /// # `tap()`, `tap[]`
-- 
2.43.0


From 157bea96ed6d132751b5d3d73e5ef0f5b36da2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:06 +0000
Subject: [PATCH 089/121] fix: textbuf::allocator() asks the buffer for its
 allocator

---
 best/text/strbuf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/text/strbuf.h b/best/text/strbuf.h
index 0b47589..5cca639 100644
--- a/best/text/strbuf.h
+++ b/best/text/strbuf.h
@@ -215,8 +215,8 @@ class textbuf final {
   /// # `textbuf::allocator()`
   ///
   /// Returns a reference to his vector's allocator.
-  best::as_ref<const alloc> allocator() const { return buf_.alloc(); }
-  best::as_ref<alloc> allocator() { return buf_.alloc(); }
+  best::as_ref<const alloc> allocator() const { return buf_.allocator(); }
+  best::as_ref<alloc> allocator() { return buf_.allocator(); }
 
   /// # `textbuf::enc()`
   ///
-- 
2.43.0


From 176db62ad87c7c1e3e28e00dd9c3a40f1366f07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:50 +0000
Subject: [PATCH 090/121] fix: textbuf::from() keeps the allocator it is given

---
 best/text/strbuf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/strbuf.h b/best/text/strbuf.h
index 5cca639..44b0b61 100644
--- a/best/text/strbuf.h
+++ b/best/text/strbuf.h
@@ -361,7 +361,7 @@ best::option<textbuf<E, A>> textbuf<E, A>::from(alloc alloc, pretext t) {
   auto validated = text::from(t);
   BEST_GUARD(validated);
 
-  return textbuf(best::unsafe("just did validation above"), *validated);
+  return textbuf(std::move(alloc), *validated);
 }
 
 template <typename E, allocator A>
-- 
2.43.0


From 985cd6a7eb3968d00cb5c51c1153f936b56a64ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:50 +0000
Subject: [PATCH 091/121] fix: a textbuf can be pushed onto itself

---
 best/text/strbuf.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/best/text/strbuf.h b/best/text/strbuf.h
index 44b0b61..d1b5388 100644
--- a/best/text/strbuf.h
+++ b/best/text/strbuf.h
@@ -382,6 +382,11 @@ bool textbuf<E, A>::push(rune r) {
 }
 template <typename E, allocator A>
 bool textbuf<E, A>::push(const best::is_string auto& that) {
+  if constexpr (requires { that.as_text(); }) {
+    // Pushing a buffer onto itself must not iterate over storage that moves.
+    return push(that.as_text());
+  }
+
   if constexpr (best::is_text<decltype(that)> &&
                 best::same_encoding_code<textbuf, decltype(that)>()) {
     if (best::same_encoding(*this, that)) {
@@ -425,6 +430,11 @@ void textbuf<E, A>::push_lossy(rune r) {
 
 template <typename E, allocator A>
 void textbuf<E, A>::push_lossy(const best::is_string auto& that) {
+  if constexpr (requires { that.as_text(); }) {
+    // Pushing a buffer onto itself must not iterate over storage that moves.
+    return push_lossy(that.as_text());
+  }
+
   if constexpr (best::is_text<decltype(that)> &&
                 best::same_encoding_code<textbuf, decltype(that)>()) {
     if (best::same_encoding(*this, that)) {
-- 
2.43.0


From 76485b7c6aa96546d6bbe7d8c6d3f6ebaeb8d3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:49 +0000
Subject: [PATCH 092/121] fix: writing a newline while indented neither loses
 nor repeats characters

---
 best/text/format.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/best/text/format.h b/best/text/format.h
index 105192d..aff6bd0 100644
--- a/best/text/format.h
+++ b/best/text/format.h
@@ -429,18 +429,19 @@ void formatter::write(const best::is_string auto& string) {
   if constexpr (best::is_pretext<decltype(string)>) {
     if (indent_ == 0) {
       out_->push_lossy(string);
+      at_new_line_ = false;
       return;
     }
 
     size_t watermark = 0;
     for (auto [idx, r] : string.rune_indices()) {
       if (r != '\n') { continue; }
-      if (idx != watermark + 1 && idx > 0) {
+      if (idx > watermark) {
         update_indent();
-        out_->push_lossy(string[{.start = watermark, .end = idx - 1}]);
+        out_->push_lossy(string[{.start = watermark, .end = idx}]);
       }
 
-      watermark = idx;
+      watermark = idx + 1;
       out_->push_lossy("\n");
       at_new_line_ = true;
     }
-- 
2.43.0


From 4318223213714637ec2361d7351d8ecb2fe26fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:49 +0000
Subject: [PATCH 093/121] fix: formatter::block::finish() closes the block only
 once

---
 best/text/format.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/text/format.cc b/best/text/format.cc
index 3f8e7ab..ccce376 100644
--- a/best/text/format.cc
+++ b/best/text/format.cc
@@ -71,6 +71,7 @@ void formatter::block::finish() {
   if (uses_indent_ && entries_ > 0) { fmt_->write(",\n"); }
   if (uses_indent_) { --fmt_->indent_; }
   fmt_->write(config_.close);
+  fmt_ = nullptr;
 }
 
 void formatter::block::advise_size(size_t n) {
-- 
2.43.0


From e969ce59c7b932d2acde3a03fac795a455fedeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:49 +0000
Subject: [PATCH 094/121] fix: a string formatted with precision zero is empty

---
 best/text/internal/format_impls.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/best/text/internal/format_impls.h b/best/text/internal/format_impls.h
index 2caee1f..c87952a 100644
--- a/best/text/internal/format_impls.h
+++ b/best/text/internal/format_impls.h
@@ -216,10 +216,7 @@ void BestFmt(auto& fmt, const best::is_string auto& s) {
     if (auto prec = spec.prec) {
       size_t max = *prec;
       auto runes = str.runes();
-      for (auto r : runes) {
-        (void)r;
-        if (--max == 0) { break; }
-      }
+      while (max > 0 && runes.next()) { --max; }
       str = str[{.end = str.size() - runes->rest().size()}];
     }
 
-- 
2.43.0


From 9390b579a8e0f090b980f7bd0683a49dd65002cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:06 +0000
Subject: [PATCH 095/121] fix: the least value of a signed integer can be
 formatted

---
 best/text/internal/format_impls.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/best/text/internal/format_impls.h b/best/text/internal/format_impls.h
index c87952a..46a43ec 100644
--- a/best/text/internal/format_impls.h
+++ b/best/text/internal/format_impls.h
@@ -141,19 +141,21 @@ void BestFmt(auto& fmt, best::is_int auto value) {
       break;
   }
 
+  // The magnitude of the least value of a signed type only fits once unsigned.
   bool negative = value < 0;
-  if (negative) { value = -value; }
+  auto abs = best::to_unsigned(value);
+  if (negative) { abs = 0 - abs; }
 
   // Construct the actual digits.
   char buf[128];
   size_t count = 0;
   do {
-    rune r = *rune::from_digit(value % base, base);
+    rune r = *rune::from_digit(abs % base, base);
     if (uppercase) { r = r.to_ascii_upper(); }
 
     buf[128 - count++ - 1] = r;
-    value /= base;
-  } while (value != 0);
+    abs /= base;
+  } while (abs != 0);
 
   best::str digits(unsafe("all characters are ascii"),
                    best::span(buf + 128 - count, count));
-- 
2.43.0


From cb0d481238d932f46e637fc2505016931e14f989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:06 +0000
Subject: [PATCH 096/121] fix: unterminated or oversized numbers in a format
 template are refused

---
 best/text/internal/format_parser.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/best/text/internal/format_parser.h b/best/text/internal/format_parser.h
index 02ab19b..df43b43 100644
--- a/best/text/internal/format_parser.h
+++ b/best/text/internal/format_parser.h
@@ -145,12 +145,14 @@ constexpr bool visit_template(const char* data, size_t len, Print print,
       auto count = find(data, len, [](char c) { return c < '0' || c > '9'; });
       // We should find a non-digit rune, because otherwise this is an invalid
       // string.
-      if (count == -1) { -1; }
+      if (count == -1) { return -1; }
 
-      uint32_t result = 0;
+      uint64_t result = 0;
       for (size_t i = 0; i < count; ++i) {
         result *= 10;
         result += data[i] - '0';
+        // Too large to be represented.
+        if (result >= uint32_t(-1)) { return -1; }
       }
       data += count;
       len -= count;
@@ -162,8 +164,9 @@ constexpr bool visit_template(const char* data, size_t len, Print print,
       cur_idx = idx++;
     } else {
       // Parse digits for an explicit index.
-      cur_idx = atoi();
-      if (cur_idx == -1) { return false; }
+      auto parsed = atoi();
+      if (parsed == -1) { return false; }
+      cur_idx = parsed;
 
       // The next rune must be either ':' or '}'. If it's ':' we consume it.
       if (!consume_prefix(data, len, ':')) {
-- 
2.43.0


From b0693b130099b06d6a185955890ff1c13ea54c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:06 +0000
Subject: [PATCH 097/121] fix: a format template can forward an explicitly
 numbered argument

---
 best/text/internal/format_parser.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/text/internal/format_parser.h b/best/text/internal/format_parser.h
index df43b43..35cf10f 100644
--- a/best/text/internal/format_parser.h
+++ b/best/text/internal/format_parser.h
@@ -180,7 +180,8 @@ constexpr bool visit_template(const char* data, size_t len, Print print,
     if (consume_prefix(data, len, '!')) {
       args.pass_through = true;
       args.debug = true;
-      if (!best::call(interpolate, idx++, args)) { return false; }
+      if (!consume_prefix(data, len, '}')) { return false; }
+      if (!best::call(interpolate, cur_idx, args)) { return false; }
       continue;
     }
 
-- 
2.43.0


From 14778604435b32686447e8670657a4bc5e6dc6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:06 +0000
Subject: [PATCH 098/121] fix: format templates without a matching argument or
 method are refused

---
 best/text/internal/format_parser.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/text/internal/format_parser.h b/best/text/internal/format_parser.h
index 35cf10f..3b01f20 100644
--- a/best/text/internal/format_parser.h
+++ b/best/text/internal/format_parser.h
@@ -268,13 +268,15 @@ constexpr bool validate(best::span<const typename spec::query> queries,
   return format_internal::visit_template<spec>(
     templ.data().raw(), templ.size() - 1, nullptr,
     [&](size_t n, const spec& s) {
-      if (n > queries.size()) { return false; }
+      if (n >= queries.size()) { return false; }
       auto& q = queries[n];
 
       if (q.requires_debug && !s.debug) { return false; }
       if (!q.supports_width && s.width > 0) { return false; }
       if (!q.supports_prec && s.prec) { return false; }
-      if (s.method && !q.uses_method(*s.method)) { return false; }
+      if (s.method && (!q.uses_method || !q.uses_method(*s.method))) {
+        return false;
+      }
       return true;
     });
 }
-- 
2.43.0


From e1d2b24d58be3ece833c318bbcedc9dcf3800b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:40 +0000
Subject: [PATCH 099/121] fix: booleans and characters accept the format
 options they declare

---
 best/text/internal/format_impls.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/best/text/internal/format_impls.h b/best/text/internal/format_impls.h
index 46a43ec..d348d5a 100644
--- a/best/text/internal/format_impls.h
+++ b/best/text/internal/format_impls.h
@@ -32,17 +32,22 @@
 
 namespace best {
 void BestFmt(auto& fmt, bool value) {
-  value ? fmt.write("true") : fmt.write("false");
+  best::str text = value ? best::str("true") : best::str("false");
+  auto fill = fmt.current_spec().fill;
+  auto [pre, post] = fmt.current_spec().compute_padding(
+    text.size(), fmt.current_spec().Left);
+
+  for (size_t i = 0; i < pre; ++i) { fmt.write(fill); }
+  fmt.write(text);
+  for (size_t i = 0; i < post; ++i) { fmt.write(fill); }
 }
-template <typename T>
-constexpr void BestFmtQuery(auto& query, bool* range) {
+constexpr void BestFmtQuery(auto& query, bool*) {
   query.requires_debug = false;
   query.supports_width = true;
 }
 
 void BestFmt(auto& fmt, char8_t value) { fmt.format(*rune::from_int(value)); }
-template <typename T>
-constexpr void BestFmtQuery(auto& query, char8_t* range) {
+constexpr void BestFmtQuery(auto& query, char8_t*) {
   query.requires_debug = false;
   query.supports_width = true;
 }
@@ -50,8 +55,7 @@ constexpr void BestFmtQuery(auto& query, char8_t* range) {
 void BestFmt(auto& fmt, char16_t value) {
   fmt.format(*rune::from_int_allow_surrogates(value));
 }
-template <typename T>
-constexpr void BestFmtQuery(auto& query, char16_t* range) {
+constexpr void BestFmtQuery(auto& query, char16_t*) {
   query.requires_debug = false;
   query.supports_width = true;
 }
@@ -65,8 +69,7 @@ void BestFmt(auto& fmt, char32_t value) {
     fmt.format("<U+{:X}>", unsigned(value));
   }
 }
-template <typename T>
-constexpr void BestFmtQuery(auto& query, char32_t* range) {
+constexpr void BestFmtQuery(auto& query, char32_t*) {
   query.requires_debug = false;
   query.supports_width = true;
 }
-- 
2.43.0


From 4207f561f247259c6f11154a92d3dc5ba6167f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:40 +0000
Subject: [PATCH 100/121] fix: {:p} of a box prints its address

---
 best/container/box.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/container/box.h b/best/container/box.h
index 19efcce..62dfdf4 100644
--- a/best/container/box.h
+++ b/best/container/box.h
@@ -243,8 +243,10 @@ class BEST_RELOCATABLE box final {
 
   friend void BestFmt(auto& fmt, const box& box) {
     if constexpr (requires { fmt.format(*box); }) {
-      if (fmt.current_spec().method != 'p') { fmt.format(*box); }
-      return;
+      if (fmt.current_spec().method != 'p') {
+        fmt.format(*box);
+        return;
+      }
     }
     fmt.format(box.as_ptr());
   }
-- 
2.43.0


From e502debad642f173d1239e81112ee554ac27ca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:40 +0000
Subject: [PATCH 101/121] fix: a formatted rune is padded to the width it
 declares to support

---
 best/text/rune.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/best/text/rune.h b/best/text/rune.h
index 67e2d40..75d10ce 100644
--- a/best/text/rune.h
+++ b/best/text/rune.h
@@ -312,9 +312,14 @@ class rune final {
   }
 
   friend void BestFmt(auto& fmt, rune r) {
-    // TODO: Implement padding.
     if (fmt.current_spec().method != 'q' && !fmt.current_spec().debug) {
+      auto fill = fmt.current_spec().fill;
+      auto [pre, post] =
+        fmt.current_spec().compute_padding(1, fmt.current_spec().Left);
+
+      for (size_t i = 0; i < pre; ++i) { fmt.write(fill); }
       fmt.write(r);
+      for (size_t i = 0; i < post; ++i) { fmt.write(fill); }
       return;
     }
 
-- 
2.43.0


From 1fe10ca5ee86213162bb42e67b9808b10b40cd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:34 +0000
Subject: [PATCH 102/121] fix: an empty simple option prints none, not "none"

---
 best/container/internal/simple_option.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/internal/simple_option.h b/best/container/internal/simple_option.h
index 89bcf5d..7e4bf11 100644
--- a/best/container/internal/simple_option.h
+++ b/best/container/internal/simple_option.h
@@ -67,7 +67,7 @@ class option final {
     if (opt.has_) {
       fmt.format("option({:!})", opt.value_);
     } else {
-      fmt.format("none");
+      fmt.write("none");
     }
   }
 
-- 
2.43.0


From 0b74572833a969c1b3f99af4602c8e30e77d68e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:25 +0000
Subject: [PATCH 103/121] fix: arguments that are not flags are not read as
 letters

---
 best/cli/parser.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 257eb2a..4a19445 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -383,8 +383,9 @@ best::result<void, cli::error> cli::parse(
   while (auto next = iter.next()) {
     ctx.cur = ctx.sub;
     if (!done_with_flags) {
-      bool is_flag = next->starts_with("-");
-      bool is_letter = !next->starts_with("--");
+      // A lone dash is an ordinary argument.
+      bool is_flag = next->starts_with("-") && *next != "-";
+      bool is_letter = is_flag && !next->starts_with("--");
 
       if (next == "--") {
         done_with_flags = true;
@@ -501,8 +502,6 @@ best::result<void, cli::error> cli::parse(
           BEST_GUARD(f.parse(ctx, ""));
           flag = runes->rest();
         }
-
-        if (flag.is_empty()) { goto again; }
       }
 
       ctx.token = *next;
-- 
2.43.0


From 781d01e0dc45afb2c3904b16415ccef918419082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:25 +0000
Subject: [PATCH 104/121] fix: groups within groups can be reached through
 their letters

---
 best/cli/parser.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 4a19445..30e173a 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -271,8 +271,10 @@ void cli::init() {
 
         if (entry.magic == entry.Ordinary) {
           entry.idx += entry.is_group ? group_offset : flag_offset;
-        } else {
+        } else if (entry.idx == -1) {
           entry.idx = idx;
+        } else {
+          entry.idx += group_offset;
         }
 
         entry.is_letter |= is_letter;
@@ -439,7 +441,7 @@ best::result<void, cli::error> cli::parse(
         }
 
         // And nest.
-        ctx.cur = ctx.sub->impl_->groups[idx].child;
+        ctx.cur = ctx.cur->impl_->groups[idx].child;
         return best::ok();
       };
 
-- 
2.43.0


From 9bcb8502f3d959a303937b0afbcb9f682cac7ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:54 +0000
Subject: [PATCH 105/121] fix: flags and subcommands can be spelled with
 underscores

---
 best/cli/parser.cc | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 30e173a..7fa930f 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -93,18 +93,27 @@ struct cli::impl {
   /// Pointers to all required flags.
   std::unordered_map<const flag*, best::strbuf> required;
 
-  best::option<const entry&> find_flag(best::pretext<wtf8> tok) const {
-    return sorted_flags.as_span()
-      .bisect(tok, &entry::key)
+  static best::option<const entry&> find(best::span<const entry> entries,
+                                         best::pretext<wtf8> tok) {
+    // Names are insensitive to the choice of dashes or underscores; the keys
+    // have only dashes.
+    best::vec<char> name(best::span(tok.data(), tok.size()));
+    for (char& c : name) {
+      if (c == '_') { c = '-'; }
+    }
+
+    return entries
+      .bisect(best::pretext<wtf8>(name.as_span()), &entry::key)
       .ok()
-      .map([&](size_t idx) -> auto&& { return sorted_flags[idx]; });
+      .map([&](size_t idx) -> auto&& { return entries[idx]; });
+  }
+
+  best::option<const entry&> find_flag(best::pretext<wtf8> tok) const {
+    return find(sorted_flags, tok);
   }
 
   best::option<const entry&> find_sub(best::pretext<wtf8> tok) const {
-    return sorted_subs.as_span()
-      .bisect(tok, &entry::key)
-      .ok()
-      .map([&](size_t idx) -> auto&& { return sorted_subs[idx]; });
+    return find(sorted_subs, tok);
   }
 };
 
-- 
2.43.0


From a977457c7879b9e1ddcb33bc3fb6f313bb042f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:54 +0000
Subject: [PATCH 106/121] fix: an unparsable positional is reported with its
 error

---
 best/cli/parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/cli/parser.h b/best/cli/parser.h
index e44e7a5..269135f 100644
--- a/best/cli/parser.h
+++ b/best/cli/parser.h
@@ -192,7 +192,7 @@ void cli::type_erase_field(auto f) {
         if (result) { return best::ok(); }
 
         return best::err(best::format("{}: fatal: could not parse argument: {}",
-                                      ctx.exe, ctx.token, *result.err()),
+                                      ctx.exe, *result.err()),
                          /*is_fatal=*/true);
       });
   }
-- 
2.43.0


From 835f16e53d7ea14e9e8f16536ce0332252715d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:43 +0000
Subject: [PATCH 107/121] fix: required arguments are required of every
 selected command

---
 best/cli/parser.cc | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 7fa930f..61bbc52 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -390,6 +390,9 @@ best::result<void, cli::error> cli::parse(
   // us to generate errors for e.g. flag duplication or missing flags.
   std::unordered_set<const flag*> seen;
 
+  // The commands we have been through, and how many positionals each got.
+  best::vec<best::row<const cli*, size_t>> commands;
+
   auto iter = argv.iter();
   while (auto next = iter.next()) {
     ctx.cur = ctx.sub;
@@ -575,7 +578,9 @@ best::result<void, cli::error> cli::parse(
 
     // Look for a relevant subcommand.
     if (auto e = ctx.cur->impl_->find_sub(*next)) {
+      commands.push(ctx.sub, ctx.next_positional);
       ctx.sub = ctx.cur->impl_->subs[e->idx].child;
+      ctx.next_positional = 0;
       goto again;
     }
 
@@ -593,10 +598,22 @@ best::result<void, cli::error> cli::parse(
   again:;
   }
 
-  for (const auto& [req, name] : impl_->required) {
-    if (!seen.contains(req)) {
+  commands.push(ctx.sub, ctx.next_positional);
+  for (auto [cmd, positionals] : commands) {
+    for (const auto& [req, name] : cmd->impl_->required) {
+      if (!seen.contains(req)) {
+        return best::err(
+          best::format("{0}: fatal: missing flag --{1}", ctx.exe, name),
+          /*is_fatal=*/true);
+      }
+    }
+
+    for (auto [idx, p] : cmd->impl_->args.iter().enumerate()) {
+      if (idx < positionals || p.get_count() != Required) { continue; }
+      auto name = p.tag->name.is_empty() ? best::format("ARG{}", idx + 1)
+                                         : best::strbuf(p.tag->name);
       return best::err(
-        best::format("{0}: fatal: missing flag --{1}", ctx.exe, name),
+        best::format("{0}: fatal: missing argument <{1}>", ctx.exe, name),
         /*is_fatal=*/true);
     }
   }
-- 
2.43.0


From aa29fff1d73b20fc4f286a3ee128f30865975660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:21 +0000
Subject: [PATCH 108/121] fix: a group can have a letter without having a name

---
 best/cli/parser.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 61bbc52..2617a8c 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -251,6 +251,9 @@ void cli::init() {
       auto& [name, vis] = pair;
       if (vis == Delete) { continue; }
 
+      // A group need not have any name other than its letter.
+      if (has_letter && name_idx > 0 && name.is_empty()) { continue; }
+
       bool is_flatten = !has_letter && name.is_empty();
       bool is_letter = !is_flatten && name_idx == 0 && has_letter;
       if (!is_flatten) {
@@ -793,7 +796,8 @@ best::strbuf cli::usage(best::pretext<wtf8> exe, bool hidden) const {
     out.push("  ");
     if (auto [letter, vis] = about->names[0];
         has_letter && !e.is_copy && visible(vis, hidden)) {
-      best::format(out, "-{}, ", letter);
+      bool has_name = !e.is_group || !impl_->groups[e.idx].tag->name.is_empty();
+      best::format(out, "-{}{}", letter, has_name ? best::str(", ") : best::str());
     } else {
       indent(4);
     }
@@ -820,7 +824,7 @@ best::strbuf cli::usage(best::pretext<wtf8> exe, bool hidden) const {
         needs_comma |= visible(vis, hidden);
       }
 
-      best::format(out, "--{}{}", prefix, name);
+      if (!name.is_empty()) { best::format(out, "--{}{}", prefix, name); }
       if (!arg.is_empty()) {
         out.push(" ");
         out.push(arg);
@@ -887,10 +891,11 @@ best::strbuf cli::usage(best::pretext<wtf8> exe, bool hidden) const {
     bool has_letter = false;
     if (e.is_group) {
       const auto& g = impl_->groups[e.idx];
-      has_letter = g.tag->letter != '\0';
+      has_letter = g.tag->letter != '\0' && !g.tag->name.is_empty();
+      if (g.tag->name.is_empty() && e.is_copy) { continue; }
     }
 
-    // This makes us prefer to alphabetize by name.
+    // This makes us prefer to alphabetize by name, if there is one.
     if ((has_letter || !e.is_group) && e.is_letter) { continue; }
 
     if (std::exchange(first, false)) { out.push("\n"); }
-- 
2.43.0


From fcabb9070cb827ea214a64cde36f591beff1e289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:21 +0000
Subject: [PATCH 109/121] fix: hidden groups are not shown by --help

---
 best/cli/parser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 2617a8c..d6f796d 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -270,6 +270,7 @@ void cli::init() {
           .is_group = true,
           .is_letter = is_letter,
           .is_alias = name_idx > size_t(has_letter),
+          .vis = vis,
         });
 
         // Letter names for groups are parsed in a different way that does not
-- 
2.43.0


From b543d6422d5802f9c8d9c9887eb4cdbdce28532f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:58 +0000
Subject: [PATCH 110/121] fix: string buffer flags refuse ill-encoded arguments

---
 best/cli/parser.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/best/cli/parser.h b/best/cli/parser.h
index 269135f..182936c 100644
--- a/best/cli/parser.h
+++ b/best/cli/parser.h
@@ -260,9 +260,11 @@ template <typename E, best::allocator A>
 result<void, best::strbuf> BestFromArgv(auto raw, best::textbuf<E, A>& arg)
   requires best::constructible<A>
 {
-  if (auto valid = best::textbuf<E, A>::transcode(raw)) {
-    arg = BEST_MOVE(*valid);
-    return best::ok();
+  if (auto text = best::text<best::wtf8>::from(raw)) {
+    if (auto valid = best::textbuf<E, A>::transcode(*text)) {
+      arg = BEST_MOVE(*valid);
+      return best::ok();
+    }
   }
 
   return best::format("string is not correctly encoded: {:?}", raw);
-- 
2.43.0


From fe55b04e88664d925385c440978eb751313072c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:27 +0000
Subject: [PATCH 111/121] fix: groups within flattened groups have help, too

---
 best/cli/parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index d6f796d..7456d80 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -280,7 +280,9 @@ void cli::init() {
 
       auto copy_vis = merge(vis, is_flatten ? Public : Hidden);
       for (auto entry : g->child->impl_->sorted_flags) {
-        if (is_flatten && entry.magic != entry.Ordinary) { continue; }
+        if (is_flatten && entry.magic != entry.Ordinary && entry.idx == -1) {
+          continue;
+        }
 
         if (entry.magic == entry.Ordinary) {
           entry.idx += entry.is_group ? group_offset : flag_offset;
-- 
2.43.0


From 3a17a1d82224d8f70dffe9295551ee644b22c7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:50 +0000
Subject: [PATCH 112/121] fix: measure the prefix of a member pointer's name up
 to its class path

FieldOffsets measured the prefix up to the field's own name, so it included the
length of the measuring struct's path, and best::field_name<pm> did not compile
(or lost characters) for members of any other class.
---
 best/meta/internal/names.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/meta/internal/names.h b/best/meta/internal/names.h
index 51479b7..941eac0 100644
--- a/best/meta/internal/names.h
+++ b/best/meta/internal/names.h
@@ -94,10 +94,10 @@ inline constexpr auto TypeOffsets = [] {
 }();
 inline constexpr auto FieldOffsets = [] {
   auto name = raw_name<&BEST_REFLECT_STRUCT_::BEST_REFLECT_FIELD1_>();
-  auto idx = *name.find(FieldNeedle1);
+  auto idx = *name.find(FieldNeedle);
   return raw_offsets{
     .prefix = idx,
-    .suffix = name.size() - idx - FieldNeedle1.size(),
+    .suffix = name.size() - idx - FieldNeedle.size(),
   };
 }();
 inline constexpr auto ValueOffsets = [] {
-- 
2.43.0


From 2338d4b2f31005c9410f0093217e669f922d8c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:56 +0000
Subject: [PATCH 113/121] fix: name enumerators declared in an anonymous
 namespace

Unnamed values were recognised by a leading paren in the pretty-printed value,
but so is the path of anything in clang's (anonymous namespace), so every such
enumerator was reported (and printed) as having no name.
---
 best/meta/internal/names.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/best/meta/internal/names.h b/best/meta/internal/names.h
index 941eac0..6e1bbb1 100644
--- a/best/meta/internal/names.h
+++ b/best/meta/internal/names.h
@@ -205,9 +205,14 @@ constexpr best::option<best::str> parse() {
                 .count = raw.size() - offsets.prefix - offsets.suffix,
               }]);
 
-  if (name.starts_with('(')) { return best::none; }
   // `name` is going to be scoped, so we need to strip off a leading path.
-  return names_internal::remove_namespace(name);
+  name = names_internal::remove_namespace(name);
+
+  // Values without a name are printed as a cast, such as `(MyEnum)42`. The
+  // parens must be searched for after stripping the path, because that can
+  // itself contain parens, such as in `(anonymous namespace)::MyEnum::A`.
+  if (name.contains(')')) { return best::none; }
+  return name;
   BEST_POP_GCC_DIAGNOSTIC()
 };
 
-- 
2.43.0


From 5edb2b0c33eab496353e6ca5bd91835ff9d38c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:09 +0000
Subject: [PATCH 114/121] fix: name types nested in templates after themselves,
 not the template

The parameters of a type were taken to start at the first '<' of its full name,
so ns::Outer<int>::Inner was called Outer, in namespace ns, with parameters
'<int>::Inner'.
---
 best/meta/names.h | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/best/meta/names.h b/best/meta/names.h
index cfc910a..5e627df 100644
--- a/best/meta/names.h
+++ b/best/meta/names.h
@@ -112,11 +112,30 @@ BEST_POP_GCC_DIAGNOSTIC()
 namespace best {
 constexpr type_names::type_names(names_internal::priv, best::str name)
   : full_name_(name) {
-  first_angle_ = full_name_.find('<').value_or(full_name_.size());
-
-  last_colcol_ =
-    first_angle_ -
-    names_internal::remove_namespace(full_name_[{.end = first_angle_}]).size();
+  // Only a `::` outside of any brackets ends a path component: the path of a
+  // type nested in a template contains that template's parameters, as in
+  // `ns::Outer<a::B>::Inner<c::D>`. The parameters of the type itself start at
+  // the first `<` past that.
+  auto codes = full_name_.as_codes();
+  size_t depth = 0;
+  last_colcol_ = 0;
+  first_angle_ = codes.size();
+  for (size_t i = 0; i < codes.size(); ++i) {
+    switch (codes[i]) {
+      case '<':
+        if (depth == 0 && first_angle_ == codes.size()) { first_angle_ = i; }
+        [[fallthrough]];
+      case '(': ++depth; break;
+      case '>':
+      case ')': depth = best::saturating_sub(depth, 1); break;
+      case ':':
+        if (depth == 0 && i > 0 && codes[i - 1] == ':') {
+          last_colcol_ = i + 1;
+          first_angle_ = codes.size();
+        }
+        break;
+    }
+  }
 }
 
 }  // namespace best
-- 
2.43.0


From 1ff115a53b72cc397622a62fd1adea17dad61cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:50 +0000
Subject: [PATCH 115/121] fix: reflect every field of structs with fields that
 have no default

Counting fields stopped at the first number of initializers that did not work,
but too few do not work either if a later field cannot be default-initialized
(such as best::box), so those structs were reflected and printed as having no
fields at all.
---
 best/meta/internal/reflect.h | 37 ++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/best/meta/internal/reflect.h b/best/meta/internal/reflect.h
index 37cb1ea..afbf174 100644
--- a/best/meta/internal/reflect.h
+++ b/best/meta/internal/reflect.h
@@ -138,20 +138,6 @@ inline constexpr struct any_t {
 template <size_t>
 inline constexpr any_t index_any{};
 
-/// Counts the number of fields in the struct T by recursively trying to
-/// construct a T with `n` arguments; once it hits a failure, we know we found
-/// the largest number of arguments it can be initialized with.
-template <best::is_struct T, size_t... i>
-constexpr size_t count_fields() {
-  if constexpr (!requires { T{index_any<i>...}; }) {
-    return sizeof...(i) - 1;
-  } else {
-    return count_fields<T, i..., sizeof...(i)>();
-  }
-}
-template <best::is_struct T>
-inline constexpr size_t total_fields = count_fields<T, 0>();
-
 /// # `best::reflect_internal::bind(struct, cb)`
 ///
 /// The struct manipulation primitive: this explodes a struct into a tuple using
@@ -162,6 +148,29 @@ constexpr decltype(auto) bind(auto&& val, auto&& cb) {
                                 best::rank<BEST_REFLECT_MAX_FIELDS_>{});
 }
 
+/// Counts the number of fields in the struct T by recursively trying to
+/// construct a T with `n` arguments; once that has worked and then hits a
+/// failure, we know we found the largest number of arguments it can be
+/// initialized with. Having too few arguments is also a failure when some later
+/// field cannot be default-initialized, so we must not stop at those.
+///
+/// If there are more fields than `bind()` can handle, returns some number larger
+/// than that.
+template <best::is_struct T, bool found, size_t... i>
+constexpr size_t count_fields() {
+  if constexpr (requires { T{index_any<i>...}; }) {
+    return count_fields<T, true, i..., sizeof...(i)>();
+  } else if constexpr (found) {
+    return sizeof...(i) - 1;
+  } else if constexpr (sizeof...(i) > BEST_REFLECT_MAX_FIELDS_) {
+    return sizeof...(i);
+  } else {
+    return count_fields<T, false, i..., sizeof...(i)>();
+  }
+}
+template <best::is_struct T>
+inline constexpr size_t total_fields = count_fields<T, false>();
+
 /// # `best::reflect_internal::bind(struct)`
 ///
 /// Binds the `n`th field of `struct`.
-- 
2.43.0


From 3cd5c9b7cdd30c1f44e9b21831f5f1fa3f93f6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:19 +0000
Subject: [PATCH 116/121] fix: match names against types with no fields or
 values

The table of names was deduced from its elements, so best::reflect<T>.match(name)
did not compile if there were none, as for an empty struct.
---
 best/meta/reflect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/meta/reflect.h b/best/meta/reflect.h
index f97d63b..2ae7cd4 100644
--- a/best/meta/reflect.h
+++ b/best/meta/reflect.h
@@ -348,7 +348,7 @@ class reflected_type final {
   static constexpr auto Name2Index = [] {
     auto array = T{}.apply([](auto... values) {
       size_t i = 0;
-      return std::array{entry{values.name(), ++i}...};
+      return std::array<entry, sizeof...(values)>{entry{values.name(), ++i}...};
     });
     best::span(array).sort(&entry::k);
     return array;
-- 
2.43.0


From 7f05bd6bfde2ea0e272c41e513aa87d4288e18ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:53 +0000
Subject: [PATCH 117/121] fix: bind an empty row

best::row(best::bind) is deduced as best::row<>, which had no such constructor, so
best::fields() did not compile for structs with no visible fields.
---
 best/container/row.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/best/container/row.h b/best/container/row.h
index b376e9b..2f12ee6 100644
--- a/best/container/row.h
+++ b/best/container/row.h
@@ -194,7 +194,6 @@ class row final
              (!best::same<decltype(args), best::as_rref<Elems>> || ...)
     : impl{{best::object<Elems>(best::in_place, BEST_FWD(args))}...} {}
   constexpr row(best::bind_t, devoid<Elems>&&... args)
-    requires (sizeof...(args) > 0)
     : impl{{best::object<Elems>(best::in_place, BEST_FWD(args))}...} {}
 
   /// # `row::size()`
-- 
2.43.0


From 4ca753ff1e63ad6cacf2433da5ff1509d7a80684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:47 +0000
Subject: [PATCH 118/121] fix: complete enums nested in templates before asking
 for their values

The compiler only gives a scoped enum that is a member of a template its values
once something needs them, so best::value_name was none, and best::reflect empty,
for such enums that had not been used in some other way before.
---
 best/meta/internal/names.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/best/meta/internal/names.h b/best/meta/internal/names.h
index 6e1bbb1..6f8d3a5 100644
--- a/best/meta/internal/names.h
+++ b/best/meta/internal/names.h
@@ -197,6 +197,12 @@ constexpr best::option<best::str> parse() {
   BEST_PUSH_GCC_DIAGNOSTIC()
   BEST_IGNORE_GCC_DIAGNOSTIC("-Wenum-constexpr-conversion")
   auto offsets = names_internal::ValueOffsets;
+
+  // Looking something up in the enum forces it to be complete. Otherwise, an
+  // enum that is a member of a template might not have been instantiated yet,
+  // in which case its values do not have names.
+  (void)requires { decltype(e)::BEST_REFLECT_VALUE_; };
+
   auto raw = names_internal::raw_name<e>();
   auto name =
     best::str(unsafe("the compiler made this string, it better be UTF-8"),
-- 
2.43.0


From f23b4647ea1d22534ae892f7fe4f6d960fa88b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:08 +0000
Subject: [PATCH 119/121] fix: matching an enum value that is not reflected
 calls the case for nothing

Past the last value, the index that was looked up was one past the end of the
table, so which case was called depended on whatever is stored after it.
---
 best/meta/reflect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/meta/reflect.h b/best/meta/reflect.h
index 2ae7cd4..e56d28f 100644
--- a/best/meta/reflect.h
+++ b/best/meta/reflect.h
@@ -479,8 +479,8 @@ constexpr decltype(auto) reflected_type<desc_>::match(reflected value,
 {
   auto choice = apply([&](auto... values) {
     size_t idx = 0;
-    ((value == values.value ? true : (++idx, false)) || ...);
-    return ChoiceTable<>[idx + 1];
+    bool found = ((value == values.value ? true : (++idx, false)) || ...);
+    return ChoiceTable<>[found ? idx + 1 : 0];
   });
   return choice.match(BEST_FWD(cases)...);
 }
-- 
2.43.0


From 39707ad5dcc2800e4693ec4da3ec949384e1d0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:18 +0000
Subject: [PATCH 120/121] fix: guarding an rvalue result moves its error

BEST_GUARD() and the residual of best::result lost the value category of the
result, so errors of rvalue results were always copied, and results with errors
that can only be moved could not be guarded at all.
---
 best/base/guard.h       | 3 ++-
 best/container/result.h | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/best/base/guard.h b/best/base/guard.h
index f06b29b..952f694 100644
--- a/best/base/guard.h
+++ b/best/base/guard.h
@@ -73,7 +73,8 @@ struct impl {
     return BestGuardResidual(best::ftadle{}, BEST_FWD(result));
   }
   constexpr decltype(auto) operator,(auto&& residual) {
-    return BestGuardReturn(best::ftadle{}, BEST_FWD(result), residual);
+    return BestGuardReturn(best::ftadle{}, BEST_FWD(result),
+                           BEST_FWD(residual));
   }
   constexpr explicit operator bool() { return static_cast<bool>(result); }
 
diff --git a/best/container/result.h b/best/container/result.h
index 47971d3..e7141f3 100644
--- a/best/container/result.h
+++ b/best/container/result.h
@@ -632,7 +632,7 @@ constexpr auto result<T, E>::then(auto&& f) && {
 }
 
 constexpr decltype(auto) BestGuardResidual(auto&&, is_result auto&& r) {
-  return *r.err();
+  return *BEST_FWD(r).err();
 }
 constexpr auto BestGuardReturn(auto&&, is_result auto&&, auto&& e) {
   return best::err(BEST_FWD(e));
-- 
2.43.0


From 2382e6df3fc3157213c7bdbd9ff878d676644d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:58 +0000
Subject: [PATCH 121/121] fix: structs with references are not reflected,
 instead of ill-formed

Inferring the fields of a struct with a reference among them is an error outside
of the immediate context, so merely asking whether such a struct is reflected (as
formatting does) did not compile. Ask whether its fields can be inferred first.
---
 best/meta/internal/reflect.h | 17 +++++++++++++++++
 best/meta/reflect.h          |  6 ++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/best/meta/internal/reflect.h b/best/meta/internal/reflect.h
index afbf174..b8a6339 100644
--- a/best/meta/internal/reflect.h
+++ b/best/meta/internal/reflect.h
@@ -189,6 +189,23 @@ constexpr decltype(auto) bind(auto&& val) {
   });
 }
 
+/// Whether the fields of T can all be inferred. There must not be too many of
+/// them, and none of them can be references, because we can't tell what a
+/// reference in a `materialize()`d value refers to.
+template <best::is_struct T>
+inline constexpr bool can_infer = [] {
+  if constexpr (total_fields<T> <= BEST_REFLECT_MAX_FIELDS_) {
+    return best::indices<total_fields<T>>.apply([]<size_t... i> {
+      return (... && requires {
+        typename best::vlist<eyepatch(
+          best::addr(reflect_internal::bind<i>(materialize<T>())))>;
+      });
+    });
+  } else {
+    return false;
+  }
+}();
+
 template <auto p, typename S, typename Get, best::abridged Tags_>
 class fdesc final {
  public:
diff --git a/best/meta/reflect.h b/best/meta/reflect.h
index e56d28f..315fea8 100644
--- a/best/meta/reflect.h
+++ b/best/meta/reflect.h
@@ -106,8 +106,7 @@ class mirror final {
   /// values to consider for finding enum values.
   constexpr auto infer() const
     requires best::is_struct<reflected> &&
-             ((reflect_internal::total_fields<reflected> <=
-               BEST_REFLECT_MAX_FIELDS_));
+             (reflect_internal::can_infer<reflected>);
   template <best::bounds range = best::bounds{.end = 64}>
   constexpr auto infer() const
     requires best::is_enum<reflected> &&
@@ -381,8 +380,7 @@ constexpr auto BestReflect(auto& mirror, auto*)
 template <typename I, typename W>
 constexpr auto mirror<I, W>::infer() const
   requires best::is_struct<reflected> &&
-           ((reflect_internal::total_fields<reflected> <=
-             BEST_REFLECT_MAX_FIELDS_))
+           (reflect_internal::can_infer<reflected>)
 {
   return best::mirror{
     reflect_internal::tdesc<reflected>::infer_struct(),
-- 
2.43.0

