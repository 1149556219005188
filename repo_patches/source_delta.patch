From 9979d64e57b72c0daf17f771a7a280976b7cfd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:42 +0000
Subject: [PATCH 01/59] fix: report out-of-range JSON numbers instead of only
 asserting

---
 src/cxon/lang/common/cio/numeric.hxx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cxon/lang/common/cio/numeric.hxx b/src/cxon/lang/common/cio/numeric.hxx
index 720670d..4646d1f 100644
--- a/src/cxon/lang/common/cio/numeric.hxx
+++ b/src/cxon/lang/common/cio/numeric.hxx
@@ -232,8 +232,8 @@ namespace cxon { namespace cio { namespace num { // read
                         case -1: return rewind(i, o), cx/X::read_error::overflow;
                         case  0: return rewind(i, o), cx/X::read_error::integral_invalid;
                         default: {
-                            auto const r = charconv::from_chars(std::begin(s), std::end(s), t); CXON_ASSERT(r.ec == std::errc(), "unexpected");
-                            return true;
+                            auto const r = charconv::from_chars(std::begin(s), std::end(s), t);
+                            return r.ec == std::errc() || (rewind(i, o), cx/X::read_error::integral_invalid);
                         }
                     }
             }
@@ -246,8 +246,8 @@ namespace cxon { namespace cio { namespace num { // read
                     return i = b, cx/X::read_error::integral_invalid;
                 if (i - b == 1)
                     return t = *b - '0', true;
-                auto const r = charconv::from_chars(b, i, t); CXON_ASSERT(r.ec == std::errc() && r.ptr == i, "unexpected");
-                return true;
+                auto const r = charconv::from_chars(b, i, t); CXON_ASSERT(r.ec != std::errc() || r.ptr == i, "unexpected");
+                return r.ec == std::errc() || (i = b, cx/X::read_error::integral_invalid);
             }
         template <typename X, typename T, typename Cx>
             inline auto number_read_(T& t, const char*& i, const char* e, Cx& cx)
@@ -312,8 +312,8 @@ namespace cxon { namespace cio { namespace num { // read
                         case -1: return rewind(i, o), cx/X::read_error::overflow;
                         case  0: return rewind(i, o), cx/X::read_error::floating_point_invalid;
                         default: {
-                            auto const r = from_chars_<X>(std::begin(s), std::end(s), t); CXON_ASSERT(r.ec == std::errc(), "unexpected");
-                            return true;
+                            auto const r = from_chars_<X>(std::begin(s), std::end(s), t);
+                            return r.ec == std::errc() || (rewind(i, o), cx/X::read_error::floating_point_invalid);
                         }
                     }
             }
@@ -326,8 +326,8 @@ namespace cxon { namespace cio { namespace num { // read
                     return i = b, cx/X::read_error::floating_point_invalid;
                 if (i - b == 1)
                     return t = T(*b - '0'), true;
-                auto const r = from_chars_<X>(b, i, t); CXON_ASSERT(r.ec == std::errc() && r.ptr == i, "unexpected");
-                return true;
+                auto const r = from_chars_<X>(b, i, t); CXON_ASSERT(r.ec != std::errc() || r.ptr == i, "unexpected");
+                return r.ec == std::errc() || (i = b, cx/X::read_error::floating_point_invalid);
             }
         template <typename X, typename T, typename Cx>
             inline auto number_read_(T& t, const char*& i, const char* e, Cx& cx)
-- 
2.43.0


From df767055699cd991b193970b5db58cc08ac17156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:42 +0000
Subject: [PATCH 02/59] fix: require digits after the point and the exponent
 mark in JSON node numbers, and Infinity/NaN only when allowed

---
 src/cxon/lib/node.json.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lib/node.json.hxx b/src/cxon/lib/node.json.hxx
index 4346189..9b98d3a 100644
--- a/src/cxon/lib/node.json.hxx
+++ b/src/cxon/lib/node.json.hxx
@@ -152,7 +152,7 @@ namespace cxon {
                                 CXON_STORE(c);
                             }
                     }
-                    else if (c == 'I' || c == 'N') {
+                    else if (X::allow_javascript_nans && (c == 'I' || c == 'N')) {
                         return read_value<X>(v, i, e, cx) && (!s || (v = -v, true));
                     }
                     else
@@ -169,6 +169,8 @@ namespace cxon {
                     if (c == '.') {
                         CXON_STORE('.');
                         r = 1; c = cio::next(i, e);
+                        if (c < '0' || c > '9')
+                            return cx/X::read_error::floating_point_invalid;
                         for ( ; c >= '0' && c <= '9'; c = cio::next(i, e)) {
                             CXON_STORE(c);
                         }
@@ -181,6 +183,8 @@ namespace cxon {
                             CXON_STORE(c);
                             c = cio::next(i, e);
                         }
+                        if (c < '0' || c > '9')
+                            return cx/X::read_error::floating_point_invalid;
                         for ( ; c >= '0' && c <= '9'; c = cio::next(i, e)) {
                             CXON_STORE(c);
                         }
-- 
2.43.0


From ea6975119cf5be3294692d9ea7f03d9353803e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 03/59] fix: refuse to write unpaired high surrogates

---
 src/cxon/lang/common/cio/char.hxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index a38592c..a96982f 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -575,7 +575,6 @@ namespace cxon { namespace cio { namespace chr {
             struct encode_<X, char16_t> {
                 template <typename O, typename Cx>
                     static bool value(O& o, char16_t c, Cx& cx) {
-                        CXON_ASSERT(c < 0xD800 || c > 0xDBFF, "unexpected surrogate");
                         return encode_<X, char32_t>::value(o, c, cx);
                     }
                 template <typename O, typename Cx>
@@ -589,8 +588,9 @@ namespace cxon { namespace cio { namespace chr {
                         static bool value_(O& o, const char16_t*& i, const char16_t* e, Cx& cx) {
                             char32_t c32 = *i;
                                 if (c32 >= 0xD800 && c32 <= 0xDBFF) { // surrogate
-                                    ++i;                        CXON_ASSERT(i != e, "invalid surrogate");
-                                    char32_t const s32 = *i;    CXON_ASSERT(s32 >= 0xDC00 && s32 <= 0xDFFF, "invalid surrogate");
+                                    if (i + 1 == e || i[1] < 0xDC00 || i[1] > 0xDFFF)
+                                        return cx/X::write_error::argument_invalid;
+                                    char32_t const s32 = *++i;
                                     c32 = char32_t(0x10000 + (((c32 - 0xD800) << 10) | (s32 - 0xDC00)));
                                 }
                             return encode_<X, char32_t>::value(o, c32, cx);
@@ -603,7 +603,7 @@ namespace cxon { namespace cio { namespace chr {
                     static auto value(O& o, char32_t c, Cx& cx) -> enable_if_t<!S::produce_strict_javascript, bool> {
                         if (c > 0x7F) {
                                 char b[4]; int const n = utf32_to_utf8(b, c);
-                                return poke<X>(o, b, n, cx);
+                                return n > 0 || c > 0x10FFFF ? poke<X>(o, b, n, cx) : cx/X::write_error::argument_invalid;
                         }
                         else    return encode_<X, char>::value(o, char(c), cx);
                     }
@@ -613,7 +613,7 @@ namespace cxon { namespace cio { namespace chr {
                                 if (c == 0x2028) return poke<X>(o, "\\u2028", 6, cx);
                                 if (c == 0x2029) return poke<X>(o, "\\u2029", 6, cx);
                                 char b[4]; int const n = utf32_to_utf8(b, c);
-                                return poke<X>(o, b, n, cx);
+                                return n > 0 || c > 0x10FFFF ? poke<X>(o, b, n, cx) : cx/X::write_error::argument_invalid;
                         }
                         else    return encode_<X, char>::value(o, char(c), cx);
                     }
-- 
2.43.0


From bdf8815d4162dc818f601df1f79bf3e8948d1b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 04/59] fix: refuse an escaped low surrogate that follows no
 high surrogate

---
 src/cxon/lang/common/cio/char.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index a96982f..4b797ab 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -140,8 +140,9 @@ namespace cxon { namespace cio { namespace chr {
         inline char32_t esc_to_utf32(II& i, II e, Cx& cx) {
             char32_t const c32 = imp::esc_to_utf32_<X>(i, e);
                 if (c32 == bad_utf32) return cx/X::read_error::escape_invalid, bad_utf32;
-            if (c32 < 0xD800 || c32 > 0xDBFF) return c32;
+            if (c32 < 0xD800 || c32 > 0xDFFF) return c32;
             // surrogate
+                if (c32 > 0xDBFF) return cx/X::read_error::surrogate_invalid, bad_utf32;
                 if (peek(i, e) != '\\') return cx/X::read_error::surrogate_invalid, bad_utf32;
             char32_t const s32 = (++i, imp::esc_to_utf32_<X>(i, e));
                 if (s32 < 0xDC00 || s32 > 0xDFFF)
-- 
2.43.0


From ac24322b4a1bc028b90e7b64d61b7d24a27b333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 05/59] fix: do not read past the end of truncated UTF-8 input

---
 src/cxon/lang/common/cio/char.hxx | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index 4b797ab..4ccb4d9 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -153,13 +153,9 @@ namespace cxon { namespace cio { namespace chr {
     namespace imp {
 
         template <typename II>
-            inline auto head_(II& i, II e) -> enable_if_t<!is_random_access_iterator<II>::value, unsigned char> { return next(i, e); }
+            inline unsigned char head_(II& i, II e) { return next(i, e); }
         template <typename II>
-            inline auto head_(II& i, II  ) -> enable_if_t< is_random_access_iterator<II>::value, unsigned char> { return *++i; }
-        template <typename II>
-            inline auto tail_(II& i, II e) -> enable_if_t<!is_random_access_iterator<II>::value, unsigned char> { return i != e ? peek(++i, e) : '\xFF'; }
-        template <typename II>
-            inline auto tail_(II& i, II  ) -> enable_if_t< is_random_access_iterator<II>::value, unsigned char> { return *++i; }
+            inline unsigned char tail_(II& i, II e) { return i != e ? peek(++i, e) : '\xFF'; }
 
 #       define CXON_EXPECT(c) if (!(c)) return cx/X::read_error::character_invalid, bad_utf32
 
@@ -167,8 +163,7 @@ namespace cxon { namespace cio { namespace chr {
                 inline auto utf8_to_utf32_(II& i, II e, Cx& cx)
                     -> enable_if_t< X::validate_string_encoding, char32_t>
                 {   static_assert(is_char_8<typename std::iterator_traits<II>::value_type>::value, "unexpected");
-                    CXON_ASSERT(i != e, "unexpected");
-                    char32_t const  c0 = (unsigned char)*i;
+                    char32_t const  c0 = (unsigned char)peek(i, e);
                     char32_t        c1, c2, c3;
                     if (c0 <= 0x7F)
                         return ++i, c0;
@@ -220,8 +215,7 @@ namespace cxon { namespace cio { namespace chr {
                 inline auto utf8_to_utf32_(II& i, II e, Cx& cx)
                     -> enable_if_t<!X::validate_string_encoding, char32_t>
                 {   static_assert(is_char_8<typename std::iterator_traits<II>::value_type>::value, "unexpected");
-                    CXON_ASSERT(i != e, "unexpected");
-                    char32_t const  c0 = (unsigned char)*i;
+                    char32_t const  c0 = (unsigned char)peek(i, e);
                     char32_t        c1, c2, c3;
                     if ((c0 & 0x80) == 0)
                         return ++i, c0;
@@ -299,8 +293,7 @@ namespace cxon { namespace cio { namespace chr {
         CXON_INLAY int utf8_check(II i, II e) {
             // http://www.unicode.org/versions/Unicode6.0.0/ch03.pdf
             // p41, Table 3-7. Well-Formed UTF-8 Byte Sequences
-            CXON_ASSERT(i != e, "unexpected");
-            unsigned const  c0 = (unsigned char)*i;
+            unsigned const  c0 = (unsigned char)peek(i, e);
             unsigned        c1, c2, c3;
             // 1
             //if (c0 < 0x80)
-- 
2.43.0


From c7210fe41453f5e18c35637a50ce0d81451a6014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 06/59] fix: read strings through iterators that are not random
 access

---
 src/cxon/lang/common/cio/string.hxx | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index 50e37cc..21e908b 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -11,6 +11,7 @@
 #include "cxon/lang/common/allocator.hxx"
 #include "cxon/lang/common/container.hxx"
 #include <algorithm>
+#include <iterator>
 
 // interface ///////////////////////////////////////////////////////////////////
 
@@ -107,7 +108,7 @@ namespace cxon { namespace cio { namespace str {
                 {
                     II l = i;
                         constexpr bool HANDLE_ESCAPES = is_unquoted_key_context<X>::value || !X::assume_no_escapes;
-                        for ( ; i != e; ++i) {
+                        while (i != e) {
                             if (HANDLE_ESCAPES && *i == '\\') {
                                 if (l != i && !cxon::cnt::append(c, l, i))
                                     return rewind(i, l), cx/X::read_error::overflow;
@@ -122,7 +123,7 @@ namespace cxon { namespace cio { namespace str {
                                         if (c32 == chr::bad_utf32) return rewind(i, o), false;
                                     if (!char_append_(c, c32))
                                         return rewind(i, o), cx/X::read_error::overflow;
-                                l = i, --i;
+                                l = i;
                             }
                             else {
                                 CXON_IF_CONSTEXPR (!is_unquoted_key_context<X>::value) {
@@ -137,9 +138,9 @@ namespace cxon { namespace cio { namespace str {
                                         auto bs = chr::utf8_check(i, e);
                                         if (bs == 0)
                                             return cx/X::read_error::character_invalid;
-                                        while ((bs = chr::utf8_check(i += bs, e)))
-                                            ;
-                                        --i;
+                                        do      std::advance(i, bs);
+                                        while ((bs = chr::utf8_check(i, e)));
+                                        continue;
                                     }
                                     else CXON_IF_CONSTEXPR (X::validate_string_escapes) {
                                         if (chr::is<X>::ctrl(*i))
@@ -150,6 +151,7 @@ namespace cxon { namespace cio { namespace str {
                                     if (chr::is<X>::ctrl(*i))
                                         return cx/X::read_error::unexpected;
                                 }
+                                ++i;
                             }
                         }
                     return cx/X::read_error::unexpected;
-- 
2.43.0


From 97aef4bd59e1b32dfd13fcb178a1b0d177d5db9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 07/59] fix: set a character pointer to null when reading null

---
 src/cxon/lang/common/cio/string.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index 21e908b..edf7614 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -209,7 +209,7 @@ namespace cxon { namespace cio { namespace str {
             if (!consume<X>(i, e, cx))
                 return false;
             if (peek(i, e) == *X::id::nil && consume<X>(X::id::nil, i, e))
-                return true;
+                return t = nullptr, true;
             auto c = cxon::cnt::make_pointer_container<X, T>(cx);
             return string_read<X>(c, i, e, cx) && (c.push_back({}), t = c.release(), true);
         }
-- 
2.43.0


From 9a781791e25a53ae98a241676df244e9cf9941e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 08/59] fix: skip consecutive comments without recursion

---
 src/cxon/lang/common/cio/io.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/cio/io.hxx b/src/cxon/lang/common/cio/io.hxx
index 5b00151..e208569 100644
--- a/src/cxon/lang/common/cio/io.hxx
+++ b/src/cxon/lang/common/cio/io.hxx
@@ -116,7 +116,7 @@ namespace cxon { namespace cio { // input
         template <typename X, typename II>
             inline auto consume_(II& i, II e) -> enable_if_t< X::allow_comments, bool> {
                 consume_ws_<X>(i, e);
-                if (peek(i, e) == '/') {
+                while (peek(i, e) == '/') {
                     switch (next(i, e)) {
                         case '*':
                             for (++i; i != e; )
@@ -130,7 +130,7 @@ namespace cxon { namespace cio { // input
                         default:
                             return false;
                     }
-                    consume_<X>(i, e);
+                    consume_ws_<X>(i, e);
                 }
                 return true;
             }
-- 
2.43.0


From 30df48817606d0b6fe71f87b53510b325d3da454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 09/59] fix: do not read past the end when the value to be
 skipped is missing

---
 src/cxon/lang/common/cio/value.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxon/lang/common/cio/value.hxx b/src/cxon/lang/common/cio/value.hxx
index 037578c..1b9e2be 100644
--- a/src/cxon/lang/common/cio/value.hxx
+++ b/src/cxon/lang/common/cio/value.hxx
@@ -35,6 +35,7 @@ namespace cxon { namespace cio { namespace val {
             struct value_ {
                 template <typename O, typename II>
                     static bool skip(O& o, II& i, II e) {
+                        if (i == e)                 return false;
                         if (*i == X::map::end)      return false;
                         CXON_IF_CONSTEXPR (X::list::end != X::map::end)
                             if (*i == X::list::end) return false;
-- 
2.43.0


From 68a1e4b7d5497a7d2c705bedc6d27ae2e86a807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 10/59] fix: keep the size of a dynamic bit set longer than two
 blocks when reading JSON

---
 src/cxon/lang/json/lib/boost/dynamic_bitset.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx b/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
index 275d243..e6a224c 100644
--- a/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
+++ b/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
@@ -20,7 +20,7 @@ namespace cxon { namespace json { namespace imp {
             t.resize(t.size() + u);
             for ( ; i != e && (*i == '1' || *i == '0'); ++i) {
                 if (p == 0)
-                    t.resize(t.size() * 2), t <<= u, p = u;
+                    t.resize(t.size() + u), t <<= u, p = u;
                 --p;
                 if (*i == '1') t.set(p);
             }
-- 
2.43.0


From 92e48ec414fb4f11718ef890331bc9b3588a25cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 11/59] fix: allow_trailing_separators is ambiguous with
 white-space separators

---
 src/cxon/lang/common/cio/container.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/container.hxx b/src/cxon/lang/common/cio/container.hxx
index 6702732..24c770a 100644
--- a/src/cxon/lang/common/cio/container.hxx
+++ b/src/cxon/lang/common/cio/container.hxx
@@ -55,7 +55,7 @@ namespace cxon { namespace cio { namespace cnt {
                 while (element_add() && consume_sep<X, Cr>(i, e, cx)) ;
             }
         template <typename X, typename Cr, typename II, typename Cx, typename EA>
-            inline auto list_read_(II& i, II e, Cx& cx, EA element_add) -> enable_if_t< X::allow_trailing_separators> {
+            inline auto list_read_(II& i, II e, Cx& cx, EA element_add) -> enable_if_t< X::allow_trailing_separators && Cr::sep != ' '> {
                 // expects non-empty list
                 while (element_add() && consume_sep<X, Cr>(i, e, cx) && (consume<X>(i, e, cx) && peek(i, e) != Cr::end)) ;
             }
-- 
2.43.0


From 4b2e4f3633af1d022253a256eec1da3bb2d06b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:11 +0000
Subject: [PATCH 12/59] fix: match names of class members and enumerators in
 full

---
 src/cxon/lang/common/cio/class.hxx | 20 ++++++++++++++------
 src/cxon/lang/common/cio/enum.hxx  |  8 +++++---
 src/cxon/lang/common/cio/key.hxx   | 12 ++++++++++++
 3 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/cxon/lang/common/cio/class.hxx b/src/cxon/lang/common/cio/class.hxx
index 396079c..ee10fab 100644
--- a/src/cxon/lang/common/cio/class.hxx
+++ b/src/cxon/lang/common/cio/class.hxx
@@ -9,6 +9,7 @@
 #include "cio.hxx"
 #include "key.hxx"
 #include "value.hxx"
+#include <cstring>
 #include <tuple>
 
 // interface ///////////////////////////////////////////////////////////////////
@@ -248,7 +249,7 @@ namespace cxon { namespace cio { namespace cls {
                             static auto field(T& t, const char* name, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx)
                                 -> enable_if_t< Y::assume_unique_object_keys, bool>
                             {
-                                return st[N] == 0 && std::char_traits<char>::compare(std::get<N>(fs).name, name, std::get<N>(fs).nale + 1) == 0 ?
+                                return st[N] == 0 && std::strcmp(std::get<N>(fs).name, name) == 0 ?
                                     (st[N] = 1, read_field_<Y>(t, std::get<N>(fs), i, e, cx)) :
                                     read_<Y, N + 1, L>::field(t, name, fs, st, i, e, cx)
                                 ;
@@ -257,7 +258,7 @@ namespace cxon { namespace cio { namespace cls {
                             static auto field(T& t, const char* name, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx)
                                 -> enable_if_t<!Y::assume_unique_object_keys, bool>
                             {
-                                return std::char_traits<char>::compare(std::get<N>(fs).name, name, std::get<N>(fs).nale + 1) == 0 ?
+                                return std::strcmp(std::get<N>(fs).name, name) == 0 ?
                                     read_field_<Y>(t, std::get<N>(fs), i, e, cx) :
                                     read_<Y, N + 1, L>::field(t, name, fs, st, i, e, cx)
                                 ;
@@ -304,6 +305,13 @@ namespace cxon { namespace cio { namespace cls {
                 return imp::read_field_<Y>(option<3>(), t, name, fs, st, i, e, cx);
             }
 
+        template <typename X, std::size_t N, typename II, typename Cx>
+            inline bool read_name_(char (&id)[N], II& i, II e, Cx& cx) {
+                using Y = conditional_t<X::unquote_quoted_keys, quoted_key_context<X>, X>;
+                using Z = conditional_t<!is_unquoted_key_context<Y>::value, replace_traits_t<Y, key::simple_traits, str::raw_traits>, Y>;
+                return key::read_name<Z>(id, i, e, cx) && consume<X>(X::map::div, i, e, cx);
+            }
+
         template <typename X, typename T, typename ...Fs, typename II, typename Cx>
             inline auto read_fields_(T& t, const fields<Fs...>& fs, II& i, II e, Cx& cx)
                 -> enable_if_t<!is_bare_class<T>::value, bool>
@@ -313,13 +321,13 @@ namespace cxon { namespace cio { namespace cls {
                 int st[sizeof...(Fs)];
                     CXON_IF_CONSTEXPR (X::assume_unique_object_keys)
                         std::fill_n(st, sizeof...(Fs), 0);
-                for (char id[ids_len_max::constant<napa_type<Cx>>(64)]; ; ) {
+                for (char id[ids_len_max::constant<napa_type<Cx>>(64) + 1]; ; ) {
                     if (!consume<X>(i, e, cx))
                         return false;
                     if (peek(i, e) == X::map::end)
                         return ++i, true;
                     II const o = i;
-                        if (!read_map_key<X>(id, i, e, cx))
+                        if (!read_name_<X>(id, i, e, cx))
                             return rewind(i, o), false;
                         if (!read_field_<X>(t, id, fs, st, i, e, cx))
                             return cx && (rewind(i, o), cx/X::read_error::unexpected);
@@ -338,9 +346,9 @@ namespace cxon { namespace cio { namespace cls {
                 int st[sizeof...(Fs)];
                     CXON_IF_CONSTEXPR (X::assume_unique_object_keys)
                         std::fill_n(st, sizeof...(Fs), 0);
-                for (char id[ids_len_max::constant<napa_type<Cx>>(64)]; i != e && *i; ) {
+                for (char id[ids_len_max::constant<napa_type<Cx>>(64) + 1]; i != e && *i; ) {
                     II const o = i;
-                        if (!read_map_key<X>(id, i, e, cx))
+                        if (!read_name_<X>(id, i, e, cx))
                             return false;
                         if (!read_field_<X>(t, id, fs, st, i, e, cx))
                             return cx && (rewind(i, o), cx/X::read_error::unexpected);
diff --git a/src/cxon/lang/common/cio/enum.hxx b/src/cxon/lang/common/cio/enum.hxx
index cad694f..14b150d 100644
--- a/src/cxon/lang/common/cio/enum.hxx
+++ b/src/cxon/lang/common/cio/enum.hxx
@@ -7,6 +7,8 @@
 #define CXON_CIO_ENUM_HXX_
 
 #include "cio.hxx"
+#include "key.hxx"
+#include <cstring>
 
 // interface ///////////////////////////////////////////////////////////////////
 
@@ -49,10 +51,10 @@ namespace cxon { namespace cio { namespace enm {
             if (!consume<X>(i, e, cx))
                 return false;
             II const o = i;
-            char id[ids_len_max::constant<napa_type<Cx>>(64)];
-                if (!cxon::read_value<X>(id, i, e, cx))
+            char id[ids_len_max::constant<napa_type<Cx>>(64) + 1];
+                if (!key::read_name<X>(id, i, e, cx))
                     return false;
-            for ( ; f != l && std::char_traits<char>::compare(f->name, id, f->nale + 1) != 0; ++f)
+            for ( ; f != l && std::strcmp(f->name, id) != 0; ++f)
                 ;
             return  (f != l && (t = f->value, true)) ||
                     (rewind(i, o), cx/X::read_error::unexpected);
diff --git a/src/cxon/lang/common/cio/key.hxx b/src/cxon/lang/common/cio/key.hxx
index 4aa6cec..addecee 100644
--- a/src/cxon/lang/common/cio/key.hxx
+++ b/src/cxon/lang/common/cio/key.hxx
@@ -7,6 +7,7 @@
 #define CXON_CIO_KEY_HXX_
 
 #include "cio.hxx"
+#include "string.hxx"
 
 // interface ///////////////////////////////////////////////////////////////////
 
@@ -38,6 +39,8 @@ namespace cxon { namespace cio { namespace key { // key read/write extension poi
 
     template <typename X, typename T, typename II, typename Cx>
         inline bool read_key(T& t, II& i, II e, Cx& cx);
+    template <typename X, std::size_t N, typename II, typename Cx> // zero-terminated, without embedded zeros
+        inline bool read_name(char (&t)[N], II& i, II e, Cx& cx);
 
     template <typename X, typename T, typename O, typename Cx>
         inline bool write_key(O& o, const T& t, Cx& cx);
@@ -112,6 +115,15 @@ namespace cxon { namespace cio { namespace key {
             return imp::read_key_<X>(t, i, e, cx);
         }
 
+    template <typename X, std::size_t N, typename II, typename Cx>
+        inline bool read_name(char (&t)[N], II& i, II e, Cx& cx) {
+            auto c = cxon::cnt::make_range_container(t, t + N - 1);
+            if (!consume<X>(i, e, cx) || !str::string_read<X>(c, i, e, cx))
+                return false;
+            *c.end() = '\0';
+            return std::char_traits<char>::length(t) == c.size() || cx/X::read_error::unexpected;
+        }
+
     template <typename X, typename T>
         struct read {
             template <typename II, typename Cx>
-- 
2.43.0


From cceab3e0501d738eea61b52010be20beccbcbad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:11 +0000
Subject: [PATCH 13/59] fix: refuse trailing separators in JSON objects read
 into classes unless allowed

---
 src/cxon/lang/common/cio/class.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/class.hxx b/src/cxon/lang/common/cio/class.hxx
index ee10fab..90d90ae 100644
--- a/src/cxon/lang/common/cio/class.hxx
+++ b/src/cxon/lang/common/cio/class.hxx
@@ -331,8 +331,12 @@ namespace cxon { namespace cio { namespace cls {
                             return rewind(i, o), false;
                         if (!read_field_<X>(t, id, fs, st, i, e, cx))
                             return cx && (rewind(i, o), cx/X::read_error::unexpected);
-                        if (cnt::consume_sep<X, typename X::map>(i, e, cx))
+                        if (cnt::consume_sep<X, typename X::map>(i, e, cx)) {
+                            CXON_IF_CONSTEXPR (!X::allow_trailing_separators)
+                                if (consume<X>(i, e, cx) && peek(i, e) == X::map::end)
+                                    return cx/X::read_error::unexpected;
                             continue;
+                        }
                     return consume<X>(X::map::end, i, e, cx);
                 }
                 return true;
-- 
2.43.0


From 08e1cf68bdff3f84b68e982ff0ffd46df1ab1ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:11 +0000
Subject: [PATCH 14/59] fix: refuse unescaped delimiters and control characters
 when reading a character

---
 src/cxon/lang/common/cio/string.hxx | 15 +++++++++++++++
 src/cxon/lang/json/fundamental.hxx  |  7 ++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index edf7614..9b9af40 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -28,6 +28,13 @@ namespace cxon { namespace cio { namespace str { // char arrays: read
 
 }}}
 
+namespace cxon { namespace cio { namespace str { // character: read
+
+    template <typename X, typename II, typename Cx>
+        inline char32_t char_read(II& i, II e, Cx& cx);
+
+}}}
+
 namespace cxon { namespace cio { namespace str { // char arrays: write
 
     template <typename X, typename O, typename T, typename Cx>
@@ -185,6 +192,14 @@ namespace cxon { namespace cio { namespace str {
 
     }
 
+    template <typename X, typename II, typename Cx>
+        inline char32_t char_read(II& i, II e, Cx& cx) {
+            char const c = peek(i, e);
+            if ((!is_key_context<X>::value && delim_en_check<X>(c)) || (X::validate_string_escapes && chr::is<X>::ctrl(c)))
+                return cx/X::read_error::unexpected, chr::bad_utf32;
+            return chr::utf8_to_utf32<X>(i, e, cx);
+        }
+
     template <typename X, typename C, typename II, typename Cx>
         inline auto string_read(C& c, II& i, II e, Cx& cx)
              -> enable_if_t<is_char<typename C::value_type>::value, bool>
diff --git a/src/cxon/lang/json/fundamental.hxx b/src/cxon/lang/json/fundamental.hxx
index 9869777..991be77 100644
--- a/src/cxon/lang/json/fundamental.hxx
+++ b/src/cxon/lang/json/fundamental.hxx
@@ -7,6 +7,7 @@
 #define CXON_JSON_FUNDAMENTAL_HXX_
 
 #include "cxon/lang/common/cio/char.hxx"
+#include "cxon/lang/common/cio/string.hxx"
 #include "cxon/lang/common/cio/numeric.hxx"
 
 namespace cxon { namespace cio { // type traits
@@ -97,7 +98,7 @@ namespace cxon { // character
                 static bool value(T& t, II& i, II e, Cx& cx) {
                     if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
                         II const o = i;
-                            char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
+                            char32_t const c32 = cio::str::char_read<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                                 if (c32 >  0xFF)                return cio::rewind(i, o), cx/json::read_error::character_invalid;
                     return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = char(c32), true);
@@ -109,7 +110,7 @@ namespace cxon { // character
                 static bool value(T& t, II& i, II e, Cx& cx) {
                     if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
                         II const o = i;
-                            char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
+                            char32_t const c32 = cio::str::char_read<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                                 if (c32 >  0xFFFF)              return cio::rewind(i, o), cx/json::read_error::character_invalid;
                     return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = T(c32), true);
@@ -121,7 +122,7 @@ namespace cxon { // character
                 static bool value(T& t, II& i, II e, Cx& cx) {
                     if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
                         II const o = i;
-                            char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
+                            char32_t const c32 = cio::str::char_read<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                     return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = T(c32), true);
                 }
-- 
2.43.0


From b3693b4b6299059e8a9a003e16e79d7eaa51f84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:57 +0000
Subject: [PATCH 15/59] fix: bound the built-in number conversion by the end of
 the input

---
 src/cxon/lang/common/charconv.hxx | 131 ++++++++++++++++++------------
 1 file changed, 80 insertions(+), 51 deletions(-)

diff --git a/src/cxon/lang/common/charconv.hxx b/src/cxon/lang/common/charconv.hxx
index 85a2999..830d51f 100644
--- a/src/cxon/lang/common/charconv.hxx
+++ b/src/cxon/lang/common/charconv.hxx
@@ -46,72 +46,101 @@ namespace cxon { namespace charconv { namespace imp {
 
     namespace {
 
-        template <typename T, typename F>
-            constexpr auto clamp_(F t) noexcept -> enable_if_t<sizeof(T) == sizeof(F), T> {
-                return t;
-            }
-        template <typename T, typename F>
-            inline auto clamp_(F f) noexcept    -> enable_if_t<sizeof(T) < sizeof(F) && std::is_signed<T>(), T> {
-                        if (f < std::numeric_limits<T>::min()) errno = ERANGE, f = std::numeric_limits<T>::min();
-                else    if (f > std::numeric_limits<T>::max()) errno = ERANGE, f = std::numeric_limits<T>::max();
-                return (T)f;
-            }
-        template <typename T, typename F>
-            inline auto clamp_(F f) noexcept    -> enable_if_t<sizeof(T) < sizeof(F) && std::is_unsigned<T>(), T> {
-                if (std::numeric_limits<T>::max() < f) errno = ERANGE, f = std::numeric_limits<T>::max();
-                return (T)f;
-            }
+        inline unsigned digit_(char c) noexcept {
+            return  c >= '0' && c <= '9' ? unsigned(c - '0') :
+                    c >= 'a' && c <= 'z' ? unsigned(c - 'a' + 10) :
+                    c >= 'A' && c <= 'Z' ? unsigned(c - 'A' + 10) : 36;
+        }
 
         template <typename T>
-            inline auto is_sign_invalid_(char c) noexcept -> enable_if_t<std::is_signed<T>::value, bool> {
-                return c == '+';
-            }
-        template <typename T>
-            inline auto is_sign_invalid_(char c) noexcept -> enable_if_t<std::is_unsigned<T>::value, bool> {
-                return c == '+' || c == '-';
-            }
-
-        template <typename T, typename Cv>
-            inline from_chars_result number_from_chars_(const char* first, const char*, Cv convert, T& value, int base) noexcept {
+            inline from_chars_result number_from_chars_(const char* first, const char* last, T& value, int base) noexcept {
                 CXON_ASSERT(base >= 2 && base <= 36, "invalid base");
-                    if (is_sign_invalid_<T>(*first)) return { first, std::errc::invalid_argument };
-                char* end;
-                errno = 0; auto const v = clamp_<T>(convert(first, &end, base));
-                return { end, end != first ? errno != ERANGE ? (value = v, std::errc{}) : std::errc::result_out_of_range : std::errc::invalid_argument };
+                using U = unsigned long long;
+                bool const neg = std::is_signed<T>::value && first != last && *first == '-';
+                U const max = U(std::numeric_limits<T>::max()) + neg, b = U(base);
+                const char *const beg = first + neg, *p = beg;
+                    U v = 0;
+                    bool in_range = true;
+                    for ( ; p != last; ++p) {
+                        unsigned const d = digit_(*p);
+                            if (d >= b) break;
+                        in_range = in_range && d <= max && v <= (max - d) / b;
+                            if (in_range) v = v * b + d;
+                    }
+                    if (p == beg)   return { first, std::errc::invalid_argument };
+                    if (!in_range)  return { p, std::errc::result_out_of_range };
+                return value = neg && v ? T(-static_cast<long long>(v - 1) - 1) : T(v), from_chars_result{ p, std::errc{} };
             }
+
+        inline const char* match_(const char* first, const char* last, const char* s) noexcept { // case-insensitive
+            for ( ; *s && first != last && (*first == *s || *first == *s - 'a' + 'A'); ++first, ++s) ;
+            return *s ? nullptr : first;
+        }
+        inline const char* skip_digits_(const char* first, const char* last) noexcept {
+            for ( ; first != last && *first >= '0' && *first <= '9'; ++first) ;
+            return first;
+        }
+        inline const char* floating_point_end_(const char* first, const char* last) noexcept { // std::chars_format::general
+            const char* p = first;
+                if (p != last && *p == '-') ++p;
+                if (const char* const q = match_(p, last, "infinity"))  return q;
+                if (const char* const q = match_(p, last, "inf"))       return q;
+                if (const char* const q = match_(p, last, "nan"))       return q;
+            const char* q = skip_digits_(p, last);
+            std::size_t n = q - p;
+                if (q != last && *q == '.')
+                    p = q + 1, q = skip_digits_(p, last), n += q - p;
+                if (n == 0) return first;
+                if (q != last && (*q == 'e' || *q == 'E')) {
+                    p = q + 1;
+                        if (p != last && (*p == '-' || *p == '+')) ++p;
+                    const char* const x = skip_digits_(p, last);
+                        if (x != p) q = x;
+                }
+            return q;
+        }
+
         template <typename T, typename Cv>
-            inline from_chars_result number_from_chars_(const char* first, const char*, Cv convert, T& value, chars_format) noexcept {
-                    if (is_sign_invalid_<T>(*first)) return { first, std::errc::invalid_argument };
-                char* end;
-                errno = 0; auto const v = convert(first, &end);
-                return { end, end != first ? errno != ERANGE ? (value = v, std::errc{}) : std::errc::result_out_of_range : std::errc::invalid_argument };
+            inline from_chars_result number_from_chars_(const char* first, const char* last, Cv convert, T& value, chars_format) noexcept {
+                const char *const end = floating_point_end_(first, last);
+                    if (end == first) return { first, std::errc::invalid_argument };
+                std::size_t const n = end - first;
+                char buf[256], *const str = n < sizeof(buf) ? buf : static_cast<char*>(std::malloc(n + 1)); // the input is not null-terminated
+                    if (!str) return { first, std::errc::not_enough_memory };
+                str[std::copy(first, end, str) - str] = '\0';
+                int const err = errno; errno = 0;
+                    T const v = convert(str, nullptr);
+                    bool const in_range = errno != ERANGE || (v != 0 && v >= -std::numeric_limits<T>::max() && v <= std::numeric_limits<T>::max());
+                errno = err;
+                if (str != buf) std::free(str);
+                return { end, in_range ? (value = v, std::errc{}) : std::errc::result_out_of_range };
             }
 
     }
 
-#   define CXON_FROM_CHARS(T, C)\
+#   define CXON_FROM_CHARS(T)\
         inline from_chars_result from_chars(const char* first, const char* last, T& value, int base = 10) noexcept {\
-            return number_from_chars_(first, last, C, value, base);\
+            return number_from_chars_(first, last, value, base);\
         }
-        CXON_FROM_CHARS(char, strtol)
-        CXON_FROM_CHARS(signed char, strtol)
-        CXON_FROM_CHARS(unsigned char, strtoul)
-        CXON_FROM_CHARS(short, strtol)
-        CXON_FROM_CHARS(unsigned short, strtoul)
-        CXON_FROM_CHARS(int, strtol)
-        CXON_FROM_CHARS(unsigned int, strtoul)
-        CXON_FROM_CHARS(long, strtol)
-        CXON_FROM_CHARS(unsigned long, strtoul)
-        CXON_FROM_CHARS(long long, strtoll)
-        CXON_FROM_CHARS(unsigned long long, strtoull)
+        CXON_FROM_CHARS(char)
+        CXON_FROM_CHARS(signed char)
+        CXON_FROM_CHARS(unsigned char)
+        CXON_FROM_CHARS(short)
+        CXON_FROM_CHARS(unsigned short)
+        CXON_FROM_CHARS(int)
+        CXON_FROM_CHARS(unsigned int)
+        CXON_FROM_CHARS(long)
+        CXON_FROM_CHARS(unsigned long)
+        CXON_FROM_CHARS(long long)
+        CXON_FROM_CHARS(unsigned long long)
 #   undef CXON_FROM_CHARS
 #   define CXON_FROM_CHARS(T, C)\
         inline from_chars_result from_chars(const char* first, const char* last, T& value, chars_format fmt = chars_format::general) noexcept {\
             return number_from_chars_(first, last, C, value, fmt);\
         }
-        CXON_FROM_CHARS(float, strtof)
-        CXON_FROM_CHARS(double, strtod)
-        CXON_FROM_CHARS(long double, strtold)
+        CXON_FROM_CHARS(float, std::strtof)
+        CXON_FROM_CHARS(double, std::strtod)
+        CXON_FROM_CHARS(long double, std::strtold)
 #   undef CXON_FROM_CHARS
 
     struct to_chars_result {
@@ -132,7 +161,7 @@ namespace cxon { namespace charconv { namespace imp {
             inline auto itoa_(char* b, T t, int base) noexcept -> typename std::enable_if<std::is_signed<T>::value, unsigned>::type {
                 using U = typename std::make_unsigned<T>::type;
                 return t < 0 ?
-                    *b = '-', itoa_<U>(++b, -t, base) + 1 :
+                    *b = '-', itoa_<U>(++b, U(U(0) - U(t)), base) + 1 :
                               itoa_<U>(  b,  t, base)
                 ;
             }
-- 
2.43.0


From 6b04a771506b06f4f6075a76c769fa53de023c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:03 +0000
Subject: [PATCH 16/59] fix: refuse CBOR integers out of range instead of
 wrapping them

---
 src/cxon/lang/cbor/fundamental.hxx | 60 +++++++++++++++++++-----------
 src/cxon/lang/common/bio/io.hxx    |  2 -
 2 files changed, 38 insertions(+), 24 deletions(-)

diff --git a/src/cxon/lang/cbor/fundamental.hxx b/src/cxon/lang/cbor/fundamental.hxx
index 3e5ff39..09d7fe5 100644
--- a/src/cxon/lang/cbor/fundamental.hxx
+++ b/src/cxon/lang/cbor/fundamental.hxx
@@ -9,6 +9,9 @@
 #include "cxon/lang/common/bio/bio.hxx"
 #include "cxon/lang/cbor/common/tag.hxx"
 
+#include <limits>
+#include <type_traits>
+
 namespace cxon { // nullptr_t
 
     template <typename X>
@@ -60,16 +63,21 @@ namespace cxon { // numeric|character/read
 
     namespace cbor { namespace imp {
 
-        template <typename X, typename T, typename II, typename Cx>
-            inline bool read_unsigned_(T& t, II& i, II e, Cx& cx) {
+        using argument_type_ = unsigned long long;
+
+        // the argument of the head of a data item, error if it is not in [0, max]
+        template <typename X, typename II, typename Cx>
+            inline bool read_argument_(argument_type_& t, argument_type_ max, II& i, II e, Cx& cx) {
                 II const o = i;
                 switch (auto const b = bio::get(i, e) & X::mnr) {
                     case 0x00: case 0x01: case 0x02: case 0x03: case 0x04: case 0x05: case 0x06: case 0x07:
                     case 0x08: case 0x09: case 0x0A: case 0x0B: case 0x0C: case 0x0D: case 0x0E: case 0x0F:
                     case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
-                        return  (t = T(b), true);
+                        return  (t = b, t <= max) ||
+                                (bio::rewind(i, o), cx/cbor::read_error::integer_invalid)
+                        ;
                     case 0x18: case 0x19: case 0x1A: case 0x1B:
-                        return  (bio::get(t, 1 << (b - 0x18), i, e)) ||
+                        return  (bio::get(t, 1 << (b - 0x18), i, e) && t <= max) ||
                                 (bio::rewind(i, o), cx/cbor::read_error::integer_invalid)
                         ;
                     case 0x1C: case 0x1D: case 0x1E: case 0x1F:
@@ -80,8 +88,24 @@ namespace cxon { // numeric|character/read
             }
 
         template <typename X, typename T, typename II, typename Cx>
-            inline bool read_signed_(T& t, II& i, II e, Cx& cx) {
-                return read_unsigned_<X>(t, i, e, cx) && (t = -1 - t, true);
+            inline bool read_unsigned_(T& t, II& i, II e, Cx& cx) {
+                // char and wchar_t are written as unsigned, signed char may be an octet of a byte string
+                using U = conditional_t<
+                    std::is_same<T, char>::value || std::is_same<T, signed char>::value || std::is_same<T, wchar_t>::value,
+                    typename std::make_unsigned<T>::type, T
+                >;
+                argument_type_ u;
+                return read_argument_<X>(u, argument_type_(std::numeric_limits<U>::max()), i, e, cx) && (t = T(u), true);
+            }
+
+        template <typename X, typename T, typename II, typename Cx>
+            inline auto read_signed_(T& t, II& i, II e, Cx& cx) -> enable_if_t< std::is_signed<T>::value, bool> {
+                argument_type_ u;
+                return read_argument_<X>(u, argument_type_(std::numeric_limits<T>::max()), i, e, cx) && (t = T(-1 - T(u)), true);
+            }
+        template <typename X, typename T, typename II, typename Cx>
+            inline auto read_signed_(T&, II&, II, Cx& cx) -> enable_if_t<!std::is_signed<T>::value, bool> {
+                return cx/cbor::read_error::integer_invalid;
             }
 
         template <typename X, typename T, typename II, typename Cx>
@@ -107,18 +131,6 @@ namespace cxon { // numeric|character/read
 
     namespace cbor { namespace imp {
 
-        template <typename T>   struct unsigned_;
-        template <>             struct unsigned_<float>     { using type = unsigned long; };
-        template <>             struct unsigned_<double>    { using type = unsigned long long; };
-        template <typename T>
-            using unsigned_type_ = typename unsigned_<T>::type;
-
-        template <typename T>   struct signed_;
-        template <>             struct signed_<float>       { using type = long; };
-        template <>             struct signed_<double>      { using type = long long; };
-        template <typename T>
-            using signed_type_ = typename signed_<T>::type;
-
         template <typename X, typename T, typename II, typename Cx>
             inline bool read_floating_point_(T& t, II& i, II e, Cx& cx) {
                 switch (bio::peek(i, e) & X::mjr) {
@@ -144,12 +156,16 @@ namespace cxon { // numeric|character/read
                     }
                     // from integral
                     case X::pint: {
-                        unsigned_type_<T> u;
-                        return read_unsigned_<X>(u, i, e, cx) && (t = T(u), true);
+                        argument_type_ u;
+                        return  read_argument_<X>(u, std::numeric_limits<argument_type_>::max(), i, e, cx) &&
+                                (t = T(u), true)
+                        ;
                     }
                     case X::nint: {
-                        signed_type_<T> u;
-                        return read_signed_<X>(u, i, e, cx) && (t = T(u), true);
+                        argument_type_ u;
+                        return  read_argument_<X>(u, std::numeric_limits<argument_type_>::max(), i, e, cx) &&
+                                (t = u + 1 ? -T(u + 1) : -T(u) - 1, true)
+                        ;
                     }
                     default:
                         return cx/cbor::read_error::floating_point_invalid;
diff --git a/src/cxon/lang/common/bio/io.hxx b/src/cxon/lang/common/bio/io.hxx
index 04866e7..66d9466 100644
--- a/src/cxon/lang/common/bio/io.hxx
+++ b/src/cxon/lang/common/bio/io.hxx
@@ -192,7 +192,6 @@ namespace cxon { namespace bio {
         template <typename T, typename II>
             inline T be_to_fp_(const buffer_<4, II>& bs) {
                 using R = unsigned long;
-                CXON_ASSERT(sizeof(R) <= sizeof(T), "narrowing");
                 union { R i; float f; } u;
                 u.i =   (R(bs[3])<< 0) | (R(bs[2])<< 8) |
                         (R(bs[1])<<16) | (R(bs[0])<<24)
@@ -202,7 +201,6 @@ namespace cxon { namespace bio {
         template <typename T, typename II>
             inline T be_to_fp_(const buffer_<8, II>& bs) {
                 using R = unsigned long long;
-                CXON_ASSERT(sizeof(R) <= sizeof(T), "narrowing");
                 union { R i; double f; } u;
                 u.i =   (R(bs[7])<< 0) | (R(bs[6])<< 8) |
                         (R(bs[5])<<16) | (R(bs[4])<<24) |
-- 
2.43.0


From 90381d25ee24d5bec88bc293c5e09f260b9f0ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:03 +0000
Subject: [PATCH 17/59] fix: skip CBOR values without recursion and stop at the
 end of the input

---
 src/cxon/lang/cbor/common/sink.hxx | 178 ++++++++++++++---------------
 1 file changed, 86 insertions(+), 92 deletions(-)

diff --git a/src/cxon/lang/cbor/common/sink.hxx b/src/cxon/lang/cbor/common/sink.hxx
index 55e209e..4281584 100644
--- a/src/cxon/lang/cbor/common/sink.hxx
+++ b/src/cxon/lang/cbor/common/sink.hxx
@@ -6,6 +6,11 @@
 #ifndef CXON_CBOR_SINK_HXX_
 #define CXON_CBOR_SINK_HXX_
 
+#include "cxon/lang/common/bio/bio.hxx"
+#include <iterator>
+#include <limits>
+#include <vector>
+
 // interface ///////////////////////////////////////////////////////////////////
 
 namespace cxon { namespace cbor {
@@ -91,109 +96,98 @@ namespace cxon {
 }
 
 namespace cxon { namespace cbor { namespace imp {
-    
+
+    struct sink_level_ { // open array or map
+        std::size_t n; // remaining items
+        bool ind, map, odd;
+    };
+
     template <typename X, typename S>
         struct sink_reader_<CBOR<X>, S> {
             template<typename II, typename Cx, typename Y = CBOR<X>>
                 static bool read(S& s, II& i, II e, Cx& cx) {
-                    auto t = std::back_inserter(s);
-                    auto const b = bio::peek(i, e);
-                    unsigned const mjr = b & Y::mjr;
-                    unsigned const mnr = b & Y::mnr;
-                    switch (mjr) {
-                        case Y::pint: case Y::nint: case Y::tag: case Y::svn: {
-                            II const o = i;
-                            switch (mnr) {
-                                case 0x00: case 0x01: case 0x02: case 0x03: case 0x04: case 0x05: case 0x06: case 0x07:
-                                case 0x08: case 0x09: case 0x0A: case 0x0B: case 0x0C: case 0x0D: case 0x0E: case 0x0F:
-                                case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
-                                    return  (bio::get(t, i, e));
-                                case 0x18: case 0x19: case 0x1A: case 0x1B:
-                                    return  (bio::get(t, i, e, 1 + (1 << (mnr - 0x18)))) ||
-                                            (bio::rewind(i, o), cx/cbor::read_error::unexpected)
-                                    ;
-                                case 0x1C: case 0x1D: case 0x1E: case 0x1F:
-                                    return  (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                default:                                            // LCOV_EXCL_LINE
-                                    return  CXON_ASSERT(0, "unexpected"), false;    // LCOV_EXCL_LINE
+                    II const o = i;
+                    return  read_<Y>(std::back_inserter(s), i, e) ||
+                            (bio::rewind(i, o), cx/cbor::read_error::unexpected)
+                    ;
+                }
+
+            private:
+                template<typename Y, typename OI, typename II>
+                    static bool read_(OI t, II& i, II e) { // not recursive, the input may be nested arbitrarily
+                        std::vector<sink_level_> ls;
+                        do {
+                            if (i == e) return false;
+                            auto const b = bio::peek(i, e);
+                            auto const m = b & Y::mjr;
+                            auto const v = (b & Y::mnr) == 0x1F;
+                            if (b == Y::brk) {
+                                if (ls.empty() || !ls.back().ind || ls.back().odd || !bio::get(t, i, e))
+                                    return false;
+                                ls.pop_back();
                             }
-                        }
-                        case Y::bstr: case Y::tstr: {
-                            II const o = i;
-                            switch (mnr) {
-                                case 0x00: case 0x01: case 0x02: case 0x03: case 0x04: case 0x05: case 0x06: case 0x07:
-                                case 0x08: case 0x09: case 0x0A: case 0x0B: case 0x0C: case 0x0D: case 0x0E: case 0x0F:
-                                case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
-                                    return  (bio::get(t, i, e, 1 + mnr)) ||
-                                            (bio::rewind(i, o), cx/cbor::read_error::unexpected)
-                                    ;
-                                case 0x18: case 0x19: case 0x1A: case 0x1B: {
-                                    std::size_t n;
-                                    return  (
-                                                bio::get(t, i, e) &&
-                                                bio::get(n, 1U << (mnr - 0x18), i, e) &&
-                                                bio::poke(t, n, 1U << (mnr - 0x18)) &&
-                                                bio::get(t, i, e, n)
-                                            )   ||
-                                            (   bio::rewind(i, o), cx/cbor::read_error::unexpected
-                                            )
-                                    ;
+                            else if (v && (m == Y::bstr || m == Y::tstr)) {
+                                do      if (!bio::get(t, i, e)) return false;
+                                while   (bio::peek(i, e) != Y::brk);
+                                if (!bio::get(t, i, e))
+                                    return false;
+                            }
+                            else if (v && (m == Y::arr || m == Y::map)) {
+                                if (!bio::get(t, i, e))
+                                    return false;
+                                ls.push_back({0, true, m == Y::map, false});
+                                continue;
+                            }
+                            else {
+                                std::size_t n;
+                                if (!read_head_<Y>(t, n, i, e))
+                                    return false;
+                                switch (m) {
+                                    case Y::bstr: case Y::tstr:
+                                        if (!bio::get(t, i, e, n))
+                                            return false;
+                                        break;
+                                    case Y::map:
+                                        if (n > std::numeric_limits<std::size_t>::max() / 2)
+                                            return false;
+                                        n *= 2; // fallthrough
+                                    case Y::arr:
+                                        if (n != 0) {
+                                            ls.push_back({n, false, m == Y::map, false});
+                                            continue;
+                                        }
+                                        break;
                                 }
-                                case 0x1F:
-                                    do      (bio::get(t, i, e)); // should not fail
-                                    while   (bio::peek(i, e) != Y::brk);
-                                    return  (bio::get(t, i, e) || (bio::rewind(i, o), cx/cbor::read_error::unexpected));
-                                case 0x1C: case 0x1D: case 0x1E:
-                                    return  (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                default:                                            // LCOV_EXCL_LINE
-                                    return  CXON_ASSERT(0, "unexpected"), false;    // LCOV_EXCL_LINE
                             }
-                        }
-                        case Y::arr: case Y::map: {
-                            II const o = i;
-                            switch (mnr) {
-                                case 0x00: case 0x01: case 0x02: case 0x03: case 0x04: case 0x05: case 0x06: case 0x07:
-                                case 0x08: case 0x09: case 0x0A: case 0x0B: case 0x0C: case 0x0D: case 0x0E: case 0x0F:
-                                case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
-                                    bio::get(t, i, e); // should not fail
-                                    for (unsigned j = 0; j != mnr; ++j)
-                                        if (!read_element(s, mjr, i, e, cx))
-                                            return (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                    return  true;
-                                case 0x18: case 0x19: case 0x1A: case 0x1B: {
-                                    std::size_t n;
-                                    if (!bio::get(t, i, e) || !bio::get(n, 1U << (mnr - 0x18), i, e) || !bio::poke(t, n, 1U << (mnr - 0x18)))
-                                        return (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                    for (unsigned j = 0; j != n; ++j)
-                                        if (!read_element(s, mjr, i, e, cx))
-                                            return (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                    return  true;
+                            // the item is complete
+                            for ( ; !ls.empty(); ls.pop_back()) {
+                                auto& l = ls.back();
+                                if (l.ind) {
+                                    l.odd = l.map && !l.odd;
+                                    break;
                                 }
-                                case 0x1F:
-                                    bio::get(t, i, e); // should not fail
-                                    while (bio::peek(i, e) != Y::brk)
-                                        if (!read_element(s, mjr, i, e, cx))
-                                            return (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                    return  (bio::get(t, i, e) || (bio::rewind(i, o), cx/cbor::read_error::unexpected));
-                                case 0x1C: case 0x1D: case 0x1E:
-                                    return  (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                default:                                            // LCOV_EXCL_LINE
-                                    return  CXON_ASSERT(0, "unexpected"), false;    // LCOV_EXCL_LINE
+                                if (--l.n != 0)
+                                    break;
                             }
-                        }
-                        default:                                        // LCOV_EXCL_LINE
-                            return CXON_ASSERT(0, "unexpected"), false; // LCOV_EXCL_LINE
+                        }   while (!ls.empty());
+                        return true;
                     }
-                }
-            template<typename II, typename Cx, typename Y = CBOR<X>>
-                static bool read_element(S& s, bio::byte m, II& i, II e, Cx& cx) {
-                    switch (m) {
-                        case Y::map:    return  sink_read<Y>(s, i, e, cx) &&
-                                                sink_read<Y>(s, i, e, cx);
-                        case Y::arr:    return  sink_read<Y>(s, i, e, cx);
-                        default:        return  CXON_ASSERT(0, "unexpected"), false; // LCOV_EXCL_LINE
+
+                template<typename Y, typename OI, typename II>
+                    static bool read_head_(OI t, std::size_t& n, II& i, II e) {
+                        unsigned const m = bio::peek(i, e) & Y::mnr;
+                        switch (m) {
+                            case 0x18: case 0x19: case 0x1A: case 0x1B:
+                                return  bio::get(t, i, e) &&
+                                        bio::get(n, 1U << (m - 0x18), i, e) &&
+                                        bio::poke(t, n, 1U << (m - 0x18))
+                                ;
+                            case 0x1C: case 0x1D: case 0x1E: case 0x1F:
+                                return  false;
+                            default:
+                                return  n = m, bio::get(t, i, e);
+                        }
                     }
-                }
         };
 
 }}}
-- 
2.43.0


From a37c05d96d2a879afcfbed41d38c93de5ef601d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:03 +0000
Subject: [PATCH 18/59] fix: compare the names of CBOR class members in full

---
 src/cxon/lang/cbor/class.hxx | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/cxon/lang/cbor/class.hxx b/src/cxon/lang/cbor/class.hxx
index fc07df6..94e94ec 100644
--- a/src/cxon/lang/cbor/class.hxx
+++ b/src/cxon/lang/cbor/class.hxx
@@ -121,24 +121,35 @@ namespace cxon { namespace cbor { namespace cls {
         template <typename X, std::size_t N, std::size_t L>
             struct read_ {
                 template <typename T, typename Fs, typename II, typename Cx>
-                    static bool field(T& t, const char* name, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx) {
-                        return st[N] == 0 && std::char_traits<char>::compare(std::get<N>(fs).name, name, std::get<N>(fs).nale + 1) == 0 ?
+                    static bool field(T& t, const char* name, std::size_t nale, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx) {
+                        return st[N] == 0 && std::get<N>(fs).nale == nale && std::char_traits<char>::compare(std::get<N>(fs).name, name, nale) == 0 ?
                             (st[N] = 1, read_field<X>(t, std::get<N>(fs), i, e, cx)) :
-                            read_<X, N + 1, L>::field(t, name, fs, st, i, e, cx)
+                            read_<X, N + 1, L>::field(t, name, nale, fs, st, i, e, cx)
                         ;
                     }
             };
         template <typename X, std::size_t N>
             struct read_<X, N, N> {
                 template <typename T, typename Fs, typename II, typename Cx>
-                    static constexpr bool field(T&, const char*, const Fs&, int (&)[N], II&, II, Cx&) noexcept {
+                    static constexpr bool field(T&, const char*, std::size_t, const Fs&, int (&)[N], II&, II, Cx&) noexcept {
                         return false;
                     }
             };
 
         template <typename X, std::size_t N, typename T, typename Fs, typename II, typename Cx>
-            constexpr bool read_field_(T& t, const char* name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx) {
-                return read_<X, 0, N>::field(t, name, fs, st, i, e, cx);
+            constexpr bool read_field_(T& t, const char* name, std::size_t nale, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx) {
+                return read_<X, 0, N>::field(t, name, nale, fs, st, i, e, cx);
+            }
+
+        template <typename X, std::size_t N, typename II, typename Cx>
+            inline bool read_name_(char (&name)[N], std::size_t& nale, II& i, II e, Cx& cx) {
+                auto c = cxon::cnt::make_range_container(std::begin(name), std::end(name));
+                if (!cbor::cnt::read_array<X>(c, i, e, cx))
+                    return false;
+                nale = c.size();
+                if (nale != 0 && name[nale - 1] == 0) // names may be zero-terminated
+                    --nale;
+                return true;
             }
 
     }
@@ -149,9 +160,10 @@ namespace cxon { namespace cbor { namespace cls {
                 int st[sizeof...(Fs)] = {0};
                 for (char id[bio::ids_len_max::constant<napa_type<Cx>>(64)]; n; --n) {
                     II const o = i;
-                        if (!read_value<X>(id, i, e, cx))
+                    std::size_t l;
+                        if (!imp::read_name_<X>(id, l, i, e, cx))
                             return false;
-                        if (!imp::read_field_<X>(t, id, fs, st, i, e, cx))
+                        if (!imp::read_field_<X>(t, id, l, fs, st, i, e, cx))
                             return cx && (bio::rewind(i, o), cx/cbor::read_error::unexpected);
                 }
             }
-- 
2.43.0


From 78bddfc8da2a1af48e65d6cf9cc1775308302e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:03 +0000
Subject: [PATCH 19/59] fix: do not reserve memory by the announced size of a
 CBOR item

---
 src/cxon/lang/cbor/common/container.hxx | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index dda1b6c..312e8d4 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -123,11 +123,21 @@ namespace cxon { namespace cbor { namespace cnt {
                 ;
             }
 
+        // the announced size is not to be trusted, reserve only what the input may hold
+        template <typename II>
+            inline auto reservable_(std::size_t n, II i, II e) -> enable_if_t< is_random_access_iterator<II>::value, std::size_t> {
+                return std::min(n, static_cast<std::size_t>(std::distance(i, e)));
+            }
+        template <typename II>
+            inline auto reservable_(std::size_t n, II, II) -> enable_if_t<!is_random_access_iterator<II>::value, std::size_t> {
+                return std::min(n, std::size_t(4096));
+            }
+
         template <typename X, typename T, typename II, typename Cx>
             inline bool read_array_b_fix_(T& t, II& i, II e, Cx& cx) {
                 std::size_t n;
                 return  read_size_le<X>(n, t.max_size() - size_(t), i, e, cx) &&
-                        cxon::cnt::reserve(t, size_(t) + n) &&
+                        cxon::cnt::reserve(t, size_(t) + reservable_(n, i, e)) &&
                         read_bytes_<X>(t, n, i, e, cx)
                 ;
             }
@@ -167,7 +177,7 @@ namespace cxon { namespace cbor { namespace cnt {
             inline bool read_array_w_fix_(T& t, II& i, II e, Cx& cx) {
                 std::size_t n;
                 return  read_size_le<X>(n, t.max_size() - size_(t), i, e, cx) &&
-                        cxon::cnt::reserve(t, n) &&
+                        cxon::cnt::reserve(t, reservable_(n, i, e)) &&
                         read_elements_<X>(t, n, i, e, cx)
                 ;
             }
-- 
2.43.0


From 451a020e3bb84442887fb08a4ed6177ba14b1cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:03 +0000
Subject: [PATCH 20/59] fix: write CBOR tags as tags

---
 src/cxon/lib/node.cbor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lib/node.cbor.hxx b/src/cxon/lib/node.cbor.hxx
index e6e0eae..7334d51 100644
--- a/src/cxon/lib/node.cbor.hxx
+++ b/src/cxon/lib/node.cbor.hxx
@@ -194,7 +194,7 @@ namespace cxon {
         struct write<CBOR<X>, cbor::taggle<N, T>> {
             template <typename O, typename Cx, typename Y = CBOR<X>>
                 static bool value(O& o, const cbor::taggle<N, T>& t, Cx& cx) {
-                    return write_value<Y>(o, t.tag, cx) && write_value<Y>(o, t.value, cx); // TODO: check simple-value values
+                    return cbor::cnt::write_size<Y>(o, Y::tag, t.tag, cx) && write_value<Y>(o, t.value, cx); // TODO: check simple-value values
                 }
         };
 
-- 
2.43.0


From 3904c5d315403f10b26b5429f54f5bfacbaadc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:03 +0000
Subject: [PATCH 21/59] fix: guard the recursion over CBOR tags when reading
 into JSON nodes

---
 src/cxon/lib/node.cbor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lib/node.cbor.hxx b/src/cxon/lib/node.cbor.hxx
index 7334d51..cd8cf1a 100644
--- a/src/cxon/lib/node.cbor.hxx
+++ b/src/cxon/lib/node.cbor.hxx
@@ -217,7 +217,7 @@ namespace cxon {
                                 case X::tstr            :                       return read_value<Y>(CXON_IMBUE(string),        i, e, cx);
                                 case X::arr             : { CXON_NODE_RG();     return read_value<Y>(CXON_IMBUE(array),         i, e, cx); }
                                 case X::map             : { CXON_NODE_RG();     return read_value<Y>(CXON_IMBUE(object),        i, e, cx); }
-                                case X::tag             :                       return cbor::tag::read<Y>(i, e, cx) && value(t, i, e, cx);
+                                case X::tag             : { CXON_NODE_RG();     return cbor::tag::read<Y>(i, e, cx) && value(t, i, e, cx); }
                                 case X::svn:
                                     switch (b) {
                                         case X::neg: case X::pos
-- 
2.43.0


From baa53110eb6958b30c94debee820cf4f1d59e01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:56 +0000
Subject: [PATCH 22/59] fix: refuse CBOR maps for arrays and arrays for maps
 instead of reading half of them

---
 src/cxon/lang/cbor/common/container.hxx | 16 ++++++++++++----
 src/cxon/lib/node.ordered.hxx           |  7 +++++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index 312e8d4..600bed6 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -44,6 +44,9 @@ namespace cxon { namespace cbor { namespace cnt {
     template <typename X, typename T, typename O, typename Cx>
         inline bool write_map(O& o, const T& t, Cx& cx);
 
+    template <typename T, typename E = void> // is T read from map or from array
+        struct is_map;
+
 }}}
 
 // implementation //////////////////////////////////////////////////////////////
@@ -84,6 +87,11 @@ namespace cxon { namespace cbor { namespace cnt {
 
 namespace cxon { namespace cbor { namespace cnt {
 
+    template <typename T, typename E>
+        struct is_map                                           : std::false_type {};
+    template <typename T>
+        struct is_map<T, void_t<typename T::mapped_type>>       : std::true_type {};
+
     namespace imp { // byte/text arrays
 
         template <typename C>
@@ -221,10 +229,10 @@ namespace cxon { namespace cbor { namespace cnt {
                 -> enable_if_t<!std::is_assignable<decltype(*std::begin(t)), decltype(*i)>::value, bool>
             {
                 auto const m = bio::peek(i, e);
-                switch (m & X::mjr) {
-                    case X::arr: case X::map:   return imp::read_array_w_<X>(t, m, i, e, cx);
-                    default:                    return cx/cbor::read_error::array_invalid;
-                }
+                return (m & X::mjr) == (is_map<T>::value ? X::map : X::arr) ?
+                    imp::read_array_w_<X>(t, m, i, e, cx) :
+                    cx/cbor::read_error::array_invalid
+                ;
             }
 
     }
diff --git a/src/cxon/lib/node.ordered.hxx b/src/cxon/lib/node.ordered.hxx
index ce5ee25..1784029 100644
--- a/src/cxon/lib/node.ordered.hxx
+++ b/src/cxon/lib/node.ordered.hxx
@@ -127,6 +127,13 @@ namespace cxon { // hash
 
 #ifdef CXON_CBOR_DEFINED
 
+    namespace cxon { namespace cbor { namespace cnt {
+
+        template <typename K, typename V, typename Al, typename Ar>
+            struct is_map<std::vector<ordered::keval<K, V, Al>, Ar>> : std::true_type {};
+
+    }}}
+
     namespace cxon {
 
         template <typename X, typename K, typename V, typename Al>
-- 
2.43.0


From e877d92f286eb6377b583ea4054792245e13d2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:02 +0000
Subject: [PATCH 23/59] fix: keep node values intact through aliasing
 assignments, unequal allocators and exceptions

---
 src/cxon/lang/cbor/node/node.hxx    |  57 ++++---
 src/cxon/lang/common/node-value.hxx | 249 +++++++++-------------------
 src/cxon/lang/json/node/node.hxx    |  57 ++++---
 3 files changed, 146 insertions(+), 217 deletions(-)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index 91b4d8a..0e07ccb 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -195,7 +195,7 @@ namespace cxon { namespace cbor { // node
                 }
             }
             basic_node(basic_node&& o, const allocator_type& al)
-                noexcept(value::is_nothrow_move_constructible<basic_node>::value)
+                noexcept(value::is_nothrow_move_constructible_using_allocator<basic_node>::value)
             :   kind_(o.kind_), alloc_(al)
             {
                 switch (o.kind_) {
@@ -307,14 +307,14 @@ namespace cxon { namespace cbor { // node
                                                                         : kind_(node_kind::T)               { value::construct<T>(*this, std::move(v)); } \
                     basic_node(T&& v, const allocator_type& al)         noexcept(value::is_nothrow_constructible<basic_node, T, T&&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, std::move(v)); } \
-                    basic_node& operator =(T&& v)                       noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = std::move(v))) \
-                                                                        { return imbue<T>() = std::move(v), *this; } \
+                    basic_node& operator =(T&& v)                       noexcept(value::is_nothrow_constructible<basic_node, T, T&&>::value) \
+                                                                        { return assign_(basic_node(std::move(v), alloc_)); } \
                     basic_node(const T& v)                              noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T)               { value::construct<T>(*this, v); } \
                     basic_node(const T& v, const allocator_type& al)    noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, v); } \
-                    basic_node& operator =(const T& v)                  noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = v)) \
-                                                                        { return imbue<T>() = v, *this; }
+                    basic_node& operator =(const T& v)                  noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
+                                                                        { return assign_(basic_node(v, alloc_)); }
                 CXON_CBOR_TYPE_DEF(map);
                 CXON_CBOR_TYPE_DEF(array);
                 CXON_CBOR_TYPE_DEF(tag);
@@ -331,30 +331,38 @@ namespace cxon { namespace cbor { // node
 
             // map if empty or array(s) of two elements, array otherwise
                 basic_node(std::initializer_list<basic_node> l)
-                :   kind_(node_kind::undefined)
+                :   basic_node()
                 {
-                    *this = l;
+                    init_(l);
                 }
                 basic_node(std::initializer_list<basic_node> l, const allocator_type& al)
-                :   kind_(node_kind::undefined), alloc_(al)
+                :   basic_node(al)
                 {
-                    *this = l;
+                    init_(l);
                 }
                 basic_node& operator =(std::initializer_list<basic_node> l) {
-                    bool const obj = l.size() == 0 || std::all_of(l.begin(), l.end(), [&](const basic_node& e) {
-                        return e.template is<array>() && e.template get<array>().size() == 2;
-                    });
-                    if (obj) {
-                        auto& o = imbue<map>();
-                        for (auto& e : l) {
-                            auto& a = e.template get<array>();
-                            cxon::cnt::append(o, {a[0], a[1]});
+                    return assign_(basic_node(l, alloc_));
+                }
+                private:
+                    void init_(std::initializer_list<basic_node> l) {
+                        bool const obj = l.size() == 0 || std::all_of(l.begin(), l.end(), [&](const basic_node& e) {
+                            return e.template is<array>() && e.template get<array>().size() == 2;
+                        });
+                        if (obj) {
+                            auto& o = imbue<map>();
+                            for (auto& e : l) {
+                                auto& a = e.template get<array>();
+                                cxon::cnt::append(o, {a[0], a[1]});
+                            }
                         }
+                        else
+                            imbue<array>() = l;
                     }
-                    else
-                        imbue<array>() = l;
-                    return *this;
-                }
+                    // with equal allocators, the old value is released last as the new one may come from it
+                    basic_node& assign_(basic_node&& t) noexcept {
+                        return *this = std::move(t);
+                    }
+                public:
 
             // literals
                 private:
@@ -385,7 +393,7 @@ namespace cxon { namespace cbor { // node
                     }
                 template <typename T, typename = enable_if_t<std::is_integral<T>::value>>
                     basic_node& operator =(T t) {
-                        return imbue<int_type_<T>>() = t, *this;
+                        return assign_(basic_node(t, alloc_));
                     }
             // std::nullptr_t
                 template <typename ...>
@@ -414,7 +422,7 @@ namespace cxon { namespace cbor { // node
                     value::construct<text>(*this, s);
                 }
                 basic_node& operator =(const typename text::value_type* s) {
-                    return imbue<text>() = s, *this;
+                    return assign_(basic_node(s, alloc_));
                 }
 
             void reset() noexcept {
@@ -451,8 +459,9 @@ namespace cxon { namespace cbor { // node
                 noexcept(noexcept(value::construct<T>(std::declval<basic_node&>())))
             {
                 if (!is<T>()) {
-                    reset(), kind_ = node_kind_<basic_node, T>::value;
+                    reset();
                     value::construct<T>(*this);
+                    kind_ = node_kind_<basic_node, T>::value;
                 }
                 return value::get<T>(*this);
             }
diff --git a/src/cxon/lang/common/node-value.hxx b/src/cxon/lang/common/node-value.hxx
index 2ab8016..24d9d45 100644
--- a/src/cxon/lang/common/node-value.hxx
+++ b/src/cxon/lang/common/node-value.hxx
@@ -58,6 +58,8 @@ namespace cxon { namespace value {
 
         template <typename N>
             using is_nothrow_move_constructible = typename controller<N>::is_nothrow_move_constructible;
+        template <typename N>
+            using is_nothrow_move_constructible_using_allocator = typename controller<N>::is_nothrow_move_constructible_using_allocator;
         template <typename N>
             using is_nothrow_move_assignable    = typename controller<N>::is_nothrow_move_assignable;
 
@@ -99,7 +101,7 @@ namespace cxon { namespace value {
                     }
             // move construct
                 template <typename T>
-                    static auto move_construct(N& n, N&& o) noexcept(std::is_nothrow_move_constructible<T>::value)
+                    static auto move_construct(N& n, N&& o)
                         -> enable_if_t<!is_dynamic_type<T>::value && !std::is_trivially_assignable<T, T>::value>
                     {
                         alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
@@ -111,81 +113,40 @@ namespace cxon { namespace value {
                         get<T>(n) = get<T>(o);
                     }
                 template <typename T>
-                    static auto move_construct(N& n, N&& o) noexcept
+                    static auto move_construct(N& n, N&& o)
                         -> enable_if_t< is_dynamic_type<T>::value>
                     {
-                        get<T*>(n) = get<T*>(o), o.kind_ = N::kind_default_;
+                        if (n.alloc_ == o.alloc_) // TODO: likely
+                            get<T*>(n) = get<T*>(o), o.kind_ = N::kind_default_;
+                        else
+                            construct<T>(n, std::move(get<T>(o)));
                     }
             // move assign
+                // o may be (a part of) n
                 template <typename T>
-                    static auto move_assign(N& n, N&& o) noexcept(std::is_nothrow_move_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value &&  propagate_on_container_move_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T(), n.alloc_ = std::move(o.alloc_);
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = std::move(o.alloc_);
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                        }
-                        return n;
+                    static N& move_assign(N& n, N&& o) {
+                        return move_assign_<T>(n, std::move(o), propagate_on_container_move_assignment());
                     }
-                template <typename T>
-                    static auto move_assign(N& n, N&& o) noexcept
-                        -> enable_if_t< is_dynamic_type<T>::value &&  propagate_on_container_move_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            destruct<T>(n), n.alloc_ = std::move(o.alloc_);
-                            get<T*>(n) = get<T*>(o), o.kind_ = N::kind_default_;
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = std::move(o.alloc_);
-                            get<T*>(n) = get<T*>(o), o.kind_ = N::kind_default_;
-                        }
-                        return n;
-                    }
-                template <typename T>
-                    static auto move_assign(N& n, N&& o)
-                        noexcept(std::is_nothrow_move_constructible<T>::value && std::is_nothrow_move_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value && !propagate_on_container_move_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                            else
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                            else
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
+                private:
+                    template <typename T>
+                        static N& move_assign_(N& n, N&& o, std::true_type) {
+                            N t(std::move(o));
+                            n.reset(), n.alloc_ = t.alloc_;
+                            return take_<T>(n, t);
                         }
-                        return n;
-                    }
-                template <typename T>
-                    static auto move_assign(N& n, N&& o)
-                        -> enable_if_t< is_dynamic_type<T>::value && !propagate_on_container_move_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                            else
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
+                    template <typename T>
+                        static N& move_assign_(N& n, N&& o, std::false_type) {
+                            N t(std::move(o), n.alloc_);
+                            n.reset();
+                            return take_<T>(n, t);
                         }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                construct<T>(n, std::move(get<T>(o)));
-                            else
-                                construct<T>(n, get<T>(o));
+                    template <typename T>
+                        static N& take_(N& n, N& t) { // n is reset, the allocators are equal
+                            auto const k = t.kind_;
+                            move_construct<T>(n, std::move(t));
+                            return n.kind_ = k, n;
                         }
-                        return n;
-                    }
+                public:
             // copy construct
                 template <typename T>
                     static auto copy_construct(N& n, const N& o) noexcept(std::is_nothrow_copy_constructible<T>::value)
@@ -206,62 +167,25 @@ namespace cxon { namespace value {
                         construct<T>(n, get<T>(o));
                     }
             // copy assign
+                // o may be (a part of) n
                 template <typename T>
-                    static auto copy_assign(N& n, const N& o) noexcept(std::is_nothrow_copy_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value &&  propagate_on_container_copy_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T(), n.alloc_ = o.alloc_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = o.alloc_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        return n;
-                    }
-                template <typename T>
-                    static auto copy_assign(N& n, const N& o)
-                        -> enable_if_t< is_dynamic_type<T>::value &&  propagate_on_container_copy_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T(), n.alloc_ = o.alloc_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = o.alloc_;
-                            construct<T>(n, get<T>(o));
-                        }
-                        return n;
+                    static N& copy_assign(N& n, const N& o) {
+                        return copy_assign_<T>(n, o, propagate_on_container_copy_assignment());
                     }
-                template <typename T>
-                    static auto copy_assign(N& n, const N& o) noexcept(std::is_nothrow_copy_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value && !propagate_on_container_copy_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        return n;
-                    }
-                template <typename T>
-                    static auto copy_assign(N& n, const N& o)
-                        -> enable_if_t< is_dynamic_type<T>::value && !propagate_on_container_copy_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
+                private:
+                    template <typename T>
+                        static N& copy_assign_(N& n, const N& o, std::true_type) {
+                            N t(o, o.alloc_);
+                            n.reset(), n.alloc_ = t.alloc_;
+                            return take_<T>(n, t);
                         }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            construct<T>(n, get<T>(o));
+                    template <typename T>
+                        static N& copy_assign_(N& n, const N& o, std::false_type) {
+                            N t(o, n.alloc_);
+                            n.reset();
+                            return take_<T>(n, t);
                         }
-                        return n;
-                    }
+                public:
             // construct
                 template <typename T, typename ...A>
                     static auto construct(N& n, A&&... t) noexcept(std::is_nothrow_constructible<T, A&&...>::value)
@@ -275,9 +199,22 @@ namespace cxon { namespace value {
                     {
                         using at = alc::rebind_t<allocator_type, T>;
                         at    al(n.alloc_);
-                        get<T*>(n) = std::allocator_traits<at>::allocate(al, 1);
-                        alc::uninitialized_construct_using_allocator<T>(get<T*>(n), al, std::forward<A>(t)...);
+                        block_<at> b(al);
+                        alc::uninitialized_construct_using_allocator<T>(b.p, al, std::forward<A>(t)...);
+                        get<T*>(n) = b.release();
                     }
+                private:
+                    template <typename Al>
+                        struct block_ {
+                            Al& al;
+                            typename std::allocator_traits<Al>::value_type* p;
+                            explicit block_(Al& a) : al(a), p(std::allocator_traits<Al>::allocate(a, 1)) {}
+                            ~block_()               { if (p) std::allocator_traits<Al>::deallocate(al, p, 1); }
+                            decltype(p) release()   { auto r = p; return p = nullptr, r; }
+                            block_(const block_&) = delete;
+                            block_& operator =(const block_&) = delete;
+                        };
+                public:
             // destruct
                 template <typename T>
                     static auto destruct(N& n) noexcept -> enable_if_t<!is_dynamic_type<T>::value> {
@@ -291,66 +228,40 @@ namespace cxon { namespace value {
                         std::allocator_traits<at>::deallocate(al, get<T*>(n), 1);
                     }
             // swap
+                template <typename F, typename S>
+                    static void swap(N& f, N& s) {
+                        if (&f != &s)
+                            swap_<F, S>(f, s, propagate_on_container_swap());
+                    }
                 private:
-                    template <typename T>
-                        static auto swap_(option<1>, T& f, T& s) -> decltype(f.swap(s), void()) {
-                            f.swap(s);
-                        }
-                    template <typename T>
-                        static auto swap_(option<0>, T& f, T& s) -> void {
-                            T t = std::move(f); f = std::move(s), s = std::move(t);
-                        }
-                    template <typename T>
-                        static void swap_(T& f, T& s) {
-                            swap_(option<1>(), f, s);
+                    template <typename F, typename S>
+                        static void swap_(N& f, N& s, std::true_type) {
+                            N tf(std::move(f)), ts(std::move(s));
+                            f.reset(), s.reset();
+                            using std::swap;
+                            swap(f.alloc_, s.alloc_);
+                            take_<S>(f, ts), take_<F>(s, tf);
                         }
                     template <typename F, typename S>
-                        struct ndes_ {
-                            template <typename U = F, typename V = S>
-                                static auto swap(N& f, N& s) -> enable_if_t<!std::is_void<U>::value && !std::is_void<V>::value &&  propagate_on_container_swap::value> {
-                                    auto t = std::move(get<U>(f));
-                                    auto a = std::move(f.alloc_);
-                                    destruct<U>(f); construct<V>(f, std::move(get<V>(s)), std::move(s.alloc_));
-                                    destruct<V>(s); construct<U>(s, std::move(t), std::move(a));
-                                    swap_(f.kind_, s.kind_);
-                                }
-                            template <typename U = F, typename V = S>
-                                static auto swap(N& f, N& s) -> enable_if_t<!std::is_void<U>::value && !std::is_void<V>::value && !propagate_on_container_swap::value> {
-                                    auto t = std::move(get<U>(f));
-                                    destruct<U>(f); construct<V>(f, std::move(get<V>(s)));
-                                    destruct<V>(s); construct<U>(s, std::move(t));
-                                    swap_(f.kind_, s.kind_);
-                                }
-                        };
-                    template <typename T>
-                        struct ndes_<T, T> {
-                            template <typename U = T>
-                                static auto swap(N& f, N& s) -> enable_if_t<!std::is_void<U>::value &&  propagate_on_container_swap::value> {
-                                    swap_(get<T>(f), get<T>(s));
-                                    swap_(f.kind_, s.kind_);
-                                    swap_(f.alloc_, s.alloc_);
-                                }
-                            template <typename U = T>
-                                static auto swap(N& f, N& s) -> enable_if_t<!std::is_void<U>::value && !propagate_on_container_swap::value> {
-                                    swap_(get<T>(f), get<T>(s));
-                                    swap_(f.kind_, s.kind_);
-                                }
-                        };
+                        static void swap_(N& f, N& s, std::false_type) {
+                            N tf(std::move(f), s.alloc_), ts(std::move(s), f.alloc_);
+                            f.reset(), s.reset();
+                            take_<S>(f, ts), take_<F>(s, tf);
+                        }
                 public:
 
-                template <typename F, typename S>
-                    static void swap(N& f, N& s) {
-                        ndes_<F, S>::swap(f, s);
-                    }
-
             // exception specification
                 using dynamic_types = typename N::dynamic_types_;
                 using has_dynamic_types             = type_sequence_disjunction<N::template is_dynamic_type_, dynamic_types>;
 
                 template <typename T, typename ...A>
-                    using is_nothrow_constructible  = bool_constant<!is_dynamic_type<T>::value && std::is_nothrow_constructible<T, A&&...>::value>;
+                    using is_nothrow_constructible  = bool_constant<
+                        !is_dynamic_type<T>::value && std::is_nothrow_constructible<T, A&&...>::value &&
+                        (std::is_empty<allocator_type>::value || std::is_trivially_destructible<T>::value) // with unequal allocators moving allocates
+                    >;
 
                 using is_nothrow_move_constructible = bool_constant<type_sequence_conjunction<std::is_nothrow_move_constructible, dynamic_types>::value>;
+                using is_nothrow_move_constructible_using_allocator = bool_constant<is_nothrow_move_constructible::value && std::is_empty<allocator_type>::value>;
                 using is_nothrow_move_assignable    = bool_constant<
                     !has_dynamic_types::value &&
                     type_sequence_conjunction<std::is_nothrow_move_constructible, dynamic_types>::value &&
diff --git a/src/cxon/lang/json/node/node.hxx b/src/cxon/lang/json/node/node.hxx
index 5fca298..a8b5d5f 100644
--- a/src/cxon/lang/json/node/node.hxx
+++ b/src/cxon/lang/json/node/node.hxx
@@ -160,7 +160,7 @@ namespace cxon { namespace json { // node
                 }
             }
             basic_node(basic_node&& o, const allocator_type& al)
-                noexcept(value::is_nothrow_move_constructible<basic_node>::value)
+                noexcept(value::is_nothrow_move_constructible_using_allocator<basic_node>::value)
             :   kind_(o.kind_), alloc_(al)
             {
                 switch (o.kind_) {
@@ -251,14 +251,14 @@ namespace cxon { namespace json { // node
                                                                         : kind_(node_kind::T)               { value::construct<T>(*this, std::move(v)); } \
                     basic_node(T&& v, const allocator_type& al)         noexcept(value::is_nothrow_constructible<basic_node, T, T&&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, std::move(v)); } \
-                    basic_node& operator =(T&& v)                       noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = std::move(v))) \
-                                                                        { return imbue<T>() = std::move(v), *this; } \
+                    basic_node& operator =(T&& v)                       noexcept(value::is_nothrow_constructible<basic_node, T, T&&>::value) \
+                                                                        { return assign_(basic_node(std::move(v), alloc_)); } \
                     basic_node(const T& v)                              noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T)               { value::construct<T>(*this, v); } \
                     basic_node(const T& v, const allocator_type& al)    noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, v); } \
-                    basic_node& operator =(const T& v)                  noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = v)) \
-                                                                        { return imbue<T>() = v, *this; }
+                    basic_node& operator =(const T& v)                  noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
+                                                                        { return assign_(basic_node(v, alloc_)); }
                 CXON_JSON_TYPE_DEF(object)
                 CXON_JSON_TYPE_DEF(array)
                 CXON_JSON_TYPE_DEF(string)
@@ -271,30 +271,38 @@ namespace cxon { namespace json { // node
 
             // object if empty or array(s) of two elements, array otherwise
                 basic_node(std::initializer_list<basic_node> l)
-                :   kind_(node_kind::null)
+                :   basic_node()
                 {
-                    *this = l;
+                    init_(l);
                 }
                 basic_node(std::initializer_list<basic_node> l, const allocator_type& al)
-                :   kind_(node_kind::null), alloc_(al)
+                :   basic_node(al)
                 {
-                    *this = l;
+                    init_(l);
                 }
                 basic_node& operator =(std::initializer_list<basic_node> l) {
-                    bool const obj = l.size() == 0 || std::all_of(l.begin(), l.end(), [&](const basic_node& e) {
-                        return e.template is<array>() && e.template get<array>().size() == 2;
-                    });
-                    if (obj) {
-                        auto& o = imbue<object>();
-                        for (auto& e : l) {
-                            auto& a = e.template get<array>();
-                            cxon::cnt::append(o, { a[0], a[1] });
+                    return assign_(basic_node(l, alloc_));
+                }
+                private:
+                    void init_(std::initializer_list<basic_node> l) {
+                        bool const obj = l.size() == 0 || std::all_of(l.begin(), l.end(), [&](const basic_node& e) {
+                            return e.template is<array>() && e.template get<array>().size() == 2;
+                        });
+                        if (obj) {
+                            auto& o = imbue<object>();
+                            for (auto& e : l) {
+                                auto& a = e.template get<array>();
+                                cxon::cnt::append(o, { a[0], a[1] });
+                            }
                         }
+                        else
+                            imbue<array>() = l;
                     }
-                    else
-                        imbue<array>() = l;
-                    return *this;
-                }
+                    // with equal allocators, the old value is released last as the new one may come from it
+                    basic_node& assign_(basic_node&& t) noexcept {
+                        return *this = std::move(t);
+                    }
+                public:
 
             // literals
                 private:
@@ -325,7 +333,7 @@ namespace cxon { namespace json { // node
                     }
                 template <typename T, typename = enable_if_t<std::is_integral<T>::value>>
                     basic_node& operator =(T t) noexcept {
-                        return imbue<int_type_<T>>() = t, *this;
+                        return assign_(basic_node(t, alloc_));
                     }
             // std::nullptr_t
                 template <typename ...>
@@ -354,7 +362,7 @@ namespace cxon { namespace json { // node
                     value::construct<string>(*this, s);
                 }
                 basic_node& operator =(const typename string::value_type* s) {
-                    return imbue<string>() = s, *this;
+                    return assign_(basic_node(s, alloc_));
                 }
 
             void reset() noexcept {
@@ -387,8 +395,9 @@ namespace cxon { namespace json { // node
                 noexcept(noexcept(value::construct<T>(std::declval<basic_node&>())))
             {
                 if (!is<T>()) {
-                    reset(), kind_ = node_kind_<basic_node, T>::value;
+                    reset();
                     value::construct<T>(*this);
+                    kind_ = node_kind_<basic_node, T>::value;
                 }
                 return value::get<T>(*this);
             }
-- 
2.43.0


From ac47d95a303cba7c06383704ceb4c96817d399b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:02 +0000
Subject: [PATCH 24/59] fix: construct the value of CBOR tags with the
 allocator of the node

---
 src/cxon/lang/cbor/node/node.hxx | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index 0e07ccb..3e5ccd1 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -689,6 +689,32 @@ namespace cxon { namespace cbor { // helpers
             {
             }
 
+            template <typename Al>
+                taggle(std::allocator_arg_t, const Al& al)
+                :   tag(-1), value(alc::create_using_allocator<T>(al))
+                {
+                }
+            template <typename Al>
+                taggle(std::allocator_arg_t, const Al& al, N n, T&& t)
+                :   tag(n), value(alc::create_using_allocator<T>(al, std::move(t)))
+                {
+                }
+            template <typename Al>
+                taggle(std::allocator_arg_t, const Al& al, N n, const T& t)
+                :   tag(n), value(alc::create_using_allocator<T>(al, t))
+                {
+                }
+            template <typename Al>
+                taggle(std::allocator_arg_t, const Al& al, taggle&& t)
+                :   tag(t.tag), value(alc::create_using_allocator<T>(al, std::move(t.value)))
+                {
+                }
+            template <typename Al>
+                taggle(std::allocator_arg_t, const Al& al, const taggle& t)
+                :   tag(t.tag), value(alc::create_using_allocator<T>(al, t.value))
+                {
+                }
+
             ~taggle() = default;
 
             taggle(taggle&& t) noexcept(std::is_nothrow_move_constructible<T>::value)
-- 
2.43.0


From ea5ef086dbcdac4978142f5a872dc7de6e15a066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:19 +0000
Subject: [PATCH 25/59] fix: write long double as CBOR (it did not compile)

---
 src/cxon/lang/cbor/fundamental.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/cbor/fundamental.hxx b/src/cxon/lang/cbor/fundamental.hxx
index 09d7fe5..66a7f2d 100644
--- a/src/cxon/lang/cbor/fundamental.hxx
+++ b/src/cxon/lang/cbor/fundamental.hxx
@@ -248,8 +248,9 @@ namespace cxon { // numeric|character/write
         struct write<CBOR<X>, T, enable_if_t<std::is_floating_point<T>::value>> {
             template <typename O, typename Cx>
                 static bool value(O& o, T t, Cx& cx) {
+                    using F = typename std::conditional<sizeof(T) == sizeof(float), float, double>::type; // long double as fp64
                     static constexpr bio::byte m = sizeof(T) == sizeof(float) ? X::fp32 : X::fp64;
-                    return bio::poke<X>(o, m, cx) && bio::poke<X>(o, t, cx);
+                    return bio::poke<X>(o, m, cx) && bio::poke<X>(o, static_cast<F>(t), cx);
                 }
         };
 
-- 
2.43.0


From d815c7a3bbd6d3f0472f4a5757251d4bc81a8e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:08 +0000
Subject: [PATCH 26/59] fix: read CBOR arrays of strings, read bytes as
 unsigned numbers and never as booleans

---
 src/cxon/lang/cbor/common/container.hxx | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index 600bed6..174592e 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -107,9 +107,16 @@ namespace cxon { namespace cbor { namespace cnt {
                 return size_(option<1>(), c);
             }
 
+        // an element read from a byte
+        template <typename T>
+            struct is_from_byte : bool_constant<std::is_convertible<bio::byte, T>::value && !is_bool<T>::value> {};
+
+        template <typename C>
+            struct is_byte_container : bool_constant<sizeof(typename C::value_type) == 1> {};
+
         template <typename X, typename C, typename II, typename Cx>
             inline auto elements_read_(C& c, std::size_t n, II& f, II l, Cx&)
-                -> enable_if_t< is_forward_iterator<II>::value, bool>
+                -> enable_if_t< is_forward_iterator<II>::value &&  is_byte_container<C>::value, bool>
             {
                 auto const m = std::min(n, static_cast<std::size_t>(std::distance(f, l)));
                 II e = f; std::advance(e, m);
@@ -117,10 +124,11 @@ namespace cxon { namespace cbor { namespace cnt {
             }
         template <typename X, typename C, typename II, typename Cx>
             inline auto elements_read_(C& c, std::size_t n, II& f, II l, Cx&)
-                -> enable_if_t<!is_forward_iterator<II>::value, bool>
+                -> enable_if_t<!is_forward_iterator<II>::value || !is_byte_container<C>::value, bool>
             {
+                using T = typename std::conditional<is_byte_container<C>::value, typename C::value_type, bio::byte>::type; // bytes are unsigned
                 for ( ; n != 0 && f != l; --n, ++f)
-                    cxon::cnt::append(c, *f);
+                    cxon::cnt::append(c, static_cast<T>(*f));
                 return n == 0;
             }
 
@@ -215,7 +223,7 @@ namespace cxon { namespace cbor { namespace cnt {
 
         template <typename X, typename T, typename II, typename Cx>
             inline auto read_array_(T& t, II& i, II e, Cx& cx)
-                -> enable_if_t< std::is_assignable<decltype(*std::begin(t)), decltype(*i)>::value, bool>
+                -> enable_if_t< is_from_byte<typename T::value_type>::value && std::is_assignable<decltype(*std::begin(t)), decltype(*i)>::value, bool>
             {
                 auto const m = bio::peek(i, e);
                 switch (m & X::mjr) {
@@ -226,7 +234,7 @@ namespace cxon { namespace cbor { namespace cnt {
             }
         template <typename X, typename T, typename II, typename Cx>
             inline auto read_array_(T& t, II& i, II e, Cx& cx)
-                -> enable_if_t<!std::is_assignable<decltype(*std::begin(t)), decltype(*i)>::value, bool>
+                -> enable_if_t<!is_from_byte<typename T::value_type>::value || !std::is_assignable<decltype(*std::begin(t)), decltype(*i)>::value, bool>
             {
                 auto const m = bio::peek(i, e);
                 return (m & X::mjr) == (is_map<T>::value ? X::map : X::arr) ?
-- 
2.43.0


From cd8fc6e24243e7f94e79c59bb142f75594ea7397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:50 +0000
Subject: [PATCH 27/59] fix: read CBOR pointers to classes as the value they
 point to

---
 src/cxon/lang/cbor/compound.hxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/cbor/compound.hxx b/src/cxon/lang/cbor/compound.hxx
index dd3c38c..6a04591 100644
--- a/src/cxon/lang/cbor/compound.hxx
+++ b/src/cxon/lang/cbor/compound.hxx
@@ -53,7 +53,7 @@ namespace cxon { // pointer/read
 
         template <typename X, typename T, typename II, typename Cx>
             inline auto read_pointer_(T*& t, II& i, II e, Cx& cx)
-                -> enable_if_t< std::is_assignable<decltype(*t), decltype(*i)>::value, bool>
+                -> enable_if_t<!std::is_class<T>::value &&  std::is_assignable<decltype(*t), decltype(*i)>::value, bool>
             {
                 typename X::tag_type tag;
                 if (!tag::read<X>(tag, i, e, cx))
@@ -68,7 +68,7 @@ namespace cxon { // pointer/read
             }
         template <typename X, typename T, typename II, typename Cx>
             inline auto read_pointer_(T*& t, II& i, II e, Cx& cx)
-                -> enable_if_t<!std::is_assignable<decltype(*t), decltype(*i)>::value, bool>
+                -> enable_if_t<!std::is_class<T>::value && !std::is_assignable<decltype(*t), decltype(*i)>::value, bool>
             {
                 typename X::tag_type tag;
                 if (!tag::read<X>(tag, i, e, cx))
@@ -81,6 +81,14 @@ namespace cxon { // pointer/read
                     default:    return read_pointer_t_<X>(t, i, e, cx);
                 }
             }
+        template <typename X, typename T, typename II, typename Cx> // the value may itself be a string or an array
+            inline auto read_pointer_(T*& t, II& i, II e, Cx& cx)
+                -> enable_if_t< std::is_class<T>::value, bool>
+            {
+                return  tag::read<X>(i, e, cx) &&
+                        read_pointer_t_<X>(t, i, e, cx)
+                ;
+            }
 
     }}
 
-- 
2.43.0


From c550bec9cfb35cbc8552e0e024f2abc78859d350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:34 +0000
Subject: [PATCH 28/59] fix: do not leak pointees when reading them throws

---
 src/cxon/lang/cbor/compound.hxx    |  7 ++-----
 src/cxon/lang/common/allocator.hxx | 32 ++++++++++++++++++++++++++++--
 src/cxon/lang/json/compound.hxx    |  7 ++-----
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/cxon/lang/cbor/compound.hxx b/src/cxon/lang/cbor/compound.hxx
index 6a04591..f1d842b 100644
--- a/src/cxon/lang/cbor/compound.hxx
+++ b/src/cxon/lang/cbor/compound.hxx
@@ -44,11 +44,8 @@ namespace cxon { // pointer/read
             inline bool read_pointer_t_(T*& t, II& i, II e, Cx& cx) {
                 if (bio::peek(i, e) == X::nil)
                     return bio::get(i, e), t = nullptr, true;
-                auto al = alc::make_context_allocator<T>(cx);
-                T *const v = al.create();
-                    if (!v || !read_value<X>(*v, i, e, cx))
-                        return al.release(v), false;
-                return t = v, true;
+                auto v = alc::make_scoped_object<T>(alc::make_context_allocator<T>(cx));
+                return v && read_value<X>(*v, i, e, cx) && (t = v.take(), true);
             }
 
         template <typename X, typename T, typename II, typename Cx>
diff --git a/src/cxon/lang/common/allocator.hxx b/src/cxon/lang/common/allocator.hxx
index 78269e1..d4a11b0 100644
--- a/src/cxon/lang/common/allocator.hxx
+++ b/src/cxon/lang/common/allocator.hxx
@@ -207,8 +207,10 @@ namespace cxon { namespace alc {
 
             template <typename ...A>
                 T* create(A&&... as) {
-                    auto t = tr::allocate(al_, 1);
-                    return t ? construct(t, std::forward<A>(as)...), t : t;
+                    memory m {al_, tr::allocate(al_, 1)};
+                    if (m.t)
+                        construct(m.t, std::forward<A>(as)...);
+                    return m.take();
                 }
             T* create(std::size_t n) {
                 auto p = tr::allocate(al_, n);
@@ -240,9 +242,35 @@ namespace cxon { namespace alc {
 
             private:
                 using tr = std::allocator_traits<type>;
+                struct memory { // released if the construction throws
+                    type& al; T* t;
+                    ~memory()   { if (t) tr::deallocate(al, t, 1); }
+                    T* take()   { T *const r = t; return t = nullptr, r; }
+                };
                 type al_;
         };
 
+    template <typename T, typename Al>
+        struct scoped_object { // released unless taken
+            explicit scoped_object(const basic_allocator<T, Al>& al) : al_(al), t_(al_.create()) {}
+            ~scoped_object()                                { al_.release(t_); }
+
+            scoped_object(scoped_object&& o) noexcept : al_(o.al_), t_(o.take()) {}
+            scoped_object& operator =(const scoped_object&) = delete;
+
+            explicit operator bool() const noexcept         { return t_ != nullptr; }
+            T& operator *() noexcept                        { return *t_; }
+            T* take() noexcept                              { T *const r = t_; return t_ = nullptr, r; }
+
+            private:
+                basic_allocator<T, Al> al_;
+                T* t_;
+        };
+    template <typename T, typename Al>
+        inline auto make_scoped_object(const basic_allocator<T, Al>& al) -> scoped_object<T, Al> {
+            return scoped_object<T, Al>(al);
+        }
+
     template <typename T, typename Cx, typename Al>
         inline auto make_context_allocator(Cx& cx) -> basic_allocator<T, Al> {
             return basic_allocator<T, Al>(allocator::value(cx.px, std::allocator<T>()));
diff --git a/src/cxon/lang/json/compound.hxx b/src/cxon/lang/json/compound.hxx
index 460a832..0920674 100644
--- a/src/cxon/lang/json/compound.hxx
+++ b/src/cxon/lang/json/compound.hxx
@@ -30,11 +30,8 @@ namespace cxon { // pointer
                                 (cio::rewind(i, o), cx/json::read_error::unexpected)
                         ;
                     }
-                    auto al = alc::make_context_allocator<T>(cx);
-                    T *const n = al.create();
-                        if (!read_value<Y>(*n, i, e, cx))
-                            return al.release(n), false;
-                    return t = n, true;
+                    auto n = alc::make_scoped_object<T>(alc::make_context_allocator<T>(cx));
+                    return n && read_value<Y>(*n, i, e, cx) && (t = n.take(), true);
                 }
         };
     template <typename X, typename T>
-- 
2.43.0


From 98028d8ac4815fbc1317e3a4a5bb2ce53fc13715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:43 +0000
Subject: [PATCH 29/59] fix: read a single value into CBOR smart pointers

---
 src/cxon/lang/cbor/compound.hxx       | 15 +++++++++++++++
 src/cxon/lang/cbor/lib/std/memory.hxx |  6 +++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/cbor/compound.hxx b/src/cxon/lang/cbor/compound.hxx
index f1d842b..92b3100 100644
--- a/src/cxon/lang/cbor/compound.hxx
+++ b/src/cxon/lang/cbor/compound.hxx
@@ -87,6 +87,21 @@ namespace cxon { // pointer/read
                 ;
             }
 
+        template <typename X, typename T, typename II, typename Cx> // a single object
+            inline auto read_object_(T*& t, II& i, II e, Cx& cx)
+                -> enable_if_t<!is_char<T>::value, bool>
+            {
+                return  tag::read<X>(i, e, cx) &&
+                        read_pointer_t_<X>(t, i, e, cx)
+                ;
+            }
+        template <typename X, typename T, typename II, typename Cx> // a character pointer is a string
+            inline auto read_object_(T*& t, II& i, II e, Cx& cx)
+                -> enable_if_t< is_char<T>::value, bool>
+            {
+                return read_value<X>(t, i, e, cx);
+            }
+
     }}
 
     template <typename X, typename T>
diff --git a/src/cxon/lang/cbor/lib/std/memory.hxx b/src/cxon/lang/cbor/lib/std/memory.hxx
index 687964f..4b97b60 100644
--- a/src/cxon/lang/cbor/lib/std/memory.hxx
+++ b/src/cxon/lang/cbor/lib/std/memory.hxx
@@ -15,7 +15,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::unique_ptr<T, D>& t, II& i, II e, Cx& cx) {
                         T* p;
-                    return read_value<Y>(p, i, e, cx) && (t.reset(p), true);
+                    return cbor::imp::read_object_<Y>(p, i, e, cx) && (t.reset(p), true);
                 }
         };
 
@@ -34,9 +34,9 @@ namespace cxon {
                     auto al = alc::make_context_allocator<T>(cx);
                         T* p;
 #                   if __cplusplus < 201402L
-                        return read_value<Y>(p, i, e, cx) && (t.reset(p, [al](T* p) mutable { al.release(p); }), true);
+                        return cbor::imp::read_object_<Y>(p, i, e, cx) && (t.reset(p, [al](T* p) mutable { al.release(p); }), true);
 #                   else
-                        return read_value<Y>(p, i, e, cx) && (t.reset(p, [al = std::move(al)](T* p) mutable { al.release(p); }), true);
+                        return cbor::imp::read_object_<Y>(p, i, e, cx) && (t.reset(p, [al = std::move(al)](T* p) mutable { al.release(p); }), true);
 #                   endif
                 }
         };
-- 
2.43.0


From a21a03bb5cfde12717113968ca1c6f78679d2845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:32 +0000
Subject: [PATCH 30/59] fix: read CBOR sets of octets the way they are written

---
 src/cxon/lang/cbor/common/container.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index 174592e..f90cda2 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -223,7 +223,7 @@ namespace cxon { namespace cbor { namespace cnt {
 
         template <typename X, typename T, typename II, typename Cx>
             inline auto read_array_(T& t, II& i, II e, Cx& cx)
-                -> enable_if_t< is_from_byte<typename T::value_type>::value && std::is_assignable<decltype(*std::begin(t)), decltype(*i)>::value, bool>
+                -> enable_if_t< is_from_byte<typename T::value_type>::value, bool>
             {
                 auto const m = bio::peek(i, e);
                 switch (m & X::mjr) {
@@ -234,7 +234,7 @@ namespace cxon { namespace cbor { namespace cnt {
             }
         template <typename X, typename T, typename II, typename Cx>
             inline auto read_array_(T& t, II& i, II e, Cx& cx)
-                -> enable_if_t<!is_from_byte<typename T::value_type>::value || !std::is_assignable<decltype(*std::begin(t)), decltype(*i)>::value, bool>
+                -> enable_if_t<!is_from_byte<typename T::value_type>::value, bool>
             {
                 auto const m = bio::peek(i, e);
                 return (m & X::mjr) == (is_map<T>::value ? X::map : X::arr) ?
-- 
2.43.0


From e7f19adda5ec39f24281d3b1141f64cd36300361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:14 +0000
Subject: [PATCH 31/59] fix: start bit sets from zero and validate the sizes of
 CBOR dynamic bit sets

---
 .../lang/cbor/lib/boost/dynamic_bitset.hxx    | 25 ++++++++++++-------
 src/cxon/lang/cbor/lib/std/bitset.hxx         |  5 ++--
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx b/src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx
index e24d2aa..350e02e 100644
--- a/src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx
+++ b/src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx
@@ -7,6 +7,7 @@
 #define CXON_CBOR_LIB_BOOST_DYNAMIC_BITSET_HXX_
 
 #include "cxon/lang/cbor/common/container.hxx"
+#include <vector>
 
 namespace cxon {
 
@@ -19,17 +20,23 @@ namespace cxon {
                         std::size_t N;
                         if (!cbor::cnt::read_size<X>(N, i, e, cx))
                             return false;
+                        if (N == 0)
+                            return cx/cbor::read_error::size_invalid;
                         if (i == e)
                             return cx/cbor::read_error::unexpected;
-                        bio::byte const S = *i;
-                        t.resize(t.size() + --N * 8);
-                            for (++i; N != 0 && i != e; --N, ++i) {
-                                bio::byte const b = *i; t <<= 8;
-                                t.set(7, b & 0x80); t.set(6, b & 0x40); t.set(5, b & 0x20); t.set(4, b & 0x10);
-                                t.set(3, b & 0x08); t.set(2, b & 0x04); t.set(1, b & 0x02); t.set(0, b & 0x01);
-                            }
-                        t.resize(t.size() - S);
-                        return N == 0 || cx/cbor::read_error::unexpected;
+                        bio::byte const S = *i; ++i, --N; // unused bits
+                        if (S > 7 || (N == 0 && S != 0))
+                            return cx/cbor::read_error::size_invalid;
+                        std::vector<bio::byte> bs; // the size is not to be trusted
+                            for ( ; N != 0 && i != e; --N, ++i)
+                                bs.push_back(*i);
+                        if (N != 0)
+                            return cx/cbor::read_error::unexpected;
+                        std::size_t n = bs.size() * 8 - S;
+                        t.resize(t.size() + n), t <<= n;
+                            for (std::size_t b = 0; b != n; ++b)
+                                t.set(b, bs[bs.size() - 1 - b / 8] & (1 << b % 8));
+                        return true;
                     }
                     default:
                         return cx/cbor::read_error::unexpected;
diff --git a/src/cxon/lang/cbor/lib/std/bitset.hxx b/src/cxon/lang/cbor/lib/std/bitset.hxx
index c995f8c..6c6b11f 100644
--- a/src/cxon/lang/cbor/lib/std/bitset.hxx
+++ b/src/cxon/lang/cbor/lib/std/bitset.hxx
@@ -25,8 +25,9 @@ namespace cxon {
                             return cx/cbor::read_error::size_invalid;
                         if (++i == e)
                             return cx/cbor::read_error::unexpected;
+                        t.reset();
                         if (N % 8)
-                            t |= std::bitset<N> {*i++};
+                            t |= std::bitset<N> {bio::byte(*i)}, ++i;
                         std::size_t n = N / 8;
                             for ( ; n != 0 && i != e; --n, ++i) {
                                 bio::byte const b = *i; t <<= 8;
@@ -52,7 +53,7 @@ namespace cxon {
                             return cx/cbor::read_error::size_invalid;
                         if (++i == e)
                             return cx/cbor::read_error::unexpected;
-                        return t |= std::bitset<N> {*i}, ++i, true;
+                        return t = std::bitset<N> {bio::byte(*i)}, ++i, true;
                     }
                     default:
                         return cx/cbor::read_error::unexpected;
-- 
2.43.0


From 7d80096d9a7b5fa3401ccca1892600f02031605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:05 +0000
Subject: [PATCH 32/59] fix: refuse CBOR items other than arrays for tuples,
 pairs, complex numbers and variants

---
 src/cxon/lang/cbor/common/container.hxx   | 10 ++++++++++
 src/cxon/lang/cbor/lib/boost/variant.hxx  |  2 +-
 src/cxon/lang/cbor/lib/boost/variant2.hxx |  2 +-
 src/cxon/lang/cbor/lib/std/complex.hxx    |  2 +-
 src/cxon/lang/cbor/lib/std/tuple.hxx      |  4 ++--
 src/cxon/lang/cbor/lib/std/utility.hxx    |  2 +-
 src/cxon/lang/cbor/lib/std/variant.hxx    |  2 +-
 7 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index f90cda2..d20ff0c 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -19,6 +19,8 @@ namespace cxon { namespace cbor { namespace cnt {
         inline bool read_size_le(std::size_t& s, std::size_t n, II& i, II e, Cx& cx);
     template <typename X, typename II, typename Cx>
         inline bool read_size_eq(std::size_t n, II& i, II e, Cx& cx);
+    template <typename X, typename II, typename Cx> // the size of an item of a given major type
+        inline bool read_size_eq(bio::byte m, std::size_t n, II& i, II e, Cx& cx);
 
     template <typename X, typename O, typename Cx>
         inline bool write_size(O& o, bio::byte m, std::size_t s, Cx& cx);
@@ -74,6 +76,14 @@ namespace cxon { namespace cbor { namespace cnt {
             ;
         }
 
+    template <typename X, typename II, typename Cx>
+        inline bool read_size_eq(bio::byte m, std::size_t n, II& i, II e, Cx& cx) {
+            return (bio::peek(i, e) & X::mjr) == m ?
+                read_size_eq<X>(n, i, e, cx) :
+                cx/cbor::read_error::size_invalid
+            ;
+        }
+
     template <typename X, typename O, typename Cx>
         inline bool write_size(O& o, bio::byte m, std::size_t s, Cx& cx) {
             unsigned const p = cbor::imp::power_(s);
diff --git a/src/cxon/lang/cbor/lib/boost/variant.hxx b/src/cxon/lang/cbor/lib/boost/variant.hxx
index efd8fc6..4efc107 100644
--- a/src/cxon/lang/cbor/lib/boost/variant.hxx
+++ b/src/cxon/lang/cbor/lib/boost/variant.hxx
@@ -91,7 +91,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(boost::variant<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 2, i, e, cx) &&
                             cbor::imp::boost::variant_read_<Y>(t, i, e, cx)
                     ;
                 }
diff --git a/src/cxon/lang/cbor/lib/boost/variant2.hxx b/src/cxon/lang/cbor/lib/boost/variant2.hxx
index 303b666..102feb3 100644
--- a/src/cxon/lang/cbor/lib/boost/variant2.hxx
+++ b/src/cxon/lang/cbor/lib/boost/variant2.hxx
@@ -98,7 +98,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(boost::variant2::variant<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 2, i, e, cx) &&
                             cbor::imp::boost::variant2::variant_read_<Y>(t, i, e, cx)
                     ;
                 }
diff --git a/src/cxon/lang/cbor/lib/std/complex.hxx b/src/cxon/lang/cbor/lib/std/complex.hxx
index b43faf5..2b6641a 100644
--- a/src/cxon/lang/cbor/lib/std/complex.hxx
+++ b/src/cxon/lang/cbor/lib/std/complex.hxx
@@ -16,7 +16,7 @@ namespace cxon {
                 static bool value(std::complex<T>& t, II& i, II e, Cx& cx) {
                     T rl, mg;
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 2, i, e, cx) &&
                                 read_value<Y>(rl, i, e, cx) &&
                                 read_value<Y>(mg, i, e, cx) &&
                             (t.real(rl), t.imag(mg), true)
diff --git a/src/cxon/lang/cbor/lib/std/tuple.hxx b/src/cxon/lang/cbor/lib/std/tuple.hxx
index 3a6bcf1..09f9e8a 100644
--- a/src/cxon/lang/cbor/lib/std/tuple.hxx
+++ b/src/cxon/lang/cbor/lib/std/tuple.hxx
@@ -65,7 +65,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::tuple<>&, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(0, i, e, cx)
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 0, i, e, cx)
                     ;
                 }
         };
@@ -75,7 +75,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::tuple<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(sizeof...(T), i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, sizeof...(T), i, e, cx) &&
                             cbor::cnt::read_tuple<Y>(t, i, e, cx)
                     ;
                 }
diff --git a/src/cxon/lang/cbor/lib/std/utility.hxx b/src/cxon/lang/cbor/lib/std/utility.hxx
index b416550..35c1e69 100644
--- a/src/cxon/lang/cbor/lib/std/utility.hxx
+++ b/src/cxon/lang/cbor/lib/std/utility.hxx
@@ -15,7 +15,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::pair<F, S>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 2, i, e, cx) &&
                                 read_value<Y>(t.first, i, e, cx) &&
                                 read_value<Y>(t.second, i, e, cx)
                     ;
diff --git a/src/cxon/lang/cbor/lib/std/variant.hxx b/src/cxon/lang/cbor/lib/std/variant.hxx
index cdc63cb..fb018f8 100644
--- a/src/cxon/lang/cbor/lib/std/variant.hxx
+++ b/src/cxon/lang/cbor/lib/std/variant.hxx
@@ -69,7 +69,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::variant<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 2, i, e, cx) &&
                             cbor::imp::variant_read_<Y>(t, i, e, cx)
                     ;
                 }
-- 
2.43.0


From fc3bb6c2fb35a0024223ddb822654495caeaea4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:10 +0000
Subject: [PATCH 33/59] fix: refuse items other than CBOR maps for classes, do
 not use an unread size

---
 src/cxon/lang/cbor/class.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/cbor/class.hxx b/src/cxon/lang/cbor/class.hxx
index 94e94ec..4e45289 100644
--- a/src/cxon/lang/cbor/class.hxx
+++ b/src/cxon/lang/cbor/class.hxx
@@ -155,7 +155,9 @@ namespace cxon { namespace cbor { namespace cls {
     }
     template <typename X, typename T, typename ...Fs, typename II, typename Cx>
         inline bool read_fields(T& t, const fields<Fs...>& fs, II& i, II e, Cx& cx) {
-            std::size_t n;
+            if ((bio::peek(i, e) & X::mjr) != X::map)
+                return cx/cbor::read_error::size_invalid;
+            std::size_t n = 1;
             if (cbor::cnt::read_size_le<X>(n, sizeof...(Fs), i, e, cx)) {
                 int st[sizeof...(Fs)] = {0};
                 for (char id[bio::ids_len_max::constant<napa_type<Cx>>(64)]; n; --n) {
-- 
2.43.0


From 6af91b364833b07c32bbacb4ec0e656cee19b8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:39 +0000
Subject: [PATCH 34/59] fix: do not write past the end of a fixed range when
 writing CBOR

Writing more than one byte at once to a range bypassed the bounds check
of range_container::append, as its type is not that of the elements.
---
 src/cxon/lang/common/container.hxx | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cxon/lang/common/container.hxx b/src/cxon/lang/common/container.hxx
index 49f8018..0bdf853 100644
--- a/src/cxon/lang/common/container.hxx
+++ b/src/cxon/lang/common/container.hxx
@@ -343,7 +343,7 @@ namespace cxon { namespace cnt {
 
             template <typename II>
                 auto append(II f, II l) noexcept
-                    -> enable_if_t<is_random_access_iterator<II>::value, bool>
+                    -> enable_if_t<is_forward_iterator<II>::value, bool>
                 {
 #                   if defined(__GNUC__) && __GNUC__ >= 7 && !defined(__clang__)
 #                       pragma GCC diagnostic push
@@ -351,14 +351,17 @@ namespace cxon { namespace cnt {
 #                       pragma GCC diagnostic ignored "-Wstringop-overflow"
 #                   endif
                         auto const s = std::distance(f, l);
-                        return s <= std::distance(e_, l_) && (std::copy(f, l, e_), e_ += s, true);
+                        return s <= std::distance(e_, l_) && (e_ = std::copy(f, l, e_), true);
 #                   if defined(__GNUC__) && __GNUC__ >= 7 && !defined(__clang__)
 #                       pragma GCC diagnostic pop
 #                   endif
                 }
-            bool append(const value_type* t, std::size_t n) noexcept {
-                return append(t, t + n);
-            }
+            template <typename II>
+                auto append(II f, std::size_t n) noexcept
+                    -> enable_if_t<is_random_access_iterator<II>::value, bool>
+                {
+                    return append(f, f + n);
+                }
 
             bool append(unsigned n, const value_type& t) noexcept {
                 return  n <= static_cast<std::size_t>(std::distance(e_, l_)) &&
-- 
2.43.0


From 8cf67cadb9645c58002cfacbf284fc4b59d7c9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:39 +0000
Subject: [PATCH 35/59] fix: refuse single integers for CBOR character pointers

The string read was not terminated.
---
 src/cxon/lang/cbor/compound.hxx | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/cbor/compound.hxx b/src/cxon/lang/cbor/compound.hxx
index 92b3100..834f2f8 100644
--- a/src/cxon/lang/cbor/compound.hxx
+++ b/src/cxon/lang/cbor/compound.hxx
@@ -48,6 +48,22 @@ namespace cxon { // pointer/read
                 return v && read_value<X>(*v, i, e, cx) && (t = v.take(), true);
             }
 
+        template <typename X, typename T, typename II, typename Cx>
+            inline auto read_item_(T*& t, II& i, II e, Cx& cx)
+                -> enable_if_t<!is_char<T>::value, bool>
+            {
+                return read_pointer_t_<X>(t, i, e, cx);
+            }
+        template <typename X, typename T, typename II, typename Cx> // a single character cannot be terminated
+            inline auto read_item_(T*& t, II& i, II e, Cx& cx)
+                -> enable_if_t< is_char<T>::value, bool>
+            {
+                return  bio::peek(i, e) == X::nil ?
+                    (bio::get(i, e), t = nullptr, true) :
+                    cx/cbor::read_error::integer_invalid
+                ;
+            }
+
         template <typename X, typename T, typename II, typename Cx>
             inline auto read_pointer_(T*& t, II& i, II e, Cx& cx)
                 -> enable_if_t<!std::is_class<T>::value &&  std::is_assignable<decltype(*t), decltype(*i)>::value, bool>
@@ -60,7 +76,7 @@ namespace cxon { // pointer/read
                                 auto c = cxon::cnt::make_pointer_container<X, T>(cx);
                                 return cbor::cnt::read_array<X>(c, tag, i, e, cx) && (c.push_back({}), t = c.release());
                     }
-                    default:    return read_pointer_t_<X>(t, i, e, cx);
+                    default:    return read_item_<X>(t, i, e, cx);
                 }
             }
         template <typename X, typename T, typename II, typename Cx>
-- 
2.43.0


From 710d4e165dc98002564bee814ed5963348ca1b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:20 +0000
Subject: [PATCH 36/59] fix: do not accept white-space after a quoted character
 or bit set

---
 src/cxon/lang/json/fundamental.hxx              | 6 +++---
 src/cxon/lang/json/lib/boost/dynamic_bitset.hxx | 2 +-
 src/cxon/lang/json/lib/std/bitset.hxx           | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cxon/lang/json/fundamental.hxx b/src/cxon/lang/json/fundamental.hxx
index 991be77..4d89a34 100644
--- a/src/cxon/lang/json/fundamental.hxx
+++ b/src/cxon/lang/json/fundamental.hxx
@@ -101,7 +101,7 @@ namespace cxon { // character
                             char32_t const c32 = cio::str::char_read<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                                 if (c32 >  0xFF)                return cio::rewind(i, o), cx/json::read_error::character_invalid;
-                    return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = char(c32), true);
+                    return (cio::str::delim_en_read<X>(i, e) || cx/json::read_error::unexpected) && (t = char(c32), true);
                 }
             };
     template <typename X, typename T>
@@ -113,7 +113,7 @@ namespace cxon { // character
                             char32_t const c32 = cio::str::char_read<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                                 if (c32 >  0xFFFF)              return cio::rewind(i, o), cx/json::read_error::character_invalid;
-                    return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = T(c32), true);
+                    return (cio::str::delim_en_read<X>(i, e) || cx/json::read_error::unexpected) && (t = T(c32), true);
                 }
         };
     template <typename X, typename T>
@@ -124,7 +124,7 @@ namespace cxon { // character
                         II const o = i;
                             char32_t const c32 = cio::str::char_read<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
-                    return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = T(c32), true);
+                    return (cio::str::delim_en_read<X>(i, e) || cx/json::read_error::unexpected) && (t = T(c32), true);
                 }
         };
 
diff --git a/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx b/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
index e6a224c..de7f767 100644
--- a/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
+++ b/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
@@ -45,7 +45,7 @@ namespace cxon {
                 static bool value(boost::dynamic_bitset<B, A>& t, II& i, II e, Cx& cx) {
                     return  cio::consume<Y>(cio::str::delim_be_read<Y, II>, i, e, cx) &&
                                 json::imp::read_bits_<Y>(t, i, e, cx) &&
-                            cio::consume<Y>(cio::str::delim_en_read<Y, II>, i, e, cx)
+                            (cio::str::delim_en_read<Y>(i, e) || cx/json::read_error::unexpected)
                     ;
                 }
         };
diff --git a/src/cxon/lang/json/lib/std/bitset.hxx b/src/cxon/lang/json/lib/std/bitset.hxx
index 1e0938c..cf401eb 100644
--- a/src/cxon/lang/json/lib/std/bitset.hxx
+++ b/src/cxon/lang/json/lib/std/bitset.hxx
@@ -45,7 +45,7 @@ namespace cxon {
                 static bool value(std::bitset<N>& t, II& i, II e, Cx& cx) {
                     return  cio::consume<Y>(cio::str::delim_be_read<Y, II>, i, e, cx) &&
                                 json::imp::read_bits_<Y>(t, i, e, cx) &&
-                            cio::consume<Y>(cio::str::delim_en_read<Y, II>, i, e, cx)
+                            (cio::str::delim_en_read<Y>(i, e) || cx/json::read_error::unexpected)
                     ;
                 }
         };
-- 
2.43.0


From 72f1bae9f003f33bcdbfa2a45b929deae6ff8c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:20 +0000
Subject: [PATCH 37/59] fix: report failing to write the size of a CBOR
 container

An empty container was reported as written and a failing valarray was
followed by the size of an empty array.
---
 src/cxon/lang/cbor/common/container.hxx | 15 +++++++++------
 src/cxon/lang/cbor/lib/std/valarray.hxx |  5 +++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index d20ff0c..d52a08e 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -307,8 +307,9 @@ namespace cxon { namespace cbor { namespace cnt {
             inline auto write_array_(O& o, FI f, FI l, Cx& cx)
                 -> enable_if_t<sizeof(T) != 1 ||  std::is_same<T, bool>::value, bool>
             {
-                if (write_size<X>(o, X::arr, std::distance(f, l), cx))
-                    for ( ; f != l && write_value<X>(o, *f, cx); ++f) ;
+                if (!write_size<X>(o, X::arr, std::distance(f, l), cx))
+                    return false;
+                for ( ; f != l && write_value<X>(o, *f, cx); ++f) ;
                 return f == l;
             }
 
@@ -325,8 +326,9 @@ namespace cxon { namespace cbor { namespace cnt {
                 -> enable_if_t<sizeof(T) != 1 ||  std::is_same<T, bool>::value, bool>
             {
                 auto f = std::begin(t), l = std::end(t);
-                if (write_size<X>(o, X::arr, std::distance(f, l), cx))
-                    for ( ; f != l && cxon::cnt::element_write<X, C>(o, *f, cx); ++f) ;
+                if (!write_size<X>(o, X::arr, std::distance(f, l), cx))
+                    return false;
+                for ( ; f != l && cxon::cnt::element_write<X, C>(o, *f, cx); ++f) ;
                 return f == l;
             }
         template <typename X, typename C, typename O, typename Cx, typename T = typename C::value_type>
@@ -346,8 +348,9 @@ namespace cxon { namespace cbor { namespace cnt {
     template <typename X, typename T, typename O, typename Cx>
         inline bool write_map(O& o, const T& t, Cx& cx) {
             auto f = std::begin(t), l = std::end(t);
-            if (write_size<X>(o, X::map, std::distance(f, l), cx))
-                for ( ; f != l && cxon::cnt::element_write<X, T>(o, *f, cx); ++f) ;
+            if (!write_size<X>(o, X::map, std::distance(f, l), cx))
+                return false;
+            for ( ; f != l && cxon::cnt::element_write<X, T>(o, *f, cx); ++f) ;
             return f == l;
         }
 
diff --git a/src/cxon/lang/cbor/lib/std/valarray.hxx b/src/cxon/lang/cbor/lib/std/valarray.hxx
index c52d816..0010b81 100644
--- a/src/cxon/lang/cbor/lib/std/valarray.hxx
+++ b/src/cxon/lang/cbor/lib/std/valarray.hxx
@@ -67,8 +67,9 @@ namespace cxon {
         struct write<CBOR<X>, std::valarray<T>> {
             template <typename O, typename Cx, typename Y = CBOR<X>>
                 static bool value(O& o, const std::valarray<T>& t, Cx& cx) {
-                    return (t.size() && cbor::cnt::write_array<Y>(o, std::begin(t), std::end(t), cx)) ||
-                           (cbor::cnt::write_size<Y>(o, Y::arr, 0, cx))
+                    return t.size() ?
+                        cbor::cnt::write_array<Y>(o, std::begin(t), std::end(t), cx) :
+                        cbor::cnt::write_size<Y>(o, Y::arr, 0, cx)
                     ;
                 }
         };
-- 
2.43.0


From 6fc27fb9544c33d6e2b529ad29380e2126d0978f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:16 +0000
Subject: [PATCH 38/59] fix: do not read past the end when converting inf and
 nan to long double

---
 src/cxon/lang/common/charconv.hxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cxon/lang/common/charconv.hxx b/src/cxon/lang/common/charconv.hxx
index 830d51f..51a0899 100644
--- a/src/cxon/lang/common/charconv.hxx
+++ b/src/cxon/lang/common/charconv.hxx
@@ -258,6 +258,14 @@ namespace cxon { namespace charconv { // <charconv>
                 auto const r = imp::from_chars(f, l, t);
                 return { r.ptr, r.ec };
             }
+        inline std::from_chars_result from_chars_f_(option<1>, const char* f, const char* l, long double& t) noexcept {
+            // libstdc++ reads inf and nan of type long double up to a terminating zero (i.e. past the end)
+            auto const p = f != l && *f == '-' ? f + 1 : f;
+            return p != l && (*p == 'i' || *p == 'I' || *p == 'n' || *p == 'N') ?
+                from_chars_f_(option<0>(), f, l, t) :
+                from_chars_f_<long double>(option<1>(), f, l, t)
+            ;
+        }
         template <typename T>
             inline auto from_chars(const char* f, const char* l, T& t) noexcept
                 ->  enable_if_t<std::is_floating_point<T>::value, std::from_chars_result>
-- 
2.43.0


From f3ce9a6c79a262d90e1db7b6db790ea911aed590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:35 +0000
Subject: [PATCH 39/59] fix: read strings through iterators that are not random
 access in C++11 (it did not compile)

---
 src/cxon/lang/common/cio/char.hxx | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index 4ccb4d9..c96a099 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -289,6 +289,15 @@ namespace cxon { namespace cio { namespace chr {
             //return 0;
         }
 
+    namespace imp {
+
+        template <typename II>
+            inline auto less_than_(II i, II e, int n) -> enable_if_t< is_random_access_iterator<II>::value, bool>   { return e - i < n; }
+        template <typename II>
+            inline auto less_than_(II, II, int)       -> enable_if_t<!is_random_access_iterator<II>::value, bool>   { return false; }
+
+    }
+
     template <typename II>
         CXON_INLAY int utf8_check(II i, II e) {
             // http://www.unicode.org/versions/Unicode6.0.0/ch03.pdf
@@ -300,8 +309,7 @@ namespace cxon { namespace cio { namespace chr {
             //    return 1;
             // 2
             if (c0 < 0xE0) {
-                CXON_IF_CONSTEXPR (is_random_access_iterator<II>::value)
-                    if (e - i < 2) return 0;
+                if (imp::less_than_(i, e, 2)) return 0;
                 if (c0 >= 0xC2 && c0 <= 0xDF) {
                     c1 = imp::head_(i, e);
                     if (c1 >= 0x80 && c1 <= 0xBF)
@@ -310,8 +318,7 @@ namespace cxon { namespace cio { namespace chr {
             }
             // 3
             else if (c0 < 0xF0) {
-                CXON_IF_CONSTEXPR (is_random_access_iterator<II>::value)
-                    if (e - i < 3) return 0;
+                if (imp::less_than_(i, e, 3)) return 0;
                 if (c0 == 0xE0) {
                     c1 = imp::head_(i, e), c2 = imp::tail_(i, e);
                     if (c1 >= 0xA0 && c1 <= 0xBF && c2 >= 0x80 && c2 <= 0xBF)
@@ -335,8 +342,7 @@ namespace cxon { namespace cio { namespace chr {
             }
             // 4
             else if (c0 < 0xF8) {
-                CXON_IF_CONSTEXPR (is_random_access_iterator<II>::value)
-                    if (e - i < 4) return 0;
+                if (imp::less_than_(i, e, 4)) return 0;
                 if (c0 == 0xF0) {
                     c1 = imp::head_(i, e), c2 = imp::tail_(i, e), c3 = imp::tail_(i, e);
                     if (c1 >= 0x90 && c1 <= 0xBF && c2 >= 0x80 && c2 <= 0xBF && c3 >= 0x80 && c3 <= 0xBF)
-- 
2.43.0


From 901fd240fe04582f5c8ec61957badd4ab068f345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:04 +0000
Subject: [PATCH 40/59] fix: refuse to write the reserved CBOR simple value 24
 (C05)

---
 src/cxon/lib/node.cbor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lib/node.cbor.hxx b/src/cxon/lib/node.cbor.hxx
index cd8cf1a..ab4406f 100644
--- a/src/cxon/lib/node.cbor.hxx
+++ b/src/cxon/lib/node.cbor.hxx
@@ -176,7 +176,7 @@ namespace cxon {
                             CXON_ASSERT(t <= 255, "invalid simple value");
                             return  bio::poke<Y>(o, bio::byte(X::svn + 0x18), cx) && bio::poke<Y>(o, t.value, 1, cx);
                         case 0x14: case 0x15: case 0x16: case 0x17:
-                        case 0x19: case 0x1A: case 0x1B: case 0x1C: case 0x1D: case 0x1E: case 0x1F:
+                        case 0x18: case 0x19: case 0x1A: case 0x1B: case 0x1C: case 0x1D: case 0x1E: case 0x1F:
                             return  cx/cbor::write_error::argument_invalid;
                     }
                 }
-- 
2.43.0


From e00d527cde7eb57f7301ad1115ff53927fee56ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:04 +0000
Subject: [PATCH 41/59] fix: read CBOR simple and tagged values from JSON (it
 did not compile) (C17)

---
 src/cxon/lib/node.json.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lib/node.json.hxx b/src/cxon/lib/node.json.hxx
index 9b98d3a..7f1a592 100644
--- a/src/cxon/lib/node.json.hxx
+++ b/src/cxon/lib/node.json.hxx
@@ -604,7 +604,7 @@ namespace cxon {
                 template <typename II, typename Cx, typename Y = JSON<X>>
                     static bool value(cbor::simple<T>& t, II& i, II e, Cx& cx) {
                         II const o = i;
-                        return  (read_value<Y>(t.value, i, e) || // TODO: check simple-value values
+                        return  (read_value<Y>(t.value, i, e, cx) || // TODO: check simple-value values
                                 (cio::rewind(i, o), cx/json::read_error::unexpected))
                         ;
                     }
@@ -623,7 +623,7 @@ namespace cxon {
                 template <typename II, typename Cx, typename Y = JSON<X>>
                     static bool value(cbor::taggle<N, T>& t, II& i, II e, Cx& cx) {
                         II const o = i;
-                        return  (/*read_value<Y>(t.tag, i, e) && */read_value<Y>(t.value, i, e)) || // TODO: keep as an object?
+                        return  (/*read_value<Y>(t.tag, i, e) && */read_value<Y>(t.value, i, e, cx)) || // TODO: keep as an object?
                                 (cio::rewind(i, o), cx/json::read_error::unexpected)
                         ;
                     }
-- 
2.43.0


From 054aefa1cb9963297cdc4cf02b5e11dffb896a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:01 +0000
Subject: [PATCH 42/59] fix: let constructing node strings with unequal
 allocators throw (C18)

---
 src/cxon/lang/common/node-value.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/node-value.hxx b/src/cxon/lang/common/node-value.hxx
index 24d9d45..9a73550 100644
--- a/src/cxon/lang/common/node-value.hxx
+++ b/src/cxon/lang/common/node-value.hxx
@@ -188,7 +188,7 @@ namespace cxon { namespace value {
                 public:
             // construct
                 template <typename T, typename ...A>
-                    static auto construct(N& n, A&&... t) noexcept(std::is_nothrow_constructible<T, A&&...>::value)
+                    static auto construct(N& n, A&&... t) noexcept(is_nothrow_constructible<T, A...>::value)
                         ->  enable_if_t<!is_dynamic_type<T>::value>
                     {
                         alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::forward<A>(t)...);
-- 
2.43.0


From 858d0a8adf1ddb5c98094ae61d6830074c26641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:37 +0000
Subject: [PATCH 43/59] fix: compare nodes with plain characters as the nodes
 made from them (C22)

---
 src/cxon/lang/cbor/node/node.hxx | 16 ++++++++--------
 src/cxon/lang/json/node/node.hxx | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index 3e5ccd1..0d7a5e8 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -597,36 +597,36 @@ namespace cxon { namespace cbor { // node
                     //CXON_JSON_DEF(sint)
                     template <typename U = sint>
                         friend auto operator ==(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return n.is<sint>() && n.get<sint>() == v; }
                     template <typename U = sint>
                         friend auto operator ==(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return n.is<sint>() && n.get<sint>() == v; }
                     template <typename U = sint>
                         friend auto operator !=(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return !n.is<sint>() || n.get<sint>() != v; }
                     template <typename U = sint>
                         friend auto operator !=(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return !n.is<sint>() || n.get<sint>() != v; }
                     //CXON_JSON_DEF(uint)
                     template <typename U = uint>
                         friend auto operator ==(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return n.is<uint>() && n.get<uint>() == v; }
                     template <typename U = uint>
                         friend auto operator ==(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return n.is<uint>() && n.get<uint>() == v; }
                     template <typename U = uint>
                         friend auto operator !=(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return !n.is<uint>() || n.get<uint>() != v; }
                     template <typename U = uint>
                         friend auto operator !=(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return !n.is<uint>() || n.get<uint>() != v; }
                     CXON_JSON_DEF(simple)
                     CXON_JSON_DEF(boolean)
diff --git a/src/cxon/lang/json/node/node.hxx b/src/cxon/lang/json/node/node.hxx
index a8b5d5f..4de376e 100644
--- a/src/cxon/lang/json/node/node.hxx
+++ b/src/cxon/lang/json/node/node.hxx
@@ -519,36 +519,36 @@ namespace cxon { namespace json { // node
                     //CXON_JSON_DEF(sint)
                     template <typename U = sint>
                         friend auto operator ==(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return n.is<sint>() && n.get<sint>() == v; }
                     template <typename U = sint>
                         friend auto operator ==(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return n.is<sint>() && n.get<sint>() == v; }
                     template <typename U = sint>
                         friend auto operator !=(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return !n.is<sint>() || n.get<sint>() != v; }
                     template <typename U = sint>
                         friend auto operator !=(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return !n.is<sint>() || n.get<sint>() != v; }
                     //CXON_JSON_DEF(uint)
                     template <typename U = uint>
                         friend auto operator ==(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return n.is<uint>() && n.get<uint>() == v; }
                     template <typename U = uint>
                         friend auto operator ==(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return n.is<uint>() && n.get<uint>() == v; }
                     template <typename U = uint>
                         friend auto operator !=(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return !n.is<uint>() || n.get<uint>() != v; }
                     template <typename U = uint>
                         friend auto operator !=(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return !n.is<uint>() || n.get<uint>() != v; }
                     CXON_JSON_DEF(boolean)
                     friend bool operator ==(const basic_node& n, null) noexcept { return  n.is<null>(); }
-- 
2.43.0


From adc0e5027d8a34dc0ca35197660d15ecd77e7541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:37 +0000
Subject: [PATCH 44/59] fix: add the inequality of a node and null, which
 compared with a null string (C22)

---
 src/cxon/lang/cbor/node/node.hxx | 2 ++
 src/cxon/lang/json/node/node.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index 0d7a5e8..6914ad6 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -633,6 +633,8 @@ namespace cxon { namespace cbor { // node
                     //CXON_JSON_DEF(null)
                     friend bool operator ==(const basic_node& n, null) noexcept { return  n.is<null>(); }
                     friend bool operator ==(null, const basic_node& n) noexcept { return  n.is<null>(); }
+                    friend bool operator !=(const basic_node& n, null) noexcept { return !n.is<null>(); }
+                    friend bool operator !=(null, const basic_node& n) noexcept { return !n.is<null>(); }
                     //CXON_JSON_DEF(undefined)
                     friend bool operator ==(const basic_node& n, undefined) noexcept { return  n.is<undefined>(); }
                     friend bool operator ==(undefined, const basic_node& n) noexcept { return  n.is<undefined>(); }
diff --git a/src/cxon/lang/json/node/node.hxx b/src/cxon/lang/json/node/node.hxx
index 4de376e..81c3545 100644
--- a/src/cxon/lang/json/node/node.hxx
+++ b/src/cxon/lang/json/node/node.hxx
@@ -553,6 +553,8 @@ namespace cxon { namespace json { // node
                     CXON_JSON_DEF(boolean)
                     friend bool operator ==(const basic_node& n, null) noexcept { return  n.is<null>(); }
                     friend bool operator ==(null, const basic_node& n) noexcept { return  n.is<null>(); }
+                    friend bool operator !=(const basic_node& n, null) noexcept { return !n.is<null>(); }
+                    friend bool operator !=(null, const basic_node& n) noexcept { return !n.is<null>(); }
 #               undef CXON_JSON_DEF
         };
 
-- 
2.43.0


From a105d6b43f570400aa32855f7ed959564882f19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:02 +0000
Subject: [PATCH 45/59] fix: hash unordered containers independently of the
 order of their elements (C22)

---
 src/cxon/lang/common/hash.hxx | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/hash.hxx b/src/cxon/lang/common/hash.hxx
index ca35cef..4b79175 100644
--- a/src/cxon/lang/common/hash.hxx
+++ b/src/cxon/lang/common/hash.hxx
@@ -55,8 +55,21 @@ namespace cxon {
         template <typename T>
             struct is_iterable_<T, void_t<typename T::const_iterator>>  : std::true_type {};
 
+        template <typename T, typename E = void_t<>>
+            struct is_unordered_                                        : std::false_type {};
+        template <typename T>
+            struct is_unordered_<T, void_t<typename T::hasher>>         : std::true_type {};
+
+        template <typename T>
+            inline auto make_hash_(const T& t) noexcept -> enable_if_t< is_iterable_<T>::value &&  is_unordered_<T>::value, std::size_t> {
+                hash<typename T::value_type> hs;
+                std::size_t s = 0;
+                for (auto& v: t)
+                    s += hs(v); // equal containers may differ in order
+                return s;
+            }
         template <typename T>
-            inline auto make_hash_(const T& t) noexcept -> enable_if_t< is_iterable_<T>::value, std::size_t> {
+            inline auto make_hash_(const T& t) noexcept -> enable_if_t< is_iterable_<T>::value && !is_unordered_<T>::value, std::size_t> {
                 hash<typename T::value_type> hs;
                 std::size_t s = 0;
                 for (auto& v: t)
-- 
2.43.0


From 75e3f3a9a0668de6ef4b24405c6fe042d1ee0228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:26 +0000
Subject: [PATCH 46/59] fix: do not copy the keys read into maps, their
 allocators may change (C13)

---
 src/cxon/lang/common/container.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/container.hxx b/src/cxon/lang/common/container.hxx
index 0bdf853..ef4f080 100644
--- a/src/cxon/lang/common/container.hxx
+++ b/src/cxon/lang/common/container.hxx
@@ -172,7 +172,7 @@ namespace cxon { namespace cnt {
             struct using_allocator_of_<std::pair<F, S>> {
                 template <typename C, typename ...A>
                     static auto emplace(C& c, A&&... as) -> std::pair<F, S>& {
-                        return emplace_(option<5>(), c, alc::create_using_allocator_of<std::pair<F, S>>(c, std::forward<A>(as)...));
+                        return emplace_(option<5>(), c, alc::create_using_allocator_of<std::pair<typename std::remove_const<F>::type, S>>(c, std::forward<A>(as)...));
                     }
             };
 
-- 
2.43.0


From 7830c88183035f2f9f62926e4ca1d239614a53cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:26 +0000
Subject: [PATCH 47/59] fix: construct nodes read from CBOR bytes with the
 allocator of their container (C13)

---
 src/cxon/lang/cbor/common/container.hxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index d52a08e..0ac72d1 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -132,13 +132,21 @@ namespace cxon { namespace cbor { namespace cnt {
                 II e = f; std::advance(e, m);
                 return cxon::cnt::append(c, f, e) && (std::advance(f, m), m == n);
             }
+        template <typename C, typename T>
+            inline auto element_append_(option<1>, C& c, T t) -> decltype(typename C::value_type(t, c.get_allocator()), void()) {
+                cxon::cnt::append(c, typename C::value_type(t, c.get_allocator()));
+            }
+        template <typename C, typename T>
+            inline auto element_append_(option<0>, C& c, T t) -> void {
+                cxon::cnt::append(c, t);
+            }
         template <typename X, typename C, typename II, typename Cx>
             inline auto elements_read_(C& c, std::size_t n, II& f, II l, Cx&)
                 -> enable_if_t<!is_forward_iterator<II>::value || !is_byte_container<C>::value, bool>
             {
                 using T = typename std::conditional<is_byte_container<C>::value, typename C::value_type, bio::byte>::type; // bytes are unsigned
                 for ( ; n != 0 && f != l; --n, ++f)
-                    cxon::cnt::append(c, static_cast<T>(*f));
+                    element_append_(option<1>(), c, static_cast<T>(*f));
                 return n == 0;
             }
 
-- 
2.43.0


From 94c0b6b45b07f16d345cdc3d73b3e9daeb596f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:54 +0000
Subject: [PATCH 48/59] fix: emplace pairs as the keys and values of maps (C13)

---
 src/cxon/lang/common/allocator.hxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cxon/lang/common/allocator.hxx b/src/cxon/lang/common/allocator.hxx
index d4a11b0..24df0d1 100644
--- a/src/cxon/lang/common/allocator.hxx
+++ b/src/cxon/lang/common/allocator.hxx
@@ -159,6 +159,14 @@ namespace cxon { namespace alc {
                             using_allocator_<S>::create(al, std::forward<AS>(as))
                         );
                     }
+                template <typename Al, typename AF, typename AS>
+                    static constexpr std::pair<F, S> create(const Al& al, const std::pair<AF, AS>& a) {
+                        return create(al, a.first, a.second);
+                    }
+                template <typename Al, typename AF, typename AS>
+                    static constexpr std::pair<F, S> create(const Al& al, std::pair<AF, AS>&& a) {
+                        return create(al, std::forward<AF>(a.first), std::forward<AS>(a.second));
+                    }
                 template <typename T, typename Al, typename Tp, std::size_t ...I>
                     static constexpr T create_with_(const Al& al, Tp&& tp, index_sequence<I...>) {
                         return using_allocator_<T>::create(al, std::forward<typename std::tuple_element<I, Tp>::type>(std::get<I>(tp))...);
-- 
2.43.0


From c688e70a631784cfd9660713714c0b965caadac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:08 +0000
Subject: [PATCH 49/59] fix: quote infinities and NaNs with the string
 delimiter, escape the first character of unquoted keys (C16)

---
 src/cxon/lang/common/cio/char.hxx    | 23 +++++++++++++++++++++++
 src/cxon/lang/common/cio/numeric.hxx | 14 +++++++-------
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index c96a099..5da8268 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -627,13 +627,36 @@ namespace cxon { namespace cio { namespace chr {
 
     }
 
+    namespace imp {
+
+        template <typename X, typename T>
+            constexpr auto key_head_(T c) noexcept -> enable_if_t< is_quoted_key_context<X>::value && !X::assume_no_escapes, const char*> {
+                // at the beginning of an unquoted key, these characters will be read as something else
+                return  c == T(X::map::end)                 ? "\\u007d" :
+                        c == T(X::map::beg)                 ? "\\u007b" :
+                        c == T(X::list::beg)                ? "\\u005b" :
+                        c == T('/') && X::allow_comments    ? "\\u002f" :
+                                                              nullptr
+                ;
+            }
+        template <typename X, typename T>
+            constexpr auto key_head_(T) noexcept -> enable_if_t<!is_quoted_key_context<X>::value ||  X::assume_no_escapes, const char*> {
+                return nullptr;
+            }
+
+    }
+
     template <typename X, typename O, typename T, typename Cx>
         inline auto encode_range(O& o, const T* f, const T* l, Cx& cx) -> enable_if_t<is_char<T>::value, bool> {
+            if (auto const h = f != l ? imp::key_head_<X>(*f) : nullptr)
+                return poke<X>(o, h, 6, cx) && imp::encode_<X, T>::range(o, f + 1, l, cx);
             return imp::encode_<X, T>::range(o, f, l, cx);
         }
 
     template <typename X, typename T, typename O, typename Cx>
         inline auto write(O& o, T t, Cx& cx) -> enable_if_t<is_char<T>::value, bool> {
+            if (auto const h = imp::key_head_<X>(t))
+                return poke<X>(o, h, 6, cx);
             return  poke<X>(o, str::delim_be_write<X, O>, cx) &&
                         imp::encode_<X, T>::value(o, t, cx) &&
                     poke<X>(o, str::delim_en_write<X, O>, cx)
diff --git a/src/cxon/lang/common/cio/numeric.hxx b/src/cxon/lang/common/cio/numeric.hxx
index 4646d1f..5ebe834 100644
--- a/src/cxon/lang/common/cio/numeric.hxx
+++ b/src/cxon/lang/common/cio/numeric.hxx
@@ -87,7 +87,7 @@ namespace cxon { namespace cio { namespace num { // read
 #                       pragma GCC diagnostic ignored "-Wstringop-overflow"
 #                   endif
                         CXON_IF_CONSTEXPR(!X::allow_javascript_nans) {
-                            if (c == '"') {
+                            if (c == X::string::del) {
                                 ;                               CXON_READ()
                                 if (is_sign_<T>(c))             CXON_NEXT()
                                 if (c == 'i') {
@@ -99,7 +99,7 @@ namespace cxon { namespace cio { namespace num { // read
                                     CXON_NEXT() if (c != 'n')   return 0;
                                 }
                                 else                            return 0;
-                                CXON_NEXT() if (c != '"')       return 0;
+                                CXON_NEXT() if (c != X::string::del) return 0;
                                 CXON_NEXT()                     goto trap_end;
                             }
                         }
@@ -157,7 +157,7 @@ namespace cxon { namespace cio { namespace num { // read
             {   // as in RFC7159
                 char c = peek(i, e);
                     CXON_IF_CONSTEXPR(!X::allow_javascript_nans) {
-                        if (c == '"') {
+                        if (c == X::string::del) {
                             ;                           c = next(i, e);
                             if (is_sign_<T>(c))         c = next(i, e);
                             if (c == 'i') {
@@ -169,7 +169,7 @@ namespace cxon { namespace cio { namespace num { // read
                                 if (next(i, e) != 'n')  return 0;
                             }
                             else                        return 0;
-                            if (next(i, e) != '"')      return 0;
+                            if (next(i, e) != X::string::del) return 0;
                             return ++i, 1;
                         }
                     }
@@ -262,17 +262,17 @@ namespace cxon { namespace cio { namespace num { // read
             inline charconv::imp::from_chars_result from_chars_(const char* b, const char* e, T& t) noexcept {
                 if (e - b >= 3) {
                     CXON_IF_CONSTEXPR (!X::allow_javascript_nans) {
-                        if (b[0] == '"') {
+                        if (b[0] == X::string::del) {
                             auto s = b[1] == '-' ? ++b + 1 : ++b;
                             switch (s[0]) {
                                 case 'i':
-                                    if (e - s >= 4 && s[1] == 'n' && s[2] == 'f' && s[3] == '"') {
+                                    if (e - s >= 4 && s[1] == 'n' && s[2] == 'f' && s[3] == X::string::del) {
                                         t = s != b ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::infinity();
                                         return charconv::imp::from_chars_result{ s + 4, std::errc() };
                                     }
                                     break;
                                 case 'n':
-                                    if (e - s >= 4 && s[1] == 'a' && s[2] == 'n' && s[3] == '"') {
+                                    if (e - s >= 4 && s[1] == 'a' && s[2] == 'n' && s[3] == X::string::del) {
                                         t = s != b ? -std::numeric_limits<T>::quiet_NaN() : std::numeric_limits<T>::quiet_NaN();
                                         return charconv::imp::from_chars_result{ s + 4, std::errc() };
                                     }
-- 
2.43.0


From 02290e29315d9bfdc16cfee2dc9dadb4197a3a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:30 +0000
Subject: [PATCH 50/59] fix: read infinite and NaN map keys from any input
 (C07)

---
 src/cxon/lang/common/cio/numeric.hxx | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/cxon/lang/common/cio/numeric.hxx b/src/cxon/lang/common/cio/numeric.hxx
index 5ebe834..95b75a4 100644
--- a/src/cxon/lang/common/cio/numeric.hxx
+++ b/src/cxon/lang/common/cio/numeric.hxx
@@ -104,6 +104,18 @@ namespace cxon { namespace cio { namespace num { // read
                             }
                         }
                         if (is_sign_<T>(c))                     CXON_READ()
+                        CXON_IF_CONSTEXPR(!X::allow_javascript_nans && is_unquoted_key_context<X>::value) {
+                            if (c == 'i') {
+                                CXON_NEXT() if (c != 'n')       return 0;
+                                CXON_NEXT() if (c != 'f')       return 0;
+                                CXON_NEXT()                     goto trap_end;
+                            }
+                            if (c == 'n') {
+                                CXON_NEXT() if (c != 'a')       return 0;
+                                CXON_NEXT() if (c != 'n')       return 0;
+                                CXON_NEXT()                     goto trap_end;
+                            }
+                        }
                         CXON_IF_CONSTEXPR( X::allow_javascript_nans) {
                             if (c == 'I') {
                                 CXON_NEXT() if (c != 'n')       return 0;
@@ -174,6 +186,18 @@ namespace cxon { namespace cio { namespace num { // read
                         }
                     }
                     if (is_sign_<T>(c))                 c = next(i, e);
+                    CXON_IF_CONSTEXPR(!X::allow_javascript_nans && is_unquoted_key_context<X>::value) {
+                        if (c == 'i') {
+                            if (next(i, e) != 'n')      return 0;
+                            if (next(i, e) != 'f')      return 0;
+                            return ++i, 1;
+                        }
+                        if (c == 'n') {
+                            if (next(i, e) != 'a')      return 0;
+                            if (next(i, e) != 'n')      return 0;
+                            return ++i, 1;
+                        }
+                    }
                     CXON_IF_CONSTEXPR( X::allow_javascript_nans) {
                         if (c == 'I') {
                             if (next(i, e) != 'n')      return 0;
-- 
2.43.0


From 4e0587a856dff88449c59229f8a06730efdbbd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:07 +0000
Subject: [PATCH 51/59] fix: allow trailing separators in the arrays of pairs,
 tuples and complex numbers and the objects of variants (C16)

---
 src/cxon/lang/common/cio/cio.hxx          | 9 +++++++++
 src/cxon/lang/json/lib/boost/variant.hxx  | 2 +-
 src/cxon/lang/json/lib/boost/variant2.hxx | 2 +-
 src/cxon/lang/json/lib/std/complex.hxx    | 2 +-
 src/cxon/lang/json/lib/std/tuple.hxx      | 2 +-
 src/cxon/lang/json/lib/std/utility.hxx    | 2 +-
 src/cxon/lang/json/lib/std/variant.hxx    | 2 +-
 7 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/cxon/lang/common/cio/cio.hxx b/src/cxon/lang/common/cio/cio.hxx
index e535e37..e5a050b 100644
--- a/src/cxon/lang/common/cio/cio.hxx
+++ b/src/cxon/lang/common/cio/cio.hxx
@@ -188,6 +188,15 @@ namespace cxon { namespace cio { namespace cnt {
             return consume<X>(i, e, cx) && peek(i, e) != Cr::end;
         }
 
+    template <typename X, typename Cr, typename II, typename Cx> // containers with fixed number of elements
+        inline auto consume_end(II& i, II e, Cx& cx) -> enable_if_t<!X::allow_trailing_separators || Cr::sep == ' ', bool> {
+            return consume<X>(Cr::end, i, e, cx);
+        }
+    template <typename X, typename Cr, typename II, typename Cx>
+        inline auto consume_end(II& i, II e, Cx& cx) -> enable_if_t< X::allow_trailing_separators && Cr::sep != ' ', bool> {
+            return consume<X>(i, e, cx) && (consume<X>(Cr::sep, i, e), consume<X>(Cr::end, i, e, cx));
+        }
+
 }}}
 
 #endif // CXON_CIO_HXX_
diff --git a/src/cxon/lang/json/lib/boost/variant.hxx b/src/cxon/lang/json/lib/boost/variant.hxx
index ce19040..8b11d5b 100644
--- a/src/cxon/lang/json/lib/boost/variant.hxx
+++ b/src/cxon/lang/json/lib/boost/variant.hxx
@@ -60,7 +60,7 @@ namespace cxon {
             {
                 return  cio::consume<X>(X::map::beg, i, e, cx) &&
                             read_<X, II, Cx, T...>::variant(t, i, e, cx) &&
-                        cio::consume<X>(X::map::end, i, e, cx)
+                        cio::cnt::consume_end<X, typename X::map>(i, e, cx)
                 ;
             }
         template <typename X, typename II, typename Cx, typename ...T>
diff --git a/src/cxon/lang/json/lib/boost/variant2.hxx b/src/cxon/lang/json/lib/boost/variant2.hxx
index 26cae2d..6a8f06f 100644
--- a/src/cxon/lang/json/lib/boost/variant2.hxx
+++ b/src/cxon/lang/json/lib/boost/variant2.hxx
@@ -57,7 +57,7 @@ namespace cxon {
             {
                 return  cio::consume<X>(X::map::beg, i, e, cx) &&
                             read_<X, V, II, Cx>::variant(t, i, e, cx) &&
-                        cio::consume<X>(X::map::end, i, e, cx)
+                        cio::cnt::consume_end<X, typename X::map>(i, e, cx)
                 ;
             }
         template <typename X, typename V, typename II, typename Cx>
diff --git a/src/cxon/lang/json/lib/std/complex.hxx b/src/cxon/lang/json/lib/std/complex.hxx
index a9a404e..93e9476 100644
--- a/src/cxon/lang/json/lib/std/complex.hxx
+++ b/src/cxon/lang/json/lib/std/complex.hxx
@@ -21,7 +21,7 @@ namespace cxon {
                                 read_value<Y>(rl, i, e, cx) &&
                                     cio::consume<Y>(cio::cnt::sep_read<Y, typename Y::list, II>, i, e, cx) &&
                                 read_value<Y>(mg, i, e, cx) &&
-                            cio::consume<Y>(Y::list::end, i, e, cx) &&
+                            cio::cnt::consume_end<Y, typename Y::list>(i, e, cx) &&
                         (t.real(rl), t.imag(mg), true)
                     ;
                 }
diff --git a/src/cxon/lang/json/lib/std/tuple.hxx b/src/cxon/lang/json/lib/std/tuple.hxx
index 239b4a9..036072c 100644
--- a/src/cxon/lang/json/lib/std/tuple.hxx
+++ b/src/cxon/lang/json/lib/std/tuple.hxx
@@ -78,7 +78,7 @@ namespace cxon {
                 static bool value(std::tuple<T...>& t, II& i, II e, Cx& cx) {
                     return  cio::consume<Y>(Y::list::beg, i, e, cx) &&
                                 cio::cnt::read_tuple<Y>(t, i, e, cx) &&
-                            cio::consume<Y>(Y::list::end, i, e, cx)
+                            cio::cnt::consume_end<Y, typename Y::list>(i, e, cx)
                     ;
                 }
         };
diff --git a/src/cxon/lang/json/lib/std/utility.hxx b/src/cxon/lang/json/lib/std/utility.hxx
index 151fa27..0b7215d 100644
--- a/src/cxon/lang/json/lib/std/utility.hxx
+++ b/src/cxon/lang/json/lib/std/utility.hxx
@@ -20,7 +20,7 @@ namespace cxon {
                                 read_value<Y>(t.first, i, e, cx) &&
                                     cio::consume<Y>(cio::cnt::sep_read<Y, typename Y::list, II>, i, e, cx) &&
                                 read_value<Y>(t.second, i, e, cx) &&
-                            cio::consume<Y>(Y::list::end, i, e, cx)
+                            cio::cnt::consume_end<Y, typename Y::list>(i, e, cx)
                     ;
                 }
         };
diff --git a/src/cxon/lang/json/lib/std/variant.hxx b/src/cxon/lang/json/lib/std/variant.hxx
index f5898b5..8ede4b1 100644
--- a/src/cxon/lang/json/lib/std/variant.hxx
+++ b/src/cxon/lang/json/lib/std/variant.hxx
@@ -54,7 +54,7 @@ namespace cxon {
             {
                 return  cio::consume<X>(X::map::beg, i, e, cx) &&
                             variant_<X, V, II, Cx>::read(t, i, e, cx) &&
-                        cio::consume<X>(X::map::end, i, e, cx)
+                        cio::cnt::consume_end<X, typename X::map>(i, e, cx)
                 ;
             }
         template <typename X, typename V, typename II, typename Cx>
-- 
2.43.0


From 60f821050fb118f4c42a7d9d4ae84231858488ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:29 +0000
Subject: [PATCH 52/59] fix: keep the delimiters of strings in the pairs and
 tuples that are map keys (C16)

---
 src/cxon/lang/json/lib/std/tuple.hxx   |  4 ++--
 src/cxon/lang/json/lib/std/utility.hxx | 10 ++++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/cxon/lang/json/lib/std/tuple.hxx b/src/cxon/lang/json/lib/std/tuple.hxx
index 036072c..63d1d26 100644
--- a/src/cxon/lang/json/lib/std/tuple.hxx
+++ b/src/cxon/lang/json/lib/std/tuple.hxx
@@ -77,7 +77,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = JSON<X>>
                 static bool value(std::tuple<T...>& t, II& i, II e, Cx& cx) {
                     return  cio::consume<Y>(Y::list::beg, i, e, cx) &&
-                                cio::cnt::read_tuple<Y>(t, i, e, cx) &&
+                                cio::cnt::read_tuple<unbind_traits_t<Y, cio::key::quoted_traits>>(t, i, e, cx) &&
                             cio::cnt::consume_end<Y, typename Y::list>(i, e, cx)
                     ;
                 }
@@ -98,7 +98,7 @@ namespace cxon {
             template <typename O, typename Cx, typename Y = JSON<X>>
                 static bool value(O& o, const std::tuple<T...>& t, Cx& cx) {
                     return  cio::poke<Y>(o, Y::list::beg, cx) &&
-                                cio::cnt::write_tuple<Y>(o, t, cx) &&
+                                cio::cnt::write_tuple<unbind_traits_t<Y, cio::key::quoted_traits>>(o, t, cx) &&
                             cio::poke<Y>(o, Y::list::end, cx)
                     ;
                 }
diff --git a/src/cxon/lang/json/lib/std/utility.hxx b/src/cxon/lang/json/lib/std/utility.hxx
index 0b7215d..b39cf89 100644
--- a/src/cxon/lang/json/lib/std/utility.hxx
+++ b/src/cxon/lang/json/lib/std/utility.hxx
@@ -16,10 +16,11 @@ namespace cxon {
         struct read<JSON<X>, std::pair<F, S>> {
             template <typename II, typename Cx, typename Y = JSON<X>>
                 static bool value(std::pair<F, S>& t, II& i, II e, Cx& cx) {
+                    using Z = unbind_traits_t<Y, cio::key::quoted_traits>;
                     return  cio::consume<Y>(Y::list::beg, i, e, cx) &&
-                                read_value<Y>(t.first, i, e, cx) &&
+                                read_value<Z>(t.first, i, e, cx) &&
                                     cio::consume<Y>(cio::cnt::sep_read<Y, typename Y::list, II>, i, e, cx) &&
-                                read_value<Y>(t.second, i, e, cx) &&
+                                read_value<Z>(t.second, i, e, cx) &&
                             cio::cnt::consume_end<Y, typename Y::list>(i, e, cx)
                     ;
                 }
@@ -29,10 +30,11 @@ namespace cxon {
         struct write<JSON<X>, std::pair<F, S>> {
             template <typename O, typename Cx, typename Y = JSON<X>>
                 static bool value(O& o, const std::pair<F, S>& t, Cx& cx) {
+                    using Z = unbind_traits_t<Y, cio::key::quoted_traits>;
                     return  cio::poke<Y>(o, Y::list::beg, cx) &&
-                                write_value<Y>(o, t.first, cx) &&
+                                write_value<Z>(o, t.first, cx) &&
                                     cio::poke<Y>(o, Y::list::sep, cx) &&
-                                write_value<Y>(o, t.second, cx) &&
+                                write_value<Z>(o, t.second, cx) &&
                             cio::poke<Y>(o, Y::list::end, cx)
                     ;
                 }
-- 
2.43.0


From 5721a726b6d4ea2febf1ab4e7f3f44084b02c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:15 +0000
Subject: [PATCH 53/59] fix: skip comments and stop at any white-space when
 skipping values (C16)

---
 src/cxon/lang/common/cio/value.hxx | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/value.hxx b/src/cxon/lang/common/cio/value.hxx
index 1b9e2be..a14fe1d 100644
--- a/src/cxon/lang/common/cio/value.hxx
+++ b/src/cxon/lang/common/cio/value.hxx
@@ -55,6 +55,10 @@ namespace cxon { namespace cio { namespace val {
                             if (!poke(o, *i)) return false;
                             unsigned r = 0;
                             for (++i; i != e; ++i) {
+                                CXON_IF_CONSTEXPR (X::allow_comments) {
+                                    while (*i == '/')
+                                        if (!skip_com_(o, i, e) || i == e) return false;
+                                }
                                 switch (*i) {
                                     case CB:                CXON_POKE(o, *i);
                                                             ++r; break;
@@ -68,6 +72,26 @@ namespace cxon { namespace cio { namespace val {
                             }
                             return false;
                         }
+                    template <typename O, typename II>
+                        static bool skip_com_(O& o, II& i, II e) {
+                            CXON_POKE(o, *i);
+                            if (++i == e) return false;
+                            if (*i == '/') {
+                                for ( ; i != e && *i != '\n'; ++i) CXON_POKE(o, *i);
+                            }
+                            else if (*i == '*') {
+                                CXON_POKE(o, *i);
+                                char p = ' ';
+                                for (++i; i != e && (p != '*' || *i != '/'); ++i) {
+                                    CXON_POKE(o, *i);
+                                    p = *i;
+                                }
+                                if (i == e) return false;
+                                CXON_POKE(o, *i);
+                                ++i;
+                            }
+                            return true;
+                        }
                     template <typename O, typename II>
                         static bool skip_str_(O& o, II& i, II e) {
                             return skip_s_(o, i, e) && (++i, true);
@@ -95,9 +119,12 @@ namespace cxon { namespace cio { namespace val {
                                 if (*i == X::map::sep)      return true;
                                 CXON_IF_CONSTEXPR (X::list::sep != X::map::sep)
                                     if (*i == X::list::sep) return true;
+                                if (chr::is<X>::space(*i))  return true;
+                                CXON_IF_CONSTEXPR (X::allow_comments)
+                                    if (*i == '/') return true;
                                 CXON_POKE(o, *i);
                             }
-                            return false;
+                            return true;
                         }
 #               undef CXON_POKE
             };
-- 
2.43.0


From ab8da6b308cd26b63b70863596290f0c6f7b3628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:50 +0000
Subject: [PATCH 54/59] fix: keep the position of the output when indenting
 (C14)

---
 src/cxon/lang/json/tidy.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxon/lang/json/tidy.hxx b/src/cxon/lang/json/tidy.hxx
index c006265..9446fdd 100644
--- a/src/cxon/lang/json/tidy.hxx
+++ b/src/cxon/lang/json/tidy.hxx
@@ -207,22 +207,22 @@ namespace cxon { namespace json {
                 }
 
             bool append(const char* f, const char* l) {
-                return append([&](out_type o) {
+                return append([&](out_type& o) {
                     return cio::poke(o, f, l);
                 });
             }
             bool append(const char* s, std::size_t n) {
-                return append([&](out_type o) {
+                return append([&](out_type& o) {
                     return cio::poke(o, s, n);
                 });
             }
             bool append(const char* s) {
-                return append([&](out_type o) {
+                return append([&](out_type& o) {
                     return cio::poke(o, s);
                 });
             }
             bool append(unsigned n, char c) {
-                return append([&](out_type o) {
+                return append([&](out_type& o) {
                     return cio::poke(o, n, c);
                 });
             }
-- 
2.43.0


From 420d68cc8d0f60e178445ecaf5f19f67a2d6132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:51 +0000
Subject: [PATCH 55/59] fix: fail to indent when there is no room for the
 indentation (C14)

---
 src/cxon/lang/json/tidy.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/json/tidy.hxx b/src/cxon/lang/json/tidy.hxx
index 9446fdd..86ce856 100644
--- a/src/cxon/lang/json/tidy.hxx
+++ b/src/cxon/lang/json/tidy.hxx
@@ -157,7 +157,9 @@ namespace cxon { namespace json {
                             case '}': case ']':
                                 break;
                             default:
-                                mut(stt::grn),   poke(o_, '\n') && poke(o_, lvl_, pad_);
+                                mut(stt::grn);
+                                if (!poke(o_, '\n') || !poke(o_, lvl_, pad_))
+                                    return false;
                         }
                         break;
                 }
-- 
2.43.0


From 862050ea7d36b927f56c09f489fb6237bfcd6db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:06 +0000
Subject: [PATCH 56/59] fix: limit what nested arrays reserve (C20)

---
 src/cxon/lang/cbor/common/container.hxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index 0ac72d1..331b85e 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -200,6 +200,12 @@ namespace cxon { namespace cbor { namespace cnt {
 
     namespace imp { // value arrays
 
+        // elements may be arrays and announce as much
+        template <typename T>
+            constexpr std::size_t reservable_elements_(std::size_t n) {
+                return std::is_arithmetic<T>::value || n <= 4096 / sizeof(T) ? n : 4096 / sizeof(T) + 1;
+            }
+
         template <typename X, typename T, typename II, typename Cx>
             inline bool read_elements_(T& t, std::size_t n, II& i, II e, Cx& cx) {
                 for ( ; n != 0 && cxon::cnt::element_read<X>(t, i, e, cx); --n) 
@@ -211,7 +217,7 @@ namespace cxon { namespace cbor { namespace cnt {
             inline bool read_array_w_fix_(T& t, II& i, II e, Cx& cx) {
                 std::size_t n;
                 return  read_size_le<X>(n, t.max_size() - size_(t), i, e, cx) &&
-                        cxon::cnt::reserve(t, reservable_(n, i, e)) &&
+                        cxon::cnt::reserve(t, reservable_elements_<typename T::value_type>(reservable_(n, i, e))) &&
                         read_elements_<X>(t, n, i, e, cx)
                 ;
             }
-- 
2.43.0


From 0e4cb0187893c0f26dad7d06cf8ec0c9fb9db2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:06 +0000
Subject: [PATCH 57/59] fix: do not reallocate for each chunk of a string of
 indefinite length (C20)

---
 src/cxon/lang/cbor/common/container.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index 331b85e..b132e2c 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -171,7 +171,7 @@ namespace cxon { namespace cbor { namespace cnt {
             inline bool read_array_b_fix_(T& t, II& i, II e, Cx& cx) {
                 std::size_t n;
                 return  read_size_le<X>(n, t.max_size() - size_(t), i, e, cx) &&
-                        cxon::cnt::reserve(t, size_(t) + reservable_(n, i, e)) &&
+                        (size_(t) != 0 || cxon::cnt::reserve(t, reservable_(n, i, e))) && // not for every chunk
                         read_bytes_<X>(t, n, i, e, cx)
                 ;
             }
-- 
2.43.0


From 37dacdec94fae2383e5a2688375b5a1721b0c712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:14 +0000
Subject: [PATCH 58/59] fix: do not read past the end with strict numbers (C01)

---
 src/cxon/lang/common/cio/numeric.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/numeric.hxx b/src/cxon/lang/common/cio/numeric.hxx
index 95b75a4..cd16c43 100644
--- a/src/cxon/lang/common/cio/numeric.hxx
+++ b/src/cxon/lang/common/cio/numeric.hxx
@@ -60,7 +60,7 @@ namespace cxon { namespace cio { namespace num { // read
             inline auto number_consume_(const char*& i, const char* e)
                 -> enable_if_t<std::is_integral<T>::value, int>
             {
-                char c = *i;
+                char c = peek(i, e);
                     if (is_sign_<T>(c)) goto trap_neg;
                 // trap_pos
                     if (c == '0') return ++i, 1;
-- 
2.43.0


From 3ef001543f07bd4ba7680c3aa2f416833c1804e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:15 +0000
Subject: [PATCH 59/59] fix: leading zeros of negative integers with strict
 numbers (C07)

---
 src/cxon/lang/common/cio/numeric.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxon/lang/common/cio/numeric.hxx b/src/cxon/lang/common/cio/numeric.hxx
index cd16c43..58340b1 100644
--- a/src/cxon/lang/common/cio/numeric.hxx
+++ b/src/cxon/lang/common/cio/numeric.hxx
@@ -69,6 +69,7 @@ namespace cxon { namespace cio { namespace num { // read
                     goto trap_end;
                 trap_neg:
                     c = next(i, e);
+                    if (c == '0') return ++i, 1;
                        if (!chr::is<X>::digit10(c)) return 0;
                     while ( chr::is<X>::digit10(c)) c = next(i, e);
                 trap_end:
-- 
2.43.0

