From 773d7b4cbbe4d0b84add8f5a551b05bb2ad32659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 01/22] fix: accept registered names that begin with a
 dotted-decimal address

---
 lib/uri/uri.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index b64783b..890938e 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -393,7 +393,9 @@ auto ip_literal (rule const& r) {
 
 // host = IP-literal / IPv4address / reg-name
 auto host (rule const& r) {
-  return r.alternative (ip_literal, ipv4address, reg_name)
+  // Every IPv4address is also a reg-name. An alternative for the former would
+  // commit to the dotted-decimal prefix of a host such as "1.2.3.4.com".
+  return r.alternative (ip_literal, reg_name)
     .matched ("IP-literal / IPv4address / reg-name", r);
 }
 constexpr auto hostfn = host;
-- 
2.43.0


From 4df6616243a0d1288b268447638e1754b6a9e287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 02/22] fix: merging drops the last segment of a single-segment
 base path

---
 lib/uri/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 890938e..dc81293 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -745,7 +745,7 @@ struct uri::parts::path merge (uri::parts const& base, uri::parts const& ref) {
   r2.absolute = base.path.absolute;
 
   auto last = std::end (base.path.segments);
-  if (base.path.segments.size () > 1) {
+  if (!base.path.segments.empty ()) {
     std::advance (last, -1);
   }
   auto out = std::back_inserter (r2.segments);
-- 
2.43.0


From 5c0fa1132a73429b9d3ce8bb0630959340a88e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 03/22] fix: removing a trailing dot segment keeps a preceding
 empty segment

---
 lib/uri/uri.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index dc81293..c709b23 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -785,7 +785,7 @@ void parts::path::remove_dot_segments () {
         --outit;
       }
     } else {
-      last_dir = it->empty ();
+      last_dir = false;
       if (outit != it) {
         *outit = *it;
       }
@@ -795,13 +795,8 @@ void parts::path::remove_dot_segments () {
   this->segments.erase (outit, end);
 
   if (last_dir) {
-    if (segments.empty ()) {
-      this->segments.emplace_back ();
-    } else {
-      if (!this->segments.back ().empty ()) {
-        this->segments.emplace_back ();
-      }
-    }
+    // A path that ended with a dot segment names a directory.
+    this->segments.emplace_back ();
   }
 }
 
-- 
2.43.0


From 7d7b19e4f7e60054f3ccaaff2625d1964ae47ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 04/22] fix: classify characters as US-ASCII rather than with
 the locale's <cctype>

---
 include/uri/rule.hpp | 36 +++++++++++++++++++++++++++---------
 lib/uri/uri.cpp      | 10 ++--------
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/include/uri/rule.hpp b/include/uri/rule.hpp
index ebd1b26..0516716 100644
--- a/include/uri/rule.hpp
+++ b/include/uri/rule.hpp
@@ -79,7 +79,6 @@
 #ifndef URI_RULE_HPP
 #define URI_RULE_HPP
 
-#include <cctype>
 #include <functional>
 #include <limits>
 #include <optional>
@@ -91,6 +90,25 @@
 
 namespace uri {
 
+namespace details {
+
+// ABNF's character classes are defined in terms of US-ASCII. The <cctype>
+// functions depend on the locale and may not be passed a negative value.
+constexpr bool is_ascii_digit (char const c) noexcept {
+  return c >= '0' && c <= '9';
+}
+constexpr bool is_ascii_alpha (char const c) noexcept {
+  return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
+}
+constexpr bool is_ascii_hexdig (char const c) noexcept {
+  return is_ascii_digit (c) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f');
+}
+constexpr char ascii_to_lower (char const c) noexcept {
+  return c >= 'A' && c <= 'Z' ? static_cast<char> (c - 'A' + 'a') : c;
+}
+
+}  // end namespace details
+
 class rule {
 public:
   using acceptor_container = std::vector<
@@ -161,8 +179,8 @@ public:
   template <typename Predicate>
   [[nodiscard]] matched_result single_char (Predicate pred) const;
   [[nodiscard]] matched_result single_char (char const c) const {
-    return single_char ([c2 = std::tolower (static_cast<int> (c))] (char d) {
-      return c2 == std::tolower (static_cast<int> (d));
+    return single_char ([c2 = details::ascii_to_lower (c)] (char d) {
+      return c2 == details::ascii_to_lower (d);
     });
   }
 
@@ -326,10 +344,10 @@ inline auto single_char (char const first) {
   return [=] (rule const& r) { return r.single_char (first); };
 }
 inline auto char_range (char const first, char const last) {
-  return [f = std::tolower (static_cast<int> (first)),
-          l = std::tolower (static_cast<int> (last))] (rule const& r) {
+  return [f = details::ascii_to_lower (first),
+          l = details::ascii_to_lower (last)] (rule const& r) {
     return r.single_char ([=] (char const c) {
-      auto const cl = std::tolower (static_cast<int> (c));
+      auto const cl = details::ascii_to_lower (c);
       return cl >= f && cl <= l;
     });
   };
@@ -337,15 +355,15 @@ inline auto char_range (char const first, char const last) {
 
 inline auto alpha (rule const& r) {
   return r.single_char (
-    [] (char const c) { return std::isalpha (static_cast<int> (c)); });
+    [] (char const c) { return details::is_ascii_alpha (c); });
 }
 inline auto digit (rule const& r) {
   return r.single_char (
-    [] (char const c) { return std::isdigit (static_cast<int> (c)); });
+    [] (char const c) { return details::is_ascii_digit (c); });
 }
 inline auto hexdig (rule const& r) {
   return r.single_char (
-    [] (char const c) { return std::isxdigit (static_cast<int> (c)); });
+    [] (char const c) { return details::is_ascii_hexdig (c); });
 }
 
 }  // end namespace uri
diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index c709b23..6a13e91 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -36,13 +36,7 @@ inline auto code_point_range (code_point const first, code_point const last) {
   assert (static_cast<std::underlying_type_t<code_point>> (last) <=
           static_cast<std::underlying_type_t<code_point>> (
             std::numeric_limits<char>::max ()));
-  return [f = std::tolower (static_cast<int> (first)),
-          l = std::tolower (static_cast<int> (last))] (rule const& r) {
-    return r.single_char ([=] (char const c) {
-      auto const cl = std::tolower (static_cast<int> (c));
-      return cl >= f && cl <= l;
-    });
-  };
+  return char_range (static_cast<char> (first), static_cast<char> (last));
 }
 
 inline auto commercial_at (rule const& r) {
@@ -123,7 +117,7 @@ auto sub_delims (rule const& r) {
 auto unreserved (rule const& r) {
   return r.single_char ([] (char const c) {
     auto const cp = static_cast<code_point> (c);
-    return static_cast<bool> (std::isalnum (static_cast<int> (c))) ||
+    return details::is_ascii_alpha (c) || details::is_ascii_digit (c) ||
            cp == code_point::hyphen_minus || cp == code_point::full_stop ||
            cp == code_point::low_line || cp == code_point::tilde;
   });
-- 
2.43.0


From 3a4a413b8b17b0d22062a6497b34767521862cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 05/22] fix: parts are not valid if the path would be read as
 an authority

---
 lib/uri/uri.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 6a13e91..82ae2ac 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -12,6 +12,7 @@
 //===----------------------------------------------------------------------===//
 #include "uri/uri.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <sstream>
 
@@ -843,6 +844,16 @@ bool parts::authority::valid () const noexcept {
   return true;
 }
 
+/// \returns True if the text of the path \p p begins with "//".
+static bool leading_double_slash (struct parts::path const& p) noexcept {
+  auto const num_empty = p.absolute ? std::size_t{1} : std::size_t{2};
+  return p.segments.size () > num_empty &&
+         std::all_of (std::begin (p.segments),
+                      std::begin (p.segments) +
+                        static_cast<std::ptrdiff_t> (num_empty),
+                      [] (std::string_view const s) { return s.empty (); });
+}
+
 bool parts::valid () const noexcept {
   if (!this->scheme.has_value () ||
       !rule{this->scheme.value ()}.concat (schemefn).done ()) {
@@ -854,6 +865,11 @@ bool parts::valid () const noexcept {
   if (!this->path.valid ()) {
     return false;
   }
+  // "If a URI does not contain an authority component, then the path cannot
+  // begin with two slash characters" (RFC 3986 section 3.3).
+  if (!this->authority.has_value () && leading_double_slash (this->path)) {
+    return false;
+  }
   if (this->query.has_value () &&
       !rule{this->query.value ()}.concat (queryfn).done ()) {
     return false;
-- 
2.43.0


From 04291a464dd1093503f070a7fb50ad5f5b6c268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 06/22] fix: repeating a rule that matches empty text
 terminates

---
 include/uri/rule.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/uri/rule.hpp b/include/uri/rule.hpp
index 0516716..23294ed 100644
--- a/include/uri/rule.hpp
+++ b/include/uri/rule.hpp
@@ -250,6 +250,9 @@ rule rule::star (MatchFunction const match, unsigned const min, unsigned const m
     // Remember the corresponding acceptor functions.
     auto const& a = std::get<acceptor_container> (*m);
     acc.insert (acc.end (), a.begin (), a.end ());
+    if (l == 0 && count >= min) {
+      break;  // Further repeats would match the same empty text forever.
+    }
   }
   if (count < min) {
     return {};
-- 
2.43.0


From c782663a0388abf5527290e9fff3e1ef30df4df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 07/22] fix: composing to a string reports memory exhaustion

---
 lib/uri/uri.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 82ae2ac..d067bce 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -1024,6 +1024,8 @@ std::ostream& compose (std::ostream& os, parts const& p) {
 
 std::string compose (parts const& p) {
   std::stringstream result;
+  // Report a failure to grow the buffer rather than return truncated text.
+  result.exceptions (std::ios_base::badbit);
   result << p;
   return result.str ();
 }
-- 
2.43.0


From 51d04ad815d68c45791ef0401dc956b06560f63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 08/22] fix: moving from a percent-decoding iterator yields the
 decoded character

---
 include/uri/pctdecode.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/uri/pctdecode.hpp b/include/uri/pctdecode.hpp
index 7df41f5..336317e 100644
--- a/include/uri/pctdecode.hpp
+++ b/include/uri/pctdecode.hpp
@@ -185,8 +185,9 @@ public:
   }
 
   friend constexpr std::ranges::range_rvalue_reference_t<View> iter_move (
-    iterator const& it) noexcept (noexcept (std::ranges::iter_move (it.pos_))) {
-    return std::ranges::iter_move (it.pos_);
+    iterator const& it) {
+    // The decoded value, not the first character of its encoding.
+    return std::move (*it);
   }
 
   friend constexpr void iter_swap (
-- 
2.43.0


From 1ad75afda5a4e43d30c9e72335ad272e9983f703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 09/22] fix: a UTF-8 code unit that cuts a sequence short is
 not lost

The unit which showed that a sequence was ill-formed was discarded together
with the sequence, so that for example C8 2E produced only U+FFFD.
---
 include/uri/icubaby.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index adc0bf2..0a87bff 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -853,6 +853,7 @@ public:
                       : (0xFFU >> type) & ucu;
     auto const idx = 256U + state_ + type;
     assert (idx < utf8d_.size ());
+    auto const in_sequence = state_ != accept;
     // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
     state_ = utf8d_[idx];
     switch (state_) {
@@ -861,6 +862,10 @@ public:
       well_formed_ = false;
       state_ = accept;
       *(dest++) = replacement_char;
+      if (in_sequence) {
+        // The sequence ended early. This code unit isn't part of it so must be treated as the start of the next.
+        dest = (*this) (code_unit, dest);
+      }
       break;
     default: break;
     }
@@ -1805,6 +1810,10 @@ struct triangulator_intermediate_code_units : public std::integral_constant<std:
 /// \tparam ToEncoding  The destination encoding.
 template <ICUBABY_CONCEPT_UNICODE_CHAR_TYPE ToEncoding>
 struct triangulator_intermediate_code_units<char16_t, ToEncoding> : public std::integral_constant<std::size_t, 2> {};
+/// \brief The maximum number of code units produced when converting from UTF-8.
+/// \tparam ToEncoding  The destination encoding.
+template <ICUBABY_CONCEPT_UNICODE_CHAR_TYPE ToEncoding>
+struct triangulator_intermediate_code_units<char8, ToEncoding> : public std::integral_constant<std::size_t, 2> {};
 
 /// \brief A "triangulator" converts from the \p FromEncoding encoding to the \p ToEncoding encoding via an
 ///        intermediate UTF-32 encoding.
@@ -2068,6 +2077,13 @@ template <> inline constexpr auto max_output_bytes<char16_t, icubaby::char8> = s
 /// \brief The maximum number of bytes produced by a single code-unit being passed to a transcoder consuming UTF-32.
 template <> inline constexpr auto max_output_bytes<char16_t, char32_t> = std::size_t{2};
 
+/// \brief The maximum number of bytes produced by a single code-unit being passed to a transcoder consuming UTF-8.
+///
+/// A code-unit which cuts short a sequence yields REPLACEMENT CHAR followed by a second code-point (which is another
+/// REPLACEMENT CHAR if the code-unit is itself ill-formed or cut short by the end of the input).
+template <> inline constexpr auto max_output_bytes<icubaby::char8, icubaby::char8> = std::size_t{6};
+template <> inline constexpr auto max_output_bytes<icubaby::char8, char32_t> = std::size_t{2};
+
 /// \brief The iterator type of transcode_view.
 template <unicode_input FromEncoding, unicode_char_type ToEncoding, std::ranges::input_range View>
   requires std::ranges::view<View>
-- 
2.43.0


From 04e71d3850670b6bb5fa2f08e0078ad73e2aa55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 10/22] fix: the byte transcoding view's buffer holds
 everything a byte can produce

---
 include/uri/icubaby.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 0a87bff..e6ddfd1 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -2084,6 +2084,14 @@ template <> inline constexpr auto max_output_bytes<char16_t, char32_t> = std::si
 template <> inline constexpr auto max_output_bytes<icubaby::char8, icubaby::char8> = std::size_t{6};
 template <> inline constexpr auto max_output_bytes<icubaby::char8, char32_t> = std::size_t{2};
 
+/// \brief The maximum number of bytes produced by a single byte being passed to a byte transcoder.
+///
+/// Up to four bytes are held back whilst looking for a byte order mark. The worst case comes from 00 00 FE FE: two NULs
+/// followed by two REPLACEMENT CHARs.
+template <> inline constexpr auto max_output_bytes<std::byte, icubaby::char8> = std::size_t{8};
+template <> inline constexpr auto max_output_bytes<std::byte, char16_t> = std::size_t{4};
+template <> inline constexpr auto max_output_bytes<std::byte, char32_t> = std::size_t{4};
+
 /// \brief The iterator type of transcode_view.
 template <unicode_input FromEncoding, unicode_char_type ToEncoding, std::ranges::input_range View>
   requires std::ranges::view<View>
-- 
2.43.0


From 17b833f1fcf89d0f460482426ee28c1ced82e60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 11/22] fix: bytes held back while looking for a BOM are
 neither invented nor lost at the end of input

---
 include/uri/icubaby.hpp | 49 ++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index e6ddfd1..af2a5df 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1224,7 +1224,8 @@ public:
     case states::utf8_bom_byte2:
       buffer_[byte_no (state_)] = value;
       // Start decoding as UTF-8. If we have a complete UTF-8 BOM drop it, otherwise copy the buffer to output.
-      dest = this->run8_start (value != details::boms[boms_index_from_state (state_)][byte_no (state_)], dest);
+      dest = this->run8_start (
+          value != details::boms[boms_index_from_state (state_)][byte_no (state_)] ? byte_no (state_) + 1U : 0U, dest);
       break;
 
     case states::utf16_be_bom_byte1:
@@ -1232,7 +1233,7 @@ public:
       // We either have a complete UTF-16 BE BOM in which case we start transcoding or we default to UTF-8 emitting the
       // bytes consumed so far.
       dest = (value == details::boms[boms_index_from_state (state_)][byte_no (state_)]) ? this->run16_start (dest)
-                                                                                        : this->run8_start (true, dest);
+                                                                                        : this->run8_start (2U, dest);
       break;
 
     case states::utf32_or_16_le_bom_byte2:
@@ -1254,7 +1255,7 @@ public:
         state_ = next_byte (state_);
       } else {
         // Default input encoding. Emit buffer.
-        dest = this->run8_start (true, dest);
+        dest = this->run8_start (byte_no (state_) + 1U, dest);
       }
       break;
 
@@ -1267,7 +1268,7 @@ public:
         state_ = set_run_mode (set_byte (state_, 0));
       } else {
         // Default input encoding. Emit buffer.
-        dest = this->run8_start (true, dest);
+        dest = this->run8_start (byte_no (state_) + 1U, dest);
       }
       break;
 
@@ -1311,10 +1312,14 @@ public:
     if (transcoder_variant_.valueless_by_exception ()) {
       return dest;
     }
+    if (!is_run_mode (state_)) {
+      // The input ended before we could be sure of its encoding.
+      dest = this->end_bom (dest);
+    }
     return std::visit (
-        [this, &dest] (auto& arg) {
+        [&dest] (auto& arg) {
           if constexpr (std::is_same_v<std::decay_t<decltype (arg)>, std::monostate>) {
-            return this->run8_start (state_ != states::start, dest);
+            return dest;
           } else {
             return arg.end_cp (dest);
           }
@@ -1602,7 +1607,7 @@ private:
     } else if (value == std::byte{0x00}) {
       state_ = states::utf32_or_16_be_bom_byte1;
     } else {
-      dest = this->run8_start (true, dest);
+      dest = this->run8_start (1U, dest);
     }
     return dest;
   }
@@ -1610,25 +1615,39 @@ private:
   /// Switches to the run state in which the input has been determined to be UTF-8 encoded.
   ///
   /// \tparam OutputIterator  An output iterator type to which values of type output_type can be written.
-  /// \param copy_buffer  True if the contents of buffer_ should be copied immediately to the output.
+  /// \param count  The number of bytes from buffer_ that should be copied immediately to the output.
   /// \param dest  An output iterator to which the output sequence is written.
   /// \returns  Iterator one past the last element assigned.
   template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (ToEncoding) OutputIterator>
-  [[nodiscard]] OutputIterator run8_start (bool const copy_buffer, OutputIterator dest) noexcept {
+  [[nodiscard]] OutputIterator run8_start (std::size_t const count, OutputIterator dest) noexcept {
     assert (!is_run_mode (state_) && "The FSM should not be in run mode when run8_start is called");
     assert (std::holds_alternative<std::monostate> (transcoder_variant_) &&
             "The variant should hold monostate until the FSM is in run mode");
     auto& trans = transcoder_variant_.template emplace<t8_type> ();
-    if (copy_buffer) {
-      // NOLINTNEXTLINE(llvm-qualified-auto,readability-qualified-auto)
-      auto const first = std::begin (buffer_);
-      (void)std::for_each (first, first + byte_no (state_) + 1,
-                           [&trans, &dest] (std::byte value) { dest = trans (static_cast<char8> (value), dest); });
-    }
+    assert (count <= buffer_.size () && "Can't copy more bytes than the buffer holds");
+    // NOLINTNEXTLINE(llvm-qualified-auto,readability-qualified-auto)
+    auto const first = std::begin (buffer_);
+    (void)std::for_each (first, first + static_cast<std::ptrdiff_t> (count),
+                         [&trans, &dest] (std::byte value) { dest = trans (static_cast<char8> (value), dest); });
     state_ = states::run_8;
     return dest;
   }
 
+  /// Handles the end of the input if it is reached before the encoding has been determined.
+  ///
+  /// \tparam OutputIterator  An output iterator type to which values of type output_type can be written.
+  /// \param dest  An output iterator to which the output sequence is written.
+  /// \returns  Iterator one past the last element assigned.
+  template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (ToEncoding) OutputIterator>
+  [[nodiscard]] OutputIterator end_bom (OutputIterator dest) noexcept {
+    if (state_ == states::utf32_or_16_le_bom_byte2) {
+      // A complete UTF-16 LE BOM and nothing else.
+      return this->run16_start (dest);
+    }
+    // Emit just the bytes that have been held back.
+    return this->run8_start (byte_no (state_), dest);
+  }
+
   /// Switches to the run state in which the input has been determined to be UTF-16 encoded.
   ///
   /// \tparam OutputIterator  An output iterator type to which values of type output_type can be written.
-- 
2.43.0


From ceacd76f478a01923dce2aedfd2d6c5614a270d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 12/22] fix: FF FE 00 xx is UTF-16 LE unless xx is zero

---
 include/uri/icubaby.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index af2a5df..2ba3635 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1260,6 +1260,16 @@ public:
       break;
 
     case states::utf32_le_bom_byte3:
+      if (value != std::byte{0x00}) {
+        // This isn't a UTF-32 LE BOM but a UTF-16 run whose first code unit has a low byte of zero.
+        dest = this->run16_start (dest);
+        buffer_[0] = std::byte{0x00};
+        state_ = states::run_16le_byte1;
+        dest = this->run16 (value, dest);
+        break;
+      }
+      [[fallthrough]];
+
     case states::utf32_be_bom_byte3:
       assert (byte_no (state_) == 3);
       buffer_[3] = value;
@@ -1644,6 +1654,12 @@ private:
       // A complete UTF-16 LE BOM and nothing else.
       return this->run16_start (dest);
     }
+    if (state_ == states::utf32_le_bom_byte3) {
+      // A complete UTF-16 LE BOM and the first byte of a code unit.
+      dest = this->run16_start (dest);
+      state_ = states::run_16le_byte1;
+      return dest;
+    }
     // Emit just the bytes that have been held back.
     return this->run8_start (byte_no (state_), dest);
   }
-- 
2.43.0


From b5eeda788a4079386e89b02d6fcc6f933ec2e8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 13/22] fix: a UTF-16 or UTF-32 code unit cut off by the end of
 a byte stream is ill-formed

---
 include/uri/icubaby.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 2ba3635..39dcdb0 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1326,7 +1326,7 @@ public:
       // The input ended before we could be sure of its encoding.
       dest = this->end_bom (dest);
     }
-    return std::visit (
+    dest = std::visit (
         [&dest] (auto& arg) {
           if constexpr (std::is_same_v<std::decay_t<decltype (arg)>, std::monostate>) {
             return dest;
@@ -1335,6 +1335,16 @@ public:
           }
         },
         transcoder_variant_);
+    if (byte_no (state_) != 0) {
+      // The input ended part way through a code unit: pass on a value that is always ill-formed.
+      if (auto* const utf16_input = std::get_if<t16_type> (&transcoder_variant_)) {
+        dest = (*utf16_input) (static_cast<char16_t> (first_low_surrogate), dest);
+      } else if (auto* const utf32_input = std::get_if<t32_type> (&transcoder_variant_)) {
+        dest = (*utf32_input) (first_low_surrogate, dest);
+      }
+      state_ = set_byte (state_, 0);
+    }
+    return dest;
   }
 
   /// \brief Call once the entire input sequence has been fed to operator().
@@ -1782,7 +1792,7 @@ constexpr bool transcoder<std::byte, ToEncoding>::partial () const noexcept {
         if constexpr (std::is_same_v<std::decay_t<decltype (arg)>, std::monostate>) {
           return this->state_ != states::start;
         } else {
-          return arg.partial ();
+          return arg.partial () || byte_no (this->state_) != 0;
         }
       },
       transcoder_variant_);
-- 
2.43.0


From 3412a6171fd4979348ac585422ced27d1e34e32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 14/22] fix: a transcoding view that has nothing left to
 produce is at its end

---
 include/uri/icubaby.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 39dcdb0..55d3f0a 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -2295,7 +2295,8 @@ constexpr std::ranges::iterator_t<View const> transcode_view<FromEncoding, ToEnc
   }
   first_ = std::uint_least8_t{0};
   last_ = static_cast<std::uint_least8_t> (out_it - out_begin);
-  return result;
+  // If there was nothing left to produce then we're at the end of the view.
+  return this->empty () ? next_ : result;
 }
 
 /// \brief The sentinel type of transcode_view when the underlying view is not a common_range.
-- 
2.43.0


From 29e534e6a6d8218531d7b200bab0332b5ade8d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 15/22] fix: the top byte of a little-endian UTF-32 code unit
 is not ignored

---
 include/uri/icubaby.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 55d3f0a..533fd1d 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1773,7 +1773,7 @@ private:
   /// \returns A native-endian 32 bit value.
   [[nodiscard]] constexpr char32_t char32_from_little_endian_buffer (input_type const value) const noexcept {
     return static_cast<char32_t> (
-        (static_cast<std::uint_least32_t> (value << 24U)) | (static_cast<std::uint_least32_t> (buffer_[2]) << 16U) |
+        (static_cast<std::uint_least32_t> (value) << 24U) | (static_cast<std::uint_least32_t> (buffer_[2]) << 16U) |
         (static_cast<std::uint_least32_t> (buffer_[1]) << 8U) | (static_cast<std::uint_least32_t> (buffer_[0])));
   }
 };
-- 
2.43.0


From 08cd8f43a57ff02a64ca1a80ecd75a5f1bccbe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 16/22] fix: find_last steps back correctly in views whose
 iterators are input iterators to the classic library

---
 include/uri/find_last.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/uri/find_last.hpp b/include/uri/find_last.hpp
index 6df5272..c099e02 100644
--- a/include/uri/find_last.hpp
+++ b/include/uri/find_last.hpp
@@ -54,7 +54,7 @@ constexpr std::ranges::subrange<Iterator> find_last_bidi (Iterator const first,
     auto const end = std::ranges::next (rb.base (), last);
     return {end, end};
   }
-  auto const result = std::ranges::subrange<Iterator>{std::prev (rb.base ()), last};
+  auto const result = std::ranges::subrange<Iterator>{std::ranges::prev (rb.base ()), last};
 #ifndef NDEBUG
   auto const forward_result = details::find_last_forward (first, last, value, proj);
   assert (forward_result.begin () == result.begin ());
-- 
2.43.0


From cc780b87021326a4e69108534dda50f562d16d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:57 +0000
Subject: [PATCH 17/22] fix: uri-split fails when a file cannot be read

---
 tools/uri-split/uri-split.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/uri-split/uri-split.cpp b/tools/uri-split/uri-split.cpp
index cd9a04e..a04c5f2 100644
--- a/tools/uri-split/uri-split.cpp
+++ b/tools/uri-split/uri-split.cpp
@@ -46,6 +46,10 @@ bool read_stream (std::istream& is) {
               << "\n query: " << value_or_none (r->query)
               << "\n fragment: " << value_or_none (r->fragment) << '\n';
   }
+  if (is.bad ()) {
+    std::cerr << "Error: couldn't read the input\n";
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 58339ed59dd7eedd5ca46de1138d041d4c44ab99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:11 +0000
Subject: [PATCH 18/22] fix: front() of a percent-decoding view does not refer
 to a dead iterator

---
 include/uri/pctdecode.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/uri/pctdecode.hpp b/include/uri/pctdecode.hpp
index 336317e..78e0668 100644
--- a/include/uri/pctdecode.hpp
+++ b/include/uri/pctdecode.hpp
@@ -157,14 +157,17 @@ public:
     return std::move (pos_);
   }
 
-  constexpr std::ranges::range_reference_t<View> operator* () const {
+  // Returns by value: a decoded character lives nowhere but in the iterator,
+  // which may be gone before the result is used (front() of the view).
+  constexpr std::ranges::range_value_t<View> operator* () const {
     return details::deref<std::ranges::range_reference_t<View>> (
       pos_, std::ranges::end (parent_->base_), &hex_);
   }
   constexpr std::ranges::iterator_t<View> operator->() const
     requires std::copyable<std::ranges::iterator_t<View>>
   {
-    return &(**this);
+    return &details::deref<std::ranges::range_reference_t<View>> (
+      pos_, std::ranges::end (parent_->base_), &hex_);
   }
 
   constexpr iterator& operator++ () {
@@ -184,10 +187,10 @@ public:
     return x.pos_ == y.pos_;
   }
 
-  friend constexpr std::ranges::range_rvalue_reference_t<View> iter_move (
+  friend constexpr std::ranges::range_value_t<View> iter_move (
     iterator const& it) {
     // The decoded value, not the first character of its encoding.
-    return std::move (*it);
+    return *it;
   }
 
   friend constexpr void iter_swap (
-- 
2.43.0


From 0d31e397f5d0ebb05a2303fc669dd8d91b552b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:41 +0000
Subject: [PATCH 19/22] fix: transcode_view iterators compare by position and
 find the end of single-pass input

---
 include/uri/icubaby.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 533fd1d..e2e62a9 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -2169,6 +2169,9 @@ public:
   /// \brief Returns the underlying view
   constexpr std::ranges::iterator_t<View> base () && { return std::move (current_); }
 
+  /// \returns True if the iterator has reached the end of the view.
+  [[nodiscard]] constexpr bool at_end () const noexcept { return state_.empty (); }
+
   constexpr value_type const& operator* () const { return state_.front (); }
   constexpr std::ranges::iterator_t<View> operator->() const { return state_.front (); }
 
@@ -2190,7 +2193,14 @@ public:
   friend constexpr bool operator== (iterator const& lhs, iterator const& rhs)
     requires std::equality_comparable<std::ranges::iterator_t<View>>
   {
-    return lhs.current_ == rhs.current_ && lhs.parent_ == rhs.parent_;
+    if (lhs.parent_ != rhs.parent_) {
+      return false;
+    }
+    // The input is consumed ahead of the output, so an iterator is at the end once it has no output left.
+    if (lhs.state_.empty () || rhs.state_.empty ()) {
+      return lhs.state_.empty () == rhs.state_.empty ();
+    }
+    return lhs.current_ == rhs.current_ && lhs.state_.position () == rhs.state_.position ();
   }
 
 private:
@@ -2219,6 +2229,9 @@ private:
       return out_[first_];
     }
 
+    /// Returns the position of the first remaining element amongst the code units forming the current code point.
+    [[nodiscard]] constexpr auto position () const noexcept { return static_cast<std::uint_least8_t> (first_); }
+
     /// Removes the first element from the range of code units forming the current code point.
     constexpr void advance () noexcept {
       assert (!this->empty () && "The out_ array must not be empty when advance() is called");
@@ -2278,6 +2291,10 @@ constexpr std::ranges::iterator_t<View const> transcode_view<FromEncoding, ToEnc
   auto const out_begin = out_.begin ();
   auto out_it = out_begin;
   auto const input_end = std::ranges::end (parent->base_);
+  if (next_ == input_end) {
+    // The whole input, including the transcoder's final output, has already been produced.
+    return next_;
+  }
   // Loop until we've produced a code-point's worth of code-units in the out
   // container or we've run out of input.
   while (out_it == out_begin && next_ != input_end) {
@@ -2310,7 +2327,7 @@ public:
   /// \returns The underlying view's end sentinel
   constexpr std::ranges::sentinel_t<View> base () const { return end_; }
   /// \brief Compares and iterator and sentinal for equality.
-  friend constexpr bool operator== (iterator const& lhs, sentinel const& rhs) { return lhs.base () == rhs.end_; }
+  friend constexpr bool operator== (iterator const& lhs, [[maybe_unused]] sentinel const& rhs) { return lhs.at_end (); }
 
 private:
   std::ranges::sentinel_t<View> end_{};  ///< The underlying view's end sentinel
-- 
2.43.0


From 720810fcad24f48f4ebb63136bdaa13a18e71d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:33 +0000
Subject: [PATCH 20/22] fix: uri-split fails when standard input cannot be read

---
 tools/uri-split/uri-split.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/uri-split/uri-split.cpp b/tools/uri-split/uri-split.cpp
index a04c5f2..366e81d 100644
--- a/tools/uri-split/uri-split.cpp
+++ b/tools/uri-split/uri-split.cpp
@@ -58,6 +58,10 @@ bool read_stream (std::istream& is) {
 int main (int argc, char const* argv[]) {
   int exit_code = EXIT_SUCCESS;
   try {
+    // Unless it has a buffer of its own, std::cin treats a read error as the end
+    // of the input.
+    std::ios_base::sync_with_stdio (false);
+
     if (argc == 1) {
       return read_stream (std::cin) ? EXIT_SUCCESS : EXIT_FAILURE;
     }
-- 
2.43.0


From a23cd927fd169365a80090e8b658280f6861111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:33 +0000
Subject: [PATCH 21/22] fix: uri-split fails when its output cannot be written

---
 tools/uri-split/uri-split.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/uri-split/uri-split.cpp b/tools/uri-split/uri-split.cpp
index 366e81d..227ef32 100644
--- a/tools/uri-split/uri-split.cpp
+++ b/tools/uri-split/uri-split.cpp
@@ -50,6 +50,10 @@ bool read_stream (std::istream& is) {
     std::cerr << "Error: couldn't read the input\n";
     return false;
   }
+  if (!std::cout.flush ()) {
+    std::cerr << "Error: couldn't write the output\n";
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 784bdea399c1aa8d41f08f3cded5ea42d5bb235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:08 +0000
Subject: [PATCH 22/22] fix: UTF-8 transcoder: leave nothing pending after
 end_cp()

---
 include/uri/icubaby.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index e2e62a9..6ad8a06 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -881,7 +881,7 @@ public:
   template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (output_type) OutputIterator>
   constexpr OutputIterator end_cp (OutputIterator dest) {
     if (state_ != accept) {
-      state_ = reject;
+      state_ = accept;
       *(dest++) = replacement_char;
       well_formed_ = false;
     }
-- 
2.43.0

