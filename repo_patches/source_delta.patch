From 0bf18f892ae0af086a08b56031de8c8e23c09144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:14 +0000
Subject: [PATCH 01/41] fix: expected<T&, E> loses the error or the reference
 when switching from value to error

Assigning an unexpected to a value-holding expected<T&, E> cleared the flag
without constructing the error, and a throwing error constructor overwrote the
stored pointer while the object still claimed to hold a value.
---
 include/fitoria/core/expected.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/core/expected.hpp b/include/fitoria/core/expected.hpp
index 9ed1d42..954591a 100644
--- a/include/fitoria/core/expected.hpp
+++ b/include/fitoria/core/expected.hpp
@@ -1627,6 +1627,19 @@ class expected<T&, E> {
       || std::is_constructible_v<unexpected<E>, const expected<U, G>&>
       || std::is_constructible_v<unexpected<E>, const expected<U, G>>;
 
+  template <typename... Args>
+  constexpr void construct_error(Args&&... args)
+  {
+    auto* valptr = this->valptr_;
+    try {
+      std::construct_at(std::addressof(this->err_),
+                        std::forward<Args>(args)...);
+    } catch (...) {
+      this->valptr_ = valptr;
+      throw;
+    }
+  }
+
 public:
   static_assert(!std::is_same_v<std::remove_cvref_t<T>, std::in_place_t>);
   static_assert(!std::is_same_v<std::remove_cvref_t<T>, unexpect_t>);
@@ -1783,7 +1796,7 @@ public:
       if (other) {
         this->valptr_ = other.valptr_;
       } else {
-        std::construct_at(std::addressof(this->err_), other.error());
+        this->construct_error(other.error());
         this->has_ = false;
       }
     } else {
@@ -1813,7 +1826,7 @@ public:
       if (other) {
         this->valptr_ = other.valptr_;
       } else {
-        std::construct_at(std::addressof(this->err_), std::move(other.error()));
+        this->construct_error(std::move(other.error()));
         this->has_ = false;
       }
     } else {
@@ -1856,6 +1869,7 @@ public:
              && std::is_assignable_v<E&, const G&>)
   {
     if (has_value()) {
+      this->construct_error(other.error());
       this->has_ = false;
     } else {
       this->err_ = other.error();
@@ -1869,6 +1883,7 @@ public:
     requires(std::is_constructible_v<E, G> && std::is_assignable_v<E&, G>)
   {
     if (has_value()) {
+      this->construct_error(std::move(other.error()));
       this->has_ = false;
     } else {
       this->err_ = std::move(other.error());
@@ -2188,7 +2203,7 @@ public:
         swap(this->valptr_, other.valptr_);
       } else {
         auto* valptr = this->valptr_;
-        std::construct_at(std::addressof(this->err_), std::move(other.err_));
+        this->construct_error(std::move(other.err_));
         std::destroy_at(std::addressof(other.err_));
         other.valptr_ = valptr;
         std::swap(this->has_, other.has_);
@@ -2196,7 +2211,7 @@ public:
     } else {
       if (other.has_value()) {
         auto* valptr = other.valptr_;
-        std::construct_at(std::addressof(other.err_), std::move(this->err_));
+        other.construct_error(std::move(this->err_));
         std::destroy_at(std::addressof(this->err_));
         this->valptr_ = valptr;
         std::swap(this->has_, other.has_);
-- 
2.43.0


From 823b43279ebdf3eafbe9900a315594f547829310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 02/41] fix: optional<void>::transform discards the result of
 the function

---
 include/fitoria/core/optional.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index c8e9db1..216bcf7 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -669,8 +669,12 @@ public:
   {
     using U = std::remove_cv_t<std::invoke_result_t<F>>;
     if (has_value()) {
-      std::forward<F>(f)();
-      return optional<U>(std::in_place);
+      if constexpr (std::is_void_v<U>) {
+        std::invoke(std::forward<F>(f));
+        return optional<U>(std::in_place);
+      } else {
+        return optional<U>(std::invoke(std::forward<F>(f)));
+      }
     } else {
       return optional<U>();
     }
-- 
2.43.0


From 274adb3f25190157f360d942904aba04fbe5d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 03/41] fix: optional<T&> keeps its old reference when assigned
 from an empty optional of another type

---
 include/fitoria/core/optional.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index 216bcf7..80ac9b9 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -777,6 +777,8 @@ public:
 
     if (other) {
       this->valptr_ = std::addressof(*other);
+    } else {
+      this->valptr_ = nullptr;
     }
 
     return *this;
-- 
2.43.0


From e32743896ea289c89997f412c3f77d1ca69d1640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 04/41] fix: three-way comparison of optionals dereferences
 empty optionals

---
 include/fitoria/core/optional.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index 80ac9b9..f4e67b7 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -1020,7 +1020,11 @@ template <typename T, std::three_way_comparable_with<T> U>
 constexpr std::compare_three_way_result_t<T, U>
 operator<=>(const optional<T>& lhs, const optional<U>& rhs)
 {
-  return *lhs <=> *rhs;
+  if (lhs.has_value() && rhs.has_value()) {
+    return *lhs <=> *rhs;
+  }
+
+  return lhs.has_value() <=> rhs.has_value();
 }
 
 template <typename T>
-- 
2.43.0


From f118b6e034e35ec9c8e5ddff8dd99366750932d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 05/41] fix: optional and value comparison with > and >= is
 wrong for unordered values

---
 include/fitoria/core/optional.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index f4e67b7..4b83819 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -1100,28 +1100,28 @@ template <typename T, typename U>
 constexpr bool operator>(const optional<T>& opt, const U& val)
   requires(!std::is_void_v<T> && !std::is_same_v<U, nullopt_t>)
 {
-  return !(opt <= val);
+  return opt && *opt > val;
 }
 
 template <typename T, typename U>
 constexpr bool operator>(const T& val, const optional<U>& opt)
   requires(!std::is_same_v<T, nullopt_t> && !std::is_void_v<U>)
 {
-  return !(val <= opt);
+  return !opt || val > *opt;
 }
 
 template <typename T, typename U>
 constexpr bool operator>=(const optional<T>& opt, const U& val)
   requires(!std::is_void_v<T> && !std::is_same_v<U, nullopt_t>)
 {
-  return !(opt < val);
+  return opt && *opt >= val;
 }
 
 template <typename T, typename U>
 constexpr bool operator>=(const T& val, const optional<U>& opt)
   requires(!std::is_same_v<T, nullopt_t> && !std::is_void_v<U>)
 {
-  return !(val < opt);
+  return !opt || val >= *opt;
 }
 
 template <typename T>
-- 
2.43.0


From c250329f014bc52038e2426222aacbac7c30b167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:30 +0000
Subject: [PATCH 06/41] fix: base64 decoder reads outside its table for
 non-ASCII chars

---
 include/fitoria/encoding/base64/decoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/encoding/base64/decoder.hpp b/include/fitoria/encoding/base64/decoder.hpp
index 3515df2..69b079f 100644
--- a/include/fitoria/encoding/base64/decoder.hpp
+++ b/include/fitoria/encoding/base64/decoder.hpp
@@ -150,7 +150,7 @@ private:
   template <typename Byte>
   static std::size_t s(Byte byte) noexcept
   {
-    return static_cast<std::size_t>(byte);
+    return static_cast<std::uint8_t>(byte);
   }
 
   state state_ = state::s0;
-- 
2.43.0


From fe8a7a00c6536859ff875514d52803932991e631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:30 +0000
Subject: [PATCH 07/41] fix: base64 decoder accepts a group with incomplete
 padding

---
 include/fitoria/encoding/base64/decoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/encoding/base64/decoder.hpp b/include/fitoria/encoding/base64/decoder.hpp
index 69b079f..972cc04 100644
--- a/include/fitoria/encoding/base64/decoder.hpp
+++ b/include/fitoria/encoding/base64/decoder.hpp
@@ -40,7 +40,7 @@ public:
 
   bool is_done() const noexcept
   {
-    return !is_error() && state_ != state::s1;
+    return !is_error() && state_ != state::s1 && state_ != state::end1;
   }
 
   template <typename InputIt, typename OutputIt>
-- 
2.43.0


From 3c23d936f3fd6d0dc5fa673f51f2033f409e4f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:30 +0000
Subject: [PATCH 08/41] fix: entity_tag rejects obs-text and accepts DEL in
 opaque tags

---
 include/fitoria/http/header/entity_tag.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/http/header/entity_tag.hpp b/include/fitoria/http/header/entity_tag.hpp
index 40a470a..f6cefa0 100644
--- a/include/fitoria/http/header/entity_tag.hpp
+++ b/include/fitoria/http/header/entity_tag.hpp
@@ -173,7 +173,8 @@ public:
 private:
   static auto is_valid_char(char c) noexcept -> bool
   {
-    return c >= 0x21 && c != '\"';
+    const auto u = static_cast<unsigned char>(c);
+    return u >= 0x21 && u != 0x22 && u != 0x7f;
   }
 
   bool strong_;
-- 
2.43.0


From ab5fc0fae8e5fe0f2fe01c82dc8dab3bc8aab774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:30 +0000
Subject: [PATCH 09/41] fix: range arithmetic wraps around for suffixes and
 offsets beyond the size

---
 include/fitoria/http/header/range.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/http/header/range.hpp b/include/fitoria/http/header/range.hpp
index a981173..4e96ae7 100644
--- a/include/fitoria/http/header/range.hpp
+++ b/include/fitoria/http/header/range.hpp
@@ -15,6 +15,9 @@
 #include <fitoria/core/optional.hpp>
 #include <fitoria/core/strings.hpp>
 
+#include <algorithm>
+#include <cstdint>
+#include <limits>
 #include <string>
 #include <string_view>
 #include <vector>
@@ -164,9 +167,11 @@ public:
     }
 
     if (unit[1].starts_with("-")) {
-      if (auto suffix = from_string<std::uint64_t>(unit[1].substr(1)); suffix) {
+      if (auto suffix = from_string<std::uint64_t>(unit[1].substr(1));
+          suffix && *suffix > 0 && total_length > 0) {
+        const auto length = std::min(*suffix, total_length);
         return range(std::string(unit[0]),
-                     { { total_length - *suffix, *suffix } });
+                     { { total_length - length, length } });
       }
     } else {
       if (auto subranges = parse_subranges(unit[1], total_length); subranges) {
@@ -189,12 +194,13 @@ private:
     for (auto& token : tokens) {
       if (auto subrange = split_of(token, "-"); subrange.size() == 2) {
         auto start = from_string<std::uint64_t>(subrange[0]);
-        if (subrange[1].empty() && start) {
+        if (subrange[1].empty() && start && *start < total_length) {
           subranges.push_back(subrange_t { *start, total_length - *start });
           continue;
         }
         auto end = from_string<std::uint64_t>(subrange[1]);
-        if (start && end && *start <= *end) {
+        if (start && end && *start <= *end
+            && *end < std::numeric_limits<std::uint64_t>::max()) {
           subranges.push_back(subrange_t { *start, *end - *start + 1 });
           continue;
         }
-- 
2.43.0


From 639111bc1a5616ddd06063b0b74aad81341a17d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 10/41] fix: if_none_match splits the list at commas inside
 entity tags

---
 include/fitoria/http/header/if_none_match.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/fitoria/http/header/if_none_match.hpp b/include/fitoria/http/header/if_none_match.hpp
index dc49bac..f0fc03b 100644
--- a/include/fitoria/http/header/if_none_match.hpp
+++ b/include/fitoria/http/header/if_none_match.hpp
@@ -120,14 +120,23 @@ public:
     }
 
     std::vector<entity_tag> etags;
-    auto tokens = split_of(input, ",");
-    for (auto& token : tokens) {
-      auto etag = entity_tag::parse(token);
+    for (auto more = true; more;) {
+      // a comma between quotes is part of the opaque tag
+      auto pos = std::size_t(0);
+      for (auto quoted = false;
+           pos < input.size() && (quoted || input[pos] != ',');
+           ++pos) {
+        quoted = quoted != (input[pos] == '\"');
+      }
+
+      auto etag = entity_tag::parse(trim(input.substr(0, pos)));
       if (!etag) {
         return nullopt;
       }
 
       etags.push_back(std::move(*etag));
+      more = pos < input.size();
+      input.remove_prefix(more ? pos + 1 : pos);
     }
 
     return if_none_match(std::move(etags));
-- 
2.43.0


From c4da5a57e9ac9036903e741f8fdf9331b2d58c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 11/41] fix: mime_view rejects dots in type names and
 parameters (RFC 6838 restricted-name)

---
 include/fitoria/mime/mime_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/mime/mime_view.hpp b/include/fitoria/mime/mime_view.hpp
index 40aa08a..eae57b2 100644
--- a/include/fitoria/mime/mime_view.hpp
+++ b/include/fitoria/mime/mime_view.hpp
@@ -341,7 +341,7 @@ private:
 
     return std::all_of(str.begin(), str.end(), [](char c) {
       return std::isalnum(c) || c == '!' || c == '#' || c == '$' || c == '&'
-          || c == '-' || c == '^' || c == '_';
+          || c == '-' || c == '^' || c == '_' || c == '.';
     });
   }
 
-- 
2.43.0


From 6833b1d9dcde1016408f1da2b683b480376e4b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:39 +0000
Subject: [PATCH 12/41] fix: path_parser takes literal text for a duplicate of
 the wildcard name

---
 include/fitoria/web/path_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/web/path_parser.hpp b/include/fitoria/web/path_parser.hpp
index 63a009c..3177f3a 100644
--- a/include/fitoria/web/path_parser.hpp
+++ b/include/fitoria/web/path_parser.hpp
@@ -138,7 +138,7 @@ private:
                                             std::string value)
   {
     for (auto& token : tokens_) {
-      if (value == token.value) {
+      if (token.kind != path_token_kind::static_ && value == token.value) {
         return false;
       }
     }
-- 
2.43.0


From 4c6dab6654a8bb4d4e26e6398cfe8840b32119d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:53 +0000
Subject: [PATCH 13/41] fix: router loses routes when inserting a prefix of
 several existing ones

---
 include/fitoria/web/router.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/fitoria/web/router.hpp b/include/fitoria/web/router.hpp
index b4b5bb4..83dd566 100644
--- a/include/fitoria/web/router.hpp
+++ b/include/fitoria/web/router.hpp
@@ -75,18 +75,19 @@ public:
         }
       }
 
-      for (std::size_t i = 0; i < statics_.size(); ++i) {
-        if (statics_[i].prefix_.starts_with(token)) {
-          auto n = node(token);
-          statics_[i].prefix_.erase(0, token.size());
-          n.statics_.push_back(std::move(statics_[i]));
-          std::swap(n, statics_[i]);
-          return statics_[i].try_insert(std::move(route), token_index + 1);
+      auto n = node(token);
+      for (auto it = statics_.begin(); it != statics_.end();) {
+        if (it->prefix_.starts_with(token)) {
+          it->prefix_.erase(0, token.size());
+          n.statics_.push_back(std::move(*it));
+          it = statics_.erase(it);
+        } else {
+          ++it;
         }
       }
 
-      return statics_.emplace_back(token).try_insert(std::move(route),
-                                                     token_index + 1);
+      return statics_.emplace_back(std::move(n))
+          .try_insert(std::move(route), token_index + 1);
     }
 
     auto try_insert_param(route_type route,
-- 
2.43.0


From 4aaca9c2b151301cd9783b854dbbfa30af75fa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:27 +0000
Subject: [PATCH 14/41] fix: path_matcher treats literal text as a regex, and
 parameter names and values too narrowly

---
 include/fitoria/web/path_matcher.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/fitoria/web/path_matcher.hpp b/include/fitoria/web/path_matcher.hpp
index 72b0409..9314c34 100644
--- a/include/fitoria/web/path_matcher.hpp
+++ b/include/fitoria/web/path_matcher.hpp
@@ -59,10 +59,11 @@ public:
   {
     if (boost::smatch match; boost::regex_match(input, match, regex_)) {
       std::vector<std::pair<std::string, std::string>> matches;
-      for (auto token : tokens_) {
+      int index = 0;
+      for (auto& token : tokens_) {
         if (token.kind == path_token_kind::param
             || token.kind == path_token_kind::wildcard) {
-          matches.emplace_back(token.value, match[token.value].str());
+          matches.emplace_back(token.value, match[++index].str());
         }
       }
 
@@ -78,17 +79,16 @@ private:
     std::string regex;
     for (auto& token : tokens) {
       if (token.kind == path_token_kind::static_) {
-        regex += token.value;
+        for (auto c : token.value) {
+          if (std::string_view("$()*+.").find(c) != std::string_view::npos) {
+            regex += '\\';
+          }
+          regex += c;
+        }
       } else if (token.kind == path_token_kind::param) {
-        // {name} => (?<name>pattern)
-        regex += "(?<";
-        regex += token.value;
-        regex += ">[^{}/]+)";
+        regex += "([^/]+)";
       } else if (token.kind == path_token_kind::wildcard) {
-        // {name} => (?<name>pattern)
-        regex += "(?<";
-        regex += token.value;
-        regex += ">.*)";
+        regex += "(.*)";
       }
     }
 
-- 
2.43.0


From f7d8de50229d08c1a5b954897af7c6f1186efd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:27 +0000
Subject: [PATCH 15/41] fix: router matches a parameter with an empty segment,
 which the matcher then refuses

---
 include/fitoria/web/router.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/router.hpp b/include/fitoria/web/router.hpp
index 83dd566..b630b1e 100644
--- a/include/fitoria/web/router.hpp
+++ b/include/fitoria/web/router.hpp
@@ -148,7 +148,9 @@ public:
         -> expected<const route_type&, std::error_code>
     {
       if (params_) {
-        if (auto pos = path.find('/'); pos != std::string_view::npos) {
+        if (auto pos = path.find('/'); pos == 0) {
+          return unexpected { make_error_code(error::route_not_exists) };
+        } else if (pos != std::string_view::npos) {
           return params_->try_find(method, path.substr(pos));
         }
         return params_->try_find(method, std::string_view());
-- 
2.43.0


From 41b97681cbd50b35eb96731db504e84f69f05942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 16/41] fix: dynamic_buffer::prepare returns memory outside the
 container after compaction

---
 include/fitoria/core/dynamic_buffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fitoria/core/dynamic_buffer.hpp b/include/fitoria/core/dynamic_buffer.hpp
index 0e98691..100a535 100644
--- a/include/fitoria/core/dynamic_buffer.hpp
+++ b/include/fitoria/core/dynamic_buffer.hpp
@@ -132,6 +132,7 @@ public:
       container_.resize(woffset_ + n);
     } else if (n <= (limit_ - size())) {
       compress();
+      container_.resize(woffset_ + n);
     } else {
       FITORIA_THROW_OR(std::length_error("dynamic_buffer too large"),
                        std::terminate());
-- 
2.43.0


From 56869fe8f35560ac0dff019ac4d2392ebd2ac36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 17/41] fix: dynamic_buffer::consume and commit wrap around for
 huge sizes

---
 include/fitoria/core/dynamic_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/core/dynamic_buffer.hpp b/include/fitoria/core/dynamic_buffer.hpp
index 100a535..6294e40 100644
--- a/include/fitoria/core/dynamic_buffer.hpp
+++ b/include/fitoria/core/dynamic_buffer.hpp
@@ -114,7 +114,7 @@ public:
   /// @endverbatim
   void consume(std::size_t n)
   {
-    roffset_ = std::min(roffset_ + n, woffset_);
+    roffset_ += std::min(n, size());
     if (roffset_ == woffset_) {
       roffset_ = 0;
       woffset_ = 0;
@@ -148,7 +148,7 @@ public:
   /// @endverbatim
   void commit(std::size_t n)
   {
-    woffset_ = std::min(woffset_ + n, container_.size());
+    woffset_ += std::min(n, container_.size() - woffset_);
   }
 
   /// @verbatim embed:rst:leading-slashes
-- 
2.43.0


From dca5ecaef5b0bb6f6442d0cf254dda54cf9f85b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 18/41] fix: dynamic_buffer reports readable bytes after
 release although it no longer has any

---
 include/fitoria/core/dynamic_buffer.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/core/dynamic_buffer.hpp b/include/fitoria/core/dynamic_buffer.hpp
index 6294e40..09d6bdc 100644
--- a/include/fitoria/core/dynamic_buffer.hpp
+++ b/include/fitoria/core/dynamic_buffer.hpp
@@ -14,6 +14,7 @@
 #include <fitoria/core/net.hpp>
 
 #include <iterator>
+#include <utility>
 
 FITORIA_NAMESPACE_BEGIN
 
@@ -194,7 +195,9 @@ public:
   {
     compress();
     container_.resize(size());
-    return std::move(container_);
+    roffset_ = 0;
+    woffset_ = 0;
+    return std::exchange(container_, Container());
   }
 
 private:
-- 
2.43.0


From 408711f41d70c4f2a4c793a4788017d7999c5ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:32 +0000
Subject: [PATCH 19/41] fix: query_map::set does not update an existing element

---
 include/fitoria/web/query_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/web/query_map.hpp b/include/fitoria/web/query_map.hpp
index 0c7950f..a33c9ce 100644
--- a/include/fitoria/web/query_map.hpp
+++ b/include/fitoria/web/query_map.hpp
@@ -122,7 +122,7 @@ public:
   /// @endverbatim
   void set(std::string name, std::string value)
   {
-    map_.insert({ std::move(name), std::move(value) });
+    map_.insert_or_assign(std::move(name), std::move(value));
   }
 
   /// @verbatim embed:rst:leading-slashes
-- 
2.43.0


From e841527142a4823256bcd2a80e8a52583f2d1a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:32 +0000
Subject: [PATCH 20/41] fix: plus is not decoded as a space in urlencoded forms

---
 include/fitoria/web/detail/as_form.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/detail/as_form.hpp b/include/fitoria/web/detail/as_form.hpp
index b8c385a..6ebba4c 100644
--- a/include/fitoria/web/detail/as_form.hpp
+++ b/include/fitoria/web/detail/as_form.hpp
@@ -28,7 +28,9 @@ inline expected<query_map, std::error_code> as_form(std::string_view text)
     return unexpected { res.error() };
   }
 
-  auto params = static_cast<boost::urls::params_view>(*res);
+  boost::urls::encoding_opts opts;
+  opts.space_as_plus = true;
+  auto params = boost::urls::params_view(res->buffer(), opts);
 
   query_map map;
   for (auto kv : params) {
-- 
2.43.0


From e8c92885079dba8caf5d22523214ac559c1ffa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:15 +0000
Subject: [PATCH 21/41] fix: expected assigns bitwise elements that cannot be
 constructed or destroyed so

---
 include/fitoria/core/expected.hpp | 40 +++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/include/fitoria/core/expected.hpp b/include/fitoria/core/expected.hpp
index 954591a..3cc2383 100644
--- a/include/fitoria/core/expected.hpp
+++ b/include/fitoria/core/expected.hpp
@@ -429,7 +429,9 @@ public:
   = default;
 
   constexpr expected& operator=(const expected& other)
-    requires(!(std::is_trivially_copy_assignable_v<T>
+    requires(!(std::is_trivially_copy_constructible_v<T>
+               && std::is_trivially_copy_assignable_v<T>
+               && std::is_trivially_copy_constructible_v<E>
                && std::is_trivially_copy_assignable_v<E>)
              && std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>
              && std::is_copy_constructible_v<E> && std::is_copy_assignable_v<E>
@@ -456,7 +458,9 @@ public:
   }
 
   constexpr expected& operator=(const expected&)
-    requires(std::is_trivially_copy_assignable_v<T>
+    requires(std::is_trivially_copy_constructible_v<T>
+             && std::is_trivially_copy_assignable_v<T>
+             && std::is_trivially_copy_constructible_v<E>
              && std::is_trivially_copy_assignable_v<E>)
   = default;
 
@@ -465,7 +469,9 @@ public:
       && std::is_nothrow_move_assignable_v<T>
       && std::is_nothrow_move_constructible_v<E>
       && std::is_nothrow_move_assignable_v<E>)
-    requires(!(std::is_trivially_move_assignable_v<T>
+    requires(!(std::is_trivially_move_constructible_v<T>
+               && std::is_trivially_move_assignable_v<T>
+               && std::is_trivially_move_constructible_v<E>
                && std::is_trivially_move_assignable_v<E>)
              && std::is_move_constructible_v<T> && std::is_move_assignable_v<T>
              && std::is_move_constructible_v<E> && std::is_move_assignable_v<E>
@@ -492,7 +498,9 @@ public:
   }
 
   constexpr expected& operator=(expected&&)
-    requires(std::is_trivially_move_assignable_v<T>
+    requires(std::is_trivially_move_constructible_v<T>
+             && std::is_trivially_move_assignable_v<T>
+             && std::is_trivially_move_constructible_v<E>
              && std::is_trivially_move_assignable_v<E>)
   = default;
 
@@ -1181,7 +1189,8 @@ public:
   = default;
 
   constexpr expected& operator=(const expected& other)
-    requires(!std::is_trivially_copy_assignable_v<E>
+    requires(!(std::is_trivially_copy_constructible_v<E>
+               && std::is_trivially_copy_assignable_v<E>)
              && std::is_copy_constructible_v<E> && std::is_copy_assignable_v<E>)
   {
     if (has_value()) {
@@ -1202,13 +1211,15 @@ public:
   }
 
   constexpr expected& operator=(const expected&)
-    requires(std::is_trivially_copy_assignable_v<E>)
+    requires(std::is_trivially_copy_constructible_v<E>
+             && std::is_trivially_copy_assignable_v<E>)
   = default;
 
   constexpr expected&
   operator=(expected&& other) noexcept(std::is_nothrow_move_constructible_v<E>
                                        && std::is_nothrow_move_assignable_v<E>)
-    requires(!std::is_trivially_move_assignable_v<E>
+    requires(!(std::is_trivially_move_constructible_v<E>
+               && std::is_trivially_move_assignable_v<E>)
              && std::is_move_constructible_v<E> && std::is_move_assignable_v<E>)
   {
     if (has_value()) {
@@ -1229,7 +1240,8 @@ public:
   }
 
   constexpr expected& operator=(expected&&)
-    requires(std::is_trivially_move_assignable_v<E>)
+    requires(std::is_trivially_move_constructible_v<E>
+             && std::is_trivially_move_assignable_v<E>)
   = default;
 
   template <typename G>
@@ -1789,7 +1801,8 @@ public:
   = default;
 
   constexpr expected& operator=(const expected& other)
-    requires(!std::is_trivially_copy_assignable_v<E>
+    requires(!(std::is_trivially_copy_constructible_v<E>
+               && std::is_trivially_copy_assignable_v<E>)
              && std::is_copy_constructible_v<E> && std::is_copy_assignable_v<E>)
   {
     if (has_value()) {
@@ -1813,13 +1826,15 @@ public:
   }
 
   constexpr expected& operator=(const expected&)
-    requires(std::is_trivially_copy_assignable_v<E>)
+    requires(std::is_trivially_copy_constructible_v<E>
+             && std::is_trivially_copy_assignable_v<E>)
   = default;
 
   constexpr expected&
   operator=(expected&& other) noexcept(std::is_nothrow_move_constructible_v<E>
                                        && std::is_nothrow_move_assignable_v<E>)
-    requires(!std::is_trivially_move_assignable_v<E>
+    requires(!(std::is_trivially_move_constructible_v<E>
+               && std::is_trivially_move_assignable_v<E>)
              && std::is_move_constructible_v<E> && std::is_move_assignable_v<E>)
   {
     if (has_value()) {
@@ -1843,7 +1858,8 @@ public:
   }
 
   constexpr expected& operator=(expected&&)
-    requires(std::is_trivially_move_assignable_v<E>)
+    requires(std::is_trivially_move_constructible_v<E>
+             && std::is_trivially_move_assignable_v<E>)
   = default;
 
   template <typename U = T>
-- 
2.43.0


From 8d94657804042f7d8a7dd5f4914de4f8649e8aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:35 +0000
Subject: [PATCH 22/41] fix: request_builder::set_body and set_json build the
 request twice and lose its parts

---
 include/fitoria/web/request.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/web/request.hpp b/include/fitoria/web/request.hpp
index a9ae7d5..244635e 100644
--- a/include/fitoria/web/request.hpp
+++ b/include/fitoria/web/request.hpp
@@ -410,8 +410,7 @@ public:
   /// @endverbatim
   auto set_body(std::string_view sv) -> request
   {
-    set_body(std::as_bytes(std::span(sv.begin(), sv.end())));
-    return build();
+    return set_body(std::as_bytes(std::span(sv.begin(), sv.end())));
   }
 
   /// @verbatim embed:rst:leading-slashes
@@ -444,8 +443,7 @@ public:
   {
     auto str = boost::json::serialize(jv);
     set_header(http::field::content_type, mime::application_json());
-    set_body(std::as_bytes(std::span(str.begin(), str.end())));
-    return build();
+    return set_body(std::as_bytes(std::span(str.begin(), str.end())));
   }
 
   /// @verbatim embed:rst:leading-slashes
-- 
2.43.0


From 188e999d0d12d45bb6e4536dda4d37a4b3a02463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:47 +0000
Subject: [PATCH 23/41] fix: use_state changes the states of the scope or route
 it was derived from

---
 include/fitoria/web/scope.hpp         | 2 +-
 include/fitoria/web/state_storage.hpp | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/scope.hpp b/include/fitoria/web/scope.hpp
index 1ff3a32..708b2b2 100644
--- a/include/fitoria/web/scope.hpp
+++ b/include/fitoria/web/scope.hpp
@@ -51,7 +51,7 @@ public:
     using state_type = std::decay_t<State>;
     static_assert(std::copy_constructible<state_type>);
 
-    auto state_map = state_map_;
+    auto state_map = std::make_shared<web::state_map>(*state_map_);
     (*state_map)[std::type_index(typeid(state_type))]
         = std::any(std::forward<State>(state));
 
diff --git a/include/fitoria/web/state_storage.hpp b/include/fitoria/web/state_storage.hpp
index 56dbb80..aa8a00a 100644
--- a/include/fitoria/web/state_storage.hpp
+++ b/include/fitoria/web/state_storage.hpp
@@ -52,6 +52,8 @@ public:
     auto copy = *this;
     if (copy.maps_.empty()) {
       copy.maps_.push_back(std::make_shared<state_map>());
+    } else {
+      copy.maps_.front() = std::make_shared<state_map>(*copy.maps_.front());
     }
     (*copy.maps_.front())[ti] = std::move(obj);
 
-- 
2.43.0


From 2805f89845b93218dad39e6320294d4daec585b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:54 +0000
Subject: [PATCH 24/41] fix: do not send a body in responses to HEAD and in
 1xx, 204 and 304 responses

A response to a HEAD request was followed by its body and 304 responses could
carry one too, so that a client on a persistent connection took the body for
the beginning of the next response.
---
 include/fitoria/web/http_server.hpp | 49 ++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index a119e23..4ac10bf 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -413,7 +413,8 @@ private:
               = web::response::bad_request()
                     .set_header(http::field::content_type, mime::text_plain())
                     .set_body("request headers size exceeds limit");
-          co_return co_await do_response(stream, res, false);
+          co_return co_await do_response(
+              stream, parser->get().method(), res, false);
         } else {
           co_return unexpected { bytes_read.error() };
         }
@@ -488,7 +489,9 @@ private:
           co_return unexpected { result.error() };
         }
       } else {
-        if (auto exp = co_await do_response(stream, res, keep_alive); !exp) {
+        if (auto exp = co_await do_response(
+                stream, parser->get().method(), res, keep_alive);
+            !exp) {
           co_return unexpected { exp.error() };
         }
       }
@@ -502,18 +505,31 @@ private:
   }
 
   template <typename Stream>
-  auto do_response(Stream& stream, response& res, bool keep_alive) const
+  auto do_response(Stream& stream,
+                   http::verb method,
+                   response& res,
+                   bool keep_alive) const
       -> awaitable<expected<void, std::error_code>>
   {
+    // these responses never have a body, RFC 9112 section 6.3
+    if (res.status().category() == http::status_class::informational
+        || res.status().value() == http::status::no_content
+        || res.status().value() == http::status::not_modified) {
+      co_return co_await do_null_body_response(stream, res, keep_alive);
+    }
+
+    const bool header_only = method == http::verb::head;
     co_return co_await std::visit(
         overloaded { [&](any_body::null) {
                       return do_null_body_response(stream, res, keep_alive);
                     },
                      [&](any_body::sized) {
-                       return do_sized_response(stream, res, keep_alive);
+                       return do_sized_response(
+                           stream, res, keep_alive, header_only);
                      },
                      [&](any_body::chunked) {
-                       return do_chunked_response(stream, res, keep_alive);
+                       return do_chunked_response(
+                           stream, res, keep_alive, header_only);
                      } },
         res.body().size());
   }
@@ -534,7 +550,8 @@ private:
     // boost.beast incorrectly handle some cases
     // https://datatracker.ietf.org/doc/html/rfc7230#section-3.3.2
     if (res.status().category() == http::status_class::informational
-        || res.status().value() == http::status::no_content) {
+        || res.status().value() == http::status::no_content
+        || res.status().value() == http::status::not_modified) {
       r.content_length(boost::none);
     }
 
@@ -542,10 +559,14 @@ private:
   }
 
   template <typename Stream>
-  auto do_sized_response(Stream& stream, response& res, bool keep_alive) const
+  auto do_sized_response(Stream& stream,
+                         response& res,
+                         bool keep_alive,
+                         bool header_only) const
       -> awaitable<expected<void, std::error_code>>
   {
     using boost::beast::http::response;
+    using boost::beast::http::response_serializer;
     using boost::beast::http::vector_body;
 
     auto r = response<vector_body<std::byte>>(
@@ -560,11 +581,19 @@ private:
     r.keep_alive(keep_alive);
     r.prepare_payload();
 
+    if (header_only) {
+      auto ser = response_serializer<vector_body<std::byte>>(r);
+      co_return co_await async_write_header(stream, ser, use_awaitable);
+    }
+
     co_return co_await async_write(stream, r, use_awaitable);
   }
 
   template <typename Stream>
-  auto do_chunked_response(Stream& stream, response& res, bool keep_alive) const
+  auto do_chunked_response(Stream& stream,
+                           response& res,
+                           bool keep_alive,
+                           bool header_only) const
       -> awaitable<expected<void, std::error_code>>
   {
     using boost::beast::http::empty_body;
@@ -584,6 +613,10 @@ private:
       co_return unexpected { result.error() };
     }
 
+    if (header_only) {
+      co_return expected<void, std::error_code>();
+    }
+
     co_return co_await async_write_chunks(stream, res.body().stream());
   }
 
-- 
2.43.0


From 14536233b527a1d4ecb11894ea6f32a63e020f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:11 +0000
Subject: [PATCH 25/41] fix: do not expect a body in the response to a HEAD
 test request

---
 include/fitoria/web/test_utils.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fitoria/web/test_utils.hpp b/include/fitoria/web/test_utils.hpp
index a312221..5ca28fd 100644
--- a/include/fitoria/web/test_utils.hpp
+++ b/include/fitoria/web/test_utils.hpp
@@ -154,6 +154,7 @@ auto do_http_request(Stream stream, std::string path, test_request& req)
 
   auto buffer = std::make_shared<flat_buffer>();
   auto parser = std::make_shared<response_parser<buffer_body>>();
+  parser->skip(req.method() == http::verb::head);
   if (auto bytes_read
       = co_await async_read_header(stream, *buffer, *parser, use_awaitable);
       !bytes_read) {
-- 
2.43.0


From 8da8839d2afd06c7d942b56395f4744be7056220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:11 +0000
Subject: [PATCH 26/41] fix: do not end a chunked body at an empty piece of a
 stream

---
 include/fitoria/web/async_write_chunks.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fitoria/web/async_write_chunks.hpp b/include/fitoria/web/async_write_chunks.hpp
index b0586d0..1bf6f7a 100644
--- a/include/fitoria/web/async_write_chunks.hpp
+++ b/include/fitoria/web/async_write_chunks.hpp
@@ -34,6 +34,10 @@ auto async_write_chunks(AsyncWritableStream&& to, AsyncReadableStream&& from)
        data = co_await from.async_read_some()) {
     auto& d = *data;
     if (d) {
+      if (d->empty()) {
+        // an empty chunk would be taken for the last chunk
+        continue;
+      }
       if (auto result = co_await async_write(
               to, make_chunk(net::buffer(*d)), use_awaitable);
           !result) {
-- 
2.43.0


From fdfb0f75229a5cfbb5818588622eaba2f65e1dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:11 +0000
Subject: [PATCH 27/41] fix: do not send an empty body when reading the body
 fails with eof

A stream ends by yielding nullopt; eof is an error such as that of an upstream
connection which is cut, after which the bytes read so far were dropped and the
message was sent as if it were complete.
---
 include/fitoria/web/http_server.hpp | 2 +-
 include/fitoria/web/test_utils.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 4ac10bf..208444f 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -575,7 +575,7 @@ private:
     if (auto data = co_await async_read_until_eof<bytes>(res.body().stream());
         data) {
       r.body() = std::move(*data);
-    } else if (data.error() != make_error_code(net::error::eof)) {
+    } else {
       co_return unexpected { data.error() };
     }
     r.keep_alive(keep_alive);
diff --git a/include/fitoria/web/test_utils.hpp b/include/fitoria/web/test_utils.hpp
index 5ca28fd..024dd2f 100644
--- a/include/fitoria/web/test_utils.hpp
+++ b/include/fitoria/web/test_utils.hpp
@@ -66,7 +66,7 @@ auto do_sized_request(Stream& stream, std::string path, test_request& tr)
   if (auto data = co_await async_read_until_eof<bytes>(tr.body().stream());
       data) {
     req.body() = std::move(*data);
-  } else if (data.error() != make_error_code(net::error::eof)) {
+  } else {
     co_return unexpected { data.error() };
   }
   req.prepare_payload();
-- 
2.43.0


From 8a845f8739365bd556e804d8579d935d416f388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:26 +0000
Subject: [PATCH 28/41] fix: skip the part of the request body which the
 handler left unread

It was taken for the next request on the connection.
---
 include/fitoria/web/http_server.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 208444f..10aaa45 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -499,6 +499,17 @@ private:
       if (!keep_alive) {
         break;
       }
+
+      // what the handler left unread of the body is not the next request
+      if (!upgrade && !parser->is_done()) {
+        auto body = async_message_parser_stream(buffer, stream, parser);
+        for (auto data = co_await body.async_read_some(); data;
+             data = co_await body.async_read_some()) {
+          if (!*data) {
+            co_return unexpected { data->error() };
+          }
+        }
+      }
     }
 
     co_return expected<void, std::error_code>();
-- 
2.43.0


From fbe6ef169a930faa0a95662420e28b3a93c02949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:29 +0000
Subject: [PATCH 29/41] fix: do not send chunked transfer coding to HTTP/1.0
 clients

---
 include/fitoria/web/http_server.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 10aaa45..85c443e 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -413,8 +413,7 @@ private:
               = web::response::bad_request()
                     .set_header(http::field::content_type, mime::text_plain())
                     .set_body("request headers size exceeds limit");
-          co_return co_await do_response(
-              stream, parser->get().method(), res, false);
+          co_return co_await do_response(stream, parser->get(), res, false);
         } else {
           co_return unexpected { bytes_read.error() };
         }
@@ -490,7 +489,7 @@ private:
         }
       } else {
         if (auto exp = co_await do_response(
-                stream, parser->get().method(), res, keep_alive);
+                stream, parser->get(), res, keep_alive);
             !exp) {
           co_return unexpected { exp.error() };
         }
@@ -515,9 +514,9 @@ private:
     co_return expected<void, std::error_code>();
   }
 
-  template <typename Stream>
+  template <typename Stream, typename Request>
   auto do_response(Stream& stream,
-                   http::verb method,
+                   const Request& req,
                    response& res,
                    bool keep_alive) const
       -> awaitable<expected<void, std::error_code>>
@@ -529,7 +528,9 @@ private:
       co_return co_await do_null_body_response(stream, res, keep_alive);
     }
 
-    const bool header_only = method == http::verb::head;
+    const bool header_only = req.method() == http::verb::head;
+    // chunked transfer coding is unknown to HTTP/1.0 clients
+    const bool allow_chunked = req.version() >= 11;
     co_return co_await std::visit(
         overloaded { [&](any_body::null) {
                       return do_null_body_response(stream, res, keep_alive);
@@ -539,8 +540,11 @@ private:
                            stream, res, keep_alive, header_only);
                      },
                      [&](any_body::chunked) {
-                       return do_chunked_response(
-                           stream, res, keep_alive, header_only);
+                       return allow_chunked
+                           ? do_chunked_response(
+                                 stream, res, keep_alive, header_only)
+                           : do_sized_response(
+                                 stream, res, keep_alive, header_only);
                      } },
         res.body().size());
   }
-- 
2.43.0


From 4e2556bb4a61b0af4ad800a7cee485084057443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 30/41] fix: default exception handler lets other exceptions
 end the event loop

An exception which is not derived from std::exception left the handler, and
with it io_context::run().
---
 include/fitoria/web/http_server.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 85c443e..a50f725 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -645,6 +645,8 @@ private:
         std::rethrow_exception(ptr);
       } catch (const std::exception& ex) {
         log::debug("[{}] exception: {}", name(), ex.what());
+      } catch (...) {
+        log::debug("[{}] unknown exception", name());
       }
     }
   }
-- 
2.43.0


From 6e665a3d9fd377a32fa5d5d54f738811bfaf1629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 31/41] Restore the test client as it was

---
 include/fitoria/web/test_utils.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/fitoria/web/test_utils.hpp b/include/fitoria/web/test_utils.hpp
index 024dd2f..a312221 100644
--- a/include/fitoria/web/test_utils.hpp
+++ b/include/fitoria/web/test_utils.hpp
@@ -66,7 +66,7 @@ auto do_sized_request(Stream& stream, std::string path, test_request& tr)
   if (auto data = co_await async_read_until_eof<bytes>(tr.body().stream());
       data) {
     req.body() = std::move(*data);
-  } else {
+  } else if (data.error() != make_error_code(net::error::eof)) {
     co_return unexpected { data.error() };
   }
   req.prepare_payload();
@@ -154,7 +154,6 @@ auto do_http_request(Stream stream, std::string path, test_request& req)
 
   auto buffer = std::make_shared<flat_buffer>();
   auto parser = std::make_shared<response_parser<buffer_body>>();
-  parser->skip(req.method() == http::verb::head);
   if (auto bytes_read
       = co_await async_read_header(stream, *buffer, *parser, use_awaitable);
       !bytes_read) {
-- 
2.43.0


From d5c33c04a8e293d6229f5e24a4a2e378c42679ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 32/41] fix: do not end a file body early when the file became
 shorter

The stream knows how many bytes remain, so the end of the file before that is an
error; it was reported as the regular end of the body, hence as a complete but
shorter response.
---
 include/fitoria/web/async_readable_file_stream.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/fitoria/web/async_readable_file_stream.hpp b/include/fitoria/web/async_readable_file_stream.hpp
index 2e3a46a..a883118 100644
--- a/include/fitoria/web/async_readable_file_stream.hpp
+++ b/include/fitoria/web/async_readable_file_stream.hpp
@@ -79,8 +79,6 @@ public:
       buffer.resize(*result);
       remaining_ -= *result;
       co_return buffer;
-    } else if (result.error() == net::error::eof) {
-      co_return nullopt;
     } else {
       co_return unexpected { result.error() };
     }
-- 
2.43.0


From 51690987d51ebfae13d24fb565bcc68a8cf1f632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 33/41] fix: do not lose compressed output which does not fit
 the first buffer

The deflate, gzip and brotli streams wrote into one buffer per piece and ignored
input and output left over, so that incompressible or large bodies gave streams
which were incomplete.
---
 .../detail/async_brotli_deflate_stream.hpp    | 49 ++++++-------
 .../detail/async_deflate_stream.hpp           | 72 +++++++++----------
 .../detail/async_gzip_deflate_stream.hpp      | 71 +++++++++---------
 3 files changed, 89 insertions(+), 103 deletions(-)

diff --git a/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp b/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
index 1d7e165..5f8568e 100644
--- a/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
@@ -139,20 +139,7 @@ public:
 
       finish_ = true;
 
-      auto buffer = dynamic_buffer<bytes>();
-      auto writable = buffer.prepare(65536);
-
-      auto p = broti_params(nullptr, 0, writable.data(), writable.size());
-
-      auto ec = deflater_.write(p, brotli_encoder_operation::finish);
-
-      FITORIA_ASSERT(ec != brotli_error::need_more_output);
-      if (ec) {
-        co_return unexpected { ec };
-      }
-
-      buffer.commit(writable.size() - p.avail_out);
-      co_return buffer.release();
+      co_return deflate(nullptr, 0, brotli_encoder_operation::finish);
     }
 
     auto& readable = *data;
@@ -163,25 +150,35 @@ public:
       co_return bytes();
     }
 
+    co_return deflate(readable->data(),
+                      readable->size(),
+                      brotli_encoder_operation::process);
+  }
+
+private:
+  auto deflate(const void* data, std::size_t size, brotli_encoder_operation op)
+      -> expected<bytes, std::error_code>
+  {
     auto buffer = dynamic_buffer<bytes>();
-    auto writable
-        = buffer.prepare(std::max(readable->size(), std::size_t(65536)));
+    auto p = broti_params(data, size, nullptr, 0);
 
-    auto p = broti_params(
-        readable->data(), readable->size(), writable.data(), writable.size());
+    // the output may be larger than the input: go on until everything which is
+    // pending has been written
+    do {
+      auto writable = buffer.prepare(65536);
+      p.next_out = reinterpret_cast<std::uint8_t*>(writable.data());
+      p.avail_out = writable.size();
 
-    auto ec = deflater_.write(p, brotli_encoder_operation::process);
+      if (auto ec = deflater_.write(p, op); ec) {
+        return unexpected { ec };
+      }
 
-    FITORIA_ASSERT(ec != brotli_error::need_more_output);
-    if (ec) {
-      co_return unexpected { ec };
-    }
+      buffer.commit(writable.size() - p.avail_out);
+    } while (p.avail_in > 0 || p.avail_out == 0);
 
-    buffer.commit(writable.size() - p.avail_out);
-    co_return buffer.release();
+    return buffer.release();
   }
 
-private:
   NextLayer next_;
   brotli_encoder deflater_;
   bool finish_ = false;
diff --git a/include/fitoria/web/middleware/detail/async_deflate_stream.hpp b/include/fitoria/web/middleware/detail/async_deflate_stream.hpp
index dd75801..3ac432f 100644
--- a/include/fitoria/web/middleware/detail/async_deflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_deflate_stream.hpp
@@ -34,9 +34,7 @@ public:
   auto
   async_read_some() -> awaitable<optional<expected<bytes, std::error_code>>>
   {
-    using boost::beast::zlib::error;
     using boost::beast::zlib::Flush;
-    using boost::beast::zlib::z_params;
 
     auto data = co_await next_.async_read_some();
     if (!data) {
@@ -46,28 +44,7 @@ public:
 
       finish_ = true;
 
-      auto buffer = dynamic_buffer<bytes>();
-      auto writable = buffer.prepare(65536);
-
-      auto p = z_params();
-      p.next_in = nullptr;
-      p.avail_in = 0;
-      p.next_out = writable.data();
-      p.avail_out = writable.size();
-
-      boost::system::error_code ec;
-      deflater_.write(p, Flush::finish, ec);
-
-      FITORIA_ASSERT(ec != error::need_buffers);
-      if (ec == error::end_of_stream) {
-        ec = {};
-      }
-      if (ec) {
-        co_return unexpected { ec };
-      }
-
-      buffer.commit(writable.size() - p.avail_out);
-      co_return buffer.release();
+      co_return deflate(nullptr, 0, Flush::finish);
     }
 
     auto& readable = *data;
@@ -78,28 +55,45 @@ public:
       co_return bytes();
     }
 
-    auto buffer = dynamic_buffer<bytes>();
-    auto writable
-        = buffer.prepare(std::max(readable->size(), std::size_t(65536)));
+    co_return deflate(readable->data(), readable->size(), Flush::none);
+  }
 
+private:
+  auto deflate(const void* data,
+               std::size_t size,
+               boost::beast::zlib::Flush flush)
+      -> expected<bytes, std::error_code>
+  {
+    using boost::beast::zlib::error;
+    using boost::beast::zlib::z_params;
+
+    auto buffer = dynamic_buffer<bytes>();
     auto p = z_params();
-    p.next_in = readable->data();
-    p.avail_in = readable->size();
-    p.next_out = writable.data();
-    p.avail_out = writable.size();
+    p.next_in = data;
+    p.avail_in = size;
+
+    // the output may be larger than the input: go on until everything which is
+    // pending has been written
+    do {
+      auto writable = buffer.prepare(65536);
+      p.next_out = writable.data();
+      p.avail_out = writable.size();
 
-    boost::system::error_code ec;
-    deflater_.write(p, Flush::none, ec);
+      boost::system::error_code ec;
+      deflater_.write(p, flush, ec);
+      if (ec && ec != error::end_of_stream && ec != error::need_buffers) {
+        return unexpected { ec };
+      }
 
-    if (ec) {
-      co_return unexpected { ec };
-    }
+      buffer.commit(writable.size() - p.avail_out);
+      if (ec) {
+        break;
+      }
+    } while (p.avail_in > 0 || p.avail_out == 0);
 
-    buffer.commit(writable.size() - p.avail_out);
-    co_return buffer.release();
+    return buffer.release();
   }
 
-private:
   NextLayer next_;
   boost::beast::zlib::deflate_stream deflater_;
   bool finish_ = false;
diff --git a/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp b/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp
index 2f3b57b..5555c0b 100644
--- a/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp
@@ -37,9 +37,7 @@ public:
   auto
   async_read_some() -> awaitable<optional<expected<bytes, std::error_code>>>
   {
-    using boost::beast::zlib::error;
     using boost::beast::zlib::Flush;
-    using boost::beast::zlib::z_params;
 
     auto data = co_await next_.async_read_some();
     if (!data) {
@@ -49,28 +47,7 @@ public:
 
       finish_ = true;
 
-      auto buffer = dynamic_buffer<bytes>();
-      auto writable = buffer.prepare(65536);
-
-      auto p = z_params();
-      p.next_in = nullptr;
-      p.avail_in = 0;
-      p.next_out = writable.data();
-      p.avail_out = writable.size();
-
-      boost::system::error_code ec;
-      deflater_.write(p, Flush::finish, ec);
-
-      FITORIA_ASSERT(ec != error::need_buffers);
-      if (ec == error::end_of_stream) {
-        ec = {};
-      }
-      if (ec) {
-        co_return unexpected { ec };
-      }
-
-      buffer.commit(writable.size() - p.avail_out);
-      co_return buffer.release();
+      co_return deflate(nullptr, 0, Flush::finish);
     }
 
     auto& readable = *data;
@@ -81,25 +58,43 @@ public:
       co_return bytes();
     }
 
-    auto buffer = dynamic_buffer<bytes>();
-    auto writable
-        = buffer.prepare(std::max(readable->size(), std::size_t(65536)));
+    co_return deflate(readable->data(), readable->size(), Flush::none);
+  }
 
+private:
+  auto deflate(const void* data,
+               std::size_t size,
+               boost::beast::zlib::Flush flush)
+      -> expected<bytes, std::error_code>
+  {
+    using boost::beast::zlib::error;
+    using boost::beast::zlib::z_params;
+
+    auto buffer = dynamic_buffer<bytes>();
     auto p = z_params();
-    p.next_in = readable->data();
-    p.avail_in = readable->size();
-    p.next_out = writable.data();
-    p.avail_out = writable.size();
+    p.next_in = data;
+    p.avail_in = size;
 
-    boost::system::error_code ec;
-    deflater_.write(p, Flush::none, ec);
+    // the output may be larger than the input: go on until everything which is
+    // pending has been written
+    do {
+      auto writable = buffer.prepare(65536);
+      p.next_out = writable.data();
+      p.avail_out = writable.size();
 
-    if (ec) {
-      co_return unexpected { ec };
-    }
+      boost::system::error_code ec;
+      deflater_.write(p, flush, ec);
+      if (ec && ec != error::end_of_stream && ec != error::need_buffers) {
+        return unexpected { ec };
+      }
+
+      buffer.commit(writable.size() - p.avail_out);
+      if (ec) {
+        break;
+      }
+    } while (p.avail_in > 0 || p.avail_out == 0);
 
-    buffer.commit(writable.size() - p.avail_out);
-    co_return buffer.release();
+    return buffer.release();
   }
 
   NextLayer next_;
-- 
2.43.0


From fc96b1d80a4cf0bf3d652755a95a8bebb3ab1741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 34/41] fix: detect the end of compressed bodies

Bodies which were cut were delivered as complete, bytes after the end of the
compressed data made the stream loop forever, and a piece whose output filled
the buffer exactly was reported as an error.
---
 .../detail/async_brotli_inflate_stream.hpp      | 15 ++++++++++++++-
 .../detail/async_gzip_inflate_stream.hpp        | 17 ++++++++++++++++-
 .../middleware/detail/async_inflate_stream.hpp  | 17 ++++++++++++++++-
 3 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
index db49e94..5b433a4 100644
--- a/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
@@ -106,6 +106,9 @@ public:
   {
     auto data = co_await next_.async_read_some();
     if (!data) {
+      if (started_ && !finished_) {
+        co_return unexpected { make_error_code(brotli_error::need_more_input) };
+      }
       co_return nullopt;
     }
 
@@ -115,6 +118,10 @@ public:
     if ((*data)->empty()) {
       co_return bytes();
     }
+    if (finished_) {
+      co_return unexpected { make_error_code(brotli_error::error) };
+    }
+    started_ = true;
 
     auto readable = dynamic_buffer<bytes>(std::move(**data));
 
@@ -130,6 +137,7 @@ public:
                             writable.size());
 
       auto ec = inflater_.write(p);
+      finished_ = !ec;
       if (ec == brotli_error::need_more_input
           || ec == brotli_error::need_more_output) {
         ec = {};
@@ -141,7 +149,10 @@ public:
       readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
 
-      if (readable.size() == 0 && p.avail_out > 0) {
+      if (finished_ && readable.size() > 0) {
+        co_return unexpected { make_error_code(brotli_error::error) };
+      }
+      if (finished_ || (readable.size() == 0 && p.avail_out > 0)) {
         break;
       }
     }
@@ -152,6 +163,8 @@ public:
 private:
   NextLayer next_;
   brotli_decoder inflater_;
+  bool started_ = false;
+  bool finished_ = false;
 };
 
 template <typename NextLayer>
diff --git a/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
index c8e5e65..5bcf0f2 100644
--- a/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
@@ -43,6 +43,9 @@ public:
 
     auto data = co_await next_.async_read_some();
     if (!data) {
+      if (started_ && !finished_) {
+        co_return unexpected { make_error_code(error::need_buffers) };
+      }
       co_return nullopt;
     }
 
@@ -52,6 +55,10 @@ public:
     if ((*data)->empty()) {
       co_return bytes();
     }
+    if (finished_) {
+      co_return unexpected { make_error_code(error::general) };
+    }
+    started_ = true;
 
     auto readable = dynamic_buffer<bytes>(std::move(**data));
 
@@ -71,6 +78,9 @@ public:
       inflater_.write(p, Flush::sync, ec);
 
       if (ec == error::end_of_stream) {
+        finished_ = true;
+        ec = {};
+      } else if (ec == error::need_buffers && readable.size() == 0) {
         ec = {};
       }
       if (ec) {
@@ -80,7 +90,10 @@ public:
       readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
 
-      if (readable.size() == 0 && p.avail_out > 0) {
+      if (finished_ && readable.size() > 0) {
+        co_return unexpected { make_error_code(error::general) };
+      }
+      if (finished_ || (readable.size() == 0 && p.avail_out > 0)) {
         break;
       }
     }
@@ -91,6 +104,8 @@ public:
 private:
   NextLayer next_;
   gzip_inflate_stream inflater_;
+  bool started_ = false;
+  bool finished_ = false;
 };
 
 template <typename NextLayer>
diff --git a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
index c97fe43..0b7c19d 100644
--- a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
@@ -40,6 +40,9 @@ public:
 
     auto data = co_await next_.async_read_some();
     if (!data) {
+      if (started_ && !finished_) {
+        co_return unexpected { make_error_code(error::need_buffers) };
+      }
       co_return nullopt;
     }
 
@@ -49,6 +52,10 @@ public:
     if ((*data)->empty()) {
       co_return bytes();
     }
+    if (finished_) {
+      co_return unexpected { make_error_code(error::general) };
+    }
+    started_ = true;
 
     auto readable = dynamic_buffer<bytes>(std::move(**data));
 
@@ -68,6 +75,9 @@ public:
       inflater_.write(p, Flush::sync, ec);
 
       if (ec == error::end_of_stream) {
+        finished_ = true;
+        ec = {};
+      } else if (ec == error::need_buffers && readable.size() == 0) {
         ec = {};
       }
       if (ec) {
@@ -77,7 +87,10 @@ public:
       readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
 
-      if (readable.size() == 0 && p.avail_out > 0) {
+      if (finished_ && readable.size() > 0) {
+        co_return unexpected { make_error_code(error::general) };
+      }
+      if (finished_ || (readable.size() == 0 && p.avail_out > 0)) {
         break;
       }
     }
@@ -88,6 +101,8 @@ public:
 private:
   NextLayer next_;
   boost::beast::zlib::inflate_stream inflater_;
+  bool started_ = false;
+  bool finished_ = false;
 };
 
 template <typename NextLayer>
-- 
2.43.0


From fba688063706729bd836afd57e85375af3139f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:18 +0000
Subject: [PATCH 35/41] fix: find the end of raw deflate bodies exactly

---
 .../detail/async_inflate_stream.hpp           | 39 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
index 0b7c19d..9b44eba 100644
--- a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
@@ -41,7 +41,10 @@ public:
     auto data = co_await next_.async_read_some();
     if (!data) {
       if (started_ && !finished_) {
-        co_return unexpected { make_error_code(error::need_buffers) };
+        if (!is_complete()) {
+          co_return unexpected { make_error_code(error::need_buffers) };
+        }
+        finished_ = true;
       }
       co_return nullopt;
     }
@@ -87,7 +90,7 @@ public:
       readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
 
-      if (finished_ && readable.size() > 0) {
+      if (finished_ && (readable.size() > 0 || unused_bytes(p) > 0)) {
         co_return unexpected { make_error_code(error::general) };
       }
       if (finished_ || (readable.size() == 0 && p.avail_out > 0)) {
@@ -99,6 +102,38 @@ public:
   }
 
 private:
+  // Bytes which were taken from the input but lie behind the end of the stream.
+  static auto unused_bytes(const boost::beast::zlib::z_params& p) noexcept
+      -> std::size_t
+  {
+    return static_cast<std::size_t>(p.data_type & 63) / 8;
+  }
+
+  // The decoder looks ahead more bits than the end-of-block code may have, so
+  // it may not have noticed the end of the stream yet. Complete the last code
+  // with some padding, all of which has to remain unused.
+  auto is_complete() -> bool
+  {
+    using boost::beast::zlib::error;
+    using boost::beast::zlib::Flush;
+    using boost::beast::zlib::z_params;
+
+    const std::byte padding[2] {};
+    std::byte output[1];
+
+    auto p = z_params();
+    p.next_in = padding;
+    p.avail_in = sizeof(padding);
+    p.next_out = output;
+    p.avail_out = sizeof(output);
+
+    boost::system::error_code ec;
+    inflater_.write(p, Flush::sync, ec);
+
+    return ec == error::end_of_stream && p.avail_out == sizeof(output)
+        && p.avail_in + unused_bytes(p) == sizeof(padding);
+  }
+
   NextLayer next_;
   boost::beast::zlib::inflate_stream inflater_;
   bool started_ = false;
-- 
2.43.0


From b05dd2187f3b72736fc66a0818dd46754f781a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:20 +0000
Subject: [PATCH 36/41] fix: write the pending records before an async_logger
 is destroyed

---
 include/fitoria/log/async_logger.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/fitoria/log/async_logger.hpp b/include/fitoria/log/async_logger.hpp
index d2569bf..9efe395 100644
--- a/include/fitoria/log/async_logger.hpp
+++ b/include/fitoria/log/async_logger.hpp
@@ -49,7 +49,7 @@ class async_logger {
   {
     for (;;) {
       auto rec = co_await channel_.async_receive(use_awaitable);
-      if (!rec) {
+      if (!rec || !*rec) {
         break;
       }
 
@@ -112,13 +112,11 @@ public:
 
   ~async_logger()
   {
-    channel_.cancel();
-
-    // TODO: investigate if it hangs when `-fsanitizer=address` is on ?
-    if (auto status = fut_.wait_for(std::chrono::seconds(30));
-        status == std::future_status::ready) {
-      fut_.get();
-    }
+    // Records are received in the order they were sent, so that the empty one,
+    // which ends the loop, comes after every record logged before.
+    net::co_spawn(
+        net::system_executor(), async_enqueue(nullptr), net::detached);
+    fut_.wait();
   }
 
   void add_writer(std::shared_ptr<async_writer> writer)
-- 
2.43.0


From 1b71820214e7f9fa664832872fb7aaf4d1292605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:20 +0000
Subject: [PATCH 37/41] fix: add log writers safely and survive writers that
 fail

---
 include/fitoria/log/async_logger.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/log/async_logger.hpp b/include/fitoria/log/async_logger.hpp
index 9efe395..47a3a5d 100644
--- a/include/fitoria/log/async_logger.hpp
+++ b/include/fitoria/log/async_logger.hpp
@@ -21,6 +21,7 @@
 #include <fitoria/log/record.hpp>
 
 #include <memory>
+#include <mutex>
 #include <vector>
 
 FITORIA_NAMESPACE_BEGIN
@@ -33,15 +34,27 @@ class async_logger {
                                               void(boost::system::error_code,
                                                    record_ptr)>;
 
+  std::mutex mutex_;
   std::vector<std::shared_ptr<async_writer>> writers_;
   filter filter_;
   channel_t channel_;
   std::future<void> fut_;
 
+  auto get_writers() -> std::vector<std::shared_ptr<async_writer>>
+  {
+    const std::lock_guard lock(mutex_);
+    return writers_;
+  }
+
   auto async_write_to_all(record_ptr rec) -> awaitable<void>
   {
-    for (auto& writer : writers_) {
-      co_await writer->async_write(rec);
+    for (auto& writer : get_writers()) {
+      // a failing writer keeps neither the other writers nor the following
+      // records from being written
+      try {
+        co_await writer->async_write(rec);
+      } catch (...) {
+      }
     }
   }
 
@@ -121,6 +134,7 @@ public:
 
   void add_writer(std::shared_ptr<async_writer> writer)
   {
+    const std::lock_guard lock(mutex_);
     writers_.push_back(std::move(writer));
   }
 
-- 
2.43.0


From 5912b2d0640474f03053bacfedc8ae9510fd04cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:20 +0000
Subject: [PATCH 38/41] fix: refuse unsupported websocket versions with 426
 only

---
 include/fitoria/web/websocket.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fitoria/web/websocket.hpp b/include/fitoria/web/websocket.hpp
index e8753c2..9a3fa31 100644
--- a/include/fitoria/web/websocket.hpp
+++ b/include/fitoria/web/websocket.hpp
@@ -523,6 +523,7 @@ private:
       builder.set_header(http::field::sec_websocket_version, "13");
       impl_->set_response(builder.set_body(
           make_error_code(ws::error::bad_sec_version).message()));
+      return;
     }
 
     builder.set_header(http::field::upgrade, "websocket");
-- 
2.43.0


From a53b63cdd86a411eefd28d55a607dcf024d1a8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:20 +0000
Subject: [PATCH 39/41] fix: send the headers of the websocket handshake
 response

---
 include/fitoria/web/websocket.hpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/include/fitoria/web/websocket.hpp b/include/fitoria/web/websocket.hpp
index 9a3fa31..29bfe5f 100644
--- a/include/fitoria/web/websocket.hpp
+++ b/include/fitoria/web/websocket.hpp
@@ -441,21 +441,18 @@ private:
   {
     namespace ws = boost::beast::websocket;
 
-    if (auto res = impl_->release_response();
-        !std::holds_alternative<any_body::null>(res.body().size())) {
-      auto body
-          = co_await async_read_until_eof<std::string>(res.body().stream());
-      if (!body) {
-        co_return unexpected { body.error() };
-      }
-      impl_->set_option(ws::stream_base::decorator(
-          [&res, body = std::move(body)](ws::response_type& r) {
-            for (auto& field : res.headers()) {
-              r.set(field.name_string(), field.value());
+    impl_->set_option(ws::stream_base::decorator(
+        [headers = impl_->release_response().headers()](ws::response_type& r) {
+          for (auto& field : headers) {
+            // already part of the handshake response
+            if (field.name() == http::field::connection
+                || field.name() == http::field::upgrade
+                || field.name() == http::field::sec_websocket_accept) {
+              continue;
             }
-            r.body() = std::move(*body);
-          }));
-    }
+            r.insert(field.name_string(), field.value());
+          }
+        }));
 
     if (auto result = co_await impl_->async_accept(req); !result) {
       co_return unexpected { result.error() };
-- 
2.43.0


From 67872438cec85182f695cd352032619e31510633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:20 +0000
Subject: [PATCH 40/41] fix: switch to websocket only when the handler accepts,
 and for good

---
 include/fitoria/web/http_server.hpp | 26 +++++++++++++-------------
 include/fitoria/web/websocket.hpp   | 12 ++++++++++++
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index a50f725..923dd53 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -424,9 +424,6 @@ private:
       auto session_state = std::make_shared<state_map>();
 
       if (upgrade) {
-        // timeout must be turned off, websocket has its own timeout mechanism
-        get_lowest_layer(stream).expires_never();
-
         // we don't handle expect: 100-continue here,
         // boost::beast::websocket::stream::accept() will do it for us
         (*session_state)[std::type_index(typeid(websocket))]
@@ -483,24 +480,27 @@ private:
       if (upgrade) {
         auto& ws = *std::any_cast<websocket>(
             &(*session_state)[std::type_index(typeid(websocket))]);
-        ws.set_response(std::move(res));
-        if (auto result = co_await ws.run(parser->get()); !result) {
-          co_return unexpected { result.error() };
-        }
-      } else {
-        if (auto exp = co_await do_response(
-                stream, parser->get(), res, keep_alive);
-            !exp) {
-          co_return unexpected { exp.error() };
+        if (ws.is_accepted(res)) {
+          // timeout must be turned off, websocket has its own timeout mechanism
+          get_lowest_layer(stream).expires_never();
+          ws.set_response(std::move(res));
+          // the connection no longer speaks HTTP
+          co_return co_await ws.run(parser->get());
         }
       }
 
+      if (auto exp
+          = co_await do_response(stream, parser->get(), res, keep_alive);
+          !exp) {
+        co_return unexpected { exp.error() };
+      }
+
       if (!keep_alive) {
         break;
       }
 
       // what the handler left unread of the body is not the next request
-      if (!upgrade && !parser->is_done()) {
+      if (!parser->is_done()) {
         auto body = async_message_parser_stream(buffer, stream, parser);
         for (auto data = co_await body.async_read_some(); data;
              data = co_await body.async_read_some()) {
diff --git a/include/fitoria/web/websocket.hpp b/include/fitoria/web/websocket.hpp
index 29bfe5f..6969c85 100644
--- a/include/fitoria/web/websocket.hpp
+++ b/include/fitoria/web/websocket.hpp
@@ -243,6 +243,11 @@ public:
       callback_ = std::move(callback);
     }
 
+    auto has_callback() const noexcept -> bool
+    {
+      return static_cast<bool>(callback_);
+    }
+
     auto callback() noexcept -> callback_type&
     {
       FITORIA_ASSERT(callback_);
@@ -435,6 +440,13 @@ public:
   }
 
 private:
+  // The handler decides whether the connection is switched to websocket.
+  auto is_accepted(const response& res) const noexcept -> bool
+  {
+    return impl_->has_callback()
+        && res.status().value() == http::status::switching_protocols;
+  }
+
   template <typename Body>
   auto run(boost::beast::http::request<Body>& req)
       -> awaitable<expected<void, std::error_code>>
-- 
2.43.0


From 3fc2c2a0b9cf70ea015dd12a0fd7ad32be1988d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:41 +0000
Subject: [PATCH 41/41] fix: do not hand out a missing response in
 serve_request

---
 include/fitoria/web/http_server.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 923dd53..fa2bb65 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -294,7 +294,12 @@ public:
            std::string path,
            test_request tr,
            ResponseHandler handler) -> awaitable<void> {
-          co_await handler(*(co_await do_http_request(stream, path, tr)));
+          auto res = co_await do_http_request(stream, path, tr);
+          if (!res) {
+            // there is no response, e.g. the handler threw
+            FITORIA_THROW_OR(std::system_error(res.error()), co_return);
+          }
+          co_await handler(std::move(*res));
         }(stream, std::move(path), std::move(req), std::move(handler)),
         net::detached);
   }
-- 
2.43.0

