From 27176f7871830f281c4cb2a65ac86767a854ee04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:44 +0000
Subject: [PATCH 01/49] fix: do not dereference the missing parent message of a
 file-level extension when ordering messages

---
 src/protoc-plugin/hpp_generator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index f842518..c4e364e 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -571,7 +571,8 @@ struct code_generator {
     for (auto *f : depended->used_by_fields) {
       auto *field = static_cast<field_descriptor_t *>(f);
       auto *message = parent_message_of(field);
-      if (message->parent_file() != depended->parent_file()) {
+      // file-level extension fields have no parent message
+      if (message == nullptr || message->parent_file() != depended->parent_file()) {
         continue;
       }
       if (std::ranges::find(unresolved, message) != unresolved.end()) {
@@ -597,7 +598,8 @@ struct code_generator {
     for (auto *f : depended->used_by_fields) {
       auto *field = static_cast<field_descriptor_t *>(f);
       auto *message = parent_message_of(field);
-      if (message->parent_file() != depended->parent_file()) {
+      // file-level extension fields have no parent message
+      if (message == nullptr || message->parent_file() != depended->parent_file()) {
         continue;
       }
       if (std::ranges::find(unresolved, message) != unresolved.end() || message->is_map_entry()) {
-- 
2.43.0


From c2cec4b19ad12164bbe1a39e5a091929dbb04da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 02/49] fix: select the oneof alternative when a closed-enum
 member is decoded

---
 include/hpp_proto/binpb/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index b55f159..7e92a81 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -1247,7 +1247,7 @@ constexpr status deserialize_oneof(uint32_t tag, auto &&item, concepts::is_basic
         std::variant_alternative_t<Index + 1, std::decay_t<decltype(item)>> v;
         auto result = deserialize_field(v, meta{}, tag, archive, unknown_fields);
         if (result.ok()) [[likely]] {
-          std::get<Index + 1>(item) = v;
+          item.template emplace<Index + 1>(v);
           return {};
         }
         if (result == std::errc::value_too_large) {
-- 
2.43.0


From 5aed25d43a838ca7a187c681ecc12b6ca9c6354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 03/49] fix: keep a copy of unlisted closed-enum values in
 non-owning unknown fields

---
 include/hpp_proto/binpb/deserialize.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 7e92a81..55acc36 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -661,10 +661,16 @@ constexpr void deserialize_unknown_enum(auto &unknown_fields, uint32_t field_num
   } else if constexpr (concepts::uint32_pair_contiguous_range<unknown_fields_t>) {
     auto itr = std::find_if(unknown_fields.begin(), unknown_fields.end(),
                             [field_num](const auto &e) { return e.first == field_num; });
+    using bytes_type = unknown_fields_t::value_type::second_type;
     if (itr == unknown_fields.end()) {
-      unknown_fields.push_back({field_num, field_span});
+      // `data` is a local buffer, the retained bytes must be owned by the unknown fields
+      bytes_type bytes;
+      {
+        decltype(auto) v = detail::as_modifiable(archive.context, bytes);
+        util::append_range(v, field_span);
+      }
+      unknown_fields.push_back({field_num, bytes});
     } else {
-      using bytes_type = unknown_fields_t::value_type::second_type;
       decltype(auto) v = detail::as_modifiable(archive.context, const_cast<bytes_type &>(itr->second));
       util::append_range(v, field_span);
     }
-- 
2.43.0


From 5a7a1a150540cdc6369dfda4154745168af9268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 04/49] fix: materialize non-owning unknown fields before
 searching them when a message is decoded in pieces

---
 include/hpp_proto/binpb/deserialize.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 55acc36..982b784 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -621,6 +621,7 @@ constexpr status deserialize_unknown_fields(concepts::associative_container auto
 constexpr status deserialize_unknown_fields(concepts::uint32_pair_contiguous_range auto &unknown_fields,
                                             uint32_t field_num, std::size_t field_len,
                                             concepts::is_basic_in auto &archive) {
+  unknown_fields.reserve(unknown_fields.size()); // gives a non-empty arena_vector accessible storage
   auto itr = std::find_if(unknown_fields.begin(), unknown_fields.end(),
                           [field_num](const auto &e) { return e.first == field_num; });
 
@@ -659,6 +660,7 @@ constexpr void deserialize_unknown_enum(auto &unknown_fields, uint32_t field_num
   } else if constexpr (concepts::associative_container<unknown_fields_t>) {
     util::append_range(unknown_fields[field_num], field_span);
   } else if constexpr (concepts::uint32_pair_contiguous_range<unknown_fields_t>) {
+    unknown_fields.reserve(unknown_fields.size()); // gives a non-empty arena_vector accessible storage
     auto itr = std::find_if(unknown_fields.begin(), unknown_fields.end(),
                             [field_num](const auto &e) { return e.first == field_num; });
     using bytes_type = unknown_fields_t::value_type::second_type;
-- 
2.43.0


From 437a40c8567c0a69462c4bfde9232134dedf4ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:24 +0000
Subject: [PATCH 05/49] fix: read all five bytes of a tag

A tag takes five bytes as soon as the field number reaches 2^25. Only four were
aggregated, so the top four bits of such a tag were always read as ones and the
field was taken for another, unknown one.
---
 include/hpp_proto/binpb/deserialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 982b784..3c31133 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -592,7 +592,7 @@ struct basic_in {
     maybe_advance_region();
     // Safety invariant: input regions provide at least 10 readable bytes (slope/patch buffer).
     std::int64_t res; // NOLINT(cppcoreguidelines-init-variables)
-    if (auto p = shift_mix_parse_varint<std::uint32_t, 4>(current, res); p <= current._end) {
+    if (auto p = shift_mix_parse_varint<std::uint32_t>(current, res); p <= current._end) {
       current.advance_to(p);
       return static_cast<std::uint32_t>(res);
     }
@@ -602,7 +602,7 @@ struct basic_in {
   constexpr bool match_tag(std::uint32_t tag) {
     maybe_advance_region();
     std::int64_t res; // NOLINT(cppcoreguidelines-init-variables)
-    if (auto p = shift_mix_parse_varint<std::uint32_t, 4>(current, res); p <= current._end) {
+    if (auto p = shift_mix_parse_varint<std::uint32_t>(current, res); p <= current._end) {
       if (std::cmp_equal(res, tag)) {
         current.advance_to(p);
         return true;
-- 
2.43.0


From 14c22b3ba863030a76c97c0bb5d7b128129cf21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:38 +0000
Subject: [PATCH 06/49] fix: retain an unknown field from the start of an
 overlong tag

The retained bytes were taken to start at the shortest encoding of the tag, so a
field whose tag was encoded with padding bytes was kept from the middle of its tag.
---
 include/hpp_proto/binpb/deserialize.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 3c31133..2e3b5c8 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -145,6 +145,7 @@ struct basic_in {
   input_buffer_region<Byte> current;
   input_span<input_buffer_region<Byte>> rest;
   ptrdiff_t size_exclude_current = 0; // the remaining size excluding those in current region without slope area
+  std::size_t last_tag_size = 0;      // the encoded size of the last tag returned by read_tag()
   Context &context;                   // NOLINT(cppcoreguidelines-avoid-const-or-ref-data-members)
 
   constexpr static bool endian_swapped = std::endian::little != std::endian::native;
@@ -506,10 +507,10 @@ struct basic_in {
     return {};
   }
 
-  constexpr auto unwind_tag(uint32_t tag) {
-    auto tag_len = varint_size<varint_encoding::normal>(tag);
+  // the archive as it was before the last read_tag(); the tag may have been an overlong varint
+  constexpr auto unwind_tag() {
     basic_in<byte_type, Context, contiguous> dup(*this);
-    dup.current.revert(tag_len);
+    dup.current.revert(last_tag_size);
     return dup;
   }
 
@@ -593,6 +594,7 @@ struct basic_in {
     // Safety invariant: input regions provide at least 10 readable bytes (slope/patch buffer).
     std::int64_t res; // NOLINT(cppcoreguidelines-init-variables)
     if (auto p = shift_mix_parse_varint<std::uint32_t>(current, res); p <= current._end) {
+      last_tag_size = static_cast<std::size_t>(p - current._begin);
       current.advance_to(p);
       return static_cast<std::uint32_t>(res);
     }
@@ -684,7 +686,7 @@ constexpr status skip_field(uint32_t tag, concepts::is_basic_in auto &archive, T
   if constexpr (std::is_empty_v<T>) {
     return do_skip_field(tag, archive);
   } else {
-    auto unwound_archive = archive.unwind_tag(tag);
+    auto unwound_archive = archive.unwind_tag();
     if (auto result = skip_fields_match_tag(tag, archive); !result.ok()) [[unlikely]] {
       return result;
     }
-- 
2.43.0


From 231bcb4087e579ea0ff3222341dffd9fa14b9514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 07/49] fix: keep decoding when a required closed enum carries
 an unlisted value

The unlisted value is put into the unknown fields as for optional fields, but the
internal marker for it was then returned as the result of the whole decode.
---
 include/hpp_proto/binpb/deserialize.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 2e3b5c8..cbe01dd 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -1288,7 +1288,16 @@ constexpr status deserialize_field_by_index(uint32_t tag, concepts::has_meta aut
   if constexpr (Index != UINT32_MAX) {
     using type = std::remove_reference_t<decltype(item)>;
     using Meta = util::field_meta_of<type, Index>::type;
-    return deserialize_field(Meta::get(item), Meta(), tag, archive, unknown_fields);
+    status result = deserialize_field(Meta::get(item), Meta(), tag, archive, unknown_fields);
+    if constexpr (concepts::is_enum<std::remove_cvref_t<decltype(Meta::get(item))>> && !requires { type::number(); }) {
+      // Extensions (those with a `number()`) report an unlisted value to the caller of `get_extension()`.
+      if constexpr (Meta::closed_enum()) {
+        if (result == std::errc::value_too_large) {
+          return {}; // an unlisted value of a required closed enum went to the unknown fields, the field is untouched
+        }
+      }
+    }
+    return result;
   } else if (archive.in_avail() > 0) {
     return skip_field(tag, archive, unknown_fields);
   } else {
-- 
2.43.0


From a72fd2761bcc67865825d5a07a757b62307a2e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:49 +0000
Subject: [PATCH 08/49] fix: drop the excess bits of a sint32 varint before the
 zigzag decoding

A value sent by a peer that declares the field sint64 is truncated to 32 bits first.
---
 include/hpp_proto/binpb/varint.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/binpb/varint.hpp b/include/hpp_proto/binpb/varint.hpp
index 420a2db..9afa442 100644
--- a/include/hpp_proto/binpb/varint.hpp
+++ b/include/hpp_proto/binpb/varint.hpp
@@ -326,9 +326,11 @@ template <concepts::varint VarintType>
   int64_t res; // NOLINT(cppcoreguidelines-init-variables)
   if constexpr (varint_encoding::zig_zag == VarintType::encoding) {
     auto p = shift_mix_parse_varint<typename VarintType::value_type>(input, res);
-    auto ures = static_cast<uint64_t>(res);
-    auto sign = static_cast<int64_t>(ures & 0x1ULL);
-    item = static_cast<VarintType::value_type>((ures >> 1U) ^ static_cast<uint64_t>(-sign));
+    // the bits beyond the width of the value have to be dropped before the zigzag decoding
+    using unsigned_type = std::make_unsigned_t<typename VarintType::value_type>;
+    auto ures = static_cast<unsigned_type>(res);
+    auto sign = static_cast<unsigned_type>(ures & 1U);
+    item = static_cast<VarintType::value_type>((ures >> 1U) ^ static_cast<unsigned_type>(0U - sign));
     return p;
   } else {
     auto p = shift_mix_parse_varint<typename VarintType::value_type>(input, res);
-- 
2.43.0


From d6b04842566222dc53b33a9cc3ac27c1ccb06b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:54 +0000
Subject: [PATCH 09/49] fix: stop counting repeated elements once one of them
 runs past the end of the message

The remaining size is negative then, and the search for the next tag was continued
behind the end.
---
 include/hpp_proto/binpb/deserialize.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index cbe01dd..cce49b8 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -782,8 +782,9 @@ constexpr status count_unpacked_elements(uint32_t input_tag, std::size_t &count,
 
     ++count;
 
-    if (new_archive.in_avail() == 0) {
-      return {};
+    if (new_archive.in_avail() <= 0) {
+      // a negative value means the last element runs past the end of the message
+      return new_archive.in_avail() == 0 ? std::errc{} : std::errc::bad_message;
     }
   } while (new_archive.read_tag() == input_tag);
   return {};
@@ -802,8 +803,9 @@ constexpr status count_groups(uint32_t input_tag, std::size_t &count, concepts::
 
     ++count;
 
-    if (new_archive.in_avail() == 0) {
-      return {};
+    if (new_archive.in_avail() <= 0) {
+      // a negative value means the last element runs past the end of the message
+      return new_archive.in_avail() == 0 ? std::errc{} : std::errc::bad_message;
     }
   } while (new_archive.read_tag() == input_tag);
   return {};
-- 
2.43.0


From fe8fd000c3e848e6a4c90238c3576191408e9570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 10/49] fix: check the length of a string or bytes view in
 padded input

The length read from the wire was only asserted to lie within the input, so a
malformed length produced a view beyond the end of the buffer.
---
 include/hpp_proto/binpb/deserialize.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index cce49b8..a19522a 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -499,7 +499,9 @@ struct basic_in {
 
   template <concepts::non_owning_bytes T>
   constexpr status read_bytes(uint32_t length, T &item) {
-    assert(std::cmp_greater_equal(region_size(), length));
+    if (std::cmp_less(region_size(), length)) [[unlikely]] {
+      return std::errc::bad_message;
+    }
     auto data = current.consume(length);
     using value_type = T::value_type;
     // NOLINTNEXTLINE(cppcoreguidelines-pro-type-reinterpret-cast)
-- 
2.43.0


From 995f1eea3372a8f195732118b57f6e6b9c6143b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:27 +0000
Subject: [PATCH 11/49] fix: append_binpb writes behind the existing content

The buffer was enlarged, but the message was then encoded over its beginning.
---
 include/hpp_proto/binpb/serialize.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/binpb/serialize.hpp b/include/hpp_proto/binpb/serialize.hpp
index a0edc97..03b172b 100644
--- a/include/hpp_proto/binpb/serialize.hpp
+++ b/include/hpp_proto/binpb/serialize.hpp
@@ -561,15 +561,18 @@ template <bool overwrite_buffer = true, typename T, concepts::contiguous_byte_ra
     return resize_status;
   }
 
+  // an appended message goes behind the existing content
+  const std::size_t offset = overwrite_buffer ? 0 : std::ranges::size(buffer) - static_cast<std::size_t>(msg_sz);
+  const auto destination = std::span{std::ranges::data(buffer), std::ranges::size(buffer)}.subspan(offset);
+
   if (std::is_constant_evaluated()) {
-    contiguous_out archive{buffer, context};
+    contiguous_out archive{destination, context};
     auto cache_itr = cache.begin();
     if (!serialize(item, cache_itr, archive)) {
       return std::errc::bad_message;
     }
   } else {
-    contiguous_out archive{std::as_writable_bytes(std::span{std::ranges::data(buffer), std::ranges::size(buffer)}),
-                           context};
+    contiguous_out archive{std::as_writable_bytes(destination), context};
     auto cache_itr = cache.begin();
     if (!serialize(item, cache_itr, archive)) {
       return std::errc::bad_message;
-- 
2.43.0


From e982dfc59fdb54421fc6d7068b607d6536d1033e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:27 +0000
Subject: [PATCH 12/49] fix: check the chunk a sink offers for a contiguous
 write

A chunk shorter than the message was written past its end.
---
 include/hpp_proto/binpb/serialize.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/binpb/serialize.hpp b/include/hpp_proto/binpb/serialize.hpp
index 03b172b..e2c3689 100644
--- a/include/hpp_proto/binpb/serialize.hpp
+++ b/include/hpp_proto/binpb/serialize.hpp
@@ -616,8 +616,11 @@ consteval serialization_mode serialization_mode_for_context() {
 
 template <typename T, concepts::out_sink Sink, concepts::is_pb_context Context>
 [[nodiscard]] constexpr status serialize_contiguous_sink(const T &item, Sink &sink, Context &context,
-                                                         std::span<uint32_t> cache) {
+                                                         std::span<uint32_t> cache, std::size_t msg_sz) {
   auto out = sink.next_chunk();
+  if (out.size() < msg_sz) [[unlikely]] {
+    return std::errc::not_enough_memory;
+  }
   contiguous_out archive{out, context};
   auto cache_itr = cache.begin();
   if (!serialize(item, cache_itr, archive)) {
@@ -655,12 +658,12 @@ status serialize(const T &item, Sink &sink, Context &context) {
     sink.set_message_size(msg_sz);
 
     if constexpr (mode == serialization_mode::contiguous) {
-      return serialize_contiguous_sink(item, sink, context, cache);
+      return serialize_contiguous_sink(item, sink, context, cache, msg_sz);
     }
 
     if constexpr (mode == serialization_mode::adaptive) {
       if (msg_sz <= sink.chunk_size()) {
-        return serialize_contiguous_sink(item, sink, context, cache);
+        return serialize_contiguous_sink(item, sink, context, cache, msg_sz);
       }
     }
 
-- 
2.43.0


From bbc79403ec1c701d5e58795a1b6114f7f6ecee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:15 +0000
Subject: [PATCH 13/49] fix: encode a negative zero in a field without presence

-0.0 compares equal to the default value 0.0 and was therefore omitted, so that
peers decoded 0.0 instead.
---
 include/hpp_proto/field_types.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/hpp_proto/field_types.hpp b/include/hpp_proto/field_types.hpp
index b47652b..512f44c 100644
--- a/include/hpp_proto/field_types.hpp
+++ b/include/hpp_proto/field_types.hpp
@@ -23,6 +23,7 @@
 #pragma once
 
 #include <algorithm>
+#include <array>
 #include <bit>
 #include <cassert>
 #include <compare>
@@ -570,6 +571,9 @@ constexpr bool is_default_value(const T &val) {
       return !val.has_value();
     } else if constexpr (std::is_class_v<T>) {
       return false;
+    } else if constexpr (std::floating_point<T>) {
+      // only positive zero is the default: -0.0 compares equal to it but is a value of its own
+      return std::bit_cast<std::array<std::byte, sizeof(T)>>(val) == std::array<std::byte, sizeof(T)>{};
     } else {
       return val == T{};
     }
-- 
2.43.0


From a4546d2fb4fed9556f68eccd4ebad43a263eaab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:02 +0000
Subject: [PATCH 14/49] fix: encode a singular extension that is set to its
 default value

Generated singular extensions of scalar, string and bytes type had no presence, so that
set_extension() with a default value was silently dropped: a previously set value stayed,
has_extension() remained false and peers did not see the extension.
---
 src/protoc-plugin/hpp_generator.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index c4e364e..3b0a792 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -1658,11 +1658,10 @@ struct hpp_meta_generator : code_generator {
     std::vector<cpp::source_fragment> options;
     using enum google::protobuf::FieldDescriptorProto_::Label;
     const bool is_oneof_alternative = descriptor.proto().oneof_index.has_value();
-    const bool is_optional_closed_enum_extension = descriptor.is_closed_enum &&
-                                                   descriptor.extendee_descriptor() != nullptr &&
-                                                   descriptor.proto().label == LABEL_OPTIONAL;
-    if (descriptor.is_cpp_optional || descriptor.is_required() || is_oneof_alternative ||
-        is_optional_closed_enum_extension) {
+    // A singular extension has presence: its default value must be encoded once it is set.
+    const bool is_singular_extension = descriptor.extendee_descriptor() != nullptr &&
+                                       descriptor.proto().label == LABEL_OPTIONAL;
+    if (descriptor.is_cpp_optional || descriptor.is_required() || is_oneof_alternative || is_singular_extension) {
       options.emplace_back("::hpp_proto::field_option::explicit_presence");
     } else if (descriptor.is_packed()) {
       options.emplace_back("::hpp_proto::field_option::is_packed");
-- 
2.43.0


From c588a8321ebceb1650461253af978d66d0917827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:05 +0000
Subject: [PATCH 15/49] fix: keep the destination's unknown fields when merging

The raw unknown fields of a keep_unknown_fields message were replaced by those of the
source, and dropped if the source had none.
---
 include/hpp_proto/merge.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/hpp_proto/merge.hpp b/include/hpp_proto/merge.hpp
index ac8e006..ef5dbf1 100644
--- a/include/hpp_proto/merge.hpp
+++ b/include/hpp_proto/merge.hpp
@@ -306,6 +306,11 @@ struct message_merger {
         // Protobuf merge semantics preserve those occurrences in parent-to-child order.
         util::append_range(bytes, data);
       }
+    } else if constexpr (concepts::contiguous_byte_range<std::remove_cvref_t<decltype(dest.fields)>>) {
+      // raw unknown fields: the source's records follow the ones already there
+      bind_empty_container_to_context(dest.fields);
+      decltype(auto) bytes = detail::as_modifiable(ctx, dest.fields);
+      util::append_range(bytes, source.fields);
     } else {
       perform(dest.fields, source.fields);
     }
-- 
2.43.0


From 2fa4f51b6813847f2dd1d61db28fb6abd1aac624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:49 +0000
Subject: [PATCH 16/49] fix: do not copy the elements of a repeated field to
 encode them

---
 include/hpp_proto/binpb/serialize.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/hpp_proto/binpb/serialize.hpp b/include/hpp_proto/binpb/serialize.hpp
index e2c3689..fe0a0bb 100644
--- a/include/hpp_proto/binpb/serialize.hpp
+++ b/include/hpp_proto/binpb/serialize.hpp
@@ -773,8 +773,10 @@ template <concepts::dereferenceable T>
 
   if constexpr (concepts::has_meta<value_type> || !meta.is_packed() || meta.is_delimited()) {
     return std::ranges::all_of(item, [&](const auto &element) {
+      // convert only when the wire type differs, a string or message element must not be copied
       using serialize_element_type =
-          std::conditional_t<concepts::is_map_entry<typename Meta::type>, decltype(element), element_type>;
+          std::conditional_t<concepts::is_map_entry<typename Meta::type> || std::same_as<value_type, element_type>,
+                             decltype(element), element_type>;
       return serialize_field(static_cast<serialize_element_type>(element), meta, cache_itr, archive);
     });
   } else if constexpr (concepts::byte_serializable<element_type>) {
-- 
2.43.0


From cc32c9cb998dfb497cdf0a60cca6180e1707a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:56 +0000
Subject: [PATCH 17/49] fix: keep keys and values of a flat_map paired when an
 assignment throws

---
 include/hpp_proto/flat_map.hpp | 47 +++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/include/hpp_proto/flat_map.hpp b/include/hpp_proto/flat_map.hpp
index b323cc1..8279af2 100644
--- a/include/hpp_proto/flat_map.hpp
+++ b/include/hpp_proto/flat_map.hpp
@@ -381,6 +381,10 @@ public:
 
   flat_map() : flat_map(Compare()) {}
 
+  flat_map(const flat_map &) = default;
+  flat_map(flat_map &&) = default;
+  ~flat_map() = default;
+
   flat_map(KeyContainer keys, MappedContainer values)
       : c_{static_cast<KeyContainer &&>(keys), static_cast<MappedContainer &&>(values)}, compare_() {
     this->sort_and_unique_impl();
@@ -568,6 +572,39 @@ public:
 
   // ========================================================== OTHER MEMBERS
 
+  // keys and values must stay paired when the assignment of one of them throws
+  constexpr flat_map &operator=(const flat_map &m) {
+    if (this != &m) {
+      try {
+        c_.keys = m.c_.keys;
+        c_.values = m.c_.values;
+        compare_ = m.compare_;
+      } catch (...) {
+        this->clear_containers();
+        throw;
+      }
+    }
+    return *this;
+  }
+
+  constexpr flat_map &operator=(flat_map &&m) noexcept(std::is_nothrow_move_assignable<KeyContainer>::value &&
+                                                       std::is_nothrow_move_assignable<MappedContainer>::value &&
+                                                       std::is_nothrow_move_assignable<Compare>::value) {
+    if (this != &m) {
+      try {
+        c_.keys = static_cast<KeyContainer &&>(m.c_.keys);
+        c_.values = static_cast<MappedContainer &&>(m.c_.values);
+        compare_ = static_cast<Compare &&>(m.compare_);
+      } catch (...) {
+        this->clear_containers();
+        m.clear_containers();
+        throw;
+      }
+      m.clear_containers();
+    }
+    return *this;
+  }
+
   flat_map &operator=(std::initializer_list<value_type> il) {
     this->clear();
     this->insert(il);
@@ -908,10 +945,7 @@ public:
     swap(c_.values, fm.c_.values);
   }
 
-  void clear() noexcept {
-    c_.keys.clear();
-    c_.values.clear();
-  }
+  void clear() noexcept { this->clear_containers(); }
 
   key_compare key_comp() const { return compare_; }
 
@@ -1068,6 +1102,11 @@ public:
   }
 
 private:
+  constexpr void clear_containers() noexcept {
+    c_.keys.clear();
+    c_.values.clear();
+  }
+
   template <class KeyIterator, class MappedIterator, class... Args>
   MappedIterator guarded_emplace(KeyIterator kit, MappedIterator vit, Args &&...args) {
     try {
-- 
2.43.0


From 6dab6988e66f0dc8ff551a40e775f2a2145db2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:30 +0000
Subject: [PATCH 18/49] fix: give a required closed enum without an explicit
 default its first value

---
 src/protoc-plugin/hpp_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 3b0a792..b8a1d20 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -837,7 +837,7 @@ struct code_generator {
       field.is_closed_enum = enum_d->is_closed();
       if (!field.proto().default_value.empty()) {
         field.set_enum_default_value(field.proto(), diagnostics);
-      } else if (field.proto().label == FieldDescriptorProto::Label::LABEL_OPTIONAL) {
+      } else if (field.proto().label != FieldDescriptorProto::Label::LABEL_REPEATED) {
         const auto proto_default_value = cpp_identifier(enum_d->proto().value[0].name, diagnostics);
         field.default_value = cpp::format("{}::{}", field.cpp_field_type, proto_default_value);
         field.default_value_template_arg = cpp::format("{}::{}", field.qualified_cpp_field_type, proto_default_value);
-- 
2.43.0


From f6c36afdd68772cc020ee21ceaf730b906e8fde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 19/49] fix: let flat_map::erase work on copies that use the
 map's own allocators

---
 include/hpp_proto/flat_map.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/flat_map.hpp b/include/hpp_proto/flat_map.hpp
index 8279af2..39d1359 100644
--- a/include/hpp_proto/flat_map.hpp
+++ b/include/hpp_proto/flat_map.hpp
@@ -888,7 +888,7 @@ public:
   iterator erase(iterator position) {
     auto kit = position.private_impl_getkey();
     auto vit = position.private_impl_getmapped();
-    containers copy{c_.keys, c_.values};
+    containers copy{KeyContainer(c_.keys, c_.keys.get_allocator()), MappedContainer(c_.values, c_.values.get_allocator())};
     auto kitmut = copy.keys.erase(copy.keys.begin() + (kit - c_.keys.begin()));
     auto vitmut = copy.values.erase(copy.values.begin() + (vit - c_.values.begin()));
     using std::swap;
@@ -900,7 +900,7 @@ public:
   iterator erase(const_iterator position) {
     auto kit = position.private_impl_getkey();
     auto vit = position.private_impl_getmapped();
-    containers copy{c_.keys, c_.values};
+    containers copy{KeyContainer(c_.keys, c_.keys.get_allocator()), MappedContainer(c_.values, c_.values.get_allocator())};
     auto kitmut = copy.keys.erase(copy.keys.begin() + (kit - c_.keys.begin()));
     auto vitmut = copy.values.erase(copy.values.begin() + (vit - c_.values.begin()));
     using std::swap;
@@ -923,7 +923,7 @@ public:
     auto vfirst = first.private_impl_getmapped();
     auto klast = last.private_impl_getkey();
     auto vlast = last.private_impl_getmapped();
-    containers copy{c_.keys, c_.values};
+    containers copy{KeyContainer(c_.keys, c_.keys.get_allocator()), MappedContainer(c_.values, c_.values.get_allocator())};
     auto kitmut =
         copy.keys.erase(copy.keys.begin() + (kfirst - c_.keys.begin()), copy.keys.begin() + (klast - c_.keys.begin()));
     auto vitmut = copy.values.erase(copy.values.begin() + (vfirst - c_.values.begin()),
-- 
2.43.0


From 66a12d4bcdc484845aa5f656563fd0784e772301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 20/49] fix: keep flat_map keys and values paired when an
 insertion throws half way

---
 include/hpp_proto/flat_map.hpp | 44 +++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/include/hpp_proto/flat_map.hpp b/include/hpp_proto/flat_map.hpp
index 39d1359..a69854d 100644
--- a/include/hpp_proto/flat_map.hpp
+++ b/include/hpp_proto/flat_map.hpp
@@ -663,7 +663,7 @@ public:
     if (it == end() || compare_(t.first, it->first)) {
       auto kit = it.private_impl_getkey();
       auto vit = it.private_impl_getmapped();
-      kit = c_.keys.emplace(kit, static_cast<Key &&>(t.first));
+      kit = this->guarded_insert_key(kit, static_cast<Key &&>(t.first));
       vit = this->guarded_emplace(kit, vit, static_cast<Mapped &&>(t.second));
       auto result = flatmap_detail::make_iterator(kit, vit);
       return {std::move(result), true};
@@ -750,7 +750,7 @@ public:
     auto kit = std::lower_bound(c_.keys.begin(), c_.keys.end(), k, std::ref(compare_));
     auto vit = c_.values.begin() + (kit - c_.keys.begin());
     if (kit == c_.keys.end() || compare_(k, *kit)) {
-      kit = c_.keys.insert(kit, k);
+      kit = this->guarded_insert_key(kit, k);
       vit = this->guarded_emplace(kit, vit, static_cast<Args &&>(args)...);
       return {flatmap_detail::make_iterator(kit, vit), true};
     } else {
@@ -763,7 +763,7 @@ public:
     auto kit = std::lower_bound(c_.keys.begin(), c_.keys.end(), k, std::ref(compare_));
     auto vit = c_.values.begin() + (kit - c_.keys.begin());
     if (kit == c_.keys.end() || compare_(k, *kit)) {
-      kit = c_.keys.insert(kit, static_cast<Key &&>(k));
+      kit = this->guarded_insert_key(kit, static_cast<Key &&>(k));
       vit = this->guarded_emplace(kit, vit, static_cast<Args &&>(args)...);
       return {flatmap_detail::make_iterator(kit, vit), true};
     } else {
@@ -791,13 +791,13 @@ public:
       }
       if (bool(compare_(*prev, k)) && (hkit == c_.keys.end() || bool(compare_(k, *hkit)))) {
         auto vit = c_.values.begin() + (hkit - c_.keys.begin());
-        auto kit = c_.keys.insert(hkit, k);
+        auto kit = this->guarded_insert_key(hkit, k);
         vit = this->guarded_emplace(kit, vit, static_cast<Args &&>(args)...);
         return flatmap_detail::make_iterator(kit, vit);
       }
     } else if (hkit == c_.keys.end() || bool(compare_(k, *hkit))) {
       auto vit = c_.values.begin();
-      auto kit = c_.keys.insert(hkit, k);
+      auto kit = this->guarded_insert_key(hkit, k);
       vit = this->guarded_emplace(kit, vit, static_cast<Args &&>(args)...);
       return flatmap_detail::make_iterator(kit, vit);
     }
@@ -825,13 +825,13 @@ public:
       }
       if (bool(compare_(*prev, k)) && (hkit == c_.keys.end() || bool(compare_(k, *hkit)))) {
         auto vit = c_.values.begin() + (hkit - c_.keys.begin());
-        auto kit = c_.keys.insert(hkit, static_cast<Key &&>(k));
+        auto kit = this->guarded_insert_key(hkit, static_cast<Key &&>(k));
         vit = this->guarded_emplace(kit, vit, static_cast<Args &&>(args)...);
         return flatmap_detail::make_iterator(kit, vit);
       }
     } else if (hkit == c_.keys.end() || bool(compare_(k, *hkit))) {
       auto vit = c_.values.begin();
-      auto kit = c_.keys.insert(hkit, static_cast<Key &&>(k));
+      auto kit = this->guarded_insert_key(hkit, static_cast<Key &&>(k));
       vit = this->guarded_emplace(kit, vit, static_cast<Args &&>(args)...);
       return flatmap_detail::make_iterator(kit, vit);
     }
@@ -1109,14 +1109,42 @@ private:
 
   template <class KeyIterator, class MappedIterator, class... Args>
   MappedIterator guarded_emplace(KeyIterator kit, MappedIterator vit, Args &&...args) {
+    const auto size = c_.values.size();
     try {
       return c_.values.emplace(vit, static_cast<Args &&>(args)...);
     } catch (...) {
-      c_.keys.erase(c_.keys.begin() + (kit - c_.keys.cbegin()));
+      this->remove_key(kit, c_.values.size() == size);
       throw;
     }
   }
 
+  // A container whose insertion or erasure throws while it shifts elements is left with elements missing or
+  // out of place; keys and values can then no longer be paired.
+  template <class KeyIterator, class K>
+  typename KeyContainer::iterator guarded_insert_key(KeyIterator kit, K &&k) {
+    const auto size = c_.keys.size();
+    try {
+      return c_.keys.insert(kit, static_cast<K &&>(k));
+    } catch (...) {
+      if (c_.keys.size() != size) {
+        this->clear_containers();
+      }
+      throw;
+    }
+  }
+
+  template <class KeyIterator>
+  void remove_key(KeyIterator kit, bool values_intact) noexcept {
+    if (values_intact) {
+      try {
+        c_.keys.erase(c_.keys.begin() + (kit - c_.keys.cbegin()));
+        return;
+      } catch (...) {
+      }
+    }
+    this->clear_containers();
+  }
+
   void sort_and_unique_impl() {
     flatmap_detail::sort_together(compare_, c_.keys, c_.values);
     auto kit = flatmap_detail::unique_helper(c_.keys.begin(), c_.keys.end(), c_.values.begin(), compare_);
-- 
2.43.0


From 3dd25ebe3ab40de966202b45237a796e5068c43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 21/49] fix: swap the elements along with propagating
 allocators in indirect and optional_indirect

---
 include/hpp_proto/indirect.hpp          | 2 +-
 include/hpp_proto/optional_indirect.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/indirect.hpp b/include/hpp_proto/indirect.hpp
index d91dc2f..4beb79b 100644
--- a/include/hpp_proto/indirect.hpp
+++ b/include/hpp_proto/indirect.hpp
@@ -186,7 +186,7 @@ public:
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       swap(alloc_, other.alloc_);
     }
-    if constexpr (allocator_traits::is_always_equal::value) {
+    if constexpr (allocator_traits::propagate_on_container_swap::value || allocator_traits::is_always_equal::value) {
       swap(obj_, other.obj_);
     } else {
       if (alloc_ == other.alloc_) {
diff --git a/include/hpp_proto/optional_indirect.hpp b/include/hpp_proto/optional_indirect.hpp
index 4dd4496..83ab731 100644
--- a/include/hpp_proto/optional_indirect.hpp
+++ b/include/hpp_proto/optional_indirect.hpp
@@ -210,7 +210,7 @@ public:
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       swap(alloc_, other.alloc_);
     }
-    if constexpr (allocator_traits::is_always_equal::value) {
+    if constexpr (allocator_traits::propagate_on_container_swap::value || allocator_traits::is_always_equal::value) {
       swap(obj_, other.obj_);
       return;
     }
-- 
2.43.0


From 395b66686c7d45bde35a70662a47e06f065eb313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 22/49] fix: keep the allocator of an optional_indirect when a
 value is assigned

---
 include/hpp_proto/optional_indirect.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/hpp_proto/optional_indirect.hpp b/include/hpp_proto/optional_indirect.hpp
index 83ab731..18d0f1d 100644
--- a/include/hpp_proto/optional_indirect.hpp
+++ b/include/hpp_proto/optional_indirect.hpp
@@ -139,6 +139,15 @@ public:
     return *this;
   }
 
+  constexpr optional_indirect &operator=(const T &other) {
+    if (obj_) {
+      *raw_ptr() = other;
+    } else {
+      emplace(other);
+    }
+    return *this;
+  }
+
   constexpr optional_indirect &operator=(const optional_indirect &other) {
     if (this != &other) {
       if constexpr (allocator_traits::propagate_on_container_copy_assignment::value) {
-- 
2.43.0


From 5d0e4877e87f33bd851f9471ca07325df2b3e2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:37 +0000
Subject: [PATCH 23/49] fix: assign an optional_indirect from inside its own
 value, and keep the old value when a propagating copy fails

---
 include/hpp_proto/optional_indirect.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/hpp_proto/optional_indirect.hpp b/include/hpp_proto/optional_indirect.hpp
index 18d0f1d..5c92767 100644
--- a/include/hpp_proto/optional_indirect.hpp
+++ b/include/hpp_proto/optional_indirect.hpp
@@ -101,19 +101,23 @@ public:
     if (this == &other) {
       return *this;
     }
+    // `other` may live inside the object owned by `*this`: take its value out before that object is destroyed.
     if constexpr (allocator_traits::propagate_on_container_move_assignment::value) {
+      optional_indirect taken(std::move(other));
       reset();
-      alloc_ = std::move(other.alloc_);
-      obj_ = std::exchange(other.obj_, nullptr);
+      alloc_ = std::move(taken.alloc_);
+      obj_ = std::exchange(taken.obj_, nullptr);
       return *this;
     } else if constexpr (allocator_traits::is_always_equal::value) {
+      auto taken = std::exchange(other.obj_, nullptr);
       reset();
-      obj_ = std::exchange(other.obj_, nullptr);
+      obj_ = taken;
       return *this;
     } else {
       if (alloc_ == other.alloc_) {
+        auto taken = std::exchange(other.obj_, nullptr);
         reset();
-        obj_ = std::exchange(other.obj_, nullptr);
+        obj_ = taken;
         return *this;
       }
       if (other.obj_) {
@@ -152,7 +156,11 @@ public:
     if (this != &other) {
       if constexpr (allocator_traits::propagate_on_container_copy_assignment::value) {
         if (alloc_ != other.alloc_) {
+          optional_indirect copy(std::allocator_arg, other.alloc_, other);
           reset();
+          alloc_ = other.alloc_;
+          obj_ = std::exchange(copy.obj_, nullptr);
+          return *this;
         }
         alloc_ = other.alloc_;
       }
-- 
2.43.0


From 18778a5cbcbcacbaf66424f93a92c1410b056903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:37 +0000
Subject: [PATCH 24/49] fix: let a moved-from indirect be copied, compared and
 assigned, and an indirect be assigned from inside its own value

---
 include/hpp_proto/indirect.hpp | 44 +++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/include/hpp_proto/indirect.hpp b/include/hpp_proto/indirect.hpp
index 4beb79b..29fc2e1 100644
--- a/include/hpp_proto/indirect.hpp
+++ b/include/hpp_proto/indirect.hpp
@@ -48,12 +48,12 @@ public:
 
   constexpr indirect(const indirect &other)
       : alloc_(allocator_traits::select_on_container_copy_construction(other.alloc_)),
-        obj_(allocate_construct(*other.raw_ptr())) {}
+        obj_(allocate_copy(other)) {}
   constexpr indirect(indirect &&other) noexcept(std::is_nothrow_move_constructible_v<allocator_type>)
       : alloc_(std::move(other.alloc_)), obj_(std::exchange(other.obj_, nullptr)) {}
 
   constexpr indirect(allocator_arg_t /*allocator_arg*/, allocator_type alloc, const indirect &other)
-      : alloc_(std::move(alloc)), obj_(allocate_construct(*other.raw_ptr())) {}
+      : alloc_(std::move(alloc)), obj_(allocate_copy(other)) {}
 
   // NOLINTNEXTLINE(cppcoreguidelines-rvalue-reference-param-not-moved)
   constexpr indirect(allocator_arg_t /*allocator_arg*/, allocator_type alloc, indirect &&other)
@@ -75,17 +75,19 @@ public:
     if (this != &other) {
       if constexpr (allocator_traits::propagate_on_container_copy_assignment::value) {
         if (alloc_ != other.alloc_) {
+          indirect copy(std::allocator_arg, other.alloc_, other);
           destroy();
           alloc_ = other.alloc_;
-          obj_ = allocate_construct(*other.raw_ptr());
+          obj_ = std::exchange(copy.obj_, nullptr);
           return *this;
         }
         alloc_ = other.alloc_;
       }
-      if (obj_) {
+      if (obj_ && other.obj_) {
         *raw_ptr() = *other.raw_ptr();
       } else {
-        obj_ = allocate_construct(*other.raw_ptr());
+        destroy();
+        obj_ = allocate_copy(other);
       }
     }
     return *this;
@@ -116,22 +118,28 @@ public:
     if (this == &other) {
       return *this;
     }
+    // `other` may live inside the object owned by `*this`: take its value out before that object is destroyed.
     if constexpr (allocator_traits::propagate_on_container_move_assignment::value) {
+      indirect taken(std::move(other));
       destroy();
-      alloc_ = std::move(other.alloc_);
-      obj_ = std::exchange(other.obj_, nullptr);
+      alloc_ = std::move(taken.alloc_);
+      obj_ = std::exchange(taken.obj_, nullptr);
       return *this;
     } else if constexpr (allocator_traits::is_always_equal::value) {
+      auto taken = std::exchange(other.obj_, nullptr);
       destroy();
-      obj_ = std::exchange(other.obj_, nullptr);
+      obj_ = taken;
       return *this;
     } else {
       if (alloc_ == other.alloc_) {
+        auto taken = std::exchange(other.obj_, nullptr);
         destroy();
-        obj_ = std::exchange(other.obj_, nullptr);
+        obj_ = taken;
         return *this;
       }
-      if (obj_) {
+      if (!other.obj_) {
+        destroy();
+      } else if (obj_) {
         *raw_ptr() = std::move(*other.raw_ptr());
       } else {
         obj_ = allocate_construct(std::move(*other.raw_ptr()));
@@ -157,26 +165,29 @@ public:
       noexcept(noexcept(std::declval<const T &>() == std::declval<const T &>()))
     requires requires { *obj_ == rhs; }
   {
-    return *raw_ptr() == rhs;
+    return obj_ && *raw_ptr() == rhs;
   }
   constexpr bool operator==(const indirect &rhs) const
       noexcept(noexcept(std::declval<const T &>() == std::declval<const T &>()))
     requires requires { *obj_ == *rhs.obj_; }
   {
-    return *raw_ptr() == *rhs.raw_ptr();
+    return obj_ && rhs.obj_ ? *raw_ptr() == *rhs.raw_ptr() : !obj_ && !rhs.obj_;
   }
 
   constexpr auto operator<=>(const T &rhs) const
       noexcept(noexcept(std::declval<const T &>() <=> std::declval<const T &>()))
     requires requires { *obj_ <=> rhs; }
   {
-    return *raw_ptr() <=> rhs;
+    using result_type = decltype(*raw_ptr() <=> rhs);
+    return obj_ ? *raw_ptr() <=> rhs : result_type{std::strong_ordering::less};
   }
   constexpr auto operator<=>(const indirect &rhs) const
       noexcept(noexcept(std::declval<const T &>() <=> std::declval<const T &>()))
     requires requires { *obj_ <=> *rhs.obj_; }
   {
-    return *raw_ptr() <=> *rhs.raw_ptr();
+    using result_type = decltype(*raw_ptr() <=> *rhs.raw_ptr());
+    return obj_ && rhs.obj_ ? *raw_ptr() <=> *rhs.raw_ptr()
+                            : result_type{static_cast<bool>(obj_) <=> static_cast<bool>(rhs.obj_)};
   }
 
   constexpr void swap(indirect &other) noexcept(allocator_traits::is_always_equal::value ||
@@ -226,6 +237,11 @@ private:
     return p;
   }
 
+  // a moved-from `other` holds nothing
+  constexpr pointer allocate_copy(const indirect &other) {
+    return other.obj_ ? allocate_construct(*other.raw_ptr()) : pointer{};
+  }
+
   constexpr void destroy() noexcept {
     if (obj_) {
       allocator_traits::destroy(alloc_, std::to_address(obj_));
-- 
2.43.0


From e0d7ed1bf40a715f27f89d0e773790f5ad7b9ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 25/49] fix: pass serialization options of the server write and
 finish calls on

---
 include/hpp_proto/grpc/server.hpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/hpp_proto/grpc/server.hpp b/include/hpp_proto/grpc/server.hpp
index de1db72..60b1b4b 100644
--- a/include/hpp_proto/grpc/server.hpp
+++ b/include/hpp_proto/grpc/server.hpp
@@ -105,8 +105,8 @@ public:
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    auto result =
-        ::hpp_proto::grpc::write_binpb(reply, *resp_buf_, std::forward<serialization_option>(serialization_option)...);
+    auto result = ::hpp_proto::grpc::write_binpb(reply, *resp_buf_,
+                                                 std::forward<decltype(serialization_option)>(serialization_option)...);
     this->Finish(std::move(result));
   }
 
@@ -130,8 +130,8 @@ public:
   template <typename Traits>
   void write(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    auto result =
-        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<serialization_option>(serialization_option)...);
+    auto result = ::hpp_proto::grpc::write_binpb(reply, response_,
+                                                 std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
       this->StartWrite(&response_, options);
     } else {
@@ -142,7 +142,7 @@ public:
   template <typename Traits>
   void write(const Method::template response_t<Traits> &reply,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    this->write(reply, ::grpc::WriteOptions{}, std::forward<serialization_option>(serialization_option)...);
+    this->write(reply, ::grpc::WriteOptions{}, std::forward<decltype(serialization_option)>(serialization_option)...);
   }
 
   void write(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{}) {
@@ -153,8 +153,8 @@ public:
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options, ::grpc::Status s,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    auto result =
-        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<serialization_option>(serialization_option)...);
+    auto result = ::hpp_proto::grpc::write_binpb(reply, response_,
+                                                 std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
       this->StartWriteAndFinish(&response_, options, std::move(s));
     } else {
@@ -166,13 +166,14 @@ public:
   void finish(const Method::template response_t<Traits> &reply,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
     this->finish(reply, ::grpc::WriteOptions{}, ::grpc::Status{},
-                 std::forward<serialization_option>(serialization_option)...);
+                 std::forward<decltype(serialization_option)>(serialization_option)...);
   }
 
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    this->finish(reply, options, ::grpc::Status{}, std::forward<serialization_option>(serialization_option)...);
+    this->finish(reply, options, ::grpc::Status{},
+                 std::forward<decltype(serialization_option)>(serialization_option)...);
   }
 
   void finish(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{},
@@ -203,8 +204,8 @@ public:
   template <typename Traits>
   void write(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    auto result =
-        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<serialization_option>(serialization_option)...);
+    auto result = ::hpp_proto::grpc::write_binpb(reply, response_,
+                                                 std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
       this->StartWrite(&response_, options);
     } else {
@@ -215,7 +216,7 @@ public:
   template <typename Traits>
   void write(const Method::template response_t<Traits> &reply,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    this->write(reply, ::grpc::WriteOptions{}, std::forward<serialization_option>(serialization_option)...);
+    this->write(reply, ::grpc::WriteOptions{}, std::forward<decltype(serialization_option)>(serialization_option)...);
   }
 
   void write(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{}) {
-- 
2.43.0


From 631cd2e56a266d60ddeab858ff247128e7ea5970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 26/49] fix: make the holds of a client reactor usable

---
 include/hpp_proto/grpc/client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/grpc/client.hpp b/include/hpp_proto/grpc/client.hpp
index d87e0e1..18bbdef 100644
--- a/include/hpp_proto/grpc/client.hpp
+++ b/include/hpp_proto/grpc/client.hpp
@@ -232,7 +232,7 @@ public:
   void add_multiple_holds(int holds)
     requires(Method::client_streaming || Method::server_streaming)
   {
-    this->AddHold(holds);
+    this->AddMultipleHolds(holds);
   }
   void remove_hold()
     requires(Method::client_streaming || Method::server_streaming)
-- 
2.43.0


From 574d8641fd07b6031fe3f2f142c54dea6e695e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 27/49] fix: finish a server call only once

---
 include/hpp_proto/grpc/server.hpp | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/hpp_proto/grpc/server.hpp b/include/hpp_proto/grpc/server.hpp
index 60b1b4b..79e62b6 100644
--- a/include/hpp_proto/grpc/server.hpp
+++ b/include/hpp_proto/grpc/server.hpp
@@ -4,6 +4,8 @@
 #include <grpcpp/impl/service_type.h>
 #include <grpcpp/support/server_callback.h>
 
+#include <atomic>
+
 #if GRPC_CPP_VERSION_MINOR > 51
 #include <grpcpp/impl/server_callback_handlers.h>
 #else
@@ -46,12 +48,32 @@ public:
   }
 };
 
+// A call can be finished by its handler and by the fallbacks of BasicServerReactor for failed reads and writes, which
+// may run concurrently; gRPC accepts only one of them: the first one decides the status of the call.
+template <typename Reactor>
+class FinishOnce : public Reactor {
+  std::atomic_flag finished_;
+
+public:
+  void Finish(::grpc::Status s) {
+    if (!finished_.test_and_set()) {
+      Reactor::Finish(std::move(s));
+    }
+  }
+
+  void StartWriteAndFinish(const ::grpc::ByteBuffer *response, ::grpc::WriteOptions options, ::grpc::Status s) {
+    if (!finished_.test_and_set()) {
+      Reactor::StartWriteAndFinish(response, options, std::move(s));
+    }
+  }
+};
+
 template <typename Method, RpcType Type = static_cast<RpcType>(Method::rpc_type)>
 class ServerRPC;
 
 // NOLINTBEGIN(portability-template-virtual-member-function)
 template <typename Method>
-class ServerRPC<Method, RpcType::NORMAL_RPC> : public ::grpc::ServerUnaryReactor {
+class ServerRPC<Method, RpcType::NORMAL_RPC> : public FinishOnce<::grpc::ServerUnaryReactor> {
   ::grpc::CallbackServerContext *context_;
   ::grpc::ByteBuffer *resp_buf_;
 
@@ -85,7 +107,7 @@ public:
 };
 
 template <typename Method>
-class ServerRPC<Method, RpcType::CLIENT_STREAMING> : public ::grpc::ServerReadReactor<::grpc::ByteBuffer> {
+class ServerRPC<Method, RpcType::CLIENT_STREAMING> : public FinishOnce<::grpc::ServerReadReactor<::grpc::ByteBuffer>> {
   ::grpc::CallbackServerContext *context_;
   ::grpc::ByteBuffer request_;
   ::grpc::ByteBuffer *resp_buf_;
@@ -117,7 +139,7 @@ public:
 };
 
 template <typename Method>
-class ServerRPC<Method, RpcType::SERVER_STREAMING> : public ::grpc::ServerWriteReactor<::grpc::ByteBuffer> {
+class ServerRPC<Method, RpcType::SERVER_STREAMING> : public FinishOnce<::grpc::ServerWriteReactor<::grpc::ByteBuffer>> {
   ::grpc::CallbackServerContext *context_;
   ::grpc::ByteBuffer response_;
 
@@ -185,7 +207,7 @@ public:
 
 template <typename Method>
 class ServerRPC<Method, RpcType::BIDI_STREAMING>
-    : public ::grpc::ServerBidiReactor<::grpc::ByteBuffer, ::grpc::ByteBuffer> {
+    : public FinishOnce<::grpc::ServerBidiReactor<::grpc::ByteBuffer, ::grpc::ByteBuffer>> {
   ::grpc::CallbackServerContext *context_;
   ::grpc::ByteBuffer request_;
   ::grpc::ByteBuffer response_;
-- 
2.43.0


From 17694a2018d6020e7a2af8bde448f6707f812d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 28/49] fix: send an empty message when a call is finished as
 OK without a response

---
 include/hpp_proto/grpc/server.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/grpc/server.hpp b/include/hpp_proto/grpc/server.hpp
index 79e62b6..bba858c 100644
--- a/include/hpp_proto/grpc/server.hpp
+++ b/include/hpp_proto/grpc/server.hpp
@@ -79,7 +79,9 @@ class ServerRPC<Method, RpcType::NORMAL_RPC> : public FinishOnce<::grpc::ServerU
 
 public:
   ServerRPC(::grpc::CallbackServerContext *context, ::grpc::ByteBuffer *resp_buf)
-      : context_(context), resp_buf_(resp_buf) {}
+      : context_(context), resp_buf_(resp_buf) {
+    *resp_buf_ = ::grpc::ByteBuffer{nullptr, 0}; // a call finished as OK without a response sends an empty message
+  }
 
   [[nodiscard]] ::grpc::CallbackServerContext &context() const { return *context_; }
   void finish(::grpc::Status s) { this->Finish(std::move(s)); }
@@ -117,7 +119,9 @@ protected:
 
 public:
   ServerRPC(::grpc::CallbackServerContext *context, ::grpc::ByteBuffer *resp_buf)
-      : context_(context), resp_buf_(resp_buf) {}
+      : context_(context), resp_buf_(resp_buf) {
+    *resp_buf_ = ::grpc::ByteBuffer{nullptr, 0}; // a call finished as OK without a response sends an empty message
+  }
 
   void start_read() { this->StartRead(&request_); }
 
-- 
2.43.0


From 5661238a48e0fd8e8746692290f679a6270e561b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:13 +0000
Subject: [PATCH 29/49] fix: report an unserializable request of a blocking
 call instead of aborting

---
 include/hpp_proto/grpc/client.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/grpc/client.hpp b/include/hpp_proto/grpc/client.hpp
index 18bbdef..82d0bd9 100644
--- a/include/hpp_proto/grpc/client.hpp
+++ b/include/hpp_proto/grpc/client.hpp
@@ -109,11 +109,15 @@ public:
   call(::grpc::ClientContext &context, const Request &request, Response &response,
        hpp_proto::concepts::is_option_type auto &&...option) {
     pb_context ctx{std::forward<decltype(option)>(option)...};
-    const hpp_proto::with_pb_context request_with_context{request, ctx};
+    // serialized up front: a failure inside of BlockingUnaryCallImpl would abort the process
+    ::grpc::ByteBuffer request_buffer;
+    if (auto status = ::hpp_proto::grpc::write_binpb(request, request_buffer, ctx); !status.ok()) {
+      return status;
+    }
     hpp_proto::with_pb_context response_with_context{response, ctx};
 
     return ::grpc::internal::BlockingUnaryCallImpl{this->channel_.get(), grpc_method<Method>(), &context,
-                                                   request_with_context, &response_with_context}
+                                                   request_buffer, &response_with_context}
         .status();
   }
 
-- 
2.43.0


From 8f10755d853246127848a9d2265b53194c402d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 30/49] fix: deliver a request serialization failure when the
 call is started, and once

---
 include/hpp_proto/grpc/client.hpp | 39 ++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/include/hpp_proto/grpc/client.hpp b/include/hpp_proto/grpc/client.hpp
index 82d0bd9..6e51659 100644
--- a/include/hpp_proto/grpc/client.hpp
+++ b/include/hpp_proto/grpc/client.hpp
@@ -7,6 +7,7 @@
 #include <grpcpp/support/stub_options.h>
 
 #include <array>
+#include <atomic>
 #include <condition_variable>
 #include <hpp_proto/grpc/serialization.hpp>
 #include <memory>
@@ -144,6 +145,16 @@ class ClientCallbackReactor : public ClientCallbackSelector<static_cast<RpcType>
   using base = ClientCallbackSelector<static_cast<RpcType>(Method::rpc_type)>::reactor;
   ::grpc::ByteBuffer request_;
   ::grpc::ByteBuffer response_;
+  // When the request cannot be serialized there is no call: the failure is delivered to OnDone() by whoever comes last,
+  // start_call() or the removal of the last hold.
+  ::grpc::Status prepare_status_;
+  std::atomic<int> pending_{1};
+
+  void release_unprepared() {
+    if (pending_.fetch_sub(1) == 1) {
+      this->OnDone(::grpc::Status{prepare_status_});
+    }
+  }
 
 public:
   static const auto rpc_type = static_cast<RpcType>(Method::rpc_type);
@@ -159,7 +170,7 @@ public:
       ::grpc::internal::ClientCallbackUnaryFactory::Create<::grpc::ByteBuffer, ::grpc::ByteBuffer>(
           stub.channel_.get(), stub.template grpc_method<Method>(), &context, &request_, &response_, this);
     } else {
-      this->OnDone(result);
+      prepare_status_ = std::move(result);
     }
   }
 
@@ -179,7 +190,7 @@ public:
       ::grpc::internal::ClientCallbackReaderFactory<::grpc::ByteBuffer>::Create(
           stub.channel_.get(), stub.template grpc_method<Method>(), &context, &request_, this);
     } else {
-      this->OnDone(result);
+      prepare_status_ = std::move(result);
     }
   }
 
@@ -190,11 +201,19 @@ public:
         stub.channel_.get(), stub.template grpc_method<Method>(), &context, this);
   }
 
-  void start_call() { this->StartCall(); }
+  void start_call() {
+    if (prepare_status_.ok()) {
+      this->StartCall();
+    } else {
+      release_unprepared();
+    }
+  }
   void start_read()
     requires Method::server_streaming
   {
-    this->StartRead(&response_);
+    if (prepare_status_.ok()) {
+      this->StartRead(&response_);
+    }
   }
 
   template <typename Traits>
@@ -236,12 +255,20 @@ public:
   void add_multiple_holds(int holds)
     requires(Method::client_streaming || Method::server_streaming)
   {
-    this->AddMultipleHolds(holds);
+    if (prepare_status_.ok()) {
+      this->AddMultipleHolds(holds);
+    } else {
+      pending_ += holds;
+    }
   }
   void remove_hold()
     requires(Method::client_streaming || Method::server_streaming)
   {
-    this->RemoveHold();
+    if (prepare_status_.ok()) {
+      this->RemoveHold();
+    } else {
+      release_unprepared();
+    }
   }
 
   template <typename Traits>
-- 
2.43.0


From 3349085feed5ba8aff75641d532ec9155d9296fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 31/49] fix: a mutable reference to a repeated scalar field
 converts to a constant one

---
 include/hpp_proto/dynamic_message/repeated_scalar_fields.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/dynamic_message/repeated_scalar_fields.hpp b/include/hpp_proto/dynamic_message/repeated_scalar_fields.hpp
index e015aed..3d8cd1f 100644
--- a/include/hpp_proto/dynamic_message/repeated_scalar_fields.hpp
+++ b/include/hpp_proto/dynamic_message/repeated_scalar_fields.hpp
@@ -166,7 +166,7 @@ public:
   [[nodiscard]] std::pmr::monotonic_buffer_resource &memory_resource() const noexcept { return *memory_resource_; }
 
   [[nodiscard]] repeated_scalar_field_cref<T, Kind> cref() const noexcept {
-    return repeated_scalar_field_cref<T, Kind>{*descriptor_, access_storage()};
+    return repeated_scalar_field_cref<T, Kind>{*descriptor_, *storage_};
   }
   // NOLINTNEXTLINE(hicpp-explicit-conversions)
   [[nodiscard]] operator repeated_scalar_field_cref<T, Kind>() const noexcept { return cref(); }
-- 
2.43.0


From 114f50ea00911b71951983704f9a9cc6052197f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 32/49] fix: an unset singular field of a dynamic message reads
 as its default

---
 include/hpp_proto/dynamic_message/bytes_fields.hpp  |  2 +-
 include/hpp_proto/dynamic_message/enum_fields.hpp   | 10 +++-------
 include/hpp_proto/dynamic_message/scalar_fields.hpp |  2 +-
 include/hpp_proto/dynamic_message/string_fields.hpp |  6 +++---
 4 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/bytes_fields.hpp b/include/hpp_proto/dynamic_message/bytes_fields.hpp
index f51dae2..4c735e7 100644
--- a/include/hpp_proto/dynamic_message/bytes_fields.hpp
+++ b/include/hpp_proto/dynamic_message/bytes_fields.hpp
@@ -66,7 +66,7 @@ public:
     return {bspan.data(), bspan.size()};
   }
   [[nodiscard]] bytes_view value() const noexcept {
-    if (descriptor().resolved_info().explicit_presence() && !has_value()) {
+    if (!has_value()) {
       return default_value();
     }
     return {storage_->of_bytes.content, storage_->of_bytes.size};
diff --git a/include/hpp_proto/dynamic_message/enum_fields.hpp b/include/hpp_proto/dynamic_message/enum_fields.hpp
index fcbc1e4..c28fe34 100644
--- a/include/hpp_proto/dynamic_message/enum_fields.hpp
+++ b/include/hpp_proto/dynamic_message/enum_fields.hpp
@@ -172,7 +172,7 @@ public:
   }
 
   [[nodiscard]] enum_value value() const noexcept {
-    if (descriptor().resolved_info().explicit_presence() && !has_value()) {
+    if (!has_value()) {
       return default_value();
     }
     return {enum_descriptor(), storage_->of_int32.content};
@@ -212,8 +212,7 @@ public:
   }
 
   [[nodiscard]] std::int32_t number() const {
-    const bool is_default = descriptor().resolved_info().explicit_presence() && !has_value();
-    return is_default ? descriptor_->default_value_as<int32_t>() : storage_->of_int32.content;
+    return has_value() ? storage_->of_int32.content : descriptor_->default_value_as<int32_t>();
   }
 
   /**
@@ -283,10 +282,7 @@ public:
     return *descriptor_->enum_field_type_descriptor();
   }
 
-  [[nodiscard]] std::int32_t number() const {
-    return descriptor().resolved_info().explicit_presence() && !has_value() ? descriptor_->default_value_as<int32_t>()
-                                                                            : storage_->of_int32.content;
-  }
+  [[nodiscard]] std::int32_t number() const { return cref().number(); }
   /**
    * @brief Returns the enum value's symbolic name (empty if schema lacks this number).
    */
diff --git a/include/hpp_proto/dynamic_message/scalar_fields.hpp b/include/hpp_proto/dynamic_message/scalar_fields.hpp
index a6eda1c..38c7f3d 100644
--- a/include/hpp_proto/dynamic_message/scalar_fields.hpp
+++ b/include/hpp_proto/dynamic_message/scalar_fields.hpp
@@ -67,7 +67,7 @@ public:
   [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
   [[nodiscard]] value_type default_value() const { return descriptor_->template default_value_as<value_type>(); }
   [[nodiscard]] value_type value() const {
-    if (descriptor().resolved_info().explicit_presence() && !has_value()) {
+    if (!has_value()) {
       return default_value();
     }
     return access_storage().content;
diff --git a/include/hpp_proto/dynamic_message/string_fields.hpp b/include/hpp_proto/dynamic_message/string_fields.hpp
index 19e01e0..bf3d07a 100644
--- a/include/hpp_proto/dynamic_message/string_fields.hpp
+++ b/include/hpp_proto/dynamic_message/string_fields.hpp
@@ -61,12 +61,12 @@ public:
     return storage_->selection_matches(descriptor().resolved_info().selection_ordinal());
   }
   [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
-  [[nodiscard]] std::size_t size() const noexcept { return storage_->of_string.size; }
+  [[nodiscard]] std::size_t size() const noexcept { return value().size(); }
   [[nodiscard]] std::string_view default_value() const noexcept { return descriptor_->proto().default_value; }
 
   [[nodiscard]] std::string_view value() const noexcept {
-    if (descriptor().resolved_info().explicit_presence() && !has_value()) {
-      return descriptor_->proto().default_value;
+    if (!has_value()) {
+      return default_value();
     }
     return {storage_->of_string.content, storage_->of_string.size};
   }
-- 
2.43.0


From 9c326e9f1703c5bd3a25344ac3d30b521d18b947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:55 +0000
Subject: [PATCH 33/49] fix: reading an unset enum field through a mutable
 reference does not write to the message

---
 include/hpp_proto/dynamic_message/enum_fields.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/enum_fields.hpp b/include/hpp_proto/dynamic_message/enum_fields.hpp
index c28fe34..de4a1d0 100644
--- a/include/hpp_proto/dynamic_message/enum_fields.hpp
+++ b/include/hpp_proto/dynamic_message/enum_fields.hpp
@@ -267,12 +267,7 @@ public:
   [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
   [[nodiscard]] enum_value default_value() const noexcept { return cref().default_value(); }
   // NOLINTNEXTLINE(bugprone-exception-escape)
-  [[nodiscard]] enum_value_mref value() const noexcept {
-    if (descriptor().resolved_info().explicit_presence() && !has_value()) {
-      storage_->of_int32.content = descriptor_->default_value_as<int32_t>();
-    }
-    return {*descriptor_->enum_field_type_descriptor(), storage_->of_int32.content};
-  }
+  [[nodiscard]] enum_value value() const noexcept { return cref().value(); }
   [[nodiscard]] ::hpp_proto::value_proxy<value_type> operator->() const noexcept { return {value()}; }
 
   void reset() const noexcept { storage_->of_int32.selection = 0; }
-- 
2.43.0


From 3f1dab4df15a8ac95a8871bd8250471a131fdb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:55 +0000
Subject: [PATCH 34/49] fix: resetting a oneof member that is not selected
 leaves the selected one alone

---
 include/hpp_proto/dynamic_message/bytes_fields.hpp   | 6 ++++--
 include/hpp_proto/dynamic_message/enum_fields.hpp    | 6 +++++-
 include/hpp_proto/dynamic_message/field_refs.hpp     | 6 +++++-
 include/hpp_proto/dynamic_message/message_fields.hpp | 9 ++++++---
 include/hpp_proto/dynamic_message/scalar_fields.hpp  | 6 +++++-
 include/hpp_proto/dynamic_message/string_fields.hpp  | 6 ++++--
 6 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/bytes_fields.hpp b/include/hpp_proto/dynamic_message/bytes_fields.hpp
index 4c735e7..db40c53 100644
--- a/include/hpp_proto/dynamic_message/bytes_fields.hpp
+++ b/include/hpp_proto/dynamic_message/bytes_fields.hpp
@@ -172,8 +172,10 @@ public:
   void set_as_default() const noexcept { adopt(default_value()); }
 
   void reset() const noexcept {
-    storage_->of_bytes.size = 0;
-    storage_->of_bytes.selection = 0;
+    if (has_value()) {
+      storage_->of_bytes.size = 0;
+      storage_->of_bytes.selection = 0;
+    }
   }
 
   [[nodiscard]] const field_descriptor_t &descriptor() const noexcept { return *descriptor_; }
diff --git a/include/hpp_proto/dynamic_message/enum_fields.hpp b/include/hpp_proto/dynamic_message/enum_fields.hpp
index de4a1d0..f134bd6 100644
--- a/include/hpp_proto/dynamic_message/enum_fields.hpp
+++ b/include/hpp_proto/dynamic_message/enum_fields.hpp
@@ -270,7 +270,11 @@ public:
   [[nodiscard]] enum_value value() const noexcept { return cref().value(); }
   [[nodiscard]] ::hpp_proto::value_proxy<value_type> operator->() const noexcept { return {value()}; }
 
-  void reset() const noexcept { storage_->of_int32.selection = 0; }
+  void reset() const noexcept {
+    if (has_value()) {
+      storage_->of_int32.selection = 0;
+    }
+  }
 
   [[nodiscard]] const field_descriptor_t &descriptor() const noexcept { return *descriptor_; }
   [[nodiscard]] const enum_descriptor_t &enum_descriptor() const noexcept {
diff --git a/include/hpp_proto/dynamic_message/field_refs.hpp b/include/hpp_proto/dynamic_message/field_refs.hpp
index 27250cf..b98dc22 100644
--- a/include/hpp_proto/dynamic_message/field_refs.hpp
+++ b/include/hpp_proto/dynamic_message/field_refs.hpp
@@ -138,7 +138,11 @@ public:
 
   [[nodiscard]] std::pmr::monotonic_buffer_resource &memory_resource() const noexcept { return *memory_resource_; }
 
-  void reset() noexcept { storage_->reset(); }
+  void reset() noexcept {
+    if (has_value()) {
+      storage_->reset();
+    }
+  }
   [[nodiscard]] const field_descriptor_t &descriptor() const noexcept { return *descriptor_; }
   [[nodiscard]] field_kind_t field_kind() const noexcept { return cref().field_kind(); }
 
diff --git a/include/hpp_proto/dynamic_message/message_fields.hpp b/include/hpp_proto/dynamic_message/message_fields.hpp
index d2a05f5..37f672e 100644
--- a/include/hpp_proto/dynamic_message/message_fields.hpp
+++ b/include/hpp_proto/dynamic_message/message_fields.hpp
@@ -439,8 +439,7 @@ public:
 
   void clear_field(const field_descriptor_t &desc) const noexcept {
     assert(desc.parent_message() == descriptor_);
-    // NOLINTNEXTLINE(cppcoreguidelines-pro-type-union-access)
-    storage_for(desc).reset();
+    field(desc).reset();
   }
 
   void clear_field(const oneof_descriptor_t &desc) const noexcept {
@@ -651,7 +650,11 @@ public:
     return cref().get<U>();
   }
 
-  void reset() const noexcept { storage_->of_message.selection = 0; }
+  void reset() const noexcept {
+    if (has_value()) {
+      storage_->of_message.selection = 0;
+    }
+  }
 
   [[nodiscard]] const field_descriptor_t &descriptor() const noexcept { return *descriptor_; }
   [[nodiscard]] const message_descriptor_t &message_descriptor() const noexcept {
diff --git a/include/hpp_proto/dynamic_message/scalar_fields.hpp b/include/hpp_proto/dynamic_message/scalar_fields.hpp
index 38c7f3d..554b410 100644
--- a/include/hpp_proto/dynamic_message/scalar_fields.hpp
+++ b/include/hpp_proto/dynamic_message/scalar_fields.hpp
@@ -166,7 +166,11 @@ public:
   [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
   [[nodiscard]] value_type default_value() const { return cref().default_value(); }
   [[nodiscard]] value_type value() const { return cref().value(); }
-  void reset() noexcept { access_storage().selection = 0; }
+  void reset() noexcept {
+    if (has_value()) {
+      access_storage().selection = 0;
+    }
+  }
   void set_as_default() const { set(default_value()); }
 
   value_type &emplace() const noexcept { // NOLINT(modernize-use-nodiscard)
diff --git a/include/hpp_proto/dynamic_message/string_fields.hpp b/include/hpp_proto/dynamic_message/string_fields.hpp
index bf3d07a..9fdf470 100644
--- a/include/hpp_proto/dynamic_message/string_fields.hpp
+++ b/include/hpp_proto/dynamic_message/string_fields.hpp
@@ -171,8 +171,10 @@ public:
   void set_as_default() const noexcept { adopt(default_value()); }
 
   void reset() const noexcept {
-    storage_->of_string.size = 0;
-    storage_->of_string.selection = 0;
+    if (has_value()) {
+      storage_->of_string.size = 0;
+      storage_->of_string.selection = 0;
+    }
   }
 
   [[nodiscard]] const field_descriptor_t &descriptor() const noexcept { return *descriptor_; }
-- 
2.43.0


From a2035c5d7bd23060ae67de0cd35389c49d0d5c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 35/49] fix: cloning or aliasing a dynamic message copies every
 field, oneof and absence

---
 include/hpp_proto/dynamic_message/bytes_fields.hpp   |  8 +++++++-
 include/hpp_proto/dynamic_message/enum_fields.hpp    |  6 +++++-
 include/hpp_proto/dynamic_message/field_refs.hpp     |  6 +++++-
 include/hpp_proto/dynamic_message/message_fields.hpp |  8 ++++++--
 include/hpp_proto/dynamic_message/scalar_fields.hpp  | 10 ++++++++--
 include/hpp_proto/dynamic_message/string_fields.hpp  |  8 +++++++-
 6 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/bytes_fields.hpp b/include/hpp_proto/dynamic_message/bytes_fields.hpp
index db40c53..6e3fe3d 100644
--- a/include/hpp_proto/dynamic_message/bytes_fields.hpp
+++ b/include/hpp_proto/dynamic_message/bytes_fields.hpp
@@ -149,7 +149,13 @@ public:
     storage_->of_bytes.selection = descriptor_->resolved_info().selection_ordinal();
   }
 
-  void alias_from(const cref_type &other) const noexcept { adopt(other.value()); }
+  void alias_from(const cref_type &other) const noexcept {
+    if (other.has_value()) {
+      adopt(other.value());
+    } else {
+      reset();
+    }
+  }
 
   void clone_from(const cref_type &other) const {
     if (other.has_value()) {
diff --git a/include/hpp_proto/dynamic_message/enum_fields.hpp b/include/hpp_proto/dynamic_message/enum_fields.hpp
index f134bd6..eaf2320 100644
--- a/include/hpp_proto/dynamic_message/enum_fields.hpp
+++ b/include/hpp_proto/dynamic_message/enum_fields.hpp
@@ -251,7 +251,11 @@ public:
 
   void alias_from(const cref_type &other) const noexcept {
     assert(this->descriptor_ == &other.descriptor());
-    storage_->of_int32 = other.storage_->of_int32;
+    if (other.has_value()) {
+      storage_->of_int32 = other.storage_->of_int32;
+    } else {
+      reset();
+    }
   }
 
   void clone_from(const cref_type &other) const noexcept {
diff --git a/include/hpp_proto/dynamic_message/field_refs.hpp b/include/hpp_proto/dynamic_message/field_refs.hpp
index b98dc22..d17e9ca 100644
--- a/include/hpp_proto/dynamic_message/field_refs.hpp
+++ b/include/hpp_proto/dynamic_message/field_refs.hpp
@@ -163,7 +163,11 @@ public:
   auto visit(auto &&v) const;
   void alias_from(const field_mref &other) const noexcept {
     assert(this->descriptor_ == other.descriptor_);
-    *storage_ = *other.storage_;
+    if (other.has_value()) {
+      *storage_ = *other.storage_;
+    } else if (has_value()) {
+      storage_->reset();
+    }
   }
   void clone_from(const field_cref &other) const;
 
diff --git a/include/hpp_proto/dynamic_message/message_fields.hpp b/include/hpp_proto/dynamic_message/message_fields.hpp
index 37f672e..fd36c01 100644
--- a/include/hpp_proto/dynamic_message/message_fields.hpp
+++ b/include/hpp_proto/dynamic_message/message_fields.hpp
@@ -479,7 +479,7 @@ public:
 
   void clone_from(const cref_type &other) const {
     assert(this->descriptor_ == &other.descriptor());
-    for (std::size_t i = 0; i < num_slots(); ++i) {
+    for (std::size_t i = 0; i < descriptor_->fields().size(); ++i) {
       fields()[i].clone_from(other.fields()[i]);
     }
   }
@@ -663,7 +663,11 @@ public:
 
   void alias_from(const message_field_mref &other) const noexcept {
     assert(&message_descriptor() == &other.message_descriptor());
-    storage_->of_message = other.storage_->of_message;
+    if (other.has_value()) {
+      storage_->of_message = other.storage_->of_message;
+    } else {
+      reset();
+    }
   }
 
   void clone_from(const cref_type &other) const {
diff --git a/include/hpp_proto/dynamic_message/scalar_fields.hpp b/include/hpp_proto/dynamic_message/scalar_fields.hpp
index 554b410..805e229 100644
--- a/include/hpp_proto/dynamic_message/scalar_fields.hpp
+++ b/include/hpp_proto/dynamic_message/scalar_fields.hpp
@@ -155,8 +155,14 @@ public:
     storage.selection = descriptor_->resolved_info().selection_ordinal();
   }
 
-  void alias_from(const scalar_field_cref<T, Kind> &other) const noexcept { set(other.value()); }
-  void clone_from(scalar_field_cref<T, Kind> other) const { set(other.value()); }
+  void alias_from(const scalar_field_cref<T, Kind> &other) const noexcept { clone_from(other); }
+  void clone_from(scalar_field_cref<T, Kind> other) const noexcept {
+    if (other.has_value()) {
+      set(other.access_storage().content);
+    } else if (has_value()) {
+      access_storage().selection = 0;
+    }
+  }
 
   [[nodiscard]] cref_type cref() const noexcept { return {*descriptor_, *storage_}; }
   // NOLINTNEXTLINE(hicpp-explicit-conversions)
diff --git a/include/hpp_proto/dynamic_message/string_fields.hpp b/include/hpp_proto/dynamic_message/string_fields.hpp
index 9fdf470..b0eb0ac 100644
--- a/include/hpp_proto/dynamic_message/string_fields.hpp
+++ b/include/hpp_proto/dynamic_message/string_fields.hpp
@@ -148,7 +148,13 @@ public:
     storage_->of_string.selection = descriptor_->resolved_info().selection_ordinal();
   }
 
-  void alias_from(const cref_type &other) const noexcept { adopt(other.value()); }
+  void alias_from(const cref_type &other) const noexcept {
+    if (other.has_value()) {
+      adopt(other.value());
+    } else {
+      reset();
+    }
+  }
 
   void clone_from(const cref_type &other) const {
     if (other.has_value()) {
-- 
2.43.0


From 9d76b264798716bc1691f71238e4a2043878d6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 36/49] fix: emplacing a message field that runs out of memory
 leaves the field as it was

---
 include/hpp_proto/dynamic_message/message_fields.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/message_fields.hpp b/include/hpp_proto/dynamic_message/message_fields.hpp
index fd36c01..5023976 100644
--- a/include/hpp_proto/dynamic_message/message_fields.hpp
+++ b/include/hpp_proto/dynamic_message/message_fields.hpp
@@ -621,9 +621,10 @@ public:
 
   message_value_mref emplace() const { // NOLINT(modernize-use-nodiscard)
     if (!has_value()) {
-      storage_->of_message.selection = descriptor_->resolved_info().selection_ordinal();
-      storage_->of_message.content = static_cast<value_storage *>(
+      auto *content = static_cast<value_storage *>(
           memory_resource_->allocate(sizeof(value_storage) * num_slots(), alignof(value_storage)));
+      storage_->of_message.content = content;
+      storage_->of_message.selection = descriptor_->resolved_info().selection_ordinal();
     }
     auto result = message_value_mref{message_descriptor(), storage_->of_message.content, *memory_resource_};
     result.reset();
-- 
2.43.0


From 76bdd246ed7c334401c89ea09829ad4d09818ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 37/49] fix: setting a repeated field from unacceptable values
 leaves it unchanged

---
 .../dynamic_message/repeated_enum_fields.hpp        | 13 ++++++-------
 .../dynamic_message/repeated_message_fields.hpp     |  8 +++++---
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/repeated_enum_fields.hpp b/include/hpp_proto/dynamic_message/repeated_enum_fields.hpp
index 4d84732..bbf2689 100644
--- a/include/hpp_proto/dynamic_message/repeated_enum_fields.hpp
+++ b/include/hpp_proto/dynamic_message/repeated_enum_fields.hpp
@@ -330,17 +330,16 @@ public:
   template <std::ranges::sized_range Range>
     requires std::same_as<std::ranges::range_value_t<Range>, std::string_view>
   [[nodiscard]] std::expected<void, dynamic_message_errc> set(Range const &r) const {
+    for (const std::string_view name : r) {
+      if (enum_descriptor().value_of(name) == nullptr) [[unlikely]] {
+        return std::unexpected(dynamic_message_errc::invalid_enum_name);
+      }
+    }
     resize(std::ranges::size(r));
     std::size_t i = 0;
     auto values = numbers();
     for (const std::string_view name : r) {
-      const auto *pval = enum_descriptor().value_of(name);
-      if (pval) [[likely]] {
-        values[i++] = *pval;
-      } else {
-        resize(i);
-        return std::unexpected(dynamic_message_errc::invalid_enum_name);
-      }
+      values[i++] = *enum_descriptor().value_of(name);
     }
     return {};
   }
diff --git a/include/hpp_proto/dynamic_message/repeated_message_fields.hpp b/include/hpp_proto/dynamic_message/repeated_message_fields.hpp
index c48bc8f..f11e6ef 100644
--- a/include/hpp_proto/dynamic_message/repeated_message_fields.hpp
+++ b/include/hpp_proto/dynamic_message/repeated_message_fields.hpp
@@ -230,12 +230,14 @@ public:
   template <typename T>
     requires settable_from_v<T>
   std::expected<void, dynamic_message_errc> set(const T &v) const {
-    resize(v.size());
-
-    for (std::size_t i = 0; i < size(); ++i) {
+    for (std::size_t i = 0; i < v.size(); ++i) {
       if (&message_descriptor() != &(v[i].descriptor())) {
         return std::unexpected(dynamic_message_errc::wrong_message_type);
       }
+    }
+    resize(v.size());
+
+    for (std::size_t i = 0; i < size(); ++i) {
       (*this)[i].clone_from(v[i]);
     }
     return {};
-- 
2.43.0


From 2a3025f00659d10f5563776a1fc934ba5b7b962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:33 +0000
Subject: [PATCH 38/49] fix: dynamic messages keep the negative zero of an
 implicit-presence field

---
 .../hpp_proto/dynamic_message/pb_serializer_ext.hpp |  5 ++---
 include/hpp_proto/dynamic_message/scalar_fields.hpp | 13 +++++++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp b/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
index aaff309..d1f3bb3 100644
--- a/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
+++ b/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
@@ -74,9 +74,8 @@ struct field_deserializer {
     if (auto ec = deserialize(value, mref.descriptor()); !ec.ok()) [[likely]] {
       return ec;
     }
-    if (mref.descriptor().resolved_info().explicit_presence() || value != mref.default_value()) {
-      mref.set(value);
-    } else {
+    mref.set(value);
+    if (!mref.cref().is_present_or_explicit_default()) {
       mref.reset();
     }
     return {};
diff --git a/include/hpp_proto/dynamic_message/scalar_fields.hpp b/include/hpp_proto/dynamic_message/scalar_fields.hpp
index 805e229..27ca7e2 100644
--- a/include/hpp_proto/dynamic_message/scalar_fields.hpp
+++ b/include/hpp_proto/dynamic_message/scalar_fields.hpp
@@ -22,6 +22,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <expected>
 #include <memory_resource>
 #include <type_traits>
@@ -75,8 +76,16 @@ public:
 
   [[nodiscard]] bool is_present_or_explicit_default() const {
     if (has_value()) {
-      return descriptor().resolved_info().explicit_presence() ||
-             access_storage().content != descriptor_->template default_value_as<value_type>();
+      if (descriptor().resolved_info().explicit_presence()) {
+        return true;
+      }
+      const auto value = access_storage().content;
+      if constexpr (std::is_floating_point_v<value_type>) {
+        // protobuf sends -0.0 although it compares equal to the default
+        return value != default_value() || std::signbit(value) != std::signbit(default_value());
+      } else {
+        return value != default_value();
+      }
     }
     return false;
   }
-- 
2.43.0


From 05bb2154fc446dbe66ea0bd33feb3471b8b820f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 39/49] fix: dynamic messages report the default value of a
 bytes field without its escapes

---
 .../dynamic_message/bytes_fields.hpp          |  8 ++--
 .../dynamic_message/factory_addons.hpp        | 43 ++++++++++++++++++-
 2 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/bytes_fields.hpp b/include/hpp_proto/dynamic_message/bytes_fields.hpp
index 6e3fe3d..7a54fcf 100644
--- a/include/hpp_proto/dynamic_message/bytes_fields.hpp
+++ b/include/hpp_proto/dynamic_message/bytes_fields.hpp
@@ -61,9 +61,8 @@ public:
   }
   [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
   [[nodiscard]] bytes_view default_value() const noexcept {
-    const auto &v = descriptor_->proto().default_value;
-    auto bspan = std::as_bytes(std::span{v.data(), v.size()});
-    return {bspan.data(), bspan.size()};
+    const auto v = descriptor_->default_bytes();
+    return {v.data(), v.size()};
   }
   [[nodiscard]] bytes_view value() const noexcept {
     if (!has_value()) {
@@ -75,8 +74,7 @@ public:
   [[nodiscard]] bool is_present_or_explicit_default() const noexcept {
     if (has_value()) {
       auto val = std::span{storage_->of_bytes.content, storage_->of_bytes.size};
-      auto default_val = std::as_bytes(std::span{descriptor_->proto().default_value});
-      return descriptor().resolved_info().explicit_presence() || !std::ranges::equal(val, default_val);
+      return descriptor().resolved_info().explicit_presence() || !std::ranges::equal(val, default_value());
     }
     return false;
   }
diff --git a/include/hpp_proto/dynamic_message/factory_addons.hpp b/include/hpp_proto/dynamic_message/factory_addons.hpp
index 32ee519..755c3a3 100644
--- a/include/hpp_proto/dynamic_message/factory_addons.hpp
+++ b/include/hpp_proto/dynamic_message/factory_addons.hpp
@@ -126,10 +126,14 @@ struct dynamic_message_factory_addons {
     using type = void;
 
     field_descriptor(Derived &self, [[maybe_unused]] const auto &inherited_options,
-                     [[maybe_unused]] std::pmr::memory_resource *resource) {
+                     [[maybe_unused]] std::pmr::memory_resource *resource)
+        : default_bytes_(resource) {
       set_default_value(self.proto(), resource);
     }
 
+    /** @brief The default value of a bytes field, with the escapes used in descriptors resolved. */
+    [[nodiscard]] std::span<const std::byte> default_bytes() const noexcept { return default_bytes_; }
+
     template <typename T>
     [[nodiscard]] const T &default_value_as() const {
       return std::get<T>(default_value_);
@@ -166,6 +170,7 @@ struct dynamic_message_factory_addons {
     friend class detail::dynamic_message_factory_impl;
 
     std::variant<bool, int32_t, uint32_t, int64_t, uint64_t, double, float> default_value_;
+    vector_t<std::byte> default_bytes_;
     bool default_value_valid_ = true;
     resolved_field_info resolved_info_;
 
@@ -185,6 +190,39 @@ struct dynamic_message_factory_addons {
       }
     }
 
+    // Descriptors hold the default value of a bytes field C-escaped.
+    void set_bytes_default_value(std::string_view value) {
+      auto take_digits = [&](int base, std::size_t max_digits) {
+        unsigned byte = 0;
+        const auto digits = value.substr(0, max_digits);
+        const auto result = std::from_chars(digits.data(), std::to_address(digits.cend()), byte, base);
+        default_value_valid_ = default_value_valid_ && result.ec == std::errc{} && byte <= 0xFFU;
+        value.remove_prefix(static_cast<std::size_t>(result.ptr - digits.data()));
+        return static_cast<std::byte>(byte);
+      };
+      default_bytes_.reserve(value.size());
+      while (!value.empty() && default_value_valid_) {
+        const char c = value.front();
+        value.remove_prefix(1);
+        if (c != '\\') {
+          default_bytes_.push_back(static_cast<std::byte>(c));
+          continue;
+        }
+        constexpr std::string_view codes = "abfnrtv\\?'\"";
+        constexpr std::string_view chars = "\a\b\f\n\r\t\v\\?'\"";
+        const char escape = value.empty() ? char{} : value.front();
+        if (const auto pos = codes.find(escape); pos != std::string_view::npos) {
+          value.remove_prefix(1);
+          default_bytes_.push_back(static_cast<std::byte>(chars[pos]));
+        } else if (escape == 'x' || escape == 'X') {
+          value.remove_prefix(1);
+          default_bytes_.push_back(take_digits(16, 2));
+        } else {
+          default_bytes_.push_back(take_digits(8, 3));
+        }
+      }
+    }
+
     void set_default_value(const google::protobuf::FieldDescriptorProto<traits_type> &proto,
                            std::pmr::memory_resource *resource) {
       using enum google::protobuf::FieldDescriptorProto_::Type;
@@ -218,6 +256,9 @@ struct dynamic_message_factory_addons {
       case TYPE_BOOL:
         default_value_ = proto.default_value == "true";
         break;
+      case TYPE_BYTES:
+        set_bytes_default_value(proto.default_value);
+        break;
       default:
         break;
       }
-- 
2.43.0


From 614b0a9d9a0cef000f3a60741a01b95b16a71094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:39 +0000
Subject: [PATCH 40/49] fix: enums whose numbers lie more than INT_MAX apart
 are not taken for continuous

---
 src/protoc-plugin/hpp_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index b8a1d20..8091886 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -404,7 +404,7 @@ struct hpp_addons {
       std::ranges::transform(self.proto().value, sorted_values.begin(), [](auto &desc) { return desc.number; });
       std::ranges::sort(sorted_values);
       for (unsigned i = 1; i < sorted_values.size(); ++i) {
-        if (sorted_values[i] - sorted_values[i - 1] > 1) {
+        if (static_cast<std::int64_t>(sorted_values[i]) - sorted_values[i - 1] > 1) {
           continuous = false;
           break;
         }
-- 
2.43.0


From a883f745398639f831cded00121e45d61e62afe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:39 +0000
Subject: [PATCH 41/49] fix: the plugin reports failing reads and writes
 instead of exiting successfully

---
 src/protoc-plugin/protoc-gen-hpp.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/protoc-plugin/protoc-gen-hpp.cpp b/src/protoc-plugin/protoc-gen-hpp.cpp
index 8507d79..c726ffe 100644
--- a/src/protoc-plugin/protoc-gen-hpp.cpp
+++ b/src/protoc-plugin/protoc-gen-hpp.cpp
@@ -51,7 +51,11 @@ bool write_response(const hpp_proto::protoc::code_generator_response &response)
 #ifdef _WIN32
   _setmode(_fileno(stdout), _O_BINARY);
 #endif
-  std::ranges::copy(data, std::ostreambuf_iterator<char>(std::cout));
+  std::cout.write(data.data(), static_cast<std::streamsize>(data.size())).flush();
+  if (!std::cout) {
+    (void)fputs("hpp output write error", stderr);
+    return false;
+  }
   return true;
 }
 
@@ -88,6 +92,11 @@ int main(int argc, const char **argv) {
     read_file(input);
   } else {
     read_file(std::cin);
+    // a failing read looks like the end of the input to std::cin
+    if (std::ferror(stdin) != 0) {
+      (void)fputs("hpp input read error", stderr);
+      return 1;
+    }
   }
 
   hpp_proto::protoc::code_generator_request request;
@@ -114,7 +123,12 @@ int main(int argc, const char **argv) {
       (void)fputs("hpp export_request open error", stderr);
       return 1;
     }
-    std::ranges::copy(request_data, std::ostreambuf_iterator<char>(output));
+    output.write(request_data.data(), static_cast<std::streamsize>(request_data.size()));
+    output.close();
+    if (!output) {
+      (void)fputs("hpp export_request write error", stderr);
+      return 1;
+    }
   }
 
   const hpp_proto::protoc::hpp_generator generator{std::move(parsed_options->generation)};
-- 
2.43.0


From a9b8cc077df41ea0e71b60f47ac823bb8f0885fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 42/49] fix: an empty proto2_explicit_presence option selects
 no field instead of aborting the generator

---
 src/protoc-plugin/hpp_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 8091886..554576b 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -1324,7 +1324,7 @@ struct msg_code_generator : code_generator {
             : (descriptor.proto().label == LABEL_OPTIONAL &&
                (descriptor.proto().type == TYPE_MESSAGE || descriptor.proto().type == TYPE_GROUP ||
                 std::ranges::any_of(context.options().proto2_explicit_presences, [&qualified_name](const auto &s) {
-                  return qualified_name.starts_with(std::string_view{s}.substr(1));
+                  return !s.empty() && qualified_name.starts_with(std::string_view{s}.substr(1));
                 })));
   }
 
-- 
2.43.0


From ee6ac2720b33fda35c60e189533303e0cafd4a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 43/49] fix: map fields and their values stay length-prefixed
 under an inherited DELIMITED message encoding

---
 include/hpp_proto/descriptor_pool.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/hpp_proto/descriptor_pool.hpp b/include/hpp_proto/descriptor_pool.hpp
index eb07cc9..8d02cff 100644
--- a/include/hpp_proto/descriptor_pool.hpp
+++ b/include/hpp_proto/descriptor_pool.hpp
@@ -899,6 +899,11 @@ private:
         if (desc->is_map_entry()) {
           f.field_option_bitset_ |= mask(field_option_mask::MASK_MAP_ENTRY);
         }
+        // Map fields and their values are always length-prefixed; an inherited DELIMITED message encoding does not
+        // apply to them.
+        if (desc->is_map_entry() || (f.parent_message_ != nullptr && f.parent_message_->is_map_entry())) {
+          f.field_option_bitset_ &= static_cast<uint8_t>(~mask(field_option_mask::MASK_DELIMITED));
+        }
       } else if (f.proto_.type == FieldDescriptorProto::Type::TYPE_ENUM) {
         auto desc = find_type(enum_map_, f.proto_.type_name);
         if (!desc) {
-- 
2.43.0


From 1dad6067f309a2c451dd35f8f044ff976765e824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 44/49] fix: [packed = false] makes a repeated proto3 field
 expanded

---
 include/hpp_proto/descriptor_pool.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/descriptor_pool.hpp b/include/hpp_proto/descriptor_pool.hpp
index 8d02cff..bf478cf 100644
--- a/include/hpp_proto/descriptor_pool.hpp
+++ b/include/hpp_proto/descriptor_pool.hpp
@@ -309,8 +309,10 @@ public:
           type == FieldDescriptorProto::Type::TYPE_BYTES || type == FieldDescriptorProto::Type::TYPE_GROUP) {
         return;
       }
-      if (proto_.options.has_value() && proto_.options->packed.has_value() && proto_.options->packed.value()) {
-        field_option_bitset_ |= mask(field_option_mask::MASK_PACKED);
+      if (proto_.options.has_value() && proto_.options->packed.has_value()) {
+        if (proto_.options->packed.value()) {
+          field_option_bitset_ |= mask(field_option_mask::MASK_PACKED);
+        }
         return;
       }
       if (options_.features->repeated_field_encoding == FeatureSet::RepeatedFieldEncoding::PACKED) {
-- 
2.43.0


From ee53959fcdfc25e69973ba96af337c36517c8152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 45/49] fix: default values of bytes fields are unescaped in
 generated code

---
 src/protoc-plugin/hpp_generator.cpp | 51 +++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 554576b..cd2b72e 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -22,6 +22,7 @@
 
 #include "hpp_generator.hpp"
 #include <algorithm>
+#include <charconv>
 #include <filesystem>
 #include <format>
 #include <fstream>
@@ -31,10 +32,13 @@
 #include <hpp_proto/hpp_options.pb.hpp>
 #include <iostream>
 #include <iterator>
+#include <limits>
 #include <map>
 #include <numeric>
 #include <optional>
 #include <set>
+#include <string>
+#include <string_view>
 #include <unordered_map>
 #include <utility>
 #ifdef _WIN32
@@ -71,6 +75,42 @@ struct generation_context {
   std::reference_wrapper<const ::hpp_proto::protoc::generator_options> options_;
 };
 
+// Descriptors hold the default value of a bytes field C-escaped.
+std::optional<std::string> unescape_bytes(std::string_view text) {
+  std::string result;
+  const auto take_digits = [&](int base, std::size_t max_digits) {
+    unsigned int byte = 0;
+    const auto digits = text.substr(0, max_digits);
+    const auto [end, ec] = std::from_chars(digits.data(), std::to_address(digits.end()), byte, base);
+    text.remove_prefix(static_cast<std::size_t>(end - digits.data()));
+    result.push_back(static_cast<char>(static_cast<unsigned char>(byte)));
+    return ec == std::errc{} && byte <= std::numeric_limits<unsigned char>::max();
+  };
+  while (!text.empty()) {
+    const char c = text.front();
+    text.remove_prefix(1);
+    if (c != '\\') {
+      result.push_back(c);
+      continue;
+    }
+    constexpr std::string_view codes = "abfnrtv\\?'\"";
+    constexpr std::string_view chars = "\a\b\f\n\r\t\v\\?'\"";
+    const char escape = text.empty() ? char{} : text.front();
+    if (const auto pos = codes.find(escape); pos != std::string_view::npos) {
+      text.remove_prefix(1);
+      result.push_back(chars[pos]);
+    } else if (escape == 'x' || escape == 'X') {
+      text.remove_prefix(1);
+      if (!take_digits(16, 2)) {
+        return std::nullopt;
+      }
+    } else if (!take_digits(8, 3)) {
+      return std::nullopt;
+    }
+  }
+  return result;
+}
+
 cpp::identifier cpp_identifier(std::string_view name, generation_diagnostics &diagnostics) {
   auto result = cpp::identifier::from_proto(name);
   if (result.has_value()) {
@@ -325,7 +365,7 @@ struct hpp_addons {
         if (proto.type == TYPE_STRING) {
           set_string_default_value(proto);
         } else if (proto.type == TYPE_BYTES) {
-          set_bytes_default_value(proto);
+          set_bytes_default_value(proto, diagnostics);
         } else if (proto.type == TYPE_ENUM) {
           // set_enum_default_value(proto);
         } else if (proto.type == TYPE_DOUBLE || proto.type == TYPE_FLOAT) {
@@ -349,10 +389,15 @@ struct hpp_addons {
       }
     }
 
-    void set_bytes_default_value(const FieldDescriptorProto &proto) {
+    void set_bytes_default_value(const FieldDescriptorProto &proto, generation_diagnostics &diagnostics) {
       if (!proto.default_value.empty()) {
+        const auto content = unescape_bytes(proto.default_value);
+        if (!content.has_value()) {
+          diagnostics.record(std::format("invalid default value of bytes field '{}'", proto.name));
+          return;
+        }
         default_value_template_arg =
-            cpp::format("::hpp_proto::bytes_literal<{}>{{}}", cpp::string_literal_bytes{proto.default_value});
+            cpp::format("::hpp_proto::bytes_literal<{}>{{}}", cpp::string_literal_bytes{*content});
         default_value = default_value_template_arg;
       }
     }
-- 
2.43.0


From cdd847d3b5e94dab2f45d6bfb983c9cb9fffcc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:33 +0000
Subject: [PATCH 46/49] fix: string defaults with embedded null characters keep
 what follows them

---
 include/hpp_proto/field_types.hpp   | 2 +-
 src/protoc-plugin/hpp_generator.cpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/field_types.hpp b/include/hpp_proto/field_types.hpp
index 512f44c..5306b40 100644
--- a/include/hpp_proto/field_types.hpp
+++ b/include/hpp_proto/field_types.hpp
@@ -537,7 +537,7 @@ struct string_literal {
   // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
   [[nodiscard]] constexpr const char *end() const { return str.data() + size(); }
 
-  explicit operator std::string() const { return std::string{data()}; }
+  explicit operator std::string() const { return std::string{data(), size()}; }
   constexpr operator std::string_view() const { return std::string_view(data(), size()); }
 
   friend constexpr bool operator==(const string_literal &lhs, const std::string &rhs) {
diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index cd2b72e..fcc0edc 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -405,7 +405,9 @@ struct hpp_addons {
     void set_string_default_value(const FieldDescriptorProto &proto) {
       if (!proto.default_value.empty()) {
         const cpp::string_literal_bytes literal{proto.default_value};
-        default_value = cpp::format("{}", literal);
+        // a plain literal would be cut at an embedded null character
+        default_value = proto.default_value.contains('\0') ? cpp::format("{{{}, {}}}", literal, proto.default_value.size())
+                                                           : cpp::format("{}", literal);
         default_value_template_arg = cpp::format("::hpp_proto::string_literal<{}>{{}}", literal);
       }
     }
-- 
2.43.0


From 167df6e98d7d933dd8d82665daaeb546d8576d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:50 +0000
Subject: [PATCH 47/49] fix: generate the descriptor header of files without
 messages

The descriptor header of a file includes the descriptor headers of all of
its imports, but none was generated for an import that defines enums,
extensions or services only, so the including header did not compile.
---
 src/protoc-plugin/hpp_generator.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index fcc0edc..997fc0c 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -1135,9 +1135,6 @@ struct code_generator {
   static void validate_file_descriptor_names(const hpp_gen_descriptor_pool &pool, generation_diagnostics &diagnostics) {
     std::vector<file_descriptor_entity> entities;
     for (const auto &file : pool.files()) {
-      if (file.messages().empty()) {
-        continue;
-      }
       entities.push_back({.name = file.descriptor_name.qualified_descriptor_name(), .proto_file = file.proto().name});
       entities.push_back(
           {.name = file.descriptor_name.qualified_descriptor_set_name(), .proto_file = file.proto().name});
@@ -2499,10 +2496,8 @@ void generate_outputs_for_file(CodeGeneratorResponse &response, hpp_gen_descript
     return;
   }
 
-  if (!descriptor.messages().empty()) {
-    desc_hpp_generator desc_hpp_code(response.file, context);
-    desc_hpp_code.process(descriptor);
-  }
+  desc_hpp_generator desc_hpp_code(response.file, context);
+  desc_hpp_code.process(descriptor);
   if (context.diagnostics.has_error() || descriptor.proto().service.empty()) {
     return;
   }
-- 
2.43.0


From 223a4ae3973d5a791cf14aa60fdf3d5b376acb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:29 +0000
Subject: [PATCH 48/49] fix: copy assignment of indirections from inside the
 own element with another allocator

The allocator was read from the source after the object that contains the
source had been destroyed.
---
 include/hpp_proto/indirect.hpp          | 4 ++--
 include/hpp_proto/optional_indirect.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/hpp_proto/indirect.hpp b/include/hpp_proto/indirect.hpp
index 29fc2e1..f872417 100644
--- a/include/hpp_proto/indirect.hpp
+++ b/include/hpp_proto/indirect.hpp
@@ -76,8 +76,8 @@ public:
       if constexpr (allocator_traits::propagate_on_container_copy_assignment::value) {
         if (alloc_ != other.alloc_) {
           indirect copy(std::allocator_arg, other.alloc_, other);
-          destroy();
-          alloc_ = other.alloc_;
+          destroy(); // `other` may live inside the object owned by `*this`
+          alloc_ = copy.alloc_;
           obj_ = std::exchange(copy.obj_, nullptr);
           return *this;
         }
diff --git a/include/hpp_proto/optional_indirect.hpp b/include/hpp_proto/optional_indirect.hpp
index 5c92767..bf94aa6 100644
--- a/include/hpp_proto/optional_indirect.hpp
+++ b/include/hpp_proto/optional_indirect.hpp
@@ -157,8 +157,8 @@ public:
       if constexpr (allocator_traits::propagate_on_container_copy_assignment::value) {
         if (alloc_ != other.alloc_) {
           optional_indirect copy(std::allocator_arg, other.alloc_, other);
-          reset();
-          alloc_ = other.alloc_;
+          reset(); // `other` may live inside the object owned by `*this`
+          alloc_ = copy.alloc_;
           obj_ = std::exchange(copy.obj_, nullptr);
           return *this;
         }
-- 
2.43.0


From 592a368999645cf2891e874918295119df9f8ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:12 +0000
Subject: [PATCH 49/49] fix: a field with the number 0 inside an unknown group
 is refused like anywhere else

---
 include/hpp_proto/binpb/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index a19522a..fa42857 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -701,7 +701,7 @@ constexpr status skip_field(uint32_t tag, concepts::is_basic_in auto &archive, T
 }
 
 constexpr status do_skip_field(uint32_t tag, concepts::is_basic_in auto &archive) {
-  if (tag == 0) [[unlikely]] {
+  if (tag_number(tag) == 0) [[unlikely]] {
     return std::errc::bad_message;
   }
   switch (hpp_proto::tag_type(tag)) {
-- 
2.43.0

