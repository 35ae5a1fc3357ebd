From 0527bd539e4c8f7190502575cf375fdce5f688ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:41 +0000
Subject: [PATCH 01/79] fix: keep empty strings, bytes and messages inside
 optional, repeated, map and oneof fields

---
 include/spb/pb/deserialize.hpp              |  3 ++
 include/spb/pb/serialize.hpp                | 34 ++++++++++++++-------
 include/spb/pb/wire-types.h                 |  8 +++++
 src/spb-proto-compiler/dumper/pb/dumper.cpp |  4 +--
 4 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index d6e2525..10cb130 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -137,6 +137,9 @@ struct istream_buffer
     [[nodiscard]] size_t read(void *data, size_t data_size) noexcept
     {
         data_size = std::min(data_size, size());
+        if (data_size == 0) [[unlikely]]
+            return 0;
+
         memcpy(data, p_start, data_size);
         p_start += data_size;
         return data_size;
diff --git a/include/spb/pb/serialize.hpp b/include/spb/pb/serialize.hpp
index aaf2297..2bb31a6 100644
--- a/include/spb/pb/serialize.hpp
+++ b/include/spb/pb/serialize.hpp
@@ -54,6 +54,9 @@ struct ostream_buffer
 
     void write(const void *data, size_t size)
     {
+        if (size == 0)
+            return;
+
         memcpy(p_buffer, data, size);
         p_buffer += size;
     }
@@ -250,8 +253,11 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_field_stri
 {
     using stream_type = std::remove_cvref_t<decltype(stream)>;
 
-    if (value.empty())
-        return;
+    if constexpr (!mode.has_presence)
+    {
+        if (value.empty())
+            return;
+    }
 
     if constexpr (!stream_type::size_only && mode.max_size)
         check_size(value.size(), mode.max_size);
@@ -269,8 +275,11 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_field_byte
 {
     using stream_type = std::remove_cvref_t<decltype(stream)>;
 
-    if (value.empty())
-        return;
+    if constexpr (!mode.has_presence)
+    {
+        if (value.empty())
+            return;
+    }
 
     if constexpr (!stream_type::size_only && mode.max_size)
         check_size(value.size(), mode.max_size);
@@ -286,8 +295,8 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_map auto &
     if (value.empty())
         return;
 
-    constexpr auto key_encoder   = serialize_mode{.encoder = mode.encoder};
-    constexpr auto value_encoder = serialize_mode{.encoder = mode.encoder2};
+    constexpr auto key_encoder   = with_presence(serialize_mode{.encoder = mode.encoder});
+    constexpr auto value_encoder = with_presence(serialize_mode{.encoder = mode.encoder2});
 
     for (const auto &[k, v] : value)
     {
@@ -325,7 +334,7 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_label_repe
             if constexpr (std::is_same_v<value_type, bool>)
                 serialize<mode>(stream, field, bool(value));
             else
-                serialize<mode>(stream, field, value);
+                serialize<with_presence(mode)>(stream, field, value);
         }
     }
 }
@@ -346,22 +355,25 @@ template <serialize_mode mode>
 void serialize(auto &stream, uint32_t field, const spb::detail::proto_label_optional auto &p_value)
 {
     if (p_value.has_value())
-        serialize<mode>(stream, field, *p_value);
+        serialize<with_presence(mode)>(stream, field, *p_value);
 }
 
 template <serialize_mode mode, typename T>
 void serialize(auto &stream, uint32_t field, const std::unique_ptr<T> &p_value)
 {
     if (p_value)
-        serialize<mode>(stream, field, *p_value);
+        serialize<with_presence(mode)>(stream, field, *p_value);
 }
 
 template <serialize_mode mode>
 void serialize(auto &stream, uint32_t field, const spb::detail::proto_message auto &value)
 {
     const auto size = serialize_size<mode>(value);
-    if (!size) [[unlikely]]
-        return;
+    if constexpr (!mode.has_presence)
+    {
+        if (!size) [[unlikely]]
+            return;
+    }
 
     serialize_tag(stream, field, wire_type::length_delimited);
     serialize_varint(stream, size);
diff --git a/include/spb/pb/wire-types.h b/include/spb/pb/wire-types.h
index 5327182..719c690 100644
--- a/include/spb/pb/wire-types.h
+++ b/include/spb/pb/wire-types.h
@@ -59,6 +59,8 @@ struct serialize_mode
     scalar_encoder encoder2 = {};
     size_t max_count        = 0;
     size_t max_size         = 0;
+    //- value has its own presence (optional, repeated, map item or oneof), so it has to be serialized even if it is empty
+    bool has_presence = false;
 };
 
 constexpr auto make_packed(scalar_encoder a) noexcept -> scalar_encoder
@@ -77,6 +79,12 @@ constexpr auto reset_packed(serialize_mode a) noexcept -> serialize_mode
     return a;
 }
 
+constexpr auto with_presence(serialize_mode a) noexcept -> serialize_mode
+{
+    a.has_presence = true;
+    return a;
+}
+
 constexpr auto encoder_type(scalar_encoder a) noexcept -> scalar_encoder
 {
     return scalar_encoder(a & 0x07);
diff --git a/src/spb-proto-compiler/dumper/pb/dumper.cpp b/src/spb-proto-compiler/dumper/pb/dumper.cpp
index a4814aa..d3ef180 100644
--- a/src/spb-proto-compiler/dumper/pb/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/pb/dumper.cpp
@@ -212,9 +212,9 @@ void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, cons
     stream << "\t\tswitch (index)\n\t\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\treturn serialize<";
+        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\treturn serialize<with_presence(";
         dump_serialize_mode(stream, file, message, oneof.fields[i]);
-        stream << ">(stream, " << oneof.fields[i].number << ", std::get<" << i + 1 << ">(value."
+        stream << ")>(stream, " << oneof.fields[i].number << ", std::get<" << i + 1 << ">(value."
                << oneof.name.get_name() << "));\n";
     }
     stream << "\t\t}\n\t}\n\n";
-- 
2.43.0


From 6c41e581562b8dbac1f12088973f90557b92f15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:22 +0000
Subject: [PATCH 02/79] fix: read protobuf map items with duplicate, missing or
 unknown entries like any other parser

---
 include/spb/pb/deserialize.hpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 10cb130..ad6f4ab 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -632,9 +632,8 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
 
     check_wire_type_or_throw(type, wire_type::length_delimited);
 
-    auto pair          = std::pair<key_type, mapped_type>();
-    auto key_defined   = false;
-    auto value_defined = false;
+    //- a missing key or value has its default value
+    auto pair = std::pair<key_type, mapped_type>();
     while (!stream.empty())
     {
         const auto tag          = tag_type(read_varint<uint32_t>(stream));
@@ -664,7 +663,6 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
                     deserialize<key_encoder>(stream, pair.first, field_type);
                 }
             }
-            key_defined = true;
             break;
         case 2:
             if constexpr (spb::detail::proto_field_number<mapped_type>)
@@ -685,20 +683,22 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
                     throw std::runtime_error("invalid field");
                 }
             }
-            value_defined = true;
             break;
         default:
-            throw std::runtime_error("invalid field");
+            if (field_type == wire_type::length_delimited)
+            {
+                const auto size = read_varint<uint32_t>(stream);
+                stream.skip_or_throw(size);
+            }
+            else
+            {
+                skip(stream, field_type);
+            }
+            break;
         }
     }
-    if (key_defined && value_defined) [[likely]]
-    {
-        value.insert(std::move(pair));
-    }
-    else [[unlikely]]
-    {
-        throw std::runtime_error("invalid map item");
-    }
+    //- the last item with the same key wins
+    value[std::move(pair.first)] = std::move(pair.second);
 }
 
 template <serialize_mode mode, size_t ordinal, typename T>
-- 
2.43.0


From 75132341e03d0b4f57d0db3f1773f66a9149e221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:58 +0000
Subject: [PATCH 03/79] fix: accept both packed and unpacked encoding for
 repeated numbers

---
 include/spb/pb/deserialize.hpp | 27 ++++++++++++++-------------
 include/spb/pb/wire-types.h    |  6 ++++++
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index ad6f4ab..6d3f181 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -600,23 +600,24 @@ void deserialize(auto &stream, Container &value, wire_type type)
 template <serialize_mode mode, spb::detail::proto_label_repeated Container>
 void deserialize(auto &stream, Container &value, wire_type type)
 {
-    if constexpr (is_packed(mode.encoder))
+    if constexpr (spb::detail::proto_field_number<typename Container::value_type>)
     {
-        deserialize_packed<mode>(stream, value);
+        //- parsers have to accept packed and unpacked numbers, regardless of the declaration
+        if (type == wire_type::length_delimited)
+            return deserialize_packed<set_packed(mode)>(stream, value);
+    }
+
+    if constexpr (mode.max_count)
+        check_size(value.size() + 1, mode.max_count);
+
+    if constexpr (std::is_same_v<typename Container::value_type, bool>)
+    {
+        check_wire_type_or_throw(type, wire_type::varint);
+        value.emplace_back(read_varint<bool>(stream));
     }
     else
     {
-        if constexpr (mode.max_count)
-            check_size(value.size() + 1, mode.max_count);
-
-        if constexpr (std::is_same_v<typename Container::value_type, bool>)
-        {
-            value.emplace_back(read_varint<bool>(stream));
-        }
-        else
-        {
-            deserialize<mode>(stream, value.emplace_back(), type);
-        }
+        deserialize<reset_packed(mode)>(stream, value.emplace_back(), type);
     }
 }
 
diff --git a/include/spb/pb/wire-types.h b/include/spb/pb/wire-types.h
index 719c690..a5e90d0 100644
--- a/include/spb/pb/wire-types.h
+++ b/include/spb/pb/wire-types.h
@@ -79,6 +79,12 @@ constexpr auto reset_packed(serialize_mode a) noexcept -> serialize_mode
     return a;
 }
 
+constexpr auto set_packed(serialize_mode a) noexcept -> serialize_mode
+{
+    a.encoder = make_packed(a.encoder);
+    return a;
+}
+
 constexpr auto with_presence(serialize_mode a) noexcept -> serialize_mode
 {
     a.has_presence = true;
-- 
2.43.0


From 603919d2e6a209f3f3126839f4d7a42d032e14f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 04/79] fix: merge a submessage which is split into multiple
 parts instead of keeping only the last part

---
 include/spb/pb/deserialize.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 6d3f181..78bd729 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -24,6 +24,7 @@
 #include <stdexcept>
 #include <string_view>
 #include <type_traits>
+#include <variant>
 
 namespace spb::pb::detail
 {
@@ -493,6 +494,12 @@ void deserialize(auto &stream, spb::detail::proto_field_int_or_float auto &value
 template <serialize_mode mode, spb::detail::proto_label_optional Container>
 void deserialize(auto &stream, Container &p_value, wire_type type)
 {
+    if constexpr (spb::detail::proto_message<typename Container::value_type>)
+    {
+        //- the same message can be split into multiple parts, they have to be merged
+        if (p_value.has_value())
+            return deserialize<mode>(stream, *p_value, type);
+    }
     auto &value = p_value.emplace(typename Container::value_type());
     deserialize<mode>(stream, value, type);
 }
@@ -520,7 +527,9 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value, wire
 template <serialize_mode mode, typename T>
 void deserialize(auto &stream, std::unique_ptr<T> &value, wire_type type)
 {
-    value = std::make_unique<T>();
+    //- the same message can be split into multiple parts, they have to be merged
+    if (!value)
+        value = std::make_unique<T>();
     deserialize<mode>(stream, *value, type);
 }
 
@@ -705,6 +714,12 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
 template <serialize_mode mode, size_t ordinal, typename T>
 void deserialize_variant(auto &stream, T &variant, wire_type type)
 {
+    if constexpr (spb::detail::proto_message<std::variant_alternative_t<ordinal, T>>)
+    {
+        //- the same message can be split into multiple parts, they have to be merged
+        if (variant.index() == ordinal)
+            return deserialize<mode>(stream, std::get<ordinal>(variant), type);
+    }
     deserialize<mode>(stream, variant.template emplace<ordinal>(), type);
 }
 
-- 
2.43.0


From e2fac95444dac39c1a28706d8795e43bed53f969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:30 +0000
Subject: [PATCH 05/79] fix: refuse signed varints which do not fit into the
 field's type

---
 include/spb/pb/deserialize.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 78bd729..1318642 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -278,12 +278,13 @@ template <typename T> [[nodiscard]] auto read_varint(auto &stream) -> T
                     //- so int32_t(-2) is encoded as "\xfe\xff\xff\xff\xff\xff\xff\xff\xff\x01",
                     // same as int64_t(-2)
                     //- but it should be encoded as  "\xfe\xff\xff\xff\x0f"
-                    value = T(value);
+                    if (value <= std::numeric_limits<uint32_t>::max())
+                        value = uint64_t(int64_t(int32_t(uint32_t(value))));
                 }
                 auto result = T(value);
                 if constexpr (std::is_signed_v<T>)
                 {
-                    if (result == std::make_signed_t<T>(value)) [[likely]]
+                    if (int64_t(result) == int64_t(value)) [[likely]]
                         return result;
                 }
                 else
-- 
2.43.0


From 540c575452e17e7c0433277d547e1a43d04662d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 06/79] fix: accept padded varints for bool

---
 include/spb/pb/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 1318642..1a69eb5 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -252,7 +252,7 @@ template <typename T> [[nodiscard]] auto read_varint(auto &stream) -> T
 {
     if constexpr (std::is_same_v<T, bool>)
     {
-        switch (stream.read_byte_or_throw())
+        switch (read_varint<uint64_t>(stream))
         {
         case 0:
             return false;
-- 
2.43.0


From 839c6565ac65a889db00e47ff70e1078267ff702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:09 +0000
Subject: [PATCH 07/79] fix: serialized size computation is exponential with
 the nesting depth of messages

---
 include/spb/pb/serialize.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/spb/pb/serialize.hpp b/include/spb/pb/serialize.hpp
index 2bb31a6..80c4fb7 100644
--- a/include/spb/pb/serialize.hpp
+++ b/include/spb/pb/serialize.hpp
@@ -292,6 +292,8 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_field_byte
 template <serialize_mode mode>
 void serialize(auto &stream, uint32_t field, const spb::detail::proto_map auto &value)
 {
+    using stream_type = std::remove_cvref_t<decltype(stream)>;
+
     if (value.empty())
         return;
 
@@ -303,8 +305,15 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_map auto &
         const auto size = serialize_size<key_encoder>(1, k) + serialize_size<value_encoder>(2, v);
         serialize_tag(stream, field, wire_type::length_delimited);
         serialize_varint(stream, size);
-        serialize<key_encoder>(stream, 1, k);
-        serialize<value_encoder>(stream, 2, v);
+        if constexpr (stream_type::size_only)
+        {
+            stream.write(nullptr, size);
+        }
+        else
+        {
+            serialize<key_encoder>(stream, 1, k);
+            serialize<value_encoder>(stream, 2, v);
+        }
     }
 }
 
@@ -368,6 +377,8 @@ void serialize(auto &stream, uint32_t field, const std::unique_ptr<T> &p_value)
 template <serialize_mode mode>
 void serialize(auto &stream, uint32_t field, const spb::detail::proto_message auto &value)
 {
+    using stream_type = std::remove_cvref_t<decltype(stream)>;
+
     const auto size = serialize_size<mode>(value);
     if constexpr (!mode.has_presence)
     {
@@ -377,7 +388,12 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_message au
 
     serialize_tag(stream, field, wire_type::length_delimited);
     serialize_varint(stream, size);
-    serialize_value(stream, value);
+
+    //- size is already known, computing it again would be exponential with the nesting depth
+    if constexpr (stream_type::size_only)
+        stream.write(nullptr, size);
+    else
+        serialize_value(stream, value);
 }
 
 template <serialize_mode mode> auto serialize_size(const auto &value) -> size_t
-- 
2.43.0


From 1a7a0a0db73cfa443b5314653d148f345b66f1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:09 +0000
Subject: [PATCH 08/79] fix: refuse a delimited message which is truncated at a
 field boundary

---
 include/spb/pb.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/spb/pb.hpp b/include/spb/pb.hpp
index 2aecf5c..3a48ca7 100644
--- a/include/spb/pb.hpp
+++ b/include/spb/pb.hpp
@@ -135,6 +135,7 @@ size_t deserialize(auto &message, const void *buffer, size_t size, const deseria
         const auto substream_length = read_varint<uint32_t>(stream);
         auto substream              = stream.sub_stream(substream_length);
         deserialize<detail::serialize_mode{}>(substream, message);
+        detail::check_if_empty_or_throw(substream);
     }
     else
     {
@@ -159,6 +160,7 @@ size_t deserialize(auto &message, spb::io::reader reader, const deserialize_opti
         const auto substream_length = read_varint<uint32_t>(stream);
         auto substream              = stream.sub_stream(substream_length);
         deserialize<detail::serialize_mode{}>(substream, message);
+        detail::check_if_empty_or_throw(substream);
     }
     else
     {
-- 
2.43.0


From a5b482746e4bff1ebf523846533c78c0308a73d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:09 +0000
Subject: [PATCH 09/79] fix: short reads of protobuf values overwrite the
 beginning of the value

---
 include/spb/pb/deserialize.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 1a69eb5..fb04202 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -82,12 +82,14 @@ struct istream_reader
 
     void read_exact_or_throw(void *data, size_t data_size)
     {
+        auto *p_data = (uint8_t *)data;
         while (data_size > 0)
         {
-            auto chunk_size = read(data, data_size);
+            auto chunk_size = read(p_data, data_size);
             if (chunk_size == 0) [[unlikely]]
                 throw std::runtime_error("unexpected end of stream");
 
+            p_data += chunk_size;
             data_size -= chunk_size;
         }
     }
-- 
2.43.0


From 279988d7e891ccf59a433931e9f9d14ce56ac81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:09 +0000
Subject: [PATCH 10/79] fix: refuse protobuf tags which do not fit into 32 bits

---
 include/spb/pb/deserialize.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index fb04202..75ee9ac 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -234,17 +234,20 @@ void check_if_empty_or_throw(auto &stream)
         return tag_type::invalid;
 
     auto byte = (uint8_t)(byte_or_eof);
-    auto tag  = (uint32_t)(byte & 0x7F);
+    auto tag  = uint64_t(byte & 0x7F);
 
     for (size_t shift = CHAR_BIT - 1; (byte & 0x80) != 0; shift += CHAR_BIT - 1)
     {
-        if (shift >= sizeof(tag) * CHAR_BIT) [[unlikely]]
+        if (shift >= sizeof(uint32_t) * CHAR_BIT) [[unlikely]]
             throw std::runtime_error("invalid tag");
 
         byte = stream.read_byte_or_throw();
         tag |= uint64_t(byte & 0x7F) << shift;
     }
 
+    if (tag > std::numeric_limits<uint32_t>::max()) [[unlikely]]
+        throw std::runtime_error("invalid tag");
+
     const auto result = tag_type(tag);
     check_tag_or_throw(result);
     return result;
-- 
2.43.0


From 39f52bf92b4c5cdbfb6b105ddab0cfe177f1c250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:09 +0000
Subject: [PATCH 11/79] fix: undefined shifts and a wrong range for 64 bit wide
 bit fields

---
 include/spb/bits.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/spb/bits.h b/include/spb/bits.h
index 60bdc48..cc02869 100644
--- a/include/spb/bits.h
+++ b/include/spb/bits.h
@@ -12,6 +12,7 @@
 #include <cassert>
 #include <climits>
 #include <cstdint>
+#include <limits>
 #include <stdexcept>
 
 namespace spb::detail
@@ -27,8 +28,9 @@ static inline void check_if_value_fit_in_bits(signed_int auto value, uint32_t bi
     assert(sizeof(value) * CHAR_BIT >= bits);
     assert(bits > 0);
 
-    decltype(value) max = (1LL << (bits - 1)) - 1;
-    decltype(value) min = -(1LL << (bits - 1));
+    constexpr auto type_bits  = uint32_t(sizeof(value) * CHAR_BIT);
+    const decltype(value) max = std::numeric_limits<decltype(value)>::max() >> (type_bits - bits);
+    const decltype(value) min = -max - 1;
 
     if ((value < min) | (value > max)) [[unlikely]]
         throw std::runtime_error("bitfield overflow");
@@ -38,7 +40,10 @@ static inline void check_if_value_fit_in_bits(unsigned_int auto value, uint32_t
 {
     assert(sizeof(value) * CHAR_BIT >= bits);
 
-    decltype(value) max = (1LL << bits) - 1;
+    assert(bits > 0);
+
+    constexpr auto type_bits  = uint32_t(sizeof(value) * CHAR_BIT);
+    const decltype(value) max = std::numeric_limits<decltype(value)>::max() >> (type_bits - bits);
 
     if (value > max) [[unlikely]]
         throw std::runtime_error("bitfield overflow");
-- 
2.43.0


From 85f4f2f4b553157617c673efae59360e65d5279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:09 +0000
Subject: [PATCH 12/79] fix: misaligned reads and out of range pointers in utf8
 validation

---
 include/spb/utf8.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/spb/utf8.h b/include/spb/utf8.h
index 88c2460..681132e 100644
--- a/include/spb/utf8.h
+++ b/include/spb/utf8.h
@@ -13,6 +13,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <cstring>
 #include <stdexcept>
 #include <string_view>
 
@@ -108,18 +109,18 @@ inline bool is_valid(std::string_view str)
     constexpr size_t mask = (size_t)0x8080808080808080ULL;
 
     const auto *start = str.data();
-    const auto *end   = str.data() + str.size() - sizeof(size_t);
+    const auto *end   = str.data() + str.size();
 
-    while (start <= end)
+    while (size_t(end - start) >= sizeof(size_t))
     {
-        const size_t value = *(size_t *)start;
+        size_t value;
+        memcpy(&value, start, sizeof(value));
         if ((value & mask) == 0) [[likely]]
             start += sizeof(value);
         else
             break;
     }
 
-    end            = str.data() + str.size();
     uint32_t state = ok;
     for (uint32_t codepoint; start < end; ++start)
     {
-- 
2.43.0


From d2463ba1e2700ee1e28ed2ce8dc162d3b5a94fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 13/79] fix: do not allocate memory for protobuf data which
 were not read yet

---
 include/spb/pb/deserialize.hpp | 37 ++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 75ee9ac..7521396 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -14,6 +14,7 @@
 #include "../concepts.h"
 #include "../utf8.h"
 #include "wire-types.h"
+#include <algorithm>
 #include <climits>
 #include <cstddef>
 #include <cstdint>
@@ -510,6 +511,32 @@ void deserialize(auto &stream, Container &p_value, wire_type type)
     deserialize<mode>(stream, value, type);
 }
 
+/**
+ * @brief read the rest of a stream into a resizable container.
+ *        The size of a reader's stream comes from the (untrusted) input, so the container is growing
+ *        only with the data actually read.
+ */
+void read_resizable_or_throw(auto &stream, auto &value)
+{
+    using stream_type = std::remove_cvref_t<decltype(stream)>;
+
+    auto chunk_size = size_t(stream.size());
+    if constexpr (std::is_same_v<stream_type, istream_reader>)
+        chunk_size = std::min<size_t>(chunk_size, 4096);
+
+    auto size = size_t(0);
+    do
+    {
+        value.resize(size + chunk_size);
+        if (value.size() != size + chunk_size) [[unlikely]]
+            throw std::length_error("field is too large");
+
+        stream.read_exact_or_throw(value.data() + size, chunk_size);
+        size += chunk_size;
+        chunk_size = std::min<size_t>(stream.size(), size);
+    } while (!stream.empty());
+}
+
 template <serialize_mode mode>
 void deserialize(auto &stream, spb::detail::proto_field_string auto &value, wire_type type)
 {
@@ -519,14 +546,15 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value, wire
 
     if constexpr (spb::detail::proto_field_string_resizable<decltype(value)>)
     {
-        value.resize(stream.size());
+        read_resizable_or_throw(stream, value);
     }
     else
     {
         if (value.size() != stream.size()) [[unlikely]]
             throw std::runtime_error("invalid string size");
+
+        stream.read_exact_or_throw(value.data(), stream.size());
     }
-    stream.read_exact_or_throw(value.data(), stream.size());
     spb::detail::utf8::validate(std::string_view(value.data(), value.size()));
 }
 
@@ -549,14 +577,15 @@ void deserialize(auto &stream, spb::detail::proto_field_bytes auto &value, wire_
 
     if constexpr (spb::detail::proto_field_bytes_resizable<decltype(value)>)
     {
-        value.resize(stream.size());
+        read_resizable_or_throw(stream, value);
     }
     else
     {
         if (stream.size() != value.size()) [[unlikely]]
             throw std::runtime_error("invalid bytes size");
+
+        stream.read_exact_or_throw(value.data(), stream.size());
     }
-    stream.read_exact_or_throw(value.data(), stream.size());
 }
 
 template <serialize_mode mode, spb::detail::proto_label_repeated Container>
-- 
2.43.0


From 73686c56032d2b355d6219c8bba99dc59fc73341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 14/79] fix: limit the nesting depth of protobuf messages

---
 include/spb/pb/deserialize.hpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 7521396..c537d2e 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -30,14 +30,19 @@
 namespace spb::pb::detail
 {
 
+//- maximum nesting depth of messages, same as GPB
+constexpr uint32_t max_depth = 100;
+
 struct istream_reader
 {
     size_t bytes_left;
     size_t consumed_bytes = 0;
     spb::io::reader on_read;
+    uint32_t depth;
 
-    istream_reader(spb::io::reader reader, size_t size = std::numeric_limits<size_t>::max()) noexcept
-        : bytes_left(size), on_read(reader)
+    istream_reader(spb::io::reader reader, size_t size = std::numeric_limits<size_t>::max(),
+                   uint32_t depth = 0) noexcept
+        : bytes_left(size), on_read(reader), depth(depth)
     {
     }
     size_t consumed_size() const noexcept
@@ -102,7 +107,7 @@ struct istream_reader
 
         bytes_left -= sub_size;
         consumed_bytes += sub_size;
-        return istream_reader(on_read, sub_size);
+        return istream_reader(on_read, sub_size, depth + 1);
     }
 
     void skip_or_throw(size_t size)
@@ -121,12 +126,14 @@ struct istream_buffer
 {
     const uint8_t *p_start;
     const uint8_t *p_end;
+    uint32_t depth;
 
-    istream_buffer(const uint8_t *start, const uint8_t *end) noexcept : p_start(start), p_end(end)
+    istream_buffer(const uint8_t *start, const uint8_t *end) noexcept : p_start(start), p_end(end), depth(0)
     {
         assert(start <= end);
     }
-    istream_buffer(const uint8_t *start, size_t size) noexcept : p_start(start), p_end(start + size)
+    istream_buffer(const uint8_t *start, size_t size, uint32_t depth = 0) noexcept
+        : p_start(start), p_end(start + size), depth(depth)
     {
     }
     size_t size() const noexcept
@@ -178,7 +185,7 @@ struct istream_buffer
 
         const auto sub_start = p_start;
         p_start += sub_size;
-        return istream_buffer(sub_start, sub_size);
+        return istream_buffer(sub_start, sub_size, depth + 1);
     }
 
     void skip_or_throw(size_t size)
@@ -222,6 +229,12 @@ inline void check_wire_type_or_throw(wire_type type1, wire_type type2)
         throw std::runtime_error("invalid wire type");
 }
 
+inline void check_depth_or_throw(uint32_t depth)
+{
+    if (depth > max_depth) [[unlikely]]
+        throw std::runtime_error("message is nested too deep");
+}
+
 void check_if_empty_or_throw(auto &stream)
 {
     if (!stream.empty()) [[unlikely]]
@@ -762,6 +775,7 @@ template <serialize_mode>
 void deserialize(auto &stream, spb::detail::proto_message auto &value, wire_type type)
 {
     check_wire_type_or_throw(type, wire_type::length_delimited);
+    check_depth_or_throw(stream.depth);
 
     while (!stream.empty())
     {
-- 
2.43.0


From 819800ac0666681691302b3ebbca0d7b67ec61d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 15/79] fix: skip unknown protobuf groups

---
 include/spb/pb/deserialize.hpp              | 46 +++++++++++++++------
 src/spb-proto-compiler/dumper/pb/dumper.cpp |  4 +-
 2 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index c537d2e..b9c2d33 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -197,7 +197,8 @@ struct istream_buffer
     }
 };
 
-void skip(auto &stream, wire_type);
+void skip(auto &stream, tag_type, uint32_t depth);
+void skip(auto &stream, tag_type);
 
 // template <serialize_mode> void deserialize(auto &stream, auto &value, wire_type type);
 
@@ -743,15 +744,7 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
             }
             break;
         default:
-            if (field_type == wire_type::length_delimited)
-            {
-                const auto size = read_varint<uint32_t>(stream);
-                stream.skip_or_throw(size);
-            }
-            else
-            {
-                skip(stream, field_type);
-            }
+            skip(stream, tag, stream.depth);
             break;
         }
     }
@@ -802,20 +795,47 @@ template <serialize_mode mode> void deserialize(auto &stream, spb::detail::proto
     return deserialize<mode>(stream, value, wire_type::length_delimited);
 }
 
-void skip(auto &stream, wire_type type)
+void skip(auto &stream, tag_type tag, uint32_t depth)
 {
-    switch (type)
+    switch (wire_type_from_tag(tag))
     {
     case wire_type::varint:
         return (void)read_varint<uint64_t>(stream);
     case wire_type::length_delimited:
-        return stream.skip_or_throw(stream.size());
+        return stream.skip_or_throw(read_varint<uint32_t>(stream));
     case wire_type::fixed32:
         return stream.skip_or_throw(sizeof(uint32_t));
     case wire_type::fixed64:
         return stream.skip_or_throw(sizeof(uint64_t));
+    case wire_type::StartGroup:
+        check_depth_or_throw(++depth);
+        for (;;)
+        {
+            const auto item_tag = read_tag_or_eof(stream);
+            if (item_tag == tag_type::invalid) [[unlikely]]
+                throw std::runtime_error("unexpected end of stream");
+
+            if (wire_type_from_tag(item_tag) == wire_type::EndGroup)
+            {
+                if (field_from_tag(item_tag) != field_from_tag(tag)) [[unlikely]]
+                    throw std::runtime_error("invalid end of group");
+                return;
+            }
+            skip(stream, item_tag, depth);
+        }
     default:
         throw std::runtime_error("invalid wire type");
     }
 }
+
+/**
+ * @brief skip an unknown field, a length delimited field has its own (sub)stream
+ */
+void skip(auto &stream, tag_type tag)
+{
+    if (wire_type_from_tag(tag) == wire_type::length_delimited)
+        return stream.skip_or_throw(stream.size());
+
+    skip(stream, tag, stream.depth);
+}
 } // namespace spb::pb::detail
diff --git a/src/spb-proto-compiler/dumper/pb/dumper.cpp b/src/spb-proto-compiler/dumper/pb/dumper.cpp
index d3ef180..3f72717 100644
--- a/src/spb-proto-compiler/dumper/pb/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/pb/dumper.cpp
@@ -258,7 +258,7 @@ void dump_cpp_deserialize_value_gen(std::ostream &stream, const proto_file &file
     if (message.fields.empty() && message.maps.empty() && message.oneofs.empty())
     {
         stream << "static void deserialize_value_gen(auto &stream, " << full_name << " &, tag_type tag)\n{\n";
-        stream << "\tskip(stream, wire_type_from_tag(tag));\n}\n\n";
+        stream << "\tskip(stream, tag);\n}\n\n";
         return;
     }
 
@@ -303,7 +303,7 @@ void dump_cpp_deserialize_value_gen(std::ostream &stream, const proto_file &file
         }
     }
 
-    stream << "\t\tdefault:\n\t\t\treturn skip(stream, type);\t\n\t}\n}\n\n";
+    stream << "\t\tdefault:\n\t\t\treturn skip(stream, tag);\t\n\t}\n}\n\n";
 }
 
 void dump_cpp_messages(std::ostream &stream, const proto_file &file, const proto_messages &messages,
-- 
2.43.0


From 716a4cd3d409147e2cf1c8ce4c677c687cb83305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 16/79] fix: nesting depth of a delimited message starts with
 the message itself

---
 include/spb/pb.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/spb/pb.hpp b/include/spb/pb.hpp
index 3a48ca7..4841625 100644
--- a/include/spb/pb.hpp
+++ b/include/spb/pb.hpp
@@ -134,6 +134,7 @@ size_t deserialize(auto &message, const void *buffer, size_t size, const deseria
     {
         const auto substream_length = read_varint<uint32_t>(stream);
         auto substream              = stream.sub_stream(substream_length);
+        substream.depth             = 0;
         deserialize<detail::serialize_mode{}>(substream, message);
         detail::check_if_empty_or_throw(substream);
     }
@@ -159,6 +160,7 @@ size_t deserialize(auto &message, spb::io::reader reader, const deserialize_opti
     {
         const auto substream_length = read_varint<uint32_t>(stream);
         auto substream              = stream.sub_stream(substream_length);
+        substream.depth             = 0;
         deserialize<detail::serialize_mode{}>(substream, message);
         detail::check_if_empty_or_throw(substream);
     }
-- 
2.43.0


From c62af621ca55ed14252af423cdbe2d4e8a3778cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 17/79] fix: json strings were never checked for valid utf8

---
 include/spb/json/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 01879a1..6d02c04 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -529,7 +529,7 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
                 if (index != value.size()) [[unlikely]]
                     throw std::runtime_error("invalid string size");
             }
-            return;
+            break;
         }
         char utf8_buffer[4];
         auto utf8_size = unescape(stream, utf8_buffer);
-- 
2.43.0


From a1b19c682f1bb858c4646564faa9a282e3a14c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 18/79] fix: json map keys were not escaped

---
 include/spb/json/deserialize.hpp | 5 +++--
 include/spb/json/serialize.hpp   | 8 ++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 6d02c04..33e13fa 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -664,9 +664,10 @@ void deserialize(auto &stream, spb::detail::proto_field_bytes auto &value)
 
 template <field_attributes attributes, typename T> void deserialize_map_key(auto &stream, T &map_key)
 {
-    if constexpr (std::is_same_v<T, std::string>)
+    if constexpr (spb::detail::proto_field_string<T>)
     {
-        deserialize<attributes>(stream, map_key);
+        deserialize<field_attributes{}>(stream, map_key);
+        stream.skip_white_spaces();
     }
     else
     {
diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index f5e3f57..6c72cb4 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -443,9 +443,13 @@ template <field_attributes attributes> void serialize(auto &stream, const spb::d
     stream.put_comma = false;
     for (const auto &[map_key, map_value] : map)
     {
-        if constexpr (std::is_same_v<key_type, std::string_view> || std::is_same_v<key_type, std::string>)
+        if constexpr (spb::detail::proto_field_string<key_type> || std::is_same_v<key_type, std::string_view>)
         {
-            serialize_key(stream, map_key);
+            put_comma_if_needed(stream);
+
+            stream.write('"');
+            write_escaped(stream, std::string_view(map_key.data(), map_key.size()));
+            write_string(stream, R"(":)");
         }
         else
         {
-- 
2.43.0


From 97ed6b2adad556eb5e9a37035a79aca4f8a6f510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 19/79] fix: json literals depended on the data buffered behind
 them

---
 include/spb/json/deserialize.hpp | 46 ++++++++++++--------------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 33e13fa..f5db37a 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -147,23 +147,16 @@ struct istream_buffer
         if (memcmp(token.data(), p_start, token.size()) != 0)
             return false;
 
-        if (size() == token.size()) [[unlikely]]
-            return true;
-
-        const auto char_behind_token = p_start[token.size()];
-        if (!isalnum(char_behind_token) && char_behind_token != '_')
+        if (size() > token.size()) [[likely]]
         {
-            skip(token.size());
-            return true;
+            const auto char_behind_token = p_start[token.size()];
+            if (isalnum(char_behind_token) || char_behind_token == '_')
+                return false;
         }
 
-        if (isspace(char_behind_token))
-        {
-            skip(token.size());
-            skip_white_spaces();
-            return true;
-        }
-        return false;
+        skip(token.size());
+        skip_white_spaces();
+        return true;
     }
     [[nodiscard]] int current_char() const
     {
@@ -252,23 +245,16 @@ struct istream_reader
         if (!token_view.starts_with(token))
             return false;
 
-        if (token_view.size() == token.size()) [[unlikely]]
-            return true;
-
-        const auto char_behind_token = token_view.back();
-        if (!isalnum(char_behind_token) && char_behind_token != '_')
+        if (token_view.size() > token.size()) [[likely]]
         {
-            skip(token.size());
-            return true;
+            const auto char_behind_token = uint8_t(token_view[token.size()]);
+            if (isalnum(char_behind_token) || char_behind_token == '_')
+                return false;
         }
 
-        if (isspace(char_behind_token))
-        {
-            skip(token.size());
-            skip_white_spaces();
-            return true;
-        }
-        return false;
+        skip(token.size());
+        skip_white_spaces();
+        return true;
     }
 
     void skip_white_spaces()
@@ -282,7 +268,7 @@ struct istream_reader
             size_t spaces = 0;
             for (auto c : view)
             {
-                if (!isspace(c))
+                if (!isspace(uint8_t(c)))
                 {
                     consume_bytes(spaces);
                     return;
@@ -675,6 +661,8 @@ template <field_attributes attributes, typename T> void deserialize_map_key(auto
         auto str_key_map = deserialize_string_to_buffer(stream, 1, 128, buffer);
         auto key_stream  = istream_buffer(str_key_map.data(), str_key_map.size());
         deserialize<attributes>(key_stream, map_key);
+        if (!key_stream.empty()) [[unlikely]]
+            throw std::runtime_error("invalid map key");
     }
 }
 
-- 
2.43.0


From 011e83826fdfa3b4bf4c08d63014689254e27b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 20/79] fix: exception from a json reader terminates the
 program

---
 include/spb/json/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index f5db37a..fa2314f 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -291,7 +291,7 @@ struct istream_reader
         return result;
     }
 
-    void consume_current_char(bool skip_white_space) noexcept
+    void consume_current_char(bool skip_white_space)
     {
         consume_bytes(1);
         if (skip_white_space)
-- 
2.43.0


From 9322d7010da015ffba52f6f874104a335da60bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 21/79] fix: json white space was not accepted before a message
 and behind numbers, strings and bytes

---
 include/spb/json.hpp             | 2 ++
 include/spb/json/base64.h        | 1 +
 include/spb/json/deserialize.hpp | 3 ++-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/spb/json.hpp b/include/spb/json.hpp
index 6fcada2..c77cb90 100644
--- a/include/spb/json.hpp
+++ b/include/spb/json.hpp
@@ -94,6 +94,7 @@ template <spb::resizable_container Container = std::string>
 size_t deserialize(auto &message, const void *buffer, size_t size)
 {
     detail::istream_buffer stream((const uint8_t *)buffer, size);
+    stream.skip_white_spaces();
     deserialize<detail::field_attributes{}>(stream, message);
     return size - stream.size();
 }
@@ -109,6 +110,7 @@ size_t deserialize(auto &message, const void *buffer, size_t size)
 size_t deserialize(auto &message, spb::io::reader reader)
 {
     detail::istream_reader stream{reader};
+    stream.skip_white_spaces();
     deserialize<detail::field_attributes{}>(stream, message);
     return stream.consumed_size();
 }
diff --git a/include/spb/json/base64.h b/include/spb/json/base64.h
index 92a692e..7cc2556 100644
--- a/include/spb/json/base64.h
+++ b/include/spb/json/base64.h
@@ -170,6 +170,7 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
             auto consumed_bytes = 3 - padding_size;
             //- +1 is for "
             stream.skip(5);
+            stream.skip_white_spaces();
             if constexpr (spb::detail::proto_field_bytes_resizable<decltype(output)>)
             {
                 if (max_output_size && (output.size() + consumed_bytes > max_output_size))
diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index fa2314f..3ae9ac0 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -521,6 +521,7 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
         auto utf8_size = unescape(stream, utf8_buffer);
         append_to_value(utf8_buffer, utf8_size);
     }
+    stream.skip_white_spaces();
     spb::detail::utf8::validate(std::string_view(value.data(), value.size()));
 }
 
@@ -544,6 +545,7 @@ template <field_attributes> void deserialize(auto &stream, spb::detail::proto_fi
         throw std::runtime_error("invalid number");
 
     stream.skip(result.ptr - view.data());
+    stream.skip_white_spaces();
 }
 
 template <field_attributes> void deserialize(auto &stream, bool &value)
@@ -653,7 +655,6 @@ template <field_attributes attributes, typename T> void deserialize_map_key(auto
     if constexpr (spb::detail::proto_field_string<T>)
     {
         deserialize<field_attributes{}>(stream, map_key);
-        stream.skip_white_spaces();
     }
     else
     {
-- 
2.43.0


From c0eaa84eb46fa29e40c5d58234c41bf691aa35af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 22/79] fix: escaped characters in json keys, enum names and
 quoted numbers

---
 include/spb/json/deserialize.hpp | 50 +++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 3ae9ac0..404cc88 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -352,40 +352,50 @@ void ignore_string(auto &stream)
     ignore_string_until_double_quota(stream);
 }
 
+auto unescape(auto &stream, char utf8[4]) -> uint32_t;
+
 auto deserialize_string_to_buffer(auto &stream, size_t min_size, size_t max_size, char *buffer)
     -> std::string_view
 {
-    assert(max_size < io::buffered_reader::BUFFER_SIZE);
-
     if (!stream.consume('"')) [[unlikely]]
         throw std::runtime_error(R"(expecting '"')");
 
-    // +1 for "
-    auto view    = stream.view(1, max_size + 1);
-    size_t start = 0;
-    for (;;)
+    auto size             = size_t(0);
+    auto append_to_buffer = [&](const char *str, size_t str_size)
     {
-        const auto pos = view.find_first_of(R"(\")", start);
-        if (pos == view.npos) [[unlikely]]
+        //- string is too long, it can't match anything, but it has to be consumed
+        if (size > max_size || str_size > max_size - size) [[unlikely]]
         {
-            stream.skip(view.size());
-            break;
+            size = max_size + 1;
+            return;
         }
+        memcpy(buffer + size, str, str_size);
+        size += str_size;
+    };
 
-        if (view[pos] == '"') [[likely]]
+    for (;;)
+    {
+        auto view  = stream.view(1, UINT32_MAX);
+        auto found = view.find_first_of(R"("\)");
+        if (found == view.npos) [[unlikely]]
         {
-            memcpy(buffer, view.data(), pos);
-            // +1 for '""
-            stream.skip(pos + 1);
-            stream.skip_white_spaces();
-            return (pos >= min_size) ? std::string_view{buffer, pos} : std::string_view{};
+            append_to_buffer(view.data(), view.size());
+            stream.skip(view.size());
+            continue;
         }
 
-        // +2 for \ and char behind
-        start = pos + 2;
+        append_to_buffer(view.data(), found);
+        // +1 for '"' or '\'
+        stream.skip(found + 1);
+        if (view[found] == '"') [[likely]]
+            break;
+
+        char utf8_buffer[4];
+        auto utf8_size = unescape(stream, utf8_buffer);
+        append_to_buffer(utf8_buffer, utf8_size);
     }
-    ignore_string_until_double_quota(stream);
-    return {};
+    stream.skip_white_spaces();
+    return (size >= min_size && size <= max_size) ? std::string_view{buffer, size} : std::string_view{};
 }
 
 auto unicode_from_hex(auto &stream) -> uint16_t
-- 
2.43.0


From de9aad29953341bfca2d3a757ab340359c70b334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 23/79] fix: invalid escape sequences were accepted in ignored
 json strings

---
 include/spb/json/deserialize.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 404cc88..b94ce3a 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -314,6 +314,8 @@ template <field_attributes> void deserialize(auto &stream, spb::detail::proto_en
     deserialize_value(stream, value);
 }
 
+auto unescape(auto &stream, char utf8[4]) -> uint32_t;
+
 void ignore_string_until_double_quota(auto &stream)
 {
     for (;;)
@@ -335,9 +337,8 @@ void ignore_string_until_double_quota(auto &stream)
         }
 
         stream.skip(pos + 1);
-        // +1 for char behind '\'
-        (void)stream.view(1, UINT32_MAX);
-        stream.skip(1);
+        char utf8_buffer[4];
+        (void)unescape(stream, utf8_buffer);
     }
 }
 
@@ -352,8 +353,6 @@ void ignore_string(auto &stream)
     ignore_string_until_double_quota(stream);
 }
 
-auto unescape(auto &stream, char utf8[4]) -> uint32_t;
-
 auto deserialize_string_to_buffer(auto &stream, size_t min_size, size_t max_size, char *buffer)
     -> std::string_view
 {
-- 
2.43.0


From 8a6e17fafe53111c83b9295cbe5fb539272b0cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 24/79] fix: json numbers longer than 32 characters

---
 include/spb/json/deserialize.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index b94ce3a..54f9058 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -36,6 +36,9 @@ using namespace std::literals;
 
 static const auto escape = '\\';
 
+//- maximum number of characters in a number, it has to fit into the reader's buffer
+static constexpr size_t max_number_size = spb::io::buffered_reader::BUFFER_SIZE;
+
 /**
  * @brief helper for std::variant visit
  *        https://en.cppreference.com/w/cpp/utility/variant/visit
@@ -540,15 +543,15 @@ template <field_attributes> void deserialize(auto &stream, spb::detail::proto_fi
     {
         //- https://protobuf.dev/programming-guides/proto2/#json
         //- number can be a string
-        char buffer[32];
-        auto view   = deserialize_string_to_buffer(stream, 1, 32, buffer);
+        char buffer[max_number_size];
+        auto view   = deserialize_string_to_buffer(stream, 1, sizeof(buffer), buffer);
         auto result = spb_std_emu::from_chars(view.data(), view.data() + view.size(), value);
         if (result.ec != std::errc{} || result.ptr != (view.data() + view.size())) [[unlikely]]
             throw std::runtime_error("invalid number");
 
         return;
     }
-    auto view   = stream.view(1, 32);
+    auto view   = stream.view(1, max_number_size);
     auto result = spb_std_emu::from_chars(view.data(), view.data() + view.size(), value);
     if (result.ec != std::errc{}) [[unlikely]]
         throw std::runtime_error("invalid number");
-- 
2.43.0


From 016b42c51f78fce76aa600742d2374b1c1d2109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 25/79] fix: NaN and infinity are not valid json numbers

---
 include/spb/json/serialize.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index 6c72cb4..77f6311 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -20,6 +20,7 @@
 #include <array>
 #include <charconv>
 #include <cinttypes>
+#include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
@@ -306,6 +307,14 @@ void serialize(auto &stream, const spb::detail::proto_field_string auto &value)
 template <field_attributes>
 void serialize(auto &stream, const spb::detail::proto_field_int_or_float auto &value)
 {
+    if constexpr (std::is_floating_point_v<std::remove_cvref_t<decltype(value)>>)
+    {
+        //- https://protobuf.dev/programming-guides/json/
+        if (std::isnan(value)) [[unlikely]]
+            return write_string(stream, R"("NaN")");
+        if (std::isinf(value)) [[unlikely]]
+            return value > 0 ? write_string(stream, R"("Infinity")") : write_string(stream, R"("-Infinity")");
+    }
     auto buffer = std::array<char, 32>();
     auto result = spb_std_emu::to_chars(buffer.data(), buffer.data() + sizeof(buffer), value);
     stream.write(buffer.data(), static_cast<size_t>(result.ptr - buffer.data()));
-- 
2.43.0


From cb1dc6a02333c4908d88ad678b20b91bb4711f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 26/79] fix: keep empty strings and bytes inside optional and
 oneof fields in json

---
 include/spb/json/field.hpp                    |  8 ++++++++
 include/spb/json/serialize.hpp                | 18 ++++++++++++------
 src/spb-proto-compiler/dumper/json/dumper.cpp |  4 ++--
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/spb/json/field.hpp b/include/spb/json/field.hpp
index 99e24e3..5d42c13 100644
--- a/include/spb/json/field.hpp
+++ b/include/spb/json/field.hpp
@@ -19,8 +19,16 @@ struct field_attributes
 {
     size_t max_count = 0;
     size_t max_size  = 0;
+    //- value has its own presence (optional or oneof), so it has to be serialized even if it is empty
+    bool has_presence = false;
 };
 
+constexpr auto with_presence(field_attributes a) noexcept -> field_attributes
+{
+    a.has_presence = true;
+    return a;
+}
+
 inline void check_size(size_t size, size_t max_size)
 {
     if (size > max_size) [[unlikely]]
diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index 77f6311..77bd4a3 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -336,8 +336,11 @@ void serialize(auto &stream, const spb::detail::proto_field_int_or_float auto &v
 template <field_attributes attributes>
 void serialize(auto &stream, const spb::detail::proto_field_string auto &value, std::string_view field)
 {
-    if (value.empty())
-        return;
+    if constexpr (!attributes.has_presence)
+    {
+        if (value.empty())
+            return;
+    }
 
     serialize_key(stream, field);
     serialize<attributes>(stream, value);
@@ -359,8 +362,11 @@ void serialize(auto &stream, const spb::detail::proto_field_bytes auto &value)
 template <field_attributes attributes>
 void serialize(auto &stream, const spb::detail::proto_field_bytes auto &value, std::string_view field)
 {
-    if (value.empty())
-        return;
+    if constexpr (!attributes.has_presence)
+    {
+        if (value.empty())
+            return;
+    }
 
     serialize_key(stream, field);
     serialize<attributes>(stream, value);
@@ -488,7 +494,7 @@ template <field_attributes attributes>
 void serialize(auto &stream, const spb::detail::proto_label_optional auto &p_value, std::string_view field)
 {
     if (p_value.has_value())
-        return serialize<attributes>(stream, *p_value, field);
+        return serialize<with_presence(attributes)>(stream, *p_value, field);
 }
 
 template <field_attributes attributes, typename T>
@@ -502,7 +508,7 @@ template <field_attributes attributes, typename T>
 void serialize(auto &stream, const std::unique_ptr<T> &p_value, std::string_view field)
 {
     if (p_value)
-        return serialize<attributes>(stream, *p_value, field);
+        return serialize<with_presence(attributes)>(stream, *p_value, field);
 }
 
 template <field_attributes> void serialize(auto &stream, const spb::detail::proto_message auto &value)
diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 270faf9..7372b54 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -213,9 +213,9 @@ void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, cons
     stream << "\tswitch(index)\n\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\tcase " << i + 1 << ":\n\t\t\treturn serialize<";
+        stream << "\t\tcase " << i + 1 << ":\n\t\t\treturn serialize<with_presence(";
         dump_field_attributes(stream, file, message, oneof.fields[i]);
-        stream << ">(stream, std::get<" << i + 1 << ">(value." << oneof.name.get_name() << "), \""
+        stream << ")>(stream, std::get<" << i + 1 << ">(value." << oneof.name.get_name() << "), \""
                << json_field_name(oneof.fields[i]) << "\"sv);\n";
     }
     stream << "\t}\n";
-- 
2.43.0


From 3bf940e5ef292f85e416778eef43e569f2b24e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 27/79] fix: the last json map item with the same key wins,
 same as protobuf

---
 include/spb/json/deserialize.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 54f9058..d0c4494 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -706,7 +706,8 @@ template <field_attributes attributes> void deserialize(auto &stream, spb::detai
 
         auto map_value = mapped_type();
         deserialize<attributes>(stream, map_value);
-        value.emplace(std::move(map_key), std::move(map_value));
+        //- the last item with the same key wins
+        value[std::move(map_key)] = std::move(map_value);
     } while (stream.consume_and_skip_white_space(','));
 
     if (!stream.consume_and_skip_white_space('}')) [[unlikely]]
-- 
2.43.0


From 207fa5e8741fff1ab8ac9eef17725613307f0281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 28/79] fix: missing or extra commas were accepted in json
 arrays with fixed size

---
 include/spb/json/deserialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index d0c4494..6192535 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -642,8 +642,8 @@ void deserialize(auto &stream, Container &value)
         if (i + 1 >= value.size())
             break;
 
-        while (stream.consume_and_skip_white_space(','))
-            ;
+        if (!stream.consume_and_skip_white_space(',')) [[unlikely]]
+            throw std::runtime_error("expecting ','");
     }
 
     if (!stream.consume_and_skip_white_space(']')) [[unlikely]]
-- 
2.43.0


From b1a81b7adc8cb9e97d6e7dc53574e490cb6d228e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 29/79] fix: max_size refused every json string with fixed size

---
 include/spb/json/deserialize.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 6192535..6b10636 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -485,11 +485,11 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
     auto index           = size_t(0);
     auto append_to_value = [&](const char *str, size_t size)
     {
-        if constexpr (attributes.max_size)
-            check_size(value.size() + size, attributes.max_size);
-
         if constexpr (spb::detail::proto_field_string_resizable<decltype(value)>)
         {
+            if constexpr (attributes.max_size)
+                check_size(value.size() + size, attributes.max_size);
+
             value.append(str, size);
         }
         else
-- 
2.43.0


From 2e96ff30f0e16c0a6933ac5b7fb7877482c03e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 30/79] fix: accept null for a json oneof field

---
 include/spb/json/deserialize.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 6b10636..b93a21e 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -847,6 +847,12 @@ template <field_attributes attributes, typename T> T deserialize_bitfield(auto &
 template <field_attributes attributes, size_t ordinal, typename T>
 void deserialize_variant(auto &stream, T &variant)
 {
+    if (stream.consume_and_skip_white_space("null"sv))
+    {
+        if (variant.index() == ordinal)
+            variant.template emplace<0>();
+        return;
+    }
     deserialize<attributes>(stream, variant.template emplace<ordinal>());
 }
 
-- 
2.43.0


From 8b9bdad5c8ed47a95653010acfd686348c91f1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 31/79] fix: ignore unknown json fields of an empty message

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 7372b54..cd64fe5 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -367,8 +367,8 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
 {
     if (message.fields.empty() && message.maps.empty() && message.oneofs.empty())
     {
-        stream << "void deserialize_value_gen(auto &, " << full_name << " &)\n{\n";
-        stream << "\n}\n\n";
+        stream << "void deserialize_value_gen(auto &stream, " << full_name << " &)\n{\n";
+        stream << "\tignore_key_and_value(stream);\n}\n\n";
         return;
     }
 
-- 
2.43.0


From 725b1f6e5897b10f8cf8998b76f51b9e7496ed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 32/79] fix: enum values named like a c++ keyword had a
 different name in json

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index cd64fe5..0b373fc 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -240,7 +240,7 @@ void dump_cpp_serialize_enum_gen(std::ostream &stream, const proto_enum &my_enum
             continue;
 
         stream << "\tcase " << full_name << "::" << field.name.get_name()
-               << ":\n\t\treturn serialize_enum(stream, \"" << field.name.get_name() << "\"sv);\n";
+               << ":\n\t\treturn serialize_enum(stream, \"" << field.name.proto_name << "\"sv);\n";
     }
     stream << "\tdefault:\n\t\tthrow std::system_error(std::make_error_code("
               "std::errc::invalid_argument));\n";
@@ -260,12 +260,12 @@ void dump_cpp_deserialize_enum_gen(std::ostream &stream, const proto_enum &my_en
     size_t key_size_min = UINT32_MAX;
     size_t key_size_max = 0;
 
-    auto name_map = std::multimap<uint32_t, std::string_view>();
+    auto name_map = std::multimap<uint32_t, cpp_ident>();
     for (const auto &field : my_enum.fields)
     {
-        name_map.emplace(spb::json::detail::djb2_hash(field.name.get_name()), field.name.get_name());
-        key_size_min = std::min(key_size_min, field.name.get_name().size());
-        key_size_max = std::max(key_size_max, field.name.get_name().size());
+        name_map.emplace(spb::json::detail::djb2_hash(field.name.proto_name), field.name);
+        key_size_min = std::min(key_size_min, field.name.proto_name.size());
+        key_size_max = std::max(key_size_max, field.name.proto_name.size());
     }
 
     stream << "void deserialize_value_gen(auto &stream, " << full_name << " & value)\n{\n";
@@ -286,10 +286,10 @@ void dump_cpp_deserialize_enum_gen(std::ostream &stream, const proto_enum &my_en
                 stream << "\t\t\t\tbreak;\n";
 
             put_break = true;
-            stream << "\t\t\tcase detail::djb2_hash(\"" << name << "\"sv):\n";
+            stream << "\t\t\tcase detail::djb2_hash(\"" << name.proto_name << "\"sv):\n";
         }
-        stream << "\t\t\t\tif (enum_str == \"" << name << "\"sv)\n\t\t\t\t{\n\t\t\t\t\tvalue = " << full_name
-               << "::" << name << ";\n\t\t\t\t\treturn ;\n\t\t\t\t}\n";
+        stream << "\t\t\t\tif (enum_str == \"" << name.proto_name << "\"sv)\n\t\t\t\t{\n\t\t\t\t\tvalue = " << full_name
+               << "::" << name.get_name() << ";\n\t\t\t\t\treturn ;\n\t\t\t\t}\n";
     }
     stream << "\t\t\t\tbreak ;\n";
     stream << "\t\t\t}\n\t\t\tthrow std::system_error(std::make_error_code("
-- 
2.43.0


From a456e7a4063d9f214c0933570d58a77f86af0e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 33/79] fix: json enum numbers were truncated to the type of
 the enum

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 0b373fc..fc98e3d 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -294,15 +294,14 @@ void dump_cpp_deserialize_enum_gen(std::ostream &stream, const proto_enum &my_en
     stream << "\t\t\t\tbreak ;\n";
     stream << "\t\t\t}\n\t\t\tthrow std::system_error(std::make_error_code("
               "std::errc::invalid_argument));\n";
-    stream << "\t\t},\n\t\t[&](int32_t enum_int)\n\t\t{\n\t\t\tswitch (" << full_name
-           << "(enum_int))\n\t\t\t{\n";
+    stream << "\t\t},\n\t\t[&](int32_t enum_int)\n\t\t{\n\t\t\tswitch (enum_int)\n\t\t\t{\n";
     std::set<int32_t> numbers_taken;
     for (const auto &field : my_enum.fields)
     {
         if (!numbers_taken.insert(field.number).second)
             continue;
 
-        stream << "\t\t\tcase " << full_name << "::" << field.name.get_name() << ":\n";
+        stream << "\t\t\tcase int32_t(" << full_name << "::" << field.name.get_name() << "):\n";
     }
     stream << "\t\t\t\tvalue = " << full_name << "(enum_int);\n\t\t\t\treturn ;\n";
     stream << "\t\t\t}\n\t\t\tthrow std::system_error(std::make_error_code("
-- 
2.43.0


From b28dcd5c875033fb04e4129302a9d81ec1d4ef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 34/79] fix: infinite loop on truncated base64

---
 include/spb/json/base64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/spb/json/base64.h b/include/spb/json/base64.h
index 7cc2556..61c7e68 100644
--- a/include/spb/json/base64.h
+++ b/include/spb/json/base64.h
@@ -102,7 +102,7 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
         auto view      = stream.view(1, UINT32_MAX);
         auto length    = view.find('"');
         auto end_found = length < view.npos;
-        if ((end_found && length % 4 != 0) || view.size() <= 4) [[unlikely]]
+        if ((end_found && length % 4 != 0) || (!end_found && view.size() < 8)) [[unlikely]]
             throw std::runtime_error("invalid base64");
 
         length = std::min(length, view.size());
-- 
2.43.0


From a47275f13a9aab5cf6a132ac54a7622b3a447cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 35/79] fix: limit the nesting depth of json values

---
 include/spb/json/deserialize.hpp | 36 ++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index b93a21e..dfdedcb 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -96,10 +96,38 @@ template <spb::detail::proto_field_bytes T> void clear(T &container)
     }
 }
 
+//- maximum nesting depth of messages below the top level one, same as protobuf
+constexpr uint32_t max_depth = 100;
+
+/**
+ * @brief check and count the nesting depth of values
+ *
+ */
+template <typename Stream> class depth_guard
+{
+    Stream &stream;
+
+  public:
+    explicit depth_guard(Stream &a_stream) : stream(a_stream)
+    {
+        if (stream.depth > max_depth) [[unlikely]]
+            throw std::runtime_error("value is nested too deep");
+
+        ++stream.depth;
+    }
+    depth_guard(const depth_guard &)            = delete;
+    depth_guard &operator=(const depth_guard &) = delete;
+    ~depth_guard()
+    {
+        --stream.depth;
+    }
+};
+
 struct istream_buffer
 {
     const uint8_t *p_start;
     const uint8_t *p_end;
+    uint32_t depth = 0;
 
     istream_buffer(const void *start, const void *end) noexcept
         : p_start((uint8_t *)start), p_end((uint8_t *)end)
@@ -204,6 +232,8 @@ struct istream_reader
     }
 
   public:
+    uint32_t depth = 0;
+
     istream_reader(spb::io::reader reader) : reader(reader)
     {
     }
@@ -764,6 +794,8 @@ void ignore_key_and_value(auto &stream)
 
 void ignore_object(auto &stream)
 {
+    const auto guard = depth_guard(stream);
+
     //- '{' was already checked by caller
     stream.consume_current_char(true);
 
@@ -783,6 +815,8 @@ void ignore_object(auto &stream)
 
 void ignore_array(auto &stream)
 {
+    const auto guard = depth_guard(stream);
+
     //- '[' was already checked by caller
     stream.consume_current_char(true);
 
@@ -858,6 +892,8 @@ void deserialize_variant(auto &stream, T &variant)
 
 template <field_attributes> void deserialize(auto &stream, spb::detail::proto_message auto &value)
 {
+    const auto guard = depth_guard(stream);
+
     if (!stream.consume_and_skip_white_space('{')) [[unlikely]]
         throw std::runtime_error("expecting '{'");
 
-- 
2.43.0


From 1eb7634cb7e81c045385c329b59d98ca04abd238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 36/79] fix: more than one oneof in a message

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 10 +++++-----
 src/spb-proto-compiler/dumper/pb/dumper.cpp   |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index fc98e3d..3f1fb30 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -209,16 +209,16 @@ void dump_field_attributes(std::ostream &stream, const proto_file &file, const p
 void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, const proto_message &message,
                               const proto_oneof &oneof)
 {
-    stream << "\tconst auto index = value." << oneof.name.get_name() << ".index();\n";
-    stream << "\tswitch(index)\n\t{\n";
+    stream << "\t{\n\t\tconst auto index = value." << oneof.name.get_name() << ".index();\n";
+    stream << "\t\tswitch(index)\n\t\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\tcase " << i + 1 << ":\n\t\t\treturn serialize<with_presence(";
+        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\tserialize<with_presence(";
         dump_field_attributes(stream, file, message, oneof.fields[i]);
         stream << ")>(stream, std::get<" << i + 1 << ">(value." << oneof.name.get_name() << "), \""
-               << json_field_name(oneof.fields[i]) << "\"sv);\n";
+               << json_field_name(oneof.fields[i]) << "\"sv);\n\t\t\t\tbreak;\n";
     }
-    stream << "\t}\n";
+    stream << "\t\t}\n\t}\n";
 }
 
 void dump_cpp_serialize_enum_gen(std::ostream &stream, const proto_enum &my_enum, std::string_view full_name)
diff --git a/src/spb-proto-compiler/dumper/pb/dumper.cpp b/src/spb-proto-compiler/dumper/pb/dumper.cpp
index 3f72717..38ef1fb 100644
--- a/src/spb-proto-compiler/dumper/pb/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/pb/dumper.cpp
@@ -212,10 +212,10 @@ void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, cons
     stream << "\t\tswitch (index)\n\t\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\treturn serialize<with_presence(";
+        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\tserialize<with_presence(";
         dump_serialize_mode(stream, file, message, oneof.fields[i]);
         stream << ")>(stream, " << oneof.fields[i].number << ", std::get<" << i + 1 << ">(value."
-               << oneof.name.get_name() << "));\n";
+               << oneof.name.get_name() << "));\n\t\t\t\tbreak;\n";
     }
     stream << "\t\t}\n\t}\n\n";
 }
-- 
2.43.0


From d05fad340d08013c52990fd11aa326c5553499d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 37/79] fix: options and limits of oneof fields were ignored

---
 src/spb-proto-compiler/ast/ast-options.cpp    | 8 ++++++++
 src/spb-proto-compiler/dumper/json/dumper.cpp | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/src/spb-proto-compiler/ast/ast-options.cpp b/src/spb-proto-compiler/ast/ast-options.cpp
index 259c89d..97201da 100644
--- a/src/spb-proto-compiler/ast/ast-options.cpp
+++ b/src/spb-proto-compiler/ast/ast-options.cpp
@@ -289,6 +289,14 @@ void resolve_options(proto_file &file, proto_message &message)
         convert_options(file, map.attributes, map.options, option_type::option_field, true);
         convert_options(file, message.attributes, map.options, option_type::option_message, false);
     }
+    for (auto &oneof : message.oneofs)
+    {
+        for (auto &field : oneof.fields)
+        {
+            convert_options(file, field.attributes, field.options, option_type::option_field, true);
+            convert_options(file, message.attributes, field.options, option_type::option_message, false);
+        }
+    }
     for (auto &sub_message : message.messages)
     {
         resolve_options(file, sub_message);
diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 3f1fb30..eab7b63 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -442,6 +442,7 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
             name_map.emplace(spb::json::detail::djb2_hash(field_name), one_field{
                                                                            .parsed_name = field_name,
                                                                            .name        = oneof.name,
+                                                                           .attributes  = oneof.fields[i].attributes,
                                                                            .oneof_index = i,
                                                                        });
             if (field_name != oneof.fields[i].name.proto_name)
@@ -453,6 +454,7 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
                                  one_field{
                                      .parsed_name = std::string(oneof.fields[i].name.proto_name),
                                      .name        = oneof.name,
+                                     .attributes  = oneof.fields[i].attributes,
                                      .oneof_index = i,
                                  });
             }
-- 
2.43.0


From 2d9bf6f4f97c49d97341aa5370090eb97cf43f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 38/79] fix: identifiers which start with a keyword and an
 underscore

---
 src/spb-proto-compiler/parser/char_stream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/parser/char_stream.h b/src/spb-proto-compiler/parser/char_stream.h
index 9ae8e89..d752510 100644
--- a/src/spb-proto-compiler/parser/char_stream.h
+++ b/src/spb-proto-compiler/parser/char_stream.h
@@ -106,8 +106,8 @@ struct char_stream
         {
             p_begin += token.size();
             update_current(false);
-            auto next = current_char();
-            if (isspace(next) || !isalnum(next))
+            const auto next = static_cast<unsigned char>(current_char());
+            if (!isalnum(next) && next != '_')
             {
                 update_current(true);
                 return true;
-- 
2.43.0


From 8b101b3a4476b7d266e9683b8b7c91287c7dbce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 39/79] fix: undefined behaviour of character classification
 for non-ascii input

---
 include/spb/json/deserialize.hpp            |  4 ++--
 src/spb-proto-compiler/dumper/header.cpp    |  4 ++--
 src/spb-proto-compiler/parser/char_stream.h |  2 +-
 src/spb-proto-compiler/parser/parser.cpp    | 10 +++++-----
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index dfdedcb..8f793fd 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -181,7 +181,7 @@ struct istream_buffer
         if (size() > token.size()) [[likely]]
         {
             const auto char_behind_token = p_start[token.size()];
-            if (isalnum(char_behind_token) || char_behind_token == '_')
+            if (isalnum(uint8_t(char_behind_token)) || char_behind_token == '_')
                 return false;
         }
 
@@ -195,7 +195,7 @@ struct istream_buffer
     }
     void skip_white_spaces() noexcept
     {
-        while (!empty() && isspace(*p_start))
+        while (!empty() && isspace(uint8_t(*p_start)))
         {
             ++p_start;
         }
diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 88d69d0..bd9ef01 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -59,12 +59,12 @@ auto trim_include(std::string_view str) -> std::string
 {
     auto p_begin = str.data();
     auto p_end   = str.data() + str.size();
-    while (p_begin < p_end && isspace(*p_begin))
+    while (p_begin < p_end && isspace(static_cast<unsigned char>(*p_begin)))
     {
         p_begin++;
     }
 
-    while (p_begin < p_end && isspace(p_end[-1]))
+    while (p_begin < p_end && isspace(static_cast<unsigned char>(p_end[-1])))
     {
         p_end--;
     }
diff --git a/src/spb-proto-compiler/parser/char_stream.h b/src/spb-proto-compiler/parser/char_stream.h
index d752510..14ce5a6 100644
--- a/src/spb-proto-compiler/parser/char_stream.h
+++ b/src/spb-proto-compiler/parser/char_stream.h
@@ -41,7 +41,7 @@ struct char_stream
         while (p_begin < p_end)
         {
             m_current = *p_begin;
-            if (!skip_white_space || isspace(m_current) == 0)
+            if (!skip_white_space || isspace(static_cast<unsigned char>(m_current)) == 0)
                 return;
 
             p_begin += 1;
diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 873448c..c70df53 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -77,7 +77,7 @@ void consume_or_fail(spb::char_stream &stream, std::string_view token)
 
 void skip_white_space_until_new_line(spb::char_stream &stream)
 {
-    while ((isspace(stream.current_char()) != 0) && stream.current_char() != '\n')
+    while ((isspace(static_cast<unsigned char>(stream.current_char())) != 0) && stream.current_char() != '\n')
     {
         stream.consume_current_char(false);
     }
@@ -96,7 +96,7 @@ auto consume_number(spb::char_stream &stream, std::integral auto &number) -> boo
         if (stream.consume('x') || stream.consume('X'))
             base = 16;
 
-        if (!::isdigit(stream.current_char()))
+        if (!::isdigit(static_cast<unsigned char>(stream.current_char())))
             return true;
     }
     auto result = spb_std_emu::from_chars(stream.begin(), stream.end(), number, base);
@@ -254,7 +254,7 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
 
     const auto *start = stream.begin();
 
-    if (isalpha(stream.current_char()) == 0)
+    if (isalpha(static_cast<unsigned char>(stream.current_char())) == 0)
     {
         stream.throw_parse_error("expecting identifier(a-zA-Z)");
         return {};
@@ -262,7 +262,7 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
 
     stream.consume_current_char(false);
     auto current = stream.current_char();
-    while ((current != 0) && (isalnum(current) != 0 || current == '_'))
+    while ((current != 0) && (isalnum(static_cast<unsigned char>(current)) != 0 || current == '_'))
     {
         stream.consume_current_char(false);
         current = stream.current_char();
@@ -445,7 +445,7 @@ void parse_top_level_package(spb::char_stream &stream, proto_base &package, prot
     if (c == '"' || c == '\'')
         return parse_string_literal(stream);
 
-    if (isdigit(c) || c == '+' || c == '-')
+    if (isdigit(static_cast<unsigned char>(c)) || c == '+' || c == '-')
         return parse_int_or_float(stream);
 
     return parse_full_ident(stream).proto_name;
-- 
2.43.0


From ba36e45e94588be42361e90f4fcbb0b66f5756a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:29 +0000
Subject: [PATCH 40/79] fix: hexadecimal and negative numbers in .proto files

---
 src/spb-proto-compiler/parser/parser.cpp | 45 +++++++++++++++---------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index c70df53..0c7500d 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -27,6 +27,7 @@
 #include <spb/to_from_chars.h>
 #include <stdexcept>
 #include <string_view>
+#include <utility>
 
 namespace
 {
@@ -88,24 +89,36 @@ concept int_or_float = std::integral<T> || std::floating_point<T>;
 
 auto consume_number(spb::char_stream &stream, std::integral auto &number) -> bool
 {
-    number    = {};
-    auto base = 10;
-    if (stream.consume('0'))
+    //- intLit = [ "-" ] ( decimalLit | octalLit | hexLit )
+    using number_type   = std::decay_t<decltype(number)>;
+    const auto negative = stream.consume('-');
+    auto digits         = stream.content();
+    auto base           = 10;
+    if (digits.starts_with("0x") || digits.starts_with("0X"))
     {
-        base = 8;
-        if (stream.consume('x') || stream.consume('X'))
-            base = 16;
-
-        if (!::isdigit(static_cast<unsigned char>(stream.current_char())))
-            return true;
+        base = 16;
+        digits.remove_prefix(2);
     }
-    auto result = spb_std_emu::from_chars(stream.begin(), stream.end(), number, base);
-    if (result.ec == std::errc{}) [[likely]]
+    else if (digits.starts_with('0'))
     {
-        stream.skip_to(result.ptr);
-        return true;
+        base = 8;
     }
-    return false;
+
+    if (digits.empty() || !::isxdigit(static_cast<unsigned char>(digits.front())))
+        return false;
+
+    auto value        = uint64_t{};
+    const auto result = spb_std_emu::from_chars(digits.data(), digits.data() + digits.size(), value, base);
+    if (result.ec != std::errc{} || value > uint64_t(std::numeric_limits<int64_t>::max())) [[unlikely]]
+        return false;
+
+    const auto signed_value = negative ? -int64_t(value) : int64_t(value);
+    if (!std::in_range<number_type>(signed_value)) [[unlikely]]
+        return false;
+
+    number = number_type(signed_value);
+    stream.skip_to(result.ptr);
+    return true;
 }
 
 auto consume_number(spb::char_stream &stream, std::floating_point auto &number) -> bool
@@ -560,7 +573,7 @@ void parse_reserved_ranges(spb::char_stream &stream, proto_reserved_range &range
     //- range =  intLit [ "to" ( intLit | "max" ) ]
     do
     {
-        const auto number = parse_number<uint32_t>(stream);
+        const auto number = parse_number<int32_t>(stream);
         auto number2      = number;
 
         if (stream.consume("to"))
@@ -571,7 +584,7 @@ void parse_reserved_ranges(spb::char_stream &stream, proto_reserved_range &range
             }
             else
             {
-                number2 = parse_number<uint32_t>(stream);
+                number2 = parse_number<int32_t>(stream);
             }
         }
 
-- 
2.43.0


From 8fa8275a2e94d747984df039a5ea09601b361bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 41/79] fix: infinite loop on a NUL character in a .proto file

---
 src/spb-proto-compiler/parser/parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 0c7500d..97da66a 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -991,7 +991,10 @@ void parse_top_level(spb::char_stream &stream, proto_file &file, parsing_ctx &ct
     switch (stream.current_char())
     {
     case '\0':
-        return;
+        if (stream.empty())
+            return;
+
+        return stream.throw_parse_error("expecting top level definition");
     case 's':
         return parse_top_level_syntax_or_service(stream, file, std::move(comment));
     case 'i':
-- 
2.43.0


From f0bcec47c3db95ef283cd4a6cd910a2c8f335bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 42/79] fix: white space was required behind every { [ and , of
 an option value

---
 src/spb-proto-compiler/parser/parser.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 97da66a..e4deff0 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -467,24 +467,24 @@ void parse_top_level_package(spb::char_stream &stream, proto_base &package, prot
 void parse_option_value(spb::char_stream &stream, proto_option &value);
 void parse_option_array(spb::char_stream &stream, proto_option &value)
 {
-    consume_or_fail(stream, "[");
-    while (!stream.consume("]"))
+    consume_or_fail(stream, '[');
+    while (!stream.consume(']'))
     {
         parse_option_value(stream, value);
-        stream.consume(",");
+        (void)stream.consume(',');
     }
 }
 
 void parse_option_struct(spb::char_stream &stream, proto_option &value)
 {
-    consume_or_fail(stream, "{");
+    consume_or_fail(stream, '{');
     auto &options = value.options.emplace_back();
-    while (!stream.consume("}"))
+    while (!stream.consume('}'))
     {
         const auto option_name = parse_ident(stream).proto_name;
         consume_or_fail(stream, ':');
         parse_option_value(stream, options[option_name]);
-        stream.consume(",");
+        (void)stream.consume(',');
     }
 }
 
-- 
2.43.0


From 5c4f9c6b15ca1a49a68fb16575e8afb7a087d550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 43/79] fix: accept syntax with single quotes

---
 src/spb-proto-compiler/parser/parser.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index e4deff0..f649ec7 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -345,20 +345,17 @@ void parse_top_level_syntax_body(spb::char_stream &stream, proto_syntax &syntax,
 
     consume_or_fail(stream, '=');
 
-    syntax.comments = std::move(comment);
-    if (stream.consume(R"("proto2")"))
+    syntax.comments    = std::move(comment);
+    const auto version = stream;
+    const auto name    = parse_string_literal(stream);
+    if (name != "proto2" && name != "proto3")
     {
-        syntax.version = 2;
-        return consume_statement_end(stream, syntax.comments);
+        stream = version;
+        stream.throw_parse_error("expecting proto2 or proto3");
     }
 
-    if (stream.consume(R"("proto3")"))
-    {
-        syntax.version = 3;
-        return consume_statement_end(stream, syntax.comments);
-    }
-
-    stream.throw_parse_error("expecting proto2 or proto3");
+    syntax.version = name == "proto2" ? 2 : 3;
+    consume_statement_end(stream, syntax.comments);
 }
 
 void parse_top_level_syntax_or_service(spb::char_stream &stream, proto_file &file, proto_comment &&comment)
-- 
2.43.0


From efbc7ae2ef48afd721c339345956249cae4881c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 44/79] fix: identifiers may start with an underscore

---
 src/spb-proto-compiler/parser/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index f649ec7..45dbd64 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -267,9 +267,9 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
 
     const auto *start = stream.begin();
 
-    if (isalpha(static_cast<unsigned char>(stream.current_char())) == 0)
+    if (isalpha(static_cast<unsigned char>(stream.current_char())) == 0 && stream.current_char() != '_')
     {
-        stream.throw_parse_error("expecting identifier(a-zA-Z)");
+        stream.throw_parse_error("expecting identifier(a-zA-Z_)");
         return {};
     }
 
-- 
2.43.0


From 134c87ed5e8f2adb52f8d61d58f1254a74a617ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 45/79] fix: empty statement inside of a oneof

---
 src/spb-proto-compiler/parser/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 45dbd64..ac10825 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -797,7 +797,7 @@ void parse_oneof_field(spb::char_stream &stream, proto_fields &fields, proto_com
         if (stream.consume('}'))
             break;
 
-        if (!parse_option(stream, new_oneof.options, std::move(comment)))
+        if (!parse_empty_statement(stream) && !parse_option(stream, new_oneof.options, std::move(comment)))
             parse_oneof_field(stream, new_oneof.fields, std::move(comment));
     }
     return new_oneof;
-- 
2.43.0


From 82c794bcc8a2b9294591842febe75c281b66ecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 46/79] fix: comment options were ignored for map and oneof
 fields

---
 src/spb-proto-compiler/parser/parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index ac10825..eb8a028 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -755,6 +755,7 @@ auto parse_map_body(spb::char_stream &stream, proto_comment &&comment) -> proto_
     new_map.options = parse_field_options(stream);
     new_map.comment = std::move(comment);
     consume_statement_end(stream, new_map.comment);
+    parse_options_from_comments(stream, new_map.options, new_map.comment);
     return new_map;
 }
 
@@ -780,6 +781,7 @@ void parse_oneof_field(spb::char_stream &stream, proto_fields &fields, proto_com
     new_field.options = parse_field_options(stream);
     new_field.comment = std::move(comment);
     consume_statement_end(stream, new_field.comment);
+    parse_options_from_comments(stream, new_field.options, new_field.comment);
     fields.push_back(new_field);
 }
 
-- 
2.43.0


From 24791b296ebc92797fedc64f3635c3ee561e1013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 47/79] fix: stack overflow of the compiler on deeply nested
 messages and options

---
 src/spb-proto-compiler/parser/parser.cpp | 42 +++++++++++++++---------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index eb8a028..ec6d2bf 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -64,6 +64,15 @@ void parse_or_throw(bool parsed, spb::char_stream &stream, std::string_view mess
         stream.throw_parse_error(message);
 }
 
+//- limits the recursion of nested messages and option values
+constexpr auto max_nesting_depth = size_t(100);
+
+void check_nesting_depth(spb::char_stream &stream, size_t depth)
+{
+    if (depth > max_nesting_depth) [[unlikely]]
+        stream.throw_parse_error("nested too deep");
+}
+
 void consume_or_fail(spb::char_stream &stream, char c)
 {
     if (!stream.consume(c))
@@ -461,18 +470,18 @@ void parse_top_level_package(spb::char_stream &stream, proto_base &package, prot
     return parse_full_ident(stream).proto_name;
 }
 
-void parse_option_value(spb::char_stream &stream, proto_option &value);
-void parse_option_array(spb::char_stream &stream, proto_option &value)
+void parse_option_value(spb::char_stream &stream, proto_option &value, size_t depth = 0);
+void parse_option_array(spb::char_stream &stream, proto_option &value, size_t depth)
 {
     consume_or_fail(stream, '[');
     while (!stream.consume(']'))
     {
-        parse_option_value(stream, value);
+        parse_option_value(stream, value, depth + 1);
         (void)stream.consume(',');
     }
 }
 
-void parse_option_struct(spb::char_stream &stream, proto_option &value)
+void parse_option_struct(spb::char_stream &stream, proto_option &value, size_t depth)
 {
     consume_or_fail(stream, '{');
     auto &options = value.options.emplace_back();
@@ -480,20 +489,21 @@ void parse_option_struct(spb::char_stream &stream, proto_option &value)
     {
         const auto option_name = parse_ident(stream).proto_name;
         consume_or_fail(stream, ':');
-        parse_option_value(stream, options[option_name]);
+        parse_option_value(stream, options[option_name], depth + 1);
         (void)stream.consume(',');
     }
 }
 
-void parse_option_value(spb::char_stream &stream, proto_option &option)
+void parse_option_value(spb::char_stream &stream, proto_option &option, size_t depth)
 {
+    check_nesting_depth(stream, depth);
     switch (stream.current_char())
     {
     case '{':
-        return parse_option_struct(stream, option);
+        return parse_option_struct(stream, option, depth);
 
     case '[':
-        return parse_option_array(stream, option);
+        return parse_option_array(stream, option, depth);
     default:
         option.value.push_back(parse_constant(stream));
     }
@@ -816,10 +826,11 @@ void parse_oneof_field(spb::char_stream &stream, proto_fields &fields, proto_com
     return true;
 }
 
-[[nodiscard]] auto parse_message(spb::char_stream &stream, proto_messages &messages, proto_comment &&comment)
-    -> bool;
+[[nodiscard]] auto parse_message(spb::char_stream &stream, proto_messages &messages, proto_comment &&comment,
+                                 size_t depth = 0) -> bool;
 
-void parse_message_body(spb::char_stream &stream, proto_messages &messages, proto_comment &&message_comment)
+void parse_message_body(spb::char_stream &stream, proto_messages &messages, proto_comment &&message_comment,
+                        size_t depth)
 {
     // messageBody = messageName "{" { field | enum | message | extend | extensions | group |
     // option | oneof | mapField | reserved | emptyStatement } "}"
@@ -838,7 +849,7 @@ void parse_message_body(spb::char_stream &stream, proto_messages &messages, prot
             break;
 
         if (!parse_empty_statement(stream) && !parse_enum(stream, new_message.enums, std::move(comment)) &&
-            !parse_message(stream, new_message.messages, std::move(comment)) &&
+            !parse_message(stream, new_message.messages, std::move(comment), depth + 1) &&
             //! parse_extend( stream, new_message.extends, std::move( comment ) ) &&
             !parse_extensions(stream, new_message.extensions, std::move(comment)) &&
             !parse_oneof(stream, new_message.oneofs, std::move(comment)) &&
@@ -852,14 +863,15 @@ void parse_message_body(spb::char_stream &stream, proto_messages &messages, prot
     messages.push_back(new_message);
 }
 
-[[nodiscard]] auto parse_message(spb::char_stream &stream, proto_messages &messages, proto_comment &&comment)
-    -> bool
+[[nodiscard]] auto parse_message(spb::char_stream &stream, proto_messages &messages, proto_comment &&comment,
+                                 size_t depth) -> bool
 {
     //- "message" messageName messageBody
     if (!stream.consume("message"))
         return false;
 
-    parse_message_body(stream, messages, std::move(comment));
+    check_nesting_depth(stream, depth);
+    parse_message_body(stream, messages, std::move(comment), depth);
     return true;
 }
 /*
-- 
2.43.0


From 095e007c2632d5aa9f10c6cbb8370867b60fed5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:05 +0000
Subject: [PATCH 48/79] fix: comments between the tokens of a statement

---
 src/spb-proto-compiler/parser/parser.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index ec6d2bf..5e381d6 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -58,6 +58,14 @@ auto find_file_in_paths(const fs::path &file_name, const parsing_ctx &ctx) -> fs
     throw std::runtime_error(strerror(ENOENT));
 }
 
+auto parse_comment(spb::char_stream &stream) -> proto_comment;
+
+//- comments are allowed between any two tokens
+void skip_comments(spb::char_stream &stream)
+{
+    (void)parse_comment(stream);
+}
+
 void parse_or_throw(bool parsed, spb::char_stream &stream, std::string_view message)
 {
     if (!parsed) [[unlikely]]
@@ -75,12 +83,14 @@ void check_nesting_depth(spb::char_stream &stream, size_t depth)
 
 void consume_or_fail(spb::char_stream &stream, char c)
 {
+    skip_comments(stream);
     if (!stream.consume(c))
         return stream.throw_parse_error("(expecting '" + std::string(1, c) + "')");
 }
 
 void consume_or_fail(spb::char_stream &stream, std::string_view token)
 {
+    skip_comments(stream);
     if (!stream.consume(token))
         return stream.throw_parse_error("(expecting '" + std::string(token) + "')");
 }
@@ -154,6 +164,7 @@ auto consume_float(spb::char_stream &stream, std::floating_point auto &number) -
 template <int_or_float T> auto parse_number(spb::char_stream &stream) -> T
 {
     auto result = T{};
+    skip_comments(stream);
     if (consume_number(stream, result))
         return result;
 
@@ -232,6 +243,7 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
 //- parse "string" | 'string'
 [[nodiscard]] auto parse_string_literal(spb::char_stream &stream) -> std::string_view
 {
+    skip_comments(stream);
     const auto c = stream.current_char();
     if (c != '"' && c != '\'')
     {
@@ -274,6 +286,9 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
         "using",       "virtual",   "void",       "volatile",  "wchar_t",  "while",        "xor",
         "xor_eq"};
 
+    if (skip_last_white_space)
+        skip_comments(stream);
+
     const auto *start = stream.begin();
 
     if (isalpha(static_cast<unsigned char>(stream.current_char())) == 0 && stream.current_char() != '_')
@@ -305,6 +320,7 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
 
 [[nodiscard]] auto parse_full_ident(spb::char_stream &stream) -> cpp_ident
 {
+    skip_comments(stream);
     const auto *start = stream.begin();
     auto cpp_name     = std::string();
 
@@ -334,6 +350,7 @@ void parse_top_level_service_body(spb::char_stream &stream, proto_file &, proto_
 
 void consume_statement_end(spb::char_stream &stream, proto_comment &comment)
 {
+    skip_comments(stream);
     if (stream.current_char() != ';')
         return stream.throw_parse_error(R"(expecting ";")");
 
@@ -497,6 +514,7 @@ void parse_option_struct(spb::char_stream &stream, proto_option &value, size_t d
 void parse_option_value(spb::char_stream &stream, proto_option &option, size_t depth)
 {
     check_nesting_depth(stream, depth);
+    skip_comments(stream);
     switch (stream.current_char())
     {
     case '{':
@@ -634,15 +652,18 @@ void parse_reserved_ranges(spb::char_stream &stream, proto_reserved_range &range
 [[nodiscard]] auto parse_field_options(spb::char_stream &stream) -> proto_options
 {
     auto options = proto_options{};
+    skip_comments(stream);
     if (stream.consume('['))
     {
         auto first = true;
+        skip_comments(stream);
         while (!stream.consume(']'))
         {
             if (!first)
                 consume_or_fail(stream, ',');
 
             parse_option_body(stream, options);
+            skip_comments(stream);
             first = false;
         }
     }
@@ -744,6 +765,7 @@ auto parse_map_key_type(spb::char_stream &stream) -> std::string_view
     constexpr auto key_types =
         std::array<std::string_view, 12>{{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32",
                                           "fixed64", "sfixed32", "sfixed64", "bool", "string"}};
+    skip_comments(stream);
     for (auto key_type : key_types)
     {
         if (stream.consume(key_type))
-- 
2.43.0


From d198c791e25054ddc968389742804b8ed73621a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:05 +0000
Subject: [PATCH 49/79] fix: field numbers out of range were accepted

---
 src/spb-proto-compiler/parser/parser.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 5e381d6..6c38ca2 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -739,6 +739,22 @@ void parse_enum_field(spb::char_stream &stream, proto_enum &new_enum, proto_comm
     return proto_field::Label::OPTIONAL;
 }
 
+[[nodiscard]] auto parse_field_number(spb::char_stream &stream) -> decltype(proto_field::number)
+{
+    //- field number is stored in 29 bits of the tag
+    static constexpr auto max_field_number = (1 << 29) - 1;
+
+    skip_comments(stream);
+    const auto start  = stream;
+    const auto number = parse_number<decltype(proto_field::number)>(stream);
+    if (number < 1 || number > max_field_number)
+    {
+        stream = start;
+        stream.throw_parse_error("field number is out of range");
+    }
+    return number;
+}
+
 void parse_field(spb::char_stream &stream, proto_fields &fields, proto_comment &&comment)
 {
     //- field = label type fieldName "=" fieldNumber [ "[" fieldOptions "]" ] ";"
@@ -750,7 +766,7 @@ void parse_field(spb::char_stream &stream, proto_fields &fields, proto_comment &
     };
 
     new_field.name    = parse_ident(stream);
-    new_field.number  = (consume_or_fail(stream, '='), parse_number<decltype(proto_field::number)>(stream));
+    new_field.number  = (consume_or_fail(stream, '='), parse_field_number(stream));
     new_field.options = parse_field_options(stream);
     new_field.comment = std::move(comment);
     consume_statement_end(stream, new_field.comment);
@@ -783,7 +799,7 @@ auto parse_map_body(spb::char_stream &stream, proto_comment &&comment) -> proto_
         .value = proto_field{.type_name = (consume_or_fail(stream, ','), parse_full_ident(stream))},
     };
     new_map.name    = (consume_or_fail(stream, '>'), parse_ident(stream));
-    new_map.number  = (consume_or_fail(stream, '='), parse_number<decltype(proto_map::number)>(stream));
+    new_map.number  = (consume_or_fail(stream, '='), parse_field_number(stream));
     new_map.options = parse_field_options(stream);
     new_map.comment = std::move(comment);
     consume_statement_end(stream, new_map.comment);
@@ -809,7 +825,7 @@ void parse_oneof_field(spb::char_stream &stream, proto_fields &fields, proto_com
     auto new_field = proto_field{.type_name = parse_full_ident(stream)};
 
     new_field.name    = parse_ident(stream);
-    new_field.number  = (consume_or_fail(stream, '='), parse_number<decltype(proto_field::number)>(stream));
+    new_field.number  = (consume_or_fail(stream, '='), parse_field_number(stream));
     new_field.options = parse_field_options(stream);
     new_field.comment = std::move(comment);
     consume_statement_end(stream, new_field.comment);
-- 
2.43.0


From 08c948abbe6486c5f3df5522baf0847069e8c147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:54 +0000
Subject: [PATCH 50/79] fix: errors while writing the generated files were
 ignored

---
 src/spb-proto-compiler/main.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/main.cpp b/src/spb-proto-compiler/main.cpp
index 1deb7eb..18e65a0 100644
--- a/src/spb-proto-compiler/main.cpp
+++ b/src/spb-proto-compiler/main.cpp
@@ -69,6 +69,13 @@ auto get_relative_output_dir(const fs::path &input_file, std::span<const fs::pat
     return {};
 }
 
+void close_or_throw(std::ofstream &stream, const fs::path &path)
+{
+    stream.close();
+    if (!stream)
+        throw std::runtime_error(path.string() + ": can't write the file");
+}
+
 void process_file(const fs::path &input_file, std::span<const fs::path> import_paths,
                   const fs::path &output_dir)
 {
@@ -78,11 +85,15 @@ void process_file(const fs::path &input_file, std::span<const fs::path> import_p
     const auto rel_output_dir = get_relative_output_dir(input_file, import_paths);
 
     fs::create_directories(output_dir / rel_output_dir);
-    auto cpp_header_stream = std::ofstream(output_dir / rel_output_dir / output_cpp_header);
+    const auto header_path = output_dir / rel_output_dir / output_cpp_header;
+    auto cpp_header_stream = std::ofstream(header_path);
     dump_cpp_header(parsed_file, cpp_header_stream);
+    close_or_throw(cpp_header_stream, header_path);
 
-    auto cpp_stream = std::ofstream(output_dir / rel_output_dir / output_cpp);
+    const auto cpp_path = output_dir / rel_output_dir / output_cpp;
+    auto cpp_stream     = std::ofstream(cpp_path);
     dump_cpp(parsed_file, rel_output_dir / output_cpp_header, cpp_stream);
+    close_or_throw(cpp_stream, cpp_path);
 }
 
 } // namespace
-- 
2.43.0


From 42ff759b54c81a110ba2fcf6d9432351c9115fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:54 +0000
Subject: [PATCH 51/79] fix: dangling pointers into the content of short
 imported files

---
 src/spb-proto-compiler/io/file.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/io/file.cpp b/src/spb-proto-compiler/io/file.cpp
index cc7d645..0e3c267 100644
--- a/src/spb-proto-compiler/io/file.cpp
+++ b/src/spb-proto-compiler/io/file.cpp
@@ -9,6 +9,8 @@
 \***************************************************************************/
 
 #include "file.h"
+#include <algorithm>
+#include <cstdint>
 #include <cstdio>
 #include <cstring>
 #include <stdexcept>
@@ -16,7 +18,10 @@
 auto load_file(const std::filesystem::path &file_path) -> std::string
 {
     const auto file_size = std::filesystem::file_size(file_path);
-    auto file_content = std::string(file_size, '\0');
+    auto file_content = std::string();
+    //- the ast points to the content, so its location can't change with a move (short strings do)
+    file_content.reserve(std::max(file_size, std::uintmax_t(sizeof(file_content))));
+    file_content.resize(file_size);
 
     if (auto *p_file = fopen(file_path.string().c_str(), "rb"); p_file)
     {
-- 
2.43.0


From 9671c41d3ac1dd334debad016b8dbc07c0af2bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:35 +0000
Subject: [PATCH 52/79] fix: imports: relative type names, shared and public
 imports, headers in sub directories

---
 .../ast/ast-messages-order.cpp                |  43 +------
 src/spb-proto-compiler/ast/ast-types.cpp      | 110 ++++++++++++++----
 src/spb-proto-compiler/ast/proto-field.h      |   3 +
 src/spb-proto-compiler/ast/proto-file.h       |  19 ++-
 src/spb-proto-compiler/dumper/header.cpp      |   5 +-
 src/spb-proto-compiler/main.cpp               |  23 ----
 src/spb-proto-compiler/parser/parser.cpp      |  58 ++++++++-
 src/spb-proto-compiler/parser/parser.h        |  17 ++-
 8 files changed, 181 insertions(+), 97 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-messages-order.cpp b/src/spb-proto-compiler/ast/ast-messages-order.cpp
index 7b68b9b..7d3ae6e 100644
--- a/src/spb-proto-compiler/ast/ast-messages-order.cpp
+++ b/src/spb-proto-compiler/ast/ast-messages-order.cpp
@@ -271,56 +271,22 @@ auto resolve_from_parent(const search_ctx &self, const proto_field &field, size_
     return resolve_field(*self.p_parent, field, type_part);
 }
 
-[[nodiscard]]
-auto resolve_from_import(const proto_file &import, const proto_field &field) -> bool
-{
-    if (import.package.name.proto_name.empty())
-        return resolve_from_message(import.package, field, 0);
-
-    if (field.type_name.proto_name.size() > import.package.name.proto_name.size() &&
-        field.type_name.proto_name[import.package.name.proto_name.size()] == '.' &&
-        field.type_name.proto_name.starts_with(import.package.name.proto_name))
-    {
-        return resolve_from_message(import.package, field, type_parts(import.package.name.proto_name) + 1);
-    }
-
-    return false;
-}
-
-[[nodiscard]]
-auto resolve_from_imports(const search_ctx &self, const proto_field &field, size_t type_part) -> bool
-{
-    if (type_part > 0)
-        return false;
-
-    for (const auto &import : self.state.file.imports)
-    {
-        if (resolve_from_import(import, field))
-            return true;
-    }
-
-    return false;
-}
-
 [[nodiscard]]
 auto resolve_field(const search_ctx &ctx, const proto_field &field, size_t type_part) -> bool
 {
-    if (is_scalar(field.type) || is_self(ctx, field, type_part))
+    if (is_scalar(field.type) || field.is_imported || is_self(ctx, field, type_part))
         return true;
 
     if (resolve_from_message(ctx.message, field, type_part))
         return true;
 
-    if (resolve_from_parent(ctx, field, type_part))
-        return true;
-
-    return resolve_from_imports(ctx, field, type_part);
+    return resolve_from_parent(ctx, field, type_part);
 }
 
 [[nodiscard]]
 auto resolve_field(search_ctx &ctx, proto_field &field, size_t type_part) -> bool
 {
-    if (is_scalar(field.type) || is_self(ctx, field, type_part))
+    if (is_scalar(field.type) || field.is_imported || is_self(ctx, field, type_part))
         return true;
 
     if (resolve_from_message(ctx.message, field, type_part))
@@ -329,9 +295,6 @@ auto resolve_field(search_ctx &ctx, proto_field &field, size_t type_part) -> boo
     if (resolve_from_parent(ctx, field, type_part))
         return true;
 
-    if (resolve_from_imports(ctx, field, type_part))
-        return true;
-
     return is_forwarded(ctx, field, type_part);
 }
 
diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index ea6a040..2143f02 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -252,37 +252,95 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
     return resolve_type(*self.p_parent, field, type_part).first;
 }
 
-[[nodiscard]] auto resolve_from_import(const proto_file &import, const proto_field &field)
-    -> proto_field::Type
+/**
+ * @brief search for a type name relative to any of the packages which enclose the `file`
+ *        example: file "a.b" can use type "a.c.T" as "T" (b == c), "c.T" or "a.c.T"
+ *
+ * @param resolve called with the number of parts of the type name which belong to the package name
+ */
+[[nodiscard]] auto resolve_from_package(const proto_file &file, const proto_file &type_file,
+                                        const proto_field &field, auto resolve) -> proto_field::Type
+{
+    const auto package   = type_file.package.name.proto_name;
+    const auto type_name = field.type_name.proto_name;
+
+    for (auto scope = file.package.name.proto_name;;)
+    {
+        if (scope == package)
+        {
+            if (const auto type = resolve(0); type)
+                return type;
+        }
+        else if (scope.empty() || (package.starts_with(scope) && package[scope.size()] == '.'))
+        {
+            const auto name = package.substr(scope.empty() ? 0 : scope.size() + 1);
+            if (type_name.size() > name.size() && type_name.starts_with(name) &&
+                type_name[name.size()] == '.')
+            {
+                if (const auto type = resolve(type_parts(name) + 1); type)
+                    return type;
+            }
+        }
+
+        if (scope.empty())
+            return proto_field::Type::NONE;
+
+        const auto dot_index = scope.rfind('.');
+        scope                = scope.substr(0, dot_index == scope.npos ? 0 : dot_index);
+    }
+}
+
+[[nodiscard]] auto resolve_from_import(const proto_file &file, const proto_file &import,
+                                       const proto_field &field) -> proto_field::Type
 {
-    if (import.package.name.proto_name.empty())
-        return resolve_from_message(import.package, field, 0);
+    const auto type = resolve_from_package(file, import, field, [&](size_t package_parts)
+                                           { return resolve_from_message(import.package, field, package_parts); });
+    if (type)
+        return type;
 
-    if (field.type_name.proto_name.size() > import.package.name.proto_name.size() &&
-        field.type_name.proto_name[import.package.name.proto_name.size()] == '.' &&
-        field.type_name.proto_name.starts_with(import.package.name.proto_name))
+    for (const auto &public_import : import.imports)
     {
-        return resolve_from_message(import.package, field, type_parts(import.package.name.proto_name) + 1);
+        if (!public_import.is_public)
+            continue;
+
+        if (const auto public_type = resolve_from_import(file, *public_import.file, field); public_type)
+            return public_type;
     }
 
     return proto_field::Type::NONE;
 }
 
-[[nodiscard]] auto resolve_from_imports(const search_ctx &self, const proto_field &field, size_t type_part)
-    -> proto_field::Type
+[[nodiscard]] auto resolve_from_imports(const proto_file &file, const proto_field &field) -> proto_field::Type
 {
-    if (type_part > 0)
-        return proto_field::Type::NONE;
-
-    for (const auto &import : self.file.imports)
+    for (const auto &import : file.imports)
     {
-        if (const auto type = resolve_from_import(import, field); type)
+        if (const auto type = resolve_from_import(file, *import.file, field); type)
             return type;
     }
 
     return proto_field::Type::NONE;
 }
 
+/**
+ * @brief resolve a name qualified with the package of the file itself and remove the package from the name
+ *
+ */
+[[nodiscard]] auto resolve_from_own_package(const proto_file &file, proto_field &field) -> proto_field::Type
+{
+    return resolve_from_package(
+        file, file, field,
+        [&](size_t package_parts)
+        {
+            const auto type = resolve_from_message(file.package, field, package_parts);
+            for (; type && package_parts > 0; package_parts--)
+            {
+                auto &name = field.type_name.proto_name;
+                name.remove_prefix(name.find('.') + 1);
+            }
+            return type;
+        });
+}
+
 auto resolve_type(const search_ctx &self, const proto_field &field, size_t type_part)
     -> std::pair<proto_field::Type, proto_field::BitType>
 {
@@ -292,18 +350,24 @@ auto resolve_type(const search_ctx &self, const proto_field &field, size_t type_
     if (const auto type = resolve_from_message(self.message, field, type_part); type)
         return {type, proto_field::BitType::NONE};
 
-    if (const auto type = resolve_from_parent(self, field, type_part); type)
-        return {type, proto_field::BitType::NONE};
-
-    if (const auto type = resolve_from_imports(self, field, type_part); type)
-        return {type, proto_field::BitType::NONE};
-
-    throw_parse_error(self.file, field.type_name.proto_name, "type can't be resolved");
+    return {resolve_from_parent(self, field, type_part), proto_field::BitType::NONE};
 }
 
 void resolve_types(const search_ctx &self, proto_field &field)
 {
-    const auto [type, bit_type] = resolve_type(self, field, 0);
+    auto [type, bit_type] = resolve_type(self, field, 0);
+
+    if (type == proto_field::Type::NONE)
+        type = resolve_from_own_package(self.file, field);
+
+    if (type == proto_field::Type::NONE)
+    {
+        type              = resolve_from_imports(self.file, field);
+        field.is_imported = type != proto_field::Type::NONE;
+    }
+
+    if (type == proto_field::Type::NONE)
+        throw_parse_error(self.file, field.type_name.proto_name, "type can't be resolved");
 
     field.type     = type;
     field.bit_type = bit_type;
diff --git a/src/spb-proto-compiler/ast/proto-field.h b/src/spb-proto-compiler/ast/proto-field.h
index b247718..c391cd8 100644
--- a/src/spb-proto-compiler/ast/proto-field.h
+++ b/src/spb-proto-compiler/ast/proto-field.h
@@ -70,6 +70,9 @@ struct proto_field : public proto_base
 
     cpp_ident type_name;
 
+    //- `type_name` is defined in an imported file
+    bool is_imported = false;
+
     BitType bit_type = BitType::NONE;
     std::string_view bit_field;
 };
diff --git a/src/spb-proto-compiler/ast/proto-file.h b/src/spb-proto-compiler/ast/proto-file.h
index 7b6778f..2eef414 100644
--- a/src/spb-proto-compiler/ast/proto-file.h
+++ b/src/spb-proto-compiler/ast/proto-file.h
@@ -19,12 +19,27 @@
 #include "proto-service.h"
 #include "proto-syntax.h"
 #include <filesystem>
+#include <memory>
 #include <string>
+#include <string_view>
 #include <vector>
 
 struct proto_file;
 
-using proto_files = std::vector<proto_file>;
+struct proto_import
+{
+    //- imported file, it's parsed only once
+    std::shared_ptr<const proto_file> file;
+    //- as written in the import statement
+    std::string_view name;
+    //- generated header of the imported file
+    std::filesystem::path header;
+    //- types from a public import are visible also to the files which import this file
+    bool is_public = false;
+    proto_comment comment;
+};
+
+using proto_imports = std::vector<proto_import>;
 
 struct proto_file
 {
@@ -32,7 +47,7 @@ struct proto_file
     std::string content;
     proto_syntax syntax;
     proto_comment comment;
-    proto_files imports;
+    proto_imports imports;
     proto_message package;
     proto_extends extends;
     proto_options options;
diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index bd9ef01..6fc9247 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -101,10 +101,11 @@ void get_imports(cpp_includes &includes, const proto_file &file)
 {
     for (const auto &import : file.imports)
     {
-        if (file.attributes.exclude.contains(import.path.filename().string()))
+        if (file.attributes.exclude.contains(import.name) ||
+            file.attributes.exclude.contains(import.file->path.filename().string()))
             continue;
 
-        includes.insert("\"" + cpp_file_name_from_proto(import.path, ".pb.h").string() + "\"");
+        includes.insert("\"" + import.header.generic_string() + "\"");
     }
 }
 
diff --git a/src/spb-proto-compiler/main.cpp b/src/spb-proto-compiler/main.cpp
index 18e65a0..34f86e5 100644
--- a/src/spb-proto-compiler/main.cpp
+++ b/src/spb-proto-compiler/main.cpp
@@ -46,29 +46,6 @@ void print_usage()
               << "  --cpp_out=OUT_DIR           Generate C++ header and source.\n\n";
 }
 
-auto construct_path(fs::path::iterator begin, fs::path::iterator end) -> fs::path
-{
-    fs::path result;
-    for (auto it = begin; it != end; ++it)
-    {
-        result /= *it;
-    }
-
-    return result.parent_path();
-}
-
-auto get_relative_output_dir(const fs::path &input_file, std::span<const fs::path> import_paths) -> fs::path
-{
-    for (const auto &import : import_paths)
-    {
-        const auto miss = std::mismatch(import.begin(), import.end(), input_file.begin(), input_file.end());
-
-        if (miss.first == import.end())
-            return construct_path(miss.second, input_file.end());
-    }
-    return {};
-}
-
 void close_or_throw(std::ofstream &stream, const fs::path &path)
 {
     stream.close();
diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 6c38ca2..99c29fc 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -72,6 +72,24 @@ void parse_or_throw(bool parsed, spb::char_stream &stream, std::string_view mess
         stream.throw_parse_error(message);
 }
 
+auto construct_path(fs::path::iterator begin, fs::path::iterator end) -> fs::path
+{
+    fs::path result;
+    for (auto it = begin; it != end; ++it)
+    {
+        result /= *it;
+    }
+
+    return result.parent_path();
+}
+
+//- absolute path without any "." and ".." and without a trailing separator
+auto normalized_path(const fs::path &path) -> fs::path
+{
+    auto result = fs::absolute(path).lexically_normal();
+    return result.has_filename() ? result : result.parent_path();
+}
+
 //- limits the recursion of nested messages and option values
 constexpr auto max_nesting_depth = size_t(100);
 
@@ -400,7 +418,11 @@ void parse_top_level_import(spb::char_stream &stream, proto_file &file, parsing_
 {
     // "import" [ "weak" | "public" ] strLit ";"
     consume_or_fail(stream, "import");
-    stream.consume("weak") || stream.consume("public");
+    skip_comments(stream);
+    const auto is_public = stream.consume("public");
+    if (!is_public)
+        (void)stream.consume("weak");
+
     const auto import_name = parse_string_literal(stream);
     auto import_comment    = std::move(comment);
     consume_statement_end(stream, import_comment);
@@ -416,11 +438,22 @@ void parse_top_level_import(spb::char_stream &stream, proto_file &file, parsing_
         try
         {
             const auto import_file_path = find_file_in_paths(import_name, import_ctx);
-            if (!ctx.already_parsed.insert(import_file_path.string()).second)
+            const auto [parsed, is_new]  = ctx.already_parsed.try_emplace(import_file_path.string());
+            if (is_new)
+                parsed->second = std::make_shared<proto_file>(parse_proto_file(import_file_path, import_ctx));
+
+            //- cyclic import
+            if (!parsed->second)
                 return;
 
-            file.imports.emplace_back(parse_proto_file(import_file_path, import_ctx)).comment =
-                std::move(import_comment);
+            file.imports.push_back({
+                .file      = parsed->second,
+                .name      = import_name,
+                .header    = get_relative_output_dir(import_file_path, ctx.import_paths) /
+                             cpp_file_name_from_proto(import_file_path, ".pb.h"),
+                .is_public = is_public,
+                .comment   = std::move(import_comment),
+            });
         }
         catch (const std::runtime_error &)
         {
@@ -1122,7 +1155,7 @@ auto parse_proto_file(const fs::path &file, std::span<const fs::path> import_pat
         .import_paths   = import_paths,
     };
     const auto file_path = find_file_in_paths(file, ctx);
-    already_parsed.insert(file_path.string());
+    already_parsed.try_emplace(file_path.string());
     return parse_proto_file(file_path, ctx);
 }
 
@@ -1131,3 +1164,18 @@ auto parse_proto_file(const fs::path &file, std::span<const fs::path> import_pat
 {
     return proto_file_path.stem().concat(extension);
 }
+
+auto get_relative_output_dir(const fs::path &file_path, std::span<const fs::path> import_paths) -> fs::path
+{
+    const auto input_file = normalized_path(file_path);
+
+    for (const auto &import_path : import_paths)
+    {
+        const auto import = normalized_path(import_path);
+        const auto miss   = std::mismatch(import.begin(), import.end(), input_file.begin(), input_file.end());
+
+        if (miss.first == import.end())
+            return construct_path(miss.second, input_file.end());
+    }
+    return {};
+}
diff --git a/src/spb-proto-compiler/parser/parser.h b/src/spb-proto-compiler/parser/parser.h
index aab2121..ea7feac 100644
--- a/src/spb-proto-compiler/parser/parser.h
+++ b/src/spb-proto-compiler/parser/parser.h
@@ -12,8 +12,10 @@
 
 #include "ast/proto-file.h"
 #include <filesystem>
-#include <set>
+#include <map>
+#include <memory>
 #include <span>
+#include <string>
 #include <string_view>
 
 /**
@@ -27,6 +29,16 @@
 [[nodiscard]] auto cpp_file_name_from_proto(const std::filesystem::path &proto_file_path,
                                             std::string_view extension) -> std::filesystem::path;
 
+/**
+ * @brief get output directory (relative to the --cpp_out directory) for generated files
+ *
+ * @param file_path proto file path
+ * @param import_paths proto import paths (searched in order)
+ */
+[[nodiscard]] auto get_relative_output_dir(const std::filesystem::path &file_path,
+                                           std::span<const std::filesystem::path> import_paths)
+    -> std::filesystem::path;
+
 /**
  * @brief parse proto file
  *
@@ -40,7 +52,8 @@ auto parse_proto_file(const std::filesystem::path &file_path,
                       const std::filesystem::path &base_dir = std::filesystem::current_path()) -> proto_file;
 
 namespace fs       = std::filesystem;
-using parsed_files = std::set<std::string>;
+//- null for a file which is being parsed
+using parsed_files = std::map<std::string, std::shared_ptr<const proto_file>>;
 
 struct parsing_ctx
 {
-- 
2.43.0


From 0d14e268debe36b2d4b2a1a93aac1fc6e520518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 53/79] fix: type names with a leading dot

---
 src/spb-proto-compiler/parser/parser.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 99c29fc..85de5e1 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -361,6 +361,21 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
     return {.proto_name = proto_name, .cpp_name = std::move(cpp_name)};
 }
 
+//- messageType = [ "." ] { ident "." } messageName
+[[nodiscard]] auto parse_type_name(spb::char_stream &stream) -> cpp_ident
+{
+    skip_comments(stream);
+    const auto is_absolute = stream.current_char() == '.';
+    if (is_absolute)
+        stream.consume_current_char(false);
+
+    auto result = parse_full_ident(stream);
+    if (is_absolute)
+        result.cpp_name = "::" + std::string(result.get_name());
+
+    return result;
+}
+
 void parse_top_level_service_body(spb::char_stream &stream, proto_file &, proto_comment &&)
 {
     return stream.throw_parse_error("not implemented");
@@ -795,7 +810,7 @@ void parse_field(spb::char_stream &stream, proto_fields &fields, proto_comment &
     //- fieldOption = optionName "=" constant
     auto new_field = proto_field{
         .label     = parse_field_label(stream),
-        .type_name = parse_full_ident(stream),
+        .type_name = parse_type_name(stream),
     };
 
     new_field.name    = parse_ident(stream);
@@ -829,7 +844,7 @@ auto parse_map_body(spb::char_stream &stream, proto_comment &&comment) -> proto_
 
     auto new_map = proto_map{
         .key   = proto_field{.type_name = {.proto_name = parse_map_key_type(stream)}},
-        .value = proto_field{.type_name = (consume_or_fail(stream, ','), parse_full_ident(stream))},
+        .value = proto_field{.type_name = (consume_or_fail(stream, ','), parse_type_name(stream))},
     };
     new_map.name    = (consume_or_fail(stream, '>'), parse_ident(stream));
     new_map.number  = (consume_or_fail(stream, '='), parse_field_number(stream));
@@ -855,7 +870,7 @@ auto parse_map_body(spb::char_stream &stream, proto_comment &&comment) -> proto_
 void parse_oneof_field(spb::char_stream &stream, proto_fields &fields, proto_comment &&comment)
 {
     //- oneofField = type fieldName "=" fieldNumber [ "[" fieldOptions "]" ] ";"
-    auto new_field = proto_field{.type_name = parse_full_ident(stream)};
+    auto new_field = proto_field{.type_name = parse_type_name(stream)};
 
     new_field.name    = parse_ident(stream);
     new_field.number  = (consume_or_fail(stream, '='), parse_field_number(stream));
-- 
2.43.0


From 9df4d0a6a371cd78b07fec1d4199ca8593af3ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 54/79] fix: forward declaration of a message named like a c++
 keyword

---
 src/spb-proto-compiler/ast/ast-messages-order.cpp | 2 +-
 src/spb-proto-compiler/ast/proto-message.h        | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-messages-order.cpp b/src/spb-proto-compiler/ast/ast-messages-order.cpp
index 7d3ae6e..e1c3b71 100644
--- a/src/spb-proto-compiler/ast/ast-messages-order.cpp
+++ b/src/spb-proto-compiler/ast/ast-messages-order.cpp
@@ -186,7 +186,7 @@ auto is_forwarded(search_ctx &ctx, proto_field &field, size_t type_part) -> bool
             [[fallthrough]];
         case proto_field::Label::REPEATED:
         case proto_field::Label::PTR:
-            ctx.p_parent->message.forwards.insert(message.name.proto_name);
+            ctx.p_parent->message.forwards.emplace(message.name.get_name());
             return true;
         }
     }
diff --git a/src/spb-proto-compiler/ast/proto-message.h b/src/spb-proto-compiler/ast/proto-message.h
index 10688f7..c15f581 100644
--- a/src/spb-proto-compiler/ast/proto-message.h
+++ b/src/spb-proto-compiler/ast/proto-message.h
@@ -17,12 +17,13 @@
 #include "proto-map.h"
 #include "proto-oneof.h"
 #include <set>
+#include <string>
 #include <string_view>
 #include <vector>
 
 struct proto_message;
 using proto_messages         = std::vector<proto_message>;
-using forwarded_declarations = std::set<std::string_view>;
+using forwarded_declarations = std::set<std::string>;
 
 struct proto_message : public proto_base
 {
-- 
2.43.0


From f5e0a2ffd44957d00b1756dfe9f247cc5ceb9ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 55/79] fix: string and bytes options of a message were ignored
 for its oneof fields

---
 src/spb-proto-compiler/dumper/header.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 6fc9247..d3e0f49 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -347,14 +347,15 @@ void dump_enum(std::ostream &stream, const proto_enum &my_enum, const proto_mess
     stream << "};\n";
 }
 
-void dump_message_oneof(std::ostream &stream, const proto_oneof &oneof, const proto_file &file)
+void dump_message_oneof(std::ostream &stream, const proto_oneof &oneof, const proto_message &message,
+                        const proto_file &file)
 {
     dump_comment(stream, oneof.comment);
 
     stream << "std::variant<std::monostate";
     for (const auto &field : oneof.fields)
     {
-        stream << ", " << convert_to_ctype(file, field);
+        stream << ", " << convert_to_ctype(file, field, message);
     }
     stream << "> " << oneof.name.get_name() << ";\n";
 }
@@ -452,11 +453,12 @@ void get_std_includes(const proto_field &field, const proto_message &message, co
     get_std_includes(ctype, type, result);
 }
 
-void get_std_includes(const proto_oneof &oneof, const proto_file &file, std_includes &result)
+void get_std_includes(const proto_oneof &oneof, const proto_message &message, const proto_file &file,
+                      std_includes &result)
 {
     for (const auto &field : oneof.fields)
     {
-        get_std_includes(convert_to_ctype(file, field), "", result);
+        get_std_includes(convert_to_ctype(file, field, message), "", result);
     }
 }
 
@@ -470,7 +472,7 @@ void get_std_includes(const proto_message &message, const proto_file &file, std_
     for (const auto &oneof : message.oneofs)
     {
         result.variant = true;
-        get_std_includes(oneof, file, result);
+        get_std_includes(oneof, message, file, result);
     }
 
     for (const auto &field : message.fields)
@@ -523,7 +525,7 @@ void dump_message(std::ostream &stream, const proto_message &message, const prot
 
     for (const auto &oneof : message.oneofs)
     {
-        dump_message_oneof(stream, oneof, file);
+        dump_message_oneof(stream, oneof, message, file);
     }
 
     //- TODO: is this used in any way?
-- 
2.43.0


From 2f3a2f40c3b73c8f76f3b36940b08fa55547e3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 56/79] fix: nanopb max_count was ignored

---
 src/spb-proto-compiler/ast/ast-options.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spb-proto-compiler/ast/ast-options.cpp b/src/spb-proto-compiler/ast/ast-options.cpp
index 97201da..fddcc96 100644
--- a/src/spb-proto-compiler/ast/ast-options.cpp
+++ b/src/spb-proto-compiler/ast/ast-options.cpp
@@ -115,6 +115,9 @@ void convert_nanopb_options(const proto_file &file, proto_attributes &attributes
 
     if (auto value = option_value_int<uint32_t>(file, {opt_value, "max_length"}, options); value.has_value())
         attributes.max_size = *value + 1;
+
+    if (auto value = option_value_int<uint32_t>(file, {opt_value, "max_count"}, options); value.has_value())
+        attributes.max_count = *value;
 }
 
 void convert_nanopb_options(const proto_file &file, proto_attributes &attributes,
-- 
2.43.0


From 771ae8792b50088989b9989aa48e9a8b2ac1314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 57/79] fix: writes behind the capacity of containers with a
 fixed capacity

---
 include/spb/concepts.h           | 13 +++++++++++++
 include/spb/json/base64.h        |  2 ++
 include/spb/json/deserialize.hpp |  5 +++++
 include/spb/pb/deserialize.hpp   |  8 ++++++++
 4 files changed, 28 insertions(+)

diff --git a/include/spb/concepts.h b/include/spb/concepts.h
index 84572a2..56a4084 100644
--- a/include/spb/concepts.h
+++ b/include/spb/concepts.h
@@ -11,6 +11,7 @@
 
 #include <concepts>
 #include <cstddef>
+#include <stdexcept>
 #include <type_traits>
 
 namespace spb
@@ -111,5 +112,17 @@ concept proto_message =
     std::is_class_v<T> && !proto_field_string<T> && !proto_field_bytes<T> && !proto_label_repeated<T> &&
     !proto_label_repeated_fixed_size<T> && !proto_label_optional<T> && !proto_map<T>;
 
+//- containers with a fixed capacity usually don't check it by themselves
+void check_capacity_or_throw(const auto &container, std::size_t new_items)
+{
+    if constexpr (requires {
+                      { container.max_size() } -> std::convertible_to<std::size_t>;
+                  })
+    {
+        if (new_items > std::size_t(container.max_size()) - std::size_t(container.size())) [[unlikely]]
+            throw std::length_error("container is full");
+    }
+}
+
 } // namespace detail
 } // namespace spb
diff --git a/include/spb/json/base64.h b/include/spb/json/base64.h
index 61c7e68..7f92d3c 100644
--- a/include/spb/json/base64.h
+++ b/include/spb/json/base64.h
@@ -119,6 +119,7 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
                 if (max_output_size && (output.size() + out_length > max_output_size)) [[unlikely]]
                     throw std::length_error("bytes is too large");
 
+                spb::detail::check_capacity_or_throw(output, out_length);
                 output.resize(output.size() + out_length);
             }
             else
@@ -176,6 +177,7 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
                 if (max_output_size && (output.size() + consumed_bytes > max_output_size))
                     throw std::length_error("bytes is too large");
 
+                spb::detail::check_capacity_or_throw(output, consumed_bytes);
                 output.resize(output.size() + consumed_bytes);
             }
             else
diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 8f793fd..052084c 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -520,6 +520,7 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
             if constexpr (attributes.max_size)
                 check_size(value.size() + size, attributes.max_size);
 
+            spb::detail::check_capacity_or_throw(value, size);
             value.append(str, size);
         }
         else
@@ -632,6 +633,7 @@ void deserialize(auto &stream, Container &value)
         if constexpr (attributes.max_count)
             check_size(value.size() + 1, attributes.max_count);
 
+        spb::detail::check_capacity_or_throw(value, 1);
         if constexpr (std::is_same_v<typename Container::value_type, bool>)
         {
             auto b = false;
@@ -736,6 +738,9 @@ template <field_attributes attributes> void deserialize(auto &stream, spb::detai
 
         auto map_value = mapped_type();
         deserialize<attributes>(stream, map_value);
+        if (value.find(map_key) == value.end())
+            spb::detail::check_capacity_or_throw(value, 1);
+
         //- the last item with the same key wins
         value[std::move(map_key)] = std::move(map_value);
     } while (stream.consume_and_skip_white_space(','));
diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index b9c2d33..7a69b5f 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -541,6 +541,9 @@ void read_resizable_or_throw(auto &stream, auto &value)
     auto size = size_t(0);
     do
     {
+        if (size + chunk_size > value.size())
+            spb::detail::check_capacity_or_throw(value, size + chunk_size - value.size());
+
         value.resize(size + chunk_size);
         if (value.size() != size + chunk_size) [[unlikely]]
             throw std::length_error("field is too large");
@@ -612,6 +615,7 @@ void deserialize_packed(auto &stream, Container &value)
         if constexpr (mode.max_count)
             check_size(value.size() + 1, mode.max_count);
 
+        spb::detail::check_capacity_or_throw(value, 1);
         if constexpr (std::is_same_v<typename Container::value_type, bool>)
         {
             value.emplace_back(read_varint<bool>(stream));
@@ -668,6 +672,7 @@ void deserialize(auto &stream, Container &value, wire_type type)
     if constexpr (mode.max_count)
         check_size(value.size() + 1, mode.max_count);
 
+    spb::detail::check_capacity_or_throw(value, 1);
     if constexpr (std::is_same_v<typename Container::value_type, bool>)
     {
         check_wire_type_or_throw(type, wire_type::varint);
@@ -748,6 +753,9 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
             break;
         }
     }
+    if (value.find(pair.first) == value.end())
+        spb::detail::check_capacity_or_throw(value, 1);
+
     //- the last item with the same key wins
     value[std::move(pair.first)] = std::move(pair.second);
 }
-- 
2.43.0


From 89fadf05f546e07e5f0e82a09ade9429ea197de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 58/79] fix: recursive messages inside of map fields

---
 src/spb-proto-compiler/ast/ast-messages-order.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/ast/ast-messages-order.cpp b/src/spb-proto-compiler/ast/ast-messages-order.cpp
index e1c3b71..343dea6 100644
--- a/src/spb-proto-compiler/ast/ast-messages-order.cpp
+++ b/src/spb-proto-compiler/ast/ast-messages-order.cpp
@@ -311,7 +311,10 @@ void resolve_message_fields(search_ctx &ctx)
 
     for (const auto &map : ctx.message.maps)
     {
-        if (!resolve_field(ctx, map.value, 0))
+        //- map value can be forward declared, same as a repeated field
+        auto value  = map.value;
+        value.label = proto_field::Label::REPEATED;
+        if (!resolve_field(ctx, value, 0))
             return;
     }
 
-- 
2.43.0


From 8faeeb68139703c6f2bc7dca1e0ea7e0c805c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:20 +0000
Subject: [PATCH 59/79] fix: empty base64 was accepted for bytes with fixed
 size

---
 include/spb/json/base64.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/spb/json/base64.h b/include/spb/json/base64.h
index 7f92d3c..9befafe 100644
--- a/include/spb/json/base64.h
+++ b/include/spb/json/base64.h
@@ -93,7 +93,14 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
         throw std::runtime_error("expecting '\"'");
 
     if (stream.consume_and_skip_white_space('"'))
+    {
+        if constexpr (!spb::detail::proto_field_bytes_resizable<decltype(output)>)
+        {
+            if (output.size() != 0) [[unlikely]]
+                throw std::runtime_error("invalid base64 size");
+        }
         return;
+    }
 
     auto mask = uint8_t(0);
 
-- 
2.43.0


From 709d996c5c3383c9b2b6239c356663312ce11753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:44 +0000
Subject: [PATCH 60/79] fix: error about a missing .proto file did not name the
 file

---
 src/spb-proto-compiler/parser/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 85de5e1..8ea14a2 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -55,7 +55,7 @@ auto find_file_in_paths(const fs::path &file_name, const parsing_ctx &ctx) -> fs
         }
     }
 
-    throw std::runtime_error(strerror(ENOENT));
+    throw std::runtime_error(file_name.string() + ": " + strerror(ENOENT));
 }
 
 auto parse_comment(spb::char_stream &stream) -> proto_comment;
-- 
2.43.0


From 0a534905f3a6e08b26946901e97fe12462c416ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:48 +0000
Subject: [PATCH 61/79] fix: varints over 64 bits lost their upper bits
 silently

---
 include/spb/pb/deserialize.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 7a69b5f..032d3c1 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -289,6 +289,10 @@ template <typename T> [[nodiscard]] auto read_varint(auto &stream) -> T
         for (auto shift = 0U; shift < sizeof(value) * CHAR_BIT; shift += CHAR_BIT - 1)
         {
             uint8_t byte = stream.read_byte_or_throw();
+            //- the last byte holds only one bit
+            if (shift == sizeof(value) * CHAR_BIT - 1 && byte > 1) [[unlikely]]
+                break;
+
             value |= uint64_t(byte & 0x7F) << shift;
             if ((byte & 0x80) == 0)
             {
-- 
2.43.0


From 3282680b24f739742cf169ac5743515c84fa2d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:52 +0000
Subject: [PATCH 62/79] fix: json camelCase keys of field names with upper case
 letters differed from protoc

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 25 ++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index eab7b63..36331ef 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -41,32 +41,23 @@ auto json_name_from_options(const proto_attributes &attributes) -> std::string_v
     return attributes.json_name;
 }
 
+//- same as protoc does it: only characters behind '_' change
 auto convert_to_camelCase(std::string_view input) -> std::string
 {
-    auto result = std::string(input);
-    if (!result.empty())
-        result[0] = char(std::tolower(result[0]));
-
-    if (input.find('_') == std::string::npos)
-        return result;
-
-    auto index = 0U;
-    auto up    = false;
+    auto result = std::string();
+    auto up     = false;
     for (auto c : input)
     {
         if (c == '_')
         {
             up = true;
+            continue;
         }
-        else
-        {
-            result[index] = char((up && index > 0) ? std::toupper(c) : std::tolower(c));
-            index += 1;
-            up = false;
-        }
+        result += up ? char(std::toupper(uint8_t(c))) : c;
+        up = false;
     }
-    result.resize(index);
-    return result;
+    //- a key can't be empty
+    return result.empty() ? std::string(input) : result;
 }
 
 auto json_field_name(const proto_base &field) -> std::string
-- 
2.43.0


From cee881f751ada62518f4ff2d8f58deb122110495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:32 +0000
Subject: [PATCH 63/79] fix: varints over 31 bits of an int64 stored in a
 smaller type changed their sign

---
 include/spb/pb/deserialize.hpp              | 8 ++++----
 include/spb/pb/wire-types.h                 | 2 ++
 src/spb-proto-compiler/dumper/pb/dumper.cpp | 5 +++++
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 032d3c1..716af42 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -268,7 +268,7 @@ void check_if_empty_or_throw(auto &stream)
     return result;
 }
 
-template <typename T> [[nodiscard]] auto read_varint(auto &stream) -> T
+template <typename T, bool is_int64 = false> [[nodiscard]] auto read_varint(auto &stream) -> T
 {
     if constexpr (std::is_same_v<T, bool>)
     {
@@ -296,7 +296,7 @@ template <typename T> [[nodiscard]] auto read_varint(auto &stream) -> T
             value |= uint64_t(byte & 0x7F) << shift;
             if ((byte & 0x80) == 0)
             {
-                if constexpr (std::is_signed_v<T> && sizeof(T) < sizeof(value))
+                if constexpr (std::is_signed_v<T> && sizeof(T) < sizeof(value) && !is_int64)
                 {
                     //- GPB encodes signed varints always as 64-bits
                     //- so int32_t(-2) is encoded as "\xfe\xff\xff\xff\xff\xff\xff\xff\xff\x01",
@@ -370,7 +370,7 @@ auto deserialize_bitfield(auto &stream, uint32_t bits, wire_type type) -> T
     else if constexpr (scalar_encoder(mode.encoder) == scalar_encoder::varint)
     {
         check_wire_type_or_throw(type, wire_type::varint);
-        value = read_varint<T>(stream);
+        value = read_varint<T, mode.is_int64>(stream);
     }
     else if constexpr (scalar_encoder(mode.encoder) == scalar_encoder::i32)
     {
@@ -445,7 +445,7 @@ void deserialize(auto &stream, spb::detail::proto_field_int_or_float auto &value
         {
             check_wire_type_or_throw(type, wire_type::varint);
         }
-        value = read_varint<T>(stream);
+        value = read_varint<T, mode.is_int64>(stream);
     }
     else if constexpr (scalar_encoder(mode.encoder) == scalar_encoder::i32)
     {
diff --git a/include/spb/pb/wire-types.h b/include/spb/pb/wire-types.h
index a5e90d0..a81c371 100644
--- a/include/spb/pb/wire-types.h
+++ b/include/spb/pb/wire-types.h
@@ -61,6 +61,8 @@ struct serialize_mode
     size_t max_size         = 0;
     //- value has its own presence (optional, repeated, map item or oneof), so it has to be serialized even if it is empty
     bool has_presence = false;
+    //- int64 stored in a smaller type, varints are never sign extended from 32 bits
+    bool is_int64 = false;
 };
 
 constexpr auto make_packed(scalar_encoder a) noexcept -> scalar_encoder
diff --git a/src/spb-proto-compiler/dumper/pb/dumper.cpp b/src/spb-proto-compiler/dumper/pb/dumper.cpp
index 38ef1fb..f7b4207 100644
--- a/src/spb-proto-compiler/dumper/pb/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/pb/dumper.cpp
@@ -158,7 +158,12 @@ void dump_serialize_mode(std::ostream &stream, const proto_file &file, const pro
         next = ", ";
     }
     if (max_size)
+    {
         stream << next << ".max_size = " << max_size;
+        next = ", ";
+    }
+    if (field.type == proto_field::Type::INT64 && field.bit_type != proto_field::BitType::NONE)
+        stream << next << ".is_int64 = true";
     stream << "}";
 }
 
-- 
2.43.0


From 567d8c11900635de019598a877f8592ddc8f709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:21 +0000
Subject: [PATCH 64/79] fix: types hidden by a field with the same name

---
 src/spb-proto-compiler/ast/ast-types.cpp | 66 +++++++++++++++++++-----
 1 file changed, 53 insertions(+), 13 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index 2143f02..2b6867a 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -61,7 +61,7 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
     return type_name.substr(0, type_name.find('.'));
 }
 
-[[nodiscard]] auto resolve_type(const search_ctx &self, const proto_field &field, size_t type_part)
+[[nodiscard]] auto resolve_type(const search_ctx &self, proto_field &field, size_t type_part)
     -> std::pair<proto_field::Type, proto_field::BitType>;
 
 [[nodiscard]] auto remove_bitfield(std::string_view type) -> std::string_view
@@ -212,22 +212,42 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
     return (index != message.messages.end()) ? &*index : nullptr;
 }
 
-[[nodiscard]] auto resolve_enum(const proto_message &message, const proto_field &field, size_t type_part)
+//- c++ name of the type used by `field` is resolved from the inside out
+void add_cpp_scope(proto_field &field, const cpp_ident &scope)
+{
+    auto &cpp_name = field.type_name.cpp_name;
+    cpp_name       = cpp_name.empty() ? std::string(scope.get_name())
+                                      : std::string(scope.get_name()) + "::" + cpp_name;
+}
+
+//- the full name is never hidden by another name in c++ (by a field with the same name for example)
+void add_cpp_package(proto_field &field, const proto_file &file)
+{
+    if (!file.package.name.proto_name.empty())
+        add_cpp_scope(field, file.package.name);
+
+    field.type_name.cpp_name.insert(0, "::");
+}
+
+[[nodiscard]] auto resolve_enum(const proto_message &message, proto_field &field, size_t type_part)
     -> proto_field::Type
 {
     if (!is_last_part(field, type_part))
         return proto_field::Type::NONE;
 
     const auto type_name = get_type_part(field, type_part);
+    const auto index     = std::find_if(message.enums.begin(), message.enums.end(),
+                                        [type_name](const auto &enum_) -> bool
+                                        { return type_name == enum_.name.proto_name; });
+    if (index == message.enums.end())
+        return proto_field::Type::NONE;
 
-    return std::any_of(message.enums.begin(), message.enums.end(),
-                       [type_name](const auto &enum_) -> bool { return type_name == enum_.name.proto_name; })
-               ? proto_field::Type::ENUM
-               : proto_field::Type::NONE;
+    field.type_name.cpp_name = index->name.get_name();
+    return proto_field::Type::ENUM;
 }
 
-[[nodiscard]] auto resolve_from_message(const proto_message &message, const proto_field &field,
-                                        size_t type_part) -> proto_field::Type
+[[nodiscard]] auto resolve_from_message(const proto_message &message, proto_field &field, size_t type_part)
+    -> proto_field::Type
 {
     if (const auto type = resolve_enum(message, field, type_part); type)
         return type;
@@ -235,15 +255,22 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
     if (const auto *sub_message = get_sub_message(message, field, type_part); sub_message)
     {
         if (is_last_part(field, type_part))
+        {
+            field.type_name.cpp_name = sub_message->name.get_name();
             return proto_field::Type::MESSAGE;
+        }
+
+        const auto type = resolve_from_message(*sub_message, field, type_part + 1);
+        if (type)
+            add_cpp_scope(field, sub_message->name);
 
-        return resolve_from_message(*sub_message, field, type_part + 1);
+        return type;
     }
 
     return proto_field::Type::NONE;
 }
 
-[[nodiscard]] auto resolve_from_parent(const search_ctx &self, const proto_field &field, size_t type_part)
+[[nodiscard]] auto resolve_from_parent(const search_ctx &self, proto_field &field, size_t type_part)
     -> proto_field::Type
 {
     if (!self.p_parent || type_part > 0)
@@ -291,12 +318,15 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
 }
 
 [[nodiscard]] auto resolve_from_import(const proto_file &file, const proto_file &import,
-                                       const proto_field &field) -> proto_field::Type
+                                       proto_field &field) -> proto_field::Type
 {
     const auto type = resolve_from_package(file, import, field, [&](size_t package_parts)
                                            { return resolve_from_message(import.package, field, package_parts); });
     if (type)
+    {
+        add_cpp_package(field, import);
         return type;
+    }
 
     for (const auto &public_import : import.imports)
     {
@@ -310,7 +340,7 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
     return proto_field::Type::NONE;
 }
 
-[[nodiscard]] auto resolve_from_imports(const proto_file &file, const proto_field &field) -> proto_field::Type
+[[nodiscard]] auto resolve_from_imports(const proto_file &file, proto_field &field) -> proto_field::Type
 {
     for (const auto &import : file.imports)
     {
@@ -332,6 +362,9 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
         [&](size_t package_parts)
         {
             const auto type = resolve_from_message(file.package, field, package_parts);
+            if (type)
+                add_cpp_package(field, file);
+
             for (; type && package_parts > 0; package_parts--)
             {
                 auto &name = field.type_name.proto_name;
@@ -341,14 +374,21 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
         });
 }
 
-auto resolve_type(const search_ctx &self, const proto_field &field, size_t type_part)
+auto resolve_type(const search_ctx &self, proto_field &field, size_t type_part)
     -> std::pair<proto_field::Type, proto_field::BitType>
 {
     if (const auto type = get_scalar_type(self.file, field, type_part); type.first)
         return type;
 
     if (const auto type = resolve_from_message(self.message, field, type_part); type)
+    {
+        for (const auto *ctx = &self; &ctx->message != &self.file.package; ctx = ctx->p_parent)
+        {
+            add_cpp_scope(field, ctx->message.name);
+        }
+        add_cpp_package(field, self.file);
         return {type, proto_field::BitType::NONE};
+    }
 
     return {resolve_from_parent(self, field, type_part), proto_field::BitType::NONE};
 }
-- 
2.43.0


From 28f13933dec2b86f454a83168c3aa7616493b06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 65/79] fix: default values of float and double fields

---
 src/spb-proto-compiler/dumper/header.cpp | 26 +++++++++++++++++++++++-
 src/spb-proto-compiler/parser/parser.cpp |  2 +-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index d3e0f49..439253c 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -37,6 +37,7 @@ struct std_includes
     bool variant;
     bool optional;
     bool memory;
+    bool limits;
 };
 
 void dump_comment(std::ostream &stream, const proto_comment &comment)
@@ -129,7 +130,6 @@ auto type_literal_suffix(proto_field::Type type) -> std::string_view
         {proto_field::Type::FIXED32, "U"},
         {proto_field::Type::FIXED64, "ULL"},
         {proto_field::Type::SFIXED64, "LL"},
-        {proto_field::Type::FLOAT, "F"},
     }};
 
     for (auto [proto_type, suffix] : type_map)
@@ -372,6 +372,22 @@ void dump_message_map(std::ostream &stream, const proto_map &map, const proto_me
            << " " << map.name.get_name() << ";\n";
 }
 
+auto float_literal(std::string_view value, proto_field::Type type) -> std::string
+{
+    const auto is_float  = type == proto_field::Type::FLOAT;
+    const auto sign      = value.starts_with('-') ? "-"s : ""s;
+    const auto unsigned_ = value.substr(sign.size());
+    const auto limits    = "std::numeric_limits<"s + (is_float ? "float" : "double") + ">::";
+
+    if (unsigned_ == "inf")
+        return sign + limits + "infinity()";
+    if (unsigned_ == "nan")
+        return sign + limits + "quiet_NaN()";
+
+    //- suffix `F` is not allowed behind an integer
+    return std::string(value) + (value.find_first_of(".eE") == value.npos ? ".0" : "") + (is_float ? "F" : "");
+}
+
 void dump_default_value(std::ostream &stream, const proto_field &field)
 {
     auto default_value = field.attributes.default_;
@@ -382,6 +398,10 @@ void dump_default_value(std::ostream &stream, const proto_field &field)
     {
         stream << " = " << field.type_name.get_name() << "::" << default_value;
     }
+    else if (field.type == proto_field::Type::FLOAT || field.type == proto_field::Type::DOUBLE)
+    {
+        stream << " = " << float_literal(default_value, field.type);
+    }
     else if (field.type == proto_field::Type::STRING &&
              (default_value.size() < 2 || default_value.front() != '"' || default_value.back() != '"'))
     {
@@ -451,6 +471,8 @@ void get_std_includes(const proto_field &field, const proto_message &message, co
     const auto type  = add_label_type(ctype, field, message, file);
 
     get_std_includes(ctype, type, result);
+    result.limits |= !field.attributes.default_.empty() &&
+                     (field.type == proto_field::Type::FLOAT || field.type == proto_field::Type::DOUBLE);
 }
 
 void get_std_includes(const proto_oneof &oneof, const proto_message &message, const proto_file &file,
@@ -584,6 +606,8 @@ void get_std_includes(cpp_includes &includes, const proto_file &file)
 
     if (std_includes.optional)
         includes.insert("<optional>");
+    if (std_includes.limits)
+        includes.insert("<limits>");
     if (std_includes.memory)
         includes.insert("<memory>");
     if (std_includes.string)
diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 8ea14a2..7c757bd 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -529,7 +529,7 @@ void parse_top_level_package(spb::char_stream &stream, proto_base &package, prot
     if (c == '"' || c == '\'')
         return parse_string_literal(stream);
 
-    if (isdigit(static_cast<unsigned char>(c)) || c == '+' || c == '-')
+    if (isdigit(static_cast<unsigned char>(c)) || c == '+' || c == '-' || c == '.')
         return parse_int_or_float(stream);
 
     return parse_full_ident(stream).proto_name;
-- 
2.43.0


From 5bb6a14e7dffe395daf9af4193be2d712eaa9636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:47 +0000
Subject: [PATCH 66/79] fix: fields named like a fixed width integer type

---
 src/spb-proto-compiler/dumper/header.cpp | 36 ++++++++++++------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 439253c..f292aef 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -192,11 +192,11 @@ auto get_enum_type(const proto_file &file, const proto_attributes &attributes,
                    std::string_view default_type) -> std::string_view
 {
     static constexpr auto type_map = std::array<std::pair<std::string_view, std::string_view>, 6>{{
-        {"int8"sv, "int8_t"sv},
-        {"uint8"sv, "uint8_t"sv},
-        {"int16"sv, "int16_t"sv},
-        {"uint16"sv, "uint16_t"sv},
-        {"int32"sv, "int32_t"sv},
+        {"int8"sv, "std::int8_t"sv},
+        {"uint8"sv, "std::uint8_t"sv},
+        {"int16"sv, "std::int16_t"sv},
+        {"uint16"sv, "std::uint16_t"sv},
+        {"int32"sv, "std::int32_t"sv},
     }};
 
     auto ctype_from_pb = [&](std::string_view type)
@@ -231,21 +231,21 @@ auto convert_to_ctype(const proto_file &file, const proto_field &field, const pr
         case proto_field::BitType::NONE:
             throw_parse_error(file, field.type_name.proto_name, "invalid type");
         case proto_field::BitType::INT8:
-            return "int8_t";
+            return "std::int8_t";
         case proto_field::BitType::INT16:
-            return "int16_t";
+            return "std::int16_t";
         case proto_field::BitType::INT32:
-            return "int32_t";
+            return "std::int32_t";
         case proto_field::BitType::INT64:
-            return "int64_t";
+            return "std::int64_t";
         case proto_field::BitType::UINT8:
-            return "uint8_t";
+            return "std::uint8_t";
         case proto_field::BitType::UINT16:
-            return "uint16_t";
+            return "std::uint16_t";
         case proto_field::BitType::UINT32:
-            return "uint32_t";
+            return "std::uint32_t";
         case proto_field::BitType::UINT64:
-            return "uint64_t";
+            return "std::uint64_t";
         }
     }
 
@@ -273,17 +273,17 @@ auto convert_to_ctype(const proto_file &file, const proto_field &field, const pr
     case proto_field::Type::SFIXED32:
     case proto_field::Type::INT32:
     case proto_field::Type::SINT32:
-        return "int32_t";
+        return "std::int32_t";
     case proto_field::Type::FIXED32:
     case proto_field::Type::UINT32:
-        return "uint32_t";
+        return "std::uint32_t";
     case proto_field::Type::SFIXED64:
     case proto_field::Type::INT64:
     case proto_field::Type::SINT64:
-        return "int64_t";
+        return "std::int64_t";
     case proto_field::Type::UINT64:
     case proto_field::Type::FIXED64:
-        return "uint64_t";
+        return "std::uint64_t";
     }
 
     throw_parse_error(file, field.type_name.proto_name, "invalid type");
@@ -338,7 +338,7 @@ void dump_enum(std::ostream &stream, const proto_enum &my_enum, const proto_mess
     dump_comment(stream, my_enum.comment);
 
     stream << "enum class " << my_enum.name.get_name() << " : "
-           << get_enum_type(file, my_enum.attributes, message.attributes, file.attributes, "int32_t")
+           << get_enum_type(file, my_enum.attributes, message.attributes, file.attributes, "std::int32_t")
            << "\n{\n";
     for (const auto &field : my_enum.fields)
     {
-- 
2.43.0


From 1645f0addc3590fa151c9630ed2453aa6261686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:01 +0000
Subject: [PATCH 67/79] fix: order of messages which use nested types by a
 qualified name

---
 .../ast/ast-messages-order.cpp                | 222 ++++++------------
 src/spb-proto-compiler/ast/ast-types.cpp      |  56 +++--
 src/spb-proto-compiler/ast/proto-field.h      |   3 +
 3 files changed, 97 insertions(+), 184 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-messages-order.cpp b/src/spb-proto-compiler/ast/ast-messages-order.cpp
index 343dea6..5a7ae7c 100644
--- a/src/spb-proto-compiler/ast/ast-messages-order.cpp
+++ b/src/spb-proto-compiler/ast/ast-messages-order.cpp
@@ -56,34 +56,6 @@ struct search_ctx
     search_state &state;
 };
 
-[[nodiscard]]
-auto type_parts(std::string_view type_name) -> size_t
-{
-    return size_t(std::count(type_name.cbegin(), type_name.cend(), '.'));
-}
-
-[[nodiscard]]
-auto is_last_part(const proto_field &field, size_t type_part) -> bool
-{
-    return type_part == type_parts(field.type_name.proto_name);
-}
-
-[[nodiscard]]
-auto get_type_part(const proto_field &field, size_t type_part) -> std::string_view
-{
-    auto type_name = field.type_name.proto_name;
-    for (; type_part > 0; type_part--)
-    {
-        const auto dot_index = type_name.find('.');
-        if (dot_index == type_name.npos)
-            return {};
-
-        type_name.remove_prefix(dot_index + 1);
-    }
-
-    return type_name.substr(0, type_name.find('.'));
-}
-
 /**
  * @brief if the field is self-referencing and can be forward declared
  *        field label must be LABEL_OPTIONAL or LABEL_PTR or LABEL_REPEATED
@@ -93,17 +65,8 @@ auto get_type_part(const proto_field &field, size_t type_part) -> std::string_vi
  * @return true if field can be forward declared
  */
 [[nodiscard]]
-auto is_self(const search_ctx &ctx, proto_field &field, size_t type_part) -> bool
+auto is_self(const search_ctx &ctx, proto_field &field) -> bool
 {
-    if (field.type != proto_field::Type::MESSAGE)
-        return false;
-
-    if (!is_last_part(field, type_part))
-        return false;
-
-    if (get_type_part(field, type_part) != ctx.message.name.proto_name)
-        return false;
-
     switch (field.label)
     {
     case proto_field::Label::NONE:
@@ -122,17 +85,8 @@ auto is_self(const search_ctx &ctx, proto_field &field, size_t type_part) -> boo
 }
 
 [[nodiscard]]
-auto is_self(const search_ctx &ctx, const proto_field &field, size_t type_part) -> bool
+auto is_self(const search_ctx &, const proto_field &field) -> bool
 {
-    if (field.type != proto_field::Type::MESSAGE)
-        return false;
-
-    if (!is_last_part(field, type_part))
-        return false;
-
-    if (get_type_part(field, type_part) != ctx.message.name.proto_name)
-        return false;
-
     switch (field.label)
     {
     case proto_field::Label::REPEATED:
@@ -147,61 +101,45 @@ auto is_self(const search_ctx &ctx, const proto_field &field, size_t type_part)
  * @brief if this dependency can be forward declared, do it
  *        field label must be LABEL_REPEATED or LABEL_PTR
  *
- * @param ctx search context
+ * @param ctx search context of the message where the type of the field is defined
  * @param field field
+ * @param message type of the field
  * @return true if field can be forward declared
  */
 [[nodiscard]]
-auto is_forwarded(search_ctx &ctx, proto_field &field, size_t type_part) -> bool
+auto is_forwarded(search_ctx &ctx, proto_field &field, const proto_message &message) -> bool
 {
-    if (ctx.p_parent == nullptr)
-        return false;
-
-    if (!is_last_part(field, type_part))
-        return false;
-
-    for (const auto &message : ctx.p_parent->message.messages)
+    switch (field.label)
     {
-        if (get_type_part(field, type_part) != message.name.proto_name)
-            continue;
-
-        switch (field.label)
+    case proto_field::Label::NONE:
+        return false;
+    case proto_field::Label::OPTIONAL:
+        switch (ctx.state.mode)
         {
-        case proto_field::Label::NONE:
+        case search_state::dependencies_only:
             return false;
-        case proto_field::Label::OPTIONAL:
-            switch (ctx.state.mode)
-            {
-            case search_state::dependencies_only:
-                return false;
-
-            case search_state::optional_pointers:
-                field.label = proto_field::Label::PTR;
-                //
-                //- revert the mode to dependencies_only and try again
-                //- reason is to create as little pointers as possible
-                //
-                ctx.state.mode = search_state::dependencies_only;
-            }
-            [[fallthrough]];
-        case proto_field::Label::REPEATED:
-        case proto_field::Label::PTR:
-            ctx.p_parent->message.forwards.emplace(message.name.get_name());
-            return true;
+
+        case search_state::optional_pointers:
+            field.label = proto_field::Label::PTR;
+            //
+            //- revert the mode to dependencies_only and try again
+            //- reason is to create as little pointers as possible
+            //
+            ctx.state.mode = search_state::dependencies_only;
         }
+        [[fallthrough]];
+    case proto_field::Label::REPEATED:
+    case proto_field::Label::PTR:
+        ctx.message.forwards.emplace(message.name.get_name());
+        return true;
     }
     return false;
 }
 
 [[nodiscard]]
-auto get_sub_message(const proto_message &message, const proto_field &field, size_t type_part)
-    -> const proto_message *
+auto is_forwarded(const search_ctx &, const proto_field &, const proto_message &) -> bool
 {
-    const auto type_name = get_type_part(field, type_part);
-    const auto index     = std::find_if(
-        message.messages.begin(), message.messages.end(), [type_name](const auto &sub_message) -> bool
-        { return type_name == sub_message.name.proto_name && sub_message.resolved > 0; });
-    return (index != message.messages.end()) ? &*index : nullptr;
+    return false;
 }
 
 [[nodiscard]]
@@ -218,84 +156,58 @@ void mark_message_as_resolved(search_ctx &ctx)
     ctx.message.resolved = ++ctx.state.resolved_messages;
 }
 
+//- same format as proto_field::type_path
 [[nodiscard]]
-auto is_enum(const proto_message &message, const proto_field &field, size_t type_part) -> bool
-{
-    if (!is_last_part(field, type_part))
-        return false;
-
-    const auto type_name = get_type_part(field, type_part);
-
-    return std::any_of(message.enums.begin(), message.enums.end(),
-                       [type_name](const auto &enum_) -> bool { return type_name == enum_.name.proto_name; });
-}
-
-[[nodiscard]]
-auto resolve_from_message(const proto_message &message, const proto_field &field, size_t type_part) -> bool
-{
-    if (const auto type = is_enum(message, field, type_part); type)
-        return type;
-
-    if (const auto *sub_message = get_sub_message(message, field, type_part); sub_message)
-    {
-        if (is_last_part(field, type_part))
-            return true;
-
-        return resolve_from_message(*sub_message, field, type_part + 1);
-    }
-
-    return false;
-}
-
-[[nodiscard]]
-auto resolve_field(search_ctx &ctx, proto_field &field, size_t type_part) -> bool;
-
-[[nodiscard]]
-auto resolve_field(const search_ctx &ctx, const proto_field &field, size_t type_part) -> bool;
-
-[[nodiscard]]
-auto resolve_from_parent(const search_ctx &self, proto_field &field, size_t type_part) -> bool
-{
-    if (!self.p_parent || type_part > 0)
-        return false;
-
-    return resolve_field(*self.p_parent, field, type_part);
-}
-
-[[nodiscard]]
-auto resolve_from_parent(const search_ctx &self, const proto_field &field, size_t type_part) -> bool
+auto get_path(const search_ctx &ctx) -> std::string
 {
-    if (!self.p_parent || type_part > 0)
-        return false;
+    if (ctx.p_parent == nullptr)
+        return {};
 
-    return resolve_field(*self.p_parent, field, type_part);
+    const auto parent = get_path(*ctx.p_parent);
+    const auto name   = std::string(ctx.message.name.proto_name);
+    return parent.empty() ? name : parent + "." + name;
 }
 
+/**
+ * @brief check if the type of the field is already defined (or can be forward declared)
+ *
+ * @param ctx search context of the message with the field
+ */
 [[nodiscard]]
-auto resolve_field(const search_ctx &ctx, const proto_field &field, size_t type_part) -> bool
+auto resolve_field(search_ctx &ctx, auto &field) -> bool
 {
-    if (is_scalar(field.type) || field.is_imported || is_self(ctx, field, type_part))
+    if (is_scalar(field.type) || field.is_imported)
         return true;
 
-    if (resolve_from_message(ctx.message, field, type_part))
-        return true;
+    //- find the innermost message which contains the type
+    auto *scope = &ctx;
+    auto path   = std::string_view(field.type_path);
+    for (;; scope = scope->p_parent)
+    {
+        const auto scope_path = get_path(*scope);
+        if (path == scope_path)
+            return is_self(ctx, field);
 
-    return resolve_from_parent(ctx, field, type_part);
-}
+        if (scope_path.empty())
+            break;
 
-[[nodiscard]]
-auto resolve_field(search_ctx &ctx, proto_field &field, size_t type_part) -> bool
-{
-    if (is_scalar(field.type) || field.is_imported || is_self(ctx, field, type_part))
-        return true;
-
-    if (resolve_from_message(ctx.message, field, type_part))
-        return true;
+        if (path.starts_with(scope_path) && path[scope_path.size()] == '.')
+        {
+            path.remove_prefix(scope_path.size() + 1);
+            break;
+        }
+    }
 
-    if (resolve_from_parent(ctx, field, type_part))
+    const auto name     = path.substr(0, path.find('.'));
+    const auto &message = scope->message;
+    const auto index    = std::find_if(message.messages.begin(), message.messages.end(),
+                                       [name](const auto &sub_message) -> bool
+                                       { return name == sub_message.name.proto_name; });
+    if (index == message.messages.end() || index->resolved > 0)
+        //- enums are always defined in front of messages
         return true;
 
-    return is_forwarded(ctx, field, type_part);
+    return path == name && is_forwarded(*scope, field, *index);
 }
 
 void resolve_message_fields(search_ctx &ctx)
@@ -305,7 +217,7 @@ void resolve_message_fields(search_ctx &ctx)
 
     for (auto &field : ctx.message.fields)
     {
-        if (!resolve_field(ctx, field, 0))
+        if (!resolve_field(ctx, field))
             return;
     }
 
@@ -314,7 +226,7 @@ void resolve_message_fields(search_ctx &ctx)
         //- map value can be forward declared, same as a repeated field
         auto value  = map.value;
         value.label = proto_field::Label::REPEATED;
-        if (!resolve_field(ctx, value, 0))
+        if (!resolve_field(ctx, value))
             return;
     }
 
@@ -322,7 +234,7 @@ void resolve_message_fields(search_ctx &ctx)
     {
         for (const auto &field : oneof.fields)
         {
-            if (!resolve_field(ctx, field, 0))
+            if (!resolve_field(ctx, field))
                 return;
         }
     }
diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index 2b6867a..6ddce6e 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -212,21 +212,27 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
     return (index != message.messages.end()) ? &*index : nullptr;
 }
 
-//- c++ name of the type used by `field` is resolved from the inside out
-void add_cpp_scope(proto_field &field, const cpp_ident &scope)
+//- the type used by `field` is resolved from the inside out
+void set_type(proto_field &field, const cpp_ident &name)
 {
-    auto &cpp_name = field.type_name.cpp_name;
-    cpp_name       = cpp_name.empty() ? std::string(scope.get_name())
-                                      : std::string(scope.get_name()) + "::" + cpp_name;
+    field.type_path          = name.proto_name;
+    field.type_name.cpp_name = name.get_name();
+}
+
+void add_type_scope(proto_field &field, const cpp_ident &scope)
+{
+    field.type_path          = std::string(scope.proto_name) + "." + field.type_path;
+    field.type_name.cpp_name = std::string(scope.get_name()) + "::" + field.type_name.cpp_name;
 }
 
 //- the full name is never hidden by another name in c++ (by a field with the same name for example)
-void add_cpp_package(proto_field &field, const proto_file &file)
+void add_type_package(proto_field &field, const proto_file &file)
 {
+    auto &cpp_name = field.type_name.cpp_name;
     if (!file.package.name.proto_name.empty())
-        add_cpp_scope(field, file.package.name);
+        cpp_name = std::string(file.package.name.get_name()) + "::" + cpp_name;
 
-    field.type_name.cpp_name.insert(0, "::");
+    cpp_name.insert(0, "::");
 }
 
 [[nodiscard]] auto resolve_enum(const proto_message &message, proto_field &field, size_t type_part)
@@ -242,7 +248,7 @@ void add_cpp_package(proto_field &field, const proto_file &file)
     if (index == message.enums.end())
         return proto_field::Type::NONE;
 
-    field.type_name.cpp_name = index->name.get_name();
+    set_type(field, index->name);
     return proto_field::Type::ENUM;
 }
 
@@ -256,13 +262,13 @@ void add_cpp_package(proto_field &field, const proto_file &file)
     {
         if (is_last_part(field, type_part))
         {
-            field.type_name.cpp_name = sub_message->name.get_name();
+            set_type(field, sub_message->name);
             return proto_field::Type::MESSAGE;
         }
 
         const auto type = resolve_from_message(*sub_message, field, type_part + 1);
         if (type)
-            add_cpp_scope(field, sub_message->name);
+            add_type_scope(field, sub_message->name);
 
         return type;
     }
@@ -324,7 +330,7 @@ void add_cpp_package(proto_field &field, const proto_file &file)
                                            { return resolve_from_message(import.package, field, package_parts); });
     if (type)
     {
-        add_cpp_package(field, import);
+        add_type_package(field, import);
         return type;
     }
 
@@ -352,26 +358,18 @@ void add_cpp_package(proto_field &field, const proto_file &file)
 }
 
 /**
- * @brief resolve a name qualified with the package of the file itself and remove the package from the name
+ * @brief resolve a name qualified with the package of the file itself
  *
  */
 [[nodiscard]] auto resolve_from_own_package(const proto_file &file, proto_field &field) -> proto_field::Type
 {
-    return resolve_from_package(
-        file, file, field,
-        [&](size_t package_parts)
-        {
-            const auto type = resolve_from_message(file.package, field, package_parts);
-            if (type)
-                add_cpp_package(field, file);
+    const auto type =
+        resolve_from_package(file, file, field, [&](size_t package_parts)
+                             { return resolve_from_message(file.package, field, package_parts); });
+    if (type)
+        add_type_package(field, file);
 
-            for (; type && package_parts > 0; package_parts--)
-            {
-                auto &name = field.type_name.proto_name;
-                name.remove_prefix(name.find('.') + 1);
-            }
-            return type;
-        });
+    return type;
 }
 
 auto resolve_type(const search_ctx &self, proto_field &field, size_t type_part)
@@ -384,9 +382,9 @@ auto resolve_type(const search_ctx &self, proto_field &field, size_t type_part)
     {
         for (const auto *ctx = &self; &ctx->message != &self.file.package; ctx = ctx->p_parent)
         {
-            add_cpp_scope(field, ctx->message.name);
+            add_type_scope(field, ctx->message.name);
         }
-        add_cpp_package(field, self.file);
+        add_type_package(field, self.file);
         return {type, proto_field::BitType::NONE};
     }
 
diff --git a/src/spb-proto-compiler/ast/proto-field.h b/src/spb-proto-compiler/ast/proto-field.h
index c391cd8..f06d7c4 100644
--- a/src/spb-proto-compiler/ast/proto-field.h
+++ b/src/spb-proto-compiler/ast/proto-field.h
@@ -70,6 +70,9 @@ struct proto_field : public proto_base
 
     cpp_ident type_name;
 
+    //- resolved type inside of the package (example: "Message.SubMessage")
+    std::string type_path;
+
     //- `type_name` is defined in an imported file
     bool is_imported = false;
 
-- 
2.43.0


From 45edb2692bdb9518b7afb4cc95531a35e96ecad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:37 +0000
Subject: [PATCH 68/79] fix: comments inside of reserved and extensions

---
 src/spb-proto-compiler/parser/parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 7c757bd..0d8253a 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -631,7 +631,9 @@ void parse_reserved_names(spb::char_stream &stream, proto_reserved_name &name, p
     //- strFieldName = "'" fieldName "'" | '"' fieldName '"'
     do
     {
+        skip_comments(stream);
         name.insert(parse_string_literal(stream));
+        skip_comments(stream);
     } while (stream.consume(','));
 
     consume_statement_end(stream, comment);
@@ -649,8 +651,10 @@ void parse_reserved_ranges(spb::char_stream &stream, proto_reserved_range &range
         const auto number = parse_number<int32_t>(stream);
         auto number2      = number;
 
+        skip_comments(stream);
         if (stream.consume("to"))
         {
+            skip_comments(stream);
             if (stream.consume("max"))
             {
                 number2 = std::numeric_limits<decltype(number2)>::max();
@@ -661,6 +665,7 @@ void parse_reserved_ranges(spb::char_stream &stream, proto_reserved_range &range
             }
         }
 
+        skip_comments(stream);
         range.emplace_back(number, number2);
     } while (stream.consume(','));
 
@@ -687,6 +692,7 @@ void parse_reserved_ranges(spb::char_stream &stream, proto_reserved_range &range
     if (!stream.consume("reserved"))
         return false;
 
+    skip_comments(stream);
     auto c = stream.current_char();
     if (c == '\'' || c == '"')
     {
-- 
2.43.0


From 5f242709ae7f20e6e64f81739fcc3f100edb8c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:22 +0000
Subject: [PATCH 69/79] fix: hexadecimal and octal numbers in option values

---
 src/spb-proto-compiler/ast/ast-options.cpp | 16 ++++++++++++++--
 src/spb-proto-compiler/parser/parser.cpp   | 14 ++++++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-options.cpp b/src/spb-proto-compiler/ast/ast-options.cpp
index fddcc96..8639a25 100644
--- a/src/spb-proto-compiler/ast/ast-options.cpp
+++ b/src/spb-proto-compiler/ast/ast-options.cpp
@@ -96,9 +96,21 @@ auto option_value_int(const proto_file &file, std::initializer_list<const std::s
     if (option.empty())
         return {};
 
+    auto digits = option;
+    auto base   = 10;
+    if (digits.starts_with("0x") || digits.starts_with("0X"))
+    {
+        digits.remove_prefix(2);
+        base = 16;
+    }
+    else if (digits.size() > 1 && digits.starts_with('0'))
+    {
+        base = 8;
+    }
+
     auto value  = T{};
-    auto result = spb_std_emu::from_chars(option.data(), option.data() + option.size(), value);
-    if (result.ec == std::errc{}) [[likely]]
+    auto result = spb_std_emu::from_chars(digits.data(), digits.data() + digits.size(), value, base);
+    if (result.ec == std::errc{} && result.ptr == digits.data() + digits.size()) [[likely]]
         return value;
 
     throw_parse_error(file, option, "Expecting integer (1, 3, ...)");
diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 0d8253a..4dae502 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -192,6 +192,20 @@ template <int_or_float T> auto parse_number(spb::char_stream &stream) -> T
 auto parse_int_or_float(spb::char_stream &stream) -> std::string_view
 {
     const auto *start = stream.begin();
+    const auto digits = stream.content().substr(stream.current_char() == '-' ? 1 : 0);
+    if (digits.starts_with("0x") || digits.starts_with("0X"))
+    {
+        auto hex_stream = stream;
+        auto hex        = uint64_t();
+        hex_stream.skip_to(digits.data() + 2);
+        const auto hex_result = spb_std_emu::from_chars(hex_stream.begin(), hex_stream.end(), hex, 16);
+        if (hex_result.ec != std::errc{}) [[unlikely]]
+            stream.throw_parse_error("expecting number");
+
+        stream.skip_to(hex_result.ptr);
+        return {start, static_cast<size_t>(hex_result.ptr - start)};
+    }
+
     auto number       = double();
     auto result       = spb_std_emu::from_chars(stream.begin(), stream.end(), number);
     if (result.ec == std::errc{}) [[likely]]
-- 
2.43.0


From 7a6f1f5fbf5b44c347b98797171d21fa9c11aecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:20 +0000
Subject: [PATCH 70/79] fix: string literals which are not closed on their line

---
 src/spb-proto-compiler/parser/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 4dae502..54d50ee 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -286,7 +286,7 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
     stream.consume_current_char(false);
     const auto *start = stream.begin();
     auto current      = stream.current_char();
-    while ((current != 0) && current != c)
+    while ((current != 0) && current != '\n' && current != c)
     {
         stream.consume_current_char(false);
         current = stream.current_char();
-- 
2.43.0


From 25047109d40b1423d629236ef9892ec682450840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 71/79] fix: an empty string in a field with a default value
 was not serialized

---
 src/spb-proto-compiler/ast/proto-field.h      | 7 +++++++
 src/spb-proto-compiler/dumper/json/dumper.cpp | 6 ++++--
 src/spb-proto-compiler/dumper/pb/dumper.cpp   | 6 ++++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/spb-proto-compiler/ast/proto-field.h b/src/spb-proto-compiler/ast/proto-field.h
index f06d7c4..2c502bf 100644
--- a/src/spb-proto-compiler/ast/proto-field.h
+++ b/src/spb-proto-compiler/ast/proto-field.h
@@ -78,6 +78,13 @@ struct proto_field : public proto_base
 
     BitType bit_type = BitType::NONE;
     std::string_view bit_field;
+
+    //- an empty value differs from the initial value, so it has to be serialized
+    [[nodiscard]] auto is_empty_serialized() const -> bool
+    {
+        return label == Label::NONE && (type == Type::STRING || type == Type::BYTES) &&
+            !attributes.default_.empty() && attributes.default_ != "\"\"";
+    }
 };
 
 using proto_fields = std::vector<proto_field>;
diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 36331ef..9bb84a7 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -303,9 +303,11 @@ void dump_cpp_deserialize_enum_gen(std::ostream &stream, const proto_enum &my_en
 void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, const proto_message &message,
                               const proto_field &field)
 {
-    stream << "\tserialize<";
+    const auto with_presence = field.is_empty_serialized();
+
+    stream << "\tserialize<" << (with_presence ? "with_presence(" : "");
     dump_field_attributes(stream, file, message, field);
-    stream << ">(stream, value." << field.name.get_name() << ", \"" << json_field_name(field) << "\"sv);\n";
+    stream << (with_presence ? ")" : "") << ">(stream, value." << field.name.get_name() << ", \"" << json_field_name(field) << "\"sv);\n";
 }
 
 void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, const proto_message &message,
diff --git a/src/spb-proto-compiler/dumper/pb/dumper.cpp b/src/spb-proto-compiler/dumper/pb/dumper.cpp
index f7b4207..4781136 100644
--- a/src/spb-proto-compiler/dumper/pb/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/pb/dumper.cpp
@@ -197,9 +197,11 @@ void dump_serialize_mode(std::ostream &stream, const proto_file &file, const pro
 void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, const proto_message &message,
                               const proto_field &field)
 {
-    stream << "\tserialize<";
+    const auto with_presence = field.is_empty_serialized();
+
+    stream << "\tserialize<" << (with_presence ? "with_presence(" : "");
     dump_serialize_mode(stream, file, message, field);
-    stream << ">(stream, " << field.number << ", value." << field.name.get_name() << ");\n";
+    stream << (with_presence ? ")" : "") << ">(stream, " << field.number << ", value." << field.name.get_name() << ");\n";
 }
 
 void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, const proto_message &message,
-- 
2.43.0


From a10a5acf31a5344feb0499d5cb36ee6d743b8035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 72/79] fix: a comment with a backslash at its end hid the next
 line of the header

---
 src/spb-proto-compiler/dumper/header.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index f292aef..99f6c50 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -50,8 +50,16 @@ void dump_comment(std::ostream &stream, const proto_comment &comment)
             continue;
         }
 
-        stream << comm;
-        if (comm.back() != '\n')
+        auto text = comm;
+        if (text.starts_with("//"))
+        {
+            //- `\` at the end would turn the next line into a comment
+            while (text.back() == '\\' || isspace(static_cast<unsigned char>(text.back())))
+                text.remove_suffix(1);
+        }
+
+        stream << text;
+        if (text.back() != '\n')
             stream << '\n';
     }
 }
-- 
2.43.0


From d4c593ad08d4fb2ca0992105d0c51369e791eed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 73/79] fix: a comment behind a statement took the comments and
 options of the next statement

---
 src/spb-proto-compiler/parser/parser.cpp | 47 ++++++++++++++----------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 54d50ee..0cc20f0 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -12,6 +12,7 @@
 #include "ast/proto-field.h"
 #include "ast/proto-file.h"
 #include "dumper/header.h"
+#include <algorithm>
 #include <array>
 #include <ast/ast-types.h>
 #include <ast/ast.h>
@@ -241,27 +242,32 @@ void parse_comment_multiline(spb::char_stream &stream, proto_comment &comment)
 }
 
 //- parse // \n or /**/
+void parse_single_comment(spb::char_stream &stream, proto_comment &comment)
+{
+    stream.consume_current_char(false);
+    if (stream.current_char() == '/')
+    {
+        stream.consume_current_char(false);
+        parse_comment_line(stream, comment);
+    }
+    else if (stream.current_char() == '*')
+    {
+        stream.consume_current_char(false);
+        parse_comment_multiline(stream, comment);
+    }
+    else
+    {
+        stream.throw_parse_error("expecting // or /*");
+    }
+}
+
 auto parse_comment(spb::char_stream &stream) -> proto_comment
 {
     auto result = proto_comment{};
 
     while (stream.current_char() == '/')
     {
-        stream.consume_current_char(false);
-        if (stream.current_char() == '/')
-        {
-            stream.consume_current_char(false);
-            parse_comment_line(stream, result);
-        }
-        else if (stream.current_char() == '*')
-        {
-            stream.consume_current_char(false);
-            parse_comment_multiline(stream, result);
-        }
-        else
-        {
-            stream.throw_parse_error("expecting // or /*");
-        }
+        parse_single_comment(stream, result);
     }
     return result;
 }
@@ -403,11 +409,14 @@ void consume_statement_end(spb::char_stream &stream, proto_comment &comment)
 
     stream.consume_current_char(false);
     skip_white_space_until_new_line(stream);
-    if (stream.current_char() == '/')
+    while (stream.current_char() == '/')
     {
-        const auto line_comment = parse_comment(stream);
-        comment.comments.insert(comment.comments.end(), line_comment.comments.begin(),
-                                line_comment.comments.end());
+        parse_single_comment(stream, comment);
+
+        //- comments on the following lines belong to the next statement
+        const auto *p_end = comment.comments.back().data() + comment.comments.back().size();
+        if (p_end[-1] == '\n' || std::find(p_end, stream.begin(), '\n') != stream.begin())
+            break;
     }
     stream.consume_space();
 }
-- 
2.43.0


From a6f3664754dbd56c21586abba5e624e09f98a03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 74/79] fix: options include of a field and exclude had no
 effect

---
 src/spb-proto-compiler/ast/ast-options.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/spb-proto-compiler/ast/ast-options.cpp b/src/spb-proto-compiler/ast/ast-options.cpp
index 8639a25..d77959d 100644
--- a/src/spb-proto-compiler/ast/ast-options.cpp
+++ b/src/spb-proto-compiler/ast/ast-options.cpp
@@ -247,6 +247,9 @@ void convert_include_options(proto_attributes &attributes, const proto_options &
     if (auto values = option_values({"spb", "include"}, options); !values.empty())
         attributes.include.insert(values.begin(), values.end());
 
+    if (auto values = option_values({"spb_opt", "include"}, options); !values.empty())
+        attributes.include.insert(values.begin(), values.end());
+
     if (auto values = option_values({"spb_msgopt", "include"}, options); !values.empty())
         attributes.include.insert(values.begin(), values.end());
 
@@ -256,6 +259,12 @@ void convert_include_options(proto_attributes &attributes, const proto_options &
     if (auto values = option_values({"spb_enumopt", "include"}, options); !values.empty())
         attributes.include.insert(values.begin(), values.end());
 
+    for (const auto opt_name : {"spb_opt"sv, "spb_msgopt"sv, "spb_fileopt"sv, "spb_enumopt"sv})
+    {
+        if (auto values = option_values({opt_name, "exclude"}, options); !values.empty())
+            attributes.exclude.insert(values.begin(), values.end());
+    }
+
     if (auto values = option_values({"repeated", "include"}, options); !values.empty())
         attributes.include.insert(values.begin(), values.end());
 
-- 
2.43.0


From 3858dcaf124f18ad440cb0218b8556d4cdaf555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 75/79] fix: deprecated was ignored on a map field

---
 src/spb-proto-compiler/dumper/header.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 99f6c50..ef28d89 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -368,6 +368,12 @@ void dump_message_oneof(std::ostream &stream, const proto_oneof &oneof, const pr
     stream << "> " << oneof.name.get_name() << ";\n";
 }
 
+void dump_deprecated_attribute(std::ostream &stream, const proto_base &field)
+{
+    if (field.attributes.deprecated)
+        stream << "[[deprecated]] ";
+}
+
 void dump_message_map(std::ostream &stream, const proto_map &map, const proto_message &message,
                       const proto_file &file)
 {
@@ -375,6 +381,7 @@ void dump_message_map(std::ostream &stream, const proto_map &map, const proto_me
     const auto value_type = convert_to_ctype(file, map.value);
 
     dump_comment(stream, map.comment);
+    dump_deprecated_attribute(stream, map);
     stream << get_map_type(map.attributes.map, message.attributes.map, file.attributes.map, key_type,
                            value_type, "std::map<$, @>")
            << " " << map.name.get_name() << ";\n";
@@ -421,12 +428,6 @@ void dump_default_value(std::ostream &stream, const proto_field &field)
     }
 }
 
-void dump_deprecated_attribute(std::ostream &stream, const proto_field &field)
-{
-    if (field.attributes.deprecated)
-        stream << "[[deprecated]] ";
-}
-
 void dump_message_field(std::ostream &stream, const proto_field &field, const proto_message &message,
                         const proto_file &file)
 {
-- 
2.43.0


From 49af316827e133ed4d6f6e5bc96cdd78b134138d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 76/79] fix: json accepted nan and inf without quotes

---
 include/spb/json/deserialize.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 052084c..ff15943 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -582,7 +582,12 @@ template <field_attributes> void deserialize(auto &stream, spb::detail::proto_fi
 
         return;
     }
-    auto view   = stream.view(1, max_number_size);
+    auto view = stream.view(1, max_number_size);
+    //- nan and inf have to be strings
+    const auto first = view[0] == '-' && view.size() > 1 ? view[1] : view[0];
+    if (isalpha(uint8_t(first))) [[unlikely]]
+        throw std::runtime_error("invalid number");
+
     auto result = spb_std_emu::from_chars(view.data(), view.data() + view.size(), value);
     if (result.ec != std::errc{}) [[unlikely]]
         throw std::runtime_error("invalid number");
-- 
2.43.0


From e3d97f73af3c3e7c11c5529e0dc8207b68927f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 77/79] fix: json numbers of unknown keys were refused because
 of their size

---
 include/spb/json/deserialize.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index ff15943..231fc12 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -842,10 +842,32 @@ void ignore_array(auto &stream)
         throw std::runtime_error("expecting ']");
 }
 
+void ignore_digits(auto &stream)
+{
+    const auto is_digit = [&] { return stream.current_char() >= '0' && stream.current_char() <= '9'; };
+    if (!is_digit()) [[unlikely]]
+        throw std::runtime_error("invalid number");
+
+    while (is_digit())
+    {
+        stream.consume_current_char(false);
+    }
+}
+
+//- the number has no type, so it can be of any size
 void ignore_number(auto &stream)
 {
-    double value;
-    deserialize<field_attributes{}>(stream, value);
+    (void)stream.consume('-');
+    ignore_digits(stream);
+    if (stream.consume('.'))
+        ignore_digits(stream);
+
+    if (stream.consume('e') || stream.consume('E'))
+    {
+        (void)(stream.consume('+') || stream.consume('-'));
+        ignore_digits(stream);
+    }
+    stream.skip_white_spaces();
 }
 
 void ignore_bool(auto &stream)
-- 
2.43.0


From 3059f581df1d3f307c00dff50b6f5759dcde63de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 78/79] fix: resolving a type was exponential with layers of
 public imports

---
 src/spb-proto-compiler/ast/ast-types.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index 6ddce6e..0edaaaa 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -17,6 +17,7 @@
 #include "spb/pb/wire-types.h"
 #include <algorithm>
 #include <array>
+#include <set>
 #include <string_view>
 #include <utility>
 
@@ -323,9 +324,15 @@ void add_type_package(proto_field &field, const proto_file &file)
     }
 }
 
-[[nodiscard]] auto resolve_from_import(const proto_file &file, const proto_file &import,
-                                       proto_field &field) -> proto_field::Type
+//- public imports can lead to the same file many times
+using searched_files = std::set<const proto_file *>;
+
+[[nodiscard]] auto resolve_from_import(const proto_file &file, const proto_file &import, proto_field &field,
+                                       searched_files &searched) -> proto_field::Type
 {
+    if (!searched.insert(&import).second)
+        return proto_field::Type::NONE;
+
     const auto type = resolve_from_package(file, import, field, [&](size_t package_parts)
                                            { return resolve_from_message(import.package, field, package_parts); });
     if (type)
@@ -339,7 +346,8 @@ void add_type_package(proto_field &field, const proto_file &file)
         if (!public_import.is_public)
             continue;
 
-        if (const auto public_type = resolve_from_import(file, *public_import.file, field); public_type)
+        if (const auto public_type = resolve_from_import(file, *public_import.file, field, searched);
+            public_type)
             return public_type;
     }
 
@@ -348,9 +356,10 @@ void add_type_package(proto_field &field, const proto_file &file)
 
 [[nodiscard]] auto resolve_from_imports(const proto_file &file, proto_field &field) -> proto_field::Type
 {
+    auto searched = searched_files();
     for (const auto &import : file.imports)
     {
-        if (const auto type = resolve_from_import(file, *import.file, field); type)
+        if (const auto type = resolve_from_import(file, *import.file, field, searched); type)
             return type;
     }
 
-- 
2.43.0


From 48ae2240a8c173d9b34a1ecbf736d1ef46f469c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:34 +0000
Subject: [PATCH 79/79] fix: time to order messages was cubic with the number
 of cycles

---
 .../ast/ast-messages-order.cpp                | 30 ++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-messages-order.cpp b/src/spb-proto-compiler/ast/ast-messages-order.cpp
index 5a7ae7c..86fe143 100644
--- a/src/spb-proto-compiler/ast/ast-messages-order.cpp
+++ b/src/spb-proto-compiler/ast/ast-messages-order.cpp
@@ -17,7 +17,10 @@
 #include <array>
 #include <cerrno>
 #include <cstddef>
+#include <functional>
+#include <map>
 #include <parser/char_stream.h>
+#include <string>
 #include <string_view>
 
 namespace
@@ -37,6 +40,8 @@ struct search_state
     resolve_mode mode        = dependencies_only;
     size_t resolved_messages = 0;
     const proto_file &file;
+    //- all messages by their path, same format as proto_field::type_path
+    std::map<std::string, const proto_message *, std::less<>> messages = {};
 };
 
 /**
@@ -198,16 +203,14 @@ auto resolve_field(search_ctx &ctx, auto &field) -> bool
         }
     }
 
-    const auto name     = path.substr(0, path.find('.'));
-    const auto &message = scope->message;
-    const auto index    = std::find_if(message.messages.begin(), message.messages.end(),
-                                       [name](const auto &sub_message) -> bool
-                                       { return name == sub_message.name.proto_name; });
-    if (index == message.messages.end() || index->resolved > 0)
+    const auto name       = path.substr(0, path.find('.'));
+    const auto scope_size = field.type_path.size() - path.size();
+    const auto index = ctx.state.messages.find(std::string_view(field.type_path).substr(0, scope_size + name.size()));
+    if (index == ctx.state.messages.end() || index->second->resolved > 0)
         //- enums are always defined in front of messages
         return true;
 
-    return path == name && is_forwarded(*scope, field, *index);
+    return path == name && is_forwarded(*scope, field, *index->second);
 }
 
 void resolve_message_fields(search_ctx &ctx)
@@ -261,6 +264,17 @@ void resolve_message_dependencies(search_ctx &ctx)
     resolve_message_fields(ctx);
 }
 
+void index_messages(search_state &state, const proto_messages &messages, const std::string &parent)
+{
+    for (const auto &message : messages)
+    {
+        const auto path = parent + std::string(message.name.proto_name);
+
+        state.messages.emplace(path, &message);
+        index_messages(state, message.messages, path + ".");
+    }
+}
+
 [[noreturn]] void dump_unresolved_message(const proto_messages &messages, const proto_file &file)
 {
     for (const auto &message : messages)
@@ -292,6 +306,8 @@ void resolve_messages_order(proto_file &file)
         .file              = file,
     };
 
+    index_messages(state, file.package.messages, "");
+
     while (!all_types_are_resolved(file.package.messages))
     {
         const auto resolved_messages = state.resolved_messages;
-- 
2.43.0

