From ab27a88773aac7e1cc40c99a850bd16e32c88a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:57 +0000
Subject: [PATCH 01/69] fix: projecting more keys than a finalized object
 contains wrote out of bounds

---
 include/dart/object.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 8258bc3..f08d17d 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -445,7 +445,9 @@ namespace dart {
     template <class Key>
     object<RefCount>::object(object const* base, gsl::span<Key const*> key_ptrs) noexcept : elems(0) {
       // Need to guess again. To see the reasoning for this, check the object merge constructor.
-      auto guess = key_ptrs.size();
+      // The projection can never contain more keys than the base object does, no matter how many were requested,
+      // and the caller only allocated enough space for that many.
+      auto guess = std::min(static_cast<size_t>(key_ptrs.size()), base->size());
 
       // Iterate over our elements and write each one into the buffer.
       object_entry* entry = vtable();
-- 
2.43.0


From 13f0fc8cc71702ad9802b2a1038edabc0e9b755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:57 +0000
Subject: [PATCH 02/69] fix: injecting into a finalized object could write out
 of bounds

---
 include/dart/common.tcc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dart/common.tcc b/include/dart/common.tcc
index e8b306a..0842ffe 100644
--- a/include/dart/common.tcc
+++ b/include/dart/common.tcc
@@ -250,7 +250,11 @@ namespace dart {
       auto* raw_incoming = get_object<RefCount>(incoming.raw);
       
       // Figure out the maximum amount of space we could need for the merged object.
+      // Interleaving the two objects can change how much padding precedes any of the keys or values,
+      // so account for the worst case.
       auto total_size = raw_base->get_sizeof() + raw_incoming->get_sizeof();
+      auto const max_padding = alignment_of<RefCount>(raw_type::string) - 1 + alignment_of<RefCount>(raw_type::object) - 1;
+      total_size += (raw_base->size() + raw_incoming->size()) * max_padding;
 
       // Merge it.
       auto ref = aligned_alloc<RefCount>(total_size, raw_type::object, [&] (auto* ptr) {
-- 
2.43.0


From ba18c5ad654308795cf3aa69b052b7feecf55eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 03/69] fix: finding a missing key in a finalized object
 returned an uninitialized iterator

---
 include/dart/object.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index f08d17d..c22ecf9 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -681,14 +681,14 @@ namespace dart {
 
     template <template <class> class RefCount>
     auto object<RefCount>::get_it(shim::string_view const key) const noexcept -> ll_iterator<RefCount> {
-      size_t idx;
+      size_t idx = size();
       get_key(key, [&] (auto target) { idx = target; });
       return ll_iterator<RefCount>(idx, DART_FROM_THIS, load_value);
     }
 
     template <template <class> class RefCount>
     auto object<RefCount>::get_key_it(shim::string_view const key) const noexcept -> ll_iterator<RefCount> {
-      size_t idx;
+      size_t idx = size();
       get_key(key, [&] (auto target) { idx = target; });
       return ll_iterator<RefCount>(idx, DART_FROM_THIS, load_key);
     }
-- 
2.43.0


From fe5a6884b2f235dad4702cf639cd026d41cbf346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 04/69] fix: reserve, resize and clear modified every copy of a
 heap

---
 include/dart/heap/api.tcc   | 2 ++
 include/dart/heap/array.tcc | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index a0316f8..3084276 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -255,6 +255,8 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   void basic_heap<RefCount>::clear() {
+    // Make sure we copy out if our heap is shared.
+    copy_on_write();
     if (is_object()) get_fields().clear();
     else if (is_array()) get_elements().clear();
     else throw type_error("dart::heap is not an aggregate and cannot be cleared");
diff --git a/include/dart/heap/array.tcc b/include/dart/heap/array.tcc
index 45e0783..758c90d 100644
--- a/include/dart/heap/array.tcc
+++ b/include/dart/heap/array.tcc
@@ -123,13 +123,20 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   void basic_heap<RefCount>::reserve(size_type count) {
+    // Make sure we copy out if our heap is shared.
+    copy_on_write();
     get_elements().reserve(count);
   }
 
   template <template <class> class RefCount>
   template <class T, class EnableIf>
   void basic_heap<RefCount>::resize(size_type count, T const& def) {
-    get_elements().resize(count, convert::cast<basic_heap>(def));
+    // Take our own copy of the value before copying out, as it may share our data.
+    basic_heap tmp = convert::cast<basic_heap>(def);
+
+    // Make sure we copy out if our heap is shared.
+    copy_on_write();
+    get_elements().resize(count, tmp);
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From 88c4300c8116a4b73333b163bfff7b3ce5cd0305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 05/69] fix: inserting a heap into itself created a reference
 cycle

---
 include/dart/heap/api.tcc | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index 3084276..f0bc614 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -118,13 +118,14 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class ValueType, class EnableIf>
   auto basic_heap<RefCount>::insert(KeyType&& key, ValueType&& value) -> iterator {
+    // Cast and forward the key/value into something we can insert.
+    // These must be owned, and created before copying out, as they may share our own data.
+    basic_heap tmp_key = convert::cast<basic_heap>(std::forward<KeyType>(key));
+    basic_heap tmp_value = convert::cast<basic_heap>(std::forward<ValueType>(value));
+
     // Perform our copy on write if our heap is shared.
     copy_on_write();
 
-    // Cast and forward the key/value into something we can insert.
-    auto&& tmp_key = convert::cast<basic_heap>(std::forward<KeyType>(key));
-    auto&& tmp_value = convert::cast<basic_heap>(std::forward<ValueType>(value));
-
     // Perform the insertion.
     if (tmp_key.is_str()) {
       // Check to make sure we'll be able to encode the given string.
@@ -135,7 +136,7 @@ namespace dart {
       // Attempt the insertion.
       // Sucks that we have to copy the value here, but insert might fail,
       // and the standard doesn't guarantee that tmp_value wouldn't be consumed if so.
-      auto val = std::make_pair(std::forward<decltype(tmp_key)>(tmp_key), tmp_value);
+      auto val = std::make_pair(std::move(tmp_key), tmp_value);
       auto res = get_fields().insert(std::move(val));
 
       // If the key was already present, insert will fail without consuming our value.
@@ -146,7 +147,7 @@ namespace dart {
       auto& elements = get_elements();
       auto pos = static_cast<size_type>(tmp_key.integer());
       if (pos > elements.size()) throw std::out_of_range("dart::heap cannot insert at out of range index");
-      auto new_it = elements.insert(elements.begin() + pos, std::forward<decltype(tmp_value)>(tmp_value));
+      auto new_it = elements.insert(elements.begin() + pos, std::move(tmp_value));
       return detail::dynamic_iterator<RefCount> {new_it, [] (auto& it) -> auto const& { return *it; }};
     } else {
       throw type_error("dart::heap cannot insert keys with non string/integer types");
@@ -170,13 +171,14 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class ValueType, class EnableIf>
   auto basic_heap<RefCount>::set(KeyType&& key, ValueType&& value) -> iterator {
+    // Cast and forward the key/value into something we can use.
+    // These must be owned, and created before copying out, as they may share our own data.
+    basic_heap tmp_key = convert::cast<basic_heap>(std::forward<KeyType>(key));
+    basic_heap tmp_val = convert::cast<basic_heap>(std::forward<ValueType>(value));
+
     // Perform our copy on write if our heap is shared.
     copy_on_write();
 
-    // Cast and forward the key/value into something we can use.
-    auto&& tmp_key = convert::cast<basic_heap>(std::forward<KeyType>(key));
-    auto&& tmp_val = convert::cast<basic_heap>(std::forward<ValueType>(value));
-
     // Update the given value IF present.
     if (tmp_key.is_str()) {
       if (tmp_key.size() > std::numeric_limits<uint16_t>::max()) {
@@ -187,14 +189,14 @@ namespace dart {
       auto& fields = get_fields();
       auto it = fields.find(tmp_key);
       if (it == fields.end()) throw std::out_of_range("dart::heap cannot set a non-existent key");
-      it->second = std::forward<decltype(tmp_val)>(tmp_val);
+      it->second = std::move(tmp_val);
       return detail::dynamic_iterator<RefCount>{it, [] (auto& it) -> auto const& { return it->second; }};
     } else if (tmp_key.is_integer()) {
       auto& elements = get_elements();
       auto pos = static_cast<size_type>(tmp_key.integer());
       if (pos >= elements.size()) throw std::out_of_range("dart::heap cannot set a value at out of range index");
       auto it = elements.begin() + pos;
-      *it = std::forward<decltype(tmp_val)>(tmp_val);
+      *it = std::move(tmp_val);
       return detail::dynamic_iterator<RefCount> {it, [] (auto& it) -> auto const& { return *it; }};
     } else {
       throw type_error("dart::heap cannot set keys with non string/integer types");
-- 
2.43.0


From 6f3a387726dd15d39d0b9461848281bef8ee7248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:56 +0000
Subject: [PATCH 06/69] fix: finalized numbers could be accessed as booleans

---
 include/dart/buffer/primitive.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dart/buffer/primitive.tcc b/include/dart/buffer/primitive.tcc
index 858fea8..ce24836 100644
--- a/include/dart/buffer/primitive.tcc
+++ b/include/dart/buffer/primitive.tcc
@@ -33,7 +33,8 @@ namespace dart {
 
   template <template <class> class RefCount>
   bool basic_buffer<RefCount>::boolean() const {
-    return detail::get_primitive<bool>(raw)->get_data();
+    if (is_boolean()) return detail::get_primitive<bool>(raw)->get_data();
+    else throw type_error("dart::buffer has no boolean value");
   }
 
 }
-- 
2.43.0


From e4a5fa2e44900c9b75bc64f3677a4229aa24f030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:56 +0000
Subject: [PATCH 07/69] fix: heap strings differing only after an embedded null
 compared equal

---
 include/dart/common.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/common.h b/include/dart/common.h
index 7527ef3..311c85f 100644
--- a/include/dart/common.h
+++ b/include/dart/common.h
@@ -307,7 +307,7 @@ namespace dart {
     struct dynamic_string_layout {
       bool operator ==(dynamic_string_layout const& other) const noexcept {
         if (len != other.len) return false;
-        else return !strcmp(ptr.get(), other.ptr.get());
+        else return !memcmp(ptr.get(), other.ptr.get(), len);
       }
       bool operator !=(dynamic_string_layout const& other) const noexcept {
         return !(*this == other);
@@ -319,7 +319,7 @@ namespace dart {
     struct inline_string_layout {
       bool operator ==(inline_string_layout const& other) const noexcept {
         if (left != other.left) return false;
-        else return !strcmp(buffer.data(), other.buffer.data());
+        else return !memcmp(buffer.data(), other.buffer.data(), buffer.size() - left);
       }
       bool operator !=(inline_string_layout const& other) const noexcept {
         return !(*this == other);
-- 
2.43.0


From 96c8a6d0a26a8b00c61a2d079bd9590e97365dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 08/69] fix: finalized objects could not look up keys with
 embedded nulls

---
 include/dart/object.tcc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index c22ecf9..aae6cae 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -280,7 +280,8 @@ namespace dart {
 
         // Add an entry to the vtable.
         auto val_type = json_identify<RefCount>(it->value);
-        new(entry++) object_entry(val_type, static_cast<uint32_t>(offset), it->name.GetString());
+        shim::string_view const name {it->name.GetString(), it->name.GetStringLength()};
+        new(entry++) object_entry(val_type, static_cast<uint32_t>(offset), name);
 
         // Layout our key.
         offset += json_lower<RefCount>(aligned, it->name);
@@ -319,7 +320,7 @@ namespace dart {
         // Add an entry to the vtable.
         new(entry++)
           object_entry(pair.value.get_raw_type(),
-            static_cast<uint32_t>(offset), pair.key.str());
+            static_cast<uint32_t>(offset), pair.key.strv());
 
         // Layout our key.
         offset += pair.key.layout(aligned);
@@ -358,7 +359,7 @@ namespace dart {
         // Add an entry to the vtable.
         new(entry++)
           object_entry(field.second.get_raw_type(),
-              static_cast<uint32_t>(offset), field.first.str());
+              static_cast<uint32_t>(offset), field.first.strv());
 
         // Layout our key.
         offset += field.first.layout(aligned);
@@ -410,7 +411,7 @@ namespace dart {
         // Add an entry to the vtable.
         auto* key = get_string(raw_key);
         new(entry++) object_entry(raw_val.type,
-            static_cast<uint32_t>(offset), key->get_strv().data());
+            static_cast<uint32_t>(offset), key->get_strv());
 
         // Copy in our key.
         auto key_len = find_sizeof<RefCount>(raw_key);
@@ -461,7 +462,7 @@ namespace dart {
         // Add an entry to the vtable.
         auto* key = get_string(raw_key);
         new(entry++) object_entry(raw_val.type,
-            static_cast<uint32_t>(offset), key->get_strv().data());
+            static_cast<uint32_t>(offset), key->get_strv());
 
         // Copy in our key.
         auto key_len = find_sizeof<RefCount>(raw_key);
-- 
2.43.0


From 5f7ba4402427eea43aa735db731b52380603c415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 09/69] fix: finalized objects could not look up keys with
 non-ASCII prefixes

---
 include/dart/common.tcc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dart/common.tcc b/include/dart/common.tcc
index 0842ffe..241bd62 100644
--- a/include/dart/common.tcc
+++ b/include/dart/common.tcc
@@ -13,13 +13,14 @@ namespace dart {
 
     template <size_t bytes>
     int prefix_compare_impl(char const* prefix, char const* str, size_t const len) noexcept {
-      if (len && *prefix != *str) return *prefix - *str;
+      // Keys are ordered by unsigned bytes, regardless of the signedness of char.
+      if (len && *prefix != *str) return static_cast<unsigned char>(*prefix) - static_cast<unsigned char>(*str);
       else if (len) return prefix_compare_impl<bytes - 1>(prefix + 1, str + 1, len - 1);
-      else return *prefix;
+      else return static_cast<unsigned char>(*prefix);
     }
     template <>
     inline int prefix_compare_impl<0>(char const*, char const* str, size_t const len) noexcept {
-      if (len) return -*str;
+      if (len) return -static_cast<unsigned char>(*str);
       else return 0;
     }
 
-- 
2.43.0


From 3803c0e33f0dacc17f7168ed47be44a14b006528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 10/69] fix: finalized objects could not always look up keys of
 255 or more characters

---
 include/dart/common.tcc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/dart/common.tcc b/include/dart/common.tcc
index 241bd62..627d50d 100644
--- a/include/dart/common.tcc
+++ b/include/dart/common.tcc
@@ -199,9 +199,11 @@ namespace dart {
       constexpr auto max_len = std::numeric_limits<uint8_t>::max();
 
       // Compare first by string lengths, then by lexical ordering.
-      // If they are longer than us, but we're capped at the max value,
-      // return equality to force key lookup to fall back on the general case.
-      if (our_len < their_len) return (our_len == max_len) ? 0 : -1;
+      // If we're capped at the max value, and they are at least that long,
+      // return equality to force key lookup to fall back on the general case,
+      // as we don't know how long our key actually is.
+      if (our_len == max_len && their_len >= max_len) return 0;
+      else if (our_len < their_len) return -1;
       else if (our_len == their_len) return compare_impl(str.data(), their_len);
       else return 1;
     }
-- 
2.43.0


From ab6ba51fb05dc751b13a04563217eb179f6f944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 11/69] fix: finalized objects parsed from JSON contained
 uninitialized bytes

---
 include/dart/connector/json.tcc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index acc8322..1580347 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -100,7 +100,10 @@ namespace dart {
 
     // Allocate space to store our finalized representation.
     // FIXME: Make this allocation size more intelligent.
-    auto block = detail::aligned_alloc<RefCount>(json.size() * 8, detail::raw_type::object, [&] (auto* buf) {
+    auto bytes = json.size() * 8;
+    auto block = detail::aligned_alloc<RefCount>(bytes, detail::raw_type::object, [&] (auto* buf) {
+      // XXX: std::fill_n is REQUIRED here so that we can perform memcmps for finalized packets.
+      std::fill_n(buf, bytes, gsl::byte {});
       detail::json_lower<RefCount>(buf, doc.get_root());
     });
 
@@ -183,7 +186,10 @@ namespace dart {
 
     // Allocate space to store our finalized representation.
     // FIXME: Make this allocation size more intelligent.
-    auto block = detail::aligned_alloc<RefCount>(json.size() * 8, detail::raw_type::object, [&] (auto* buf) {
+    auto bytes = json.size() * 8;
+    auto block = detail::aligned_alloc<RefCount>(bytes, detail::raw_type::object, [&] (auto* buf) {
+      // XXX: std::fill_n is REQUIRED here so that we can perform memcmps for finalized packets.
+      std::fill_n(buf, bytes, gsl::byte {});
       detail::json_lower<RefCount>(buf, doc);
     });
 
-- 
2.43.0


From a6df9567d2d27afaa78ef17e5b8424f87de72b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 12/69] fix: finalized objects parsed from JSON accepted keys
 too long to encode

---
 include/dart/common.h           | 13 +++++++++++++
 include/dart/connector/json.tcc |  1 +
 2 files changed, 14 insertions(+)

diff --git a/include/dart/common.h b/include/dart/common.h
index 311c85f..1c273a4 100644
--- a/include/dart/common.h
+++ b/include/dart/common.h
@@ -1514,6 +1514,19 @@ namespace dart {
       }
     }
 
+    inline void json_validate_keys(rapidjson::Value const& curr_val) {
+      if (curr_val.IsObject()) {
+        for (auto it = curr_val.MemberBegin(); it != curr_val.MemberEnd(); ++it) {
+          if (it->name.GetStringLength() > std::numeric_limits<uint16_t>::max()) {
+            throw std::invalid_argument("dart::buffer keys cannot be longer than UINT16_MAX");
+          }
+          json_validate_keys(it->value);
+        }
+      } else if (curr_val.IsArray()) {
+        for (auto it = curr_val.Begin(); it != curr_val.End(); ++it) json_validate_keys(*it);
+      }
+    }
+
     template <template <class> class RefCount>
     size_t json_lower(gsl::byte* buffer, rapidjson::Value const& curr_val) {
       auto raw = json_identify<RefCount>(curr_val);
diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index 1580347..1276b9b 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -183,6 +183,7 @@ namespace dart {
     } else if (!doc.IsObject()) {
       throw type_error("dart::buffer root must be an object.");
     }
+    detail::json_validate_keys(doc);
 
     // Allocate space to store our finalized representation.
     // FIXME: Make this allocation size more intelligent.
-- 
2.43.0


From f71f0676cae595fe5f7ee39a8d01bf276e306299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 13/69] fix: finalized objects parsed from JSON kept duplicate
 keys

---
 include/dart/object.tcc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index aae6cae..370beb4 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -244,20 +244,18 @@ namespace dart {
 
 #if DART_HAS_RAPIDJSON
     template <template <class> class RefCount>
-    object<RefCount>::object(rapidjson::Value const& fields) noexcept :
-      elems(static_cast<uint32_t>(fields.MemberCount()))
-    {
+    object<RefCount>::object(rapidjson::Value const& fields) noexcept : elems(0) {
       using sorter = std::vector<rapidjson::Value::ConstMemberIterator>;
 
       // Sort our fields real quick.
       // Ugly that this is necessary, but key lookup assumes things
       // are lexicographically sorted.
       sorter sorted;
-      sorted.reserve(elems);
+      sorted.reserve(fields.MemberCount());
       for (auto it = fields.MemberBegin(); it != fields.MemberEnd(); ++it) {
         sorted.push_back(it);
       }
-      std::sort(sorted.begin(), sorted.end(), [] (auto& lhs, auto& rhs) {
+      std::stable_sort(sorted.begin(), sorted.end(), [] (auto& lhs, auto& rhs) {
         auto lhs_len = lhs->name.GetStringLength();
         auto rhs_len = rhs->name.GetStringLength();
         if (lhs_len == rhs_len) {
@@ -269,6 +267,13 @@ namespace dart {
         }
       });
 
+      // Keys must be unique, so if any were repeated, the last one wins.
+      auto last = std::unique(sorted.rbegin(), sorted.rend(), [] (auto& lhs, auto& rhs) {
+        return lhs->name == rhs->name;
+      });
+      sorted.erase(sorted.begin(), last.base());
+      elems = static_cast<uint32_t>(sorted.size());
+
       // Iterate over our elements and write each one into the buffer.
       object_entry* entry = vtable();
       size_t offset = reinterpret_cast<gsl::byte*>(&vtable()[elems]) - DART_FROM_THIS_MUT;
-- 
2.43.0


From 44c3be016d9fb19efb0df7d77ce80efab2ee08a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 14/69] fix: JSON integers larger than INT64_MAX were parsed as
 negative values

---
 include/dart/connector/json.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index 1276b9b..36b83e2 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -388,7 +388,9 @@ namespace dart {
 
     template <template <class> class RefCount>
     bool heap_parser<RefCount>::Uint64(uint64_t num) {
-      return Int64(num);
+      // Integers are signed, so fall back on a decimal if it won't fit.
+      if (num > static_cast<uint64_t>(std::numeric_limits<int64_t>::max())) return Double(static_cast<double>(num));
+      else return Int64(static_cast<int64_t>(num));
     }
 
     template <template <class> class RefCount>
-- 
2.43.0


From b97883f61300de5b9adb41b4e5fe0d367b2e4ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 15/69] fix: arithmetic between a scalar and a number swapped
 its operands

---
 include/dart/operators.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dart/operators.tcc b/include/dart/operators.tcc
index 6637580..7ddf477 100644
--- a/include/dart/operators.tcc
+++ b/include/dart/operators.tcc
@@ -86,7 +86,7 @@ namespace dart {
     >                                                                                     \
   >                                                                                       \
   double operator op(T lhs, basic_number<Number> const& rhs) noexcept {                   \
-    return rhs op lhs;                                                                    \
+    return lhs op rhs.numeric();                                                          \
   }
 
   DART_DEFINE_ARITHMETIC_OPERATORS(+);
-- 
2.43.0


From 755f1b1c0cc34439626fcfbdaa21c81f5f4d8df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 16/69] fix: accessing the ends of an expiring packet was
 undefined

---
 include/dart/packet/array.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/packet/array.tcc b/include/dart/packet/array.tcc
index c19caa5..405bc83 100644
--- a/include/dart/packet/array.tcc
+++ b/include/dart/packet/array.tcc
@@ -205,7 +205,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   basic_packet<RefCount>&& basic_packet<RefCount>::at_front() && {
-    shim::visit([] (auto& v) -> basic_packet { v = std::move(v).at_front(); }, impl);
+    shim::visit([] (auto& v) { v = std::move(v).at_front(); }, impl);
     return std::move(*this);
   }
 
@@ -217,7 +217,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   basic_packet<RefCount>&& basic_packet<RefCount>::at_back() && {
-    shim::visit([] (auto& v) -> basic_packet { v = std::move(v).at_back(); }, impl);
+    shim::visit([] (auto& v) { v = std::move(v).at_back(); }, impl);
     return std::move(*this);
   }
 
-- 
2.43.0


From d8cb67f70c3e8798f281e404bb7be0598331683d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 17/69] fix: optional access to the ends of a finalized packet
 threw

---
 include/dart/packet/array.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dart/packet/array.tcc b/include/dart/packet/array.tcc
index 405bc83..2a6d50c 100644
--- a/include/dart/packet/array.tcc
+++ b/include/dart/packet/array.tcc
@@ -236,7 +236,8 @@ namespace dart {
   template <template <class> class RefCount>
   template <class T, class EnableIf>
   basic_packet<RefCount> basic_packet<RefCount>::front_or(T&& opt) const {
-    return get_heap().front_or(std::forward<T>(opt));
+    if (is_array() && !empty()) return front();
+    else return convert::cast<basic_packet>(std::forward<T>(opt));
   }
 
   template <template <class> class RefCount>
@@ -254,7 +255,8 @@ namespace dart {
   template <template <class> class RefCount>
   template <class T, class EnableIf>
   basic_packet<RefCount> basic_packet<RefCount>::back_or(T&& opt) const {
-    return get_heap().back_or(std::forward<T>(opt));
+    if (is_array() && !empty()) return back();
+    else return convert::cast<basic_packet>(std::forward<T>(opt));
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From 81d4621c1fd9576a098464cee0eda7d72e8d1ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 18/69] fix: at did not compile with dart keys

---
 include/dart/buffer/api.tcc | 4 ++--
 include/dart/heap/api.tcc   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dart/buffer/api.tcc b/include/dart/buffer/api.tcc
index 134be9f..54e2e1a 100644
--- a/include/dart/buffer/api.tcc
+++ b/include/dart/buffer/api.tcc
@@ -217,7 +217,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class EnableIf>
   basic_buffer<RefCount> basic_buffer<RefCount>::at(KeyType const& identifier) const& {
-    switch (identifier.at_type()) {
+    switch (identifier.get_type()) {
       case type::string:
         return at(identifier.strv());
       case type::integer:
@@ -230,7 +230,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class EnableIf>
   basic_buffer<RefCount>&& basic_buffer<RefCount>::at(KeyType const& identifier) && {
-    switch (identifier.at_type()) {
+    switch (identifier.get_type()) {
       case type::string:
         return std::move(*this).at(identifier.strv());
       case type::integer:
diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index f0bc614..de739a7 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -389,7 +389,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class EnableIf>
   basic_heap<RefCount> basic_heap<RefCount>::at(KeyType const& identifier) const {
-    switch (identifier.at_type()) {
+    switch (identifier.get_type()) {
       case type::string:
         return at(identifier.strv());
       case type::integer:
-- 
2.43.0


From 52b419befca042b65afe90c704aa026b32ecc256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 19/69] fix: optional access to an array threw if given a
 non-integer key

---
 include/dart/heap/api.tcc   | 2 +-
 include/dart/packet/api.tcc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index de739a7..1a917d4 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -379,7 +379,7 @@ namespace dart {
     // Array access with throw if the identifier isn't within or range, or isn't an integer.
     if (is_object() && has_key(identifier)) {
       return get(identifier);
-    } else if (is_array() && size() > static_cast<size_t>(identifier.integer())) {
+    } else if (is_array() && identifier.is_integer() && size() > static_cast<size_t>(identifier.integer())) {
       return get(identifier);
     } else {
       return convert::cast<basic_heap>(std::forward<T>(opt));
diff --git a/include/dart/packet/api.tcc b/include/dart/packet/api.tcc
index d3b7285..17349ce 100644
--- a/include/dart/packet/api.tcc
+++ b/include/dart/packet/api.tcc
@@ -259,7 +259,7 @@ namespace dart {
   basic_packet<RefCount> basic_packet<RefCount>::get_or(KeyType const& identifier, T&& opt) const {
     if (is_object() && has_key(identifier)) {
       return get(identifier);
-    } else if (is_array() && size() > static_cast<size_t>(identifier.integer())) {
+    } else if (is_array() && identifier.is_integer() && size() > static_cast<size_t>(identifier.integer())) {
       return get(identifier);
     } else {
       return convert::cast<basic_packet>(std::forward<T>(opt));
-- 
2.43.0


From d8edc1e2f4c422a584420af53bb89122ab78330f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 20/69] fix: strongly typed values ignored the requested JSON
 flags

---
 include/dart/connector/json.tcc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index 36b83e2..e4ba192 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -228,37 +228,37 @@ namespace dart {
   template <class Object>
   template <unsigned flags>
   std::string basic_object<Object>::to_json() const {
-    return val.to_json();
+    return val.template to_json<flags>();
   }
 
   template <class Array>
   template <unsigned flags>
   std::string basic_array<Array>::to_json() const {
-    return val.to_json();
+    return val.template to_json<flags>();
   }
 
   template <class String>
   template <unsigned flags>
   std::string basic_string<String>::to_json() const {
-    return val.to_json();
+    return val.template to_json<flags>();
   }
 
   template <class Number>
   template <unsigned flags>
   std::string basic_number<Number>::to_json() const {
-    return val.to_json();
+    return val.template to_json<flags>();
   }
 
   template <class Boolean>
   template <unsigned flags>
   std::string basic_flag<Boolean>::to_json() const {
-    return val.to_json();
+    return val.template to_json<flags>();
   }
 
   template <class Null>
   template <unsigned flags>
   std::string basic_null<Null>::to_json() const {
-    return value_type::make_null().to_json();
+    return value_type::make_null().template to_json<flags>();
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From fa2c97b0f3eaf4ce4279ecda22b59bdc3fecc98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 21/69] fix: YAML mappings with aggregate keys read out of
 bounds

---
 include/dart/connector/yaml.tcc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/dart/connector/yaml.tcc b/include/dart/connector/yaml.tcc
index c04d940..1721afc 100644
--- a/include/dart/connector/yaml.tcc
+++ b/include/dart/connector/yaml.tcc
@@ -85,6 +85,10 @@ namespace dart {
               yaml_event_delete(&event);
               continue;
             case YAML_MAPPING_START_EVENT:
+              if (state == detail::parse_state::mapping_key) {
+                throw std::runtime_error("dart::packet does not support YAML aggregates as mapping keys.");
+              }
+
               // Beginning a new object, push onto our stacks if we were holding anything.
               if (curr_key) key_stack.push_back(std::move(curr_key));
               if (curr_obj) obj_stack.push_back(std::move(curr_obj));
@@ -93,6 +97,10 @@ namespace dart {
               curr_obj = basic_heap<RefCount>::make_object();
               break;
             case YAML_SEQUENCE_START_EVENT:
+              if (state == detail::parse_state::mapping_key) {
+                throw std::runtime_error("dart::packet does not support YAML aggregates as mapping keys.");
+              }
+
               // Beginning a new array, push onto our stacks if we were holding anything.
               if (curr_key) key_stack.push_back(std::move(curr_key));
               if (curr_obj) obj_stack.push_back(std::move(curr_obj));
-- 
2.43.0


From d14e4027006f51538900562c7bda3f8899d8fe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 22/69] fix: quoted YAML scalars were not parsed as strings

---
 include/dart/connector/yaml.tcc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/dart/connector/yaml.tcc b/include/dart/connector/yaml.tcc
index 1721afc..e6de052 100644
--- a/include/dart/connector/yaml.tcc
+++ b/include/dart/connector/yaml.tcc
@@ -195,6 +195,11 @@ namespace dart {
       size_t len = event.data.scalar.length;
       char const* str = reinterpret_cast<char const*>(event.data.scalar.value);
 
+      // Only plain scalars have an implicit type, anything quoted is a string.
+      if (event.data.scalar.style != YAML_PLAIN_SCALAR_STYLE) {
+        return basic_heap<RefCount>::make_string({str, len});
+      }
+
       // Try to figure out what this is.
       int64_t int_val = 0;
       double dcm_val = 0.0;
-- 
2.43.0


From ddad7869129f09a4f5ef1f3718c26e6f99678359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 23/69] fix: objects with different keys compared equal if the
 missing values were null

---
 include/dart/conversion_traits.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dart/conversion_traits.h b/include/dart/conversion_traits.h
index 8a4c55a..75d5513 100644
--- a/include/dart/conversion_traits.h
+++ b/include/dart/conversion_traits.h
@@ -300,6 +300,7 @@ namespace dart {
               std::tie(k, v) = rhs.kvbegin();
               while (v != rhs.end()) {
                 if (*v != lhs[*k]) return false;
+                else if (v->is_null() && !lhs.has_key(*k)) return false;
                 ++k, ++v;
               }
               return true;
-- 
2.43.0


From 37d4f71bd4d279e0214acf03dd6d4e0415fd850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 24/69] fix: objects compared equal to maps with different keys
 if the missing values were null

---
 include/dart/conversions.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index ba22069..3c69ed5 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -64,14 +64,15 @@ namespace dart {
         }
       };
 
-      template <class Packet, class Map, class Callback>
-      bool generic_map_compare_impl(Packet const& pkt, Map const& map, Callback&& cb) {
+      template <class Packet, class Map, class Extract, class Contains>
+      bool generic_map_compare_impl(Packet const& pkt, Map const& map, Extract&& extract, Contains&& contains) {
         // Lookup into the packet will be much faster if it's finalized,
         // and the same if not, so iterate over the map.
         typename Packet::view v = pkt;
         for (auto& pair : map) {
-          auto val = cb(v, pair.first);
+          auto val = extract(v, pair.first);
           if (val != pair.second) return false;
+          else if (val.is_null() && !contains(v, pair.first)) return false;
         }
         return true;
       }
@@ -79,7 +80,9 @@ namespace dart {
       // General case of comparing a Dart type against a std map.
       template <class Packet, class Map>
       bool generic_map_compare(Packet const& pkt, Map const& map, std::true_type) {
-        return generic_map_compare_impl(pkt, map, [] (auto& v, auto& k) { return v[k]; });
+        return generic_map_compare_impl(pkt, map,
+            [] (auto& v, auto& k) { return v[k]; },
+            [] (auto& v, auto& k) { return v.has_key(k); });
       }
 
       template <class Packet, class Map>
@@ -90,7 +93,9 @@ namespace dart {
         // but which is NOT convertible into std::string_view
         // which means our only recourse is to create a temporary
         // packet for each key with which to perform the lookup.
-        return generic_map_compare_impl(pkt, map, [] (auto& v, auto& k) { return v[convert::cast(k)]; });
+        return generic_map_compare_impl(pkt, map,
+            [] (auto& v, auto& k) { return v[convert::cast(k)]; },
+            [] (auto& v, auto& k) { return v.has_key(convert::cast(k)); });
       }
 
       template <class Packet, class Map, class Extract, class Next>
-- 
2.43.0


From 577aec56488a00f42120f7a951bc880635a8c0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 25/69] fix: objects compared equal to multimaps missing some
 of their keys

---
 include/dart/conversions.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index 3c69ed5..5bdcb4f 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -100,6 +100,7 @@ namespace dart {
 
       template <class Packet, class Map, class Extract, class Next>
       bool generic_multimap_compare_impl(Packet const& pkt, Map const& map, Extract&& extract, Next&& next) {
+        size_t keys = 0;
         auto end = map.end();
         auto it = map.begin();
         typename Packet::view v = pkt;
@@ -120,8 +121,11 @@ namespace dart {
 
           // Skip past all records with this key.
           it = edge;
+          ++keys;
         }
-        return true;
+
+        // All of the keys in the map are in the packet, make sure the packet has no others.
+        return keys == v.size();
       }
 
       template <class Packet, class Key, class Value, class Comp, class Alloc>
-- 
2.43.0


From 52a4b6078c54faaa61e76be8ecbd3cebaa7479ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 26/69] fix: string_view::rfind read out of bounds and ignored
 its offset

---
 include/dart/support/string_view.h   |  4 ++--
 include/dart/support/string_view.tcc | 12 +++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/dart/support/string_view.h b/include/dart/support/string_view.h
index fd453a6..47a2b45 100644
--- a/include/dart/support/string_view.h
+++ b/include/dart/support/string_view.h
@@ -124,9 +124,9 @@ namespace dart {
       constexpr auto find(const_pointer target, size_type offset, size_type count) const noexcept -> size_type;
       constexpr auto find(const_pointer target, size_type offset = 0) const noexcept -> size_type;
       constexpr auto rfind(basic_string_view target, size_type offset = npos) const noexcept -> size_type;
-      constexpr auto rfind(value_type target, size_type offset = 0) const noexcept -> size_type;
+      constexpr auto rfind(value_type target, size_type offset = npos) const noexcept -> size_type;
       constexpr auto rfind(const_pointer target, size_type offset, size_type count) const noexcept -> size_type;
-      constexpr auto rfind(const_pointer target, size_type offset = 0) const noexcept -> size_type;
+      constexpr auto rfind(const_pointer target, size_type offset = npos) const noexcept -> size_type;
 
       // Membership Checks.
       constexpr auto find_first_of(basic_string_view target, size_type offset = 0) const noexcept -> size_type;
diff --git a/include/dart/support/string_view.tcc b/include/dart/support/string_view.tcc
index f3283e5..16c44f6 100644
--- a/include/dart/support/string_view.tcc
+++ b/include/dart/support/string_view.tcc
@@ -254,14 +254,16 @@ namespace dart {
   constexpr auto basic_string_view<CharT, Traits>::rfind(basic_string_view target, size_type offset) const noexcept
     -> size_type
   {
+    // Short circuit if we can't possibly contain the target.
+    if (target.size() > size()) return npos;
+
     // Clamp our offset.
-    ssize_t safe_offset = std::min(offset, size());
+    auto safe_offset = std::min(offset, size() - target.size());
 
     // Search until we find it or walk off the front.
-    while (safe_offset - static_cast<ssize_t>(target.size()) >= 0) {
-      if (compare(offset, target.size(), target) == 0) return offset;
-      --offset;
-    }
+    do {
+      if (compare(safe_offset, target.size(), target) == 0) return safe_offset;
+    } while (safe_offset--);
     return npos;
   }
 
-- 
2.43.0


From 31b3c35ee133172b16b12140ad9d3c8a94332cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 27/69] fix: string_view character searches returned the wrong
 positions

---
 include/dart/support/string_view.h   | 12 ++++++------
 include/dart/support/string_view.tcc | 19 ++++++++++---------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/include/dart/support/string_view.h b/include/dart/support/string_view.h
index 47a2b45..84f3ee1 100644
--- a/include/dart/support/string_view.h
+++ b/include/dart/support/string_view.h
@@ -133,20 +133,20 @@ namespace dart {
       constexpr auto find_first_of(value_type target, size_type offset = 0) const noexcept -> size_type;
       constexpr auto find_first_of(const_pointer target, size_type offset, size_type count) const noexcept -> size_type;
       constexpr auto find_first_of(const_pointer target, size_type offset = 0) const noexcept -> size_type;
-      constexpr auto find_last_of(basic_string_view target, size_type offset = 0) const noexcept -> size_type;
-      constexpr auto find_last_of(value_type target, size_type offset = 0) const noexcept -> size_type;
+      constexpr auto find_last_of(basic_string_view target, size_type offset = npos) const noexcept -> size_type;
+      constexpr auto find_last_of(value_type target, size_type offset = npos) const noexcept -> size_type;
       constexpr auto find_last_of(const_pointer target, size_type offset, size_type count) const noexcept -> size_type;
-      constexpr auto find_last_of(const_pointer target, size_type offset = 0) const noexcept -> size_type;
+      constexpr auto find_last_of(const_pointer target, size_type offset = npos) const noexcept -> size_type;
 
       // Negated Membership Checks.
       constexpr auto find_first_not_of(basic_string_view target, size_type offset = 0) const noexcept -> size_type;
       constexpr auto find_first_not_of(value_type target, size_type offset = 0) const noexcept -> size_type;
       constexpr auto find_first_not_of(const_pointer target, size_type offset, size_type count) const noexcept -> size_type;
       constexpr auto find_first_not_of(const_pointer target, size_type offset = 0) const noexcept -> size_type;
-      constexpr auto find_last_not_of(basic_string_view target, size_type offset = 0) const noexcept -> size_type;
-      constexpr auto find_last_not_of(value_type target, size_type offset = 0) const noexcept -> size_type;
+      constexpr auto find_last_not_of(basic_string_view target, size_type offset = npos) const noexcept -> size_type;
+      constexpr auto find_last_not_of(value_type target, size_type offset = npos) const noexcept -> size_type;
       constexpr auto find_last_not_of(const_pointer target, size_type offset, size_type count) const noexcept -> size_type;
-      constexpr auto find_last_not_of(const_pointer target, size_type offset = 0) const noexcept -> size_type;
+      constexpr auto find_last_not_of(const_pointer target, size_type offset = npos) const noexcept -> size_type;
 
       /*----- Iteration -----*/
 
diff --git a/include/dart/support/string_view.tcc b/include/dart/support/string_view.tcc
index 16c44f6..5d8aef4 100644
--- a/include/dart/support/string_view.tcc
+++ b/include/dart/support/string_view.tcc
@@ -332,11 +332,11 @@ namespace dart {
     -> size_type
   {
     // Short-circuit if we know this can't work.
-    auto len = size();
-    if (offset >= len) return npos;
+    if (empty()) return npos;
 
-    // Try to find one of the requested characters.
-    auto found = std::find_if(rbegin() + offset, rend(), [=] (auto c) {
+    // Try to find one of the requested characters, at or before the given offset.
+    auto skip = size() - 1 - std::min(offset, size() - 1);
+    auto found = std::find_if(rbegin() + skip, rend(), [=] (auto c) {
       return target.find(c) != npos;
     });
     return found != rend() ? rend() - found - 1 : npos;
@@ -375,7 +375,7 @@ namespace dart {
     auto found = std::find_if(begin() + offset, end(), [=] (auto c) {
       return target.find(c) == npos;
     });
-    return found != end() ? begin() - found : npos;
+    return found != end() ? found - begin() : npos;
   }
 
   template <class CharT, class Traits>
@@ -408,13 +408,14 @@ namespace dart {
     -> size_type
   {
     // Short-circuit if we know this can't work.
-    if (offset >= size()) return npos;
+    if (empty()) return npos;
 
-    // Try to find one of the requested characters.
-    auto found = std::find_if(rbegin() + offset, rend(), [=] (auto c) {
+    // Try to find one of the requested characters, at or before the given offset.
+    auto skip = size() - 1 - std::min(offset, size() - 1);
+    auto found = std::find_if(rbegin() + skip, rend(), [=] (auto c) {
       return target.find(c) == npos;
     });
-    return found != rend() ? rbegin() - found : npos;
+    return found != rend() ? rend() - found - 1 : npos;
   }
 
   template <class CharT, class Traits>
-- 
2.43.0


From 75a40046d91d245e354a14fed21dc508628b916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 28/69] fix: documents copied from raw bytes still referred to
 the original bytes

---
 include/dart.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dart.h b/include/dart.h
index b3ce7ac..d75f9ad 100644
--- a/include/dart.h
+++ b/include/dart.h
@@ -8007,9 +8007,11 @@ namespace dart {
         >
       >
       explicit basic_buffer(gsl::span<gsl::byte const> buffer) :
-        raw({detail::raw_type::object, buffer.data()}),
+        raw({detail::raw_type::object, nullptr}),
         buffer_ref(allocate_pointer(buffer))
-      {}
+      {
+        raw.buffer = buffer_ref.get();
+      }
 
       /**
        *  @brief
-- 
2.43.0


From ce0439c6fa3d2e70ae3e1533dc35ad28e95cd6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 29/69] fix: validation accepted corrupted booleans

---
 include/dart/primitive.tcc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dart/primitive.tcc b/include/dart/primitive.tcc
index 06eca5e..fcc43ab 100644
--- a/include/dart/primitive.tcc
+++ b/include/dart/primitive.tcc
@@ -127,6 +127,12 @@ namespace dart {
         if (silent) return false;
         else throw validation_error("Serialized primitive value is truncated");
       }
+
+      // Reading any other bit pattern out as a boolean would be undefined.
+      if (std::is_same<T, bool>::value && *reinterpret_cast<unsigned char const*>(this) > 1) {
+        if (silent) return false;
+        else throw validation_error("Serialized boolean value is corrupted, internal consistency checks failed");
+      }
       return true;
     }
 
-- 
2.43.0


From 0cb505093bf4eb416c0dde9533e0d063ef4a062a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 30/69] fix: validation rejected nulls that share an offset and
 accepted overlapping values

---
 include/dart/array.tcc  |  8 +++++---
 include/dart/object.tcc | 12 +++++++-----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/dart/array.tcc b/include/dart/array.tcc
index dd67133..6c59712 100644
--- a/include/dart/array.tcc
+++ b/include/dart/array.tcc
@@ -311,26 +311,28 @@ namespace dart {
 
       // We now know the entire vtable is within bounds,
       // so iterate over it and check all contained children.
-      void const* prev = this;
+      // Children are laid out in order, so each one must start after the previous one ended.
+      // Null values occupy zero space, so they're allowed to share an address with whatever follows.
+      gsl::byte const* prev_end = vtable_end;
       for (auto raw_val : *this) {
         // Load the base address of the value and verify that it's within bounds.
         auto val_offset = raw_val.buffer - DART_FROM_THIS;
         if (val_offset > total_size) {
           if (silent) return false;
           else throw validation_error("Serialized array value offset is out of bounds");
-        } else if (raw_val.buffer <= prev) {
+        } else if (raw_val.buffer < prev_end) {
           if (silent) return false;
           else throw validation_error("Serialized array value contained a negative or cyclic offset");
         } else if (align_pointer<RefCount>(raw_val.buffer, raw_val.type) != raw_val.buffer) {
           if (silent) return false;
           else throw validation_error("Serialized array value offset does not meet alignment requirements");
         }
-        prev = raw_val.buffer;
 
         // We now know that at least up to the base of the value is within bounds, so recurse on the value.
         // If the buffer validation routine returns false, it means we're not throwing errors.
         auto valid_val = valid_buffer<silent, RefCount>(raw_val, total_size - val_offset);
         if (!valid_val) return false;
+        prev_end = raw_val.buffer + find_sizeof<RefCount>(raw_val);
       }
       return true;
     }
diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 370beb4..9a1a4ba 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -548,7 +548,9 @@ namespace dart {
 
       // We now know the entire vtable is within bounds,
       // so iterate over it and check all contained children.
-      void const* prev = this;
+      // Children are laid out in order, so each one must start after the previous one ended.
+      // Null values occupy zero space, so they're allowed to share an address with whatever follows.
+      gsl::byte const* prev_end = vtable_end;
       auto key_it = key_begin(), val_it = begin();
       while (val_it != end()) {
         // We know the whole vtable is within bounds, but it could still specify offsets that aren't,
@@ -560,14 +562,13 @@ namespace dart {
           // Key offset is out of bounds
           if (silent) return false;
           else throw validation_error("Serialized object key offset is out of bounds");
-        } else if (raw_key.buffer <= prev) {
+        } else if (raw_key.buffer < prev_end) {
           if (silent) return false;
           else throw validation_error("Serialized object key contained a negative or cyclic offset");
         } else if (align_pointer<RefCount>(raw_key.buffer, raw_key.type) != raw_key.buffer) {
           if (silent) return false;
           else throw validation_error("Serialized object key offset does not meet alignment requirements");
         }
-        prev = raw_key.buffer;
 
         // We now know that at least up to the base of the key is within bounds, so recurse on the key.
         // If the buffer validation routine returns false, it means we're not throwing errors.
@@ -575,6 +576,7 @@ namespace dart {
         // loads offset information from the key, and we haven't check if it's safe yet.
         auto valid_key = valid_buffer<silent, RefCount>(raw_key, total_size - key_offset);
         if (!valid_key) return false;
+        prev_end = raw_key.buffer + find_sizeof<RefCount>(raw_key);
 
         // Now we can dereference the value iterator since we know the key appears reasonable.
         // Load the base address of the value and verify that it's within bounds.
@@ -583,18 +585,18 @@ namespace dart {
         if (val_offset > total_size) {
           if (silent) return false;
           else throw validation_error("Serialized object value offset is out of bounds");
-        } else if (raw_val.buffer <= prev) {
+        } else if (raw_val.buffer < prev_end) {
           if (silent) return false;
           else throw validation_error("Serialized object value contained a negative or cyclic offset");
         } else if (align_pointer<RefCount>(raw_val.buffer, raw_val.type) != raw_val.buffer) {
           if (silent) return false;
           else throw validation_error("Serialized object value offset does not meet alignment requirements");
         }
-        prev = raw_val.buffer;
 
         // We now know that at least up to the base of the value is within bounds, so recurse on the value.
         auto valid_val = valid_buffer<silent, RefCount>(raw_val, total_size - val_offset);
         if (!valid_val) return false;
+        prev_end = raw_val.buffer + find_sizeof<RefCount>(raw_val);
 
         // Check the next pair.
         ++key_it, ++val_it;
-- 
2.43.0


From 4817c7338c7646ce925b36f09860302207f9d02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 31/69] fix: validating an empty range aborted

---
 include/dart/common.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dart/common.h b/include/dart/common.h
index 1c273a4..a7146be 100644
--- a/include/dart/common.h
+++ b/include/dart/common.h
@@ -1300,6 +1300,12 @@ namespace dart {
       if (elem.type == raw_type::null) return true;
       else if (!valid_type(elem.type)) return false;
 
+      // The caller may have handed us an empty range.
+      if (!elem.buffer) {
+        if (silent) return false;
+        else throw validation_error("Serialized value is truncated");
+      }
+
       // Call through to our implementation
       return generic_deref<RefCount>([=] (auto& v) { return v.template is_valid<silent>(bytes); }, elem);
     }
-- 
2.43.0


From 23b8b37fa4ff3ce7198ec322dfd582bdc2a485ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 32/69] fix: projecting a strongly typed object did not compile

---
 include/dart/object.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 9a1a4ba..7c909b2 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -129,13 +129,13 @@ namespace dart {
 
   template <class Object>
   basic_object<Object> basic_object<Object>::project(std::initializer_list<shim::string_view> keys) const {
-    return val.project(keys);
+    return basic_object {val.project(keys)};
   }
 
   template <class Object>
   template <class StringSpan, class EnableIf>
   basic_object<Object> basic_object<Object>::project(StringSpan const& keys) const {
-    return val.project(keys);
+    return basic_object {val.project(keys)};
   }
 
   template <class Object>
-- 
2.43.0


From c495e650720d031feeec279526925405b47d4c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 33/69] fix: making or injecting an object from an odd number
 of values read out of bounds

---
 include/dart/heap/object.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dart/heap/object.tcc b/include/dart/heap/object.tcc
index bf08c94..7bd8930 100644
--- a/include/dart/heap/object.tcc
+++ b/include/dart/heap/object.tcc
@@ -276,6 +276,7 @@ namespace dart {
   void basic_heap<RefCount>::inject_pairs(basic_heap& obj, Span pairs) {
     // Validate that what we're being asked to do makes sense.
     if (!obj.is_object()) throw type_error("dart::heap is not an object and cannot inject key-value pairs");
+    if (pairs.size() & 1) throw std::invalid_argument("dart::heap objects can only be constructed from a sequence of key-value PAIRS");
 
     // Insert each of the requested pairs.
     auto end = std::end(pairs);
-- 
2.43.0


From dc78bab5d39ca9f156bbbe147fcbad0d240b32fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 34/69] fix: the lenient scalar accessors of the immutable form
 were declared but not defined

---
 include/dart/buffer/primitive.tcc | 20 ++++++++++++++++++++
 include/dart/buffer/string.tcc    | 10 ++++++++++
 2 files changed, 30 insertions(+)

diff --git a/include/dart/buffer/primitive.tcc b/include/dart/buffer/primitive.tcc
index ce24836..e2d0c3e 100644
--- a/include/dart/buffer/primitive.tcc
+++ b/include/dart/buffer/primitive.tcc
@@ -14,11 +14,21 @@ namespace dart {
     return detail::integer_deref([] (auto& val) { return val.get_data(); }, raw);
   }
 
+  template <template <class> class RefCount>
+  int64_t basic_buffer<RefCount>::integer_or(int64_t opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_integer, &basic_buffer::integer);
+  }
+
   template <template <class> class RefCount>
   double basic_buffer<RefCount>::decimal() const {
     return detail::decimal_deref([] (auto& val) { return val.get_data(); }, raw);
   }
 
+  template <template <class> class RefCount>
+  double basic_buffer<RefCount>::decimal_or(double opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_decimal, &basic_buffer::decimal);
+  }
+
   template <template <class> class RefCount>
   double basic_buffer<RefCount>::numeric() const {
     switch (get_type()) {
@@ -31,12 +41,22 @@ namespace dart {
     }
   }
 
+  template <template <class> class RefCount>
+  double basic_buffer<RefCount>::numeric_or(double opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_numeric, &basic_buffer::numeric);
+  }
+
   template <template <class> class RefCount>
   bool basic_buffer<RefCount>::boolean() const {
     if (is_boolean()) return detail::get_primitive<bool>(raw)->get_data();
     else throw type_error("dart::buffer has no boolean value");
   }
 
+  template <template <class> class RefCount>
+  bool basic_buffer<RefCount>::boolean_or(bool opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_boolean, &basic_buffer::boolean);
+  }
+
 }
 
 #endif
diff --git a/include/dart/buffer/string.tcc b/include/dart/buffer/string.tcc
index 72ecf7d..2761c69 100644
--- a/include/dart/buffer/string.tcc
+++ b/include/dart/buffer/string.tcc
@@ -14,11 +14,21 @@ namespace dart {
     return strv().data();
   }
 
+  template <template <class> class RefCount>
+  char const* basic_buffer<RefCount>::str_or(char const* opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_str, &basic_buffer::str);
+  }
+
   template <template <class> class RefCount>
   shim::string_view basic_buffer<RefCount>::strv() const {
     return detail::string_deref([] (auto& val) { return val.get_strv(); }, raw);
   }
 
+  template <template <class> class RefCount>
+  shim::string_view basic_buffer<RefCount>::strv_or(shim::string_view opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_str, &basic_buffer::strv);
+  }
+
 }
 
 #endif
-- 
2.43.0


From 20812b7a00fa70ee27cdecbf85ac96f9cf5541a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 35/69] fix: the constant reverse iterators were declared but
 not defined

---
 include/dart.h              |  4 ++--
 include/dart/api.tcc        | 20 ++++++++++++++++++++
 include/dart/buffer/api.tcc | 10 ++++++++++
 include/dart/heap/api.tcc   | 10 ++++++++++
 include/dart/packet/api.tcc | 10 ++++++++++
 5 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/include/dart.h b/include/dart.h
index d75f9ad..ad7ae3a 100644
--- a/include/dart.h
+++ b/include/dart.h
@@ -2987,7 +2987,7 @@ namespace dart {
        *  Function exists for API uniformity with the STL, but is precisely equal to
        *  dart::packet::rbegin.
        */
-      auto crbegin() const -> iterator;
+      auto crbegin() const -> reverse_iterator;
 
       /**
        *  @brief
@@ -3013,7 +3013,7 @@ namespace dart {
        *  Function exists for API uniformity with the STL, but is precisely equal to
        *  dart::packet::rbegin.
        */
-      auto crend() const -> iterator;
+      auto crend() const -> reverse_iterator;
 
       /*----- Member Ownership Helpers -----*/
 
diff --git a/include/dart/api.tcc b/include/dart/api.tcc
index 0d7c9b7..61a1dca 100644
--- a/include/dart/api.tcc
+++ b/include/dart/api.tcc
@@ -1043,21 +1043,41 @@ namespace dart {
     return val.rbegin();
   }
 
+  template <class Object>
+  auto basic_object<Object>::crbegin() const -> reverse_iterator {
+    return val.crbegin();
+  }
+
   template <class Array>
   auto basic_array<Array>::rbegin() const -> reverse_iterator {
     return val.rbegin();
   }
 
+  template <class Array>
+  auto basic_array<Array>::crbegin() const -> reverse_iterator {
+    return val.crbegin();
+  }
+
   template <class Object>
   auto basic_object<Object>::rend() const -> reverse_iterator {
     return val.rend();
   }
 
+  template <class Object>
+  auto basic_object<Object>::crend() const -> reverse_iterator {
+    return val.crend();
+  }
+
   template <class Array>
   auto basic_array<Array>::rend() const -> reverse_iterator {
     return val.rend();
   }
 
+  template <class Array>
+  auto basic_array<Array>::crend() const -> reverse_iterator {
+    return val.crend();
+  }
+
   template <class Object>
   auto basic_object<Object>::key_begin() const -> iterator {
     return val.key_begin();
diff --git a/include/dart/buffer/api.tcc b/include/dart/buffer/api.tcc
index 54e2e1a..105a735 100644
--- a/include/dart/buffer/api.tcc
+++ b/include/dart/buffer/api.tcc
@@ -394,11 +394,21 @@ namespace dart {
     return reverse_iterator {end()};
   }
 
+  template <template <class> class RefCount>
+  auto basic_buffer<RefCount>::crbegin() const -> reverse_iterator {
+    return rbegin();
+  }
+
   template <template <class> class RefCount>
   auto basic_buffer<RefCount>::rend() const -> reverse_iterator {
     return reverse_iterator {begin()};
   }
 
+  template <template <class> class RefCount>
+  auto basic_buffer<RefCount>::crend() const -> reverse_iterator {
+    return rend();
+  }
+
   template <template <class> class RefCount>
   auto basic_buffer<RefCount>::key_begin() const -> iterator {
     return iterator(*this, detail::get_object<RefCount>(raw)->key_begin());
diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index 1a917d4..f5d2991 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -557,11 +557,21 @@ namespace dart {
     return reverse_iterator {end()};
   }
 
+  template <template <class> class RefCount>
+  auto basic_heap<RefCount>::crbegin() const -> reverse_iterator {
+    return rbegin();
+  }
+
   template <template <class> class RefCount>
   auto basic_heap<RefCount>::rend() const -> reverse_iterator {
     return reverse_iterator {begin()};
   }
 
+  template <template <class> class RefCount>
+  auto basic_heap<RefCount>::crend() const -> reverse_iterator {
+    return rend();
+  }
+
   template <template <class> class RefCount>
   auto basic_heap<RefCount>::key_begin() const -> iterator {
     if (is_object()) {
diff --git a/include/dart/packet/api.tcc b/include/dart/packet/api.tcc
index 17349ce..42b1e60 100644
--- a/include/dart/packet/api.tcc
+++ b/include/dart/packet/api.tcc
@@ -410,11 +410,21 @@ namespace dart {
     return reverse_iterator {end()};
   }
 
+  template <template <class> class RefCount>
+  auto basic_packet<RefCount>::crbegin() const -> reverse_iterator {
+    return rbegin();
+  }
+
   template <template <class> class RefCount>
   auto basic_packet<RefCount>::rend() const -> reverse_iterator {
     return reverse_iterator {begin()};
   }
 
+  template <template <class> class RefCount>
+  auto basic_packet<RefCount>::crend() const -> reverse_iterator {
+    return rend();
+  }
+
   template <template <class> class RefCount>
   auto basic_packet<RefCount>::key_begin() const -> iterator {
     return shim::visit([] (auto& v) -> iterator { return v.key_begin(); }, impl);
-- 
2.43.0


From 8cdef02325680f0bbdd937268a1f4e44f15bb7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 36/69] fix: indexing into a mutable value that is not an array
 reported a range error instead of a type error

---
 include/dart/heap/array.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dart/heap/array.tcc b/include/dart/heap/array.tcc
index 758c90d..990f802 100644
--- a/include/dart/heap/array.tcc
+++ b/include/dart/heap/array.tcc
@@ -183,7 +183,8 @@ namespace dart {
 
   template <template <class> class RefCount>
   basic_heap<RefCount> basic_heap<RefCount>::at(size_type index) const {
-    if (index < size()) return get_elements()[index];
+    auto& elements = get_elements();
+    if (index < elements.size()) return elements[index];
     else throw std::out_of_range("dart::heap does not contain requested index");
   }
 
-- 
2.43.0


From 924c544b8e5781de47569cd19558911f04d5bf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:34 +0000
Subject: [PATCH 37/69] fix: comparing immutable values with an integral
 constant did not compile

---
 include/dart/conversions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index 5bdcb4f..6e340e6 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -1592,7 +1592,7 @@ namespace dart {
       // Equality
       template <class Packet>
       bool compare(Packet const& pkt, std::integral_constant<T, val>) {
-        return pkt == convert::cast<Packet>(val);
+        return pkt == val;
       }
     };
 
-- 
2.43.0


From 240b7f23e5c429cbea50a005c44b1ff920ce058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 38/69] fix: maps could not be compared with immutable values,
 nor nested maps with any

---
 include/dart/conversions.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index 6e340e6..fffc65b 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -662,7 +662,7 @@ namespace dart {
       // Equality
       template <class Packet, class =
         std::enable_if_t<
-          convert::is_castable<Key, Packet>::value
+          convert::is_castable<Key, basic_packet<std::shared_ptr>>::value
           &&
           convert::are_comparable<Key, Packet>::value
           &&
@@ -743,7 +743,7 @@ namespace dart {
       // Equality
       template <class Packet, class =
         std::enable_if_t<
-          convert::is_castable<Key, Packet>::value
+          convert::is_castable<Key, basic_packet<std::shared_ptr>>::value
           &&
           convert::are_comparable<Key, Packet>::value
           &&
@@ -830,7 +830,7 @@ namespace dart {
       // Equality
       template <class Packet, class =
         std::enable_if_t<
-          convert::is_castable<Key, Packet>::value
+          convert::is_castable<Key, basic_packet<std::shared_ptr>>::value
           &&
           convert::are_comparable<Key, Packet>::value
           &&
@@ -912,7 +912,7 @@ namespace dart {
       // Equality
       template <class Packet, class =
         std::enable_if_t<
-          convert::is_castable<Key, Packet>::value
+          convert::is_castable<Key, basic_packet<std::shared_ptr>>::value
           &&
           convert::are_comparable<Key, Packet>::value
           &&
-- 
2.43.0


From ba6e9b636a04f48822deb20cc8b715c1e9265eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 39/69] fix: comparing an array with a shorter forward_list
 read past its end

---
 include/dart/conversions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index fffc65b..c2c4607 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -599,7 +599,7 @@ namespace dart {
         auto it = lst.cbegin();
         typename Packet::view v = pkt;
         for (auto val : v) {
-          if (val != *it) return false;
+          if (it == lst.cend() || val != *it) return false;
           ++it;
         }
         return it == lst.cend();
-- 
2.43.0


From 3532c4131aac1e05a0f51c426e34693cc4fe4d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 40/69] fix: a dynamic null value did not report itself as a
 primitive, unlike the documentation and the typed null

---
 include/dart/buffer/api.tcc | 2 +-
 include/dart/heap/api.tcc   | 2 +-
 include/dart/packet/api.tcc | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dart/buffer/api.tcc b/include/dart/buffer/api.tcc
index 105a735..8052376 100644
--- a/include/dart/buffer/api.tcc
+++ b/include/dart/buffer/api.tcc
@@ -347,7 +347,7 @@ namespace dart {
 
   template <template <class> class RefCount>
   bool basic_buffer<RefCount>::is_primitive() const noexcept {
-    return !is_object() && !is_array() && !is_null();
+    return !is_object() && !is_array();
   }
 
   template <template <class> class RefCount>
diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index f5d2991..a5436a1 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -474,7 +474,7 @@ namespace dart {
 
   template <template <class> class RefCount>
   bool basic_heap<RefCount>::is_primitive() const noexcept {
-    return !is_object() && !is_array() && !is_null();
+    return !is_object() && !is_array();
   }
 
   template <template <class> class RefCount>
diff --git a/include/dart/packet/api.tcc b/include/dart/packet/api.tcc
index 42b1e60..7dcc542 100644
--- a/include/dart/packet/api.tcc
+++ b/include/dart/packet/api.tcc
@@ -367,7 +367,7 @@ namespace dart {
 
   template <template <class> class RefCount>
   bool basic_packet<RefCount>::is_primitive() const noexcept {
-    return !is_object() && !is_array() && !is_null();
+    return !is_object() && !is_array();
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From 579d3c2d6d8d255d6c6d9f6d4fe518595db8e9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:16 +0000
Subject: [PATCH 41/69] fix: arithmetic assignment to a typed number of a
 finalized document aborted the process

---
 include/dart.h             | 16 ++++++++--------
 include/dart/primitive.tcc | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/dart.h b/include/dart.h
index ad7ae3a..2792dd7 100644
--- a/include/dart.h
+++ b/include/dart.h
@@ -3882,56 +3882,56 @@ namespace dart {
           meta::is_detected<make_decimal_t, Number, Arg>::value
         >
       >
-      basic_number& operator +=(Arg val) noexcept;
+      basic_number& operator +=(Arg val);
 
       template <class Arg, class EnableIf =
         std::enable_if_t<
           meta::is_detected<make_decimal_t, Number, Arg>::value
         >
       >
-      basic_number& operator -=(Arg val) noexcept;
+      basic_number& operator -=(Arg val);
 
       template <class Arg, class EnableIf =
         std::enable_if_t<
           meta::is_detected<make_decimal_t, Number, Arg>::value
         >
       >
-      basic_number& operator *=(Arg val) noexcept;
+      basic_number& operator *=(Arg val);
 
       template <class Arg, class EnableIf =
         std::enable_if_t<
           meta::is_detected<make_decimal_t, Number, Arg>::value
         >
       >
-      basic_number& operator /=(Arg val) noexcept;
+      basic_number& operator /=(Arg val);
 
       template <class Num = Number, class EnableIf =
         std::enable_if_t<
           meta::is_detected<make_decimal_t, Num, double>::value
         >
       >
-      basic_number& operator ++() noexcept;
+      basic_number& operator ++();
 
       template <class Num = Number, class EnableIf =
         std::enable_if_t<
           meta::is_detected<make_decimal_t, Num, double>::value
         >
       >
-      basic_number& operator --() noexcept;
+      basic_number& operator --();
 
       template <class Num = Number, class EnableIf =
         std::enable_if_t<
           meta::is_detected<make_decimal_t, Num, double>::value
         >
       >
-      basic_number operator ++(int) noexcept;
+      basic_number operator ++(int);
 
       template <class Num = Number, class EnableIf =
         std::enable_if_t<
           meta::is_detected<make_decimal_t, Num, double>::value
         >
       >
-      basic_number operator --(int) noexcept;
+      basic_number operator --(int);
 
       /**
        *  @brief
diff --git a/include/dart/primitive.tcc b/include/dart/primitive.tcc
index fcc43ab..85a528e 100644
--- a/include/dart/primitive.tcc
+++ b/include/dart/primitive.tcc
@@ -29,49 +29,49 @@ namespace dart {
 
   template <class Number>
   template <class Arg, class EnableIf>
-  basic_number<Number>& basic_number<Number>::operator +=(Arg val) noexcept {
+  basic_number<Number>& basic_number<Number>::operator +=(Arg val) {
     this->val = numeric() + val;
     return *this;
   }
 
   template <class Number>
   template <class Arg, class EnableIf>
-  basic_number<Number>& basic_number<Number>::operator -=(Arg val) noexcept {
+  basic_number<Number>& basic_number<Number>::operator -=(Arg val) {
     this->val = numeric() - val;
     return *this;
   }
 
   template <class Number>
   template <class Arg, class EnableIf>
-  basic_number<Number>& basic_number<Number>::operator *=(Arg val) noexcept {
+  basic_number<Number>& basic_number<Number>::operator *=(Arg val) {
     this->val = numeric() * val;
     return *this;
   }
 
   template <class Number>
   template <class Arg, class EnableIf>
-  basic_number<Number>& basic_number<Number>::operator /=(Arg val) noexcept {
+  basic_number<Number>& basic_number<Number>::operator /=(Arg val) {
     this->val = numeric() / val;
     return *this;
   }
 
   template <class Number>
   template <class Num, class EnableIf>
-  basic_number<Number>& basic_number<Number>::operator ++() noexcept {
+  basic_number<Number>& basic_number<Number>::operator ++() {
     val = numeric() + 1;
     return *this;
   }
 
   template <class Number>
   template <class Num, class EnableIf>
-  basic_number<Number>& basic_number<Number>::operator --() noexcept {
+  basic_number<Number>& basic_number<Number>::operator --() {
     val = numeric() - 1;
     return *this;
   }
 
   template <class Number>
   template <class Num, class EnableIf>
-  basic_number<Number> basic_number<Number>::operator ++(int) noexcept {
+  basic_number<Number> basic_number<Number>::operator ++(int) {
     auto copy = *this;
     val = numeric() + 1;
     return copy;
@@ -79,7 +79,7 @@ namespace dart {
 
   template <class Number>
   template <class Num, class EnableIf>
-  basic_number<Number> basic_number<Number>::operator --(int) noexcept {
+  basic_number<Number> basic_number<Number>::operator --(int) {
     auto copy = *this;
     val = numeric() - 1;
     return copy;
-- 
2.43.0


From 7fb786a36820680c98728838bb0d33ff17bf3882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:56 +0000
Subject: [PATCH 42/69] fix: arithmetic assignment rebinds typed numbers like
 every other typed assignment

---
 include/dart.h             | 16 ++++++++--------
 include/dart/primitive.tcc | 32 ++++++++++++++++----------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/include/dart.h b/include/dart.h
index 2792dd7..ad7ae3a 100644
--- a/include/dart.h
+++ b/include/dart.h
@@ -3882,56 +3882,56 @@ namespace dart {
           meta::is_detected<make_decimal_t, Number, Arg>::value
         >
       >
-      basic_number& operator +=(Arg val);
+      basic_number& operator +=(Arg val) noexcept;
 
       template <class Arg, class EnableIf =
         std::enable_if_t<
           meta::is_detected<make_decimal_t, Number, Arg>::value
         >
       >
-      basic_number& operator -=(Arg val);
+      basic_number& operator -=(Arg val) noexcept;
 
       template <class Arg, class EnableIf =
         std::enable_if_t<
           meta::is_detected<make_decimal_t, Number, Arg>::value
         >
       >
-      basic_number& operator *=(Arg val);
+      basic_number& operator *=(Arg val) noexcept;
 
       template <class Arg, class EnableIf =
         std::enable_if_t<
           meta::is_detected<make_decimal_t, Number, Arg>::value
         >
       >
-      basic_number& operator /=(Arg val);
+      basic_number& operator /=(Arg val) noexcept;
 
       template <class Num = Number, class EnableIf =
         std::enable_if_t<
           meta::is_detected<make_decimal_t, Num, double>::value
         >
       >
-      basic_number& operator ++();
+      basic_number& operator ++() noexcept;
 
       template <class Num = Number, class EnableIf =
         std::enable_if_t<
           meta::is_detected<make_decimal_t, Num, double>::value
         >
       >
-      basic_number& operator --();
+      basic_number& operator --() noexcept;
 
       template <class Num = Number, class EnableIf =
         std::enable_if_t<
           meta::is_detected<make_decimal_t, Num, double>::value
         >
       >
-      basic_number operator ++(int);
+      basic_number operator ++(int) noexcept;
 
       template <class Num = Number, class EnableIf =
         std::enable_if_t<
           meta::is_detected<make_decimal_t, Num, double>::value
         >
       >
-      basic_number operator --(int);
+      basic_number operator --(int) noexcept;
 
       /**
        *  @brief
diff --git a/include/dart/primitive.tcc b/include/dart/primitive.tcc
index 85a528e..ebd48be 100644
--- a/include/dart/primitive.tcc
+++ b/include/dart/primitive.tcc
@@ -29,59 +29,59 @@ namespace dart {
 
   template <class Number>
   template <class Arg, class EnableIf>
-  basic_number<Number>& basic_number<Number>::operator +=(Arg val) {
-    this->val = numeric() + val;
+  basic_number<Number>& basic_number<Number>::operator +=(Arg val) noexcept {
+    this->val = convert::cast<value_type>(numeric() + val);
     return *this;
   }
 
   template <class Number>
   template <class Arg, class EnableIf>
-  basic_number<Number>& basic_number<Number>::operator -=(Arg val) {
-    this->val = numeric() - val;
+  basic_number<Number>& basic_number<Number>::operator -=(Arg val) noexcept {
+    this->val = convert::cast<value_type>(numeric() - val);
     return *this;
   }
 
   template <class Number>
   template <class Arg, class EnableIf>
-  basic_number<Number>& basic_number<Number>::operator *=(Arg val) {
-    this->val = numeric() * val;
+  basic_number<Number>& basic_number<Number>::operator *=(Arg val) noexcept {
+    this->val = convert::cast<value_type>(numeric() * val);
     return *this;
   }
 
   template <class Number>
   template <class Arg, class EnableIf>
-  basic_number<Number>& basic_number<Number>::operator /=(Arg val) {
-    this->val = numeric() / val;
+  basic_number<Number>& basic_number<Number>::operator /=(Arg val) noexcept {
+    this->val = convert::cast<value_type>(numeric() / val);
     return *this;
   }
 
   template <class Number>
   template <class Num, class EnableIf>
-  basic_number<Number>& basic_number<Number>::operator ++() {
-    val = numeric() + 1;
+  basic_number<Number>& basic_number<Number>::operator ++() noexcept {
+    this->val = convert::cast<value_type>(numeric() + 1);
     return *this;
   }
 
   template <class Number>
   template <class Num, class EnableIf>
-  basic_number<Number>& basic_number<Number>::operator --() {
-    val = numeric() - 1;
+  basic_number<Number>& basic_number<Number>::operator --() noexcept {
+    this->val = convert::cast<value_type>(numeric() - 1);
     return *this;
   }
 
   template <class Number>
   template <class Num, class EnableIf>
-  basic_number<Number> basic_number<Number>::operator ++(int) {
+  basic_number<Number> basic_number<Number>::operator ++(int) noexcept {
     auto copy = *this;
-    val = numeric() + 1;
+    this->val = convert::cast<value_type>(numeric() + 1);
     return copy;
   }
 
   template <class Number>
   template <class Num, class EnableIf>
-  basic_number<Number> basic_number<Number>::operator --(int) {
+  basic_number<Number> basic_number<Number>::operator --(int) noexcept {
     auto copy = *this;
-    val = numeric() - 1;
+    this->val = convert::cast<value_type>(numeric() - 1);
     return copy;
   }
 
-- 
2.43.0


From 02e248a4dd4dbb0cfc43a89b2cd1c0fda960e632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:21 +0000
Subject: [PATCH 43/69] fix: C interface taking a value that had to be
 converted left the source handle set

---
 src/generic.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/generic.cc b/src/generic.cc
index 5d0b574..bd92330 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -72,6 +72,8 @@ namespace {
         [key, len, val] (auto& dst) {
           return generic_access([&dst, key, len] (auto& val) {
             safe_insert(dst, string_view {key, len}, std::move(val));
+            // Values that had to be converted were copied, not moved from.
+            val = std::decay_t<decltype(val)> {};
           }, val);
         }
       ),
@@ -133,6 +135,8 @@ namespace {
         [key, len, val] (auto& dst) {
           return generic_access([&dst, key, len] (auto& val) {
             safe_set(dst, string_view {key, len}, std::move(val));
+            // Values that had to be converted were copied, not moved from.
+            val = std::decay_t<decltype(val)> {};
           }, val);
         }
       ),
@@ -201,7 +205,11 @@ namespace {
     return generic_access(
       mutable_visitor(
         [idx, val] (auto& dst) {
-          return generic_access([&dst, idx] (auto& val) { safe_insert(dst, idx, std::move(val)); }, val);
+          return generic_access([&dst, idx] (auto& val) {
+            safe_insert(dst, idx, std::move(val));
+            // Values that had to be converted were copied, not moved from.
+            val = std::decay_t<decltype(val)> {};
+          }, val);
         }
       ),
       dst
@@ -258,7 +266,11 @@ namespace {
     return generic_access(
       mutable_visitor(
         [idx, val] (auto& dst) {
-          return generic_access([&dst, idx] (auto& val) { safe_set(dst, idx, std::move(val)); }, val);
+          return generic_access([&dst, idx] (auto& val) {
+            safe_set(dst, idx, std::move(val));
+            // Values that had to be converted were copied, not moved from.
+            val = std::decay_t<decltype(val)> {};
+          }, val);
         }
       ),
       dst
-- 
2.43.0


From 58a2db09ac7c3649badb903233311a44fc70f5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 44/69] fix: dart_for_each over empty or non-aggregate values
 destroyed an unconstructed value

---
 include/dart/abi.h | 3 ++-
 src/generic.cc     | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/dart/abi.h b/include/dart/abi.h
index 2cac295..bfcc312 100644
--- a/include/dart/abi.h
+++ b/include/dart/abi.h
@@ -54,7 +54,8 @@
 #define DART_FOR_EACH_IMPL(aggr, value, it_func, it_name, err_name)                         \
   dart_iterator_t it_name;                                                                  \
   dart_err_t err_name = it_func(&it_name, aggr);                                            \
-  err_name = (err_name) ? err_name : dart_iterator_get_err(value, &it_name);                \
+  err_name = (err_name) ? (dart_iterator_init_err(&it_name), dart_init_err(value), err_name)\
+      : dart_iterator_get_err(value, &it_name);                                             \
   for (; !dart_iterator_done_destroy(&it_name, value) && err_name == DART_NO_ERROR;         \
           err_name = (dart_iterator_next(&it_name),                                         \
                       dart_destroy(value),                                                  \
diff --git a/src/generic.cc b/src/generic.cc
index bd92330..478822c 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -648,9 +648,9 @@ namespace {
   }
 
   dart_err_t dart_iterator_get_err_impl(dart_packet_t* dst, dart_iterator_t const* src) {
-    // Initialize.
-    dst->rtti.p_id = DART_PACKET;
-    dart_rc_propagate(dst, src);
+    // Initialize to null, so that the caller can destroy the value even if we fail.
+    auto ret = dart_init_rc_err(dst, src->rtti.rc_id);
+    if (ret) return ret;
     return iterator_access(
       [dst] (auto& src_curr, auto& src_end) {
         // XXX: Yikes.
@@ -663,7 +663,7 @@ namespace {
         // compute the type we actually need to initialize here.
         using type = typename std::decay_t<decltype(src_curr)>::value_type::generic_type;
         if (src_curr == src_end) throw std::runtime_error("dart_iterator has been exhausted");
-        return packet_construct([&src_curr] (type* dst) { new(dst) type(*src_curr); }, dst);
+        return packet_unwrap([&src_curr] (type& dst) { dst = type(*src_curr); }, dst);
       },
       src
     );
-- 
2.43.0


From 5032282b79ba7eba22254c1e37ba57a72436923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:19 +0000
Subject: [PATCH 45/69] fix: dart_to_buffer refused immutable values other than
 objects

---
 src/generic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generic.cc b/src/generic.cc
index 478822c..9f01479 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -475,7 +475,7 @@ namespace {
     return generic_access(
       [=] (auto& src) {
         auto tmp {src};
-        return buffer_construct([&tmp] (auto* dst) { safe_construct(dst, std::move(tmp).lift()); }, dst);
+        return buffer_construct([&tmp] (auto* dst) { safe_construct(dst, std::move(tmp).lower()); }, dst);
       },
       src
     );
-- 
2.43.0


From ccacc4aa12b0d2d7b5330db91db5039bc8ebcc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 46/69] fix: C format constructors leaked or exposed a partial
 value when the format was wrong

---
 src/generic.cc | 20 ++++++++++++--------
 src/heap.cc    | 20 ++++++++++++--------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/generic.cc b/src/generic.cc
index 9f01479..8ce6356 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -788,12 +788,14 @@ extern "C" {
     return packet_typed_constructor_access(
       compose(
         [format, args] (dart::packet& dst) mutable {
-          dst = dart::packet::make_object();
-          parse_pairs(dst, format, args);
+          auto val = dart::packet::make_object();
+          parse_pairs(val, format, args);
+          dst = std::move(val);
         },
         [format, args] (dart::unsafe_packet& dst) mutable {
-          dst = dart::unsafe_packet::make_object();
-          parse_pairs(dst, format, args);
+          auto val = dart::unsafe_packet::make_object();
+          parse_pairs(val, format, args);
+          dst = std::move(val);
         }
       ),
       dst,
@@ -871,12 +873,14 @@ extern "C" {
     return packet_typed_constructor_access(
       compose(
         [format, args] (dart::packet& dst) mutable {
-          dst = dart::packet::make_array();
-          parse_vals(dst, format, args);
+          auto val = dart::packet::make_array();
+          parse_vals(val, format, args);
+          dst = std::move(val);
         },
         [format, args] (dart::unsafe_packet& dst) mutable {
-          dst = dart::unsafe_packet::make_array();
-          parse_vals(dst, format, args);
+          auto val = dart::unsafe_packet::make_array();
+          parse_vals(val, format, args);
+          dst = std::move(val);
         }
       ),
       dst,
diff --git a/src/heap.cc b/src/heap.cc
index e49e273..9e4ee29 100644
--- a/src/heap.cc
+++ b/src/heap.cc
@@ -656,12 +656,14 @@ extern "C" {
     return heap_typed_constructor_access(
       compose(
         [format, args] (dart::heap& dst) mutable {
-          dst = dart::heap::make_object();
-          parse_pairs(dst, format, args);
+          auto val = dart::heap::make_object();
+          parse_pairs(val, format, args);
+          dst = std::move(val);
         },
         [format, args] (dart::unsafe_heap& dst) mutable {
-          dst = dart::unsafe_heap::make_object();
-          parse_pairs(dst, format, args);
+          auto val = dart::unsafe_heap::make_object();
+          parse_pairs(val, format, args);
+          dst = std::move(val);
         }
       ),
       dst,
@@ -739,12 +741,14 @@ extern "C" {
     return heap_typed_constructor_access(
       compose(
         [format, args] (dart::heap& dst) mutable {
-          dst = dart::heap::make_array();
-          parse_vals(dst, format, args);
+          auto val = dart::heap::make_array();
+          parse_vals(val, format, args);
+          dst = std::move(val);
         },
         [format, args] (dart::unsafe_heap& dst) mutable {
-          dst = dart::unsafe_heap::make_array();
-          parse_vals(dst, format, args);
+          auto val = dart::unsafe_heap::make_array();
+          parse_vals(val, format, args);
+          dst = std::move(val);
         }
       ),
       dst,
-- 
2.43.0


From dcdfee976cee286737e2d849f7d842be3138a7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 47/69] fix: a failed take through the C interface lost the
 value it was given

---
 src/generic.cc | 16 ++++++++--------
 src/heap.cc    | 24 ++++++++++++++++++++----
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/generic.cc b/src/generic.cc
index 8ce6356..7d4ad4e 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -71,8 +71,8 @@ namespace {
       mutable_visitor(
         [key, len, val] (auto& dst) {
           return generic_access([&dst, key, len] (auto& val) {
-            safe_insert(dst, string_view {key, len}, std::move(val));
-            // Values that had to be converted were copied, not moved from.
+            safe_insert(dst, string_view {key, len}, val);
+            // Moving into the call would lose the value if it were to throw.
             val = std::decay_t<decltype(val)> {};
           }, val);
         }
@@ -134,8 +134,8 @@ namespace {
       mutable_visitor(
         [key, len, val] (auto& dst) {
           return generic_access([&dst, key, len] (auto& val) {
-            safe_set(dst, string_view {key, len}, std::move(val));
-            // Values that had to be converted were copied, not moved from.
+            safe_set(dst, string_view {key, len}, val);
+            // Moving into the call would lose the value if it were to throw.
             val = std::decay_t<decltype(val)> {};
           }, val);
         }
@@ -206,8 +206,8 @@ namespace {
       mutable_visitor(
         [idx, val] (auto& dst) {
           return generic_access([&dst, idx] (auto& val) {
-            safe_insert(dst, idx, std::move(val));
-            // Values that had to be converted were copied, not moved from.
+            safe_insert(dst, idx, val);
+            // Moving into the call would lose the value if it were to throw.
             val = std::decay_t<decltype(val)> {};
           }, val);
         }
@@ -267,8 +267,8 @@ namespace {
       mutable_visitor(
         [idx, val] (auto& dst) {
           return generic_access([&dst, idx] (auto& val) {
-            safe_set(dst, idx, std::move(val));
-            // Values that had to be converted were copied, not moved from.
+            safe_set(dst, idx, val);
+            // Moving into the call would lose the value if it were to throw.
             val = std::decay_t<decltype(val)> {};
           }, val);
         }
diff --git a/src/heap.cc b/src/heap.cc
index 9e4ee29..0f72df0 100644
--- a/src/heap.cc
+++ b/src/heap.cc
@@ -31,7 +31,11 @@ namespace {
   }
 
   dart_err_t dart_heap_obj_insert_take_heap_len_impl(dart_heap_t* dst, char const* key, size_t len, dart_heap_t* val) {
-    auto insert = [=] (auto& dst, auto& val) { dst.insert(string_view {key, len}, std::move(val)); };
+    // Moving into the call would lose the value if it were to throw.
+    auto insert = [=] (auto& dst, auto& val) {
+      dst.insert(string_view {key, len}, val);
+      val = std::decay_t<decltype(val)> {};
+    };
     return heap_access(
       compose(
         [=] (dart::heap& dst) {
@@ -116,7 +120,11 @@ namespace {
   }
 
   dart_err_t dart_heap_obj_set_take_heap_len_impl(dart_heap_t* dst, char const* key, size_t len, dart_heap_t* val) {
-    auto set = [=] (auto& dst, auto& val) { dst.set(string_view {key, len}, std::move(val)); };
+    // Moving into the call would lose the value if it were to throw.
+    auto set = [=] (auto& dst, auto& val) {
+      dst.set(string_view {key, len}, val);
+      val = std::decay_t<decltype(val)> {};
+    };
     return heap_access(
       compose(
         [=] (dart::heap& dst) {
@@ -216,7 +224,11 @@ namespace {
   }
 
   dart_err_t dart_heap_arr_insert_take_heap_impl(dart_heap_t* dst, size_t idx, dart_heap_t* val) {
-    auto insert = [=] (auto& dst, auto& val) { dst.insert(idx, std::move(val)); };
+    // Moving into the call would lose the value if it were to throw.
+    auto insert = [=] (auto& dst, auto& val) {
+      dst.insert(idx, val);
+      val = std::decay_t<decltype(val)> {};
+    };
     return heap_access(
       compose(
         [=] (dart::heap& dst) {
@@ -301,7 +313,11 @@ namespace {
   }
 
   dart_err_t dart_heap_arr_set_take_heap_impl(dart_heap_t* dst, size_t idx, dart_heap_t* val) {
-    auto set = [=] (auto& dst, auto& val) { dst.set(idx, std::move(val)); };
+    // Moving into the call would lose the value if it were to throw.
+    auto set = [=] (auto& dst, auto& val) {
+      dst.set(idx, val);
+      val = std::decay_t<decltype(val)> {};
+    };
     return heap_access(
       compose(
         [=] (dart::heap& dst) {
-- 
2.43.0


From d89ed15c605782651752351a3ec575277c691888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 48/69] fix: arithmetic on byte ordered values converted or
 negated the operand first

So subtracting an unsigned number from a wider value added a large number,
multiplying an integer by 2.5 multiplied it by 2, and pointers did not compile.
---
 include/dart/support/ordered.tcc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/dart/support/ordered.tcc b/include/dart/support/ordered.tcc
index da6c253..f7dbc8f 100644
--- a/include/dart/support/ordered.tcc
+++ b/include/dart/support/ordered.tcc
@@ -87,63 +87,63 @@ namespace dart {
     template <class T, class O>
     template <class Operand, class EnableIf>
     auto ordered<T, O>::operator +=(Operand op) noexcept -> ordered& {
-      increment(op);
+      mutate([&] (auto v) { return v + op; });
       return *this;
     }
 
     template <class T, class O>
     template <class Operand, class EnableIf>
     auto ordered<T, O>::operator -=(Operand op) noexcept -> ordered& {
-      increment(-op);
+      mutate([&] (auto v) { return v - op; });
       return *this;
     }
 
     template <class T, class O>
     template <class Operand, class EnableIf>
     auto ordered<T, O>::operator *=(Operand op) noexcept -> ordered& {
-      scale(op);
+      mutate([&] (auto v) { return v * op; });
       return *this;
     }
 
     template <class T, class O>
     template <class Operand, class EnableIf>
     auto ordered<T, O>::operator /=(Operand op) noexcept -> ordered& {
-      shrink(op);
+      mutate([&] (auto v) { return v / op; });
       return *this;
     }
 
     template <class T, class O>
     template <class Operand, class EnableIf>
     auto ordered<T, O>::operator &=(Operand op) noexcept -> ordered& {
-      mask(op);
+      mutate([&] (auto v) { return v & op; });
       return *this;
     }
 
     template <class T, class O>
     template <class Operand, class EnableIf>
     auto ordered<T, O>::operator |=(Operand op) noexcept -> ordered& {
-      fill(op);
+      mutate([&] (auto v) { return v | op; });
       return *this;
     }
 
     template <class T, class O>
     template <class Operand, class EnableIf>
     auto ordered<T, O>::operator ^=(Operand op) noexcept -> ordered& {
-      flip(op);
+      mutate([&] (auto v) { return v ^ op; });
       return *this;
     }
 
     template <class T, class O>
     template <class Value, class EnableIf>
     auto ordered<T, O>::operator ++() noexcept -> ordered& {
-      increment(1);
+      mutate([] (auto v) { return ++v; });
       return *this;
     }
 
     template <class T, class O>
     template <class Value, class EnableIf>
     auto ordered<T, O>::operator --() noexcept -> ordered& {
-      increment(-1);
+      mutate([] (auto v) { return --v; });
       return *this;
     }
 
@@ -151,7 +151,7 @@ namespace dart {
     template <class Value, class EnableIf>
     auto ordered<T, O>::operator ++(int) noexcept -> value_type {
       auto that = get();
-      increment(1);
+      mutate([] (auto v) { return ++v; });
       return that;
     }
 
@@ -159,7 +159,7 @@ namespace dart {
     template <class Value, class EnableIf>
     auto ordered<T, O>::operator --(int) noexcept -> value_type {
       auto that = get();
-      increment(-1);
+      mutate([] (auto v) { return --v; });
       return that;
     }
 
-- 
2.43.0


From cf7ff61df26ca1589d68c066ff36b08f62d9e487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 49/69] fix: value() of a temporary optional did not compile

---
 include/dart/support/optional.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/support/optional.tcc b/include/dart/support/optional.tcc
index fc1f311..8caa848 100644
--- a/include/dart/support/optional.tcc
+++ b/include/dart/support/optional.tcc
@@ -233,13 +233,13 @@ namespace dart {
 
   template <class T>
   auto optional<T>::value() && -> value_type&& {
-    if (*this) return *access();
+    if (*this) return std::move(*access());
     else throw bad_optional_access {};
   }
 
   template <class T>
   auto optional<T>::value() const&& -> value_type const&& {
-    if (*this) return *access();
+    if (*this) return std::move(*access());
     else throw bad_optional_access {};
   }
 
-- 
2.43.0


From 8df1027bc7e9e54ac1f848e545cbf47ba7a281d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 50/69] fix: value_or went through the common type of the value
 and its default

---
 include/dart/support/optional.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/support/optional.tcc b/include/dart/support/optional.tcc
index 8caa848..c06938b 100644
--- a/include/dart/support/optional.tcc
+++ b/include/dart/support/optional.tcc
@@ -246,13 +246,13 @@ namespace dart {
   template <class T>
   template <class U, class EnableIf>
   auto optional<T>::value_or(U&& def) const& -> value_type {
-    return (*this) ? **this : std::forward<U>(def);
+    return (*this) ? **this : static_cast<value_type>(std::forward<U>(def));
   }
 
   template <class T>
   template <class U, class EnableIf>
   auto optional<T>::value_or(U&& def) && -> value_type {
-    return (*this) ? std::move(**this) : std::forward<U>(def);
+    return (*this) ? std::move(**this) : static_cast<value_type>(std::forward<U>(def));
   }
 
   template <class T>
-- 
2.43.0


From b54073e759bc6540a57a8e27c1fbfe5dbdd34dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 51/69] fix: the condition for assigning an optional of another
 type was negated

---
 include/dart/support/optional.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/dart/support/optional.h b/include/dart/support/optional.h
index c12b097..10aadc2 100644
--- a/include/dart/support/optional.h
+++ b/include/dart/support/optional.h
@@ -61,9 +61,8 @@ namespace dart {
 
     template <class T, class U>
     struct assignment_conversion_check {
-      static constexpr auto value = !(
-        constructor_conversion_check<T, U>::value
-        || std::is_assignable<T&, optional<U>&>::value
+      static constexpr auto value = constructor_conversion_check<T, U>::value && !(
+        std::is_assignable<T&, optional<U>&>::value
         || std::is_assignable<T&, optional<U> const&>::value
         || std::is_assignable<T&, optional<U>&&>::value
         || std::is_assignable<T&, optional<U> const&&>::value
-- 
2.43.0


From 292e5f7c196303c901618fda14e199e806a5667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 52/69] fix: counted pointers did not compile with deleters
 passed as lvalues

---
 include/dart/support/ptrs.h   | 2 +-
 include/dart/support/ptrs.tcc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/support/ptrs.h b/include/dart/support/ptrs.h
index 423d174..9bb5487 100644
--- a/include/dart/support/ptrs.h
+++ b/include/dart/support/ptrs.h
@@ -77,7 +77,7 @@ namespace dart {
         {}
         template <class Deleter>
         counted_ptr_base(ptr_type<T> ptr, Deleter&& deleter) :
-          value(new managed_ptr_eraser<counter_type, ptr_type<T>, Deleter>(ptr, 1, std::move(deleter)))
+          value(new managed_ptr_eraser<counter_type, ptr_type<T>, std::decay_t<Deleter>>(ptr, 1, std::forward<Deleter>(deleter)))
         {}
         template <class U, class EnableIf =
           std::enable_if_t<
diff --git a/include/dart/support/ptrs.tcc b/include/dart/support/ptrs.tcc
index 9ad51bf..a7fe337 100644
--- a/include/dart/support/ptrs.tcc
+++ b/include/dart/support/ptrs.tcc
@@ -210,7 +210,7 @@ namespace dart {
     template <class T, class Counter>
     template <class U, class Deleter, class EnableIf>
     void counted_ptr_base<T, Counter>::reset(U ptr, Deleter&& deleter) {
-      counted_ptr_base tmp(ptr, std::move(deleter));
+      counted_ptr_base tmp(ptr, std::forward<Deleter>(deleter));
       *this = std::move(tmp);
     }
 
-- 
2.43.0


From f6c1d74780184036360d671c6d07333bb0875007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 53/69] fix: counted pointers leaked what they were given when
 they could not allocate

---
 include/dart/support/ptrs.h   |  6 ++----
 include/dart/support/ptrs.tcc | 12 ++++++++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/dart/support/ptrs.h b/include/dart/support/ptrs.h
index 9bb5487..008f2a3 100644
--- a/include/dart/support/ptrs.h
+++ b/include/dart/support/ptrs.h
@@ -73,12 +73,10 @@ namespace dart {
         counted_ptr_base() noexcept : value(nullptr) {}
         counted_ptr_base(std::nullptr_t) noexcept : value(nullptr) {}
         explicit counted_ptr_base(ptr_type<T> ptr) :
-          value(new managed_ptr_eraser<counter_type, ptr_type<T>, managed_ptr_deleter<ptr_type<T>>>(ptr, 1))
+          counted_ptr_base(ptr, managed_ptr_deleter<ptr_type<T>> {})
         {}
         template <class Deleter>
-        counted_ptr_base(ptr_type<T> ptr, Deleter&& deleter) :
-          value(new managed_ptr_eraser<counter_type, ptr_type<T>, std::decay_t<Deleter>>(ptr, 1, std::forward<Deleter>(deleter)))
-        {}
+        counted_ptr_base(ptr_type<T> ptr, Deleter&& deleter);
         template <class U, class EnableIf =
           std::enable_if_t<
             std::is_convertible<ptr_type<U>, ptr_type<T>>::value
diff --git a/include/dart/support/ptrs.tcc b/include/dart/support/ptrs.tcc
index a7fe337..1a11e60 100644
--- a/include/dart/support/ptrs.tcc
+++ b/include/dart/support/ptrs.tcc
@@ -26,6 +26,18 @@ namespace dart {
       deleter(reinterpret_cast<std::decay_t<PtrType>>(this->ptr));
     }
 
+    template <class T, class Counter>
+    template <class Deleter>
+    counted_ptr_base<T, Counter>::counted_ptr_base(ptr_type<T> ptr, Deleter&& deleter) : value(nullptr) {
+      // We own the pointer from the moment we're called, so it can't be leaked if we fail.
+      try {
+        value = new managed_ptr_eraser<Counter, ptr_type<T>, std::decay_t<Deleter>>(ptr, 1, std::forward<Deleter>(deleter));
+      } catch (...) {
+        deleter(ptr);
+        throw;
+      }
+    }
+
     template <class T, class Counter>
     template <class U, class EnableIf>
     counted_ptr_base<T, Counter>::counted_ptr_base(counted_ptr_base<U, Counter> const& other) noexcept :
-- 
2.43.0


From 901279c392b533c4a84ab09e150f341c322c3eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 54/69] fix: ownership of a unique_ptr was released twice when
 sharing it ran out of memory

---
 include/dart/support/ptrs.tcc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dart/support/ptrs.tcc b/include/dart/support/ptrs.tcc
index 1a11e60..ee1bc63 100644
--- a/include/dart/support/ptrs.tcc
+++ b/include/dart/support/ptrs.tcc
@@ -257,8 +257,9 @@ namespace dart {
   shareable_ptr<T>::shareable_ptr(std::unique_ptr<U, D>&& ptr)
     noexcept(refcount_traits<T>::template can_nothrow_take<U*, D>::value)
   {
-    refcount_traits<T>::take(&impl, ptr.get(), std::move(ptr.get_deleter()));
-    ptr.release();
+    // Ownership is transferred even on failure, so we can't let ptr free it a second time.
+    auto* owned = ptr.release();
+    refcount_traits<T>::take(&impl, owned, std::move(ptr.get_deleter()));
   }
 
   template <class T>
-- 
2.43.0


From 04e36bb75d25e290d8bbd76f1132c6077405618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 55/69] fix: moving out of a pointer owned by the target read
 freed memory

---
 include/dart/support/ptrs.tcc | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/include/dart/support/ptrs.tcc b/include/dart/support/ptrs.tcc
index ee1bc63..810249b 100644
--- a/include/dart/support/ptrs.tcc
+++ b/include/dart/support/ptrs.tcc
@@ -102,12 +102,9 @@ namespace dart {
     template <class U, class EnableIf>
     counted_ptr_base<T, Counter>&
     counted_ptr_base<T, Counter>::operator =(counted_ptr_base<U, Counter>&& other) noexcept {
-      if (value == other.value) return *this;
-
-      // Defer to destructor and move constructor to keep from copying stateful, easy to screw up, code
-      // all over the place.
-      this->~counted_ptr_base();
-      new(this) counted_ptr_base(std::move(other));
+      // What we own may own the other pointer, so let go of it last.
+      counted_ptr_base tmp(std::move(other));
+      std::swap(value, tmp.value);
       return *this;
     }
 
@@ -123,12 +120,9 @@ namespace dart {
 
     template <class T, class Counter>
     counted_ptr_base<T, Counter>& counted_ptr_base<T, Counter>::operator =(counted_ptr_base&& other) noexcept {
-      if (this == &other) return *this;
-
-      // Defer to destructor and move constructor to keep from copying stateful, easy to screw up, code
-      // all over the place.
-      this->~counted_ptr_base();
-      new(this) counted_ptr_base(std::move(other));
+      // What we own may own the other pointer, so let go of it last.
+      counted_ptr_base tmp(std::move(other));
+      std::swap(value, tmp.value);
       return *this;
     }
 
@@ -208,8 +202,9 @@ namespace dart {
 
     template <class T, class Counter>
     void counted_ptr_base<T, Counter>::reset() noexcept {
-      this->~counted_ptr_base();
-      new(this) counted_ptr_base();
+      // Be empty before anything is destroyed, as destroying it may come back to us.
+      counted_ptr_base tmp;
+      std::swap(value, tmp.value);
     }
 
     template <class T, class Counter>
@@ -309,8 +304,10 @@ namespace dart {
     // XXX: If you have a throwing move constructor, you get what you deserve.
     // I'm not allocating to avoid this, and I'm definitely not adding a "valueless by exception" state.
     // Good people don't throw from move constructors.
+    // What we own may own the other pointer, so take it over before letting go.
+    shareable_ptr tmp {std::move(other)};
     this->~shareable_ptr();
-    new(this) shareable_ptr(std::move(other));
+    new(this) shareable_ptr(std::move(tmp));
     return *this;
   }
 
@@ -335,8 +332,10 @@ namespace dart {
     // I'm not allocating to avoid this, and I'm definitely not adding a "valueless by exception" state.
     // Good people don't throw from move constructors.
     if (this == &other) return *this;
+    // What we own may own the other pointer, so take it over before letting go.
+    shareable_ptr tmp {std::move(other)};
     this->~shareable_ptr();
-    new(this) shareable_ptr(std::move(other));
+    new(this) shareable_ptr(std::move(tmp));
     return *this;
   }
 
-- 
2.43.0


From d79baf5eac10b143ce20bf1484d7cc8eba442ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 56/69] fix: counted pointers owning a null pointer were
 neither null nor equal to null

---
 include/dart/support/ptrs.tcc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dart/support/ptrs.tcc b/include/dart/support/ptrs.tcc
index 810249b..9c975d9 100644
--- a/include/dart/support/ptrs.tcc
+++ b/include/dart/support/ptrs.tcc
@@ -149,7 +149,7 @@ namespace dart {
 
     template <class T, class Counter>
     bool counted_ptr_base<T, Counter>::operator ==(counted_ptr_base const& other) const noexcept {
-      return value == other.value;
+      return get() == other.get();
     }
 
     template <class T, class Counter>
@@ -159,27 +159,27 @@ namespace dart {
 
     template <class T, class Counter>
     bool counted_ptr_base<T, Counter>::operator <(counted_ptr_base const& other) const noexcept {
-      return value < other.value;
+      return get() < other.get();
     }
 
     template <class T, class Counter>
     bool counted_ptr_base<T, Counter>::operator <=(counted_ptr_base const& other) const noexcept {
-      return value <= other.value;
+      return get() <= other.get();
     }
 
     template <class T, class Counter>
     bool counted_ptr_base<T, Counter>::operator >(counted_ptr_base const& other) const noexcept {
-      return value > other.value;
+      return get() > other.get();
     }
 
     template <class T, class Counter>
     bool counted_ptr_base<T, Counter>::operator >=(counted_ptr_base const& other) const noexcept {
-      return value >= other.value;
+      return get() >= other.get();
     }
 
     template <class T, class Counter>
     counted_ptr_base<T, Counter>::operator bool() const noexcept {
-      return value != nullptr;
+      return get() != nullptr;
     }
 
     template <class T, class Counter>
-- 
2.43.0


From d5abce6fe7d0874a9f7a188f30d2546d8bf8d196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 57/69] fix: an empty unique_ptr made a counted pointer with an
 owner

---
 include/dart/support/ptrs.tcc | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/dart/support/ptrs.tcc b/include/dart/support/ptrs.tcc
index 9c975d9..5a83e65 100644
--- a/include/dart/support/ptrs.tcc
+++ b/include/dart/support/ptrs.tcc
@@ -56,15 +56,13 @@ namespace dart {
 
     template <class T, class Counter>
     template <class U, class Deleter, class EnableIf>
-    counted_ptr_base<T, Counter>::counted_ptr_base(std::unique_ptr<U, Deleter>&& ptr) :
-      value(
-        new managed_ptr_eraser<
-          Counter,
-          ptr_type<typename std::unique_ptr<U, Deleter>::element_type>,
-          Deleter
-        >(ptr.get(), 1, std::move(ptr.get_deleter()))
-      )
-    {
+    counted_ptr_base<T, Counter>::counted_ptr_base(std::unique_ptr<U, Deleter>&& ptr) : value(nullptr) {
+      if (!ptr) return;
+      value = new managed_ptr_eraser<
+        Counter,
+        ptr_type<typename std::unique_ptr<U, Deleter>::element_type>,
+        Deleter
+      >(ptr.get(), 1, std::move(ptr.get_deleter()));
       ptr.release();
     }
 
-- 
2.43.0


From 21236a888e30bb1db83472106469e3a638b3af21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 58/69] fix: string_view::find terminated on positions near the
 largest

---
 include/dart/support/string_view.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/support/string_view.tcc b/include/dart/support/string_view.tcc
index 5d8aef4..2c79add 100644
--- a/include/dart/support/string_view.tcc
+++ b/include/dart/support/string_view.tcc
@@ -219,10 +219,10 @@ namespace dart {
     -> size_type
   {
     // Short circuit if we can't possibly contain the target.
-    if (target.size() + offset > size()) return npos;
+    if (target.size() > size()) return npos;
 
     // Search until we find it or walk off the end.
-    while (offset + target.size() <= size()) {
+    while (offset <= size() - target.size()) {
       if (compare(offset, target.size(), target) == 0) return offset;
       ++offset;
     }
-- 
2.43.0


From b46c03508775eb624fd02a2abf0ecd6a8759c27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 59/69] fix: string_view::compare terminated instead of
 reporting a position out of range

---
 include/dart/support/string_view.h   | 4 ++--
 include/dart/support/string_view.tcc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dart/support/string_view.h b/include/dart/support/string_view.h
index 84f3ee1..8a781d3 100644
--- a/include/dart/support/string_view.h
+++ b/include/dart/support/string_view.h
@@ -106,9 +106,9 @@ namespace dart {
       constexpr int compare(size_type offset_one, size_type count_one,
           basic_string_view other, size_type offset_two, size_type count_two) const;
       constexpr int compare(const_pointer other) const noexcept;
-      constexpr int compare(size_type offset, size_type count, const_pointer other) const noexcept;
+      constexpr int compare(size_type offset, size_type count, const_pointer other) const;
       constexpr int compare(size_type offset,
-          size_type count_one, const_pointer other, size_type count_two) const noexcept;
+          size_type count_one, const_pointer other, size_type count_two) const;
 
       // Prefix/suffix checks.
       constexpr bool starts_with(basic_string_view other) const noexcept;
diff --git a/include/dart/support/string_view.tcc b/include/dart/support/string_view.tcc
index 2c79add..ab24825 100644
--- a/include/dart/support/string_view.tcc
+++ b/include/dart/support/string_view.tcc
@@ -174,13 +174,13 @@ namespace dart {
 
   template <class CharT, class Traits>
   constexpr int basic_string_view<CharT, Traits>::compare(size_type offset,
-      size_type count, const_pointer other) const noexcept {
+      size_type count, const_pointer other) const {
     return substr(offset, count).compare(basic_string_view {other});
   }
 
   template <class CharT, class Traits>
   constexpr int basic_string_view<CharT, Traits>::compare(size_type offset,
-      size_type count_one, const_pointer other, size_type count_two) const noexcept {
+      size_type count_one, const_pointer other, size_type count_two) const {
     return substr(offset, count_one).compare(basic_string_view {other, count_two});
   }
 
-- 
2.43.0


From 52ee33559ef8d65fd1c4178fde405108918d86cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 60/69] fix: writing a string_view to a stream read past its
 end

---
 include/dart/support/string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/support/string_view.h b/include/dart/support/string_view.h
index 8a781d3..a1c0ca8 100644
--- a/include/dart/support/string_view.h
+++ b/include/dart/support/string_view.h
@@ -204,8 +204,8 @@ namespace dart {
   template <class CharT, class Traits>
   std::basic_ostream<CharT, Traits>&
   operator <<(std::basic_ostream<CharT, Traits>& os, basic_string_view<CharT, Traits> str) {
-    // Not standard compliant, and will fail with embedded nulls, but it'll work.
-    return (os << str.data());
+    // Not the cheapest way to do it, but views aren't terminated, and this gets the formatting right.
+    return (os << std::basic_string<CharT, Traits>(str.begin(), str.end()));
   }
 
   using string_view = basic_string_view<char>;
-- 
2.43.0


From 7295ec571232e5703962b1f60a28545e1d2f23f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 61/69] fix: subnormal YAML decimals were read as strings

---
 include/dart/connector/yaml.tcc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dart/connector/yaml.tcc b/include/dart/connector/yaml.tcc
index e6de052..9121119 100644
--- a/include/dart/connector/yaml.tcc
+++ b/include/dart/connector/yaml.tcc
@@ -185,7 +185,10 @@ namespace dart {
         // It's either a decimal, or it's a string.
         errno = 0;
         double second_try = strtod(str, &problem);
-        if (!errno && problem - str == len) return parse_state {type::decimal, 0, second_try};
+
+        // Subnormal values are reported as out of range, but are perfectly good decimals.
+        bool in_range = !errno || (errno == ERANGE && std::fpclassify(second_try) == FP_SUBNORMAL);
+        if (in_range && problem - str == len) return parse_state {type::decimal, 0, second_try};
         return parse_state {type::string, 0, 0.0};
       }
     }
-- 
2.43.0


From dc42042aeea3105d499b589e36f9cd964fd6463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 62/69] fix: heap aggregates with different reference counters
 never compared equal

---
 include/dart/conversion_traits.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/dart/conversion_traits.h b/include/dart/conversion_traits.h
index 75d5513..98088fe 100644
--- a/include/dart/conversion_traits.h
+++ b/include/dart/conversion_traits.h
@@ -209,6 +209,9 @@ namespace dart {
         return TargetPacket {std::forward<Packet>(pkt)};
       }
 
+      template <class Lhs, class Rhs>
+      bool generic_compare(Lhs const& lhs, Rhs const& rhs) noexcept;
+
       // Struct is basically a switch table of different Dart comparison operations
       // where both lhs and rhs are known to be specializations of the same Dart
       // template, even if instantiated with different reference counters.
@@ -216,6 +219,17 @@ namespace dart {
       struct typed_compare;
       template <template <class> class RefCount>
       struct typed_compare<basic_heap<RefCount>> {
+        // Views hold the collections of their owners.
+        template <class OtherHeap>
+        struct is_same_representation;
+        template <template <class> class OtherCount>
+        struct is_same_representation<basic_heap<OtherCount>> :
+          std::is_same<
+            refcount::owner_indirection_t<basic_heap, RefCount>,
+            refcount::owner_indirection_t<basic_heap, OtherCount>
+          >
+        {};
+
         template <class OtherHeap>
         static bool compare(basic_heap<RefCount> const& lhs, OtherHeap const& rhs) noexcept {
           // Check if we're comparing against ourselves.
@@ -227,6 +241,10 @@ namespace dart {
           if (lhs.is_null() && rhs.is_null()) return true;
           else if (lhs.get_type() != rhs.get_type()) return false;
 
+          // Collections of values with different reference counters are of unrelated types,
+          // and cannot be compared directly.
+          if (!is_same_representation<OtherHeap>::value && lhs.is_aggregate()) return generic_compare(lhs, rhs);
+
           // Defer to our underlying representation.
           return shim::visit([] (auto& lhs, auto& rhs) {
             using Lhs = std::decay_t<decltype(lhs)>;
-- 
2.43.0


From 413ced4580478222164226ab1b1c19795cf7691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:03 +0000
Subject: [PATCH 63/69] fix: make_shareable destroyed a pointer whose
 construction failed

---
 include/dart/support/ptrs.h   | 5 ++++-
 include/dart/support/ptrs.tcc | 5 ++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/dart/support/ptrs.h b/include/dart/support/ptrs.h
index 008f2a3..e46650f 100644
--- a/include/dart/support/ptrs.h
+++ b/include/dart/support/ptrs.h
@@ -363,7 +363,10 @@ namespace dart {
 
       /*----- Private Lifecycle Functions -----*/
 
-      shareable_ptr(partial_construction_tag) {}
+      template <class... Args>
+      shareable_ptr(partial_construction_tag, Args&&... the_args) {
+        refcount_traits<T>::construct(&impl, std::forward<Args>(the_args)...);
+      }
 
       /*----- Private Members -----*/
 
diff --git a/include/dart/support/ptrs.tcc b/include/dart/support/ptrs.tcc
index 5a83e65..3b53e53 100644
--- a/include/dart/support/ptrs.tcc
+++ b/include/dart/support/ptrs.tcc
@@ -444,9 +444,8 @@ namespace dart {
 
   template <class T, class... Args>
   shareable_ptr<T> make_shareable(Args&&... the_args) {
-    shareable_ptr<T> ptr(typename shareable_ptr<T>::partial_construction_tag {});
-    refcount_traits<T>::construct(&ptr.impl, std::forward<Args>(the_args)...);
-    return ptr;
+    // Construction happens inside of the constructor so that nothing is destroyed if it fails.
+    return shareable_ptr<T>(typename shareable_ptr<T>::partial_construction_tag {}, std::forward<Args>(the_args)...);
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From 92e6227a0bbc1b60481a0846d905091c92071ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:26 +0000
Subject: [PATCH 64/69] fix: parsing JSON into a buffer terminated when memory
 ran out while sorting keys

---
 include/dart/array.tcc  | 2 +-
 include/dart/common.h   | 4 ++--
 include/dart/object.tcc | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dart/array.tcc b/include/dart/array.tcc
index 6c59712..6ebb702 100644
--- a/include/dart/array.tcc
+++ b/include/dart/array.tcc
@@ -208,7 +208,7 @@ namespace dart {
 
 #if DART_HAS_RAPIDJSON
     template <template <class> class RefCount>
-    array<RefCount>::array(rapidjson::Value const& vals) noexcept :
+    array<RefCount>::array(rapidjson::Value const& vals) :
       elems(static_cast<uint32_t>(vals.Size()))
     {
       // Iterate over our elements and write each one into the buffer.
diff --git a/include/dart/common.h b/include/dart/common.h
index a7146be..b8d9fde 100644
--- a/include/dart/common.h
+++ b/include/dart/common.h
@@ -629,7 +629,7 @@ namespace dart {
         explicit object(sajson::value fields) noexcept;
 #endif
 #if DART_HAS_RAPIDJSON
-        explicit object(rapidjson::Value const& fields) noexcept;
+        explicit object(rapidjson::Value const& fields);
 #endif
 
         // Direct constructors
@@ -722,7 +722,7 @@ namespace dart {
         explicit array(sajson::value elems) noexcept;
 #endif
 #if DART_HAS_RAPIDJSON
-        explicit array(rapidjson::Value const& elems) noexcept;
+        explicit array(rapidjson::Value const& elems);
 #endif
         array(packet_elements<RefCount> const* elems) noexcept;
         array(array const&) = delete;
diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 7c909b2..018f914 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -244,7 +244,7 @@ namespace dart {
 
 #if DART_HAS_RAPIDJSON
     template <template <class> class RefCount>
-    object<RefCount>::object(rapidjson::Value const& fields) noexcept : elems(0) {
+    object<RefCount>::object(rapidjson::Value const& fields) : elems(0) {
       using sorter = std::vector<rapidjson::Value::ConstMemberIterator>;
 
       // Sort our fields real quick.
-- 
2.43.0


From 03a0f5315a2451e3d0e35fa43d871182ea2aa82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 65/69] fix: values of custom reference counters were destroyed
 twice when memory ran out

---
 include/dart/refcount_traits.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/dart/refcount_traits.h b/include/dart/refcount_traits.h
index b3027ed..19780c9 100644
--- a/include/dart/refcount_traits.h
+++ b/include/dart/refcount_traits.h
@@ -32,13 +32,8 @@ namespace dart {
         >
       >
       static void perform(T* that, Args&&... the_args) {
-        auto* owner = new typename T::element_type(std::forward<Args>(the_args)...);
-        try {
-          new(that) T(owner);
-        } catch (...) {
-          delete owner;
-          throw;
-        }
+        // The pointer owns what it's given, even if it fails to be constructed.
+        new(that) T(new typename T::element_type(std::forward<Args>(the_args)...));
       }
 
     };
-- 
2.43.0


From ade9318bc8b33429e4592116657b1fa2d8d666f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 66/69] fix: taking ownership of bytes released them twice when
 memory ran out

---
 include/dart/buffer/detail.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dart/buffer/detail.tcc b/include/dart/buffer/detail.tcc
index 372a50e..bea01a0 100644
--- a/include/dart/buffer/detail.tcc
+++ b/include/dart/buffer/detail.tcc
@@ -46,9 +46,9 @@ namespace dart {
     // This whole business is necessary to allow std::unique_ptr<gsl::byte const[]>
     // to convert to std::shared_ptr<gsl::byte const>, which the STL doesn't define
     // a conversion for, but is convenient for this library.
-    buffer_ref_type tmp(ptr.get(), std::move(ptr.get_deleter()));
-    ptr.release();
-    return tmp;
+    // Ownership is transferred even on failure, so we can't let ptr free it a second time.
+    auto* owned = ptr.release();
+    return buffer_ref_type(owned, std::move(ptr.get_deleter()));
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From 58d2c9ccc8e6867e9e79fcdfb438745395b0d62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:20 +0000
Subject: [PATCH 67/69] fix: the C interface wrote JSON through null when
 memory ran out

---
 src/buffer.cc  | 1 +
 src/generic.cc | 1 +
 src/heap.cc    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/buffer.cc b/src/buffer.cc
index ff56675..f163cfb 100644
--- a/src/buffer.cc
+++ b/src/buffer.cc
@@ -123,6 +123,7 @@ namespace {
       auto inlen = instr.size();
       if (len) *len = inlen;
       outstr = reinterpret_cast<char*>(malloc(inlen + 1));
+      if (!outstr) throw std::bad_alloc();
       memcpy(outstr, instr.data(), inlen + 1);
     };
     auto ret = buffer_access(
diff --git a/src/generic.cc b/src/generic.cc
index 7d4ad4e..649d34b 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -449,6 +449,7 @@ namespace {
         auto inlen = instr.size();
         if (len) *len = inlen;
         outstr = reinterpret_cast<char*>(malloc(inlen + 1));
+        if (!outstr) throw std::bad_alloc();
         memcpy(outstr, instr.data(), inlen + 1);
       },
       src
diff --git a/src/heap.cc b/src/heap.cc
index 0f72df0..6181d01 100644
--- a/src/heap.cc
+++ b/src/heap.cc
@@ -532,6 +532,7 @@ namespace {
       auto inlen = instr.size();
       if (len) *len = inlen;
       outstr = reinterpret_cast<char*>(malloc(inlen + 1));
+      if (!outstr) throw std::bad_alloc();
       memcpy(outstr, instr.data(), inlen + 1);
     };
     auto ret = heap_access(
-- 
2.43.0


From f59088675b4a44ecb26c874dfe879f2c3c1ec888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:13 +0000
Subject: [PATCH 68/69] fix: the C interface terminated when memory ran out
 while reporting an error

---
 src/helpers.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/helpers.h b/src/helpers.h
index 7c7c2ab..d2b98a0 100644
--- a/src/helpers.h
+++ b/src/helpers.h
@@ -581,6 +581,15 @@ namespace {
     return iterator_construct([&] (auto* begin, auto* end) { std::forward<Func>(cb)(*begin, *end); }, it);
   }
 
+  // Updates the global error string.
+  // Runs inside of error handlers, so it can't be allowed to fail.
+  inline void set_error(char const* msg) noexcept try {
+    dart::detail::errmsg = msg;
+  } catch (...) {
+    // Message is short enough that it doesn't need to allocate.
+    dart::detail::errmsg = "out of memory";
+  }
+
   // Function is a top level error handler for all code in the ABI
   // Catches all exceptions, turns them into corresponding error codes
   // and updates the global error string.
@@ -588,22 +597,22 @@ namespace {
   dart_err_t err_handler(Func&& cb) noexcept try {
     return std::forward<Func>(cb)();
   } catch (dart::type_error const& err) {
-    dart::detail::errmsg = err.what();
+    set_error(err.what());
     return DART_TYPE_ERROR;
   } catch (dart::state_error const& err) {
-    dart::detail::errmsg = err.what();
+    set_error(err.what());
     return DART_STATE_ERROR;
   } catch (dart::parse_error const& err) {
-    dart::detail::errmsg = err.what();
+    set_error(err.what());
     return DART_PARSE_ERROR;
   } catch (std::logic_error const& err) {
-    dart::detail::errmsg = err.what();
+    set_error(err.what());
     return DART_LOGIC_ERROR;
   } catch (std::runtime_error const& err) {
-    dart::detail::errmsg = err.what();
+    set_error(err.what());
     return DART_RUNTIME_ERROR;
   } catch (...) {
-    dart::detail::errmsg = "Dart caught an unexpected error type. This is a bug, please make a report";
+    set_error("Dart caught an unexpected error type. This is a bug, please make a report");
     return DART_UNKNOWN_ERROR;
   }
 
-- 
2.43.0


From a7ccea14c29b55d9431596f26deb0cf0ddc14dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:33 +0000
Subject: [PATCH 69/69] fix: writes of a last owner were not ordered after the
 reads of former owners in other threads

---
 include/dart/heap/detail.tcc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dart/heap/detail.tcc b/include/dart/heap/detail.tcc
index 9474205..955a3b8 100644
--- a/include/dart/heap/detail.tcc
+++ b/include/dart/heap/detail.tcc
@@ -57,6 +57,10 @@ namespace dart {
     if (refcount() > overcount) {
       if (is_object()) data = fields_type(new packet_fields(get_fields()));
       else if (is_array()) data = elements_type(new packet_elements(get_elements()));
+    } else {
+      // We're the only owner left, but former owners may have been other threads,
+      // so make sure they finished reading before we start to write.
+      std::atomic_thread_fence(std::memory_order_acquire);
     }
   }
 
-- 
2.43.0

