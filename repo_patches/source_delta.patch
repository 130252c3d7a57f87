From 8599a1ae167e5d7e276c513035d7c38727f12460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:07 +0000
Subject: [PATCH 01/28] fix: bounds-check MsgPack headers and payloads, skip
 iteratively

Truncated or hostile MsgPack input could make the reader read past the end of
the buffer, hand out string/blob views larger than the input, wrap 32-bit
length sums, or exhaust the stack through deeply nested containers.
---
 include/zerialize/protocols/msgpack.hpp | 138 +++++++++++-------------
 1 file changed, 60 insertions(+), 78 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 9127f04..fad44cc 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -31,78 +31,56 @@ inline uint64_t mp_read_be64(const uint8_t* p) {
            (uint64_t(p[4]) << 24) | (uint64_t(p[5]) << 16) | (uint64_t(p[6]) << 8) | uint64_t(p[7]);
 }
 
-// Forward decl
-inline size_t mp_skip(std::span<const uint8_t>);
+// Throws unless the first `need` bytes of `v` are present; returns `need`.
+inline size_t mp_need(std::span<const uint8_t> v, size_t need) {
+    if (v.size() < need) throw DeserializationError("msgpack: truncated");
+    return need;
+}
 
 // ===== minimal element skipper (for iterators / indexing) ====================
+// Iterative, so that nesting depth in (untrusted) input cannot exhaust the stack.
 inline size_t mp_skip(std::span<const uint8_t> v) {
-    if (v.empty()) throw DeserializationError("msgpack: empty in skip");
-    const uint8_t m = v[0];
-
-    // Single byte: nil/bool/fixint/neg fixint
-    if ((m <= 0x7f) || (m >= 0xe0) || m == 0xc0 || m == 0xc2 || m == 0xc3) return 1;
-
-    // fixstr
-    if ((m & 0xe0) == 0xa0) return 1 + (m & 0x1f);
-    // fixarray
-    if ((m & 0xf0) == 0x90) {
-        size_t n = m & 0x0f, off = 1;
-        for (size_t i = 0; i < n; ++i) { auto s = mp_skip(v.subspan(off)); off += s; }
-        return off;
-    }
-    // fixmap
-    if ((m & 0xf0) == 0x80) {
-        size_t n = m & 0x0f, off = 1;
-        for (size_t i = 0; i < n; ++i) {
-            auto ks = mp_skip(v.subspan(off)); off += ks;
-            auto vs = mp_skip(v.subspan(off)); off += vs;
-        }
-        return off;
-    }
-
-    switch (m) {
-        // ints / floats
-        case 0xcc: case 0xd0: return 2;
-        case 0xcd: case 0xd1: return 3;
-        case 0xce: case 0xd2: case 0xca: return 5;
-        case 0xcf: case 0xd3: case 0xcb: return 9;
-
-        // str
-        case 0xd9: { if (v.size() < 2) throw DeserializationError("str8");  return 2 + v[1]; }
-        case 0xda: { if (v.size() < 3) throw DeserializationError("str16"); return 3 + mp_read_be16(v.data()+1); }
-        case 0xdb: { if (v.size() < 5) throw DeserializationError("str32"); return 5 + mp_read_be32(v.data()+1); }
-
-        // bin
-        case 0xc4: { if (v.size() < 2) throw DeserializationError("bin8");  return 2 + v[1]; }
-        case 0xc5: { if (v.size() < 3) throw DeserializationError("bin16"); return 3 + mp_read_be16(v.data()+1); }
-        case 0xc6: { if (v.size() < 5) throw DeserializationError("bin32"); return 5 + mp_read_be32(v.data()+1); }
-
-        // arrays
-        case 0xdc: {
-            if (v.size() < 3) throw DeserializationError("array16");
-            size_t n = mp_read_be16(v.data()+1), off = 3;
-            for (size_t i=0;i<n;++i){ auto s=mp_skip(v.subspan(off)); off+=s; } return off;
-        }
-        case 0xdd: {
-            if (v.size() < 5) throw DeserializationError("array32");
-            size_t n = mp_read_be32(v.data()+1), off = 5;
-            for (size_t i=0;i<n;++i){ auto s=mp_skip(v.subspan(off)); off+=s; } return off;
-        }
-
-        // maps
-        case 0xde: {
-            if (v.size() < 3) throw DeserializationError("map16");
-            size_t n = mp_read_be16(v.data()+1), off = 3;
-            for (size_t i=0;i<n;++i){ auto ks=mp_skip(v.subspan(off)); off+=ks; auto vs=mp_skip(v.subspan(off)); off+=vs; } return off;
-        }
-        case 0xdf: {
-            if (v.size() < 5) throw DeserializationError("map32");
-            size_t n = mp_read_be32(v.data()+1), off = 5;
-            for (size_t i=0;i<n;++i){ auto ks=mp_skip(v.subspan(off)); off+=ks; auto vs=mp_skip(v.subspan(off)); off+=vs; } return off;
+    size_t off = 0;
+    // number of values still to be skipped, including nested elements
+    for (size_t pending = 1; pending > 0; --pending) {
+        const auto cur = v.subspan(off);
+        if (cur.empty()) throw DeserializationError("msgpack: empty in skip");
+        const uint8_t m = cur[0];
+
+        // Single byte: nil/bool/fixint/neg fixint
+        if ((m <= 0x7f) || (m >= 0xe0) || m == 0xc0 || m == 0xc2 || m == 0xc3) { off += 1; continue; }
+
+        // fixstr
+        if ((m & 0xe0) == 0xa0) { off += mp_need(cur, 1 + (m & 0x1f)); continue; }
+        // fixarray
+        if ((m & 0xf0) == 0x90) { off += 1; pending += (m & 0x0f); continue; }
+        // fixmap
+        if ((m & 0xf0) == 0x80) { off += 1; pending += 2 * size_t(m & 0x0f); continue; }
+
+        switch (m) {
+            // ints / floats
+            case 0xcc: case 0xd0: off += mp_need(cur, 2); break;
+            case 0xcd: case 0xd1: off += mp_need(cur, 3); break;
+            case 0xce: case 0xd2: case 0xca: off += mp_need(cur, 5); break;
+            case 0xcf: case 0xd3: case 0xcb: off += mp_need(cur, 9); break;
+
+            // str / bin
+            case 0xd9: case 0xc4: mp_need(cur, 2); off += mp_need(cur, 2 + size_t(cur[1])); break;
+            case 0xda: case 0xc5: mp_need(cur, 3); off += mp_need(cur, 3 + size_t(mp_read_be16(cur.data()+1))); break;
+            case 0xdb: case 0xc6: mp_need(cur, 5); off += mp_need(cur, 5 + size_t(mp_read_be32(cur.data()+1))); break;
+
+            // arrays
+            case 0xdc: off += mp_need(cur, 3); pending += mp_read_be16(cur.data()+1); break;
+            case 0xdd: off += mp_need(cur, 5); pending += mp_read_be32(cur.data()+1); break;
+
+            // maps
+            case 0xde: off += mp_need(cur, 3); pending += 2 * size_t(mp_read_be16(cur.data()+1)); break;
+            case 0xdf: off += mp_need(cur, 5); pending += 2 * size_t(mp_read_be32(cur.data()+1)); break;
+
+            default: throw DeserializationError("msgpack: unsupported marker");
         }
-        default: break;
     }
-    throw DeserializationError("msgpack: unsupported marker");
+    return off;
 }
 
 // ===== Deserializer ==========================================================
@@ -114,32 +92,36 @@ class MsgPackDeserializer {
 
     // helpers: decode headers
     static void str_info(std::span<const uint8_t> v, const uint8_t*& p, size_t& len) {
+        mp_need(v, 1);
         const uint8_t m = v[0];
-        if ((m & 0xe0) == 0xa0) { len = (m & 0x1f); p = v.data()+1; return; }
-        if (m == 0xd9) { len = v[1]; p=v.data()+2; return; }
-        if (m == 0xda) { len = mp_read_be16(v.data()+1); p=v.data()+3; return; }
-        if (m == 0xdb) { len = mp_read_be32(v.data()+1); p=v.data()+5; return; }
+        if ((m & 0xe0) == 0xa0) { len = (m & 0x1f); mp_need(v, 1+len); p = v.data()+1; return; }
+        if (m == 0xd9) { mp_need(v, 2); len = v[1]; mp_need(v, 2+len); p=v.data()+2; return; }
+        if (m == 0xda) { mp_need(v, 3); len = mp_read_be16(v.data()+1); mp_need(v, 3+len); p=v.data()+3; return; }
+        if (m == 0xdb) { mp_need(v, 5); len = mp_read_be32(v.data()+1); mp_need(v, 5+len); p=v.data()+5; return; }
         throw DeserializationError("msgpack: not a string");
     }
     static void bin_info(std::span<const uint8_t> v, const uint8_t*& p, size_t& len) {
+        mp_need(v, 1);
         const uint8_t m = v[0];
-        if (m == 0xc4) { len = v[1]; p=v.data()+2; return; }
-        if (m == 0xc5) { len = mp_read_be16(v.data()+1); p=v.data()+3; return; }
-        if (m == 0xc6) { len = mp_read_be32(v.data()+1); p=v.data()+5; return; }
+        if (m == 0xc4) { mp_need(v, 2); len = v[1]; mp_need(v, 2+len); p=v.data()+2; return; }
+        if (m == 0xc5) { mp_need(v, 3); len = mp_read_be16(v.data()+1); mp_need(v, 3+len); p=v.data()+3; return; }
+        if (m == 0xc6) { mp_need(v, 5); len = mp_read_be32(v.data()+1); mp_need(v, 5+len); p=v.data()+5; return; }
         throw DeserializationError("msgpack: not a bin");
     }
     static void arr_info(std::span<const uint8_t> v, size_t& count, size_t& off) {
+        mp_need(v, 1);
         const uint8_t m = v[0];
         if ((m & 0xf0) == 0x90) { count = (m & 0x0f); off = 1; return; }
-        if (m == 0xdc) { count = mp_read_be16(v.data()+1); off = 3; return; }
-        if (m == 0xdd) { count = mp_read_be32(v.data()+1); off = 5; return; }
+        if (m == 0xdc) { mp_need(v, 3); count = mp_read_be16(v.data()+1); off = 3; return; }
+        if (m == 0xdd) { mp_need(v, 5); count = mp_read_be32(v.data()+1); off = 5; return; }
         throw DeserializationError("msgpack: not an array");
     }
     static void map_info(std::span<const uint8_t> v, size_t& count, size_t& off) {
+        mp_need(v, 1);
         const uint8_t m = v[0];
         if ((m & 0xf0) == 0x80) { count = (m & 0x0f); off = 1; return; }
-        if (m == 0xde) { count = mp_read_be16(v.data()+1); off = 3; return; }
-        if (m == 0xdf) { count = mp_read_be32(v.data()+1); off = 5; return; }
+        if (m == 0xde) { mp_need(v, 3); count = mp_read_be16(v.data()+1); off = 3; return; }
+        if (m == 0xdf) { mp_need(v, 5); count = mp_read_be32(v.data()+1); off = 5; return; }
         throw DeserializationError("msgpack: not a map");
     }
 
-- 
2.43.0


From b3a07627f661dccbf8bbee11dad420a105a0f83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:16 +0000
Subject: [PATCH 02/28] fix: MsgPack asInt64/asUInt64 reject out-of-range
 values instead of wrapping

---
 include/zerialize/protocols/msgpack.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index fad44cc..cdca6eb 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -10,6 +10,7 @@
 #include <stdexcept>
 #include <sstream>
 #include <iterator>
+#include <limits>
 #include <type_traits>
 
 #include <msgpack.h> // for the writer
@@ -284,7 +285,11 @@ public:
         if (m==0xcc){ if(view_.size()<2) throw DeserializationError("u8");  return uint8_t(view_[1]); }
         if (m==0xcd){ if(view_.size()<3) throw DeserializationError("u16"); return uint16_t(mp_read_be16(view_.data()+1)); }
         if (m==0xce){ if(view_.size()<5) throw DeserializationError("u32"); return uint32_t(mp_read_be32(view_.data()+1)); }
-        if (m==0xcf){ if(view_.size()<9) throw DeserializationError("u64"); return uint64_t(mp_read_be64(view_.data()+1)); }
+        if (m==0xcf){ if(view_.size()<9) throw DeserializationError("u64");
+            uint64_t u = mp_read_be64(view_.data()+1);
+            if (u > uint64_t(std::numeric_limits<std::int64_t>::max())) throw DeserializationError("int64 out of range");
+            return int64_t(u);
+        }
         throw DeserializationError("not int");
     }
     
@@ -320,8 +325,10 @@ public:
         if (m==0xcd){ if(view_.size()<3) throw DeserializationError("u16"); return mp_read_be16(view_.data()+1); }
         if (m==0xce){ if(view_.size()<5) throw DeserializationError("u32"); return mp_read_be32(view_.data()+1); }
         if (m==0xcf){ if(view_.size()<9) throw DeserializationError("u64"); return mp_read_be64(view_.data()+1); }
-        // fall back for signed fix/neg
-        return uint64_t(asInt64());
+        // fall back for signed widths / negative fixint
+        int64_t i = asInt64();
+        if (i < 0) throw DeserializationError("uint64 out of range");
+        return uint64_t(i);
     }
     
     float asFloat() const {
-- 
2.43.0


From 101ed01e22f1178e491e6b3005c75c8d46833f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:16 +0000
Subject: [PATCH 03/28] fix: Zera mapKeys() iterator bounds-checks before
 reading and does not refer to the value view

Dereferencing a key near the end of the envelope read its length before
checking bounds, and the key range kept a pointer to the (often temporary)
value view it was obtained from.
---
 include/zerialize/protocols/zera.hpp | 36 ++++++++++++++++++----------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index b474e42..650d639 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -195,11 +195,14 @@ protected:
         return std::span<const std::byte>(reinterpret_cast<const std::byte*>(arena_ + ofs), len);
     }
 
+    static const std::uint8_t* ptr_at(const std::uint8_t* env, std::size_t env_size, std::size_t ofs, std::size_t need) {
+        require(ofs <= env_size, "zera: envelope offset out of bounds");
+        require(need <= env_size, "zera: envelope need out of bounds");
+        require(ofs + need <= env_size, "zera: envelope span out of bounds");
+        return env + ofs;
+    }
     const std::uint8_t* env_ptr_at(std::uint32_t ofs, std::size_t need) const {
-        require(ofs <= env_size_, "zera: envelope offset out of bounds");
-        require(need <= env_size_, "zera: envelope need out of bounds");
-        require(std::size_t(ofs) + need <= env_size_, "zera: envelope span out of bounds");
-        return env_ + ofs;
+        return ptr_at(env_, env_size_, ofs, need);
     }
 
     void require_flags_ok() const {
@@ -347,13 +350,17 @@ public:
     }
 
     // mapKeys() must be a forward range of string_view, zero-alloc.
+    // Refers to the envelope only, so it stays valid after the value view it came
+    // from (often a temporary) is gone.
     struct KeysView {
-        const ZeraViewBase* self = nullptr;
+        const std::uint8_t* env = nullptr;
+        std::size_t env_size = 0;
         const std::uint8_t* p = nullptr;
         std::uint32_t count = 0;
 
         struct iterator {
-            const ZeraViewBase* self = nullptr;
+            const std::uint8_t* env = nullptr;
+            std::size_t env_size = 0;
             const std::uint8_t* cur = nullptr;
             std::uint32_t i = 0;
             std::uint32_t n = 0;
@@ -365,27 +372,30 @@ public:
 
             reference operator*() const {
                 if (i >= n) ZeraViewBase::fail("zera: KeysView deref out of range");
+                const auto cur_ofs = std::size_t(cur - env);
+                (void)ptr_at(env, env_size, cur_ofs, 4);
                 const auto key_len = read_u16_le(cur);
-                (void)self->env_ptr_at(std::uint32_t(cur - self->env_), 4 + key_len + 16);
+                (void)ptr_at(env, env_size, cur_ofs, 4 + key_len + 16);
                 return std::string_view(reinterpret_cast<const char*>(cur + 4), key_len);
             }
 
             iterator& operator++() {
                 if (i >= n) return *this;
+                const auto cur_ofs = std::size_t(cur - env);
+                (void)ptr_at(env, env_size, cur_ofs, 4);
                 const auto key_len = read_u16_le(cur);
                 const std::size_t adv = 4 + std::size_t(key_len) + 16;
-                const auto cur_ofs = std::uint32_t(cur - self->env_);
-                cur = self->env_ptr_at(cur_ofs + std::uint32_t(adv), 0);
+                cur = ptr_at(env, env_size, cur_ofs + adv, 0);
                 ++i;
                 return *this;
             }
             iterator operator++(int) { iterator tmp = *this; ++(*this); return tmp; }
-            friend bool operator==(const iterator& a, const iterator& b) { return a.self==b.self && a.i==b.i && a.n==b.n; }
+            friend bool operator==(const iterator& a, const iterator& b) { return a.env==b.env && a.i==b.i && a.n==b.n; }
         };
 
-        iterator begin() const { return iterator{self, p, 0, count}; }
+        iterator begin() const { return iterator{env, env_size, p, 0, count}; }
         iterator end() const {
-            auto it = iterator{self, p, count, count};
+            auto it = iterator{env, env_size, p, count, count};
             return it;
         }
     };
@@ -397,7 +407,7 @@ public:
         const auto* p = env_ptr_at(obj_ofs, 4);
         const std::uint32_t count = read_u32_le(p);
         const auto* entries = env_ptr_at(obj_ofs + 4, 0);
-        return KeysView{this, entries, count};
+        return KeysView{env_, env_size_, entries, count};
     }
 
     bool contains(std::string_view key) const {
-- 
2.43.0


From 5e4a7fdb4e866fb9c19a2631179a8e7de1ed6954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:16 +0000
Subject: [PATCH 04/28] fix: Zera reader computes envelope offsets in size_t

32-bit arithmetic wrapped for large env_size / element offsets, so the header
overlap check and array/object bounds checks could be bypassed; an envelope
smaller than a ValueRef underflowed the root check.
---
 include/zerialize/protocols/zera.hpp | 30 ++++++++++++++--------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index 650d639..2fb7e1e 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -201,7 +201,7 @@ protected:
         require(ofs + need <= env_size, "zera: envelope span out of bounds");
         return env + ofs;
     }
-    const std::uint8_t* env_ptr_at(std::uint32_t ofs, std::size_t need) const {
+    const std::uint8_t* env_ptr_at(std::size_t ofs, std::size_t need) const {
         return ptr_at(env_, env_size_, ofs, need);
     }
 
@@ -406,7 +406,7 @@ public:
         const std::uint32_t obj_ofs = a();
         const auto* p = env_ptr_at(obj_ofs, 4);
         const std::uint32_t count = read_u32_le(p);
-        const auto* entries = env_ptr_at(obj_ofs + 4, 0);
+        const auto* entries = env_ptr_at(std::size_t(obj_ofs) + 4, 0);
         return KeysView{env_, env_size_, entries, count};
     }
 
@@ -416,16 +416,16 @@ public:
         const std::uint32_t obj_ofs = a();
         const auto* p = env_ptr_at(obj_ofs, 4);
         const std::uint32_t count = read_u32_le(p);
-        std::size_t ofs = obj_ofs + 4;
+        std::size_t ofs = std::size_t(obj_ofs) + 4;
         for (std::uint32_t i = 0; i < count; ++i) {
-            const auto* e = env_ptr_at(static_cast<std::uint32_t>(ofs), 4);
+            const auto* e = env_ptr_at(ofs, 4);
             const std::uint16_t key_len = read_u16_le(e);
             (void)read_u16_le(e + 2); // reserved
-            const auto* key_bytes = env_ptr_at(static_cast<std::uint32_t>(ofs + 4), key_len);
+            const auto* key_bytes = env_ptr_at(ofs + 4, key_len);
             if (key_len == key.size() &&
                 std::memcmp(key_bytes, key.data(), key.size()) == 0) return true;
             ofs += 4 + std::size_t(key_len) + 16;
-            (void)env_ptr_at(static_cast<std::uint32_t>(ofs), 0);
+            (void)env_ptr_at(ofs, 0);
         }
         return false;
     }
@@ -468,7 +468,7 @@ inline ZeraValue ZeraViewBase::operator[](std::size_t idx) const {
     const std::uint32_t count = read_u32_le(p);
     require(idx < count, "zera: array index out of bounds");
     const std::size_t elem_ofs = std::size_t(arr_ofs) + 4 + 16 * idx;
-    const auto* vr = env_ptr_at(static_cast<std::uint32_t>(elem_ofs), 16);
+    const auto* vr = env_ptr_at(elem_ofs, 16);
     return ZeraValue(*this, vr);
 }
 
@@ -478,18 +478,18 @@ inline ZeraValue ZeraViewBase::operator[](std::string_view key) const {
     const std::uint32_t obj_ofs = a();
     const auto* p = env_ptr_at(obj_ofs, 4);
     const std::uint32_t count = read_u32_le(p);
-    std::size_t ofs = obj_ofs + 4;
+    std::size_t ofs = std::size_t(obj_ofs) + 4;
     for (std::uint32_t i = 0; i < count; ++i) {
-        const auto* e = env_ptr_at(static_cast<std::uint32_t>(ofs), 4);
+        const auto* e = env_ptr_at(ofs, 4);
         const std::uint16_t key_len = read_u16_le(e);
         (void)read_u16_le(e + 2); // reserved
-        const auto* key_bytes = env_ptr_at(static_cast<std::uint32_t>(ofs + 4), key_len);
-        const auto* value_vr = env_ptr_at(static_cast<std::uint32_t>(ofs + 4 + key_len), 16);
+        const auto* key_bytes = env_ptr_at(ofs + 4, key_len);
+        const auto* value_vr = env_ptr_at(ofs + 4 + key_len, 16);
         if (key_len == key.size() && std::memcmp(key_bytes, key.data(), key.size()) == 0) {
             return ZeraValue(*this, value_vr);
         }
         ofs += 4 + std::size_t(key_len) + 16;
-        (void)env_ptr_at(static_cast<std::uint32_t>(ofs), 0);
+        (void)env_ptr_at(ofs, 0);
     }
     throw DeserializationError("zera: key not found: " + std::string(key));
 }
@@ -508,8 +508,8 @@ class ZeraDeserializer final : public ZeraViewBase {
         require(h.root_ofs < h.env_size, "zera: root_ofs out of bounds");
         require(h.arena_ofs <= buf.size(), "zera: arena_ofs out of bounds");
         require((h.arena_ofs % ArenaBaseAlign) == 0, "zera: arena_ofs not aligned");
-        require(h.arena_ofs >= HeaderSize + h.env_size, "zera: arena_ofs overlaps envelope");
-        require(HeaderSize + h.env_size <= h.arena_ofs, "zera: envelope exceeds arena_ofs");
+        require(h.arena_ofs >= HeaderSize + std::size_t(h.env_size), "zera: arena_ofs overlaps envelope");
+        require(HeaderSize + std::size_t(h.env_size) <= h.arena_ofs, "zera: envelope exceeds arena_ofs");
 
         buf_ = buf.data();
         buf_len_ = buf.size();
@@ -518,7 +518,7 @@ class ZeraDeserializer final : public ZeraViewBase {
         arena_ = buf_ + h.arena_ofs;
         arena_len_ = buf.size() - h.arena_ofs;
 
-        require(h.root_ofs <= env_size_ - 16, "zera: root ValueRef out of bounds");
+        require(env_size_ >= 16 && h.root_ofs <= env_size_ - 16, "zera: root ValueRef out of bounds");
         vr_ = env_ + h.root_ofs;
     }
 
-- 
2.43.0


From 17cffde7a0f1816ee4cdf96bb2a5a0716db1dc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:10 +0000
Subject: [PATCH 05/28] fix: Flex integer accessors accept either signedness
 and reject out-of-range values

asInt8..asUInt32 silently truncated, and a non-negative value stored as the
other signedness (as happens when translating from MsgPack) was rejected.
---
 include/zerialize/protocols/flex.hpp | 33 ++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 7a4a8ab..ac9f951 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -7,6 +7,7 @@
 #include <vector>
 #include <span>
 #include <stdexcept>
+#include <utility>
 #include <iostream>
 #include <zerialize/zbuffer.hpp>
 #include <zerialize/errors.hpp>
@@ -118,6 +119,20 @@ protected:
         if (!cond) throw DeserializationError(msg);
     }
 
+    // Integers of either signedness, provided the value is representable in T.
+    template<class T>
+    T as_integer(const char* msg) const {
+        if (ref_.IsInt()) {
+            const int64_t v = ref_.AsInt64();
+            require(std::in_range<T>(v), "integer out of range");
+            return static_cast<T>(v);
+        }
+        require(ref_.IsUInt(), msg);
+        const uint64_t v = ref_.AsUInt64();
+        require(std::in_range<T>(v), "integer out of range");
+        return static_cast<T>(v);
+    }
+
     static std::string json_escape(std::string_view s) {
         std::string out;
         out.reserve(s.size() + 4);
@@ -222,15 +237,15 @@ public:
     bool isArray()  const { return ref_.IsAnyVector() && !ref_.IsMap(); }
 
     // Scalars
-    int8_t   asInt8()   const { require(isInt(), "value is not a signed integer"); return ref_.AsInt8(); }
-    int16_t  asInt16()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt16(); }
-    int32_t  asInt32()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt32(); }
-    int64_t  asInt64()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt64(); }
-
-    uint8_t  asUInt8()  const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint8_t>(ref_.AsUInt8()); }
-    uint16_t asUInt16() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint16_t>(ref_.AsUInt16()); }
-    uint32_t asUInt32() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint32_t>(ref_.AsUInt32()); }
-    uint64_t asUInt64() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint64_t>(ref_.AsUInt64()); }
+    int8_t   asInt8()   const { return as_integer<int8_t>("value is not a signed integer"); }
+    int16_t  asInt16()  const { return as_integer<int16_t>("value is not a signed integer"); }
+    int32_t  asInt32()  const { return as_integer<int32_t>("value is not a signed integer"); }
+    int64_t  asInt64()  const { return as_integer<int64_t>("value is not a signed integer"); }
+
+    uint8_t  asUInt8()  const { return as_integer<uint8_t>("value is not an unsigned integer"); }
+    uint16_t asUInt16() const { return as_integer<uint16_t>("value is not an unsigned integer"); }
+    uint32_t asUInt32() const { return as_integer<uint32_t>("value is not an unsigned integer"); }
+    uint64_t asUInt64() const { return as_integer<uint64_t>("value is not an unsigned integer"); }
 
     float    asFloat()  const { require(isFloat(), "value is not a float"); return static_cast<float>(ref_.AsFloat()); }
     double   asDouble() const { require(isFloat(), "value is not a float"); return ref_.AsDouble(); }
-- 
2.43.0


From 82dcc8b301c36521ad08e8bc893cb20b1523a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:34 +0000
Subject: [PATCH 06/28] fix: reject tensors whose byte size overflows size_t

---
 include/zerialize/tensor/eigen.hpp   | 4 ++++
 include/zerialize/tensor/xtensor.hpp | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/include/zerialize/tensor/eigen.hpp b/include/zerialize/tensor/eigen.hpp
index 9145157..93306cb 100644
--- a/include/zerialize/tensor/eigen.hpp
+++ b/include/zerialize/tensor/eigen.hpp
@@ -3,6 +3,7 @@
 #include <array>
 #include <cstring>
 #include <cstdint>
+#include <limits>
 #include <optional>
 #include <span>
 #include <type_traits>
@@ -154,6 +155,9 @@ EigenMatrixView<T, NRows, NCols, Options> asEigenMatrixView(const Reader auto& b
     };
     auto bytes = to_span(blob);
 
+    if (cols != 0 && rows > std::numeric_limits<std::size_t>::max() / sizeof(T) / cols) {
+        throw DeserializationError("asEigenMatrixView: matrix size overflow");
+    }
     const std::size_t expected = rows * cols * sizeof(T);
     if (bytes.size() != expected) {
         throw DeserializationError(
diff --git a/include/zerialize/tensor/xtensor.hpp b/include/zerialize/tensor/xtensor.hpp
index 0a82e38..11b2361 100644
--- a/include/zerialize/tensor/xtensor.hpp
+++ b/include/zerialize/tensor/xtensor.hpp
@@ -147,6 +147,9 @@ XTensorView<T> asXTensorView(const Reader auto& buf) {
 
     // Validate payload size to avoid reading off the end, truncating, or leaving elements uninitialized.
     const std::size_t element_count = checked_element_count(vshape);
+    if (element_count > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+        throw DeserializationError("tensor byte size overflow");
+    }
     const std::size_t expected_bytes = element_count * sizeof(T);
     if (bytes.size() != expected_bytes) {
         throw DeserializationError(
-- 
2.43.0


From 6a41f9833f338e974fd4b6b3d447c6d921f25151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:34 +0000
Subject: [PATCH 07/28] fix: isTensor for map-shaped tensors did not compile
 (std::set built from a key range)

---
 include/zerialize/tensor/utils.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/zerialize/tensor/utils.hpp b/include/zerialize/tensor/utils.hpp
index 58e1336..9660e3f 100644
--- a/include/zerialize/tensor/utils.hpp
+++ b/include/zerialize/tensor/utils.hpp
@@ -139,11 +139,10 @@ template <typename T, bool TensorIsMap=false>
 bool isTensor(const Reader auto& buf) {
     if constexpr (TensorIsMap) {
         if (!buf.isMap()) return false;
-        std::set<std::string_view> keys = buf.mapKeys();
         return 
-            keys.contains(ShapeKey) && buf[ShapeKey].isArray() && 
-            keys.contains(DTypeKey) && buf[DTypeKey].isInt() && buf[DTypeKey].asInt8() == tensor_dtype_index<T> &&
-            keys.contains(DataKey) && buf[DataKey].isBlob();
+            buf.contains(ShapeKey) && buf[ShapeKey].isArray() && 
+            buf.contains(DTypeKey) && buf[DTypeKey].isInt() && buf[DTypeKey].asInt8() == tensor_dtype_index<T> &&
+            buf.contains(DataKey) && buf[DataKey].isBlob();
     } else {
         if (!buf.isArray()) return false;
         if (buf.arraySize() < 3) return false;
-- 
2.43.0


From 4eabd2db54a6d186166be0d5112d97afb1d36dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:14 +0000
Subject: [PATCH 08/28] fix: copies of owning deserializers refer to their own
 bytes, not the source's

---
 include/zerialize/protocols/cbor.hpp    | 11 +++++++++++
 include/zerialize/protocols/flex.hpp    |  9 +++++++++
 include/zerialize/protocols/msgpack.hpp |  7 +++++++
 include/zerialize/protocols/zera.hpp    | 10 ++++++++++
 4 files changed, 37 insertions(+)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index afd4a87..f37464d 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -207,6 +207,17 @@ class CborDeserializer {
 public:
     // ---- ctors ----
     CborDeserializer() = default;
+
+    // Copies of an owning reader own (and view) their own bytes.
+    CborDeserializer(const CborDeserializer& o)
+        : buf_(o.buf_), owned_(o.owned_), pos_(o.pos_)
+    {
+        if (!owned_.empty()) buf_ = std::span<const uint8_t>(owned_.data(), owned_.size());
+    }
+    CborDeserializer(CborDeserializer&&) noexcept = default;
+    CborDeserializer& operator=(const CborDeserializer& o) { return *this = CborDeserializer(o); }
+    CborDeserializer& operator=(CborDeserializer&&) noexcept = default;
+
     explicit CborDeserializer(std::span<const uint8_t> bytes) : buf_(bytes), pos_(0) {}
     explicit CborDeserializer(const std::vector<uint8_t>& buf)
         : owned_(buf.begin(), buf.end())
diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index ac9f951..fdb1741 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -379,6 +379,15 @@ protected:
     // No duplicate helpers here; FlexViewBase handles formatting/debug.
 
 public:
+    // Copies of an owning reader own (and view) their own bytes.
+    FlexDeserializer(const FlexDeserializer& o)
+      : FlexViewBase(o), owned_(o.owned_), view_(o.view_) {
+        if (!owned_.empty()) ref_ = ::flexbuffers::GetRoot(owned_);
+      }
+    FlexDeserializer(FlexDeserializer&&) noexcept = default;
+    FlexDeserializer& operator=(const FlexDeserializer& o) { return *this = FlexDeserializer(o); }
+    FlexDeserializer& operator=(FlexDeserializer&&) noexcept = default;
+
     // -------- constructors (owning) --------
     explicit FlexDeserializer(const std::vector<uint8_t>& buf)
       : FlexViewBase(), owned_(buf) {
diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index cdca6eb..ed9fd4e 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -199,6 +199,13 @@ public:
     // ---- ctors ----
     MsgPackDeserializer() = default;
 
+    // Copies of an owning reader own (and view) their own bytes.
+    MsgPackDeserializer(const MsgPackDeserializer& o)
+      : owned_(o.owned_), view_(owned_.empty() ? o.view_ : std::span<const uint8_t>(owned_)) {}
+    MsgPackDeserializer(MsgPackDeserializer&&) noexcept = default;
+    MsgPackDeserializer& operator=(const MsgPackDeserializer& o) { return *this = MsgPackDeserializer(o); }
+    MsgPackDeserializer& operator=(MsgPackDeserializer&&) noexcept = default;
+
     // Non-owning view constructor (zero-copy): caller must keep `bytes` alive.
     explicit MsgPackDeserializer(std::span<const uint8_t> bytes)
       : view_(bytes) {}
diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index 2fb7e1e..b7ea76d 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -525,6 +525,16 @@ class ZeraDeserializer final : public ZeraViewBase {
 public:
     ZeraDeserializer() = default;
 
+    // Copies of an owning reader own (and view) their own bytes.
+    ZeraDeserializer(const ZeraDeserializer& o) : ZeraViewBase(o), owned_(o.owned_), view_(o.view_) {
+        if (owned_.empty()) return;
+        view_ = std::span<const std::uint8_t>(owned_.data(), owned_.size());
+        init_from(view_);
+    }
+    ZeraDeserializer(ZeraDeserializer&&) noexcept = default;
+    ZeraDeserializer& operator=(const ZeraDeserializer& o) { return *this = ZeraDeserializer(o); }
+    ZeraDeserializer& operator=(ZeraDeserializer&&) noexcept = default;
+
     explicit ZeraDeserializer(const std::vector<std::uint8_t>& buf) : owned_(buf) {
         view_ = std::span<const std::uint8_t>(owned_.data(), owned_.size());
         init_from(view_);
-- 
2.43.0


From 08925360127b916bde7df36c0bb87d93991ab5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:14 +0000
Subject: [PATCH 09/28] fix: zvec/zmap builders keep temporaries alive instead
 of dangling references

---
 include/zerialize/zbuilders.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/zbuilders.hpp b/include/zerialize/zbuilders.hpp
index 8c64d33..ee144b5 100644
--- a/include/zerialize/zbuilders.hpp
+++ b/include/zerialize/zbuilders.hpp
@@ -55,8 +55,8 @@ struct BuilderWrapper {
 template<typename... Ts>
 constexpr auto zvec(Ts&&... xs)
 {
-    // Capture by value with perfect forwarding into a tuple.
-    auto l = [data = std::forward_as_tuple(std::forward<Ts>(xs)...)]
+    // Lvalues are captured by reference, temporaries by value.
+    auto l = [data = std::tuple<Ts...>(std::forward<Ts>(xs)...)]
              <Writer W>(W& w) mutable
     {
         w.begin_array(sizeof...(Ts));
@@ -91,7 +91,8 @@ constexpr auto zmap(Ts&&... xs)
     static_assert(sizeof...(Keys) == sizeof...(Ts),
                   "zmap: number of keys must match number of values");
 
-    auto l = [data = std::forward_as_tuple(std::forward<Ts>(xs)...)]
+    // Lvalues are captured by reference, temporaries by value.
+    auto l = [data = std::tuple<Ts...>(std::forward<Ts>(xs)...)]
              <Writer W>(W& w) mutable
     {
         constexpr std::size_t N = sizeof...(Keys);
-- 
2.43.0


From 7b1f863733cba098c757fff2faf5f4952bbcb751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:45 +0000
Subject: [PATCH 10/28] fix: ZBuffer rejects an empty deleter without
 terminating; moved-from buffers are empty

---
 include/zerialize/zbuffer.hpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/zerialize/zbuffer.hpp b/include/zerialize/zbuffer.hpp
index 103cc40..c445e84 100644
--- a/include/zerialize/zbuffer.hpp
+++ b/include/zerialize/zbuffer.hpp
@@ -8,6 +8,9 @@
 #include <span>
 #include <variant>
 #include <functional>
+#include <memory>
+#include <stdexcept>
+#include <utility>
 
 namespace zerialize {
 
@@ -95,8 +98,24 @@ private:
 
         // Default constructor needed for variant default construction (if needed)
         ManagedPtr() = default;
+
+        // A moved-from buffer is empty (not `count` bytes at a null pointer).
+        ManagedPtr(ManagedPtr&& o) noexcept : ptr(std::move(o.ptr)), count(std::exchange(o.count, 0)) {}
+        ManagedPtr& operator=(ManagedPtr&& o) noexcept {
+            ptr = std::move(o.ptr);
+            count = std::exchange(o.count, 0);
+            return *this;
+        }
     };
 
+    // Checked before any storage is constructed: an empty deleter must not be
+    // reached by the unique_ptr's destructor.
+    template<class F>
+    static F require_deleter(F deleter) {
+        if (!deleter) throw std::invalid_argument("ZBuffer: A valid deleter function must be provided");
+        return deleter;
+    }
+
     // --- Variant holding the active storage strategy ---
     std::variant<Ownedvector, ManagedPtr> storage_;
 
@@ -115,14 +134,11 @@ public:
     // Constructor taking ownership of a raw uint8_t* pointer with a custom deleter.
     // The deleter MUST correctly free the provided pointer.
     ZBuffer(uint8_t* data_to_own, size_t size, std::function<void(uint8_t*)> deleter)
-        : storage_(std::in_place_type<ManagedPtr>, data_to_own, size, std::move(deleter))
+        : storage_(std::in_place_type<ManagedPtr>, data_to_own, size, require_deleter(std::move(deleter)))
     {
         if (size > 0 && data_to_own == nullptr) {
             throw std::invalid_argument("ZBuffer: Non-zero size requires a non-null pointer");
         }
-        if (!std::get<ManagedPtr>(storage_).ptr.get_deleter()) { // Check if deleter is valid (!= nullptr)
-            throw std::invalid_argument("ZBuffer: A valid deleter function must be provided");
-        }
     }
 
     // Constructor taking ownership of a raw char* pointer with a custom deleter.
@@ -132,7 +148,7 @@ public:
         : ZBuffer(reinterpret_cast<uint8_t*>(data_to_own), size,
             // Create a lambda that captures the original char* deleter
             // and performs the cast back before calling it.
-            [cd = std::move(char_deleter)](uint8_t* ptr_to_delete) {
+            [cd = require_deleter(std::move(char_deleter))](uint8_t* ptr_to_delete) {
                 if (ptr_to_delete) { // Avoid casting/deleting null
                     cd(reinterpret_cast<char*>(ptr_to_delete));
                 }
@@ -143,7 +159,7 @@ public:
     // Useful for C APIs returning void* (like from malloc).
     ZBuffer(void* data_to_own, size_t size, std::function<void(void*)> void_deleter)
         : ZBuffer(static_cast<uint8_t*>(data_to_own), size,
-            [vd = std::move(void_deleter)](uint8_t* ptr_to_delete) {
+            [vd = require_deleter(std::move(void_deleter))](uint8_t* ptr_to_delete) {
                 if (ptr_to_delete) {
                     vd(static_cast<void*>(ptr_to_delete)); // Cast back to void* for deleter
                 }
-- 
2.43.0


From eba0e1969a8da8c8ec92826e800a0f510c75344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:47 +0000
Subject: [PATCH 11/28] fix: xtensor views and column-major arrays serialize
 their elements in row-major order

---
 include/zerialize/tensor/xtensor.hpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/zerialize/tensor/xtensor.hpp b/include/zerialize/tensor/xtensor.hpp
index 11b2361..e8e312a 100644
--- a/include/zerialize/tensor/xtensor.hpp
+++ b/include/zerialize/tensor/xtensor.hpp
@@ -21,12 +21,28 @@ namespace xt {
 
 template <zerialize::HasDataAndSize X, zerialize::Writer W>
 void serialize(const X& t, W& w) {
-    zerialize::zvec(
-        zerialize::tensor_dtype_index<typename X::value_type>,
-        zerialize::shape_of_sizet(t.shape()),
-        zerialize::span_from_data_of(t)
-    )
-    (w);
+    // The payload holds the elements in row-major order. For column-major containers
+    // and for (strided, offset) views, data() is not that: copy first.
+    const bool row_major = [&] {
+        if constexpr (requires { t.data_offset(); t.strides(); }) {
+            return t.data_offset() == 0 && do_strides_match(t.shape(), t.strides(), layout_type::row_major, true);
+        } else {
+            return true;
+        }
+    }();
+    auto emit = [&w](const auto& x) {
+        zerialize::zvec(
+            zerialize::tensor_dtype_index<typename X::value_type>,
+            zerialize::shape_of_sizet(x.shape()),
+            zerialize::span_from_data_of(x)
+        )
+        (w);
+    };
+    if (row_major) {
+        emit(t);
+    } else {
+        emit(xarray<typename X::value_type, layout_type::row_major>(t));
+    }
 }
 
 } // namespace xt
-- 
2.43.0


From 125bca5d5be5170683b0550cca6c503e9de9c082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:47 +0000
Subject: [PATCH 12/28] fix: tensor_shape does not allocate from an unchecked
 element count

---
 include/zerialize/tensor/utils.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/zerialize/tensor/utils.hpp b/include/zerialize/tensor/utils.hpp
index 9660e3f..39036bf 100644
--- a/include/zerialize/tensor/utils.hpp
+++ b/include/zerialize/tensor/utils.hpp
@@ -86,8 +86,7 @@ TensorShape tensor_shape(const Reader auto& d) {
     if (!d.isArray()) {
         throw DeserializationError("tensor shape must be an array");
     }
-    TensorShape vshape;
-    vshape.reserve(d.arraySize());
+    TensorShape vshape; // not reserved: arraySize() may be an unchecked count from untrusted input
     for (size_t i=0; i<d.arraySize(); i++) {
         auto elem = d[i];
         if (elem.isUInt()) {
-- 
2.43.0


From 450a0e290d69c9dfc01703ebe4f4fc0e9415ca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:17 +0000
Subject: [PATCH 13/28] fix: Flex writer does not read past string views that
 are not NUL-terminated

---
 include/zerialize/protocols/flex.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index fdb1741..bc18133 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -56,7 +56,8 @@ struct Serializer {
     void uint64(std::uint64_t v) { r->fbb.UInt(v); r->wrote_root_ = true; }
     void double_(double v)       { r->fbb.Double(v); r->wrote_root_ = true; }
     void string(std::string_view sv) {
-        r->fbb.String(sv.data(), sv.size()); r->wrote_root_ = true;
+        // the builder also copies the terminating NUL, which a string_view need not have
+        r->fbb.String(std::string(sv)); r->wrote_root_ = true;
     }
     void binary(std::span<const std::byte> b) {
         auto ptr = reinterpret_cast<const std::uint8_t*>(b.data());
@@ -91,7 +92,8 @@ struct Serializer {
 
     void key(std::string_view k) {
         // FlexBuffers requires a key immediately before its value
-        r->fbb.Key(k.data(), k.size());
+        // (and copies its terminating NUL, which a string_view need not have)
+        r->fbb.Key(std::string(k));
     }
 
 private:
-- 
2.43.0


From dc75ae18c6a624ca2b141b0e2cc0550c17fcd3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:07 +0000
Subject: [PATCH 14/28] fix: standard containers nest in any combination
 (overloads declared up front)

---
 include/zerialize/internals/serializers.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/zerialize/internals/serializers.hpp b/include/zerialize/internals/serializers.hpp
index ad2b73e..00647cd 100644
--- a/include/zerialize/internals/serializers.hpp
+++ b/include/zerialize/internals/serializers.hpp
@@ -53,6 +53,14 @@ template<Writer W> void serialize(const std::vector<std::byte>& v, W& w) { w.bin
 template<Writer W> void serialize(std::span<const std::byte> v, W& w) { w.binary(v); }
 
 // Containers
+// Declared up front, so that containers nest in any combination.
+template<Writer W, class T> void serialize(const std::list<T>& l, W& w);
+template<Writer W, class T> void serialize(const std::vector<T>& vec, W& w);
+template<Writer W, class T, size_t N> void serialize(const std::array<T, N>& arr, W& w);
+template<Writer W, class T> void serialize(std::initializer_list<T> list, W& w);
+template<Writer W, class K, class V> void serialize(const std::map<K, V>& map, W& w);
+template<Writer W, class K, class V> void serialize(const std::unordered_map<K, V>& map, W& w);
+
 template<Writer W, class T>
 void serialize(const std::list<T>& l, W& w) {
     w.begin_array(l.size());
-- 
2.43.0


From a444706ccda6efd4734aaf635e437edb10e605cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:58 +0000
Subject: [PATCH 15/28] fix: CBOR asInt64 of an unsigned value above INT64_MAX
 raises instead of wrapping

---
 include/zerialize/protocols/cbor.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index f37464d..094de1a 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -255,7 +255,10 @@ public:
     int64_t  asInt64()  const {
         auto h = head();
         ensure(h.major==0 || h.major==1, "CBOR: not an integer");
-        if (h.major==0) return static_cast<int64_t>(h.val);
+        if (h.major==0) {
+            if (h.val > uint64_t(INT64_MAX)) throw DeserializationError("int64 out of range");
+            return static_cast<int64_t>(h.val);
+        }
         // negative: -1 - n
         if (h.val > uint64_t(INT64_MAX)) throw DeserializationError("int64 underflow");
         long long x = -1 - static_cast<long long>(h.val);
-- 
2.43.0


From 04ccf25fa9608d7a2909b96770f6492d5d2ae63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:58 +0000
Subject: [PATCH 16/28] fix: CBOR skip steps over a two-byte simple value
 exactly once

---
 include/zerialize/protocols/cbor.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 094de1a..9956ce2 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -177,7 +177,6 @@ class CborDeserializer {
                 if (h.addl == 25) { ensure(q+2 <= buf_.size(), "CBOR: truncated f16"); return q+2; }
                 if (h.addl == 26) { ensure(q+4 <= buf_.size(), "CBOR: truncated f32"); return q+4; }
                 if (h.addl == 27) { ensure(q+8 <= buf_.size(), "CBOR: truncated f64"); return q+8; }
-                if (h.addl == 24) { ensure(q+1 <= buf_.size(), "CBOR: truncated simple(24)"); return q+1; }
                 // simple/bool/null (no body): header only
                 return q;
             default:
-- 
2.43.0


From bd683b77a14ee84da9d30c3c85df04b06dc8df29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:58 +0000
Subject: [PATCH 17/28] fix: CBOR reader checks every length against the bytes
 that remain

---
 include/zerialize/protocols/cbor.hpp | 41 +++++++++++++++++-----------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 9956ce2..7875ec4 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -80,6 +80,11 @@ class CborDeserializer {
         if (!cond) throw DeserializationError(msg);
     }
 
+    // Throws unless `n` bytes are present from `q` on (without overflow for any `n`).
+    void need(std::size_t q, uint64_t n, const char* msg) const {
+        ensure(q <= buf_.size() && n <= buf_.size() - q, msg);
+    }
+
     static uint64_t get_be(const uint8_t* p, std::size_t n) {
         uint64_t v = 0;
         for (std::size_t i = 0; i < n; ++i) v = (v << 8) | p[i];
@@ -134,7 +139,7 @@ class CborDeserializer {
             case 2: // bstr
             case 3: // tstr
                 if (!h.indefinite) {
-                    ensure(q + h.val <= buf_.size(), "CBOR: truncated string");
+                    need(q, h.val, "CBOR: truncated string");
                     return q + static_cast<std::size_t>(h.val);
                 } else {
                     // chunks terminated by 0xFF
@@ -144,7 +149,9 @@ class CborDeserializer {
                         auto ch = read_head(q);
                         ensure(ch.major == h.major, "CBOR: wrong chunk type");
                         ensure(!ch.indefinite, "CBOR: nested indef chunks not allowed");
-                        q += ch.hlen + static_cast<std::size_t>(ch.val);
+                        q += ch.hlen;
+                        need(q, ch.val, "CBOR: truncated chunk");
+                        q += static_cast<std::size_t>(ch.val);
                     }
                 }
             case 4: // array
@@ -273,6 +280,7 @@ public:
     double   asDouble() const {
         auto h = head(); ensure(isFloat(), "CBOR: not a float");
         std::size_t q = pos_ + h.hlen;
+        need(q, h.val, "CBOR: truncated float");
         if (h.addl == 25) { uint16_t v = (uint16_t)((buf_[q] << 8) | buf_[q+1]); return decode_f16(v); }
         if (h.addl == 26) { uint32_t v = (uint32_t)get_be(&buf_[q],4); float f; std::memcpy(&f,&v,4); return static_cast<double>(f); }
         uint64_t v = get_be(&buf_[q],8); double d; std::memcpy(&d,&v,8); return d;
@@ -283,16 +291,16 @@ public:
         auto h = head(); ensure(h.major==3, "CBOR: not a string");
         std::size_t q = pos_ + h.hlen;
         if (!h.indefinite) {
-            ensure(q + h.val <= buf_.size(), "CBOR: truncated string");
-            return std::string(reinterpret_cast<const char*>(&buf_[q]), static_cast<std::size_t>(h.val));
+            need(q, h.val, "CBOR: truncated string");
+            return std::string(reinterpret_cast<const char*>(buf_.data() + q), static_cast<std::size_t>(h.val));
         } else {
             std::string out;
             for (;;) {
                 ensure(q < buf_.size(), "CBOR: truncated indef tstr");
                 if (buf_[q] == 0xFF) break;
                 auto ch = read_head(q); ensure(ch.major==3 && !ch.indefinite, "CBOR: bad tstr chunk");
-                q += ch.hlen; ensure(q + ch.val <= buf_.size(), "CBOR: trunc");
-                out.append(reinterpret_cast<const char*>(&buf_[q]), static_cast<std::size_t>(ch.val));
+                q += ch.hlen; need(q, ch.val, "CBOR: trunc");
+                out.append(reinterpret_cast<const char*>(buf_.data() + q), static_cast<std::size_t>(ch.val));
                 q += ch.val;
             }
             return out;
@@ -301,15 +309,15 @@ public:
     std::string_view asStringView() const {
         auto h = head(); ensure(h.major==3, "CBOR: not a string");
         ensure(!h.indefinite, "CBOR: string is indefinite; use asString()");
-        std::size_t q = pos_ + h.hlen; ensure(q + h.val <= buf_.size(), "CBOR: trunc tstr");
-        return std::string_view(reinterpret_cast<const char*>(&buf_[q]), static_cast<std::size_t>(h.val));
+        std::size_t q = pos_ + h.hlen; need(q, h.val, "CBOR: trunc tstr");
+        return std::string_view(reinterpret_cast<const char*>(buf_.data() + q), static_cast<std::size_t>(h.val));
     }
 
     std::span<const std::byte> asBlob() const {
         auto h = head(); ensure(h.major==2, "CBOR: not a byte string");
         ensure(!h.indefinite, "CBOR: chunked byte string; fetch via asBlobVec()");
-        std::size_t q = pos_ + h.hlen; ensure(q + h.val <= buf_.size(), "CBOR: trunc bstr");
-        auto* p = reinterpret_cast<const std::byte*>(&buf_[q]);
+        std::size_t q = pos_ + h.hlen; need(q, h.val, "CBOR: trunc bstr");
+        auto* p = reinterpret_cast<const std::byte*>(buf_.data() + q);
         return { p, static_cast<std::size_t>(h.val) };
     }
     std::vector<std::byte> asBlobVec() const {
@@ -317,16 +325,16 @@ public:
         std::size_t q = pos_ + h.hlen;
         std::vector<std::byte> out;
         if (!h.indefinite) {
-            ensure(q + h.val <= buf_.size(), "CBOR: trunc bstr");
-            auto* p = reinterpret_cast<const std::byte*>(&buf_[q]);
+            need(q, h.val, "CBOR: trunc bstr");
+            auto* p = reinterpret_cast<const std::byte*>(buf_.data() + q);
             out.insert(out.end(), p, p + h.val);
         } else {
             for (;;) {
                 ensure(q < buf_.size(), "CBOR: trunc indef bstr");
                 if (buf_[q] == 0xFF) break;
                 auto ch = read_head(q); ensure(ch.major==2 && !ch.indefinite, "CBOR: bad bstr chunk");
-                q += ch.hlen; ensure(q + ch.val <= buf_.size(), "CBOR: trunc chunk");
-                auto* p = reinterpret_cast<const std::byte*>(&buf_[q]);
+                q += ch.hlen; need(q, ch.val, "CBOR: trunc chunk");
+                auto* p = reinterpret_cast<const std::byte*>(buf_.data() + q);
                 out.insert(out.end(), p, p + ch.val);
                 q += ch.val;
             }
@@ -344,7 +352,8 @@ public:
                 auto kh = read_head(q);
                 std::string_view ksv;
                 if (kh.major==3 && !kh.indefinite) {
-                    ksv = std::string_view(reinterpret_cast<const char*>(&buf_[q+kh.hlen]), static_cast<std::size_t>(kh.val));
+                    need(q+kh.hlen, kh.val, "CBOR: truncated key");
+                    ksv = std::string_view(reinterpret_cast<const char*>(buf_.data() + q+kh.hlen), static_cast<std::size_t>(kh.val));
                 } else {
                     // fallback: decode key to string
                     CborDeserializer keyv(buf_, q);
@@ -528,7 +537,7 @@ private:
         else if (h.major==7 && (h.addl==20||h.addl==21)) { os << t << "| " << (h.addl==21?"true":"false"); }
         else if (h.major==7 && h.addl==22) { os << t << "|null"; }
         else if (h.major==3) {
-            if (!h.indefinite) { os << t << "|\"" << std::string(reinterpret_cast<const char*>(&buf_[q]), (std::size_t)h.val) << '"'; }
+            if (!h.indefinite) { os << t << "|\"" << std::string(reinterpret_cast<const char*>(buf_.data() + q), (std::size_t)h.val) << '"'; }
             else { os << t << "|\"" << CborDeserializer(buf_, p).asString() << '"'; }
         } else if (h.major==2) {
             std::size_t total = 0; if (!h.indefinite) total = (std::size_t)h.val; else { for(;;){ if(buf_[q]==0xFF) break; auto ch = read_head(q); total += (std::size_t)ch.val; q += ch.hlen + (std::size_t)ch.val; } }
-- 
2.43.0


From 9c224777db0a7ded986c642bfaeaf34ab4230a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:49 +0000
Subject: [PATCH 18/28] fix: CBOR key iteration is bounds-checked and ends at
 the break of an indefinite map

---
 include/zerialize/protocols/cbor.hpp | 72 +++++-----------------------
 1 file changed, 13 insertions(+), 59 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 7875ec4..b30a131 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -396,84 +396,38 @@ public:
             using difference_type   = std::ptrdiff_t;
             using reference         = std::string_view;
 
-            struct H { uint8_t major, addl; uint64_t val; std::size_t hlen; bool indefinite; };
-            static H read_head(std::span<const uint8_t> b, std::size_t p) {
-                uint8_t bb = b[p];
-                H h{}; h.major = bb>>5; h.addl=bb&0x1F; h.hlen=1; h.val=0; h.indefinite=false;
-                if (h.major==7) {
-                    if (h.addl==25) { h.val=2; }
-                    else if (h.addl==26) { h.val=4; }
-                    else if (h.addl==27) { h.val=8; }
-                    else if (h.addl==24) { h.hlen=2; }
-                    else if (h.addl==31) { h.indefinite=true; }
-                    return h;
-                }
-                if (h.addl<24) { h.val=h.addl; }
-                else if (h.addl==24) { h.val=b[p+1]; h.hlen=2; }
-                else if (h.addl==25) { h.val=(uint64_t)b[p+1]<<8 | b[p+2]; h.hlen=3; }
-                else if (h.addl==26) { h.val=((uint64_t)b[p+1]<<24)|((uint64_t)b[p+2]<<16)|((uint64_t)b[p+3]<<8)|b[p+4]; h.hlen=5; }
-                else if (h.addl==27) { h.val=((uint64_t)b[p+1]<<56)|((uint64_t)b[p+2]<<48)|((uint64_t)b[p+3]<<40)|((uint64_t)b[p+4]<<32)|((uint64_t)b[p+5]<<24)|((uint64_t)b[p+6]<<16)|((uint64_t)b[p+7]<<8)|b[p+8]; h.hlen=9; }
-                else if (h.addl==31) { h.indefinite=true; }
-                return h;
-            }
-            static std::size_t skip(std::span<const uint8_t> b, std::size_t p) {
-                auto h = read_head(b,p); std::size_t q=p+h.hlen;
-                switch (h.major) {
-                    case 0: case 1: return q;
-                    case 2: case 3:
-                        if (!h.indefinite) return q + (std::size_t)h.val;
-                        for (;;) { if (b[q]==0xFF) return q+1; auto ch=read_head(b,q); q += ch.hlen + (std::size_t)ch.val; }
-                    case 4:
-                        if (!h.indefinite) { for (uint64_t i=0;i<h.val;++i) q=skip(b,q); return q; }
-                        for(;;){ if(b[q]==0xFF) return q+1; q=skip(b,q);}        
-                    case 5:
-                        if (!h.indefinite) { for (uint64_t i=0;i<h.val;++i){ q=skip(b,q); q=skip(b,q);} return q; }
-                        for(;;){ if(b[q]==0xFF) return q+1; q=skip(b,q); q=skip(b,q);} 
-                    case 6: return skip(b,q);
-                    case 7:
-                        if (h.addl==25) return q+2; if (h.addl==26) return q+4; if (h.addl==27) return q+8; return q;
-                }
-                return q;
-            }
-
             reference operator*() const {
-                auto kh = read_head(buf, q);
-                if (kh.major==3 && !kh.indefinite) {
-                    return std::string_view(reinterpret_cast<const char*>(&buf[q+kh.hlen]), (std::size_t)kh.val);
-                }
-                // fallback: materialize
-                CborDeserializer v(std::span<const uint8_t>(buf.data(), buf.size()), q);
+                CborDeserializer v(buf, q);
+                if (!v.head().indefinite) return v.asStringView();
+                // chunked key: materialize
                 scratch = v.asString();
                 return std::string_view(scratch);
             }
             iterator& operator++() {
                 if (indefinite) {
-                    if (buf[q]==0xFF) return *this; // already at end
-                    q = skip(buf,q); // key
-                    q = skip(buf,q); // value
+                    if (q < buf.size() && buf[q]==0xFF) return *this; // already at end
+                    q = skip_entry(q);
                 } else {
                     if (remaining==0) return *this;
-                    q = skip(buf,q); // key
-                    q = skip(buf,q); // value
+                    q = skip_entry(q);
                     --remaining;
                 }
                 return *this;
             }
             iterator operator++(int) { auto t=*this; ++(*this); return t; }
+            // position after the key and value at `p`
+            std::size_t skip_entry(std::size_t p) const { CborDeserializer v(buf, 0); return v.skip(v.skip(p)); }
             friend bool operator==(const iterator& a, const iterator& b){ return a.q==b.q && a.buf.data()==b.buf.data(); }
         };
 
         iterator begin() const {
-            iterator it; it.buf = buf; auto h = iterator::read_head(buf, start); std::size_t q = start + h.hlen; it.q = q; it.indefinite = h.indefinite; it.remaining = h.indefinite ? 0 : (uint64_t)h.val; return it;
+            iterator it; it.buf = buf; auto h = CborDeserializer(buf, start).head(); it.q = start + h.hlen; it.indefinite = h.indefinite; it.remaining = h.val; return it;
         }
         iterator end()   const {
-            iterator it; it.buf = buf; auto h = iterator::read_head(buf, start); if (!h.indefinite) {
-                // compute end pos
-                std::size_t q = start + h.hlen; for (uint64_t i=0;i<h.val;++i){ q = iterator::skip(buf,q); q = iterator::skip(buf,q);} it.q = q; it.indefinite=false; it.remaining=0; return it;
-            } else {
-                // find break
-                std::size_t q = start + h.hlen; for(;;){ if (buf[q]==0xFF){ it.q=q+1; break; } q = iterator::skip(buf,q); q = iterator::skip(buf,q);} it.indefinite=true; return it;
-            }
+            // walk to the end position: past the last entry, or at the break
+            iterator it = begin();
+            if (!it.indefinite) { while (it.remaining > 0) ++it; return it; }
+            for (;;) { ensure(it.q < buf.size(), "CBOR: trunc indef map"); if (buf[it.q]==0xFF) return it; ++it; }
         }
     };
 
-- 
2.43.0


From 6839c5dca27d319060d9c8f697333e4e80eb50ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:49 +0000
Subject: [PATCH 19/28] fix: CBOR skip does not recurse, so nesting depth
 cannot exhaust the stack

---
 include/zerialize/protocols/cbor.hpp | 116 ++++++++++++++-------------
 1 file changed, 61 insertions(+), 55 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index b30a131..3a51acf 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -129,65 +129,71 @@ class CborDeserializer {
         return h;
     }
 
+    // Position after the value at `p`. Iterative, so that nesting depth in (untrusted)
+    // input cannot exhaust the stack.
     std::size_t skip(std::size_t p) const {
-        auto h = read_head(p);
-        std::size_t q = p + h.hlen;
-        switch (h.major) {
-            case 0: // uint
-            case 1: // negint
-                return q;
-            case 2: // bstr
-            case 3: // tstr
-                if (!h.indefinite) {
-                    need(q, h.val, "CBOR: truncated string");
-                    return q + static_cast<std::size_t>(h.val);
-                } else {
-                    // chunks terminated by 0xFF
-                    for (;;) {
-                        ensure(q < buf_.size(), "CBOR: truncated indef str");
-                        if (buf_[q] == 0xFF) return q + 1;
-                        auto ch = read_head(q);
-                        ensure(ch.major == h.major, "CBOR: wrong chunk type");
-                        ensure(!ch.indefinite, "CBOR: nested indef chunks not allowed");
-                        q += ch.hlen;
-                        need(q, ch.val, "CBOR: truncated chunk");
-                        q += static_cast<std::size_t>(ch.val);
-                    }
-                }
-            case 4: // array
-                if (!h.indefinite) {
-                    for (uint64_t i = 0; i < h.val; ++i) q = skip(q);
-                    return q;
-                } else {
-                    for (;;) {
-                        ensure(q < buf_.size(), "CBOR: truncated indef array");
-                        if (buf_[q] == 0xFF) return q + 1;
-                        q = skip(q);
+        // What is being skipped: `left` more values or, when `open`, values up to the break.
+        struct Level { uint64_t left; bool open; bool map; bool at_value; };
+        Level cur{1, false, false, false};
+        std::vector<Level> outer; // indefinite containers and what surrounds them
+        std::size_t q = p;
+        for (;;) {
+            bool done = !cur.open && cur.left == 0;
+            if (cur.open && !cur.at_value) {
+                ensure(q < buf_.size(), "CBOR: truncated indef container");
+                if (buf_[q] == 0xFF) { ++q; done = true; }
+            }
+            if (done) {
+                if (outer.empty()) return q;
+                cur = outer.back();
+                outer.pop_back();
+                continue;
+            }
+            if (cur.open) cur.at_value = cur.map && !cur.at_value; else --cur.left;
+
+            auto h = read_head(q);
+            q += h.hlen;
+            switch (h.major) {
+                case 0: // uint
+                case 1: // negint
+                    break;
+                case 2: // bstr
+                case 3: // tstr
+                    if (!h.indefinite) {
+                        need(q, h.val, "CBOR: truncated string");
+                        q += static_cast<std::size_t>(h.val);
+                    } else {
+                        // chunks terminated by 0xFF
+                        for (;;) {
+                            ensure(q < buf_.size(), "CBOR: truncated indef str");
+                            if (buf_[q] == 0xFF) { ++q; break; }
+                            auto ch = read_head(q);
+                            ensure(ch.major == h.major, "CBOR: wrong chunk type");
+                            ensure(!ch.indefinite, "CBOR: nested indef chunks not allowed");
+                            q += ch.hlen;
+                            need(q, ch.val, "CBOR: truncated chunk");
+                            q += static_cast<std::size_t>(ch.val);
+                        }
                     }
-                }
-            case 5: // map
-                if (!h.indefinite) {
-                    for (uint64_t i = 0; i < h.val; ++i) { q = skip(q); q = skip(q); }
-                    return q;
-                } else {
-                    for (;;) {
-                        ensure(q < buf_.size(), "CBOR: truncated indef map");
-                        if (buf_[q] == 0xFF) return q + 1;
-                        q = skip(q); // key
-                        q = skip(q); // value
+                    break;
+                case 4: // array
+                case 5: // map
+                case 6: { // tag: the tagged value follows
+                    if (h.major != 6) need(q, h.val, "CBOR: truncated container"); // an entry takes at least a byte
+                    const uint64_t values = h.major == 4 ? h.val : h.major == 5 ? 2 * h.val : 1;
+                    if (h.indefinite || cur.open) {
+                        outer.push_back(cur);
+                        cur = Level{values, h.indefinite && h.major != 6, h.major == 5, false};
+                    } else {
+                        cur.left += values;
                     }
+                    break;
                 }
-            case 6: // tag
-                // skip tag then the tagged value
-                return skip(q);
-            case 7: // floats/simple
-                if (h.addl == 25) { ensure(q+2 <= buf_.size(), "CBOR: truncated f16"); return q+2; }
-                if (h.addl == 26) { ensure(q+4 <= buf_.size(), "CBOR: truncated f32"); return q+4; }
-                if (h.addl == 27) { ensure(q+8 <= buf_.size(), "CBOR: truncated f64"); return q+8; }
-                // simple/bool/null (no body): header only
-                return q;
-            default:
-                throw DeserializationError("CBOR: unknown major");
+                default: // floats/simple
+                    need(q, h.val, "CBOR: truncated float");
+                    q += static_cast<std::size_t>(h.val);
+                    break;
+            }
         }
     }
 
-- 
2.43.0


From 8f2e96d3ebb6a8d6a3c6d54d471082572d5a528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:45 +0000
Subject: [PATCH 20/28] fix: translate bounds its recursion (deep or cyclic
 untrusted input exhausted the stack)

---
 include/zerialize/translate.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/translate.hpp b/include/zerialize/translate.hpp
index 05f688c..d4eddfe 100644
--- a/include/zerialize/translate.hpp
+++ b/include/zerialize/translate.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <zerialize/concepts.hpp>
+#include <zerialize/errors.hpp>
 
 namespace zerialize {
 
@@ -28,9 +29,14 @@ namespace zerialize {
  * operate on the Reader/Writer concepts directly.
  */
 
+// Deepest nesting write_value() follows. Untrusted input can nest arbitrarily deep,
+// and ZERA references can even be cyclic; neither may exhaust the stack.
+inline constexpr std::size_t MaxNestingDepth = 1024;
+
 // ==== Generic bridge: Reader -> Writer ===============================
 template<class V, class W>
-inline void write_value(const V& v, W& w) {
+inline void write_value(const V& v, W& w, std::size_t depth = 0) {
+    if (depth > MaxNestingDepth) throw DeserializationError("write_value: nested too deeply");
     if (v.isNull())      { w.null(); return; }
     if (v.isBool())      { w.boolean(v.asBool()); return; }
     if (v.isInt())       { w.int64(v.asInt64()); return; }
@@ -53,7 +59,7 @@ inline void write_value(const V& v, W& w) {
         w.begin_map(count);
         for (std::string_view k : v.mapKeys()) {
             w.key(std::string(k));
-            write_value(v[k], w);
+            write_value(v[k], w, depth + 1);
         }
         w.end_map();
         return;
@@ -62,7 +68,7 @@ inline void write_value(const V& v, W& w) {
     if (v.isArray()) {
         const std::size_t n = v.arraySize();
         w.begin_array(n);
-        for (std::size_t i = 0; i < n; ++i) write_value(v[i], w);
+        for (std::size_t i = 0; i < n; ++i) write_value(v[i], w, depth + 1);
         w.end_array();
         return;
     }
-- 
2.43.0


From ab1396f11ace2421492b3f1e157188333b1707f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:45 +0000
Subject: [PATCH 21/28] fix: ZERA writer does not reserve memory on the word of
 an untrusted element count

---
 include/zerialize/protocols/zera.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index b7ea76d..1ba228a 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -782,9 +782,13 @@ struct Serializer {
             arena_ofs, byte_len, shape_ofs));
     }
 
+    // `reserve` is only a hint, and may be a count claimed by untrusted input (translate()):
+    // do not allocate much on its word.
+    static constexpr std::size_t MaxReserve = 256;
+
     void begin_array(std::size_t reserve) {
         RootSerializer::ArrayCtx ctx{};
-        ctx.payload.reserve(4 + reserve * 16);
+        ctx.payload.reserve(4 + std::min(reserve, MaxReserve) * 16);
         append_u32_le(ctx.payload, 0); // count placeholder
         r->st_.push_back(std::move(ctx));
     }
@@ -801,7 +805,7 @@ struct Serializer {
 
     void begin_map(std::size_t reserve) {
         RootSerializer::MapCtx ctx{};
-        ctx.payload.reserve(4 + reserve * (4 + 8 + 16));
+        ctx.payload.reserve(4 + std::min(reserve, MaxReserve) * (4 + 8 + 16));
         append_u32_le(ctx.payload, 0); // count placeholder
         r->st_.push_back(std::move(ctx));
     }
-- 
2.43.0


From 2e47f6704b6dac83858bb0d14bbb089418422be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:07 +0000
Subject: [PATCH 22/28] fix: CBOR debug text reads only inside the buffer,
 dumps nested containers and bounds its recursion

---
 include/zerialize/protocols/cbor.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 3a51acf..986bcea 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -489,24 +489,29 @@ private:
             default: return "any";
         }
     }
+    static constexpr int MaxDumpPad = 512; // deeper levels (2 columns each) are elided
     void dump_rec(std::ostringstream& os, std::size_t p, int pad) const {
-        auto h = read_head(p); auto t = type_code(p); std::size_t q = p + h.hlen;
+        if (pad > MaxDumpPad) { os << "..."; return; }
+        auto h = read_head(p); auto t = type_code(p); const std::size_t q = p + h.hlen;
         if (h.major==0) { os << t << '|' << h.val; }
         else if (h.major==1) { long long x = -1 - (long long)h.val; os << t << '|' << x; }
         else if (h.major==7 && (h.addl==25||h.addl==26||h.addl==27)) { os << t << '|' << CborDeserializer(buf_, p).asDouble(); }
         else if (h.major==7 && (h.addl==20||h.addl==21)) { os << t << "| " << (h.addl==21?"true":"false"); }
         else if (h.major==7 && h.addl==22) { os << t << "|null"; }
         else if (h.major==3) {
-            if (!h.indefinite) { os << t << "|\"" << std::string(reinterpret_cast<const char*>(buf_.data() + q), (std::size_t)h.val) << '"'; }
-            else { os << t << "|\"" << CborDeserializer(buf_, p).asString() << '"'; }
+            os << t << "|\"" << CborDeserializer(buf_, p).asString() << '"';
         } else if (h.major==2) {
-            std::size_t total = 0; if (!h.indefinite) total = (std::size_t)h.val; else { for(;;){ if(buf_[q]==0xFF) break; auto ch = read_head(q); total += (std::size_t)ch.val; q += ch.hlen + (std::size_t)ch.val; } }
-            os << t << "[size=" << total << "]";
+            os << t << "[size=" << CborDeserializer(buf_, p).asBlobVec().size() << "]";
         } else if (h.major==4) {
-            os << t << " [\n"; std::size_t n = arraySize(); std::size_t e = p + h.hlen; for (std::size_t i=0;i<n;++i){ indent(os, pad+2); dump_rec(os, e, pad+2); if (i+1<n) os << ","; os << "\n"; e = skip(e);} indent(os, pad); os << ']';
+            os << t << " [\n"; std::size_t n = CborDeserializer(buf_, p).arraySize(); std::size_t e = q; for (std::size_t i=0;i<n;++i){ indent(os, pad+2); dump_rec(os, e, pad+2); if (i+1<n) os << ","; os << "\n"; e = skip(e);} indent(os, pad); os << ']';
         } else if (h.major==5) {
-            os << t << " {\n"; std::size_t q2 = p + h.hlen; std::size_t count = h.indefinite ? arraySize() : (std::size_t)h.val; // rough
-            std::size_t i=0; while (true){ if (h.indefinite && buf_[q2]==0xFF) { q2++; break; } indent(os, pad+2); os << '"' << CborDeserializer(buf_, q2).asString() << "\": "; q2 = skip(q2); dump_rec(os, q2, pad+2); q2 = skip(q2); if (++i < count) os << ","; os << "\n"; if (!h.indefinite && i>=count) break; }
+            os << t << " {\n"; std::size_t q2 = q;
+            for (uint64_t i=0; h.indefinite || i<h.val; ++i) {
+                ensure(q2<buf_.size(), "CBOR: trunc map"); if (h.indefinite && buf_[q2]==0xFF) break;
+                if (i) os << ",\n";
+                indent(os, pad+2); os << '"' << CborDeserializer(buf_, q2).asString() << "\": "; q2 = skip(q2); dump_rec(os, q2, pad+2); q2 = skip(q2);
+            }
+            if (q2 != q) os << "\n";
             indent(os, pad); os << '}';
         } else {
             os << t;
-- 
2.43.0


From b0b8abd6dba67e1c999ab0e0d2ab736a969165c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:07 +0000
Subject: [PATCH 23/28] fix: MsgPack debug text bounds its recursion

---
 include/zerialize/protocols/msgpack.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index ed9fd4e..2dff6a9 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -153,7 +153,9 @@ class MsgPackDeserializer {
         if (v.isArray())return "arr";
         return "any";
     }
+    static constexpr int MaxDumpPad = 512; // deeper levels (2 columns each) are elided
     static void dump(std::ostringstream& os, const MsgPackDeserializer& v, int pad) {
+        if (pad > MaxDumpPad) { os << "..."; return; }
         auto ind = [&](int n){ for(int i=0;i<n;++i) os.put(' '); };
         if (v.isNull()) { os << "null: null"; return; }
         if (v.isBool()) { os << "bool: " << (v.asBool()?"true":"false"); return; }
-- 
2.43.0


From 457ed1d74d296e501e5d6ff2ce7bf2317f50a672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:11 +0000
Subject: [PATCH 24/28] fix: JSON integer accessors return the exact value or
 raise

---
 include/zerialize/protocols/json.hpp | 43 +++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index c07a7ac..49ea986 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -7,7 +7,10 @@
 #include <iterator>
 #include <cstddef>
 #include <cstdint>
+#include <limits>
 #include <type_traits>
+#include <utility>
+#include <vector>
 #include <yyjson.h>
 #include <zerialize/zbuffer.hpp>
 #include <zerialize/errors.hpp>
@@ -93,6 +96,26 @@ class JsonDeserializer {
             throw DeserializationError(std::string("Value is not a ") + what);
     }
 
+    // yyjson stores non-negative integers as uint64: is this one within int64?
+    static bool fitsInt64(yyjson_val* v) {
+        return yyjson_is_int(v) && 
+            (!yyjson_is_uint(v) || yyjson_get_uint(v) <= static_cast<uint64_t>(std::numeric_limits<int64_t>::max()));
+    }
+
+    template<class T>
+    T signedAs() const {
+        check(yyjson_is_int, "signed integer");
+        ensure(fitsInt64(cur_) && std::in_range<T>(yyjson_get_sint(cur_)), "Integer out of range");
+        return static_cast<T>(yyjson_get_sint(cur_));
+    }
+
+    template<class T>
+    T unsignedAs() const {
+        check(yyjson_is_uint, "unsigned integer");
+        ensure(std::in_range<T>(yyjson_get_uint(cur_)), "Integer out of range");
+        return static_cast<T>(yyjson_get_uint(cur_));
+    }
+
 public:
     // --- ctors: root (owning) ---
     explicit JsonDeserializer(std::string_view json) {
@@ -141,7 +164,7 @@ public:
     // --- predicates (strict bool) ---
     bool isNull()   const { return cur_ && yyjson_is_null(cur_); }
     bool isBool()   const { return cur_ && yyjson_is_bool(cur_); }
-    bool isInt()    const { return cur_ && yyjson_is_int(cur_); }
+    bool isInt()    const { return cur_ && fitsInt64(cur_); }
     bool isUInt()   const { return cur_ && yyjson_is_uint(cur_); }
     bool isFloat()  const { return cur_ && yyjson_is_real(cur_); }
     bool isString() const { return cur_ && yyjson_is_str(cur_); }
@@ -156,15 +179,15 @@ public:
     }
 
     // --- scalars ---
-    int8_t   asInt8()   const { check(yyjson_is_int,  "signed integer"); return static_cast<int8_t>(yyjson_get_sint(cur_)); }
-    int16_t  asInt16()  const { check(yyjson_is_int,  "signed integer"); return static_cast<int16_t>(yyjson_get_sint(cur_)); }
-    int32_t  asInt32()  const { check(yyjson_is_int,  "signed integer"); return static_cast<int32_t>(yyjson_get_sint(cur_)); }
-    int64_t  asInt64()  const { check(yyjson_is_int,  "signed integer"); return yyjson_get_sint(cur_); }
-
-    uint8_t  asUInt8()  const { check(yyjson_is_uint, "unsigned integer"); return static_cast<uint8_t>(yyjson_get_uint(cur_)); }
-    uint16_t asUInt16() const { check(yyjson_is_uint, "unsigned integer"); return static_cast<uint16_t>(yyjson_get_uint(cur_)); }
-    uint32_t asUInt32() const { check(yyjson_is_uint, "unsigned integer"); return static_cast<uint32_t>(yyjson_get_uint(cur_)); }
-    uint64_t asUInt64() const { check(yyjson_is_uint, "unsigned integer"); return yyjson_get_uint(cur_); }
+    int8_t   asInt8()   const { return signedAs<int8_t>(); }
+    int16_t  asInt16()  const { return signedAs<int16_t>(); }
+    int32_t  asInt32()  const { return signedAs<int32_t>(); }
+    int64_t  asInt64()  const { return signedAs<int64_t>(); }
+
+    uint8_t  asUInt8()  const { return unsignedAs<uint8_t>(); }
+    uint16_t asUInt16() const { return unsignedAs<uint16_t>(); }
+    uint32_t asUInt32() const { return unsignedAs<uint32_t>(); }
+    uint64_t asUInt64() const { return unsignedAs<uint64_t>(); }
 
     float    asFloat()  const { check(yyjson_is_real, "float");  return static_cast<float>(yyjson_get_real(cur_)); }
     double   asDouble() const { check(yyjson_is_real, "float");  return yyjson_get_real(cur_); }
-- 
2.43.0


From 56b556f9ea90e4be36752a1bd17c39848b77e143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:11 +0000
Subject: [PATCH 25/28] fix: JSON writer copies text and keys, and accepts
 every key

---
 include/zerialize/protocols/json.hpp | 54 +++++++++++++---------------
 1 file changed, 25 insertions(+), 29 deletions(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index 49ea986..d95fdee 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -8,6 +8,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <limits>
+#include <optional>
 #include <type_traits>
 #include <utility>
 #include <vector>
@@ -96,6 +97,11 @@ class JsonDeserializer {
             throw DeserializationError(std::string("Value is not a ") + what);
     }
 
+    // yyjson rejects null pointers, which an empty string_view may hold
+    yyjson_val* find(std::string_view key) const {
+        return yyjson_obj_getn(cur_, key.empty() ? "" : key.data(), key.size());
+    }
+
     // yyjson stores non-negative integers as uint64: is this one within int64?
     static bool fitsInt64(yyjson_val* v) {
         return yyjson_is_int(v) && 
@@ -211,7 +217,7 @@ public:
     // --- map interface ---
     bool contains(std::string_view key) const {
         if (!isMap()) return false;
-        return yyjson_obj_getn(cur_, key.data(), key.size()) != nullptr;
+        return find(key) != nullptr;
     }
 
     KeysView mapKeys() const {
@@ -221,7 +227,7 @@ public:
 
     JsonDeserializer operator[](std::string_view key) const {
         check(yyjson_is_obj, "map/object");
-        yyjson_val* v = yyjson_obj_getn(cur_, key.data(), key.size());
+        yyjson_val* v = find(key);
         if (!v) throw DeserializationError("Key not found: " + std::string(key));
         return JsonDeserializer(v, doc_); // view
     }
@@ -264,7 +270,7 @@ struct RootSerializer {
     struct Ctx {
         enum K { Arr, Obj } k;
         yyjson_mut_val* node;        // array or object node
-        std::string pending_key;     // for objects: set by key(), consumed by next value
+        std::optional<std::string> pending_key; // for objects: set by key(), consumed by next value
     };
     std::vector<Ctx> st;
 
@@ -307,7 +313,7 @@ struct Serializer {
     void uint64(std::uint64_t v){ push_value(yyjson_mut_uint(doc(), v)); }
     void double_(double v)      { push_value(yyjson_mut_real(doc(), v)); }
     void string(std::string_view sv) {
-        push_value(yyjson_mut_strn(doc(), sv.data(), sv.size()));
+        push_value(copy_string(sv));
     }
     // Encode binary as array of 0..255
     void binary(std::span<const std::byte> b) {
@@ -317,7 +323,7 @@ struct Serializer {
         // will be a string with the magic string "~b"
         begin_array(3);
         this->string(blobTag);
-        push_value(yyjson_mut_strncpy(doc(), s.data(), s.size()));
+        push_value(copy_string(s));
         this->string(blobEncoding);
         end_array();
     }
@@ -342,7 +348,7 @@ struct Serializer {
     }
     void end_map() {
         ensure_in(RootSerializer::Ctx::Obj, "end_map");
-        if (!r->st.back().pending_key.empty())
+        if (r->st.back().pending_key)
             throw std::logic_error("end_map() while awaiting value for key()");
         r->st.pop_back();
     }
@@ -350,14 +356,20 @@ struct Serializer {
     void key(std::string_view k) {
         ensure_in(RootSerializer::Ctx::Obj, "key");
         auto& c = r->st.back();
-        if (!c.pending_key.empty())
+        if (c.pending_key)
             throw std::logic_error("key() called twice without value");
-        c.pending_key.assign(k.data(), k.size());
+        c.pending_key.emplace(k);
      }
 
 private:
     yyjson_mut_doc* doc() const { return r->doc; }
 
+    // The document is only written by finish(), when the caller's text may be gone.
+    yyjson_mut_val* copy_string(std::string_view sv) {
+        // yyjson rejects null pointers, which an empty string_view may hold
+        return yyjson_mut_strncpy(doc(), sv.empty() ? "" : sv.data(), sv.size());
+    }
+
     void push_value(yyjson_mut_val* v) {
         if (!v) throw std::bad_alloc{};
 
@@ -376,30 +388,14 @@ private:
                 throw std::bad_alloc{};
         } else {
 
-            // current: c.pending_key holds a std::string we set in key()
-            // auto& c = r->st.back();
-            if (c.pending_key.empty())
+            if (!c.pending_key)
                 throw std::logic_error("value added to object without key()");
-    
-            // optional sanity check during debug
-            #ifndef NDEBUG
-            if (c.pending_key.find('\0') != std::string::npos) {
-                throw std::logic_error("embedded NUL in key() input");
-            }
-            #endif
-    
-            // EITHER use the convenience helper if your yyjson has it:
-            #if defined(YYJSON_VERSION_HEX) && (YYJSON_VERSION_HEX >= 0x000e00) // 0.14.0+
-            if (!yyjson_mut_obj_add_str(doc(), c.node, c.pending_key.c_str(), v))
-                throw std::bad_alloc{};
-            #else
-            // OR the portable two-step using a *cpy* string node (always null-terminated):
-            yyjson_mut_val* k = yyjson_mut_strcpy(doc(), c.pending_key.c_str());
+
+            yyjson_mut_val* k = copy_string(*c.pending_key);
             if (!k || !yyjson_mut_obj_add(c.node, k, v))
                 throw std::bad_alloc{};
-            #endif
-    
-            c.pending_key.clear();
+
+            c.pending_key.reset();
     }
     }
 
-- 
2.43.0


From 0e5554f0d866f02d4fb7dd0c4a3978296d88c77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:11 +0000
Subject: [PATCH 26/28] fix: JSON root serializer releases its document when
 serializing fails

---
 include/zerialize/protocols/json.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index d95fdee..881010e 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -277,6 +277,9 @@ struct RootSerializer {
     RootSerializer() : doc(yyjson_mut_doc_new(nullptr)) {
         if (!doc) throw std::bad_alloc{};
     }
+    ~RootSerializer() { yyjson_mut_doc_free(doc); }
+    RootSerializer(const RootSerializer&) = delete;
+    RootSerializer& operator=(const RootSerializer&) = delete;
 
     // Consume and produce the final buffer.
     ZBuffer finish() {
-- 
2.43.0


From 21056cd6d746bc6159c269f9aa48fc6974c0ba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:03 +0000
Subject: [PATCH 27/28] fix: MsgPack writer refuses lengths and counts beyond
 32 bits

---
 include/zerialize/protocols/msgpack.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 2dff6a9..2593cd4 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -515,6 +515,12 @@ public:
 
 class MsgPackSerializer {
     msgpack_packer& pk_;
+
+    // MessagePack lengths and counts have at most 32 bits
+    static std::size_t fit32(std::size_t n) {
+        if (n > std::numeric_limits<std::uint32_t>::max()) throw SerializationError("MsgPack: length exceeds 32 bits");
+        return n;
+    }
 public:
     explicit MsgPackSerializer(MsgPackRootSerializer& rs) : pk_(rs.pk) {}
 
@@ -525,20 +531,20 @@ public:
     void uint64(std::uint64_t v){ msgpack_pack_uint64(&pk_, v); }
     void double_(double v)      { msgpack_pack_double(&pk_, v); }
     void string(std::string_view sv) {
-        msgpack_pack_str(&pk_, sv.size());
+        msgpack_pack_str(&pk_, fit32(sv.size()));
         msgpack_pack_str_body(&pk_, sv.data(), sv.size());
     }
     void binary(std::span<const std::byte> b) {
         auto p = reinterpret_cast<const char*>(b.data());
-        msgpack_pack_bin(&pk_, b.size());
+        msgpack_pack_bin(&pk_, fit32(b.size()));
         msgpack_pack_bin_body(&pk_, p, b.size());
     }
 
     // arrays/maps (MsgPack needs sizes up-front)
-    void begin_array(std::size_t n) { msgpack_pack_array(&pk_, n); }
+    void begin_array(std::size_t n) { msgpack_pack_array(&pk_, fit32(n)); }
     void end_array()                { /* no-op */ }
 
-    void begin_map(std::size_t n)   { msgpack_pack_map(&pk_, n); }
+    void begin_map(std::size_t n)   { msgpack_pack_map(&pk_, fit32(n)); }
     void end_map()                  { /* no-op */ }
 
     void key(std::string_view k)    { string(k); }
-- 
2.43.0


From c0e160714973d3fd8228301ddfbaa974c818a927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:15 +0000
Subject: [PATCH 28/28] fix: CBOR isInt() is true only of values asInt64() can
 give, so large unsigned integers translate

---
 include/zerialize/protocols/cbor.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 986bcea..f287718 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -252,7 +252,11 @@ public:
     // ---- predicates ----
     bool isNull()   const { auto h = head(); return h.major==7 && h.addl==22; }
     bool isBool()   const { auto h = head(); return h.major==7 && (h.addl==20 || h.addl==21); }
-    bool isInt()    const { auto h = head(); return h.major==0 || h.major==1; }
+    bool isInt()    const {
+        auto h = head();
+        if (h.major==0) return h.val <= static_cast<uint64_t>(std::numeric_limits<int64_t>::max());
+        return h.major==1;
+    }
     bool isUInt()   const { auto h = head(); return h.major==0; }
     bool isFloat()  const { auto h = head(); return h.major==7 && (h.addl==25 || h.addl==26 || h.addl==27); }
     bool isString() const { auto h = head(); return h.major==3; }
-- 
2.43.0

