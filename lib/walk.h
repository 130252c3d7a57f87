// Exercises one public operation (and, for containers, descends) on a reader over
// a byte range [p,p+n).  Every byte handed out must lie inside the range, and the
// only exception allowed is DeserializationError.
#pragma once
// zs_param(7): 0 = every operation first, k = operation k-1 first
template <class V> static void walk(const V &v, const uint8_t *p, size_t n, int depth, bool top = true) {
  try {
    uint64_t op = top && zs_param(7) ? zs_param(7) - 1 : zs_pick(depth > 0 ? 16 : 13, "op");
    switch (op) {
      case 0: zs_observe(v.isNull() | v.isBool() << 1 | v.isInt() << 2 | v.isUInt() << 3 | v.isFloat() << 4 | v.isString() << 5 | v.isBlob() << 6 | v.isArray() << 7 | v.isMap() << 8); zs_cover("predicates"); break;
      case 1: zs_observe((uint64_t)v.asInt64()); zs_cover("asInt64"); break;
      case 2: zs_observe(v.asUInt64()); zs_cover("asUInt64"); break;
      case 3: zs_observe((uint64_t)v.asInt8()); zs_observe((uint64_t)v.asInt16()); zs_observe((uint64_t)v.asInt32()); break;
      case 4: zs_observe(v.asUInt8()); zs_observe(v.asUInt16()); zs_observe(v.asUInt32()); break;
      case 5: { double d = v.asDouble(); uint64_t b; memcpy(&b, &d, 8); if (d == d) zs_observe(b); zs_cover("asDouble"); break; }
      case 6: { float d = v.asFloat(); uint32_t b; memcpy(&b, &d, 4); if (d == d) zs_observe(b); break; }
      case 7: zs_observe(v.asBool()); zs_cover("asBool"); break;
      case 8: { auto s = v.asStringView(); ZS_ASSERT(inside(s.data(), s.size(), p, n), "string view leaves the input buffer"); zs_observe(s.size()); zs_cover("asStringView"); break; }
      case 9: { std::string s = v.asString(); zs_observe(s.size()); ZS_ASSERT(s.size() <= n, "string longer than the input"); zs_cover("asString"); break; }
      case 10: { auto s = v.asBlob(); ZS_ASSERT(inside(std::data(s), std::size(s), p, n), "blob view leaves the input buffer"); zs_observe(std::size(s)); zs_cover("asBlob"); break; }
      case 11: { // keys
        size_t c = 0;
        auto ks = v.mapKeys();
        for (std::string_view k : ks) { ZS_ASSERT(inside(k.data(), k.size(), p, n), "key view leaves the input buffer"); zs_observe(k.size()); c++; if (c > n) ZS_FAIL("more keys than input bytes"); }
        zs_cover("mapKeys"); break; }
      case 12: { char k[2]; zs_bytes(k, 2, "key"); size_t kl = zs_pick(3, "keylen"); bool c = v.contains(std::string_view(k, kl)); zs_observe(c); zs_cover(c ? "contains" : "!contains"); break; }
      case 13: zs_observe(v.arraySize()); zs_cover("arraySize"); break;
      case 14: { size_t i = zs_val<size_t>("idx"); auto c = v[i]; zs_cover("index"); walk(c, p, n, depth - 1, false); break; }
      case 15: { char k[2]; zs_bytes(k, 2, "key"); size_t kl = zs_pick(3, "keylen"); auto c = v[std::string_view(k, kl)]; zs_cover("lookup"); walk(c, p, n, depth - 1, false); break; }
    }
  } catch (const z::DeserializationError &) { zs_observe(0xE); zs_cover("error"); }
}
