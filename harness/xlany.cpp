// C25: translating untrusted bytes.  -DZA=source (Zera, MsgPack, CBOR) -DZB=destination
#include "doc.h"
#include <zerialize/protocols/zera.hpp>
#include <zerialize/protocols/msgpack.hpp>
#include <zerialize/protocols/flex.hpp>
#ifdef WITH_CBOR
#include <zerialize/protocols/cbor.hpp>
#endif
#include <zerialize/translate.hpp>
#include "tok.h"
using A = z::ZA; using B = z::ZB;
using RA = typename A::Deserializer;
// what a reader says a value is
template <class V> static int kind(const V &v) {
  if (v.isNull()) return 0; if (v.isBool()) return 1; if (v.isInt()) return 2; if (v.isUInt()) return 2; if (v.isFloat()) return 3; if (v.isString()) return 4; if (v.isBlob()) return 5; if (v.isMap()) return 6; if (v.isArray()) return 7; return 8;
}
// the translation says what the source reader says
template <class V, class W> static void agree(const V &v, const W &w, int depth) {
  int k = kind(v);
  ZS_ASSERT(k == kind(w), "translated value is of another kind");
  switch (k) {
    case 1: ZS_ASSERT(v.asBool() == w.asBool(), "bool"); break;
    case 2: if (v.isInt()) ZS_ASSERT(v.asInt64() == w.asInt64(), "integer"); else ZS_ASSERT(v.asUInt64() == w.asUInt64(), "integer"); break;
    case 3: { uint64_t a = bits(v.asDouble()), b = bits(w.asDouble()); ZS_ASSERT(a == b || (dbl(a) != dbl(a) && dbl(b) != dbl(b)), "float"); break; }
    case 4: { auto a = v.asStringView(); auto b = w.asStringView(); ZS_ASSERT(eqs(a, b), "string"); break; }
    case 5: { auto a = v.asBlob(); auto b = w.asBlob(); ZS_ASSERT(eqs({(const char *)std::data(a), std::size(a)}, {(const char *)std::data(b), std::size(b)}), "blob"); break; }
    case 7: {
      size_t n = v.arraySize();
      ZS_ASSERT(n == w.arraySize(), "array size");
      if (depth) for (size_t i = 0; i < n; i++) agree(v[i], w[i], depth - 1);
      break; }
    case 6: {
      if (std::is_same_v<B, z::Flex>) for (std::string_view k : v.mapKeys()) if (k.find('\0') != k.npos) return; // not representable
      size_t vn = 0, wn = 0;
      for (std::string_view k : v.mapKeys()) {
        std::string key(k); vn++;
        ZS_ASSERT(w.contains(key), "key lost");
        if (depth) agree(v[key], w[key], depth - 1);
      }
      for (std::string_view k : w.mapKeys()) { std::string key(k); wn++; ZS_ASSERT(v.contains(key), "key made up"); }
      ZS_ASSERT(vn == wn, "number of entries");
      break; }
  }
}
static void go(const uint8_t *p, size_t n) {
  try {
    RA r(std::span<const uint8_t>(p, n));
    zs_cover("opened");
    auto d = z::translate<B>(r);
    zs_cover("translated");
    agree(r, d, 2);
  } catch (const std::runtime_error &) { zs_cover("error"); } // the library's own errors
}
// params: n.  All bytes arbitrary
ZS_ENTRY(xa_any) { SymBuf b(zs_param(0)); go(b.p, b.n); }
static void put32(uint8_t *p, uint32_t v) { for (int i = 0; i < 4; i++) p[i] = (uint8_t)(v >> (8 * i)); }
// ZERA: params: env size, arena bytes.  Valid fixed header, arbitrary root offset and contents (cyclic references included)
ZS_ENTRY(xa_env) {
  size_t env = zs_param(0), ar = zs_param(1);
  size_t aofs = (20 + env + 15) / 16 * 16;
  SymBuf b(aofs + ar);
  put32(b.p, 0x564E455A); b.p[4] = 1; b.p[5] = 0; b.p[6] = 1; b.p[7] = 0;
  put32(b.p + 12, (uint32_t)env); put32(b.p + 16, (uint32_t)aofs);
  if (zs_param(2)) { put32(b.p + 8, (uint32_t)env - 16); zs_assume(b.p[20 + env - 16] == (uint8_t)(zs_param(2) == 1 ? 6 : 7)); }
  go(b.p, b.n);
}
// whole tokens.  params: tokens, bytes cut off the end, first token (0 any, 1 array, 2 map)
ZS_ENTRY(xa_tok) { TokBuf b(!std::is_same_v<A, z::MsgPack>, zs_param(0), zs_param(1), zs_param(2), zs_param(3)); go(b.p, b.n); }
// wide headers: params: n.  a 2- or 4-byte count or length, everything arbitrary
ZS_ENTRY(xa_wide) {
  SymBuf b(zs_param(0));
  if (std::is_same_v<A, z::MsgPack>) zs_assume(b.p[0] >= 0xc4 && b.p[0] <= 0xdf);
  else zs_assume((b.p[0] & 31) >= 25 && (b.p[0] & 31) <= 27);
  for (size_t i = 6; i < b.n; i++) zs_assume(b.p[i] < 24);
  go(b.p, b.n);
}
// nesting of any depth.  params: depth
ZS_ENTRY(xa_deep) {
  size_t n = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "n");
  uint8_t *p = (uint8_t *)malloc(n + 1);
  memset(p, std::is_same_v<A, z::MsgPack> ? 0x91 : 0x81, n);
  p[n] = zs_u8("leaf") & 0x17;
  go(p, n + 1);
  free(p);
  zs_cover("done");
}
