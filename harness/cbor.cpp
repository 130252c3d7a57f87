// CBOR reader: arbitrary bytes (C22) and well-formed RFC 8949 documents (C23).
#include "doc.h"
#include <zerialize/protocols/cbor.hpp>
using R = z::CBOR::Deserializer;
// ---------------------------------------------------------------- C22
// zs_param(7): 0 = every operation first, k = operation k-1 first
static void cwalk(const R &v, const uint8_t *p, size_t n, int depth, bool top = true) {
  try {
    uint64_t op = top && zs_param(7) ? zs_param(7) - 1 : zs_pick(depth > 0 ? 15 : 12, "op");
    switch (op) {
      case 0: zs_observe(v.isNull() | v.isBool() << 1 | v.isInt() << 2 | v.isUInt() << 3 | v.isFloat() << 4 | v.isString() << 5 | v.isBlob() << 6 | v.isArray() << 7 | v.isMap() << 8); zs_cover("predicates"); break;
      case 1: zs_observe((uint64_t)v.asInt64()); break;
      case 2: zs_observe(v.asUInt64()); break;
      case 3: if (zs_pick(2, "s")) { zs_observe((uint64_t)v.asInt8()); zs_observe((uint64_t)v.asInt16()); zs_observe((uint64_t)v.asInt32()); } else { zs_observe(v.asUInt8()); zs_observe(v.asUInt16()); zs_observe(v.asUInt32()); } break;
      case 4: { double d = v.asDouble(); uint64_t b; memcpy(&b, &d, 8); if (d == d) zs_observe(b); zs_cover("asDouble"); break; }
      case 5: zs_observe(v.asBool()); break;
      case 6: { auto s = v.asStringView(); ZS_ASSERT(inside(s.data(), s.size(), p, n), "string view leaves the input buffer"); zs_observe(s.size()); zs_cover("asStringView"); break; }
      case 7: { std::string s = v.asString(); zs_observe(s.size()); ZS_ASSERT(s.size() <= n, "string longer than the input"); zs_cover("asString"); break; }
      case 8: { auto s = v.asBlob(); ZS_ASSERT(inside(s.data(), s.size(), p, n), "blob view leaves the input buffer"); zs_observe(s.size()); zs_cover("asBlob"); break; }
      case 9: { auto s = v.asBlobVec(); zs_observe(s.size()); ZS_ASSERT(s.size() <= n, "blob longer than the input"); zs_cover("asBlobVec"); break; }
      case 10: { // keys: views into the input, or (chunked keys) into the iterator
        size_t c = 0;
        auto ks = v.mapKeys();
        auto e = ks.end();
        for (auto it = ks.begin(); !(it == e); ++it) {
          std::string_view k = *it;
          ZS_ASSERT(k.size() <= n, "key longer than the input");
          unsigned x = 0; for (char ch : k) x = x * 31 + (uint8_t)ch;
          zs_observe(x);
          if (++c > n) ZS_FAIL("more keys than input bytes");
        }
        zs_cover("mapKeys"); break; }
      case 11: { char k[2]; zs_bytes(k, 2, "key"); size_t kl = zs_pick(3, "keylen"); bool c = v.contains(std::string_view(k, kl)); zs_observe(c); zs_cover(c ? "contains" : "!contains"); break; }
      case 12: zs_observe(v.arraySize()); zs_cover("arraySize"); break;
      case 13: { size_t i = zs_val<size_t>("idx"); auto c = v[i]; zs_cover("index"); cwalk(c, p, n, depth - 1, false); break; }
      case 14: { char k[2]; zs_bytes(k, 2, "key"); size_t kl = zs_pick(3, "keylen"); auto c = v[std::string_view(k, kl)]; zs_cover("lookup"); cwalk(c, p, n, depth - 1, false); break; }
    }
  } catch (const z::DeserializationError &) { zs_observe(0xE); zs_cover("error"); }
}
#include "tok.h"
ZS_ENTRY(cb_tok) { TokBuf b(true, zs_param(0), zs_param(1), zs_param(2), zs_param(4)); R r(b.span()); cwalk(r, b.p, b.n, (int)zs_param(3)); } // params: tokens, cut, first, depth
// params: n, depth
ZS_ENTRY(cb_any) {
  SymBuf b(zs_param(0));
  R r(b.span());
  cwalk(r, b.p, b.n, (int)zs_param(1));
}
// params: n, depth, prefix: a header with a wide (2, 4, 8-byte) argument at the root, in an array, in a map (key or value), as a chunk
ZS_ENTRY(cb_wide) {
  SymBuf b(zs_param(0));
  size_t o = 0;
  switch (zs_param(2)) {
    case 1: b.p[0] = 0x82; o = 1; break;
    case 2: b.p[0] = 0xa1; b.p[1] = 0x61; b.p[2] = 'a'; o = 3; break;
    case 3: b.p[0] = 0xa1; o = 1; break;
    case 4: b.p[0] = 0x9f; o = 1; break;
    case 5: b.p[0] = 0xbf; o = 1; break;
    case 6: b.p[0] = zs_pick(2, "str") ? 0x7f : 0x5f; o = 1; break;
  }
  uint8_t h = b.p[o];
  unsigned w = 1u << (1 + zs_pick(3, "width"));
  zs_assume((h & 31) == (w == 2 ? 25 : w == 4 ? 26 : 27));
  // what follows the argument: one arbitrary byte, then small integers (cb_any has every combination)
  for (size_t i = o + 1 + w + 1; i < b.n; i++) zs_assume(b.p[i] < 24);
  R r(b.span());
  cwalk(r, b.p, b.n, (int)zs_param(1));
}
// deeply nested containers, of every kind of bracket
ZS_ENTRY(cb_deep) {
  size_t n = zs_param(0);
  static const uint8_t B[3] = {0x81, 0x9f, 0xc1};
  uint8_t br = B[zs_pick(3, "bracket")];
  uint8_t *p = (uint8_t *)malloc(n + 1);
  p[0] = 0x82;
  memset(p + 1, br, n - 1);
  p[n] = zs_u8("last");
  {
    R r(std::span<const uint8_t>(p, n + 1));
    try { auto c = r[(size_t)1]; zs_observe(c.isNull()); zs_cover("in"); } catch (const z::DeserializationError &) { zs_cover("error"); }
  }
  free(p);
  zs_cover("done");
}
// ---------------------------------------------------------------- C23
// writes one head: major type, argument, in a chosen legal width
static void head(std::string &o, int major, uint64_t v, uint64_t width) { // width: 0 in the initial byte, 1,2,4,8 bytes
  if (width == 0) { o.push_back((char)(major << 5 | (uint8_t)v)); return; }
  int a = width == 1 ? 24 : width == 2 ? 25 : width == 4 ? 26 : 27;
  o.push_back((char)(major << 5 | a));
  for (int i = (int)width - 1; i >= 0; i--) o.push_back((char)(v >> (8 * i)));
}
static uint64_t pick_width(uint64_t v, const char *name) { // every width the value fits in
  static const uint64_t W[5] = {0, 1, 2, 4, 8};
  uint64_t w = W[zs_pick(5, name)];
  if (w == 0) zs_assume(v < 24); else if (w < 8) zs_assume(v < (uint64_t)1 << (8 * w));
  return w;
}
static double half_value(uint16_t h) { // RFC 8949 appendix D, by exponent
  unsigned e = h >> 10 & 31, m = h & 1023; uint64_t s = (uint64_t)(h >> 15) << 63;
  if (e == 31) return dbl(s | (uint64_t)0x7ff << 52 | (uint64_t)m << 42);
  if (e == 0) { double d = (double)m * dbl((uint64_t)(1023 - 24) << 52); return dbl(bits(d) | s); }
  return dbl(s | (uint64_t)(e - 15 + 1023) << 52 | (uint64_t)m << 42);
}
static bool same_double(double a, uint64_t want) { return bits(a) == want || (a != a && dbl(want) != dbl(want)); }
// what a document should look like to the reader
struct CNode { Kind k = KNull; bool neg = false; uint64_t u = 0; std::string s; bool chunked = false; std::vector<CNode> c; std::vector<std::string> keys; };
static void text(std::string &o, int major, const std::string &s, bool chunked, uint64_t w) {
  if (!chunked) { head(o, major, s.size(), w); o += s; return; }
  o.push_back((char)(major << 5 | 31));
  size_t cut = s.size() / 2;
  if (s.size()) { head(o, major, cut, 0); o.append(s, 0, cut); head(o, major, s.size() - cut, 0); o.append(s, cut, std::string::npos); }
  o.push_back((char)0xff);
}
static void put_doc(std::string &o, CNode &n, int &budget, int depth, int style) {
  budget--;
  int nk = depth > 0 ? 9 : 7;
  switch (zs_pick(nk, "kind")) {
    case 0: n.k = KNull; o.push_back((char)0xf6); break;
    case 1: n.k = KBool; n.u = zs_u8("b") & 1; o.push_back((char)(0xf4 + n.u)); break;
    case 2: { n.k = KUInt; n.u = zs_u64("u"); head(o, 0, n.u, pick_width(n.u, "w")); break; }
    case 3: { n.k = KInt; n.u = zs_u64("i"); n.neg = true; head(o, 1, n.u, pick_width(n.u, "w")); break; } // value -1 - u
    case 4: { n.k = KDbl;
      switch (zs_pick(3, "fw")) {
        case 0: { uint16_t h = zs_val<uint16_t>("h"); n.u = bits(half_value(h)); o.push_back((char)0xf9); o.push_back((char)(h >> 8)); o.push_back((char)h); break; }
        case 1: { uint32_t f = zs_u32("f"); float x; memcpy(&x, &f, 4); n.u = bits((double)x); o.push_back((char)0xfa); for (int i = 3; i >= 0; i--) o.push_back((char)(f >> (8 * i))); break; }
        default: n.u = zs_u64("d"); o.push_back((char)0xfb); for (int i = 7; i >= 0; i--) o.push_back((char)(n.u >> (8 * i)));
      } break; }
    case 5: case 6: { // strings
      bool bin = zs_pick(2, "bin"); n.k = bin ? KBlob : KStr; static const uint8_t L[3] = {0, 3, 24};
      n.s = sym_str(L[zs_pick(style ? 3 : 2, "len")], "s"); n.chunked = zs_pick(2, "chunked");
      static const uint64_t W[5] = {0, 1, 2, 4, 8}; uint64_t w = style && !n.chunked ? W[zs_pick(5, "w")] : n.s.size() >= 24;
      if (w == 0 && n.s.size() >= 24) w = 1;
      text(o, bin ? 2 : 3, n.s, n.chunked, w); break; }
    default: {
      bool map = zs_pick(2, "map"), indef = zs_pick(2, "indef"); n.k = map ? KMap : KArr;
      int room = budget < 2 ? budget : 2; size_t kids = zs_pick(room + 1, "kids");
      budget -= (int)kids;
      int major = map ? 5 : 4;
      if (indef) o.push_back((char)(major << 5 | 31));
      else { static const uint64_t W[5] = {0, 1, 2, 4, 8}; head(o, major, kids, style ? W[zs_pick(5, "w")] : 0); }
      for (size_t i = 0; i < kids; i++) {
        budget++;
        if (map) { std::string k(1, (char)('c' - i)); k.push_back((char)zs_u8("kc")); text(o, 3, k, style && zs_pick(2, "kchunk"), 0); n.keys.push_back(k); }
        n.c.emplace_back();
        put_doc(o, n.c.back(), budget, depth - 1, style);
      }
      if (indef) o.push_back((char)0xff);
    }
  }
}
static void check(const CNode &n, const R &v) {
  try {
    ZS_ASSERT(v.isNull() == (n.k == KNull) && v.isBool() == (n.k == KBool) && v.isFloat() == (n.k == KDbl) && v.isString() == (n.k == KStr) && v.isBlob() == (n.k == KBlob) && v.isArray() == (n.k == KArr) && v.isMap() == (n.k == KMap), "value read back as another kind");
    ZS_ASSERT(v.isInt() == (n.k == KInt || (n.k == KUInt && n.u <= (uint64_t)INT64_MAX)) && v.isUInt() == (n.k == KUInt), "integer classification");
    switch (n.k) {
      case KBool: ZS_ASSERT(v.asBool() == (n.u != 0), "bool changed"); break;
      case KUInt: check_int(v, false, n.u); break;
      case KInt:
        if (n.u > (uint64_t)INT64_MAX) { ZS_ASSERT(throws_deser([&] { (void)v.asInt64(); }) && throws_deser([&] { (void)v.asUInt64(); }) && throws_deser([&] { (void)v.asInt8(); }), "negative integer below the 64-bit range was returned as something"); }
        else check_int(v, true, ~n.u);
        break;
      case KDbl: ZS_ASSERT(same_double(v.asDouble(), n.u), "float changed"); break;
      case KStr: ZS_ASSERT(eqs(v.asString(), n.s), "string changed"); if (!n.chunked) ZS_ASSERT(eqs(v.asStringView(), n.s), "string view changed"); break;
      case KBlob: { auto b = v.asBlobVec(); ZS_ASSERT(eqs({(const char *)b.data(), b.size()}, n.s), "blob changed"); if (!n.chunked) { auto x = v.asBlob(); ZS_ASSERT(eqs({(const char *)x.data(), x.size()}, n.s), "blob view changed"); } break; }
      case KArr:
        ZS_ASSERT(v.arraySize() == n.c.size(), "array size");
        for (size_t i = 0; i < n.c.size(); i++) { auto e = v[i]; check(n.c[i], e); }
        ZS_ASSERT(throws_deser([&] { (void)v[n.c.size()]; }), "index past the end accepted");
        break;
      case KMap: {
        size_t i = 0;
        auto ks = v.mapKeys(); auto e = ks.end();
        for (auto it = ks.begin(); !(it == e); ++it) { std::string_view k = *it; ZS_ASSERT(i < n.keys.size() && eqs(k, n.keys[i]), "map key changed or out of order"); i++; }
        ZS_ASSERT(i == n.keys.size(), "map lost keys");
        for (size_t j = 0; j < n.keys.size(); j++) { ZS_ASSERT(v.contains(n.keys[j]), "map does not contain a key it has"); auto x = v[std::string_view(n.keys[j])]; check(n.c[j], x); }
        ZS_ASSERT(!v.contains("zz!"), "map contains a key it has not"); ZS_ASSERT(throws_deser([&] { (void)v[std::string_view("zz!")]; }), "lookup of a missing key succeeded");
        break; }
      default: break;
    }
  } catch (const z::DeserializationError &) { ZS_FAIL("well-formed document rejected"); }
}
// params: nodes, depth, style (1: every header width, chunked keys)
ZS_ENTRY(cb_doc) {
  std::string o; CNode n; int budget = (int)zs_param(0);
  put_doc(o, n, budget, (int)zs_param(1), (int)zs_param(2));
  CopyBuf cb({(const uint8_t *)o.data(), o.size()});
  R r(cb.span());
  check(n, r);
  zs_cover("done");
}
// elements and values of every kind are stepped over correctly, simple values and tags included
ZS_ENTRY(cb_skip) {
  std::string o; bool map = zs_pick(2, "map"), indef = zs_pick(2, "indef");
  o.push_back((char)((map ? 5 : 4) << 5 | (indef ? 31 : 2)));
  auto key = [&](char c) { if (map) { o.push_back((char)0x61); o.push_back(c); } };
  key('a');
  uint64_t tag = zs_param(0) ? zs_param(0) - 1 : zs_pick(2, "tag");
  if (tag) { uint64_t t = zs_u64("tag#"); head(o, 6, t, pick_width(t, "tw")); }
  switch (zs_pick(3, "what")) {
    case 0: { uint8_t s = zs_u8("simple"); zs_assume(s < 20 || s == 23); o.push_back((char)(0xe0 | s)); break; }
    case 1: { uint8_t s = zs_u8("simple"); zs_assume(s >= 32); o.push_back((char)0xf8); o.push_back((char)s); break; }
    default: { CNode x; int budget = 2; put_doc(o, x, budget, 1, tag ? 0 : 1); }
  }
  key('b');
  uint8_t mark = zs_u8("mark"); zs_assume(mark < 24);
  o.push_back((char)mark);
  if (indef) o.push_back((char)0xff);
  CopyBuf cb({(const uint8_t *)o.data(), o.size()});
  R r(cb.span());
  try {
    if (map) {
      ZS_ASSERT(r.contains("b") && r["b"].asUInt64() == mark, "value after a skipped one");
      size_t c = 0; auto ks = r.mapKeys(); auto e = ks.end(); for (auto it = ks.begin(); !(it == e); ++it) c++;
      ZS_ASSERT(c == 2, "number of keys");
    } else { ZS_ASSERT(r.arraySize() == 2 && r[(size_t)1].asUInt64() == mark, "element after a skipped one"); }
  } catch (const z::DeserializationError &) { ZS_FAIL("well-formed document rejected"); }
  zs_cover("done");
}
// containers of param0..param1 entries, strings of that many bytes, every legal width
ZS_ENTRY(cb_size) {
  size_t n = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "n");
  std::string o; int what = (int)zs_pick(4, "what"); bool indef = zs_pick(2, "indef");
  static const uint64_t W[5] = {0, 1, 2, 4, 8}; uint64_t w = W[zs_pick(5, "w")];
  if (w == 0) { if (n >= 24) return; } else if (w == 1 && n >= 256) return; else if (w == 2 && n >= 65536) return;
  static const int M[4] = {4, 5, 2, 3}; int major = M[what];
  if (indef && what >= 2) { o.push_back((char)(major << 5 | 31)); head(o, major, n, w); } else if (indef) o.push_back((char)(major << 5 | 31)); else head(o, major, n, w);
  std::string s; size_t at = n ? (n > 8 ? n - 1 : zs_pick(n, "at")) : 0; uint8_t x = zs_u8("x");
  if (what >= 2) { s = long_str(n, "s"); o += s; }
  else for (size_t i = 0; i < n; i++) { if (what) { o.push_back((char)0x62); o.push_back((char)('0' + i / 64)); o.push_back((char)('0' + i % 64)); } if (i == at) head(o, 0, x, 1); else o.push_back((char)(i % 24)); }
  if (indef) o.push_back((char)0xff);
  CopyBuf cb({(const uint8_t *)o.data(), o.size()});
  R r(cb.span());
  try {
    if (what == 0) { ZS_ASSERT(r.arraySize() == n, "array size"); if (n) ZS_ASSERT(r[at].asUInt64() == x, "element"); ZS_ASSERT(throws_deser([&] { (void)r[n]; }), "index past the end"); }
    else if (what == 1) {
      size_t c = 0; auto ks = r.mapKeys(); auto e = ks.end(); for (auto it = ks.begin(); !(it == e); ++it) c++;
      ZS_ASSERT(c == n, "number of keys");
      if (n) { char k[2] = {(char)('0' + at / 64), (char)('0' + at % 64)}; ZS_ASSERT(r.contains({k, 2}) && r[std::string_view(k, 2)].asUInt64() == x, "map value"); }
    } else if (what == 2) { auto b = r.asBlobVec(); ZS_ASSERT(eqs({(const char *)b.data(), b.size()}, s), "blob"); if (!indef) { auto v = r.asBlob(); ZS_ASSERT(eqs({(const char *)v.data(), v.size()}, s), "blob view"); } }
    else { ZS_ASSERT(eqs(r.asString(), s), "string"); if (!indef) ZS_ASSERT(eqs(r.asStringView(), s), "string view"); }
  } catch (const z::DeserializationError &) { ZS_FAIL("well-formed document rejected"); }
  zs_cover("done");
}
