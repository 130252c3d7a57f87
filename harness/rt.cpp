// Round trips: write any document, read it back, same document.
#include "proto.h"
#include "gen.h"
static void rt(const Node &n) {
  auto b = encode<P>(n);
  CopyBuf cb(b.buf());
  R r(cb.span());
  same<kOrdered>(n, r);
}
static Node wrap(Node n) {
  switch (zs_pick(3, "wrap")) {
    case 0: return n;
    case 1: { Node a = nArr(); a.c.push_back(nBool(true)); a.c.push_back(std::move(n)); a.c.push_back(nNull()); return a; }
    default: { Node m = nMap(); put(m, "z", nInt(-1)); put(m, "k", std::move(n)); put(m, "", nStr("t")); return m; }
  }
}
static Node any_scalar() {
  switch (zs_pick(6, "kind")) {
    case 0: return nNull();
    case 1: return nBool(zs_u8("b") & 1);
    case 2: return nInt((int64_t)zs_u64("v"));
    case 3: return nUInt(zs_u64("v"));
    case 4: return nDbl(zs_u64("v"));
    default: return nStr(sym_str(3, "s"));
  }
}
ZS_ENTRY(rt_scalar) { rt(wrap(any_scalar())); zs_cover("done"); }
ZS_ENTRY(rt_str) { // params: from, to (length)
  size_t lo = zs_param(0), hi = zs_param(1);
  bool blob = zs_pick(2, "blob");
  size_t n = lo + zs_pick(hi - lo + 1, "len");
  std::string s = n <= 300 ? sym_str(n, "s") : long_str(n, "s", 40);
  rt(wrap(blob ? nBlob(s) : nStr(s))); zs_cover("done");
}
static Node filler(size_t i) {
  switch (i % 6) { case 0: return nInt((int64_t)i * 37 - 500); case 1: return nStr(std::string(i % 20, 'a' + i % 26)); case 2: return nBool(i & 1); case 3: return nDbl(bits(i * 0.5)); case 4: return nUInt(i * 1000); default: return nNull(); }
}
ZS_ENTRY(rt_arr) { // params: from,to (element count); one arbitrary element
  size_t lo = zs_param(0), hi = zs_param(1);
  size_t n = lo + zs_pick(hi - lo + 1, "count");
  size_t pos = n ? (zs_pick(2, "pos") ? n - 1 : n / 2) : 0;
  Node a = nArr();
  for (size_t i = 0; i < n; i++) a.c.push_back(i == pos ? nInt((int64_t)zs_u64("v")) : filler(i));
  rt(a); zs_cover("done");
}
static std::string num_key(size_t i) { std::string k = "k"; do { k.push_back('0' + i % 10); i /= 10; } while (i); return k; }
ZS_ENTRY(rt_map) {
  size_t lo = zs_param(0), hi = zs_param(1);
  size_t n = lo + zs_pick(hi - lo + 1, "count");
  size_t pos = n ? (zs_pick(2, "pos") ? n - 1 : n / 2) : 0;
  Node m = nMap();
  for (size_t i = 0; i < n; i++) put(m, num_key(i), i == pos ? nStr(sym_str(3, "v")) : filler(i));
  rt(m); zs_cover("done");
}
// very large containers: size, first, last, one past the end
ZS_ENTRY(rt_big) { // params: count, 0 array/1 map
  size_t n = zs_param(0);
  bool map = zs_param(1);
  Node a = map ? nMap() : nArr();
  int64_t first = (int64_t)(zs_u8("f") & 127), last = -(int64_t)(zs_u8("l") & 31);
  for (size_t i = 0; i < n; i++) {
    Node e = i == 0 ? nInt(first) : i == n - 1 ? nInt(last) : nBool(true);
    if (map) put(a, num_key(i), std::move(e)); else a.c.push_back(std::move(e));
  }
  auto b = encode<P>(a);
  CopyBuf cb(b.buf());
  R r(cb.span());
  try {
    if (!map) {
      ZS_ASSERT(r.isArray() && r.arraySize() == n, "array size changed");
      ZS_ASSERT(r[(size_t)0].asInt64() == first, "first element changed");
      ZS_ASSERT(r[n - 1].asInt64() == last, "last element changed");
      ZS_ASSERT(throws_deser([&] { (void)r[n]; }), "index past the end accepted");
    } else {
      ZS_ASSERT(r.isMap(), "not a map");
      size_t c = 0; for (auto k : r.mapKeys()) { c++; (void)k; }
      ZS_ASSERT(c == n, "map size changed");
      ZS_ASSERT(r[num_key(0)].asInt64() == first, "first entry changed");
      ZS_ASSERT(r[num_key(n - 1)].asInt64() == last, "last entry changed");
      ZS_ASSERT(!r.contains(num_key(n)), "absent key reported present");
    }
  } catch (const z::DeserializationError &) { ZS_FAIL("reading back a large container failed"); }
  zs_cover("done");
}
ZS_ENTRY(rt_key) { // params: from,to (key length)
  size_t lo = zs_param(0), hi = zs_param(1);
  size_t n = lo + zs_pick(hi - lo + 1, "klen");
  Node m = nMap();
  std::string k = long_str(n, "k", 3);
  if (kFlex) for (auto &c : k) zs_assume(c != 0);
  std::string k2 = k; k2.push_back('x');
  put(m, k2, nInt(1)); put(m, k, nStr(sym_str(2, "v"))); put(m, "~~~~", nNull());
  zs_assume(!eqs(k, "~~~~") && !eqs(k2, "~~~~"));
  if (kZera && n + 1 > 65535) {
    try { (void)encode<P>(m); ZS_FAIL("key longer than the format allows was accepted"); } catch (const z::SerializationError &) { zs_cover("rejected"); return; }
  }
  rt(m); zs_cover("done");
}
ZS_ENTRY(rt_tree) { // params: nodes, depth, kids, wide
  int budget = (int)zs_param(0);
  Node n = gen_tree(budget, (int)zs_param(1), (int)zs_param(2), (int)zs_param(3));
  rt(n); zs_cover("done");
}
ZS_ENTRY(rt_deep) { // params: from,to (nesting depth)
  size_t lo = zs_param(0), hi = zs_param(1);
  size_t d = lo + zs_pick(hi - lo + 1, "depth");
  uint64_t pat = zs_pick(4, "pat");
  Node n = nInt((int64_t)zs_u64("leaf"));
  for (size_t i = 0; i < d; i++) {
    bool map = pat == 0 ? false : pat == 1 ? true : pat == 2 ? i & 1 : (i % 3 == 0);
    Node o = map ? nMap() : nArr();
    if (map) { put(o, "a", std::move(n)); if (pat == 3) put(o, "b", nStr("after")); }
    else { o.c.push_back(std::move(n)); if (pat == 3) o.c.push_back(nUInt(7)); }
    n = std::move(o);
  }
  rt(n); zs_cover("done");
}
// strings and blobs of all length combinations next to each other (offsets, padding, alignment)
ZS_ENTRY(rt_mix) { // params: max string length, max blob length
  size_t a = zs_pick(zs_param(0) + 1, "a"), b = zs_pick(zs_param(1) + 1, "b"), c = zs_pick(3, "c");
  Node n = nArr();
  n.c.push_back(nStr(sym_str(a, "s1"))); n.c.push_back(nBlob(sym_str(b, "b1")));
  n.c.push_back(nStr(sym_str(13 * c, "s2"))); n.c.push_back(nBlob(sym_str(c, "b2"))); n.c.push_back(nStr(sym_str(a, "s3")));
  rt(n); zs_cover("done");
}
// several strings, blobs or keys of equal or neighbouring lengths in one document, arbitrary contents
ZS_ENTRY(rt_pair) { // params: from,to (index into the lengths)
  static const uint16_t L[] = {1, 4, 8, 12, 13, 16, 17, 24, 32, 33, 40, 64, 65, 100, 128, 257, 1000};
  size_t a = L[zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "len")], d = zs_pick(2, "longer");
  auto mk = [](size_t n, const char *nm) { std::string s = n <= 64 ? sym_str(n, nm) : long_str(n, nm, 12); if (kFlex) for (char c : s) zs_assume(c != 0); return s; };
  std::string x = mk(a, "x"), y = mk(a + d, "y"), w = mk(a, "w");
  Node n = nArr();
  switch (zs_pick(kFlex && a > 4 ? 3 : 5, "shape")) {
    case 0: n.c = {nStr(x), nStr(y), nStr(w), nStr(x)}; break;
    case 1: n.c = {nBlob(x), nBlob(y), nBlob(w)}; break;
    case 2: n.c = {nStr(x), nBlob(x), nStr(y), nBlob(y)}; break;
    case 3: { n = nMap(); put(n, x, nStr(y)); put(n, y + "~", nStr(w)); put(n, x + "~~~", nStr(x)); put(n, "", nBlob(y)); break; }
    default: { Node m1 = nMap(), m2 = nMap(); put(m1, x, nStr(y)); put(m1, x + "~", nInt(2)); put(m2, w + "~", nInt(3)); put(m2, w, nInt(4)); n.c = {m1, m2, nStr(x), nStr(w)}; break; }
  }
  rt(n); zs_cover("done");
}
// records with the same keys in the same or another order, or with some keys missing
ZS_ENTRY(rt_rep) { // params: extra keys
  static const char *K[] = {"id", "na", "x", "name", "type"};
  Node doc = nArr(); size_t extra = zs_param(0);
  for (int rec = 0; rec < 3; rec++) {
    Node m = nMap(); size_t rot = rec == 0 ? 0 : zs_pick(3, "rot"), skip = rec == 0 ? 9 : zs_pick(3, "skip");
    for (size_t i = 0; i < 5; i++) { size_t k = (i + rot) % 5; if (k == skip + 1) continue; put(m, K[k], k == 3 ? nStr(sym_str(2, "s")) : nInt(zs_u8("v") & (PROTO_ID == PROTO_CBOR ? 15 : 63))); if (k == 1) for (size_t e = 0; e < extra; e++) put(m, std::string("e") + num_key(e), nUInt(e)); }
    doc.c.push_back(m);
  }
  rt(doc); zs_cover("done");
}
// every arithmetic C++ type through the serialize() entry point
template <class T> static void one(T v) {
  auto b = z::serialize<P>(v);
  CopyBuf cb(b.buf()); R r(cb.span());
  try {
    if constexpr (std::is_same_v<T, bool>) ZS_ASSERT(r.isBool() && r.asBool() == v, "bool changed");
    else if constexpr (std::is_same_v<T, double>) ZS_ASSERT(r.isFloat() && bits(r.asDouble()) == bits(v), "double changed");
    else if constexpr (std::is_same_v<T, float>) { if (v == v) ZS_ASSERT(r.isFloat() && bits(r.asFloat()) == bits(v), "float changed"); else ZS_ASSERT(r.isFloat() && r.asFloat() != r.asFloat(), "NaN changed"); }
    else if constexpr (std::is_signed_v<T>) ZS_ASSERT((r.isInt() || r.isUInt()) && r.asInt64() == (int64_t)v, "integer changed");
    else ZS_ASSERT((r.isInt() || r.isUInt()) && r.asUInt64() == (uint64_t)v, "integer changed");
  } catch (const z::DeserializationError &) { ZS_FAIL("value not readable"); }
}
ZS_ENTRY(rt_types) {
  switch (zs_pick(17, "type")) {
    case 0: one(zs_val<char>("v")); break;
    case 1: one(zs_val<signed char>("v")); break;
    case 2: one(zs_val<unsigned char>("v")); break;
    case 3: one(zs_val<short>("v")); break;
    case 4: one(zs_val<unsigned short>("v")); break;
    case 5: one(zs_val<int>("v")); break;
    case 6: one(zs_val<unsigned>("v")); break;
    case 7: one(zs_val<long>("v")); break;
    case 8: one(zs_val<unsigned long>("v")); break;
    case 9: one(zs_val<long long>("v")); break;
    case 10: one(zs_val<unsigned long long>("v")); break;
    case 11: one(zs_val<float>("v")); break;
    case 12: one(zs_val<double>("v")); break;
    case 13: one((bool)(zs_u8("v") & 1)); break;
    case 14: { auto b = z::serialize<P>(nullptr); R r(b.buf()); ZS_ASSERT(r.isNull(), "null changed"); break; }
    case 15: { std::string s = sym_str(5, "v"); auto b = z::serialize<P>(s); R r(b.buf()); ZS_ASSERT(r.isString() && eqs(r.asString(), s), "string changed");
               auto b2 = z::serialize<P>(std::string_view(s)); R r2(b2.buf()); ZS_ASSERT(r2.isString() && eqs(r2.asString(), s), "string_view changed");
               for (char c : s) zs_assume(c != 0);
               auto b3 = z::serialize<P>(s.c_str()); R r3(b3.buf()); ZS_ASSERT(r3.isString() && eqs(r3.asString(), s), "const char* changed"); break; }
    case 16: { std::string s = sym_str(5, "v"); auto sp = as_bytes(s); auto b = z::serialize<P>(sp); R r(b.buf()); ZS_ASSERT(r.isBlob(), "blob"); auto x = r.asBlob(); ZS_ASSERT(eqs({(const char *)x.data(), x.size()}, s), "blob changed");
               std::vector<std::byte> vb(sp.begin(), sp.end()); auto b2 = z::serialize<P>(vb); R r2(b2.buf()); auto x2 = r2.asBlob(); ZS_ASSERT(eqs({(const char *)x2.data(), x2.size()}, s), "blob changed"); break; }
  }
  zs_cover("done");
}
