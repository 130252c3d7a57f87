// Accessors: integers (C06), kinds (C07), maps (C09), arrays (C10).
#include "proto.h"
#include "gen.h"
// ---- integers: written through the Writer, at the root / in an array / in a map
ZS_ENTRY(int_written) {
  bool sgn = zs_pick(2, "signed");
  uint64_t u = zs_u64("v");
  Node v = sgn ? nInt((int64_t)u) : nUInt(u);
  Node doc;
  uint64_t where = zs_pick(3, "where");
  if (where == 0) doc = v;
  else if (where == 1) { doc = nArr(); doc.c.push_back(nStr("pad")); doc.c.push_back(v); }
  else { doc = nMap(); put(doc, "b", nNull()); put(doc, "a", v); }
  auto b = encode<P>(doc);
  CopyBuf cb(b.buf());
  R r(cb.span());
  bool neg = sgn && (int64_t)u < 0;
  try {
    if (where == 0) check_int(r, neg, u);
    else if (where == 1) { auto e = r[(size_t)1]; check_int(e, neg, u); }
    else { auto e = r["a"]; check_int(e, neg, u); }
  } catch (const z::DeserializationError &) { ZS_FAIL("written integer not reachable"); }
  zs_cover("done");
}
#if PROTO_ID == PROTO_MsgPack
// every MsgPack integer encoding with arbitrary payload, minimal or not
ZS_ENTRY(int_wire) {
  uint8_t buf[10]; size_t n; bool neg; uint64_t u;
  uint8_t x[8]; zs_bytes(x, 8, "payload");
  uint64_t f = zs_pick(10, "format");
  auto be = [&](int k) { uint64_t v = 0; for (int i = 0; i < k; i++) v = v << 8 | x[i]; return v; };
  if (f == 0) { buf[0] = x[0] & 0x7f; n = 1; u = buf[0]; }
  else if (f == 1) { buf[0] = x[0] | 0xe0; n = 1; u = (uint64_t)(int64_t)(int8_t)buf[0]; }
  else if (f < 6) { int k = 1 << (f - 2); buf[0] = 0xcc + (f - 2); memcpy(buf + 1, x, k); n = 1 + k; u = be(k); }
  else { int k = 1 << (f - 6); buf[0] = 0xd0 + (f - 6); memcpy(buf + 1, x, k); n = 1 + k; u = be(k); int sh = 64 - 8 * k; u = (uint64_t)((int64_t)(u << sh) >> sh); }
  neg = (f == 1 || f >= 6) && (int64_t)u < 0;
  CopyBuf cb({buf, n});
  R r(cb.span());
  ZS_ASSERT(r.isInt() || r.isUInt(), "integer encoding not classified as an integer");
  check_int(r, neg, u);
  zs_cover("done");
}
#endif
#if PROTO_ID == PROTO_Flex
// FlexBuffers integers stored at every width, in vectors of every width
ZS_ENTRY(int_wire) {
  uint64_t w = zs_pick(4, "width"); bool sgn = zs_pick(2, "signed");
  uint8_t buf[10]; size_t k = (size_t)1 << w;
  uint64_t u = zs_u64("v");
  if (k < 8) { int sh = 64 - 8 * (int)k; u = sgn ? (uint64_t)((int64_t)(u << sh) >> sh) : u << sh >> sh; }
  memcpy(buf, &u, k);
  buf[k] = (uint8_t)((sgn ? 1 : 2) << 2 | w);  // packed type: FBT_INT / FBT_UINT
  buf[k + 1] = (uint8_t)k;                     // root width
  CopyBuf cb({buf, k + 2});
  R r(cb.span());
  ZS_ASSERT(r.isInt() == sgn && r.isUInt() == !sgn, "integer classification");
  check_int(r, sgn && (int64_t)u < 0, u);
  zs_cover("done");
}
#endif
// integers as elements of homogeneous / nested containers next to other integers
ZS_ENTRY(int_child) {
  bool sgn = zs_pick(2, "signed"); uint64_t u = zs_u64("v");
  Node v = sgn ? nInt((int64_t)u) : nUInt(u);
  Node in = nArr(); in.c.push_back(v); in.c.push_back(sgn ? nInt(-3) : nUInt(250));
  Node m = nMap(); put(m, "b", in); put(m, "a", v);
  Node doc = nArr(); doc.c.push_back(m); doc.c.push_back(in);
  auto b = encode<P>(doc); CopyBuf cb(b.buf()); R r(cb.span());
  bool neg = sgn && (int64_t)u < 0;
  try {
    switch (zs_pick(3, "where")) {
      case 0: { auto e = r[(size_t)0]; auto f = e["b"]; auto g = f[(size_t)0]; check_int(g, neg, u); break; }
      case 1: { auto e = r[(size_t)0]; auto f = e["a"]; check_int(f, neg, u); break; }
      default: { auto e = r[(size_t)1]; auto f = e[(size_t)0]; check_int(f, neg, u); break; }
    }
  } catch (const z::DeserializationError &) { ZS_FAIL("written integer not reachable"); }
  zs_cover("done");
}
// ---- kinds: each accessor works exactly on the matching kind
template <class V> static void kind_check(const V &v, const Node &n) {
  bool integer = n.k == KInt || n.k == KUInt;
  ZS_ASSERT(v.isNull() == (n.k == KNull), "isNull");
  ZS_ASSERT(v.isBool() == (n.k == KBool), "isBool");
  ZS_ASSERT((v.isInt() || v.isUInt()) == integer, "isInt/isUInt");
  if (n.k == KInt && (int64_t)n.u < 0) ZS_ASSERT(v.isInt() && !v.isUInt(), "negative integer must be classified as signed");
  if (n.k == KUInt && n.u >> 63) ZS_ASSERT(v.isUInt() && !v.isInt(), "large unsigned integer must be classified as unsigned");
  ZS_ASSERT(v.isFloat() == (n.k == KDbl), "isFloat");
  ZS_ASSERT(v.isString() == (n.k == KStr), "isString");
  ZS_ASSERT(v.isBlob() == (n.k == KBlob), "isBlob");
  ZS_ASSERT(v.isArray() == (n.k == KArr), "isArray");
  ZS_ASSERT(v.isMap() == (n.k == KMap), "isMap");
#define MIS(cond, expr, msg) do { bool t = throws_deser([&] { (void)(expr); }); ZS_ASSERT(t == !(cond), msg); } while (0)
  MIS(n.k == KBool, v.asBool(), "asBool must work exactly on booleans");
  if (!integer) {
    MIS(false, v.asInt8(), "asInt8 on a non-integer"); MIS(false, v.asInt16(), "asInt16 on a non-integer"); MIS(false, v.asInt32(), "asInt32 on a non-integer"); MIS(false, v.asInt64(), "asInt64 on a non-integer");
    MIS(false, v.asUInt8(), "asUInt8 on a non-integer"); MIS(false, v.asUInt16(), "asUInt16 on a non-integer"); MIS(false, v.asUInt32(), "asUInt32 on a non-integer"); MIS(false, v.asUInt64(), "asUInt64 on a non-integer");
  }
  MIS(n.k == KDbl, v.asDouble(), "asDouble must work exactly on floats");
  MIS(n.k == KDbl, v.asFloat(), "asFloat must work exactly on floats");
  MIS(n.k == KStr, v.asString(), "asString must work exactly on strings");
  MIS(n.k == KStr, v.asStringView(), "asStringView must work exactly on strings");
  MIS(n.k == KBlob, v.asBlob(), "asBlob must work exactly on blobs");
  MIS(n.k == KArr, v.arraySize(), "arraySize must work exactly on arrays");
  MIS(n.k == KArr && n.c.size() > 0, v[(size_t)0], "index must work exactly on arrays");
  MIS(n.k == KMap, v.mapKeys(), "mapKeys must work exactly on maps");
  MIS(n.k == KMap && n.c.size() > 0, v[std::string_view("k")], "lookup must work exactly on maps holding the key");
  bool c; try { c = v.contains("k"); } catch (const z::DeserializationError &) { c = false; }
  ZS_ASSERT(c == (n.k == KMap && n.c.size() > 0), "contains must be true exactly on maps holding the key");
#undef MIS
}
ZS_ENTRY(kinds) {
  Node n;
  switch (zs_pick(11, "kind")) {
    case 0: n = nNull(); break;
    case 1: n = nBool(zs_u8("b") & 1); break;
    case 2: n = nInt((int64_t)zs_u64("i")); break;
    case 3: n = nUInt(zs_u64("u")); break;
    case 4: n = nDbl(zs_u64("d")); break;
    case 5: n = nStr(sym_str(zs_pick(3, "l") * 8, "s")); break;
    case 6: n = nBlob(sym_str(zs_pick(3, "l") * 8, "x")); break;
    case 7: n = nArr(); break;
    case 8: n = nArr(); n.c.push_back(nInt((int8_t)zs_u8("e"))); if (zs_pick(2, "two")) n.c.push_back(nStr("k")); break;
    case 9: n = nMap(); break;
    default: n = nMap(); put(n, "k", nDbl(zs_u64("e"))); if (zs_pick(2, "two")) put(n, "j", nArr()); break;
  }
  uint64_t where = zs_pick(3, "where");
  Node doc = n;
  if (where == 1) { doc = nArr(); doc.c.push_back(nUInt(300)); doc.c.push_back(n); doc.c.push_back(nStr("zz")); }
  if (where == 2) { doc = nMap(); put(doc, "y", nNull()); put(doc, "x", n); }
  auto b = encode<P>(doc);
  CopyBuf cb(b.buf()); R r(cb.span());
  try {
    if (where == 0) kind_check(r, n);
    else if (where == 1) { auto e = r[(size_t)1]; kind_check(e, n); }
    else { auto e = r["x"]; kind_check(e, n); }
  } catch (const z::DeserializationError &) { ZS_FAIL("value not reachable"); }
  zs_cover("done");
}
// homogeneous arrays are arrays, whatever the element kind
ZS_ENTRY(kinds_arr) {
  Node a = nArr(); uint64_t k = zs_pick(7, "kind"); size_t m = 1 + zs_pick(4, "m");
  for (size_t i = 0; i < m; i++) switch (k) {
    case 0: a.c.push_back(nNull()); break;
    case 1: a.c.push_back(nBool(zs_u8("b") & 1)); break;
    case 2: a.c.push_back(nInt((int8_t)zs_u8("i"))); break;
    case 3: a.c.push_back(nUInt(zs_u8("u"))); break;
    case 4: a.c.push_back(nDbl(bits(i * 0.1))); break;
    case 5: a.c.push_back(nStr(sym_str(2, "s"))); break;
    default: a.c.push_back(nArr()); break;
  }
  auto b = encode<P>(a); CopyBuf cb(b.buf()); R r(cb.span());
  ZS_ASSERT(r.isArray() && !r.isMap() && !r.isBlob() && !r.isString(), "a homogeneous array is not (only) an array");
  same<kOrdered>(a, r);
  zs_cover("done");
}
// ---- maps: lookup, membership and key listing agree for arbitrary keys and probes
ZS_ENTRY(map_coherent) { // params: entries, max key length, probe length
  size_t m = zs_param(0), kl = zs_param(1), pl = zs_param(2);
  Node n = nMap();
  for (size_t i = 0; i < m; i++) {
    std::string k = sym_str(zs_pick(kl + 1, "klen"), "k");
    if (kFlex) for (char c : k) zs_assume(c != 0);
    for (auto &o : n.keys) if (o.size() == k.size()) zs_assume(!eqs(o, k));
    put(n, k, nUInt(200 + i));
  }
  auto b = encode<P>(n); CopyBuf cb(b.buf()); R r(cb.span());
  std::string probe = sym_str(zs_pick(pl + 1, "plen"), "probe");
  int want = -1;
  for (size_t i = 0; i < m; i++) if (eqs(n.keys[i], probe)) want = (int)i;
  try {
    ZS_ASSERT(r.contains(probe) == (want >= 0), "contains disagrees with the keys written");
    zs_cover(want >= 0 ? "hit" : "miss");
    bool thrown = false; uint64_t got = 0;
    try { auto e = r[std::string_view(probe)]; got = e.asUInt64(); } catch (const z::DeserializationError &) { thrown = true; }
    ZS_ASSERT(thrown == (want < 0), "lookup succeeds exactly when the key was written");
    if (want >= 0) ZS_ASSERT(got == 200 + (uint64_t)want, "lookup returned another key's value");
    size_t c = 0, seen = 0;
    for (std::string_view k : r.mapKeys()) {
      c++; if (c > m) ZS_FAIL("more keys than written");
      bool known = false; for (auto &o : n.keys) known = known || eqs(o, k);
      ZS_ASSERT(known, "listed key was never written");
      if (eqs(k, probe)) seen++;
    }
    ZS_ASSERT(c == m, "number of keys changed");
    ZS_ASSERT(seen == (want >= 0 ? 1u : 0u), "key listing disagrees with contains");
  } catch (const z::DeserializationError &) { ZS_FAIL("map access raised"); }
}
// long keys: only equality over the whole key counts
ZS_ENTRY(map_long) { // params: key length
  size_t L = zs_param(0);
  std::string base(L, 'q'), k = base, probe = base;
  // arbitrary bytes at the start, in the middle and at the end
  char x[6], y[6]; zs_bytes(x, 6, "k"); zs_bytes(y, 6, "p");
  if (kFlex) for (int i = 0; i < 6; i++) { zs_assume(x[i] != 0); zs_assume(y[i] != 0); }
  size_t at[6] = {0, 1, L / 2, L / 2 + 1, L - 2, L - 1};
  for (int i = 0; i < 6; i++) { k[at[i]] = x[i]; probe[at[i]] = y[i]; }
  switch (zs_pick(4, "plen")) { case 0: break; case 1: probe.pop_back(); break; case 2: { char c = (char)zs_u8("pc"); if (kFlex) zs_assume(c != 0); probe.push_back(c); break; } default: probe.resize(L / 2); break; }
  Node n = nMap();
  put(n, std::string("a"), nUInt(1)); put(n, k, nUInt(2)); put(n, k + "y", nUInt(3));
  auto b = encode<P>(n); CopyBuf cb(b.buf()); R r(cb.span());
  bool want = eqs(k, probe), want3 = eqs(k + "y", probe);
  try {
    ZS_ASSERT(r.contains(probe) == (want || want3), "contains disagrees with the keys written");
    uint64_t got = 0; bool thrown = false;
    try { got = r[std::string_view(probe)].asUInt64(); } catch (const z::DeserializationError &) { thrown = true; }
    ZS_ASSERT(thrown == !(want || want3), "lookup succeeds exactly when the key was written");
    if (!thrown) ZS_ASSERT(got == (want ? 2u : 3u), "lookup returned another key's value");
  } catch (const z::DeserializationError &) { ZS_FAIL("map access raised"); }
  if (want || want3) zs_cover("hit"); else zs_cover("miss");
}
// many entries, written in several orders, probed with a key one byte of which is arbitrary
ZS_ENTRY(map_many) { // params: from,to
  size_t m = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "m");
  uint64_t order = zs_pick(4, "order");
  auto key = [&](size_t i) { std::string k(1, (char)('A' + i / 26 % 26)); k.push_back((char)('a' + i % 26)); if (i / 676) k += "xy"; return k; };
  Node n = nMap(); std::vector<size_t> at;
  for (size_t i = 0; i < m; i++) at.push_back(order == 0 ? i : order == 1 ? m - 1 - i : order == 2 ? (i + m / 2 + 1) % m : (i % 2 ? m - 1 - i / 2 : i / 2));
  for (size_t i : at) put(n, key(i), nUInt(i));
  auto b = encode<P>(n); CopyBuf cb(b.buf()); R r(cb.span());
  size_t j = zs_pick(3, "probe") ; j = j == 0 ? 0 : j == 1 ? m / 2 : m - 1;
  std::string probe = key(j); probe[1] = (char)zs_u8("p"); if (kFlex) zs_assume(probe[1] != 0);
  int want = -1;
  for (size_t i = 0; i < m; i++) if (eqs(key(i), probe)) { want = (int)i; break; }
  try {
    ZS_ASSERT(r.contains(probe) == (want >= 0), "contains disagrees with the keys written");
    uint64_t got = 0; bool thrown = false;
    try { got = r[std::string_view(probe)].asUInt64(); } catch (const z::DeserializationError &) { thrown = true; }
    ZS_ASSERT(thrown == (want < 0), "lookup succeeds exactly when the key was written");
    if (!thrown) ZS_ASSERT(got == (uint64_t)want, "lookup returned another key's value");
  } catch (const z::DeserializationError &) { ZS_FAIL("map access raised"); }
  zs_cover(want >= 0 ? "hit" : "miss");
}
// map keys when the same map is read through an element of a larger document
ZS_ENTRY(map_nested) {
  Node in = nMap(); size_t m = zs_pick(4, "m");
  for (size_t i = 0; i < m; i++) put(in, gen_key((int)i), i == 1 ? nStr(sym_str(3, "s")) : nUInt(zs_u8("u")));
  Node doc = nMap(); put(doc, "zz", in); put(doc, "aa", nStr("tail"));
  auto b = encode<P>(doc); CopyBuf cb(b.buf()); R r(cb.span());
  same<kOrdered>(doc, r);
  try { // keys of a temporary
    size_t c = 0; std::vector<std::string> got;
    for (std::string_view k : r["zz"].mapKeys()) { got.push_back(std::string(k)); c++; }
    ZS_ASSERT(c == m, "nested key count");
    auto ks = r["zz"].mapKeys();
    size_t j = 0; for (auto it = ks.begin(); it != ks.end(); it++) { ZS_ASSERT(eqs(*it, got[j]), "second traversal differs"); j++; }
    ZS_ASSERT(j == m, "second traversal count");
  } catch (const z::DeserializationError &) { ZS_FAIL("map access raised"); }
  zs_cover("done");
}
// ---- arrays: arbitrary 64-bit index
ZS_ENTRY(arr_index) { // params: max elements
  size_t m = zs_pick(zs_param(0) + 1, "m");
  uint64_t style = zs_pick(3, "style");
  Node a = nArr();
  for (size_t i = 0; i < m; i++) {
    if (style == 0) a.c.push_back(nUInt(i + 1));
    else if (style == 1) a.c.push_back(nStr(std::string(i * 5, (char)('a' + i))));
    else { Node in = nArr(); for (size_t j = 0; j < i; j++) in.c.push_back(nUInt(70000 * j)); a.c.push_back(in); }
  }
  auto b = encode<P>(a); CopyBuf cb(b.buf()); R r(cb.span());
  uint64_t idx = zs_u64("idx");
  try { ZS_ASSERT(r.arraySize() == m, "array size"); } catch (const z::DeserializationError &) { ZS_FAIL("arraySize raised"); }
  try {
    auto e = r[(size_t)idx];
    ZS_ASSERT(idx < m, "index past the end accepted");
    zs_cover("in");
    if (style == 0) ZS_ASSERT(e.asUInt64() == idx + 1, "wrong element");
    else if (style == 1) ZS_ASSERT(e.asString().size() == idx * 5, "wrong element");
    else ZS_ASSERT(e.arraySize() == idx, "wrong element");
  } catch (const z::DeserializationError &) { ZS_ASSERT(idx >= m, "valid index rejected"); zs_cover("out"); }
}
// ---- floating point: the stored double bit for bit, and its nearest float
template <class V> static void flt_is(const V &v, uint64_t b) {
  try {
    ZS_ASSERT(v.isFloat() && !v.isInt() && !v.isUInt(), "a float is classified as another kind");
    ZS_ASSERT(bits(v.asDouble()) == b, "asDouble is not the stored number");
    float f = v.asFloat(); double d = dbl(b); float w = (float)d; uint32_t fb, wb; memcpy(&fb, &f, 4); memcpy(&wb, &w, 4);
    if (d == d) ZS_ASSERT(fb == wb, "asFloat is not the nearest float"); else ZS_ASSERT(f != f, "asFloat of a NaN is a number");
  } catch (const z::DeserializationError &) { ZS_FAIL("a float accessor raised on a float"); }
}
ZS_ENTRY(flt_written) { // params: 1 = neighbours are arbitrary too
  uint64_t b = zs_u64("d"), o = zs_param(0) ? zs_u64("o") : bits(-0.1); Node n = nDbl(b), doc = n; uint64_t where = zs_pick(5, "where");
  switch (where) {
    case 0: break;
    case 1: doc = nArr(); doc.c = {nDbl(o), n, nDbl(bits(1.5))}; break;
    case 2: doc = nArr(); doc.c = {nStr("s"), n, nUInt(7)}; break;
    case 3: doc = nMap(); put(doc, "a", nDbl(o)); put(doc, "x", n); break;
    default: { Node in = nArr(); in.c = {n, n}; doc = nArr(); doc.c = {in, in}; break; }
  }
  auto z0 = encode<P>(doc); CopyBuf cb(z0.buf()); R r(cb.span());
  try {
    if (where == 0) flt_is(r, b);
    else if (where < 3) { auto e = r[(size_t)1]; flt_is(e, b); if (where == 1) { auto p = r[(size_t)0], q = r[(size_t)2]; flt_is(p, o); flt_is(q, bits(1.5)); } }
    else if (where == 3) { auto e = r["x"], p = r["a"]; flt_is(e, b); flt_is(p, o); }
    else { auto i = r[(size_t)1]; auto e = i[(size_t)0], f = i[(size_t)1]; flt_is(e, b); flt_is(f, b); }
  } catch (const z::DeserializationError &) { ZS_FAIL("access to a written value raised"); }
  zs_cover("done");
}
ZS_ENTRY(flt_single) { // values written as C++ float
  uint32_t fb = zs_u32("f"); float f; memcpy(&f, &fb, 4); zs_assume(f == f);
  uint64_t how = zs_pick(4, "how");
  auto z0 = how == 0 ? z::serialize<P>(f) : how == 1 ? z::serialize<P>(z::zvec(1, f)) : how == 2 ? z::serialize<P>(z::zvec(1, z::dyn::Value(f))) : z::serialize<P>(std::vector<float>{2.5f, f});
  CopyBuf cb(z0.buf()); R r(cb.span());
  auto is = [&](const auto &v) {
    try { float g = v.asFloat(); uint32_t gb; memcpy(&gb, &g, 4); ZS_ASSERT(v.isFloat() && gb == fb, "a float changed"); ZS_ASSERT(bits(v.asDouble()) == bits((double)f), "a float widened to another double"); }
    catch (const z::DeserializationError &) { ZS_FAIL("a float accessor raised on a float"); }
  };
  if (how == 0) is(r); else { auto e = r[(size_t)1]; is(e); }
  zs_cover("done");
}
#if PROTO_ID == PROTO_MsgPack
ZS_ENTRY(flt_wire) { // float 32 and float 64 with arbitrary payload, at the root and behind an element of any fixed-width kind
  uint8_t x[8]; zs_bytes(x, 8, "payload"); uint64_t w = zs_pick(2, "width"), where = zs_pick(6, "where");
  uint8_t buf[32]; size_t n = 0; auto put1 = [&](unsigned c) { buf[n++] = (uint8_t)c; };
  uint8_t y[8]; zs_bytes(y, 8, "neighbour");
  if (where == 1) { put1(0x92); put1(0xcb); memcpy(buf + n, y, 8); n += 8; }
  if (where == 2) { put1(0x92); put1(0xca); memcpy(buf + n, y, 4); n += 4; }
  if (where == 3) { put1(0x92); put1(0xd3); memcpy(buf + n, y, 8); n += 8; }
  if (where == 4) { put1(0x82); put1(0xa1); put1('a'); put1(0xca); memcpy(buf + n, y, 4); n += 4; put1(0xa1); put1('x'); }
  if (where == 5) { put1(0x93); put1(0xc0); }
  put1(w ? 0xcb : 0xca); memcpy(buf + n, x, w ? 8 : 4); n += w ? 8 : 4; if (where == 5) put1(0xc3);
  uint64_t u = 0; for (int i = 0; i < (w ? 8 : 4); i++) u = u << 8 | x[i];
  if (!w) { uint32_t v = (uint32_t)u; float f; memcpy(&f, &v, 4); zs_assume(f == f); u = bits((double)f); }
  CopyBuf cb({buf, n}); R r(cb.span());
  try { if (where == 0) flt_is(r, u); else if (where == 4) { auto e = r["x"]; flt_is(e, u); } else { auto e = r[(size_t)1]; flt_is(e, u); } }
  catch (const z::DeserializationError &) { ZS_FAIL("access to a valid element raised"); }
  zs_cover("done");
}
#endif
#if PROTO_ID == PROTO_Flex
ZS_ENTRY(flt_wire) { // float stored at 4 or 8 bytes
  uint64_t w = zs_pick(2, "width"), u = zs_u64("v"); uint8_t buf[10]; size_t k = w ? 8 : 4; memcpy(buf, &u, k);
  buf[k] = (uint8_t)(3 << 2 | (w ? 3 : 2)); buf[k + 1] = (uint8_t)k;
  if (!w) { uint32_t v = (uint32_t)u; float f; memcpy(&f, &v, 4); zs_assume(f == f); u = bits((double)f); }
  CopyBuf cb({buf, k + 2}); R r(cb.span()); flt_is(r, u); zs_cover("done");
}
#endif
