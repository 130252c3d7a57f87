// MessagePack conformance, both directions, against the specification.
#include "doc.h"
#include "gen.h"
#include <zerialize/protocols/msgpack.hpp>
using P = z::MsgPack; using R = P::Deserializer;
// ---- reference decoder
struct MRef {
  const uint8_t *p; size_t n, o = 0;
  const uint8_t *take(size_t k) { ZS_ASSERT(k <= n - o, "msgpack: object runs past the end"); const uint8_t *q = p + o; o += k; return q; }
  uint64_t be(int k) { const uint8_t *q = take(k); uint64_t v = 0; for (int i = 0; i < k; i++) v = v << 8 | q[i]; return v; }
  std::string str(uint64_t k) { return std::string((const char *)take(k), k); }
  Node arr(uint64_t k) { Node a = nArr(); for (uint64_t i = 0; i < k; i++) a.c.push_back(obj()); return a; }
  Node map(uint64_t k) { Node a = nMap(); for (uint64_t i = 0; i < k; i++) { Node key = obj(); ZS_ASSERT(key.k == KStr, "msgpack: key is not a string"); put(a, key.s, obj()); } return a; }
  Node obj() {
    uint8_t m = *take(1);
    if (m <= 0x7f) return nUInt(m);
    if (m >= 0xe0) return nInt((int8_t)m);
    if (m <= 0x8f) return map(zs_conc(m & 15));
    if (m <= 0x9f) return arr(zs_conc(m & 15));
    if (m <= 0xbf) return nStr(str(zs_conc(m & 31)));
    switch (zs_conc(m)) {
      case 0xc0: return nNull(); case 0xc2: return nBool(false); case 0xc3: return nBool(true);
      case 0xc4: return nBlob(str(be(1))); case 0xc5: return nBlob(str(be(2))); case 0xc6: return nBlob(str(be(4)));
      case 0xcb: return nDbl(be(8));
      case 0xcc: return nUInt(be(1)); case 0xcd: return nUInt(be(2)); case 0xce: return nUInt(be(4)); case 0xcf: return nUInt(be(8));
      case 0xd0: return nInt((int8_t)be(1)); case 0xd1: return nInt((int16_t)be(2)); case 0xd2: return nInt((int32_t)be(4)); case 0xd3: return nInt((int64_t)be(8));
      case 0xd9: return nStr(str(be(1))); case 0xda: return nStr(str(be(2))); case 0xdb: return nStr(str(be(4)));
      case 0xdc: return arr(be(2)); case 0xdd: return arr(be(4)); case 0xde: return map(be(2)); case 0xdf: return map(be(4));
      default: ZS_FAIL("msgpack: a value was written in a format that does not carry it");
    }
  }
};
static void eqn(const Node &w, const Node &g) { // written, decoded
  if (w.k == KInt || w.k == KUInt) {
    ZS_ASSERT(g.k == KInt || g.k == KUInt, "wire: integer written as another kind");
    bool wneg = w.k == KInt && (int64_t)w.u < 0, gneg = g.k == KInt && (int64_t)g.u < 0;
    ZS_ASSERT(w.u == g.u && wneg == gneg, "wire: integer differs"); return;
  }
  ZS_ASSERT(w.k == g.k, "wire: kind differs");
  if (w.k == KBool || w.k == KDbl) ZS_ASSERT(w.u == g.u, "wire: scalar differs");
  if (w.k == KStr || w.k == KBlob) ZS_ASSERT(eqs(w.s, g.s), "wire: bytes differ");
  ZS_ASSERT(w.c.size() == g.c.size() && w.keys.size() == g.keys.size(), "wire: element count differs");
  for (size_t i = 0; i < w.keys.size(); i++) ZS_ASSERT(eqs(w.keys[i], g.keys[i]), "wire: key differs");
  for (size_t i = 0; i < w.c.size(); i++) eqn(w.c[i], g.c[i]);
}
static void conf(const Node &n) { auto b = encode<P>(n); CopyBuf cb(b.buf()); MRef r{cb.p, cb.n}; Node g = r.obj(); ZS_ASSERT(r.o == cb.n, "wire: trailing bytes after the object"); eqn(n, g); zs_cover("done"); }
ZS_ENTRY(mw_tree) { int budget = (int)zs_param(0); conf(gen_tree(budget, (int)zs_param(1), (int)zs_param(2), (int)zs_param(3))); }
ZS_ENTRY(mw_str) { size_t n = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "len"); std::string s = n <= 300 ? sym_str(n, "s") : long_str(n, "s", 8); Node a = nArr();
  switch (zs_pick(3, "shape")) { case 0: a = nStr(s); break; case 1: a = nBlob(s); break; default: a = nMap(); put(a, s, nStr("x")); put(a, "k2", nBlob("y")); break; } conf(a); }
ZS_ENTRY(mw_size) { size_t n = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "n"); bool map = zs_pick(2, "map"); Node a = map ? nMap() : nArr();
  for (size_t i = 0; i < n; i++) { Node e = i + 1 == n ? nUInt(zs_u8("u")) : nInt(-(int64_t)(i % 200)); if (map) put(a, std::string(i % 40, 'k'), e); else a.c.push_back(e); } conf(a); }
ZS_ENTRY(mw_deep) { // params: from,to
  size_t d = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "d"); uint64_t pat = zs_pick(3, "pat"); Node n = nStr(sym_str(2, "leaf"));
  for (size_t i = 0; i < d; i++) { bool map = pat == 0 ? false : pat == 1 ? true : i & 1; Node o = map ? nMap() : nArr(); if (map) { put(o, "a", std::move(n)); put(o, "b", nUInt(i)); } else { o.c.push_back(std::move(n)); o.c.push_back(nInt(-(int64_t)i)); } n = std::move(o); }
  conf(n);
}
// ---- reference encoder: every wire format
static void be(std::string &o, uint64_t v, int k) { for (int i = k; i-- > 0;) o.push_back((char)(v >> 8 * i)); }
static void hdr(std::string &o, size_t n, const char *what, int fixmax, uint8_t fix, std::initializer_list<std::pair<uint8_t, int>> fm) {
  std::vector<std::pair<uint8_t, int>> ok; if ((int)n <= fixmax) ok.push_back({fix, 0}); for (auto &f : fm) if (f.second == 4 || n < (1ull << 8 * f.second)) ok.push_back(f);
  auto f = ok[zs_pick(ok.size(), what)];
  if (!f.second) o.push_back((char)(f.first | n)); else { o.push_back((char)f.first); be(o, n, f.second); }
}
static void wstr(std::string &o, const std::string &s) { hdr(o, s.size(), "strfmt", 31, 0xa0, {{0xd9, 1}, {0xda, 2}, {0xdb, 4}}); o += s; }
static Node wleaf(std::string &o, int set) {
  static const uint8_t S0[3] = {0, 2, 33}, S1[2] = {1, 5};
  switch (zs_pick(16, "fmt")) {
    case 0: o.push_back((char)0xc0); return nNull();
    case 1: { bool b = zs_pick(2, "b"); o.push_back((char)(0xc2 | b)); return nBool(b); }
    case 2: { uint8_t v = zs_u8("pf"); zs_assume(v < 128); o.push_back((char)v); return nUInt(v); }
    case 3: { uint8_t v = zs_u8("nf"); zs_assume(v >= 0xe0); o.push_back((char)v); return nInt((int8_t)v); }
    case 4: { uint8_t v = zs_val<uint8_t>("v"); o.push_back((char)0xcc); be(o, v, 1); return nUInt(v); }
    case 5: { uint16_t v = zs_val<uint16_t>("v"); o.push_back((char)0xcd); be(o, v, 2); return nUInt(v); }
    case 6: { uint32_t v = zs_val<uint32_t>("v"); o.push_back((char)0xce); be(o, v, 4); return nUInt(v); }
    case 7: { uint64_t v = zs_val<uint64_t>("v"); o.push_back((char)0xcf); be(o, v, 8); return nUInt(v); }
    case 8: { int8_t v = zs_val<int8_t>("v"); o.push_back((char)0xd0); be(o, (uint8_t)v, 1); return nInt(v); }
    case 9: { int16_t v = zs_val<int16_t>("v"); o.push_back((char)0xd1); be(o, (uint16_t)v, 2); return nInt(v); }
    case 10: { int32_t v = zs_val<int32_t>("v"); o.push_back((char)0xd2); be(o, (uint32_t)v, 4); return nInt(v); }
    case 11: { int64_t v = zs_val<int64_t>("v"); o.push_back((char)0xd3); be(o, (uint64_t)v, 8); return nInt(v); }
    case 12: { uint32_t b = zs_u32("f"); zs_assume((b & 0x7f800000) != 0x7f800000); o.push_back((char)0xca); be(o, b, 4); float f; memcpy(&f, &b, 4); return nDbl(bits((double)f)); }
    case 13: { uint64_t b = zs_u64("d"); o.push_back((char)0xcb); be(o, b, 8); return nDbl(b); }
    case 14: { std::string s = sym_str(set ? S1[zs_pick(2, "sl")] : S0[zs_pick(3, "sl")], "s"); wstr(o, s); return nStr(s); }
    default: { std::string s = sym_str(set ? S1[zs_pick(2, "bl")] : S0[zs_pick(3, "bl")], "x"); hdr(o, s.size(), "binfmt", -1, 0, {{0xc4, 1}, {0xc5, 2}, {0xc6, 4}}); o += s; return nBlob(s); }
  }
}
static Node wtree(std::string &o, int &budget, int depth, int kidsmax) {
  budget--;
  int what = depth > 0 ? (int)zs_pick(3, "shape") : 0;
  if (!what) return wleaf(o, 1);
  int room = budget < kidsmax ? budget : kidsmax, kids = (int)zs_pick(room + 1, "kids"); budget -= kids;
  Node n = what == 1 ? nArr() : nMap();
  if (what == 1) hdr(o, kids, "arrfmt", 15, 0x90, {{0xdc, 2}, {0xdd, 4}}); else hdr(o, kids, "mapfmt", 15, 0x80, {{0xde, 2}, {0xdf, 4}});
  for (int i = 0; i < kids; i++) { budget++; if (what == 2) { std::string k = gen_key(i); wstr(o, k); Node c = wtree(o, budget, depth - 1, kidsmax); put(n, k, c); } else n.c.push_back(wtree(o, budget, depth - 1, kidsmax)); }
  return n;
}
static void rd(const std::string &o, const Node &n) { CopyBuf cb({(const uint8_t *)o.data(), o.size()}); R r(cb.span()); same<true>(n, r); zs_cover("done"); }
ZS_ENTRY(mr_leaf) { // every leaf format at the root, between other elements, and as map value
  std::string l; Node n = wleaf(l, 0);
  switch (zs_pick(3, "wrap")) {
    case 0: rd(l, n); break;
    case 1: { std::string o("\x93\xc0", 2); o += l; o += "\xa1z"; Node a = nArr(); a.c.push_back(nNull()); a.c.push_back(n); a.c.push_back(nStr("z")); rd(o, a); break; }
    default: { std::string o("\x82\xa1" "a", 3); o += l; o += std::string("\xd9\x01" "b\x05", 4); Node m = nMap(); put(m, "a", n); put(m, "b", nUInt(5)); rd(o, m); break; }
  }
}
ZS_ENTRY(mr_tree) { std::string o; int budget = (int)zs_param(0); Node n = wtree(o, budget, (int)zs_param(1), (int)zs_param(2)); rd(o, n); }
ZS_ENTRY(mr_size) { // params from,to: container sizes with every header width
  size_t n = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "n"); std::string o; bool map = zs_pick(2, "map"); Node a = map ? nMap() : nArr();
  if (!map) hdr(o, n, "arrfmt", 15, 0x90, {{0xdc, 2}, {0xdd, 4}}); else hdr(o, n, "mapfmt", 15, 0x80, {{0xde, 2}, {0xdf, 4}});
  for (size_t i = 0; i < n; i++) { uint8_t v = i + 1 == n ? zs_u8("v") : (uint8_t)i; if (map) { std::string k{(char)('a' + i / 676), (char)('a' + i / 26 % 26), (char)('a' + i % 26)}; o.push_back((char)0xa3); o += k; put(a, k, nUInt(v)); } else a.c.push_back(nUInt(v)); o.push_back((char)0xcc); o.push_back((char)v); }
  if (n <= 300) { rd(o, a); return; }
  CopyBuf cb({(const uint8_t *)o.data(), o.size()}); R r(cb.span());
  try {
    ZS_ASSERT(r.isArray() == !map && r.isMap() == map, "classification of a large container");
    if (!map) ZS_ASSERT(r.arraySize() == n, "array size changed");
    else { size_t i = 0; for (std::string_view k : r.mapKeys()) { ZS_ASSERT(i < n && eqs(k, a.keys[i]), "map key changed or out of order"); i++; } ZS_ASSERT(i == n, "map lost keys"); }
    for (size_t i : {(size_t)0, n / 2, n - 2, n - 1}) if (map) { auto e = r[std::string_view(a.keys[i])]; same<true>(a.c[i], e); } else { auto e = r[i]; same<true>(a.c[i], e); }
  } catch (const z::DeserializationError &) { ZS_FAIL("reading a valid document failed"); }
  zs_cover("done");
}
ZS_ENTRY(mr_str) { // params from,to: string / blob / key lengths with every header width
  size_t n = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "n"); std::string s = n <= 300 ? sym_str(n, "s") : long_str(n, "s", 8), o; 
  switch (zs_pick(3, "kind")) {
    case 0: { o = "\x92"; wstr(o, s); o += "\x07"; Node a = nArr(); a.c.push_back(nStr(s)); a.c.push_back(nUInt(7)); rd(o, a); break; }
    case 1: { o = "\x92"; hdr(o, n, "binfmt", -1, 0, {{0xc4, 1}, {0xc5, 2}, {0xc6, 4}}); o += s; o += "\x07"; Node a = nArr(); a.c.push_back(nBlob(s)); a.c.push_back(nUInt(7)); rd(o, a); break; }
    default: { zs_assume(n != 1 || s[0] != 'q'); o = "\x82"; wstr(o, s); o += "\x07\xa1q\x08"; Node m = nMap(); put(m, s, nUInt(7)); put(m, "q", nUInt(8)); rd(o, m); break; }
  }
}
// counts of any size: the header says exactly what the caller announced, or the call raises
ZS_ENTRY(mw_count) {
  uint64_t n = zs_u64("n"); bool map = zs_pick(2, "map");
  P::RootSerializer rs; P::Serializer w(rs);
  try { if (map) w.begin_map(n); else w.begin_array(n); } catch (const std::runtime_error &) { ZS_ASSERT(n > 0xffffffffu, "a count that fits is refused"); zs_cover("refused"); return; }
  z::ZBuffer b = rs.finish(); CopyBuf c(b.buf()); MRef f{c.p, c.n};
  uint8_t m = (uint8_t)zs_conc(*f.take(1)); uint64_t got;
  if (map) { if (m == 0xde) got = f.be(2); else if (m == 0xdf) got = f.be(4); else { ZS_ASSERT((m & 0xf0) == 0x80, "not a map header"); got = m & 15; } }
  else { if (m == 0xdc) got = f.be(2); else if (m == 0xdd) got = f.be(4); else { ZS_ASSERT((m & 0xf0) == 0x90, "not an array header"); got = m & 15; } }
  ZS_ASSERT(f.o == c.n, "bytes after the header"); ZS_ASSERT(got == n, "the header claims another number of elements");
  zs_cover("done");
}
