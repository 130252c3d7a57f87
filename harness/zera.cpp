// ZERA layout conformance, header acceptance and writer call histories.
#include "zeraref.h"
#include "gen.h"
#include <zerialize/protocols/zera.hpp>
using P = z::Zera; using R = P::Deserializer;
static void conf(const Node &n) { auto b = encode<P>(n); CopyBuf cb(b.buf()); ZRef r(cb.span()); same_doc(n, r.root()); zs_cover("done"); }
ZS_ENTRY(zl_tree) { int budget = (int)zs_param(0); conf(gen_tree(budget, (int)zs_param(1), (int)zs_param(2), (int)zs_param(3))); }
ZS_ENTRY(zl_str) { // params: from,to ; several strings/blobs so that arena positions vary
  size_t n = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "len"); std::string s = n <= 300 ? sym_str(n, "s") : long_str(n, "s", 8);
  Node a = nArr();
  switch (zs_pick(5, "shape")) {
    case 0: a = nStr(s); break;
    case 1: a = nBlob(s); break;
    case 2: a.c.push_back(nStr(s)); a.c.push_back(nBlob("b")); a.c.push_back(nStr(s)); break;
    case 3: a.c.push_back(nBlob(s)); a.c.push_back(nBlob(s)); a.c.push_back(nStr("0123456789abc")); break;
    default: a = nMap(); put(a, n > 65535 ? std::string("k") : s, nStr(s)); put(a, "m2", nBlob(s)); break;
  }
  conf(a);
}
ZS_ENTRY(zl_size) { // params: from,to
  size_t n = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "n"); bool map = zs_pick(2, "map"); Node a = map ? nMap() : nArr();
  for (size_t i = 0; i < n; i++) { Node e = i + 1 == n ? nUInt(zs_u64("u")) : i % 2 ? nInt(-(int64_t)i) : nStr(std::string(i % 15, 'y')); if (map) put(a, std::string(i % 7, 'k') + (char)('a' + i % 26), e); else a.c.push_back(e); }
  conf(a);
}
ZS_ENTRY(zl_deep) { // params: from,to
  size_t d = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "d"); uint64_t pat = zs_pick(3, "pat"); Node n = nStr(sym_str(14, "leaf"));
  for (size_t i = 0; i < d; i++) { bool map = pat == 0 ? false : pat == 1 ? true : i & 1; Node o = map ? nMap() : nArr(); if (map) { put(o, "a", std::move(n)); put(o, "b", nBlob(std::string(i % 20, 'q'))); } else { o.c.push_back(std::move(n)); o.c.push_back(nInt(-(int64_t)i)); } n = std::move(o); }
  conf(n);
}
ZS_ENTRY(zl_inline) { // every inline threshold, every length
  uint32_t t = zs_u32("t"); size_t n = zs_pick(15, "len"); std::string s = sym_str(n, "s");
  P::RootSerializer rs;
  try { rs.set_inline_string_threshold(t); ZS_ASSERT(t <= 12, "an inline threshold above 12 was accepted"); }
  catch (const z::SerializationError &) { ZS_ASSERT(t > 12, "a valid inline threshold was rejected"); zs_cover("rejected"); return; }
  t = (uint32_t)zs_conc(t);
  P::Serializer w(rs); Node a = nArr(); a.c.push_back(nStr(s)); a.c.push_back(nStr("abc")); a.c.push_back(nStr(s)); emit(a, w);
  auto b = rs.finish(); CopyBuf cb(b.buf()); ZRef r(cb.span()); same_doc(a, r.root()); R rd(cb.span()); same<true>(a, rd); zs_cover("done");
}
// ---- header acceptance: params: from,to (buffer lengths)
ZS_ENTRY(zh_accept) {
  size_t n = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "n"); SymBuf b(n);
  bool ok = n >= 20;
  if (ok) {
    uint64_t root = ZRef::le(b.p + 8, 4), env = ZRef::le(b.p + 12, 4), ar = ZRef::le(b.p + 16, 4);
    ok = (b.p[0] == 'Z') & (b.p[1] == 'E') & (b.p[2] == 'N') & (b.p[3] == 'V') & (b.p[4] == 1) & (b.p[5] == 0) & (b.p[6] == 1) & (b.p[7] == 0) &
         (ar % 16 == 0) & (ar >= 20 + env) & (20 + env <= n) & (ar <= n) & (root + 16 <= env);
  }
  bool acc = true; int how = (int)zs_pick(4, "ctor");
  try {
    switch (how) {
      case 0: { R r(b.span()); break; }
      case 1: { R r(b.p, b.n); break; }
      case 2: { R r((const std::byte *)b.p, b.n); break; }
      default: { std::vector<uint8_t> v(b.p, b.p + b.n); R r(v); R q(std::move(v)); break; }
    }
  } catch (const z::DeserializationError &) { acc = false; }
  ZS_ASSERT(acc || !ok, "a buffer satisfying the header invariants was rejected");
  ZS_ASSERT(!acc || ok, "a buffer violating a header invariant was accepted");
  zs_cover(acc ? "accepted" : "rejected");
}
// an accepted buffer presents the value at root_ofs
ZS_ENTRY(zh_root) { // params: env size
  size_t env = zs_param(0), ar = (20 + env + 15) / 16 * 16; SymBuf b(ar + 8);
  static const uint8_t H[8] = {'Z', 'E', 'N', 'V', 1, 0, 1, 0}; memcpy(b.p, H, 8); for (int i = 0; i < 4; i++) { b.p[12 + i] = (uint8_t)(env >> 8 * i); b.p[16 + i] = (uint8_t)(ar >> 8 * i); }
  uint64_t ro = zs_pick(env - 15, "root"); for (int i = 0; i < 4; i++) b.p[8 + i] = (uint8_t)(ro >> 8 * i);
  const uint8_t *v = b.p + 20 + ro; uint64_t lo = ZRef::le(v + 4, 8);
  try {
    R r(b.span());
    ZS_ASSERT(r.isNull() == (v[0] == 0) && r.isBool() == (v[0] == 1) && r.isInt() == (v[0] == 2) && r.isFloat() == (v[0] == 3) && r.isString() == (v[0] == 4) && r.isArray() == (v[0] == 5) && r.isMap() == (v[0] == 6) && r.isUInt() == (v[0] == 8), "root kind is not that of the referenced value");
    ZS_ASSERT(r.isBlob() == (v[0] == 7 && v[2] == 2 && v[3] == 0), "root blob classification");
    if (r.isInt() && v[1] == 0) { int64_t x = r.asInt64(); ZS_ASSERT((uint64_t)x == lo, "root integer"); }
    if (r.isUInt() && v[1] == 0) { uint64_t x = r.asUInt64(); ZS_ASSERT(x == lo, "root integer"); }
    if (r.isFloat() && v[1] == 0) { double x = r.asDouble(); ZS_ASSERT(bits(x) == lo, "root float"); }
    zs_cover("accepted");
  } catch (const z::DeserializationError &) { ZS_FAIL("a valid header or scalar was rejected"); }
}
// ---- writer histories
#include "model.h"
ZS_ENTRY(zw_hist) { // params: steps, max, first op+1
  P::RootSerializer rs; P::Serializer w(rs); Model m; size_t steps = zs_param(0); bool fin = false;
  try {
    for (size_t t = 0; t < steps; t++) {
      uint64_t op = t == 0 && zs_param(1) ? zs_param(1) - 1 : zs_pick(9, "op");
      switch (op) {
        case 0: { int64_t v = (int64_t)zs_u64("v"); m.val(nInt(v)); w.int64(v); break; }
        case 1: { std::string s = sym_str(zs_pick(2, "long") ? 14 : 2, "s"); Exact e(s); m.val(nStr(s)); w.string(e.sv()); break; }
        case 2: { std::string s = sym_str(3, "x"); Exact e(s); m.val(nBlob(s)); w.binary(e.bytes()); break; }
        case 3: { std::string k = sym_str(2, "k"); if (!m.bad && !m.st.empty()) for (auto &o : m.st.back().n.keys) zs_assume(!eqs(o, k)); Exact e(k); m.key(k); w.key(e.sv()); break; }
        case 4: m.open(false); w.begin_array(zs_pick(2, "res") * 5); break;
        case 5: m.open(true); w.begin_map(zs_pick(2, "res") * 5); break;
        case 6: m.close(false); w.end_array(); break;
        case 7: m.close(true); w.end_map(); break;
        default: if (zs_pick(2, "nb")) { m.val(nNull()); w.null(); } else { bool b = zs_u8("b") & 1; m.val(nBool(b)); w.boolean(b); } break;
      }
    }
    fin = true;
    auto b = rs.finish();
    ZS_ASSERT(!m.bad, "a malformed sequence of writer calls produced a buffer");
    ZS_ASSERT(m.st.empty(), "finishing inside an open container produced a buffer");
    Node want = m.root ? *m.root : nNull();
    CopyBuf cb(b.buf()); R r(cb.span()); same<true>(want, r); ZRef zr(cb.span()); same_doc(want, zr.root());
    zs_cover("finished");
    bool raised = false; try { w.int64(1); } catch (const z::SerializationError &) { raised = true; }
    ZS_ASSERT(raised, "a second root value was accepted after finishing");
  } catch (const z::SerializationError &) { ZS_ASSERT(m.bad || (fin && !m.st.empty()), "a well-formed sequence of writer calls was rejected"); zs_cover("raised"); }
  catch (const z::DeserializationError &) { ZS_FAIL("the finished buffer is not readable"); }
}
// keys at the length limit
ZS_ENTRY(zw_key) { // params: from,to
  size_t n = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "n"); std::string k = long_str(n, "k", 4); P::RootSerializer rs; P::Serializer w(rs); bool raised = false;
  try { w.begin_map(1); w.key(k); w.null(); w.end_map(); auto b = rs.finish(); CopyBuf cb(b.buf()); ZRef r(cb.span()); Node m = nMap(); put(m, k, nNull()); same_doc(m, r.root()); R rd(cb.span()); same<true>(m, rd); } catch (const z::SerializationError &) { raised = true; }
  ZS_ASSERT(raised == (n > 65535), "keys longer than 65535 bytes must raise, and only those");
  zs_cover(raised ? "raised" : "ok");
}
