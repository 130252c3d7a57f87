// Translation between protocols.  -DZA=source -DZB=destination
#include "doc.h"
#include "gen.h"
#include <zerialize/protocols/zera.hpp>
#include <zerialize/protocols/msgpack.hpp>
#include <zerialize/protocols/flex.hpp>
#ifdef WITH_CBOR
#include <zerialize/protocols/cbor.hpp>
#endif
#include <zerialize/translate.hpp>
using A = z::ZA; using B = z::ZB;
constexpr bool flexy = std::is_same_v<A, z::Flex> || std::is_same_v<B, z::Flex>;
constexpr bool ord = !flexy;
static std::unique_ptr<CopyBuf> src(const Node &n) { auto b = encode<A>(n); return std::make_unique<CopyBuf>(b.buf()); }
// translate the whole document; the source bytes are gone when the result is read
static void xl(const Node &n) {
  auto cb = src(n);
  auto d = [&] { typename A::Deserializer r(cb->span()); return z::translate<B>(r); }();
  cb.reset();
  same<ord>(n, d);
  zs_cover("done");
}
ZS_ENTRY(x_scalar) {
  Node v;
  switch (zs_pick(7, "kind")) {
    case 0: v = nNull(); break;
    case 1: v = nBool(zs_u8("b") & 1); break;
    case 2: v = nInt((int64_t)zs_u64("v")); break;
    case 3: v = nUInt(zs_u64("v")); break;
    case 4: v = nDbl(zs_u64("v")); break;
    case 5: v = nStr(sym_str(3, "s")); break;
    default: v = nBlob(sym_str(3, "s")); break;
  }
  switch (zs_pick(3, "wrap")) {
    case 0: xl(v); break;
    case 1: { Node a = nArr(); a.c.push_back(nNull()); a.c.push_back(v); xl(a); break; }
    default: { Node m = nMap(); put(m, "q", v); put(m, "b", nNull()); xl(m); break; }
  }
}
ZS_ENTRY(x_str) { // params: from,to
  size_t n = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "len");
  bool blob = zs_pick(2, "blob");
  std::string s = n <= 300 ? sym_str(n, "s") : long_str(n, "s", 8);
  Node a = nArr(); a.c.push_back(blob ? nBlob(s) : nStr(s)); a.c.push_back(nBool(true)); xl(a);
}
ZS_ENTRY(x_tree) { // params: nodes depth kids wide
  int budget = (int)zs_param(0);
  xl(gen_tree(budget, (int)zs_param(1), (int)zs_param(2), (int)zs_param(3)));
}
ZS_ENTRY(x_keys) { // params: entries, max key length
  Node m = nMap();
  for (size_t i = 0; i < zs_param(0); i++) {
    std::string k = sym_str(zs_pick(zs_param(1) + 1, "kl"), "k");
    if (flexy) for (char c : k) zs_assume(c != 0);
    for (auto &o : m.keys) if (o.size() == k.size()) zs_assume(!eqs(o, k));
    put(m, k, nUInt(100 + i));
  }
  xl(m);
}
ZS_ENTRY(x_long) { // params: from, to: container sizes
  size_t n = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "n");
  bool map = zs_pick(2, "map");
  Node a = map ? nMap() : nArr();
  for (size_t i = 0; i < n; i++) {
    Node e = i + 1 == n ? nInt(-(int64_t)(zs_u8("last") & 31) - 1) : i % 3 == 0 ? nUInt(i * 100) : i % 3 == 1 ? nStr(std::string(i % 15, 'x')) : nBool(i & 1);
    if (map) put(a, std::string(1, (char)('k' + i / 676)) + (char)('a' + i / 26 % 26) + (char)('a' + i % 26), e); else a.c.push_back(e);
  }
  xl(a);
}
ZS_ENTRY(x_deep) { // params: from,to
  size_t d = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "d"); uint64_t pat = zs_pick(3, "pat");
  Node n = nStr(sym_str(2, "leaf"));
  for (size_t i = 0; i < d; i++) {
    bool map = pat == 0 ? false : pat == 1 ? true : i & 1;
    Node o = map ? nMap() : nArr();
    if (map) put(o, "a", std::move(n)); else o.c.push_back(std::move(n));
    n = std::move(o);
  }
  xl(n);
}
// translating a sub-value: exactly that sub-document
ZS_ENTRY(x_sub) {
  int budget = 2; Node sub = gen_tree(budget, 1, 1, 2);
  uint64_t where = zs_pick(3, "where");
  Node doc = nMap(); Node arr = nArr(); arr.c.push_back(nStr("before")); arr.c.push_back(where == 1 ? sub : nNull()); arr.c.push_back(nUInt(9));
  put(doc, "z", nBlob("zzz")); put(doc, "v", where == 0 ? sub : nNull()); put(doc, "arr", arr);
  Node in = nMap(); put(in, "deep", where == 2 ? sub : nNull()); put(in, "other", nStr("other")); put(doc, "in", in);
  auto cb = src(doc);
  try {
    auto d = [&] {
      typename A::Deserializer r(cb->span());
      if (where == 0) { auto e = r["v"]; return z::translate<B>(e); }
      if (where == 1) { auto e = r["arr"]; auto f = e[(size_t)1]; return z::translate<B>(f); }
      auto e = r["in"]; auto f = e["deep"]; return z::translate<B>(f);
    }();
    cb.reset();
    same<ord>(sub, d);
  } catch (const z::DeserializationError &) { ZS_FAIL("translating a sub-value raised"); }
  zs_cover("done");
}
// there and back
ZS_ENTRY(x_back) { // params: nodes depth kids wide
  int budget = (int)zs_param(0);
  Node n = gen_tree(budget, (int)zs_param(1), (int)zs_param(2), (int)zs_param(3));
  auto cb = src(n);
  auto d = [&] { typename A::Deserializer r(cb->span()); auto m = z::translate<B>(r); return z::translate<A>(m); }();
  cb.reset();
  same<ord>(n, d);
  zs_cover("done");
}
