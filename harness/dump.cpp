// C28: the debug text of untrusted bytes.  -DZP= or -DWITH_CBOR
#ifdef WITH_CBOR
#include "doc.h"
#include <zerialize/protocols/cbor.hpp>
using R = z::CBOR::Deserializer;
constexpr bool kMp = false, kZera = false, kFlex = false;
#else
#include "proto.h"
#include "gen.h"
#endif
static void go(std::span<const uint8_t> b) {
  try { R r(b); zs_cover("opened"); std::string s = r.to_string(); zs_cover("dumped"); }
  catch (const z::DeserializationError &) { zs_cover("error"); }
}
ZS_ENTRY(dm_any) { SymBuf b(zs_param(0)); go(b.span()); } // params: n
#include "tok.h"
ZS_ENTRY(dm_tok) { TokBuf b(!kMp, zs_param(0), zs_param(1), zs_param(2), zs_param(3)); go(b.span()); } // whole tokens.  params: tokens, bytes cut off, first token
// a wide header first.  params: n, position of the header (0 root, 1 first element, 2 first key, 3 chunk)
ZS_ENTRY(dm_wide) {
  SymBuf b(zs_param(0)); size_t at = zs_param(1);
  if (kMp) { if (at) zs_assume(b.p[0] == (at == 1 ? 0x91 : 0x81)); at = at != 0; zs_assume(b.p[at] >= 0xc4 && b.p[at] <= 0xdf); }
  else { if (at) zs_assume(b.p[0] == (at == 1 ? 0x81 : at == 2 ? 0xa1 : at == 3 ? 0x7f : 0x5f)); at = at != 0; zs_assume((b.p[at] & 31) >= 24 && (b.p[at] & 31) <= 27); }
  for (size_t i = at + 5; i < b.n; i++) zs_assume(kMp ? b.p[i] < 0x80 : b.p[i] < 24 || b.p[i] == 0xff);
  go(b.span());
}
// params: lo hi
ZS_ENTRY(dm_deep) {
  size_t n = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "n");
  uint8_t kind = (uint8_t)zs_pick(kMp ? 1 : 2, "kind");
  uint8_t *p = (uint8_t *)malloc(n + 1);
  memset(p, kMp ? 0x91 : kind ? 0x9f : 0x81, n);
  p[n] = zs_u8("leaf") & 0x17;
  go(std::span<const uint8_t>(p, n + 1));
  free(p); zs_cover("done");
}
#ifndef WITH_CBOR
// every document the library writes has a debug text
static Node dm_leaf() {
  switch (zs_pick(8, "kind")) { case 0: return nNull(); case 1: return nBool(zs_u8("b") & 1); case 2: return nInt((int64_t)zs_u64("i")); case 3: return nUInt(zs_u64("u")); case 4: return nDbl(zs_u64("d")); case 5: return nStr(sym_str(zs_pick(3, "slen"), "s")); case 6: return nStr(std::string(20, 'x')); default: return nBlob(sym_str(3, "x")); }
}
ZS_ENTRY(dm_doc) {
  Node d;
  switch (zs_pick(4, "shape")) {
    case 0: d = dm_leaf(); break;
    case 1: d = nArr(); d.c = {dm_leaf(), nArr(), nMap()}; break;
    case 2: d = nMap(); put(d, sym_str(zs_pick(3, "klen"), "key"), dm_leaf()); if (kFlex) for (char c : d.keys[0]) zs_assume(c != 0); break;
    default: { d = nArr(); Node m = nMap(); put(m, "k", dm_leaf()); put(m, "l", nArr()); m.c[1].c = {nInt(1), nNull()}; d.c = {m, nStr("")}; break; }
  }
  z::ZBuffer b = encode<P>(d);
  CopyBuf c(b.buf());
  try { R r(c.span()); std::string s = r.to_string(); zs_cover("done"); } catch (const z::DeserializationError &) { ZS_FAIL("no debug text for a written document"); }
}
ZS_ENTRY(dm_nest) { // params: depth
  Node d = nInt(1); for (uint64_t i = zs_param(0); i--;) { Node a = nArr(); a.c.push_back(std::move(d)); d = std::move(a); }
  z::ZBuffer b = encode<P>(d);
  R r(b.buf()); std::string s = r.to_string(); zs_cover("done");
}
#endif
