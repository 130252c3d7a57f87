// C05: MsgPack reader over arbitrary bytes.
#include "hlib.h"
#include <zerialize/protocols/msgpack.hpp>
using R = z::MsgPack::Deserializer;
#include "walk.h"
#include "tok.h"
ZS_ENTRY(safe_tok) { TokBuf b(false, zs_param(0), zs_param(1), zs_param(2), zs_param(4)); R r(b.span()); walk(r, b.p, b.n, (int)zs_param(3)); } // params: tokens, cut, first, depth
ZS_ENTRY(safe_mp) {
  SymBuf b(zs_param(0));
  R r(b.span());
  walk(r, b.p, b.n, (int)zs_param(1));
}
// params: n, depth, prefix, group.  A wide header (group 0: scalars/strings/blobs/ext, 1: array/map) at the root,
// in an array or in a map; every other byte arbitrary.
ZS_ENTRY(safe_wide) {
  SymBuf b(zs_param(0));
  size_t o = 0;
  if (zs_param(2) == 1) { b.p[0] = 0x92; o = 1; }
  if (zs_param(2) == 2) { b.p[0] = 0x82; b.p[1] = 0xa1; b.p[2] = 'a'; o = 3; }
  uint8_t h = b.p[o];
  if (zs_param(3) == 0) zs_assume(h >= 0xc4 && h <= 0xdb); else { zs_assume(h >= 0xdc && h <= 0xdf); }
  R r(b.span());
  walk(r, b.p, b.n, (int)zs_param(1));
}
