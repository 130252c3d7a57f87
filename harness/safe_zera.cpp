// ZERA reader over arbitrary bytes.
#include "hlib.h"
#include <zerialize/protocols/zera.hpp>
using R = z::Zera::Deserializer;
#include "walk.h"
static void put32(uint8_t *p, uint32_t v) { for (int i = 0; i < 4; i++) p[i] = (uint8_t)(v >> (8 * i)); }
static void go(const uint8_t *p, size_t n, int depth) {
  try {
    R r(std::span<const uint8_t>(p, n));
    zs_cover("accepted");
    walk(r, p, n, depth);
  } catch (const z::DeserializationError &) { zs_cover("rejected"); }
}
// params: n, depth.  All bytes arbitrary.
ZS_ENTRY(safe_any) { SymBuf b(zs_param(0)); go(b.p, b.n, (int)zs_param(1)); }
// params: env size, arena bytes, depth.  Valid fixed header, arbitrary root offset and contents
ZS_ENTRY(safe_env) {
  size_t env = zs_param(0), ar = zs_param(1);
  size_t aofs = (20 + env + 15) / 16 * 16;
  SymBuf b(aofs + ar);
  put32(b.p, 0x564E455A); b.p[4] = 1; b.p[5] = 0; b.p[6] = 1; b.p[7] = 0;
  if (zs_param(3) == 0) put32(b.p + 8, 0);
  put32(b.p + 12, (uint32_t)env); put32(b.p + 16, (uint32_t)aofs);
  go(b.p, b.n, (int)zs_param(2));
}
// params: n.  Every shorter input.
ZS_ENTRY(safe_short) { SymBuf b(zs_pick(zs_param(0) + 1, "n")); go(b.p, b.n, 1); }
