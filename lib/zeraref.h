// An independent ZERA decoder written from protocols/ZERA.md (not from zera.hpp).
#pragma once
#include "doc.h"
struct ZRef {
  const uint8_t *p; size_t n; size_t env, envsz, arena;
  static uint64_t le(const uint8_t *q, int k) { uint64_t v = 0; for (int i = k; i-- > 0;) v = v << 8 | q[i]; return v; }
  const uint8_t *E(uint64_t ofs, uint64_t need) const { ZS_ASSERT(ofs <= envsz && need <= envsz - ofs, "layout: reference leaves the envelope"); return p + env + ofs; }
  const uint8_t *A(uint64_t ofs, uint64_t len) const { size_t al = n - arena; ZS_ASSERT(ofs <= al && len <= al - ofs, "layout: reference leaves the arena"); return p + arena + ofs; }
  explicit ZRef(std::span<const uint8_t> b) : p(b.data()), n(b.size()) {
    ZS_ASSERT(n >= 20, "layout: shorter than the header");
    ZS_ASSERT(p[0] == 'Z' && p[1] == 'E' && p[2] == 'N' && p[3] == 'V', "layout: magic");
    ZS_ASSERT(le(p + 4, 2) == 1, "layout: version"); ZS_ASSERT(le(p + 6, 2) == 1, "layout: flags");
    env = 20; envsz = le(p + 12, 4); arena = le(p + 16, 4);
    ZS_ASSERT(arena % 16 == 0, "layout: arena offset not 16-aligned"); ZS_ASSERT(arena >= 20 + envsz, "layout: arena overlaps the envelope"); ZS_ASSERT(arena <= n, "layout: arena offset past the end");
    for (size_t i = 20 + envsz; i < arena; i++) ZS_ASSERT(p[i] == 0, "layout: padding not zero");
  }
  Node root() const { return value(E(le(p + 8, 4), 16)); }
  Node value(const uint8_t *r) const {
    unsigned tag = (unsigned)zs_conc(r[0]), fl = r[1], aux = (unsigned)le(r + 2, 2); uint64_t a = le(r + 4, 4), b = le(r + 8, 4), c = le(r + 12, 4);
    if (tag != 4) ZS_ASSERT(fl == 0, "layout: flags set on a non-string");
    else ZS_ASSERT(fl <= 1, "layout: unknown string flags");
    switch (tag) {
      case 0: return nNull();
      case 1: ZS_ASSERT(aux <= 1, "layout: bool aux"); return nBool(aux == 1);
      case 2: return nInt((int64_t)(a | b << 32));
      case 8: return nUInt(a | b << 32);
      case 3: return nDbl(a | b << 32);
      case 4: if (fl) { ZS_ASSERT(aux <= 12, "layout: inline string too long"); return nStr(std::string((const char *)r + 4, aux)); }
              return nStr(std::string((const char *)A(a, b), b));
      case 5: { const uint8_t *q = E(a, 4); uint64_t k = le(q, 4); E(a, 4 + 16 * k); Node v = nArr(); for (uint64_t i = 0; i < k; i++) v.c.push_back(value(q + 4 + 16 * i)); return v; }
      case 6: { const uint8_t *q = E(a, 4); uint64_t k = le(q, 4), o = a + 4; Node v = nMap();
        for (uint64_t i = 0; i < k; i++) { q = E(o, 4); uint64_t kl = le(q, 2); ZS_ASSERT(le(q + 2, 2) == 0, "layout: reserved entry bits"); E(o, 4 + kl + 16); put(v, std::string((const char *)q + 4, kl), value(q + 4 + kl)); o += 4 + kl + 16; }
        return v; }
      case 7: { ZS_ASSERT(aux == 2, "layout: blob element type"); const uint8_t *q = E(c, 4); ZS_ASSERT(le(q, 4) == 1, "layout: blob rank"); q = E(c, 12); ZS_ASSERT(le(q + 4, 8) == b, "layout: blob shape"); ZS_ASSERT((arena + a) % 16 == 0, "layout: blob not 16-aligned"); return nBlob(std::string((const char *)A(a, b), b)); }
      default: ZS_FAIL("layout: unknown tag");
    }
  }
};
// exact equality of two documents
inline void same_doc(const Node &a, const Node &b) {
  ZS_ASSERT(a.k == b.k, "document kind differs");
  if (a.k == KBool || a.k == KInt || a.k == KUInt || a.k == KDbl) ZS_ASSERT(a.u == b.u, "scalar differs");
  if (a.k == KStr || a.k == KBlob) ZS_ASSERT(eqs(a.s, b.s), "bytes differ");
  ZS_ASSERT(a.c.size() == b.c.size() && a.keys.size() == b.keys.size(), "element count differs");
  for (size_t i = 0; i < a.keys.size(); i++) ZS_ASSERT(eqs(a.keys[i], b.keys[i]), "key differs");
  for (size_t i = 0; i < a.c.size(); i++) same_doc(a.c[i], b.c[i]);
}
