// Base64 codec against RFC 4648.
#include "doc.h"
#include <zerialize/internals/base64.hpp>
// branch-free RFC 4648 table 1
static uint8_t letter(unsigned v) { return (uint8_t)(v + 65 + (v > 25) * 6 - (v > 51) * 75 - (v > 61) * 15 + (v > 62) * 3); }
static bool in(uint8_t c, uint8_t lo, uint8_t hi) { return (uint8_t)(c - lo) <= (uint8_t)(hi - lo); }
static bool alpha(uint8_t c) { return in(c, 'A', 'Z') | in(c, 'a', 'z') | in(c, '0', '9') | (c == '+') | (c == '/'); }
static unsigned sextet(uint8_t c) { return (in(c, 'A', 'Z') * (c - 65u) + in(c, 'a', 'z') * (c - 71u) + in(c, '0', '9') * (c + 4u) + (c == '+') * 62u + (c == '/') * 63u) & 63; }
ZS_ENTRY(b64_enc) { // params: from,to
  size_t n = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "n");
  std::string in = sym_str(n, "in"); Exact e(in);
  std::string t = z::base64Encode(e.bytes());
  ZS_ASSERT(t.size() == (n + 2) / 3 * 4, "encoded length is not that of RFC 4648");
  bool ok = true;
  for (size_t g = 0; g * 3 < n; g++) {
    uint32_t w = 0; size_t left = n - g * 3;
    for (size_t i = 0; i < 3; i++) w = w << 8 | (i < left ? (uint8_t)in[g * 3 + i] : 0);
    for (size_t i = 0; i < 4; i++) { uint8_t want = i <= left ? letter(w >> (18 - 6 * i) & 63) : (uint8_t)'='; ok &= (uint8_t)t[g * 4 + i] == want; }
  }
  ZS_ASSERT(ok, "encoded text differs from RFC 4648");
  Exact te(t);
  try { auto d = z::base64Decode(te.sv()); ZS_ASSERT(d.size() == n && (n == 0 || memcmp(d.data(), in.data(), n) == 0), "decoding the encoding gives other bytes"); }
  catch (const z::DeserializationError &) { ZS_FAIL("decoding the encoding raised"); }
  zs_cover("done");
}
// arbitrary text
ZS_ENTRY(b64_dec) { // params: from,to
  size_t n = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "n");
  std::string in = sym_str(n, "t"); Exact e(in);
  size_t k = 0; bool bad = false;
  while (k < n && in[k] != '=') { bad |= !alpha((uint8_t)in[k]); k++; }
  std::vector<std::byte> d; bool threw = false;
  try { d = z::base64Decode(e.sv()); } catch (const z::DeserializationError &) { threw = true; }
  if (bad) { ZS_ASSERT(threw, "text with a character outside the alphabet was decoded"); zs_cover("bad"); return; }
  // a well-formed text: whole groups with exactly the padding needed and no stray bits
  bool wf = n % 4 == 0 && k % 4 != 1 && n - k <= 2 && (k + 3) / 4 * 4 == n;
  for (size_t i = k; i < n; i++) wf = wf && in[i] == '=';
  if (wf && k % 4 == 2) wf = (sextet((uint8_t)in[k - 1]) & 15) == 0;
  if (wf && k % 4 == 3) wf = (sextet((uint8_t)in[k - 1]) & 3) == 0;
  if (wf) ZS_ASSERT(!threw, "well-formed text rejected");
  if (threw) { zs_cover("lenient"); return; }
  ZS_ASSERT(d.size() == k * 6 / 8, "decoded length wrong");
  bool ok = true; uint32_t w = 0; int nb = 0; size_t o = 0;
  for (size_t i = 0; i < k; i++) { w = w << 6 | sextet((uint8_t)in[i]); nb += 6; if (nb >= 8) { nb -= 8; ok &= (uint8_t)d[o++] == (uint8_t)(w >> nb); } }
  ZS_ASSERT(ok, "decoded bytes wrong");
  zs_cover("done");
}
// long data: a few arbitrary bytes at the start, in the middle and at the end
ZS_ENTRY(b64_long) { // params: from,to
  size_t n = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "n");
  std::string in(n, 0); for (size_t i = 0; i < n; i++) in[i] = (char)(i * 37 + i / 7);
  char x[6]; zs_bytes(x, 6, "in"); size_t at[6] = {0, n / 3, n / 3 + 1, n / 2, n - 2, n - 1};
  for (int i = 0; i < 6; i++) in[at[i]] = x[i];
  Exact e(in); std::string t = z::base64Encode(e.bytes());
  ZS_ASSERT(t.size() == (n + 2) / 3 * 4, "encoded length is not that of RFC 4648");
  bool ok = true;
  for (size_t g = 0; g * 3 < n; g++) {
    uint32_t w = 0; size_t left = n - g * 3;
    for (size_t i = 0; i < 3; i++) w = w << 8 | (i < left ? (uint8_t)in[g * 3 + i] : 0);
    for (size_t i = 0; i < 4; i++) { uint8_t want = i <= left ? letter(w >> (18 - 6 * i) & 63) : (uint8_t)'='; ok &= (uint8_t)t[g * 4 + i] == want; }
  }
  ZS_ASSERT(ok, "encoded text differs from RFC 4648");
  Exact te(t);
  try { auto d = z::base64Decode(te.sv()); ZS_ASSERT(d.size() == n && memcmp(d.data(), in.data(), n) == 0, "decoding the encoding gives other bytes"); }
  catch (const z::DeserializationError &) { ZS_FAIL("decoding the encoding raised"); }
  zs_cover("done");
}
// one arbitrary character anywhere in a long text
ZS_ENTRY(b64_char) { // params: length (a multiple of 4), position or 1000 for all
  size_t n = zs_param(0), at = zs_param(1) < n ? zs_param(1) : zs_pick(n, "at");
  std::string t; for (size_t i = 0; i < n; i++) t.push_back((char)letter((i * 11 + i / 5) & 63));
  uint8_t c = zs_u8("c"); zs_assume(c != '='); t[at] = (char)c;
  Exact e(t); bool threw = false; std::vector<std::byte> d;
  try { d = z::base64Decode(e.sv()); } catch (const z::DeserializationError &) { threw = true; }
  ZS_ASSERT(threw == !alpha(c), "a character is accepted exactly when it belongs to the alphabet");
  if (threw) { zs_cover("bad"); return; }
  ZS_ASSERT(d.size() == n / 4 * 3, "decoded length wrong");
  bool ok = true;
  for (size_t g = 0; g * 4 < n; g++) { uint32_t w = 0; for (size_t i = 0; i < 4; i++) w = w << 6 | sextet((uint8_t)t[g * 4 + i]); for (size_t i = 0; i < 3; i++) ok &= (uint8_t)d[g * 3 + i] == (uint8_t)(w >> (16 - 8 * i)); }
  ZS_ASSERT(ok, "decoded bytes wrong");
  zs_cover("done");
}
