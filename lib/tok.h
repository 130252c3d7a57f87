// Inputs made of whole tokens: every sequence of `n` format tokens with arbitrary contents, well-formed or not
// (counts may claim more or fewer elements than follow), optionally cut short.  Reaches structures that arbitrary bytes of feasible length do not.
#pragma once
struct TokBuf {
  uint8_t *p; size_t n;
  TokBuf(bool cbor, size_t tokens, size_t cut, uint64_t first = 0, bool odd = false) { // first: 0 any, 1 an array, 2 a map; odd: the last kind of token too
    std::vector<uint8_t> b;
    auto sym = [&](const char *nm) { return zs_u8(nm); };
    for (size_t t = 0; t < tokens; t++) {
      uint64_t k = t == 0 && first ? first + 1 : zs_pick((cbor ? 6 : 4) + odd, "token");
      uint8_t c = sym("t");
      if (cbor) switch (k) {
        case 0: zs_assume(c < 24); b.push_back(c); break;                                                     // small integer
        case 1: b.push_back(0x61); b.push_back(c); break;                                                     // one-character string
        case 2: b.push_back(0x80 | (uint8_t)zs_pick(3, "count")); break;                                      // array
        case 3: b.push_back(0xa1 + (uint8_t)zs_pick(2, "count")); break;                                      // map
        case 4: b.push_back(zs_pick(2, "map") ? 0xbf : 0x9f); break;                                          // indefinite container
        case 5: b.push_back(0xff); break;                                                                     // break
        default: { static const uint8_t o[] = {0xc1, 0x7f, 0x5f, 0x41, 0xf6}; b.push_back(o[zs_pick(5, "odd")]); break; } // tag, chunked, blob whose byte is the next token, null
      } else switch (k) {
        case 0: zs_assume(c < 0x80); b.push_back(c); break;
        case 1: b.push_back(0xa1); b.push_back(c); break;
        case 2: b.push_back(0x90 | (uint8_t)zs_pick(3, "count")); break;
        case 3: b.push_back(0x81 + (uint8_t)zs_pick(2, "count")); break;
        default: { static const uint8_t o[] = {0xc0, 0xc2, 0xcc, 0xd1, 0xa0, 0xa2}; b.push_back(o[zs_pick(6, "odd")]); break; } // null, bool, integers and strings that swallow the next tokens
      }
    }
    n = b.size(); if (cut) n -= cut < n ? cut : n;
    p = (uint8_t *)malloc(n); if (n) memcpy(p, b.data(), n);
  }
  TokBuf(const TokBuf &) = delete;
  ~TokBuf() { free(p); }
  std::span<const uint8_t> span() const { return {p, n}; }
};
