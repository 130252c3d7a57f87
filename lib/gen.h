// Bounded generator of documents: every shape within the node budget, arbitrary leaf contents.
#pragma once
#include "doc.h"
#ifndef GEN_NUL_KEYS
#define GEN_NUL_KEYS 1
#endif
// wide: 1 = 64-bit integers (else 8-bit), 2 = doubles from a fixed set (else arbitrary)
static Node gen_leaf(int wide) {
  switch (zs_pick(7, "kind")) {
    case 0: return nNull();
    case 1: return nBool(zs_u8("b") & 1);
    case 2: return nInt(wide & 1 ? (int64_t)zs_u64("i") : (int64_t)(int8_t)zs_u8("i"));
    case 3: return nUInt(wide & 1 ? zs_u64("u") : zs_u8("u"));
    case 4: return wide & 2 ? nDbl(bits(zs_pick(2, "d") ? 0.1 : -1.5)) : nDbl(zs_u64("d"));
    case 5: { static const uint8_t L[3] = {0, 2, 13}; return nStr(sym_str(L[zs_pick(3, "slen")], "s")); }
    default: { static const uint8_t L[3] = {0, 3, 17}; return nBlob(sym_str(L[zs_pick(3, "blen")], "x")); }
  }
}
// keys of one map: fixed distinct prefixes, arbitrary last byte (non-NUL)
static std::string gen_key(int i) {
  std::string k(1, (char)('c' - i)); // written in an order that is not sorted
  char c = (char)zs_u8("kc");
  zs_assume(c != 0);
  k.push_back(c);
  return k;
}
static Node gen_tree(int &budget, int depth, int maxkids, int wide) {
  budget--;
  int what = (depth > 0) ? (int)zs_pick(3, "shape") : 0;
  if (what == 0) return gen_leaf(wide);
  int room = budget < maxkids ? budget : maxkids;
  int kids = (int)zs_pick(room + 1, "kids");
  budget -= kids;                    // reserve
  Node n = what == 1 ? nArr() : nMap();
  for (int i = 0; i < kids; i++) {
    budget++;
    std::string k; if (what == 2) k = gen_key(i);
    Node c = gen_tree(budget, depth - 1, maxkids, wide);
    if (what == 2) put(n, std::move(k), std::move(c)); else n.c.push_back(std::move(c));
  }
  return n;
}
