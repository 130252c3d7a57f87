// Shared helpers for the harnesses.  Only the public API of the library is used.
#pragma once
#include "zs.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <iomanip>
#include <limits>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <variant>
#include <cstring>
#include <memory>
#include <new>
#include <span>
#include <string>
#include <string_view>
#include <vector>
#include <zerialize/zerialize.hpp>
namespace z = zerialize;

// exact-size heap buffer of arbitrary bytes
struct SymBuf {
  uint8_t *p; size_t n;
  explicit SymBuf(size_t n_, const char *name = "buf") : p((uint8_t *)malloc(n_)), n(n_) { zs_bytes(p, n, name); }
  SymBuf(const SymBuf &) = delete;
  ~SymBuf() { free(p); }
  std::span<const uint8_t> span() const { return {p, n}; }
};
// exact-size heap copy of produced bytes (so that any over-read is visible)
struct CopyBuf {
  uint8_t *p; size_t n;
  explicit CopyBuf(std::span<const uint8_t> s) : p((uint8_t *)malloc(s.size())), n(s.size()) { if (n) memcpy(p, s.data(), n); }
  CopyBuf(const CopyBuf &) = delete;
  ~CopyBuf() { free(p); }
  std::span<const uint8_t> span() const { return {p, n}; }
};
inline bool inside(const void *q, size_t len, const uint8_t *p, size_t n) {
  if (len == 0) return true;
  const uint8_t *b = (const uint8_t *)q;
  return b >= p && len <= n && (size_t)(b - p) <= n - len;
}
// run f; only DeserializationError may escape
template <class F> inline bool deser_ok(F &&f) {
  try { f(); return true; }
  catch (const z::DeserializationError &) { return false; }
}
