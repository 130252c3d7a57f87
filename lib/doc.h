// A small document model: arbitrary trees of the values the library can carry.
#pragma once
#include "hlib.h"
enum Kind : uint8_t { KNull, KBool, KInt, KUInt, KDbl, KStr, KBlob, KArr, KMap, KKinds };
struct Node {
  Kind k = KNull;
  uint64_t u = 0;               // bool / integer bits / double bits
  std::string s;                // string / blob bytes
  std::vector<Node> c;          // children
  std::vector<std::string> keys;
};
inline std::span<const std::byte> as_bytes(const std::string &s) { return {(const std::byte *)s.data(), s.size()}; }
inline double dbl(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
inline uint32_t bits(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
inline std::string sym_str(size_t n, const char *name) { std::string s(n, '\0'); if (n) zs_bytes(s.data(), n, name); return s; }
// a long string: arbitrary bytes at both ends, fixed pattern in the middle
inline std::string long_str(size_t n, const char *name, size_t e = 4) {
  if (n <= 2 * e) return sym_str(n, name);
  std::string s(n, '\0');
  for (size_t i = 0; i < n; i++) s[i] = (char)(1 + (i * 7 + (i >> 8)) % 255);
  zs_bytes(s.data(), e, name); zs_bytes(s.data() + n - e, e, name);
  return s;
}
inline Node nNull() { return Node{}; }
inline Node nBool(bool b) { Node n; n.k = KBool; n.u = b; return n; }
inline Node nInt(int64_t v) { Node n; n.k = KInt; n.u = (uint64_t)v; return n; }
inline Node nUInt(uint64_t v) { Node n; n.k = KUInt; n.u = v; return n; }
inline Node nDbl(uint64_t b) { Node n; n.k = KDbl; n.u = b; return n; }
inline Node nStr(std::string s) { Node n; n.k = KStr; n.s = std::move(s); return n; }
inline Node nBlob(std::string s) { Node n; n.k = KBlob; n.s = std::move(s); return n; }
inline Node nArr() { Node n; n.k = KArr; return n; }
inline Node nMap() { Node n; n.k = KMap; return n; }
inline void put(Node &m, std::string k, Node v) { m.keys.push_back(std::move(k)); m.c.push_back(std::move(v)); }

// an exact-size copy without a terminator: what a writer is given need not be NUL-terminated
struct Exact {
  char *p; size_t n;
  explicit Exact(const std::string &s) : p((char *)malloc(s.size())), n(s.size()) { if (n) memcpy(p, s.data(), n); }
  Exact(const Exact &) = delete;
  ~Exact() { free(p); }
  std::string_view sv() const { return {p, n}; }
  std::span<const std::byte> bytes() const { return {(const std::byte *)p, n}; }
};
// Writer interface
template <class W> void emit(const Node &n, W &w) {
  switch (n.k) {
    case KNull: w.null(); break;
    case KBool: w.boolean(n.u != 0); break;
    case KInt: w.int64((int64_t)n.u); break;
    case KUInt: w.uint64(n.u); break;
    case KDbl: w.double_(dbl(n.u)); break;
    case KStr: { Exact e(n.s); w.string(e.sv()); break; }
    case KBlob: { Exact e(n.s); w.binary(e.bytes()); break; }
    case KArr: w.begin_array(n.c.size()); for (auto &x : n.c) emit(x, w); w.end_array(); break;
    case KMap: w.begin_map(n.c.size()); for (size_t i = 0; i < n.c.size(); i++) { { Exact e(n.keys[i]); w.key(e.sv()); } emit(n.c[i], w); } w.end_map(); break;
    default: break;
  }
}
template <class P> z::ZBuffer encode(const Node &n) {
  typename P::RootSerializer rs{};
  typename P::Serializer w{rs};
  emit(n, w);
  return rs.finish();
}
template <class F> inline bool throws_deser(F &&f) {
  try { f(); return false; } catch (const z::DeserializationError &) { return true; }
}
inline bool eqs(std::string_view a, std::string_view b) { return a.size() == b.size() && (a.size() == 0 || memcmp(a.data(), b.data(), a.size()) == 0); }
inline int node_size(const Node &n) { int r = 1; for (auto &c : n.c) r += node_size(c); return r; }

// signed/unsigned integer n: every accessor is exact or raises DeserializationError
struct IntVal { bool neg; uint64_t mag; };      // value = neg ? -(2^64 - mag) as int64 : mag
template <class T, class F> void one_int(bool neg, uint64_t u, F &&f, const char *) {
  bool fits;
  if (neg) fits = std::is_signed_v<T> && (int64_t)u >= (int64_t)std::numeric_limits<T>::min();
  else fits = u <= (uint64_t)std::numeric_limits<T>::max();
  try { T r = f(); ZS_ASSERT(fits, "integer accessor returned a value although it is out of range"); ZS_ASSERT((uint64_t)(int64_t)r == u || (!std::is_signed_v<T> && (uint64_t)r == u), "integer accessor returned a different value"); }
  catch (const z::DeserializationError &) { ZS_ASSERT(!fits, "integer accessor rejected a representable value"); }
}
template <class V> void check_int(const V &v, bool neg, uint64_t u) {
  one_int<int8_t>(neg, u, [&] { return v.asInt8(); }, "i8");
  one_int<int16_t>(neg, u, [&] { return v.asInt16(); }, "i16");
  one_int<int32_t>(neg, u, [&] { return v.asInt32(); }, "i32");
  one_int<int64_t>(neg, u, [&] { return v.asInt64(); }, "i64");
  one_int<uint8_t>(neg, u, [&] { return v.asUInt8(); }, "u8");
  one_int<uint16_t>(neg, u, [&] { return v.asUInt16(); }, "u16");
  one_int<uint32_t>(neg, u, [&] { return v.asUInt32(); }, "u32");
  one_int<uint64_t>(neg, u, [&] { return v.asUInt64(); }, "u64");
}
// value equality only (one accessor), for use inside documents
template <class V> void same_int(const V &v, Kind k, uint64_t u) {
  ZS_ASSERT(v.isInt() || v.isUInt(), "an integer was read back as another kind");
  ZS_ASSERT(!v.isNull() && !v.isBool() && !v.isFloat() && !v.isString() && !v.isBlob() && !v.isArray() && !v.isMap(), "an integer is also classified as another kind");
  try {
    if (k == KInt) ZS_ASSERT((uint64_t)v.asInt64() == u, "integer changed");
    else ZS_ASSERT(v.asUInt64() == u, "integer changed");
  } catch (const z::DeserializationError &) { ZS_FAIL("integer not readable"); }
}
// the reader v presents exactly the document n.
// OrderedKeys: keys come out in the order written.
template <bool OrderedKeys, class V> void same(const Node &n, const V &v) {
  try {
    switch (n.k) {
      case KInt: case KUInt: same_int(v, n.k, n.u); return;
      default: break;
    }
    ZS_ASSERT(v.isNull() == (n.k == KNull), "null classification");
    ZS_ASSERT(v.isBool() == (n.k == KBool), "bool classification");
    ZS_ASSERT(!v.isInt() && !v.isUInt(), "non-integer classified as integer");
    ZS_ASSERT(v.isFloat() == (n.k == KDbl), "float classification");
    ZS_ASSERT(v.isString() == (n.k == KStr), "string classification");
    ZS_ASSERT(v.isBlob() == (n.k == KBlob), "blob classification");
#ifdef JSON_BLOBS // JSON has no blobs: one is an array of a particular shape
    ZS_ASSERT(v.isArray() == (n.k == KArr) || n.k == KBlob, "array classification");
#else
    ZS_ASSERT(v.isArray() == (n.k == KArr), "array classification");
#endif
    ZS_ASSERT(v.isMap() == (n.k == KMap), "map classification");
    switch (n.k) {
      case KBool: ZS_ASSERT(v.asBool() == (n.u != 0), "bool changed"); break;
      case KDbl: ZS_ASSERT(bits(v.asDouble()) == n.u, "float bits changed"); break;
      case KStr: ZS_ASSERT(eqs(v.asStringView(), n.s), "string changed (view)"); ZS_ASSERT(eqs(v.asString(), n.s), "string changed (copy)"); break;
      case KBlob: { auto b = v.asBlob(); ZS_ASSERT(eqs({(const char *)std::data(b), std::size(b)}, n.s), "blob changed"); break; }
      case KArr: {
        ZS_ASSERT(v.arraySize() == n.c.size(), "array size changed");
        for (size_t i = 0; i < n.c.size(); i++) { auto e = v[i]; same<OrderedKeys>(n.c[i], e); }
        break; }
      case KMap: {
        size_t i = 0;
        for (std::string_view k : v.mapKeys()) {
          ZS_ASSERT(i < n.keys.size(), "map has extra keys");
          if constexpr (OrderedKeys) { ZS_ASSERT(eqs(k, n.keys[i]), "map key changed or out of order"); }
          else { bool f = false; for (auto &x : n.keys) f = f || eqs(k, x); ZS_ASSERT(f, "map key changed"); }
          i++;
        }
        ZS_ASSERT(i == n.keys.size(), "map lost keys");
        for (size_t j = 0; j < n.keys.size(); j++) {
          ZS_ASSERT(v.contains(n.keys[j]), "map does not contain a written key");
          auto e = v[std::string_view(n.keys[j])]; same<OrderedKeys>(n.c[j], e);
        }
        break; }
      default: break;
    }
  } catch (const z::DeserializationError &) { ZS_FAIL("reading back a written document failed"); }
}
