// JSON reader and writer over the stand-in for yyjson (stubs/yyjson.h).
#define JSON_BLOBS 1
#include "doc.h"
#include "gen.h"
#include <zerialize/protocols/json.hpp>
#include <zerialize/protocols/zera.hpp>
#include <zerialize/protocols/msgpack.hpp>
#include <zerialize/protocols/flex.hpp>
#include <zerialize/translate.hpp>
using P = z::JSON; using R = P::Deserializer;
// JSON carries text and finite numbers only
static void ascii(const std::string &s) { for (char c : s) zs_assume((uint8_t)c < 0x80); }
static void ok_json(const Node &n) {
  if (n.k == KStr) ascii(n.s);
  if (n.k == KDbl) zs_assume((n.u >> 52 & 0x7ff) != 0x7ff);
  for (auto &k : n.keys) ascii(k);
  for (auto &c : n.c) ok_json(c);
}
static void rt(const Node &n) {
  ok_json(n);
  auto b = encode<P>(n);
  CopyBuf cb(b.buf());
  R r(cb.span());
  same<true>(n, r);
  zs_cover("done");
}
static Node wrap(Node n) {
  switch (zs_pick(4, "wrap")) {
    case 0: return n;
    case 1: { Node a = nArr(); a.c.push_back(nBool(true)); a.c.push_back(std::move(n)); a.c.push_back(nNull()); return a; }
    case 2: { Node a = nArr(), i = nArr(); i.c.push_back(n); a.c.push_back(i); a.c.push_back(n); return a; }
    default: { Node m = nMap(); put(m, "z", nInt(-1)); put(m, "k", std::move(n)); put(m, "", nStr("t")); return m; }
  }
}
static Node any_scalar() {
  switch (zs_pick(7, "kind")) {
    case 0: return nNull();
    case 1: return nBool(zs_u8("b") & 1);
    case 2: return nInt((int64_t)zs_u64("v"));
    case 3: return nUInt(zs_u64("v"));
    case 4: return nDbl(zs_u64("v"));
    case 5: return nStr(sym_str(3, "s"));
    default: return nBlob(sym_str(3, "s"));
  }
}
ZS_ENTRY(js_scalar) { rt(wrap(any_scalar())); }
// params: from, to: strings (ASCII) and blobs of every length
ZS_ENTRY(js_str) {
  size_t n = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "len");
  if (zs_pick(2, "blob")) { rt(wrap(nBlob(n <= 40 ? sym_str(n, "s") : long_str(n, "s", 3)))); return; }
  std::string s(n, 'x'); if (n <= 64) s = sym_str(n, "s"); else { zs_bytes(s.data(), 4, "s"); zs_bytes(s.data() + n - 4, 4, "s"); }
  rt(wrap(nStr(s)));
}
// params: n: every string of n arbitrary bytes: UTF-8 reads back, anything else is refused
ZS_ENTRY(js_utf8) {
  std::string s = sym_str(zs_param(0), "s"); bool ok = zy_utf8(s.data(), s.size()), key = zs_pick(2, "key");
  Node n = nMap(); if (key) put(n, s, nInt(1)); else put(n, "k", nStr(s));
  try {
    auto b = encode<P>(n); ZS_ASSERT(ok, "text that is not UTF-8 was written");
    CopyBuf cb(b.buf()); R r(cb.span()); same<true>(n, r); zs_cover("done");
  } catch (const std::runtime_error &) { ZS_ASSERT(!ok, "UTF-8 text refused"); zs_cover("refused"); }
}
// NaN and infinities have no JSON form: refused, never written as something else
ZS_ENTRY(js_nan) {
  uint64_t u = zs_u64("d"); bool fin = (u >> 52 & 0x7ff) != 0x7ff; Node n = nArr(); n.c.push_back(nDbl(u));
  try {
    auto b = encode<P>(n); ZS_ASSERT(fin, "a number without a JSON form was written");
    R r(b.buf()); same<true>(n, r); zs_cover("done");
  } catch (const std::runtime_error &) { ZS_ASSERT(!fin, "a finite number refused"); zs_cover("refused"); }
}
ZS_ENTRY(js_tree) { int budget = (int)zs_param(0); rt(gen_tree(budget, (int)zs_param(1), (int)zs_param(2), (int)zs_param(3))); }
static std::string num_key(size_t i) { std::string k = "k"; do { k.push_back('0' + i % 10); i /= 10; } while (i); return k; }
ZS_ENTRY(js_many) { // params: from,to
  size_t n = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "count"), pos = n ? (zs_pick(2, "pos") ? n - 1 : n / 2) : 0; bool map = zs_pick(2, "map");
  Node a = map ? nMap() : nArr();
  for (size_t i = 0; i < n; i++) { Node e = i == pos ? nInt((int64_t)zs_u64("v")) : i % 3 ? nStr(std::string(i % 20, 'a' + i % 26)) : nUInt(i * 1000); if (map) put(a, num_key(i), e); else a.c.push_back(e); }
  rt(a);
}
ZS_ENTRY(js_deep) { // params: from,to
  size_t d = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "depth"); uint64_t pat = zs_pick(3, "pat");
  Node n = any_scalar();
  for (size_t i = 0; i < d; i++) {
    bool map = pat == 0 ? false : pat == 1 ? true : i & 1; Node o = map ? nMap() : nArr();
    if (map) { put(o, "a", std::move(n)); put(o, "b", nStr("after")); } else { o.c.push_back(std::move(n)); o.c.push_back(nUInt(7)); }
    n = std::move(o);
  }
  rt(n);
}
// keys of arbitrary ASCII bytes, NUL and the empty key included; an absent key raises
ZS_ENTRY(js_keys) { // params: entries, max length
  Node m = nMap();
  for (size_t i = 0; i < zs_param(0); i++) {
    std::string k = sym_str(zs_pick(zs_param(1) + 1, "kl"), "k"); ascii(k);
    for (auto &o : m.keys) if (o.size() == k.size()) zs_assume(!eqs(o, k));
    put(m, k, nUInt(100 + i));
  }
  std::string q = sym_str(zs_pick(zs_param(1) + 1, "ql"), "q"); bool in = false; for (auto &k : m.keys) in = in || eqs(k, q);
  auto b = encode<P>(m); CopyBuf cb(b.buf()); R r(cb.span()); same<true>(m, r);
  ZS_ASSERT(r.contains(q) == in, "contains() is wrong");
  ZS_ASSERT(throws_deser([&] { (void)r[std::string_view(q)]; }) == !in, "lookup of a key is wrong");
  ZS_ASSERT(r.contains(std::string_view()) == r.contains(std::string_view("", 0)), "the empty key depends on how it is spelled");
  zs_cover("done");
}
// every 64-bit integer through every accessor, in each form JSON gives it
ZS_ENTRY(js_int) {
  uint64_t u = zs_u64("v"); bool neg = zs_pick(2, "neg"); if (neg) zs_assume((int64_t)u < 0);
  Node n = neg ? nInt((int64_t)u) : nUInt(u); Node a = nArr(); a.c.push_back(n);
  auto b = encode<P>(a); R r(b.buf()); auto v = r[(size_t)0];
  check_int(v, neg, u);
  ZS_ASSERT(v.isInt() == (neg || u <= (uint64_t)INT64_MAX), "isInt() of a value asInt64() cannot give");
  ZS_ASSERT(v.isUInt() == !neg, "isUInt() of a value asUInt64() cannot give");
  zs_cover("done");
}
ZS_ENTRY(js_float) {
  uint32_t u = zs_u32("f"); float f; memcpy(&f, &u, 4); zs_assume((u >> 23 & 255) != 255);
  auto b = z::serialize<P>(z::zvec(f, 1)); R r(b.buf());
  ZS_ASSERT(bits(r[(size_t)0].asFloat()) == u, "single changed"); ZS_ASSERT(r[(size_t)0].isFloat() && !r[(size_t)1].isFloat(), "kind"); zs_cover("done");
}
// every value kind: each accessor either raises DeserializationError or is the one the predicates announce
ZS_ENTRY(js_kinds) {
  Node n = zs_pick(2, "leaf") ? any_scalar() : zs_pick(2, "map") ? [] { Node m = nMap(); put(m, "k", nInt(1)); return m; }() : [] { Node a = nArr(); a.c.push_back(nInt(1)); return a; }();
  Node w = wrap(n); ok_json(w);
  auto b = encode<P>(w); CopyBuf cb(b.buf()); R r(cb.span());
  auto chk = [&](const R &v, const Node &n) {
    ZS_ASSERT(throws_deser([&] { (void)v.asBool(); }) == (n.k != KBool), "asBool"); ZS_ASSERT(throws_deser([&] { (void)v.asDouble(); }) == (n.k != KDbl), "asDouble");
    ZS_ASSERT(throws_deser([&] { (void)v.asFloat(); }) == (n.k != KDbl), "asFloat");
    ZS_ASSERT(throws_deser([&] { (void)v.asString(); }) == (n.k != KStr), "asString"); ZS_ASSERT(throws_deser([&] { (void)v.asStringView(); }) == (n.k != KStr), "asStringView");
    ZS_ASSERT(throws_deser([&] { (void)v.asBlob(); }) == (n.k != KBlob), "asBlob");
    ZS_ASSERT(throws_deser([&] { (void)v.mapKeys(); }) == (n.k != KMap), "mapKeys"); ZS_ASSERT(throws_deser([&] { (void)v["k"]; }) == (n.k != KMap), "key lookup");
    ZS_ASSERT(throws_deser([&] { (void)v.arraySize(); }) == (n.k != KArr && n.k != KBlob), "arraySize"); ZS_ASSERT(throws_deser([&] { (void)v[(size_t)0]; }) == (n.k != KArr && n.k != KBlob), "index");
    if (n.k != KInt && n.k != KUInt) { ZS_ASSERT(throws_deser([&] { (void)v.asInt64(); }) && throws_deser([&] { (void)v.asUInt64(); }) && throws_deser([&] { (void)v.asInt8(); }) && throws_deser([&] { (void)v.asUInt32(); }), "integer"); }
    if (n.k != KMap) ZS_ASSERT(!v.contains("k"), "contains");
  };
  if (w.k == KArr && w.c.size() == 3) chk(r[(size_t)1], n); else if (w.k == KMap && w.keys.size() == 3) chk(r["k"], n); else chk(r, w);
  zs_cover("done");
}
ZS_ENTRY(js_index) { // params: size
  size_t n = zs_pick(zs_param(0) + 1, "n"), i = zs_val<size_t>("i"); Node a = nArr(); for (size_t k = 0; k < n; k++) a.c.push_back(nUInt(k * 3));
  auto b = encode<P>(a); R r(b.buf());
  try { auto e = r[i]; ZS_ASSERT(i < n, "index past the end accepted"); ZS_ASSERT(e.asUInt64() == i * 3, "another element"); zs_cover("in"); }
  catch (const z::DeserializationError &) { ZS_ASSERT(i >= n, "an element is refused"); zs_cover("out"); }
}
// arrays that look like a blob, or nearly: a blob exactly when ["~b", text, "base64"]; then the text decoded, or an error
ZS_ENTRY(js_blobish) { // params: text length
  size_t n = zs_pick(5, "n"); Node a = nArr();
  for (size_t i = 0; i < n; i++) {
    if (zs_pick(3, "str")) a.c.push_back(zs_pick(2, "nstr") ? nInt(7) : nNull());
    else if (i == 0) a.c.push_back(nStr(sym_str(1 + zs_pick(3, "l"), "tag"))); else if (i == 2) a.c.push_back(nStr(zs_pick(2, "enc") ? sym_str(6, "enc") : sym_str(5, "enc"))); else a.c.push_back(nStr(sym_str(zs_pick(2, "tl") ? zs_param(0) : 0, "text")));
  }
  ok_json(a);
  bool blob = n == 3 && a.c[0].k == KStr && eqs(a.c[0].s, "~b") && a.c[1].k == KStr && a.c[2].k == KStr && eqs(a.c[2].s, "base64");
  auto b = encode<P>(a); CopyBuf cb(b.buf()); R r(cb.span());
  ZS_ASSERT(r.isArray(), "not an array"); ZS_ASSERT(r.isBlob() == blob, "isBlob() is wrong"); ZS_ASSERT(r.arraySize() == n, "size");
  try { auto x = r.asBlob(); ZS_ASSERT(blob, "an array that is no blob decoded"); ZS_ASSERT(x.size() <= a.c[1].s.size(), "blob longer than its text"); zs_cover("blob"); }
  catch (const z::DeserializationError &) { zs_cover("refused"); }
}
// text, keys and values may come from temporaries
namespace usr { struct Tmp { uint64_t a; }; template <z::Writer W> void serialize(const Tmp &t, W &w) { std::string s(20, 'a'); s[t.a % 20] = 'b'; w.begin_map(1); w.key(std::string("key") + s); w.string(std::string(s)); w.end_map(); } }
ZS_ENTRY(js_temp) {
  uint64_t a = zs_pick(20, "a"); auto b = z::serialize<P>(z::zvec(usr::Tmp{a}, std::string(30, 'q'), z::zmap<"k">(usr::Tmp{a}))); R r(b.buf());
  std::string s(20, 'a'); s[a] = 'b';
  ZS_ASSERT(eqs(r[(size_t)0]["key" + s].asString(), s), "a string from a temporary changed"); ZS_ASSERT(eqs(r[(size_t)1].asString(), std::string(30, 'q')), "string"); ZS_ASSERT(eqs(r[(size_t)2]["k"]["key" + s].asStringView(), s), "string");
  auto e = z::serialize<P>(std::string_view{}); R er(e.buf()); ZS_ASSERT(er.isString() && er.asString().empty(), "the empty string view");
  auto m = z::serialize<P>(std::span<const std::byte>{}); R mr(m.buf()); ZS_ASSERT(mr.isBlob() && mr.asBlob().empty(), "the empty blob");
  zs_cover("done");
}
// nothing is leaked or freed twice, also when writing or reading raises; readers move
namespace usr { struct Bad { int at; }; template <z::Writer W> void serialize(const Bad &b, W &w) { w.begin_array(2); if (b.at == 0) throw std::runtime_error("no"); w.string("x"); w.begin_map(1); w.key("k"); if (b.at == 1) throw std::runtime_error("no"); w.null(); w.end_map(); w.end_array(); } }
ZS_ENTRY(js_life) {
  zs_leak_begin();
  { int at = (int)zs_pick(3, "at");
    try { auto b = z::serialize<P>(usr::Bad{at}); ZS_ASSERT(at == 2, "no exception"); R r(b.buf()); R m(std::move(r)); R t; t = std::move(m); ZS_ASSERT(t[(size_t)1]["k"].isNull(), "moved reader");
          auto b2 = std::move(b); R r2(b2.buf()); ZS_ASSERT(r2.arraySize() == 2, "moved buffer"); R d; ZS_ASSERT(d.isMap(), "default"); }
    catch (const std::runtime_error &) { ZS_ASSERT(at < 2, "serializing raised"); }
    try { P::RootSerializer rs; P::Serializer w(rs); w.double_(std::numeric_limits<double>::infinity()); (void)rs.finish(); ZS_FAIL("infinity"); } catch (const std::runtime_error &) {}
    try { P::RootSerializer rs; P::Serializer w(rs); w.begin_array(1); } catch (const std::runtime_error &) {}
    static const uint8_t bad[3] = {'[', 9, 0};
    ZS_ASSERT(throws_deser([&] { R r(std::span<const uint8_t>(bad, 3)); }), "bad text accepted");
    ZS_ASSERT(throws_deser([&] { R r(std::span<const uint8_t>(bad, 0)); }), "no text accepted");
  }
  zs_leak_end(); zs_cover("done");
}
// translation to and from the other formats
template <class X> static void via(const Node &n) {
  ok_json(n); constexpr bool ord = !std::is_same_v<X, z::Flex>;
  if (zs_pick(2, "dir")) { auto b = encode<P>(n); auto d = [&] { R r(b.buf()); return z::translate<X>(r); }(); b = z::ZBuffer(); same<ord>(n, d); }
  else { auto b = encode<X>(n); auto d = [&] { typename X::Deserializer r(b.buf()); return z::translate<P>(r); }(); b = z::ZBuffer(); same<ord>(n, d); }
  zs_cover("done");
}
ZS_ENTRY(js_xl) { // params: format, nodes, depth, kids, wide
  Node n; if (zs_param(1) == 0) n = wrap(any_scalar()); else { int budget = (int)zs_param(1); n = gen_tree(budget, (int)zs_param(2), (int)zs_param(3), (int)zs_param(4)); }
  switch (zs_param(0)) { case 0: via<z::Zera>(n); break; case 1: via<z::MsgPack>(n); break; default: via<z::Flex>(n); }
}
// every sequence of writer calls: the document it describes, or an error at the first call out of order
#include "model.h"
ZS_ENTRY(js_hist) { // params: steps
  zs_leak_begin();
  { P::RootSerializer rs; P::Serializer w(rs); Model m; size_t steps = zs_param(0);
    try {
      for (size_t t = 0; t < steps; t++) {
        switch (zs_pick(8, "op")) {
          case 0: { int64_t v = (int64_t)zs_u64("v"); m.val(nInt(v)); w.int64(v); break; }
          case 1: { std::string s = sym_str(2, "s"); ascii(s); Exact e(s); m.val(nStr(s)); w.string(e.sv()); break; }
          case 2: { std::string s = sym_str(1, "x"); Exact e(s); m.val(nBlob(s)); w.binary(e.bytes()); break; }
          case 3: { std::string k = sym_str(zs_pick(2, "kl"), "k"); ascii(k); if (!m.bad && !m.st.empty()) for (auto &o : m.st.back().n.keys) zs_assume(!eqs(o, k)); Exact e(k); m.key(k); w.key(e.sv()); break; }
          case 4: m.open(false); w.begin_array(0); break;
          case 5: m.open(true); w.begin_map(0); break;
          case 6: m.close(false); w.end_array(); break;
          default: m.close(true); w.end_map(); break;
        }
        ZS_ASSERT(!m.bad, "a writer call out of order was accepted");
      }
      auto b = rs.finish();
      CopyBuf cb(b.buf()); R r(cb.span());
      if (m.st.empty()) { Node want = m.root ? *m.root : nNull(); same<true>(want, r); }
      zs_cover("finished");
    } catch (const z::DeserializationError &) { ZS_FAIL("the finished buffer is not readable"); }
    catch (const std::exception &) { ZS_ASSERT(m.bad, "a well-formed sequence of writer calls was rejected"); zs_cover("raised"); }
  }
  zs_leak_end();
}
// every arithmetic C++ type and text form through serialize()
template <class T> static void one(T v) {
  auto b = z::serialize<P>(v); CopyBuf cb(b.buf()); R r(cb.span());
  try {
    if constexpr (std::is_same_v<T, bool>) ZS_ASSERT(r.isBool() && r.asBool() == v, "bool changed");
    else if constexpr (std::is_signed_v<T>) ZS_ASSERT(r.isInt() && r.asInt64() == (int64_t)v, "integer changed");
    else ZS_ASSERT(r.isUInt() && r.asUInt64() == (uint64_t)v, "integer changed");
  } catch (const z::DeserializationError &) { ZS_FAIL("value not readable"); }
}
ZS_ENTRY(js_types) {
  switch (zs_pick(14, "type")) {
    case 0: one(zs_val<char>("v")); break;
    case 1: one(zs_val<signed char>("v")); break;
    case 2: one(zs_val<unsigned char>("v")); break;
    case 3: one(zs_val<short>("v")); break;
    case 4: one(zs_val<unsigned short>("v")); break;
    case 5: one(zs_val<int>("v")); break;
    case 6: one(zs_val<unsigned>("v")); break;
    case 7: one(zs_val<long>("v")); break;
    case 8: one(zs_val<unsigned long>("v")); break;
    case 9: one(zs_val<long long>("v")); break;
    case 10: one(zs_val<unsigned long long>("v")); break;
    case 11: one((bool)(zs_u8("v") & 1)); break;
    case 12: { auto b = z::serialize<P>(nullptr); R r(b.buf()); ZS_ASSERT(r.isNull(), "null changed"); break; }
    default: { std::string s = sym_str(5, "v"); ascii(s); for (char c : s) zs_assume(c != 0);
      auto b = z::serialize<P>(z::zvec(s, std::string_view(s), s.c_str(), as_bytes(s), std::vector<std::string>{s, s}, z::zmap<"k", "">(s, 1.5), z::dyn::map({{"d", z::dyn::array({s, nullptr})}})));
      CopyBuf cb(b.buf()); R r(cb.span());
      Node n = nArr(), v = nArr(), m = nMap(), d = nMap(), da = nArr(); v.c = {nStr(s), nStr(s)}; put(m, "k", nStr(s)); put(m, "", nDbl(bits(1.5))); da.c = {nStr(s), nNull()}; put(d, "d", da); n.c = {nStr(s), nStr(s), nStr(s), nBlob(s), v, m, d};
      same<true>(n, r); }
  }
  zs_cover("done");
}
