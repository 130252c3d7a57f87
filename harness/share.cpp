// C26: readers, builders and codecs may be used by several threads at once (no write reaches anything that already
// exists), and C27: what a reader answers depends on its bytes only, not on what was asked before.  -DZP=
// SEC: 1 readers and writers, 2 tensors
#define SEC_ SEC
#ifdef WITH_CBOR
#include "doc.h"
#include <zerialize/protocols/cbor.hpp>
#include <zerialize/protocols/zera.hpp>
using R = z::CBOR::Deserializer;
using B2 = z::Zera;
constexpr bool kFlex = false, kCbor = true;
#else
#include "proto.h"
constexpr bool kCbor = false;
#endif
#include "gen.h"
#include <zerialize/protocols/msgpack.hpp>
#include <zerialize/protocols/zera.hpp>
#include <zerialize/translate.hpp>
#include <zerialize/internals/base64.hpp>
#if SEC == 2
#include <zerialize/tensor/xtensor.hpp>
#include <zerialize/tensor/eigen.hpp>
#endif
// ---- one operation and what it answered
struct Op { int k = 0; int sub = 0; size_t idx = 0; std::string key; };
struct Res {
  int err = 0; std::vector<uint64_t> v; std::string s;
  std::vector<std::pair<const char *, size_t>> views; // kept, to be looked at again later
  void view(const char *p, size_t n) { v.push_back(n); if (n) s.append(p, n); views.push_back({p, n}); }
  bool eq(const Res &o) const { return err == o.err && v == o.v && eqs(s, o.s); }
  void still() const { size_t at = 0; for (auto &w : views) { ZS_ASSERT(w.second == 0 || memcmp(w.first, s.data() + at, w.second) == 0, "a view handed out earlier changed"); at += w.second; } }
};
enum { KDirect = 11, KAll = 14 };
template <class V> static void direct(const V &v, int k, const Op &o, Res &r) {
  switch (k) {
    case 0: r.v.push_back(v.isNull() | v.isBool() << 1 | v.isInt() << 2 | v.isUInt() << 3 | v.isFloat() << 4 | v.isString() << 5 | v.isBlob() << 6 | v.isArray() << 7 | v.isMap() << 8); break;
    case 1: r.v.push_back((uint64_t)v.asInt64()); r.v.push_back((uint64_t)v.asInt8()); r.v.push_back((uint64_t)v.asInt16()); r.v.push_back((uint64_t)v.asInt32()); break;
    case 2: r.v.push_back(v.asUInt64()); r.v.push_back(v.asUInt8()); r.v.push_back(v.asUInt16()); r.v.push_back(v.asUInt32()); break;
    case 3: r.v.push_back(bits(v.asDouble())); break;
    case 4: r.v.push_back(bits(v.asFloat())); break;
    case 5: r.v.push_back(v.asBool()); break;
    case 6: { auto s = v.asStringView(); r.view(s.data(), s.size()); break; }
    case 7: { auto s = v.asString(); r.v.push_back(s.size()); r.s = s; break; }
    case 8: { auto b = v.asBlob(); r.view((const char *)std::data(b), std::size(b)); break; }
    case 9: { auto ks = v.mapKeys(); for (std::string_view k : ks) r.view(k.data(), k.size()); break; }
    case 10: r.v.push_back(v.contains(o.key)); break;
    default: r.v.push_back(v.arraySize()); break;
  }
}
template <class V> static Res apply(const V &v, const Op &o) {
  Res r;
  try {
    if (o.k < 12) direct(v, o.k, o, r);
    else if (o.k == 12) { auto c = v[o.idx]; direct(c, o.sub, o, r); }
    else { auto c = v[std::string_view(o.key)]; direct(c, o.sub, o, r); }
  } catch (const z::DeserializationError &) { r.err = 1; r.v.clear(); r.s.clear(); r.views.clear(); }
  return r;
}
static const int SUB[] = {0, 1, 6, 8, 9, 11};
static Op pick_op(bool wide, int k = 0) {
  Op o; o.k = k ? k - 1 : (int)zs_pick(KAll, "op");
  if (o.k >= 12) o.sub = SUB[zs_pick(wide ? 6 : 3, "sub")];
  if (o.k == 12) o.idx = zs_val<size_t>("idx");
  if (o.k == 10 || o.k == 13) o.key = sym_str(zs_pick(3, "keylen"), "key");
  return o;
}
// ---- documents
static Node small_doc(int which = 0) {
  switch (which ? which - 1 : zs_pick(9, "doc")) {
    case 0: return gen_leaf(1);
    case 1: { Node a = nArr(); a.c = {nInt((int64_t)zs_u64("i")), nStr(sym_str(3, "s"))}; return a; }
    case 2: { Node m = nMap(); put(m, "a", nUInt(zs_u64("u"))); put(m, "b", nBlob(sym_str(3, "x"))); return m; }
    case 3: { Node m = nMap(); put(m, "bc", nArr()); m.c[0].c = {nDbl(zs_u64("d")), nNull(), nStr(sym_str(14, "s"))}; put(m, "a", nBool(zs_u8("b") & 1)); put(m, sym_str(2, "dk"), nInt(3)); zs_assume(m.keys[2][0] > 'e' && m.keys[2][1] != 0); return m; }
    case 4: { Node a = nArr(); Node m = nMap(); put(m, "k", nStr(sym_str(20, "s"))); put(m, "l", nInt(-1)); a.c = {m, nArr(), m, nUInt(7)}; a.c[1].c = {nNull(), nInt(5)}; return a; }
    case 5: { Node a = nArr(); for (int i = 0; i < 17; i++) a.c.push_back(i == 9 ? nStr(sym_str(4, "s")) : nInt(i * 40)); return a; }
    case 6: { Node m = nMap(); for (int i = 0; i < 17; i++) put(m, std::string(1, (char)('A' + i)) + "z", i == 4 ? nDbl(zs_u64("d")) : nUInt(i)); return m; }
    case 7: { Node a = nArr(); for (int i = 0; i < 3; i++) a.c.push_back(nStr(sym_str(2, "s"))); return a; } // homogeneous
    default: { Node a = nArr(); for (int i = 0; i < 3; i++) a.c.push_back(nInt((int8_t)zs_u8("i"))); return a; }
  }
}
#if SEC == 1
// params: -.  any operation on a reader shared by any number of threads
template <class RR> static void shared_op(const RR *r, const Op &o) {
  Res before = apply(*r, o);
  zs_shared([=] { Res a = apply(*r, o); ZS_ASSERT(a.eq(before), "the answer of a reader changed"); a.still(); });
  zs_cover("done");
}
#ifndef WITH_CBOR
ZS_ENTRY(sh_read) {
  Node d = small_doc();
  z::ZBuffer b = encode<P>(d);
  CopyBuf c(b.buf());
  const R *r = zs_pick(2, "own") ? new R(b.to_vector_copy()) : new R(c.span());
  shared_op(r, pick_op(true));
  delete r;
}
// independent writers, sharing what they serialize
ZS_ENTRY(sh_write) {
  Node *d = new Node(small_doc());
  zs_shared([=] { z::ZBuffer a = encode<P>(*d), b = encode<P>(*d); ZS_ASSERT(zs_initialised(a.data(), a.size()), "uninitialised byte in the output"); ZS_ASSERT(a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0, "the same document was encoded differently"); });
  delete d; zs_cover("done");
}
// a builder shared by several threads
ZS_ENTRY(sh_build) {
  std::string s = sym_str(zs_pick(2, "len") ? 3 : 20, "s"); int64_t i = (int64_t)zs_u64("i"); double x = dbl(zs_u64("d"));
  auto go = [&](auto mk) {
    auto *m = new auto(mk());
    z::ZBuffer ref = z::serialize<P>(*m);
    const uint8_t *rp = ref.data(); size_t rn = ref.size();
    auto *cm = m;
    zs_shared([=] { z::ZBuffer a = z::serialize<P>(*cm); ZS_ASSERT(a.size() == rn && memcmp(a.data(), rp, rn) == 0, "the same builder was serialized differently"); });
    delete m; zs_cover("done");
  };
  switch (zs_pick(6, "form")) {
    case 0: go([&] { return z::zmap<"a", "b">(std::string(s), i); }); break;
    case 1: go([&] { return z::zvec(std::string(s), z::zmap<"k">(x), std::vector<int64_t>{i, 2}); }); break;
    case 2: go([&] { return std::map<std::string, std::vector<int64_t>>{{"q", {i, 1}}, {"r", {}}}; }); break;
    case 3: go([&] { return z::dyn::Value(z::dyn::Value::Map{{"a", z::dyn::Value(s)}, {"b", z::dyn::Value(z::dyn::Value::Array{z::dyn::Value(i), z::dyn::Value(x), z::dyn::Value(true)})}}); }); break;
    case 4: go([&] { return std::vector<std::string>{s, s}; }); break;
    default: go([&] { return z::zmap<"t">(z::zvec(i, i, std::vector<double>{x})); }); break;
  }
}
ZS_ENTRY(sh_buf) { // a buffer handed to several threads
  z::ZBuffer *b = new z::ZBuffer(encode<P>(small_doc()));
  const z::ZBuffer *cb = b;
  zs_shared([=] { ZS_ASSERT(cb->size() == cb->buf().size() && cb->data() == cb->buf().data(), "buffer view"); auto v = cb->to_vector_copy(); ZS_ASSERT(v.size() == cb->size() && (v.empty() || memcmp(v.data(), cb->data(), v.size()) == 0), "copy"); R r(cb->buf()); zs_assert_(r.isNull() || 1, ""); });
  delete b; zs_cover("done");
}
template <class D, class RR> static void xl(const RR *r) { zs_shared([=] { try { auto t = z::translate<D>(*r); (void)t; } catch (const std::runtime_error &) {} }); zs_cover("done"); }
ZS_ENTRY(sh_xlate) {
  z::ZBuffer b = encode<P>(small_doc());
  const R *r = new R(b.to_vector_copy());
  switch (zs_pick(2, "to")) { case 0: xl<z::Zera>(r); break; default: xl<z::MsgPack>(r); break; }
  delete r;
}
ZS_ENTRY(sh_b64) {
  size_t n = zs_pick(6, "n"); Exact *e = new Exact(sym_str(n, "x"));
  zs_shared([=] { std::string t = z::base64Encode(e->bytes()); auto o = z::base64Decode(t); ZS_ASSERT(o.size() == n && (n == 0 || memcmp(o.data(), e->p, n) == 0), "base64 round trip"); });
  delete e; zs_cover("done");
}
#endif
// arbitrary bytes.  params: n
ZS_ENTRY(sh_any) {
  SymBuf b(zs_param(0));
  const R *r;
  try { r = new R(b.span()); } catch (const z::DeserializationError &) { zs_cover("rejected"); return; }
  shared_op(r, pick_op(false));
  delete r;
}
// ---- repeatability: a, b, a again; b as by a fresh reader
template <class V, class W> static void twice(const V &r, const W &fresh, const Op &a, const Op &b) {
  Res a1 = apply(r, a), b1 = apply(r, b), a2 = apply(r, a), b2 = apply(fresh, b);
  ZS_ASSERT(a1.eq(a2), "the same question got another answer the second time");
  ZS_ASSERT(b1.eq(b2), "an answer depends on what was asked before");
  a1.still(); b1.still(); a2.still();
  zs_cover("done");
}
ZS_ENTRY(rp_any) { // params: n, 1 + first operation
  SymBuf b(zs_param(0));
  try { R r(b.span()), f(b.span()); Op x = pick_op(false, (int)zs_param(1)), y = pick_op(false); twice(r, f, x, y); } catch (const z::DeserializationError &) { zs_cover("rejected"); }
}
#include "tok.h"
ZS_ENTRY(rp_tok) { // params: tokens, 1 + first operation, first token
  TokBuf b(kCbor, zs_param(0), 0, zs_param(2), zs_param(3));
  R r(b.span()), f(b.span()); Op x = pick_op(false, (int)zs_param(1)), y = pick_op(false); twice(r, f, x, y);
}
#ifndef WITH_CBOR
ZS_ENTRY(rp_doc) { // params: 1 + document
  Node d = small_doc((int)zs_param(0));
  z::ZBuffer b1 = encode<P>(d), b2 = encode<P>(d);
  ZS_ASSERT(b1.size() == b2.size() && memcmp(b1.data(), b2.data(), b1.size()) == 0, "the same document was encoded differently");
  R r(b1.buf()), f(b2.buf());
  Op x = pick_op(false), y = pick_op(false); twice(r, f, x, y);
}
// two readers over different buffers, used in turn; children outlive sibling reads
ZS_ENTRY(rp_two) {
  Node d = small_doc(), e = small_doc();
  z::ZBuffer b1 = encode<P>(d), b2 = encode<P>(e);
  R r(b1.buf()), q(b2.buf());
  Op x = pick_op(false);
  Res a1 = apply(r, x), c1 = apply(q, x), a2 = apply(r, x);
  R f(b2.buf()); Res c2 = apply(f, x);
  ZS_ASSERT(a1.eq(a2) && c1.eq(c2), "one reader disturbed another");
  a1.still(); c1.still();
  zs_cover("done");
}
// the same storage holds one document after the other (documents of equal size and different layout included)
static Node layout_doc(int fam) {
  Node d = fam == 1 ? nMap() : nArr();
  if (fam == 0) for (int i = 0; i < 3; i++) d.c.push_back(nUInt(zs_u8("u")));
  else if (fam == 1) { bool w = zs_pick(2, "klen"); put(d, w ? "a" : "ab", nUInt(zs_u8("u"))); put(d, w ? "bc" : "c", nUInt(zs_u8("u"))); }
  else { int k = (int)zs_pick(3, "perm"); for (int i = 0; i < 3; i++) d.c.push_back(nStr(sym_str((i + k) % 3 * 7, "s"))); }
  return d;
}
static Op layout_op(int fam) {
  Op o;
  if (fam == 1) { static const int K[] = {9, 10, 13}; o.k = K[zs_pick(3, "op")]; o.sub = 1; static const char *N[] = {"a", "ab", "bc", "c"}; if (o.k != 9) o.key = N[zs_pick(4, "key")]; }
  else { o.k = 12; o.idx = zs_pick(3, "idx"); o.sub = fam == 0 ? 1 : 6; }
  return o;
}
ZS_ENTRY(rp_reuse) {
  int fam = (int)zs_pick(3, "family");
  Node d = layout_doc(fam), e = layout_doc(fam);
  z::ZBuffer b1 = encode<P>(d), b2 = encode<P>(e);
  size_t n = b1.size() > b2.size() ? b1.size() : b2.size();
  uint8_t *p = (uint8_t *)aligned_alloc(16, (n + 15) / 16 * 16);
  Op x = layout_op(fam), y = layout_op(fam);
  memcpy(p, b1.data(), b1.size());
  { R r(std::span<const uint8_t>(p, b1.size())); apply(r, x); }
  memcpy(p, b2.data(), b2.size());
  R r(std::span<const uint8_t>(p, b2.size())), f(b2.buf());
  ZS_ASSERT(apply(r, y).eq(apply(f, y)), "an answer depends on a document read before");
  free(p);
  zs_cover("done");
}
// two writers filled in turn
ZS_ENTRY(rp_writers) {
  int64_t i = (int64_t)zs_u64("i"); uint64_t u = zs_u64("u"); std::string s = sym_str(3, "s"), t = sym_str(15, "t");
  P::RootSerializer ra{}, rb{}; P::Serializer a{ra}, b{rb};
  a.begin_map(2); b.begin_array(3); a.key("k"); b.string(t); a.begin_array(1); b.begin_map(1); a.string(s); b.key("z"); a.end_array(); b.int64(i); b.end_map(); a.key("l"); b.string(s); a.uint64(u); b.end_array(); a.end_map();
  z::ZBuffer A = ra.finish(), B = rb.finish();
  Node na = nMap(); put(na, "k", nArr()); na.c[0].c = {nStr(s)}; put(na, "l", nUInt(u));
  Node nb = nArr(); nb.c = {nStr(t), nMap(), nStr(s)}; put(nb.c[1], "z", nInt(i));
  z::ZBuffer EA = encode<P>(na), EB = encode<P>(nb);
  ZS_ASSERT(A.size() == EA.size() && memcmp(A.data(), EA.data(), A.size()) == 0 && B.size() == EB.size() && memcmp(B.data(), EB.data(), B.size()) == 0, "two writers used in turn disturbed each other");
  zs_cover("done");
}
// the same child, asked for twice, interleaved with its sibling
ZS_ENTRY(rp_child) {
  Node d = nArr(); d.c = {small_doc((int)zs_param(0)), small_doc(4)};
  z::ZBuffer b = encode<P>(d);
  R r(b.buf());
  auto c0 = r[0]; Op x = pick_op(false), y = pick_op(false);
  Res a1 = apply(c0, x);
  auto c1 = r[1]; Res b1 = apply(c1, y);
  Res a2 = apply(c0, x), a3 = apply(r[0], x);
  ZS_ASSERT(a1.eq(a2) && a1.eq(a3), "a value changed after its sibling was read");
  a1.still(); b1.still();
  zs_cover("done");
}
#endif
#endif
#if SEC == 2
namespace zx = zerialize::xtensor;
namespace ze = zerialize::eigen;
ZS_ENTRY(sh_tensor) {
  auto go = [&](auto *tp) {
    using T = std::remove_pointer_t<decltype(tp)>;
    size_t r = zs_pick(3, "rows"), c = 1 + zs_pick(2, "cols");
    std::string e = sym_str(r * c * sizeof(T), "e");
    xt::xtensor<T, 2> t = xt::xtensor<T, 2>::from_shape({r, c}); if (!e.empty()) memcpy((void *)t.data(), e.data(), e.size());
    z::ZBuffer b = z::serialize<P>(z::zmap<"t">(t));
    const R *rd = new R(b.to_vector_copy());
    const xt::xtensor<T, 2> *st = new xt::xtensor<T, 2>(t);
    switch (zs_pick(3, "how")) {
      case 0: zs_shared([=] { auto v = (*rd)["t"]; auto x = zx::asXTensorView<T, 2>(v); ZS_ASSERT(x.shape()[0] == r && x.shape()[1] == c, "shape"); auto a = x.array(); ZS_ASSERT(a.size() == r * c, "size"); }); break;
      case 1: zs_shared([=] { auto v = (*rd)["t"]; auto x = ze::asEigenMatrix<T, Eigen::Dynamic, Eigen::Dynamic>(v); ZS_ASSERT((size_t)x.rows() == r && (size_t)x.cols() == c, "shape"); }); break;
      default: zs_shared([=] { z::ZBuffer o = z::serialize<P>(*st); ZS_ASSERT(o.size() > 0, "size"); }); break;
    }
    delete st; delete rd; zs_cover("done");
  };
  switch (zs_pick(3, "dtype")) { case 0: go((uint8_t *)0); break; case 1: go((float *)0); break; default: go((double *)0); break; }
}
#endif
