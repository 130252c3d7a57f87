// Lifetimes of readers, views and stored builders.  -DZP=
#include "proto.h"
#include "gen.h"
static Node docA() { Node m = nMap(); put(m, "s", nStr(sym_str(14, "s"))); Node a = nArr(); a.c.push_back(nUInt(zs_u64("u"))); a.c.push_back(nStr(sym_str(2, "t"))); put(m, "arr", a); Node in = nMap(); put(in, "blob", nBlob(sym_str(3, "x"))); put(in, "z", nNull()); put(m, "in", in); return m; }
static Node docB() { Node a = nArr(); a.c.push_back(nStr(sym_str(13, "b"))); a.c.push_back(nInt(-5)); return a; }
static Node docC() { Node m = nMap(); put(m, "s", nStr(sym_str(14, "s"))); Node a = nArr(); a.c.push_back(nUInt(300)); put(m, "a", a); return m; }
static Node docD() { Node a = nArr(); a.c.push_back(nStr(sym_str(13, "b"))); return a; }
struct Slot { std::unique_ptr<R> r; int doc = -1; };     // doc -1: moved-from
ZS_ENTRY(life_hist) { // params: steps slots documents (0: small, 1: smallest and large)
  size_t steps = zs_param(0), S = zs_param(1);
  std::vector<Node> docs; if (zs_param(2)) docs = {nUInt(zs_u8("u") & 127), nStr(long_str(700, "s", 6))}; else docs = {docC(), docD()};
  std::vector<std::vector<uint8_t>> bytes; std::vector<std::unique_ptr<CopyBuf>> keep;
  for (auto &d : docs) { auto b = encode<P>(d); bytes.push_back(b.to_vector_copy()); keep.push_back(std::make_unique<CopyBuf>(b.buf())); }
  zs_leak_begin();
  try {
    std::vector<Slot> sl(S);
    for (size_t t = 0; t < steps; t++) {
      size_t a = zs_pick(S, "slot");
      switch (zs_pick(6, "op")) {
        case 0: {
          if (sl[a].r) zs_assume(0);
          int d = (int)zs_pick(2, "doc");
          switch (zs_pick(3, "src")) {
            case 0: { auto v = std::make_unique<std::vector<uint8_t>>(bytes[d]); sl[a].r = std::make_unique<R>(*v); break; }
            case 1: { std::vector<uint8_t> v(bytes[d]); sl[a].r = std::make_unique<R>(std::move(v)); break; }
            default: sl[a].r = std::make_unique<R>(keep[d]->span()); break;
          }
          sl[a].doc = d; break; }
        case 1: if (!sl[a].r) zs_assume(0); sl[a] = Slot{}; break;
        case 2: { size_t b = zs_pick(S, "from"); if (sl[a].r || !sl[b].r || sl[b].doc < 0) zs_assume(0); sl[a].r = std::make_unique<R>(*sl[b].r); sl[a].doc = sl[b].doc; break; }
        case 3: { size_t b = zs_pick(S, "from"); if (sl[a].r || !sl[b].r || sl[b].doc < 0) zs_assume(0); sl[a].r = std::make_unique<R>(std::move(*sl[b].r)); sl[a].doc = sl[b].doc; sl[b].doc = -1; break; }
        case 4: { size_t b = zs_pick(S, "from"); if (!sl[a].r || !sl[b].r || sl[b].doc < 0) zs_assume(0); *sl[a].r = *sl[b].r; sl[a].doc = sl[b].doc; break; }
        default: { size_t b = zs_pick(S, "from"); if (a == b || !sl[a].r || !sl[b].r || sl[b].doc < 0) zs_assume(0); *sl[a].r = std::move(*sl[b].r); sl[a].doc = sl[b].doc; sl[b].doc = -1; break; }
      }
    }
    for (auto &s : sl) if (s.r && s.doc >= 0) same<kOrdered>(docs[s.doc], *s.r);
  } catch (const z::DeserializationError &) { ZS_FAIL("a valid reader operation raised"); }
  zs_leak_end();
  zs_cover("done");
}
// what a borrowing reader hands out lives as long as the bytes, whatever happened to readers and intermediate values
ZS_ENTRY(life_views) {
  Node d = docA(); auto zb = encode<P>(d); CopyBuf cb(zb.buf());
  try {
    switch (zs_pick(7, "case")) {
      case 0: { std::string_view s = R(cb.span())["s"].asStringView(); ZS_ASSERT(eqs(s, d.c[0].s), "string view dangles"); break; }
      case 1: { std::string_view s = R(cb.span())["arr"][(size_t)1].asStringView(); ZS_ASSERT(eqs(s, d.c[1].c[1].s), "string view dangles"); break; }
      case 2: { auto b = R(cb.span())["in"]["blob"].asBlob(); ZS_ASSERT(eqs({(const char *)std::data(b), std::size(b)}, d.c[2].c[0].s), "blob view dangles"); break; }
      case 3: { auto v = R(cb.span())["in"]; same<kOrdered>(d.c[2], v); auto w = v; auto x = std::move(v); same<kOrdered>(d.c[2], w); same<kOrdered>(d.c[2], x); break; }
      case 4: { std::vector<std::string_view> ks; for (std::string_view k : R(cb.span())["in"].mapKeys()) ks.push_back(k); ZS_ASSERT(ks.size() == 2 && eqs(ks[0], "blob") && eqs(ks[1], "z"), "keys dangle"); break; }
      case 5: { auto kv = R(cb.span())["in"].mapKeys(); size_t n = 0; for (std::string_view k : kv) { ZS_ASSERT(eqs(k, n == 0 ? "blob" : "z"), "keys dangle"); n++; } ZS_ASSERT(n == 2, "keys dangle");
                auto kv2 = kv; n = 0; for (std::string_view k : kv2) { ZS_ASSERT(k.size() == (n ? 1u : 4u), "copied key range differs"); n++; }
                auto it = kv.begin(); auto it2 = it; ++it; ZS_ASSERT(eqs(*it2, "blob") && eqs(*it, "z") && !(it == it2) && it++ != kv.end() && it == kv.end(), "key iterators are not independent"); break; }
      default: { auto r = std::make_unique<R>(cb.span()); auto v = (*r)["arr"]; auto e = v[(size_t)0]; r.reset(); same<kOrdered>(d.c[1], v); same<kOrdered>(d.c[1].c[0], e); break; }
    }
  } catch (const z::DeserializationError &) { ZS_FAIL("reading raised"); }
  zs_cover("done");
}
// views from an owning reader survive moving that reader
ZS_ENTRY(life_moved) {
  Node d = docA(); auto zb = encode<P>(d);
  try {
    auto r = std::make_unique<R>(zb.to_vector_copy());
    auto v = (*r)["in"]; auto ks = v.mapKeys(); std::string_view s = (*r)["s"].asStringView(); auto e = (*r)["arr"][(size_t)1];
    R q(encode<P>(docB()).to_vector_copy());
    switch (zs_pick(2, "how")) { case 0: q = std::move(*r); break; default: { R t(std::move(*r)); q = std::move(t); } }
    r.reset();
    same<kOrdered>(d, q); same<kOrdered>(d.c[2], v); same<kOrdered>(d.c[1].c[1], e);
    ZS_ASSERT(eqs(s, d.c[0].s), "string view dangles"); size_t n = 0; for (std::string_view k : ks) n += k.size(); ZS_ASSERT(n == 5, "keys dangle");
    auto get = [&](R x) { return x; }; R y = get(q); q = R(zb.buf()); same<kOrdered>(d, y); same<kOrdered>(d, q);
  } catch (const z::DeserializationError &) { ZS_FAIL("reading raised"); }
  zs_cover("done");
}
// stored builders
static auto mkb(const std::string &s, uint64_t u) { return z::zmap<"a", "b", "c">(z::zvec(std::string(s), uint64_t(u), std::vector<std::string>{s, "q"}), z::zmap<"n">(std::map<std::string, uint64_t>{{"k", u}}), z::dyn::Value(s)); }
ZS_ENTRY(life_build) {
  std::string s = sym_str(20, "s"); uint64_t u = zs_u64("u");
  Node e = nMap(); { Node a = nArr(); a.c.push_back(nStr(s)); a.c.push_back(nUInt(u)); Node b = nArr(); b.c.push_back(nStr(s)); b.c.push_back(nStr("q")); a.c.push_back(b); put(e, "a", a); Node m = nMap(); Node k = nMap(); put(k, "k", nUInt(u)); put(m, "n", k); put(e, "b", m); put(e, "c", nStr(s)); }
  zs_leak_begin();
  {
    auto b = mkb(s, u); auto c = b; auto d = std::move(b);
    auto x = z::serialize<P>(c); auto y = z::serialize<P>(d); auto w = z::serialize<P>(d);
    auto want = encode<P>(e);
    for (auto *p : {&x, &y, &w}) ZS_ASSERT(p->size() == want.size() && memcmp(p->data(), want.data(), want.size()) == 0, "stored builder emitted something else");
    auto outer = [&] { auto in = mkb(s, u); return z::zvec(std::move(in), std::string("t")); }();
    auto r = z::serialize<P>(outer); CopyBuf cb(r.buf()); R rd(cb.span());
    Node o = nArr(); o.c.push_back(e); o.c.push_back(nStr("t")); same<kOrdered>(o, rd);
    // lvalues are visited, not consumed
    std::string lv = s; std::vector<std::string> vec{s}; auto st = z::zvec(lv, vec); auto p1 = z::serialize<P>(st); auto p2 = z::serialize<P>(st);
    ZS_ASSERT(eqs(lv, s) && vec.size() == 1 && eqs(vec[0], s), "serializing consumed its arguments");
    ZS_ASSERT(p1.size() == p2.size() && memcmp(p1.data(), p2.data(), p1.size()) == 0, "second serialization differs");
  }
  zs_leak_end();
  zs_cover("done");
}
