// Every way of expressing a document yields the same bytes.  -DZP=
#include "proto.h"
#include "gen.h"
#include <deque>
namespace usr {
struct Point { int32_t x; uint16_t y; std::string tag; };
template <z::Writer W> void serialize(const Point &p, W &w) { w.begin_map(3); w.key("x"); w.int64(p.x); w.key("y"); w.uint64(p.y); w.key("tag"); w.string(p.tag); w.end_map(); }
}
static Node nPoint(const usr::Point &p) { Node m = nMap(); put(m, "x", nInt(p.x)); put(m, "y", nUInt(p.y)); put(m, "tag", nStr(p.tag)); return m; }
static Node A(std::initializer_list<Node> l) { Node a = nArr(); for (auto &x : l) a.c.push_back(x); return a; }
static Node M(std::initializer_list<std::pair<const char *, Node>> l) { Node m = nMap(); for (auto &x : l) put(m, x.first, x.second); return m; }
static void eqb(const z::ZBuffer &a, const z::ZBuffer &b, const char *what) {
  (void)what;
  ZS_ASSERT(a.size() == b.size(), "a builder form produced a buffer of different size");
  ZS_ASSERT(a.size() == 0 || memcmp(a.data(), b.data(), a.size()) == 0, "a builder form produced different bytes");
}
static void is(const z::ZBuffer &a, const Node &n) { eqb(a, encode<P>(n), ""); }
// ---- every arithmetic type, as root, in zvec and in zmap, as lvalue, const lvalue and temporary
template <class T> static void arith(Node (*mk)(T)) {
  T v = zs_val<T>("v"); const T cv = v; Node n = mk(v);
  switch (zs_pick(8, "form")) {
    case 0: is(z::serialize<P>(v), n); break;
    case 1: is(z::serialize<P>(T(v)), n); break;
    case 2: is(z::serialize<P>(z::zvec(v)), A({n})); break;
    case 3: is(z::serialize<P>(z::zvec(T(v), cv)), A({n, n})); break;
    case 4: is(z::serialize<P>(z::zmap<"k">(v)), M({{"k", n}})); break;
    case 5: is(z::serialize<P>(z::zmap<"k", "j">(cv, T(v))), M({{"k", n}, {"j", n}})); break;
    case 6: is(z::serialize<P>(z::dyn::Value(v)), n); break;
    default: is(z::serialize<P>(std::vector<T>{v, v}), A({n, n})); break;
  }
  zs_cover("done");
}
template <class T> static Node mkI(T v) { return nInt((int64_t)v); }
template <class T> static Node mkU(T v) { return nUInt((uint64_t)v); }
ZS_ENTRY(b_arith) {
  switch (zs_pick(15, "type")) {
    case 0: arith<char>(mkI<char>); break;
    case 1: arith<signed char>(mkI<signed char>); break;
    case 2: arith<unsigned char>(mkU<unsigned char>); break;
    case 3: arith<short>(mkI<short>); break;
    case 4: arith<unsigned short>(mkU<unsigned short>); break;
    case 5: arith<int>(mkI<int>); break;
    case 6: arith<unsigned>(mkU<unsigned>); break;
    case 7: arith<long>(mkI<long>); break;
    case 8: arith<unsigned long>(mkU<unsigned long>); break;
    case 9: arith<long long>(mkI<long long>); break;
    case 10: arith<unsigned long long>(mkU<unsigned long long>); break;
    case 11: arith<double>([](double d) { return nDbl(bits(d)); }); break;
    case 12: { float f = zs_pick(2, "f") ? 1.5f : -0.1f; is(z::serialize<P>(f), nDbl(bits((double)f))); is(z::serialize<P>(z::zvec(f)), A({nDbl(bits((double)f))})); is(z::serialize<P>(z::dyn::Value(f)), nDbl(bits((double)f))); zs_cover("done"); break; }
    case 13: { bool b = zs_u8("b") & 1; is(z::serialize<P>(b), nBool(b)); is(z::serialize<P>(z::zvec(b, true)), A({nBool(b), nBool(true)})); is(z::serialize<P>(z::dyn::Value(b)), nBool(b)); is(z::serialize<P>(z::zmap<"b">(b)), M({{"b", nBool(b)}})); is(z::serialize<P>(std::vector<bool>{b, false}), A({nBool(b), nBool(false)})); zs_cover("done"); break; }
    default: { is(z::serialize<P>(nullptr), nNull()); is(z::serialize<P>(z::zvec(nullptr)), A({nNull()})); is(z::serialize<P>(z::zmap<"n">(nullptr)), M({{"n", nNull()}})); is(z::serialize<P>(z::dyn::Value(nullptr)), nNull()); is(z::serialize<P>(z::dyn::Value()), nNull()); is(z::serialize<P>(z::dyn::Value(z::dyn::Null{})), nNull()); zs_cover("done"); break; }
  }
}
ZS_ENTRY(b_str) { // params: lo hi
  size_t n = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "len");
  std::string s = n <= 64 ? sym_str(n, "s") : long_str(n, "s", 8); std::string_view sv = s; const std::string cs = s;
  Exact e(s);
  Node N = nStr(s), B = nBlob(s);
  std::vector<std::byte> vb(n); if (n) memcpy(vb.data(), s.data(), n);
  std::span<const std::byte> sp(vb);
  switch (zs_pick(12, "form")) {
    case 0: is(z::serialize<P>(s), N); break;
    case 1: is(z::serialize<P>(e.sv()), N); break;
    case 2: is(z::serialize<P>(z::zvec(s, sv, cs, std::string(s), e.sv())), A({N, N, N, N, N})); break;
    case 3: is(z::serialize<P>(z::zmap<"a", "b", "c">(s, sv, std::string(s))), M({{"a", N}, {"b", N}, {"c", N}})); break;
    case 4: is(z::serialize<P>(z::dyn::Value(s)), N); is(z::serialize<P>(z::dyn::Value(e.sv())), N); break;
    case 5: is(z::serialize<P>(vb), B); is(z::serialize<P>(e.bytes()), B); break;
    case 6: is(z::serialize<P>(z::zvec(vb, sp, std::vector<std::byte>(vb))), A({B, B, B})); break;
    case 7: is(z::serialize<P>(z::zmap<"x">(vb)), M({{"x", B}})); break;
    case 8: is(z::serialize<P>(z::dyn::Value(vb)), B); is(z::serialize<P>(z::dyn::Value(e.bytes())), B); is(z::serialize<P>(z::dyn::Value::blob(e.bytes())), B); is(z::serialize<P>(z::dyn::Value(z::dyn::Binary{vb})), B); break;
    case 9: is(z::serialize<P>(std::vector<std::string>{s, "", s}), A({N, nStr(""), N})); break;
    case 10: is(z::serialize<P>(std::list<std::vector<std::byte>>{vb, vb}), A({B, B})); break;
    default: { for (char c : s) zs_assume(c != 0); std::string t = s; is(z::serialize<P>(t.c_str()), N); is(z::serialize<P>(z::zvec(t.c_str())), A({N})); is(z::serialize<P>(z::dyn::Value(t.c_str())), N); break; }
  }
  zs_cover("done");
}
// ---- nested builders
ZS_ENTRY(b_nest) {
  int64_t i = (int64_t)zs_u64("i"); uint64_t u = zs_u64("u"); uint64_t db = zs_u64("d"); double d = dbl(db); bool b = zs_u8("b") & 1;
  std::string s = sym_str(3, "s"), l = sym_str(14, "l");
  Node I = nInt(i), U = nUInt(u), D = nDbl(db), B = nBool(b), S = nStr(s), L = nStr(l), X = nBlob(l);
  std::vector<std::byte> vb(l.size()); memcpy(vb.data(), l.data(), l.size());
  switch (zs_pick(9, "form")) {
    case 0: is(z::serialize<P>(z::zvec()), A({})); is(z::serialize<P>(z::zmap<>()), nMap()); break;
    case 1: is(z::serialize<P>(z::zvec(z::zvec(), z::zmap<>(), z::zvec(i, z::zvec(u)))), A({A({}), nMap(), A({I, A({U})})})); break;
    case 2: is(z::serialize<P>(z::zmap<"z", "a", "longer key", "">(i, z::zvec(d, b), z::zmap<"q">(s), l)), M({{"z", I}, {"a", A({D, B})}, {"longer key", M({{"q", S}})}, {"", L}})); break;
    case 3: { auto in = z::zmap<"k", "j">(i, s); is(z::serialize<P>(z::zvec(in, in)), A({M({{"k", I}, {"j", S}}), M({{"k", I}, {"j", S}})})); break; }
    case 4: is(z::serialize<P>(z::zvec("lit", "", nullptr, true, 1, 2u, 3l, -4ll, 5ull, 1.25, 'c', vb)), A({nStr("lit"), nStr(""), nNull(), nBool(true), nInt(1), nUInt(2), nInt(3), nInt(-4), nUInt(5), nDbl(bits(1.25)), nInt('c'), X})); break;
    case 5: is(z::serialize<P>(z::zmap<"v", "m">(std::vector<int64_t>{i, 7}, std::map<std::string, uint64_t>{{"b", u}, {"a", 2}})), M({{"v", A({I, nInt(7)})}, {"m", M({{"a", nUInt(2)}, {"b", U}})}})); break;
    case 6: { usr::Point p{(int32_t)i, (uint16_t)u, s}; is(z::serialize<P>(p), nPoint(p)); is(z::serialize<P>(z::zvec(p, usr::Point(p))), A({nPoint(p), nPoint(p)})); is(z::serialize<P>(z::zmap<"p">(p)), M({{"p", nPoint(p)}})); break; }
    case 7: { auto dv = z::dyn::map({{"i", i}, {"l", z::dyn::array({d, b, s})}}); is(z::serialize<P>(z::zvec(dv, u)), A({M({{"i", I}, {"l", A({D, B, S})}}), U})); is(z::serialize<P>(z::zmap<"d">(dv)), M({{"d", M({{"i", I}, {"l", A({D, B, S})}})}})); break; }
    default: { auto bb = z::zmap<"a", "b">(z::zvec(i, std::string("tmp")), z::zmap<"c">(u)); Node e = M({{"a", A({I, nStr("tmp")})}, {"b", M({{"c", U}})}});
               auto x = z::serialize<P>(bb); auto y = z::serialize<P>(bb); is(x, e); eqb(x, y, "twice"); auto cp = bb; is(z::serialize<P>(cp), e); auto mv = std::move(cp); is(z::serialize<P>(mv), e); break; }
  }
  zs_cover("done");
}
// ---- standard containers
ZS_ENTRY(b_stl) {
  int64_t i = (int64_t)zs_u64("i"), j = (int64_t)zs_u64("j"); uint64_t u = zs_u64("u"); std::string s = sym_str(2, "s");
  Node I = nInt(i), J = nInt(j), U = nUInt(u), S = nStr(s);
  switch (zs_pick(12, "form")) {
    case 0: is(z::serialize<P>(std::vector<int64_t>{i, j, i}), A({I, J, I})); is(z::serialize<P>(std::vector<int64_t>{}), A({})); break;
    case 1: is(z::serialize<P>(std::list<int64_t>{i, j}), A({I, J})); is(z::serialize<P>(std::list<int64_t>{}), A({})); break;
    case 2: is(z::serialize<P>(std::array<int64_t, 3>{i, j, 5}), A({I, J, nInt(5)})); is(z::serialize<P>(std::array<uint64_t, 1>{u}), A({U})); break;
    case 3: is(z::serialize<P>(std::initializer_list<int64_t>{i, j}), A({I, J})); is(z::serialize<P>(std::initializer_list<std::string>{s}), A({S})); break;
    case 4: is(z::serialize<P>(std::map<std::string, int64_t>{{"b", i}, {"a", j}, {"ab", 1}}), M({{"a", J}, {"ab", nInt(1)}, {"b", I}})); break;
    case 5: { std::map<std::string, int64_t> e; is(z::serialize<P>(e), nMap()); std::unordered_map<std::string, uint64_t> q; is(z::serialize<P>(q), nMap()); break; }
    case 6: { std::unordered_map<std::string, int64_t> m; m["one"] = i; is(z::serialize<P>(m), M({{"one", I}})); m["two"] = j; m["three"] = 3; Node e = nMap(); for (auto &[k, v] : m) put(e, k, nInt(v)); is(z::serialize<P>(m), e); break; }
    case 7: is(z::serialize<P>(std::vector<std::vector<int64_t>>{{i}, {}, {j, i}}), A({A({I}), A({}), A({J, I})})); break;
    case 8: is(z::serialize<P>(std::map<std::string, std::vector<std::string>>{{"k", {s, "x"}}, {"j", {}}}), M({{"j", A({})}, {"k", A({S, nStr("x")})}})); break;
    case 9: is(z::serialize<P>(std::vector<std::map<std::string, int64_t>>{{{"a", i}}, {}}), A({M({{"a", I}}), nMap()})); break;
    case 10: is(z::serialize<P>(std::list<std::array<uint64_t, 2>>{{u, 1}, {2, u}}), A({A({U, nUInt(1)}), A({nUInt(2), U})})); break;
    default: { usr::Point p{(int32_t)i, (uint16_t)u, s}; is(z::serialize<P>(std::vector<usr::Point>{p, p}), A({nPoint(p), nPoint(p)})); is(z::serialize<P>(std::map<std::string, usr::Point>{{"p", p}}), M({{"p", nPoint(p)}})); is(z::serialize<P>(z::dyn::serializable(p)), nPoint(p)); is(z::serialize<P>(z::dyn::array({z::dyn::serializable(p), z::dyn::serializable(std::vector<int64_t>{i, j})})), A({nPoint(p), A({I, J})})); break; }
  }
  zs_cover("done");
}
// long standard containers: params from,to
ZS_ENTRY(b_size) {
  size_t n = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "n"); uint64_t u = zs_u64("u");
  Node a = nArr(), m = nMap(); std::vector<uint64_t> v; std::list<uint64_t> l; std::map<std::string, uint64_t> mm; z::dyn::Value::Array da; z::dyn::Value::Map dm;
  for (size_t i = 0; i < n; i++) {
    uint64_t x = i + 1 == n ? u : i * 3; v.push_back(x); l.push_back(x); a.c.push_back(nUInt(x)); da.push_back(z::dyn::Value(x));
    std::string k{(char)('a' + i / 676), (char)('a' + i / 26 % 26), (char)('a' + i % 26)}; mm[k] = x; put(m, k, nUInt(x)); dm.emplace_back(k, z::dyn::Value(x));
  }
  switch (zs_pick(3, "form")) {
    case 0: { auto e = encode<P>(a); eqb(z::serialize<P>(v), e, ""); eqb(z::serialize<P>(l), e, ""); break; }
    case 1: { auto e = encode<P>(m); eqb(z::serialize<P>(mm), e, ""); eqb(z::serialize<P>(z::dyn::Value(dm)), e, ""); break; }
    default: is(z::serialize<P>(z::dyn::Value(da)), a); break;
  }
  zs_cover("done");
}
// ---- dynamic values: every small tree
static z::dyn::Value dynv(const Node &n) {
  switch (n.k) {
    case KNull: return {};
    case KBool: return z::dyn::Value(n.u != 0);
    case KInt: return z::dyn::Value((int64_t)n.u);
    case KUInt: return z::dyn::Value(n.u);
    case KDbl: return z::dyn::Value(dbl(n.u));
    case KStr: return z::dyn::Value(n.s);
    case KBlob: return z::dyn::Value(as_bytes(n.s));
    case KArr: { z::dyn::Value::Array a; for (auto &c : n.c) a.push_back(dynv(c)); return z::dyn::Value(std::move(a)); }
    default: { z::dyn::Value::Map a; for (size_t i = 0; i < n.c.size(); i++) a.emplace_back(n.keys[i], dynv(n.c[i])); return z::dyn::Value(std::move(a)); }
  }
}
ZS_ENTRY(b_deep) { // params: from,to: nesting of dynamic values and of vectors of dynamic values
  size_t d = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "d"); uint64_t pat = zs_pick(3, "pat"), form = zs_pick(2, "form"); Node n = nStr(sym_str(3, "leaf")); z::dyn::Value v(n.s);
  for (size_t i = 0; i < d; i++) {
    bool map = pat == 0 ? false : pat == 1 ? true : i & 1; Node o = map ? nMap() : nArr();
    if (map) { put(o, "k", n); put(o, "j", nUInt(i)); z::dyn::Value::Map m; m.emplace_back("k", std::move(v)); m.emplace_back("j", z::dyn::Value((uint64_t)i)); v = z::dyn::Value(std::move(m)); }
    else { o.c.push_back(n); if (form) { std::vector<z::dyn::Value> w{v}; v = z::dyn::serializable(std::move(w)); } else { z::dyn::Value::Array a; a.push_back(std::move(v)); v = z::dyn::Value(std::move(a)); } }
    n = std::move(o);
  }
  is(z::serialize<P>(v), n); auto c = v; is(z::serialize<P>(z::zvec(c, 1)), A({n, nInt(1)}));
  zs_cover("done");
}
ZS_ENTRY(b_dyn) { // params nodes depth kids wide
  int budget = (int)zs_param(0);
  Node n = gen_tree(budget, (int)zs_param(1), (int)zs_param(2), (int)zs_param(3));
  auto v = dynv(n); auto e = encode<P>(n);
  eqb(z::serialize<P>(v), e, "");
  auto c = v; v = z::dyn::Value(); eqb(z::serialize<P>(c), e, "");
  auto sz = z::dyn::serializable(std::move(c)); eqb(z::serialize<P>(sz), e, "");
  zs_cover("done");
}
