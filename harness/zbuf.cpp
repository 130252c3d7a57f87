// Ownership histories of ZBuffer.
#include "doc.h"
struct Rec { uint8_t *p = nullptr; size_t n = 0; int freed = 0; int badptr = 0; };
static Rec recs[16]; static int nrec;
struct Slot { std::unique_ptr<z::ZBuffer> b; int id = -1; bool vec = false; std::string bytes; const uint8_t *at = nullptr; bool known = true; };
static int refs_expected[16];
template <class T> static void del(int id, T *q) { recs[id].freed++; if ((void *)q != (void *)recs[id].p) recs[id].badptr++; free(recs[id].p); }
static z::ZBuffer make(int kind, size_t n, Slot &s) {
  s.bytes = sym_str(n, "b"); s.id = -1; s.vec = false; s.at = nullptr;
  if (kind == 0) { s.bytes.clear(); s.vec = true; return z::ZBuffer(); }
  if (kind == 1) { std::vector<uint8_t> v(s.bytes.begin(), s.bytes.end()); s.vec = true; s.at = v.data(); return z::ZBuffer(std::move(v)); }
  int id = nrec++; Rec &r = recs[id]; r.p = (uint8_t *)malloc(n ? n : 1); r.n = n; if (n) memcpy(r.p, s.bytes.data(), n); s.id = id; s.at = r.p;
  if (kind == 2) return z::ZBuffer(r.p, n, std::function<void(uint8_t *)>([id](uint8_t *q) { del(id, q); }));
  if (kind == 3) return z::ZBuffer((char *)r.p, n, std::function<void(char *)>([id](char *q) { del(id, q); }));
  return z::ZBuffer((void *)r.p, n, std::function<void(void *)>([id](void *q) { del(id, q); }));
}
static void look(const Slot &s) {
  if (!s.b) return;
  const z::ZBuffer &b = *s.b;
  ZS_ASSERT(b.size() == s.bytes.size(), "buffer size differs from what it was given");
  ZS_ASSERT(b.empty() == s.bytes.empty(), "empty() wrong");
  auto sp = b.buf();
  ZS_ASSERT(sp.size() == s.bytes.size() && sp.data() == b.data(), "buf() disagrees with data()/size()");
  ZS_ASSERT(eqs({(const char *)b.data(), b.size()}, s.bytes), "buffer contents differ from what it was given");
  if (s.at && !s.bytes.empty()) ZS_ASSERT(b.data() == s.at, "buffer does not present the storage it was given");
  if (!s.bytes.empty()) ZS_ASSERT(b.owned() == s.vec, "owned() wrong");
  auto v = b.to_vector_copy(); ZS_ASSERT(eqs({(const char *)v.data(), v.size()}, s.bytes), "to_vector_copy differs");
  ZS_ASSERT(eqs(b.to_debug_string(), s.bytes), "to_debug_string differs");
}
static void drop(Slot &s) { if (s.id >= 0) refs_expected[s.id] = 1; s.id = -1; }
static void empty_model(Slot &s) { s.id = -1; s.bytes.clear(); s.at = nullptr; }
static void counts() { for (int i = 0; i < nrec; i++) { ZS_ASSERT(recs[i].freed == refs_expected[i], recs[i].freed > refs_expected[i] ? "a deleter ran too early or more than once" : "a deleter has not run although its buffer ended"); ZS_ASSERT(recs[i].badptr == 0, "a deleter got a different pointer"); } }
ZS_ENTRY(zb_hist) { // params: steps, slots
  size_t steps = zs_param(0), S = zs_param(1);
  nrec = 0; for (int i = 0; i < 16; i++) { recs[i] = Rec{}; refs_expected[i] = 0; }
  zs_leak_begin();
  {
    std::vector<Slot> sl(S);
    for (size_t t = 0; t < steps; t++) {
      size_t a = zs_pick(S, "slot");
      switch (zs_pick(4, "op")) {
        case 0: { // construct into a dead slot
          if (sl[a].b) zs_assume(0);
          int kind = (int)zs_pick(5, "kind"); size_t n = kind ? zs_pick(2, "n") * 3 : 0;
          Slot s; s.b = std::make_unique<z::ZBuffer>(make(kind, n, s)); sl[a] = std::move(s); break; }
        case 1: { // destroy
          if (!sl[a].b) zs_assume(0);
          drop(sl[a]); sl[a].b.reset(); sl[a] = Slot{}; break; }
        case 2: { // move-construct into a dead slot
          size_t b = zs_pick(S, "from"); if (sl[a].b || !sl[b].b) zs_assume(0);
          sl[a].b = std::make_unique<z::ZBuffer>(std::move(*sl[b].b)); sl[a].id = sl[b].id; sl[a].vec = sl[b].vec; sl[a].bytes = sl[b].bytes; sl[a].at = sl[b].at; empty_model(sl[b]); break; }
        default: { // move-assign
          size_t b = zs_pick(S, "from"); if (a == b || !sl[a].b || !sl[b].b) zs_assume(0);
          drop(sl[a]); *sl[a].b = std::move(*sl[b].b); sl[a].id = sl[b].id; sl[a].vec = sl[b].vec; sl[a].bytes = sl[b].bytes; sl[a].at = sl[b].at; empty_model(sl[b]); break; }
      }
      for (auto &s : sl) look(s);
      counts();
    }
    for (auto &s : sl) drop(s);
  }
  counts();
  for (int i = 0; i < nrec; i++) ZS_ASSERT(recs[i].freed == 1, "a deleter did not run exactly once");
  zs_leak_end();
  zs_cover("done");
}
// construction arguments
ZS_ENTRY(zb_args) {
  int ran = 0; size_t n = zs_val<size_t>("n"); int which = (int)zs_pick(3, "type"); int cs = (int)zs_pick(3, "case");
  zs_leak_begin();
  uint8_t *p = (uint8_t *)malloc(4);
  bool threw = false;
  try {
    if (cs == 0) { // empty deleter
      if (which == 0) { z::ZBuffer b(p, n, std::function<void(uint8_t *)>()); }
      else if (which == 1) { z::ZBuffer b((char *)p, n, std::function<void(char *)>()); }
      else { z::ZBuffer b((void *)p, n, std::function<void(void *)>()); }
    } else if (cs == 1) { // null pointer
      if (which == 0) { z::ZBuffer b((uint8_t *)nullptr, n, [&](uint8_t *) { ran++; }); ZS_ASSERT(b.size() == 0 && b.buf().empty(), "null buffer not empty"); }
      else if (which == 1) { z::ZBuffer b((char *)nullptr, n, [&](char *) { ran++; }); ZS_ASSERT(b.size() == 0, "null buffer not empty"); }
      else { z::ZBuffer b((void *)nullptr, n, [&](void *) { ran++; }); ZS_ASSERT(b.size() == 0, "null buffer not empty"); }
    } else { // the shipped deleters
      if (which == 0) { uint8_t *q = new uint8_t[5]; zs_bytes(q, 5, "q"); z::ZBuffer b(q, 5, z::ZBuffer::Deleters::DeleteArray); ZS_ASSERT(b.size() == 5 && b.data() == q, "storage"); }
      else if (which == 1) { uint8_t st[5]; zs_bytes(st, 5, "q"); { z::ZBuffer b(st, 5, z::ZBuffer::Deleters::NoOp); ZS_ASSERT(b.data() == st && b.size() == 5, "storage"); } zs_observe(st[0]); }
      else { void *q = malloc(5); zs_bytes(q, 5, "q"); z::ZBuffer b(q, 5, z::ZBuffer::Deleters::Free); ZS_ASSERT(b.data() == q && b.size() == 5, "storage"); }
    }
  } catch (const std::invalid_argument &) { threw = true; }
  if (cs == 0) ZS_ASSERT(threw, "an empty deleter was accepted");
  if (cs == 1) { ZS_ASSERT(threw == (n != 0), "null pointer with a size must be rejected, and only then"); ZS_ASSERT(ran == 0, "deleter ran on a null pointer"); }
  if (cs == 2) ZS_ASSERT(!threw, "valid arguments rejected");
  zs_bytes(p, 4, "still"); free(p); // still the caller's
  zs_leak_end();
  zs_cover("done");
}
// a finished buffer handed through functions and containers
ZS_ENTRY(zb_vec) { // params: n
  zs_leak_begin();
  {
    std::vector<z::ZBuffer> v; std::vector<std::string> e; size_t n = zs_param(0);
    for (int i = 0; i < 16; i++) { recs[i] = Rec{}; refs_expected[i] = 0; } nrec = 0;
    for (size_t i = 0; i < n; i++) { Slot s; v.push_back(make(1 + (int)zs_pick(4, "kind"), 2, s)); e.push_back(s.bytes); }
    size_t k = zs_pick(n, "erase"); v.erase(v.begin() + k); e.erase(e.begin() + k);
    if (v.size() >= 2) { std::swap(v[0], v[1]); std::swap(e[0], e[1]); }
    for (size_t i = 0; i < v.size(); i++) ZS_ASSERT(eqs({(const char *)v[i].data(), v[i].size()}, e[i]), "contents changed while moving buffers around");
  }
  for (int i = 0; i < nrec; i++) ZS_ASSERT(recs[i].freed == 1 && recs[i].badptr == 0, "a deleter did not run exactly once");
  zs_leak_end();
  zs_cover("done");
}
// every kind of deleter argument, every kind of storage, small and large
static int fp_freed; static void *fp_at;
static void fp_u8(uint8_t *p) { fp_freed++; fp_at = p; free(p); }
static void fp_ch(char *p) { fp_freed++; fp_at = p; free(p); }
static void fp_vd(void *p) { fp_freed++; fp_at = p; free(p); }
struct BigDel { uint64_t pad[6] = {1, 2, 3, 4, 5, 6}; std::shared_ptr<int> n; void operator()(void *p) const { ZS_ASSERT(pad[0] == 1 && pad[5] == 6, "deleter state changed"); ++*n; fp_at = p; free(p); } };
ZS_ENTRY(zb_kinds) {
  static const uint16_t L[] = {0, 1, 3, 7, 8, 15, 16, 17, 23, 24, 32, 64, 300};
  size_t n = L[zs_pick(13, "len")]; int kind = (int)zs_pick(12, "kind"), then = (int)zs_pick(6, "then");
  std::string s = n <= 64 ? sym_str(n, "b") : long_str(n, "b", 8); fp_freed = 0; fp_at = nullptr;
  zs_leak_begin();
  {
    auto cnt = std::make_shared<int>(0); const uint8_t *at = nullptr; bool counted = true; std::string st = s; st.push_back(0);
    auto own = [&]() -> uint8_t * { uint8_t *p = (uint8_t *)malloc(n + 1); if (n) memcpy(p, s.data(), n); at = p; return p; };
    auto mk = [&]() -> z::ZBuffer {
      switch (kind) {
        case 0: return z::ZBuffer(own(), n, fp_u8);
        case 1: return z::ZBuffer((char *)own(), n, fp_ch);
        case 2: return z::ZBuffer((void *)own(), n, fp_vd);
        case 3: return z::ZBuffer(own(), n, [cnt](uint8_t *p) { ++*cnt; fp_at = p; free(p); });
        case 4: return z::ZBuffer((char *)own(), n, BigDel{.n = cnt});
        case 5: return z::ZBuffer((void *)own(), n, BigDel{.n = cnt});
        case 6: { std::function<void(void *)> f = BigDel{.n = cnt}; auto g = f; z::ZBuffer b((void *)own(), n, f); f = nullptr; return b; }
        case 7: counted = false; return z::ZBuffer((void *)own(), n, z::ZBuffer::Deleters::Free);
        case 8: { counted = false; uint8_t *p = new uint8_t[n + 1]; if (n) memcpy(p, s.data(), n); at = p; return z::ZBuffer(p, n, z::ZBuffer::Deleters::DeleteArray); }
        case 9: counted = false; at = (const uint8_t *)st.data(); return z::ZBuffer((uint8_t *)st.data(), n, z::ZBuffer::Deleters::NoOp);
        case 10: { counted = false; std::vector<uint8_t> v(s.begin(), s.end()); at = v.data(); return z::ZBuffer(std::move(v)); }
        default: { counted = false; std::vector<uint8_t> v; v.reserve(n + 40); v.assign(s.begin(), s.end()); at = v.data(); return z::ZBuffer(std::move(v)); }
      }
    };
    auto is = [&](const z::ZBuffer &b) {
      ZS_ASSERT(b.size() == n && b.empty() == (n == 0) && b.buf().size() == n, "buffer size differs from what it was given");
      if (n) ZS_ASSERT(b.data() == at && b.buf().data() == at, "buffer does not present the storage it was given");
      ZS_ASSERT(eqs({(const char *)b.data(), b.size()}, s), "buffer contents differ from what it was given");
      auto v = b.to_vector_copy(); ZS_ASSERT(eqs({(const char *)v.data(), v.size()}, s), "to_vector_copy differs");
    };
    auto none = [&](const char *) { ZS_ASSERT(fp_freed == 0 && *cnt == 0, "a deleter ran too early"); };
    {
      z::ZBuffer b = mk(); is(b); none("");
      switch (then) {
        case 0: break;
        case 1: { z::ZBuffer c(std::move(b)); is(c); none(""); break; }
        case 2: { z::ZBuffer c; c = std::move(b); is(c); none(""); b = z::ZBuffer(); is(c); none(""); break; }
        case 3: { std::vector<uint8_t> w{1, 2}; z::ZBuffer c(std::move(w)); std::swap(b, c); is(c); none(""); ZS_ASSERT(b.size() == 2 && b.data()[1] == 2, "swapped contents"); break; }
        case 4: { auto c = std::make_shared<z::ZBuffer>(std::move(b)); auto d = c; c.reset(); is(*d); none(""); break; }
        default: { z::ZBuffer &q = b; b = std::move(q); // self-move: valid, nothing freed twice
                   (void)b.to_vector_copy(); b = z::ZBuffer(); break; }
      }
    }
    if (counted) { ZS_ASSERT(fp_freed + *cnt == 1, "a deleter did not run exactly once"); ZS_ASSERT(fp_at == (const void *)at, "a deleter got a different pointer"); }
  }
  zs_leak_end();
  zs_cover("done");
}
// debug renderings read exactly the buffer
ZS_ENTRY(zb_hex) { // params: from,to
  size_t n = zs_param(0) + zs_pick(zs_param(1) - zs_param(0) + 1, "n"), row = 1 + zs_pick(18, "row");
  bool vec = zs_pick(2, "vec"); std::string s = sym_str(n, "b"); CopyBuf cb({(const uint8_t *)s.data(), n});
  z::ZBuffer b = vec ? z::ZBuffer(std::vector<uint8_t>(s.begin(), s.end())) : z::ZBuffer((uint8_t *)cb.p, n, z::ZBuffer::Deleters::NoOp);
  (void)b.hexdump(row); (void)b.to_string(); ZS_ASSERT(eqs(b.to_debug_string(), s), "to_debug_string differs");
  ZS_ASSERT(eqs({(const char *)b.data(), b.size()}, s), "rendering changed the buffer");
  zs_cover("done");
}
