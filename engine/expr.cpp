#include "expr.h"
#include <cmath>
#include <cstring>
#include <algorithm>
#include <unordered_map>
#include <cassert>
#include <sstream>

std::vector<VarInfo> g_vars;
static std::vector<Expr *> g_varExpr;
size_t g_exprCount = 0;
static uint64_t g_stamp = 1;

// ---------------------------------------------------------------- hash-consing
static std::vector<Expr *> g_tab(1 << 16, nullptr);
static size_t g_tabn = 0;
static std::vector<char *> g_pool;
static size_t g_poolused = 0;
static const size_t POOLSZ = 1 << 20;

static Expr *allocExpr() {
  if (g_pool.empty() || g_poolused + sizeof(Expr) > POOLSZ) {
    g_pool.push_back((char *)aligned_alloc(16, POOLSZ));
    g_poolused = 0;
  }
  Expr *e = (Expr *)(g_pool.back() + g_poolused);
  g_poolused += (sizeof(Expr) + 15) & ~(size_t)15;
  return e;
}
static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  return h * 0xff51afd7ed558ccdull;
}
static inline uint64_t hashKey(Op op, unsigned w, uint32_t aux, Expr *a, Expr *b, Expr *c, u128 v) {
  uint64_t h = op * 131 + w;
  h = mix(h, aux);
  h = mix(h, a ? a->id + 1 : 0);
  h = mix(h, b ? b->id + 1 : 0);
  h = mix(h, c ? c->id + 1 : 0);
  h = mix(h, (uint64_t)v);
  h = mix(h, (uint64_t)(v >> 64));
  return h ^ (h >> 29);
}

static void computeRange(Expr *e);

static Expr *mkNode(Op op, unsigned w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, uint32_t aux = 0, u128 v = 0) {
  uint64_t h = hashKey(op, w, aux, a, b, c, v);
  size_t m = g_tab.size() - 1, i = h & m;
  while (g_tab[i]) {
    Expr *t = g_tab[i];
    if (t->op == op && t->w == w && t->aux == aux && t->a == a && t->b == b && t->c == c && t->val == v) return t;
    i = (i + 1) & m;
  }
  Expr *e = allocExpr();
  new (e) Expr{};
  e->op = op; e->w = (uint8_t)w; e->aux = aux; e->a = a; e->b = b; e->c = c; e->val = v;
  e->id = (uint32_t)g_exprCount++;
  unsigned d = 0;
  if (a) d = std::max<unsigned>(d, a->depth);
  if (b) d = std::max<unsigned>(d, b->depth);
  if (c) d = std::max<unsigned>(d, c->depth);
  e->depth = (uint16_t)std::min<unsigned>(d + 1, 65000);
  computeRange(e);
  g_tab[i] = e;
  if (++g_tabn * 2 > g_tab.size()) {
    std::vector<Expr *> n(g_tab.size() * 2, nullptr);
    size_t mm = n.size() - 1;
    for (Expr *t : g_tab) if (t) {
      size_t j = hashKey(t->op, t->w, t->aux, t->a, t->b, t->c, t->val) & mm;
      while (n[j]) j = (j + 1) & mm;
      n[j] = t;
    }
    g_tab.swap(n);
  }
  return e;
}

static void computeRange(Expr *e) {
  u128 M = maskw(e->w);
  u128 lo = 0, hi = M;
  switch (e->op) {
    case O_CONST: lo = hi = e->val; break;
    case O_CONCAT: {
      unsigned lw = e->b->w;
      lo = (e->a->umin << lw) | e->b->umin;
      hi = (e->a->umax << lw) | e->b->umax;
      break;
    }
    case O_EXTRACT:
      if (e->aux == 0) {
        if (e->a->umax <= M) { lo = e->a->umin; hi = e->a->umax; }
      } else {
        u128 h2 = e->a->umax >> e->aux;
        if (h2 <= M) { hi = h2; lo = e->a->umin >> e->aux; }
      }
      break;
    case O_ITE: lo = std::min(e->b->umin, e->c->umin); hi = std::max(e->b->umax, e->c->umax); break;
    case O_ADD: {
      u128 s = e->a->umax + e->b->umax;
      if (s >= e->a->umax && s <= M) { hi = s; lo = e->a->umin + e->b->umin; }
      else {
        // a + const where const acts as negative: if all values wrap
        u128 l = e->a->umin + e->b->umin;
        if (e->w < 128 && l > M && s >= l && s <= 2 * M + 1) { lo = l & M; hi = s & M; }
      }
      break;
    }
    case O_MUL:
      if (e->w > 64) {
        auto len = [](u128 v) { unsigned n = 0; while (v) { n++; v >>= 1; } return n; };
        if (len(e->a->umax) + len(e->b->umax) <= e->w) { hi = e->a->umax * e->b->umax; lo = e->a->umin * e->b->umin; }
      } else {
        u128 s = e->a->umax * e->b->umax;
        if (s <= M) { hi = s; lo = e->a->umin * e->b->umin; }
      }
      break;
    case O_AND: hi = std::min(e->a->umax, e->b->umax); break;
    case O_OR: {
      lo = std::max(e->a->umin, e->b->umin);
      u128 h = e->a->umax | e->b->umax;
      for (int s = 1; s < 128; s <<= 1) h |= h >> s;
      hi = h & M;
      break;
    }
    case O_XOR: {
      u128 h = e->a->umax | e->b->umax;
      for (int s = 1; s < 128; s <<= 1) h |= h >> s;
      hi = h & M;
      break;
    }
    case O_UDIV: if (e->b->umin > 0) hi = e->a->umax / e->b->umin; if (e->b->umax > 0) lo = e->a->umin / e->b->umax; break; // x/0 is all ones: the lower bound holds
    case O_UREM: hi = e->a->umax; if (e->b->umin > 0 && e->b->umax - 1 < hi) hi = e->b->umax - 1; break;
    case O_LSHR: hi = e->a->umax; break;
    case O_SEXT: {
      u128 half = (u128)1 << (e->a->w - 1);
      if (e->a->umax < half) { lo = e->a->umin; hi = e->a->umax; }
      else if (e->a->umin >= half) { u128 ext = M & ~maskw(e->a->w); lo = ext | e->a->umin; hi = ext | e->a->umax; }
      break;
    }
    default: break;
  }
  e->umin = lo; e->umax = hi;
}

Expr *mkConst(u128 v, unsigned w) { return mkNode(O_CONST, w, nullptr, nullptr, nullptr, 0, v & maskw(w)); }
Expr *mkVar(const std::string &name, bool undef) {
  uint32_t i = (uint32_t)g_vars.size();
  g_vars.push_back({name, undef});
  Expr *e = mkNode(O_VAR, 8, nullptr, nullptr, nullptr, i);
  g_varExpr.push_back(e);
  return e;
}
Expr *varExpr(uint32_t i) { return g_varExpr[i]; }

// ---------------------------------------------------------------- segments
// LSB-first segments of an expression (CONCAT is right-nested: a = high, b = low;
// we keep the *low* operand as the chain so either nesting works).
static void segsOf(Expr *e, std::vector<Expr *> &out) {
  while (e->op == O_CONCAT) {
    // low part may itself be concat
    if (e->b->op == O_CONCAT) segsOf(e->b, out); else out.push_back(e->b);
    e = e->a;
  }
  out.push_back(e);
}
static bool tryMerge(Expr *lo, Expr *hi, Expr *&out) {
  if (lo->isC() && hi->isC()) {
    out = mkConst((hi->val << lo->w) | lo->val, lo->w + hi->w);
    return true;
  }
  // adjacent extracts of the same base
  Expr *lb = lo, *hb = hi; unsigned ll = 0, hl = 0;
  if (lo->op == O_EXTRACT) { lb = lo->a; ll = lo->aux; }
  if (hi->op == O_EXTRACT) { hb = hi->a; hl = hi->aux; }
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && lb == hb && ll + lo->w == hl) {
    out = mkExtract(lb, ll, lo->w + hi->w);
    return true;
  }
  // SEXT reassembly: [.. x][EXTRACT(SEXT(x,n), x.w, k)]
  if (hi->op == O_EXTRACT && hb->op == O_SEXT) {
    Expr *x = hb->a;
    if (lo == x && hl == x->w) { out = mkSext(x, lo->w + hi->w); return true; }
    if (lo->op == O_SEXT && lo->a == x && hl == lo->w) { out = mkSext(x, lo->w + hi->w); return true; }
    // low part of x only extracted: EXTRACT(x, l, x.w-l) followed by sign bits
    if (lo->op == O_EXTRACT && lo->a == x && lo->aux + lo->w == x->w && hl == x->w) {
      out = mkSext(lo, lo->w + hi->w); return true;
    }
    if (lo->op == O_SEXT && lo->a->op == O_EXTRACT && lo->a->a == x && lo->a->aux + lo->a->w == x->w) {
      out = mkSext(lo->a, lo->w + hi->w); return true;
    }
  }
  if (hi->op == O_ITE && lo->op == O_ITE && hi->a == lo->a) {
    out = mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    return true;
  }
  return false;
}
Expr *mkConcatSegs(std::vector<Expr *> &s) {
  std::vector<Expr *> r;
  for (Expr *e : s) {
    while (!r.empty()) {
      Expr *m;
      if (e->op == O_CONCAT) break;
      if (tryMerge(r.back(), e, m)) {
        r.pop_back();
        e = m;
        if (e->op == O_CONCAT) { // merged into something that is itself segmented
          std::vector<Expr *> t; segsOf(e, t);
          for (size_t i = 0; i + 1 < t.size(); i++) r.push_back(t[i]);
          e = t.back();
          break;
        }
      } else break;
    }
    if (e->op == O_CONCAT) { std::vector<Expr *> t; segsOf(e, t); for (auto x : t) r.push_back(x); }
    else r.push_back(e);
  }
  Expr *acc = r[0];
  for (size_t i = 1; i < r.size(); i++) acc = mkNode(O_CONCAT, acc->w + r[i]->w, r[i], acc);
  return acc;
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  std::vector<Expr *> s;
  segsOf(lo, s);
  segsOf(hi, s);
  return mkConcatSegs(s);
}
Expr *mkZext(Expr *e, unsigned w) {
  if (w == e->w) return e;
  return mkConcat(mkConst(0, w - e->w), e);
}
Expr *mkSext(Expr *e, unsigned w) {
  if (w == e->w) return e;
  if (e->isC()) return mkConst((u128)sxt(e->val, e->w), w);
  if (e->umax < ((u128)1 << (e->w - 1))) return mkZext(e, w);
  if (e->op == O_SEXT) return mkSext(e->a, w);
  if (e->op == O_ITE && e->b->isC() && e->c->isC()) return mkIte(e->a, mkSext(e->b, w), mkSext(e->c, w));
  if (e->op == O_CONCAT && e->a->op == O_SEXT) return mkConcat(mkSext(e->a, w - e->b->w), e->b);
  return mkNode(O_SEXT, w, e);
}
static std::unordered_map<uint64_t, Expr *> g_exMemo, g_eqMemo;
Expr *mkExtract(Expr *e, unsigned lo, unsigned w) {
  if (lo == 0 && w == e->w) return e;
  switch (e->op) {
    case O_CONST: return mkConst(e->val >> lo, w);
    case O_EXTRACT: return mkExtract(e->a, e->aux + lo, w);
    case O_CONCAT: {
      unsigned lw = e->b->w;
      if (lo + w <= lw) return mkExtract(e->b, lo, w);
      if (lo >= lw) return mkExtract(e->a, lo - lw, w);
      return mkConcat(mkExtract(e->a, 0, lo + w - lw), mkExtract(e->b, lo, lw - lo));
    }
    case O_SEXT: {
      unsigned xw = e->a->w;
      if (lo + w <= xw) return mkExtract(e->a, lo, w);
      if (lo == 0) return mkSext(e->a, w);
      if (lo < xw) return mkSext(mkExtract(e->a, lo, xw - lo), w);
      break; // purely sign bits: keep, so that it can be re-merged
    }
    case O_ITE: {
      if (e->depth < 4) return mkIte(e->a, mkExtract(e->b, lo, w), mkExtract(e->c, lo, w));
      uint64_t key = ((uint64_t)e->id << 16) | (lo << 8) | w;
      auto it = g_exMemo.find(key);
      if (it != g_exMemo.end()) return it->second;
      Expr *r = mkIte(e->a, mkExtract(e->b, lo, w), mkExtract(e->c, lo, w));
      g_exMemo[key] = r;
      return r;
    }
    case O_NOT: return mkNot(mkExtract(e->a, lo, w));
    case O_AND: return mkAnd(mkExtract(e->a, lo, w), mkExtract(e->b, lo, w));
    case O_OR: return mkOr(mkExtract(e->a, lo, w), mkExtract(e->b, lo, w));
    case O_XOR: return mkXor(mkExtract(e->a, lo, w), mkExtract(e->b, lo, w));
    case O_ADD: {
      // a + const whose low bits are zero
      if (e->b->isC() && (e->b->val & maskw(lo + w)) == 0) return mkExtract(e->a, lo, w);
      break;
    }
    default: break;
  }
  if (e->umax <= maskw(lo)) return mkConst(0, w);
  return mkNode(O_EXTRACT, w, e, nullptr, nullptr, lo);
}

// ---------------------------------------------------------------- arithmetic
struct LinTerm { Expr *e; u128 k; };
static void linCollect(Expr *e, u128 k, unsigned w, std::vector<LinTerm> &t, u128 &c) {
  if (e->isC()) { c += k * e->val; return; }
  if (e->op == O_ADD) { linCollect(e->a, k, w, t, c); linCollect(e->b, k, w, t, c); return; }
  if (e->op == O_MUL && e->b->isC()) { linCollect(e->a, k * e->b->val, w, t, c); return; }
  if (e->op == O_NOT) { linCollect(e->a, (u128)0 - k, w, t, c); c -= k; return; } // ~x = -x-1
  for (auto &x : t) if (x.e == e) { x.k += k; return; }
  t.push_back({e, k});
}
static Expr *mulRaw(Expr *a, u128 k, unsigned w) {
  k &= maskw(w);
  if (k == 1) return a;
  return mkNode(O_MUL, w, a, mkConst(k, w));
}
static bool disjointMerge(Expr *a, Expr *b, Expr *&out) {
  std::vector<Expr *> sa, sb, r;
  segsOf(a, sa); segsOf(b, sb);
  if (sa.size() + sb.size() > 40) return false;
  size_t i = 0, j = 0; unsigned ai = 0, bj = 0;
  while (i < sa.size() && j < sb.size()) {
    unsigned n = std::min<unsigned>(sa[i]->w - ai, sb[j]->w - bj);
    bool za = sa[i]->isC() && ((sa[i]->val >> ai) & maskw(n)) == 0;
    bool zb = sb[j]->isC() && ((sb[j]->val >> bj) & maskw(n)) == 0;
    if (za) r.push_back(mkExtract(sb[j], bj, n));
    else if (zb) r.push_back(mkExtract(sa[i], ai, n));
    else return false;
    ai += n; bj += n;
    if (ai == sa[i]->w) { i++; ai = 0; }
    if (bj == sb[j]->w) { j++; bj = 0; }
  }
  out = mkConcatSegs(r);
  return true;
}
static Expr *linBuild(std::vector<LinTerm> &t, u128 c, unsigned w) {
  u128 M = maskw(w);
  c &= M;
  std::vector<LinTerm> u;
  for (auto &x : t) { x.k &= M; if (x.k) u.push_back(x); }
  if (u.empty()) return mkConst(c, w);
  std::sort(u.begin(), u.end(), [](const LinTerm &x, const LinTerm &y) { return x.e->id < y.e->id; });
  if (u.size() == 1 && u[0].k == M && c == M) return mkNot(u[0].e);
  Expr *acc = nullptr;
  for (auto &x : u) {
    Expr *m = mulRaw(x.e, x.k, w);
    if (!acc) acc = m;
    else acc = mkNode(O_ADD, w, acc, m);
  }
  if (c) {
    if (acc->op == O_ITE && acc->b->isC() && acc->c->isC())
      return mkIte(acc->a, mkConst(acc->b->val + c, w), mkConst(acc->c->val + c, w));
    acc = mkNode(O_ADD, w, acc, mkConst(c, w));
  }
  return acc;
}
Expr *mkAdd(Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a->isC() && b->isC()) return mkConst(a->val + b->val, w);
  if (a->isC()) std::swap(a, b);
  if (b->isC() && b->val == 0) return a;
  if (w == 1) return mkXor(a, b);
  bool bigc = b->isC() && w == 64 && b->val >= ((u128)1 << 36);
  if (!bigc) {
    Expr *m;
    if ((a->op == O_CONCAT || b->op == O_CONCAT || b->isC()) && disjointMerge(a, b, m)) return m;
  }
  std::vector<LinTerm> t; u128 c = 0;
  linCollect(a, 1, w, t, c); linCollect(b, 1, w, t, c);
  return linBuild(t, c, w);
}
Expr *mkSub(Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a == b) return mkConst(0, w);
  if (a->isC() && b->isC()) return mkConst(a->val - b->val, w);
  if (w == 1) return mkXor(a, b);
  if (b->isC()) return mkAdd(a, mkConst((u128)0 - b->val, w));
  std::vector<LinTerm> t; u128 c = 0;
  linCollect(a, 1, w, t, c); linCollect(b, maskw(w), w, t, c);
  return linBuild(t, c, w);
}
Expr *mkMul(Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a->isC() && b->isC()) return mkConst(a->val * b->val, w);
  if (a->isC()) std::swap(a, b);
  if (b->isC()) {
    u128 k = b->val;
    if (k == 0) return b;
    if (k == 1) return a;
    if ((k & (k - 1)) == 0) { unsigned s = 0; while (!((k >> s) & 1)) s++; return mkShl(a, mkConst(s, w)); }
    if (a->op == O_ITE && a->b->isC() && a->c->isC()) return mkIte(a->a, mkConst(a->b->val * k, w), mkConst(a->c->val * k, w));
    std::vector<LinTerm> t; u128 c = 0;
    linCollect(a, k, w, t, c);
    return linBuild(t, c, w);
  }
  // (x << k) * y = (x * y) << k
  for (int i = 0; i < 2; i++) {
    Expr *&p = i ? b : a;
    if (p->op != O_CONCAT) continue;
    std::vector<Expr *> sg; segsOf(p, sg);
    if (sg[0]->isC() && sg[0]->val == 0) {
      unsigned k = sg[0]->w;
      Expr *q = mkZext(mkExtract(p, k, w - k), w);
      return mkShl(mkMul(i ? a : q, i ? q : b), mkConst(k, w));
    }
  }
  // a product that cannot wrap is computed in as few bits as it needs, so that equal products share one node
  auto len = [](u128 v) { unsigned n = 0; while (v) { n++; v >>= 1; } return n; };
  unsigned n = std::max(1u, len(a->umax) + len(b->umax));
  if (n < w) return mkZext(mkMul(mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
  if (n > w && n <= 128) return mkExtract(mkMul(mkZext(a, n), mkZext(b, n)), 0, w);
  if (a->id > b->id) std::swap(a, b);
  return mkNode(O_MUL, w, a, b);
}
static u128 udivC(Op op, unsigned w, u128 a, u128 b) {
  u128 M = maskw(w);
  switch (op) {
    case O_UDIV: return b ? a / b : M;
    case O_UREM: return b ? a % b : a;
    case O_SDIV: { i128 x = sxt(a, w), y = sxt(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (u128)0 - (u128)x & M; return (u128)(x / y) & M; }
    case O_SREM: { i128 x = sxt(a, w), y = sxt(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & M; }
    default: return 0;
  }
}
Expr *mkDiv(Op op, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a->isC() && b->isC()) return mkConst(udivC(op, w, a->val, b->val), w);
  u128 half = (u128)1 << (w - 1);
  if ((op == O_SDIV || op == O_SREM) && a->umax < half && b->umax < half) op = op == O_SDIV ? O_UDIV : O_UREM;
  if (b->isC() && b->val && (op == O_UDIV || op == O_UREM)) {
    u128 k = b->val;
    if (k == 1) return op == O_UDIV ? a : mkConst(0, w);
    if ((k & (k - 1)) == 0) {
      unsigned s = 0; while (!((k >> s) & 1)) s++;
      if (op == O_UDIV) return mkLshr(a, mkConst(s, w));
      return mkZext(mkExtract(a, 0, s), w);
    }
    if (a->umax < k) return op == O_UDIV ? mkConst(0, w) : a;
  }
  return mkNode(op, w, a, b);
}

// ---------------------------------------------------------------- bitwise
static Expr *bitSegs(Op op, Expr *a, Expr *b) {
  std::vector<Expr *> sa, sb, r;
  segsOf(a, sa); segsOf(b, sb);
  size_t i = 0, j = 0; unsigned ai = 0, bj = 0;
  while (i < sa.size() && j < sb.size()) {
    unsigned n = std::min<unsigned>(sa[i]->w - ai, sb[j]->w - bj);
    Expr *x = mkExtract(sa[i], ai, n), *y = mkExtract(sb[j], bj, n);
    r.push_back(op == O_AND ? mkAnd(x, y) : op == O_OR ? mkOr(x, y) : mkXor(x, y));
    ai += n; bj += n;
    if (ai == sa[i]->w) { i++; ai = 0; }
    if (bj == sb[j]->w) { j++; bj = 0; }
  }
  return mkConcatSegs(r);
}
// split const into runs of 0s/1s as segments
static Expr *runsExpr(Expr *a, u128 k, Op op) {
  unsigned w = a->w;
  std::vector<Expr *> r;
  unsigned i = 0; int runs = 0;
  while (i < w) {
    unsigned bit = (unsigned)((k >> i) & 1), j = i;
    while (j < w && ((k >> j) & 1) == bit) j++;
    if (++runs > 8) return nullptr;
    Expr *x = mkExtract(a, i, j - i);
    if (op == O_AND) r.push_back(bit ? x : mkConst(0, j - i));
    else if (op == O_OR) r.push_back(bit ? mkConst(maskw(j - i), j - i) : x);
    else r.push_back(bit ? mkNot(x) : x);
    i = j;
  }
  return mkConcatSegs(r);
}
Expr *mkAnd(Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a == b) return a;
  if (a->isC() && b->isC()) return mkConst(a->val & b->val, w);
  if (a->isC()) std::swap(a, b);
  if (b->isC()) {
    if (b->val == 0) return b;
    if (b->val == maskw(w)) return a;
    if (Expr *r = runsExpr(a, b->val, O_AND)) return r;
  }
  if (a->op == O_NOT && a->a == b) return mkConst(0, w);
  if (b->op == O_NOT && b->a == a) return mkConst(0, w);
  if (w == 1) {
    // absorption
    if (b->op == O_AND && (b->a == a || b->b == a)) return b;
    if (a->op == O_AND && (a->a == b || a->b == b)) return a;
  } else {
    if (a->op == O_ITE && b->op == O_ITE && a->a == b->a) return mkIte(a->a, mkAnd(a->b, b->b), mkAnd(a->c, b->c));
    if (a->op == O_CONCAT || b->op == O_CONCAT) return bitSegs(O_AND, a, b);
  }
  if (a->id > b->id) std::swap(a, b);
  return mkNode(O_AND, w, a, b);
}
Expr *mkOr(Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a == b) return a;
  if (a->isC() && b->isC()) return mkConst(a->val | b->val, w);
  if (a->isC()) std::swap(a, b);
  if (b->isC()) {
    if (b->val == 0) return a;
    if (b->val == maskw(w)) return b;
    if (Expr *r = runsExpr(a, b->val, O_OR)) return r;
  }
  if (a->op == O_NOT && a->a == b) return mkConst(maskw(w), w);
  if (b->op == O_NOT && b->a == a) return mkConst(maskw(w), w);
  if (w == 1) {
    if (b->op == O_OR && (b->a == a || b->b == a)) return b;
    if (a->op == O_OR && (a->a == b || a->b == b)) return a;
    // normalise to NOT/AND
    return mkNot(mkAnd(mkNot(a), mkNot(b)));
  } else {
    if (a->op == O_ITE && b->op == O_ITE && a->a == b->a) return mkIte(a->a, mkOr(a->b, b->b), mkOr(a->c, b->c));
    if (a->op == O_CONCAT || b->op == O_CONCAT) return bitSegs(O_OR, a, b);
  }
  if (a->id > b->id) std::swap(a, b);
  return mkNode(O_OR, w, a, b);
}
Expr *mkXor(Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a == b) return mkConst(0, w);
  if (a->isC() && b->isC()) return mkConst(a->val ^ b->val, w);
  if (a->isC()) std::swap(a, b);
  if (b->isC()) {
    if (b->val == 0) return a;
    if (b->val == maskw(w)) return mkNot(a);
    if (a->op == O_ITE && a->b->isC() && a->c->isC()) return mkIte(a->a, mkXor(a->b, b), mkXor(a->c, b));
    if (Expr *r = runsExpr(a, b->val, O_XOR)) return r;
  }
  if (a->op == O_XOR) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
  if (b->op == O_XOR) { if (b->a == a) return b->b; if (b->b == a) return b->a; }
  if (w > 1 && (a->op == O_CONCAT || b->op == O_CONCAT)) return bitSegs(O_XOR, a, b);
  if (a->op == O_NOT) return mkNot(mkXor(a->a, b));
  if (b->op == O_NOT) return mkNot(mkXor(a, b->a));
  if (a->id > b->id) std::swap(a, b);
  return mkNode(O_XOR, w, a, b);
}
Expr *mkNot(Expr *a) {
  if (a->isC()) return mkConst(~a->val, a->w);
  if (a->op == O_NOT) return a->a;
  if (a->op == O_ITE && (a->b->isC() || a->c->isC())) return mkIte(a->a, mkNot(a->b), mkNot(a->c));
  if (a->op == O_CONCAT && a->w > 1) {
    std::vector<Expr *> s; segsOf(a, s);
    for (auto &x : s) x = mkNot(x);
    return mkConcatSegs(s);
  }
  return mkNode(O_NOT, a->w, a);
}
Expr *mkShl(Expr *a, Expr *b) {
  unsigned w = a->w;
  if (b->isC()) {
    if (b->val >= w) return mkConst(0, w);
    unsigned s = (unsigned)b->val;
    if (!s) return a;
    return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
  }
  if (b->op == O_ITE && b->b->isC() && b->c->isC()) return mkIte(b->a, mkShl(a, b->b), mkShl(a, b->c));
  return mkNode(O_SHL, w, a, b);
}
Expr *mkLshr(Expr *a, Expr *b) {
  unsigned w = a->w;
  if (b->isC()) {
    if (b->val >= w) return mkConst(0, w);
    unsigned s = (unsigned)b->val;
    if (!s) return a;
    return mkZext(mkExtract(a, s, w - s), w);
  }
  if (b->op == O_ITE && b->b->isC() && b->c->isC()) return mkIte(b->a, mkLshr(a, b->b), mkLshr(a, b->c));
  return mkNode(O_LSHR, w, a, b);
}
Expr *mkAshr(Expr *a, Expr *b) {
  unsigned w = a->w;
  if (b->isC()) {
    unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
    if (!s) return a;
    return mkSext(mkExtract(a, s, w - s), w);
  }
  return mkNode(O_ASHR, w, a, b);
}

// ---------------------------------------------------------------- predicates
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (c->isC()) return c->val ? a : b;
  if (a == b) return a;
  if (c->op == O_NOT) return mkIte(c->a, b, a);
  if (a->op == O_ITE && a->a == c) a = a->b;
  if (b->op == O_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  if (a->w == 1) {
    if (a->isC() && b->isC()) return a->val ? c : mkNot(c);
    if (a->isC()) return a->val ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isC()) return b->val ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
  }
  // ITE(c, K, ITE(d, K, x)) -> ITE(c|d, K, x)
  if (b->op == O_ITE && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
  return mkNode(O_ITE, a->w, c, a, b);
}
Expr *mkEq(Expr *a, Expr *b) {
  if (a == b) return mkTrue();
  unsigned w = a->w;
  if (a->isC() && b->isC()) return a->val == b->val ? mkTrue() : mkFalse();
  if (a->isC()) std::swap(a, b);
  if (a->umax < b->umin || b->umax < a->umin) return mkFalse();
  if (w == 1) {
    if (b->isC()) return b->val ? a : mkNot(a);
    return mkNot(mkXor(a, b));
  }
  if (b->isC()) {
    u128 k = b->val;
    switch (a->op) {
      case O_CONCAT: {
        unsigned lw = a->b->w;
        Expr *h = mkEq(a->a, mkConst(k >> lw, a->a->w));
        if (isFalse(h)) return h;
        Expr *l = mkEq(a->b, mkConst(k, lw));
        return mkAnd(h, l);
      }
      case O_SEXT: {
        u128 t = k & maskw(a->a->w);
        if (((u128)sxt(t, a->a->w) & maskw(w)) != k) return mkFalse();
        return mkEq(a->a, mkConst(t, a->a->w));
      }
      case O_ITE:
        if (a->b->isC() && a->c->isC()) {
          bool x = a->b->val == k, y = a->c->val == k;
          if (x && y) return mkTrue();
          if (x) return a->a;
          if (y) return mkNot(a->a);
          return mkFalse();
        }
        if (a->depth >= 4 && (a->b->isC() || a->c->isC())) {
          uint64_t key = ((uint64_t)a->id << 32) | b->id;
          auto it = g_eqMemo.find(key);
          if (it != g_eqMemo.end()) return it->second;
          Expr *r = a->b->isC() ? (a->b->val == k ? mkOr(a->a, mkEq(a->c, b)) : mkAnd(mkNot(a->a), mkEq(a->c, b)))
                                : (a->c->val == k ? mkOr(mkNot(a->a), mkEq(a->b, b)) : mkAnd(a->a, mkEq(a->b, b)));
          g_eqMemo[key] = r;
          return r;
        }
        if (a->b->isC()) return a->b->val == k ? mkOr(a->a, mkEq(a->c, b)) : mkAnd(mkNot(a->a), mkEq(a->c, b));
        if (a->c->isC()) return a->c->val == k ? mkOr(mkNot(a->a), mkEq(a->b, b)) : mkAnd(a->a, mkEq(a->b, b));
        break;
      case O_ADD:
        if (a->b->isC()) return mkEq(a->a, mkConst(k - a->b->val, w));
        break;
      case O_NOT: return mkEq(a->a, mkConst(~k, w));
      case O_XOR: if (a->b->isC()) return mkEq(a->a, mkConst(k ^ a->b->val, w)); break;
      default: break;
    }
  } else {
    if (a->op == O_ITE && b->op == O_ITE && a->a == b->a) return mkIte(a->a, mkEq(a->b, b->b), mkEq(a->c, b->c));
    if (a->op == O_ITE && (a->b == b)) return mkOr(a->a, mkEq(a->c, b));
    if (a->op == O_ITE && (a->c == b)) return mkOr(mkNot(a->a), mkEq(a->b, b));
    if (b->op == O_ITE && (b->b == a)) return mkOr(b->a, mkEq(b->c, a));
    if (b->op == O_ITE && (b->c == a)) return mkOr(mkNot(b->a), mkEq(b->b, a));
    if (a->op == O_CONCAT || b->op == O_CONCAT) {
      std::vector<Expr *> sa, sb;
      segsOf(a, sa); segsOf(b, sb);
      Expr *r = mkTrue();
      size_t i = 0, j = 0; unsigned ai = 0, bj = 0;
      while (i < sa.size() && j < sb.size()) {
        unsigned n = std::min<unsigned>(sa[i]->w - ai, sb[j]->w - bj);
        Expr *x = mkEq(mkExtract(sa[i], ai, n), mkExtract(sb[j], bj, n));
        if (isFalse(x)) return x;
        r = mkAnd(r, x);
        ai += n; bj += n;
        if (ai == sa[i]->w) { i++; ai = 0; }
        if (bj == sb[j]->w) { j++; bj = 0; }
      }
      return r;
    }
    if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->op == O_NOT && b->op == O_NOT) return mkEq(a->a, b->a);
    if (a->op == O_ADD || b->op == O_ADD) {
      // cancel common terms
      Expr *d = mkSub(a, b);
      if (d->isC()) return d->val ? mkFalse() : mkTrue();
      if (a->op == O_ADD && b->op == O_ADD && a->b->isC() && b->b->isC())
        return mkEq(mkAdd(a->a, mkConst(a->b->val - b->b->val, w)), b->a);
    }
  }
  if (!b->isC() && a->id > b->id) std::swap(a, b);
  return mkNode(O_EQ, 1, a, b);
}
static unsigned leadZeros(Expr *e) {
  unsigned n = 0;
  u128 m = e->umax;
  while (n < e->w && !((m >> (e->w - 1 - n)) & 1)) n++;
  return n;
}
Expr *mkUlt(Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a == b) return mkFalse();
  if (a->umax < b->umin) return mkTrue();
  if (a->umin >= b->umax) return mkFalse();
  if (w == 1) return mkAnd(mkNot(a), b);
  if (b->isC() && b->val == 1) return mkEq(a, mkConst(0, w));
  if (a->isC() && a->val == 0) return mkNot(mkEq(b, a));
  if (b->isC() && b->val == maskw(w)) return mkNot(mkEq(a, b));
  unsigned z = std::min(leadZeros(a), leadZeros(b));
  if (z > 0 && z < w && (a->op == O_CONCAT || b->op == O_CONCAT || a->op == O_ITE || b->op == O_ITE)) {
    // strip only if it is syntactically free
    Expr *x = mkExtract(a, 0, w - z), *y = mkExtract(b, 0, w - z);
    if ((a->isC() || x->op != O_EXTRACT || x->a != a) && (b->isC() || y->op != O_EXTRACT || y->a != b)) return mkUlt(x, y);
  }
  if (b->isC() && a->op == O_ITE && (a->b->isC() || a->c->isC())) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->c, b));
  if (a->isC() && b->op == O_ITE && (b->b->isC() || b->c->isC())) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->c));
  // common low const segments of concat with zero: (x<<k) < (c)
  if (a->op == O_CONCAT && b->op == O_CONCAT && a->a == b->a && a->b->w == b->b->w) return mkUlt(a->b, b->b);
  if (a->op == O_CONCAT && b->op == O_CONCAT && a->b == b->b) return mkUlt(a->a, b->a);
  // c / x < b  <=>  x != 0 and c < b * x (no overflow in twice the width);  a < c / x  <=>  x == 0 ? a != ones : (a + 1) * x <= c
  if (w <= 64 && a->op == O_UDIV && a->a->isC()) {
    Expr *x = a->b;
    return mkAnd(mkNot(mkEq(x, mkConst(0, w))), mkUlt(mkZext(a->a, 2 * w), mkMul(mkZext(b, 2 * w), mkZext(x, 2 * w))));
  }
  if (w <= 63 && b->op == O_UDIV && b->a->isC()) {
    Expr *x = b->b, *zx = mkZext(x, 2 * w + 1), *za = mkZext(a, 2 * w + 1);
    return mkIte(mkEq(x, mkConst(0, w)), mkNot(mkEq(a, mkConst(maskw(w), w))), mkNot(mkUlt(mkZext(b->a, 2 * w + 1), mkMul(mkAdd(za, mkConst(1, 2 * w + 1)), zx))));
  }
  if (w == 64 && b->op == O_UDIV && b->a->isC() && a->umax < maskw(64)) {
    Expr *x = b->b;
    return mkOr(mkEq(x, mkConst(0, w)), mkNot(mkUlt(mkZext(b->a, 128), mkMul(mkAdd(mkZext(a, 128), mkConst(1, 128)), mkZext(x, 128)))));
  }
  return mkNode(O_ULT, 1, a, b);
}
Expr *mkSlt(Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a == b) return mkFalse();
  if (a->isC() && b->isC()) return sxt(a->val, w) < sxt(b->val, w) ? mkTrue() : mkFalse();
  u128 half = (u128)1 << (w - 1);
  if (a->umax < half && b->umax < half) return mkUlt(a, b);
  if (a->umin >= half && b->umin >= half) return mkUlt(a, b);
  if (a->umax < half && b->umin >= half) return mkFalse();
  if (a->umin >= half && b->umax < half) return mkTrue();
  if (w == 1) return mkAnd(a, mkNot(b));
  if (a->op == O_SEXT && b->op == O_SEXT) {
    unsigned m = std::max(a->a->w, b->a->w);
    return mkSlt(mkSext(a->a, m), mkSext(b->a, m));
  }
  if (a->op == O_SEXT && b->isC()) {
    unsigned n = a->a->w; i128 k = sxt(b->val, w);
    i128 mn = -((i128)1 << (n - 1)), mx = ((i128)1 << (n - 1)) - 1;
    if (k > mx) return mkTrue();
    if (k <= mn) return mkFalse();
    return mkSlt(a->a, mkConst((u128)k, n));
  }
  if (b->op == O_SEXT && a->isC()) {
    unsigned n = b->a->w; i128 k = sxt(a->val, w);
    i128 mn = -((i128)1 << (n - 1)), mx = ((i128)1 << (n - 1)) - 1;
    if (k >= mx) return mkFalse();
    if (k < mn) return mkTrue();
    return mkSlt(mkConst((u128)k, n), b->a);
  }
  // sign test
  if (b->isC() && b->val == 0) return mkExtract(a, w - 1, 1);
  if (a->isC() && a->val == maskw(w)) return mkNot(mkExtract(b, w - 1, 1)); // -1 < b
  if (b->isC() && a->op == O_ITE && (a->b->isC() || a->c->isC())) return mkIte(a->a, mkSlt(a->b, b), mkSlt(a->c, b));
  if (a->isC() && b->op == O_ITE && (b->b->isC() || b->c->isC())) return mkIte(b->a, mkSlt(a, b->b), mkSlt(a, b->c));
  return mkNode(O_SLT, 1, a, b);
}

// ---------------------------------------------------------------- FP
static float f32(u128 v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static double f64(u128 v) { uint64_t x = (uint64_t)v; double f; memcpy(&f, &x, 8); return f; }
static u128 b32(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static u128 b64(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }

static u128 evalFp(Op op, unsigned w, unsigned aw, u128 a, u128 b, uint32_t aux) {
  switch (op) {
    case O_FPEXT: { volatile float f = f32(a); volatile double d = f; return b64(d); }
    case O_FPTRUNC: { volatile double d = f64(a); volatile float f = (float)d; return b32(f); }
    case O_SITOFP: { i128 v = sxt(a, aw); if (w == 32) { volatile int64_t x = (int64_t)v; volatile float f = (float)x; return b32(f); } volatile int64_t x = (int64_t)v; volatile double d = (double)x; return b64(d); }
    case O_UITOFP: { uint64_t v = (uint64_t)a; if (w == 32) return b32((float)v); return b64((double)v); }
    case O_FPTOSI: { double d = aw == 32 ? f32(a) : f64(a); if (!(d >= -9.3e18 && d <= 9.2233720368547748e18)) return 0; return (u128)(int64_t)d & maskw(w); }
    case O_FPTOUI: { double d = aw == 32 ? f32(a) : f64(a); if (!(d > -1.0 && d < 1.8446744073709552e19)) return 0; return (u128)(uint64_t)d & maskw(w); }
    case O_FCMP: {
      double x = aw == 32 ? f32(a) : f64(a), y = aw == 32 ? f32(b) : f64(b);
      bool un = std::isnan(x) || std::isnan(y);
      unsigned p = aux & 15; bool r = false;
      // bit0 eq, bit1 gt, bit2 lt, bit3 unordered
      if (un) r = p & 8; else if (x == y) r = p & 1; else if (x > y) r = p & 2; else r = p & 4;
      return r;
    }
    default: break;
  }
  if (w == 32) {
    volatile float x = f32(a), y = f32(b), r = 0;
    switch (op) {
      case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break;
      case O_FDIV: r = x / y; break; case O_FREM: r = fmodf(x, y); break; case O_FSQRT: r = sqrtf(x); break;
      case O_FROUND: r = aux == 0 ? floorf(x) : aux == 1 ? ceilf(x) : aux == 2 ? truncf(x) : aux == 3 ? rintf(x) : roundf(x); break;
      default: break;
    }
    return b32(r);
  }
  volatile double x = f64(a), y = f64(b), r = 0;
  switch (op) {
    case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break;
    case O_FDIV: r = x / y; break; case O_FREM: r = fmod(x, y); break; case O_FSQRT: r = sqrt(x); break;
    case O_FROUND: r = aux == 0 ? floor(x) : aux == 1 ? ceil(x) : aux == 2 ? trunc(x) : aux == 3 ? rint(x) : round(x); break;
    default: break;
  }
  return b64(r);
}
Expr *mkFp(Op op, unsigned w, Expr *a, Expr *b, uint32_t aux) {
  if (a->isC() && (!b || b->isC())) return mkConst(evalFp(op, w, a->w, a->val, b ? b->val : 0, aux), w);
  if (op == O_FPTRUNC && a->op == O_FPEXT && w == 32) {
    // round trip: identity except that signalling NaNs are quieted (already quiet after FPEXT)
    Expr *x = a->a;
    Expr *isnan = mkAnd(mkEq(mkExtract(x, 23, 8), mkConst(0xff, 8)), mkNot(mkEq(mkExtract(x, 0, 23), mkConst(0, 23))));
    return mkIte(isnan, mkOr(x, mkConst(0x400000, 32)), x);
  }
  if (op == O_FCMP && (aux & 15) == 0) return mkFalse();
  if (op == O_FCMP && (aux & 15) == 15) return mkTrue();
  return mkNode(op, w, a, b, nullptr, aux);
}

// ---------------------------------------------------------------- eval
u128 evalOp(Op op, unsigned w, unsigned aw, u128 a, u128 b, u128 c, uint32_t aux) {
  u128 M = maskw(w);
  switch (op) {
    case O_ADD: return (a + b) & M;
    case O_MUL: return (a * b) & M;
    case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: return udivC(op, w, a, b) & M;
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_NOT: return ~a & M;
    case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & M;
    case O_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case O_ASHR: { i128 s = sxt(a, w); unsigned k = b >= w ? w - 1 : (unsigned)b; return (u128)(s >> k) & M; }
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_SLT: return sxt(a, aw) < sxt(b, aw);
    case O_ITE: return a ? b : c;
    case O_EXTRACT: return (a >> aux) & M;
    case O_SEXT: return (u128)sxt(a, aw) & M;
    default: return evalFp(op, w, aw, a, b, aux) & M;
  }
}
static std::vector<u128> g_wide; // values for w>64 stored by index in ev
static u128 evalRec(Expr *e, const std::vector<uint8_t> &asg, uint64_t st) {
  if (e->op == O_CONST) return e->val;
  if (e->stamp == st) return e->w > 64 ? g_wide[e->ev] : (u128)e->ev;
  u128 r;
  if (e->op == O_VAR) r = e->aux < asg.size() ? asg[e->aux] : 0;
  else if (e->op == O_ITE) r = evalRec(e->a, asg, st) ? evalRec(e->b, asg, st) : evalRec(e->c, asg, st);
  else if (e->op == O_CONCAT) {
    // iterative along the high chain
    r = (evalRec(e->a, asg, st) << e->b->w) | evalRec(e->b, asg, st);
  } else {
    u128 a = evalRec(e->a, asg, st);
    if (e->op == O_AND && a == 0) r = 0;
    else {
      u128 b = e->b ? evalRec(e->b, asg, st) : 0;
      r = evalOp(e->op, e->w, e->a->w, a, b, 0, e->aux);
    }
  }
  e->stamp = st;
  if (e->w > 64) { e->ev = g_wide.size(); g_wide.push_back(r); } else e->ev = (uint64_t)r;
  return r;
}
u128 evalExpr(Expr *e, const std::vector<uint8_t> &asg) {
  if (e->isC()) return e->val;
  g_wide.clear();
  return evalRec(e, asg, ++g_stamp);
}

static std::unordered_map<Expr *, std::vector<uint32_t>> g_sup;
const std::vector<uint32_t> &supportOf(Expr *e) {
  auto it = g_sup.find(e);
  if (it != g_sup.end()) return it->second;
  std::vector<uint32_t> r;
  uint64_t st = ++g_stamp;
  std::vector<Expr *> wl{e};
  e->stamp = st;
  while (!wl.empty()) {
    Expr *x = wl.back(); wl.pop_back();
    if (x->op == O_VAR) r.push_back(x->aux);
    for (Expr *k : {x->a, x->b, x->c}) if (k && k->stamp != st) { k->stamp = st; wl.push_back(k); }
  }
  std::sort(r.begin(), r.end());
  return g_sup.emplace(e, std::move(r)).first->second;
}

Expr *rebuild(Expr *e, Expr *a, Expr *b, Expr *c) {
  switch (e->op) {
    case O_ADD: return mkAdd(a, b);
    case O_MUL: return mkMul(a, b);
    case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: return mkDiv(e->op, a, b);
    case O_AND: return mkAnd(a, b);
    case O_OR: return mkOr(a, b);
    case O_XOR: return mkXor(a, b);
    case O_NOT: return mkNot(a);
    case O_SHL: return mkShl(a, b);
    case O_LSHR: return mkLshr(a, b);
    case O_ASHR: return mkAshr(a, b);
    case O_EQ: return mkEq(a, b);
    case O_ULT: return mkUlt(a, b);
    case O_SLT: return mkSlt(a, b);
    case O_ITE: return mkIte(a, b, c);
    case O_CONCAT: return mkConcat(a, b);
    case O_EXTRACT: return mkExtract(a, e->aux, e->w);
    case O_SEXT: return mkSext(a, e->w);
    case O_CONST: case O_VAR: return e;
    default: return mkFp(e->op, e->w, a, b, e->aux);
  }
}
Expr *substVars(Expr *e, const std::function<Expr *(uint32_t)> &f, std::unordered_map<Expr *, Expr *> &memo) {
  if (e->isC()) return e;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Expr *r;
  if (e->op == O_VAR) { r = f(e->aux); if (!r) r = e; }
  else {
    Expr *a = e->a ? substVars(e->a, f, memo) : nullptr;
    Expr *b = e->b ? substVars(e->b, f, memo) : nullptr;
    Expr *c = e->c ? substVars(e->c, f, memo) : nullptr;
    r = (a == e->a && b == e->b && c == e->c) ? e : rebuild(e, a, b, c);
  }
  memo[e] = r;
  return r;
}

std::string exprStr(Expr *e, int d) {
  static const char *N[] = {"const","var","+","*","udiv","sdiv","urem","srem","&","|","^","~","<<",">>u",">>s","=","<u","<s","ite","++","ext","sext",
    "fadd","fsub","fmul","fdiv","frem","fsqrt","fpext","fptrunc","sitofp","uitofp","fptosi","fptoui","fcmp","fround"};
  std::ostringstream o;
  if (e->isC()) { o << "0x" << std::hex << (uint64_t)e->val << std::dec << ":" << (int)e->w; return o.str(); }
  if (e->op == O_VAR) return g_vars[e->aux].name;
  if (d == 0) return "..";
  o << "(" << N[e->op];
  if (e->op == O_EXTRACT) o << "[" << e->aux << "+" << (int)e->w << "]";
  for (Expr *k : {e->a, e->b, e->c}) if (k) o << " " << exprStr(k, d - 1);
  o << ")";
  return o.str();
}
