#include "solver.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unordered_map>
#include <algorithm>
SolverStats g_sst;
static Z3_context C;
static Z3_solver S = nullptr;      // incremental QF_BV
static std::unordered_map<Expr *, Z3_ast> g_lit;
static uint64_t g_since = 0;
static unsigned g_timeout = 20000;
static bool g_z3err = false;

static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); g_z3err = true; }
static Z3_solver newSolver(bool fp) {
  Z3_solver s = fp ? Z3_mk_solver(C) : Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
  Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C);
  Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_timeout);
  Z3_solver_set_params(C, s, p);
  Z3_params_dec_ref(C, p);
  return s;
}
void solverInit(unsigned t) {
  g_timeout = t;
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context_rc(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(C, onErr);
  S = newSolver(false);
}
static Z3_sort keepS(Z3_sort s) { Z3_inc_ref(C, Z3_sort_to_ast(C, s)); return s; }
static Z3_sort bvs(unsigned w) { static std::unordered_map<unsigned, Z3_sort> m; auto &r = m[w]; if (!r) r = keepS(Z3_mk_bv_sort(C, w)); return r; }
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static Z3_ast bvConst(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(C, (uint64_t)v, bvs(w));
  Z3_ast lo = Z3_mk_unsigned_int64(C, (uint64_t)v, bvs(64)); Z3_inc_ref(C, lo);
  Z3_ast hi = Z3_mk_unsigned_int64(C, (uint64_t)(v >> 64), bvs(w - 64)); Z3_inc_ref(C, hi);
  return Z3_mk_concat(C, hi, lo);
}
static Z3_sort fps(unsigned w) { static Z3_sort a = keepS(Z3_mk_fpa_sort_32(C)), b = keepS(Z3_mk_fpa_sort_64(C)); return w == 32 ? a : b; }
static Z3_ast toFp(Z3_ast bv, unsigned w) { return keep(Z3_mk_fpa_to_fp_bv(C, bv, fps(w))); }
static Z3_ast rne() { return keep(Z3_mk_fpa_rne(C)); }
static Z3_ast bool2bv(Z3_ast b) { return keep(Z3_mk_ite(C, b, keep(bvConst(1, 1)), keep(bvConst(0, 1)))); }
static Z3_ast isOne(Z3_ast bv) { return keep(Z3_mk_eq(C, bv, keep(bvConst(1, 1)))); }

// Boolean (1-bit) expressions get a Z3 Bool; wider ones a BV.
static Z3_ast toBool(Expr *e);
static Z3_ast toBv(Expr *e);
static std::unordered_map<Expr *, Z3_ast> g_bool;

static Z3_ast fpNan(Z3_ast src, unsigned sw, unsigned dw) {
  // x86 NaN conversion: keep sign, quiet bit set, payload moved to the top
  unsigned sm = sw == 32 ? 23 : 52, dm = dw == 32 ? 23 : 52, de = dw == 32 ? 8 : 11;
  Z3_ast sign = keep(Z3_mk_extract(C, sw - 1, sw - 1, src));
  Z3_ast pay;
  if (dm > sm) pay = keep(Z3_mk_concat(C, keep(Z3_mk_extract(C, sm - 1, 0, src)), keep(bvConst(0, dm - sm))));
  else pay = keep(Z3_mk_extract(C, sm - 1, sm - dm, src));
  pay = keep(Z3_mk_bvor(C, pay, keep(bvConst((u128)1 << (dm - 1), dm))));
  return keep(Z3_mk_concat(C, sign, keep(Z3_mk_concat(C, keep(bvConst(maskw(de), de)), pay))));
}
static Z3_ast fromFp(Z3_ast f, Z3_ast nanbits) {
  return keep(Z3_mk_ite(C, keep(Z3_mk_fpa_is_nan(C, f)), nanbits, keep(Z3_mk_fpa_to_ieee_bv(C, f))));
}
static Z3_ast build(Expr *e) {
  switch (e->op) {
    case O_CONST: return bvConst(e->val, e->w);
    case O_VAR: { std::string n = "v" + std::to_string(e->aux); return Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), bvs(8)); }
    case O_ADD: return Z3_mk_bvadd(C, toBv(e->a), toBv(e->b));
    case O_MUL: return Z3_mk_bvmul(C, toBv(e->a), toBv(e->b));
    case O_UDIV: return Z3_mk_bvudiv(C, toBv(e->a), toBv(e->b));
    case O_SDIV: return Z3_mk_bvsdiv(C, toBv(e->a), toBv(e->b));
    case O_UREM: return Z3_mk_bvurem(C, toBv(e->a), toBv(e->b));
    case O_SREM: return Z3_mk_bvsrem(C, toBv(e->a), toBv(e->b));
    case O_AND: return Z3_mk_bvand(C, toBv(e->a), toBv(e->b));
    case O_OR: return Z3_mk_bvor(C, toBv(e->a), toBv(e->b));
    case O_XOR: return Z3_mk_bvxor(C, toBv(e->a), toBv(e->b));
    case O_NOT: return Z3_mk_bvnot(C, toBv(e->a));
    case O_SHL: return Z3_mk_bvshl(C, toBv(e->a), toBv(e->b));
    case O_LSHR: return Z3_mk_bvlshr(C, toBv(e->a), toBv(e->b));
    case O_ASHR: return Z3_mk_bvashr(C, toBv(e->a), toBv(e->b));
    case O_ITE: return Z3_mk_ite(C, toBool(e->a), toBv(e->b), toBv(e->c));
    case O_CONCAT: return Z3_mk_concat(C, toBv(e->a), toBv(e->b));
    case O_EXTRACT: return Z3_mk_extract(C, e->aux + e->w - 1, e->aux, toBv(e->a));
    case O_SEXT: return Z3_mk_sign_ext(C, e->w - e->a->w, toBv(e->a));
    case O_FPEXT: case O_FPTRUNC: {
      Z3_ast s = toBv(e->a); Z3_ast f = toFp(s, e->a->w);
      Z3_ast r = keep(Z3_mk_fpa_to_fp_float(C, rne(), f, fps(e->w)));
      return fromFp(r, fpNan(s, e->a->w, e->w));
    }
    case O_SITOFP: { Z3_ast r = keep(Z3_mk_fpa_to_fp_signed(C, rne(), toBv(e->a), fps(e->w))); return Z3_mk_fpa_to_ieee_bv(C, r); }
    case O_UITOFP: { Z3_ast r = keep(Z3_mk_fpa_to_fp_unsigned(C, rne(), toBv(e->a), fps(e->w))); return Z3_mk_fpa_to_ieee_bv(C, r); }
    case O_FPTOSI: return Z3_mk_fpa_to_sbv(C, keep(Z3_mk_fpa_rtz(C)), toFp(toBv(e->a), e->a->w), e->w);
    case O_FPTOUI: return Z3_mk_fpa_to_ubv(C, keep(Z3_mk_fpa_rtz(C)), toFp(toBv(e->a), e->a->w), e->w);
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: {
      Z3_ast xs = toBv(e->a), ys = toBv(e->b);
      Z3_ast x = toFp(xs, e->w), y = toFp(ys, e->w), r;
      if (e->op == O_FADD) r = Z3_mk_fpa_add(C, rne(), x, y);
      else if (e->op == O_FSUB) r = Z3_mk_fpa_sub(C, rne(), x, y);
      else if (e->op == O_FMUL) r = Z3_mk_fpa_mul(C, rne(), x, y);
      else r = Z3_mk_fpa_div(C, rne(), x, y);
      keep(r);
      unsigned m = e->w == 32 ? 23 : 52;
      Z3_ast q = keep(bvConst((u128)1 << (m - 1), e->w));
      Z3_ast dflt = keep(bvConst(e->w == 32 ? (u128)0xffc00000u : (u128)0xfff8000000000000ull, e->w));
      Z3_ast nan = keep(Z3_mk_ite(C, keep(Z3_mk_fpa_is_nan(C, x)), keep(Z3_mk_bvor(C, xs, q)),
                     keep(Z3_mk_ite(C, keep(Z3_mk_fpa_is_nan(C, y)), keep(Z3_mk_bvor(C, ys, q)), dflt))));
      return fromFp(r, nan);
    }
    case O_FSQRT: { Z3_ast x = toFp(toBv(e->a), e->w); Z3_ast r = keep(Z3_mk_fpa_sqrt(C, rne(), x)); return Z3_mk_fpa_to_ieee_bv(C, r); }
    case O_FROUND: {
      Z3_ast xs = toBv(e->a), x = toFp(xs, e->w);
      Z3_ast rm = e->aux == 0 ? Z3_mk_fpa_rtn(C) : e->aux == 1 ? Z3_mk_fpa_rtp(C) : e->aux == 2 ? Z3_mk_fpa_rtz(C) : e->aux == 3 ? Z3_mk_fpa_rne(C) : Z3_mk_fpa_rna(C);
      keep(rm);
      unsigned m = e->w == 32 ? 23 : 52;
      return fromFp(keep(Z3_mk_fpa_round_to_integral(C, rm, x)), keep(Z3_mk_bvor(C, xs, keep(bvConst((u128)1 << (m - 1), e->w)))));
    }
    case O_FREM: fprintf(stderr, "frem symbolic\n"); abort();
    default: return nullptr; // boolean-valued
  }
}
static bool boolOp(Expr *e) { return e->op == O_EQ || e->op == O_ULT || e->op == O_SLT || e->op == O_FCMP; }
static Z3_ast toBv(Expr *e) {
  if (e->z) return (Z3_ast)e->z;
  Z3_ast r;
  if (boolOp(e)) r = bool2bv(toBool(e));
  else if (e->w == 1 && (e->op == O_AND || e->op == O_OR || e->op == O_XOR || e->op == O_NOT || e->op == O_ITE)) r = bool2bv(toBool(e));
  else r = keep(build(e));
  e->z = r;
  return r;
}
static Z3_ast toBool(Expr *e) {
  auto it = g_bool.find(e);
  if (it != g_bool.end()) return it->second;
  Z3_ast r;
  switch (e->op) {
    case O_CONST: r = e->val ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case O_EQ: r = e->a->w == 1 ? Z3_mk_iff(C, toBool(e->a), toBool(e->b)) : Z3_mk_eq(C, toBv(e->a), toBv(e->b)); break;
    case O_ULT: r = Z3_mk_bvult(C, toBv(e->a), toBv(e->b)); break;
    case O_SLT: r = Z3_mk_bvslt(C, toBv(e->a), toBv(e->b)); break;
    case O_FCMP: {
      Z3_ast x = toFp(toBv(e->a), e->a->w), y = toFp(toBv(e->b), e->b->w);
      std::vector<Z3_ast> p; unsigned k = e->aux & 15;
      if (k & 1) p.push_back(keep(Z3_mk_fpa_eq(C, x, y)));
      if (k & 2) p.push_back(keep(Z3_mk_fpa_gt(C, x, y)));
      if (k & 4) p.push_back(keep(Z3_mk_fpa_lt(C, x, y)));
      if (k & 8) { p.push_back(keep(Z3_mk_fpa_is_nan(C, x))); p.push_back(keep(Z3_mk_fpa_is_nan(C, y))); }
      r = Z3_mk_or(C, (unsigned)p.size(), p.data());
      break;
    }
    case O_AND: if (e->w == 1) { Z3_ast t[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(C, 2, t); break; } [[fallthrough]];
    case O_OR: if (e->w == 1 && e->op == O_OR) { Z3_ast t[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(C, 2, t); break; } [[fallthrough]];
    default:
      if (e->op == O_XOR && e->w == 1) r = Z3_mk_xor(C, toBool(e->a), toBool(e->b));
      else if (e->op == O_NOT && e->w == 1) r = Z3_mk_not(C, toBool(e->a));
      else if (e->op == O_ITE && e->w == 1) r = Z3_mk_ite(C, toBool(e->a), toBool(e->b), toBool(e->c));
      else r = isOne(toBv(e));
  }
  keep(r);
  g_bool[e] = r;
  return r;
}

static bool hasFp(Expr *e) {
  static std::unordered_map<Expr *, bool> memo;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  bool r = e->op >= O_FADD;
  for (Expr *k : {e->a, e->b, e->c}) if (!r && k && k->op > O_VAR) r = hasFp(k);
  memo[e] = r;
  return r;
}

// Products of two unknowns: first try with each product replaced by an unknown within its interval.
static void collectMul(Expr *e, std::vector<Expr *> &out, std::unordered_map<Expr *, int> &seen) {
  if (!e || e->op <= O_VAR || seen[e]++) return;
  if (e->op == O_MUL && !e->a->isC() && !e->b->isC() && e->w >= 16) out.push_back(e);
  collectMul(e->a, out, seen); collectMul(e->b, out, seen); collectMul(e->c, out, seen);
}
static bool unsatByAbstraction(const std::vector<Expr *> &cs) {
  std::vector<Expr *> ms; std::unordered_map<Expr *, int> seen;
  for (auto e : cs) collectMul(e, ms, seen);
  if (ms.empty()) return false;
  std::vector<Z3_ast> from, to, cons;
  Z3_solver s = newSolver(false);
  auto len = [](u128 v) { unsigned n = 0; while (v) { n++; v >>= 1; } return n; };
  for (auto m : ms) {
    Z3_ast f = toBv(m), a = toBv(m->a), b = toBv(m->b), z = keep(bvConst(0, m->w));
    from.push_back(f);
    to.push_back(keep(Z3_mk_fresh_const(C, "m", bvs(m->w))));
    cons.push_back(keep(Z3_mk_bvuge(C, f, keep(bvConst(m->umin, m->w)))));
    cons.push_back(keep(Z3_mk_bvule(C, f, keep(bvConst(m->umax, m->w)))));
    if (len(m->a->umax) + len(m->b->umax) > m->w) continue;
    // no wrap: zero exactly when a factor is zero, otherwise at least each factor
    Z3_ast za = keep(Z3_mk_eq(C, a, z)), zb = keep(Z3_mk_eq(C, b, z)), o2[2] = {za, zb};
    cons.push_back(keep(Z3_mk_iff(C, keep(Z3_mk_eq(C, f, z)), keep(Z3_mk_or(C, 2, o2)))));
    cons.push_back(keep(Z3_mk_implies(C, keep(Z3_mk_not(C, zb)), keep(Z3_mk_bvuge(C, f, a)))));
    cons.push_back(keep(Z3_mk_implies(C, keep(Z3_mk_not(C, za)), keep(Z3_mk_bvuge(C, f, b)))));
  }
  for (auto e : cs) cons.push_back(toBool(e));
  for (auto c : cons) Z3_solver_assert(C, s, keep(Z3_substitute(C, c, (unsigned)from.size(), from.data(), to.data())));
  bool r = Z3_solver_check(C, s) == Z3_L_FALSE;
  Z3_solver_dec_ref(C, s);
  return r;
}
struct CacheKeyHash { size_t operator()(const std::vector<uint32_t> &v) const { uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 31; } return h; } };
struct CacheEnt { SatRes r; std::vector<std::pair<uint32_t, uint8_t>> m; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, CacheKeyHash> g_cache;

SatRes solveSet(const std::vector<Expr *> &cs0, std::vector<std::pair<uint32_t, uint8_t>> &model) {
  std::vector<Expr *> cs(cs0);
  std::sort(cs.begin(), cs.end(), [](Expr *a, Expr *b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::vector<uint32_t> key;
  for (auto e : cs) key.push_back(e->id);
  auto it = g_cache.find(key);
  if (it != g_cache.end()) { g_sst.cacheHits++; model = it->second.m; return it->second.r; }
  bool fp = false;
  for (auto e : cs) if (hasFp(e)) fp = true;
  auto t0 = std::chrono::steady_clock::now();
  Z3_solver s; Z3_lbool r;
  g_z3err = false;
  if (!fp && unsatByAbstraction(cs)) { s = S; r = Z3_L_FALSE; }
  else if (fp) {
    g_sst.fpQueries++;
    s = newSolver(true);
    for (auto e : cs) Z3_solver_assert(C, s, toBool(e));
    r = Z3_solver_check(C, s);
  } else {
    static const int kReset = getenv("ZSYM_RESET") ? atoi(getenv("ZSYM_RESET")) : 100;
    if (++g_since > kReset) {
      Z3_solver_dec_ref(C, S);
      S = newSolver(false);
      for (auto &p : g_lit) Z3_dec_ref(C, p.second);
      g_lit.clear();
      g_since = 0;
    }
    s = S;
    std::vector<Z3_ast> as;
    for (auto e : cs) {
      auto l = g_lit.find(e);
      if (l == g_lit.end()) {
        Z3_ast p = keep(Z3_mk_fresh_const(C, "p", Z3_mk_bool_sort(C)));
        Z3_ast imp = keep(Z3_mk_implies(C, p, toBool(e)));
        Z3_solver_assert(C, S, imp);
        l = g_lit.emplace(e, p).first;
      }
      as.push_back(l->second);
    }
    r = Z3_solver_check_assumptions(C, s, (unsigned)as.size(), as.data());
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_sst.queries++; g_sst.secs += dt; if (dt > g_sst.maxSecs) g_sst.maxSecs = dt;
  if (dt > 2 && getenv("ZSYM_SLOW")) { fprintf(stderr, "SLOW %.1fs:\n", dt); for (auto e : cs) fprintf(stderr, "   %s\n", exprStr(e, 8).c_str()); }
  CacheEnt ce;
  if (g_z3err) r = Z3_L_UNDEF;
  if (r == Z3_L_TRUE) {
    g_sst.sat++;
    ce.r = R_SAT;
    Z3_model m = Z3_solver_get_model(C, s);
    Z3_model_inc_ref(C, m);
    std::vector<uint32_t> vars;
    for (auto e : cs) { auto &sp = supportOf(e); vars.insert(vars.end(), sp.begin(), sp.end()); }
    std::sort(vars.begin(), vars.end());
    vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
    for (auto v : vars) {
      Z3_ast out = nullptr;
      uint64_t val = 0;
      if (Z3_model_eval(C, m, toBv(varExpr(v)), true, &out) && out) {
        Z3_inc_ref(C, out);
        Z3_get_numeral_uint64(C, out, &val);
        Z3_dec_ref(C, out);
      }
      ce.m.push_back({v, (uint8_t)val});
    }
    Z3_model_dec_ref(C, m);
    // independent validation of the model against our own evaluator
    std::vector<uint8_t> asg(g_vars.size(), 0);
    for (auto &p : ce.m) asg[p.first] = p.second;
    for (auto e : cs) if (evalExpr(e, asg) != 1) {
      fprintf(stderr, "ENCODING MISMATCH: solver model does not satisfy constraint under evaluator: %s\n", exprStr(e, 10).c_str());
      ce.r = R_UNKNOWN;
    }
  } else if (r == Z3_L_FALSE) { g_sst.unsat++; ce.r = R_UNSAT; }
  else { g_sst.unknown++; ce.r = R_UNKNOWN; }
  if (fp) Z3_solver_dec_ref(C, s);
  if (g_cache.size() > 400000) g_cache.clear();
  model = ce.m;
  SatRes rr = ce.r;
  g_cache.emplace(std::move(key), std::move(ce));
  return rr;
}
