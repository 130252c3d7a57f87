// Hash-consed bit-vector / floating-point expression DAG with an aggressive
// simplifier.  Values are bit patterns of width 1..128.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>
#include <unordered_map>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
  O_CONST, O_VAR,
  O_ADD, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_NOT,
  O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_SLT,
  O_ITE, O_CONCAT, O_EXTRACT, O_SEXT,
  // floating point: operands and results are IEEE bit patterns (32/64)
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FSQRT,
  O_FPEXT, O_FPTRUNC, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI,
  O_FCMP,   // aux = predicate (LLVM FCmp numbering)
  O_FROUND, // aux = rounding kind (0 floor 1 ceil 2 trunc 3 rint 4 round)
};

struct Expr {
  Op op;
  uint8_t w;        // width in bits (1..128)
  uint16_t depth;   // saturating DAG depth
  uint32_t aux;     // EXTRACT lo / VAR index / FCMP predicate
  uint32_t id;
  uint64_t stamp = 0;   // scratch for traversals
  uint64_t ev = 0;      // scratch (eval value for w<=64)
  Expr *a, *b, *c;
  u128 val;         // CONST value
  u128 umin, umax;  // unsigned interval
  void *z = nullptr; // Z3_ast cache
  bool isC() const { return op == O_CONST; }
};

struct VarInfo { std::string name; bool undef; };
extern std::vector<VarInfo> g_vars;     // 8-bit variables

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sxt(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ m) - m);
}

Expr *mkConst(u128 v, unsigned w);
Expr *mkVar(const std::string &name, bool undef = false); // new 8-bit var
Expr *varExpr(uint32_t idx);
Expr *mkAdd(Expr *a, Expr *b);
Expr *mkSub(Expr *a, Expr *b);
Expr *mkMul(Expr *a, Expr *b);
Expr *mkDiv(Op op, Expr *a, Expr *b);
Expr *mkAnd(Expr *a, Expr *b);
Expr *mkOr(Expr *a, Expr *b);
Expr *mkXor(Expr *a, Expr *b);
Expr *mkNot(Expr *a);
Expr *mkShl(Expr *a, Expr *b);
Expr *mkLshr(Expr *a, Expr *b);
Expr *mkAshr(Expr *a, Expr *b);
Expr *mkEq(Expr *a, Expr *b);
Expr *mkUlt(Expr *a, Expr *b);
Expr *mkSlt(Expr *a, Expr *b);
inline Expr *mkUle(Expr *a, Expr *b) { return mkNot(mkUlt(b, a)); }
inline Expr *mkSle(Expr *a, Expr *b) { return mkNot(mkSlt(b, a)); }
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkConcatSegs(std::vector<Expr *> &segs); // LSB first
Expr *mkExtract(Expr *e, unsigned lo, unsigned w);
Expr *mkZext(Expr *e, unsigned w);
Expr *mkSext(Expr *e, unsigned w);
Expr *mkFp(Op op, unsigned w, Expr *a, Expr *b, uint32_t aux = 0);
Expr *rebuild(Expr *e, Expr *a, Expr *b, Expr *c); // same op, new kids, resimplified

inline Expr *mkTrue() { return mkConst(1, 1); }
inline Expr *mkFalse() { return mkConst(0, 1); }
inline bool isTrue(Expr *e) { return e->isC() && e->val == 1; }
inline bool isFalse(Expr *e) { return e->isC() && e->val == 0; }

// concrete evaluation; assignment indexed by var index
u128 evalExpr(Expr *e, const std::vector<uint8_t> &asg);
u128 evalOp(Op op, unsigned w, unsigned aw, u128 a, u128 b, u128 c, uint32_t aux);
const std::vector<uint32_t> &supportOf(Expr *e);
std::string exprStr(Expr *e, int depth = 6);
Expr *substVars(Expr *e, const std::function<Expr *(uint32_t)> &f, std::unordered_map<Expr *, Expr *> &memo);
extern size_t g_exprCount;
