// zsym: bounded symbolic execution of LLVM bitcode (C++ subset incl. exceptions),
// with Z3 as decision procedure.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <sys/resource.h>

using namespace llvm;
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;

// ------------------------------------------------------------------ options
static struct {
  std::string bc, entry, out;
  std::vector<u64> params;
  double timeout = 600;
  u64 maxInstPath = 20000000;
  u64 maxPaths = 100000000;
  unsigned mux = 64;
  bool concPtr = false; // enumerate the values of a symbolic pointer when it is stored
  unsigned z3ms = 30000;
  u64 allocLimit = 1ull << 28;
  unsigned maxViol = 3;
  unsigned samples = 6;
  unsigned concLimit = 70000;
  bool trace = false, prep = false;
} opt;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double t_start;

// ------------------------------------------------------------------ values
struct V { u64 c; Expr *e; };
static inline V cv(u64 c) { return V{c, nullptr}; }
static inline Expr *toE(const V &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline V fromE(Expr *e) {
  if (e->isC() && e->w <= 64) return V{(u64)e->val, nullptr};
  return V{0, e};
}
static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

// ------------------------------------------------------------------ memory
static const unsigned IDSH = 36;
static const u64 BASEOFF = 0x100000;
static inline u64 baseOf(u32 id) { return ((u64)id << IDSH) + BASEOFF; }

enum Kind : u8 { K_GLOBAL, K_STACK, K_MALLOC, K_NEW, K_NEWARR, K_EXC, K_FUNC, K_EXTERN };
enum { B_CONC = 0, B_UNINIT = 1, B_SYM = 2 };
struct Obj {
  int rc = 0;
  u64 size = 0;
  u64 bias = 0;        // extra bytes before symbol address (extern opaque objects)
  Kind kind = K_STACK;
  bool alive = true, ro = false, tls = false, scoped = false; // scoped: lifetime ended
  const char *why = nullptr;
  std::vector<u8> d, st;
  std::vector<Expr *> s;
  const Value *site = nullptr;
  bool anySym = false;
};
template <class T> struct Ref {
  T *p = nullptr;
  Ref() {}
  Ref(T *x) : p(x) { if (p) p->rc++; }
  Ref(const Ref &o) : p(o.p) { if (p) p->rc++; }
  Ref(Ref &&o) : p(o.p) { o.p = nullptr; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  Ref &operator=(Ref o) { std::swap(p, o.p); return *this; }
  T *operator->() const { return p; }
  T &operator*() const { return *p; }
  explicit operator bool() const { return p; }
};
static const unsigned CH = 64;
struct Chunk { int rc = 0; Ref<Obj> o[CH]; };
struct Mem {
  std::vector<Ref<Chunk>> t;
  u32 n = 1;
  Obj *get(u32 id) const {
    if (id >= n) return nullptr;
    Chunk *c = t[id / CH].p;
    return c ? c->o[id % CH].p : nullptr;
  }
  Obj *mut(u32 id) {
    Ref<Chunk> &c = t[id / CH];
    if (c->rc > 1) { Chunk *nc = new Chunk; for (unsigned i = 0; i < CH; i++) nc->o[i] = c->o[i]; c = Ref<Chunk>(nc); }
    Ref<Obj> &o = c->o[id % CH];
    if (o->rc > 1) { Obj *no = new Obj(*o.p); no->rc = 0; o = Ref<Obj>(no); }
    return o.p;
  }
  void set(u32 id, const Ref<Obj> &o) {
    Ref<Chunk> &c = t[id / CH];
    if (c->rc > 1) { Chunk *nc = new Chunk; for (unsigned i = 0; i < CH; i++) nc->o[i] = c->o[i]; c = Ref<Chunk>(nc); }
    c->o[id % CH] = o;
  }
  u32 add(Obj *o) {
    u32 id = n++;
    while (t.size() <= id / CH) t.push_back(Ref<Chunk>(new Chunk));
    Ref<Chunk> &c = t[id / CH];
    if (c->rc > 1) { Chunk *nc = new Chunk; for (unsigned i = 0; i < CH; i++) nc->o[i] = c->o[i]; c = Ref<Chunk>(nc); }
    c->o[id % CH] = Ref<Obj>(o);
    return id;
  }
};

// ------------------------------------------------------------------ decoded code
struct Leaf { u8 w; u32 off; };
struct PhiCopy { int dst, src, n; };
struct FnInfo;
enum IOp : u16 {
  I_NOP, I_BIN, I_ICMP, I_FCMP, I_SELECT, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_INVOKE, I_LPAD, I_RESUME, I_UNREACH,
  I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_COPY, I_TRUNC, I_ZEXT, I_SEXT, I_FPCAST, I_EXTRV, I_INSV, I_EXTE, I_INSE, I_SHUF, I_FNEG,
  I_RMW, I_CMPXCHG, I_BAD, I_FENCE
};
struct In {
  IOp op = I_NOP;
  u16 sub = 0;
  u8 w = 0, aw = 0;
  int dst = -1;
  std::vector<int> ops;
  std::vector<Leaf> leaves;      // load/store layout, or result leaves
  std::vector<std::pair<int, i128>> gep;
  std::vector<u8> gepw;
  u64 imm = 0;
  int b0 = -1, b1 = -1;
  std::vector<std::pair<u64, int>> cases;
  Instruction *I = nullptr;
  Function *callee = nullptr;
  int handler = 0;      // builtin handler id
  std::vector<int> argN; // leaf count per arg
  std::vector<int> mask;
};
struct BBInfo {
  std::vector<In> ins;
  std::map<int, std::vector<PhiCopy>> phi; // from pred block
  BasicBlock *bb = nullptr;
  bool exec = false;
};
struct FnInfo {
  Function *F = nullptr;
  std::vector<BBInfo> bbs;
  std::vector<V> consts;
  std::vector<u8> dummy;
  int nslots = 0;
  std::vector<int> argSlot, argN;
  std::vector<u64> byval;
};
struct Frame {
  int rc = 0;
  FnInfo *f = nullptr;
  int bb = 0, ip = 0;
  std::vector<V> r;
  std::vector<u32> allocas;
  u64 freeOnRet = 0;
  bool discard = false, noResume = false;
};

static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::unordered_map<Function *, std::unique_ptr<FnInfo>> fninfo;
static std::unordered_map<const GlobalValue *, u64> gaddr;
static std::unordered_map<u32, Function *> fnById;
static std::unordered_map<u32, const GlobalVariable *> gvById;
static std::map<std::string, int> builtins;
static std::map<std::string, u64> unknownExt;

// ------------------------------------------------------------------ state
struct Bindings { std::unordered_map<u32, u8> m; std::unordered_map<Expr *, Expr *> memo; };
struct InRec { std::string name; u32 v0, n; };
struct ExcInfo { u64 addr, ti, dtor; int count; bool rethrown; };
struct State {
  Mem mem;
  std::vector<Ref<Frame>> st;
  std::vector<Expr *> pc;
  std::shared_ptr<std::vector<u8>> model;
  std::shared_ptr<Bindings> bind;
  std::shared_ptr<std::vector<InRec>> inputs;
  std::vector<ExcInfo> excs;   // known exceptions
  std::vector<u64> caught;     // stack of caught exception addresses
  std::vector<std::pair<u64, u64>> obs_dummy;
  std::shared_ptr<std::vector<V>> obs;
  u64 insts = 0;
  u32 forks = 0;
  u64 concCount = 0;
  bool leakCheck = false;
  u32 leakBase = 0;
  u32 frozen = 0, guardDepth = 0; // objects with id < frozen may only be read
  Frame &top() {
    Ref<Frame> &f = st.back();
    if (f->rc > 1) { Frame *n = new Frame(*f.p); n->rc = 0; f = Ref<Frame>(n); }
    return *f.p;
  }
};

static std::vector<std::unique_ptr<State>> work;
static struct {
  u64 paths = 0, assumed = 0, forks = 0, insts = 0, violPaths = 0, asserts = 0, branches = 0, oobChecks = 0, conc = 0, maxDepth = 0, muxes = 0, killed = 0;
} stats;
static std::map<std::string, u64> covers;
static std::vector<std::string> incomplete;
struct Violation { std::string kind, msg, loc; std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::string> stack; bool undef; };
static std::vector<Violation> viols;
static std::set<std::string> violKeys;
struct Sample { std::vector<std::pair<std::string, std::string>> inputs; std::vector<u64> obs; };
static std::vector<Sample> samples;
static bool g_stop = false;

static void incompl(const std::string &s) {
  if (incomplete.size() < 20) incomplete.push_back(s);
}

static std::string hexOf(const std::vector<u8> &asg, u32 v0, u32 n) {
  static const char *H = "0123456789abcdef";
  std::string r;
  for (u32 i = 0; i < n; i++) { u8 b = v0 + i < asg.size() ? asg[v0 + i] : 0; r += H[b >> 4]; r += H[b & 15]; }
  return r;
}
static std::vector<std::pair<std::string, std::string>> dumpInputs(State &s, const std::vector<u8> &asg) {
  std::vector<std::pair<std::string, std::string>> r;
  for (auto &i : *s.inputs) r.push_back({i.name, hexOf(asg, i.v0, i.n)});
  return r;
}
static std::string locOf(Instruction *I) {
  if (!I) return "?";
  const DebugLoc &dl = I->getDebugLoc();
  if (!dl) return I->getFunction()->getName().str();
  std::string r;
  const DILocation *l = dl.get();
  int k = 0;
  while (l && k++ < 8) {
    std::string fn = l->getFilename().str();
    if (!r.empty()) r += " < ";
    r += fn + ":" + std::to_string(l->getLine());
    l = l->getInlinedAt();
  }
  return r;
}
static Instruction *curI(State &s) {
  Frame &f = *s.st.back().p;
  return f.f->bbs[f.bb].ins[f.ip].I;
}

// ------------------------------------------------------------------ constraints
static Expr *simp(State &s, Expr *e) {
  if (e->isC() || s.bind->m.empty()) return e;
  // quick support test
  const auto &sp = supportOf(e);
  bool hit = false;
  for (u32 v : sp) if (s.bind->m.count(v)) { hit = true; break; }
  if (!hit) return e;
  Bindings *b = s.bind.get();
  return substVars(e, [b](u32 v) -> Expr * { auto it = b->m.find(v); return it == b->m.end() ? nullptr : mkConst(it->second, 8); }, b->memo);
}
static void bindVar(State &s, u32 v, u8 c) {
  auto it = s.bind->m.find(v);
  if (it != s.bind->m.end()) return;
  auto nb = std::make_shared<Bindings>();
  nb->m = s.bind->m;
  nb->m[v] = c;
  s.bind = nb;
}
static void addC(State &s, Expr *e) {
  if (isTrue(e)) return;
  if (e->op == O_AND && e->w == 1) { addC(s, e->a); addC(s, e->b); return; }
  s.pc.push_back(e);
  if (e->op == O_EQ && e->a->op == O_VAR && e->b->isC()) bindVar(s, e->a->aux, (u8)e->b->val);
}
static void sliceFor(State &s, const std::vector<Expr *> &conds, std::vector<Expr *> &out) {
  static std::vector<u32> mark; static u32 ep = 0;
  if (mark.size() < g_vars.size()) mark.resize(g_vars.size() + 1024, 0);
  ep++;
  for (auto c : conds) { for (u32 v : supportOf(c)) mark[v] = ep; out.push_back(c); }
  std::vector<Expr *> rest(s.pc);
  bool ch = true;
  while (ch) {
    ch = false;
    size_t k = 0;
    for (size_t i = 0; i < rest.size(); i++) {
      Expr *e = rest[i];
      bool in = false;
      const auto &sp = supportOf(e);
      for (u32 v : sp) if (mark[v] == ep) { in = true; break; }
      if (in) { for (u32 v : sp) mark[v] = ep; out.push_back(e); ch = true; }
      else rest[k++] = e;
    }
    rest.resize(k);
  }
}
static void flattenConj(Expr *e, std::vector<Expr *> &o) {
  if (e->op == O_AND && e->w == 1) { flattenConj(e->a, o); flattenConj(e->b, o); } else o.push_back(e);
}
// is pc AND cond satisfiable?  fills newModel (full assignment)
static SatRes feasible(State &s, Expr *cond, std::shared_ptr<std::vector<u8>> *nm) {
  if (isFalse(cond)) return R_UNSAT;
  std::vector<Expr *> conds, q;
  flattenConj(cond, conds);
  sliceFor(s, conds, q);
  std::vector<std::pair<u32, u8>> m;
  SatRes r = solveSet(q, m);
  if (r == R_SAT && nm) {
    auto x = std::make_shared<std::vector<u8>>(*s.model);
    if (x->size() < g_vars.size()) x->resize(g_vars.size(), 0);
    for (auto &p : m) (*x)[p.first] = p.second;
    *nm = x;
  }
  if (r == R_UNKNOWN) incompl("solver returned unknown at " + locOf(curI(s)));
  return r;
}
static u128 evalM(State &s, Expr *e) { return evalExpr(e, *s.model); }

static void report(State &s, const std::string &kind, const std::string &msg, const std::vector<u8> &asg, bool undef = false) {
  std::string loc = locOf(curI(s));
  std::string key = kind + "|" + msg + "|" + loc.substr(0, loc.find(" < "));
  stats.violPaths++;
  if (violKeys.count(key)) return;
  violKeys.insert(key);
  Violation v;
  v.kind = kind; v.msg = msg; v.loc = loc; v.undef = undef;
  v.inputs = dumpInputs(s, asg);
  for (int i = (int)s.st.size() - 1; i >= 0 && v.stack.size() < 14; i--) {
    Frame &f = *s.st[i].p;
    v.stack.push_back(demangle(f.f->F->getName().str()).substr(0, 160) + " @ " + locOf(f.f->bbs[f.bb].ins[f.ip].I));
  }
  viols.push_back(v);
  if (viols.size() >= opt.maxViol) g_stop = true;
}
static bool dependsUndef(Expr *e) { for (u32 v : supportOf(e)) if (g_vars[v].undef) return true; return false; }

enum RC { RC_OK, RC_DEAD };

static State *forkState(State &s) {
  State *n = new State(s);
  n->forks++;
  stats.forks++;
  return n;
}
static void pushWork(State *n) { work.emplace_back(n); stats.maxDepth = std::max<u64>(stats.maxDepth, work.size()); }

// Concretise e in s by forking on the remaining values.  The sibling re-executes
// the current instruction.
static bool concretize(State &s, Expr *e, u64 &out) {
  e = simp(s, e);
  if (e->isC()) { out = (u64)e->val; return true; }
  stats.conc++;
  u64 v = (u64)evalM(s, e);
  Expr *eq = mkEq(e, mkConst(v, e->w));
  if (!isTrue(eq)) {
    std::shared_ptr<std::vector<u8>> nm;
    SatRes r = feasible(s, mkNot(eq), &nm);
    if (r == R_SAT) {
      if (++s.concCount > opt.concLimit) { incompl("concretisation limit at " + locOf(curI(s))); return false; }
      State *n = forkState(s);
      n->model = nm;
      addC(*n, mkNot(eq));
      pushWork(n);
    } else if (r == R_UNKNOWN) { stats.killed++; }
    addC(s, eq);
  }
  out = v;
  return true;
}
// Decide a 1-bit condition: forks if both feasible; returns direction for s.
// The sibling re-executes the current instruction under the opposite constraint.
static int decide(State &s, Expr *c) {
  c = simp(s, c);
  if (c->isC()) return (int)c->val;
  stats.branches++;
  bool d = evalM(s, c) != 0;
  Expr *mine = d ? c : mkNot(c), *oth = d ? mkNot(c) : c;
  std::shared_ptr<std::vector<u8>> nm;
  SatRes r = feasible(s, oth, &nm);
  if (r == R_SAT) {
    if (dependsUndef(c)) {
      // does the outcome really depend on uninitialised data?
      std::unordered_map<Expr *, Expr *> memo; std::map<u32, Expr *> ren;
      Expr *c2 = substVars(c, [&](u32 v) -> Expr * { if (!g_vars[v].undef) return nullptr; auto &x = ren[v]; if (!x) x = mkVar("undef'", true); return x; }, memo);
      std::shared_ptr<std::vector<u8>> nm2;
      if (s.model->size() < g_vars.size()) { auto x = std::make_shared<std::vector<u8>>(*s.model); x->resize(g_vars.size(), 0); s.model = x; }
      if (feasible(s, mkAnd(c, mkNot(c2)), &nm2) == R_SAT) report(s, "uninit", "branch depends on uninitialised memory", *nm2, true);
    }
    State *n = forkState(s);
    n->model = nm;
    addC(*n, oth);
    pushWork(n);
    addC(s, mine);
  } else if (r == R_UNKNOWN) { stats.killed++; addC(s, mine); }
  return d;
}

// ------------------------------------------------------------------ memory access
static u32 allocObj(State &s, u64 size, Kind k, const Value *site) {
  Obj *o = new Obj;
  o->size = size; o->kind = k; o->site = site;
  o->d.assign(size, 0xCD);
  o->st.assign(size, B_UNINIT);
  return s.mem.add(o);
}
static std::string objDesc(Obj *o) {
  static const char *KN[] = {"global", "stack", "malloc", "new", "new[]", "exception", "function", "extern"};
  std::string r = KN[o->kind];
  r += " object of " + std::to_string(o->size) + " bytes";
  if (o->site) {
    if (auto *I = dyn_cast<Instruction>(o->site)) { r += " from " + locOf(const_cast<Instruction *>(I)); }
    else if (o->site->hasName()) r += " " + o->site->getName().str();
  }
  return r;
}
static Expr *byteE(Obj *o, u64 i) {
  if (o->st[i] == B_SYM) return o->s[i];
  return mkConst(o->d[i], 8);
}
static void ensureUndef(State &s, u32 id, u64 off, u64 n) {
  Obj *o = s.mem.get(id);
  bool any = false;
  for (u64 i = 0; i < n; i++) if (o->st[off + i] == B_UNINIT) { any = true; break; }
  if (!any) return;
  o = s.mem.mut(id);
  if (o->s.size() < o->size) o->s.resize(o->size, nullptr);
  o->anySym = true;
  for (u64 i = 0; i < n; i++) if (o->st[off + i] == B_UNINIT) { o->st[off + i] = B_SYM; o->s[off + i] = mkVar("undef", true); }
  auto x = std::make_shared<std::vector<u8>>(*s.model);
  x->resize(g_vars.size(), 0xCD);
  s.model = x;
}
static V readLeaf(State &s, u32 id, u64 off, unsigned w) {
  Obj *o = s.mem.get(id);
  unsigned n = (w + 7) / 8;
  bool conc = true;
  for (unsigned i = 0; i < n; i++) if (o->st[off + i] != B_CONC) { conc = false; break; }
  if (conc && w <= 64) {
    u64 v = 0;
    memcpy(&v, &o->d[off], n);
    return cv(v & mask64(w));
  }
  ensureUndef(s, id, off, n);
  o = s.mem.get(id);
  std::vector<Expr *> sg;
  for (unsigned i = 0; i < n; i++) sg.push_back(byteE(o, off + i));
  Expr *e = mkConcatSegs(sg);
  if (e->w > w) e = mkExtract(e, 0, w);
  return fromE(e);
}
static void writeLeaf(State &s, u32 id, u64 off, unsigned w, V v) {
  Obj *o = s.mem.mut(id);
  unsigned n = (w + 7) / 8;
  if (!v.e) {
    u64 c = v.c & mask64(w);
    memcpy(&o->d[off], &c, n);
    for (unsigned i = 0; i < n; i++) o->st[off + i] = B_CONC;
    return;
  }
  Expr *e = v.e;
  if (e->w < n * 8) e = mkZext(e, n * 8);
  for (unsigned i = 0; i < n; i++) {
    Expr *b = mkExtract(e, i * 8, 8);
    if (b->isC()) { o->d[off + i] = (u8)b->val; o->st[off + i] = B_CONC; }
    else {
      if (o->s.size() < o->size) o->s.resize(o->size, nullptr);
      o->anySym = true;
      o->s[off + i] = b; o->st[off + i] = B_SYM;
    }
  }
}
static const char *deadWhy(Obj *o) { return o->why ? o->why : "dead object"; }

// Check [addr, addr+n) is accessible; report violation otherwise.
static bool checkConc(State &s, u64 addr, u64 n, bool write, u32 &id, u64 &off, const char *what) {
  id = (u32)(addr >> IDSH);
  Obj *o = s.mem.get(id);
  if (!o) {
    if (n == 0) return true;
    report(s, "memory", std::string(what) + (addr < 4096 ? ": null pointer dereference" : ": wild pointer"), *s.model);
    return false;
  }
  off = addr - baseOf(id) + o->bias;
  if (n == 0) return true;
  if (!o->alive || o->scoped) { report(s, "memory", std::string(what) + ": use of " + deadWhy(o) + " (" + objDesc(o) + ")", *s.model); return false; }
  if (o->kind == K_FUNC) { report(s, "memory", std::string(what) + ": access to code", *s.model); return false; }
  if (off > o->size || n > o->size - off) {
    report(s, "memory", std::string(what) + ": out of bounds of " + objDesc(o) + " at offset " + std::to_string((int64_t)(off)) + " size " + std::to_string(n), *s.model);
    return false;
  }
  if (write && s.frozen && id < s.frozen && !s.guardDepth && o->kind != K_STACK && !o->tls && strcmp(what, "atomic") && strcmp(what, "guard")) { report(s, "shared", std::string(what) + " to an object another thread may be reading (" + objDesc(o) + ")", *s.model); return false; }
  if (write && o->ro) { report(s, "memory", std::string(what) + ": write to constant", *s.model); return false; }
  return true;
}
// Resolve symbolic address to object id; adds in-bounds constraint.  offE gets the offset expression.
static bool resolveSym(State &s, Expr *a, u64 n, bool write, u32 &id, Expr *&offE, u64 &conc, bool &isConc, const char *what) {
  a = simp(s, a);
  isConc = false;
  if (a->isC()) { isConc = true; conc = (u64)a->val; return true; }
  id = 0;
  auto plausible = [&](u32 i, u64 v) { Obj *o = i ? s.mem.get(i) : nullptr; return o && o->kind != K_FUNC && v - (baseOf(i) - BASEOFF) <= BASEOFF + o->size + (1ull << 32); };
  if (a->op == O_ADD && a->b->isC() && plausible((u32)((u64)a->b->val >> IDSH), (u64)a->b->val)) id = (u32)((u64)a->b->val >> IDSH);
  auto dead = [&](u32 i) { Obj *o = s.mem.get(i); return !o->alive || o->scoped; };
  if (!id || dead(id)) {
    // no constant base, or only the remains of a pointer difference: where does the model put it?
    u64 mv = (u64)evalExpr(a, *s.model);
    u32 mi = (u32)(mv >> IDSH);
    if (plausible(mi, mv) && (!id || !dead(mi))) id = mi;
  }
  Obj *o = id ? s.mem.get(id) : nullptr;
  if (!o) { if (!concretize(s, a, conc)) return false; isConc = true; return true; }
  if (!o->alive || o->scoped) { report(s, "memory", std::string(what) + ": use of " + deadWhy(o) + " (" + objDesc(o) + ")", *s.model); return false; }
  offE = mkAdd(a, mkConst((u64)0 - baseOf(id) + o->bias, 64));
  if (offE->isC()) { isConc = true; conc = baseOf(id) - o->bias + (u64)offE->val; return true; }
  stats.oobChecks++;
  if (getenv("ZSYM_ADDR")) fprintf(stderr, "ADDR %s\n", exprStr(a, 6).c_str());
  if (n > o->size) { report(s, "memory", std::string(what) + ": out of bounds of " + objDesc(o), *s.model); return false; }
  Expr *inb = mkUle(offE, mkConst(o->size - n, 64));
  if (!isTrue(inb)) {
    std::shared_ptr<std::vector<u8>> nm;
    SatRes r = feasible(s, mkNot(inb), &nm);
    if (r == R_SAT) {
      u64 ov = (u64)evalExpr(offE, *nm);
      u64 av = (u64)evalExpr(a, *nm);
      Obj *oo = s.mem.get((u32)(av >> IDSH));
      if ((u32)(av >> IDSH) != id && oo && oo->kind != K_FUNC) { if (!concretize(s, a, conc)) return false; isConc = true; return true; } // several objects
      report(s, "memory", std::string(what) + ": out of bounds of " + objDesc(o) + " at (symbolic) offset " + std::to_string((int64_t)ov) + " size " + std::to_string(n), *nm);
      r = feasible(s, inb, &nm);
      if (r != R_SAT) return false;
      s.model = nm;
      addC(s, inb);
    }
  }
  return true;
}

static bool loadLeaves(State &s, V addr, u64 total, const std::vector<Leaf> &ls, V *dst, u64 align) {
  u32 id; u64 off; u64 a = addr.c;
  if (addr.e) {
    Expr *offE; bool isC;
    if (!resolveSym(s, addr.e, total, false, id, offE, a, isC, "read")) return false;
    if (!isC) {
      Obj *o = s.mem.get(id);
      u64 lo = (u64)std::min<u128>(offE->umin, o->size - total), hi = (u64)std::min<u128>(offE->umax, o->size - total);
      // stride from known low bits
      unsigned tz = 0;
      while (tz < 4 && mkExtract(offE, 0, tz + 1)->isC()) tz++;
      u64 stride = 1ull << tz;
      u64 phase = tz ? (u64)mkExtract(offE, 0, tz)->val : 0;
      u64 first = lo;
      while (first <= hi && (first & (stride - 1)) != phase) first++;
      u64 cnt = first <= hi ? (hi - first) / stride + 1 : 0;
      if (cnt && cnt <= opt.mux && align <= stride) {
        stats.muxes++;
        ensureUndef(s, id, first, hi + total - first);
        for (size_t k = 0; k < ls.size(); k++) {
          // decision tree over the offset bits (equal subtrees collapse by hash-consing)
          unsigned nb = 1;
          while (nb < 63 && (hi >> nb)) nb++;
          std::function<Expr *(u64, unsigned)> tree = [&](u64 base, unsigned bit) -> Expr * { // offsets base .. base + 2^bit - 1
            if (base > hi || base + ((1ull << bit) - 1) < first) return nullptr;
            if (bit == tz) return toE(readLeaf(s, id, (base | phase) + ls[k].off, ls[k].w), ls[k].w);
            Expr *l = tree(base, bit - 1), *r = tree(base | (1ull << (bit - 1)), bit - 1);
            if (!l) return r;
            if (!r || l == r) return l;
            return mkIte(mkExtract(offE, bit - 1, 1), r, l);
          };
          if (nb < tz) nb = tz;
          Expr *acc = tree(0, nb);
          dst[k] = fromE(acc);
        }
        return true;
      }
      u64 ov;
      if (!concretize(s, offE, ov)) return false;
      a = baseOf(id) - o->bias + ov;
    }
  }
  if (!checkConc(s, a, total, false, id, off, "read")) return false;
  if (align > 1 && (a % align)) { report(s, "align", "misaligned read of alignment " + std::to_string(align), *s.model); return false; }
  for (size_t k = 0; k < ls.size(); k++) dst[k] = readLeaf(s, id, off + ls[k].off, ls[k].w);
  return true;
}
static bool concAddr(State &s, V addr, u64 n, bool write, u64 &a, const char *what) {
  if (!addr.e) { a = addr.c; return true; }
  u32 id; Expr *offE; bool isC;
  if (!resolveSym(s, addr.e, n, write, id, offE, a, isC, what)) return false;
  if (isC) return true;
  Obj *o = s.mem.get(id);
  u64 ov;
  if (!concretize(s, offE, ov)) return false;
  a = baseOf(id) - o->bias + ov;
  return true;
}
static bool storeLeaves(State &s, V addr, u64 total, const std::vector<Leaf> &ls, const V *src, u64 align, const char *what = "write") {
  u64 a; u32 id; u64 off;
  if (!concAddr(s, addr, total, true, a, what)) return false;
  if (!checkConc(s, a, total, true, id, off, what)) return false;
  if (align > 1 && (a % align)) { report(s, "align", "misaligned write of alignment " + std::to_string(align), *s.model); return false; }
  for (size_t k = 0; k < ls.size(); k++) writeLeaf(s, id, off + ls[k].off, ls[k].w, src[k]);
  return true;
}
static bool copyBytes(State &s, u64 d, u64 sr, u64 n) {
  if (!n) return true;
  u32 di, si; u64 dofs, sofs;
  if (!checkConc(s, sr, n, false, si, sofs, "memcpy source")) return false;
  if (!checkConc(s, d, n, true, di, dofs, "memcpy destination")) return false;
  if (di == si && dofs == sofs) return true;
  Obj *D = s.mem.mut(di);
  Obj *S = s.mem.get(si);
  std::vector<Expr *> tmp;
  if (S->anySym) { tmp.assign(n, nullptr); for (u64 i = 0; i < n; i++) if (S->st[sofs + i] == B_SYM) tmp[i] = S->s[sofs + i]; }
  bool needS = false;
  for (auto e : tmp) if (e) needS = true;
  memmove(&D->d[dofs], &S->d[sofs], n);
  memmove(&D->st[dofs], &S->st[sofs], n);
  if (needS) {
    if (D->s.size() < D->size) D->s.resize(D->size, nullptr);
    D->anySym = true;
    for (u64 i = 0; i < n; i++) if (tmp[i]) D->s[dofs + i] = tmp[i];
  }
  return true;
}

// ------------------------------------------------------------------ decoding
static void leavesOf(Type *t, std::vector<Leaf> &o, u32 base = 0) {
  if (t->isVoidTy() || t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) return;
  if (auto *st = dyn_cast<StructType>(t)) {
    const StructLayout *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) leavesOf(st->getElementType(i), o, base + (u32)sl->getElementOffset(i));
  } else if (auto *at = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) leavesOf(at->getElementType(), o, base + (u32)(i * es));
  } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    u64 es = DL->getTypeStoreSize(vt->getElementType());
    for (u64 i = 0; i < vt->getNumElements(); i++) leavesOf(vt->getElementType(), o, base + (u32)(i * es));
  } else {
    o.push_back(Leaf{(u8)(u64)DL->getTypeSizeInBits(t), base});
  }
}
static int nLeaves(Type *t) { std::vector<Leaf> l; leavesOf(t, l); return (int)l.size(); }

static V fromAP(const APInt &a) {
  if (a.getBitWidth() <= 64) return cv(a.getZExtValue());
  u128 v = a.extractBitsAsZExtValue(64, 0);
  v |= (u128)a.lshr(64).getLoBits(64).trunc(64).getZExtValue() << 64;
  return V{0, mkConst(v, a.getBitWidth())};
}
static u64 constAddr(const Constant *c);
static bool evalConst(const Constant *c, std::vector<V> &out) {
  Type *t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    std::vector<Leaf> l; leavesOf(t, l);
    for (auto &x : l) out.push_back(x.w > 64 ? V{0, mkConst(0, x.w)} : cv(0));
    return true;
  }
  if (auto *ci = dyn_cast<ConstantInt>(c)) { out.push_back(fromAP(ci->getValue())); return true; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() > 64) { out.push_back(V{0, mkConst(0, (unsigned)a.getBitWidth())}); } else out.push_back(fromAP(a)); return true; }
  if (isa<ConstantPointerNull>(c)) { out.push_back(cv(0)); return true; }
  if (auto *ca = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < ca->getNumElements(); i++) evalConst(ca->getElementAsConstant(i), out); return true; }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) evalConst(ca->getOperand(i), out); return true; }
  if (t->isPointerTy() || isa<ConstantExpr>(c)) { out.push_back(cv(constAddr(c))); return true; }
  return false;
}
static u64 constAddr(const Constant *c) {
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    if (auto *ga = dyn_cast<GlobalAlias>(gv)) return constAddr(ga->getAliasee());
    auto it = gaddr.find(gv);
    return it == gaddr.end() ? 0 : it->second;
  }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getZExtValue();
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off);
        return constAddr(ce->getOperand(0)) + off.getZExtValue();
      }
      case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::BitCast: case Instruction::AddrSpaceCast: return constAddr(ce->getOperand(0));
      case Instruction::Trunc: { unsigned w = (unsigned)DL->getTypeSizeInBits(ce->getType()); return constAddr(ce->getOperand(0)) & mask64(w); }
      case Instruction::Add: return constAddr(ce->getOperand(0)) + constAddr(ce->getOperand(1));
      case Instruction::Sub: return constAddr(ce->getOperand(0)) - constAddr(ce->getOperand(1));
      case Instruction::Xor: return constAddr(ce->getOperand(0)) ^ constAddr(ce->getOperand(1));
      case Instruction::ICmp: {
        u64 a = constAddr(ce->getOperand(0)), b = constAddr(ce->getOperand(1));
        switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; default: return a > b; }
      }
      default: errs() << "unhandled constexpr " << *ce << "\n"; incompl("constexpr"); return 0;
    }
  }
  errs() << "unhandled const " << *c << "\n";
  incompl("const");
  return 0;
}

static FnInfo *decode(Function *F);

#include "handlers.inc"

static FnInfo *decode(Function *F) {
  auto &slot = fninfo[F];
  if (slot) return slot.get();
  slot = std::make_unique<FnInfo>();
  FnInfo *fi = slot.get();
  fi->F = F;
  std::unordered_map<const Value *, int> sm;
  int n = 0;
  for (auto &A : F->args()) {
    int k = nLeaves(A.getType());
    sm[&A] = n; fi->argSlot.push_back(n); fi->argN.push_back(k); n += k;
    fi->byval.push_back(A.hasByValAttr() ? (u64)DL->getTypeAllocSize(A.getParamByValType()) : 0);
  }
  std::unordered_map<const BasicBlock *, int> bm;
  for (auto &B : *F) { int i = (int)bm.size(); bm[&B] = i; for (auto &I : B) if (!I.getType()->isVoidTy()) { sm[&I] = n; n += nLeaves(I.getType()); } }
  fi->nslots = n;
  fi->bbs.resize(bm.size());
  std::unordered_map<const Constant *, int> cm;
  auto opd = [&](Value *v) -> int {
    if (auto *c = dyn_cast<Constant>(v)) {
      auto it = cm.find(c);
      if (it != cm.end()) return it->second;
      int idx = (int)fi->consts.size();
      std::vector<V> o;
      if (!evalConst(c, o)) { errs() << "bad const " << *c << "\n"; incompl("bad const"); o.push_back(cv(0)); }
      for (auto &x : o) fi->consts.push_back(x);
      return cm[c] = -idx - 1;
    }
    if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return INT32_MIN;
    return sm.at(v);
  };
  for (auto &B : *F) {
    BBInfo &bi = fi->bbs[bm[&B]];
    bi.bb = &B;
    for (auto &I : B) {
      if (auto *P = dyn_cast<PHINode>(&I)) {
        int k = nLeaves(P->getType());
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++) bi.phi[bm[P->getIncomingBlock(i)]].push_back(PhiCopy{sm[P], opd(P->getIncomingValue(i)), k});
        continue;
      }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      In in;
      in.I = &I;
      if (!I.getType()->isVoidTy()) { in.dst = sm[&I]; leavesOf(I.getType(), in.leaves); if (!in.leaves.empty()) in.w = in.leaves[0].w; }
      if (!isa<CallBase>(I)) for (auto &o : I.operands()) in.ops.push_back(opd(o.get()));
      auto opw = [&](int i) { std::vector<Leaf> l; leavesOf(I.getOperand(i)->getType(), l); return l.empty() ? (u8)0 : l[0].w; };
      if (I.isBinaryOp()) { in.op = I_BIN; in.sub = I.getOpcode(); }
      else switch (I.getOpcode()) {
        case Instruction::FNeg: in.op = I_FNEG; break;
        case Instruction::ICmp: in.op = I_ICMP; in.sub = cast<ICmpInst>(I).getPredicate(); in.aw = opw(0); break;
        case Instruction::FCmp: in.op = I_FCMP; in.sub = cast<FCmpInst>(I).getPredicate(); in.aw = opw(0); break;
        case Instruction::Select: in.op = I_SELECT; in.sub = I.getType()->isPointerTy(); in.imm = I.getOperand(0)->getType()->isVectorTy(); break;
        case Instruction::Br: {
          auto &b = cast<BranchInst>(I);
          if (b.isConditional()) { in.op = I_CBR; in.b0 = bm[b.getSuccessor(0)]; in.b1 = bm[b.getSuccessor(1)]; }
          else { in.op = I_BR; in.b0 = bm[b.getSuccessor(0)]; }
          break;
        }
        case Instruction::Switch: {
          auto &sw = cast<SwitchInst>(I);
          in.op = I_SWITCH; in.aw = opw(0); in.b0 = bm[sw.getDefaultDest()];
          for (auto &c : sw.cases()) in.cases.push_back({c.getCaseValue()->getZExtValue(), bm[c.getCaseSuccessor()]});
          break;
        }
        case Instruction::Ret: in.op = I_RET; in.imm = I.getNumOperands() ? nLeaves(I.getOperand(0)->getType()) : 0; break;
        case Instruction::Unreachable: in.op = I_UNREACH; break;
        case Instruction::Resume: in.op = I_RESUME; break;
        case Instruction::LandingPad: in.op = I_LPAD; break;
        case Instruction::Alloca: in.op = I_ALLOCA; in.imm = DL->getTypeAllocSize(cast<AllocaInst>(I).getAllocatedType()); break;
        case Instruction::Load: in.op = I_LOAD; in.imm = DL->getTypeStoreSize(I.getType()); in.aw = (u8)Log2(cast<LoadInst>(I).getAlign()); break;
        case Instruction::Store: {
          in.op = I_STORE; leavesOf(I.getOperand(0)->getType(), in.leaves); in.imm = DL->getTypeStoreSize(I.getOperand(0)->getType());
          in.aw = (u8)Log2(cast<StoreInst>(I).getAlign());
          break;
        }
        case Instruction::GetElementPtr: {
          in.op = I_GEP;
          auto &g = cast<GetElementPtrInst>(I);
          if (I.getType()->isVectorTy()) { in.op = I_BAD; break; }
          i128 off = 0;
          for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            Value *ix = gi.getOperand();
            if (StructType *sty = gi.getStructTypeOrNull()) { off += (u64)DL->getStructLayout(sty)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue()); }
            else {
              u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
              if (auto *ci = dyn_cast<ConstantInt>(ix)) off += (i128)ci->getSExtValue() * (i128)sz;
              else { in.gep.push_back({opd(ix), (i128)sz}); in.gepw.push_back((u8)ix->getType()->getIntegerBitWidth()); }
            }
          }
          in.imm = (u64)off;
          break;
        }
        case Instruction::Trunc: in.op = I_TRUNC; in.aw = opw(0); break;
        case Instruction::ZExt: in.op = I_ZEXT; in.aw = opw(0); break;
        case Instruction::SExt: in.op = I_SEXT; in.aw = opw(0); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
          in.aw = opw(0);
          in.op = in.w == in.aw ? I_COPY : in.w < in.aw ? I_TRUNC : I_ZEXT; break;
        }
        case Instruction::BitCast: {
          std::vector<Leaf> l; leavesOf(I.getOperand(0)->getType(), l);
          if (l.size() == in.leaves.size()) in.op = I_COPY;
          else { in.op = I_BAD; in.sub = 1; in.aw = l[0].w; in.imm = l.size(); in.op = I_COPY; in.sub = 1; }
          break;
        }
        case Instruction::Freeze: case Instruction::AddrSpaceCast: in.op = I_COPY; break;
        case Instruction::FPExt: in.op = I_FPCAST; in.sub = O_FPEXT; in.aw = opw(0); break;
        case Instruction::FPTrunc: in.op = I_FPCAST; in.sub = O_FPTRUNC; in.aw = opw(0); break;
        case Instruction::SIToFP: in.op = I_FPCAST; in.sub = O_SITOFP; in.aw = opw(0); break;
        case Instruction::UIToFP: in.op = I_FPCAST; in.sub = O_UITOFP; in.aw = opw(0); break;
        case Instruction::FPToSI: in.op = I_FPCAST; in.sub = O_FPTOSI; in.aw = opw(0); break;
        case Instruction::FPToUI: in.op = I_FPCAST; in.sub = O_FPTOUI; in.aw = opw(0); break;
        case Instruction::ExtractValue: case Instruction::InsertValue: {
          bool ex = I.getOpcode() == Instruction::ExtractValue;
          in.op = ex ? I_EXTRV : I_INSV;
          Type *t = I.getOperand(0)->getType();
          ArrayRef<unsigned> idx = ex ? cast<ExtractValueInst>(I).getIndices() : cast<InsertValueInst>(I).getIndices();
          u64 k = 0;
          for (unsigned ix : idx) {
            for (unsigned j = 0; j < ix; j++) k += nLeaves(isa<StructType>(t) ? cast<StructType>(t)->getElementType(j) : cast<ArrayType>(t)->getElementType());
            t = isa<StructType>(t) ? cast<StructType>(t)->getElementType(ix) : cast<ArrayType>(t)->getElementType();
          }
          in.imm = k;
          in.sub = ex ? 0 : nLeaves(I.getOperand(1)->getType());
          break;
        }
        case Instruction::ExtractElement: in.op = I_EXTE; in.imm = cast<FixedVectorType>(I.getOperand(0)->getType())->getNumElements(); break;
        case Instruction::InsertElement: in.op = I_INSE; break;
        case Instruction::ShuffleVector: {
          in.op = I_SHUF;
          in.imm = cast<FixedVectorType>(I.getOperand(0)->getType())->getNumElements();
          for (int m : cast<ShuffleVectorInst>(I).getShuffleMask()) in.mask.push_back(m);
          break;
        }
        case Instruction::AtomicRMW: in.op = I_RMW; in.sub = cast<AtomicRMWInst>(I).getOperation(); break;
        case Instruction::AtomicCmpXchg: in.op = I_CMPXCHG; break;
        case Instruction::Fence: in.op = I_NOP; break;
        case Instruction::Call: case Instruction::Invoke: {
          auto &cb = cast<CallBase>(I);
          in.op = isa<InvokeInst>(I) ? I_INVOKE : I_CALL;
          if (auto *iv = dyn_cast<InvokeInst>(&I)) { in.b0 = bm[iv->getNormalDest()]; in.b1 = bm[iv->getUnwindDest()]; }
          for (unsigned i = 0; i < cb.arg_size(); i++) { in.ops.push_back(opd(cb.getArgOperand(i))); in.argN.push_back(nLeaves(cb.getArgOperand(i)->getType())); }
          Function *cf = cb.getCalledFunction();
          if (!cf) { Value *cvv = cb.getCalledOperand()->stripPointerCastsAndAliases(); cf = dyn_cast<Function>(cvv); }
          in.callee = cf;
          if (cf) in.handler = handlerFor(cf);
          else if (cb.isInlineAsm()) in.handler = H_ASM;
          else { in.handler = H_INDIRECT; in.imm = (u64)(int64_t)opd(cb.getCalledOperand()); }
          break;
        }
        default: in.op = I_BAD; break;
      }
      bi.ins.push_back(std::move(in));
    }
  }
  return fi;
}

// ------------------------------------------------------------------ globals
static void initGlobals(State &s) {
  for (auto &F : *M) {
    if (F.isIntrinsic()) continue;
    if (F.hasExternalWeakLinkage() && F.isDeclaration()) continue;
    Obj *o = new Obj; o->kind = K_FUNC; o->size = 0; o->site = &F;
    u32 id = s.mem.add(o);
    gaddr[&F] = baseOf(id);
    fnById[id] = &F;
  }
  for (auto &G : M->globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    Obj *o = new Obj; o->site = &G;
    if (G.isDeclaration()) {
      o->kind = K_EXTERN; o->bias = 2048; o->size = 4096;
      o->d.assign(4096, 0); o->st.assign(4096, B_CONC);
      if (G.getName() == "__libc_single_threaded") o->d[2048] = 1;
    } else {
      o->kind = K_GLOBAL; o->size = DL->getTypeAllocSize(G.getValueType());
      o->d.assign(o->size, 0); o->st.assign(o->size, B_CONC);
    }
    u32 id = s.mem.add(o);
    gaddr[&G] = baseOf(id);
    gvById[id] = &G;
  }
  for (auto &G : M->globals()) {
    if (G.getName().starts_with("llvm.") || G.isDeclaration()) continue;
    u32 id = (u32)(gaddr[&G] >> IDSH);
    Obj *o = s.mem.mut(id);
    const Constant *c = G.getInitializer();
    if (!isa<ConstantAggregateZero>(c)) {
      std::vector<Leaf> l; leavesOf(c->getType(), l);
      std::vector<V> v; evalConst(c, v);
      for (size_t i = 0; i < l.size(); i++) {
        u64 val = v[i].e ? (u64)v[i].e->val : v[i].c;
        memcpy(&o->d[l[i].off], &val, std::min<size_t>(8, (l[i].w + 7) / 8));
      }
    }
    o->ro = G.isConstant();
    o->tls = G.isThreadLocal();
  }
}

// ------------------------------------------------------------------ output
static void jstr(FILE *f, const std::string &s) {
  fputc('"', f);
  for (unsigned char c : s) { if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
  fputc('"', f);
}
static void jinputs(FILE *f, const std::vector<std::pair<std::string, std::string>> &v) {
  fputc('[', f);
  for (size_t i = 0; i < v.size(); i++) { if (i) fputc(',', f); fputc('[', f); jstr(f, v[i].first); fputc(',', f); jstr(f, v[i].second); fputc(']', f); }
  fputc(']', f);
}
static void writeOut() {
  // functions encoded: subprograms of executed instructions (incl. inlined) that live under /repo
  std::map<std::string, std::set<std::string>> fns; // file -> names
  u64 otherFns = 0; std::set<const DISubprogram *> seen;
  u64 blocks = 0;
  for (auto &p : fninfo) {
    if (!p.second) continue;
    for (auto &b : p.second->bbs) {
      if (!b.exec) continue;
      blocks++;
      for (auto &in : b.ins) {
        if (!in.I) continue;
        const DILocation *l = in.I->getDebugLoc().get();
        while (l) {
          if (auto *sp = l->getScope()->getSubprogram()) if (seen.insert(sp).second) {
            std::string fl = sp->getFilename().str();
            auto pos = fl.find("/repo/");
            if (pos == 0) fns[fl.substr(6)].insert(sp->getName().str());
            else otherFns++;
          }
          l = l->getInlinedAt();
        }
      }
    }
  }
  FILE *f = opt.out.empty() ? stdout : fopen(opt.out.c_str(), "w");
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  fprintf(f, "{\"entry\":"); jstr(f, opt.entry);
  fprintf(f, ",\"params\":["); for (size_t i = 0; i < opt.params.size(); i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)opt.params[i]);
  fprintf(f, "],\"paths\":%llu,\"assumed_away\":%llu,\"forks\":%llu,\"insts\":%llu,\"branches\":%llu,\"asserts\":%llu,\"oob_checks\":%llu,\"concretised\":%llu,\"muxes\":%llu,\"viol_paths\":%llu,\"vars\":%zu,\"exprs\":%zu,\"maxwork\":%llu,\"rss_mb\":%ld,\"blocks\":%llu",
    (unsigned long long)stats.paths, (unsigned long long)stats.assumed, (unsigned long long)stats.forks, (unsigned long long)stats.insts, (unsigned long long)stats.branches,
    (unsigned long long)stats.asserts, (unsigned long long)stats.oobChecks, (unsigned long long)stats.conc, (unsigned long long)stats.muxes, (unsigned long long)stats.violPaths, g_vars.size(), g_exprCount, (unsigned long long)stats.maxDepth, ru.ru_maxrss / 1024, (unsigned long long)blocks);
  fprintf(f, ",\"queries\":%llu,\"cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"fp_queries\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f",
    (unsigned long long)g_sst.queries, (unsigned long long)g_sst.cacheHits, (unsigned long long)g_sst.sat, (unsigned long long)g_sst.unsat, (unsigned long long)g_sst.unknown, (unsigned long long)g_sst.fpQueries, g_sst.secs, g_sst.maxSecs, now() - t_start);
  fprintf(f, ",\"covers\":{"); bool first = true;
  for (auto &c : covers) { if (!first) fputc(',', f); first = false; jstr(f, c.first); fprintf(f, ":%llu", (unsigned long long)c.second); }
  fprintf(f, "},\"incomplete\":["); first = true;
  for (auto &c : incomplete) { if (!first) fputc(',', f); first = false; jstr(f, c); }
  fprintf(f, "],\"unknown_ext\":{"); first = true;
  for (auto &c : unknownExt) { if (!first) fputc(',', f); first = false; jstr(f, c.first); fprintf(f, ":%llu", (unsigned long long)c.second); }
  fprintf(f, "},\"violations\":["); first = true;
  for (auto &v : viols) {
    if (!first) fputc(',', f); first = false;
    fprintf(f, "{\"kind\":"); jstr(f, v.kind); fprintf(f, ",\"msg\":"); jstr(f, v.msg); fprintf(f, ",\"loc\":"); jstr(f, v.loc);
    fprintf(f, ",\"undef\":%s,\"inputs\":", v.undef ? "true" : "false"); jinputs(f, v.inputs);
    fprintf(f, ",\"stack\":["); for (size_t i = 0; i < v.stack.size(); i++) { if (i) fputc(',', f); jstr(f, v.stack[i]); }
    fprintf(f, "]}");
  }
  fprintf(f, "],\"samples\":["); first = true;
  for (auto &v : samples) {
    if (!first) fputc(',', f); first = false;
    fprintf(f, "{\"inputs\":"); jinputs(f, v.inputs);
    fprintf(f, ",\"obs\":["); for (size_t i = 0; i < v.obs.size(); i++) fprintf(f, "%s\"%llx\"", i ? "," : "", (unsigned long long)v.obs[i]);
    fprintf(f, "]}");
  }
  fprintf(f, "],\"functions\":{"); first = true;
  for (auto &p : fns) {
    if (!first) fputc(',', f); first = false;
    jstr(f, p.first); fprintf(f, ":["); bool f2 = true;
    for (auto &n : p.second) { if (!f2) fputc(',', f); f2 = false; jstr(f, n); }
    fprintf(f, "]");
  }
  fprintf(f, "},\"other_functions\":%llu}\n", (unsigned long long)otherFns);
  if (f != stdout) fclose(f);
}

#include "exec.inc"

// replaced by handlers: the text that is produced is never inspected
static bool textFn(StringRef n) {
  for (auto p : {"_ZNSt7__cxx119to_stringE", "_ZNSt7__cxx1119basic_ostringstream", "_ZNKRSt7__cxx1119basic_ostringstream", "_ZNKSt7__cxx1119basic_ostringstream", "_ZNOSt7__cxx1119basic_ostringstream", "_ZNSt7__cxx1115basic_stringbuf", "_ZNKRSt7__cxx1115basic_stringbuf", "_ZNKSt7__cxx1115basic_stringbuf", "_ZNOSt7__cxx1115basic_stringbuf"}) if (n.starts_with(p)) return true;
  return false;
}
int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--out") opt.out = nx();
    else if (a == "--entry") opt.entry = nx();
    else if (a == "--param") opt.params.push_back(strtoull(nx().c_str(), nullptr, 0));
    else if (a == "--timeout") opt.timeout = atof(nx().c_str());
    else if (a == "--max-inst") opt.maxInstPath = strtoull(nx().c_str(), nullptr, 0);
    else if (a == "--mux") opt.mux = (unsigned)atoi(nx().c_str());
    else if (a == "--conc-ptr") opt.concPtr = atoi(nx().c_str()) != 0;
    else if (a == "--z3ms") opt.z3ms = (unsigned)atoi(nx().c_str());
    else if (a == "--alloc-limit") opt.allocLimit = strtoull(nx().c_str(), nullptr, 0);
    else if (a == "--max-viol") opt.maxViol = (unsigned)atoi(nx().c_str());
    else if (a == "--samples") opt.samples = (unsigned)atoi(nx().c_str());
    else if (a == "--trace") opt.trace = true;
    else if (a == "--prep") opt.prep = true;
    else if (a == "--seed") rngState += strtoull(nx().c_str(), nullptr, 0) * 0x9E3779B97F4A7C15ull;
    else opt.bc = a;
  }
  t_start = now();
  SMDiagnostic err;
  M = parseIRFile(opt.bc, err, LC);
  if (!M) { err.print("zsym", errs()); return 3; }
  if (opt.prep) {
    // number formatting is modelled (its text is never inspected); keep it out of the inliner's reach
    for (auto &F : *M) if (!F.isDeclaration() && textFn(F.getName())) { F.deleteBody(); F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); }
    std::error_code ec; raw_fd_ostream os(opt.out, ec, sys::fs::OF_None);
    WriteBitcodeToFile(*M, os);
    return ec ? 3 : 0;
  }
  DL = &M->getDataLayout();
  solverInit(opt.z3ms);
  auto *s = new State;
  s->model = std::make_shared<std::vector<u8>>();
  s->bind = std::make_shared<Bindings>();
  s->inputs = std::make_shared<std::vector<InRec>>();
  s->obs = std::make_shared<std::vector<V>>();
  initGlobals(*s);
  Function *E = M->getFunction(opt.entry);
  if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 3; }
  // static constructors first, then the entry (frames pushed in reverse)
  auto push = [&](Function *F) {
    FnInfo *fi = decode(F);
    Frame *f = new Frame; f->f = fi; f->r.assign(fi->nslots, cv(0)); f->noResume = !s->st.empty(); fi->bbs[0].exec = true;
    s->st.push_back(Ref<Frame>(f));
  };
  push(E);
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer())
    if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<u64, Function *>> cs;
      for (auto &o : ca->operands()) {
        auto *st = cast<ConstantStruct>(o);
        if (auto *fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fn});
      }
      std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
      for (size_t i = cs.size(); i-- > 0;) push(cs[i].second);
    }
  pushWork(s);
  runAll();
  writeOut();
  fflush(nullptr);
  _exit(!viols.empty() ? 1 : !incomplete.empty() ? 2 : 0);
}
