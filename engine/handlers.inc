// Builtin handlers: symbolic-input API, libc / libstdc++ runtime pieces that are
// not available as bitcode, and LLVM intrinsics.
enum H : int {
  H_NONE = 0, H_ASM, H_INDIRECT, H_UNKNOWN,
  H_ZS_BYTES, H_ZS_PICK, H_ZS_ASSUME, H_ZS_ASSERT, H_ZS_FAIL, H_ZS_OBSERVE, H_ZS_COVER, H_ZS_PARAM, H_ZS_CONC, H_ZS_NATIVE,
  H_ZS_LEAK_BEGIN, H_ZS_LEAK_END, H_ZS_FREEZE, H_ZS_THAW, H_ZS_FRESH, H_ZS_RANGE, H_ZS_ISSYM, H_ZS_ALIVE, H_ZS_BYTES_AT, H_ZS_INIT, H_ZS_EXTENT,
  H_MALLOC, H_CALLOC, H_REALLOC, H_FREE, H_MEMALIGN, H_ALIGNED_ALLOC,
  H_NEW, H_NEWARR, H_NEW_NT, H_DELETE, H_DELARR,
  H_MEMCPY, H_MEMSET, H_MEMCMP, H_BCMP,
  H_CXA_ALLOC, H_CXA_FREE, H_CXA_THROW, H_CXA_BEGIN, H_CXA_END, H_CXA_RETHROW, H_GUARD_ACQ, H_GUARD_REL,
  H_RET0, H_RETARG0, H_TERMINATE, H_ASSERT_FAIL, H_ABORT,
  H_EXC_CTOR, H_WHAT, H_TO_STRING, H_EMPTY_STRING, H_EXC_DTOR,
  H_INTRIN_NOP, H_LIFE_START, H_LIFE_END, H_UMIN, H_UMAX, H_SMIN, H_SMAX, H_ABS, H_CTLZ, H_CTTZ, H_CTPOP, H_BSWAP, H_BITREV, H_FSHL, H_FSHR,
  H_UADDO, H_USUBO, H_UMULO, H_SADDO, H_SSUBO, H_SMULO, H_UADDSAT, H_USUBSAT, H_EXPECT, H_ASSUME, H_TRAP, H_STACKSAVE, H_ISCONST, H_OBJSIZE,
  H_FABS, H_FLOOR, H_CEIL, H_TRUNCF, H_RINT, H_ROUND, H_SQRT, H_COPYSIGN, H_TYPEIDFOR, H_FMULADD, H_MINNUM, H_MAXNUM, H_LDEXP, H_VECRED_ADD, H_VECRED_OR, H_VECRED_AND,
  H_STRLEN, H_SNPRINTF, H_SPRINTF, H_LOCK, H_UNLOCK, H_OSINSERT, H_OSS_CTOR, H_IS_FPCLASS, H_SADDSAT, H_SSUBSAT,
};
static int handlerFor(Function *F) {
  static std::unordered_map<Function *, int> cache;
  auto it = cache.find(F);
  if (it != cache.end()) return it->second;
  int &h = cache[F];
  h = H_NONE;
  if (F->isIntrinsic()) {
    switch (F->getIntrinsicID()) {
      case Intrinsic::lifetime_start: return h = H_LIFE_START;
      case Intrinsic::lifetime_end: return h = H_LIFE_END;
      case Intrinsic::umin: return h = H_UMIN; case Intrinsic::umax: return h = H_UMAX;
      case Intrinsic::smin: return h = H_SMIN; case Intrinsic::smax: return h = H_SMAX;
      case Intrinsic::abs: return h = H_ABS;
      case Intrinsic::ctlz: return h = H_CTLZ; case Intrinsic::cttz: return h = H_CTTZ; case Intrinsic::ctpop: return h = H_CTPOP;
      case Intrinsic::bswap: return h = H_BSWAP; case Intrinsic::bitreverse: return h = H_BITREV;
      case Intrinsic::fshl: return h = H_FSHL; case Intrinsic::fshr: return h = H_FSHR;
      case Intrinsic::uadd_with_overflow: return h = H_UADDO; case Intrinsic::usub_with_overflow: return h = H_USUBO; case Intrinsic::umul_with_overflow: return h = H_UMULO;
      case Intrinsic::sadd_with_overflow: return h = H_SADDO; case Intrinsic::ssub_with_overflow: return h = H_SSUBO; case Intrinsic::smul_with_overflow: return h = H_SMULO;
      case Intrinsic::uadd_sat: return h = H_UADDSAT; case Intrinsic::usub_sat: return h = H_USUBSAT;
      case Intrinsic::sadd_sat: return h = H_SADDSAT; case Intrinsic::ssub_sat: return h = H_SSUBSAT;
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: return h = H_EXPECT;
      case Intrinsic::assume: return h = H_ASSUME;
      case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: return h = H_TRAP;
      case Intrinsic::stacksave: return h = H_STACKSAVE;
      case Intrinsic::is_constant: return h = H_ISCONST;
      case Intrinsic::objectsize: return h = H_OBJSIZE;
      case Intrinsic::fabs: return h = H_FABS; case Intrinsic::floor: return h = H_FLOOR; case Intrinsic::ceil: return h = H_CEIL; case Intrinsic::trunc: return h = H_TRUNCF;
      case Intrinsic::rint: case Intrinsic::nearbyint: return h = H_RINT; case Intrinsic::round: return h = H_ROUND; case Intrinsic::sqrt: return h = H_SQRT;
      case Intrinsic::copysign: return h = H_COPYSIGN; case Intrinsic::fmuladd: case Intrinsic::fma: return h = H_FMULADD;
      case Intrinsic::minnum: return h = H_MINNUM; case Intrinsic::maxnum: return h = H_MAXNUM;
      case Intrinsic::eh_typeid_for: return h = H_TYPEIDFOR;
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return h = H_MEMCPY;
      case Intrinsic::memset: case Intrinsic::memset_inline: return h = H_MEMSET;
      case Intrinsic::vector_reduce_add: return h = H_VECRED_ADD;
      case Intrinsic::vector_reduce_or: return h = H_VECRED_OR;
      case Intrinsic::vector_reduce_and: return h = H_VECRED_AND;
      case Intrinsic::is_fpclass: return h = H_IS_FPCLASS;
      case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::sideeffect: case Intrinsic::var_annotation:
        return h = H_INTRIN_NOP;
      default: return h = H_UNKNOWN;
    }
  }
  static const std::unordered_map<std::string, int> T = {
    {"zs_bytes", H_ZS_BYTES}, {"zs_pick", H_ZS_PICK}, {"zs_assume", H_ZS_ASSUME}, {"zs_assert_", H_ZS_ASSERT}, {"zs_fail_", H_ZS_FAIL}, {"zs_observe", H_ZS_OBSERVE},
    {"zs_cover", H_ZS_COVER}, {"zs_param", H_ZS_PARAM}, {"zs_conc", H_ZS_CONC}, {"zs_native", H_ZS_NATIVE}, {"zs_freeze", H_ZS_FREEZE}, {"zs_thaw", H_ZS_THAW}, {"zs_leak_begin", H_ZS_LEAK_BEGIN}, {"zs_leak_end", H_ZS_LEAK_END},
    {"zs_readable", H_ZS_ALIVE}, {"zs_initialised", H_ZS_INIT}, {"zs_extent", H_ZS_EXTENT},
    {"malloc", H_MALLOC}, {"calloc", H_CALLOC}, {"realloc", H_REALLOC}, {"free", H_FREE}, {"posix_memalign", H_MEMALIGN}, {"aligned_alloc", H_ALIGNED_ALLOC},
    {"_Znwm", H_NEW}, {"_Znam", H_NEWARR}, {"_ZnwmSt11align_val_t", H_NEW}, {"_ZnamSt11align_val_t", H_NEWARR},
    {"_ZnwmRKSt9nothrow_t", H_NEW_NT}, {"_ZnamRKSt9nothrow_t", H_NEW_NT}, {"_ZnwmSt11align_val_tRKSt9nothrow_t", H_NEW_NT},
    {"_ZdlPv", H_DELETE}, {"_ZdlPvm", H_DELETE}, {"_ZdlPvSt11align_val_t", H_DELETE}, {"_ZdlPvmSt11align_val_t", H_DELETE}, {"_ZdlPvRKSt9nothrow_t", H_DELETE}, {"_ZdlPvSt11align_val_tRKSt9nothrow_t", H_DELETE},
    {"_ZdaPv", H_DELARR}, {"_ZdaPvm", H_DELARR}, {"_ZdaPvSt11align_val_t", H_DELARR}, {"_ZdaPvmSt11align_val_t", H_DELARR},
    {"memcpy", H_MEMCPY}, {"memmove", H_MEMCPY}, {"memset", H_MEMSET}, {"memcmp", H_MEMCMP}, {"bcmp", H_BCMP},
    {"__cxa_allocate_exception", H_CXA_ALLOC}, {"__cxa_free_exception", H_CXA_FREE}, {"__cxa_throw", H_CXA_THROW}, {"__cxa_begin_catch", H_CXA_BEGIN}, {"__cxa_end_catch", H_CXA_END},
    {"__cxa_rethrow", H_CXA_RETHROW}, {"__cxa_guard_acquire", H_GUARD_ACQ}, {"__cxa_guard_release", H_GUARD_REL}, {"__cxa_guard_abort", H_RET0}, {"__cxa_atexit", H_RET0}, {"__cxa_thread_atexit", H_RET0}, {"atexit", H_RET0},
    {"_ZSt9terminatev", H_TERMINATE}, {"abort", H_ABORT}, {"__assert_fail", H_ASSERT_FAIL}, {"__cxa_pure_virtual", H_ABORT}, {"__stack_chk_fail", H_ABORT}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", H_ASSERT_FAIL},
    {"_ZNSt8ios_base4InitC1Ev", H_RET0}, {"_ZNSt8ios_base4InitD1Ev", H_RET0},
    {"ldexp", H_LDEXP}, {"_ZNSt16invalid_argumentC1EPKc", H_EXC_CTOR},
    {"fabs", H_FABS}, {"floor", H_FLOOR}, {"ceil", H_CEIL}, {"trunc", H_TRUNCF}, {"strlen", H_STRLEN}, {"snprintf", H_SNPRINTF}, {"sprintf", H_SPRINTF},
    {"pthread_mutex_lock", H_LOCK}, {"pthread_mutex_trylock", H_LOCK}, {"pthread_rwlock_wrlock", H_LOCK}, {"pthread_rwlock_rdlock", H_LOCK}, {"pthread_mutex_unlock", H_UNLOCK}, {"pthread_rwlock_unlock", H_UNLOCK}, {"pthread_mutex_init", H_RET0}, {"pthread_mutex_destroy", H_RET0}, {"pthread_rwlock_destroy", H_RET0},
  };
  std::string n = F->getName().str();
  auto t = T.find(n);
  if (t != T.end()) return h = t->second;
  if (n.rfind("_ZNSt7__cxx119to_stringE", 0) == 0) return h = H_TO_STRING;
  if (!F->isDeclaration()) return h;
  // std exception classes living in libstdc++.so
  static const char *EX[] = {"13runtime_error", "11logic_error", "16invalid_argument", "12out_of_range", "12length_error", "12domain_error", "11range_error", "14overflow_error", "15underflow_error", "9exception", "9bad_alloc", "8bad_cast", "17bad_function_call", "20bad_array_new_length", "10bad_typeid", "18bad_variant_access", "19bad_optional_access"};
  for (auto e : EX) {
    std::string p = std::string("_ZNSt") + e, pk = std::string("_ZNKSt") + e;
    if (n.rfind(p + "C", 0) == 0 || n.rfind(p + "a", 0) == 0) return h = H_EXC_CTOR;
    if (n == p + "D0Ev") return h = H_DELETE;
    if (n.rfind(p + "D", 0) == 0) return h = H_EXC_DTOR;
    if (n.rfind(pk + "4whatEv", 0) == 0) return h = H_WHAT;
  }
  // text formatting machinery: contents are never inspected by the properties
  if (n.rfind("_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC", 0) == 0) return h = H_OSS_CTOR;
  if (n.find("_ZSt16__ostream_insertIcSt11char_traitsIcEE") == 0) return h = H_OSINSERT;
  if (n.find("basic_ostream") != std::string::npos || n.find("basic_istream") != std::string::npos || n.find("_ZSt4endl") == 0 || n.find("_ZStls") == 0 || n.find("_ZNSo") == 0 || n.find("_ZNSt8ios_base") == 0 || n.find("_ZNSt9basic_ios") == 0 || n.find("_ZNSt6locale") == 0 || n.find("_ZSt16__ostream_insert") == 0) return h = H_RETARG0;
  if (n.find("ostringstream") != std::string::npos || n.find("stringstream") != std::string::npos || n.find("stringbuf") != std::string::npos) {
    if (n.find("3strEv") != std::string::npos) return h = H_EMPTY_STRING;
    return h = H_RETARG0;
  }
  return h = H_UNKNOWN;
}

// ---- type info
static u64 tiId(u64 ti) { static std::map<u64, u64> m; auto it = m.find(ti); if (it != m.end()) return it->second; u64 n = m.size() + 1; return m[ti] = n; }
static std::string tiName(u64 ti) { auto it = gvById.find((u32)(ti >> IDSH)); return it == gvById.end() ? std::string() : it->second->getName().str(); }
static bool tiDerives(u64 ti, const std::string &target, int depth = 0) {
  if (depth > 12) return false;
  std::string n = tiName(ti);
  if (n.empty()) return false;
  if (n == target) return true;
  static const std::map<std::string, std::string> B = {
    {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
    {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}};
  std::string cur = n;
  for (;;) { auto it = B.find(cur); if (it == B.end()) break; cur = it->second; if (cur == target) return true; }
  auto it = gvById.find((u32)(ti >> IDSH));
  if (it == gvById.end() || it->second->isDeclaration()) return false;
  auto *cs = dyn_cast<ConstantStruct>(it->second->getInitializer());
  if (!cs) return false;
  for (unsigned i = 2; i < cs->getNumOperands(); i++)
    if (cs->getOperand(i)->getType()->isPointerTy() && tiDerives(constAddr(cs->getOperand(i)), target, depth + 1)) return true;
  return false;
}

static inline V getv(const Frame &f, int i) { return i >= 0 ? f.r[i] : f.f->consts[-i - 1]; }
static void jumpTo(State &s, Frame &f, int to) {
  BBInfo &b = f.f->bbs[to];
  b.exec = true;
  auto it = b.phi.find(f.bb);
  if (it != b.phi.end()) {
    static std::vector<V> tmp; tmp.clear();
    for (auto &p : it->second) for (int k = 0; k < p.n; k++) tmp.push_back(p.src >= 0 ? f.r[p.src + k] : f.f->consts[-p.src - 1 + k]);
    size_t j = 0;
    for (auto &p : it->second) for (int k = 0; k < p.n; k++) f.r[p.dst + k] = tmp[j++];
  }
  f.bb = to; f.ip = 0;
}
static void killObj(State &s, u32 id, const char *why) {
  Obj *q = s.mem.get(id);
  if (q && q->kind == K_STACK) { // dead stack objects share one record per allocation site
    static std::map<std::tuple<u64, const char *, const Value *>, Ref<Obj>> tomb;
    Ref<Obj> &t = tomb[{q->size, why, q->site}];
    if (!t.p) { Obj *n = new Obj; n->size = q->size; n->site = q->site; n->alive = false; n->why = why; t = Ref<Obj>(n); }
    s.mem.set(id, t); return;
  }
  Obj *o = s.mem.mut(id);
  o->alive = false; o->why = why;
  std::vector<u8>().swap(o->d); std::vector<u8>().swap(o->st); std::vector<Expr *>().swap(o->s);
}
static void popFrame(State &s) {
  std::vector<u32> al = s.st.back()->allocas;
  u64 fr = s.st.back()->freeOnRet;
  s.st.pop_back();
  for (u32 id : al) killObj(s, id, "stack object of a returned function");
  if (fr) killObj(s, (u32)(fr >> IDSH), "destroyed exception object");
}
// continue after the current call instruction of the top frame
static void resumeAfterCall(State &s) {
  Frame &f = s.top();
  In &in = f.f->bbs[f.bb].ins[f.ip];
  if (in.op == I_INVOKE) jumpTo(s, f, in.b0); else f.ip++;
}
static bool unwind(State &s, u64 exc, u64 ti) {
  while (!s.st.empty()) {
    Frame &f = s.top();
    In &in = f.f->bbs[f.bb].ins[f.ip];
    if (in.op == I_INVOKE) {
      BasicBlock *ub = cast<InvokeInst>(in.I)->getUnwindDest();
      LandingPadInst *lp = ub->getLandingPadInst();
      u64 sel = 0; bool enter = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        if (lp->isCatch(i)) {
          u64 ct = constAddr(lp->getClause(i));
          if (ct == 0 || tiDerives(ti, tiName(ct))) { sel = tiId(ct); enter = true; break; }
        } else {
          auto *arr = lp->getClause(i);
          bool allowed = false;
          if (auto *ca = dyn_cast<ConstantArray>(arr)) for (auto &o : ca->operands()) if (tiDerives(ti, tiName(constAddr(cast<Constant>(o))))) allowed = true;
          if (!allowed) { sel = (u64)-1; enter = true; break; }
        }
      }
      if (enter) {
        jumpTo(s, f, in.b1);
        In &l = f.f->bbs[f.bb].ins[0];
        f.r[l.dst] = cv(exc);
        f.r[l.dst + 1] = cv(sel & 0xffffffff);
        f.ip = 1;
        return true;
      }
    }
    if (s.st.size() == 1) break;
    popFrame(s);
  }
  report(s, "uncaught", "exception escapes: " + tiName(ti), *s.model);
  return false;
}

static std::string readCStr(State &s, u64 a) {
  std::string r;
  u32 id = (u32)(a >> IDSH);
  Obj *o = s.mem.get(id);
  if (!o || !o->alive) return "?";
  u64 off = a - baseOf(id) + o->bias;
  while (off < o->size && o->st[off] == B_CONC && o->d[off] && r.size() < 200) r += (char)o->d[off++];
  return r;
}
static void ensureModel(State &s, u8 fill) {
  if (s.model->size() < g_vars.size()) { auto x = std::make_shared<std::vector<u8>>(*s.model); x->resize(g_vars.size(), fill); s.model = x; }
}
// fresh input bytes.  Variables are named by (input ordinal, byte) so that all paths share them.
static u32 inputVars(State &s, const std::string &name, u32 n) {
  static std::map<std::pair<size_t, std::string>, std::vector<u32>> pool; // ordinal+name -> var block(s)
  size_t ord = s.inputs->size();
  auto &blk = pool[{ord, name}];
  u32 v0;
  if (n == 0) v0 = 0;
  else if (blk.size() >= n) v0 = blk[0];
  else {
    v0 = (u32)g_vars.size();
    blk.clear();
    for (u32 i = 0; i < n; i++) { mkVar(name + "[" + std::to_string(i) + "]"); blk.push_back(v0 + i); }
  }
  auto ni = std::make_shared<std::vector<InRec>>(*s.inputs);
  ni->push_back(InRec{name, v0, n});
  s.inputs = ni;
  ensureModel(s, 0);
  return v0;
}
static bool assumeC(State &s, Expr *c) {
  c = simp(s, c);
  if (isTrue(c)) return true;
  if (isFalse(c)) return false;
  if (evalM(s, c)) { addC(s, c); return true; }
  std::shared_ptr<std::vector<u8>> nm;
  if (feasible(s, c, &nm) != R_SAT) return false;
  s.model = nm;
  addC(s, c);
  return true;
}

enum HR { HR_OK, HR_DEAD, HR_JUMP, HR_END };
static V boolE(Expr *c) { return fromE(c); }

static void throwStd(State &s, const char *tiname, HR &hr) {
  GlobalVariable *g = M->getGlobalVariable(tiname, true);
  u32 id = allocObj(s, 64, K_EXC, nullptr);
  u64 ti = g && gaddr.count(g) ? gaddr[g] : 0;
  s.excs.push_back(ExcInfo{baseOf(id), ti, 0, 0, false});
  hr = unwind(s, baseOf(id), ti) ? HR_JUMP : HR_DEAD;
}
// returns false when path is dead / forked away
static bool allocSize(State &s, V sz, u64 &n, bool &tooBig) {
  tooBig = false;
  if (sz.e) {
    int d = decide(s, mkUlt(mkConst(opt.allocLimit, 64), sz.e));
    if (d) { tooBig = true; return true; }
    if (!concretize(s, sz.e, n)) return false;
  } else n = sz.c;
  if (n > opt.allocLimit) tooBig = true;
  return true;
}
static bool freeObj(State &s, u64 p, Kind k, const char *fn) {
  if (!p) return true;
  u32 id = (u32)(p >> IDSH);
  Obj *o = s.mem.get(id);
  if (!o || p != baseOf(id) || (o->kind != K_MALLOC && o->kind != K_NEW && o->kind != K_NEWARR && o->kind != K_EXC)) { report(s, "memory", std::string(fn) + ": not a heap object", *s.model); return false; }
  if (!o->alive) { report(s, "memory", std::string(fn) + ": double free", *s.model); return false; }
  if (o->kind != k) { report(s, "memory", std::string(fn) + ": mismatched deallocation of " + objDesc(o), *s.model); return false; }
  if (s.frozen && id < s.frozen && !s.guardDepth) { report(s, "shared", std::string(fn) + " of an object another thread may be reading (" + objDesc(o) + ")", *s.model); return false; }
  killObj(s, id, "freed object");
  return true;
}

static std::vector<u8> rndState;
static HR execHandler(State &s, In &in, Frame &f, int h, Function *callee) {
  std::vector<V> A;
  for (size_t i = 0; i < in.ops.size(); i++) if (in.ops[i] != INT32_MIN) for (int k = 0; k < in.argN[i]; k++) A.push_back(in.ops[i] >= 0 ? f.r[in.ops[i] + k] : f.f->consts[-in.ops[i] - 1 + k]); else A.push_back(cv(0));
  auto C = [&](int i, u64 &o) -> bool { if (!A[i].e) { o = A[i].c; return true; } bool r = concretize(s, A[i].e, o); return r; };
  auto ret = [&](V v) { if (in.dst >= 0) s.top().r[in.dst] = v; };
  auto w0 = [&]() { return (unsigned)in.w; };
  HR hr = HR_OK;
  switch (h) {
    case H_ASM: {
      auto *ia = cast<InlineAsm>(cast<CallBase>(in.I)->getCalledOperand());
      if (!ia->getAsmString().empty()) { incompl("inline asm"); return HR_DEAD; }
      if (in.dst >= 0 && !A.empty()) ret(A[0]);
      return HR_OK;
    }
    case H_ZS_BYTES: {
      u64 p, n, nm; if (!C(0, p) || !C(1, n) || !C(2, nm)) return HR_DEAD;
      u32 id; u64 off;
      std::string name = readCStr(s, nm);
      if (n == 0) { inputVars(s, name, 0); return HR_OK; }
      if (!checkConc(s, p, n, true, id, off, "zs_bytes")) return HR_DEAD;
      u32 v0 = inputVars(s, name, (u32)n);
      Obj *o = s.mem.mut(id);
      if (o->s.size() < o->size) o->s.resize(o->size, nullptr);
      o->anySym = true;
      for (u64 i = 0; i < n; i++) { o->s[off + i] = varExpr(v0 + (u32)i); o->st[off + i] = B_SYM; }
      return HR_OK;
    }
    case H_ZS_PICK: {
      u64 n, nm; if (!C(0, n) || !C(1, nm)) return HR_DEAD;
      if (n == 0 || n > 65536) { incompl("bad zs_pick"); return HR_DEAD; }
      std::string name = readCStr(s, nm);
      // fork all choices directly: the sibling re-executes this call, so record the
      // already chosen value in the input list instead
      u32 v0 = inputVars(s, name, 4);
      auto commit = [&](State &t, u64 v) {
        auto x = std::make_shared<std::vector<u8>>(*t.model);
        if (x->size() < g_vars.size()) x->resize(g_vars.size(), 0);
        for (int i = 0; i < 4; i++) { (*x)[v0 + i] = (u8)(v >> (8 * i)); }
        t.model = x;
        for (int i = 0; i < 4; i++) addC(t, mkEq(varExpr(v0 + i), mkConst((v >> (8 * i)) & 255, 8)));
        t.top().r[in.dst] = cv(v);
      };
      for (u64 v = n - 1; v > 0; v--) {
        State *nst = forkState(s);
        commit(*nst, v);
        resumeAfterCall(*nst);
        pushWork(nst);
      }
      commit(s, 0);
      return HR_OK;
    }
    case H_ZS_ASSUME: {
      Expr *c = mkNot(mkEq(toE(A[0], 32), mkConst(0, 32)));
      if (!assumeC(s, c)) { stats.assumed++; return HR_DEAD; }
      return HR_OK;
    }
    case H_ZS_ASSERT: {
      Expr *c = simp(s, mkNot(mkEq(toE(A[0], 32), mkConst(0, 32))));
      stats.asserts++;
      if (isTrue(c)) return HR_OK;
      std::shared_ptr<std::vector<u8>> nm;
      SatRes r = isFalse(c) ? R_SAT : feasible(s, mkNot(c), &nm);
      if (r == R_SAT) {
        std::string msg = readCStr(s, A[1].c);
        report(s, "assert", msg, nm ? *nm : *s.model, dependsUndef(c));
        if (isFalse(c)) return HR_DEAD;
        if (!assumeC(s, c)) return HR_DEAD;
      }
      else if (r == R_UNSAT) addC(s, c);
      return HR_OK;
    }
    case H_ZS_FAIL: stats.asserts++; report(s, "assert", readCStr(s, A[0].c), *s.model); return HR_DEAD;
    case H_ZS_OBSERVE: { auto n = std::make_shared<std::vector<V>>(*s.obs); n->push_back(A[0]); s.obs = n; return HR_OK; }
    case H_ZS_COVER: covers[readCStr(s, A[0].c)]++; return HR_OK;
    case H_ZS_PARAM: { u64 i; if (!C(0, i)) return HR_DEAD; ret(cv(i < opt.params.size() ? opt.params[i] : 0)); return HR_OK; }
    case H_ZS_CONC: { u64 v; if (!C(0, v)) return HR_DEAD; ret(cv(v)); return HR_OK; }
    case H_ZS_NATIVE: ret(cv(0)); return HR_OK;
    case H_ZS_FREEZE: {
      s.frozen = s.mem.n; s.guardDepth = 0;
      for (auto &G : M->globals()) if (G.getName() == "__libc_single_threaded") { Obj *o = s.mem.mut((u32)(gaddr[&G] >> IDSH)); o->d[o->bias] = 0; }
      return HR_OK;
    }
    case H_ZS_THAW: s.frozen = 0; return HR_OK;
    case H_ZS_LEAK_BEGIN: s.leakCheck = true; s.leakBase = s.mem.n; return HR_OK;
    case H_ZS_LEAK_END: {
      for (u32 i = s.leakBase; i < s.mem.n; i++) { Obj *o = s.mem.get(i); if (o && o->alive && (o->kind == K_MALLOC || o->kind == K_NEW || o->kind == K_NEWARR)) { report(s, "leak", "memory leak: " + objDesc(o), *s.model); return HR_DEAD; } }
      s.leakCheck = false;
      return HR_OK;
    }
    case H_ZS_ALIVE: { // is [p, p+n) entirely inside one live object?
      u64 n; if (!C(1, n)) return HR_DEAD;
      u64 a;
      if (A[0].e) { if (!concretize(s, A[0].e, a)) return HR_DEAD; } else a = A[0].c;
      u32 id = (u32)(a >> IDSH); Obj *o = s.mem.get(id);
      bool ok = n == 0 || (o && o->alive && !o->scoped && o->kind != K_FUNC && a - baseOf(id) + o->bias <= o->size && n <= o->size - (a - baseOf(id) + o->bias));
      ret(cv(ok)); return HR_OK;
    }
    case H_ZS_INIT: { // all bytes initialised?
      u64 a, n; if (!C(0, a) || !C(1, n)) return HR_DEAD;
      if (!n) { ret(cv(1)); return HR_OK; }
      u32 id; u64 off; if (!checkConc(s, a, n, false, id, off, "zs_initialised")) return HR_DEAD;
      Obj *o = s.mem.get(id); bool ok = true;
      for (u64 i = 0; i < n && ok; i++) if (o->st[off + i] == B_UNINIT || (o->st[off + i] == B_SYM && dependsUndef(o->s[off + i]))) ok = false;
      ret(cv(ok)); return HR_OK;
    }
    case H_MALLOC: case H_NEW: case H_NEWARR: case H_NEW_NT: {
      u64 n; bool big; if (!allocSize(s, A[0], n, big)) return HR_DEAD;
      if (big) { if (h == H_MALLOC || h == H_NEW_NT) { ret(cv(0)); return HR_OK; } throwStd(s, "_ZTISt9bad_alloc", hr); return hr; }
      u32 id = allocObj(s, n, h == H_MALLOC ? K_MALLOC : h == H_NEWARR ? K_NEWARR : K_NEW, in.I);
      ret(cv(baseOf(id))); return HR_OK;
    }
    case H_CALLOC: {
      u64 a, b; if (!C(0, a) || !C(1, b)) return HR_DEAD;
      if (a && b > opt.allocLimit / a) { ret(cv(0)); return HR_OK; }
      u32 id = allocObj(s, a * b, K_MALLOC, in.I);
      Obj *o = s.mem.mut(id); std::fill(o->d.begin(), o->d.end(), 0); std::fill(o->st.begin(), o->st.end(), B_CONC);
      ret(cv(baseOf(id))); return HR_OK;
    }
    case H_REALLOC: {
      u64 p, n; bool big; if (!C(0, p) || !allocSize(s, A[1], n, big)) return HR_DEAD;
      if (big) { ret(cv(0)); return HR_OK; }
      u32 id = allocObj(s, n, K_MALLOC, in.I);
      if (p) {
        Obj *o = s.mem.get((u32)(p >> IDSH));
        if (!o || !o->alive || o->kind != K_MALLOC) { report(s, "memory", "realloc of invalid pointer", *s.model); return HR_DEAD; }
        if (!copyBytes(s, baseOf(id), p, std::min(n, o->size))) return HR_DEAD;
        if (!freeObj(s, p, K_MALLOC, "realloc")) return HR_DEAD;
      }
      ret(cv(baseOf(id))); return HR_OK;
    }
    case H_MEMALIGN: {
      u64 pp, n; bool big; if (!C(0, pp) || !allocSize(s, A[2], n, big)) return HR_DEAD;
      if (big) { ret(cv(12)); return HR_OK; }
      u32 id = allocObj(s, n, K_MALLOC, in.I);
      std::vector<Leaf> l{Leaf{64, 0}}; V v = cv(baseOf(id));
      if (!storeLeaves(s, cv(pp), 8, l, &v, 8)) return HR_DEAD;
      ret(cv(0)); return HR_OK;
    }
    case H_ALIGNED_ALLOC: {
      u64 n; bool big; if (!allocSize(s, A[1], n, big)) return HR_DEAD;
      if (big) { ret(cv(0)); return HR_OK; }
      ret(cv(baseOf(allocObj(s, n, K_MALLOC, in.I)))); return HR_OK;
    }
    case H_FREE: case H_DELETE: case H_DELARR: {
      u64 p; if (!C(0, p)) return HR_DEAD;
      return freeObj(s, p, h == H_FREE ? K_MALLOC : h == H_DELETE ? K_NEW : K_NEWARR, h == H_FREE ? "free" : "delete") ? HR_OK : HR_DEAD;
    }
    case H_MEMCPY: {
      u64 n, d, sr;
      if (A[2].e) {
        // a provably out-of-range copy must be reported before sizes are enumerated
        if (!concretize(s, A[2].e, n)) return HR_DEAD;
      } else n = A[2].c;
      if (n && (!concAddr(s, A[0], n, true, d, "memcpy destination") || !concAddr(s, A[1], n, false, sr, "memcpy source"))) return HR_DEAD;
      if (n && !copyBytes(s, d, sr, n)) return HR_DEAD;
      ret(A[0]); return HR_OK;
    }
    // what a lock protects is taken to be ordered by it
    case H_LOCK: s.guardDepth++; ret(cv(0)); return HR_OK;
    case H_UNLOCK: if (s.guardDepth) s.guardDepth--; ret(cv(0)); return HR_OK;
    case H_SNPRINTF: case H_SPRINTF: {
      auto &CB = *cast<CallBase>(in.I);
      // text: exact where the arguments are known, otherwise '?' of the right length for hexadecimal and
      // unsigned numbers (shortest and longest forms are separate paths), six characters for anything else
      bool bounded = h == H_SNPRINTF;
      u64 n = ~0ull; if (bounded && !C(1, n)) return HR_DEAD;
      unsigned fi = bounded ? 2 : 1, ai = fi + 1;
      u64 fp; if (!C(fi, fp)) return HR_DEAD;
      std::string fmt, out;
      for (u64 i = 0;; i++) { u32 id; u64 off; if (!checkConc(s, fp + i, 1, false, id, off, "format")) return HR_DEAD; V b = readLeaf(s, id, off, 8); if (b.e) { fmt.clear(); out = "??????"; break; } if (!b.c) break; fmt.push_back((char)b.c); }
      for (size_t i = 0; i < fmt.size(); i++) {
        if (fmt[i] != '%') { out.push_back(fmt[i]); continue; }
        if (i + 1 < fmt.size() && fmt[i + 1] == '%') { out.push_back('%'); i++; continue; }
        size_t j = fmt.find_first_of("diuxXocsfFeEgGpn", i + 1);
        if (j == std::string::npos || ai >= CB.arg_size()) { out += "??????"; break; }
        std::string sp = fmt.substr(i, j - i + 1); char cc = fmt[j]; i = j;
        V v = A[ai]; Type *ty = CB.getArgOperand(ai)->getType(); ai++;
        char tmp[512]; u64 len = 6;
        unsigned w = ty->isIntegerTy() ? ty->getIntegerBitWidth() : 64;
        if (sp.find('*') != std::string::npos || cc == 's' || cc == 'n' || cc == 'p' || w > 64) { out += "??????"; continue; }
        std::string f2 = "%"; for (char c : sp.substr(1, sp.size() - 2)) if (!strchr("lhzjtqL", c)) f2.push_back(c);
        bool fl = strchr("fFeEgG", cc) != nullptr;
        if (fl) {
          f2.push_back(cc); double d; u64 rep = 0x81b2f684bda12f68ull; // -5.6e-301, a long one
          bool known = !v.e; if (v.e) known = decide(s, mkEq(v.e, mkConst(rep, 64)));
          u64 bits = v.e ? rep : v.c; memcpy(&d, &bits, 8);
          if (known && snprintf(tmp, sizeof tmp, f2.c_str(), d) < (int)sizeof tmp) out += tmp; else out += "??????";
          continue;
        }
        if (cc == 'c') { out.push_back('?'); continue; }
        f2 += "ll"; f2.push_back(cc);
        auto text = [&](u64 x) { if ((cc == 'd' || cc == 'i') && w < 64) x = (u64)((int64_t)(x << (64 - w)) >> (64 - w)); snprintf(tmp, sizeof tmp, f2.c_str(), (unsigned long long)x); return std::string(tmp); };
        if (!v.e) { out += text(v.c); continue; }
        u64 top = mask64(w), low = 1; // low: first value longer than the text of 0
        if (cc == 'd' || cc == 'i') { if (decide(s, mkEq(v.e, mkConst(1ull << (w - 1), w)))) { out += text(1ull << (w - 1)); continue; } out += "??????"; continue; }
        size_t l0 = text(0).size(), l1 = text(top).size(); u64 base = cc == 'u' ? 10 : cc == 'o' ? 8 : 16;
        if (l0 == l1) { out.append(l0, '?'); continue; }
        for (size_t k = 0; k < l0; k++) low *= base;
        len = l0;
        if (!decide(s, mkUlt(v.e, mkConst(low, w)))) {
          u64 hi = low; size_t lh = l0 + 1; while (lh < l1) { hi *= base; lh++; }
          len = decide(s, mkUlt(v.e, mkConst(hi, w))) ? l0 + 1 : l1;
        }
        out.append(len, '?');
      }
      if (n) {
        u64 k = std::min<u64>(n - 1, out.size()), d; u32 id; u64 off;
        if (!concAddr(s, A[0], k + 1, true, d, bounded ? "snprintf" : "sprintf") || !checkConc(s, d, k + 1, true, id, off, bounded ? "snprintf" : "sprintf")) return HR_DEAD;
        for (u64 i = 0; i <= k; i++) writeLeaf(s, id, off + i, 8, cv(i < k ? (unsigned char)out[i] : 0));
      }
      ret(cv(out.size())); return HR_OK;
    }
    case H_OSS_CTOR: { // an empty text stream (libstdc++ 13 layout): what is printed is checked and dropped
      u32 id; u64 off, p = A[0].c;
      if (!checkConc(s, p, 376, true, id, off, "ostringstream")) return HR_DEAD;
      u32 vt = allocObj(s, 64, K_GLOBAL, nullptr);
      for (int i = 0; i < 8; i++) writeLeaf(s, vt, i * 8, 64, cv(i == 0 ? 112 : 0));
      for (u64 i = 0; i < 376; i += 8) writeLeaf(s, id, off + i, 64, cv(0));
      writeLeaf(s, id, off, 64, cv(baseOf(vt) + 24));
      writeLeaf(s, id, off + 80, 64, cv(p + 96));
      writeLeaf(s, id, off + 336, 8, cv(' ')); writeLeaf(s, id, off + 337, 8, cv(1)); // fill character
      return HR_OK;
    }
    case H_OSINSERT: { // what is printed must be readable
      u64 n, d; if (!C(2, n)) return HR_DEAD;
      if (n) { u32 id; u64 off; if (!concAddr(s, A[1], n, false, d, "printing")) return HR_DEAD; if (!checkConc(s, d, n, false, id, off, "printing")) return HR_DEAD; }
      ret(A[0]); return HR_OK;
    }
    case H_MEMSET: {
      u64 n, d; if (!C(2, n)) return HR_DEAD;
      if (n) {
        u32 id; u64 off;
        if (!concAddr(s, A[0], n, true, d, "memset")) return HR_DEAD;
        if (!checkConc(s, d, n, true, id, off, "memset")) return HR_DEAD;
        V b = A[1]; if (b.e) b = fromE(mkExtract(b.e, 0, 8));
        Obj *o = s.mem.mut(id);
        if (!b.e) { memset(&o->d[off], (int)b.c, n); memset(&o->st[off], B_CONC, n); }
        else { for (u64 i = 0; i < n; i++) writeLeaf(s, id, off + i, 8, b); }
      }
      ret(A[0]); return HR_OK;
    }
    case H_MEMCMP: case H_BCMP: {
      u64 n, a, b; if (!C(2, n)) return HR_DEAD;
      if (!n) { ret(cv(0)); return HR_OK; }
      if (!concAddr(s, A[0], n, false, a, "memcmp") || !concAddr(s, A[1], n, false, b, "memcmp")) return HR_DEAD;
      u32 ia, ib; u64 oa, ob;
      if (!checkConc(s, a, n, false, ia, oa, "memcmp") || !checkConc(s, b, n, false, ib, ob, "memcmp")) return HR_DEAD;
      ensureUndef(s, ia, oa, n); ensureUndef(s, ib, ob, n);
      Obj *x = s.mem.get(ia), *y = s.mem.get(ib);
      if (h == H_BCMP) {
        Expr *eq = mkTrue();
        for (u64 i = 0; i < n && !isFalse(eq); i++) {
          if (x->st[oa + i] == B_CONC && y->st[ob + i] == B_CONC) { if (x->d[oa + i] != y->d[ob + i]) eq = mkFalse(); continue; }
          eq = mkAnd(eq, mkEq(byteE(x, oa + i), byteE(y, ob + i)));
        }
        ret(fromE(mkZext(mkNot(eq), 32))); return HR_OK;
      }
      u64 m = n;
      for (u64 i = 0; i < n; i++) if (x->st[oa + i] == B_CONC && y->st[ob + i] == B_CONC && x->d[oa + i] != y->d[ob + i]) { m = i + 1; break; }
      Expr *acc = mkConst(0, 32);
      for (u64 i = m; i-- > 0;) {
        Expr *p = byteE(x, oa + i), *q = byteE(y, ob + i);
        acc = mkIte(mkEq(p, q), acc, mkSub(mkZext(p, 32), mkZext(q, 32)));
      }
      ret(fromE(acc)); return HR_OK;
    }
    case H_STRLEN: {
      u64 a; if (!C(0, a)) return HR_DEAD;
      u32 id; u64 off;
      for (u64 i = 0;; i++) {
        if (!checkConc(s, a + i, 1, false, id, off, "strlen")) return HR_DEAD;
        V b = readLeaf(s, id, off, 8);
        if (!b.e) { if (b.c == 0) { ret(cv(i)); return HR_OK; } continue; }
        int d = decide(s, mkEq(b.e, mkConst(0, 8)));
        if (d) { ret(cv(i)); return HR_OK; }
      }
    }
    case H_CXA_ALLOC: { u64 n; if (!C(0, n)) return HR_DEAD; ret(cv(baseOf(allocObj(s, n, K_EXC, in.I)))); return HR_OK; }
    case H_CXA_FREE: killObj(s, (u32)(A[0].c >> IDSH), "freed exception"); return HR_OK;
    case H_CXA_THROW: s.excs.push_back(ExcInfo{A[0].c, A[1].c, A[2].c, 0, false}); return unwind(s, A[0].c, A[1].c) ? HR_JUMP : HR_DEAD;
    case H_CXA_BEGIN: {
      for (auto &x : s.excs) if (x.addr == A[0].c) { x.count++; x.rethrown = false; }
      s.caught.push_back(A[0].c); ret(A[0]); return HR_OK;
    }
    case H_CXA_END: {
      if (s.caught.empty()) return HR_OK;
      u64 a = s.caught.back(); s.caught.pop_back();
      for (size_t i = 0; i < s.excs.size(); i++) if (s.excs[i].addr == a) {
        auto &x = s.excs[i];
        if (--x.count == 0 && !x.rethrown) {
          u64 dt = x.dtor;
          s.excs.erase(s.excs.begin() + i);
          auto it = fnById.find((u32)(dt >> IDSH));
          if (dt && it != fnById.end() && !it->second->isDeclaration()) {
            FnInfo *fi = decode(it->second);
            Frame *nf = new Frame; nf->f = fi; nf->r.assign(fi->nslots, cv(0)); nf->freeOnRet = a; nf->discard = true;
            if (!fi->argSlot.empty()) nf->r[fi->argSlot[0]] = cv(a);
            fi->bbs[0].exec = true;
            s.st.push_back(Ref<Frame>(nf));
            return HR_JUMP;
          }
          killObj(s, (u32)(a >> IDSH), "destroyed exception object");
        }
        break;
      }
      return HR_OK;
    }
    case H_CXA_RETHROW: {
      if (s.caught.empty()) { report(s, "terminate", "rethrow without exception", *s.model); return HR_DEAD; }
      u64 a = s.caught.back();
      for (auto &x : s.excs) if (x.addr == a) { x.rethrown = true; return unwind(s, a, x.ti) ? HR_JUMP : HR_DEAD; }
      return HR_DEAD;
    }
    case H_GUARD_ACQ: { u32 id; u64 off; if (!checkConc(s, A[0].c, 8, true, id, off, "guard")) return HR_DEAD; V v = readLeaf(s, id, off, 8); if (v.c == 0) s.guardDepth++; ret(cv(v.c == 0)); return HR_OK; }
    case H_GUARD_REL: { u32 id; u64 off; if (!checkConc(s, A[0].c, 8, true, id, off, "guard")) return HR_DEAD; if (s.guardDepth) s.guardDepth--; writeLeaf(s, id, off, 8, cv(1)); return HR_OK; }
    case H_RET0: ret(cv(0)); return HR_OK;
    case H_RETARG0: case H_EXC_CTOR: ret(A.empty() ? cv(0) : A[0]); return HR_OK;
    case H_EXC_DTOR: return HR_OK;
    case H_WHAT: { static u64 a = 0; if (!a || true) { u32 id = allocObj(s, 2, K_GLOBAL, nullptr); Obj *o = s.mem.mut(id); o->d = {'?', 0}; o->st = {0, 0}; a = baseOf(id); } ret(cv(a)); return HR_OK; }
    case H_TO_STRING: case H_EMPTY_STRING: {
      u64 p = A[0].c; u32 id; u64 off;
      if (!checkConc(s, p, 32, true, id, off, "to_string")) return HR_DEAD;
      bool q = h == H_TO_STRING;
      writeLeaf(s, id, off, 64, cv(p + 16)); writeLeaf(s, id, off + 8, 64, cv(q ? 1 : 0));
      writeLeaf(s, id, off + 16, 8, cv(q ? '?' : 0)); writeLeaf(s, id, off + 17, 8, cv(0));
      return HR_OK;
    }
    case H_TERMINATE: report(s, "terminate", "std::terminate called", *s.model); return HR_DEAD;
    case H_ABORT: case H_TRAP: report(s, "abort", "abort/trap reached", *s.model); return HR_DEAD;
    case H_ASSERT_FAIL: report(s, "abort", "library assertion failed: " + readCStr(s, A[h == H_ASSERT_FAIL && callee->getName() == "__assert_fail" ? 0 : 3].c), *s.model); return HR_DEAD;
    case H_INTRIN_NOP: return HR_OK;
    case H_LIFE_START: case H_LIFE_END: {
      u64 p = A[1].c; if (A[1].e) return HR_OK;
      u32 id = (u32)(p >> IDSH); Obj *o = s.mem.get(id);
      if (!o || o->kind != K_STACK || !o->alive || p != baseOf(id)) return HR_OK;
      o = s.mem.mut(id);
      if (h == H_LIFE_START) { o->scoped = false; std::fill(o->st.begin(), o->st.end(), B_UNINIT); }
      else { o->scoped = true; o->why = "stack object out of scope"; }
      return HR_OK;
    }
    case H_EXPECT: for (size_t k = 0; k < in.leaves.size(); k++) s.top().r[in.dst + k] = A[k]; return HR_OK;
    case H_ASSUME: { // an llvm.assume that can fail is undefined behaviour; treat like unreachable
      if (!A[0].e) { if (!A[0].c) { report(s, "unreachable", "llvm.assume(false)", *s.model); return HR_DEAD; } return HR_OK; }
      return HR_OK;
    }
    case H_STACKSAVE: ret(cv(0)); return HR_OK;
    case H_ISCONST: ret(cv(0)); return HR_OK;
    case H_OBJSIZE: ret(cv(A[1].c ? 0 : mask64(w0()))); return HR_OK;
    case H_TYPEIDFOR: ret(cv(tiId(A[0].c))); return HR_OK;
    default: break;
  }
  // element-wise integer / fp intrinsics
  size_t N = in.leaves.size();
  auto vecret = [&](auto fn) { for (size_t k = 0; k < N; k++) s.top().r[in.dst + k] = fn(k); };
  unsigned w = in.w;
  auto E = [&](size_t arg, size_t k) { return toE(A[arg * N + k], w); };
  auto conc2 = [&](size_t k, u64 &a, u64 &b) { if (A[k].e || A[N + k].e) return false; a = A[k].c; b = A[N + k].c; return true; };
  switch (h) {
    case H_UMIN: case H_UMAX: case H_SMIN: case H_SMAX: vecret([&](size_t k) {
        u64 a, b;
        if (w <= 64 && conc2(k, a, b)) { bool lt = (h == H_UMIN || h == H_UMAX) ? a < b : sxt(a, w) < sxt(b, w); bool mn = h == H_UMIN || h == H_SMIN; return cv(lt == mn ? a : b); }
        Expr *x = E(0, k), *y = E(1, k);
        Expr *lt = (h == H_UMIN || h == H_UMAX) ? mkUlt(x, y) : mkSlt(x, y);
        return fromE((h == H_UMIN || h == H_SMIN) ? mkIte(lt, x, y) : mkIte(lt, y, x)); });
      return HR_OK;
    case H_ABS: vecret([&](size_t k) { Expr *x = E(0, k); return fromE(mkIte(mkSlt(x, mkConst(0, w)), mkSub(mkConst(0, w), x), x)); }); return HR_OK;
    case H_CTLZ: case H_CTTZ: vecret([&](size_t k) {
        Expr *x = E(0, k); Expr *r = mkConst(w, w);
        for (unsigned i = 0; i < w; i++) { unsigned bit = h == H_CTLZ ? i : w - 1 - i; r = mkIte(mkExtract(x, bit, 1), mkConst(h == H_CTLZ ? w - 1 - bit : bit, w), r); }
        return fromE(r); });
      return HR_OK;
    case H_CTPOP: vecret([&](size_t k) { Expr *x = E(0, k); Expr *r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZext(mkExtract(x, i, 1), w)); return fromE(r); }); return HR_OK;
    case H_BSWAP: vecret([&](size_t k) { Expr *x = E(0, k); std::vector<Expr *> sg; for (int i = (int)w / 8 - 1; i >= 0; i--) sg.push_back(mkExtract(x, i * 8, 8)); return fromE(mkConcatSegs(sg)); }); return HR_OK;
    case H_BITREV: vecret([&](size_t k) { Expr *x = E(0, k); std::vector<Expr *> sg; for (int i = (int)w - 1; i >= 0; i--) sg.push_back(mkExtract(x, i, 1)); return fromE(mkConcatSegs(sg)); }); return HR_OK;
    case H_FSHL: case H_FSHR: {
      for (size_t k = 0; k < N; k++) {
        V sh = A[2 * N + k];
        if (sh.e) {
          Expr *m = mkAnd(sh.e, mkConst(w - 1, w)); // power-of-two widths
          Expr *x = E(0, k), *y = E(1, k);
          Expr *inv = mkSub(mkConst(w, w), m);
          Expr *r = h == H_FSHL ? mkIte(mkEq(m, mkConst(0, w)), x, mkOr(mkShl(x, m), mkLshr(y, inv))) : mkIte(mkEq(m, mkConst(0, w)), y, mkOr(mkShl(x, inv), mkLshr(y, m)));
          s.top().r[in.dst + k] = fromE(r);
          continue;
        }
        unsigned c = (unsigned)(sh.c % w);
        Expr *x = E(0, k), *y = E(1, k);
        Expr *r;
        if (h == H_FSHL) r = c == 0 ? x : mkConcat(mkExtract(x, 0, w - c), mkExtract(y, w - c, c));
        else r = c == 0 ? y : mkConcat(mkExtract(x, 0, c), mkExtract(y, c, w - c));
        s.top().r[in.dst + k] = fromE(r);
      }
      return HR_OK;
    }
    case H_UADDO: case H_USUBO: case H_UMULO: case H_SADDO: case H_SSUBO: case H_SMULO: {
      Expr *x = toE(A[0], w), *y = toE(A[1], w), *r, *o;
      if (h == H_UADDO) { r = mkAdd(x, y); o = mkUlt(r, x); }
      else if (h == H_USUBO) { r = mkSub(x, y); o = mkUlt(x, y); }
      else if (h == H_UMULO) {
        r = mkMul(x, y);
        if (y->isC() || x->isC()) { Expr *k = y->isC() ? y : x, *v = y->isC() ? x : y; o = k->val == 0 ? mkFalse() : mkUlt(mkConst(maskw(w) / k->val, w), v); }
        else { Expr *p = mkMul(mkZext(x, 2 * w), mkZext(y, 2 * w)); o = mkNot(mkEq(mkExtract(p, w, w), mkConst(0, w))); }
      } else {
        unsigned W = h == H_SMULO ? 2 * w : w + 1;
        if (W > 128) { incompl("wide overflow op"); return HR_DEAD; }
        Expr *X = mkSext(x, W), *Y = mkSext(y, W);
        Expr *p = h == H_SADDO ? mkAdd(X, Y) : h == H_SSUBO ? mkSub(X, Y) : mkMul(X, Y);
        r = mkExtract(p, 0, w); o = mkNot(mkEq(p, mkSext(r, W)));
      }
      Frame &t = s.top(); t.r[in.dst] = fromE(r); t.r[in.dst + 1] = fromE(o); return HR_OK;
    }
    case H_UADDSAT: vecret([&](size_t k) { Expr *x = E(0, k), *y = E(1, k); Expr *r = mkAdd(x, y); return fromE(mkIte(mkUlt(r, x), mkConst(maskw(w), w), r)); }); return HR_OK;
    case H_USUBSAT: vecret([&](size_t k) { Expr *x = E(0, k), *y = E(1, k); return fromE(mkIte(mkUlt(x, y), mkConst(0, w), mkSub(x, y))); }); return HR_OK;
    case H_FABS: vecret([&](size_t k) { return fromE(mkAnd(E(0, k), mkConst(maskw(w - 1), w))); }); return HR_OK;
    case H_COPYSIGN: vecret([&](size_t k) { return fromE(mkConcat(mkExtract(E(1, k), w - 1, 1), mkExtract(E(0, k), 0, w - 1))); }); return HR_OK;
    case H_FLOOR: case H_CEIL: case H_TRUNCF: case H_RINT: case H_ROUND: vecret([&](size_t k) { return fromE(mkFp(O_FROUND, w, E(0, k), nullptr, h == H_FLOOR ? 0 : h == H_CEIL ? 1 : h == H_TRUNCF ? 2 : h == H_RINT ? 3 : 4)); }); return HR_OK;
    case H_SQRT: vecret([&](size_t k) { return fromE(mkFp(O_FSQRT, w, E(0, k), nullptr)); }); return HR_OK;
    case H_FMULADD: vecret([&](size_t k) { return fromE(mkFp(O_FADD, w, mkFp(O_FMUL, w, E(0, k), E(1, k)), E(2, k))); }); return HR_OK;
    case H_MINNUM: case H_MAXNUM: vecret([&](size_t k) { Expr *x = E(0, k), *y = E(1, k); Expr *lt = mkFp(O_FCMP, 1, x, y, FCmpInst::FCMP_OLT); return fromE(h == H_MINNUM ? mkIte(lt, x, y) : mkIte(lt, y, x)); }); return HR_OK;
    case H_LDEXP: {
      if (A[0].e || A[1].e) { // x * 2^k with concrete k, exact when no double rounding
        u64 k; if (!C(1, k)) return HR_DEAD;
        double m = std::ldexp(1.0, (int)(int32_t)k); u64 mb; memcpy(&mb, &m, 8);
        ret(fromE(mkFp(O_FMUL, 64, toE(A[0], 64), mkConst(mb, 64)))); return HR_OK;
      }
      double x; memcpy(&x, &A[0].c, 8); x = std::ldexp(x, (int)(int32_t)A[1].c); u64 r; memcpy(&r, &x, 8); ret(cv(r)); return HR_OK;
    }
    case H_VECRED_ADD: case H_VECRED_OR: case H_VECRED_AND: {
      Expr *r = nullptr;
      for (auto &a : A) { Expr *x = toE(a, w); r = !r ? x : h == H_VECRED_ADD ? mkAdd(r, x) : h == H_VECRED_OR ? mkOr(r, x) : mkAnd(r, x); }
      ret(fromE(r)); return HR_OK;
    }
    case H_IS_FPCLASS: {
      unsigned vw = (unsigned)in.I->getOperand(0)->getType()->getScalarSizeInBits(); unsigned m = (unsigned)A[1].c;
      Expr *x = toE(A[0], vw); unsigned mb = vw == 64 ? 52 : 23, eb = vw - 1 - mb;
      Expr *sg = mkExtract(x, vw - 1, 1), *ex = mkExtract(x, mb, eb), *mt = mkExtract(x, 0, mb);
      Expr *emax = mkEq(ex, mkConst(maskw(eb), eb)), *e0 = mkEq(ex, mkConst(0, eb)), *m0 = mkEq(mt, mkConst(0, mb)), *q = mkExtract(x, mb - 1, 1);
      Expr *r = mkFalse(); auto add = [&](unsigned b, Expr *c) { if (m & b) r = mkOr(r, c); };
      Expr *nan = mkAnd(emax, mkNot(m0)), *inf = mkAnd(emax, m0), *zero = mkAnd(e0, m0), *sub = mkAnd(e0, mkNot(m0)), *nor = mkAnd(mkNot(emax), mkNot(e0));
      add(1, mkAnd(nan, mkNot(q))); add(2, mkAnd(nan, q)); add(4, mkAnd(inf, sg)); add(8, mkAnd(nor, sg)); add(16, mkAnd(sub, sg)); add(32, mkAnd(zero, sg));
      add(64, mkAnd(zero, mkNot(sg))); add(128, mkAnd(sub, mkNot(sg))); add(256, mkAnd(nor, mkNot(sg))); add(512, mkAnd(inf, mkNot(sg)));
      ret(fromE(r)); return HR_OK;
    }
    default: break;
  }
  std::string n = callee ? callee->getName().str() : "?";
  unknownExt[n]++;
  incompl("unmodelled external function " + n + " at " + locOf(in.I));
  return HR_DEAD;
}
