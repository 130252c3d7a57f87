// Main interpreter loop.
static V binop(State &s, unsigned opc, unsigned w, V a, V b, bool &bad) {
  bad = false;
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.c, y = b.c, m = mask64(w);
    switch (opc) {
      case Instruction::Add: return cv((x + y) & m);
      case Instruction::Sub: return cv((x - y) & m);
      case Instruction::Mul: return cv((x * y) & m);
      case Instruction::And: return cv(x & y);
      case Instruction::Or: return cv(x | y);
      case Instruction::Xor: return cv(x ^ y);
      case Instruction::Shl: return cv(y >= w ? 0 : (x << y) & m);
      case Instruction::LShr: return cv(y >= w ? 0 : x >> y);
      case Instruction::AShr: { int64_t sx = (int64_t)sxt(x, w); return cv((u64)(sx >> (y >= w ? w - 1 : y)) & m); }
      default: break;
    }
  }
  Expr *x = toE(a, w), *y = toE(b, w);
  switch (opc) {
    case Instruction::Add: return fromE(mkAdd(x, y));
    case Instruction::Sub: return fromE(mkSub(x, y));
    case Instruction::Mul: return fromE(mkMul(x, y));
    case Instruction::And: return fromE(mkAnd(x, y));
    case Instruction::Or: return fromE(mkOr(x, y));
    case Instruction::Xor: return fromE(mkXor(x, y));
    case Instruction::Shl: return fromE(mkShl(x, y));
    case Instruction::LShr: return fromE(mkLshr(x, y));
    case Instruction::AShr: return fromE(mkAshr(x, y));
    case Instruction::UDiv: return fromE(mkDiv(O_UDIV, x, y));
    case Instruction::SDiv: return fromE(mkDiv(O_SDIV, x, y));
    case Instruction::URem: return fromE(mkDiv(O_UREM, x, y));
    case Instruction::SRem: return fromE(mkDiv(O_SREM, x, y));
    case Instruction::FAdd: return fromE(mkFp(O_FADD, w, x, y));
    case Instruction::FSub: return fromE(mkFp(O_FSUB, w, x, y));
    case Instruction::FMul: return fromE(mkFp(O_FMUL, w, x, y));
    case Instruction::FDiv: return fromE(mkFp(O_FDIV, w, x, y));
    case Instruction::FRem: return fromE(mkFp(O_FREM, w, x, y));
  }
  bad = true;
  return cv(0);
}
static V icmp(unsigned p, unsigned w, V a, V b) {
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.c, y = b.c; int64_t sx = (int64_t)sxt(x, w), sy = (int64_t)sxt(y, w);
    switch (p) {
      case ICmpInst::ICMP_EQ: return cv(x == y); case ICmpInst::ICMP_NE: return cv(x != y);
      case ICmpInst::ICMP_ULT: return cv(x < y); case ICmpInst::ICMP_ULE: return cv(x <= y); case ICmpInst::ICMP_UGT: return cv(x > y); case ICmpInst::ICMP_UGE: return cv(x >= y);
      case ICmpInst::ICMP_SLT: return cv(sx < sy); case ICmpInst::ICMP_SLE: return cv(sx <= sy); case ICmpInst::ICMP_SGT: return cv(sx > sy); case ICmpInst::ICMP_SGE: return cv(sx >= sy);
    }
  }
  Expr *x = toE(a, w), *y = toE(b, w), *r = nullptr;
  switch (p) {
    case ICmpInst::ICMP_EQ: r = mkEq(x, y); break; case ICmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break;
    case ICmpInst::ICMP_ULT: r = mkUlt(x, y); break; case ICmpInst::ICMP_ULE: r = mkUle(x, y); break;
    case ICmpInst::ICMP_UGT: r = mkUlt(y, x); break; case ICmpInst::ICMP_UGE: r = mkUle(y, x); break;
    case ICmpInst::ICMP_SLT: r = mkSlt(x, y); break; case ICmpInst::ICMP_SLE: r = mkSle(x, y); break;
    case ICmpInst::ICMP_SGT: r = mkSlt(y, x); break; case ICmpInst::ICMP_SGE: r = mkSle(y, x); break;
  }
  return fromE(r);
}
static u64 rngState = 88172645463325252ull;
static u64 rnd() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }

static void endPath(State &s) {
  stats.paths++;
  if (opt.samples) {
    bool und = false;
    for (auto &o : *s.obs) if (o.e && dependsUndef(o.e)) und = true;
    if (und) return;
    size_t slot = samples.size();
    if (slot >= opt.samples) { u64 r = rnd() % stats.paths; if (r >= opt.samples) return; slot = (size_t)r; }
    Sample sm; sm.inputs = dumpInputs(s, *s.model);
    for (auto &o : *s.obs) sm.obs.push_back(o.e ? (u64)evalM(s, o.e) : o.c);
    if (slot == samples.size()) samples.push_back(sm); else samples[slot] = sm;
  }
}

// Executes until the path ends (returns) — forks go to the worklist.
static void runState(State &s) {
  static u64 tick = 0;
  for (;;) {
    if ((++tick & 1023) == 0) {
      if (g_stop) return;
      if (now() - t_start > opt.timeout) { incompl("time limit reached"); g_stop = true; return; }
    }
    if (++s.insts > opt.maxInstPath) { report(s, "hang", "instruction limit on one path", *s.model); return; }
    stats.insts++;
    Frame &f = s.top();
    In &in = f.f->bbs[f.bb].ins[f.ip];
    if (opt.trace) { std::string t; raw_string_ostream os(t); in.I->print(os); fprintf(stderr, "[%zu] %s | %s\n", s.st.size(), f.f->F->getName().str().substr(0, 60).c_str(), t.c_str()); }
    switch (in.op) {
      case I_NOP: f.ip++; break;
      case I_BIN: {
        size_t n = in.leaves.size();
        bool div = in.sub == Instruction::UDiv || in.sub == Instruction::SDiv || in.sub == Instruction::URem || in.sub == Instruction::SRem;
        bool dead = false;
        if (div) for (size_t k = 0; k < n; k++) {
          V b = in.ops[1] >= 0 ? f.r[in.ops[1] + k] : f.f->consts[-in.ops[1] - 1 + k];
          Expr *z = simp(s, mkEq(toE(b, in.w), mkConst(0, in.w)));
          if (isFalse(z)) continue;
          std::shared_ptr<std::vector<u8>> nm;
          SatRes r = isTrue(z) ? R_SAT : feasible(s, z, &nm);
          if (r == R_SAT) { report(s, "divzero", "division by zero", nm ? *nm : *s.model); if (isTrue(z) || !assumeC(s, mkNot(z))) { dead = true; break; } }
        }
        if (dead) return;
        Frame &g = s.top();
        for (size_t k = 0; k < n; k++) {
          V a = in.ops[0] >= 0 ? g.r[in.ops[0] + k] : g.f->consts[-in.ops[0] - 1 + k];
          V b = in.ops[1] >= 0 ? g.r[in.ops[1] + k] : g.f->consts[-in.ops[1] - 1 + k];
          bool bad; g.r[in.dst + k] = binop(s, in.sub, in.w, a, b, bad);
          if (bad) { incompl("binop"); return; }
        }
        g.ip++;
        break;
      }
      case I_FNEG: for (size_t k = 0; k < in.leaves.size(); k++) { V a = in.ops[0] >= 0 ? f.r[in.ops[0] + k] : f.f->consts[-in.ops[0] - 1 + k]; f.r[in.dst + k] = fromE(mkXor(toE(a, in.w), mkConst((u128)1 << (in.w - 1), in.w))); } f.ip++; break;
      case I_ICMP: for (size_t k = 0; k < in.leaves.size(); k++) { V a = in.ops[0] >= 0 ? f.r[in.ops[0] + k] : f.f->consts[-in.ops[0] - 1 + k], b = in.ops[1] >= 0 ? f.r[in.ops[1] + k] : f.f->consts[-in.ops[1] - 1 + k]; f.r[in.dst + k] = icmp(in.sub, in.aw, a, b); } f.ip++; break;
      case I_FCMP: for (size_t k = 0; k < in.leaves.size(); k++) { V a = in.ops[0] >= 0 ? f.r[in.ops[0] + k] : f.f->consts[-in.ops[0] - 1 + k], b = in.ops[1] >= 0 ? f.r[in.ops[1] + k] : f.f->consts[-in.ops[1] - 1 + k]; f.r[in.dst + k] = fromE(mkFp(O_FCMP, 1, toE(a, in.aw), toE(b, in.aw), in.sub)); } f.ip++; break;
      case I_SELECT: {
        size_t n = in.leaves.size();
        auto op = [&](Frame &g, int i, size_t k) { return in.ops[i] >= 0 ? g.r[in.ops[i] + k] : g.f->consts[-in.ops[i] - 1 + k]; };
        if (!in.imm) {
          V c = op(f, 0, 0);
          int d = -1;
          if (!c.e) d = c.c & 1;
          else {
            bool ptrish = in.sub;
            if (ptrish) { V a = op(f, 1, 0), b = op(f, 2, 0); if (!a.e && !b.e && a.c == b.c) d = 1; else d = decide(s, c.e); }
          }
          Frame &g = s.top();
          if (d >= 0) for (size_t k = 0; k < n; k++) g.r[in.dst + k] = op(g, d ? 1 : 2, k);
          else for (size_t k = 0; k < n; k++) g.r[in.dst + k] = fromE(mkIte(c.e, toE(op(g, 1, k), in.leaves[k].w), toE(op(g, 2, k), in.leaves[k].w)));
          g.ip++;
        } else {
          for (size_t k = 0; k < n; k++) { V c = op(f, 0, k); f.r[in.dst + k] = fromE(mkIte(toE(c, 1), toE(op(f, 1, k), in.leaves[k].w), toE(op(f, 2, k), in.leaves[k].w))); }
          f.ip++;
        }
        break;
      }
      case I_BR: jumpTo(s, f, in.b0); break;
      case I_CBR: {
        V c = getv(f, in.ops[0]);
        int d = c.e ? decide(s, c.e) : (int)(c.c & 1);
        jumpTo(s, s.top(), d ? in.b0 : in.b1);
        break;
      }
      case I_SWITCH: {
        V c = getv(f, in.ops[0]);
        if (c.e) { Expr *e = simp(s, c.e); c = fromE(e); }
        if (!c.e) {
          int to = in.b0;
          for (auto &p : in.cases) if (p.first == c.c) { to = p.second; break; }
          jumpTo(s, f, to); break;
        }
        // group cases by target and decide target by target (model's target last)
        u64 mv = (u64)evalM(s, c.e);
        int mt = in.b0;
        for (auto &p : in.cases) if (p.first == mv) { mt = p.second; break; }
        std::map<int, Expr *> conds; Expr *any = mkFalse();
        // merge contiguous runs into range tests
        {
          std::map<int, std::vector<u64>> vs;
          for (auto &p : in.cases) vs[p.second].push_back(p.first);
          for (auto &q : vs) {
            std::sort(q.second.begin(), q.second.end());
            Expr *r = mkFalse();
            for (size_t i = 0; i < q.second.size();) {
              size_t j = i; while (j + 1 < q.second.size() && q.second[j + 1] == q.second[j] + 1) j++;
              Expr *t = i == j ? mkEq(c.e, mkConst(q.second[i], in.aw)) : mkAnd(mkUle(mkConst(q.second[i], in.aw), c.e), mkUle(c.e, mkConst(q.second[j], in.aw)));
              r = mkOr(r, t); i = j + 1;
            }
            conds[q.first] = r;
            any = mkOr(any, r);
          }
        }
        Expr *defc = mkNot(any);
        auto di = conds.find(in.b0);
        conds[in.b0] = di == conds.end() ? defc : mkOr(di->second, defc);
        stats.branches++;
        Expr *mine = nullptr;
        for (auto &q : conds) {
          if (q.first == mt) { mine = q.second; continue; }
          std::shared_ptr<std::vector<u8>> nm;
          SatRes r = feasible(s, q.second, &nm);
          if (r == R_SAT) {
            if (dependsUndef(c.e)) report(s, "uninit", "switch depends on uninitialised memory", *nm, true);
            State *n = forkState(s);
            n->model = nm; addC(*n, q.second);
            jumpTo(*n, n->top(), q.first);
            pushWork(n);
          } else if (r == R_UNKNOWN) stats.killed++;
        }
        addC(s, mine);
        jumpTo(s, s.top(), mt);
        break;
      }
      case I_RET: {
        std::vector<V> rv;
        for (u64 k = 0; k < in.imm; k++) rv.push_back(in.ops[0] >= 0 ? f.r[in.ops[0] + k] : f.f->consts[-in.ops[0] - 1 + k]);
        bool disc = f.discard, base = s.st.size() == 1, noresume = f.noResume;
        popFrame(s);
        if (base) { endPath(s); return; }
        Frame &g = s.top();
        if (noresume) break; // frame pushed by the loader
        In &ci = g.f->bbs[g.bb].ins[g.ip];
        if (!disc && ci.dst >= 0) for (size_t k = 0; k < rv.size(); k++) g.r[ci.dst + k] = rv[k];
        resumeAfterCall(s);
        break;
      }
      case I_UNREACH: report(s, "unreachable", "unreachable code executed (undefined behaviour)", *s.model); return;
      case I_LPAD: incompl("lpad reached directly"); return;
      case I_RESUME: {
        u64 a = (in.ops[0] >= 0 ? f.r[in.ops[0]] : f.f->consts[-in.ops[0] - 1]).c;
        u64 ti = 0;
        for (auto &x : s.excs) if (x.addr == a) ti = x.ti;
        if (s.st.size() == 1) { report(s, "uncaught", "exception escapes: " + tiName(ti), *s.model); return; }
        popFrame(s);
        if (!unwind(s, a, ti)) return;
        break;
      }
      case I_ALLOCA: {
        V n = getv(f, in.ops[0]); u64 k = n.c;
        if (n.e && !concretize(s, n.e, k)) return;
        u32 id = allocObj(s, in.imm * k, K_STACK, in.I);
        Frame &g = s.top();
        g.allocas.push_back(id); g.r[in.dst] = cv(baseOf(id)); g.ip++;
        break;
      }
      case I_LOAD: {
        V tmp[64]; std::vector<V> big; V *d = tmp;
        if (in.leaves.size() > 64) { big.resize(in.leaves.size()); d = big.data(); }
        if (!loadLeaves(s, getv(f, in.ops[0]), in.imm, in.leaves, d, 1ull << in.aw)) return;
        Frame &g = s.top();
        for (size_t k = 0; k < in.leaves.size(); k++) g.r[in.dst + k] = d[k];
        g.ip++;
        break;
      }
      case I_STORE: {
        std::vector<V> v;
        for (size_t k = 0; k < in.leaves.size(); k++) v.push_back(in.ops[0] >= 0 ? f.r[in.ops[0] + k] : f.f->consts[-in.ops[0] - 1 + k]);
        if (opt.concPtr && v.size() == 1 && v[0].e && cast<StoreInst>(in.I)->getValueOperand()->getType()->isPointerTy()) {
          u64 c;
          if (!concretize(s, v[0].e, c)) return;
          v[0] = cv(c);
        }
        if (!storeLeaves(s, getv(f, in.ops[1]), in.imm, in.leaves, v.data(), 1ull << in.aw, s.frozen && cast<StoreInst>(in.I)->isAtomic() ? "atomic" : "write")) return;
        s.top().ip++;
        break;
      }
      case I_GEP: {
        V b = getv(f, in.ops[0]);
        bool conc = !b.e; u64 a = b.c + in.imm;
        for (size_t i = 0; i < in.gep.size() && conc; i++) {
          V x = getv(f, in.gep[i].first);
          if (x.e) { conc = false; break; }
          a += (u64)((int64_t)sxt(x.c, in.gepw[i]) * (int64_t)in.gep[i].second);
        }
        if (conc) f.r[in.dst] = cv(a);
        else {
          Expr *e = mkAdd(toE(b, 64), mkConst(in.imm, 64));
          for (size_t i = 0; i < in.gep.size(); i++) {
            Expr *x = toE(getv(f, in.gep[i].first), in.gepw[i]);
            if (in.gepw[i] < 64) x = mkSext(x, 64); else if (in.gepw[i] > 64) x = mkExtract(x, 0, 64);
            e = mkAdd(e, mkMul(x, mkConst((u64)in.gep[i].second, 64)));
          }
          f.r[in.dst] = fromE(e);
        }
        f.ip++;
        break;
      }
      case I_COPY: {
        if (in.sub == 1) {
          std::vector<Expr *> sg;
          for (u64 k = 0; k < in.imm; k++) sg.push_back(toE(in.ops[0] >= 0 ? f.r[in.ops[0] + k] : f.f->consts[-in.ops[0] - 1 + k], in.aw));
          if ((u64)in.aw * in.imm > 128) { incompl("wide bitcast"); return; }
          Expr *e = mkConcatSegs(sg); unsigned lo = 0;
          for (size_t k = 0; k < in.leaves.size(); k++) { f.r[in.dst + k] = fromE(mkExtract(e, lo, in.leaves[k].w)); lo += in.leaves[k].w; }
        } else for (size_t k = 0; k < in.leaves.size(); k++) f.r[in.dst + k] = in.ops[0] >= 0 ? f.r[in.ops[0] + k] : f.f->consts[-in.ops[0] - 1 + k];
        f.ip++;
        break;
      }
      case I_TRUNC: case I_ZEXT: case I_SEXT: case I_FPCAST:
        for (size_t k = 0; k < in.leaves.size(); k++) {
          V a = in.ops[0] >= 0 ? f.r[in.ops[0] + k] : f.f->consts[-in.ops[0] - 1 + k];
          V r;
          if (in.op == I_TRUNC) r = a.e ? fromE(mkExtract(a.e, 0, in.w)) : cv(a.c & mask64(in.w));
          else if (in.op == I_ZEXT) r = (a.e || in.w > 64) ? fromE(mkZext(toE(a, in.aw), in.w)) : a;
          else if (in.op == I_SEXT) r = (a.e || in.w > 64) ? fromE(mkSext(toE(a, in.aw), in.w)) : cv((u64)sxt(a.c, in.aw) & mask64(in.w));
          else r = fromE(mkFp((Op)in.sub, in.w, toE(a, in.aw), nullptr));
          f.r[in.dst + k] = r;
        }
        f.ip++;
        break;
      case I_EXTRV: for (size_t k = 0; k < in.leaves.size(); k++) f.r[in.dst + k] = in.ops[0] >= 0 ? f.r[in.ops[0] + in.imm + k] : f.f->consts[-in.ops[0] - 1 + in.imm + k]; f.ip++; break;
      case I_INSV: {
        std::vector<V> v;
        for (size_t k = 0; k < in.leaves.size(); k++) v.push_back(in.ops[0] >= 0 ? f.r[in.ops[0] + k] : f.f->consts[-in.ops[0] - 1 + k]);
        for (int k = 0; k < in.sub; k++) v[in.imm + k] = in.ops[1] >= 0 ? f.r[in.ops[1] + k] : f.f->consts[-in.ops[1] - 1 + k];
        for (size_t k = 0; k < v.size(); k++) f.r[in.dst + k] = v[k];
        f.ip++;
        break;
      }
      case I_EXTE: {
        V ix = getv(f, in.ops[1]); u64 i = ix.c;
        if (ix.e && !concretize(s, ix.e, i)) return;
        Frame &g = s.top();
        i %= in.imm;
        g.r[in.dst] = in.ops[0] >= 0 ? g.r[in.ops[0] + i] : g.f->consts[-in.ops[0] - 1 + i];
        g.ip++;
        break;
      }
      case I_INSE: {
        V ix = getv(f, in.ops[2]); u64 i = ix.c;
        if (ix.e && !concretize(s, ix.e, i)) return;
        Frame &g = s.top();
        std::vector<V> v;
        for (size_t k = 0; k < in.leaves.size(); k++) v.push_back(in.ops[0] >= 0 ? g.r[in.ops[0] + k] : g.f->consts[-in.ops[0] - 1 + k]);
        v[i % v.size()] = getv(g, in.ops[1]);
        for (size_t k = 0; k < v.size(); k++) g.r[in.dst + k] = v[k];
        g.ip++;
        break;
      }
      case I_SHUF: {
        std::vector<V> v;
        for (int m : in.mask) {
          if (m < 0) { v.push_back(in.w > 64 ? V{0, mkConst(0, in.w)} : cv(0)); continue; }
          int o = (u64)m < in.imm ? 0 : 1; u64 k = (u64)m - (o ? in.imm : 0);
          v.push_back(in.ops[o] >= 0 ? f.r[in.ops[o] + k] : f.f->consts[-in.ops[o] - 1 + k]);
        }
        for (size_t k = 0; k < v.size(); k++) f.r[in.dst + k] = v[k];
        f.ip++;
        break;
      }
      case I_RMW: {
        V old; std::vector<Leaf> l{Leaf{in.w, 0}};
        u64 a; if (!concAddr(s, getv(f, in.ops[0]), in.w / 8, true, a, "atomic")) return;
        if (!loadLeaves(s, cv(a), in.w / 8, l, &old, 1)) return;
        Frame &g = s.top();
        V b = getv(g, in.ops[1]), nv; bool bad = false;
        switch (in.sub) {
          case AtomicRMWInst::Xchg: nv = b; break;
          case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, in.w, old, b, bad); break;
          case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, in.w, old, b, bad); break;
          case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, in.w, old, b, bad); break;
          case AtomicRMWInst::And: nv = binop(s, Instruction::And, in.w, old, b, bad); break;
          default: incompl("rmw"); return;
        }
        if (!storeLeaves(s, cv(a), in.w / 8, l, &nv, 1, "atomic")) return;
        Frame &g2 = s.top(); g2.r[in.dst] = old; g2.ip++;
        break;
      }
      case I_CMPXCHG: {
        u8 w = in.leaves[0].w; V old; std::vector<Leaf> l{Leaf{w, 0}};
        u64 a; if (!concAddr(s, getv(f, in.ops[0]), w / 8, true, a, "atomic")) return;
        if (!loadLeaves(s, cv(a), w / 8, l, &old, 1)) return;
        V eq = icmp(ICmpInst::ICMP_EQ, w, old, getv(s.top(), in.ops[1]));
        int d = eq.e ? decide(s, eq.e) : (int)eq.c;
        if (d) { V nv = getv(s.top(), in.ops[2]); if (!storeLeaves(s, cv(a), w / 8, l, &nv, 1, "atomic")) return; }
        Frame &g = s.top(); g.r[in.dst] = old; g.r[in.dst + 1] = cv(d); g.ip++;
        break;
      }
      case I_CALL: case I_INVOKE: {
        Function *cf = in.callee; int h = in.handler;
        if (h == H_INDIRECT) {
          V p = getv(f, (int)(int64_t)in.imm); u64 a = p.c;
          if (p.e && !concretize(s, p.e, a)) return;
          auto it = fnById.find((u32)(a >> IDSH));
          if (it == fnById.end() || a != baseOf((u32)(a >> IDSH))) { report(s, "memory", a < 4096 ? "call through null pointer" : "call through invalid pointer", *s.model); return; }
          cf = it->second; h = handlerFor(cf);
        }
        if (h == H_NONE) {
          FnInfo *fi = decode(cf);
          if (s.st.size() > 3000) { report(s, "hang", "call depth limit (stack exhaustion)", *s.model); return; }
          Frame &g = *s.st.back().p;
          Frame *nf = new Frame; nf->f = fi; nf->r.assign(fi->nslots, cv(0));
          Ref<Frame> nref(nf);
          size_t na = std::min(in.ops.size(), fi->argSlot.size());
          for (size_t i = 0; i < na; i++) {
            for (int k = 0; k < fi->argN[i]; k++) nf->r[fi->argSlot[i] + k] = in.ops[i] >= 0 ? g.r[in.ops[i] + k] : g.f->consts[-in.ops[i] - 1 + k];
            if (fi->byval[i]) {
              u32 id = allocObj(s, fi->byval[i], K_STACK, in.I);
              nf->allocas.push_back(id);
              if (!copyBytes(s, baseOf(id), nf->r[fi->argSlot[i]].c, fi->byval[i])) return;
              nf->r[fi->argSlot[i]] = cv(baseOf(id));
            }
          }
          fi->bbs[0].exec = true;
          s.st.push_back(nref);
          break;
        }
        HR r = execHandler(s, in, f, h, cf);
        if (r == HR_DEAD || r == HR_END) return;
        if (r == HR_OK) resumeAfterCall(s);
        break;
      }
      default: { std::string t; raw_string_ostream os(t); in.I->print(os); incompl("unsupported instruction " + t); return; }
    }
  }
}
static void runAll() {
  while (!work.empty() && !g_stop) {
    std::unique_ptr<State> s = std::move(work.back());
    work.pop_back();
    runState(*s);
  }
  if (!work.empty() && viols.empty() && incomplete.empty()) incompl("stopped with unexplored paths");
}
