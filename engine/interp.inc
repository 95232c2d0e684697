// the interpreter
static Res pushCall(State& s, FuncInfo* f, const Val* args, unsigned n, int retDst, unsigned nret, bool boundary, const CallInfo* ci);

static inline Val opv(State& s, Frame& f, int r) { return r >= 0 ? s.regs[f.rb + r] : f.f->consts[-r - 1]; }

static void popFrame(State& s) {
  Frame& f = s.st.back(); for (u32 id : f.allocas) if (s.mem.get(id)) s.mem.del(id);
  if (f.vaObj) { u32 id = f.vaObj >> 32; if (s.mem.get(id)) s.mem.del(id); }
  s.regs.resize(f.rb); s.st.pop_back();
}
static void leaveRun(State& s) { s.inRepo = false; for (u32 id : s.runHeap) if (s.mem.get(id)) s.mem.del(id); s.runHeap.clear(); }
// returns RES_END if the path ended by returning from the harness
static Res doReturn(State& s, const Val* rv, unsigned n) {
  int dst = s.st.back().retDst; bool boundary = s.st.back().boundary; unsigned nret = s.st.back().nret;
  Val tmp[8]; for (unsigned i = 0; i < n && i < 8; i++) tmp[i] = rv[i];
  popFrame(s);
  if (boundary) s.inRepo = false;
  if (s.st.empty()) return RES_END;
  Frame& c = s.st.back(); if (dst >= 0) for (unsigned i = 0; i < nret; i++) s.regs[c.rb + dst + i] = i < n ? tmp[i] : UV();
  c.pc++; return RES_OK;
}
static Res doExit(State& s, Val code) {
  while (!s.st.empty() && !s.st.back().boundary) popFrame(s);
  if (s.st.empty()) return RES_END;
  if (!code.e) code.c &= 0xff; else if (code.e != UNDEF) code = EV(mkBin(E_AND, code.e, mkConst(0xff, code.e->w)));
  if (code.e == UNDEF) { addViolation(s, "uninit", "uninitialised exit status"); return RES_END; }
  Val v[1] = {code}; Res r = doReturn(s, v, 1); return r == RES_OK ? RES_RETRY : r; // RETRY: pc already set
}
static Res pushCall(State& s, FuncInfo* f, const Val* args, unsigned n, int retDst, unsigned nret, bool boundary, const CallInfo* ci) {
  if (!f->decoded) decodeFn(f);
  if (s.st.size() > 1500) { addViolation(s, "stack", "runaway recursion"); return RES_END; }
  Frame fr; fr.f = f; fr.pc = 0; fr.rb = s.regs.size(); fr.vaObj = 0; fr.boundary = boundary; fr.retDst = retDst; fr.nret = nret; f->entered++;
  s.regs.resize(fr.rb + f->nregs, CV(0)); unsigned na = 0;
  { unsigned k = 0; for (auto& a : f->F->args()) { k += slots(a.getType()); } na = k; }
  for (unsigned i = 0; i < na; i++) s.regs[fr.rb + i] = i < n ? args[i] : UV();
  if (ci) for (unsigned i = 0; i < na && i < n; i++) if (ci->byval.size() > i && ci->byval[i]) { u32 id = s.mem.add(newObj(ci->byval[i], K_STACK, true)); fr.allocas.push_back(id); Res r = doCopy(s, addrOf(id), args[i].c, ci->byval[i], true); if (r != RES_OK) return r; s.regs[fr.rb + i] = CV(addrOf(id)); }
  if (f->vararg) { unsigned m = n > na ? n - na : 0; Obj* o = newObj(m * 8 + 8, K_STACK, true); for (unsigned i = 0; i < m; i++) { unsigned w = ci && ci->aw.size() > na + i ? ci->aw[na + i] : 64; writeObj(o, i * 8, 8, args[na + i].e && args[na + i].e != UNDEF ? EV(mkZext(args[na + i].e, 64)) : args[na + i], 64); (void) w; } fr.vaObj = addrOf(s.mem.add(o)); }
  s.st.push_back(std::move(fr)); return RES_OK;
}
static void resetRepoGlobals(State& s) { for (auto& p : gRepoGlobals) { p.second->rc++; s.mem.set(p.first, p.second); } }
static FuncInfo* gRepoMain;

static double asD(const Val& v, unsigned w) { if (w == 32) { float f; u32 x = v.c; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v.c, 8); return d; }
static Val fromD(double d, unsigned w) { if (w == 32) { float f = (float) d; u32 x; memcpy(&x, &f, 4); return CV(x); } u64 x; memcpy(&x, &d, 8); return CV(x); }

// symbolic load address over one variable: build a table or fork
static Res symLoad(State& s, Val addr, const Inst& I, Val& out) {
  int ev = effVar(s, addr.e);
  if (ev >= 0) {
    std::vector<std::pair<u8, u64>> vals; valuesOver(s, addr.e, ev, vals); bool allc = true; std::vector<std::pair<u8, Val>> got; Dom badd{}; bool anyBad = false; u64 badAddr = 0; Dom good{};
    for (auto& p : vals) { u32 id, off; Obj* o = locate(s, p.second + I.aux, I.w2, id, off, false);
      if (!o) { anyBad = true; badAddr = p.second; badd.b[p.first >> 6] |= 1ull << (p.first & 63); continue; }
      good.b[p.first >> 6] |= 1ull << (p.first & 63);
      Val v = readObj(o, off, I.w2, I.w); if (v.e) allc = false; got.push_back({p.first, v}); }
    if (anyBad) { // split off the faulty part
      State* o = forkState(s); o->dom[ev] = badd; if (pickModel(*o, ev)) { u32 id, off; locate(*o, badAddr + I.aux, I.w2, id, off, false); memFault(*o); } delete o;
      s.dom[ev] = good; if (got.empty() || !pickModel(s, ev)) return RES_END;
    }
    if (allc) { const VarInfo& vi = gVars[ev]; std::vector<u64> t(vi.vals.size(), got[0].second.c); for (auto& g : got) t[vi.rank[g.first]] = g.second.c; out = resolve(s, EV(mkTab(ev, t, I.w))); return RES_OK; }
  }
  Res r = concretize(s, addr, 64, "load address"); if (r != RES_OK) return r;
  u32 id, off; Obj* o = locate(s, addr.c + I.aux, I.w2, id, off, false); if (!o) { memFault(s); return RES_END; }
  out = readObj(o, off, I.w2, I.w); return RES_OK;
}

static u64 gLastReport = 0;
// run until the path ends or forks off work (then continues); returns when path ends
enum StopReason { STOP_END, STOP_YIELD };
static StopReason runState(State& s, bool yieldOnFork) {
  std::vector<Val> argbuf;
  for (;;) {
    Frame* f = &s.st.back(); FuncInfo* fi = f->f; const Inst* code = fi->code.data(); Val* R = s.regs.data() + f->rb; const Val* Cn = fi->consts.data();
    size_t work0 = gWork.size();
#define OPV(x) ((x) >= 0 ? R[x] : Cn[-(x) - 1])
    u32 pc = f->pc; u64 n0 = 0;
    for (;;) {
      const Inst& I = code[pc]; n0++;
      switch (I.op) {
        case O_BIN: {
          Val a = OPV(I.a), b = OPV(I.b); u64 m = maskw(I.w);
          if (!a.e && !b.e) {
            u64 x = a.c, y = b.c, r;
            switch (I.sub) {
              case E_ADD: r = x + y; break; case E_SUB: r = x - y; break; case E_MUL: r = x * y; break; case E_AND: r = x & y; break; case E_OR: r = x | y; break; case E_XOR: r = x ^ y; break;
              case E_SHL: r = y >= I.w ? 0 : x << y; break; case E_LSHR: r = y >= I.w ? 0 : (x & m) >> y; break; case E_ASHR: r = (u64) (sextw(x, I.w) >> (y >= I.w ? I.w - 1 : y)); break;
              default: if (!(y & m)) { f->pc = pc; addViolation(s, "div", "division by zero"); goto ended; } r = mkBin((EOp) I.sub, mkConst(x, I.w), mkConst(y, I.w))->c; break;
            }
            R[I.dst] = CV(r & m);
          } else if (a.e == UNDEF || b.e == UNDEF) {
            if (I.sub == E_AND && ((!a.e && !(a.c & m)) || (!b.e && !(b.c & m)))) R[I.dst] = CV(0);
            else if (I.sub == E_OR && I.w == 1 && ((!a.e && a.c) || (!b.e && b.c))) R[I.dst] = CV(1);
            else R[I.dst] = UV();
          } else {
            if (I.sub == E_UDIV || I.sub == E_SDIV || I.sub == E_UREM || I.sub == E_SREM) {
              if (b.e) { f->pc = pc; State* o = nullptr; int r = decide(s, mkBin(E_EQ, b.e, mkConst(0, I.w)), &o); if (r == 2) { pushWork(o); r = 1; } if (r == 1) { addViolation(s, "div", "division by zero"); goto ended; } }
              else if (!b.c) { f->pc = pc; addViolation(s, "div", "division by zero"); goto ended; }
            }
            R[I.dst] = EV(mkBin((EOp) I.sub, toE(a, I.w), toE(b, I.w)));
          }
          pc++; break; }
        case O_ICMP: {
          Val a = OPV(I.a), b = OPV(I.b);
          if (!a.e && !b.e) {
            u64 m = maskw(I.w), x = a.c & m, y = b.c & m; bool r;
            switch (I.sub) {
              case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
              case CmpInst::ICMP_SGT: r = sextw(x, I.w) > sextw(y, I.w); break; case CmpInst::ICMP_SGE: r = sextw(x, I.w) >= sextw(y, I.w); break; case CmpInst::ICMP_SLT: r = sextw(x, I.w) < sextw(y, I.w); break; default: r = sextw(x, I.w) <= sextw(y, I.w); break;
            }
            R[I.dst] = CV(r);
          } else if (a.e == UNDEF || b.e == UNDEF) R[I.dst] = UV();
          else {
            const Expr *x = toE(a, I.w), *y = toE(b, I.w), *r;
            switch (I.sub) {
              case CmpInst::ICMP_EQ: r = mkBin(E_EQ, x, y); break; case CmpInst::ICMP_NE: r = mkNot1(mkBin(E_EQ, x, y)); break; case CmpInst::ICMP_UGT: r = mkBin(E_ULT, y, x); break; case CmpInst::ICMP_UGE: r = mkBin(E_ULE, y, x); break; case CmpInst::ICMP_ULT: r = mkBin(E_ULT, x, y); break; case CmpInst::ICMP_ULE: r = mkBin(E_ULE, x, y); break;
              case CmpInst::ICMP_SGT: r = mkBin(E_SLT, y, x); break; case CmpInst::ICMP_SGE: r = mkBin(E_SLE, y, x); break; case CmpInst::ICMP_SLT: r = mkBin(E_SLT, x, y); break; default: r = mkBin(E_SLE, x, y); break;
            }
            R[I.dst] = EV(r);
          }
          pc++; break; }
        case O_SELECT: {
          Val c = OPV(I.a); if (c.e && c.e != UNDEF) c = resolve(s, c);
          if (!c.e) { R[I.dst] = (c.c & 1) ? OPV(I.b) : OPV(I.c); pc++; break; }
          Val x = OPV(I.b), y = OPV(I.c);
          if (c.e == UNDEF) { if (!x.e && !y.e && x.c == y.c) R[I.dst] = x; else R[I.dst] = UV(); pc++; break; }
          if (x.e == UNDEF || y.e == UNDEF || I.w2 || I.w > 64) { f->pc = pc; State* o = nullptr; int r = decide(s, c.e, &o); f = &s.st.back(); if (r == 2) { pushWork(o); r = 1; } R = s.regs.data() + f->rb; R[I.dst] = r ? x : y; pc++; if (yieldOnFork && gWork.size() != work0) { f->pc = pc; S.steps += n0; s.steps += n0; s.runSteps += n0; fi->instrs += n0; return STOP_YIELD; } break; }
          R[I.dst] = EV(mkIte(c.e, toE(x, I.w), toE(y, I.w))); pc++; break; }
        case O_BR: { const Edge& e = fi->edges[I.aux]; if (!e.copies.empty()) { if (!e.overlap) for (auto& c : e.copies) R[c.first] = OPV(c.second); else { Val t[64]; std::vector<Val> big; Val* tp = t; if (e.copies.size() > 64) { big.resize(e.copies.size()); tp = big.data(); } size_t k = 0; for (auto& c : e.copies) tp[k++] = OPV(c.second); k = 0; for (auto& c : e.copies) R[c.first] = tp[k++]; } } pc = e.target; 
          if (n0 > 100000) { f->pc = pc; goto flush; } break; }
        case O_CBR: {
          Val c = OPV(I.a); int r;
          if (!c.e) r = c.c & 1;
          else {
            f->pc = pc;
            if (c.e == UNDEF) { addViolation(s, "uninit", "branch on uninitialised value"); goto ended; }
            State* o = nullptr; r = decide(s, c.e, &o);
            if (r == 2) { // other takes the false edge
              Frame& g = o->st.back(); const Edge& e = fi->edges[I.c]; std::vector<Val> t; for (auto& cp : e.copies) t.push_back(cp.second >= 0 ? o->regs[g.rb + cp.second] : Cn[-cp.second - 1]); size_t k = 0; for (auto& cp : e.copies) o->regs[g.rb + cp.first] = t[k++]; g.pc = e.target; pushWork(o); r = 1;
            }
          }
          const Edge& e = fi->edges[r ? I.b : I.c];
          if (!e.copies.empty()) { if (!e.overlap) for (auto& c : e.copies) R[c.first] = OPV(c.second); else { std::vector<Val> t; for (auto& c : e.copies) t.push_back(OPV(c.second)); size_t k = 0; for (auto& c : e.copies) R[c.first] = t[k++]; } }
          pc = e.target;
          if (yieldOnFork && gWork.size() != work0) { f->pc = pc; S.steps += n0; s.steps += n0; s.runSteps += n0; fi->instrs += n0; return STOP_YIELD; }
          if (n0 > 100000) { f->pc = pc; goto flush; }
          break; }
        case O_SWITCH: {
          Val c = OPV(I.a); f->pc = pc; const SwInfo& sw = fi->sws[I.aux];
          if (c.e) {
            if (c.e == UNDEF) { addViolation(s, "uninit", "switch on uninitialised value"); goto ended; }
            c = resolve(s, c);
            if (c.e) { // group by target edge
              int ev = effVar(s, c.e);
              if (ev >= 0) {
                std::vector<std::pair<u8, u64>> vals; valuesOver(s, c.e, ev, vals); std::vector<u64> t(gVars[ev].vals.size(), sw.def);
                for (auto& p : vals) { u32 ed = sw.def; for (auto& k : sw.cases) if (k.first == p.second) { ed = k.second; break; } t[gVars[ev].rank[p.first]] = ed; }
                Val ed = resolve(s, EV(mkTab(ev, t, 32)));
                if (ed.e) { Res r = concretize(s, ed, 32, "switch"); if (r == RES_END) goto ended; if (r == RES_RETRY) goto flush; }
                // find any case with that edge
                u32 target = ed.c; const Edge& e = fi->edges[target]; std::vector<Val> tv; R = s.regs.data() + s.st.back().rb; for (auto& cp : e.copies) tv.push_back(OPV(cp.second)); size_t k = 0; for (auto& cp : e.copies) R[cp.first] = tv[k++]; pc = e.target; if (yieldOnFork && gWork.size() != work0) { s.st.back().pc = pc; return STOP_YIELD; } break;
              }
              Res r = concretize(s, c, I.w, "switch"); if (r == RES_END) goto ended; if (r == RES_RETRY) goto flush;
            }
          }
          u32 ed = sw.def; for (auto& k : sw.cases) if (k.first == c.c) { ed = k.second; break; }
          const Edge& e = fi->edges[ed]; std::vector<Val> tv; for (auto& cp : e.copies) tv.push_back(OPV(cp.second)); size_t k = 0; for (auto& cp : e.copies) R[cp.first] = tv[k++]; pc = e.target; break; }
        case O_LOAD: {
          Val p = OPV(I.a);
          if (p.e) { f->pc = pc; if (p.e == UNDEF) { addViolation(s, "uninit", "load through uninitialised pointer"); goto ended; } p = resolve(s, p); if (p.e) { Val out = CV(0); Res r = symLoad(s, p, I, out); if (r == RES_END) goto ended; if (r == RES_RETRY) goto flush; R = s.regs.data() + s.st.back().rb; if (r == RES_OK && !p.e) {} R[I.dst] = out; pc++; break; } }
          u64 addr = p.c + I.aux; u32 id = addr >> 32; i64 off = (i64) (addr & 0xffffffffu) - (i64) BASE_OFF; Obj* o = id < s.mem.next ? s.mem.get(id) : nullptr;
          if (!o || off < 0 || (u64) off + I.w2 > o->size) { f->pc = pc; u32 a1, a2; locate(s, addr, I.w2, a1, a2, false); memFault(s); goto ended; }
          if (!o->sym && !o->un) { u64 c = 0; memcpy(&c, o->data + off, I.w2); R[I.dst] = CV(c & maskw(I.w)); }
          else { Val v = readObj(o, off, I.w2, I.w); if (v.e && v.e != UNDEF) v = resolve(s, v); R[I.dst] = v; }
          pc++; break; }
        case O_STORE: {
          Val p = OPV(I.a), v = OPV(I.b);
          if (p.e) { f->pc = pc; Res r = concretize(s, p, 64, "store address"); if (r == RES_END) goto ended; if (r == RES_RETRY) goto flush; }
          u64 addr = p.c + I.aux; u32 id, off; f->pc = pc; Obj* o = locate(s, addr, I.w2, id, off, true);
          if (!o) { memFault(s); goto ended; }
          o = s.mem.getW(id); writeObj(o, off, I.w2, v, I.w); pc++; break; }
        case O_GEP: {
          Val b = OPV(I.a); const GepInfo& g = fi->geps[I.aux]; bool cc = !b.e; u64 r = b.c + g.off;
          for (auto& ix : g.idx) { const Val& v = OPV(ix.reg); if (v.e) { cc = false; break; } r += (u64) (sextw(v.c, ix.w) * ix.scale); }
          if (cc) R[I.dst] = CV(r);
          else {
            bool un = b.e == UNDEF; for (auto& ix : g.idx) if (OPV(ix.reg).e == UNDEF) un = true;
            if (un) R[I.dst] = UV();
            else { const Expr* e = mkBin(E_ADD, toE(b, 64), mkConst(g.off, 64)); for (auto& ix : g.idx) { Val v = OPV(ix.reg); const Expr* x = v.e ? mkSext(v.e, 64) : mkConst(sextw(v.c, ix.w), 64); e = mkBin(E_ADD, e, mkBin(E_MUL, x, mkConst(ix.scale, 64))); } R[I.dst] = EV(e); }
          }
          pc++; break; }
        case O_ALLOCA: { Val n = OPV(I.a); if (n.e) { f->pc = pc; Res r = concretize(s, n, 64, "alloca size"); if (r == RES_END) goto ended; if (r == RES_RETRY) goto flush; } u32 id = s.mem.add(newObj(I.aux * n.c, K_STACK, true)); f->allocas.push_back(id); R[I.dst] = CV(addrOf(id)); pc++; break; }
        case O_ZEXT: { Val v = OPV(I.a); R[I.dst] = v.e ? (v.e == UNDEF ? v : EV(mkZext(v.e, I.w2))) : CV(v.c & maskw(I.w)); pc++; break; }
        case O_SEXT: { Val v = OPV(I.a); R[I.dst] = v.e ? (v.e == UNDEF ? v : EV(mkSext(v.e, I.w2))) : CV((u64) sextw(v.c, I.w) & maskw(I.w2)); pc++; break; }
        case O_TRUNC: { Val v = OPV(I.a); R[I.dst] = v.e ? (v.e == UNDEF ? v : EV(mkExtract(v.e, 0, I.w2))) : CV(v.c & maskw(I.w2)); pc++; break; }
        case O_COPY: R[I.dst] = OPV(I.a); pc++; break;
        case O_FREEZE: { R[I.dst] = OPV(I.a); pc++; break; }
        case O_RET: {
          f->pc = pc; Val t[8]; unsigned n = I.aux; for (unsigned i = 0; i < n && i < 8; i++) t[i] = OPV(I.a < 0 ? I.a - (int) i : I.a + (int) i);
          fi->instrs += n0; S.steps += n0; s.steps += n0; s.runSteps += n0; n0 = 0;
          if (doReturn(s, t, n) == RES_END) return STOP_END;
          goto refetch; }
        case O_CALL: {
          f->pc = pc; const CallInfo& ci = fi->calls[I.aux]; FuncInfo* cf = ci.f;
          if (!cf) { Val cv = OPV(ci.callee); if (cv.e) { Res r = concretize(s, cv, 64, "call target"); if (r == RES_END) goto ended; if (r == RES_RETRY) goto flush; } u32 k = (u32) (cv.c >> 32) - FN_BASE; if ((cv.c >> 32) < FN_BASE || k >= gFnByIdx.size()) { memErr = "wild"; memMsg = "call through invalid function pointer"; memFault(s); goto ended; } cf = gFnByIdx[k]; }
          argbuf.clear(); for (int a : ci.args) argbuf.push_back(OPV(a));
          fi->instrs += n0; S.steps += n0; s.steps += n0; s.runSteps += n0; n0 = 0;
          if (s.runSteps > optMaxSteps) { addViolation(s, "steps", "no termination within the step limit"); goto ended; }
          if (cf->builtin >= 0) {
            Val ret = CV(0); Res r = gBuiltinTab[cf->builtin](s, argbuf.data(), argbuf.size(), &ret, ci);
            if (r == RES_END) goto ended;
            if (r == RES_OK) { Frame& g = s.st.back(); if (I.dst >= 0) s.regs[g.rb + I.dst] = (!ret.e && ci.retw && ci.retw < 64) ? CV(ret.c & maskw(ci.retw)) : ret; g.pc++; }
            if (yieldOnFork && gWork.size() != work0) return STOP_YIELD;
            goto refetch;
          }
          if (cf->name == "__bx_enter") { // (argc, argv)
            resetRepoGlobals(s); s.runSteps = 0; s.runs++; s.inRepo = true; Val a2[2] = {argbuf[0], argbuf[1]};
            if (pushCall(s, gRepoMain, a2, 2, I.dst, 1, true, nullptr) == RES_END) goto ended; goto refetch; }
          if (cf->name == "__bx_leave") { leaveRun(s); s.st.back().pc++; goto refetch; }
          if (cf->F->isDeclaration()) { endUnsupported(s, "call to unmodelled function " + cf->name); goto ended; }
          if (pushCall(s, cf, argbuf.data(), argbuf.size(), I.dst, ci.nret, false, &ci) == RES_END) goto ended;
          goto refetch; }
        case O_FBIN: { Val a = OPV(I.a), b = OPV(I.b); f->pc = pc; if (a.e) { Res r = concretize(s, a, I.w, "float"); if (r == RES_END) goto ended; if (r == RES_RETRY) goto flush; } if (b.e) { Res r = concretize(s, b, I.w, "float"); if (r == RES_END) goto ended; if (r == RES_RETRY) goto flush; }
          double x = asD(a, I.w), y = asD(b, I.w), r = I.sub == 0 ? x + y : I.sub == 1 ? x - y : I.sub == 2 ? x * y : I.sub == 3 ? x / y : fmod(x, y); R[I.dst] = fromD(r, I.w); pc++; break; }
        case O_FNEG: { Val a = OPV(I.a); R[I.dst] = fromD(-asD(a, I.w), I.w); pc++; break; }
        case O_FCMP: { Val a = OPV(I.a), b = OPV(I.b); f->pc = pc; if (a.e) { Res r = concretize(s, a, I.w, "float"); if (r == RES_END) goto ended; if (r == RES_RETRY) goto flush; } if (b.e) { Res r = concretize(s, b, I.w, "float"); if (r == RES_END) goto ended; if (r == RES_RETRY) goto flush; }
          double x = asD(a, I.w), y = asD(b, I.w); bool un = x != x || y != y, r = false; switch (I.sub) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_TRUE: r = true; break; default: r = false; } R[I.dst] = CV(r); pc++; break; }
        case O_FCAST: { Val a = OPV(I.a); f->pc = pc; if (a.e) { Res r = concretize(s, a, I.w, "float"); if (r == RES_END) goto ended; if (r == RES_RETRY) goto flush; }
          switch (I.sub) { case Instruction::UIToFP: R[I.dst] = fromD((double) a.c, I.w2); break; case Instruction::SIToFP: R[I.dst] = fromD((double) sextw(a.c, I.w), I.w2); break; case Instruction::FPToUI: R[I.dst] = CV((u64) asD(a, I.w) & maskw(I.w2)); break; case Instruction::FPToSI: R[I.dst] = CV((u64) (i64) asD(a, I.w) & maskw(I.w2)); break; case Instruction::FPExt: case Instruction::FPTrunc: R[I.dst] = fromD(asD(a, I.w), I.w2); break; default: endUnsupported(s, "fp cast"); goto ended; } pc++; break; }
        case O_UNREACH: f->pc = pc; addViolation(s, "unreachable", "unreachable code reached"); goto ended;
        case O_BAD: f->pc = pc; { std::string t; raw_string_ostream os(t); if (I.dbg) I.dbg->print(os); endUnsupported(s, "instruction " + t); } goto ended;
        default: f->pc = pc; endUnsupported(s, "opcode"); goto ended;
      }
      continue;
    ended:
      fi->instrs += n0; S.steps += n0; s.steps += n0; return STOP_END;
    flush:
      fi->instrs += n0; S.steps += n0; s.steps += n0; s.runSteps += n0;
      if (s.runSteps > optMaxSteps) { addViolation(s, "steps", "no termination within the step limit"); return STOP_END; }
      if (yieldOnFork && gWork.size() != work0) return STOP_YIELD;
      goto refetch;
    }
  refetch:;
  }
}
