// LLVM IR -> internal code
static unsigned tyBits(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; return 0; }
static unsigned slots(Type* t) { if (auto* st = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto* e : st->elements()) n += slots(e); return n; } if (auto* at = dyn_cast<ArrayType>(t)) return at->getNumElements() * slots(at->getElementType()); if (t->isVoidTy()) return 0; return 1; }
static bool constVal(const Constant* c, Val& out);
static FuncInfo* funcInfo(const Function* F) { auto it = gFuncMap.find(F); return it == gFuncMap.end() ? nullptr : it->second; }

static bool constVal(const Constant* c, Val& out) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return false; out = CV(ci->getZExtValue()); return true; }
  if (isa<ConstantPointerNull>(c)) { out = CV(0); return true; }
  if (isa<UndefValue>(c)) { out = UV(); return true; }
  if (isa<ConstantAggregateZero>(c)) { out = CV(0); return true; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() > 64) return false; out = CV(a.getZExtValue()); return true; }
  if (auto* gv = dyn_cast<GlobalVariable>(c)) { auto it = gGlobalId.find(gv); if (it == gGlobalId.end()) return false; out = CV(addrOf(it->second)); return true; }
  if (auto* f = dyn_cast<Function>(c)) { FuncInfo* fi = funcInfo(f); if (!fi) return false; out = CV(fi->fnAddr); return true; }
  if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee(), out);
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    Val a, b;
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { if (!constVal(ce->getOperand(0), a)) return false; APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) return false; out = CV(a.c + off.getSExtValue()); return true; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: { if (!constVal(ce->getOperand(0), a)) return false; out = a; out.c &= maskw(tyBits(ce->getType())); return true; }
      case Instruction::Trunc: if (!constVal(ce->getOperand(0), a)) return false; out = CV(a.c & maskw(tyBits(ce->getType()))); return true;
      case Instruction::Sub: if (!constVal(ce->getOperand(0), a) || !constVal(ce->getOperand(1), b)) return false; out = CV((a.c - b.c) & maskw(tyBits(ce->getType()))); return true;
      case Instruction::Add: if (!constVal(ce->getOperand(0), a) || !constVal(ce->getOperand(1), b)) return false; out = CV((a.c + b.c) & maskw(tyBits(ce->getType()))); return true;
      default: return false;
    }
  }
  return false;
}
static void initMem(const Constant* c, u8* p) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* ca = dyn_cast<ConstantDataSequential>(c)) { unsigned es = DL->getTypeAllocSize(ca->getElementType()); for (unsigned i = 0; i < ca->getNumElements(); i++) { Val v; constVal(ca->getElementAsConstant(i), v); memcpy(p + i * es, &v.c, es); } return; }
  if (auto* ca = dyn_cast<ConstantArray>(c)) { unsigned es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initMem(ca->getOperand(i), p + i * es); return; }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) { const StructLayout* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initMem(cs->getOperand(i), p + sl->getElementOffset(i)); return; }
  Val v; if (!constVal(c, v)) { std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "cannot init global constant %s\n", s.c_str()); exit(3); }
  memcpy(p, &v.c, DL->getTypeStoreSize(t));
}

struct Decoder {
  FuncInfo* fi; bool fail = false; std::map<const Value*, int> reg; std::map<const BasicBlock*, u32> bbpc; std::vector<std::pair<u32, std::pair<const BasicBlock*, const BasicBlock*>>> fix;
  int addConst(Val v) { fi->consts.push_back(v); return -(int) fi->consts.size(); }
  int opnd(const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) {
      unsigned n = slots(c->getType());
      if (n > 1) { int first = 0; for (unsigned i = 0; i < n; i++) { Val x = UV(); Constant* e = isa<StructType>(c->getType()) || isa<ArrayType>(c->getType()) ? const_cast<Constant*>(c)->getAggregateElement(i) : nullptr; if (e) constVal(e, x); int k = addConst(x); if (!i) first = k; } return first; }
      Val x; if (!constVal(c, x)) { fail = true; return addConst(UV()); } return addConst(x);
    }
    auto it = reg.find(v); if (it == reg.end()) { fail = true; return addConst(UV()); } return it->second;
  }
  u32 edge(const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.target = 0; e.overlap = false; std::set<int> dsts;
    for (auto& phi : to->phis()) { int d = reg[&phi]; unsigned n = slots(phi.getType()); int s = opnd(phi.getIncomingValueForBlock(from)); for (unsigned i = 0; i < n; i++) e.copies.push_back({d + (int) i, s < 0 ? s - (int) i : s + (int) i}); }
    for (auto& c : e.copies) dsts.insert(c.first);
    for (auto& c : e.copies) if (dsts.count(c.second)) e.overlap = true;
    fi->edges.push_back(e); fix.push_back({(u32) fi->edges.size() - 1, {from, to}}); return fi->edges.size() - 1;
  }
  void run(FuncInfo* f) {
    fi = f; Function* F = f->F; f->decoded = true; f->vararg = F->isVarArg(); int n = 0;
    for (auto& a : F->args()) { reg[&a] = n; f->argRegs.push_back(n); n += slots(a.getType()); }
    for (auto& bb : *F) for (auto& I : bb) { unsigned k = slots(I.getType()); if (k) { reg[&I] = n; n += k; } }
    f->nregs = n;
    for (auto& bb : *F) { bbpc[&bb] = f->code.size(); for (auto& I : bb) if (!isa<PHINode>(I)) { fail = false; size_t sz = f->code.size(); one(&bb, &I); if (fail) { f->code.resize(sz); bad(&I); } } }
    for (auto& x : fix) f->edges[x.first].target = bbpc[x.second.second];
  }
  Inst mk(Op op, const Instruction* I) { Inst i; memset(&i, 0, sizeof i); i.op = op; i.dbg = I; auto it = reg.find(I); i.dst = it == reg.end() ? -1 : it->second; return i; }
  void bad(const Instruction* I) { fi->code.push_back(mk(O_BAD, I)); }
  void one(const BasicBlock* bb, const Instruction* I) {
    Inst i;
    if (auto* b = dyn_cast<BinaryOperator>(I)) {
      Type* t = I->getType();
      if (t->isVectorTy() || tyBits(t) > 64 || !tyBits(t)) { bad(I); return; }
      i = mk(t->isFloatingPointTy() ? O_FBIN : O_BIN, I); i.a = opnd(I->getOperand(0)); i.b = opnd(I->getOperand(1)); i.w = tyBits(t);
      switch (b->getOpcode()) {
        case Instruction::Add: i.sub = E_ADD; break; case Instruction::Sub: i.sub = E_SUB; break; case Instruction::Mul: i.sub = E_MUL; break;
        case Instruction::UDiv: i.sub = E_UDIV; break; case Instruction::SDiv: i.sub = E_SDIV; break; case Instruction::URem: i.sub = E_UREM; break; case Instruction::SRem: i.sub = E_SREM; break;
        case Instruction::And: i.sub = E_AND; break; case Instruction::Or: i.sub = E_OR; break; case Instruction::Xor: i.sub = E_XOR; break;
        case Instruction::Shl: i.sub = E_SHL; break; case Instruction::LShr: i.sub = E_LSHR; break; case Instruction::AShr: i.sub = E_ASHR; break;
        case Instruction::FAdd: i.sub = 0; break; case Instruction::FSub: i.sub = 1; break; case Instruction::FMul: i.sub = 2; break; case Instruction::FDiv: i.sub = 3; break; case Instruction::FRem: i.sub = 4; break;
        default: bad(I); return;
      }
      fi->code.push_back(i); return;
    }
    if (auto* c = dyn_cast<ICmpInst>(I)) { Type* t = c->getOperand(0)->getType(); if (!tyBits(t) || tyBits(t) > 64) { bad(I); return; } i = mk(O_ICMP, I); i.a = opnd(c->getOperand(0)); i.b = opnd(c->getOperand(1)); i.w = tyBits(t); i.sub = c->getPredicate(); i.w2 = t->isPointerTy(); fi->code.push_back(i); return; }
    if (auto* c = dyn_cast<FCmpInst>(I)) { i = mk(O_FCMP, I); i.a = opnd(c->getOperand(0)); i.b = opnd(c->getOperand(1)); i.w = tyBits(c->getOperand(0)->getType()); i.sub = c->getPredicate(); fi->code.push_back(i); return; }
    if (auto* c = dyn_cast<SelectInst>(I)) { if (slots(I->getType()) != 1) { bad(I); return; } i = mk(O_SELECT, I); i.a = opnd(c->getCondition()); i.b = opnd(c->getTrueValue()); i.c = opnd(c->getFalseValue()); i.w = tyBits(I->getType()); i.w2 = I->getType()->isPointerTy(); fi->code.push_back(i); return; }
    if (auto* b = dyn_cast<BranchInst>(I)) {
      if (b->isUnconditional()) { i = mk(O_BR, I); i.aux = edge(bb, b->getSuccessor(0)); }
      else { i = mk(O_CBR, I); i.a = opnd(b->getCondition()); i.b = edge(bb, b->getSuccessor(0)); i.c = edge(bb, b->getSuccessor(1)); }
      fi->code.push_back(i); return;
    }
    if (auto* s = dyn_cast<SwitchInst>(I)) { i = mk(O_SWITCH, I); i.a = opnd(s->getCondition()); i.w = tyBits(s->getCondition()->getType()); SwInfo si; for (auto& c : s->cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(), edge(bb, c.getCaseSuccessor())}); si.def = edge(bb, s->getDefaultDest()); fi->sws.push_back(si); i.aux = fi->sws.size() - 1; fi->code.push_back(i); return; }
    if (auto* l = dyn_cast<LoadInst>(I)) { loadstore(O_LOAD, I, I->getType(), l->getPointerOperand(), reg[I], nullptr); return; }
    if (auto* s = dyn_cast<StoreInst>(I)) { loadstore(O_STORE, I, s->getValueOperand()->getType(), s->getPointerOperand(), -1, s->getValueOperand()); return; }
    if (auto* g = dyn_cast<GetElementPtrInst>(I)) {
      i = mk(O_GEP, I); i.a = opnd(g->getPointerOperand()); GepInfo gi; gi.off = 0;
      for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        Value* v = it.getOperand();
        if (StructType* st = it.getStructTypeOrNull()) { gi.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue()); continue; }
        i64 sc = DL->getTypeAllocSize(it.getIndexedType());
        if (auto* ci = dyn_cast<ConstantInt>(v)) gi.off += ci->getSExtValue() * sc; else gi.idx.push_back({opnd(v), (u8) tyBits(v->getType()), sc});
      }
      fi->geps.push_back(gi); i.aux = fi->geps.size() - 1; fi->code.push_back(i); return;
    }
    if (auto* a = dyn_cast<AllocaInst>(I)) { i = mk(O_ALLOCA, I); i.aux = DL->getTypeAllocSize(a->getAllocatedType()); i.a = opnd(a->getArraySize()); fi->code.push_back(i); return; }
    if (auto* c = dyn_cast<CastInst>(I)) {
      Type *f = c->getSrcTy(), *t = c->getDestTy(); if (!tyBits(f) || !tyBits(t) || tyBits(f) > 64 || tyBits(t) > 64) { bad(I); return; }
      switch (c->getOpcode()) {
        case Instruction::ZExt: i = mk(O_ZEXT, I); break; case Instruction::SExt: i = mk(O_SEXT, I); break; case Instruction::Trunc: i = mk(O_TRUNC, I); break;
        case Instruction::BitCast: i = mk(O_COPY, I); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: i = mk(tyBits(f) > tyBits(t) ? O_TRUNC : tyBits(f) < tyBits(t) ? O_ZEXT : O_COPY, I); break;
        default: i = mk(O_FCAST, I); i.sub = c->getOpcode(); break;
      }
      i.a = opnd(c->getOperand(0)); i.w = tyBits(f); i.w2 = tyBits(t); fi->code.push_back(i); return;
    }
    if (auto* u = dyn_cast<UnaryOperator>(I)) { i = mk(O_FNEG, I); i.a = opnd(u->getOperand(0)); i.w = tyBits(I->getType()); fi->code.push_back(i); return; }
    if (isa<FreezeInst>(I)) { i = mk(O_FREEZE, I); i.a = opnd(I->getOperand(0)); i.w = tyBits(I->getType()); fi->code.push_back(i); return; }
    if (auto* x = dyn_cast<ExtractValueInst>(I)) { agg(x->getAggregateOperand()->getType(), x->getIndices(), I, x->getAggregateOperand(), nullptr); return; }
    if (auto* x = dyn_cast<InsertValueInst>(I)) { agg(x->getAggregateOperand()->getType(), x->getIndices(), I, x->getAggregateOperand(), x->getInsertedValueOperand()); return; }
    if (auto* r = dyn_cast<ReturnInst>(I)) { i = mk(O_RET, I); if (r->getReturnValue()) { i.a = opnd(r->getReturnValue()); i.aux = slots(r->getReturnValue()->getType()); } else i.aux = 0; fi->code.push_back(i); return; }
    if (isa<UnreachableInst>(I)) { fi->code.push_back(mk(O_UNREACH, I)); return; }
    if (auto* c = dyn_cast<CallInst>(I)) { call(c); return; }
    bad(I);
  }
  void agg(Type* t, ArrayRef<unsigned> idx, const Instruction* I, const Value* av, const Value* iv) {
    unsigned off = 0; Type* cur = t;
    for (unsigned k : idx) { if (auto* st = dyn_cast<StructType>(cur)) { for (unsigned j = 0; j < k; j++) off += slots(st->getElementType(j)); cur = st->getElementType(k); } else { auto* at = cast<ArrayType>(cur); off += k * slots(at->getElementType()); cur = at->getElementType(); } }
    int a = opnd(av); auto at = [](int base, unsigned k) { return base < 0 ? base - (int) k : base + (int) k; };
    if (!iv) { for (unsigned j = 0; j < slots(cur); j++) { Inst i = mk(O_COPY, I); i.dst = reg[I] + j; i.a = at(a, off + j); i.w = i.w2 = 64; fi->code.push_back(i); } }
    else { for (unsigned j = 0; j < slots(t); j++) { Inst i = mk(O_COPY, I); i.dst = reg[I] + j; i.a = at(a, j); i.w = i.w2 = 64; fi->code.push_back(i); }
      int v = opnd(iv); for (unsigned j = 0; j < slots(cur); j++) { Inst i = mk(O_COPY, I); i.dst = reg[I] + off + j; i.a = at(v, j); i.w = i.w2 = 64; fi->code.push_back(i); } }
  }
  void leaves(Type* t, u64 off, std::vector<std::pair<Type*, u64>>& out) {
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned k = 0; k < st->getNumElements(); k++) leaves(st->getElementType(k), off + sl->getElementOffset(k), out); }
    else if (auto* at = dyn_cast<ArrayType>(t)) { for (unsigned k = 0; k < at->getNumElements(); k++) leaves(at->getElementType(), off + k * DL->getTypeAllocSize(at->getElementType()), out); }
    else out.push_back({t, off});
  }
  void loadstore(Op op, const Instruction* I, Type* t, const Value* ptr, int dst, const Value* val) {
    std::vector<std::pair<Type*, u64>> L; leaves(t, 0, L); int p = opnd(ptr), v = val ? opnd(val) : 0;
    for (size_t k = 0; k < L.size(); k++) {
      unsigned w = tyBits(L[k].first); if (!w || w > 64) { bad(I); return; }
      Inst i = mk(op, I); i.a = p; i.w = w; i.w2 = (w + 7) / 8; i.aux = L[k].second; i.dst = op == O_LOAD ? dst + (int) k : -1; i.b = v < 0 ? v - (int) k : v + (int) k; fi->code.push_back(i);
    }
  }
  void call(const CallInst* c) {
    if (c->isInlineAsm()) { bad(c); return; }
    if (auto* ii = dyn_cast<IntrinsicInst>(c)) { switch (ii->getIntrinsicID()) { case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: return; default: break; } }
    Inst i = mk(O_CALL, c); CallInfo ci; ci.f = nullptr; ci.builtin = -1; ci.callee = 0; ci.nret = slots(c->getType()); ci.isvoid = !ci.nret; ci.retw = tyBits(c->getType());
    const Value* cv = c->getCalledOperand()->stripPointerCasts();
    if (auto* F = dyn_cast<Function>(cv)) { ci.f = funcInfo(F); } else ci.callee = opnd(c->getCalledOperand());
    for (unsigned k = 0; k < c->arg_size(); k++) {
      Type* t = c->getArgOperand(k)->getType(); unsigned n = slots(t); int o = isa<MetadataAsValue>(c->getArgOperand(k)) ? addConst(CV(0)) : opnd(c->getArgOperand(k));
      for (unsigned j = 0; j < n; j++) { ci.args.push_back(o < 0 ? o - (int) j : o + (int) j); ci.aw.push_back(n == 1 ? tyBits(t) : 64); ci.byval.push_back(c->isByValArgument(k) ? (u32) DL->getTypeAllocSize(c->getParamByValType(k)) : 0); }
    }
    fi->calls.push_back(ci); i.aux = fi->calls.size() - 1; fi->code.push_back(i);
  }
};
static void decodeFn(FuncInfo* f) { Decoder d; // consts are stored so that operand -k refers to consts[k-1]
  d.run(f); }
