// program set-up, exploration, results
static std::string jesc(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string hexs(const std::string& s) { std::string r; char b[4]; for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; } return r; }

static u64 gRng = 88172645463325252ull; static u64 rnd() { gRng ^= gRng << 13; gRng ^= gRng >> 7; gRng ^= gRng << 17; return gRng; }
static u64 gTraceSeen = 0;
static void finishPath(State& s) {
  S.paths++;
  if (!s.usedVars.empty()) { // reachability witness: the path condition is satisfiable
    std::vector<u8> m = s.model; int r = zsolve(s, {}, &m, true);
    if (r == 0) { fprintf(stderr, "INTERNAL: completed path is infeasible\n"); abort(); }
    if (r == 1) s.model = m;
  }
  gTraceSeen++; size_t slot = gTraces.size();
  if (gTraces.size() >= optMaxTraceKeep) { slot = rnd() % gTraceSeen; if (slot >= optMaxTraceKeep) return; }
  TraceRec t; t.log = logStr(s, s.model);
  for (auto& v : s.trace) t.trace.push_back(v.e == UNDEF ? '?' : v.e ? (char) evalExpr(v.e, s.model.data()) : (char) v.c);
  if (slot == gTraces.size()) gTraces.push_back(t); else gTraces[slot] = t;
}
static void mergeMap(FILE* f, const char* n, const std::map<std::string, u64>& m) { fprintf(f, "\"%s\":{", n); bool c = false; for (auto& k : m) { fprintf(f, "%s%s:%llu", c ? "," : "", jesc(k.first).c_str(), (unsigned long long) k.second); c = true; } fprintf(f, "},"); }
static void writeResults(const std::string& path) {
  FILE* f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); _exit(3); }
  fprintf(f, "{\"paths\":%llu,\"forks\":%llu,\"steps\":%llu,\"z3\":%llu,\"z3sat\":%llu,\"z3unsat\":%llu,\"z3unknown\":%llu,\"asserts\":%llu,\"asserts_folded\":%llu,\"asserts_queried\":%llu,\"unary\":%llu,\"limit\":%llu,\"unsupported\":%llu,\"assume_killed\":%llu,\"concretized\":%llu,\"dropped\":%llu,\"z3_time\":%.4f,\"exprs\":%llu,",
    (unsigned long long) S.paths, (unsigned long long) S.forks, (unsigned long long) S.steps, (unsigned long long) S.z3, (unsigned long long) S.z3sat, (unsigned long long) S.z3unsat, (unsigned long long) S.z3unk, (unsigned long long) S.asserts, (unsigned long long) S.assertTriv, (unsigned long long) S.assertQ, (unsigned long long) S.unary, (unsigned long long) S.limit, (unsigned long long) S.unsupported, (unsigned long long) S.assumeKilled, (unsigned long long) S.concretized, (unsigned long long) S.dropped, S.z3t, (unsigned long long) gExprCount);
  mergeMap(f, "cover", gCover); mergeMap(f, "unsup", gUnsup); mergeMap(f, "limits", gLimits);
  std::map<std::string, u64> fn; for (auto& p : gFuncs) if (p.second->repo && p.second->entered) fn[p.first] = p.second->instrs; mergeMap(f, "functions", fn);
  fprintf(f, "\"violations\":["); bool c = false; for (auto& v : gViol) { fprintf(f, "%s{\"kind\":%s,\"msg\":%s,\"where\":%s,\"log\":%s}", c ? "," : "", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.where).c_str(), jesc(v.log).c_str()); c = true; }
  fprintf(f, "],\"traces\":["); c = false; for (auto& t : gTraces) { fprintf(f, "%s{\"log\":%s,\"trace\":\"%s\"}", c ? "," : "", jesc(t.log).c_str(), hexs(t.trace).c_str()); c = true; }
  fprintf(f, "]}\n"); fclose(f);
}
static void dfs(State* init) {
  std::vector<State*> stack{init};
  while (!stack.empty()) {
    if (now() > optDeadline || S.paths >= optMaxPaths) { S.dropped += stack.size(); for (auto x : stack) delete x; return; }
    State* s = stack.back(); stack.pop_back(); gWork.clear();
    StopReason r = runState(*s, false); // forks are collected in gWork while s runs on to its end
    (void) r;
    bool normal = s->st.empty(); if (normal) finishPath(*s);
    delete s;
    for (auto x : gWork) stack.push_back(x); gWork.clear();
  }
}
static std::unique_ptr<Module> loadMod(const char* p) { SMDiagnostic e; auto m = parseIRFile(p, e, Ctx); if (!m) { e.print(p, errs()); exit(3); } return m; }

int main(int argc, char** argv) {
  std::vector<std::string> mods; std::string entry = "harness_main", repo; std::string only;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--repo") repo = nx(); else if (a == "--out") optOut = nx(); else if (a == "--workers") optWorkers = atoi(nx().c_str()); else if (a == "--frontier") optFrontier = atoi(nx().c_str());
    else if (a == "--time") optDeadline = now() + atof(nx().c_str()); else if (a == "--steps") optMaxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "-v") optVerbose = true; else if (a == "--entry") entry = nx();
    else if (a == "--traces") optMaxTraceKeep = atoi(nx().c_str()); else if (a == "--seed") gRng ^= strtoull(nx().c_str(), 0, 10) * 0x9E3779B97F4A7C15ull; else if (a == "--max-paths") optMaxPaths = strtoull(nx().c_str(), 0, 10); else if (a == "--maxviol") optMaxViol = atoi(nx().c_str()); else if (a == "--ztimeout") zTimeout = atoi(nx().c_str());
    else mods.push_back(a);
  }
  UNDEF_E.op = E_CONST; UNDEF_E.w = 64; UNDEF_E.var = -1;
  auto base = loadMod(repo.c_str());
  // internal linkage for everything but main so that harness/model names cannot clash; remember what belongs to the repository
  std::set<Function*> repoF; for (auto& f : *base) if (!f.isDeclaration()) repoF.insert(&f);
  for (auto& g : base->globals()) if (g.hasInitializer()) gRepoGV.insert(&g);
  for (auto& m : mods) { auto x = loadMod(m.c_str()); if (Linker::linkModules(*base, std::move(x))) { fprintf(stderr, "link failed: %s\n", m.c_str()); return 3; } }
  M = base.get(); DL = &M->getDataLayout(); setupBuiltins();
  State* init = new State(); std::vector<std::pair<GlobalVariable*, u32>> gl;
  for (auto& f : *M) { FuncInfo* fi = new FuncInfo; fi->F = &f; fi->name = f.getName().str(); fi->repo = repoF.count(&f); fi->fnAddr = (u64) (FN_BASE + gFnByIdx.size()) << 32; gFnByIdx.push_back(fi); gFuncs[fi->name] = fi; gFuncMap[&f] = fi;
    std::string n = fi->name; BFn b = nullptr;
    if (f.isDeclaration()) {
      if (n.rfind("llvm.memcpy", 0) == 0) b = b_memcpy; else if (n.rfind("llvm.memmove", 0) == 0) b = b_memmove; else if (n.rfind("llvm.memset", 0) == 0) b = b_memset; else if (n.rfind("llvm.va_start", 0) == 0) b = b_va_start; else if (n.rfind("llvm.va_end", 0) == 0) b = b_nop; else if (n.rfind("llvm.va_copy", 0) == 0) b = b_va_copy; else if (n.rfind("llvm.stack", 0) == 0) b = b_nop; else if (n.rfind("llvm.expect", 0) == 0) b = [](State&, Val* a, unsigned, Val* r, const CallInfo&) { *r = a[0]; return RES_OK; };
      else if (n.rfind("llvm.umax", 0) == 0 || n.rfind("llvm.umin", 0) == 0 || n.rfind("llvm.smax", 0) == 0 || n.rfind("llvm.smin", 0) == 0) {
#define MM(nm, cmp) if (n.rfind(nm, 0) == 0) b = [](State& s, Val* a, unsigned, Val* r, const CallInfo& ci) { unsigned w = ci.retw; if (a[0].e == UNDEF || a[1].e == UNDEF) { *r = UV(); return RES_OK; } const Expr *x = toE(a[0], w), *y = toE(a[1], w); *r = EV(mkIte(mkBin(cmp, x, y), x, y)); return RES_OK; };
        MM("llvm.umin", E_ULT) MM("llvm.smin", E_SLT)
        if (n.rfind("llvm.umax", 0) == 0) b = [](State& s, Val* a, unsigned, Val* r, const CallInfo& ci) { unsigned w = ci.retw; if (a[0].e == UNDEF || a[1].e == UNDEF) { *r = UV(); return RES_OK; } const Expr *x = toE(a[0], w), *y = toE(a[1], w); *r = EV(mkIte(mkBin(E_ULT, x, y), y, x)); return RES_OK; };
        if (n.rfind("llvm.smax", 0) == 0) b = [](State& s, Val* a, unsigned, Val* r, const CallInfo& ci) { unsigned w = ci.retw; if (a[0].e == UNDEF || a[1].e == UNDEF) { *r = UV(); return RES_OK; } const Expr *x = toE(a[0], w), *y = toE(a[1], w); *r = EV(mkIte(mkBin(E_SLT, x, y), y, x)); return RES_OK; };
      }
      else if (n.rfind("llvm.abs", 0) == 0) b = [](State& s, Val* a, unsigned, Val* r, const CallInfo& ci) { unsigned w = ci.retw; if (a[0].e == UNDEF) { *r = UV(); return RES_OK; } const Expr* x = toE(a[0], w); *r = EV(mkIte(mkBin(E_SLT, x, mkConst(0, w)), mkBin(E_SUB, mkConst(0, w), x), x)); return RES_OK; };
      else if (n.rfind("llvm.usub.sat", 0) == 0) b = [](State& s, Val* a, unsigned, Val* r, const CallInfo& ci) { unsigned w = ci.retw; if (a[0].e == UNDEF || a[1].e == UNDEF) { *r = UV(); return RES_OK; } const Expr *x = toE(a[0], w), *y = toE(a[1], w); *r = EV(mkIte(mkBin(E_ULT, x, y), mkConst(0, w), mkBin(E_SUB, x, y))); return RES_OK; };
      else if (n.rfind("llvm.uadd.sat", 0) == 0) b = [](State& s, Val* a, unsigned, Val* r, const CallInfo& ci) { unsigned w = ci.retw; if (a[0].e == UNDEF || a[1].e == UNDEF) { *r = UV(); return RES_OK; } const Expr *x = toE(a[0], w), *y = toE(a[1], w), *z = mkBin(E_ADD, x, y); *r = EV(mkIte(mkBin(E_ULT, z, x), mkConst(maskw(w), w), z)); return RES_OK; };
      else if (n.rfind("llvm.fshl", 0) == 0) b = [](State& s, Val* a, unsigned, Val* r, const CallInfo& ci) { unsigned w = ci.retw; for (int i = 0; i < 3; i++) { if (a[i].e == UNDEF) { *r = UV(); return RES_OK; } } NEED(2, w, "shift amount"); unsigned k = a[2].c % w; const Expr *x = toE(a[0], w), *y = toE(a[1], w); *r = k ? EV(mkBin(E_OR, mkBin(E_SHL, x, mkConst(k, w)), mkBin(E_LSHR, y, mkConst(w - k, w)))) : a[0]; return RES_OK; };
      else { auto it = gBuiltins.find(n); if (it != gBuiltins.end()) b = it->second; }
    }
    if (b) { fi->builtin = gBuiltinTab.size(); gBuiltinTab.push_back(b); gBuiltinNames.push_back(n); }
  }
  for (auto& g : M->globals()) { if (!g.hasInitializer()) continue; Type* t = g.getValueType(); Obj* o = newObj(DL->getTypeAllocSize(t), g.isConstant() ? K_CONST : K_GLOBAL, false); o->tag = internStr(g.getName().str()); u32 id = init->mem.add(o); gGlobalId[&g] = id; gl.push_back({&g, id}); }
  for (auto& p : gl) initMem(p.first->getInitializer(), init->mem.get(p.second)->data);
  for (auto& p : gl) if (gRepoGV.count(p.first) && !p.first->isConstant()) { Obj* o = init->mem.get(p.second); o->rc++; gRepoGlobals.push_back({p.second, o}); }
  gCtypeB = ctypeObj(*init, *__ctype_b_loc(), 2); gCtypeLo = ctypeObj(*init, *__ctype_tolower_loc(), 4); gCtypeUp = ctypeObj(*init, *__ctype_toupper_loc(), 4);
  gRepoMain = gFuncs.count("boxes_main") ? gFuncs["boxes_main"] : nullptr; if (!gRepoMain || !gFuncs.count(entry)) { fprintf(stderr, "no main/entry\n"); return 3; }
  pushCall(*init, gFuncs[entry], nullptr, 0, -1, 0, false, nullptr);

  // breadth-first until there is enough to share out
  std::deque<State*> q{init}; size_t done = 0;
  while (!q.empty() && (int) q.size() < optFrontier && now() < optDeadline) {
    State* s = q.front(); q.pop_front(); gWork.clear();
    StopReason r = runState(*s, true);
    if (r == STOP_END) { if (s->st.empty()) finishPath(*s); delete s; } else q.push_back(s);
    for (auto x : gWork) q.push_back(x); gWork.clear(); (void) done;
  }
  if (q.empty()) { writeResults(optOut + "/result.0.json"); return 0; }
  // share out to worker processes
  std::vector<State*> fr(q.begin(), q.end());
  writeResults(optOut + "/result.0.json");
  int* next = (int*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); *next = 0;
  std::vector<pid_t> pids; int W = std::min<int>(optWorkers, fr.size());
  fflush(nullptr);
  for (int w = 1; w <= W; w++) {
    pid_t p = fork();
    if (p == 0) {
      gWid = w; gRng += w * 7919; S = Stats(); gCover.clear(); gUnsup.clear(); gLimits.clear(); gViol.clear(); gTraces.clear(); gTraceSeen = 0; for (auto& f : gFuncs) { f.second->instrs = 0; }
      if (Z) { Z = nullptr; zinit(); }
      for (;;) { int k = __sync_fetch_and_add(next, 1); if (k >= (int) fr.size()) break; State* x = fr[k]; fr[k] = nullptr; dfs(x); }
      writeResults(optOut + "/result." + std::to_string(w) + ".json"); _exit(0);
    }
    pids.push_back(p);
  }
  int bad = 0; for (auto p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad++; fprintf(stderr, "worker ended abnormally (status %d)\n", st); } }
  return bad ? 4 : 0;
}
