// symex: a symbolic executor for LLVM IR, deciding path feasibility and assertions with z3.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3++.h>
#include <deque>
#include <set>
#include <array>
#include <cmath>
#include <ctype.h>
#include <unistd.h>
#include <time.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unictype.h>
#include <uniwidth.h>
#include <uniconv.h>
#include <unicase.h>
#include <errno.h>
#include <strings.h>
using namespace llvm;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- values and memory
static Expr UNDEF_E;
#define UNDEF (&UNDEF_E)
struct Val { u64 c; const Expr* e; };
static inline Val CV(u64 c) { return Val{c, nullptr}; }
static inline Val EV(const Expr* e) { return isConst(e) ? Val{e->c, nullptr} : Val{0, e}; }
static inline Val UV() { return Val{0, UNDEF}; }
static inline const Expr* toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

static const u64 BASE_OFF = 0x40000000ull;
enum ObjKind : u8 { K_GLOBAL, K_CONST, K_HEAP, K_STACK };
struct Obj {
  int rc; u32 size; ObjKind kind; bool lib; u8* data; u8* un; const Expr** sym; const char* tag;
};
static Obj* newObj(u32 size, ObjKind k, bool uninit) {
  Obj* o = new Obj; o->rc = 1; o->size = size; o->kind = k; o->lib = false; o->data = (u8*) calloc(1, size ? size : 1); o->sym = nullptr; o->tag = nullptr;
  o->un = nullptr; if (uninit && size) { o->un = (u8*) malloc(size); memset(o->un, 1, size); }
  return o;
}
static void unref(Obj* o) { if (o && --o->rc == 0) { free(o->data); free(o->un); free(o->sym); delete o; } }
static Obj* cloneObj(Obj* o) {
  Obj* n = new Obj(*o); n->rc = 1; n->data = (u8*) malloc(o->size ? o->size : 1); memcpy(n->data, o->data, o->size);
  if (o->un) { n->un = (u8*) malloc(o->size); memcpy(n->un, o->un, o->size); }
  if (o->sym) { n->sym = (const Expr**) malloc(sizeof(void*) * o->size); memcpy(n->sym, o->sym, sizeof(void*) * o->size); }
  return n;
}
enum { CHUNK = 128 };
struct Chunk { int rc; Obj* o[CHUNK]; };
struct ObjTable {
  std::vector<Chunk*> ch; u32 next = 1;
  ObjTable() {}
  ObjTable(const ObjTable& t) : ch(t.ch), next(t.next) { for (auto c : ch) if (c) c->rc++; }
  ObjTable& operator=(const ObjTable&) = delete;
  static void unrefChunk(Chunk* c) { if (c && --c->rc == 0) { for (auto o : c->o) unref(o); delete c; } }
  ~ObjTable() { for (auto c : ch) unrefChunk(c); }
  Obj* get(u32 id) const { u32 k = id / CHUNK; if (k >= ch.size() || !ch[k]) return nullptr; return ch[k]->o[id % CHUNK]; }
  Chunk* own(u32 k) {
    Chunk* c = ch[k];
    if (c->rc > 1) { Chunk* n = new Chunk(*c); n->rc = 1; for (auto o : n->o) if (o) o->rc++; c->rc--; ch[k] = n; return n; }
    return c;
  }
  Obj* getW(u32 id) { u32 k = id / CHUNK; Chunk* c = own(k); Obj*& o = c->o[id % CHUNK]; if (o->rc > 1) { Obj* n = cloneObj(o); o->rc--; o = n; } return o; }
  u32 add(Obj* o) {
    u32 id = next++; u32 k = id / CHUNK;
    if (k >= ch.size()) ch.resize(k + 1, nullptr);
    if (!ch[k]) { ch[k] = new Chunk; ch[k]->rc = 1; memset(ch[k]->o, 0, sizeof ch[k]->o); }
    own(k)->o[id % CHUNK] = o; return id;
  }
  void del(u32 id) { u32 k = id / CHUNK; Chunk* c = own(k); unref(c->o[id % CHUNK]); c->o[id % CHUNK] = nullptr; }
  void set(u32 id, Obj* o) { u32 k = id / CHUNK; Chunk* c = own(k); unref(c->o[id % CHUNK]); c->o[id % CHUNK] = o; }
};
static inline u64 addrOf(u32 id, i64 off = 0) { return ((u64) id << 32) + BASE_OFF + off; }

// ---------------------------------------------------------------- code
enum Op : u8 { O_BIN, O_ICMP, O_SELECT, O_BR, O_CBR, O_SWITCH, O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_CALL, O_RET, O_ZEXT, O_SEXT, O_TRUNC, O_COPY, O_PTRCAST,
  O_FBIN, O_FCMP, O_FCAST, O_UNREACH, O_FNEG, O_FREEZE, O_BAD };
struct FuncInfo;
struct Edge { u32 target; std::vector<std::pair<int, int>> copies; bool overlap; };
struct Inst {
  Op op; u8 w; u8 w2; u8 sub; int dst, a, b, c; u32 aux; const Instruction* dbg;
};
struct GepIdx { int reg; u8 w; i64 scale; };
struct GepInfo { std::vector<GepIdx> idx; i64 off; };
struct CallInfo { FuncInfo* f; int callee; std::vector<int> args; std::vector<u8> aw; std::vector<u32> byval; int builtin; u32 nret; bool isvoid; unsigned retw; };
struct SwInfo { std::vector<std::pair<u64, u32>> cases; u32 def; std::vector<u32> edges; };
struct FuncInfo {
  Function* F; std::string name; bool repo; bool decoded = false; int nregs = 0; std::vector<Inst> code; std::vector<Val> consts;
  std::vector<Edge> edges; std::vector<GepInfo> geps; std::vector<CallInfo> calls; std::vector<SwInfo> sws; std::vector<int> argRegs; std::vector<std::pair<int,int>> aggs;
  bool vararg = false; u64 fnAddr = 0; int builtin = -1; u64 instrs = 0; u32 entered = 0;
};
struct Frame { FuncInfo* f; u32 pc; u32 rb; std::vector<u32> allocas; u64 vaObj; bool boundary; int retDst; u32 nret; };

static std::map<std::string, FuncInfo*> gFuncs;
static std::map<const Function*, FuncInfo*> gFuncMap;
static std::vector<FuncInfo*> gFnByIdx;
static const u32 FN_BASE = 0x60000000u;
static Module* M; static const DataLayout* DL; static LLVMContext Ctx;
static std::map<const GlobalVariable*, u32> gGlobalId;
static std::vector<std::pair<u32, Obj*>> gRepoGlobals; // pristine copies
static std::set<const GlobalVariable*> gRepoGV;

// ---------------------------------------------------------------- state
struct Dom { u64 b[4]; };
static inline bool domHas(const Dom& d, u8 v) { return d.b[v >> 6] >> (v & 63) & 1; }
struct LogEnt { u8 kind; const char* name; int val; }; // 0 choice, 1 byte var (val = var id), 2 const byte
struct AssertEnt { const Expr* e; const char* msg; };
struct State {
  ObjTable mem; std::vector<Frame> st; std::vector<Val> regs; u64 steps = 0; u64 runSteps = 0;
  std::vector<Dom> dom; std::vector<const Expr*> pc; std::vector<u8> multi; // multi[v]: v occurs in pc
  std::vector<u8> model; std::vector<LogEnt> log; std::vector<Val> trace; std::vector<AssertEnt> asserts; u32 trivialAsserts = 0;
  std::set<int> usedVars; u32 runs = 0; u32 nforks = 0; std::vector<u32> runHeap; bool inRepo = false;
  void ensure(int v) { while ((int) dom.size() <= v) { Dom d; int k = dom.size(); memcpy(d.b, gVars[k].bits, sizeof d.b); dom.push_back(d); multi.push_back(0); model.push_back(gVars[k].vals[0]); } }
};
static std::deque<State*> gWork; // pending
static bool gDfs = false;

// options
static u64 optMaxSteps = 500000000ull; static double optDeadline = 1e18; static int optWorkers = 8; static int optFrontier = 400; static int optMaxViol = 3; static u64 optMaxTraceKeep = 12;
static bool optVerbose = false; static bool optUninit = true; static u64 optMaxPaths = ~0ull; static bool optCheckUnary = true;
static std::string optOut = "."; static int gWid = 0;

// stats
struct Stats { u64 paths = 0, forks = 0, steps = 0, z3 = 0, z3sat = 0, z3unsat = 0, z3unk = 0, asserts = 0, assertTriv = 0, assertQ = 0, unary = 0, limit = 0, unsupported = 0, assumeKilled = 0, concretized = 0, dropped = 0; double z3t = 0; };
static Stats S;
static std::map<std::string, u64> gCover, gUnsup, gLimits;
struct Violation { std::string kind, msg, where, log; };
static std::vector<Violation> gViol; static std::map<std::string, int> gViolSeen;
struct TraceRec { std::string log; std::string trace; };
static std::vector<TraceRec> gTraces;

// ---------------------------------------------------------------- z3
static z3::context* Z = nullptr; static std::unordered_map<const Expr*, Z3_ast>* zmemo; static z3::solver* ZS; static unsigned zTimeout = 20000;
static std::vector<z3::expr>* zkeep;
static void zinit() { if (!Z) { Z = new z3::context(); zmemo = new std::unordered_map<const Expr*, Z3_ast>(); zkeep = new std::vector<z3::expr>(); ZS = new z3::solver(*Z, "QF_BV"); z3::params p(*Z); p.set("timeout", zTimeout); ZS->set(p); } }
static z3::expr zx(const Expr* e) {
  auto it = zmemo->find(e); if (it != zmemo->end()) return z3::expr(*Z, it->second);
  z3::context& c = *Z; z3::expr r(c); auto b1 = [&](z3::expr x) { return z3::ite(x, c.bv_val(1, 1), c.bv_val(0, 1)); };
  switch (e->op) {
    case E_VAR: r = c.bv_const(("v" + std::to_string(e->c)).c_str(), 8); break;
    case E_CONST: r = c.bv_val((uint64_t) e->c, e->w); break;
    case E_ADD: r = zx(e->a) + zx(e->b); break; case E_SUB: r = zx(e->a) - zx(e->b); break; case E_MUL: r = zx(e->a) * zx(e->b); break;
    case E_UDIV: r = z3::udiv(zx(e->a), zx(e->b)); break; case E_SDIV: r = zx(e->a) / zx(e->b); break;
    case E_UREM: r = z3::urem(zx(e->a), zx(e->b)); break; case E_SREM: r = z3::srem(zx(e->a), zx(e->b)); break;
    case E_AND: r = zx(e->a) & zx(e->b); break; case E_OR: r = zx(e->a) | zx(e->b); break; case E_XOR: r = zx(e->a) ^ zx(e->b); break;
    case E_SHL: r = z3::shl(zx(e->a), zx(e->b)); break; case E_LSHR: r = z3::lshr(zx(e->a), zx(e->b)); break; case E_ASHR: r = z3::ashr(zx(e->a), zx(e->b)); break;
    case E_ZEXT: r = z3::zext(zx(e->a), e->w - e->a->w); break; case E_SEXT: r = z3::sext(zx(e->a), e->w - e->a->w); break;
    case E_EXTRACT: r = zx(e->a).extract(e->c + e->w - 1, e->c); break; case E_CONCAT: r = z3::concat(zx(e->a), zx(e->b)); break;
    case E_EQ: r = b1(zx(e->a) == zx(e->b)); break; case E_ULT: r = b1(z3::ult(zx(e->a), zx(e->b))); break; case E_ULE: r = b1(z3::ule(zx(e->a), zx(e->b))); break;
    case E_SLT: r = b1(z3::slt(zx(e->a), zx(e->b))); break; case E_SLE: r = b1(z3::sle(zx(e->a), zx(e->b))); break;
    case E_ITE: r = z3::ite(zx(e->a) == c.bv_val(1, 1), zx(e->b), zx(e->d)); break;
    case E_TAB: { const VarInfo& vi = gVars[e->var]; z3::expr v = zx(e->a); r = c.bv_val((uint64_t) e->tab[0], e->w);
      for (size_t i = 1; i < vi.vals.size(); i++) if (e->tab[i] != e->tab[0]) r = z3::ite(v == c.bv_val(vi.vals[i], 8), c.bv_val((uint64_t) e->tab[i], e->w), r); break; }
  }
  if (r.get_sort().bv_size() != e->w) { fprintf(stderr, "INTERNAL: width of %s\n", exprStr(e).c_str()); abort(); }
  zkeep->push_back(r); (*zmemo)[e] = r; return r;
}
static z3::expr zdom(int v, const Dom& d) {
  z3::expr x = zx(mkVar(v)); z3::expr r = Z->bool_val(false);
  for (int i = 0; i < 256;) { if (!domHas(d, i)) { i++; continue; } int j = i; while (j < 255 && domHas(d, j + 1)) j++;
    if (i == j) r = r || x == Z->bv_val(i, 8); else r = r || (z3::uge(x, Z->bv_val(i, 8)) && z3::ule(x, Z->bv_val(j, 8))); i = j + 1; }
  return r;
}
// is pc /\ dom /\ extra satisfiable?  On sat the model is written into m (copy of s.model).
static int zsolve(State& s, const std::vector<const Expr*>& extra, std::vector<u8>* m, bool all = false, int seed = -1) {
  zinit(); double t0 = now();
  std::set<int> vs; std::vector<int> q;
  auto addv = [&](const Expr* e) { if (e->var >= 0) { if (vs.insert(e->var).second) q.push_back(e->var); } else if (e->var == -2) for (int v : *e->vars) if (vs.insert(v).second) q.push_back(v); };
  for (auto e : extra) addv(e);
  if (seed >= 0) { vs.insert(seed); q.push_back(seed); }
  std::vector<char> used(s.pc.size(), all ? 1 : 0);
  if (all) { for (auto e : s.pc) addv(e); for (int v : s.usedVars) if (vs.insert(v).second) q.push_back(v); }
  bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) { bool hit = false; const Expr* e = s.pc[i]; if (e->var >= 0) hit = vs.count(e->var); else for (int v : *e->vars) if (vs.count(v)) { hit = true; break; }
      if (hit) { used[i] = 1; addv(e); ch = true; } } }
  ZS->push();
  z3::expr one = Z->bv_val(1, 1);
  for (int v : vs) { s.ensure(v); ZS->add(zdom(v, s.dom[v])); }
  for (size_t i = 0; i < s.pc.size(); i++) if (used[i]) ZS->add(zx(s.pc[i]) == one);
  for (auto e : extra) ZS->add(zx(e) == one);
  z3::check_result r = ZS->check(); S.z3++;
  int res = r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
  if (res == 1) { S.z3sat++; if (m) { z3::model mo = ZS->get_model(); for (int v : vs) { z3::expr ev = mo.eval(zx(mkVar(v)), true); if ((int) m->size() <= v) m->resize(v + 1); (*m)[v] = (u8) ev.get_numeral_uint64(); } } }
  else if (res == 0) S.z3unsat++; else S.z3unk++;
  ZS->pop(); S.z3t += now() - t0;
  if (zkeep->size() > 400000) { delete ZS; zmemo->clear(); zkeep->clear(); ZS = new z3::solver(*Z, "QF_BV"); z3::params p(*Z); p.set("timeout", zTimeout); ZS->set(p); }
  return res;
}
// cross-check by z3 that the partition of a unary condition is right (cached)
struct UKey { const Expr* e; u64 b[4]; bool operator<(const UKey& o) const { return e != o.e ? e < o.e : memcmp(b, o.b, sizeof b) < 0; } };
static std::set<UKey> gUChecked;
static bool unaryConfirmed(State& s, const Expr* e, bool canT, bool canF) {
  if (!optCheckUnary) return true;
  UKey k; k.e = e; memcpy(k.b, s.dom[e->var].b, sizeof k.b);
  if (!gUChecked.insert(k).second) return true;
  S.unary++; zinit(); double t0 = now();
  ZS->push(); ZS->add(zdom(e->var, s.dom[e->var])); z3::expr c = zx(e) == Z->bv_val(1, 1);
  bool ok = true;
  ZS->push(); ZS->add(c); z3::check_result r1 = ZS->check(); ZS->pop(); S.z3++;
  ZS->push(); ZS->add(!c); z3::check_result r2 = ZS->check(); ZS->pop(); S.z3++;
  ZS->pop(); S.z3t += now() - t0;
  if (r1 != z3::unknown && (r1 == z3::sat) != canT) ok = false;
  if (r2 != z3::unknown && (r2 == z3::sat) != canF) ok = false;
  for (auto r : {r1, r2}) { if (r == z3::sat) S.z3sat++; else if (r == z3::unsat) S.z3unsat++; else S.z3unk++; }
  if (!ok) { fprintf(stderr, "INTERNAL: z3 disagrees with domain evaluation on %s\n", exprStr(e).c_str()); abort(); }
  return ok;
}

// ---------------------------------------------------------------- path bookkeeping
static std::string where(State& s) {
  std::string r; int n = 0;
  for (int i = (int) s.st.size() - 1; i >= 0 && n < 7; i--) {
    Frame& f = s.st[i]; if (f.pc >= f.f->code.size()) continue; const Instruction* I = f.f->code[f.pc].dbg; std::string l = f.f->name;
    if (I && I->getDebugLoc()) { l += "@"; l += I->getDebugLoc()->getFilename().str(); l += ":" + std::to_string(I->getDebugLoc().getLine()); }
    if (!r.empty()) r += " < "; r += l; n++;
  }
  return r;
}
static std::string logStr(State& s, const std::vector<u8>& m) {
  std::string r; char b[32];
  for (auto& e : s.log) { r += e.kind == 0 ? "C " : "B "; r += e.name; int v = e.kind == 1 ? (e.val < (int) m.size() ? m[e.val] : gVars[e.val].vals[0]) : e.val; snprintf(b, sizeof b, " %d\n", v); r += b; }
  return r;
}
static void addViolation(State& s, const char* kind, const std::string& msg, const std::vector<u8>* model = nullptr) {
  std::string w = where(s); std::string key = std::string(kind) + "|" + msg + "|" + w;
  int& n = gViolSeen[key]; if (++n > optMaxViol) return;
  if (gViol.size() > 60 * (size_t) optMaxViol) return;
  gViol.push_back({kind, msg, w, logStr(s, model ? *model : s.model)});
  if (optVerbose) fprintf(stderr, "[viol] %s: %s at %s\n%s", kind, msg.c_str(), w.c_str(), gViol.back().log.c_str());
}

enum Res { RES_OK, RES_RETRY, RES_END };
static Res endUnsupported(State& s, const std::string& m) { S.unsupported++; gUnsup[m + " at " + where(s)]++; return RES_END; }

static bool pickModel(State& s, int v) { // after dom[v] shrank; make model valid.  false => infeasible
  if (domHas(s.dom[v], s.model[v])) {
    return true; }
  int val = -1; for (int i = 0; i < 256; i++) if (domHas(s.dom[v], i)) { val = i; break; }
  if (val < 0) return false;
  if (!s.multi[v]) { s.model[v] = val; return true; }
  std::vector<u8> m = s.model;
  if (zsolve(s, {}, &m, false, v) != 1) return false;
  s.model = m; return true;
}
// effective single variable of e under the state's domains (others singletons): returns var id, -1 if constant, -2 if several
static int effVar(State& s, const Expr* e) {
  if (e->var >= 0) { s.ensure(e->var); return e->var; }
  if (e->var == -1) return -1;
  int v = -1;
  for (int x : *e->vars) { s.ensure(x); const Dom& d = s.dom[x]; int pc = __builtin_popcountll(d.b[0]) + __builtin_popcountll(d.b[1]) + __builtin_popcountll(d.b[2]) + __builtin_popcountll(d.b[3]); if (pc > 1) { if (v >= 0) return -2; v = x; } }
  return v == -1 ? -1 : v;
}
// values of e as function of var v (others fixed by singleton domains -> the model has those values)
static void valuesOver(State& s, const Expr* e, int v, std::vector<std::pair<u8, u64>>& out) {
  out.clear();
  if (e->var == v) { const u64* t = tableOf(e); const VarInfo& vi = gVars[v]; for (size_t i = 0; i < vi.vals.size(); i++) if (domHas(s.dom[v], vi.vals[i])) out.push_back({vi.vals[i], t[i]}); return; }
  std::vector<u8> m = s.model; const VarInfo& vi = gVars[v];
  for (size_t i = 0; i < vi.vals.size(); i++) if (domHas(s.dom[v], vi.vals[i])) { m[v] = vi.vals[i]; out.push_back({vi.vals[i], evalExpr(e, m.data())}); }
}
// try to reduce to concrete under current domains
static Val resolve(State& s, const Val& v) {
  if (!v.e || v.e == UNDEF) return v;
  int ev = effVar(s, v.e);
  if (ev == -1) return CV(evalExpr(v.e, s.model.data()));
  if (ev >= 0 && v.e->var == ev) {
    const u64* t = tableOf(v.e); const VarInfo& vi = gVars[ev]; bool have = false; u64 x = 0;
    for (size_t i = 0; i < vi.vals.size(); i++) if (domHas(s.dom[ev], vi.vals[i])) { if (!have) { have = true; x = t[i]; } else if (t[i] != x) return v; }
    if (have) return CV(x);
  }
  return v;
}
static State* forkState(State& s) { S.forks++; State* n = new State(s); n->nforks++; s.nforks++; return n; }
static void pushWork(State* s) { gWork.push_back(s); }
static void addPc(State& s, const Expr* c) { if (isConst(c)) return; s.pc.push_back(c); if (c->var >= 0) s.multi[c->var] = 1; else for (int v : *c->vars) { s.ensure(v); s.multi[v] = 1; } }

// Constrain s with c (a 1-bit expression) being true. false => infeasible.
static bool constrain(State& s, const Expr* c) {
  if (isConst(c)) return c->c;
  int ev = effVar(s, c);
  if (ev == -1) return evalExpr(c, s.model.data());
  if (ev >= 0) {
    std::vector<std::pair<u8, u64>> vals; valuesOver(s, c, ev, vals); Dom d{}; bool any = false;
    for (auto& p : vals) if (p.second) { d.b[p.first >> 6] |= 1ull << (p.first & 63); any = true; }
    if (!any) return false; s.dom[ev] = d; return pickModel(s, ev);
  }
  if (evalExpr(c, s.model.data())) { addPc(s, c); return true; }
  std::vector<u8> m = s.model; int r = zsolve(s, {c}, &m);
  if (r != 1) return false;
  s.model = m; addPc(s, c); return true;
}
// decide a branch. Returns 1 (true only), 0 (false only), 2 (both: *other receives the state for which the condition is FALSE; s continues with TRUE)
static int decide(State& s, const Expr* c, State** other) {
  if (c->w != 1) { fprintf(stderr, "decide width %d %s at %s\n", c->w, exprStr(c).c_str(), where(s).c_str()); abort(); }
  if (isConst(c)) return c->c;
  int ev = effVar(s, c);
  if (ev == -1) return evalExpr(c, s.model.data());
  if (ev >= 0) {
    std::vector<std::pair<u8, u64>> vals; valuesOver(s, c, ev, vals); Dom t{}, f{}; bool at = false, af = false;
    for (auto& p : vals) if (p.second) { t.b[p.first >> 6] |= 1ull << (p.first & 63); at = true; } else { f.b[p.first >> 6] |= 1ull << (p.first & 63); af = true; }
    if (c->var == ev) unaryConfirmed(s, c, at, af);
    if (!af) return 1; if (!at) return 0;
    if (!s.multi[ev]) {
      State* o = forkState(s); o->dom[ev] = f; pickModel(*o, ev); s.dom[ev] = t; pickModel(s, ev); *other = o; return 2;
    }
    // other constraints involve ev: both sides need feasibility
    State* o = forkState(s); o->dom[ev] = f; bool fo = pickModel(*o, ev);
    Dom save = s.dom[ev]; std::vector<u8> sm = s.model; s.dom[ev] = t; bool fs = pickModel(s, ev);
    if (fs && fo) { *other = o; return 2; }
    if (fs) { delete o; return 1; }
    if (fo) { s.dom[ev] = f; s.model = o->model; delete o; return 0; }
    s.dom[ev] = save; s.model = sm; delete o; return evalExpr(c, s.model.data());
  }
  bool mv = evalExpr(c, s.model.data()); const Expr* nc = mkNot1(c);
  std::vector<u8> m = s.model; int r = zsolve(s, {mv ? nc : c}, &m);
  if (r == 0) { return mv; }
  if (r < 0) { gLimits["z3-unknown"]++; S.limit++; addPc(s, mv ? c : nc); return mv; }
  State* o = forkState(s);
  if (mv) { o->model = m; addPc(*o, nc); addPc(s, c); } else { addPc(*o, nc); s.model = m; addPc(s, c); }
  *other = o; return 2;
}
// make v concrete, forking siblings that will re-execute the instruction
static Res concretize(State& s, Val& v, unsigned w, const char* what) {
  if (!v.e) return RES_OK;
  if (v.e == UNDEF) { addViolation(s, "uninit", std::string("uninitialised value used as ") + what); return RES_END; }
  int ev = effVar(s, v.e);
  if (ev == -1) { v = CV(evalExpr(v.e, s.model.data())); return RES_OK; }
  S.concretized++;
  if (ev >= 0) {
    std::vector<std::pair<u8, u64>> vals; valuesOver(s, v.e, ev, vals); std::map<u64, Dom> g;
    for (auto& p : vals) { auto it = g.find(p.second); if (it == g.end()) { Dom z{}; it = g.emplace(p.second, z).first; } it->second.b[p.first >> 6] |= 1ull << (p.first & 63); }
    if (g.size() == 1) { v = CV(g.begin()->first); return RES_OK; }
    std::vector<State*> sib; bool first = true; Dom mine{}; bool haveMine = false;
    for (auto& kv : g) {
      if (first) { mine = kv.second; haveMine = true; first = false; continue; }
      State* o = forkState(s); o->dom[ev] = kv.second; if (pickModel(*o, ev)) sib.push_back(o); else delete o;
    }
    (void) haveMine; s.dom[ev] = mine; bool ok = pickModel(s, ev);
    for (auto o : sib) pushWork(o);
    return ok ? RES_RETRY : RES_END;
  }
  // several variables: split on the model's value
  u64 x = evalExpr(v.e, s.model.data()); const Expr* eq = mkBin(E_EQ, v.e, mkConst(x, w)); State* o = nullptr;
  int r = decide(s, eq, &o);
  if (r == 2) { pushWork(o); v = CV(x); return RES_OK; }
  if (r == 1) { v = CV(x); return RES_OK; }
  return endUnsupported(s, "concretize");
}

// ---------------------------------------------------------------- memory access
static const char* memErr = nullptr; static std::string memMsg;
static Obj* locate(State& s, u64 addr, u64 n, u32& id, u32& off, bool write) {
  memErr = nullptr;
  if (addr < 4096 * 16) { memErr = "null"; memMsg = "null pointer access"; return nullptr; }
  id = addr >> 32; i64 o = (i64) (addr & 0xffffffffu) - (i64) BASE_OFF;
  Obj* ob = id < s.mem.next ? s.mem.get(id) : nullptr;
  if (!ob) {
    if (id >= FN_BASE) { memErr = "wild"; memMsg = "access to code"; }
    else if (id > 0 && id < s.mem.next) { memErr = "uaf"; memMsg = "use of freed or dead memory"; }
    else { memErr = "wild"; memMsg = "wild pointer access"; }
    return nullptr;
  }
  if (o < 0 || n > ob->size || (u64) o > ob->size - n) {
    memErr = "oob"; char b[160]; snprintf(b, sizeof b, "out-of-bounds %s of %llu bytes at offset %lld of a %u byte %s object", write ? "write" : "read", (unsigned long long) n, (long long) o, ob->size,
      ob->kind == K_HEAP ? "heap" : ob->kind == K_STACK ? "stack" : "global"); memMsg = b; return nullptr; }
  if (write && ob->kind == K_CONST) { memErr = "rodata"; memMsg = "write to read-only memory"; return nullptr; }
  off = (u32) o; return ob;
}
static Res memFault(State& s) { addViolation(s, memErr, memMsg); return RES_END; }
static Val rdByte(Obj* o, u32 off) { if (o->un && o->un[off]) return UV(); if (o->sym && o->sym[off]) return Val{0, o->sym[off]}; return CV(o->data[off]); }
static void wrByte(Obj* o, u32 off, const Val& v) {
  if (v.e == UNDEF) { if (!o->un) { o->un = (u8*) calloc(1, o->size); } o->un[off] = 1; if (o->sym) o->sym[off] = nullptr; return; }
  if (o->un) o->un[off] = 0;
  if (v.e) { if (!o->sym) o->sym = (const Expr**) calloc(sizeof(void*), o->size); o->sym[off] = v.e; }
  else { o->data[off] = (u8) v.c; if (o->sym) o->sym[off] = nullptr; }
}
static Val readObj(Obj* o, u32 off, unsigned n, unsigned w) {
  if (o->un) { for (unsigned i = 0; i < n; i++) if (o->un[off + i]) return UV(); }
  bool sy = false; if (o->sym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { sy = true; break; }
  if (!sy) { u64 c = 0; memcpy(&c, o->data + off, n); return CV(w < 64 ? c & maskw(w) : c); }
  const Expr* e = nullptr;
  for (unsigned i = 0; i < n; i++) { const Expr* b = o->sym[off + i] ? o->sym[off + i] : mkConst(o->data[off + i], 8); e = e ? mkConcat(b, e) : b; }
  // concat built hi..lo: e = concat(b_i, previous)
  if (e->w > w) e = mkExtract(e, 0, w);
  return EV(e);
}
static void writeObj(Obj* o, u32 off, unsigned n, const Val& v, unsigned w) {
  if (!v.e) { memcpy(o->data + off, &v.c, n); if (o->un) memset(o->un + off, 0, n); if (o->sym) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr; return; }
  if (v.e == UNDEF) { for (unsigned i = 0; i < n; i++) wrByte(o, off + i, UV()); return; }
  const Expr* e = v.e; if (w < n * 8) e = mkZext(e, n * 8);
  for (unsigned i = 0; i < n; i++) wrByte(o, off + i, EV(mkExtract(e, i * 8, 8)));
}
static void compactObj(Obj*) {}

#include "decode.inc"
#include "builtins.inc"
#include "interp.inc"
#include "driver.inc"
