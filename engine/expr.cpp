#include "expr.h"
std::vector<VarInfo> gVars;
u64 gExprCount = 0;

struct Key { u8 op, w; u64 c; const Expr *a, *b, *d;
  bool operator==(const Key& o) const { return op == o.op && w == o.w && c == o.c && a == o.a && b == o.b && d == o.d; } };
struct KeyH { size_t operator()(const Key& k) const {
  u64 h = k.op * 0x9E3779B97F4A7C15ull + k.w; auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix(k.c); mix((u64) k.a); mix((u64) k.b); mix((u64) k.d); return h; } };
static std::unordered_map<Key, const Expr*, KeyH> gTab;

static const Expr* intern(EOp op, unsigned w, u64 c, const Expr* a = nullptr, const Expr* b = nullptr, const Expr* d = nullptr) {
  Key k{op, (u8) w, c, a, b, d};
  auto it = gTab.find(k);
  if (it != gTab.end()) return it->second;
  Expr* e = (Expr*) malloc(sizeof(Expr));
  e->op = op; e->w = w; e->c = c; e->a = a; e->b = b; e->d = d; e->tab = nullptr; e->vars = nullptr; e->id = gExprCount++;
  if (op == E_VAR) e->var = (int) c;
  else if (op == E_CONST) e->var = -1;
  else {
    int v = -1; bool multi = false;
    for (const Expr* x : {a, b, d}) if (x) { if (x->var == -2) multi = true; else if (x->var >= 0) { if (v == -1) v = x->var; else if (v != x->var) multi = true; } }
    if (!multi) e->var = v;
    else {
      e->var = -2;
      std::vector<int>* s = new std::vector<int>();
      for (const Expr* x : {a, b, d}) if (x) { if (x->var >= 0) s->push_back(x->var); else if (x->var == -2) s->insert(s->end(), x->vars->begin(), x->vars->end()); }
      std::sort(s->begin(), s->end()); s->erase(std::unique(s->begin(), s->end()), s->end());
      e->vars = s;
    }
  }
  gTab.emplace(k, e);
  return e;
}

const Expr* mkConst(u64 c, unsigned w) { return intern(E_CONST, w, c & maskw(w)); }
const Expr* mkVar(int id) { return intern(E_VAR, 8, id); }

static u64 fold(EOp op, unsigned w, u64 a, u64 b) {
  u64 m = maskw(w); a &= m; b &= m;
  switch (op) {
    case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? a / b : m;
    case E_SDIV: { i64 x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u64) (0 - (u64) x) & m; return (u64) (x / y) & m; }
    case E_UREM: return b ? a % b : a;
    case E_SREM: { i64 x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (u64) (x % y) & m; }
    case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << b) & m; case E_LSHR: return b >= w ? 0 : a >> b;
    case E_ASHR: { i64 x = sextw(a, w); return (u64) (x >> (b >= w ? (w - 1) : b)) & m; }
    case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b;
    case E_SLT: return sextw(a, w) < sextw(b, w); case E_SLE: return sextw(a, w) <= sextw(b, w);
    default: abort();
  }
}
static bool isCmp(EOp op) { return op >= E_EQ && op <= E_SLE; }

// fold to a constant if the whole initial domain agrees
static const Expr* constIfUniform(const Expr* e) {
  if (e->var < 0) return e;
  const u64* t = tableOf(e); size_t n = gVars[e->var].vals.size();
  for (size_t i = 1; i < n; i++) if (t[i] != t[0]) return e;
  return mkConst(t[0], e->w);
}

const Expr* mkBin(EOp op, const Expr* a, const Expr* b) {
  unsigned w = a->w; unsigned rw = isCmp(op) ? 1 : w;
  if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch %d %d %d\n", op, a->w, b->w); abort(); }
  if (isConst(a) && isConst(b)) return mkConst(fold(op, w, a->c, b->c), rw);
  bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ;
  if (comm && (isConst(a) || (!isConst(b) && a->id > b->id))) std::swap(a, b);
  if (isConst(b)) {
    u64 c = b->c;
    if (c == 0) {
      if (op == E_ADD || op == E_SUB || op == E_OR || op == E_XOR || op == E_SHL || op == E_LSHR || op == E_ASHR) return a;
      if (op == E_AND || op == E_MUL) return mkConst(0, w);
    }
    if (c == maskw(w)) { if (op == E_AND) return a; if (op == E_OR) return b; }
    if (c == 1 && (op == E_MUL || op == E_UDIV || op == E_SDIV)) return a;
    if (op == E_ADD && a->op == E_ADD && isConst(a->b)) return mkBin(E_ADD, a->a, mkConst(a->b->c + c, w));
    if (op == E_SUB) return mkBin(E_ADD, a, mkConst(0 - c, w));
    if (op == E_EQ && w == 1) return c ? a : mkNot1(a);
    if (op == E_XOR && w == 1 && c == 1 && a->op == E_EQ && false) return a;
    if ((op == E_EQ) && a->op == E_ZEXT) { if (c & ~maskw(a->a->w)) return mkConst(0, 1); return mkBin(E_EQ, a->a, mkConst(c, a->a->w)); }
    if (op == E_AND && a->op == E_ZEXT) { u64 im = maskw(a->a->w); if ((c & im) == im) return a; return mkZext(mkBin(E_AND, a->a, mkConst(c & im, a->a->w)), w); }
  }
  if (a == b) {
    if (op == E_SUB || op == E_XOR) return mkConst(0, w);
    if (op == E_AND || op == E_OR) return a;
    if (op == E_EQ || op == E_ULE || op == E_SLE) return mkConst(1, 1);
    if (op == E_ULT || op == E_SLT) return mkConst(0, 1);
  }
  if (isCmp(op) && a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) {
    EOp o2 = op == E_SLT ? E_ULT : op == E_SLE ? E_ULE : op;
    return mkBin(o2, a->a, b->a);
  }
  const Expr* e = intern(op, rw, 0, a, b);
  if (isCmp(op)) return constIfUniform(e);
  return e;
}
const Expr* mkNot1(const Expr* a) {
  if (isConst(a)) return mkConst(a->c ^ 1, 1);
  if (a->op == E_XOR && isConst(a->b)) return a->a;
  return intern(E_XOR, 1, 0, a, mkConst(1, 1));
}
const Expr* mkZext(const Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (isConst(a)) return mkConst(a->c, w);
  if (a->op == E_ZEXT) return mkZext(a->a, w);
  return intern(E_ZEXT, w, 0, a);
}
const Expr* mkSext(const Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (isConst(a)) return mkConst((u64) sextw(a->c, a->w), w);
  if (a->op == E_ZEXT) return mkZext(a->a, w);
  return intern(E_SEXT, w, 0, a);
}
const Expr* mkExtract(const Expr* a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  if (isConst(a)) return mkConst(a->c >> off, w);
  if (a->op == E_ZEXT) {
    if (off >= a->a->w) return mkConst(0, w);
    if (off + w <= a->a->w) return mkExtract(a->a, off, w);
    return mkZext(mkExtract(a->a, off, a->a->w - off), w);
  }
  if (a->op == E_EXTRACT) return mkExtract(a->a, a->c + off, w);
  if (a->op == E_CONCAT) {
    unsigned lw = a->b->w;
    if (off + w <= lw) return mkExtract(a->b, off, w);
    if (off >= lw) return mkExtract(a->a, off - lw, w);
  }
  const Expr* e = intern(E_EXTRACT, w, off, a);
  return constIfUniform(e);
}
const Expr* mkConcat(const Expr* hi, const Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (isConst(hi) && isConst(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isConst(hi) && hi->c == 0) return mkZext(lo, w);
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return mkExtract(hi->a, lo->c, w);
  // Extract(x,0,k) shows up as x narrowed; high part extract of same base
  if (hi->op == E_ZEXT && false) return hi;
  return intern(E_CONCAT, w, 0, hi, lo);
}
const Expr* mkIte(const Expr* c, const Expr* t, const Expr* f) {
  if (c->w != 1 || t->w != f->w) { fprintf(stderr, "mkIte widths %d %d %d\n", c->w, t->w, f->w); abort(); }
  if (isConst(c)) return c->c ? t : f;
  if (t == f) return t;
  if (t->w == 1 && isConst(t) && isConst(f)) return t->c ? c : mkNot1(c);
  const Expr* e = intern(E_ITE, t->w, 0, c, t, f);
  return e;
}
const Expr* mkTab(int var, const std::vector<u64>& vals, unsigned w) {
  bool same = true; for (u64 v : vals) if (v != vals[0]) same = false;
  if (same) return mkConst(vals[0], w);
  static std::map<std::pair<int, std::pair<unsigned, std::vector<u64>>>, const Expr*> cache;
  auto key = std::make_pair(var, std::make_pair(w, vals));
  auto it = cache.find(key); if (it != cache.end()) return it->second;
  static u64 serial = 0;
  Expr* e = (Expr*) intern(E_TAB, w, ++serial, mkVar(var));
  e->tab = (u64*) malloc(sizeof(u64) * vals.size());
  for (size_t i = 0; i < vals.size(); i++) e->tab[i] = vals[i] & maskw(w);
  cache[key] = e;
  return e;
}
int newVar(const std::string& name, const u8* set, size_t n) {
  static std::map<std::pair<std::string, std::string>, int> cache;
  bool in[256] = {false}; for (size_t i = 0; i < n; i++) in[set[i]] = true;
  std::string k; for (int i = 0; i < 256; i++) if (in[i]) k.push_back((char) i);
  auto key = std::make_pair(name, k);
  auto it = cache.find(key); if (it != cache.end()) return it->second;
  VarInfo v; v.name = name; memset(v.bits, 0, sizeof v.bits);
  for (int i = 0; i < 256; i++) { v.rank[i] = -1; if (in[i]) { v.rank[i] = v.vals.size(); v.vals.push_back(i); v.bits[i >> 6] |= 1ull << (i & 63); } }
  gVars.push_back(v); cache[key] = gVars.size() - 1;
  return gVars.size() - 1;
}
static u64 evalOp(const Expr* e, u64 a, u64 b, u64 d) {
  switch (e->op) {
    case E_ZEXT: return a;
    case E_SEXT: return (u64) sextw(a, e->a->w) & maskw(e->w);
    case E_EXTRACT: return (a >> e->c) & maskw(e->w);
    case E_CONCAT: return (a << e->b->w) | b;
    case E_ITE: return a ? b : d;
    default: return fold(e->op, e->a->w, a, b);
  }
}
const u64* tableOf(const Expr* e) {
  if (e->tab) return e->tab;
  size_t n = gVars[e->var].vals.size();
  u64* t = (u64*) malloc(sizeof(u64) * n);
  if (e->op == E_VAR) { for (size_t i = 0; i < n; i++) t[i] = gVars[e->var].vals[i]; }
  else {
    const u64 *ta = nullptr, *tb = nullptr, *td = nullptr;
    if (e->a && !isConst(e->a)) ta = tableOf(e->a);
    if (e->b && !isConst(e->b)) tb = tableOf(e->b);
    if (e->d && !isConst(e->d)) td = tableOf(e->d);
    for (size_t i = 0; i < n; i++)
      t[i] = evalOp(e, ta ? ta[i] : e->a->c, tb ? tb[i] : e->b ? e->b->c : 0, td ? td[i] : e->d ? e->d->c : 0);
  }
  e->tab = t;
  return t;
}
static u64 evalRec(const Expr* e, const u8* as, std::unordered_map<const Expr*, u64>& memo) {
  if (e->op == E_CONST) return e->c;
  if (e->op == E_VAR) return as[e->var];
  if (e->var >= 0) { int r = gVars[e->var].rank[as[e->var]]; if (r >= 0) return tableOf(e)[r]; }
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  u64 a = evalRec(e->a, as, memo), b = e->b ? evalRec(e->b, as, memo) : 0, d = e->d ? evalRec(e->d, as, memo) : 0;
  u64 r = evalOp(e, a, b, d);
  memo[e] = r; return r;
}
u64 evalExpr(const Expr* e, const u8* as) {
  if (e->op == E_CONST) return e->c;
  if (e->var >= 0) { int r = gVars[e->var].rank[as[e->var]]; if (r >= 0) return tableOf(e)[r]; }
  std::unordered_map<const Expr*, u64> memo; return evalRec(e, as, memo);
}
std::string exprStr(const Expr* e, int depth) {
  static const char* n[] = {"var","const","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","zext","sext","extract","concat","eq","ult","ule","slt","sle","ite","tab"};
  char b[64];
  if (e->op == E_CONST) { snprintf(b, sizeof b, "%llu:%d", (unsigned long long) e->c, e->w); return b; }
  if (e->op == E_VAR) return gVars[e->c].name;
  if (!depth) return "..";
  std::string s = std::string("(") + n[e->op];
  for (const Expr* x : {e->a, e->b, e->d}) if (x) s += " " + exprStr(x, depth - 1);
  return s + ")";
}
