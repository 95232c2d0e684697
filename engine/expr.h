// Expression DAG over 8-bit symbolic variables with explicit finite domains.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <algorithm>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum EOp : u8 { E_VAR, E_CONST, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_TAB };

struct Expr {
  EOp op; u8 w; int var;        // var: single support variable id, -2 = several, -1 = none
  u64 c;                        // const value / extract offset
  const Expr *a, *b, *d;
  const std::vector<int>* vars; // for several
  mutable u64* tab;             // table over initial domain rank (single support only)
  u32 id;
};

struct VarInfo { std::string name; std::vector<u8> vals; int16_t rank[256]; u64 bits[4]; };
extern std::vector<VarInfo> gVars;
extern u64 gExprCount;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sextw(u64 v, unsigned w) { if (w >= 64) return (i64) v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64) ((v ^ m) - m); }

const Expr* mkConst(u64 c, unsigned w);
const Expr* mkVar(int id);
const Expr* mkBin(EOp op, const Expr* a, const Expr* b);
const Expr* mkZext(const Expr* a, unsigned w);
const Expr* mkSext(const Expr* a, unsigned w);
const Expr* mkExtract(const Expr* a, unsigned off, unsigned w);
const Expr* mkConcat(const Expr* hi, const Expr* lo);
const Expr* mkIte(const Expr* c, const Expr* t, const Expr* f);
const Expr* mkTab(int var, const std::vector<u64>& vals, unsigned w);
const Expr* mkNot1(const Expr* a);
int newVar(const std::string& name, const u8* set, size_t n);
const u64* tableOf(const Expr* e); // single support only
u64 evalExpr(const Expr* e, const u8* assign); // assign indexed by var id
static inline bool isConst(const Expr* e) { return e->op == E_CONST; }
std::string exprStr(const Expr* e, int depth = 6);
