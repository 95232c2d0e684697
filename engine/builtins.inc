// functions executed natively by the engine
typedef Res (*BFn)(State& s, Val* a, unsigned n, Val* ret, const CallInfo& ci);
static std::map<std::string, BFn> gBuiltins; static std::vector<BFn> gBuiltinTab; static std::vector<std::string> gBuiltinNames;
#define NEED(i, w, what) do { Res r_ = concretize(s, a[i], w, what); if (r_ != RES_OK) return r_; } while (0)

static Res b_malloc(State& s, Val* a, unsigned, Val* ret, const CallInfo&) {
  NEED(0, 64, "allocation size"); if (a[0].c > (256u << 20)) return endUnsupported(s, "huge allocation");
  u32 id = s.mem.add(newObj(a[0].c, K_HEAP, true)); if (s.inRepo) s.runHeap.push_back(id); *ret = CV(addrOf(id)); return RES_OK; }
static Res b_model_malloc(State& s, Val* a, unsigned, Val* ret, const CallInfo&) {
  NEED(0, 64, "allocation size"); if (a[0].c > (256u << 20)) return endUnsupported(s, "huge allocation"); *ret = CV(addrOf(s.mem.add(newObj(a[0].c, K_HEAP, false)))); return RES_OK; }
static Res b_calloc(State& s, Val* a, unsigned, Val* ret, const CallInfo&) {
  NEED(0, 64, "allocation size"); NEED(1, 64, "allocation size"); if ((unsigned __int128) a[0].c * a[1].c > (256u << 20)) return endUnsupported(s, "huge allocation");
  u32 id = s.mem.add(newObj(a[0].c * a[1].c, K_HEAP, false)); if (s.inRepo) s.runHeap.push_back(id); *ret = CV(addrOf(id)); return RES_OK; }
static Res freeAddr(State& s, u64 p) {
  if (!p) return RES_OK;
  u32 id = p >> 32; Obj* o = id < s.mem.next ? s.mem.get(id) : nullptr;
  if (!o) { memErr = id > 0 && id < s.mem.next ? "dfree" : "bfree"; memMsg = id > 0 && id < s.mem.next ? "double free" : "free of invalid pointer"; return memFault(s); }
  if (o->kind != K_HEAP || (p & 0xffffffffu) != BASE_OFF) { memErr = "bfree"; memMsg = "free of non-heap or interior pointer"; return memFault(s); }
  s.mem.del(id); return RES_OK; }
static Res b_free(State& s, Val* a, unsigned, Val*, const CallInfo&) { NEED(0, 64, "free argument"); return freeAddr(s, a[0].c); }
static Res b_realloc(State& s, Val* a, unsigned n, Val* ret, const CallInfo& ci) {
  NEED(0, 64, "realloc argument"); NEED(1, 64, "allocation size");
  if (!a[0].c) { a[0] = a[1]; return b_malloc(s, a, n, ret, ci); }
  if (a[1].c > (256u << 20)) return endUnsupported(s, "huge allocation");
  u32 id = a[0].c >> 32; Obj* o = id < s.mem.next ? s.mem.get(id) : nullptr;
  if (!o || o->kind != K_HEAP || (a[0].c & 0xffffffffu) != BASE_OFF) { memErr = "bfree"; memMsg = "realloc of invalid pointer"; return memFault(s); }
  Obj* no = newObj(a[1].c, K_HEAP, true); u32 k = std::min<u64>(o->size, a[1].c);
  memcpy(no->data, o->data, k); if (k) { if (o->un) memcpy(no->un, o->un, k); else memset(no->un, 0, k); if (o->sym) { no->sym = (const Expr**) calloc(sizeof(void*), no->size ? no->size : 1); memcpy(no->sym, o->sym, k * sizeof(void*)); } }
  u32 nid = s.mem.add(no); s.mem.del(id); if (s.inRepo) s.runHeap.push_back(nid); *ret = CV(addrOf(nid)); return RES_OK; }
static Res doCopy(State& s, u64 d, u64 sr, u64 n, bool overlapOk) {
  if (!n) return RES_OK; u32 si, so, di, dof; Obj* o = locate(s, sr, n, si, so, false); if (!o) return memFault(s);
  if (!locate(s, d, n, di, dof, true)) return memFault(s);
  if (!overlapOk && si == di && so != dof && (u64) so < dof + n && (u64) dof < so + n) { memErr = "overlap"; memMsg = "memcpy with overlapping ranges"; return memFault(s); }
  Obj* w = s.mem.getW(di); o = s.mem.get(si);
  memmove(w->data + dof, o->data + so, n);
  if (o->un || w->un) { if (!w->un) w->un = (u8*) calloc(1, w->size); if (o->un) memmove(w->un + dof, o->un + so, n); else memset(w->un + dof, 0, n); }
  if (o->sym || w->sym) { if (!w->sym) w->sym = (const Expr**) calloc(sizeof(void*), w->size); if (o->sym) memmove(w->sym + dof, o->sym + so, n * sizeof(void*)); else memset(w->sym + dof, 0, n * sizeof(void*)); }
  return RES_OK; }
static Res b_memcpy(State& s, Val* a, unsigned, Val* ret, const CallInfo&) { NEED(0, 64, "pointer"); NEED(1, 64, "pointer"); NEED(2, 64, "length"); *ret = a[0]; return doCopy(s, a[0].c, a[1].c, a[2].c, false); }
static Res b_memmove(State& s, Val* a, unsigned, Val* ret, const CallInfo&) { NEED(0, 64, "pointer"); NEED(1, 64, "pointer"); NEED(2, 64, "length"); *ret = a[0]; return doCopy(s, a[0].c, a[1].c, a[2].c, true); }
static Res b_memset(State& s, Val* a, unsigned, Val* ret, const CallInfo& ci) {
  NEED(0, 64, "pointer"); NEED(2, 64, "length"); *ret = a[0]; if (!a[2].c) return RES_OK;
  u32 id, off; if (!locate(s, a[0].c, a[2].c, id, off, true)) return memFault(s); Obj* w = s.mem.getW(id);
  Val b = a[1]; unsigned bw = ci.aw.size() > 1 && ci.aw[1] ? ci.aw[1] : 8;
  if (b.e && b.e != UNDEF) b = bw > 8 ? EV(mkExtract(b.e, 0, 8)) : b; else b.c &= 0xff;
  if (!b.e) { memset(w->data + off, (int) b.c, a[2].c); if (w->un) memset(w->un + off, 0, a[2].c); if (w->sym) memset(w->sym + off, 0, a[2].c * sizeof(void*)); }
  else for (u64 i = 0; i < a[2].c; i++) wrByte(w, off + i, b);
  return RES_OK; }

// fork on e==0: returns 1 zero, 0 nonzero, -1 retry needed never (s continues)
static int askZero(State& s, const Expr* e) { State* o = nullptr; int r = decide(s, mkBin(E_EQ, e, mkConst(0, e->w)), &o); if (r == 2) { pushWork(o); return 1; } return r; }
static Res rdElem(State& s, u64 addr, unsigned n, Val& v) {
  u32 id, off; Obj* o = locate(s, addr, n, id, off, false); if (!o) return memFault(s);
  v = readObj(o, off, n, n * 8);
  if (v.e == UNDEF) { addViolation(s, "uninit", "uninitialised memory read by a library function"); return RES_END; }
  if (v.e) v = resolve(s, v);
  return RES_OK; }
static Res strlenN(State& s, u64 p, unsigned n, u64& len) {
  for (u64 i = 0;; i++) {
    Val v; Res r = rdElem(s, p + i * n, n, v); if (r != RES_OK) return r;
    if (v.e) { if (askZero(s, v.e)) { len = i; return RES_OK; } } else if (!v.c) { len = i; return RES_OK; }
  } }
static Res b_strlen(State& s, Val* a, unsigned, Val* ret, const CallInfo&) { NEED(0, 64, "pointer"); u64 l; Res r = strlenN(s, a[0].c, 1, l); *ret = CV(l); return r; }
static Res b_u32_strlen(State& s, Val* a, unsigned, Val* ret, const CallInfo&) { NEED(0, 64, "pointer"); u64 l; Res r = strlenN(s, a[0].c, 4, l); *ret = CV(l); return r; }

static std::string logName(State& s, u64 p) { std::string r; for (;; p++) { u32 id, off; Obj* o = locate(s, p, 1, id, off, false); if (!o || !o->data[off]) break; r.push_back(o->data[off]); } return r; }
static const char* internStr(const std::string& x) { static std::set<std::string> t; return t.insert(x).first->c_str(); }

static Res b_sym_choice(State& s, Val* a, unsigned, Val* ret, const CallInfo&) {
  NEED(1, 32, "choice count"); const char* nm = internStr(logName(s, a[0].c)); int n = (int) a[1].c;
  // retried instruction? a pending choice is stored in the frame through regs: fork n-1 clones whose result register is preset
  Frame& f = s.st.back(); const Inst& I = f.f->code[f.pc];
  for (int k = n - 1; k >= 1; k--) { State* o = forkState(s); o->log.push_back({0, nm, k}); Frame& g = o->st.back(); o->regs[g.rb + I.dst] = CV((u32) k); g.pc++; pushWork(o); }
  s.log.push_back({0, nm, 0}); *ret = CV(0); return RES_OK; }
static Res b_sym_byte(State& s, Val* a, unsigned, Val* ret, const CallInfo&) { // (name, set, n)
  NEED(2, 32, "set size"); std::string nm = logName(s, a[0].c); u8 set[256]; unsigned n = a[2].c; u32 id, off; if (n > 256 || !n) return endUnsupported(s, "bad set");
  Obj* o = locate(s, a[1].c, n, id, off, false); if (!o) return memFault(s); memcpy(set, o->data + off, n);
  std::string nm2 = nm; int v = newVar(nm2, set, n); int k = 0;
  while (s.usedVars.count(v)) { nm2 = nm + "#" + std::to_string(++k); v = newVar(nm2, set, n); }
  s.usedVars.insert(v); s.ensure(v);
  if (gVars[v].vals.size() == 1) { s.log.push_back({2, internStr(nm), gVars[v].vals[0]}); *ret = CV(gVars[v].vals[0]); return RES_OK; }
  s.log.push_back({1, internStr(nm), v}); *ret = EV(mkVar(v)); return RES_OK; }
static Res b_sym_assert(State& s, Val* a, unsigned, Val*, const CallInfo&) {
  std::string msg = logName(s, a[1].c); S.asserts++;
  if (a[0].e == UNDEF) { addViolation(s, "uninit", "assertion on uninitialised data: " + msg); return RES_END; }
  Val v = resolve(s, a[0]);
  if (!v.e) { if (v.c & 0xffffffffu) { S.assertTriv++; s.trivialAsserts++; return RES_OK; } addViolation(s, "assert", msg); return RES_END; }
  const Expr* isz = mkBin(E_EQ, v.e, mkConst(0, v.e->w)); std::vector<u8> m = s.model; S.assertQ++;
  int r = zsolve(s, {isz}, &m);
  if (r == 1) { addViolation(s, "assert", msg, &m); if (!constrain(s, mkNot1(isz))) return RES_END; return RES_OK; }
  if (r < 0) { gLimits["z3-unknown-assert"]++; S.limit++; }
  return RES_OK; }
static Res b_sym_assume(State& s, Val* a, unsigned, Val*, const CallInfo&) {
  Val v = resolve(s, a[0]); if (v.e == UNDEF) return endUnsupported(s, "assume undef");
  if (!v.e) { if (v.c & 0xffffffffu) return RES_OK; S.assumeKilled++; return RES_END; }
  const Expr* nz = mkNot1(mkBin(E_EQ, v.e, mkConst(0, v.e->w))); if (!constrain(s, nz)) { S.assumeKilled++; return RES_END; } return RES_OK; }
static Res b_sym_cover(State& s, Val* a, unsigned, Val*, const CallInfo&) { gCover[logName(s, a[0].c)]++; return RES_OK; }
static Res b_sym_trace(State& s, Val* a, unsigned, Val*, const CallInfo&) {
  NEED(1, 64, "length"); u32 id, off; if (!a[1].c) return RES_OK; Obj* o = locate(s, a[0].c, a[1].c, id, off, false); if (!o) return memFault(s);
  for (u64 i = 0; i < a[1].c; i++) s.trace.push_back(rdByte(o, off + i)); return RES_OK; }
static Res b_sym_checkinit(State& s, Val* a, unsigned, Val*, const CallInfo&) {
  NEED(1, 64, "length"); u32 id, off; if (!a[1].c) return RES_OK; Obj* o = locate(s, a[0].c, a[1].c, id, off, false); if (!o) return memFault(s);
  if (o->un) for (u64 i = 0; i < a[1].c; i++) if (o->un[off + i]) { addViolation(s, "uninit", "uninitialised data in output"); return RES_END; }
  return RES_OK; }
static Res b_sym_concretize(State& s, Val* a, unsigned, Val* ret, const CallInfo&) { NEED(0, 32, "value"); *ret = a[0]; return RES_OK; }
static Res b_sym_unsupported(State& s, Val* a, unsigned, Val*, const CallInfo&) { return endUnsupported(s, logName(s, a[0].c)); }
static Res b_sym_debug(State& s, Val* a, unsigned, Val*, const CallInfo&) {
  std::string r; u32 id, off; Obj* o = locate(s, a[0].c, a[1].c, id, off, false); if (!o) return RES_OK;
  for (u64 i = 0; i < a[1].c; i++) { Val v = rdByte(o, off + i); if (v.e == UNDEF) r += "<U>"; else if (v.e) r += "{" + exprStr(v.e, 3) + "}"; else r.push_back((char) v.c); }
  fprintf(stderr, "[debug] %s\n", r.c_str()); return RES_OK; }
static Res b_abort(State& s, Val*, unsigned, Val*, const CallInfo&) { addViolation(s, "abort", "abort() called"); return RES_END; }

// symbolic application of a pure function of one 32-bit argument
template <class F> static Res pure1(State& s, Val x, unsigned w, unsigned rw, Val* ret, F f) {
  if (x.e == UNDEF) { addViolation(s, "uninit", "uninitialised character classified"); return RES_END; }
  x = resolve(s, x);
  if (!x.e) { *ret = CV((u64) f(x.c) & maskw(rw)); return RES_OK; }
  int ev = effVar(s, x.e);
  if (ev < 0) { Res r = concretize(s, x, w, "character"); if (r != RES_OK) return r; *ret = CV((u64) f(x.c) & maskw(rw)); return RES_OK; }
  const VarInfo& vi = gVars[ev]; std::vector<std::pair<u8, u64>> vals; valuesOver(s, x.e, ev, vals);
  std::vector<u64> t(vi.vals.size(), (u64) f(vals[0].second) & maskw(rw));
  for (auto& p : vals) t[vi.rank[p.first]] = (u64) f(p.second) & maskw(rw);
  *ret = EV(mkTab(ev, t, rw)); *ret = resolve(s, *ret); return RES_OK; }
#define PURE_UC(fn) static Res b_##fn(State& s, Val* a, unsigned, Val* ret, const CallInfo& ci) { return pure1(s, a[0], 32, ci.retw ? ci.retw : 32, ret, [](u64 c) -> u64 { return (u64) (i64) fn((ucs4_t) c); }); }
PURE_UC(uc_is_blank) PURE_UC(uc_is_cntrl) PURE_UC(uc_is_alnum) PURE_UC(uc_is_alpha) PURE_UC(uc_is_digit) PURE_UC(uc_is_space) PURE_UC(uc_is_punct) PURE_UC(uc_is_print) PURE_UC(uc_is_graph) PURE_UC(uc_is_upper) PURE_UC(uc_is_lower) PURE_UC(uc_is_xdigit)
PURE_UC(uc_is_c_whitespace) PURE_UC(uc_is_property_white_space) PURE_UC(uc_is_property_bidi_whitespace) PURE_UC(uc_tolower) PURE_UC(uc_toupper) PURE_UC(uc_combining_class)
static Res b_uc_width(State& s, Val* a, unsigned, Val* ret, const CallInfo&) { NEED(1, 64, "pointer"); std::string enc = logName(s, a[1].c); return pure1(s, a[0], 32, 32, ret, [&](u64 c) -> u64 { return (u64) (i64) uc_width((ucs4_t) c, enc.c_str()); }); }
#define PURE_C(fn) static Res b_##fn(State& s, Val* a, unsigned, Val* ret, const CallInfo&) { return pure1(s, a[0], 32, 32, ret, [](u64 c) -> u64 { int k = (int) (u32) c; return (k < -1 || k > 255) ? (u64) (i64) 0 : (u64) (i64) (fn(k)); }); }
PURE_C(isalpha) PURE_C(isalnum) PURE_C(isdigit) PURE_C(isspace) PURE_C(isupper) PURE_C(islower) PURE_C(isxdigit) PURE_C(ispunct) PURE_C(isprint) PURE_C(isgraph) PURE_C(iscntrl) PURE_C(isblank)
static Res b_tolower(State& s, Val* a, unsigned, Val* ret, const CallInfo&) { return pure1(s, a[0], 32, 32, ret, [](u64 c) -> u64 { return c < 256 ? tolower((int) c) : c; }); }
static Res b_toupper(State& s, Val* a, unsigned, Val* ret, const CallInfo&) { return pure1(s, a[0], 32, 32, ret, [](u64 c) -> u64 { return c < 256 ? toupper((int) c) : c; }); }
// glibc ctype tables
static u32 gCtypeB, gCtypeLo, gCtypeUp; // global objects holding the pointer
static Res b_ctype_b(State&, Val*, unsigned, Val* ret, const CallInfo&) { *ret = CV(addrOf(gCtypeB)); return RES_OK; }
static Res b_ctype_lo(State&, Val*, unsigned, Val* ret, const CallInfo&) { *ret = CV(addrOf(gCtypeLo)); return RES_OK; }
static Res b_ctype_up(State&, Val*, unsigned, Val* ret, const CallInfo&) { *ret = CV(addrOf(gCtypeUp)); return RES_OK; }
static u32 ctypeObj(State& s, const void* p, unsigned es) { Obj* o = newObj(384 * es, K_CONST, false); memcpy(o->data, (const u8*) p - 128 * es, 384 * es); u32 id = s.mem.add(o); Obj* q = newObj(8, K_CONST, false); u64 ad = addrOf(id, 128 * es); memcpy(q->data, &ad, 8); return s.mem.add(q); }

// ---- encodings.  __conv_in(src, len, enc, dst_u32*) -> count or -1 ; src is bytes without NUL; dst has room for len elements
static bool domWithin(State& s, const Expr* e, u64 lo, u64 hi, bool& all, bool& none) {
  int ev = effVar(s, e); all = none = true; if (ev == -1) { u64 x = evalExpr(e, s.model.data()); all = x >= lo && x <= hi; none = !all; return true; }
  if (ev < 0) return false; std::vector<std::pair<u8, u64>> v; valuesOver(s, e, ev, v);
  for (auto& p : v) if (p.second >= lo && p.second <= hi) none = false; else all = false; return true; }
static Res rangeSplit(State& s, const Expr* e, u64 lo, u64 hi, bool& in) { // fork so that e is surely inside/outside [lo,hi]
  const Expr* c = mkBin(E_AND, mkBin(E_ULE, mkConst(lo, e->w), e), mkBin(E_ULE, e, mkConst(hi, e->w))); State* o = nullptr; int r = decide(s, c, &o); if (r == 2) { pushWork(o); in = true; } else in = r; return RES_OK; }
static Res b_conv_in(State& s, Val* a, unsigned, Val* ret, const CallInfo&) {
  NEED(0, 64, "pointer"); NEED(1, 64, "length"); NEED(2, 64, "pointer"); NEED(3, 64, "pointer"); NEED(4, 32, "handler");
  std::string enc = logName(s, a[2].c); u64 n = a[1].c; u32 id, off; Obj* o = nullptr;
  if (n) { o = locate(s, a[0].c, n, id, off, false); if (!o) return memFault(s); }
  bool utf8 = !strcasecmp(enc.c_str(), "UTF-8") || !strcasecmp(enc.c_str(), "UTF8"); bool symb = false;
  std::vector<Val> b(n); for (u64 i = 0; i < n; i++) { b[i] = rdByte(o, off + i); if (b[i].e == UNDEF) { addViolation(s, "uninit", "uninitialised text converted"); return RES_END; } if (b[i].e) b[i] = resolve(s, b[i]); if (b[i].e) symb = true; }
  std::vector<Val> out;
  if (symb) {
    if (!utf8 && strcasecmp(enc.c_str(), "ASCII") && strcasecmp(enc.c_str(), "US-ASCII") && strcasecmp(enc.c_str(), "ANSI_X3.4-1968")) { // other encodings: concrete only
      for (u64 i = 0; i < n; i++) { Res r = concretize(s, b[i], 8, "byte"); if (r != RES_OK) return r; }
      symb = false;
    } else {
      bool bad = false;
      for (u64 i = 0; i < n && !bad;) {
        const Expr* e0 = toE(b[i], 8); bool in;
        if (b[i].e) rangeSplit(s, e0, 0, 0x7f, in); else in = b[i].c < 0x80;
        if (in) { out.push_back(b[i].e ? EV(mkZext(b[i].e, 32)) : b[i]); i++; continue; }
        if (!utf8) { bad = true; break; }
        Val l = b[i]; Res r = concretize(s, l, 8, "lead byte"); if (r != RES_OK) return r; // lead bytes concrete
        unsigned k = l.c >= 0xc2 && l.c <= 0xdf ? 2 : (l.c & 0xf0) == 0xe0 ? 3 : l.c >= 0xf0 && l.c <= 0xf4 ? 4 : 0;
        if (!k || i + k > n) { bad = true; break; }
        const Expr* cp = mkConst(k == 2 ? l.c & 0x1f : k == 3 ? l.c & 0xf : l.c & 7, 32);
        for (unsigned j = 1; j < k; j++) {
          u64 lo = 0x80, hi = 0xbf; if (j == 1) { if (l.c == 0xe0) lo = 0xa0; if (l.c == 0xed) hi = 0x9f; if (l.c == 0xf0) lo = 0x90; if (l.c == 0xf4) hi = 0x8f; }
          const Expr* e = toE(b[i + j], 8); if (b[i + j].e) rangeSplit(s, e, lo, hi, in); else in = b[i + j].c >= lo && b[i + j].c <= hi;
          if (!in) { bad = true; break; }
          cp = mkBin(E_OR, mkBin(E_SHL, cp, mkConst(6, 32)), mkZext(mkBin(E_AND, e, mkConst(0x3f, 8)), 32));
        }
        if (bad) break; out.push_back(EV(cp)); i += k;
      }
      if (bad) { out.clear(); for (u64 i = 0; i < n; i++) { Res r = concretize(s, b[i], 8, "byte of malformed text"); if (r != RES_OK) return r; } symb = false; }
    }
  }
  if (!symb) {
    std::string src; for (auto& v : b) src.push_back((char) v.c); out.clear();
    size_t rl = 0; errno = 0; u32* r = u32_conv_from_encoding(enc.c_str(), (enum iconv_ilseq_handler) a[4].c, src.data(), src.size(), nullptr, nullptr, &rl);
    if (!r) { *ret = CV((u64) -(i64) (errno ? errno : 22)); return RES_OK; }
    for (size_t i = 0; i < rl; i++) out.push_back(CV(r[i])); free(r);
  }
  u64 cap = n; if (out.size() > cap) return endUnsupported(s, "conversion output longer than input");
  if (!out.empty()) { u32 di, dof; if (!locate(s, a[3].c, out.size() * 4, di, dof, true)) return memFault(s); Obj* w = s.mem.getW(di); for (size_t i = 0; i < out.size(); i++) writeObj(w, dof + i * 4, 4, out[i], 32); }
  *ret = CV(out.size()); return RES_OK; }
// __conv_out(src_u32, count, enc, dst, cap) -> bytes or -errno
static Res b_conv_out(State& s, Val* a, unsigned, Val* ret, const CallInfo&) {
  NEED(0, 64, "pointer"); NEED(1, 64, "length"); NEED(2, 64, "pointer"); NEED(3, 64, "pointer"); NEED(4, 64, "length"); NEED(5, 32, "handler");
  std::string enc = logName(s, a[2].c); u64 n = a[1].c; u32 id, off; Obj* o = nullptr;
  if (n) { o = locate(s, a[0].c, n * 4, id, off, false); if (!o) return memFault(s); }
  bool utf8 = !strcasecmp(enc.c_str(), "UTF-8") || !strcasecmp(enc.c_str(), "UTF8"), ascii = !strcasecmp(enc.c_str(), "ASCII") || !strcasecmp(enc.c_str(), "US-ASCII") || !strcasecmp(enc.c_str(), "ANSI_X3.4-1968");
  bool symb = false; std::vector<Val> c(n);
  for (u64 i = 0; i < n; i++) { c[i] = readObj(o, off + 4 * i, 4, 32); if (c[i].e == UNDEF) { addViolation(s, "uninit", "uninitialised character in output text"); return RES_END; } if (c[i].e) c[i] = resolve(s, c[i]); if (c[i].e) symb = true; }
  std::vector<Val> out;
  if (symb && utf8) {
    for (u64 i = 0; i < n; i++) {
      const Expr* e = toE(c[i], 32); bool in;
      if (!c[i].e) { u64 x = c[i].c; if (x < 0x80) out.push_back(CV(x)); else if (x < 0x800) { out.push_back(CV(0xc0 | x >> 6)); out.push_back(CV(0x80 | (x & 0x3f))); } else if (x < 0x10000 && !(x >= 0xd800 && x < 0xe000)) { out.push_back(CV(0xe0 | x >> 12)); out.push_back(CV(0x80 | (x >> 6 & 0x3f))); out.push_back(CV(0x80 | (x & 0x3f))); } else if (x >= 0x10000 && x < 0x110000) { out.push_back(CV(0xf0 | x >> 18)); out.push_back(CV(0x80 | (x >> 12 & 0x3f))); out.push_back(CV(0x80 | (x >> 6 & 0x3f))); out.push_back(CV(0x80 | (x & 0x3f))); } else return endUnsupported(s, "bad code point"); continue; }
      auto by = [&](unsigned sh, u64 mask, u64 orv) { Val v = EV(mkExtract(mkBin(E_OR, mkBin(E_AND, mkBin(E_LSHR, e, mkConst(sh, 32)), mkConst(mask, 32)), mkConst(orv, 32)), 0, 8)); return resolve(s, v); };
      rangeSplit(s, e, 0, 0x7f, in); if (in) { out.push_back(EV(mkExtract(e, 0, 8))); continue; }
      rangeSplit(s, e, 0x80, 0x7ff, in); if (in) { out.push_back(by(6, 0x1f, 0xc0)); out.push_back(by(0, 0x3f, 0x80)); continue; }
      rangeSplit(s, e, 0x800, 0xd7ff, in); if (!in) rangeSplit(s, e, 0xe000, 0xffff, in);
      if (in) { out.push_back(by(12, 0xf, 0xe0)); out.push_back(by(6, 0x3f, 0x80)); out.push_back(by(0, 0x3f, 0x80)); continue; }
      rangeSplit(s, e, 0x10000, 0x10ffff, in); if (!in) return endUnsupported(s, "bad code point");
      out.push_back(by(18, 7, 0xf0)); out.push_back(by(12, 0x3f, 0x80)); out.push_back(by(6, 0x3f, 0x80)); out.push_back(by(0, 0x3f, 0x80));
    }
  } else {
    if (symb && ascii) { for (u64 i = 0; i < n; i++) { if (!c[i].e) continue; bool in; rangeSplit(s, c[i].e, 0, 0x7f, in); if (!in) { Res r = concretize(s, c[i], 32, "character"); if (r != RES_OK) return r; } } 
      // symbolic ASCII characters are passed through around native conversion of the rest
      std::vector<u32> seg; auto flush = [&]() -> bool { if (seg.empty()) return true; size_t rl = 0; char* r = u32_conv_to_encoding(enc.c_str(), (enum iconv_ilseq_handler) a[5].c, seg.data(), seg.size(), nullptr, nullptr, &rl); if (!r) return false; for (size_t k = 0; k < rl; k++) out.push_back(CV((u8) r[k])); free(r); seg.clear(); return true; };
      for (u64 i = 0; i < n; i++) { if (!c[i].e) seg.push_back(c[i].c); else { if (!flush()) { *ret = CV((u64) -22); return RES_OK; } out.push_back(EV(mkExtract(c[i].e, 0, 8))); } }
      if (!flush()) { *ret = CV((u64) -22); return RES_OK; }
    } else {
      for (u64 i = 0; i < n; i++) { Res r = concretize(s, c[i], 32, "character"); if (r != RES_OK) return r; }
      std::vector<u32> v; for (auto& x : c) v.push_back(x.c); size_t rl = 0; errno = 0; char* r = u32_conv_to_encoding(enc.c_str(), (enum iconv_ilseq_handler) a[5].c, v.data(), v.size(), nullptr, nullptr, &rl);
      if (!r) { *ret = CV((u64) -(i64) (errno ? errno : 22)); return RES_OK; }
      for (size_t k = 0; k < rl; k++) out.push_back(CV((u8) r[k])); free(r);
    }
  }
  if (out.size() > a[4].c) return endUnsupported(s, "conversion output too long");
  if (!out.empty()) { u32 di, dof; if (!locate(s, a[3].c, out.size(), di, dof, true)) return memFault(s); Obj* w = s.mem.getW(di); for (size_t i = 0; i < out.size(); i++) wrByte(w, dof + i, out[i]); }
  *ret = CV(out.size()); return RES_OK; }
static Res b_strerror_native(State& s, Val* a, unsigned, Val* ret, const CallInfo&) { NEED(0, 32, "errno"); const char* m = strerror((int) a[0].c); Obj* o = newObj(strlen(m) + 1, K_GLOBAL, false); memcpy(o->data, m, strlen(m) + 1); *ret = CV(addrOf(s.mem.add(o))); return RES_OK; }
static Res b_nop(State&, Val*, unsigned, Val* ret, const CallInfo&) { *ret = CV(0); return RES_OK; }

static Res doExit(State& s, Val code);
static Res b_exit(State& s, Val* a, unsigned, Val*, const CallInfo&) { return doExit(s, a[0]); }
static Res b_va_start(State& s, Val* a, unsigned, Val*, const CallInfo&) {
  NEED(0, 64, "pointer"); u32 id, off; if (!locate(s, a[0].c, 24, id, off, true)) return memFault(s); Obj* w = s.mem.getW(id);
  writeObj(w, off, 4, CV(48), 32); writeObj(w, off + 4, 4, CV(176), 32); writeObj(w, off + 8, 8, CV(s.st.back().vaObj), 64); writeObj(w, off + 16, 8, CV(0), 64); return RES_OK; }
static Res b_va_copy(State& s, Val* a, unsigned, Val*, const CallInfo&) { NEED(0, 64, "pointer"); NEED(1, 64, "pointer"); return doCopy(s, a[0].c, a[1].c, 24, true); }

static void setupBuiltins() {
  auto& B = gBuiltins;
  B["malloc"] = b_malloc; B["__model_malloc"] = b_model_malloc; B["__model_free"] = b_free; B["calloc"] = b_calloc; B["realloc"] = b_realloc; B["free"] = b_free;
  B["memcpy"] = b_memcpy; B["memmove"] = b_memmove; B["memset"] = b_memset; B["strlen"] = b_strlen; B["u32_strlen"] = b_u32_strlen;
  B["sym_choice"] = b_sym_choice; B["sym_byte"] = b_sym_byte; B["sym_assert"] = b_sym_assert; B["sym_assume"] = b_sym_assume; B["sym_cover"] = b_sym_cover; B["sym_trace"] = b_sym_trace; B["sym_checkinit"] = b_sym_checkinit;
  B["sym_concretize"] = b_sym_concretize; B["sym_unsupported"] = b_sym_unsupported; B["sym_debug"] = b_sym_debug; B["abort"] = b_abort; B["__assert_fail"] = b_abort; B["__stack_chk_fail"] = b_abort;
#define R(fn) B[#fn] = b_##fn;
  R(uc_is_blank) R(uc_is_cntrl) R(uc_is_alnum) R(uc_is_alpha) R(uc_is_digit) R(uc_is_space) R(uc_is_punct) R(uc_is_print) R(uc_is_graph) R(uc_is_upper) R(uc_is_lower) R(uc_is_xdigit) R(uc_is_c_whitespace) R(uc_is_property_white_space) R(uc_is_property_bidi_whitespace) R(uc_tolower) R(uc_toupper) R(uc_combining_class) R(uc_width)
  R(isalpha) R(isalnum) R(isdigit) R(isspace) R(isupper) R(islower) R(isxdigit) R(ispunct) R(isprint) R(isgraph) R(iscntrl) R(isblank) R(tolower) R(toupper)
  B["__ctype_b_loc"] = b_ctype_b; B["__ctype_tolower_loc"] = b_ctype_lo; B["__ctype_toupper_loc"] = b_ctype_up; B["__conv_in"] = b_conv_in; B["__conv_out"] = b_conv_out; B["__strerror_native"] = b_strerror_native;
  B["exit"] = b_exit; B["_exit"] = b_exit;
}
