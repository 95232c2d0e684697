/* shared pieces of the drawing harnesses: designs, texts, options, measuring */
#ifndef DRAWLIB_H
#define DRAWLIB_H
#include "box.h"
static struct buf cfg; static struct geo G; static char mode; static int prefix;
static int reqw, reqh, pl, pr, pt, pb, has_size; static char ha, va, ju;
static const char *const TX[] = {
  "@", "@@ ~\n ~@\n", "\n@b\n~\n", "  @~@\n   ~b\n\n  c~~", "\xe5\xae\xbd@\n~x\n", "a\xcc\x81@~\n \xe2\x82\xac\n", "\t@\n\t %b\n", "\033[1m@\033[0m~c\n@@\033[31mab\033[0mz",
  "@ some longer line of text, here ~ and there ~@\n    short\n@\n", "1\n22\n@@@\n4444\n~~~~~\n666666\n", " \n  ~@\n\n    @\n", "~~~~~\n", "@\n\n\n\n\n\n~\n", "\xe3\x80\x80x@\n", "\xe5\xae\xbd\xe5\xae\xbd\t@\t~\n\ta\n", "``\n` `\n" };
#define NT LEN(TX)
#if P == 1 || P == 6 || P == 2
static const int TXQ[] = {0, 1, 2, 3, 4, 7, 8, 9, 15};
#elif P == 3
static const int TXQ[] = {0, 1, 4, 8};
#elif P == 4
static const int TXQ[] = {0, 1, 3, 4};
#elif P == 5
static const int TXQ[] = {1, 3, 4, 9};
#else
static const int TXQ[] = {0, 8};
#endif
static int big;
static const int BIGD[] = {0, 3, 5, 13, 17};
static void text_in(void) {
  if (big) { switch (big) {
    case 1: for (int i = 0; i < 130; i++) { if (i % 7 == 3) t_str("  "); if (i % 50 == 9) TSYM("s", "ab", 1); if (i % 11) t_rep('a' + i % 26, 1 + i % 5); t_eol("\n"); } break;
    case 2: t_rep('x', 300); TSYM("s", "ab ", 1); t_rep('y', 400); t_str(" "); TSYM("s", "abc", 1); t_eol("\n"); t_str("short"); t_eol("\n"); break;
    case 3: for (int i = 0; i < 260; i++) { t_ch(i % 3 ? 'a' + i % 26 : ' '); if (i % 90 == 8) TSYM("s", "pq", 1); if (i < 259) t_eol("\n"); } break;
    case 4: { static const int LC[] = {100, 202, 101, 301}; int n = LC[sym_choice("lines", LEN(LC))], fin = sym_choice("final", 2); for (int i = 0; i < n; i++) { if (i == n - 1 || i == 99 || i == 199) TSYM("s", "a ", 1); else if (i % 9) t_ch('a' + i % 26); if (fin || i < n - 1) t_eol("\n"); } } break; }
    stdin_buf(&txt); return; }
  int k = TIER ? sym_choice("text", NT) : TXQ[sym_choice("text", LEN(TXQ))]; t_tpl(TX[k]); stdin_buf(&txt); }
static void pads(void) { pt = G.pad[TOP]; pr = G.pad[RIGHT]; pb = G.pad[BOTTOM]; pl = G.pad[LEFT]; }
static int design(void) { big = sym_choice("big", 5); int k = big ? BIGD[sym_choice("design", big == 4 ? 2 : LEN(BIGD))] : sym_choice("design", ND); geo_init(&G, &D[k]); emit_design(&cfg, "t", &D[k]); world_file("/c", cfg.b, cfg.n, W_FILE); args0(); arg("-f"); arg("/c"); pads(); mode = G.indent; return k; }
static int OPT(const char *n, int k) { return sym_choice(n, big == 4 ? 1 : big && k > 2 ? 2 : k); }
static void indent_opt(int n) { int k = OPT("imode", n); if (k) { arg("-i"); mode = "btn"[k - 1]; const char *const *w = (const char *const[]){"box", "text", "none"}; arg(w[k - 1]); } }
static int TW, iw, ih, lo_iw, hi_iw, lo_ih, hi_ih, vis_w;
static int need_w, need_h, need_w0, need_h0; /* 0: smallest inside the design and text allow */
static void fits(int a, int b, int target, int *lo, int *hi);
static int tabd = 8, unexp;
static int expand_lead(int tab); static struct buf xb;
static void measure_(void);
static void measure(void) { t_expect(tabd, mode); measure_(); }
static void measure_(void) {
  prefix = mode == 'b' ? common : 0; if (unexp) { expand_lead(tabd); parse_buf(xb.b, xb.n, "\n"); } else parse_out("\n");
  need_w = Wt; if (!reqw) need_w += pl + pr; else if (reqw - G.lw - G.rw > need_w) need_w = reqw - G.lw - G.rw;
  need_h = nl; if (!reqh) need_h += pt + pb; else if (reqh - G.th - G.bh > need_h) need_h = reqh - G.th - G.bh;
  { int t; fits(TOP, BOTTOM, Wt, &need_w0, &t); fits(LEFT, RIGHT, nl, &need_h0, &t); }
  fits(TOP, BOTTOM, need_w, &lo_iw, &hi_iw); fits(LEFT, RIGHT, need_h, &lo_ih, &hi_ih);
  vis_w = G.have[RIGHT]; TW = 0; for (int i = 0; i < no; i++) if (O[i].n > TW) TW = O[i].n;
  iw = vis_w ? TW - prefix - G.lw - G.rw : hi_iw; ih = no - G.th - G.bh; }
/* reachable extents: an elastic pair alternates, either one may come first */
static int fit2(const struct geo *g, int a, int b, int target, int sa, int sb) {
  struct sq p, q; sq_init(&p, g, a); sq_init(&q, g, b); if (p.sum > target) target = p.sum; if (q.sum > target) target = q.sum;
  if (sa && p.e2) { int t = p.e1; p.e1 = p.e2; p.e2 = t; p.cur = p.fixed + p.e1; } if (sb && q.e2) { int t = q.e1; q.e1 = q.e2; q.e2 = t; q.cur = q.fixed + q.e1; }
  for (;;) { if (p.cur == q.cur && p.cur >= target) return p.cur; if (p.cur <= q.cur) sq_next(&p); else sq_next(&q); } }
static void fits(int a, int b, int target, int *lo, int *hi) { *lo = 1 << 20; *hi = 0; for (int k = 0; k < 4; k++) { int v = fit2(&G, a, b, target, k & 1, k >> 1); if (v < *lo) *lo = v; if (v > *hi) *hi = v; } }
/* cells of the shape at line l, drawn at column x of row r */
static int same_shape(const struct row *r, int x, int k, int l) { int ok = 1; for (int i = 0; i < G.w[k]; i++) ok &= rcell(r, x + i) == rcell(&G.r[k][l], i); return ok; }
static int blank_range(const struct row *r, int a, int b) { int ok = 1; for (int i = a; i < b && i < r->n; i++) ok &= r->c[i] == ' '; return ok; }
static int textrow0(void) { return G.th; }
/* first non-blank column of the inside of row j, or -1 */
static int first_nb(int j) { struct row *r = &O[j]; int e = vis_w ? prefix + G.lw + iw : r->n; for (int i = prefix + G.lw; i < e && i < r->n; i++) if (r->c[i] != ' ') return i - prefix - G.lw; return -1; }
static int xfirst(int k) { struct row *r = &XL[k]->r; for (int i = 0; i < r->n; i++) if (r->c[i] != ' ') return i; return -1; }
static int firstk, T; /* first non-blank text line, vertical offset of the text block inside */
static int locate(void) { firstk = -1; for (int k = 0; k < nl && firstk < 0; k++) if (XL[k]->r.n) firstk = k; T = 0; if (firstk < 0) return 0; for (int j = 0; j < ih; j++) if (first_nb(textrow0() + j) >= 0) { T = j - firstk; return 1; } T = -1000; return 1; }
static char sdig(const char *n, const char *set, int k) { return (char) sym_byte(n, set, k); }
static void opt_size(void) { /* -s with symbolic digits */
  int k = OPT("size", 6); char b[8]; int d1, d2;
  switch (k) { case 0: return;
    case 1: d1 = sdig("w", "0123456789", 10); b[0] = '1'; b[1] = d1; b[2] = 0; reqw = 10 + d1 - '0'; break;
    case 2: d1 = sdig("h", "123456789", 9); b[0] = 'x'; b[1] = d1; b[2] = 0; reqh = d1 - '0'; break;
    case 3: d1 = sdig("w", "123456789", 9); d2 = sdig("h", "0123456789", 10); b[0] = d1; b[1] = 'x'; b[2] = '1'; b[3] = d2; b[4] = 0; reqw = d1 - '0'; reqh = 10 + d2 - '0'; break;
    case 4: d1 = sdig("w", "0123456789", 10); b[0] = '5'; b[1] = d1; b[2] = 'x'; b[3] = '7'; b[4] = 0; reqw = 50 + d1 - '0'; reqh = 7; break;
    case 5: d1 = sdig("w", "0123456789", 10); b[0] = '2'; b[1] = d1; b[2] = 'x'; b[3] = '3'; b[4] = 0; reqw = 20 + d1 - '0'; reqh = 3; break; }
  reqw = sym_concretize(reqw); reqh = sym_concretize(reqh); arg("-s"); arg(sdup(b, 7)); }
static void opt_pad(void) {
  int d = 0, e = 0; char b[12]; b[0] = 0; int k = OPT("pad", 9); if (k) d = sdig("p", "0123", 4) - '0'; if (k >= 6) e = sdig("q", "013", 3) - '0'; d = sym_concretize(d); e = sym_concretize(e);
#define PA(x) do { arg("-p"); arg(x); } while (0)
  switch (k) { case 0: return;
    case 1: PA(cat("a", num(d))); pl = pr = pt = pb = d; break;
    case 2: PA(cat("h", num(d))); pl = pr = d; break;
    case 3: PA(cat("v", num(d))); pt = pb = d; break;
    case 4: PA(cat("l", num(d))); pl = d; break;
    case 5: PA(cat(cat("r", num(d)), "t1")); pr = d; pt = 1; break;
    case 6: PA(cat(cat("b", num(d)), cat("l", num(e)))); pb = d; pl = e; break;
    case 7: PA(cat(cat("a", num(d)), cat("t", num(e)))); pl = pr = pb = d; pt = e; break;
    case 8: PA(cat("l", num(d))); PA(cat("h", num(e))); pl = pr = e; break; } }
static void opt_align(void) {
  static const char *const A[] = {"", "hlvt", "hcvc", "hrvb", "hcvt", "hrvt", "hlvc", "hcvb"}; static const char *const J[] = {"", "jl", "jc", "jr"};
  int a = OPT("align", LEN(A) + 3); ha = 'l'; va = 't'; ju = 0;
  if (a >= LEN(A)) { const char *s = a == LEN(A) ? "l" : a == LEN(A) + 1 ? "c" : "r"; ha = ju = s[0]; va = 'c'; arg("-a"); arg(s); return; }
  int j = sym_choice("just", 4); const char *s = A[a]; if (a) { ha = s[1]; va = s[3]; } if (j) ju = J[j][1]; if (!a && !j) return;
  int ord = a && j && (TIER || a + j == 5) ? sym_choice("order", 2) : 0; arg("-a"); arg(ord ? cat(J[j], s) : cat(s, J[j])); }
/* output with the tabs of the leading white space of every line expanded; returns the number of other tabs */
static int leadtabs[512], leadlen[512]; 
static int expand_lead(int tab) { const u8 *o = bx_out(); int e = bx_outlen(), col = 0, lead = 1, bad = 0, r = 0; xb.n = 0; leadtabs[0] = leadlen[0] = 0;
  for (int i = 0; i < e; i++) { int c = o[i]; if (c == '\n') { col = 0; lead = 1; bput(&xb, c); r++; leadtabs[r] = leadlen[r] = 0; continue; } if (lead && c == '\t') { leadtabs[r]++; leadlen[r]++; do { bput(&xb, ' '); col++; } while (col % tab); continue; } if (c == '\t') bad++; if (c == ' ') { leadlen[r] += lead; col++; } else lead = 0; bput(&xb, c); } return bad; }
#endif
