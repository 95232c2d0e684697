/* Reference geometry of designs, model of the input text, parser of the output: everything computed from the
 * documented meaning of designs and options, never from the implementation. */
#ifndef BOX_H
#define BOX_H
#include "common.h"
#include <stdlib.h>
enum { NW, NNW, N, NNE, NE, ENE, E, ESE, SE, SSE, S, SSW, SW, WSW, W, WNW };
enum { TOP, RIGHT, BOTTOM, LEFT };
static const char *const SHN[16] = {"nw", "nnw", "n", "nne", "ne", "ene", "e", "ese", "se", "sse", "s", "ssw", "sw", "wsw", "w", "wnw"};
struct dsn { const char *sh[16][4]; int el; int pad[4]; char indent; const char *extra; };
#define EL(x) (1 << (x))
static const struct dsn D[] = {
/* 0 */ {{[NW]={"+"}, [N]={"-"}, [NE]={"+"}, [W]={"|"}, [E]={"|"}, [SW]={"+"}, [S]={"-"}, [SE]={"+"}}, EL(N)|EL(E)|EL(S)|EL(W)},
/* 1 */ {{[NW]={"/*"}, [N]={"*"}, [NE]={"**"}, [W]={" *"}, [E]={"* "}, [SW]={" *"}, [S]={"*"}, [SE]={"*/"}}, EL(N)|EL(E)|EL(S)|EL(W), {0,1,0,1}},
/* 2 */ {{[W]={"#!"}}, EL(W), {0,0,0,1}},
/* 3 */ {{[NW]={" A-","AAA"}, [NNW]={"x","X"}, [N]={"==","--"}, [NNE]={"y","Y"}, [NE]={"-B","BB"}, [WNW]={"wnw"}, [W]={" w "}, [WSW]={"wsw"}, [ENE]={"e1"}, [E]={"e2"}, [ESE]={"e3"}, [SW]={"CCC"}, [SSW]={"p"}, [S]={"=-"}, [SSE]={"q"}, [SE]={"DD"}}, EL(N)|EL(S)|EL(W)|EL(E)},
/* 4 */ {{[NW]={"="}, [N]={"="}, [NE]={"="}, [SW]={"="}, [S]={"="}, [SE]={"="}}, EL(N)|EL(S), {1,0,1,0}},
/* 5 */ {{[NW]={"/","|"}, [N]={"-"," "}, [NE]={"\\","|"}, [W]={"|"}, [E]={"|"}, [SW]={"|","\\"}, [S]={" ","_"}, [SE]={"|","/"}}, EL(N)|EL(E)|EL(S)|EL(W), {1,1,0,2}, 't'},
/* 6 */ {{[NW]={"<"}, [NNW]={"a"}, [N]={"-"}, [NNE]={"b"}, [NE]={">"}, [W]={"["}, [E]={"]"}, [SW]={"<"}, [S]={"_"}, [SE]={">"}}, EL(NNW)|EL(NNE)|EL(E)|EL(S)|EL(W), {0,0,0,0}, 'n'},
/* 7 */ {{[NW]={"("}, [N]={"-"}, [NE]={")"}, [E]={":"}, [SW]={"("}, [S]={"-"}, [SE]={")"}}, EL(N)|EL(E)|EL(S)},
/* 8 */ {{[NW]={"\033[1m+\033[0m"}, [N]={"\033[1m-\033[0m"}, [NE]={"+"}, [W]={"|"}, [E]={"\033[32m|\033[0m"}, [SW]={"+"}, [S]={"-"}, [SE]={"+"}}, EL(N)|EL(E)|EL(S)|EL(W)},
/* 9 */ {{[NW]={"\xe2\x95\x94 "}, [N]={"\xe2\x95\x90"}, [NE]={"\xe2\x95\x97"}, [W]={"\xe5\xae\xbd"}, [E]={"\xe2\x95\x91"}, [SW]={"\xe2\x95\x9a "}, [S]={"\xe2\x95\x90"}, [SE]={"\xe2\x95\x9d"}}, EL(N)|EL(E)|EL(S)|EL(W)},
/* 10 */ {{[NW]={"<"}, [N]={"~"}, [NE]={">"}}, EL(N), {0,0,0,0}, 'b'},
/* 11 */ {{[E]={"|"}}, EL(E)},
/* 12 */ {{[NW]={"+"}, [N]={"<>"}, [NE]={"+"}, [W]={"(","["}, [E]={")","]","}"}, [SW]={"+"}, [S]={"abc"}, [SE]={"+"}}, EL(N)|EL(E)|EL(S)|EL(W)},
/* 13 */ {{[NW]={"+"}, [NNW]={"12"}, [N]={"345"}, [NNE]={"6"}, [NE]={"+"}, [WNW]={"u","v"}, [W]={"w"}, [WSW]={"x"}, [ENE]={"a"}, [E]={"b","c"}, [ESE]={"d","e"}, [SW]={"+"}, [SSW]={"l"}, [S]={"mn"}, [SSE]={"o"}, [SE]={"+"}}, EL(NNW)|EL(WNW)|EL(WSW)|EL(ENE)|EL(ESE)|EL(SSW)|EL(SSE)},
/* 14 */ {{[NW]={"+"}, [N]={"-"}, [NNE]={"\xe5\xae\xbd""a"}, [NE]={"+"}, [W]={"|"}, [E]={"|"}, [SW]={"+"}, [SSW]={"=="}, [S]={"."}, [SE]={"+"}}, EL(N)|EL(E)|EL(SSW)|EL(W), {2,3,1,0}, 0},
/* 15 */ {{[NW]={"\xe2\x95\x94"}, [N]={"\xe2\x95\x90"}, [NE]={"\xe2\x95\x97"}, [W]={"\xe2\x95\x91"}, [E]={"\xe2\x95\x91"}, [SW]={"\xe2\x95\x9a"}, [S]={"\xe2\x95\x90"}, [SE]={"\xe2\x95\x9d"}}, EL(N)|EL(E)|EL(S)|EL(W), {0,1,0,1}},
/* 16 */ {{[SW]={"`"}, [S]={"~"}, [SE]={"'"}, [W]={"|"}, [E]={"|"}}, EL(S)|EL(W)|EL(E), {0,2,1,0}, 't'},
/* 17 */ {{[W]={" * "}, [NW]={"/**"}, [SW]={" */"}}, EL(W)},
/* 18 */ {{[SW]={"<"}, [S]={"~"}, [SE]={">"}}, EL(S), {1,0,1,0}},
/* 19 */ {{[NW]={"/=","|-"}, [N]={"=","-"}, [NE]={"\\","|"}, [W]={"| "}, [E]={"|"}}, EL(N)|EL(W)|EL(E)},
/* 20 */ {{[NW]={"=--"}, [N]={"-"}, [W]={"=  "}, [SW]={"=..","``'"}, [S]={".","'"}}, EL(N)|EL(W)|EL(S), {0,0,0,1}},
/* 21 */ {{[E]={" ##"}, [SW]={"+.","++","'+"}, [S]={"_","-","~"}, [SE]={"_##",".##","~##"}}, EL(E)|EL(S), {1,0,0,0}, 't'},
/* 22 */ {{[NW]={"+"}, [NNW]={"1"}, [N]={"2"}, [NNE]={"3"}, [NE]={"+"}, [WNW]={"4"}, [W]={"5"}, [WSW]={"6"}, [ENE]={"7"}, [E]={"8"}, [ESE]={"9"}, [SW]={"+"}, [SSW]={"o"}, [S]={"p"}, [SSE]={"q"}, [SE]={"+"}}, EL(NNW)|EL(NNE)|EL(WNW)|EL(WSW)|EL(ENE)|EL(ESE)|EL(SSW)|EL(SSE)},
};
#define ND LEN(D)
static const int SIDE[4][5] = {{NW, NNW, N, NNE, NE}, {NE, ENE, E, ESE, SE}, {SW, SSW, S, SSE, SE}, {NW, WNW, W, WSW, SW}};
/* ---- characters ---- */
static int refw(int c) {
  if (c < 0x300) return c >= 32 && !(c >= 0x7f && c < 0xa0);
  if (c <= 0x36f || (c >= 0x200b && c <= 0x200f) || (c >= 0xfe00 && c <= 0xfe0f) || (c >= 0x20d0 && c <= 0x20ff)) return 0;
  if ((c >= 0x1100 && c <= 0x115f) || (c >= 0x2e80 && c <= 0xa4cf && c != 0x303f) || (c >= 0xac00 && c <= 0xd7a3) || (c >= 0xf900 && c <= 0xfaff) || (c >= 0xfe30 && c <= 0xfe6f) || (c >= 0xff00 && c <= 0xff60) || (c >= 0xffe0 && c <= 0xffe6) || (c >= 0x1f300 && c <= 0x1f64f) || (c >= 0x1f900 && c <= 0x1f9ff) || (c >= 0x20000 && c <= 0x3fffd)) return 2;
  return 1; }
static int refspace(int c) { return c == ' ' || (c >= 9 && c <= 13) || c == 0x3000; }
static int u8len(int b) { return b < 0x80 ? 1 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : 4; }
static int u8get(const u8 *p) { int b = p[0]; if (b < 0x80) return b; if (b < 0xe0) return (b & 0x1f) << 6 | (p[1] & 0x3f); if (b < 0xf0) return (b & 15) << 12 | (p[1] & 0x3f) << 6 | (p[2] & 0x3f); return (b & 7) << 18 | (p[1] & 0x3f) << 12 | (p[2] & 0x3f) << 6 | (p[3] & 0x3f); }
static void u8put(struct buf *b, int c) { if (c < 0x80) bput(b, c); else if (c < 0x800) { bput(b, 0xc0 | c >> 6); bput(b, 0x80 | (c & 63)); } else if (c < 0x10000) { bput(b, 0xe0 | c >> 12); bput(b, 0x80 | (c >> 6 & 63)); bput(b, 0x80 | (c & 63)); } else { bput(b, 0xf0 | c >> 18); bput(b, 0x80 | (c >> 12 & 63)); bput(b, 0x80 | (c >> 6 & 63)); bput(b, 0x80 | (c & 63)); } }
/* ---- rows of cells by display column ---- */
#define CONT (-1)
struct row { int n, cap, *c, *z, esc, ctl; };       /* c: character of the column, z: marks of zero width on it */
static void rinit(struct row *r) { r->n = 0; r->cap = 48; r->c = malloc(48 * 4); r->z = malloc(48 * 4); r->esc = r->ctl = 0; }
static void radd(struct row *r, int c) { if (r->n >= r->cap) { r->cap *= 4; r->c = realloc(r->c, r->cap * 4); r->z = realloc(r->z, r->cap * 4); } r->c[r->n] = c; r->z[r->n] = 0; r->n++; }
static void rglyph(struct row *r, int c) { int w = refw(c); if (w == 0) { if (c < 32 || c == 127) r->ctl++; else if (r->n) { int i = r->n - 1; if (r->c[i] == CONT) i--; r->z[i] = r->z[i] * 31 + c; } return; } radd(r, c); if (w == 2) radd(r, CONT); }
static int rcell(const struct row *r, int i) { return i < 0 || i >= r->n ? ' ' : r->c[i]; }
static int rmark(const struct row *r, int i) { return i < 0 || i >= r->n ? 0 : r->z[i]; }
/* skips an escape sequence at p[0]==ESC (n bytes available), returns its length */
static int esclen(const u8 *p, int n) { if (n < 2) return 1; if (p[1] == '[' || p[1] == '(') { int i = 2; while (i < n && !(p[i] >= 0x40 && p[i] <= 0x7e)) i++; return i < n ? i + 1 : n; } if (p[1] >= 0x40 && p[1] <= 0x5f) return 2; return 1; }
static void rdecode(struct row *r, const u8 *p, int n) { rinit(r); for (int i = 0; i < n;) { if (p[i] == 27) { int k = esclen(p + i, n - i); r->esc += k; i += k; continue; } int k = u8len(p[i]); rglyph(r, u8get(p + i)); i += k; } }
/* ---- design geometry ---- */
struct geo { const struct dsn *d; int w[16], h[16]; struct row r[16][4]; int th, bh, lw, rw, have[4]; int pad[4]; char indent; };
static int blankrow(const struct row *r) { for (int i = 0; i < r->n; i++) if (r->c[i] != ' ') return 0; return 1; }
static void geo_init(struct geo *g, const struct dsn *d) {
  g->d = d; g->indent = d->indent ? d->indent : 'b'; for (int i = 0; i < 4; i++) { g->pad[i] = d->pad[i]; g->have[i] = 0; } g->th = g->bh = g->lw = g->rw = 0;
  for (int k = 0; k < 16; k++) { g->h[k] = g->w[k] = 0; for (int l = 0; l < 4 && d->sh[k][l]; l++) { rdecode(&g->r[k][l], (const u8 *) d->sh[k][l], strlen(d->sh[k][l])); g->w[k] = g->r[k][l].n; g->h[k]++; } }
  for (int s = 0; s < 4; s++) for (int i = 0; i < 5; i++) { int k = SIDE[s][i]; for (int l = 0; l < g->h[k]; l++) if (!blankrow(&g->r[k][l])) g->have[s] = 1; }
  for (int i = 0; i < 5; i++) { int k = SIDE[TOP][i]; if (g->h[k] > g->th) g->th = g->h[k]; k = SIDE[BOTTOM][i]; if (g->h[k] > g->bh) g->bh = g->h[k]; k = SIDE[LEFT][i]; if (g->w[k] > g->lw) g->lw = g->w[k]; k = SIDE[RIGHT][i]; if (g->w[k] > g->rw) g->rw = g->w[k]; }
  if (!g->have[TOP]) g->th = 0; if (!g->have[BOTTOM]) g->bh = 0; if (!g->have[LEFT]) g->lw = 0; if (!g->have[RIGHT]) g->rw = 0; }
/* sequence of inner extents a side can take: returns the smallest value >= target that both given sides can take */
struct sq { int fixed, e1, e2, cur, tog, sum; };
static void sq_init(struct sq *q, const struct geo *g, int side) {
  int horiz = side == TOP || side == BOTTOM; q->fixed = q->e1 = q->e2 = 0; q->tog = 0; int ne = 0, any = 0;
  for (int i = 1; i < 4; i++) { int k = SIDE[side][i]; if (!g->h[k]) continue; any = 1; int x = horiz ? g->w[k] : g->h[k]; if (g->d->el & EL(k)) { if (ne++) q->e2 = x; else q->e1 = x; } else q->fixed += x; }
  if (!any) q->e1 = 1; q->cur = q->fixed + q->e1; q->sum = q->fixed + q->e1 + q->e2; }
static void sq_next(struct sq *q) { if (q->e2 && !q->tog) { q->cur += q->e2; q->tog = 1; } else { q->cur += q->e1; q->tog = 0; } }
static int fit(const struct geo *g, int a, int b, int target) { struct sq p, q; sq_init(&p, g, a); sq_init(&q, g, b); if (p.sum > target) target = p.sum; if (q.sum > target) target = q.sum; for (;;) { if (p.cur == q.cur && p.cur >= target) return p.cur; if (p.cur <= q.cur) sq_next(&p); else sq_next(&q); } }
static void emit_shape(struct buf *c, const char *s) { bput(c, '"'); for (; *s; s++) { { if (*s == '\\' || *s == '"') bput(c, '\\'); bput(c, (u8) *s); } } bput(c, '"'); }
static void emit_design(struct buf *c, const char *name, const struct dsn *d) {
  bstr(c, "BOX "); bstr(c, name); bstr(c, "\nsample\nx\nends\nshapes {"); 
  for (int k = 0; k < 16; k++) if (d->sh[k][0]) { bput(c, ' '); bstr(c, SHN[k]); bstr(c, " ("); for (int l = 0; l < 4 && d->sh[k][l]; l++) { if (l) bstr(c, ", "); emit_shape(c, d->sh[k][l]); } bput(c, ')'); }
  bstr(c, " }\nelastic ("); int f = 0; for (int k = 0; k < 16; k++) if (d->el & EL(k)) { if (f++) bput(c, ','); bstr(c, SHN[k]); } bstr(c, ")\n");
  static const char *const pn[4] = {"top", "right", "bottom", "left"}; int any = 0; for (int i = 0; i < 4; i++) any |= d->pad[i]; if (any) { bstr(c, "padding {"); for (int i = 0; i < 4; i++) if (d->pad[i]) { bput(c, ' '); bstr(c, pn[i]); bput(c, ' '); bput(c, '0' + d->pad[i]); } bstr(c, " }\n"); }
  if (d->indent) { bstr(c, "indent \""); bstr(c, d->indent == 't' ? "text" : d->indent == 'n' ? "none" : "box"); bstr(c, "\"\n"); }
  if (d->extra) { bstr(c, d->extra); bput(c, '\n'); } bstr(c, "END "); bstr(c, name); bput(c, '\n'); }
/* ---- input text ---- */
struct tl { int n, cap, *c; };
static struct buf txt; static struct tl *TLs[512]; static int nl, opened_;
static void t_open(void) { struct tl *t = malloc(sizeof *t); t->n = 0; t->cap = 64; t->c = malloc(64 * 4); TLs[nl++] = t; opened_ = 1; }
static void t_raw(int c) { if (!opened_) t_open(); struct tl *t = TLs[nl - 1]; if (t->n == t->cap) { t->cap *= 4; t->c = realloc(t->c, t->cap * 4); } t->c[t->n++] = c; }
static void t_ch(int c) { t_raw(c); u8put(&txt, c); }
static void t_sym(const char *name, const char *set, int n) { int c = sym_byte(name, set, n); t_raw(c); bput(&txt, c); }
#define TSYM(name, set, k) do { for (int i_ = 0; i_ < (k); i_++) t_sym(name, set, sizeof(set) - 1); } while (0)
static void t_str(const char *s) { const u8 *p = (const u8 *) s; while (*p) { t_ch(u8get(p)); p += u8len(*p); } }
static void t_rep(int c, int n) { while (n-- > 0) t_ch(c); }
static void t_eol(const char *e) { if (!opened_) t_open(); bstr(&txt, e); opened_ = 0; }
/* first bytes of a character whose last byte is symbolic: lo..hi, stands for first + (byte - lo) */
static void t_pre(const char *s) { bstr(&txt, s); }
static void t_b(const char *name, int lo, int hi, int first) { static u8 set[256]; int n = 0; for (int i = lo; i <= hi; i++) set[n++] = i; int c = sym_byte(name, set, n); bput(&txt, c); t_raw(first + (c - lo)); }
/* template: ordinary characters stand for themselves, and
 *   @ symbolic letter (a b c)      ~ symbolic letter or blank     % symbolic letter, blank or tab    \n line end
 *   ` symbolic letter, digit or border character */
static void t_tpl(const char *s) { const u8 *p = (const u8 *) s; while (*p) {
  if (*p == '@') t_sym("at", "abc", 3); else if (*p == '~') t_sym("ws", "a b", 3); else if (*p == '%') t_sym("tb", "a \t", 3); else if (*p == '`') t_sym("bd", "a1|-+*#", 7);
  else if (*p == '\n') t_eol("\n"); else { t_ch(u8get(p)); p += u8len(*p); continue; } p++; } }
/* expected lines: trailing blanks dropped, tabs expanded, escape sequences invisible */
struct xl { struct row r; int ind; };
static struct xl *XL[512]; static int common, Wt; /* common indentation; block width after the indentation mode was applied */
static int hasnl_;
static void t_expect(int tab, char mode) {
  common = 1 << 20; Wt = 0; int any = 0; int maxw = 0;
  for (int k = 0; k < nl; k++) {
    struct tl *t = TLs[k]; int n = t->n; struct xl *x = malloc(sizeof *x); rinit(&x->r); XL[k] = x;
    int vis = 0, st = 0; /* position after the last non-blank visible character */
    for (int i = 0; i < n; i++) { int c = t->c[i];
      if (st == 0 && c == 27) { st = 1; continue; } if (st == 1) { if (c == '[' || c == '(') { st = 2; continue; } st = 0; if (c >= 0x40 && c <= 0x5f) continue; if (c == 27) { st = 1; continue; } } else if (st == 2) { if (c >= 0x40 && c <= 0x7e) st = 0; continue; }
      if (!refspace(c)) vis = i + 1; }
    st = 0;
    for (int i = 0; i < vis; i++) { int c = t->c[i];
      if (st == 0 && c == 27) { st = 1; continue; } if (st == 1) { if (c == '[' || c == '(') { st = 2; continue; } st = 0; if (c >= 0x40 && c <= 0x5f) continue; if (c == 27) { st = 1; continue; } } else if (st == 2) { if (c >= 0x40 && c <= 0x7e) st = 0; continue; }
      if (c == 9) do radd(&x->r, ' '); while (x->r.n % tab); else rglyph(&x->r, c); }
    x->ind = 0; while (x->ind < x->r.n && x->r.c[x->ind] == ' ') x->ind++;
    if (x->r.n) { any = 1; if (x->ind < common) common = x->ind; if (x->r.n > maxw) maxw = x->r.n; } }
  if (!any) common = 0; Wt = mode == 't' ? maxw : maxw - common;
  if (mode != 't') for (int k = 0; k < nl; k++) if (XL[k]->r.n) { struct row *r = &XL[k]->r; r->c += common; r->z += common; r->n -= common; XL[k]->ind -= common; } }
/* ---- output ---- */
static struct row O[512]; static int no, out_final, out_badeol;
static void parse_buf(const u8 *p, int n, const char *eol) {
  int b = 0, el = strlen(eol); no = 0; out_final = 1; out_badeol = 0;
  for (int i = 0; i <= n; i++) {
    int e = i < n && p[i] == (u8) eol[0] && (el == 1 || (i + 1 < n && p[i + 1] == (u8) eol[1]));
    if (e) { rdecode(&O[no++], p + b, i - b); i += el - 1; b = i + 1; }
    else if (i == n) { if (b < n) { rdecode(&O[no++], p + b, n - b); out_final = 0; } }
    else if (p[i] == '\n' || p[i] == '\r') out_badeol = 1; } }
static void parse_out(const char *eol) { parse_buf(bx_out(), bx_outlen(), eol); }
#endif
