/* comparing removed text with the original */
#ifndef RTLIB_H
#define RTLIB_H
#include "drawlib.h"
static int trimlen(struct row *r) { int n = r->n; while (n > 0 && r->c[n - 1] == ' ' && !r->z[n - 1]) n--; return n; }
static int kill_default(void) { return G.have[TOP] || G.have[BOTTOM]; }
/* compares the rows O[0..no) with the expected lines, leading and trailing blank lines ignored if kill */
static int same_text(int kill, int shift) {
  int a = 0, b = no, c = 0, d = nl; 
  if (kill) { while (a < b && trimlen(&O[a]) == 0) a++; while (b > a && trimlen(&O[b - 1]) == 0) b--; while (c < d && XL[c]->r.n == 0) c++; while (d > c && XL[d - 1]->r.n == 0) d--; }
  if (b - a != d - c) return 0; int ok = 1;
  for (int i = 0; i < b - a; i++) { struct row *o = &O[a + i], *x = &XL[c + i]->r; int pre = x->n ? shift : 0; int n = trimlen(o); if (n != pre + x->n) { ok = 0; continue; } for (int u = 0; u < pre; u++) ok &= o->c[u] == ' '; for (int u = 0; u < x->n; u++) { ok &= o->c[pre + u] == x->c[u]; ok &= o->z[pre + u] == x->z[u]; } }
  return ok; }
static int same_as(const struct buf *b) { int ok = (int) bx_outlen() == b->n; if (ok) for (int i = 0; i < b->n; i++) ok &= bx_out()[i] == b->b[i]; return ok; }
static void keep(struct buf *b) { b->n = 0; bmem(b, bx_out(), bx_outlen()); }
static int has_ch(int c) { int n = 0; for (int i = 0; i < (int) bx_outlen(); i++) n += bx_out()[i] == c; return n; }
#endif
