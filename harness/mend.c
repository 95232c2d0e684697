/* B08, damaged boxes: the text of one or two rows of a drawn box is edited as in an editor that inserts, so that the right border of these rows
 * is out of line; mending must give the box that is drawn around the edited text, and mending again must change nothing. */
#include "rtlib.h"
static struct buf box1, dam, want;
static const char *const MT[] = { "ab@\n@ d\nef\n", "  x@\n a@c\n\n   w@\n", "@b@ d\n", "a@\n\n@\nlonger l@ne here\n\tz@\n", "\xe5\xae\xbd@\n@x\n" };
static int ed[2], kind[2], where[2], nedit;
static int at_byte(const u8 *p, int n, int col) { int i = 0, c = 0; while (i < n && c < col) { if (p[i] == 27) { i += esclen(p + i, n - i); continue; } int k = u8len(p[i]); c += refw(u8get(p + i)); i += k; } return i; }
static void put_line(struct buf *b, struct tl *t, int from) { for (int i = from; i < t->n; i++) { int c = t->c[i]; if (c < 0x80) bput(b, c); else u8put(b, c); } }
/* the edit of a line: returns 0 if it does not apply */
static int edit(struct tl *t, int kd, int wh) {
  int f = 0; while (f < t->n && (t->c[f] == ' ' || t->c[f] == 9)) f++; int n = t->n; if (n - f < 2 && kd >= 3) return 0; int p = wh == 0 ? f : wh == 1 ? f + (n - f) / 2 : n; if (n == f) p = n;
  static int nw[80]; int m = 0; for (int i = 0; i < p; i++) nw[m++] = t->c[i]; int skip = 0;
  switch (kd) { case 0: nw[m++] = sym_byte("ins", "pq", 2); break; case 1: nw[m++] = 'm'; nw[m++] = ' '; nw[m++] = sym_byte("ins", "pq", 2); nw[m++] = 'o'; break; case 2: nw[m++] = 0x5bbd; break; case 3: skip = 1; if (p == n) { m--; skip = 0; } break; case 4: if (n - f < 4) return 0; if (wh == 2) { m -= 2; } else skip = 2; break; case 5: if (p == n) return 0; nw[m++] = 'Q'; skip = 1; break; }
  for (int i = p + skip; i < n; i++) nw[m++] = t->c[i];
  t->n = m; if (m > t->cap) { t->c = realloc(t->c, 4 * m); t->cap = m; } for (int i = 0; i < m; i++) t->c[i] = nw[i];
  int g = 0; while (g < m && (nw[g] == ' ' || nw[g] == 9)) g++; return g == f; }
static void opts_(int o) { switch (o) { case 1: arg("-p"); arg("h1v1"); pl = pr = pt = pb = 1; break; case 2: arg("-s"); arg("31x12"); reqw = 31; reqh = 12; break; case 3: arg("-i"); arg("text"); mode = 't'; break; case 4: arg("-i"); arg("none"); mode = 'n'; break; case 5: arg("-p"); arg("l3t1"); pl = 3; pt = 1; break; } }
void harness_main(void) {
  world_reset(); ha = 'l'; va = 't'; int dk = sym_choice("design", ND); geo_init(&G, &D[dk]); emit_design(&cfg, "t", &D[dk]); world_file("/c", cfg.b, cfg.n, W_FILE); args0(); arg("-f"); arg("/c"); arg("-d"); arg("t"); pads(); mode = G.indent;
  int tk = sym_choice("text", LEN(MT)), o = TIER ? sym_choice("opt", 6) : (sym_choice("opt", 2) * 3 + dk + tk) % 6; opts_(o); t_tpl(MT[tk]); stdin_buf(&txt);
  int rc = run(); sym_assert(rc == 0, "drawing succeeds"); if (rc) return; measure(); keep(&box1);
  /* what to edit */
  static int dirty[8], st[8], len[8]; for (int k = 0; k < nl; k++) { st[k] = mode == 't' ? 0 : common; len[k] = XL[k]->r.n; }
  nedit = 1 + sym_choice("edits", 2); ed[0] = sym_choice("line", nl); kind[0] = sym_choice("kind", 6); where[0] = sym_choice("where", 3); if (nedit == 2) { ed[1] = (ed[0] + 1 + sym_choice("line2", TIER ? 2 : 1)) % nl; if (ed[1] == ed[0]) return; kind[1] = TIER ? sym_choice("kind2", 6) : (kind[0] + 1 + 2 * sym_choice("kind2", 2)) % 6; where[1] = (where[0] + dk) % 3; }
  for (int i = 0; i < nedit; i++) { if (len[ed[i]] == 0) return; dirty[ed[i]] = 1; if (!edit(TLs[ed[i]], kind[i], where[i])) return; }
  dam.n = 0; int row = 0, ls = 0; for (int i = 0; i <= box1.n; i++) if (i == box1.n || box1.b[i] == '\n') { if (i == box1.n && ls == i) break; int k = row - G.th - (reqh ? G.pad[TOP] : pt); const u8 *p = box1.b + ls; int n = i - ls;
      if (reqh) k = row - G.th - pt; if (k >= 0 && k < nl && dirty[k]) { int a = at_byte(p, n, prefix + G.lw + pl), b = at_byte(p, n, prefix + G.lw + pl + len[k]); bmem(&dam, p, a); static struct buf q; q.n = 0; { /* leading tabs are blanks in the box */ int col = 0, u = 0; while (u < TLs[k]->n && (TLs[k]->c[u] == ' ' || TLs[k]->c[u] == 9)) { if (TLs[k]->c[u] == 9) do col++; while (col % 8); else col++; u++; } brep(&q, ' ', mode == 't' ? col : col - common); put_line(&q, TLs[k], u); } bmem(&dam, q.b, q.n); bmem(&dam, p + b, n - b); } else bmem(&dam, p, n); bput(&dam, '\n'); row++; ls = i + 1; }
  /* the box around the edited text */
  txt.n = 0; for (int k = 0; k < nl; k++) { put_line(&txt, TLs[k], 0); bput(&txt, '\n'); } stdin_buf(&txt); rc = run(); sym_assert(rc == 0, "drawing succeeds"); if (rc) return; keep(&want);
  t_expect(8, mode); if (reqw && reqw - G.lw - G.rw < Wt + pl + pr) return; /* the padding would be shrunk */
  stdin_buf(&dam); arg("-m"); rc = run(); sym_assert(rc == 0, "mending succeeds"); if (rc) return; sym_assert(same_as(&want), "mending a box with edited text gives the box around the edited text"); keep(&box1);
  stdin_buf(&box1); rc = run(); sym_assert(rc == 0 && same_as(&box1), "mending again changes nothing"); sym_cover("mended"); }
