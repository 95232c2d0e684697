/* B25: which blank lines removal drops. Every line of the text is a letter of its own or blank, by solver. */
#include "rtlib.h"
static struct buf box1, box2;
static int letter(struct row *r) { for (int i = 0; i < r->n; i++) if (r->c[i] != ' ') return r->c[i]; return 0; }
void harness_main(void) {
  world_reset(); ha = 'l'; va = 't'; int dk = sym_choice("design", ND); geo_init(&G, &D[dk]); emit_design(&cfg, "t", &D[dk]); world_file("/c", cfg.b, cfg.n, W_FILE); args0(); arg("-f"); arg("/c"); pads(); mode = G.indent;
  int n = 3 + sym_choice("n", TIER ? 4 : 3); for (int i = 0; i < n; i++) { u8 set[2] = {'a' + i, ' '}; if (i == 2) { t_str("zz "); } else t_sym("l", (char *) set, 2); t_eol("\n"); } stdin_buf(&txt);
  int a0 = An_; switch (sym_choice("geom", 4)) { case 1: arg("-p"); arg("t2b1"); pt = 2; pb = 1; break; case 2: arg("-s"); arg("x14"); reqh = 14; break; case 3: arg("-s"); arg("20x15"); arg("-a"); arg("hcvc"); reqw = 20; reqh = 15; va = ha = 'c'; break; }
  (void) a0; int rc = run(); sym_assert(rc == 0, "drawing succeeds"); if (rc) return; measure(); locate(); keep(&box1);
  int b1 = sym_choice("before", 3), b2 = TIER ? sym_choice("after", 3) : (2 * b1 + dk + n) % 3; box2.n = 0; for (int i = 0; i < b1; i++) bstr(&box2, i ? "  \n" : "\n"); bmem(&box2, box1.b, box1.n); for (int i = 0; i < b2; i++) bstr(&box2, i ? "\n" : " \n"); stdin_buf(&box2);
  int op = sym_choice("op", 9), kill = kill_default(), first = TIER ? sym_choice("first", 2) : op < 6 && (op + dk) % 2; arg("-d"); arg("t"); if (first) arg("-r");
  switch (op) { case 0: break; case 1: arg("-k"); arg("true"); kill = 1; break; case 2: arg("-k"); arg("false"); kill = 0; break; case 3: arg("--kill-blank"); kill = 1; break; case 4: arg("--no-kill-blank"); kill = 0; break; case 5: arg("-kT"); kill = 1; break; case 6: arg("-m"); break; case 7: arg("-m"); arg("-k"); arg("true"); break; case 8: arg("-k"); arg("true"); arg("-m"); break; }
  if (!first && op < 6) arg("-r"); sym_assume(op < 6 || (!first && !b1)); if (op >= 6) { stdin_buf(&box1); }
  if (op >= 6 && reqw && reqw - G.lw - G.rw < Wt + pl + pr) return; if (op >= 6 && reqh && (va == 'c' || reqh - G.th - G.bh < nl + pt + pb)) return;
  rc = run(); sym_assert(rc == 0, "removing succeeds"); if (rc) return;
  if (op >= 6) { sym_cover("mend"); if (!reqh && !reqw) sym_assert(same_as(&box1), "mending drops no blank line"); return; }
  /* blank lines before and after the box are kept; those inside are dropped when killing */
  int a = 0, b = ih; int row[64]; for (int j = 0; j < ih; j++) row[j] = j - T >= 0 && j - T < nl ? letter(&XL[j - T]->r) : 0;
  int open = 1; for (int i = 1; i < 4; i++) open &= !G.h[SIDE[LEFT][i]] && !G.h[SIDE[RIGHT][i]]; /* rows without any border: where top or bottom is missing too, blank rows belong to the box or to its surroundings */
  int oT = open && !G.have[TOP], oB = open && !G.have[BOTTOM];
  int la = 0, lb = 0; while (la < ih && !row[la]) la++; if (la < ih) while (!row[ih - 1 - lb]) lb++; else lb = 0;
  if (kill) { a = la; b = ih - lb; }
  parse_out("\n"); int x = 0, y = no; while (x < no && !letter(&O[x])) x++; while (y > x && !letter(&O[y - 1])) y--;
  int bodyn = ih - la - lb; int ok = y - x == bodyn; sym_assert(ok, "blank lines between text lines are kept"); if (!ok) return;
  for (int i = 0; i < bodyn; i++) ok &= letter(&O[x + i]) == row[la + i]; sym_assert(ok, "the lines are kept in order");
  if (!bodyn) { return; }
  int kl = la - (la < pt ? la : pt), kb = lb - (lb < pb ? lb : pb), wl = b1 + (kill ? 0 : kl), wt = b2 + (kill ? 0 : kb); /* padding rows are not content */
  sym_assert(oT ? x >= (kill ? 0 : wl) && x <= b1 + la : x == wl, kill ? "leading blank lines of the box are dropped, others kept" : "leading blank lines are kept");
  sym_assert(oB ? no - y >= (kill ? 0 : wt) && no - y <= b2 + lb : no - y == wt, kill ? "trailing blank lines of the box are dropped, others kept" : "trailing blank lines are kept"); (void) a; (void) b;
  sym_cover(kill ? "kill" : "keep"); }
