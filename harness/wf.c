/* B16: which designs are accepted. Shapes present, their sizes and the elastic set are chosen per path; the reference is the list of documented rules. */
#include "drawlib.h"
#include "checks.h"
static struct dsn d1; static int pw[16], ph[16], el, blankm, listed; 
static int corner(int k) { return k == NW || k == NE || k == SW || k == SE; }
static int present(int k) { return pw[k] > 0 && ph[k] > 0; }
static int ok_design(void) {
  int any = 0; for (int k = 0; k < 16; k++) if (present(k) && !(blankm >> k & 1)) any = 1; if (!any || !listed) return 0;
  for (int s = 0; s < 4; s++) { int v = 0; for (int i = 0; i < 5; i++) { int k = SIDE[s][i]; if (!present(k)) continue; int x = s == TOP || s == BOTTOM ? ph[k] : pw[k]; if (v && v != x) return 0; v = x; } }
  for (int s = 0; s < 4; s++) { int p = 0, e = 0, last = 0; for (int i = 1; i < 4; i++) p |= present(SIDE[s][i]); 
    for (int i = 0; i < 5; i++) { int k = SIDE[s][i]; if (!(el >> k & 1)) { if (present(k)) last = 0; continue; } if (corner(k)) return 0; if (!present(k) && !(!p && i == 2)) return 0; if (last) return 0; last = 1; e++; } /* a side without shapes gets an elastic blank one in the middle */
    if (p && e != 1 && e != 2) return 0; }
  return 1; }
static void build(void) {
  memset(&d1, 0, sizeof d1); d1.el = el; for (int k = 0; k < 16; k++) if (present(k)) for (int l = 0; l < ph[k]; l++) { char b[8]; for (int i = 0; i < pw[k]; i++) b[i] = blankm >> k & 1 ? ' ' : (l & 1 ? 'A' : 'a') + k; b[pw[k]] = 0; d1.sh[k][l] = sdup(b, pw[k]); }
  cfg.n = 0; emit_design(&cfg, "t", &d1); world_file("/c", cfg.b, cfg.n, W_FILE); }
/* can two opposite sides ever be of the same length */
static int meet(int a, int b) { struct sq p, q; sq_init(&p, &G, a); sq_init(&q, &G, b); for (int n = 0; n < 2000; n++) { if (p.cur == q.cur && p.cur >= p.sum && q.cur >= q.sum) return 1; if (p.cur <= q.cur) sq_next(&p); else sq_next(&q); } return 0; }
static void judge(void) {
  int ok = ok_design(); args0(); arg("-f"); arg("/c"); if (TIER && sym_choice("pick", 2)) { arg("-d"); arg("t"); } t_tpl("@b\n @\n"); stdin_buf(&txt); ha = 'l'; va = 't'; mode = 'b';
  geo_init(&G, &d1); int never = ok && !(meet(TOP, BOTTOM) && meet(LEFT, RIGHT)); if (never) sym_cover("never"); int rc = run(); if (!ok || never) { sym_assert(rc == 1, "a design that breaks a rule is rejected"); sym_assert(bx_errlen() > 0, "a message is given"); sym_assert(bx_outlen() == 0, "no box is drawn"); sym_cover("bad"); return; }
  sym_assert(rc == 0 && bx_errlen() == 0, "a design that keeps the rules is accepted"); if (rc) return; geo_init(&G, &d1); for (int k = 0; k < 16; k++) if (d1.el >> k & 1 && !present(k)) G.d = &d1; measure(); check01(); check02(); check03(); check29(); sym_cover("good"); }
static void elastics(void) {
  int s = sym_choice("side", 4), m = sym_choice("mids", 8), e = sym_choice("elastic", 8), o = sym_choice("others", 3), c = sym_choice("corners", 4), ce = sym_choice("cornel", 2); el = 0;
  for (int q = 0; q < 4; q++) for (int i = 1; i < 4; i++) { int k = SIDE[q][i]; if (q == s) { if (m >> (i - 1) & 1) pw[k] = ph[k] = 1; if (e >> (i - 1) & 1) el |= EL(k); } else if ((o == 1 && i == 2) || (o == 2 && i != 2)) { pw[k] = ph[k] = 1; el |= EL(k); } }
  for (int i = 0; i < 4; i++) { int k = (int[]){NW, NE, SE, SW}[i]; if (c == 0 || (c == 2 && i == s) || (c == 3 && i != s)) pw[k] = ph[k] = 1; } if (ce) el |= 1 << (int[]){NW, NE, SE, SW}[s]; listed = el != 0; build(); judge(); }
static const int BASE[] = {0xffff, EL(NW)|EL(N)|EL(NE)|EL(E)|EL(SE)|EL(S)|EL(SW)|EL(W), EL(NW)|EL(N)|EL(NE), EL(NW)|EL(W)|EL(SW), EL(NE)|EL(ENE)|EL(E)|EL(S)|EL(SSW), EL(N)|EL(S), EL(W)|EL(E), EL(SW)|EL(S), EL(NW)|EL(N), EL(W), EL(E)|EL(NE), EL(NNW)|EL(WSW)|EL(ESE)|EL(SSE)};
static const int TH[][4] = {{1,1,1,1}, {2,1,1,2}, {1,2,3,1}, {3,3,2,2}};
static void sizes(void) {
  int b = sym_choice("base", LEN(BASE)), t = sym_choice("thick", 4), v = sym_choice("victim", 16); if (!(BASE[b] >> v & 1)) sym_assume(0); int dw = sym_choice("dw", 3) - 1, dh = sym_choice("dh", 3) - 1; blankm = sym_choice("blank", 3); int all = BASE[b]; blankm = blankm == 1 ? all : blankm == 2 ? all & ~EL(v) : 0;
  for (int k = 0; k < 16; k++) if (all >> k & 1) { int top = k <= NE, right = k >= NE && k <= SE, bot = k >= SE && k <= SW, left = k >= SW || k == NW; ph[k] = top ? TH[t][0] : bot ? TH[t][2] : 1 + (k + b) % 2; pw[k] = right ? TH[t][1] : left ? TH[t][3] : 1 + (k + t) % 3; if (k == v) { pw[k] += dw; ph[k] += dh; if (ph[k] > 4) ph[k] = 4; } if (!corner(k)) { int side = -1, i = 0; for (int q = 0; q < 4; q++) for (int j = 1; j < 4; j++) if (SIDE[q][j] == k) { side = q; i = j; } int mid = all >> SIDE[side][2] & 1; if (i == 2 || (!mid && i == 1) || (!mid && i == 3 && !(all >> SIDE[side][1] & 1))) el |= EL(k); } }
  listed = el != 0; for (int k = 0; k < 16; k++) if (!present(k)) pw[k] = ph[k] = 0; build(); judge(); }
/* other rules: complete configurations of one design */
struct cf { const char *txt; int ok; };
#define SM "sample\nx\nends\n"
#define SH "shapes { w (\"#\") }\n"
static const struct cf CF[] = {
  {"BOX t\n" SM SH "elastic (w)\nEND t\n", 1}, {"BOX t\n" SM SH "elastic (w)\nEND u\n", 0}, {"BOX t\n" SH "elastic (w)\nEND t\n", 0}, {"BOX t\n" SM "elastic (w)\nEND t\n", 0}, {"BOX t\n" SM SH "END t\n", 0}, {"BOX t\n" SM SH "elastic (w)\nEND T\n", 1}, {"box T\n" SM "SHAPES { W (\"#\") }\nELASTIC (W)\nend t\n", 1},
  {"BOX t\n" SM SM SH "elastic (w)\nEND t\n", 0}, {"BOX t\nsample\n\nends\n" SH "elastic (w)\nEND t\n", 0}, {"BOX t\n" SM "shapes { w (\"#\") w (\"#\") }\nelastic (w)\nEND t\n", 0}, {"BOX t\n" SM "shapes { w (\"#\", \"##\") }\nelastic (w)\nEND t\n", 0}, {"BOX t\n" SM "shapes { w (\"#\", \"\") }\nelastic (w)\nEND t\n", 0}, {"BOX t\n" SM "shapes { w (\"\") }\nelastic (w)\nEND t\n", 0}, {"BOX t\n" SM "shapes { w () }\nelastic (w)\nEND t\n", 0}, {"BOX t\n" SM "shapes { w (\"  \") }\nelastic (w)\nEND t\n", 0}, {"BOX t\n" SM "shapes { }\nelastic (w)\nEND t\n", 0}, {"BOX t\n" SM SH "elastic ()\nEND t\n", 0}, {"BOX t\n" SM "shapes { w (\"#\") xx (\"a\") }\nelastic (w)\nEND t\n", 0},
  {"BOX t\n" SM SH "elastic (w)\nindent \"sideways\"\nEND t\n", 0}, {"BOX t\n" SM SH "elastic (w)\nindent \"Text\"\nEND t\n", 1}, {"BOX t\nauthor \"me\"\ndesigner \"you\"\nwhatever \"x\"\n" SM SH "elastic (w)\nEND t\n", 1}, {"BOX t\n" SM SH "elastic (w)\npadding { left 0 }\nEND t\n", 1}, {"BOX t\n" SM "shapes { w (\"#\"); }\nelastic (w)\nEND t\n", 0}, {"BOX t\n" SM SH "elastic w\nEND t\n", 0}, {"BOX t\n" SM "shapes { w (\"#\", ) }\nelastic (w)\nEND t\n", 0}, {"BOX t\n" SM SH "elastic (w)\n", 0}, {"# comment\nBOX t # it\n" SM SH "# more\nelastic (w)\nEND t\n", 1}, {"", 0}, {"nonsense\n", 0}, {"END t\n", 0}, {"BOX t\n" SM SH "elastic (w,w)\nEND t\n", 1}, {"BOX t\n" SM "shapes { w (\"#\") e (\"\") }\nelastic (w)\nEND t\n", 0}, {"BOX t\n" SM SH "elastic (w)\nreplace \"a\" \"b\"\nEND t\n", 0}, {"BOX t\nsample\n\001\nends\n" SH "elastic (w)\nEND t\n", 0}, {"BOX t\n" SM "shapes { w (\"#\t\") }\nelastic (w)\nEND t\n", 1 | 4 | 8}, {"BOX t\n" SM "shapes { w (\"\xcc\x81\") }\nelastic (w)\nEND t\n", 0} };
static void others(void) {
  int k = sym_choice("conf", LEN(CF)), with = sym_choice("with", 4); static struct buf c; const char *g = "BOX good\n" SM "shapes { w (\"!\") }\nelastic (w)\nEND good\n";
  if (CF[k].ok & 8) return; if (with == 1 || with == 3) bstr(&c, g); bstr(&c, CF[k].txt); if (with == 2) bstr(&c, g); world_file("/c", c.b, c.n, W_FILE); args0(); arg("-f"); arg("/c"); int pick = sym_choice("pick", 3); if (pick) { arg("-d"); arg(pick == 1 ? "t" : "good"); } world_stdin("hi\n", 3, 0); int rc = run(); int ok = CF[k].ok & 1, msg = CF[k].ok & 4;
  const char *want = pick == 1 ? (ok ? "#hi\n" : 0) : pick == 2 ? (with ? "!hi\n" : 0) : with == 1 || with == 3 ? "!hi\n" : ok ? "#hi\n" : with ? "!hi\n" : 0;
  if ((k == 25 || k == 23) && with == 2 && pick != 1) return; /* an unfinished design, or a list without parentheses, swallows what follows */
  if (!want) { sym_assert(rc == 1, "a design that breaks a rule is not offered"); sym_assert(bx_errlen() > 0, "a message is given"); sym_assert(bx_outlen() == 0, "no box is drawn"); sym_cover("bad2"); return; }
  int m = strlen(want); sym_assert(rc == 0, "the well-formed design is usable"); sym_assert((int) bx_outlen() == m && !memcmp(bx_out(), want, m), "its box is drawn"); if (ok && !msg) sym_assert(bx_errlen() == 0, "no message for well-formed designs"); sym_cover("good2"); }
void harness_main(void) { world_reset(); switch (sym_choice("what", 3)) { case 0: elastics(); break; case 1: sizes(); break; case 2: others(); break; } }
