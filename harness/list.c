/* B21: listings of all designs, and the details of one. */
#include "drawlib.h"
static int lc_(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int cmp_(const char *a, const char *b) { for (;; a++, b++) { int x = lc_(*a), y = lc_(*b); if (x != y) return x - y; if (!x) return 0; } }
static struct buf want, par; static const char *eolv = "\n";
static int out_is(const struct buf *e) { int ok = (int) bx_outlen() == e->n; if (ok) for (int i = 0; i < e->n; i++) ok &= bx_out()[i] == e->b[i]; return ok; }
static void nl_(void) { bstr(&want, eolv); }
static int eol_opt(void) { if (sym_choice("eol", 3)) { int k = sym_choice("eolk", 2); arg("-e"); arg(k ? "CRLF" : "CR"); eolv = k ? "\r\n" : "\r"; return 1; } return 0; }
struct en { char name[8]; const char *al[3]; char *author, *designer; const char *sample; const char *tags[3]; int child; };
static struct en E_[8]; static int ne;
static void conf_en(struct buf *c, struct en *e) {
  bstr(c, "BOX "); bstr(c, e->name); for (int i = 0; i < 3 && e->al[i]; i++) { bstr(c, i & 1 ? " , " : ", "); bstr(c, e->al[i]); } bstr(c, "\n");
  if (e->author) { bstr(c, "author \""); bstr(c, e->author); bstr(c, "\"\n"); } if (e->designer) { bstr(c, "designer \""); bstr(c, e->designer); bstr(c, "\"\n"); }
  if (e->tags[0]) { bstr(c, "tags ("); for (int i = 0; i < 3 && e->tags[i]; i++) { if (i) bstr(c, ", "); bput(c, '"'); bstr(c, e->tags[i]); bput(c, '"'); } bstr(c, ")\n"); }
  bstr(c, "sample\n\n"); bstr(c, e->sample); bstr(c, "\n \nends\nshapes { w (\"x\") }\nelastic (w)\nEND "); bstr(c, e->name); bput(c, '\n'); }
static void lines(const char *s) { for (; *s; s++) if (*s == '\n') nl_(); else bput(&want, *s); }
/* names, authors, samples and tags of designs in one file or in a file and its parent */
static void s_list(void) {
  static const char *const SA[] = {"  +--+\n  |  |\n  +--+", "one", "\\_\"/\n\n ~~~   \n   x", "\xe5\xae\xbd+\xe2\x95\x90", "END x\n# no comment"}; static const char *const TG[][3] = {{0}, {"aa"}, {"bb", "aa"}, {"cc", "aaa", "a1"}, {"aa-b", "a1c", "c"}, {"aaaa", "a1", "aaa"}}; static const char *const AL[][3] = {{0}, {"al"}, {"zz", "AB"}, {"q-1", "m2", "B9"}};
  int two = sym_choice("files", 2); ne = 1 + sym_choice("n", TIER ? 4 : 3); int rot = sym_choice("rot", 3);
  for (int i = 0; i < ne; i++) { struct en *e = &E_[i]; memset(e, 0, sizeof *e); e->name[0] = sym_concretize(sym_byte("nm", "aBbA", 4)); e->name[1] = "xYz0"[(i * 2 + rot) % 4]; e->name[2] = "m-k"[i % 3]; e->name[3] = i == 1 ? 0 : 'e'; e->name[4] = 0; for (int k = 0; k < i; k++) if (!cmp_(E_[k].name, e->name)) sym_assume(0);
    static const char *const NA[3] = {"k", "l", "m"}; (void) NA; if (i < 2 ? (rot + i) % 3 == 0 || i : 0) for (int k = 0; k < 3; k++) e->al[k] = AL[1 + (i + rot) % 3][k]; if (i && e->al[0]) for (int k = 0; k < i; k++) if (E_[k].al[0]) { for (int j = 0; j < 3; j++) e->al[j] = 0; break; }
    int au = i == ne - 1 ? sym_choice("credit", 4) : (i + rot) % 4; char *who = sdup("A. Name", 7), *art = sdup("A. Name", 7); if (i == 0) { who[0] = sym_byte("au", "AB", 2); art[0] = sym_byte("de", "AB", 2); art[3] = sym_byte("de2", "Nn", 2); } else if (i == 1) art[3] = 'X'; if (au & 1) e->author = who; if (au & 2) e->designer = art;
    e->sample = SA[(i + rot) % LEN(SA)]; if (i == 0) { char *s = sdup(e->sample, strlen(e->sample)); s[strlen(s) - 1] = sym_byte("sa", "x#\"\\", 4); e->sample = s; } for (int k = 0; k < 3; k++) e->tags[k] = TG[(i * 3 + rot * 2) % 6][k]; e->child = !two || i % 2 == 0; }
  cfg.n = 0; par.n = 0; if (two) bstr(&cfg, "parent /p\n"); for (int i = 0; i < ne; i++) conf_en(E_[i].child ? &cfg : &par, &E_[i]); world_file("/c", cfg.b, cfg.n, W_FILE); int pn = 0; for (int i = 0; i < ne; i++) pn += !E_[i].child; if (two && !pn) { /* a parent with nothing in it */ sym_assume(0); } if (two) world_file("/p", par.b, par.n, W_FILE);
  args0(); arg("-f"); arg("/c"); if (rot == 2) arg("--list"); else arg("-l"); if (rot == 1) eol_opt(); stdin_buf(&par); int rc = run(); sym_assert(rc == 0, "listing succeeds"); if (rc) return;
  want.n = 0; bstr(&want, num(ne)); bstr(&want, " Available Style"); if (ne > 1) bput(&want, 's'); if (!two) bstr(&want, " in \"/c\""); bput(&want, ':'); nl_(); brep(&want, '-', (two ? 17 : 23 + 2) + (ne > 1) + 1); nl_(); nl_(); if (two) { bstr(&want, "Configuration Files:"); nl_(); bstr(&want, "    - /c"); nl_(); bstr(&want, "    - /p (parent)"); nl_(); nl_(); nl_(); }
  int o[8]; for (int i = 0; i < ne; i++) o[i] = i; for (int i = 1; i < ne; i++) for (int k = i; k > 0 && cmp_(E_[o[k]].name, E_[o[k - 1]].name) < 0; k--) { int t = o[k]; o[k] = o[k - 1]; o[k - 1] = t; }
  for (int i = 0; i < ne; i++) { struct en *e = &E_[o[i]]; bstr(&want, e->name); for (int k = 0; k < 3 && e->al[k]; k++) { bstr(&want, k ? ", " : " alias "); bstr(&want, e->al[k]); } int same = e->author && e->designer && !strcmp(e->author, e->designer);
    if (e->author && e->designer && !same) { nl_(); bstr(&want, e->designer); bstr(&want, ", coded by "); bstr(&want, e->author); } else if (e->designer) { nl_(); bstr(&want, e->designer); } else if (e->author) { nl_(); bstr(&want, "unknown artist, coded by "); bstr(&want, e->author); } bput(&want, ':'); nl_(); nl_(); lines(e->sample); nl_(); nl_(); nl_(); }
  const char *t[12]; int nt = 0, cn[12]; for (int i = 0; i < ne; i++) for (int k = 0; k < 3 && E_[i].tags[k]; k++) { int f = 0; for (int j = 0; j < nt; j++) if (!strcmp(t[j], E_[i].tags[k])) { cn[j]++; f = 1; } if (!f) { t[nt] = E_[i].tags[k]; cn[nt++] = 1; } }
  for (int i = 1; i < nt; i++) for (int k = i; k > 0 && strcmp(t[k], t[k - 1]) < 0; k--) { const char *x = t[k]; t[k] = t[k - 1]; t[k - 1] = x; int y = cn[k]; cn[k] = cn[k - 1]; cn[k - 1] = y; }
  for (int i = 0; i < nt; i++) { if (i) bstr(&want, " | "); bstr(&want, t[i]); bstr(&want, " ("); bstr(&want, num(cn[i])); bput(&want, ')'); } if (nt) nl_();
  sym_assert(out_is(&want), "the listing names every design once, in order, with its details"); sym_cover("list"); }
static void rules(struct buf *x, const char *kw, const char *to, int n, int m) { static const char *const S[] = {"a+", "(x)y", "\\\\*"}, *const R[] = {"b", "$1", ""}; static const char *const RE[] = {"a+", "(x)y", "\\*"}; struct buf *b = &want; (void) x; if (!n) { bstr(b, "none"); nl_(); } for (int i = 0; i < n; i++) { if (i) brep(b, ' ', 24); bstr(b, num(i + 1)); bstr(b, (m >> i) & 1 ? ". (once) \"" : ". (glob) \""); bstr(b, RE[i]); bstr(b, "\" "); bstr(b, to); bstr(b, " \""); bstr(b, R[i]); bstr(b, "\""); nl_(); } (void) kw; (void) S; }
static void rules_conf(struct buf *c, const char *kw, const char *to, int n, int m) { static const char *const S[] = {"a+", "(x)y", "\\\\*"}, *const R[] = {"b", "$1", ""}; for (int i = 0; i < n; i++) { bstr(c, kw); bstr(c, (m >> i) & 1 ? " once \"" : i ? " global \"" : " \""); bstr(c, S[i]); bstr(c, "\" "); bstr(c, to); bstr(c, " \""); bstr(c, R[i]); bstr(c, "\"\n"); } }
static void label(const char *l) { bstr(&want, l); brep(&want, ' ', 24 - strlen(l)); }
static void upper(const char *s) { for (; *s; s++) bput(&want, *s - 32); }
/* everything that is known about one design */
static void s_detail(void) {
  int k = sym_choice("design", ND); static struct dsn d; static struct geo g; d = D[k]; geo_init(&g, &d); static u8 sx[8]; int nt = sym_choice("tags", 3), nr = 0, rm = 0, nv = 0, vm = 0, pf = 0, au = 0; char who[8] = "Someone", art[8] = "An xrt"; int var = sym_choice("var", 4), quiet = 0, sym = 0;
  if (var == 1) { nr = sym_choice("rep", 4); rm = sym_choice("once", 8); sym_assume(rm < (1 << nr)); nv = (nr + k) % 4; vm = rm ^ ((1 << nv) - 1); vm &= (1 << nv) - 1; }
  if (var == 2) { for (int i = 0; i < 4; i++) d.pad[i] = sym_concretize(sym_byte("pad", "017", 3)) - '0'; }
  if (var == 3) { au = 1 + sym_choice("credit", 3); who[0] = sym_byte("who", "STU", 3); art[3] = sym_byte("art", "aex", 3); }
  if (var == 0 && k == 12) { sym = 1; sx[0] = sym_byte("shape", "abc+\"\\", 6); sx[1] = sym_byte("shape", "x\"\\", 3); sx[2] = 'c'; sx[3] = 0; sym_concretize(sx[0]); sym_concretize(sx[1]); d.sh[S][0] = (const char *) sx; }
  if (var == 3 && au == 2 && k % 2) { quiet = 1; } static const char *const IM[] = {"box", "text", "none"}; int im = var == 2 ? sym_choice("indent", 4) : 0; if (im) d.indent = "btn"[im - 1];
  static struct buf ex; ex.n = 0; if (au & 1) { bstr(&ex, "author \""); bstr(&ex, who); bstr(&ex, "\"\n"); } if (au & 2) { bstr(&ex, "designer \""); bstr(&ex, art); bstr(&ex, "\"\n"); } if (nt) bstr(&ex, nt == 1 ? "tags (\"t1\")\n" : "tags (\"zz\", \"aa\")\n"); rules_conf(&ex, "replace", "with", nr, rm); rules_conf(&ex, "reverse", "to", nv, vm); d.extra = sdup((char *) ex.b, ex.n); if (!ex.n) d.extra = 0;
  cfg.n = 0; int alias = sym_choice("alias", 2); if (alias) { static struct buf t; t.n = 0; emit_design(&t, "the-name", &d); /* put the aliases into the header */ bstr(&cfg, "BOX the-name, two , X3"); bmem(&cfg, t.b + 12, t.n - 12); } else emit_design(&cfg, "the-name", &d); { static struct dsn o = {{[W]={"o"}}, EL(W)}; emit_design(&cfg, "other", &o); } world_file("/c", cfg.b, cfg.n, W_FILE); (void) pf;
  args0(); arg("-f"); arg("/c"); arg("-d"); arg(alias && k % 2 ? "x3" : "the-name"); arg("-l"); if (quiet) { arg("-x"); arg("(undoc)"); } if (var == 1 && nr < 2) eol_opt(); stdin_buf(&par); int rc = run(); sym_assert(rc == 0, "listing succeeds"); if (rc) return;
  geo_init(&g, &d); want.n = 0; bstr(&want, "Complete Design Information for \"the-name\":"); nl_(); brep(&want, '-', 35 + 8); nl_();
  label("Alias Names:"); bstr(&want, alias ? "two, X3" : "none"); nl_(); label("Author:"); bstr(&want, au & 1 ? who : "(unknown author)"); nl_(); label("Original Designer:"); bstr(&want, au & 2 ? art : "(unknown artist)"); nl_(); label("Configuration File:"); bstr(&want, "/c"); nl_();
  label("Indentation Mode:"); bstr(&want, d.indent == 't' ? "text (retain indentation inside of box)" : d.indent == 'n' ? "none (discard indentation)" : "box (indent box)"); nl_(); (void) IM;
  label("Replacement Rules:"); rules(0, 0, "WITH", nr, rm); label("Reversion Rules:"); rules(0, 0, "TO", nv, vm);
  /* the smallest box: every side needs room for all its shapes, a shape that was left out takes the size its neighbours dictate */
  int mw = 0, mh = 0; int cw[4], ch[4]; (void) cw; (void) ch; for (int s = 0; s < 4; s++) { int horiz = s == TOP || s == BOTTOM, sum = 0, mid = 0; for (int i = 0; i < 5; i++) { int q = SIDE[s][i], x = horiz ? g.w[q] : g.h[q]; if (!g.h[q] && (i == 0 || i == 4)) { x = 1; int os = horiz ? (i == 0 ? LEFT : RIGHT) : (i == 0 ? TOP : BOTTOM); for (int u = 0; u < 5; u++) { int r = SIDE[os][u]; if (g.h[r]) x = horiz ? g.w[r] : g.h[r]; } } if (i && i < 4 && g.h[q]) mid = 1; sum += x; } if (!mid) sum++; if (horiz) { if (sum > mw) mw = sum; } else if (sum > mh) mh = sum; }
  label("Minimum Box Dimensions:"); bstr(&want, num(mw)); bstr(&want, " x "); bstr(&want, num(mh)); bstr(&want, "  (width x height)"); nl_();
  label("Default Padding:"); { static const int PO[] = {LEFT, TOP, RIGHT, BOTTOM}; static const char *const PN[] = {"top ", "right ", "bottom ", "left "}; int f = 0; for (int i = 0; i < 4; i++) if (d.pad[PO[i]]) { if (f++) bstr(&want, ", "); bstr(&want, PN[PO[i]]); bstr(&want, num(d.pad[PO[i]])); } if (!f) bstr(&want, "none"); nl_(); }
  label("Default Killblank:"); bstr(&want, g.have[TOP] || g.have[BOTTOM] ? "yes" : "no"); nl_(); label("Tags:"); bstr(&want, nt == 0 ? "none" : nt == 1 ? "t1" : "zz, aa"); nl_();
  label("Elastic Shapes:"); { int f = 0; for (int i = 0; i < 16; i++) { int el = (d.el >> i) & 1; if (i == N || i == E || i == S || i == W) { int s = i == N ? TOP : i == E ? RIGHT : i == S ? BOTTOM : LEFT, mid = 0; for (int u = 1; u < 4; u++) mid |= g.h[SIDE[s][u]]; if (!mid) el = 1; } if (el) { if (f++) bstr(&want, ", "); upper(SHN[i]); } } nl_(); }
  if (quiet) { bstr(&want, "Sample:"); nl_(); bstr(&want, "x"); nl_(); nl_(); }
  else { int f = 0; for (int i = 0; i < 16; i++) { int vis = 0; for (int l = 0; l < g.h[i]; l++) if (!blankrow(&g.r[i][l])) vis = 1; if (!vis) continue; for (int l = 0; l < g.h[i]; l++) { label(f ? "" : "Defined Shapes:"); f = 1; if (l) bstr(&want, "   "); else { brep(&want, ' ', 3 - strlen(SHN[i])); upper(SHN[i]); } bput(&want, l ? ' ' : ':'); bstr(&want, " \""); for (const char *p = d.sh[i][l]; *p; p++) { if (*p == '"' || *p == '\\') bput(&want, '\\'); bput(&want, *p); } bput(&want, '"'); bput(&want, l < g.h[i] - 1 ? ',' : ' '); nl_(); } } }
  (void) sym; sym_assert(out_is(&want), "the details of the design are the configured ones"); sym_cover("detail"); }
void harness_main(void) { world_reset(); if (sym_choice("what", 2)) s_detail(); else s_list(); }
