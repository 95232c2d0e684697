/* Command line options: values are symbolic strings, judged by a parser written from the manual. */
#include "drawlib.h"
#include "checks.h"
static int bad;
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int isd(int c) { return c >= '0' && c <= '9'; }
static char *symstr(const char *set, int n, int len) { char b[16]; for (int i = 0; i < len; i++) b[i] = sym_byte("v", set, n); b[len] = 0; return sdup(b, len); }
static char *digits(char *v) { for (char *p = v; *p; p++) if (isd(*p)) *p = sym_concretize(*p); return v; }
#define SS(set, len) symstr(set, sizeof(set) - 1, len)
/* gives the value to an option in one of its four spellings */
static void give(char sh, const char *lg, const char *val) {
  char o[3] = {'-', sh, 0}; switch (lg ? sym_choice("spelling", 4) : sym_choice("spelling", 2)) { case 0: arg(sdup(o, 2)); arg(sdup(val, strlen(val))); break; case 1: if (!val[0]) { arg(sdup(o, 2)); arg(val); } else arg(cat(o, val)); break;
    case 2: arg(cat("--", lg)); arg(sdup(val, strlen(val))); break; case 3: arg(cat(cat(cat("--", lg), "="), val)); break; } }
static void base(int k, const char *t) { geo_init(&G, &D[k]); emit_design(&cfg, "t", &D[k]); world_file("/c", cfg.b, cfg.n, W_FILE); args0(); arg("-f"); arg("/c"); pads(); mode = G.indent; ha = 'l'; va = 't'; t_tpl(t); stdin_buf(&txt); }
static void rejected(int rc) { sym_assert(rc == 1, "a malformed value is rejected with a failure status"); sym_assert(bx_errlen() > 0, "a malformed value gives a message"); sym_assert(bx_outlen() == 0, "a malformed value gives no output"); }
static void accepted(int rc) { sym_assert(rc == 0, "a documented value is accepted"); sym_assert(bx_errlen() == 0, "a documented value gives no message"); }
static void o_align(void) {
  base(0, "aaaa\nb\n ccc\n"); int len = sym_choice("len", TIER ? 7 : 5); char *v = SS("lcrhvjtbRHx C", len); give('a', "align", v);
  const char *p = v; bad = !*p; ha = 'l'; va = 't'; ju = 0;
  while (*p && !bad) { int c = lc(*p++), x = 0; if (c == 'h' || c == 'v' || c == 'j') { x = lc(*p); if (!x) { bad = 1; break; } p++; }
    switch (c) { case 'h': if (x == 'l' || x == 'c' || x == 'r') ha = x; else bad = 1; break; case 'j': if (x == 'l' || x == 'c' || x == 'r') ju = x; else bad = 1; break; case 'v': if (x == 't' || x == 'c' || x == 'b') va = x; else bad = 1; break; case 'l': case 'c': case 'r': ha = ju = c; va = 'c'; break; default: bad = 1; } }
  arg("-s"); arg("20x10"); reqw = 20; reqh = 10; int rc = run(); if (bad) { rejected(rc); return; } accepted(rc); if (rc) return; measure(); check05(); check03(); sym_cover("align"); }
static void o_pad(void) {
  base(sym_choice("d", 2) ? 15 : 0, "ab\n c\n"); static const char *const FIX[] = {"a2147483648", "l99999999999999999999", "h-1", "a1x", "t1b2l3r4", "a4t2", "h10", "v12", "b0l11", "r4294967297", "p3", "l 2", "A1", "H2V1", "T3r2", "a", "1", "a0", "h3h1", "t007"};
  int f = sym_choice("fix", LEN(FIX) + 1); char *v = f ? sdup(FIX[f - 1], strlen(FIX[f - 1])) : digits(SS("ahvblrtAL02-x", sym_choice("len", TIER ? 6 : 5))); give('p', "padding", v);
  const char *p = v; bad = !*p; while (*p && !bad) { int c = lc(*p++); if (!isd(*p)) { bad = 1; break; } long n = 0; while (isd(*p)) { n = n * 10 + (*p++ - '0'); if (n > 2147483647L) { bad = 1; break; } } if (bad) break; n = sym_concretize((int) n);
    switch (c) { case 'a': pl = pr = pt = pb = n; break; case 'h': pl = pr = n; break; case 'v': pt = pb = n; break; case 't': pt = n; break; case 'b': pb = n; break; case 'l': pl = n; break; case 'r': pr = n; break; default: bad = 1; } }
  int rc = run(); if (bad) { rejected(rc); return; } accepted(rc); if (rc) return; measure(); check04(); check03(); sym_cover("pad"); }
static void o_size(void) {
  base(0, "ab\nc\n"); static const char *const FIX[] = {"99999999999999999999", "x9223372036854775808", "12x99999999999999999999", "007x05", "30X9", "x", "", "3x3x", "3x 3y", "0x1F", "1e1", "x-3", "-4x5", "4.5", "100x20", "x0", "0", "0x0", "21x", "a", "5xx5"};
  int f = sym_choice("fix", LEN(FIX) + 1); char *v = f ? sdup(FIX[f - 1], strlen(FIX[f - 1])) : digits(SS("0179x-X.", sym_choice("len", TIER ? 6 : 5))); give('s', "size", v);
  for (const char *q = v; *q; q++) if (*q == '-' && (q == v || q[-1] == 'x' || q[-1] == 'X') && q[1] == '0') { const char *e = q + 1; while (*e == '0') e++; sym_assume(*e && *e != 'x' && *e != 'X'); } /* "-0" is not judged: it has the value of "0" */
  const char *p = v; bad = 0; long w = 0, h = 0; int any = 0; while (isd(*p)) { any = 1; if (w < 1000000000L) w = w * 10 + (*p - '0'); else bad = 1; p++; } if (*p == 'x' || *p == 'X') { p++; while (isd(*p)) { any = 1; if (h < 1000000000L) h = h * 10 + (*p - '0'); else bad = 1; p++; } } if (*p || !any || (!w && !h)) bad = 1;
  if (!bad) { sym_assume(w <= 200 && h <= 200); reqw = sym_concretize((int) w); reqh = sym_concretize((int) h); }
  int rc = run(); if (bad) { rejected(rc); return; } accepted(rc); if (rc) return; measure(); check03(); if (reqw >= 4) sym_assert(TW == reqw, "box has the requested width"); if (reqh >= 4) sym_assert(no == reqh, "box has the requested height"); sym_cover("size"); }
static void o_tabs(void) {
  base(0, "\ta\n b\tc\n      \td\n"); static const char *const FIX[] = {"", "4294967304", "18446744073709551617", "99999999999999999999e", "8e ", "8ee", "e8", "-4", "4,", "1e", "16K", "016e", "4 e"};
  int f = sym_choice("fix", LEN(FIX) + 1); char *v = f ? sdup(FIX[f - 1], strlen(FIX[f - 1])) : digits(SS("01284ekuEKUx-", sym_choice("len", TIER ? 5 : 4))); give('t', "tabs", v);
  const char *p = v; long n = 0; bad = 0; while (isd(*p)) { if (n < 1000) n = n * 10 + (*p - '0'); p++; } int ex = 'e'; if (*p) { ex = lc(*p++); if (*p || (ex != 'e' && ex != 'k' && ex != 'u')) bad = 1; } if (n < 1) bad = 1;
  int big = n > 16; int rc = run(); if (bad) { rejected(rc); return; } if (big) { sym_assert(rc == 0 || rc == 1, "status"); if (rc) { rejected(rc); return; } } else accepted(rc); if (rc) return;
  n = tabd = sym_concretize((int) n); t_expect((int) n, mode); parse_out("\n"); int tabs = 0; for (int i = 0; i < (int) bx_outlen(); i++) tabs += bx_out()[i] == '\t';
  if (ex == 'e') sym_assert(!tabs, "expand mode prints no tab"); else sym_assert(common / (int) n == 0 || tabs > 0, "tabs are kept or made");
  if (!tabs) { measure(); check01(); check06(); } 
  else { /* replace leading tabs by what they span and judge again */ int ok = no == nl + 2; sym_assert(ok, "number of rows"); const u8 *o = bx_out(); int e = bx_outlen(), r = 0, col = 0, lead = 1; for (int i = 0; i < e; i++) { if (o[i] == '\n') { r++; col = 0; lead = 1; continue; } if (!lead) { ok &= o[i] != '\t'; continue; } if (o[i] == '\t') col = (col / (int) n + 1) * (int) n; else if (o[i] == ' ') col++; else { lead = 0; ok &= col == common; } } sym_assert(ok, "leading white space spans the indentation"); }
  sym_cover("tabs"); }
static int ieq(const char *a, const char *b) { for (;; a++, b++) { if (lc(*a) != lc(*b)) return 0; if (!*a) return 1; } }
static void o_indent(void) {
  base(sym_choice("d", 2) ? 5 : 0, "  ab\n   c\n"); static const char *const FIX[] = {"box", "text", "none", "BOX", "Text", "nONE", "boxx", "textt", "nonee", "bo ", "tex ", ""}; int f = sym_choice("fix", LEN(FIX) + 1); char *v = f ? sdup(FIX[f - 1], strlen(FIX[f - 1])) : SS("bBotTeE nx", sym_choice("len", TIER ? 5 : 4)); give('i', "indent", v);
  bad = 1; static const char *const W[] = {"box", "text", "none"}; int n = strlen(v); for (int k = 0; k < 3; k++) if (n > 0 && n <= (int) strlen(W[k])) { char t[8]; memcpy(t, W[k], n); t[n] = 0; if (ieq(t, v)) { bad = 0; mode = W[k][0]; } }
  int rc = run(); if (bad) { rejected(rc); return; } accepted(rc); if (rc) return; measure(); check06(); check01(); sym_cover("indent"); }
static void o_eol(void) {
  base(0, "ab\nc\n"); static const char *const FIX[] = {"crlf", "CRLF", "lf", "LF", "CR", "cr", "CRLFx", "LFCR", "", "CrLf", "\n", "default"}; int f = sym_choice("fix", LEN(FIX) + 1); char *v = f ? sdup(FIX[f - 1], strlen(FIX[f - 1])) : SS("cCrRlLfF", sym_choice("len", TIER ? 6 : 5)); give('e', "eol", v);
  const char *e = ieq(v, "crlf") ? "\r\n" : ieq(v, "lf") ? "\n" : ieq(v, "cr") ? "\r" : 0; int rc = run(); if (!e) { rejected(rc); return; } accepted(rc); if (rc) return; parse_out(e); sym_assert(no == 4 && out_final && !out_badeol, "the chosen terminator ends every line"); sym_cover("eol"); }
/* -k and its long forms: box with blank lines in it is removed */
static void o_kill(void) {
  base(0, "\nab\n\n"); int rc = run(); sym_assert(rc == 0, "drawing succeeds"); if (rc) return; struct buf *b = (struct buf *) malloc(sizeof *b); b->n = 0; bmem(b, bx_out(), bx_outlen()); stdin_buf(b); arg("-r");
  static const char *const FIX[] = {"true", "false", "TRUE", "False", "", "maybe", "truee", "fals", "2", "tru", "-1", "t rue"}; int f = sym_choice("fix", LEN(FIX) + 3), want;
  if (f == LEN(FIX)) { arg("--kill-blank"); want = 1; bad = 0; } else if (f == LEN(FIX) + 1) { arg("--no-kill-blank"); want = 0; bad = 0; }
  else { char *v = f < LEN(FIX) ? sdup(FIX[f], strlen(FIX[f])) : SS("tTrRuUfaelse", 4); if (f == LEN(FIX) + 2) { sym_assume(!ieq(v, "true") || 1); } give('k', 0, v); bad = !ieq(v, "true") && !ieq(v, "false"); want = ieq(v, "true"); }
  rc = run(); if (bad) { rejected(rc); return; } accepted(rc); if (rc) return; parse_out("\n"); sym_assert(no == (want ? 1 : 3), "-k decides whether blank lines are killed"); sym_cover("kill"); }
/* options in any order and position give the same output; and each effect is the one of the canonical order */
static struct buf res;
static const char *const ON[][4] = { {"-a", "hc"}, {"-p", "l2t1"}, {"-s", "30x8"}, {"-i", "text"}, {"-t", "4e"}, {"-e", "CRLF"}, {"--no-color"}, {"-k", "true"}, {"-d", "t"}, {"-n", "UTF-8"}, {"-f", "/c"}, {"--align=vb"}, {"-pr3"}, {"--color"} };
static void put(int k) { for (int i = 0; i < 4 && ON[k][i]; i++) arg(sdup(ON[k][i], strlen(ON[k][i]))); }
static void o_order(void) {
  static const char T[] = " \033[1ma\033[0mb\n   c\td\n"; emit_design(&cfg, "t", &D[sym_choice("d", 3)]); world_file("/c", cfg.b, cfg.n, W_FILE); world_file("/in", T, sizeof T - 1, W_FILE); world_env("BOXES", "/c"); world_stdin("zz", 2, 0);
  int a = sym_choice("a", LEN(ON)), b = sym_choice("b", LEN(ON)), c = sym_choice("c", TIER ? LEN(ON) : 4); sym_assume(a < b); if (!TIER) c = (a * 3 + b + c * 4) % LEN(ON); sym_assume(c != a && c != b);
  sym_assume((a == 6) + (b == 6) + (c == 6) + (a == 13) + (b == 13) + (c == 13) < 2 && (a == 1) + (b == 1) + (c == 1) + (a == 12) + (b == 12) + (c == 12) < 2); /* colour options and paddings override each other */ sym_assume((a == 0) + (b == 0) + (c == 0) + (a == 11) + (b == 11) + (c == 11) < 2 || 1);
  args0(); put(a); put(b); put(c); arg("/in"); int rc = run(); sym_assert(rc == 0, "valid options are accepted"); if (rc) return; res.n = 0; bmem(&res, bx_out(), bx_outlen());
  args0(); switch (sym_choice("perm", 8)) { case 0: put(c); put(b); put(a); arg("/in"); break; case 1: put(b); put(c); put(a); arg("/in"); break; case 2: arg("/in"); put(a); put(b); put(c); break; case 3: put(a); arg("/in"); put(c); put(b); break; case 4: put(c); arg("/in"); put(a); put(b); break; case 5: put(b); put(a); arg("/in"); put(c); break; case 6: put(a); put(c); put(b); arg("--"); arg("/in"); break; case 7: put(a); put(c); put(b); arg("/in"); arg("-"); break; }
  rc = run(); sym_assert(rc == 0, "valid options are accepted in any order"); int ok = (int) bx_outlen() == res.n; if (ok) for (int i = 0; i < res.n; i++) ok &= bx_out()[i] == res.b[i]; sym_assert(ok, "the order and position of options does not matter"); sym_cover("order"); }
/* a later value of the same option replaces the earlier one */
static void o_last(void) {
  base(0, " ab\n  c\n"); switch (sym_choice("k", 8)) {
    case 0: arg("-a"); arg("hrvb"); arg("-a"); arg("hlvt"); break; case 1: arg("-s"); arg("40x12"); arg("-s"); arg("20x7"); reqw = 20; reqh = 7; break; case 2: arg("-i"); arg("text"); arg("--indent"); arg("none"); mode = 'n'; break;
    case 3: arg("-e"); arg("CR"); arg("-e"); arg("LF"); break; case 4: arg("-t"); arg("3k"); arg("-t"); arg("8"); break; case 5: arg("-d"); arg("nope"); arg("-d"); arg("t"); break; case 6: arg("-p"); arg("a3"); arg("-p"); arg("h1"); arg("-p"); arg("t0"); pl = pr = 1; pb = 3; pt = 0; break; case 7: arg("--color"); arg("--no-color"); break; }
  int rc = run(); accepted(rc); if (rc) return; measure(); check05(); check04(); check03(); check01(); sym_cover("last"); }
/* things that are no options, or lack their argument */
static void o_junk(void) {
  base(0, "ab\n"); An_ = 1; static const char *const J[][4] = { {"-f", "/c", "-a"}, {"-f", "/c", "-c"}, {"-f", "/c", "-d"}, {"-f", "/c", "-e"}, {"-f"}, {"-f", "/c", "-i"}, {"-f", "/c", "-k"}, {"-f", "/c", "-n"}, {"-f", "/c", "-p"}, {"-f", "/c", "-q"}, {"-f", "/c", "-s"}, {"-f", "/c", "-t"}, {"-f", "/c", "-x"}, {"-f", "/c", "--align"}, {"-f", "/c", "--nosuch"}, {"-f", "/c", "--list=3"}, {"-f", "/c", "-Z"}, {"-f", "/c", "--size="}, {"-f", "/c", "-c", ""}, {"-f", "/c", "--remove=1"}, {"-f", "/c", "-x", "nonsense"}, {"-f", "/c", "-x", "debug:nonsense"}, {"-f", "/c", "--co"} };
  int k = sym_choice("k", LEN(J) + 2); if (k < LEN(J)) for (int i = 0; i < 4 && J[k][i]; i++) arg(J[k][i]); else if (k == LEN(J)) { arg("-f"); arg("/c"); arg("-"); arg("-"); arg("-"); } else { static char o[3]; o[0] = '-'; o[1] = sym_byte("o", "bgjouwyzABDG0", 13); o[2] = 0; arg("-f"); arg("/c"); arg(o); }
  rejected(run()); sym_cover("junk"); }
static int has(const u8 *p, int n, const char *s) { int m = strlen(s); for (int i = 0; i + m <= n; i++) if (!memcmp(p + i, s, m)) return 1; return 0; }
static void o_info(void) {
  base(0, "ab\n"); static const char *const I[] = {"-h", "--help", "-v", "--version", "-?"}; int k = sym_choice("k", LEN(I)), o = sym_choice("o", 3); if (k == 4) An_ = 1; else if (o == 1) { arg("-s"); arg("20"); } arg(I[k]); if (o == 2) arg("-r"); int rc = run(); sym_assert(rc == 0, "help and version succeed"); sym_assert(bx_outlen() > 0, "they print something");
  if (k == 2 || k == 3) sym_assert(has(bx_out(), bx_outlen(), "version"), "the version is told"); else { static const char *const L[] = {"--align", "--create", "--color", "--no-color", "--design", "--eol", "--config", "--help", "--indent", "--kill-blank", "--no-kill-blank", "--list", "--mend", "--encoding", "--padding", "--tag-query", "--remove", "--size", "--tabs", "--version"}; for (int i = 0; i < LEN(L); i++) sym_assert(has(bx_out(), bx_outlen(), L[i]), "every option is explained"); }
  sym_cover("info"); }
void harness_main(void) {
  world_reset();
#ifndef WHAT
#define WHAT sym_choice("what", 11)
#endif
  switch (WHAT) { case 0: o_align(); break; case 1: o_pad(); break; case 2: o_size(); break; case 3: o_tabs(); break; case 4: o_indent(); break; case 5: o_eol(); break; case 6: o_kill(); break; case 7: o_order(); break; case 8: o_last(); break; case 9: o_junk(); break; case 10: o_info(); break; }
}
