/* B10: line terminators in all modes */
#include "rtlib.h"
static struct buf box1;
static const char *const EO[] = {"LF", "CRLF", "CR"}; static const char *const EB[] = {"\n", "\r\n", "\r"};
static int lastnl; /* does the last input line end in a line break */
static void terms(const char *const *l, int n) { for (int i = 0; i < n; i++) { bstr(&txt, l[i]); if (i == n - 1 && sym_choice("final", 2)) { lastnl = !l[i][0] && i > 0; break; } lastnl = 1; bput(&txt, sym_byte("term", i & 1 ? "\r " : "\rq", 2)); bput(&txt, '\n'); } }
static const char *const A1[] = {"ab", " c", "", "d"}; static const char *const A2[] = {"", "x", ""}; static const char *const A3[] = {"one"}; static const char *const A4[] = {"  "};
static void check(const char *e, int want, const char *what) { parse_out(e); sym_assert(!out_badeol, "every line ends in the chosen terminator only"); if (want) sym_assert(bx_outlen() == 0 || out_final, what); }
void harness_main(void) {
  world_reset(); int k = sym_choice("design", ND); geo_init(&G, &D[k]); emit_design(&cfg, "t", &D[k]); world_file("/c", cfg.b, cfg.n, W_FILE); args0(); arg("-f"); arg("/c");
  int tk = sym_choice("text", 4);
  switch (tk) { case 0: terms(A1, 4); break; case 1: terms(A2, 3); break; case 2: terms(A3, 1); break; case 3: terms(A4, 1); break; }
  int e = sym_choice("eol", 4); if (e) { arg("-e"); arg(EO[e - 1]); } const char *eb = EB[e ? e - 1 : 0]; stdin_buf(&txt);
  int op = sym_choice("op", 6);
  if (op == 4) { arg("-l"); int rc = run(); sym_assert(rc == 0, "listing succeeds"); check(eb, 1, "the list ends in a terminator"); sym_cover("list"); return; }
  if (op == 5) { arg("-q"); arg("(all)"); int rc = run(); sym_assert(rc == 0, "query succeeds"); check(eb, 1, "the query result ends in a terminator"); sym_cover("list"); return; }
  if (sym_choice("tab", TIER ? 3 : 1)) { arg("-t"); arg("4u"); }
  int rc = run(); sym_assert(rc == 0, "drawing succeeds"); if (rc) return; check(eb, lastnl, "the last line of the box has a terminator"); if (!lastnl && no) sym_assert(!out_final, "no terminator at the end if the input has none"); if (op == 0) { sym_cover("draw"); return; }
  /* convert the box to symbolic terminators and remove or mend it */
  parse_out(eb); const u8 *o = bx_out(); int n = bx_outlen(), el = strlen(eb); box1.n = 0; int rows = 0, bl = TIER ? sym_choice("blank", 3) : (k + tk * 2 + e + op) % 3; lastnl = 0; if (bl == 1) { if (sym_choice("term2", 2)) bput(&box1, '\r'); bput(&box1, '\n'); } for (int i = 0; i < n; i++) { if (o[i] == (u8) eb[0] && (el == 1 || (i + 1 < n && o[i + 1] == (u8) eb[1]))) { lastnl = 1; i += el - 1; if (i == n - 1 && sym_choice("final2", 2)) { lastnl = 0; break; } if (rows++ < 3) bput(&box1, sym_byte("term2", "\r ", 2)); else if (rows & 1) bput(&box1, '\r'); bput(&box1, '\n'); } else { bput(&box1, o[i]); lastnl = 0; } }
  if (bl == 2 && lastnl) { if (sym_choice("term2", 2)) bput(&box1, '\r'); bput(&box1, '\n'); }
  stdin_buf(&box1); arg(op == 2 ? "-m" : "-r"); arg("-d"); arg("t"); if (op == 3) { arg("-k"); arg("true"); } rc = run(); sym_assert(rc == 0, "removing succeeds"); if (rc) return; check(eb, lastnl, "the last line of the output has a terminator"); if (!lastnl && op == 1 && no && tk != 1 && tk != 3 && !(G.have[BOTTOM])) sym_assert(!out_final, "no terminator at the end if the input has none"); sym_cover("remove"); }
