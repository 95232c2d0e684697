/* B28: a design given with -c. The string is symbolic; geometry as for a design that has only a west shape and a left padding of one. */
#include "mixlib.h"
#include "checks.h"
#include "rtlib.h"
static const char *const FX[] = {"#", "\xe5\xae\xbd", "a\xcc\x81>", " \xe2\x82\xac ", "\033[1m#\033[0m", "-- ", "    |", "\\n\"'", "%s%n", "a very long prefix that takes much room: ", "\xf0\x9f\x98\x80"};
static const char *const BAD[] = {"", "a\nb", "\r", "\xcc\x81", "\033[1m", "#\001", "x\n"};
static const int OK_[] = {0, 1, 4, 6, 13, 17, 20, 22, 30, 31, 36, 37, 43, 46, 48, 8};
static struct dsn d1; static struct buf box1;
static int blank_str(const char *s) { for (; *s; s++) if (*s != ' ') return 0; return 1; }
static void create(const char *s) { switch (sym_choice("sp", TIER ? 4 : 2)) { case 0: arg("-c"); arg(s); break; case 1: arg(cat("--create=", s)); break; case 2: arg("--create"); arg(s); break; case 3: if (*s) arg(cat("-c", s)); else { arg("-c"); arg(s); } break; } }
void harness_main(void) {
  world_reset(); ha = 'l'; va = 't'; mode = 'b'; args0(); if (sym_choice("env", 2)) world_env("BOXES", "/nowhere"); int w = sym_choice("what", 4);
  if (w == 3) { create(BAD[sym_choice("bad", LEN(BAD))]); world_stdin("hi\n", 3, 0); int rc = run(); sym_assert(rc == 1, "an unusable string is rejected"); sym_assert(bx_errlen() > 0, "a message is given"); sym_assert(bx_outlen() == 0, "no output is given"); sym_cover("bad"); return; }
  char *s; int tk, ok;
  if (w == 0) { int n = 1 + sym_choice("len", TIER ? 5 : 3); char b[8]; for (int i = 0; i < n; i++) b[i] = sym_byte("c", "#* a\\\"", 6); b[n] = 0; s = sdup(b, n); tk = (int[]){1, 5, 19}[sym_choice("text", TIER ? 3 : 2)]; ok = sym_choice("opts", TIER ? 4 : 2); } else { int k = sym_choice("str", LEN(FX)); s = sdup(FX[k], strlen(FX[k])); ok = sym_choice("opts", LEN(OK_)); tk = TIER ? sym_choice("text", LEN(TT)) : (sym_choice("text", 5) * 5 + ok + k) % LEN(TT); }
  if (blank_str(s)) { create(s); world_stdin("hi\n", 3, 0); int rc = run(); sym_assert(rc == 1 ? bx_outlen() == 0 && bx_errlen() > 0 : (int) bx_outlen() >= (int) strlen(s) + 3, "ws-only: a string of blanks is put before the line or rejected"); return; }
  memset(&d1, 0, sizeof d1); d1.sh[W][0] = s; d1.el = EL(W); d1.pad[LEFT] = 1; geo_init(&G, &d1); pads(); int first = sym_choice("first", 2); if (first) create(s); options(OP_[OK_[ok]]); if (!first) create(s);
  t_tpl(TT[tk]); stdin_buf(&txt); int rc = run(); sym_assert(rc == 0, "drawing succeeds"); sym_assert(bx_errlen() == 0, "no message"); if (rc) return;
  unexp = umode; measure(); sym_assert(no >= nl, "one output line per input line"); if (!reqh && pt + pb == 0) sym_assert(no == nl, "one output line per input line");
  check01(); check02(); check03(); check04(); check05(); check06(); check29();
  if (!umode) { const u8 *o = bx_out(); int e = bx_outlen(), b = 0, m = strlen(s), good = 1; while (m > 0 && s[m - 1] == ' ') m--; for (int i = 0; i < e; i++) if (o[i] == '\n') { good &= i - b >= prefix + m; if (i - b >= prefix + m) { for (int u = 0; u < prefix; u++) good &= o[b + u] == ' '; for (int u = 0; u < m; u++) good &= o[b + prefix + u] == (u8) s[u]; } b = i + 1; } sym_assert(good, "every line begins with the string"); }
  sym_trace(bx_out(), bx_outlen() < 300 ? bx_outlen() : 300); sym_cover("draw");
  if (w == 2 && !ok) { keep(&box1); stdin_buf(&box1); arg("-r"); rc = run(); sym_assert(rc == 0, "removing succeeds"); if (rc) return; t_expect(8, mode); parse_out("\n"); sym_cover("remove"); if (txt.b[txt.n - 1] != '\n' && !XL[nl - 1]->r.n) return; /* an empty last line without terminator cannot be seen */ sym_assert(same_text(0, common), "removing the box restores the text"); } }
