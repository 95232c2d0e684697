/* Round trips: draw a box, then remove (P=7) or mend (P=8) it with the same options. */
#include "rtlib.h"
static struct buf box1, edited;
static const char *const RTX[] = { "@\n", "@@ ~\n ~@\n", "@\n\n~b\n", "  @~@\n   ~b\n\n  c~~\n", "\xe5\xae\xbd@\n~x\n", "a\xcc\x81@~\n \xe2\x82\xac\n", "\t@\n\t %b\n", "``\n` `\n", "\033[1m@\033[0m~c\n@@\033[31mab\033[0mz\n", "@ some longer line of text, here ~ and there ~@\n    short\n@\n", "`\n@\n`\n", "1\n22\n@@@\n4444\n\n666666\n", "@ ~\n`", "a`\n``\n" };
static void common_opts(void) { switch (OPT("o", TIER ? 6 : 4)) { case 1: arg("-s"); arg("25x8"); reqw = 25; reqh = 8; break; case 2: arg("-p"); arg("a1"); pl = pr = pt = pb = 1; break; case 3: arg("-p"); arg("l2b1"); pl = 2; pb = 1; break; case 4: arg("-p"); arg("h0v0"); pl = pr = pt = pb = 0; break; case 5: arg("-s"); arg("60"); reqw = 60; break; } }
void harness_main(void) {
  world_reset(); design(); common_opts(); indent_opt(TIER || big ? 4 : 3);
  if (big) text_in(); else { t_tpl(RTX[sym_choice("text", LEN(RTX))]); stdin_buf(&txt); }
  int rc = run(); sym_assert(rc == 0, "drawing succeeds"); if (rc) return;
  bmem(&box1, bx_out(), bx_outlen());
#if P == 7
  stdin_buf(&box1); arg("-d"); arg("t"); arg("-r"); rc = run(); sym_assert(rc == 0, "removing succeeds"); if (rc) return;
  t_expect(8, mode); parse_out("\n");
  if (reqw && reqw - G.lw - G.rw < Wt + pl + pr) { sym_cover("end"); return; } /* the padding was shrunk */
  if (!kill_default() && (reqh || pt || pb)) { while (no > nl && trimlen(&O[no - 1]) == 0) no--; } /* rows that only fill the requested size */
  sym_assert(same_text(kill_default(), mode == 'b' ? common : 0), "removing the box restores the text");
#else
  t_expect(8, mode); if (reqw && reqw - G.lw - G.rw < Wt + pl + pr) { sym_cover("end"); return; } /* the padding was shrunk */
  if (reqh && reqh - G.th - G.bh < nl + pt + pb) { sym_cover("end"); return; }
  stdin_buf(&box1); arg("-d"); arg("t"); arg("-m"); rc = run(); sym_assert(rc == 0, "mending succeeds"); if (rc) return;
  int ok = bx_outlen() == box1.n; if (ok) for (int i = 0; i < box1.n; i++) ok &= bx_out()[i] == box1.b[i];
  sym_assert(ok, "mending an intact box gives the same box");
#endif
  sym_cover("end");
}
