/* Drawing: one run of the real program, the output is measured and each property checks its own facet.
 * P = number of the property whose facet is asserted. */
#include "drawlib.h"
#include "checks.h"
void harness_main(void) {
  world_reset(); ha = 'l'; va = 't';
  int dk = design();
#if P == 1
  switch (OPT("opt", 6)) { case 0: break; case 1: arg("-s"); arg("30x9"); break; case 2: arg("-a"); arg("r"); break; case 3: arg("-a"); arg("hcjc"); arg("-s"); arg("21"); break; case 4: arg("-p"); arg("a2"); break; case 5: arg("-s"); arg("3x2"); arg("-a"); arg("hrvb"); break; }
  indent_opt(4);
#elif P == 2
  switch (OPT("opt", 5)) { case 0: break; case 1: arg("-s"); arg("30x9"); reqw = 30; reqh = 9; break; case 2: arg("-a"); arg("c"); break; case 3: arg("-p"); arg("a1"); pt = pb = pl = pr = 1; break; case 4: arg("-s"); arg("3x2"); arg("-a"); arg("hrvb"); reqw = 3; reqh = 2; break; }
  indent_opt(4);
#elif P == 3
  opt_size(); if (sym_choice("padopt", 2)) { arg("-p"); arg("h1v2"); pl = pr = 1; pt = pb = 2; } indent_opt(TIER ? 4 : 1);
#elif P == 4
  opt_pad(); int kk = TIER ? OPT("sizeal", 6) : (int[]){0, 2, 4, 5}[OPT("sizeal", 4)]; if (kk & 1) { arg("-s"); arg("24x10"); reqw = 24; reqh = 10; } switch (kk / 2) { case 1: arg("-a"); arg("hcvc"); break; case 2: arg("-a"); arg("hrvb"); break; } if (TIER) indent_opt(4);
#elif P == 5
  opt_align(); switch (TIER ? OPT("size", 4) : OPT("size", 2) * (1 + dk % 3)) { case 1: arg("-s"); arg("40x11"); reqw = 40; reqh = 11; break; case 2: arg("-s"); arg("61x12"); reqw = 61; reqh = 12; break; case 3: arg("-p"); arg("l2t1"); pl = 2; pt = 1; arg("-s"); arg("61x13"); reqw = 61; reqh = 13; break; } if (TIER) indent_opt(4);
#elif P == 6
  indent_opt(4); switch (OPT("o", 3)) { case 1: arg("-s"); arg("25x6"); reqw = 25; reqh = 6; break; case 2: arg("-p"); arg("h2"); pl = pr = 2; break; }
#elif P == 29
  opt_size(); indent_opt(2);
#endif
  text_in();
  int rc = run(); sym_assert(rc == 0, "drawing succeeds"); sym_assert(bx_errlen() == 0, "no message"); if (rc) return;
  measure(); (void) dk;
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#if P < 10
  CAT(check0, P)();
#else
  CAT(check, P)();
#endif
  sym_trace(bx_out(), bx_outlen() < 300 ? bx_outlen() : 300);
  sym_cover("end");
}
