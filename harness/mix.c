/* Drawing, wide mixture: every combination of a list of option sets with designs and a share of the texts; facets as in draw.c. */
#include "mixlib.h"
#include "checks.h"
void harness_main(void) {
  world_reset(); ha = 'l'; va = 't'; int dk = sym_choice("design", ND), ok = sym_choice("opts", LEN(OP_)), tn = TIER ? LEN(TT) : 5, tk = TIER ? sym_choice("text", LEN(TT)) : (sym_choice("text", tn) * 5 + ok * 7 + dk * 3 + P) % LEN(TT);
  geo_init(&G, &D[dk]); emit_design(&cfg, "t", &D[dk]); world_file("/c", cfg.b, cfg.n, W_FILE); args0(); arg("-f"); arg("/c"); pads(); mode = G.indent; options(OP_[ok]); t_tpl(TT[tk]); stdin_buf(&txt); sym_cover("end");
  int rc = run(); sym_assert(rc == 0, "drawing succeeds"); sym_assert(bx_errlen() == 0, "no message"); if (rc) return;
  unexp = umode; measure();
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#if P < 10
  CAT(check0, P)();
#else
  CAT(check, P)();
#endif
  sym_trace(bx_out(), bx_outlen() < 300 ? bx_outlen() : 300); }
