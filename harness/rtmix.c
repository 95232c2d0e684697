/* Round trips over the option sets and texts of the wide mixture (without alignment, which removal cannot know): draw, then remove (P=7) or mend (P=8). */
#include "mixlib.h"
#include "rtlib.h"
static struct buf box1;
void harness_main(void) {
  world_reset(); ha = 'l'; va = 't'; static int ix[80]; int n = 0; for (int i = 0; i < LEN(OP_); i++) if (!strstr(OP_[i], "a=")) ix[n++] = i;
  int dk = sym_choice("design", ND), ok = ix[sym_choice("opts", n)], tn = TIER ? LEN(TT) : 4, tk = TIER ? sym_choice("text", LEN(TT)) : (sym_choice("text", tn) * 6 + ok * 7 + dk * 5 + P) % LEN(TT);
  geo_init(&G, &D[dk]); emit_design(&cfg, "t", &D[dk]); world_file("/c", cfg.b, cfg.n, W_FILE); args0(); arg("-f"); arg("/c"); arg("-d"); arg("t"); pads(); mode = G.indent; options(OP_[ok]); t_tpl(TT[tk]); stdin_buf(&txt);
  int rc = run(); sym_assert(rc == 0, "drawing succeeds"); if (rc) return; keep(&box1); t_expect(tabd, mode); sym_cover("end");
  if ((reqw && reqw - G.lw - G.rw < Wt + pl + pr) || (reqh && reqh - G.th - G.bh < nl + pt + pb)) return; /* the padding was shrunk */
  stdin_buf(&box1);
#if P == 7
  arg("-r"); rc = run(); sym_assert(rc == 0, "removing succeeds"); if (rc) return; if (umode) { expand_lead(tabd); parse_buf(xb.b, xb.n, "\n"); } else parse_out("\n");
  if (!kill_default()) { while (no > nl && trimlen(&O[no - 1]) == 0) no--; }
  if (!no && nl == 1 && XL[0]->r.n == 0) return; /* one blank line without terminator */
  sym_assert(same_text(kill_default(), mode == 'b' ? common : 0), "removing the box restores the text");
#else
  arg("-m"); rc = run(); sym_assert(rc == 0, "mending succeeds"); if (rc) return; sym_assert(same_as(&box1), "mending an intact box gives the same box");
#endif
}
