/* B09: tab stops. Expand mode against the reference, keep and unexpand modes additionally against expand mode. */
#include "rtlib.h"
#include "checks.h"
static const char *const TT[] = { "\t@\n\t\t%b\n", "%%%a\n\t \tb%c\n", "\xe5\xae\xbd\t@\t.\n\xe5\xae\xbd\xe5\xae\xbd%x\n", "a\xcc\x81\t@\ne\xcc\x81%\xcc\x81%z\n", "\033[1ma\033[0m\tb%c\nq%\033[31m\tr\033[0m\n", " \ta\n \t b\n", "\t\t@\n\t\tb\n\t\t\tc", "%a\n\n%%b\n\t \n", "aaaaaaa\tb\naaaaaaaa\tb\naaaaaaaaa\tc\n", "\xe3\x80\x80\ta\n b\n", "\ta%b%c%d\n", "a\tb\t" };
static const int TD[] = {8, 4, 1, 3, 2, 5, 7, 16, 6, 9, 10, 11, 12, 13, 14, 15};
static const int DS[] = {0, 2, 4, 5, 10, 17, 1, 7, 11, 9};
static struct buf plain, box1; 
void harness_main(void) {
  world_reset(); int k = DS[sym_choice("design", TIER ? LEN(DS) : 4)]; geo_init(&G, &D[k]); emit_design(&cfg, "t", &D[k]); world_file("/c", cfg.b, cfg.n, W_FILE); args0(); arg("-f"); arg("/c"); pads(); mode = G.indent; ha = 'l'; va = 't';
  t_tpl(TT[sym_choice("text", LEN(TT))]); stdin_buf(&txt); indent_opt(TIER ? 4 : 3); tabd = TD[sym_choice("tab", TIER ? LEN(TD) : 4)]; char *d = num(tabd);
  int a0 = An_, op = sym_choice("op", 3); arg("-t"); arg(op == 0 && sym_choice("e", 2) ? cat(d, "e") : d); int rc = run(); sym_assert(rc == 0, "drawing succeeds"); if (rc) return;
  sym_assert(!has_ch('\t'), "no tab in expand mode"); measure(); check01(); check06(); keep(&plain);
  int m = sym_choice("m", 2); An_ = a0; arg("-t"); arg(cat(d, m ? "u" : "k"));
  if (op == 0 || op == 1) { rc = run(); sym_assert(rc == 0, "drawing succeeds"); if (rc) return;
    int bad = expand_lead(tabd); sym_assert(!bad, "only leading white space has tabs"); int ok = xb.n == plain.n; if (ok) for (int i = 0; i < xb.n; i++) ok &= xb.b[i] == plain.b[i]; sym_assert(ok, "leading white space spans the same columns");
    if (m && mode == 'b' && prefix) { ok = 1; for (int i = 0; i < no; i++) { ok &= leadtabs[i] >= prefix / tabd || O[i].n == 0; ok &= leadtabs[i] * tabd <= O[i].n + prefix; } sym_assert(ok, "as many blanks as possible become tabs"); }
    if (!m && mode == 'b' && prefix) { /* if all lines begin with the same white space, every row does */ int n = 0, same = 1; while (n < TLs[0]->n && (TLs[0]->c[n] == 9 || TLs[0]->c[n] == ' ')) n++; int col = 0; for (int i = 0; i < n; i++) col = TLs[0]->c[i] == 9 ? (col / tabd + 1) * tabd : col + 1; same = col == prefix; for (int l = 1; l < nl; l++) { if (TLs[l]->n < n) { same = 0; continue; } for (int i = 0; i < n; i++) same &= TLs[l]->c[i] == TLs[0]->c[i]; }
      if (same) { const u8 *o = bx_out(); int e = bx_outlen(), b = 0; ok = 1; for (int i = 0; i < e; i++) if (o[i] == '\n' || i == e - 1) { if (i - b > n) for (int u = 0; u < n; u++) ok &= o[b + u] == (u8) TLs[0]->c[u]; b = i + 1; } sym_assert(ok, "common leading white space is kept as it was"); } }
    if (op == 1) { /* and remove the tabbed box again */ keep(&box1); stdin_buf(&box1); arg("-r"); arg("-d"); arg("t"); rc = run(); sym_assert(rc == 0, "removing succeeds"); if (rc) return; bad = expand_lead(tabd); parse_buf(xb.b, xb.n, "\n"); t_expect(tabd, mode); sym_assert(!bad && same_text(G.have[TOP] || G.have[BOTTOM], mode == 'b' ? common : 0), "removing restores the text at its columns"); }
  } else { stdin_buf(&plain); arg("-r"); arg("-d"); arg("t"); rc = run(); sym_assert(rc == 0, "removing succeeds"); if (rc) return; int bad = expand_lead(tabd); parse_buf(xb.b, xb.n, "\n"); t_expect(tabd, mode); sym_assert(!bad && same_text(G.have[TOP] || G.have[BOTTOM], mode == 'b' ? common : 0), "removing restores the text at its columns"); }
  sym_cover("end");
}
