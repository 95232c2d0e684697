/* B12: display widths */
#include "rtlib.h"
#include "checks.h"
static struct buf box1;
/* classes of characters; the last byte is symbolic */
static void uch(void) {
  switch (sym_choice("class", 18)) {
    case 0: t_sym("a", "ab", 2); break; case 1: t_ch(' '); break;
    case 2: { t_pre("\xe5\xae"); t_b("cjk", 0x80, 0xbf, 0x5b80); break; } case 3: t_pre("\xcc"); t_b("mark", 0x80, 0xaf, 0x300); break; case 4: t_pre("\xc3"); t_b("latin", 0xa0, 0xbf, 0xe0); break;
    case 5: t_pre("\xf0\x9f\x98"); t_b("emoji", 0x80, 0xbf, 0x1f600); break; case 6: t_pre("\xed\x95"); t_b("hangul", 0x80, 0xbf, 0xd540); break; case 7: t_ch(0x200b); break; case 8: t_ch(0xff21); break;
    case 9: t_ch(0xfe0f); break; case 10: t_ch(0x20ac); break; case 11: t_pre("\xe2\x94"); t_b("frame", 0x80, 0xbf, 0x2500); break;
    case 12: t_pre("\xf0\xa0\x80"); t_b("cjkb", 0x80, 0xbf, 0x20000); break; case 13: t_pre("\xf0\x9d\x90"); t_b("math", 0x80, 0xbf, 0x1d400); break; case 14: t_pre("\xe1\x84"); t_b("jamo", 0x80, 0xbf, 0x1100); break; case 15: t_pre("\xd0"); t_b("cyr", 0x80, 0xbf, 0x400); break; case 16: t_pre("\xef\xbd"); t_b("kana", 0xa1, 0xbf, 0xff61); break; case 17: t_pre("\xe3\x81"); t_b("hira", 0x80, 0xbf, 0x3040); break; } }
void harness_main(void) {
  world_reset(); static const int DS[] = {0, 9, 15, 14, 2, 5}; int k = DS[sym_choice("design", 6)]; geo_init(&G, &D[k]); emit_design(&cfg, "t", &D[k]); world_file("/c", cfg.b, cfg.n, W_FILE); args0(); arg("-f"); arg("/c"); pads(); mode = G.indent; ha = 'l'; va = 't';
  switch (sym_choice("opt", 4)) { case 0: break; case 1: arg("-s"); arg("22x7"); reqw = 22; reqh = 7; break; case 2: arg("-s"); arg("23x8"); reqw = 23; reqh = 8; arg("-a"); arg("hcvcjr"); ha = 'c'; va = 'c'; ju = 'r'; break; case 3: arg("-s"); arg("24x8"); reqw = 24; reqh = 8; arg("-a"); arg("hrvbjc"); ha = 'r'; va = 'b'; ju = 'c'; break; }
  t_str("x"); uch(); uch(); if (TIER) uch(); t_eol("\n"); t_str("  \xe5\xae\xbd"); t_ch(sym_byte("t", "ab \t", 4)); t_str("z"); t_eol("\n"); stdin_buf(&txt);
  int rc = run(); sym_assert(rc == 0, "drawing succeeds"); if (rc) return; measure();
  { const u8 *p = bx_out(); int n = bx_outlen(), ok = 1; for (int i = 0; i < n;) { int m = u8len(p[i]); ok &= p[i] < 0x80 || (p[i] >= 0xc2 && p[i] <= 0xf4); for (int u = 1; u < m; u++) ok &= i + u < n && (p[i + u] & 0xc0) == 0x80; i += m; } sym_assert(ok, "the output is valid UTF-8"); }
  check02(); check01(); check03(); if (ju) check05(); 
  if (!ju) { keep(&box1); stdin_buf(&box1); arg("-r"); arg("-d"); arg("t"); rc = run(); sym_assert(rc == 0, "removing succeeds"); if (rc) return; t_expect(8, mode); parse_out("\n"); if (!(G.have[TOP] || G.have[BOTTOM])) while (no > nl && trimlen(&O[no - 1]) == 0) no--; sym_assert(same_text(G.have[TOP] || G.have[BOTTOM], mode == 'b' ? common : 0), "removing restores the text"); }
  sym_cover("end");
}
