/* B26: removing and mending without naming the design, among several configured ones. */
#include "rtlib.h"
static struct buf box1, ref; static char nm[4][4];
static const int SETS[][4] = {{0, 1, 2, 3}, {5, 6, 7, 9}, {12, 13, 3, 8}, {2, 16, 10, 4}, {0, 15, 9, 13}, {14, 15, 17, 12}, {18, 10, 2, 0}, {11, 2, 9, 4}};
static const char *const AT[] = {"@\n", "@@ ~\n ~@\n", "ab\n\n~b\n@\n", "  @~@\n   ~b\n\n  c~~\n", "\xe5\xae\xbd@\n~x\n", "``a\n` `\n", "`\n@\n`\n", "\033[1m@\033[0mc\n@@\033[31mab\033[0mz\n", "@ longer line of text, here ~ and there @\n    short\n@\nl\nl\nl\n", "/* a */\n#! @\n+-+\n", "+--+\n|~@|\n+--+\n", "@ ~\n@"};
static const char *const NOBOX[] = {"@\n", "@@ ~\n ~@\n", "\n@b\n~c\n\n", "  @~@\n   ~b\n\n  c~~", "\t@b\n\tc\n", "\n\n", "", "@ longer text, here ~ and there @\n    short\n", "aaaa\naaaa\naa~a\naaaa\n"};
static int is(const struct buf *b) { return same_as(b); }
static void set_(int s, int rot) { cfg.n = 0; for (int i = 0; i < 4; i++) { int k = (i + rot) % 4; nm[k][0] = 'd'; nm[k][1] = '0' + k; nm[k][2] = 0; emit_design(&cfg, nm[k], &D[SETS[s][k]]); } world_file("/c", cfg.b, cfg.n, W_FILE); }
static int border_(int t) { const char *p = AT[t]; for (; *p; p++) if (strchr("`/+#|", *p)) return 1; return 0; }
static int colored(int k) { return k == 8; }
static void opts_(int o) { switch (o) { case 1: arg("-s"); arg("30x9"); break; case 2: arg("-p"); arg("a1"); break; case 3: arg("-i"); arg("none"); break; case 4: arg("-a"); arg("c"); arg("-s"); arg("40x12"); break; case 5: arg("-p"); arg("h3v0"); break; case 6: arg("-i"); arg("text"); break; case 7: arg("--no-color"); break; } }
static void s_find(void) {
  int s = sym_choice("set", LEN(SETS)), rot = sym_choice("order", 2) * 2 + (s & 1), k = sym_choice("drawn", 4), t = sym_choice("text", TIER ? LEN(AT) : 6), o = sym_choice("opt", TIER ? 8 : 2); if (!TIER) { t = (t * 5 + s + k) % LEN(AT); if (o) o = 1 + (s * 3 + k + t) % 7; } set_(s, rot); int d = SETS[s][k]; (void) colored; geo_init(&G, &D[d]);
  args0(); arg("-f"); arg("/c"); arg("-d"); arg(nm[k]); opts_(o);
  t_tpl(AT[t]); stdin_buf(&txt); int rc = run(); sym_assert(rc == 0, "drawing succeeds"); if (rc) return; keep(&box1);
  int m = sym_choice("mend", 2), crlf = 0, ro = o ? o * (TIER ? sym_choice("again", 2) : (s + k + t) & 1) : TIER ? sym_choice("ropt", 8) : (s + k * 2 + t) % 8; args0(); arg("-f"); arg("/c"); arg(m ? "-m" : "-r"); opts_(ro); arg("-d"); arg(nm[k]); stdin_buf(&box1); rc = run(); sym_assert(rc == 0, "naming the design works"); if (rc) return; keep(&ref);
  args0(); arg("-f"); arg("/c"); arg(m ? "-m" : "-r"); opts_(ro); stdin_buf(&box1); rc = run(); (void) crlf; sym_assert(rc == 0, "a design is found"); if (rc) return; if (!border_(t) && !(t == 4 && (s == 1 || s == 4 || s == 7))) { sym_assert(is(&ref), "the result is the same as if the design had been named"); sym_cover("find"); return; }
  /* the text has border characters of other designs in it: at least it is the result of one of the designs */
  static struct buf got; keep(&got); int ok = is(&ref); for (int i = 0; i < 4 && !ok; i++) if (i != k) { args0(); arg("-f"); arg("/c"); arg(m ? "-m" : "-r"); opts_(ro); arg("-d"); arg(nm[i]); stdin_buf(&box1); if (run() == 0) ok |= is(&got); } sym_assert(ok, "the result is that of one of the configured designs"); sym_cover("some"); }
/* no shape of any design occurs in the text */
static void s_none(void) {
  int s = sym_choice("set", LEN(SETS)), t = sym_choice("text", LEN(NOBOX)); set_(s, s & 3); if (s == 2 || s == 4 || s == 5) { /* shapes with letters and digits: leave only those that have none */ cfg.n = 0; emit_design(&cfg, "q", &D[0]); emit_design(&cfg, "r", &D[12 - 12 * 0 - 3]); world_file("/c", cfg.b, cfg.n, W_FILE); } if (s == 0 || s == 1 || s == 6) { cfg.n = 0; emit_design(&cfg, "q", &D[s == 0 ? 1 : s == 1 ? 5 : 10]); emit_design(&cfg, "r", &D[s == 0 ? 2 : s == 1 ? 7 : 0]); world_file("/c", cfg.b, cfg.n, W_FILE); }
  t_tpl(NOBOX[t]); args0(); arg("-f"); arg("/c"); arg(sym_choice("mode", 1 + 0) ? "-m" : "-r"); stdin_buf(&txt); int rc = run(); sym_assert(rc == 0 || rc == 1, "status");
  if (rc) { sym_assert(bx_errlen() > 0, "a message is given"); sym_assert(bx_outlen() == 0, "no output is given"); } else { geo_init(&G, &D[0]); t_expect(8, 'b'); parse_out("\n"); sym_assert(same_text(1, common), "text without a box is not changed"); } sym_cover("none"); }
void harness_main(void) { world_reset(); if (sym_choice("what", 2)) s_find(); else s_none(); }
