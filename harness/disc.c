/* B18: where the configuration file is found. Which places exist, and in what state, are symbolic choices. */
#include "conf.h"
static struct buf want; static const char *const NAMES[] = {".boxes", "box-designs", "boxes-config", "boxes"};
static char *id(int place, int name) { char b[4] = {'A' + place, '0' + name, '>', 0}; return sdup(b, 3); }
static void config(const char *path, int place, int name, int kind) { struct buf *b = malloc(sizeof *b); b->n = 0; cdesign(b, "d", "d", id(place, name), 0); world_file(path, b->b, b->n, kind); }
static const char *const DIR_[] = {0, 0, "/home/u", "/x/boxes", "/home/u/.config/boxes", 0, "/etc/xdg/boxes", "/usr/local/share/boxes", "/usr/share/boxes"};
static char *at(const char *d, int n) { return cat(cat(d, "/"), NAMES[n]); }
/* fills a directory so that no (n < 0) or the n-th name is the configuration in it */
static void fill(int p, const char *d, int n, int noise) {
  int e = n < 0 ? 4 : n; for (int i = 0; i < e; i++) switch ((noise + i) % 4) { case 1: config(at(d, i), p, 9, W_DENIED); break; case 2: world_file(at(d, i), 0, 0, W_DIR); break; case 3: if (i == 1) config(cat(d, "/boxes.cfg"), p, 8, W_FILE); break; }
  if (n < 0 && noise == 4) world_file(d, 0, 0, W_DIR); if (n < 0 && noise == 5) world_file(d, 0, 0, W_DENIED);
  if (n >= 0) { config(at(d, n), p, n, W_FILE); if (noise & 1) for (int i = n + 1; i < 4; i++) config(at(d, i), p, i, W_FILE); } }
static int expect(int rc, int p, int n) { sym_assert(rc == 0 && bx_errlen() == 0, "the configuration is found"); expect_left(&want, id(p, n), "hi"); sym_assert(out_is(&want), "the configuration of the first place that has one is used"); return 0; }
static void later(int p, int n) { for (int q = p + 1; q < 9; q++) { if (q == 5) continue; if (q == 8 && p == 5) continue; fill(q, DIR_[q], n, 1); } }
static void search(void) {
  int p = 2 + sym_choice("place", 8), n = p == 5 ? 0 : p > 8 ? -1 : sym_choice("name", 4), nz = sym_choice("noise", 6); int nohome = 0, noxdg = 0; if (p != 2 && p != 4) nohome = sym_choice("nohome", 2); if (p != 3) noxdg = sym_choice("noxdg", 2);
  if (nohome) world_env("HOME", 0); if (!noxdg) world_env("XDG_CONFIG_HOME", sym_choice("slash", 2) ? "/x/" : "/x");
  for (int q = 2; q < 9; q++) { if (q == 5) continue; if (q < p) { if (q == 8) continue; if (q == 2 && nz == 5) { fill(q, DIR_[q], -1, 1); continue; } /* a home that cannot be read holds no .config either */ if (q == 4 && nohome) { fill(q, DIR_[q], 2, 0); continue; } if (q == 2 && nohome) { fill(q, DIR_[q], 1, 0); continue; } if (q == 3 && noxdg) { fill(q, DIR_[q], 0, 0); continue; } fill(q, DIR_[q], -1, nz); } else if (q == p) fill(q, DIR_[q], n, nz % 4); }
  if (p == 5) config("/usr/share/boxes", 5, 0, W_FILE); else if (p > 8 && nz == 1) config("/usr/share/boxes", 5, 0, W_DENIED);
  if (p <= 8 && sym_choice("later", 2)) later(p, sym_choice("lname", 2) ? 0 : 3);
  args0(); world_stdin("hi\n", 3, 0); int rc = run(); if (p > 8) { rejected_(rc, "no configuration anywhere is an error"); sym_cover("none"); } else { expect(rc, p, n); sym_cover("search"); } }
static void given(void) {
  int cli = sym_choice("cli", 2), both = cli && sym_choice("both", 2), form = sym_choice("form", 9); later(1, sym_choice("lname", 2) * 2); world_env("XDG_CONFIG_HOME", "/x"); const char *v; int n = 0, bad = 0;
  switch (form) { case 0: v = "/my/conf"; config(v, 0, 0, W_FILE); break; case 1: v = "/my/dir"; n = sym_choice("name", 4); fill(0, v, n, sym_choice("noise", 4)); break; case 2: v = "/my/dir/"; n = sym_choice("name", 4); fill(0, "/my/dir", n, 0); break; case 3: v = "/my/nothing"; bad = 1; break; case 4: v = "/my/empty"; world_file(v, 0, 0, W_DIR); bad = 1; break;
    case 5: v = "/my/denied"; config(v, 0, 0, W_DENIED); bad = 1; break; case 6: v = "/my/wrong"; fill(0, v, -1, sym_choice("noise", 4)); world_file("/my/wrong/other", 0, 0, W_DIR); bad = 1; break; case 7: v = ""; bad = 1; break; default: v = "my/rel"; config("/my/rel", 0, 0, W_FILE); break; }
  args0(); if (cli) { switch (sym_choice("sp", 3)) { case 0: arg("-f"); arg(v); break; case 1: arg("--config"); arg(v); break; case 2: arg(cat("--config=", v)); break; } if (both) { int w = sym_choice("w", 3); if (w == 2) fill(1, "/env", 0, 0); world_env("BOXES", w == 0 ? "/nowhere" : w == 1 ? "" : "/env"); } } else world_env("BOXES", v);
  world_stdin("hi\n", 3, 0); int rc = run(); if (bad) { rejected_(rc, "a given place without configuration is an error"); sym_cover("badplace"); } else { expect(rc, 0, n); sym_cover("given"); } }
/* a parent reference to the global configuration looks at the global places only */
static void global(void) {
  int p = 5 + sym_choice("place", 5), n = p == 5 ? 0 : p > 8 ? -1 : sym_choice("name", 4), nz = sym_choice("noise", 4); world_env("XDG_CONFIG_HOME", "/x"); fill(2, DIR_[2], 0, 0); fill(3, DIR_[3], 1, 0); fill(4, DIR_[4], 2, 0);
  for (int q = 6; q < 9; q++) if (q < p && q != 8) fill(q, DIR_[q], -1, nz); else if (q == p) fill(q, DIR_[q], n, nz); if (p == 5) config("/usr/share/boxes", 5, 0, W_FILE); if (p <= 8 && sym_choice("later", 2)) later(p, 0);
  static struct buf c; bstr(&c, "parent :global:\n"); if (p > 8) cdesign(&c, "own", "own", "own", 0); put_file("/c", &c); args0(); arg("-f"); arg("/c"); arg("-d"); arg("d"); world_stdin("hi\n", 3, 0); int rc = run(); if (p > 8) { rejected_(rc, "a missing global configuration is an error"); sym_cover("noglobal"); } else { expect(rc, p, n); sym_cover("global"); } }
/* the state of every candidate is a symbolic variable; the first readable regular file in the documented order is expected */
static u8 K_[9][4];
static void states(void) {
  int sel = 2 + sym_choice("full", 6), nohome = sym_choice("nohome", 2), noxdg = sym_choice("noxdg", 2), glob = sym_choice("global", 2); sel = sel >= 5 ? sel + 1 : sel; if (nohome) world_env("HOME", 0); if (!noxdg) world_env("XDG_CONFIG_HOME", sym_choice("slash", 2) ? "/x/" : "/x");
  static const u8 all[] = {W_FILE, W_DIR, W_DENIED, W_ABSENT}, two[] = {W_FILE, W_ABSENT}, three[] = {W_FILE, W_ABSENT, W_DENIED};
  for (int q = 2; q < 9; q++) { if (q == 5) continue; for (int i = 0; i < 4; i++) { K_[q][i] = q == sel ? sym_byte("kind", (const char *) all, 4) : i == 1 && TIER ? sym_byte("kind3", (const char *) three, 3) : sym_byte("kind2", (const char *) two, 2); config(at(DIR_[q], i), q, i, K_[q][i]); } }
  static struct buf c; args0(); if (glob) { bstr(&c, "parent :global:\n"); cdesign(&c, "own", "own", "own", 0); put_file("/c", &c); arg("-f"); arg("/c"); arg("-d"); arg("d"); } world_stdin("hi\n", 3, 0); int rc = run();
  for (int q = glob ? 6 : 2; q < 9; q++) { if (q == 5 || ((q == 2 || q == 4) && nohome) || (q == 3 && noxdg)) continue; for (int i = 0; i < 4; i++) if (K_[q][i] == W_FILE) { expect(rc, q, i); sym_cover("states"); return; } }
  rejected_(rc, "no configuration anywhere is an error"); sym_cover("nostates"); }
void harness_main(void) { world_reset(); switch (sym_choice("what", 4)) { case 3: states(); break; case 0: search(); break; case 1: given(); break; case 2: global(); break; } }
