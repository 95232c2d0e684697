/* small configurations with several designs: one left border each, told apart by its shape */
#ifndef CONF_H
#define CONF_H
#include "box.h"
static int lc_(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int ieq_(const char *a, const char *b) { for (;; a++, b++) { if (lc_(*a) != lc_(*b)) return 0; if (!*a) return 1; } }
static void cdesign(struct buf *c, const char *names, const char *end, const char *shape, const char *extra) {
  bstr(c, "BOX "); bstr(c, names); bput(c, '\n'); if (extra) { bstr(c, extra); bput(c, '\n'); } bstr(c, "sample\n"); bstr(c, shape); bstr(c, "\nends\nshapes { w (\""); bstr(c, shape); bstr(c, "\") }\nelastic (w)\nEND "); bstr(c, end); bput(c, '\n'); }
static void put_file(const char *path, struct buf *b) { world_file(path, b->b, b->n, W_FILE); }
static int out_is(const struct buf *e) { int ok = (int) bx_outlen() == e->n; if (ok) for (int i = 0; i < e->n; i++) ok &= bx_out()[i] == e->b[i]; return ok; }
static int err_has(const char *s) { int m = strlen(s), n = bx_errlen(); for (int i = 0; i + m <= n; i++) if (!memcmp(bx_err() + i, s, m)) return 1; return 0; }
static int rejected_(int rc, const char *what) { sym_assert(rc == 1, what); sym_assert(bx_errlen() > 0, "a message is given"); sym_assert(bx_outlen() == 0, "no output is given"); return 0; }
/* what the program prints when a box is drawn around "hi" with a left border only */
static void expect_left(struct buf *e, const char *shape, const char *text) { e->n = 0; bstr(e, shape); bstr(e, text); bput(e, '\n'); }
#endif
