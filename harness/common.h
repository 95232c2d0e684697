/* shared by all harnesses (compiled both to bitcode for the executor and natively for replay) */
#ifndef COMMON_H
#define COMMON_H
#include "models.h"
#include <string.h>
#ifndef TIER
#define TIER 0
#endif
typedef unsigned char u8;
#define LEN(a) ((int) (sizeof(a) / sizeof(*(a))))
static const char *A_[40]; static int An_;
static void arg(const char *a) { if (!An_) A_[An_++] = "boxes"; A_[An_++] = a; }
static void args0(void) { An_ = 0; A_[An_++] = "boxes"; }
static int run(void) { return bx_run(An_, A_); }
static u8 pool_[65536]; static int pn_;
static char *sdup(const char *s, int n) { char *r = (char *) pool_ + pn_; memcpy(r, s, n); r[n] = 0; pn_ += n + 1; return r; }
static char *num(int v) { char t[12]; int n = 0, i = 0; char *r = (char *) pool_ + pn_; if (v < 0) { r[n++] = '-'; v = -v; } do { t[i++] = '0' + v % 10; v /= 10; } while (v); while (i) r[n++] = t[--i]; r[n++] = 0; pn_ += n; return r; }
static char *cat(const char *a, const char *b) { int n = strlen(a), m = strlen(b); char *r = (char *) pool_ + pn_; memcpy(r, a, n); memcpy(r + n, b, m + 1); pn_ += n + m + 1; return r; }
/* text buffer */
struct buf { u8 b[16384]; int n; };
static void bput(struct buf *t, int c) { t->b[t->n++] = (u8) c; }
static void bstr(struct buf *t, const char *s) { while (*s) t->b[t->n++] = (u8) *s++; }
static void bmem(struct buf *t, const void *p, int n) { memcpy(t->b + t->n, p, n); t->n += n; }
static void brep(struct buf *t, int c, int n) { while (n-- > 0) t->b[t->n++] = (u8) c; }
static void bsym(struct buf *t, const char *name, const char *set, int setn, int n) { while (n-- > 0) t->b[t->n++] = sym_byte(name, set, setn); }
#define SYM(t, name, set, n) bsym(t, name, set, sizeof(set) - 1, n)
static void stdin_buf(struct buf *t) { world_stdin(t->b, t->n, 0); }
#endif
