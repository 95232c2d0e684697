/* Linked into the native build of the program (ld --wrap): every path is taken below $BXROOT, and files can be made to fail on purpose. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
extern int __real_stat(const char *, struct stat *); extern int __real_access(const char *, int); extern DIR *__real_opendir(const char *);
static const char *root(void) { const char *r = getenv("BXROOT"); if (!r) { _exit(97); } return r; }
static void norm(const char *p, char *o, size_t cap) {
    size_t n = 0, i = 0; o[0] = 0;
    while (p[i]) { while (p[i] == '/') i++; size_t b = i; while (p[i] && p[i] != '/') i++; size_t l = i - b; if (!l) break; if (l == 1 && p[b] == '.') continue; if (l == 2 && p[b] == '.' && p[b + 1] == '.') { while (n && o[n] != '/') n--; o[n] = 0; continue; }
        if (n + l + 2 > cap) { errno = ENAMETOOLONG; o[0] = 0; return; } o[n++] = '/'; memcpy(o + n, p + b, l); n += l; o[n] = 0; }
    if (!n) { o[0] = '/'; o[1] = 0; } }
static int rule(const char *np) { /* kind registered for this virtual path; -1 none */
    char f[4200], l[4200]; snprintf(f, sizeof f, "%s.rules", root()); FILE *h = fopen64(f, "r"); int r = -1; if (!h) return -1;
    while (fgets(l, sizeof l, h)) { l[strcspn(l, "\n")] = 0; if (l[0] && l[1] == ' ' && !strcmp(l + 2, np)) r = l[0] - '0'; } fclose(h); return r; }
static void touched(const char *np) { char f[4200]; snprintf(f, sizeof f, "%s.written", root()); FILE *h = fopen64(f, "a"); if (h) { fprintf(h, "%s\n", np); fclose(h); } }
struct cook { FILE *f; };
static ssize_t ck_read(void *c, char *b, size_t n) { struct cook *k = c; size_t r = fread(b, 1, n, k->f); if (r) return (ssize_t) r; errno = EIO; return -1; }
static int ck_close(void *c) { struct cook *k = c; fclose(k->f); free(k); return 0; }
static FILE *failing(FILE *f) { struct cook *k = malloc(sizeof *k); k->f = f; cookie_io_functions_t io = {ck_read, 0, 0, ck_close}; return fopencookie(k, "r", io); }
FILE *__wrap_fopen(const char *p, const char *m) {
    char np[4096], rp[8300]; if (!p[0]) { errno = ENOENT; return 0; } norm(p, np, sizeof np); snprintf(rp, sizeof rp, "%s%s", root(), np); int k = rule(np);
    if (k == 2 || (k == 4 && m[0] != 'r')) { errno = EACCES; return 0; }
    if (k == 5 && m[0] != 'r') return fopen64("/dev/full", m);
    FILE *f = fopen64(rp, m); if (f && m[0] != 'r') touched(np); if (f && k == 3 && m[0] == 'r') return failing(f); return f; }
int __wrap_stat(const char *p, struct stat *st) { char np[4096], rp[8300]; if (!p[0]) { errno = ENOENT; return -1; } norm(p, np, sizeof np); snprintf(rp, sizeof rp, "%s%s", root(), np); return __real_stat(rp, st); }
int __wrap_access(const char *p, int m) { char np[4096], rp[8300]; norm(p, np, sizeof np); snprintf(rp, sizeof rp, "%s%s", root(), np); if ((m & R_OK) && rule(np) == 2) { errno = EACCES; return -1; } return __real_access(rp, m); }
DIR *__wrap_opendir(const char *p) { char np[4096], rp[8300]; norm(p, np, sizeof np); snprintf(rp, sizeof rp, "%s%s", root(), np); if (rule(np) == 2) { errno = EACCES; return 0; } return __real_opendir(rp); }
extern const char *__real_locale_charset(void);
const char *__wrap_locale_charset(void) { const char *c = getenv("BXCHARSET"); return c ? c : __real_locale_charset(); }
__attribute__((constructor)) static void init(void) { if (getenv("BXSTDINFAIL")) stdin = failing(fdopen(0, "r")); }
/* values of the clock, the process number and the like, in the order of the calls */
static int nd(void) { static const char *p; static int init; if (!init) { init = 1; p = getenv("BXND"); } if (!p || !*p) return 0; int v = atoi(p); while (*p && *p != ',') p++; if (*p) p++; return v; }
struct tv_ { long s, u; };
long __wrap_time(long *t) { long r = 1700000000L + 97 * nd(); if (t) *t = r; return r; } long __wrap_clock(void) { return 1000 + nd(); } int __wrap_getpid(void) { return 1000 + nd(); } int __wrap_getppid(void) { return 1000 + nd(); } int __wrap_rand(void) { return nd(); } long __wrap_random(void) { return nd(); } void __wrap_srand(unsigned x) { (void) x; } void __wrap_srandom(unsigned x) { (void) x; }
int __wrap_gettimeofday(struct tv_ *t, void *z) { (void) z; t->s = 1700000000L + 97 * nd(); t->u = 1; return 0; } int __wrap_clock_gettime(int c, struct tv_ *t) { (void) c; t->s = 1700000000L + 97 * nd(); t->u = 1; return 0; }
