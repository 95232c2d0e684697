/* C models of the C library, libunistring, ncurses and pcre2 as used by boxes; executed symbolically with it. */
#include "models.h"
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <sys/stat.h>
#define NORET __attribute__((noreturn))
extern void *malloc(size_t); extern void *calloc(size_t, size_t); extern void *realloc(void *, size_t); extern void free(void *);
extern void *__model_malloc(size_t); extern void __model_free(void *);
extern void exit(int) NORET; extern void abort(void) NORET;
extern void sym_unsupported(const char *) NORET; extern void sym_checkinit(const void *, size_t); extern void sym_debug(const void *, size_t);
extern long __conv_in(const void *, size_t, const char *, uint32_t *, int); extern long __conv_out(const uint32_t *, size_t, const char *, void *, size_t, int);
extern char *__strerror_native(int); extern int uc_width(uint32_t, const char *); extern int __bx_enter(int, char **); extern void __bx_leave(void);

/* ------------------------------------------------------------ errno */
static int m_errno; int *__errno_location(void) { return &m_errno; }
char *strerror(int e) { return __strerror_native(e); }

/* ------------------------------------------------------------ string.h */
char *strcpy(char *d, const char *s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d; }
char *stpcpy(char *d, const char *s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d + n; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
int strcmp(const char *a, const char *b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
static int lowc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = lowc((unsigned char) *a), y = lowc((unsigned char) *b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { int x = lowc((unsigned char) *a), y = lowc((unsigned char) *b); if (x != y) return x - y; if (!x) return 0; } return 0; }
int memcmp(const void *p, const void *q, size_t n) { const unsigned char *a = p, *b = q; for (; n; a++, b++, n--) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
int bcmp(const void *p, const void *q, size_t n) { return memcmp(p, q, n); }
void *memchr(const void *p, int c, size_t n) { const unsigned char *a = p; for (; n; a++, n--) if (*a == (unsigned char) c) return (void *) a; return 0; }
void *memrchr(const void *p, int c, size_t n) { const unsigned char *a = p; while (n--) if (a[n] == (unsigned char) c) return (void *) (a + n); return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char) c) return (char *) s; if (!*s) return 0; } }
char *strchrnul(const char *s, int c) { for (;; s++) { if (*s == (char) c || !*s) return (char *) s; } }
char *index(const char *s, int c) { return strchr(s, c); }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char) c) r = s; if (!*s) return (char *) r; } }
size_t strspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *p = a; while (*p && *p != s[n]) p++; if (!*p) break; } return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *p = a; while (*p && *p != s[n]) p++; if (*p) break; } return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *) s : 0; }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *) h; if (!*h) return 0; } }
char *strcasestr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncasecmp(h, n, l)) return (char *) h; if (!*h) return 0; } }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); memcpy(r, s, n); return r; }
char *strndup(const char *s, size_t n) { size_t l = strnlen(s, n); char *r = malloc(l + 1); memcpy(r, s, l); r[l] = 0; return r; }
static char *tokp;
char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; if (!s) return 0; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char *e = s + strcspn(s, d); if (*e) { *e = 0; *sv = e + 1; } else *sv = e; return s; }
char *strtok(char *s, const char *d) { return strtok_r(s, d, &tokp); }
char *strsep(char **sp, const char *d) { char *s = *sp; if (!s) return 0; char *e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = 0; return s; }
void *memccpy(void *d, const void *s, int c, size_t n) { unsigned char *a = d; const unsigned char *b = s; for (; n; n--) { *a++ = *b; if (*b++ == (unsigned char) c) return a; } return 0; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *) d + n; }
void bzero(void *p, size_t n) { memset(p, 0, n); }

/* ------------------------------------------------------------ stdlib */
int abs(int x) { return x < 0 ? -x : x; } long labs(long x) { return x < 0 ? -x : x; }
static int isws(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static unsigned long long str2num(const char *s, char **end, int base, int *neg, int *ovf) {
  const char *p = s; while (isws((unsigned char) *p)) p++;
  *neg = 0; *ovf = 0; if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { int c = p[2]; if ((c >= '0' && c <= '9') || (lowc(c) >= 'a' && lowc(c) <= 'f')) { p += 2; base = 16; } else if (!base) base = 8; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0; int any = 0, nd = 0;
  for (;; p++) { int c = (unsigned char) *p, d; if (c >= '0' && c <= '9') d = c - '0'; else if (lowc(c) >= 'a' && lowc(c) <= 'z') d = lowc(c) - 'a' + 10; else break; if (d >= base) break; any = 1;
    if (nd > 12 && v > (0xffffffffffffffffull - d) / (unsigned) base) *ovf = 1; else v = v * base + d; nd++; }
  if (end) *end = (char *) (any ? p : s); return v;
}
long __isoc23_strtol(const char *s, char **e, int b) { int n, o; unsigned long long v = str2num(s, e, b, &n, &o); if (o || (!n && v > 0x7fffffffffffffffull) || (n && v > 0x8000000000000000ull)) { m_errno = ERANGE; return n ? (long) 0x8000000000000000ull : 0x7fffffffffffffffl; } return n ? (long) (0 - v) : (long) v; }
long strtol(const char *s, char **e, int b) { return __isoc23_strtol(s, e, b); }
long long strtoll(const char *s, char **e, int b) { return __isoc23_strtol(s, e, b); } long long __isoc23_strtoll(const char *s, char **e, int b) { return __isoc23_strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { int n, o; unsigned long long v = str2num(s, e, b, &n, &o); if (o) { m_errno = ERANGE; return ~0ul; } return n ? 0 - v : v; }
unsigned long strtoul(const char *s, char **e, int b) { return __isoc23_strtoul(s, e, b); } unsigned long long strtoull(const char *s, char **e, int b) { return __isoc23_strtoul(s, e, b); } unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return __isoc23_strtoul(s, e, b); }
int atoi(const char *s) { return (int) __isoc23_strtol(s, 0, 10); } long atol(const char *s) { return __isoc23_strtol(s, 0, 10); }
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { /* stable insertion */
  char *b = base; if (sz > 256) sym_unsupported("qsort element size"); char tmp[256];
  for (size_t i = 1; i < n; i++) { size_t j = i; while (j > 0 && cmp(b + (j - 1) * sz, b + i * sz) > 0) j--; if (j != i) { memcpy(tmp, b + i * sz, sz); memmove(b + (j + 1) * sz, b + j * sz, (i - j) * sz); memcpy(b + j * sz, tmp, sz); } } }
void *bsearch(const void *k, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { const char *b = base; size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; int c = cmp(k, b + m * sz); if (!c) return (void *) (b + m * sz); if (c < 0) hi = m; else lo = m + 1; } return 0; }
int atexit(void (*f)(void)) { (void) f; return 0; }

/* ------------------------------------------------------------ world */
struct wfile { char path[200]; const unsigned char *data; size_t len; int kind; unsigned char *out; size_t outlen, outcap; int written; };
static struct wfile wf[64]; static int nwf; static struct { const char *n, *v; } wenv[16]; static int nenv; static const char *wcharset = "UTF-8";
typedef struct { int open, writer; const unsigned char *data; size_t len, pos; int err, eof, failing; struct wfile *wf; unsigned char *out; size_t outlen, outcap; int isout, ungot, full; } MF;
static MF mf[64]; static int nmf; static MF m_in, m_outf, m_errf;
struct _IO_FILE; typedef struct _IO_FILE FILE; FILE *stdin = (FILE *) &m_in, *stdout = (FILE *) &m_outf, *stderr = (FILE *) &m_errf;

static void normpath(const char *p, char *o) { /* absolute, no //, /./, /../ */
  size_t n = 0; size_t i = 0; o[0] = 0;
  while (p[i]) { while (p[i] == '/') i++; size_t b = i; while (p[i] && p[i] != '/') i++; size_t l = i - b; if (!l) break; if (l == 1 && p[b] == '.') continue; if (l == 2 && p[b] == '.' && p[b + 1] == '.') { while (n && o[n] != '/') n--; o[n] = 0; continue; } if (n + l + 2 > 199) sym_unsupported("path too long"); o[n++] = '/'; for (size_t k = 0; k < l; k++) o[n++] = p[b + k]; o[n] = 0; }
  if (!n) { o[0] = '/'; o[1] = 0; } }
static struct wfile *wslot(const char *p) { char b[200]; normpath(p, b); for (int i = 0; i < nwf; i++) if (!strcmp(wf[i].path, b)) return &wf[i]; return 0; }
static struct wfile *wfind(const char *p) { struct wfile *f = wslot(p); return f && f->kind == W_ABSENT ? 0 : f; }
static int isparent(const char *d) { size_t n = strlen(d); if (n == 1 && d[0] == '/') return 1; for (int i = 0; i < nwf; i++) if (!strncmp(wf[i].path, d, n) && wf[i].path[n] == '/' && wf[i].kind != W_ABSENT) return 1; return 0; }
static int wfull; void world_reset(void) { wfull = 0; nwf = 0; nenv = 0; wcharset = "UTF-8"; nmf = 0; m_in.data = 0; m_in.len = 0; m_in.failing = 0; m_in.open = 1; world_env("TERM", "xterm-color"); world_env("HOME", "/home/u"); }
void world_file(const char *path, const void *data, size_t len, int kind) {
  struct wfile *f = wslot(path); if (!f) { if (nwf >= 64) sym_unsupported("too many files"); f = &wf[nwf++]; normpath(path, f->path); }
  f->data = data; f->len = len; f->kind = kind; f->out = 0; f->outlen = f->outcap = 0; f->written = 0; }
void world_env(const char *n, const char *v) { for (int i = 0; i < nenv; i++) if (!strcmp(wenv[i].n, n)) { wenv[i].v = v; return; } if (nenv >= 16) sym_unsupported("env"); wenv[nenv].n = n; wenv[nenv++].v = v; }
void world_stdin(const void *d, size_t n, int failing) { m_in.data = d; m_in.len = n; m_in.failing = failing; m_in.open = 1; }
void world_charset(const char *cs) { wcharset = cs; }
static int wfull; void world_stdout_full(int on) { wfull = on; }
char *getenv(const char *n) { for (int i = 0; i < nenv; i++) if (!strcmp(wenv[i].n, n)) return (char *) wenv[i].v; return 0; }
char *secure_getenv(const char *n) { return getenv(n); }
char *setlocale(int c, const char *l) { (void) c; (void) l; return (char *) "C.UTF-8"; }
const char *locale_charset(void) { return wcharset; }
char *nl_langinfo(int i) { (void) i; return (char *) wcharset; }
static int tcolors;
static void eputs(const char *s);
int setupterm(const char *t, int fd, int *err) { (void) fd; if (!t) t = getenv("TERM");
  if (!t) t = ""; if (!strcmp(t, "xterm-color") || !strcmp(t, "xterm") || !strcmp(t, "linux")) tcolors = 8; else if (!strcmp(t, "xterm-256color")) tcolors = 256; else if (!strcmp(t, "dumb") || !strcmp(t, "vt100")) tcolors = -1;
  else { tcolors = -1; if (err) { *err = 0; return -1; } eputs("'"); eputs(t); eputs("': unknown terminal type.\n"); exit(1); }
  if (err) *err = 1; return 0; }
int tigetnum(const char *n) { if (!strcmp(n, "colors")) return tcolors; return -2; }
int isatty(int fd) { (void) fd; m_errno = 25; return 0; } int fileno(FILE *f) { return f == stdin ? 0 : f == stdout ? 1 : f == stderr ? 2 : 3; }

/* ------------------------------------------------------------ stdio */
static void oput(MF *f, int c) {
  if (f->full) { if (++f->full > 4096) f->err = 1; return; }
  unsigned char **b = f->wf ? &f->wf->out : &f->out; size_t *n = f->wf ? &f->wf->outlen : &f->outlen, *cap = f->wf ? &f->wf->outcap : &f->outcap;
  if (*n + 1 > *cap) { size_t nc = *cap ? *cap * 2 : 2048; unsigned char *x = __model_malloc(nc); if (*n) memcpy(x, *b, *n); if (*b) __model_free(*b); *b = x; *cap = nc; }
  (*b)[(*n)++] = (unsigned char) c; }
static void oputn(MF *f, const char *s, size_t n) {
  if (f->full) { f->full += (int) n; if (f->full > 4096) f->err = 1; return; }
  unsigned char **b = f->wf ? &f->wf->out : &f->out; size_t *l = f->wf ? &f->wf->outlen : &f->outlen, *cap = f->wf ? &f->wf->outcap : &f->outcap;
  if (*l + n > *cap) { size_t nc = *cap ? *cap : 2048; while (nc < *l + n) nc *= 2; unsigned char *x = __model_malloc(nc); if (*l) memcpy(x, *b, *l); if (*b) __model_free(*b); *b = x; *cap = nc; }
  memcpy(*b + *l, s, n); *l += n; }
static void eputs(const char *s) { oputn(&m_errf, s, strlen(s)); }
FILE *fopen(const char *p, const char *mode) {
  if (!p[0]) { m_errno = ENOENT; return 0; }
  struct wfile *w = wfind(p); char nb[200]; normpath(p, nb);
  if (nmf >= 64) sym_unsupported("too many open files");
  if (mode[0] == 'r') {
    if (!w && isparent(nb)) { world_file(nb, 0, 0, W_DIR); w = wfind(p); }
    if (!w) { m_errno = ENOENT; return 0; } if (w->kind == W_DENIED) { m_errno = EACCES; return 0; }
    MF *f = &mf[nmf++]; memset(f, 0, sizeof *f); f->open = 1; f->data = w->written ? w->out : w->data; f->len = w->written ? w->outlen : w->len; if (w->kind == W_DIR) { f->len = 0; f->failing = EISDIR; } if (w->kind == W_FAILING) f->failing = EIO; f->wf = 0; return (FILE *) f;
  }
  if (w && w->kind == W_DIR) { m_errno = EISDIR; return 0; } if (w && (w->kind == W_DENIED || w->kind == W_NOWRITE)) { m_errno = EACCES; return 0; }
  if (!w) { /* parent directory must exist */ char d[200]; strcpy(d, nb); char *sl = strrchr(d, '/'); *sl = 0; if (d[0] && !isparent(d)) { struct wfile *dw = wfind(d); if (!dw || dw->kind != W_DIR) { m_errno = ENOENT; return 0; } } world_file(nb, 0, 0, W_FILE); w = wfind(p); }
  MF *f = &mf[nmf++]; memset(f, 0, sizeof *f); f->open = 1; f->writer = 1; f->wf = w; f->full = w->kind == W_FULL; if (mode[0] == 'w') { w->outlen = 0; } else if (!w->written) { f->wf = w; for (size_t i = 0; i < w->len; i++) oput(f, w->data[i]); } w->written = w->kind != W_FULL; return (FILE *) f;
}
int fclose(FILE *p) { MF *f = (MF *) p; if (!f->open) { *(volatile char *) 1; abort(); } f->open = 0; if (f->full > 1) { m_errno = ENOSPC; return -1; } return 0; }
int fflush(FILE *p) { MF *f = (MF *) p; if (!f) return 0; if (f->full > 1) { f->full = 1; f->err = 1; m_errno = ENOSPC; return -1; } return 0; }
static int rd1(MF *f) { if (f->ungot) { int c = f->ungot - 1; f->ungot = 0; return c; } if (f->writer) { f->err = 1; m_errno = EBADF; return -1; } if (f->pos < f->len) return f->data[f->pos++]; if (f->failing) { f->err = 1; m_errno = f->failing; return -1; } f->eof = 1; return -1; }
int getc(FILE *p) { return rd1((MF *) p); } int fgetc(FILE *p) { return rd1((MF *) p); } int getchar(void) { return rd1(&m_in); } int _IO_getc(FILE *p) { return rd1((MF *) p); }
int ungetc(int c, FILE *p) { ((MF *) p)->ungot = c + 1; ((MF *) p)->eof = 0; return c; }
char *fgets(char *b, int n, FILE *p) { MF *f = (MF *) p; int i = 0; if (n <= 0) return 0; while (i < n - 1) { int c = rd1(f); if (c < 0) { if (f->err) return 0; break; } b[i++] = (char) c; if (c == '\n') break; } if (!i) return 0; b[i] = 0; return b; }
size_t fread(void *b, size_t sz, size_t n, FILE *p) { MF *f = (MF *) p; size_t want = sz * n, got = 0; if (!want) return 0; while (got < want) { int c = rd1(f); if (c < 0) break; ((unsigned char *) b)[got++] = (unsigned char) c; } return got / sz; }
long getline(char **lp, size_t *np, FILE *p) { MF *f = (MF *) p; size_t n = 0; if (!*lp || !*np) { *np = 120; *lp = realloc(*lp, 120); } for (;;) { int c = rd1(f); if (c < 0) break; if (n + 2 > *np) { *np *= 2; *lp = realloc(*lp, *np); } (*lp)[n++] = (char) c; if (c == '\n') break; } if (!n) return -1; (*lp)[n] = 0; return (long) n; }
int ferror(FILE *p) { return ((MF *) p)->err; } int feof(FILE *p) { return ((MF *) p)->eof; } void clearerr(FILE *p) { ((MF *) p)->err = ((MF *) p)->eof = 0; }
int fputc(int c, FILE *p) { oput((MF *) p, c); return (unsigned char) c; } int putc(int c, FILE *p) { return fputc(c, p); } int putchar(int c) { return fputc(c, stdout); }
int fputs(const char *s, FILE *p) { oputn((MF *) p, s, strlen(s)); return 1; } int puts(const char *s) { fputs(s, stdout); oput(&m_outf, '\n'); return 1; }
size_t fwrite(const void *b, size_t sz, size_t n, FILE *p) { if (sz * n) oputn((MF *) p, b, sz * n); return n; }
void perror(const char *s) { int e = m_errno; if (s && *s) { eputs(s); eputs(": "); } eputs(strerror(e)); eputs("\n"); }

/* formatted output: to a stream, a bounded char buffer or a bounded u32 buffer */
struct sink { int kind; MF *f; char *b; uint32_t *u; size_t cap, n; };
static void sk(struct sink *s, uint32_t c) { if (s->kind == 0) { oput(s->f, (int) c); s->n++; return; } if (s->n < s->cap) { if (s->kind == 1) s->b[s->n] = (char) c; else s->u[s->n] = c; } s->n++; }
static void skpad(struct sink *s, int n, int c) { while (n-- > 0) sk(s, c); }
static void vfmt(struct sink *s, const char *f, va_list va) {
  for (; *f; f++) {
    if (*f != '%') { sk(s, (unsigned char) *f); continue; }
    f++; int left = 0, zero = 0, plus = 0, space = 0, alt = 0, width = 0, prec = -1, lng = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else if (*f == '#') alt = 1; else break; }
    if (*f == '*') { width = va_arg(va, int); f++; if (width < 0) { left = 1; width = -width; } } else while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(va, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
    for (;; f++) { if (*f == 'l') lng++; else if (*f == 'z' || *f == 'j' || *f == 't') lng = 2; else if (*f == 'h') lng--; else break; }
    char c = *f;
    if (c == '%') { sk(s, '%'); continue; }
    if (c == 'c') { int v = va_arg(va, int); if (!left) skpad(s, width - 1, ' '); sk(s, (unsigned char) v); if (left) skpad(s, width - 1, ' '); continue; }
    if (c == 's') { const char *p = va_arg(va, const char *); if (!p) p = "(null)"; size_t n = prec >= 0 ? strnlen(p, prec) : strlen(p); if (!left) skpad(s, width - (int) n, ' '); if (s->kind == 0) { oputn(s->f, p, n); s->n += n; } else for (size_t i = 0; i < n; i++) sk(s, (unsigned char) p[i]); if (left) skpad(s, width - (int) n, ' '); continue; }
    if (c == 'U' && s->kind == 2) { const uint32_t *p = va_arg(va, const uint32_t *); size_t n = 0; while (p[n]) n++; if (!left) skpad(s, width - (int) n, ' '); for (size_t i = 0; i < n; i++) sk(s, p[i]); if (left) skpad(s, width - (int) n, ' '); continue; }
    if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o' || c == 'p') {
      unsigned long v; int neg = 0; unsigned base = (c == 'x' || c == 'X' || c == 'p') ? 16 : c == 'o' ? 8 : 10; char buf[32]; int n = 0;
      if (c == 'p') { v = (unsigned long) va_arg(va, void *); alt = 1; if (!v) { for (const char *q = "(nil)"; *q; q++) sk(s, *q); continue; } }
      else if (c == 'd' || c == 'i') { long x = lng > 0 ? va_arg(va, long) : va_arg(va, int); if (x < 0) { neg = 1; v = 0ul - (unsigned long) x; } else v = x; }
      else v = lng > 0 ? va_arg(va, unsigned long) : va_arg(va, unsigned);
      unsigned long v0 = v;
      if (v == 0 && prec != 0) buf[n++] = '0';
      while (v) { unsigned d = v % base; buf[n++] = d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + d - 10; v /= base; }
      while (n < prec && n < 31) buf[n++] = '0';
      char pre[3]; int np = 0; if (neg) pre[np++] = '-'; else if ((c == 'd' || c == 'i') && plus) pre[np++] = '+'; else if ((c == 'd' || c == 'i') && space) pre[np++] = ' '; if (alt && base == 16 && v0) { pre[np++] = '0'; pre[np++] = c == 'X' ? 'X' : 'x'; }
      int tot = n + np; if (!left && !(zero && prec < 0)) skpad(s, width - tot, ' '); for (int i = 0; i < np; i++) sk(s, pre[i]); if (!left && zero && prec < 0) skpad(s, width - tot, '0'); while (n) sk(s, buf[--n]); if (left) skpad(s, width - tot, ' '); continue;
    }
    if (c == 'f' || c == 'g' || c == 'e') { double d = va_arg(va, double); int pr = prec < 0 ? 6 : prec; if (c != 'f') sym_unsupported("float format"); if (d < 0) { sk(s, '-'); d = -d; } double sc = 1; for (int i = 0; i < pr; i++) sc *= 10; unsigned long w = (unsigned long) (d * sc + 0.5); unsigned long ip = w / (unsigned long) sc, fp = w % (unsigned long) sc; char b[32]; int n = 0; for (int i = 0; i < pr; i++) { b[n++] = '0' + fp % 10; fp /= 10; } if (pr) b[n++] = '.'; if (!ip) b[n++] = '0'; while (ip) { b[n++] = '0' + ip % 10; ip /= 10; } skpad(s, width - n, ' '); while (n) sk(s, b[--n]); continue; }
    sym_unsupported("printf format");
  }
}
int vfprintf(FILE *p, const char *f, va_list va) { struct sink s = {0, (MF *) p, 0, 0, 0, 0}; vfmt(&s, f, va); return (int) s.n; }
int vprintf(const char *f, va_list va) { return vfprintf(stdout, f, va); }
int fprintf(FILE *p, const char *f, ...) { va_list va; va_start(va, f); int r = vfprintf(p, f, va); va_end(va); return r; }
int printf(const char *f, ...) { va_list va; va_start(va, f); int r = vfprintf(stdout, f, va); va_end(va); return r; }
int vsnprintf(char *b, size_t n, const char *f, va_list va) { struct sink s = {1, 0, b, 0, n ? n - 1 : 0, 0}; vfmt(&s, f, va); if (n) b[s.n < n - 1 ? s.n : n - 1] = 0; return (int) s.n; }
int snprintf(char *b, size_t n, const char *f, ...) { va_list va; va_start(va, f); int r = vsnprintf(b, n, f, va); va_end(va); return r; }
int vsprintf(char *b, const char *f, va_list va) { struct sink s = {1, 0, b, 0, 0x7fffffff, 0}; vfmt(&s, f, va); b[s.n] = 0; return (int) s.n; }
int sprintf(char *b, const char *f, ...) { va_list va; va_start(va, f); int r = vsprintf(b, f, va); va_end(va); return r; }
int vasprintf(char **o, const char *f, va_list va) { va_list v2; va_copy(v2, va); int n = vsnprintf(0, 0, f, v2); va_end(v2); *o = malloc(n + 1); return vsnprintf(*o, n + 1, f, va); }
int asprintf(char **o, const char *f, ...) { va_list va; va_start(va, f); int r = vasprintf(o, f, va); va_end(va); return r; }
int u32_vsnprintf(uint32_t *b, size_t n, const char *f, va_list va) { struct sink s = {2, 0, 0, b, n ? n - 1 : 0, 0}; vfmt(&s, f, va); if (n) b[s.n < n - 1 ? s.n : n - 1] = 0; return (int) s.n; }
int u32_snprintf(uint32_t *b, size_t n, const char *f, ...) { va_list va; va_start(va, f); int r = u32_vsnprintf(b, n, f, va); va_end(va); return r; }

/* ------------------------------------------------------------ file system */
int stat(const char *p, struct stat *st) { if (!p[0]) { m_errno = ENOENT; return -1; } char nb[200]; normpath(p, nb); struct wfile *w = wfind(p); memset(st, 0, sizeof *st); if (!w) { if (isparent(nb)) { st->st_mode = S_IFDIR | 0755; return 0; } m_errno = ENOENT; return -1; } st->st_mode = w->kind == W_DIR ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = (long) w->len; return 0; }
int lstat(const char *p, struct stat *st) { return stat(p, st); }
int access(const char *p, int m) { (void) m; struct stat st; if (stat(p, &st)) return -1; struct wfile *w = wfind(p); if (w && w->kind == W_DENIED && (m & 4)) { m_errno = EACCES; return -1; } return 0; }
struct __dirstream; static char dirdummy[8];
struct __dirstream *opendir(const char *p) { struct stat st; struct wfile *w = wfind(p); if (stat(p, &st)) return 0; if (!S_ISDIR(st.st_mode)) { m_errno = ENOTDIR; return 0; } if (w && w->kind == W_DENIED) { m_errno = EACCES; return 0; } return (struct __dirstream *) dirdummy; }
int closedir(struct __dirstream *d) { (void) d; return 0; }

/* ------------------------------------------------------------ getopt_long (GNU behaviour) */
struct option { const char *name; int has_arg; int *flag; int val; };
char *optarg; int optind = 1, opterr = 1, optopt = '?'; static char *nextchar; static int first_nonopt, last_nonopt, ordering, goinit;
static void exchange(char **argv) { int b = first_nonopt, m = last_nonopt, t = optind; /* move options before non-options */
  for (int i = m; i < t; i++) { char *x = argv[i]; for (int j = i; j > b + (i - m); j--) argv[j] = argv[j - 1]; argv[b + (i - m)] = x; }
  first_nonopt += optind - last_nonopt; last_nonopt = optind; }
static void gerr(const char *a0, const char *m, const char *x, const char *m2) { if (opterr) { eputs(a0); eputs(": "); eputs(m); eputs(x); eputs(m2); eputs("\n"); } }
int getopt_long(int argc, char *const *av, const char *so, const struct option *lo, int *li) {
  char **argv = (char **) av; if (argc < 1) return -1; optarg = 0;
  if (optind == 0 || !goinit) { if (optind == 0) optind = 1; first_nonopt = last_nonopt = optind; nextchar = 0; ordering = so[0] == '-' ? 2 : (so[0] == '+' || getenv("POSIXLY_CORRECT")) ? 1 : 0; goinit = 1; }
  if (so[0] == '-' || so[0] == '+') so++;
  int quiet = so[0] == ':'; int saveerr = opterr; if (quiet) opterr = 0;
  int ret;
  if (!nextchar || !*nextchar) {
    if (last_nonopt > optind) last_nonopt = optind; if (first_nonopt > optind) first_nonopt = optind;
    if (ordering == 0) { if (first_nonopt != last_nonopt && last_nonopt != optind) exchange(argv); else if (last_nonopt != optind) first_nonopt = optind; while (optind < argc && (argv[optind][0] != '-' || !argv[optind][1])) optind++; last_nonopt = optind; }
    if (optind != argc && !strcmp(argv[optind], "--")) { optind++; if (first_nonopt != last_nonopt && last_nonopt != optind) exchange(argv); else if (first_nonopt == last_nonopt) first_nonopt = optind; last_nonopt = argc; optind = argc; }
    if (optind == argc) { if (first_nonopt != last_nonopt) optind = first_nonopt; ret = -1; goto out; }
    if (argv[optind][0] != '-' || !argv[optind][1]) { if (ordering == 1) { ret = -1; goto out; } optarg = argv[optind++]; ret = 1; goto out; }
    if (lo && argv[optind][1] == '-') {
      nextchar = argv[optind] + 2; char *e = nextchar; while (*e && *e != '=') e++; size_t nl = e - nextchar; const struct option *hit = 0; int hi = -1, exact = 0, ambig = 0;
      for (int i = 0; lo[i].name; i++) if (!strncmp(lo[i].name, nextchar, nl)) { if (nl == strlen(lo[i].name)) { hit = &lo[i]; hi = i; exact = 1; break; } if (!hit) { hit = &lo[i]; hi = i; } else if (hit->has_arg != lo[i].has_arg || hit->flag != lo[i].flag || hit->val != lo[i].val) ambig = 1; }
      if (ambig && !exact) { if (opterr) { eputs(argv[0]); eputs(": option '--"); eputs(nextchar); eputs("' is ambiguous; possibilities:"); for (int i = 0; lo[i].name; i++) if (!strncmp(lo[i].name, nextchar, nl)) { eputs(" '--"); eputs(lo[i].name); eputs("'"); } eputs("\n"); } nextchar = 0; optind++; optopt = 0; ret = '?'; goto out; }
      if (!hit) { gerr(argv[0], "unrecognized option '--", nextchar, "'"); nextchar = 0; optind++; optopt = 0; ret = '?'; goto out; }
      optind++; nextchar = 0;
      if (*e) { if (hit->has_arg) optarg = e + 1; else { gerr(argv[0], "option '--", hit->name, "' doesn't allow an argument"); optopt = hit->val; ret = '?'; goto out; } }
      else if (hit->has_arg == 1) { if (optind < argc) optarg = argv[optind++]; else { gerr(argv[0], "option '--", hit->name, "' requires an argument"); optopt = hit->val; ret = quiet ? ':' : '?'; goto out; } }
      if (li) *li = hi; if (hit->flag) { *hit->flag = hit->val; ret = 0; goto out; } ret = hit->val; goto out;
    }
    nextchar = argv[optind] + 1;
  }
  { char c = *nextchar++; const char *t = strchr(so, c); if (!*nextchar) optind++;
    if (!t || c == ':' || c == ';') { char b[2] = {c, 0}; gerr(argv[0], "invalid option -- '", b, "'"); optopt = c; ret = '?'; goto out; }
    if (t[1] == ':') {
      if (t[2] == ':') { if (*nextchar) { optarg = nextchar; optind++; } else optarg = 0; nextchar = 0; }
      else { if (*nextchar) { optarg = nextchar; optind++; } else if (optind == argc) { char b[2] = {c, 0}; gerr(argv[0], "option requires an argument -- '", b, "'"); optopt = c; nextchar = 0; ret = quiet ? ':' : '?'; goto out; } else optarg = argv[optind++]; nextchar = 0; }
    }
    ret = c; }
out: if (quiet) opterr = saveerr; return ret; }
int getopt(int argc, char *const *av, const char *so) { return getopt_long(argc, av, so, 0, 0); }

/* ------------------------------------------------------------ libunistring u32 */
uint32_t *u32_cpy(uint32_t *d, const uint32_t *s, size_t n) { if (n) memcpy(d, s, n * 4); return d; }
uint32_t *u32_move(uint32_t *d, const uint32_t *s, size_t n) { if (n) memmove(d, s, n * 4); return d; }
uint32_t *u32_set(uint32_t *d, uint32_t c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
int u32_cmp(const uint32_t *a, const uint32_t *b, size_t n) { for (; n; a++, b++, n--) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
uint32_t *u32_strcpy(uint32_t *d, const uint32_t *s) { extern size_t u32_strlen(const uint32_t *); memcpy(d, s, (u32_strlen(s) + 1) * 4); return d; }
extern size_t u32_strlen(const uint32_t *);
uint32_t *u32_stpcpy(uint32_t *d, const uint32_t *s) { size_t n = u32_strlen(s); memcpy(d, s, (n + 1) * 4); return d + n; }
uint32_t *u32_strcat(uint32_t *d, const uint32_t *s) { u32_strcpy(d + u32_strlen(d), s); return d; }
uint32_t *u32_strncat(uint32_t *d, const uint32_t *s, size_t n) { uint32_t *e = d + u32_strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
uint32_t *u32_strncpy(uint32_t *d, const uint32_t *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
int u32_strcmp(const uint32_t *a, const uint32_t *b) { for (;; a++, b++) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; } }
int u32_strncmp(const uint32_t *a, const uint32_t *b, size_t n) { for (; n; a++, b++, n--) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; } return 0; }
size_t u32_strnlen(const uint32_t *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
uint32_t *u32_strdup(const uint32_t *s) { size_t n = u32_strlen(s) + 1; uint32_t *r = malloc(n * 4); memcpy(r, s, n * 4); return r; }
uint32_t *u32_cpy_alloc(const uint32_t *s, size_t n) { uint32_t *r = malloc(n ? n * 4 : 1); if (n) memcpy(r, s, n * 4); return r; }
uint32_t *u32_chr(const uint32_t *s, size_t n, uint32_t c) { for (; n; s++, n--) if (*s == c) return (uint32_t *) s; return 0; }
uint32_t *u32_strchr(const uint32_t *s, uint32_t c) { for (;; s++) { if (*s == c) return (uint32_t *) s; if (!*s) return 0; } }
uint32_t *u32_strrchr(const uint32_t *s, uint32_t c) { const uint32_t *r = 0; for (;; s++) { if (*s == c) r = s; if (!*s) return (uint32_t *) r; } }
uint32_t *u32_strstr(const uint32_t *h, const uint32_t *n) { size_t l = u32_strlen(n); for (;; h++) { if (!u32_strncmp(h, n, l)) return (uint32_t *) h; if (!*h) return 0; } }
size_t u32_strspn(const uint32_t *s, const uint32_t *a) { size_t n = 0; for (; s[n]; n++) { const uint32_t *p = a; while (*p && *p != s[n]) p++; if (!*p) break; } return n; }
size_t u32_strcspn(const uint32_t *s, const uint32_t *a) { size_t n = 0; for (; s[n]; n++) { const uint32_t *p = a; while (*p && *p != s[n]) p++; if (*p) break; } return n; }
const uint32_t *u32_next(uint32_t *pc, const uint32_t *s) { uint32_t c = *s; if (c < 0xd800 || (c >= 0xe000 && c < 0x110000)) { *pc = c; return c ? s + 1 : 0; } *pc = 0xfffd; return s + 1; }
const uint32_t *u32_prev(uint32_t *pc, const uint32_t *s, const uint32_t *st) { if (s == st) return 0; uint32_t c = s[-1]; if (c < 0xd800 || (c >= 0xe000 && c < 0x110000)) { *pc = c; return s - 1; } return 0; }
int u32_strmbtouc(uint32_t *pc, const uint32_t *s) { uint32_t c = *s; if (c < 0xd800 || (c >= 0xe000 && c < 0x110000)) { *pc = c; return c != 0; } return -1; }
int u32_strwidth(const uint32_t *s, const char *enc) { int w = 0; for (; *s; s++) { int k = uc_width(*s, enc); if (k >= 0) w += k; } return w; }
int u32_width(const uint32_t *s, size_t n, const char *enc) { int w = 0; for (; n && *s; s++, n--) { int k = uc_width(*s, enc); if (k >= 0) w += k; } return w; }
/* like libunistring: the terminating NUL is converted too, and the result must contain exactly one NUL, at its end */
uint32_t *u32_strconv_from_encoding(const char *s, const char *enc, int h) { size_t n = strlen(s) + 1; uint32_t *r = malloc(n * 4); long k = __conv_in(s, n, enc, r, h); if (k < 0) { m_errno = (int) -k; free(r); return 0; } if (k == 0 || r[k - 1] != 0 || u32_strlen(r) != k - 1) { m_errno = 84; free(r); return 0; } return r; }
char *u32_strconv_to_encoding(const uint32_t *s, const char *enc, int h) { size_t n = u32_strlen(s) + 1; char *r = malloc(n * 8 + 8); long k = __conv_out(s, n, enc, r, n * 8 + 7, h); if (k < 0) { m_errno = (int) -k; free(r); return 0; } if (k == 0 || r[k - 1] != 0 || strlen(r) != k - 1) { m_errno = 84; free(r); return 0; } char *q = malloc(k); memcpy(q, r, k); free(r); return q; }
uint32_t *u32_strconv_from_locale(const char *s) { return u32_strconv_from_encoding(s, wcharset, 1); }
char *u32_strconv_to_locale(const uint32_t *s) { return u32_strconv_to_encoding(s, wcharset, 1); }

/* ------------------------------------------------------------ pcre2 (32 bit, no UTF, default options) */
enum { N_CHAR, N_ANY, N_CLASS, N_BOL, N_EOL, N_GROUP, N_LOOK, N_WORDB, N_NWORDB, N_BACKREF, N_ENDZ, N_ENDz, N_BEGA };
struct alt { int first; int next; };               /* list of sequences */
struct node { int kind; uint32_t c; int neg; int cls; int nranges; int next; int min, max, lazy, poss; int alts; int cap; int behind; };
struct re { struct node n[96]; int nn; struct alt a[48]; int na; uint32_t r[256]; int nr; int root; int ncap; };
struct rp { struct re *r; const uint32_t *p; size_t i, n; int err; };
static int rp_alts(struct rp *P);
static void rp_range(struct rp *P, struct node *N, uint32_t a, uint32_t b) { if (P->r->nr + 2 > 256) sym_unsupported("regex class size"); P->r->r[P->r->nr++] = a; P->r->r[P->r->nr++] = b; N->nranges++; }
static int hexv(uint32_t c) { if (c >= '0' && c <= '9') return c - '0'; c |= 32; if (c >= 'a' && c <= 'f') return c - 'a' + 10; return -1; }
/* escape: returns 1 and *c for a literal, 2 when ranges have been added to N, else 0 */
static int rp_escape(struct rp *P, struct node *N, uint32_t *c) {
  uint32_t e = P->p[P->i++];
  switch (e) {
    case 'n': *c = 10; return 1; case 't': *c = 9; return 1; case 'r': *c = 13; return 1; case 'f': *c = 12; return 1; case 'e': *c = 27; return 1; case 'a': *c = 7; return 1;
    case 'x': { uint32_t v = 0; if (P->i < P->n && P->p[P->i] == '{') { P->i++; while (P->i < P->n && P->p[P->i] != '}') { int h = hexv(P->p[P->i++]); if (h < 0) { P->err = 1; return 0; } v = v * 16 + h; } P->i++; } else { for (int k = 0; k < 2 && P->i < P->n && hexv(P->p[P->i]) >= 0; k++) v = v * 16 + hexv(P->p[P->i++]); } *c = v; return 1; }
    case 'd': rp_range(P, N, '0', '9'); return 2; case 'w': rp_range(P, N, '0', '9'); rp_range(P, N, 'A', 'Z'); rp_range(P, N, '_', '_'); rp_range(P, N, 'a', 'z'); return 2;
    case 's': rp_range(P, N, 9, 13); rp_range(P, N, 32, 32); return 2; case 'h': rp_range(P, N, 9, 9); rp_range(P, N, 32, 32); rp_range(P, N, 0xa0, 0xa0); return 2;
    case 'D': rp_range(P, N, 0, '0' - 1); rp_range(P, N, '9' + 1, 0xffffffffu); return 2; case 'S': rp_range(P, N, 0, 8); rp_range(P, N, 14, 31); rp_range(P, N, 33, 0xffffffffu); return 2;
    case 'W': rp_range(P, N, 0, '0' - 1); rp_range(P, N, '9' + 1, 'A' - 1); rp_range(P, N, 'Z' + 1, '_' - 1); rp_range(P, N, '_' + 1, 'a' - 1); rp_range(P, N, 'z' + 1, 0xffffffffu); return 2;
    default: if ((e >= 'a' && e <= 'z') || (e >= 'A' && e <= 'Z') || (e >= '0' && e <= '9')) sym_unsupported("regex escape"); *c = e; return 1;
  }
}
static int rp_new(struct rp *P, int kind) { if (P->r->nn >= 96) sym_unsupported("regex too large"); struct node *N = &P->r->n[P->r->nn]; memset(N, 0, sizeof *N); N->kind = kind; N->next = -1; N->min = N->max = 1; N->alts = -1; N->cap = -1; return P->r->nn++; }
static int rp_atom(struct rp *P) {
  uint32_t c = P->p[P->i++]; int k;
  switch (c) {
    case '.': return rp_new(P, N_ANY); case '^': return rp_new(P, N_BOL); case '$': return rp_new(P, N_EOL);
    case '[': { k = rp_new(P, N_CLASS); struct node *N = &P->r->n[k]; N->cls = P->r->nr; if (P->i < P->n && P->p[P->i] == '^') { N->neg = 1; P->i++; } int first = 1;
      for (;;) { if (P->i >= P->n) { P->err = 1; return k; } uint32_t x = P->p[P->i++]; if (x == ']' && !first) break; first = 0;
        if (x == '[' && P->i < P->n && P->p[P->i] == ':') { /* posix class */ char nm[12]; int q = 0; P->i++; int ng = 0; if (P->p[P->i] == '^') { ng = 1; P->i++; } while (P->i < P->n && P->p[P->i] != ':' && q < 11) nm[q++] = (char) P->p[P->i++]; nm[q] = 0; P->i += 2; if (ng) sym_unsupported("regex class"); if (!strcmp(nm, "space")) { rp_range(P, N, 9, 13); rp_range(P, N, 32, 32); } else if (!strcmp(nm, "digit")) rp_range(P, N, '0', '9'); else if (!strcmp(nm, "alpha")) { rp_range(P, N, 'a', 'z'); rp_range(P, N, 'A', 'Z'); } else if (!strcmp(nm, "alnum")) { rp_range(P, N, 'a', 'z'); rp_range(P, N, 'A', 'Z'); rp_range(P, N, '0', '9'); } else sym_unsupported("regex class"); continue; }
        if (x == '\\') { int r = rp_escape(P, N, &x); if (r != 1) continue; }
        uint32_t y = x; if (P->i + 1 < P->n && P->p[P->i] == '-' && P->p[P->i + 1] != ']') { P->i++; y = P->p[P->i++]; if (y == '\\' && rp_escape(P, N, &y) != 1) { P->err = 1; return k; } if (y < x) { P->err = 8; return k; } }
        rp_range(P, N, x, y); }
      return k; }
    case '(': { int kind = N_GROUP, neg = 0, behind = 0, cap = -1;
      if (P->i < P->n && P->p[P->i] == '?') { P->i++; uint32_t x = P->p[P->i++]; if (x == ':') {} else if (x == '=') kind = N_LOOK; else if (x == '!') { kind = N_LOOK; neg = 1; } else if (x == '<' && (P->p[P->i] == '=' || P->p[P->i] == '!')) { kind = N_LOOK; behind = 1; neg = P->p[P->i++] == '!'; } else sym_unsupported("regex group"); }
      else cap = ++P->r->ncap;
      k = rp_new(P, kind); P->r->n[k].neg = neg; P->r->n[k].behind = behind; P->r->n[k].cap = cap; int a = rp_alts(P); P->r->n[k].alts = a; if (P->i >= P->n || P->p[P->i] != ')') { P->err = 14; return k; } P->i++; return k; }
    case '\\': { if (P->i >= P->n) { P->err = 1; return rp_new(P, N_CHAR); } uint32_t e = P->p[P->i]; if (e == 'b') { P->i++; return rp_new(P, N_WORDB); } if (e == 'B') { P->i++; return rp_new(P, N_NWORDB); } if (e == 'A') { P->i++; return rp_new(P, N_BEGA); } if (e == 'z') { P->i++; return rp_new(P, N_ENDz); } if (e == 'Z') { P->i++; return rp_new(P, N_EOL); }
      if (e >= '1' && e <= '9') { k = rp_new(P, N_BACKREF); P->r->n[k].cap = e - '0'; P->i++; return k; }
      k = rp_new(P, N_CLASS); struct node *N = &P->r->n[k]; N->cls = P->r->nr; uint32_t v; int r = rp_escape(P, N, &v); if (r == 1) { N->kind = N_CHAR; N->c = v; } return k; }
    case '*': case '+': case '?': P->err = 9; return rp_new(P, N_CHAR);
    default: k = rp_new(P, N_CHAR); P->r->n[k].c = c; return k;
  }
}
static int rp_seq(struct rp *P) {
  int first = -1, last = -1;
  while (P->i < P->n && P->p[P->i] != '|' && P->p[P->i] != ')' && !P->err) {
    int k = rp_atom(P); struct node *N = &P->r->n[k];
    if (P->i < P->n) { uint32_t q = P->p[P->i]; int has = 0; if (q == '*') { N->min = 0; N->max = -1; has = 1; P->i++; } else if (q == '+') { N->min = 1; N->max = -1; has = 1; P->i++; } else if (q == '?') { N->min = 0; N->max = 1; has = 1; P->i++; }
      else if (q == '{') { size_t j = P->i + 1; int a = 0, b = 0, da = 0, db = 0, comma = 0; while (j < P->n && P->p[j] >= '0' && P->p[j] <= '9') { a = a * 10 + P->p[j++] - '0'; da = 1; } if (j < P->n && P->p[j] == ',') { comma = 1; j++; while (j < P->n && P->p[j] >= '0' && P->p[j] <= '9') { b = b * 10 + P->p[j++] - '0'; db = 1; } } if (da && j < P->n && P->p[j] == '}') { N->min = a; N->max = comma ? (db ? b : -1) : a; has = 1; P->i = j + 1; } }
      if (has && P->i < P->n && P->p[P->i] == '?') { N->lazy = 1; P->i++; } else if (has && P->i < P->n && P->p[P->i] == '+') { N->poss = 1; P->i++; } }
    if (last >= 0) P->r->n[last].next = k; else first = k; last = k;
  }
  return first; }
static int rp_alts(struct rp *P) { int first = -1, last = -1; for (;;) { int s = rp_seq(P); if (P->r->na >= 48) sym_unsupported("regex alternatives"); int a = P->r->na++; P->r->a[a].first = s; P->r->a[a].next = -1; if (last >= 0) P->r->a[last].next = a; else first = a; last = a; if (P->i < P->n && P->p[P->i] == '|') { P->i++; continue; } return first; } }

struct rk { int kind; int node; int count; size_t start; struct rk *next; };  /* continuation: 0 = sequence from node, 1 = repetition of node, 2 = close group node */
struct rm { struct re *r; const uint32_t *s; size_t n; long cap[20][2]; size_t end; long wantend; int steps; };
static int rm_run(struct rm *m, struct rk *k, size_t pos);
static int isword(uint32_t c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || c == '_' || (c >= 'a' && c <= 'z'); }
static int rm_alts(struct rm *m, int a, size_t pos, struct rk *k) { for (; a >= 0; a = m->r->a[a].next) { struct rk c = {0, m->r->a[a].first, 0, 0, k}; if (rm_run(m, &c, pos)) return 1; } return 0; }
static int rm_one(struct rm *m, int ni, size_t pos, struct rk *k) {  /* one occurrence of node */
  struct node *N = &m->r->n[ni];
  switch (N->kind) {
    case N_CHAR: if (pos < m->n && m->s[pos] == N->c) return rm_run(m, k, pos + 1); return 0;
    case N_ANY: if (pos < m->n && m->s[pos] != 10) return rm_run(m, k, pos + 1); return 0;
    case N_CLASS: { if (pos >= m->n) return 0; uint32_t c = m->s[pos]; int in = 0; for (int i = 0; i < N->nranges; i++) { uint32_t a = m->r->r[N->cls + 2 * i], b = m->r->r[N->cls + 2 * i + 1]; if (c >= a && c <= b) { in = 1; break; } } if (in == N->neg) return 0; return rm_run(m, k, pos + 1); }
    case N_BOL: case N_BEGA: return pos == 0 ? rm_run(m, k, pos) : 0;
    case N_EOL: return pos == m->n || (pos + 1 == m->n && m->s[pos] == 10) ? rm_run(m, k, pos) : 0;
    case N_ENDz: return pos == m->n ? rm_run(m, k, pos) : 0;
    case N_WORDB: case N_NWORDB: { int a = pos > 0 && isword(m->s[pos - 1]), b = pos < m->n && isword(m->s[pos]); return (a != b) == (N->kind == N_WORDB) ? rm_run(m, k, pos) : 0; }
    case N_GROUP: { if (N->cap < 0 || N->cap > 9) return rm_alts(m, N->alts, pos, k); struct rk c = {2, ni, 0, pos, k}; return rm_alts(m, N->alts, pos, &c); }
    case N_BACKREF: { long a = m->cap[N->cap][0], b = m->cap[N->cap][1]; if (a < 0) return 0; for (long i = a; i < b; i++, pos++) if (pos >= m->n || m->s[pos] != m->s[i]) return 0; return rm_run(m, k, pos); }
    case N_LOOK: { size_t se = m->end; long sw = m->wantend; int ok = 0; long sc[20][2]; memcpy(sc, m->cap, sizeof sc);
      if (!N->behind) { m->wantend = -1; ok = rm_alts(m, N->alts, pos, 0); } else for (size_t st = pos + 1; st-- > 0 && !ok;) { m->wantend = (long) pos; ok = rm_alts(m, N->alts, st, 0); }
      m->end = se; m->wantend = sw; if (N->neg) memcpy(m->cap, sc, sizeof sc); if (ok == N->neg) return 0; return rm_run(m, k, pos); }
  }
  return 0; }
static int rm_rep(struct rm *m, int ni, int count, size_t last, size_t pos, struct rk *k) { /* count occurrences matched so far */
  struct node *N = &m->r->n[ni];
  if (count < N->min) { struct rk c = {1, ni, count + 1, pos, k}; return rm_one(m, ni, pos, &c); }
  if (count > N->min && pos == last) return rm_run(m, k, pos); /* empty iteration: stop */
  int more = N->max < 0 || count < N->max;
  if (N->lazy) { if (rm_run(m, k, pos)) return 1; if (!more) return 0; struct rk c = {1, ni, count + 1, pos, k}; return rm_one(m, ni, pos, &c); }
  if (more) { struct rk c = {1, ni, count + 1, pos, k}; if (rm_one(m, ni, pos, &c)) return 1; }
  return rm_run(m, k, pos); }
static int rm_run(struct rm *m, struct rk *k, size_t pos) {
  if (++m->steps > 20000) sym_unsupported("regex steps");
  if (!k) { if (m->wantend >= 0 && (long) pos != m->wantend) return 0; m->end = pos; return 1; }
  if (k->kind == 0) { int ni = k->node; if (ni < 0) return rm_run(m, k->next, pos); struct node *N = &m->r->n[ni]; struct rk c = {0, N->next, 0, 0, k->next}; if (N->poss) sym_unsupported("possessive"); if (N->min == 1 && N->max == 1) return rm_one(m, ni, pos, &c); return rm_rep(m, ni, 0, (size_t) -1, pos, &c); }
  if (k->kind == 1) return rm_rep(m, k->node, k->count, k->start, pos, k->next);
  { int c = m->r->n[k->node].cap; long a = m->cap[c][0], b = m->cap[c][1]; m->cap[c][0] = (long) k->start; m->cap[c][1] = (long) pos; if (rm_run(m, k->next, pos)) return 1; m->cap[c][0] = a; m->cap[c][1] = b; return 0; }
}
static int rm_match(struct re *r, const uint32_t *s, size_t n, size_t from, int anchored, int notempty, struct rm *m) {
  for (size_t p = from; p <= n; p++) { m->r = r; m->s = s; m->n = n; m->wantend = -1; m->steps = 0; for (int i = 0; i < 20; i++) m->cap[i][0] = m->cap[i][1] = -1;
    if (rm_alts(m, r->root, p, 0)) { if (notempty && m->end == p) { if (anchored) return 0; continue; } m->cap[0][0] = (long) p; m->cap[0][1] = (long) m->end; return 1; }
    if (anchored) return 0; }
  return 0; }
void *pcre2_compile_32(const uint32_t *p, size_t len, uint32_t opt, int *err, size_t *eo, void *cc) { (void) opt; (void) cc; if (len == (size_t) -1) len = u32_strlen(p); struct re *r = calloc(1, sizeof *r); struct rp P = {r, p, 0, len, 0}; r->root = rp_alts(&P); if (!P.err && P.i < P.n) P.err = 22; if (P.err) { *err = 100 + P.err; *eo = P.i; free(r); return 0; } return r; }
void pcre2_code_free_32(void *c) { free(c); }
void *pcre2_match_data_create_from_pattern_32(void *c, void *g) { (void) c; (void) g; return malloc(8); } void *pcre2_match_data_create_32(uint32_t n, void *g) { (void) n; (void) g; return malloc(8); } void pcre2_match_data_free_32(void *m) { free(m); }
int pcre2_match_32(void *c, const uint32_t *s, size_t n, size_t so, uint32_t o, void *md, void *mc) { (void) o; (void) md; (void) mc; if (n == (size_t) -1) n = u32_strlen(s); struct rm m; return rm_match(c, s, n, so, 0, 0, &m) ? 1 : -1; }
int pcre2_get_error_message_32(int e, uint32_t *b, size_t n) { (void) e; const char *t = "error"; size_t i = 0; for (; t[i] && i + 1 < n; i++) b[i] = t[i]; b[i] = 0; return (int) i; }
struct ob { uint32_t *b; size_t cap, n; }; static void obp(struct ob *o, uint32_t c) { if (o->n < o->cap) o->b[o->n] = c; o->n++; }
static int subst(struct re *r, struct rm *m, const uint32_t *rep, size_t rl, struct ob *o) {
  for (size_t i = 0; i < rl;) { uint32_t c = rep[i++];
    if (c == '$') { if (i >= rl) return -35; c = rep[i]; if (c == '$') { obp(o, '$'); i++; continue; } int br = 0; if (c == '{') { br = 1; i++; if (i >= rl) return -35; c = rep[i]; } if (c < '0' || c > '9') { if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == '*') sym_unsupported("named group in replacement"); return -35; } int g = 0; while (i < rl && rep[i] >= '0' && rep[i] <= '9') g = g * 10 + rep[i++] - '0'; if (br) { if (i >= rl || rep[i] != '}') sym_unsupported("replacement syntax"); i++; } if (g > r->ncap) return -49; if (g > 9) sym_unsupported("group number"); if (m->cap[g][0] < 0) return -55; for (long k = m->cap[g][0]; k < m->cap[g][1]; k++) obp(o, m->s[k]); continue; }
    if (c == '\\') { if (i >= rl) return -35; c = rep[i++]; switch (c) { case 'n': obp(o, 10); break; case 't': obp(o, 9); break; case 'r': obp(o, 13); break; case 'e': obp(o, 27); break; case 'f': obp(o, 12); break; case 'a': obp(o, 7); break; case 'x': { uint32_t v = 0; for (int k = 0; k < 2 && i < rl && hexv(rep[i]) >= 0; k++) v = v * 16 + hexv(rep[i++]); obp(o, v); break; } default: if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')) sym_unsupported("replacement escape"); obp(o, c); } continue; }
    obp(o, c); }
  return 0; }
int pcre2_substitute_32(void *c, const uint32_t *s, size_t n, size_t so, uint32_t opt, void *md, void *mc, const uint32_t *rep, size_t rl, uint32_t *out, size_t *ol) {
  (void) md; (void) mc; if (n == (size_t) -1) n = u32_strlen(s); if (rl == (size_t) -1) rl = u32_strlen(rep); int global = !!(opt & 0x00000100u); struct ob o = {out, *ol, 0}; struct re *r = c; size_t p = so; int cnt = 0, ne = 0; struct rm m; for (size_t i = 0; i < so; i++) obp(&o, s[i]);
  for (;;) { if (p > n) break; if (!rm_match(r, s, n, p, ne, ne, &m)) { if (!ne) break; ne = 0; if (p < n) obp(&o, s[p]); p++; continue; }
    for (size_t i = p; i < (size_t) m.cap[0][0]; i++) obp(&o, s[i]); int e = subst(r, &m, rep, rl, &o); if (e) return e; cnt++; int empty = m.cap[0][0] == m.cap[0][1]; p = m.cap[0][1]; ne = empty; if (!global) break; }
  for (; p < n; p++) obp(&o, s[p]); obp(&o, 0); if (o.n > *ol) { *ol = o.n; return -48; } *ol = o.n - 1; return cnt; }

/* ------------------------------------------------------------ running the program */
static int lastrc;
int bx_run(int argc, const char **argv) {
  m_outf.out = 0; m_outf.outlen = m_outf.outcap = 0; m_errf.out = 0; m_errf.outlen = m_errf.outcap = 0; m_outf.full = wfull; m_outf.err = m_errf.err = 0; m_in.pos = 0; m_in.err = m_in.eof = m_in.ungot = 0; m_outf.open = m_errf.open = 1; nmf = 0; optind = 1; opterr = 1; optarg = 0; goinit = 0; nextchar = 0; m_errno = 0; tokp = 0;
  static char *av[40]; if (argc > 38) sym_unsupported("argc"); for (int i = 0; i < argc; i++) { size_t n = strlen(argv[i]); av[i] = __model_malloc(n + 1); memcpy(av[i], argv[i], n + 1); } av[argc] = 0;
  lastrc = __bx_enter(argc, av) & 255; __bx_leave();
  if (m_outf.outlen) sym_checkinit(m_outf.out, m_outf.outlen); if (m_errf.outlen) sym_checkinit(m_errf.out, m_errf.outlen);
  int rc = lastrc; char t[4] = {'R', (char) rc, 0, 0}; sym_trace(t, 2); if (m_outf.outlen) sym_trace(m_outf.out, m_outf.outlen); sym_trace("E", 1); char g = m_errf.outlen ? '1' : '0'; sym_trace(&g, 1);
  for (int i = 0; i < nwf; i++) if (wf[i].written) { sym_trace("F", 1); if (wf[i].outlen) { sym_checkinit(wf[i].out, wf[i].outlen); sym_trace(wf[i].out, wf[i].outlen); } }
  return rc; }
const unsigned char *bx_out(void) { return m_outf.out ? m_outf.out : (const unsigned char *) ""; } size_t bx_outlen(void) { return m_outf.outlen; }
const unsigned char *bx_err(void) { return m_errf.out ? m_errf.out : (const unsigned char *) ""; } size_t bx_errlen(void) { return m_errf.outlen; }
const unsigned char *bx_file(const char *p, size_t *n) { struct wfile *w = wfind(p); if (!w) return 0; *n = w->written ? w->outlen : w->len; const unsigned char *r = w->written ? w->out : w->data; return r ? r : (const unsigned char *) ""; }

/* ------------------------------------------------------------ sources of nondeterminism: a fresh value at every call */
static unsigned char nd_all[256]; static int nd(void) { if (!nd_all[1]) for (int i = 0; i < 256; i++) nd_all[i] = (unsigned char) i; return sym_byte("!nd", nd_all, 256); }
long time(long *t) { long r = 1700000000L + 97 * nd(); if (t) *t = r; return r; } long clock(void) { return 1000 + nd(); } int getpid(void) { return 1000 + nd(); } int getppid(void) { return 1000 + nd(); } int rand(void) { return nd(); } long random(void) { return nd(); } void srand(unsigned x) { (void) x; } void srandom(unsigned x) { (void) x; }
struct m_tv { long s, u; }; int gettimeofday(struct m_tv *t, void *z) { (void) z; t->s = 1700000000L + 97 * nd(); t->u = 1; return 0; } int clock_gettime(int c, struct m_tv *t) { (void) c; t->s = 1700000000L + 97 * nd(); t->u = 1; return 0; }
/* ------------------------------------------------------------ more of libunistring and the C library */
_Bool u32_startswith(const uint32_t *s, const uint32_t *p) { for (; *p; s++, p++) if (*s != *p) return 0; return 1; }
_Bool u32_endswith(const uint32_t *s, const uint32_t *p) { size_t n = 0, m = 0; while (s[n]) n++; while (p[m]) m++; if (m > n) return 0; for (size_t i = 0; i < m; i++) if (s[n - m + i] != p[i]) return 0; return 1; }
uint32_t *u32_strpbrk(const uint32_t *s, const uint32_t *a) { for (; *s; s++) for (const uint32_t *p = a; *p; p++) if (*p == *s) return (uint32_t *) s; return 0; }
int u32_strmblen(const uint32_t *s) { return *s ? 1 : 0; } int u32_mblen(const uint32_t *s, size_t n) { return n ? (*s ? 1 : 0) : -1; } int u32_mbtouc(uint32_t *c, const uint32_t *s, size_t n) { (void) n; *c = *s; return 1; } int u32_uctomb(uint32_t *s, uint32_t c, long n) { if (n < 1) return -2; *s = c; return 1; }
uint32_t *u32_stpncpy(uint32_t *d, const uint32_t *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; uint32_t *r = d + i; for (; i < n; i++) d[i] = 0; return r; }
const uint32_t *u32_check(const uint32_t *s, size_t n) { for (; n; n--, s++) if (*s >= 0x110000 || (*s >= 0xd800 && *s < 0xe000)) return s; return 0; }
int u32_cmp2(const uint32_t *a, size_t n, const uint32_t *b, size_t m) { for (size_t i = 0; i < n && i < m; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return n < m ? -1 : n > m; }
uint32_t *u32_pcpy(uint32_t *d, const uint32_t *s, size_t n) { memcpy(d, s, n * 4); return d + n; }
int isascii(int c) { return c >= 0 && c < 128; } int toascii(int c) { return c & 127; } long long llabs(long long x) { return x < 0 ? -x : x; } void *rawmemchr(const void *p, int c) { const unsigned char *a = p; while (*a != (unsigned char) c) a++; return (void *) a; }
void *reallocarray(void *p, size_t n, size_t m) { return realloc(p, n * m); } size_t strlcpy(char *d, const char *s, size_t n) { size_t l = strlen(s); if (n) { size_t k = l < n - 1 ? l : n - 1; memcpy(d, s, k); d[k] = 0; } return l; }
void rewind(void *p) { MF *f = (MF *) p; f->pos = 0; f->eof = f->err = 0; f->ungot = 0; } int setvbuf(void *p, char *b, int m, size_t n) { (void) p; (void) b; (void) m; (void) n; return 0; } void setbuf(void *p, char *b) { (void) p; (void) b; }
void _Exit(int c) { exit(c); }
