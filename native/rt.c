/* Native counterpart of the engine's harness API: replays one log against the real binary. */
#define _GNU_SOURCE
#include "models.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
struct ent { char k; char name[64]; int v; }; static struct ent *lg; static int nlg, pos;
static const char *scratch, *exe, *wrap; static int quiet; static char root[1024]; static int verbose;
static void die(int code, const char *m, const char *x) { printf("%s %s\n", m, x ? x : ""); fflush(stdout); _exit(code); }
static int take(char k, const char *n) { if (pos < nlg) { struct ent *e = &lg[pos]; if (strcmp(e->name, n)) die(12, "LOG-MISMATCH", n); pos++; (void) k; return e->v; } return -1; }
int sym_choice(const char *n, int m) { int v = take('C', n); if (v < 0) v = 0; if (v >= m) die(12, "LOG-MISMATCH", n); return v; }
unsigned char sym_byte(const char *n, const void *set, int c) { int v = take('B', n); if (v < 0) v = ((const unsigned char *) set)[0]; (void) c; return (unsigned char) v; }
void sym_assert(int c, const char *m) { if (!c) die(10, "ASSERT", m); }
void sym_assume(int c) { if (!c) die(13, "ASSUME", ""); }
void sym_cover(const char *l) { printf("COVER %s\n", l); }
void sym_trace(const void *p, size_t n) { printf("TRACE "); for (size_t i = 0; i < n; i++) printf("%02x", ((const unsigned char *) p)[i]); printf("\n"); }
int sym_concretize(int v) { return v; }
struct wf { char path[200]; unsigned char *data; size_t len; int kind; int written; }; static struct wf wf[64]; static int nwf; static struct { char *n, *v; } env[16]; static int nenv; static char cs[40]; static unsigned char *in; static size_t inlen; static int infail, outfull; void world_stdout_full(int on) { outfull = on; }
static unsigned char *out, *err; static size_t outn, errn;
static void normpath(const char *p, char *o) { size_t n = 0, i = 0; o[0] = 0; while (p[i]) { while (p[i] == '/') i++; size_t b = i; while (p[i] && p[i] != '/') i++; size_t l = i - b; if (!l) break; if (l == 1 && p[b] == '.') continue; if (l == 2 && p[b] == '.' && p[b + 1] == '.') { while (n && o[n] != '/') n--; o[n] = 0; continue; } o[n++] = '/'; memcpy(o + n, p + b, l); n += l; o[n] = 0; } if (!n) { o[0] = '/'; o[1] = 0; } }
static struct wf *wfind(const char *p) { char b[4096]; normpath(p, b); for (int i = 0; i < nwf; i++) if (!strcmp(wf[i].path, b)) return &wf[i]; return 0; }
void world_reset(void) { nwf = 0; nenv = 0; cs[0] = 0; in = 0; inlen = 0; infail = 0; outfull = 0; world_env("TERM", "xterm-color"); world_env("HOME", "/home/u"); }
void world_file(const char *p, const void *d, size_t n, int kind) { struct wf *f = wfind(p); if (!f) { f = &wf[nwf++]; normpath(p, f->path); } f->data = malloc(n + 1); if (n) memcpy(f->data, d, n); f->len = n; f->kind = kind; f->written = 0; }
void world_env(const char *n, const char *v) { for (int i = 0; i < nenv; i++) if (!strcmp(env[i].n, n)) { env[i].v = v ? strdup(v) : 0; return; } env[nenv].n = strdup(n); env[nenv++].v = v ? strdup(v) : 0; }
void world_stdin(const void *d, size_t n, int failing) { in = malloc(n + 1); if (n) memcpy(in, d, n); inlen = n; infail = failing; }
void world_charset(const char *c) { snprintf(cs, sizeof cs, "%s", c); }
static void put(const char *path, const unsigned char *d, size_t n) { FILE *f = fopen(path, "w"); if (!f) die(14, "SETUP", path); if (n) fwrite(d, 1, n, f); fclose(f); }
static unsigned char *slurp(const char *p, size_t *n) { FILE *f = fopen(p, "r"); *n = 0; if (!f) return (unsigned char *) strdup(""); unsigned char *b = 0; size_t c = 0; for (;;) { if (*n + 65536 > c) b = realloc(b, c = c * 2 + 131072); size_t r = fread(b + *n, 1, 65536, f); if (!r) break; *n += r; } fclose(f); b[*n] = 0; return b; }
static void mkdirs(const char *p) { char b[2048]; snprintf(b, sizeof b, "%s", p); for (char *s = b + strlen(root) + 1; *s; s++) if (*s == '/') { *s = 0; mkdir(b, 0755); *s = '/'; } }
int bx_run(int argc, const char **argv) {
  char p[2048]; static int runno; snprintf(root, sizeof root, "%s/r%d", scratch, runno++); mkdir(root, 0755);
  snprintf(p, sizeof p, "%s.rules", root); FILE *r = fopen(p, "w");
  for (int i = 0; i < nwf; i++) { if (wf[i].kind == W_ABSENT) continue; snprintf(p, sizeof p, "%s%s", root, wf[i].path); mkdirs(p); if (wf[i].kind == W_DIR) mkdir(p, 0755); else put(p, wf[i].data, wf[i].len); fprintf(r, "%d %s\n", wf[i].kind, wf[i].path); wf[i].written = 0; }
  fclose(r); char fi[2048], fo[2048], fe[2048]; snprintf(fi, sizeof fi, "%s.in", root); snprintf(fo, sizeof fo, "%s.out", root); snprintf(fe, sizeof fe, "%s.err", root); put(fi, in, inlen);
  static char ndv[4096]; ndv[0] = 0; while (pos < nlg && lg[pos].name[0] == '!') { snprintf(ndv + strlen(ndv), sizeof ndv - strlen(ndv), "%d,", lg[pos].v); pos++; }
  pid_t pid = fork();
  if (!pid) {
    clearenv(); setenv("PATH", "/usr/bin:/bin", 1); setenv("LC_ALL", "C.UTF-8", 1); setenv("ASAN_OPTIONS", "exitcode=99:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1", 1); setenv("UBSAN_OPTIONS", "halt_on_error=0", 1);
    for (int i = 0; i < nenv; i++) if (env[i].v) setenv(env[i].n, env[i].v, 1);
    setenv("BXROOT", root, 1); setenv("BXND", ndv, 1); if (cs[0]) setenv("BXCHARSET", cs, 1); if (infail) setenv("BXSTDINFAIL", "1", 1);
    int a = open(fi, O_RDONLY), b = open(fo, O_CREAT | O_WRONLY | O_TRUNC, 0644), c = open(fe, O_CREAT | O_WRONLY | O_TRUNC, 0644); dup2(a, 0); if (outfull) { close(b); b = open("/dev/full", O_WRONLY); } dup2(b, 1); dup2(c, 2); if (chdir(root)) _exit(97);
    struct rlimit rl = {12, 14}; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 1u << 28; setrlimit(RLIMIT_FSIZE, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl); alarm(60);
    const char *av[64]; int n = 0; if (wrap && *wrap) { av[n++] = "valgrind"; av[n++] = "-q"; av[n++] = "--error-exitcode=98"; av[n++] = "--vgdb=no"; av[n++] = "--"; } av[n++] = exe; for (int i = 1; i < argc; i++) av[n++] = argv[i]; av[n] = 0;
    if (wrap && *wrap) execv("/usr/bin/valgrind", (char **) av); else { av[0] = argv[0]; execv(exe, (char **) av); } _exit(97);
  }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  out = slurp(fo, &outn); err = slurp(fe, &errn);
  if (verbose) { printf("RUN "); for (int i = 0; i < argc; i++) printf(" '%s'", argv[i]); printf("  (stdin: %zu bytes)\n----- stdin\n", inlen); fwrite(in ? in : (void *) "", 1, inlen, stdout); printf("----- stdout\n"); fwrite(out, 1, outn, stdout); printf("----- stderr\n"); fwrite(err, 1, errn > 3000 ? 3000 : errn, stdout); printf("----- status %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st)); }
  if (WIFSIGNALED(st)) { char b[40]; int s = WTERMSIG(st); snprintf(b, sizeof b, "%s%d", (s == SIGXCPU || s == SIGALRM || s == SIGKILL || s == SIGXFSZ) ? "timeout signal " : "signal ", s); die(11, "CRASH", b); }
  int rc = WEXITSTATUS(st); if (rc == 99 && memmem(err, errn, "AddressSanitizer", 16)) { char *s = memmem(err, errn, "ERROR: AddressSanitizer", 23); char b[120]; snprintf(b, sizeof b, "%.100s", s ? s : "asan"); b[strcspn(b, "\n")] = 0; die(11, "CRASH", b); }
  if (rc == 98 && wrap && *wrap) die(11, "CRASH", "valgrind error"); if (rc == 97) die(14, "SETUP", "exec");
  snprintf(p, sizeof p, "%s.written", root); size_t wn; char *w = (char *) slurp(p, &wn); /* files the run wrote */
  for (char *l = strtok(w, "\n"); l; l = strtok(0, "\n")) { struct wf *f = wfind(l); if (!f) { f = &wf[nwf++]; normpath(l, f->path); f->kind = W_FILE; } f->written = 1; }
  unsigned char t[4] = {'R', (unsigned char) rc}; sym_trace(t, 2); if (outn) sym_trace(out, outn); sym_trace("E", 1); sym_trace(errn ? "1" : "0", 1);
  for (int i = 0; i < nwf; i++) if (wf[i].written) { snprintf(p, sizeof p, "%s%s", root, wf[i].path); wf[i].data = slurp(p, &wf[i].len); sym_trace("F", 1); if (wf[i].len) sym_trace(wf[i].data, wf[i].len); }
  return rc; }
const unsigned char *bx_out(void) { return out; } size_t bx_outlen(void) { return outn; } const unsigned char *bx_err(void) { return err; } size_t bx_errlen(void) { return errn; }
const unsigned char *bx_file(const char *p, size_t *n) { struct wf *f = wfind(p); if (!f) return 0; *n = f->len; return f->data ? f->data : (const unsigned char *) ""; }
extern void harness_main(void);
int main(int argc, char **argv) { /* log exe scratch [valgrind] [-v] */
  if (argc < 4) return 2; exe = realpath(argv[2], 0); scratch = realpath(argv[3], 0); for (int i = 4; i < argc; i++) if (!strcmp(argv[i], "valgrind")) wrap = argv[i]; else if (!strcmp(argv[i], "-v")) verbose = 1; (void) quiet;
  FILE *f = fopen(argv[1], "r"); if (!f) return 2; char k; char nm[64]; int v; int cap = 0; while (fscanf(f, " %c %63s %d", &k, nm, &v) == 3) { if (nlg == cap) lg = realloc(lg, (cap = cap * 2 + 64) * sizeof *lg); lg[nlg].k = k; strcpy(lg[nlg].name, nm); lg[nlg++].v = v; }
  harness_main(); printf("DONE\n"); return 0; }
