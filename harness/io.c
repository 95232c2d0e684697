/* B22: input and output files against the standard streams, and failures of either. */
#include "rtlib.h"
static struct buf ref, src; static int rc0;
static const int FD[] = {0, 2, 9, 3};
static const char *const FT[] = {"@~@\n  ~b\n\nc", "@\n", "\xe5\xae\xbd@\r\n\tx~\r\n", "\033[1m@\033[0m~\n", "", "\n\n", "aaa@a\xff\n", "  @b\n  ~\n\n"};
static const char *const OPS[] = {"", "-r", "-m", "-k true -r", "-e CRLF", "-s 20x6 -a c", "-l", "-q t,x", "-t 4u", "-n UTF-8", "-c //"};
static void opts_(const char *s) { while (*s) { int n = 0; while (s[n] && s[n] != ' ') n++; arg(sdup(s, n)); s += n; while (*s == ' ') s++; } }
static void content(void) { const u8 *p = (const u8 *) FT[sym_choice("text", LEN(FT))]; src.n = 0; for (; *p; p++) { if (*p == '@') bput(&src, sym_byte("at", "abc", 3)); else if (*p == '~') bput(&src, sym_byte("ws", "a b", 3)); else bput(&src, *p); } }
static void conf_(int k) { cfg.n = 0; emit_design(&cfg, "t", &D[k]); world_file("/c", cfg.b, cfg.n, W_FILE); }
static void none(void) { world_stdin("not this\n", 9, 0); }
static int is(const u8 *p, int n, const struct buf *b) { int ok = n == b->n; if (ok) for (int i = 0; i < n; i++) ok &= p[i] == b->b[i]; return ok; }
static int file_is(const char *f, const struct buf *b) { size_t n; const u8 *p = bx_file(f, &n); return p && is(p, n, b); }
static void unmodified(void) { sym_assert(file_is("/in.txt", &src), "the input file is not modified"); }
static void s_same(int op) { /* every way to name the streams */
  const char *o = OPS[op]; int nc = o[0] != '-' || o[1] != 'c'; args0(); if (nc) { arg("-f"); arg("/c"); } opts_(o);
  if (strstr(o, "-r") || strstr(o, "-m")) { args0(); arg("-f"); arg("/c"); stdin_buf(&src); int r = run(); if (r) return; src.n = 0; bmem(&src, bx_out(), bx_outlen()); opts_(o); }
  stdin_buf(&src); rc0 = run(); sym_assert(rc0 == 0 || (bx_outlen() == 0 && bx_errlen() > 0), "success or a message"); ref.n = 0; bmem(&ref, bx_out(), bx_outlen()); int err0 = bx_errlen();
  world_file("/in.txt", src.b, src.n, W_FILE); static const char junk[] = "this is old and long contents which must go away completely ...........................................................................................\n";
  int how = sym_choice("how", 8), outf = 0; switch (how) { case 0: none(); arg("/in.txt"); break; case 1: none(); arg("/in.txt"); arg("-"); break; case 2: arg("-"); break; case 3: arg("-"); arg("-"); break; case 4: arg("-"); arg("/out.txt"); outf = 1; break; case 5: none(); arg("/in.txt"); arg("/out.txt"); outf = 1; break;
    case 6: none(); world_file("/out.txt", junk, sizeof junk - 1, W_FILE); arg("/in.txt"); arg("/out.txt"); outf = 1; break; case 7: none(); { const char *a[40]; int n = An_; for (int i = 0; i < n; i++) a[i] = A_[i]; args0(); arg("/in.txt"); for (int i = 1; i < n; i++) arg(a[i]); arg("/out.txt"); outf = 1; } break; }
  int rc = run(); sym_assert(rc == rc0, "same exit status with files"); unmodified(); sym_assert((int) bx_errlen() == err0 || rc, "nothing else is printed");
  if (outf) { sym_assert(bx_outlen() == 0, "nothing on standard output when a file is named"); if (rc == 0) sym_assert(file_is("/out.txt", &ref), "the output file has the bytes of standard output"); } else sym_assert(is(bx_out(), bx_outlen(), &ref), "standard output is the same with an input file"); sym_cover("same"); }
static void fails(int rc) { sym_assert(rc == 1, "a failure status is returned"); sym_assert(bx_errlen() > 0, "a message is given"); sym_assert(bx_outlen() == 0, "no box is printed"); }
static void s_infail(int op) { /* input that cannot be read, or not to its end */
  if (OPS[op][0] == '-' && (OPS[op][1] == 'l' || OPS[op][1] == 'q')) return; args0(); if (strncmp(OPS[op], "-c", 2)) { arg("-f"); arg("/c"); } opts_(OPS[op]);
  int k = sym_choice("fault", 7); world_stdin(src.b, src.n, 0); int outf = k != 6 && sym_choice("outf", 2);
  switch (k) { case 0: arg("/in.txt"); break; case 1: world_file("/in.txt", src.b, src.n, W_DENIED); arg("/in.txt"); break; case 2: world_file("/in.txt", 0, 0, W_DIR); arg("/in.txt"); break; case 3: world_file("/in.txt", src.b, src.n, W_FAILING); arg("/in.txt"); break; case 4: arg("/no/such/in.txt"); break; case 5: world_stdin(src.b, src.n, 1); arg("-"); break; case 6: world_stdin(src.b, src.n, 1); break; }
  if (outf) arg("/out.txt"); int rc = run(); fails(rc); size_t n = 0; const u8 *p = bx_file("/out.txt", &n); sym_assert(!p || n == 0, "no box in the output file"); sym_cover("infail"); }
static void s_outfail(int op) { /* output that cannot be written */
  args0(); if (strncmp(OPS[op], "-c", 2)) { arg("-f"); arg("/c"); } opts_(OPS[op]); if (strstr(OPS[op], "-r") || strstr(OPS[op], "-m")) { args0(); arg("-f"); arg("/c"); stdin_buf(&src); int r = run(); if (r) return; src.n = 0; bmem(&src, bx_out(), bx_outlen()); opts_(OPS[op]); }
  int list = OPS[op][0] == '-' && (OPS[op][1] == 'l' || OPS[op][1] == 'q'); stdin_buf(&src); if (run() || !bx_outlen()) return; world_file("/in.txt", src.b, src.n, W_FILE); stdin_buf(&src);
  int k = sym_choice("fault", 6), inf = sym_choice("inf", 2); arg(inf ? "/in.txt" : "-"); (void) list;
  switch (k) { case 0: world_file("/out.txt", "old\n", 4, W_DENIED); arg("/out.txt"); break; case 1: world_file("/out.txt", "old\n", 4, W_NOWRITE); arg("/out.txt"); break; case 2: world_file("/out.txt", 0, 0, W_DIR); arg("/out.txt"); break; case 3: arg("/no/such/out.txt"); break; case 4: world_file("/out.txt", "", 0, W_FULL); arg("/out.txt"); break; case 5: world_stdout_full(1); break; }
  int rc = run(); fails(rc); if (inf) unmodified(); sym_cover("outfail"); }
static void s_args(void) { /* more than two files */
  args0(); arg("-f"); arg("/c"); world_file("/in.txt", src.b, src.n, W_FILE); arg("/in.txt"); arg("/out.txt"); arg("third"); if (sym_choice("four", 2)) arg("/fourth"); stdin_buf(&src); fails(run()); size_t n; sym_assert(!bx_file("/out.txt", &n), "no file is written"); unmodified(); sym_cover("args"); }
void harness_main(void) {
  world_reset(); int what = sym_choice("what", 4); int k = FD[sym_choice("design", TIER ? 4 : 2)]; conf_(k); content();
  if (what == 3) { s_args(); return; } int op = sym_choice("op", LEN(OPS)); switch (what) { case 0: s_same(op); break; case 1: s_infail(op); break; case 2: s_outfail(op); break; } }
