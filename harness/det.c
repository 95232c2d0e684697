/* B27: the same invocation twice, with every other source of values (uninitialised memory, clock, process number, addresses) free. */
#include "mixlib.h"
static struct buf o1, e1, inp, aux; static const char *M_[] = {"", "-r", "-m", "-l", "-q a,b", "-d t -l", "-k true", "--no-color", "-e CRLF", "-t 3k", "-n latin1", "-d nope", "-s 0", "-x debug", "-q +-", "-h"};
static void opts_(const char *s) { while (*s) { int n = 0; while (s[n] && s[n] != ' ') n++; arg(sdup(s, n)); s += n; while (*s == ' ') s++; } }
static int same(const u8 *p, int n, const struct buf *b) { int ok = n == b->n; if (ok) for (int i = 0; i < n; i++) ok &= p[i] == b->b[i]; return ok; }
void harness_main(void) {
  world_reset(); int k = sym_choice("design", ND), w = sym_choice("what", LEN(M_)), m; geo_init(&G, &D[k]); static struct dsn d; d = D[k]; if (k % 3 == 0) d.extra = "author \"A\"\ntags (\"a\", \"c\")\nreplace \"a\" with \"bb\"\nreverse \"bb\" to \"a\""; if (k % 3 == 1) d.extra = "designer \"B\"\ntags (\"b\")\nreplace once \"(a)(b)?\" with \"$1\""; emit_design(&cfg, k & 1 ? "t" : "t, u", &d); { static struct dsn o = {{[W]={"o"}}, EL(W)}; emit_design(&cfg, "other", &o); }
  int par = sym_choice("parent", 2); static struct buf c2; if (par) bstr(&c2, "parent /p\n"); bmem(&c2, cfg.b, cfg.n); world_file("/c", c2.b, c2.n, W_FILE); if (par) { bstr(&aux, "BOX pp, p2\nsample\n p\nends\nshapes { e (\"x\") }\nelastic (e)\nEND pp\n"); world_file("/p", aux.b, aux.n, W_FILE); }
  args0(); arg("-f"); arg("/c"); mode = 'b'; opts_(M_[w]); if (w < 3) { m = TIER ? sym_choice("set", LEN(OP_)) : sym_choice("set", 10) * 6 + (k * 7 + w + par * 3) % 6; options(OP_[m]); }
  static const int LT[] = {0, 1, 2, 3, 6, 7, 8, 10, 15, 16, 20, 21, 22, 23}; int t = TIER ? sym_choice("text", LEN(TT)) : LT[w == 0 && par ? (sym_choice("text", 6) * 3 + k) % LEN(LT) : (k + w * 5 + par) % LEN(LT)]; t_tpl(TT[t]);
  if (w == 1 || w == 2) { /* a drawn box, the right end of which may be damaged */ const char *a1 = A_[3]; A_[3] = "-d"; int n0 = An_; static const char *sv[40]; for (int i = 0; i < n0; i++) sv[i] = A_[i]; args0(); arg("-f"); arg("/c"); stdin_buf(&txt); int r0 = run(); for (int i = 0; i < n0; i++) A_[i] = sv[i]; An_ = n0; A_[3] = a1; if (r0) return; bmem(&inp, bx_out(), bx_outlen()); if ((k + par) % 2 && inp.n > 3) { inp.b[inp.n / 2] = sym_byte("cut", " x\n", 3); } if (par) { arg("-d"); arg("t"); } stdin_buf(&inp); } else stdin_buf(&txt);
  int r1 = run(); bmem(&o1, bx_out(), bx_outlen()); bmem(&e1, bx_err(), bx_errlen());
  int r2 = run(); sym_assert(r1 == r2, "the exit status is the same every time"); sym_assert(same(bx_out(), bx_outlen(), &o1), "the output is the same every time"); sym_assert(w == 13 || same(bx_err(), bx_errlen(), &e1), "the messages are the same every time"); sym_cover("end"); }
