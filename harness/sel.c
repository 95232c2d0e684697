/* B20: selection of a design by name or alias. Names, aliases and the requested name are symbolic strings. */
#include "conf.h"
static struct buf cfg, want;
static const char *W1[] = {"a", "ab", "B", "a-b", "Zz", "b1"}, *W2[] = {"b", "A_2", "AB", "abc"}, *W3[] = {"Ab", "c", "YY", "b"};
#define PICK(w) w[sym_choice(#w, TIER ? LEN(w) : LEN(w) - 1)]
static char *sy(const char *n, const char *set, int len) { char b[8]; for (int i = 0; i < len; i++) b[i] = sym_byte(n, i ? set : "abA", i ? strlen(set) : 3); b[len] = 0; return sdup(b, len); }
static const char *NM[8]; static int own[8], nn; /* names and aliases in order of appearance, and their design */
static const char *const SH[] = {"A>", "B>", "C>"};
static void add(int d, const char *s) { NM[nn] = s; own[nn++] = d; }
static int holder(const char *r, int *several) { int h = -1; *several = 0; for (int i = 0; i < nn; i++) if (ieq_(NM[i], r)) { if (h >= 0 && own[i] != h) *several = 1; if (h < 0) h = own[i]; } return h; }
static const char *const XTRA[] = {0, "padding { left 0 }", "author \"me\" designer \"you\"", "tags (\"x\")"};
static void build(void) {
  int form = sym_choice("form", 4); const char *n0 = PICK(W1), *n1 = PICK(W2); const char *l0 = n0, *l1 = n1, *n2 = "zz", *l2 = "zz";
  add(0, n0); if (form == 0 || form == 2) { const char *a = PICK(W3); add(0, a); l0 = cat(cat(n0, form ? "," : ", "), a); }
  add(1, n1); if (form == 1 || form == 2) { const char *a = PICK(W3); add(1, a); l1 = cat(cat(n1, " , "), a); add(1, "yy"); l1 = cat(l1, ", yy"); }
  add(2, n2); if (form == 3) { const char *a = PICK(W2); add(2, a); l2 = cat("zz,", a); }
  cdesign(&cfg, l0, n0, SH[0], 0); if (form == 3) bstr(&cfg, "# comment BOX nothing\n\n"); cdesign(&cfg, l1, n1, SH[1], XTRA[form]); cdesign(&cfg, l2, n2, SH[2], 0); put_file("/c", &cfg); }
static void base(void) { args0(); arg("-f"); arg("/c"); world_stdin("hi\n", 3, 0); }
static void s_pick(void) {
  build(); base(); char *r; int k = sym_choice("req", 5); switch (k) { case 0: r = sy("r", "abAB-_12", 1); break; case 1: r = sy("r", "abAB-_12", 2); break; case 2: r = "ZZ"; break; case 3: r = "Yy"; break; default: r = ""; }
  switch (sym_choice("sp", TIER ? 3 : 2)) { case 0: arg("-d"); arg(r); break; case 1: arg("--design"); arg(sdup(r, strlen(r))); break; case 2: arg(cat("--design=", r)); break; }
  int sev, h = holder(r, &sev), rc = run(); sym_assume(!sev);
  if (h < 0) { rejected_(rc, "an unknown design is an error"); sym_cover("unknown"); return; }
  sym_assert(rc == 0, "a known design is accepted"); expect_left(&want, SH[h], "hi"); sym_assert(out_is(&want), "the design that carries the name is used"); sym_cover("pick"); }
static void s_default(void) { build(); base(); int rc = run(); sym_assert(rc == 0 && bx_errlen() == 0, "the default design is accepted"); expect_left(&want, SH[0], "hi"); sym_assert(out_is(&want), "the first design is the default"); sym_cover("default"); }
/* names in a listing are distinct, and nothing is dropped without need or message */
static void s_uniq(void) {
  build(); args0(); arg("-f"); arg("/c"); arg("-q"); arg("(all)"); int rc = run(); sym_assert(rc == 0, "the query succeeds");
  int dup[3] = {0, 0, 0}; static struct buf w; struct { const char *n; int d; } S[3]; int ns = 0;
  for (int d = 0; d < 3; d++) { for (int i = 0; i < nn; i++) if (own[i] == d) for (int j = 0; j < i; j++) if (own[j] != d && !dup[own[j]] && ieq_(NM[i], NM[j])) dup[d] = 1; if (dup[d]) continue; const char *nm = 0; for (int i = nn - 1; i >= 0; i--) if (own[i] == d) nm = NM[i]; S[ns].n = nm; S[ns++].d = d; }
  for (int i = 0; i < ns; i++) for (int j = i + 1; j < ns; j++) { const char *a = S[i].n, *b = S[j].n; int k = 0; while (a[k] && lc_(a[k]) == lc_(b[k])) k++; if (lc_(a[k]) > lc_(b[k])) { int t = S[i].d; S[i].d = S[j].d; S[j].d = t; S[i].n = b; S[j].n = a; } }
  for (int i = 0; i < ns; i++) { int first = 1; for (int k = 0; k < nn; k++) if (own[k] == S[i].d) { bstr(&w, NM[k]); if (!first) bstr(&w, " (alias)"); first = 0; bput(&w, '\n'); } }
  sym_assert(out_is(&w), "a later design that repeats a name or alias of an earlier one is dropped, all others are there"); sym_assert((dup[0] | dup[1] | dup[2]) == (bx_errlen() > 0), "a dropped design is reported, and only that"); sym_cover("uniq"); }
/* names that are no names */
static void s_bad(void) {
  static const char *const B[] = {"1a", "-a", "_a", "\xc3\xa4", "a\xc3\xa4", "\"a\"", "a.b", "a b", "a,", ",a", "a,,b", "a, \xc3\xb6", "a; b", "", "(a)", "a, 1", "a:", "{a"}; int k = sym_choice("bad", LEN(B) + 1); const char *n = k < LEN(B) ? B[k] : 0; int ok = 0, e = 0;
  if (!n) { char b[4]; for (int i = 0; i < 3; i++) b[i] = sym_concretize(sym_byte("n", i ? "aZ19-_.~" : "aZ1_-.", i ? 8 : 6)); b[3] = 0; n = sdup(b, 3); ok = b[0] == 'a' || b[0] == 'Z'; for (int i = 1; i < 3; i++) ok &= b[i] != '.' && b[i] != '~'; e = sym_choice("end", 3); if (e == 1) ok = 0; }
  cdesign(&cfg, n, e == 1 ? cat(n, "x") : e == 2 && ok ? sdup(n, 3) : n, SH[0], 0); if (k == 3) { bstr(&cfg, "\n"); } put_file("/c", &cfg); base(); int rc = run();
  if (ok) { sym_assert(rc == 0 && bx_errlen() == 0, "a valid name is accepted"); expect_left(&want, SH[0], "hi"); sym_assert(out_is(&want), "the design is used"); sym_cover("goodname"); } else { rejected_(rc, "an invalid name is rejected"); sym_cover("badname"); } }
void harness_main(void) { world_reset(); switch (sym_choice("what", 4)) { case 0: s_pick(); break; case 1: s_default(); break; case 2: s_uniq(); break; case 3: s_bad(); break; } }
