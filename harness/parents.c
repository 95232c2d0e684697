/* B19: parent configurations. The graph of parent declarations, their spelling and the designs of each file are symbolic choices. */
#include "conf.h"
#define NF 4
static const char *const PATH[NF] = {"/c", "/p/one", "/p/two", "/usr/share/boxes"};
static struct buf F[NF], want; static int par[NF][4], np[NF], has[NF][3], late[NF];
static const char *const DN[] = {"beta", "Alpha", "gamma"}; static const char *const DL[NF][3] = { {"beta", "Alpha", "gamma"}, {"Beta", "Alpha, al", "gamma, ga"}, {"beta, be", "ALPHA", "Gamma"}, {"beta", "alpha", "gamma"} };
static const int ORD[] = {1, 0, 2};
static char shp[NF][3][4];
static void parent(int f) { for (int i = 0; i < np[f]; i++) { int t = par[f][i]; bstr(&F[f], i & 1 ? "PARENT   " : "parent "); if (t == -1) bstr(&F[f], "/p/missing"); else if (t == -2) bstr(&F[f], ""); else if (t == 3 && (f != 2)) bstr(&F[f], f == 1 ? ":GLOBAL:" : ":global:"); else bstr(&F[f], PATH[t]); bstr(&F[f], i & 1 ? "  \n" : f == 1 ? "\r\n" : "\n"); } }
static void emit(int f) { bstr(&F[f], "# file\n"); if (!late[f]) parent(f); for (int d = 0; d < 3; d++) if (has[f][d]) { static char n[16]; int k = 0; for (; DL[f][d][k] && DL[f][d][k] != ','; k++) n[k] = DL[f][d][k]; n[k] = 0; cdesign(&F[f], DL[f][d], sdup(n, k), shp[f][d], 0); if (late[f] && d == 1) bstr(&F[f], "\n"); } if (late[f]) parent(f); put_file(PATH[f], &F[f]); }
static int q[16], nq_, err; static void closure(void) { int seen[NF] = {1}; q[0] = 0; nq_ = 1; err = 0; for (int i = 0; i < nq_; i++) { int f = q[i]; for (int k = np[f] - 1; k >= 0; k--) { int t = par[f][k]; if (t < 0) { err = 1; continue; } if (!seen[t]) { seen[t] = 1; q[nq_++] = t; } } } }
static int winner(int d) { for (int i = 0; i < nq_; i++) if (has[q[i]][d]) return q[i]; return -1; }
static void setp(int f, const int *l, int n) { np[f] = n; for (int i = 0; i < n; i++) par[f][i] = l[i]; }
#define P(f, ...) do { static const int l_[] = {__VA_ARGS__}; setp(f, l_, LEN(l_)); } while (0)
void harness_main(void) {
  world_reset(); for (int f = 0; f < NF; f++) for (int d = 0; d < 3; d++) { shp[f][d][0] = 'a' + d; shp[f][d][1] = '0' + f; shp[f][d][2] = '|'; }
  int gk = sym_choice("graph", 16); if (gk == 15) { /* any graph: the child declares up to two parents (thorough: every file), the others up to one */
    for (int f = 0; f < NF; f++) { int k = sym_choice("decl", f == 0 || TIER ? 3 : 2); if (k > np[f]) par[f][np[f]++] = sym_choice("to", NF); if (k > np[f]) par[f][np[f]++] = sym_choice("to", NF); } }
  switch (gk) { case 0: break; case 1: P(0, 1); break; case 2: P(0, 1, 2); break; case 3: P(0, 1); P(1, 2); break; case 4: P(0, 1); P(1, 0); break; case 5: P(0, 1, 2); P(1, 2); P(2, 1); break; case 6: P(0, 0); break; case 7: P(0, 3); break; case 8: P(0, 1, 1, 3); P(1, 3); break; case 9: P(0, 1, 2); P(1, 3); P(2, 3); break;
    case 10: P(0, 1); P(1, 2); P(2, 3); P(3, 1); break; case 11: P(0, -1, 1); break; case 12: P(0, 1); P(1, -1); break; case 13: P(0, 2); P(2, 0, 1, 3); break; case 14: P(0, 1, -1, 2); break; }
  int any_ = gk == 15, h = np[0] + np[1] * 2 + par[0][0] + par[1][0] + par[2][0] + np[2]; int s0 = any_ ? h % 4 : sym_choice("own", 4), s1 = 1 + (any_ ? h / 2 % 7 : sym_choice("p1", TIER ? 7 : 3)), s2 = 1 + (any_ ? h * 3 % 7 : sym_choice("p2", TIER ? 7 : 3)); late[0] = any_ ? h & 1 : sym_choice("late", 2); late[1] = s1 & 1; late[2] = !(s2 & 1); if (s1 == 3) s1 = 6; if (s2 == 3) s2 = 5; if (s0 == 3) s0 = 5;
  int S[NF] = {s0, s1, s2, 7}; for (int f = 0; f < NF; f++) for (int d = 0; d < 3; d++) has[f][d] = S[f] >> d & 1;
  if (err == 0) for (int f = 0; f < NF; f++) emit(f); closure();
  args0(); arg("-f"); arg("/c"); world_stdin("hi\n", 3, 0); int m = sym_choice("m", 8); int tot = 0, any = 0; for (int d = 0; d < 3; d++) { int w = winner(d); tot += w >= 0; }
  if (m >= 5) { /* by an alias that only one file gives; it is gone if a nearer file redefines the design */
    static const char *const A[] = {"AL", "ga", "be"}; static const int af[] = {1, 1, 2}, ad[] = {1, 2, 0}; int w = winner(ad[m - 5]); arg("-d"); arg(A[m - 5]); int rc = run(); if (w != af[m - 5]) { rejected_(rc, "the alias of an overridden design is gone"); return; }
    sym_assert(rc == 0, "an alias of a parent's design can be used"); expect_left(&want, shp[w][ad[m - 5]], "hi"); sym_assert(out_is(&want), "the alias selects its design"); sym_cover("alias"); }
  else if (m < 3) { /* one design by name */
    int w = winner(m); char *nm = sdup(DN[m], strlen(DN[m])); u8 cs[4] = {nm[1], nm[1] - 32, 'z', nm[1] ^ 1}; nm[1] = sym_byte("name", (const char *) cs, 4); arg("-d"); arg(nm); int rc = run(); if (nm[1] != cs[0] && nm[1] != cs[1]) { rejected_(rc, "a name that no design has is an error"); return; } if (w < 0) { rejected_(rc, "a design that no configuration has is an error"); sym_cover("unknown"); return; }
    sym_assert(rc == 0, "a design of a parent can be used"); expect_left(&want, shp[w][m], "hi"); sym_assert(out_is(&want), "the definition nearest to the child is used"); sym_cover("pick"); }
  else if (m == 3) { /* the list */
    arg("-l"); int rc = run(); if (!tot) { rejected_(rc, "no designs at all is an error"); return; } sym_assert(rc == 0, "listing succeeds"); if (err) sym_assert(bx_errlen() > 0, "a missing parent is reported"); else sym_assert(bx_errlen() == 0, "nothing to complain about");
    if (nq_ > 1) { bput(&want, '0' + tot); bstr(&want, tot == 1 ? " Available Style:\n" : " Available Styles:\n"); brep(&want, '-', (tot == 1 ? 17 : 18) + 1); bstr(&want, "\n\nConfiguration Files:\n"); for (int i = 0; i < nq_; i++) { bstr(&want, "    - "); bstr(&want, PATH[q[i]]); bstr(&want, i ? " (parent)\n" : "\n"); } bstr(&want, "\n\n"); }
    else { bput(&want, '0' + tot); bstr(&want, tot == 1 ? " Available Style in \"/c\":\n" : " Available Styles in \"/c\":\n"); brep(&want, '-', (tot == 1 ? 23 : 24) + 3); bstr(&want, "\n\n"); }
    static const char *const AL[NF][3] = { {0}, {0, "al", "ga"}, {"be", 0, 0}, {0} };
    for (int k = 0; k < 3; k++) { int d = ORD[k], w = winner(d); if (w < 0) continue; const char *s = DL[w][d]; while (*s && *s != ',') bput(&want, *s++); if (AL[w][d]) { bstr(&want, " alias "); bstr(&want, AL[w][d]); } bstr(&want, ":\n\n"); bstr(&want, shp[w][d]); bstr(&want, "\n\n\n"); }
    sym_assert(out_is(&want), "every design is listed once, from the file nearest to the child, and every file once"); sym_cover("list"); }
  else { /* the default: a design of the nearest file that has any */
    int rc = run(), w = -1; for (int i = 0; i < nq_ && w < 0; i++) for (int d = 0; d < 3; d++) if (has[q[i]][d]) w = q[i]; if (w < 0) { rejected_(rc, "no designs at all is an error"); return; }
    sym_assert(rc == 0, "the default design is used"); int ok = 0; for (int d = 0; d < 3; d++) if (has[w][d]) { expect_left(&want, shp[w][d], "hi"); ok |= out_is(&want); break; } sym_assert(ok, "the first design of the nearest file is the default"); sym_cover("default"); }
}
