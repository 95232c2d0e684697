/* B17: every invocation ends, with status 0, or with status 1, a message, and nothing on standard output. */
#include "mixlib.h"
#ifndef WHAT
#define WHAT sym_choice("what", 5)
#endif
static void opts_(const char *s) { while (*s) { int n = 0; while (s[n] && s[n] != ' ') n++; char *a = sdup(s, n); for (int i = 0; i < n; i++) { if (a[i] == '?') a[i] = sym_concretize(sym_byte("opt", "017xah-,", 8)); else if (a[i] == '#') a[i] = sym_concretize(sym_byte("num", "013", 3)); else if (a[i] == '_') a[i] = ' '; } arg(a); s += n; while (*s == ' ') s++; } }
static const char *const OS[] = {"", "-s ?#x#?", "-s #0x##", "-s ##", "-p ?#", "-p a#h#", "-a ?c", "-a h?v?", "-a j?hcvc", "-t #?", "-t #?u", "-t ?e", "-i ?", "-i n -s 9#", "-k ?", "-k no -r", "-r", "-m", "-r -a c", "-m -s 2#x1#", "-m -k yes", "-m -p a#", "-d ?", "-d t -r", "-d t -m -i t", "-q ?a", "-q a,?", "-l", "-l -d t", "-l -d ?", "-e ?", "-e CRLF -l", "-c ??", "-c ? -r", "-c x -m", "-n ?", "-n UTF-8", "-f /nope", "-f", "-?", "--color --no-color", "--siz ##", "-f /c /no", "-v", "-h", "-x ?", "-x _ ?", "-d t -d t", "-c a -d t", "-s 300x9#", "-p a99 -s 9#", "-t 16u -m", "-r -l", "-q a -l", "-m -r"};
static const char *const EX[] = {"", "replace \"x*\" with \"y\"", "replace \"\" with \"-\"", "reverse \"b*\" to \"\"", "replace \"^\" with \" \"", "replace \"$\" with \"aa\"", "replace \"a|\" with \"$0a\"", "reverse once \"(?=b)\" to \"c\"", "replace \"a\" with \"\" replace \"b\" with \"\" replace \"c\" with \"\"", "padding { left 9 top 9 right 9 bottom 9 }", "replace \"(\" with \"x\"", "indent \"q\"", "tags (\"a\",\"a\",\"-\")", "size 20 30", "padding { left -1 }", "foo bar baz"};
static const char *const BAD[] = {"", "\n\n# only a comment\n", "BOX", "BOX t", "BOX t\nEND t\n", "BOX t\nsample\nx\nends\nEND t\n", "BOX t\nsample\nx\nends\nshapes { w (\"|\") }\nEND t\n", "BOX t\nsample\nx\nends\nshapes { }\nelastic (w)\nEND t\n", "BOX t\nsample\nx\nends\nshapes { w (\"|\") \nelastic (w)\nEND t\n", "BOX t\nsample\nx\nshapes { w (\"|\") }\nelastic (w)\nEND t\n", "BOX t\nsample\nx\nends\nshapes { w (\"|) }\nelastic (w)\nEND t\n", "BOX t\nsample\nx\nends\nshapes { w (\"|\") }\nelastic (w)\nEND u\n", "END t\n", "parent /c\n", "parent /nope\n", "parent /d\n", "parent\n", "\xef\xbb\xbf" "BOX t\nsample\nx\nends\nshapes { w (\"|\") }\nelastic (w)\nEND t\n", "BOX t\nsample\nx\nends\nshapes { w (\"|\") }\nelastic (w)\nEND t", "BOX t\r\nsample\r\nx\r\nends\r\nshapes { w (\"|\") }\r\nelastic (w)\r\nEND t\r\n", "BOX t\nsample\nx\nends\nshapes { w (\"|\"", "BOX t\ndelim \\\nsample\nx\nends\nshapes { w (\"|\") }\nelastic (w)\nEND t\n", "BOX t\ndelim ??\nsample\nx\nends\nshapes { w (?|?) }\nelastic (w)\nEND t\n", "BOX t\nsample\nends\nshapes { w (\"|\") }\nelastic (w)\nEND t\n", "BOX t\nsample\nx\nends\nshapes { w (\"\") }\nelastic (w)\nEND t\n", "BOX t\nsample\nx\nends\nshapes { w (\"\t\") }\nelastic (w)\nEND t\n", "BOX t\nsample\nx\nends\nshapes { n (\"a\",\"bb\") }\nelastic (n)\nEND t\n", "BOX t\nsample\nx\nends\nshapes { n (\"<>\") s (\"=\") }\nelastic (n, s)\nEND t\nBOX t\nsample\nx\nends\nshapes { w (\"|\") }\nelastic (w)\nEND t\n", "}}}} (((( \"\"\"\" \\ \\", "\x01\x02\xff\xfe\n", "BOX t, t, t\nsample\nx\nends\nshapes { w (\"|\") }\nelastic (w)\nEND t\n", "BOX \xc3\xa4\nsample\nx\nends\nshapes { w (\"|\") }\nelastic (w)\nEND \xc3\xa4\n", "parent /p\nBOX t\nsample\nx\nends\nshapes { w (\"|\") }\nelastic (w)\nEND t\n", "BOX t\nsample\nx\nends\nshapes { w (\"|\") }\nelastic w\nEND t\n", "BOX t\nauthor \"x\nsample\nx\nends\nshapes { w (\"|\") }\nelastic (w)\nEND t\n"};
#if TIER
#define T3 "^^^"
#else
#define T3 "^a^"
#endif
static const char *const WT[] = {"", "\n", "^", T3, "a^\nb^", "\033^", "\033[^m", "\xe5^\xbd", "\t^\r^\n", "x\n\n^\n", " ^", "\xc2\xa0^\n", "a^\nb\n"};
static void text_(int t) { static const char any[] = "a \t\r\n\x1b[0m|+-*#\x01\x7f\xe5\xae\xbd\xcc\x81\xff"; for (const u8 *p = (const u8 *) WT[t]; *p; p++) { if (*p == '^') bput(&txt, sym_byte("any", any, sizeof any - 1)); else bput(&txt, *p); } }
static int drawing(void) { for (int i = 1; i < An_; i++) { const char *a = A_[i]; if (a[0] == '-' && (strchr("rmlqhvx", a[1]) && a[1])) return 0; } return 1; }
static int visible(void) { for (int i = 0; i < txt.n; i++) { int c = txt.b[i]; if (c > 32 && c < 127 && c != '[' && c != '0' && c != 'm') return 1; } return 0; }
static int helpish(void) { for (int i = 1; i < An_; i++) if (!strcmp(A_[i], "-h") || !strcmp(A_[i], "-v") || !strcmp(A_[i], "-q") || !strcmp(A_[i], "-l") || A_[i][1] == 'x') return 1; return 0; }
static void check(int rc, int k) {
  sym_assert((rc == 0) | (rc == 1), "the exit status is 0 or 1"); if (rc == 1) { sym_assert(bx_errlen() > 0, "a failure comes with a message"); sym_assert(bx_outlen() == 0, "a failure does not leave a partial box"); sym_cover("fail"); }
  if (rc == 0 && drawing() && !helpish() && visible()) { sym_assert(bx_outlen() > 0, "a box is drawn around text"); if (k >= 0) { int nlines = 0; for (int i = 0; i < (int) bx_outlen(); i++) nlines += bx_out()[i] == '\n' || (bx_out()[i] == '\r' && !(i + 1 < (int) bx_outlen() && bx_out()[i + 1] == '\n')); if (bx_outlen() && bx_out()[bx_outlen() - 1] != '\n' && bx_out()[bx_outlen() - 1] != '\r') nlines++; int tn = 0; for (int i = 0; i < txt.n; i++) tn += txt.b[i] == '\n'; if (txt.n && txt.b[txt.n - 1] != '\n') tn++; sym_assert(nlines >= tn + G.th + G.bh, "the box is complete"); } sym_cover("drawn"); } }
static int gcd(int a, int b) { return b ? gcd(b, a % b) : a; }
/* opposite sides with elastic parts of a and b and fixed parts of ca and cb rows (columns): a box exists iff the lengths have a common solution */
static void sides(void) {
  static struct dsn d; int horiz = sym_choice("horiz", 2), a = 1 + sym_choice("a", 4), b = 1 + sym_choice("b", 4), ca = sym_choice("ca", TIER ? 4 : 3), cb = (ca + sym_choice("cb", TIER ? 4 : 2)) % 4; static const char *const LT[] = {"x", "xy", "xyz", "xyzw"}; d.sh[NW][0] = d.sh[NE][0] = d.sh[SW][0] = d.sh[SE][0] = "+"; d.sh[N][0] = d.sh[S][0] = "-"; d.sh[W][0] = d.sh[E][0] = "|"; d.el = EL(N) | EL(S) | EL(W) | EL(E);
  if (horiz) { d.sh[N][0] = LT[a - 1]; d.sh[S][0] = LT[b - 1]; if (ca) d.sh[NNE][0] = LT[ca - 1]; if (cb) d.sh[SSW][0] = LT[cb - 1]; } else { for (int i = 0; i < a; i++) d.sh[W][i] = "l"; for (int i = 0; i < b; i++) d.sh[E][i] = "r"; for (int i = 0; i < ca; i++) d.sh[WSW][i] = "m"; for (int i = 0; i < cb; i++) d.sh[ENE][i] = "n"; }
  emit_design(&cfg, "t", &d); arg("-f"); arg("/c"); static const char *const O5[] = {"", "-s 29x27", "-a c -p a2"}; opts_(O5[sym_choice("opts", 3)]); int n = ((int[]){1, 6, 23})[sym_choice("len", 3)]; for (int i = 0; i < n; i++) { bput(&txt, i == 1 ? sym_byte("any", "ab ", 3) : 'x'); if (!horiz) bput(&txt, '\n'); }
  world_file("/c", cfg.b, cfg.n, W_FILE); stdin_buf(&txt); int rc = run(); check(rc, -1); sym_assert(rc == ((ca - cb) % gcd(a, b) != 0), "a design fails exactly if its sides have no common length"); sym_cover("sides"); }
void harness_main(void) {
  world_reset(); world_file("/d", 0, 0, W_DIR); static struct buf pp; bstr(&pp, "parent /c\nBOX t, tt\nsample\nx\nends\nshapes { e (\"]\") }\nelastic (e)\nEND t\n"); world_file("/p", pp.b, pp.n, W_FILE);
  int what = WHAT, k = -1; args0();
  if (what == 0) { /* options, good ones and bad ones */ k = sym_choice("design", TIER ? ND : 5); if (!TIER) k = ((int[]){0, 3, 16, 9, 13})[k]; geo_init(&G, &D[k]); emit_design(&cfg, "t", &D[k]); arg("-f"); arg("/c"); opts_(OS[sym_choice("opts", LEN(OS))]); int c = 0; for (int i = 1; i < An_; i++) if (A_[i][0] == '-' && A_[i][1] == 'c') c = 1; text_(c || !TIER ? 12 : 4); if (c) k = -1; }
  else if (what == 1) { /* rules and extra entries */ static struct dsn d; int q = sym_choice("design", TIER ? ND : 5); q = TIER ? q : ((int[]){0, 2, 5, 9, 12})[q]; d = D[q]; d.extra = EX[sym_choice("extra", LEN(EX))]; emit_design(&cfg, "t", &d); arg("-f"); arg("/c"); static const char *const O3[] = {"", "-r", "-m", "-s 10x5 -a c", "-m -d t", "-l -d t"}; opts_(O3[sym_choice("opts", LEN(O3))]); static const char *const RT[] = {"^b\nab^", "bb", "a\n\n^", ""}; for (const char *p = RT[sym_choice("text", 4)]; *p; p++) bput(&txt, *p == '^' ? sym_byte("any", "abx ", 4) : *p); }
  else if (what == 2) { /* configurations */ const char *b = BAD[sym_choice("conf", LEN(BAD))]; int n = strlen(b), cut = sym_choice("cut", 2); bstr(&cfg, b); if (cut && n) { int at = sym_choice("at", TIER ? 16 : 6) * n / (TIER ? 16 : 6); cfg.b[at] = sym_concretize(sym_byte("mut", "\n\"({}), x\\#", 11)); } arg("-f"); arg("/c"); static const char *const O2[] = {"", "-l", "-d t", "-q x", "-r", "-d nope"}; opts_(O2[sym_choice("opts", LEN(O2))]); bstr(&txt, "a b\n\tc\n"); }
  else if (what == 4) { /* sides that may have no common length */ sides(); return; }
  else { /* texts */ k = sym_choice("design", TIER ? ND : 6); k = TIER ? k : ((int[]){0, 1, 8, 9, 11, 13})[k]; geo_init(&G, &D[k]); emit_design(&cfg, "t", &D[k]); arg("-f"); arg("/c"); static const char *const O4[] = {"", "-r", "-m", "-t 3u -a c", "-i t -a r", "-e CRLF -p a1", "-r -d t -k false"}; opts_(O4[TIER ? sym_choice("opts", LEN(O4)) : (k * 3 + sym_choice("opts", 4) * 2) % LEN(O4)]); text_(sym_choice("text", LEN(WT))); }
  world_file("/c", cfg.b, cfg.n, W_FILE); stdin_buf(&txt); int rc = run(); check(rc, what == 0 || what == 3 ? k : -1); sym_cover("end"); }
