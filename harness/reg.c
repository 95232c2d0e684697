/* B24: replacement rules. The rules applied to a line are computed by matchers written for each pattern of the table, not by the regex model. */
#include "rtlib.h"
#include "checks.h"
struct rule { const char *search, *rep; int m; };
/* m: a literal pattern is matched by its text, others by the functions below */
static const struct rule RU[] = {
  {"a", "b", 0}, {"b", "aa", 0}, {"ab", "", 0}, {"[ab]+", "<$0>", 1}, {"(a)(b)", "$2$1", 2}, {"a|bb", "$0$0", 3}, {"\xc3\xa4", "\xe5\xae\xbd", 0}, {"^b", "-", 4}, {"x", "\xc3\xa4", 0}, {" ", "_", 0},
  {"x*", "-", 5}, {"$", "!", 6}, {"(b?)a", "[${1}]", 7}, {"^ +", "", 8}, {"a", "  a", 0}, {"[^ ]$", "", 9}, {"b", "", 0}, {"\\w", "\\$$0", 10}, {"a(?=b)", "*", 11}, {"(?<!a)b", "c", 12}, {"x", "\\\\", 13}, {"\\*", "x", 14} };
static int lit(const u8 *p, const int *s, int n, int i) { int b = i; while (*p) { if (i >= n || s[i] != u8get(p)) return -1; i++; p += u8len(*p); } return i - b; }
static int ab(int c) { return (c == 'a') | (c == 'b'); }
static int word(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }
static int g1a, g2a; /* groups */
/* length of the match of the rule exactly at i, or -1 */
static int match(const struct rule *r, const int *s, int n, int i) {
  int j = i; g1a = g2a = -1;
  switch (r->m) {
    case 0: return lit((const u8 *) r->search, s, n, i);
    case 1: while (j < n && ab(s[j])) j++; return j > i ? j - i : -1;
    case 2: if (i + 1 < n && s[i] == 'a' && s[i + 1] == 'b') { g1a = i; g2a = i + 1; return 2; } return -1;
    case 3: return i < n && s[i] == 'a' ? 1 : i + 1 < n && s[i] == 'b' && s[i + 1] == 'b' ? 2 : -1;
    case 4: return i == 0 && n > 0 && s[0] == 'b' ? 1 : -1;
    case 5: while (j < n && s[j] == 'x') j++; return j - i;
    case 6: return i == n ? 0 : -1;
    case 7: if (i + 1 < n && s[i] == 'b' && s[i + 1] == 'a') return 2; return i < n && s[i] == 'a' ? 1 : -1;
    case 8: if (i) return -1; while (j < n && s[j] == ' ') j++; return j > i ? j - i : -1;
    case 9: return i == n - 1 && s[i] != ' ' ? 1 : -1;
    case 10: return i < n && word(s[i]) ? 1 : -1;
    case 11: return i + 1 < n && s[i] == 'a' && s[i + 1] == 'b' ? 1 : -1;
    case 12: return i < n && s[i] == 'b' && (i == 0 || s[i - 1] != 'a') ? 1 : -1;
    case 13: return i < n && s[i] == 'x' ? 1 : -1;
    case 14: return i < n && s[i] == '*' ? 1 : -1; }
  return -1; }
static int *ob, on;
static void oc(int c) { ob[on++] = c; }
static void put_rep(const struct rule *r, const int *s, int i, int len) {
  switch (r->m) { case 1: oc('<'); for (int k = 0; k < len; k++) oc(s[i + k]); oc('>'); return; case 2: oc(s[g2a]); oc(s[g1a]); return; case 3: for (int q = 0; q < 2; q++) for (int k = 0; k < len; k++) oc(s[i + k]); return;
    case 7: oc('['); if (len == 2) oc('b'); oc(']'); return; case 10: oc('$'); oc(s[i]); return; case 13: oc('\\'); return; default: { const u8 *p = (const u8 *) r->rep; while (*p) { oc(u8get(p)); p += u8len(*p); } } } }
static int subst_line(const struct rule *r, int global, const int *s, int n, int *out) {
  ob = out; on = 0; int p = 0, ne = 0; /* ne: the last match was empty, so an empty one at the same place does not count */
  for (;;) {
    int i = p, len = -1; for (; i <= n; i++) { len = match(r, s, n, i); if (len > 0 || (len == 0 && !(ne && i == p))) break; len = -1; }
    if (len < 0) break; for (int k = p; k < i; k++) oc(s[k]); match(r, s, n, i); put_rep(r, s, i, len); p = i + len; ne = 1; if (len > 0) ne = 0; if (!global) break; }
  for (; p < n; p++) oc(s[p]); return on; }
/* all rules in order, to one line */
static int nrep, rep[4], repg[4];
static int lineb[2][400];
static struct tl *apply(struct tl *t) {
  int n = t->n, c = 0; for (int i = 0; i < n; i++) lineb[0][i] = t->c[i];
  for (int k = 0; k < nrep; k++) { n = subst_line(&RU[rep[k]], repg[k], lineb[c], n, lineb[1 - c]); c = 1 - c; }
  struct tl *o = malloc(sizeof *o); o->n = o->cap = n; o->c = malloc(n * 4 + 4); for (int i = 0; i < n; i++) o->c[i] = lineb[c][i]; return o; }
static char rules_[600];
static int delim; /* 0: the default string delimiters, 1: ?" so that backslashes stand for themselves */
static void quote(char *o, const char *s) { int n = strlen(o), esc = delim ? '?' : '\\'; o[n++] = '"'; for (; *s; s++) { if (*s == '"' || *s == esc) o[n++] = esc; o[n++] = *s; } o[n++] = '"'; o[n] = 0; }
static void add_rules(const char *what, const char *link) { static const char *const G0[] = {" ", " once "}, *const G1[] = {" global ", " GLOBAL "}; delim = nrep ? rep[0] & 1 : 0; if (delim) strcat(rules_, "delim ?\"\n"); for (int k = 0; k < nrep; k++) { strcat(rules_, what); strcat(rules_, repg[k] ? repg[k] == 2 ? " " : G1[k % 2] : G0[1]); quote(rules_, RU[rep[k]].search); strcat(rules_, link); quote(rules_, RU[rep[k]].rep); strcat(rules_, "\n"); } }
static void pick_rules(int n, int max) { nrep = n; for (int k = 0; k < n; k++) { rep[k] = sym_choice(k ? "r2" : "r1", max); repg[k] = sym_choice("glob", TIER ? 3 : 2); } }
static struct dsn d1;
static const int RD[] = {0, 2, 3, 9, 16, 10, 13};
static void put_conf(const char *f, int k, char im) { d1 = D[k]; d1.extra = rules_; d1.indent = im; cfg.n = 0; emit_design(&cfg, "t", &d1); world_file(f, sdup((char *) cfg.b, cfg.n), cfg.n, W_FILE); geo_init(&G, &d1); pads(); }
static const char *const TT[] = {"a@~@\n", "ab@x\n~b@b\n", "  @b\n a~x\n", "\xc3\xa4@x\n\n@ab~b\n", "aaaaaaaaaabaaaaaaaa@a\n@\n"};
static void text_(const char *s) { const u8 *p = (const u8 *) s; while (*p) { if (*p == '@') t_sym("at", "abx", 3); else if (*p == '~') t_sym("ws", "ab x", 4); else if (*p == '\n') t_eol("\n"); else { t_ch(u8get(p)); p += u8len(*p); continue; } p++; } stdin_buf(&txt); }
static void substitute(void) { for (int k = 0; k < nl; k++) TLs[k] = apply(TLs[k]); }
/* the lines as the rules see them: without trailing blanks, and without the common indentation unless it belongs to the text */
static void as_lines(char m) { t_expect(8, m); for (int k = 0; k < nl; k++) { struct tl *o = malloc(sizeof *o); struct row *r = &XL[k]->r; o->n = 0; o->cap = r->n; o->c = malloc(r->n * 4 + 4); for (int i = 0; i < r->n; i++) if (r->c[i] != CONT) o->c[o->n++] = r->c[i]; TLs[k] = o; } }
static void s_draw(void) {
  int n = sym_choice("num", TIER ? 4 : 3), max = n == 1 ? LEN(RU) : n == 2 ? (TIER ? 14 : 7) : 6; pick_rules(n, max); int d = RD[TIER ? sym_choice("design", LEN(RD)) : (rep[0] * 3 + rep[1] + n + repg[0] * 2) % LEN(RD)]; rules_[0] = 0; add_rules("replace", " with "); char im = (TIER ? sym_choice("im", 2) : (rep[0] + repg[0]) & 1) ? 't' : 'b'; put_conf("/c", d, im); mode = im;
  args0(); arg("-f"); arg("/c"); ha = 'l'; va = 't'; switch (n == 1 || TIER ? sym_choice("opt", 3) : 0) { case 1: arg("-a"); arg("hrjr"); ha = 'r'; ju = 'r'; break; case 2: arg("-s"); arg("14x6"); reqw = 14; reqh = 6; break; }
  text_(TT[n < 2 || TIER ? sym_choice("text", LEN(TT)) : sym_choice("text", 2) * 2]); int rc = run(); sym_assert(rc == 0 && bx_errlen() == 0, "drawing succeeds"); if (rc) return;
  as_lines(mode); int com = common; substitute(); Wt = 0; int any = 0, mi = 1 << 20;
  for (int k = 0; k < nl; k++) { struct xl *x = malloc(sizeof *x); rinit(&x->r); for (int i = 0; i < TLs[k]->n; i++) rglyph(&x->r, TLs[k]->c[i]); if (x->r.n) sym_assume(x->r.c[x->r.n - 1] != ' '); x->ind = 0; while (x->ind < x->r.n && x->r.c[x->ind] == ' ') x->ind++; XL[k] = x; if (x->r.n) { any = 1; if (x->ind < mi) mi = x->ind; } if (x->r.n > Wt) Wt = x->r.n; }
  common = mode == 't' ? (any ? mi : 0) : com; measure_(); check01(); check02(); check03(); check04(); if (n == 1) check05(); sym_cover("draw"); }
/* removal: the reverse rules are applied to the text of a box that was drawn without rules */
static void s_remove(void) {
  int n = sym_choice("num", TIER ? 4 : 3), max = n == 1 ? LEN(RU) : n == 2 ? (TIER ? 10 : 7) : 6; pick_rules(n, max); int d = RD[TIER ? sym_choice("design", LEN(RD)) : (rep[0] * 3 + rep[1] + n + repg[0] * 2) % LEN(RD)]; rules_[0] = 0; char im = 'b'; put_conf("/p", d, im); mode = im; int mend = sym_choice("mend", 2);
  for (int k = 0; k < n; k++) sym_assume(RU[rep[k]].m != 5 && RU[rep[k]].m != 6 && RU[rep[k]].m != 9 && RU[rep[k]].m != 8 && rep[k] != 9); /* whether trailing blanks are part of the text is not specified */ add_rules("reverse", " to "); put_conf("/c", d, im);
  args0(); arg("-f"); arg("/p"); text_(TT[n < 2 || TIER ? sym_choice("text", 2) + (d == 0) * 2 * sym_choice("more", 2) : 0]); if (opened_ || nl > 9) return; int rc = run(); sym_assert(rc == 0, "drawing succeeds"); if (rc) return; static struct buf b; keep(&b);
  as_lines(mode); int com = common; if (com && n) for (int k = 0; k < n; k++) sym_assume(RU[rep[k]].search[0] != ' ' && RU[rep[k]].m != 4); substitute();
  if (mend) { stdin_buf(&b); args0(); arg("-f"); arg("/c"); arg("-m"); rc = run(); sym_assert(rc == 0, "mending succeeds"); if (rc) return; keep(&b); static struct buf nt; nt.n = 0; for (int k = 0; k < nl; k++) { if (TLs[k]->n) brep(&nt, ' ', com); for (int i = 0; i < TLs[k]->n; i++) u8put(&nt, TLs[k]->c[i]); bput(&nt, '\n'); } for (int k = 0; k < nl; k++) if (TLs[k]->n) sym_assume(TLs[k]->c[0] != ' ' && TLs[k]->c[TLs[k]->n - 1] != ' '); else if (k == 0 || k == nl - 1) return;
    stdin_buf(&nt); args0(); arg("-f"); arg("/p"); rc = run(); sym_assert(rc == 0 && same_as(&b), "mending draws the box around the reversed text"); sym_cover("mend"); return; }
  stdin_buf(&b); args0(); arg("-f"); arg("/c"); arg("-r"); rc = run(); sym_assert(rc == 0, "removing succeeds"); if (rc) return; parse_out("\n");
  for (int k = 0; k < nl; k++) { struct xl *x = malloc(sizeof *x); rinit(&x->r); for (int i = 0; i < TLs[k]->n; i++) rglyph(&x->r, TLs[k]->c[i]); while (x->r.n && x->r.c[x->r.n - 1] == ' ') x->r.n--; XL[k] = x; }
  sym_assert(same_text(kill_default(), com), "removing applies the reverse rules to the text"); sym_cover("remove"); }
/* rules that undo each other, as shipped: the text comes back */
static void s_pair(void) {
  static const char *const PR[][2] = {{"replace \"\\*/\" with \"*\\\\/\"\n", "reverse \"\\*\\\\/\" to \"*/\"\n"}, {"replace \"-->\" with \"-\\\\-\\\\>\"\n", "reverse \"-\\\\-\\\\>\" to \"-->\"\n"}, {"replace \"\\(\\*\" with \"(+*\"\n", "reverse \"\\(\\+\\*\" to \"(*\"\n"}}; static const char *const SY[] = {"*/ ", "-> ", "(* "};
  int k = sym_choice("pair", 3), d = RD[sym_choice("design", LEN(RD))]; rules_[0] = 0; strcat(rules_, "delim ?\"\n"); strcat(rules_, PR[k][0]); strcat(rules_, PR[k][1]); put_conf("/c", d, 'b'); mode = 'b'; t_ch('x'); for (int i = 0; i < 4; i++) t_sym("s", SY[k], 3); t_ch('y'); t_eol("\n"); t_str("z"); t_eol("\n"); stdin_buf(&txt);
  args0(); arg("-f"); arg("/c"); int rc = run(); sym_assert(rc == 0, "drawing succeeds"); if (rc) return; const char *bad = k == 0 ? "*/" : k == 1 ? "-->" : "(*"; int hit = 0, m = strlen(bad); for (int i = 0; i + m <= (int) bx_outlen(); i++) hit |= !memcmp(bx_out() + i, bad, m); sym_assert(!hit, "no match is left in the box");
  static struct buf b; keep(&b); stdin_buf(&b); arg("-r"); rc = run(); sym_assert(rc == 0 && same_as(&txt), "the text comes back"); sym_cover("pair"); }
void harness_main(void) { world_reset(); switch (sym_choice("what", 3)) { case 0: s_draw(); break; case 1: s_remove(); break; case 2: s_pair(); break; } }
