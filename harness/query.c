/* B15: tag queries against a reference of the query language, with the query (or the tags of a design) symbolic. */
#include "conf.h"
static struct buf cfg, want;
#define MAXT 12
struct dd { const char *name, *names, *al[3]; char tag[MAXT][16]; int nt; };
static struct dd DD[] = { {"delta", "delta, dd", {"dd"}}, {"Alpha", "Alpha"}, {"beta", "beta, b1, b2", {"b1", "b2"}}, {"gamma", "gamma"}, {"eps", "eps"} };
static const int ORD[] = {1, 2, 0, 4, 3};
static void tag(int d, const char *t) { strcpy(DD[d].tag[DD[d].nt++], t); }
/* a-z first, then a-z 0-9 -, not ending in -, no --, not starting with "none" */
static int valid(const char *t) { int n = strlen(t); if (!n || !(t[0] >= 'a' && t[0] <= 'z')) return 0; int ok = 1; for (int i = 0; i < n; i++) { ok &= (t[i] >= 'a' && t[i] <= 'z') || (t[i] >= '0' && t[i] <= '9') || t[i] == '-'; if (i) ok &= !(t[i] == '-' && t[i - 1] == '-'); } ok &= t[n - 1] != '-'; if (n >= 4) ok &= !(t[0] == 'n' && t[1] == 'o' && t[2] == 'n' && t[3] == 'e'); return ok; }
static int isw(int c) { return c == ' ' || c == '\t'; }
static int carries(struct dd *d, const char *t) { for (int i = 0; i < d->nt; i++) if (ieq_(d->tag[i], t)) return 1; return 0; }
struct qe { char pre, t[24]; }; static struct qe Q[16]; static int nq, badq;
static void parse_q(const char *s) {
  nq = 0; badq = 0; int n = strlen(s), b = 0;
  for (int i = 0; i <= n && !badq; i++) if (i == n || s[i] == ',') { int x = b, y = i; b = i + 1; while (x < y && isw(s[x])) x++; while (y > x && isw(s[y - 1])) y--; if (x == y) continue;
    struct qe *q = &Q[nq]; q->pre = 0; if (s[x] == '+' || s[x] == '-') q->pre = s[x++]; memcpy(q->t, s + x, y - x); q->t[y - x] = 0; if (strcmp(q->t, "(all)") && !valid(q->t)) { badq = 1; break; } for (int k = 0; k < nq; k++) if (ieq_(Q[k].t, q->t)) badq = 1; nq++; }
  if (!nq) badq = 1; }
static int matches(struct dd *d) { int plus = 0, plain = 0, any = 0; for (int i = 0; i < nq; i++) { int c = carries(d, Q[i].t); if (Q[i].pre == '-') { if (c) return 0; } else if (Q[i].pre == '+') { if (!c) return 0; plus = 1; } else { plain = 1; if (c || !strcmp(Q[i].t, "(all)")) any = 1; } } return plus || !plain || any; }
static void go(const char *q, int sp) {
  args0(); arg("-f"); arg("/c"); switch (sp) { case 0: arg("-q"); arg(q); break; case 1: arg(cat("-q", q)); break; case 2: arg("--tag-query"); arg(q); break; case 3: arg(cat("--tag-query=", q)); break; }
  int rc = run(); parse_q(q); if (badq) { rejected_(rc, "an ill-formed query is rejected"); sym_cover("bad"); return; }
  sym_assert(rc == 0, "a well-formed query is accepted"); want.n = 0;
  for (int i = 0; i < LEN(ORD); i++) { struct dd *d = &DD[ORD[i]]; if (!matches(d)) continue; bstr(&want, d->name); bput(&want, '\n'); for (int k = 0; k < 3 && d->al[k]; k++) { bstr(&want, d->al[k]); bstr(&want, " (alias)\n"); } }
  sym_assert(out_is(&want), "exactly the matching designs are printed, in order, with their aliases"); sym_cover("good"); }
static void emit(int skip, const char *own) {
  for (int d = 0; d < LEN(DD); d++) { static char t[256]; int n = 0; if (d == skip) { strcpy(t, own); } else { strcpy(t, DD[d].nt ? "tags (" : ""); for (int i = 0; i < DD[d].nt; i++) { if (i) strcat(t, ", "); strcat(t, i == 1 ? "\" " : "\""); strcat(t, DD[d].tag[i]); strcat(t, i == 1 ? "  \"" : "\""); } if (DD[d].nt) strcat(t, ")"); } (void) n; cdesign(&cfg, DD[d].names, DD[d].name, "X", sdup(t, strlen(t))); }
  put_file("/c", &cfg); }
void harness_main(void) {
  world_reset(); int m = sym_choice("mode", 4);
  tag(0, "a"); tag(0, "b"); tag(1, "b"); tag(1, "c1"); tag(2, "a"); tag(4, "a"); tag(4, "b"); tag(4, "c1");
  if (m == 0) { emit(-1, 0); /* elements with prefixes in any order */
    static const char *const T[] = {"a", "b", "c1", "zz", "(all)", "B", "a-"}; int n = 1 + sym_choice("n", 3); static struct buf q; for (int i = 0; i < n; i++) { if (i) bstr(&q, sym_choice("sep", 3) == 1 ? " , " : ","); int p = sym_choice("pre", 3), t = sym_choice("tag", n == 3 ? 3 : LEN(T)); sym_assume(t != 4 || !p); if (p) bput(&q, p == 1 ? '+' : '-'); bstr(&q, T[t]); } go(sdup((char *) q.b, q.n), n == 1 ? sym_choice("sp", 4) : 0);
  } else if (m == 3) { /* long queries: every element is present or not, with any prefix, in one of several orders */
    static const char *const T[] = {"aa", "bb", "cc", "dd", "ee", "ff"}; static const int PM[][6] = {{0,1,2,3,4,5}, {5,4,3,2,1,0}, {2,0,4,1,5,3}}; for (int d = 0; d < LEN(DD); d++) DD[d].nt = 0; for (int d = 0; d < LEN(DD); d++) for (int i = 0; i < 6; i++) if (d == 0 || (d == 1 && i < 4) || (d == 2 && i > 1) || (d == 3 && (i & 1)) || (d == 4 && i != 3)) tag(d, T[i]); emit(-1, 0);
    static struct buf q; int n = 4 + sym_choice("n", 3), pm = sym_choice("perm", 3), f = sym_choice("first", 2), x = sym_choice("odd", n), px = sym_choice("pre", 3), po = sym_choice("po", 3); for (int i = 0; i < n; i++) { if (i) bstr(&q, ","); int p = i == x ? px : i == 0 && f ? 0 : po; if (p) bput(&q, p == 1 ? '+' : '-'); bstr(&q, T[PM[pm][i]]); } go(sdup((char *) q.b, q.n), 0);
  } else if (m == 1) { emit(-1, 0); char b[12]; int n = sym_choice("len", TIER ? 7 : 6); for (int i = 0; i < n; i++) b[i] = sym_byte("q", "ab,+- C1n", 9); b[n] = 0; sym_assume(n); go(sdup(b, n), 0);
  } else { /* tags of one design symbolic, inside one string or several */
    int k = sym_choice("form", 4); char s[24]; int n = 3 + (k == 0 && TIER); for (int i = 0; i < n; i++) s[i] = sym_byte("t", "ab, -A", 6); s[n] = 0; static struct buf o; DD[3].nt = 0;
    switch (k) { case 0: bstr(&o, "tags \""); bstr(&o, s); bstr(&o, "\""); break; case 1: bstr(&o, "tags (\""); bstr(&o, s); bstr(&o, "\")"); break; case 2: bstr(&o, "TAGS (\"b\",\""); bstr(&o, s); bstr(&o, "\" )"); break; case 3: bstr(&o, "tags (\"a\") tags \""); bstr(&o, s); bstr(&o, "\""); break; }
    if (k == 2) tag(3, "b"); if (k == 3) tag(3, "a"); int b = 0; for (int i = 0; i <= n; i++) if (i == n || s[i] == ',') { int x = b, y = i; b = i + 1; while (x < y && isw(s[x])) x++; while (y > x && isw(s[y - 1])) y--; char t[24]; memcpy(t, s + x, y - x); t[y - x] = 0; if (valid(t) && !carries(&DD[3], t)) tag(3, t); }
    emit(3, sdup((char *) o.b, o.n)); static const char *const QQ[] = {"a", "b", "ab", "-a,-b", "+a,+b", "a-b", "aa"}; go(QQ[sym_choice("q", LEN(QQ))], 0); }
  sym_cover("end"); }
