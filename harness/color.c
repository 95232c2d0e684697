/* B11: escape sequences are invisible */
#include "rtlib.h"
static struct buf plain, p1, o3; static struct dsn DC, DP;
static const char *const SEQ[] = {"\033[1m", "\033[0m", "\033[38;5;12m", "\033[31;1m", "\033[K", "\033(B", "\033M", "\033[m", "\033[49m", "\033[39m"};
/* text with ` in place of sequences */
static const char *symseq(void) { static int k; char *r = (char *) pool_ + pn_; static char fin[63]; for (int i = 0; i < 63; i++) fin[i] = 0x40 + i; int n = 0; r[n++] = 27; r[n++] = '['; if (k++ & 1) r[n++] = sym_byte("par", "07", 2); else if (TIER) r[n++] = sym_byte("par", "0;?", 3); r[n++] = sym_byte("fin", fin, 63); r[n++] = 0; pn_ += n; return r; }
/* $ is a sequence with symbolic parameter and final byte */
static const char *const CT[] = { "a$b\n", "a^^\nb^^ \nc$\n", "  $ab$c\n d\n",  "a^b^c\n", "^ab^\n", "x^^y\n^z^\n", "  ^in^dent\n    more\n", "^\xe5\xae\xbd^a\n", "a^\xcc\x81^b\n", "ab\n^cd\nef^\n", "^a^ \n b\n", "a ^ b\n", "1234567890^\t^x\n", "^\n", "a^  ", "~^~^~\n@^\n", "a\033[49m \n\033[41mb\033[39m  \ncde\n", "  ^^a^^ b\n   c\n" };
static struct buf col; static int ns;
static void build(const char *s) { for (; *s; s++) { if (*s == '^') { const char *q = SEQ[(sym_choice("seq", TIER ? 4 : 2) + 2 * ns) % LEN(SEQ)]; ns++; bstr(&col, q); } else if (*s == '$') bstr(&col, symseq()); else if (*s == '@' || *s == '~') { int c = *s == '@' ? sym_byte("at", "ab", 2) : sym_byte("ws", "a ", 2); bput(&col, c); bput(&plain, c); } else { bput(&col, (u8) *s); bput(&plain, (u8) *s); } } }
static int streq(const char *a, const char *b) { return strcmp(a, b) == 0; }
static void strip(struct buf *d, const u8 *p, int n) { d->n = 0; for (int i = 0; i < n;) { if (p[i] == 27) { i += esclen(p + i, n - i); continue; } bput(d, p[i++]); } }
static void ropt(void) { switch (sym_choice("opt", 4)) { case 0: break; case 1: arg("-s"); arg("25x7"); arg("-a"); arg("hcvcjr"); break; case 2: arg("-i"); arg("text"); break; case 3: arg("-p"); arg("a1"); break; } }
static const int DS[] = {0, 8, 2, 5, 4, 15};
static const char *stripd(const char *s) { struct buf *b = malloc(sizeof *b); strip(b, (const u8 *) s, strlen(s)); b->b[b->n] = 0; return (const char *) b->b; }
static int cmp(const u8 *p, int n, const struct buf *b) { int ok = n == b->n; if (ok) for (int i = 0; i < n; i++) ok &= p[i] == b->b[i]; return ok; }
static int blank(int c) { return c == ' ' || c == '\t' || c == '\n' || c < 0; }
/* all sequences of the output come from the text, in order and between the same characters; those which are attached to blanks that
 * were dropped may be missing: a sequence belongs to the character behind it, a reset to the character before it */
static void check_seqs(int rm, int k) {
  int j = 0, inpl = 1, all = 1, over = 0; const u8 *p = o3.b; int n = o3.n, i = 0;
  for (j = 0; j < col.n;) { if (col.b[j] != 27) { j++; continue; } int m = esclen(col.b + j, col.n - j);
    int prev = -1, x; { int ls = j; while (ls > 0 && col.b[ls - 1] != '\n') ls--; for (x = ls; x < j;) if (col.b[x] == 27) x += esclen(col.b + x, j - x); else { prev = col.b[x]; x++; } } /* visible character before */
    int next = -1, nb = 0, pb = 0; for (x = j + m; x < col.n && col.b[x] != '\n';) if (col.b[x] == 27) x += esclen(col.b + x, col.n - x); else { if (next < 0) next = col.b[x]; nb |= !blank(col.b[x]); x++; } { int ls = j; while (ls > 0 && col.b[ls - 1] != '\n') ls--; for (x = ls; x < j;) if (col.b[x] == 27) x += esclen(col.b + x, j - x); else { pb |= !blank(col.b[x]); x++; } }
    const u8 *e = col.b + j; int dflt = m == 5 && ((e[2] == '1' && e[3] == '0') || (e[2] >= '3' && e[2] <= '5' && e[3] == '9') || (e[2] == '7' && e[3] == '5')), par0 = m == 3 || (m == 4 && e[2] == '0') || dflt; int reset = m >= 3 && e[1] == '[' && e[m - 1] == 'm' && par0; int quasi = reset || (m >= 3 && (e[1] == '[' || e[1] == '(') && par0), need = (pb && nb) || (!(rm ? quasi : reset) && !blank(next)) || (reset && !blank(prev)) || (next < 0 && !blank(prev) && !rm && G.have[RIGHT] && k != 4);
    /* behind a reset that follows the last character, sequences belong to the end of the line */
    if (!nb && !blank(prev)) { if (over && need) need = 0; over |= quasi; } else over = 0;
    int y = i; while (y < n && p[y] != 27) y++; int same = 0; if (y < n) { same = 1; for (int u = 0; u < m; u++) same &= y + u < n && p[y + u] == col.b[j + u]; if (esclen(p + y, n - y) != m) same = 0; }
    if (same) { int in1 = 1; int z = y; while (z < n && p[z] == 27) z += esclen(p + z, n - z); int q = y; while (q > 0 && p[q - 1] != 'm' && p[q - 1] != 'B' && p[q - 1] != 'K' && p[q - 1] != 'M') { break; } if (!blank(next)) in1 &= z < n && p[z] == next; if (!blank(prev) && y > 0 && p[y - 1] < 0x80 && (p[y - 1] >= 'a' && p[y - 1] <= 'l')) in1 &= p[y - 1] == prev; if (in1 || need) { inpl &= in1; i = y + m; } }
    else if (need) all = 0;
    j += m; }
  while (i < n && p[i] != 27) i++; sym_assert(all && i >= n, "every sequence of the text is output unchanged, and no other"); sym_assert(inpl, "sequences stay in their place"); }
void harness_main(void) {
  world_reset(); int k = DS[sym_choice("design", LEN(DS))], cd = sym_choice("cdesign", 2); DC = D[k]; if (cd && k != 8) for (int i = 0; i < 16; i++) if (DC.sh[i][0] && (i == N || i == W || i == SE)) DC.sh[i][0] = cat(cat("\033[3", num(i % 8)), cat(cat("m", DC.sh[i][0]), "\033[0m"));
  DP = DC; for (int i = 0; i < 16; i++) for (int l = 0; l < 4 && DC.sh[i][l]; l++) DP.sh[i][l] = stripd(DC.sh[i][l]);
  static struct buf cp, cc; geo_init(&G, &DP); emit_design(&cp, "t", &DP); emit_design(&cc, "t", &DC); world_file("/p", cp.b, cp.n, W_FILE); world_file("/c", cc.b, cc.n, W_FILE);
  build(CT[sym_choice("text", LEN(CT))]); args0(); ropt(); int a0 = An_; int op = sym_choice("op", 3);
  /* reference: text and design without sequences */
  An_ = a0; arg("-f"); arg("/p"); arg("--no-color"); stdin_buf(&plain); int rc = run(); sym_assert(rc == 0, "drawing succeeds"); if (rc) return; keep(&p1);
  An_ = a0; arg("-f"); arg("/c"); arg("--no-color"); stdin_buf(&col); rc = run(); sym_assert(rc == 0, "drawing succeeds"); if (rc) return; sym_assert(!has_ch(27), "no escape character with colour off"); sym_assert(same_as(&p1), "with colour off the output is the one without sequences");
  An_ = a0; arg("-f"); arg("/c"); arg("--color"); rc = run(); sym_assert(rc == 0, "drawing succeeds"); if (rc) return; keep(&o3); static struct buf st; strip(&st, o3.b, o3.n);
  { /* trailing blanks may differ */ static struct row R1[64]; static int n1; parse_buf(p1.b, p1.n, "\n"); n1 = no; int ok = 1; for (int i = 0; i < no && i < 64; i++) R1[i] = O[i]; parse_buf(st.b, st.n, "\n"); ok = no == n1; for (int i = 0; ok && i < no; i++) { int a = trimlen(&O[i]), b = trimlen(&R1[i]); if (a != b) ok = 0; for (int u = 0; u < a; u++) { ok &= O[i].c[u] == R1[i].c[u]; ok &= O[i].z[u] == R1[i].z[u]; } } sym_assert(ok, "sequences take no space"); }
  if (!cd && k != 8) check_seqs(0, k);
  if (op) { /* remove or mend the coloured box */ const char *o = op == 1 ? "-r" : "-m";
    An_ = a0; arg("-f"); arg("/p"); arg("--no-color"); arg(o); arg("-d"); arg("t"); stdin_buf(&p1); rc = run(); sym_assert(rc == 0, "removing succeeds"); if (rc) return; static struct buf p2; keep(&p2);
    An_ = a0; arg("-f"); arg("/c"); arg("--no-color"); arg(o); arg("-d"); arg("t"); stdin_buf(&o3); rc = run(); sym_assert(rc == 0, "removing succeeds"); if (rc) return; sym_assert(!has_ch(27), "no escape character with colour off"); 
    { static struct row R1[64]; int n1; static struct buf q; keep(&q); parse_buf(p2.b, p2.n, "\n"); n1 = no; for (int i = 0; i < no && i < 64; i++) R1[i] = O[i]; parse_buf(q.b, q.n, "\n"); int ok2 = no == n1; for (int i = 0; ok2 && i < no; i++) { int a = trimlen(&O[i]), b = trimlen(&R1[i]); if (a != b) ok2 = 0; for (int u = 0; u < a; u++) { ok2 &= O[i].c[u] == R1[i].c[u]; } } sym_assert(ok2, "removing a coloured box gives the text"); }
    if (!cd && k != 8) { static struct buf b; b = o3; An_ = a0; arg("-f"); arg("/c"); arg("--color"); arg(o); arg("-d"); arg("t"); stdin_buf(&b); rc = run(); sym_assert(rc == 0, "removing succeeds"); if (rc) return; keep(&o3); check_seqs(1, k); }
    sym_cover("remove"); }
  sym_cover("end");
}
