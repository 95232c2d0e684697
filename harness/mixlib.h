/* option sets and texts for wide mixtures */
#ifndef MIXLIB_H
#define MIXLIB_H
#include "drawlib.h"
static int umode;
static const char *const OP_[] = {
  "", "p=l6t2 s=x5", "p=t6 s=10x7", "p=a4 s=9x6", "p=l9r1 s=14", "p=h5 a=hc", "p=l5r1 a=hc s=31", "p=t1b6 a=vb s=x9", "p=v3 a=vc s=40x20", "p=t7 a=vb s=x17", "s=1x1", "s=4", "s=x4", "s=33x3", "s=5x40", "s=72x4",
  "a=c", "a=l", "a=r", "a=c i=text", "a=r i=text s=44x9", "a=jc", "a=jr i=text", "a=hcjl", "a=hrjc s=37", "a=vcjr s=36x12", "a=hrvbjc s=50x15 p=a2", "a=jl i=text p=l3", "a=hcvb s=41x13 i=none", "a=hrvc s=42x14 i=text p=h2",
  "i=none", "i=text", "i=box", "i=n s=26x7", "i=t s=28x8", "i=b s=30x9", "t=4", "t=4u", "t=8u", "t=1u", "t=3u i=text", "t=2u i=box s=30", "t=16", "t=4u p=h3 a=r s=40x9", "t=5 i=none", "t=8u i=none a=c",
  "p=l0r7", "p=a0", "p=a1l3", "p=h2v1 s=25x9 a=hrvb", "p=r1 s=20 a=hr", "p=b2 s=x12 a=vb", "p=l12", "p=t3b1r2", "p=l2 a=hc s=27", "p=r3 a=hc s=28 i=text", "p=l1r1 a=c s=29x8", "p=b5 a=vc s=x16", "p=t4l4 s=24x10", "p=a3 s=12x9" };
static const char *const TT[] = {
  "@\n", "a\xcc\x81@\nlonger line ~\n", "lo\xcc\x81ng\xcc\x88 x~\n@\n\n \xe2\x82\xac\xcc\x81\n", "            ~@\n         b\n", "\t\t @\n\t\t  b\n\n\t\t   c~\n", "  @~@\n   ~b\n\n  c~~", "\xe5\xae\xbd@\n~x\n", "\n@b\n~\n", "\n\n\n", "~\n~\n~\n", "@\n\n~\n\n\n", "1\n22\n333\n4444\n55555\n@@\n~~~~~\n", "``\n` `\n",
  "\033[1m@\033[0m~c\n  @@\033[31mab\033[0mz\n", "@ some longer line of text, here ~ and there ~@\n    short\n@", "          \xe3\x80\x80x@\n          y\n", "a\t@\t~\n\tb\tc\n", "1\n2\n3\n4\n5\n6\n7\n8\n9\n@\n~\n~b\n", "~~~~~", " ~a\n~  b\n", "aaaaaaaa~\n         @\n", "abcde@\n\tx\n \t@", "\xf0\x9f\x98\x80@\xe2\x80\x8b~\n\xef\xbc\xa1\n", "~                                        @\n" };
static void digits(const char **p, int *v) { *v = 0; while (**p >= '0' && **p <= '9') *v = *v * 10 + *(*p)++ - '0'; }
static void options(const char *s) {
  while (*s) { char k = *s; s += 2; int n = 0; while (s[n] && s[n] != ' ') n++; char *v = sdup(s, n); const char *q = v; int x; static const char *const on[] = {"-s", "-p", "-a", "-i", "-t"}; const char *ks = "spait"; arg(on[strchr(ks, k) - ks]); arg(v);
    switch (k) {
      case 's': if (*q != 'x') digits(&q, &reqw); if (*q == 'x') { q++; digits(&q, &reqh); } break;
      case 'p': while (*q) { char c = *q++; digits(&q, &x); if (c == 'a' || c == 'h' || c == 'l') pl = x; if (c == 'a' || c == 'h' || c == 'r') pr = x; if (c == 'a' || c == 'v' || c == 't') pt = x; if (c == 'a' || c == 'v' || c == 'b') pb = x; } break;
      case 'a': while (*q) { char c = *q++; if (c == 'h') ha = *q++; else if (c == 'v') va = *q++; else if (c == 'j') ju = *q++; else { ha = ju = c; va = 'c'; } } break;
      case 'i': mode = *q; break;
      case 't': digits(&q, &tabd); if (*q == 'u') umode = 1; break; }
    s += n; while (*s == ' ') s++; } }
#endif
