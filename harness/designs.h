/* catalogue of designs with known geometry */
struct design { const char *name, *body; const char *author; };
#define DCFG(n, rest) "BOX " n "\nsample\n~~~\nends\n" rest "\nEND " n "\n"
static const char *const DESIGNS[] = {
/* 0 */ "shapes { nw (\"+\") n (\"-\") ne (\"+\") w (\"|\") e (\"|\") sw (\"+\") s (\"-\") se (\"+\") }\nelastic (n,e,s,w)",
/* 1 */ "shapes { nw (\"/*\") n (\"*\") ne (\"**\") w (\" *\") e (\"* \") sw (\" *\") s (\"*\") se (\"*/\") }\nelastic (n,e,s,w)\npadding { horiz 1 }",
/* 2 */ "shapes { w (\"# \") }\nelastic (w)",
/* 3 */ "shapes { nw (\" A-\", \"AAA\") nnw (\"x\",\"X\") n (\"==\", \"--\") nne (\"y\",\"Y\") ne (\"-B\",\"BB\") wnw (\"wnw\") w (\" w \") wsw (\"wsw\") ene (\"e1\") e (\"e2\") ese (\"e3\") sw (\"CCC\") ssw (\"p\") s (\"=-\") sse (\"q\") se (\"DD\") }\nelastic (n,s,w,e)",
/* 4 */ "shapes { nw (\"=\") n (\"=\") ne (\"=\") sw (\"=\") s (\"=\") se (\"=\") }\nelastic (n,s)\npadding { vertical 1 }",
/* 5 */ "shapes { nw (\"/\", \"|\") n (\"-\", \" \") ne (\"\\\\\", \"|\") w (\"|\") e (\"|\") sw (\"|\", \"\\\\\") s (\" \", \"_\") se (\"|\", \"/\") }\nelastic (n,e,s,w)\nindent \"text\"\npadding { left 2 top 1 right 1 bottom 0 }",
/* 6 */ "shapes { nw (\"<\") nnw (\"a\") n (\"-\") nne (\"b\") ne (\">\") w (\"[\") e (\"]\") sw (\"<\") s (\"_\") se (\">\") }\nelastic (nnw,nne,e,s,w)\nindent \"none\"",
/* 7 */ "shapes { nw (\"(\") n (\"-\") ne (\")\") e (\":\") sw (\"(\") s (\"-\") se (\")\") }\nelastic (n,e,s)",
/* 8 */ "shapes { nw (\"\033[1m+\033[0m\") n (\"\033[1m-\033[0m\") ne (\"+\") w (\"|\") e (\"\033[32m|\033[0m\") sw (\"+\") s (\"-\") se (\"+\") }\nelastic (n,e,s,w)",
/* 9 */ "shapes { nw (\"\xe2\x95\x94\") n (\"\xe2\x95\x90\") ne (\"\xe2\x95\x97\") w (\"\xe5\xae\xbd\") e (\"\xe2\x95\x91\") sw (\"\xe2\x95\x9a\") s (\"\xe2\x95\x90\") se (\"\xe2\x95\x9d\") }\nelastic (n,e,s,w)",
/* 10 */ "shapes { nw (\"+\") n (\"-\") ne (\"+\") w (\"|\") e (\"|\") sw (\"+\") s (\"-\") se (\"+\") }\nelastic (n,e,s,w)\nreplace \"a\" with \"bcd\"\nreplace once \"x(.)\" with \"$1y\"\nreverse \"bcd\" to \"a\"",
/* 11 */ "shapes { nw (\"+\") n (\"-\") w (\"|\") sw (\"+\") s (\"-\") }\nelastic (n,s,w)",
/* 12 */ "shapes { nw (\"+\", \"+\") nnw (\"-\", \"\033[1m-\033[0m\") n (\"-\", \"\033[1m=\033[0m\") ne (\"+\", \"+\") w (\"\033[31m|\033[0m\", \"|\") e (\"|\", \"\033[2m|\") sw (\"+\", \"+\", \"+\") s (\"-\", \"~\", \"\033[1;3m~\033[0m\") se (\"+\", \"\033[0m+\", \"+\") }\nelastic (n,e,s,w)",
/* 13 */ "shapes { nw (\"/=\", \"|-\") n (\"=\", \"-\") ne (\"\\\\\", \"|\") w (\"| \") e (\"|\") }\nelastic (n,w,e)\nreplace \"b\" with \"\"\nreverse \"^a*\" to \"\"",
/* 14 */ "shapes { e (\" ##\") sw (\"+.\", \"++\", \"'+\") s (\"_\", \"-\", \"~\") se (\"_##\", \".##\", \"~##\") }\nelastic (e,s)\npadding { all 1 }",
};
#define NDESIGNS 15
static void cfg_one(struct buf *c, int k) { bstr(c, "BOX t\nsample\nx\nends\n"); bstr(c, DESIGNS[k]); bstr(c, "\nEND t\n"); }
