From 23e8f8dd7b4b660119023e13af3e60de10e03baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 01/41] fix: allocate room for tab characters in
 bxs_from_unicode()

---
 src/bxstring.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bxstring.c b/src/bxstring.c
index 27abdea..9458fad 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -91,6 +91,11 @@ bxstr_t *bxs_from_unicode(uint32_t *pInput)
     result->memory = u32_strdup(pInput);
     result->num_chars = u32_strlen(pInput);
     size_t ascii_len = ((size_t) u32_strwidth(pInput, encoding)) + 1;
+    for (size_t i = 0; i < result->num_chars; i++) {
+        if (pInput[i] == char_tab) {
+            ++ascii_len;   /* tabs have no width for u32_strwidth(), but we represent them as one space */
+        }
+    }
     result->ascii = (char *) calloc(ascii_len, sizeof(char));
     size_t map_size = 5;
     result->first_char = (size_t *) calloc(map_size, sizeof(size_t));
-- 
2.43.0


From a6ef658283b0ce9978eb8098e24e2b376818f8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 02/41] fix: do not read before the start of an empty line when
 removing a box

---
 src/input.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input.c b/src/input.c
index 1442d6e..ba640a6 100644
--- a/src/input.c
+++ b/src/input.c
@@ -196,11 +196,11 @@ static void trim_trailing_ws_carefully(uint32_t *mbtemp, size_t *len_chars)
 {
     if (opt.r) {
         /* remove only trailing line breaks, but keep the space */
-        if (is_char_at(mbtemp, *len_chars - 1, char_newline)) {
+        if (*len_chars > 0 && is_char_at(mbtemp, *len_chars - 1, char_newline)) {
             set_char_at(mbtemp, *len_chars - 1, char_nul);
             --(*len_chars);
         }
-        if (is_char_at(mbtemp, *len_chars - 1, char_cr)) {
+        if (*len_chars > 0 && is_char_at(mbtemp, *len_chars - 1, char_cr)) {
             set_char_at(mbtemp, *len_chars - 1, char_nul);
             --(*len_chars);
         }
-- 
2.43.0


From aa72bbbfe8f4ba2cc5ad5341a44b844ac724be5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 03/41] fix: report illegal control characters in the input
 instead of crashing

---
 src/input.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/input.c b/src/input.c
index ba640a6..0d4e50f 100644
--- a/src/input.c
+++ b/src/input.c
@@ -159,6 +159,9 @@ int apply_substitutions(input_t *result, const int mode)
 
             bxs_free(result->lines[k].text);
             result->lines[k].text = bxs_from_unicode(newtext);
+            if (result->lines[k].text == NULL) {
+                return 1;   /* illegal character, error message was already printed */
+            }
 
             analyze_line_ascii(result, result->lines + k);   /* update maxline value */
 
@@ -236,6 +239,10 @@ input_t *read_all_input()
         memset(result->lines + result->num_lines, 0, sizeof(line_t));
 
         uint32_t *mbtemp = u32_strconv_from_input(buf);
+        if (mbtemp == NULL) {
+            BFREE(result->lines);
+            return NULL;
+        }
         size_t len_chars = u32_strlen(mbtemp);
         result->final_newline = has_linebreak(mbtemp, len_chars);
         trim_trailing_ws_carefully(mbtemp, &len_chars);
@@ -254,6 +261,10 @@ input_t *read_all_input()
             }
             result->lines[result->num_lines].text = bxs_from_unicode(temp);
             BFREE(temp);
+            if (result->lines[result->num_lines].text == NULL) {
+                BFREE(result->lines);   /* illegal character, error message was already printed */
+                return NULL;
+            }
         }
         else {
             result->lines[result->num_lines].text = bxs_new_empty_string();
-- 
2.43.0


From 0572f7527be0c7dc55c66f7d46810f6b05c1b5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 04/41] fix: do not let top and bottom side overlap when
 removing a box

---
 src/remove.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/remove.c b/src/remove.c
index 3081894..df19680 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1147,6 +1147,8 @@ int remove_box()
     }
     log_debug(__FILE__, MAIN, "ctx->bottom_start_idx = %d, ctx->bottom_end_idx = %d\n", (int) ctx->bottom_start_idx,
             (int) ctx->bottom_end_idx);
+    ctx->bottom_start_idx = BMAX(ctx->bottom_start_idx, ctx->top_end_idx);   /* top and bottom must not overlap */
+    ctx->bottom_end_idx = BMAX(ctx->bottom_end_idx, ctx->bottom_start_idx);
     if (ctx->bottom_start_idx > ctx->top_end_idx) {
         ctx->body_num_lines = ctx->bottom_start_idx - ctx->top_end_idx;
     }
-- 
2.43.0


From 3c1b0f3b09d891e5cf19fbe255814d5b62c0112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:39 +0000
Subject: [PATCH 05/41] fix: report read errors of the input file, not of stdin

---
 src/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input.c b/src/input.c
index 0d4e50f..697dcf5 100644
--- a/src/input.c
+++ b/src/input.c
@@ -274,7 +274,7 @@ input_t *read_all_input()
         ++result->num_lines;
     }
 
-    if (ferror(stdin)) {
+    if (ferror(opt.infile)) {
         perror(PROJECT);
         BFREE(result->lines);
         return NULL;
-- 
2.43.0


From 52d010f131de00534be676c7afa336a3254a89e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:39 +0000
Subject: [PATCH 06/41] fix: do not swallow a character that follows a lone
 escape character

---
 src/unicode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/unicode.c b/src/unicode.c
index a3b2b7d..ab086a0 100644
--- a/src/unicode.c
+++ b/src/unicode.c
@@ -195,6 +195,10 @@ uint32_t *advance_next32(const uint32_t *s, size_t *invis)
                 break;
             }
         } else {
+            if (ansipos == 1) {
+                /* Not an escape sequence, so this char must be seen in the next step */
+                rest = s + *invis;
+            }
             break;
         }
     }
-- 
2.43.0


From e9a0c1b3e19fe13fcb9ceb8c7aded5af3f0316df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:39 +0000
Subject: [PATCH 07/41] fix: do not treat double-wide blanks as removable
 indentation

---
 src/bxstring.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bxstring.c b/src/bxstring.c
index 9458fad..4c32a06 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -148,6 +148,9 @@ bxstr_t *bxs_from_unicode(uint32_t *pInput)
                 }
             }
             if (is_blank(c)) {
+                if (cols != 1) {
+                    indent_active = 0;   /* indentation is removed by characters, so it must not contain wide blanks */
+                }
                 if (indent_active) {
                     result->indent += cols;
                 }
-- 
2.43.0


From 16de7aa2f02057b812d81dae985376f9c5d7d73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:39 +0000
Subject: [PATCH 08/41] fix: honour right padding when aligning right with only
 one column to fill

---
 src/generate.c | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index ea937d7..ee68933 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -956,33 +956,20 @@ int output_box(const sentry_t *thebox)
     set_char_at(hfill2, hfill, char_nul);
     hpl = 0;
     hpr = 0;
-    if (hfill == 1) {
-        if (opt.halign == 'r'
-                || opt.design->padding[BLEF] > opt.design->padding[BRIG]) {
-            hpl = 1;
-            hpr = 0;
-        }
-        else {
-            hpl = 0;
-            hpr = 1;
-        }
+    hfill -= opt.design->padding[BLEF] + opt.design->padding[BRIG];
+    if (opt.halign == 'c') {
+        hpl = hfill / 2 + opt.design->padding[BLEF];
+        hpr = hfill / 2 + opt.design->padding[BRIG] + (hfill % 2);
+    }
+    else if (opt.halign == 'r') {
+        hpl = hfill + opt.design->padding[BLEF];
+        hpr = opt.design->padding[BRIG];
     }
     else {
-        hfill -= opt.design->padding[BLEF] + opt.design->padding[BRIG];
-        if (opt.halign == 'c') {
-            hpl = hfill / 2 + opt.design->padding[BLEF];
-            hpr = hfill / 2 + opt.design->padding[BRIG] + (hfill % 2);
-        }
-        else if (opt.halign == 'r') {
-            hpl = hfill + opt.design->padding[BLEF];
-            hpr = opt.design->padding[BRIG];
-        }
-        else {
-            hpl = opt.design->padding[BLEF];
-            hpr = hfill + opt.design->padding[BRIG];
-        }
-        hfill += opt.design->padding[BLEF] + opt.design->padding[BRIG];
+        hpl = opt.design->padding[BLEF];
+        hpr = hfill + opt.design->padding[BRIG];
     }
+    hfill += opt.design->padding[BLEF] + opt.design->padding[BRIG];
     set_char_at(hfill1, hpl, char_nul);
     set_char_at(hfill2, hpr, char_nul);
 
-- 
2.43.0


From 510facce2138ab5cbfeedfd232e2d60498c6b5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 09/41] fix: expand tabs to the right display column after wide
 characters and escape sequences

---
 src/tools.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/tools.c b/src/tools.c
index 2960f62..3b89cb8 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -249,22 +249,33 @@ size_t expand_tabs_into(const uint32_t *input_buffer, const int tabstop, uint32_
         }
     }
 
-    ucs4_t puc;
+    size_t col = 0;                             /* display column, which is what tab stops refer to */
+    size_t step_invis = 0;
     const uint32_t *rest = input_buffer;
     io = 0;
-    while ((rest = u32_next(&puc, rest)) && io < (LINE_MAX_BYTES - 12)) {
-        if (puc == char_tab) {
+    while (!is_empty(rest) && io < (LINE_MAX_BYTES - 12)) {
+        const uint32_t *next = advance_next32(rest, &step_invis);
+        if (step_invis > 0) {
+            for (; rest < next && io < (LINE_MAX_BYTES - 12); ++rest) {
+                set_char_at(temp, io, *rest);   /* escape sequences are copied, but take no space */
+                ++io;
+            }
+        }
+        else if (*rest == char_tab) {
             if (*tabpos_len > 0) {
                 (*tabpos)[tabnum++] = io;
             }
-            size_t num_spc = tabstop - (io % tabstop);
+            size_t num_spc = tabstop - (col % tabstop);
             u32_set(temp + io, char_space, num_spc);
             io += num_spc;
+            col += num_spc;
         }
         else {
-            set_char_at(temp, io, puc);
+            set_char_at(temp, io, *rest);
             ++io;
+            col += BMAX(0, uc_width(*rest, encoding));
         }
+        rest = next;
     }
     temp[io] = 0;
 
-- 
2.43.0


From 999ed7bb39fe9f2f4447e1acfdb1147cbebd0c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:00 +0000
Subject: [PATCH 10/41] fix: reject padding values without a number or out of
 range

---
 src/cmdline.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cmdline.c b/src/cmdline.c
index 2f98398..295f363 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -20,6 +20,7 @@
 #include "config.h"
 #include <errno.h>
 #include <getopt.h>
+#include <limits.h>
 #include <stdio.h>
 #include <string.h>
 #include <strings.h>
@@ -370,12 +371,14 @@ static int padding(opt_t *result, char *optarg)
             break;
         }
         char c = *p;
+        char *num = p + 1;
         errno = 0;
-        int size = (int) strtol(p + 1, &p, 10);
-        if (errno || size < 0) {
+        long value = strtol(num, &p, 10);
+        if (errno || *num < '0' || *num > '9' || value > INT_MAX) {
             errfl = 1;
             break;
         }
+        int size = (int) value;
         switch (c) {
             case 'a': case 'A':
                 result->padding[BTOP] = size;
-- 
2.43.0


From 8aaafdb554bfacccdb329ad6314a8083b445a012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:00 +0000
Subject: [PATCH 11/41] fix: reject tab stop distances which exceed the int
 range

---
 src/cmdline.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cmdline.c b/src/cmdline.c
index 295f363..16bfe27 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -527,12 +527,12 @@ static int debug_areas(opt_t *result, char *optarg)
 static int tab_handling(opt_t *result, char *optarg)
 {
     char *p;
-    int width = (int) strtol(optarg, &p, 10);
+    long width = strtol(optarg, &p, 10);
     if (width < 1 || width > MAX_TABSTOP) {
-        bx_fprintf(stderr, "%s: invalid tab stop distance -- %d\n", PROJECT, width);
+        bx_fprintf(stderr, "%s: invalid tab stop distance -- %ld\n", PROJECT, width);
         return 1;
     }
-    result->tabstop = width;
+    result->tabstop = (int) width;
 
     int errfl = 0;
     if (*p != '\0') {
-- 
2.43.0


From 77edf2f7b5edfe098ef874917f09a8a6ec11398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:00 +0000
Subject: [PATCH 12/41] fix: reject box size specifications with trailing
 garbage

---
 src/cmdline.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cmdline.c b/src/cmdline.c
index 16bfe27..ae1f964 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -454,14 +454,18 @@ static int size_of_box(opt_t *result, char *optarg)
         *p = '\0';
     }
     errno = 0;
+    int errfl = 0;
+    char *end;
     if (optarg != p) {
-        result->reqwidth = strtol(optarg, NULL, 10);
+        result->reqwidth = strtol(optarg, &end, 10);
+        errfl = (*end != '\0');
     }
     if (p) {
-        result->reqheight = strtol(p + 1, NULL, 10);
+        result->reqheight = strtol(p + 1, &end, 10);
+        errfl = errfl || (*end != '\0');
         *p = 'x';
     }
-    if (errno || (result->reqwidth == 0 && result->reqheight == 0) || result->reqwidth < 0 || result->reqheight < 0) {
+    if (errno || errfl || (result->reqwidth == 0 && result->reqheight == 0) || result->reqwidth < 0 || result->reqheight < 0) {
         bx_fprintf(stderr, "%s: invalid box size specification -- %s\n", PROJECT, optarg);
         return 1;
     }
-- 
2.43.0


From ac73119710079807471557aacdeb5b28c761bf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:00 +0000
Subject: [PATCH 13/41] fix: reject an empty indentation mode

---
 src/cmdline.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cmdline.c b/src/cmdline.c
index ae1f964..89d7f86 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -310,6 +310,10 @@ static int eol_override(opt_t *result, char *optarg)
 static int indentation_mode(opt_t *result, char *optarg)
 {
     size_t optlen = strlen(optarg);
+    if (optlen == 0) {
+        bx_fprintf(stderr, "%s: invalid indentation mode\n", PROJECT);
+        return 1;
+    }
     if (optlen <= 3 && !strncasecmp("box", optarg, optlen)) {
         result->indentmode = 'b';
     }
-- 
2.43.0


From 0e63498fa44b774ebb09dbf453baeb3169b3ff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:00 +0000
Subject: [PATCH 14/41] fix: reject an invalid -k value even if kill-blank was
 already set

---
 src/cmdline.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/cmdline.c b/src/cmdline.c
index 89d7f86..53e7a7b 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -340,17 +340,13 @@ static int indentation_mode(opt_t *result, char *optarg)
  */
 static int killblank(opt_t *result, char *optarg)
 {
+    int value = strisyes(optarg) ? 1 : 0;
+    if (!value && !strisno(optarg)) {
+        bx_fprintf(stderr, "%s: -k: invalid parameter\n", PROJECT);
+        return 1;
+    }
     if (result->killblank == -1) {
-        if (strisyes(optarg)) {
-            result->killblank = 1;
-        }
-        else if (strisno(optarg)) {
-            result->killblank = 0;
-        }
-        else {
-            bx_fprintf(stderr, "%s: -k: invalid parameter\n", PROJECT);
-            return 1;
-        }
+        result->killblank = value;
     }
     return 0;
 }
-- 
2.43.0


From 6fc7195da7c857812832afdc32c94bc59597326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:03 +0000
Subject: [PATCH 15/41] fix: do not overflow or crash on multi-byte or invalid
 command line designs

---
 src/boxes.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/boxes.c b/src/boxes.c
index 90f046e..996787e 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -111,6 +111,10 @@ static int build_design(design_t **adesigns, const char *cld)
     uint32_t *cld_u32 = u32_strconv_from_arg(cld, "UTF-8");
     bxstr_t *cldW = bxs_from_unicode(cld_u32);
     BFREE(cld_u32);
+    if (cldW == NULL || cldW->num_columns == 0 || !bxs_valid_in_shape(cldW, NULL)) {
+        fprintf(stderr, "%s: invalid command line design definition\n", PROJECT);
+        return 2;
+    }
 
     dp->shape[W].name = W;
     dp->shape[W].height = 1;
@@ -122,7 +126,7 @@ static int build_design(design_t **adesigns, const char *cld)
     }
     bxs_free(dp->shape[W].mbcs[0]);
     dp->shape[W].mbcs[0] = cldW;
-    strcpy(dp->shape[W].chars[0], cld);
+    strcpy(dp->shape[W].chars[0], cldW->ascii);
 
     for (i = 0; i < NUM_SHAPES; ++i) {
         c = dp->shape + i;
-- 
2.43.0


From 60d901c11c1b44c284f42ab4336be13be1ee69ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:03 +0000
Subject: [PATCH 16/41] fix: do not require a configuration file for command
 line designs

---
 src/boxes.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index 996787e..ec7d637 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -210,11 +210,11 @@ static void handle_command_line(int argc, char *argv[])
  */
 static void handle_config_parsing()
 {
-    bxstr_t *config_file = discover_config_file(0);
-    if (config_file == NULL) {
-        exit(EXIT_FAILURE);
-    }
     if (opt.cld == NULL) {
+        bxstr_t *config_file = discover_config_file(0);
+        if (config_file == NULL) {
+            exit(EXIT_FAILURE);
+        }
         size_t r_num_designs = 0;
         designs = parse_config_files(config_file, &r_num_designs);
         if (designs == NULL) {
-- 
2.43.0


From 999fca5bab9298e1397e37a6103489bd1ae911e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:27 +0000
Subject: [PATCH 17/41] fix: a tab option without expansion type means expand,
 also when given repeatedly

---
 src/cmdline.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cmdline.c b/src/cmdline.c
index 53e7a7b..56a5772 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -539,6 +539,7 @@ static int tab_handling(opt_t *result, char *optarg)
     result->tabstop = (int) width;
 
     int errfl = 0;
+    result->tabexp = 'e';
     if (*p != '\0') {
         if (p[1] != '\0') {
             errfl = 1;
-- 
2.43.0


From 112ece2e8d86046d25f0893a8649537b307ff82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:13 +0000
Subject: [PATCH 18/41] fix: requested size smaller than the design minimum
 made boxes with empty sides too large

---
 src/boxes.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index ec7d637..77f2a35 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -242,28 +242,32 @@ static void handle_config_parsing()
  */
 static void apply_expected_size()
 {
-    if (opt.reqheight > (long) opt.design->minheight) {
-        opt.design->minheight = opt.reqheight;
-    }
-    if (opt.reqwidth > (long) opt.design->minwidth) {
-        opt.design->minwidth = opt.reqwidth;
-    }
-    if (opt.reqwidth) {
+    long reqheight = opt.reqheight;
+    long reqwidth = opt.reqwidth;
+
+    if (reqwidth) {
         if (empty_side(opt.design->shape, BRIG)) {
-            opt.design->minwidth += opt.design->shape[SE].width;
+            reqwidth += opt.design->shape[SE].width;
         }
         if (empty_side(opt.design->shape, BLEF)) {
-            opt.design->minwidth += opt.design->shape[NW].width;
+            reqwidth += opt.design->shape[NW].width;
         }
     }
-    if (opt.reqheight) {
+    if (reqheight) {
         if (empty_side(opt.design->shape, BTOP)) {
-            opt.design->minheight += opt.design->shape[NW].height;
+            reqheight += opt.design->shape[NW].height;
         }
         if (empty_side(opt.design->shape, BBOT)) {
-            opt.design->minheight += opt.design->shape[SE].height;
+            reqheight += opt.design->shape[SE].height;
         }
     }
+
+    if (reqheight > (long) opt.design->minheight) {
+        opt.design->minheight = reqheight;
+    }
+    if (reqwidth > (long) opt.design->minwidth) {
+        opt.design->minwidth = reqwidth;
+    }
 }
 
 
-- 
2.43.0


From acc8d9a2dd9d91e06ad7be603fd54c377d6dd76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:39 +0000
Subject: [PATCH 19/41] fix: do not crash when both sides of a box match the
 same text of a line

---
 src/remove.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index df19680..e0bcb98 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1017,7 +1017,7 @@ static void remove_vertical_from_input(remove_ctx_t *ctx)
         size_t input_line_idx = ctx->top_end_idx + body_line_idx;
         bxstr_t *org_line = input.lines[input_line_idx].text;
         size_t s_idx = calculate_start_idx(ctx, body_line_idx);
-        size_t e_idx = calculate_end_idx(ctx, body_line_idx);
+        size_t e_idx = BMAX(s_idx, calculate_end_idx(ctx, body_line_idx));  /* both sides may match the same text */
         log_debug(__FILE__, MAIN, "remove_vertical_from_input(): body_line_idx=%d, input_line_idx=%d, s_idx=%d, "
                 "e_idx=%d, input.indent=%d\n", (int) body_line_idx, (int) input_line_idx, (int) s_idx, (int) e_idx,
                 (int) input.indent);
-- 
2.43.0


From b5d29aec65d72845b784998e8a1508691a7e41d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:56 +0000
Subject: [PATCH 20/41] fix: a requested box size must not affect padding when
 removing or mending a box

---
 src/boxes.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/boxes.c b/src/boxes.c
index 77f2a35..1c673c3 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -316,6 +316,9 @@ static void adjust_size_and_padding()
             opt.design->padding[i] = opt.padding[i];
         }
     }
+    if (opt.r) {
+        return;  /* the input still includes the box, so the size says nothing about the room left for padding */
+    }
 
     size_t pad = opt.design->padding[BTOP] + opt.design->padding[BBOT];
     if (pad > 0) {
-- 
2.43.0


From ea711a94863aecb9beca86dfd8ee8d2f2ad4f61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:34 +0000
Subject: [PATCH 21/41] fix: do not double the indentation or leave border
 blanks behind when removing a box with a blank or missing left side

---
 src/remove.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/remove.c b/src/remove.c
index e0bcb98..aaa1b38 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -977,6 +977,30 @@ static void remove_top_from_input(remove_ctx_t *ctx)
 
 
 
+/**
+ * Calculate the number of blanks which precede the text in a line where no left border shape was found.
+ * @param ctx the remove context
+ * @return the number of blanks before the text: the indentation of the box, plus the columns occupied by the left side
+ *      of the box if the shapes of that side are all blank
+ */
+static size_t blanks_before_text(remove_ctx_t *ctx)
+{
+    size_t result = 0;
+    if (!ctx->empty_side[BLEF]) {
+        result = input.indent;
+        sentry_t *shapes = opt.design->shape;
+        if (isdeepempty(shapes + WNW) && isdeepempty(shapes + W) && isdeepempty(shapes + WSW)) {
+            result += shapes[NW].width + opt.design->padding[BLEF];
+        }
+    }
+    else if (opt.indentmode == 'b' || opt.indentmode == '\0') {
+        result = input.indent;  /* will be restored */
+    }
+    return result;
+}
+
+
+
 static size_t calculate_start_idx(remove_ctx_t *ctx, size_t body_line_idx)
 {
     size_t input_line_idx = ctx->top_end_idx + body_line_idx;
@@ -987,6 +1011,9 @@ static size_t calculate_start_idx(remove_ctx_t *ctx, size_t body_line_idx)
     if (lctx->west_quality > 0) {
         s_idx = lctx->west_end + confirmed_padding(org_line, ctx->comp_type, lctx->west_end, opt.design->padding[BLEF]);
     }
+    else {
+        s_idx = confirmed_padding(org_line, ctx->comp_type, 0, blanks_before_text(ctx));
+    }
     if (ctx->comp_type == ignore_invisible_input || ctx->comp_type == ignore_invisible_all) {
         /* our line context worked with visible characters only, convert back to org_line */
         s_idx = org_line->first_char[s_idx];
-- 
2.43.0


From a8564e51e3a43231185d0619d2f04169f9c67262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:49 +0000
Subject: [PATCH 22/41] fix: blank lines in a box must not make it wider when
 mending

---
 src/remove.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index aaa1b38..d888645 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1211,7 +1211,8 @@ void output_input(const int trim_only)
         if (input.lines[j].text == NULL) {
             continue;
         }
-        bxstr_t *temp = bxs_rtrim(input.lines[j].text);
+        bxstr_t *temp = trim_only && bxs_is_blank(input.lines[j].text)
+                ? bxs_new_empty_string() : bxs_rtrim(input.lines[j].text);
         bxs_free(input.lines[j].text);
         input.lines[j].text = temp;
         if (trim_only) {
-- 
2.43.0


From c306b396f746b6bb21b3ab9c0c61c4fff81261ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:23 +0000
Subject: [PATCH 23/41] fix: mending a box with an empty top or bottom must not
 add padding rows again

---
 src/remove.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/remove.c b/src/remove.c
index d888645..1876232 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1157,6 +1157,9 @@ int remove_box()
     }
 
     if (ctx->empty_side[BTOP]) {
+        if (opt.mend) {
+            ctx->top_start_idx = 0;  /* leading blank lines may be top padding, which will be added again */
+        }
         ctx->top_end_idx = ctx->top_start_idx;
     }
     else {
@@ -1167,6 +1170,9 @@ int remove_box()
 
     ctx->bottom_end_idx = find_last_line() + 1;
     if (ctx->empty_side[BBOT]) {
+        if (opt.mend) {
+            ctx->bottom_end_idx = input.num_lines;  /* trailing blank lines may be bottom padding */
+        }
         ctx->bottom_start_idx = ctx->bottom_end_idx;
     }
     else {
-- 
2.43.0


From ee4efc62e667f317b60208502cd38d27a1782d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:52 +0000
Subject: [PATCH 24/41] fix: do not print escape sequences on removal when
 colors are off

---
 src/remove.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index 1876232..8918cd4 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1250,7 +1250,9 @@ void output_input(const int trim_only)
             indent = 0;
         }
 
-        char *outtext = u32_strconv_to_output(bxs_first_char_ptr(input.lines[j].text, indent));
+        bxstr_t *unindented = bxs_from_unicode(bxs_first_char_ptr(input.lines[j].text, indent));
+        char *outtext = bxs_to_output(unindented);
+        bxs_free(unindented);
         fprintf(opt.outfile, "%s%s%s", indentspc, outtext,
                 (input.final_newline || j < input.num_lines - 1 ? opt.eol : ""));
         BFREE(outtext);
-- 
2.43.0


From e0673d3a5d1430f72ea35ad24559c67d7bcd39fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:27 +0000
Subject: [PATCH 25/41] fix: keep all of several adjacent escape sequences when
 the indentation in front of them is removed

---
 src/bxstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bxstring.c b/src/bxstring.c
index 4c32a06..e69f3dc 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -126,7 +126,7 @@ bxstr_t *bxs_from_unicode(uint32_t *pInput)
             if (is_csi_reset(rest)) {
                 first_candidate = -1;
             }
-            else {
+            else if (first_candidate < 0) {
                 first_candidate = idx;
             }
         }
-- 
2.43.0


From 1def9747bef495fdd5c646f4a4c8629867f9bc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:27 +0000
Subject: [PATCH 26/41] fix: keep the width of indentation with more than one
 tab in tab mode 'keep'

---
 src/tools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.c b/src/tools.c
index 3b89cb8..a535b56 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -402,7 +402,7 @@ uint32_t *tabbify_indent(const size_t lineno, uint32_t *indentspc, const size_t
         if (tpos + nspc > input.indent) {
             break;
         }
-        set_char_at(result, tpos, char_tab);
+        set_char_at(result, tpos - (indentspc_len - result_len), char_tab);   /* earlier tabs are already shortened */
         result_len -= nspc - 1;
         set_char_at(result, result_len, char_nul);
     }
-- 
2.43.0


From cefe29850528391b22bd8ac7b60355ee2448d8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:28 +0000
Subject: [PATCH 27/41] fix: accept the indentation mode of a design in any
 letter case

---
 src/parsecode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsecode.c b/src/parsecode.c
index 9d5eb1c..4c52cfb 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -19,6 +19,7 @@
 
 #include "config.h"
 
+#include <ctype.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -767,7 +768,7 @@ int action_record_keyword(pass_to_bison *bison_args, char *keyword, bxstr_t *val
     else if (strcasecmp(keyword, "indent") == 0) {
         char *val = value->ascii;
         if (strcasecmp(val, "text") == 0 || strcasecmp(val, "box") == 0 || strcasecmp(val, "none") == 0) {
-            curdes.indentmode = val[0];
+            curdes.indentmode = tolower(val[0]);
         }
         else {
             yyerror(bison_args, "indent keyword must be followed by \"text\", \"box\", or \"none\"");
-- 
2.43.0


From abde5ac4bd80717d83299e88ff419d4caec4ac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:36 +0000
Subject: [PATCH 28/41] fix: do not read the first config file again when it is
 its own (grand)parent

---
 src/parsing.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsing.c b/src/parsing.c
index 65d21be..be4317b 100644
--- a/src/parsing.c
+++ b/src/parsing.c
@@ -219,7 +219,8 @@ static int record_parent_config_files(pass_to_bison *bison_args)
     if (bison_args->num_parent_configs > 0) {
         for (int parent_idx = bison_args->num_parent_configs - 1; parent_idx >= 0; parent_idx--) {
             bxstr_t *parent_file = bison_args->parent_configs[parent_idx];
-            int is_new = !array_contains_bxs(parent_configs, num_parent_configs, parent_file);
+            int is_new = bxs_strcmp(parent_file, first_config_file) != 0
+                    && !array_contains_bxs(parent_configs, num_parent_configs, parent_file);
             if (is_new) {
                 parent_configs = (bxstr_t **) realloc(parent_configs, (num_parent_configs + 1) * sizeof(bxstr_t *));
                 if (parent_configs == NULL) {
-- 
2.43.0


From 73e3ff70dd8631aeabb2be8bab7dbbd0b41af7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:29 +0000
Subject: [PATCH 29/41] fix: an alias of a parent design must not select it
 when a child config overrides the design

---
 src/parsecode.c | 50 ++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/src/parsecode.c b/src/parsecode.c
index 4c52cfb..b3cdb10 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -44,6 +44,16 @@
 
 static pcre2_code *eol_pattern = NULL;
 
+/** a design which was skipped because another one was requested by the user */
+typedef struct {
+    char    *name;
+    bxstr_t *config_file;
+} skipped_design_t;
+
+static skipped_design_t *skipped_designs = NULL;
+
+static size_t num_skipped_designs = 0;
+
 
 
 static int check_sizes(pass_to_bison *bison_args)
@@ -314,6 +324,41 @@ static int full_parse_required()
 
 
 
+/**
+ * Determine if the design currently being parsed is overridden by a design of the same name from a child config. The
+ * overriding design may already have been skipped if it does not carry the requested name.
+ * @param bison_args the bison state
+ * @return result flag
+ */
+static int is_overridden(pass_to_bison *bison_args)
+{
+    for (size_t i = 0; i < num_skipped_designs; ++i) {
+        if (skipped_designs[i].config_file != bison_args->config_file
+                && strcasecmp(skipped_designs[i].name, curdes.name) == 0) {
+            return 1;
+        }
+    }
+    return 0;
+}
+
+
+
+static int record_skipped_design(pass_to_bison *bison_args, char *design_name)
+{
+    skipped_designs = (skipped_design_t *) realloc(skipped_designs,
+            (num_skipped_designs + 1) * sizeof(skipped_design_t));
+    if (skipped_designs == NULL) {
+        perror(PROJECT);
+        return RC_ABORT;
+    }
+    skipped_designs[num_skipped_designs].name = strdup(design_name);
+    skipped_designs[num_skipped_designs].config_file = bison_args->config_file;
+    ++num_skipped_designs;
+    return RC_SUCCESS;
+}
+
+
+
 /**
  * Determine if the design currently being parsed is one that we will need.
  * @param bison_args the bison state
@@ -322,7 +367,7 @@ static int full_parse_required()
 static int design_needed(pass_to_bison *bison_args)
 {
     if (opt.design_choice_by_user) {
-        return design_has_name(&(curdes), (char *) opt.design);
+        return design_has_name(&(curdes), (char *) opt.design) && !is_overridden(bison_args);
     }
     else {
         if (full_parse_required() || bison_args->design_idx == 0) {
@@ -618,6 +663,9 @@ int action_start_parsing_design(pass_to_bison *bison_args, char *design_name)
     }
 
     if (!design_needed(bison_args)) {
+        if (record_skipped_design(bison_args, design_name) != RC_SUCCESS) {
+            return RC_ABORT;
+        }
         bison_args->speeding = 1;
         log_debug(__FILE__, PARSER, " Parser: Skipping to next design (lexer doesn't know!)\n");
         return RC_ERROR; /* trigger the parser's `error` rule, which will skip to the next design */
-- 
2.43.0


From a06a716711a5b732ed9ea8bb7dfc85bcb50a1631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:52 +0000
Subject: [PATCH 30/41] fix: do not reject well-formed designs whose last
 corner must be derived from the first one

---
 src/parsecode.c | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/parsecode.c b/src/parsecode.c
index b3cdb10..2f13b75 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -513,28 +513,23 @@ int action_finalize_shapes(pass_to_bison *bison_args)
     }
 
     for (sc = 0, side = fside; sc < NUM_SIDES; ++sc, side = (side + 1) % NUM_SIDES) {
-        shape_t nshape; /* next shape */
+        sentry_t *next; /* next shape on the side following the corner */
         sentry_t *c;    /* corner to be processed */
         c = curdes.shape + sides[side][SHAPES_PER_SIDE - 1];
 
         if (isempty(c)) {
-            nshape = findshape(c, SHAPES_PER_SIDE);
+            next = NULL;
+            for (i = 0; i < SHAPES_PER_SIDE && next == NULL; ++i) {
+                /* the left side ends with NW, which is the first shape again */
+                sentry_t *candidate = curdes.shape + (c - curdes.shape + i) % NUM_SHAPES;
+                next = isempty(candidate) ? NULL : candidate;
+            }
             if (side == BLEF || side == BRIG) {
-                if (nshape == SHAPES_PER_SIDE) {
-                    c->height = 1;
-                }
-                else {
-                    c->height = c[nshape].height;
-                }
+                c->height = next == NULL ? 1 : next->height;
                 c->width = curdes.shape[fshape].width;
             }
             else {
-                if (nshape == SHAPES_PER_SIDE) {
-                    c->width = 1;
-                }
-                else {
-                    c->width = c[nshape].width;
-                }
+                c->width = next == NULL ? 1 : next->width;
                 c->height = curdes.shape[fshape].height;
             }
             c->elastic = 0;
-- 
2.43.0


From 245288b2d31b1a826d5ce6560470b92d215b6301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:53 +0000
Subject: [PATCH 31/41] fix: report designs whose opposite sides can never
 match instead of looping forever

---
 src/generate.c | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index ee68933..fbf4e26 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -34,6 +34,36 @@
 
 
 
+/**
+ * Determine up to which size a common size of two opposite box sides must be searched. Because only the elastic shapes
+ * of a side are repeated, two sides which do not meet up to this size will never meet.
+ * @param sarr array of shapes from the current design
+ * @param side the shapes of the first side
+ * @param opposite the shapes of the opposite side
+ * @param horizontal flag indicating that the sides are horizontal, so that their size is their width
+ * @param target the minimum size
+ * @return the size at which the search can stop
+ */
+static size_t search_limit(const sentry_t *sarr, const shape_t *side, const shape_t *opposite, const int horizontal,
+                           const size_t target)
+{
+    size_t result = target;
+    size_t period[2] = {0, 0};
+    for (int i = 1; i < SHAPES_PER_SIDE - 1; ++i) {
+        const sentry_t *shapes[2] = {sarr + side[i], sarr + opposite[i]};
+        for (int k = 0; k < 2; ++k) {
+            if (!isempty(shapes[k])) {
+                size_t size = horizontal ? shapes[k]->width : shapes[k]->height;
+                result += size;
+                period[k] += shapes[k]->elastic ? size : 0;
+            }
+        }
+    }
+    return result + period[0] * period[1];
+}
+
+
+
 static int horiz_precalc(const sentry_t *sarr,
                          size_t *topiltf, size_t *botiltf, size_t *hspace)
 /*
@@ -100,6 +130,7 @@ static int horiz_precalc(const sentry_t *sarr,
              (int) input.maxline, (int) target_width, tnumsh, bnumsh);
     }
 
+    size_t limit = search_limit(sarr, north_side, south_side, 1, target_width);
     twidth = 0;
     bwidth = 0;
 
@@ -216,6 +247,10 @@ static int horiz_precalc(const sentry_t *sarr,
                 bx_fprintf(stderr, "%s: internal error in horiz_precalc()\n", PROJECT);
                 return 1;
         }
+        if (twidth > limit && bwidth > limit) {
+            bx_fprintf(stderr, "%s: top and bottom sides of this design cannot be made equally wide\n", PROJECT);
+            return 1;
+        }
     } while (twidth != bwidth || twidth < target_width || bwidth < target_width);
 
     *hspace = twidth;                    /* return either one */
@@ -284,6 +319,7 @@ static int vert_precalc(const sentry_t *sarr,
         }
     }
 
+    size_t limit = search_limit(sarr, west_side, east_side, 0, target_height);
     lheight = 0;
     rheight = 0;
 
@@ -400,6 +436,10 @@ static int vert_precalc(const sentry_t *sarr,
                 bx_fprintf(stderr, "%s: internal error in vert_precalc()\n", PROJECT);
                 return 1;
         }
+        if (lheight > limit && rheight > limit) {
+            bx_fprintf(stderr, "%s: left and right sides of this design cannot be made equally high\n", PROJECT);
+            return 1;
+        }
     } while (lheight != rheight || lheight < target_height || rheight < target_height);
 
     *vspace = lheight;                   /* return either one */
-- 
2.43.0


From 55787ad4d072c496ed3812d00079abc1e8089b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:53 +0000
Subject: [PATCH 32/41] fix: removal without mending must keep blank lines
 around a box with empty top or bottom

---
 src/remove.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/remove.c b/src/remove.c
index 8918cd4..598a10d 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1157,7 +1157,7 @@ int remove_box()
     }
 
     if (ctx->empty_side[BTOP]) {
-        if (opt.mend) {
+        if (opt.mend > 0) {
             ctx->top_start_idx = 0;  /* leading blank lines may be top padding, which will be added again */
         }
         ctx->top_end_idx = ctx->top_start_idx;
@@ -1170,7 +1170,7 @@ int remove_box()
 
     ctx->bottom_end_idx = find_last_line() + 1;
     if (ctx->empty_side[BBOT]) {
-        if (opt.mend) {
+        if (opt.mend > 0) {
             ctx->bottom_end_idx = input.num_lines;  /* trailing blank lines may be bottom padding */
         }
         ctx->bottom_start_idx = ctx->bottom_end_idx;
-- 
2.43.0


From f6e4ba3c3a391a853bf9346a9ddaac6b37c57760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:53 +0000
Subject: [PATCH 33/41] fix: blanks at the start of the left box side are not
 indentation

---
 src/remove.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/remove.c b/src/remove.c
index 598a10d..58a3917 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1001,6 +1001,27 @@ static size_t blanks_before_text(remove_ctx_t *ctx)
 
 
 
+/**
+ * Determine how many blank columns the left side of the box itself starts with. In the input, they look like
+ * indentation, but they belong to the box.
+ * @return the number of leading blanks common to all non-blank lines of the shapes of the left side
+ */
+static size_t blanks_in_left_border()
+{
+    size_t result = SIZE_MAX;
+    for (size_t i = 0; i < SHAPES_PER_SIDE; i++) {
+        sentry_t *shape = opt.design->shape + west_side[i];
+        for (size_t j = 0; j < shape->height; j++) {
+            if (!bxs_is_blank(shape->mbcs[j])) {
+                result = BMIN(result, shape->mbcs[j]->indent);
+            }
+        }
+    }
+    return result == SIZE_MAX ? 0 : result;
+}
+
+
+
 static size_t calculate_start_idx(remove_ctx_t *ctx, size_t body_line_idx)
 {
     size_t input_line_idx = ctx->top_end_idx + body_line_idx;
@@ -1186,6 +1207,10 @@ int remove_box()
         ctx->body_num_lines = ctx->bottom_start_idx - ctx->top_end_idx;
     }
 
+    if (!ctx->empty_side[BLEF]) {
+        input.indent -= BMIN(input.indent, blanks_in_left_border());
+    }
+
     if (ctx->body_num_lines > 0) {
         ctx->body = (line_ctx_t *) calloc(ctx->body_num_lines, sizeof(line_ctx_t));
         find_vertical_shapes(ctx);
-- 
2.43.0


From 21e810862078d1f9f84b791b959057cf9dad2937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:04 +0000
Subject: [PATCH 34/41] fix: size the box for the text after replacement rules,
 not before

---
 src/input.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/input.c b/src/input.c
index 697dcf5..069b800 100644
--- a/src/input.c
+++ b/src/input.c
@@ -135,6 +135,9 @@ int apply_substitutions(input_t *result, const int mode)
     /*
      *  Apply regular expression substitutions to input lines
      */
+    if (num_rules > 0) {
+        result->maxline = 0;    /* lines may become shorter, so we must determine this anew */
+    }
     for (k = 0; k < result->num_lines; ++k) {
         opt.design->current_rule = rules;
         for (j = 0; j < num_rules; ++j, ++(opt.design->current_rule)) {
@@ -163,8 +166,6 @@ int apply_substitutions(input_t *result, const int mode)
                 return 1;   /* illegal character, error message was already printed */
             }
 
-            analyze_line_ascii(result, result->lines + k);   /* update maxline value */
-
             if (is_debug_logging(REGEXP)) {
                 char *outtext2 = bxs_to_output(result->lines[k].text);
                 log_debug(__FILE__, REGEXP, "result->lines[%d] == {%d, \"%s\"}\n",
@@ -173,6 +174,7 @@ int apply_substitutions(input_t *result, const int mode)
             }
         }
         opt.design->current_rule = NULL;
+        analyze_line_ascii(result, result->lines + k);   /* update maxline value */
     }
 
     /*
-- 
2.43.0


From 281bd7f850fc8fc4d724a5821dded292d6e0712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:04 +0000
Subject: [PATCH 35/41] fix: report errors when writing the output instead of
 ignoring them

---
 src/boxes.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/boxes.c b/src/boxes.c
index 1c673c3..8d82d12 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -415,6 +415,19 @@ static void handle_remove_box()
 
 
 
+/**
+ * Make sure that everything we printed has really been written. May exit the program.
+ */
+static void check_output_written()
+{
+    if (fflush(opt.outfile) != 0 || ferror(opt.outfile)) {
+        perror(PROJECT);
+        exit(EXIT_FAILURE);
+    }
+}
+
+
+
 #ifndef __MINGW32__
     /* These two functions are actually declared in term.h, but for some reason, that can't be included. */
     extern NCURSES_EXPORT(int) setupterm(NCURSES_CONST char *, int, int *);
@@ -535,12 +548,14 @@ int main(int argc, char *argv[])
     /* If "-l" option was given, list designs and exit. */
     if (opt.l) {
         rc = list_designs();
+        check_output_written();
         exit(rc);
     }
 
     /* If "-q" option was given, print results of tag query and exit. */
     if (opt.query != NULL && opt.query[0] != NULL) {
         rc = query_by_tag();
+        check_output_written();
         exit(rc);
     }
 
@@ -571,6 +586,7 @@ int main(int argc, char *argv[])
         }
     } while (opt.mend > 0);
 
+    check_output_written();
     return EXIT_SUCCESS;
 }
 
-- 
2.43.0


From 8b57b5c0ac6ccc5896da6e04723904c37ac694c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:40 +0000
Subject: [PATCH 36/41] fix: apply design options to the autodetected design,
 not to the first one

---
 src/boxes.c  | 25 +++++++++++++++++++++----
 src/remove.c |  8 +-------
 src/remove.h |  7 +++++++
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index 8d82d12..86dd79b 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -272,6 +272,19 @@ static void apply_expected_size()
 
 
 
+/**
+ * Apply those command line options to the current design which take precedence over what the design itself specifies.
+ */
+static void apply_options_to_design()
+{
+    apply_expected_size();
+    if (opt.indentmode) {
+        opt.design->indentmode = opt.indentmode;
+    }
+}
+
+
+
 /**
  * Read all input lines and store the result in the global `input` structure. May exit the program.
  */
@@ -559,10 +572,7 @@ int main(int argc, char *argv[])
         exit(rc);
     }
 
-    apply_expected_size();
-    if (opt.indentmode) {
-        opt.design->indentmode = opt.indentmode;
-    }
+    apply_options_to_design();
     saved_designwidth = opt.design->minwidth;
     saved_designheight = opt.design->minheight;
 
@@ -576,6 +586,13 @@ int main(int argc, char *argv[])
 
         handle_input();
 
+        if (opt.r) {
+            detect_design_if_needed();  /* may change opt.design */
+            apply_options_to_design();
+            saved_designwidth = opt.design->minwidth;
+            saved_designheight = opt.design->minheight;
+        }
+
         adjust_size_and_padding();
 
         if (opt.r) {
diff --git a/src/remove.c b/src/remove.c
index 58a3917..8b2ed58 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -861,11 +861,7 @@ static void find_vertical_shapes(remove_ctx_t *ctx)
 
 
 
-/**
- * If the user didn't specify a design to remove, autodetect it.
- * Since this requires knowledge of all available designs, the entire config file had to be parsed (earlier).
- */
-static void detect_design_if_needed()
+void detect_design_if_needed()
 {
     if (opt.design_choice_by_user == 0) {
         design_t *tmp = autodetect_design();
@@ -1159,8 +1155,6 @@ static void apply_results_to_input(remove_ctx_t *ctx)
 
 int remove_box()
 {
-    detect_design_if_needed();
-
     remove_ctx_t *ctx = (remove_ctx_t *) calloc(1, sizeof(remove_ctx_t));
     ctx->empty_side[BTOP] = empty_side(opt.design->shape, BTOP);
     ctx->empty_side[BRIG] = empty_side(opt.design->shape, BRIG);
diff --git a/src/remove.h b/src/remove.h
index c0126f4..301f6e9 100644
--- a/src/remove.h
+++ b/src/remove.h
@@ -52,6 +52,13 @@ typedef struct _shape_line_ctx_t {
 
 
 
+/**
+ * If the user didn't specify a design to remove, autodetect it, and store the result in `opt.design`.
+ * Since this requires knowledge of all available designs, the entire config file had to be parsed (earlier).
+ */
+void detect_design_if_needed();
+
+
 /**
  * Remove box from input.
  * @return == 0: success;
-- 
2.43.0


From ff7bd3729c6fb69b03408c62bfc96e9fe0172386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:40 +0000
Subject: [PATCH 37/41] fix: an empty top side does not hide the bottom shapes
 from autodetection

---
 src/detect.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/detect.c b/src/detect.c
index aad1fe5..ddc5177 100644
--- a/src/detect.c
+++ b/src/detect.c
@@ -354,7 +354,8 @@ static size_t find_east_corner(design_t *current_design, comparison_t comp_type,
 static size_t find_horizontal_shape(design_t *current_design, comparison_t comp_type, int *empty, shape_t hshape)
 {
     size_t hits = 0;
-    if (empty[BTOP] || empty[BBOT]) {
+    int is_bottom_shape = hshape >= SSE && hshape <= SSW;
+    if (is_bottom_shape ? empty[BBOT] : empty[BTOP]) {
         /* horizontal box part is empty */
         log_debug(__FILE__, MAIN, "Checking %-3s shape produced %d hits.\n", shape_name[hshape], (int) hits);
         return hits;
-- 
2.43.0


From 8d3d07867a3f87f4f7e642b6a677ff86a9f63ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:26 +0000
Subject: [PATCH 38/41] fix: consider every comparison type when autodetecting,
 so that the best match wins

---
 src/detect.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/detect.c b/src/detect.c
index ddc5177..473edfd 100644
--- a/src/detect.c
+++ b/src/detect.c
@@ -574,9 +574,6 @@ design_t *autodetect_design()
                 result = current_design;
             }
         }
-        if (maxhits > 2) {
-            break;   /* do not try other comparison types if one found something */
-        }
     }
 
     if (is_debug_logging(MAIN)) {
-- 
2.43.0


From 21f581bd0ebeaa34dd2541f63ebb7fec8b707ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:12 +0000
Subject: [PATCH 39/41] fix: exit with status 1, not 2, when a config file
 cannot be read

---
 src/lexer.l | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lexer.l b/src/lexer.l
index e8f14f1..6215f06 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -52,6 +52,10 @@ typedef struct {
  */
 void inflate_inbuf(void *yyscanner, const bxstr_t *configfile);
 
+
+/** exit status on fatal scanner errors, e.g. when the config file cannot be read */
+#define YY_EXIT_FAILURE  EXIT_FAILURE
+
 }
 
 %{
-- 
2.43.0


From 2ce99ba85c5dc9385fad4eb5bfb83884116fd223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:32 +0000
Subject: [PATCH 40/41] fix: keep escape sequences after the last character of
 a line up to the color reset

---
 src/tools.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tools.c b/src/tools.c
index a535b56..107f425 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -336,11 +336,13 @@ void btrim32(uint32_t *text, size_t *len)
         rest = advance_next32(rest, &step_invis);
     }
 
-    /* If the last character is followed by an escape sequence, keep it (but only one). */
+    /* If the last character is followed by escape sequences, keep them up to the one which resets the color. */
     if (last_char_pos >= 0) {
+        int reset_found = 0;
         rest = text + last_char_pos + 1;
-        if (rest[0] == char_esc) {
-            advance_next32(rest, &step_invis);
+        while (rest[0] == char_esc && !reset_found) {
+            reset_found = is_csi_reset(rest);
+            rest = advance_next32(rest, &step_invis);
             last_char_pos += step_invis;
         }
     }
-- 
2.43.0


From 08af90bc5e8f58fb029828945fd17acf92f269f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:49 +0000
Subject: [PATCH 41/41] fix: blank rows that fill the requested box height
 squeezed the padding of a mended box

---
 src/boxes.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/boxes.c b/src/boxes.c
index 86dd79b..09a78e2 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -318,6 +318,31 @@ static void handle_input()
 
 
 
+/**
+ * Determine if the vertical padding fits into the requested box height next to the text of a box that is being mended.
+ * When mending, leading and trailing blank lines may only be there because they filled the requested box height, so they
+ * do not compete with the padding.
+ * @return 1 if the padding fits; 0 if not, or if no box is being mended
+ */
+static int padding_fits_mended_box()
+{
+    if (!opt.reqheight || opt.mend != 0) {
+        return 0;
+    }
+    size_t first = 0;
+    size_t last = input.num_lines;
+    while (first < last && empty_line(input.lines + first)) {
+        ++first;
+    }
+    while (last > first && empty_line(input.lines + last - 1)) {
+        --last;
+    }
+    return last - first + opt.design->padding[BTOP] + opt.design->padding[BBOT]
+            + opt.design->shape[NW].height + opt.design->shape[SW].height <= opt.design->minheight;
+}
+
+
+
 /**
  * Adjust box size to fit requested padding value.
  * Command line-specified box size takes precedence over padding.
@@ -334,7 +359,7 @@ static void adjust_size_and_padding()
     }
 
     size_t pad = opt.design->padding[BTOP] + opt.design->padding[BBOT];
-    if (pad > 0) {
+    if (pad > 0 && !padding_fits_mended_box()) {
         pad += input.num_lines;
         pad += opt.design->shape[NW].height + opt.design->shape[SW].height;
         if (pad > opt.design->minheight) {
-- 
2.43.0

