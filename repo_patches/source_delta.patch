From c917d5ba4469076db117ddc5b05b244a8bc96e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 001/118] fix: a range with equal bounds (e.g. 5-5) is that
 single value, not everything

---
 fileconf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index f6855a3..40e8e8e 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1960,7 +1960,7 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
         if (debug_opt)
             fprintf(stderr, " %d-%d/%d", start, stop, step);
 
-        if (start < stop)
+        if (start <= stop)
             for (i = start; i <= stop; i += step)
                 bit_set(ary, i);
         else {
-- 
2.43.0


From 1aa1ee543a9c95ae177271cda7f83287318a69a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 002/118] fix: month names (jan, feb...) meant the previous
 month, and jan wrote before the field

---
 fileconf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 40e8e8e..852e4cf 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1833,7 +1833,8 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
 
         for (i = 0; names[i]; ++i)
             if (strncmp(ptr, names[i], strlen(names[i])) == 0) {
-                *num = i;
+                /* months are numbered from 1 to 12 by the user */
+                *num = (names == mons_ary) ? i + 1 : i;
                 ptr += strlen(names[i]);
                 return ptr;
                 break;
-- 
2.43.0


From 7d4e6de42f0deaf702c39fe0a9fd85ff8d8421e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 003/118] fix: reject month 0 instead of writing before the
 months field

---
 fileconf.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 852e4cf..9586527 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1917,7 +1917,8 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
                 /* this number is part of the month field.
                  * user set it from 1 to 12, but we manage it internally
                  * as a number from 0 to 11 : we remove 1 to start */
-                start -= 1;
+                if (--start < 0)
+                    return NULL;
 
             if (*ptr == ',' || *ptr == ' ' || *ptr == '\t') {
                 /* this is a single number : set up array and continue */
@@ -1938,7 +1939,8 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
                     /* this number is part of the month field.
                      * user set it from 1 to 12, but we manage it internally
                      * as a number from 0 to 11 : we remove 1 to stop */
-                    stop -= 1;
+                    if (--stop < 0)
+                        return NULL;
             }
             else {
                 /* syntax error */
@@ -1984,7 +1986,8 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
                 /* this number is part of the month field.
                  * user set it from 1 to 12, but we manage it internally
                  * as a number from 0 to 11 : we remove 1 to rm */
-                rm -= 1;
+                if (--rm < 0)
+                    return NULL;
 
             if (debug_opt)
                 fprintf(stderr, " ~%d", rm);
-- 
2.43.0


From 9748101c5d32555dc3931147fb59c0e86f6156b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 004/118] fix: an error in a time field marks the table as
 erroneous and frees the whole line

---
 fileconf.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 9586527..0298835 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1570,8 +1570,7 @@ read_freq(char *ptr, cf_t *cf)
           fprintf(stderr, "\n"); \
       fprintf(stderr, "%s:%d: Error while reading " DESCRP " field: " \
              "skipping line.\n", file_name, line); \
-      Free_safe(cl); \
-      return; \
+      goto exiterr; \
   }
 
 
-- 
2.43.0


From bc725c38827a2dabf633d1f7a46e3d6419d3bcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 005/118] fix: option tzdiff on a job line dereferenced a NULL
 pointer

---
 fileconf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index 0298835..8e0a6bf 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1336,6 +1336,7 @@ read_shortcut(char *ptr, cf_t *cf)
     char *ptr_orig = ptr;
 
     cl = dups_cl(&default_line);
+    cl->cl_file = cf;
 
     /* skip the @ */
     ptr++;
@@ -1483,6 +1484,7 @@ read_freq(char *ptr, cf_t *cf)
     cl_t *cl = NULL;
 
     cl = dups_cl(&default_line);
+    cl->cl_file = cf;
 
     cl->cl_first = -1;          /* 0 is a valid value, so we have to use -1 to detect unset */
 
@@ -1582,6 +1584,7 @@ read_arys(char *ptr, cf_t *cf)
     int i = 0;
 
     cl = dups_cl(&default_line);
+    cl->cl_file = cf;
 
     /* set cl_remain if not specified */
     if (*ptr == '&') {
@@ -1668,6 +1671,7 @@ read_period(char *ptr, cf_t *cf)
     short int remain = 8;
 
     cl = dups_cl(&default_line);
+    cl->cl_file = cf;
 
     /* skip the % */
     ptr++;
-- 
2.43.0


From 41757892517e76b6ee328d3c639d396e0fab98f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 006/118] fix: names of 20 characters or more overran the
 option and shortcut name buffers

---
 fileconf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 8e0a6bf..0defff1 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -533,7 +533,7 @@ read_opt(char *ptr, cl_t *cl)
         i = 0;
         bzero(opt_name, sizeof(opt_name));
 
-        while (isalnum((int)*ptr) && i < sizeof(opt_name))
+        while (isalnum((int)*ptr) && i < sizeof(opt_name) - 1)
             opt_name[i++] = *ptr++;
 
         i = 1;
@@ -1319,7 +1319,7 @@ read_word(char *ptr, char *buf, size_t buf_size)
 
     bzero(buf, buf_size);
 
-    while (isalnum((int)*ptr) && i < buf_size)
+    while (isalnum((int)*ptr) && i < buf_size - 1)
         buf[i++] = *ptr++;
 
     return ptr;
-- 
2.43.0


From d17bf60d2e405113ae2b494b06c11dae10422f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 007/118] fix: a global first() applies to the @-lines which
 follow

---
 fileconf.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 0defff1..85f7aba 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -169,6 +169,7 @@ init_default_line(cl_t *cl, cf_t *cf)
     Free_safe(cl->cl_tz);
     set_default_opt(cl->cl_option);
     cl->cl_file = cf;
+    cl->cl_first = -1;          /* 0 is a valid value, so we have to use -1 to detect unset */
 }
 
 
@@ -1486,8 +1487,6 @@ read_freq(char *ptr, cf_t *cf)
     cl = dups_cl(&default_line);
     cl->cl_file = cf;
 
-    cl->cl_first = -1;          /* 0 is a valid value, so we have to use -1 to detect unset */
-
     /* skip the @ */
     ptr++;
 
-- 
2.43.0


From 9973eb1ac27fc63ea5c3b68c3f52c893de51bc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 008/118] fix: option reset turned a %-line into an ordinary
 line

---
 fileconf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index 85f7aba..46e223d 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -703,7 +703,11 @@ read_opt(char *ptr, cl_t *cl)
             if (in_brackets && (ptr = get_bool(ptr, &i)) == NULL)
                 Handle_err;
             if (i == 1) {
+                /* a %-line must remain a %-line */
+                int is_period = (cl->cl_runfreq == 1);
                 init_default_line(cl, cl->cl_file);
+                if (is_period)
+                    cl->cl_remain = cl->cl_runfreq = 1;
             }
             if (debug_opt)
                 fprintf(stderr, "  Opt : \"%s\"\n", opt_name);
-- 
2.43.0


From 2242c536ccaaf75797b7909760187489fb6b1643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 009/118] fix: reject time values which overflow instead of
 scheduling at a garbage time

---
 fileconf.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 46e223d..b25615b 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1226,7 +1226,9 @@ char *
 get_time(char *ptr, time_t *time, int zero_allowed)
     /* convert time read in string in time_t format */
 {
-    time_t sum;
+    time_t sum, mult;
+    /* leave room for adding the current time to the value */
+    const time_t max = LONG_MAX / 2;
 
     *time = 0;
 
@@ -1235,35 +1237,44 @@ get_time(char *ptr, time_t *time, int zero_allowed)
         sum = 0;
 
         while (isdigit((int)*ptr)) {
+            if (sum > (max - 9) / 10) {
+                need_correction = 1;
+                return NULL;
+            }
             sum *= 10;
             sum += *ptr - 48;
             ptr++;
         }
 
         /* interpret multipliers */
+        mult = 1;
         switch (*ptr) {
         case 'm':              /* months */
-            sum *= 4;
+            mult *= 4;
         case 'w':              /* weeks */
-            sum *= 7;
+            mult *= 7;
         case 'd':              /* days */
-            sum *= 24;
+            mult *= 24;
         case 'h':              /* hours */
-            sum *= 3600;
+            mult *= 3600;
         case 's':              /* seconds */
             ptr++;
             break;
         case ' ':
         case '\t':
         case ')':
-            sum *= 60;          /* minutes */
+            mult = 60;          /* minutes */
             break;
         default:
             need_correction = 1;
             return NULL;
         }
 
-        *time += sum;
+        if (sum > (max - *time) / mult) {
+            need_correction = 1;
+            return NULL;
+        }
+        *time += sum * mult;
 
     }
 
-- 
2.43.0


From 5ba99de0e80e5c5f05282408257db15446efbb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 010/118] fix: a valid runas() was ignored after an error
 anywhere earlier in the table

---
 fileconf.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index b25615b..205a2ae 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1038,6 +1038,7 @@ read_opt(char *ptr, cl_t *cl)
             int len = -1;
             char *runas = NULL;
             struct passwd *pas;
+            char invalid = 0;
 
             if (!in_brackets) {
                 Handle_err;
@@ -1054,20 +1055,20 @@ read_opt(char *ptr, cl_t *cl)
             if (getuid() != rootuid) {
                 fprintf(stderr, "must be privileged to use option runas: "
                         "skipping option\n");
-                need_correction = 1;
+                need_correction = invalid = 1;
             }
             else if (len > USER_NAME_LEN) {
                 fprintf(stderr, "runas: user name \"%s\" longer than %d"
                         "characters: skipping option\n", runas, USER_NAME_LEN);
-                need_correction = 1;
+                need_correction = invalid = 1;
             }
             else if ((pas = getpwnam(runas)) == NULL) {
                 fprintf(stderr, "runas: \"%s\" is not in passwd file : "
                         "ignored", runas);
-                need_correction = 1;
+                need_correction = invalid = 1;
             }
 
-            if (need_correction) {
+            if (invalid) {
                 Free_safe(runas);
             }
             else {
-- 
2.43.0


From 7a47549b1a326ec71d2eecf22e1e7707d758a598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 011/118] fix: reject load averages over 25.5 instead of
 storing them modulo 25.6

---
 fileconf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index 205a2ae..b3ea823 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1893,6 +1893,10 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
 
         if (decimal > 0)
             *num *= 10 * decimal;
+        if (*num > max) {
+            need_correction = 1;
+            return NULL;
+        }
 
     }
 
-- 
2.43.0


From f58f93332dd472163f02170460b448fc20f41c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 012/118] fix: a number without digits in a field or option is
 an error, not 0

---
 fileconf.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index b3ea823..7594f59 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1865,10 +1865,17 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
     }
     else {
 
+        if (!isdigit((int)*ptr) && *ptr != '.') {
+            need_correction = 1;
+            return NULL;
+        }
+
         while (isdigit((int)*ptr) || *ptr == '.') {
 
-            if (*ptr == '.' && ptr++ && i++ > 0)
+            if (*ptr == '.' && ((ptr++ && i++ > 0) || !isdigit((int)*ptr))) {
+                need_correction = 1;
                 return NULL;
+            }
             if (i > 0 && --decimal < 0) {
                 /* the decimal number is exceeded : we round off,
                  * skip the other decimals and return */
-- 
2.43.0


From 792664c2d617ee0687563c382dae55968bcca108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 013/118] fix: get_num() wrote after the end of a short string

---
 fileconf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 7594f59..2ab35c1 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1846,7 +1846,7 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
         }
 
         /* set string to lower case */
-        for (i = 0; i < strlen(names[0]); i++)
+        for (i = 0; i < strlen(names[0]) && *(ptr + i) != '\0'; i++)
             *(ptr + i) = tolower(*(ptr + i));
 
         for (i = 0; names[i]; ++i)
-- 
2.43.0


From 1592c65e9f0b37ffe4619168b1ee1da7255e0988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 014/118] fix: unknown options in %-lines are reported as in
 other lines

---
 fileconf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index 2ab35c1..39940d1 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1201,6 +1201,11 @@ read_opt(char *ptr, cl_t *cl)
                 if (debug_opt)
                     fprintf(stderr, "  Opt : \"%s\"\n", opt_name);
             }
+            else {
+                fprintf(stderr, "%s:%d: Option \"%s\" unknown: "
+                        "skipping option.\n", file_name, line, opt_name);
+                need_correction = 1;
+            }
         }
 
         else {
-- 
2.43.0


From 984ea15f80118d44ddad6afb7ceeec8dd872578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 015/118] fix: a %-line with days 1-31 has no more intervals
 than one with *

---
 fileconf.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 39940d1..2a6518e 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1786,8 +1786,9 @@ read_period(char *ptr, cf_t *cf)
                 goto ok;
         }
         if (!is_freq_days(cl->cl_option)) {
-            bit_ffc(cl->cl_days, s_days, &j);
-            if (j != -1 && j < s_days) {
+            /* there is no day 0 */
+            for (j = 1; j < s_days && bit_test(cl->cl_days, j); j++) ;
+            if (j < s_days) {
                 if (is_dayand(cl->cl_option))
                     goto ok;
                 else {
-- 
2.43.0


From c46c358458d2e49cc8ff6a8fac55660f812e4f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 016/118] fix: a lone quote as value of an assignment is a
 mismatched quote

---
 fileconf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 2a6518e..992d4e3 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -84,7 +84,7 @@ get_string(char *ptr)
     length = remove_blanks(ptr);
 
     if (quote != 0) {
-        if (*(ptr + length - 1) == quote)
+        if (length > 0 && *(ptr + length - 1) == quote)
             *(ptr + length - 1) = '\0';
         else {
             /* mismatched quotes */
-- 
2.43.0


From 1563c5af6543ec136f63e914a3aeaecd8bb584e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 017/118] fix: the rest of a too long line was read as new
 lines if it was continued

---
 fileconf.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 992d4e3..ba2fb22 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -116,7 +116,7 @@ get_line(char *str, size_t size, FILE *file)
 {
     size_t size_max = size - 1;
     int i = 0;
-    int c;
+    int c, prev;
 
     while (i < size_max) {
 
@@ -151,8 +151,13 @@ get_line(char *str, size_t size, FILE *file)
 
     }
 
-    /* line is too long : goto next line and return ERR */
-    while (((c = getc(file)) != EOF) && (c != '\n')) ;
+    /* line is too long : goto next (logical) line and return ERR */
+    prev = *(str + i - 1);
+    while (((c = getc(file)) != EOF) && (c != '\n' || prev == '\\')) {
+        if (c == '\n')
+            line++;
+        prev = c;
+    }
     line++;
     need_correction = 1;
     return ERR;
-- 
2.43.0


From df0c2cc9ac3fbb87e122a34895b5e00e4783700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:38 +0000
Subject: [PATCH 018/118] fix: bit_ffc() and bit_ffs() read one byte after a
 full bit string

---
 bitstring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitstring.h b/bitstring.h
index 24007bc..8f374f4 100644
--- a/bitstring.h
+++ b/bitstring.h
@@ -97,7 +97,7 @@ typedef unsigned char bitstr_t;
 #define	bit_ffc(name, nbits, value) { \
 	register bitstr_t *_name = name; \
 	register int _byte, _nbits = nbits; \
-	register int _stopbyte = _bit_byte(_nbits), _value = -1; \
+	register int _stopbyte = _bit_byte(_nbits - 1), _value = -1; \
 	for (_byte = 0; _byte <= _stopbyte; ++_byte) \
 		if (_name[_byte] != 0xff) { \
 			_value = _byte << 3; \
@@ -112,7 +112,7 @@ typedef unsigned char bitstr_t;
 #define	bit_ffs(name, nbits, value) { \
 	register bitstr_t *_name = name; \
 	register int _byte, _nbits = nbits; \
-	register int _stopbyte = _bit_byte(_nbits), _value = -1; \
+	register int _stopbyte = _bit_byte(_nbits - 1), _value = -1; \
 	for (_byte = 0; _byte <= _stopbyte; ++_byte) \
 		if (_name[_byte]) { \
 			_value = _byte << 3; \
-- 
2.43.0


From e23236f369e144818fef2b7679a63ee1f123a12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 019/118] fix: an invalid mailto() left the following jobs
 without recipient string

---
 fileconf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index ba2fb22..527d198 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -453,11 +453,10 @@ assign_option_string(char **var, char *value)
     char end = '\0';
     size_t len = 0;
 
-    Free_safe(*var);
-
     len = option_strlen(value);
 
     if (len <= 0) {
+        Free_safe(*var);
         return len;
     }
 
@@ -469,6 +468,7 @@ assign_option_string(char **var, char *value)
         return -1;
     }
 
+    Free_safe(*var);
     *var = strndup2(value, len);
 
     return len;
-- 
2.43.0


From 62cf270d6a65e5bb669dd93881cbda5c7684a66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 020/118] fix: a dayor line listing day 31 ran on the 1st after
 a shorter month

The search for the next day tested the bit of the day before checking
that the month has such a day, so a day past the end of the month was
accepted and later normalised into the next month.
---
 database.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database.c b/database.c
index 1762e61..a8b8271 100644
--- a/database.c
+++ b/database.c
@@ -1169,8 +1169,8 @@ set_next_exe(cl_t *line, char option, int info_fd)
 
             j = ftime.tm_wday;
             i = ftime.tm_mday;
-            while ((bit_test(line->cl_days, i) == 0) &&
-                   (bit_test(line->cl_dow, j) == 0)) {
+            while (i > max || ((bit_test(line->cl_days, i) == 0) &&
+                               (bit_test(line->cl_dow, j) == 0))) {
                 if (i > max) {
                     ftime.tm_mon++;
                     if (has_changed < 2) {
-- 
2.43.0


From 901730e3e6a7276489f1c2b23a599fc37ae19ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 021/118] fix: %-lines could run twice in, or skip, a period
 after a run in its last minute

One minute was added to the time of the last run without carrying, and
before looking for the beginning of the next period: a run in the last
minute of an hour was followed by another one in the same interval, and
a midhourly job which ran at minute 29 lost the whole next period.
---
 database.c | 49 ++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/database.c b/database.c
index a8b8271..f07f134 100644
--- a/database.c
+++ b/database.c
@@ -32,6 +32,7 @@ int is_leap_year(int year);
 int get_nb_mdays(int year, int mon);
 void set_wday(struct tm *date);
 time_t mktime_no_dst(struct tm *t);
+void goto_next_minute(struct tm *ftime);
 void goto_beginning_next_period_periodical(cl_t * line, struct tm *ftime);
 void move_time_to(int where, cl_t * line, struct tm *ftime);
 #define BEGIN_NEXT_PERIOD 11    /* move_time_to()'s where possible value */
@@ -702,6 +703,32 @@ set_wday(struct tm *date)
 }
 
 
+void
+goto_next_minute(struct tm *ftime)
+    /* set ftime to the beginning of the next minute,
+     * making sure that all the fields remain valid */
+{
+    ftime->tm_sec = 0;
+
+    if (++ftime->tm_min < 60)
+        return;
+    ftime->tm_min = 0;
+
+    if (++ftime->tm_hour < 24)
+        return;
+    ftime->tm_hour = 0;
+
+    if (++ftime->tm_mday > get_nb_mdays((ftime->tm_year + 1900), ftime->tm_mon)) {
+        ftime->tm_mday = 1;
+        if (++ftime->tm_mon >= 12) {
+            ftime->tm_mon = 0;
+            ftime->tm_year++;
+        }
+    }
+    set_wday(ftime);
+}
+
+
 void
 goto_beginning_next_period_periodical(cl_t *line, struct tm *ftime)
     /* From ftime, search the first/nearest time and date of the line's next
@@ -1082,14 +1109,22 @@ set_next_exe(cl_t *line, char option, int info_fd)
 
         /* to prevent multiple execution of &-jobs in the same minute
          * (but not if the user has explicitely asked to run jobs immediately) */
-        if (first_sleep > 0 || option == STD || line->cl_runfreq != 1) {
-            ftime.tm_min += 1;
-            ftime.tm_sec = 0;
-        }
-
-        if (line->cl_runfreq == 1 && option != NO_GOTO && option != NO_GOTO_LOG)
-            /* %-line: go to next period */
+        if (line->cl_runfreq == 1 && option != NO_GOTO && option != NO_GOTO_LOG
+            && is_freq_periodically(line->cl_option)
+            && !is_freq_mins(line->cl_option))
+            /* periodical %-line: go to next period (always after basetime,
+             * so we must not add one minute first, as it may move ftime
+             * to the next period already) */
             move_time_to(BEGIN_NEXT_PERIOD, line, &ftime);
+        else {
+            if (first_sleep > 0 || option == STD || line->cl_runfreq != 1)
+                goto_next_minute(&ftime);
+
+            if (line->cl_runfreq == 1
+                && option != NO_GOTO && option != NO_GOTO_LOG)
+                /* %-line: go to next period */
+                move_time_to(BEGIN_NEXT_PERIOD, line, &ftime);
+        }
 
  setMonth:
         for (i = ftime.tm_mon; (bit_test(line->cl_mons, i) == 0) && (i < 12);
-- 
2.43.0


From 1caf582e06de607ae7c31f050cf6258544f85fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 022/118] fix: random and strict jobs could run an hour past
 their interval before a DST change

move_time_to() let mktime_no_dst() move the time it walks out of the
skipped hour, so an interval which ends when the clock goes forward was
seen as ending one hour later.
---
 database.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index f07f134..1ec27ce 100644
--- a/database.c
+++ b/database.c
@@ -896,6 +896,7 @@ move_time_to(int where, cl_t *line, struct tm *ftime)
      *     the line is to be executed once and only once. */
 {
     struct tm tm_next_period;
+    struct tm tm_ftime;
     time_t timet_ftime;
     /* by default we set timet_next_period to now + 10 years, which will
      * always be later than the end of the interval of execution
@@ -1020,7 +1021,10 @@ move_time_to(int where, cl_t *line, struct tm *ftime)
             char debug_opt_previous = debug_opt;
             debug_opt = 0;
 
-            timet_ftime = mktime_no_dst(ftime);
+            /* mktime_no_dst() changes a time which doesn't exist because of
+             * a DST change: give it a copy, as we need the original below */
+            memcpy(&tm_ftime, ftime, sizeof(tm_ftime));
+            timet_ftime = mktime_no_dst(&tm_ftime);
 
             debug_opt = debug_opt_previous;
         }
-- 
2.43.0


From a99a5ea0f7c66741806603ffb3f35b7e47cede15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:11 +0000
Subject: [PATCH 023/118] fix: a job whose fork() failed counted as running for
 ever

---
 database.c | 25 +++++++++++++++----------
 job.c      |  4 ++++
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/database.c b/database.c
index 1ec27ce..809431e 100644
--- a/database.c
+++ b/database.c
@@ -39,7 +39,7 @@ void move_time_to(int where, cl_t * line, struct tm *ftime);
 #define END_OF_INTERVAL 12      /* move_time_to()'s where possible value */
 void run_serial_job(void);
 void run_lavg_job(lavg_t * l);
-void run_queue_job(cl_t * line);
+int run_queue_job(cl_t * line);
 int is_loop_in_queue(void);
 
 
@@ -182,8 +182,10 @@ run_normal_job(cl_t *line, int info_fd)
     if (line->cl_numexe <= 0 ||
         (is_exe_sev(line->cl_option) && line->cl_numexe < UCHAR_MAX)) {
         line->cl_numexe += 1;
-        run_queue_job(line);
-        send_msg_fd(info_fd, "Job '%s' started.", line->cl_shell);
+        if (run_queue_job(line) == OK)
+            send_msg_fd(info_fd, "Job '%s' started.", line->cl_shell);
+        else
+            send_msg_fd(info_fd, "Could not start job '%s'.", line->cl_shell);
     }
     else {
         warn_fd(info_fd,
@@ -197,9 +199,7 @@ void
 run_lavg_job(lavg_t *l)
 {
 
-    run_queue_job(l->l_line);
-
-    if (is_serial(l->l_line->cl_option))
+    if (run_queue_job(l->l_line) == OK && is_serial(l->l_line->cl_option))
         lavg_serial_running++;
 
 }
@@ -216,10 +216,10 @@ run_serial_job(void)
     debug("num: %d running:%d  index:%d", serial_num, serial_running,
           serial_array_index);
     if (serial_num != 0) {
-        run_queue_job(serial_array[serial_array_index]);
+        if (run_queue_job(serial_array[serial_array_index]) == OK)
+            serial_running++;
         serial_array[serial_array_index] = NULL;
 
-        serial_running++;
         if (++serial_array_index >= serial_array_size)
             serial_array_index -= serial_array_size;
         serial_num--;
@@ -228,9 +228,11 @@ run_serial_job(void)
 }
 
 
-void
+int
 run_queue_job(cl_t *line)
-    /* run a job */
+    /* run a job.
+     * Return OK if the job has been started, ERR otherwise (the job is then
+     * neither running nor in a queue any more) */
 {
 
     exe_t e = { NULL, 0, 0 };
@@ -246,8 +248,11 @@ run_queue_job(cl_t *line)
         /* append job to the list of executed job */
         exe_list_add(exe_list, &e);
         line->cl_file->cf_running += 1;
+        return OK;
     }
 
+    line->cl_numexe -= 1;
+    return ERR;
 }
 
 int
diff --git a/job.c b/job.c
index ef8b653..d607fbc 100644
--- a/job.c
+++ b/job.c
@@ -556,6 +556,10 @@ run_job(struct exe_t *exeent)
     switch (pid = fork()) {
     case -1:
         error_e("Fork error : could not exec '%s'", line->cl_shell);
+        if (pipe_pid_fd[0] >= 0) {
+            xclose_check(&(pipe_pid_fd[0]), "parent's pipe_pid_fd[0]");
+            xclose_check(&(pipe_pid_fd[1]), "parent's pipe_pid_fd[1]");
+        }
         return ERR;
         break;
 
-- 
2.43.0


From 85b7472e26d49c10ddd93bfe1b54253a98e77a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:49 +0000
Subject: [PATCH 024/118] fix: signals received while another one is dealt with
 could be lost, or acted on late

---
 fcron.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/fcron.c b/fcron.c
index 0be2604..5c304da 100644
--- a/fcron.c
+++ b/fcron.c
@@ -37,7 +37,7 @@
 
 
 void main_loop(void);
-void check_signal(void);
+bool check_signal(void);
 void reset_sig_cont(void);
 void info(void);
 void usage(void);
@@ -774,14 +774,20 @@ main(int argc, char **argv)
 }
 
 
-void
+bool
 check_signal()
-    /* Action any received signals. */
+    /* Action any received signals.
+     * Return true if there were any, false otherwise.
+     * Each flag is cleared *before* the corresponding action: a signal received
+     * meanwhile must not be lost. */
 {
+    bool done = false;
+
     if (sig_chld == true) {
-        wait_chld();
         sig_chld = false;
         reinstall_signal_handler(SIGCHLD, sigchld_handler);
+        wait_chld();
+        done = true;
     }
 
     if (sig_term == true) {
@@ -793,25 +799,30 @@ check_signal()
 
     if (sig_hup == true) {
         /* update configuration */
-        synchronize_dir(".", 0);
         sig_hup = false;
         reinstall_signal_handler(SIGHUP, sighup_handler);
+        synchronize_dir(".", 0);
+        done = true;
     }
     if (sig_usr1 == true) {
         /* reload all configuration */
-        reload_all(".");
         sig_usr1 = false;
         reinstall_signal_handler(SIGUSR1, sigusr1_handler);
+        reload_all(".");
+        done = true;
     }
 
     if (sig_usr2 == true) {
+        sig_usr2 = false;
+        reinstall_signal_handler(SIGUSR2, sigusr2_handler);
         print_schedule();
         debug_opt = (debug_opt > 0) ? 0 : 1;
         explain("debug_opt = %d", debug_opt);
-        sig_usr2 = false;
-        reinstall_signal_handler(SIGUSR2, sigusr2_handler);
+        done = true;
     }
 
+    return done;
+
 }
 
 void
@@ -958,7 +969,10 @@ main_loop()
         debug_print_tstamp("    after check_lavg");
         debug("next wake time : %s", ctime(&nwt));
 
-        check_signal();
+        if (check_signal())
+            /* there may be new or changed jobs, or room for a job of the serial
+             * queue: do not sleep before having looked at them */
+            nwt = now;
 
     }
 
-- 
2.43.0


From a039310c7b4d61b94bcfc4978c71b7037c0367ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 025/118] fix: a %-line run late, in the last minute before its
 next interval, skipped that interval

---
 database.c | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/database.c b/database.c
index 809431e..b38cd3b 100644
--- a/database.c
+++ b/database.c
@@ -1116,24 +1116,20 @@ set_next_exe(cl_t *line, char option, int info_fd)
         /* creates a bug on DST change on some systems ?? */
         /* ftime.tm_isdst = -1; */
 
-        /* to prevent multiple execution of &-jobs in the same minute
-         * (but not if the user has explicitely asked to run jobs immediately) */
-        if (line->cl_runfreq == 1 && option != NO_GOTO && option != NO_GOTO_LOG
-            && is_freq_periodically(line->cl_option)
-            && !is_freq_mins(line->cl_option))
-            /* periodical %-line: go to next period (always after basetime,
-             * so we must not add one minute first, as it may move ftime
-             * to the next period already) */
+        if (line->cl_runfreq == 1 && option != NO_GOTO && option != NO_GOTO_LOG) {
+            /* %-line: go to next period.
+             * We must not add one minute first, as it may move ftime to
+             * the next period already: if ftime is not in an interval of
+             * execution then the nearest one is what we are looking for,
+             * and it cannot begin before the next minute. */
+            ftime.tm_sec = 0;
             move_time_to(BEGIN_NEXT_PERIOD, line, &ftime);
-        else {
-            if (first_sleep > 0 || option == STD || line->cl_runfreq != 1)
-                goto_next_minute(&ftime);
-
-            if (line->cl_runfreq == 1
-                && option != NO_GOTO && option != NO_GOTO_LOG)
-                /* %-line: go to next period */
-                move_time_to(BEGIN_NEXT_PERIOD, line, &ftime);
         }
+        else if (first_sleep > 0 || option == STD || line->cl_runfreq != 1)
+            /* to prevent multiple execution of &-jobs in the same minute
+             * (but not if the user has explicitely asked to run jobs
+             * immediately) */
+            goto_next_minute(&ftime);
 
  setMonth:
         for (i = ftime.tm_mon; (bit_test(line->cl_mons, i) == 0) && (i < 12);
-- 
2.43.0


From ccabc80503917778d95f71ae0f7f70eb0851eb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:59 +0000
Subject: [PATCH 026/118] fix: an entry of exe_list was leaked for each mail
 about a non-execution

---
 database.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index b38cd3b..3028741 100644
--- a/database.c
+++ b/database.c
@@ -1707,6 +1707,7 @@ mail_notrun(cl_t *line, char context, struct tm *since)
     FILE *mailf = 0;
     struct tm *time2 = NULL, time;
     char **sendmailenv = NULL;
+    exe_t *e = NULL;
 
     switch (pid = fork()) {
     case -1:
@@ -1725,7 +1726,10 @@ mail_notrun(cl_t *line, char context, struct tm *since)
 
         /* create an entry in exe_list */
         /* set line to NULL as this is not a line ... */
-        exe_list_add_line(exe_list, NULL);
+        e = exe_list_add_line(exe_list, NULL);
+        if (e != NULL)
+            /* needed by wait_chld() to remove the entry from exe_list */
+            e->e_ctrl_pid = pid;
         return;
     }
 
-- 
2.43.0


From 7b4a5e4f5db1158dce8b1c44d101d11540c9ffda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:15 +0000
Subject: [PATCH 027/118] fix: the number of running serial jobs went wrong
 when jobs ended while waited for, or had both exesev/serialonce and were run
 at startup

---
 conf.c     | 11 ++------
 database.c | 83 ++++++++++++++++++++++++++++--------------------------
 exe_list.h |  7 +++++
 3 files changed, 52 insertions(+), 49 deletions(-)

diff --git a/conf.c b/conf.c
index 4b09624..3ac3dda 100644
--- a/conf.c
+++ b/conf.c
@@ -916,15 +916,8 @@ delete_file(const char *user_name)
             if (e->e_line != NULL && e->e_line->cl_file == file) {
                 /* we set the e_line to NULL, as so we know in wait_chld()
                  * and wait_all() the corresponding file has been removed.
-                 * Plus, we decrement serial_running and lavg_serial_running
-                 * as we won't be able to do it at the end of the job */
-                if ((is_serial(e->e_line->cl_option) ||
-                     is_serial_once(e->e_line->cl_option)) &&
-                    !is_lavg(e->e_line->cl_option))
-                    serial_running--;
-                else if (is_serial(e->e_line->cl_option) &&
-                         is_lavg(e->e_line->cl_option))
-                    lavg_serial_running--;
+                 * (the job keeps counting as a running serial job until
+                 * it ends: see e_serial) */
                 e->e_line = NULL;
             }
 
diff --git a/database.c b/database.c
index 3028741..cec8d10 100644
--- a/database.c
+++ b/database.c
@@ -39,7 +39,8 @@ void move_time_to(int where, cl_t * line, struct tm *ftime);
 #define END_OF_INTERVAL 12      /* move_time_to()'s where possible value */
 void run_serial_job(void);
 void run_lavg_job(lavg_t * l);
-int run_queue_job(cl_t * line);
+int run_queue_job(cl_t * line, char serial);
+void exe_ended(exe_t * e);
 int is_loop_in_queue(void);
 
 
@@ -182,7 +183,7 @@ run_normal_job(cl_t *line, int info_fd)
     if (line->cl_numexe <= 0 ||
         (is_exe_sev(line->cl_option) && line->cl_numexe < UCHAR_MAX)) {
         line->cl_numexe += 1;
-        if (run_queue_job(line) == OK)
+        if (run_queue_job(line, EXE_NOT_SERIAL) == OK)
             send_msg_fd(info_fd, "Job '%s' started.", line->cl_shell);
         else
             send_msg_fd(info_fd, "Could not start job '%s'.", line->cl_shell);
@@ -199,8 +200,8 @@ void
 run_lavg_job(lavg_t *l)
 {
 
-    if (run_queue_job(l->l_line) == OK && is_serial(l->l_line->cl_option))
-        lavg_serial_running++;
+    run_queue_job(l->l_line, is_serial(l->l_line->cl_option)
+                  ? EXE_LAVG_SERIAL : EXE_NOT_SERIAL);
 
 }
 
@@ -216,8 +217,7 @@ run_serial_job(void)
     debug("num: %d running:%d  index:%d", serial_num, serial_running,
           serial_array_index);
     if (serial_num != 0) {
-        if (run_queue_job(serial_array[serial_array_index]) == OK)
-            serial_running++;
+        run_queue_job(serial_array[serial_array_index], EXE_SERIAL);
         serial_array[serial_array_index] = NULL;
 
         if (++serial_array_index >= serial_array_size)
@@ -229,25 +229,31 @@ run_serial_job(void)
 
 
 int
-run_queue_job(cl_t *line)
-    /* run a job.
+run_queue_job(cl_t *line, char serial)
+    /* run a job, and count it as a running serial job if asked to
+     * (EXE_SERIAL or EXE_LAVG_SERIAL).
      * Return OK if the job has been started, ERR otherwise (the job is then
      * neither running nor in a queue any more) */
 {
 
-    exe_t e = { NULL, 0, 0 };
+    exe_t e = { NULL, 0, 0, EXE_NOT_SERIAL };
 
 /*      // */
 /*      debug("run_queue_job"); */
 /*      // */
 
     e.e_line = line;
+    e.e_serial = serial;
 
     /* run the job */
     if (run_job(&e) == OK) {
         /* append job to the list of executed job */
         exe_list_add(exe_list, &e);
         line->cl_file->cf_running += 1;
+        if (serial == EXE_SERIAL)
+            serial_running++;
+        else if (serial == EXE_LAVG_SERIAL)
+            lavg_serial_running++;
         return OK;
     }
 
@@ -552,12 +558,30 @@ add_lavg_job(cl_t *line, int info_fd)
 }
 
 
+void
+exe_ended(exe_t *e)
+    /* update the counters when a job has ended.
+     * Note that e->e_line is NULL if the file of the job has been removed
+     * from memory in the meantime. */
+{
+    if (e->e_line != NULL) {
+        e->e_line->cl_numexe -= 1;
+        e->e_line->cl_file->cf_running -= 1;
+        clear_serial_once(e->e_line->cl_option);
+    }
+
+    if (e->e_serial == EXE_SERIAL)
+        serial_running--;
+    else if (e->e_serial == EXE_LAVG_SERIAL)
+        lavg_serial_running--;
+}
+
+
 void
 wait_chld(void)
   /* wait_chld() - check for job completion */
 {
     int pid;
-    cl_t *line = NULL;
     exe_t *e = NULL;
 
 /*      // */
@@ -574,34 +598,20 @@ wait_chld(void)
                     /* the corresponding file has been removed from memory */
                     debug("Child exited: pid %d", pid);
                 }
-                else {
-
-                    line = e->e_line;
-                    debug("Child exited (pid %d): %s", pid, line->cl_shell);
-                    line->cl_numexe -= 1;
-                    line->cl_file->cf_running -= 1;
-
-                    if (is_serial_once(line->cl_option)) {
-                        clear_serial_once(line->cl_option);
-                        if (--serial_running < serial_max_running)
-                            run_serial_job();
-                    }
-                    else if (is_serial(line->cl_option)
-                             && !is_lavg(line->cl_option)) {
-                        if (--serial_running < serial_max_running)
-                            run_serial_job();
-                    }
-                    else if (is_lavg(line->cl_option)
-                             && is_serial(line->cl_option))
-                        lavg_serial_running--;
-                }
+                else
+                    debug("Child exited (pid %d): %s", pid,
+                          e->e_line->cl_shell);
 
+                exe_ended(e);
                 exe_list_remove_cur(exe_list);
                 exe_list_end_iteration(exe_list);
                 break;
             }
         }
 
+        while (serial_num > 0 && serial_running < serial_max_running)
+            run_serial_job();
+
     }
 
 }
@@ -624,17 +634,10 @@ wait_all(int *counter)
                     /* the corresponding file has been removed from memory */
                     debug("Job finished: pid %d", pid);
                 }
-                else {
-
+                else
                     debug("Job finished: '%s'", e->e_line->cl_shell);
-                    e->e_line->cl_numexe -= 1;
-                    e->e_line->cl_file->cf_running -= 1;
-
-                    if (is_serial_once(e->e_line->cl_option))
-                        clear_serial_once(e->e_line->cl_option);
-
-                }
 
+                exe_ended(e);
                 exe_list_remove_cur(exe_list);
                 exe_list_end_iteration(exe_list);
                 break;
diff --git a/exe_list.h b/exe_list.h
index 6356bbb..bd8e535 100644
--- a/exe_list.h
+++ b/exe_list.h
@@ -37,8 +37,15 @@ typedef struct exe_t {
     struct cl_t *e_line;
     pid_t e_ctrl_pid;           /* pid of the fcron process controling the job */
     pid_t e_job_pid;            /* pid of the job itself */
+    char e_serial;              /* counter of serial jobs this job is part of:
+                                 * EXE_NOT_SERIAL, EXE_SERIAL or EXE_LAVG_SERIAL */
 } exe_t;
 
+/* values of e_serial: */
+#define EXE_NOT_SERIAL 0
+#define EXE_SERIAL 1            /* counted in serial_running */
+#define EXE_LAVG_SERIAL 2       /* counted in lavg_serial_running */
+
 typedef struct u_list_t exe_list_t;
 
 /* functions prototypes */
-- 
2.43.0


From 4ba808e6b5f495781d89bf6797d0749d29037f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 028/118] fix: jobs which ended while exiting were recorded as
 interrupted, and some were not waited for

---
 fcron.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fcron.c b/fcron.c
index 5c304da..7b19d0f 100644
--- a/fcron.c
+++ b/fcron.c
@@ -219,8 +219,10 @@ xexit(int exit_value)
             debug("waiting jobs for %s ...", f->cf_user);
             /* */
             wait_all(&f->cf_running);
-            save_file(f);
         }
+        /* jobs of this file may have ended while we were waiting for those
+         * of another one: always save the final state */
+        save_file(f);
         delete_file(f->cf_user);
 
         /* delete_file remove the f file from the list :
@@ -228,6 +230,11 @@ xexit(int exit_value)
         f = file_base;
     }
 
+    /* wait also for the jobs whose file has been changed or removed since
+     * they were started */
+    if (exe_list != NULL)
+        wait_all(&exe_list->num_entries);
+
     remove(pidfile);
 
     exe_list_destroy(exe_list);
-- 
2.43.0


From 5ddcf8207159145ae4823ae77a96a681d2769fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:36 +0000
Subject: [PATCH 029/118] fix: the order of the serial queue was mixed up, or
 jobs lost, when the queue grew

---
 database.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database.c b/database.c
index cec8d10..fea1cd6 100644
--- a/database.c
+++ b/database.c
@@ -429,9 +429,9 @@ add_serial_job(cl_t *line, int info_fd)
                 alloc_safe(serial_array_size * sizeof(cl_t *), "serial_array");
 
             /* copy lines in order to have the first line at the index 0 */
-            memcpy(ptr + serial_array_index, serial_array,
+            memcpy(ptr, serial_array + serial_array_index,
                    (sizeof(cl_t *) * (old_size - serial_array_index)));
-            memcpy(ptr, serial_array + (old_size - serial_array_index),
+            memcpy(ptr + (old_size - serial_array_index), serial_array,
                    (sizeof(cl_t *) * serial_array_index));
             serial_array_index = 0;
             Free_safe(serial_array);
-- 
2.43.0


From 5bab71d6e7252c2a660b63c75cc6bb6b4a04253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 030/118] fix: fcron -q did not bound the queues exactly

---
 database.c | 54 ++++++++++++++++++++++++++----------------------------
 u_list.c   |  4 ++++
 2 files changed, 30 insertions(+), 28 deletions(-)

diff --git a/database.c b/database.c
index fea1cd6..442836e 100644
--- a/database.c
+++ b/database.c
@@ -408,35 +408,33 @@ add_serial_job(cl_t *line, int info_fd)
     send_msg_fd_debug(info_fd, "inserting in serial queue '%s'",
                       line->cl_shell);
 
+    if (serial_num >= serial_queue_max) {
+        error_fd(info_fd, "Could not add job : serial queue is full "
+                 "(%d jobs). Consider using option serialonce, fcron's "
+                 "option -m and/or -q : '%s'", serial_queue_max,
+                 line->cl_shell);
+        if (is_notice_notrun(line->cl_option))
+            mail_notrun(line, QUEUE_FULL, NULL);
+        return;
+    }
+
     if (serial_num >= serial_array_size) {
-        if (serial_num >= serial_queue_max) {
-            error_fd(info_fd, "Could not add job : serial queue is full "
-                     "(%d jobs). Consider using option serialonce, fcron's "
-                     "option -m and/or -q : '%s'", serial_queue_max,
-                     line->cl_shell);
-            if (is_notice_notrun(line->cl_option))
-                mail_notrun(line, QUEUE_FULL, NULL);
-            return;
-        }
-        else {
-            cl_t **ptr = NULL;
-            short int old_size = serial_array_size;
-
-            debug("Resizing serial_array");
-            serial_array_size = (serial_array_size + SERIAL_GROW_SIZE);
-
-            ptr =
-                alloc_safe(serial_array_size * sizeof(cl_t *), "serial_array");
-
-            /* copy lines in order to have the first line at the index 0 */
-            memcpy(ptr, serial_array + serial_array_index,
-                   (sizeof(cl_t *) * (old_size - serial_array_index)));
-            memcpy(ptr + (old_size - serial_array_index), serial_array,
-                   (sizeof(cl_t *) * serial_array_index));
-            serial_array_index = 0;
-            Free_safe(serial_array);
-            serial_array = ptr;
-        }
+        cl_t **ptr = NULL;
+        short int old_size = serial_array_size;
+
+        debug("Resizing serial_array");
+        serial_array_size = (serial_array_size + SERIAL_GROW_SIZE);
+
+        ptr = alloc_safe(serial_array_size * sizeof(cl_t *), "serial_array");
+
+        /* copy lines in order to have the first line at the index 0 */
+        memcpy(ptr, serial_array + serial_array_index,
+               (sizeof(cl_t *) * (old_size - serial_array_index)));
+        memcpy(ptr + (old_size - serial_array_index), serial_array,
+               (sizeof(cl_t *) * serial_array_index));
+        serial_array_index = 0;
+        Free_safe(serial_array);
+        serial_array = ptr;
     }
 
     if ((i = serial_array_index + serial_num) >= serial_array_size)
diff --git a/u_list.c b/u_list.c
index 4f991ea..f31cbff 100644
--- a/u_list.c
+++ b/u_list.c
@@ -151,6 +151,10 @@ u_list_add(u_list_t *l, u_list_entry_t *e)
     if (l == NULL || e == NULL)
         die("Invalid arguments for u_list_add(): list=%d, entry=%d", l, e);
 
+    /* Check the list is not full: the array may be larger than max_entries */
+    if (l->max_entries > 0 && l->num_entries >= l->max_entries)
+        return NULL;
+
     /* Check there is some space left, or resize the array */
     if (l->num_entries >= l->array_size) {
         /* no more space: attempt to grow (the following function dies on error: */
-- 
2.43.0


From 194ae6f2ee45c245c6453995befe448a9d8971bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:38 +0000
Subject: [PATCH 031/118] fix: %-lines with strict(false) and no until() did
 not wait for the load average

---
 database.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database.c b/database.c
index 442836e..aa33bcc 100644
--- a/database.c
+++ b/database.c
@@ -1831,8 +1831,8 @@ check_lavg(time_t lim)
     /* first, check if some lines must be executed because of until */
     for (l = lavg_list_first(lavg_list); l != NULL;
          l = lavg_list_next(lavg_list))
-        if ((l->l_line->cl_until > 0 || l->l_line->cl_runfreq == 1)
-            && l->l_until < now) {
+        /* (l_until is 0 if the job may wait without limit) */
+        if (l->l_until > 0 && l->l_until < now) {
             if (!is_run_if_late(l->l_line->cl_option)) {
                 if (!is_nolog(l->l_line->cl_option))
                     explain("Interval of execution exceeded : '%s' (not run)",
-- 
2.43.0


From 44c229c1e97170bc3874183115be58fb2f01e360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:12 +0000
Subject: [PATCH 032/118] fix: a runatreboot job interrupted by a shutdown was
 never run again

---
 database.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/database.c b/database.c
index aa33bcc..980a089 100644
--- a/database.c
+++ b/database.c
@@ -1491,11 +1491,13 @@ set_next_exe_startup(struct cl_t *cl, const int context,
      * - runatreboot has higher priority than jobs that were still running
      *   when fcron stopped, because the former will get run quicker as they are not
      *   put into the serial queue. runatreboot jobs will be handled later on. */
-    if (context != CONTEXT_RESUME && cl->cl_numexe > 0
-        && !is_runatreboot(cl->cl_option)) {
+    if (context != CONTEXT_RESUME && cl->cl_numexe > 0) {
 
+        /* none of the instances recorded in the file is running or queued
+         * any more */
         cl->cl_numexe = 0;
-        if (is_lavg(cl->cl_option)) {
+        if (context == CONTEXT_BOOT && is_runatreboot(cl->cl_option)) ;
+        else if (is_lavg(cl->cl_option)) {
             if (!is_strict(cl->cl_option))
                 add_lavg_job(cl, -1);
         }
-- 
2.43.0


From a6c17b8076cc0d70885cf43158d2253cd5cf5057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:13 +0000
Subject: [PATCH 033/118] fix: lavg &- and @-jobs waiting when fcron stops were
 lost unless strict(false)

---
 database.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 980a089..d21826b 100644
--- a/database.c
+++ b/database.c
@@ -1498,7 +1498,9 @@ set_next_exe_startup(struct cl_t *cl, const int context,
         cl->cl_numexe = 0;
         if (context == CONTEXT_BOOT && is_runatreboot(cl->cl_option)) ;
         else if (is_lavg(cl->cl_option)) {
-            if (!is_strict(cl->cl_option))
+            /* option strict only makes sense for %-lines */
+            if (!is_strict(cl->cl_option) || !is_td(cl->cl_option)
+                || cl->cl_runfreq != 1)
                 add_lavg_job(cl, -1);
         }
         else if (is_serial(cl->cl_option)
-- 
2.43.0


From 3c1ba4faf1519981e3dc4cc4f45fc440aa595386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 034/118] fix: volatile @-lines started again from first() on
 each resume

---
 database.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index d21826b..58b784c 100644
--- a/database.c
+++ b/database.c
@@ -1621,7 +1621,8 @@ set_next_exe_startup(struct cl_t *cl, const int context,
             || (context == CONTEXT_RESUME && is_runatresume(cl->cl_option))) {
             cl->cl_nextexe = now;
         }
-        else if (is_new_file || is_volatile(cl->cl_option)
+        else if (is_new_file
+                 || (context != CONTEXT_RESUME && is_volatile(cl->cl_option))
                  || (context == CONTEXT_BOOT && (is_rebootreset(cl->cl_option)
                                                  || is_runonce(cl->cl_option)))) {
             /* cl_first is always saved to disk for a volatile line */
-- 
2.43.0


From f20260f2fd0cf6b61d9ffd5da720d1ce91586c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 035/118] fix: a line never to be run again was scheduled after
 a restart or a suspend

---
 database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 58b784c..16c0322 100644
--- a/database.c
+++ b/database.c
@@ -1644,7 +1644,7 @@ set_next_exe_startup(struct cl_t *cl, const int context,
             }
         }
         else {
-            if (cl->cl_nextexe != LONG_MAX) {
+            if (cl->cl_nextexe < TIME_T_MAX) {
                 cl->cl_nextexe += sleep_duration;
 
                 if (cl->cl_nextexe < now && context == CONTEXT_RESUME) {
-- 
2.43.0


From a5f50cceb808b8e96a93e5e87589688822775e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:17 +0000
Subject: [PATCH 036/118] fix: wrong or needless reports of non-execution of
 lines run at reboot or resume

---
 database.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/database.c b/database.c
index 16c0322..eab2fc9 100644
--- a/database.c
+++ b/database.c
@@ -1533,7 +1533,10 @@ set_next_exe_startup(struct cl_t *cl, const int context,
         if ((context == CONTEXT_BOOT && is_runatreboot(cl->cl_option))
             || (context == CONTEXT_RESUME && is_runatresume(cl->cl_option))) {
 
-            if (is_notice_notrun(cl->cl_option)) {
+            /* (nothing has been missed if the line is new, or if it was to run
+             * later only) */
+            if (is_notice_notrun(cl->cl_option)
+                && cl->cl_nextexe > 0 && cl->cl_nextexe <= now) {
 
                 if (cl->cl_runfreq == 1) {
                     /* %-line */
@@ -1693,12 +1696,12 @@ mail_notrun_time_t(cl_t *line, char context, time_t since_time_t)
     struct tm since;
     int tz_changed = 0;
 
-    since2 = localtime(&line->cl_nextexe);
-    memcpy(&since, since2, sizeof(since));
-
     tz_changed = switch_timezone(orig_tz_envvar, line->cl_tz);
 
-    mail_notrun(line, SYSDOWN, &since);
+    since2 = localtime(&since_time_t);
+    memcpy(&since, since2, sizeof(since));
+
+    mail_notrun(line, context, &since);
 
     if (tz_changed > 0)
         switch_back_timezone(orig_tz_envvar);
-- 
2.43.0


From 560ab98e2802d0a683c3070d872ff53144de94e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:58 +0000
Subject: [PATCH 037/118] fix: jobs put in the lavg queue at startup waited for
 the first save or other job

---
 fcron.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcron.c b/fcron.c
index 7b19d0f..cb9890b 100644
--- a/fcron.c
+++ b/fcron.c
@@ -886,7 +886,7 @@ main_loop()
     /* synchronize save with jobs execution */
     save = now + save_time;
 
-    if (serial_num > 0 || once) {
+    if (serial_num > 0 || lavg_list->num_entries > 0 || once) {
         nwt = now + first_sleep;
     }
     else {
-- 
2.43.0


From 9df494d2b938e33d781b38f53ed7b953fcc2a169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:59 +0000
Subject: [PATCH 038/118] fix: removing runonce from a line which had run ran
 it at once

---
 conf.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/conf.c b/conf.c
index 3ac3dda..2aa913f 100644
--- a/conf.c
+++ b/conf.c
@@ -279,6 +279,14 @@ synchronize_file(char *file_name, int is_system_startup)
 
                         if (new_l->cl_runfreq == old_l->cl_runfreq)
                             new_l->cl_remain = old_l->cl_remain;
+
+                        if (!is_runonce(new_l->cl_option)
+                            && is_runonce(old_l->cl_option)
+                            && is_hasrun(old_l->cl_option))
+                            /* the old line was not to be run again: its
+                             * cl_nextexe is not meaningful any more */
+                            break;
+
                         /* check if there is a change about the tz diff */
                         if ((new_l->cl_file->cf_tzdiff !=
                              old_l->cl_file->cf_tzdiff) &&
-- 
2.43.0


From d4782a9465787239596630474795c64787f071fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:19 +0000
Subject: [PATCH 039/118] fix: a new timezone or tzdiff of a fcrontab applied
 after the next run only, or ran @-lines early

---
 conf.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/conf.c b/conf.c
index 2aa913f..c00d2fd 100644
--- a/conf.c
+++ b/conf.c
@@ -287,16 +287,28 @@ synchronize_file(char *file_name, int is_system_startup)
                              * cl_nextexe is not meaningful any more */
                             break;
 
-                        /* check if there is a change about the tz diff */
-                        if ((new_l->cl_file->cf_tzdiff !=
-                             old_l->cl_file->cf_tzdiff) &&
-                            (old_l->cl_nextexe - old_l->cl_file->cf_tzdiff
-                             + new_l->cl_file->cf_tzdiff > now))
-                            new_l->cl_nextexe = old_l->cl_nextexe
-                                - old_l->cl_file->cf_tzdiff +
-                                new_l->cl_file->cf_tzdiff;
-                        else
+                        /* check if there is a change about the timezone or
+                         * the tz diff (which do not apply to @-lines) */
+                        if (is_freq(new_l->cl_option))
+                            new_l->cl_nextexe = old_l->cl_nextexe;
+                        else if ((new_l->cl_tz == NULL) !=
+                                 (old_l->cl_tz == NULL)
+                                 || (new_l->cl_tz != NULL
+                                     && strcmp(new_l->cl_tz,
+                                               old_l->cl_tz) != 0))
+                            /* keep what has just been computed for the new line */
+                            ;
+                        else if (new_l->cl_file->cf_tzdiff ==
+                                 old_l->cl_file->cf_tzdiff)
                             new_l->cl_nextexe = old_l->cl_nextexe;
+                        else {
+                            time_t shifted = old_l->cl_nextexe
+                                + (new_l->cl_file->cf_tzdiff -
+                                   old_l->cl_file->cf_tzdiff) * 3600;
+
+                            if (shifted > now)
+                                new_l->cl_nextexe = shifted;
+                        }
 
                         if (is_runonce(new_l->cl_option)
                             && is_runonce(old_l->cl_option)
-- 
2.43.0


From 9ac593ba376d85f0bf15f33daa4329fbeea4187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:21 +0000
Subject: [PATCH 040/118] fix: weekly and midweekly lines took 2000 for a year
 without February 29th

---
 database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database.c b/database.c
index eab2fc9..04ae446 100644
--- a/database.c
+++ b/database.c
@@ -758,7 +758,7 @@ goto_beginning_next_period_periodical(cl_t *line, struct tm *ftime)
 
 
     /* number of days in ftime's month */
-    max = get_nb_mdays(ftime->tm_year, ftime->tm_mon);
+    max = get_nb_mdays((ftime->tm_year + 1900), ftime->tm_mon);
 
     /* STEP 1: find the beginning of the next period without ensuring
      * there is no overflow (min>=60, hour>=24, etc) */
-- 
2.43.0


From c0af740464ea83ffe12faf5e3a8058b90092c001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 041/118] fix: missing arguments of error messages (a table
 with 65535 entries crashed fcrontab)

---
 database.c    | 6 ++++--
 fcronsighup.c | 2 +-
 fcrontab.c    | 6 +++---
 fileconf.c    | 4 ++--
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/database.c b/database.c
index 04ae446..132b704 100644
--- a/database.c
+++ b/database.c
@@ -805,7 +805,8 @@ goto_beginning_next_period_periodical(cl_t *line, struct tm *ftime)
                          * so as we don't return a time in the past */
                         ftime->tm_min++;
                         warn("Line %s doesn't seem correct: consider "
-                             "reinstalling the corresponding fcrontab");
+                             "reinstalling the corresponding fcrontab",
+                             line->cl_shell);
                     }
                 }
             }
@@ -1799,7 +1800,8 @@ mail_notrun(cl_t *line, char context, struct tm *since)
         fprintf(mailf, "Note that job '%s' has not run.\n", line->cl_shell);
         break;
     default:
-        error("mail_notrun() called with unkown context '%c'. Ignoring.");
+        error("mail_notrun() called with unkown context '%c'. Ignoring.",
+              context);
     }
 
     /* become user (for security reasons) */
diff --git a/fcronsighup.c b/fcronsighup.c
index dc14df3..003cd5f 100644
--- a/fcronsighup.c
+++ b/fcronsighup.c
@@ -184,7 +184,7 @@ sig_daemon(void)
         fd = -1;
 
         if (remove(sigfile) < 0)
-            error_e("Could not remove %s");
+            error_e("Could not remove %s", sigfile);
     }
     else
         /* we are root, or config MAX_FCRONTAB_RELOAD_DELAY_SECONDS=0 is set */
diff --git a/fcrontab.c b/fcrontab.c
index 042584e..ad597ef 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -469,12 +469,12 @@ edit_file(const char *fcron_orig)
         xfclose_check(&f, fcron_orig);
 
         if (ferror(fi))
-            error_e("Error while writing new fcrontab to %s");
+            error_e("Error while writing new fcrontab to %s", tmp_str);
     }
 
     /* Don't close fi, because we still need the file descriptor 'file' */
     if (fflush(fi) != 0)
-        die_e("Could not fflush(%s)", fi);
+        die_e("Could not fflush(%s)", tmp_str);
     fi = NULL;
 
     do {
@@ -656,7 +656,7 @@ install_stdin(void)
 
     /* don't closes tmp_fd as it will be used for make_file(): */
     if (fflush(tmp_file) != 0)
-        die_e("Could not fflush(%s)", tmp_file);
+        die_e("Could not fflush(%s)", tmp_str);
 
     if (make_file(tmp_str, tmp_fd) == ERR)
         goto exiterr;
diff --git a/fileconf.c b/fileconf.c
index 527d198..2548d48 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -285,12 +285,12 @@ read_file(char *filename, int fd)
 
     if (entries == max_entries) {
         error("%s:%d: maximum number of entries (%d) has been reached by %s",
-              file_name, line, user);
+              file_name, line, max_entries, user);
         fprintf(stderr, "Anything after this line will be ignored\n");
     }
     else if (line == max_lines)
         error("%s:%d: maximum number of lines (%d) has been reached by %s",
-              file_name, line, user);
+              file_name, line, max_lines, user);
 
     cf->cf_next = file_base;
     file_base = cf;
-- 
2.43.0


From e28d9cfc38a80e81ef3f5319c086ce4807d8d9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:36 +0000
Subject: [PATCH 042/118] fix: signals received during startup were acted on
 after the first sleep only

---
 fcron.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fcron.c b/fcron.c
index cb9890b..cfae7c5 100644
--- a/fcron.c
+++ b/fcron.c
@@ -883,6 +883,9 @@ main_loop()
 
     synchronize_dir(".", is_system_startup());
 
+    /* signals received meanwhile must not wait for the end of the first sleep */
+    while (check_signal()) ;
+
     /* synchronize save with jobs execution */
     save = now + save_time;
 
-- 
2.43.0


From 298a7c97e17dcb1a1d7133183d2af8a4253a0736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:38 +0000
Subject: [PATCH 043/118] fix: a runonce job dropped from the load average
 queue was never run

---
 database.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 132b704..da2636b 100644
--- a/database.c
+++ b/database.c
@@ -1855,8 +1855,10 @@ check_lavg(time_t lim)
                 else
                     set_next_exe(l->l_line, NO_GOTO_LOG, -1);
 
-                /* remove this job from the lavg queue */
+                /* remove this job from the lavg queue: a runonce job which
+                 * could not run must still run once */
                 l->l_line->cl_numexe -= 1;
+                clear_hasrun(l->l_line->cl_option);
                 lavg_list_remove_cur(lavg_list);
             }
             else {
-- 
2.43.0


From c11e10e8178da495349b3903314ba51808be72c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:27 +0000
Subject: [PATCH 044/118] fix: jobs were started during the first sleep when a
 signal arrived

---
 database.c |  3 ++-
 fcron.c    | 21 ++++++++++++++++-----
 fcron.h    |  1 +
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/database.c b/database.c
index da2636b..3cba80f 100644
--- a/database.c
+++ b/database.c
@@ -607,7 +607,8 @@ wait_chld(void)
             }
         }
 
-        while (serial_num > 0 && serial_running < serial_max_running)
+        while (first_exec == 0 && serial_num > 0
+               && serial_running < serial_max_running)
             run_serial_job();
 
     }
diff --git a/fcron.c b/fcron.c
index cfae7c5..92802ac 100644
--- a/fcron.c
+++ b/fcron.c
@@ -65,6 +65,8 @@ char foreground = 0;            /* set to 1 when we are on foreground, else 0 */
 #endif
 
 time_t first_sleep = FIRST_SLEEP;
+time_t first_exec = 0;          /* no job is started before that time:
+                                 * 0 once first_sleep has passed */
 const time_t min_sleep_usec = 1000;     /* 1ms -- we won't sleep for less than this time */
 time_t save_time = SAVE;
 char once = 0;                  /* set to 1 if fcron shall return immediately after running
@@ -880,6 +882,7 @@ main_loop()
 #endif
 
     now = my_time();
+    first_exec = now + first_sleep;
 
     synchronize_dir(".", is_system_startup());
 
@@ -951,11 +954,15 @@ main_loop()
         reset_sig_cont();
         debug_print_tstamp("    after check_signal and suspend");
 
-        test_jobs();
-        debug_print_tstamp("    after test_jobs");
+        if (now >= first_exec) {
+            first_exec = 0;
 
-        while (serial_num > 0 && serial_running < serial_max_running) {
-            run_serial_job();
+            test_jobs();
+            debug_print_tstamp("    after test_jobs");
+
+            while (serial_num > 0 && serial_running < serial_max_running) {
+                run_serial_job();
+            }
         }
 
         if (once) {
@@ -975,7 +982,11 @@ main_loop()
         fcrondyn_socket_check(&main_select);
 #endif
 
-        nwt = check_lavg(save);
+        if (first_exec > 0)
+            /* woken up by a signal: wait for the end of the first sleep */
+            nwt = tmin(first_exec, save);
+        else
+            nwt = check_lavg(save);
         debug_print_tstamp("    after check_lavg");
         debug("next wake time : %s", ctime(&nwt));
 
diff --git a/fcron.h b/fcron.h
index 6f06c53..e7224ec 100644
--- a/fcron.h
+++ b/fcron.h
@@ -66,6 +66,7 @@ extern time_t now;
 extern char foreground;
 extern char default_mail_charset[TERM_LEN];
 extern time_t first_sleep;
+extern time_t first_exec;
 extern char *cdir;
 extern pid_t daemon_pid;
 extern char *orig_tz_envvar;
-- 
2.43.0


From 719939a08e97473b26c39699d5ea3a4046cbdbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:19 +0000
Subject: [PATCH 045/118] fix: an @-job due when fcron stopped was delayed by
 its frequency or scheduled at an overflowed time

---
 database.c | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/database.c b/database.c
index 3cba80f..11cb2d8 100644
--- a/database.c
+++ b/database.c
@@ -1652,25 +1652,19 @@ set_next_exe_startup(struct cl_t *cl, const int context,
             if (cl->cl_nextexe < TIME_T_MAX) {
                 cl->cl_nextexe += sleep_duration;
 
-                if (cl->cl_nextexe < now && context == CONTEXT_RESUME) {
-                    /* userland processes including fcron may not run for a short
-                     * time before suspend, or after resume, so we can end up in this situation.
-                     * it's not really an error though, and it's best to simply run that job now */
-                    cl->cl_nextexe = now;
-                }
-                else if (cl->cl_nextexe < now || cl->cl_nextexe > TIME_T_MAX) {
-                    /* either there was an integer overflow, or the sleep_duration time is incorrect
-                     * (e.g. fcron didn't shut down cleanly and the fcrontab wasn't saved correctly) */
+                if (cl->cl_nextexe > TIME_T_MAX) {
+                    /* there was an integer overflow! */
                     error
                         ("Error while setting next exe time for job '%s': cl_nextexe"
-                         " overflowed (case2). now=%lu, cl_timefreq=%lu, cl_nextexe=%lu. "
-                         "Did fcron shut down cleanly?",
+                         " overflowed (case2). now=%lu, cl_timefreq=%lu, cl_nextexe=%lu.",
                          cl->cl_shell, now, cl->cl_timefreq, cl->cl_nextexe);
-                    error
-                        ("Setting cl_nextexe to now+cl_timefreq to prevent an infinite loop.");
-                    cl->cl_nextexe = now + cl->cl_timefreq;
-                    error("next execution will now be at %ld.", cl->cl_nextexe);
+                    cl->cl_nextexe = TIME_T_MAX;
                 }
+                else if (cl->cl_nextexe < now)
+                    /* the job was due but could not be run before fcron stopped
+                     * (e.g. during the first sleep) or the system was suspended:
+                     * run it now. */
+                    cl->cl_nextexe = now;
             }
         }
 
-- 
2.43.0


From 9eff03edca11ab4b36909658e4d5f19e8d711965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 046/118] fix: env_list_free_envp() freed the first string byte
 by byte instead of each string

---
 env_list.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/env_list.c b/env_list.c
index cc56a99..6938eff 100644
--- a/env_list.c
+++ b/env_list.c
@@ -200,10 +200,10 @@ env_list_export_envp(env_list_t *list)
 void
 env_list_free_envp(char **envp)
 {
-    char *p = NULL;
+    char **p = NULL;
 
-    for (p = envp[0]; p != NULL; p++) {
-        Free_safe(p);
+    for (p = envp; *p != NULL; p++) {
+        Free_safe(*p);
     }
     Free_safe(envp);
 
-- 
2.43.0


From d939bc2e562017df88ac209de7e3a77c1b06df9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 047/118] fix: a list copied during an iteration which removed
 its element visited it twice

---
 u_list.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/u_list.c b/u_list.c
index f31cbff..90f986a 100644
--- a/u_list.c
+++ b/u_list.c
@@ -75,7 +75,9 @@ u_list_copy(u_list_t *list)
     new_list = alloc_safe(sizeof(struct u_list_t), "u_list_t copy");
     memcpy(new_list, list, sizeof(struct u_list_t));
 
+    /* the copy is not being iterated over */
     new_list->cur_entry = NULL;
+    new_list->cur_removed = 0;
 
     new_list->entries_array = alloc_safe(list->array_size * list->entry_size,
                                          "u_list_t copy (array)");
-- 
2.43.0


From 8c4a7ceabe0837a2a1a76dd17844c7b006ec371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 048/118] fix: saving a string longer than the write buffer
 overflowed it

---
 save.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/save.c b/save.c
index 36a082e..c1aa8df 100644
--- a/save.c
+++ b/save.c
@@ -62,21 +62,14 @@ int
 save_str(int fd, short int type, char *str, char *write_buf, int *buf_used)
 /* save a string of type "type" in a binary fcrontab file */
 {
-    short int size = (str != NULL) ? strlen(str) : 0;
-    int write_len = sizeof(type) + sizeof(size) + size;
-
-    if (write_len > WRITE_BUF_LEN - *buf_used)
-        if (write_buf_to_disk(fd, write_buf, buf_used) == ERR)
-            return ERR;
+    size_t len = (str != NULL) ? strlen(str) : 0;
 
-    memcpy((write_buf + *buf_used), &type, sizeof(type));
-    *buf_used += sizeof(type);
-    memcpy((write_buf + *buf_used), &size, sizeof(size));
-    *buf_used += sizeof(size);
-    memcpy((write_buf + *buf_used), str, size);
-    *buf_used += size;
+    if (len > SHRT_MAX) {
+        error("string of %d bytes is too long to be saved.", (int)len);
+        return ERR;
+    }
 
-    return OK;
+    return save_strn(fd, type, str, (short int)len, write_buf, buf_used);
 }
 
 int
@@ -85,6 +78,7 @@ save_strn(int fd, short int type, char *str, short int size, char *write_buf,
 /* save a "size"-length string of type "type" in a binary fcrontab file */
 {
     int write_len = sizeof(type) + sizeof(size) + size;
+    int len = 0, saved = 0;
 
     if (write_len > WRITE_BUF_LEN - *buf_used)
         if (write_buf_to_disk(fd, write_buf, buf_used) == ERR)
@@ -94,8 +88,19 @@ save_strn(int fd, short int type, char *str, short int size, char *write_buf,
     *buf_used += sizeof(type);
     memcpy((write_buf + *buf_used), &size, sizeof(size));
     *buf_used += sizeof(size);
-    memcpy((write_buf + *buf_used), str, size);
-    *buf_used += size;
+
+    /* the string may be larger than the buffer */
+    while (saved < size) {
+        if (*buf_used >= WRITE_BUF_LEN)
+            if (write_buf_to_disk(fd, write_buf, buf_used) == ERR)
+                return ERR;
+        len = size - saved;
+        if (len > WRITE_BUF_LEN - *buf_used)
+            len = WRITE_BUF_LEN - *buf_used;
+        memcpy((write_buf + *buf_used), str + saved, len);
+        *buf_used += len;
+        saved += len;
+    }
 
     return OK;
 }
-- 
2.43.0


From 9e6e889c474ee592b0c23a4a91336146e108246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 049/118] fix: a damaged spool file could overflow the fields
 of a line, and left its lines in the queue when it was rejected

---
 conf.c | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/conf.c b/conf.c
index c00d2fd..c648dae 100644
--- a/conf.c
+++ b/conf.c
@@ -406,6 +406,10 @@ int
 read_strn(int fd, char **str, short int size)
 /* read a "size"-length string in a binary fcrontab file */
 {
+    *str = NULL;
+    /* size is read from the file: don't trust it */
+    if (size < 0)
+        goto err;
     if ((*str = calloc(size + 1, sizeof(char))) == NULL)
         goto err;
 
@@ -441,7 +445,8 @@ read_type(int fd, short int *type, short int *size)
 /* read "size" bytes from file "ff", put them in "to", and check for errors */
 #define Read(TO, SIZE, ERR_STR) \
         { \
-          if ( read(fileno(ff), &(TO), SIZE) < SIZE ) { \
+          if ( SIZE < 0 || SIZE > (int) sizeof(TO) \
+               || read(fileno(ff), &(TO), SIZE) < SIZE ) { \
             error_e(ERR_STR); \
 	    goto err; \
 	  } \
@@ -458,7 +463,7 @@ read_type(int fd, short int *type, short int *size)
 int
 read_file(const char *file_name, cf_t *cf, int is_system_startup)
     /* read a formated fcrontab.
-     * return ERR on error, OK otherwise */
+     * return ERR on error (cf is then freed), OK otherwise */
 {
     FILE *ff = NULL;
     cl_t *cl = NULL;
@@ -598,6 +603,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
      * a file using a depreciated format generated by an old fcrontab,
      * if the syntax has changed */
     if (read_type(fileno(ff), &type, &size) != OK || type != S_HEADER_T ||
+        size < 0 || size > (int)sizeof(bufi) ||
         read(fileno(ff), &bufi, size) < size || bufi != S_FILEVERSION) {
         error("File %s is not valid: ignored.", file_name);
         error("This file may have been generated by an old version of fcron.");
@@ -628,6 +634,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     /* get the time & date of the saving */
     /* a new file generated by fcrontab has t_save set to 0 */
     if (read_type(fileno(ff), &type, &size) != OK || type != S_TIMEDATE_T
+        || size < 0 || size > (int)sizeof(t_save)
         || read(fileno(ff), &t_save, size) < size) {
         error("could not get time and date of saving");
         goto err;
@@ -642,6 +649,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     Alloc(cl, cl_t);
     /* main loop : read env variables, and lines */
     while (read_type(fileno(ff), &type, &size) == OK) {
+        bufi = 0;
         /* action is determined by the type of the field */
         switch (type) {
 
@@ -793,10 +801,9 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
             {
                 /* we avoid using fseek(), as it seems not to work correctly
                  * on some systems when we use read() on the FILE stream */
-                int i;
-                for (i = 0; i < size; i++)
-                    if (getc(ff) == EOF)
-                        goto err;
+                char *skipped = NULL;
+                Read_strn(skipped, size, "Error while skipping unknown field");
+                Free_safe(skipped);
             }
         }
     }
@@ -817,20 +824,15 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     if (ff != NULL)
         xfclose_check(&ff, file_name);
 
-    if (cl != NULL && cl->cl_next == NULL) {
-        /* line is not yet in the line list of the file : free it */
-        Free_safe(cl->cl_shell);
-        Free_safe(cl->cl_runas);
-        Free_safe(cl->cl_mailfrom);
-        Free_safe(cl->cl_mailto);
-        Free_safe(cl);
-    }
+    /* the line being read is not yet in the line list of the file */
+    if (cl != NULL)
+        free_line(cl);
 
     /* check if we have started to read the lines and env var */
-    if (cl != NULL) {
-        /* insert the line in the file list in order to be able to free
-         * the memory using delete_file() */
-
+    if (cf->cf_env_list != NULL) {
+        /* insert the file at the beginning of the file list in order to be able
+         * to remove the lines already read from the queue and to free the memory
+         * using delete_file() */
         cf->cf_next = file_base;
         file_base = cf;
 
@@ -839,6 +841,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     }
     else {
         Free_safe(cf->cf_user);
+        Free_safe(cf);
     }
 
     return ERR;
-- 
2.43.0


From e7caa3e4d7b7c8277d102d8d08e22132a2fad63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 050/118] fix: a spool file whose user field names another user
 replaced that user's table

---
 conf.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/conf.c b/conf.c
index c648dae..b2108af 100644
--- a/conf.c
+++ b/conf.c
@@ -630,6 +630,13 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
         Free_safe(cf->cf_user);
         cf->cf_user = runas_str;
     }
+    else if (strcmp(cf->cf_user, strncmp(file_name, "new.", 4) == 0 ?
+                    file_name + 4 : file_name) != 0) {
+        /* the file will be saved under that name */
+        error("File %s is the fcrontab of user %s : file ignored", file_name,
+              cf->cf_user);
+        goto err;
+    }
 
     /* get the time & date of the saving */
     /* a new file generated by fcrontab has t_save set to 0 */
-- 
2.43.0


From c47d5a0e6d9864bd6e4fa4fd0e90bb9c494e7a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 051/118] fix: a variable without a value in a spool file was
 read past its end

---
 conf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/conf.c b/conf.c
index b2108af..7d25674 100644
--- a/conf.c
+++ b/conf.c
@@ -671,7 +671,10 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
                 /* we do not allow USER or LOGNAME assignment.
                  * this was already checked by fcrontab, but we check again
                  * just in case... */
-                if (strcmp_until(envvar, "USER", '=') == 0
+                if (strchr(envvar, '=') == NULL) {
+                    error("Env var without a value: ignored.");
+                }
+                else if (strcmp_until(envvar, "USER", '=') == 0
                     || strcmp_until(envvar, "LOGNAME", '=') == 0) {
                     error
                         ("USER or LOGNAME assignement is not allowed: ignored.");
-- 
2.43.0


From 7116d50f7ef07e0c5a1988a7701ee3f59a9823af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 052/118] fix: leave room for the final NUL in
 format_maildisplayname()

---
 mail.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mail.c b/mail.c
index 1d4e423..4ef8b5c 100644
--- a/mail.c
+++ b/mail.c
@@ -45,7 +45,8 @@ format_maildisplayname(char *displayname_conf)
         return strdup2("");
     }
 
-    output = (char *)alloc_safe(buf_len * sizeof(char), "output buffer");
+    /* leave room for the terminating NUL */
+    output = (char *)alloc_safe((buf_len + 1) * sizeof(char), "output buffer");
 
     /* walk the conf_value and rebuild it in buf1 */
     for (ipos = displayname_conf; *ipos; ipos++) {
-- 
2.43.0


From 4e21c4bda9a88df1e3fa1d3662b91d459efa6a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 053/118] fix: remove_blanks() no longer reads before the start
 of a blank string

---
 subs.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/subs.c b/subs.c
index 9a0a00b..6af51d1 100644
--- a/subs.c
+++ b/subs.c
@@ -324,18 +324,11 @@ remove_blanks(char *str)
         c++;
 
     /* scan backward to the first character that is not a space */
-    do {
+    while (c > str && isspace((int)(unsigned char)*(c - 1)))
         c--;
-    }
-    while (c >= str && isspace((int)*c));
 
-    /* if last char is a '\n', we remove it */
-    if (*c == '\n')
-        *c = '\0';
-    else
-        /* one character beyond where we stopped above is where the null
-         * goes. */
-        *++c = '\0';
+    /* the null goes one character beyond where we stopped above. */
+    *c = '\0';
 
     /* return the new length */
     return (c - str);
-- 
2.43.0


From 226f099bffd713688947c62cae002d39061687d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 054/118] fix: ignore lines of fcron.allow and fcron.deny which
 are too long to be a user name

---
 allow.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/allow.c b/allow.c
index dfe6853..471ae5b 100644
--- a/allow.c
+++ b/allow.c
@@ -37,6 +37,7 @@ in_file(char *str, char *file)
     char buf[LINE_LEN];
     FILE *f = NULL;
     char *start = NULL;
+    int line_start = 1;         /* are we at the beginning of a line? */
 
     if ((f = fopen(file, "r")) == NULL) {
         if (errno == ENOENT)
@@ -47,6 +48,14 @@ in_file(char *str, char *file)
     }
 
     while (fgets(buf, sizeof(buf), f) != NULL) {
+        int is_whole_line = (strlen(buf) < sizeof(buf) - 1
+                             || buf[sizeof(buf) - 2] == '\n');
+        int was_line_start = line_start;
+
+        /* a line longer than buf cannot be a user name: ignore all of it */
+        line_start = is_whole_line;
+        if (!was_line_start || !is_whole_line)
+            continue;
 
         /* skip leading and trailing blanks, comments */
         start = buf;
-- 
2.43.0


From 102117a2ff67046ebb031da40f54503d7c816c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 055/118] fix: a user listed after "all" in fcron.allow or
 fcron.deny counts as listed

---
 allow.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/allow.c b/allow.c
index 471ae5b..c62e1b1 100644
--- a/allow.c
+++ b/allow.c
@@ -37,6 +37,7 @@ in_file(char *str, char *file)
     char buf[LINE_LEN];
     FILE *f = NULL;
     char *start = NULL;
+    int result = 0;
     int line_start = 1;         /* are we at the beginning of a line? */
 
     if ((f = fopen(file, "r")) == NULL) {
@@ -68,16 +69,14 @@ in_file(char *str, char *file)
             xfclose_check(&f, file);
             return 1;
         }
-        if (strcmp(start, "all") == 0) {
-            xfclose_check(&f, file);
-            return 2;
-        }
+        /* str itself may still come after "all" */
+        if (strcmp(start, "all") == 0)
+            result = 2;
     }
 
     xfclose_check(&f, file);
-    /* if execution gets here, string is not in file */
-    return 0;
-
+    /* if execution gets here, string itself is not in file */
+    return result;
 
 }
 
-- 
2.43.0


From e6964e05c3a2477e3a748dc4bba270935ab3777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 056/118] fix: names in fcron.conf have to match entirely

---
 fcronconf.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/fcronconf.c b/fcronconf.c
index 346d36d..ef42402 100644
--- a/fcronconf.c
+++ b/fcronconf.c
@@ -88,6 +88,13 @@ free_conf(void)
     Free_safe(maildisplayname);
 }
 
+static int
+is_var(char *word, int size, char *name)
+/* return 1 if the word of that size is exactly that name, 0 otherwise */
+{
+    return size == strlen(name) && strncmp(word, name, size) == 0;
+}
+
 void
 read_conf(void)
 /* reads in a config file and updates the necessary global variables */
@@ -150,9 +157,11 @@ read_conf(void)
         remove_blanks(ptr1);    /* at the end of the line */
 
         /* get the name of the var */
-        if ((namesize = get_word(&ptr1)) == 0)
+        if ((namesize = get_word(&ptr1)) == 0) {
             /* name is zero-length */
             error("Zero-length var name at line %s : line ignored", buf);
+            continue;
+        }
 
         ptr2 = ptr1 + namesize;
 
@@ -165,34 +174,34 @@ read_conf(void)
             ptr2++;
 
         /* find which var the line refers to and update it */
-        if (strncmp(ptr1, "fcrontabs", namesize) == 0) {
+        if (is_var(ptr1, namesize, "fcrontabs")) {
             Set(fcrontabs, ptr2);
         }
-        else if (strncmp(ptr1, "pidfile", namesize) == 0) {
+        else if (is_var(ptr1, namesize, "pidfile")) {
             Set(pidfile, ptr2);
         }
-        else if (strncmp(ptr1, "suspendfile", namesize) == 0) {
+        else if (is_var(ptr1, namesize, "suspendfile")) {
             Set(suspendfile, ptr2);
         }
-        else if (strncmp(ptr1, "fifofile", namesize) == 0) {
+        else if (is_var(ptr1, namesize, "fifofile")) {
             Set(fifofile, ptr2);
         }
-        else if (strncmp(ptr1, "fcronallow", namesize) == 0) {
+        else if (is_var(ptr1, namesize, "fcronallow")) {
             Set(fcronallow, ptr2);
         }
-        else if (strncmp(ptr1, "fcrondeny", namesize) == 0) {
+        else if (is_var(ptr1, namesize, "fcrondeny")) {
             Set(fcrondeny, ptr2);
         }
-        else if (strncmp(ptr1, "shell", namesize) == 0) {
+        else if (is_var(ptr1, namesize, "shell")) {
             Set(shell, ptr2);
         }
-        else if (strncmp(ptr1, "sendmail", namesize) == 0) {
+        else if (is_var(ptr1, namesize, "sendmail")) {
             Set(sendmail, ptr2);
         }
-        else if (strncmp(ptr1, "editor", namesize) == 0) {
+        else if (is_var(ptr1, namesize, "editor")) {
             Set(editor, ptr2);
         }
-        else if (strncmp(ptr1, "maildisplayname", namesize) == 0) {
+        else if (is_var(ptr1, namesize, "maildisplayname")) {
             char *output = format_maildisplayname(ptr2);
             Set(maildisplayname, output ? output : "");
             Free_safe(output);
-- 
2.43.0


From 517667ec5fddb54ab95e77284f5c2cf0927e3d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 057/118] fix: the end of a long line in fcron.conf was read as
 another line

---
 fcronconf.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/fcronconf.c b/fcronconf.c
index ef42402..c563c03 100644
--- a/fcronconf.c
+++ b/fcronconf.c
@@ -148,6 +148,19 @@ read_conf(void)
 
     while ((ptr1 = fgets(buf, sizeof(buf), f)) != NULL) {
 
+        /* the rest of a line which is too long is not a line of its own */
+        if (strlen(buf) == sizeof(buf) - 1 && buf[sizeof(buf) - 2] != '\n') {
+            int c;
+            int is_rest = 0;
+
+            while ((c = getc(f)) != EOF && c != '\n')
+                is_rest = 1;
+            if (is_rest) {
+                error("Line too long in %s: line ignored", fcronconf);
+                continue;
+            }
+        }
+
         Skip_blanks(ptr1);      /* at the beginning of the line */
 
         /* ignore comments and blank lines */
-- 
2.43.0


From 66c1a1a1b34ad913ebd5c3df1f3f131bed867d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 058/118] fix: make_msg() wrote up to two bytes past the
 message

---
 log.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/log.c b/log.c
index f8ab322..850c95c 100644
--- a/log.c
+++ b/log.c
@@ -146,9 +146,8 @@ make_msg(const char *append, char *fmt, va_list args)
      * returns when the buffer overflows.  Hmmm... */
     len = vsnprintf(msg, MAX_MSG + 1, fmt, args);
     if (append != NULL) {
-        size_t size_to_cat = ((MAX_MSG - len) > 0) ? (MAX_MSG - len) : 0;
-        strncat(msg, ": ", size_to_cat);
-        strncat(msg, append, size_to_cat);
+        if (len >= 0 && len < MAX_MSG)
+            snprintf(msg + len, MAX_MSG + 1 - len, ": %s", append);
         len += 2 + strlen(append);
     }
     if (len >= MAX_MSG)
-- 
2.43.0


From 4862c57a193272748d75335fd3802d04b1cdca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 059/118] fix: a user name was part of a format when PAM
 refuses a job

---
 job.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/job.c b/job.c
index d607fbc..df60015 100644
--- a/job.c
+++ b/job.c
@@ -64,7 +64,7 @@ die_mail_pame(cl_t *cl, int pamerrno, struct passwd *pas, char *str,
             die_e("dup2() error");      /* dup2 also clears close-on-exec flag */
 
         foreground = 1;
-        error_pame(pamh, pamerrno, buf, cl->cl_shell);
+        error_pame(pamh, pamerrno, "%s", buf);
         error("Job '%s' has *not* run.", cl->cl_shell);
         foreground = 0;
 
@@ -76,7 +76,7 @@ die_mail_pame(cl_t *cl, int pamerrno, struct passwd *pas, char *str,
         /* launch_mailer() does not return : we never get here */
     }
     else
-        die_pame(pamh, pamerrno, buf, cl->cl_shell);
+        die_pame(pamh, pamerrno, "%s", buf);
 }
 #endif
 
-- 
2.43.0


From bd5b404cedaedef94bd732d0ce0cc7d2d503cb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 060/118] fix: missing argument in a log message about the next
 execution time

---
 database.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 11cb2d8..a7d759b 100644
--- a/database.c
+++ b/database.c
@@ -1339,7 +1339,8 @@ set_next_exe(cl_t *line, char option, int info_fd)
         if (line->cl_nextexe <= now) {
             error("BUG ??? Fcron thinks the next exe time of '%s' is %ld, "
                   "hence before now (%ld). To avoid infinite loop, nextexe"
-                  " will be set at now+5s.", line->cl_shell, line->cl_nextexe);
+                  " will be set at now+5s.", line->cl_shell, line->cl_nextexe,
+                  now);
             line->cl_nextexe = now + 5;
         }
 
-- 
2.43.0


From 899d7fd9a8650dd93194e25a404cf8e5e49680e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 061/118] fix: missing argument in the message about a negative
 suspend duration

---
 suspend.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/suspend.c b/suspend.c
index 6ec3858..16401af 100644
--- a/suspend.c
+++ b/suspend.c
@@ -174,7 +174,8 @@ read_suspend_duration(time_t slept_from)
         goto unlink_cleanup_return;
     }
     else if (suspend_duration < 0) {
-        warn("Read negative suspend_duration (%ld): ignoring.");
+        warn("Read negative suspend_duration (%ld): ignoring.",
+             suspend_duration);
         suspend_duration = 0;
         goto unlink_cleanup_return;
     }
-- 
2.43.0


From 77036021ce949780cf420b16ab54da736231023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 062/118] fix: a huge value in the suspend file overflowed and
 was taken as the suspend duration

---
 suspend.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/suspend.c b/suspend.c
index 16401af..013a965 100644
--- a/suspend.c
+++ b/suspend.c
@@ -183,7 +183,7 @@ read_suspend_duration(time_t slept_from)
         debug("Read suspend_duration of '%ld' from suspend file '%s'",
               suspend_duration, suspendfile);
 
-        if (now < slept_from + suspend_duration) {
+        if (suspend_duration > now - slept_from) {
             long int time_slept = now - slept_from;
 
             /* we can have a couple of seconds more due to rounding up,
-- 
2.43.0


From c06e749ba2520ffbb2720754eed43ba698f43b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 063/118] fix: descriptor leak when the suspend file cannot be
 removed

---
 suspend.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/suspend.c b/suspend.c
index 013a965..aeb3b2c 100644
--- a/suspend.c
+++ b/suspend.c
@@ -199,7 +199,7 @@ read_suspend_duration(time_t slept_from)
  unlink_cleanup_return:
     if (unlink(suspendfile) < 0) {
         warn_e("Could not remove suspend file '%s'", suspendfile);
-        return 0;
+        suspend_duration = 0;
     }
 
  cleanup_return:
-- 
2.43.0


From a403793a226390637a22cc5be8279810dcf10fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 064/118] fix: SHELL was copied from memory just freed when
 setting the environment of a job

---
 job.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/job.c b/job.c
index df60015..42bd3ca 100644
--- a/job.c
+++ b/job.c
@@ -214,6 +214,7 @@ setup_user_and_env(struct cl_t *cl, struct passwd *pas,
         myshell = env_list_getenv(env_list, "SHELL");
         if (myshell == NULL || myshell[0] == '\0') {
             myshell = shell;
+            env_list_setenv(env_list, "SHELL", myshell, 1);
         }
         else if (access(myshell, X_OK) != 0) {
             if (errno == ENOENT)
@@ -224,8 +225,8 @@ setup_user_and_env(struct cl_t *cl, struct passwd *pas,
                         shell);
 
             myshell = shell;
+            env_list_setenv(env_list, "SHELL", myshell, 1);
         }
-        env_list_setenv(env_list, "SHELL", myshell, 1);
         if (curshell != NULL)
             *curshell = strdup2(myshell);
 
-- 
2.43.0


From 2c0e7bdd10ba2adb5e93220a4bae120613f2596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 065/118] fix: read_write_pipe() asked for the full size again
 after a partial read or write

---
 job.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/job.c b/job.c
index 42bd3ca..6ec73d5 100644
--- a/job.c
+++ b/job.c
@@ -418,10 +418,11 @@ read_write_pipe(int fd, void *buf, size_t size, int action)
     while (size_processed < size) {
         errno = 0;
         if (action == PIPE_READ) {
-            ret = read(fd, (char *)buf + size_processed, size);
+            ret = read(fd, (char *)buf + size_processed, size - size_processed);
         }
         else if (action == PIPE_WRITE) {
-            ret = write(fd, (char *)buf + size_processed, size);
+            ret =
+                write(fd, (char *)buf + size_processed, size - size_processed);
         }
         else {
             error("Invalid action parameter for function read_write_pipe():"
-- 
2.43.0


From c3d1e3d5fe1497b128f6774d05d1421723237dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 066/118] fix: the output of a job was lost from a NUL
 character to the end of the line

---
 job.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/job.c b/job.c
index 6ec73d5..c04419a 100644
--- a/job.c
+++ b/job.c
@@ -717,15 +717,17 @@ run_job(struct exe_t *exeent)
                 if (!to_stdout && is_mail(line->cl_option)) {
                     /* user wants a mail : we use the pipe */
                     char mailbuf[TERM_LEN];
+                    size_t len = 0;
                     FILE *pipef = fdopen(pipe_fd[0], "r");
 
                     if (pipef == NULL)
                         die_e("Could not fdopen() pipe_fd[0]");
 
-                    mailbuf[sizeof(mailbuf) - 1] = '\0';
-                    while (fgets(mailbuf, sizeof(mailbuf), pipef) != NULL)
-                        if (fputs(mailbuf, mailf) < 0)
-                            warn("fputs() failed to write to mail file for job '%s' (pid %d)", line->cl_shell, pid);
+                    /* the output may contain anything, including '\0' */
+                    while ((len =
+                            fread(mailbuf, 1, sizeof(mailbuf), pipef)) > 0)
+                        if (fwrite(mailbuf, 1, len, mailf) != len)
+                            warn("fwrite() failed to write to mail file for job '%s' (pid %d)", line->cl_shell, pid);
                     /* (closes also pipe_fd[0]): */
                     xfclose_check(&pipef, "child's pipef");
                 }
-- 
2.43.0


From 6b3e7a86f5ea3cf92bc4b3c791f98855b10de449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 067/118] fix: a read error in a spool file was taken as a
 field and read again for ever

---
 conf.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conf.c b/conf.c
index 7d25674..999795d 100644
--- a/conf.c
+++ b/conf.c
@@ -428,9 +428,10 @@ int
 read_type(int fd, short int *type, short int *size)
 /* read the type and size of the next field in a binary fcrontab file */
 {
-    if (read(fd, type, sizeof(short int)) < sizeof(short int))
+    /* (read() may return -1, which is not less than an unsigned sizeof()) */
+    if (read(fd, type, sizeof(short int)) != sizeof(short int))
         goto err;
-    if (read(fd, size, sizeof(short int)) < sizeof(short int))
+    if (read(fd, size, sizeof(short int)) != sizeof(short int))
         goto err;
 
     return OK;
-- 
2.43.0


From 81606ceb6a7fd3363f07356d642cfbfe06809119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 068/118] fix: a negative nice value was refused for a job root
 runs as another user

---
 job.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/job.c b/job.c
index c04419a..d6d69ae 100644
--- a/job.c
+++ b/job.c
@@ -522,12 +522,12 @@ run_job_grand_child_setup_stderr_stdout(cl_t *line, int *pipe_fd)
 }
 
 void
-run_job_grand_child_setup_nice(cl_t *line)
+run_job_setup_nice(int inc)
     /* set the nice value for the job */
 {
-    if (line->cl_nice != 0) {
+    if (inc != 0) {
         errno = 0;              /* so that it works with any libc and kernel */
-        if (nice(line->cl_nice) == -1 && errno != 0)
+        if (nice(inc) == -1 && errno != 0)
             error_e("could not set nice value");
     }
 }
@@ -617,6 +617,10 @@ run_job(struct exe_t *exeent)
                     die_e("could not pipe() (job not executed)");
             }
 
+            /* only root can set a negative nice value: the job inherits it */
+            if (line->cl_nice < 0)
+                run_job_setup_nice(line->cl_nice);
+
             become_user(line, pas, curhome);
             Free_safe(curhome);
 
@@ -655,7 +659,8 @@ run_job(struct exe_t *exeent)
                 foreground = 1;
                 /* now, errors will be mailed to the user (or to /dev/null) */
 
-                run_job_grand_child_setup_nice(line);
+                if (line->cl_nice > 0)
+                    run_job_setup_nice(line->cl_nice);
 
                 xcloselog();
 
-- 
2.43.0


From 9d6185b6b6e1764c0510177dc87585b824909abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 069/118] fix: the mail about a job refused by PAM began with
 the messages in place of the headers

---
 job.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/job.c b/job.c
index d6d69ae..15fb549 100644
--- a/job.c
+++ b/job.c
@@ -59,6 +59,9 @@ die_mail_pame(cl_t *cl, int pamerrno, struct passwd *pas, char *str,
         FILE *mailf =
             create_mail(cl, "Could not run fcron job", NULL, NULL, envp);
 
+        /* the messages go directly to the file descriptor: after the headers */
+        fflush(mailf);
+
         /* print the error in both syslog and a file, in order to mail it to user */
         if (dup2(fileno(mailf), 1) != 1 || dup2(1, 2) != 2)
             die_e("dup2() error");      /* dup2 also clears close-on-exec flag */
-- 
2.43.0


From 8b2b559d42afab4b09915f2a585d4f9fd9ff3d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 070/118] fix: a job whose SHELL is not valid was not run when
 fcron.conf has no shell

---
 job.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/job.c b/job.c
index 15fb549..3c78ee6 100644
--- a/job.c
+++ b/job.c
@@ -128,6 +128,7 @@ setup_user_and_env(struct cl_t *cl, struct passwd *pas,
     env_t *e = NULL;
     char *path = NULL;
     char *myshell = NULL;
+    char *default_shell = NULL;
 #ifdef HAVE_LIBPAM
     int retcode = 0;
     char **env;
@@ -151,10 +152,11 @@ setup_user_and_env(struct cl_t *cl, struct passwd *pas,
      * in /etc/passwd by default, but the default value from fcron.conf instead: */
     if (shell != NULL && shell[0] != '\0')
         /* default: use value from fcron.conf */
-        env_list_setenv(env_list, "SHELL", shell, 1);
+        default_shell = shell;
     else
         /* shell is empty, ie. not defined: fail back to /etc/passwd's value */
-        env_list_setenv(env_list, "SHELL", pas->pw_shell, 1);
+        default_shell = pas->pw_shell;
+    env_list_setenv(env_list, "SHELL", default_shell, 1);
 
 #if ( ! defined(RUN_NON_PRIVILEGED)) && defined(HAVE_LIBPAM)
     /* Open PAM session for the user and obtain any security
@@ -216,18 +218,18 @@ setup_user_and_env(struct cl_t *cl, struct passwd *pas,
         /* check that SHELL is valid */
         myshell = env_list_getenv(env_list, "SHELL");
         if (myshell == NULL || myshell[0] == '\0') {
-            myshell = shell;
+            myshell = default_shell;
             env_list_setenv(env_list, "SHELL", myshell, 1);
         }
         else if (access(myshell, X_OK) != 0) {
             if (errno == ENOENT)
                 error("shell \"%s\" : no file or directory. SHELL set to %s",
-                      myshell, shell);
+                      myshell, default_shell);
             else
                 error_e("shell \"%s\" not valid : SHELL set to %s", myshell,
-                        shell);
+                        default_shell);
 
-            myshell = shell;
+            myshell = default_shell;
             env_list_setenv(env_list, "SHELL", myshell, 1);
         }
         if (curshell != NULL)
-- 
2.43.0


From cec7f6ac96f675f8cd76cb9d548e84fb95d372cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 071/118] fix: a job without output was mailed when the headers
 of the mail exceed 32 KB

---
 job.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/job.c b/job.c
index 3c78ee6..b7580c6 100644
--- a/job.c
+++ b/job.c
@@ -30,7 +30,7 @@
 
 
 void sig_dfl(void);
-void end_job(cl_t * line, int status, FILE * mailf, short mailpos,
+void end_job(cl_t * line, int status, FILE * mailf, long mailpos,
              char **sendmailenv);
 void end_mailer(cl_t * line, int status);
 #ifdef HAVE_LIBPAM
@@ -584,7 +584,7 @@ run_job(struct exe_t *exeent)
             int status = 0;
             int to_stdout = foreground && is_stdout(line->cl_option);
             int pipe_fd[2];
-            short int mailpos = 0;      /* 'empty mail file' size */
+            long int mailpos = 0;      /* 'empty mail file' size */
 #ifdef WITH_SELINUX
             int flask_enabled = is_selinux_enabled();
 #endif
@@ -803,7 +803,7 @@ run_job(struct exe_t *exeent)
 }
 
 void
-end_job(cl_t *line, int status, FILE *mailf, short mailpos, char **sendmailenv)
+end_job(cl_t *line, int status, FILE *mailf, long mailpos, char **sendmailenv)
     /* if task have made some output, mail it to user */
 {
 
-- 
2.43.0


From fc3f01b8bfbaf0d700a15cd8d5e1d8d0388bebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 072/118] fix: the daemon waited for the mailer reporting a job
 refused by PAM

---
 job.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/job.c b/job.c
index b7580c6..0227801 100644
--- a/job.c
+++ b/job.c
@@ -554,6 +554,12 @@ run_job(struct exe_t *exeent)
         exeent->e_job_pid = -1;
         pipe_pid_fd[0] = pipe_pid_fd[1] = -1;
     }
+    else {
+        /* a mailer executed by the child must not keep the pipe open:
+         * we would wait until it ends */
+        fcntl(pipe_pid_fd[0], F_SETFD, 1);
+        fcntl(pipe_pid_fd[1], F_SETFD, 1);
+    }
 
 #ifdef CHECKRUNJOB
     debug
-- 
2.43.0


From 841b5f3b585431211b77e5aee439868d2f45b7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 073/118] fix: after a fcrondyn client left, the clients with a
 larger descriptor were not served any more

---
 select.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/select.c b/select.c
index e62fef0..018cc46 100644
--- a/select.c
+++ b/select.c
@@ -61,8 +61,9 @@ select_rm_read(select_instance *si, int fd)
         int i;
         for (i = fd; i >= 0; i--) {
             if (FD_ISSET(i, &si->__readfds_master))
-                si->__fd_max = i;
+                break;
         }
+        si->__fd_max = i;
     }
     debug("select: removed fd %d (fd_max=%d)", fd, si->__fd_max);
 }
-- 
2.43.0


From b7270b86e9ff841b03a51570d623d6258a6dc1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 074/118] fix: idle fcrondyn connections were closed only when
 there was something to read from another one

---
 fcrondyn_svr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 2599254..cf608d1 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -886,12 +886,12 @@ fcrondyn_socket_check(select_instance *si)
     struct fcrondyn_cl *client = NULL, *prev_client = NULL;
 
     if (si->retcode <= 0)
-        /* no socket to check : go directly to the end of that function */
-        return;
+        /* no socket to read from : only check for idle connections */
+        FD_ZERO(&si->readfds);
 
     debug("Checking socket ...");
 
-    if (FD_ISSET(listen_fd, &si->readfds)) {
+    if (listen_fd != -1 && FD_ISSET(listen_fd, &si->readfds)) {
         debug("got new connection ...");
         fd = accept(listen_fd, (struct sockaddr *)&client_addr, &addr_len);
         if (fd == -1) {
-- 
2.43.0


From 5f85eed0a1604e5b2abb16906255ea06a22002d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 075/118] fix: an incomplete fcrondyn authentication message
 was completed by the previous client's one

---
 fcrondyn_svr.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index cf608d1..61d1d04 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -286,6 +286,18 @@ auth_client_password(struct fcrondyn_cl *client)
     char *pass_cry = NULL;
     char *pass_sys = NULL;
     char *pass_str = NULL;
+    char *msg_end = (char *)client->fcl_cmd + client->fcl_cmd_len;
+
+    /* the message must be made of two strings: the user name and the password
+     * (we must not read what remains in the buffer from a previous message) */
+    pass_str = memchr(client->fcl_cmd, '\0', client->fcl_cmd_len);
+    if (pass_str == NULL
+        || memchr(pass_str + 1, '\0', msg_end - (pass_str + 1)) == NULL) {
+        error("Invalid authentication message from socket %d",
+              client->fcl_sock_fd);
+        send(client->fcl_sock_fd, "0", sizeof("0"), 0);
+        return;
+    }
 
 #ifdef HAVE_GETSPNAM
     struct spwd *pass_sp = NULL;
-- 
2.43.0


From 52d8a300b1cb1236bea0521c0a619911f407b89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 076/118] fix: an incomplete fcrondyn command was completed by
 a previous client's one

---
 fcrondyn_svr.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 61d1d04..2bfbda7 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -825,6 +825,7 @@ exe_cmd(struct fcrondyn_cl *client)
     long int *cmd;
     int fd;
     int is_root = 0;
+    int min_len = 0;
 
     is_root = (strcmp(client->fcl_user, ROOTNAME) == 0) ? 1 : 0;
 
@@ -832,8 +833,20 @@ exe_cmd(struct fcrondyn_cl *client)
     cmd = client->fcl_cmd;
     fd = client->fcl_sock_fd;
 
+    /* check that the command is complete : we must not read what remains
+     * in the buffer from a previous message */
+    min_len = sizeof(long int);
+    if (client->fcl_cmd_len >= min_len)
+        min_len *= (cmd[0] == CMD_SEND_SIGNAL || cmd[0] == CMD_RENICE) ? 3 : 2;
+    if (client->fcl_cmd_len < min_len) {
+        warn("Incomplete command from %s (%d bytes)", client->fcl_user,
+             client->fcl_cmd_len);
+        Send_err_msg_end(fd, err_invalid_args_str);
+        return;
+    }
+
     /* */
-    debug("exe_cmd [0,1,2] : %d %d %d", cmd[0], cmd[1], cmd[2]);
+    debug("exe_cmd [0,1] : %ld %ld", cmd[0], cmd[1]);
     /* */
 
     switch (cmd[0]) {
-- 
2.43.0


From da5cab910fcea38c30153fc019b0e6426fd52960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 077/118] fix: two end markers were sent after an error about
 kill or renice, so fcrondyn showed the next answer too late

---
 fcrondyn_svr.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 2bfbda7..e8b24f6 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -681,7 +681,7 @@ cmd_on_exeq(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
 
                 warn(err_str, client->fcl_user, cmd[1], cmd[2],
                      client->fcl_user);
-                Send_err_msg_end(fd, err_job_nfound_str);
+                Send_err_msg(fd, err_job_nfound_str);
             }
             else {
                 /* request is valid : do it */
@@ -733,7 +733,7 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
         || (int)cmd[1] > 20 || (int)cmd[1] < -20) {
         warn("renice: invalid args : pid: %d nice_value: %d user: %s.",
              e->e_job_pid, (int)cmd[1], client->fcl_user);
-        Send_err_msg_end(fd, err_invalid_args_str);
+        Send_err_msg(fd, err_invalid_args_str);
         return;
     }
 
@@ -741,7 +741,7 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
     if (setpriority(PRIO_PROCESS, e->e_job_pid, (int)cmd[1]) != 0) {
         error_e("could not setpriority(PRIO_PROCESS, %d, %d)",
                 e->e_job_pid, (int)cmd[1]);
-        Send_err_msg_end(fd, err_unknown_str);
+        Send_err_msg(fd, err_unknown_str);
         return;
     }
     else {
@@ -752,7 +752,7 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
 
 #else                           /* HAVE_SETPRIORITY */
     warn("System has no setpriority() : cannot renice. pid: %d nice_value: %d user: %s.", e->e_job_pid, (int)cmd[1], client->fcl_user);
-    Send_err_msg_end(fd, err_cmd_unknown_str);
+    Send_err_msg(fd, err_cmd_unknown_str);
 
 #endif                          /* HAVE_SETPRIORITY */
 }
@@ -765,14 +765,14 @@ cmd_send_signal(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e)
     if (e->e_job_pid <= 0 || (int)cmd[1] <= 0) {
         warn("send_signal: invalid args : pid: %d signal: %d user: %s",
              e->e_job_pid, (int)cmd[1], client->fcl_user);
-        Send_err_msg_end(fd, err_invalid_args_str);
+        Send_err_msg(fd, err_invalid_args_str);
         return;
     }
 
     /* ok, now kill() the job */
     if (kill(e->e_job_pid, (int)cmd[1]) != 0) {
         error_e("could not kill(%d, %d)", e->e_job_pid, (int)cmd[1]);
-        Send_err_msg_end(fd, err_unknown_str);
+        Send_err_msg(fd, err_unknown_str);
         return;
     }
     else {
-- 
2.43.0


From a569fce210b7931641228d15f6c7b0006efaa122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:06 +0000
Subject: [PATCH 078/118] fix: any user could list the jobs of the system
 fcrontab with fcrondyn

---
 fcrondyn_svr.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index e8b24f6..f63ebac 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -576,8 +576,15 @@ cmd_ls(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
             struct passwd *pass;
 
 #ifdef SYSFCRONTAB
-            if (cmd[1] == SYSFCRONTAB_UID)
+            if (cmd[1] == SYSFCRONTAB_UID) {
+                if (!is_root) {
+                    warn("%s is not allowed to see %s's jobs.",
+                         client->fcl_user, SYSFCRONTAB);
+                    Send_err_msg_end(fd, err_others_nallowed_str);
+                    return;
+                }
                 user = SYSFCRONTAB;
+            }
             else {
 #endif
                 if ((pass = getpwuid((uid_t) cmd[1])) == NULL) {
-- 
2.43.0


From 47fbfb91e30e481b871419d46ab39a6dceacbdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:06 +0000
Subject: [PATCH 079/118] fix: missing argument in the message about a user
 listing the jobs of another one

---
 fcrondyn_svr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index f63ebac..f745947 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -593,8 +593,8 @@ cmd_ls(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
                     return;
                 }
                 if (!is_root && strcmp(pass->pw_name, client->fcl_user) != 0) {
-                    warn_e("%s is not allowed to see %s's jobs. %ld",
-                           client->fcl_user, pass->pw_name);
+                    warn("%s is not allowed to see %s's jobs.",
+                         client->fcl_user, pass->pw_name);
                     Send_err_msg_end(fd, err_others_nallowed_str);
                     return;
                 }
-- 
2.43.0


From c1fc4a17c4c91d0d8da9259ec8119c8c5b432565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 080/118] fix: the signal or nice value sent by fcrondyn was
 checked modulo 2^32

---
 fcrondyn_svr.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index f745947..456e389 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -736,10 +736,10 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
 
 #ifdef HAVE_SETPRIORITY
     /* check if arguments are valid */
-    if (e->e_job_pid <= 0 || ((int)cmd[1] < 0 && !is_root)
-        || (int)cmd[1] > 20 || (int)cmd[1] < -20) {
-        warn("renice: invalid args : pid: %d nice_value: %d user: %s.",
-             e->e_job_pid, (int)cmd[1], client->fcl_user);
+    if (e->e_job_pid <= 0 || (cmd[1] < 0 && !is_root)
+        || cmd[1] > 20 || cmd[1] < -20) {
+        warn("renice: invalid args : pid: %d nice_value: %ld user: %s.",
+             e->e_job_pid, cmd[1], client->fcl_user);
         Send_err_msg(fd, err_invalid_args_str);
         return;
     }
@@ -769,9 +769,9 @@ void
 cmd_send_signal(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e)
 /* send a signal to a running job */
 {
-    if (e->e_job_pid <= 0 || (int)cmd[1] <= 0) {
-        warn("send_signal: invalid args : pid: %d signal: %d user: %s",
-             e->e_job_pid, (int)cmd[1], client->fcl_user);
+    if (e->e_job_pid <= 0 || cmd[1] <= 0 || cmd[1] > INT_MAX) {
+        warn("send_signal: invalid args : pid: %d signal: %ld user: %s",
+             e->e_job_pid, cmd[1], client->fcl_user);
         Send_err_msg(fd, err_invalid_args_str);
         return;
     }
-- 
2.43.0


From 7d020d2a722ea616e190bc2625d5bd72571f6802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 081/118] fix: after too many authentication failures only one
 attempt was refused

---
 fcrondyn_svr.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 456e389..2f995d0 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -330,7 +330,6 @@ auth_client_password(struct fcrondyn_cl *client)
     if (auth_fail >= MAX_AUTH_FAIL) {
         error("Too many authentication failures : try to connect later.");
         send(client->fcl_sock_fd, "0", sizeof("0"), 0);
-        auth_fail = auth_nofail_since = 0;
         return;
     }
 
-- 
2.43.0


From f00c5c8f252b5987bece3d4f441af20ad87009e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:55 +0000
Subject: [PATCH 082/118] fix: more than FD_SETSIZE descriptors overflowed the
 set of the fcrondyn connections

---
 fcrondyn_svr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 2f995d0..1286012 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -930,6 +930,11 @@ fcrondyn_socket_check(select_instance *si)
                 ("could not accept new connection : isset(listen_fd = %d) = %d",
                  listen_fd, FD_ISSET(listen_fd, &si->readfds));
         }
+        else if (fd >= FD_SETSIZE) {
+            error("Too many file descriptors: fcrondyn connection rejected.");
+            shutdown(fd, SHUT_RDWR);
+            xclose_check(&fd, "client fd");
+        }
         else {
             fcntl(fd, F_SETFD, 1);
             /* set fd to O_NONBLOCK : we do not want fcron to be stopped on error, etc */
-- 
2.43.0


From 2dbb29466caedecf25a68e102ed7d09b040f7e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 083/118] fix: fcrondyn printed a "(null)" unknown argument

---
 fcrondyn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcrondyn.c b/fcrondyn.c
index e4c712a..67584b4 100644
--- a/fcrondyn.c
+++ b/fcrondyn.c
@@ -799,7 +799,7 @@ parseopt(int argc, char *argv[])
     }
 
     if (optind < argc) {
-        for (i = optind; i <= argc; i++)
+        for (i = optind; i < argc; i++)
             fprintf(stderr, "Unknown argument \"%s\"", argv[i]);
         usage();
     }
-- 
2.43.0


From 26b15418b290caf2b71c5ee470928f661dff0821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 084/118] fix: fcrondyn sent the gid of a user along with his
 uid

---
 fcrondyn.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fcrondyn.c b/fcrondyn.c
index 67584b4..51277c9 100644
--- a/fcrondyn.c
+++ b/fcrondyn.c
@@ -187,6 +187,7 @@ parse_cmd(char *cmd_str, long int **cmd, int *cmd_len)
     int word_size = 0;
     int i = 0, j = 0, rank = -1;
     long int int_buf = 0;
+    long int user_arg = 0;
     struct passwd *pass = NULL;
 #ifdef SYSFCRONTAB
     long int sysfcrontab_uid = SYSFCRONTAB_UID;
@@ -281,7 +282,8 @@ parse_cmd(char *cmd_str, long int **cmd, int *cmd_len)
                                 cmd_str);
                         return INVALID_ARG;
                     }
-                    Write_cmd(pass->pw_uid);
+                    user_arg = (long int)pass->pw_uid;
+                    Write_cmd(user_arg);
 #ifdef SYSFCRONTAB
                 }
 #endif
-- 
2.43.0


From fe8a6f805344a226f24a1159fab4bf920ac93cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:04 +0000
Subject: [PATCH 085/118] fix: fcrondyn missed the parts and the end of an
 answer received in several pieces

---
 fcrondyn.c | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/fcrondyn.c b/fcrondyn.c
index 51277c9..1c4be89 100644
--- a/fcrondyn.c
+++ b/fcrondyn.c
@@ -486,6 +486,8 @@ talk_fcron(char *cmd_str, int fd)
     int cmd_len = 0;
     char buf[LINE_LEN];
     ssize_t read_len = 0;
+    char last_char = '\n';      /* last character printed */
+    size_t num_nul = 0;         /* number of '\0' received in a row */
     char existing_connection = (fd < 0) ? 0 : 1;
     fd_set read_set;            /* needed to use select to check if some data is waiting */
     struct timeval tv;
@@ -588,14 +590,11 @@ talk_fcron(char *cmd_str, int fd)
             fprintf(stderr, "read_len=%ld\n", read_len);
         }
 
-        if (errno == EINTR && debug_opt)
-            fprintf(stderr, "got EINTR ...\n");
-        else if (read_len > sizeof(buf)) {
-            /* weird ... no data yet ? */
+        if (read_len < 0) {
             if (debug_opt)
-                fprintf(stderr, "no data yet ?\n");
+                fprintf(stderr, "got EINTR ...\n");
         }
-        else if (read_len <= 0) {
+        else if (read_len == 0) {
             if (debug_opt)
                 fprintf(stderr, "read_len = %d\n", (int)read_len);
             fprintf(stderr, "connection closed by fcron\n");
@@ -603,25 +602,26 @@ talk_fcron(char *cmd_str, int fd)
             return ERR;
         }
         else {
-            /* ensure the string is terminated by a '\0' for when we'll printf() it */
-            buf[read_len] = '\0';
-
-            int printed_len = 0;
-            while (printed_len < read_len) {
-                int str_len = strlen(buf + printed_len);
-                printf("%s", buf + printed_len);
-                if (str_len > 0 && buf[printed_len + str_len - 1] != '\n') {
-                    printf("\n");
+            /* a string, or the marker of the end of the command output, may be
+             * recv()ed in several pieces */
+            ssize_t i;
+            for (i = 0; i < read_len; i++) {
+                if (buf[i] != '\0') {
+                    putchar(buf[i]);
+                    last_char = buf[i];
+                    num_nul = 0;
+                }
+                else {
+                    if (last_char != '\n')
+                        putchar('\n');
+                    last_char = '\n';
+                    num_nul++;
                 }
-                printed_len += str_len + 1;     /* +1 to account for the end-of-string '\0' marker */
             }
 
             /* check for the end of command output marker */
-            if (read_len >= sizeof(END_STR) &&
-                memcmp(&buf[read_len - sizeof(END_STR)], END_STR,
-                       sizeof(END_STR)) == 0) {
+            if (num_nul >= sizeof(END_STR))
                 break;
-            }
         }
     }
     if (read_len < 0) {
-- 
2.43.0


From 929aad7650c801c1883dfbf824dab76b8e8d3704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 086/118] fix: fcrondyn ls cut the user name at the first
 character which is not alphanumeric

---
 fcrondyn.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fcrondyn.c b/fcrondyn.c
index 1c4be89..a59d055 100644
--- a/fcrondyn.c
+++ b/fcrondyn.c
@@ -238,7 +238,12 @@ parse_cmd(char *cmd_str, long int **cmd, int *cmd_len)
     cmd_str += word_size;
     for (i = 0; i < cmd_list[rank].cmd_numopt; i++) {
 
-        if ((word_size = get_word(&cmd_str)) == 0) {
+        word_size = get_word(&cmd_str);
+        if (cmd_list[rank].cmd_opt[i] == USER) {
+            /* a user name may contain other characters than a word */
+            word_size = strcspn(cmd_str, " \t");
+        }
+        if (word_size == 0) {
 
             if (cmd_list[rank].cmd_default[i] == ARG_REQUIRED) {
                 fprintf(stderr, "Error : arg required !\n");
-- 
2.43.0


From b253a09d2f23a58307352118f06e489b24230c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:06 +0000
Subject: [PATCH 087/118] fix: a serial job asked by fcrondyn runnow waited for
 the next wake up of the daemon

---
 fcron.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fcron.c b/fcron.c
index 92802ac..275d9bc 100644
--- a/fcron.c
+++ b/fcron.c
@@ -980,6 +980,13 @@ main_loop()
         /* check if there's a new connection, a new command to answer, etc ... */
         /* we do that *after* other checks, to avoid Denial Of Service attacks */
         fcrondyn_socket_check(&main_select);
+
+        /* a user may have asked to run a serial job: do not wait for the next
+         * wake up to start it */
+        while (first_exec == 0 && serial_num > 0
+               && serial_running < serial_max_running) {
+            run_serial_job();
+        }
 #endif
 
         if (first_exec > 0)
-- 
2.43.0


From 9e5780a43027ee78dcb821ed433a73be0c9868eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:15 +0000
Subject: [PATCH 088/118] fix: fcron complained about a "(null)" unknown
 argument

---
 fcron.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcron.c b/fcron.c
index 275d9bc..3401dd2 100644
--- a/fcron.c
+++ b/fcron.c
@@ -437,7 +437,7 @@ parseopt(int argc, char *argv[])
     }
 
     if (optind < argc) {
-        for (i = optind; i <= argc; i++)
+        for (i = optind; i < argc; i++)
             error("Unknown argument \"%s\"", argv[i]);
         usage();
     }
-- 
2.43.0


From 6dc1599dea1302f5f23c47b442e301ded374c1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 089/118] fix: runnow during the first sleep scheduled an
 overdue job in the past

---
 database.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index a7d759b..5c76886 100644
--- a/database.c
+++ b/database.c
@@ -1088,7 +1088,9 @@ set_next_exe(cl_t *line, char option, int info_fd)
     struct tm ftime;
     int tz_changed = 0;
 
-    basetime = (option & FROM_CUR_NEXTEXE) ? line->cl_nextexe : now;
+    /* the current nextexe may be past (e.g. fcron was just restarted) */
+    basetime = (option & FROM_CUR_NEXTEXE && line->cl_nextexe > now) ?
+        line->cl_nextexe : now;
 
     /* Switch to another timezone if necessary. */
     /* If line should be scheduled in a different time zone
-- 
2.43.0


From 3cfcc45b4486001866740139822dbf90de984415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 090/118] fix: the fcrontab of a user whose name has a dot was
 ignored after a restart

---
 conf.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conf.c b/conf.c
index 999795d..fefd663 100644
--- a/conf.c
+++ b/conf.c
@@ -106,7 +106,9 @@ synchronize_dir(const char *dir_name, int is_system_startup)
                 list_cur->next = new_list;
                 new_list = list_cur;
             }
-            else if (strchr(den->d_name, '.') != NULL)
+            else if (strchr(den->d_name, '.') != NULL
+                     && getpwnam(den->d_name) == NULL)
+                /* e.g. user.orig, user.tmp (but a user name can have a '.') */
                 continue;
             else
                 /* this is a normal file : if file_base is not null,
@@ -209,7 +211,7 @@ synchronize_file(char *file_name, int is_system_startup)
     cf_t *cur_f = NULL;
     char *user = NULL;
 
-    if (strchr(file_name, '.') != NULL) {
+    if (strncmp(file_name, "new.", 4) == 0) {
         /* this is a new file : we have to check if there is an old
          * version in database in order to keep a maximum of fields
          * (cl_nextexe) to their current value */
-- 
2.43.0


From b23f8a82c5b0c842a0d2deee8ea2210ad4f9f4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:26 +0000
Subject: [PATCH 091/118] fix: a new fcrontab was removed although the daemon
 could not save it

---
 conf.c | 22 ++++++++++++++++------
 conf.h |  2 +-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/conf.c b/conf.c
index fefd663..07be212 100644
--- a/conf.c
+++ b/conf.c
@@ -352,10 +352,12 @@ synchronize_file(char *file_name, int is_system_startup)
             file_base = cur_f;
 
             /* save final file */
-            save_file(cur_f);
+            if (save_file(cur_f) != OK)
+                /* this is the only copy: keep it to save it again later */
+                error("%s is kept until its content is saved", file_name);
 
             /* delete new.user file */
-            if (remove(file_name) != 0)
+            else if (remove(file_name) != 0)
                 error_e("could not remove %s", file_name);
 
         }
@@ -376,10 +378,12 @@ synchronize_file(char *file_name, int is_system_startup)
             file_base = cur_f;
 
             /* save as a normal file */
-            save_file(cur_f);
+            if (save_file(cur_f) != OK)
+                /* this is the only copy: keep it to save it again later */
+                error("%s is kept until its content is saved", file_name);
 
             /* delete new.user file */
-            if (remove(file_name) != 0)
+            else if (remove(file_name) != 0)
                 error_e("could not remove %s", file_name);
         }
 
@@ -1038,13 +1042,15 @@ delete_file(const char *user_name)
 }
 
 
-void
+int
 save_file(cf_t *arg_file)
 /* Store the informations relatives to the executions
  * of tasks at a defined frequency of system's running time */
+/* returns OK if every file has been saved, ERR otherwise */
 {
     cf_t *file = NULL;
     cf_t *start_file = NULL;
+    int return_val = OK;
 
     if (arg_file != NULL)
         start_file = arg_file;
@@ -1059,10 +1065,14 @@ save_file(cf_t *arg_file)
         /* save the file safely : save it to a temporary name, then rename() it */
         /* chown the file to root:root : this file should only be read and
          * modified by fcron (not fcrontab) */
-        save_file_safe(file, file->cf_user, "fcron", rootuid, rootgid, now);
+        if (save_file_safe(file, file->cf_user, "fcron", rootuid, rootgid, now)
+            != OK)
+            return_val = ERR;
 
         if (arg_file != NULL)
             /* we have to save only a single file */
             break;
     }
+
+    return return_val;
 }
diff --git a/conf.h b/conf.h
index 6036ff3..011c4c6 100644
--- a/conf.h
+++ b/conf.h
@@ -29,6 +29,6 @@
 extern void reload_all(const char *dir_name);
 extern void synchronize_dir(const char *dir_name, int is_system_startup);
 extern void delete_file(const char *user_name);
-extern void save_file(struct cf_t *file_name);
+extern int save_file(struct cf_t *file_name);
 
 #endif                          /* __CONF_H__ */
-- 
2.43.0


From 9183d3d74a83c52cc1a917298eac669761aa2c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:59 +0000
Subject: [PATCH 092/118] fix: a failing rename put the only valid copy of a
 table at risk

---
 save.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/save.c b/save.c
index c1aa8df..0f159bb 100644
--- a/save.c
+++ b/save.c
@@ -397,14 +397,12 @@ save_file_safe(cf_t *file, char *final_path, char *prog_name, uid_t own_uid,
     if (save_one_file(file, temp_path, own_uid, own_gid, save_date) == OK) {
         if (rename_as_user(temp_path, final_path, own_uid, own_gid) != 0) {
             error_e("Cannot rename %s to %s", temp_path, final_path);
-            error("%s will try to save the name to its definitive filename "
-                  "directly.", prog_name);
-            error
-                ("If there is an error, root may consider to replace %s (which is "
-                 "a valid copy) by %s manually.", final_path, temp_path);
-            if (save_one_file(file, final_path, own_uid, own_gid, save_date) ==
-                ERR)
-                return ERR;
+            /* writing directly to final_path would put the previous version
+             * at risk (e.g. if the disk is full) */
+            error("%s will keep the previous version (if any) of %s.",
+                  prog_name, final_path);
+            remove_as_user(temp_path, own_uid, own_gid);
+            return ERR;
         }
     }
     else {
-- 
2.43.0


From 4a84ddda576794268b2511b58a8912f8178a0f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:27 +0000
Subject: [PATCH 093/118] fix: the daemon exited at the save following one
 which failed among the variables

---
 save.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/save.c b/save.c
index 0f159bb..4b2d24c 100644
--- a/save.c
+++ b/save.c
@@ -237,7 +237,13 @@ write_file_to_disk(int fd, struct cf_t *file, time_t time_date)
     /*   env variables, */
     for (env = env_list_first(file->cf_env_list);
          env != NULL; env = env_list_next(file->cf_env_list)) {
-        Save_str(fd, S_ENVVAR_T, env->e_envvar, write_buf, &write_buf_used);
+        if (save_str(fd, S_ENVVAR_T, env->e_envvar, write_buf, &write_buf_used)
+            != OK) {
+            error_e("Could not write str : file %s has not been saved.",
+                    file->cf_user);
+            env_list_end_iteration(file->cf_env_list);
+            return ERR;
+        }
     }
 
     /*   then, lines. */
-- 
2.43.0


From 099ccecbca63646c151dac32cd8ac20bf33fa44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:38 +0000
Subject: [PATCH 094/118] fix: a fcrontab which could not be read completely
 was taken for a complete one

---
 conf.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/conf.c b/conf.c
index 07be212..7475dd6 100644
--- a/conf.c
+++ b/conf.c
@@ -35,6 +35,8 @@ int read_strn(int fd, char **str, short int size);
 int read_type(int fd, short int *type, short int *size);
 void synchronize_file(char *file_name, int is_system_startup);
 
+#define END_OF_FILE 1           /* read_type(): there is no other field */
+
 
 /* this is used to create a list of files to remove, to add */
 typedef struct list_t {
@@ -432,10 +434,15 @@ read_strn(int fd, char **str, short int size)
 
 int
 read_type(int fd, short int *type, short int *size)
-/* read the type and size of the next field in a binary fcrontab file */
+/* read the type and size of the next field in a binary fcrontab file:
+ * return OK, END_OF_FILE if there is no other field, or ERR */
 {
+    ssize_t len = read(fd, type, sizeof(short int));
+
+    if (len == 0)
+        return END_OF_FILE;
     /* (read() may return -1, which is not less than an unsigned sizeof()) */
-    if (read(fd, type, sizeof(short int)) != sizeof(short int))
+    if (len != sizeof(short int))
         goto err;
     if (read(fd, size, sizeof(short int)) != sizeof(short int))
         goto err;
@@ -662,7 +669,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
 
     Alloc(cl, cl_t);
     /* main loop : read env variables, and lines */
-    while (read_type(fileno(ff), &type, &size) == OK) {
+    while ((rc = read_type(fileno(ff), &type, &size)) == OK) {
         bufi = 0;
         /* action is determined by the type of the field */
         switch (type) {
@@ -825,14 +832,16 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
         }
     }
 
+    /* check for an error: do not take a part of the file for the whole */
+    if (rc != END_OF_FILE) {
+        error_e("file %s could not be read or is truncated : you should "
+                "reinstall it with fcrontab", file_name);
+        goto err;
+    }
+
     /* free last cl Alloc : unused */
     Free_safe(cl);
 
-    /* check for an error */
-    if (ferror(ff) != 0)
-        error("file %s is truncated : you should reinstall it with fcrontab",
-              file_name);
-
     xfclose_check(&ff, file_name);
 
     return OK;
-- 
2.43.0


From 8f17dea8d4fb132f2c622c6a55681d33839bf0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:09 +0000
Subject: [PATCH 095/118] fix: die_e() exited with status 0 when errno was not
 set

---
 log.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/log.c b/log.c
index 850c95c..809ef57 100644
--- a/log.c
+++ b/log.c
@@ -465,7 +465,8 @@ die_e(char *fmt, ...)
     }
 
 
-    exit(err_no);
+    /* errno may be 0, but we must not report a success */
+    exit((err_no != 0) ? err_no : EXIT_ERR);
 
 }
 
-- 
2.43.0


From 9983bee0d754d2737f026e44e0a048915fcd4003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:29 +0000
Subject: [PATCH 096/118] fix: fcrontab -e looped for ever at the end of its
 input

---
 fcrontab.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/fcrontab.c b/fcrontab.c
index ad597ef..e871882 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -574,8 +574,17 @@ edit_file(const char *fcron_orig)
                 fprintf(stderr, "\nFile contains some errors. "
                         "Ignore [i] or Correct [c] ? ");
                 while ((c = getchar())) {
+                    int next = c;
+
                     /* consume the rest of the line, e.g. the newline char (\n) */
-                    while (c != '\n' && (getchar() != '\n')) ;
+                    while (next != '\n' && next != EOF)
+                        next = getchar();
+
+                    if (c == EOF) {
+                        fprintf(stderr,
+                                "\nNo answer: fcrontab is unchanged.\n");
+                        goto exiterr;
+                    }
 
                     if (c == 'i') {
                         break;
-- 
2.43.0


From ec30ba401063a373102490f1561849dde1c98c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:29 +0000
Subject: [PATCH 097/118] fix: fcrontab -e ignored the changes made within a
 second

---
 fcrontab.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index e871882..9634d62 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -416,7 +416,7 @@ edit_file(const char *fcron_orig)
     pid_t pid;
     int status;
     struct stat st;
-    time_t mtime = 0;
+    struct stat prev_st;
     char *tmp_str = NULL;
     FILE *f = NULL, *fi = NULL;
     int file = -1, origfd = -1;
@@ -479,9 +479,7 @@ edit_file(const char *fcron_orig)
 
     do {
 
-        if (fstat(file, &st) == 0)
-            mtime = st.st_mtime;
-        else {
+        if (fstat(file, &prev_st) != 0) {
             error_e("could not stat \"%s\"", tmp_str);
             goto exiterr;
         }
@@ -563,7 +561,11 @@ edit_file(const char *fcron_orig)
             goto exiterr;
         }
 
-        else if (st.st_mtime > mtime || correction == 1) {
+        /* the editor may take less than a second, or replace the file */
+        else if (st.st_mtim.tv_sec != prev_st.st_mtim.tv_sec
+                 || st.st_mtim.tv_nsec != prev_st.st_mtim.tv_nsec
+                 || st.st_size != prev_st.st_size
+                 || st.st_ino != prev_st.st_ino || correction == 1) {
 
             correction = 0;
 
-- 
2.43.0


From 55c0195ae1faebd35b5b6f189dce9576ec6773a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 098/118] fix: a failing installation or removal by fcrontab
 left the text and the table in different states

---
 fcrontab.c | 172 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 105 insertions(+), 67 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index 9634d62..7e19d34 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -187,19 +187,14 @@ xexit(int exit_val)
 }
 
 int
-copy_src(int from, const char *dest)
-    /* copy src file orig (already opened) to dest */
-    /* we first copy the file to a temp file name, and then we rename it,
-     * so as to avoid data loss if the filesystem is full. */
+copy_src(int from, const char *dest, char *tmp_filename_str, size_t tmp_size)
+    /* copy src file orig (already opened) to a temp file, the name of which
+     * is put in tmp_filename_str. Once everything is saved, the temp file
+     * is renamed to dest, so as to avoid data loss if the filesystem is full. */
 {
     int to_fd = -1;
     int nb;
-    char *copy_buf[LINE_LEN];
-
-    char tmp_filename_str[PATH_LEN + 4];
-    int dest_path_len, tmp_filename_index;
-    char *tmp_suffix_str = ".tmp";
-    int max_dest_len = sizeof(tmp_filename_str) - sizeof(tmp_suffix_str);
+    char copy_buf[LINE_LEN];
 
     if (from < 0) {
         die("copy_src() called with an invalid 'from' argument");
@@ -209,11 +204,7 @@ copy_src(int from, const char *dest)
     lseek(from, 0, SEEK_SET);
 
     /* the temp file must be in the same directory as the dest file */
-    dest_path_len = strlen(dest);
-    strncpy(tmp_filename_str, dest, max_dest_len);
-    tmp_filename_index = (dest_path_len > max_dest_len) ?
-        max_dest_len : dest_path_len;
-    strcpy(&tmp_filename_str[tmp_filename_index], tmp_suffix_str);
+    snprintf(tmp_filename_str, tmp_size, "%s.tmp", dest);
 
     /* create it as fcrontab_uid (to avoid problem if user's uid changed)
      * except for root. Root requires filesystem uid root for security
@@ -245,63 +236,88 @@ copy_src(int from, const char *dest)
                     " Aborting : old source file kept");
             goto exiterr;
         }
-
-    xclose_check(&to_fd, dest);
-
-    if (rename_as_user(tmp_filename_str, dest, useruid, fcrontab_gid) < 0) {
-        error_e("Unable to rename %s to %s : old source file kept",
-                tmp_filename_str, dest);
+    if (nb == -1) {
+        error_e("Error while reading the file to install."
+                " Aborting : old source file kept");
         goto exiterr;
     }
 
+    if (xclose_check(&to_fd, tmp_filename_str) != 0)
+        goto exiterr;
+
     return OK;
 
  exiterr:
     if (to_fd != -1)
-        xclose_check(&to_fd, dest);
+        xclose_check(&to_fd, tmp_filename_str);
+    remove_as_user(tmp_filename_str, useruid, fcrontab_gid);
     return ERR;
 }
 
 
 int
-remove_fcrontab(char rm_orig)
+ask_removal(char *created)
+    /* create a file in order to tell the daemon that the user's fcrontab was
+     * removed: *created is set to 1 if it did not exist already */
+{
+    int fd;
+    char rm_file[PATH_LEN];
+
+    *created = 0;
+
+    snprintf(rm_file, sizeof(rm_file), "rm.%s", user);
+    fd = open_as_user(rm_file, fcrontab_uid, fcrontab_gid,
+                      O_CREAT | O_TRUNC | O_EXCL, S_IRUSR | S_IWUSR);
+
+    if (fd == -1) {
+        if (errno != EEXIST) {
+            error_e("Can't create file %s", rm_file);
+            return ERR;
+        }
+        return OK;
+    }
+
+    *created = 1;
+    if (asuid == rootuid && fchown(fd, rootuid, fcrontab_gid) != 0)
+        error_e("Could not fchown %s to root", rm_file);
+    xclose_check(&fd, rm_file);
+
+    return OK;
+}
+
+
+int
+remove_fcrontab(void)
     /* remove user's fcrontab and tell daemon to update his conf */
     /* note : the binary fcrontab is removed by fcron */
 {
     int return_val = OK;
-    int fd;
+    char created;
 
-    if (rm_orig)
-        explain("removing %s's fcrontab", user);
+    explain("removing %s's fcrontab", user);
+
+    /* tell the daemon that the file was removed (we signal it on exit) */
+    if (ask_removal(&created) != OK)
+        return ERR;
+    need_sig = 1;
 
     /* remove source and formated file */
-    if ((rm_orig && remove_as_user(buf, fcrontab_uid, fcrontab_gid)) != 0) {
+    if (remove_as_user(buf, fcrontab_uid, fcrontab_gid) != 0) {
         if (errno == ENOENT)
             return_val = ENOENT;
-        else
+        else {
             error_e("could not remove %s", buf);
+            return_val = ERR;
+        }
     }
 
     /* try to remove the temp file in case he has not
      * been read by fcron daemon */
     snprintf(buf, sizeof(buf), "new.%s", user);
-    remove_as_user(buf, useruid, fcrontab_gid);
-
-    /* finally create a file in order to tell the daemon
-     * a file was removed, and launch a signal to daemon */
-    snprintf(buf, sizeof(buf), "rm.%s", user);
-    fd = open_as_user(buf, fcrontab_uid, fcrontab_gid,
-                      O_CREAT | O_TRUNC | O_EXCL, S_IRUSR | S_IWUSR);
-
-    if (fd == -1) {
-        if (errno != EEXIST)
-            error_e("Can't create file %s", buf);
+    if (remove_as_user(buf, useruid, fcrontab_gid) != 0 && errno != ENOENT) {
+        error_e("could not remove %s", buf);
+        return_val = ERR;
     }
-    else if (asuid == rootuid && fchown(fd, rootuid, fcrontab_gid) != 0)
-        error_e("Could not fchown %s to root", buf);
-    xclose_check(&fd, buf);
-
-    need_sig = 1;
 
     return return_val;
 
@@ -310,37 +326,57 @@ remove_fcrontab(char rm_orig)
 
 int
 write_file(int fd)
+    /* if this fails, the previous fcrontab must remain as it was */
 {
-    int return_val = OK;
-
-    if (ignore_prev == 1)
-        /* if user wants to ignore previous version, we remove it *
-         * ( fcron daemon remove files no longer wanted before
-         *   adding new ones ) */
-        remove_fcrontab(0);
+    char tmp_orig[PATH_LEN + 4];
+    char rm_created = 0;
 
     /* copy original file to fcrontabs dir */
     snprintf(buf, sizeof(buf), "%s.orig", user);
-    if (copy_src(fd, buf) == ERR) {
-        return_val = ERR;
+    if (copy_src(fd, buf, tmp_orig, sizeof(tmp_orig)) == ERR)
+        return ERR;
+
+    /* if user wants to ignore previous version, we remove it
+     * ( fcron daemon remove files no longer wanted before
+     *   adding new ones ) */
+    if (ignore_prev == 1 || file_base->cf_line_base == NULL) {
+        if (ask_removal(&rm_created) != OK)
+            goto exiterr;
     }
-    else {
 
-        if (file_base->cf_line_base == NULL) {
-            /* no entries */
-            explain("%s's fcrontab contains no entries : removed.", user);
-            remove_fcrontab(0);
-        }
-        else {
-            /* write the binary fcrontab on disk */
-            snprintf(buf, sizeof(buf), "new.%s", user);
-            if (save_file(buf) != OK)
-                return_val = ERR;
+    snprintf(buf, sizeof(buf), "new.%s", user);
+    if (file_base->cf_line_base == NULL) {
+        /* no entries */
+        explain("%s's fcrontab contains no entries : removed.", user);
+        /* in case the previous fcrontab has not been read by the daemon */
+        if (remove_as_user(buf, useruid, fcrontab_gid) != 0 && errno != ENOENT) {
+            error_e("could not remove %s", buf);
+            goto exiterr;
         }
+    }
+    else {
+        /* write the binary fcrontab on disk */
+        if (save_file(buf) != OK)
+            goto exiterr;
+    }
 
+    snprintf(buf, sizeof(buf), "%s.orig", user);
+    if (rename_as_user(tmp_orig, buf, useruid, fcrontab_gid) < 0) {
+        error_e("Unable to rename %s to %s : old source file kept",
+                tmp_orig, buf);
+        remove_as_user(tmp_orig, useruid, fcrontab_gid);
+        return ERR;
     }
 
-    return return_val;
+    return OK;
+
+ exiterr:
+    remove_as_user(tmp_orig, useruid, fcrontab_gid);
+    if (rm_created) {
+        snprintf(buf, sizeof(buf), "rm.%s", user);
+        remove_as_user(buf, fcrontab_uid, fcrontab_gid);
+    }
+    return ERR;
 }
 
 int
@@ -1147,9 +1183,11 @@ main(int argc, char **argv)
 
     /* remove user's entries */
     if (rm_opt == 1) {
-        if (remove_fcrontab(1) == ENOENT)
+        int rm_ret = remove_fcrontab();
+
+        if (rm_ret == ENOENT)
             fprintf(stderr, "no fcrontab for %s\n", user);
-        xexit(EXIT_OK);
+        xexit((rm_ret == ERR) ? EXIT_ERR : EXIT_OK);
     }
 
     /* list user's entries */
-- 
2.43.0


From 8b4c95a372865d3d99b78af99228dbd32b72a08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 099/118] fix: fcrontab installed what it had read of a file
 when reading it failed

---
 fileconf.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 2548d48..6108c10 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -292,6 +292,13 @@ read_file(char *filename, int fd)
         error("%s:%d: maximum number of lines (%d) has been reached by %s",
               file_name, line, max_lines, user);
 
+    if (ferror(file)) {
+        fprintf(stderr, "Error while reading \"%s\": aborting.\n", file_name);
+        ret = ERR;
+    }
+    else
+        ret = OK;
+
     cf->cf_next = file_base;
     file_base = cf;
 
@@ -304,7 +311,11 @@ read_file(char *filename, int fd)
     Free_safe(default_line.cl_mailto);
     Free_safe(default_line.cl_tz);
 
-    if (!need_correction)
+    if (ret != OK) {
+        delete_file(cf->cf_user);
+        return ERR;
+    }
+    else if (!need_correction)
         return OK;
     else
         return 2;
-- 
2.43.0


From 682358cfe5ea1026772db3053a8e3aa186d4b6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 100/118] fix: fcrontab did not notice some of the errors while
 copying or listing a fcrontab

---
 fcrontab.c | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index 7e19d34..778aa49 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -435,7 +435,10 @@ list_file(const char *file)
     }
 
     while ((c = getc(f)) != EOF)
-        putchar(c);
+        if (putchar(c) == EOF)
+            break;
+    if (ferror(f) || fflush(stdout) != 0 || ferror(stdout))
+        die_e("User %s could not list file \"%s\"", user, file);
 
     /* also closes the underlying file descriptor fd: */
     xfclose_check(&f, file);
@@ -502,15 +505,18 @@ edit_file(const char *fcron_orig)
                 goto exiterr;
             }
         }
+        if (ferror(f)) {
+            error_e("could not read file %s", fcron_orig);
+            goto exiterr;
+        }
         xfclose_check(&f, fcron_orig);
-
-        if (ferror(fi))
-            error_e("Error while writing new fcrontab to %s", tmp_str);
     }
 
     /* Don't close fi, because we still need the file descriptor 'file' */
-    if (fflush(fi) != 0)
-        die_e("Could not fflush(%s)", tmp_str);
+    if (fflush(fi) != 0) {
+        error_e("Could not fflush(%s)", tmp_str);
+        goto exiterr;
+    }
     fi = NULL;
 
     do {
@@ -696,14 +702,24 @@ install_stdin(void)
     if ((tmp_file = fdopen(tmp_fd, "w")) == NULL)
         die_e("Could not fdopen file %s", tmp_str);
 
-    while ((c = getc(stdin)) != EOF)
-        putc(c, tmp_file);
+    while ((c = getc(stdin)) != EOF) {
+        if (putc(c, tmp_file) == EOF) {
+            error_e("Could not write to file %s", tmp_str);
+            goto exiterr;
+        }
+    }
+    if (ferror(stdin)) {
+        error_e("Could not read the fcrontab to install");
+        goto exiterr;
+    }
     /* // */
     debug("Copied stdin to %s, about to parse file %s...", tmp_str, tmp_str);
 
     /* don't closes tmp_fd as it will be used for make_file(): */
-    if (fflush(tmp_file) != 0)
-        die_e("Could not fflush(%s)", tmp_str);
+    if (fflush(tmp_file) != 0) {
+        error_e("Could not fflush(%s)", tmp_str);
+        goto exiterr;
+    }
 
     if (make_file(tmp_str, tmp_fd) == ERR)
         goto exiterr;
-- 
2.43.0


From f9bffa8fbb07b34b962d82d86fff8fd20b81d99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:16 +0000
Subject: [PATCH 101/118] fix: open_as_user() used an undefined file status
 when fstat() failed

---
 subs.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/subs.c b/subs.c
index 6af51d1..e21ffe4 100644
--- a/subs.c
+++ b/subs.c
@@ -135,8 +135,7 @@ open_as_user(const char *pathname, uid_t openuid, gid_t opengid, int flags, ...)
                 error_e("open_as_user: could not xclose() %s", pathname);
             fd = -1;
         }
-
-        if (!S_ISREG(s.st_mode) || s.st_nlink != 1) {
+        else if (!S_ISREG(s.st_mode) || s.st_nlink != 1) {
             error_e("open_as_user(): file %s is not a regular file", pathname);
             if (xclose(&fd) < 0)
                 error_e("open_as_user: could not xclose() %s", pathname);
-- 
2.43.0


From 231355dc64031ea21d5b6ef8b171b2bdca7a489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:05 +0000
Subject: [PATCH 102/118] fix: a change of tzdiff moved the meaningless time of
 a runonce job which had run

---
 conf.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conf.c b/conf.c
index 7475dd6..dcbff8b 100644
--- a/conf.c
+++ b/conf.c
@@ -310,7 +310,11 @@ synchronize_file(char *file_name, int is_system_startup)
                                 + (new_l->cl_file->cf_tzdiff -
                                    old_l->cl_file->cf_tzdiff) * 3600;
 
-                            if (shifted > now)
+                            /* (the cl_nextexe of a line which is not to run
+                             * any more is not meaningful) */
+                            if (shifted > now && !(is_runonce(old_l->cl_option)
+                                                   && is_hasrun(old_l->
+                                                                cl_option)))
                                 new_l->cl_nextexe = shifted;
                         }
 
-- 
2.43.0


From 7b858a240d46593c74038bf538aaf784fc18282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:05 +0000
Subject: [PATCH 103/118] fix: the dates of a report of non-execution were not
 in the same time zone with tzdiff

---
 database.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/database.c b/database.c
index 5c76886..47c2c9b 100644
--- a/database.c
+++ b/database.c
@@ -1439,8 +1439,6 @@ set_next_exe_notrun(cl_t *line, char context)
      * it resets our previous changes, so we need to prevent it
      * ( localtime() is used in the debug() function) */
     memcpy(&ftime, ft, sizeof(ftime));
-    /* we also copy it to last_nextexe which will be used in mail_notrun */
-    memcpy(&last_nextexe, ft, sizeof(last_nextexe));
 
     ftime.tm_sec = 0;
     move_time_to(BEGIN_NEXT_PERIOD, line, &ftime);
@@ -1452,7 +1450,11 @@ set_next_exe_notrun(cl_t *line, char context)
         set_next_exe(line, set_next_exe_opt, -1);
 
     if (line->cl_nextexe >= next_period) {
-        /* line has not run during one or more period(s) : send a mail */
+        /* line has not run during one or more period(s) : send a mail
+         * (mail_notrun() uses the system's time, i.e. without tzdiff) */
+        previous_period += (line->cl_file->cf_tzdiff * 3600);
+        ft = localtime(&previous_period);
+        memcpy(&last_nextexe, ft, sizeof(last_nextexe));
         mail_notrun(line, context, &last_nextexe);
     }
 
-- 
2.43.0


From 1463a8f739099f9e4960ed114ebf43fd3ba0697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:25 +0000
Subject: [PATCH 104/118] fix: a failing fork() in fcronsighup removed the lock
 of another waiting process

---
 fcronsighup.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fcronsighup.c b/fcronsighup.c
index 003cd5f..e58f43c 100644
--- a/fcronsighup.c
+++ b/fcronsighup.c
@@ -136,7 +136,6 @@ sig_daemon(void)
 
         switch (fork()) {
         case -1:
-            remove(sigfile);
             die_e("could not fork : daemon has not been signaled");
             break;
         case 0:
-- 
2.43.0


From 22c0d2ae172dd35563082c2ccef860011cf1533a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:08 +0000
Subject: [PATCH 105/118] fix: without first sleep, a %-line to be run at once
 was run 5 seconds later (never with option once)

---
 database.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/database.c b/database.c
index 47c2c9b..d5cf05d 100644
--- a/database.c
+++ b/database.c
@@ -1106,6 +1106,7 @@ set_next_exe(cl_t *line, char option, int info_fd)
         int i;
         int max;
         char has_changed = 0;
+        char may_run_now = 0;   /* the current time is a valid nextexe */
         /* to prevent from invinite loop with unvalid lines : */
         short int year_limit = MAXYEAR_SCHEDULE_TIME;
         /* timezone difference */
@@ -1130,11 +1131,13 @@ set_next_exe(cl_t *line, char option, int info_fd)
             ftime.tm_sec = 0;
             move_time_to(BEGIN_NEXT_PERIOD, line, &ftime);
         }
-        else if (first_sleep > 0 || option == STD || line->cl_runfreq != 1)
+        else if (first_sleep > 0 || option != NO_GOTO || line->cl_runfreq != 1)
             /* to prevent multiple execution of &-jobs in the same minute
              * (but not if the user has explicitely asked to run jobs
              * immediately) */
             goto_next_minute(&ftime);
+        else
+            may_run_now = 1;
 
  setMonth:
         for (i = ftime.tm_mon; (bit_test(line->cl_mons, i) == 0) && (i < 12);
@@ -1279,6 +1282,10 @@ set_next_exe(cl_t *line, char option, int info_fd)
          *        hence, nextexe is correct even if option timezone is used. */
         nextexe = mktime_no_dst(&ftime);
 
+        /* an interval which is yet to come begins with a minute */
+        if (may_run_now && nextexe > basetime_tz)
+            nextexe -= ftime.tm_sec;
+
         if (is_random(line->cl_option)) {
             /* run the job at a random time during its interval of execution */
             struct tm int_end;
@@ -1338,7 +1345,7 @@ set_next_exe(cl_t *line, char option, int info_fd)
          * We add a test here to limit the consequences that would have
          * an unknown bug in this function.
          */
-        if (line->cl_nextexe <= now) {
+        if (line->cl_nextexe < now || (line->cl_nextexe == now && !may_run_now)) {
             error("BUG ??? Fcron thinks the next exe time of '%s' is %ld, "
                   "hence before now (%ld). To avoid infinite loop, nextexe"
                   " will be set at now+5s.", line->cl_shell, line->cl_nextexe,
-- 
2.43.0


From 858564c7a138e5a4417de726fe1a8a85b5a5d88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:41 +0000
Subject: [PATCH 106/118] fix: with option once, the jobs waiting for the load
 or in the serial queue were not run

---
 fcron.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/fcron.c b/fcron.c
index 3401dd2..2b250a0 100644
--- a/fcron.c
+++ b/fcron.c
@@ -965,7 +965,23 @@ main_loop()
             }
         }
 
-        if (once) {
+        if (once && first_exec == 0) {
+            /* run also the jobs waiting for the system load or in a serial queue,
+             * as far as they can be now, before we exit */
+            for (;;) {
+                check_lavg(save);
+                while (serial_num > 0 && serial_running < serial_max_running) {
+                    run_serial_job();
+                }
+                if (exe_list->num_entries == 0 || sig_term)
+                    break;
+                /* as in xexit(): we might get a SIGKILL */
+                save_file(NULL);
+                wait_all(&exe_list->num_entries);
+                if (exe_list->num_entries > 0)
+                    break;
+            }
+
             explain("Running with option once : exiting ... ");
             xexit(EXIT_OK);
         }
-- 
2.43.0


From 12e873bc61af890755d1561ec7f05188f58e310b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:38 +0000
Subject: [PATCH 107/118] fix: the log file given by a relative path was
 written in the spool directory once in background

---
 fcron.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/fcron.c b/fcron.c
index 2b250a0..b178824 100644
--- a/fcron.c
+++ b/fcron.c
@@ -315,6 +315,27 @@ is_system_startup(void)
 }
 
 
+static void
+set_logfile_path(const char *path)
+    /* set logfile_path to an absolute path, as the log file is opened again
+     * after the daemon changed its directory */
+{
+    char cwd[PATH_LEN];
+
+    Free_safe(logfile_path);
+
+    if (path[0] == '/')
+        logfile_path = strdup2(path);
+    else {
+        if (getcwd(cwd, sizeof(cwd)) == NULL)
+            die_e("Could not get the current directory");
+        logfile_path = alloc_safe(strlen(cwd) + strlen(path) + 2,
+                                  "log file path");
+        sprintf(logfile_path, "%s/%s", cwd, path);
+    }
+}
+
+
 int
 parseopt(int argc, char *argv[])
   /* set options */
@@ -383,7 +404,7 @@ parseopt(int argc, char *argv[])
             break;
 
         case 'p':
-            logfile_path = strdup2(optarg);
+            set_logfile_path(optarg);
             break;
 
         case 'o':
-- 
2.43.0


From f6dba63eccd4aa54d2f544d2e2789bc9bead6540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 108/118] fix: a number out of range or no number at all given
 to options -s, -l, -m and -q could be accepted

---
 fcron.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/fcron.c b/fcron.c
index b178824..daeed25 100644
--- a/fcron.c
+++ b/fcron.c
@@ -336,6 +336,20 @@ set_logfile_path(const char *path)
 }
 
 
+static long int
+get_number(const char *name, const char *str, long int min, long int max)
+    /* return the number in str, or die if it is not one between min and max */
+{
+    char *end = NULL;
+    long int n = strtol(str, &end, 10);
+
+    if (end == str || *end != '\0' || n < min || n > max)
+        die("%s can only be set between %ld and %ld.", name, min, max);
+
+    return n;
+}
+
+
 int
 parseopt(int argc, char *argv[])
   /* set options */
@@ -413,22 +427,16 @@ parseopt(int argc, char *argv[])
             break;
 
         case 's':
-            if ((save_time = strtol(optarg, NULL, 10)) < 60
-                || save_time >= TIME_T_MAX)
-                die("Save time can only be set between 60 and %d.", TIME_T_MAX);
+            save_time = get_number("Save time", optarg, 60, TIME_T_MAX - 1);
             break;
 
         case 'l':
-            if ((first_sleep = strtol(optarg, NULL, 10)) < 0
-                || first_sleep >= TIME_T_MAX)
-                die("First sleep can only be set between 0 and %d.",
-                    TIME_T_MAX);
+            first_sleep = get_number("First sleep", optarg, 0, TIME_T_MAX - 1);
             break;
 
         case 'm':
-            if ((serial_max_running = strtol(optarg, NULL, 10)) <= 0
-                || serial_max_running >= SHRT_MAX)
-                die("Max running can only be set between 1 and %d.", SHRT_MAX);
+            serial_max_running =
+                get_number("Max running", optarg, 1, SHRT_MAX - 1);
             break;
 
         case 'c':
@@ -440,9 +448,8 @@ parseopt(int argc, char *argv[])
             break;
 
         case 'q':
-            if ((lavg_queue_max = serial_queue_max =
-                 strtol(optarg, NULL, 10)) < 5 || serial_queue_max >= SHRT_MAX)
-                die("Queue length can only be set between 5 and %d.", SHRT_MAX);
+            lavg_queue_max = serial_queue_max =
+                get_number("Queue length", optarg, 5, SHRT_MAX - 1);
             break;
 
         case ':':
-- 
2.43.0


From 17d4946b22b02fceeedef0027269be5a18fd2bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:28 +0000
Subject: [PATCH 109/118] fix: a daemon starting while another one ended could
 lock a removed pid file

---
 fcron.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fcron.c b/fcron.c
index daeed25..3378c3e 100644
--- a/fcron.c
+++ b/fcron.c
@@ -259,7 +259,9 @@ get_lock()
     int otherpid = 0;
     FILE *daemon_lockfp = NULL;
     int fd;
+    struct stat st_fd, st_file;
 
+  again:
     if (((fd = open(pidfile, O_RDWR | O_CREAT, 0644)) == -1)
         || ((daemon_lockfp = fdopen(fd, "r+"))) == NULL)
         die_e("can't open or create %s", pidfile);
@@ -278,6 +280,16 @@ get_lock()
                   " daemon's pid", pidfile);
     }
 
+    /* the daemon which was running until now may have removed the file after
+     * we opened it: what we locked would not lock anything then */
+    if (fstat(fd, &st_fd) != 0)
+        die_e("can't fstat %s", pidfile);
+    if (stat(pidfile, &st_file) != 0 || st_file.st_ino != st_fd.st_ino
+        || st_file.st_dev != st_fd.st_dev) {
+        xfclose_check(&daemon_lockfp, pidfile);
+        goto again;
+    }
+
     fcntl(fd, F_SETFD, 1);
 
     rewind(daemon_lockfp);
-- 
2.43.0


From 50943cdcf37df847949724c20d1218c0b043bba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:02 +0000
Subject: [PATCH 110/118] fix: a command beginning with a user name (e.g.
 mail.sh) lost it, a command which is one was refused

---
 fileconf.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 6108c10..136c102 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1323,8 +1323,10 @@ check_username(char *ptr, cf_t *cf, cl_t *cl)
      * a command line (where quotes are allowed) */
     while (isalnum((int)ptr[indx]) || ptr[indx] == '-' || ptr[indx] == '_')
         indx++;
-    if (indx >= USER_NAME_LEN)
-        indx = USER_NAME_LEN - 1;
+    /* it must be a whole word before the command: neither the beginning of one
+     * (e.g. root.sh) nor the command itself */
+    if ((ptr[indx] != ' ' && ptr[indx] != '\t') || indx >= USER_NAME_LEN)
+        return ptr;
     strncpy(username, ptr, indx);
     username[indx] = '\0';
 
-- 
2.43.0


From 9c09f13ed9beba7161910a1526028d86c3e8cbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:35 +0000
Subject: [PATCH 111/118] fix: a table with more lines than the maximum was cut
 without a message

---
 fileconf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 136c102..0af162d 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -288,9 +288,11 @@ read_file(char *filename, int fd)
               file_name, line, max_entries, user);
         fprintf(stderr, "Anything after this line will be ignored\n");
     }
-    else if (line == max_lines)
+    else if (line > max_lines && ret != GET_LINE_EOF) {
         error("%s:%d: maximum number of lines (%d) has been reached by %s",
               file_name, line, max_lines, user);
+        fprintf(stderr, "Anything after this line will be ignored\n");
+    }
 
     if (ferror(file)) {
         fprintf(stderr, "Error while reading \"%s\": aborting.\n", file_name);
-- 
2.43.0


From 865856d75fd26bc0afda276de2760ace1ce1220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:16 +0000
Subject: [PATCH 112/118] fix: wrong days of week for dates before 2000 (clock
 not set)

---
 database.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/database.c b/database.c
index d5cf05d..4967cc3 100644
--- a/database.c
+++ b/database.c
@@ -691,6 +691,9 @@ set_wday(struct tm *date)
     /* we add the number of days of each previous years */
     for (i = (date->tm_year - 1); i >= 100; i--)
         nod += (is_leap_year(i + 1900)) ? 366 : 365;
+    /* (the clock may be before 2000 if it has not been set yet) */
+    for (i = date->tm_year; i < 100; i++)
+        nod -= (is_leap_year(i + 1900)) ? 366 : 365;
 
     /*     and month */
     for (i = (date->tm_mon - 1); i >= 0; i--)
@@ -703,6 +706,8 @@ set_wday(struct tm *date)
 
     if (date->tm_wday >= 7)
         date->tm_wday -= 7;
+    else if (date->tm_wday < 0)
+        date->tm_wday += 7;
 
     debug("    dow of %04d-%02d-%02d : %d", (date->tm_year + 1900),
           (date->tm_mon + 1), date->tm_mday, date->tm_wday);
-- 
2.43.0


From 119173c433fbd5802a456c47703a68c90cf0c7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:25 +0000
Subject: [PATCH 113/118] fix: check_system_crontabs never installed the first
 system fcrontab

---
 script/check_system_crontabs.sh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/script/check_system_crontabs.sh b/script/check_system_crontabs.sh
index f49ca39..25ceb04 100755
--- a/script/check_system_crontabs.sh
+++ b/script/check_system_crontabs.sh
@@ -284,6 +284,12 @@ if [ -n "$FORCE" ]; then
 
   NEED_REBUILD=1
 
+elif [ ! -e "$FCRONTABS_DIR"/systab.orig ]; then
+
+  # find's -newer fails without that file
+  info "There is no system fcrontab yet"
+  NEED_REBUILD=1
+
 else
 
   if [ -d "$CROND_DIR" ]; then
-- 
2.43.0


From 91f0b26673fc66aa07d2188c5187e228583df38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:25 +0000
Subject: [PATCH 114/118] fix: check_system_crontabs changed @daily etc inside
 commands and values

---
 script/check_system_crontabs.sh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/script/check_system_crontabs.sh b/script/check_system_crontabs.sh
index 25ceb04..d49debc 100755
--- a/script/check_system_crontabs.sh
+++ b/script/check_system_crontabs.sh
@@ -262,7 +262,13 @@ _EOF_
   fi
 
   # Replace "@hourly" style Vixie cron extensions which fcron doesn't parse
-  sed -i -e "s/@yearly/0 0 1 1 */g" -e "s/@annually/0 0 1 1 */g" -e "s/@monthly/0 0 1 * */g" -e "s/@weekly/0 0 * * 0/g" -e "s/@daily/0 0 * * */g" -e "s/@midnight/0 0 * * */g" -e "s/@hourly/0 * * * */g" "$FCRONTAB_FILE_TMP"
+  sed -i -e "s/^\([[:space:]]*\)@yearly\([[:space:]]\)/\10 0 1 1 *\2/" \
+         -e "s/^\([[:space:]]*\)@annually\([[:space:]]\)/\10 0 1 1 *\2/" \
+         -e "s/^\([[:space:]]*\)@monthly\([[:space:]]\)/\10 0 1 * *\2/" \
+         -e "s/^\([[:space:]]*\)@weekly\([[:space:]]\)/\10 0 * * 0\2/" \
+         -e "s/^\([[:space:]]*\)@daily\([[:space:]]\)/\10 0 * * *\2/" \
+         -e "s/^\([[:space:]]*\)@midnight\([[:space:]]\)/\10 0 * * *\2/" \
+         -e "s/^\([[:space:]]*\)@hourly\([[:space:]]\)/\10 * * * *\2/" "$FCRONTAB_FILE_TMP"
 
   # notify fcron about the updated file
   "$FCRONTAB_PROG" -c "$FCRON_CONFIG_FILE" "$FCRONTAB_FILE_TMP" -u systab
-- 
2.43.0


From dd5a623504cbee06f3fa1dad4f467fef38ae6aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:25 +0000
Subject: [PATCH 115/118] fix: check_system_crontabs left its temporary file
 when it refused to run

---
 script/check_system_crontabs.sh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/script/check_system_crontabs.sh b/script/check_system_crontabs.sh
index d49debc..d9c81ef 100755
--- a/script/check_system_crontabs.sh
+++ b/script/check_system_crontabs.sh
@@ -104,6 +104,7 @@ info() {
 die() {
   echo check_system_crontabs: "$@" >&2
   echo Try check_system_crontabs -h for help. >&2
+  cleanup
   exit 1
 }
 
@@ -125,7 +126,8 @@ Usage: check_system_crontabs [options]
     -D DIR      System crontab directory (default $DEFAULT_CROND_DIR).
     -h          This help text.
 _EOF_
-  exit
+  cleanup
+  exit 0
 }
 
 SLEEP_TIME_BEFORE_REBUILD="$DEFAULT_SLEEP_TIME_BEFORE_REBUILD"
-- 
2.43.0


From 6b5c521803b8275971abe0f886c0d6f9aa3bc08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:41 +0000
Subject: [PATCH 116/118] fix: the suspend script did not use the configured
 pid and suspend files

---
 script/fcron.suspend.sh.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/fcron.suspend.sh.in b/script/fcron.suspend.sh.in
index 4d0b55e..d4c8252 100644
--- a/script/fcron.suspend.sh.in
+++ b/script/fcron.suspend.sh.in
@@ -8,8 +8,8 @@
 # - pm-utils: /etc/pm/sleep.d/74_fcron
 #
 
-PID_FILE=/usr/local/var/run/fcron.pid
-SUSPEND_FILE=/usr/local/var/run/fcron.suspend
+PID_FILE=@@PIDFILE@
+SUSPEND_FILE=@@SUSPEND_FILE@
 PATH=/bin:/usr/bin:/sbin:/usr/sbin
 LOGGER="logger -p cron.info"
 
-- 
2.43.0


From 224f312d5bf180f227dc80b57e295b9ef4b71b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:08 +0000
Subject: [PATCH 117/118] fix: fcron crashed on an invalid next execution time
 in a saved table

---
 conf.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/conf.c b/conf.c
index dcbff8b..351aa11 100644
--- a/conf.c
+++ b/conf.c
@@ -929,6 +929,18 @@ add_line_to_file(cl_t *cl, cf_t *cf, uid_t runas, char *runas_str,
         cl->cl_timefreq = 3600 * 24;
     }
 
+    /* make sure the time of the next execution can be converted by
+     * localtime() */
+    if (is_td(cl->cl_option)) {
+        if (cl->cl_nextexe < 0 || cl->cl_nextexe > TIME_T_MAX) {
+            error("Invalid next execution time %ld for job '%s': "
+                  "scheduling it as a new line", cl->cl_nextexe, cl->cl_shell);
+            cl->cl_nextexe = 0;
+        }
+    }
+    else if (cl->cl_nextexe > TIME_T_MAX)
+        cl->cl_nextexe = TIME_T_MAX;
+
     set_next_exe_startup(cl, is_system_startup ? CONTEXT_BOOT : CONTEXT_DEFAULT,
                          sleep_duration);
 
-- 
2.43.0


From c7cc7d17afefb8ee49f59410fadb1190d79a10fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:43 +0000
Subject: [PATCH 118/118] fix: uninitialised time for a random line matching
 all times at the start of January

---
 database.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 4967cc3..25980b9 100644
--- a/database.c
+++ b/database.c
@@ -1045,7 +1045,8 @@ move_time_to(int where, cl_t *line, struct tm *ftime)
 
     }
 
-    if (timet_ftime > timet_next_period) {
+    if (is_freq_periodically(line->cl_option)
+        && timet_ftime > timet_next_period) {
         /* the end of the interval if after the end of the period:
          * we don't want to go in the next period, so we return
          * the value of the end of the period. */
-- 
2.43.0

