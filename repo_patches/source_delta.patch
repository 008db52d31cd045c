From 8118be2d5e432b6aa93cdaeea02e8f6f41ece965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:36 +0000
Subject: [PATCH 01/17] fix: rewind the ignore list before every lookup

ignore_file() returned as soon as an entry matched and left the list's
cursor behind that entry, so the next lookup started in the middle of the
list: the second of two ignored files in a row was not ignored.
---
 src/file.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/file.c b/src/file.c
index 00a03cc..9ac0893 100644
--- a/src/file.c
+++ b/src/file.c
@@ -38,6 +38,9 @@ static int ignore_file(const char *filename, const options_t *options)
         return 1;
     }
 
+    // an earlier match may have left the list's cursor in the middle
+    filelist_reset(options->files_to_ignore);
+
     while ((file_walk = filelist_get(options->files_to_ignore))) {
         if (strcmp(filename, file_walk) == 0) {
             return 1;
-- 
2.43.0


From 0947856314f4ee6a0ad7943078627fd85fae76be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:07 +0000
Subject: [PATCH 02/17] fix: size the cleaners' output for the default
 translation too

The output buffer was strlen(filename) * max_data_length + 1 bytes, but a
character may also be replaced by the default translation, which
max_data_length does not cover, or be copied through when the table has no
rows at all (max_data_length 0).
---
 src/clean_string.c |  4 ++--
 src/clean_utf_8.c  |  2 +-
 src/table.c        | 23 +++++++++++++++++++++++
 src/table.h        |  1 +
 4 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/clean_string.c b/src/clean_string.c
index b3cbeea..3b3da83 100644
--- a/src/clean_string.c
+++ b/src/clean_string.c
@@ -40,7 +40,7 @@ char *clean_iso8859_1(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    output = wrapped_malloc((strlen(filename) * table_max_output(table)) + 1);
 
     input_walk = filename;
     output_walk = output;
@@ -100,7 +100,7 @@ char *clean_safe(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    output = wrapped_malloc((strlen(filename) * table_max_output(table)) + 1);
 
     input_walk = filename;
     output_walk = output;
diff --git a/src/clean_utf_8.c b/src/clean_utf_8.c
index 56d9051..06e5ccf 100644
--- a/src/clean_utf_8.c
+++ b/src/clean_utf_8.c
@@ -75,7 +75,7 @@ char *clean_utf_8(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    output = wrapped_malloc((strlen(filename) * table_max_output(table)) + 1);
 
     input_walk = filename;
     output_walk = output;
diff --git a/src/table.c b/src/table.c
index fefeac5..421f296 100644
--- a/src/table.c
+++ b/src/table.c
@@ -219,3 +219,26 @@ char *table_get(table_t *table, unsigned int key)
 
     return table->rows[offset].data;
 }
+
+/**
+ * Returns the most bytes that translating one character can write: a row of
+ * the table, the default translation, or the character itself.
+ *
+ * @param table The table
+ *
+ * @return
+ */
+size_t table_max_output(table_t *table)
+{
+    size_t max = 1;
+
+    if (table->max_data_length > 0 && (size_t) table->max_data_length > max) {
+        max = table->max_data_length;
+    }
+
+    if (table->default_translation != NULL && strlen(table->default_translation) > max) {
+        max = strlen(table->default_translation);
+    }
+
+    return max;
+}
diff --git a/src/table.h b/src/table.h
index d2999ae..1699352 100644
--- a/src/table.h
+++ b/src/table.h
@@ -19,5 +19,6 @@ extern table_t *table_resize(table_t *table, int rows, int use_hash);
 extern void table_free(table_t *table);
 extern int table_put(table_t *table, unsigned int key, char *data);
 extern char *table_get(table_t *table, unsigned int key);
+extern size_t table_max_output(table_t *table);
 
 #endif /* __TABLE_H */
-- 
2.43.0


From 29ffd2f3f71af96e59a36b14b05d6e67bb870658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:14 +0000
Subject: [PATCH 03/17] fix: leave room for the replacement of an encoded null

clean_utf_8() replaces an overlong encoding of U+0000 by "_hidden_null_",
13 bytes, without regard to the size of the output buffer.
---
 src/clean_utf_8.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/clean_utf_8.c b/src/clean_utf_8.c
index 06e5ccf..709ceff 100644
--- a/src/clean_utf_8.c
+++ b/src/clean_utf_8.c
@@ -60,6 +60,7 @@ static char *invalid_replacement = "_";
 char *clean_utf_8(char *filename, table_t *table)
 {
     char *output, *input_walk, *output_walk, *replace_walk;
+    size_t max_output;
     unsigned int new_value;
     int expected_chars;
     int characters_eaten;
@@ -75,7 +76,12 @@ char *clean_utf_8(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table_max_output(table)) + 1);
+    max_output = table_max_output(table);
+    if (max_output < strlen(null_replacement)) {
+        max_output = strlen(null_replacement);
+    }
+
+    output = wrapped_malloc((strlen(filename) * max_output) + 1);
 
     input_walk = filename;
     output_walk = output;
-- 
2.43.0


From 4a6c78be44c101ea9d49aafb943ed37c326cab4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:50 +0000
Subject: [PATCH 04/17] fix: do not look before the start of the inline buffer

A line that starts with a NUL byte, or that consists of UTF-8 continuation
bytes only, made parse_inline() read (and possibly write) before base.
---
 src/file.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index 9ac0893..e05c68b 100644
--- a/src/file.c
+++ b/src/file.c
@@ -294,7 +294,9 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
             //
 
             hold = seek = strchr(base, '\0');
-            seek--;
+            if (seek > base) {
+                seek--;
+            }
 
 #ifdef DEBUG
             if (is_utf_8_cont(*seek)) {
@@ -302,7 +304,7 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
             }
 #endif
 
-            while (is_utf_8_cont(*seek) && (hold - seek) < UTF_8_MAX_LENGTH) {
+            while (seek > base && is_utf_8_cont(*seek) && (hold - seek) < UTF_8_MAX_LENGTH) {
 #ifdef DEBUG
                 fprintf(stderr, "detox: debug: at %02x, moving back one\n", (unsigned char) *seek);
 #endif
-- 
2.43.0


From 6f9f5de6924d052a4be05542cf800207429ee1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:56 +0000
Subject: [PATCH 05/17] fix: refuse new names that contain a directory
 separator

A sequence may produce a slash (uncgi on %2F, for one, without a safe filter
behind it).  parse_file() then moved the file into another directory.
---
 src/file.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/file.c b/src/file.c
index e05c68b..8364583 100644
--- a/src/file.c
+++ b/src/file.c
@@ -116,6 +116,13 @@ char *parse_file(char *filename, options_t *options)
         return old_filename;
     }
 
+    /* the new name has to stay within its directory */
+    if (strchr(work, '/') != NULL) {
+        fprintf(stderr, "Cannot rename %s to %s: new name contains a directory separator\n", old_filename, work);
+        free(work);
+        return old_filename;
+    }
+
     len = (old_filename_ptr - old_filename);
     new_filename = wrapped_malloc(len + strlen(work) + 1);
 
-- 
2.43.0


From 79ac4372413469b1c95a859771e611f9bb5d8624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:03 +0000
Subject: [PATCH 06/17] fix: take an empty default or language in a table as
 empty

sscanf() stores nothing for "", so that default "" set the default
translation to the keyword itself.
---
 src/parse_table.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse_table.c b/src/parse_table.c
index e86851a..bfb625d 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -110,6 +110,8 @@ table_t *parse_table(char *filename)
 
                 // check to see if a language specifier has been set
 
+                parsed[0] = '\0';
+
                 if (work[offset] == '"') {
                     sscanf(work + offset + 1, "%[^\"]", parsed);
                 } else if (work[offset] == '\'') {
@@ -133,6 +135,8 @@ table_t *parse_table(char *filename)
                     continue;
                 }
 
+                parsed[0] = '\0';
+
                 if (work[offset] == '"') {
                     sscanf(work + offset + 1, "%[^\"]", parsed);
                 } else if (work[offset] == '\'') {
-- 
2.43.0


From 40a14d07ec0e41a234a81adba21f223a9ff4803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:09 +0000
Subject: [PATCH 07/17] fix: look up bytes from 0x80 on in the safe table

A plain char is signed here and was sign extended, so that the rows of a
table for 0x80 to 0xff were never found by clean_safe().
---
 src/clean_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clean_string.c b/src/clean_string.c
index 3b3da83..880a6ea 100644
--- a/src/clean_string.c
+++ b/src/clean_string.c
@@ -106,7 +106,7 @@ char *clean_safe(char *filename, table_t *table)
     output_walk = output;
 
     while (*input_walk != '\0') {
-        replace_walk = table_get(table, *input_walk);
+        replace_walk = table_get(table, (unsigned char) *input_walk);
         if (replace_walk == NULL) {
             if (table->default_translation == NULL) {
 
-- 
2.43.0


From a529905aa013fe509e6de7a9370cd65029159260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:59 +0000
Subject: [PATCH 08/17] fix: report an unterminated string on stderr

The lexer's complaint went to stdout, into the middle of inline output.
---
 src/config_file_lex.c | 2 +-
 src/config_file_lex.l | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config_file_lex.c b/src/config_file_lex.c
index b3f4c70..2a8b5dd 100644
--- a/src/config_file_lex.c
+++ b/src/config_file_lex.c
@@ -935,7 +935,7 @@ YY_RULE_SETUP
 {
     yylval.string = strdup(yytext+1);
     if (yylval.string[yyleng-2] != '"') {
-        printf("Unterminated character string\n");
+        fprintf(stderr, "Unterminated character string\n");
     }
     else {
         yylval.string[yyleng-2] = '\0';
diff --git a/src/config_file_lex.l b/src/config_file_lex.l
index f38ed29..7ff67a3 100644
--- a/src/config_file_lex.l
+++ b/src/config_file_lex.l
@@ -45,7 +45,7 @@ wipeup             { return WIPEUP; }
 \"[^\"\n]*[\"\n] {
     yylval.string = strdup(yytext+1);
     if (yylval.string[yyleng-2] != '"') {
-        printf("Unterminated character string\n");
+        fprintf(stderr, "Unterminated character string\n");
     }
     else {
         yylval.string[yyleng-2] = '\0';
-- 
2.43.0


From 487f2597dae7c4c698c60da063cf78294a37001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:06 +0000
Subject: [PATCH 09/17] fix: check the allocations and the open of the config
 parser

The lexer used strdup() results, and parse_config_file() the stream for
/dev/null, without looking whether they were NULL.
---
 src/config_file_lex.c  | 61 +++++++++++++++++++++---------------------
 src/config_file_lex.l  |  5 ++--
 src/config_file_yacc.c |  4 +++
 src/config_file_yacc.y |  4 +++
 4 files changed, 42 insertions(+), 32 deletions(-)

diff --git a/src/config_file_lex.c b/src/config_file_lex.c
index 2a8b5dd..bfc3a08 100644
--- a/src/config_file_lex.c
+++ b/src/config_file_lex.c
@@ -556,11 +556,12 @@ char *yytext;
 
 #include "config_file_yacc.h"
 #include "config_file.h"
+#include "wrapped.h"
 
 int config_file_lineno = 1;
 
-#line 563 "config_file_lex.c"
 #line 564 "config_file_lex.c"
+#line 565 "config_file_lex.c"
 
 #define INITIAL 0
 
@@ -777,10 +778,10 @@ YY_DECL
 		}
 
 	{
-#line 20 "config_file_lex.l"
+#line 21 "config_file_lex.l"
 
 
-#line 784 "config_file_lex.c"
+#line 785 "config_file_lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -839,101 +840,101 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 22 "config_file_lex.l"
+#line 23 "config_file_lex.l"
 { /* ignore whitespace */ }
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 24 "config_file_lex.l"
+#line 25 "config_file_lex.l"
 { /* ignore comments */ }
 	YY_BREAK
 case 3:
 /* rule 3 can match eol */
 YY_RULE_SETUP
-#line 26 "config_file_lex.l"
+#line 27 "config_file_lex.l"
 { config_file_lineno++; }
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 28 "config_file_lex.l"
+#line 29 "config_file_lex.l"
 { return BUILTIN; }
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 29 "config_file_lex.l"
+#line 30 "config_file_lex.l"
 { return FILENAME; }
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 30 "config_file_lex.l"
+#line 31 "config_file_lex.l"
 { return IGNORE; }
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 31 "config_file_lex.l"
+#line 32 "config_file_lex.l"
 { return ISO8859_1; }
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 32 "config_file_lex.l"
+#line 33 "config_file_lex.l"
 { return LENGTH; }
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 33 "config_file_lex.l"
+#line 34 "config_file_lex.l"
 { return LOWER; }
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 34 "config_file_lex.l"
+#line 35 "config_file_lex.l"
 { return MAX_LENGTH; }
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 35 "config_file_lex.l"
+#line 36 "config_file_lex.l"
 { return REMOVE_TRAILING; }
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 36 "config_file_lex.l"
+#line 37 "config_file_lex.l"
 { return SAFE; }
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 37 "config_file_lex.l"
+#line 38 "config_file_lex.l"
 { return SEQUENCE; }
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 38 "config_file_lex.l"
+#line 39 "config_file_lex.l"
 { return UNCGI; }
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 39 "config_file_lex.l"
+#line 40 "config_file_lex.l"
 { return UTF_8; }
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 40 "config_file_lex.l"
+#line 41 "config_file_lex.l"
 { return WIPEUP; }
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 42 "config_file_lex.l"
+#line 43 "config_file_lex.l"
 { return OPEN; }
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 43 "config_file_lex.l"
+#line 44 "config_file_lex.l"
 { return CLOSE; }
 	YY_BREAK
 case 19:
 /* rule 19 can match eol */
 YY_RULE_SETUP
-#line 45 "config_file_lex.l"
+#line 46 "config_file_lex.l"
 {
-    yylval.string = strdup(yytext+1);
+    yylval.string = wrapped_strdup(yytext+1);
     if (yylval.string[yyleng-2] != '"') {
         fprintf(stderr, "Unterminated character string\n");
     }
@@ -945,15 +946,15 @@ YY_RULE_SETUP
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 56 "config_file_lex.l"
+#line 57 "config_file_lex.l"
 {
-    yylval.string = strdup(yytext);
+    yylval.string = wrapped_strdup(yytext);
     return ID;
 }
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 61 "config_file_lex.l"
+#line 62 "config_file_lex.l"
 {
     yylval.nvalue = atoi(yytext);
     return NVALUE;
@@ -961,15 +962,15 @@ YY_RULE_SETUP
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 66 "config_file_lex.l"
+#line 67 "config_file_lex.l"
 { return EOL; }
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 68 "config_file_lex.l"
+#line 69 "config_file_lex.l"
 ECHO;
 	YY_BREAK
-#line 973 "config_file_lex.c"
+#line 974 "config_file_lex.c"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -1974,6 +1975,6 @@ void yyfree (void * ptr )
 
 #define YYTABLES_NAME "yytables"
 
-#line 68 "config_file_lex.l"
+#line 69 "config_file_lex.l"
 
 
diff --git a/src/config_file_lex.l b/src/config_file_lex.l
index 7ff67a3..3e3de59 100644
--- a/src/config_file_lex.l
+++ b/src/config_file_lex.l
@@ -10,6 +10,7 @@
 
 #include "config_file_yacc.h"
 #include "config_file.h"
+#include "wrapped.h"
 
 int config_file_lineno = 1;
 
@@ -43,7 +44,7 @@ wipeup             { return WIPEUP; }
 [}]     { return CLOSE; }
 
 \"[^\"\n]*[\"\n] {
-    yylval.string = strdup(yytext+1);
+    yylval.string = wrapped_strdup(yytext+1);
     if (yylval.string[yyleng-2] != '"') {
         fprintf(stderr, "Unterminated character string\n");
     }
@@ -54,7 +55,7 @@ wipeup             { return WIPEUP; }
 }
 
 [a-zA-Z][a-zA-Z0-9_]* {
-    yylval.string = strdup(yytext);
+    yylval.string = wrapped_strdup(yytext);
     return ID;
 }
 
diff --git a/src/config_file_yacc.c b/src/config_file_yacc.c
index 39d67f2..a2ab77c 100644
--- a/src/config_file_yacc.c
+++ b/src/config_file_yacc.c
@@ -1641,6 +1641,10 @@ config_file_t *parse_config_file(char *filename, config_file_t *previous_results
         return previous_results;
     }
     yyout = fopen("/dev/null", "w");
+    if (yyout == NULL) {
+        fprintf(stderr, "detox: unable to open /dev/null\n");
+        exit(EXIT_FAILURE);
+    }
 
     /*
      * Initialize the return variable
diff --git a/src/config_file_yacc.y b/src/config_file_yacc.y
index 5164f8c..59a7abe 100644
--- a/src/config_file_yacc.y
+++ b/src/config_file_yacc.y
@@ -192,6 +192,10 @@ config_file_t *parse_config_file(char *filename, config_file_t *previous_results
         return previous_results;
     }
     yyout = fopen("/dev/null", "w");
+    if (yyout == NULL) {
+        fprintf(stderr, "detox: unable to open /dev/null\n");
+        exit(EXIT_FAILURE);
+    }
 
     /*
      * Initialize the return variable
-- 
2.43.0


From 1f5e4e9a21a9ece66c6bad2a7e7e50ac80c9e466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:42 +0000
Subject: [PATCH 10/17] fix: lower only ASCII characters, whatever the locale

detoxrc(5) says that lower works on ASCII only, but isupper() and tolower()
follow the locale, which loading a table sets, and were given negative
values for bytes from 0x80 on.
---
 src/clean_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/clean_string.c b/src/clean_string.c
index 880a6ea..9eca84d 100644
--- a/src/clean_string.c
+++ b/src/clean_string.c
@@ -329,8 +329,8 @@ char *clean_lower(char *filename)
     output_walk = output;
 
     while (*input_walk != '\0') {
-        if (isupper((int) *input_walk)) {
-            *output_walk++ = tolower((int) *input_walk++);
+        if (*input_walk >= 'A' && *input_walk <= 'Z') {
+            *output_walk++ = *input_walk++ - 'A' + 'a';
         } else {
             *output_walk++ = *input_walk++;
         }
-- 
2.43.0


From baf8008ba7e56c8dba3f37224bde11bdba9f46aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:49 +0000
Subject: [PATCH 11/17] fix: free what is allocated for every file and line

parse_file(), parse_dir(), parse_inline() and main() each dropped buffers
once per file, directory or line.
---
 src/detox.c | 6 ++++--
 src/file.c  | 6 ++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/detox.c b/src/detox.c
index 111ad8e..72de8ae 100644
--- a/src/detox.c
+++ b/src/detox.c
@@ -103,9 +103,11 @@ int main(int argc, char **argv)
                     parse_dir(file_work, main_options);
                     free(file_work);
                 } else if (S_ISREG(stat_info.st_mode)) {
-                    parse_file(file_walk, main_options);
+                    file_work = parse_file(file_walk, main_options);
+                    free(file_work);
                 } else if (main_options->special) {
-                    parse_file(file_walk, main_options);
+                    file_work = parse_file(file_walk, main_options);
+                    free(file_work);
                 }
             }
         }
diff --git a/src/file.c b/src/file.c
index 8364583..40b3985 100644
--- a/src/file.c
+++ b/src/file.c
@@ -98,6 +98,7 @@ char *parse_file(char *filename, options_t *options)
     work = wrapped_strdup(old_filename_ptr);
 
     if (is_protected(work)) {
+        free(work);
         work = NULL;
     }
 
@@ -113,6 +114,7 @@ char *parse_file(char *filename, options_t *options)
 
     /* check to see if nothing changed */
     if (strcmp(old_filename_ptr, work) == 0) {
+        free(work);
         return old_filename;
     }
 
@@ -239,6 +241,7 @@ void parse_dir(char *filename, options_t *options)
         dir_entry = readdir(dir_handle);
     }
     closedir(dir_handle);
+    free(new_file);
 }
 
 /**
@@ -402,6 +405,7 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
         work = wrapped_strdup(base);
 
         if (is_protected(work)) {
+            free(work);
             work = NULL;
         }
 
@@ -428,6 +432,8 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
         }
     }
 
+    free(base);
+
     if (in_filename != NULL) {
         fclose(in_fp);
     }
-- 
2.43.0


From 30327ba2442ae5372578fabb6fdc9c2f2845feed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:15 +0000
Subject: [PATCH 12/17] fix: make room for every row a translation table can
 hold

The table was sized for rows of six bytes on average, but a row can be as
short as three, and a table with many short rows (keys 1 to 600, say) was
rejected with "Failed to add row".
---
 src/parse_table.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse_table.c b/src/parse_table.c
index bfb625d..a3f7a40 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -17,7 +17,8 @@
 #include "table.h"
 #include "wrapped.h"
 
-#define LINE_LENGTH 6
+// the shortest row: a digit, a character, and a new line
+#define LINE_LENGTH 3
 
 enum {
     BASE_STATE,
-- 
2.43.0


From 113f4b500f57d0510ae2799ffcba2f2dde9bd273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:33 +0000
Subject: [PATCH 13/17] fix: count a row that is put twice once

table_put() counted every overwrite as another used row, so that a table
could report that it was full while it still had free rows.
---
 src/table.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/table.c b/src/table.c
index 421f296..570a3be 100644
--- a/src/table.c
+++ b/src/table.c
@@ -152,11 +152,12 @@ int table_put(table_t *table, unsigned int key, char *data)
 
     if (table->rows[offset].key == key) {
         table->overwrites++;
+    } else {
+        table->used++;
     }
 
     table->rows[offset].key = key;
     table->rows[offset].data = wrapped_strdup(data);
-    table->used++;
 
     if (table->max_key < key) {
         table->max_key = key;
-- 
2.43.0


From f5351f7f2950e9173c80600246cdd38d007b7ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:17 +0000
Subject: [PATCH 14/17] fix: spell the translations of iso8859_1.tbl and
 cp1252.tbl in UTF-8

The tables held C escapes such as \u00A1.  The compiler resolves them in the
builtin copies, but nothing does when the installed tables are read, and the
filters wrote the escape into the file name.
---
 bin/make-cp1252.sh    |   4 +-
 bin/make-iso8859-1.sh |   4 +-
 table/cp1252.tbl      |  54 ++++++------
 table/iso8859_1.tbl   | 188 +++++++++++++++++++++---------------------
 4 files changed, 125 insertions(+), 125 deletions(-)

diff --git a/bin/make-cp1252.sh b/bin/make-cp1252.sh
index b691fdf..c1878bc 100755
--- a/bin/make-cp1252.sh
+++ b/bin/make-cp1252.sh
@@ -68,10 +68,10 @@ for CHAR in $CHARS ; do
 	else
 		CHECK=$(grep -c 0x"$CHAR" "$TABLE1")
 		if [ "$CHECK" -eq "1" ] ; then
-			echo -n "$CURRENT_HEX		\"\\u$CHAR\"	# "
+			echo -n "$CURRENT_HEX		\"$(printf "\\u$CHAR")\"	# "
 			grep 0x"$CHAR" "$TABLE1" | sed -e"s/^.*# //"
 		else
-			echo -n "$CURRENT_HEX		\"\\u$CHAR\"	# "
+			echo -n "$CURRENT_HEX		\"$(printf "\\u$CHAR")\"	# "
 			grep 0x"$CHAR" "$TABLE2" | sed -e"s/^.*# //"
 		fi
 	fi
diff --git a/bin/make-iso8859-1.sh b/bin/make-iso8859-1.sh
index 2b3b618..789244b 100755
--- a/bin/make-iso8859-1.sh
+++ b/bin/make-iso8859-1.sh
@@ -130,10 +130,10 @@ for CHAR in $CHARS ; do
 	else
 		CHECK=$(grep -c 0x"$CHAR" "$TABLE1")
 		if [ "$CHECK" -eq "1" ] ; then
-			echo -n "$CURRENT_HEX		\"\\u$CHAR\"	# "
+			echo -n "$CURRENT_HEX		\"$(printf "\\u$CHAR")\"	# "
 			grep ^0x"$CHAR" "$TABLE1" | sed -e"s/^.*# //"
 		else
-			echo -n "$CURRENT_HEX		\"\\u$CHAR\"	# "
+			echo -n "$CURRENT_HEX		\"$(printf "\\u$CHAR")\"	# "
 			grep ^0x"$CHAR" "$TABLE2" | sed -e"s/^.*# //"
 		fi
 	fi
diff --git a/table/cp1252.tbl b/table/cp1252.tbl
index ef3da8d..b0c214c 100644
--- a/table/cp1252.tbl
+++ b/table/cp1252.tbl
@@ -27,38 +27,38 @@ start
 # CP-1252 Translation - 0x0080-0x009F
 #
 
-0x0080		"\u20AC"	# EURO SIGN
+0x0080		"€"	# EURO SIGN
 0x0081		"-"		# undefined, or control character
-0x0082		"\u201A"	# SINGLE LOW-9 QUOTATION MARK
-0x0083		"\u0192"	# LATIN SMALL LETTER F WITH HOOK
-0x0084		"\u201E"	# DOUBLE LOW-9 QUOTATION MARK
-0x0085		"\u2026"	# HORIZONTAL ELLIPSIS
-0x0086		"\u2020"	# DAGGER
-0x0087		"\u2021"	# DOUBLE DAGGER
-0x0088		"\u02C6"	# MODIFIER LETTER CIRCUMFLEX ACCENT
-0x0089		"\u2030"	# PER MILLE SIGN
-0x008A		"\u0160"	# LATIN CAPITAL LETTER S WITH CARON
-0x008B		"\u2039"	# SINGLE LEFT-POINTING ANGLE QUOTATION MARK
-0x008C		"\u0152"	# LATIN CAPITAL LIGATURE OE
+0x0082		"‚"	# SINGLE LOW-9 QUOTATION MARK
+0x0083		"ƒ"	# LATIN SMALL LETTER F WITH HOOK
+0x0084		"„"	# DOUBLE LOW-9 QUOTATION MARK
+0x0085		"…"	# HORIZONTAL ELLIPSIS
+0x0086		"†"	# DAGGER
+0x0087		"‡"	# DOUBLE DAGGER
+0x0088		"ˆ"	# MODIFIER LETTER CIRCUMFLEX ACCENT
+0x0089		"‰"	# PER MILLE SIGN
+0x008A		"Š"	# LATIN CAPITAL LETTER S WITH CARON
+0x008B		"‹"	# SINGLE LEFT-POINTING ANGLE QUOTATION MARK
+0x008C		"Œ"	# LATIN CAPITAL LIGATURE OE
 0x008D		"-"		# undefined, or control character
-0x008E		"\u017D"	# LATIN CAPITAL LETTER Z WITH CARON
+0x008E		"Ž"	# LATIN CAPITAL LETTER Z WITH CARON
 0x008F		"-"		# undefined, or control character
 
 0x0090		"-"		# undefined, or control character
-0x0091		"\u2018"	# LEFT SINGLE QUOTATION MARK
-0x0092		"\u2019"	# RIGHT SINGLE QUOTATION MARK
-0x0093		"\u201C"	# LEFT DOUBLE QUOTATION MARK
-0x0094		"\u201D"	# RIGHT DOUBLE QUOTATION MARK
-0x0095		"\u2022"	# BULLET
-0x0096		"\u2013"	# EN DASH
-0x0097		"\u2014"	# EM DASH
-0x0098		"\u02DC"	# SMALL TILDE
-0x0099		"\u2122"	# TRADE MARK SIGN
-0x009A		"\u0161"	# LATIN SMALL LETTER S WITH CARON
-0x009B		"\u203A"	# SINGLE RIGHT-POINTING ANGLE QUOTATION MARK
-0x009C		"\u0153"	# LATIN SMALL LIGATURE OE
+0x0091		"‘"	# LEFT SINGLE QUOTATION MARK
+0x0092		"’"	# RIGHT SINGLE QUOTATION MARK
+0x0093		"“"	# LEFT DOUBLE QUOTATION MARK
+0x0094		"”"	# RIGHT DOUBLE QUOTATION MARK
+0x0095		"•"	# BULLET
+0x0096		"–"	# EN DASH
+0x0097		"—"	# EM DASH
+0x0098		"˜"	# SMALL TILDE
+0x0099		"™"	# TRADE MARK SIGN
+0x009A		"š"	# LATIN SMALL LETTER S WITH CARON
+0x009B		"›"	# SINGLE RIGHT-POINTING ANGLE QUOTATION MARK
+0x009C		"œ"	# LATIN SMALL LIGATURE OE
 0x009D		"-"		# undefined, or control character
-0x009E		"\u017E"	# LATIN SMALL LETTER Z WITH CARON
-0x009F		"\u0178"	# LATIN CAPITAL LETTER Y WITH DIAERESIS
+0x009E		"ž"	# LATIN SMALL LETTER Z WITH CARON
+0x009F		"Ÿ"	# LATIN CAPITAL LETTER Y WITH DIAERESIS
 
 end
diff --git a/table/iso8859_1.tbl b/table/iso8859_1.tbl
index 05dca18..f23f665 100644
--- a/table/iso8859_1.tbl
+++ b/table/iso8859_1.tbl
@@ -26,105 +26,105 @@ start
 #
 
 0x00A0		" "		# NO-BREAK SPACE
-0x00A1		"\u00A1"	# INVERTED EXCLAMATION MARK
-0x00A2		"\u00A2"	# CENT SIGN
-0x00A3		"\u00A3"	# POUND SIGN
-0x00A4		"\u00A4"	# CURRENCY SIGN
-0x00A5		"\u00A5"	# YEN SIGN
-0x00A6		"\u00A6"	# BROKEN BAR
-0x00A7		"\u00A7"	# SECTION SIGN
-0x00A8		"\u00A8"	# DIAERESIS
-0x00A9		"\u00A9"	# COPYRIGHT SIGN
-0x00AA		"\u00AA"	# FEMININE ORDINAL INDICATOR
-0x00AB		"\u00AB"	# LEFT-POINTING DOUBLE ANGLE QUOTATION MARK
-0x00AC		"\u00AC"	# NOT SIGN
+0x00A1		"¡"	# INVERTED EXCLAMATION MARK
+0x00A2		"¢"	# CENT SIGN
+0x00A3		"£"	# POUND SIGN
+0x00A4		"¤"	# CURRENCY SIGN
+0x00A5		"¥"	# YEN SIGN
+0x00A6		"¦"	# BROKEN BAR
+0x00A7		"§"	# SECTION SIGN
+0x00A8		"¨"	# DIAERESIS
+0x00A9		"©"	# COPYRIGHT SIGN
+0x00AA		"ª"	# FEMININE ORDINAL INDICATOR
+0x00AB		"«"	# LEFT-POINTING DOUBLE ANGLE QUOTATION MARK
+0x00AC		"¬"	# NOT SIGN
 0x00AD		"-"		# SOFT HYPHEN
-0x00AE		"\u00AE"	# REGISTERED SIGN
-0x00AF		"\u00AF"	# MACRON
+0x00AE		"®"	# REGISTERED SIGN
+0x00AF		"¯"	# MACRON
 
-0x00B0		"\u00B0"	# DEGREE SIGN
-0x00B1		"\u00B1"	# PLUS-MINUS SIGN
-0x00B2		"\u00B2"	# SUPERSCRIPT TWO
-0x00B3		"\u00B3"	# SUPERSCRIPT THREE
-0x00B4		"\u00B4"	# ACUTE ACCENT
-0x00B5		"\u00B5"	# MICRO SIGN
-0x00B6		"\u00B6"	# PILCROW SIGN
-0x00B7		"\u00B7"	# MIDDLE DOT
-0x00B8		"\u00B8"	# CEDILLA
-0x00B9		"\u00B9"	# SUPERSCRIPT ONE
-0x00BA		"\u00BA"	# MASCULINE ORDINAL INDICATOR
-0x00BB		"\u00BB"	# RIGHT-POINTING DOUBLE ANGLE QUOTATION MARK
-0x00BC		"\u00BC"	# VULGAR FRACTION ONE QUARTER
-0x00BD		"\u00BD"	# VULGAR FRACTION ONE HALF
-0x00BE		"\u00BE"	# VULGAR FRACTION THREE QUARTERS
-0x00BF		"\u00BF"	# INVERTED QUESTION MARK
+0x00B0		"°"	# DEGREE SIGN
+0x00B1		"±"	# PLUS-MINUS SIGN
+0x00B2		"²"	# SUPERSCRIPT TWO
+0x00B3		"³"	# SUPERSCRIPT THREE
+0x00B4		"´"	# ACUTE ACCENT
+0x00B5		"µ"	# MICRO SIGN
+0x00B6		"¶"	# PILCROW SIGN
+0x00B7		"·"	# MIDDLE DOT
+0x00B8		"¸"	# CEDILLA
+0x00B9		"¹"	# SUPERSCRIPT ONE
+0x00BA		"º"	# MASCULINE ORDINAL INDICATOR
+0x00BB		"»"	# RIGHT-POINTING DOUBLE ANGLE QUOTATION MARK
+0x00BC		"¼"	# VULGAR FRACTION ONE QUARTER
+0x00BD		"½"	# VULGAR FRACTION ONE HALF
+0x00BE		"¾"	# VULGAR FRACTION THREE QUARTERS
+0x00BF		"¿"	# INVERTED QUESTION MARK
 
-0x00C0		"\u00C0"	# LATIN CAPITAL LETTER A WITH GRAVE
-0x00C1		"\u00C1"	# LATIN CAPITAL LETTER A WITH ACUTE
-0x00C2		"\u00C2"	# LATIN CAPITAL LETTER A WITH CIRCUMFLEX
-0x00C3		"\u00C3"	# LATIN CAPITAL LETTER A WITH TILDE
-0x00C4		"\u00C4"	# LATIN CAPITAL LETTER A WITH DIAERESIS
-0x00C5		"\u00C5"	# LATIN CAPITAL LETTER A WITH RING ABOVE
-0x00C6		"\u00C6"	# LATIN CAPITAL LETTER AE
-0x00C7		"\u00C7"	# LATIN CAPITAL LETTER C WITH CEDILLA
-0x00C8		"\u00C8"	# LATIN CAPITAL LETTER E WITH GRAVE
-0x00C9		"\u00C9"	# LATIN CAPITAL LETTER E WITH ACUTE
-0x00CA		"\u00CA"	# LATIN CAPITAL LETTER E WITH CIRCUMFLEX
-0x00CB		"\u00CB"	# LATIN CAPITAL LETTER E WITH DIAERESIS
-0x00CC		"\u00CC"	# LATIN CAPITAL LETTER I WITH GRAVE
-0x00CD		"\u00CD"	# LATIN CAPITAL LETTER I WITH ACUTE
-0x00CE		"\u00CE"	# LATIN CAPITAL LETTER I WITH CIRCUMFLEX
-0x00CF		"\u00CF"	# LATIN CAPITAL LETTER I WITH DIAERESIS
+0x00C0		"À"	# LATIN CAPITAL LETTER A WITH GRAVE
+0x00C1		"Á"	# LATIN CAPITAL LETTER A WITH ACUTE
+0x00C2		"Â"	# LATIN CAPITAL LETTER A WITH CIRCUMFLEX
+0x00C3		"Ã"	# LATIN CAPITAL LETTER A WITH TILDE
+0x00C4		"Ä"	# LATIN CAPITAL LETTER A WITH DIAERESIS
+0x00C5		"Å"	# LATIN CAPITAL LETTER A WITH RING ABOVE
+0x00C6		"Æ"	# LATIN CAPITAL LETTER AE
+0x00C7		"Ç"	# LATIN CAPITAL LETTER C WITH CEDILLA
+0x00C8		"È"	# LATIN CAPITAL LETTER E WITH GRAVE
+0x00C9		"É"	# LATIN CAPITAL LETTER E WITH ACUTE
+0x00CA		"Ê"	# LATIN CAPITAL LETTER E WITH CIRCUMFLEX
+0x00CB		"Ë"	# LATIN CAPITAL LETTER E WITH DIAERESIS
+0x00CC		"Ì"	# LATIN CAPITAL LETTER I WITH GRAVE
+0x00CD		"Í"	# LATIN CAPITAL LETTER I WITH ACUTE
+0x00CE		"Î"	# LATIN CAPITAL LETTER I WITH CIRCUMFLEX
+0x00CF		"Ï"	# LATIN CAPITAL LETTER I WITH DIAERESIS
 
-0x00D0		"\u00D0"	# LATIN CAPITAL LETTER ETH (Icelandic)
-0x00D1		"\u00D1"	# LATIN CAPITAL LETTER N WITH TILDE
-0x00D2		"\u00D2"	# LATIN CAPITAL LETTER O WITH GRAVE
-0x00D3		"\u00D3"	# LATIN CAPITAL LETTER O WITH ACUTE
-0x00D4		"\u00D4"	# LATIN CAPITAL LETTER O WITH CIRCUMFLEX
-0x00D5		"\u00D5"	# LATIN CAPITAL LETTER O WITH TILDE
-0x00D6		"\u00D6"	# LATIN CAPITAL LETTER O WITH DIAERESIS
-0x00D7		"\u00D7"	# MULTIPLICATION SIGN
-0x00D8		"\u00D8"	# LATIN CAPITAL LETTER O WITH STROKE
-0x00D9		"\u00D9"	# LATIN CAPITAL LETTER U WITH GRAVE
-0x00DA		"\u00DA"	# LATIN CAPITAL LETTER U WITH ACUTE
-0x00DB		"\u00DB"	# LATIN CAPITAL LETTER U WITH CIRCUMFLEX
-0x00DC		"\u00DC"	# LATIN CAPITAL LETTER U WITH DIAERESIS
-0x00DD		"\u00DD"	# LATIN CAPITAL LETTER Y WITH ACUTE
-0x00DE		"\u00DE"	# LATIN CAPITAL LETTER THORN (Icelandic)
-0x00DF		"\u00DF"	# LATIN SMALL LETTER SHARP S (German)
+0x00D0		"Ð"	# LATIN CAPITAL LETTER ETH (Icelandic)
+0x00D1		"Ñ"	# LATIN CAPITAL LETTER N WITH TILDE
+0x00D2		"Ò"	# LATIN CAPITAL LETTER O WITH GRAVE
+0x00D3		"Ó"	# LATIN CAPITAL LETTER O WITH ACUTE
+0x00D4		"Ô"	# LATIN CAPITAL LETTER O WITH CIRCUMFLEX
+0x00D5		"Õ"	# LATIN CAPITAL LETTER O WITH TILDE
+0x00D6		"Ö"	# LATIN CAPITAL LETTER O WITH DIAERESIS
+0x00D7		"×"	# MULTIPLICATION SIGN
+0x00D8		"Ø"	# LATIN CAPITAL LETTER O WITH STROKE
+0x00D9		"Ù"	# LATIN CAPITAL LETTER U WITH GRAVE
+0x00DA		"Ú"	# LATIN CAPITAL LETTER U WITH ACUTE
+0x00DB		"Û"	# LATIN CAPITAL LETTER U WITH CIRCUMFLEX
+0x00DC		"Ü"	# LATIN CAPITAL LETTER U WITH DIAERESIS
+0x00DD		"Ý"	# LATIN CAPITAL LETTER Y WITH ACUTE
+0x00DE		"Þ"	# LATIN CAPITAL LETTER THORN (Icelandic)
+0x00DF		"ß"	# LATIN SMALL LETTER SHARP S (German)
 
-0x00E0		"\u00E0"	# LATIN SMALL LETTER A WITH GRAVE
-0x00E1		"\u00E1"	# LATIN SMALL LETTER A WITH ACUTE
-0x00E2		"\u00E2"	# LATIN SMALL LETTER A WITH CIRCUMFLEX
-0x00E3		"\u00E3"	# LATIN SMALL LETTER A WITH TILDE
-0x00E4		"\u00E4"	# LATIN SMALL LETTER A WITH DIAERESIS
-0x00E5		"\u00E5"	# LATIN SMALL LETTER A WITH RING ABOVE
-0x00E6		"\u00E6"	# LATIN SMALL LETTER AE
-0x00E7		"\u00E7"	# LATIN SMALL LETTER C WITH CEDILLA
-0x00E8		"\u00E8"	# LATIN SMALL LETTER E WITH GRAVE
-0x00E9		"\u00E9"	# LATIN SMALL LETTER E WITH ACUTE
-0x00EA		"\u00EA"	# LATIN SMALL LETTER E WITH CIRCUMFLEX
-0x00EB		"\u00EB"	# LATIN SMALL LETTER E WITH DIAERESIS
-0x00EC		"\u00EC"	# LATIN SMALL LETTER I WITH GRAVE
-0x00ED		"\u00ED"	# LATIN SMALL LETTER I WITH ACUTE
-0x00EE		"\u00EE"	# LATIN SMALL LETTER I WITH CIRCUMFLEX
-0x00EF		"\u00EF"	# LATIN SMALL LETTER I WITH DIAERESIS
+0x00E0		"à"	# LATIN SMALL LETTER A WITH GRAVE
+0x00E1		"á"	# LATIN SMALL LETTER A WITH ACUTE
+0x00E2		"â"	# LATIN SMALL LETTER A WITH CIRCUMFLEX
+0x00E3		"ã"	# LATIN SMALL LETTER A WITH TILDE
+0x00E4		"ä"	# LATIN SMALL LETTER A WITH DIAERESIS
+0x00E5		"å"	# LATIN SMALL LETTER A WITH RING ABOVE
+0x00E6		"æ"	# LATIN SMALL LETTER AE
+0x00E7		"ç"	# LATIN SMALL LETTER C WITH CEDILLA
+0x00E8		"è"	# LATIN SMALL LETTER E WITH GRAVE
+0x00E9		"é"	# LATIN SMALL LETTER E WITH ACUTE
+0x00EA		"ê"	# LATIN SMALL LETTER E WITH CIRCUMFLEX
+0x00EB		"ë"	# LATIN SMALL LETTER E WITH DIAERESIS
+0x00EC		"ì"	# LATIN SMALL LETTER I WITH GRAVE
+0x00ED		"í"	# LATIN SMALL LETTER I WITH ACUTE
+0x00EE		"î"	# LATIN SMALL LETTER I WITH CIRCUMFLEX
+0x00EF		"ï"	# LATIN SMALL LETTER I WITH DIAERESIS
 
-0x00F0		"\u00F0"	# LATIN SMALL LETTER ETH (Icelandic)
-0x00F1		"\u00F1"	# LATIN SMALL LETTER N WITH TILDE
-0x00F2		"\u00F2"	# LATIN SMALL LETTER O WITH GRAVE
-0x00F3		"\u00F3"	# LATIN SMALL LETTER O WITH ACUTE
-0x00F4		"\u00F4"	# LATIN SMALL LETTER O WITH CIRCUMFLEX
-0x00F5		"\u00F5"	# LATIN SMALL LETTER O WITH TILDE
-0x00F6		"\u00F6"	# LATIN SMALL LETTER O WITH DIAERESIS
-0x00F7		"\u00F7"	# DIVISION SIGN
-0x00F8		"\u00F8"	# LATIN SMALL LETTER O WITH STROKE
-0x00F9		"\u00F9"	# LATIN SMALL LETTER U WITH GRAVE
-0x00FA		"\u00FA"	# LATIN SMALL LETTER U WITH ACUTE
-0x00FB		"\u00FB"	# LATIN SMALL LETTER U WITH CIRCUMFLEX
-0x00FC		"\u00FC"	# LATIN SMALL LETTER U WITH DIAERESIS
-0x00FD		"\u00FD"	# LATIN SMALL LETTER Y WITH ACUTE
-0x00FE		"\u00FE"	# LATIN SMALL LETTER THORN (Icelandic)
-0x00FF		"\u00FF"	# LATIN SMALL LETTER Y WITH DIAERESIS
+0x00F0		"ð"	# LATIN SMALL LETTER ETH (Icelandic)
+0x00F1		"ñ"	# LATIN SMALL LETTER N WITH TILDE
+0x00F2		"ò"	# LATIN SMALL LETTER O WITH GRAVE
+0x00F3		"ó"	# LATIN SMALL LETTER O WITH ACUTE
+0x00F4		"ô"	# LATIN SMALL LETTER O WITH CIRCUMFLEX
+0x00F5		"õ"	# LATIN SMALL LETTER O WITH TILDE
+0x00F6		"ö"	# LATIN SMALL LETTER O WITH DIAERESIS
+0x00F7		"÷"	# DIVISION SIGN
+0x00F8		"ø"	# LATIN SMALL LETTER O WITH STROKE
+0x00F9		"ù"	# LATIN SMALL LETTER U WITH GRAVE
+0x00FA		"ú"	# LATIN SMALL LETTER U WITH ACUTE
+0x00FB		"û"	# LATIN SMALL LETTER U WITH CIRCUMFLEX
+0x00FC		"ü"	# LATIN SMALL LETTER U WITH DIAERESIS
+0x00FD		"ý"	# LATIN SMALL LETTER Y WITH ACUTE
+0x00FE		"þ"	# LATIN SMALL LETTER THORN (Icelandic)
+0x00FF		"ÿ"	# LATIN SMALL LETTER Y WITH DIAERESIS
 
 end
-- 
2.43.0


From a2e7d01b82c42ea7ba06332ef0a1cf0a8f77a88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:39 +0000
Subject: [PATCH 15/17] fix: do not judge a directory entry by the one before
 it

parse_dir() ignored that lstat() failed (the entry may be gone by then) and
went on with what it had learnt about the previous entry.
---
 src/file.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index 40b3985..1f64198 100644
--- a/src/file.c
+++ b/src/file.c
@@ -226,8 +226,10 @@ void parse_dir(char *filename, options_t *options)
         if (check_file) {
             snprintf(new_file, new_file_length, "%s/%s", filename, dir_entry->d_name);
 
-            lstat(new_file, &stat_info);
-            if (S_ISDIR(stat_info.st_mode)) {
+            err = lstat(new_file, &stat_info);
+            if (err == -1) {
+                fprintf(stderr, "%s: %s\n", new_file, strerror(errno));
+            } else if (S_ISDIR(stat_info.st_mode)) {
                 work = parse_file(new_file, options);
                 if (options->recurse) {
                     parse_dir(work, options);
-- 
2.43.0


From 7670d4fbf70b7017455d36295ef66055c392fd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:33 +0000
Subject: [PATCH 16/17] fix: record the longest replacement of the builtin
 tables in bytes

The iso8859_1 and cp1252 tables recorded the length of the escape the
generator wrote for a character, not that of the replacement.
---
 src/builtin_table.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/builtin_table.c b/src/builtin_table.c
index 828563a..4098690 100644
--- a/src/builtin_table.c
+++ b/src/builtin_table.c
@@ -199,7 +199,7 @@ static table_row_t builtin_iso8859_1_rows[96] = {
 static table_t builtin_iso8859_1_table = {
     .length              = 96,
     .used                = 96,
-    .max_data_length     = 6,
+    .max_data_length     = 2,
     .max_key             = 0x00ff,
     .hits                = 0,
     .misses              = 0,
@@ -448,7 +448,7 @@ static table_row_t builtin_cp1252_rows[32] = {
 static table_t builtin_cp1252_table = {
     .length              = 32,
     .used                = 32,
-    .max_data_length     = 6,
+    .max_data_length     = 3,
     .max_key             = 0x009f,
     .hits                = 0,
     .misses              = 0,
-- 
2.43.0


From db5017477b56f6662d47891ee1445d5f3826515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:55 +0000
Subject: [PATCH 17/17] fix: close the input when the output cannot be opened

---
 src/file.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/file.c b/src/file.c
index 1f64198..b4f5b21 100644
--- a/src/file.c
+++ b/src/file.c
@@ -281,6 +281,9 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
     if (out_filename != NULL) {
         if (!(out_fp = fopen(out_filename, "w"))) {
             fprintf(stderr, "%s: %s\n", out_filename, strerror(errno));
+            if (in_filename != NULL) {
+                fclose(in_fp);
+            }
             return;
         }
     } else {
-- 
2.43.0

