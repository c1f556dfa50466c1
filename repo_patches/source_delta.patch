From 2f243740127e76a5869d7b2ea4b4e8c6490a1da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 001/148] fix: zt_base_decode wrote through NULL when only a
 size was passed

---
 src/libzt/zt_base.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_base.c b/src/libzt/zt_base.c
index 14f3e08..68557a1 100644
--- a/src/libzt/zt_base.c
+++ b/src/libzt/zt_base.c
@@ -648,7 +648,8 @@ zt_base_decode(zt_base_definition_t * def, const void * in, size_t in_bytes, voi
     mod = ((in_bytes-i) % def->ogroups); /* partial inputs */
     ocount = (lcount * def->igroups) + mod; /* total output bytes */
 
-    if (out == NULL) {
+    /* no destination: just report the size */
+    if (out == NULL || (*out == NULL && *out_bytes != 0)) {
         *out_bytes = ocount;
         return 0;
     }
-- 
2.43.0


From 3467a292a4f6a904ca9b79f4a19cd98a5aac1989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 002/148] fix: base16 decode silently dropped a dangling digit

---
 src/libzt/zt_base.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libzt/zt_base.c b/src/libzt/zt_base.c
index 68557a1..862f208 100644
--- a/src/libzt/zt_base.c
+++ b/src/libzt/zt_base.c
@@ -528,6 +528,11 @@ _decode16(zt_base_definition_t * def, const unsigned char * in, const size_t byt
         }
     }
 
+    if (cnt > 0) {
+        /* a single trailing digit is only half of a byte */
+        result = -1;
+    }
+
     *out_bytes = obytes;
     return result;
 }
-- 
2.43.0


From 73fc736e467f323b8d8d7bef0c0cca529a473aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 003/148] fix: sha1 byte-swapped the caller's data in place

---
 src/libzt/zt_sha1.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index 1af5ed8..c7b0c3f 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -56,11 +56,13 @@ _sha1_transform(uint32_t state[5], uint8_t buffer[64])
     uint32_t       c;
     uint32_t       d;
     uint32_t       e;
-    CHAR64LONG16 * block;
+    CHAR64LONG16   workspace;
+    CHAR64LONG16 * block = &workspace;
 
     /* uint32_t      block[80]; */
 
-    block = (CHAR64LONG16 *)buffer;
+    /* the rounds work in place, never on the callers data */
+    memcpy(block, buffer, sizeof(workspace));
 
     a = state[0];
     b = state[1];
-- 
2.43.0


From b079674bb7c5745134ece3b74a6dc6ba17caaef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 004/148] fix: zt_uuid_fromstr accepted malformed text and read
 past short text

---
 src/libzt/zt_uuid.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index c1ac0ac..6cbb6fd 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -337,6 +337,9 @@ zt_uuid_fromstr(char * uuidstr, zt_uuid_t * uuid, zt_uuid_flags_t flags) {
     zt_assert(uuidstr);
     zt_assert(uuid);
 
+    if (zt_uuid_isvalid(uuidstr, flags) != 0) {
+        return -1;
+    }
 
     if (flags == zt_uuid_std_fmt) {
         if (strlen(uuidstr) != UUID_STR_LEN) {
-- 
2.43.0


From f7e3d8286f7cca9aff39f31dbb7181c32c04a3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 005/148] fix: uuid4 repeated identifiers across threads and
 processes of one second

---
 src/libzt/zt_uuid.c | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index 6cbb6fd..edc3cfb 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -7,6 +7,10 @@
 #endif /* HAVE_STRING_H */
 
 #include <stdio.h>
+#ifndef WIN32
+# include <sys/time.h>
+# include <unistd.h>
+#endif /* not WIN32 */
 
 #include <math.h>
 
@@ -31,6 +35,7 @@ static int base62_decode_int64(const char * in, size_t ilen, uint64_t * out);
 #include <pthread.h>
 static pthread_key_t   ctx_key;
 static pthread_once_t  ctx_key_once = PTHREAD_ONCE_INIT;
+static pthread_mutex_t ctx_seq_lock = PTHREAD_MUTEX_INITIALIZER;
 
 static void
 make_ctx_key(void) {
@@ -41,6 +46,30 @@ make_ctx_key(void) {
 #  define CTX_STATIC static
 #endif /* not HAVE_PTHREADS */
 
+/* every context gets a seed of its own: contexts created in the same second,
+ * by another thread or another process, must not share a sequence */
+static void
+seed_ctx(zt_random_state * state) {
+    static uint32_t seq = 0;
+    uint32_t        seed[5];
+    struct timeval  tv  = { 0, 0 };
+
+    gettimeofday(&tv, NULL);
+    seed[0] = (uint32_t)tv.tv_sec;
+    seed[1] = (uint32_t)tv.tv_usec;
+    seed[2] = (uint32_t)getpid();
+    seed[3] = (uint32_t)(uintptr_t)state;
+#ifdef HAVE_PTHREADS
+    pthread_mutex_lock(&ctx_seq_lock);
+#endif /* HAVE_PTHREADS */
+    seed[4] = seq++;
+#ifdef HAVE_PTHREADS
+    pthread_mutex_unlock(&ctx_seq_lock);
+#endif /* HAVE_PTHREADS */
+
+    zt_random_initstate(state, seed, sizeof_array(seed));
+}
+
 zt_random_state *
 zt_uuid4_get_ctx(void) {
     CTX_STATIC zt_random_state * state = NULL;
@@ -54,6 +83,7 @@ zt_uuid4_get_ctx(void) {
                 zt_log_printf(zt_log_err, "Could not allocate memory for uuid4 context");
                 exit(1);
             }
+            seed_ctx(state);
 #ifdef HAVE_PTHREADS
         pthread_setspecific(ctx_key, state);
         }
@@ -65,18 +95,12 @@ zt_uuid4_get_ctx(void) {
 int
 zt_uuid4(zt_uuid_t * uuid) {
     uint32_t                  v;
-    static zt_random_state  * state;
-    static int                rand_initialized  = 0;
+    zt_random_state         * state;
 
     zt_assert(uuid);
 
     state = zt_uuid4_get_ctx();
 
-    if (rand_initialized == 0) {
-        zt_random_srandom(state, (uint32_t)time(NULL));
-        rand_initialized = 1;
-    }
-
     v = zt_random_uint32(state), memcpy(&uuid->data.bytes, &v, 4);
     v = zt_random_uint32(state), memcpy(&uuid->data.bytes[4], &v, 4);
     v = zt_random_uint32(state), memcpy(&uuid->data.bytes[8], &v, 4);
-- 
2.43.0


From 77f2cb1340674ca77538319e8ffa9dfa5cf3d7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 006/148] fix: zt_sha1_tostr left its text unterminated

---
 src/libzt/zt_sha1.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index c7b0c3f..d5649c1 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -181,6 +181,7 @@ char*
 zt_sha1_tostr(uint8_t digest[20], char sha1[41])
 {
     zt_binary_to_hex(digest, 20, sha1, 41);
+    sha1[40] = '\0';
     return sha1;
 }
 
-- 
2.43.0


From da626b82d8a487ebeedbc590004d763c484d1acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 007/148] fix: zt_cstr_map truncated text at bytes above 225

---
 src/libzt/zt_cstr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 9a78384..e19155d 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -265,7 +265,10 @@ zt_cstr_map(const char *s, ssize_t i, ssize_t j,
                                190, 191, 192, 193, 194, 195, 196, 197, 198, 199,
                                200, 201, 202, 203, 204, 205, 206, 207, 208, 209,
                                210, 211, 212, 213, 214, 215, 216, 217, 218, 219,
-                               220, 221, 222, 223, 224, 225 };
+                               220, 221, 222, 223, 224, 225, 226, 227, 228, 229,
+                               230, 231, 232, 233, 234, 235, 236, 237, 238, 239,
+                               240, 241, 242, 243, 244, 245, 246, 247, 248, 249,
+                               250, 251, 252, 253, 254, 255 };
 
     if (from && to) {
         while (*from && *to) {
-- 
2.43.0


From d44ce6756340c77f5e546c58d1a9f3f97fdf29d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 008/148] fix: zt_cstr_cmp ignored the last character of slices
 of equal length

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index e19155d..cdfad3f 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -340,7 +340,7 @@ zt_cstr_cmp(const char *s1, ssize_t i1, ssize_t j1,
         return cond == 0 ? +1 : cond;
     }
 
-    return strncmp(s1, s2, j1 - i1);
+    return strncmp(s1, s2, IDXLEN(i1, j1));
 }
 
 /*!
-- 
2.43.0


From b7563c76341a80e7032cd5ecf195880f574ec2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 009/148] fix: zt_cstr_rany returned an index relative to the
 slice

---
 src/libzt/zt_cstr.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index cdfad3f..ecfd0e6 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -509,8 +509,6 @@ zt_cstr_any(const char *s, ssize_t i, ssize_t j, const char *set) {
  */
 ssize_t
 zt_cstr_rany(const char *s, ssize_t i, ssize_t j, const char *set) {
-    ssize_t   orig;
-
     zt_assert(s);
     zt_assert(set);
 
@@ -518,9 +516,9 @@ zt_cstr_rany(const char *s, ssize_t i, ssize_t j, const char *set) {
 
     zt_assert(i >= 0 && i <= j);
 
-    for (orig = i; j >= i; j--) {
+    for (; j >= i; j--) {
         if (s[j] != '\0' && strchr(set, s[j])) {
-            return j - orig;
+            return j;
         }
     }
 
-- 
2.43.0


From 6df5ca9843c7703ea01e23b963c4533419a21a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 010/148] fix: an empty operand ended the text built by
 zt_cstr_cat and zt_cstr_catv

---
 src/libzt/zt_cstr.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index ecfd0e6..62d7062 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -158,11 +158,11 @@ zt_cstr_cat(const char *s1, ssize_t i1, ssize_t j1,
 
     p = new = zt_malloc(char, IDXLEN(i1, j1) + IDXLEN(i2, j2) + 1);
 
-    while (i1 <= j1) {
+    while (i1 <= j1 && s1[i1] != '\0') {
         *p++ = s1[i1++];
     }
 
-    while (i2 <= j2) {
+    while (i2 <= j2 && s2[i2] != '\0') {
         *p++ = s2[i2++];
     }
 
@@ -205,7 +205,7 @@ zt_cstr_catv(const char *s, ...) {
         j = va_arg(ap, int);
         CONVERT(s, i, j);
 
-        while (i <= j) {
+        while (i <= j && s[i] != '\0') {
             *p++ = s[i++];
         }
         s = va_arg(ap, const char *);
@@ -316,7 +316,7 @@ zt_cstr_pos(const char *s, ssize_t i) {
 size_t
 zt_cstr_len(const char *s, ssize_t i, ssize_t j) {
     CONVERT(s, i, j);
-    return IDXLEN(i, j);
+    return *s ? IDXLEN(i, j) : 0;
 }
 
 /*!
-- 
2.43.0


From b2f78fe570705f62329624bf6c8fcb9130514a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 011/148] fix: zt_cstr_chomp and zt_cstr_tok accessed memory
 before an empty string

---
 src/libzt/zt_cstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 62d7062..3607f3a 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -533,7 +533,7 @@ zt_cstr_chomp(char *str) {
         size_t    i = 0;
 
         i = strlen(str);
-        if (str[i - 1] == '\n') {
+        if (i > 0 && str[i - 1] == '\n') {
             str[i - 1] = '\0';
         }
     }
@@ -980,7 +980,7 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
 
     str_copy = strdup(str);
 
-    if (str[strlen(str) - 1] == delim) {
+    if (*str != '\0' && str[strlen(str) - 1] == delim) {
         str_copy[ strlen(str) - 1 ] = '\0';
     }
 
-- 
2.43.0


From d17537310b466dc4ec24e1b055e4b810151f467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 012/148] fix: zt_cstr_rspn and zt_cstr_rcspn never looked at
 the first character

---
 src/libzt/zt_cstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 3607f3a..45dc757 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -576,7 +576,7 @@ zt_cstr_rspn(const char *s, const char *accept) {
     zt_assert(s);
     zt_assert(accept);
 
-    for (i = len - 1; i > 0; i--) { /* -1 to skip \0 */
+    for (i = len - 1; i >= 0; i--) { /* -1 to skip \0 */
         if (strspn(&s[i], accept) == 0) {
             return (len - i) - 1;                          /* -1 for the first non matching char */
         }
@@ -592,7 +592,7 @@ zt_cstr_rcspn(const char *s, const char *reject) {
     zt_assert(s);
     zt_assert(reject);
 
-    for (i = len - 1; i > 0; i--) { /* -1 to skip \0 */
+    for (i = len - 1; i >= 0; i--) { /* -1 to skip \0 */
         if (strcspn(&s[i], reject) == 0) {
             return i;                                      /* -1 for the first non matching char */
         }
-- 
2.43.0


From 4a13ead5f8d0ac79a69ec00ab2f9c18e65295f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 013/148] fix: zt_cstr_strip wrote past the end of text with an
 inner newline

---
 src/libzt/zt_cstr.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 45dc757..03785fc 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -553,17 +553,15 @@ zt_cstr_strip(char *str) {
         memmove(str, &str[len], (strlen(str) - len) + 1); /* +1 captures \0 */
 
         /* strip whitespace from the end of the string */
-        if (strchr(str, '\n') != NULL) {
-            nl = 1;
-        }
         len = zt_cstr_rspn(str, WHITESPACE "\n");
         len = strlen(str) - len;
-        if (len) {
-            if (nl) {
-                str[len++] = '\n';
-            }
-            str[len] = '\0';
+        if (strchr(&str[len], '\n') != NULL) {
+            nl = 1;
+        }
+        if (nl) {
+            str[len++] = '\n';
         }
+        str[len] = '\0';
     }
     return str;
 }
-- 
2.43.0


From 0b8cfe990608f3f8710d38d05f446fd148609701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 014/148] fix: zt_cstr_basename cut names at text that is not
 their suffix

---
 src/libzt/zt_cstr.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 03785fc..41ddcb1 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -615,9 +615,12 @@ zt_cstr_basename(char *npath, size_t len, const char *path, const char *suffix)
     }
 
     if (suffix) {
-        end = zt_cstr_rfind(path, start, -1, suffix);
-        if (end > 0 && path[end] == '.') {
-            end--;
+        const size_t plen = strlen(path);
+        const size_t slen = strlen(suffix);
+
+        end = -1;
+        if (slen > 0 && plen - start > slen && strcmp(&path[plen - slen], suffix) == 0) {
+            end = plen - slen - 1;
         }
     } else {
         end = -1;
-- 
2.43.0


From 70a39d8a22d404b1c2884a28a8cbb4e9d0d332ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 015/148] fix: zt_cstr_basename and zt_cstr_dirname left
 truncated names unterminated

---
 src/libzt/zt_cstr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 41ddcb1..c820d03 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -626,7 +626,7 @@ zt_cstr_basename(char *npath, size_t len, const char *path, const char *suffix)
         end = -1;
     }
 
-    zt_cstr_copy(path, start, end, npath, len);
+    zt_cstr_copy(path, start, end, npath, len ? len - 1 : 0);
     return npath;
 }
 
@@ -649,13 +649,13 @@ zt_cstr_dirname(char *npath, size_t len, const char *path) {
 
     if ((end = zt_cstr_rfind(path, 0, end, PATH_SEPERATOR)) == -1) {
         /* there is no path seperator */
-        zt_cstr_copy(".", 0, -1, npath, len);
+        zt_cstr_copy(".", 0, -1, npath, len ? len - 1 : 0);
         return npath;
     } else {
         end = end - 1;
     }
 
-    zt_cstr_copy(path, 0, end, npath, len);
+    zt_cstr_copy(path, 0, end, npath, len ? len - 1 : 0);
     return npath;
 }
 
-- 
2.43.0


From 4ab574266bb3302ead7eb310d1f744809b53ad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 016/148] fix: zt_cstr_dirname of an entry of the root
 directory

---
 src/libzt/zt_cstr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index c820d03..710567f 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -643,6 +643,10 @@ zt_cstr_dirname(char *npath, size_t len, const char *path) {
 
     /* if the end of the path is the PATH_SEPERATOR then skip over it */
     ps_len = strlen(PATH_SEPERATOR);
+    if (*path == '\0' || strcmp(path, PATH_SEPERATOR) == 0) {
+        zt_cstr_copy(*path ? path : ".", 0, -1, npath, len ? len - 1 : 0);
+        return npath;
+    }
     if (strcmp(&path[strlen(path) - ps_len], PATH_SEPERATOR) == 0) {
         end = end - ps_len;
     }
@@ -651,7 +655,8 @@ zt_cstr_dirname(char *npath, size_t len, const char *path) {
         /* there is no path seperator */
         zt_cstr_copy(".", 0, -1, npath, len ? len - 1 : 0);
         return npath;
-    } else {
+    } else if (end > 0) {
+        /* otherwise the parent is the root itself */
         end = end - 1;
     }
 
-- 
2.43.0


From 6174ac5b97019babbf39ecfba04998e75880cf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 017/148] fix: zt_cstr_path_append doubled the seperator after
 the root

---
 src/libzt/zt_cstr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 710567f..203ab25 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -685,6 +685,11 @@ zt_cstr_path_append(const char *path1, const char *path2) {
         ;
     }
 
+    if (y == 0 && strncmp(path1, PATH_SEPERATOR, sep_len) == 0) {
+        /* the root already ends in a seperator */
+        return zt_cstr_catv(path1, 0, y, path2, x, -1, NULL);
+    }
+
     rpath = zt_cstr_catv(path1, 0, y,
                          PATH_SEPERATOR, 0, -1,
                          path2, x, -1, NULL);
-- 
2.43.0


From 7a9104db9f3c5395f6ef3f62d62a7f559da6a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 018/148] fix: zt_hexdump lost a final line of 15 bytes and
 stopped at byte 0xff

---
 src/libzt/zt_cstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 203ab25..db69c76 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -723,7 +723,7 @@ static int _read_str(void * ctx) {
         return EOF;
     }
 
-    c = *(state->c + state->offt);
+    c = (unsigned char)*(state->c + state->offt);
     state->offt += 1;
     return c;
 }
@@ -800,7 +800,7 @@ zt_hexdump(int _getchar(void *), void * data, zt_hexdump_output output, void * o
         bytes++;
     }
 
-    if ((addr % 16 != 15) && (addr % 16 != 0)) {
+    if (addr % 16 != 0) {
         if (output(odata, _addr, _hex, _txt) == -1 ) {
             return -1;
         }
-- 
2.43.0


From 55400de6baec81f748a21a676e7b8a5cdee5f0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 019/148] fix: hex conversions passed the end of buffers of odd
 length

---
 src/libzt/zt_cstr.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index db69c76..9549a14 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -820,7 +820,7 @@ zt_binary_to_hex(void *data, size_t dlen, char *hex, size_t hlen) {
     size_t n;
     char * dptr = hex;
 
-    for (n = 0; (n < dlen) && ((n * 2) < hlen); n++, dptr += 2) {
+    for (n = 0; (n < dlen) && ((n * 2) + 1 < hlen); n++, dptr += 2) {
         uint8_t c = ((uint8_t *)data)[n];
         if (hex != NULL) {
             dptr[0] = HEX_DIGITS[((c >> 4) & 0xF)];
@@ -873,12 +873,19 @@ zt_hex_to_binary(char *hex, size_t hlen, void *data, size_t dlen) {
         int8_t c2;
         int8_t cc = 0;
 
+        if (n + 1 >= hlen) {
+            /* half a byte */
+            errno = EINVAL;
+            return 0;
+        }
+
         if ((c = hex_to_char(*hex++)) == -1) {
             errno = EINVAL;
             return 0;
         }
 
         if ((c2 = hex_to_char(*hex++)) == -1) {
+            errno = EINVAL;
             return 0;
         } else {
             n++;
-- 
2.43.0


From dc8f207d5a22d63c39718a4ef615224459df4090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 020/148] fix: zt_cstr_itoa wrote its terminator past a full
 buffer

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 9549a14..030e70b 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -1032,7 +1032,7 @@ ssize_t zt_cstr_itoa(char *s, int value, size_t offset, size_t bufsiz)
 
     result = loc = offset + zt_cstr_int_display_len(value);
 
-    if ((s == NULL) || (loc > bufsiz)) {
+    if ((s == NULL) || (loc >= bufsiz)) {
         return -1;
     }
 
-- 
2.43.0


From b5c70e0b27d866daab940c12639d98b72a82eaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 021/148] fix: zt_fmt functions returned a sum of characters
 instead of a count

---
 src/libzt/zt_format.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 21dbf4c..6658508 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -16,7 +16,8 @@ struct zt_fmt_obuf {
     do {                          \
         ssize_t    nn = (n);      \
         while (nn-- > 0) {        \
-            tlen += put((c), cl); \
+            put((c), cl);         \
+            tlen++;               \
         }                         \
     } while (0)
 
@@ -211,7 +212,8 @@ size_t zt_fmt_vformat(zt_fmt_put_f put, void *cl,
         /* both % and ~ are control chars */
         if ((*fmt != '%' && *fmt != '~') ||
             (++fmt && (*fmt == '%' || *fmt == '~'))) {
-            tlen += put((unsigned char)*fmt++, cl);
+            put((unsigned char)*fmt++, cl);
+            tlen++;
         } else {
             unsigned char c, flags[256];
             ssize_t       width = INT_MIN;
@@ -322,7 +324,8 @@ size_t zt_fmt_vformat(zt_fmt_put_f put, void *cl,
     do {                                            \
         size_t    i;                                \
         for (i = 0; i < len; i++) {                 \
-            tlen += put((unsigned char)*str++, cl); \
+            put((unsigned char)*str++, cl);         \
+            tlen++;                             \
         }                                           \
     } while (0)
 
@@ -401,16 +404,19 @@ zt_fmt_putd(const char *str, size_t len,
 
     if (flags['-']) {
         if (sign) {
-            tlen += put(sign, cl);
+            put(sign, cl);
+            tlen++;
         }
     } else if (flags['0']) {
         if (sign) {
-            tlen += put(sign, cl);
+            put(sign, cl);
+            tlen++;
         }
         pad(width - n, '0', tlen);
     } else {
         if (sign) {
-            tlen += put(sign, cl);
+            put(sign, cl);
+            tlen++;
         }
         pad(width - n, ' ', tlen);
     }
@@ -458,14 +464,15 @@ cvt_c(int code UNUSED, void * value,
       ssize_t width, ssize_t precision UNUSED)
 {
     size_t tlen = 0;
-    char    c = *(unsigned int *)value;
+    unsigned char c = *(unsigned int *)value;
 
     NORMALIZE_WIDTH(width, flags);
 
     if (!flags['-']) {
         pad(width - 1, ' ', tlen);
     }
-    tlen += put(c, cl);
+    put(c, cl);
+    tlen++;
     if (flags['-']) {
         pad(width - 1, ' ', tlen);
     }
-- 
2.43.0


From f12a411c7ed712f837d3b1aa01a176e20dff7abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 022/148] fix: zt_fmt put the sign of a right justified number
 before its padding

---
 src/libzt/zt_format.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 6658508..548a5ab 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -414,11 +414,11 @@ zt_fmt_putd(const char *str, size_t len,
         }
         pad(width - n, '0', tlen);
     } else {
+        pad(width - n, ' ', tlen);
         if (sign) {
             put(sign, cl);
             tlen++;
         }
-        pad(width - n, ' ', tlen);
     }
 
     pad(precision - len, '0', tlen);
-- 
2.43.0


From 8615d5d09068e2d5262728f97706f37029483b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 023/148] fix: zt_fmt ignored the '+' flag

---
 src/libzt/zt_format.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 548a5ab..35a204e 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -377,6 +377,8 @@ zt_fmt_putd(const char *str, size_t len,
          *str == '+')) {
         sign = *str++;
         len--;
+    } else if (flags['+']) {
+        sign = '+';
     } else if (flags[' ']) {
         sign = ' ';
     } else {
-- 
2.43.0


From bc7df2002218908d7b62b51795572d22775141e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 024/148] fix: zt_fmt printed a zero that an explicit precision
 of 0 suppresses

---
 src/libzt/zt_format.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 35a204e..eb49375 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -395,7 +395,7 @@ zt_fmt_putd(const char *str, size_t len,
     } else if (precision == 0 &&
                len == 1 &&
                str[0] == '0') {
-        n = 0;
+        n = len = 0;
     } else {
         n = len;
     }
-- 
2.43.0


From 9cca8f7ce5b69225ee0bb20a802b281d9cc4b6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 025/148] fix: zt_fmt did not pad left justified strings

---
 src/libzt/zt_format.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index eb49375..05e6a46 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -354,6 +354,10 @@ zt_fmt_puts(const char *str, size_t len,
 
     EMIT_STR(str, len, cl, tlen);
 
+    if (flags['-']) {
+        pad(width - len, ' ', tlen);
+    }
+
     return tlen;
 }
 
-- 
2.43.0


From b8c50240e493ac3062f92095bdec667f666b373c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 026/148] fix: zt_fmt printed INT_MAX as 2147483648

---
 src/libzt/zt_format.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 05e6a46..b1a02a9 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -497,8 +497,8 @@ cvt_d(int code UNUSED, void * value,
     char         buf[43];
     char       * p = buf + sizeof(buf);
 
-    if (val == INT_MAX) {
-        m = INT_MAX + 1U; /* -1 */
+    if (val == INT_MIN) {
+        m = INT_MAX + 1U; /* -val would overflow */
     } else if (val < 0) {
         m = -val;
     } else {
-- 
2.43.0


From 9b8d4510140b82cc961d05ccf0c6bdc4516bce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 027/148] fix: zt_fmt floating point: short buffer, shared
 format, precision applied twice

---
 src/libzt/zt_format.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index b1a02a9..99877c6 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -523,8 +523,8 @@ cvt_f(int code, void * value,
       unsigned char flags[],
       ssize_t width, ssize_t precision)
 {
-    char        buf[DBL_MAX_10_EXP + 1 + 1 + 99 + 1];
-    static char fmt[] = "%.dd?";
+    char        buf[1 + DBL_MAX_10_EXP + 1 + 1 + 99 + 1];
+    char        fmt[] = "%.dd?";
 
     if (precision < 0) {
         precision = 6;
@@ -541,8 +541,9 @@ cvt_f(int code, void * value,
 
     sprintf(buf, fmt, *(double *)value);
 
+    /* buf already has the requested precision */
     return zt_fmt_putd(buf, strlen(buf), put, cl,
-                       flags, width, precision);
+                       flags, width, INT_MIN);
 }
 
 static size_t
-- 
2.43.0


From cf22b01273b59fd5ef628bc638fb69368cab1801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 028/148] fix: zt_fmt_sprintf wrote past the end of its buffer

---
 src/libzt/zt_format.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 99877c6..ada5b2e 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -168,6 +168,10 @@ zt_fmt_vsprintf(char *buf, size_t size, const char *fmt, va_list ap)
     cl.size = size;
 
     zt_fmt_vformat(zt_fmt_insert, &cl, fmt, ap);
+    if (cl.bp == cl.buf + cl.size) {
+        /* output was truncated, make room for the terminator */
+        cl.bp--;
+    }
     zt_fmt_insert(0, &cl);
     return cl.bp - cl.buf - 1;
 }
@@ -655,12 +659,10 @@ zt_fmt_insert(int c, void *cl)
 {
     struct zt_fmt_obuf * p = cl;
 
-    zt_assert(p->bp < p->buf + p->size);
-    /* if (p->bp >= p->buf + p->size) { */
-        /* TRY_THROW(zt_exception.format.overflow); */
-    /* } */
+    if (p->bp < p->buf + p->size) {
+        *p->bp++ = c;
+    }
 
-    *p->bp++ = c;
     return c;
 }
 
-- 
2.43.0


From b0e4ebd00da7a9ced59742d4c9c5cc2539185d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 029/148] fix: unsigned checked subtraction refused equal
 operands

---
 src/libzt/zt_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_int.h b/src/libzt/zt_int.h
index c098de9..124d636 100644
--- a/src/libzt/zt_int.h
+++ b/src/libzt/zt_int.h
@@ -74,7 +74,7 @@ ZT_INT_SIGNED_ADD(signed long, long, LONG)
     INLINE static ltype UNUSED ZT_CONC3(zt_, sltype, _sub) (ltype lhs, \
                                                   ltype rhs) \
     {                                                        \
-        zt_assert(lhs > rhs);                                \
+        zt_assert(lhs >= rhs);                               \
         return lhs - rhs;                                    \
     }
 
-- 
2.43.0


From d5bd86eb097c039f5cd1b736667f7710887dd718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 030/148] fix: checked division refused most pairs of negative
 operands

---
 src/libzt/zt_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_int.h b/src/libzt/zt_int.h
index 124d636..af1c48e 100644
--- a/src/libzt/zt_int.h
+++ b/src/libzt/zt_int.h
@@ -184,7 +184,7 @@ ZT_INT_UNSIGNED_DIV(unsigned long, ulong, ULONG, unsigned long long)
         cvtype _tmp;                                          \
         zt_assert(rhs != 0);                                  \
         if (ZT_INT_IS_SIGNED(lhs) && ZT_INT_IS_SIGNED(rhs)) { \
-            zt_assert(lhs != ZT_CONC(sutype, _MIN) && rhs == -1);\
+            zt_assert(lhs != ZT_CONC(sutype, _MIN) || rhs != -1);\
         }                                                     \
         if (ZT_INT_SAME_SIGN(lhs, rhs)) {                     \
             return lhs / rhs;                                 \
-- 
2.43.0


From 188485f153a25780fe2fb31de85142178373ea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 031/148] fix: zt_time called the timed function one time too
 many

---
 src/libzt/zt_time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_time.c b/src/libzt/zt_time.c
index ac1c97c..1b8dd21 100644
--- a/src/libzt/zt_time.c
+++ b/src/libzt/zt_time.c
@@ -127,7 +127,7 @@ zt_time(int n, struct time_result *tv, void *(*test)(void *), void *data)
     getrusage(RUSAGE_SELF, &rbefore);
 
     if (test && n) {
-        for (i = 0; i <= n; i++) {
+        for (i = 0; i < n; i++) {
             ret = test(data);
         }
     }
-- 
2.43.0


From c88dfdb5cf4436745fa0b5e4c7e77256e58967e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 032/148] fix: zt_buf lost track of its allocation once data
 had been drained

---
 src/libzt/zt_buf.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_buf.c b/src/libzt/zt_buf.c
index b462599..6f748f8 100644
--- a/src/libzt/zt_buf.c
+++ b/src/libzt/zt_buf.c
@@ -53,6 +53,7 @@ zt_buf_length(zt_buf_t * b) {
 int
 zt_buf_expand(zt_buf_t * b, size_t len) {
     size_t rlen;
+    void * top;
 
     if (len < ZT_BUF_MIN) {
         rlen = ZT_BUF_MIN;
@@ -60,12 +61,19 @@ zt_buf_expand(zt_buf_t * b, size_t len) {
         rlen = len;
     }
 
-    if (b->top == NULL) {
-        b->top = b->buf;
+    if (b->top != b->buf) {
+        /* drained data starts inside of the allocation */
+        memmove(b->top, b->buf, b->len);
+        b->max += (size_t)((char *)b->buf - (char *)b->top);
+        b->buf  = b->top;
+    }
+
+    if (!(top = realloc(b->top, b->len + rlen))) {
+        return -1;
     }
 
-    b->buf = realloc(b->buf, b->len + rlen);
-    b->top = b->buf;
+    b->buf = top;
+    b->top = top;
     b->max = b->len + rlen;
 
     return 0;
@@ -79,7 +87,7 @@ zt_buf_drain(zt_buf_t * b, size_t len) {
 
     if (len < b->len) {
         b->len -= len;
-        b->max -= (size_t)((char *)b->top - (char *)b->buf);
+        b->max -= len;
         b->buf  = ((char *)b->buf + len);
     } else {
         b->len = 0;
@@ -91,7 +99,9 @@ zt_buf_drain(zt_buf_t * b, size_t len) {
 int
 zt_buf_add(zt_buf_t * b, void * data, size_t len) {
     if (len > zt_buf_unused_sz(b)) {
-        zt_buf_expand(b, len);
+        if (zt_buf_expand(b, len) < 0) {
+            return -1;
+        }
     }
 
     memcpy((void *)((char *)b->buf + b->len), data, len);
@@ -122,7 +132,7 @@ zt_buf_remove(zt_buf_t * b, void * out, size_t olen) {
 int
 zt_buf_reserve(zt_buf_t * b, size_t len) {
     if (len > zt_buf_unused_sz(b)) {
-        zt_buf_expand(b, len);
+        return zt_buf_expand(b, len);
     }
 
     return 0;
-- 
2.43.0


From 76547b032109436098823a4cb56f8f7fb58a8682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 033/148] fix: zt_table used buckets past the end of its bucket
 array

---
 src/libzt/zt_hash.h  | 2 +-
 src/libzt/zt_table.c | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_hash.h b/src/libzt/zt_hash.h
index 5ca4a60..3679ef7 100644
--- a/src/libzt/zt_hash.h
+++ b/src/libzt/zt_hash.h
@@ -58,7 +58,7 @@ uint32_t zt_hash32_cstr(const uint8_t *buf, uint32_t init);
         if ((x) < 16) {                                               \
             (hash = ((hash >> (x)) ^ hash) & ZT_HASH_MASK(x));        \
         } else {                                                      \
-            (hash = ((hash >> (x)) ^ (hash & ZT_HASH_MASK(x))));      \
+            (hash = (((hash >> (x)) ^ hash) & ZT_HASH_MASK(x)));       \
         }                                                             \
     }
 /* *INDENT-ON* */
diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 0888d7a..0ebe08a 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -28,7 +28,7 @@ unsigned long powers_of_2[] = { 2,            4,         8,
                                 128,          256,       512,
                                 1024,         2048,      4096,
                                 8192,         16384,     32768,
-                                65535,        131072,    262144,
+                                65536,        131072,    262144,
                                 524288,       1048576,   2097152,
                                 4194304,      8388608,   16777216,
                                 33554432,     67108864,  134217728,
@@ -113,7 +113,12 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
         }
     }
 
+    /* the bucket index is a number of nbits bits, there has to be a bucket for each */
+    if (nbuckets < 2) {
+        nbuckets = 2;
+    }
     table->nbits = nbits(nbuckets - 1);
+    nbuckets = (size_t)1 << table->nbits;
 
     table->table_heap = zt_mem_heap_init(0, nbuckets * sizeof(struct table_node *));
 
-- 
2.43.0


From 3248fbe4dfdb159b22624fefcba4aea28b51f362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 034/148] fix: zt_table_del dropped entries that preceded the
 deleted one in its bucket

---
 src/libzt/zt_table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 0ebe08a..7880afd 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -257,6 +257,7 @@ zt_table_del(zt_table *h, const void *key, size_t key_len)
             }
         }
 
+        prev = node;
         node = node->next;
     }
     errno = ENOENT;
-- 
2.43.0


From e9a41dd5add180540130fad8bdede155b6ca5b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 035/148] fix: zt_table_compare_buff stopped at the first zero
 byte

---
 src/libzt/zt_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 7880afd..4ee08b3 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -367,7 +367,7 @@ int
 zt_table_compare_buff(const void *lhs, size_t lhs_len, const void *rhs, size_t rhs_len, void *cdata UNUSED)
 {
     if(lhs_len == rhs_len) {
-        if (strncmp((char *)lhs, (char *)rhs, lhs_len) == 0) {
+        if (memcmp(lhs, rhs, lhs_len) == 0) {
             return 1;
         }
     }
-- 
2.43.0


From bc8740ccd9ce82caad0419558a792618065a111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 036/148] fix: set operations stopped at the first element
 already in the result

---
 src/libzt/zt_set.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index 453263c..0b44b6d 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -75,7 +75,9 @@ static int _union(void *key UNUSED, size_t key_len, void *datum, size_t datum_le
 
     p = (struct _set_pair *)param;
 
-    return zt_set_insert(p->s2, datum, datum_len);
+    /* already being a member is no reason to stop */
+    zt_set_insert(p->s2, datum, datum_len);
+    return 0;
 }
 
 int zt_set_union(zt_set *setu, const zt_set *set1, const zt_set *set2)
@@ -97,7 +99,7 @@ static int _intersect(void *key UNUSED, size_t key_len, void *datum, size_t datu
     p = (struct _set_pair *)param;
 
     if (zt_set_is_member(p->s1, datum, datum_len)) {
-        return zt_set_insert(p->s2, datum, datum_len);
+        zt_set_insert(p->s2, datum, datum_len);
     }
     return 0;
 }
@@ -119,7 +121,7 @@ static int _difference(void *key UNUSED, size_t key_len, void *datum, size_t dat
     p = (struct _set_pair *)param;
 
     if (!zt_set_is_member(p->s1, datum, datum_len)) {
-        return zt_set_insert(p->s2, datum, datum_len);
+        zt_set_insert(p->s2, datum, datum_len);
     }
     return 0;
 }
-- 
2.43.0


From 61ffcd7fb423acb7cc8ac904ddb70d15986b594c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 037/148] fix: zt_set_remove did not find the element but
 counted it as removed

---
 src/libzt/zt_set.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index 0b44b6d..94289e2 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -57,9 +57,36 @@ zt_set_insert(zt_set *set, const void *data, size_t len)
     return zt_table_set(set->tbl, (void *)data, len, (void *)data, len);
 }
 
+struct _find_data {
+    void * data;
+    size_t len;
+};
+
+static int _find(void *key UNUSED, size_t key_len UNUSED, void *datum, size_t datum_len, void *param)
+{
+    struct _find_data * p = (struct _find_data *)param;
+
+    if (datum != p->data) {
+        return 0;
+    }
+
+    p->len = datum_len;
+    return 1;
+}
+
 int zt_set_remove(zt_set *set, void **data)
 {
-    *data = zt_table_del(set->tbl, *data, 0);
+    struct _find_data   f = { *data, 0 };
+
+    /* the length the element was inserted with is not known to the caller */
+    zt_table_for_each(set->tbl, _find, &f);
+
+    errno = 0;
+    *data = zt_table_del(set->tbl, f.data, f.len);
+    if (*data == NULL && errno != 0) {
+        return 1;
+    }
+
     set->length--;
     return 0;
 }
-- 
2.43.0


From 2660197147bd374fe6e35167508bfbf26eeb61d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 038/148] fix: zt_set_size referred to a member that does not
 exist

---
 src/libzt/zt_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_set.h b/src/libzt/zt_set.h
index 3f5be60..134abec 100644
--- a/src/libzt/zt_set.h
+++ b/src/libzt/zt_set.h
@@ -13,7 +13,7 @@ struct zt_set {
 };
 typedef int (*zt_set_iterator)(void *, void *);
 
-#define zt_set_size(set) ((set)->size)
+#define zt_set_size(set) ((set)->length)
 
 zt_set *zt_set_init(int (*match)(const void *key1, size_t key1_len, const void *key2, size_t key2_len, void *cdata),
                     void (*destroy)(void *data),
-- 
2.43.0


From f60b7a571252ea5d100c6706b7e579aa95b17be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 039/148] fix: zt_set found only elements stored at the same
 address

---
 src/libzt/zt_set.c | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index 94289e2..e12da02 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -1,9 +1,44 @@
+#include <ctype.h>
 #include <errno.h>
 
 #include "zt_set.h"
 #include "zt_assert.h"
 
 
+static unsigned long
+_hash_any(const void *key UNUSED, size_t key_len UNUSED, void *cdata UNUSED)
+{
+    return 0;
+}
+
+static unsigned long
+_hash_string_case(const void *key, size_t key_len UNUSED, void *cdata UNUSED)
+{
+    const char  * s;
+    unsigned long h = 0;
+
+    for (s = key; *s; s++) {
+        h = h * 31 + (unsigned long)tolower((unsigned char)*s);
+    }
+    return h;
+}
+
+/* elements that match have to have the same hash */
+static zt_table_hash_func_cb
+_hash_for(zt_table_compare_cb match)
+{
+    if (match == zt_table_compare_int) {
+        return zt_table_hash_int;
+    }
+    if (match == zt_table_compare_string || match == zt_table_compare_buff) {
+        return zt_table_hash_buff;
+    }
+    if (match == zt_table_compare_string_case) {
+        return _hash_string_case;
+    }
+    return _hash_any;
+}
+
 zt_set *
 zt_set_init(int (*match)(const void *key1, size_t key1_size,
                          const void *key2, size_t key2_size, void *cdata),
@@ -14,7 +49,7 @@ zt_set_init(int (*match)(const void *key1, size_t key1_size,
 
     set = zt_malloc(zt_set, 1);
 
-    set->tbl = zt_table_init(NULL, zt_table_hash_int, match, 128, 0, cdata);
+    set->tbl = zt_table_init(NULL, _hash_for(match), match, 128, 0, cdata);
     set->match = match;
     set->destroy = destroy;
     set->length = 0;
-- 
2.43.0


From a598e85b5a186ddb72f17c85c5700c6b1edf707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 040/148] fix: zt_ptr_array_del reported failure after deleting
 and could free twice

---
 src/libzt/zt_ptr_array.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index 2adf433..de80806 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -108,6 +108,7 @@ zt_ptr_array_del(zt_ptr_array * array, void * data) {
             if (array->free_cb) {
                 array->free_cb(data);
             }
+            return 0;
         }
     }
 
-- 
2.43.0


From 737567a6846591c25af8487cf717d93b51223afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 041/148] fix: zt_ptr_array accepted indices outside of the
 array

---
 src/libzt/zt_ptr_array.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index de80806..afb56e3 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -79,11 +79,11 @@ zt_ptr_array_resize(zt_ptr_array * array, int32_t expand) {
 
 int
 zt_ptr_array_move_idx_to_idx(zt_ptr_array * array, int32_t src_idx, int32_t dst_idx) {
-    if (src_idx > array->count) {
+    if (src_idx < 0 || src_idx >= array->count) {
         return -1;
     }
 
-    if (dst_idx > array->count) {
+    if (dst_idx < 0 || dst_idx >= array->count) {
         return -1;
     }
 
@@ -184,10 +184,10 @@ void *
 zt_ptr_array_get_idx(zt_ptr_array * array, int32_t idx) {
     if (idx == -1) {
         /* return the last element */
-        return array->array[array->count - 1];
+        idx = array->count - 1;
     }
 
-    if (idx >= array->count) {
+    if (idx < 0 || idx >= array->count) {
         return NULL;
     }
 
-- 
2.43.0


From 48679a6bdaa6ea5cdbe40fe7f786d80cfaff2907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 042/148] fix: zt_ptr_array_cat of an array to itself did not
 end

---
 src/libzt/zt_ptr_array.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index afb56e3..fa3ec50 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -118,12 +118,14 @@ zt_ptr_array_del(zt_ptr_array * array, void * data) {
 int
 zt_ptr_array_cat(zt_ptr_array * dst, zt_ptr_array * src) {
     int32_t i;
+    int32_t count;
 
     if (dst == NULL || src == NULL) {
         return -1;
     }
 
-    for (i = 0; i < src->count; i++) {
+    count = src->count;
+    for (i = 0; i < count; i++) {
         if (zt_ptr_array_add(dst, zt_ptr_array_get_idx(src, i))) {
             return -1;
         }
-- 
2.43.0


From ff717611b7e5f4c460099102fc5bb2d68a8e2697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 043/148] fix: pages released by zt_mem_pool_release_free_pages
 were not counted

---
 src/libzt/zt_mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 2125bec..aef5fcb 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -319,7 +319,6 @@ zt_mem_pool_release(void **data)
                                   pool->release_test_cb_data)) {
             /* release the page */
             zt_mem_page_destroy(page);
-            pool->page_frees++;
         }
     }
 }
@@ -679,6 +678,7 @@ zt_mem_page_destroy(zt_mem_page *page)
         return 1;
     }
 
+    page->parent_pool->page_frees++;
     page->parent_pool->npages--;
     page->parent_pool->nfree_pages--;
 
-- 
2.43.0


From a9d0547d7f32e7c2ebd435c6fc669767575b178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 044/148] fix: a mem pool group ended by an unnamed entry had
 pools that do not exist

---
 src/libzt/zt_mem.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index aef5fcb..ba674e9 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -560,12 +560,16 @@ zt_mem_pool_group_init(zt_mem_pool_desc *group, size_t len)
                                             group[i].cb_data,
                                             group[i].flags);
         if (!ngroup->pools[i]) {
-            while (--i) {
+            while (i-- > 0) {
                 zt_mem_pool_destroy(&ngroup->pools[i]);
             }
+            zt_free(ngroup->pools);
+            zt_free(ngroup);
             return 0;
         }
     }
+    /* the description may end early with an entry without a name */
+    ngroup->npools = i;
 
     return ngroup;
 }
-- 
2.43.0


From 3941d3c9d0afd030db00227ddc9e767c34c54277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 045/148] fix: zt_mem_pool_group_alloc did not use the pool
 closest in size

---
 src/libzt/zt_mem.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index ba674e9..bd95a69 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -577,17 +577,23 @@ zt_mem_pool_group_init(zt_mem_pool_desc *group, size_t len)
 void *
 zt_mem_pool_group_alloc(zt_mem_pool_group *group, size_t size)
 {
-    size_t    len;
-    size_t    i;
+    size_t        len;
+    size_t        i;
+    zt_mem_pool * best = NULL;
 
     len = group->npools;
 
     for (i = 0; i < len; i++) {
-        if (size <= group->pools[i]->elt_size) {
-            return zt_mem_pool_alloc(group->pools[i]);
+        if (size <= group->pools[i]->elt_size &&
+            (best == NULL || group->pools[i]->elt_size < best->elt_size)) {
+            best = group->pools[i];
         }
     }
 
+    if (best) {
+        return zt_mem_pool_alloc(best);
+    }
+
     zt_assert(0);
 
     return NULL;                                           /* never reached if exceptions are enabled */
-- 
2.43.0


From 1953a6ab6edcf34e51e8195de91dea08024f8be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 046/148] fix: destroying an ez_mempool made its parent forget
 the other subpools

---
 src/libzt/zt_ez_mempool.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ez_mempool.c b/src/libzt/zt_ez_mempool.c
index cc6f6be..f6aca7e 100644
--- a/src/libzt/zt_ez_mempool.c
+++ b/src/libzt/zt_ez_mempool.c
@@ -91,7 +91,14 @@ zt_ez_mempool_destroy(zt_ez_mempool *pool) {
     pool_ptr = pool->subpools;
 
     if (pool->parent != NULL) {
-        pool->parent->subpools = NULL;
+        zt_ez_mempool **link = &pool->parent->subpools;
+
+        while (*link != NULL && *link != pool) {
+            link = &(*link)->next;
+        }
+        if (*link == pool) {
+            *link = pool->next;
+        }
     }
 
     free_chunks(pool->chunks);
-- 
2.43.0


From f24714cb26c876c9ece1873363ca55fe651487ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 047/148] fix: zt_ez_mempool_strdup leaked empty strings

---
 src/libzt/zt_ez_mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ez_mempool.c b/src/libzt/zt_ez_mempool.c
index f6aca7e..1b8eba9 100644
--- a/src/libzt/zt_ez_mempool.c
+++ b/src/libzt/zt_ez_mempool.c
@@ -131,7 +131,7 @@ char *
 zt_ez_mempool_strdup(zt_ez_mempool *pool, const char *s) {
     char *ret = zt_strdup(s);
 
-    zt_ez_mempool_add_buffer(pool, (void *)ret, strlen(ret), free);
+    zt_ez_mempool_add_buffer(pool, (void *)ret, strlen(ret) + 1, free);
 
     return ret;
 }
-- 
2.43.0


From 9c7a275e30cf5f4b9c716be9206ae74e6bf5faaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 048/148] fix: zt_elist_join of an empty list corrupted the
 other list

---
 src/libzt/zt_list.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libzt/zt_list.h b/src/libzt/zt_list.h
index 0cbafcf..97c5c95 100644
--- a/src/libzt/zt_list.h
+++ b/src/libzt/zt_list.h
@@ -96,6 +96,11 @@ zt_elist_join(zt_elist_t *head, zt_elist_t *list)
     zt_elist_t *last = list->prev;
     zt_elist_t *at = head->next;
 
+    if (first == list) {
+        /* nothing to join */
+        return;
+    }
+
     first->prev = head;
     head->next = first;
 
-- 
2.43.0


From 9b15936c24bb0a2bcd15ccd3e173f7b019212ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 049/148] fix: zt_queue_dequeue returned the head of an empty
 queue as an element

---
 src/libzt/zt_queue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_queue.h b/src/libzt/zt_queue.h
index 40de772..103430b 100644
--- a/src/libzt/zt_queue.h
+++ b/src/libzt/zt_queue.h
@@ -23,6 +23,10 @@ zt_queue_dequeue(zt_queue_t *queue)
 {
     zt_queue_t * elt;
 
+    if (zt_queue_empty(queue)) {
+        return NULL;
+    }
+
     elt = zt_elist_get_prev(queue);
     zt_elist_remove(elt);
     return (elt);
-- 
2.43.0


From 24255d9ce3f33873a23fde61f25b07ea8f34b578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 050/148] fix: zt_llist_sort did not sort with a three way
 comparison

---
 src/libzt/zt_llist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_llist.h b/src/libzt/zt_llist.h
index 9efc3c2..28ce2a5 100644
--- a/src/libzt/zt_llist.h
+++ b/src/libzt/zt_llist.h
@@ -143,7 +143,7 @@ zt_llist_nmerge(zt_llist l1, zt_llist l2, int (*cmp)(void*,void*))
     zt_llist rlst = NULL;
 
     while ((l1 != NULL) && (l2 != NULL)) {
-        zt_llist_ppush((cmp(zt_llist_head(l2), zt_llist_head(l1)) ? zt_llist_ppop(&l1) : zt_llist_ppop(&l2)), &rlst);
+        zt_llist_ppush((cmp(zt_llist_head(l2), zt_llist_head(l1)) > 0 ? zt_llist_ppop(&l1) : zt_llist_ppop(&l2)), &rlst);
     }
 
     while ( l1 != NULL ) {
-- 
2.43.0


From 138f737cf207fe58a8c003c50417c47f371bacbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 051/148] fix: zt_array_resize leaked the data of an array
 whose length was set to 0

---
 src/libzt/zt_array.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libzt/zt_array.c b/src/libzt/zt_array.c
index f10084c..b8d26b9 100644
--- a/src/libzt/zt_array.c
+++ b/src/libzt/zt_array.c
@@ -82,6 +82,8 @@ zt_array_resize(zt_array_t array, size_t len)
     zt_assert(len > 0);
 
     if (array->length == 0) {
+        /* the data may have outlived a length that was set to 0 */
+        zt_free(array->data);
         array->data = zt_calloc(char, len * array->size);
     } else if (len > 0) {
         array->data = zt_realloc(char, array->data, len * array->size);
-- 
2.43.0


From 501d33dc34405f074609fc680bcd21d46632d638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 052/148] fix: zt_array_set_data leaked the data it replaces

---
 src/libzt/zt_array.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libzt/zt_array.c b/src/libzt/zt_array.c
index b8d26b9..79f1994 100644
--- a/src/libzt/zt_array.c
+++ b/src/libzt/zt_array.c
@@ -46,8 +46,12 @@ void
 zt_array_set_data(zt_array_t array, char *data,
                   size_t len, size_t size, int copy)
 {
+    char * old;
+
     zt_assert(array);
 
+    old = array->data;
+
     if (copy) {
         arrayrep_init(array, len, size,
                       zt_calloc(char, len * size));
@@ -55,6 +59,10 @@ zt_array_set_data(zt_array_t array, char *data,
     } else {
         arrayrep_init(array, len, size, data);
     }
+
+    if (old != array->data) {
+        zt_free(old);
+    }
 }
 
 zt_array_t
-- 
2.43.0


From 141daa64e51f07031f8d43bfb01080381030418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 053/148] fix: zt_bstream_write after a truncate wrote outside
 of the stream

---
 src/libzt/zt_bstream.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_bstream.c b/src/libzt/zt_bstream.c
index a3b97c1..72d1623 100644
--- a/src/libzt/zt_bstream.c
+++ b/src/libzt/zt_bstream.c
@@ -183,8 +183,9 @@ zt_bstream_write(zt_bstream_t bs, char *data, size_t len, char size, char tag UN
 
     alen = zt_array_length(bs->data);
 
-    if (tlen > alen - bs->offt) {
-        zt_array_resize(bs->data, (alen + tlen) * 2);
+    /* a truncated stream may be positioned past its end */
+    if (bs->offt + tlen > alen) {
+        zt_array_resize(bs->data, (bs->offt + tlen) * 2);
     }
 
     bs->offt = _array_put(bs->data, data, bs->offt, tlen, bs->flipendian);
-- 
2.43.0


From f6122dec11e67393115ced605b4f5e9435b72534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 054/148] fix: zt_bstream_clone lost the byte order of the
 stream

---
 src/libzt/zt_bstream.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_bstream.c b/src/libzt/zt_bstream.c
index 72d1623..442c615 100644
--- a/src/libzt/zt_bstream.c
+++ b/src/libzt/zt_bstream.c
@@ -105,6 +105,7 @@ zt_bstream_clone(zt_bstream_t bs)
     clone = zt_calloc(struct zt_bstream, 1);
     clone->data = zt_array_copy(bs->data, zt_array_length(bs->data));
     clone->offt = bs->offt;
+    clone->flipendian = bs->flipendian;
 
     return clone;
 }
-- 
2.43.0


From 4ef5bf339b76dfa6767725fc59751705e7575348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 055/148] fix: ipv4 tables of different sizes overran each
 others buckets

---
 src/libzt/zt_ipv4_tbl.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 7c37ce5..4ed4aa7 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -128,7 +128,6 @@ int
 zt_ipv4_tbl_add_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
 {
     zt_ipv4_node *node_slot;
-    zt_mem_pool  *pool;
     uint32_t      key;
     uint8_t       blen;
     int           is_in;
@@ -146,17 +145,15 @@ zt_ipv4_tbl_add_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
         return 0;
     }
 
-    if (!(pool = zt_mem_pool_get("zt_ipv4_node_hash"))) {
-        return -1;
-    }
-
     is_in = 0;
     blen = node->addr->bitlen - 1;
 
     if (tbl->tbl[blen] == NULL) {
         zt_ipv4_node **hash_entry;
 
-        if (!(hash_entry = zt_mem_pool_alloc(pool))) {
+        /* other tables have other sizes, so use our own pools */
+        if (!(hash_entry = zt_mem_pool_group_alloc(tbl->pools,
+                                                   sizeof(zt_ipv4_node *) * tbl->sz))) {
             return -1;
         }
 
-- 
2.43.0


From c53f1fc93a6831859b18d209b3bdb8e94cec3a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 056/148] fix: zt_ipv4_tbl_search_node read past the end of a
 full prefix list

---
 src/libzt/zt_ipv4_tbl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 4ed4aa7..80a58ea 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -258,7 +258,7 @@ zt_ipv4_tbl_search_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
         return tbl->any;
     }
 
-    while (1) {
+    while (i < 32) {
         uint32_t addr_masked;
         uint32_t key;
 
-- 
2.43.0


From d05f7ae391ca14b91be1323d15cfd6657cf6aff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 057/148] fix: zt_ipv4_str2net accepted malformed networks and
 read past the text

---
 src/libzt/zt_ipv4_tbl.c | 44 ++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 80a58ea..f0ef493 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -1,3 +1,5 @@
+#include <ctype.h>
+
 #include "zt_internal.h"
 #include "zt_mem.h"
 #include "zt_ipv4_tbl.h"
@@ -333,6 +335,7 @@ zt_ipv4_str2net(const char *str, uint32_t * outaddr, int *outbitlen)
     char *str_cp;
     char *cp;
     int   bitlen = 32;
+    struct in_addr in;
 
     if (!str || !outaddr || !outbitlen) {
         return -1;
@@ -348,29 +351,46 @@ zt_ipv4_str2net(const char *str, uint32_t * outaddr, int *outbitlen)
     }
 
     if ((cp = strchr(str_cp, '/')) != NULL) {
-        bitlen = atoi(cp + 1);
+        char *end;
+        long  len = strtol(cp + 1, &end, 10);
 
-        if ((cp - str_cp) > MAXLINE - 1) {
-            free(save);
-            free(str_cp);
-            return -1;
+        /* a prefix length that is not a number is not a length of 0 */
+        if (end == cp + 1 || len < 0) {
+            goto fail;
+        }
+
+        while (isspace((unsigned char)*end)) {
+            end++;
+        }
+
+        if (*end != '\0') {
+            goto fail;
         }
 
-        memcpy(save, str, cp - str_cp);
-    } else {
-        bitlen = 32;
-        memcpy(save, str, MAXLINE);
+        bitlen = len > 32 ? 32 : (int)len;
+        *cp = '\0';
     }
 
-    if (bitlen > 32) {
-        bitlen = 32;
+    if (strlen(str_cp) > MAXLINE - 1) {
+        goto fail;
     }
 
-    *outaddr = ntohl(inet_addr(save));
+    strcpy(save, str_cp);
+
+    if (!inet_aton(save, &in)) {
+        goto fail;
+    }
+
+    *outaddr = ntohl(in.s_addr);
     *outbitlen = bitlen;
 
     free(save);
     free(str_cp);
 
     return 0;
+
+fail:
+    free(save);
+    free(str_cp);
+    return -1;
 } /* zt_ipv4_str2net */
-- 
2.43.0


From fbb5e6993095c7a2bcfb48af5a9cbcdeef0aabba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 058/148] fix: ipv4 lookups leaked an address each

---
 src/libzt/zt_ipv4_tbl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index f0ef493..3c1eb4b 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -117,6 +117,7 @@ zt_ipv4_node_str_init(const char *netstr)
     }
 
     if (!(addr = zt_ipv4_addr_frm_str(netstr))) {
+        zt_mem_pool_release((void **)&node);
         return NULL;
     }
 
@@ -303,6 +304,7 @@ zt_ipv4_tbl_search_from_str(zt_ipv4_tbl * tbl, const char *netstr)
 
     matched = zt_ipv4_tbl_search_node(tbl, ipv4_node);
 
+    zt_mem_pool_release((void **)&ipv4_node->addr);
     zt_mem_pool_release((void **)&ipv4_node);
 
     return matched;
-- 
2.43.0


From 9f89a49021671b1efcc2b6753e595b77f68447ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 059/148] fix: zt_ipv4_tbl_destroy freed no table that had
 entries

---
 src/libzt/zt_ipv4_tbl.c | 82 +++++++++++++++++++++++++++++++----------
 1 file changed, 63 insertions(+), 19 deletions(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 3c1eb4b..4137c3a 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -16,6 +16,29 @@ static uint32_t netmask_tbl[] = {
     0xFFFFFFFC, 0xFFFFFFFE, 0xFFFFFFFF
 };
 
+/* allocate from the pools of a table or, without one, those of any table */
+static void *
+ipv4_alloc(zt_mem_pool_group *pools, char *name, size_t size)
+{
+    if (pools) {
+        return zt_mem_pool_group_alloc(pools, size);
+    }
+
+    return zt_mem_pool_alloc(zt_mem_pool_get(name));
+}
+
+static void
+ipv4_nodes_release(zt_ipv4_node *node)
+{
+    while (node) {
+        zt_ipv4_node *next = node->next;
+
+        zt_mem_pool_release((void **)&node->addr);
+        zt_mem_pool_release((void **)&node);
+        node = next;
+    }
+}
+
 void
 zt_ipv4_tbl_destroy(zt_ipv4_tbl *tbl)
 {
@@ -24,6 +47,24 @@ zt_ipv4_tbl_destroy(zt_ipv4_tbl *tbl)
     }
 
     if (tbl->pools) {
+        int      i;
+        uint32_t key;
+
+        /* pools can not be destroyed while they have live elements */
+        ipv4_nodes_release(tbl->any);
+
+        for (i = 0; i < 32; i++) {
+            if (!tbl->tbl[i]) {
+                continue;
+            }
+
+            for (key = 0; key < tbl->sz; key++) {
+                ipv4_nodes_release(tbl->tbl[i][key]);
+            }
+
+            zt_mem_pool_release((void **)&tbl->tbl[i]);
+        }
+
         zt_mem_pool_group_destroy(tbl->pools);
     }
 
@@ -64,11 +105,10 @@ zt_ipv4_tbl_init(uint32_t size)
 }
 
 
-zt_ipv4_addr   *
-zt_ipv4_addr_frm_str(const char *netstr)
+static zt_ipv4_addr   *
+ipv4_addr_init(zt_mem_pool_group *pools, const char *netstr)
 {
     zt_ipv4_addr *addr = NULL;
-    zt_mem_pool  *pool = NULL;
     int           bitlen = 32;
     uint32_t      ipaddr;
 
@@ -76,15 +116,11 @@ zt_ipv4_addr_frm_str(const char *netstr)
         return NULL;
     }
 
-    if (!(pool = zt_mem_pool_get("zt_ipv4_addr"))) {
-        return NULL;
-    }
-
     if (zt_ipv4_str2net(netstr, &ipaddr, &bitlen)) {
         return NULL;
     }
 
-    if (!(addr = zt_mem_pool_alloc(pool))) {
+    if (!(addr = ipv4_alloc(pools, "zt_ipv4_addr", sizeof(zt_ipv4_addr)))) {
         return NULL;
     }
 
@@ -97,26 +133,27 @@ zt_ipv4_addr_frm_str(const char *netstr)
     return addr;
 }
 
-zt_ipv4_node   *
-zt_ipv4_node_str_init(const char *netstr)
+zt_ipv4_addr   *
+zt_ipv4_addr_frm_str(const char *netstr)
+{
+    return ipv4_addr_init(NULL, netstr);
+}
+
+static zt_ipv4_node   *
+ipv4_node_init(zt_mem_pool_group *pools, const char *netstr)
 {
     zt_ipv4_node *node;
     zt_ipv4_addr *addr;
-    zt_mem_pool  *pool;
 
     if (!netstr) {
         return NULL;
     }
 
-    if (!(pool = zt_mem_pool_get("zt_ipv4_node"))) {
-        return NULL;
-    }
-
-    if (!(node = zt_mem_pool_alloc(pool))) {
+    if (!(node = ipv4_alloc(pools, "zt_ipv4_node", sizeof(zt_ipv4_node)))) {
         return NULL;
     }
 
-    if (!(addr = zt_ipv4_addr_frm_str(netstr))) {
+    if (!(addr = ipv4_addr_init(pools, netstr))) {
         zt_mem_pool_release((void **)&node);
         return NULL;
     }
@@ -127,6 +164,12 @@ zt_ipv4_node_str_init(const char *netstr)
     return node;
 }
 
+zt_ipv4_node   *
+zt_ipv4_node_str_init(const char *netstr)
+{
+    return ipv4_node_init(NULL, netstr);
+}
+
 int
 zt_ipv4_tbl_add_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
 {
@@ -144,6 +187,7 @@ zt_ipv4_tbl_add_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
         /*
          * this is a 0.0.0.0/0 network, set the any to this node
          */
+        node->next = tbl->any;
         tbl->any = node;
         return 0;
     }
@@ -224,7 +268,7 @@ zt_ipv4_tbl_add_frm_str(zt_ipv4_tbl * tbl, const char *netstr)
         return tbl->any;
     }
 
-    if (!(ipv4_node = zt_ipv4_node_str_init(netstr))) {
+    if (!(ipv4_node = ipv4_node_init(tbl->pools, netstr))) {
         return NULL;
     }
 
@@ -298,7 +342,7 @@ zt_ipv4_tbl_search_from_str(zt_ipv4_tbl * tbl, const char *netstr)
         return NULL;
     }
 
-    if (!(ipv4_node = zt_ipv4_node_str_init(netstr))) {
+    if (!(ipv4_node = ipv4_node_init(tbl->pools, netstr))) {
         return NULL;
     }
 
-- 
2.43.0


From 39f043af141b9d36066eb0decf55c9a8262236b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:55 +0000
Subject: [PATCH 060/148] fix: moving the gc value about to be scanned lost the
 scan position

---
 src/libzt/zt_gc.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index f26593f..bbe7b02 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -75,6 +75,15 @@ static int is_protected(zt_gc_collectable_t *mark)
     return ZT_BIT_ISSET(mark->colour, protected);
 }
 
+/* a value that leaves its list must not take the scan position along */
+static void leave_list(zt_gc_t *gc, zt_gc_collectable_t *mark)
+{
+    if (gc->scan == &mark->list) {
+        gc->scan = mark->list.next;
+    }
+    zt_elist_remove(&mark->list);
+}
+
 void
 zt_gc_protect(zt_gc_t *gc, void *value)
 {
@@ -83,7 +92,7 @@ zt_gc_protect(zt_gc_t *gc, void *value)
     mark = (zt_gc_collectable_t    *)value;
 
     gc->clear_white(mark);
-    zt_elist_remove(&mark->list);
+    leave_list(gc, mark);
     zt_elist_add(gc->grey, &mark->list);
     ZT_BIT_SET(mark->colour, protected);
 }
@@ -233,11 +242,11 @@ zt_gc_prepare(zt_gc_t *gc UNUSED, void *v)
 }
 
 void
-zt_gc_unregister(zt_gc_t *gc UNUSED, void *v)
+zt_gc_unregister(zt_gc_t *gc, void *v)
 {
     zt_gc_collectable_t * mark = (zt_gc_collectable_t *)v;
 
-    zt_elist_remove(&mark->list);
+    leave_list(gc, mark);
 
     if (++gc->current_allocs < gc->allocs_before_scan) {
         zt_gc_collect(gc, 0);
@@ -396,7 +405,7 @@ zt_gc_mark(zt_gc_t *gc, void *value)
 
     if (!is_protected(mark) && gc->is_white(mark)) {
         gc->clear_white(mark);
-        zt_elist_remove(&mark->list);
+        leave_list(gc, mark);
         zt_elist_add_tail(gc->grey, &mark->list);
         return TRUE;
     }
-- 
2.43.0


From fe8f9aae0457a2e0ffecd0e2a3473e0c489d585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:55 +0000
Subject: [PATCH 061/148] fix: values reachable from a gc value protected
 during a scan were released

---
 src/libzt/zt_gc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index bbe7b02..e8f4262 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -93,7 +93,8 @@ zt_gc_protect(zt_gc_t *gc, void *value)
 
     gc->clear_white(mark);
     leave_list(gc, mark);
-    zt_elist_add(gc->grey, &mark->list);
+    /* behind the scan position so that it is still scanned in this cycle */
+    zt_elist_add_tail(gc->grey, &mark->list);
     ZT_BIT_SET(mark->colour, protected);
 }
 
-- 
2.43.0


From 170d37c3005e6da6d4a8575006a409b9939f5090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 062/148] fix: values of short options were misread in groups
 and used as options themselves

---
 src/libzt/zt_opts.c | 49 +++++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 2967df4..71e9b85 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -85,46 +85,37 @@ zt_opt_error_default(int code, char * fmt, ...) {
     return ret;
 }
 
+/* set when a value was found in the same argument as its short option */
+static int value_attached = 0;
+
 char *
 zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args_consumed, zt_opt_error error) {
     char * p      = argv[argn];
     char * pp     = NULL;
     char * result = NULL;
-    char * lopt   = def[defn].lopt;
 
     *args_consumed = 0;
 
-    /* skip past any leading '-' */
-    while(*p == '-') { p++; }
-
-    pp = p;
-    do {
-        if (*pp == '=') {
+    if (p[0] == '-' && p[1] == '-') {
+        /* long opt */
+        if ((pp = strchr(p, '=')) != NULL) {
             result = ++pp;
-            break;
         }
-    } while (*pp++);
-
-    if (!result) {
-        pp = p;
-        /* there was no '=' embedded
-         * try matching the long opt name
-         */
-        if (strcmp(lopt, pp) == 0) {
-            result = argv[argn + 1]; /* default to the next option */
-            *args_consumed = 1;
-        } else {
-            /* short opt */
-            pp++;
-            if(*pp) {
-                result = pp;
-            } else {
-                result = argv[argn + 1];
-                *args_consumed = 1;
-            }
+    } else if (def[defn].sopt != ZT_OPT_NSO &&
+               (pp = strchr(p, def[defn].sopt)) != NULL) {
+        /* short opt, possibly preceded by others in the same argument */
+        pp++;
+        if (*pp) {
+            result = *pp == '=' ? pp + 1 : pp;
+            value_attached = 1;
         }
     }
 
+    if (!result && argv[argn + 1]) {
+        result = argv[argn + 1]; /* default to the next option */
+        *args_consumed = 1;
+    }
+
     if (!result) {
         error(EINVAL, "while processing arg '%s'", argv[argn]);
     }
@@ -494,6 +485,7 @@ AGAIN:
                     int consumed = 0;
 
                     found = 1;
+                    value_attached = 0;
                     if ((consumed = args[x].cb(i, x, argc, argv, args, error)) < 0) {
                         /* error */
                         return consumed;
@@ -503,8 +495,9 @@ AGAIN:
                         i += consumed;
                     }
 
-                    if(!consumed && !long_opt && *(++p)) {
+                    if(!consumed && !long_opt && !value_attached && *(++p)) {
                         /* if we did not consume extra args AND
+                         * the rest of this one was not the value AND
                          * we are a short option AND
                          * there are more short options to consume
                          */
-- 
2.43.0


From a5c2484acee6a197013ee1c9d8b05d844cc1c4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 063/148] fix: unknown short options in a group were ignored

---
 src/libzt/zt_opts.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 71e9b85..547855d 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -477,6 +477,7 @@ zt_opt_process_args(int * argc, char ** argv, zt_opt_def_t * args, zt_opt_valida
 
 
 AGAIN:
+            found = 0;
             for (x = 0; args[x].cb; x++) {
                 if ((len == 0 && args[x].sopt != ZT_OPT_NSO && *p == args[x].sopt) || /* short opt */
                     /* long opt */
-- 
2.43.0


From b10070cab141f23103aff62c5c509157cde97a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 064/148] fix: options crashed without a value when the error
 handler returns

---
 src/libzt/zt_opts.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 547855d..4816f9e 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -136,6 +136,10 @@ zt_opt_intmax(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def,
     int      args_consumed = 0;
     char   * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        return 0;
+    }
+
     errno  = 0;
     result = strtoimax(arg, &end, 0);
 
@@ -165,6 +169,10 @@ zt_opt_long(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt
     int    args_consumed = 0;
     char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        return 0;
+    }
+
     errno  = 0;
     result = strtol(arg, &end, 0);
 
@@ -192,6 +200,10 @@ zt_opt_bool_int(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def
     int    args_consumed = 0;
     char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        return 0;
+    }
+
     len = strlen(arg);
 
     if (len == 1) {
-- 
2.43.0


From 80813763a8d32312026782fd29945de878869773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 065/148] fix: empty option values were accepted as numbers

---
 src/libzt/zt_opts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 4816f9e..c7b6bb4 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -148,7 +148,7 @@ zt_opt_intmax(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def,
         error(errno, "invalid number '%s'", arg);
     }
 
-    if (end && *end) {
+    if (end == arg || *end) {
         /* invalid character */
         error(EINVAL, "'%s' is not a number", arg);
     }
@@ -181,7 +181,7 @@ zt_opt_long(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt
         error(errno, "invalid number '%s'", arg);
     }
 
-    if (end && *end) {
+    if (end == arg || *end) {
         /* invalid character */
         error(EINVAL, "'%s' is not a number", arg);
     }
-- 
2.43.0


From 455b9764085f509154495626331f6f5748b50858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 066/148] fix: zt_opt_int was declared but did not exist

---
 src/libzt/zt_opts.c | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index c7b6bb4..68f8001 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -193,6 +193,41 @@ zt_opt_long(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt
     return args_consumed;
 }
 
+int
+zt_opt_int(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt_opt_error error) {
+    long   result;
+    char * end = NULL;
+    int    args_consumed = 0;
+    char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
+
+    if (!arg) {
+        return 0;
+    }
+
+    errno  = 0;
+    result = strtol(arg, &end, 0);
+
+    if (!errno && (result < INT_MIN || result > INT_MAX)) {
+        errno = ERANGE;
+    }
+
+    if (errno) {
+        /* check errno */
+        error(errno, "invalid number '%s'", arg);
+    }
+
+    if (end == arg || *end) {
+        /* invalid character */
+        error(EINVAL, "'%s' is not a number", arg);
+    }
+
+    if (def[defn].cb_data) {
+        *(int *)def[defn].cb_data = (int)result;
+    }
+
+    return args_consumed;
+}
+
 int
 zt_opt_bool_int(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt_opt_error error) {
     int    result;
-- 
2.43.0


From d972d5cf1406d00c2062288a2e093d5c3407a4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 067/148] fix: option help text with a long word was read out
 of bounds or forever

---
 src/libzt/zt_opts.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 68f8001..6e10ad5 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -384,9 +384,14 @@ _zt_opt_help_stdout_printer(zt_opt_def_t * def) {
                     width = sublen;
                 } else {
                     // try to break between words
-                    while(def->help[offt+width] != ' ') {
+                    while(width && def->help[offt+width] != ' ') {
                         width--;
                     }
+
+                    if (!width) {
+                        // a word longer than a line
+                        width = BASE_WIDTH;
+                    }
                 }
 
                 printf(BLANK "%.*s" NL, INDENT_TO(BASE_INDENT, 5, depth), (int)width, &def->help[offt]);
-- 
2.43.0


From 3085093139c8cd5ee1516096fdf2dcffb0e71888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 068/148] fix: accept a one character value on a last cfg line
 without newline

Without a newline to strip, len named the last character of the line
rather than its end, so "x=5" at the end of the file was a syntax error.
---
 src/libzt/zt_cfg/cfg_ini.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index 469a95a..d70111b 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -129,6 +129,7 @@ static int parse_line(FILE* file, struct cfg_bvv_ty* bvv)
             /* errno = EPROTO; */    /* Nope no EOF so some sort of protocol error */
             return 0;
         }
+        len++;  /* the last character belongs to the value */
     }
 
     val++;    /* val points to the beginning of value + any white space*/
-- 
2.43.0


From 7613689eb46ca4594b665cfcd45ca6086a6f87d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 069/148] fix: refuse a cfg file with an overlong or
 unterminated block name

The failure was ignored and the next variable was inserted into the block
NULL; an unterminated name swallowed the rest of the file.
---
 src/libzt/zt_cfg/cfg_ini.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index d70111b..7e730a3 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -78,7 +78,7 @@ static int parse_block(FILE* file, struct cfg_bvv_ty* bvv)
     zt_assert(bvv);
 
     while (((c = fgetc(file)) != EOF) && (i < BUFMAX)) {
-        if (c == ']') {
+        if (c == ']' || c == '\n') {
             break;
         }
         buff[i] = (char)c;
@@ -90,6 +90,11 @@ static int parse_block(FILE* file, struct cfg_bvv_ty* bvv)
         return -1;
     }
 
+    if (c != ']') {
+        /* errno = EPROTO; */    /* the line or the file ended inside the name */
+        return -1;
+    }
+
     /* Otherwize we have a block name in buff */
     bvv->block = strdup(buff);
     if (bvv->block == NULL) {
@@ -190,7 +195,10 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
                     free(bvv.block);
                     bvv.block = NULL;
                 }
-                parse_block(file, &bvv);
+                if (parse_block(file, &bvv) < 0) {
+                    zt_log_printf(zt_log_err, "Syntax error in config file at line: %d\n", line);
+                    return -1;
+                }
                 cfg_discard_line(file);
                 break;
             case ';':
-- 
2.43.0


From 44244a178454a6aece9b60ce1fb5b3c9068b94e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 070/148] fix: free what was parsed of a refused cfg file

---
 src/libzt/zt_cfg/cfg_ini.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index 7e730a3..098a253 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -44,8 +44,7 @@ zt_cfg_ini(char *file, int opts )
     cfg->filename = strdup(file);
     cfg->opts = opts;
     if (parse_cfg(cfg) < 0) {
-        free(cfg->filename);
-        free(cfg);
+        zt_cfg_priv_destructor(cfg);
         cfg = NULL;
     }
 
@@ -197,6 +196,7 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
                 }
                 if (parse_block(file, &bvv) < 0) {
                     zt_log_printf(zt_log_err, "Syntax error in config file at line: %d\n", line);
+                    free(bvv.block);
                     return -1;
                 }
                 cfg_discard_line(file);
@@ -217,6 +217,7 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
                 ungetc(c, file);
                 if (!(parse_line(file, &bvv))) {
                     zt_log_printf(zt_log_err, "Syntax error in config file at line: %d\n", line);
+                    free(bvv.block);
                     return -1;
                 }
                 cfg_insert_bvv(cfg, &bvv);
-- 
2.43.0


From 6f85f99f959cab0dfc40743f9721940f45b00519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 071/148] fix: keep comment characters inside quoted cfg
 strings

'a;b' was cut at the semicolon and then lost another character as its
closing quote.
---
 src/libzt/zt_cfg/cfg_ini.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index 098a253..0ec0bd7 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -113,6 +113,7 @@ static int parse_line(FILE* file, struct cfg_bvv_ty* bvv)
     size_t    vallen;
     size_t    i;
     int       c;
+    char    * quote;
 
     memset(buff, '\0', BUFMAX);
     if (fgets(buff, BUFMAX, file) == NULL) {
@@ -145,7 +146,15 @@ static int parse_line(FILE* file, struct cfg_bvv_ty* bvv)
     val = val + end;    /* Now val points to the beginning of value - any leading white space */
     vallen = strlen(val);
 
-    for (i = 0; i < vallen; i++) {
+    i = 0;
+    if (val[0] == '\'' || val[0] == '\"') {
+        /* comment characters are ordinary inside a quoted string */
+        if ((quote = strchr(val + 1, val[0])) != NULL) {
+            i = quote - val;
+        }
+    }
+
+    for ( ; i < vallen; i++) {
         if ((val[i] == ';') || (val[i] == '#')) {
             val[i] = '\0';
             break;
-- 
2.43.0


From e947620666e968fa735cadd46d23f88ea9fa7d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 072/148] fix: free the old text when a cfg string is assigned
 again

---
 src/libzt/zt_cfg/cfg_private.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index adb2e97..2bacb83 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -179,6 +179,10 @@ cfg_insert_bvv(struct zt_cfg_ty* cfg, struct cfg_bvv_ty* bvv)
 
     if (value->v.s != NULL) {
         value->altered = 1;
+        if (value->type == zt_cfg_string) {
+            free(value->v.s);
+            value->v.s = NULL;
+        }
     }
 
     value->type = get_type(bvv->value, &value->v);
-- 
2.43.0


From c4f3e5cb93d7aedf5911f1699c63d08ea2dc2389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 073/148] fix: do not build circular cfg references

Assigning a variable a reference that leads back to the variable made
every later zt_cfg_get of it loop for ever.  It stays a plain string.
---
 src/libzt/zt_cfg/cfg_private.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index 2bacb83..f3ad672 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -192,12 +192,19 @@ cfg_insert_bvv(struct zt_cfg_ty* cfg, struct cfg_bvv_ty* bvv)
         variable = strchr(value->v.s, '.');
         if (((variable) && (*variable == '.'))) {
             struct zt_cfg_value_ty* v = NULL;
+            struct zt_cfg_value_ty* target = NULL;
             struct zt_cfg_block_ty* b = NULL;
             char                   *block = zt_calloc(char, strlen(value->v.s) + 1);
             strncpy(block, value->v.s, (variable - value->v.s));
             variable++;    /* move past the '.' */
             if ((b = get_block(cfg->head, block))) {
-                if ((v = get_variable(b->head, variable))) {
+                v = get_variable(b->head, variable);
+                target = v;
+                while (target && target->type == zt_cfg_ref) {
+                    target = target->v.r;
+                }
+                /* a reference that leads back to itself has no value */
+                if (v && target != value) {
                     free(value->v.s);    /* we had to be a string to get here */
                     value->v.r = v;
                     value->type = zt_cfg_ref;
-- 
2.43.0


From 9ce99590ab21307bea5fd0c985606001700f0d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 074/148] fix: store long strings whole in zt_cfg_set and free
 its copies on failure

Strings were cut to 1023 characters without notice.
---
 src/libzt/zt_cfg/cfg_private.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index f3ad672..69a4008 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -225,26 +225,32 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
 
     bvv.block = strdup(block_name);
     bvv.variable = strdup(variable_name);
-    bvv.value = zt_calloc(char, BUFMAX);
+    bvv.value = NULL;
 
     switch (type) {
         case zt_cfg_int:
+            bvv.value = zt_calloc(char, BUFMAX);
             snprintf(bvv.value, BUFMAX, "%ld", *(long *)var);
             break;
         case zt_cfg_float:
+            bvv.value = zt_calloc(char, BUFMAX);
             snprintf(bvv.value, BUFMAX, "%f", *(double *)var);
             break;
         case zt_cfg_bool:
             if ((*(int *)var == 1) || (*(int *)var == 0)) {
                 zt_log_printf(zt_log_err, "Invalid value for type zt_cfg_bool in zt_cfg_set!  Must be a string of (true|yes|no|false).");
+                free(bvv.block);
+                free(bvv.variable);
                 return -1;
             }
         /* FALLTHRU */
         case zt_cfg_string:
-            snprintf(bvv.value, BUFMAX, "%s", *(char **)var);
+            bvv.value = strdup(*(char **)var);
             break;
         default:
             zt_log_printf(zt_log_err, "Unknown type in cfg variable list");
+            free(bvv.block);
+            free(bvv.variable);
             return -1;
     }
 
-- 
2.43.0


From 9dd8f1a1e6a85ec0fbe970e5fe3dd7ba2eb9bb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 075/148] fix: store floats exactly in zt_cfg_set

%f keeps six digits after the point: 1e-9 became 0 and most doubles did
not survive a set and a get.
---
 src/libzt/zt_cfg/cfg_private.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index 69a4008..efc8d2f 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -234,7 +234,7 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
             break;
         case zt_cfg_float:
             bvv.value = zt_calloc(char, BUFMAX);
-            snprintf(bvv.value, BUFMAX, "%f", *(double *)var);
+            snprintf(bvv.value, BUFMAX, "%.17e", *(double *)var);
             break;
         case zt_cfg_bool:
             if ((*(int *)var == 1) || (*(int *)var == 0)) {
-- 
2.43.0


From 62a39211c8ea4722f4136c24c1fd8f42d0422f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 076/148] fix: zt_log_lstrerror logged uninitialised memory as
 the error text

With _GNU_SOURCE, which the build defines, strerror_r returns the text
and need not fill the buffer: every call logged "Could not capture error
string" and then whatever the buffer held, used as a format.
---
 src/libzt/zt_log.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/libzt/zt_log.c b/src/libzt/zt_log.c
index b17559b..73bf7bf 100644
--- a/src/libzt/zt_log.c
+++ b/src/libzt/zt_log.c
@@ -286,9 +286,20 @@ zt_log_lstrerror(zt_log_ty * log, zt_log_level level, int errnum, const char * f
     nfmt[llen]     = ':';
     nfmt[llen + 1] = ' ';
 
+#if defined(__GLIBC__) && defined(_GNU_SOURCE)
+    {
+        /* this variant returns the text, which need not be in the buffer */
+        const char * msg = strerror_r(errnum, nfmt + (llen + 2), 255 - 2);
+
+        if (msg != nfmt + (llen + 2)) {
+            snprintf(nfmt + (llen + 2), 255 - 2, "%s", msg);
+        }
+    }
+#else
     if (strerror_r(errnum, nfmt + (llen + 2), 255 - 2) != 0) {
       zt_log_lprintf(log, zt_log_crit, "Could not capture error string");
     }
+#endif
 
     va_start(ap, fmt);
     zt_log_lvprintf(log, level, nfmt, ap);
-- 
2.43.0


From 59d9fe567b3d6d9533acb1559cf33cafd2466c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 077/148] fix: free the logger when its file cannot be opened

---
 src/libzt/zt_log/log_file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_log/log_file.c b/src/libzt/zt_log/log_file.c
index 1882afd..b1f5709 100644
--- a/src/libzt/zt_log/log_file.c
+++ b/src/libzt/zt_log/log_file.c
@@ -86,6 +86,7 @@ zt_log_file(char * file, int fopts, int lopts) {
     }
     if (!this->file) {
         fprintf(stderr, "Could not open file %s: %s\n", file, strerror(errno));
+        zt_free(result);
         return NULL;
     }
 
-- 
2.43.0


From 2e8fc200dd821c852fced8622ebe934c5555805f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 078/148] fix: a % in the program, host, file or function name
 is not a log conversion

The prefix and the debug information become part of the format, so a
percent sign in them consumed the arguments of the message.
---
 src/libzt/zt_log/log_private.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_log/log_private.c b/src/libzt/zt_log/log_private.c
index 7a56223..59036ff 100644
--- a/src/libzt/zt_log/log_private.c
+++ b/src/libzt/zt_log/log_private.c
@@ -62,6 +62,19 @@ zt_log_new(zt_log_vtbl_ty * vptr, unsigned int opts) {
     return result;
 }
 
+/* append text to a format so that it prints as it is */
+static void
+append_text(char * buff, const char * text) {
+    buff += strlen(buff);
+    while (*text) {
+        if (*text == '%') {
+            *buff++ = '%';
+        }
+        *buff++ = *text++;
+    }
+    *buff = '\0';
+}
+
 char*
 zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, const char * function, zt_log_level level, unsigned int opts) {
     size_t len  = 0;
@@ -91,18 +104,18 @@ zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, c
         if (t) {
             *t = '\0';
         }
-        len += strlen(sbuf) + 1;    /* sbuf + space */
+        len += 2 * strlen(sbuf) + 1;    /* sbuf, perhaps escaped + space */
         buff = zt_realloc(char, buff, len);
-        strcat(buff, sbuf);
+        append_text(buff, sbuf);
         if ((opts > ZT_LOG_WITH_SYSNAME)) {
             strcat(buff, " ");
         }
     }
 
     if (opts & ZT_LOG_WITH_PROGNAME) {
-        len += strlen(zt_progname(NULL, 0)); /* progname */
+        len += 2 * strlen(zt_progname(NULL, 0)); /* progname, perhaps escaped */
         buff = zt_realloc(char, buff, len);
-        strcat(buff, zt_progname(NULL, 0));
+        append_text(buff, zt_progname(NULL, 0));
     }
 
     if (opts & ZT_LOG_WITH_PID) {
@@ -138,9 +151,9 @@ zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, c
         nlen += 10;    /* length of a int to str */
         nbuff = zt_calloc(char, nlen); /* mem_calloc(nlen, sizeof(char)); */
         sprintf(nbuff, ": in %s at (%s:%d)", function, file, line);
-        len  += nlen;
+        len  += 2 * nlen;
         buff  = zt_realloc(char, buff, len);
-        strcat(buff, nbuff);
+        append_text(buff, nbuff);
         zt_free(nbuff);
     }
     strcat(buff, "\n");
-- 
2.43.0


From 698a65a1ba7a3a9c03a0b209ba735f00f54bae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 079/148] fix: zt_threadpool_kill could wait for ever for a
 thread that missed it

A thread that had seen kill unset but did not wait yet was not woken by
the broadcast, which was sent without its mutex.
---
 src/libzt/zt_threads.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index d42f58e..d21eca3 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -517,11 +517,15 @@ zt_threadpool_kill(zt_threadpool *tpool) {
     int k   = 1;
     int ret = 0;
 
+    /* signal all threads, and let them die; without the locks a thread
+     * that is about to wait would miss it */
+    zt_threads_lock(0, tpool->iput_mutex);
+    zt_threads_lock(0, tpool->oput_mutex);
     tpool->kill = 1;
-
-    /* signal all threads, and let them die */
     zt_threads_cond_signal(tpool->iput_cond, 1);
     zt_threads_cond_signal(tpool->oput_cond, 1);
+    zt_threads_unlock(0, tpool->oput_mutex);
+    zt_threads_unlock(0, tpool->iput_mutex);
 
     for (i = 0; i < tpool->min_threads; i++) {
         if (_zt_threadpool_cbs.iput_loop) {
-- 
2.43.0


From b8e194b7a46a588516bf1a96339b3c7f73df1e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 080/148] fix: zt_threadpool_kill lost the results of the last
 inputs

The output threads ended as soon as their queue was empty, even while an
input worker was still to add a result.
---
 src/libzt/zt_threads.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index d21eca3..6dfb868 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -280,7 +280,7 @@ _zt_threadpool_oput_loop(void *args) {
         }
 
         if (TAILQ_EMPTY(&tpool->oput_queue)) {
-            if (tpool->kill) {
+            if (tpool->kill > 1) {
                 zt_threads_unlock(0, tpool->oput_mutex);
                 zt_threads_end(NULL);
                 return NULL;
@@ -531,7 +531,16 @@ zt_threadpool_kill(zt_threadpool *tpool) {
         if (_zt_threadpool_cbs.iput_loop) {
             zt_threads_join(tpool->iput_threads[i], NULL);
         }
+    }
 
+    /* nothing is added to the output queue any more: now its threads may
+     * stop when it is empty */
+    zt_threads_lock(0, tpool->oput_mutex);
+    tpool->kill = 2;
+    zt_threads_cond_signal(tpool->oput_cond, 1);
+    zt_threads_unlock(0, tpool->oput_mutex);
+
+    for (i = 0; i < tpool->min_threads; i++) {
         if (_zt_threadpool_cbs.oput_loop) {
             zt_threads_join(tpool->oput_threads[i], NULL);
         }
-- 
2.43.0


From 53334a2f0e100583a4ed06aab02bb2504e3f29ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 081/148] fix: restoring the default threadpool callbacks kept
 the old finalizer

---
 src/libzt/zt_threads.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index 6dfb868..734ef17 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -229,6 +229,7 @@ zt_threadpool_set_callbacks(struct zt_threadpool_callbacks *cbs) {
         _zt_threadpool_cbs.init        = NULL;
         _zt_threadpool_cbs.iput_worker = NULL;
         _zt_threadpool_cbs.oput_worker = NULL;
+        _zt_threadpool_cbs.finalize    = NULL;
 
         return 0;
     }
-- 
2.43.0


From 6a46a7f6fd9746c09bb6b9fc22019c1f8c7096dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 082/148] fix: a failing zt_threadpool_init closed standard
 input instead of its pipe

The output pipe does not exist when it could not be made: descriptor 0
was closed twice and the input pipe leaked.
---
 src/libzt/zt_threads.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index 734ef17..5d531c3 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -585,8 +585,8 @@ zt_threadpool_init(int min_threads, int max_threads, int pipe_iput, int pipe_opu
     if (pipe_oput) {
         if (pipe(tpool->oput_fd_sigs) < 0) {
             if (pipe_iput) {
-                close(tpool->oput_fd_sigs[0]);
-                close(tpool->oput_fd_sigs[1]);
+                close(tpool->iput_fd_sigs[0]);
+                close(tpool->iput_fd_sigs[1]);
             }
 
             free(tpool);
-- 
2.43.0


From a8858074116f82515a5784211f6c7631398f0d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 083/148] fix: zt_mkdir never returned for a path that cannot
 be created

---
 src/libzt/zt_path.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index 1c54921..8739872 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -19,6 +19,7 @@ zt_mkdir(const char * path, mode_t mode, zt_mkdir_flags flags) {
     ssize_t     offt;
     struct stat sbuf;
     ssize_t     pslen;
+    int         retried = 0;
 
     errno = 0;
 
@@ -29,8 +30,8 @@ AGAIN:
             return 0;
         }
 
-        if (!ZT_BIT_ISSET(flags, zt_mkdir_create_parent)) {
-            /* could not create dir and create parents not set */
+        if (!ZT_BIT_ISSET(flags, zt_mkdir_create_parent) || retried) {
+            /* could not create dir and create parents not set (or already done) */
             zt_log_strerror(zt_log_err, errno, "could not create dir: %s", path);
             return -1;
         }
@@ -61,6 +62,7 @@ AGAIN:
             }
         }
 
+        retried = 1;
         goto AGAIN;
     }
 
-- 
2.43.0


From dac82d630ad8ad506cbe6f83ece2ebd634f44a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 084/148] fix: zt_mkdir reported success where a file has the
 name

---
 src/libzt/zt_path.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index 8739872..d6d6687 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -27,7 +27,11 @@ AGAIN:
     if (mkdir(path, mode) != 0) {
 
         if (errno == EEXIST) {
-            return 0;
+            if (stat(path, &sbuf) == 0 && S_ISDIR(sbuf.st_mode)) {
+                return 0;
+            }
+            /* something else has that name */
+            errno = EEXIST;
         }
 
         if (!ZT_BIT_ISSET(flags, zt_mkdir_create_parent) || retried) {
-- 
2.43.0


From 53bb32e42caaceb5b25b42ffcdb51f9bda5bc96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 085/148] fix: zt_mkdir failed when another process created a
 parent first

---
 src/libzt/zt_path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index d6d6687..d1b9f6e 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -60,7 +60,7 @@ AGAIN:
                 continue;
             }
 
-            if (mkdir(cpath, mode) != 0) {
+            if (mkdir(cpath, mode) != 0 && errno != EEXIST) {
                 /* Cannot proceed, return error */
                 return -1;
             }
-- 
2.43.0


From 018ea50598d793b234787e50ebc7e8919818df13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 086/148] fix: over-long paths were left unterminated in
 zt_path

---
 src/libzt/zt_path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index d1b9f6e..b91ae3b 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -52,7 +52,7 @@ AGAIN:
                 break;
             }
 
-            memcpy(cpath, path, MIN(sizeof(cpath), (size_t)offt));
+            memcpy(cpath, path, MIN(sizeof(cpath) - 1, (size_t)offt));
             offt += pslen;
 
             if (offt == pslen || stat(cpath, &sbuf) == 0) {
@@ -101,7 +101,7 @@ char *zt_find_basedir(const char * path, const char * trigger) {
 
     len = strlen(path);
     memset(lpath, 0, sizeof(lpath));
-    memcpy(lpath, path, MIN(len, sizeof(cpath)));
+    memcpy(lpath, path, MIN(len, sizeof(lpath) - 1));
 
     do {
         memset(cpath, 0, sizeof(cpath));
-- 
2.43.0


From c47ce85abcc158e39badfc9fcfaa301c65c0d565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 087/148] fix: zt_progpath looked for ./prog in PATH

---
 src/libzt/zt_progname.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index 6416362..4e97f60 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -118,7 +118,7 @@ zt_progpath(char *prog) {
         memset(_progpath, '\0', PATH_MAX);
         zt_cstr_dirname(_progpath, PATH_MAX, prog);
 
-        if(_progpath[0] == '\0' || strcmp(_progpath, ".") == 0) {
+        if(strstr(prog, PATH_SEPERATOR) == NULL) {
             /* the passed in prog did not include a path */
             char        * path;
             size_t        offt = 0;
@@ -190,6 +190,12 @@ zt_progpath(char *prog) {
                         pp += 2;
                     }
 
+                    if (strcmp(pp, ".") == 0) {
+                        /* ./prog */
+                        zt_cstr_copy(cwd, 0, -1, _progpath, PATH_MAX);
+                        return _progpath;
+                    }
+
                     tpath = zt_cstr_path_append(cwd, pp);
                     zt_cstr_copy(tpath, 0, -1, _progpath, PATH_MAX);
                     zt_free(tpath);
-- 
2.43.0


From fcd73af9d4ee388964b9ec14e2f8cf16d13ce2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 088/148] fix: zt_progpath skipped the last and mistook empty
 elements of PATH

---
 src/libzt/zt_progname.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index 4e97f60..8ba0a14 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -121,8 +121,6 @@ zt_progpath(char *prog) {
         if(strstr(prog, PATH_SEPERATOR) == NULL) {
             /* the passed in prog did not include a path */
             char        * path;
-            size_t        offt = 0;
-            ssize_t       base = 0;
             size_t        len;
             char        * tpath;
             struct stat   sbuf;
@@ -142,27 +140,29 @@ zt_progpath(char *prog) {
                 return _progpath;
             }
 
-            len = strlen(path);
-            while(offt < len) {
-                ssize_t   sofft;
-
-                if ((sofft = zt_cstr_any(path, offt, -1, ENV_SEPERATOR)) < 0) {
-                    break;
+            for (;;) {
+                len = strcspn(path, ENV_SEPERATOR);
+                if (len == 0) {
+                    /* an empty element is the current directory */
+                    tpath = zt_cstr_path_append(".", prog);
+                } else {
+                    tpath = zt_cstr_catv(path, 0, len-1,
+                                         PATH_SEPERATOR, 0, -1,
+                                         prog, 0, -1, NULL);
                 }
-                offt = (size_t)sofft;
-                tpath = zt_cstr_catv(path, base, offt-1,
-                                     PATH_SEPERATOR, 0, -1,
-                                     prog, 0, -1, NULL);
 
                 errno = 0;
                 if((stat(tpath, &sbuf) == 0)) {
                     zt_cstr_dirname(_progpath, PATH_MAX, tpath);
                     zt_free(tpath);
-                    return _progpath;
+                    break;
                 }
                 zt_free(tpath);
-                base = offt+1;
-                offt++;
+
+                if (path[len] == '\0') {
+                    break;
+                }
+                path += len + 1;
             }
 
             /* if still no path */
-- 
2.43.0


From 89ba6a42f7a8e433cd69c534a1c994b390c9e09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:35 +0000
Subject: [PATCH 089/148] fix: naming an empty suite or test crashed the unit
 test runner

---
 src/libzt/zt_unit.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_unit.c b/src/libzt/zt_unit.c
index c7a6d02..6d37677 100644
--- a/src/libzt/zt_unit.c
+++ b/src/libzt/zt_unit.c
@@ -356,7 +356,8 @@ zt_unit_run_by_name(struct zt_unit    * unit,
 
     targetv = str_split(name, ".", &count);
 
-    if (count <= 0 || count > 2) {
+    if (count <= 0 || count > 2 || targetv[count - 1] == NULL) {
+        /* not a name, or an empty one */
         result = -1;
         goto done;
     }
-- 
2.43.0


From deca605c20c4853e70a7238898cd40b0c266c3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:35 +0000
Subject: [PATCH 090/148] fix: running a unit test again added to the counts of
 its last run

---
 src/libzt/zt_unit.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libzt/zt_unit.c b/src/libzt/zt_unit.c
index 6d37677..ff78823 100644
--- a/src/libzt/zt_unit.c
+++ b/src/libzt/zt_unit.c
@@ -262,6 +262,12 @@ zt_unit_run_test(struct zt_unit         * unit UNUSED,
     zt_assert(test);
 
     test->success = FALSE;
+    test->assertions = 0;
+    test->exceptions = 0;
+    if (test->error) {
+        zt_free(test->error);
+        test->error = NULL;
+    }
 
     yaml_dict(test->name, 4);
 
-- 
2.43.0


From 865361b3ab6f5571da63dd1a19de36abcce45363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 091/148] fix: the message of a fatal assertion was lost in a
 log file

---
 src/libzt/zt_assert.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libzt/zt_assert.c b/src/libzt/zt_assert.c
index dee843a..dd74706 100644
--- a/src/libzt/zt_assert.c
+++ b/src/libzt/zt_assert.c
@@ -41,6 +41,9 @@ _zt_log_assertion(const char *s, const char *file, unsigned int line,
     } else {
         zt_log_printf(zt_log_err, "Assertion Failed: \"%s\": %s[%d]", s, bname, line);
     }
+
+    /* abort does not write what is still buffered */
+    fflush(NULL);
 }
 
 int
@@ -61,5 +64,7 @@ _zt_log_abort(const char *s, const char *file, unsigned int line,
         zt_log_printf(zt_log_crit, "Exiting: \"%s\": %s[%d]", s, bname, line);
     }
 
+    fflush(NULL);
+
     return 0;
 }
-- 
2.43.0


From 30a63d8bdc52f7a113be9d37ed807cf6ad1f3682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 092/148] fix: running out of memory while logging recursed
 without end or took a lock twice

---
 src/libzt/zt_assert.c | 19 +++++++++++++++++++
 src/libzt/zt_log.c    | 20 +++++++++++++++-----
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_assert.c b/src/libzt/zt_assert.c
index dd74706..8a0a312 100644
--- a/src/libzt/zt_assert.c
+++ b/src/libzt/zt_assert.c
@@ -24,6 +24,17 @@
 #include "zt_cstr.h"
 #include "zt_assert.h"
 
+#if defined(__GNUC__)
+# define ASSERT_LOCAL static __thread
+#elif defined(_MSC_VER)
+# define ASSERT_LOCAL static __declspec(thread)
+#else
+# define ASSERT_LOCAL static
+#endif
+
+/* set while this thread logs an assertion */
+ASSERT_LOCAL int asserting = 0;
+
 void
 _zt_log_assertion(const char *s, const char *file, unsigned int line,
                   const char *func)
@@ -36,6 +47,13 @@ _zt_log_assertion(const char *s, const char *file, unsigned int line,
 
     (void)zt_cstr_basename(bname, PATH_MAX, file, NULL);
 
+    if (asserting) {
+        /* what is needed to log an assertion failed itself */
+        fprintf(stderr, "Assertion Failed: \"%s\": %s[%d]\n", s, bname, line);
+        return;
+    }
+    asserting = 1;
+
     if (func) {
         zt_log_printf(zt_log_err, "Assertion Failed: \"%s\": %s[%d:%s]", s, bname, line, func);
     } else {
@@ -44,6 +62,7 @@ _zt_log_assertion(const char *s, const char *file, unsigned int line,
 
     /* abort does not write what is still buffered */
     fflush(NULL);
+    asserting = 0;
 }
 
 int
diff --git a/src/libzt/zt_log.c b/src/libzt/zt_log.c
index 73bf7bf..8d527b2 100644
--- a/src/libzt/zt_log.c
+++ b/src/libzt/zt_log.c
@@ -90,6 +90,14 @@ zt_log_get_ctx(void) {
 static zt_log_ty *
 zt_log_get_logger(void) {
     if (!log_default_ptr) {
+        zt_log_ty * log;
+        int         lost = 1;
+
+        /* not done with the lock held: when it fails that is logged */
+        if ((log = zt_log_stderr(ZT_LOG_WITH_LEVEL)) == NULL) {
+            fprintf(stderr, "Could not allocate stderr for logging\n");
+            exit(1);
+        }
 #ifdef HAVE_PTHREADS
         pthread_mutex_lock(&log_mutex);
 #endif
@@ -97,16 +105,18 @@ zt_log_get_logger(void) {
          * around the default case of a logger being set
          */
         if (!log_default_ptr) {
-            if ((log_default_ptr = zt_log_stderr(ZT_LOG_WITH_LEVEL)) == NULL) {
-                fprintf(stderr, "Could not allocate stderr for logging\n");
-                exit(1);
-            }
+            log_default_ptr = log;
             forced = 1;
-            zt_atexit(log_atexit, log_default_ptr);
+            lost = 0;
         }
 #ifdef HAVE_PTHREADS
         pthread_mutex_unlock(&log_mutex);
 #endif
+        if (lost) {
+            zt_log_close(log);
+        } else {
+            zt_atexit(log_atexit, log);
+        }
     }
 
     return log_default_ptr;
-- 
2.43.0


From 9cb9d65c5710a872073ea839d05353197b86c287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 093/148] fix: the string splitting functions did not notice
 that they ran out of memory

---
 src/libzt/zt_cstr.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 030e70b..7ea4b92 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -939,10 +939,10 @@ zt_cstr_split(const char *str, const char *delim) {
 
     endptr      = NULL;
 
-    str_copy    = strdup(str);
+    str_copy    = zt_strdup(str);
 
     for (tok = strtok_r(str_copy, delim, &endptr); tok != NULL; tok = strtok_r(NULL, delim, &endptr)) {
-        if (zt_ptr_array_add(split_array, (void *)strdup(tok)) < 0) {
+        if (zt_ptr_array_add(split_array, (void *)zt_strdup(tok)) < 0) {
             zt_ptr_array_free(split_array, 1);
             free(str_copy);
             return NULL;
@@ -964,7 +964,7 @@ zt_cstr_cut(const char *str, const int delim, int keep_delim) {
         return NULL;
     }
 
-    cut_tok    = str_copy = strdup(str);
+    cut_tok    = str_copy = zt_strdup(str);
     keep_delim = keep_delim ? 1 : 0;
 
     while ((cut_tok = strchr(cut_tok, delim))) {
@@ -974,7 +974,7 @@ zt_cstr_cut(const char *str, const int delim, int keep_delim) {
             break;
         }
 
-        if (zt_ptr_array_add(cuts, (void *)strdup((char *)(cut_tok - keep_delim))) < 0) {
+        if (zt_ptr_array_add(cuts, (void *)zt_strdup((char *)(cut_tok - keep_delim))) < 0) {
             zt_ptr_array_free(cuts, 1);
             free(str_copy);
             return NULL;
@@ -996,7 +996,7 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
         return NULL;
     }
 
-    str_copy = strdup(str);
+    str_copy = zt_strdup(str);
 
     if (*str != '\0' && str[strlen(str) - 1] == delim) {
         str_copy[ strlen(str) - 1 ] = '\0';
@@ -1008,7 +1008,7 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
             break;
         }
 
-        if (zt_ptr_array_add(cuts, (void *)strdup(str_copy)) < 0) {
+        if (zt_ptr_array_add(cuts, (void *)zt_strdup(str_copy)) < 0) {
             zt_ptr_array_free(cuts, 1);
             free(str_copy);
             return NULL;
@@ -1017,7 +1017,7 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
         *cut_tok = '\0';
     }
 
-    zt_ptr_array_add(cuts, (void *)strdup(str_copy));
+    zt_ptr_array_add(cuts, (void *)zt_strdup(str_copy));
     free(str_copy);
 
     return cuts;
-- 
2.43.0


From 1df18a68fb7a8819346f3db0770f5dc5aa81c3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 094/148] fix: option texts that could not be copied were given
 as not set

---
 src/libzt/zt_opts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 6e10ad5..7cff274 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -294,7 +294,7 @@ zt_opt_string(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def,
     char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
     if (arg) {
-        *(char **)def[defn].cb_data = (void *)strdup(arg);
+        *(char **)def[defn].cb_data = (void *)zt_strdup(arg);
     }
 
     return args_consumed;
@@ -325,7 +325,7 @@ zt_opt_string_array(int argn, int defn, int * argc, char ** argv, zt_opt_def_t *
             exit(1);
         }
 
-        new_array[offt]             = strdup(arg);
+        new_array[offt]             = zt_strdup(arg);
         new_array[offt + 1]         = NULL;
 
         *(char***)def[defn].cb_data = new_array;
-- 
2.43.0


From 7f81c47b5e4dc5ddd4894e7e1ad70ccd083e5827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 095/148] fix: cfg functions did not notice that they ran out
 of memory

---
 src/libzt/zt_cfg/cfg_ini.c     | 10 +++++-----
 src/libzt/zt_cfg/cfg_private.c | 14 +++++++-------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index 0ec0bd7..5f9f7ee 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -41,7 +41,7 @@ zt_cfg_ini(char *file, int opts )
 {
     zt_cfg_ty *cfg = zt_cfg_new(&vtbl);
 
-    cfg->filename = strdup(file);
+    cfg->filename = zt_strdup(file);
     cfg->opts = opts;
     if (parse_cfg(cfg) < 0) {
         zt_cfg_priv_destructor(cfg);
@@ -95,7 +95,7 @@ static int parse_block(FILE* file, struct cfg_bvv_ty* bvv)
     }
 
     /* Otherwize we have a block name in buff */
-    bvv->block = strdup(buff);
+    bvv->block = zt_strdup(buff);
     if (bvv->block == NULL) {
         return -1;
     }
@@ -175,8 +175,8 @@ static int parse_line(FILE* file, struct cfg_bvv_ty* bvv)
         /* errno = EPROTO; */
         return 0;
     }
-    bvv->variable = strdup(var);
-    bvv->value = strdup(val);
+    bvv->variable = zt_strdup(var);
+    bvv->value = zt_strdup(val);
     return 1;
 } /* parse_line */
 
@@ -191,7 +191,7 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
     zt_assert(cfg);
     memset(&bvv, '\0', sizeof(struct cfg_bvv_ty));
     sprintf(block, "Global");    /* default blockname */
-    bvv.block = strdup(block);
+    bvv.block = zt_strdup(block);
 
     while ((c = fgetc(file)) != EOF) {
         switch (c) {
diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index efc8d2f..c9cbede 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -87,7 +87,7 @@ add_block(struct zt_cfg_ty* cfg, char* name)
     }
     if (!new) {
         new = zt_calloc(struct zt_cfg_block_ty, 1);
-        new->name = strdup(name);
+        new->name = zt_strdup(name);
         new->next = cfg->head;
         cfg->head = new;
     }
@@ -118,7 +118,7 @@ add_variable(struct zt_cfg_block_ty* block, char *name)
     }
     if (!new) {
         new = zt_calloc(struct zt_cfg_value_ty, 1);
-        new->name = strdup(name);
+        new->name = zt_strdup(name);
         new->next = block->head;
         block->head = new;
     }
@@ -159,9 +159,9 @@ get_type(char* value, void* nvalue)
             /* error  */
         }
         value[len] = '\0';
-        *(char **)nvalue = strdup(&value[1]);
+        *(char **)nvalue = zt_strdup(&value[1]);
     } else {
-        *(char **)nvalue = strdup(value);
+        *(char **)nvalue = zt_strdup(value);
     }
 
     return zt_cfg_string;
@@ -223,8 +223,8 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
 {
     struct cfg_bvv_ty bvv;
 
-    bvv.block = strdup(block_name);
-    bvv.variable = strdup(variable_name);
+    bvv.block = zt_strdup(block_name);
+    bvv.variable = zt_strdup(variable_name);
     bvv.value = NULL;
 
     switch (type) {
@@ -245,7 +245,7 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
             }
         /* FALLTHRU */
         case zt_cfg_string:
-            bvv.value = strdup(*(char **)var);
+            bvv.value = zt_strdup(*(char **)var);
             break;
         default:
             zt_log_printf(zt_log_err, "Unknown type in cfg variable list");
-- 
2.43.0


From 3669b749eda6b8f35647320ef146f7897282e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 096/148] fix: zt_log_lstrerror did not notice that it ran out
 of memory

---
 src/libzt/zt_log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_log.c b/src/libzt/zt_log.c
index 8d527b2..7574808 100644
--- a/src/libzt/zt_log.c
+++ b/src/libzt/zt_log.c
@@ -291,7 +291,7 @@ zt_log_lstrerror(zt_log_ty * log, zt_log_level level, int errnum, const char * f
     llen           = strlen(fmt);
 
 
-    nfmt           = (char*)malloc(llen + 256);
+    nfmt           = zt_malloc(char, llen + 256);
     memcpy(nfmt, fmt, llen);
     nfmt[llen]     = ':';
     nfmt[llen + 1] = ' ';
-- 
2.43.0


From c7cd457df995e3729ae05ff7a3985b8f8e52a9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 097/148] fix: pools and heaps crashed when memory ran out

---
 src/libzt/zt_mem.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index bd95a69..6752e6e 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -101,7 +101,10 @@ zt_mem_heap_init(char *name, size_t size)
         return NULL;
     }
 
-    heap->name = zt_mem_strdup(name ? name : "*unknown*");
+    if ((heap->name = zt_mem_strdup(name ? name : "*unknown*")) == NULL) {
+        GLOBAL_zmt.dealloc(heap);
+        return NULL;
+    }
     heap->size = size;
     return heap;
 }
@@ -213,7 +216,10 @@ zt_mem_pool_init(char *name, ssize_t elts,
 
     zt_elist_reset(&pool->pool_list);
 
-    pool->name = zt_mem_strdup(name ? name : "*unknown*");
+    if ((pool->name = zt_mem_strdup(name ? name : "*unknown*")) == NULL) {
+        GLOBAL_zmt.dealloc(pool);
+        return NULL;
+    }
     pool->rcache = elts;
     pool->ncache = pcache * epp;
     pool->pcache = pcache;
@@ -240,7 +246,10 @@ zt_mem_pool_init(char *name, ssize_t elts,
     if (npages > 0) {
         /* fill the cache */
         while (npages--) {
-            page = zt_mem_page_alloc(pool);
+            if ((page = zt_mem_page_alloc(pool)) == NULL) {
+                zt_mem_pool_destroy(&pool);
+                return NULL;
+            }
             zt_elist_add_tail(&pool->page_list, &page->page_list);
             pool->page_allocs++;
         }
@@ -264,8 +273,9 @@ zt_mem_pool_alloc(zt_mem_pool *pool)
     if (zt_elist_empty(&pool->free_elt_list) == 1) {
         /* alloc a new page */
         zt_mem_page *page;
-        page = zt_mem_page_alloc(pool);
-        /*  */
+        if ((page = zt_mem_page_alloc(pool)) == NULL) {
+            return NULL;
+        }
         zt_elist_add_tail(&pool->page_list, &page->page_list);
         pool->page_allocs++;
     }
@@ -631,7 +641,10 @@ zt_mem_set_init(char *name)
     zt_elist_reset(&set->set_list);
     zt_elist_reset(&set->elt_list);
 
-    set->name = zt_mem_strdup(name ? name : "*unknown*");
+    if ((set->name = zt_mem_strdup(name ? name : "*unknown*")) == NULL) {
+        GLOBAL_zmt.dealloc(set);
+        return NULL;
+    }
 
     return set;
 }
-- 
2.43.0


From a51b152ed7815c9ef86ec799081ba05865c6d1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 098/148] fix: zt_ipv4_tbl_init lost memory when its pools
 could not be made

---
 src/libzt/zt_ipv4_tbl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 4137c3a..614731b 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -97,6 +97,7 @@ zt_ipv4_tbl_init(uint32_t size)
     }
 
     if (!(tbl->pools = zt_mem_pool_group_init(pools, 3))) {
+        free(tbl);
         return NULL;
     }
 
-- 
2.43.0


From 1ab5a8c3eb3712936b9a02bc8714e126abf120e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 099/148] fix: thread pools crashed when memory ran out

---
 src/libzt/zt_threads.c | 44 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index 5d531c3..fcdebf1 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -397,7 +397,9 @@ zt_threadpool_insert_iput(zt_threadpool *tpool, void *data) {
     int                  i   = 0;
     int                  ret = 0;
 
-    entry       = calloc(sizeof(zt_threadpool_entry), 1);
+    if ((entry = calloc(sizeof(zt_threadpool_entry), 1)) == NULL) {
+        return -1;
+    }
     entry->data = data;
 
     zt_threads_lock(0, tpool->iput_mutex);
@@ -422,7 +424,9 @@ zt_threadpool_insert_oput(zt_threadpool *tpool, void *data) {
     int                  i   = 0;
     int                  ret = 0;
 
-    entry       = calloc(sizeof(zt_threadpool_entry), 1);
+    if ((entry = calloc(sizeof(zt_threadpool_entry), 1)) == NULL) {
+        return -1;
+    }
     entry->data = data;
 
     zt_threads_lock(0, tpool->oput_mutex);
@@ -567,7 +571,9 @@ zt_threadpool_init(int min_threads, int max_threads, int pipe_iput, int pipe_opu
     zt_threadpool *tpool;
 
 
-    tpool               = calloc(sizeof(zt_threadpool), 1);
+    if ((tpool = calloc(sizeof(zt_threadpool), 1)) == NULL) {
+        return NULL;
+    }
     tpool->min_threads  = min_threads;
     tpool->max_threads  = max_threads;
     tpool->thread_count = min_threads;
@@ -607,8 +613,40 @@ zt_threadpool_init(int min_threads, int max_threads, int pipe_iput, int pipe_opu
         tpool->oput_threads = calloc(sizeof(zt_threads_thread *), min_threads);
     }
 
+    if (!tpool->iput_threads || (_zt_threadpool_cbs.oput_loop && !tpool->oput_threads) ||
+        (_zt_threads_lock_cbs.alloc && !(tpool->iput_mutex && tpool->oput_mutex)) ||
+        (_zt_threads_cond_cbs.alloc && !(tpool->iput_cond && tpool->oput_cond))) {
+        goto FAIL;
+    }
+
     TAILQ_INIT(&tpool->iput_queue);
     TAILQ_INIT(&tpool->oput_queue);
 
     return tpool;
+
+FAIL:
+    if (tpool->iput_mutex) {
+        zt_threads_free_lock(tpool->iput_mutex, 0);
+    }
+    if (tpool->oput_mutex) {
+        zt_threads_free_lock(tpool->oput_mutex, 0);
+    }
+    if (tpool->iput_cond) {
+        zt_threads_cond_free(tpool->iput_cond);
+    }
+    if (tpool->oput_cond) {
+        zt_threads_cond_free(tpool->oput_cond);
+    }
+    if (pipe_iput) {
+        close(tpool->iput_fd_sigs[0]);
+        close(tpool->iput_fd_sigs[1]);
+    }
+    if (pipe_oput) {
+        close(tpool->oput_fd_sigs[0]);
+        close(tpool->oput_fd_sigs[1]);
+    }
+    free(tpool->iput_threads);
+    free(tpool->oput_threads);
+    free(tpool);
+    return NULL;
 } /* zt_threadpool_init */
-- 
2.43.0


From d6b9950dac6176db9f18a9cc68ba5baebede1b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 100/148] fix: zt_set_insert counted elements that could not be
 inserted

---
 src/libzt/zt_set.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index e12da02..3152239 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -88,8 +88,12 @@ zt_set_insert(zt_set *set, const void *data, size_t len)
         return 1;
     }
 
+    if (zt_table_set(set->tbl, (void *)data, len, (void *)data, len) != 0) {
+        return -1;
+    }
+
     set->length++;
-    return zt_table_set(set->tbl, (void *)data, len, (void *)data, len);
+    return 0;
 }
 
 struct _find_data {
-- 
2.43.0


From c962f47f293fc59f691a6753241ff8440b8707e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 101/148] fix: tables and sets crashed when memory ran out

---
 src/libzt/zt_set.c   |  5 ++++-
 src/libzt/zt_table.c | 15 +++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index 3152239..205c2b9 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -49,7 +49,10 @@ zt_set_init(int (*match)(const void *key1, size_t key1_size,
 
     set = zt_malloc(zt_set, 1);
 
-    set->tbl = zt_table_init(NULL, _hash_for(match), match, 128, 0, cdata);
+    if ((set->tbl = zt_table_init(NULL, _hash_for(match), match, 128, 0, cdata)) == NULL) {
+        zt_free(set);
+        return NULL;
+    }
     set->match = match;
     set->destroy = destroy;
     set->length = 0;
diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 4ee08b3..cb6eebf 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -120,7 +120,10 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
     table->nbits = nbits(nbuckets - 1);
     nbuckets = (size_t)1 << table->nbits;
 
-    table->table_heap = zt_mem_heap_init(0, nbuckets * sizeof(struct table_node *));
+    if ((table->table_heap = zt_mem_heap_init(0, nbuckets * sizeof(struct table_node *))) == NULL) {
+        zt_mem_pool_release((void **)&table);
+        return NULL;
+    }
 
     table->buckets = zt_mem_heap_get_data(table->table_heap);
     memset(table->buckets, 0, nbuckets * sizeof(struct table_node *));
@@ -135,6 +138,12 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
     snprintf(tname, sizeof_array(tname), "%s (table node pool)", name);
     table->node_pool = zt_mem_pool_init(tname, nbuckets,
                                         sizeof(struct table_node), NULL, NULL, 0);
+    if (table->node_pool == NULL) {
+        zt_free(table->name);
+        zt_mem_heap_destroy(&table->table_heap);
+        zt_mem_pool_release((void **)&table);
+        return NULL;
+    }
 
     table->num_buckets = nbuckets;
     table->cmp = cmp;
@@ -190,7 +199,9 @@ zt_table_set(zt_table *h, const void *key, size_t key_len, const void *datum, si
         }
     }
 
-    node = (struct table_node *)zt_mem_pool_alloc(h->node_pool);
+    if ((node = (struct table_node *)zt_mem_pool_alloc(h->node_pool)) == NULL) {
+        return -1;
+    }
 
     node->next = h->buckets[nkey];
     node->hash_key = skey;
-- 
2.43.0


From 460f1a1d4e6b9075db305d519bd4737428d7ccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 102/148] fix: zt_buf_add_buf and zt_buf_iov_add lost data when
 memory ran out

---
 src/libzt/zt_buf.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_buf.c b/src/libzt/zt_buf.c
index 6f748f8..d3f43ca 100644
--- a/src/libzt/zt_buf.c
+++ b/src/libzt/zt_buf.c
@@ -112,7 +112,9 @@ zt_buf_add(zt_buf_t * b, void * data, size_t len) {
 
 int
 zt_buf_add_buf(zt_buf_t * a, zt_buf_t * b) {
-    zt_buf_add(a, b->buf, b->len);
+    if (zt_buf_add(a, b->buf, b->len) < 0) {
+        return -1;
+    }
     zt_buf_drain(b, b->len);
     return 0;
 }
@@ -158,7 +160,9 @@ zt_buf_iov_add(zt_buf_t * b, zt_iov_t * vec, int n_vec) {
     size_t tlen;
 
     tlen = zt_buf_iov_len(vec, n_vec);
-    zt_buf_reserve(b, tlen);
+    if (zt_buf_reserve(b, tlen) < 0) {
+        return -1;
+    }
 
     for (i = 0; i < n_vec; i++) {
         zt_buf_add(b, vec[i].iov_data, vec[i].iov_len);
-- 
2.43.0


From 16da693a6e614cc4d93a076ddfa10ae3215f59dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 103/148] fix: a network that could not be added to an ipv4
 table was lost with the pools

---
 src/libzt/zt_ipv4_tbl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 614731b..c362d29 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -274,6 +274,8 @@ zt_ipv4_tbl_add_frm_str(zt_ipv4_tbl * tbl, const char *netstr)
     }
 
     if (zt_ipv4_tbl_add_node(tbl, ipv4_node)) {
+        zt_mem_pool_release((void **)&ipv4_node->addr);
+        zt_mem_pool_release((void **)&ipv4_node);
         return NULL;
     }
 
-- 
2.43.0


From e3424dcc1644e742cc6fbe4c13e3633e466828fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 104/148] fix: threads of a pool that could not be started were
 waited for

---
 src/libzt/zt_threads.c | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index fcdebf1..7e601fe 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -473,27 +473,47 @@ zt_threadpool_get_oput(zt_threadpool *tpool) {
     return data;
 }
 
+/* returns NULL if there is no such thread to wait for */
+static zt_threads_thread *
+_zt_threadpool_start_thread(zt_threadpool *tpool, void *(*loop)(void *)) {
+    zt_threads_thread *thread;
+
+    if ((thread = zt_threads_alloc_thread()) == NULL) {
+        return NULL;
+    }
+
+    if (zt_threads_start(thread, NULL, loop, (void*)tpool)) {
+        free(thread);
+        return NULL;
+    }
+
+    return thread;
+}
+
 int
 zt_threadpool_start(zt_threadpool *tpool) {
     int i;
+    int ret = 0;
 
     if (_zt_threadpool_cbs.iput_loop) {
         for (i = 0; i < tpool->min_threads; i++) {
-            tpool->iput_threads[i] = zt_threads_alloc_thread();
-            zt_threads_start(tpool->iput_threads[i], NULL,
-                             _zt_threadpool_cbs.iput_loop, (void*)tpool);
+            tpool->iput_threads[i] = _zt_threadpool_start_thread(tpool, _zt_threadpool_cbs.iput_loop);
+            if (tpool->iput_threads[i] == NULL) {
+                ret = -1;
+            }
         }
     }
 
     if (_zt_threadpool_cbs.oput_loop) {
         for (i = 0; i < tpool->min_threads; i++) {
-            tpool->oput_threads[i] = zt_threads_alloc_thread();
-            zt_threads_start(tpool->oput_threads[i], NULL,
-                             _zt_threadpool_cbs.oput_loop, (void*)tpool);
+            tpool->oput_threads[i] = _zt_threadpool_start_thread(tpool, _zt_threadpool_cbs.oput_loop);
+            if (tpool->oput_threads[i] == NULL) {
+                ret = -1;
+            }
         }
     }
 
-    return 0;
+    return ret;
 }
 
 int
@@ -533,7 +553,7 @@ zt_threadpool_kill(zt_threadpool *tpool) {
     zt_threads_unlock(0, tpool->iput_mutex);
 
     for (i = 0; i < tpool->min_threads; i++) {
-        if (_zt_threadpool_cbs.iput_loop) {
+        if (_zt_threadpool_cbs.iput_loop && tpool->iput_threads[i]) {
             zt_threads_join(tpool->iput_threads[i], NULL);
         }
     }
@@ -546,7 +566,7 @@ zt_threadpool_kill(zt_threadpool *tpool) {
     zt_threads_unlock(0, tpool->oput_mutex);
 
     for (i = 0; i < tpool->min_threads; i++) {
-        if (_zt_threadpool_cbs.oput_loop) {
+        if (_zt_threadpool_cbs.oput_loop && tpool->oput_threads[i]) {
             zt_threads_join(tpool->oput_threads[i], NULL);
         }
     }
-- 
2.43.0


From f174edc11619658b079569118ab1013632e8fdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 105/148] fix: hex dumps of more than 4 GiB repeated their
 addresses

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 7ea4b92..de9422c 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -766,7 +766,7 @@ zt_hexdump(int _getchar(void *), void * data, zt_hexdump_output output, void * o
     size_t    bytes = 0;
     size_t    hpos = 0, cpos = 0;
     int       c = 0;
-    uint32_t  addr = 0L;
+    size_t    addr = 0L;
     size_t    _addr = 0L;
     char      _txt[16+1];
     char      _hex[(16*3)+3];
-- 
2.43.0


From 95aac326bdd0806123217a2a67f6799bb6a8d013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:10 +0000
Subject: [PATCH 106/148] fix: calibrating the timing overhead always gave zero

---
 src/libzt/zt_time.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_time.c b/src/libzt/zt_time.c
index 1b8dd21..36b40e9 100644
--- a/src/libzt/zt_time.c
+++ b/src/libzt/zt_time.c
@@ -103,7 +103,13 @@ static struct time_result _calibration_time = { { 0, 0 }, { 0, 0 } };
 void
 zt_time_calibrate(void)
 {
-    zt_time(0, &_calibration_time, NULL, NULL);
+    struct time_result none = { { 0, 0 }, { 0, 0 } };
+    struct time_result overhead = none;
+
+    /* the overhead itself is measured without any calibration */
+    _calibration_time = none;
+    zt_time(0, &overhead, NULL, NULL);
+    _calibration_time = overhead;
 }
 
 /*!
-- 
2.43.0


From 2d58686cc31ff4227c132151cab3143b0ab1213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:56 +0000
Subject: [PATCH 107/148] fix: the line number of a cfg syntax error counted
 indented lines twice

---
 src/libzt/zt_cfg/cfg_ini.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index 5f9f7ee..53350cf 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -221,7 +221,7 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
             /* FALL-TRHU */
             case '\t': /* whitespace */
                 cfg_discard_whitespace(file);
-                break;
+                continue;  /* still on the same line */
             default:
                 ungetc(c, file);
                 if (!(parse_line(file, &bvv))) {
-- 
2.43.0


From 6f004a84160fd8c9beefbad0c376476dff600529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:22 +0000
Subject: [PATCH 108/148] fix: the library did not compile with assertions
 enabled

---
 src/libzt/zt_log.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_log.h b/src/libzt/zt_log.h
index edcfaa4..c0a062c 100644
--- a/src/libzt/zt_log.h
+++ b/src/libzt/zt_log.h
@@ -14,6 +14,14 @@
 #define _ZT_LOG_H_
 
 #include <stdarg.h>
+
+/* zt.h has inline functions that use this */
+#if (!defined(__STRICT_ANSI__) || __STRICT_ANSI__ == 0)
+# define ZT_LOG_FUNCTION __FUNCTION__
+#else
+# define ZT_LOG_FUNCTION ""
+#endif
+
 #include <zt.h>
 
 #define ZT_LOG_RAW           0
@@ -24,11 +32,6 @@
 #define ZT_LOG_WITH_PID      16
 #define ZT_LOG_EMU_SYSLOG    (ZT_LOG_WITH_DATE | ZT_LOG_WITH_SYSNAME | ZT_LOG_WITH_PROGNAME | ZT_LOG_WITH_PID)
 
-#if (!defined(__STRICT_ANSI__) || __STRICT_ANSI__ == 0)
-# define ZT_LOG_FUNCTION __FUNCTION__
-#else
-# define ZT_LOG_FUNCTION ""
-#endif
 BEGIN_C_DECLS
 
 enum zt_log_level {
-- 
2.43.0


From 2142a3771c073c2b10039ccef9a1506a45d0ce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:22 +0000
Subject: [PATCH 109/148] fix: with assertions, a base 62 UUID could not be
 printed into a larger buffer

---
 src/libzt/zt_uuid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index edc3cfb..b45d3fc 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -214,7 +214,7 @@ _zt_uuid_fillstr(zt_uuid_t* uuid, char* uuids, size_t uuids_size, zt_uuid_flags_
         int      ok2 = 0;
 
         /* extract the 2 64 bit numbers in the uuid */
-        zt_assert(uuids_size <= UUID_BASE62_STR_LEN + 1);
+        zt_assert(uuids_size >= UUID_BASE62_STR_LEN + 1);
 
         for (i = 0; i < 8; i++) {
             const int shift = (7 - i) * 8;
-- 
2.43.0


From c76e9285731d84241099dd552a1f47d47b9049d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:21 +0000
Subject: [PATCH 110/148] fix: threads logging at once could print each other's
 date

---
 src/libzt/zt_log/log_private.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_log/log_private.c b/src/libzt/zt_log/log_private.c
index 59036ff..8be703a 100644
--- a/src/libzt/zt_log/log_private.c
+++ b/src/libzt/zt_log/log_private.c
@@ -86,8 +86,17 @@ zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, c
     if (opts & ZT_LOG_WITH_DATE) {
         char   sbuf[255];
         time_t tt = time(NULL);
+#ifdef WIN32
+        struct tm * tm = localtime(&tt);           /* one per thread */
+#else
+        struct tm   tmbuf;
+        struct tm * tm;
+
+        tzset();
+        tm   = localtime_r(&tt, &tmbuf);
+#endif
 
-        len += strftime(sbuf, 254, "%b %d %H:%M:%S ", localtime(&tt));
+        len += strftime(sbuf, 254, "%b %d %H:%M:%S ", tm);
 
         buff = zt_realloc(char, buff, len);
         sprintf(buff, "%s", sbuf);
-- 
2.43.0


From c27e74ecc81eed4fed5c6fb17b8bd2d2c181d2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:36 +0000
Subject: [PATCH 111/148] fix: indentation by a computed step used a part of it
 only

---
 src/libzt/zt_macros.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_macros.h b/src/libzt/zt_macros.h
index c1effd1..bf1bae6 100644
--- a/src/libzt/zt_macros.h
+++ b/src/libzt/zt_macros.h
@@ -134,7 +134,7 @@ BEGIN_C_DECLS
  * Description: injects padding into a print statement
  * Exmaple: printf(BLANK "-a, --alpha" NL, INDENT_PATH(3, 5, 0))
  */
-#define INDENT_PAD(lvl, step, pad) ((int)(((lvl) * step) + (pad))), ""
+#define INDENT_PAD(lvl, step, pad) ((int)(((lvl) * (step)) + (pad))), ""
 
 /************ Apply Macros ************/
 
-- 
2.43.0


From 778807b550b58cc19d8791cd1f84a7143f4559f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:27 +0000
Subject: [PATCH 112/148] fix: the SHA-1 digest of 4 GB or more given at once
 was wrong or never ended

---
 src/libzt/zt_sha1.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index d5649c1..23907ee 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -112,6 +112,8 @@ zt_sha1_init(zt_sha1_ctx *ctx)
     ctx->count[0] = ctx->count[1] = 0;
 }
 
+#define SHA1_MAX_STEP ((size_t)1 << 30)
+
 void
 zt_sha1_update(zt_sha1_ctx *ctx, uint8_t *data, size_t len)
 {
@@ -119,8 +121,12 @@ zt_sha1_update(zt_sha1_ctx *ctx, uint8_t *data, size_t len)
     uint32_t      j;
     uint32_t      llen;
 
-    /* FIXME: 64bit (or better unbounded) sha1_update */
-    zt_assert(len <= UINT_MAX-1);
+    /* the arithmetic below is done in 32 bits */
+    while (len > SHA1_MAX_STEP) {
+        zt_sha1_update(ctx, data, SHA1_MAX_STEP);
+        data += SHA1_MAX_STEP;
+        len  -= SHA1_MAX_STEP;
+    }
     llen = (uint32_t)len;
 
     j = (ctx->count[0] >> 3) & 63;
-- 
2.43.0


From 2ace550089604a28f152d84ab7707e5de7d97b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 113/148] fix: set operations that ran out of memory reported
 success with elements missing

---
 src/libzt/zt_set.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index 205c2b9..607e9db 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -145,8 +145,7 @@ static int _union(void *key UNUSED, size_t key_len, void *datum, size_t datum_le
     p = (struct _set_pair *)param;
 
     /* already being a member is no reason to stop */
-    zt_set_insert(p->s2, datum, datum_len);
-    return 0;
+    return zt_set_insert(p->s2, datum, datum_len) < 0 ? -1 : 0;
 }
 
 int zt_set_union(zt_set *setu, const zt_set *set1, const zt_set *set2)
@@ -155,10 +154,11 @@ int zt_set_union(zt_set *setu, const zt_set *set1, const zt_set *set2)
 
     s.s2 = setu;
 
-    zt_table_for_each(set1->tbl, _union, &s);
-    zt_table_for_each(set2->tbl, _union, &s);
+    if (zt_table_for_each(set1->tbl, _union, &s) != 0) {
+        return -1;
+    }
 
-    return 0;
+    return zt_table_for_each(set2->tbl, _union, &s);
 }
 
 static int _intersect(void *key UNUSED, size_t key_len, void *datum, size_t datum_len, void *param)
@@ -168,7 +168,7 @@ static int _intersect(void *key UNUSED, size_t key_len, void *datum, size_t datu
     p = (struct _set_pair *)param;
 
     if (zt_set_is_member(p->s1, datum, datum_len)) {
-        zt_set_insert(p->s2, datum, datum_len);
+        return zt_set_insert(p->s2, datum, datum_len) < 0 ? -1 : 0;
     }
     return 0;
 }
@@ -190,7 +190,7 @@ static int _difference(void *key UNUSED, size_t key_len, void *datum, size_t dat
     p = (struct _set_pair *)param;
 
     if (!zt_set_is_member(p->s1, datum, datum_len)) {
-        zt_set_insert(p->s2, datum, datum_len);
+        return zt_set_insert(p->s2, datum, datum_len) < 0 ? -1 : 0;
     }
     return 0;
 }
-- 
2.43.0


From 3be24acf26db05a03ba31841d4a589d716176758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 114/148] fix: copying a table reported success when it ran out
 of memory

---
 src/libzt/zt_table.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index cb6eebf..d62df53 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -286,7 +286,9 @@ zt_table_copy(zt_table *t1, zt_table *t2)
         while (node) {
             any = 1;
             /* if(!table_get(t2, node->key)) { */
-            zt_table_set(t2, node->key, node->key_len, node->datum, node->datum_len);
+            if (zt_table_set(t2, node->key, node->key_len, node->datum, node->datum_len) < 0) {
+                return -1;
+            }
             node = node->next;
         }
     }
-- 
2.43.0


From 7f526d2d5b2be86af59cac39ce22eadac2fe08e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:25 +0000
Subject: [PATCH 115/148] fix: resizing a pointer array beyond its largest size
 was not refused

---
 src/libzt/zt_ptr_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index fa3ec50..b7182a9 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -56,7 +56,7 @@ zt_ptr_array_resize(zt_ptr_array * array, int32_t expand) {
         size = expand;
     }
 
-    if ((array->size + size) < array->size) {
+    if (size < 0 || size > INT32_MAX - array->size) {
         /* error on overflow */
         return -1;
     }
-- 
2.43.0


From c29b111e6bc5ad1067e225a384885528943fd224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:35 +0000
Subject: [PATCH 116/148] fix: a forked child repeated the random UUIDs of its
 parent

---
 src/libzt/zt_uuid.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index b45d3fc..f74bdfd 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -46,6 +46,13 @@ make_ctx_key(void) {
 #  define CTX_STATIC static
 #endif /* not HAVE_PTHREADS */
 
+/* the generator of a thread and the process it was seeded in: a forked child
+ * starts with the contexts of its parent and must not continue their sequences */
+struct uuid4_ctx {
+    zt_random_state state;
+    pid_t           pid;
+};
+
 /* every context gets a seed of its own: contexts created in the same second,
  * by another thread or another process, must not share a sequence */
 static void
@@ -72,24 +79,28 @@ seed_ctx(zt_random_state * state) {
 
 zt_random_state *
 zt_uuid4_get_ctx(void) {
-    CTX_STATIC zt_random_state * state = NULL;
+    CTX_STATIC struct uuid4_ctx * ctx = NULL;
 
-    if (!state) {
+    if (!ctx) {
 #ifdef HAVE_PTHREADS
         (void)pthread_once(&ctx_key_once, make_ctx_key);
-        if((state = pthread_getspecific(ctx_key)) == NULL) {
+        if((ctx = pthread_getspecific(ctx_key)) == NULL) {
 #endif /* HAVE_PTHREADS */
-            if((state = zt_calloc(zt_random_state, 1)) == NULL) {
+            if((ctx = zt_calloc(struct uuid4_ctx, 1)) == NULL) {
                 zt_log_printf(zt_log_err, "Could not allocate memory for uuid4 context");
                 exit(1);
             }
-            seed_ctx(state);
 #ifdef HAVE_PTHREADS
-        pthread_setspecific(ctx_key, state);
+        pthread_setspecific(ctx_key, ctx);
         }
 #endif /* HAVE_PTHREADS */
     }
-    return state;
+
+    if (ctx->pid != getpid()) {
+        seed_ctx(&ctx->state);
+        ctx->pid = getpid();
+    }
+    return &ctx->state;
 }
 
 int
-- 
2.43.0


From 27c120cfa4adcdeeab8d7d65239a413da9bf9f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:19 +0000
Subject: [PATCH 117/148] fix: a daemon kept descriptors above a lowered limit
 open

---
 src/libzt/zt_daemon.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libzt/zt_daemon.c b/src/libzt/zt_daemon.c
index 7c2938b..f7387b6 100644
--- a/src/libzt/zt_daemon.c
+++ b/src/libzt/zt_daemon.c
@@ -25,6 +25,9 @@
 #include <errno.h>
 #include <string.h>
 #include <limits.h>
+#ifdef __linux__
+#include <sys/syscall.h>
+#endif
 
 #include "zt_internal.h"
 #include "zt_log.h"
@@ -71,6 +74,12 @@ zt_daemonize( char *root, mode_t mask, int options UNUSED)
             }
             close((int)i);
         }                                                  /* Close all of the filehandles */
+#ifdef SYS_close_range
+        /* those opened before the limit was lowered are above it */
+        if (rlimits.rlim_cur <= INT_MAX) {
+            (void)syscall(SYS_close_range, (unsigned int)rlimits.rlim_cur, ~0U, 0);
+        }
+#endif /* SYS_close_range */
 
         if ((pid2 = fork()) == (pid_t)(-1)) {
             /* We can't produce an error here as we have already
-- 
2.43.0


From 849348ec9bc47e3911c919e1e0c1ad7d0a43c94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:19 +0000
Subject: [PATCH 118/148] fix: file loggers lost messages when the process died
 and repeated them after a fork

---
 src/libzt/zt_log/log_file.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libzt/zt_log/log_file.c b/src/libzt/zt_log/log_file.c
index b1f5709..1bf3c14 100644
--- a/src/libzt/zt_log/log_file.c
+++ b/src/libzt/zt_log/log_file.c
@@ -56,6 +56,9 @@ print(zt_log_ty * log, zt_log_level level, const char * file, int line, const ch
 #endif /* WITH_THREADS */
 
     vfprintf(this->file, nfmt, ap);
+    /* what is still buffered is lost if the process dies and written again by
+     * every child it forks */
+    fflush(this->file);
 
 #ifdef WITH_THREADS
     pthread_mutex_unlock(&log->mutex);
-- 
2.43.0


From 457f0900c44077d5fd7d8395a7ed02d8c1ea7daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:21 +0000
Subject: [PATCH 119/148] fix: setting the program name to its own name lost it

---
 src/libzt/zt_progname.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index 8ba0a14..a216af7 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -39,12 +39,15 @@ char *
 zt_progname(const char *name, int opts)
 {
     if (name && *name != '\0') {
-        memset(_progname, '\0', PATH_MAX);
+        /* name may be (part of) the current name */
+        char result[PATH_MAX+1] = "";
+
         if (opts == STRIP_DIR) {
-            zt_cstr_basename(_progname, PATH_MAX, name, NULL);
+            zt_cstr_basename(result, PATH_MAX, name, NULL);
         } else {
-            memcpy(_progname, name, MIN(PATH_MAX, strlen(name)));
+            memcpy(result, name, MIN(PATH_MAX, strlen(name)));
         }
+        memcpy(_progname, result, sizeof(_progname));
     }
     return _progname;
 }
-- 
2.43.0


From 773907c1ebcb8adcda749230a38263b4774872fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:48 +0000
Subject: [PATCH 120/148] fix: searching for a character given as an unsigned
 char never found it

zt_cstr_chr and zt_cstr_rchr compared the int with a char, so bytes above
127 were only found when passed sign extended, unlike with strchr.
---
 src/libzt/zt_cstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index de9422c..61ca9bf 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -353,7 +353,7 @@ zt_cstr_chr(const char *s, ssize_t i, ssize_t j, int c) {
 
     CONVERT(s, i, j);
     for (; i <= j; i++) {
-        if (s[i] == c) {
+        if (s[i] == (char)c) {
             return (size_t)i;
         }
     }
@@ -369,7 +369,7 @@ zt_cstr_rchr(const char *s, ssize_t i, ssize_t j, int c) {
 
     CONVERT(s, i, j);
     for (; j >= i; j--) {
-        if (s[j] == c) {
+        if (s[j] == (char)c) {
             return j;
         }
     }
-- 
2.43.0


From d2b5401f811068aa384b46c0dca4471899b77cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:48 +0000
Subject: [PATCH 121/148] fix: upto and rupto found the terminator of an empty
 string

---
 src/libzt/zt_cstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 61ca9bf..1153d94 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -388,7 +388,7 @@ zt_cstr_upto(const char *s, ssize_t i, ssize_t j, const char *set) {
     CONVERT(s, i, j);
 
     for (; i <= j; i++) {
-        if (strchr(set, s[i])) {
+        if (s[i] != '\0' && strchr(set, s[i])) {
             return i;
         }
     }
@@ -406,7 +406,7 @@ zt_cstr_rupto(const char *s, ssize_t i, ssize_t j, const char *set) {
 
     CONVERT(s, i, j);
     for (; j >= i; j--) {
-        if (strchr(set, s[j])) {
+        if (s[j] != '\0' && strchr(set, s[j])) {
             return j;
         }
     }
-- 
2.43.0


From 1933b3c5cd7a29a1ec0a9468dbdb0dec979ea65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:09 +0000
Subject: [PATCH 122/148] fix: a final delimiter given as an unsigned char was
 not ignored when tokenising

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 1153d94..b47df8b 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -998,7 +998,7 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
 
     str_copy = zt_strdup(str);
 
-    if (*str != '\0' && str[strlen(str) - 1] == delim) {
+    if (*str != '\0' && str[strlen(str) - 1] == (char)delim) {
         str_copy[ strlen(str) - 1 ] = '\0';
     }
 
-- 
2.43.0


From 2e689e4aafafaa0c790d0a40f9ff304483af6a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:20 +0000
Subject: [PATCH 123/148] fix: an offset of -1, as from a failed conversion,
 wrote before the buffer

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index b47df8b..aaa8ddf 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -1032,7 +1032,7 @@ ssize_t zt_cstr_itoa(char *s, int value, size_t offset, size_t bufsiz)
 
     result = loc = offset + zt_cstr_int_display_len(value);
 
-    if ((s == NULL) || (loc >= bufsiz)) {
+    if ((s == NULL) || (loc < offset) || (loc >= bufsiz)) {
         return -1;
     }
 
-- 
2.43.0


From eb6405be55e776d7a5aaafce349f492b8d75d70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:20 +0000
Subject: [PATCH 124/148] fix: appending a path of separators only doubled the
 separator

---
 src/libzt/zt_cstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index aaa8ddf..8879f53 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -687,12 +687,12 @@ zt_cstr_path_append(const char *path1, const char *path2) {
 
     if (y == 0 && strncmp(path1, PATH_SEPERATOR, sep_len) == 0) {
         /* the root already ends in a seperator */
-        return zt_cstr_catv(path1, 0, y, path2, x, -1, NULL);
+        return zt_cstr_catv(path1, 0, y, &path2[x], 0, -1, NULL);
     }
 
     rpath = zt_cstr_catv(path1, 0, y,
                          PATH_SEPERATOR, 0, -1,
-                         path2, x, -1, NULL);
+                         &path2[x], 0, -1, NULL);
     return rpath;
 }
 
-- 
2.43.0


From d9841175d9be91368916410e9e10e06426beb0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:38 +0000
Subject: [PATCH 125/148] fix: the base name of a path with a trailing
 separator was the separator

---
 src/libzt/zt_cstr.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 8879f53..f3138b8 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -598,32 +598,48 @@ zt_cstr_rcspn(const char *s, const char *reject) {
     return len;
 }
 
+/* the length of path without the seperators which end it */
+static size_t
+path_trim(const char *path, size_t len) {
+    const size_t sep_len = strlen(PATH_SEPERATOR);
+
+    while (len >= sep_len && strncmp(&path[len - sep_len], PATH_SEPERATOR, sep_len) == 0) {
+        len -= sep_len;
+    }
+    return len;
+}
+
 char*
 zt_cstr_basename(char *npath, size_t len, const char *path, const char *suffix) {
     ssize_t   start;
     ssize_t   end;
+    size_t    plen;
 
     zt_assert(npath);
     zt_assert(path);
 
     memset(npath, '\0', len);
 
-    if ((start = zt_cstr_rfind(path, 0, -1, PATH_SEPERATOR)) != -1) {
+    plen = path_trim(path, strlen(path));
+    if (plen == 0) {
+        /* nothing but seperators is the root */
+        zt_cstr_copy(*path ? PATH_SEPERATOR : "", 0, -1, npath, len ? len - 1 : 0);
+        return npath;
+    }
+
+    if ((start = zt_cstr_rfind(path, 0, plen - 1, PATH_SEPERATOR)) != -1) {
         start = start + strlen(PATH_SEPERATOR);
     } else {
         start = 0;
     }
 
+    end = plen - 1;
     if (suffix) {
-        const size_t plen = strlen(path);
         const size_t slen = strlen(suffix);
 
-        end = -1;
-        if (slen > 0 && plen - start > slen && strcmp(&path[plen - slen], suffix) == 0) {
+        if (slen > 0 && plen - start > slen && strncmp(&path[plen - slen], suffix, slen) == 0) {
             end = plen - slen - 1;
         }
-    } else {
-        end = -1;
     }
 
     zt_cstr_copy(path, start, end, npath, len ? len - 1 : 0);
-- 
2.43.0


From 8a70a7d5e719052d23c60554ced168dc6fa62dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:38 +0000
Subject: [PATCH 126/148] fix: repeated separators were left in the parent of a
 path or taken for a component

---
 src/libzt/zt_cstr.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index f3138b8..997eb6b 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -650,7 +650,7 @@ zt_cstr_basename(char *npath, size_t len, const char *path, const char *suffix)
 char *
 zt_cstr_dirname(char *npath, size_t len, const char *path) {
     ssize_t    end    = -1;
-    ssize_t    ps_len = 0;
+    size_t     plen;
 
     zt_assert(npath);
     zt_assert(path);
@@ -658,24 +658,22 @@ zt_cstr_dirname(char *npath, size_t len, const char *path) {
     memset(npath, '\0', len);
 
     /* if the end of the path is the PATH_SEPERATOR then skip over it */
-    ps_len = strlen(PATH_SEPERATOR);
-    if (*path == '\0' || strcmp(path, PATH_SEPERATOR) == 0) {
-        zt_cstr_copy(*path ? path : ".", 0, -1, npath, len ? len - 1 : 0);
+    plen = path_trim(path, strlen(path));
+    if (plen == 0) {
+        zt_cstr_copy(*path ? PATH_SEPERATOR : ".", 0, -1, npath, len ? len - 1 : 0);
         return npath;
     }
-    if (strcmp(&path[strlen(path) - ps_len], PATH_SEPERATOR) == 0) {
-        end = end - ps_len;
-    }
 
-    if ((end = zt_cstr_rfind(path, 0, end, PATH_SEPERATOR)) == -1) {
+    if ((end = zt_cstr_rfind(path, 0, plen - 1, PATH_SEPERATOR)) == -1) {
         /* there is no path seperator */
         zt_cstr_copy(".", 0, -1, npath, len ? len - 1 : 0);
         return npath;
-    } else if (end > 0) {
-        /* otherwise the parent is the root itself */
-        end = end - 1;
     }
 
+    /* a path of which nothing is left is the root itself */
+    plen = path_trim(path, end);
+    end  = plen > 0 ? (ssize_t)plen - 1 : 0;
+
     zt_cstr_copy(path, 0, end, npath, len ? len - 1 : 0);
     return npath;
 }
-- 
2.43.0


From 52d60644c8edcd83400c6630127a42150d242bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:18 +0000
Subject: [PATCH 127/148] fix: base62 text of more than 64 bits was parsed as
 some other identifier

---
 src/libzt/zt_uuid.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index f74bdfd..5071bd7 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -563,7 +563,10 @@ base62_decode_int64(const char * in, size_t ilen, uint64_t * out) {
             return -1; /* invalid character */
         }
 
-        v += n * (uint64_t)(powl(62, tlen - i - 1));
+        if (v > (UINT64_MAX - n) / 62) {
+            return -1; /* more than 64 bits */
+        }
+        v = v * 62 + n;
     }
 
     *out = v;
-- 
2.43.0


From 3bad94ab1cdc10a42aaad0ee7ab0bba2d814df8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:43 +0000
Subject: [PATCH 128/148] fix: a configuration value with only an opening quote
 lost its last character

---
 src/libzt/zt_cfg/cfg_private.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index c9cbede..135be41 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -152,12 +152,10 @@ get_type(char* value, void* nvalue)
         *(int*)nvalue = 0;
         return zt_cfg_bool;
     }
-    if (value[0] == '\'' || value[0] == '\"') {
+    if ((value[0] == '\'' || value[0] == '\"') &&
+        value[1] != '\0' && value[strlen(value) - 1] == value[0]) {
         size_t    len = strlen(&value[1]);
 
-        if (value[len] != '\'' || value[len] != '\"') {
-            /* error  */
-        }
         value[len] = '\0';
         *(char **)nvalue = zt_strdup(&value[1]);
     } else {
-- 
2.43.0


From 9b765c63a2e91adb24de61c1bda3ad5591a1e816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:43 +0000
Subject: [PATCH 129/148] fix: a configuration number too large for a long
 silently became another number

---
 src/libzt/zt_cfg/cfg_private.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index 135be41..61f2b8b 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -19,6 +19,7 @@
 #include <strings.h>
 #endif
 
+#include <errno.h>
 #include "../zt_internal.h"
 #include "../zt_log.h"
 #include "cfg_private.h"
@@ -132,8 +133,9 @@ get_type(char* value, void* nvalue)
     char * pvalue = value;
 
     /* check for int/long */
+    errno = 0;
     *(long *)nvalue = strtol(pvalue, &endptr, 0);
-    if (((*pvalue != '\0') && (*endptr == '\0'))) {
+    if (((*pvalue != '\0') && (*endptr == '\0')) && errno != ERANGE) {
         return zt_cfg_int;
     }
 
-- 
2.43.0


From 65adf1f197828aa70b4265770bd996959cac37c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:12 +0000
Subject: [PATCH 130/148] fix: adding text that is no network to a table of
 every address succeeded

---
 src/libzt/zt_ipv4_tbl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index c362d29..6bbd935 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -257,6 +257,8 @@ zt_ipv4_node   *
 zt_ipv4_tbl_add_frm_str(zt_ipv4_tbl * tbl, const char *netstr)
 {
     zt_ipv4_node *ipv4_node = NULL;
+    uint32_t      addr;
+    int           bitlen;
 
     if (!tbl || !netstr) {
         return NULL;
@@ -266,7 +268,7 @@ zt_ipv4_tbl_add_frm_str(zt_ipv4_tbl * tbl, const char *netstr)
         /*
          * we had a 0.0.0.0/0, we don't need to insert anything more
          */
-        return tbl->any;
+        return zt_ipv4_str2net(netstr, &addr, &bitlen) == 0 ? tbl->any : NULL;
     }
 
     if (!(ipv4_node = ipv4_node_init(tbl->pools, netstr))) {
-- 
2.43.0


From 115e2357110049407cf0e32d6d5644ad4c5d76ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:04 +0000
Subject: [PATCH 131/148] fix: moving a buffer into itself lost its content

---
 src/libzt/zt_buf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libzt/zt_buf.c b/src/libzt/zt_buf.c
index d3f43ca..e3cff47 100644
--- a/src/libzt/zt_buf.c
+++ b/src/libzt/zt_buf.c
@@ -112,6 +112,11 @@ zt_buf_add(zt_buf_t * b, void * data, size_t len) {
 
 int
 zt_buf_add_buf(zt_buf_t * a, zt_buf_t * b) {
+    if (a == b) {
+        /* everything is where it should be */
+        return 0;
+    }
+
     if (zt_buf_add(a, b->buf, b->len) < 0) {
         return -1;
     }
-- 
2.43.0


From 037ecd9c57d9d5703f646109cfa1ada468dbe93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:21 +0000
Subject: [PATCH 132/148] fix: reserving more than a buffer can ever hold
 shrank it and succeeded

---
 src/libzt/zt_buf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_buf.c b/src/libzt/zt_buf.c
index e3cff47..601cfae 100644
--- a/src/libzt/zt_buf.c
+++ b/src/libzt/zt_buf.c
@@ -61,6 +61,10 @@ zt_buf_expand(zt_buf_t * b, size_t len) {
         rlen = len;
     }
 
+    if (rlen > (size_t)-1 - b->len) {
+        return -1;
+    }
+
     if (b->top != b->buf) {
         /* drained data starts inside of the allocation */
         memmove(b->top, b->buf, b->len);
-- 
2.43.0


From 3b99d77e4f72939a4683ad61c5c83c5737f1433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:31 +0000
Subject: [PATCH 133/148] fix: sizes too large for a size_t gave arrays, pools,
 heaps and strings that are too small

---
 src/libzt/zt_array.c | 17 +++++++++++++----
 src/libzt/zt_cstr.c  |  3 +++
 src/libzt/zt_mem.c   | 11 ++++++++++-
 src/libzt/zt_table.c |  4 ++++
 4 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_array.c b/src/libzt/zt_array.c
index 79f1994..f0afed1 100644
--- a/src/libzt/zt_array.c
+++ b/src/libzt/zt_array.c
@@ -16,6 +16,15 @@ arrayrep_init(zt_array_t array, size_t len, size_t size, void *ary)
     array->data = ary;
 }
 
+static char *
+arraydata_resize(void *data, size_t len, size_t size)
+{
+    /* more than fits into a size_t cannot be had */
+    zt_assert_always(size == 0 || len <= (size_t)-1 / size);
+
+    return zt_realloc(char, data, len * size);
+}
+
 /* exported functions */
 zt_array_t
 zt_array_new(size_t len, size_t size)
@@ -26,7 +35,7 @@ zt_array_new(size_t len, size_t size)
 
     if (len > 0) {
         arrayrep_init(array, len, size,
-                      zt_calloc(char, len * size));
+                      zt_calloc_p(len, size));
     } else {
         arrayrep_init(array, len, size, NULL);
     }
@@ -54,7 +63,7 @@ zt_array_set_data(zt_array_t array, char *data,
 
     if (copy) {
         arrayrep_init(array, len, size,
-                      zt_calloc(char, len * size));
+                      zt_calloc_p(len, size));
         memcpy(array->data, data, len * size);
     } else {
         arrayrep_init(array, len, size, data);
@@ -92,9 +101,9 @@ zt_array_resize(zt_array_t array, size_t len)
     if (array->length == 0) {
         /* the data may have outlived a length that was set to 0 */
         zt_free(array->data);
-        array->data = zt_calloc(char, len * array->size);
+        array->data = zt_calloc_p(len, array->size);
     } else if (len > 0) {
-        array->data = zt_realloc(char, array->data, len * array->size);
+        array->data = arraydata_resize(array->data, len, array->size);
         /* lear the added space */
         if(len > array->length) {
             size_t   rlen = len - array->length;
diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 997eb6b..8cd2cf8 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -129,6 +129,9 @@ zt_cstr_dup(const char *s, ssize_t i, ssize_t j, ssize_t n) {
 
     CONVERT(s, i, j);
 
+    /* more than fits into a size_t cannot be had */
+    zt_assert_always(n < 0 || (size_t)n <= ((size_t)-1 - 1) / IDXLEN(i, j));
+
     p = new = zt_malloc(char, (n * IDXLEN(i, j)) + 1);
 
     if (IDXLEN(i, j) > 0) {
diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 6752e6e..0d0650c 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -97,6 +97,10 @@ zt_mem_heap_init(char *name, size_t size)
 {
     zt_mem_heap * heap;
 
+    if (size > (size_t)-1 - sizeof(zt_mem_heap)) {
+        return NULL;
+    }
+
     if ((heap = GLOBAL_zmt.alloc(sizeof(zt_mem_heap) + size)) == NULL) {
         return NULL;
     }
@@ -168,6 +172,9 @@ x_calculate_page_data(ssize_t elts, size_t size, size_t *page_size, size_t *epp,
             *npages = 1;
         }
     } else {
+        if (size > ((size_t)-1 - sizeof(zt_mem_page)) / elts - sizeof(zt_mem_elt)) {
+            return -1;
+        }
         *epp = elts;
         *page_size = (elts * (sizeof(zt_mem_elt) + size)) + sizeof(zt_mem_page);
         *npages = 1;
@@ -188,7 +195,9 @@ zt_mem_pool_init(char *name, ssize_t elts,
     size_t        npages;
     size_t        pcache;
 
-    x_calculate_page_data(elts ? elts : 1, size, &npage_size, &epp, &npages);
+    if (x_calculate_page_data(elts > 0 ? elts : 1, size, &npage_size, &epp, &npages) != 0) {
+        return NULL;
+    }
 
     if (!mem_atexit) {
         zt_atexit(zt_mem_release, NULL);
diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index d62df53..16cedc9 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -117,6 +117,10 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
     if (nbuckets < 2) {
         nbuckets = 2;
     }
+    /* and the hash has no more than 32 bits */
+    if (nbuckets > UINT_MAX) {
+        nbuckets = UINT_MAX;
+    }
     table->nbits = nbits(nbuckets - 1);
     nbuckets = (size_t)1 << table->nbits;
 
-- 
2.43.0


From 81f43318a073caa18ec77294d110953186253417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:10 +0000
Subject: [PATCH 134/148] fix: unit assertions of equality took expressions
 apart

---
 src/libzt/zt_unit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_unit.h b/src/libzt/zt_unit.h
index 95117e8..4030f1c 100644
--- a/src/libzt/zt_unit.h
+++ b/src/libzt/zt_unit.h
@@ -85,10 +85,10 @@ class zt_unit_exceptT {};
     } while(0)
 
 #define ZT_UNIT_ASSERT_EQUAL(test, expr1, expr2) \
-    ZT_UNIT_ASSERT(test, (expr1 == expr2))
+    ZT_UNIT_ASSERT(test, (expr1) == (expr2), (expr1 == expr2))
 
 #define ZT_UNIT_ASSERT_NOT_EQUAL(test, expr1, expr2) \
-    ZT_UNIT_ASSERT(test, (expr1 != expr2))
+    ZT_UNIT_ASSERT(test, (expr1) != (expr2), (expr1 != expr2))
 
 /* #define ZT_UNIT_ASSERT_RAISES(test, excpt, expr) */
 
-- 
2.43.0


From 280bce3ee2ba6ff9ad4817886aea5123805ee59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:10 +0000
Subject: [PATCH 135/148] fix: usleep of an expression slept for seconds

---
 src/libzt/zt_time.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_time.h b/src/libzt/zt_time.h
index 7bdc3ff..1185523 100644
--- a/src/libzt/zt_time.h
+++ b/src/libzt/zt_time.h
@@ -57,10 +57,10 @@ void             zt_time_calibrate(void);
 } while (0)
 #else
 #define usleep(msec)          do {       \
-    long           usec = msec;          \
+    long           usec = (msec);        \
     struct timeval delay;                \
                                          \
-    delay.tv_sec  = msec / 1000000L;     \
+    delay.tv_sec  = usec / 1000000L;     \
     delay.tv_usec = usec % 1000000L;     \
                                          \
     select(0, NULL, NULL, NULL, &delay); \
-- 
2.43.0


From 6650215df8abf70278ba91458e174da7e332dd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:10 +0000
Subject: [PATCH 136/148] fix: a conditional debug message was logged whatever
 the condition

---
 src/libzt/zt_log.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_log.h b/src/libzt/zt_log.h
index c0a062c..63dde1b 100644
--- a/src/libzt/zt_log.h
+++ b/src/libzt/zt_log.h
@@ -89,7 +89,7 @@ extern void zt_log_close( zt_log_ty * log );
 
 /* zt_log_dprintf(level, fmt, ...) */
 #define zt_log_dprintf( level, ... ) \
-    ZT_LOG_DEBUG_INFO( ); zt_log_printf( level, __VA_ARGS__ )
+    (ZT_LOG_DEBUG_INFO( ), zt_log_printf( level, __VA_ARGS__ ))
 
 #define zt_log_dvprintf( level, fmt, ap ) \
     zt_log_vprintf( level, fmt, ap)
@@ -98,10 +98,10 @@ extern void zt_log_close( zt_log_ty * log );
 #ifdef DEBUG
 /* LOG_XDEBUG(fmt, ...) */
 #  define ZT_LOG_XDEBUG(... ) \
-    ZT_LOG_DEBUG_INFO( ); zt_log_lprintf( NULL, zt_log_debug, __VA_ARGS__);
+    (ZT_LOG_DEBUG_INFO( ), zt_log_lprintf( NULL, zt_log_debug, __VA_ARGS__ ));
 
 #  define LOG_XDEBUGV( fmt, ap ) \
-    ZT_LOG_DEBUG_INFO( ); zt_log_lvprintf( NULL, zt_log_debug, fmt, ap )
+    (ZT_LOG_DEBUG_INFO( ), zt_log_lvprintf( NULL, zt_log_debug, fmt, ap ))
 #else /* ifdef DEBUG */
 /* LOG_XDEBUG(fmt, ...) */
 #  define ZT_LOG_XDEBUG(... )
@@ -112,10 +112,10 @@ extern void zt_log_close( zt_log_ty * log );
 #ifndef NDEBUG
 /* LOG_NDEBUG(fnt, ...) */
 #  define ZT_LOG_NDEBUG(... ) \
-    ZT_LOG_DEBUG_INFO( ); zt_log_lprintf( NULL, zt_log_debug, __VA_ARGS__ )
+    (ZT_LOG_DEBUG_INFO( ), zt_log_lprintf( NULL, zt_log_debug, __VA_ARGS__ ))
 
 #  define ZT_LOG_NDEBUGV( fmt, ap ) \
-    ZT_LOG_DEBUG_INFO( ); zt_log_lvprintf( NULL, zt_log_debug, fmt, ap )
+    (ZT_LOG_DEBUG_INFO( ), zt_log_lvprintf( NULL, zt_log_debug, fmt, ap ))
 #else /* ifndef NDEBUG */
 /* LOG_NDEBUG(fmt, ...) */
 #  define ZT_LOG_NDEBUG(... )
-- 
2.43.0


From 30f197d2b8c5672914f5dc1a8438245c8399f604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:30 +0000
Subject: [PATCH 137/148] fix: the replacement of vsyslog overran its buffers
 and needed tables no C library has

---
 src/libzt/replace/vsyslog.c | 89 +++++++++++++++++++++----------------
 1 file changed, 50 insertions(+), 39 deletions(-)

diff --git a/src/libzt/replace/vsyslog.c b/src/libzt/replace/vsyslog.c
index fa0a419..16cf082 100644
--- a/src/libzt/replace/vsyslog.c
+++ b/src/libzt/replace/vsyslog.c
@@ -2,8 +2,8 @@
 #  include <zt_config.h>
 #endif
 
-#include <zt_internal.h>
-#include <zt_assert.h>
+#include "../zt_internal.h"
+#include "../zt_assert.h"
 
 #ifdef HAVE_SYSLOG_H
 #  include <syslog.h>
@@ -16,63 +16,74 @@
 #endif
 
 #include <stdarg.h>
+#include <stdio.h>
+#include <stdlib.h>
 #include <errno.h>
-#include <limits.h>
-
-#ifndef HAS_SYS_ERRLIST
-extern char *sys_errlist[];
-extern int   sys_nerr;
-#endif
 
+/* a copy of format with the text of err in place of each %m */
 static char*
-percent_m(char    *obuf, int len, char *ibuf)
+percent_m(const char *format, int err)
 {
-    char * bp = obuf;
-    char * cp = ibuf;
+    const char * msg = strerror(err);
+    const char * cp;
+    char       * obuf;
+    char       * bp;
+    size_t       len = 0;
+
+    for (cp = format; *cp; cp++) {
+        len++;
+        if (*cp == '%' && cp[1] == 'm') {
+            len += 2 * strlen(msg); /* perhaps escaped */
+        }
+    }
+
+    bp = obuf = zt_calloc(char, len + 1);
 
-    while ((bp - obuf < len) && (*bp = *cp)) {
+    for (cp = format; *cp; cp++) {
         if (*cp == '%' && cp[1] == 'm') {
-            if (errno < sys_nerr && errno > 0) {
-                strcpy(bp, sys_errlist[errno]);
-            } else {
-                sprintf(bp, "Unknown Error %d", errno);
+            const char * mp;
+
+            for (mp = msg; *mp; mp++) {
+                if (*mp == '%') {
+                    *bp++ = '%';
+                }
+                *bp++ = *mp;
             }
-            bp += strlen(bp);
-            cp += 2;
-        } else {
-            bp++;
             cp++;
+        } else {
+            if (*cp == '%' && cp[1] == '%') {
+                *bp++ = *cp++;
+            }
+            *bp++ = *cp;
         }
     }
+
+    *bp = '\0';
     return obuf;
 }
 
 void
-vsyslog(int severity, char *format, va_list ap)
+vsyslog(int severity, const char *format, va_list ap)
 {
-    char * fbuf;
-    char * obuf;
-    char * ftmp;
-    int    len;
-    int    flen;
-    int    olen;
+    char  * fbuf;
+    char  * obuf;
+    int     len;
+    va_list ap2;
 
     zt_assert(format);
 
-    len = strlen(format);
-    flen = len * 2;
-    olen = flen * 3;
+    fbuf = percent_m(format, errno);
 
-    fbuf = zt_calloc(char, flen + 1);
-    obuf = zt_calloc(char, olen + 1);
+    va_copy(ap2, ap);
+    len = vsnprintf(NULL, 0, fbuf, ap2);
+    va_end(ap2);
 
-    if ((ftmp = percent_m(fbuf, flen, format)) == NULL) {
-        return;
+    if (len >= 0) {
+        obuf = zt_calloc(char, (size_t)len + 1);
+        vsnprintf(obuf, (size_t)len + 1, fbuf, ap);
+        syslog(severity, "%s", obuf);
+        zt_free(obuf);
     }
 
-    vsprintf(obuf, ftmp, ap);
-    syslog(severity, "%s", obuf);
-
-    free(fbuf);
-    free(obuf);
+    zt_free(fbuf);
 }
-- 
2.43.0


From f8508f8b9824d70d20cb60ccce7cca34aa5179ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:41 +0000
Subject: [PATCH 138/148] fix: allocating more elements than a size_t can count
 gave too little memory

---
 src/libzt/zt_malloc.c | 17 +++++++++++++++++
 src/zt.h              |  8 +++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_malloc.c b/src/libzt/zt_malloc.c
index 1defcc5..e30d760 100644
--- a/src/libzt/zt_malloc.c
+++ b/src/libzt/zt_malloc.c
@@ -38,6 +38,15 @@ zt_malloc_p(size_t num)
     return mem;
 }
 
+/* num elements of size bytes each */
+void_p
+zt_mallocs_p(size_t num, size_t size)
+{
+    zt_assert_always(size == 0 || num <= (size_t)-1 / size);
+
+    return zt_malloc_p(num * size);
+}
+
 void_p
 zt_realloc_p(void_p p, size_t num)
 {
@@ -49,6 +58,14 @@ zt_realloc_p(void_p p, size_t num)
     return mem;
 }
 
+void_p
+zt_reallocs_p(void_p p, size_t num, size_t size)
+{
+    zt_assert_always(size == 0 || num <= (size_t)-1 / size);
+
+    return zt_realloc_p(p, num * size);
+}
+
 
 char *
 zt_strdup_p(const char *string)
diff --git a/src/zt.h b/src/zt.h
index 2fb966c..32769bf 100644
--- a/src/zt.h
+++ b/src/zt.h
@@ -31,10 +31,10 @@
 
 extern char *memoryError;
 #define zt_callocs(size, num)     (zt_calloc_p ((num), (size)))
-#define zt_mallocs(size, num)     (zt_malloc_p ((num) * (size)))
+#define zt_mallocs(size, num)     (zt_mallocs_p ((num), (size)))
 #define zt_calloc(type, num)	((type *) zt_calloc_p ((num), sizeof(type)))
-#define zt_malloc(type, num)	((type *) zt_malloc_p ((num) * sizeof(type)))
-#define zt_realloc(type, p, num)	((type *) zt_realloc_p (((void_p)p), (num) * sizeof(type)))
+#define zt_malloc(type, num)	((type *) zt_mallocs_p ((num), sizeof(type)))
+#define zt_realloc(type, p, num)	((type *) zt_reallocs_p ((void_p)(p), (num), sizeof(type)))
 #define zt_free(stale)   	  	       	  	   	 \
 do {							 \
    if (stale) { free ((void_p) stale);  stale = 0; }	 \
@@ -126,7 +126,9 @@ typedef char* void_p;
 
 extern void * zt_calloc_p	(size_t num, size_t size);
 extern void * zt_malloc_p	(size_t num);
+extern void * zt_mallocs_p (size_t num, size_t size);
 extern void * zt_realloc_p (void * p, size_t num);
+extern void * zt_reallocs_p (void * p, size_t num, size_t size);
 extern void zt_free_p (void * stale);
 extern char *zt_strdup_p (const char *string);
 
-- 
2.43.0


From 28871d296158d520a0be0a41bb9ac5d255fb8c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:41 +0000
Subject: [PATCH 139/148] fix: debug messages did not compile in a conditional
 and had another name in a Debug build

---
 src/libzt/zt_log.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_log.h b/src/libzt/zt_log.h
index 63dde1b..0e27d49 100644
--- a/src/libzt/zt_log.h
+++ b/src/libzt/zt_log.h
@@ -98,9 +98,9 @@ extern void zt_log_close( zt_log_ty * log );
 #ifdef DEBUG
 /* LOG_XDEBUG(fmt, ...) */
 #  define ZT_LOG_XDEBUG(... ) \
-    (ZT_LOG_DEBUG_INFO( ), zt_log_lprintf( NULL, zt_log_debug, __VA_ARGS__ ));
+    (ZT_LOG_DEBUG_INFO( ), zt_log_lprintf( NULL, zt_log_debug, __VA_ARGS__ ))
 
-#  define LOG_XDEBUGV( fmt, ap ) \
+#  define ZT_LOG_XDEBUGV( fmt, ap ) \
     (ZT_LOG_DEBUG_INFO( ), zt_log_lvprintf( NULL, zt_log_debug, fmt, ap ))
 #else /* ifdef DEBUG */
 /* LOG_XDEBUG(fmt, ...) */
-- 
2.43.0


From 1e59ce261e1b00e94d757d0412911c37f3bdd674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:36 +0000
Subject: [PATCH 140/148] fix: options processed within an option's callback
 ended the group of options around it

---
 src/libzt/zt_opts.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 7cff274..2bb0f5a 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -500,6 +500,8 @@ _zt_opt_error_wrapper(int code, char * fmt, ...) {
 int
 zt_opt_process_args(int * argc, char ** argv, zt_opt_def_t * args, zt_opt_validate validate, zt_opt_error error) {
     int i;
+    /* a callback may process other arguments while ours are processed */
+    int outer_attached = value_attached;
 
     error    = error ? error : _zt_opt_error_wrapper;
     validate = validate ? validate : zt_opt_validate_default;
@@ -541,6 +543,7 @@ AGAIN:
                     value_attached = 0;
                     if ((consumed = args[x].cb(i, x, argc, argv, args, error)) < 0) {
                         /* error */
+                        value_attached = outer_attached;
                         return consumed;
                     }
 
@@ -570,6 +573,7 @@ AGAIN:
     }
 
     *argc = i;
+    value_attached = outer_attached;
 
     return 0;
 } /* zt_opt_process_args */
-- 
2.43.0


From f1d37ff9a083858cd5e918e59e60a38c70532df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:50 +0000
Subject: [PATCH 141/148] fix: destroying a collector while another one was
 being destroyed released the wrong value

---
 src/libzt/zt_gc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index e8f4262..5923efb 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -206,7 +206,7 @@ zt_gc_init(void *private_data,
 void
 zt_gc_destroy(zt_gc_t *gc)
 {
-    static zt_elist_t * elt;
+    zt_elist_t * elt;
     zt_elist_t * dont_use;
 
     if (gc->enabled != 0) {
-- 
2.43.0


From bcc4b8ca5ab91bbed1f9514991350d6cf716856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:00 +0000
Subject: [PATCH 142/148] fix: a callback that destroyed a pool below the one
 being destroyed left it in use

---
 src/libzt/zt_ez_mempool.c | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/libzt/zt_ez_mempool.c b/src/libzt/zt_ez_mempool.c
index 1b8eba9..499eb34 100644
--- a/src/libzt/zt_ez_mempool.c
+++ b/src/libzt/zt_ez_mempool.c
@@ -63,33 +63,25 @@ zt_ez_mempool_init(zt_ez_mempool *parent) {
 }
 
 static void
-free_chunks(zt_ez_mempool_chunk *chunks) {
-    zt_ez_mempool_chunk *chunk_ptr;
-
-    chunk_ptr = chunks;
-
-    while (chunk_ptr != NULL) {
-        zt_ez_mempool_chunk *tofree;
+free_chunks(zt_ez_mempool_chunk **head) {
+    zt_ez_mempool_chunk *chunk;
 
-        tofree = chunk_ptr;
+    /* a callback may add to the pool */
+    while ((chunk = *head) != NULL) {
+        *head = chunk->next;
 
-        if (chunk_ptr->free_cb) {
-            chunk_ptr->free_cb(chunk_ptr->data);
+        if (chunk->free_cb) {
+            chunk->free_cb(chunk->data);
         } else {
-            zt_free(chunk_ptr->data);
+            zt_free(chunk->data);
         }
 
-        chunk_ptr = chunk_ptr->next;
-        zt_free(tofree);
+        zt_free(chunk);
     }
 }
 
 void
 zt_ez_mempool_destroy(zt_ez_mempool *pool) {
-    zt_ez_mempool *pool_ptr;
-
-    pool_ptr = pool->subpools;
-
     if (pool->parent != NULL) {
         zt_ez_mempool **link = &pool->parent->subpools;
 
@@ -101,12 +93,12 @@ zt_ez_mempool_destroy(zt_ez_mempool *pool) {
         }
     }
 
-    free_chunks(pool->chunks);
+    free_chunks(&pool->chunks);
 
-    while (pool_ptr != NULL) {
-        zt_ez_mempool *next = pool_ptr->next;
-        zt_ez_mempool_destroy(pool_ptr);
-        pool_ptr = next;
+    /* a callback may destroy other pools below this one; each one leaves
+     * the list when it is destroyed */
+    while (pool->subpools != NULL) {
+        zt_ez_mempool_destroy(pool->subpools);
     }
 
     zt_free(pool);
-- 
2.43.0


From d2944470a3f3603bf3de88424dce5731ec5b93b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:19 +0000
Subject: [PATCH 143/148] fix: a debug message lost its place when its
 arguments logged something

---
 src/libzt/zt_log.c | 12 ++++++++++++
 src/libzt/zt_log.h |  8 +++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_log.c b/src/libzt/zt_log.c
index 7574808..031048a 100644
--- a/src/libzt/zt_log.c
+++ b/src/libzt/zt_log.c
@@ -248,6 +248,18 @@ zt_log_lprintf(zt_log_ty * log, zt_log_level level, const char * fmt, ...) {
     va_end(ap);
 }
 
+void
+zt_log_ldprintf(zt_log_ty * log, zt_log_level level, const char * file, int line, const char * func, const char * fmt, ...) {
+    va_list ap;
+
+    /* not before the arguments are evaluated: they may log something too */
+    zt_log_set_debug_info(file, line, func);
+
+    va_start(ap, fmt);
+    zt_log_lvprintf(log, level, fmt, ap);
+    va_end(ap);
+}
+
 void
 zt_log_lvprintf(zt_log_ty * log, zt_log_level level, const char * fmt, va_list ap) {
     if (!log && ((log = zt_log_get_logger()) == NULL)) {
diff --git a/src/libzt/zt_log.h b/src/libzt/zt_log.h
index 0e27d49..98bbabc 100644
--- a/src/libzt/zt_log.h
+++ b/src/libzt/zt_log.h
@@ -61,6 +61,8 @@ extern void         zt_log_get_debug_info( const char **, int *, const char ** )
 extern zt_log_ty  * zt_log_logger( zt_log_ty * );
 
 extern void         zt_log_lprintf( zt_log_ty *, zt_log_level, const char *, ... ) FORMAT((printf, 3, 4));
+/* with the place the message comes from; for the macros below */
+extern void         zt_log_ldprintf( zt_log_ty *, zt_log_level, const char *, int, const char *, const char *, ... ) FORMAT((printf, 6, 7));
 extern void         zt_log_lstrerror( zt_log_ty *, zt_log_level, int, const char *, ... ) FORMAT((printf, 4, 5));
 extern void         zt_log_lvprintf( zt_log_ty *, zt_log_level, const char *, va_list ) FORMAT((printf, 3, 0));
 
@@ -89,7 +91,7 @@ extern void zt_log_close( zt_log_ty * log );
 
 /* zt_log_dprintf(level, fmt, ...) */
 #define zt_log_dprintf( level, ... ) \
-    (ZT_LOG_DEBUG_INFO( ), zt_log_printf( level, __VA_ARGS__ ))
+    zt_log_ldprintf( NULL, level, __FILE__, __LINE__, ZT_LOG_FUNCTION, __VA_ARGS__ )
 
 #define zt_log_dvprintf( level, fmt, ap ) \
     zt_log_vprintf( level, fmt, ap)
@@ -98,7 +100,7 @@ extern void zt_log_close( zt_log_ty * log );
 #ifdef DEBUG
 /* LOG_XDEBUG(fmt, ...) */
 #  define ZT_LOG_XDEBUG(... ) \
-    (ZT_LOG_DEBUG_INFO( ), zt_log_lprintf( NULL, zt_log_debug, __VA_ARGS__ ))
+    zt_log_ldprintf( NULL, zt_log_debug, __FILE__, __LINE__, ZT_LOG_FUNCTION, __VA_ARGS__ )
 
 #  define ZT_LOG_XDEBUGV( fmt, ap ) \
     (ZT_LOG_DEBUG_INFO( ), zt_log_lvprintf( NULL, zt_log_debug, fmt, ap ))
@@ -112,7 +114,7 @@ extern void zt_log_close( zt_log_ty * log );
 #ifndef NDEBUG
 /* LOG_NDEBUG(fnt, ...) */
 #  define ZT_LOG_NDEBUG(... ) \
-    (ZT_LOG_DEBUG_INFO( ), zt_log_lprintf( NULL, zt_log_debug, __VA_ARGS__ ))
+    zt_log_ldprintf( NULL, zt_log_debug, __FILE__, __LINE__, ZT_LOG_FUNCTION, __VA_ARGS__ )
 
 #  define ZT_LOG_NDEBUGV( fmt, ap ) \
     (ZT_LOG_DEBUG_INFO( ), zt_log_lvprintf( NULL, zt_log_debug, fmt, ap ))
-- 
2.43.0


From 94077b03354abb546ea69c875947c4e0cf011745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:53 +0000
Subject: [PATCH 144/148] fix: infinity and NaN were padded with zeros when
 formatted

---
 src/libzt/zt_format.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index ada5b2e..3a9eae6 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -545,6 +545,11 @@ cvt_f(int code, void * value,
 
     sprintf(buf, fmt, *(double *)value);
 
+    if (isalpha((unsigned char)buf[strspn(buf, "+-")])) {
+        /* infinity and NaN are not padded with zeros */
+        flags['0'] = 0;
+    }
+
     /* buf already has the requested precision */
     return zt_fmt_putd(buf, strlen(buf), put, cl,
                        flags, width, INT_MIN);
-- 
2.43.0


From 0f185c613e5ec7056773547f50c21add3539c4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:28 +0000
Subject: [PATCH 145/148] fix: numbers formatted with a precision above 99 lost
 most of their digits

---
 src/libzt/zt_format.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 3a9eae6..09dc344 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -528,7 +528,10 @@ cvt_f(int code, void * value,
       ssize_t width, ssize_t precision)
 {
     char        buf[1 + DBL_MAX_10_EXP + 1 + 1 + 99 + 1];
-    char        fmt[] = "%.dd?";
+    char      * p = buf;
+    char        fmt[] = "%.*?";
+    int         len;
+    size_t      tlen;
 
     if (precision < 0) {
         precision = 6;
@@ -538,21 +541,31 @@ cvt_f(int code, void * value,
         precision = 1;
     }
 
-    zt_assert(precision <= 99);
-    fmt[4] = code;
-    fmt[3] = precision % 10 + '0';
-    fmt[2] = (precision / 10) % 10 + '0';
+    fmt[3] = code;
 
-    sprintf(buf, fmt, *(double *)value);
+    if ((len = snprintf(buf, sizeof(buf), fmt, (int)precision, *(double *)value)) < 0) {
+        return 0;
+    }
+
+    if ((size_t)len >= sizeof(buf)) {
+        p = zt_malloc(char, (size_t)len + 1);
+        snprintf(p, (size_t)len + 1, fmt, (int)precision, *(double *)value);
+    }
 
-    if (isalpha((unsigned char)buf[strspn(buf, "+-")])) {
+    if (isalpha((unsigned char)p[strspn(p, "+-")])) {
         /* infinity and NaN are not padded with zeros */
         flags['0'] = 0;
     }
 
-    /* buf already has the requested precision */
-    return zt_fmt_putd(buf, strlen(buf), put, cl,
+    /* p already has the requested precision */
+    tlen = zt_fmt_putd(p, len, put, cl,
                        flags, width, INT_MIN);
+
+    if (p != buf) {
+        zt_free(p);
+    }
+
+    return tlen;
 }
 
 static size_t
-- 
2.43.0


From c1070fadbb65678f1edf72391485d041cd3e0ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:27 +0000
Subject: [PATCH 146/148] fix: the directory of a program was one that holds a
 directory or data file of its name

---
 src/libzt/zt_progname.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index a216af7..6f511b1 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -110,6 +110,16 @@ zt_os_progpath() {
     return result;
 }
 
+/* directories and data files that have the name of a program are not the program */
+static int
+_is_program(const char * path, const struct stat * sbuf) {
+#if defined(WIN32)
+    return (sbuf->st_mode & S_IFMT) == S_IFREG;
+#else
+    return S_ISREG(sbuf->st_mode) && access(path, X_OK) == 0;
+#endif
+}
+
 char *
 zt_progpath(char *prog) {
 
@@ -155,7 +165,7 @@ zt_progpath(char *prog) {
                 }
 
                 errno = 0;
-                if((stat(tpath, &sbuf) == 0)) {
+                if((stat(tpath, &sbuf) == 0) && _is_program(tpath, &sbuf)) {
                     zt_cstr_dirname(_progpath, PATH_MAX, tpath);
                     zt_free(tpath);
                     break;
-- 
2.43.0


From 671b48c62f100fbdc1bf1fab44e480069c784062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:50 +0000
Subject: [PATCH 147/148] fix: zt_log_dvprintf logged without the place of the
 call

---
 src/libzt/zt_log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_log.h b/src/libzt/zt_log.h
index 98bbabc..99b3208 100644
--- a/src/libzt/zt_log.h
+++ b/src/libzt/zt_log.h
@@ -94,7 +94,7 @@ extern void zt_log_close( zt_log_ty * log );
     zt_log_ldprintf( NULL, level, __FILE__, __LINE__, ZT_LOG_FUNCTION, __VA_ARGS__ )
 
 #define zt_log_dvprintf( level, fmt, ap ) \
-    zt_log_vprintf( level, fmt, ap)
+    (ZT_LOG_DEBUG_INFO( ), zt_log_lvprintf( NULL, level, fmt, ap ))
 
 /* normal debugging logging */
 #ifdef DEBUG
-- 
2.43.0


From 47191e94528e2b53a53d8de20c33648485d2fed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:55 +0000
Subject: [PATCH 148/148] fix: threads that processed options at once mixed up
 attached values

---
 src/libzt/zt_opts.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 2bb0f5a..966ee3b 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -85,8 +85,16 @@ zt_opt_error_default(int code, char * fmt, ...) {
     return ret;
 }
 
-/* set when a value was found in the same argument as its short option */
-static int value_attached = 0;
+#if defined(__GNUC__)
+# define OPTS_LOCAL static __thread
+#elif defined(_MSC_VER)
+# define OPTS_LOCAL static __declspec(thread)
+#else
+# define OPTS_LOCAL static
+#endif
+
+/* set when this thread found a value in the same argument as its short option */
+OPTS_LOCAL int value_attached = 0;
 
 char *
 zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args_consumed, zt_opt_error error) {
-- 
2.43.0

