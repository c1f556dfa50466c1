seed('s01-map-twice', 'S01', [('src/libzt/zt_cstr.c', 'map[(unsigned char)*from++] = *to++;', 'map[map[(unsigned char)*from++]] = *to++;')],
 'a mapping that names the same source character twice', 'another character is mapped as well',
 r'''
#include <zt.h>
#include <string.h>
int main(void) { char *r = zt_cstr_map("abc", 0, -1, "aa", "bc"); return strcmp(r, "cbc") != 0; }
''')
seed('s05-join-one-separator', 'S05', [('src/libzt/zt_cstr.c', 'for (y = len1 - 1; y > 0 && strncmp(&path1[y], PATH_SEPERATOR, sep_len) == 0; y--) {\n        ;\n    }',
 'y = len1 - 1;\n    if (y > 0 && strncmp(&path1[y], PATH_SEPERATOR, sep_len) == 0) {\n        y--;\n    }')],
 'joining a first path that ends in several separators', 'the joined path keeps doubled separators',
 r'''
#include <zt.h>
#include <string.h>
int main(void) { return strcmp(zt_cstr_path_append("/usr//", "lib"), "/usr/lib") != 0; }
''')
seed('s06-unhex-one-more', 'S06', [('src/libzt/zt_cstr.c', "for (n = 0, y = 0; n < hlen && *hex != '\\0' && y < dlen; n++) {", "for (n = 0, y = 0; n < hlen && *hex != '\\0' && y <= dlen; n++) {")],
 'a destination smaller than the hex text holds', 'one byte more than the destination has is written',
 r'''
#include <zt.h>
int main(void) { unsigned char o[4] = {9, 9, 9, 9}; size_t n = zt_hex_to_binary("0102030405", 10, o, 2); return n != 2 || o[2] != 9; }
''')
seed('t01-sub-alias', 'T01', [('src/libzt/zt_time.c', '''    st->tv_sec = t1->tv_sec - t2->tv_sec;
    st->tv_usec = t1->tv_usec - t2->tv_usec;
''', '''    *st = *t1;
    st->tv_sec -= t2->tv_sec;
    st->tv_usec -= t2->tv_usec;
''')], 'the difference is stored over the second operand', 'the difference is zero',
 r'''
#include <zt.h>
int main(void) { struct timeval a = {10, 5}, b = {3, 7}; zt_sub_time(&b, &a, &b); return b.tv_sec != 6 || b.tv_usec != 999998; }
''')
seed('u01-one-short', 'U01', [('src/libzt/zt_uuid.c', '!uuids || *uuids_size < sizerequired) {', '!uuids || *uuids_size < sizerequired - 1) {')],
 'a buffer with room for the text but not for its terminator', 'the buffer is accepted; the terminator is written behind it or the last character is lost',
 r'''
#include <zt.h>
#include <string.h>
int main(void) { zt_uuid_t u = {{{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}}}; char b[64]; size_t n = UUID_STR_LEN; memset(b, 'x', sizeof b); return zt_uuid_fillstr(&u, b, &n, zt_uuid_std_fmt) != 0 || n != UUID_STR_LEN + 1; }
''')
seed('u02-name-nul', 'U02', [('src/libzt/zt_uuid.c', 'zt_sha1_update(&ctx, (uint8_t*)value, vlen);', 'zt_sha1_update(&ctx, (uint8_t*)value, strnlen(value, vlen));')],
 'a name that holds a NUL byte', 'names that differ after the NUL get the same UUID',
 r'''
#include <zt.h>
int main(void) { zt_uuid_t a, b; zt_uuid5("ab\0cd", 5, UUID_NS_DNS, &a); zt_uuid5("ab\0ce", 5, UUID_NS_DNS, &b); return zt_uuid_cmp(&a, &b) == 0; }
''')
seed('u03-shared-context', 'U03', [('src/libzt/zt_uuid.c', '#  define CTX_STATIC\n', '#  define CTX_STATIC static\n')],
 'several threads drawing random UUIDs at once', 'all threads share one unprotected generator and draw the same UUID now and then',
 r'''
#include <zt.h>
#include <pthread.h>
#include <string.h>
#define N 200000
static zt_uuid_t u[8 * N]; static pthread_barrier_t b;
static void *go(void *p) { zt_uuid_t *x = p; int i; pthread_barrier_wait(&b); for (i = 0; i < N; i++) zt_uuid4(&x[i]); return NULL; }
static int cmp(const void *a, const void *c) { return memcmp(a, c, sizeof(zt_uuid_t)); }
int main(void) { pthread_t t[8]; int i, r; for (r = 0; r < 5; r++) { pthread_barrier_init(&b, NULL, 8); for (i = 0; i < 8; i++) pthread_create(&t[i], NULL, go, u + i * N); for (i = 0; i < 8; i++) pthread_join(t[i], NULL);
  qsort(u, 8 * N, sizeof *u, cmp); for (i = 1; i < 8 * N; i++) if (!cmp(&u[i - 1], &u[i])) return 1; } return 0; }
''')
seed('n01-mul-minus-one', 'N01', [('src/libzt/zt_int.h', 'if ((rhs == 1) || (lhs == 1)) {                      \\', 'if ((rhs * rhs == 1) || (lhs == 1)) {                \\')],
 'the smallest value of a type times -1', 'the overflow is not stopped',
 r'''
#include <zt.h>
#include <zt_int.h>
#include <limits.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
int main(void) { int st; pid_t p = fork(); if (!p) { volatile signed char a = SCHAR_MIN, b = -1; volatile signed char c; close(2); c = zt_char_mul(a, b); (void)c; _exit(0); } waitpid(p, &st, 0); return !(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT); }
''', '-UNDEBUG -Isrc/libzt')
seed('r01-long-key', 'R01', [('src/libzt/zt_random.c', 'size_t   k = (RECURRENCE > len ? RECURRENCE : len);', 'size_t   k = RECURRENCE;')],
 'seeding with an array of more than 624 numbers', 'the rest of the array is ignored',
 r'''
#include <zt.h>
int main(void) { static uint32_t a[700], b[700]; zt_random_state s, t; int i; for (i = 0; i < 700; i++) a[i] = b[i] = (uint32_t)i; b[699] = 7; zt_random_initstate(&s, a, 700); zt_random_initstate(&t, b, 700); for (i = 0; i < 10; i++) if (zt_random_uint32(&s) != zt_random_uint32(&t)) return 0; return 1; }
''')
seed('f02-grow-late', 'F02', [('src/libzt/zt_format.c', '''    if (p->bp >= p->buf + p->size) {
        p->buf = zt_realloc''', '''    if (p->bp > p->buf + p->size) {
        p->buf = zt_realloc''')], 'a formatted string of more than 256 characters', 'a character is written past the buffer and lost',
 r'''
#include <zt.h>
#include <string.h>
int main(void) { char a[400]; char *s; memset(a, 'x', 399); a[399] = 0; a[256] = 'y'; s = zt_fmt_strprintf("%s", a); return strcmp(s, a) != 0; }
''')
seed('x01-unset-group', 'X01', [('src/libzt/zt_macros.h', '((target) &= ~(bit))', '((target) &= ~bit)')],
 'several bits given as an expression', 'only the first of the bits is cleared, others survive',
 r'''
#include <zt.h>
int main(void) { unsigned t = 0xff; ZT_BIT_UNSET(t, 0x01 | 0x10); return t != 0xee; }
''')
seed('b02-six-digits', 'B02', [('src/libzt/zt_base.c', '''            case 6:
                return -1;
                break;
''', '''            case 6:
                *out++ = buf[0] << 3 | buf[1] >> 2;
                *out++ = buf[1] << 6 | buf[2] << 1 | buf[3] >> 4;
                *out++ = buf[3] << 4 | buf[4] >> 1;
                obytes += 3;
                break;
''')], 'a base32 text whose last group has six digits', 'text that cannot be whole bytes is decoded',
 r'''
#include <zt.h>
int main(void) { void *o = NULL; size_t n = 0; return zt_base_decode(zt_base32_rfc, "ABCDEF", 6, &o, &n) == 0; }
''')
seed('h02-signed-text', 'H02', [('src/libzt/zt_hash.c', '''        /* xor the bottom with the current octet */
        hval ^= (uint64_t)*s++;
''', '''        /* xor the bottom with the current octet */
        hval ^= (uint64_t)(char)*s++;
''')], 'a text with a byte above 127, hashed in 64 bits', 'the hash of the text differs from the hash of its bytes',
 r'''
#include <zt.h>
int main(void) { return zt_hash64_cstr((const uint8_t *)"caf\xc3\xa9", 0) != zt_hash64_buff("caf\xc3\xa9", 5, 0); }
''')
seed('v02-fifteen', 'V02', [('src/libzt/zt_ipv4_tbl.c', '#define MAXLINE 16', '#define MAXLINE 15')],
 'an address of fifteen characters', 'a well-formed address is refused',
 r'''
#include <zt.h>
int main(void) { uint32_t a; int b; return zt_ipv4_str2net("192.168.100.200/32", &a, &b) != 0; }
''')
seed('k03-nothing-after-equals', 'K03', [('src/libzt/zt_cfg/cfg_ini.c', 'if (val >= buff + len) {', 'if (val > buff + len) {')],
 'a line that ends right after the equals sign', 'a variable without a value is accepted',
 r'''
#include <zt.h>
#include <stdio.h>
int main(void) { FILE *f = fopen("x.ini", "w"); fputs("a = 1\nb =\n", f); fclose(f); return zt_cfg_ini("x.ini", 0) != NULL; }
''')
seed('l03-short-name', 'L03', [('src/libzt/zt_assert.c', '''    if (!s) {
        s = "no message given";
    }

    (void)zt_cstr_basename(bname, PATH_MAX, file, NULL);''', '''    if (!s) {
        s = "no message given";
    }

    (void)zt_cstr_basename(bname, 32, file, NULL);''')], 'zt_abort in a file whose name has more than 31 characters', 'the logged file name is cut off',
 r'''
#include <zt.h>
#include <stdio.h>
#include <string.h>
#line 1 "some/dir/a_source_file_with_quite_a_long_name.c"
int main(void) { char s[500] = ""; zt_log_ty *l = zt_log_file("o", ZT_LOG_FILE_OVERWRITE, ZT_LOG_RAW); FILE *f; zt_log_logger(l); _zt_log_abort("m", __FILE__, 5, "fn"); zt_log_close(l); f = fopen("o", "r"); fgets(s, 500, f); return strstr(s, ": a_source_file_with_quite_a_long_name.c[5:fn]") == NULL; }
''')
seed('w02-wait-carry', 'W02', [('src/libzt/zt_threads/zt_threads_pthreads.c', 'zt_add_time(&abstime, &now, tv);', 'abstime.tv_sec = now.tv_sec + tv->tv_sec;\n        abstime.tv_usec = now.tv_usec + tv->tv_usec;')],
 'a time-out whose microseconds reach the next full second', 'the wait fails at once instead of waiting',
 r'''
#include <zt.h>
#include <sys/time.h>
int main(void) { struct timeval tv = {0, 900000}; zt_threads_mutex *m; zt_threads_cond *c; int i; zt_threads_use_pthreads(); m = zt_threads_alloc_lock(0); c = zt_threads_cond_alloc(0); for (i = 0; i < 4; i++) { int r; zt_threads_lock(0, m); r = zt_threads_cond_wait(c, m, &tv); zt_threads_unlock(0, m); if (r != 1) return 1; tv.tv_usec -= 130000; } return 0; }
''')
seed('m03-thread-context', 'M03', [('src/libzt/zt_log.c', 'pthread_key_create(&ctx_key, free)', 'pthread_key_create(&ctx_key, NULL)')],
 'many threads that log and end', 'every thread that ever logged leaves memory behind',
 r'''
#include <zt.h>
#include <pthread.h>
#include <malloc.h>
static void *go(void *p) { zt_log_set_debug_info(NULL, -1, NULL); return p; }
int main(void) { int i; pthread_t t; struct mallinfo2 a, b; mallopt(M_ARENA_MAX, 1); for (i = 0; i < 50; i++) { pthread_create(&t, NULL, go, NULL); pthread_join(t, NULL); } a = mallinfo2(); for (i = 0; i < 500; i++) { pthread_create(&t, NULL, go, NULL); pthread_join(t, NULL); } b = mallinfo2(); return b.uordblks > a.uordblks + 5000; }
''')

seed('s04-cut-runs', 'S04', [('src/libzt/zt_cstr.c', """        cut_tok++;

        if (*cut_tok == '\\0') {""", """        cut_tok++;
        while (*cut_tok == delim) {
            cut_tok++;
        }

        if (*cut_tok == '\\0') {""")],
 'cutting a text with two delimiters in a row', 'the remainder after the first of them is missing',
 r"""
#include <zt.h>
#include <string.h>
int main(void) { zt_ptr_array *a = zt_cstr_cut("a//b", '/', 0); return zt_ptr_array_get_idx(a, 1) == NULL || strcmp(zt_ptr_array_get_idx(a, 0), "/b"); }
""")
seed('s07-smallest', 'S07', [('src/libzt/zt_cstr.c', """        s[offset] = '-';
    }

    s[loc] = 0;""", """        s[offset] = '-';
        value = -value;
    }

    s[loc] = 0;"""), ('src/libzt/zt_cstr.c', "s[loc] = *(_itoa_integers + 9 + (value % 10));", "s[loc] = *(_itoa_integers + 9 + (value % 10 + 10) % 10);")],
 'the smallest int', 'digits are wrong (its negation does not exist)',
 r"""
#include <zt.h>
#include <string.h>
#include <limits.h>
int main(void) { char b[32]; return zt_cstr_itoa(b, INT_MIN, 0, sizeof b) != 11 || strcmp(b, "-2147483648"); }
""")
seed('l01-forced-once', 'L01', [('src/libzt/zt_log.c', """         * around the default case of a logger being set
         */
        if (!log_default_ptr) {""", """         * around the default case of a logger being set
         */
        if (!forced) {""")],
 'the default logger is used, removed with zt_log_logger(NULL), and used again', 'there is no default logger any more',
 r"""
#include <zt.h>
#include <stdio.h>
#include <string.h>
int main(void) { char s[200] = ""; FILE *f; if (!freopen("o", "w", stderr)) return 0; zt_log_printf(zt_log_err, "one"); zt_log_logger(NULL); zt_log_printf(zt_log_err, "two"); fflush(stderr); f = fopen("o", "r"); fread(s, 1, 199, f); fclose(f); return !strstr(s, "one") || !strstr(s, "two"); }
""")
seed('l02-shared-line', 'L02', [('src/libzt/zt_log/log_file.c', """    nfmt = zt_log_gen_fmt(log, fmt, file, line, func, level, log->opts);

#ifdef WITH_THREADS
    pthread_mutex_lock(&log->mutex);
#endif /* WITH_THREADS */

    vfprintf(this->file, nfmt, ap);
""", """    static char text[1 << 16];

    nfmt = zt_log_gen_fmt(log, fmt, file, line, func, level, log->opts);
    vsnprintf(text, sizeof(text), nfmt, ap);

#ifdef WITH_THREADS
    pthread_mutex_lock(&log->mutex);
#endif /* WITH_THREADS */

    fputs(text, this->file);
""")],
 'threads that log to a file at the same time', 'lines are formatted into one shared buffer outside the lock',
 r"""
#include <zt.h>
#include <pthread.h>
#include <stdio.h>
#include <string.h>
static zt_log_ty *l; static pthread_barrier_t b; static int seen[8][5000];
static void *go(void *p) { long k = (long)p; int i; pthread_barrier_wait(&b); for (i = 0; i < 5000; i++) zt_log_lprintf(l, zt_log_err, "m %ld %d end", k, i); return NULL; }
int main(void) { pthread_t t[8]; long i; char s[500]; FILE *f; int n = 0; l = zt_log_file("o", ZT_LOG_FILE_OVERWRITE, ZT_LOG_RAW); pthread_barrier_init(&b, NULL, 8); for (i = 0; i < 8; i++) pthread_create(&t[i], NULL, go, (void *)i); for (i = 0; i < 8; i++) pthread_join(t[i], NULL); zt_log_close(l);
  f = fopen("o", "r"); while (fgets(s, 500, f)) { long k; int q; char e[9]; if (sscanf(s, "m %ld %d %8s", &k, &q, e) != 3 || strcmp(e, "end") || k < 0 || k > 7 || q < 0 || q >= 5000 || seen[k][q]++) return 1; n++; } return n != 40000; }
""")
seed('e01-str2net-copy', 'E01', [('src/libzt/zt_ipv4_tbl.c', """    if (!(save = calloc(MAXLINE, 1))) {
        free(str_cp);
        return -1;""", """    if (!(save = calloc(MAXLINE, 1))) {
        return -1;""")], 'memory runs out at the second allocation of parsing a network', 'the copy of the text is lost',
 r"""
#include <zt.h>
#include <stdlib.h>
#include <malloc.h>
static int fail; extern void *__libc_calloc(size_t, size_t); void *calloc(size_t a, size_t b) { return fail ? NULL : __libc_calloc(a, b); }
int main(void) { uint32_t a; int b, i; size_t u = mallinfo2().uordblks; fail = 1; for (i = 0; i < 1000; i++) if (!zt_ipv4_str2net("10.0.0.0/8", &a, &b)) return 2; fail = 0; return mallinfo2().uordblks > u + 10000; }
""")
