seed('m01-page-boundary', 'M01', [('src/libzt/zt_mem.c', 'if (size < (usable_page_size / 2)) {', 'if (size < usable_page_size) {')],
 'a pool of elements almost as large as a memory page', 'an element together with its header no longer fits into the page it is taken from',
 r'''
#include <zt.h>
#include <unistd.h>
int main(void) { size_t s; for (s = 8; s < 9000; s += 8) { zt_mem_pool *p = zt_mem_pool_init("p", 3, s, NULL, NULL, 0); zt_mem_pool_stats st;
    zt_mem_pool_get_stats(p, &st); if (st.elts_per_page < 1 || st.elts_per_page * s > st.page_size) return 1; if (zt_mem_pool_destroy(&p)) return 1; }
  return 0; }
''')
seed('m01-trim-reserve', 'M01', [('src/libzt/zt_mem.c', '''        if (page->num_free_elts == pool->elts_per_page) {
            zt_mem_page_destroy(page);''', '''        if (page->num_free_elts == pool->elts_per_page && (pool->npages > 1 || pool->page_frees == 0)) {
            zt_mem_page_destroy(page);''')], 'trimming a never-free pool a second time, when its only page is free', 'a trimmed pool keeps a free page',
 r'''
#include <zt.h>
int main(void) { zt_mem_pool *p = zt_mem_pool_init("p", 1, 100, NULL, NULL, POOL_NEVER_FREE); zt_mem_pool_stats st; int i; void *x;
  for (i = 0; i < 4; i++) { x = zt_mem_pool_alloc(p); zt_mem_pool_release(&x); zt_mem_pool_release_free_pages(p); zt_mem_pool_get_stats(p, &st); if (st.pages || st.free_pages) return 1; } return 0; }
''')
seed('m02-third-child', 'M02', [('src/libzt/zt_ez_mempool.c', '''    pool->next = *head;
    *head      = pool;''', '''    (*head)->next = pool;''')], 'three or more pools below the same pool', 'pools between the first and the last one below a pool are not destroyed with it',
 r'''
#include <zt.h>
static int n; static void cb(void *p) { n++; free(p); }
int main(void) { int i; zt_ez_mempool *a = zt_ez_mempool_init(NULL), *b = zt_ez_mempool_init(a); for (i = 0; i < 3; i++) zt_ez_mempool_alloc(zt_ez_mempool_init(b), 10, cb);
  zt_ez_mempool_alloc(b, 10, cb); zt_ez_mempool_destroy(a); return n != 4; }
''')
seed('i01-clone-trim', 'I01', [('src/libzt/zt_bstream.c', 'clone->data = zt_array_copy(bs->data, zt_array_length(bs->data));', 'clone->data = zt_array_copy(bs->data, bs->offt ? bs->offt : zt_array_length(bs->data));')],
 'cloning a stream that was rewound and partly read', 'a clone lacks what its origin has not read yet',
 r'''
#include <zt.h>
int main(void) { zt_bstream_t b = zt_bstream_new(), c; int i; uint32_t v; for (i = 0; i < 100; i++) zt_bstream_write_uint32(b, i * 7); zt_bstream_rewind(b);
  for (i = 0; i < 10; i++) zt_bstream_read_uint32(b, &v);
  c = zt_bstream_clone(b); if (zt_array_length(c->data) < 400) return 1;
  for (; i < 100; i++) { zt_bstream_read_uint32(c, &v); if (v != i * 7) return 1; } return 0; }
''')
seed('v01-slot-size', 'V01', [('src/libzt/zt_ipv4_tbl.c', '    key = node->addr->addr & (tbl->sz - 1);', '    key = node->addr->addr % tbl->sz;')],
 'a table whose size is not a power of two', 'stored networks are looked for in another slot than the one they were put into',
 r'''
#include <zt.h>
int main(void) { zt_ipv4_tbl *t = zt_ipv4_tbl_init(100); char s[40]; int i; for (i = 0; i < 60; i++) { sprintf(s, "10.%d.%d.0/24", i, i * 3); if (!zt_ipv4_tbl_add_frm_str(t, s)) return 1; }
  for (i = 0; i < 60; i++) { sprintf(s, "10.%d.%d.%d", i, i * 3, i + 1); if (!zt_ipv4_tbl_search_from_str(t, s)) return 1; sprintf(s, "11.%d.0.1", i); if (zt_ipv4_tbl_search_from_str(t, s)) return 1; }
  return 0; }
''')
seed('v01-supernet', 'V01', [('src/libzt/zt_ipv4_tbl.c', 'needle->broadcast <= haystack->broadcast', 'needle->addr <= haystack->broadcast')],
 'searching for a network larger than a stored one that starts at the same address', 'a stored network is said to contain a larger network',
 r'''
#include <zt.h>
int main(void) { zt_ipv4_tbl *t = zt_ipv4_tbl_init(128); zt_ipv4_tbl_add_frm_str(t, "10.0.0.0/16");
  return zt_ipv4_tbl_search_from_str(t, "10.0.0.0/8") != NULL || zt_ipv4_tbl_search_from_str(t, "10.0.0.0/24") == NULL; }
''')
seed('g01-barrier-head', 'G01', [('src/libzt/zt_gc.c', '''        zt_elist_add_tail(gc->grey, &mark->list);
        return TRUE;''', '''        if (gc->enabled == 0) {
            /* marked by the mutator: first in line for the next scan */
            zt_elist_add(gc->grey, &mark->list);
        } else {
            zt_elist_add_tail(gc->grey, &mark->list);
        }
        return TRUE;''')], 'an object with children stored into another one between two steps of an incremental scan', 'children of an object moved during an incremental scan are released while reachable',
 r'''
#include <zt.h>
#include <libzt/zt_gc.h>
#include <string.h>
/* h holds a -> b -> c; in the middle of an incremental scan a moves to r, which has been scanned already */
struct o { zt_gc_collectable_t c; struct o *k; int dead; };
static void mk(struct zt_gc *g, void *p, void *v) { struct o *x = v; if (x->k) zt_gc_mark(g, x->k); }
static void rel(struct zt_gc *g, void *p, void **v) { ((struct o *)*v)->dead = 1; *v = NULL; }
static struct o r, d, h, a, b, c, junk[200];
static void reg(zt_gc_t *g, struct o *x) { memset(x, 0, sizeof *x); zt_gc_prepare(g, x); zt_gc_register(g, x); }
int main(void) { int when, j; for (when = 0; when < 100; when++) { zt_gc_t *g = zt_gc_init(NULL, mk, rel, 2, 1);
    zt_gc_disable(g); reg(g, &r); reg(g, &d); reg(g, &h); reg(g, &a); reg(g, &b); reg(g, &c); zt_gc_protect(g, &r); zt_gc_protect(g, &d); zt_gc_protect(g, &h);
    h.k = &a; a.k = &b; b.k = &c; zt_gc_enable(g);
    for (j = 0; j < when; j++) reg(g, &junk[j]);
    zt_gc_mark(g, &a); r.k = &a; h.k = NULL;
    for (; j < 200; j++) { reg(g, &junk[j]); if (r.dead | d.dead | h.dead | a.dead | b.dead | c.dead) return 1; } }
  return 0; }
''')
seed('o01-flag-once', 'O01', [('src/libzt/zt_opts.c', '(args[x].lopt != ZT_OPT_NLO && strlen(args[x].lopt) == len &&', '(args[x].lopt != ZT_OPT_NLO && len > 0 && (strlen(args[x].lopt) == len || (len >= 4 && combined_opt)) &&')],
 'a long option given as --name=value whose name starts with the name of a later one', 'an option takes the value given to another option with a shorter name',
 r'''
#include <zt.h>
static char *a, *b; static long n;
static int err(int c, char *f, ...) { return 0; }
int main(void) { zt_opt_def_t d[] = { { 'a', "file-name", "X", zt_opt_string, &a, "h" }, { 'b', "file", "X", zt_opt_string, &b, "h" }, { ZT_OPT_END() } };
  char *v[] = { "p", "--file=x", NULL }; int c = 2; zt_opt_process_args(&c, v, d, NULL, err); return a != NULL || b == NULL; }
''')
seed('o02-erange-sign', 'O02', [('src/libzt/zt_opts.c', '''    result = strtol(arg, &end, 0);

    if (errno) {
        /* check errno */
        error(errno, "invalid number '%s'", arg);
    }

    if (end == arg || *end) {
        /* invalid character */
        error(EINVAL, "'%s' is not a number", arg);
    }

    if (def[defn].cb_data) {
        *(long *)def[defn].cb_data = result;''', '''    result = strtol(arg, &end, 0);

    if (errno && result == LONG_MAX) {
        /* check errno */
        error(errno, "invalid number '%s'", arg);
    }

    if (end == arg || *end) {
        /* invalid character */
        error(EINVAL, "'%s' is not a number", arg);
    }

    if (def[defn].cb_data) {
        *(long *)def[defn].cb_data = result;''')], 'a long option value below the smallest long', 'a number that is too small is accepted without a report',
 r'''
#include <zt.h>
#include <errno.h>
#include <limits.h>
static long n; static int got;
static int err(int c, char *f, ...) { got = c; return 0; }
int main(void) { zt_opt_def_t d[] = { { 'n', "num", "X", zt_opt_long, &n, "h" }, { ZT_OPT_END() } };
  char *v[] = { "p", "--num=-99999999999999999999", NULL }; int c = 2; zt_opt_process_args(&c, v, d, NULL, err); return got != ERANGE; }
''')
seed('o03-skip-blank', 'O03', [('src/libzt/zt_opts.c', '''                offt+=width;''', '''                offt += width + 1; /* and the blank it ends with */''')],
 'a help text with a word longer than a line', 'help loses a character of a word that does not fit on a line',
 r'''
#include <zt.h>
#include <unistd.h>
#include <string.h>
int main(void) { static char h[200], o[9000]; int i, n = 0, k; memset(h, 'x', 120); h[0] = 'a';
  zt_opt_def_t d[] = { { 'n', "num", "X", zt_opt_null, NULL, h }, { ZT_OPT_END() } };
  if (!freopen("out", "w", stdout)) return 1; zt_opt_usage("p", "u", d); fflush(stdout); FILE *f = fopen("out", "r"); k = fread(o, 1, sizeof o - 1, f);
  for (i = 0; i < k; i++) n += o[i] == 'x'; return n != 119; }
''')
seed('k01-quoted-type', 'K01', [('src/libzt/zt_cfg/cfg_private.c', '''        value[len] = '\\0';
        *(char **)nvalue = zt_strdup(&value[1]);''', '''        value++[len] = '\\0';
        if (strspn(value, "0123456789") == len - 1 && len > 1) {
            return get_type(value, nvalue);
        }
        *(char **)nvalue = zt_strdup(value);''')], 'a quoted string of digits only', 'a quoted number is no longer a string',
 r'''
#include <zt.h>
#include <string.h>
int main(void) { FILE *f = fopen("c.ini", "w"); fputs("[b]\nx = \"007\"\ny = \"a7\"\n", f); fclose(f); zt_cfg_ty *c = zt_cfg_ini("c.ini", 0); char *s = NULL;
  if (!c || zt_cfg_get(c, "b", "y", &s, zt_cfg_string) < 0 || strcmp(s, "a7")) return 1;
  return zt_cfg_get(c, "b", "x", &s, zt_cfg_string) < 0 || strcmp(s, "007"); }
''')
seed('k02-ref-chain', 'K02', [('src/libzt/zt_cfg/cfg_private.c', '''        value = value->v.r;
    }

    if (value->type != type) {''', '''        value = value->v.r;
        if (value->type == zt_cfg_ref && value->v.r->type == zt_cfg_ref) {
            break;
        }
    }

    if (value->type != type) {''')], 'a chain of three or more references', 'a variable that refers through a long chain can not be read',
 r'''
#include <zt.h>
#include <string.h>
int main(void) { FILE *f = fopen("c.ini", "w"); fputs("[b]\na = 5\nb = b.a\nc = b.b\nd = b.c\ne = b.d\n", f); fclose(f); zt_cfg_ty *c = zt_cfg_ini("c.ini", 0); long v; char n[2] = "a";
  for (; *n <= 'e'; ++*n) { v = 0; if (!c || zt_cfg_get(c, "b", n, &v, zt_cfg_int) < 0 || v != 5) return 1; } return 0; }
''')
seed('l01-stale-origin', 'L01', [('src/libzt/zt_log.c', '''    if (level > log->level) {
        zt_log_set_debug_info(NULL, -1, NULL);
        return;
    }
    va_start(ap, fmt);
    zt_log_lvprintf(log, level, fmt, ap);''', '''    if (level > log->level) {
        return;
    }
    va_start(ap, fmt);
    zt_log_lvprintf(log, level, fmt, ap);''')], 'a message below the level logged with its origin, then one logged without', 'a message shows the origin of an earlier, suppressed message',
 r'''
#include <zt.h>
#include <string.h>
int main(void) { static char o[999]; zt_log_ty *l = zt_log_file("o.log", 0, ZT_LOG_RAW); zt_log_set_level(l, zt_log_err);
  zt_log_set_debug_info("here.c", 77, "fn"); zt_log_lprintf(l, zt_log_debug, "hidden"); zt_log_lprintf(l, zt_log_err, "shown"); zt_log_close(l);
  FILE *f = fopen("o.log", "r"); fread(o, 1, 998, f); return strcmp(o, "shown\n") != 0; }
''')
seed('w01-kill-first', 'W01', [('src/libzt/zt_threads.c', '''        if (TAILQ_EMPTY(&tpool->iput_queue)) {
            if (tpool->kill) {''', '''        if (tpool->kill || TAILQ_EMPTY(&tpool->iput_queue)) {
            if (tpool->kill) {''')], 'stopping a pool while entries are still queued', 'entries queued when the pool is stopped are never processed',
 r'''
#include <zt.h>
#include <unistd.h>
static int n; static void *work(void *i, void *d) { usleep(2000); __sync_fetch_and_add(&n, 1); return NULL; }
int main(void) { struct zt_threadpool_callbacks cb = { NULL, NULL, NULL, work, NULL, NULL }; zt_threads_use_pthreads(); zt_threadpool_set_callbacks(&cb);
  zt_threadpool *p = zt_threadpool_init(2, 2, 0, 0); int i; zt_threadpool_start(p); for (i = 0; i < 50; i++) zt_threadpool_insert_iput(p, &n); zt_threadpool_kill(p); return n != 50; }
''')
