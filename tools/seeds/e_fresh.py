seed('s03-front-newline', 'S03', [('src/libzt/zt_cstr.c', '        len = strspn(str, WHITESPACE);', r'        len = strspn(str, WHITESPACE "\n");')],
 'a newline before the first other character', 'a newline that is not at the end is removed',
 r'''
#include <zt.h>
#include <string.h>
int main(void) { char a[] = " \n x "; zt_cstr_strip(a); return strcmp(a, "\n x"); }
''')
seed('m01-one-element-page', 'M01', [('src/libzt/zt_mem.c', '    if (elt->parent_page->num_free_elts == pool->elts_per_page - 1) {', '    if (elt->parent_page->num_free_elts && elt->parent_page->num_free_elts == pool->elts_per_page - 1) {')],
 'a pool whose pages hold a single (large) element', 'pages in use are counted as free',
 r'''
#include <zt.h>
int main(void) { zt_mem_pool *p = zt_mem_pool_init("p", 1, 5000, NULL, NULL, POOL_NEVER_FREE); zt_mem_pool_stats st; void *a = zt_mem_pool_alloc(p), *b = zt_mem_pool_alloc(p);
  zt_mem_pool_get_stats(p, &st); if (st.free_pages != 0 || st.pages != 2) return 1; zt_mem_pool_release(&a); zt_mem_pool_get_stats(p, &st); return st.free_pages != 1 || !b; }
''')
seed('m01-prefix-name', 'M01', [('src/libzt/zt_mem.c', 'if (olen == nlen && (strncmp(name, pool->name, nlen) == 0)) {', 'if (olen >= nlen && (strncmp(name, pool->name, nlen) == 0)) {')],
 'two pools one of whose names begins with that of the other', 'the wrong pool is found by name and its elements are of another size',
 r'''
#include <zt.h>
int main(void) { zt_mem_pool *a = zt_mem_pool_init("elements.large", 4, 16, NULL, NULL, 0), *b = zt_mem_pool_init("elements", 4, 400, NULL, NULL, 0);
  return zt_mem_pool_get("elements") != b || zt_mem_pool_get("elements.large") != a || zt_mem_pool_get("elem") != NULL; }
''')
seed('g01-next-before-mark', 'G01', [('src/libzt/zt_gc.c', '''        gc->clear_white(mark);
        gc->mark_fn(gc, gc->private_data, elt);

        next = gc->scan->next;''', '''        gc->clear_white(mark);
        next = gc->scan->next;
        gc->mark_fn(gc, gc->private_data, elt);
''')],
 'the last grey object is the only one that refers to others', 'what only that object refers to is released',
 r'''
#define ZT_WITH_GC
#include <zt.h>
struct o { zt_gc_collectable_t c; struct o *ref; int released; };
static void mark(zt_gc_t *gc, void *p, void *v) { struct o *x = v; (void)p; if (x->ref) zt_gc_mark(gc, x->ref); }
static void rel(zt_gc_t *gc, void *p, void **v) { (void)gc; (void)p; ((struct o *)*v)->released = 1; }
int main(void) { static struct o root, a, b; zt_gc_t *gc = zt_gc_init(NULL, mark, rel, 1000, 1000);
  zt_gc_prepare(gc, &root); zt_gc_prepare(gc, &a); zt_gc_prepare(gc, &b);
  zt_gc_register(gc, &root); zt_gc_protect(gc, &root); zt_gc_register(gc, &a); zt_gc_register(gc, &b); root.ref = &a; a.ref = &b;
  for (int i = 0; i < 5; i++) zt_gc_collect(gc, 1); return a.released || b.released; }
''')
seed('i01-clone-offset', 'I01', [('src/libzt/zt_bstream.c', '    clone->data = zt_array_copy(bs->data, zt_array_length(bs->data));', '    clone->data = zt_array_copy(bs->data, bs->offt ? bs->offt : zt_array_length(bs->data));')],
 'cloning a stream that is being read', 'the clone ends where the original has been read to',
 r'''
#include <zt.h>
int main(void) { zt_bstream_t b = zt_bstream_new(), c; uint16_t v = 0; zt_bstream_write_uint16(b, 1); zt_bstream_write_uint16(b, 2); zt_bstream_rewind(b); zt_bstream_read_uint16(b, &v); c = zt_bstream_clone(b);
  return zt_array_length(c->data) != zt_array_length(b->data); }
''')
seed('m02-not-cleared', 'M02', [('src/libzt/zt_ez_mempool.c', '    chunk->data    = zt_callocs(size, 1);', '    chunk->data    = free_cb ? zt_malloc(char, size) : zt_callocs(size, 1);')],
 'an allocation with a callback to free it, in memory that was used before', 'the memory handed out holds leftover data',
 r'''
#include <zt.h>
#include <string.h>
int main(void) { zt_ez_mempool *p = zt_ez_mempool_init(NULL); char *c; int i, j; void *o[8];
  for (j = 0; j < 20; j++) { for (i = 0; i < 8; i++) { o[i] = malloc(40); memset(o[i], 0xee, 40); } for (i = 0; i < 8; i++) free(o[i]); c = zt_ez_mempool_alloc(p, 40, free); for (i = 0; i < 40; i++) if (c[i]) return 1; }
  return 0; }
''')
seed('w03-shared-tokens', 'W03', [('src/libzt/zt_cstr.c', 'for (tok = strtok_r(str_copy, delim, &endptr); tok != NULL; tok = strtok_r(NULL, delim, &endptr)) {', 'for (tok = strtok(str_copy, delim); tok != NULL; tok = strtok(NULL, delim)) {')],
 'two threads that split texts of their own at the same time', 'the position between two tokens is kept where all threads share it: pieces of one text show up in, or get lost from, the other thread\'s result',
 r'''
#include <zt.h>
#include <pthread.h>
#include <string.h>
static volatile int bad, done;
static void *go(void *a) { char *t = a; int i, j; for (i = 0; i < 20000 && !bad; i++) { zt_ptr_array *p = zt_cstr_split(t, ","); if (!p || p->count != 20) { bad = 1; break; }
  for (j = 0; j < 20; j++) if (strlen((char *)zt_ptr_array_get_idx(p, j)) != 2 || *(char *)zt_ptr_array_get_idx(p, j) != *t) bad = 1; zt_ptr_array_free(p, 1); } return 0; }
int main(void) { char a[64] = "", b[64] = ""; int i; pthread_t x, y; for (i = 0; i < 20; i++) { strcat(a, i ? ",aa" : "aa"); strcat(b, i ? ",bb" : "bb"); }
  pthread_create(&x, 0, go, a); pthread_create(&y, 0, go, b); pthread_join(x, 0); pthread_join(y, 0); return bad; }
''')
seed('w03-shared-flags', 'W03', [('src/libzt/zt_format.c', '            unsigned char c, flags[256];', '            unsigned char c;\n            static unsigned char flags[256];')],
 'two threads that format numbers with different flags at the same time', 'the flags of a conversion are kept where all threads share them: text is padded, aligned or signed as another thread asked',
 r'''
#include <zt.h>
#include <pthread.h>
#include <string.h>
static volatile int bad;
static void *go(void *a) { int which = *(int *)a, i; char b[40]; for (i = 0; i < 400000 && !bad; i++) { zt_fmt_sprintf(b, sizeof b, which ? "%-6d|" : "%06d|", 42); if (strcmp(b, which ? "42    |" : "000042|")) bad = 1; } return 0; }
int main(void) { int q = 0, r = 1; pthread_t x, y; pthread_create(&x, 0, go, &q); pthread_create(&y, 0, go, &r); pthread_join(x, 0); pthread_join(y, 0); return bad; }
''')
