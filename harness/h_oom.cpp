// running out of memory: one allocation, or all from some point on, fail inside library calls
#include "pbt.h"
#include "zthdr.h"
extern "C" {
#include <libzt/zt_gc.h>
#include <libzt/zt_unit.h>
}
#include <sanitizer/allocator_interface.h>
#include <sys/mman.h>
#include <sys/resource.h>
static size_t heap() { return __sanitizer_get_current_allocated_bytes(); }

// every allocation of the library goes through these (linked with --wrap)
static volatile bool on, hit, child, faulty; static long cnt, at = -1, until = -1;
static bool deny() { if (!on) return false; long c = cnt++; if (at < 0 || c < at || c >= until) return false; hit = faulty = true; errno = ENOMEM; return true; }
static bool huge(size_t n, size_t m) { size_t z; if (!on || (!__builtin_mul_overflow(n, m, &z) && z < (1u << 28))) return false; hit = faulty = true; errno = ENOMEM; return true; }
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); char *__real_strdup(const char *); char *__real_strndup(const char *, size_t); void __real_abort(void) __attribute__((noreturn));
void *__wrap_malloc(size_t n) { return deny() || huge(n, 1) ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return deny() || huge(n, m) ? NULL : __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { return deny() || huge(n, 1) ? NULL : __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { return deny() ? NULL : __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t n) { return deny() ? NULL : __real_strndup(s, n); }
void __wrap_abort(void) { if (child) { fflush(stderr); _exit(faulty ? 42 : 43); } __real_abort(); }
}
template <class F> static auto lib(F f) { hit = false; on = true; struct Off { ~Off() { on = false; } } off; return f(); }
#define LIB(...) lib([&] { return __VA_ARGS__; })
struct Stop {};                         // a call reported that it ran out of memory
static bool reported;
#define MAY(c, what) do { if (!(c)) { CHECK(hit, "%s failed although it got all memory", what); reported = true; } } while (0)

typedef std::function<void()> Act;
static bool cold;                       // first run in this process: the statics of the library keep memory
// a call that builds a text: the same call without faults says which
static void text(const char *what, const std::function<char *()> &f) {
    char *w = f(); std::string want = w ? w : ""; bool none = !w; free(w);
    char *r = lib(f); if (none) { CHECK(!r); return; } MAY(r != NULL, what); if (r) CHECK(want == r, "%s says %s where %s is due", what, show(r).c_str(), show(want).c_str()); free(r);
}
static void parts(const char *what, const std::function<zt_ptr_array *()> &f) {
    zt_ptr_array *w = f(); std::vector<std::string> want; if (w) for (int i = 0; i < w->count; i++) want.push_back((char *)zt_ptr_array_get_idx(w, i)); if (w) zt_cstr_split_free(w);
    zt_ptr_array *r = lib(f); if (!w) { CHECK(!r); return; } MAY(r != NULL, what); if (!r) return; CHECK(r->count == (int)want.size(), "%s gives %d parts where %zu are due", what, (int)r->count, want.size()); for (int i = 0; i < r->count; i++) { char *s = (char *)zt_ptr_array_get_idx(r, i); CHECK(s && want[(size_t)i] == s, "part %d of %s is %s", i, what, s ? s : "(null)"); } zt_cstr_split_free(r);
}
static int dtors; static void dtor(void *) { dtors++; }
static int upc(int c) { return toupper(c); }
static zt_mem_pool_desc pdesc[4];
static void spitf(const char *f, const std::string &s) { FILE *o = fopen(f, "w"); CHECK(o); fwrite(s.data(), 1, s.size(), o); fclose(o); }
static std::string slurp(const char *f) { std::string s; FILE *o = fopen(f, "r"); if (!o) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, o)) > 0) s.append(b, n); fclose(o); return s; }
static std::vector<std::string> opterrs; static int operr(int, char *f, ...) { opterrs.push_back(f); return -1; }
static void gcmark(zt_gc_t *, void *, void *) {}
static void gcrel(zt_gc_t *, void *, void **v) { dtors++; *v = NULL; }
static void utest(struct zt_unit_test *t, void *) { ZT_UNIT_ASSERT(t, 1); zt_unit_test_add_assertion(t); }
static int setcmp(const void *a, size_t, const void *b, size_t, void *) { return !strcmp((const char *)a, (const char *)b); }

static Act scenario(Gen &g, std::string &name) {
    int k = (int)g.u(29); if (const char *o = getenv("OOM_K")) k = atoi(o);
    switch (k) {
    case 0: { name = "cstr"; std::string s = g.strn("abcdef /.", 1 + g.u(30)), t = g.strn("xyz", 1 + g.u(5)); int i = (int)g.range(-8, 8), j = (int)g.range(-8, 8), op = (int)g.u(6), n = 1 + (int)g.u(5);
        return [=] { text("a string operation", [=]() -> char * { switch (op) { case 0: return zt_cstr_sub(s.c_str(), i, j); case 1: return zt_cstr_dup(s.c_str(), i, j, n); case 2: return zt_cstr_cat(s.c_str(), i, j, t.c_str(), 0, -1); case 3: return zt_cstr_catv(s.c_str(), i, j, t.c_str(), 0, -1, s.c_str(), 0, -1, NULL); case 4: return zt_cstr_reverse(s.c_str(), i, j); case 5: return zt_cstr_map(s.c_str(), i, j, "abc", "xyz"); default: return zt_cstr_path_append(s.c_str(), t.c_str()); } }); }; }
    case 1: { name = "split"; std::string s = g.str("ab,;", 60); int op = (int)g.u(3), keep = g.coin();
        return [=] { parts(op == 0 ? "splitting" : op == 1 ? "cutting" : "tokenising", [=] { return op == 0 ? zt_cstr_split(s.c_str(), ",;") : op == 1 ? zt_cstr_cut(s.c_str(), ',', keep) : zt_cstr_tok(s.c_str(), ',', keep); }); }; }
    case 2: { name = "base"; std::string s = g.bytestr(60); int a = (int)g.u(5); zt_base_definition_t *D[] = {zt_base64_rfc, zt_base64_rfc_nopad, zt_base64_uri, zt_base32_rfc, zt_base32_hex, zt_base16_rfc}; zt_base_definition_t *d = D[a];
        return [=] { void *o = NULL; size_t n = 0; int r = LIB(zt_base_encode(d, s.data(), s.size(), &o, &n)); MAY(r == 0, "encoding"); if (r) return; void *q = NULL; size_t m = 0; r = LIB(zt_base_decode(d, o, n, &q, &m)); MAY(r == 0, "decoding"); if (!r) CHECK(m == s.size() && (!m || !memcmp(q, s.data(), m)), "decoding gives something else"); free(o); free(q); }; }
    case 3: { name = "uuid"; int f = (int)g.u(3); zt_uuid_t u; for (auto &b : u.data.bytes) b = (uint8_t)g.u(255); zt_uuid_flags_t F[] = {zt_uuid_std_fmt, zt_uuid_short_fmt, zt_uuid_base62_fmt, zt_uuid_base62_hashable_fmt}; zt_uuid_flags_t fl = F[f];
        return [=] { zt_uuid_t v = u; text("printing a UUID", [=]() mutable { char *s = NULL; ssize_t n = zt_uuid_tostr(&v, &s, fl); if (n < 0) CHECK(!s); return s; }); zt_uuid_t x, y; int r = LIB(zt_uuid4(&x)); MAY(r == 0, "a random UUID"); int r2 = LIB(zt_uuid4(&y)); if (!r && !r2) CHECK(memcmp(&x, &y, sizeof x), "the same UUID twice"); }; }
    case 4: { name = "format"; std::string s = g.strn("abc", g.u(900)); int w = (int)g.u(600), n = (int)g.bits(32); return [=] { text("formatting", [=] { return zt_fmt_strprintf("%s|%*d|%s", s.c_str(), w, n, s.c_str()); }); }; }
    case 5: { name = "texts"; int op = (int)g.u(3), c = (int)g.u(100); std::string s = g.strn("abc", g.u(200)); return [=] { text("a text", [=]() -> char * { switch (op) { case 0: return zt_opt_error_str(c, (char *)"%s", s.c_str()); case 1: return zt_ipv4_int2ip((uint32_t)c * 77777777u); case 2: return zt_os_progpath(); default: { int fd = open("trig", O_CREAT | O_WRONLY, 0600); close(fd); return zt_find_basedir("./a/b", "trig"); } } }); }; }
    case 6: { name = "buf"; std::vector<std::string> v; int n = 1 + (int)g.u(6); for (int i = 0; i < n; i++) v.push_back(g.blob(1 + g.u(3000))); std::vector<int> op; for (int i = 0; i < n; i++) op.push_back((int)g.u(5));
        return [=] { zt_buf_t *b = LIB(zt_buf_new()); MAY(b != NULL, "a new buffer"); if (!b) return; std::string m; for (size_t i = 0; i < v.size(); i++) { int r; switch (op[i]) { case 0: case 1: r = LIB(zt_buf_add(b, (void *)v[i].data(), v[i].size())); MAY(r == 0, "adding"); if (!r) m += v[i]; break; case 2: r = LIB(zt_buf_reserve(b, v[i].size())); MAY(r == 0, "reserving"); if (!r) CHECK(zt_buf_unused_sz(b) >= v[i].size(), "not reserved"); break; case 3: zt_buf_drain(b, v[i].size() / 3); m.erase(0, std::min(m.size(), v[i].size() / 3)); break; case 4: { zt_buf_t *o = zt_buf_new(); if (!o) break; zt_buf_add(o, (void *)v[i].data(), v[i].size()); r = LIB(zt_buf_add_buf(b, o)); MAY(r == 0, "moving"); CHECK(zt_buf_length(o) == (r ? v[i].size() : 0), "the other buffer holds %zu bytes after moving said %d", zt_buf_length(o), r); if (!r) m += v[i]; zt_buf_free(o); break; } default: { zt_iov_t io[2]; for (int z = 0; z < 2; z++) { io[z].iov_data = (void *)v[i].data(); io[z].iov_len = v[i].size() / (size_t)(z + 1); } r = LIB(zt_buf_iov_add(b, io, 2)); MAY(r == 0, "gathering"); if (!r) m += v[i] + v[i].substr(0, v[i].size() / 2); else { size_t l = zt_buf_length(b); CHECK(l == m.size() || l == m.size() + v[i].size(), "half of a gathered part was added"); if (l > m.size()) m += v[i]; } } } CHECK(zt_buf_length(b) == m.size() && (m.empty() || !memcmp(zt_buf_get(b), m.data(), m.size())), "the content of the buffer changed"); } zt_buf_free(b); }; }
    case 7: { name = "ptr_array"; int n = (int)g.u(200), m = (int)g.u(80); return [=] { zt_ptr_array *a = LIB(zt_ptr_array_init(NULL, NULL)); MAY(a != NULL, "a new array"); if (!a) return; zt_ptr_array *b = zt_ptr_array_init(NULL, NULL); std::vector<void *> w; for (int i = 0; i < n; i++) { void *p = (void *)(long)(i + 1); int r = LIB(zt_ptr_array_add(a, p)); MAY(r == 0, "adding"); if (!r) w.push_back(p); } for (int i = 0; i < m; i++) zt_ptr_array_add(b, (void *)(long)(1000 + i)); int r = LIB(zt_ptr_array_cat(a, b)); MAY(r == 0, "appending"); CHECK(a->count >= (int)w.size() && (r != 0 || a->count == (int)w.size() + m), "%d pointers, %zu were added", (int)a->count, w.size()); for (size_t i = 0; i < w.size(); i++) CHECK(zt_ptr_array_get_idx(a, (int)i) == w[i], "pointer %zu", i); zt_ptr_array_free(a, 0); zt_ptr_array_free(b, 0); }; }
    case 8: { name = "array"; size_t n = 1 + g.u(50), sz = 1 + g.u(8), m = g.u(200); std::string d = g.blob(n * sz); int how = (int)g.u(2); return [=] { zt_array_t a = how == 0 ? LIB(zt_array_with((char *)d.data(), n, sz, 1)) : how == 1 ? LIB(zt_array_new(n, sz)) : LIB(zt_array_with_cstr((char *)"some text")); MAY(a != NULL, "a new array"); if (!a) return; if (how == 1) for (size_t i = 0; i < n; i++) zt_array_put(a, i, (void *)(d.data() + i * sz)); size_t l = zt_array_length(a), es = zt_array_size(a); std::string w(zt_array_data(a), l * es); if (how < 2) CHECK(w == d); zt_array_t c = LIB(zt_array_copy(a, m)); MAY(c != NULL, "a copy"); if (c) { CHECK(zt_array_length(c) == m); size_t k = std::min(m, l) * es; CHECK(!k || !memcmp(zt_array_data(c), w.data(), k), "the copy is different"); zt_array_free(&c); } lib([&] { zt_array_resize(a, m); return 0; }); size_t k = std::min(zt_array_length(a), l) * es; CHECK(!k || !memcmp(zt_array_data(a), w.data(), k), "resizing changed the elements"); if (!hit) CHECK(zt_array_length(a) == m); zt_array_free(&a); }; }
    case 9: case 10: { name = "table"; int n = (int)g.u(g.coin() ? 20 : 300); size_t hint = g.u(40); bool nm = g.coin(); return [=] { zt_table *t = LIB(zt_table_init(nm ? (char *)"tbl" : NULL, zt_table_hash_int, zt_table_compare_int, hint, 0, NULL)); MAY(t != NULL, "a new table"); if (!t) return; std::vector<char> in; for (int i = 0; i < n; i++) { int r = LIB(zt_table_set(t, (void *)(long)(i * 7), 4, (void *)(long)(i + 1), 0)); MAY(r == 0, "setting a key"); in.push_back(r == 0); void *p = zt_table_get(t, (void *)(long)(i * 7), 4); CHECK(p == (r == 0 ? (void *)(long)(i + 1) : NULL), "key %d is %p after setting it said %d", i, p, r); } for (int i = 0; i < n; i++) { void *p = zt_table_get(t, (void *)(long)(i * 7), 4); CHECK((p != NULL) == (in[(size_t)i] != 0), "key %d was lost", i); } zt_table *c = zt_table_init(NULL, zt_table_hash_int, zt_table_compare_int, 0, 0, NULL); if (c) { int had = 0; for (char x : in) had |= x; int r = LIB(zt_table_copy(t, c)); MAY(r == had, "copying"); for (int i = 0; i < n && r == had; i++) CHECK(zt_table_get(c, (void *)(long)(i * 7), 4) == (in[(size_t)i] ? (void *)(long)(i + 1) : NULL), "key %d of the copy", i); zt_table_destroy(c); } zt_table_destroy(t); }; }
    case 11: { name = "set"; std::vector<std::string> v; bool many = g.chance(1, 4); int n = many ? 250 + (int)g.u(400) : (int)g.u(12); for (int i = 0; i < n; i++) v.push_back(many ? fmt("%d", i) : g.strn("ab", 1 + g.u(3))); int op = (int)g.u(2); if (many && op == 1) op = 0; return [=] { zt_set *s = LIB(zt_set_init(setcmp, NULL, NULL)), *t = zt_set_init(setcmp, NULL, NULL), *u = zt_set_init(setcmp, NULL, NULL); MAY(s != NULL, "a new set"); if (s) { std::set<std::string> w, x; for (size_t i = 0; i < v.size(); i++) { int r = LIB(zt_set_insert(s, v[i].c_str(), v[i].size())); MAY(r == (int)w.count(v[i]), "inserting"); if (r == 0) w.insert(v[i]); CHECK(zt_set_size(s) == w.size(), "the set has %zu elements instead of %zu after inserting said %d", (size_t)zt_set_size(s), w.size(), r); CHECK((zt_set_is_member(s, v[i].c_str(), v[i].size()) != 0) == (w.count(v[i]) != 0)); if (i % 2) { zt_set_insert(t, v[i].c_str(), v[i].size()); x.insert(v[i]); } } int r = op == 0 ? LIB(zt_set_union(u, s, t)) : op == 1 ? LIB(zt_set_intersection(u, s, t)) : LIB(zt_set_difference(u, s, t)); std::set<std::string> y; if (op == 0) { y = w; y.insert(x.begin(), x.end()); } else for (auto &e : w) if (x.count(e) == (op == 1)) y.insert(e); if (!hit) CHECK(zt_set_size(u) == y.size()); else if (r >= 0) CHECK(zt_set_size(u) == y.size(), "an incomplete set was given"); zt_set_destroy(s); } zt_set_destroy(t); zt_set_destroy(u); }; }
    case 12: case 13: { name = "mem_pool"; int elts = (int)g.u(60), n = (int)g.u(100); size_t sz = 1 + g.u(g.coin() ? 40 : 3000); return [=] { zt_mem_pool *p = LIB(zt_mem_pool_init((char *)"pool", elts, sz, NULL, NULL, 0)); MAY(p != NULL, "a new pool"); if (!p) { CHECK(!zt_mem_pool_get((char *)"pool"), "a pool that was not made is found"); return; } CHECK(zt_mem_pool_get((char *)"pool") == p); std::vector<char *> v; for (int i = 0; i < n; i++) { char *e = (char *)LIB(zt_mem_pool_alloc(p)); MAY(e != NULL, "an element"); if (!e) continue; memset(e, i, sz); v.push_back(e); } for (auto e : v) { char *x = e; zt_mem_pool_release((void **)&x); } CHECK(zt_mem_pool_destroy(&p) == 0, "the empty pool cannot be destroyed"); CHECK(!zt_mem_pool_get((char *)"pool")); }; }
    case 14: { name = "mem_pool_group"; int n = 1 + (int)g.u(2), m = (int)g.u(40); std::vector<size_t> sz; for (int i = 0; i < n; i++) sz.push_back(8 + g.u(500)); return [=] { static const char *N[] = {"g0", "g1", "g2"}; for (int i = 0; i < n; i++) { pdesc[i].name = (char *)N[i]; pdesc[i].elts = 3; pdesc[i].size = sz[(size_t)i]; } zt_mem_pool_group *p = LIB(zt_mem_pool_group_init(pdesc, (size_t)n)); MAY(p != NULL, "a new group"); if (!p) { for (auto s : N) CHECK(!zt_mem_pool_get((char *)s), "a pool of a group that was not made remains"); return; } std::vector<void *> v; for (int i = 0; i < m; i++) { void *e = LIB(zt_mem_pool_group_alloc(p, 8)); MAY(e != NULL, "an element"); if (e) { memset(e, i, 8); v.push_back(e); } } for (auto e : v) zt_mem_pool_release(&e); CHECK(zt_mem_pool_group_destroy(p) == 0); }; }
    case 15: { name = "mem_heap"; size_t n = 1 + g.u(5000); return [=] { zt_mem_heap *h = LIB(zt_mem_heap_init((char *)"heap", n)); MAY(h != NULL, "a new heap"); if (!h) return; memset(zt_mem_heap_get_data(h), 1, n); CHECK(!strcmp(zt_mem_heap_get_name(h), "heap"), "the heap has no name"); zt_mem_heap_destroy(&h); }; }
    case 16: { name = "ez_mempool"; int n = (int)g.u(20); std::vector<int> op; for (int i = 0; i < n; i++) op.push_back((int)g.u(3)); return [=] { dtors = 0; int due = 0; zt_ez_mempool *p = LIB(zt_ez_mempool_init(NULL)); MAY(p != NULL, "a new pool"); if (!p) return; static char buf[4]; std::vector<zt_ez_mempool *> all = {p}; for (size_t i = 0; i < op.size(); i++) { zt_ez_mempool *q = all[i % all.size()]; switch (op[i]) { case 0: { zt_ez_mempool *c = LIB(zt_ez_mempool_init(q)); MAY(c != NULL, "a pool below"); if (c) all.push_back(c); break; } case 1: { char *m = (char *)LIB(zt_ez_mempool_alloc(q, i + 1, NULL)); MAY(m != NULL, "memory"); if (m) for (size_t z = 0; z <= i; z++) CHECK(!m[z]); break; } case 2: { char *m = LIB(zt_ez_mempool_strdup(q, "text")); MAY(m != NULL, "a string"); if (m) CHECK(!strcmp(m, "text")); break; } default: { int r = LIB(zt_ez_mempool_add_buffer(q, buf, 4, dtor)); MAY(r == 0, "a buffer"); due += r == 0; } } } zt_ez_mempool_destroy(p); CHECK(dtors == due, "%d buffers given back of %d", dtors, due); }; }
    case 17: { name = "bstream"; int n = 1 + (int)g.u(30); bool cl = g.coin(); return [=] { zt_bstream_t b = LIB(zt_bstream_new()); MAY(b != NULL, "a new stream"); if (!b) return; for (int i = 0; i < n; i++) lib([&] { zt_bstream_write_uint32(b, (uint32_t)i * 99991u); return 0; }); zt_bstream_rewind(b); for (int i = 0; i < n; i++) { uint32_t v = 0; zt_bstream_read_uint32(b, &v); CHECK(v == (uint32_t)i * 99991u, "value %d reads back as %u", i, v); } if (cl) { zt_bstream_t c = LIB(zt_bstream_clone(b)); MAY(c != NULL, "a clone"); if (c) { zt_bstream_rewind(c); uint32_t v; zt_bstream_read_uint32(c, &v); CHECK(v == 0); zt_bstream_free(&c); } } zt_bstream_free(&b); }; }
    case 18: { name = "ipv4"; uint32_t sz = 1u << g.u(6); std::vector<std::string> v; int n = (int)g.u(30); for (int i = 0; i < n; i++) v.push_back(fmt("10.%d.%d.0/%d", (int)g.u(3), (int)g.u(255), 9 + (int)g.u(23))); return [=] { zt_ipv4_tbl *t = LIB(zt_ipv4_tbl_init(sz)); MAY(t != NULL, "a new table"); if (!t) return; for (auto &s : v) { zt_ipv4_node *x = LIB(zt_ipv4_tbl_add_frm_str(t, s.c_str())); MAY(x != NULL, "adding a network"); zt_ipv4_node *f = LIB(zt_ipv4_tbl_search_from_str(t, s.c_str())); if (x) MAY(f != NULL, "finding a network"); if (x && !f) f = zt_ipv4_tbl_search_from_str(t, s.c_str()); if (x) CHECK(f != NULL, "a network that was added is not found"); } zt_ipv4_tbl_destroy(t); }; }
    case 19: { name = "gc"; int n = (int)g.u(40); return [=] { struct O { zt_gc_collectable_t m; }; static O *objs; free(objs); objs = (O *)calloc(41, sizeof(O)); dtors = 0; zt_gc_t *gc = LIB(zt_gc_init(NULL, gcmark, gcrel, 3, 4)); MAY(gc != NULL, "a new collector"); if (!gc) return; for (int i = 0; i < n; i++) { zt_gc_prepare(gc, &objs[i]); lib([&] { zt_gc_register(gc, &objs[i]); return 0; }); } zt_gc_destroy(gc); CHECK(dtors == n, "%d objects released of %d", dtors, n); free(gc); free(objs); objs = NULL; }; }
    case 20: { name = "opts"; int n = 1 + (int)g.u(20); std::vector<std::string> v; for (int i = 0; i < n; i++) v.push_back((i == 0 && g.coin() ? "--str=" : "--arr=") + g.strn("abc", 1 + g.u(10))); return [=] { char *str = NULL, **arr = NULL; zt_opt_def_t d[] = {{'s', (char *)"str", (char *)"x", zt_opt_string, &str, (char *)"h"}, {'a', (char *)"arr", (char *)"x", zt_opt_string_array, &arr, (char *)"h"}, {0, NULL, NULL, NULL, NULL, NULL}}; std::vector<char *> av = {(char *)"p"}; for (auto &s : v) av.push_back((char *)s.c_str()); av.push_back(NULL); int ac = n + 1; opterrs.clear(); int r = LIB(zt_opt_process_args(&ac, av.data(), d, NULL, operr)); MAY(r == 0 && opterrs.empty(), "processing options"); std::string ws; std::vector<std::string> wa; for (auto &s : v) if (s[2] == 's') ws = s.substr(6); else wa.push_back(s.substr(6)); if (r == 0 && opterrs.empty()) { CHECK((str ? std::string(str) : "") == ws, "the string option is %s instead of %s", str ? str : "(null)", ws.c_str()); size_t i = 0; if (arr) for (; arr[i]; i++) CHECK(i < wa.size() && wa[i] == arr[i], "array option %zu", i); CHECK(i == wa.size(), "%zu array options where %zu are due", i, wa.size()); } free(str); if (arr) { for (char **p = arr; *p; p++) free(*p); free(arr); } }; }
    case 21: case 22: { name = "cfg"; int n = 1 + (int)g.u(10); std::string t = "[main]\n"; for (int i = 0; i < n; i++) { switch (g.u(4)) { case 0: t += fmt("v%d = %d\n", i, i * 3); break; case 1: t += fmt("v%d = 'text %d'\n", i, i); break; case 2: t += fmt("v%d = yes\n", i); break; case 3: t += fmt("v%d = main.v0\n", i); break; default: t += fmt("[b%d]\n", i); } } int sets = (int)g.u(4); return [=] { spitf("cfgfile", t); zt_cfg_ty *w = zt_cfg_ini((char *)"cfgfile", 0), *c = LIB(zt_cfg_ini((char *)"cfgfile", 0)); CHECK(w); MAY(c != NULL, "reading a file"); if (c) { static const char *B[] = {"main", "b1", "b2", "b3"}; for (auto b : B) for (int i = 0; i < n; i++) for (int ty = 0; ty < 4; ty++) { std::string v = fmt("v%d", i); union { long l; char *s; double f; int b; } x, y; memset(&x, 0, sizeof x); memset(&y, 0, sizeof y); int r1 = zt_cfg_get(w, (char *)b, (char *)v.c_str(), &x, (zt_cfg_type)ty), r2 = LIB(zt_cfg_get(c, (char *)b, (char *)v.c_str(), &y, (zt_cfg_type)ty)); MAY(r1 == r2, "reading a value"); if (r1 == r2 && r1 >= 0) CHECK(ty == zt_cfg_string ? !strcmp(x.s, y.s) : x.l == y.l, "%s.%s is different", b, v.c_str()); } for (int i = 0; i < sets; i++) { std::string b = i % 2 ? "main" : "new", v = fmt("s%d", i), val = fmt("value %d", i); char *p = (char *)val.c_str(); long l = i; int r = i % 3 ? LIB(zt_cfg_set(c, (char *)b.c_str(), (char *)v.c_str(), &p, zt_cfg_string)) : LIB(zt_cfg_set(c, (char *)b.c_str(), (char *)v.c_str(), &l, zt_cfg_int)); MAY(r >= 0, "setting a value"); if (r >= 0) { char *s = NULL; long q = -1; if (i % 3) { CHECK(zt_cfg_get_string(c, (char *)b.c_str(), (char *)v.c_str(), &s) >= 0 && s && val == s, "a value that was set is not there"); } else CHECK(zt_cfg_get_int(c, (char *)b.c_str(), (char *)v.c_str(), &q) >= 0 && q == i, "a value that was set is not there"); } } zt_cfg_close(c); } zt_cfg_close(w); }; }
    case 23: case 24: { name = "log"; unsigned o = (unsigned)g.u(31) & ~(unsigned)ZT_LOG_WITH_DATE; int n = 1 + (int)g.u(5); bool err = g.coin(); std::string s = g.strn("abc", g.u(600)); return [=] { unlink("logfile"); zt_log_ty *w = zt_log_file((char *)"logfile", ZT_LOG_FILE_OVERWRITE, (int)o); CHECK(w); for (int i = 0; i < n; i++) if (err) zt_log_lstrerror(w, zt_log_err, EACCES, "m%d %s", i, s.c_str()); else zt_log_lprintf(w, zt_log_err, "m%d %s", i, s.c_str()); zt_log_close(w); std::string want = slurp("logfile"); zt_log_ty *l = LIB(zt_log_file((char *)"logfile", ZT_LOG_FILE_OVERWRITE, (int)o)); MAY(l != NULL, "a new log"); if (!l) return; bool any = false; for (int i = 0; i < n; i++) { lib([&] { if (err) zt_log_lstrerror(l, zt_log_err, EACCES, "m%d %s", i, s.c_str()); else zt_log_lprintf(l, zt_log_err, "m%d %s", i, s.c_str()); return 0; }); any |= hit; } zt_log_close(l); std::string got = slurp("logfile"); CHECK(got == want, "the log says %s where %s is due", show(got).c_str(), show(want).c_str()); (void)any; }; }
    case 25: { name = "first log"; return [=] { static int i; i++; lib([&] { zt_log_lprintf(NULL, zt_log_err, "message %d", i); return 0; }); }; }
    case 26: { name = "llist"; int n = (int)g.u(30); return [=] { zt_llist l = NULL; for (int i = 0; i < n; i++) { zt_llist r = LIB(zt_llist_push((void *)(long)(i + 1), &l)); CHECK(r == l && r); } for (int i = n; i > 0; i--) CHECK(zt_llist_pop(&l) == (void *)(long)i); CHECK(!l); }; }
    case 27: { name = "unit"; int n = 1 + (int)g.u(5); return [=] { struct zt_unit *u = LIB(zt_unit_init()); MAY(u != NULL, "a new runner"); if (!u) return; int so = dup(1), nl = open("/dev/null", O_WRONLY); fflush(stdout); dup2(nl, 1); close(nl); struct zt_unit_suite *s = LIB(zt_unit_register_suite(u, (char *)"suite", NULL, NULL, NULL)); MAY(s != NULL, "a suite"); if (s) { int got = 0; for (int i = 0; i < n; i++) { struct zt_unit_test *t = LIB(zt_unit_register_test(s, fmt("t%d", i).c_str(), utest)); MAY(t != NULL, "a test"); got += t != NULL; } int r = LIB(zt_unit_run(u)); CHECK(r == 0); CHECK(u->tests == got && u->successes == got, "%d tests ran of %d", u->tests, got); } zt_unit_release(&u); fflush(stdout); dup2(so, 1); close(so); }; }
    case 28: { name = "threads"; int n = (int)g.u(10); bool pi = g.coin(), po = g.coin(), sta = g.chance(1, 3); int th = 1 + (int)g.u(4); return [=] { zt_threads_use_pthreads(); zt_threads_mutex *m = LIB(zt_threads_alloc_lock(0)); MAY(m != NULL, "a lock"); if (m) { CHECK(!zt_threads_lock(0, m) && !zt_threads_unlock(0, m)); zt_threads_free_lock(m, 0); } zt_threads_cond *c = LIB(zt_threads_cond_alloc(0)); MAY(c != NULL, "a condition"); if (c) zt_threads_cond_free(c); zt_threads_thread *t = LIB(zt_threads_alloc_thread()); MAY(t != NULL, "a thread"); free(t); int fd0 = dup(0); close(fd0); zt_threadpool *p = LIB(zt_threadpool_init(th, th, pi, po)); MAY(p != NULL, "a thread pool"); if (!p) { int fd1 = dup(0); close(fd1); CHECK(fd0 == fd1, "pipes of a pool that was not made stay open"); return; } std::vector<int> in; for (int i = 0; i < n; i++) { int r = LIB(zt_threadpool_insert_oput(p, (void *)(long)(i + 1))); MAY(r == 0, "inserting"); if (!r) in.push_back(i + 1); r = LIB(zt_threadpool_insert_iput(p, (void *)(long)(i + 1))); MAY(r == 0, "inserting"); } for (int i : in) CHECK(zt_threadpool_get_oput(p) == (void *)(long)i, "item %d was lost", i); CHECK(!zt_threadpool_get_oput(p)); while (!TAILQ_EMPTY(&p->iput_queue)) { zt_threadpool_entry *e = TAILQ_FIRST(&p->iput_queue); TAILQ_REMOVE(&p->iput_queue, e, next); free(e); } CHECK(p->iput_mutex && p->oput_mutex && p->iput_cond && p->oput_cond && p->iput_threads && p->oput_threads, "a thread pool lacks a part"); if (sta) { int r = LIB(zt_threadpool_start(p)); MAY(r == 0, "starting the threads"); for (int i = 0; i < th; i++) if (r == 0) CHECK(p->iput_threads[i] && p->oput_threads[i], "a thread is missing"); CHECK(zt_threadpool_kill(p) == 0); for (int i = 0; i < th; i++) { free(p->iput_threads[i]); free(p->oput_threads[i]); } } zt_threads_free_lock(p->iput_mutex, 0); zt_threads_free_lock(p->oput_mutex, 0); zt_threads_cond_free(p->iput_cond); zt_threads_cond_free(p->oput_cond); free(p->iput_threads); free(p->oput_threads); for (int fd : {p->iput_fd_sigs[0], p->iput_fd_sigs[1], p->oput_fd_sigs[0], p->oput_fd_sigs[1]}) if (fd >= 0) close(fd); free(p); }; }
    default: { name = "wrappers"; size_t n = 1 + g.u(3000), m = 1 + g.u(3000); return [=] { unsigned char *p = LIB((unsigned char *)zt_calloc_p(n, 2)); CHECK(p); for (size_t i = 0; i < 2 * n; i++) CHECK(!p[i]); memset(p, 7, 2 * n); p = LIB((unsigned char *)zt_realloc_p(p, m)); CHECK(p); for (size_t i = 0; i < std::min(m, 2 * n); i++) CHECK(p[i] == 7); memset(p, 1, m); free(p); p = LIB((unsigned char *)zt_malloc_p(n)); CHECK(p); memset(p, 1, n); free(p); char *s = LIB(zt_strdup_p("text")); CHECK(s && !strcmp(s, "text")); free(s); }; }
    }
}
static std::string home;
// sizes no memory can have: what is asked for is more than a size_t can say, or nearly
static size_t big(Gen &g, size_t unit) { size_t q = SIZE_MAX / unit; switch (g.u(3)) { case 0: return q + 1 + g.u(200); case 1: return q - g.u(200); case 2: { size_t p = (size_t)1 << (34 + g.u(29)); return p + g.u(3); } default: return q / 2 + g.u(q / 2); } }
struct Big { char c[4096]; };
static Act impossible(Gen &g, std::string &name) {
    int k = (int)g.u(13); size_t unit = 1 + g.u(g.coin() ? 16 : 5000), n = big(g, unit); if (n < ((size_t)1 << 34) / unit) n = SIZE_MAX / unit + 1; if (unit == 1 && n < ((size_t)1 << 34)) n = SIZE_MAX - g.u(100);
    bool fits = unit != 0 && n <= ((size_t)1 << 28) / unit; if (fits) n = SIZE_MAX;
    std::string s = g.strn("ab", unit); std::string q = fmt("%zu of %zu", n, unit); if (g.coin()) std::swap(n, unit);
    size_t m = std::max(n, unit), u1 = std::min(n, unit);
    switch (k) {
    case 0: name = "array_new " + q; return [=] { zt_array_t a = LIB(zt_array_new(n, unit)); if (a) FAIL("an array of %zu elements of %zu bytes was made", n, unit); reported = true; };
    case 1: name = "array_resize " + q; return [=] { if (u1 > 100000) return; zt_array_t a = zt_array_new(1 + u1 % 3, u1); std::string w(zt_array_length(a) * u1, 'w'); memcpy(zt_array_data(a), w.data(), w.size()); size_t l = zt_array_length(a); lib([&] { zt_array_resize(a, m); return 0; }); CHECK(zt_array_length(a) == l && !memcmp(zt_array_data(a), w.data(), w.size()), "resizing to %zu elements of %zu bytes is not possible", m, u1); zt_array_free(&a); reported = true; };
    case 2: name = "array_resize of an empty one " + q; return [=] { zt_array_t a = zt_array_new(0, u1); lib([&] { zt_array_resize(a, m); return 0; }); CHECK(zt_array_length(a) == 0, "resizing to %zu elements of %zu bytes is not possible", m, u1); zt_array_free(&a); reported = true; };
    case 3: name = "array_copy " + q; return [=] { zt_array_t a = zt_array_new(u1 > 100000 ? 0 : 1, u1); zt_array_t c = LIB(zt_array_copy(a, m)); if (c) FAIL("a copy of %zu elements of %zu bytes was made", m, u1); zt_array_free(&a); reported = true; };
    case 4: { ssize_t el = (ssize_t)(m & (SIZE_MAX >> 1)); bool sw = u1 > 2100 && u1 < 100000; size_t sz = sw ? u1 : m; if (!sw) el = (ssize_t)(u1 % 100); name = fmt("mem_pool_init of %zd elements of %zu", el, sz); if (sw && (size_t)el < ((size_t)1 << 30)) el = SSIZE_MAX; return [=] { zt_mem_pool *p = LIB(zt_mem_pool_init((char *)"pool", el, sz, NULL, NULL, 0)); if (p) FAIL("a pool of %zd elements of %zu bytes was made", el, sz); CHECK(!zt_mem_pool_get((char *)"pool")); reported = true; }; }
    case 5: { size_t z = SIZE_MAX - g.u(g.coin() ? 64 : 4096); name = fmt("mem_heap_init of %zu", z); return [=] { zt_mem_heap *h = LIB(zt_mem_heap_init((char *)"heap", z)); if (h) FAIL("a heap of %zu bytes was made", z); reported = true; }; }
    case 6: { ssize_t c = (ssize_t)(m & (SIZE_MAX >> 1)); size_t len; if (c < ((ssize_t)1 << 34)) c = SSIZE_MAX - (ssize_t)g.u(50); if (__builtin_mul_overflow((size_t)c, s.size(), &len) && g.coin()) { c = (ssize_t)(SIZE_MAX / s.size() + 1 + g.u(9)); if (c < 0) c = SSIZE_MAX; } name = fmt("cstr_dup of %zu characters %zd times", s.size(), c); return [=] { char *r = LIB(zt_cstr_dup(s.c_str(), 0, -1, c)); if (r) FAIL("a string of %zd times %zu characters was made", c, s.size()); reported = true; }; }
    case 7: { size_t z = SIZE_MAX - g.u(g.coin() ? 64 : 4096); name = fmt("ez_mempool_alloc of %zu", z); return [=] { zt_ez_mempool *p = zt_ez_mempool_init(NULL); char *c = (char *)LIB(zt_ez_mempool_alloc(p, z, NULL)); if (c) FAIL("%zu bytes were given", z); zt_ez_mempool_destroy(p); reported = true; }; }
    case 8: { size_t hint = g.coin() ? (size_t)1 << (33 + g.u(30)) : SIZE_MAX - g.u(100); if (g.coin()) hint += g.u(2); name = fmt("table_init with %zu buckets", hint); return [=] { zt_table *t = LIB(zt_table_init((char *)"t", zt_table_hash_int, zt_table_compare_int, hint, ZT_TABLE_SIZE_USE_HINT, NULL)); if (!t) { reported = true; return; } for (long i = 0; i < 300; i++) { int r = LIB(zt_table_set(t, (void *)(i * 7919), 8, (void *)(i + 1), 0)); MAY(r == 0, "setting"); } for (long i = 0; i < 300; i++) CHECK(zt_table_get(t, (void *)(i * 7919), 8) == (void *)(i + 1), "key %ld", i); zt_table_destroy(t); }; }
    case 9: { name = "calloc " + q; return [=] { void *p = LIB(zt_calloc_p(n, unit)); if (p) FAIL("%zu times %zu bytes were given", n, unit); reported = true; }; }
    case 11: { int w = (int)g.u(3); size_t sz = w == 0 ? u1 : w == 1 ? 2 : w == 2 ? 8 : 4096; size_t c = big(g, sz); if (c < ((size_t)1 << 34)) c = SIZE_MAX; name = fmt("malloc of %zu of %zu", c, sz); return [=] { void *p = w == 0 ? LIB(zt_mallocs(sz, c)) : w == 1 ? LIB((void *)zt_malloc(short, c)) : w == 2 ? LIB((void *)zt_malloc(char *, c)) : LIB((void *)zt_malloc(Big, c)); if (p) FAIL("%zu times %zu bytes were given", c, sz); reported = true; }; }
    case 12: { int w = (int)g.u(3); size_t sz = w == 0 ? u1 : w == 1 ? 2 : w == 2 ? 8 : 4096; size_t c = big(g, sz); if (c < ((size_t)1 << 34)) c = SIZE_MAX; name = fmt("calloc of %zu of %zu", c, sz); return [=] { void *p = w == 0 ? LIB(zt_callocs(sz, c)) : w == 1 ? LIB((void *)zt_calloc(short, c)) : w == 2 ? LIB((void *)zt_calloc(char *, c)) : LIB((void *)zt_calloc(Big, c)); if (p) FAIL("%zu times %zu bytes were given", c, sz); reported = true; }; }
    case 13: { int w = (int)g.u(2); size_t sz = w == 0 ? 1 : w == 1 ? 8 : 4096; size_t c = w == 0 ? SIZE_MAX - g.u(4096) : big(g, sz); if (c < ((size_t)1 << 34)) c = SIZE_MAX; name = fmt("realloc to %zu of %zu", c, sz); return [=] { void *p = malloc(100); void *q = w == 0 ? LIB((void *)zt_realloc(char, p, c)) : w == 1 ? LIB((void *)zt_realloc(long, p, c)) : LIB((void *)zt_realloc(Big, p, c)); if (q) FAIL("%zu times %zu bytes were given", c, sz); reported = true; }; }
    default: { size_t z = SIZE_MAX - g.u(g.coin() ? 64 : 4096); bool ad = g.coin(); name = fmt("buf_reserve of %zu", z); return [=] { zt_buf_t *b = zt_buf_new(); if (ad) zt_buf_add(b, (void *)s.data(), s.size()); CHECK(LIB(zt_buf_reserve(b, z)) != 0, "%zu bytes were reserved", z); CHECK(zt_buf_length(b) == (ad ? s.size() : 0) && (!ad || !memcmp(zt_buf_get(b), s.data(), s.size())), "the content changed"); zt_buf_free(b); reported = true; }; }
    }
}
static void run(Gen &g, bool all) {
    if (home.empty()) { char b[4096]; home = getcwd(b, sizeof b); }
    std::string name; Act a = scenario(g, name); bool warm = g.chance(2, 3); uint64_t k = g.u(400); g.note("%s, %s allocation %llu%s ", name.c_str(), warm ? "counted" : "first use,", (unsigned long long)k, all ? " and all later ones" : "");
    int ef = memfd_create("err", 0); fflush(stdout); fflush(stderr); pid_t pid = fork(); CHECK(pid >= 0);
    if (!pid) {
        dup2(ef, 2); signal(SIGABRT, SIG_DFL); struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z); child = true; reported = false; struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 8; setitimer(ITIMER_PROF, &it, NULL); alarm(30); signal(SIGALRM, SIG_DFL);
        cold = !warm; at = -1; cnt = 0; size_t h0 = 0;
        if (warm) { a(); if (cnt == 0) _exit(0); k %= (uint64_t)cnt; cnt = 0; h0 = heap(); a(); CHECK(heap() == h0, "%zd bytes not given back without any fault", (ssize_t)(heap() - h0)); cnt = 0; reported = false; h0 = heap(); } else k %= 16;
        at = (long)k; until = all ? LONG_MAX : at + 1; faulty = false; a(); at = -1; on = false;
        if (warm && !all) { size_t h1 = heap(); CHECK(h1 <= h0, "%zd bytes are lost after running out of memory", (ssize_t)(h1 - h0)); }
        _exit(!faulty ? 10 : reported ? 11 : 12);
    }
    int st; waitpid(pid, &st, 0); std::string err; { char b[4000]; ssize_t n = pread(ef, b, sizeof b, 0); if (n > 0) err.assign(b, (size_t)n); } close(ef);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 99 || WEXITSTATUS(st) == 98)) _exit(WEXITSTATUS(st));
    if (WIFEXITED(st) && WEXITSTATUS(st) == 42) { g.nontrivial(); g.label("stopped"); CHECK(!err.empty(), "%s: the program was stopped without a message", name.c_str()); if (!all) CHECK(err.find("Assertion Failed") != std::string::npos && err[err.size() - 1] == '\n', "%s: stopped with %s", name.c_str(), show(err).c_str()); return; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 43) FAIL("%s: aborted although memory was there: %s", name.c_str(), show(err).c_str());
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 10)) { g.label("not reached"); return; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 11) { g.label("reported"); g.nontrivial(); return; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 12) { g.label("did without"); g.nontrivial(); return; }
    size_t p = err.find("ERROR:"); if (p == std::string::npos) p = err.find("runtime error"); if (p != std::string::npos) err = err.substr(p);
    FAIL("%s: after an allocation failed the process ended with status %x: %s", name.c_str(), st, show(err, 700).c_str());
}
P(E01, once, 6000, 300000, 20, "one of 29 groups of calls with random arguments in a child process, one allocation of its library calls (counted beforehand, or one of the first ever) fails: the call reports it and nothing else changed or is lost, or it does without, or the program is stopped by an assertion with its message; non-trivial = the allocation was reached") { run(g, false); }
P(E01, exhausted, 4000, 150000, 20, "the same with all allocations from one on failing; non-trivial = reached") { run(g, true); }

P(E01, impossible, 4000, 100000, 20, "arrays, pools, heaps, tables, buffers, allocations and repeated strings of sizes no memory can have, most of them overflowing when computed: reported, stopped by an assertion with its message, or done without; all non-trivial") {
    std::string name; Act a = impossible(g, name); g.note("%s ", name.c_str()); g.nontrivial();
    int ef = memfd_create("err", 0); fflush(stdout); fflush(stderr); pid_t pid = fork(); CHECK(pid >= 0);
    if (!pid) { dup2(ef, 2); signal(SIGABRT, SIG_DFL); struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z); child = true; reported = false; at = -1; faulty = false; signal(SIGALRM, SIG_DFL); struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 8; setitimer(ITIMER_PROF, &it, NULL); faulty = true; a(); on = false; _exit(reported ? 11 : 12); }
    int st; waitpid(pid, &st, 0); std::string err; { char b[4000]; ssize_t n = pread(ef, b, sizeof b, 0); if (n > 0) err.assign(b, (size_t)n); } close(ef);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 99 || WEXITSTATUS(st) == 98)) _exit(WEXITSTATUS(st));
    if (WIFEXITED(st) && WEXITSTATUS(st) == 42) { g.label("stopped"); CHECK(err.find("Assertion Failed") != std::string::npos, "stopped with %s", show(err).c_str()); return; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 11) { g.label("reported"); return; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 12) { g.label("did without"); return; }
    size_t p = err.find("ERROR:"); if (p == std::string::npos) p = err.find("runtime error"); if (p != std::string::npos) err = err.substr(p);
    FAIL("%s: the process ended with status %x: %s", name.c_str(), st, show(err, 700).c_str());
}
