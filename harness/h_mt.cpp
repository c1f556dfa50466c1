// separate objects used by several threads at once
#include "pbt.h"
#include "zthdr.h"
#include <atomic>
#include <thread>
extern "C" {
#define ZT_WITH_GC
#include <libzt/zt_gc.h>
#include <libzt/zt_base.h>
#include <libzt/zt_opts.h>
#include <libzt/zt_uuid.h>
#include <libzt/zt_random.h>
#include <libzt/zt_bstream.h>
#include <libzt/zt_ipv4_tbl.h>
#include <libzt/zt_ez_mempool.h>
}
extern "C" { uint64_t zt_hash64_buff(void *, size_t, uint64_t); }
using namespace pbt;
// each workload is a function of a seed alone: it makes its own objects and tells everything it sees
struct R { uint64_t s; uint64_t u(uint64_t n) { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; z ^= z >> 31; return n == ~0ULL ? z : z % (n + 1); }
    std::string str(const char *a, size_t mx) { std::string r; size_t n = u(mx), l = strlen(a); while (n--) r += a[u(l - 1)]; return r; } std::string bytes(size_t mx) { std::string r; size_t n = u(mx); while (n--) r += (char)u(255); return r; } };
static const char AL[] = "abcdefgh/. ,x=-0123456789\n\tAZ";
static std::string take(char *p) { std::string s = p ? p : "(none)"; free(p); return s + "\n"; }
static std::string base(R &r) { std::string o; zt_base_definition_t *D[] = {zt_base64_rfc, zt_base64_rfc_nopad, zt_base64_uri, zt_base32_rfc, zt_base32_hex, zt_base16_rfc}; for (int k = 0; k < 6; k++) { auto *d = D[r.u(5)]; std::string b = r.bytes(60); Mem m(b.data(), b.size()); void *e = NULL; size_t n = 0; int x = zt_base_encode(d, m.p, m.n, &e, &n); std::string t(e ? (char *)e : "", e ? n : 0); free(e); void *q = NULL; size_t qn = 0; Mem tm(t.data(), t.size()); int y = zt_base_decode(d, tm.p, tm.n, &q, &qn); o += fmt("%d %d ", x, y) + t + "|" + std::string(q ? (char *)q : "", q ? qn : 0) + "\n"; free(q); } return o; }
static std::string digests(R &r) { std::string o; for (int k = 0; k < 4; k++) { std::string b = r.bytes(300); Mem m(b.data(), b.size()); uint8_t d[20]; char t[41]; zt_sha1_ctx c; zt_sha1_init(&c); size_t i = 0; while (i < b.size()) { size_t n = 1 + r.u(b.size() - i - 1); zt_sha1_update(&c, (uint8_t *)m.p + i, n); i += n; } zt_sha1_finalize(&c, d); o += zt_sha1_tostr(d, t); zt_sha1_data(m.p, m.n, d); o += zt_sha1_tostr(d, t); uint8_t e[20]; zt_str_tosha1(t, e); o += hex(e, 20); uint64_t h = r.u(~0ULL); o += fmt(" %x %llx\n", zt_hash32_buff(m.p, m.n, (uint32_t)h), (unsigned long long)zt_hash64_buff(m.p, m.n, h));  } return o; }
static std::string uuids(R &r) { std::string o; for (int k = 0; k < 6; k++) { zt_uuid_t u, v; if (r.u(1)) { std::string n = r.bytes(40); Mem m(n.data(), n.size()); o += fmt("%d ", zt_uuid5(m.p, m.n, (zt_uuid_ns)r.u(3), &u)); } else for (auto &b : u.data.bytes) b = (uint8_t)r.u(255); zt_uuid_flags_t f = (zt_uuid_flags_t)r.u(2); char *t = NULL; ssize_t n = zt_uuid_tostr(&u, &t, f); int ok = t ? zt_uuid_isvalid(t, f) : 9, q = t ? zt_uuid_fromstr(t, &v, f) : 9; o += fmt("%zd %d %d %d ", n, ok, q, q ? 7 : zt_uuid_cmp(&u, &v)) + take(t); } return o; }
static std::string numbers(R &r) { std::string o; zt_random_state s; memset(&s, 0, sizeof s); if (r.u(1)) zt_random_srandom(&s, (uint32_t)r.u(~0ULL)); else { uint32_t a[3] = {(uint32_t)r.u(~0ULL), 7, (uint32_t)r.u(99)}; zt_random_initstate(&s, a, 1 + r.u(2)); } uint32_t x = 0; for (int k = 0; k < 1500; k++) x = x * 31 + zt_random_uint32(&s); o = fmt("%x\n", x); return o; }
static std::string arr(zt_ptr_array *a) { std::string o; if (!a) return "(none)\n"; for (int32_t i = 0; i < (int32_t)a->count; i++) o += std::string((char *)zt_ptr_array_get_idx(a, i)) + "|"; zt_ptr_array_free(a, 1); return o + "\n"; }
static std::string slices(R &r) { std::string o; for (int k = 0; k < 6; k++) { std::string s = r.str(AL, 40), t = r.str("abc/", 8); if (s.empty()) s = "x"; CStr a(s), b(t); int n = (int)s.size(), i = (int)r.u((uint64_t)n - 1), j = (int)r.u((uint64_t)n - 1); o += take(zt_cstr_sub(a.p, i, j)) + take(zt_cstr_dup(a.p, i, j, (ssize_t)r.u(3))) + take(zt_cstr_cat(a.p, i, j, b.p, 0, -1)) + take(zt_cstr_catv(a.p, i, j, b.p, 0, -1, a.p, 0, -1, NULL)) + take(zt_cstr_reverse(a.p, i, j)) + take(zt_cstr_map(a.p, i, j, "abc", "xyz"));
    o += fmt("%zd %zd %zd %zd %d\n", zt_cstr_find(a.p, i, j, b.p), zt_cstr_rfind(a.p, i, j, b.p), zt_cstr_any(a.p, i, j, "a,."), zt_cstr_rupto(a.p, i, j, "x="), zt_cstr_cmp(a.p, i, j, b.p, 0, -1) > 0); o += arr(zt_cstr_split(a.p, r.u(1) ? ",/" : " ")) + arr(zt_cstr_cut(a.p, '/', (int)r.u(1))) + arr(zt_cstr_tok(a.p, '.', 1)); zt_cstr_strip(a.p); zt_cstr_chomp(a.p); o += a.p; } return o; }
static std::string paths(R &r) { std::string o; for (int k = 0; k < 8; k++) { std::string s = r.str("ab/.c", 30), t = r.str("ab/c.", 10); if (s.empty()) s = "q"; CStr a(s), b(t); char p[64]; o += zt_cstr_basename(p, sizeof p, a.p, r.u(1) ? ".c" : NULL); o += "|"; o += zt_cstr_dirname(p, sizeof p, a.p); o += "|" + take(zt_cstr_path_append(a.p, b.p)); char q[20]; q[0] = 0; ssize_t n = zt_cstr_itoa(q, (int)r.u(~0ULL), 0, sizeof q); o += fmt("%zd %s\n", n, q); } return o; }
static int dumped(void *c, size_t ad, char *h, char *t) { *(std::string *)c += h ? fmt("%zx %s %s\n", ad, h, t) : std::string("end\n"); return 0; }
static std::string hexes(R &r) { std::string o; for (int k = 0; k < 4; k++) { std::string b = r.bytes(100); Mem m(b.data(), b.size()); o += fmt("%zu\n", zt_hexdump_str(m.p, m.n, dumped, &o)); char h[300]; size_t n = zt_binary_to_hex(m.p, m.n, h, sizeof h); char d[150]; size_t q = zt_hex_to_binary(h, n, d, sizeof d); o += std::string(h, n) + "|" + std::string(d, q) + "\n"; } return o; }
static std::string formats(R &r) { std::string o; for (int k = 0; k < 6; k++) { std::string s = r.str(AL, 30); CStr c(s); int w = (int)r.u(20), p = (int)r.u(12), v = (int)r.u(~0ULL); double d = (double)(int64_t)r.u(~0ULL) / 1e7; o += take(zt_fmt_strprintf("%*.*f|%-*d|%0*x|%e|%g|%s|%c", w, p, d, w, v, w, v, d, d, c.p, 'a' + w)); char b[64]; size_t n = zt_fmt_sprintf(b, sizeof b, "%.12s %d", c.p, v); o += fmt("%zu ", n) + b + "\n"; } return o; }
static std::string buffers(R &r) { std::string o; zt_buf_t *a = zt_buf_new(), *b = zt_buf_new(); for (int k = 0; k < 30; k++) { std::string s = r.bytes(80); Mem m(s.data(), s.size()); zt_buf_t *x = r.u(1) ? a : b; switch (r.u(3)) { case 0: zt_buf_add(x, m.p, m.n); break; case 1: { char q[100]; size_t n = zt_buf_remove(x, q, r.u(99)); if ((ssize_t)n > 0) o += hex(q, n); break; } case 2: zt_buf_drain(x, r.u(60)); break; default: zt_buf_add_buf(a, b); } o += fmt(" %zu %zu\n", zt_buf_length(a), zt_buf_length(b)); } zt_buf_free(a); zt_buf_free(b); return o; }
static std::string streams(R &r) { std::string o; zt_bstream_t s = zt_bstream_new(); int n = 1 + (int)r.u(20); std::vector<int> k; s->flipendian = (int)r.u(1); for (int i = 0; i < n; i++) { k.push_back((int)r.u(4)); uint64_t v = r.u(~0ULL); switch (k.back()) { case 0: zt_bstream_write_uint8(s, (uint8_t)v); break; case 1: zt_bstream_write_uint16(s, (uint16_t)v); break; case 2: zt_bstream_write_uint32(s, (uint32_t)v); break; case 3: zt_bstream_write_uint64(s, v); break; default: zt_bstream_write_double(s, (double)v); } } zt_bstream_rewind(s); for (int q : k) { uint8_t a = 0; uint16_t b = 0; uint32_t c = 0; uint64_t d = 0; double e = 0; switch (q) { case 0: zt_bstream_read_uint8(s, &a); break; case 1: zt_bstream_read_uint16(s, &b); break; case 2: zt_bstream_read_uint32(s, &c); break; case 3: zt_bstream_read_uint64(s, &d); break; default: zt_bstream_read_double(s, &e); } o += fmt("%x %x %x %llx %g\n", a, b, c, (unsigned long long)d, e); } zt_bstream_free(&s); return o; }
static std::string arrays(R &r) { std::string o; zt_array_t a = zt_array_new(1 + r.u(20), 4); size_t n = zt_array_length(a); uint32_t z = 0; for (size_t i = 0; i < n; i++) { uint32_t v = (uint32_t)r.u(~0ULL); zt_array_put(a, i, &v); } zt_array_resize(a, n + 5); for (size_t i = 0; i < n; i++) { zt_array_elem_copy(a, i, &z); o += fmt("%x ", z); } zt_array_t c = zt_array_copy(a, n); for (size_t i = 0; i < n; i++) o += fmt("%x ", *(uint32_t *)zt_array_get(c, i)); zt_array_free(&a); zt_array_free(&c);
    zt_ptr_array *p = zt_ptr_array_init(NULL, free); int m = (int)r.u(60); for (int i = 0; i < m; i++) zt_ptr_array_add(p, strdup(fmt("%d", (int)r.u(999)).c_str())); if (m > 2) zt_ptr_array_del(p, zt_ptr_array_get_idx(p, (int32_t)r.u((uint64_t)m - 1))); return o + arr(p); }
struct Tn { zt_rbt_node n; int k; };
static int tcmp(zt_rbt_node *a, zt_rbt_node *b) { int x = zt_rbt_data(a, Tn, n)->k, y = zt_rbt_data(b, Tn, n)->k; return x < y ? -1 : x > y; }
static std::string trees(R &r) { std::string o; zt_rbt *root = NULL; std::vector<Tn *> v; for (int i = 0; i < 60; i++) { if (v.size() && !r.u(2)) { size_t q = r.u(v.size() - 1); zt_rbt_remove(&root, &v[q]->n); free(v[q]); v.erase(v.begin() + (long)q); } else { Tn *t = (Tn *)calloc(1, sizeof *t); t->k = (int)r.u(99); if (zt_rbt_insert(&root, &t->n, tcmp)) free(t); else v.push_back(t); } } zt_rbt_node *p; zt_rbt_for_each(&root, p) o += fmt("%d ", zt_rbt_data(p, Tn, n)->k); for (auto t : v) free(t); return o; }
struct El { zt_elist_t l; int v; };
static std::string lists(R &r) { std::string o; zt_elist_t h; zt_elist_reset(&h); std::vector<El> e(20); for (int i = 0; i < 20; i++) { e[(size_t)i].v = i; zt_elist_reset(&e[(size_t)i].l); if (r.u(1)) zt_elist_add(&h, &e[(size_t)i].l); else zt_elist_add_tail(&h, &e[(size_t)i].l); if (!r.u(3)) zt_elist_remove(&e[r.u((uint64_t)i)].l); } zt_elist_t *p; int n = 0; zt_elist_for_each(&h, p) { o += fmt("%d ", zt_elist_data(p, El, l)->v); if (++n > 20) break; } return o; }
static thread_local std::string *freed;
static void gone(void *p) { *freed += (char *)p; *freed += ' '; free(p); }
static std::string pools(R &r) { std::string o; freed = &o; std::vector<zt_ez_mempool *> p{zt_ez_mempool_init(NULL)}; for (int i = 0; i < 25; i++) { zt_ez_mempool *q = p[r.u(p.size() - 1)]; switch (r.u(3)) { case 0: p.push_back(zt_ez_mempool_init(q)); break; case 1: { size_t n = 1 + r.u(200); char *m = (char *)zt_ez_mempool_alloc(q, n, NULL); memset(m, 'a', n); break; } case 2: { std::string s = r.str("xyz", 9); o += zt_ez_mempool_strdup(q, s.c_str()); break; } default: { std::string s = fmt("%d", i); zt_ez_mempool_add_buffer(q, strdup(s.c_str()), s.size() + 1, gone); } } } zt_ez_mempool_destroy(p[0]); return o; }
struct Ob { zt_gc_collectable_t m; int id; Ob *kid[2]; };
struct World { std::string o; std::vector<Ob *> dead; };
static void markfn(zt_gc_t *gc, void *, void *v) { for (auto k : ((Ob *)v)->kid) if (k) zt_gc_mark(gc, k); }
static void relfn(zt_gc_t *, void *pd, void **v) { World *w = (World *)pd; w->o += fmt("-%d ", ((Ob *)*v)->id); w->dead.push_back((Ob *)*v); *v = NULL; }
static std::string collector(R &r) { World w; zt_gc_t *gc = zt_gc_init(&w, markfn, relfn, 1 + (int)r.u(4), 1 + (int)r.u(6)); std::vector<Ob *> all; Ob *root = NULL; for (int i = 0; i < 40; i++) { Ob *a = (Ob *)calloc(1, sizeof *a); a->id = i; zt_gc_prepare(gc, a); if (!root) { root = a; zt_gc_protect(gc, a); } else { a->kid[0] = NULL; if (r.u(1)) { a->kid[0] = root->kid[0]; root->kid[0] = a; zt_gc_register(gc, a); zt_gc_mark(gc, a); } else zt_gc_register(gc, a); } } for (int i = 0; i < 3; i++) zt_gc_collect(gc, 1); w.o += "destroy "; zt_gc_destroy(gc); for (auto p : w.dead) free(p); return w.o; }
static std::string nets(R &r) { std::string o; for (int k = 0; k < 10; k++) { std::string s = fmt("%d.%d.%d.%d", (int)r.u(260), (int)r.u(255), (int)r.u(255), (int)r.u(255)) + (r.u(1) ? fmt("/%d", (int)r.u(34)) : ""); CStr c(s); uint32_t a = 0; int b = 0, x = zt_ipv4_str2net(c.p, &a, &b); o += fmt("%d %x %d ", x, a, x ? 0 : b); o += take(zt_ipv4_int2ip((uint32_t)r.u(~0ULL))); } return o; }
static std::string times(R &r) { std::string o; for (int k = 0; k < 10; k++) { struct timeval a = {(time_t)r.u(1000000), (suseconds_t)r.u(999999)}, b = {(time_t)r.u(1000000), (suseconds_t)r.u(999999)}, c; zt_add_time(&c, &a, &b); o += fmt("%ld.%ld ", (long)c.tv_sec, (long)c.tv_usec); zt_sub_time(&c, &a, &b); o += fmt("%ld.%ld ", (long)c.tv_sec, (long)c.tv_usec); zt_diff_time(&c, &a, &b); o += fmt("%ld.%ld %d\n", (long)c.tv_sec, (long)c.tv_usec, zt_cmp_time(&a, &b) > 0); } return o; }
static thread_local std::string *told;
static int onerr(int code, char *f, ...) { char b[400]; b[0] = 0; va_list ap; va_start(ap, f); if (f) vsnprintf(b, sizeof b, f, ap); va_end(ap); *told += fmt("!%d %s ", code, b); return 0; }
static std::string options(R &r) { std::string o; told = &o; int f = 0, bo = 0; long l = 0; char *s = NULL, **v = NULL; zt_opt_def_t d[6]; memset((void *)d, 0, sizeof d); auto def = [&](int i, char c, const char *n, zt_opt_callback cb, void *p) { d[i].sopt = c; d[i].lopt = (char *)n; d[i].help = (char *)"h"; d[i].cb = cb; d[i].cb_data = p; }; def(0, 'f', "flag", zt_opt_flag_int, &f); def(1, 'l', "long", zt_opt_long, &l); def(2, 'b', "bool", zt_opt_bool_int, &bo); def(3, 's', "str", zt_opt_string, &s); def(4, 'v', "arr", zt_opt_string_array, &v);
    std::vector<std::string> a{"prog"}; bool had = false; for (int k = (int)r.u(7); k--; ) switch (r.u(6)) { case 0: a.push_back("-f"); break; case 1: a.push_back("-ff"); break; case 2: a.push_back("--long=" + fmt("%d", (int)r.u(~0ULL))); break; case 3: a.push_back("-b"); a.push_back(r.u(1) ? "yes" : "no"); break; case 4: if (!had) { had = true; a.push_back("-s" + r.str("abc", 6) + "z"); } break; case 5: a.push_back("--arr"); a.push_back("e" + r.str("xyz", 5)); break; default: a.push_back("--lon=12" + r.str("q", 1)); }
    std::vector<char *> av; for (auto &x : a) av.push_back(&x[0]); av.push_back(NULL); int ac = (int)a.size(), q = zt_opt_process_args(&ac, av.data(), d, zt_opt_validate_default, onerr); o += fmt("%d %d %ld %d ", q, f, l, bo) + take(s); if (v) { for (char **p = v; *p; p++) o += take(*p); free(v); } o += take(zt_opt_error_str((int)r.u(100), (char *)"%s %d", "m", f)); return o; }
static std::string config(R &r) { static std::atomic<int> no; std::string f = fmt("w%d.ini", no++), t, o; std::vector<std::string> ks; for (int b = 0; b < 3; b++) { t += fmt("[b%d]\n", b); for (int k = 0; k < 6; k++) switch (r.u(3)) { case 0: t += fmt("k%d = %d ; c\n", k, (int)r.u(~0ULL)); break; case 1: t += fmt("k%d = ", k) + "'" + r.str("abc d", 20) + "'\n"; break; case 2: t += fmt("k%d = yes\n", k); break; default: t += fmt("k%d = %d.5\n", k, (int)r.u(999)); } } FILE *fp = fopen(f.c_str(), "w"); fputs(t.c_str(), fp); fclose(fp); zt_cfg_ty *c = zt_cfg_ini(&f[0], 0); o += c ? "read " : "refused "; if (c) { for (int b = 0; b < 3; b++) for (int k = 0; k < 6; k++) { char bn[9], kn[9]; snprintf(bn, 9, "b%d", b); snprintf(kn, 9, "k%d", k); long i = 0; double d = 0; int q = 0; char *s = NULL; int x = zt_cfg_get(c, bn, kn, &i, zt_cfg_int); o += fmt("%d %ld ", x, x < 0 ? 0 : i); x = zt_cfg_get(c, bn, kn, &d, zt_cfg_float); o += fmt("%d %g ", x, x < 0 ? 0 : d); x = zt_cfg_get(c, bn, kn, &q, zt_cfg_bool); o += fmt("%d %d ", x, x < 0 ? 0 : q); x = zt_cfg_get(c, bn, kn, &s, zt_cfg_string); o += fmt("%d %s\n", x, x < 0 || !s ? "" : s); } zt_cfg_close(c); } unlink(f.c_str()); return o; }
static std::string dirs(R &r) { static std::atomic<int> no; std::string top = fmt("d%d", no++), o, deep = top; for (int k = 1 + (int)r.u(5); k--; ) deep += "/" + r.str("ab", 3) + "x"; CStr d(deep); o += fmt("%d %d ", zt_mkdir(d.p, 0700, zt_mkdir_create_parent), zt_path_exists(d.p)); CStr t("none"), x("."); char *b = zt_find_basedir(d.p, t.p), *c = zt_find_basedir(d.p, x.p); o += b ? "found" : "not found"; o += c ? fmt(" %d\n", std::string(c).compare(0, deep.size(), deep)) : " none\n"; free(b); free(c); while (deep.size()) { rmdir(deep.c_str()); size_t q = deep.rfind('/'); if (q == std::string::npos) break; deep.resize(q); } return o; }
static std::string drawn(R &) { std::string o; zt_uuid_t u, v; for (int k = 0; k < 5; k++) { int a = zt_uuid4(&u), b = zt_uuid4(&v); o += fmt("%d %d %d %x %x\n", a, b, zt_uuid_cmp(&u, &v) != 0, u.data.bytes[6] >> 4, u.data.bytes[8] >> 6); } return o; }
struct Work { const char *n; std::string (*f)(R &); };
static const Work W[] = {{"base", base}, {"digests", digests}, {"uuids", uuids}, {"numbers", numbers}, {"slices", slices}, {"paths", paths}, {"hexes", hexes}, {"formats", formats}, {"buffers", buffers}, {"streams", streams}, {"arrays", arrays}, {"trees", trees}, {"lists", lists}, {"pools", pools}, {"collector", collector}, {"nets", nets}, {"times", times}, {"options", options}, {"config", config}, {"dirs", dirs}, {"drawn", drawn}};
static const size_t NW = sizeof W / sizeof *W;
P_(W03, separate, 5000, 200000, 10, 60, 4, 8, "2..6 threads with 1..5 jobs each, every job a history of operations of one part of the library (21 parts) on objects of its own, all started together and repeated, before or after the jobs have run alone: each job sees exactly what it sees alone, and no two threads touch the same memory unordered; non-trivial = two threads use the same part") {
    size_t nt = 2 + g.u(4); int rep = 1 + (int)g.u(3); bool first = g.coin(), same = g.coin(); size_t only = g.u(NW - 1); struct J { size_t w; uint64_t s; std::string want; std::vector<std::string> got; }; std::vector<std::vector<J>> t(nt); std::map<size_t, std::set<size_t>> use; g.note("%d times%s: ", rep, first ? ", together first" : "");
    for (size_t i = 0; i < nt; i++) { for (size_t k = 1 + g.u(4); k--; ) { J j; j.w = same && g.chance(3, 4) ? only : g.u(NW - 1); j.s = g.bits(32); g.note("%zu:%s(%llx) ", i, W[j.w].n, (unsigned long long)j.s); use[j.w].insert(i); t[i].push_back(j); } } for (auto &x : use) if (x.second.size() > 1) g.nontrivial();
    auto alone = [&] { for (auto &v : t) for (auto &j : v) { R r{j.s}; j.want = W[j.w].f(r); } }; if (!first) alone();
    { std::atomic<size_t> go{0}; std::vector<std::thread> ts; for (size_t i = 0; i < nt; i++) ts.emplace_back([&, i] { go++; while (go < nt) std::this_thread::yield(); for (int q = 0; q < rep; q++) for (auto &j : t[i]) { R r{j.s}; j.got.push_back(W[j.w].f(r)); } }); for (auto &x : ts) x.join(); }
    if (first) alone(); for (size_t i = 0; i < nt; i++) for (auto &j : t[i]) for (auto &s : j.got) CHECK(s == j.want, "thread %zu, %s(%llx): %s where alone it is %s", i, W[j.w].n, (unsigned long long)j.s, show(s, 300).c_str(), show(j.want, 300).c_str());
}
