#include "pbt.h"
#include "zthdr.h"
#include <sanitizer/allocator_interface.h>
static size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
#define NOLEAK(h0, what) do { size_t h1_ = heap(); CHECK(h1_ == (h0), "%s: %zd bytes of memory not given back", what, (ssize_t)(h1_ - (h0))); } while (0)

// ---------------------------------------------------------------- buffer
struct BOp { int k, who; size_t n; std::string d; std::vector<std::string> v; };
static size_t g_ov(size_t n, size_t have) { return n % have; }
P(C01, model, 40000, 2000000, 100, "histories of 1..60 add / drain / remove / reserve / expand / move / gather operations on two buffers against a string model, memory given back at the end; non-trivial = data was added after a drain that left data") {
    std::vector<BOp> ops; int n = 1 + (int)g.u(59); int drained = 0; static size_t szs[] = {0, 1, 2, 10, 100, 1000, 1023, 1024, 1025, 3000};
    for (int i = 0; i < n; i++) { BOp o; o.k = (int)g.u(10); o.who = (int)g.u(1); o.n = g.coin() ? g.u(40) : g.chance(1, 10) ? (size_t)-1 : szs[g.u(9)] + g.u(3); if (o.n == (size_t)-1 && o.k != 3 && o.k != 4) o.n = 7;
        if (o.k <= 2) o.d = g.blob(o.n); if (o.k == 8) for (size_t k = g.u(4); k-- > 0;) o.v.push_back(g.blob(g.u(300)));
        if (o.k == 3 || o.k == 4) drained = 1; else if (drained && o.k <= 2) g.nontrivial();
        g.note("%d:%s(%zd) ", o.who, (const char *[]){"add", "add", "add", "drain", "remove", "reserve", "expand", "move", "iov", "get", "overflow or move to itself"}[o.k], (ssize_t)o.n); ops.push_back(o); }
    size_t h0 = heap(); { zt_buf_t *b[2] = {zt_buf_new(), zt_buf_new()}; std::string m[2];
    for (auto &o : ops) { zt_buf_t *x = b[o.who]; std::string &s = m[o.who];
        switch (o.k) {
        case 0: case 1: case 2: { Mem d(o.d.data(), o.d.size()); CHECK(zt_buf_add(x, d.p, d.n) == 0); s += o.d; break; }
        case 3: { size_t r = zt_buf_drain(x, o.n); if (o.n == 0) { CHECK(r == 0); } else { s.erase(0, std::min(o.n, s.size())); CHECK(r == s.size(), "drain returned %zu with %zu left", r, s.size()); } break; }
        case 4: { size_t k = std::min(o.n, s.size()); Mem out(k); size_t r = zt_buf_remove(x, out.p, o.n); CHECK(r == k, "removed %zu want %zu", r, k); CHECK(!memcmp(out.p, s.data(), k), "removed bytes differ"); s.erase(0, k); break; }
        case 5: CHECK(zt_buf_reserve(x, o.n) == 0); CHECK(zt_buf_unused_sz(x) >= o.n, "%zu unused after reserving %zu", zt_buf_unused_sz(x), o.n); break;
        case 6: CHECK(zt_buf_expand(x, o.n) == 0); CHECK(zt_buf_unused_sz(x) >= o.n); break;
        case 7: CHECK(zt_buf_add_buf(x, b[!o.who]) == 0); s += m[!o.who]; m[!o.who].clear(); break;
        case 10: if (o.n & 1) CHECK(zt_buf_add_buf(x, x) == 0, "moving a buffer into itself failed"); else if (s.size() > 0) { size_t big = (size_t)0 - 1 - g_ov(o.n, s.size()); CHECK((o.n & 2 ? zt_buf_reserve(x, big) : zt_buf_expand(x, big)) == -1, "a request for %zu bytes beside %zu succeeded", big, s.size()); } break;
        case 8: { zt_iov_t v[5]; size_t t = 0; std::vector<std::unique_ptr<Mem>> ms; for (size_t i = 0; i < o.v.size(); i++) { ms.emplace_back(new Mem(o.v[i].data(), o.v[i].size())); v[i].iov_data = ms[i]->p; v[i].iov_len = ms[i]->n; t += ms[i]->n; s += o.v[i]; }
            CHECK(zt_buf_iov_len(v, (int)o.v.size()) == t); CHECK(zt_buf_iov_add(x, v, (int)o.v.size()) == 0); break; }
        }
        for (int i = 0; i < 2; i++) { CHECK(zt_buf_length(b[i]) == m[i].size(), "length %zu want %zu", zt_buf_length(b[i]), m[i].size()); void *p = zt_buf_get(b[i]); if (m[i].empty()) CHECK(p == NULL); else { CHECK(p != NULL); CHECK(!memcmp(p, m[i].data(), m[i].size()), "content of buffer %d differs", i); } }
    }
    zt_buf_free(b[0]); zt_buf_free(b[1]); }
    NOLEAK(h0, "buffers");
}
static std::string filler(Gen &g, size_t n) { std::string r(n, 0); uint64_t x = g.bits(64) | 1; for (size_t i = 0; i < n; i++) { if (!(i & 7)) x = x * 6364136223846793005ull + 1442695040888963407ull; r[i] = (char)(x >> ((i & 7) * 8)); } return r; }
P(C01, large, 400, 20000, 4, "histories of 1..10 operations with pieces of up to 6 MB, gathers of up to 3000 vectors, and vector lengths that add up to more than 4 GB, against the string model; non-trivial = more than 1 MB in a buffer") {
    size_t h0 = heap(); { zt_buf_t *b[2] = {zt_buf_new(), zt_buf_new()}; std::string m[2]; int n = 1 + (int)g.u(9); auto sz = [&]() -> size_t { size_t e = g.pick({16, 17, 20, 20, 21, 22}); return (1ul << e) - 2 + g.u(g.coin() ? 4 : 1ul << e >> 1); };
    for (int i = 0; i < n; i++) { int w = (int)g.u(1), k = (int)g.u(6); zt_buf_t *x = b[w]; std::string &s = m[w]; g.note("%d:%d ", w, k);
        switch (k) { case 0: case 1: { std::string d = filler(g, sz()); CHECK(zt_buf_add(x, (void *)d.data(), d.size()) == 0, "adding %zu bytes to %zu failed", d.size(), s.size()); s += d; break; }
        case 2: { size_t c = g.coin() ? sz() : s.size() ? s.size() - g.u(std::min<size_t>(s.size(), 3)) : 0; if (c) { size_t r = zt_buf_drain(x, c); s.erase(0, std::min(c, s.size())); CHECK(r == s.size(), "drain returned %zu with %zu left", r, s.size()); } break; }
        case 3: { size_t c = sz(); std::string o(c, 'x'); size_t r = zt_buf_remove(x, &o[0], c); CHECK(r == std::min(c, s.size()), "removed %zu of %zu", r, s.size()); CHECK(!memcmp(o.data(), s.data(), r) && o.substr(r) == std::string(c - r, 'x'), "removed bytes differ"); s.erase(0, r); break; }
        case 4: CHECK(zt_buf_add_buf(x, b[!w]) == 0); s += m[!w]; m[!w].clear(); break;
        case 5: { size_t nv = g.coin() ? g.u(5) : g.u(3000); std::vector<zt_iov_t> v(nv + 1); std::string all = filler(g, nv < 6 ? nv * (1u << 20) : nv * 3); size_t at = 0; for (size_t j = 0; j < nv; j++) { size_t l = std::min(all.size() - at, nv < 6 ? (size_t)g.u(2u << 20) : (size_t)(j % 7)); v[j].iov_data = &all[0] + at; v[j].iov_len = l; at += l; } CHECK(zt_buf_iov_len(v.data(), (int)nv) == at); CHECK(zt_buf_iov_add(x, v.data(), (int)nv) == 0, "gathering %zu bytes in %zu pieces failed", at, nv); s.append(all, 0, at); break; }
        default: { zt_iov_t v[3]; size_t t = 0; for (auto &q : v) { q.iov_data = NULL; q.iov_len = g.bits(40); t += q.iov_len; } CHECK(zt_buf_iov_len(v, 3) == t, "vector lengths add up to %zu, not %zu", t, zt_buf_iov_len(v, 3)); } }
        for (int j = 0; j < 2; j++) { if (m[j].size() > 1u << 20) g.nontrivial(); CHECK(zt_buf_length(b[j]) == m[j].size(), "length %zu want %zu", zt_buf_length(b[j]), m[j].size()); void *p = zt_buf_get(b[j]); if (m[j].empty()) CHECK(p == NULL); else CHECK(p && !memcmp(p, m[j].data(), m[j].size()), "content of buffer %d differs", j); } }
    zt_buf_free(b[0]); zt_buf_free(b[1]); }
    NOLEAK(h0, "buffers");
}

// ---------------------------------------------------------------- hash table
enum { KINT, KSTR, KBUF, KCASE };
struct Key { std::string s; intptr_t i; const void *p; size_t len; };
static int hmode; // how the user hash behaves
static unsigned long myhash(const void *k, size_t len, void *cd) { unsigned long h; int kind = (int)(intptr_t)cd; if (kind == KINT) h = (unsigned long)(uintptr_t)k; else { h = 0; const unsigned char *p = (const unsigned char *)k; for (size_t i = 0; i < len; i++) h = h * 131 + (kind == KCASE ? (unsigned char)tolower(p[i]) : p[i]); }
    switch (hmode) { case 1: return h % 3; case 2: return h * 0x9E3779B97F4A7C15ul; case 3: return ~0ul; case 4: return h << 16; default: return h; } }
static std::string lower(std::string s) { for (auto &c : s) c = (char)tolower((unsigned char)c); return s; }
static std::string canon(int kind, const Key &k) { return kind == KINT ? std::to_string(k.i) : kind == KCASE ? lower(k.s) : k.s; }
typedef int (*cmpf)(const void *, size_t, const void *, size_t, void *);
static const cmpf CMP[] = {zt_table_compare_int, zt_table_compare_string, zt_table_compare_buff, zt_table_compare_string_case};
static void mkkey(Gen &g, int kind, Key &k) {
    if (kind == KINT) { k.i = g.coin() ? (intptr_t)g.u(12) : (intptr_t)g.bits(64); k.p = (void *)k.i; k.len = sizeof(intptr_t); return; }
    if (kind == KBUF) { size_t n = g.u(6); k.s.clear(); for (size_t i = 0; i < n; i++) k.s += (char)g.pick({0, 0, 1, 97, 98, 255}); if (g.chance(1, 8)) k.s += g.blob(g.u(40)); if (g.chance(1, 8)) k.s = std::string(g.pick({7, 8, 63, 64, 255, 256, 1000}), 'b') + k.s; }
    else { k.s = g.str(kind == KCASE ? "abAB" : "abcdefgh", g.chance(1, 4) ? 30 : 3); if (kind == KSTR && g.chance(1, 4)) k.s = "a long common prefix " + k.s; if (g.chance(1, 6)) k.s = std::string(g.pick({7, 8, 63, 64, 255, 256, 1000}), 'b') + k.s; }
    char *p = (char *)malloc(k.s.size() + (kind != KBUF)); memcpy(p, k.s.data(), k.s.size()); if (kind != KBUF) p[k.s.size()] = 0; k.p = p; k.len = k.s.size();
}
static void freekey(int kind, Key &k) { if (kind != KINT) free((void *)k.p); }
struct Ent { std::string c; const void *key; size_t klen; void *d; size_t dlen; };
struct Walk { std::vector<Ent> seen; int stop; zt_table *del; int ret; };
static int walk(void *k, size_t kl, void *d, size_t dl, void *p) { Walk *w = (Walk *)p; w->seen.push_back({"", k, kl, d, dl}); if (w->del) zt_table_del(w->del, k, kl); return w->stop && (int)w->seen.size() == w->stop ? w->ret : 0; }
static void sameset(std::vector<Ent> a, std::vector<Ent> b, const char *what) {
    auto lt = [](const Ent &x, const Ent &y) { return std::make_tuple(x.key, x.klen, x.d, x.dlen) < std::make_tuple(y.key, y.klen, y.d, y.dlen); };
    std::sort(a.begin(), a.end(), lt); std::sort(b.begin(), b.end(), lt); CHECK(a.size() == b.size(), "%s: %zu entries visited, %zu stored", what, a.size(), b.size());
    for (size_t i = 0; i < a.size(); i++) CHECK(!lt(a[i], b[i]) && !lt(b[i], a[i]), "%s: visited entries differ", what);
}
static zt_table *mktable(Gen &g, int kind, int &flags, std::string &d) {
    size_t hint = g.chance(1, 150) ? 30000 + g.u(40000) : g.chance(1, 3) ? g.u(600) : g.u(9); flags = (g.coin() ? ZT_TABLE_SIZE_USE_HINT : 0) | (g.chance(1, 4) ? ZT_TABLE_ALLOW_DUP_KEYS : 0);
    int h = (int)g.u(5); hmode = h; zt_table_hash_func_cb f = h == 5 ? myhash : h != 0 ? myhash : kind == KINT ? zt_table_hash_int : kind == KSTR ? zt_table_hash_string : kind == KBUF ? zt_table_hash_buff : myhash;
    d = fmt("table(kind %d, hint %zu, flags %d, hash %d)", kind, hint, flags, h); return zt_table_init(g.coin() ? (char *)"t" : NULL, f, CMP[kind], hint, flags, (void *)(intptr_t)kind);
}
static void setr(int r, int want, const char *w) { CHECK(r == want, "%s returned %d want %d", w, r, want); }
P(C02, model, 20000, 1000000, 50, "histories of 1..120 set / get / delete / iterate / copy operations over colliding integer, string, case-insensitive and binary keys, any size hint, built-in and user hash functions of poor or wide range, with and without duplicate keys, against an association-list model; non-trivial = some key was deleted from a bucket that held others (3 or more live entries at a delete that succeeds)") {
    int kind = (int)g.u(3), flags; std::string d; zt_table *t = mktable(g, kind, flags, d); g.note("%s ", d.c_str()); CHECK(t != NULL); bool dup = flags & ZT_TABLE_ALLOW_DUP_KEYS;
    std::vector<Ent> m; std::vector<Key> keep; int n = 1 + (int)g.u(119); uintptr_t serial = 1;
    for (int i = 0; i < n; i++) {
        int op = (int)g.u(15); Key k; k.i = 0; std::string c;
        if (op < 13) { mkkey(g, kind, k); c = canon(kind, k); }
        auto find = [&]() { for (size_t j = m.size(); j-- > 0;) if (m[j].c == c) return (int)j; return -1; };
        if (op < 7) { int f = find(); void *dt = g.chance(1, 10) ? NULL : (void *)(serial++); size_t dl = g.u(9); g.note("set(%s) ", show(c).c_str()); int r = zt_table_set(t, k.p, k.len, dt, dl);
            if (f >= 0 && !dup) { setr(r, 1, "set of a present key"); freekey(kind, k); } else { setr(r, 0, "set of a new key"); m.push_back({c, k.p, k.len, dt, dl}); keep.push_back(k); } }
        else if (op < 10) { int f = find(); g.note("get(%s) ", show(c).c_str()); errno = 0; void *r = zt_table_get(t, k.p, k.len); if (f >= 0) { CHECK(r == m[f].d, "get(%s) = %p want %p", show(c).c_str(), r, m[f].d); if (!r) CHECK(errno == 0, "errno set for a stored NULL"); } else { CHECK(r == NULL, "get(%s) of an absent key = %p", show(c).c_str(), r); CHECK(errno == ENOENT); } freekey(kind, k); }
        else if (op < 13) { int f = find(); g.note("del(%s) ", show(c).c_str()); errno = 0; void *r = zt_table_del(t, k.p, k.len); if (f >= 0) { if (m.size() > 2) g.nontrivial(); CHECK(r == m[f].d, "del(%s) = %p want %p", show(c).c_str(), r, m[f].d); m.erase(m.begin() + f); } else { CHECK(r == NULL); CHECK(errno == ENOENT); } freekey(kind, k); }
        else if (op == 13) { Walk w; w.stop = (int)g.u(4); w.del = NULL; w.ret = g.coin() ? 5 : -3; g.note("each(%d) ", w.stop); int r = zt_table_for_each(t, walk, &w); if (w.stop && (size_t)w.stop <= m.size()) { CHECK(r == w.ret, "for_each returned %d", r); CHECK((int)w.seen.size() == w.stop, "for_each went on after being stopped"); } else { CHECK(r == 0); sameset(w.seen, m, "for_each"); } }
        else if (op == 14) { std::string d2; int f2; int hm = hmode; zt_table *t2 = mktable(g, kind, f2, d2); /* both tables must agree on the user hash */ if (hm != hmode && (hm || hmode)) { hmode = hm; zt_table_destroy(t2); continue; }
            std::vector<Ent> pre; std::vector<char> prek(m.size(), 0); if (!dup && !(f2 & ZT_TABLE_ALLOW_DUP_KEYS) && g.coin()) for (size_t j = 0; j < m.size(); j++) if (g.coin()) { Ent e = m[j]; e.d = (void *)(serial++ + 1000000); e.dlen = j % 5; setr(zt_table_set(t2, e.key, e.klen, e.d, e.dlen), 0, "set in the other table"); pre.push_back(e); prek[j] = 1; }
            if (pre.size()) { /* what the other table has stays, everything else is added */ g.note("copy of %zu over %zu->%s ", m.size(), pre.size(), d2.c_str()); int r = zt_table_copy(t, t2); CHECK(r > 0, "copy over present keys returned %d", r); std::vector<Ent> want = pre; for (size_t j = 0; j < m.size(); j++) if (!prek[j]) want.push_back(m[j]); Walk w; w.stop = 0; w.del = NULL; zt_table_for_each(t2, walk, &w); sameset(w.seen, want, "copy over present keys"); for (auto &e : want) CHECK(zt_table_get(t2, e.key, e.klen) == e.d, "copy over present keys: %s", show(e.c).c_str()); zt_table_destroy(t2); continue; }
            g.note("copy->%s ", d2.c_str()); int r = zt_table_copy(t, t2); CHECK(!!r == !m.empty(), "copy returned %d for %zu entries", r, m.size()); Walk w; w.stop = 0; w.del = NULL; zt_table_for_each(t2, walk, &w);
            if (!dup || (f2 & ZT_TABLE_ALLOW_DUP_KEYS)) sameset(w.seen, m, "copy"); for (auto &e : m) { if (!dup) CHECK(zt_table_get(t2, e.key, e.klen) == e.d, "copy lacks %s", show(e.c).c_str()); } zt_table_destroy(t2); }
        else if (!dup && g.chance(1, 3)) { Walk w; w.stop = 0; w.del = t; g.note("each+del "); CHECK(zt_table_for_each(t, walk, &w) == 0); sameset(w.seen, m, "for_each deleting what it visits"); m.clear(); }
    }
    Walk w; w.stop = 0; w.del = NULL; zt_table_for_each(t, walk, &w); sameset(w.seen, m, "final for_each");
    if (!dup) for (auto &e : m) CHECK(zt_table_get(t, e.key, e.klen) == e.d, "final get(%s)", show(e.c).c_str());
    zt_table_destroy(t); for (auto &k : keep) freekey(kind, k);
}
P(C02, big, 60, 600, 2, "tables of every hint up to 200000 filled with 100..3000 keys, all read back and deleted in random order; all cases non-trivial") {
    size_t hint = g.each(4) == 0 ? 32760 + g.u(40) : g.u(200000); int n = 100 + (int)g.u(2900); int fl = g.coin() ? ZT_TABLE_SIZE_USE_HINT : 0; hmode = (int)g.u(1) * 2; auto f = hmode ? myhash : zt_table_hash_int; uint64_t mul = g.u(~0ull) | 1; g.note("hint %zu flags %d n %d hash %d", hint, fl, n, hmode);
    zt_table *t = zt_table_init((char *)"big", f, zt_table_compare_int, hint, fl, (void *)(intptr_t)KINT); std::vector<uintptr_t> ks; for (int i = 0; i < n; i++) ks.push_back((uintptr_t)(mul * (uint64_t)(i + 1)));
    for (auto k : ks) setr(zt_table_set(t, (void *)k, 8, (void *)(k + 1), 8), 0, "set"); for (auto k : ks) CHECK(zt_table_get(t, (void *)k, 8) == (void *)(k + 1));
    for (size_t i = 0; i < ks.size(); i += 1 + i % 3) { CHECK(zt_table_del(t, (void *)ks[i], 8) == (void *)(ks[i] + 1)); ks[i] = 0; } for (auto k : ks) if (k) CHECK(zt_table_get(t, (void *)k, 8) == (void *)(k + 1)); zt_table_destroy(t); g.nontrivial();
}

// ---------------------------------------------------------------- sets
static int mod7(const void *a, size_t, const void *b, size_t, void *) { return (uintptr_t)a % 7 == (uintptr_t)b % 7; }
static std::vector<void *> destroyed; static void destroycb(void *p) { destroyed.push_back(p); }
typedef std::map<std::string, const void *> SM;
struct SW { std::vector<const void *> v; int stop; };
static int setwalk(void *d, void *p) { SW *w = (SW *)p; w->v.push_back(d); return w->stop && (int)w->v.size() == w->stop ? 9 : 0; }
template <class S> static auto setsize(S *s, int) -> decltype((long)zt_set_size(s)) { return (long)zt_set_size(s); }
template <class S> static long setsize(S *, long) { FAIL("zt_set_size cannot be used: it does not compile"); }
static void setsame(zt_set *s, const SM &m, const char *what) {
    CHECK(setsize(s, 0) == (long)m.size(), "%s: size %ld want %zu", what, setsize(s, 0), m.size()); SW w; w.stop = 0; CHECK(zt_set_for_each(s, setwalk, &w) == 0);
    std::vector<const void *> want; for (auto &e : m) want.push_back(e.second); std::sort(want.begin(), want.end()); std::sort(w.v.begin(), w.v.end()); CHECK(w.v == want, "%s: elements differ (%zu visited, %zu expected)", what, w.v.size(), want.size());
}
P(C03, algebra, 30000, 1500000, 50, "histories of insert / remove / member on three sets of integers, strings, binary buffers, case-insensitive strings or a user equivalence, with unions, intersections and differences into fresh and into filled sets, subset and equality tests, iteration and destruction, against mathematical sets; non-trivial = a binary operation on two overlapping, different, non-empty sets") {
    int kind = (int)g.u(4); cmpf cmp = kind == 4 ? mod7 : CMP[kind]; zt_set *s[3]; SM m[3]; std::vector<Key> keep; for (auto &x : s) x = zt_set_init(cmp, destroycb, NULL); g.note("kind %d ", kind);
    auto mk = [&](Key &k) { mkkey(g, kind == 4 ? KINT : kind, k); if (kind == 4) k.p = (void *)(k.i = (intptr_t)g.u(40)); keep.push_back(k); return kind == 4 ? std::to_string((uintptr_t)k.i % 7) : canon(kind, k); };
    int n = 1 + (int)g.u(60);
    for (int i = 0; i < n; i++) { int op = (int)g.u(14); int a = (int)g.u(2), b = (int)g.u(2); Key k; 
        if (op < 7) { std::string c = mk(k); g.note("ins%d(%s) ", a, show(c).c_str()); int r = zt_set_insert(s[a], k.p, k.len); CHECK(r == (m[a].count(c) ? 1 : 0), "insert of %s returned %d", show(c).c_str(), r); m[a].insert({c, k.p}); }
        else if (op < 9) { std::string c = mk(k); g.note("has%d(%s) ", a, show(c).c_str()); CHECK(!!zt_set_is_member(s[a], k.p, k.len) == !!m[a].count(c), "is_member(%s)", show(c).c_str()); }
        else if (op == 9) { void *p; if (m[a].size() && g.chance(3, 4)) { auto it = m[a].begin(); std::advance(it, g.u(m[a].size() - 1)); p = (void *)it->second; g.note("rem%d(%s) ", a, show(it->first).c_str()); void *q = p; CHECK(zt_set_remove(s[a], &q) == 0, "remove of a member failed"); CHECK(q == p, "remove returned another element"); m[a].erase(it); }
            else if (kind == KINT) { std::string c = mk(k); if (!m[a].count(c)) { g.note("rem%d(absent %s) ", a, c.c_str()); void *q = (void *)k.p; CHECK(zt_set_remove(s[a], &q) != 0, "removing an absent element succeeded"); } } }
        else if (op < 13) { std::vector<std::string> common; for (auto &e : m[a]) if (m[b].count(e.first)) common.push_back(e.first); if (common.size() && common.size() < m[a].size() && a != b) g.nontrivial();
            zt_set *r; SM w; bool fresh = g.coin(); int ri = (a + 1) % 3; if (ri == b) ri = (ri + 1) % 3; if (a == b) fresh = true; if (ri == a || ri == b) fresh = true; if (fresh) r = zt_set_init(cmp, NULL, NULL); else { r = s[ri]; w = m[ri]; }
            g.note("%s(%d,%d%s) ", op == 10 ? "union" : op == 11 ? "inter" : "diff", a, b, fresh ? "" : " into a filled set");
            int rc; if (op == 10) { rc = zt_set_union(r, s[a], s[b]); for (auto &e : m[a]) w.insert(e); for (auto &e : m[b]) w.insert(e); } else if (op == 11) { rc = zt_set_intersection(r, s[a], s[b]); for (auto &e : m[a]) if (m[b].count(e.first)) w.insert(e); } else { rc = zt_set_difference(r, s[a], s[b]); for (auto &e : m[a]) if (!m[b].count(e.first)) w.insert(e); }
            CHECK(rc == 0, "returned %d", rc); setsame(r, w, op == 10 ? "union" : op == 11 ? "intersection" : "difference"); if (fresh) zt_set_destroy(r); else m[ri] = w; }
        else if (op == 13) { bool sub = true; for (auto &e : m[a]) if (!m[b].count(e.first)) sub = false; CHECK(!!zt_set_is_subset(s[a], s[b]) == sub, "subset of %zu in %zu elements", m[a].size(), m[b].size()); CHECK(!!zt_set_is_equal(s[a], s[b]) == (sub && m[a].size() == m[b].size()), "equality"); g.note("cmp(%d,%d) ", a, b); }
        else { SW w; w.stop = 1 + (int)g.u(4); int r = zt_set_for_each(s[a], setwalk, &w); if ((int)m[a].size() >= w.stop) { CHECK(r == 9 && (int)w.v.size() == w.stop, "iteration did not stop"); } else CHECK(r == 0); }
    }
    for (int i = 0; i < 3; i++) setsame(s[i], m[i], "final");
    for (int i = 0; i < 3; i++) { destroyed.clear(); zt_set_destroy(s[i]); std::vector<void *> w; for (auto &e : m[i]) w.push_back((void *)e.second); std::sort(w.begin(), w.end()); std::sort(destroyed.begin(), destroyed.end()); CHECK(destroyed == w, "destroy callback ran for %zu of %zu elements", destroyed.size(), w.size()); }
    for (auto &k : keep) freekey(kind == 4 ? KINT : kind, k);
}

// ---------------------------------------------------------------- pointer array and array
static std::vector<void *> freed; static void freecb(void *p) { freed.push_back(p); }
P(C04, ptr_array, 200000, 2000000, 100, "histories of 1..120 add / delete / index / move / concatenate / copy / resize operations on two pointer arrays against a vector (order ignored after a delete), free callback counted; non-trivial = more than 32 elements at some time") {
    size_t h0 = heap(); bool nt = false; { zt_ptr_array *a[2]; std::vector<void *> m[2]; bool cb = g.coin(); for (auto &x : a) { x = zt_ptr_array_init(NULL, cb ? freecb : NULL); CHECK(x != NULL); } int n = 1 + (int)g.u(119); freed.clear(); uintptr_t pool = 1 + g.u(60);
    for (int i = 0; i < n; i++) { int w = (int)g.u(1); auto *x = a[w]; auto &v = m[w]; int op = (int)g.u(15);
        if (op < 8) { void *p = (void *)(1 + g.u(pool)); if (g.chance(1, 30)) p = NULL; g.note("add%d(%p) ", w, p); CHECK(zt_ptr_array_add(x, p) == 0); if (p) v.push_back(p); }
        else if (op < 10) { void *p = (void *)(1 + g.u(pool)); size_t f0 = freed.size(); g.note("del%d(%p) ", w, p); int r = zt_ptr_array_del(x, p); auto it = std::find(v.begin(), v.end(), p); if (it == v.end()) { CHECK(r == -1, "delete of an absent pointer returned %d", r); CHECK(freed.size() == f0); } else { CHECK(r == 0, "delete of a present pointer returned %d", r); if (cb) { CHECK(freed.size() == f0 + 1 && freed.back() == p, "free callback ran %zu times", freed.size() - f0); } std::vector<void *> now; for (int k = 0; k < zt_ptr_array_length(x); k++) now.push_back(zt_ptr_array_get_idx(x, k)); v.erase(it); auto s1 = now, s2 = v; std::sort(s1.begin(), s1.end()); std::sort(s2.begin(), s2.end()); CHECK(s1 == s2, "wrong elements left after a delete"); v = now; } }
        else if (op == 10) { if (g.chance(1, 8)) { int32_t e = g.coin() ? (int32_t)(INT32_MAX - g.u(31)) : (int32_t)(-1 - (int64_t)(g.coin() ? g.u(100) : g.u(INT32_MAX))); g.note("resize%d(%d) ", w, e); CHECK(zt_ptr_array_resize(x, e) == -1, "resize by %d was accepted", e); } else if (g.coin() || m[0].size() + m[1].size() > 2000) { int32_t e = (int32_t)g.u(100); g.note("resize%d(%d) ", w, e); CHECK(zt_ptr_array_resize(x, e) == 0); } else { int o = (int)g.u(1); g.note("cat%d(%d) ", w, o); CHECK(zt_ptr_array_cat(x, a[o]) == 0); auto add = m[o]; v.insert(v.end(), add.begin(), add.end()); } }
        else if (op == 11) { int32_t s = (int32_t)g.range(-2, (int64_t)v.size() + 1), d = (int32_t)g.range(-2, (int64_t)v.size() + 1); bool ok = s >= 0 && d >= 0 && s < (int)v.size() && d < (int)v.size(); g.note("move%d(%d,%d) ", w, s, d); int r = zt_ptr_array_move_idx_to_idx(x, s, d); CHECK(r == (ok ? 0 : -1), "move %d to %d of %zu returned %d", s, d, v.size(), r); if (ok) v[d] = v[s]; }
        else if (op == 12) { Mem out(v.size() * sizeof(char *)); CHECK(zt_ptr_array_copy_data(x, (char **)out.p) == 0); CHECK(!memcmp(out.p, v.data(), out.n)); }
        else { int32_t k = g.coin() ? -1 : (int32_t)g.range(-3, (int64_t)v.size() + 2); void *want = k == -1 ? (v.empty() ? NULL : v.back()) : k < 0 || k >= (int)v.size() ? NULL : v[k]; void *r = zt_ptr_array_get_idx(x, k); CHECK(r == want, "get_idx(%d) of %zu elements = %p want %p", k, v.size(), r, want); }
        if (v.size() > 32) nt = true; CHECK(zt_ptr_array_length(x) == (int)v.size()); CHECK(zt_ptr_array_length(x) <= x->size && !zt_ptr_array_is_full(x) == (zt_ptr_array_length(x) < x->size), "full"); for (size_t k = 0; k < v.size(); k++) CHECK(zt_ptr_array_get_idx(x, (int32_t)k) == v[k], "element %zu", k);
    }
    for (int i = 0; i < 2; i++) { freed.clear(); bool fm = cb && g.coin(); CHECK(zt_ptr_array_free(a[i], fm) == 0); if (fm) CHECK(freed == m[i], "free callback ran for %zu of %zu members", freed.size(), m[i].size()); else CHECK(freed.empty()); }
    } if (nt) g.nontrivial(); std::vector<void *>().swap(freed); NOLEAK(h0, "pointer arrays");
    CHECK(zt_ptr_array_add(NULL, (void *)1) == 0); CHECK(zt_ptr_array_del(NULL, (void *)1) == -1); CHECK(zt_ptr_array_free(NULL, 1) == -1);
}
P(C04, array, 200000, 2000000, 100, "histories of put / get / element copy / resize / copy / set length / replace data operations (own data included) on arrays of 1..24-byte elements against a byte model, grown space zero, all memory given back; non-trivial = grown and shrunk") {
    static bool warm = false; if (!warm) { warm = true; zt_array_t w = zt_array_new(1, 1); zt_array_free(&w); }
    size_t es = 1 + g.u(23), n0 = g.u(20); zt_array_t a; std::string m, full; int how = (int)g.u(3); int grown = 0, shrunk = 0; g.note("array how %d elt %zu ", how, es); size_t h0 = heap(); bool nt = false; {
    if (how == 0) { a = zt_array_new(n0, es); m.assign(n0 * es, 0); } else if (how == 3) { std::string c = g.cstr(20); if (c.empty()) c = "x"; CStr cs(c); a = zt_array_with_cstr(cs.p); es = 1; m = c; } else { n0 += how == 1; std::string d = g.blob((n0 + 1) * es); m = d; Mem src(d.data(), d.size()); char *own = NULL; if (how == 2) { own = (char *)malloc(d.size()); memcpy(own, d.data(), d.size()); } a = zt_array_with(own ? own : src.p, n0 + 1, es, how == 1); if (how == 1) memset(src.p, 1, src.n); }
    int n = 1 + (int)g.u(40); CHECK(zt_array_size(a) == es); full = m; // full: everything allocated; m: what the length covers
    for (int i = 0; i < n; i++) { size_t len = m.size() / es; int op = (int)g.u(7);
        if (op <= 1 && len) { size_t k = g.u(len - 1); std::string e = g.blob(es); Mem x(e.data(), es); CHECK(zt_array_put(a, k, x.p) == x.p); m.replace(k * es, es, e); full.replace(k * es, es, e); g.note("put %zu ", k); }
        else if (op == 2 && len) { size_t k = g.u(len - 1); Mem x(es); CHECK(zt_array_elem_copy(a, k, x.p) == x.p); CHECK(x.s() == m.substr(k * es, es), "element %zu differs", k); CHECK(!memcmp(zt_array_get(a, k), m.data() + k * es, es)); }
        else if (op == 3) { size_t k = 1 + g.u(40); if (k > len) grown = 1; if (k < len) shrunk = 1; zt_array_resize(a, k); m.resize(k * es, 0); full = m; g.note("resize %zu ", k); }
        else if (op == 4) { size_t k = g.u(40); zt_array_t c = zt_array_copy(a, k); CHECK(zt_array_length(c) == k && zt_array_size(c) == es); std::string w = m; w.resize(k * es, 0); if (k) CHECK(!memcmp(zt_array_data(c), w.data(), w.size()), "copy of %zu of %zu elements differs", k, len); if (k) { memset(zt_array_data(c), 0x77, k * es); } zt_array_free(&c); CHECK(c == NULL); }
        else if (op == 5) { size_t k = g.u(full.size() / es); g.note("length %zu ", k); size_t r = zt_array_set_length(a, k); CHECK(r == len, "set length returned %zu, the length was %zu", r, len); m = full.substr(0, k * es); }
        else if (op == 6 && g.chance(1, 3)) { size_t ne = how == 3 ? 1 : 1 + g.u(23), k = 1 + g.u(20); int cp = g.coin(); bool self = full.size() && g.chance(1, 3); if (self) { k = 1 + g.u(full.size() - 1); ne = 1; } std::string d = self ? full.substr(0, k) : g.blob(k * ne); g.note("data %zux%zu copy %d own %d ", k, ne, cp, self);
            if (self) zt_array_set_data(a, zt_array_data(a), k, ne, cp); else { char *p = (char *)malloc(d.size()); memcpy(p, d.data(), d.size()); zt_array_set_data(a, p, k, ne, cp); if (cp) free(p); else CHECK(zt_array_data(a) == p); } es = ne; m = d; full = self && !cp ? full : d; CHECK(zt_array_size(a) == es); }
        CHECK(zt_array_length(a) == m.size() / es); if (m.size()) CHECK(!memcmp(zt_array_data(a), m.data(), m.size()), "content differs");
    }
    nt = grown && shrunk; zt_array_free(&a); CHECK(a == NULL); m = std::string(); m.shrink_to_fit(); full = std::string(); full.shrink_to_fit(); } if (nt) g.nontrivial(); NOLEAK(h0, "array");
}

// ---------------------------------------------------------------- embedded list, queue, stack
struct Nd { int id; zt_elist_t l; }; static volatile bool always = true; static bool k0() { return always; }
static void listsame(zt_elist_t *h, const std::vector<Nd *> &m, const char *what) {
    zt_elist_t *p, *unused = NULL; size_t i = 0; bool y = what != NULL; /* the macros take any expression */ zt_elist_for_each(y ? h : unused, y ? p : unused) { CHECK(i < m.size(), "%s: more than %zu entries forward", what, m.size()); Nd *d = zt_elist_data(y ? p : unused, Nd, l); CHECK(d == m[i], "%s: entry %zu is %d want %d", what, i, d->id, m[i]->id); i++; } CHECK(i == m.size(), "%s: %zu entries forward want %zu", what, i, m.size());
    i = m.size(); for (p = zt_elist_get_prev(y ? h : unused); p != h; p = zt_elist_get_prev(p)) { CHECK(i > 0); i--; CHECK(p == &m[i]->l, "%s: entry %zu backward", what, i); } CHECK(i == 0); CHECK(!!zt_elist_empty(h) == m.empty());
}
P(C05, lists, 60000, 3000000, 100, "histories of 1..60 add / add-tail / remove / join / push / pop / enqueue / dequeue / peek operations on two lists, a queue and a stack against vectors, traversed both ways, empty lists, pops and joins included; non-trivial = a join of two lists or a removal from the middle") {
    zt_elist_t h[2]; zt_queue(q); zt_stack(st); if (g.coin()) { memset(&q, 0xA5, sizeof q); memset(&st, 0xA5, sizeof st); zt_queue_reset(&q); zt_stack_reset(&st); } for (int i = 0; i < 2; i++) zt_elist_reset(i ? &h[1] : &h[0]); std::vector<Nd *> m[2], mq, ms, all; int n = 1 + (int)g.u(59), id = 0;
    auto mk = [&]() { Nd *d = (Nd *)calloc(1, sizeof(Nd)); d->id = id++; zt_elist_reset(&d->l); all.push_back(d); return d; };
    for (int i = 0; i < n; i++) { int w = (int)g.u(1), op = (int)g.u(10); auto &v = m[w];
        switch (op) {
        case 0: { Nd *d = mk(); g.note("add%d ", w); zt_elist_add(&h[w], &d->l); v.insert(v.begin(), d); break; }
        case 1: { Nd *d = mk(); g.note("tail%d ", w); zt_elist_add_tail(&h[w], &d->l); v.push_back(d); break; }
        case 2: if (v.size()) { size_t k = g.u(v.size() - 1); if (k && k + 1 < v.size()) g.nontrivial(); g.note("rm%d(%zu) ", w, k); zt_elist_remove(&v[k]->l); zt_elist_reset(&v[k]->l); v.erase(v.begin() + k); } break;
        case 3: { g.note("join%d ", w); auto &o = m[!w]; if (v.size() && o.size()) g.nontrivial(); zt_elist_join(&h[w], &h[!w]); v.insert(v.begin(), o.begin(), o.end()); o.clear(); zt_elist_reset(&h[!w]); break; }
        case 4: case 5: { Nd *d = mk(); g.note("enq "); CHECK(!zt_queue_empty(&q) == !mq.empty() && !zt_stack_empty(&st) == !ms.empty(), "a queue of %zu or a stack of %zu is taken for empty or not", mq.size(), ms.size()); zt_queue_enqueue(&q, &d->l); mq.push_back(d); CHECK(zt_queue_data(zt_queue_peek(&q), Nd, l) == mq[0]); break; }
        case 6: { g.note("deq "); zt_queue_t *e = zt_queue_dequeue(&q); if (mq.empty()) CHECK(e == NULL, "an empty queue gave an element"); else { CHECK(e == &mq[0]->l, "dequeued the wrong element"); mq.erase(mq.begin()); } break; }
        case 7: case 8: { Nd *d = mk(); g.note("push "); zt_stack_push(&st, &d->l); ms.push_back(d); CHECK(zt_stack_data(zt_stack_peek(&st), Nd, l) == d); break; }
        case 9: { g.note("pop "); zt_stack_t *e = zt_stack_pop(&st); if (ms.empty()) CHECK(e == NULL, "an empty stack gave an element"); else { CHECK(e == &ms.back()->l, "popped the wrong element"); ms.pop_back(); } break; }
        case 10: { g.note("clear%d ", w); zt_elist_t *p, *nx, *unused = NULL; bool y = k0(); size_t k = 0; zt_elist_for_each_safe(w ? &h[1] : &h[0], y ? p : unused, y ? nx : unused) { CHECK(k < v.size() && p == &v[k]->l); zt_elist_remove(p); zt_elist_reset(p); k++; } CHECK(k == v.size(), "safe iteration visited %zu of %zu", k, v.size()); v.clear(); break; }
        }
        listsame(&h[0], m[0], "list 0"); listsame(&h[1], m[1], "list 1"); listsame(&st, std::vector<Nd *>(ms.rbegin(), ms.rend()), "stack"); listsame(&q, std::vector<Nd *>(mq.rbegin(), mq.rend()), "queue");
    }
    for (auto d : all) free(d);
}
static int gt(void *a, void *b) { return (intptr_t)a > (intptr_t)b; }
static int tri(void *a, void *b) { return (intptr_t)a < (intptr_t)b ? -1 : (intptr_t)a > (intptr_t)b; }
static int tribig(void *a, void *b) { return (intptr_t)a < (intptr_t)b ? -1000 : (intptr_t)a > (intptr_t)b ? 77 : 0; }
static std::vector<intptr_t> lv(zt_llist l) { std::vector<intptr_t> v; while (l) { v.push_back((intptr_t)zt_llist_head(l)); l = zt_llist_tail(l); CHECK(v.size() < 100000, "list does not end"); } return v; }
static zt_llist lmk(const std::vector<intptr_t> &v) { zt_llist l = NULL; for (size_t i = v.size(); i-- > 0;) l = zt_llist_cons((void *)v[i], l); return l; }
P_(C05, llist_long, 5, 60, 1, 120, 1, 0, "lists of 20000 to 150000 values in ascending, descending, constant or any order sorted, reversed and counted: the result is right and neither stack nor time runs out; all cases non-trivial") {
    size_t n = 20000 + g.u(130000); int how = (int)g.u(3); std::vector<intptr_t> v(n); for (size_t i = 0; i < n; i++) v[i] = how == 0 ? (intptr_t)i : how == 1 ? (intptr_t)(n - i) : how == 2 ? 7 : (intptr_t)(g.u(1 << 30)); g.note("%zu values, order %d", n, how); g.nontrivial();
    size_t h0 = heap(); { zt_llist l = lmk(v); auto vals = [](zt_llist x) { std::vector<intptr_t> o; for (; x; x = zt_llist_tail(x)) { o.push_back((intptr_t)zt_llist_head(x)); CHECK(o.size() <= 200000, "list does not end"); } return o; };
    zt_llist r = zt_llist_reverse(l); CHECK(vals(r) == std::vector<intptr_t>(v.rbegin(), v.rend()), "reverse of %zu", n); zt_llist_free(r); l = zt_llist_nreverse(l); CHECK((intptr_t)zt_llist_nth(l, (int)n - 1) == v[0], "nth"); l = zt_llist_sort(l, tri); std::sort(v.begin(), v.end()); CHECK(vals(l) == v, "sort of %zu", n); zt_llist_free(l); std::vector<intptr_t>().swap(v); }
    CHECK(heap() <= h0, "%zu bytes left", heap() - h0);
}
P(C05, llist, 60000, 3000000, 100, "linked lists of 0..60 values: push, pop, nth, tail, reverse (copying and in place), split, merge of sorted lists and merge sort with boolean and three-way comparisons, against vectors, pairs given back; non-trivial = more than 2 elements with a duplicate") {
    std::vector<intptr_t> v; size_t n = g.len(60); int rng = (int)g.pick({1, 5, 40, 100000}); for (size_t i = 0; i < n; i++) v.push_back((intptr_t)g.u(rng)); auto s = v; std::sort(s.begin(), s.end()); if (n > 2 && std::adjacent_find(s.begin(), s.end()) != s.end()) g.nontrivial(); auto r = std::vector<intptr_t>(v.rbegin(), v.rend());
    int op = (int)g.u(5), ck = (int)g.u(2); auto cmp = ck == 0 ? gt : ck == 1 ? tri : tribig; std::vector<intptr_t> v2; if (op == 4) { for (size_t i = g.len(40); i-- > 0;) v2.push_back((intptr_t)g.u(rng)); std::sort(v2.begin(), v2.end()); } size_t k = n ? g.u(n - 1) : 0; g.note("op %d cmp %d list of %zu:", op, ck, n); for (size_t i = 0; i < n && i < 40; i++) g.note(" %ld", (long)v[i]);
    size_t h0 = heap(); {
    zt_llist l = lmk(v), l2 = NULL;
    switch (op) {
    case 0: l2 = zt_llist_reverse(l); CHECK(lv(l2) == r, "reverse"); CHECK(lv(l) == v, "reverse changed its input"); break;
    case 1: l = zt_llist_nreverse(l); CHECK(lv(l) == r, "nreverse"); break;
    case 2: l = zt_llist_sort(l, cmp); CHECK(lv(l) == s, "sort of %zu elements with %s comparison is wrong", n, ck ? "three-way" : "greater-than"); break;
    case 3: if (n) { CHECK((intptr_t)zt_llist_nth(l, (int)k) == v[k], "nth %zu", k); CHECK(lv(zt_llist_nthtail(l, (int)k)) == std::vector<intptr_t>(v.begin() + k + 1, v.end()), "nthtail %zu", k); } break;
    case 4: { zt_llist_free(l); l = lmk(s); l2 = lmk(v2); l = zt_llist_nmerge(l, l2, cmp); l2 = NULL; auto w = s; w.insert(w.end(), v2.begin(), v2.end()); std::sort(w.begin(), w.end()); CHECK(lv(l) == w, "merge"); break; }
    case 5: { zt_llist_push((void *)77, &l); CHECK((intptr_t)zt_llist_pop(&l) == 77); zt_pair *p = zt_llist_ppop(&l); if (n) { CHECK((intptr_t)p->head == v[0]); zt_llist_ppush(p, &l); } else CHECK(p == NULL); for (size_t i = 0; i < n; i++) CHECK((intptr_t)zt_llist_pop(&l) == v[i]); CHECK(l == NULL && zt_llist_pop(&l) == NULL); break; }
    }
    zt_llist_free(l); zt_llist_free(l2); }
    NOLEAK(h0, "list pairs");
}

// ---------------------------------------------------------------- red-black tree
struct Tn { zt_rbt_node n; int k; }; static int ncmp, tby = 1;
static int tcmp(zt_rbt_node *a, zt_rbt_node *b) { ncmp++; int x = zt_rbt_data(a, Tn, n)->k, y = zt_rbt_data(b, Tn, n)->k; return x < y ? -tby : x > y ? tby : 0; }
static void treecheck(zt_rbt **h, std::map<int, Tn *> &m) {
    zt_rbt_node *p; auto it = m.begin(); zt_rbt_for_each(h, p) { CHECK(it != m.end(), "more nodes than %zu", m.size()); CHECK(zt_rbt_data(p, Tn, n) == it->second, "in-order node %d want %d", zt_rbt_data(p, Tn, n)->k, it->first); ++it; } CHECK(it == m.end(), "iteration ended before %d", it == m.end() ? 0 : it->first);
    p = zt_rbt_min(h); CHECK(m.empty() ? p == NULL : p == &m.begin()->second->n); p = zt_rbt_max(h); CHECK(m.empty() ? p == NULL : p == &m.rbegin()->second->n);
}
static int bound(size_t n) { int lg = 0; while ((1ull << lg) < n + 1) lg++; return 2 * lg + 1; }
P(C06, tree, 30000, 1500000, 50, "histories of up to 150 insert / remove / find / next-or-equal / iterate operations in random, ascending, descending and clustered key order against std::map, with the number of comparisons bounded by the height of a balanced tree; non-trivial = at least 16 nodes and a removal") {
    zt_rbt *root = NULL; std::map<int, Tn *> m; int n = 1 + (int)g.u(149), mode = (int)g.u(3), range = (int)g.pick({8, 40, 1000}), next = 0; std::vector<Tn *> all; bool rm = false; size_t top = 0; int rmw = (int)g.u(5); g.note("mode %d range %d: ", mode, range); tby = (int)g.pick({1, 1, 2, 255, 256, INT_MAX});
    for (int i = 0; i < n; i++) { int op = (int)g.u(9); int k = mode == 1 ? next++ : mode == 2 ? next-- : (int)g.range(0, range); Tn key; key.k = k; ncmp = 0;
        if (op < 9 - rmw && op < 6) { Tn *t = (Tn *)malloc(sizeof(Tn)); memset(t, 0xA5, sizeof(Tn)); t->k = k; all.push_back(t); g.note("+%d ", k); zt_rbt_node *r = zt_rbt_insert(&root, &t->n, tcmp); auto f = m.find(k); if (f == m.end()) { CHECK(r == NULL, "insert of a new key returned a node"); m[k] = t; } else CHECK(r == &f->second->n, "insert of a present key did not return its node"); CHECK(ncmp <= bound(m.size()), "%d comparisons to insert into %zu nodes", ncmp, m.size()); }
        else if (op < 7) { if (m.empty()) continue; auto it = m.begin(); std::advance(it, g.u(m.size() - 1)); g.note("-%d ", it->first); zt_rbt_node *r = zt_rbt_remove(&root, &it->second->n); CHECK(r == &it->second->n, "remove returned another node"); memset(it->second, 0xEE, sizeof(Tn)); m.erase(it); rm = true; }
        else if (op == 7) { key.k = (int)g.range(-1, range + 1); zt_rbt_node *r = zt_rbt_find(&root, &key.n, tcmp); auto f = m.find(key.k); CHECK(f == m.end() ? r == NULL : r == &f->second->n, "find %d", key.k); CHECK(ncmp <= bound(m.size()), "%d comparisons to find in %zu nodes", ncmp, m.size()); }
        else if (op == 8) { key.k = (int)g.range(-1, range + 1); zt_rbt_node *r = zt_rbt_nfind(&root, &key.n, tcmp); auto f = m.lower_bound(key.k); CHECK(f == m.end() ? r == NULL : r == &f->second->n, "nfind %d", key.k); CHECK(ncmp <= bound(m.size())); }
        else if (g.chance(1, 10)) { zt_rbt_node *p, *nx; auto it = m.begin(); int keep = (int)g.u(3); g.note("safe-iterate "); std::map<int, Tn *> left; zt_rbt_for_each_safe(&root, p, nx) { CHECK(it != m.end() && p == &it->second->n, "safe iteration"); if (it->first % 4 != keep) { zt_rbt_remove(&root, p); memset(it->second, 0xEE, sizeof(Tn)); rm = true; } else left.insert(*it); ++it; } CHECK(it == m.end()); m = left; }
        if (m.size() > top) top = m.size(); treecheck(&root, m);
    }
    if (rm && top >= 16) g.nontrivial(); for (auto t : all) free(t);
}

P(C06, large, 3000, 60000, 5, "trees of 200..4000 nodes built in one order, thinned by 1..6 rounds of removals (from one end, every other one, a range, at random) and insertions, every node then found with the comparisons a balanced tree needs; non-trivial = a tree that lost half of its nodes is still larger than 100") {
    zt_rbt *root = NULL; std::map<int, Tn *> m; std::vector<Tn *> all; tby = 1; int N = 200 + (int)g.u(3800), order = (int)g.u(3); std::vector<int> ks; for (int i = 0; i < N; i++) ks.push_back(order == 1 ? -i : i); if (order > 1) for (int i = N - 1; i > 0; i--) std::swap(ks[(size_t)i], ks[g.u((uint64_t)i)]); g.note("%d nodes in order %d: ", N, order); size_t gone = 0;
    auto put = [&](int k) { if (m.count(k)) return; Tn *t = (Tn *)malloc(sizeof(Tn)); t->k = k; all.push_back(t); ncmp = 0; CHECK(zt_rbt_insert(&root, &t->n, tcmp) == NULL); m[k] = t; CHECK(ncmp <= bound(m.size()), "%d comparisons to insert into %zu nodes", ncmp, m.size()); };
    auto cut = [&](int k) { auto f = m.find(k); CHECK(zt_rbt_remove(&root, &f->second->n) == &f->second->n, "remove returned another node"); m.erase(f); gone++; };
    auto look = [&]() { for (auto &e : m) { Tn key; key.k = e.first; ncmp = 0; CHECK(zt_rbt_find(&root, &key.n, tcmp) == &e.second->n, "find %d", e.first); CHECK(ncmp <= bound(m.size()), "%d comparisons to find %d in %zu nodes", ncmp, e.first, m.size()); } treecheck(&root, m); };
    for (int k : ks) put(k); look(); int rounds = 1 + (int)g.u(5);
    for (int r = 0; r < rounds && m.size() > 4; r++) { std::vector<int> have; for (auto &e : m) have.push_back(e.first); size_t h = have.size(); int how = (int)g.u(5); g.note("%d ", how); size_t a = g.u(h / 2), n = 1 + g.u(h / 2 - 1);
        if (how == 0) for (size_t i = 0; i < n; i++) cut(have[i]); else if (how == 1) for (size_t i = 0; i < n; i++) cut(have[h - 1 - i]); else if (how == 2) { size_t st = 2 + g.u(3); for (size_t i = 0; i < h; i += st) cut(have[i]); } else if (how == 3) for (size_t i = a; i < a + n && i < h; i++) cut(have[i]); else if (how == 4) { for (size_t i = 0; i < h; i++) if (g.coin()) cut(have[i]); } else { int base = g.coin() ? have[h - 1] : have[0] - (int)n; for (size_t i = 0; i <= n; i++) put(base + (int)i); }
        if (gone * 2 > all.size() && m.size() > 100) g.nontrivial(); look(); }
    for (auto t : all) free(t);
}

// ---------------------------------------------------------------- memory pools
struct Live { unsigned char *p; size_t n; unsigned char v; };
static void fill(Live &l) { memset(l.p, l.v, l.n); } static void intact(const Live &l, const char *what) { for (size_t i = 0; i < l.n; i++) CHECK(l.p[i] == l.v, "%s: byte %zu of a live element changed", what, i); }
static int relret, relcalls, relflags; static void *reldata; static size_t relreq, relfree, relused; static int relcb(size_t rq, size_t fr, size_t us, int fl, void *d) { relcalls++; reldata = d; relreq = rq; relfree = fr; relused = us; relflags = fl; return relret; }
P(M01, pool, 20000, 1000000, 50, "histories of 1..200 alloc / release / trim / stats / destroy operations on a pool of elements of 1..5000 bytes, every live element filled with its own pattern and re-checked, with the default, never-free and user release tests; non-trivial = several pages and a page given back") {
    size_t es = g.coin() ? 1 + g.u(64) : g.chance(1, 3) ? 1 + g.u(5000) : 8 * (1 + g.u(60)); ssize_t elts = (ssize_t)g.pick({0, 1, 2, 5, 20, 100, 300}); int how = (int)g.u(3); int flags = how == 1 || (how >= 2 && g.coin()) ? POOL_NEVER_FREE : 0; relret = (int)g.u(1); relcalls = 0; char name[40]; snprintf(name, sizeof name, "pool-%d", (int)g.u(99));
    g.note("pool(%zd x %zu, release %d/%d) ", elts, es, how, relret); zt_mem_pool *p = zt_mem_pool_init(name, elts, es, how >= 2 ? relcb : NULL, &es, flags); CHECK(p != NULL); CHECK(zt_mem_pool_get(name) == p, "pool not found by its name");
    std::vector<Live> live; int n = 1 + (int)g.u(199); unsigned char pat = 1; zt_mem_pool_stats s; int bias = (int)g.u(4); 
    auto chk = [&]() { CHECK(zt_mem_pool_get_stats(p, &s) == ZT_PASS); CHECK(s.elt_size == es && (ssize_t)s.requested_elts == elts); CHECK(s.pages == s.page_allocs - s.page_frees, "pages %zu, allocated %zu, freed %zu", s.pages, s.page_allocs, s.page_frees); if (elts > 0) CHECK(s.actual_elts == s.cached_pages * s.elts_per_page && s.actual_elts >= (size_t)elts && s.actual_elts - (size_t)elts < s.elts_per_page, "%zu elements on %zu pages of %zu are cached where %zd were asked for", s.actual_elts, s.cached_pages, s.elts_per_page, (ssize_t)elts); CHECK(s.free_pages <= s.pages); CHECK(s.pages * s.elts_per_page >= live.size(), "%zu pages of %zu for %zu live elements", s.pages, s.elts_per_page, live.size()); CHECK((s.pages - s.free_pages) <= live.size(), "%zu of %zu pages free with %zu live elements", s.free_pages, s.pages, live.size()); CHECK((s.pages - s.free_pages) * s.elts_per_page >= live.size()); };
    for (int i = 0; i < n; i++) { int op = (int)g.u(9); 
        if (op < 4 + (bias < 2)) { Live l; l.n = es; l.v = pat++; l.p = (unsigned char *)zt_mem_pool_alloc(p); CHECK(l.p != NULL); { size_t al = std::min(es & (0 - es), (size_t)8); CHECK(!al || !((uintptr_t)l.p & (al - 1)), "an element of %zu bytes is not aligned", es); } for (auto &o : live) CHECK(l.p + es <= o.p || o.p + o.n <= l.p, "element handed out twice"); fill(l); live.push_back(l); }
        else if (op < 8) { size_t k = g.u(3); while (k-- && live.size()) { size_t j = g.u(live.size() - 1); intact(live[j], "release"); size_t pages = s.pages; chk(); size_t p0 = s.pages, f0 = s.page_frees; (void)pages; int rc = relcalls; void *v = live[j].p; zt_mem_pool_release(&v); live.erase(live.begin() + j); chk(); CHECK(s.pages == p0 || s.pages == p0 - 1); if (s.page_frees != f0) g.nontrivial(); if (how == 1) CHECK(s.page_frees == f0, "a never-free pool gave a page back"); if (how >= 2) { CHECK(s.page_frees - f0 == (size_t)(relcalls > rc && relret), "page release against the release test"); if (relcalls > rc) { CHECK(reldata == &es, "release test data"); CHECK(relflags == flags, "release test flags %d, the pool has %d", relflags, flags); CHECK(relreq == (size_t)elts && relfree > 0 && (relused == 0) == (s.pages == s.free_pages), "release test told of %zu requested, %zu free, %zu used elements", relreq, relfree, relused); } } } }
        else if (op == 8) { g.note("trim@%d ", i); CHECK(zt_mem_pool_release_free_pages(p) == 0); chk(); CHECK(s.free_pages == 0, "%zu free pages after a trim", s.free_pages); if (live.empty()) CHECK(s.pages == 0); }
        else if (live.size() && g.chance(1, 4)) { g.note("destroy-busy@%d ", i); zt_mem_pool *q = p; CHECK(zt_mem_pool_destroy(&q) == -1, "a pool with live elements was destroyed"); CHECK(q == p); }
        chk(); if (i % 8 == 0) for (auto &l : live) intact(l, "later");
    }
    for (auto &l : live) intact(l, "end"); while (live.size()) { void *v = live.back().p; live.pop_back(); zt_mem_pool_release(&v); } chk(); CHECK(s.free_pages == s.pages, "free pages of an idle pool"); CHECK(zt_mem_pool_destroy(&p) == 0); CHECK(p == NULL); CHECK(zt_mem_pool_get(name) == NULL, "destroyed pool still found");
}
P(M01, group, 20000, 600000, 50, "pool groups of 1..6 pools in any size order, described with and without an end entry: every allocation comes from the pool closest in size, none is larger than asked for can hold, elements stay intact; non-trivial = sizes not ascending") {
    zt_mem_pool_desc d[8]; size_t np = 1 + g.u(5); std::vector<size_t> sz; bool sorted = true; bool sentinel = g.coin(); memset(d, 0, sizeof d); static char nm[8][8]; relret = 1;
    for (size_t i = 0; i < np; i++) { size_t s; do s = 1 + g.u(200); while (std::find(sz.begin(), sz.end(), s) != sz.end()); if (i && s < sz.back()) sorted = false; sz.push_back(s); snprintf(nm[i], 8, "g%zu", i); d[i].name = nm[i]; d[i].elts = g.u(5); d[i].size = s; d[i].release_test = relcb; d[i].cb_data = &d[i]; g.note("%zu ", s); } if (!sorted) g.nontrivial();
    zt_mem_pool_group *gr = zt_mem_pool_group_init(d, np + sentinel); CHECK(gr != NULL); std::vector<Live> live; unsigned char pat = 1;
    for (int i = 0, n = (int)g.u(40); i < n; i++) { Live l; l.n = g.u(210); size_t best = 0; for (auto s : sz) if (s >= l.n && (!best || s < best)) best = s; if (!best && asserted) continue; l.v = pat++; l.p = (unsigned char *)zt_mem_pool_group_alloc(gr, l.n); if (!best) { CHECK(l.p == NULL, "a request no pool can hold succeeded"); continue; } CHECK(l.p != NULL); fill(l); live.push_back(l);
        if (live.size() && g.coin()) { size_t j = g.u(live.size() - 1); intact(live[j], "group"); void *v = live[j].p; live.erase(live.begin() + j); zt_mem_pool_group_release(&v); } }
    for (auto &l : live) { intact(l, "group end"); void *v = l.p; zt_mem_pool_group_release(&v); }
    for (int t = 0; t < 5; t++) { size_t ask = g.u(200), best = 0; for (auto s : sz) if (s >= ask && (!best || s < best)) best = s; if (!best) continue; void *v = zt_mem_pool_group_alloc(gr, ask); relcalls = 0; zt_mem_pool_group_release(&v); CHECK(relcalls == 1, "release test of a page of one element ran %d times", relcalls); CHECK(((zt_mem_pool_desc *)reldata)->size == best, "request of %zu served by the pool of %zu, closest is %zu", ask, ((zt_mem_pool_desc *)reldata)->size, best); }
    if (g.coin()) { CHECK(zt_mem_pool_group_destroy(gr) == 0); return; }
    std::vector<Live> held; std::set<size_t> busy; for (int k = 1 + (int)g.u(2); k--;) { Live l; size_t i = g.u(np - 1); l.n = sz[i]; l.v = pat++; busy.insert(i); l.p = (unsigned char *)zt_mem_pool_group_alloc(gr, l.n); CHECK(l.p != NULL); fill(l); held.push_back(l); }
    CHECK(zt_mem_pool_group_destroy(gr) != 0, "the destruction of a group with live elements reported success"); for (auto &l : held) { intact(l, "after the refused destruction"); void *v = l.p; zt_mem_pool_group_release(&v); }
    for (size_t i = 0; i < np; i++) { zt_mem_pool *q = zt_mem_pool_get(nm[i]); CHECK((q != NULL) == (busy.count(i) == 1), "pool %s is %s after the destruction of its group", nm[i], q ? "found" : "not found"); if (q) CHECK(zt_mem_pool_destroy(&q) == 0); }
}
struct Dp { std::string name; std::map<std::string, long> v; std::vector<void *> elts, fpages, pages, fdata, parents; std::vector<long> pfree; void *self; bool fl, pl; };
template <class F> static std::string printed(F f) { fflush(stdout); int old = dup(1), fd = open("out", O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(fd, 1); f(); fflush(stdout); dup2(old, 1); close(old); std::string s; char b[4096]; ssize_t n; lseek(fd, 0, SEEK_SET); while ((n = read(fd, b, sizeof b)) > 0) s.append(b, (size_t)n); close(fd); return s; }
static std::vector<Dp> pools(const std::string &t, long &depth) {
    std::vector<Dp> r; depth = 0; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size(); std::string l = t.substr(i, e - i); i = e + 1; size_t b = l.find_first_not_of(' '); if (b == std::string::npos) continue; l = l.substr(b); while (l.size() && l.back() == ' ') l.pop_back(); if (l.back() == '{') depth++; if (l == "}") { depth--; continue; }
        if (!l.compare(0, 7, "pool: \"")) { Dp p; size_t q = l.rfind("\" ["); CHECK(q != std::string::npos, "pool line: %s", show(l).c_str()); p.name = l.substr(7, q - 7); p.fl = p.pl = false; CHECK(sscanf(l.c_str() + q + 3, "%p", &p.self) == 1); r.push_back(p); continue; } if (r.empty()) continue; Dp &p = r.back(); void *x, *y, *z; long v;
        if (l == "free_list {") p.fl = true; else if (l == "pages {") p.pl = true; else if (sscanf(l.c_str(), "elt: %p parent_page: %p data: %p", &x, &y, &z) == 3) { p.elts.push_back(x); p.fpages.push_back(y); p.fdata.push_back(z); } else if (sscanf(l.c_str(), "page: %p {", &x) == 1 && l.back() == '{') p.pages.push_back(x); else if (sscanf(l.c_str(), "num_free_elts: %ld", &v) == 1) p.pfree.push_back(v); else if (sscanf(l.c_str(), "parent pool: %p", &x) == 1) p.parents.push_back(x);
        else { size_t c = l.find(": "); if (c != std::string::npos && isdigit((unsigned char)l[c + 2])) { CHECK(!p.v.count(l.substr(0, c)), "printed twice: %s", l.c_str()); p.v[l.substr(0, c)] = atol(l.c_str() + c + 2); } } }
    return r;
}
static void shown(Dp &d, zt_mem_pool *p, const std::string &name, size_t live, const std::vector<void *> &lv, int flags) {
    zt_mem_pool_stats s; CHECK(zt_mem_pool_get_stats(p, &s) == ZT_PASS); CHECK(d.name == name, "name printed: %s want %s", show(d.name).c_str(), show(name).c_str()); CHECK(d.self == p, "address printed"); auto is = [&](const char *k, size_t v) { CHECK(d.v.count(k), "%s is not printed", k); CHECK((size_t)d.v[k] == v, "%s: printed %ld, is %zu", k, d.v[k], v); };
    is("elt cache requested", s.requested_elts); is("elt cache actual", s.actual_elts); is("total elts", s.pages * s.elts_per_page); is("free elts", s.pages * s.elts_per_page - live); is("page cache", s.cached_pages); is("free pages", s.free_pages); is("page size", s.page_size); is("pages in use", s.pages - s.free_pages); is("total pages", s.pages); is("elements per page", s.elts_per_page); is("page allocs", s.page_allocs); is("page frees", s.page_frees); is("element size", s.elt_size); is("page memory (page size * total pages)", s.page_size * s.pages);
    CHECK(d.fl == !!(flags & DISPLAY_POOL_FREE_LIST) && d.pl == !!(flags & DISPLAY_POOL_PAGES), "sections printed"); if (d.pl) { std::set<void *> u(d.pages.begin(), d.pages.end()); CHECK(u.size() == s.pages && d.pages.size() == s.pages, "%zu pages printed of %zu", d.pages.size(), s.pages); long n = 0, idle = 0; CHECK(d.pfree.size() == s.pages && d.parents.size() == s.pages); for (long f : d.pfree) n += f, idle += f == (long)s.elts_per_page; CHECK(n == (long)(s.pages * s.elts_per_page - live), "free elements per page add up to %ld", n); CHECK(idle == (long)s.free_pages, "%ld pages without live elements, %zu free", idle, s.free_pages); for (void *q : d.parents) CHECK(q == p, "page of another pool"); }
    if (d.fl) { std::set<void *> u(d.fdata.begin(), d.fdata.end()); CHECK(u.size() == d.fdata.size(), "element listed twice"); CHECK(u.size() == s.pages * s.elts_per_page - live, "%zu free elements listed, there are %zu", u.size(), s.pages * s.elts_per_page - live); for (void *q : lv) CHECK(!u.count(q), "a live element is on the free list"); if (d.pl) { std::map<void *, long> pf; for (void *q : d.fpages) pf[q]++; for (size_t i = 0; i < d.pages.size(); i++) CHECK(pf[d.pages[i]] == d.pfree[i], "page %zu: %ld free elements listed, %ld counted", i, pf[d.pages[i]], d.pfree[i]); } }
}
P(M01, display, 6000, 200000, 50, "what is printed of 1..4 pools, of a group and of all pools, after histories of allocation and release: name and statistics, each free element and page once and no live element among them, every pool once, for every choice of sections; non-trivial = several pages in one pool") {
    struct Pl { zt_mem_pool *p; std::string name; std::vector<void *> live; }; std::vector<Pl> v; int np = 1 + (int)g.u(3); relret = 1;
    for (int i = 0; i < np; i++) { std::string nm = g.coin() ? "p" + std::to_string(i) : g.cstr(20); for (auto &c : nm) if (c == '\n') c = '_'; nm += std::to_string(i); Pl x; x.name = nm; CStr c(nm); bool never = g.coin(); x.p = zt_mem_pool_init(c.p, (ssize_t)g.pick({0, 1, 5, 40, 300}), 1 + g.u(g.coin() ? 32 : 3000), g.coin() ? relcb : NULL, NULL, never ? POOL_NEVER_FREE : 0); CHECK(x.p != NULL); v.push_back(x); g.note("%s ", show(nm).c_str()); }
    int n = (int)g.u(g.coin() ? 20 : 300); for (int i = 0; i < n; i++) { Pl &x = v[g.u(v.size() - 1)]; if (x.live.empty() || g.chance(3, 5)) x.live.push_back(zt_mem_pool_alloc(x.p)); else { size_t j = g.u(x.live.size() - 1); void *q = x.live[j]; x.live.erase(x.live.begin() + (long)j); zt_mem_pool_release(&q); } if (g.chance(1, 60)) zt_mem_pool_release_free_pages(x.p); }
    size_t held = 0; for (auto &x : v) held += x.live.size(); g.note("%zu live ", held); int flags = (int)g.u(3), off = (int)g.u(3); long depth; for (auto &x : v) { zt_mem_pool_stats s; zt_mem_pool_get_stats(x.p, &s); if (s.pages > 1) g.nontrivial(); std::vector<Dp> d = pools(printed([&] { zt_mem_pool_display(off, x.p, flags); }), depth); CHECK(d.size() == 1 && !depth, "%zu pools printed", d.size()); shown(d[0], x.p, x.name, x.live.size(), x.live, flags); }
    { std::string t = printed([&] { zt_mem_pools_display(off, flags); }); std::vector<Dp> d = pools(t, depth); CHECK(d.size() == v.size() && !depth, "%zu pools printed of %zu", d.size(), v.size()); for (auto &x : v) { int k = 0; for (auto &y : d) if (y.self == x.p) { k++; shown(y, x.p, x.name, x.live.size(), x.live, flags); } CHECK(k == 1, "a pool is printed %d times", k); } }
    for (auto &x : v) { while (x.live.size()) { void *q = x.live.back(); x.live.pop_back(); zt_mem_pool_release(&q); } CHECK(zt_mem_pool_destroy(&x.p) == 0); }
    zt_mem_pool_desc ds[5]; memset(ds, 0, sizeof ds); size_t k = 1 + g.u(3); static char nm[4][8]; std::set<std::string> names; for (size_t i = 0; i < k; i++) { snprintf(nm[i], 8, "g%zu", i); names.insert(nm[i]); ds[i].name = nm[i]; ds[i].elts = g.u(5); ds[i].size = 1 + g.u(20) + 30 * i; } zt_mem_pool_group *gr = zt_mem_pool_group_init(ds, k); CHECK(gr != NULL); std::vector<void *> gl; for (size_t i = g.u(6); i--;) gl.push_back(zt_mem_pool_group_alloc(gr, 1 + g.u(ds[k - 1].size - 1)));
    std::vector<Dp> d = pools(printed([&] { zt_mem_pool_group_display(off, gr, flags); }), depth), all = pools(printed([&] { zt_mem_pools_display(0, flags); }), depth); CHECK(d.size() == k && all.size() == k && !depth, "%zu and %zu pools of %zu printed", d.size(), all.size(), k); for (auto &x : d) { CHECK(names.erase(x.name), "printed: %s", show(x.name).c_str()); std::vector<char> nb(x.name.begin(), x.name.end()); nb.push_back(0); zt_mem_pool *p = zt_mem_pool_get(nb.data()); CHECK(p == x.self); size_t used = 0; if (x.pl) { for (long f : x.pfree) used += (size_t)(x.v["elements per page"] - f); shown(x, p, x.name, used, {}, flags); } }
    for (void *q : gl) { CHECK(q != NULL); zt_mem_pool_group_release(&q); } CHECK(zt_mem_pool_group_destroy(gr) == 0); CHECK(printed([&] { zt_mem_pools_display(0, 0); }).find("pool:") == std::string::npos, "a destroyed pool is printed");
}
P(M01, names, 10000, 300000, 50, "histories creating and destroying up to 8 pools (alone or in a group) with names that are prefixes, extensions and changes of case of each other: a name finds a live pool of exactly that name and none when there is none; non-trivial = a live name is a prefix of another one") {
    static const char *base[] = { "", "a", "ab", "abc", "AB", "abd", "ab c", "abc.pool", "b", "*unknown", "ab\xff" }; struct N { zt_mem_pool *p; std::string n; }; std::vector<N> v; int ops = 1 + (int)g.u(30);
    auto look = [&](const std::string &n) { std::vector<char> c(n.begin(), n.end()); c.push_back(0); zt_mem_pool *r = zt_mem_pool_get(c.data()); bool any = false, ok = false; for (auto &x : v) if (x.n == n) { any = true; if (x.p == r) ok = true; } CHECK(any ? ok : r == NULL, "looking up %s found %s", show(n).c_str(), r ? "another pool" : "none"); };
    while (ops--) {
        if (v.size() < 8 && (v.empty() || g.chance(3, 5))) { std::string n = g.chance(1, 4) ? g.cstr(6) : std::string(base[g.u(10)]); CStr c(n); zt_mem_pool *p = zt_mem_pool_init(c.p, (ssize_t)g.u(3), 1 + g.u(300), NULL, NULL, 0); CHECK(p != NULL); memset(c.p, '!', n.size()); v.push_back({p, n}); g.note("new %s ", show(n).c_str()); }
        else { size_t k = g.u(v.size() - 1); g.note("destroy %s ", show(v[k].n).c_str()); CHECK(zt_mem_pool_destroy(&v[k].p) == 0); v.erase(v.begin() + (long)k); }
        for (auto &x : v) { look(x.n); for (auto &y : v) if (x.n.size() < y.n.size() && !y.n.compare(0, x.n.size(), x.n)) g.nontrivial(); } look(base[g.u(10)]); CHECK(zt_mem_pool_get(NULL) == NULL);
    }
    for (auto &x : v) CHECK(zt_mem_pool_destroy(&x.p) == 0);
}
P(M01, heap, 5000, 100000, 50, "named heaps of any size are usable to the last byte and keep their name; all cases non-trivial") {
    size_t n = g.len(5000); std::string nm = g.cstr(30); CStr c(nm); zt_mem_heap *h = zt_mem_heap_init(c.p, n); CHECK(h != NULL); memset(zt_mem_heap_get_data(h), 0x5a, n); memset(c.p, '!', nm.size()); CHECK(nm == zt_mem_heap_get_name(h), "heap name"); zt_mem_heap_destroy(&h); CHECK(h == NULL); g.note("%zu bytes", n); g.nontrivial();
}

// ---------------------------------------------------------------- hierarchical pools
struct Ez { zt_ez_mempool *p; int parent; bool dead; std::vector<void *> cb, plain; };
struct EOp { int k, who; size_t n; std::string s; };
P(M02, ez, 30000, 1500000, 50, "histories building trees of pools with zeroed allocations (empty ones too), strings and adopted buffers (missing and empty ones are refused) and destroying pools at any place in the tree: exactly the memory of the destroyed subtree is given back, callbacks run once each, everything else stays intact, nothing is left at the end; non-trivial = a pool with siblings was destroyed before its parent") {
    std::vector<EOp> ops; int n = 1 + (int)g.u(50); for (int i = 0; i < n; i++) { EOp o; o.k = (int)g.u(9); o.who = (int)g.u(1000); o.n = g.u(60); o.s = o.k == 5 ? g.str("abc", 8) : ""; ops.push_back(o); g.note("%d/%d ", o.k, o.who); }
    zt_ez_mempool_destroy(zt_ez_mempool_init(NULL)); size_t h0 = heap(); bool nt = false; {
    std::vector<Ez> ps; std::vector<Live> live; std::vector<int> owner; std::map<void *, int> inlist; ps.reserve(64); freed.clear(); freed.reserve(256);
    auto dead = [&](int i) { while (i >= 0) { if (ps[i].dead) return true; i = ps[i].parent; } return false; };
    auto under = [&](int i, int top) { while (i >= 0) { if (i == top) return true; i = ps[i].parent; } return false; };
    auto destroy = [&](int w) { std::vector<void *> want; for (size_t i = 0; i < ps.size(); i++) if (under((int)i, w) && !dead((int)i)) want.insert(want.end(), ps[i].cb.begin(), ps[i].cb.end()); for (size_t i = 0; i < live.size(); i++) if (under(owner[i], w)) { intact(live[i], "before destroy"); live[i].n = 0; }
        freed.clear(); if (ps[w].parent >= 0) { int sib = 0; for (size_t i = 0; i < ps.size(); i++) if ((int)i != w && ps[i].parent == ps[w].parent && !dead((int)i)) sib++; if (sib) nt = true; } zt_ez_mempool_destroy(ps[w].p); ps[w].dead = true; auto a = freed; std::sort(a.begin(), a.end()); std::sort(want.begin(), want.end()); CHECK(a == want, "destroying pool %d ran %zu callbacks, %zu expected", w, a.size(), want.size()); for (void *q : a) free(q); };
    ps.push_back({zt_ez_mempool_init(NULL), -1, false, {}, {}}); unsigned char pat = 1;
    for (auto &o : ops) { std::vector<int> al; for (size_t i = 0; i < ps.size(); i++) if (!dead((int)i)) al.push_back((int)i); if (al.empty()) { ps.push_back({zt_ez_mempool_init(NULL), -1, false, {}, {}}); al.push_back((int)ps.size() - 1); } int w = al[o.who % al.size()];
        if (o.k < 3) { zt_ez_mempool *c = zt_ez_mempool_init(ps[w].p); CHECK(c != NULL); ps.push_back({c, w, false, {}, {}}); }
        else if (o.k < 5) { bool cb = o.n & 1; Live l; l.n = o.who % 9 == 4 ? 0 : o.n + 1; l.v = pat++; l.p = (unsigned char *)zt_ez_mempool_alloc(ps[w].p, l.n, cb ? freecb : NULL); CHECK(l.p != NULL); for (size_t i = 0; i < l.n; i++) CHECK(l.p[i] == 0, "allocation not zeroed"); CHECK(l.n < 8 || !((uintptr_t)l.p & 7), "an allocation of %zu bytes is not aligned", l.n); fill(l); live.push_back(l); owner.push_back(w); if (cb) ps[w].cb.push_back(l.p); }
        else if (o.k == 5) { CStr c(o.s); char *r = zt_ez_mempool_strdup(ps[w].p, c.p); CHECK(r && o.s == r && r != c.p); }
        else if (o.k == 6) { void *b = malloc(o.n + 1); Live l{(unsigned char *)b, o.n + 1, pat++}; fill(l); bool cb = o.who & 64; CHECK(zt_ez_mempool_add_buffer(ps[w].p, b, l.n, cb ? freecb : NULL) == 0); live.push_back(l); owner.push_back(w); if (cb) ps[w].cb.push_back(b); CHECK(zt_ez_mempool_add_buffer(ps[w].p, NULL, 4, NULL) == -1); void *e = malloc(8); CHECK(zt_ez_mempool_add_buffer(ps[w].p, e, 0, cb ? freecb : NULL) == -1, "an empty buffer was adopted"); CHECK(zt_ez_mempool_add_buffer(ps[w].p, NULL, 0, NULL) == -1); free(e); }
        else if (o.k < 9 && ps.size() > 1) destroy(w);
        for (size_t i = 0; i < live.size(); i++) intact(live[i], "other pools");
    }
    for (size_t i = 0; i < ps.size(); i++) if (ps[i].parent < 0 && !ps[i].dead) destroy((int)i); { std::vector<void *> e; freed.swap(e); } }
    if (nt) g.nontrivial(); NOLEAK(h0, "pools");
}

// objects of pools that own other pools: released with their pool, they destroy what they own
struct Holder { int pool, own; bool late; }; struct HPool { zt_ez_mempool *p; int parent; bool dead; }; static std::vector<HPool> *hp; static int hrun, hlate, hlatewant;
static void hdead(void *d) { (*hp)[*(int *)d].dead = true; free(d); }
static void hnote(void *d) { hlate++; free(d); }
static void hfree(void *d) { Holder h = *(Holder *)d; hrun++; free(d); if (h.own >= 0 && !(*hp)[h.own].dead) zt_ez_mempool_destroy((*hp)[h.own].p); if (h.late) { CHECK(zt_ez_mempool_alloc((*hp)[h.pool].p, 24, hnote) != NULL); hlatewant++; } }
P(M02, owners, 20000, 600000, 50, "trees of 2..12 pools in which adopted objects own pools that are below theirs or elsewhere in the tree and destroy them when they are released themselves, and may allocate from their own pool once more; every object is released exactly once and nothing is left; non-trivial = 4 or more owned pools") {
    struct O { int a, b, c; }; std::vector<O> os; int n = 2 + (int)g.u(10), m = 1 + (int)g.u(11); for (int i = 1; i < n; i++) os.push_back({(int)g.u(i - 1), 0, 0}); for (int i = 0; i < m; i++) { int b = (int)g.u(n - 1), a = b ? (int)g.u(b - 1) : 0; os.push_back({a, b, (int)g.u(5)}); } int early = (int)g.u(n - 1), owned = 0;
    size_t h0 = heap(); { std::vector<HPool> ps; hp = &ps; hrun = hlate = hlatewant = 0; for (int i = 0; i < n; i++) { int par = i ? os[i - 1].a : -1; ps.push_back({zt_ez_mempool_init(i ? ps[par].p : NULL), par, false}); int *d = (int *)malloc(sizeof(int)); *d = i; CHECK(zt_ez_mempool_add_buffer(ps[i].p, d, sizeof(int), hdead) == 0); if (i) g.note("%d in %d ", i, par); }
    for (int i = 0; i < m; i++) { O &o = os[n - 1 + i]; Holder *h = (Holder *)malloc(sizeof(Holder)); h->pool = o.a; h->own = o.b > o.a ? o.b : -1; h->late = o.c == 0; owned += h->own >= 0; g.note("%d owns %d%s ", o.a, h->own, h->late ? " late" : ""); CHECK(zt_ez_mempool_add_buffer(ps[o.a].p, h, sizeof(Holder), hfree) == 0); }
    if (early) { g.note("first %d ", early); zt_ez_mempool_destroy(ps[early].p); CHECK(ps[early].dead); } zt_ez_mempool_destroy(ps[0].p); for (int i = 0; i < n; i++) CHECK(ps[i].dead, "pool %d was not destroyed", i); CHECK(hrun == m, "%d of %d objects were released", hrun, m); CHECK(hlate == hlatewant, "%d of %d allocations made during the release were released", hlate, hlatewant); }
    if (owned >= 4) g.nontrivial(); NOLEAK(h0, "pools that own pools");
}
