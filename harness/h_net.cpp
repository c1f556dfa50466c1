// byte streams and IPv4 network tables
#include "pbt.h"
#include "zthdr.h"
#include <sanitizer/allocator_interface.h>
static size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
#define NOLEAK(h0, what) do { size_t h1_ = heap(); CHECK(h1_ == (h0), "%s: %zd bytes of memory not given back", what, (ssize_t)(h1_ - (h0))); } while (0)

// ---------------------------------------------------------------- byte stream
struct SOp { int k, who; uint64_t v; std::string d; size_t n; int es; };
struct SM { zt_bstream_t s; std::string m; size_t pos; bool flip; };
static std::string rev(std::string s, bool f) { if (f) std::reverse(s.begin(), s.end()); return s; }
template <class T> static std::string raw(T v) { return std::string((char *)&v, sizeof v); }
static void put(SM &x, const std::string &b) { if (x.pos > x.m.size()) x.m.resize(x.pos, 0); if (x.m.size() < x.pos + b.size()) x.m.resize(x.pos + b.size()); x.m.replace(x.pos, b.size(), b); x.pos += b.size(); }
template <class T> static void rd(SM &x, void (*f)(zt_bstream_t, T *), const char *n) {
    if (x.pos + sizeof(T) > x.m.size()) return; Mem o(sizeof(T)); std::string w = rev(x.m.substr(x.pos, sizeof(T)), x.flip); f(x.s, (T *)o.p); CHECK(o.s() == w, "%s at %zu gave %s want %s", n, x.pos, hex(o.p, o.n).c_str(), hex(w.data(), w.size()).c_str()); x.pos += sizeof(T);
}
template <class T> static void wr(SM &x, void (*f)(zt_bstream_t, T), uint64_t v) { T t; memcpy(&t, &v, sizeof t); f(x.s, t); put(x, rev(raw(t), x.flip)); }
static void same(SM &x, const char *what) { // everything written, read back from the start
    size_t p = zt_bstream_rewind(x.s); CHECK(p == x.pos, "%s: position %zu want %zu", what, p, x.pos); CHECK(zt_bstream_rewind(x.s) == 0, "rewind did not rewind"); bool f = x.s->flipendian; x.s->flipendian = 0; Mem o(x.m.size()); zt_bstream_read(x.s, o.p, x.m.size(), 1, 0); CHECK(o.s() == x.m, "%s: stream holds %s want %s", what, hex(o.p, o.n).c_str(), hex(x.m.data(), x.m.size()).c_str());
    zt_bstream_rewind(x.s); for (size_t i = 0; i < p && i < x.m.size(); i++) { char c; zt_bstream_read_byte(x.s, &c); CHECK(c == x.m[i]); } x.s->flipendian = f; x.pos = std::min(p, x.m.size());
}
P(I01, model, 30000, 1500000, 100, "histories of 1..80 typed and raw writes and reads, rewinds, truncations, byte order changes, clones and replaced contents on up to four streams against a byte-array model, memory given back at the end; non-trivial = a write after a truncation or into a clone") {
    std::vector<SOp> ops; int n = 1 + (int)g.u(79); bool flip0 = g.chance(1, 2);
    for (int i = 0; i < n; i++) { SOp o; o.k = (int)g.u(25); o.who = (int)g.u(3); o.v = 0; o.n = 0; o.es = 1; if (o.k < 8) o.v = g.bits(64); if (o.k == 8) o.d = g.blob(g.chance(1, 6) ? g.u(3000) : g.u(20)); if (o.k == 9) { o.es = (int)g.pick({1, 2, 4, 8}); o.n = 1 + g.u(6); o.d = g.blob(o.n * (size_t)o.es); } if (o.k == 23) { o.d = g.blob(1 + g.u(30)); o.n = g.u(1); } if (o.k == 24) { o.d = g.blob(1 + g.u(30)); o.n = g.u(o.d.size()); }
        if (o.k == 18) o.n = g.u(20); g.note("%d:%d%s ", o.who, o.k, o.k < 8 ? fmt("=%llx", (unsigned long long)o.v).c_str() : o.d.size() ? fmt("(%zu)", o.d.size()).c_str() : ""); ops.push_back(o); }
    size_t h0 = heap(); bool nt = false; { std::vector<SM> v; SM f{zt_bstream_new(), "", 0, flip0}; f.s->flipendian = flip0; CHECK(zt_bstream_is_empty(f.s)); v.push_back(f); v.reserve(8); std::vector<char> touched(8, 0);
    for (auto &o : ops) { int w = o.who % (int)v.size(); SM &x = v[w]; 
        switch (o.k) {
        case 0: wr<char>(x, zt_bstream_write_byte, o.v); break;
        case 1: wr<uint8_t>(x, zt_bstream_write_uint8, o.v); break;
        case 2: wr<uint16_t>(x, zt_bstream_write_uint16, o.v); break;
        case 3: case 4: wr<uint32_t>(x, zt_bstream_write_uint32, o.v); break;
        case 5: wr<uint64_t>(x, zt_bstream_write_uint64, o.v); break;
        case 6: { float q; uint32_t t = (uint32_t)o.v; memcpy(&q, &t, 4); if (q != q) break; wr<float>(x, zt_bstream_write_float, o.v); break; }
        case 7: { double q; memcpy(&q, &o.v, 8); if (q != q) break; wr<double>(x, zt_bstream_write_double, o.v); break; }
        case 8: { Mem d(o.d.data(), o.d.size()); bool fl = x.flip; x.s->flipendian = 0; zt_bstream_write(x.s, d.p, d.n, 1, 0); CHECK(d.s() == o.d); x.s->flipendian = fl; put(x, o.d); break; }
        case 9: { // several elements: what was written is read back the same way
            Mem d(o.d.data(), o.d.size()), r(o.d.size()); size_t at = x.pos; zt_bstream_write(x.s, d.p, o.n, (char)o.es, 0); CHECK(d.s() == o.d, "write changed its data"); std::string stored = o.n == 1 || !x.flip ? rev(o.d, x.flip) : o.d; SM y = x; y.s = zt_bstream_clone(x.s);
            zt_bstream_rewind(y.s); for (size_t i = 0; i < at; i++) { uint8_t c; zt_bstream_read_uint8(y.s, &c); } CHECK(y.s->flipendian == x.s->flipendian, "clone has another byte order"); zt_bstream_read(y.s, r.p, o.n, (char)o.es, 0); CHECK(r.s() == o.d, "%zu elements of %d bytes written and read back differ: %s want %s", o.n, o.es, hex(r.p, r.n).c_str(), hex(d.p, d.n).c_str());
            if (o.n > 1 && x.flip) { zt_bstream_rewind(y.s); stored.clear(); for (size_t i = 0; i < at + o.d.size(); i++) { uint8_t c; zt_bstream_read_uint8(y.s, &c); if (i >= at) stored += (char)c; } } zt_bstream_free(&y.s); put(x, stored); break; }
        case 10: rd<char>(x, zt_bstream_read_byte, "read_byte"); break;
        case 11: rd<uint8_t>(x, zt_bstream_read_uint8, "read_uint8"); break;
        case 12: rd<uint16_t>(x, zt_bstream_read_uint16, "read_uint16"); break;
        case 13: rd<uint32_t>(x, zt_bstream_read_uint32, "read_uint32"); break;
        case 14: rd<uint64_t>(x, zt_bstream_read_uint64, "read_uint64"); break;
        case 15: rd<float>(x, zt_bstream_read_float, "read_float"); break;
        case 16: rd<double>(x, zt_bstream_read_double, "read_double"); break;
        case 17: case 25: { size_t p = zt_bstream_rewind(x.s); CHECK(p == x.pos, "rewind returned %zu want %zu", p, x.pos); x.pos = 0; break; }
        case 18: { size_t k = std::min(o.n, x.m.size() - std::min(x.pos, x.m.size())); if (x.flip || !k) break; Mem r(k); zt_bstream_read(x.s, r.p, k, 1, 0); CHECK(r.s() == x.m.substr(x.pos, k), "raw read"); x.pos += k; break; }
        case 19: case 20: { zt_bstream_truncate(x.s); CHECK(zt_bstream_is_empty(x.s), "truncated stream not empty"); x.m.clear(); touched[w] = 1; if (o.k == 19) { zt_bstream_rewind(x.s); x.pos = 0; } break; }
        case 21: x.flip = !x.flip; x.s->flipendian = x.flip; break;
        case 22: if (v.size() < 4) { SM c = x; c.s = zt_bstream_clone(x.s); CHECK(c.s != x.s); touched[v.size()] = 1; v.push_back(c); } else same(x, "later"); break;
        case 23: { char *p = (char *)malloc(o.d.size()); memcpy(p, o.d.data(), o.d.size()); zt_bstream_set_data(x.s, p, (int)o.d.size(), (char)o.n); if (o.n) { memset(p, '!', o.d.size()); free(p); } zt_bstream_rewind(x.s); x.pos = 0; x.m = o.d; break; }
        case 24: { Mem d(o.d.data(), o.d.size()); zt_bstream_set_array(x.s, zt_array_with(d.p, d.n, 1, 1), o.n); x.m = o.d; x.pos = o.n; break; }
        }
        if (o.k < 10 && touched[w] && (o.k < 6 || o.d.size())) nt = true;
        if (o.k < 10) CHECK(!zt_bstream_is_empty(v[w].s) || v[w].m.empty(), "stream with data is empty");
        if (v[w].pos > v[w].m.size() && o.k != 20) v[w].m.resize(v[w].m.size());
    }
    for (auto &x : v) { if (x.pos <= x.m.size()) same(x, "end"); zt_bstream_free(&x.s); CHECK(x.s == NULL); } }
    if (nt) g.nontrivial(); NOLEAK(h0, "streams");
}

P_(I01, large, 120, 3000, 10, 120, 0, 300, "streams of 40000..300000 bytes: raw blocks and typed values written, read back typed and raw from the start and in a clone taken anywhere; non-trivial = more than 64 KiB in the stream") {
    zt_bstream_t s = zt_bstream_new(), c = NULL; std::string m; bool fl = g.coin(); s->flipendian = fl; struct It { int k; uint64_t v; std::string d; }; std::vector<It> its; int n = 1 + (int)g.u(5); size_t cat = g.u((size_t)n - 1);
    for (int i = 0; i < n; i++) { It b{9, 0, g.blob(i ? g.big(70000) : 40000 + g.big(200000))}; its.push_back(b); for (int k = (int)g.u(4); k--;) its.push_back({(int)g.u(3), g.bits(64), ""}); }
    auto wr1 = [&](const It &o) { if (o.k == 9) { s->flipendian = 0; Mem d(o.d.data(), o.d.size()); zt_bstream_write(s, d.p, d.n, 1, 0); s->flipendian = fl; m += o.d; return; } size_t w = (size_t)1 << o.k; if (o.k == 0) zt_bstream_write_uint8(s, (uint8_t)o.v); else if (o.k == 1) zt_bstream_write_uint16(s, (uint16_t)o.v); else if (o.k == 2) zt_bstream_write_uint32(s, (uint32_t)o.v); else zt_bstream_write_uint64(s, o.v); m += rev(std::string((const char *)&o.v, w), fl); };
    for (auto &o : its) wr1(o); g.note("%zu items, %zu bytes", its.size(), m.size()); if (m.size() > 65536) g.nontrivial(); CHECK(zt_bstream_rewind(s) == m.size(), "%zu bytes written, position differs", m.size());
    auto back = [&](zt_bstream_t x, size_t from, const char *what) { for (size_t i = from; i < its.size(); i++) { auto &o = its[i]; if (o.k == 9) { x->flipendian = 0; Mem r(o.d.size()); zt_bstream_read(x, r.p, r.n, 1, 0); x->flipendian = fl; CHECK(r.s() == o.d, "%s: block %zu of %zu bytes differs", what, i, o.d.size()); } else { uint64_t v = 0; if (o.k == 0) zt_bstream_read_uint8(x, (uint8_t *)&v); else if (o.k == 1) zt_bstream_read_uint16(x, (uint16_t *)&v); else if (o.k == 2) zt_bstream_read_uint32(x, (uint32_t *)&v); else zt_bstream_read_uint64(x, &v); uint64_t w = o.k == 3 ? o.v : o.v & ((1ull << (8 << o.k)) - 1); CHECK(v == w, "%s: item %zu is %llx want %llx", what, i, (unsigned long long)v, (unsigned long long)w); } } };
    back(s, 0, "stream"); zt_bstream_rewind(s); for (size_t i = 0; i < its.size(); i++) { if (i == std::min(cat, its.size() - 1)) { c = zt_bstream_clone(s); back(c, i, "clone"); } auto &o = its[i]; if (o.k == 9) { s->flipendian = 0; Mem r(o.d.size()); zt_bstream_read(s, r.p, r.n, 1, 0); s->flipendian = fl; } else { size_t w = (size_t)1 << o.k; for (size_t k = 0; k < w; k++) { uint8_t b; zt_bstream_read_uint8(s, &b); } } }
    std::string d = g.blob(200 + g.big(100000)); size_t at = g.u(d.size() - 1); Mem x(d.data(), d.size()), r(d.size()); s->flipendian = 0; zt_bstream_set_data(s, x.p, (int)x.n, 1); zt_bstream_rewind(s); zt_bstream_read(s, r.p, r.n, 1, 0); CHECK(r.s() == d, "%zu bytes of replaced content differ", d.size()); zt_bstream_set_array(s, zt_array_with(x.p, x.n, 1, 1), at); Mem q(d.size() - at); zt_bstream_read(s, q.p, q.n, 1, 0); CHECK(q.s() == d.substr(at), "content set at position %zu of %zu differs", at, d.size());
    if (c) zt_bstream_free(&c); zt_bstream_free(&s);
}

P(I01, seams, 6000, 300000, 100, "a value or block written so that it ends at, 1..8 bytes before or 1..8 bytes after the end of a stream of 1..20000 bytes, then more behind it; non-trivial = it ends past the end of more than 4096 bytes") {
    std::string d = g.blob(1 + (g.coin() ? g.big(20000) : g.u(64))); std::vector<std::string> ws; int n = 1 + (int)g.u(3); for (int i = 0; i < n; i++) ws.push_back(g.blob(1 + (g.chance(1, 4) ? g.big(6000) : g.u(12)))); long end = (long)d.size() + (long)g.range(-8, 8), at = end - (long)ws[0].size(); if (at < 0) at = 0; if (at > (long)d.size()) at = (long)d.size(); g.note("%zu bytes, %zu written at %ld", d.size(), ws[0].size(), at); if ((size_t)at + ws[0].size() > d.size() && d.size() > 4096) g.nontrivial();
    zt_bstream_t s = zt_bstream_new(); Mem x(d.data(), d.size()); zt_bstream_set_array(s, zt_array_with(x.p, x.n, 1, 1), (size_t)at); std::string m = d; size_t pos = (size_t)at; for (auto &w : ws) { Mem b(w.data(), w.size()); zt_bstream_write(s, b.p, b.n, 1, 0); if (m.size() < pos + w.size()) m.resize(pos + w.size()); m.replace(pos, w.size(), w); pos += w.size(); }
    zt_bstream_t c = zt_bstream_clone(s); CHECK(zt_bstream_rewind(s) == pos); zt_bstream_rewind(c); Mem r(m.size()), q(m.size()); zt_bstream_read(s, r.p, r.n, 1, 0); CHECK(r.s() == m, "the stream holds other bytes"); zt_bstream_read(c, q.p, q.n, 1, 0); CHECK(q.s() == m, "the clone holds other bytes"); zt_bstream_free(&s); zt_bstream_free(&c);
}

// ---------------------------------------------------------------- IPv4 networks
struct Net { uint32_t a; int len; };
static uint32_t mask(int l) { return l ? 0xffffffffu << (32 - l) : 0; }
static bool within(Net n, Net in) { return in.len <= n.len && (n.a & mask(in.len)) == (in.a & mask(in.len)); }
static std::string ntext(Gen &g, Net n, bool canon) { uint32_t a = canon ? n.a & mask(n.len) : n.a; std::string s = fmt("%u.%u.%u.%u", a >> 24, a >> 16 & 255, a >> 8 & 255, a & 255); if (n.len < 32 || g.coin()) s += fmt("/%d", n.len); return s; }
static Net rnet(Gen &g, const std::vector<Net> &near) {
    Net n; if (near.size() && g.chance(2, 3)) { n = near[g.u(near.size() - 1)]; int k = (int)g.u(32); n.a ^= k == 32 ? 0 : 1u << k; if (g.coin()) n.a ^= (uint32_t)g.bits(32) & ~mask(n.len); n.len = g.chance(1, 2) ? 32 : g.coin() ? n.len : 1 + (int)g.u(31); return n; }
    n.a = (uint32_t)g.bits(32); if (g.coin()) n.a = 0x0a000000 | (n.a & 0xffff); n.len = g.chance(1, 3) ? (int)g.pick({8, 16, 24, 32}) : 1 + (int)g.u(31); return n;
}
struct VOp { int k, t; Net n; std::string s; uint32_t sz; };
struct VT { zt_ipv4_tbl *t; std::vector<Net> nets; bool any; };
P(V01, search, 20000, 1000000, 50, "histories building up to three tables of different sizes at once with up to 80 networks (all 32 prefix lengths in some cases) by text or by node, searching addresses and networks near the stored ones by text or by node, and destroying tables in any order, against a list of networks; memory given back at the end; non-trivial = an answer found in one table but not in another, or a search that finds nothing among 4 or more networks") {
    std::vector<VOp> ops; std::vector<Net> near; int n = 1 + (int)g.u(79); bool all32 = g.chance(1, 6); bool usenode = g.coin(); int tables = usenode ? 1 : 1 + (int)g.u(2); std::vector<uint32_t> szs; for (int i = 0; i < tables; i++) { szs.push_back(g.chance(1, 3) ? (uint32_t)g.pick({0, 1, 2, 3, 4}) : (uint32_t)g.u(1500)); g.note("size %u ", szs.back()); }
    std::vector<int> order; for (int i = 0; i < 3; i++) order.push_back((int)g.u(2));
    if (all32) for (int l = 1; l <= 32; l++) { VOp o; o.k = 0; o.t = 0; o.n = rnet(g, near); o.n.len = l; o.s = ntext(g, o.n, false); near.push_back(o.n); ops.push_back(o); }
    for (int i = 0; i < n; i++) { VOp o; o.t = (int)g.u(2); o.k = g.coin() ? 0 : 1; if (g.chance(1, 80)) o.k = 2; if (g.chance(1, 60)) o.k = 3; o.n = rnet(g, near); if (o.k == 0) near.push_back(o.n); if (o.k == 2) o.n.len = 0; o.s = ntext(g, o.n, g.coin()); if (usenode && g.coin()) o.k += 10; g.note("%d:%s(%s) ", o.t, o.k % 10 == 1 ? "search" : o.k % 10 == 3 ? "new table" : "add", o.s.c_str()); ops.push_back(o); }
    { zt_ipv4_tbl *w = zt_ipv4_tbl_init(1); zt_ipv4_tbl_destroy(w); } size_t h0 = heap(); bool nt = false; { std::vector<VT> ts; for (auto s : szs) { VT t; t.t = zt_ipv4_tbl_init(s); t.any = false; CHECK(t.t != NULL); ts.push_back(t); }
    for (auto &o : ops) { VT &t = ts[o.t % ts.size()]; bool node = o.k >= 10; CStr cs(o.s);
        if (o.k % 10 == 3) { zt_ipv4_tbl_destroy(t.t); t.t = zt_ipv4_tbl_init(szs[0] * 2 + 7); t.nets.clear(); t.any = false; CHECK(t.t != NULL); }
        else if (o.k % 10 != 1) { zt_ipv4_node *r; if (node) { r = zt_ipv4_node_str_init(cs.p); CHECK(r != NULL); CHECK(zt_ipv4_tbl_add_node(t.t, r) == 0); } else r = zt_ipv4_tbl_add_frm_str(t.t, cs.p); CHECK(r != NULL, "adding %s failed", o.s.c_str());
            if (!t.any || node) { CHECK(r->addr->bitlen == o.n.len && r->addr->mask == mask(o.n.len) && r->addr->addr == (o.n.a & mask(o.n.len)) && r->addr->broadcast == (o.n.a | ~mask(o.n.len)), "%s stored as %x/%d mask %x broadcast %x", o.s.c_str(), r->addr->addr, r->addr->bitlen, r->addr->mask, r->addr->broadcast); t.nets.push_back(o.n); } else CHECK(r->addr->bitlen == 0);
            if (o.n.len == 0) t.any = true; }
        else { zt_ipv4_node *r; if (node) { zt_ipv4_node *q = zt_ipv4_node_str_init(cs.p); CHECK(q != NULL); r = zt_ipv4_tbl_search_node(t.t, q); for (auto &m : t.nets) { zt_ipv4_addr a; a.addr = m.a & mask(m.len); a.mask = mask(m.len); a.bitlen = (uint8_t)m.len; a.broadcast = a.addr | ~a.mask; CHECK(ipv4_tbl_addr_cmp(&a, q->addr) == (within(o.n, m) ? 1 : 0), "compare"); } zt_mem_pool_release((void **)&q->addr); zt_mem_pool_release((void **)&q); } else r = zt_ipv4_tbl_search_from_str(t.t, cs.p);
            bool want = false; for (auto &m : t.nets) if (within(o.n, m)) want = true; CHECK((r != NULL) == want, "search of %s among %zu networks %s", o.s.c_str(), t.nets.size(), r ? "found what is not there" : "found nothing");
            if (r) { bool ok = false; for (auto &m : t.nets) if (within(o.n, m) && m.len == r->addr->bitlen && (m.a & mask(m.len)) == r->addr->addr) ok = true; CHECK(ok, "search of %s gave %x/%d", o.s.c_str(), r->addr->addr, r->addr->bitlen); for (auto &u : ts) { bool w2 = false; for (auto &m : u.nets) if (within(o.n, m)) w2 = true; if (!w2) nt = true; } } else if (t.nets.size() >= 4) nt = true; }
    }
    for (int d : order) { if (ts.empty()) break; size_t i = (size_t)d % ts.size(); zt_ipv4_tbl_destroy(ts[i].t); ts.erase(ts.begin() + (long)i); for (auto &u : ts) for (auto &m : u.nets) { std::string s = fmt("%u.%u.%u.%u/%d", m.a >> 24, m.a >> 16 & 255, m.a >> 8 & 255, m.a & 255, m.len); CHECK(zt_ipv4_tbl_search_from_str(u.t, s.c_str()), "%s lost when another table was destroyed", s.c_str()); } }
    for (auto &u : ts) zt_ipv4_tbl_destroy(u.t); zt_ipv4_tbl_destroy(NULL); }
    if (nt) g.nontrivial(); NOLEAK(h0, "tables");
}
P(V02, wellformed, 60000, 3000000, 200, "dotted addresses with every prefix length (larger ones too) parse to their value, convert to a number and back to text; non-trivial = a prefix was given") {
    uint32_t a = (uint32_t)g.bits(32); int form = (int)g.u(3); std::string ip = fmt("%u.%u.%u.%u", a >> 24, a >> 16 & 255, a >> 8 & 255, a & 255), s = ip; int len = 32; if (form) { g.nontrivial(); len = g.chance(1, 8) ? (int)g.pick({33, 40, 64, 255, 256, 1000000}) : (int)g.u(32); s += fmt("/%d", len); if (len > 32) len = 32; } g.note("%s", s.c_str());
    CStr c(s), ci(ip); uint32_t o = 0xdead; int b = -5; CHECK(zt_ipv4_str2net(c.p, &o, &b) == 0, "refused"); CHECK(o == a, "address %x want %x", o, a); CHECK(b == len, "prefix %d want %d", b, len); CHECK(s == c.p, "input modified"); CHECK(zt_ipv4_ip2int(ci.p) == a); char *t = zt_ipv4_int2ip(a); CHECK(t && ip == t, "text %s", t); free(t);
    zt_ipv4_tbl *tb = zt_ipv4_tbl_init(1); zt_ipv4_addr *x = zt_ipv4_addr_frm_str(c.p); CHECK(x != NULL, "no address from %s", s.c_str()); uint32_t m = mask(len); CHECK(x->bitlen == len && x->mask == m && x->addr == (a & m) && x->broadcast == (a | ~m), "network %x mask %x /%d broadcast %x", x->addr, x->mask, (int)x->bitlen, x->broadcast); zt_mem_pool_release((void **)&x); CHECK(zt_ipv4_addr_frm_str(NULL) == NULL); zt_ipv4_tbl_destroy(tb);
}
P(V02, malformed, 60000, 3000000, 200, "texts that are no network (too many or too large parts, letters, empty, missing, negative or non-numeric prefix, over-long) are refused everywhere and what is accepted obeys a reference parse, without reading past the text; non-trivial = the reference refuses it") {
    std::string s; int how = (int)g.u(7); auto dig = [&]() { return std::to_string(g.chance(1, 4) ? g.u(400) : g.u(255)); };
    if (how == 0) s = g.cstr(40); else if (how == 1) s = g.str("0123456789./", 30); else { int parts = g.chance(1, 3) ? 1 + (int)g.u(6) : 4; for (int i = 0; i < parts; i++) { if (i) s += "."; s += g.chance(1, 12) ? g.str("abx -", 3) : dig(); } if (g.coin()) { s += "/"; s += g.chance(1, 3) ? g.str("abc-/. 1", 3) : g.coin() ? std::to_string(g.range(-5, 40)) : std::to_string(g.bits(64)); } if (how == 7) s += g.str("xyz/.9", 20); }
    g.note("%s", show(s).c_str()); CStr c(s); size_t sl = s.find('/'); std::string ip = s.substr(0, sl); bool maybe = false, must = false; // four plain decimal parts are accepted; anything with a part the C library refuses is not
    struct in_addr ia; bool lib = inet_aton(ip.c_str(), &ia) && ip.size() < 16; bool plen = true; long pl = 32; if (sl != std::string::npos) { std::string t = s.substr(sl + 1); plen = !t.empty(); for (size_t i = 0; i < t.size(); i++) if (!isdigit((unsigned char)t[i])) plen = false; bool digitless = true; for (char ch : t) if (isdigit((unsigned char)ch)) digitless = false; bool junk = false; for (char ch : t) if (!isdigit((unsigned char)ch) && !isspace((unsigned char)ch) && ch != '+') junk = true; if (!plen && !digitless && !junk) maybe = true; if (t[0] == '0') maybe |= false; if (plen) { pl = t.size() > 6 ? 32 : atol(t.c_str()); if (pl > 32) pl = 32; } }
    must = lib && plen; bool bad = !lib || (!plen && !maybe); if (bad) g.nontrivial(); uint32_t o = 7; int b = 7; int r = zt_ipv4_str2net(c.p, &o, &b); if (bad) { CHECK(r == -1, "accepted as %x/%d", o, b); } else if (must) { CHECK(r == 0, "refused"); CHECK(o == ntohl(ia.s_addr) && b == (int)pl, "parsed as %x/%d", o, b); } else if (r == 0) CHECK(b >= 0 && b <= 32);
    zt_ipv4_tbl *t = zt_ipv4_tbl_init(16); CHECK(t != NULL); if (g.chance(1, 4)) { zt_ipv4_tbl *all = zt_ipv4_tbl_init(g.u(3)); zt_ipv4_node *any = zt_ipv4_tbl_add_frm_str(all, "0.0.0.0/0"); CHECK(any != NULL); CHECK(zt_ipv4_tbl_add_frm_str(all, c.p) == (r == 0 ? any : NULL), "a table of every address disagrees with the parser"); CHECK(zt_ipv4_tbl_search_from_str(all, c.p) == (r == 0 ? any : NULL), "a search among every address disagrees with the parser"); zt_ipv4_tbl_destroy(all); } zt_ipv4_node *nd = zt_ipv4_tbl_add_frm_str(t, c.p); CHECK((nd == NULL) == (r != 0), "a table disagrees with the parser"); if (bad) { CHECK(zt_ipv4_tbl_search_from_str(t, "255.255.255.255") == NULL, "malformed text became a network"); CHECK(zt_ipv4_node_str_init(c.p) == NULL); CHECK(zt_ipv4_addr_frm_str(c.p) == NULL); CHECK(zt_ipv4_tbl_search_from_str(t, c.p) == NULL); } zt_ipv4_tbl_destroy(t);
    CHECK(zt_ipv4_str2net(NULL, &o, &b) == -1); CHECK(zt_ipv4_str2net(c.p, NULL, &b) == -1);
}
