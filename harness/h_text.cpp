#include "pbt.h"
#include "ref.h"
#include "zthdr.h"
#include <algorithm>
#include <climits>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>

// ------------------------------------------------------------ slices
// s[i:j], inclusive; negative counts from the end, too large means the last character, order irrelevant
static ssize_t gidx(Gen &g, size_t n) {
    switch (g.u(5)) { case 0: return -(ssize_t)g.range(1, n); case 1: return (ssize_t)n - 1 + (ssize_t)g.u(4); case 2: return g.pick({(ssize_t)0, (ssize_t)-1, (ssize_t)INT_MAX, (ssize_t)1 << 40}); default: return (ssize_t)g.u(n - 1); }
}
static int gidx32(Gen &g, size_t n) { ssize_t i = gidx(g, n); return i > INT_MAX ? INT_MAX : (int)i; }
static size_t pos1(ssize_t i, size_t n) { if (i < 0) i += (ssize_t)n; if (i >= (ssize_t)n) i = (ssize_t)n - 1; return (size_t)i; }
struct Sl { size_t a, b; };
static Sl sl(ssize_t i, ssize_t j, size_t n) { size_t a = pos1(i, n), b = pos1(j, n); if (a > b) std::swap(a, b); return {a, b}; }
static std::string slice(const std::string &s, ssize_t i, ssize_t j) { Sl x = sl(i, j, s.size()); return s.substr(x.a, x.b - x.a + 1); }
static bool BIG; // in the *_large tests: the same laws over text of up to 200 000 characters
struct Large { Large() { BIG = true; } ~Large() { BIG = false; } };
static std::string grow(Gen &g, const std::string &s, size_t max = 200000) { // the text repeated to a length that needs more than 16 bits, with a few edits
    if (!BIG || s.empty()) return s; size_t n = g.big(max); std::string r; r.reserve(n + s.size()); while (r.size() < n) r += s; r.resize(n ? n : 1); for (int k = (int)g.u(6); k > 0; k--) r[g.u(r.size() - 1)] = (char)(1 + g.u(254)); return r;
}
static std::string gstr(Gen &g, size_t max = 40) { // non-empty
    std::string s; switch (g.u(3)) { case 0: s = g.str("ab", max); break; case 1: s = g.str("ab/. \n\t-", max); break; default: s = g.cstr(max); }
    if (s.empty()) s = "a"; return grow(g, s);
}
static std::string take(char *p) { if (!p) FAIL("returned NULL"); std::string r(p); free(p); return r; }
#define EQ(got, want) do { std::string g_ = (got), w_ = (want); CHECK(g_ == w_, "got %s want %s", show(g_).c_str(), show(w_).c_str()); } while (0)

P(S01, slices, 600000, 12000000, 500, "text of 1..40 characters (any byte), indices negative, inside, past the end and reversed: substring, repetition, concatenation of two and of several slices, reversal, mapping, length, position and bounded copy against a model of inclusive slices; non-trivial = the slice is a proper part of the text") {
    std::string s = gstr(g), t = gstr(g); ssize_t i = gidx(g, s.size()), j = gidx(g, s.size()), k = gidx(g, t.size()), l = gidx(g, t.size());
    CStr a(s), b(t); std::string w = slice(s, i, j), w2 = slice(t, k, l); unsigned op = (unsigned)g.u(9); Sl x = sl(i, j, s.size());
    if (w.size() < s.size()) g.nontrivial();
    g.note("op %u on %s[%zd:%zd] and %s[%zd:%zd]", op, show(s).c_str(), i, j, show(t).c_str(), k, l);
    static const char *N[] = {"sub", "dup", "cat", "catv", "reverse", "map", "pos", "len", "copy", "copycat"}; g.label(N[op]);
    switch (op) {
    case 0: EQ(take(zt_cstr_sub(a, i, j)), w); break;
    case 1: { size_t n = g.len(8); std::string r; for (size_t q = 0; q < n; q++) r += w; EQ(take(zt_cstr_dup(a, i, j, n)), r); CHECK(zt_cstr_dup(NULL, i, j, n) == NULL); break; }
    case 2: { bool e1 = g.chance(1, 8), e2 = g.chance(1, 8); CStr E(""); EQ(take(zt_cstr_cat(e1 ? E.p : a.p, i, j, e2 ? E.p : b.p, k, l)), (e1 ? "" : w) + (e2 ? "" : w2)); break; }
    case 3: {
        unsigned n = (unsigned)g.u(5); std::string ss[5], r; int ii[5], jj[5]; CStr *cs[5] = {};
        for (unsigned q = 0; q < n; q++) { if (!g.chance(1, 8)) ss[q] = gstr(g, 20); size_t m = ss[q].size(); ii[q] = m ? gidx32(g, m) : 0; jj[q] = m ? gidx32(g, m) : -1; if (m) r += slice(ss[q], ii[q], jj[q]); cs[q] = new CStr(ss[q]); g.note("+ %s[%d:%d]", show(ss[q]).c_str(), ii[q], jj[q]); }
        char *o = 0; char *N_ = NULL;
        switch (n) {
        case 0: o = zt_cstr_catv(N_); break;
        case 1: o = zt_cstr_catv(cs[0]->p, ii[0], jj[0], N_); break;
        case 2: o = zt_cstr_catv(cs[0]->p, ii[0], jj[0], cs[1]->p, ii[1], jj[1], N_); break;
        case 3: o = zt_cstr_catv(cs[0]->p, ii[0], jj[0], cs[1]->p, ii[1], jj[1], cs[2]->p, ii[2], jj[2], N_); break;
        case 4: o = zt_cstr_catv(cs[0]->p, ii[0], jj[0], cs[1]->p, ii[1], jj[1], cs[2]->p, ii[2], jj[2], cs[3]->p, ii[3], jj[3], N_); break;
        case 5: o = zt_cstr_catv(cs[0]->p, ii[0], jj[0], cs[1]->p, ii[1], jj[1], cs[2]->p, ii[2], jj[2], cs[3]->p, ii[3], jj[3], cs[4]->p, ii[4], jj[4], N_); break; }
        EQ(take(o), r); for (unsigned q = 0; q < n; q++) delete cs[q]; break; }
    case 4: { std::string r(w.rbegin(), w.rend()); EQ(take(zt_cstr_reverse(a, i, j)), r); break; }
    case 5: {
        std::string from = g.cstr(12), to = g.cstr(12); size_t n = std::min(from.size(), to.size()); from.resize(n); to.resize(n);
        if (g.coin()) for (auto &c : from) if (g.coin()) c = s[g.u(s.size() - 1)];
        unsigned char m[256]; for (int q = 0; q < 256; q++) m[q] = (unsigned char)q; for (size_t q = 0; q < n; q++) m[(unsigned char)from[q]] = (unsigned char)to[q];
        std::string r = w; for (auto &c : r) c = (char)m[(unsigned char)c]; g.note("map %s to %s", show(from).c_str(), show(to).c_str());
        CStr f(from), tt(to); EQ(take(zt_cstr_map(a, i, j, f, tt)), r); break; }
    case 6: CHECK(zt_cstr_pos(a, i) == pos1(i, s.size()), "position %zu want %zu", zt_cstr_pos(a, i), pos1(i, s.size())); break;
    case 7: CHECK(zt_cstr_len(a, i, j) == w.size(), "length %zu want %zu", zt_cstr_len(a, i, j), w.size()); CHECK(zt_cstr_len(CStr(""), 0, -1) == 0); break;
    case 8: { size_t room = g.u(w.size() + 4); Mem o(room + 3); size_t r = zt_cstr_copy(a, i, j, o.p, room), n = std::min(room, w.size()); CHECK(r == n, "copied %zu want %zu", r, n); EQ(std::string(o.p, n), w.substr(0, n)); for (size_t q = n; q < room + 3; q++) CHECK(o.p[q] == (char)0xA5, "byte %zu after %zu copied was written", q, n); break; }
    default: EQ(take(zt_cstr_cat(a, i, j, b, k, l)), w + w2);
    }
    EQ(std::string(a.p), s); EQ(std::string(b.p), t);
    (void)x;
}

P_(S01, slices_large, 400, 8000, 1, 300, 0, 100, "the slice laws over text of up to 200 000 characters, lengths around multiples of 65536 often; non-trivial as for slices") { Large l; fn_S01_slices(g); }
P(S01, empty, 4000, 100000, 100, "the empty text with arbitrary indices: substring, repetition, concatenation with a slice of another text on either side, reversal, character mapping and length; all cases non-trivial") {
    std::string t = gstr(g); CStr e(""), b(t); ssize_t i = gidx(g, 2), j = gidx(g, 2), k = gidx(g, t.size()), l = gidx(g, t.size()); unsigned op = (unsigned)g.u(6); g.nontrivial();
    static const char *N[] = {"sub", "dup", "cat before", "cat after", "reverse", "map", "len"}; g.label(N[op]); g.note("%s of the empty text [%zd:%zd]", N[op], i, j);
    std::string w = op == 2 || op == 3 ? slice(t, k, l) : "";
    char *r = op == 0 ? zt_cstr_sub(e, i, j) : op == 1 ? zt_cstr_dup(e, i, j, (ssize_t)g.u(5)) : op == 2 ? zt_cstr_cat(e, i, j, b, k, l) : op == 3 ? zt_cstr_cat(b, k, l, e, i, j) : op == 4 ? zt_cstr_reverse(e, i, j) : op == 5 ? zt_cstr_map(e, i, j, "ab", "xy") : nullptr;
    if (op == 6) { CHECK(zt_cstr_len(e, i, j) == 0); return; }
    EQ(std::string(r), w); free(r); EQ(std::string(e.p), std::string()); EQ(std::string(b.p), t);
}
static int sgn(int v) { return v < 0 ? -1 : v > 0; }
P(S02, search, 600000, 12000000, 500, "search and comparison within slices of text over small and full alphabets, against naive search; non-trivial = the text holds a match outside the slice, or a match inside it that is not the only one") {
    std::string s = gstr(g); CStr a(s); ssize_t i = gidx(g, s.size()), j = gidx(g, s.size()); Sl x = sl(i, j, s.size()); unsigned op = (unsigned)g.u(8);
    static const char *N[] = {"chr", "rchr", "upto", "rupto", "any", "rany", "find", "rfind", "cmp"}; g.label(N[op]);
    if (op < 2) {
        char c = g.coin() ? s[g.u(s.size() - 1)] : (char)(1 + g.u(254)); size_t w = 0; int cnt = 0, out = 0;
        for (size_t q = 0; q < s.size(); q++) if (s[q] == c) { if (q < x.a || q > x.b) out++; else { cnt++; if (op == 1 || cnt == 1) w = q; } }
        if (out || cnt > 1) g.nontrivial(); g.note("%s %s[%zd:%zd] for %s", N[op], show(s).c_str(), i, j, show(std::string(1, c)).c_str());
        int ci = g.coin() ? (int)c : (int)(unsigned char)c; size_t r = op == 0 ? zt_cstr_chr(a, i, j, ci) : zt_cstr_rchr(a, i, j, ci); CHECK(r == w, "got %zu want %zu", r, w);
    } else if (op < 6) {
        std::string set = g.coin() ? g.cstr(4) : g.str("ab/. ", 3); if (g.chance(1, 3)) set += s[g.u(s.size() - 1)]; ssize_t w = -1; int cnt = 0, out = 0;
        for (size_t q = 0; q < s.size(); q++) if (set.find(s[q]) != set.npos) { if (q < x.a || q > x.b) out++; else { cnt++; if ((op & 1) || cnt == 1) w = (ssize_t)q; } }
        if (out || cnt > 1) g.nontrivial(); g.note("%s %s[%zd:%zd] for one of %s", N[op], show(s).c_str(), i, j, show(set).c_str()); CStr t(set);
        ssize_t r = op == 2 ? zt_cstr_upto(a, i, j, t) : op == 3 ? zt_cstr_rupto(a, i, j, t) : op == 4 ? zt_cstr_any(a, i, j, t) : zt_cstr_rany(a, i, j, t); CHECK(r == w, "got %zd want %zd", r, w);
    } else if (op < 8) {
        std::string t = g.coin() ? s.substr(g.u(s.size() - 1), g.len(6)) : g.str("ab", 4); if (g.chance(1, 4)) { size_t at = g.coin() ? x.a : g.u(s.size() - 1), e = g.coin() ? x.b + 1 : at + 1 + g.u(s.size() - 1); if (at < s.size() && e > at) t = s.substr(at, e - at); } ssize_t w = -1; int cnt = 0, out = 0;
        if (!t.empty()) for (size_t q = 0; q + t.size() <= s.size(); q++) if (s.compare(q, t.size(), t) == 0) { if (q < x.a || q + t.size() > x.b + 1) out++; else { cnt++; if (op == 7 || cnt == 1) w = (ssize_t)q; } }
        if (out || cnt > 1) g.nontrivial(); g.note("%s %s[%zd:%zd] for %s", N[op], show(s).c_str(), i, j, show(t).c_str()); CStr tt(t);
        ssize_t r = op == 6 ? zt_cstr_find(a, i, j, tt) : zt_cstr_rfind(a, i, j, tt); CHECK(r == w, "got %zd want %zd", r, w);
    } else {
        std::string t = g.coin() ? s : gstr(g); if (g.chance(1, 3)) t[g.u(t.size() - 1)] = (char)(1 + g.u(254)); if (g.chance(1, 3)) t += gstr(g, 4);
        ssize_t k = g.coin() ? 0 : gidx(g, t.size()), l = g.coin() ? -1 : gidx(g, t.size()); if (g.coin()) i = 0, j = -1;
        std::string u = slice(s, i, j), v = slice(t, k, l); int w = sgn(u.compare(v)); if (!u.empty() && !v.empty() && u[0] == v[0]) g.nontrivial();
        g.note("cmp %s[%zd:%zd] with %s[%zd:%zd]", show(s).c_str(), i, j, show(t).c_str(), k, l); CStr tt(t);
        int r = zt_cstr_cmp(a, i, j, tt, k, l), r2 = zt_cstr_cmp(tt, k, l, a, i, j); CHECK(sgn(r) == w, "got %d want sign %d", r, w); CHECK(sgn(r2) == -w, "swapped got %d want sign %d", r2, -w);
    }
    EQ(std::string(a.p), s);
}

P(S02, empty, 4000, 100000, 100, "searching the empty text for characters, sets and strings, and comparing it with slices of others and itself, arbitrary indices; all cases non-trivial") {
    std::string t = gstr(g); CStr e(""), b(t); ssize_t i = gidx(g, 2), j = gidx(g, 2), k = gidx(g, t.size()), l = gidx(g, t.size()); unsigned op = (unsigned)g.u(8); g.nontrivial();
    static const char *N[] = {"chr", "rchr", "upto", "rupto", "any", "rany", "find", "rfind", "cmp"}; g.label(N[op]); g.note("%s in the empty text [%zd:%zd] with %s", N[op], i, j, show(t).c_str());
    switch (op) {
        case 0: case 1: CHECK((op ? zt_cstr_rchr(e, i, j, t[0]) : zt_cstr_chr(e, i, j, t[0])) == 0); break;
        case 2: CHECK(zt_cstr_upto(e, i, j, b) == -1); break; case 3: CHECK(zt_cstr_rupto(e, i, j, b) == -1); break;
        case 4: CHECK(zt_cstr_any(e, i, j, b) == -1); break; case 5: CHECK(zt_cstr_rany(e, i, j, b) == -1); break;
        case 6: CHECK(zt_cstr_find(e, i, j, b) == -1); break; case 7: CHECK(zt_cstr_rfind(e, i, j, b) == -1); break;
        case 8: { CStr f(""); CHECK(zt_cstr_cmp(e, i, j, b, k, l) < 0); CHECK(zt_cstr_cmp(b, k, l, e, i, j) > 0); CHECK(zt_cstr_cmp(e, i, j, f, j, i) == 0); }
    }
}
P_(S02, search_large, 400, 8000, 1, 300, 0, 100, "the search and comparison laws over text of up to 200 000 characters; non-trivial as for search") { Large l; fn_S02_search(g); }
// ------------------------------------------------------------ trimming
P(S03, trim, 500000, 10000000, 500, "text mixing blanks, tabs, newlines and other bytes at the ends and inside, edited in exact-size buffers: chomp, strip and the reverse span functions against their definitions; non-trivial = there is something to trim and something inside to keep") {
    std::string s; for (int k = (int)g.u(3); k >= 0; k--) s += grow(g, g.coin() ? g.str(" \t\n", 4) : g.coin() ? g.str("ab \n", 5) : g.cstr(4), 70000);
    unsigned op = (unsigned)g.u(2); g.note("%u of %s", op, show(s).c_str());
    if (op == 0) {
        CStr a(s); char *r = zt_cstr_chomp(a); CHECK(r == a.p); std::string w = s; if (!w.empty() && w.back() == '\n') { w.pop_back(); if (!w.empty()) g.nontrivial(); } g.label("chomp"); EQ(std::string(a.p), w);
    } else if (op == 1) {
        CStr a(s); char *r = zt_cstr_strip(a); CHECK(r == a.p); size_t b = s.find_first_not_of(" \t"); std::string w = b == s.npos ? "" : s.substr(b);
        size_t e = w.find_last_not_of(" \t\n"); std::string tail = e == w.npos ? w : w.substr(e + 1); w = e == w.npos ? "" : w.substr(0, e + 1); if (!w.empty() && w != s) g.nontrivial();
        if (tail.find('\n') != tail.npos) w += '\n';
        g.label("strip"); EQ(std::string(a.p), w); std::string once = a.p; zt_cstr_strip(a); EQ(std::string(a.p), once);
    } else {
        std::string set = g.coin() ? g.str("ab \t\n", 3) : g.cstr(3); if (set.empty()) set = "a"; CStr a(s), c(set); g.note("set %s", show(set).c_str()); g.label("spans");
        size_t e = s.find_last_not_of(set), w = e == s.npos ? s.size() : s.size() - e - 1; size_t r = zt_cstr_rspn(a, c); CHECK(r == w, "trailing span %zu want %zu", r, w);
        size_t f = s.find_last_of(set), w2 = f == s.npos ? s.size() : f; r = zt_cstr_rcspn(a, c); CHECK(r == w2, "last rejected at %zu want %zu", r, w2); if (w && w < s.size()) g.nontrivial(); EQ(std::string(a.p), s);
    }
}

P_(S03, trim_large, 60, 1500, 1, 300, 0, 100, "the trimming laws over runs of up to 70 000 blanks and other characters; non-trivial as for trim") { Large l; fn_S03_trim(g); }
// ------------------------------------------------------------ tokenising
static std::vector<std::string> drain(zt_ptr_array *a, bool cut) {
    if (!a) FAIL("returned NULL"); std::vector<std::string> r; for (int32_t i = 0; i < a->count; i++) r.push_back((char *)zt_ptr_array_get_idx(a, i));
    if (cut) zt_cstr_cut_free(a); else zt_cstr_split_free(a); return r;
}
static void same(const std::vector<std::string> &got, const std::vector<std::string> &want) {
    std::string a, b; for (auto &x : got) a += show(x) + " "; for (auto &x : want) b += show(x) + " ";
    CHECK(got == want, "got %zu parts: %s want %zu: %s", got.size(), a.c_str(), want.size(), b.c_str());
}
P(S04, split, 300000, 6000000, 300, "text with runs of delimiters at the ends and inside, 0..200 parts: split on a delimiter set, successive suffixes, successive prefixes, against their definitions, freed and leak-checked by ownership; non-trivial = three or more parts or adjacent delimiters") {
    std::string s = g.coin() ? g.str("ab,;", 30) : g.coin() ? g.str("a,", g.chance(1, 20) ? 500 : 20) : g.cstr(20); unsigned op = (unsigned)g.u(2);
    if (BIG) { if (op == 0) s = grow(g, s + "x,"); else { s = std::string(1 + g.big(90000), 'a'); for (int k = (int)g.u(12); k > 0; k--) s[g.chance(1, 4) ? s.size() - 1 - g.u(std::min((size_t)3, s.size() - 1)) : g.u(s.size() - 1)] = ','; } }
    CStr a(s); std::vector<std::string> w;
    if (op == 0) {
        std::string d = g.coin() ? "," : g.coin() ? ",;" : g.cstr(3); CStr dd(d); std::string cur; g.note("split %s on %s", show(s).c_str(), show(d).c_str()); g.label("split");
        for (char c : s) if (d.find(c) != d.npos) { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += c;
        if (!cur.empty()) w.push_back(cur);
        same(drain(zt_cstr_split(a, dd), false), w); CHECK(!zt_cstr_split(NULL, dd)); CHECK(!zt_cstr_split(a, NULL));
    } else if (op == 1) {
        bool keep = g.coin(); char d = BIG || g.coin() || s.empty() ? ',' : s[g.u(s.size() - 1)]; int di = g.coin() ? (int)d : (int)(unsigned char)d; g.note("cut %s at %c keep %d", show(s).c_str(), d, keep); g.label("cut");
        for (size_t q = 0; q + 1 < s.size(); q++) if (s[q] == d) w.push_back(s.substr(q + !keep));
        same(drain(zt_cstr_cut(a, di, keep), true), w);
    } else {
        char d = BIG || g.chance(2, 3) || s.empty() ? ',' : g.coin() ? s.back() : s[g.u(s.size() - 1)]; int di = g.coin() ? (int)d : (int)(unsigned char)d; g.note("tok %s at %d", show(s).c_str(), di); g.label("tok"); std::string c = s; if (!c.empty() && c.back() == d) c.pop_back();
        for (;;) { w.push_back(c); size_t p = c.rfind(d); if (p == c.npos || p == 0) break; c.resize(p); }
        same(drain(zt_cstr_tok(a, di, (int)g.u(1)), true), w);
    }
    EQ(std::string(a.p), s); if (w.size() > 2 || s.find(",,") != s.npos) g.nontrivial();
}

P_(S04, split_large, 150, 3000, 1, 300, 0, 100, "split into up to 100 000 parts, and few long parts; non-trivial as for split") { Large l; fn_S04_split(g); }
// ------------------------------------------------------------ paths as text
static std::string comp(Gen &g) { std::string s = g.coin() ? g.str("ab.", 6) : g.str("abcdefgh .-_~", 12); return grow(g, s.empty() ? "a" : s, 70000); }
static std::string gpath(Gen &g, bool trail) {
    std::string s = g.coin() ? "/" : ""; int n = (int)g.u(4); for (int i = 0; i < n; i++) s += (i ? "/" : "") + comp(g); if (s.empty()) s = comp(g); if (trail && s.back() != '/' && g.chance(1, 4)) s += '/'; return s;
}
static std::string rtrim(std::string s) { while (!s.empty() && s.back() == '/') s.pop_back(); return s; }
// now and then a separator is repeated
static std::string seps(Gen &g, const std::string &s) { if (!g.chance(1, 3)) return s; std::string r; for (char c : s) r += c == '/' && g.coin() ? std::string(1 + g.u(2), '/') : std::string(1, c); return r; }
static void bounded(Gen &g, const std::string &want, const char *, size_t room, const Mem &m) {
    std::string w = want.substr(0, room ? room - 1 : 0); if (room) { CHECK(m.p[room - 1] == 0 || memchr(m.p, 0, room), "not terminated inside %zu bytes", room); EQ(std::string(m.p), w); }
}
P(S05, names, 500000, 10000000, 500, "paths of 0..4 components, absolute or relative, with separators repeated and at the end: last component with and without a suffix to remove, parent, joining, and the absolute test, into exact-size buffers of every size; non-trivial = two or more components or a truncating buffer") {
    unsigned op = (unsigned)g.u(3); bool cut = g.chance(1, 4);
    if (op == 0) {
        std::string p = g.chance(1, 20) ? "" : seps(g, gpath(g, true)), t = rtrim(p), b = t.substr(t.rfind('/') == t.npos ? 0 : t.rfind('/') + 1), suf; bool has = g.coin();
        if (has) { suf = g.coin() ? b.substr(g.u(b.size())) : g.coin() ? "." + g.str("ab", 3) : g.str("ab.", 3); }
        std::string w = b; if (has && !suf.empty() && suf.size() < w.size() && w.compare(w.size() - suf.size(), suf.size(), suf) == 0) w.resize(w.size() - suf.size()); if (t.empty() && !p.empty()) w = "/";
        size_t room = cut ? g.u(w.size() + 1) : w.size() + 1 + g.u(20); Mem o(room); CStr a(p), c(suf); g.note("basename %s suffix %s room %zu", show(p).c_str(), has ? show(suf).c_str() : "none", room); g.label("basename");
        char *r = zt_cstr_basename(o.p, room, a, has ? c.p : NULL); CHECK(r == o.p); bounded(g, w, r, room, o); if (w != p || room <= w.size()) g.nontrivial();
    } else if (op == 1) {
        std::string p = g.chance(1, 20) ? "" : seps(g, gpath(g, true)), q = rtrim(p); size_t k = q.rfind('/');
        std::string w = p.empty() ? "." : q.empty() ? "/" : k == q.npos ? "." : rtrim(q.substr(0, k)).empty() ? "/" : rtrim(q.substr(0, k));
        size_t room = cut ? g.u(w.size() + 1) : w.size() + 1 + g.u(20); Mem o(room); CStr a(p); g.note("dirname %s room %zu", show(p).c_str(), room); g.label("dirname");
        char *r = zt_cstr_dirname(o.p, room, a); CHECK(r == o.p); bounded(g, w, r, room, o); if (k != q.npos || room <= w.size()) g.nontrivial();
    } else if (op == 2) {
        std::string p = gpath(g, false), q = gpath(g, false); int n1 = (int)g.u(3), n2 = (int)g.u(3); std::string l = p + std::string(n1, '/'), rr = std::string(n2, '/') + q;
        if (g.chance(1, 16)) rr = ""; size_t z = rr.find_first_not_of('/'); std::string w = (p == "/" ? "" : p) + "/" + (z == rr.npos ? "" : rr.substr(z)); CStr a(l), b(rr); g.note("append %s and %s", show(l).c_str(), show(rr).c_str()); g.label("append"); EQ(take(zt_cstr_path_append(a, b)), w); g.nontrivial();
    } else {
        std::string p = g.coin() ? gpath(g, true) : g.str("./a", 4); CStr a(p); bool w = p[0] == '/' || p.compare(0, 2, "./") == 0; g.note("abspath %s", show(p).c_str()); g.label("abspath"); CHECK(zt_cstr_abspath(a) == w, "%s absolute", w ? "not" : "was"); if (p.size() > 1) g.nontrivial();
    }
}

P_(S05, names_large, 400, 8000, 1, 300, 0, 100, "the path laws with components of up to 70 000 characters; non-trivial as for names") { Large l; fn_S05_names(g); }
// ------------------------------------------------------------ hex
struct Dump { std::vector<size_t> addr; std::vector<std::string> hex, txt; int ends = 0; int stop = -1; };
static int dumpcb(void *c, size_t a, char *h, char *t) {
    Dump *d = (Dump *)c; CHECK(d->ends == 0, "called after the end"); if (!h) { CHECK(!t); d->ends++; return 0; }
    if (d->stop == (int)d->addr.size()) { d->addr.push_back(a); return -1; }
    d->addr.push_back(a); d->hex.push_back(h); d->txt.push_back(t); return 0;
}
struct Src { const std::string *s; size_t i; };
static int srcget(void *c) { Src *s = (Src *)c; return s->i < s->s->size() ? (unsigned char)(*s->s)[s->i++] : EOF; }
static std::string up(std::string s) { for (auto &c : s) c = (char)toupper((unsigned char)c); return s; } // letter case of digits is free
static std::string hx(const std::string &s) { std::string r; char b[3]; for (unsigned char c : s) { snprintf(b, 3, "%02X", c); r += b; } return r; }
P(S06, hexdump, 200000, 4000000, 200, "dumps of 0..200 bytes from memory or from a character source, complete or stopped by the consumer: every byte appears once in order as hex and text, 16 to a line at its address, then one end call; non-trivial = a partial last line") {
    std::string s = BIG ? g.blob(g.big(140000)) : g.coin() ? g.bytestr(200) : g.blob(g.u(70)); Dump d; bool mem = g.coin(); size_t lines = (s.size() + 15) / 16; if (g.chance(1, 4)) d.stop = (int)g.u(lines);
    Mem m(s.data(), s.size()); Src src{&s, 0}; g.note("hexdump of %zu bytes %s, stop at %d: %s", s.size(), mem ? "from memory" : "from a source", d.stop, hex(s.data(), s.size()).c_str());
    size_t r = mem ? zt_hexdump_str(m.p, m.n, dumpcb, &d) : zt_hexdump(srcget, &src, dumpcb, &d); if (s.size() % 16) g.nontrivial();
    bool stopped = d.stop >= 0 && d.stop < (int)lines; size_t n = stopped ? d.stop : lines; CHECK(d.hex.size() == n, "%zu lines want %zu", d.hex.size(), n);
    for (size_t i = 0; i < n; i++) {
        std::string p = s.substr(i * 16, 16), h, t; for (unsigned char c : p) { h += hx(std::string(1, (char)c)) + " "; t += c >= 32 && c < 127 ? (char)c : '.'; }
        CHECK(d.addr[i] == i * 16, "line %zu at %zu", i, d.addr[i]); EQ(up(d.hex[i]), h); EQ(d.txt[i], t);
    }
    if (stopped) { CHECK(r == (size_t)-1, "returned %zu after the consumer stopped", r); } else { CHECK(r == s.size(), "returned %zu", r); CHECK(d.ends == 1, "end reported %d times", d.ends); }
}
P_(S06, hexdump_large, 100, 2000, 1, 300, 0, 100, "dumps of up to 140 000 bytes; non-trivial as for hexdump") { Large l; fn_S06_hexdump(g); }
struct Far { size_t left, line, size; }; // a source of more than 4 GiB: what a 32-bit address would show again
static int farget(void *c) { Far *f = (Far *)c; return f->left ? (f->left--, 'x') : EOF; }
static int farcb(void *c, size_t a, char *h, char *t) { Far *f = (Far *)c; if (!h) return 0; CHECK(a == f->line * 16, "line %zu at address %zx", f->line, a); f->line++; return strlen(t) == std::min((size_t)16, f->size - a) ? 0 : -1; }
P_(S06, huge, 1, 2, 1, 600, 1, 1, "a dump of a character source of 4 GiB and a little more: every line at its own address; every case is non-trivial") {
    Far f; f.size = f.left = ((size_t)1 << 32) + g.range(1, 100); f.line = 0; g.note("dump of %zu bytes", f.size); g.nontrivial(); size_t r = zt_hexdump(farget, &f, farcb, &f); CHECK(r == f.size, "returned %zu", r); CHECK(f.line == (f.size + 15) / 16, "%zu lines", f.line);
}
P(S06, printer, 200000, 4000000, 200, "the built-in printer called directly with addresses around every change of width and anywhere else: the printed address, bytes and text are those given; non-trivial = an address of more than 16 bits") {
    int k = (int)g.u(5); size_t a = k == 0 ? 65520 + g.u(40) : k == 1 ? ((size_t)1 << 32) - 20 + g.u(40) : k == 2 ? g.u(70000) : k == 3 ? g.bits() : k == 4 ? (size_t)(uint32_t)g.bits() : (size_t)-1 - g.u(20); std::string s = g.blob(1 + g.u(15)), h, t; for (unsigned char c : s) { h += hx(std::string(1, (char)c)) + " "; t += c >= 32 && c < 127 ? (char)c : '.'; }
    char hb[64] = {0}, tb[20] = {0}; memcpy(hb, h.data(), h.size()); memcpy(tb, t.data(), t.size()); g.note("line at %zx: %s", a, hb); if (a > 65535) g.nontrivial(); static int fd = -1; fflush(stdout); if (fd < 0) fd = open("outp", O_CREAT | O_TRUNC | O_RDWR, 0600); if (ftruncate(fd, 0)) FAIL("truncate"); lseek(fd, 0, SEEK_SET);
    int old = dup(1); dup2(fd, 1); int r = zt_hexdump_default_printer(NULL, a, hb, tb); fflush(stdout); dup2(old, 1); close(old); CHECK(r == 0, "printer returned %d", r); char o[400]; ssize_t n = pread(fd, o, 399, 0); CHECK(n > 0 && o[n - 1] == '\n', "no line"); o[n - 1] = 0; std::string l = o; CHECK(l.find('\n') == l.npos, "two lines");
    size_t bar = l.find("| "), sp = l.find(' '); CHECK(bar != l.npos && sp != l.npos && sp < bar, "no text column in %s", show(l).c_str()); CHECK(strtoull(l.c_str(), 0, 16) == a && sp < 17, "address %.*s", (int)sp, o); std::string q; for (char c : l.substr(sp, bar - sp)) if (c != ' ') q += c; EQ(up(q), hx(s)); EQ(l.substr(bar + 2), t);
}
P(S06, printed, 3000, 60000, 50, "the built-in printer: parsing the printed lines back yields the bytes; non-trivial = more than one line") {
    std::string s = g.coin() ? g.blob(g.u(200)) : g.bytestr(60); if (g.chance(1, 10)) s += g.blob(66000); fflush(stdout); int old = dup(1), fd = open("out", O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(fd, 1); Mem m(s.data(), s.size());
    size_t r = zt_hexdump_str(m.p, m.n, NULL, NULL); fflush(stdout); dup2(old, 1); close(old); CHECK(r == s.size()); g.note("printed %zu bytes", s.size());
    off_t n = lseek(fd, 0, SEEK_END); std::string o(n, 0); if (pread(fd, &o[0], n, 0) != n) FAIL("read"); close(fd); std::string back; size_t pos = 0, line = 0;
    while (pos < o.size()) { size_t e = o.find('\n', pos); if (e == o.npos) FAIL("unterminated line"); std::string l = o.substr(pos, e - pos); pos = e + 1; if (l.empty()) { CHECK(pos == o.size(), "blank line inside"); break; }
        size_t bar = l.find("| "); CHECK(bar != l.npos, "no text column in %s", show(l).c_str()); size_t a = strtoull(l.c_str(), 0, 16); CHECK(a == line * 16, "address %zx on line %zu", a, line);
        std::string h = l.substr(l.find(' '), bar - l.find(' ')), t; for (char c : h) if (c != ' ') t += c; std::string want = s.substr(line * 16, 16); EQ(up(t), hx(want)); std::string tx; for (unsigned char c : want) tx += c >= 32 && c < 127 ? (char)c : '.'; EQ(l.substr(bar + 2), tx); line++; }
    CHECK(line == (s.size() + 15) / 16, "%zu lines for %zu bytes", line, s.size()); if (line > 1) g.nontrivial();
}
P(S06, convert, 500000, 10000000, 500, "bytes to hex text and back with exact-size buffers of every size, mixed case, early end of text, half bytes and foreign characters; non-trivial = a bounded, ended or malformed conversion") {
    std::string s = BIG ? g.blob(g.big(140000)) : g.bytestr(40);
    if (g.coin()) {
        Mem m(s.data(), s.size()); size_t room = g.coin() ? s.size() * 2 : g.u(s.size() * 2 + 3); Mem o(room); size_t n = std::min(s.size(), room / 2); g.note("hex of %zu bytes into %zu", s.size(), room); g.label("to hex");
        size_t r = zt_binary_to_hex(m.p, m.n, o.p, room); CHECK(r == n * 2, "wrote %zu want %zu", r, n * 2); EQ(up(std::string(o.p, r)), hx(s.substr(0, n))); for (size_t q = r; q < room; q++) CHECK(o.p[q] == (char)0xA5, "byte %zu written past the text", q);
        if (n < s.size()) g.nontrivial(); return;
    }
    std::string t = hx(s); g.label("from hex"); bool low = g.coin(); if (BIG) { if (low) for (auto &c : t) c = (char)tolower(c); } else for (auto &c : t) if (g.chance(1, 3)) c = (char)tolower(c);
    if (g.chance(1, 4) && !t.empty()) t[g.u(t.size() - 1)] = (char)g.u(255); if (g.chance(1, 6)) t += g.pick({'0', 'A', 'f', 'g'});
    size_t hlen = g.chance(3, 4) ? t.size() : g.u(t.size()); bool term = g.coin(); Mem in(term ? t.size() + 1 : hlen); memcpy(in.p, t.data(), std::min(t.size(), in.n)); if (term) { in.p[t.size()] = 0; if (g.coin()) hlen = t.size() + g.u(5); if (hlen > in.n) { /* text ends before the limit */ } }
    size_t room = g.chance(1, 3) ? g.u(s.size() + 2) : s.size() + 2; bool query = g.chance(1, 4); g.note("unhex %s limit %zu room %zu%s", show(t).c_str(), hlen, room, query ? " query" : "");
    std::string v(in.p, std::min(hlen, in.n)), w; v = v.c_str(); bool ok = true; size_t lim = query ? (size_t)-1 : room; size_t q = 0;
    auto val = [](unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 55 : c >= 'a' && c <= 'f' ? c - 87 : -1; };
    for (; q < v.size() && w.size() < lim; q += 2) { if (q + 1 >= v.size() || val(v[q]) < 0 || val(v[q + 1]) < 0) { ok = false; break; } w += (char)(val(v[q]) << 4 | val(v[q + 1])); }
    Mem o(room); errno = 0; size_t r = zt_hex_to_binary(in.p, hlen, query ? NULL : o.p, room); if (!ok || q < v.size() || query) g.nontrivial();
    if (!ok) { CHECK(r == 0, "malformed text gave %zu bytes", r); CHECK(errno == EINVAL, "errno %d", errno); } else { CHECK(r == w.size(), "%zu bytes want %zu", r, w.size()); if (!query) EQ(std::string(o.p, r), w); }
    if (!query) for (size_t z = std::min(room, w.size()); z < room; z++) CHECK(o.p[z] == (char)0xA5, "byte %zu written past the data", z);
}
P_(S06, convert_large, 300, 6000, 1, 300, 0, 100, "conversions of up to 140 000 bytes; non-trivial as for convert") { Large l; fn_S06_convert(g); }

// ------------------------------------------------------------ itoa
P(S07, itoa, 800000, 20000000, 1000, "every kind of int (edge values, all magnitudes) at random offsets into buffers of every size; non-trivial = the buffer is exactly full, one short, or the value is the minimum") {
    int v = (int)(int32_t)g.bits(32); char ref[16]; int n = snprintf(ref, sizeof ref, "%d", v); size_t off = g.len(20), room = g.coin() ? off + n + 1 : g.chance(1, 6) ? g.u(off) : off + g.u(n + 3); if (g.chance(1, 40)) off = (size_t)0 - 1 - g.len(20); g.note("itoa %d at %zu in %zu", v, off, room);
    CHECK(zt_cstr_int_display_len(v) == (size_t)n, "display length %zu of %d", zt_cstr_int_display_len(v), v);
    Mem o(room); ssize_t r = zt_cstr_itoa(o.p, v, off, room); if (room == off + n || room == off + n + 1 || v == INT_MIN) g.nontrivial();
    if (off >= room || off + n + 1 > room) { CHECK(r == -1, "returned %zd though %zu bytes are too few", r, room); for (size_t q = 0; q < room; q++) CHECK(o.p[q] == (char)0xA5, "wrote on refusal"); return; }
    CHECK(r == (ssize_t)(off + n), "returned %zd want %zu", r, off + n); EQ(std::string(o.p + off), ref); for (size_t q = 0; q < room; q++) if (q < off || q > off + n) CHECK(o.p[q] == (char)0xA5, "byte %zu outside the number written", q);
    CHECK(zt_cstr_itoa(NULL, v, off, room) == -1);
}
