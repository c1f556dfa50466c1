#include "pbt.h"
#include "zthdr.h"
#include <cfloat>
#include <thread>
#include <atomic>

// One format string with the argument list that goes with it. On this ABI integer and
// floating arguments travel separately, so a fixed call shape can carry any mix (<= 8 doubles).
struct Call { std::string f, want; long long a[24] = {}; int na = 0; double d[8] = {}; int nd = 0; std::vector<CStr *> own; ~Call() { for (auto *c : own) delete c; } };
#define ARGS(c) (c).a[0], (c).a[1], (c).a[2], (c).a[3], (c).a[4], (c).a[5], (c).a[6], (c).a[7], (c).a[8], (c).a[9], (c).a[10], (c).a[11], (c).a[12], (c).a[13], (c).a[14], (c).a[15], \
    (c).a[16], (c).a[17], (c).a[18], (c).a[19], (c).a[20], (c).a[21], (c).a[22], (c).a[23], (c).d[0], (c).d[1], (c).d[2], (c).d[3], (c).d[4], (c).d[5], (c).d[6], (c).d[7]

static double gdouble(Gen &g) {
    switch (g.u(5)) { case 0: return g.pick({0.0, -0.0, 1.0, -1.0, 0.5, 9.995, 99999.5, 1e6, 123456.0, 1e-5, DBL_MAX, -DBL_MAX, DBL_MIN, 5e-324, (double)INFINITY, (double)-INFINITY, (double)NAN});
    case 1: { uint64_t b = g.bits(64); double v; memcpy(&v, &b, 8); return v; } case 2: return (double)(int32_t)g.bits(32) / 100; case 3: return (double)g.range(-1000, 1000); default: return ldexp((double)g.range(-99999, 99999), (int)g.range(-30, 30)); }
}
static void directive(Gen &g, Call &c) {
    char pre = g.coin() ? '%' : '~'; c.f += pre;
    unsigned k = (unsigned)g.u(11);
    if (k == 11) { char l = g.coin() ? '%' : '~'; c.f += l; c.want += l; return; }
    char code = "dddouxcsfeg"[k]; if (g.chance(1, 12)) code = 'p';
    double dv = 0; bool isf = strchr("feg", code); if (isf) { if (c.nd >= 8) { c.f += '%'; c.want += '%'; return; } dv = gdouble(g); }
    std::string flags; const char *ok = code == 'd' ? "+- 0" : isf ? "+- 0" : strchr("ouxp", code) ? "-0" : code == 's' ? "-#" : "-";
    for (const char *p = ok; *p; p++) if (g.chance(1, 4)) flags.append(g.chance(1, 8) ? 2 + g.u(2) : 1, *p);
    if (flags.size() > 1 && g.coin()) std::rotate(flags.begin(), flags.begin() + (long)g.u(flags.size() - 1), flags.end());   // any order
    bool skip = flags.find('#') != flags.npos; c.f += flags; std::string cf = "%"; for (char x : flags) if (x != '#') cf += x;
    int width = 0; bool hasw = false;
    if (g.coin()) { width = (int)(g.chance(1, 12) ? g.u(400) : g.u(24)); hasw = true; if (g.chance(1, 3) && c.na < 20) { if (g.coin()) width = -width; c.f += '*'; c.a[c.na++] = width; } else { if (width == 0) { if (skip) c.f += "0"; else if (flags.find('0') == flags.npos) hasw = false; else hasw = false; } if (hasw && !(width == 0 && !skip)) { if (!(skip && width == 0)) c.f += std::to_string(width); } else hasw = skip; } }
    // a literal width of 0 reads as the flag 0; only '#' gives it a meaning of its own, so keep it out
    if (skip && hasw && width == 0 && c.f.back() != '*') { hasw = false; }
    int prec = -1;
    if (g.coin()) { prec = (int)g.u(g.chance(1, 40) ? 1500 : isf ? (g.chance(1, 6) ? 110 : 20) : 20); if (g.chance(1, 3) && c.na < 20) { if (g.chance(1, 4)) prec = -1 - prec; c.f += ".*"; c.a[c.na++] = prec; } else c.f += "." + std::to_string(prec); if (prec < 0) prec = -1; }
    c.f += code;
    if (hasw && !skip) cf += "*"; bool usew = hasw && !skip; bool usep = prec >= 0 && code != 'c' && code != 'p'; if (usep) cf += "." + std::to_string(prec);
    char buf[4096]; int n = 0;
#define R(spec, v) { std::string q = cf + spec; n = usew ? snprintf(buf, sizeof buf, q.c_str(), width, v) : snprintf(buf, sizeof buf, q.c_str(), v); }
    if (isf) { R(code, dv); c.d[c.nd++] = dv; }
    else if (code == 's') {
        std::string s = g.cstr(g.chance(1, 10) ? 300 : 20); CStr *o = new CStr(s); c.own.push_back(o); std::string v = s; size_t w = (size_t)abs(width); if (skip && hasw && w < v.size()) v = v.substr(w);
        R(code, v.c_str()); c.a[c.na++] = (long long)(intptr_t)o->p; }
    else if (code == 'c') { int v = 1 + (int)g.u(254); R(code, v); c.a[c.na++] = v | (long long)((uint64_t)g.u(3) << 40); }
    else if (code == 'p') { uint64_t v = g.bits(g.coin() ? 48 : 64); R("lx", v); c.a[c.na++] = (long long)v; }
    else { uint32_t v = g.chance(1, 5) ? 0 : (uint32_t)g.bits(32); if (code == 'd') R(code, (int)v) else R(code, v); c.a[c.na++] = (long long)v | (long long)((uint64_t)g.u(255) << 32); }
    c.want += std::string(buf, n);
}
static void build(Gen &g, Call &c, int max) {
    int n = (int)g.u(max); for (int i = 0; i <= n; i++) { if (g.coin()) { std::string t = g.str("ab .0-*#d\n", 6); c.f += t; c.want += t; } if (c.na < 20) directive(g, c); }
    if (g.chance(1, 4)) { std::string t = g.str("xyz", 3); c.f += t; c.want += t; }
    g.note("format %s want %s", show(c.f).c_str(), show(c.want).c_str());
}
#define SAME(got, want) do { std::string g_ = (got), w_ = (want); CHECK(g_ == w_, "format %s: got %s want %s", show(c.f).c_str(), show(g_, 300).c_str(), show(w_, 300).c_str()); } while (0)

P(F01, printf, 500000, 10000000, 300, "formats of 1..5 directives (d o u x c s f e g p, both lead characters, flags, literal and argument widths and precisions, literal percent and tilde) with edge-biased arguments, against the C library directive by directive; non-trivial = a flag, width or precision is present") {
    Call c; build(g, c, 4); char *r = zt_fmt_strprintf(c.f.c_str(), ARGS(c)); if (!r) FAIL("returned NULL"); SAME(std::string(r), c.want); free(r);
    if (c.f.find_first_of("+-#.*0123456789") != c.f.npos) g.nontrivial();
}
P(F01, threads, 200, 4000, 4, "four threads format numbers with different precisions at the same time; non-trivial = always") {
    struct T { int p; char code; double v; } t[4]; for (auto &x : t) { x.p = (int)g.u(40); x.code = "feg"[g.u(2)]; x.v = gdouble(g); if (!std::isfinite(x.v) || fabs(x.v) > 1e100) x.v = 1.5; } g.nontrivial();
    g.note("precisions %d %d %d %d", t[0].p, t[1].p, t[2].p, t[3].p);
    std::atomic<int> bad{-1}; std::vector<std::thread> th; for (int k = 0; k < 4; k++) th.emplace_back([&, k] { char w[512], f[16]; snprintf(f, sizeof f, "%%.%d%c", t[k].p, t[k].code); snprintf(w, sizeof w, f, t[k].v); for (int i = 0; i < 300; i++) { char *r = zt_fmt_strprintf(f, t[k].v); if (strcmp(r, w)) bad = k; free(r); } });
    for (auto &x : th) x.join(); CHECK(bad == -1, "thread %d got text of another precision", (int)bad);
}

struct Sink { std::string s; int mode; };
static int sink(int ch, void *cl) { Sink *k = (Sink *)cl; CHECK(ch >= 0 && ch <= 255, "character %d passed to the consumer", ch); k->s += (char)ch; return k->mode == 0 ? ch : k->mode == 1 ? 0 : 1; }
static size_t vs(int kind, void *to, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); size_t r = 0; if (kind == 0) r = zt_fmt_vsprintf((char *)to, n, f, ap); else if (kind == 1) r = zt_fmt_vformat(sink, to, f, ap); else { char *s = zt_fmt_vstrprintf(f, ap); r = (size_t)s; } va_end(ap); return r; }
P(F02, outputs, 300000, 6000000, 300, "the same text through every output: a buffer with room to spare, exactly full, or too small, a character consumer with any return values, a stream, and an allocated string; counts returned are characters delivered and nothing is written outside a buffer; non-trivial = the buffer is full or too small, or the consumer's return values differ from the characters") {
    Call c; build(g, c, 3); const std::string &w = c.want; unsigned k = (unsigned)g.u(5); bool v = g.coin(); const char *f = c.f.c_str();
    static const char *N[] = {"buffer", "exact buffer", "short buffer", "consumer", "stream", "allocated"}; g.label(N[k]);
    if (k < 3) {
        size_t room = k == 0 ? w.size() + 1 + g.u(20) : k == 1 ? w.size() + 1 : 1 + g.u(w.size()); Mem o(room); g.note("into %zu bytes", room);
        size_t r = v ? vs(0, o.p, room, f, ARGS(c)) : zt_fmt_sprintf(o.p, room, f, ARGS(c)); size_t n = std::min(w.size(), room - 1);
        SAME(std::string(o.p, n), w.substr(0, n)); CHECK(o.p[n] == 0, "not terminated"); CHECK(r == n, "returned %zu want %zu", r, n); for (size_t i = n + 1; i < room; i++) CHECK(o.p[i] == (char)0xA5, "byte %zu after the text written", i - n);
        if (room <= w.size() + 1) g.nontrivial();
    } else if (k == 3) {
        Sink s; s.mode = (int)g.u(2); size_t r = v ? vs(1, &s, 0, f, ARGS(c)) : zt_fmt_format(sink, &s, f, ARGS(c)); SAME(s.s, w); CHECK(r == w.size(), "returned %zu for %zu characters", r, w.size()); if (s.mode) g.nontrivial();
    } else if (k == 4) {
        char *b = 0; size_t n = 0; size_t r; if (g.coin()) { FILE *m = open_memstream(&b, &n); r = zt_fmt_fprintf(m, f, ARGS(c)); fclose(m); SAME(std::string(b, n), w); }
        else { FILE *so = stdout; FILE *m = open_memstream(&b, &n); stdout = m; r = zt_fmt_printf(f, ARGS(c)); stdout = so; fclose(m); SAME(std::string(b, n), w); g.nontrivial(); }
        free(b); CHECK(r == w.size(), "returned %zu for %zu characters", r, w.size());
    } else { char *s = v ? (char *)vs(2, 0, 0, f, ARGS(c)) : zt_fmt_strprintf(f, ARGS(c)); if (!s) FAIL("NULL"); SAME(std::string(s), w); if (w.size() > 250) g.nontrivial(); free(s); }
}
P(F02, zeros, 60000, 1200000, 300, "texts with zero characters in them (from a c conversion) through every output: all characters are delivered and counted; non-trivial = a zero character with text after it") {
    int a = g.chance(1, 2) ? 0 : 'a', b = g.chance(1, 2) ? 0 : 'b', c = g.chance(1, 2) ? 0 : 'c', d = (int)g.bits(32); CStr cs(g.strn("xyz", g.chance(1, 4) ? 200 + g.u(100) : g.u(20))); std::string w; const char *f = "%s%c%d%cQ%c";
    w = cs.p; w += (char)a; w += std::to_string(d); w += (char)b; w += 'Q'; w += (char)c; if (!a || !b) g.nontrivial(); unsigned k = (unsigned)g.u(3); g.note("output %u: %s", k, show(w).c_str());
    if (k == 0) { size_t room = 1 + g.u(w.size() + 5); Mem o(room); size_t r = zt_fmt_sprintf(o.p, room, f, cs.p, a, d, b, c), n = std::min(w.size(), room - 1); CHECK(r == n, "returned %zu want %zu", r, n); CHECK((std::string(o.p, n)) == (w.substr(0, n)), "other text"); CHECK(o.p[n] == 0, "not terminated"); }
    else if (k == 1) { Sink s; s.mode = (int)g.u(2); size_t r = zt_fmt_format(sink, &s, f, cs.p, a, d, b, c); CHECK((s.s) == (w), "other text"); CHECK(r == w.size(), "returned %zu for %zu characters", r, w.size()); }
    else if (k == 2) { char *m = 0; size_t n = 0; FILE *o = open_memstream(&m, &n); size_t r = zt_fmt_fprintf(o, f, cs.p, a, d, b, c); fclose(o); CHECK((std::string(m, n)) == (w), "other text"); free(m); CHECK(r == w.size(), "returned %zu for %zu characters", r, w.size()); }
    else { char *s = zt_fmt_strprintf(f, cs.p, a, d, b, c); CHECK(s != NULL); CHECK((std::string(s, w.size() + 1)) == (w + '\0'), "other text"); free(s); }
}
struct Seen { int id, code; std::string val; int flags; long w, p; }; static std::vector<Seen> seen; static std::map<int, char> ty;
static std::string rd(int code, void *v) { switch (ty[code]) { case 'i': return fmt("%d", *(int *)v); case 'u': return fmt("%u", *(unsigned *)v); case 'd': return fmt("%a", *(double *)v); case 'p': return fmt("%p", *(void **)v); default: return *(char **)v; } }
template <int ID> static size_t conv(int code, void *v, zt_fmt_put_f put, void *cl, unsigned char fl[256], ssize_t w, ssize_t p) {
    int f = 0; for (const char *q = "+- 0#"; *q; q++) f = f * 2 + (fl[(unsigned char)*q] != 0); seen.push_back({ID, code, rd(code, v), f, (long)w, (long)p}); std::string t = fmt("<%d>", ID); return zt_fmt_puts(t.data(), t.size(), put, cl, fl, w, p); }
static zt_fmt_ty CONV[3] = {conv<0>, conv<1>, conv<2>};
P(F02, registered, 200000, 4000000, 300, "user conversions registered, replaced and removed for random letters: each is called with the argument, flags, width and precision written in the format, and registering returns the previous one; non-trivial = a letter is re-registered") {
    std::map<int, int> reg; ty.clear(); seen.clear(); std::string letters = "ABQSTVZ"; bool again = false; std::map<int, std::pair<zt_fmt_ty, char>> saved;
    int n = 1 + (int)g.u(5); std::vector<int> ks;
    for (int i = 0; i < n; i++) { int l = letters[g.u(letters.size() - 1)], id = (int)g.u(2); char t = "iudps"[g.u(4)]; zt_fmt_ty old = zt_fmt_register(l, CONV[id], t);
        if (reg.count(l)) { again = true; CHECK(old == CONV[reg[l]], "registering %c again did not return the earlier conversion", l); } else CHECK(old == NULL, "letter %c had a conversion", l); reg[l] = id; ty[l] = t; g.note("%c is conversion %d of type %c", l, id, t); }
    for (auto &e : reg) ks.push_back(e.first);
    Call c; std::vector<Seen> want; int m = 1 + (int)g.u(3);
    for (int i = 0; i < m; i++) { int l = ks[g.u(ks.size() - 1)]; c.f += g.coin() ? "%" : "~"; int fl = 0; for (const char *q = "+- 0#"; *q; q++) { bool on = g.chance(1, 4); fl = fl * 2 + on; if (on) c.f += *q; } long w = -2147483648L, p = -2147483648L; if (g.coin()) { w = 1 + (long)g.u(9); c.f += std::to_string(w); } if (g.coin()) { p = (long)g.u(9); c.f += "." + std::to_string(p); } c.f += (char)l;
        std::string v; switch (ty[l]) { case 'i': { int x = (int)g.bits(32); v = fmt("%d", x); c.a[c.na++] = x; break; } case 'u': { unsigned x = (unsigned)g.bits(32); v = fmt("%u", x); c.a[c.na++] = x; break; } case 'd': { double x = (double)g.range(-9999, 9999) / 8; v = fmt("%a", x); c.d[c.nd++] = x; break; }
            case 'p': { void *x = (void *)g.bits(48); v = fmt("%p", x); c.a[c.na++] = (long long)(intptr_t)x; break; } default: { CStr *o = new CStr(g.str("abc", 5)); c.own.push_back(o); v = o->p; c.a[c.na++] = (long long)(intptr_t)o->p; } }
        want.push_back({reg[l], l, v, fl, w, p}); }
    char *r = zt_fmt_strprintf(c.f.c_str(), ARGS(c)); free(r); g.note("%s", c.f.c_str());
    CHECK(seen.size() == want.size(), "%zu calls want %zu", seen.size(), want.size());
    for (size_t i = 0; i < want.size(); i++) { auto &a = seen[i], &b = want[i]; CHECK(a.id == b.id && a.code == b.code && a.val == b.val && a.flags == b.flags && a.p == b.p && a.w == b.w, "call %zu: conversion %d letter %c value %s flags %d width %ld precision %ld want %d %c %s %d %ld %ld", i, a.id, a.code, show(a.val).c_str(), a.flags, a.w, a.p, b.id, b.code, show(b.val).c_str(), b.flags, b.w, b.p); }
    for (auto &e : reg) { zt_fmt_ty o = zt_fmt_register(e.first, NULL, 0); CHECK(o == CONV[e.second]); } if (again) g.nontrivial();
}

// the two layout functions conversions are built from, called directly and from a user conversion put in the place of a built-in one
static std::string ltext; static int lnum; static size_t lput(int, void *v, zt_fmt_put_f put, void *cl, unsigned char fl[256], ssize_t w, ssize_t p) { (void)v; return lnum ? zt_fmt_putd(ltext.data(), ltext.size(), put, cl, fl, w, p) : zt_fmt_puts(ltext.data(), ltext.size(), put, cl, fl, w, p); }
static std::string layout(bool num, const std::string &t, bool minus, bool plus, bool space, bool zero, long w, long p) {
    if (w == INT_MIN) w = 0; if (w < 0) { minus = true; w = -w; } std::string o = t, sg; if (num) { if (o.size() && (o[0] == '-' || o[0] == '+')) { sg = o.substr(0, 1); o.erase(0, 1); } else if (plus) sg = "+"; else if (space) sg = " "; if (p == 0 && o == "0") o = ""; if (p >= 0) { zero = false; if ((long)o.size() < p) o.insert(0, (size_t)p - o.size(), '0'); } if (zero && !minus && (long)(o.size() + sg.size()) < w) o.insert(0, (size_t)w - o.size() - sg.size(), '0'); o = sg + o; } else if (p >= 0 && p < (long)o.size()) o.resize((size_t)p);
    if ((long)o.size() < w) o.insert(minus ? o.size() : 0, (size_t)w - o.size(), ' '); return o; }
P(F02, layout, 300000, 6000000, 300, "texts and number texts of any length (bytes of every value, embedded zeros) laid out with any flags, positive, negative or no width and precision, directly and by a user conversion that takes the place of a built-in one and is replaced by it again; compared with the C library's rules; non-trivial = a width and a precision, or a flag on a number") {
    lnum = (int)g.u(1); ltext = lnum ? std::string(g.pick({"", "", "-", "+"})) + (g.chance(1, 6) ? "0" : std::to_string(g.bits(64))) : g.bytestr(g.chance(1, 20) ? 400 : 12); if (lnum && g.chance(1, 4)) ltext.insert(ltext[0] == '-' || ltext[0] == '+', g.u(60), '7'); bool minus = g.chance(1, 3), plus = g.chance(1, 3), space = g.chance(1, 3), zero = lnum && g.chance(1, 3); long w = g.chance(1, 3) ? INT_MIN : g.range(-40, 40), p = g.chance(1, 3) ? INT_MIN : g.chance(1, 8) ? -1 : g.range(0, 40); bool direct = g.coin();
    if (g.chance(1, 20)) w *= w == INT_MIN ? 1 : 10; g.note("%s %s flags%s%s%s%s width %ld precision %ld %s ", lnum ? "number" : "text", show(ltext, 60).c_str(), minus ? " -" : "", plus ? " +" : "", space ? " blank" : "", zero ? " 0" : "", w, p, direct ? "direct" : "registered"); if ((w != INT_MIN && p >= 0) || (lnum && (plus || space || zero))) g.nontrivial();
    std::string want = layout(lnum, ltext, minus, plus, space, zero, w, p);
    if (direct) { Sink k; k.mode = (int)g.u(2); unsigned char fl[256] = {0}; fl['-'] = minus; fl['+'] = plus; fl[' '] = space; fl['0'] = zero; Mem m(ltext.size()); memcpy(m.p, ltext.data(), ltext.size()); size_t r = lnum ? zt_fmt_putd(m.p, ltext.size(), sink, &k, fl, w, p) : zt_fmt_puts(m.p, ltext.size(), sink, &k, fl, w, p); CHECK(k.s == want, "got %s where %s is due", show(k.s).c_str(), show(want).c_str()); CHECK(r == want.size(), "counted %zu of %zu characters", r, want.size()); return; }
    char l = "douxcsfegp"[g.u(9)]; char T = l == 's' || l == 'p' ? 'p' : strchr("feg", l) ? 'd' : l == 'd' || l == 'c' ? 'i' : 'u'; zt_fmt_ty bi = zt_fmt_register(l, lput, (unsigned char)(l == 's' ? 's' : T)); CHECK(bi != NULL, "letter %c had no conversion", l);
    std::string f = std::string("<%") + (minus ? "-" : "") + (plus ? "+" : "") + (space ? " " : "") + (zero ? "0" : ""); bool star = g.coin(); int ai[3], na = 0; if (w != INT_MIN) { if (star || w <= 0) { f += "*"; ai[na++] = (int)w; } else f += std::to_string(w); } if (p != INT_MIN) { f += "."; if (star || p < 0) { f += "*"; ai[na++] = (int)p; } else f += std::to_string(p); } f += l; f += ">"; g.note("%s", f.c_str());
    char *r; if (strchr("feg", l)) r = na == 0 ? zt_fmt_strprintf(f.c_str(), 1.5) : na == 1 ? zt_fmt_strprintf(f.c_str(), ai[0], 1.5) : zt_fmt_strprintf(f.c_str(), ai[0], ai[1], 1.5); else if (T == 'p') r = na == 0 ? zt_fmt_strprintf(f.c_str(), "q") : na == 1 ? zt_fmt_strprintf(f.c_str(), ai[0], "q") : zt_fmt_strprintf(f.c_str(), ai[0], ai[1], "q"); else r = na == 0 ? zt_fmt_strprintf(f.c_str(), 5) : na == 1 ? zt_fmt_strprintf(f.c_str(), ai[0], 5) : zt_fmt_strprintf(f.c_str(), ai[0], ai[1], 5);
    zt_fmt_ty mine = zt_fmt_register(l, bi, (unsigned char)(l == 's' ? 's' : T)); CHECK(mine == lput, "restoring %c did not return the user's conversion", l); size_t z = want.find('\0'); std::string w2 = "<" + (z == want.npos ? want + ">" : want.substr(0, z)); CHECK(r && w2 == r, "got %s where %s is due", show(r ? r : "(null)").c_str(), show(w2).c_str()); free(r);
    char t[40]; snprintf(t, 40, "%+5d|%-4x|%o", -(int)ltext.size(), 77u, 8u); char *q = zt_fmt_strprintf("%+5d|%-4x|%o", -(int)ltext.size(), 77u, 8u); CHECK(!strcmp(q, t), "after restoring: %s", q); free(q);
}

// ------------------------------------------------------------ timeval arithmetic
typedef __int128 wide;
static wide us(const timeval &t) { return (wide)t.tv_sec * 1000000 + t.tv_usec; }
static timeval gtv(Gen &g) { timeval t; t.tv_sec = g.coin() ? g.range(-3, 3) : g.range(-(1ll << 40), 1ll << 40); t.tv_usec = g.coin() ? g.pick({0, 1, 499999, 500000, 500001, 999999}) : (int)g.u(999999); return t; }
static int calls; static void *timed(void *d) { calls++; return (char *)d + calls; }
P(T01, arith, 800000, 20000000, 1000, "normalised times (negative and positive seconds, edge microseconds), results stored apart from or over either operand: sum, difference and order against 128-bit microseconds, results normalised; non-trivial = a carry or borrow occurs, or the result overwrites an operand") {
    timeval a = gtv(g), b = g.chance(1, 6) ? a : gtv(g), r, A = a, B = b; unsigned op = (unsigned)g.u(3), al = (unsigned)g.u(2); timeval *o = al == 0 ? &r : al == 1 ? &a : &b; g.note("op %u on %ld.%06ld and %ld.%06ld into %u", op, (long)a.tv_sec, (long)a.tv_usec, (long)b.tv_sec, (long)b.tv_usec, al);
    if (op == 3) { long c = zt_cmp_time(&a, &b), d = zt_cmp_time(&b, &a); int w = us(a) < us(b) ? -1 : us(a) > us(b); CHECK((c > 0) - (c < 0) == w, "compare gives %ld want sign %d", c, w); CHECK((d > 0) - (d < 0) == -w, "swapped compare gives %ld", d); if (a.tv_sec == b.tv_sec) g.nontrivial(); g.label("compare"); return; }
    timeval *x = op == 0 ? zt_add_time(o, &a, &b) : op == 1 ? zt_sub_time(o, &a, &b) : zt_diff_time(o, &a, &b); CHECK(x == o, "did not return its result"); wide w = op == 0 ? us(A) + us(B) : op == 1 ? us(A) - us(B) : us(B) - us(A); g.label(op == 0 ? "add" : op == 1 ? "sub" : "diff");
    CHECK(us(*o) == w, "result %ld.%06ld is off by %lld us", (long)o->tv_sec, (long)o->tv_usec, (long long)(us(*o) - w)); CHECK(o->tv_usec >= 0 && o->tv_usec < 1000000, "result not normalised: %ld", (long)o->tv_usec);
    if (al != 1) CHECK(us(a) == us(A), "operand changed"); if (al != 2) CHECK(us(b) == us(B), "operand changed"); if (al || (op == 0 ? A.tv_usec + B.tv_usec > 999999 : A.tv_usec != B.tv_usec)) g.nontrivial();
    timeval cp; zt_copy_timeval(&cp, o); CHECK(us(cp) == us(*o));
}
P(T01, timed, 20000, 400000, 200, "timing n calls of a function: exactly n calls, the last result returned, elapsed total = user + system; non-trivial = n > 1") {
    int n = g.chance(1, 100) ? (int)g.big(100000) : (int)g.len(200); calls = 0; static char base[100001]; time_result t; memset(&t, 0x5a, sizeof t); g.note("time %d calls", n); void *r = zt_time(n, &t, timed, base); CHECK(calls == n, "%d calls for %d", calls, n); CHECK(r == (n ? (void *)(base + n) : NULL), "last result not returned");
    CHECK(t.usr_time.tv_usec >= 0 && t.usr_time.tv_usec < 1000000 && t.sys_time.tv_usec >= 0 && t.sys_time.tv_usec < 1000000, "times not normalised"); CHECK(us(t.usr_time) >= 0 && us(t.usr_time) < 100000000, "user time %lld us", (long long)us(t.usr_time));
    time_result q; q.usr_time = gtv(g); q.sys_time = gtv(g); q.usr_time.tv_sec %= 100000; q.sys_time.tv_sec %= 100000; float u, s, w; zt_time_result_to_elapsed(&q, &u, &s, &w); double U = (double)us(q.usr_time) / 1e6, S = (double)us(q.sys_time) / 1e6;
    CHECK(fabs(u - U) <= fabs(U) * 1e-6 + 1e-6 && fabs(s - S) <= fabs(S) * 1e-6 + 1e-6 && fabs(w - (U + S)) <= (fabs(U) + fabs(S)) * 1e-6 + 1e-6, "elapsed %g %g %g want %g %g", u, s, w, U, S); if (n > 1) g.nontrivial();
}
// getrusage is answered from a script, so that what a measurement must give is known exactly
#include <sys/syscall.h>
#include <sys/resource.h>
static std::vector<rusage> script; static size_t scripti; static bool scripted;
extern "C" int getrusage(__rusage_who_t who, rusage *r) noexcept { if (!scripted) return (int)syscall(SYS_getrusage, who, r); if (scripti < script.size()) { *r = script[scripti]; scripti++; return 0; } scripti++; memset(r, 0, sizeof *r); return 0; }
static void *scriptcall(void *d) { calls++; if (scripti != *(size_t *)d) calls += 1000; return d; }
P(T01, measured, 40000, 800000, 200, "histories of calibrations and measurements with a scripted usage clock: every measurement is the time between the two readings around the calls less that of the last calibration, printed results carry name, count and times; non-trivial = a measurement after a calibration that took time") {
    auto reading = [&](rusage b, bool small) { rusage r = b; long d = small ? (long)g.u(50) : g.coin() ? (long)g.u(5000000) : (long)g.u(2000); wide u = us(b.ru_utime) + d, v = us(b.ru_stime) + (long)g.u(small ? 50 : 3000000); r.ru_utime.tv_sec = (long)(u / 1000000); r.ru_utime.tv_usec = (long)(u % 1000000); r.ru_stime.tv_sec = (long)(v / 1000000); r.ru_stime.tv_usec = (long)(v % 1000000); return r; };
    struct Off { ~Off() { scripted = true; script.assign(2, rusage()); scripti = 0; zt_time_calibrate(); scripted = false; } } off; rusage z; memset(&z, 0, sizeof z); scripted = true; wide cu = 0, cs = 0; bool cal = false;
    for (int n = 1 + (int)g.u(5); n--; ) {
        rusage b = reading(z, false); b.ru_utime.tv_sec += (long)g.u(1000); bool c = g.chance(1, 3); rusage a = reading(b, c); script = {b, a}; scripti = 0;
        if (c) { zt_time_calibrate(); cu = us(a.ru_utime) - us(b.ru_utime); cs = us(a.ru_stime) - us(b.ru_stime); cal = cu + cs > 0; g.note("calibrate %ld %ld", (long)cu, (long)cs); continue; }
        int k = (int)g.u(4); time_result t; memset(&t, 0x5a, sizeof t); size_t one = 1; calls = 0; void *r = zt_time(k, &t, k ? scriptcall : NULL, &one); CHECK(calls == k, "%d calls of %d (1000 more for each outside the readings)", calls, k); CHECK(r == (k ? &one : NULL));
        wide wu = us(a.ru_utime) - us(b.ru_utime) - cu, ws = us(a.ru_stime) - us(b.ru_stime) - cs; g.note("measure %d calls: %ld %ld", k, (long)wu, (long)ws); CHECK(us(t.usr_time) == wu && us(t.sys_time) == ws, "measured %ld %ld want %ld %ld", (long)us(t.usr_time), (long)us(t.sys_time), (long)wu, (long)ws); CHECK(t.usr_time.tv_usec >= 0 && t.usr_time.tv_usec < 1000000 && t.sys_time.tv_usec >= 0 && t.sys_time.tv_usec < 1000000, "not normalised"); if (cal) g.nontrivial();
        if (g.chance(1, 4)) {
            scripted = false; unlink("time.log"); zt_log_ty *l = zt_log_file((char *)"time.log", ZT_LOG_FILE_OVERWRITE, ZT_LOG_RAW), *old = zt_log_logger(l); std::string nm = g.str("abc", 8) + "x"; int cnt = (int)g.u(3) * (g.coin() ? 1 : 1000); CStr cn(nm); zt_time_print_result(&t, cn, cnt); zt_log_logger(old); zt_log_close(l); FILE *f = fopen("time.log", "r"); CHECK(f != NULL); char o[600]; size_t m = fread(o, 1, 599, f); fclose(f); o[m] = 0; scripted = true;
            std::string s = o; size_t at = s.find(nm); CHECK(at != s.npos, "no name in %s", show(s).c_str()); if (cnt > 1) CHECK(s.find(std::to_string(cnt)) < at, "no count in %s", show(s).c_str()); double v[3]; const char *p = o + at + nm.size(); for (int i = 0; i < 3; i++) { while (*p && !isdigit((unsigned char)*p) && *p != '-') p++; char *e; v[i] = strtod(p, &e); CHECK(e != p, "%d times in %s", i, show(s).c_str()); p = e; }
            double U = (double)us(t.usr_time) / 1e6, S = (double)us(t.sys_time) / 1e6; CHECK(fabs(v[0] - U) < .0051 && fabs(v[1] - S) < .0051 && fabs(v[2] - U - S) < .0051, "printed %g %g %g want %g %g", v[0], v[1], v[2], U, S); g.label("printed");
        }
    }
}

// usleep is replaced by the library's header
static double pausing(int k, int a, int b, int c) { struct timespec t0, t1; alarm(20); clock_gettime(CLOCK_MONOTONIC, &t0); switch (k) { case 0: usleep(a); break; case 1: usleep(a + b); break; case 2: usleep(a - b); break; case 3: usleep(c ? a : b); break; case 4: usleep(a << c); break; default: if (c) usleep(a | b); } clock_gettime(CLOCK_MONOTONIC, &t1); alarm(0); return (double)(t1.tv_sec - t0.tv_sec) + (double)(t1.tv_nsec - t0.tv_nsec) / 1e9; }
P(T01, pause, 1500, 20000, 100, "pausing for times written as expressions: not shorter, and in the best of three tries not a second longer; non-trivial = the expression has an operator") {
    int k = (int)g.u(5), a = (int)g.u(g.chance(1, 20) ? 20000 : 300), b = (int)g.u(300), c = (int)g.u(1); long w; switch (k) { case 0: w = a; break; case 1: w = a + b; break; case 2: a += b; w = a - b; break; case 3: w = c ? a : b; break; case 4: w = (long)a << c; break; default: w = c ? a | b : 0; } g.note("form %d of %d, %d, %d: %ld microseconds", k, a, b, c, w); if (k) g.nontrivial();
    double best = 1e9; for (int i = 0; i < 3 && best > (double)w / 1e6 + 1; i++) { double d = pausing(k, a, b, c); CHECK(d > (double)w / 1e6 - 1e-4, "%f seconds where %ld microseconds are due", d, w); best = std::min(best, d); } CHECK(best < (double)w / 1e6 + 1, "%f seconds where %ld microseconds are due", best, w);
}
