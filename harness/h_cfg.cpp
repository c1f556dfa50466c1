// ini configuration: typed parsing, references, assignment, malformed files
#include "pbt.h"
#include "zthdr.h"
#include <sanitizer/allocator_interface.h>
static size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
#define NOLEAK(h0, what) do { size_t h1_ = heap(); CHECK(h1_ == (h0), "%s: %zd bytes of memory not given back", what, (ssize_t)(h1_ - (h0))); } while (0)

typedef std::pair<std::string, std::string> Key;
struct Val { zt_cfg_type t = zt_cfg_string; long i = 0; double f = 0; int b = 0; std::string s; Key r; };
typedef std::map<Key, Val> Model;
static const char *VARCH = "abcxyzABZ019_";
static void ins(Model &m, const Key &k, Val v) { // a string naming a known variable becomes a reference, unless it would lead back to itself
    Val &slot = m[k]; Val plain = v; slot = v; if (v.t != zt_cfg_string) return; size_t d = v.s.find('.'); if (d == std::string::npos) return; Key r(v.s.substr(0, d), v.s.substr(d + 1)); auto it = m.find(r); if (it == m.end()) return;
    Key c = r; while (m[c].t == zt_cfg_ref) c = m[c].r; if (c == k) return; slot.t = zt_cfg_ref; slot.r = r;
}
static bool refers(Model &m, const std::string &s) { size_t d = s.find('.'); return d != std::string::npos && m.count(Key(s.substr(0, d), s.substr(d + 1))); }
static bool numeric(const std::string &s) { char *e; size_t p = s.find_first_not_of(" \t+-"); if (p != std::string::npos && s[p] == '0' && p + 1 < s.size() && tolower(s[p + 1]) == 'b') return true; /* binary, if the C library knows it */ strtod(s.c_str(), &e); return !s.empty() && !*e; }
// a value: what it means and how a file writes it
static std::string rvalue(Gen &g, Model &m, const std::vector<Key> &keys, Val &v, bool file) {
    static const char *SC = "abz XY_-.,:/=!019\t";
    switch (g.u(file ? 6 : 5)) {
    case 0: { v.t = zt_cfg_int; v.i = (long)g.bits(64); std::string s; switch (g.u(3)) { case 0: case 1: s = std::to_string(v.i); if (v.i >= 0 && g.chance(1, 4)) s = "+" + s; break; case 2: v.i &= LONG_MAX; s = fmt(g.coin() ? "0x%lx" : "0X%lX", v.i); break; case 3: v.i &= LONG_MAX; s = fmt("0%lo", v.i); break; } if (g.chance(1, 12)) { /* a number no long can hold is the nearest float */ unsigned __int128 b = ((unsigned __int128)LONG_MAX + 1 + g.bits(64)) * (g.coin() ? 1 : 1 + g.u(1000)); s.clear(); bool hex = g.chance(1, 3); for (; b; b /= hex ? 16 : 10) s.insert(0, 1, "0123456789abcdef"[b % (hex ? 16 : 10)]); if (hex) s = "0x" + s; else if (g.coin() && s != "9223372036854775808") s = "-" + s; v = Val(); v.t = zt_cfg_float; v.f = strtod(s.c_str(), NULL); } return s; }
    case 1: { v.t = zt_cfg_float; std::string s; switch (g.u(3)) { case 0: s = fmt("%.*f", 1 + (int)g.u(8), (double)g.range(-1000000, 1000000) / 997.0); break; case 1: { uint64_t b = g.bits(64); double d; memcpy(&d, &b, 8); if (!(std::isfinite(d))) d = 1.5; s = fmt("%.17e", d); break; } case 2: s = fmt("%ld.", (long)g.range(-99, 99)); break; case 3: s = fmt(".%ld", (long)g.u(9999)); break; } v.f = strtod(s.c_str(), NULL); return s; }
    case 2: { v.t = zt_cfg_bool; std::string s = g.pick({"yes", "true", "no", "false"}); v.b = s[0] == 'y' || s[0] == 't'; for (auto &c : s) if (g.chance(1, 4)) c = (char)toupper(c); return s; }
    case 3: { v.t = zt_cfg_string; if (keys.size() && g.chance(4, 5)) { const Key &k = g.pick(keys); v.s = k.first + "." + k.second; if (file) v.s = v.s.substr(v.s.find_first_not_of(" \t")); if (file && v.s.size() > 900) v.s = "x" + v.s.substr(0, 900); } else v.s = "nowhere." + g.strn(VARCH, 2); return v.s; }
    case 4: { v.t = zt_cfg_string; v.s = g.str(SC, 40); if (v.s.empty()) v.s = "q"; if (g.chance(1, 12)) v.s = "z" + g.strn(SC, file ? 900 : 3000); if (numeric(v.s)) v.s += "k"; if (file) { while (v.s.size() && (v.s.back() == ' ' || v.s.back() == '\t')) v.s.pop_back(); size_t p = v.s.find_first_not_of(" \t"); v.s = p == std::string::npos ? "w" : v.s.substr(p); if (numeric(v.s)) v.s += "k"; } if (v.s.size() < 900 && g.chance(1, 8)) { char q = g.coin() ? '\'' : '"'; while (v.s.size() && v.s.back() == q) v.s.pop_back(); if (v.s.size()) v.s = q + v.s; else v.s = std::string(1, q); } return v.s; }
    default: { v.t = zt_cfg_string; const char *q = g.coin() ? "'" : "\""; v.s = g.str(*q == '\'' ? "ab ;#=\"[]019.\t" : "ab ;#='[]019.\t", 30); if (refers(m, v.s)) for (auto &c : v.s) if (c == '.') c = ','; return q + v.s + q; }
    }
}
static bool skipcheck(const Val &v) { return v.t == zt_cfg_string && (!strcasecmp(v.s.c_str(), "yes") || !strcasecmp(v.s.c_str(), "no")); }
static void verify(zt_cfg_ty *cfg, Model &m, const Key &k, bool *refseen) {
    CStr cb(k.first), cv(k.second); Key c = k; bool has = m.count(k) != 0; if (has) while (m[c].t == zt_cfg_ref) { c = m[c].r; *refseen = true; } Val w; if (has) w = m[c];
    for (int t = 0; t < 4; t++) { union { int b; long i; double f; char *s; unsigned char raw[8]; } o; memset(o.raw, 0x5a, 8); int r = t == 0 ? zt_cfg_get_bool(cfg, cb.p, cv.p, &o.b) : t == 1 ? zt_cfg_get_int(cfg, cb.p, cv.p, &o.i) : t == 2 ? zt_cfg_get_float(cfg, cb.p, cv.p, &o.f) : zt_cfg_get_string(cfg, cb.p, cv.p, &o.s);
        if (!has || (int)w.t != t) { CHECK(r < 0, "%s.%s read as type %d succeeded, it is %s %d", k.first.c_str(), show(k.second).c_str(), t, has ? "of type" : "absent", (int)w.t); for (auto c2 : o.raw) CHECK(c2 == 0x5a, "a failed get wrote its result"); continue; } if (t == 0) for (size_t q = sizeof(int); q < 8; q++) CHECK(o.raw[q] == 0x5a, "reading a boolean wrote more than an int");
        CHECK(r >= 0, "%s.%s of type %d cannot be read", k.first.c_str(), k.second.c_str(), t);
        switch (t) { case 0: CHECK(o.b == w.b, "%s.%s is %d want %d", k.first.c_str(), k.second.c_str(), o.b, w.b); break; case 1: CHECK(o.i == w.i, "%s.%s is %ld want %ld", k.first.c_str(), k.second.c_str(), o.i, w.i); break; case 2: CHECK(o.f == w.f, "%s.%s is %.17g want %.17g", k.first.c_str(), k.second.c_str(), o.f, w.f); break; case 3: CHECK(w.s == o.s, "%s.%s is %s want %s", k.first.c_str(), k.second.c_str(), show(o.s).c_str(), show(w.s).c_str()); break; } }
}
static std::string blanks(Gen &g) { return g.coin() ? "" : g.str(" \t", 4); }
// file text and its meaning
static std::string rfile(Gen &g, Model &m, std::vector<Key> &keys, int maxlines, bool *lastopen) {
    static const std::vector<std::string> BN = {"main", "main2", "b", "Global", "with space", "x=y", "c:c", "n[o", "7", " main", "main ", "  ", "mai", "MAIN", "a.b"}; std::string text, block = "Global"; int n = (int)g.u((uint64_t)maxlines); bool open = g.chance(1, 3);
    for (int i = 0; i < n; i++) {
        bool last = i == n - 1; std::string line; int k = (int)g.u(9);
        if (k == 0) { line = blanks(g); if (g.coin()) line += (g.coin() ? "#" : ";") + g.str("abc =[]'#;1", 30); }
        else if (k <= 2) { block = g.chance(1, 20) ? "L" + g.strn("abc", g.pick({1021, 1022, 900})) : g.chance(1, 8) ? std::string(g.pick({15, 31, 63, 64, 127, 128, 255}), 'P') + g.strn("ab", g.u(1)) : g.pick(BN); line = blanks(g) + "[" + block + "]" + (g.coin() ? "" : g.str("abc =[];#1", 10)); }
        else { Key key(block, keys.size() && g.chance(1, 3) ? g.pick(keys).second : g.chance(1, 8) ? "v" + std::string(g.pick({14, 15, 30, 31, 62, 63, 64, 126, 127, 128, 254, 255, 300}), 'p') + g.strn("ab", g.u(1)) : "v" + g.strn(VARCH, g.u(5))); Val v; std::string t = rvalue(g, m, keys, v, true); if (key.second.size() + t.size() > 930) key.second = "v"; line = key.second + blanks(g) + "=" + blanks(g) + t; if (line.size() < 980 && g.chance(1, 3)) line += (t[0] == '\'' || t[0] == '"' || g.coin() ? " " : "") + std::string(g.coin() ? ";" : "#") + g.str((t[0] == '\'' || t[0] == '"') && (t.size() < 2 || t.back() != t[0]) ? "abc =[]#;1" : "abc =[]'#;1", 20); else line += blanks(g); ins(m, key, v); keys.push_back(key); line = blanks(g) + line; if (last && open && line.size() > 1) *lastopen = true; }
        text += line; if (!(last && open)) text += "\n";
    }
    return text;
}
static void spit(const char *name, const std::string &s) { FILE *f = fopen(name, "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static void warm() { spit("warm", "a\n"); CHECK(zt_cfg_ini((char *)"warm", 0) == NULL); }

P(K01, file, 30000, 1500000, 100, "files of up to 25 lines (blocks met again, global part, comments, blank lines, every value class, quoting, references forward and backward, missing final newline) read with every type of every variable against a model; memory given back at the end; non-trivial = a reference was followed, a block was reopened or the last line had no newline") {
    Model m; std::vector<Key> keys; bool open = false, rf = false; std::string text = rfile(g, m, keys, 25, &open); g.note("%s", show(text, 1500).c_str()); std::string extra = "v" + g.strn(VARCH, 3); spit("c.ini", text); warm();
    std::vector<Key> all = keys; all.push_back(Key("main", extra)); all.push_back(Key("absent", "v")); all.push_back(Key("", "")); std::set<Key> u(keys.begin(), keys.end()); size_t h0 = heap(); { zt_cfg_ty *cfg = zt_cfg_ini((char *)"c.ini", 0); CHECK(cfg != NULL, "a well formed file is refused"); for (auto &k : all) verify(cfg, m, k, &rf); zt_cfg_close(cfg); }
    if (rf || open || u.size() < keys.size()) g.nontrivial(); NOLEAK(h0, "configuration");
}
struct COp { int k; Key key; Val v; std::string text; };
P(K02, history, 20000, 1000000, 100, "a file followed by 1..40 assignments of every type (long strings, exact doubles, every long, chains and would-be circles of references, type changes) and reads of everything after each against the model; memory given back at the end; non-trivial = a reference was followed after its target was assigned again") {
    Model m; std::vector<Key> keys; bool open = false; std::string text = rfile(g, m, keys, 8, &open); Model m0 = m; std::vector<Key> k0 = keys; std::vector<COp> ops; int n = 1 + (int)g.u(39);
    for (int i = 0; i < n; i++) { COp o; o.key = keys.size() && g.chance(2, 3) ? g.pick(keys) : Key(g.pick({"main", "b", "new", "Global", "a.b", " main"}), g.chance(1, 6) ? "v." + g.strn("ab.", g.u(3)) : g.chance(1, 8) ? std::string(g.pick({31, 63, 64, 127, 255, 256, 2000}), 'p') + g.strn("ab", g.u(1)) : "v" + g.strn("ab", g.u(2))); o.k = (int)g.u(3); if (o.k == 0) { o.v.t = zt_cfg_int; o.v.i = (long)g.bits(64); g.note("%s.%s=%ld ", o.key.first.c_str(), o.key.second.c_str(), o.v.i); } else if (o.k == 1) { o.v.t = zt_cfg_float; uint64_t b = g.bits(64); double d; if (g.coin()) d = (double)g.range(-100000, 100000) / (double)g.pick({1, 2, 8, 10, 1000, 997}); else memcpy(&d, &b, 8); if (d != d) d = 0.1; o.v.f = d; g.note("%s.%s=%.17g ", o.key.first.c_str(), o.key.second.c_str(), d); } else { o.text = rvalue(g, m, keys, o.v, false); g.note("%s.%s=%s ", o.key.first.c_str(), o.key.second.c_str(), show(o.text, 60).c_str()); } ins(m, o.key, o.v); keys.push_back(o.key); ops.push_back(o); }
    spit("c.ini", text); warm(); { Model scratch; } size_t h0 = heap(); bool nt = false; { Model q = m0; std::vector<Key> ks = k0; bool rf = false; zt_cfg_ty *cfg = zt_cfg_ini((char *)"c.ini", 0); CHECK(cfg != NULL); 
    for (auto &o : ops) { CStr b(o.key.first), v(o.key.second), t(o.text); int r; char *tp = t.p; if (o.k == 0) { long i = o.v.i; r = zt_cfg_set_int(cfg, b.p, v.p, &i); CHECK(i == o.v.i); } else if (o.k == 1) { double d = o.v.f; r = zt_cfg_set_float(cfg, b.p, v.p, &d); } else if (o.v.t == zt_cfg_bool) r = zt_cfg_set_bool(cfg, b.p, v.p, &tp); else r = zt_cfg_set_string(cfg, b.p, v.p, &tp);
        CHECK(r > 0, "assigning %s.%s failed", o.key.first.c_str(), o.key.second.c_str()); CHECK(o.text == t.p, "input modified"); ins(q, o.key, o.v); bool again = std::find(ks.begin(), ks.end(), o.key) != ks.end(); ks.push_back(o.key); rf = false; std::set<Key> u(ks.begin(), ks.end()); if (u.size() > 12) { verify(cfg, q, o.key, &rf); } else for (auto &k : u) verify(cfg, q, k, &rf); if (rf && again) nt = true; }
    std::set<Key> u(ks.begin(), ks.end()); for (auto &k : u) verify(cfg, q, k, &nt); zt_cfg_close(cfg); }
    if (nt) g.nontrivial(); NOLEAK(h0, "configuration");
}
P(K03, refused, 20000, 1000000, 100, "a well formed file with one malformed line put somewhere (no equals sign, empty value, over-long line or block name, block name without end) is refused and gives its memory back, as does a file that is not there; the same file without the line is accepted; non-trivial = variables came before the malformed line") {
    Model m; std::vector<Key> keys; bool open = false; std::string a = rfile(g, m, keys, 8, &open); if (a.size() && a.back() != '\n') a += "\n"; if (keys.size()) g.nontrivial(); Model m2; std::vector<Key> k2; std::string z = rfile(g, m2, k2, 4, &open), bad; bool nl = g.coin();
    switch (g.u(5)) { case 0: bad = "v" + g.str("abc 019[]'.", 20); break; case 1: bad = "v" + blanks(g) + "=" + (g.coin() ? "" : blanks(g)); nl = true; break; case 2: bad = "v = " + (g.coin() ? g.strn("abc ", 1024 + g.u(3000)) : g.strn("abc ", 1000) + g.strn("ab =#;\"", 24 + g.u(2000))) + "e"; nl = true; break; case 3: bad = "[" + g.strn("abc", 1024 + g.u(3000)) + "]"; break; case 4: bad = "[" + g.str("abc =1", 30); nl = true; break; default: bad = "[" + g.str("abc =1", 30); z = ""; nl = false; break; }
    if (!nl) z = ""; g.note("%s | %s", show(a, 300).c_str(), show(bad, 100).c_str()); spit("bad.ini", a + bad + (nl ? "\n" : "") + z); spit("good.ini", a + z); warm(); size_t h0 = heap(); zt_log_ty *lg = zt_log_file((char *)"cfg.log", ZT_LOG_FILE_OVERWRITE, ZT_LOG_RAW); CHECK(lg != NULL);
    zt_log_ty *old = zt_log_logger(lg); CHECK(zt_cfg_ini((char *)"bad.ini", 0) == NULL, "a malformed file is accepted"); zt_log_logger(old); zt_log_close(lg); { char o[300] = {0}; FILE *f = fopen("cfg.log", "r"); size_t n = fread(o, 1, 299, f); fclose(f); o[n] = 0; long at = 1 + (long)std::count(a.begin(), a.end(), '\n'), got = -1; for (char *p = o; *p; p++) if (isdigit((unsigned char)*p)) { got = strtol(p, &p, 10); break; } CHECK(got == at, "the malformed line is line %ld, the message says: %s", at, show(o).c_str()); }
    { long i = 5; char *s = NULL; CHECK(zt_cfg_get_int((zt_cfg_ty *)NULL, (char *)"a", (char *)"b", &i) == 0 && i == 5); CHECK(zt_cfg_set_int((zt_cfg_ty *)NULL, (char *)"a", (char *)"b", &i) == 0 && i == 5 && !s); zt_cfg_close(NULL); }
    NOLEAK(h0, "refused file"); CHECK(zt_cfg_ini((char *)"absent/none.ini", 0) == NULL); NOLEAK(h0, "absent file"); zt_cfg_ty *c = zt_cfg_ini((char *)"good.ini", 0); CHECK(c != NULL, "the file without the malformed line is refused"); zt_cfg_close(c); NOLEAK(h0, "good file");
}
P(K03, bytes, 40000, 3000000, 200, "arbitrary bytes and mutated files are accepted or refused without reading out of bounds, what is accepted can be read, assigned and closed, and all memory is given back; non-trivial = the file is accepted") {
    Model m; std::vector<Key> keys; bool open = false; std::string s; if (g.coin()) { s = rfile(g, m, keys, 8, &open); int k = 1 + (int)g.u(4); for (int i = 0; i < k && s.size(); i++) { size_t p = g.u(s.size() - 1); switch (g.u(2)) { case 0: s[p] = (char)g.u(255); break; case 1: s.erase(p, 1 + g.u(5)); break; case 2: s.insert(p, g.str("=[]'\"#;\n \t.\\\0x", 4)); break; } } } else if (g.coin()) s = g.str("ab=[]'\"#;\n \t.1", 60); else s = g.bytestr(200);
    g.note("%s", show(s, 600).c_str()); spit("f.ini", s); warm(); std::vector<Key> ks = keys; for (auto &b : {"Global", "a", "b", "", "ab"}) for (auto &v : {"a", "b", "ab", "", "1"}) ks.push_back(Key(b, v)); size_t h0 = heap(); zt_cfg_ty *c = zt_cfg_ini((char *)"f.ini", 0); if (c) { g.nontrivial(); for (auto &k : ks) { CStr b(k.first), v(k.second); int ok = 0; char *str = NULL; long i; double d; int bo; if (zt_cfg_get_string(c, b.p, v.p, &str) >= 0) { ok++; CHECK(strlen(str) < 4096); } ok += zt_cfg_get_int(c, b.p, v.p, &i) >= 0; ok += zt_cfg_get_float(c, b.p, v.p, &d) >= 0; ok += zt_cfg_get_bool(c, b.p, v.p, &bo) >= 0; CHECK(ok <= 1, "a variable has %d types", ok); } long nine = 9, got = 0; CHECK(zt_cfg_set_int(c, (char *)"a", (char *)"b", &nine) > 0); CHECK(zt_cfg_get_int(c, (char *)"a", (char *)"b", &got) >= 0 && got == 9); zt_cfg_close(c); } NOLEAK(h0, "configuration");
}
