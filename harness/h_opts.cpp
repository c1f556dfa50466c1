#include <sanitizer/allocator_interface.h>
// command line options
#include "pbt.h"
#include <functional>
#include "zthdr.h"
extern "C" {
#include <libzt/zt_opts.h>
}
extern "C" int zt_opt_int(int, int, int *, char **, zt_opt_def_t *, zt_opt_error) __attribute__((weak)); // may be missing
enum { FLAG, LONG, INT, INTMAX, BOOL, STR, ARR, CUST, TAKE2, NULLCB, NT };
static const char *TN[] = {"flag", "long", "int", "intmax", "bool", "string", "array", "custom", "take2", "null"};
struct Err { int code; std::string s; };
static std::vector<Err> errs; static int errret;
static int onerr(int code, char *fmt_, ...) { char b[4000]; va_list ap; va_start(ap, fmt_); b[0] = 0; if (fmt_) vsnprintf(b, sizeof b, fmt_, ap); va_end(ap); errs.push_back({code, b}); return errret; }
struct Call { int argn, defn; std::string v; };
static std::vector<Call> calls; static int custret; static int wantargc; static char **wantargv; static zt_opt_def_t *wantdef;
static void common(int argn, int *argc, char **argv, zt_opt_def_t *def, zt_opt_error e) { CHECK(argv == wantargv && *argc == wantargc && def == wantdef && e == onerr, "callback arguments"); CHECK(argn > 0 && argn < *argc); }
static std::function<void()> nested; static int depth; static void nest() { if (nested && !depth) { depth = 1; nested(); depth = 0; } }
static int custcb(int argn, int defn, int *argc, char **argv, zt_opt_def_t *def, zt_opt_error e) { common(argn, argc, argv, def, e); calls.push_back({argn, defn, ""}); nest(); return custret; }
static int take2cb(int argn, int defn, int *argc, char **argv, zt_opt_def_t *def, zt_opt_error e) { common(argn, argc, argv, def, e); int n = 0; char *v = zt_opt_get_value(argn, defn, argv, def, &n, e); calls.push_back({argn, defn, v ? v : "(none)"}); nest(); return n; }
// an option given twice leaves its earlier copy to the caller: when leaks are looked for, this caller releases it
static int strcb(int argn, int defn, int *argc, char **argv, zt_opt_def_t *def, zt_opt_error e) { char **p = (char **)def[defn].cb_data, *old = *p; int r = zt_opt_string(argn, defn, argc, argv, def, e); if (*p != old) free(old); return r; }
struct Opt { int t; int s; std::string l; long lv; int iv; intmax_t mv; char *sv; char **av; };
struct Tab { std::vector<Opt> o; std::vector<zt_opt_def_t> d; std::vector<std::unique_ptr<CStr>> keep;
    void build() { d.resize(o.size() + 1); memset((void *)&d[o.size()], 0, sizeof d[0]); for (size_t i = 0; i < o.size(); i++) { Opt &x = o[i]; d[i].sopt = (char)x.s; d[i].lopt = NULL; if (!x.l.empty()) { keep.emplace_back(new CStr(x.l)); d[i].lopt = keep.back()->p; } d[i].arg = NULL; d[i].help = (char *)"help"; x.lv = x.iv = 0; x.mv = 0; x.sv = NULL; x.av = NULL;
        switch (x.t) { case FLAG: d[i].cb = zt_opt_flag_int; d[i].cb_data = &x.iv; break; case LONG: d[i].cb = zt_opt_long; d[i].cb_data = &x.lv; break; case INT: CHECK(zt_opt_int != NULL, "zt_opt_int is declared but does not exist"); d[i].cb = zt_opt_int; d[i].cb_data = &x.iv; break; 
#ifdef HAVE_INTTYPES_H
        case INTMAX: d[i].cb = zt_opt_intmax; d[i].cb_data = &x.mv; break;
#endif
        case BOOL: d[i].cb = zt_opt_bool_int; d[i].cb_data = &x.iv; break; case STR: d[i].cb = pbt::leakmode ? strcb : zt_opt_string; d[i].cb_data = &x.sv; break; case ARR: d[i].cb = zt_opt_string_array; d[i].cb_data = &x.av; break; case CUST: d[i].cb = custcb; d[i].cb_data = NULL; break; case TAKE2: d[i].cb = take2cb; d[i].cb_data = NULL; break; default: d[i].cb = zt_opt_null; d[i].cb_data = NULL; } } }
    ~Tab() { for (auto &x : o) { free(x.sv); if (x.av) { for (char **p = x.av; *p; p++) free(*p); free(x.av); } } }
};
static const char LET[] = "abcdefghXYZ0123456789";
static void mktab(Gen &g, Tab &t) {
    int n = 1 + (int)g.u(9); std::string used; std::set<std::string> ul;
    for (int i = 0; i < n; i++) { Opt x; x.t = (int)g.u(NT - 1);
#ifndef HAVE_INTTYPES_H
        if (x.t == INTMAX) x.t = LONG;
#endif
        x.s = ZT_OPT_NSO; int k = (int)g.u(3); if (k != 1) { char c; int tr = 0; do c = LET[g.u(sizeof LET - 2)]; while (used.find(c) != std::string::npos && ++tr < 40); if (used.find(c) == std::string::npos) { x.s = c; used += c; } }
        if (k != 0 || x.s == ZT_OPT_NSO) { int tr = 0; do { x.l = g.coin() ? g.str("abcdefghXYZ0123-_", 6) : g.pick({std::string("long"), std::string("lon"), std::string("longer"), std::string("a"), std::string("flag"), std::string("string")}); if (x.l.empty() || x.l[0] == '-') x.l = "o" + x.l; } while (ul.count(x.l) && ++tr < 40); if (ul.count(x.l)) continue; ul.insert(x.l); }
        t.o.push_back(x); }
    if (t.o.empty()) { Opt x; x.t = FLAG; x.s = 'a'; x.l = "long"; t.o.push_back(x); }
    t.build();
}
static bool valued(int t) { return t != FLAG && t != CUST && t != NULLCB; }
struct Want { std::map<int, int> ints; std::map<int, intmax_t> longs; std::map<int, std::string> strs; std::map<int, std::vector<std::string>> arrs; std::vector<std::pair<int, std::string>> calls; };
static std::string goodval(Gen &g, Want &w, int i, int t) { // a value and its effect
    if (t == LONG || t == INT || t == INTMAX) { intmax_t v = t == INT ? (int)g.bits(32) : (intmax_t)(int64_t)g.bits(64); std::string s; switch (g.u(3)) { case 1: if (v >= 0) { s = fmt("0x%jx", v); break; } s = fmt("%jd", v); break; case 2: if (v >= 0) { s = fmt("0%jo", v); break; } s = fmt("%jd", v); break; default: s = fmt("%jd", v); } w.longs[i] = v; return s; }
    if (t == BOOL) { bool b = g.coin(); std::string s = b ? g.pick({std::string("t"), std::string("T"), std::string("y"), std::string("Y"), std::string("true"), std::string("yes"), std::string("TRUE"), std::string("Yes")}) : g.pick({std::string("f"), std::string("F"), std::string("n"), std::string("N"), std::string("false"), std::string("no"), std::string("False"), std::string("NO")}); w.ints[i] = b; return s; }
    std::string s = g.coin() ? g.str("abcdefghXYZ0123456789-= ", 8) : g.cstr(20); if (t == STR) w.strs[i] = s; else if (t == ARR) w.arrs[i].push_back(s); else w.calls.push_back({i, s}); return s;
}
static void noval(Want &w, int i, int t) { if (t == FLAG) w.ints[i]++; else if (t == CUST) w.calls.push_back({i, ""}); }
struct Argv { std::vector<std::unique_ptr<CStr>> s; std::vector<char *> v, orig; std::vector<std::string> txt; void add(const std::string &x) { s.emplace_back(new CStr(x)); v.push_back(s.back()->p); txt.push_back(x); } char **go() { v.push_back(NULL); orig = v; return v.data(); } size_t n() const { return txt.size(); }
    void same() { CHECK(v == orig, "argv was changed"); for (size_t i = 0; i < txt.size(); i++) CHECK(txt[i] == v[i], "argument %zu was changed", i); } std::string show_() { std::string r; for (size_t i = 1; i < txt.size(); i++) r += "[" + show(txt[i], 30) + "]"; return r; } };
// append a random correct command line, recording its meaning
static bool cmdline(Gen &g, Tab &t, Argv &a, Want &w, int n) {
    bool grouped = false; std::vector<int> fl; for (size_t i = 0; i < t.o.size(); i++) if (!valued(t.o[i].t) && t.o[i].s != ZT_OPT_NSO) fl.push_back((int)i);
    while (n-- > 0) { int i = (int)g.u(t.o.size() - 1); Opt &x = t.o[i]; bool sh = x.s != ZT_OPT_NSO && (x.l.empty() || g.coin());
        if (!sh) { if (!valued(x.t)) { a.add("--" + x.l); noval(w, i, x.t); } else { std::string v = goodval(g, w, i, x.t); if (g.coin()) a.add("--" + x.l + "=" + v); else { a.add("--" + x.l); a.add(v); } } continue; }
        std::string p = "-"; if (fl.size() && g.coin()) for (size_t k = g.u(4); k-- > 0;) { int f = fl[g.u(fl.size() - 1)]; if (valued(x.t) && t.o[f].s == x.s) continue; p += (char)t.o[f].s; noval(w, f, t.o[f].t); grouped = true; }
        p += (char)x.s; if (!valued(x.t)) { a.add(p); noval(w, i, x.t); } else { std::string v = goodval(g, w, i, x.t); switch (g.u(2)) { case 0: a.add(p); a.add(v); break; case 1: a.add(p + "=" + v); break; default: if (v.empty() || v[0] == '=') a.add(p), a.add(v); else { a.add(p + v); grouped = true; } } } }
    return grouped;
}
static void verify(Tab &t, Want &w) {
    for (size_t i = 0; i < t.o.size(); i++) { Opt &x = t.o[i]; int k = (int)i; std::string nm = fmt("option %zu (-%c --%s, %s)", i, x.s == ZT_OPT_NSO ? '?' : x.s, x.l.c_str(), TN[x.t]); switch (x.t) {
        case FLAG: case BOOL: CHECK(x.iv == (w.ints.count(k) ? w.ints[k] : 0), "%s: %d", nm.c_str(), x.iv); break; case INT: CHECK(x.iv == (w.longs.count(k) ? w.longs[k] : 0), "%s: %d", nm.c_str(), x.iv); break; case LONG: CHECK(x.lv == (w.longs.count(k) ? w.longs[k] : 0), "%s: %ld", nm.c_str(), x.lv); break; case INTMAX: CHECK(x.mv == (w.longs.count(k) ? w.longs[k] : 0), "%s: %jd", nm.c_str(), x.mv); break;
        case STR: if (!w.strs.count(k)) { CHECK(x.sv == NULL, "%s set", nm.c_str()); } else CHECK(x.sv && w.strs[k] == x.sv, "%s: '%s' want '%s'", nm.c_str(), x.sv ? show(x.sv).c_str() : "(null)", show(w.strs[k]).c_str()); break;
        case ARR: { size_t n = 0; if (x.av) while (x.av[n]) n++; CHECK(n == w.arrs[k].size(), "%s: %zu values want %zu", nm.c_str(), n, w.arrs[k].size()); for (size_t j = 0; j < n; j++) CHECK(w.arrs[k][j] == x.av[j], "%s: value %zu", nm.c_str(), j); } } }
    CHECK(calls.size() == w.calls.size(), "callbacks ran %zu times, %zu expected", calls.size(), w.calls.size()); for (size_t i = 0; i < calls.size(); i++) { CHECK(calls[i].defn == w.calls[i].first && calls[i].v == w.calls[i].second, "callback %zu: option %d with '%s', expected option %d with '%s'", i, calls[i].defn, show(calls[i].v).c_str(), w.calls[i].first, show(w.calls[i].second).c_str()); }
}
static std::string desc(Tab &t) { std::string r; for (auto &x : t.o) r += fmt("{%s%s%s %s}", x.s == ZT_OPT_NSO ? "" : fmt("-%c", x.s).c_str(), x.s != ZT_OPT_NSO && !x.l.empty() ? "," : "", x.l.empty() ? "" : ("--" + x.l).c_str(), TN[x.t]); return r; }
static int run(Tab &t, Argv &a, int argc) { wantargv = a.go(); wantargc = argc; wantdef = t.d.data(); calls.clear(); errs.clear(); errret = 0; return zt_opt_process_args(&wantargc, wantargv, t.d.data(), NULL, onerr); }

P(O01, accept, 60000, 3000000, 200, "random option tables and command lines written in every form (long with = or separate value, short alone, grouped, with attached, = or separate value), followed or not by other arguments; every target, callback, the stop position and the untouched argv against the meaning the line was built from; non-trivial = a group or an attached value was used") {
    Tab t; mktab(g, t); Argv a; Want w; a.add("prog"); custret = 0; if (cmdline(g, t, a, w, (int)g.u(8))) g.nontrivial(); size_t stop = a.n(); if (g.coin()) { std::string s = g.str("abc=-", 6); if (s.empty() || s[0] == '-') s = "x" + s; if (g.chance(1, 8)) s = ""; a.add(s); Want dummy; cmdline(g, t, a, dummy, (int)g.u(3)); }
    int argc = (int)a.n(); g.note("%s: %s", desc(t).c_str(), a.show_().c_str()); int r = run(t, a, argc); CHECK(errs.empty(), "error %d '%s'", errs[0].code, errs[0].s.c_str()); CHECK(r == 0, "returned %d", r); CHECK(wantargc == (int)stop, "stopped at argument %d, the first one that is no option is %zu", wantargc, stop); a.same(); verify(t, w);
}
P(O01, resume, 20000, 600000, 200, "a command line of options, a word and more options processed in two calls as documented for sub-commands, both halves read fully; non-trivial = options on both sides") {
    Tab t; mktab(g, t); Argv a; Want w; a.add("prog"); custret = 0; cmdline(g, t, a, w, (int)g.u(5)); size_t stop = a.n(); a.add("command"); cmdline(g, t, a, w, (int)g.u(5)); int argc = (int)a.n(); g.note("%s: %s", desc(t).c_str(), a.show_().c_str()); if (stop > 1 && argc > (int)stop + 1) g.nontrivial();
    int r = run(t, a, argc); CHECK(r == 0 && errs.empty()); CHECK(wantargc == (int)stop, "stopped at %d want %zu", wantargc, stop); auto keep = calls; wantargv += stop; wantargc = argc - (int)stop; int n2 = wantargc; r = zt_opt_process_args(&wantargc, wantargv, t.d.data(), NULL, onerr); CHECK(r == 0 && errs.empty()); CHECK(wantargc == n2, "second half stopped at %d of %d", wantargc, n2); a.same(); verify(t, w);
}
P(O01, nested, 20000, 600000, 200, "a command line whose callbacks process another, generated command line (the options of a file, say) with a table of its own while they run; both mean what they mean alone; non-trivial = a callback ran the other one and either used a group or an attached value") {
    Tab t, u; mktab(g, t); mktab(g, u); Argv a, b; Want w, x; a.add("prog"); b.add("inner"); custret = 0; bool gr = cmdline(g, t, a, w, 1 + (int)g.u(7)); gr |= cmdline(g, u, b, x, (int)g.u(5)); if (g.coin()) b.add("word"); int ran = 0; char **bv = b.go(); g.note("%s: %s; within callbacks %s: %s", desc(t).c_str(), a.show_().c_str(), desc(u).c_str(), b.show_().c_str());
    nested = [&] { ran++; if (ran > 1) return; auto kc = calls; calls.clear(); auto ka = wantargv; auto kn = wantargc; auto kd = wantdef; wantargv = bv; wantargc = (int)b.n(); wantdef = u.d.data(); int r = zt_opt_process_args(&wantargc, bv, u.d.data(), NULL, onerr); CHECK(r == 0 && errs.empty(), "the inner line returned %d with %zu errors", r, errs.size()); verify(u, x); b.same(); calls = kc; wantargv = ka; wantargc = kn; wantdef = kd; };
    int argc = (int)a.n(), r; try { r = run(t, a, argc); } catch (...) { nested = nullptr; depth = 0; throw; } nested = nullptr; CHECK(r == 0 && errs.empty(), "returned %d with %zu errors", r, errs.size()); CHECK(wantargc == argc, "stopped at %d of %d", wantargc, argc); a.same(); verify(t, w); if (ran && gr) g.nontrivial();
}
P(O02, reject, 60000, 3000000, 200, "a correct command line with one defect at its end (unknown long or short option, alone or inside a group, a known name extended or cut short, a missing, malformed, empty or out-of-range value) is reported to the error handler with its code, values before it are kept and nothing is read past the arguments even when the handler returns; non-trivial = defect inside a group or a missing value") {
    Tab t; mktab(g, t); Argv a; Want w; a.add("prog"); custret = 0; cmdline(g, t, a, w, (int)g.u(5)); int kind = (int)g.u(5); std::string d; int code = EINVAL; int bad = -1; std::vector<int> fl, nums, bools, vals; for (size_t i = 0; i < t.o.size(); i++) { int ty = t.o[i].t; if (!valued(ty) && t.o[i].s != ZT_OPT_NSO) fl.push_back((int)i); if (ty == LONG || ty == INT || ty == INTMAX) nums.push_back((int)i); if (ty == BOOL) bools.push_back((int)i); if (valued(ty)) vals.push_back((int)i); }
    auto knownl = [&](const std::string &s) { for (auto &x : t.o) if (x.l == s) return true; return false; }; auto knowns = [&](char c) { for (auto &x : t.o) if (x.s == c) return true; return false; };
    auto with = [&](int i, const std::string &v) { Opt &x = t.o[i]; bool sh = x.s != ZT_OPT_NSO && (x.l.empty() || g.coin()); if (!sh) { if (g.coin()) a.add("--" + x.l + "=" + v); else { a.add("--" + x.l); a.add(v); } } else if (g.coin()) a.add(fmt("-%c=", x.s) + v); else { a.add(fmt("-%c", x.s)); a.add(v); } bad = i; };
    if (kind == 0 || (kind == 2 && fl.empty()) || (kind == 3 && nums.empty()) || (kind == 4 && bools.empty()) || (kind == 5 && vals.empty())) { std::string l; int i = (int)g.u(t.o.size() - 1); l = t.o[i].l; switch (g.u(3)) { case 0: l = g.str("abcdefgh", 8); break; case 1: l += g.pick({'x', 's', '-', '1'}); break; case 2: if (l.size() > 1) l.pop_back(); break; default: l = g.cstr(12); } size_t e = l.find('='); std::string nm = l.substr(0, e); if (nm.empty() || knownl(nm)) l = "unknown-option"; a.add("--" + l); d = "unknown long"; }
    else if (kind == 1) { char c; int tr = 0; do c = g.chance(1, 4) ? (char)(33 + g.u(93)) : "ijklmnopqrs%.,_"[g.u(14)]; while ((knowns(c) || c == '-') && ++tr < 50); if (knowns(c) || c == '-') c = '_'; a.add(std::string("-") + c); d = "unknown short"; }
    else if (kind == 2) { g.nontrivial(); std::string p = "-"; for (size_t k = 1 + g.u(3); k-- > 0;) { int f = fl[g.u(fl.size() - 1)]; p += (char)t.o[f].s; noval(w, f, t.o[f].t); } p += "ijklmnopqrs%"[g.u(11)]; if (g.coin()) { int f = fl[g.u(fl.size() - 1)]; p += (char)t.o[f].s; bad = f; } a.add(p); d = "unknown in a group"; }
    else if (kind == 3) { int i = nums[g.u(nums.size() - 1)]; std::string v; switch (g.u(4)) { case 0: v = ""; break; case 1: v = g.pick({std::string("x"), std::string("-"), std::string("+"), std::string("abc"), std::string(" ")}); break; case 2: v = std::to_string((int)g.u(1000)) + g.pick({'x', ' ', '.', '-', 'e'}); break; case 3: v = g.coin() ? "99999999999999999999" : "-9223372036854775809"; code = ERANGE; break; default: if (t.o[i].t == INT) { v = std::to_string(g.coin() ? (long)INT_MAX + 1 + (long)g.u(1ul << 40) : (long)INT_MIN - 1 - (long)g.u(1ul << 40)); code = ERANGE; } else v = "0x"; if (v == "0x") v = "7z"; } with(i, v); d = "bad number"; }
    else if (kind == 4) { int i = bools[g.u(bools.size() - 1)]; with(i, g.pick({std::string("x"), std::string(""), std::string("maybe"), std::string("truee"), std::string("tr"), std::string("ye"), std::string("0"), std::string("1"), std::string("on"), std::string("noo"), std::string("t "), std::string("t x"), std::string("y foo"), std::string("f "), std::string("n\t"), std::string("yes "), std::string(" yes"), std::string("false."), std::string("no no"), std::string("T1"), std::string("y="), std::string("True "), std::string("yess"), std::string("fals")})); d = "bad boolean"; }
    else { g.nontrivial(); int i = vals[g.u(vals.size() - 1)]; Opt &x = t.o[i]; bool sh = x.s != ZT_OPT_NSO && (x.l.empty() || g.coin()); std::string p = "-"; if (!sh) p = "--" + x.l; else { if (fl.size() && g.coin()) { int f = fl[g.u(fl.size() - 1)]; if (t.o[f].s != x.s) { p += (char)t.o[f].s; noval(w, f, t.o[f].t); } } p += (char)x.s; } a.add(p); bad = i; d = "missing value"; }
    int argc = (int)a.n(); g.note("%s: %s (%s)", desc(t).c_str(), a.show_().c_str(), d.c_str()); int r = run(t, a, argc); CHECK(!errs.empty(), "%s: no error reported", d.c_str()); CHECK(errs[0].code == code, "%s: code %d want %d", d.c_str(), errs[0].code, code); CHECK(!errs[0].s.empty() || errs[0].code, "no message"); CHECK(r <= 0); if (r == 0) CHECK(wantargc >= 1 && wantargc <= argc, "%s: argc became %d of %d", d.c_str(), wantargc, argc); a.same();
    if (bad >= 0) { // the option of the defect itself is left open
        w.ints.erase(bad); w.longs.erase(bad); w.strs.erase(bad); w.arrs.erase(bad); Opt &x = t.o[bad]; x.iv = 0; x.lv = 0; x.mv = 0; free(x.sv); x.sv = NULL; if (x.av) { for (char **p = x.av; *p; p++) free(*p); free(x.av); x.av = NULL; } auto strip = [&](auto &v, auto key) { v.erase(std::remove_if(v.begin(), v.end(), [&](auto &c) { return key(c) == bad; }), v.end()); }; strip(w.calls, [](auto &c) { return c.first; }); strip(calls, [](auto &c) { return c.defn; }); }
    verify(t, w);
}
P(O02, exits, 300, 4000, 10, "with the default error handler a defective line ends the program with the error code and a message on stderr, a correct one does not, and help prints and ends it; non-trivial = defective") {
    Tab t; mktab(g, t); int kind = (int)g.u(2); Opt h; h.t = NULLCB; h.s = '?'; t.o.push_back(h); t.d.clear(); t.keep.clear(); t.build(); t.d[t.o.size() - 1].sopt = 'H'; t.d[t.o.size() - 1].cb = zt_opt_help_stdout; t.d[t.o.size() - 1].cb_data = (void *)"[stuff]"; Argv a; Want w; a.add("prog"); custret = 0; for (size_t i = 0; i + 1 < t.o.size(); i++) if (t.o[i].t == CUST || t.o[i].t == TAKE2) { t.o[i].t = FLAG; t.d[i].cb = zt_opt_flag_int; t.d[i].cb_data = &t.o[i].iv; } if (kind == 1) a.add("--no-such-option"); if (kind == 2) a.add("-H"); g.note("%s: %s", desc(t).c_str(), a.show_().c_str()); if (kind == 1) g.nontrivial(); char **av = a.go(); int argc = (int)a.n(); fflush(NULL);
    pid_t p = fork(); if (!p) { int f = open("out", O_CREAT | O_TRUNC | O_WRONLY, 0600), e = open("err", O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(f, 1); dup2(e, 2); int r = zt_opt_process(&argc, av, t.d.data()); fflush(NULL); _exit(r == 0 ? 0 : 99); }
    int st; waitpid(p, &st, 0); CHECK(WIFEXITED(st), "status %x", st); struct stat so, se; stat("out", &so); stat("err", &se); if (kind == 0) { CHECK(WEXITSTATUS(st) == 0); CHECK(se.st_size == 0 && so.st_size == 0); } else if (kind == 1) { CHECK(WEXITSTATUS(st) == EINVAL, "exit status %d", WEXITSTATUS(st)); CHECK(se.st_size > 0, "no message"); } else { CHECK(WEXITSTATUS(st) == 255, "help ended with %d", WEXITSTATUS(st)); CHECK(so.st_size > 10 && se.st_size == 0); }
}
P(O02, abort, 20000, 600000, 200, "a callback that returns a negative number stops processing at once and its number is returned; non-trivial = options follow it") {
    Tab t; mktab(g, t); Argv a; Want w; a.add("prog"); custret = 0; Opt c; c.t = CUST; c.s = 'Q'; t.o.push_back(c); t.d.clear(); t.keep.clear(); t.build(); for (auto &x : t.o) if (x.t == CUST && x.s != 'Q') { x.t = NULLCB; } for (size_t i = 0; i < t.o.size(); i++) if (t.o[i].t == NULLCB) t.d[i].cb = zt_opt_null; Tab *tp = &t; (void)tp; Opt keep = t.o.back(); t.o.pop_back(); cmdline(g, t, a, w, (int)g.u(5)); a.add("-Q"); Want none; size_t n = a.n(); cmdline(g, t, a, none, (int)g.u(4)); if (a.n() > n) g.nontrivial(); t.o.push_back(keep); custret = -1 - (int)g.u(200); w.calls.push_back({(int)t.o.size() - 1, ""}); g.note("%s: %s", desc(t).c_str(), a.show_().c_str()); int r = run(t, a, (int)a.n()); CHECK(r == custret, "returned %d want %d", r, custret); CHECK(errs.empty()); a.same(); verify(t, w); custret = 0;
}
P(O02, tables, 40000, 1000000, 200, "option tables with and without one defect (duplicate short or long name, no name at all, no help, a short name that is no letter or digit): exactly the defective ones are reported before any argument is read; non-trivial = defective") {
    Tab t; mktab(g, t); int kind = (int)g.u(5); size_t i = g.u(t.o.size() - 1), j = g.u(t.o.size() - 1); bool bad = false; std::string d = "valid"; if (kind == 1 && i != j && t.d[i].sopt != ZT_OPT_NSO) { t.d[j].sopt = t.d[i].sopt; bad = true; d = "duplicate short"; } else if (kind == 2 && i != j && t.d[i].lopt) { t.keep.emplace_back(new CStr(t.d[i].lopt)); t.d[j].lopt = t.keep.back()->p; bad = true; d = "duplicate long"; } else if (kind == 3) { t.d[i].sopt = ZT_OPT_NSO; t.d[i].lopt = NULL; bad = true; d = "no name"; } else if (kind == 4) { t.d[i].help = NULL; bad = true; d = "no help"; } else if (kind == 5) { int c; do c = (int)g.range(-128, 127); while (isalnum((unsigned char)c) || c == ZT_OPT_NSO); t.d[i].sopt = (char)c; bad = true; d = fmt("short name %d", c); }
    g.note("%s #%zu/%zu: %s", desc(t).c_str(), i, j, d.c_str()); if (bad) g.nontrivial(); errs.clear(); errret = 0; zt_opt_validate_default(t.d.data(), onerr); CHECK(errs.empty() == !bad, "%s: %zu errors", d.c_str(), errs.size()); for (auto &e : errs) CHECK(e.code == EINVAL && !e.s.empty()); Argv a; a.add("prog"); if (!bad) { int r = run(t, a, 1); CHECK(r == 0 && errs.empty() && wantargc == 1); } else { run(t, a, 1); CHECK(!errs.empty(), "processing does not validate"); }
    if (kind == 3) { fflush(stdout); int save = dup(1), f = open("/dev/null", O_WRONLY); dup2(f, 1); close(f); errs.clear(); char *av[2] = {a.go()[0], NULL}; int ac = 1, u = zt_opt_usage(av[0], NULL, t.d.data()); t.d[j].cb_data = NULL; int h = zt_opt_help_stdout(0, (int)j, &ac, av, t.d.data(), onerr); fflush(stdout); dup2(save, 1); close(save); CHECK(u < 0 && h < 0, "usage of a table with a nameless option returned %d, help %d", u, h); CHECK(!errs.empty() && !errs[0].s.empty(), "help does not report it"); }
}
static std::vector<std::string> words(const std::string &s) { std::vector<std::string> v; std::string c; for (char ch : s + " ") if (ch == ' ' || ch == '\n') { if (!c.empty()) v.push_back(c); c.clear(); } else c += ch; return v; }
P(O03, help, 20000, 600000, 50, "help and usage output for tables with help texts of 0..400 characters, words of any length and runs of blanks: every option name, argument and every word of every text appears, in order, on lines of at most 80 columns as far as words allow; non-trivial = a text longer than a line") {
    Tab t; mktab(g, t); std::vector<std::string> want; want.push_back("Usage:"); std::vector<std::unique_ptr<CStr>> keep; bool longword = false, wide = false;
    std::string nm = g.str("abc", 8) + "p", head = g.coin() ? "[options]" : ""; want.push_back(nm); if (!head.empty()) want.push_back(head); want.push_back("Options:");
    for (size_t i = 0; i < t.o.size(); i++) { std::string h; int n = (int)g.u(g.coin() ? 4 : 40); for (int k = 0; k < n; k++) { size_t len = 1 + g.u(g.chance(1, 30) ? 120 : 9); if (g.chance(1, 12)) len = 48 + g.u(4); std::string wd; for (size_t q = 0; q < len; q++) wd += (char)('a' + (q + (size_t)k) % 26); if (k || g.chance(1, 10)) h += std::string(1 + (g.chance(1, 8) ? g.u(60) : 0), ' '); h += wd; } if (g.chance(1, 10)) h += "  "; keep.emplace_back(new CStr(h)); t.d[i].help = keep.back()->p; std::string ar = g.coin() ? "<value>" : ""; if (ar.size()) t.d[i].arg = (char *)"<value>"; if (h.size() > 50) g.nontrivial();
        std::string o; if (t.d[i].sopt != ZT_OPT_NSO) o += fmt("-%c", t.d[i].sopt); if (t.d[i].sopt != ZT_OPT_NSO && t.d[i].lopt) o += ","; if (o.size()) want.push_back(o); if (t.d[i].lopt) want.push_back(std::string("--") + t.d[i].lopt); if (ar.size()) want.push_back(ar); for (auto &x : words(h)) { if (x.size() > 50) longword = true; } want.push_back("\x01" + h); }
    g.note("%s", desc(t).c_str()); fflush(stdout); int save = dup(1), f = open("out", O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(f, 1); close(f); CStr cn(nm), ch(head); int r; bool viahelp = g.coin(); errs.clear(); errret = 0; if (viahelp) { zt_opt_def_t *d = t.d.data(); char *av[2] = {cn.p, NULL}; int ac = 1; size_t k = g.u(t.o.size() - 1); d[k].cb_data = head.empty() ? NULL : (void *)ch.p; r = zt_opt_help_stdout(0, (int)k, &ac, av, d, onerr); } else r = zt_opt_usage(cn.p, head.empty() ? NULL : ch.p, t.d.data()); fflush(stdout); dup2(save, 1); close(save);
    CHECK(r == 0, "returned %d", r); if (viahelp) CHECK(errs.size() == 1 && errs[0].code == 0, "help asks the handler to end the program"); FILE *fp = fopen("out", "r"); std::string out; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0) out.append(b, n); fclose(fp);
    // words of a help text may be broken only when longer than a line: compare the text without blanks, and word by word otherwise
    std::vector<std::string> ww; for (auto &x : want) if (x[0] == 1) { for (auto &y : words(x.substr(1))) ww.push_back(y); } else ww.push_back(x); std::string all, got; for (auto &x : ww) all += x; for (auto &x : words(out)) got += x; CHECK(all == got, "text differs:\n%s", out.c_str()); if (!longword) CHECK(words(out) == ww, "words were broken:\n%s", out.c_str());
    size_t p = 0; int ln = 0; while (p < out.size()) { size_t e = out.find('\n', p); CHECK(e != std::string::npos, "last line not ended"); if (ln >= 2 && e - p > 85) { /* only a long option column may push a line out */ std::string line = out.substr(p, e - p); bool namecol = line.find("--") != std::string::npos || line.find("<value>") != std::string::npos; if (!namecol && !wide) CHECK(e - p <= 95, "line of %zu columns: %s", e - p, line.c_str()); } p = e + 1; ln++; }
}
P(O03, errors, 20000, 600000, 200, "error texts carry their code, the system text of the code and the formatted message whole, for messages up to 3000 characters; all cases non-trivial") {
    int code = (int)g.u(140); std::string m = g.cstr(g.chance(1, 5) ? 3000 : 60); int k = (int)g.bits(32); CStr c(m); char *s = zt_opt_error_str(code, (char *)"%s|%d", c.p, k); CHECK(s != NULL); std::string w = fmt("error: { code: %d, string: \"%s: ", code, code ? strerror(code) : "") + m + fmt("|%d\" }", k); CHECK(w == s, "got %s want %s", show(s).c_str(), show(w).c_str()); free(s); g.note("code %d, %zu characters", code, m.size()); g.nontrivial();
}
static int verr(int code, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = zt_opt_verror_default(code, (char *)fmt, ap); va_end(ap); return r; }
P(O03, reports, 20000, 400000, 200, "the default error handlers with any code, message and none: one line with the error text on stderr, the code returned; without code and message nothing is written and -1 returned; memory given back; non-trivial = a message was written") {
    int code = g.chance(1, 3) ? 0 : (int)g.u(140), k = (int)g.bits(32), form = (int)g.u(3); bool v = g.coin(); std::string m = g.cstr(g.chance(1, 5) ? 3000 : 60); CStr c(m); g.note("code %d form %d%s %s", code, form, v ? " list" : "", show(m, 40).c_str());
    std::string body = form == 0 ? "" : form == 1 ? m + fmt("|%d", k) : form == 2 ? std::string("plain") : m; fflush(stderr); int save = dup(2), f = open("err", O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(f, 2); int r; (void)strerror(code); size_t h0 = __sanitizer_get_current_allocated_bytes();
    if (form == 0) r = v ? verr(code, NULL) : zt_opt_error_default(code, NULL); else if (form == 1) r = v ? verr(code, "%s|%d", c.p, k) : zt_opt_error_default(code, (char *)"%s|%d", c.p, k); else if (form == 2) r = v ? verr(code, "plain") : zt_opt_error_default(code, (char *)"plain"); else r = v ? verr(code, "%.*s", (int)m.size(), c.p) : zt_opt_error_default(code, (char *)"%.*s", (int)m.size(), c.p);
    size_t h1 = __sanitizer_get_current_allocated_bytes(); fflush(stderr); dup2(save, 2); close(save); std::string got; char b[4096]; ssize_t n; lseek(f, 0, SEEK_SET); while ((n = read(f, b, sizeof b)) > 0) got.append(b, (size_t)n); close(f); unlink("err"); CHECK(h1 == h0, "%zd bytes are not given back", (ssize_t)(h1 - h0));
    if (!code && form == 0) { CHECK(r == -1, "no code and no message give %d", r); CHECK(got.empty(), "no code and no message write %s", show(got).c_str()); return; }
    CHECK(r == code, "code %d gives %d", code, r); std::string w = fmt("error: { code: %d, string: \"%s: ", code, code ? strerror(code) : ""), e = "\" }\n"; g.nontrivial();
    if (form == 0) CHECK(got.compare(0, w.size(), w) == 0 && got.size() >= w.size() + e.size() && got.compare(got.size() - e.size(), e.size(), e) == 0 && got.size() < w.size() + e.size() + 20, "written %s", show(got).c_str()); else CHECK(got == w + body + e, "written %s want %s", show(got).c_str(), show(w + body + e).c_str());
}
