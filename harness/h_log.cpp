// logging: line content, filtering, destinations, threads, syslog
#include "pbt.h"
#include "zthdr.h"
#include <sanitizer/allocator_interface.h>
#include <thread>
#include <atomic>
#include <fstream>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
static size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
#define NOLEAK(h0, what) do { size_t h1_ = heap(); CHECK(h1_ == (h0), "%s: %zd bytes of memory not given back", what, (ssize_t)(h1_ - (h0))); } while (0)
extern "C" {
#include <libzt/zt_log.h>
#include <libzt/zt_progname.h>
#include <libzt/zt_atexit.h>
#include <libzt/zt_log/log_syslog.h>
}
static std::string slurp(const char *f) { std::string s; FILE *p = fopen(f, "r"); if (!p) return "(absent)"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p); return s; }
static void spit(const char *name, const std::string &s) { FILE *f = fopen(name, "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }

// recorded system log
struct Sys { int prio; std::string text; }; static std::vector<Sys> *sysv; static std::string *sysident; static int sysopt, sysfac, sysopen;
extern "C" void openlog(const char *id, int opt, int fac) { if (sysident) *sysident = id ? id : "(null)"; sysopt = opt; sysfac = fac; sysopen++; }
extern "C" void closelog(void) { sysopen--; }
extern "C" void vsyslog(int prio, const char *f, va_list ap) { char b[9000]; vsnprintf(b, sizeof b, f, ap); if (sysv) sysv->push_back({prio, b}); }
extern "C" void __vsyslog_chk(int prio, int, const char *f, va_list ap) { vsyslog(prio, f, ap); }

// scripted time of day, per thread
static thread_local time_t clk; static thread_local bool clkset;
extern "C" time_t time(time_t *p) { time_t t = clk; if (!clkset) { struct timespec ts; clock_gettime(CLOCK_REALTIME_COARSE, &ts); t = ts.tv_sec; } if (p) *p = t; return t; }
static time_t rtime(Gen &g) { return (time_t)(g.coin() ? g.u(4102444800u) : g.pick({951782400, 951868799, 1709164800, 1735689599, 1735689600, 0, 86399, 86400}) + (long)g.u(20)); }

static const char *LEV[] = {"Emergency", "Alert", "Critical", "Error", "Warning", "Notice", "Info", "Debug"};
struct Msg { int how = 0, logger = 0, level = 0, form = 0, n = 0, err = 0; std::string s, t; bool dbg = false; std::string file, func; int line = 0; time_t when = 0; };
static Msg rmsg(Gen &g, int loggers) { Msg m; m.how = (int)g.u(2); m.logger = (int)g.u((uint64_t)loggers - 1); m.level = (int)g.u(7); m.form = (int)g.u(5); m.n = (int)g.bits(32); m.err = (int)g.pick({0, 1, 2, 13, 22, 36, 110, 133, 5000, -1}); m.s = g.chance(1, 20) ? g.strn("ab%s\t ", g.u(5000)) : g.str("abc%sdn \\:\"", 20); m.t = g.str("xyz%n", 6); m.dbg = g.chance(1, 3); if (m.dbg) { m.file = g.str("/ab.c%d", 20) + ".c"; m.func = g.str("fgh_%s:~", 12); m.line = g.chance(1, 4) ? (int)(g.bits(31) & 0x7fffffff) : (int)g.u(2000); } return m; }
static std::string body(const Msg &m) { switch (m.form) { case 0: return m.s; case 1: return m.t + "=" + fmt("%d", m.n); case 2: return fmt("%08x|%-*s|", (unsigned)m.n, 9, m.t.c_str()); case 3: return "100%"; case 4: return ""; default: return fmt("%.3f q %ld ", m.n / 7.0, (long)m.n * 3) + m.s; } }
static std::string debug(const Msg &m) { return m.dbg ? ": in " + m.func + " at (" + m.file + ":" + std::to_string(m.line) + ")" : ""; }
static void vcall(zt_log_ty *l, int level, const char *f, ...) { va_list ap; va_start(ap, f); zt_log_lvprintf(l, (zt_log_level)level, f, ap); va_end(ap); }
#define SEND(F) do { switch (m.form) { case 0: F("%s", m.s.c_str()); break; case 1: F("%s=%d", m.t.c_str(), m.n); break; case 2: F("%08x|%-*s|", (unsigned)m.n, 9, m.t.c_str()); break; case 3: F("100%%"); break; case 4: F("%s", ""); break; default: F("%.3f %c %ld %s", m.n / 7.0, 'q', (long)m.n * 3, m.s.c_str()); } } while (0)
static void send(zt_log_ty *l, const Msg &m) {
    if (m.dbg) { zt_log_set_debug_info(m.file.c_str(), m.line, m.func.c_str()); const char *f, *fn; int n; zt_log_get_debug_info(&f, &n, &fn); CHECK(f == m.file.c_str() && n == m.line && fn == m.func.c_str(), "debug information is not kept"); }
    zt_log_level lv = (zt_log_level)m.level; int err = m.err;
#define L1(...) zt_log_lprintf(l, lv, __VA_ARGS__)
#define L2(...) vcall(l, lv, __VA_ARGS__)
#define L3(...) zt_log_lstrerror(l, lv, err, __VA_ARGS__)
    if (m.how == 0) SEND(L1); else if (m.how == 1) SEND(L2); else SEND(L3);
    const char *f, *fn; int n; zt_log_get_debug_info(&f, &n, &fn); CHECK(f == NULL && fn == NULL, "debug information outlives its message");
}
static std::string prefix(unsigned opts, int level, const std::string &date, const std::string &prog) {
    std::string s; if (opts & ZT_LOG_WITH_DATE) s += date; if (opts & ZT_LOG_WITH_SYSNAME) { char h[300] = ""; gethostname(h, 254); std::string hn = h; hn = hn.substr(0, hn.find('.')); s += hn; if (opts > ZT_LOG_WITH_SYSNAME) s += " "; } if (opts & ZT_LOG_WITH_PROGNAME) s += prog; if (opts & ZT_LOG_WITH_PID) s += "[" + std::to_string(getpid()) + "]"; if (opts & ZT_LOG_WITH_LEVEL) { if (opts != ZT_LOG_WITH_LEVEL) s += ": "; s += LEV[level]; } if (opts) s += ": "; return s;
}
static std::string date(time_t t) { char b[100]; struct tm tm; localtime_r(&t, &tm); strftime(b, sizeof b, "%b %d %H:%M:%S ", &tm); return b; }
static std::string line(const Msg &m, unsigned opts, const std::string &d, const std::string &prog) { return prefix(opts, m.level, d, prog) + body(m) + (m.how == 2 ? std::string(": ") + strerror(m.err) : "") + debug(m) + "\n"; }
static void expect(const std::string &got, const std::vector<std::pair<const Msg *, unsigned>> &ms, const std::string &before, const std::string &prog, time_t t0, time_t t1, const char *what) {
    CHECK(got.compare(0, before.size(), before) == 0, "%s: earlier content is gone", what); size_t p = before.size();
    for (auto &x : ms) { bool ok = false; std::string w; for (time_t t = x.first->when ? x.first->when : t0; t <= (x.first->when ? x.first->when : t1) && !ok; t++) { w = line(*x.first, x.second, date(t), prog); if (got.compare(p, w.size(), w) == 0) ok = true; } CHECK(ok, "%s holds %s where %s is due", what, show(got.substr(p, 300), 300).c_str(), show(w, 300).c_str()); p += w.size(); }
    CHECK(p == got.size(), "%s has more: %s", what, show(got.substr(p, 300)).c_str());
}
struct LOp { int k; int who; int v; Msg m; };
static const int NLOG = 4; // three files and the standard error stream
P(L01, lines, 20000, 800000, 50, "histories of 1..25 messages by every call and format on three files (appending or overwriting) and standard error with changing prefix options, levels and default logger, with or without debug information, compared byte for byte; memory given back; non-trivial = two or more prefix parts and debug information in one line") {
    std::vector<LOp> ops; int n = 1 + (int)g.u(24); bool rich = false; std::string prog = g.chance(1, 5) ? g.str("ab%d s", 8) + "p" : g.str("/prog-x.", 10) + "q"; g.note("prog %s ", prog.c_str()); unsigned opts[NLOG]; std::vector<unsigned> o0; bool app[3], had[3]; std::string init[3]; for (int i = 0; i < NLOG; i++) { opts[i] = (unsigned)g.u(31); o0.push_back(opts[i]); } for (int i = 0; i < 3; i++) { app[i] = g.coin(); had[i] = g.coin(); init[i] = had[i] ? g.str("old\n", 20) : ""; }
    for (int i = 0; i < n; i++) { LOp o; o.k = g.chance(1, 4) ? 1 + (int)g.u(2) : 0; o.who = (int)g.u(NLOG - 1); o.v = o.k == 1 ? (int)g.u(31) : (int)g.u(8); if (o.k == 0) { o.m = rmsg(g, NLOG); if (g.coin()) o.m.when = rtime(g); g.note("log%d(how %d level %d form %d%s) ", o.m.logger, o.m.how, o.m.level, o.m.form, o.m.dbg ? " dbg" : ""); if (o.m.how == 2) g.label("strerror"); } else g.note("%s%d=%d ", o.k == 1 ? "opts" : o.k == 2 ? "level" : "default", o.who, o.v); ops.push_back(o); }
    setenv("TZ", g.pick({"UTC", "EST5EDT", "<+0545>-5:45", "<-03>3"}), 1); tzset();
    { zt_log_ty *w = zt_log_file((char *)"w", 0, 0); zt_log_set_debug_info(NULL, -1, NULL); time_t t = time(NULL); localtime(&t); zt_log_close(w); }
    fflush(stderr); int save = dup(2); int fd = open("err", O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); close(fd); zt_progname(prog.c_str(), 0); static const char *FN[] = {"l0", "l1", "l2"}; for (int i = 0; i < 3; i++) if (had[i]) spit(FN[i], init[i]); else unlink(FN[i]);
    std::vector<std::pair<const Msg *, unsigned>> exp[NLOG]; for (int i = 0; i < NLOG; i++) exp[i].reserve(32); time_t t0 = time(NULL); size_t h0 = heap(); { zt_log_ty *l[NLOG]; int lev[NLOG]; for (int i = 0; i < 3; i++) { l[i] = zt_log_file((char *)FN[i], app[i] ? ZT_LOG_FILE_APPEND : ZT_LOG_FILE_OVERWRITE, (int)opts[i]); CHECK(l[i] != NULL); } l[3] = zt_log_stderr(opts[3]); for (int i = 0; i < NLOG; i++) { lev[i] = zt_log_max; CHECK(zt_log_get_level(l[i]) == zt_log_max, "a new logger drops messages"); CHECK(zt_log_get_opts(l[i]) == opts[i]); }
        int def = 0; zt_log_ty *orig = zt_log_logger(l[0]); (void)orig;
        for (auto &o : ops) { switch (o.k) {
            case 0: { int w = o.m.logger; if (o.m.n % 3 == 0) w = def; if (o.m.level <= lev[w]) { exp[w].push_back({&o.m, opts[w]}); } clkset = o.m.when != 0; clk = o.m.when; send(o.m.n % 3 == 0 ? NULL : l[w], o.m); clkset = false; break; }
            case 1: CHECK(zt_log_set_opts(o.who == def && o.v % 2 ? NULL : l[o.who], (unsigned)o.v) == opts[o.who], "setting options gave the wrong old ones"); opts[o.who] = (unsigned)o.v; CHECK(zt_log_get_opts(l[o.who]) == opts[o.who]); break;
            case 2: CHECK(zt_log_set_level(o.who == def && o.v % 2 ? NULL : l[o.who], (zt_log_level)o.v) == lev[o.who], "setting a level gave the wrong old one"); lev[o.who] = o.v; CHECK(zt_log_get_level(l[o.who]) == o.v && zt_log_get_level(NULL) == lev[def]); break;
            case 3: CHECK(zt_log_logger(l[o.who]) == l[def], "replacing the default logger gave the wrong old one"); def = o.who; break; } }
        CHECK(zt_log_logger(NULL) == l[def]); for (int i = 0; i < NLOG; i++) zt_log_close(l[i]); zt_log_close(NULL); }
    time_t t1 = time(NULL); fflush(stderr); dup2(save, 2); close(save); for (auto &v : exp) for (auto &x : v) if (x.first->dbg && __builtin_popcount(x.second) > 1) rich = true; if (rich) g.nontrivial(); size_t h1 = heap(); 
    for (int i = 0; i < 3; i++) expect(slurp(FN[i]), exp[i], app[i] ? init[i] : "", prog, t0, t1, FN[i]); expect(slurp("err"), exp[3], "", prog, t0, t1, "standard error"); CHECK(h1 == h0, "%zd bytes of memory not given back", (ssize_t)(h1 - h0));
}
P_(L01, standing, 3000, 80000, 20, 60, 0, 5, "processes in which messages go to the default logger while it is asked for, taken away, replaced by file loggers and closed with one, also by callbacks at exit: without a default logger one for standard error appears, every time; what each place holds at the end is compared; non-trivial = a default logger appeared twice") {
    int n = 1 + (int)g.u(14); std::string want[3], name[3] = {"d.err", "d.0", "d.1"}; int def = -1, autos = 0; bool open_[2] = {false, false}; struct SOp { int k, i; std::string s; bool atexit; }; std::vector<SOp> ops; std::vector<int> exits;
    for (int i = 0; i < n; i++) { SOp o; o.k = (int)g.u(7); o.i = (int)g.u(1); o.s = g.str("abc %d", 10) + std::to_string(i); if ((o.k == 3 || o.k == 4) && !open_[o.i]) o.k = 2; if (o.k == 2 && open_[o.i]) o.k = 0; if (o.k == 5 && !open_[o.i]) o.k = 1; if (o.k == 6) o.k = 0; ops.push_back(o); switch (o.k) {
        case 0: case 7: g.note("log; "); if (def < 0) def = 2, autos++; want[def == 2 ? 0 : 1 + def] += (def == 2 ? "Error: " : "") + o.s + "\n"; break;
        case 1: g.note("logger(none); "); if (def < 0) def = 2, autos++; else def = -1; break;
        case 2: g.note("open %d; ", o.i); open_[o.i] = true; break; case 3: case 4: g.note("logger(%d); ", o.i); def = o.i; break;
        default: g.note("close %d; ", o.i); open_[o.i] = false; if (def == o.i) def = -1; } }
    bool late = g.chance(1, 3); if (late) { g.note("log at exit"); if (def < 0) def = 2, autos++; else if (def == 2) def = 3; want[def >= 2 ? 0 : 1 + def] += std::string(def >= 2 ? "Error: " : "") + "at exit\n"; } for (auto &x : name) unlink(x.c_str()); for (int i = 1; i < 3; i++) want[i] += "";
    fflush(stdout); fflush(stderr); pid_t pid = fork(); if (!pid) { int fd = open("d.err", O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); close(fd); zt_log_ty *l[2] = {NULL, NULL}; if (late && ops[0].k == 1) zt_atexit([](void *) { zt_log_lprintf(NULL, zt_log_err, "at exit"); }, NULL); int d = -1; zt_log_ty *lib = NULL;
        for (auto &o : ops) switch (o.k) { case 0: case 7: zt_log_lprintf(NULL, zt_log_err, "%s", o.s.c_str()); if (d < 0) d = 2; break; case 1: { zt_log_ty *r = zt_log_logger(NULL); if (!r || (d >= 0 && d < 2 && r != l[d])) _exit(3); if (lib && d == 2 && r == l[0]) _exit(3); d = d < 0 ? 2 : -1; break; } case 2: if (!(l[o.i] = zt_log_file((char *)name[1 + o.i].c_str(), ZT_LOG_FILE_APPEND, 0))) _exit(4); break; case 3: case 4: { bool had = d >= 0; zt_log_ty *r = zt_log_logger(l[o.i]); if (had != (r != NULL) || (d >= 0 && d < 2 && r != l[d])) _exit(5); d = o.i; break; } default: zt_log_close(l[o.i]); if (d == o.i) d = -1; }
        if (late && ops[0].k != 1) zt_atexit([](void *) { zt_log_lprintf(NULL, zt_log_err, "at exit"); }, NULL); exit(0); }
    int st; waitpid(pid, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process ended with status %x", st); for (int i = 0; i < 3; i++) { std::string got = slurp(name[i].c_str()); if (got == "(absent)") got = ""; CHECK(got == want[i], "%s holds %s where %s is due", name[i].c_str(), show(got).c_str(), show(want[i]).c_str()); } if (autos > 1) g.nontrivial();
}
P_(L01, forked, 2000, 40000, 20, 60, 0, 5, "processes that log to one or two files, fork children that log (and fork in turn) and then exit, are killed or abort, and go on logging: each message is in its file once, in order; non-trivial = a message logged before a fork") {
    static const char *N[2] = {"f.0", "f.1"}; std::string want[2]; int n = 1 + (int)g.u(7), nf = 1 + (int)g.u(1), end0 = (int)g.u(2); bool app = g.coin(); struct FOp { int k, f, end, logs, sub; std::string s; }; std::vector<FOp> ops; bool before = false;
    for (int i = 0; i < n; i++) { FOp o; o.k = (int)g.u(2); o.f = (int)g.u(nf - 1); o.end = (int)g.u(2); o.logs = (int)g.u(2); o.sub = (int)g.u(3); o.s = g.str("abc %d", g.chance(1, 20) ? 6000 : 10) + std::to_string(i); ops.push_back(o);
        if (o.k < 2) { g.note("log; "); want[o.f] += o.s + "\n"; before = true; } else { g.note("fork: %d logs, %s; ", o.logs, o.end == 0 ? "exit" : o.end == 1 ? "kill" : "abort"); if (before) g.nontrivial(); for (int j = 0; j < o.logs; j++) want[o.f] += "child " + std::to_string(j) + o.s + "\n"; if (o.sub == 0) want[o.f] += "sub " + o.s + "\n"; } }
    for (auto x : N) unlink(x); fflush(stdout); fflush(stderr); auto end = [](int e) { if (e == 0) exit(0); if (e == 1) kill(getpid(), SIGKILL); struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z); abort(); };
    pid_t pid = fork(); if (!pid) { zt_log_ty *l[2] = {NULL, NULL}; for (int i = 0; i < nf; i++) if (!(l[i] = zt_log_file((char *)N[i], app ? ZT_LOG_FILE_APPEND : ZT_LOG_FILE_OVERWRITE, 0))) _exit(4);
        for (auto &o : ops) if (o.k < 2) zt_log_lprintf(l[o.f], zt_log_err, "%s", o.s.c_str()); else { pid_t c = fork(); if (!c) { for (int j = 0; j < o.logs; j++) zt_log_lprintf(l[o.f], zt_log_err, "child %d%s", j, o.s.c_str()); if (o.sub == 0) { pid_t d = fork(); if (!d) { zt_log_lprintf(l[o.f], zt_log_err, "sub %s", o.s.c_str()); end(o.end); } waitpid(d, NULL, 0); } end(o.end); } waitpid(c, NULL, 0); }
        if (end0 == 2) for (int i = 0; i < nf; i++) zt_log_close(l[i]); end(end0 == 1); }
    int st; waitpid(pid, &st, 0); CHECK(!(WIFEXITED(st) && WEXITSTATUS(st))); for (int i = 0; i < nf; i++) { std::string got = slurp(N[i]); CHECK(got == want[i], "%s holds %s where %s is due", N[i], show(got).c_str(), show(want[i]).c_str()); unlink(N[i]); }
}
P(L01, unopenable, 2000, 50000, 100, "a log file that cannot be opened gives no logger and no memory is lost; non-trivial = always") { int how = (int)g.u(2); std::string f = how == 0 ? "no/such/" + g.str("ab", 9) : how == 1 ? "" : std::string("."); g.nontrivial(); g.note("%s", f.c_str()); CStr c(f); fflush(stderr); int save = dup(2), nul = open("/dev/null", O_WRONLY); dup2(nul, 2); close(nul); zt_log_ty *l0 = zt_log_file(c.p, 0, 0); size_t h0 = heap(); zt_log_ty *l = zt_log_file(c.p, g.coin(), 0); size_t h1 = heap(); dup2(save, 2); close(save); CHECK(!l0 && !l); CHECK(h0 == h1, "%zd bytes lost", (ssize_t)(h1 - h0)); }
P(L01, syslog, 20000, 800000, 100, "messages of every level and form to the system log arrive with the right priority, identity, facility and text, filtered by level (openlog and vsyslog replaced by recorders); non-trivial = debug information or a level prefix") {
    static const int PR[] = {LOG_EMERG, LOG_ALERT, LOG_CRIT, LOG_ERR, LOG_WARNING, LOG_NOTICE, LOG_INFO, LOG_DEBUG}; std::string prog = g.str("prog%", 8) + "q"; zt_progname(prog.c_str(), 0); std::vector<Sys> v; std::string id; sysv = &v; sysident = &id; sysopen = 0; bool two = g.coin(); int opt = g.coin() ? ZT_LOG_WITH_PID : 0, fac = (int)g.pick({LOG_USER, LOG_DAEMON, LOG_LOCAL3}); zt_log_ty *l = two ? zt_log_syslog2(opt, fac) : zt_log_syslog(); CHECK(l && sysopen == 1 && id == prog); if (two) CHECK(sysfac == fac && !!(sysopt & LOG_PID) == !!opt); else CHECK(sysfac == LOG_USER && (sysopt & LOG_PID));
    unsigned o = g.coin() ? (unsigned)g.u(31) : 0; zt_log_set_opts(l, o); int thr = g.coin() ? 8 : (int)g.u(7); zt_log_set_level(l, (zt_log_level)thr); int n = 1 + (int)g.u(6); size_t seen = 0; for (int i = 0; i < n; i++) { Msg m = rmsg(g, 1); m.s = m.s.substr(0, 3000); if (m.dbg || (o & ZT_LOG_WITH_LEVEL)) g.nontrivial(); send(l, m); g.note("level %d/%d form %d ", m.level, thr, m.form); if (m.level > thr) { CHECK(v.size() == seen, "a message above the level was logged"); continue; } CHECK(v.size() == seen + 1, "message lost"); std::string w = line(m, o & ZT_LOG_WITH_LEVEL, "", prog); CHECK((v[seen].prio & 7) == PR[m.level], "priority %d for level %d", v[seen].prio, m.level); CHECK(v[seen].text == w, "text %s want %s", show(v[seen].text).c_str(), show(w).c_str()); seen++; }
    zt_log_close(l); CHECK(sysopen == 0, "the system log was not closed"); sysv = NULL; sysident = NULL;
}
P_(L02, threads, 300, 20000, 5, 60, 2, 10, "2..8 threads log 20..200 messages each through one file logger or the default logger at once, some with debug information: every line arrives whole, once, in its thread's order and with its own debug information; non-trivial = always (3 or more threads in most cases)") {
    int nt = 2 + (int)g.u(6), per = 20 + (int)g.u(180); bool viadef = g.coin(); unsigned opts = (unsigned)g.u(31); g.nontrivial(); g.note("%d threads %d messages", nt, per); std::string prog = "thr"; zt_progname("thr", 0); unlink("t.log"); zt_log_ty *l = zt_log_file((char *)"t.log", ZT_LOG_FILE_OVERWRITE, (int)opts); CHECK(l); if (viadef) zt_log_logger(l); time_t t0 = time(NULL); std::vector<std::thread> ts; std::atomic<int> go{0}; std::string pad = g.strn("xyz", g.u(300));
    for (int t = 0; t < nt; t++) ts.emplace_back([&, t] { go++; while (go < nt) std::this_thread::yield(); for (int i = 0; i < per; i++) { bool d = (i + t) % 3 == 0; std::string f = fmt("file%d", t); if (d) zt_log_set_debug_info(f.c_str(), i, "fn"); zt_log_lprintf(viadef ? NULL : l, zt_log_info, "t%d i%d %s end", t, i, pad.c_str()); } });
    for (auto &t : ts) t.join(); time_t t1 = time(NULL); if (viadef) CHECK(zt_log_logger(NULL) == l); zt_log_close(l); std::string got = slurp("t.log"); std::vector<int> next(nt, 0); size_t p = 0; int total = 0;
    while (p < got.size()) { size_t e = got.find('\n', p); CHECK(e != std::string::npos, "the last line is cut"); std::string ln = got.substr(p, e - p); p = e + 1; total++; size_t q = ln.rfind("t", ln.find(" i")); int t, i; CHECK(q != std::string::npos && sscanf(ln.c_str() + q, "t%d i%d", &t, &i) == 2 && t >= 0 && t < nt, "broken line %s", show(ln).c_str()); CHECK(i == next[t], "thread %d: message %d where %d is due", t, i, next[t]); next[t]++; bool ok = false; for (time_t x = t0; x <= t1 && !ok; x++) ok = ln == prefix(opts, zt_log_info, date(x), prog) + fmt("t%d i%d %s end", t, i, pad.c_str()) + ((i + t) % 3 ? "" : fmt(": in fn at (file%d:%d)", t, i)); CHECK(ok, "broken line %s", show(ln, 400).c_str()); }
    CHECK(total == nt * per, "%d lines for %d messages", total, nt * per);
}
P(L02, ended, 3000, 60000, 20, "1..12 threads that log one after another or at once, with debug information of their own that is set, left standing or not set, and end: a new thread starts without debug information, every line is right and the memory used is given back; non-trivial = two or more threads left debug information standing") {
    int nt = 1 + (int)g.u(11); bool once = g.coin(); std::vector<int> kind; int stands = 0; for (int i = 0; i < nt; i++) { kind.push_back((int)g.u(3)); stands += kind.back() >= 2; } g.note("%d threads%s", nt, once ? " at once" : ""); if (stands >= 2) g.nontrivial(); unlink("e.log"); static std::atomic<int> bad; bad = 0; static zt_log_ty *l; static std::vector<int> *kp; kp = &kind;
    auto body = [](void *v) -> void * { int i = (int)(intptr_t)v; const char *f, *fn; int n; zt_log_get_debug_info(&f, &n, &fn); if (f || fn) bad = 1; int k = (*kp)[(size_t)i]; if (k == 1 || k == 3) zt_log_set_debug_info("file", i, "fn"); if (k) zt_log_lprintf(l, zt_log_info, "t%d.", i); if (k >= 2) zt_log_set_debug_info("left", i, "gn"); return NULL; };
    auto round = [&]() { pthread_t t[12]; for (int i = 0; i < nt; i++) { if (pthread_create(&t[i], NULL, body, (void *)(intptr_t)i)) FAIL("no thread"); if (!once) pthread_join(t[i], NULL); } if (once) for (int i = 0; i < nt; i++) pthread_join(t[i], NULL); };
    static bool warm = false; if (!warm) { warm = true; l = zt_log_file((char *)"e.log", ZT_LOG_FILE_OVERWRITE, 0); zt_log_set_debug_info(NULL, 0, NULL); round(); zt_log_close(l); } l = zt_log_file((char *)"e.log", ZT_LOG_FILE_OVERWRITE, 0); CHECK(l); zt_log_lprintf(l, zt_log_info, "start"); size_t h0 = heap(); round(); size_t h1 = heap(); if (h1 != h0) { round(); size_t h2 = heap(); round(); CHECK(heap() <= h2 || h2 <= h1, "%zu bytes of memory not given back by ended threads", heap() - h2); } zt_log_close(l); CHECK(!bad, "a new thread has debug information of another one");
    std::istringstream is(slurp("e.log")); std::multiset<std::string> have, want; for (std::string x; std::getline(is, x);) have.insert(x); want.insert("start"); for (int i = 0; i < nt; i++) if (kind[(size_t)i]) want.insert(fmt("t%d.", i) + (kind[(size_t)i] & 1 ? fmt(": in fn at (file:%d)", i) : "")); if (h1 == h0) CHECK(have == want, "the log has %zu lines of which some are wrong", have.size());
}
P_(L02, dates, 300, 20000, 5, 60, 2, 10, "2..8 threads log 20..200 messages with dates at once, each message at a time of its own (time() is scripted per thread): every line has the date of its message; non-trivial = always") {
    int nt = 2 + (int)g.u(6), per = 20 + (int)g.u(180); g.nontrivial(); g.note("%d threads %d messages", nt, per); time_t base = rtime(g), step = (time_t)(1 + g.u(5000000)); auto at = [&](int t, int i) { return (time_t)((base + step * (t * 1000 + i)) % 4102444800); };
    unlink("t.log"); zt_log_ty *l = zt_log_file((char *)"t.log", ZT_LOG_FILE_OVERWRITE, ZT_LOG_WITH_DATE); CHECK(l); std::vector<std::thread> ts; std::atomic<int> go{0};
    for (int t = 0; t < nt; t++) ts.emplace_back([&, t] { go++; while (go < nt) std::this_thread::yield(); clkset = true; for (int i = 0; i < per; i++) { clk = at(t, i); zt_log_lprintf(l, zt_log_info, "%d %d", t, i); } });
    for (auto &t : ts) t.join(); zt_log_close(l); std::istringstream is(slurp("t.log")); int total = 0;
    for (std::string ln; std::getline(is, ln); total++) { size_t q = ln.find(": ", 15); int t, i; CHECK(q != std::string::npos && sscanf(ln.c_str() + q, ": %d %d", &t, &i) == 2 && t >= 0 && t < nt && i >= 0 && i < per, "broken line %s", show(ln).c_str()); std::string w = date(at(t, i)) + fmt(": %d %d", t, i); CHECK(ln == w, "line %s where %s is due", show(ln).c_str(), show(w).c_str()); }
    CHECK(total == nt * per, "%d lines for %d messages", total, nt * per);
}
P_(L02, firstuse, 200, 10000, 2, 60, 0, 10, "2..8 threads use the default logger for the first time at once: one logger appears and every thread logs through it; non-trivial = always") {
    int nt = 2 + (int)g.u(6); g.nontrivial(); g.note("%d threads", nt); int pfd[2]; CHECK(pipe(pfd) == 0); pid_t pid = fork(); if (!pid) { int fd = open("first.err", O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); std::vector<std::thread> ts; std::atomic<int> go{0}; for (int t = 0; t < nt; t++) ts.emplace_back([&, t] { go++; while (go < nt) std::this_thread::yield(); zt_log_printf(zt_log_err, "first %d", t); }); for (auto &t : ts) t.join(); zt_log_ty *a = zt_log_logger(NULL); fflush(stderr); if (write(pfd[1], a ? "y" : "n", 1) != 1) _exit(1); _exit(0); }
    int st; waitpid(pid, &st, 0); close(pfd[1]); char c = 0; CHECK(read(pfd[0], &c, 1) == 1 && c == 'y' && WIFEXITED(st) && !WEXITSTATUS(st), "the process ended with status %x", st); close(pfd[0]); std::string got = slurp("first.err"); std::istringstream is(got); std::multiset<std::string> have, want; for (std::string l; std::getline(is, l);) have.insert(l); for (int t = 0; t < nt; t++) want.insert(fmt("Error: first %d", t)); CHECK(have == want, "logged %s", show(got, 300).c_str());
}

// the calling forms that are macros
static void lvm(int level, const char *f, ...) { va_list ap; va_start(ap, f); zt_log_vprintf((zt_log_level)level, f, ap); va_end(ap); }
static std::string fnm;
#ifdef DEBUG
static const bool xdbg = true;
#else
static const bool xdbg = false;
#endif
#ifndef NDEBUG
static const bool ndbg = true;
#else
static const bool ndbg = false;
#endif
static std::string fnx, fnn; static int lnx, lnn;
static void xdv(const char *f, ...) { fnx = ZT_LOG_FUNCTION; lnx = __LINE__; va_list ap; va_start(ap, f); ZT_LOG_XDEBUGV(f, ap); va_end(ap); }
static std::string fnd; static int lnd; static void dvm(int level, const char *f, ...) { fnd = ZT_LOG_FUNCTION; lnd = __LINE__; va_list ap; va_start(ap, f); zt_log_dvprintf((zt_log_level)level, f, ap); va_end(ap); }
static void ndv(const char *f, ...) { fnn = ZT_LOG_FUNCTION; lnn = __LINE__; va_list ap; va_start(ap, f); ZT_LOG_NDEBUGV(f, ap); va_end(ap); }
static int inner(zt_log_level lev, int n) { zt_log_printf(lev, "inner %d", n); return n; }
static int logmacro(int op, int level, int c, int n, const char *s) {
    zt_log_level lev = (zt_log_level)level; int i; fnm = ZT_LOG_FUNCTION;
    switch (op) {
    case 0: if (c) zt_log_printf(lev, "%s %d", s, n); break;
    case 1: if (c) zt_log_dprintf(lev, "%s %d", s, n); return __LINE__;
    case 2: for (i = 0; i < n; i++) zt_log_dprintf(lev, "%s %d", s, i); return __LINE__;
    case 3: if (c) zt_log_strerror(lev, EACCES, "%s %d", s, n); break;
    case 4: if (c) lvm(level, "%s %d", s, n); break;
    case 5: if (c) ZT_LOG_WITH_DEBUG(zt_log_printf(lev, "%s %d", s, n)); return __LINE__;
    case 6: ZT_LOG_DEBUG_INFO(); zt_log_printf(c ? lev : zt_log_debug, "%s %d", s, n); return __LINE__;
    case 7: if (c) ZT_LOG_DEBUG_INFO(); ZT_LOG_DEBUG_RESET(); zt_log_printf(lev, "%s %d", s, n); break;
    case 9: if (c) ZT_LOG_XDEBUG("%s %d", s, n); else i = 0; return __LINE__;
    case 10: if (c) ZT_LOG_NDEBUG("%s %d", s, n); else i = 0; return __LINE__;
    case 13: if (c) zt_log_dprintf(lev, "%s %d", s, inner(lev, n)); return __LINE__;
    case 14: if (c) zt_log_printf(lev, "%s %d", s, inner(lev, n)); break;
    case 15: if (c) dvm(level, "%s %d", s, n); else i = 0; return -1;
    case 11: if (c) xdv("%s %d", s, n); else i = 0; return -1;
    case 12: if (c) ndv("%s %d", s, n); else i = 0; return -1;
    default: while (c--) zt_log_dprintf(lev, "%s %d", s, n); return __LINE__;
    }
    return 0;
}
P(L01, forms, 6000, 200000, 50, "histories of the logging macros, guarded by conditions and in loops, some with arguments that log something themselves, at levels around the one of the logger: the file holds each message that is due, with its place where that was asked for, and nothing else; non-trivial = a message was not due") {
    unlink("f.log"); int thr = (int)g.u(8); bool raw = g.coin(); zt_log_ty *l = zt_log_file((char *)"f.log", ZT_LOG_FILE_OVERWRITE, raw ? ZT_LOG_RAW : ZT_LOG_WITH_LEVEL), *old = zt_log_logger(l); CHECK(l); zt_log_set_level(NULL, (zt_log_level)thr); std::string want; bool nt = false; g.note("level %d; ", thr);
    for (int k = 1 + (int)g.u(8); k--; ) {
        int op = (int)g.u(15), lev = (int)g.u(7), c = (int)g.u(1), n = (int)g.u(4); std::string s = g.str("ab%d", 6); g.note("form %d level %d %s; ", op, lev, c ? "due" : "not due"); int line = logmacro(op, lev, c, n, s.c_str()), times = op == 2 ? n : op == 6 || op == 7 ? 1 : c, lv = (op == 6 && !c) || (op > 8 && op < 13) ? 7 : lev; bool in = op == 13 || op == 14; if (op > 8 && op < 13 && !(op & 1 ? xdbg : ndbg)) times = 0; bool vf = op == 11 || op == 12 || op == 15; if (!times || lv > thr) nt = true; if (lv > thr) continue; std::string fn = vf ? (op == 15 ? fnd : op == 11 ? fnx : fnn) : fnm; if (vf) line = op == 15 ? lnd : op == 11 ? lnx : lnn;
        for (int i = 0; i < times; i++) want += (in ? (raw ? "" : std::string(LEV[lv]) + ": ") + fmt("inner %d\n", n) : "") + (raw ? "" : std::string(LEV[lv]) + ": ") + s + " " + std::to_string(op == 2 ? i : n) + (op == 3 ? ": Permission denied" : "") + (line ? fmt(": in %s at (%s:%d)", fn.c_str(), __FILE__, line) : "") + "\n";
    }
    zt_log_logger(old); zt_log_close(l); std::string got = slurp("f.log"); CHECK(got == want, "the log is %s where %s is due", show(got, 600).c_str(), show(want, 600).c_str()); if (nt) g.nontrivial();
}
