#include <list>
// paths, program name and path, exit callbacks, unit runner, pid file, daemon, assertions, macros
#define ZT_WITH_UNIT
#include "pbt.h"
#include "zthdr.h"
#include <sanitizer/allocator_interface.h>
#include <sys/fsuid.h>
#include <sys/resource.h>
#include <dirent.h>
#include <thread>
#include <atomic>
#include <stdexcept>
static size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
#define NOLEAK(h0, what) do { size_t h1_ = heap(); CHECK(h1_ == (h0), "%s: %zd bytes of memory not given back", what, (ssize_t)(h1_ - (h0))); } while (0)
extern "C" {
#include <libzt/zt_path.h>
#include <libzt/zt_progname.h>
#include <libzt/zt_atexit.h>
#include <libzt/zt_daemon.h>
#include <libzt/zt_unit.h>
#include <libzt/zt_assert.h>
#include <libzt/zt_log.h>
}
static std::string slurp(const std::string &f) { std::string s; FILE *p = fopen(f.c_str(), "r"); if (!p) return "(absent)"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p); return s; }
static void spit(const std::string &name, const std::string &s) { FILE *f = fopen(name.c_str(), "w"); CHECK(f); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::string cwd() { char b[PATH_MAX + 1]; return getcwd(b, PATH_MAX) ? b : "?"; }
static void wipe(int at, const char *name) {
    int fd = openat(at, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW); if (fd < 0) { unlinkat(at, name, 0); return; } fchmod(fd, 0700);
    DIR *d = fdopendir(fd); while (struct dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) wipe(fd, e->d_name); closedir(d); unlinkat(at, name, AT_REMOVEDIR);
}
static void list(int at, const char *name, const std::string &pre, std::map<std::string, std::string> &out) {
    struct stat st; if (fstatat(at, name, &st, AT_SYMLINK_NOFOLLOW)) return; std::string p = pre + "/" + name; char l[300] = ""; if (S_ISLNK(st.st_mode)) { ssize_t n = readlinkat(at, name, l, 299); if (n > 0) l[n] = 0; }
    out[p] = fmt("%o %s", (unsigned)st.st_mode, l) + (S_ISREG(st.st_mode) ? std::to_string(st.st_size) : "");
    if (!S_ISDIR(st.st_mode)) return; int fd = openat(at, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW); if (fd < 0) return; DIR *d = fdopendir(fd); std::vector<std::string> ns; while (struct dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) ns.push_back(e->d_name); for (auto &n : ns) list(fd, n.c_str(), p, out); closedir(d);
}
static void quietlog() { static zt_log_ty *l; if (!l) { l = zt_log_file((char *)"/dev/null", ZT_LOG_FILE_APPEND, 0); zt_log_logger(l); } }

// every directory the library makes goes through here: stays in the scratch directory, and may be hit by a fault or overtaken
static int mk_calls, mk_at = -1, mk_err, mk_until; static bool mk_race, mk_out, mk_on; static std::string *mk_home;
extern "C" int mkdir(const char *p, mode_t m) {
    if (mk_on) {
        int c = mk_calls++; if (p[0] == '/' && mk_home && strncmp(p, mk_home->c_str(), mk_home->size())) { struct stat st; if (stat(p, &st)) { mk_out = true; errno = EACCES; return -1; } }
        if (c > 5000) FAIL("zt_mkdir does not end");
        if (c >= mk_at && c < mk_until) { if (mk_race) mkdirat(AT_FDCWD, p, m); else { errno = mk_err; return -1; } }
    }
    return mkdirat(AT_FDCWD, p, m);
}
static const char *HOME[2] = {"lib/1/2/3/4", "ref/1/2/3/4"};
struct Ent { int k; std::string p, t; int mode; };
static std::vector<Ent> rtree(Gen &g) {
    std::vector<Ent> v; std::vector<std::string> dirs = {""}; int n = (int)g.u(6);
    for (int i = 0; i < n; i++) { Ent e; e.k = (int)g.u(5); if (e.k == 5) e.k = 0; std::string d = g.pick(dirs); e.p = d + g.pick({"x", "y", "zz", "f", "l", "x y", "b.", ".h"}); e.mode = (int)g.pick({0755, 0700, 0777, 01777, 0755, 0777, 0555, 0111, 0733, 0}); e.t = e.k == 2 ? g.pick({".", "x", "../x", "y/zz", "b.", "..", ".h"}) : e.k == 3 ? "f" : "nowhere"; bool dup = false; for (auto &o : v) dup |= o.p == e.p; if (dup) continue; if (e.k == 0) dirs.push_back(e.p + "/"); v.push_back(e); g.note("%s%s ", e.p.c_str(), e.k == 0 ? "/" : e.k == 1 ? "" : ("->" + e.t).c_str()); }
    return v;
}
static void mktree(const std::vector<Ent> &v) { for (auto &e : v) { if (e.k == 0) { mkdirat(AT_FDCWD, e.p.c_str(), 0777); chmod(e.p.c_str(), (mode_t)e.mode); } else if (e.k == 1) spit(e.p, "some text"); else if (symlink(e.t.c_str(), e.p.c_str())) {} } }
static std::string rpath(Gen &g, bool &longp) {
    std::string p; int n = 1 + (int)g.u(5), up = 0; longp = false;
    for (int i = 0; i < n; i++) { std::string c; switch (g.u(13)) { case 0: c = "."; break; case 1: if (up < 4) { c = ".."; up++; break; } /* fall */ case 2: c = g.pick({"f", "l"}); break; case 3: c = g.str("xyz", 5); break; case 4: c = g.chance(1, 4) ? std::string(g.pick({254, 255, 256}), 'L') : "x y"; break; case 5: case 6: c = g.pick({"b.", ".h", "...", "..x", "x..", ".x.", ". ", " .", "-p", "~", "a:b", "a\\", "%s%n", "$HOME", "*"}); break; case 7: c = g.strn(".x", 1 + g.u(3)); if (c == "..") c = "..."; break; default: c = g.pick({"x", "y", "zz", "n1", "n2"}); } if (i) p += g.chance(1, 8) ? "//" : "/"; p += c; }
    while (p[0] == '/') p.erase(0, 1); if (p.empty()) p = "y";
    if (g.chance(1, 8)) p += g.pick({"/", "//", "/.", "/./"});
    if (g.chance(1, 12)) { size_t want = (size_t)g.range(3990, 4200); std::string f; bool wide = g.coin(); while (f.size() + p.size() + (wide ? 200 : 2) < want) f += wide ? std::string(199, (char)('a' + g.u(2))) + "/" : "./"; std::string q = p; if (g.coin() && !wide) p = f + p; else p = p + "/" + f; while (p.size() < want && g.coin()) p += '/'; if (p.size() >= 4090) longp = true; }
    return p;
}
// the reference: component by component with directory descriptors
static bool refmk(const std::string &p, mode_t mode) {
    if (p.empty()) return false; int fd = open(p[0] == '/' ? "/" : ".", O_PATH | O_DIRECTORY); size_t i = 0;
    while (fd >= 0 && i < p.size()) { size_t e = p.find('/', i); if (e == std::string::npos) e = p.size(); std::string c = p.substr(i, e - i); i = e + 1; if (c.empty()) continue; mkdirat(fd, c.c_str(), mode); int f2 = openat(fd, c.c_str(), O_PATH | O_DIRECTORY); close(fd); fd = f2; }
    if (fd < 0) return false; close(fd); return true;
}
// file operations as somebody who is not root; this thread only, and given back at the end of the block
struct Nobody { bool on; Nobody(bool o) : on(o) { if (on) { setfsuid(65534); setfsgid(65534); } } ~Nobody() { back(); } void back() { if (on) { setfsgid(0); setfsuid(0); on = false; } } };
static bool there(const std::string &p) { struct stat st; return !stat(p.c_str(), &st); }
static bool isdir(const std::string &p) { struct stat st; return !stat(p.c_str(), &st) && S_ISDIR(st.st_mode); }
static void fresh() { for (const char *t : {"lib", "ref"}) { wipe(AT_FDCWD, t); std::string p = t; mkdirat(AT_FDCWD, p.c_str(), 0777); for (const char *s : {"/1", "/2", "/3", "/4"}) { p += s; mkdirat(AT_FDCWD, p.c_str(), 0777); } } }
struct Case1 { std::vector<Ent> tree; std::string path; bool parents; mode_t mode, mask; bool abs, longp; };
static std::string base0;
P(P01, mkdir, 6000, 200000, 50, "random trees of directories, files and links (to directories, files, nothing), random relative and absolute paths with . and .., double and trailing slashes, over-long parts and paths, modes and umasks (also ones that forbid their maker the next part), with and without parents, as root and as somebody who may not enter or change every directory; result and whole tree compared with a reference that walks descriptors; non-trivial = at least one part exists and one is made, or a part is no directory") {
    static std::string home = cwd(); if (chdir(home.c_str())) FAIL("chdir"); quietlog(); umask(0); fresh(); mk_home = &home; mk_out = false;
    auto tree = rtree(g); bool longp; std::string path = rpath(g, longp); bool parents = g.u(3) > 0, ab = g.chance(1, 4), nobody = !ab && g.coin(); mode_t mode = (mode_t)g.pick({0777, 0755, 0700, 0711, 01777, 0777, 0755, 0700, 0555, 0500, 0111, 0333, 0}), mask = (mode_t)g.pick({0, 022, 077, 027, 0, 022, 0111, 0300, 0777}); if (g.chance(1, 40)) { path = ""; ab = false; }
    g.note("%smkdir %o (umask %o) %s%s%s ", nobody ? "as nobody: " : "", (unsigned)mode, (unsigned)mask, ab ? "(abs)" : "", path.size() > 100 ? (path.substr(0, 60) + fmt("...%zu", path.size())).c_str() : path.c_str(), parents ? " -p" : "");
    bool want = false, got, existed0 = false; std::map<std::string, std::string> tr[2], bef; std::string full;
    for (int i = 1; i >= 0; i--) {
        std::string d = home + "/" + HOME[i]; if (chdir(d.c_str())) FAIL("chdir"); umask(0); mktree(tree); if (i == 0) list(AT_FDCWD, (home + "/lib").c_str(), "", bef); full = ab ? d + "/" + path : path; umask(mask); Nobody who(nobody);
        if (i == 1) { if (full.size() >= PATH_MAX) want = false; else if (parents) want = refmk(full, mode); else { want = !mkdirat(AT_FDCWD, full.c_str(), mode) || (errno == EEXIST && isdir(full)); } }
        else { existed0 = isdir(full); CStr c(full); CHECK((zt_path_exists(c) == 0) == there(full), "zt_path_exists is wrong about %s", show(full).c_str()); mk_calls = 0; mk_at = -1; mk_until = -1; mk_on = true; int r = zt_mkdir(c, mode, parents ? zt_mkdir_create_parent : (zt_mkdir_flags)0); mk_on = false; CHECK(r == 0 || r == -1); got = r == 0; CHECK(!strcmp(c, full.c_str()), "the path was changed"); int e = zt_path_exists(c); CHECK(e == 0 || e == -1); CHECK((e == 0) == there(full), "zt_path_exists is wrong about %s", show(full).c_str()); CHECK(!mk_out, "a directory outside the path was asked for"); }
        umask(0); who.back(); if (chdir(home.c_str())) FAIL("chdir");
    }
    list(AT_FDCWD, "lib", "", tr[0]); list(AT_FDCWD, "ref", "", tr[1]);
    CHECK(got == want, "zt_mkdir says %s for %s, which %s be made", got ? "done" : "failed", show(full).c_str(), want ? "can" : "cannot");
    bool made = tr[0].size() + 0 > 0; size_t n0 = 0; { std::map<std::string, std::string> b2; for (auto &x : bef) { size_t p = x.first.find("/lib"); b2[x.first.substr(p)] = x.second; } n0 = b2.size(); for (auto &x : b2) { auto it = tr[0].find(x.first); CHECK(it != tr[0].end() && it->second == x.second, "%s was %s and is now %s", x.first.c_str(), x.second.c_str(), it == tr[0].end() ? "gone" : it->second.c_str()); } for (auto &x : tr[0]) if (!b2.count(x.first)) CHECK(x.second[0] == '4', "something else than a directory was made: %s %s", x.first.c_str(), x.second.c_str()); made = tr[0].size() > n0; }
    if (want) { auto it = tr[1].begin(); CHECK(tr[0].size() == tr[1].size(), "%zu directories made, %zu due", tr[0].size() - n0, tr[1].size() - n0); for (auto &x : tr[0]) { CHECK(x.first.substr(4) == it->first.substr(4) && x.second == it->second, "%s is %s where %s with %s is due", x.first.c_str(), x.second.c_str(), it->first.c_str(), it->second.c_str()); ++it; } }
    else if (!parents) CHECK(!made, "directories were made although only the last part may be");
    (void)existed0; if (want) g.label(made ? "made" : "exists"); else g.label("refused"); if (longp) g.label("long");
    if ((made && parents && path.find('/') != std::string::npos) || !want) g.nontrivial();
    fresh();
}
P(P01, faults, 6000, 200000, 50, "the same with one or more mkdir calls, from any position on, overtaken by another process making the directory first, or failing (once, for a while, for ever) with ENOSPC, EACCES, EROFS, EIO, ENOENT; non-trivial = a call was hit") {
    static std::string home = cwd(); if (chdir(home.c_str())) FAIL("chdir"); quietlog(); umask(0); fresh(); mk_home = &home; mk_out = false;
    auto tree = rtree(g); bool longp; std::string path = rpath(g, longp); mk_race = g.coin(); int at = (int)g.u(6), cnt = g.chance(1, 3) ? 1 : g.chance(1, 2) ? 2 : 100000; mk_err = g.pick({ENOSPC, EACCES, EROFS, EIO, ENOENT, ENAMETOOLONG, ENOTDIR, EPERM});
    g.note("mkdir %s %s %d+%d ", show(path, 60).c_str(), mk_race ? "overtaken" : strerror(mk_err), at, cnt);
    bool want = false, got = false;
    for (int i = 1; i >= 0; i--) {
        std::string d = home + "/" + HOME[i]; if (chdir(d.c_str())) FAIL("chdir"); mktree(tree);
        if (i == 1) want = path.size() < PATH_MAX && refmk(path, 0777);
        else { CStr c(path); mk_calls = 0; mk_at = at; mk_until = at + cnt; mk_on = true; int r = zt_mkdir(c, 0777, zt_mkdir_create_parent); mk_on = false; got = r == 0; bool dir = isdir(path); CHECK(!got || dir, "zt_mkdir says done and there is no directory"); if (mk_race) CHECK(got == want, "zt_mkdir says %s for %s, which %s be made, when overtaken", got ? "done" : "failed", show(path).c_str(), want ? "can" : "cannot"); else CHECK(want || !got); if (mk_calls > at) { g.nontrivial(); g.label(mk_race ? "overtaken" : got ? "recovered" : "failed"); } }
        if (chdir(home.c_str())) FAIL("chdir");
    }
    mk_at = -1; fresh();
}
P_(P01, together, 300, 10000, 5, 60, 4, 6, "2..8 threads make overlapping deep paths at once: all succeed; non-trivial = always") {
    static std::string home = cwd(); if (chdir(home.c_str())) FAIL("chdir"); quietlog(); umask(0); fresh(); mk_home = &home; int n = 2 + (int)g.u(6); std::vector<std::string> ps; std::string common = "lib"; int depth = 1 + (int)g.u(12); for (int i = 0; i < depth; i++) common += "/" + g.strn("ab", 1 + g.u(2)); for (int i = 0; i < n; i++) ps.push_back(common + (g.coin() ? "" : "/q" + g.strn("xy", 1) + "/r"));
    g.note("%d threads under %s", n, common.c_str()); std::atomic<int> bad{-1}, ready{0}; std::vector<std::thread> th; for (int i = 0; i < n; i++) th.emplace_back([&, i] { ready++; while (ready < n) {} if (zt_mkdir(ps[(size_t)i].c_str(), 0777, zt_mkdir_create_parent) != 0) bad = i; }); for (auto &t : th) t.join();
    CHECK(bad < 0, "zt_mkdir failed for %s", ps[(size_t)(int)bad].c_str()); for (auto &p : ps) CHECK(isdir(p)); g.nontrivial(); fresh();
}
static std::string squash(std::string p) { for (size_t i; (i = p.find("//")) != std::string::npos;) p.erase(i, 1); return p; }
P(P02, basedir, 8000, 300000, 100, "random trees and search paths (absolute and relative, existing and not, dots, double and trailing slashes, longer than PATH_MAX), as root and as somebody who may not enter every directory, triggers that are files, directories, links, nested or missing, at any number of levels; compared with a search of every ancestor; non-trivial = the trigger is at two or more levels, or above the first level looked at") {
    static std::string home = cwd(); if (chdir(home.c_str())) FAIL("chdir"); quietlog(); umask(0); fresh(); if (chdir(HOME[0])) FAIL("chdir"); std::string here = cwd();
    auto tree = rtree(g); mktree(tree); bool longp; std::string path = rpath(g, longp), trig = g.pick({"T", ".t", "T/u", "dangling", "proc", "x"}); bool ab = g.coin(), nobody = g.coin(); int placed = 0; std::vector<std::string> shut;
    std::string walk = path; std::vector<std::string> cut; for (;;) { cut.push_back(walk); size_t i = walk.rfind('/'); if (walk.empty() || i == std::string::npos) break; walk.resize(i); }
    for (auto &c : cut) if (!c.empty() && placed < 5 && g.chance(1, 4) && c.size() < 3000 && refmk(c, 0777)) { std::string t = c + "/" + trig; if (trig == "T/u") { mkdirat(AT_FDCWD, (c + "/T").c_str(), 0777); } if (trig == "dangling") { if (symlink("nowhere", t.c_str())) {} } else if (g.coin()) mkdirat(AT_FDCWD, t.c_str(), 0777); else { int fd = open(t.c_str(), O_CREAT | O_WRONLY, 0600); if (fd >= 0) close(fd); } if (nobody && g.chance(1, 3)) shut.push_back(g.coin() ? c : t); placed++; } for (auto &c : shut) chmod(c.c_str(), (mode_t)g.pick({0, 0444, 0600, 0666, 0111}));
    if (ab && placed < 2 && g.chance(1, 3)) { if (symlink("/", trig.c_str())) {} }
    std::string full = ab ? here + "/" + path : path; if (!ab && there(trig)) { ab = true; full = here + "/" + path; }
    g.note("%s for %s, placed at %d ", trig.c_str(), show(full, 80).c_str(), placed);
    std::string want; bool found = false; int hits = 0, first = -1, lev = 0; Nobody who(nobody); if (nobody) g.note("as nobody "); { std::string w = full; for (;; lev++) { if (there(w + "/" + trig)) { if (!found) { found = true; want = w + "/"; first = lev; } hits++; } size_t i = w.rfind('/'); if (w.empty() || i == std::string::npos) break; w.resize(i); } }
    { CStr p(full), t(trig); size_t h0 = heap(); char *r = zt_find_basedir(p, t); if (!found) CHECK(r == NULL, "%s found in %s, where it is not", trig.c_str(), r); else { CHECK(r != NULL, "%s not found, it is in %s", trig.c_str(), want.c_str()); CHECK(squash(r) == squash(want), "%s found in %s, it is in %s first", trig.c_str(), r, want.c_str()); free(r); } NOLEAK(h0, "zt_find_basedir"); CHECK(full == (char *)p && trig == (char *)t); }
    g.label(found ? "found" : "absent"); if (longp) g.label("long"); if (hits >= 2 || first > 0) g.nontrivial(); who.back(); if (chdir(home.c_str())) FAIL("chdir"); fresh();
}
// program name and path
static std::string norm(std::string p) { if (p.empty()) return p; p = squash(p); for (size_t i; (i = p.find("/./")) != std::string::npos;) p.erase(i, 2); while (p.size() > 1 && p.size() >= 2 && p.compare(p.size() - 2, 2, "/.") == 0) p.resize(p.size() > 2 ? p.size() - 2 : 1); while (p.size() > 1 && p.back() == '/') p.pop_back(); return p; }
P(P03, progname, 20000, 500000, 200, "sequences of names set with and without directory stripping, empty and missing ones (which keep the last), parts of the name set before, up to and above PATH_MAX long; non-trivial = a name was kept over an empty one or stripped") {
    int n = 1 + (int)g.u(6); std::string cur = zt_progname(NULL, 0); static bool first = true; if (first) { CHECK(cur == "*UNKNOWN*", "the name is %s before it is set", cur.c_str()); first = false; }
    for (int i = 0; i < n; i++) { int k = (int)g.u(6); bool strip = g.coin(); std::string s; if (k == 6 && cur.size() < PATH_MAX - 1) { size_t off = g.coin() ? 0 : g.u(cur.size() - 1); s = cur.substr(off); if (strip && s.back() == '/') continue; std::string w = strip ? s.substr(s.rfind('/') == std::string::npos ? 0 : s.rfind('/') + 1) : s; g.note("own name from %zu%s ", off, strip ? " stripped" : ""); char *r = zt_progname(zt_progname(NULL, 0) + off, strip ? STRIP_DIR : 0); CHECK(w == r, "%s became %s", show(s).c_str(), show(r).c_str()); cur = w; g.nontrivial(); continue; } if (k == 0) { g.note("NULL "); CHECK(zt_progname(NULL, strip) == cur, "the name changed without one being given"); g.nontrivial(); continue; } if (k == 1) { g.note("empty "); CHECK(zt_progname("", strip) == cur, "an empty name changed the name"); g.nontrivial(); continue; }
        if (k == 2) { size_t l = (size_t)g.range(PATH_MAX - 3, PATH_MAX + 5); s = g.strn("ab", 3); s += std::string(l - 3, 'p'); if (strip) s = std::string("/usr/bin/") + s; } else s = (g.coin() ? g.pick({"/", "./", "a/b/", "../x y/", "/usr//local/bin/"}) : std::string()) + g.strn("abc-%.x ", 1 + g.u(12));
        g.note("%s%s ", show(s, 40).c_str(), strip ? " stripped" : ""); std::string w = strip ? s.substr(s.rfind('/') == std::string::npos ? 0 : s.rfind('/') + 1) : s; if (w.size() > (strip ? PATH_MAX - 1 : PATH_MAX)) { g.label("long"); CStr c(s); std::string r = zt_progname(c, strip ? STRIP_DIR : 0); CHECK(r.size() >= PATH_MAX - 1 && r.size() <= PATH_MAX && w.compare(0, r.size(), r) == 0, "an over-long name is not cut to PATH_MAX"); cur = r; continue; }
        CStr c(s); char *r = zt_progname(c, strip ? STRIP_DIR : 0); CHECK(w == r, "the name of %s is %s", show(s).c_str(), show(r).c_str()); cur = w; CHECK(zt_progname(NULL, 0) == cur); if (strip && w != s) g.nontrivial(); }
}
struct Elt { int k; };
P(P03, progpath, 10000, 300000, 100, "program names (bare, ./, relative, .., absolute, with blanks, long) against PATHs of existing, missing, empty and relative elements in any order with the program (or a directory, a data file or a link of its name) in any of them, or no PATH at all, and repeated questions; non-trivial = found in PATH beyond the first element, or in the last") {
    static std::string home = cwd(); if (chdir(home.c_str())) FAIL("chdir"); quietlog(); umask(0); fresh(); if (chdir(HOME[0])) FAIL("chdir"); std::string here = cwd(); static const char *D[] = {"b0", "b1", "b2", "b 3"}; for (auto d : D) mkdirat(AT_FDCWD, d, 0755);
    static std::string savedp = getenv("PATH") ? getenv("PATH") : ""; std::string name = g.pick({"prog", "my prog", "p", "a.out%s", ".prog", "..p", "prog.", "-", "p:q"}); if (g.chance(1, 30)) name = std::string(g.pick({200, 255}), 'n');
    auto put = [&](std::string f) { int k = (int)g.u(8); if (k == 3) { mkdirat(AT_FDCWD, f.c_str(), 0755); g.note("directory %s ", f.c_str()); } else if (k == 4) { spit(f, "#!"); chmod(f.c_str(), 0644); g.note("data %s ", f.c_str()); } else if (k == 5) { if (symlink("nowhere", f.c_str())) {} } else if (k == 6) { if (symlink(g.coin() ? "/proc/self/exe" : "/", f.c_str())) {} struct stat sb; return stat(f.c_str(), &sb) == 0 && S_ISREG(sb.st_mode); } else if (k < 3) { spit(f, "#!"); chmod(f.c_str(), (mode_t)g.pick({0755, 0755, 0500, 0711})); } return k < 3; };
    bool in[4]; for (int i = 0; i < 4; i++) in[i] = put(std::string(D[i]) + "/" + name); bool inhere = put(name);
    int n = 1 + (int)g.u(5); std::string first = zt_progpath(NULL); static bool once = true; if (once) { CHECK(first == "*UNKNOWN*", "the path is %s before it is set", first.c_str()); once = false; } std::string cur = first;
    for (int i = 0; i < n; i++) {
        int form = (int)g.u(6); if (form == 6) { bool e = g.coin(); g.note("again "); size_t h0 = heap(); CStr em(""); char *r = zt_progpath(e ? (char *)em : NULL); CHECK(cur == r, "the path changed without a program being given"); (void)h0; continue; }
        std::string path, prog, want; bool nopath = g.chance(1, 12); int m = (int)g.u(5), hit = -1; std::string hitdir; bool rel = false;
        for (int j = 0; j < m; j++) { int k = (int)g.u(9), d = (int)g.u(3); std::string e, dir; bool has = false; if (k <= 4) { e = here + "/" + D[d]; dir = e; has = in[d]; if (k == 4) e += "/"; } else if (k == 5) { e = ""; dir = here; has = inhere; } else if (k == 6) { e = D[d]; dir = here + "/" + D[d]; has = in[d]; } else if (k == 7) { e = "."; dir = here; has = inhere; } else if (k == 8) { e = here + "/none" + g.strn("ab", 1 + g.u(40)); } else { e = "/" + g.strn("xy", 4); }
            if (j) path += ":"; path += e; if (has && hit < 0) { hit = j; hitdir = dir; rel = e[0] != '/' && e != "" && e != "."; } }
        if (m == 0) { hitdir = here; }
        if (nopath) unsetenv("PATH"); else setenv("PATH", path.c_str(), 1);
        switch (form) { case 0: case 1: prog = name; want = nopath ? std::string() : hit >= 0 ? hitdir : here; break; case 2: prog = "./" + name; want = here; break; case 3: prog = g.coin() ? std::string(D[g.u(3)]) : std::string(); if (prog.empty()) for (int q = 0, qn = 1 + (int)g.u(3); q < qn; q++) prog += (q ? "/" : "") + std::string(g.pick({".hid", "..d", "...", "d.", "d..", ".", "b1", "x y", "-v", "a:b", ".x.", "%s"})); want = here + "/" + prog; prog = (g.coin() ? "./" : "") + prog + "/" + name; break; case 4: prog = "../" + name; want = here + "/.."; if (g.coin()) { prog = "../q/" + name; want += "/q"; } break; default: prog = g.coin() ? here + "/" + D[0] : std::string("/") + g.strn("xy", 3); want = prog; prog += "/" + name; if (g.chance(1, 4)) { prog = "/" + name; want = "/"; } break; }
        if (nopath && form <= 1) { char ex[PATH_MAX + 1]; ssize_t l = readlink("/proc/self/exe", ex, PATH_MAX); CHECK(l > 0); ex[l] = 0; want = ex; want.resize(want.rfind('/')); }
        g.note("PATH=%s %s ", nopath ? "(none)" : show(path, 80).c_str(), show(prog, 40).c_str());
        std::string got; { CStr p(prog); size_t h0 = heap(); char *r = zt_progpath(p); NOLEAK(h0, "zt_progpath"); CHECK(!strcmp(p, prog.c_str())); got = r; }
        setenv("PATH", savedp.c_str(), 1); bool ok = norm(got) == norm(want); if (!ok && form <= 1 && rel && norm(here + "/" + got) == norm(want)) ok = true; CHECK(ok, "the path of %s is %s where %s is due (PATH %s)", show(prog).c_str(), show(got).c_str(), show(want).c_str(), nopath ? "(none)" : show(path).c_str()); cur = got;
        if (form <= 1 && !nopath && hit > 0) { g.nontrivial(); if (hit == m - 1) g.label("last"); } if (form >= 2) g.label("direct"); if (form == 2 && hit >= 0) g.nontrivial();
    }
    { size_t h0 = heap(); char *o = zt_os_progpath(); CHECK(o != NULL); char ex[PATH_MAX + 1]; ssize_t l = readlink("/proc/self/exe", ex, PATH_MAX); ex[l] = 0; CHECK(!strcmp(o, ex), "the program runs from %s, not %s", ex, o); free(o); NOLEAK(h0, "zt_os_progpath"); }
    if (chdir(home.c_str())) FAIL("chdir"); fresh();
}
// exit callbacks
struct AX { int id; int more; std::vector<int> spawn; }; static std::vector<AX> *axs; static int ax_fd;
static void ax_call(void *d);
static std::vector<int> ax_plain; static void ax_late() { AX a; char b[16]; int n = snprintf(b, sizeof b, "late "); if (write(ax_fd, b, (size_t)n)) {} for (int i : ax_plain) zt_atexit(ax_call, &(*axs)[(size_t)i]); }
static void ax_other(void *d) { char b[16]; int n = snprintf(b, sizeof b, "o%d ", d ? ((AX *)d)->id : -1); if (write(ax_fd, b, (size_t)n)) {} }
static void ax_call(void *d) { AX *a = (AX *)d; char b[16]; int n = snprintf(b, sizeof b, "%d ", a ? a->id : -1); if (write(ax_fd, b, (size_t)n)) {} if (a) for (int s : a->spawn) zt_atexit(ax_call, &(*axs)[(size_t)s]); }
P(A01, exit, 1500, 40000, 25, "processes that register 0..40 callbacks, some of them several times or with another function, some of which register others while the process ends (as does, at times, a handler of the C library that runs after all of them), then end by exit with any code; order and number of calls compared with a stack; non-trivial = a callback registered during exit, or three or more callbacks") {
    int n = g.chance(1, 10) ? (int)g.u(40) : (int)g.u(6), code = (int)g.u(255); std::vector<AX> v((size_t)n); std::vector<int> top; for (int i = 0; i < n; i++) { v[(size_t)i].id = i; if (i && g.chance(1, 3)) v[g.u((uint64_t)i - 1)].spawn.push_back(i); else { top.push_back(i); while (g.chance(1, 4)) top.push_back(i); if (g.chance(1, 6)) top.push_back(g.pick(top)); if (g.chance(1, 6)) top.push_back(1000 + g.pick(top) % 1000); } } bool null = g.chance(1, 4), late = g.chance(1, 3); int nl = (int)g.u(2); ax_plain.clear(); if (late && n) for (int i = 0; i < nl; i++) ax_plain.push_back((int)g.u((uint64_t)n - 1)); g.note("%d callbacks, %zu at once, code %d%s%s ", n, top.size(), code, null ? ", one without data" : "", late ? ", others later" : "");
    // a spawned callback may be reached several times, so bound the number of calls
    std::string want; size_t calls = 0; { auto run = [&](std::vector<int> st) { while (!st.empty() && calls < 3000) { calls++; int i = st.back(); st.pop_back(); want += (i >= 1000 ? "o" + std::to_string(i - 1000) : std::to_string(i)) + " "; if (i >= 0 && i < 1000) for (int s : v[(size_t)i].spawn) st.push_back(s); } }; std::vector<int> st = top; if (null) st.push_back(-1); run(st); if (late) { want += "late "; run(ax_plain); } } if (calls >= 3000) return;
    axs = &v; int pf[2]; CHECK(!pipe(pf)); fflush(stdout); fflush(stderr); pid_t pid = fork(); if (!pid) { ax_fd = pf[1]; if (late) atexit(ax_late); for (int i : top) zt_atexit(i >= 1000 ? ax_other : ax_call, &v[(size_t)(i % 1000)]); if (null) zt_atexit(ax_call, NULL); exit(code); } close(pf[1]); std::string got; char b[512]; ssize_t r; while ((r = read(pf[0], b, sizeof b)) > 0) got.append(b, (size_t)r); close(pf[0]); int st; waitpid(pid, &st, 0);
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == code, "the process ended with status %x, not code %d", st, code); CHECK(got == want, "called %s where %s is due", got.c_str(), want.c_str()); if (n >= 3 || top.size() < (size_t)n) g.nontrivial(); if (top.size() < (size_t)n) g.label("during exit"); if (ax_plain.size()) g.label("late");
}
// unit runner
struct uop { int k; int n; const char *s; }; struct uscript { const uop *op; int n; };
extern "C" struct zt_unit_suite *h_unit_suite_c(struct zt_unit *u, const char *name, int setup, int teardown, void *data); extern "C" void h_unit_test_c(struct zt_unit_test *, void *); extern "C" void h_unit_setup(void *), h_unit_teardown(void *);
static std::vector<std::pair<int, void *>> *uev; static std::map<struct zt_unit_test *, uscript> *usc;
extern "C" void h_unit_event(int what, void *d) { uev->push_back({what, d}); }
extern "C" const struct uscript *h_unit_script(struct zt_unit_test *t) { return &(*usc)[t]; }
static char thrown[] = "thrown text";
static void unit_cpp(struct zt_unit_test *test, void *data) {
    const uscript *sc = h_unit_script(test); h_unit_event(3, data);
    for (int i = 0; i < sc->n; i++) { const uop *o = &sc->op[i]; switch (o->k) {
        case 0: for (int j = 0; j < o->n; j++) ZT_UNIT_ASSERT(test, o->n > j); break; case 1: ZT_UNIT_ASSERT(test, o->n < 0); break; case 2: ZT_UNIT_ASSERT(test, o->n < 0, a wrong count); break; case 3: ZT_UNIT_FAIL(test, "%s/%d", o->s, o->n); break;
        case 4: ZT_UNIT_ASSERT_EQUAL(test, o->n, o->n); ZT_UNIT_ASSERT_NOT_EQUAL(test, o->n, o->n + 1); ZT_UNIT_ASSERT_EQUAL(test, o->n & 1, o->n % 2); ZT_UNIT_ASSERT_NOT_EQUAL(test, o->n & 2, 3); break; case 5: ZT_UNIT_ASSERT_EQUAL(test, o->n, o->n + 1); break; case 6: throw (char *)thrown; case 7: throw o->n; case 8: throw std::runtime_error("x"); } }
}
struct UT { std::string name, text; std::vector<uop> ops; long asserts; int exc; bool ok; std::string err; }; struct US { std::string name; bool cpp, su, td; int failed = 0, empty = 0; std::vector<UT> t; };
static std::string trim(std::string s) { while (!s.empty() && (s.back() == ' ' || s.back() == '\n')) s.pop_back(); size_t i = 0; while (i < s.size() && s[i] == ' ') i++; return s.substr(i); }
static std::vector<std::string> tokens(const std::string &s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); std::string l = trim(s.substr(i, e - i)); i = e + 1; if (l.empty()) continue; size_t c = l.find(':'); if (c == std::string::npos || l.compare(0, 2, "- ") == 0) v.push_back(l); else v.push_back(trim(l.substr(0, c)) + "=" + trim(l.substr(c + 1))); } return v; }
P(Q01, runner, 6000, 200000, 50, "suites of tests in C and C++ that pass and fail in every way (assertions, messages, exceptions of several types, nothing at all), run by command lines of any suites, tests, unknown and empty names, lists and help, one after another; output, calls of setup, test and teardown, counts and results compared with a model; memory given back; non-trivial = a test failed and another passed, or a name is unknown or given twice") {
    static std::string home = cwd(); std::vector<US> su; int ns = (int)g.u(3); static const char *NM[] = {"alpha", "b", "two words", "x-1", "a much longer name than thirty characters"}; std::vector<std::vector<std::string>> keep;
    for (int i = 0; i < ns; i++) { US s; s.name = NM[g.u(4)]; if (g.chance(1, 3)) s.name += std::to_string(g.u(9)); s.cpp = g.coin(); s.su = g.coin(); s.td = g.coin(); int nt = (int)g.u(4); for (int j = 0; j < nt; j++) { UT t; t.name = NM[g.u(4)]; if (g.coin()) t.name += std::to_string(g.u(9)); t.text = g.str("abc %d'", 8); t.asserts = 0; t.exc = 0; t.ok = true; int no = (int)g.u(3); for (int k = 0; k < no; k++) { uop o; o.k = g.chance(1, 3) ? (int)g.u(s.cpp ? 8 : 5) : (g.coin() ? 0 : 4); o.n = g.chance(1, 20) ? 1000 : (int)g.u(5); o.s = NULL; t.ops.push_back(o); if (!t.ok) continue; switch (o.k) { case 0: t.asserts += o.n; break; case 4: t.asserts += 4; break; case 1: t.ok = false; t.err = "'o->n < 0 : *"; break; case 2: t.ok = false; t.err = "'a wrong count : *"; break; case 3: t.ok = false; t.err = "'" + t.text + "/" + std::to_string(o.n) + "'"; break; case 5: t.ok = false; t.err = "'(o->n == o->n + 1) : *"; break; case 6: t.ok = false; t.exc = 1; t.err = "'unhandled exception: thrown text'"; break; default: t.ok = false; t.exc = 1; t.err = "'unhandled exception: unknown'"; } } g.note("%s.%s(%ld%s) ", s.name.c_str(), t.name.c_str(), t.asserts, t.ok ? "" : " fails"); s.t.push_back(t); } su.push_back(s); }
    for (auto &s : su) for (auto &t : s.t) for (auto &o : t.ops) o.s = t.text.c_str();
    int rounds = 1 + (int)g.u(2); std::vector<std::vector<std::string>> cmds; for (int r = 0; r < rounds; r++) { std::vector<std::string> a; int n = g.chance(1, 3) ? 0 : (int)g.u(4); for (int i = 0; i < n; i++) { int k = (int)g.u(11); std::string x; if (k <= 6 && !su.empty()) { auto &s = g.pick(su); x = s.name; if (k >= 3 && !s.t.empty()) x += "." + g.pick(s.t).name; } else if (k == 7) x = g.pick({"", ".", "..", "a.", ".a", "alpha.", ".b", "b..x-1", "alpha.b.c", "-x", "--"}); else if (k == 8) x = "none"; else if (k == 9) x = su.empty() ? "q.r" : su[0].name + ".none"; else if (k == 10 && g.chance(1, 3)) x = g.pick({"-l", "--list", "-h", "--help"}); else x = g.pick({"alpha", "b", "alpha1", "alp", "two"}); a.push_back(x); } for (auto &x : a) g.note("[%s] ", x.c_str()); g.note("; "); cmds.push_back(a); }
    std::vector<std::pair<int, void *>> ev, wev; ev.reserve(4000); wev.reserve(4000); std::map<struct zt_unit_test *, uscript> sc; uev = &ev; usc = &sc; bool fails = false, passes = false, odd = false, single = false;
    std::string outf = home + "/unit.out"; fflush(stdout); static bool warm = false; if (!warm) { printf(" "); fflush(stdout); warm = true; }
    std::vector<std::string> outs((size_t)rounds), wants; std::vector<int> res((size_t)rounds), wres; std::vector<struct zt_unit_test *> dummy; dummy.reserve(64); unsigned long succ = 0, fail = 0, asserts = 0, excs = 0, tests = 0, suites = 0, empty = 0; unsigned gs = 0, gf = 0;
    std::vector<std::vector<std::string>> wt((size_t)rounds);
    auto runtest = [&](US &s, size_t si, UT &t, std::vector<std::string> &w) { w.push_back(t.name + "="); if (s.su) wev.push_back({1, &su[si]}); wev.push_back({3, &su[si]}); if (s.td) wev.push_back({2, &su[si]}); w.push_back("assertions=" + std::to_string(t.asserts)); if (t.exc) w.push_back("unhandled_exceptions=1"); w.push_back(std::string("result=") + (t.ok ? "success" : "failure")); (t.ok ? succ : fail)++; (t.ok ? passes : fails) = true; };
    auto runsuite = [&](size_t si, std::vector<std::string> &w) { US &s = su[si]; suites++; w.push_back("---"); w.push_back(s.name + "="); w.push_back("Tests="); for (auto &t : s.t) { tests++; runtest(s, si, t, w); if (!t.ok) s.failed++; if (!t.asserts && !t.exc) { s.empty++; empty++; } asserts += (unsigned long)t.asserts; excs += (unsigned long)t.exc; } if (s.failed) { w.push_back("Errors="); for (auto &t : s.t) if (!t.ok) w.push_back(t.name + "=" + t.err); } };
    std::vector<std::pair<unsigned, unsigned>> wsf;
    for (int r = 0; r < rounds; r++) { auto &w = wt[(size_t)r]; auto &a = cmds[(size_t)r]; int result = 0; bool done = false; for (auto &x : a) { if (x == "-h" || x == "--help") { w.push_back("HELP"); done = true; break; } if (x == "-l" || x == "--list") { w.push_back("Test Suites="); for (auto &s : su) { w.push_back(s.name + "="); for (auto &t : s.t) w.push_back("- " + t.name); } done = true; break; } }
        if (!done) { if (a.empty()) { for (size_t i = 0; i < su.size(); i++) runsuite(i, w); w.push_back("---"); if (single) w.push_back("STATS"); else { w.push_back("Global Stats="); w.push_back("suites=" + std::to_string(suites)); w.push_back("tests=" + std::to_string(tests)); w.push_back("successes=" + std::to_string(succ)); w.push_back("exceptions=" + std::to_string(excs)); w.push_back("assertions=" + std::to_string(asserts)); w.push_back("failures=" + std::to_string(fail)); if (empty) { w.push_back("empty tests="); for (auto &s : su) for (auto &t : s.t) if (!t.asserts && !t.exc) w.push_back("- " + t.name); } } }
            else for (auto &x : a) { size_t d = x.find('.'); std::string sn = x.substr(0, d), tn = d == std::string::npos ? "" : x.substr(d + 1); int si = -1, ti = -1; for (size_t i = 0; i < su.size() && si < 0; i++) if (su[i].name == sn) si = (int)i; bool found = si >= 0; if (found && d != std::string::npos) { for (size_t i = 0; i < su[(size_t)si].t.size() && ti < 0; i++) if (su[(size_t)si].t[i].name == tn) ti = (int)i; found = ti >= 0; } for (auto &y : a) if (&x != &y && x == y) odd = true; if (!found) { w.push_back("Suite or Test \"" + x + "\" not found"); result = -1; odd = true; } else if (ti >= 0) { runtest(su[(size_t)si], (size_t)si, su[(size_t)si].t[(size_t)ti], w); single = true; } else runsuite((size_t)si, w); }
            if (result == 0 && fail) result = -1; }
        wres.push_back(result); wsf.push_back({(unsigned)succ, (unsigned)fail}); }
    int save = dup(1); int fd = open(outf.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600); CHECK(fd >= 0); std::vector<std::pair<unsigned, unsigned>> gsf((size_t)rounds); (void)gs; (void)gf;
    std::vector<std::unique_ptr<CStr>> cs; std::vector<std::vector<char *>> argv; for (auto &a : cmds) { std::vector<char *> v; cs.emplace_back(new CStr("unit_prog")); v.push_back(*cs.back()); for (auto &x : a) { cs.emplace_back(new CStr(x)); v.push_back(*cs.back()); } v.push_back(NULL); argv.push_back(v); }
    std::vector<size_t> cuts; cuts.reserve(16); ssize_t leak;
    { size_t hm = 0; size_t h0 = heap(); struct zt_unit *u = zt_unit_init(); for (auto &s : su) { struct zt_unit_suite *z = s.cpp ? zt_unit_register_suite_(u, s.name.c_str(), s.su ? h_unit_setup : NULL, s.td ? h_unit_teardown : NULL, &s, zt_unit_try_cpp) : h_unit_suite_c(u, s.name.c_str(), s.su, s.td, &s); for (auto &t : s.t) { struct zt_unit_test *zt = zt_unit_register_test(z, t.name.c_str(), s.cpp ? unit_cpp : h_unit_test_c); size_t a = heap(); sc[zt] = uscript{t.ops.data(), (int)t.ops.size()}; hm += heap() - a; } }
      dup2(fd, 1); for (int r = 0; r < rounds; r++) { res[(size_t)r] = zt_unit_main(u, (int)argv[(size_t)r].size() - 1, argv[(size_t)r].data()); fflush(stdout); cuts.push_back((size_t)lseek(fd, 0, SEEK_END)); gsf[(size_t)r] = {u->successes, u->failures}; } dup2(save, 1);
      zt_unit_release(&u); CHECK(u == NULL); leak = (ssize_t)(heap() - h0 - hm); }
    close(save); close(fd); std::string all = slurp(outf); unlink(outf.c_str()); size_t p = 0;
    for (int r = 0; r < rounds; r++) { auto got = tokens(all.substr(p, cuts[(size_t)r] - p)); p = cuts[(size_t)r]; auto &w = wt[(size_t)r]; if (w.size() == 1 && w[0] == "HELP") { std::string h; for (auto &x : got) h += x + "\n"; CHECK(h.find("unit_prog") != std::string::npos && h.find("--list") != std::string::npos && h.find("--help") != std::string::npos, "help says %s", h.c_str()); }
        else { for (size_t i = 0; i < w.size(); i++) { if (w[i] == "STATS") { got.resize(i + 1); break; } CHECK(i < got.size(), "output ends before %s", w[i].c_str()); if (w[i].size() && w[i].back() == '*' && w[i].compare(w[i].size() - 3, 3, ": *") == 0) { std::string pre = w[i].substr(0, w[i].size() - 1); CHECK(got[i].compare(0, pre.size(), pre) == 0 && got[i].find("h_sys") != std::string::npos && got[i].back() == '\'', "output has %s where %s is due", got[i].c_str(), w[i].c_str()); } else CHECK(got[i] == w[i], "output has %s where %s is due", got[i].c_str(), w[i].c_str()); } CHECK(got.size() <= w.size(), "output has more: %s", got[w.size()].c_str()); }
        CHECK(res[(size_t)r] == wres[(size_t)r], "run %d has the result %d where %d is due", r, res[(size_t)r], wres[(size_t)r]); CHECK(gsf[(size_t)r] == wsf[(size_t)r], "%u successes and %u failures are counted where %u and %u are due", gsf[(size_t)r].first, gsf[(size_t)r].second, wsf[(size_t)r].first, wsf[(size_t)r].second); }
    CHECK(ev.size() == wev.size(), "%zu calls of setup, test and teardown where %zu are due", ev.size(), wev.size()); for (size_t i = 0; i < ev.size(); i++) CHECK(ev[i] == wev[i], "call %zu is %d where %d is due, or with wrong data", i, ev[i].first, wev[i].first);
    CHECK(leak == 0, "%zd bytes of memory not given back", leak); if ((fails && passes) || odd) g.nontrivial(); if (odd) g.label("unknown or repeated"); if (fails) g.label("failures");
}
struct DT { struct zt_unit_test *t; std::unique_ptr<std::string> text; std::vector<uop> ops; long asserts = 0, exc = 0; bool ok = true; int ran = -1; }; struct DS { struct zt_unit_suite *s; bool cpp, su, td; int succ = 0, fail = 0, ass = 0, exc = 0, empty = 0; std::list<DT> t; int id; };
P(Q01, pieces, 12000, 400000, 50, "histories of registering, running and releasing single suites and tests, with tests of every outcome, running a suite, a test and everything in any order and again; results, counts in unit, suite and test and calls of setup, test and teardown compared with a model, memory given back; non-trivial = something ran after a suite or test was released") {
    static bool warm = false; if (!warm) { printf(" "); fflush(stdout); warm = true; } std::vector<std::pair<int, void *>> ev, wev; std::map<struct zt_unit_test *, uscript> sc; uev = &ev; usc = &sc; ev.reserve(100000); wev.reserve(100000); unsigned succ = 0, fail = 0, tests = 0, suites = 0, ass = 0, exc = 0, empty = 0; bool released = false; int save = dup(1), nul = open("/dev/null", O_WRONLY); struct Back { int s, n; ~Back() { fflush(stdout); dup2(s, 1); close(s); close(n); } } back{save, nul}; dup2(nul, 1); static char data[64];
    size_t own = 0, h0 = heap(); struct zt_unit *u = zt_unit_init(); std::list<DS> su; int n = 1 + (int)g.u(29), nid = 0; auto pick = [&]() { auto it = su.begin(); std::advance(it, g.u(su.size() - 1)); return it; };
    auto mrun = [&](DS &s, DT &t) { if (s.su) wev.push_back({1, data + s.id}); wev.push_back({3, data + s.id}); if (s.td) wev.push_back({2, data + s.id}); t.ran = t.ok; }; auto msuite = [&](DS &s) { suites++; for (auto &t : s.t) { tests++; mrun(s, t); if (t.ok) succ++, s.succ++; else fail++, s.fail++; if (!t.asserts && !t.exc) s.empty++, empty++; s.ass += (int)t.asserts; s.exc += (int)t.exc; ass += (unsigned)t.asserts; exc += (unsigned)t.exc; } };
    for (int i = 0; i < n; i++) { int op = (int)g.u(11); size_t a = heap();
        if (op <= 1 || su.empty()) { if (nid >= 60) continue; DS s; s.cpp = g.coin(); s.su = g.coin(); s.td = g.coin(); s.id = nid++; std::string name = g.str("ab ", 5); g.note("suite %d; ", s.id); own += heap() - a; { CStr c(name); s.s = s.cpp ? zt_unit_register_suite_(u, c.p, s.su ? h_unit_setup : NULL, s.td ? h_unit_teardown : NULL, data + s.id, zt_unit_try_cpp) : h_unit_suite_c(u, c.p, s.su, s.td, data + s.id); } CHECK(s.s && name == s.s->name && s.s->data == data + s.id); a = heap(); su.push_back(std::move(s)); own += heap() - a; }
        else if (op <= 5) { auto s = pick(); DT t; t.text.reset(new std::string(g.str("abc %d'", 8))); int no = (int)g.u(3); for (int k = 0; k < no; k++) { uop o; o.k = g.chance(1, 3) ? (int)g.u(s->cpp ? 8 : 5) : g.coin() ? 0 : 4; o.n = (int)g.u(5); o.s = t.text->c_str(); t.ops.push_back(o); if (!t.ok) continue; if (o.k == 0) t.asserts += o.n; else if (o.k == 4) t.asserts += 4; else { t.ok = false; if (o.k >= 6) t.exc = 1; } } g.note("test in %d%s; ", s->id, t.ok ? "" : " fails"); std::string name = g.str("ab ", 5); own += heap() - a; { CStr c(name); t.t = zt_unit_register_test(s->s, c.p, s->cpp ? unit_cpp : h_unit_test_c); } CHECK(t.t && name == t.t->name); a = heap(); s->t.push_back(std::move(t)); sc[s->t.back().t] = uscript{s->t.back().ops.data(), (int)s->t.back().ops.size()}; own += heap() - a; }
        else if (op == 6) { auto s = pick(); if (s->t.empty()) continue; auto t = s->t.begin(); std::advance(t, g.u(s->t.size() - 1)); g.note("release a test of %d; ", s->id); struct zt_unit_test *x = t->t; sc.erase(x); s->t.erase(t); own -= a - heap(); zt_unit_release_test(&x); released = true; }
        else if (op == 7 && g.coin()) { auto s = pick(); g.note("release suite %d; ", s->id); struct zt_unit_suite *x = s->s; for (auto &t : s->t) sc.erase(t.t); su.erase(s); own -= a - heap(); zt_unit_release_suite(&x); CHECK(x == NULL, "a released suite is still referred to"); released = true; }
        else if (op <= 9) { auto s = pick(); if (s->t.empty() || g.coin()) { g.note("run suite %d; ", s->id); int r = zt_unit_run_suite(u, s->s); CHECK(r == 0); msuite(*s); } else { auto t = s->t.begin(); std::advance(t, g.u(s->t.size() - 1)); g.note("run a test of %d; ", s->id); int r = zt_unit_run_test(u, s->s, t->t); mrun(*s, *t); CHECK((r != 0) == t->ok, "running a test says %d", r); } if (released) g.nontrivial(); }
        else { g.note("run all; "); int r = zt_unit_run(u); CHECK(r == 0); for (auto &s : su) msuite(s); if (released) g.nontrivial(); }
        CHECK(u->suite_count == suites && u->tests == tests && u->successes == succ && u->failures == fail && u->assertions == ass && u->exceptions == exc && u->empty == empty, "the unit counts %u suites %u tests %u successes %u failures %u assertions %u exceptions %u empty where %u %u %u %u %u %u %u are due", u->suite_count, u->tests, u->successes, u->failures, u->assertions, u->exceptions, u->empty, suites, tests, succ, fail, ass, exc, empty);
        for (auto &s : su) { CHECK(s.s->succeeded == s.succ && s.s->failed == s.fail && s.s->assertions == s.ass && s.s->exceptions == s.exc && s.s->empty == s.empty, "suite %d counts %d %d %d %d %d where %d %d %d %d %d are due", s.id, s.s->succeeded, s.s->failed, s.s->assertions, s.s->exceptions, s.s->empty, s.succ, s.fail, s.ass, s.exc, s.empty); for (auto &t : s.t) { CHECK(t.t->success == t.ran, "a test has the result %d where %d is due", t.t->success, t.ran); if (t.ran >= 0) CHECK(t.t->assertions == t.asserts && t.t->exceptions == t.exc && (t.t->error != NULL) == !t.ok, "a test counts %ld assertions and %ld exceptions%s", t.t->assertions, t.t->exceptions, t.t->error ? " and an error" : ""); } }
        CHECK(ev == wev, "the calls of setup, test and teardown are not the ones due"); }
    zt_unit_release(&u); CHECK(u == NULL); NOLEAK(h0 + own, "suites and tests");
}
// pid file
// writes and closes that fail on request
#include <sys/syscall.h>
static struct { bool on; int fd, eintr, werr, cerr, shortby, fired; } flt;
extern "C" ssize_t write(int fd, const void *b, size_t n) { if (flt.on && fd >= 3) { if (flt.eintr > 0) { flt.eintr--; errno = EINTR; return -1; } if (flt.werr) { flt.fired++; errno = flt.werr; return -1; } if (flt.shortby && n > (size_t)flt.shortby) { n -= (size_t)flt.shortby; flt.shortby = -1; flt.fired++; } else if (flt.shortby < 0) { errno = ENOSPC; return -1; } } return syscall(SYS_write, fd, b, n); }
extern "C" int close(int fd) { int r = (int)syscall(SYS_close, fd); if (flt.on && fd >= 3) { if (!r && flt.cerr) { flt.fired++; errno = flt.cerr; return -1; } } return r; }
P(D01, faults, 20000, 400000, 200, "writes that are interrupted up to five times, fail with any error, or write a part and fail then, and closes that fail: the call fails exactly if the file is not written and closed, and the file is closed in every case; non-trivial = always") {
    static std::string home = cwd(); if (chdir(home.c_str())) FAIL("chdir"); quietlog(); umask(0); int kind = (int)g.u(4); unlink("f.pid"); if (g.coin()) spit("f.pid", g.strn("9", g.u(30))); g.nontrivial(); CStr c("f.pid"); int before = dup(0); close(before); memset(&flt, 0, sizeof flt); flt.eintr = kind == 0 || g.chance(1, 3) ? (int)g.u(5) : 0; if (kind == 1) flt.werr = g.pick({EIO, ENOSPC, EDQUOT, EPIPE, EFBIG, EBADF, EAGAIN}); if (kind == 2) flt.cerr = g.pick({EIO, ENOSPC, EDQUOT}); if (kind == 3) flt.shortby = 1 + (int)g.u(9); g.note("%d interruptions, write error %d, close error %d, short by %d", flt.eintr, flt.werr, flt.cerr, flt.shortby);
    std::string want = std::to_string(getpid()) + "\n"; int eintr = flt.eintr; flt.on = true; int r = zt_writepid(c); flt.on = false; int after = dup(0); close(after); CHECK(before == after, "the file is left open"); CHECK((r == 0) == !flt.fired, "zt_writepid gave %d with %d interruptions, write error %d, close error %d", r, eintr, flt.werr, flt.cerr); if (r == 0) CHECK(slurp("f.pid") == want, "the pid file holds %s", show(slurp("f.pid")).c_str()); CHECK(r == 0 || r == -1); unlink("f.pid");
}
P(D01, pidfile, 4000, 100000, 50, "new, existing (shorter and longer) and linked files, missing directories, directories, a full device, over-long names, no name, file size limits, every umask, from the process and from a child; content, mode, result and open descriptors compared; non-trivial = the file existed before or the call must fail") {
    static std::string home = cwd(); if (chdir(home.c_str())) FAIL("chdir"); quietlog(); umask(0); fresh(); if (chdir(HOME[0])) FAIL("chdir");
    int kind = (int)g.u(9); mode_t mask = (mode_t)g.pick({0, 022, 077, 027, 0177}); std::string name = g.pick({"a.pid", "x y.pid", "%d.pid"}); bool child = g.chance(1, 4); std::string old; mode_t om = (mode_t)g.pick({0644, 0600, 0777, 0400}); int lim = -1; bool ok = true; std::string target = name; bool exists = false;
    switch (kind) { case 0: case 1: break; case 2: case 3: old = g.strn("0123456789\nz", 1 + g.u(40)); exists = true; break; case 4: exists = g.coin(); target = "target"; if (symlink("target", name.c_str())) {} if (exists) old = g.strn("9", g.u(30)); break; case 5: name = g.pick({"none/a.pid", "lib", "", ".", "/dev/null/x"}); if (name == "lib") mkdirat(AT_FDCWD, "lib", 0777); ok = false; break; case 6: name = "/dev/full"; ok = false; break; case 7: name = std::string((size_t)g.pick({300, 5000}), 'p'); ok = false; break; case 8: ok = false; break; default: lim = (int)g.u(8); target = name; }
    if (exists) { spit(target, old); chmod(target.c_str(), om); } g.note("kind %d %s umask %o%s limit %d ", kind, show(name, 30).c_str(), mask, child ? " child" : "", lim);
    fflush(stdout); fflush(stderr); pid_t pid = 0; int pf[2]; CHECK(!pipe(pf)); if (child || lim >= 0) pid = fork();
    if (!pid) { if (lim >= 0) { signal(SIGXFSZ, SIG_IGN); struct rlimit rl = {(rlim_t)lim, (rlim_t)lim}; setrlimit(RLIMIT_FSIZE, &rl); } umask(mask); int before = dup(0); close(before); CStr c(name); int r = zt_writepid(kind == 8 ? NULL : (char *)c); int after = dup(0); close(after); umask(0); int v[2] = {r, before == after}; if (write(pf[1], v, sizeof v)) {} if (child || lim >= 0) _exit(0); pid = getpid(); } else waitpid(pid, NULL, 0);
    int v[2] = {77, 0}; close(pf[1]); if (read(pf[0], v, sizeof v)) {} close(pf[0]); CHECK(v[0] == 0 || v[0] == -1, "zt_writepid ended with %d", v[0]); CHECK(v[1], "zt_writepid leaves its file open"); std::string text = std::to_string(pid) + "\n"; if (lim >= 0 && (size_t)lim < text.size()) ok = false;
    CHECK((v[0] == 0) == ok, "zt_writepid says %s for kind %d", v[0] == 0 ? "done" : "failed", kind); if (ok) { std::string got = slurp(target); CHECK(got == text, "the pid file holds %s where %s is due", show(got).c_str(), show(text).c_str()); struct stat st; CHECK(!stat(target.c_str(), &st)); mode_t wm = exists ? om : (0644 & ~mask); CHECK((st.st_mode & 07777) == wm, "the pid file has mode %o where %o is due", st.st_mode & 07777, wm); struct stat l; if (kind == 4) CHECK(!lstat(name.c_str(), &l) && S_ISLNK(l.st_mode), "the link was replaced"); }
    if (!ok || exists) g.nontrivial(); g.label(ok ? "written" : "refused"); if (chdir(home.c_str())) FAIL("chdir"); fresh();
}
struct Rep { pid_t pid, ppid, pgid, sid; unsigned mask; int ret, nfds, dev[3], rw[3], tty, heapok, pidfile; char cwd[600], sig[200]; };
static std::string sigs() { std::string s = slurp("/proc/self/status"), o; for (const char *k : {"SigBlk:", "SigIgn:", "SigCgt:"}) { size_t i = s.find(k); if (i != std::string::npos) o += s.substr(i, s.find('\n', i) - i) + " "; } return o; }
P_(D02, daemon, 64, 1600, 4, 60, 16, 3, "processes with 0..12 extra open descriptors, any umask, signal settings and working directory become daemons, as root and as somebody else, with a directory (existing, missing, a file, one they may not enter, none); the daemon reports its session, parent, descriptors, directory, umask, signals and memory; non-trivial = extra descriptors were open and a directory was given") {
    static std::string home = cwd(); if (chdir(home.c_str())) FAIL("chdir"); quietlog(); umask(0); fresh(); std::string dir = home + "/lib/1"; int rk = (int)g.u(3); std::string root = rk == 0 ? home + "/lib" : rk == 1 ? dir + "/2" : rk == 2 ? g.pick({std::string("none"), std::string("afile"), std::string("lib/1/afile/"), std::string("closed"), std::string("closed/in"), std::string(300, 'd')}) : ""; mode_t mask = (mode_t)g.pick({0, 022, 077, 027, 0777}); int nfd = (int)g.u(12), lim = g.pick({256, 256, 1024, 3000}), low = g.chance(1, 3) ? (int)g.range(8, lim) : lim; std::vector<int> at; for (int i = 0; i < nfd; i++) at.push_back(g.coin() ? -1 : g.coin() ? (int)g.range(10, 240) : (int)g.range(10, lim - 1)); bool nobody = rk == 2 || g.chance(1, 3); std::string given; if (rk == 2) { spit("afile", ""); spit("lib/1/afile", ""); mkdirat(AT_FDCWD, "closed", 0700); mkdirat(AT_FDCWD, "closed/in", 0777); chmod("closed", 0700); root = root[0] == 'l' || g.coin() ? home + "/" + root : "../../" + root; } given = rk < 2 && (nobody || g.chance(1, 3)) ? rk == 0 ? ".." : g.pick({"2", "./2", "2/../2/"}) : root; std::vector<int> sig; for (int k = (int)g.u(3); k > 0; k--) sig.push_back(g.pick({SIGHUP, SIGCHLD, SIGUSR1, SIGUSR2, SIGPIPE, SIGTERM, SIGWINCH}) * (g.coin() ? 1 : -1)); bool closed[3]; for (auto &c : closed) c = g.chance(1, 6); g.note("root %s umask %o %d descriptors, limit %d then %d", rk == 3 ? "(none)" : given.c_str(), mask, nfd, lim, low);
    std::string rep = home + "/report"; unlink(rep.c_str()); unlink((home + "/d.pid").c_str()); std::vector<int> *keep = new std::vector<int>(1000, 7); fflush(stdout); fflush(stderr);
    int guard[2]; CHECK(!pipe(guard)); pid_t t = fork();
    if (!t) { close(guard[0]); struct rlimit rl = {(rlim_t)lim, (rlim_t)lim}, lo = {(rlim_t)low, (rlim_t)lim}, rc = {5, 6}; setrlimit(RLIMIT_NOFILE, &rl); setrlimit(RLIMIT_CPU, &rc); if (chdir(dir.c_str())) _exit(9); umask(0111); for (int x : sig) if (x > 0) signal(x, x == SIGCHLD ? SIG_DFL : SIG_IGN); else { sigset_t m; sigemptyset(&m); sigaddset(&m, -x); sigprocmask(SIG_BLOCK, &m, NULL); } std::string before = sigs(); for (int f : at) { int d = open("/dev/zero", O_RDONLY); if (f > 0) { dup2(d, f); close(d); } } for (int i = 0; i < 3; i++) if (closed[i]) close(i); setrlimit(RLIMIT_NOFILE, &lo);
        Nobody who(nobody); pid_t me = getpid(); CStr r(given); int ret = zt_daemonize(rk == 3 ? NULL : (char *)r, mask, 0); alarm(20); who.back(); if (getpid() == me) _exit(8);
        Rep o; memset(&o, 0, sizeof o); o.ret = ret; o.pid = getpid(); o.ppid = getppid(); o.pgid = getpgrp(); o.sid = getsid(0); o.mask = umask(0); for (int i = 0; i < lim; i++) if (fcntl(i, F_GETFD) >= 0) o.nfds++; for (int i = 0; i < 3; i++) { char p[40], l[100] = ""; snprintf(p, sizeof p, "/proc/self/fd/%d", i); ssize_t n = readlink(p, l, 99); if (n > 0) l[n] = 0; o.dev[i] = !strcmp(l, "/dev/null"); o.rw[i] = fcntl(i, F_GETFL) & O_ACCMODE; } int tf = open("/dev/tty", O_RDWR | O_NOCTTY); o.tty = tf >= 0; if (tf >= 0) close(tf); { std::string a = sigs(); snprintf(o.sig, sizeof o.sig, "%s", a == before && !a.empty() ? "same" : (a + " from " + before).c_str()); } o.heapok = 1; for (int x : *keep) if (x != 7) o.heapok = 0; if (!getcwd(o.cwd, sizeof o.cwd)) o.cwd[0] = 0; o.pidfile = zt_writepid((home + "/d.pid").c_str());
        std::string tmp = rep + ".t"; int f = open(tmp.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); if (write(f, &o, sizeof o)) {} close(f); rename(tmp.c_str(), rep.c_str()); _exit(0); }
    close(guard[1]); int st = 0; waitpid(t, &st, 0); CHECK(WIFEXITED(st), "the starting process ended with status %x", st); unlink("afile"); rmdir("closed/in"); rmdir("closed"); CHECK(WEXITSTATUS(st) != 8, "the starting process itself goes on after zt_daemonize");
    { int max = 500; while (access(rep.c_str(), F_OK) && max--) { if (rk == 2) break; usleep(10000); } }
    if (rk == 2) CHECK(access(rep.c_str(), F_OK) != 0, "a daemon runs although its directory is missing");
    else { CHECK(WEXITSTATUS(st) == 0, "the starting process ended with code %d", WEXITSTATUS(st)); std::string s = slurp(rep); CHECK(s.size() == sizeof(Rep), "no daemon runs after zt_daemonize"); Rep o; memcpy(&o, s.data(), sizeof o); CHECK(o.ret == 0, "zt_daemonize returns %d in the daemon", o.ret); CHECK(o.pid != t && o.ppid != t, "the daemon is still a child of the starting process"); CHECK(o.sid != getsid(0), "the daemon is in the session it was started from"); CHECK(o.sid != o.pid && o.sid != 0, "the daemon leads its session and can get a terminal"); CHECK(o.pgid == o.sid, "the daemon is in process group %d of session %d", o.pgid, o.sid); CHECK(!o.tty, "the daemon has a terminal"); CHECK(o.mask == mask, "the umask of the daemon is %o where %o is due", o.mask, mask); CHECK(o.cwd == (rk == 3 ? dir : root), "the daemon runs in %s", o.cwd); CHECK(o.nfds == 3, "%d descriptors are open in the daemon where 3 are due", o.nfds); for (int i = 0; i < 3; i++) { CHECK(o.dev[i], "descriptor %d of the daemon is not /dev/null", i); CHECK(o.rw[i] == O_RDWR, "descriptor %d of the daemon has access mode %d", i, o.rw[i]); } CHECK(!strcmp(o.sig, "same"), "the signals of the daemon are set to %s", o.sig); CHECK(o.heapok, "memory of the daemon was changed"); CHECK(o.pidfile == 0 && slurp(home + "/d.pid") == std::to_string(o.pid) + "\n", "the pid file of the daemon is wrong"); if (nfd && rk < 2) g.nontrivial(); }
    close(guard[0]); delete keep; unlink(rep.c_str()); unlink((home + "/d.pid").c_str()); fresh();
}
// assertions
extern "C" { extern int h_ran; int h_assert(int, int); void h_ret(int); int h_retv(int, int); }
P(L03, assertions, 4000, 100000, 50, "all assertion macros with true and false conditions in child processes, and the reporting calls with any condition text, file name (up to and above PATH_MAX, percent signs), line and function or none; how the process goes on and the log compared; non-trivial = a condition failed") {
    static std::string home = cwd(); if (chdir(home.c_str())) FAIL("chdir"); unlink("alog"); zt_log_set_debug_info(NULL, 0, NULL); int form = (int)g.u(6), v = g.coin(), rv = (int)g.bits(32); if (rv == -12345) rv = 1; std::string s = g.chance(1, 10) ? std::string((size_t)g.range(100, 3000), 's') : g.str("ab%sdn()!=\"", 20), file = g.chance(1, 8) ? std::string((size_t)g.range(PATH_MAX - 5, PATH_MAX + 5), 'f') : g.str("/a.c%d ", 20) + "q.c", func = g.str("fn_%s", 10); unsigned line = (unsigned)g.bits(32) & 0x7fffffff; bool nos = g.chance(1, 8), nof = g.chance(1, 4);
    g.note("form %d %s ", form, form < 4 ? (v ? "true" : "false") : show(s, 30).c_str()); zt_log_ty *l = zt_log_file((char *)"alog", ZT_LOG_FILE_OVERWRITE, 0), *old = zt_log_logger(l); std::string want; bool prefix_only = false;
    if (form < 4) { fflush(stdout); fflush(stderr); int pf[2]; CHECK(!pipe(pf)); pid_t pid = fork(); if (!pid) { h_ran = 0; int r[2] = {0, 0}; struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z); if (form < 2) { h_assert(form, v); } else if (form == 2) h_ret(v); else r[1] = h_retv(v, rv); r[0] = h_ran; if (write(pf[1], r, sizeof r)) {} if (form >= 2) fflush(NULL); _exit(0); } close(pf[1]); int r[2] = {-7, -7}; ssize_t n = read(pf[0], r, sizeof r); close(pf[0]); int st; waitpid(pid, &st, 0);
        if (form < 2) { if (v) CHECK(WIFEXITED(st) && n == (ssize_t)sizeof r && r[0] == 1, "a true assertion stopped the process"); else CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && n == 0, "a failed assertion did not abort the process (status %x)", st); } else { CHECK(WIFEXITED(st) && n == (ssize_t)sizeof r, "the process was stopped"); CHECK(r[0] == v, "the function %s after its assertion", v ? "returned" : "went on"); if (form == 3) CHECK(r[1] == (v ? -12345 : rv), "the value returned is %d", r[1]); }
        if (!v) { want = form == 1 ? "Exiting: \"no more\": h_sys_ops.c[" : "Assertion Failed: \"v == 1\": h_sys_ops.c["; prefix_only = true; g.nontrivial(); } }
    else { CStr cs(s), cf(file), cn(func); if (form == 4) _zt_log_assertion(nos ? NULL : (char *)cs, cf, line, nof ? NULL : (char *)cn); else if (form == 5) { int r = _zt_log_abort(nos ? NULL : (char *)cs, cf, line, nof ? NULL : (char *)cn); CHECK(r == 0); } else { zt_log_printf(zt_log_err, "x"); }
        std::string b = file.substr(file.rfind('/') == std::string::npos ? 0 : file.rfind('/') + 1); if (b.size() > PATH_MAX - 1) { b.resize(PATH_MAX - 1); }
        if (form < 6) want = std::string(form == 4 ? "Assertion Failed: \"" : "Exiting: \"") + (nos ? (form == 4 ? "no assertion given" : "no message given") : s) + "\": " + b + "[" + std::to_string(line) + (nof ? "" : ":" + func) + "]\n"; else want = "x\n"; g.nontrivial(); }
    zt_log_logger(old); zt_log_close(l); std::string got = slurp("alog"); if (prefix_only) { CHECK(got.compare(0, want.size(), want) == 0 && got.size() > 3 && got.compare(got.size() - 2, 2, "]\n") == 0 && std::count(got.begin(), got.end(), '\n') == 1, "the log says %s", show(got).c_str()); static const char *F[] = {":h_assert]", ":h_assert]", ":h_ret]", ":h_retv]"}; CHECK(got.find(F[form]) != std::string::npos, "the log says %s", show(got).c_str()); } else CHECK(got == want, "the log says %s where %s is due", show(got, 300).c_str(), show(want, 300).c_str()); unlink("alog");
}
// macros
#define DECL(n) extern "C" long long h_i_##n(int, int, int); extern "C" double h_d_##n(double, double, double); extern "C" unsigned long long h_u_##n(unsigned long long, unsigned long long, unsigned long long);
DECL(max) DECL(min) DECL(clamp) DECL(ceil) DECL(floor) DECL(maxe) DECL(mine) DECL(clampe)
struct hmem; extern "C" { unsigned long long h_bitw_8(int, unsigned long long, unsigned long long), h_bitw_16(int, unsigned long long, unsigned long long), h_bitw_32(int, unsigned long long, unsigned long long), h_bitw_64(int, unsigned long long, unsigned long long); long long h_i_abs(int, int, int); long long h_i_abse(int, int, int); double h_d_abs(double); unsigned h_bitset(unsigned, unsigned); unsigned h_bitunset(unsigned, unsigned); int h_bitis(unsigned, unsigned); int h_bitisnot(unsigned, unsigned); int h_bitexpr(unsigned, unsigned, unsigned); unsigned h_bitop(int, int, unsigned, unsigned, unsigned, unsigned); int h_cmpexpr(int, int, int, int, int); int h_container(void *, int); size_t h_offset(int); size_t h_memsize(void); void *h_mem(int, void *); int h_arrays(void); int h_indent(char *, size_t, int, int, int, int); }
P(X01, memory, 60000, 2000000, 200, "histories of the allocation macros on up to eight blocks of bytes, longs and 24-byte records with expressions as arguments: every block holds what was put in it when it grows, shrinks and moves, fresh cleared memory is zero, a freed pointer is NULL and may be freed again, and all memory is given back; non-trivial = a block of more than 8 elements grown") {
    struct Rec { char c[24]; }; struct Blk { void *p; size_t unit, n; std::string m; }; size_t h0 = heap(); { std::vector<Blk> v; bool nt = false; int k = 1 + (int)g.u(39); auto size = [&] { return 1 + (size_t)g.u(g.u(9) ? 12 : 3000); };
    auto fill = [&](Blk &b) { for (size_t i = 0; i < b.m.size(); i++) ((char *)b.p)[i] = b.m[i] = (char)(i * 31 + k); };
    while (k--) { size_t a = size(), c = g.u(5); int op = (int)g.u(6); if (v.size() == 8) op = 6; if (v.empty() && op > 3) op = 0; size_t w = v.empty() ? 0 : g.u(v.size() - 1); int ty = (int)g.u(2); size_t un[3] = { 1, sizeof(long), sizeof(Rec) }; g.note("%d:%zu+%zu ", op, a, c);
        switch (op) {
        case 0: { Blk b{ NULL, un[ty], a + c, "" }; b.p = ty == 0 ? (void *)zt_malloc(char, a + c) : ty == 1 ? (void *)zt_malloc(long, a + c) : (void *)zt_malloc(Rec, a + c); b.m.resize(b.unit * b.n); fill(b); v.push_back(b); break; }
        case 1: { Blk b{ zt_mallocs(un[ty] + 1 - 1, c + a), un[ty], a + c, "" }; b.m.resize(b.unit * b.n); fill(b); v.push_back(b); break; }
        case 2: { Blk b{ NULL, un[ty], a + c, "" }; b.p = ty == 0 ? (void *)zt_calloc(char, a + c) : ty == 1 ? (void *)zt_calloc(long, a + c) : (void *)zt_calloc(Rec, a + c); b.m.resize(b.unit * b.n); CHECK(!memcmp(b.p, b.m.data(), b.m.size()), "cleared memory is not zero"); fill(b); v.push_back(b); break; }
        case 3: { if (g.coin()) { Blk b{ zt_callocs(un[ty] | 0, c + a), un[ty], a + c, "" }; b.m.resize(b.unit * b.n); CHECK(!memcmp(b.p, b.m.data(), b.m.size()), "cleared memory is not zero"); fill(b); v.push_back(b); } else { std::string s = g.str("ab\xff ", a); const char *t = s.c_str(); size_t off = c < s.size() ? c : 0; char *d = zt_strdup(t + off); Blk b{ d, 1, s.size() - off, s.substr(off) }; CHECK(d && d != t + off && !strcmp(d, t + off), "the copy differs"); v.push_back(b); } break; }
        case 4: case 5: { Blk &b = v[w]; char *past = (char *)b.p + 1; size_t n = a + c; if (n > b.n && n > 8) nt = true; b.p = b.unit == 1 ? (void *)zt_realloc(char, past - 1, a + c) : b.unit == sizeof(long) ? (void *)zt_realloc(long, c ? b.p : b.p, c + a) : (void *)zt_realloc(Rec, past - 1, a + c); std::string keep = b.m.substr(0, std::min(b.m.size(), n * b.unit)); CHECK(!memcmp(b.p, keep.data(), keep.size()), "the content changed as the block moved"); b.n = n; b.m.assign(n * b.unit, 0); fill(b); break; }
        default: { Blk &b = v[w]; if (c > 9) zt_free(b.p); else { zt_free(b.p); } CHECK(!b.p, "a freed pointer is kept"); zt_free(b.p); v.erase(v.begin() + (long)w); }
        }
        for (auto &b : v) CHECK(!memcmp(b.p, b.m.data(), b.m.size()), "a block lost its content"); }
    for (auto &b : v) { void **pp = &b.p; zt_free(*pp); CHECK(!b.p); } if (nt) g.nontrivial(); }
    NOLEAK(h0, "the blocks");
}
P(X01, macros, 20000, 1000000, 500, "MIN, MAX, CLAMP, CEILING, FLOOR and ABS on ints, unsigned longs and doubles alone and inside expressions, bit and comparison macros with every kind of expression as operand, containers and offsets of every member, indentation; compared with the definitions; non-trivial = operands differ in sign or order") {
    int a = (int)g.bits(32), b = (int)g.bits(32), c = (int)g.bits(32); if (g.chance(1, 4)) b = a; if (g.coin()) { a /= 1000; b /= 1000; c /= 1000; } g.note("%d %d %d ", a, b, c); int lo = std::min(b, c), hi = std::max(b, c);
    CHECK(h_i_max(a, b, 0) == std::max(a, b)); CHECK(h_i_min(a, b, 0) == std::min(a, b)); CHECK(h_i_clamp(a, lo, hi) == std::min(std::max(a, lo), hi), "CLAMP(%d,%d,%d)", a, lo, hi); CHECK(h_i_ceil(a, b, 0) == std::min(a, b)); CHECK(h_i_floor(a, b, 0) == std::max(a, b)); if (a != INT_MIN) CHECK(h_i_abs(a, 0, 0) == std::abs(a));
    unsigned long long ua = g.bits(), ub = g.bits(), uc = g.bits(), ul = std::min(ub, uc), uh = std::max(ub, uc); CHECK(h_u_max(ua, ub, 0) == std::max(ua, ub)); CHECK(h_u_min(ua, ub, 0) == std::min(ua, ub)); CHECK(h_u_clamp(ua, ul, uh) == std::min(std::max(ua, ul), uh)); CHECK(h_u_ceil(ua, ub, 0) == std::min(ua, ub)); CHECK(h_u_floor(ua, ub, 0) == std::max(ua, ub));
    double da = a / 16.0, db = b / 16.0, dc = c / 16.0, dl = std::min(db, dc), dh = std::max(db, dc); CHECK(h_d_max(da, db, 0) == std::max(da, db)); CHECK(h_d_min(da, db, 0) == std::min(da, db)); CHECK(h_d_clamp(da, dl, dh) == std::min(std::max(da, dl), dh)); CHECK(h_d_ceil(da, db, 0) == std::min(da, db)); CHECK(h_d_floor(da, db, 0) == std::max(da, db)); CHECK(h_d_abs(da) == (da < 0 ? -da : da));
    int sa = a / 8, sb = b / 8, sl = lo / 8, sh = hi / 8; CHECK(h_i_maxe(sa, sb, 0) == 2 * std::max(sa, sb) - sb); CHECK(h_i_mine(sa, sb, 0) == sb - std::min(sa, sb) * 2); CHECK(h_i_clampe(sa, sl, sh) == 1 - std::min(std::max(sa, sl), sh)); CHECK(h_i_abse(sa, sb, 0) == 7 - std::abs(sa - sb));
    unsigned t = (unsigned)g.bits(32), x = (unsigned)g.bits(32), y = (unsigned)g.bits(32); if (g.coin()) x = 1u << g.u(31); CHECK(h_bitset(t, x) == (t | x)); CHECK(h_bitunset(t, x) == (t & ~x)); CHECK(h_bitis(t, x) == ((t & x) != 0), "ZT_BIT_ISSET(%x,%x)", t, x); CHECK(h_bitisnot(t, x) == ((t & x) == 0)); { unsigned r = (t | x | y) & ~(x ^ y); CHECK(h_bitexpr(t, x, y) == ((r & (x & y)) != 0) * 2 + ((r & (x | y)) == 0)); }
    { unsigned long long t = g.bits(), b = g.coin() ? 1ull << g.u(63) : g.bits(); for (int w : {8, 16, 32, 64}) { unsigned long long m = w == 64 ? ~0ull : (1ull << w) - 1, tt = t & m, bb = b & m; auto f = w == 8 ? h_bitw_8 : w == 16 ? h_bitw_16 : w == 32 ? h_bitw_32 : h_bitw_64; unsigned long long is = (tt & bb) != 0, due[] = {tt | bb, tt & ~bb, is, !is, is, !is}; for (int op = 0; op < 6; op++) CHECK(f(op, t, b) == due[op], "bit macro %d on %d bits, %llx with %llx, gives %llx where %llx is due", op, w, tt, bb, f(op, t, b), due[op]); } }
    { unsigned u = (unsigned)g.bits(32); if (g.chance(1, 3)) y = x; if (g.chance(1, 6)) x = 0; int op = (int)g.u(6), e = (int)g.u(9); unsigned v[] = {x | y, x & y, x ^ y, x + y, x - y, std::min(x, y), (unsigned)(x && y), (unsigned)(x || y), (unsigned)(x == y), ~x}, w = v[e], big = std::max(t, u); unsigned want[] = {(t | w) + 3 * u, (t & ~w) + 3 * u, (u | w) + 3 * t, (u & ~w) + 3 * t, 5u - 2 * (((t | u) & w) != 0), 5u - 2 * (((t | u) & w) == 0), (unsigned)(!(big & w) + 2 * !!(big & w))}; CHECK(h_bitop(op, e, t, u, x, y) == want[op], "bit macro %d with expression %d of %x %x on %x %x", op, e, x, y, t, u); }
    { int p = a / 16, q = b / 16, r = c / 16; if (g.chance(1, 4)) { p %= 5; q %= 5; r %= 5; } int op = (int)g.u(6), e = (int)g.u(7); int X[] = {p | q, p & q, p < q, p == q ? p : r, q, p || q, p - q, p ^ q}, Y[] = {r, r ^ p, q < r, q, p == r ? r : q, r && p, q - r, r | p}; int xx = X[e], yy = Y[e]; int want[] = {std::max(xx, yy), std::min(xx, yy), std::min(std::max(xx, yy), yy + 1000), std::min(xx, yy), std::min(xx, yy), std::max(xx, yy), std::abs(xx)}; CHECK(h_cmpexpr(op, e, p, q, r) == 3 - 2 * want[op], "macro %d of the expressions %d with %d %d %d gives %d where %d is due", op, e, p, q, r, (3 - h_cmpexpr(op, e, p, q, r)) / 2, want[op]); }
    Mem m(h_memsize()); int i = (int)g.u(3); CHECK(h_container(m.p, i)); CHECK((char *)h_mem(i, m.p) == m.p + h_offset(i)); CHECK(h_arrays());
    { int how = (int)g.u(5), p = (int)g.u(40), q = 1 + (int)g.u(9), r = (int)g.u(9); char o[1900]; int n = h_indent(o, sizeof o, how, p, q, r); int w = how == 0 ? p * 5 : how == 1 ? p - r : how == 2 ? p * q + r : how == 3 ? (p - q) * 5 : how == 4 ? q + r : (p + r) * (q - r) + (r ? q : p); w = std::abs(w); CHECK(n == w + 1 && o[w] == '|', "indentation %d(%d,%d,%d) is %d wide where %d is due", how, p, q, r, n - 1, w); }
    if ((a < 0) != (b < 0) || a > b) g.nontrivial();
}
