// the replacements for functions a C library may lack, against those of this one
#include "pbt.h"
#include <cstdarg>
#include <cstring>
#include <cerrno>
#include <algorithm>
#include <syslog.h>
#include <sanitizer/allocator_interface.h>
static size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
extern "C" { int rep_asprintf(char **, const char *, ...); int rep_vasprintf(char **, const char *, va_list); char *rep_basename(char *); void rep_vsyslog(int, const char *, va_list); void rep_syslog(int, const char *, ...); }
static std::vector<std::pair<int, std::string>> logged;
void rep_syslog(int sev, const char *f, ...) { char *s = NULL; va_list ap; va_start(ap, f); int n = vasprintf(&s, f, ap); va_end(ap); logged.push_back({ sev, n < 0 ? "?" : s }); free(s); }
static void vs(int sev, const char *f, ...) { va_list ap; va_start(ap, f); rep_vsyslog(sev, f, ap); va_end(ap); }
static int va(char **s, const char *f, ...) { va_list ap; va_start(ap, f); int r = rep_vasprintf(s, f, ap); va_end(ap); return r; }
static std::string lib(const char *f, ...) { char *s = NULL; va_list ap; va_start(ap, f); int n = vasprintf(&s, f, ap); va_end(ap); std::string r(s, (size_t)n); free(s); return r; }
static std::string text(Gen &g) { size_t n = g.coin() ? g.u(12) : 100 + g.u(60); if (!g.u(20)) n = 1000 + g.u(5000); return g.str("ab%/m", n); }
P(Z01, asprintf, 200000, 6000000, 100, "formats with text before, between and after a string, a number and a real, made into an allocated string of every length around 128 characters directly and with an argument list: text and count are those of the C library, and the memory is given back; non-trivial = 127 characters or more") {
    std::string a = text(g), b = text(g), c = text(g), f; for (char x : a) { f += x; if (x == '%') f += x; } f += "%s|%d|%.3f|%*d"; for (char x : c) { f += x; if (x == '%') f += x; }
    if (g.coin()) { f = "%s%d%.0f%*d"; b = std::string(g.u(8), 'x') + b; } if (!g.u(10)) { f = "%s"; b.assign(120 + g.u(16), 'y'); } int n = (int)g.u(100000) - 50000, w = (int)g.u(30); double d = (double)(int)g.u(1000000) / 7; std::string want = lib(f.c_str(), b.c_str(), n, d, w, n); g.note("%zu characters of %s", want.size(), show(f).c_str()); if (want.size() >= 127) g.nontrivial();
    size_t h0 = heap(); char *s = (char *)&h0; bool v = g.coin(); int r = v ? va(&s, f.c_str(), b.c_str(), n, d, w, n) : rep_asprintf(&s, f.c_str(), b.c_str(), n, d, w, n); CHECK(r == (int)want.size() && s && want == s, "%d and %s for %s", r, s ? show(s, 300).c_str() : "nothing", show(want, 300).c_str()); free(s); CHECK(heap() == h0, "%zu bytes not given back", heap() - h0);
}
P(Z01, basename, 200000, 4000000, 100, "the base name of generated paths is the text after the last separator, in place and unchanged; non-trivial = two separators") {
    std::string p = g.str(g.coin() ? "ab/" : "a/.b c", g.u(4) ? g.u(12) : g.u(3000)); g.note("%s", show(p).c_str()); std::string q = p; char *r = rep_basename(&q[0]); size_t k = p.rfind('/'); size_t at = k == std::string::npos ? 0 : k + 1; CHECK(r == q.data() + at && q == p, "at %ld of %s where %zu is due", (long)(r - q.data()), show(p).c_str(), at); if (std::count(p.begin(), p.end(), '/') > 1) g.nontrivial();
}
P(Z01, vsyslog, 200000, 6000000, 100, "messages of any length to the system log with escaped percent signs, arguments and %m at any place and number: one message arrives, with its priority and whole text; non-trivial = a %m and an argument of 100 characters or more") {
    int err = g.coin() ? (int)g.u(133) : g.u(9) ? 9999 : -5, sev = (int)g.u(191); std::string f, want, s; bool m = false, big = false; const char *e = strerror(err); std::string se = e; int parts = 1 + (int)g.u(g.u(9) ? 6 : 60); std::string a = text(g), b = text(g); int used = 0, n = (int)g.u(2000) - 1000;
    for (int i = 0; i < parts; i++) switch (g.u(5)) { case 0: f += "%m"; want += se; m = true; break; case 1: f += "%%"; want += "%"; break; case 2: f += "m"; want += "m"; break; case 3: f += "%%m"; want += "%m"; break;
        case 4: if (used == 0) { f += "%s"; want += a; used++; big |= a.size() >= 100; break; } if (used == 1) { f += "%5d"; want += lib("%5d", n); used++; break; } if (used == 2) { f += "%s"; want += b; used++; big |= b.size() >= 100; break; } /* fallthrough */ default: { std::string t = g.str("ab \t:", g.u(30)); f += t; want += t; } }
    g.note("priority %d errno %d format %s", sev, err, show(f).c_str()); if (m && big) g.nontrivial(); logged.clear(); std::string own = f; errno = err; vs(sev, "warm %s %m", "x"); { decltype(logged) x; x.swap(logged); } size_t h0 = heap(); errno = err; vs(sev, own.c_str(), a.c_str(), n, b.c_str());
    CHECK(logged.size() == 1 && logged[0].first == sev && logged[0].second == want, "%zu messages, the first %d %s where %d %s is due", logged.size(), logged.empty() ? -1 : logged[0].first, logged.empty() ? "" : show(logged[0].second, 300).c_str(), sev, show(want, 300).c_str()); CHECK(own == f, "the format was changed"); { decltype(logged) x; x.swap(logged); } CHECK(heap() == h0, "%zd bytes not given back", (ssize_t)(heap() - h0));
}
