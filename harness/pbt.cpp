#include "pbt.h"
#include <atomic>
#include <algorithm>
#include <map>
#include <set>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {
static Test *tests;
void reg(Test *t) { Test **p = &tests; while (*p) p = &(*p)->next; *p = t; }
const char *scratch = "/tmp";

static const size_t LOGCAP = 1u << 18;
static const size_t HSZ = 1u << 21;
static const int MAXW = 64, MAXLAB = 128;
struct WShm {
    std::atomic<uint64_t> cur; std::atomic<uint64_t> batchstart; std::atomic<int64_t> t0; // -1 = idle
    uint64_t nlog; char msg[4096]; char text[1600]; uint64_t log[LOGCAP];
};
struct Lab { std::atomic<const char *> k; std::atomic<uint64_t> n; };
struct Shm {
    std::atomic<uint64_t> next, done, nontriv, distinct; std::atomic<int> stop;
    std::atomic<int> failw; std::atomic<int> nsamp; char samp[12][1500];
    Lab lab[MAXLAB]; std::atomic<uint64_t> h[HSZ]; WShm w[MAXW];
};
static Shm *S; static WShm *W; // W: this process's slot
static bool fuzzing = false; static const char *labpfx = "";
static uint64_t hsub;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t splitmix(uint64_t &x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t Gen::rnd() {
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r;
}
uint64_t Gen::u(uint64_t n) {
    uint64_t v;
    if (frombytes) {
        v = 0; uint64_t m = n;
        while (m) { v = (v << 8) | (bpos < nbytes ? bytes[bpos++] : 0); m >>= 8; }
        if (n != ~0ull) v %= (n + 1);
    } else if (replay) { v = pos < nin ? in[pos] : 0; pos++; if (v > n) v = n; }
    else if (n == ~0ull) v = rnd();
    else v = (uint64_t)(((unsigned __int128)rnd() * ((unsigned __int128)n + 1)) >> 64);
    if (nlog < caplog) { log[nlog++] = v; if (W) W->nlog = nlog; }
    return v;
}
uint64_t Gen::each(uint64_t n) {
    if (frombytes || replay) return u(n - 1);
    uint64_t v = caseno % n; if (nlog < caplog) { log[nlog++] = v; if (W) W->nlog = nlog; } return v;
}
size_t Gen::len(size_t max) {
    if (!max) return 0;
    switch (u(7)) {
    case 0: case 1: return (size_t)u(std::min<size_t>(max, 3));
    case 2: case 3: case 4: return (size_t)u(std::min<size_t>(max, 12));
    case 5: return (size_t)u(std::min<size_t>(max, 48));
    case 6: return (size_t)u(max);
    default: return max - (size_t)u(std::min<size_t>(max, 2));
    }
}
uint64_t Gen::bits(unsigned w) {
    uint64_t mask = w >= 64 ? ~0ull : ((1ull << w) - 1), v;
    switch (u(5)) {
    case 0: v = u(10); break;
    case 1: v = 0 - u(10); break;
    case 2: { unsigned k = (unsigned)u(w - 1); v = (1ull << k) + (uint64_t)range(-2, 2); break; }
    case 3: { unsigned k = (unsigned)u(w - 1); v = u((k >= 63 ? ~0ull : (1ull << (k + 1)) - 1)); break; }
    case 4: v = 0 - ((1ull << (unsigned)u(w - 1)) + (uint64_t)range(-2, 2)); break;
    default: v = u(mask); break;
    }
    return v & mask;
}
std::string Gen::strn(const char *a, size_t n) { std::string r; size_t k = strlen(a); for (size_t i = 0; i < n; i++) r += a[u(k - 1)]; return r; }
std::string Gen::str(const char *a, size_t max) { return strn(a, len(max)); }
std::string Gen::bytestr(size_t max) {
    size_t n = len(max); unsigned mode = (unsigned)u(3); std::string r;
    for (size_t i = 0; i < n; i++) r += (char)(mode == 0 ? "\x00\x01\x7f\x80\xff\x0a ="[u(7)] : mode == 1 ? u(127) : u(255));
    return r;
}
std::string Gen::cstr(size_t max) { std::string r = bytestr(max); for (auto &c : r) if (!c) c = 'a'; return r; }
std::string Gen::blob(size_t n) {
    uint64_t seed = u(0xffffffff); std::string r(n, 0); if (!seed) return r;
    for (size_t i = 0; i < n; i += 8) { uint64_t v = splitmix(seed); memcpy(&r[i], &v, std::min<size_t>(8, n - i)); }
    return r;
}
void Gen::label(const char *l) {
    if (!S) return;
    for (int i = 0; i < MAXLAB; i++) {
        const char *k = S->lab[i].k.load();
        if (!k) { const char *e = nullptr; if (S->lab[i].k.compare_exchange_strong(e, l)) k = l; else k = e; }
        if (k == l) { S->lab[i].n++; return; }
    }
}
void Gen::note(const char *f, ...) {
    if (!notes || text.size() > 1400) return;
    char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    if (!text.empty()) text += "; "; text += b;
    if (W) { strncpy(W->text, text.c_str(), sizeof W->text - 1); }
}
std::string fmt(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
std::string show(const std::string &s, size_t max) {
    std::string r = "\"";
    for (size_t i = 0; i < s.size() && i < max; i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c >= 32 && c < 127) r += c; else r += fmt("\\x%02x", c);
    }
    r += "\""; if (s.size() > max) r += fmt("...(%zu bytes)", s.size()); return r;
}
std::string hex(const void *p, size_t n, size_t max) { std::string r; for (size_t i = 0; i < n && i < max; i++) r += fmt("%02x", ((const unsigned char *)p)[i]); if (n > max) r += fmt("...(%zu)", n); return r; }

[[noreturn]] static void die(const char *m) {
    if (fuzzing) { fprintf(stderr, "\nPBT-FAIL %s\n", m); abort(); }
    if (W) { strncpy(W->msg, m, sizeof W->msg - 1); }
    _exit(99);
}
void fail(const char *file, int line, const char *f, ...) {
    char b[3500], c[4000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    const char *s = strrchr(file, '/'); snprintf(c, sizeof c, "%s:%d: %s", s ? s + 1 : file, line, b); die(c);
}
void failx(const char *file, int line, const char *cond, const char *f, ...) {
    char b[3500], c[4000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    const char *s = strrchr(file, '/'); snprintf(c, sizeof c, "%s:%d: expected %s  %s", s ? s + 1 : file, line, cond, b); die(c);
}

static void on_prof(int) {
    static const char m[] = "no termination: the case used more than its CPU limit";
    if (W) strcpy(W->msg, m);
    _exit(98);
}
static int cpu_limit = 10;
static void arm(int s) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s; setitimer(ITIMER_PROF, &it, nullptr); }

static void seedgen(Gen &g, uint64_t seed, const Test *t, uint64_t i) { g.caseno = i;
    uint64_t x = seed * 0x9e3779b97f4a7c15ull; for (const char *p = t->name; *p; p++) x = (x ^ (unsigned char)*p) * 0x100000001b3ull;
    for (const char *p = t->prop; *p; p++) x = (x ^ (unsigned char)*p) * 0x100000001b3ull;
    x ^= splitmix(i) + i; for (auto &v : g.s) v = splitmix(x);
}
// leak mode: the same case once more, four times; memory or descriptors that grow by the same amount every time are never given back
bool leakmode = false, asserted = false;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static const char leakmsg[] = "not given back";
static void again(Gen &g, const Test *t) {
    static uint64_t in[LOGCAP], lg[LOGCAP]; size_t n = g.nlog; if (n >= LOGCAP) return;
    memcpy(in, g.log, n * sizeof *in); size_t h[4]; int d[4];
    for (int k = 0; k < 4; k++) {
        { Gen r; r.replay = true; r.in = in; r.nin = n; r.log = lg; r.caplog = LOGCAP; r.caseno = g.caseno; t->fn(r); }
        W->nlog = n; h[k] = __sanitizer_get_current_allocated_bytes(); d[k] = open("/dev/null", O_RDONLY); close(d[k]);
    }
    if (h[1] > h[0] && h[2] - h[1] == h[1] - h[0] && h[3] - h[2] == h[1] - h[0]) fail("pbt.cpp", __LINE__, "%zu bytes of memory are %s each time this is done", h[1] - h[0], leakmsg);
    if (d[1] > d[0] && d[2] - d[1] == d[1] - d[0] && d[3] - d[2] == d[1] - d[0]) fail("pbt.cpp", __LINE__, "%d descriptors are %s each time this is done", d[1] - d[0], leakmsg);
}
static void one(Gen &g, const Test *t) {
    g.log = W->log; g.caplog = LOGCAP; W->nlog = 0; W->msg[0] = 0; W->text[0] = 0;
    W->t0 = (int64_t)now(); arm(t->wall == 120 ? cpu_limit : t->wall);
    g.text.reserve(4096); t->fn(g);
    if (leakmode) again(g, t);
    W->t0 = -1;
}
static void account(Gen &g) {
    S->done++;
    if (!g.nontriv) return;
    S->nontriv++;
    uint64_t h = hsub; for (size_t i = 0; i < g.nlog; i++) { h ^= g.log[i]; h *= 0x9ddfea08eb382d69ull; h ^= h >> 29; }
    if (!h) h = 1;
    for (size_t k = 0, p = h & (HSZ - 1); k < 64; k++, p = (p + 1) & (HSZ - 1)) {
        uint64_t e = 0; if (S->h[p] == h) return;
        if (S->h[p] == 0 && S->h[p].compare_exchange_strong(e, h)) { S->distinct++; return; }
        if (S->h[p] == h) return;
    }
    S->distinct++; // table full: count it
}
static int errfd(int w) { char b[600]; snprintf(b, sizeof b, "%s/err.%d", scratch, w); return open(b, O_CREAT | O_RDWR | O_APPEND, 0600); }
static std::string errsummary(int w) {
    char b[600]; snprintf(b, sizeof b, "%s/err.%d", scratch, w); FILE *f = fopen(b, "r"); if (!f) return "";
    std::string r, first; char line[1000]; int fr = 0;
    while (fgets(line, sizeof line, f)) {
        std::string l = line; if (!l.empty() && l.back() == '\n') l.pop_back();
        if (l.find("ERROR: AddressSanitizer") != l.npos || l.find("runtime error") != l.npos || l.find("WARNING: ThreadSanitizer") != l.npos) { size_t q = l.find("ERROR:"); r += (q != l.npos ? l.substr(q) : l); fr = 6; }
        else if (fr > 0 && l.find("    #") == 0) { size_t q = l.find(" in "); if (q != l.npos) r += " |" + l.substr(q + 3); fr--; }
        if (first.empty() && !l.empty()) first = l;
    }
    fclose(f); return (r.empty() ? first : r).substr(0, 1500);
}
static void child_setup(int w) {
    signal(SIGPROF, on_prof); S = S; W = &S->w[w];
    int fd = errfd(w); if (fd >= 0) { if (ftruncate(fd, 0)) {} dup2(fd, 2); if (fd > 2) close(fd); }
    fd = open("/dev/null", O_RDWR); dup2(fd, 0); dup2(fd, 1); if (fd > 2) close(fd);
    setpgid(0, 0);
    std::string d = fmt("%s/w%d", scratch, w); mkdir(d.c_str(), 0700); if (chdir(d.c_str())) {}
}
// wait for pid with blocked-case watchdog; returns status
static int waitwatch(pid_t pid, int w, int wall, bool &blocked) {
    blocked = false; int st;
    for (unsigned n = 0;; n++) {
        pid_t r = waitpid(pid, &st, WNOHANG); if (r == pid) break;
        if (r < 0 && errno == ECHILD) { st = 0; break; }
        int64_t t0 = S->w[w].t0;
        if (t0 >= 0 && now() - t0 > wall) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); blocked = true; break; }
        usleep(n < 50 ? 200 : n < 500 ? 1000 : 5000);
    }
    kill(-pid, SIGKILL); // anything the case left behind
    return st;
}
static std::string why(int st, int w, bool blocked) {
    std::string m = S->w[w].msg;
    if (blocked) return "no termination: the case stayed blocked";
    if (WIFSIGNALED(st)) { std::string e = errsummary(w); return fmt("the process died from signal %d (%s)%s%s", WTERMSIG(st), strsignal(WTERMSIG(st)), e.empty() ? "" : ": ", e.c_str()); }
    if (WEXITSTATUS(st) == 99 || WEXITSTATUS(st) == 98) return m;
    return fmt("the process exited with %d: ", WEXITSTATUS(st)) + errsummary(w);
}
static bool oom(const std::string &m) { return m.find("hard rss limit") != m.npos; }

// run one case from a choice list; true = failed, msg filled; outlog = canonical choices
static bool run_choices(const Test *t, const std::vector<uint64_t> &c, std::string &msg, std::vector<uint64_t> *outlog, std::string *text = nullptr, const std::string *bytes = nullptr) {
    const int w = 0; fflush(stdout); W = &S->w[w]; W->t0 = -1; W->nlog = 0; W->msg[0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
        child_setup(w); Gen g; 
        if (bytes) { g.frombytes = true; g.bytes = (const uint8_t *)bytes->data(); g.nbytes = bytes->size(); }
        else { g.replay = true; g.in = c.data(); g.nin = c.size(); }
        g.notes = text != nullptr; 
        one(g, t); _exit(0);
    }
    setpgid(pid, pid);
    bool bl; int st = waitwatch(pid, w, t->wall, bl);
    if (outlog) outlog->assign(S->w[w].log, S->w[w].log + S->w[w].nlog);
    if (text) *text = S->w[w].text;
    if (!bl && WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
    msg = why(st, w, bl); return true;
}
static bool run_batch(const Test *t, uint64_t seed, uint64_t a, uint64_t b, std::string &msg) {
    const int w = 0; fflush(stdout); W = &S->w[w]; W->t0 = -1; W->msg[0] = 0;
    pid_t pid = fork();
    if (pid == 0) { child_setup(w); for (uint64_t i = a; i <= b; i++) { Gen g; seedgen(g, seed, t, i); one(g, t); } _exit(0); }
    setpgid(pid, pid);
    bool bl; int st = waitwatch(pid, w, t->wall, bl);
    if (!bl && WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
    msg = why(st, w, bl); return true;
}
static bool fails_any(const Test *t, const std::vector<uint64_t> &c, std::string &msg, std::vector<uint64_t> *lg, int tries) {
    for (int i = 0; i < tries; i++) if (run_choices(t, c, msg, lg)) return true;
    return false;
}
static std::vector<uint64_t> shrink(const Test *t, std::vector<uint64_t> c, std::string &msg, double budget) {
    double end = now() + budget; int evals = 0; int tries = t->attempts > 3 ? 5 : 1;
    if (msg.find("no termination") == 0) { return c; } // each evaluation would cost the whole limit
    auto attempt = [&](std::vector<uint64_t> cand) {
        if (now() > end || evals > 6000) return false;
        evals++; std::string m; std::vector<uint64_t> lg;
        if (!fails_any(t, cand, m, &lg, tries)) return false;
        if (m.find("no termination") == 0 || oom(m)) return false;
        if (lg.size() < cand.size()) cand.resize(lg.size());
        // canonicalise clamped values
        for (size_t i = 0; i < cand.size() && i < lg.size(); i++) cand[i] = lg[i];
        if (cand.size() > c.size() || (cand.size() == c.size() && cand >= c)) return false;
        c = cand; msg = m; return true;
    };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t k = std::max<size_t>(1, c.size() / 2); k >= 1; k /= 2) {
            for (size_t i = 0; i + k <= c.size() && now() < end;) {
                std::vector<uint64_t> d(c.begin(), c.begin() + i); d.insert(d.end(), c.begin() + i + k, c.end());
                if (attempt(d)) progress = true; else i += k;
            }
            if (k == 1) break;
        }
        for (size_t k = 8; k >= 1; k /= 2) for (size_t i = 0; i + k <= c.size() && now() < end; i += k) {
            bool z = true; for (size_t j = 0; j < k; j++) z &= c[i + j] == 0; if (z) continue;
            std::vector<uint64_t> d = c; for (size_t j = 0; j < k; j++) d[i + j] = 0;
            if (attempt(d)) progress = true;
        }
        for (size_t i = 0; i < c.size() && now() < end; i++) {
            uint64_t lo = 0;
            while (i < c.size() && c[i] > lo && now() < end) { uint64_t mid = lo + (c[i] - lo) / 2; std::vector<uint64_t> d = c; d[i] = mid; if (attempt(d)) { progress = true; } else { if (mid == lo && mid + 1 > c[i] - 1) break; lo = mid + 1; } }
            // drop one element and decrement an earlier count
            if (i < c.size() && c[i] > 0 && i + 1 < c.size()) for (size_t j = i + 1; j < c.size() && j < i + 12; j++) { std::vector<uint64_t> d = c; d[i]--; d.erase(d.begin() + j); if (attempt(d)) { progress = true; break; } }
        }
    }
    return c;
}

static void worker(int w, const Test *t, uint64_t seed, uint64_t total, double deadline) {
    while (!S->stop && S->next < total && now() < deadline) {
        uint64_t a = S->next.fetch_add(t->batch); if (a >= total) break;
        uint64_t b = std::min(a + t->batch, total);
        WShm &ws = S->w[w]; ws.t0 = -1; ws.batchstart = a; ws.msg[0] = 0;
        pid_t pid = fork();
        if (pid == 0) {
            child_setup(w);
            for (uint64_t i = a; i < b; i++) {
                W->cur = i; Gen g; seedgen(g, seed, t, i); g.notes = i < 40; one(g, t); account(g);
                if (g.notes && g.nontriv && !g.text.empty()) { int k = S->nsamp; if (k < 12 && i < 40 && S->nsamp.compare_exchange_strong(k, k + 1)) snprintf(S->samp[k], sizeof S->samp[k], "[%s] %s", t->name, g.text.c_str()); }
            }
            _exit(0);
        }
        setpgid(pid, pid);
        bool bl; int st = waitwatch(pid, w, t->wall, bl);
        if (!bl && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        int e = -1; if (S->failw.compare_exchange_strong(e, w)) { std::string m = why(st, w, bl); strncpy(ws.msg, m.c_str(), sizeof ws.msg - 1); S->stop = 1; }
        _exit(1);
    }
    _exit(0);
}

static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) r += fmt("\\u%04x", c); else r += c; } return r; }

static void rmtree(const std::string &d) {
    DIR *dp = opendir(d.c_str()); if (!dp) { unlink(d.c_str()); return; }
    while (struct dirent *e = readdir(dp)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st; if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0700); rmtree(p); } else unlink(p.c_str()); }
    closedir(dp); rmdir(d.c_str());
}

static void reap() {
    for (int r = 0; r < 200; r++) {
        std::string f = fmt("/proc/self/task/%d/children", (int)getpid()); FILE *p = fopen(f.c_str(), "r"); int c, n = 0; if (!p) return;
        while (fscanf(p, "%d", &c) == 1) { kill(c, SIGKILL); n++; } fclose(p);
        if (!n) return; while (waitpid(-1, nullptr, WNOHANG) > 0) {} usleep(1000);
    }
}
static std::string harness, plain;
struct Opt { std::string prop, tier = "quick", evidence, replaydir, replay, only, known, bytesfile; uint64_t seed = 1; double scale = 1; double cap = 0; };

static void save_replay(const std::string &path, const Test *t, const std::vector<uint64_t> *c, uint64_t seed, uint64_t a, uint64_t b, const std::string &msg, const std::string &text) {
    FILE *f = fopen(path.c_str(), "w"); if (!f) return;
    fprintf(f, "# replay of property %s, check %s\n# failure: %s\n# case: %s\n", t->prop, t->name, show(msg, 1000).c_str(), show(text, 1400).c_str());
    fprintf(f, "prop %s\ntest %s\n", t->prop, t->name); if (leakmode || asserted) fprintf(f, "harness %s\n", harness.c_str());
    if (c) { fprintf(f, "choices"); for (auto v : *c) fprintf(f, " %llu", (unsigned long long)v); fprintf(f, "\n"); }
    else fprintf(f, "batch %llu %llu %llu\n", (unsigned long long)seed, (unsigned long long)a, (unsigned long long)b);
    fclose(f);
}
static int do_replay(const std::string &path) {
    FILE *f = fopen(path.c_str(), "r"); if (!f) { fprintf(stderr, "cannot read %s\n", path.c_str()); return 2; }
    std::string prop, test; std::vector<uint64_t> c; bool batch = false; uint64_t bs = 0, ba = 0, bb = 0; char *line = nullptr; size_t n = 0;
    while (getline(&line, &n, f) > 0) {
        if (line[0] == '#') continue;
        char a[100];
        if (sscanf(line, "prop %99s", a) == 1) prop = a; else if (sscanf(line, "test %99s", a) == 1) test = a;
        else if (!strncmp(line, "choices", 7)) { char *p = line + 7; for (;;) { char *e; unsigned long long v = strtoull(p, &e, 10); if (e == p) break; c.push_back(v); p = e; } }
        else if (!strncmp(line, "batch", 5)) { unsigned long long x, y, z; if (sscanf(line, "batch %llu %llu %llu", &x, &y, &z) == 3) { batch = true; bs = x; ba = y; bb = z; } }
    }
    fclose(f); free(line);
    for (Test *t = tests; t; t = t->next) if (prop == t->prop && test == t->name) {
        std::string m, text; bool bad = batch ? run_batch(t, bs, ba, bb, m) : false;
        if (!batch) for (int i = 0; i < t->attempts && !bad; i++) bad = run_choices(t, c, m, nullptr, &text);
        printf("%s %s: %s\n", prop.c_str(), test.c_str(), bad ? ("FAILS: " + m).c_str() : "passes");
        if (!text.empty()) printf("case: %s\n", text.c_str());
        if (bad) printf("%s\n", errsummary(0).c_str());
        return bad;
    }
    fprintf(stderr, "no such test\n"); return 2;
}

int run(int argc, char **argv) {
    Opt o;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto v = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") o.prop = v(); else if (a == "--tier") o.tier = v(); else if (a == "--seed") o.seed = strtoull(v().c_str(), 0, 10);
        else if (a == "--evidence") o.evidence = v(); else if (a == "--replaydir") o.replaydir = v(); else if (a == "--replay") o.replay = v();
        else if (a == "--only") o.only = v(); else if (a == "--scale") o.scale = atof(v().c_str()); else if (a == "--cap") o.cap = atof(v().c_str());
        else if (a == "--bytes") o.bytesfile = v(); else if (a == "--leak") { leakmode = true; o.prop = v(); } else if (a == "--debug") { asserted = true; o.prop = v(); } else if (a == "--plain") plain = v(); else if (a == "--harness") harness = v();
        else if (a == "--list") { for (Test *t = tests; t; t = t->next) printf("%s %s q=%llu t=%llu\n", t->prop, t->name, (unsigned long long)t->quick, (unsigned long long)t->thorough); return 0; }
    }
    if (leakmode) for (Test *t = tests; t; t = t->next) { t->name = strdup(fmt("%s-%s", t->prop, t->name).c_str()); t->prop = t->quick < 100 || t->wall != 120 || !strncmp(t->prop, "E0", 2) || !strncmp(t->prop, "W01", 3) /* a pool has no release call */ ? "-" : strdup(o.prop.c_str()); t->quick = std::min<uint64_t>(t->quick, 20000); t->thorough = std::min<uint64_t>(t->thorough, 400000); t->batch = (int)std::max<uint64_t>(1, std::min<uint64_t>(t->batch, t->quick / 64)); }
    if (asserted) for (Test *t = tests; t; t = t->next) { t->name = strdup(fmt("%s-%s", t->prop, t->name).c_str()); t->prop = t->quick < 4 || !strncmp(t->prop, "E0", 2) || !strncmp(t->prop, "N01", 3) /* these want assertions to fail */ ? "-" : strdup(o.prop.c_str()); t->quick = std::min<uint64_t>(t->quick, 20000); t->thorough = std::min<uint64_t>(t->thorough, 400000); t->batch = (int)std::max<uint64_t>(1, std::min<uint64_t>(t->batch, t->quick / 64)); }
    double t0 = now(); bool thorough = o.tier == "thorough"; double deadline = t0 + (o.cap > 0 ? o.cap : thorough ? 3000 : 240);
    S = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 2; }
    static char tmpl[] = "/tmp/ztv.XXXXXX"; scratch = mkdtemp(tmpl); if (!scratch) { perror("mkdtemp"); return 2; }
    prctl(PR_SET_CHILD_SUBREAPER, 1);        // whatever leaves its process group is ended with the run
    struct Clean { ~Clean() { reap(); rmtree(tmpl); } } clean;
    if (!o.replay.empty()) return do_replay(o.replay);
    int ncpu = (int)sysconf(_SC_NPROCESSORS_ONLN); if (ncpu < 1) ncpu = 1; if (ncpu > 16) ncpu = 16;
    uint64_t ev = 0; std::string rules, subs, viol; int rc = 0; bool any = false;
    std::map<std::string, uint64_t> labs; std::string labjson; uint64_t inconclusive = 0;
    for (Test *t = tests; t; t = t->next) {
        if (!o.prop.empty() && o.prop != t->prop) continue;
        if (!o.only.empty() && o.only != t->name) continue;
        any = true; double tt = now();
        if (!o.bytesfile.empty()) {
            std::string data; FILE *f = fopen(o.bytesfile.c_str(), "rb"); if (!f) return 2; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) data.append(b, k); fclose(f);
            std::vector<uint64_t> none, lg; std::string m;
            if (!run_choices(t, none, m, &lg, nullptr, &data)) { printf("%s: input passes\n", t->name); continue; }
            S->failw = 0; strncpy(S->w[0].msg, m.c_str(), 4000); S->w[0].cur = ~0ull;
        } else {
            uint64_t total = (uint64_t)((thorough ? t->thorough : t->quick) * o.scale); if (total < 1) total = 1;
            S->next = 0; S->stop = 0; S->failw = -1; S->done = 0; S->nontriv = 0; uint64_t d0 = S->distinct;
            hsub = 0x1234567; for (const char *p = t->name; *p; p++) hsub = (hsub ^ (unsigned char)*p) * 0x100000001b3ull;
            int nw = t->workers ? std::min(t->workers, ncpu) : ncpu; std::vector<pid_t> ws; fflush(stdout);
            for (int w = 0; w < nw; w++) { pid_t p = fork(); if (p == 0) worker(w, t, o.seed, total, leakmode || asserted ? std::min(deadline, now() + (thorough ? 40 : leakmode ? 1.5 : 1)) : deadline); ws.push_back(p); }
            for (pid_t p : ws) waitpid(p, nullptr, 0);
            ev += S->done;
            std::string lj; for (int i = 0; i < MAXLAB && S->lab[i].k.load(); i++) { lj += fmt("%s\"%s\": %llu", lj.empty() ? "" : ", ", jesc(S->lab[i].k.load()).c_str(), (unsigned long long)S->lab[i].n.load()); S->lab[i].k = nullptr; S->lab[i].n = 0; }
            subs += fmt("%s\"%s\": {\"cases\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"planned\": %llu, \"seconds\": %.2f, \"classes\": {%s}}", subs.empty() ? "" : ", ", t->name, (unsigned long long)S->done, (unsigned long long)S->nontriv, (unsigned long long)(S->distinct - d0), (unsigned long long)total, now() - tt, lj.c_str());
            rules += (rules.empty() ? "" : " || ") + std::string(t->name) + ": " + t->rule;
            printf("%s/%s: %llu cases, %llu nontrivial, %.1fs%s\n", t->prop, t->name, (unsigned long long)S->done, (unsigned long long)S->nontriv, now() - tt, S->done < total && S->failw < 0 ? " (time budget reached)" : "");
            if (getenv("PBT_LABELS")) printf("   {%s}\n", lj.c_str());
        }
        if (S->failw < 0) continue;
        if (leakmode && !strstr(S->w[S->failw].msg, leakmsg)) { printf("%s: stopped by another failure: %s\n", t->name, S->w[S->failw].msg); continue; }
        int w = S->failw; std::string msg = S->w[w].msg; uint64_t cur = S->w[w].cur, bst = S->w[w].batchstart;
        printf("%s/%s: case %lld failed: %s\n", t->prop, t->name, (long long)cur, msg.c_str());
        std::vector<uint64_t> c(S->w[w].log, S->w[w].log + S->w[w].nlog), lg; std::string m;
        std::string path = (o.replaydir.empty() ? std::string("/tmp") : o.replaydir) + fmt("/replay-%s-%s.txt", t->prop, t->name);
        bool ok = false;
        if (fails_any(t, c, m, nullptr, t->attempts)) {
            msg = m; c = shrink(t, c, msg, getenv("PBT_SHRINK") ? atof(getenv("PBT_SHRINK")) : thorough ? 60 : 20); int bad = 0;
            if (t->attempts > 3) { std::string m2; bad = fails_any(t, c, m2, nullptr, t->attempts * 2) ? 3 : 0; if (bad) msg = m2; }
            else for (int i = 0; i < 3; i++) { std::string m2; if (run_choices(t, c, m2, nullptr)) { bad++; msg = m2; } }
            if (bad == 3) { std::string text, m2; run_choices(t, c, m2, nullptr, &text);
                save_replay(path, t, &c, 0, 0, 0, msg, text); ok = true; }
        }
        if (!ok && cur != ~0ull) { int bad = 0; std::string m2; for (int i = 0; i < 3; i++) bad += run_batch(t, o.seed, bst, cur, m2); if (bad == 3) { msg = m2; save_replay(path, t, nullptr, o.seed, bst, cur, msg, ""); ok = true; } }
        if (!ok) { printf("INCONCLUSIVE %s/%s: the failure did not reproduce on replay: %s\n", t->prop, t->name, msg.c_str()); inconclusive++; continue; }
        if (!plain.empty()) {    // the ordinary build must do it right, otherwise it is not the assertions
            pid_t p = fork(); if (!p) { dup2(open("/dev/null", O_WRONLY), 1); execl(plain.c_str(), plain.c_str(), "--debug", o.prop.c_str(), "--replay", path.c_str(), (char *)0); _exit(3); }
            int st; waitpid(p, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { printf("%s: fails without assertions as well: %s\n", t->name, msg.c_str()); unlink(path.c_str()); continue; }
        }
        printf("minimal failure: %s\n", msg.c_str());
        printf("VIOLATION property=%s replay=%s\n", t->prop, path.c_str());
        viol += fmt("%s{\"test\": \"%s\", \"message\": \"%s\", \"replay\": \"%s\"}", viol.empty() ? "" : ", ", t->name, jesc(msg.substr(0, 800)).c_str(), jesc(path).c_str());
        rc = 1; break;
    }
    if (!any) { if (!leakmode && !asserted) fprintf(stderr, "no tests for %s\n", o.prop.c_str()); return 2; }
    if (!o.evidence.empty() && o.bytesfile.empty()) {
        FILE *f = fopen(o.evidence.c_str(), "w");
        if (!f) { perror(o.evidence.c_str()); return 2; }
        std::string samples; for (int i = 0; i < S->nsamp; i++) samples += fmt("%s\"", i ? ", " : "") + jesc(S->samp[i]) + "\"";
        if (samples.empty()) samples = "\"(no sample recorded)\"";
        fprintf(f, "{\"property\": \"%s\", \"tier\": \"%s\", \"seed\": %llu, \"level\": \"exploration\", \"coverage\": {\"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"rule\": \"%s\", \"samples\": [%s], \"checks\": {%s}, \"inconclusive\": %llu, \"failures\": [%s]}, \"violations\": %d, \"wall_s\": %.2f}\n",
                o.prop.c_str(), o.tier.c_str(), (unsigned long long)o.seed, (unsigned long long)ev, (unsigned long long)S->distinct, jesc(rules).c_str(), samples.c_str(), subs.c_str(), (unsigned long long)inconclusive, viol.c_str(), viol.empty() ? 0 : 1, now() - t0);
        fclose(f);
    }
    return rc;
}
void fuzz_init() { fuzzing = true; }
const Test *find(const char *prop, const char *name) { for (Test *t = tests; t; t = t->next) if (!strcmp(prop, t->prop) && !strcmp(name, t->name)) return t; return nullptr; }
} // namespace pbt

#ifdef PBT_FUZZ
static const pbt::Test *FT;
static uint64_t flog[1 << 16];
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    pbt::fuzz_init(); const char *p = getenv("PBT_PROP"), *n = getenv("PBT_TEST"); FT = pbt::find(p ? p : "", n ? n : "");
    if (!FT) { fprintf(stderr, "PBT_PROP/PBT_TEST name no test\n"); exit(2); }
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    Gen g; g.frombytes = true; g.bytes = d; g.nbytes = n; g.log = flog; g.caplog = 1 << 16; FT->fn(g); return 0;
}
#else
int main(int argc, char **argv) { setvbuf(stdout, nullptr, _IOLBF, 0); return pbt::run(argc, argv); }
#endif
