// Small property-based testing core: every random decision is a "choice" drawn
// through Gen, cases run in forked children, failures are shrunk on the choice
// sequence and saved as a replay file.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <initializer_list>

namespace pbt {

struct Gen {
    // choice source
    const uint64_t *in = nullptr; size_t nin = 0, pos = 0; bool replay = false;
    const uint8_t *bytes = nullptr; size_t nbytes = 0, bpos = 0; bool frombytes = false;
    uint64_t s[4];
    // record
    uint64_t *log = nullptr; size_t nlog = 0, caplog = 0;
    // case facts
    bool nontriv = false; bool notes = false; std::string text;

    uint64_t rnd();
    uint64_t caseno = 0;
    uint64_t each(uint64_t n);                    // case number modulo n: enumerates [0,n)
    uint64_t u(uint64_t n);                       // uniform in [0,n]
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)u((uint64_t)hi - (uint64_t)lo); }
    bool chance(unsigned num, unsigned den) { return u(den - 1) >= den - num; } // 0 => false
    bool coin() { return u(1) != 0; }
    size_t len(size_t max);                       // biased to small, sometimes up to max
    size_t big(size_t max) { size_t n = coin() ? u(max) : (1 + u(max / 65536)) * 65536 + u(6) - 3; return n > max ? max : n; }   // sizes that need more than 16 bits, their boundaries often
    uint64_t bits(unsigned width = 64);           // edge-biased integer of `width` bits
    template <class T> const T &pick(const std::vector<T> &v) { return v[u(v.size() - 1)]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + u(v.size() - 1)); }
    std::string str(const char *alphabet, size_t max);
    std::string strn(const char *alphabet, size_t n);
    std::string bytestr(size_t max);              // arbitrary bytes
    std::string blob(size_t n);                   // n bytes, few choices
    std::string cstr(size_t max);                 // arbitrary non-NUL bytes
    void nontrivial() { nontriv = true; }
    void label(const char *l);
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};

[[noreturn]] void fail(const char *file, int line, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
#define CHECK(c, ...) do { if (!(c)) ::pbt::failx(__FILE__, __LINE__, #c, "" __VA_ARGS__); } while (0)
#define FAIL(...) ::pbt::fail(__FILE__, __LINE__, __VA_ARGS__)
[[noreturn]] void failx(const char *file, int line, const char *cond, const char *fmt, ...) __attribute__((format(printf, 4, 5)));

extern bool asserted;                               // the library has its assertions: no arguments they forbid
extern bool leakmode;                               // cases are repeated to see what is not given back
struct Test {
    const char *prop, *name, *rule;
    void (*fn)(Gen &);
    uint64_t quick, thorough; int batch; int wall; // wall: seconds for a blocked case
    int workers;                                   // 0 = all cpus
    int attempts;                                  // replay attempts when schedule dependent
    Test *next;
};
void reg(Test *t);
struct Reg { Reg(Test *t) { reg(t); } };

// P(prop, name, quick, thorough, batch, rule) { ... body using Gen &g ... }
#define P_(PROP, NAME, Q, T, B, WALL, WORKERS, ATT, RULE) \
    static void fn_##PROP##_##NAME(::pbt::Gen &); \
    static ::pbt::Test t_##PROP##_##NAME = { #PROP, #NAME, RULE, fn_##PROP##_##NAME, Q, T, B, WALL, WORKERS, ATT, nullptr }; \
    static ::pbt::Reg r_##PROP##_##NAME(&t_##PROP##_##NAME); \
    static void fn_##PROP##_##NAME(::pbt::Gen &g)
#define P(PROP, NAME, Q, T, B, RULE) P_(PROP, NAME, Q, T, B, 120, 0, 3, RULE)

std::string show(const std::string &s, size_t max = 120);   // printable rendering
std::string hex(const void *p, size_t n, size_t max = 64);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
extern const char *scratch;   // private scratch dir of this run (exists)

// exact-size heap copies so ASan sees any overrun
struct Mem {
    char *p; size_t n;
    Mem(size_t n_, int fill = 0xA5) : p((char *)malloc(n_ ? n_ : 1)), n(n_) { memset(p, fill, n_ ? n_ : 1); if (!n_) { free(p); p = (char *)malloc(0); } }
    Mem(const void *d, size_t n_) : p((char *)malloc(n_)), n(n_) { if (n_) memcpy(p, d, n_); }
    ~Mem() { free(p); }
    Mem(const Mem &) = delete; Mem &operator=(const Mem &) = delete;
    std::string s() const { return std::string(p, n); }
};
struct CStr { // exact-size NUL-terminated copy
    char *p; size_t n;
    CStr(const std::string &s) : p((char *)malloc(s.size() + 1)), n(s.size()) { memcpy(p, s.c_str(), s.size() + 1); }
    ~CStr() { free(p); }
    CStr(const CStr &) = delete; CStr &operator=(const CStr &) = delete;
    operator char *() const { return p; }
};
} // namespace pbt
using namespace pbt;
