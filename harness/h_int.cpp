#include "pbt.h"
#include "zthdr.h"
typedef __int128 wide;
struct iop { const char *type, *op; int size, sign; wide (*f)(wide, wide); };
extern "C" { extern struct iop int_ops[]; extern int int_nops; }
static jmp_buf stop; static volatile int armed;
extern "C" void abort(void) { if (armed) { armed = 0; longjmp(stop, 1); } signal(SIGABRT, SIG_DFL); raise(SIGABRT); _exit(134); }
static std::string dec(wide v) { if (v == 0) return "0"; bool n = v < 0; std::string s; while (v) { int d = (int)(v % 10); s += (char)('0' + (d < 0 ? -d : d)); v /= 10; } if (n) s += '-'; return std::string(s.rbegin(), s.rend()); }
static bool want(const iop &o, wide a, wide b, wide &r) {
    wide lo = o.sign ? -((wide)1 << (o.size * 8 - 1)) : 0, hi = o.sign ? ((wide)1 << (o.size * 8 - 1)) - 1 : ((wide)1 << (o.size * 8)) - 1;
    switch (o.op[0]) { case 'a': r = a + b; break; case 's': r = a - b; break; case 'm': r = a * b; break; default: if (b == 0) return false; r = a / b; }
    return r >= lo && r <= hi;
}
static void try1(const iop &o, wide a, wide b) {
    wide w = 0, r = 0; bool ok = want(o, a, b, w); static wide got; got = 0; volatile bool stopped = false;
    if (setjmp(stop) == 0) { armed = 1; got = o.f(a, b); armed = 0; } else stopped = true;
    r = got;
    if (ok) { CHECK(!stopped, "%s %s(%s, %s) refused though %s fits", o.type, o.op, dec(a).c_str(), dec(b).c_str(), dec(w).c_str()); CHECK(r == w, "%s %s(%s, %s) = %s want %s", o.type, o.op, dec(a).c_str(), dec(b).c_str(), dec(r).c_str(), dec(w).c_str()); }
    else CHECK(stopped, "%s %s(%s, %s) = %s went on though the result does not fit", o.type, o.op, dec(a).c_str(), dec(b).c_str(), dec(r).c_str());
}
static void quiet() { static bool done; if (done) return; done = true; zt_log_set_level(zt_log_logger(NULL), zt_log_emerg); }
static wide operand(Gen &g, const iop &o) { uint64_t v = g.bits(o.size * 8); if (!o.sign) return (wide)v; int sh = 64 - o.size * 8; return (wide)((int64_t)(v << sh) >> sh); }
P(N01, checked, 800000, 20000000, 500, "every operation of every width: edge-biased operands (extremes, neighbours of extremes, powers of two, zero) and, for products and quotients, factors of near-limit values; result compared with 128-bit arithmetic, refusal detected as the program being stopped; non-trivial = the exact result is not representable, or is within 2 of a limit") {
    quiet(); const iop &o = int_ops[g.u(int_nops - 1)]; wide a = operand(g, o), b = operand(g, o), hi = o.sign ? ((wide)1 << (o.size * 8 - 1)) - 1 : ((wide)1 << (o.size * 8)) - 1, lo = o.sign ? -hi - 1 : 0;
    if (g.chance(1, 3)) { wide lim = g.coin() ? hi : lo, d = (wide)g.range(-2, 2); wide c = a; // aim at the limit
        switch (o.op[0]) { case 'a': c = lim - b + d; break; case 's': c = lim + b + d; break; case 'm': if (b) c = lim / b + d; break; default: c = lim - (d < 0 ? -d : 0); } if (c >= lo && c <= hi) a = c; }
    g.note("%s %s(%s, %s)", o.type, o.op, dec(a).c_str(), dec(b).c_str()); g.label(o.type); g.label(o.op);
    wide w = 0; bool ok = want(o, a, b, w); if (!ok || w >= hi - 2 || w <= lo + 2) g.nontrivial(); try1(o, a, b);
}
P(N01, bytes, 2048, 2048, 32, "exhaustive: all 65536 operand pairs of the 8-bit operations, 256 pairs to a case; all cases non-trivial") {
    quiet(); int id = 0, at = 0; std::vector<int> ops; for (int i = 0; i < int_nops; i++) if (int_ops[i].size == 1) ops.push_back(i);
    uint64_t e = g.each(ops.size() * 256); id = ops[e / 256]; at = (int)(e % 256); const iop &o = int_ops[id]; wide a = o.sign ? (wide)(signed char)at : (wide)at; g.note("%s %s(%s, all)", o.type, o.op, dec(a).c_str());
    for (int b = 0; b < 256; b++) try1(o, a, o.sign ? (wide)(signed char)b : (wide)b); g.nontrivial();
}
