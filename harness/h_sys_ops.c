/* pieces that must be C and must see the assertion macros as the library's users do */
#include <stdlib.h>
#include <string.h>
#define ZT_WITH_UNIT
#include <zt.h>

/* ---- unit tests that follow a script ---- */
struct uop { int k; int n; const char *s; };
struct uscript { const struct uop *op; int n; };
extern void h_unit_event(int what, void *data);
extern const struct uscript *h_unit_script(struct zt_unit_test *test);
void h_unit_setup(void *data) { h_unit_event(1, data); }
void h_unit_teardown(void *data) { h_unit_event(2, data); }
void h_unit_test_c(struct zt_unit_test *test, void *data) {
    const struct uscript *sc = h_unit_script(test); int i, j; h_unit_event(3, data);
    for (i = 0; i < sc->n; i++) { const struct uop *o = &sc->op[i];
        switch (o->k) {
            case 0: for (j = 0; j < o->n; j++) ZT_UNIT_ASSERT(test, o->n > j); break;
            case 1: ZT_UNIT_ASSERT(test, o->n < 0); break;
            case 2: ZT_UNIT_ASSERT(test, o->n < 0, a wrong count); break;
            case 3: ZT_UNIT_FAIL(test, "%s/%d", o->s, o->n); break;
            case 4: ZT_UNIT_ASSERT_EQUAL(test, o->n, o->n); ZT_UNIT_ASSERT_NOT_EQUAL(test, o->n, o->n + 1); ZT_UNIT_ASSERT_EQUAL(test, o->n & 1, o->n % 2); ZT_UNIT_ASSERT_NOT_EQUAL(test, o->n & 2, 3); break;
            case 5: ZT_UNIT_ASSERT_EQUAL(test, o->n, o->n + 1); break;
        }
    }
}
struct zt_unit_suite *h_unit_suite_c(struct zt_unit *u, const char *name, int setup, int teardown, void *data) { return zt_unit_register_suite_(u, name, setup ? h_unit_setup : NULL, teardown ? h_unit_teardown : NULL, data, zt_unit_try_c); }

/* ---- assertions ---- */
int h_ran;
int h_assert(int form, int v) {
    switch (form) {
        case 0: zt_assert_always(v == 1); h_ran = 1; break;
        case 1: if (!v) zt_abort("no more"); h_ran = 1; break;
        default: break;
    }
    return __LINE__;
}
void h_ret(int v) { zt_assert_return(v == 1); h_ran = 1; }
int h_retv(int v, int r) { zt_assert_returnV(v == 1, r); h_ran = 1; return -12345; }

/* ---- macros ---- */
struct mem { char c; long long a; short b[5]; double d; };
#define M2(NAME, EXPR) long long h_i_##NAME(int a, int b, int c) { (void)c; return EXPR; } \
    double h_d_##NAME(double a, double b, double c) { (void)c; return EXPR; } \
    unsigned long long h_u_##NAME(unsigned long long a, unsigned long long b, unsigned long long c) { (void)c; return EXPR; }
M2(max, MAX(a, b)) M2(min, MIN(a, b)) M2(clamp, CLAMP(a, b, c)) M2(ceil, CEILING(a, b)) M2(floor, FLOOR(a, b)) M2(maxe, 2 * MAX(a, b) - b) M2(mine, b - MIN(a, b) * 2)
M2(clampe, 1 - CLAMP(a + 0, b, c))
long long h_i_abs(int a, int b, int c) { (void)b; (void)c; return ABS(a); }
long long h_i_abse(int a, int b, int c) { (void)c; return 7 - ABS(a - b); }
double h_d_abs(double a) { return ABS(a); }
unsigned h_bitset(unsigned t, unsigned b) { ZT_BIT_SET(t, b); return t; }
unsigned h_bitunset(unsigned t, unsigned b) { ZT_BIT_UNSET(t, b); return t; }
int h_bitis(unsigned t, unsigned b) { return ZT_BIT_ISSET(t, b); }
int h_bitisnot(unsigned t, unsigned b) { return ZT_BIT_ISUNSET(t, b); }
int h_bitexpr(unsigned t, unsigned b1, unsigned b2) { ZT_BIT_SET(t, b1 | b2); ZT_BIT_UNSET(t, b1 ^ b2); return ZT_BIT_ISSET(t, b1 & b2) * 2 + ZT_BIT_ISUNSET(t, b1 | b2); }
#define BITW(T, n) unsigned long long h_bitw_##n(int op, unsigned long long t, unsigned long long b) { T x = (T)t, y = (T)b; switch (op) { case 0: ZT_BIT_SET(x, y); return x; case 1: ZT_BIT_UNSET(x, y); return x; case 2: return ZT_BIT_ISSET(x, y) ? 1 : 0; case 3: return ZT_BIT_ISUNSET(x, y) ? 1 : 0; case 4: return (unsigned long long)ZT_BIT_ISSET(x, y); default: return (unsigned long long)ZT_BIT_ISUNSET(x, y); } }
BITW(unsigned char, 8) BITW(unsigned short, 16) BITW(unsigned int, 32) BITW(unsigned long long, 64)
#define EXPRS(X) switch (e) { case 0: X(b1 | b2); case 1: X(b1 & b2); case 2: X(b1 ^ b2); case 3: X(b1 + b2); case 4: X(b1 - b2); case 5: X(b1 < b2 ? b1 : b2); case 6: X(b1 && b2); case 7: X(b1 || b2); case 8: X(b1 == b2); default: X(~b1); }
unsigned h_bitop(int op, int e, unsigned t, unsigned u, unsigned b1, unsigned b2) {
    unsigned a[2], *p = &a[0]; a[0] = t; a[1] = u;
#define BSET(x) ZT_BIT_SET(*p, x); return a[0] + 3 * a[1]
#define BUNSET(x) ZT_BIT_UNSET(*p, x); return a[0] + 3 * a[1]
#define BSETV(x) return ZT_BIT_SET(*(p + 1), x) + 3 * a[0]
#define BUNSETV(x) return ZT_BIT_UNSET(*(p + 1), x) + 3 * a[0]
#define BIS(x) return 5 - ZT_BIT_ISSET(t | u, x) * 2
#define BISN(x) return 5 - ZT_BIT_ISUNSET(t | u, x) * 2
#define BNOT(x) return !ZT_BIT_ISSET(t > u ? t : u, x) + 2 * !ZT_BIT_ISUNSET(t > u ? t : u, x)
    switch (op) { case 0: EXPRS(BSET) case 1: EXPRS(BUNSET) case 2: EXPRS(BSETV) case 3: EXPRS(BUNSETV) case 4: EXPRS(BIS) case 5: EXPRS(BISN) default: EXPRS(BNOT) }
}
#define CMPS(X) switch (e) { case 0: X(a | b, c); case 1: X(a & b, c ^ a); case 2: X(a < b, b < c); case 3: X(a == b ? a : c, b); case 4: X(b, a == c ? c : b); case 5: X(a || b, c && a); case 6: X(a - b, b - c); default: X(a ^ b, c | a); }
int h_cmpexpr(int op, int e, int a, int b, int c) {
#define XMAX(x, y) return 3 - MAX(x, y) * 2
#define XMIN(x, y) return 3 - MIN(x, y) * 2
#define XCLAMP(x, y) return 3 - CLAMP(x, y, 1000 + (y)) * 2
#define XCLAMP2(x, y) return 3 - CLAMP(x, -2000000000, y) * 2
#define XCEIL(x, y) return 3 - CEILING(x, y) * 2
#define XFLOOR(x, y) return 3 - FLOOR(x, y) * 2
#define XABS(x, y) return 3 - ABS(x) * 2
    switch (op) { case 0: CMPS(XMAX) case 1: CMPS(XMIN) case 2: CMPS(XCLAMP) case 3: CMPS(XCLAMP2) case 4: CMPS(XCEIL) case 5: CMPS(XFLOOR) default: CMPS(XABS) }
}
int h_container(struct mem *m, int i) { struct mem *r; switch (i) { case 0: r = zt_containerof(&m->c, struct mem, c); break; case 1: r = zt_containerof(&m->a, struct mem, a); break; case 2: r = zt_containerof(&m->b, struct mem, b); break; default: r = zt_containerof(&m->d, struct mem, d); } return r == m; }
size_t h_offset(int i) { switch (i) { case 0: return zt_offsetof(struct mem, c); case 1: return zt_offsetof(struct mem, a); case 2: return zt_offsetof(struct mem, b); default: return zt_offsetof(struct mem, d); } }
size_t h_memsize(void) { return sizeof(struct mem); }
void *h_mem(int i, struct mem *m) { switch (i) { case 0: return &m->c; case 1: return &m->a; case 2: return m->b; default: return &m->d; } }
int h_arrays(void) { char a[7]; long b[3]; struct mem c[11]; return sizeof_array(a) == 7 && sizeof_array(b) == 3 && sizeof_array(c) == 11 && endof_array(a) == a + 7 && endof_array(b) == b + 3 && endof_array(c) == &c[11]; }
int h_indent(char *out, size_t n, int how, int a, int b, int c) {
    if (how == 3) return snprintf(out, n, BLANK "|", INDENT(a - b)); if (how == 4) return snprintf(out, n, BLANK "|", INDENT_TO(a + b, b + c, a - c)); if (how == 5) return snprintf(out, n, BLANK "|", INDENT_PAD(a + c, b - c, c ? b : a));
    if (how == 0) return snprintf(out, n, BLANK "|", INDENT(a)); if (how == 1) return snprintf(out, n, BLANK "|", INDENT_TO(a, b, c)); return snprintf(out, n, BLANK "|", INDENT_PAD(a, b, c));
}
