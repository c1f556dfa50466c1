/* checked integer operations of the assertion build, one entry point for all */
#include <stdlib.h>
#ifdef __clang__
#pragma clang optimize off /* undefined overflow must not be optimised into the right result */
#endif
#include <zt.h>
#define OPS(X, T, n) X(T, n, add) X(T, n, sub) X(T, n, mul) X(T, n, div)
#define OPS2(X, T, n) X(T, n, add) X(T, n, sub)
#define CASE(T, n, op) { #n, #op, sizeof(T), (T)-1 < 0, f_##n##_##op },
#define FN(T, n, op) static __int128 f_##n##_##op(__int128 a, __int128 b) { return zt_##n##_##op((T)a, (T)b); }
#define ALL(X) OPS(X, unsigned char, uchar) OPS(X, unsigned short, ushort) OPS(X, unsigned int, uint) OPS2(X, unsigned long, ulong) \
    OPS(X, signed char, char) OPS(X, signed short, short) OPS(X, signed int, int) OPS2(X, signed long, long)
ALL(FN)
struct iop { const char *type, *op; int size, sign; __int128 (*f)(__int128, __int128); };
struct iop int_ops[] = { ALL(CASE) };
int int_nops = sizeof int_ops / sizeof *int_ops;
