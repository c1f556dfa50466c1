seed('b01-base32-highbit', 'B01', [('src/libzt/zt_base.c', '''        *out++ = alphabet[ ((b2 & 0x0F) << 1) | ((b3 & 0x80) >> 7) ];
        *out++ = alphabet[ ((b3 & 0x7C) >> 2) ];
        *out++ = alphabet[ ((b3 & 0x03) << 3) | ((b4 & 0xE0) >> 5) ];
        *out++ = alphabet[ b4 & 0x1F ];''', '''        *out++ = alphabet[ ((b2 & 0x0F) << 1) ];
        *out++ = alphabet[ ((b3 & 0x7C) >> 2) ];
        *out++ = alphabet[ ((b3 & 0x03) << 3) | ((b4 & 0xE0) >> 5) ];
        *out++ = alphabet[ b4 & 0x1F ];''')],
 'a base32 message whose fourth byte of a full 5-byte group has its top bit set', 'base32 text of non-ASCII data decodes to other data',
 r'''
#include <zt.h>
#include <string.h>
int main(void) { unsigned char d[5] = {1, 2, 3, 0x84, 5}, o[8]; void *p = NULL, *q = NULL; size_t n = 0, m = 0;
  if (zt_base_encode(zt_base32_rfc, d, 5, &p, &n)) return 1;
  if (zt_base_decode(zt_base32_rfc, p, n, &q, &m)) return 1;
  return m != 5 || memcmp(d, q, 5); }
''')
seed('h01-sha1-count-carry', 'H01', [('src/libzt/zt_sha1.c', 'if ((ctx->count[0] += llen << 3) < (llen << 3)) {', 'if ((ctx->count[0] += llen << 3) < llen) {')],
 'a message longer than 2^32 bits fed in large pieces that do not divide 2^32', 'the carry of the bit counter is lost',
 r'''
#include <zt.h>
#include <string.h>
/* the same 513 MiB message in small and in large pieces */
static unsigned char z[3 << 20];
static void go(size_t piece, char *t) { zt_sha1_ctx c; uint8_t d[20]; size_t left = 513u << 20; zt_sha1_init(&c);
  while (left) { size_t n = left < piece ? left : piece; zt_sha1_update(&c, z, n); left -= n; }
  zt_sha1_finalize(&c, d); zt_sha1_tostr(d, t); }
int main(void) { char a[41], b[41]; go(64, a); go(sizeof z - 1024, b); return strncmp(a, b, 40) != 0; }
''')
seed('s02-rfind-boundary', 'S02', [('src/libzt/zt_cstr.c', 'for (offt = j - len + 1; offt >= i; offt--) {', 'for (offt = j - len + 1; offt >= i || (offt >= 0 && offt + (ssize_t)len > i); offt--) {')],
 'a multi-character needle whose only match straddles the start of the slice', 'a reverse search reports a match that starts before the slice',
 r'''
#include <zt.h>
int main(void) { return zt_cstr_rfind("xxabyyyy", 3, -1, "ab") != -1; }
''')
seed('f01-zero-left', 'F01', [('src/libzt/zt_format.c', '''    if (precision >= 0) {                                  \\
        flags['0'] = 0;                                    \\
    }''', '''    if (precision > 0) {                                   \\
        flags['0'] = 0;                                    \\
    }''')], 'the zero flag together with an explicit precision of 0 and a width', 'zero padding is kept although a precision is given',
 r'''
#include <zt.h>
#include <string.h>
int main(void) { char *s = zt_fmt_strprintf("%05.0d", 42); return strcmp(s, "   42") != 0; }
''')
