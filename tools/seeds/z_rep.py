seed('z01-boundary', 'Z01', [('src/libzt/replace/asprintf.c', 'if (ret >= 0 && ret < INIT_SZ) {', 'if (ret >= 0 && ret <= INIT_SZ) {')], 'a text of exactly 128 characters', 'the replacement of asprintf cuts the last character off a text of 128 characters',
 r'''
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#undef HAVE_ASPRINTF
#undef HAVE_VASPRINTF
#undef HAVE_VA_COPY
#define HAVE_VA_COPY 1
#define asprintf own_asprintf
#define vasprintf own_vasprintf
#include "libzt/replace/asprintf.c"
int main(void) { char t[300], *s; int n; for (n = 0; n < 290; n++) { memset(t, 'x', n); t[n] = 0; if (asprintf(&s, "%s", t) != n || strcmp(s, t)) return 1; free(s); } return 0; }
''')
