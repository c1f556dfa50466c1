/* the replacements, compiled under names of their own */
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#undef HAVE_ASPRINTF
#undef HAVE_VASPRINTF
#define asprintf rep_asprintf
#define vasprintf rep_vasprintf
#include "libzt/replace/asprintf.c"
