#include <string.h>
#undef HAVE_CONFIG_H
#define basename rep_basename
#include "libzt/replace/basename.c"
