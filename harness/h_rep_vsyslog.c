#include <stdarg.h>
#include <syslog.h>
extern void rep_syslog(int severity, const char *format, ...);
#undef HAVE_CONFIG_H
#define vsyslog rep_vsyslog
#define syslog rep_syslog
#include "libzt/replace/vsyslog.c"
