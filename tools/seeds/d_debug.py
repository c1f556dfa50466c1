seed('l04-last-element', 'L04', [('src/libzt/zt_array.c', '''zt_array_get(zt_array_t array, size_t offt)
{
    zt_assert(array);
    zt_assert(offt < array->length);''', '''zt_array_get(zt_array_t array, size_t offt)
{
    zt_assert(array);
    zt_assert(offt < array->length - 1);''')],
 'a build with assertions and the last element of an array', 'the assertion fails for a valid index',
 r'''
#include <zt.h>
int main(void) { int v[3] = {1, 2, 3}; zt_array_t a = zt_array_with((char *)v, 3, sizeof *v, 1); return *(int *)zt_array_get(a, 2) != 3; }
''', '-UNDEBUG src/libzt/zt_array.c')
seed('l04-flag-twice', 'L04', [('src/libzt/zt_format.c', 'zt_assert(flags[c] < 255);', 'zt_assert(flags[c] == 0);')],
 'a build with assertions and a directive with the same flag twice', 'the assertion fails for a valid directive',
 r'''
#include <zt.h>
#include <string.h>
int main(void) { char b[40]; zt_fmt_sprintf(b, sizeof b, "%--5d|", 7); return strcmp(b, "7    |"); }
''', '-UNDEBUG src/libzt/zt_format.c')
seed('l04-short-form', 'L04', [('src/libzt/zt_uuid.c', 'zt_assert(flags == zt_uuid_std_fmt || flags == zt_uuid_short_fmt);', 'zt_assert(flags == zt_uuid_std_fmt || uuids_size == UUID_SHORT_STR_LEN + 1);')],
 'a build with assertions and a short-form UUID printed into a larger buffer', 'the assertion fails for a valid call',
 r'''
#include <zt.h>
#include <string.h>
int main(void) { zt_uuid_t u; char b[64]; size_t n = sizeof b; memset(&u, 0x5a, sizeof u); return zt_uuid_fillstr(&u, b, &n, zt_uuid_short_fmt) != UUID_SHORT_STR_LEN; }
''', '-UNDEBUG src/libzt/zt_uuid.c')
