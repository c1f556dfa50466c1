seed('p01-parent-mode', 'P01', [('src/libzt/zt_path.c', '''            if (offt == pslen || stat(cpath, &sbuf) == 0) {''', '''            if (offt == pslen || stat(cpath, &sbuf) == 0 || cpath[strlen(cpath) - 1] == '.') {''')],
 'creating a path with a missing directory whose name ends in a dot', 'directories with a name ending in a dot are not created and the call fails',
 r'''
#include <zt.h>
#include <sys/stat.h>
int main(void) { struct stat s; if (zt_mkdir("a/b./c", 0777, zt_mkdir_create_parent)) return 1; return stat("a/b./c", &s) != 0; }
''')
seed('p02-root', 'P02', [('src/libzt/zt_path.c', '''        if ((strlen(lpath) == 0) ||
            (offt = zt_cstr_rfind(lpath, 0, -1, PATH_SEPERATOR)) == -1) {''', '''        if ((offt = zt_cstr_rfind(lpath, 0, -1, PATH_SEPERATOR)) <= 0) {''')],
 'a trigger that is found only in the root directory', 'a trigger in the root directory is not found',
 r'''
#include <zt.h>
#include <string.h>
int main(void) { char *r = zt_find_basedir("/usr/lib/nothing", "usr"); return !r || strcmp(r, "/"); }
''')
seed('a01-register-late', 'A01', [('src/libzt/zt_atexit.c', '''    while(!zt_stack_empty(&cb_stack)) {
        se = zt_stack_pop(&cb_stack);
        cb = zt_stack_data(se, struct zt_atexit_cb, member);
        if(cb && cb->fn) {
            cb->fn(cb->data);
            zt_free(cb);
        }
    }''', '''    while(!zt_stack_empty(&cb_stack)) {
        se = cb_stack.next;
        cb = zt_stack_data(se, struct zt_atexit_cb, member);
        if(cb && cb->fn) {
            cb->fn(cb->data);
        }
        zt_stack_pop(&cb_stack);
        zt_free(cb);
    }''')], 'an exit callback that registers another one', 'a callback registered by a callback replaces it on the stack and is lost',
 r'''
#include <zt.h>
#include <unistd.h>
#include <sys/wait.h>
static void b(void *d) { (void)!write(*(int *)d, "b", 1); } static void a(void *d) { (void)!write(*(int *)d, "a", 1); zt_atexit(b, d); }
int main(void) { static int p[2]; char o[9]; int n, s; if (pipe(p)) return 1; if (fork() == 0) { alarm(5); zt_atexit(a, &p[1]); exit(0); } wait(&s); close(p[1]); n = read(p[0], o, 9);
  return !(n == 2 && o[0] == 'a' && o[1] == 'b' && s == 0); }
''')
seed('q01-empty-stats', 'Q01', [('src/libzt/zt_unit.c', '''        if (result != TRUE) {
            suite->failed += 1;
            unit->failures += 1;
        } else {''', '''        if (result != TRUE && unit_test->exceptions == 0) {
            suite->failed += 1;
            unit->failures += 1;
        } else {''')], 'a suite with a test that ends in an unhandled exception', 'tests ended by an exception are counted as successful',
 r'''
#include <zt.h>
#include <libzt/zt_unit.h>
static void t(struct zt_unit_test *t, void *d) { zt_unit_test_add_exception(t); longjmp(t->env, 1); }
int main(void) { struct zt_unit *u = zt_unit_init(); struct zt_unit_suite *s = zt_unit_register_suite(u, "s", NULL, NULL, NULL); zt_unit_register_test(s, "t", t);
  char *v[] = { "p", NULL }; return zt_unit_main(u, 1, v) == 0 || u->failures != 1 || u->successes != 0; }
''')
seed('d01-short-write', 'D01', [('src/libzt/zt_daemon.c', '            if (nBytes == sz) {', '            if (nBytes > 0) {')],
 'a disk or size limit that cuts the write of the pid short', 'a pid file with a truncated pid is reported as written',
 r'''
#include <zt.h>
#include <signal.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
int main(void) { struct rlimit r = { 1, 1 }; int k = open("/dev/null", O_RDWR); dup2(k, 2); signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &r); if (getpid() < 10) return 0; return zt_writepid("p.pid") == 0; }
''')
seed('d02-umask-first', 'D02', [('src/libzt/zt_daemon.c', '''            umask(mask);
            fd = open("/dev/null", O_RDWR);    /* stdin */''', '''            umask(mask ? mask : 022);
            fd = open("/dev/null", O_RDWR);    /* stdin */''')], 'a daemon started with a file mask of 0', 'a daemon asked for no file mask gets one',
 r'''
#include <zt.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/wait.h>
int main(void) { char cwd[4096]; struct stat s; int i; umask(077); if (!getcwd(cwd, sizeof cwd)) return 1; if (fork() == 0) { zt_daemonize(cwd, 0, 0); FILE *f = fopen("out", "w"); fputs("x", f); fclose(f); _exit(0); }
  for (i = 0; i < 100 && stat("out", &s); i++) usleep(50000); return stat("out", &s) || (s.st_mode & 0777) != 0666; }
''')
seed('p03-hidden-dir', 'P03', [('src/libzt/zt_progname.c', """if(_progpath[0] == '.' &&  _progpath[1] == '/') {""", """if(_progpath[0] == '.' &&  _progpath[1] != '\\0' && _progpath[1] != '.') {""")],
 'a program started by a relative path that begins with a hidden directory', 'the directory of the program lacks the beginning of the hidden directory name',
 r'''
#include <zt.h>
#include <string.h>
#include <unistd.h>
int main(void) { char c[4096], e[5000]; if (!getcwd(c, sizeof c)) return 1; sprintf(e, "%s/.hidden/bin", c); return strcmp(zt_progpath(".hidden/bin/prog"), e) != 0; }
''')
