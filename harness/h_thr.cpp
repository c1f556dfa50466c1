#include <sanitizer/allocator_interface.h>
// thread pool under a controlled scheduler, and the thread wrappers on real threads
#include "pbt.h"
#include "zthdr.h"
#include <sys/resource.h>
#include <sys/ioctl.h>
#include <atomic>
extern "C" {
#include <libzt/zt_threads.h>
}
// Every synchronisation of the library goes through its callbacks, so a scheduler put
// behind them runs one thread at a time and decides every switch from generated choices.
namespace sch {
enum { RUN, LOCK, COND, JOIN, DONE };
struct Mx { int owner = -1; }; struct Cv { int dummy; }; struct Th { int id = -1; };
struct T { int st = RUN; void *on = NULL; void *(*fn)(void *) = NULL; void *arg = NULL; void *ret = NULL; pthread_t pt; pthread_cond_t go = PTHREAD_COND_INITIALIZER; };
static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER; static std::vector<T *> th; static int cur; static std::vector<uint8_t> choice; static size_t ci; static size_t steps, switches; static thread_local int me = 0; static int spurious;
static unsigned ch(unsigned n) { unsigned v = ci < choice.size() ? choice[ci++] : 0; return v % n; }
static void yield() { // big held: give the processor to a generated thread and wait to get it back
    steps++; if (steps > 200000) FAIL("no progress: 200000 scheduling steps"); std::vector<int> r; if (th[me]->st == RUN) r.push_back(me); for (size_t i = 0; i < th.size(); i++) if ((int)i != me && th[i]->st == RUN) r.push_back((int)i);
    if (spurious && ch(16) == 1) for (auto *t : th) if (t->st == COND) { t->st = RUN; spurious--; break; }
    if (r.empty()) { std::string s; for (size_t i = 0; i < th.size(); i++) s += fmt(" %zu:%s", i, th[i]->st == LOCK ? "waits for a mutex" : th[i]->st == COND ? "waits for a signal" : th[i]->st == JOIN ? "joins" : "ended"); FAIL("deadlock: no thread can run:%s", s.c_str()); }
    int n = r[ch((unsigned)r.size())]; if (n != me) { switches++; cur = n; pthread_cond_signal(&th[n]->go); if (th[me]->st == DONE) return; while (cur != me) pthread_cond_wait(&th[me]->go, &big); }
}
static void block(int st, void *on) { th[me]->st = st; th[me]->on = on; yield(); }
struct G { G() { pthread_mutex_lock(&big); } ~G() { pthread_mutex_unlock(&big); } };
static void *lalloc(int) { return new Mx; }
static void lfree(void *m, int) { delete (Mx *)m; }
static void take(Mx *m) { while (m->owner >= 0) { if (m->owner == me) FAIL("a thread locks a mutex it holds"); block(LOCK, m); } m->owner = me; }
static int lock(int mode, void *l) { G g; Mx *m = (Mx *)l; yield(); if (mode & ZT_THREADS_LOCK_NONBLOCKING && m->owner >= 0) return EBUSY; take(m); return 0; }
static void drop(Mx *m) { if (m->owner != me) FAIL("a thread unlocks a mutex it does not hold"); m->owner = -1; for (auto *t : th) if (t->st == LOCK && t->on == m) t->st = RUN; }
static int unlock(int, void *l) { G g; drop((Mx *)l); yield(); return 0; }
static void *calloc_(int) { return new Cv; }
static void cfree(void *c) { delete (Cv *)c; }
static int csignal(void *c, int bc) { G g; yield(); std::vector<T *> w; for (auto *t : th) if (t->st == COND && t->on == c) w.push_back(t); if (w.size()) { if (bc) for (auto *t : w) t->st = RUN; else w[ch((unsigned)w.size())]->st = RUN; } return 0; }
static int cwait(void *c, void *l, struct timeval *) { G g; yield(); drop((Mx *)l); block(COND, c); take((Mx *)l); return 0; }
static void finish(void *ret) { T *t = th[me]; t->ret = ret; t->st = DONE; for (auto *o : th) if (o->st == JOIN && o->on == t) o->st = RUN; bool any = false; for (auto *o : th) if (o->st == RUN) any = true; if (any) { yield(); } else { std::string s; for (size_t i = 0; i < th.size(); i++) if (th[i]->st != DONE) s += fmt(" %zu", i); if (!s.empty()) FAIL("deadlock: the last running thread ended, these never run again:%s", s.c_str()); } }
static void *tramp(void *p) { T *t = (T *)p; pthread_mutex_lock(&big); for (size_t i = 0; i < th.size(); i++) if (th[i] == t) me = (int)i; while (cur != me) pthread_cond_wait(&t->go, &big); pthread_mutex_unlock(&big); void *r = t->fn(t->arg); pthread_mutex_lock(&big); finish(r); pthread_mutex_unlock(&big); return NULL; }
static uint64_t failmask; static int nstart; static bool refuse;
static void *talloc() { Th *t = (Th *)malloc(sizeof(Th)); t->id = -1; return t; }
static int start(void *h, void *, void *(*fn)(void *), void *arg) { G g; if (refuse && failmask >> nstart++ & 1) return -1; T *t = new T; t->fn = fn; t->arg = arg; ((Th *)h)->id = (int)th.size(); th.push_back(t); if (pthread_create(&t->pt, NULL, tramp, t)) FAIL("harness: no thread"); yield(); return 0; }
static void end(void *r) { pthread_mutex_lock(&big); finish(r); pthread_mutex_unlock(&big); pthread_exit(NULL); }
static int join(void *h, void **d) { T *t; { G g; yield(); if (!h || ((Th *)h)->id < 0) FAIL("joining a thread that was not started"); t = th[((Th *)h)->id]; while (t->st != DONE) block(JOIN, t); if (d) *d = t->ret; } pthread_join(t->pt, NULL); return 0; }
static int kill(void *) { FAIL("the pool cancels a thread"); }
static unsigned long id() { return (unsigned long)me + 1; }
static int detach(void *) { return 0; }
static void pause() { G g; yield(); }
static int alive() { int n = 0; for (size_t i = 1; i < th.size(); i++) if (th[i]->st != DONE) n++; return n; }
static void begin(std::vector<uint8_t> c, int spur) {
    th.clear(); th.push_back(new T); cur = me = 0; choice = c; ci = 0; steps = switches = 0; spurious = spur;
    struct zt_threads_lock_callbacks l = {lalloc, lfree, lock, unlock}; struct zt_threads_cond_callbacks c2 = {calloc_, cfree, csignal, cwait}; struct zt_threads_cntrl_callbacks c3 = {start, end, kill, id, join, detach}; CHECK(zt_threads_set_lock_callbacks(&l) == 0); CHECK(zt_threads_set_cond_callbacks(&c2) == 0); CHECK(zt_threads_set_cntrl_callbacks(&c3) == 0); zt_threads_alloc_thread = talloc;
}
}
// the work: item i has a recorded history
static const int MAXI = 64; static std::atomic<int> seen[MAXI], outp[MAXI], fin[MAXI]; static uint8_t kind[MAXI]; static std::atomic<int> inits, badinit, cleaned; static int initdata[64]; static std::vector<int> inorder, outorder; static bool inited; static void (*pause_)(); static zt_threadpool *thepool; static pthread_mutex_t omx = PTHREAD_MUTEX_INITIALIZER;
static char items[MAXI], results[MAXI], outs[MAXI];
static void *w_init(void *a) { if (a != thepool) badinit++; int n = inits++; return &initdata[n % 64]; }
static void checkinit(void *d) { if (inited ? (d < (void *)initdata || d >= (void *)(initdata + 64)) : d != NULL) badinit++; }
static void *w_in(void *d, void *x) { checkinit(d); int i = (int)((char *)x - items); if (i < 0 || i >= MAXI) { badinit++; return NULL; } pause_(); seen[i]++; pthread_mutex_lock(&omx); inorder.push_back(i); pthread_mutex_unlock(&omx); if (kind[i] & 4) pause_(); return kind[i] & 1 ? NULL : &results[i]; }
static void *w_out(void *d, void *x) { checkinit(d); int i = (int)((char *)x - results); if (i < 0 || i >= MAXI) { badinit++; return NULL; } pause_(); outp[i]++; pthread_mutex_lock(&omx); outorder.push_back(i); pthread_mutex_unlock(&omx); return kind[i] & 2 ? NULL : &outs[i]; }
static void w_fin(void *d, void *x) { checkinit(d); int i = (int)((char *)x - outs); if (i < 0 || i >= MAXI) { badinit++; return; } fin[i]++; }
static int pending(int fd) { int n = 0; ioctl(fd, FIONREAD, &n); return n; }
struct PoolCase { int im, om; uint64_t fail; int threads, n, early; bool oloop, init, fin, pin, pout, inserter, own, noin, noout; unsigned parts; std::vector<int> get; };
static PoolCase rpool(Gen &g, bool faults) { PoolCase c; c.threads = 1 + (int)g.u(3); c.n = (int)g.u(g.coin() ? 4 : 20); c.early = (int)g.u((uint64_t)c.n); c.im = g.chance(1, 8) ? 1 + (int)g.u(1) : 0; c.om = g.chance(1, 8) ? 2 : g.chance(1, 3) ? 1 : 0; c.oloop = c.om == 0; c.fail = faults && g.chance(1, 5) ? g.bits(8) : 0; c.init = g.coin(); c.fin = g.coin(); c.pin = g.chance(1, 3); c.pout = g.chance(1, 3); c.inserter = g.coin(); c.own = g.chance(1, 6); c.noin = c.im == 0 && g.chance(1, 20); c.noout = g.chance(1, 20); c.parts = g.coin() ? (unsigned)g.u(127) : 0; for (int i = 0; i < MAXI; i++) kind[i] = 0; for (int i = 0; i < c.n; i++) { kind[i] = (uint8_t)g.u(7); c.get.push_back((int)g.u(3)); } g.note("%d threads %d items (%d before start)%s%s%s%s%s%s%s ", c.threads, c.n, c.early, c.im == 0 ? "" : c.im == 1 ? " no input loop" : " own input loop", c.fail ? fmt(" start failures %llx", (unsigned long long)c.fail).c_str() : "", c.om == 0 ? " output loop" : c.om == 1 ? " polled" : " own output loop", c.init ? " init" : "", c.fin ? " finalize" : "", c.pin ? " input pipe" : "", c.pout ? " output pipe" : ""); if (c.noin || c.noout) g.note("no %s%s worker ", c.noin ? "input" : "", c.noout ? "output" : ""); return c; }
static zt_threads_thread *ins_thread; static int ins_from, ins_to; static void *inserter(void *) { for (int i = ins_from; i < ins_to; i++) { if (zt_threadpool_insert_iput(thepool, &items[i])) badinit++; pause_(); } return NULL; }
static std::atomic<int> ownloops; static void *ownloop(void *a) { if (a != thepool) badinit++; pause_(); ownloops++; return NULL; }
static void *bad_init(void *) { badinit++; return NULL; }
static void *bad_work(void *, void *) { badinit++; return NULL; }
static void runpool(const PoolCase &c) {
    for (int i = 0; i < MAXI; i++) { seen[i] = 0; outp[i] = 0; fin[i] = 0; } inits = 0; badinit = 0; inorder.clear(); outorder.clear(); inited = c.init; CHECK(zt_threadpool_set_callbacks(NULL) == 0); ownloops = 0; struct zt_threadpool_callbacks cb = {c.im == 2 ? ownloop : NULL, c.om == 2 ? ownloop : NULL, c.init ? w_init : NULL, c.noin ? NULL : w_in, c.noout ? NULL : w_out, c.fin ? w_fin : NULL}; for (int q = 0; q < 6; q++) if (c.parts >> q & 1) { /* some of them alone, and first something else */ struct zt_threadpool_callbacks one = {NULL, NULL, NULL, NULL, NULL, NULL}; switch (q) { case 0: one.iput_loop = cb.iput_loop; break; case 1: one.oput_loop = cb.oput_loop; break; case 2: if (cb.init) one.init = bad_init; break; case 3: if (cb.iput_worker) one.iput_worker = bad_work; break; case 4: if (cb.oput_worker) one.oput_worker = bad_work; break; default: one.finalize = cb.finalize; cb.finalize = NULL; } CHECK(zt_threadpool_set_callbacks(&one) == 0); if (q == 5 && c.parts & 64) { one.finalize = NULL; one.init = cb.init; cb.init = NULL; CHECK(zt_threadpool_set_callbacks(&one) == 0); } } CHECK(zt_threadpool_set_callbacks(&cb) == 0); if (c.om == 1) zt_threadpool_disable_oput_loop(); if (c.im == 1) zt_threadpool_disable_iput_loop(); auto put = [&](int i) { if (c.im == 0) return zt_threadpool_insert_iput(thepool, &items[i]); if (kind[i] & 1) return 0; return zt_threadpool_insert_oput(thepool, &results[i]); };
    zt_threadpool *p = thepool = zt_threadpool_init(c.threads, c.threads, c.pin, c.pout); CHECK(p != NULL); CHECK((zt_threadpool_iput_fd_reader(p) >= 0) == c.pin && (zt_threadpool_iput_fd_writer(p) >= 0) == c.pin && (zt_threadpool_oput_fd_reader(p) >= 0) == c.pout && (zt_threadpool_oput_fd_writer(p) >= 0) == c.pout);
    std::vector<int> got; auto poll = [&](int k) { for (int j = 0; j < k; j++) { char *r = (char *)zt_threadpool_get_oput(p); if (!r) break; int i = (int)(r - results); CHECK(i >= 0 && i < MAXI, "a result nobody made"); outp[i]++; got.push_back(i); } };
    for (int i = 0; i < c.early; i++) CHECK(put(i) == 0); sch::nstart = 0; sch::failmask = c.fail; sch::refuse = true; int st = zt_threadpool_start(p), nt = (c.im != 1 ? c.threads : 0) + (c.om != 1 ? c.threads : 0), nI = 0, nO = 0, k = 0; sch::refuse = false; if (c.im != 1) for (int i = 0; i < c.threads; i++) nI += !(c.fail >> k++ & 1); if (c.om != 1) for (int i = 0; i < c.threads; i++) nO += !(c.fail >> k++ & 1); CHECK(c.fail & ((1ull << nt) - 1) ? st != 0 : st == 0, "starting %d of %d threads said %d", nI + nO, nt, st); bool polled = c.om != 0;  int half = c.inserter && c.im == 0 ? (c.early + c.n) / 2 : c.n; if (half < c.n) { ins_thread = zt_threads_alloc_thread(); ins_from = half; ins_to = c.n; CHECK(zt_threads_start(ins_thread, NULL, inserter, NULL) == 0); }
    for (int i = c.early; i < half; i++) { CHECK(put(i) == 0); if (polled) poll(c.get[i]); pause_(); } if (half < c.n) zt_threads_join(ins_thread, NULL);
    CHECK(zt_threadpool_kill(p) == 0, "kill failed"); CHECK(ownloops == (c.im == 2 ? nI : 0) + (c.om == 2 ? nO : 0), "own loops ran %d times for %d and %d threads", (int)ownloops, nI, nO); if (polled || nO == 0) poll(MAXI); CHECK(zt_threadpool_get_oput(p) == NULL, "a result is left in the queue");
    CHECK(badinit == 0, "a worker got foreign data or a failed insertion"); int wi = (c.im == 0 ? nI : 0) + (c.oloop ? nO : 0); if (c.init) CHECK(inits == wi, "%d initialisations for %d threads", (int)inits, wi); int no = 0; bool idle = c.im == 0 && nI == 0, dropped = c.noout && c.oloop && nO; if (idle) { while (!TAILQ_EMPTY(&p->iput_queue)) { zt_threadpool_entry *e = TAILQ_FIRST(&p->iput_queue); TAILQ_REMOVE(&p->iput_queue, e, next); free(e); } } else CHECK(TAILQ_EMPTY(&p->iput_queue), "an input is left in the queue");
    for (int i = 0; i < c.n; i++) { CHECK(seen[i] == (c.im == 0 && !idle && !c.noin), "input %d was processed %d times", i, (int)seen[i]); int wo = kind[i] & 1 || idle || c.noin ? 0 : 1; no += wo; if (dropped) wo = 0; CHECK(outp[i] == wo, "result %d was delivered %d times instead of %d", i, (int)outp[i], wo); int wf = wo && c.oloop && nO && c.fin && !(kind[i] & 2); CHECK(fin[i] == wf, "result %d was finalised %d times instead of %d", i, (int)fin[i], wf); }
    for (int i = c.n; i < MAXI; i++) CHECK(!seen[i] && !outp[i] && !fin[i]); if (c.threads == 1 && c.im == 0) { if (half == c.n) CHECK(std::is_sorted(inorder.begin(), inorder.end()), "inputs were processed out of order"); auto &oo = c.oloop && nO ? outorder : got; std::vector<int> w; for (int i : inorder) if (!(kind[i] & 1) && !dropped) w.push_back(i); CHECK(oo == w, "results were delivered out of order"); }
    if (c.pin) CHECK(pending(zt_threadpool_iput_fd_reader(p)) == (c.im == 0 ? c.n : 0) + 1, "%d signals for %d inputs and the end", pending(zt_threadpool_iput_fd_reader(p)), c.n); if (c.pout) CHECK(pending(zt_threadpool_oput_fd_reader(p)) == no + 1, "%d signals for %d results and the end", pending(zt_threadpool_oput_fd_reader(p)), no);
    for (int fd : {zt_threadpool_iput_fd_reader(p), zt_threadpool_iput_fd_writer(p), zt_threadpool_oput_fd_reader(p), zt_threadpool_oput_fd_writer(p)}) if (fd >= 0) close(fd); zt_threads_free_lock(p->iput_mutex, 0); zt_threads_free_lock(p->oput_mutex, 0); zt_threads_cond_free(p->iput_cond); zt_threads_cond_free(p->oput_cond); free(p->iput_threads); free(p->oput_threads); free(p);
}
P_(W01, schedules, 6000, 400000, 20, 60, 0, 2, "pools of 1..4 input and output threads (or polled results) fed 0..20 items before and after the start by one or two threads and then killed, every switch at every lock, wait, signal, start and join decided by generated choices, spurious wake-ups included: every input is processed once, every result delivered and finalised once, nothing deadlocks; non-trivial = 20 or more switches between threads") {
    PoolCase c = rpool(g, true); std::vector<uint8_t> ch; size_t n = g.u(600); unsigned dens = (unsigned)g.pick({1, 2, 4, 8}); for (size_t i = 0; i < n; i++) ch.push_back((uint8_t)(dens == 1 || g.u(dens) == dens ? g.u(7) : 0)); sch::begin(ch, g.coin() ? (int)g.u(4) : 0); pause_ = sch::pause; runpool(c); CHECK(sch::alive() == 0, "%d threads still run after kill", sch::alive()); if (sch::switches >= 20) g.nontrivial(); g.note("%zu switches", sch::switches);
}
// as many items as threads, each of which goes on only when all of them and the caller are at work: an item left waiting beside an idle thread stops everything
struct Meet { void *m, *c; int n, here; }; struct Job { Meet *in, *out; bool res; };
static void meet(Meet &b) { zt_threads_lock(0, b.m); if (++b.here == b.n) zt_threads_cond_signal(b.c, 1); while (b.here < b.n) zt_threads_cond_wait(b.c, b.m, NULL); zt_threads_unlock(0, b.m); }
static void *t_in(void *, void *x) { Job *j = (Job *)x; meet(*j->in); return j->res ? j : NULL; }
static void *t_out(void *, void *x) { meet(*((Job *)x)->out); return NULL; }
P_(W01, together, 3000, 200000, 20, 60, 0, 2, "pools of 1..5 threads of which some fail to start, given as many items as threads run in several rounds, each item blocking until all the others and the caller have met it, under generated schedules: no item waits while a thread is idle, at either end; non-trivial = two or more threads at an end") {
    int n = 1 + (int)g.u(4); uint64_t fail = g.chance(1, 3) ? g.bits(10) : 0; bool oloop = g.coin(); int rounds = 1 + (int)g.u(2), early = (int)g.u((uint64_t)n); std::vector<uint8_t> ch; size_t k = g.u(600); unsigned dens = (unsigned)g.pick({1, 2, 4, 8}); for (size_t i = 0; i < k; i++) ch.push_back((uint8_t)(dens == 1 || g.u(dens) == dens ? g.u(7) : 0)); int spur = g.coin() ? (int)g.u(4) : 0;
    int nI = 0, nO = 0; auto count = [&] { nI = nO = 0; for (int i = 0; i < n; i++) { nI += !(fail >> i & 1); nO += oloop && !(fail >> (i + n) & 1); } }; count(); if (!nI) { fail = 0; count(); } if (early > nI) early = nI; g.note("%d threads, %d and %d started, %d rounds, %d early", n, nI, nO, rounds, early); if (nI > 1 || nO > 1) g.nontrivial(); sch::begin(ch, spur); zt_threadpool_set_callbacks(NULL); struct zt_threadpool_callbacks cb = {NULL, NULL, NULL, t_in, t_out, NULL}; CHECK(zt_threadpool_set_callbacks(&cb) == 0); if (!oloop) zt_threadpool_disable_oput_loop();
    zt_threadpool *p = zt_threadpool_init(n, n, 0, 0); CHECK(p != NULL); std::vector<Meet> ms(2 * (size_t)rounds); for (size_t i = 0; i < ms.size(); i++) { ms[i].m = zt_threads_alloc_lock(0); ms[i].c = zt_threads_cond_alloc(0); ms[i].here = 0; ms[i].n = (i & 1 ? nO : nI) + 1; } std::vector<Job> jobs; for (int q = 0; q < rounds; q++) for (int i = 0; i < std::max(nI, nO); i++) jobs.push_back({&ms[2 * (size_t)q], &ms[2 * (size_t)q + 1], !oloop || i < nO}); size_t per = (size_t)std::max(nI, nO), want = 0, got = 0;
    for (int i = 0; i < early; i++) CHECK(zt_threadpool_insert_iput(p, &jobs[(size_t)i]) == 0); sch::nstart = 0; sch::failmask = fail; sch::refuse = true; zt_threadpool_start(p); sch::refuse = false;
    for (int q = 0; q < rounds; q++) { Job *j = &jobs[per * (size_t)q]; for (int i = q ? 0 : early; i < nI; i++) CHECK(zt_threadpool_insert_iput(p, j + i) == 0); for (int i = nI; i < nO; i++) CHECK(zt_threadpool_insert_oput(p, j + i) == 0); meet(*j->in); if (nO) meet(*j->out); else if (!oloop) want += (size_t)nI; while (!oloop && zt_threadpool_get_oput(p)) got++; }
    CHECK(zt_threadpool_kill(p) == 0); CHECK(sch::alive() == 0); while (zt_threadpool_get_oput(p)) got++; if (nO || !oloop) CHECK(got == want, "%zu results polled of %zu", got, want); for (auto &m : ms) { zt_threads_free_lock(m.m, 0); zt_threads_cond_free(m.c); } zt_threads_free_lock(p->iput_mutex, 0); zt_threads_free_lock(p->oput_mutex, 0); zt_threads_cond_free(p->iput_cond); zt_threads_cond_free(p->oput_cond); free(p->iput_threads); free(p->oput_threads); free(p);
}
static std::atomic<unsigned> jit; static void jitter() { unsigned x = jit.fetch_add(0x9e3779b9u); x ^= x >> 15; x *= 0x2c1b3c6du; x ^= x >> 12; if (x % 3 == 0) sched_yield(); else if (x % 61 == 1) usleep(x % 200); }
static struct zt_threads_lock_callbacks rl; static struct zt_threads_cond_callbacks rc; static int jlock(int m, void *l) { jitter(); return rl.lock(m, l); } static int junlock(int m, void *l) { int r = rl.unlock(m, l); jitter(); return r; } static int jwait(void *c, void *l, struct timeval *tv) { jitter(); return rc.wait(c, l, tv); } static int jsig(void *c, int b) { jitter(); return rc.signal(c, b); }
P_(W01, threads, 400, 20000, 4, 30, 0, 10, "the same pools on real threads with generated delays around every lock, wait and signal; non-trivial = two or more threads and items") {
    PoolCase c = rpool(g, false); jit = (unsigned)g.bits(32); bool j = g.chance(3, 4); zt_threads_use_pthreads(); rl = _zt_threads_lock_cbs; rc = _zt_threads_cond_cbs; if (j) { struct zt_threads_lock_callbacks l = rl; l.lock = jlock; l.unlock = junlock; struct zt_threads_cond_callbacks k = rc; k.wait = jwait; k.signal = jsig; CHECK(zt_threads_set_lock_callbacks(&l) == 0 && zt_threads_set_cond_callbacks(&k) == 0); } pause_ = jitter; runpool(c); if (c.threads > 1 && c.n > 1) g.nontrivial();
}
P(W01, exhausted, 300, 5000, 10, "a pool that cannot get its pipes is refused without losing or closing a descriptor; non-trivial = the second pipe fails") {
    zt_threads_use_pthreads(); zt_threadpool_set_callbacks(NULL); int base = dup(0); close(base); int room = (int)g.u(4); bool pi = g.coin(), po = g.coin(); struct rlimit r, o; getrlimit(RLIMIT_NOFILE, &o); r = o; r.rlim_cur = (rlim_t)(base + room); setrlimit(RLIMIT_NOFILE, &r); auto open_ = [&]() { std::vector<int> v; for (int i = 0; i < base + 8; i++) if (fcntl(i, F_GETFD) != -1) v.push_back(i); return v; }; std::vector<int> before = open_(); int need = (pi ? 2 : 0) + (po ? 2 : 0); zt_threadpool *p = zt_threadpool_init(1, 1, pi, po); g.note("room %d need %d", room, need); std::vector<int> after = open_(); setrlimit(RLIMIT_NOFILE, &o); if (need > room) { if (pi && po && room >= 2) g.nontrivial(); CHECK(p == NULL, "a pool without its pipes"); CHECK(before == after, "descriptors were lost or closed"); } else { CHECK(p != NULL); CHECK(after.size() == before.size() + (size_t)need); }
}
// wrappers
static void *wr_main(void *a) { void **v = (void **)a; v[1] = (void *)zt_threads_id(); if (v[2]) { zt_threads_end(v[0]); v[3] = (void *)1; } return v[0]; }
struct Ping { void *m, *c; int all, turn, n, rounds; std::vector<int> *log; int inside; bool bad; };
static void *pinger(void *a) { std::pair<Ping *, int> *x = (std::pair<Ping *, int> *)a; Ping *p = x->first; for (int r = 0; r < p->rounds; r++) { zt_threads_lock(0, p->m); if (p->inside++) p->bad = true; while (p->turn != x->second) { p->inside--; zt_threads_cond_wait(p->c, p->m, NULL); if (p->inside++) p->bad = true; } p->log->push_back(x->second); p->turn = (p->turn + 1) % p->n; zt_threads_cond_signal(p->c, p->all); p->inside--; zt_threads_unlock(0, p->m); } return a; }
static void *held(void *a) { void **v = (void **)a; v[1] = (void *)(intptr_t)zt_threads_lock(ZT_THREADS_LOCK_NONBLOCKING, v[0]); if (!v[1]) zt_threads_unlock(0, v[0]); return NULL; }
static void *canceled(void *a) { std::atomic<int> *x = (std::atomic<int> *)a; while (1) { (*x)++; usleep(100); } }
P_(W02, turns, 300, 20000, 10, 30, 2, 5, "1..8 threads take turns through one mutex and condition, pass results through end and join, have distinct identities, and a non-blocking lock of a held mutex fails; non-trivial = 3 or more threads") {
    zt_threads_use_pthreads(); int n = 1 + (int)g.u(7); Ping p; p.m = zt_threads_alloc_lock(0); p.c = zt_threads_cond_alloc(0); CHECK(p.m && p.c); p.turn = 0; p.all = (int)g.pick({1, 1, 2, 4, -1}); p.n = n; p.rounds = 1 + (int)g.u(30); p.inside = 0; p.bad = false; std::vector<int> log; p.log = &log; if (n >= 3) g.nontrivial(); g.note("%d threads %d rounds", n, p.rounds); std::vector<std::pair<Ping *, int>> a; for (int i = 0; i < n; i++) a.push_back({&p, i}); std::vector<void *> t; for (int i = 0; i < n; i++) { t.push_back(zt_threads_alloc_thread()); CHECK(zt_threads_start(t[i], NULL, pinger, &a[i]) == 0); } for (int i = 0; i < n; i++) { void *r = NULL; CHECK(zt_threads_join(t[i], &r) == 0 && r == &a[i], "join gave another result"); } CHECK(!p.bad, "two threads were inside the mutex"); CHECK((int)log.size() == n * p.rounds); for (size_t i = 0; i < log.size(); i++) CHECK(log[i] == (int)(i % n), "a turn was taken out of order");
    std::vector<std::vector<void *>> v; for (int i = 0; i < n; i++) v.push_back({(void *)(intptr_t)g.bits(48), NULL, (void *)(intptr_t)g.u(1), NULL}); for (int i = 0; i < n; i++) CHECK(zt_threads_start(t[i], NULL, wr_main, v[i].data()) == 0); std::set<void *> ids; for (int i = 0; i < n; i++) { void *r = NULL; CHECK(zt_threads_join(t[i], &r) == 0 && r == v[i][0], "end or return value lost"); CHECK(!v[i][3], "code ran after the end of a thread"); ids.insert(v[i][1]); } ids.erase((void *)zt_threads_id()); CHECK(ids.size() >= 1); CHECK(zt_threads_id() == (unsigned long)pthread_self());
    void *h[2] = {p.m, NULL}; CHECK(zt_threads_lock(0, p.m) == 0); CHECK(zt_threads_start(t[0], NULL, held, h) == 0); zt_threads_join(t[0], NULL); CHECK(h[1] == (void *)(intptr_t)EBUSY, "a held mutex was locked again"); CHECK(zt_threads_unlock(0, p.m) == 0); CHECK(zt_threads_start(t[0], NULL, held, h) == 0); zt_threads_join(t[0], NULL); CHECK(h[1] == NULL, "a free mutex cannot be locked");
    std::atomic<int> cnt{0}; CHECK(zt_threads_start(t[0], NULL, canceled, &cnt) == 0); while (cnt < 2) usleep(50); CHECK(zt_threads_kill(t[0]) == 0); void *r = NULL; CHECK(zt_threads_join(t[0], &r) == 0 && r == PTHREAD_CANCELED, "a killed thread was not cancelled"); for (auto *x : t) free(x); zt_threads_cond_free(p.c); zt_threads_free_lock(p.m, 0);
}
static void *latesig(void *a) { void **v = (void **)a; usleep((useconds_t)(intptr_t)v[2]); zt_threads_lock(0, v[0]); v[3] = (void *)1; zt_threads_cond_signal(v[1], 0); zt_threads_unlock(0, v[0]); return NULL; }
P_(W02, timeouts, 200, 5000, 5, 30, 0, 5, "a wait with a time-out ends with 1 no earlier than the time-out when nobody signals, and with 0 when signalled before; non-trivial = the wait is begun so late in a second that the time-out carries into the next") {
    zt_threads_use_pthreads(); void *m = zt_threads_alloc_lock(0), *c = zt_threads_cond_alloc(0); struct timeval tv, a, b; bool sig = g.chance(1, 4); tv.tv_sec = sig ? (time_t)(3 + g.u(3)) : 0; tv.tv_usec = sig ? (suseconds_t)g.u(999999) : (suseconds_t)g.u(g.chance(1, 10) ? 300000 : g.chance(1, 6) ? 0 : 8000); bool carry = tv.tv_usec > 1000 && g.coin(); if (carry) { gettimeofday(&a, NULL); long at = 1000000 - tv.tv_usec / 2, d = (at - a.tv_usec + 1000000) % 1000000; usleep((useconds_t)d); g.nontrivial(); } g.note("%ld.%06ld%s%s", (long)tv.tv_sec, (long)tv.tv_usec, sig ? " signalled" : "", carry ? " late in a second" : ""); void *v[4] = {m, c, (void *)(intptr_t)g.u(3000), NULL}; void *t = zt_threads_alloc_thread(); zt_threads_lock(0, m); gettimeofday(&a, NULL); if (sig) zt_threads_start(t, NULL, latesig, v); int r; do r = zt_threads_cond_wait(c, m, &tv); while (r == 0 && sig && !v[3]); gettimeofday(&b, NULL); zt_threads_unlock(0, m); double el = (double)(b.tv_sec - a.tv_sec) + (double)(b.tv_usec - a.tv_usec) / 1e6, want = (double)tv.tv_sec + (double)tv.tv_usec / 1e6; if (sig) { zt_threads_join(t, NULL); CHECK(r == 0, "a signalled wait returned %d after %f", r, el); } else if (r == 1) CHECK(el >= want - 1e-5, "timed out after %f instead of %f", el, want); else CHECK(r == 0, "wait failed: %d", r); free(t); zt_threads_cond_free(c); zt_threads_free_lock(m, 0);
}
struct DetX { std::atomic<int> go{0}, done{0}; std::atomic<int> det[16]; std::atomic<unsigned long> id[16]; }; static DetX *detx;
static void *detmain(void *a) { int i = (int)(intptr_t)a; while (!detx->go) usleep(20); pthread_attr_t at; int st = -1; if (!pthread_getattr_np(pthread_self(), &at)) { pthread_attr_getdetachstate(&at, &st); pthread_attr_destroy(&at); } detx->det[i] = st; detx->id[i] = zt_threads_id(); detx->done++; return (void *)(intptr_t)(i * 7 + 1); }
P_(W02, detached, 2000, 60000, 20, 30, 0, 5, "1..16 threads at once, some of them detached while they run: each runs to its end under the identity of its handle, is detached exactly if it was asked for, and the others are joined with their results in any order; non-trivial = both kinds") {
    zt_threads_use_pthreads(); int n = 1 + (int)g.u(15); DetX x; detx = &x; std::vector<void *> t; std::vector<bool> d; std::vector<pthread_t> real; int nd = 0; for (int i = 0; i < n; i++) { x.det[i] = -2; x.id[i] = 0; d.push_back(g.coin()); nd += d[i]; } g.note("%d threads, %d detached", n, nd); if (nd && nd < n) g.nontrivial();
    for (int i = 0; i < n; i++) { t.push_back(zt_threads_alloc_thread()); CHECK(t[i] && zt_threads_start(t[i], NULL, detmain, (void *)(intptr_t)i) == 0); real.push_back(*(pthread_t *)t[i]); } for (int i = 0; i < n; i++) if (d[i]) CHECK(zt_threads_detach(t[i]) == 0, "detach failed"); x.go = 1; std::vector<int> o; for (int i = 0; i < n; i++) o.push_back(i); for (int i = n - 1; i > 0; i--) std::swap(o[i], o[g.u((uint64_t)i)]);
    for (int i : o) if (!d[i]) { void *r = NULL; CHECK(zt_threads_join(t[i], &r) == 0 && r == (void *)(intptr_t)(i * 7 + 1), "join gave another result"); } while (x.done < n) usleep(50); for (int i = 0; i < n; i++) { CHECK(x.det[i] == (d[i] ? PTHREAD_CREATE_DETACHED : PTHREAD_CREATE_JOINABLE), "thread %d is %s", i, d[i] ? "not detached" : "detached"); CHECK(x.id[i] == (unsigned long)real[i], "a thread has another identity than its handle"); } for (auto *p : t) free(p);
}
P(W02, objects, 20000, 400000, 50, "histories over 1..6 mutexes, conditions and threads that are made, locked, tried, unlocked, signalled without anybody waiting, waited for in vain, run and given back, in any order, on one thread: results against a model and no memory left; non-trivial = a mutex was tried while locked and again after") {
    struct O { int k; size_t w, x; }; std::vector<O> ops; int n = 1 + (int)g.u(40); for (int i = 0; i < n; i++) { O o; o.k = (int)g.u(11); o.w = g.u(59); o.x = g.u(1000); if (o.k == 9 && o.x % 8) o.k = 4; ops.push_back(o); g.note("%d/%zu/%zu ", o.k, o.w, o.x % 10); }
    zt_threads_use_pthreads(); static bool warm; if (!warm) { warm = true; pthread_t p; if (!pthread_create(&p, NULL, [](void *) -> void * { pthread_exit(NULL); }, NULL)) pthread_join(p, NULL); } size_t h0 = __sanitizer_get_current_allocated_bytes(); bool nt = false; { struct M { void *p; bool held; int tried; }; std::vector<M> m; std::vector<void *> c, t;
    for (auto &o : ops) { int k = o.k;
        if (k == 0 && m.size() < 6) { void *p = zt_threads_alloc_lock((int)(o.x % 3)); CHECK(p != NULL); m.push_back({p, false, 0}); } else if (k == 1 && c.size() < 6) { void *p = zt_threads_cond_alloc((int)(o.x % 3)); CHECK(p != NULL); c.push_back(p); } else if (k == 2 && t.size() < 3) { void *p = zt_threads_alloc_thread(); CHECK(p != NULL); t.push_back(p); }
        else if (k == 3 && !m.empty()) { auto &x = m[o.w % m.size()]; if (!x.held) { CHECK(zt_threads_lock(0, x.p) == 0, "a free mutex cannot be locked"); x.held = true; } } else if ((k == 4 || k == 5) && !m.empty()) { auto &x = m[o.w % m.size()]; int r = zt_threads_lock(ZT_THREADS_LOCK_NONBLOCKING, x.p); CHECK(x.held ? r != 0 : r == 0, "trying a %s mutex gives %d", x.held ? "held" : "free", r); if (x.held) x.tried = 1; else if (x.tried) nt = true; x.held = true; } else if (k == 6 && !m.empty()) { auto &x = m[o.w % m.size()]; if (x.held) { CHECK(zt_threads_unlock(0, x.p) == 0, "a held mutex cannot be unlocked"); x.held = false; } }
        else if (k == 7 && !c.empty()) { CHECK(zt_threads_cond_signal(c[o.w % c.size()], (int)(o.x % 2)) == 0, "a condition nobody waits for cannot be signalled"); } else if (k == 8 && !c.empty() && !m.empty()) { auto &x = m[o.w % m.size()]; if (x.held) { struct timeval z = {0, (suseconds_t)(o.x & 1)}; int r = zt_threads_cond_wait(c[o.x % c.size()], x.p, &z); CHECK(r == 1 || r == 0, "waiting in vain gives %d", r); CHECK(zt_threads_lock(ZT_THREADS_LOCK_NONBLOCKING, x.p) != 0, "a mutex is free after the wait"); } }
        else if (k == 9 && !t.empty()) { void *v[4] = {(void *)(intptr_t)(o.x + 5), NULL, (void *)(intptr_t)(o.w % 2), NULL}, *r = NULL; size_t w = o.w % t.size(); CHECK(zt_threads_start(t[w], NULL, wr_main, v) == 0 && zt_threads_join(t[w], &r) == 0 && r == v[0], "the result of a thread is lost"); CHECK(v[3] == NULL && v[1] != NULL && v[1] != (void *)zt_threads_id()); }
        else if (k == 10 && !m.empty()) { size_t w = o.w % m.size(); if (m[w].held) zt_threads_unlock(0, m[w].p); zt_threads_free_lock(m[w].p, 0); m.erase(m.begin() + (long)w); } else if (k == 11 && !c.empty()) { size_t w = o.w % c.size(); zt_threads_cond_free(c[w]); c.erase(c.begin() + (long)w); } }
    for (auto &x : m) { if (x.held) CHECK(zt_threads_unlock(0, x.p) == 0); zt_threads_free_lock(x.p, 0); } for (auto *p : c) zt_threads_cond_free(p); for (auto *p : t) free(p); }
    if (nt) g.nontrivial();
    size_t h1 = __sanitizer_get_current_allocated_bytes(); CHECK(h1 == h0, "%zd bytes are not given back", (ssize_t)(h1 - h0));
}
static void *s_alloc(int t) { return (void *)(intptr_t)(1000 + t); } static int nfree; static void s_free(void *, int) { nfree++; } static int s_lock(int m, void *) { return 40 + m; } static int s_unlock(int m, void *) { return 60 + m; } static void *s_calloc(int t) { return (void *)(intptr_t)(2000 + t); } static void s_cfree(void *) { nfree++; } static int s_sig(void *, int b) { return 80 + b; } static int s_wait(void *, void *, struct timeval *) { return 99; } static int s_start(void *, void *, void *(*)(void *), void *) { return 7; } static void s_end(void *) { nfree++; } static int s_kill(void *) { return 8; } static unsigned long s_id() { return 9; } static int s_join(void *, void **) { return 10; } static int s_detach(void *) { return 11; }
P(W02, callbacks, 5000, 100000, 100, "histories of setting complete, incomplete and no callbacks: calls go to the set installed last, an incomplete set is refused and changes nothing, without callbacks calls do nothing; non-trivial = an incomplete set was refused after a complete one") {
    int have[3] = {0, 0, 0}; unsigned hopt = 0; zt_threads_set_lock_callbacks(NULL); zt_threads_set_cond_callbacks(NULL); zt_threads_set_cntrl_callbacks(NULL); int n = 1 + (int)g.u(12); for (int i = 0; i < n; i++) { int w = (int)g.u(2), k = (int)g.u(2); unsigned miss = k != 1 ? 0 : g.coin() ? 1u << g.u(w == 2 ? 1 : 3) : 1 + (unsigned)g.u(w == 2 ? 2 : 14), opt = g.coin() ? (unsigned)g.u(15) : 15; int r; bool z = k == 2; g.note("%d:%d ", w, k); if (miss && have[w]) g.nontrivial();
        if (w == 0) { struct zt_threads_lock_callbacks c = {miss & 1 ? NULL : s_alloc, miss & 2 ? NULL : s_free, miss & 4 ? NULL : s_lock, miss & 8 ? NULL : s_unlock}; r = zt_threads_set_lock_callbacks(z ? NULL : &c); } else if (w == 1) { struct zt_threads_cond_callbacks c = {miss & 1 ? NULL : s_calloc, miss & 2 ? NULL : s_cfree, miss & 4 ? NULL : s_sig, miss & 8 ? NULL : s_wait}; r = zt_threads_set_cond_callbacks(z ? NULL : &c); } else { struct zt_threads_cntrl_callbacks c = {miss & 1 ? NULL : s_start, miss & 2 ? NULL : s_end, opt & 1 ? s_kill : NULL, opt & 2 ? s_id : NULL, opt & 4 ? s_join : NULL, opt & 8 ? s_detach : NULL}; r = zt_threads_set_cntrl_callbacks(z ? NULL : &c); }
        CHECK(r == (miss ? -1 : 0), "setting gave %d", r); if (!miss) have[w] = !z; if (!miss && w == 2) hopt = z ? 0 : opt; nfree = 0; int t = (int)g.u(3);
        CHECK(zt_threads_alloc_lock(t) == (have[0] ? (void *)(intptr_t)(1000 + t) : NULL)); CHECK(zt_threads_lock(t, NULL) == (have[0] ? 40 + t : 0)); CHECK(zt_threads_unlock(t, NULL) == (have[0] ? 60 + t : 0)); zt_threads_free_lock(NULL, 0); CHECK(nfree == have[0]); CHECK(zt_threads_cond_alloc(t) == (have[1] ? (void *)(intptr_t)(2000 + t) : NULL)); CHECK(zt_threads_cond_signal(NULL, t) == (have[1] ? 80 + t : 0)); CHECK(zt_threads_cond_wait(NULL, NULL, NULL) == (have[1] ? 99 : 0)); zt_threads_cond_free(NULL); CHECK(nfree == have[0] + have[1]);
        CHECK(zt_threads_start(NULL, NULL, NULL, NULL) == (have[2] ? 7 : 0)); CHECK(zt_threads_kill(NULL) == (hopt & 1 ? 8 : 0)); CHECK(zt_threads_id() == (hopt & 2 ? 9ul : 0ul)); CHECK(zt_threads_join(NULL, NULL) == (hopt & 4 ? 10 : 0)); CHECK(zt_threads_detach(NULL) == (hopt & 8 ? 11 : -1)); zt_threads_end(NULL); CHECK(nfree == have[0] + have[1] + have[2]); }
}
