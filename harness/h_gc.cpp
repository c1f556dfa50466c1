// incremental garbage collector
#include "pbt.h"
#include "zthdr.h"
extern "C" {
#define ZT_WITH_GC
#include <libzt/zt_gc.h>
}
struct Obj { zt_gc_collectable_t m; int id; Obj *kid[4]; };
struct World { zt_gc_t *gc; std::vector<Obj *> o; std::vector<char> released, prot, unreg; long marks; int inrelease; std::set<int> fresh; std::vector<int> last; std::map<Obj *, int> idof; };
static World *W;
static void reach(std::vector<char> &r) {
    r.assign(W->o.size(), 0); std::vector<int> st; auto push = [&](int i) { if (!r[i]) { r[i] = 1; st.push_back(i); } };
    for (size_t i = 0; i < W->o.size(); i++) if (W->prot[i] && !W->released[i]) push((int)i); for (int i : W->fresh) push(i);
    while (st.size()) { int i = st.back(); st.pop_back(); if (W->released[i]) FAIL("object %d can be reached but was released", i); for (auto k : W->o[i]->kid) if (k) push(W->idof[k]); }
}
static void markfn(zt_gc_t *gc, void *pd, void *v) { CHECK(pd == W, "private data"); Obj *a = (Obj *)v; CHECK(a->id >= 0 && !W->released[a->id]); W->marks++; for (auto k : a->kid) if (k) zt_gc_mark(gc, k); }
static bool destroying;
static void releasefn(zt_gc_t *, void *pd, void **v) {
    CHECK(pd == W, "private data"); Obj *a = *(Obj **)v; int id = a->id; CHECK(id >= 0 && id < (int)W->o.size() && W->o[id] == a, "released something else"); CHECK(!W->released[id], "released twice"); if (!destroying) CHECK(!W->prot[id], "object %d is protected and was released", id); CHECK(!W->unreg[id], "an unregistered object was released");
    W->released[id] = 1; W->last.push_back(id); a->id = -1; *v = NULL;
}
static void sweep() { // objects really go away only now, so that the reachability check may read them
    std::vector<char> r; if (!destroying) { for (int id : W->last) { (void)id; } reach(r); for (int id : W->last) CHECK(!r[id], "object %d can be reached but was released", id); }
    for (int id : W->last) { free(W->o[id]); W->o[id] = NULL; } W->last.clear();
}
struct Seen { std::map<int, int> n; std::vector<int> ty; };
static void eachfn(void *v, void *d, int ty) { Seen *s = (Seen *)d; s->n[((Obj *)v)->id]++; CHECK(ty >= 0 && ty <= 2); }
template <class F> static std::string printed(F f) { fflush(stdout); int old = dup(1), fd = open("out", O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(fd, 1); f(); fflush(stdout); dup2(old, 1); close(old); std::string s; char b[4096]; ssize_t n; lseek(fd, 0, SEEK_SET); while ((n = read(fd, b, sizeof b)) > 0) s.append(b, (size_t)n); close(fd); return s; }
static void heapshown(zt_gc_t *gc, World &w) {
    struct L { void *p; bool prot; }; std::string t = printed([&] { zt_gc_print_heap(gc); }); std::map<std::string, std::vector<L>> sec; const char *nm[3] = {"Black", "Grey", "White"};
    for (int k = 0; k < 3; k++) { size_t i = t.find(std::string("\n") + nm[k] + " "); CHECK(i != std::string::npos, "no %s list", nm[k]); size_t b = t.find('[', i), e = t.find(']', i); CHECK(b != std::string::npos && e != std::string::npos && b < e); std::string l = t.substr(b + 1, e - b - 1); size_t q = 0; while (q < l.size()) { size_t c = l.find_first_of(",\n", q); if (c == std::string::npos) c = l.size(); std::string x = l.substr(q, c - q); q = c + 1; x.erase(std::remove(x.begin(), x.end(), ' '), x.end()); if (x.empty()) continue; L v; v.prot = x[0] == 'p'; CHECK(sscanf(x.c_str() + (v.prot ? 2 : 0), "%p", &v.p) == 1, "printed: %s", show(x).c_str()); sec[nm[k]].push_back(v); } }
    struct E { std::map<std::pair<int, void *>, int> n; } e; zt_gc_for_each(gc, [](void *v, void *d, int ty) { ((E *)d)->n[{ty, v}]++; }, &e); size_t n = 0; for (int k = 0; k < 3; k++) for (auto &l : sec[nm[k]]) { n++; CHECK((e.n[{k, l.p}] == 1), "printed among the %s ones, but is not listed there", nm[k]); e.n[{k, l.p}]++; int id = -1; for (size_t i = 0; i < w.o.size(); i++) if (w.o[i] == l.p) id = (int)i; CHECK(id >= 0, "prints what is not an object"); CHECK(l.prot == !!w.prot[id], "object %d is printed as %s", id, l.prot ? "protected" : "unprotected"); } size_t want = 0; for (size_t i = 0; i < w.o.size(); i++) want += !w.released[i] && !w.unreg[i]; CHECK(n == want, "%zu objects printed, there are %zu", n, want);
}
P(G01, graph, 30000, 1000000, 100, "histories of 1..150 allocations, links, unlinks, protections, registrations and collections (incremental with 1..12 marks per scan, full, disabled and re-enabled) over an object graph with cycles; an object stored into another one is marked unless it is new; nothing reachable from a protected object is ever released, nothing twice, and unreachable objects are gone after three full collections; non-trivial = a collection stopped half-way and objects were released later") {
    World w; W = &w; w.marks = 0; destroying = false; int mps = 1 + (int)g.u(g.coin() ? 2 : 11), abs = 1 + (int)g.u(g.coin() ? 3 : 30), disabled = 0, due = 0; w.gc = zt_gc_init(&w, markfn, releasefn, mps, abs); g.note("marks %d allocs %d: ", mps, abs); int n = 1 + (int)g.u(g.coin() ? 60 : 199); bool partial = false, freed = false, shows = g.chance(1, 5);
    auto alive = [&](bool prot) { std::vector<char> r; reach(r); std::vector<int> v; for (size_t i = 0; i < r.size(); i++) if (r[i] && (!prot || w.prot[i])) v.push_back((int)i); return v; };
    auto inc = [&](long m0) { if (w.marks > m0) due = 0; CHECK(w.marks - m0 <= mps, "%ld objects scanned in one step of %d", w.marks - m0, mps); if (w.marks - m0 == mps) partial = true; if (w.last.size() && partial) freed = true; };
    auto make = [&]() { Obj *a = (Obj *)calloc(1, sizeof(Obj)); a->id = (int)w.o.size(); w.idof[a] = (int)w.o.size(); w.o.push_back(a); w.released.push_back(0); w.prot.push_back(0); w.unreg.push_back(0); zt_gc_prepare(w.gc, a); return a; };
    auto check = [&]() { Seen s; zt_gc_for_each(w.gc, eachfn, &s); for (size_t i = 0; i < w.o.size(); i++) { bool in = !w.released[i] && !w.unreg[i]; CHECK(s.n[(int)i] == (in ? 1 : 0), "object %zu listed %d times", i, s.n[(int)i]); } };
    for (int i = 0; i < n; i++) { int op = (int)g.u(19); std::vector<int> al = alive(false);
        if (op < 7 || w.o.empty()) { // allocate and root it somewhere, or drop it at once
            Obj *a = make(); int id = a->id; for (int k = 0; k < 2; k++) if (al.size() && g.chance(1, 4)) a->kid[k] = w.o[al[g.u(al.size() - 1)]]; if (g.chance(1, 8)) a->kid[3] = a; bool rootonly = g.chance(1, 8); long m0 = w.marks; w.fresh.insert(id); if (rootonly) { g.note("root %d ", id); zt_gc_protect(w.gc, a); w.prot[id] = 1; for (auto k : a->kid) if (k && k != a) zt_gc_mark(w.gc, k); } else { zt_gc_register(w.gc, a); inc(m0); if (w.marks > m0) due = 0; else { due++; CHECK(disabled || due < abs, "%d objects registered without a step of the collector, %d are its limit", due, abs); } sweep();
                if (al.size() && g.chance(3, 4)) { int p = al[g.u(al.size() - 1)], slot = (int)g.u(2); g.note("new %d.%d=%d ", p, slot, id); w.o[p]->kid[slot] = a; if (g.coin()) zt_gc_mark(w.gc, a); } else if (g.chance(1, 2)) { g.note("new protected %d ", id); zt_gc_protect(w.gc, a); w.prot[id] = 1; } else g.note("new dropped %d ", id); } w.fresh.clear(); }
        else if (op < 10) { if (al.empty()) continue; int p = al[g.u(al.size() - 1)], c = al[g.u(al.size() - 1)], s = (int)g.u(3); g.note("%d.%d=%d ", p, s, c); w.o[p]->kid[s] = w.o[c]; zt_gc_mark(w.gc, w.o[c]); }
        else if (op < 12) { if (al.empty()) continue; int p = al[g.u(al.size() - 1)], s = (int)g.u(3); w.o[p]->kid[s] = NULL; g.note("%d.%d=0 ", p, s); }
        else if (op == 12) { if (al.empty()) continue; int p = al[g.u(al.size() - 1)]; g.note("protect %d ", p); zt_gc_protect(w.gc, w.o[p]); w.prot[p] = 1; }
        else if (op == 13) { auto pr = alive(true); if (pr.empty()) continue; int p = pr[g.u(pr.size() - 1)]; g.note("unprotect %d ", p); zt_gc_unprotect(w.gc, w.o[p]); w.prot[p] = 0; }
        else if (op < 17) { long m0 = w.marks; g.note("step "); int d0 = due; zt_gc_collect(w.gc, 0); inc(m0); if (!disabled && d0 >= abs) { CHECK(w.marks > m0, "a step was due after %d registrations and did nothing", d0); } if (disabled) CHECK(w.marks == m0 && w.last.empty(), "collected while disabled"); sweep(); }
        else if (op == 17 && g.coin()) { long m0 = w.marks; g.note("full "); zt_gc_collect(w.gc, 1); if (!disabled) due = 0; if (disabled) CHECK(w.marks == m0 && w.last.empty(), "collected while disabled"); sweep(); }
        else if (op == 18) { if (disabled && g.coin()) { g.note("enable "); disabled--; long m0 = w.marks; zt_gc_enable(w.gc); int d0 = due; if (disabled) CHECK(w.marks == m0); inc(m0); if (!disabled && d0 >= abs) { CHECK(w.marks > m0, "enabled with %d registrations pending, and no step of the collector", d0); } sweep(); } else if (disabled < 3) { g.note("disable "); disabled++; zt_gc_disable(w.gc); } }
        else { // hand an object that nothing refers to back to the program
            std::vector<int> v; std::vector<char> r; reach(r); std::set<Obj *> ref; for (auto o : w.o) if (o) for (auto k : o->kid) if (k) ref.insert(k); for (int k : al) if (!ref.count(w.o[k]) ) v.push_back(k); if (v.empty()) continue; int p = v[g.u(v.size() - 1)]; g.note("unregister %d ", p); long m0 = w.marks; if (w.prot[p]) zt_gc_unprotect(w.gc, w.o[p]); w.prot[p] = 0; w.unreg[p] = 1; zt_gc_unregister(w.gc, w.o[p]); due = 0; inc(m0); sweep(); free(w.o[p]); w.o[p] = NULL; }
        for (size_t k = 0; k < w.o.size(); k++) if (!w.o[k]) w.released[k] = 1, w.prot[k] = 0, w.unreg[k] = 1; check(); if (shows && g.chance(1, 30)) heapshown(w.gc, w);
    }
    if (shows) heapshown(w.gc, w);
    if (partial && freed) g.nontrivial(); while (disabled) { disabled--; zt_gc_enable(w.gc); sweep(); }
    if (g.coin()) { for (int k = 0; k < 3; k++) { zt_gc_collect(w.gc, 1); sweep(); } std::vector<char> r; for (size_t k = 0; k < w.o.size(); k++) if (!w.o[k]) w.released[k] = 1, w.unreg[k] = 1; reach(r); for (size_t k = 0; k < w.o.size(); k++) if (w.o[k]) CHECK(r[k], "object %zu cannot be reached and survived three full collections", k); check(); }
    destroying = true; zt_gc_destroy(w.gc); for (size_t k = 0; k < w.o.size(); k++) CHECK(w.released[k], "object %zu was not released with its collector", k); sweep(); free(w.gc);
}
P(G01, automatic, 10000, 500000, 100, "graphs of 1..150 objects, some protected, from which links and protections are taken away, after which nothing but registrations of further objects happens, with more marks per step than objects between steps: all that cannot be reached is released within four cycles' worth of registrations and what can be is kept; disabled meanwhile, nothing is; non-trivial = 5 or more objects became unreachable") {
    World w; W = &w; w.marks = 0; destroying = false; int abs = 1 + (int)g.u(g.coin() ? 2 : 20), mps = abs + 1 + (int)g.u(g.coin() ? 1 : 20); w.gc = zt_gc_init(&w, markfn, releasefn, mps, abs); int m = 1 + (int)g.u(g.coin() ? 12 : 149); bool dis = g.chance(1, 3); g.note("marks %d allocs %d, %d objects%s: ", mps, abs, m, dis ? ", built while disabled" : ""); if (dis) zt_gc_disable(w.gc);
    auto make = [&]() { Obj *a = (Obj *)calloc(1, sizeof(Obj)); a->id = (int)w.o.size(); w.idof[a] = a->id; w.o.push_back(a); w.released.push_back(0); w.prot.push_back(0); w.unreg.push_back(0); zt_gc_prepare(w.gc, a); return a; };
    auto gone = [&]() { for (size_t k = 0; k < w.o.size(); k++) if (!w.o[k]) w.released[k] = 1, w.prot[k] = 0, w.unreg[k] = 1; };
    for (int i = 0; i < m; i++) { std::vector<char> r; reach(r); std::vector<int> al; for (size_t k = 0; k < r.size(); k++) if (r[k]) al.push_back((int)k); Obj *a = make(); w.fresh.insert(a->id); zt_gc_register(w.gc, a); sweep(); gone(); bool p = al.empty() || g.chance(1, 6); if (p) { zt_gc_protect(w.gc, a); w.prot[a->id] = 1; } else { w.o[g.pick(al)]->kid[g.u(3)] = a; zt_gc_mark(w.gc, a); } if (al.size() && g.chance(1, 3)) { Obj *c = w.o[g.pick(al)]; a->kid[g.u(3)] = c; zt_gc_mark(w.gc, c); } w.fresh.clear(); if (dis) CHECK(!w.marks && w.last.empty(), "collected while disabled"); }
    if (dis) { zt_gc_enable(w.gc); sweep(); gone(); } std::vector<char> r; reach(r); size_t before = (size_t)std::count(r.begin(), r.end(), 1); for (size_t i = 0; i < w.o.size(); i++) if (w.o[i] && r[i]) { if (w.prot[i] && g.chance(1, 3)) { zt_gc_unprotect(w.gc, w.o[i]); w.prot[i] = 0; } for (auto &k : w.o[i]->kid) if (k && g.chance(1, 6)) k = NULL; }
    reach(r); size_t after = (size_t)std::count(r.begin(), r.end(), 1), total = w.o.size(); g.note("%zu of %zu reachable objects stay so ", after, before); if (before - after >= 5) g.nontrivial(); size_t old = total; long most = 4L * ((long)total / (mps - abs) + 2) * abs + abs; long n = 0; auto left = [&]() { size_t l = 0; for (size_t i = 0; i < old; i++) if (w.o[i] && !r[i]) l++; return l; };
    while (left()) { CHECK(n < most, "%zu unreachable objects are left after %ld registrations (%d marks in a step every %d)", left(), n, mps, abs); Obj *a = make(); w.fresh.insert(a->id); zt_gc_register(w.gc, a); sweep(); w.fresh.clear(); gone(); n++; }
    for (size_t i = 0; i < old; i++) if (r[i]) CHECK(w.o[i], "object %zu can be reached and is gone", i);
    destroying = true; zt_gc_destroy(w.gc); sweep(); for (size_t k = 0; k < w.o.size(); k++) CHECK(!w.o[k], "object %zu was not released with its collector", k); free(w.gc);
}

// collectors inside collectors: releasing an object destroys the collector it owns
struct Own { zt_gc_collectable_t m; int id; int sub; }; struct Coll { zt_gc_t *gc; std::vector<int> ids; };
static std::vector<Coll> *colls; static std::vector<int> *gone2; static std::vector<Own *> *owns;
static void nomark(zt_gc_t *, void *, void *) {}
static void ownrelease(zt_gc_t *gc, void *pd, void **v) {
    Own *before = *(Own **)v; CHECK((*colls)[(size_t)(intptr_t)pd].gc == gc, "private data"); int id = before->id; CHECK(id >= 0 && id < (int)owns->size() && (*owns)[id] == before, "released something else"); CHECK(!(*gone2)[id], "object %d was released twice", id); (*gone2)[id] = 1;
    if (before->sub >= 0) { zt_gc_t *s = (*colls)[before->sub].gc; zt_gc_destroy(s); free(s); (*colls)[before->sub].gc = NULL; for (int k : (*colls)[before->sub].ids) CHECK((*gone2)[k] == 1, "object %d was not released with its collector", k); }
    Own *a = *(Own **)v; CHECK(a == before, "the object handed to be released changed while it was"); free(a); *v = NULL;
}
P(G01, nested, 10000, 300000, 100, "trees of 1..12 collectors in which objects own other collectors and destroy them when they are released, by a collection or by the end of their collector; every object is released once and by its own collector; non-trivial = 3 or more collectors") {
    int n = 1 + (int)g.u(11); std::vector<Coll> c(n); std::vector<int> gn; std::vector<Own *> ow; colls = &c; gone2 = &gn; owns = &ow; if (n >= 3) g.nontrivial();
    for (int i = 0; i < n; i++) c[i].gc = zt_gc_init((void *)(intptr_t)i, nomark, ownrelease, 1 + (int)g.u(5), 1000000); auto add = [&](int k, int sub) { Own *a = (Own *)calloc(1, sizeof *a); a->id = (int)ow.size(); a->sub = sub; ow.push_back(a); gn.push_back(0); c[k].ids.push_back(a->id); zt_gc_prepare(c[k].gc, a); zt_gc_register(c[k].gc, a); if (g.chance(1, 4)) zt_gc_protect(c[k].gc, a); };
    for (int i = n - 1; i >= 0; i--) { for (size_t k = g.u(4); k-- > 0;) add(i, -1); if (i) { int par = (int)g.u(i - 1); add(par, i); g.note("%d in %d ", i, par); } } for (int i = 0; i < n; i++) for (size_t k = g.u(2); k-- > 0;) add(i, -1) ; if (g.coin()) for (int k = 0; k < 3 && c[0].gc; k++) zt_gc_collect(c[0].gc, 1); zt_gc_t *top = c[0].gc; zt_gc_destroy(top); free(top); for (size_t i = 0; i < gn.size(); i++) CHECK(gn[i] == 1, "object %zu of %zu was not released", i, gn.size());
}
