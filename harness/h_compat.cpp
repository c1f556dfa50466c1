// the bundled BSD queue and tree macros (compat/sys), driven through the C operations of h_compat_ops.c
#include "pbt.h"
#include <map>
#include <algorithm>
using namespace pbt;
struct node; struct heads; struct trees;
extern "C" {
struct node *hc_node(int id, int key); int hc_id(struct node *); struct heads *hc_heads(int how);
int hc_op(int kind, int op, struct heads *h, struct heads *h2, struct node *n, struct node *at); int hc_walk(int kind, int how, struct heads *h, int *out, int max);
struct trees *hc_trees(int how); struct node *hc_tins(int, struct trees *, struct node *); struct node *hc_trem(int, struct trees *, struct node *); struct node *hc_tfind(int, int, struct trees *, int);
struct node *hc_tnext(int, int, struct trees *, struct node *); int hc_twalk(int, int, struct trees *, int *, int); const char *hc_rbcheck(struct trees *, int, int *); int hc_splinks(struct trees *, int *, int);
extern long hc_cmps;
}
enum { INS_HEAD, INS_TAIL, INS_AFTER, INS_BEFORE, REM, REM_HEAD, CONCAT, NOPS };
static const char *kinds[] = { "LIST", "SLIST", "STAILQ", "SIMPLEQ", "TAILQ", "CIRCLEQ" }, *opn[] = { "insert head", "insert tail", "insert after", "insert before", "remove", "remove head", "concat" };
static const bool has[6][NOPS] = { {1,0,1,1,1,0,0}, {1,0,1,0,1,1,0}, {1,1,1,0,1,1,1}, {1,1,1,0,1,1,0}, {1,1,1,1,1,0,1}, {1,1,1,1,1,0,0} };
static std::string ids(const std::vector<int> &v) { std::string s; for (int x : v) s += fmt("%d ", x); return s; }
static void same(int kind, struct heads *h, const std::vector<int> &m, int which) {
    for (int how = 0; how < 6; how++) {
        std::vector<int> out(m.size() + 2); int n = hc_walk(kind, how, h, out.data(), (int)m.size() + 1); if (n == -1) continue;
        CHECK(n != -3, "%s head %d: EMPTY is wrong (%zu elements)", kinds[kind], which, m.size());
        CHECK(n != -2, "%s head %d: walk %d goes past %zu elements", kinds[kind], which, how, m.size());
        out.resize(n); std::vector<int> w = m; if (how == 2 || how == 3 || how == 5) std::reverse(w.begin(), w.end());
        CHECK(out == w, "%s head %d walk %d: %swant %s", kinds[kind], which, how, ids(out).c_str(), ids(w).c_str());
    }
}
P(Y01, queues, 60000, 3000000, 50, "one of the six kinds, two heads set up by initialiser or by INIT, histories of up to 40 operations of insertion at either end and around a given element, removal from any place, removal of the first and concatenation, removed elements freed at once; after every step both queues are walked in every way the kind offers and compared with vectors; non-trivial = an element was removed or queues were joined with at least three elements present, and something was inserted afterwards") {
    int kind = (int)g.u(5); std::vector<int> m[2]; std::map<int, struct node *> nodes; int next = 0, mode = (int)g.u(2); bool cut = false;
    struct heads *h[2] = { hc_heads(g.coin()), hc_heads(g.coin()) }; g.label(kinds[kind]);
    same(kind, h[0], m[0], 0); same(kind, h[1], m[1], 1);
    for (size_t i = 0, n = 1 + g.len(40); i < n; i++) {
        int op = mode == 1 && g.chance(2, 3) ? (int)g.pick({INS_HEAD, INS_TAIL, INS_AFTER, INS_BEFORE}) : (int)g.u(NOPS - 1); int w = g.chance(1, 4); std::vector<int> &v = m[w];
        if (!has[kind][op]) op = INS_HEAD;
        if (op != INS_HEAD && op != INS_TAIL && op != CONCAT && v.empty()) op = INS_HEAD;
        size_t at = v.empty() ? 0 : g.chance(1, 4) ? 0 : g.chance(1, 4) ? v.size() - 1 : g.u(v.size() - 1);
        struct node *nn = nullptr, *an = v.empty() ? nullptr : nodes[v[at]];
        g.note("%s(%d) at %zu", opn[op], w, at); g.label(opn[op]);
        if (op <= INS_BEFORE) { nn = nodes[next] = hc_node(next, 0); if (cut) g.nontrivial(); } else if (m[0].size() + m[1].size() >= 3) cut = true;
        if (op == REM) nn = an;
        CHECK(hc_op(kind, op, h[w], h[!w], nn, an));
        switch (op) {
            case INS_HEAD: v.insert(v.begin(), next++); break;
            case INS_TAIL: v.push_back(next++); break;
            case INS_AFTER: v.insert(v.begin() + at + 1, next++); break;
            case INS_BEFORE: v.insert(v.begin() + at, next++); break;
            case REM: free(nodes[v[at]]); nodes.erase(v[at]); v.erase(v.begin() + at); break;
            case REM_HEAD: free(nodes[v[0]]); nodes.erase(v[0]); v.erase(v.begin()); break;
            case CONCAT: v.insert(v.end(), m[!w].begin(), m[!w].end()); m[!w].clear(); break;
        }
        same(kind, h[0], m[0], 0); same(kind, h[1], m[1], 1);
    }
    for (auto &p : nodes) free(p.second);
    free(h[0]); free(h[1]);
}

struct tmodel { std::map<int, int> m; std::map<int, struct node *> nodes; };
static void tsame(int kind, struct trees *t, tmodel &T) {
    std::vector<int> w; for (auto &p : T.m) w.push_back(p.second);
    std::vector<int> out(w.size() + 2); int n;
    if (kind == 0) { n = hc_splinks(t, out.data(), (int)w.size() + 1); CHECK(n >= 0, "splay tree holds more than %zu elements", w.size()); out.resize(n); CHECK(out == w, "splay tree: %swant %s", ids(out).c_str(), ids(w).c_str()); }
    else { int d = 0; const char *why = hc_rbcheck(t, (int)w.size(), &d); CHECK(!why, "%s", why); int lg = 0; while (((size_t)1 << lg) < w.size() + 1) lg++; CHECK(d <= 2 * lg, "%zu elements %d deep", w.size(), d); }
}
static void twalk(int kind, struct trees *t, tmodel &T) {
    for (int back = 0; back <= kind; back++) {
        std::vector<int> w; for (auto &p : T.m) w.push_back(p.second); if (back) std::reverse(w.begin(), w.end());
        std::vector<int> out(w.size() + 2); int n = hc_twalk(kind, back, t, out.data(), (int)w.size() + 1);
        CHECK(n != -3, "EMPTY is wrong with %zu elements", w.size()); CHECK(n != -2, "the walk goes past %zu elements", w.size()); out.resize(n);
        CHECK(out == w, "walk %d: %swant %s", back, ids(out).c_str(), ids(w).c_str());
    }
}
static void tree_history(Gen &g, size_t maxops, int span) {
    int kind = (int)g.u(1), next = 0; tmodel T; struct trees *t = hc_trees(g.coin()); g.label(kind ? "red-black" : "splay"); bool removed = false; long total = 0; size_t most = 0, walked = 0;
    int mode = (int)g.u(3), run = 0, grow = (int)g.u(2); size_t n = 1 + (g.chance(1, 3) ? maxops - 1 - g.u(maxops / 4) : g.len(maxops));
    twalk(kind, t, T);
    for (size_t i = 0; i < n; i++) {
        int key = mode == 0 ? (int)g.u(span) : mode == 1 ? run++ : mode == 2 ? -run++ : (int)g.u(7); if (mode && g.chance(1, 3) && !T.m.empty()) { auto it = T.m.lower_bound((int)g.range(T.m.begin()->first, T.m.rbegin()->first)); key = it->first; }
        hc_cmps = 0; most = std::max(most, T.m.size());
        auto it = T.m.find(key); bool there = it != T.m.end(); int op = (int)g.u(grow == 2 ? 6 : 8); if (op > 6) op = grow ? 0 : 1;
        switch (op) {
            case 0: case 2: { struct node *x = hc_node(next, key), *r = hc_tins(kind, t, x); g.note("insert %d", key); g.label("insert");
                if (there) { CHECK(r == T.nodes[it->second], "inserting the equal key %d gave %d, want the element present", key, hc_id(r)); free(x); }
                else { CHECK(r == nullptr, "inserting %d gave %d", key, hc_id(r)); T.m[key] = next; T.nodes[next] = x; next++; if (removed && T.m.size() >= 4) g.nontrivial(); }
                if (kind == 0 && !T.m.empty()) { struct node *rt = hc_tfind(0, 4, t, 0); CHECK(hc_id(rt) == T.m[key], "element %d not at the root after insertion", key); }
                break; }
            case 1: { g.note("remove %d", key); g.label("remove");
                if (there) { struct node *x = T.nodes[it->second], *r = hc_trem(kind, t, x); CHECK(r == x, "removing %d gave %d", key, hc_id(r)); if (T.m.size() >= 4) removed = true; T.nodes.erase(it->second); T.m.erase(it); free(x); }
                else if (kind == 0) { struct node *x = hc_node(-2, key); CHECK(hc_trem(0, t, x) == nullptr, "removed the absent key %d", key); free(x); }
                break; }
            case 3: { g.note("find %d", key); g.label("find"); struct node *r = hc_tfind(kind, 0, t, key); CHECK(hc_id(r) == (there ? it->second : -1), "find %d gave %d", key, hc_id(r));
                if (kind) { int lg = 0; while (((size_t)1 << lg) < T.m.size() + 1) lg++; CHECK(hc_cmps <= 2 * lg, "%ld comparisons among %zu", hc_cmps, T.m.size()); }
                else if (there) CHECK(hc_tfind(0, 4, t, 0) == r, "the element found is not at the root");
                break; }
            case 4: if (kind) { g.note("nfind %d", key); g.label("nfind"); auto lb = T.m.lower_bound(key); struct node *r = hc_tfind(1, 1, t, key); CHECK(hc_id(r) == (lb == T.m.end() ? -1 : lb->second), "nfind %d gave %d", key, hc_id(r)); break; }
                /* fall through */
            case 5: { bool mx = g.coin(); g.note(mx ? "max" : "min"); struct node *r = hc_tfind(kind, mx ? 3 : 2, t, 0); CHECK(hc_id(r) == (T.m.empty() ? -1 : mx ? T.m.rbegin()->second : T.m.begin()->second), "%s gave %d", mx ? "max" : "min", hc_id(r)); break; }
            case 6: if (there) { bool back = kind && g.coin(); g.note("%s of %d", back ? "prev" : "next", key); g.label("next/prev"); struct node *r = hc_tnext(kind, back, t, T.nodes[it->second]); int w = -1;
                if (back) { if (it != T.m.begin()) w = std::prev(it)->second; } else if (std::next(it) != T.m.end()) w = std::next(it)->second;
                CHECK(hc_id(r) == w, "%s of %d gave %d want %d", back ? "prev" : "next", key, hc_id(r), w); }
        }
        total += hc_cmps;
        if (n <= 60 || i % 16 == 0 || i + 1 == n) tsame(kind, t, T);
        if (g.chance(1, 24) || i + 1 == n) { hc_cmps = 0; twalk(kind, t, T); total += hc_cmps; walked += T.m.size(); tsame(kind, t, T); }
    }
    { int lg = 0; while (((size_t)1 << lg) < most + 1) lg++; CHECK(total <= (long)(n + walked + most) * 6 * (lg + 2), "%ld comparisons in %zu operations on up to %zu elements", total, n + walked, most); }
    for (auto &p : T.nodes) free(p.second);
    free(t);
}
P(Y02, trees, 40000, 2000000, 50, "splay or red-black tree set up by initialiser or by INIT, histories of up to 60 insertions, removals, finds, nearest finds, extremes, neighbours and walks over up to 40 keys, random, ascending, descending or dense; against an ordered map, the colour and height rules of the red-black tree checked by its links after every step; removed elements freed at once; non-trivial = an element was removed among four or more and another inserted afterwards") { tree_history(g, 60, 40); }
P(Y02, large, 2400, 60000, 5, "the same with up to 3000 operations over up to 2000 keys, links checked every sixteen steps; non-trivial as before") { tree_history(g, 3000, 2000); }
