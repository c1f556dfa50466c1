/* the bundled BSD queue and tree macros, which are C only; operated by number from h_compat.cpp */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sys/queue.h>   /* the bundled ones: the compat directory comes first */
#include <sys/tree.h>

struct node { int key; int id; LIST_ENTRY(node) l; SLIST_ENTRY(node) s; STAILQ_ENTRY(node) st; SIMPLEQ_ENTRY(node) si; TAILQ_ENTRY(node) t; CIRCLEQ_ENTRY(node) c; SPLAY_ENTRY(node) sp; RB_ENTRY(node) rb; };
LIST_HEAD(lh, node); SLIST_HEAD(sh, node); STAILQ_HEAD(sth, node); SIMPLEQ_HEAD(sih, node); TAILQ_HEAD(th, node); CIRCLEQ_HEAD(ch, node);
struct heads { struct lh l; struct sh s; struct sth st; struct sih si; struct th t; struct ch c; };
static struct lh sl0 = LIST_HEAD_INITIALIZER(sl0); static struct sh ss0 = SLIST_HEAD_INITIALIZER(ss0);

struct node *hc_node(int id, int key) { struct node *n = malloc(sizeof *n); memset(n, 0xA5, sizeof *n); n->id = id; n->key = key; return n; }
int hc_id(struct node *n) { return n ? n->id : -1; }
struct heads *hc_heads(int how) {
    struct heads *h = malloc(sizeof *h); memset(h, 0xA5, sizeof *h);
    if (how) { struct sth st = STAILQ_HEAD_INITIALIZER(h->st); struct sih si = SIMPLEQ_HEAD_INITIALIZER(h->si); struct th t = TAILQ_HEAD_INITIALIZER(h->t); struct ch c = CIRCLEQ_HEAD_INITIALIZER(h->c); h->l = sl0; h->s = ss0; h->st = st; h->si = si; h->t = t; h->c = c; }
    else { LIST_INIT(&h->l); SLIST_INIT(&h->s); STAILQ_INIT(&h->st); SIMPLEQ_INIT(&h->si); TAILQ_INIT(&h->t); CIRCLEQ_INIT(&h->c); }
    return h;
}
enum { INS_HEAD, INS_TAIL, INS_AFTER, INS_BEFORE, REM, REM_HEAD, CONCAT };
/* 0: the kind has no such operation */
int hc_op(int kind, int op, struct heads *h, struct heads *h2, struct node *n, struct node *at) {
    switch (kind * 10 + op) {
        case 0 + INS_HEAD: LIST_INSERT_HEAD(&h->l, n, l); break;
        case 0 + INS_AFTER: LIST_INSERT_AFTER(at, n, l); break;
        case 0 + INS_BEFORE: LIST_INSERT_BEFORE(at, n, l); break;
        case 0 + REM: LIST_REMOVE(n, l); break;
        case 10 + INS_HEAD: SLIST_INSERT_HEAD(&h->s, n, s); break;
        case 10 + INS_AFTER: SLIST_INSERT_AFTER(at, n, s); break;
        case 10 + REM: SLIST_REMOVE(&h->s, n, node, s); break;
        case 10 + REM_HEAD: SLIST_REMOVE_HEAD(&h->s, s); break;
        case 20 + INS_HEAD: STAILQ_INSERT_HEAD(&h->st, n, st); break;
        case 20 + INS_TAIL: STAILQ_INSERT_TAIL(&h->st, n, st); break;
        case 20 + INS_AFTER: STAILQ_INSERT_AFTER(&h->st, at, n, st); break;
        case 20 + REM: STAILQ_REMOVE(&h->st, n, node, st); break;
        case 20 + REM_HEAD: STAILQ_REMOVE_HEAD(&h->st, st); break;
        case 20 + CONCAT: STAILQ_CONCAT(&h->st, &h2->st); break;
        case 30 + INS_HEAD: SIMPLEQ_INSERT_HEAD(&h->si, n, si); break;
        case 30 + INS_TAIL: SIMPLEQ_INSERT_TAIL(&h->si, n, si); break;
        case 30 + INS_AFTER: SIMPLEQ_INSERT_AFTER(&h->si, at, n, si); break;
        case 30 + REM: SIMPLEQ_REMOVE(&h->si, n, node, si); break;
        case 30 + REM_HEAD: SIMPLEQ_REMOVE_HEAD(&h->si, si); break;
        case 40 + INS_HEAD: TAILQ_INSERT_HEAD(&h->t, n, t); break;
        case 40 + INS_TAIL: TAILQ_INSERT_TAIL(&h->t, n, t); break;
        case 40 + INS_AFTER: TAILQ_INSERT_AFTER(&h->t, at, n, t); break;
        case 40 + INS_BEFORE: TAILQ_INSERT_BEFORE(at, n, t); break;
        case 40 + REM: TAILQ_REMOVE(&h->t, n, t); break;
        case 40 + CONCAT: TAILQ_CONCAT(&h->t, &h2->t, t); break;
        case 50 + INS_HEAD: CIRCLEQ_INSERT_HEAD(&h->c, n, c); break;
        case 50 + INS_TAIL: CIRCLEQ_INSERT_TAIL(&h->c, n, c); break;
        case 50 + INS_AFTER: CIRCLEQ_INSERT_AFTER(&h->c, at, n, c); break;
        case 50 + INS_BEFORE: CIRCLEQ_INSERT_BEFORE(&h->c, at, n, c); break;
        case 50 + REM: CIRCLEQ_REMOVE(&h->c, n, c); break;
        default: return 0;
    }
    return 1;
}
#define TAKE(N) do { if (k >= max) return -2; out[k++] = (N)->id; } while (0)
/* how: 0 FOREACH, 1 FIRST/NEXT, 2 FOREACH_REVERSE, 3 LAST/PREV, 4 once around with LOOP_NEXT, 5 with LOOP_PREV; -1: no such walk, -2: does not end, -3: EMPTY is wrong */
int hc_walk(int kind, int how, struct heads *h, int *out, int max) {
    struct node *n; int k = 0, i;
#define FWD(H, F, E, NX, FE, f) if (how == 0) { FE(n, &h->H, f) TAKE(n); } else if (how == 1) { for (n = F(&h->H); n; n = NX(n, f)) TAKE(n); } if (how < 2 && !!E(&h->H) != (k == 0)) return -3;
    switch (kind) {
        case 0: if (how > 1) return -1; FWD(l, LIST_FIRST, LIST_EMPTY, LIST_NEXT, LIST_FOREACH, l) return k;
        case 1: if (how > 1) return -1; FWD(s, SLIST_FIRST, SLIST_EMPTY, SLIST_NEXT, SLIST_FOREACH, s) return k;
        case 2: if (how > 1) return -1; FWD(st, STAILQ_FIRST, STAILQ_EMPTY, STAILQ_NEXT, STAILQ_FOREACH, st) return k;
        case 3: if (how > 1) return -1; FWD(si, SIMPLEQ_FIRST, SIMPLEQ_EMPTY, SIMPLEQ_NEXT, SIMPLEQ_FOREACH, si) return k;
        case 4: FWD(t, TAILQ_FIRST, TAILQ_EMPTY, TAILQ_NEXT, TAILQ_FOREACH, t)
            if (how == 2) { TAILQ_FOREACH_REVERSE(n, &h->t, th, t) TAKE(n); } else if (how == 3) { for (n = TAILQ_LAST(&h->t, th); n; n = TAILQ_PREV(n, th, t)) TAKE(n); } else if (how > 3) return -1;
            return k;
        case 5:
            if (how == 0) { CIRCLEQ_FOREACH(n, &h->c, c) TAKE(n); } else if (how == 1) { for (n = CIRCLEQ_FIRST(&h->c); n != (void *)&h->c; n = CIRCLEQ_NEXT(n, c)) TAKE(n); }
            else if (how == 2) { CIRCLEQ_FOREACH_REVERSE(n, &h->c, c) TAKE(n); } else if (how == 3) { for (n = CIRCLEQ_LAST(&h->c); n != (void *)&h->c; n = CIRCLEQ_PREV(n, c)) TAKE(n); }
            else if (!CIRCLEQ_EMPTY(&h->c)) { struct node *e = how == 4 ? CIRCLEQ_FIRST(&h->c) : CIRCLEQ_LAST(&h->c); n = e; do { TAKE(n); n = how == 4 ? CIRCLEQ_LOOP_NEXT(&h->c, n, c) : CIRCLEQ_LOOP_PREV(&h->c, n, c); } while (n != e); }
            if (!!CIRCLEQ_EMPTY(&h->c) != (k == 0)) return -3;
            return k;
    }
    return -1;
}

/* ---- trees ---- */
long hc_cmps;
static int cmp(struct node *a, struct node *b) { hc_cmps++; return a->key < b->key ? -7 : a->key > b->key ? 9 : 0; }
SPLAY_HEAD(spt, node); RB_HEAD(rbt, node); RB_HEAD(rbs, node);
SPLAY_PROTOTYPE(spt, node, sp, cmp)
SPLAY_GENERATE(spt, node, sp, cmp)
RB_PROTOTYPE(rbt, node, rb, cmp)
RB_GENERATE(rbt, node, rb, cmp)
struct trees { struct spt sp; struct rbt rb; };
struct trees *hc_trees(int how) { struct trees *t = malloc(sizeof *t); memset(t, 0xA5, sizeof *t); if (how) { struct spt a = SPLAY_INITIALIZER(&a); struct rbt b = RB_INITIALIZER(&b); t->sp = a; t->rb = b; } else { SPLAY_INIT(&t->sp); RB_INIT(&t->rb); } return t; }
struct node *hc_tins(int kind, struct trees *t, struct node *n) { return kind ? RB_INSERT(rbt, &t->rb, n) : SPLAY_INSERT(spt, &t->sp, n); }
struct node *hc_trem(int kind, struct trees *t, struct node *n) { return kind ? RB_REMOVE(rbt, &t->rb, n) : (struct node *)SPLAY_REMOVE(spt, &t->sp, n); }
/* 0 FIND, 1 NFIND, 2 MIN, 3 MAX, 4 ROOT */
struct node *hc_tfind(int kind, int how, struct trees *t, int key) {
    struct node n; n.key = key;
    switch (how) {
        case 0: return kind ? RB_FIND(rbt, &t->rb, &n) : SPLAY_FIND(spt, &t->sp, &n);
        case 1: return RB_NFIND(rbt, &t->rb, &n);
        case 2: return kind ? RB_MIN(rbt, &t->rb) : SPLAY_MIN(spt, &t->sp);
        case 3: return kind ? RB_MAX(rbt, &t->rb) : SPLAY_MAX(spt, &t->sp);
        default: return kind ? RB_ROOT(&t->rb) : SPLAY_ROOT(&t->sp);
    }
}
struct node *hc_tnext(int kind, int prev, struct trees *t, struct node *n) { return kind ? (prev ? RB_PREV(rbt, &t->rb, n) : RB_NEXT(rbt, &t->rb, n)) : SPLAY_NEXT(spt, &t->sp, n); }
int hc_twalk(int kind, int back, struct trees *t, int *out, int max) {
    struct node *n; int k = 0;
    if (!kind) { if (back) return -1; SPLAY_FOREACH(n, spt, &t->sp) TAKE(n); if (!!SPLAY_EMPTY(&t->sp) != (k == 0)) return -3; }
    else { if (back) { RB_FOREACH_REVERSE(n, rbt, &t->rb) TAKE(n); } else { RB_FOREACH(n, rbt, &t->rb) TAKE(n); } if (!!RB_EMPTY(&t->rb) != (k == 0)) return -3; }
    return k;
}
static int budget;
/* height in black nodes, or -1 with *why set; in-order ids in out */
static int rbcheck(struct node *n, struct node *parent, const char **why, int depth, int *maxdepth) {
    int a, b;
    if (!n) return 1;
    if (--budget < 0) { *why = "more nodes than were inserted"; return -1; }
    if (depth > *maxdepth) *maxdepth = depth;
    if (RB_PARENT(n, rb) != parent) { *why = "a parent link is wrong"; return -1; }
    if (RB_COLOR(n, rb) != RB_RED && RB_COLOR(n, rb) != RB_BLACK) { *why = "a node has no colour"; return -1; }
    if (RB_COLOR(n, rb) == RB_RED && parent && RB_COLOR(parent, rb) == RB_RED) { *why = "a red node has a red parent"; return -1; }
    if ((a = rbcheck(RB_LEFT(n, rb), n, why, depth + 1, maxdepth)) < 0 || (b = rbcheck(RB_RIGHT(n, rb), n, why, depth + 1, maxdepth)) < 0) return -1;
    if (a != b) { *why = "black heights differ"; return -1; }
    return a + (RB_COLOR(n, rb) == RB_BLACK);
}
const char *hc_rbcheck(struct trees *t, int n, int *maxdepth) { const char *why = NULL; budget = n; *maxdepth = 0; if (RB_ROOT(&t->rb) && RB_COLOR(RB_ROOT(&t->rb), rb) != RB_BLACK) return "the root is red"; rbcheck(RB_ROOT(&t->rb), NULL, &why, 1, maxdepth); if (!why && budget != 0) why = "fewer nodes than were inserted"; return why; }
/* iterative in-order walk by the links alone, which does not splay */
int hc_splinks(struct trees *t, int *out, int max) {
    struct node **st = malloc(sizeof *st * (max + 2)), *n = SPLAY_ROOT(&t->sp); int sp = 0, k = 0;
    while (n || sp) { while (n) { if (sp > max) { free(st); return -2; } st[sp++] = n; n = SPLAY_LEFT(n, sp); } n = st[--sp]; if (k >= max) { free(st); return -2; } out[k++] = n->id; n = SPLAY_RIGHT(n, sp); }
    free(st); return k;
}
