seed('y01-stailq-remove-last', 'Y01', [('compat/sys/queue.h', '''        if ((curelm->field.stqe_next =                                \\
                 curelm->field.stqe_next->field.stqe_next) == NULL) { \\
                 (head)->stqh_last = &(curelm)->field.stqe_next; }    \\
             }                                                        \\
''', '''        curelm->field.stqe_next =                                     \\
                 curelm->field.stqe_next->field.stqe_next;            \\
             }                                                        \\
''')],
 'the last of several elements of an STAILQ is removed by element and another is appended afterwards', 'the appended element is linked behind the removed one and lost',
 r'''
#include <stdlib.h>
#include <sys/queue.h>
struct n { int v; STAILQ_ENTRY(n) e; }; STAILQ_HEAD(h, n);
int main(void) { struct h h; struct n a[4], *p; int i, k = 0; STAILQ_INIT(&h); for (i = 0; i < 4; i++) a[i].v = i;
  for (i = 0; i < 3; i++) STAILQ_INSERT_TAIL(&h, &a[i], e);
  STAILQ_REMOVE(&h, &a[2], n, e); STAILQ_INSERT_TAIL(&h, &a[3], e);
  STAILQ_FOREACH(p, &h, e) k = k * 10 + p->v; return k != 13; }
''')
seed('y01-tailq-concat-back', 'Y01', [('compat/sys/queue.h', '''        (head2)->tqh_first->field.tqe_prev = (head1)->tqh_last; \\
''', '''        (head2)->tqh_first->field.tqe_prev = &(head1)->tqh_first; \\
''')],
 'two non-empty TAILQs are joined and the result is walked backwards, or the first element of the second is removed', 'the back link of the joint points at the head: elements of the first queue are lost',
 r'''
#include <stdlib.h>
#include <sys/queue.h>
struct n { int v; TAILQ_ENTRY(n) e; }; TAILQ_HEAD(h, n);
int main(void) { struct h h, g; struct n a[4], *p; int i, k = 0; TAILQ_INIT(&h); TAILQ_INIT(&g);
  for (i = 0; i < 4; i++) { a[i].v = i + 1; if (i < 2) TAILQ_INSERT_TAIL(&h, &a[i], e); else TAILQ_INSERT_TAIL(&g, &a[i], e); }
  TAILQ_CONCAT(&h, &g, e); TAILQ_REMOVE(&h, &a[2], e);
  TAILQ_FOREACH(p, &h, e) k = k * 10 + p->v; return k != 124; }
''')
seed('y02-rb-remove-successor', 'Y02', [('compat/sys/tree.h', '                                                                          if (RB_PARENT(elm, field) == old) {                                         \\\n                                                                              parent = elm; }                                                         \\\n', '                                                                          if (RB_PARENT(elm, field) == old && RB_RIGHT(elm, field)) {                                         \\\n                                                                              parent = elm; }                                                         \\\n')],
 'an element with two children is removed whose successor is its own right child, and the colours have to be put right afterwards', 'the fix-up works on the removed element instead of its successor: colours or links of the tree are wrong',
 r'''
#include <stdlib.h>
#include <sys/tree.h>
struct n { int v; RB_ENTRY(n) e; }; static int cmp(struct n *a, struct n *b) { return a->v - b->v; }
RB_HEAD(t, n); RB_PROTOTYPE(t, n, e, cmp) RB_GENERATE(t, n, e, cmp)
static int bad, count; static int walk(struct n *x, struct n *up) { int a, b; if (!x) return 0; if (++count > 1000) { bad = 1; return 0; } if (RB_PARENT(x, e) != up) bad = 1;
  if (RB_COLOR(x, e) == RB_RED && up && RB_COLOR(up, e) == RB_RED) bad = 1; a = walk(RB_LEFT(x, e), x); b = walk(RB_RIGHT(x, e), x); if (a != b) bad = 1; return a + (RB_COLOR(x, e) == RB_BLACK); }
int main(void) { int n, i, r; for (n = 1; n < 20; n++) for (r = 0; r < n; r++) { struct t h = RB_INITIALIZER(&h); struct n a[20];
    for (i = 0; i < n; i++) { a[i].v = i; RB_INSERT(t, &h, &a[i]); }
    for (i = 0; i < n; i++) { RB_REMOVE(t, &h, &a[(r + i) % n]); count = 0; walk(RB_ROOT(&h), NULL); if (bad || count != n - i - 1) return 1; } }
  return 0; }
''')
seed('y02-splay-zigzig', 'Y02', [('compat/sys/tree.h', '                        if ((cmp)(elm, __tmp) < 0) {                                         \\\n                            SPLAY_ROTATE_RIGHT(head, __tmp, field);                          \\\n                            if (SPLAY_LEFT((head)->sph_root, field) == NULL) {               \\\n                                break; }                                                     \\\n                        }                                                                    \\\n', '')],
 'a tree grown in ascending key order and then read in order, so that the depth halving of the splay step matters', 'every result is right, but reading n elements in order takes about n*n/2 comparisons',
 r'''
#include <stdlib.h>
#include <sys/tree.h>
struct n { int v; SPLAY_ENTRY(n) e; }; static long c; static int cmp(struct n *a, struct n *b) { c++; return a->v - b->v; }
SPLAY_HEAD(t, n); SPLAY_PROTOTYPE(t, n, e, cmp) SPLAY_GENERATE(t, n, e, cmp)
static struct n a[4096];
int main(void) { struct t h = SPLAY_INITIALIZER(&h); int i; for (i = 0; i < 4096; i++) { a[i].v = i; SPLAY_INSERT(t, &h, &a[i]); }
  c = 0; for (i = 0; i < 4096; i++) if (SPLAY_FIND(t, &h, &a[i]) != &a[i]) return 2;
  return c > 4096L * 100; }
''')
