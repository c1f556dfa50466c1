seed('c01-expand-size', 'C01', [('src/libzt/zt_buf.c', '    b->max = b->len + rlen;', '    b->max += rlen;')],
 'an append that has to grow a buffer which still has some unused room', 'the buffer believes it has more room than it allocated and is written past its end',
 r'''
#include <zt.h>
#include <malloc.h>
int main(void) { static char d[4096]; zt_buf_t *b = zt_buf_new(); if (!b) return 1;
  if (zt_buf_add(b, d, 1000)) return 1;            /* 24 bytes unused */
  if (zt_buf_add(b, d, 3000)) return 1;
  /* all of the room the buffer claims to have is its own */
  return zt_buf_length(b) != 4000 || malloc_usable_size(zt_buf_get(b)) < zt_buf_length(b) + zt_buf_unused_sz(b); }
''')
seed('c02-full-collision', 'C02', [('src/libzt/zt_table.c', '''        if (node->hash_key == skey) {
            if (h->cmp((void *)node->key, node->key_len, key, key_len, h->cdata)) {
                return node->datum;
            }
        }
        node = node->next;
    }

    errno = ENOENT;''', '''        if (node->hash_key == skey) {
            if (h->cmp((void *)node->key, node->key_len, key, key_len, h->cdata)) {
                return node->datum;
            }
            break;
        }
        node = node->next;
    }

    errno = ENOENT;''')], 'two different keys with the same full hash', 'the older of two keys with equal hashes is not found any more',
 r'''
#include <zt.h>
static unsigned long h(const void *k, size_t n, void *c) { return ((const char *)k)[0]; }
int main(void) { zt_table *t = zt_table_init("t", h, zt_table_compare_string, 16, 0, NULL);
  zt_table_set(t, "a1", 2, "one", 3); zt_table_set(t, "b", 1, "x", 1); zt_table_set(t, "a2", 2, "two", 3);
  void *p = zt_table_get(t, "a1", 2), *q = zt_table_get(t, "a2", 2);
  return !p || !q || *(char *)p != 'o' || *(char *)q != 't'; }
''')
seed('c02-del-single', 'C02', [('src/libzt/zt_table.c', '''                if (prev == node) {
                    h->buckets[nkey] = node->next;''', '''                if (h->buckets[nkey]->hash_key == skey) {
                    h->buckets[nkey] = node->next;''')],
 'deleting a key that is not first in its bucket while the first has the same full hash', 'entries in front of the deleted one vanish with it',
 r'''
#include <zt.h>
static unsigned long h(const void *k, size_t n, void *c) { return 7; }
int main(void) { zt_table *t = zt_table_init("t", h, zt_table_compare_string, 16, 0, NULL);
  zt_table_set(t, "a", 1, "a", 1); zt_table_set(t, "b", 1, "b", 1); zt_table_set(t, "c", 1, "c", 1);
  if (zt_table_del(t, "a", 1) == NULL) return 1;
  return !zt_table_get(t, "b", 1) || !zt_table_get(t, "c", 1) || zt_table_get(t, "a", 1); }
''')
seed('c03-subset-length', 'C03', [('src/libzt/zt_set.c', '''    if (set1->length > set2->length) {
        return 0;
    }

    return zt_table_for_each(set1->tbl, _is_subset, &p) == 0;''', '''    if (set1->length >= set2->length) {
        return set1->length == set2->length && zt_set_is_member(set2, NULL, 0) == 0 && zt_table_for_each(set2->tbl, _is_subset, &p) == 0;
    }

    return zt_table_for_each(set1->tbl, _is_subset, &p) == 0;''')],
 'two sets of the same size with different members', 'a set is called a subset of any other set of its size',
 r'''
#include <zt.h>
int main(void) { zt_set *a = zt_set_init(zt_table_compare_string, NULL, NULL), *b = zt_set_init(zt_table_compare_string, NULL, NULL);
  zt_set_insert(a, "x", 1); zt_set_insert(a, "y", 1); zt_set_insert(b, "x", 1); zt_set_insert(b, "z", 1);
  return zt_set_is_subset(a, b) != 0; }
''')
seed('c04-grow-clear', 'C04', [('src/libzt/zt_array.c', 'memset(&array->data[array->length*array->size], 0, rlen * array->size);', 'memset(&array->data[array->length*array->size], 0, rlen);')],
 'growing an array of elements larger than a byte when its new memory is not already zero', 'new elements hold leftover data',
 r'''
#include <zt.h>
#include <string.h>
int main(void) { int r, i; for (r = 0; r < 50; r++) {
    zt_array_t a = zt_array_new(4, 8); void *p[8];
    for (i = 0; i < 8; i++) { p[i] = malloc(200); memset(p[i], 0xff, 200); } for (i = 0; i < 8; i++) free(p[i]);
    zt_array_resize(a, 24); for (i = 32; i < 24 * 8; i++) if (zt_array_data(a)[i]) return 1;
    zt_array_free(&a); }
  return 0; }
''')
seed('c04-move-last', 'C04', [('src/libzt/zt_ptr_array.c', '''    for (i = 0; i < array->count; i++) {
        if (array->array[i] == data) {
            zt_ptr_array_move_idx_to_idx(array, array->count - 1, i);
            array->count--;''', '''    for (i = 0; i < array->count; i++) {
        if (array->array[i] == data) {
            array->count--;
            zt_ptr_array_move_idx_to_idx(array, array->count, i);''')],
 'deleting an element that is not the last one', 'the last element is lost and the deleted one stays',
 r'''
#include <zt.h>
int main(void) { int a, b, c; zt_ptr_array *p = zt_ptr_array_init(NULL, NULL); zt_ptr_array_add(p, &a); zt_ptr_array_add(p, &b); zt_ptr_array_add(p, &c);
  zt_ptr_array_del(p, &a); return zt_ptr_array_get_idx(p, 0) == (void *)&a || zt_ptr_array_get_idx(p, 0) != (void *)&c || zt_ptr_array_get_idx(p, 1) != (void *)&b; }
''')
seed('c05-join-single', 'C05', [('src/libzt/zt_list.h', '''    last->next = at;
    at->prev = last;''', '''    last->next = at;
    if (at != head) {
        at->prev = last;
    }''')], 'joining a list onto an empty list', 'walking the joined list backwards finds it empty',
 r'''
#include <zt.h>
int main(void) { zt_elist(h); zt_elist(l); zt_elist_t a, b; zt_elist_add_tail(&l, &a); zt_elist_add_tail(&l, &b); zt_elist_join(&h, &l);
  return h.next != &a || h.prev != &b || b.next != &h || a.prev != &h; }
''')
seed('c05-split-halves', 'C05', [('src/libzt/zt_llist.h', '''    while ((tail != NULL) && ((tail = zt_llist_tail(tail)) != NULL)) {
        lst = zt_llist_tail(lst);
        tail = zt_llist_tail(tail);
    }''', '''    while ((tail != NULL) && ((tail = zt_llist_tail(tail)) != NULL)) {
        lst = zt_llist_tail(lst);
        if ((tail = zt_llist_tail(tail)) == NULL && zt_llist_tail(zt_llist_tail(lst)) != NULL) {
            zt_llist_tail(zt_llist_tail(lst)) = NULL;
        }
    }''')], 'splitting (or sorting) a list of odd length of at least three', 'the last element of an odd list is lost',
 r'''
#include <zt.h>
static int cmp(void *a, void *b) { return (long)a < (long)b ? -1 : (long)a > (long)b; }
int main(void) { int n; long i; for (n = 1; n < 20; n++) { zt_llist l = NULL, p; int c = 0; for (i = 0; i < n; i++) zt_llist_push((void *)((i * 7) % n + 1), &l);
    l = zt_llist_sort(l, cmp); for (p = l; p; p = zt_llist_tail(p)) c++; if (c != n) return 1; }
  return 0; }
''')
seed('c06-mirror-colour', 'C06', [('src/libzt/zt_tree.c', '''                        zt_rbt_colour(oright) = zt_rbt_black;''', '''                        zt_rbt_colour(oright) = zt_rbt_colour(tmp);
                        zt_rbt_colour(parent) = zt_rbt_red;''')],
 'a removal whose rebalancing takes the mirrored double rotation with a black parent', 'the tree loses its balance invariants after particular removals',
 r'''
#include <zt.h>
#include <stdlib.h>
struct n { zt_rbt_node node; long v; };
static int cmp(zt_rbt_node *a, zt_rbt_node *b) { long x = ((struct n *)a)->v, y = ((struct n *)b)->v; return x < y ? -1 : x > y; }
static int bh(zt_rbt_node *e) { int l, r; if (!e) return 1; if (zt_rbt_colour(e) == zt_rbt_red && ((zt_rbt_left(e) && zt_rbt_colour(zt_rbt_left(e)) == zt_rbt_red) || (zt_rbt_right(e) && zt_rbt_colour(zt_rbt_right(e)) == zt_rbt_red))) exit(1);
  l = bh(zt_rbt_left(e)); r = bh(zt_rbt_right(e)); if (l != r) exit(1); return l + (zt_rbt_colour(e) == zt_rbt_black); }
int main(void) { static struct n x[200]; int r, i; srand(3);
  for (r = 0; r < 300; r++) { zt_rbt *t = NULL; int o[200]; for (i = 0; i < 200; i++) { int j = rand() % (i + 1); o[i] = o[j]; o[j] = i; }
    for (i = 0; i < 200; i++) { x[o[i]].v = o[i]; zt_rbt_insert(&t, &x[o[i]].node, cmp); } bh(t);
    for (i = 0; i < 200; i++) { int j = (o[i] * 37 + r) % 200; zt_rbt_remove(&t, &x[j].node); bh(t); } if (t) return 1; }
  return 0; }
''')
seed('c06-nfind-exact', 'C06', [('src/libzt/zt_tree.c', '''        } else if (comp > 0) {
            tmp = zt_rbt_right(tmp);
        } else {
            return tmp;
        }
    }

    return res;''', '''        } else if (comp > 0) {
            tmp = zt_rbt_right(tmp);
            res = tmp ? res : NULL;
        } else {
            return tmp;
        }
    }

    return res;''')], 'a nearest-at-or-above lookup of an absent key whose search ends by going right below a larger ancestor', 'the next larger element is not found although there is one',
 r'''
#include <zt.h>
struct n { zt_rbt_node node; long v; };
static int cmp(zt_rbt_node *a, zt_rbt_node *b) { long x = ((struct n *)a)->v, y = ((struct n *)b)->v; return x < y ? -1 : x > y; }
int main(void) { static struct n x[64], k; zt_rbt *t = NULL; int i; for (i = 0; i < 64; i++) { x[i].v = 2 * i; zt_rbt_insert(&t, &x[i].node, cmp); }
  for (i = 0; i < 127; i++) { zt_rbt_node *r; k.v = i - 1; r = zt_rbt_nfind(&t, &k.node, cmp); if (!r || ((struct n *)r)->v != (i - 1 < 0 ? 0 : (i - 1 + 1) / 2 * 2)) return 1; }
  return 0; }
''')
