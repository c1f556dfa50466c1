
bug('Z01','replace/asprintf.c','if (ret >= 0 && ret < INIT_SZ) {','if (ret >= 0 && ret <= INIT_SZ) {')
bug('Z01','replace/asprintf.c','if (ret >= 0 && (size_t)ret < len) {','if (ret >= 0 && (size_t)ret + 1 < len) {')
bug('Z01','replace/asprintf.c','            va_end(ap2);\n            VA_COPY(ap2, ap);\n','')
bug('Z01','replace/basename.c','return basename ? ++basename : path;','return basename && basename[1] ? ++basename : path;')
bug('B01','zt_base.h','#define zt_base64_encode_uri(in, in_bytes, out, out_bytes) \\\n    zt_base_encode(zt_base64_uri','#define zt_base64_encode_uri(in, in_bytes, out, out_bytes) \\\n    zt_base_encode(zt_base64_rfc')
bug('B02','zt_base.h','zt_base_decode(zt_base32_hex, in','zt_base_decode(zt_base32_rfc, in')
bug('X01','../zt.h','if (stale) { free ((void_p) stale);  stale = 0; }','if (stale) { free ((void_p) stale); }')
bug('X01','zt_malloc.c','mem = (void_p)calloc((num), (size));','mem = size > 16 ? zt_malloc_p(num * size) : (void_p)calloc((num), (size));')
bug('C04','zt_ptr_array.h','(array->count >= array->size)','(array->count > array->size)')
bug('C05','zt_stack.h','#define zt_stack_reset zt_elist_reset','#define zt_stack_reset(s) ((s)->next = (s))')
bug('C02','zt_table.c','            struct table_node *next = tn->next;\n            if ((res = iterator(tn->key, tn->key_len, tn->datum, tn->datum_len, param)) != 0) {\n                return res;\n            }\n\n            tn = next;','            if ((res = iterator(tn->key, tn->key_len, tn->datum, tn->datum_len, param)) != 0) {\n                return res;\n            }\n\n            tn = tn->next;')
bug('C02','zt_table.c','    while (node) {\n        if (node->hash_key == skey) {\n            if (h->cmp((void *)node->key, node->key_len, key, key_len, h->cdata)) {\n                return node->datum;','    while (node && node->hash_key >= skey % 3) {\n        if (node->hash_key == skey) {\n            if (h->cmp((void *)node->key, node->key_len, key, key_len, h->cdata)) {\n                return node->datum;')
bug('C02','zt_table.c','if (zt_table_set(t2, node->key, node->key_len, node->datum, node->datum_len) < 0) {','if (zt_table_set(t2, node->key, node->key_len, node->datum, node->datum_len) != 0) {')
bug('M01','zt_mem.c','        if (olen == nlen && (strncmp','        if (olen >= nlen && (strncmp')
bug('M01','zt_mem.c','    if (page->num_free_elts == pool->elts_per_page) {\n        pool->nfree_pages++;\n    }','    if (page->num_free_elts == pool->elts_per_page && pool->npages > pool->nfree_pages + 1) {\n        pool->nfree_pages++;\n    }')
bug('M01','zt_mem.c','            (best == NULL || group->pools[i]->elt_size < best->elt_size)) {','            (best == NULL || group->pools[i]->elt_size <= best->elt_size)) {')
bug('M01','zt_mem.c','    zt_elist_for_each_safe(&(*pool)->page_list, tmp, ptmp) {\n        page = zt_elist_data(tmp, zt_mem_page, page_list);\n','    zt_elist_for_each_safe(&(*pool)->page_list, tmp, ptmp) {\n        page = zt_elist_data(tmp, zt_mem_page, page_list);\n        if ((*pool)->flags & POOL_NEVER_FREE) break;\n')
bug('W01','zt_threads.c','    zt_threads_lock(0, tpool->oput_mutex);\n    {\n        TAILQ_INSERT_TAIL(&tpool->oput_queue, entry, next);\n        zt_threads_cond_signal(tpool->oput_cond, 0);','    zt_threads_lock(0, tpool->oput_mutex);\n    {\n        int was = TAILQ_EMPTY(&tpool->oput_queue);\n        TAILQ_INSERT_TAIL(&tpool->oput_queue, entry, next);\n        if (was) zt_threads_cond_signal(tpool->oput_cond, 0);')
bug('W01','zt_threads.c','    if (pipe_iput) {\n        if (pipe(tpool->iput_fd_sigs) < 0) {','    if (pipe_iput > 1 || (pipe_iput && !pipe_oput)) {\n        if (pipe(tpool->iput_fd_sigs) < 0) {')
bug('W01','zt_threads.c','    do {\n        if (TAILQ_EMPTY(&tpool->oput_queue)) {\n            break;\n        }\n\n        entry = TAILQ_FIRST(&tpool->oput_queue);','    do {\n        if (TAILQ_EMPTY(&tpool->oput_queue)) {\n            break;\n        }\n\n        entry = tpool->kill ? TAILQ_LAST(&tpool->oput_queue, oput_list) : TAILQ_FIRST(&tpool->oput_queue);')
bug('W01','zt_threads.c','    if (cbs->finalize) {\n        _zt_threadpool_cbs.finalize = cbs->finalize;\n    }','    if (cbs->finalize && cbs->oput_worker) {\n        _zt_threadpool_cbs.finalize = cbs->finalize;\n    }')
