bug('S02','zt_cstr.c','int cond = strncmp(s1, s2, IDXLEN(i2, j2));\n        return cond == 0 ? +1 : cond;','int cond = strncmp(s1, s2, IDXLEN(i2, j2));\n        return cond == 0 ? (IDXLEN(i2, j2) ? +1 : 0) : cond;')
bug('S02','zt_cstr.c','    for (offt = j - len + 1; offt >= i; offt--) {','    for (offt = j - len + 1; offt > i || (offt == i && len < 16); offt--) {')
bug('S03','zt_cstr.c','        if (strchr(&str[len], \'\\n\') != NULL) {','        if (str[len] == \'\\n\' || str[strlen(str) - (str[0] != 0)] == \'\\n\') {')
bug('C06','zt_tree.c','                    if ((oleft = zt_rbt_left(tmp))) {\n                        zt_rbt_colour(oleft) = zt_rbt_black;\n                    }\n                    zt_rbt_colour(tmp) = zt_rbt_red;','                    oleft = zt_rbt_left(tmp);\n                    zt_rbt_colour(tmp) = zt_rbt_red;')
bug('C06','zt_tree.c','        if (zt_rbt_parent(elm) == old) {\n            parent = elm;\n        }','        if (zt_rbt_parent(elm) == old && child) {\n            parent = elm;\n        }')
bug('C06','zt_tree.c','            res = tmp;\n            tmp = zt_rbt_left(tmp);','            if (!res || comp == -1) res = tmp;\n            tmp = zt_rbt_left(tmp);')
bug('T01','zt_time.c','    while (at->tv_usec >= 1000000) {','    while (at->tv_usec > 1000000) {')
bug('T01','zt_time.c','    _calibration_time = none;\n','')
bug('T01','zt_time.c','    dt->tv_usec = t2->tv_usec - t1->tv_usec;\n\n    while (dt->tv_usec < 0) {','    dt->tv_usec = t2->tv_usec - t1->tv_usec;\n\n    if (dt->tv_sec > 0) while (dt->tv_usec < 0) {')
bug('V01','zt_ipv4_tbl.c','    for (i = 0; i < 32; i++) {\n        if (tbl->in[i] == 0) {','    for (i = 0; i < 31; i++) {\n        if (tbl->in[i] == 0) {')
bug('V01','zt_ipv4_tbl.c','        needle->broadcast <= haystack->broadcast) {','        needle->addr <= haystack->broadcast) {')
bug('V02','zt_ipv4_tbl.c','        if (end == cp + 1 || len < 0) {','        if (end == cp + 1) {')
bug('V02','zt_ipv4_tbl.c','        bitlen = len > 32 ? 32 : (int)len;','        bitlen = (int)len > 32 ? 32 : (int)len;')
bug('C05','zt_llist.h','    tail = zt_llist_tail(lst);\n    zt_llist_tail(lst) = NULL;\n    return (tail);','    tail = zt_llist_tail(lst);\n    if (tail) zt_llist_tail(lst) = zt_llist_tail(tail) ? NULL : zt_llist_tail(lst), zt_llist_tail(lst) = NULL;\n    return (tail);')
bug('U01','zt_uuid.c','        if (v > (UINT64_MAX - n) / 62) {','        if (v > UINT64_MAX / 62) {')
bug('U01','zt_uuid.c','            if (strchr(base62_alphabet, uuid[i]) == NULL) {','            if (i && strchr(base62_alphabet, uuid[i]) == NULL) {')
bug('U01','zt_uuid.c','    if (!uuid || !uuids || *uuids_size < sizerequired) {','    if (!uuid || !uuids || *uuids_size + 1 < sizerequired) {')
bug('U02','zt_uuid.c','& 0x3F) | 0x80;\n\n    return 0;\n}\n\n/*\n *  _flagToSize','& 0x1F) | 0x80;\n\n    return 0;\n}\n\n/*\n *  _flagToSize')
bug('P01','zt_path.c','            if (stat(path, &sbuf) == 0 && S_ISDIR(sbuf.st_mode)) {','            if (lstat(path, &sbuf) == 0 && S_ISDIR(sbuf.st_mode)) {')
bug('P01','zt_path.c','            if (mkdir(cpath, mode) != 0 && errno != EEXIST) {','            if (mkdir(cpath, mode) != 0) {')
bug('P01','zt_path.c','            memcpy(cpath, path, MIN(sizeof(cpath) - 1, (size_t)offt));','            memcpy(cpath, path, MIN((size_t)255, (size_t)offt));')
bug('P02','zt_path.c','        if ((strlen(lpath) == 0) ||\n','        if ((strlen(lpath) <= 1) ||\n')
bug('K01','zt_cfg/cfg_ini.c','    for (i = vallen - 1; i > 0; i--) {','    for (i = vallen - 1; i > 1; i--) {')
bug('K01','zt_cfg/cfg_ini.c','            i = quote - val;','            i = quote - val - 1;')
bug('K01','zt_cfg/cfg_ini.c','                cfg_discard_whitespace(file);\n                continue;','                cfg_discard_whitespace(file);\n                break;')
bug('K03','zt_cfg/cfg_ini.c','    if (i >= BUFMAX) {\n        /* errno = EOVERFLOW; */','    if (i > BUFMAX) {\n        /* errno = EOVERFLOW; */')
bug('K01','zt_cfg/cfg_private.c','    if (((*pvalue != \'\\0\') && (*endptr == \'\\0\')) && errno != ERANGE) {','    if ((*pvalue != \'\\0\') && (*endptr == \'\\0\')) {')
bug('K02','zt_cfg/cfg_private.c','                if (v && target != value) {','                if (v && v != value) {')
bug('K02','zt_cfg/cfg_private.c','                while (target && target->type == zt_cfg_ref) {\n                    target = target->v.r;\n                }','                if (target && target->type == zt_cfg_ref) {\n                    target = target->v.r;\n                }')
bug('K02','zt_cfg/cfg_private.c','"%.17e"','"%.15e"')
bug('I01','zt_bstream.c','    clone->flipendian = bs->flipendian;\n','')
bug('I01','zt_bstream.c','    if (bs->offt + tlen > alen) {','    if (tlen > alen - bs->offt) {')
bug('W01','zt_threads.c','            if (tpool->kill) {\n                zt_threads_unlock(0, tpool->iput_mutex);\n                zt_threads_end(NULL);\n                return NULL;\n            }\n            zt_threads_cond_wait(tpool->iput_cond','            if (tpool->kill > 1) {\n                zt_threads_unlock(0, tpool->iput_mutex);\n                zt_threads_end(NULL);\n                return NULL;\n            }\n            zt_threads_cond_wait(tpool->iput_cond')
bug('W01','zt_threads.c','        if (_zt_threadpool_cbs.oput_loop && tpool->oput_threads[i]) {\n            zt_threads_join','        if (_zt_threadpool_cbs.oput_loop && tpool->oput_threads[i] && !TAILQ_EMPTY(&tpool->oput_queue)) {\n            zt_threads_join')
bug('G01','zt_gc.c','    /* behind the scan position so that it is still scanned in this cycle */\n    zt_elist_add_tail(gc->grey','    zt_elist_add(gc->grey')
bug('G01','zt_gc.c','    if (gc->scan == &mark->list) {\n        gc->scan = mark->list.next;\n    }\n','')
bug('M01','zt_mem.c','    if (page->num_free_elts == pool->elts_per_page) {\n        pool->nfree_pages++;\n    }','    if (page->num_free_elts >= pool->elts_per_page && pool->npages > 1) {\n        pool->nfree_pages++;\n    }')
bug('M01','zt_mem.c','            ssize_t tmp = elts % epp;','            ssize_t tmp = 0;')
bug('M02','zt_ez_mempool.c','        if (*link == pool) {\n            *link = pool->next;\n        }','        if (*link == pool && pool->next) {\n            *link = pool->next;\n        }')
bug('C01','zt_buf.c','        b->max += (size_t)((char *)b->buf - (char *)b->top);','')
bug('C01','zt_buf.c','    if (b->top != b->buf) {','    if (b->top != b->buf && b->len) {')
bug('C01','zt_buf.c','        b->max -= len;','        b->max -= len & ~(size_t)7;')
bug('Q01','zt_unit.c','        unit_suite = NULL;\n    }\n\n    if (unit_suite == NULL) {','        if (unit_suite->name[0] != name[0]) unit_suite = NULL;\n    }\n\n    if (unit_suite == NULL) {')
bug('Q01','zt_unit.c','    test->assertions = 0;\n    test->exceptions = 0;\n    if','    test->exceptions = 0;\n    if')
bug('A01','zt_atexit.c','    if(zt_stack_empty(&cb_stack)) {\n        atexit(_atexit_call);\n    }','    if(zt_stack_empty(&cb_stack) && fn != (void (*)(void *))free) {\n        atexit(_atexit_call);\n    }')
bug('D01','zt_daemon.c','            if (nBytes == sz) {','            if (nBytes > 0) {')
bug('D02','zt_daemon.c','        for (i = 0; i < rlimits.rlim_cur; i++) {','        for (i = 0; i < rlimits.rlim_cur && i < 1024; i++) {')
bug('O01','zt_opts.c','                    if (!combined_opt) {\n                        i += consumed;\n                    }','                    i += consumed;')
bug('L01','zt_log.c','    /* not before the arguments are evaluated: they may log something too */\n    zt_log_set_debug_info(file, line, func);','    if (level < zt_log_debug) zt_log_set_debug_info(file, line, func);')
bug('C03','zt_set.c','    if (set1->length > set2->length) {\n        return 0;\n    }\n','    if (set1->length >= set2->length && set1->length) {\n        return set1 == set2;\n    }\n')
bug('C03','zt_set.c','    if (*data == NULL && errno != 0) {\n        return 1;\n    }\n','    if (*data == NULL) {\n        return 1;\n    }\n')
