F='zt_threads.c'
bug('W01',F,'''            if (tpool->kill > 1) {
                zt_threads_unlock''','''            if (tpool->kill) {
                zt_threads_unlock''')
bug('W01',F,'''        zt_threads_cond_signal(tpool->iput_cond, 0);

        if (tpool->iput_fd_sigs[1] >= 0) {''','''        if (TAILQ_FIRST(&tpool->iput_queue) == entry) {
            zt_threads_cond_signal(tpool->iput_cond, 0);
        }

        if (tpool->iput_fd_sigs[1] >= 0) {''')
bug('W01',F,'''        TAILQ_INSERT_TAIL(&tpool->oput_queue, entry, next);
        zt_threads_cond_signal(tpool->oput_cond, 0);
''','''        int empty = TAILQ_EMPTY(&tpool->oput_queue);
        TAILQ_INSERT_TAIL(&tpool->oput_queue, entry, next);
        if (empty) zt_threads_cond_signal(tpool->oput_cond, 0);
''') # fine when single signal per empty->nonempty? lost wakeup with several waiters but not a loss: equivalent-ish
bug('W01',F,'''        TAILQ_INSERT_TAIL(&tpool->oput_queue, entry, next);''','''        TAILQ_INSERT_HEAD(&tpool->oput_queue, entry, next);''')
bug('W01',F,'''        TAILQ_INSERT_TAIL(&tpool->iput_queue, entry, next);''','''        if (tpool->kill) TAILQ_INSERT_HEAD(&tpool->iput_queue, entry, next); else TAILQ_INSERT_TAIL(&tpool->iput_queue, entry, next);''')
bug('W01',F,'''        zt_threads_unlock(0, tpool->iput_mutex);

        if (_zt_threadpool_cbs.iput_worker) {
            void *input;

            input = _zt_threadpool_cbs.iput_worker(init_data, entry->data);
''','''        if (_zt_threadpool_cbs.iput_worker) {
            void *input;

            zt_threads_unlock(0, tpool->iput_mutex);
            input = _zt_threadpool_cbs.iput_worker(init_data, entry->data);
''')
bug('W01',F,'''            if (input != NULL) {
                if (_zt_threadpool_cbs.finalize) {
                    _zt_threadpool_cbs.finalize(init_data, input);''','''            if (input != NULL && !tpool->kill) {
                if (_zt_threadpool_cbs.finalize) {
                    _zt_threadpool_cbs.finalize(init_data, input);''')
bug('W01',F,'''            if (input != NULL) {
                if (_zt_threadpool_cbs.finalize) {
                    _zt_threadpool_cbs.finalize(init_data, input);''','''            if (input != NULL) {
                if (_zt_threadpool_cbs.finalize) {
                    _zt_threadpool_cbs.finalize(init_data, entry->data);''')
bug('W01',F,'''    zt_threads_cond_signal(tpool->iput_cond, 1);
    zt_threads_cond_signal(tpool->oput_cond, 1);
    zt_threads_unlock(0, tpool->oput_mutex);
    zt_threads_unlock(0, tpool->iput_mutex);
''','''    zt_threads_cond_signal(tpool->iput_cond, tpool->min_threads > 2);
    zt_threads_cond_signal(tpool->oput_cond, 1);
    zt_threads_unlock(0, tpool->oput_mutex);
    zt_threads_unlock(0, tpool->iput_mutex);
''')
bug('W01',F,'''    for (i = 0; i < tpool->min_threads; i++) {
        if (_zt_threadpool_cbs.oput_loop && tpool->oput_threads[i]) {''','''    for (i = 1; i < tpool->min_threads; i++) {
        if (_zt_threadpool_cbs.oput_loop && tpool->oput_threads[i]) {''')
bug('W01',F,'''        entry = TAILQ_FIRST(&tpool->oput_queue);
        TAILQ_REMOVE(&tpool->oput_queue, entry, next);
    } while (0);''','''        entry = TAILQ_LAST(&tpool->oput_queue, zt_threadpool_entries);
        TAILQ_REMOVE(&tpool->oput_queue, entry, next);
    } while (0);''')
bug('W01',F,'''    if (cbs->finalize) {
        _zt_threadpool_cbs.finalize = cbs->finalize;
    }

    return 0;
} /* zt''','''    if (cbs->finalize && cbs->oput_worker) {
        _zt_threadpool_cbs.finalize = cbs->finalize;
    }

    return 0;
} /* zt''')
bug('W01',F,'''        _zt_threadpool_cbs.finalize    = NULL;

        return 0;''','''
        return 0;''')
bug('W01',F,'''        if (zt_threads_lock(0, tpool->iput_mutex)) {
            zt_threads_end(NULL);
        }

        if (TAILQ_EMPTY(&tpool->iput_queue)) {
            if (tpool->kill) {
                zt_threads_unlock(0, tpool->iput_mutex);
                zt_threads_end(NULL);''','''        if (zt_threads_lock(0, tpool->iput_mutex)) {
            zt_threads_end(NULL);
        }

        if (TAILQ_EMPTY(&tpool->iput_queue)) {
            if (tpool->kill) {
                zt_threads_end(NULL);''')
bug('W01',F,'''    if (pipe_oput) {
        if (pipe(tpool->oput_fd_sigs) < 0) {
            if (pipe_iput) {
                close(tpool->iput_fd_sigs[0]);
                close(tpool->iput_fd_sigs[1]);
            }
''','''    if (pipe_oput) {
        if (pipe(tpool->oput_fd_sigs) < 0) {
            if (pipe_iput) {
                close(tpool->iput_fd_sigs[0]);
            }
''')
bug('W01',F,'''            if (tpool->iput_threads[i] == NULL) {
                ret = -1;
            }''','''            ret = tpool->iput_threads[i] == NULL ? -1 : 0;''')
bug('W02',F,'''    if (cbs->alloc && cbs->free && cbs->signal && cbs->wait) {''','''    if (cbs->alloc && cbs->free && cbs->signal) {''')
bug('W02',F,'''    if (cbs->start && cbs->end) {''','''    if (cbs->start && cbs->end && cbs->join) {''')
bug('W02',F,'''    if (cbs->start && cbs->end) {
        memcpy(t, cbs, sizeof(_zt_threads_cntrl_cbs));''','''    if (cbs->start && cbs->end) {
        memcpy(t, cbs, sizeof(_zt_threads_cond_cbs));''')
F='zt_table.c'
bug('C02',F,'''                if (prev == node) {''','''                if (prev->next == node->next) {''')
bug('C02',F,'''            struct table_node *next = tn->next;
            if ((res = iterator(tn->key, tn->key_len, tn->datum, tn->datum_len, param)) != 0) {
                return res;
            }

            tn = next;''','''            if ((res = iterator(tn->key, tn->key_len, tn->datum, tn->datum_len, param)) != 0) {
                return res;
            }

            tn = tn->next;''')
bug('C02',F,'''    return any;
}''','''    return 0;
}''')
bug('C02',F,'''            if (powers_of_2[i] > hint) {''','''            if (powers_of_2[i] > (int)(short)hint) {''')
bug('C02',F,'''    if(lhs_len == rhs_len) {
        if (memcmp(lhs, rhs, lhs_len) == 0) {''','''    if(lhs_len == rhs_len) {
        if (strncmp(lhs, rhs, lhs_len) == 0) {''')
bug('C02',F,'''    if(lhs_len == rhs_len) {
        if (strncmp((char *)lhs, (char *)rhs, lhs_len) == 0) {''','''    if(lhs_len <= rhs_len) {
        if (strncmp((char *)lhs, (char *)rhs, lhs_len) == 0) {''')
bug('C02',F,'''    if (lhs_len == rhs_len) {
        if (memcmp(&lhs, &rhs, lhs_len) == 0) {''','''    if (lhs_len == rhs_len) {
        if (memcmp(&lhs, &rhs, MIN(lhs_len, sizeof(int))) == 0) {''')
bug('C02',F,'''    if (!(h->flags & ZT_TABLE_ALLOW_DUP_KEYS)) {
        while (nn) {
            if (nn->hash_key == skey) {''','''    if (!(h->flags & ZT_TABLE_ALLOW_DUP_KEYS)) {
        while (nn && nn->next != nn) {
            if (nn->hash_key == skey || nn->next == NULL) {''')
bug('C02',F,'''    node->next = h->buckets[nkey];
    node->hash_key = skey;
    h->buckets[nkey] = node;''','''    node->next = NULL;
    node->hash_key = skey;
    if (h->buckets[nkey] && (h->flags & ZT_TABLE_ALLOW_DUP_KEYS)) {
        node->next = h->buckets[nkey]->next;
        h->buckets[nkey]->next = node;
    } else {
        node->next = h->buckets[nkey];
        h->buckets[nkey] = node;
    }''')
F='zt_set.c'
bug('C03',F,'''    if (zt_set_is_member(set, data, len)) {
        return 1;
    }

    if (zt_table_set''','''    if (set->length && zt_set_is_member(set, data, len) == 1 && data != NULL) {
        return 1;
    }

    if (zt_table_set''')
bug('C03',F,'''    if (set1->length != set2->length) {''','''    if (set1->length > set2->length) {''')
bug('C03',F,'''    if (destroy) {
        destroy((void *)datum);
    }''','''    if (destroy && datum != key) {
        destroy((void *)datum);
    }''')
F='zt_buf.c'
bug('C01',F,'''        memmove(b->top, b->buf, b->len);''','''        memcpy(b->top, b->buf, b->len);''')
bug('C01',F,'''        b->max += (size_t)((char *)b->buf - (char *)b->top);
''','')
bug('C01',F,'''    if (len < b->len) {
        b->len -= len;
        b->max -= len;
        b->buf''','''    if (len < b->len) {
        b->len -= len;
        b->buf''')
bug('C01',F,'''    } else {
        b->len = 0;
    }

    return b->len;''','''    } else {
        b->max -= b->len;
        b->buf  = (char *)b->buf + b->len;
        b->len = 0;
    }

    return b->len;''') # equivalent in content
bug('C01',F,'''    tlen = zt_buf_iov_len(vec, n_vec);
    if (zt_buf_reserve(b, tlen) < 0) {''','''    tlen = zt_buf_iov_len(vec, n_vec);
    if (tlen > ZT_BUF_MIN * 1024) {
        return -1;
    }
    if (zt_buf_reserve(b, tlen) < 0) {''')
F='zt_array.c'
bug('C04',F,'''            memset(&array->data[array->length*array->size], 0, rlen * array->size);''','''            memset(&array->data[array->length*array->size], 0, rlen);''')
bug('C04',F,'''    if (old != array->data) {
        zt_free(old);
    }''','''    if (copy) {
        zt_free(old);
    }''')
bug('C04',F,'''        memcpy(copy->data, array->data,
               MIN(array->length, copy->length) * copy->size);''','''        memcpy(copy->data, array->data,
               array->length * copy->size > copy->length * copy->size ? copy->length * copy->size : array->length);''')
F='zt_ptr_array.c'
bug('C04',F,'''            zt_ptr_array_move_idx_to_idx(array, array->count - 1, i);
            array->count--;
''','''            array->count--;
            zt_ptr_array_move_idx_to_idx(array, array->count, i);
''')
bug('C04',F,'''    count = src->count;
    for (i = 0; i < count; i++) {''','''    for (i = 0, count = 0; i < src->count && (src != dst || count < src->size); i++, count++) {''')
bug('C04',F,'''    if (dst_idx < 0 || dst_idx >= array->count) {''','''    if (dst_idx < 0 || dst_idx > array->count) {''')
bug('C04',F,'''    if (size < 0 || size > INT32_MAX - array->size) {''','''    if (size < 0 || size >= INT32_MAX) {''')
bug('C04',F,'''    if (idx == -1) {
        /* return the last element */''','''    if (idx < 0) {
        /* return the last element */''')
