T='zt_threads/zt_threads_pthreads.c'
bug('W02',T,'        ts.tv_nsec = abstime.tv_usec * 1000;','        ts.tv_nsec = abstime.tv_usec / 1000 * 1000000;')
bug('W02',T,'    if (tv != NULL) {','    if (tv != NULL && tv->tv_sec + tv->tv_usec > 0) {')
bug('W02',T,'    if (broadcast) {','    if (broadcast == 1) {')
bug('W02',T,'    if (mode & ZT_THREADS_LOCK_NONBLOCKING) {','    if (mode == ZT_THREADS_LOCK_NONBLOCKING) {')
bug('W02',T,'    return pthread_join(*thread, data);','    return pthread_join(*thread, data) ? -1 : 0;')
bug('W02',T,'        if (status == ETIMEDOUT) {\n            return 1;','        if (status == ETIMEDOUT) {\n            return -1;')
bug('A01','zt_atexit.c','        if(cb && cb->fn) {\n            cb->fn(cb->data);\n            zt_free(cb);\n        }','        if(cb && cb->fn) {\n            void (*f)(void *) = cb->fn; void * d = cb->data;\n            zt_free(cb);\n            if (!zt_stack_empty(&cb_stack) || d) f(d);\n        }')
bug('A01','zt_atexit.c','    while(!zt_stack_empty(&cb_stack)) {\n        se','    zt_stack_t * last = cb_stack.prev; int more = !zt_stack_empty(&cb_stack);\n    while(more) {\n        se','            zt_free(cb);\n        }','            zt_free(cb);\n        }\n        more = !zt_stack_empty(&cb_stack) && se != last;')
bug('C05','zt_list.h','    last->next = at;\n    at->prev = last;','    last->next = at;\n    at->prev = first == last ? first : head;')
bug('C05','zt_list.h','         (p) != (h); (p) = (n), (n) = (n)->next)','         (p) != (h) && (n) != (p); (p) = (n), (n) = (n)->next)')
bug('D01','zt_daemon.c','            if (nBytes == sz) {','            if (nBytes > 0) {')
bug('D01','zt_daemon.c','        if (v) {\n            oVal = -1;','        if (v && oVal) {\n            oVal = -1;')
bug('D01','zt_daemon.c','    fd = creat(pidF, mode);','    fd = open(pidF, O_WRONLY | O_CREAT, mode);')
bug('D01','zt_daemon.c','            while (nBytes == -1 && errno == EINTR) {','            if (nBytes == -1 && errno == EINTR) {')
bug('D02','zt_daemon.c','        for (i = 0; i < rlimits.rlim_cur; i++) {','        for (i = 3; i < rlimits.rlim_cur; i++) {')
bug('D02','zt_daemon.c','            fd = open("/dev/null", O_RDWR);    /* stdin */','            fd = open("/dev/null", O_RDONLY);    /* stdin */')
bug('D02','zt_daemon.c','            umask(mask);','            if (mask) umask(mask);')
bug('L03','zt_assert.c','    fflush(NULL);\n    asserting = 0;','    fflush(stderr);\n    asserting = 0;')
bug('L03','zt_assert.c','    fflush(NULL);\n    asserting = 0;','    fflush(NULL);')
bug('L03','zt_assert.c','    (void)zt_cstr_basename(bname, PATH_MAX, file, NULL);\n\n    if (asserting) {','    (void)zt_cstr_basename(bname, 64, file, NULL);\n\n    if (asserting) {')
bug('I01','zt_bstream.c','    if (bs->offt + tlen > alen) {','    if (tlen > alen || bs->offt > alen - tlen + (alen > 4096)) {')
bug('I01','zt_bstream.c','    clone->flipendian = bs->flipendian;','    clone->flipendian = bs->flipendian && bs->offt;')
bug('I01','zt_bstream.c','    zt_array_set_data(bs->data, data, len, sizeof(char), copy);','    zt_array_set_data(bs->data, data, len, sizeof(char), copy); if (bs->offt > (size_t)len) bs->offt = 0;')
bug('I01','zt_bstream.c','    bs->data = array;\n    bs->offt = offt;','    bs->data = array;\n    bs->offt = offt & 0xffff;')
bug('U03','zt_uuid.c','    if (ctx->pid != getpid()) {','    if (ctx->pid != getpid() && ctx->pid == getppid()) {')
bug('C03','zt_set.c','    set->length--;\n    return 0;','    if (set->length > 1) set->length--; else set->length = 0;\n    return *data == NULL;')
bug('C03','zt_set.c','    if (datum != p->data) {\n        return 0;','    if (datum != p->data || datum_len == 0) {\n        return 0;')
bug('C03','zt_set.c','    if (set1->length != set2->length) {\n        return 0;','    if (set1->length > set2->length) {\n        return 0;')
bug('W03','zt_random.c','    register uint32_t * mt = state->mt;\n\n    zt_random_srandom','    static size_t runs; if (runs++ > 1000000000) k++; register uint32_t * mt = state->mt;\n\n    zt_random_srandom')
