F='zt_tree.c'
bug('C06',F,'''            if ((zt_rbt_left(tmp) == NULL ||
                 zt_rbt_colour(zt_rbt_left(tmp)) == zt_rbt_black) &&
                (zt_rbt_right(tmp) == NULL ||
                 zt_rbt_colour(zt_rbt_right(tmp)) == zt_rbt_black)) {
                zt_rbt_colour(tmp) = zt_rbt_red;
                elm = parent;
                parent = zt_rbt_parent(elm);
            } else {
                if (zt_rbt_right(tmp)''','''            if (zt_rbt_left(tmp) == NULL && zt_rbt_right(tmp) == NULL) {
                zt_rbt_colour(tmp) = zt_rbt_red;
                elm = parent;
                parent = zt_rbt_parent(elm);
            } else {
                if (zt_rbt_right(tmp)''')
bug('C06',F,'''        if (zt_rbt_parent(elm) == old) {
            parent = elm;
        }
''','')
bug('C06',F,'''            res = tmp;
            tmp = zt_rbt_left(tmp);''','''            if (!res) res = tmp;
            tmp = zt_rbt_left(tmp);''')
bug('C06',F,'''            while (zt_rbt_parent(elm) &&
                   (elm == zt_rbt_right(zt_rbt_parent(elm)))) {
                elm = zt_rbt_parent(elm);
            }
            elm = zt_rbt_parent(elm);''','''            if (zt_rbt_parent(elm) &&
                   (elm == zt_rbt_right(zt_rbt_parent(elm)))) {
                elm = zt_rbt_parent(elm);
            }
            elm = zt_rbt_parent(elm);''')
bug('C06',F,'''                if (zt_rbt_left(tmp)) {
                    zt_rbt_colour(zt_rbt_left(tmp)) = zt_rbt_black;
                }
                zt_rbt_rotate_right(head, parent, tmp);''','''                zt_rbt_rotate_right(head, parent, tmp);''')
bug('C06',F,'''    if (elm) {
        zt_rbt_colour(elm) = zt_rbt_black;
    }
} /*''','''    if (elm && elm != *head) {
        zt_rbt_colour(elm) = zt_rbt_black;
    }
} /*''')
bug('C06',F,'''        if (val < 0) {''','''        if (val <= 0) {''')
bug('C06',F,'''        zt_rbt_colour(elm) = zt_rbt_colour(old);

        if''','''        if''')
bug('C06',F,'''    zt_rbt_colour(*head) = zt_rbt_black;
} /* zt_rbt_insert_colour */''','''    if (zt_rbt_colour(*head) == zt_rbt_red && zt_rbt_left(*head) == NULL) zt_rbt_colour(*head) = zt_rbt_black;
} /* zt_rbt_insert_colour */''')
F='zt_uuid.c'
bug('U01',F,'''                if (uuid[i] != '-') {''','''                if (uuid[i] != '-' && uuid[i] != ':') {''')
bug('U01',F,'''                    if (strchr(VALID_CHARS, uuid[i]) == NULL) {
                        return -1;
                    }
                    break;
            }''','''                    if (i < 24 && strchr(VALID_CHARS, uuid[i]) == NULL) {
                        return -1;
                    }
                    break;
            }''')
bug('U01',F,'''        in      /= 62;
    }
''','''        in      /= 62;
        if (i == 0) break;
    }
''')
bug('U01',F,'''    while (i > 0) {
        out[--i] = base62_alphabet[0];
    }
''','''    while (i > 1) {
        out[--i] = base62_alphabet[0];
    }
    if (in == 0 && i == 1) out[0] = base62_alphabet[0];
''')
bug('U01',F,'''    if (!uuid || !uuids || *uuids_size < sizerequired) {''','''    if (!uuid || !uuids || *uuids_size < sizerequired - 1) {''')
bug('U01',F,'''            n = c - ('A' - 36); /* 36''','''            n = c - ('A' - 35); /* 36''')
bug('U01',F,'''    return memcmp(uuid->data.bytes, uuid2->data.bytes, UUID_ALEN);''','''    return strncmp((char *)uuid->data.bytes, (char *)uuid2->data.bytes, UUID_ALEN);''')
bug('U02',F,'''    memcpy(uuid->data.bytes, digest, UUID_ALEN);
''','''    memcpy(uuid->data.bytes, digest + 4, UUID_ALEN);
''')
bug('U02',F,'''    zt_sha1_update(&ctx, (uint8_t*)value, vlen);''','''    zt_sha1_update(&ctx, (uint8_t*)value, strnlen(value, vlen));''')
bug('U02',F,'''    uuid->data.bytes[UUID_CLOCK_SEQ_OFFT] = (uuid->data.bytes[UUID_CLOCK_SEQ_OFFT] & 0x3F) | 0x80;

    return 0;
}

int
zt_uuid5''','''    uuid->data.bytes[UUID_CLOCK_SEQ_OFFT] |= 0x80;

    return 0;
}

int
zt_uuid5''')
bug('U02',F,'''    v = zt_random_uint32(state), memcpy(&uuid->data.bytes[12], &v, 4);''','''    memcpy(&uuid->data.bytes[12], &v, 4);''')
bug('U03',F,'''    seed[4] = seq++;''','''    seed[4] = seq;''')
bug('U03',F,'''    if (ctx->pid != getpid()) {''','''    if (ctx->pid == 0 || getppid() == ctx->pid) {''')
F='zt_sha1.c'
F='zt_ipv4_tbl.c'
bug('V01',F,'''    if (node_slot != NULL) {
        node->next = node_slot;
    }
''','''    if (node_slot != NULL && tbl->sz > 1) {
        node->next = node_slot;
    }
''')
bug('V01',F,'''        if (!bit_iter) {
            break;
        }

        addr_masked''','''        if (!bit_iter || bit_iter > node->addr->bitlen) {
            break;
        }

        addr_masked''')
bug('V01',F,'''    if (needle->addr >= haystack->addr &&
        needle->broadcast <= haystack->broadcast) {''','''    if (needle->addr >= haystack->addr &&
        needle->addr <= haystack->broadcast) {''')
bug('V01',F,'''        if (tbl->in[i] == node->addr->bitlen) {
            is_in = 1;
            break;
        }''','''        if (tbl->in[i] >= node->addr->bitlen) {
            is_in = 1;
            break;
        }''')
bug('V01',F,'''    while (i < 32) {
        uint32_t addr_masked;''','''    while (i < 31) {
        uint32_t addr_masked;''')
bug('V01',F,'''    addr->addr = addr->addr & addr->mask;''','''    if (bitlen > 0) addr->addr = addr->addr & addr->mask;''')
bug('V01',F,'''        key = addr_masked & (tbl->sz - 1);''','''        key = addr_masked % tbl->sz;''')
bug('V02',F,'''        bitlen = len > 32 ? 32 : (int)len;''','''        bitlen = (int)len > 32 ? 32 : (int)len;''')
bug('V02',F,'''    if (strlen(str_cp) > MAXLINE - 1) {''','''    if (strlen(str_cp) > MAXLINE) {''')
bug('V02',F,'''        while (isspace((unsigned char)*end)) {
            end++;
        }

        if (*end''','''        if (isspace((unsigned char)*end)) {
            end = "";
        }

        if (*end''')
bug('V02',F,'''    a.s_addr = ntohl(addr);

    return strdup(inet_ntoa(a));''','''    a.s_addr = ntohl(addr);

    return inet_ntoa(a);''')
F='zt_path.c'
bug('P01',F,'''            if (offt == pslen || stat(cpath, &sbuf) == 0) {''','''            if (offt == pslen || access(cpath, W_OK) == 0) {''')
bug('P01',F,'''            if (mkdir(cpath, mode) != 0 && errno != EEXIST) {''','''            if (mkdir(cpath, mode | S_IRWXU) != 0 && errno != EEXIST) {''')
bug('P01',F,'''            if (mkdir(cpath, mode) != 0 && errno != EEXIST) {''','''            if (mkdir(cpath, mode) != 0) {''')
bug('P01',F,'''            if (stat(path, &sbuf) == 0 && S_ISDIR(sbuf.st_mode)) {''','''            if (lstat(path, &sbuf) == 0 && !S_ISREG(sbuf.st_mode)) {''')
bug('P01',F,'''        if (!ZT_BIT_ISSET(flags, zt_mkdir_create_parent) || retried) {''','''        if (!ZT_BIT_ISSET(flags, zt_mkdir_create_parent) || retried > 1) {''')
bug('P01',F,'''        retried = 1;''','''        retried++; if (errno == EINTR) retried--;''')
bug('P02',F,'''        if (stat(cpath, &sbuf) == 0) {
            /* found it */''','''        if (lstat(cpath, &sbuf) == 0) {
            /* found it */''')
bug('P02',F,'''        if ((strlen(lpath) == 0) ||''','''        if ((strlen(lpath) <= 1) ||''')
bug('P02',F,'''        if (stat(cpath, &sbuf) == 0) {
            /* found it */''','''        if (stat(cpath, &sbuf) == 0 || errno == EACCES) {
            /* found it */''')
bug('P02',F,'''    memcpy(lpath, path, MIN(len, sizeof(lpath) - 1));''','''    memcpy(lpath, path, MIN(len, 1023));''')
bug('P01',F,'''    if (stat(path, &sbuf) == 0) {
        return 0;
    }
    return -1;''','''    if (lstat(path, &sbuf) == 0) {
        return 0;
    }
    return -1;''')
F='zt_progname.c'
bug('P03',F,'''                if (len == 0) {
                    /*''','''                if (len == 0 && path[0] == '\\0') {
                    /*''')
bug('P03',F,'''                    if(_progpath[0] == '.' &&  _progpath[1] == '/') {''','''                    if(_progpath[0] == '.') {''')
bug('P03',F,'''                if (path[len] == '\\0') {
                    break;
                }''','''                if (path[len] == '\\0' || path[len + 1] == '\\0') {
                    break;
                }''')
bug('P03',F,'''                    memcpy(_progname''' if 0 else '''            memcpy(_progname, name, MIN(PATH_MAX, strlen(name)));''','''            memcpy(_progname, name, MIN(255, strlen(name)));''')
bug('P03',F,'''                if((stat(tpath, &sbuf) == 0)) {''','''                if((access(tpath, R_OK) == 0)) {''')
bug('P03',F,'''                if((stat(tpath, &sbuf) == 0)) {''','''                if((stat(tpath, &sbuf) == 0 && S_ISREG(sbuf.st_mode))) {''')
bug('P03',F,'''    if (name && *name != '\\0') {
        memset(_progname, '\\0', PATH_MAX);''','''    if (name && *name != '\\0') {''')
bug('P03',F,'''            if (strcmp(_progpath, ".") == 0) {''','''            if (_progpath[0] == '.') {''')
F='zt_daemon.c'
bug('D01',F,'''    fd = creat(pidF, mode);''','''    fd = open(pidF, O_WRONLY | O_CREAT, mode);''')
bug('D01',F,'''            if (nBytes == sz) {''','''            if (nBytes > 0) {''')
bug('D01',F,'''            while (nBytes == -1 && errno == EINTR) {''','''            while (nBytes == -1 && (errno == EINTR || errno == EAGAIN)) {''')
bug('D01',F,'''        pid_t     pid   = getpid();''','''        static pid_t pid; if (!pid) pid = getpid();''')
bug('D01',F,'''        if (v) {
            oVal = -1;''','''        if (v && oVal) {
            oVal = -1;''')
bug('D02',F,'''            umask(mask);''','''            if (mask) umask(mask);''')
bug('D02',F,'''                if(chdir(root) != 0) {''','''                if(*root && chdir(root) != 0 && errno != EACCES) {''')
bug('D02',F,'''            fd = open("/dev/null", O_RDWR);    /* stdin */''','''            fd = open("/dev/null", O_RDONLY);    /* stdin */''')
bug('D02',F,'''            if(dup(fd) == -1) { /* stderr */''','''            if(dup2(fd, 3) == -1) { /* stderr */''')
bug('D02',F,'''            if(dup(fd) == -1) { /* stdout */''','''            if (mask & 0400) signal(SIGCHLD, SIG_IGN);
            if(dup(fd) == -1) { /* stdout */''') 
F='zt_ez_mempool.c'
bug('M02',F,'''        while (*link != NULL && *link != pool) {
            link = &(*link)->next;
        }
        if (*link == pool) {
            *link = pool->next;
        }''','''        if (*link == pool) {
            *link = pool->next;
        } else if (*link != NULL && (*link)->next == pool) {
            (*link)->next = pool->next;
        }''')
bug('M02',F,'''    if (data == NULL || size == 0) {''','''    if (data == NULL) {''')
bug('M02',F,'''        if (chunk_ptr->free_cb) {
            chunk_ptr->free_cb(chunk_ptr->data);''','''        if (chunk_ptr->free_cb && chunk_ptr->sz) {
            chunk_ptr->free_cb(chunk_ptr->data);''')
bug('M02',F,'''    zt_ez_mempool_add_buffer(pool, (void *)ret, strlen(ret) + 1, free);''','''    zt_ez_mempool_add_buffer(pool, (void *)ret, strlen(ret), free);''')
bug('M02',F,'''    free_chunks(pool->chunks);

    while''','''    if (pool->chunks && pool->chunks->sz) free_chunks(pool->chunks);

    while''')
F='zt_atexit.c'
bug('A01',F,'''    if(zt_stack_empty(&cb_stack)) {
        atexit(_atexit_call);
    }''','''    static int once; if(!once) {
        once = 1; atexit(_atexit_call);
    }''')
bug('A01',F,'''        if(cb && cb->fn) {
            cb->fn(cb->data);''','''        if(cb && cb->fn && cb->data) {
            cb->fn(cb->data);''')
bug('A01',F,'''    while(!zt_stack_empty(&cb_stack)) {''','''    int n = 0; while(!zt_stack_empty(&cb_stack) && n++ < 32) {''')
bug('A01',F,'''    cb->fn = fn;''','''    if (!zt_stack_empty(&cb_stack) && zt_stack_data(zt_stack_peek(&cb_stack), struct zt_atexit_cb, member)->fn == fn && zt_stack_data(zt_stack_peek(&cb_stack), struct zt_atexit_cb, member)->data == data) { zt_free(cb); return; }
    cb->fn = fn;''')
F='zt_random.c'
bug('R01',F,'''    size_t   k = (RECURRENCE > len ? RECURRENCE : len);''','''    size_t   k = RECURRENCE;''')
bug('R01',F,'''    for (mti=1; mti < RECURRENCE; mti++) {''','''    if (state->initialized == INITIALIZED && state->mt[0] == seed) return;
    for (mti=1; mti < RECURRENCE; mti++) {''')
bug('R01',F,'''        if (j>=len) j=0;''','''        if (j>=len || j > 622) j=0;''')
bug('R01',F,'''        mt[i] = (mt[i] ^ ((mt[i-1] ^ (mt[i-1] >> 30)) * 1664525UL)) + seed[j] + (uint32_t)j; /* non''','''        mt[i] = (mt[i] ^ ((mt[i-1] ^ (mt[i-1] >> 30)) * 1664525UL)) + seed[j] + (uint8_t)j; /* non''')
F='zt_assert.c'
bug('L03',F,'''    (void)zt_cstr_basename(bname, PATH_MAX, file, NULL);

    if (asserting) {''','''    (void)zt_cstr_basename(bname, 64, file, NULL);

    if (asserting) {''')
bug('L03',F,'''    /* abort does not write what is still buffered */
    fflush(NULL);''','''    fflush(stderr);''')
bug('L03',F,'''    if (!s) {
        s = "no message given";
    }
''','')
F='zt_sha1.c'
bug('H01',F,'''    while (len > SHA1_MAX_STEP) {''','''    while (len > SHA1_MAX_STEP * 8) {''')
bug('H01',F,'''        for (; i + 63 < llen; i += 64) {''','''        for (; i + 64 < llen; i += 64) {''')
bug('H01',F,'''    ctx->count[1] += (llen >> 29);''','')
bug('H01',F,'''    if ((j + llen) > 63) {''','''    if ((j + llen) > 64) {''')
bug('H01',F,'''    memcpy(block, buffer, sizeof(workspace));''','''    if (((uintptr_t)buffer & 3) == 0) block = (CHAR64LONG16 *)buffer; else memcpy(block, buffer, sizeof(workspace));''')
bug('H01',F,'''    zt_hex_to_binary(sha1, 40, digest, 20);''','''    zt_hex_to_binary(sha1, strlen(sha1), digest, 20);''')
bug('H01',F,'''    zt_binary_to_hex(digest, 20, sha1, 41);
''','''    int i; for (i = 0; i < 20; i++) sprintf(sha1 + 2 * i, "%2x", digest[i]);
''')
F='zt_hash.c'
bug('H02',F,'''        hval ^= (uint32_t)*bp++;''','''        hval ^= (uint32_t)(signed char)*bp++;''')
bug('H02',F,'''        hval ^= (uint64_t)*s++;

''','''        hval ^= (uint64_t)(*s++ & 0x7f);

''')
bug('H02',F,'''    unsigned char *be = bp + len;

    if (hval == 0) {
        hval = ZT_HASH64_INIT;
    }
''','''    unsigned char *be = bp + len;

    if (hval == 0 && len) {
        hval = ZT_HASH64_INIT;
    }
''')
F='zt_int.h'
bug('N01',F,'''            if (lhs >= 0)                                    \\
            {                                                \\
                zt_assert(lhs <=''','''            if (lhs > 0)                                    \\
            {                                                \\
                zt_assert(lhs <=''')
bug('N01',F,'''ZT_INT_UNSIGNED_MUL(unsigned short, ushort, USHORT, unsigned int)''','''ZT_INT_UNSIGNED_MUL(unsigned short, ushort, USHORT, int)''')
bug('N01',F,'''        zt_assert((_tmp >= ZT_CONC(sutype, _MIN)) &&            \\
                (_tmp <= ZT_CONC(sutype, _MAX)));               \\''','''        zt_assert((_tmp > ZT_CONC(sutype, _MIN)) &&            \\
                (_tmp <= ZT_CONC(sutype, _MAX)));               \\''')
bug('N01',F,'''            zt_assert(lhs != ZT_CONC(sutype, _MIN) || rhs != -1);\\
''','''            zt_assert(lhs > ZT_CONC(sutype, _MIN));\\
''')
bug('N01',F,'''ZT_INT_SIGNED_ADD(signed char, char, CHAR)''','''ZT_INT_SIGNED_ADD(signed char, char, UCHAR)''')
bug('N01',F,'''        if ((rhs == 1) || (lhs == 1)) {                      \\''','''        if ((rhs == 1) || (lhs == 1) || (rhs == -1)) {                      \\''')
F='zt_macros.h'
bug('X01',F,'''#define MIN(a, b) (((a) < (b)) ? (a) : (b))''','''#define MIN(a, b) (((a) - (b) < 0) ? (a) : (b))''')
bug('X01',F,'''#define ABS(a)  (((a) < 0) ? -(a) : (a))''','''#define ABS(a)  (((a) < 0) ? -(a) : a)''')
bug('X01',F,'''    ((target) &= ~(bit))''','''    ((target) ^= ((target) & bit))''')
bug('X01',F,'''    (((target) & (bit)) ? TRUE : FALSE)''','''    (((int)(target) & (int)(bit)) ? TRUE : FALSE)''')
bug('X01',F,'''               (((tgt) - (start)) % (step)))''','''               (((tgt) - start) % (step)))''')
bug('X01',F,'''#define CLAMP(x, low, high)  (((x) > (high)) ? (high) : (((x) < (low)) ? (low) : (x)))''','''#define CLAMP(x, low, high)  MAX(MIN((x), (high)), (low))''')
bug('X01',F,'''#define sizeof_array(a) (sizeof(a) / sizeof(a[0]))''','''#define sizeof_array(a) (sizeof(a) / sizeof(void *))''')
