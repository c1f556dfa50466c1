F='zt_format.c'
bug('F01',F,'''            while (nn''','''            while (nn''') if 0 else None
bug('F01',F,'''    if (precision >= 0 &&
        precision < (ssize_t)len) {
        len = precision;
    }

    if (!flags['-']) {''','''    if (precision > 0 &&
        precision < (ssize_t)len) {
        len = precision;
    }

    if (!flags['-']) {''')
bug('F01',F,'''    } else if (width < 0) {           \\
        flags['-'] = 1;               \\''','''    } else if (width < 0) {           \\
        flags['-'] = !flags['0'];               \\''')
bug('F01',F,'''    } else if (flags['0']) {
        if (sign) {''','''    } else if (flags['0'] && sign != ' ') {
        if (sign) {''')
bug('F01',F,'''    if (sign) {
        n++;
    }

    if (flags['-']) {''','''    if (sign == '-' || sign == '+') {
        n++;
    }

    if (flags['-']) {''')
bug('F01',F,'''    if (code == 'g' && precision == 0) {
        precision = 1;
    }
''','''    if (precision > 98) {
        precision = 98;
    }
''')
bug('F01',F,'''    return zt_fmt_putd(buf, strlen(buf), put, cl,
                       flags, width, INT_MIN);''','''    return zt_fmt_putd(buf, strlen(buf), put, cl,
                       flags, width, buf[0] == 'i' ? precision : INT_MIN);''')
bug('F01',F,'''            unsigned char c, flags[256];
            ssize_t       width = INT_MIN;
            ssize_t       precision = INT_MIN;
            memset(flags, '\\0', sizeof(flags));''','''            unsigned char c, flags[256];
            ssize_t       width = INT_MIN;
            static __thread ssize_t precision;
            if (tlen == 0) precision = INT_MIN;
            memset(flags, '\\0', sizeof(flags));''')
bug('F01',F,'''    size_t m = (size_t)*(void **)value;
    char          buf[64];''','''    size_t m = (size_t)*(void **)value & 0xffffffffffffUL;
    char          buf[64];''')
bug('F02',F,'''    if (cl.bp == cl.buf + cl.size) {''','''    if (cl.bp == cl.buf + cl.size && size > 1) {''')
bug('F02',F,'''        p->buf = zt_realloc(char, p->buf, p->size * 2);
        p->bp = p->buf + p->size;
        p->size *= 2;''','''        p->buf = zt_realloc(char, p->buf, p->size * 2);
        p->bp = p->buf + p->size;
        p->size += p->size < 4096 ? p->size : 4096;''')
bug('F02',F,'''    return zt_realloc(char, cl.buf, cl.bp - cl.buf);''','''    return zt_realloc(char, cl.buf, strlen(cl.buf) + 1);''')
bug('F02',F,'''    *p->bp++ = c;
    return c;
}''','''    return (*p->bp++ = c) ? c : 0;
}''')
bug('F02',F,'''    old = cvt[code].f;
    cvt[code].t = type;

    cvt[code].f = newcvt;''','''    old = cvt[code].f;
    if (!old || !newcvt) cvt[code].t = type;

    cvt[code].f = newcvt;''')
bug('F02',F,'''    cl.size = 256;
    cl.buf''','''    cl.size = strlen(fmt) < 128 ? 256 : 2 * strlen(fmt) - 1;
    cl.buf''')
F='zt_log.c'
bug('L01',F,'''    if (level > log->level) {
        goto EXIT;
    }''','''    if (level > log->level) {
        return;
    }''')
bug('L01',F,'''    if (log == log_default_ptr) {
        zt_log_set_logger(NULL);
    }''','''    if (log == log_default_ptr && forced) {
        zt_log_set_logger(NULL);
    }''')
bug('L01',F,'''    if (log == NULL && log_default_ptr == NULL) {''','''    if (log == NULL) {''')
bug('L01',F,'''    llen           = strlen(fmt);
    nfmt           = zt_malloc(char, llen + 256);''','''    llen           = strlen(fmt) > 4000 ? 4000 : strlen(fmt);
    nfmt           = zt_malloc(char, llen + 256);''')
bug('L01',F,'''    olevel     = log->level;
    log->level = level;''','''    olevel     = log->level;
    log->level = level < zt_log_emerg ? zt_log_emerg : level;''')
F='zt_log/log_private.c'
bug('L01',F,'''    while (*text) {
        if (*text == '%') {''','''    while (*text) {
        if (*text == '%' && text[1] != '%') {''')
bug('L01',F,'''        nlen += 10;    /* length''','''        nlen += 0;    /* length''')
bug('L01',F,'''        if ((level < zt_log_max) && ((int)level >= zt_log_emerg)) {''','''        if ((level < zt_log_debug) && ((int)level >= zt_log_emerg)) {''')
bug('L01',F,'''    if (((file) && (line > -1) && (function))) {''','''    if (((file) && (line > 0) && (function))) {''')
bug('L01',F,'''        len += strftime(sbuf, 254, "%b %d %H:%M:%S ", tm);''','''        len += strftime(sbuf, 254, "%b %e %H:%M:%S ", tm);''')
bug('L01',F,'''        len += strftime(sbuf, 254, "%b %d %H:%M:%S ", tm);''','''        len += strftime(sbuf, 254, "%b %d %I:%M:%S ", tm);''')
bug('L01',F,'''        if ((opts > ZT_LOG_WITH_SYSNAME)) {''','''        if ((opts & ZT_LOG_WITH_PROGNAME)) {''')
bug('L01',F,'''        len += 2 * strlen(zt_progname(NULL, 0)); /* progname, perhaps escaped */''','''        len += strlen(zt_progname(NULL, 0)); /* progname, perhaps escaped */''')
F='zt_log/log_file.c'
bug('L01',F,'''    if (fopts == ZT_LOG_FILE_APPEND) {''','''    if (fopts & ZT_LOG_FILE_APPEND || lopts == ZT_LOG_RAW) {''')
bug('L02',F,'''    pthread_mutex_lock(&log->mutex);
    vfprintf(this->file, nfmt, ap);
    pthread_mutex_unlock(&log->mutex);''','''    char * txt = NULL;
    int n = vasprintf(&txt, nfmt, ap);
    for (int i = 0; i < n; i += 512) {
        pthread_mutex_lock(&log->mutex);
        fwrite(txt + i, 1, n - i < 512 ? n - i : 512, this->file);
        pthread_mutex_unlock(&log->mutex);
    }
    free(txt);''')
F='zt_time.c'
bug('T01',F,'''    at->tv_sec = t1->tv_sec + t2->tv_sec;
    at->tv_usec = t1->tv_usec + t2->tv_usec;
    while (at->tv_usec >= 1000000) {''','''    at->tv_sec = t1->tv_sec + t2->tv_sec;
    at->tv_usec = t1->tv_usec + t2->tv_usec;
    while (at->tv_usec > 1000000) {''')
bug('T01',F,'''    long t = t1->tv_sec - t2->tv_sec;
    if (t) {''','''    int t = (int)(t1->tv_sec - t2->tv_sec);
    if (t) {''')
bug('T01',F,'''    *total = *usr + *sys;''','''    *total = (float)(result->usr_time.tv_sec + result->sys_time.tv_sec + (result->usr_time.tv_usec + result->sys_time.tv_usec) % 1000000 / 1000000.0);''')
bug('T01',F,'''    if (test && n) {
        for (i = 0; i < n; i++) {''','''    if (test && n) {
        for (i = 0; i < (n > 1000 ? 1000 : n); i++) {''')
bug('T01',F,'''    if (n <= 1) {
        zt_log''','''    if (n < 1) {
        zt_log''')
F='zt_bstream.c'
bug('I01',F,'''    if (bs->offt + tlen > alen) {
        zt_array_resize(bs->data, (bs->offt + tlen) * 2);''','''    if (bs->offt + tlen > alen) {
        zt_array_resize(bs->data, (alen + tlen) * 2);''')
bug('I01',F,'''    bs->data = array;
    bs->offt = offt;''','''    bs->data = array;
    bs->offt = offt < zt_array_length(array) ? offt : 0;''')
bug('I01',F,'''    clone->flipendian = bs->flipendian;''','''    clone->flipendian = bs->flipendian && bs->offt;''')
