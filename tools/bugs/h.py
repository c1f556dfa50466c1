bug('C02','zt_table.c','if (powers_of_2[i] > hint) {','if (powers_of_2[i] >= hint && hint) {')
bug('C02','zt_table.c','            while (nn) {\n            if (nn->hash_key == skey) {','            while (nn) {\n            if (nn->hash_key == skey) {')
bug('C02','zt_table.c','                if (prev == node) {\n                    h->buckets[nkey] = node->next;','                if (prev == node || h->buckets[nkey]->next == NULL) {\n                    h->buckets[nkey] = prev == node ? node->next : NULL;')
bug('C02','zt_table.c','        struct table_node *node = t1->buckets[i];\n        while (node) {\n            any = 1;','        struct table_node *node = t1->buckets[i];\n        while (node) {\n            any = any || node->next == NULL;')
bug('C02','zt_table.c','        if (strncmp((char *)lhs, (char *)rhs, lhs_len) == 0) {','        if (strncmp((char *)lhs, (char *)rhs, lhs_len ? lhs_len - (lhs_len > 64) : 0) == 0) {')
bug('B01','zt_base.c','            pad = 3;','            pad = in_pad3;')
bug('B02','zt_base.c','            case 6:\n                return -1;\n                break;','            case 6:\n                result = 0;\n                break;')
bug('B02','zt_base.c','    if (cnt > 0) {\n        /* a single trailing digit is only half of a byte */\n        result = -1;','    if (cnt > 0 && obytes > 0) {\n        /* a single trailing digit is only half of a byte */\n        result = -1;')
bug('B02','zt_base.c','    for (i=in_bytes-1; i > 0; i--) {\n        if (inp[i] != def->pad) {','    for (i=in_bytes-1; i > 0 && i + 4 > (ssize_t)in_bytes; i--) {\n        if (inp[i] != def->pad) {')
bug('F01','zt_format.c','               len == 1 &&\n               str[0] == \'0\') {','               len == 1 && !sign &&\n               str[0] == \'0\') {')
bug('F01','zt_format.c','                    n = va_arg(ap, int);\n                    zt_assert(n != INT_MIN);\n                    fmt++;\n                } else {\n                    for (n = 0; isdigit(*fmt); fmt++) {\n                        int d = *fmt - \'0\';\n                        zt_assert(n <= (INT_MAX - d) / 10);\n                        n = 10 * n + d;\n                    }\n                }\n                precision = n;','                    n = va_arg(ap, int);\n                    zt_assert(n != INT_MIN);\n                    if (n < 0) n = 0;\n                    fmt++;\n                } else {\n                    for (n = 0; isdigit(*fmt); fmt++) {\n                        int d = *fmt - \'0\';\n                        zt_assert(n <= (INT_MAX - d) / 10);\n                        n = 10 * n + d;\n                    }\n                }\n                precision = n;')
bug('F02','zt_format.c','        p->bp = p->buf + p->size;\n        p->size *= 2;','        p->bp = p->buf + p->size;\n        p->size = p->size < 4096 ? p->size * 2 : p->size + 4096;')
bug('F02','zt_format.c','    if (cl.bp == cl.buf + cl.size) {','    if (cl.bp == cl.buf + cl.size && size > 1) {')
bug('Q01','zt_unit.c','        if (**ap != \'\\0\') {\n            ++ap;\n            if (--argc <= 0) {','        if (**ap != \'\\0\' || ap != argv) {\n            ++ap;\n            if (--argc <= 0) {')
bug('Q01','zt_unit.c','                printf("Suite or Test \\"%s\\" not found\\n", argv[i]);\n                result = -1;','                printf("Suite or Test \\"%s\\" not found\\n", argv[i]);\n                result = i + 1 < argc ? result : -1;')
bug('Q01','zt_unit.c','    if (result == 0) {\n        if (unit->failures > 0) {','    if (result == 0) {\n        if (unit->failures > unit->successes) {')
bug('O01','zt_opts.c','    if (!errno && (result < INT_MIN || result > INT_MAX)) {','    if (!errno && (result < -INT_MAX || result > INT_MAX)) {')
bug('O01','zt_opts.c','        if (cur_array != NULL) {\n            int i = 0;','        if (cur_array != NULL && cur_array[0] != NULL) {\n            int i = 0;')
bug('O02','zt_opts.c','            if (args[x].sopt != ZT_OPT_NSO && args[x].sopt == args[i].sopt) {','            if (args[x].sopt != ZT_OPT_NSO && args[x].sopt == args[i].sopt && args[x].lopt != args[i].lopt) {')
bug('O02','zt_opts.c','            error(EINVAL, "\'%s\' is not a boolean expression", argv[argn]);\n            return 0;\n        }\n    }','            if (len > 5) error(EINVAL, "\'%s\' is not a boolean expression", argv[argn]);\n            return 0;\n        }\n    }')
bug('O03','zt_opts.c','                while(def->help[offt] == \' \' && offt < len) {\n                    offt++;\n                }','                if (def->help[offt] == \' \' && offt < len) {\n                    offt++;\n                }')
bug('O03','zt_opts.c','                if (width > sublen) {','                if (width >= sublen + 1 || (offt == 0 && width == sublen)) {')
bug('W01','zt_threads.c','    tpool->kill = 2;\n    zt_threads_cond_signal(tpool->oput_cond, 1);','    tpool->kill = 2;\n    zt_threads_cond_signal(tpool->oput_cond, 0);')
bug('W01','zt_threads.c','        TAILQ_INSERT_TAIL(&tpool->oput_queue, entry, next);\n        zt_threads_cond_signal(tpool->oput_cond, 0);','        if (TAILQ_EMPTY(&tpool->oput_queue)) zt_threads_cond_signal(tpool->oput_cond, 0);\n        TAILQ_INSERT_TAIL(&tpool->oput_queue, entry, next);')
bug('W01','zt_threads.c','    tpool->oput_mutex   = zt_threads_alloc_lock(0);','    tpool->oput_mutex   = tpool->iput_mutex;')
bug('O03','zt_opts.c','                    if (!width) {\n                        // a word longer than a line\n                        width = BASE_WIDTH;','                    if (!width) {\n                        // a word longer than a line\n                        width = BASE_WIDTH - 1;')
bug('F01','zt_format.c','    if (val == INT_MIN) {\n        m = INT_MAX + 1U; /* -val would overflow */','    if (val == INT_MIN) {\n        m = INT_MAX; /* -val would overflow */')
bug('F01','zt_format.c','    if (code == \'g\' && precision == 0) {\n        precision = 1;\n    }\n\n    zt_assert(precision <= 99);','    zt_assert(precision <= 99);\n    if (precision > 60 && code != \'f\') precision = 60;')
