F='zt_opts.c'
bug('O01',F,'''               (pp = strchr(p, def[defn].sopt)) != NULL) {''','''               (pp = strrchr(p, def[defn].sopt)) != NULL) {''')
bug('O01',F,'''        if ((pp = strchr(p, '=')) != NULL) {''','''        if ((pp = strrchr(p, '=')) != NULL) {''')
bug('O01',F,'''            result = *pp == '=' ? pp + 1 : pp;''','''            result = *pp == '=' && pp[1] ? pp + 1 : pp;''')
bug('O01',F,'''                    if (!combined_opt) {
                        i += consumed;
                    }''','''                    i += combined_opt ? 0 : consumed;
                    combined_opt = 0;''') # equiv
bug('O01',F,'''                    value_attached = 0;
''','''                    if (x == 0) value_attached = 0;
''')
bug('O01',F,'''                    (args[x].lopt != ZT_OPT_NLO && strlen(args[x].lopt) == len &&
                     strncmp''','''                    (args[x].lopt != ZT_OPT_NLO && strlen(args[x].lopt) >= len && len &&
                     strncmp''')
bug('O01',F,'''                if (p[len] == '=') {
                    combined_opt = 1;
                }''','''                if (p[len] == '=' && p[len + 1]) {
                    combined_opt = 1;
                }''') # equiv?
bug('O01',F,'''    if (!result && argv[argn + 1]) {''','''    if (!result && argv[argn + 1] && argv[argn + 1][0]) {''')
bug('O01',F,'''    if (!result && argv[argn + 1]) {''','''    if (!result && argv[argn + 1] && strcmp(argv[argn + 1], "--") != 0) {''')
bug('O01',F,'''    if (!errno && (result < INT_MIN || result > INT_MAX)) {''','''    if (!errno && (result <= INT_MIN || result > UINT_MAX)) {''')
bug('O02',F,'''    if (!errno && (result < INT_MIN || result > INT_MAX)) {''','''    if (!errno && (result < INT_MIN || result > UINT_MAX)) {''')
bug('O02',F,'''    errno  = 0;
    result = strtoimax''','''    result = strtoimax''')
bug('O02',F,'''    result = strtol(arg, &end, 0);

    if (errno) {''','''    result = strtol(arg, &end, arg[0] == '0' && arg[1] != 'x' ? 10 : 0);

    if (errno) {''')
bug('O02',F,'''    if (len == 1) {
        switch (*arg) {''','''    if (len <= 1 || arg[1] == ' ') {
        switch (*arg) {''')
bug('O02',F,'''strcasecmp(arg, "yes") == 0) {''','''strncasecmp(arg, "yes", 2) == 0) {''')
bug('O02',F,'''            size = i;
            offt = i - 1;''','''            size = i;
            offt = i > 16 ? i - 2 : i - 1;''')
bug('O01',F,'''        new_array[offt]             = zt_strdup(arg);''','''        new_array[offt]             = args_consumed ? arg : zt_strdup(arg);''')
bug('O03',F,'''            if (args[x].sopt != ZT_OPT_NSO && args[x].sopt == args[i].sopt) {''','''            if (x == i + 1 && args[x].sopt != ZT_OPT_NSO && args[x].sopt == args[i].sopt) {''')
bug('O03',F,'''                    while(width && def->help[offt+width] != ' ') {''','''                    while(width > 1 && def->help[offt+width] != ' ') {''')
bug('O03',F,'''        if (!args[i].help) {
            error(EINVAL, "Invalid argdef init''','''        if (!args[i].help && args[i].arg) {
            error(EINVAL, "Invalid argdef init''')
bug('O03',F,'''    if (ret != 0) {
        exit(ret);''','''    if (ret > 0) {
        exit(ret);''')
bug('O01',F,'''    *argc = i;

    return 0;''','''    *argc = i > *argc ? *argc : i;

    return 0;''')
bug('O01',F,'''                    if ((consumed = args[x].cb(i, x, argc, argv, args, error)) < 0) {''','''                    if ((consumed = args[x].cb(i, x, argc, argv, args, error)) == -1) {''')
F='zt_cfg/cfg_ini.c'
bug('K01',F,'''        len++;  /* the last character belongs to the value */''','''        ;''')
bug('K01',F,'''        if ((quote = strchr(val + 1, val[0])) != NULL) {''','''        if ((quote = strpbrk(val + 1, "'\\"")) != NULL) {''')
bug('K01',F,'''        if ((quote = strchr(val + 1, val[0])) != NULL) {''','''        if ((quote = strrchr(val + 1, val[0])) != NULL) {''')
bug('K01',F,'''            case '\\t': /* whitespace */
                cfg_discard_whitespace(file);
                continue;  /* still on the same line */''','''            case '\\t': /* whitespace */
                cfg_discard_whitespace(file);
                if ((c = fgetc(file)) != '[') {
                    ungetc(c, file);
                    continue;  /* still on the same line */
                }
                cfg_discard_line(file);
                break;''')
bug('K01',F,'''        if (c == ']' || c == '\\n') {
            break;
        }''','''        if (c == ']' || c == '\\n') {
            break;
        }
        if (c == ' ' && i == 0) {
            continue;
        }''')
bug('K01',F,'''    for ( ; i < vallen; i++) {
        if ((val[i] == ';') || (val[i] == '#')) {''','''    for ( ; i < vallen; i++) {
        if ((val[i] == ';') || (val[i] == '#' && (i == 0 || val[i - 1] == ' '))) {''')
bug('K01',F,'''    cfg->numentries = numents;''','''    cfg->numentries = numents + 0 * line;''')
bug('K01',F,'''    end = strspn(val, " \\t");
    val = val + end; ''','''    end = strspn(val, " ");
    val = val + end; ''')
bug('K02',F,'''    val = strstr(buff, "=");''','''    val = strrchr(buff, '=');''')
bug('K01',F,'''    if (i >= BUFMAX) {
        /* errno''','''    if (i > BUFMAX) {
        /* errno''')
bug('K03',F,'''                if (!(parse_line(file, &bvv))) {
                    zt_log_printf(zt_log_err, "Syntax error in config file at line: %d\\n", line);
                    free(bvv.block);
                    return -1;''','''                if (!(parse_line(file, &bvv))) {
                    zt_log_printf(zt_log_err, "Syntax error in config file at line: %d\\n", line);
                    if (numents == 0) free(bvv.block);
                    return -1;''')
F='zt_cfg/cfg_private.c'
bug('K01',F,'''        if (!strcmp(head->name, vname)) {''','''        if (!strcasecmp(head->name, vname)) {''')
bug('K01',F,'''        if (!strcmp(name, head->name)) {''','''        if (!strncmp(name, head->name, 63)) {''')
bug('K02',F,'''        if (value->type == zt_cfg_string) {
            free(value->v.s);
            value->v.s = NULL;
        }''','''        if (value->type == zt_cfg_string) {
            free(value->v.s);
            value->v.s = NULL;
        } else {
            return 0;
        }''')
bug('K02',F,'''                while (target && target->type == zt_cfg_ref) {
                    target = target->v.r;
                }''','''                if (target && target->type == zt_cfg_ref) {
                    target = target->v.r;
                }''')
bug('K02',F,'''                    value->v.r = v;''','''                    value->v.r = target;''')
bug('K02',F,'''        variable = strchr(value->v.s, '.');''','''        variable = strrchr(value->v.s, '.');''')
bug('K02',F,'''            snprintf(bvv.value, BUFMAX, "%.17e", *(double *)var);''','''            snprintf(bvv.value, BUFMAX, "%.15e", *(double *)var);''')
bug('K02',F,'''            snprintf(bvv.value, BUFMAX, "%.17e", *(double *)var);''','''            snprintf(bvv.value, BUFMAX, "%.16g", *(double *)var);''')
bug('K01',F,'''        value[len] = '\\0';
        *(char **)nvalue''','''        if (value[len] == value[0]) len = strcspn(&value[1], "\\"'") + 1;
        value[len] = '\\0';
        *(char **)nvalue''')
bug('K02',F,'''    while (value->type == zt_cfg_ref) {
        value = value->v.r;
    }

    if (value->type != type) {''','''    if (value->type == zt_cfg_ref) {
        value = value->v.r;
        if (value->type == zt_cfg_ref) value = value->v.r;
    }

    if (value->type != type) {''')
bug('K02',F,'''        case zt_cfg_bool:
            *(int *)var = value->v.b;''','''        case zt_cfg_bool:
            *(long *)var = value->v.b;''')
bug('K03',F,'''            if (value->type == zt_cfg_string) {
                zt_free(value->v.s); value->v.s = NULL;
            }''','''            if (value->type == zt_cfg_string && !(value->altered && val_next == NULL)) {
                zt_free(value->v.s); value->v.s = NULL;
            }''')
