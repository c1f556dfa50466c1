bug('O02','zt_opts.c','    if (len == 1) {\n        switch (*arg) {',"    if (len <= 1 || arg[1] == ' ') {\n        switch (*arg) {")
bug('O02','zt_opts.c','            if (args[x].sopt != ZT_OPT_NSO && args[x].sopt == args[i].sopt) {','            if (x == i + 1 && args[x].sopt != ZT_OPT_NSO && args[x].sopt == args[i].sopt) {')
bug('O02','zt_opts.c','        if (!args[i].help) {\n            error(EINVAL, "Invalid argdef init','        if (!args[i].help && args[i].arg) {\n            error(EINVAL, "Invalid argdef init')
bug('O02','zt_opts.c','    if (ret != 0) {\n        exit(ret);','    if (ret > 0) {\n        exit(ret);')
bug('O02','zt_opts.c','                    if ((consumed = args[x].cb(i, x, argc, argv, args, error)) < 0) {','                    if ((consumed = args[x].cb(i, x, argc, argv, args, error)) == -1) {')
bug('K03','zt_cfg/cfg_ini.c','    if (i >= BUFMAX) {\n        /* errno','    if (i > BUFMAX) {\n        /* errno')
bug('L01','zt_log/log_private.c','        len += 2 * strlen(zt_progname(NULL, 0)); /* progname, perhaps escaped */','        len += strlen(zt_progname(NULL, 0)); /* progname, perhaps escaped */')
bug('L01','zt_log/log_file.c','    if (fopts == ZT_LOG_FILE_APPEND) {','    if (fopts & ZT_LOG_FILE_APPEND || lopts == ZT_LOG_RAW) {')
bug('L01','zt_log/log_private.c','        if ((opts > ZT_LOG_WITH_SYSNAME)) {','        if ((opts & ZT_LOG_WITH_PROGNAME)) {')
bug('K02','zt_cfg/cfg_private.c','        case zt_cfg_bool:\n            *(int *)var = value->v.b;','        case zt_cfg_bool:\n            *(long *)var = value->v.b;')
