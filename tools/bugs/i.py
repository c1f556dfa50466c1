bug('W03','zt_cstr.c','for (tok = strtok_r(str_copy, delim, &endptr); tok != NULL; tok = strtok_r(NULL, delim, &endptr)) {','for (tok = strtok(str_copy, delim); tok != NULL; tok = strtok(NULL, delim)) {')
bug('W03','zt_cstr.c','    char      _hex[(16*3)+3];','    static char      _hex[(16*3)+3];')
bug('W03','zt_cstr.c','    unsigned char map[256] = { 0, ','    static unsigned char map[256] = { 0, ')
bug('W03','zt_sha1.c','    CHAR64LONG16 * block = &workspace;','    static CHAR64LONG16 shared; CHAR64LONG16 * block = &shared;')
bug('W03','zt_format.c','    char        buf[1 + DBL_MAX_10_EXP','    static char        buf[1 + DBL_MAX_10_EXP')
bug('W03','zt_format.c','            unsigned char c, flags[256];','            unsigned char c; static unsigned char flags[256];')
bug('W03','zt_cfg/cfg_ini.c','    char buff[BUFMAX];','    static char buff[BUFMAX];')
bug('W03','zt_cfg/cfg_ini.c','    char              block[BUFMAX];','    static char              block[BUFMAX];')
bug('S01','zt_cstr.c','            i = IDX(i, len);              \\\n            j = IDX(j, len);              \\','            j = IDX(j, len);              \\\n            i = i == -(ssize_t)len - 1 ? 0 : IDX(i, len);              \\')
bug('S02','zt_cstr.c','        int cond = strncmp(s1, s2, IDXLEN(i2, j2));\n        return cond == 0 ? +1 : cond;','        int cond = strncmp(s1, s2, IDXLEN(i2, j2));\n        return cond == 0 ? (j2 - i2 > 126 ? 0 : +1) : cond;')
bug('S02','zt_cstr.c','    for (offt = j - len + 1; offt >= i; offt--) {\n        if (strncmp(&s[offt], str, len) == 0) {','    for (offt = j - len + 1; offt >= i; offt--) {\n        if (s[offt] == *str && s[offt + 1] == str[1] && strncmp(&s[offt] + 2, str + 2, len - 1 - (len > 2)) == 0) {')
bug('S02','zt_cstr.c','        if (s[i] == (char)c) {\n            return (size_t)i;','        if (s[i] == c) {\n            return (size_t)i;')
bug('S03','zt_cstr.c','        if (strchr(&str[len], \'\\n\') != NULL) {','        if (str[len] != 0 && str[strlen(str) - 1] == \'\\n\') {')
bug('S03','zt_cstr.c','        len = strspn(str, WHITESPACE);','        len = strspn(str, WHITESPACE); if (str[len] == \'\\n\') len = 0;')
bug('S03','zt_cstr.c','        if (strcspn(&s[i], reject) == 0) {','        if (strcspn(&s[i], reject) == 0 && i) {')
bug('S04','zt_cstr.c','        if (*cut_tok == \'\\0\') {\n            break;','        if (*cut_tok == \'\\0\' || (*cut_tok == delim && cut_tok[1] == 0)) {\n            break;')
bug('S04','zt_cstr.c','    if (*str != \'\\0\' && str[strlen(str) - 1] == (char)delim) {','    if (*str != \'\\0\' && str[1] && str[strlen(str) - 1] == (char)delim) {')
bug('S05','zt_cstr.c','        if (slen > 0 && plen - start > slen &&','        if (slen > 0 && plen - start >= slen &&')
bug('S05','zt_cstr.c','    plen = path_trim(path, end);\n    end  = plen > 0','    plen = end;\n    end  = plen > 0')
bug('S05','zt_cstr.c','    for (y = len1 - 1; y > 0 && strncmp(&path1[y], PATH_SEPERATOR, sep_len) == 0; y--) {','    for (y = len1 - 1; y > 1 && strncmp(&path1[y], PATH_SEPERATOR, sep_len) == 0; y--) {')
bug('S06','zt_cstr.c','        *(_txt+cpos++) = isprint(c) ? c : \'.\';','        *(_txt+cpos++) = isprint(c & 0x7f) ? c : \'.\';')
bug('S06','zt_cstr.c','        if (addr % 16 == 15) {\n            if (output(odata, _addr, _hex, _txt) == -1) {','        if (addr % 16 == 15) {\n            if (output(odata, _addr & 0xffffff0, _hex, _txt) == -1) {')
bug('S06','zt_cstr.c','        if (n + 1 >= hlen) {','        if (n + 1 >= hlen && n) {')
bug('S07','zt_cstr.c','    while ((value >= 1000) || (value <= -1000)) {','    while ((value >= 1000) || (value < -1000)) {')
bug('S07','zt_cstr.c','    if ((s == NULL) || (loc < offset) || (loc >= bufsiz)) {','    if ((s == NULL) || (loc >= bufsiz)) {')
