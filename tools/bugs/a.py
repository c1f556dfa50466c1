F='zt_base.c'
bug('B02',F,'''    for (i=in_bytes-1; i > 0; i--) {
        if (inp[i] != def->pad) {''','''    for (i=in_bytes-1; i > 0 && in_bytes - i <= def->ogroups; i--) {
        if (inp[i] != def->pad && def->dictionary[inp[i]] != -2) {''')
bug('B02',F,'''    if (*out != NULL && *out_bytes < ocount) {
        *out_bytes = ocount;''','''    if (*out != NULL && *out_bytes < ocount - mod) {
        *out_bytes = ocount;''')
bug('B01',F,'''            ocount += mod + 1;''','''            ocount += (mod * def->obits) % 8 ? mod + 1 : mod;''')
bug('B02',F,'''        if (!(outp = zt_calloc(unsigned char, ocount+1))) {''','''        if (!(outp = zt_calloc(unsigned char, (lcount * def->igroups)+1))) {''')
bug('B02',F,'''    if (cnt > 0) {
        /* a single''','''    if (cnt > 1) {
        /* a single''')
bug('B02',F,'''            case 6:
                return -1;
                break;''','''            case 6:
                *out++ = buf[0] << 3 | buf[1] >> 2;
                *out++ = buf[1] << 6 | buf[2] << 1 | buf[3] >> 4;
                *out++ = buf[3] << 4 | buf[4] >> 1;
                obytes += 3;
                break;''')
bug('B01',F,'''        const unsigned int b2 = (mod > 2) ? *in++ : 0;
        const unsigned int b3''','''        const unsigned int b2 = *in++;
        const unsigned int b3''')
F='zt_mem.c'
bug('M01',F,'''        if (elts > (ssize_t)*epp) {
            *npages''','''        if (elts >= (ssize_t)*epp * 2) {
            *npages''') # equivalent-ish
bug('M01',F,'''    /* if we have used the first elt then decrement the free pages */
    if (elt->parent_page->num_free_elts == pool->elts_per_page - 1) {''','''    /* if we have used the first elt then decrement the free pages */
    if (elt->parent_page->num_free_elts == 0) {''')
bug('M01',F,'''    /* add the element to the pools free elt list */
    page->num_free_elts++;
    zt_elist_add(&pool->free_elt_list, &elt->free_elt_list);
''','''    /* add the element to the pools free elt list */
    page->num_free_elts++;
    if (zt_elist_empty(&pool->free_elt_list)) {
        zt_elist_reset(&pool->free_elt_list);
    }
    zt_elist_add_tail(pool->free_elt_list.next, &elt->free_elt_list);
''') # equivalent
bug('M01',F,'''    for (i = 0; i < page->num_free_elts; i++) {
        if (zt_elist_empty(&elt->free_elt_list) == 0) {''','''    for (i = 0; i < page->parent_pool->ncache; i++) {
        if (zt_elist_empty(&elt->free_elt_list) == 0) {''')
bug('M01',F,'''        *page_size = (elts * (sizeof(zt_mem_elt) + size)) + sizeof(zt_mem_page);''','''        *page_size = (elts * (sizeof(zt_mem_elt) + size)) + sizeof(zt_mem_page) - sizeof(unsigned long);''')
bug('M01',F,'''    if (size < (usable_page_size / 2)) {
        *epp = usable_page_size / (sizeof(zt_mem_elt) + size);''','''    if (size < (usable_page_size / 2)) {
        *epp = usable_page_size / size;
        if (*epp * (sizeof(zt_mem_elt) + size) > usable_page_size) *epp -= *epp * sizeof(zt_mem_elt) / size;
        if (*epp == 0) *epp = 1;''')
bug('M01',F,'''        if (size <= group->pools[i]->elt_size &&
            (best''','''        if (size < group->pools[i]->elt_size + (i == 0) &&
            (best''')
bug('M01',F,'''        if (zt_mem_pool_destroy(&group->pools[i]) != 0) {
            ret = -1;
        }''','''        ret = zt_mem_pool_destroy(&group->pools[i]);''')
bug('M01',F,'''        if (page->num_free_elts < (*pool)->elts_per_page) {
            return -1;''','''        if (page->num_free_elts == 0) {
            return -1;''')
bug('M01',F,'''    if (flags & POOL_NEVER_FREE) {
        return 0;''','''    if (flags == POOL_NEVER_FREE && free_elts <= req_elts) {
        return 0;''','size_t req_elts UNUSED, size_t free_elts UNUSED','size_t req_elts, size_t free_elts')
bug('M01',F,'''        if (olen == nlen && (strncmp''','''        if (olen >= nlen && (strncmp''')
bug('M01',F,'''pool->release_test_cb = release_test ? release_test : zt_default_release_test;''','''pool->release_test_cb = release_test && !(flags & POOL_NEVER_FREE) ? release_test : zt_default_release_test;''')
F='zt_unit.c'
bug('Q01',F,'''    if (test->error) {
        zt_free(test->error);
        test->error = NULL;
    }

    yaml_dict''','''    yaml_dict''')
bug('Q01',F,'''    test->success = FALSE;
    test->assertions = 0;
    test->exceptions = 0;''','''    test->success = FALSE;
    test->assertions = 0;''')
bug('Q01',F,'''    if(suite->try_fn(suite, test)) {
        test_passed(test);
    }

    if (suite->teardown_fn) {
        suite->teardown_fn(suite->data);
    }''','''    if(suite->try_fn(suite, test)) {
        test_passed(test);
        if (suite->teardown_fn) {
            suite->teardown_fn(suite->data);
        }
    }''')
bug('Q01',F,'''    if (setjmp(test->env) == 0) {
        test->test_fn(test, suite->data);
        return 1;
    }
    return 0;''','''    volatile int entered = test->exceptions;
    if (setjmp(test->env) == 0) {
        test->test_fn(test, suite->data);
        return 1;
    }
    return test->exceptions > entered;''')
bug('Q01',F,'''            if (unit_test->success != TRUE) {
                yaml''','''            if (unit_test->success == FALSE && unit_test->error) {
                yaml''')
bug('Q01',F,'''    if (zt_unit_run_test(unit, unit_suite, unit_test) == FALSE) {
        unit->failures += 1;
    }''','''    if (zt_unit_run_test(unit, unit_suite, unit_test) == FALSE) {
        unit->failures = unit_suite->failed + 1;
        result = -1;
    }''')
bug('Q01',F,'''            if (zt_unit_run_by_name(unit, argv[i]) < 0) {
                printf("Suite or Test \\"%s\\" not found\\n", argv[i]);
                result = -1;
            }''','''            if ((result = zt_unit_run_by_name(unit, argv[i])) < 0) {
                printf("Suite or Test \\"%s\\" not found\\n", argv[i]);
            }''')
bug('Q01',F,'''        if (len == strlen(unit_suite->name)) {
            if (strncmp(unit_suite->name, targetv[0], len) == 0) {''','''        if (len <= strlen(unit_suite->name)) {
            if (strncmp(unit_suite->name, targetv[0], len) == 0) {''')
bug('Q01',F,'''    if (result == 0) {
        if (unit->failures > 0) {
            result = -1;
        }
    }''','''    if (result == 0 && argc == 1) {
        if (unit->failures > 0) {
            result = -1;
        }
    }''')
bug('Q01',F,'''    if (count <= 0 || count > 2 || targetv[count - 1] == NULL) {''','''    if (count <= 0 || targetv[0] == NULL) {''')
bug('Q01',F,'''        if (unit_test->assertions == 0 && unit_test->exceptions == 0) {
          suite->empty++;''','''        if (unit_test->assertions == 0 && result == TRUE) {
          suite->empty++;''')
F='zt_gc.c'
bug('G01',F,'''    /* behind the scan position so that it is still scanned in this cycle */
    zt_elist_add_tail(gc->grey, &mark->list);
    ZT_BIT''','''    zt_elist_add(gc->grey, &mark->list);
    ZT_BIT''')
bug('G01',F,'''        gc->clear_white(mark);
        gc->mark_fn(gc, gc->private_data, elt);
''','''        gc->mark_fn(gc, gc->private_data, elt);
        gc->clear_white(mark);
''')
bug('G01',F,'''        if (!is_protected(mark)) {
            /* if''','''        if (!is_protected(mark) && !(gc->enabled < -1)) {
            /* if''')
bug('G01',F,'''    if (!is_protected(mark) && gc->is_white(mark)) {''','''    if (gc->is_white(mark)) {''')
bug('G01',F,'''    zt_elist_reset(&mark->list);
    gc->clear_white(mark);
    /* The mutator''','''    zt_elist_reset(&mark->list);
    if (gc->scan != gc->grey) gc->clear_white(mark);
    /* The mutator''')
bug('G01',F,'''    gc->enabled--;

    zt_gc_free_white(gc);
''','''    zt_gc_free_white(gc);
    gc->enabled--;
''')
bug('G01',F,'''    zt_gc_collect(gc, TRUE);

    zt_elist_for_each_safe(gc->white''','''    if (gc->scan == gc->grey) zt_gc_collect(gc, TRUE);

    zt_elist_for_each_safe(gc->white''')
bug('G01',F,'''    zt_elist_for_each_safe(gc->grey, elt, dont_use) {
        zt_elist_remove(elt);''','''    zt_elist_for_each_safe(gc->grey, elt, dont_use) {
        if (!is_protected(zt_elist_data(elt, zt_gc_collectable_t, list)))
        zt_elist_remove(elt);''')
bug('G01',F,'''    zt_elist_for_each_safe(gc->white, elt, dont_use) {
        mark = zt_elist_data(elt, zt_gc_collectable_t, list);
        cb(mark, cb_data, 2);
    }''','''    if (gc->scan == gc->grey) zt_elist_for_each_safe(gc->white, elt, dont_use) {
        mark = zt_elist_data(elt, zt_gc_collectable_t, list);
        cb(mark, cb_data, 2);
    }''')
bug('G01',F,'''        (!full_scan && gc->current_allocs < gc->allocs_before_scan)) {''','''        gc->current_allocs < gc->allocs_before_scan) {''')
bug('G01',F,'''    if (gc->enabled == 0 && gc->current_allocs >= gc->allocs_before_scan) {''','''    if (gc->current_allocs >= gc->allocs_before_scan) {
        gc->enabled = 0;''')
