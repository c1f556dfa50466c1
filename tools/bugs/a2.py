F='zt_unit.c'
bug('Q01',F,'''    if (test->error) {
        zt_free(test->error);
        test->error = NULL;
    }

    yaml_dict''','''    yaml_dict''')
bug('Q01',F,'''    test->success = FALSE;
    test->assertions = 0;
    test->exceptions = 0;''','''    test->success = FALSE;
    test->assertions = 0;''')
bug('Q01',F,'''    if(suite->try_fn(suite, test)) {
        test_passed(test);
    }

    if (suite->teardown_fn) {
        suite->teardown_fn(suite->data);
    }''','''    if(suite->try_fn(suite, test)) {
        test_passed(test);
        if (suite->teardown_fn) {
            suite->teardown_fn(suite->data);
        }
    }''')
bug('Q01',F,'''    if (setjmp(test->env) == 0) {
        test->test_fn(test, suite->data);
        return 1;
    }
    return 0;''','''    volatile int entered = test->exceptions;
    if (setjmp(test->env) == 0) {
        test->test_fn(test, suite->data);
        return 1;
    }
    return test->exceptions > entered;''')
bug('Q01',F,'''            if (unit_test->success != TRUE) {
                yaml''','''            if (unit_test->success == FALSE && unit_test->error) {
                yaml''')
bug('Q01',F,'''    if (zt_unit_run_test(unit, unit_suite, unit_test) == FALSE) {
        unit->failures += 1;
    }''','''    if (zt_unit_run_test(unit, unit_suite, unit_test) == FALSE) {
        unit->failures = unit_suite->failed + 1;
        result = -1;
    }''')
bug('Q01',F,'''            if (zt_unit_run_by_name(unit, argv[i]) < 0) {
                printf("Suite or Test \\"%s\\" not found\\n", argv[i]);
                result = -1;
            }''','''            if ((result = zt_unit_run_by_name(unit, argv[i])) < 0) {
                printf("Suite or Test \\"%s\\" not found\\n", argv[i]);
            }''')
bug('Q01',F,'''        if (len == strlen(unit_suite->name)) {
            if (strncmp(unit_suite->name, targetv[0], len) == 0) {''','''        if (len <= strlen(unit_suite->name)) {
            if (strncmp(unit_suite->name, targetv[0], len) == 0) {''')
bug('Q01',F,'''    if (result == 0) {
        if (unit->failures > 0) {
            result = -1;
        }
    }''','''    if (result == 0 && argc == 1) {
        if (unit->failures > 0) {
            result = -1;
        }
    }''')
bug('Q01',F,'''    if (count <= 0 || count > 2 || targetv[count - 1] == NULL) {''','''    if (count <= 0 || targetv[0] == NULL) {''')
bug('Q01',F,'''        if (unit_test->assertions == 0 && unit_test->exceptions == 0) {
          suite->empty++;''','''        if (unit_test->assertions == 0 && result == TRUE) {
          suite->empty++;''')
F='zt_gc.c'
bug('G01',F,'''    /* behind the scan position so that it is still scanned in this cycle */
    zt_elist_add_tail(gc->grey, &mark->list);
    ZT_BIT''','''    zt_elist_add(gc->grey, &mark->list);
    ZT_BIT''')
bug('G01',F,'''        gc->clear_white(mark);
        gc->mark_fn(gc, gc->private_data, elt);
''','''        gc->mark_fn(gc, gc->private_data, elt);
        gc->clear_white(mark);
''')
bug('G01',F,'''        if (!is_protected(mark)) {
            /* if''','''        if (!is_protected(mark) && !(gc->enabled < -1)) {
            /* if''')
bug('G01',F,'''    if (!is_protected(mark) && gc->is_white(mark)) {''','''    if (gc->is_white(mark)) {''')
bug('G01',F,'''    zt_elist_reset(&mark->list);
    gc->clear_white(mark);
    /* The mutator''','''    zt_elist_reset(&mark->list);
    if (gc->scan != gc->grey) gc->clear_white(mark);
    /* The mutator''')
bug('G01',F,'''    gc->enabled--;

    zt_gc_free_white(gc);
''','''    zt_gc_free_white(gc);
    gc->enabled--;
''')
bug('G01',F,'''    zt_gc_collect(gc, TRUE);

    zt_elist_for_each_safe(gc->white''','''    if (gc->scan == gc->grey) zt_gc_collect(gc, TRUE);

    zt_elist_for_each_safe(gc->white''')
bug('G01',F,'''    zt_elist_for_each_safe(gc->grey, elt, dont_use) {
        zt_elist_remove(elt);''','''    zt_elist_for_each_safe(gc->grey, elt, dont_use) {
        if (!is_protected(zt_elist_data(elt, zt_gc_collectable_t, list)))
        zt_elist_remove(elt);''')
bug('G01',F,'''    zt_elist_for_each_safe(gc->white, elt, dont_use) {
        mark = zt_elist_data(elt, zt_gc_collectable_t, list);
        cb(mark, cb_data, 2);
    }''','''    if (gc->scan == gc->grey) zt_elist_for_each_safe(gc->white, elt, dont_use) {
        mark = zt_elist_data(elt, zt_gc_collectable_t, list);
        cb(mark, cb_data, 2);
    }''')
bug('G01',F,'''        (!full_scan && gc->current_allocs < gc->allocs_before_scan)) {''','''        gc->current_allocs < gc->allocs_before_scan) {''')
bug('G01',F,'''    if (gc->enabled == 0 && gc->current_allocs >= gc->allocs_before_scan) {''','''    if (gc->current_allocs >= gc->allocs_before_scan) {
        gc->enabled = 0;''')
