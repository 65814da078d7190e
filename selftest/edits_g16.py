
C="mjs_core.c"; F="mjs_ffi.c"; GC="mjs_gc.c"; B="common/mbuf.c"
EDITS=[
 ("g16-mbuf","G16","catch",[(C,"  mbuf_free(&mjs->loop_addresses);\n","")]),
 ("g16-trace","G16","catch",[(C,"  free(mjs->stack_trace);\n  mjs_ffi_args","  mjs_ffi_args")]),
 ("g16-list","G16","catch",[(F,"    next = next->next;\n    free(cur);","    free(cur);\n    next = next->next;")]),
 ("g16-list-first","G16","catch",[(F,"  while (next != NULL) {\n    ffi_cb_args_t *cur = next;","  if (next != NULL) {\n    ffi_cb_args_t *cur = next;")]),
 ("g16-sweep","G16","catch",[(GC,"    gc_sweep(mjs, a, 0);\n    for (b","    for (b")]),
 ("g16-start","G16","catch",[(GC,"    gc_sweep(mjs, a, 0);\n    for (b","    gc_sweep(mjs, a, 1);\n    for (b")]),
 ("g16-rom","G16","catch",[(C,"      if (!bp->in_rom) {\n        free","      if (bp->data.len) {\n        free")]),
 ("g16-parts","G16","catch",[(C,"    for (i = 0; i < parts_cnt; i++) {","    for (i = 1; i < parts_cnt; i++) {")]),
 ("g16-base","G16","catch",[(GC,"  free(b->base);\n  free(b);","  free(b);")]),
 ("g16-baseafter","G16","catch",[(GC,"  free(b->base);\n  free(b);","  free(b);\n  free(b->base);")]),
 ("g16-blocks","G16","catch",[(GC,"      tmp = b;\n      b = b->next;\n      gc_free_block(tmp);","      tmp = b;\n      gc_free_block(tmp);\n      b = b->next;")]),
 ("g16-cbfree1","G16","catch",[(F,"    while (*(pitem = ffi_get_matching(&mjs->ffi_cb_args, func, userdata,\n                                      NULL)) != NULL) {","    if (*(pitem = ffi_get_matching(&mjs->ffi_cb_args, func, userdata,\n                                      NULL)) != NULL) {")]),
 ("g16-cbunlink","G16","catch",[(F,"      *pitem = cbargs->next;\n      mjs_ffi_sig_free","      mjs->ffi_cb_args = cbargs->next;\n      mjs_ffi_sig_free")]),
 ("g16-match","G16","catch",[(F,"    if ((*plist)->func == func && (*plist)->userdata == userdata &&","    if ((*plist)->func == func &&")]),
 ("g16-size","G16","catch",[(C,"  gc_arena_init(&mjs->property_arena, sizeof(struct mjs_property),","  gc_arena_init(&mjs->property_arena, sizeof(struct mjs_object),")]),
 ("g16-dtor","G16","catch",[(C,"  mjs->ffi_sig_arena.destructor = mjs_ffi_sig_destructor;\n","")]),
 ("g16-dtor-arena","G16","catch",[(C,"  mjs->ffi_sig_arena.destructor = mjs_ffi_sig_destructor;\n","  mjs->property_arena.destructor = mjs_ffi_sig_destructor;\n")]),
 ("g16-sigfree","G16","catch",[(F,"  if (sig->cb_sig != NULL) {\n    free(sig->cb_sig);\n    sig->cb_sig = NULL;","  if (sig->cb_sig != NULL && sig->is_valid) {\n    free(sig->cb_sig);\n    sig->cb_sig = NULL;")]),
 ("g16-mfree","G16","catch",[(B,"    MBUF_FREE(mbuf->buf);\n    mbuf_init(mbuf, 0);","    MBUF_FREE(mbuf->buf);\n    mbuf->len = mbuf->size = 0;")]),
 ("g16-order","G16","catch",[(C,"  gc_arena_destroy(mjs, &mjs->ffi_sig_arena);\n  free(mjs);","  free(mjs);\n  gc_arena_destroy(mjs, &mjs->ffi_sig_arena);")]),
 ("g16-q-order","G16","quiet",[(C,"  gc_arena_destroy(mjs, &mjs->object_arena);\n  gc_arena_destroy(mjs, &mjs->property_arena);\n  gc_arena_destroy(mjs, &mjs->ffi_sig_arena);\n","  gc_arena_destroy(mjs, &mjs->ffi_sig_arena);\n  gc_arena_destroy(mjs, &mjs->property_arena);\n  gc_arena_destroy(mjs, &mjs->object_arena);\n")]),
 ("g16-q-list","G16","quiet",[(F,"  while (next != NULL) {\n    ffi_cb_args_t *cur = next;\n    next = next->next;\n    free(cur);\n  }","  for (; next != NULL;) {\n    ffi_cb_args_t *after = next->next;\n    free(next);\n    next = after;\n  }\n  mjs->ffi_cb_args = NULL;")]),
 ("g16-q-parts","G16","quiet",[(C,"    for (i = 0; i < parts_cnt; i++) {\n      struct mjs_bcode_part *bp = mjs_bcode_part_get(mjs, i);\n      if (!bp->in_rom) {\n        free((void *) bp->data.p);\n      }\n    }","    for (i = parts_cnt; i-- > 0;) {\n      struct mjs_bcode_part *bp = mjs_bcode_part_get(mjs, i);\n      if (bp->in_rom) continue;\n      free((void *) bp->data.p);\n    }")]),
 ("g16-q-helper","G16","quiet",[(C,"void mjs_destroy(struct mjs *mjs) {","static void free_texts(struct mjs *mjs) {\n  free(mjs->error_msg);\n  mjs->error_msg = NULL;\n  free(mjs->stack_trace);\n}\n\nvoid mjs_destroy(struct mjs *mjs) {"),(C,"  free(mjs->error_msg);\n  free(mjs->stack_trace);\n  mjs_ffi_args","  free_texts(mjs);\n  mjs_ffi_args")]),
 ("g16-q-cbfree","G16","quiet",[(F,"    while (*(pitem = ffi_get_matching(&mjs->ffi_cb_args, func, userdata,\n                                      NULL)) != NULL) {","    for (;;) {\n      pitem = ffi_get_matching(&mjs->ffi_cb_args, func, userdata, NULL);\n      if (*pitem == NULL) break;\n      {"),(F,"      free(cbargs);\n      ret = mjs_mk_number(mjs, 1);\n    }","      free(cbargs);\n      ret = mjs_mk_number(mjs, 1);\n    }}")]),
]
