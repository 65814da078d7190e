E="mjs_exec.c"; B="mjs_builtin.c"; C="mjs_core.c"; F="mjs_ffi.c"
SAVE="  int stack_len = mjs->stack.len;\n  int call_stack_len = mjs->call_stack.len;\n  int arg_stack_len = mjs->arg_stack.len;\n  int scopes_len = mjs->scopes.len;\n  int loop_addresses_len = mjs->loop_addresses.len;\n"
REST="      mjs->stack.len = stack_len;\n      mjs->call_stack.len = call_stack_len;\n      mjs->arg_stack.len = arg_stack_len;\n      mjs->scopes.len = scopes_len;\n      mjs->loop_addresses.len = loop_addresses_len;\n"
CF="          ((void (*) (struct mjs *)) mjs_get_ptr(mjs, *func))(mjs);\n\n          call_stack_restore_frame(mjs);\n"
EDITS=[
 ("g04-err-arg","G04","catch",[(E,"      mjs->arg_stack.len = arg_stack_len;\n","")]),
 ("g04-err-loop","G04","catch",[(E,"      mjs->loop_addresses.len = loop_addresses_len;\n","")]),
 ("g04-err-scopes","G04","catch",[(E,"      mjs->scopes.len = scopes_len;\n","      if (scopes_len == 0) mjs->scopes.len = scopes_len;\n")]),
 ("g04-err-swap","G04","catch",[(E,"      mjs->scopes.len = scopes_len;\n","      mjs->scopes.len = loop_addresses_len;\n")]),
 ("g04-err-call","G04","catch",[(E,"      mjs->call_stack.len = call_stack_len;\n","")]),
 ("g04-err-push","G04","catch",[(E,"      mjs_push(mjs, MJS_UNDEFINED);\n      break;\n    }\n  }\n\nclean:","      mjs_push(mjs, MJS_UNDEFINED);\n      mjs_push(mjs, MJS_UNDEFINED);\n      break;\n    }\n  }\n\nclean:")]),
 ("g04-err-this","G04","catch",[(E,"      if ((int) mjs->call_stack.len > call_stack_len) {\n        mjs->vals.this_obj = *(mjs_val_t *) (mjs->call_stack.buf +\n                                             call_stack_len);\n      }\n","")]),
 ("g04-cfunc-frame","G04","catch",[(E,CF,"          ((void (*) (struct mjs *)) mjs_get_ptr(mjs, *func))(mjs);\n\n          if (mjs->error == MJS_OK) call_stack_restore_frame(mjs);\n          if (mjs->error != MJS_OK) mjs_set_errorf(mjs, MJS_OK, NULL);\n")]),
 ("g04-cfunc-frame2","G04","catch",[(E,CF,"          ((void (*) (struct mjs *)) mjs_get_ptr(mjs, *func))(mjs);\n\n          if (mjs->vals.this_obj != MJS_UNDEFINED) call_stack_restore_frame(mjs);\n")]),
 ("g04-apply-native","G04","catch",[(E,"    call_stack_restore_frame(mjs);\n    r = mjs_pop(mjs);\n","    r = mjs_pop(mjs);\n")]),
 ("g04-apply-err","G04","catch",[(E,"      // Pop cell at which the returned value should've been written\n      mjs_pop(mjs);\n","")]),
 ("g04-apply-err2","G04","catch",[(E,"    if (mjs->error != MJS_OK) {\n      call_stack_restore_frame(mjs);\n","    if (mjs->error != MJS_OK && mjs->error != MJS_TYPE_ERROR) {\n      call_stack_restore_frame(mjs);\n")]),
 ("g04-layout","G04","catch",[(E,"  loop_addr_index = mjs_get_int(mjs, mjs_pop_val(&mjs->call_stack));\n  scope_index = mjs_get_int(mjs, mjs_pop_val(&mjs->call_stack));\n","  scope_index = mjs_get_int(mjs, mjs_pop_val(&mjs->call_stack));\n  loop_addr_index = mjs_get_int(mjs, mjs_pop_val(&mjs->call_stack));\n")]),
 ("g04-this-early","G04","catch",[(E,"  push_mjs_val(&mjs->call_stack, mjs->vals.this_obj);\n  mjs->vals.this_obj = this_obj;\n","  mjs->vals.this_obj = this_obj;\n  push_mjs_val(&mjs->call_stack, mjs->vals.this_obj);\n")]),
 ("g04-noscopes","G04","catch",[(E,"  while (mjs_stack_size(&mjs->scopes) > scope_index) {\n    mjs_pop_val(&mjs->scopes);\n  }\n","  if (mjs_stack_size(&mjs->scopes) > scope_index) {\n    mjs_pop_val(&mjs->scopes);\n  }\n")]),
 ("g04-noloops","G04","catch",[(E,"  while (mjs_stack_size(&mjs->loop_addresses) > loop_addr_index) {","  while (mjs_stack_size(&mjs->loop_addresses) > loop_addr_index + 3) {")]),
 ("g04-stack-idx","G04","catch",[(E,"  mjs->stack.len = retval_stack_idx * sizeof(mjs_val_t);","  mjs->stack.len = (retval_stack_idx + 1) * sizeof(mjs_val_t);")]),
 ("g04-load-pop","G04","catch",[(B,"      goto clean;\n    }\n\n  clean:\n    if (custom_global) {","      goto clean;\n    }\n\n  clean:\n    if (custom_global && ret == MJS_OK) {")]),
 ("g04-load-pop2","G04","catch",[(B,"  mjs_val_t arg0 = mjs_arg(mjs, 0);\n  mjs_val_t arg1 = mjs_arg(mjs, 1);\n  int custom","  mjs_val_t arg0 = mjs_arg(mjs, 0);\n  mjs_val_t arg1 = mjs_arg(mjs, 1);\n  int custom"),(B,"    mjs_err_t ret;\n\n    if (mjs_is_object(arg1)) {","    mjs_err_t ret;\n\n    if (path == NULL) push_mjs_val(&mjs->scopes, arg0);\n    if (mjs_is_object(arg1)) {")]),
 ("g04-call-arg","G04","catch",[(E,"          mjs_set_errorf(mjs, MJS_TYPE_ERROR, \"calling non-callable\");\n        }\n        break;","          mjs_set_errorf(mjs, MJS_TYPE_ERROR, \"calling non-callable\");\n        }\n        if (func_pos == 0) mjs_pop_val(&mjs->arg_stack);\n        break;")]),
 ("g04-q-struct","G04","quiet",[(E,SAVE,"  struct { int s, c, a, sc, l; } saved;\n  int call_stack_len = mjs->call_stack.len;\n  saved.s = mjs->stack.len;\n  saved.c = mjs->call_stack.len;\n  saved.a = mjs->arg_stack.len;\n  saved.sc = mjs->scopes.len;\n  saved.l = mjs->loop_addresses.len;\n"),(E,REST,"      mjs->stack.len = saved.s;\n      mjs->call_stack.len = saved.c;\n      mjs->arg_stack.len = saved.a;\n      mjs->scopes.len = saved.sc;\n      mjs->loop_addresses.len = saved.l;\n")]),
 ("g04-q-size","G04","quiet",[(E,"  int scopes_len = mjs->scopes.len;\n","  int scopes_len = mjs_stack_size(&mjs->scopes);\n"),(E,"      mjs->scopes.len = scopes_len;\n","      mjs->scopes.len = scopes_len * sizeof(mjs_val_t);\n")]),
 ("g04-q-helper","G04","quiet",[(E,"MJS_PRIVATE mjs_err_t mjs_execute(","static void set_lens(struct mjs *mjs, int a, int b) {\n  mjs->scopes.len = a;\n  mjs->loop_addresses.len = b;\n}\nMJS_PRIVATE mjs_err_t mjs_execute("),(E,"      mjs->scopes.len = scopes_len;\n      mjs->loop_addresses.len = loop_addresses_len;\n","      set_lens(mjs, scopes_len, loop_addresses_len);\n")]),
 ("g04-q-order","G04","quiet",[(E,"  push_mjs_val(\n      &mjs->call_stack,\n      mjs_mk_number(mjs, (double) mjs_stack_size(&mjs->loop_addresses)));\n  push_mjs_val(&mjs->call_stack, retval_stack_idx);\n","  {\n    mjs_val_t l = mjs_mk_number(mjs, (double) mjs_stack_size(&mjs->loop_addresses));\n    push_mjs_val(&mjs->call_stack, l);\n    push_mjs_val(&mjs->call_stack, retval_stack_idx);\n  }\n")]),
 ("g04-q-setlen","G04","quiet",[(E,"  while (mjs_stack_size(&mjs->scopes) > scope_index) {\n    mjs_pop_val(&mjs->scopes);\n  }\n","  if (mjs_stack_size(&mjs->scopes) > scope_index) {\n    mjs->scopes.len = scope_index * sizeof(mjs_val_t);\n  }\n")]),
 ("g04-q-callnative","G04","quiet",[(E,"static void mjs_apply_(struct mjs *mjs) {","static void call_native(struct mjs *mjs, mjs_val_t f) {\n  ((void (*) (struct mjs *)) mjs_get_ptr(mjs, f))(mjs);\n  call_stack_restore_frame(mjs);\n}\n\nstatic void mjs_apply_(struct mjs *mjs) {"),(E,CF,"          call_native(mjs, *func);\n")]),
 ("g04-q-applyloop","G04","quiet",[(E,"  for (i = 0; i < nargs; i++) {\n    mjs_push(mjs, args[i]);\n  }\n","  i = 0;\n  while (i < nargs) mjs_push(mjs, args[i++]);\n")]),
 ("g04-q-err-invert","G04","quiet",[(E,"    if (mjs->error != MJS_OK) {\n      /*\n       * restore `this`","    if (mjs->error == MJS_OK) continue;\n    {\n      /*\n       * restore `this`")]),
]
