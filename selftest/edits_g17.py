B="mjs_builtin.c"; E="mjs_exec.c"; J="mjs_json.c"; F="mjs_ffi.c"; O="mjs_object.c"; C="mjs_core.c"; V="mjs_conversion.c"; CF="common/cs_file.c"
EDITS=[
 ("g17-getv-early","G17","catch",[(O,"    ret = mjs_get(mjs, obj, s, n);\n  }","    ret = mjs_get(mjs, obj, s, n);\n    if (ret == MJS_UNDEFINED) return ret;\n  }")]),
 ("g17-getprop-early","G17","catch",[(E,"    if (mjs_is_string(val)) {\n      handled =","    if (!mjs_is_string(val) && n == 0) return 0;\n    if (mjs_is_string(val)) {\n      handled =")]),
 ("g17-getprop-dfree","G17","catch",[(E,"      handled = getprop_builtin_foreign(mjs, val, s, n, res);\n","      handled = getprop_builtin_foreign(mjs, val, s, n, res);\n      if (need_free && !handled) free(s);\n")]),
 ("g17-apply-early","G17","catch",[(E,"  mjs_apply(mjs, &res, func, mjs_arg(mjs, 0), nargs, args);\n  free(args);\n  mjs_return(mjs, res);","  if (mjs_apply(mjs, &res, func, mjs_arg(mjs, 0), nargs, args) != MJS_OK) {\n    mjs_return(mjs, MJS_UNDEFINED);\n    return;\n  }\n  free(args);\n  mjs_return(mjs, res);")]),
 ("g17-json-stmp","G17","catch",[(J,"    json_res = json_walk(stmp, len, frozen_cb, ctx);\n    free(stmp);","    json_res = json_walk(stmp, len, frozen_cb, ctx);\n    if (json_res >= 0) free(stmp);")]),
 ("g17-json-ctx","G17","catch",[(J,"  mjs_disown(mjs, &ctx->result);\n  free(ctx);\n","  mjs_disown(mjs, &ctx->result);\n  if (rcode == MJS_OK) free(ctx);\n")]),
 ("g17-json-ctxuaf","G17","catch",[(J,"  free(ctx);\n\n  return rcode;","  free(ctx);\n\n  return ctx->rcode != MJS_OK ? ctx->rcode : rcode;")]),
 ("g17-stringify-leak","G17","catch",[(J,"  if (rcode != MJS_OK && p != buf) {\n    free(p);","  if (rcode == MJS_OUT_OF_MEMORY && p != buf) {\n    free(p);")]),
 ("g17-op-stringify","G17","catch",[(J,"      ret = mjs_mk_string(mjs, p, ~0, 1 /* copy */);\n      free(p);","      ret = mjs_mk_string(mjs, p, ~0, 1 /* copy */);\n      if (mjs_nargs(mjs) == 1) free(p);")]),
 ("g17-ffi-args","G17","catch",[(F,"    goto clean;\n  }\n\n  /* Get return value, if needed */","    mjs_disown(mjs, &res);\n    return ret;\n  }\n\n  /* Get return value, if needed */")]),
 ("g17-ffi-cbuaf","G17","catch",[(F,"      *pitem = cbargs->next;\n      mjs_ffi_sig_free(&cbargs->sig);\n      free(cbargs);","      mjs_ffi_sig_free(&cbargs->sig);\n      free(cbargs);\n      *pitem = cbargs->next;")]),
 ("g17-ffi-listuaf","G17","catch",[(F,"    ffi_cb_args_t *cur = next;\n    next = next->next;\n    free(cur);","    ffi_cb_args_t *cur = next;\n    free(cur);\n    next = cur->next;")]),
 ("g17-prepend-leak","G17","catch",[(C,"    free(new_error_msg);\n    free(old_error_msg);","    free(old_error_msg);")]),
 ("g17-prepend-leak2","G17","catch",[(C,"    free(new_error_msg);\n    free(old_error_msg);","    free(new_error_msg);")]),
 ("g17-trace-leak","G17","catch",[(C,"      free(old);\n      free(new_line);","      free(new_line);")]),
 ("g17-errmsg-dangling","G17","catch",[(C,"  free(mjs->error_msg);\n  mjs->error_msg = NULL;\n  mjs->error = err;","  free(mjs->error_msg);\n  mjs->error = err;"),(C,"  if (fmt != NULL) {\n    mg_avprintf(&mjs","  if (fmt != NULL) {\n    mjs->error_msg = NULL;\n    mg_avprintf(&mjs")]),
 ("g17-trace-dangling","G17","catch",[(E,"  free(mjs->stack_trace);\n  mjs->stack_trace = NULL;\n","  free(mjs->stack_trace);\n")]),
 ("g17-tostr-flag","G17","catch",[(V,"    memmove(*p, buf, *sizep + 1);\n    *need_free = 1;","    memmove(*p, buf, *sizep + 1);\n    *need_free = *sizep > 1;")]),
 ("g17-execfile-err","G17","catch",[(E,"  error = mjs_exec_internal(mjs, path, source_code, -1, &r);\n  free(source_code);","  error = mjs_exec_internal(mjs, path, source_code, -1, &r);\n  if (error != MJS_OK) goto clean;\n  free(source_code);")]),
 ("g17-jsc-unmap","G17","catch",[(E,"            munmap(data, size);\n","            if (rewrite) munmap(data, size);\n")]),
 ("g17-jsc-fclose","G17","catch",[(E,"            if (fclose(fp) != 0 || n != 1) {","            if (n != 1 || fclose(fp) != 0) {")]),
 ("g17-readfile","G17","catch",[(CF,"        free(data);\n        fclose(fp);\n        return NULL;","        fclose(fp);\n        return NULL;")]),
 ("g17-call-args","G17","catch",[(E,"  ret = mjs_apply(mjs, res, func, this_val, nargs, args);\n\n  free(args);","  ret = mjs_apply(mjs, res, func, this_val, nargs, args);\n  if (nargs > 0) free(args);")]),
 ("g17-mkffi-leak","G17","catch",[(F,"        mjs_ffi_sig_free(sig->cb_sig);\n        free(sig->cb_sig);\n        sig->cb_sig = NULL;","        mjs_ffi_sig_free(sig->cb_sig);\n        free(sig->cb_sig);")]),
 # quiet
 ("g17-q-helper","G17","quiet",[(O,"mjs_val_t mjs_get_v(struct mjs *mjs, mjs_val_t obj, mjs_val_t name) {","static void release_name(char **s, int need) {\n  if (!need) return;\n  free(*s);\n  *s = NULL;\n}\n\nmjs_val_t mjs_get_v(struct mjs *mjs, mjs_val_t obj, mjs_val_t name) {"),(O,"  if (need_free) {\n    free(s);\n    s = NULL;\n  }\n","  release_name(&s, need_free);\n")]),
 ("g17-q-free-both","G17","quiet",[(E,"  mjs_apply(mjs, &res, func, mjs_arg(mjs, 0), nargs, args);\n  free(args);","  mjs_apply(mjs, &res, func, mjs_arg(mjs, 0), nargs, args);\n  if (args != NULL) {\n    free(args);\n    args = NULL;\n  }")]),
 ("g17-q-goto","G17","quiet",[(E,"  r = MJS_UNDEFINED;\n  error = mjs_exec_internal(mjs, path, source_code, -1, &r);\n  free(source_code);\n\nclean:\n","  r = MJS_UNDEFINED;\n  error = mjs_exec_internal(mjs, path, source_code, -1, &r);\n\nclean:\n  free(source_code);\n")]),
 ("g17-q-tmp","G17","quiet",[(C,"      char *old = mjs->stack_trace;\n      mg_asprintf(&mjs->stack_trace, 0, \"%s%s\", mjs->stack_trace, new_line);\n      free(old);\n      free(new_line);","      char *joined = NULL;\n      mg_asprintf(&joined, 0, \"%s%s\", mjs->stack_trace, new_line);\n      free(new_line);\n      free(mjs->stack_trace);\n      mjs->stack_trace = joined;")]),
 ("g17-q-mkframe","G17","quiet",[(J,"  struct json_parse_frame *frame =\n      (struct json_parse_frame *) calloc(sizeof(struct json_parse_frame), 1);\n  frame->val = v;","  struct json_parse_frame *frame = (struct json_parse_frame *) malloc(sizeof(*frame));\n  if (frame == NULL) abort();\n  frame->up = NULL;\n  frame->val = v;")]),
 ("g17-q-stack","G17","quiet",[(J,"  struct json_parse_ctx *ctx =\n      (struct json_parse_ctx *) calloc(sizeof(struct json_parse_ctx), 1);","  struct json_parse_ctx c, *ctx = &c;"),(J,"  free(ctx);\n","")]),
 ("g17-q-nullloop","G17","quiet",[(F,"  while (next != NULL) {\n    ffi_cb_args_t *cur = next;\n    next = next->next;\n    free(cur);\n  }","  for (; next != NULL;) {\n    ffi_cb_args_t *n = next->next;\n    free(next);\n    next = n;\n  }\n  mjs->ffi_cb_args = NULL;")]),
]
