B="mjs_builtin.c"; E="mjs_exec.c"; J="mjs_json.c"; F="mjs_ffi.c"; O="mjs_object.c"; C="mjs_core.c"
EDITS=[
 ("g02-dogc","G02","catch",[(B,"  mjs_return(mjs, mjs_arg(mjs, 0));\n}\n\nstatic void mjs_s2o","  mjs_return(mjs, arg0);\n}\n\nstatic void mjs_s2o")]),
 ("g02-applythis","G02","catch",[(E,"  /* Push callable which will be later replaced with the return value */\n  mjs_push(mjs, func);\n","  mjs_val_t keep = mjs->vals.this_obj;\n  mjs_push(mjs, func);\n"),(E,"  if (res != NULL) *res = r;\n\n  return mjs->error;","  mjs->vals.this_obj = keep;\n  if (res != NULL) *res = r;\n\n  return mjs->error;")]),
 ("g02-apply-argsarr","G02","catch",[(E,"  mjs_apply(mjs, &res, func, mjs_arg(mjs, 0), nargs, args);","    mjs_val_t tv = mjs_arg(mjs, 0);\n    mjs_apply(mjs, &res, func, tv, nargs, args);\n    if (mjs_is_undefined(res)) res = tv;")]),
 ("g02-jsonearly","G02","catch",[(J,"          mjs_prepend_errorf(ctx->mjs, MJS_TYPE_ERROR, \"invalid JSON string\");\n          break;","          mjs_prepend_errorf(ctx->mjs, MJS_TYPE_ERROR, \"invalid JSON string\");\n          free(dst);\n          return;")]),
 ("g02-jsonctx","G02","catch",[(J,"  mjs_disown(mjs, &ctx->result);\n","  if (rcode == MJS_OK) mjs_disown(mjs, &ctx->result);\n")]),
 ("g02-jsonframe","G02","catch",[(J,"  mjs_disown(ctx->mjs, &frame->val);\n","")]),
 ("g02-ffiearly","G02","catch",[(F,"    mjs_print_error(mjs, stderr, \"MJS callback error\",\n                    1 /* print_stack_trace */);\n\n    goto clean;","    mjs_print_error(mjs, stderr, \"MJS callback error\",\n                    1 /* print_stack_trace */);\n    free(args);\n    return ret;")]),
 ("g02-structearly","G02","catch",[(O,"    mjs_set(mjs, obj, def->name, ~0, v);\n","    if (mjs_set(mjs, obj, def->name, ~0, v) != MJS_OK) return MJS_UNDEFINED;\n")]),
 ("g02-structnoown","G02","catch",[(O,"  mjs_own(mjs, &obj);\n",""),(O,"  mjs_disown(mjs, &obj);\n","")]),
 ("g02-disownlast","G02","catch",[(C,"      *vp = *(mjs_val_t **) (mjs->owned_values.buf + mjs->owned_values.len -\n                             sizeof(v));\n","")]),
 ("g02-disownkeep","G02","catch",[(C,"      mjs->owned_values.len -= sizeof(v);\n","")]),
 ("g02-disownany","G02","catch",[(C,"    if (*vp == v) {\n      *vp","    if (*vp == v || **vp == *v) {\n      *vp")]),
 ("g02-ownskip","G02","catch",[(C,"  mbuf_append(&mjs->owned_values, &v, sizeof(v));","  if (*v != MJS_UNDEFINED) mbuf_append(&mjs->owned_values, &v, sizeof(v));")]),
 ("g02-q-number","G02","quiet",[(B,"  mjs_return(mjs, mjs_arg(mjs, 0));\n}\n\nstatic void mjs_s2o","  mjs_return(mjs, mjs_is_number(arg0) ? arg0 : mjs_arg(mjs, 0));\n}\n\nstatic void mjs_s2o")]),
 ("g02-q-helper","G02","quiet",[(J,"  mjs_disown(mjs, &ctx->result);\n  free(ctx);\n","  fini(mjs, ctx);\n"),(J,"MJS_PRIVATE mjs_err_t\nmjs_json_parse(","static void fini(struct mjs *mjs, struct json_parse_ctx *c) {\n  mjs_disown(mjs, &c->result);\n  free(c);\n}\nMJS_PRIVATE mjs_err_t\nmjs_json_parse(")]),
 ("g02-q-multi","G02","quiet",[(J,"          mjs_prepend_errorf(ctx->mjs, MJS_TYPE_ERROR, \"invalid JSON string\");\n          break;","          mjs_prepend_errorf(ctx->mjs, MJS_TYPE_ERROR, \"invalid JSON string\");\n          free(dst);\n          mjs_disown(ctx->mjs, &v);\n          return;")]),
 ("g02-q-owned","G02","quiet",[(B,"  mjs_val_t arg0 = mjs_arg(mjs, 0);\n  mjs_gc(","  mjs_val_t arg0 = mjs_arg(mjs, 0);\n  mjs_own(mjs, &arg0);\n  mjs_gc("),(B,"  mjs_return(mjs, mjs_arg(mjs, 0));\n}\n\nstatic void mjs_s2o","  mjs_disown(mjs, &arg0);\n  mjs_return(mjs, arg0);\n}\n\nstatic void mjs_s2o")]),
 ("g02-q-disownfwd","G02","quiet",[(C,"  mjs_val_t **vp = (mjs_val_t **) (mjs->owned_values.buf +\n                                   mjs->owned_values.len - sizeof(v));\n\n  for (; (char *) vp >= mjs->owned_values.buf; vp--) {\n","  mjs_val_t **vp = (mjs_val_t **) mjs->owned_values.buf;\n  for (; (char *) vp < mjs->owned_values.buf + mjs->owned_values.len; vp++) {\n")]),
 ("g02-q-move","G02","quiet",[(F,"clean:\n  free(args);\n  mjs_disown(mjs, &res);\n","clean:\n  mjs_disown(mjs, &res);\n  if (args != NULL) free(args);\n")]),
]
