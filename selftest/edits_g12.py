F="ffi/ffi.c"; M="mjs_ffi.c"
EDITS=[
 # G12
 ("g12-swap","G12","catch",[(F,"                wwfw_t f = (wwfw_t) func;\n                r = f(W(args[0]), F(args[1]), W(args[2]));","                wwfw_t f = (wwfw_t) func;\n                r = f(W(args[2]), F(args[1]), W(args[0]));")]),
 ("g12-type","G12","catch",[(F,"dwdw_t f = (dwdw_t) func;\n              r = f(W(args[0]), D(args[1]), W(args[2]));","dwwd_t f = (dwwd_t) func;\n              r = f(W(args[0]), W(args[1]), D(args[2]));")]),
 ("g12-typedef","G12","catch",[(F,"typedef float (*fwwf_t)(ffi_word_t, ffi_word_t, float);","typedef double (*fwwf_t)(ffi_word_t, ffi_word_t, float);")]),
 ("g12-member","G12","catch",[(F,"      res->v.f = r;","      res->v.d = r;")]),
 ("g12-bool","G12","catch",[(F,"            b5w_t f = (b5w_t) func;","            w5w_t f = (w5w_t) func;")]),
 ("g12-six","G12","catch",[(F,"          d6w_t f = (d6w_t) func;\n          r = f(W(args[0]), W(args[1]), W(args[2]), W(args[3]), W(args[4]),\n                W(args[5]));","          d6w_t f = (d6w_t) func;\n          r = f(W(args[0]), W(args[1]), W(args[2]), W(args[3]), W(args[4]),\n                W(args[4]));")]),
 ("g12-refuse6","G12","catch",[(F,"  if (nargs > 6) return -1;","  if (nargs > 5) return -1;")]),
 ("g12-cond","G12","catch",[(F,"            if (IS_D(args[0]) && IS_D(args[1])) {\n              ddd_t","            if (IS_D(args[0]) || IS_D(args[1])) {\n              ddd_t")]),
 ("g12-count","G12","catch",[(F,"    floats += (IS_F(args[i]));","    floats = (IS_F(args[i]));")]),
 ("g12-seven","G12","catch",[(F,"  if (nargs > 6) return -1;\n","")]),
 ("g12-q-loop","G12","quiet",[(F,"  for (i = 0; i < nargs; i++) {\n    doubles += (IS_D(args[i]));\n    floats += (IS_F(args[i]));\n  }","  i = nargs;\n  while (i-- > 0) {\n    if (IS_D(args[i])) doubles++;\n    else if (IS_F(args[i])) floats++;\n  }")]),
 ("g12-q-helper","G12","quiet",[(F,"int ffi_call(ffi_fn_t *func, int nargs, struct ffi_arg *res,","static ffi_word_t call4(ffi_fn_t *func, struct ffi_arg *a) {\n  return ((w4w_t) func)(W(a[0]), W(a[1]), W(a[2]), W(a[3]));\n}\n\nint ffi_call(ffi_fn_t *func, int nargs, struct ffi_arg *res,"),(F,"            w4w_t f = (w4w_t) func;\n            r = f(W(args[0]), W(args[1]), W(args[2]), W(args[3]));","            r = call4(func, args);")]),
 ("g12-q-order","G12","quiet",[(F,"  if (nargs > 6) return -1;\n  for","  if (nargs >= 7) {\n    return -1;\n  }\n  for"),(F,"float r;","float r;") if False else (F,"      res->v.d = r;","      r += 0;\n      res->v.d = (double) r;")]) if False else
 ("g12-q-order","G12","quiet",[(F,"  if (nargs > 6) return -1;\n  for","  if (nargs >= 7) {\n    return -1;\n  }\n  for")]),
 # G13
 ("g13-idx","G13","catch",[(M,"          argvs[i] = arg;\n          ffi_set_ptr(&args[i], (void *) mjs_get_string(mjs, &argvs[i], &s));","          argvs[0] = arg;\n          ffi_set_ptr(&args[i], (void *) mjs_get_string(mjs, &argvs[0], &s));")]),
 ("g13-local","G13","catch",[(M,"          argvs[i] = arg;\n          ffi_set_ptr(&args[i], (void *) mjs_get_string(mjs, &argvs[i], &s));","          ffi_set_ptr(&args[i], (void *) mjs_get_string(mjs, &arg, &s));")]),
 ("g13-null","G13","catch",[(M,"        } else if (mjs_is_null(arg)) {\n          ffi_set_ptr(&args[i], NULL);\n        } else {\n          ret = MJS_TYPE_ERROR;\n          mjs_prepend_errorf(mjs, ret, \"actual arg #%d is not a ptr\", i);","        } else if (mjs_is_null(arg) || mjs_is_undefined(arg)) {\n          ffi_set_ptr(&args[i], NULL);\n        } else {\n          ret = MJS_TYPE_ERROR;\n          mjs_prepend_errorf(mjs, ret, \"actual arg #%d is not a ptr\", i);")]),
 ("g13-word","G13","catch",[(M,"ffi_set_float(&args[i], (float) mjs_get_double(mjs, arg));","ffi_set_double(&args[i], mjs_get_double(mjs, arg));")]),
 ("g13-count","G13","catch",[(M,"  if (nargs != psig->args_cnt) {","  if (nargs < psig->args_cnt) {")]),
 ("g13-noerr","G13","catch",[(M,"  if (ffi_call(psig->fn, nargs, &res, args) < 0) {\n    ret = MJS_TYPE_ERROR;","  if (ffi_call(psig->fn, nargs, &res, args) < 0) {\n    ret = MJS_OK;")]),
 ("g13-resint","G13","catch",[(M,"      resv = mjs_mk_number(mjs, (int) res.v.i);","      resv = mjs_mk_number(mjs, (double) res.v.i);")]),
 ("g13-resfloat","G13","catch",[(M,"      resv = mjs_mk_number(mjs, res.v.f);","      resv = mjs_mk_number(mjs, res.v.d);")]),
 ("g13-rescopy","G13","catch",[(M,"        resv = mjs_mk_string(mjs, s, ~0, 1);\n      } else {\n        resv = MJS_NULL;","        resv = mjs_mk_string(mjs, s, ~0, 0);\n      } else {\n        resv = MJS_NULL;")]),
 ("g13-resbool","G13","catch",[(M,"      res.ctype = FFI_CTYPE_BOOL;\n      break;\n","      res.ctype = FFI_CTYPE_WORD;\n      break;\n")]),
 ("g13-cbuser","G13","catch",[(M,"      ffi_set_ptr(&args[cbdata.userdata_idx], cbargs);","      ffi_set_ptr(&args[cbdata.func_idx + 1], cbargs);")]),
 ("g13-cbmatch","G13","catch",[(M,"    if ((*plist)->func == func && (*plist)->userdata == userdata &&","    if ((*plist)->func == func &&")]),
 ("g13-cbrec","G13","catch",[(M,"      cbargs->userdata = cbdata.userdata;\n","      cbargs->userdata = cbdata.func;\n")]),
 ("g13-cbsig","G13","catch",[(M,"      mjs_ffi_sig_copy(&cbargs->sig, psig->cb_sig);\n","      mjs_ffi_sig_copy(&cbargs->sig, psig);\n")]),
 ("g13-mgstr","G13","catch",[(M,"        ffi_set_ptr(&args[i], (void *) &argvmgstr[i]);","        ffi_set_ptr(&args[i], (void *) &argvmgstr[0]);")]),
 ("g13-q-helper","G13","quiet",[(M,"MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {","static int as_int(struct mjs *mjs, mjs_val_t v) {\n  return mjs_is_number(v) ? mjs_get_int(mjs, v) : mjs_get_bool(mjs, v);\n}\n\nMJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {"),(M,"        if (mjs_is_number(arg)) {\n          intval = mjs_get_int(mjs, arg);\n        } else if (mjs_is_boolean(arg)) {\n          intval = mjs_get_bool(mjs, arg);\n        } else {","        if (mjs_is_number(arg) || mjs_is_boolean(arg)) {\n          intval = as_int(mjs, arg);\n        } else {")]),
 ("g13-q-err","G13","quiet",[(M,"          ret = MJS_TYPE_ERROR;\n          mjs_prepend_errorf(mjs, ret, \"actual arg #%d is not a ptr\", i);\n          goto clean;","          ret = mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, \"actual arg #%d is not a ptr\", i);\n          goto clean;")]),
 ("g13-q-nargs","G13","quiet",[(M,"  nargs =\n      mjs_stack_size(&mjs->stack) - mjs_get_int(mjs, vtop(&mjs->call_stack));","  nargs = mjs_nargs(mjs);")]),
 ("g13-q-find","G13","quiet",[(M,"  for (; *plist != NULL; plist = &((*plist)->next)) {\n    if ((*plist)->func == func && (*plist)->userdata == userdata &&\n        (sig == NULL || memcmp((*plist)->sig.val_types, sig->val_types,\n                               sizeof(sig->val_types)) == 0)) {\n      break;\n    }\n  }","  while (*plist != NULL) {\n    struct mjs_ffi_cb_args *p = *plist;\n    int same = p->func == func && p->userdata == userdata;\n    if (same && sig != NULL) {\n      same = memcmp(p->sig.val_types, sig->val_types, sizeof(sig->val_types)) == 0;\n    }\n    if (same) break;\n    plist = &p->next;\n  }")]),
 # G14
 ("g14-idx","G14","catch",[(M,"  return ffi_cb_impl_generic((void *) w3, &data).w;","  return ffi_cb_impl_generic((void *) w2, &data).w;")]),
 ("g14-init","G14","catch",[(M,"  data->args[4].w = w4;\n  data->args[5].w = w5;","  data->args[5].w = w4;\n  data->args[4].w = w5;")]),
 ("g14-case","G14","catch",[(M,"              case 2:\n                return (ffi_fn_t *) ffi_cb_impl_wwpwwww;","              case 2:\n                return (ffi_fn_t *) ffi_cb_impl_wwwpwww;")]),
 ("g14-cnt","G14","catch",[(M,"            if (sig->args_cnt != 2) break;\n","")]),
 ("g14-wd","G14","catch",[(M,"  data.args[0].d = d0;\n  data.args[1].w = w1;","  data.args[0].w = w1;\n  data.args[1].d = d0;")]),
 ("g14-offset","G14","catch",[(M,"        cbargs->sig.val_types[i + 1 /* first val_type is return value type */];","        cbargs->sig.val_types[i];")]),
 ("g14-double","G14","catch",[(M,"        args[i] = mjs_mk_number(mjs, data->args[i].d);","        args[i] = mjs_mk_number(mjs, data->args[i].w);")]),
 ("g14-ptr","G14","catch",[(M,"        args[i] = mjs_mk_foreign(mjs, (void *) data->args[i].w);","        args[i] = mjs_mk_foreign(mjs, (void *) &data->args[i].w);") if False else (M,"        args[i] = mjs_mk_boolean(mjs, !!(int) data->args[i].w);","        args[i] = mjs_mk_number(mjs, !!(int) data->args[i].w);")]),
 ("g14-nocopy","G14","catch",[(M,"        args[i] = mjs_mk_string(mjs, s, ~0, 1);","        args[i] = mjs_mk_string(mjs, s, ~0, 0);")]),
 ("g14-valid-char","G14","catch",[(M,"          sig->val_types[0] != MJS_FFI_CTYPE_FLOAT &&\n          sig->val_types[0] != MJS_FFI_CTYPE_VOID_PTR) {","          sig->val_types[0] != MJS_FFI_CTYPE_FLOAT &&\n          sig->val_types[0] != MJS_FFI_CTYPE_CHAR_PTR &&\n          sig->val_types[0] != MJS_FFI_CTYPE_VOID_PTR) {")]),
 ("g14-two-ud","G14","catch",[(M,"                             (userdata_idx - 1), (i - 1));\n          goto clean;","                             (userdata_idx - 1), (i - 1));\n          break;")]),
 ("g14-noud","G14","catch",[(M,"      if (userdata_idx == 0) {\n        /* No userdata arg */","      if (userdata_idx == 0 && sig->args_cnt > 0) {\n        /* No userdata arg */")]),
 ("g14-ret","G14","catch",[(M,"      ret.w = mjs_get_bool(mjs, res);","      ret.w = mjs_get_bool(mjs, cbargs == NULL ? MJS_UNDEFINED : res);")]),
 ("g14-retdbl","G14","catch",[(M,"    case MJS_FFI_CTYPE_BOOL:\n      return 1;\n    default:","    case MJS_FFI_CTYPE_BOOL:\n    case MJS_FFI_CTYPE_DOUBLE:\n      return 1;\n    default:")]),
 ("g14-top","G14","catch",[(M,"    if (sig_type != FFI_SIG_CALLBACK) {\n      ret = MJS_TYPE_ERROR;","    if (sig_type != FFI_SIG_CALLBACK && sig_type != FFI_SIG_FUNC) {\n      ret = MJS_TYPE_ERROR;")]),
 ("g14-q-if","G14","quiet",[(M,"            switch (userdata_idx) {\n              case 1:\n                return (ffi_fn_t *) ffi_cb_impl_wpd;\n              case 2:\n                return (ffi_fn_t *) ffi_cb_impl_wdp;\n            }\n","            if (userdata_idx == 1) return (ffi_fn_t *) ffi_cb_impl_wpd;\n            if (userdata_idx == 2) return (ffi_fn_t *) ffi_cb_impl_wdp;\n")]),
 ("g14-q-table","G14","quiet",[(M,"static ffi_fn_t *get_cb_impl_by_signature(const mjs_ffi_sig_t *sig) {\n  if","static ffi_fn_t *word_impl(int idx) {\n  static ffi_fn_t *const t[] = {(ffi_fn_t *) ffi_cb_impl_wpwwwww, (ffi_fn_t *) ffi_cb_impl_wwpwwww, (ffi_fn_t *) ffi_cb_impl_wwwpwww, (ffi_fn_t *) ffi_cb_impl_wwwwpww, (ffi_fn_t *) ffi_cb_impl_wwwwwpw, (ffi_fn_t *) ffi_cb_impl_wwwwwwp};\n  return t[idx - 1];\n}\n\nstatic ffi_fn_t *get_cb_impl_by_signature(const mjs_ffi_sig_t *sig) {\n  if"),(M,"            switch (userdata_idx) {\n              case 1:\n                return (ffi_fn_t *) ffi_cb_impl_wpwwwww;\n              case 2:\n                return (ffi_fn_t *) ffi_cb_impl_wwpwwww;\n              case 3:\n                return (ffi_fn_t *) ffi_cb_impl_wwwpwww;\n              case 4:\n                return (ffi_fn_t *) ffi_cb_impl_wwwwpww;\n              case 5:\n                return (ffi_fn_t *) ffi_cb_impl_wwwwwpw;\n              case 6:\n                return (ffi_fn_t *) ffi_cb_impl_wwwwwwp;\n              default:\n                /* should never be here */\n                abort();\n            }\n            break;","            return word_impl(userdata_idx);")]),
 ("g14-q-valid","G14","quiet",[(M,"    sig->args_cnt++;\n  }\nargs_over:","  }\nargs_over:\n  sig->args_cnt = i - 1;")]),
 ("g14-q-helper","G14","quiet",[(M,"static union ffi_cb_data_val ffi_cb_impl_generic(","static mjs_val_t from_str(struct mjs *mjs, const char *s) {\n  return mjs_mk_string(mjs, s != NULL ? s : \"\", ~0, 1);\n}\n\nstatic union ffi_cb_data_val ffi_cb_impl_generic("),(M,"        const char *s = (char *) data->args[i].w;\n        if (s == NULL) s = \"\";\n        args[i] = mjs_mk_string(mjs, s, ~0, 1);","        args[i] = from_str(mjs, (char *) data->args[i].w);")]),
]
