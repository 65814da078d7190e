A="mjs_array.c"; S="mjs_string.c"; B="mjs_builtin.c"; F="mjs_ffi.c"; J="mjs_json.c"; O="mjs_object.c"; C="mjs_core.c"
EDITS=[
 ("g05-slice-early","G05","catch",[(S,"  if (endSlice < beginSlice) {\n    endSlice = beginSlice;\n  }\n","  if (endSlice < beginSlice) {\n    return;\n  }\n")]),
 ("g05-push-err","G05","catch",[(A,'    if (rcode != MJS_OK) {\n      mjs_prepend_errorf(mjs, rcode, "");\n      goto clean;\n    }\n  }\n\n  /* Return the new','    if (rcode != MJS_OK) {\n      mjs_prepend_errorf(mjs, rcode, "");\n      return;\n    }\n  }\n\n  /* Return the new')]),
 ("g05-mkstr-null","G05","catch",[(S,"  ptr = (char *) mjs_get_ptr(mjs, ptr_v);\n","  ptr = (char *) mjs_get_ptr(mjs, ptr_v);\n  if (ptr == NULL) return;\n")]),
 ("g05-load-cond","G05","catch",[(B,"  mjs_return(mjs, res);\n}\n\nstatic void mjs_get_mjs","  if (res != MJS_NULL) mjs_return(mjs, res);\n}\n\nstatic void mjs_get_mjs")]),
 ("g05-load-order","G05","catch",[(B,"      mjs_prepend_errorf(mjs, ret, \"failed to exec file","      mjs_return(mjs, res);\n      arg0 = mjs_arg(mjs, 0);\n      mjs_prepend_errorf(mjs, ret, \"failed to exec file")]),
 ("g05-ffi-clean","G05","catch",[(F,"  mjs_return(mjs, resv);\n\n  return ret;","  if (ret == MJS_OK) mjs_return(mjs, resv);\n\n  return ret;")]),
 ("g05-ffi-early","G05","catch",[(F,"    case MJS_FFI_CTYPE_VOID_PTR:\n      resv = mjs_mk_foreign(mjs, (void *) (uintptr_t) res.v.i);\n      break;","    case MJS_FFI_CTYPE_VOID_PTR:\n      if (res.v.i == 0) return ret;\n      resv = mjs_mk_foreign(mjs, (void *) (uintptr_t) res.v.i);\n      break;")]),
 ("g05-do-gc","G05","catch",[(B,"  mjs_return(mjs, mjs_arg(mjs, 0));\n","  mjs_return(mjs, MJS_UNDEFINED);\n  arg0 = mjs_arg(mjs, 0);\n")]),
 ("g05-create","G05","catch",[(O,"  mjs_set(mjs, ret, MJS_PROTO_PROP_NAME, ~0, proto_v);\n\nclean:","  if (mjs_set(mjs, ret, MJS_PROTO_PROP_NAME, ~0, proto_v) != MJS_OK) return;\n\nclean:")]),
 ("g05-q-dup","G05","quiet",[(A,'    if (rcode != MJS_OK) {\n      mjs_prepend_errorf(mjs, rcode, "");\n      goto clean;\n    }\n  }\n\n  /* Return the new','    if (rcode != MJS_OK) {\n      mjs_prepend_errorf(mjs, rcode, "");\n      mjs_return(mjs, ret);\n      return;\n    }\n  }\n\n  /* Return the new')]),
 ("g05-q-helper","G05","quiet",[(O,"MJS_PRIVATE void mjs_op_create_object(","static void fin(struct mjs *mjs, mjs_val_t v) {\n  mjs_return(mjs, v);\n}\nMJS_PRIVATE void mjs_op_create_object("),(O,"clean:\n  mjs_return(mjs, ret);","clean:\n  fin(mjs, ret);")]),
 ("g05-q-flag","G05","quiet",[(F,"  mjs_return(mjs, resv);\n\n  return ret;","  if (ret == MJS_OK) {\n    mjs_return(mjs, resv);\n  } else {\n    mjs_return(mjs, MJS_UNDEFINED);\n  }\n  return ret;")]),
 ("g05-q-gc","G05","quiet",[(B,"  mjs_return(mjs, mjs_arg(mjs, 0));\n","  arg0 = mjs_arg(mjs, 0);\n  mjs_return(mjs, arg0);\n")]),
]
