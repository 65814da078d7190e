P="mjs_primitive.c"; O="mjs_core.c"; V="mjs_conversion.c"; U="mjs_util.c"; J="mjs_object.c"; A="mjs_array.c"; S="mjs_string.c"; B="mjs_builtin.c"; X="mjs_exec.c"; F="mjs_ffi.c"; N="mjs_json.c"
def C(n, f, o, w): return ("g06-" + n, "G06", "catch", [(f, o, w)])
def Q(n, *e): return ("g06-q-" + n, "G06", "quiet", list(e))
EDITS = [
 C("own-property", J, "  if (!mjs_is_object(obj)) {\n    return NULL;\n  }\n", "  if (mjs_is_number(obj)) {\n    return NULL;\n  }\n"),
 C("own-foreign", J, "  if (!mjs_is_object(obj)) {\n    return NULL;\n  }\n\n  o = get_object_struct(obj);", "  if (!mjs_is_object(obj) && !mjs_is_foreign(obj)) {\n    return NULL;\n  }\n\n  o = (struct mjs_object *) get_ptr(obj);"),
 C("length", A, "  if (!mjs_is_object(v)) {\n    len = 0;\n    goto clean;\n  }\n", "  if (v == MJS_UNDEFINED) {\n    len = 0;\n    goto clean;\n  }\n"),
 C("set", J, "    if (!mjs_is_object(obj)) {\n      rcode = MJS_REFERENCE_ERROR;", "    if (!mjs_is_object(obj) && obj != MJS_NULL) {\n      rcode = MJS_REFERENCE_ERROR;"),
 C("set-name", J, "    if (!mjs_is_string(name_v) ||\n        (name_v & MJS_TAG_MASK) == MJS_TAG_STRING_F) {", "    if (name == NULL || name_v == MJS_UNDEFINED ||\n        (name_v & MJS_TAG_MASK) == MJS_TAG_STRING_F) {"),
 C("del", J, "  if (!mjs_is_object(obj)) {\n    return -1;\n  }\n  if (len", "  if (len"),
 C("next", J, "  if (!mjs_is_object(obj)) {\n    *iterator = MJS_UNDEFINED;\n    return MJS_UNDEFINED;\n  }\n", "  if (mjs_is_undefined(obj)) {\n    *iterator = MJS_UNDEFINED;\n    return MJS_UNDEFINED;\n  }\n"),
 C("get-v", X, "          if (mjs_is_object(obj)) {\n            val = mjs_get_v_proto(mjs, obj, key);", "          if (mjs_is_object(obj) || mjs_is_function(obj)) {\n            val = get_object_struct(obj)->properties ? mjs_get_v_proto(mjs, obj, key) : MJS_UNDEFINED;"),
 C("ffi-sig", F, "  if (mjs_is_ffi_sig(sig_v)) {", "  if (!mjs_is_string(sig_v)) {"),
 C("json-skip", N, "    case MJS_TYPE_OBJECT_ARRAY:\n      ret = 0;", "    case MJS_TYPE_OBJECT_ARRAY:\n    case MJS_TYPE_OBJECT_FUNCTION:\n      ret = 0;"),
 C("type-ffi", O, "    case MJS_TAG_FUNCTION_FFI >> 48:\n", ""),
 
 C("sig-free", F, "  assert(mjs_is_ffi_sig(v));", "  assert(mjs_is_ffi_sig(v) || mjs_is_foreign(v));") if 0 else
 C("s2o", O if 0 else "mjs_object.c", "  if (!mjs_is_object(obj)) {\n    return NULL;\n  }\n\n  o = get_object_struct(obj);\n", "  o = get_object_struct(obj);\n"),
 Q("own-array", (J, "  if (!mjs_is_object(obj)) {\n    return NULL;\n  }\n", "  if ((obj & MJS_TAG_MASK) == MJS_TAG_ARRAY) {\n    (void) 0;\n  } else if ((obj & MJS_TAG_MASK) != MJS_TAG_OBJECT) {\n    return NULL;\n  }\n")),
 Q("length-if", (A, "  if (!mjs_is_object(v)) {\n    len = 0;\n    goto clean;\n  }\n\n  for (p = get_object_struct(v)->properties; p != NULL; p = p->next) {", "  for (p = mjs_is_object(v) ? get_object_struct(v)->properties : NULL; p != NULL; p = p->next) {"), (A, "clean:\n  return len;", "  return len;")),
 Q("del", (J, "  if (!mjs_is_object(obj)) {\n    return -1;\n  }\n  if (len", "  switch (mjs_get_type(obj)) {\n    case MJS_TYPE_OBJECT_GENERIC:\n    case MJS_TYPE_OBJECT_ARRAY:\n      break;\n    default:\n      return -1;\n  }\n  if (len")),
 Q("get-order", (X, "        if (!getprop_builtin(mjs, obj, key, &val)) {\n          if (mjs_is_object(obj)) {\n            val = mjs_get_v_proto(mjs, obj, key);\n          } else {\n            mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, \"type error\");\n          }\n        }", "        if (!getprop_builtin(mjs, obj, key, &val)) {\n          if (!mjs_is_object(obj)) {\n            mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, \"type error\");\n          } else {\n            val = mjs_get_v_proto(mjs, obj, key);\n          }\n        }")),
 Q("helper", (A, "unsigned long mjs_array_length(", "static struct mjs_property *first(mjs_val_t v) {\n  return get_object_struct(v)->properties;\n}\n\nunsigned long mjs_array_length("), (A, "  for (p = get_object_struct(v)->properties; p", "  for (p = first(v); p")),
 Q("charcode", (S, "  if (!mjs_check_arg(mjs, -1 /*this*/, \"this\", MJS_TYPE_STRING, NULL)) {\n    goto clean;\n  }\n  s = mjs_get_string(mjs, &mjs->vals.this_obj, &size);\n\n  /* get idx from arg 0 */", "  if (!mjs_is_string(mjs->vals.this_obj)) {\n    mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, \"this should be a string\");\n    goto clean;\n  }\n  s = mjs_get_string(mjs, &mjs->vals.this_obj, &size);\n\n  /* get idx from arg 0 */")),
 Q("jprintf", (U, "  } else if (mjs_is_array(v)) {\n    json_printf(out, \"%s\", \"<array>\");\n  } else if (mjs_is_object(v)) {\n    json_printf(out, \"%s\", \"<object>\");", "  } else if (mjs_is_object(v)) {\n    json_printf(out, \"%s\", mjs_is_array(v) ? \"<array>\" : \"<object>\");")),
 Q("json-chain", (N, "  if (!is_debug && should_skip_for_json(mjs_get_type(v))) {\n    goto clean;\n  }\n", "  if (!is_debug) {\n    enum mjs_type t = mjs_get_type(v);\n    if (should_skip_for_json(t)) goto clean;\n  }\n")),
]
