P="mjs_primitive.c"; O="mjs_core.c"; V="mjs_conversion.c"; U="mjs_util.c"; J="mjs_object.c"
def C(n, f, o, w): return ("g08-" + n, "G08", "catch", [(f, o, w)])
def Q(n, *e): return ("g08-q-" + n, "G08", "quiet", list(e))
EDITS = [
 C("num-nan", P, "  return v == MJS_TAG_NAN || !isnan(get_double(v));", "  return !isnan(get_double(v));"),
 C("mk-nan", P, "  if (isnan(v)) {\n    res = MJS_TAG_NAN;\n  } else {", "  if (v != v && v > 0) {\n    res = MJS_TAG_NAN;\n  } else {"),
 C("mk-bool", P, "  return (v ? 1 : 0) | MJS_TAG_BOOLEAN;", "  return (v & 0xff) | MJS_TAG_BOOLEAN;"),
 C("mk-bool8", P, "  return (v ? 1 : 0) | MJS_TAG_BOOLEAN;", "  return (mjs_val_t)((uint8_t) v ? 1 : 0) | MJS_TAG_BOOLEAN;"),
 C("get-bool", P, "  if (mjs_is_boolean(v)) {\n    return v & 1;\n  } else {\n    return 0;\n  }", "  return v & 1;"),
 C("get-ptr", P, "  if (!mjs_is_foreign(v)) {\n    return NULL;\n  }", "  if (mjs_is_number(v)) {\n    return NULL;\n  }"),
 C("get-ptr-mask", P, "(v & 0xFFFFFFFFFFFFUL)", "(v & 0xFFFFFFFFUL)"),
 C("fn-tag", P, "  return (mjs_val_t) off | MJS_TAG_FUNCTION;", "  return (mjs_val_t) off | MJS_TAG_FUNCTION_FFI;"),
 C("fn-addr", O, "  return v & ~MJS_TAG_MASK;", "  return v & 0xffff;"),
 C("isfn", P, "  return (v & MJS_TAG_MASK) == MJS_TAG_FUNCTION;", "  return (v & MJS_TAG_MASK) == MJS_TAG_FUNCTION || (v & MJS_TAG_MASK) == MJS_TAG_FUNCTION_FFI;"),
 C("type-ffi", O, "    case MJS_TAG_FUNCTION_FFI >> 48:\n", ""),
 C("type-str5", O, "    case MJS_TAG_STRING_5 >> 48:\n", ""),
 C("type-array", O, "    case MJS_TAG_ARRAY >> 48:\n      return MJS_TYPE_OBJECT_ARRAY;", "    case MJS_TAG_ARRAY >> 48:\n      return MJS_TYPE_OBJECT_GENERIC;"),
 C("typeof", U, "      return \"foreign_ptr\";", "      return \"foreign\";"),
 C("typeof-def", U, "    case MJS_TYPE_UNDEFINED:\n      return \"undefined\";\n", ""),
 C("isobj", J, "  return (v & MJS_TAG_MASK) == MJS_TAG_OBJECT ||\n         (v & MJS_TAG_MASK) == MJS_TAG_ARRAY;", "  return (v & MJS_TAG_MASK) == MJS_TAG_OBJECT;"),
 C("isstr", "mjs_string.c", "t == MJS_TAG_STRING_5", "t == MJS_TAG_STRING_F"),
 C("truth-nan", V, " &&\n      v != MJS_TAG_NAN;", ";"),
 C("truth-num", V, "mjs_get_double(mjs, v) != 0.0", "mjs_get_double(mjs, v) > 0.0"),
 C("truth-str", V, "       (mjs_is_string(v) && mjs_get_string(mjs, &v, &len) && len > 0) ||", "       (mjs_is_string(v)) ||"),
 C("truth-ptr", V, "(mjs_is_foreign(v)) ||", "(mjs_is_foreign(v) && mjs_get_ptr(mjs, v) == NULL) ||"),
 C("str-free", V, "    *need_free = 1;", "    *need_free = *sizep > 0 ? 0 : 1;"),
 C("str-undef", V, "    *p = \"undefined\";\n    *sizep = 9;", "    *p = \"undefined\";\n    *sizep = 10;"),
 C("str-obj", V, "    ret = MJS_TYPE_ERROR;\n    mjs_set_errorf(mjs, ret,\n                   \"conversion from object", "    mjs_set_errorf(mjs, MJS_TYPE_ERROR,\n                   \"conversion from object"),
 Q("type-if", (O, "  int tag;\n  if (mjs_is_number(v)) {\n    return MJS_TYPE_NUMBER;\n  }", "  int tag;\n  if (mjs_is_string(v)) return MJS_TYPE_STRING;\n  if (mjs_is_number(v)) {\n    return MJS_TYPE_NUMBER;\n  }")),
 Q("truth-switch", (V, "  is_truthy =\n      ((mjs_is_boolean(v) && mjs_get_bool(mjs, v)) ||\n       (mjs_is_number(v) && mjs_get_double(mjs, v) != 0.0) ||\n       (mjs_is_string(v) && mjs_get_string(mjs, &v, &len) && len > 0) ||\n       (mjs_is_function(v)) || (mjs_is_foreign(v)) || (mjs_is_object(v))) &&\n      v != MJS_TAG_NAN;",
  "  switch (mjs_get_type(v)) {\n    case MJS_TYPE_BOOLEAN: is_truthy = mjs_get_bool(mjs, v); break;\n    case MJS_TYPE_NUMBER: is_truthy = v != MJS_TAG_NAN && mjs_get_double(mjs, v) != 0.0; break;\n    case MJS_TYPE_STRING: mjs_get_string(mjs, &v, &len); is_truthy = len != 0; break;\n    case MJS_TYPE_NULL: case MJS_TYPE_UNDEFINED: is_truthy = 0; break;\n    default: is_truthy = 1; break;\n  }")),
 Q("is-num", (P, "  return v == MJS_TAG_NAN || !isnan(get_double(v));", "  if (v == MJS_TAG_NAN) return 1;\n  return isnan(get_double(v)) ? 0 : 1;")),
 Q("memcpy", (P, "  union {\n    double d;\n    mjs_val_t v;\n  } u;\n  u.v = v;\n", "  double d;\n  memcpy(&d, &v, sizeof d);\n"), (P, "  return u.d;\n", "  return d;\n")),
 Q("getptr", (P, "  if (!mjs_is_foreign(v)) {\n    return NULL;\n  }\n  return get_ptr(v);", "  return mjs_is_foreign(v) ? get_ptr(v) : NULL;")),
 Q("typeof-table", (U, "  switch (t) {\n    case MJS_TYPE_NUMBER:\n      return \"number\";\n", "  if (t == MJS_TYPE_NUMBER) return \"number\";\n  switch (t) {\n")),
 Q("str-helper", (V, "MJS_PRIVATE mjs_err_t mjs_to_string(", "static mjs_err_t dup_text(const char *s, char **p, size_t *n, int *nf) {\n  *n = strlen(s);\n  *p = malloc(*n + 1);\n  if (*p == NULL) return MJS_OUT_OF_MEMORY;\n  memcpy(*p, s, *n + 1);\n  *nf = 1;\n  return MJS_OK;\n}\nMJS_PRIVATE mjs_err_t mjs_to_string("),
   (V, "    *sizep = strlen(buf);\n    *p = malloc(*sizep + 1);\n    if (*p == NULL) {\n      ret = MJS_OUT_OF_MEMORY;\n      goto clean;\n    }\n    memmove(*p, buf, *sizep + 1);\n    *need_free = 1;", "    ret = dup_text(buf, p, sizep, need_free);")),
 Q("isobj", (J, "  return (v & MJS_TAG_MASK) == MJS_TAG_OBJECT ||\n         (v & MJS_TAG_MASK) == MJS_TAG_ARRAY;", "  uint64_t t = v & MJS_TAG_MASK;\n  return t == MJS_TAG_ARRAY || t == MJS_TAG_OBJECT;")),
]
