X = "mjs_exec.c"
def C(n, o, w): return ("g07-" + n, "G07", "catch", [(X, o, w)])
def Q(n, *e): return ("g07-q-" + n, "G07", "quiet", [(X, o, w) for o, w in e])
EDITS = [
 C("le", "mjs_push(mjs, mjs_mk_boolean(mjs, a <= b));", "mjs_push(mjs, mjs_mk_boolean(mjs, a < b));"),
 C("gt-order", "    case TOK_GT: {\n      double b = mjs_get_double(mjs, mjs_pop(mjs));\n      double a", "    case TOK_GT: {\n      double a = mjs_get_double(mjs, mjs_pop(mjs));\n      double b"),
 C("ge-not", "mjs_push(mjs, mjs_mk_boolean(mjs, a >= b));", "mjs_push(mjs, mjs_mk_boolean(mjs, !(a < b)));"),
 C("remguard", "      db = (int) db;\n      if (db != 0) {\n        bool", "      if (db != 0) {\n        bool"),
 C("remneg", "        if (db < 0) {\n          db = -db;\n        }\n", ""),
 C("ursh", "(double) ((uint32_t) da >> (uint32_t) db)", "(double) ((int32_t) da >> (uint32_t) db)"),
 C("lsh", "(double) ((int64_t) da << (int64_t) db)", "(double) ((int64_t) db << (int64_t) da)"),
 C("nan", "  if (isnan(da) || isnan(db)) {\n    *resnan = true;", "  if (isnan(da)) {\n    *resnan = true;"),
 C("ptrresult", "      is_result_ptr = 1;", "      is_result_ptr = mjs_is_foreign(a);"),
 C("ptrops", "      if (op != TOK_MINUS && op != TOK_PLUS) {", "      if (op != TOK_MINUS && op != TOK_PLUS && op != TOK_AND) {"),
 C("concat", "mjs_is_string(b) && (op == TOK_PLUS)", "mjs_is_string(b)"),
 C("concatorder", "ret = s_concat(mjs, a, b);", "ret = s_concat(mjs, b, a);"),
 C("noconv", "  } else {\n    set_no_autoconversion_error(mjs);\n  }\n  return ret;", "  } else if (!mjs_is_undefined(a)) {\n    set_no_autoconversion_error(mjs);\n  }\n  return ret;"),
 C("nullptr", "    ret = mjs_get_ptr(mjs, b) == NULL;", "    ret = mjs_get_ptr(mjs, b) != NULL;"),
 C("naneq", "  if (a == MJS_TAG_NAN && b == MJS_TAG_NAN) {\n    ret = 0;\n  } else if (a == b)", "  if (a == b)"),
 C("strcmp", "    ret = s_cmp(mjs, a, b) == 0;", "    ret = s_cmp(mjs, a, b) <= 0;"),
 C("postfix", "        mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);\n        mjs_set_v(mjs, obj, key, v1);\n        mjs_push(mjs, v);", "        mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);\n        mjs_set_v(mjs, obj, key, v1);\n        mjs_push(mjs, v1);"),
 C("predec", "        v = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);", "        v = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_PLUS);"),
 C("opassign", "    case TOK_REM_ASSIGN:      op_assign(mjs, TOK_REM);", "    case TOK_REM_ASSIGN:      op_assign(mjs, TOK_DIV);"),
 C("bytes", "ival < 0 || ival > 0xff", "ival < 0 || ival > 0x100"),
 C("bytes2", "ival < 0 || ival > 0xff", "ival > 0xff"),
 C("bytekind", "        } else if (!mjs_is_number(val) || ival", "        } else if (ival"),
 C("keykind", "        if (!mjs_is_number(key)) {", "        if (mjs_is_undefined(key)) {"),
 C("notnot", "mjs_mk_boolean(mjs, !mjs_is_truthy(mjs, val))", "mjs_mk_boolean(mjs, mjs_is_truthy(mjs, val))"),
 C("incnonobj", "      mjs_val_t key = mjs_pop(mjs);\n      if (mjs_is_object(obj) && mjs_is_string(key)) {\n        mjs_val_t v = mjs_get_v(mjs, obj, key);\n        mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_PLUS);",
   "      mjs_val_t key = mjs_pop(mjs);\n      if (mjs_is_string(key)) {\n        mjs_val_t v = mjs_get_v(mjs, obj, key);\n        mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_PLUS);"),
 C("assignres", "    mjs_val_t v = do_op(mjs, mjs_get_v(mjs, obj, key), val, op);\n    mjs_set_v(mjs, obj, key, v);", "    mjs_val_t v = do_op(mjs, mjs_get_v(mjs, obj, key), val, op);\n    mjs_set_v(mjs, key, obj, v);"),
 C("zeroeq", "    ret = mjs_get_double(mjs, a) == mjs_get_double(mjs, b);", "    ret = 0;"),
 C("divzero", "      if (db != 0) {\n        return da / db;", "      if (db > 0) {\n        return da / db;"),
 C("tilde", "(~(int64_t) a)", "(-(int64_t) a)") if False else C("tilde", "mjs_mk_number(mjs, (double) (~(int64_t) a))", "mjs_mk_number(mjs, (double) (!(int64_t) a))"),
 Q("helper", ("static void op_assign(struct mjs *mjs, int op) {", "static mjs_val_t op_apply(struct mjs *mjs, mjs_val_t o, mjs_val_t k, mjs_val_t val, int op) {\n  mjs_val_t r = do_op(mjs, mjs_get_v(mjs, o, k), val, op);\n  mjs_set_v(mjs, o, k, r);\n  return r;\n}\nstatic void op_assign(struct mjs *mjs, int op) {"),
   ("    mjs_val_t v = do_op(mjs, mjs_get_v(mjs, obj, key), val, op);\n    mjs_set_v(mjs, obj, key, v);\n    mjs_push(mjs, v);", "    mjs_push(mjs, op_apply(mjs, obj, key, val, op));")),
 Q("gtswap", ("mjs_push(mjs, mjs_mk_boolean(mjs, a > b));", "mjs_push(mjs, mjs_mk_boolean(mjs, b < a));")),
 Q("lecond", ("mjs_push(mjs, mjs_mk_boolean(mjs, a <= b));", "if (a <= b) {\n        mjs_push(mjs, mjs_mk_boolean(mjs, 1));\n      } else {\n        mjs_push(mjs, mjs_mk_boolean(mjs, 0));\n      }")),
 Q("eqreturn", ("  int ret = 0;\n  if (a == MJS_TAG_NAN && b == MJS_TAG_NAN) {\n    ret = 0;\n  } else if (a == b) {\n    ret = 1;", "  int ret = 0;\n  if (a == MJS_TAG_NAN && b == MJS_TAG_NAN) return 0;\n  if (a == b) {\n    return 1;")),
 Q("mulcomm", ("    case TOK_MUL:     return da * db;", "    case TOK_MUL:     return db * da;")),
 Q("remint", ("        da = (double) ((int64_t) da % (int64_t) db);", "        int64_t ia = (int64_t) da, ib = (int64_t) db;\n        da = (double) (ia % ib);")),
 Q("remfabs", ("        if (db < 0) {\n          db = -db;\n        }\n", "        db = db < 0 ? -db : db;\n")),
 Q("flags", ("    int is_result_ptr = 0;\n", "    int fa = mjs_is_foreign(a), fb = mjs_is_foreign(b);\n    int is_result_ptr = fa != fb;\n"), ("      is_result_ptr = 1;\n", "")),
 Q("assignflip", ("      if (mjs_is_object(obj)) {\n        mjs_set_v(mjs, obj, key, val);\n      } else if (mjs_is_foreign(obj)) {", "      if (!mjs_is_foreign(obj) && !mjs_is_object(obj)) {\n        mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, \"unsupported object type\");\n      } else if (mjs_is_object(obj)) {\n        mjs_set_v(mjs, obj, key, val);\n      } else if (mjs_is_foreign(obj)) {")),
 Q("byteok", ("        } else if (!mjs_is_number(val) || ival < 0 || ival > 0xff) {", "        } else if (!(mjs_is_number(val) && ival >= 0 && ival <= 255)) {")),
 Q("incplus", ("        v = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);", "        v = do_op(mjs, v, mjs_mk_number(mjs, -1), TOK_PLUS);")),
 Q("noteq", ("mjs_push(mjs, mjs_mk_boolean(mjs, !check_equal(mjs, a, b)));", "mjs_push(mjs, mjs_mk_boolean(mjs, check_equal(mjs, a, b) ? 0 : 1));")),
]
