P="mjs_parser.c"; E="mjs_exec.c"; J="mjs_json.c"; F="frozen/frozen.c"; S="mjs_ffi.c"; O="mjs_object.c"
EDITS=[
 ("g09-json-noguard","G09","catch",[(F,"  EXPECT(f->depth < JSON_MAX_DEPTH, JSON_STRING_INVALID);\n","")]),
 ("g09-json-noinc","G09","catch",[(F,"  f->depth++;\n","")]),
 ("g09-json-dec","G09","catch",[(F,"  f->depth--;\n  return 0;","  return 0;")]),
 ("g09-json-decearly","G09","catch",[(F,"  f->depth++;\n\n  switch","  f->depth++;\n  if (ch == '[') f->depth--;\n  switch")]),
 ("g09-str-noguard","G09","catch",[(J,"  if (visited_len >= MJS_JSON_MAX_DEPTH * sizeof(v)) {","  if (visited_len >= MJS_JSON_MAX_DEPTH * sizeof(v) && is_debug) {")]),
 ("g09-str-nopush","G09","catch",[(J,"      size_t i, alen = mjs_array_length(mjs, v);\n      mbuf_append(&mjs->json_visited_stack, (char *) &v, sizeof(v));","      size_t i, alen = mjs_array_length(mjs, v);"),(J,"      mjs->json_visited_stack.len -= sizeof(v);\n      len = b - buf;","      len = b - buf;")]),
 ("g09-str-errlen","G09","catch",[(J,"    mjs->json_visited_stack.len = visited_len;\n","")]),
 ("g09-exec-noguard","G09","catch",[(E,"  if (mjs->exec_depth >= MJS_EXEC_MAX_DEPTH) {\n    *res","  if (mjs->exec_depth >= MJS_EXEC_MAX_DEPTH && off == bp.start_idx) {\n    *res")]),
 ("g09-exec-nodec","G09","catch",[(E,"  mjs->exec_depth--;\n","  if (mjs->error == MJS_OK) mjs->exec_depth--;\n")]),
 ("g09-apply-noinc","G09","catch",[(E,"      mjs->exec_depth++;\n","      mjs->exec_depth += 0;\n"),(E,"      mjs->exec_depth--;\n","")]),
 ("g09-limit","G09","catch",[(P,"#define STACK_LIMIT 8192","#define STACK_LIMIT 819200")]),
 ("g09-exec-limit","G09","catch",[(E,"#define MJS_EXEC_MAX_DEPTH 200","#define MJS_EXEC_MAX_DEPTH 200000")]),
 ("g09-unary","G09","catch",[(P,"    PARSE_NESTED(p, res, parse_unary(p, prev_op));","    res = parse_unary(p, prev_op);")]),
 ("g09-stmt","G09","catch",[(P,"    PARSE_NESTED(p, res, parse_statement(p));\n    return res;","    res = parse_statement(p);\n    return res;")]),
 ("g09-assign","G09","catch",[(P,"      PARSE_NESTED(p, res, f2(p, TOK_EOF));           \\","      res = f2(p, TOK_EOF);           \\")]),
 ("g09-block-dec","G09","catch",[(P,"  p->depth--;\n  EXPECT(p, TOK_CLOSE_CURLY);","  EXPECT(p, TOK_CLOSE_CURLY);")]),
 ("g09-ltr-dec","G09","catch",[(P,"  binop_clean:                                                                 \\\n    p->depth--;","  binop_clean:                                                                 \\\n    if (prev_op == TOK_EOF) p->depth--;")]),
 ("g09-revert","G09","catch",[(P,"  p->depth = old->depth;\n","")]),
 ("g09-ltr-inc","G09","catch",[(P,"    mjs_err_t res = MJS_OK;                                                    \\\n    p->depth++;","    mjs_err_t res = MJS_OK;                                                    \\\n    p->depth += (prev_op == TOK_EOF);")]),
 ("g09-ffi","G09","catch",[(S,"      if (sig_type == FFI_SIG_CALLBACK) {","      if (sig_type == FFI_SIG_CALLBACK && is_valid_ptr == 0) {")] if 0 else [(S,"      if (sig_type == FFI_SIG_CALLBACK) {","      if (sig_type == FFI_SIG_CALLBACK && sig_len > 4096) {")]),
 ("g09-newrec","G09","catch",[(O,"MJS_PRIVATE struct mjs_property *mjs_get_own_property(","static int chain(struct mjs *mjs, mjs_val_t o) {\n  mjs_val_t p = mjs_get(mjs, o, \"__p\", ~0);\n  return mjs_is_object(p) ? 1 + chain(mjs, p) : (int) mjs->stack.len;\n}\nint chain_len(struct mjs *mjs, mjs_val_t o);\nint chain_len(struct mjs *mjs, mjs_val_t o) { return chain(mjs, o); }\n\nMJS_PRIVATE struct mjs_property *mjs_get_own_property(")]),
 ("g09-q-macro","G09","quiet",[(P,"static mjs_err_t parse_statement_list(","static void leave_level(struct pstate *p) {\n  p->depth = p->depth - 1;\n}\n\nstatic mjs_err_t parse_statement_list("),(P,"  p->depth--;\n  EXPECT(p, TOK_CLOSE_CURLY);","  leave_level(p);\n  EXPECT(p, TOK_CLOSE_CURLY);")]),
 ("g09-q-enter","G09","quiet",[(P,"  p->depth++;\n  if (p->depth > (STACK_LIMIT / BINOP_STACK_FRAME_SIZE)) {\n    mjs_set_errorf(p->mjs, MJS_SYNTAX_ERROR, \"parser stack overflow\");\n    res = MJS_SYNTAX_ERROR;\n    return res;\n  }","  if ((res = enter_level(p)) != MJS_OK) return res;")]),
 ("g09-q-json","G09","quiet",[(F,"  EXPECT(f->depth < JSON_MAX_DEPTH, JSON_STRING_INVALID);\n  f->depth++;\n","  if (++f->depth > JSON_MAX_DEPTH) return JSON_STRING_INVALID;\n")]),
 ("g09-q-exec","G09","quiet",[(E,"  if (mjs->exec_depth >= MJS_EXEC_MAX_DEPTH) {\n    *res = MJS_UNDEFINED;\n    return mjs_set_errorf(mjs, MJS_INTERNAL_ERROR, \"too many nested calls\");\n  }\n  mjs->exec_depth++;\n","  if (mjs->exec_depth + 1 > MJS_EXEC_MAX_DEPTH) {\n    *res = MJS_UNDEFINED;\n    return mjs_set_errorf(mjs, MJS_INTERNAL_ERROR, \"too many nested calls\");\n  }\n  mjs->exec_depth = mjs->exec_depth + 1;\n")]),
 ("g09-q-str","G09","quiet",[(J,"  if (visited_len >= MJS_JSON_MAX_DEPTH * sizeof(v)) {","  if (visited_len / sizeof(v) >= MJS_JSON_MAX_DEPTH) {")]),
 ("g09-q-gchelper","G09","quiet",[("mjs_gc.c","    gc_mark(mjs, &prop->name);\n    gc_mark(mjs, &prop->value);\n","    gc_mark_prop(mjs, prop);\n"),("mjs_gc.c","static void gc_mark_object(","static void gc_mark_prop(struct mjs *mjs, struct mjs_property *prop) {\n  gc_mark(mjs, &prop->name);\n  gc_mark(mjs, &prop->value);\n}\n\nstatic void gc_mark_object(")]),
]
