P="mjs_parser.c"; B="mjs_bcode.c"; S="mjs_string.c"; X="mjs_exec.c"
BODY='''  if (p->tok.tok == TOK_OPEN_CURLY) {
    PARSE_NESTED(p, res, parse_statement_list(p, TOK_CLOSE_CURLY));
    if (res != MJS_OK) return res;
    EXPECT(p, TOK_CLOSE_CURLY);
  } else {
    PARSE_NESTED(p, res, parse_statement(p));
    if (res != MJS_OK) return res;
  }
'''
W="static mjs_err_t parse_while(struct pstate *p) {"
src=open(__import__("os").environ.get("MJS_REPO","/repo")+"/src/mjs_parser.c").read()
HELP='''static mjs_err_t parse_loop_body(struct pstate *p) {
  mjs_err_t res = MJS_OK;
'''+BODY+'''  emit_byte(p, OP_DROP);
  emit_byte(p, OP_CONTINUE);
  return res;
}

'''
WH=src[src.index(W):]; WH=WH[:WH.index("\n}\n")+3]
WB=BODY+"  emit_byte(p, OP_DROP);\n  emit_byte(p, OP_CONTINUE);\n"
EDITS=[
 # balance
 ("g28-while-drop","G28","catch",[(P,WH,WH.replace("  emit_byte(p, OP_DROP);\n  emit_byte(p, OP_CONTINUE);","  emit_byte(p, OP_CONTINUE);"))]),
 ("g28-forin-undef","G28","catch",[(P,"  emit_byte(p, OP_DROP);\n  emit_byte(p, OP_DROP);\n  emit_byte(p, OP_DROP);\n  emit_byte(p, OP_DEL_SCOPE);","  emit_byte(p, OP_DROP);\n  emit_byte(p, OP_DROP);\n  emit_byte(p, OP_DEL_SCOPE);")]),
 ("g28-if-else","G28","catch",[(P,"        emit_byte(p, OP_PUSH_UNDEF);\n","")]) if "        emit_byte(p, OP_PUSH_UNDEF);\n" in src else
 ("g28-empty","G28","catch",[(P,"  if (!drop) {\n    emit_byte(p, OP_PUSH_UNDEF);\n  }\n","")]),
 ("g28-empty","G28","catch",[(P,"  if (!drop) {\n    emit_byte(p, OP_PUSH_UNDEF);\n  }\n","")]),
 ("g28-let-drop","G28","catch",[(P,"      emit_byte(p, OP_DROP);\n      pnext1(p);\n    } else if","      pnext1(p);\n    } else if")]),
 ("g28-let-nocomma","G28","catch",[(P,"    } else {\n      SYNTAX_ERROR(p);\n    }\n","    }\n")]),
 ("g28-tern-drop","G28","catch",[(P,"    off_endif = p->cur_idx;\n\n    emit_byte(p, OP_DROP);\n","    off_endif = p->cur_idx;\n\n")]),
 ("g28-tern-arm","G28","catch",[(P,"    EXPECT(p, TOK_COLON);\n    PARSE_NESTED(p, res, parse_expr(p));","    EXPECT(p, TOK_COLON);\n    PARSE_NESTED(p, res, parse_ternary(p, TOK_EOF));")]),
 ("g28-array-dup","G28","catch",[(P,"    emit_byte(p, OP_DUP);\n    if ((res = parse_expr(p)) != MJS_OK) return res;\n    emit_byte(p, OP_APPEND);","    if ((res = parse_expr(p)) != MJS_OK) return res;\n    emit_byte(p, OP_APPEND);")]),
 ("g28-scope","G28","catch",[(P,"  if (mkscope) emit_byte(p, OP_DEL_SCOPE);\n","  if (mkscope && p->depth > 0) emit_byte(p, OP_DEL_SCOPE);\n")]),
 ("g28-and-drop","G28","catch",[(P,"        emit_byte(p, (uint8_t) OP_DROP);                                       \\\n","        if (ops[0] == TOK_LOGICAL_AND) emit_byte(p, (uint8_t) OP_DROP);        \\\n")]),
 ("g28-dot-get","G28","catch",[(P,"(uint8_t)(prev_tok == TOK_DOT ? OP_SWAP : OP_FIND_SCOPE)","(uint8_t) OP_FIND_SCOPE")]),
 ("g28-idx-get","G28","catch",[(P,"      if (!findtok(s_assign_ops, p->tok.tok) &&\n          !findtok(s_postfix_ops, p->tok.tok) &&","      if (!findtok(s_assign_ops, p->tok.tok) &&")]),
 ("g28-return-undef","G28","catch",[(P,"    pstate_revert(p, &p_saved, old_bcode_gen_len);\n    emit_byte(p, OP_PUSH_UNDEF);\n","    pstate_revert(p, &p_saved, old_bcode_gen_len);\n")]),
 ("g28-interp-create","G28","catch",[(X,"          mjs_push(mjs, MJS_UNDEFINED);\n          mjs_set_errorf(mjs, MJS_TYPE_ERROR, \"assignment to","          mjs_set_errorf(mjs, MJS_TYPE_ERROR, \"assignment to")]) if 0 else None,
 ("g28-q-helper","G28","quiet",[(P,W,HELP+W),(P,WH,WH.replace(WB,"  if ((res = parse_loop_body(p)) != MJS_OK) return res;\n"))]),
 ("g28-q-letdo","G28","quiet",[(P,"    if (p->tok.tok == TOK_COMMA) {\n      emit_byte(p, OP_DROP);\n      pnext1(p);\n    } else if (p->tok.tok == TOK_SEMICOLON || p->tok.tok == TOK_EOF) {\n      break;\n    } else {\n      SYNTAX_ERROR(p);\n    }\n","    if (p->tok.tok == TOK_SEMICOLON || p->tok.tok == TOK_EOF) break;\n    if (p->tok.tok != TOK_COMMA) SYNTAX_ERROR(p);\n    emit_byte(p, OP_DROP);\n    pnext1(p);\n")]),
 ("g28-q-findtok","G28","quiet",[(P,"  int i = 0;\n  while (tok != toks[i] && toks[i] != TOK_EOF) i++;\n  return toks[i];","  int i;\n  for (i = 0; toks[i] != TOK_EOF; i++) {\n    if (toks[i] == tok) return tok;\n  }\n  return TOK_EOF;")]),
 # layout
 ("g18-int","G18","catch",[(P,"        emit_byte(p, OP_PUSH_INT);\n        emit_int(p, (int64_t) d);","        emit_byte(p, OP_PUSH_INT);\n        if (d != 0) emit_int(p, (int64_t) d);")]),
 ("g18-dbl","G18","catch",[(P,"        emit_byte(p, OP_PUSH_DBL);\n        emit_str","        emit_byte(p, OP_PUSH_INT);\n        emit_str")]),
 ("g18-cont-off","G18","catch",[(P,"  off_incr_begin += mjs_bcode_insert_offset(\n      p, p->mjs, off_init_end,","  mjs_bcode_insert_offset(\n      p, p->mjs, off_init_end,")]),
 ("g18-tern-off","G18","catch",[(P,"    off_endif += mjs_bcode_insert_offset(","    mjs_bcode_insert_offset(")]),
 ("g18-prologue","G18","catch",[(P,"  prologue += mjs_bcode_insert_offset(","  mjs_bcode_insert_offset(")]),
 ("g18-order","G18","catch",[(P,WH,WH.replace("off_cond_end - MJS_INIT_OFFSET_SIZE);","off_cond_end);"))]),
 ("g18-if-fill","G18","catch",[(P,"      if (off_if != 0) {                                                       \\","      if (off_if != 0 && p->depth < 100) {                                     \\")]),
 ("g18-setarg","G18","catch",[(P,"    emit_int(p, arg_no);\n    arg_no++;","    emit_byte(p, (uint8_t) arg_no);\n    arg_no++;")]),
 ("g18-move","G18","catch",[(B,"          mjs->bcode_gen.len - offset - MJS_INIT_OFFSET_SIZE);","          p->cur_idx - offset - MJS_INIT_OFFSET_SIZE);")]),
 ("g18-cur","G18","catch",[(B,"  if (p->cur_idx >= (int) offset) {\n    p->cur_idx += diff;\n  }\n","")]),
 ("g18-ret","G18","catch",[(B,"  return diff;\n}","  return llen;\n}")]),
 ("g18-emitstr","G18","catch",[(B,"  cs_varint_encode(len, (uint8_t *) b->buf + pstate->cur_idx, llen);\n  memcpy(b->buf + pstate->cur_idx + llen, ptr, len);","  cs_varint_encode(len, (uint8_t *) b->buf + pstate->cur_idx, llen);\n  memcpy(b->buf + pstate->cur_idx + 1, ptr, len);")]),
 ("g18-emb-n","G18","catch",[(S,"  cs_varint_encode(n, (unsigned char *) m->buf + offset, k);","  cs_varint_encode(len, (unsigned char *) m->buf + offset, k);")]),
 ("g18-emb-k","G18","catch",[(S,"  size_t k = cs_varint_llen(n);\n\n  /* total","  size_t k = cs_varint_llen(len);\n\n  /* total")]),
 ("g18-interp-dbl","G18","catch",[(X,"        i += llen + n;\n        mjs_push(mjs, mjs_mk_number(mjs, strtod","        i += n;\n        mjs_push(mjs, mjs_mk_number(mjs, strtod")]) if 0 else None,
 ("g18-q-insert","G18","quiet",[(B,"""  if (diff > 0) {
    mbuf_resize(&mjs->bcode_gen, mjs->bcode_gen.size + diff);
  }
  /*
   * Offset is going to take more than one was reserved, so, move the data
   * forward
   */
  memmove(mjs->bcode_gen.buf + offset + llen,
          mjs->bcode_gen.buf + offset + MJS_INIT_OFFSET_SIZE,
          mjs->bcode_gen.len - offset - MJS_INIT_OFFSET_SIZE);
  mjs->bcode_gen.len += diff;
""","""  if (diff > 0) {
    mbuf_insert(&mjs->bcode_gen, offset + MJS_INIT_OFFSET_SIZE, NULL, diff);
  }
""")]),
 ("g18-q-strhelp","G18","quiet",[(B,"MJS_PRIVATE void emit_int(","static void room(struct pstate *p, size_t n) {\n  add_lineno_map_item(p);\n  mbuf_insert(&p->mjs->bcode_gen, p->cur_idx, NULL, n);\n  p->cur_idx += n;\n}\n\nMJS_PRIVATE void emit_int("),(B,"  add_lineno_map_item(pstate);\n  mbuf_insert(b, pstate->cur_idx, NULL, llen);\n  cs_varint_encode(n, (uint8_t *) b->buf + pstate->cur_idx, llen);\n  pstate->cur_idx += llen;\n","  room(pstate, llen);\n  cs_varint_encode(n, (uint8_t *) b->buf + pstate->cur_idx - llen, llen);\n")]),
 # errors
 ("g11-arr","G11","catch",[(P,"    emit_byte(p, OP_DUP);\n    if ((res = parse_expr(p)) != MJS_OK) return res;\n    emit_byte(p, OP_APPEND);","    emit_byte(p, OP_DUP);\n    parse_expr(p);\n    emit_byte(p, OP_APPEND);")]),
 ("g11-body","G11","catch",[(P,WH,WH.replace("EXPECT(p, TOK_CLOSE_CURLY);","pnext1(p);"))]),
 ("g11-tern","G11","catch",[(P,"    EXPECT(p, TOK_COLON);\n    PARSE_NESTED(p, res, parse_expr(p));\n    if (res != MJS_OK) return res;\n","    EXPECT(p, TOK_COLON);\n    PARSE_NESTED(p, res, parse_expr(p));\n    res = MJS_OK;\n")]),
 ("g11-list","G11","catch",[(P,"  if (!drop) {\n    emit_byte(p, OP_PUSH_UNDEF);\n  }\n  return res;","  if (!drop) {\n    emit_byte(p, OP_PUSH_UNDEF);\n  }\n  return et == TOK_EOF ? res : MJS_OK;")]),
 ("g11-commit","G11","catch",[(P,"  if (res == MJS_OK) {\n    mjs_bcode_commit(mjs);","  if (res == MJS_OK || mjs->bcode_len == 0) {\n    mjs_bcode_commit(mjs);")]),
 ("g11-keep","G11","catch",[(P,"  } else {\n    mbuf_free(&mjs->bcode_gen);\n  }\n","  }\n")]),
 ("g11-exec","G11","catch",[(X,"  mjs->error = mjs_parse(path, src, mjs);\n","  mjs->error = mjs_parse(path, src, mjs);\n  if (mjs->bcode_len > 0 && path == NULL) mjs->error = MJS_OK;\n")]),
 ("g11-q-ret","G11","quiet",[(P,"  if (res == MJS_OK) {\n    mjs_bcode_commit(mjs);\n  } else {\n    mbuf_free(&mjs->bcode_gen);\n  }\n\n  return res;","  if (res != MJS_OK) {\n    mbuf_free(&mjs->bcode_gen);\n    return res;\n  }\n  mjs_bcode_commit(mjs);\n  return MJS_OK;")]),
 ("g11-q-helper","G11","quiet",[(P,W,HELP+W),(P,WH,WH.replace(WB,"  if ((res = parse_loop_body(p)) != MJS_OK) return res;\n"))]),
 ("g18-q-helper","G18","quiet",[(P,W,HELP+W),(P,WH,WH.replace(WB,"  if ((res = parse_loop_body(p)) != MJS_OK) return res;\n"))]),
]
EDITS=[e for e in EDITS if e]
