E="mjs_exec.c"
G="if (mjs_stack_size(&mjs->loop_addresses) >= get_loop_base(mjs) + 3) {"
CG="case OP_CONTINUE: {\n        "+G; BG="case OP_BREAK: {\n        "+G
RB="        if (mjs->call_stack.len < min_call_stack_len) {"
EDITS=[
 ("g24-cont-len","G24","catch",[(E,CG,CG.replace("get_loop_base(mjs) + 3","3"))]),
 ("g24-break-len","G24","catch",[(E,BG,BG.replace("get_loop_base(mjs) + 3","3"))]),
 ("g24-break-2","G24","catch",[(E,BG,BG.replace("+ 3","+ 2"))]),
 ("g24-cont-0","G24","catch",[(E,CG,CG.replace("+ 3",""))]),
 ("g24-noguard","G24","catch",[(E,BG,BG.replace(G,"if (mjs->loop_addresses.len > 0) {"))]),
 ("g24-base-scope","G24","catch",[(E,"-1 - CALL_STACK_FRAME_ITEM_LOOP_ADDR_IDX));\n}","-1 - CALL_STACK_FRAME_ITEM_SCOPE_IDX));\n}")]),
 ("g24-cont-scopes","G24","catch",[(E,"          size_t scopes_len = mjs_get_int(mjs, *vptr(&mjs->loop_addresses, -3));\n          assert(mjs_stack_size(&mjs->scopes) >= scopes_len);\n          mjs->scopes.len = scopes_len * sizeof(mjs_val_t);\n","")]),
 ("g24-break-scopes","G24","catch",[(E,"          scopes_len = mjs_get_int(mjs, mjs_pop_val(&mjs->loop_addresses));\n          assert(mjs_stack_size(&mjs->scopes) >= scopes_len);\n          mjs->scopes.len = scopes_len * sizeof(mjs_val_t);\n","          scopes_len = mjs_get_int(mjs, mjs_pop_val(&mjs->loop_addresses));\n          (void) scopes_len;\n")]),
 ("g24-break-drop","G24","catch",[(E,"          scopes_len = mjs_get_int(mjs, mjs_pop_val(&mjs->loop_addresses));\n          assert","          scopes_len = mjs_get_int(mjs, vtop(&mjs->loop_addresses));\n          assert")]),
 ("g24-cont-wrongslot","G24","catch",[(E,"*vptr(&mjs->loop_addresses, -3)","*vptr(&mjs->loop_addresses, -2)")]),
 ("g24-ret-noprog","G24","catch",[(E,"  if (off == mjs_bcode_part","  if (0 && off == mjs_bcode_part")]) if 0 else
 ("g24-ret-noprog","G24","catch",[(E,"    min_call_stack_len += CALL_STACK_FRAME_ITEMS_CNT * sizeof(mjs_val_t);","    min_call_stack_len += 0;")]),
 ("g24-ret-len0","G24","catch",[(E,RB,"        if (mjs->call_stack.len == 0) {")]),
 ("g24-ret-less","G24","catch",[(E,RB,"        if (mjs->call_stack.len + 40 < min_call_stack_len) {")]),
 ("g24-q-sub","G24","quiet",[(E,BG,BG.replace("mjs_stack_size(&mjs->loop_addresses) >= get_loop_base(mjs) + 3","mjs_stack_size(&mjs->loop_addresses) > get_loop_base(mjs) + 2"))]),
 ("g24-q-helper","G24","quiet",[(E,"static mjs_val_t mjs_find_scope(","static int has_loop(struct mjs *mjs) {\n  size_t n = mjs_stack_size(&mjs->loop_addresses);\n  return !(n < get_loop_base(mjs) + 3);\n}\n\nstatic mjs_val_t mjs_find_scope("),(E,CG,CG.replace(G,"if (has_loop(mjs)) {")),(E,BG,BG.replace(G,"if (has_loop(mjs)) {"))]),
 ("g24-q-invert","G24","quiet",[(E,BG,"case OP_BREAK: {\n        if (mjs_stack_size(&mjs->loop_addresses) < get_loop_base(mjs) + 3) {\n          mjs_set_errorf(mjs, MJS_SYNTAX_ERROR, \"misplaced 'break'\");\n          break;\n        }\n        {"),(E,"        } else {\n          mjs_set_errorf(mjs, MJS_SYNTAX_ERROR, \"misplaced 'break'\");\n        }\n","        }\n")]),
 ("g24-q-poploop","G24","quiet",[(E,"          mjs->scopes.len = scopes_len * sizeof(mjs_val_t);\n\n          LOG","          while (mjs_stack_size(&mjs->scopes) > scopes_len) mjs_pop_val(&mjs->scopes);\n\n          LOG")]),
 ("g24-q-retgt","G24","quiet",[(E,RB,"        if (!(mjs->call_stack.len >= min_call_stack_len)) {")]),
 ("g24-q-retcount","G24","quiet",[(E,RB,"        if (mjs_stack_size(&mjs->call_stack) < min_call_stack_len / sizeof(mjs_val_t)) {")]),
 ("g24-q-pops","G24","quiet",[(E,"          /* drop \"continue\" address */\n          mjs_pop_val(&mjs->loop_addresses);\n\n          /* pop \"break\" address and jump to it */\n          i = mjs_get_int(mjs, mjs_pop_val(&mjs->loop_addresses)) - 1;\n\n          /* restore scope index */\n          scopes_len = mjs_get_int(mjs, mjs_pop_val(&mjs->loop_addresses));\n","          scopes_len = mjs_get_int(mjs, *vptr(&mjs->loop_addresses, -3));\n          i = mjs_get_int(mjs, *vptr(&mjs->loop_addresses, -2)) - 1;\n          mjs->loop_addresses.len -= 3 * sizeof(mjs_val_t);\n")]),
]
