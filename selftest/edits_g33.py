E="mjs_exec.c"; A="mjs_array.c"; S="mjs_string.c"; U="mjs_util.c"
EDITS=[
 ("g33-splice-off","G33","catch",[(A,"      if (i >= start - delta) {","      if (i > start - delta) {")]),
 ("g33-splice-dir","G33","catch",[(A,"    for (i = arr_len - 1; i >= start; i--) {","    for (i = start; i < arr_len; i++) {")]),
 ("g33-splice-neg","G33","catch",[(A,"  } else if (delete_cnt < 0) {\n    delete_cnt = 0;\n  }","  }")]),
 ("g33-splice-clamp","G33","catch",[(A,"  if (delete_cnt > arr_len - start) {\n    delete_cnt = arr_len - start;\n  } else","  if (delete_cnt > arr_len) {\n    delete_cnt = arr_len;\n  } else")]),
 ("g33-q-del","G33","quiet",[(A,"  mjs_array_del(mjs, arr, from);\n","  if (from > to) mjs_array_del(mjs, arr, from);\n")]),
 ("g33-splice-ins","G33","catch",[(A,"    mjs_array_set(mjs, mjs->vals.this_obj, start + i,\n                  mjs_arg(mjs, SPLICE_NEW_ITEM_IDX + i));","    mjs_array_set(mjs, mjs->vals.this_obj, start + new_items_cnt - 1 - i,\n                  mjs_arg(mjs, SPLICE_NEW_ITEM_IDX + i));")]),
 ("g33-push-arg","G33","catch",[(A,"  for (i = 0; i < nargs; i++) {\n    rcode = mjs_array_push(mjs, mjs->vals.this_obj, mjs_arg(mjs, i));","  for (i = nargs - 1; i >= 0; i--) {\n    rcode = mjs_array_push(mjs, mjs->vals.this_obj, mjs_arg(mjs, i));")]),
 ("g33-push-len","G33","catch",[(A,"  ret = mjs_mk_number(mjs, mjs_array_length(mjs, mjs->vals.this_obj));","  ret = mjs_mk_number(mjs, nargs);")]),
 ("g33-norm","G33","catch",[(U,"  if (idx > size) {\n    idx = size;","  if (idx > size + 1) {\n    idx = size;")]),
 ("g33-slice-end","G33","catch",[(S,"  if (endSlice < beginSlice) {\n    endSlice = beginSlice;\n  }","  if (endSlice < 0) {\n    endSlice = beginSlice;\n  }")]),
 ("g33-slice-neg","G33","catch",[(S,"    endSlice = mjs_normalize_idx(mjs_get_int(mjs, endSlice_v), size);","    endSlice = mjs_get_int(mjs, endSlice_v);\n    if (endSlice > (int) size) endSlice = size;")]),
 ("g33-indexof-from","G33","catch",[(S,"mjs_mk_number(mjs, (int) (substr_p - str));","mjs_mk_number(mjs, (int) (substr_p - str - idx));")]),
 ("g33-indexof-len","G33","catch",[(S,"    mgstr.len = str_len - idx;","    mgstr.len = str_len;")]),
 ("g33-indexof-clamp","G33","catch",[(S,"    if ((size_t) idx > str_len) idx = str_len;\n","    if ((size_t) idx > str_len + 1) idx = str_len;\n")]),
 ("g33-code-signed","G33","catch",[(S,"((unsigned char *) s)[idx]","s[idx]")]),
 ("g33-code-end","G33","catch",[(S,"  if (idx >= 0 && idx < (int) size) {","  if (idx >= 0 && idx <= (int) size) {")]),
 ("g33-sub-end","G33","catch",[(E,"    if (idx < val_len) {","    if (idx <= val_len) {")]),
 ("g33-sub-int","G33","catch",[(E,"    if (idx < val_len) {","    if ((int) idx < (int) val_len) {")]),
 ("g33-prop","G33","catch",[(E,'  } else if (name_is(name, name_len, "slice")) {\n    *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_slice);','  } else if (name_is(name, name_len, "slice")) {\n    *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_index_of);')]),
 ("g33-prefix","G33","catch",[(E,"return name_len == strlen(s) && memcmp(name, s, name_len) == 0;","return name_len <= strlen(s) && memcmp(name, s, name_len) == 0;")]),
 ("g33-q-splice","G33","quiet",[(A,"  if (delete_cnt > arr_len - start) {\n    delete_cnt = arr_len - start;\n  } else if (delete_cnt < 0) {\n    delete_cnt = 0;\n  }","  if (delete_cnt < 0) delete_cnt = 0;\n  if (start + delete_cnt > arr_len) delete_cnt = arr_len - start;")]),
 ("g33-q-order","G33","quiet",[(A,"    for (i = start; i < arr_len; i++) {\n      if (i >= start - delta) {\n        move_item(mjs, mjs->vals.this_obj, i, i + delta);\n      } else {\n        mjs_array_del(mjs, mjs->vals.this_obj, i);\n      }\n    }","    for (i = start; i < start - delta; i++) {\n      mjs_array_del(mjs, mjs->vals.this_obj, i);\n    }\n    for (i = start - delta; i < arr_len; i++) {\n      move_item(mjs, mjs->vals.this_obj, i, i + delta);\n    }")]),
 ("g33-q-slice","G33","quiet",[(S,"  if (endSlice < beginSlice) {\n    endSlice = beginSlice;\n  }\n\n  ret =","  if (endSlice <= beginSlice) {\n    ret = mjs_mk_string(mjs, \"\", 0, 1);\n    goto clean;\n  }\n\n  ret =")]),
 ("g33-q-index","G33","quiet",[(S,"    substr_p = mg_strstr(mgstr, mgsubstr);\n    if (substr_p != NULL) {","    substr_p = NULL;\n    for (; (size_t) idx + substr_len <= str_len; idx++) {\n      if (memcmp(str + idx, substr, substr_len) == 0) {\n        substr_p = str + idx;\n        break;\n      }\n    }\n    (void) mgstr;\n    (void) mgsubstr;\n    if (substr_p != NULL) {")]),
 ("g33-q-code","G33","quiet",[(S,"    ret = mjs_mk_number(mjs, ((unsigned char *) s)[idx]);","    unsigned c = s[idx] & 0xff;\n    ret = mjs_mk_number(mjs, c);")]),
 ("g33-q-prop","G33","quiet",[(E,"return name_len == strlen(s) && memcmp(name, s, name_len) == 0;","return strlen(s) == name_len && strncmp(s, name, name_len) == 0;")]),
]
