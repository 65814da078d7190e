G = "mjs_gc.c"
EDITS = [
 ("g01-drop-scopes", "G01", "catch", [(G, "  gc_mark_mbuf_val(mjs, &mjs->scopes);\n", "")]),
 ("g01-full-only", "G01", "catch", [(G, "  gc_mark_mbuf_val(mjs, &mjs->call_stack);\n", "  if (full) gc_mark_mbuf_val(mjs, &mjs->call_stack);\n")]),
 ("g01-startone", "G01", "catch", [(G, "for (vp = vals; vp < vals + len; vp++) {", "for (vp = vals + 1; vp < vals + len; vp++) {")]),
 ("g01-short", "G01", "catch", [(G, "mbuf->len / sizeof(mjs_val_t));", "mbuf->len / sizeof(mjs_val_t) - 1);")]),
 ("g01-valsfew", "G01", "catch", [(G, "sizeof(mjs->vals) / sizeof(mjs_val_t));", "2);")]),
 ("g01-nouserdata", "G01", "catch", [(G, "    gc_mark(mjs, &cbargs->userdata);\n", "")]),
 ("g01-firstcb", "G01", "catch", [(G, "    gc_mark(mjs, &cbargs->userdata);\n", "    gc_mark(mjs, &cbargs->userdata);\n    if (!mjs_is_object(cbargs->func)) break;\n")]),
 ("g01-noname", "G01", "catch", [(G, "    gc_mark(mjs, &prop->name);\n", "")]),
 ("g01-strvalonly", "G01", "catch", [(G, "    gc_mark(mjs, &prop->value);\n", "    if (mjs_is_object(prop->value) || mjs_is_string(prop->value)) gc_mark(mjs, &prop->value);\n")]),
 ("g01-noarr", "G01", "catch", [(G, "  if (mjs_is_object(*v)) {\n    gc_mark_object", "  if ((*v & MJS_TAG_MASK) == MJS_TAG_OBJECT) {\n    gc_mark_object")]),
 ("g01-noffi", "G01", "catch", [(G, "  if (mjs_is_ffi_sig(*v)) {\n    gc_mark_ffi_sig(mjs, v);\n  }\n", "")]),
 ("g01-nounmark", "G01", "catch", [(G, "        UNMARK(cur);\n#if", "#if")]),
 ("g01-noffisweep", "G01", "catch", [(G, "  gc_sweep(mjs, &mjs->ffi_sig_arena, 0);\n", "")]),
 ("g01-sweepfull", "G01", "catch", [(G, "  gc_sweep(mjs, &mjs->property_arena, 0);\n", "  if (full) gc_sweep(mjs, &mjs->property_arena, 0);\n")]),
 ("g01-order", "G01", "catch", [(G, "  gc_mark_ffi_cbargs_list(mjs, mjs->ffi_cb_args);\n\n  gc_compact_strings(mjs);\n", "  gc_compact_strings(mjs);\n  gc_mark_ffi_cbargs_list(mjs, mjs->ffi_cb_args);\n")]),
 ("g01-propmark", "G01", "catch", [(G, "    MARK(prop);\n", "")]),
 ("g01-nodestr", "G01", "catch", [(G, "          if (a->destructor != NULL) {", "          if (a->destructor != NULL && b->next != NULL) {")]),
 ("g01-early", "G01", "catch", [(G, "void mjs_gc(struct mjs *mjs, int full) {\n", "void mjs_gc(struct mjs *mjs, int full) {\n  int skip = !full && mjs->ffi_cb_args == NULL;\n"), (G, "  gc_mark_mbuf_val(mjs, &mjs->stack);\n", "  if (!skip) gc_mark_mbuf_val(mjs, &mjs->stack);\n")]),
 # behaviour-preserving
 ("g01-q-idx", "G01", "quiet", [(G, "  mjs_val_t *vp;\n  for (vp = vals; vp < vals + len; vp++) {\n    gc_mark(mjs, vp);\n  }\n", "  size_t i;\n  for (i = 0; i < len; i++) {\n    gc_mark(mjs, &vals[i]);\n  }\n")]),
 ("g01-q-while", "G01", "quiet", [(G, "  mjs_val_t *vp;\n  for (vp = vals; vp < vals + len; vp++) {\n    gc_mark(mjs, vp);\n  }\n", "  while (len > 0) {\n    gc_mark(mjs, vals);\n vals++; len--;  }\n")]),
 ("g01-q-rev", "G01", "quiet", [(G, "  mjs_val_t *vp;\n  for (vp = vals; vp < vals + len; vp++) {\n    gc_mark(mjs, vp);\n  }\n", "  while (len-- > 0) {\n    gc_mark(mjs, &vals[len]);  }\n")]),
 ("g01-q-helper", "G01", "quiet", [(G, "/* Perform garbage collection */\n", "static void roots(struct mjs *mjs) {\n  gc_mark(mjs, &mjs->vals.this_obj);\n  gc_mark(mjs, &mjs->vals.last_getprop_obj);\n  gc_mark(mjs, &mjs->vals.dataview_proto);\n gc_mark_mbuf_pt(mjs, &mjs->owned_values);}\n"), (G, "  gc_mark_val_array(mjs, (mjs_val_t *) &mjs->vals,\n                    sizeof(mjs->vals) / sizeof(mjs_val_t));\n\n  gc_mark_mbuf_pt(mjs, &mjs->owned_values);\n", "  roots(mjs);\n")]),
 ("g01-q-guard", "G01", "quiet", [(G, "  gc_mark_mbuf_val(mjs, &mjs->call_stack);\n", "  if (mjs->call_stack.len > 0) gc_mark_mbuf_val(mjs, &mjs->call_stack);\n")]),
 ("g01-q-dowhile", "G01", "quiet", [(G, "  for (; cbargs != NULL; cbargs = cbargs->next) {\n    gc_mark(mjs, &cbargs->func);\n    gc_mark(mjs, &cbargs->userdata);\n  }\n", "  if (cbargs == NULL) return;\n  do {\n    gc_mark(mjs, &cbargs->userdata);\n    gc_mark(mjs, &cbargs->func);\n    cbargs = cbargs->next;\n  } while (cbargs != NULL);\n")]),
 ("g01-q-else", "G01", "quiet", [(G, "  if (mjs_is_ffi_sig(*v)) {\n    gc_mark_ffi_sig(mjs, v);\n  }\n  if (", "  else if (mjs_is_ffi_sig(*v)) {\n    gc_mark_ffi_sig(mjs, v);\n  }\n  else if (")]),
 ("g01-q-propwhile", "G01", "quiet", [(G, "  for ((prop = obj_base->properties), MARK(obj_base); prop != NULL;\n       prop = next) {", "  prop = obj_base->properties; MARK(obj_base); while (prop != NULL) {"), (G, "    MARK(prop);\n", "    MARK(prop);\n    prop = next;\n")]),
 ("g01-q-sweepinv", "G01", "quiet", [(G, "      if (MARKED(cur)) {\n        /* The cell is used and marked  */\n        UNMARK(cur);\n#if MJS_MEMORY_STATS\n        a->alive++;\n#endif\n      } else {", "      if (MARKED(cur)) {\n        /* The cell is used and marked  */\n        UNMARK(cur);\n        a->alive++;\n  continue;\n    } \n {")]),
 ("g01-q-sweeploop", "G01", "quiet", [(G, "  gc_sweep(mjs, &mjs->object_arena, 0);\n  gc_sweep(mjs, &mjs->property_arena, 0);\n  gc_sweep(mjs, &mjs->ffi_sig_arena, 0);\n", "  {\n struct gc_arena *as[3]; int i; as[0]=&mjs->object_arena; as[1]=&mjs->property_arena; as[2]=&mjs->ffi_sig_arena;\n for (i = 0; i < 3; i++) gc_sweep(mjs, as[i], 0);\n }\n")]),
 ("g01-q-next", "G01", "quiet", [(G, "    next = prop->next;\n    MARK(prop);\n", "    MARK(prop);\n    next = (struct mjs_property *) ((uintptr_t) prop->next & ~(uintptr_t) 1);\n")]),
]
