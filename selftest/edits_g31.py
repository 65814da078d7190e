C="mjs_core.c"; X="mjs_exec.c"; U="mjs_util.c"; S="mjs_ffi.c"; B="mjs_builtin.c"
EDITS=[
 ("g31-die","G31","catch",[(C,'"%.*s", (int) msg_len, msg);','msg);')]),
 ("g31-trace","G31","catch",[(C,'fprintf(fp, "%s", mjs->stack_trace)','fprintf(fp, mjs->stack_trace)')]),
 ("g31-prepend","G31","catch",[(C,'''mg_asprintf(&mjs->error_msg, 0, "%s: %s", new_error_msg, old_error_msg);''','''mg_asprintf(&mjs->error_msg, 0, old_error_msg);''')]),
 ("g31-missing","G31","catch",[(X,'''"[%s] is not defined",
                 mjs_get_cstring(mjs, &key));''','''"[%s] is not defined");''')]),
 ("g31-sizet","G31","catch",[(C,'"%.*s", (int) msg_len, msg);','"%.*s", msg_len, msg);')]),
 ("g31-jprintf","G31","catch",[(U,'''      int ch = ((unsigned char *) s)[i];
      if''','''      int ch = ((unsigned char *) s)[i];
      if (size == 2) { json_printf(out, s); break; }
      if''')]),
 ("g31-long","G31","catch",[(U,'"%s%d%s", "<function@", (int) mjs_get_func_addr(v), ">"','"%s%d%s", "<function@", mjs_get_func_addr(v), ">"')]),
 ("g31-args","G31","catch",[(S,'"got %d actuals, but function takes %d args",','"%s: got %d actuals, but function takes %d args",')]),
 ("g31-load","G31","catch",[(B,'"failed to exec file \\"%s\\"", path','path')]),
 ("g31-q-const","G31","quiet",[(C,'''mg_asprintf(&mjs->error_msg, 0, "%s: %s", new_error_msg, old_error_msg);''','''static const char *const fmts[2] = {"%s: %s", "%s, %s"};
    mg_asprintf(&mjs->error_msg, 0, fmts[err == MJS_OK], new_error_msg, old_error_msg);''')]),
 ("g31-q-wrap","G31","quiet",[(C,'''void mjs_print_error(''','''static void out(FILE *fp, const char *fmt, const char *a) { if (a != NULL) fprintf(fp, fmt, a); }
void mjs_print_error('''),(C,'fprintf(fp, "%s", mjs->stack_trace)','out(fp, "%s", mjs->stack_trace)')]),
 ("g31-q-fputs","G31","quiet",[(C,'fprintf(fp, "%s", mjs->stack_trace)','fputs(mjs->stack_trace, fp)')]),
 ("g31-q-cond","G31","quiet",[(U,'''json_printf(out, "%s", mjs_get_bool(mjs, v) ? "true" : "false")''','''json_printf(out, mjs_get_bool(mjs, v) ? "true" : "false")''')]),
 ("g31-q-put","G31","quiet",[(U,'''        json_printf(out, "%c", ch);''','''        char c1 = (char) ch;
        out->printer(out, &c1, 1);''')]),
 ("g31-q-vwrap","G31","quiet",[(C,'''MJS_PRIVATE void mjs_die(''','''static void fail(struct mjs *mjs, const char *fmt, ...) {
  char *t = NULL;
  va_list ap;
  va_start(ap, fmt);
  mg_avprintf(&t, 0, fmt, ap);
  va_end(ap);
  mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "%s", t);
  free(t);
}
MJS_PRIVATE void mjs_die('''),(C,'mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "%.*s", (int) msg_len, msg);','fail(mjs, "%.*s", (int) msg_len, msg);')]),
]
