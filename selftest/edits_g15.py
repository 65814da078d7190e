C="mjs_core.c"; P="mjs_parser.c"; S="mjs_string.c"; E="mjs_exec.c"; O="mjs_object.c"; F="mjs_ffi.c"
EDITS=[
 ("g15-depth","G15","catch",[(E,"  if (mjs->exec_depth >= MJS_EXEC_MAX_DEPTH) {","  static int nested;\n  nested++;\n  if (mjs->exec_depth >= MJS_EXEC_MAX_DEPTH) {")]),
 ("g15-resolver","G15","catch",[(F,"void mjs_set_ffi_resolver(struct mjs *mjs, mjs_ffi_resolver_t *dlsym) {\n","static mjs_ffi_resolver_t *s_default;\nvoid mjs_set_ffi_resolver(struct mjs *mjs, mjs_ffi_resolver_t *dlsym) {\n  if (s_default == NULL) s_default = dlsym;\n")]),
 ("g15-err","G15","catch",[(C,"  return mjs->error_msg == NULL || mjs->error_msg[0] == '\\0' ? err_names[err]","  static char buf[64];\n  if (mjs->error_msg != NULL) { strncpy(buf, mjs->error_msg, 63); }\n  return mjs->error_msg == NULL || mjs->error_msg[0] == '\\0' ? err_names[err]")]),
 ("g15-cache","G15","catch",[(O,"MJS_PRIVATE struct mjs_property *mjs_get_own_property(","static struct { struct mjs_property *p; } s_last;\nMJS_PRIVATE struct mjs_property *mjs_get_own_property("),(O,"  o = get_object_struct(obj);\n","  o = get_object_struct(obj);\n  s_last.p = o->properties;\n")]),
 ("g15-helper","G15","catch",[(C,"int mjs_nargs(struct mjs *mjs) {\n","static void set(int *p, int v) { *p = v; }\nstatic int s_nargs;\nint mjs_nargs(struct mjs *mjs) {\n  set(&s_nargs, 1);\n")]),
 ("g15-mbuf","G15","catch",[(S,"MJS_PRIVATE void embed_string(","static struct mbuf s_tmp;\nvoid keep(char *p) { mbuf_append(&s_tmp, p, 1); }\nMJS_PRIVATE void embed_string(")]),
 ("g15-locale","G15","catch",[(C,"struct mjs *mjs_create(void) {","#include <locale.h>\nstruct mjs *mjs_create(void) {\n  setlocale(LC_ALL, \"\");")]),
 ("g15-q-table","G15","quiet",[(C,"  const char *err_names[] = {","  static const char *const err_names[] = {")]),
 ("g15-q-table2","G15","quiet",[(C,"  const char *err_names[] = {","  static const char *err_names[] = {")]),
 ("g15-q-log","G15","quiet",[(E,"  // Push all arguments\n","  LOG(LL_DEBUG, (\"args %d\", nargs));\n")]),
]
