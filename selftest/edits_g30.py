J="mjs_json.c"; U="common/str_util.c"; F="mjs_ffi.c"; Z="frozen/frozen.c"
EDITS=[
("g30-set-val-type","G30","catch",[(F,"  if (idx < MJS_CB_SIGNATURE_MAX_SIZE) {","  if (idx <= MJS_CB_SIGNATURE_MAX_SIZE) {")]),
("g30-args-array","G30","catch",[(F,"  struct ffi_arg args[FFI_MAX_ARGS_CNT];","  struct ffi_arg args[FFI_MAX_ARGS_CNT - 1];")]),
("g30-snquote-quote","G30","catch",[(J,"  i++;\n  if (buf < limit) *buf++ = '\"';\n\n  if (buf < limit) {","  i++;\n  if (buf <= limit) *buf++ = '\"';\n\n  if (buf < limit) {")]),
("g30-hex-unguarded","G30","catch",[(J,"  if (buf < limit) *buf++ = hex_digits[(int) (c & 0xf)];","  *buf++ = hex_digits[(int) (c & 0xf)];")]),
("g30-json-comma-size","G30","catch",[(J,"          b += c_snprintf(b, BUF_LEFT(size, b - buf), \",\");","          b += c_snprintf(b, size, \",\");")]),
("g30-json-bufleft","G30","catch",[(J,"((size_t)(used) < (size)) ? ((size) - (used)) : 0)","((size_t)(used) < (size)) ? ((size) - (used) + 1) : 0)")]),
("g30-itoa-tmp","G30","catch",[(U,"  char tmp[40];","  char tmp[18];")]),
("g30-itoa-pad","G30","catch",[(U,"    while (k < field_width && k < (int) sizeof(tmp) - 1) {","    while (k < field_width) {")]),
("g30-itoa-sign","G30","catch",[(U,"k < (int) sizeof(tmp) - 1) {","k < (int) sizeof(tmp)) {")]),
("g30-path-left","G30","catch",[(Z,"  int left = sizeof(f->path) - n - 1;","  int left = sizeof(f->path) - n;")]),
("g30-path-clamp","G30","catch",[(Z,"  if (size > left) size = left;\n","")]),
("g30-unescape-dst","G30","catch",[(Z,"      if (dst < dend) *dst = *src;","      if (dst <= dend) *dst = *src;")]),
("g30-member-dlen","G30","catch",[(J,"    len = json_unescape(name, name_len, tmp, name_len);","    len = json_unescape(name, name_len, tmp, name_len + 2);")]),
("g30-file-nul","G30","catch",[("common/cs_file.c","malloc(*size + 1);","malloc(*size);")]),
("g30-jsc-name","G30","catch",[("mjs_exec.c","basename_len + strlen(jscext) + 1 /* nul-term */","basename_len + strlen(jscext)")]),
("g30-jsc-name2","G30","catch",[("mjs_exec.c","basename_len + strlen(jscext) + 1 /* nul-term */","basename_len + strlen(jsext) + 1")]),
("g30-stmp","G30","catch",[(J,"    char *stmp = malloc(len + 1);","    char *stmp = malloc(len);")]),
("g30-strdup","G30","catch",[("common/mg_str.c","MG_MALLOC(s.len + (nul_terminate ? 1 : 0))","MG_MALLOC(s.len)")]),
("g30-tostring","G30","catch",[("mjs_conversion.c","    *p = malloc(*sizep + 1);\n    if (*p == NULL) {\n      ret = MJS_OUT_OF_MEMORY;\n      goto clean;\n    }\n    memmove","    *p = malloc(*sizep);\n    if (*p == NULL) {\n      ret = MJS_OUT_OF_MEMORY;\n      goto clean;\n    }\n    memmove")]),
("g30-varint","G30","catch",[("common/cs_varint.c","    if (llen < buf_size) *buf++ = byte;","    if (llen <= buf_size) *buf++ = byte;")]),
("g30-string5","G30","catch",[("mjs_string.c","    if (len <= 4) {","    if (len <= 8) {")]),
("g30-avprintf","G30","catch",[(U,"MG_MALLOC(len + 1)) == NULL) {\n      len = -1; /* LCOV","MG_MALLOC(len)) == NULL) {\n      len = -1; /* LCOV")]),
("g30-circular","G30","catch",[(J,"      strncpy(buf, \"[Circular]\", size);","      strncpy(buf, \"[Circular]\", 11);")]),
("g30-index-buf","G30","catch",[(Z,"        snprintf(buf, sizeof(buf), \"[%d]\", i);","        snprintf(buf, sizeof(buf) + 12, \"[%d]\", i);")]),
("g30-vsn-end","G30","catch",[(U,"C_SNPRINTF_APPEND_CHAR(ch);\n    } else {","if (i <= (int) buf_size) buf[i] = ch;\n      i++;\n    } else {")]),
("g30-apply-args","G30","catch",[("mjs_exec.c","    args = calloc(nargs, sizeof(args[0]));\n    for (i = 0; i < nargs; i++)","    args = calloc(nargs, sizeof(args[0]));\n    for (i = 0; i <= nargs; i++)")]),
("g30-cb-args","G30","catch",[(F,"  args = calloc(1, sizeof(mjs_val_t) * cbargs->sig.args_cnt);","  args = calloc(1, sizeof(mjs_val_t) * (cbargs->sig.args_cnt - 1));")]),
# the same behaviour
("g30-q-itoa-for","G30","quiet",[(U,"    while (k < field_width && k < (int) sizeof(tmp) - 1) {\n      tmp[k++] = '0';\n    }","    for (; k < field_width; k++) {\n      if (k >= (int) sizeof(tmp) - 1) break;\n      tmp[k] = '0';\n    }")]),
("g30-q-itoa-max","G30","quiet",[(U,"    while (k < field_width && k < (int) sizeof(tmp) - 1) {","    int end = field_width;\n    if (end > (int) sizeof(tmp) - 1) end = (int) sizeof(tmp) - 1;\n    while (k < end) {")]),
("g30-q-set-val","G30","quiet",[(F,"  if (idx < MJS_CB_SIGNATURE_MAX_SIZE) {\n    sig->val_types[idx] = type;\n    return 1;\n  } else {\n    /* Index is too large */\n    return 0;\n  }","  if (idx >= MJS_CB_SIGNATURE_MAX_SIZE) return 0;\n  sig->val_types[idx] = type;\n  return 1;")]),
("g30-q-set-val-flag","G30","quiet",[(F,"  if (idx < MJS_CB_SIGNATURE_MAX_SIZE) {\n    sig->val_types[idx] = type;\n    return 1;\n  } else {\n    /* Index is too large */\n    return 0;\n  }","  int fits = idx < MJS_CB_SIGNATURE_MAX_SIZE;\n  if (fits) sig->val_types[idx] = type;\n  return fits;")]),
("g30-q-snquote-put","G30","quiet",[(J,"static int snquote(","static char *put(char *p, char *limit, char c) {\n  if (p < limit) *p++ = c;\n  return p;\n}\n\nstatic int snquote("),(J,"  i++;\n  if (buf < limit) *buf++ = '\"';\n\n  if (buf < limit) {","  i++;\n  buf = put(buf, limit, '\"');\n\n  if (buf < limit) {"),(J,"    i++;\n    if (buf < limit) *buf++ = *s;","    i++;\n    buf = put(buf, limit, *s);")]),
("g30-q-hex-loop","G30","quiet",[(J,"  if (buf < limit) *buf++ = 'u';\n  if (buf < limit) *buf++ = '0';\n  if (buf < limit) *buf++ = '0';","  int k;\n  for (k = 0; k < 3; k++) {\n    if (buf < limit) *buf++ = k == 0 ? 'u' : '0';\n  }")]),
("g30-q-path-helper","G30","quiet",[(Z,"static int json_append_to_path(","static int path_room(struct frozen *f, int size) {\n  int left = sizeof(f->path) - f->path_len - 1;\n  return size > left ? left : size;\n}\nstatic int json_append_to_path("),(Z,"  int left = sizeof(f->path) - n - 1;\n  if (size > left) size = left;\n","  size = path_room(f, size);\n")]),
("g30-q-unescape-put","G30","quiet",[(Z,"      if (dst < dend) *dst = *src;","      if (dst >= dend) {\n        /* only counted */\n      } else {\n        *dst = *src;\n      }")]),
("g30-q-bufleft-fn","G30","quiet",[(J,"#define BUF_LEFT(size, used) (((size_t)(used) < (size)) ? ((size) - (used)) : 0)","static size_t buf_left(size_t size, size_t used) {\n  if (used >= size) return 0;\n  return size - used;\n}\n#define BUF_LEFT(size, used) buf_left(size, used)")]),
("g30-q-varint-while","G30","quiet",[("common/cs_varint.c","    if (llen < buf_size) *buf++ = byte;","    if (llen < buf_size) {\n      buf[0] = byte;\n      buf += 1;\n    }")]),
("g30-q-varint-index","G30","quiet",[("common/cs_varint.c","    if (llen < buf_size) *buf++ = byte;","    if (llen < buf_size) buf[llen] = byte;")]),
("g30-q-apply-while","G30","quiet",[("mjs_exec.c","    for (i = 0; i < nargs; i++) args[i] = mjs_array_get(mjs, v, i);","    i = 0;\n    while (i < nargs) {\n      args[i] = mjs_array_get(mjs, v, i);\n      i++;\n    }")]),
("g30-q-apply-down","G30","quiet",[("mjs_exec.c","    for (i = 0; i < nargs; i++) args[i] = mjs_array_get(mjs, v, i);","    for (i = nargs - 1; i >= 0; i--) args[i] = mjs_array_get(mjs, v, i);")]),
("g30-q-tostring-len","G30","quiet",[("mjs_conversion.c","    *sizep = strlen(buf);\n    *p = malloc(*sizep + 1);","    size_t blen = strlen(buf);\n    *sizep = blen;\n    *p = malloc(blen + 1);")]),
("g30-q-stmp","G30","quiet",[(J,"    char *stmp = malloc(len + 1);","    size_t room = len + 1;\n    char *stmp = malloc(room);")]),
("g30-q-strdup-size","G30","quiet",[("common/mg_str.c","    char *sc = (char *) MG_MALLOC(s.len + (nul_terminate ? 1 : 0));","    size_t room = s.len;\n    if (nul_terminate) room++;\n    char *sc = (char *) MG_MALLOC(room);")]),
("g30-q-snquote-index","G30","quiet",[(J,"  size_t i = 0;\n\n  i++;\n  if (buf < limit) *buf++ = '\"';","  size_t i = 0, used = 0;\n\n  i++;\n  if (used < size) buf[used++] = '\"';\n  buf += used;")]),
("g30-q-hex-template","G30","quiet",[(J,"  if (buf < limit) *buf++ = 'u';\n  if (buf < limit) *buf++ = '0';\n  if (buf < limit) *buf++ = '0';","  const char *t = \"u00\";\n  while (*t != '\\0') {\n    if (buf >= limit) break;\n    *buf++ = *t++;\n  }")]),
("g30-q-path-sum","G30","quiet",[(Z,"  int left = sizeof(f->path) - n - 1;\n  if (size > left) size = left;\n","  if (n + size > (int) sizeof(f->path) - 1) size = (int) sizeof(f->path) - 1 - n;\n")]),
("g30-q-path-end","G30","quiet",[(Z,"  f->path[n + size] = '\\0';\n  f->path_len += size;\n","  f->path_len += size;\n  f->path[f->path_len] = '\\0';\n")]),
("g30-q-unescape-count","G30","quiet",[(Z,"      if (dst < dend) *dst = *src;","      if (dst - orig_dst < dlen) *dst = *src;")]),
("g30-q-varint-left","G30","quiet",[("common/cs_varint.c","    if (llen < buf_size) *buf++ = byte;","    if (buf_size > 0) {\n      *buf++ = byte;\n      buf_size--;\n    }")]),
("g30-q-itoa-pointer","G30","quiet",[(U,"    if (rem < 10) {\n      tmp[k++] = '0' + rem;\n    } else {\n      tmp[k++] = 'a' + (rem - 10);\n    }","    char *d = tmp + k;\n    *d = rem < 10 ? '0' + rem : 'a' + (rem - 10);\n    k++;")]),
("g30-q-itoa-digits","G30","quiet",[(U,"    if (rem < 10) {\n      tmp[k++] = '0' + rem;\n    } else {\n      tmp[k++] = 'a' + (rem - 10);\n    }","    tmp[k] = \"0123456789abcdef\"[rem];\n    ++k;")]),
("g30-q-json-advance","G30","quiet",[(J,"          b += c_snprintf(b, BUF_LEFT(size, b - buf), \",\");","          size_t used = b - buf;\n          size_t left = used < size ? size - used : 0;\n          b += c_snprintf(b, left, \",\");")]),
("g30-q-circular-copy","G30","quiet",[(J,"      strncpy(buf, \"[Circular]\", size);","      if (size > 0) strncpy(buf, \"[Circular]\", size);")]),
("g30-q-gc-loop","G30","quiet",[("mjs_gc.c","  for (cur = GC_CELL_OP(a, b->base, +, 0);\n       cur < GC_CELL_OP(a, b->base, +, b->size);\n       cur = GC_CELL_OP(a, cur, +, 1)) {","  size_t k;\n  for (k = 0; k < b->size; k++) {\n    cur = GC_CELL_OP(a, b->base, +, k);")]),
("g30-q-string-switch","G30","quiet",[("mjs_string.c","    if (len <= 4) {","    if (len < 5) {")]),
("g30-q-file-room","G30","quiet",[("common/cs_file.c","    data = (char *) malloc(*size + 1);","    size_t room = *size;\n    room += 1;\n    data = (char *) malloc(room);")]),
("g30-q-args-while","G30","quiet",[(F,"  for (i = 0; i < cbargs->sig.args_cnt; i++) {","  int n = cbargs->sig.args_cnt;\n  for (i = 0; i != n; i++) {")]),
("g30-q-nargs-limit","G30","quiet",[(F,"  if (nargs != psig->args_cnt) {","  int want = psig->args_cnt;\n  if (nargs < want || nargs > want) {")]),
("g30-q-sig-while","G30","quiet",[(F,"    sig->args_cnt++;","    sig->args_cnt = sig->args_cnt + 1;")]),
("g30-out-size","G30","catch",[("mjs_conversion.c","JSON_OUT_BUF(buf, sizeof(buf))","JSON_OUT_BUF(buf, 64)")]),
("g30-out-buf","G30","catch",[("mjs_util.c","JSON_OUT_BUF(buf, n)","JSON_OUT_BUF(buf, n + 1)")]),
("g30-mbuf-insert","G30","catch",[("common/mbuf.c","  if (a->len + len <= a->size) {\n    memmove","  if (a->len + len <= a->size + 1) {\n    memmove")]),
("g30-q-mbuf-insert","G30","quiet",[("common/mbuf.c","  if (a->len + len <= a->size) {\n    memmove","  size_t need = a->len + len;\n  if (a->size >= need) {\n    memmove")]),
("g30-printer-idx","G30","catch",[(Z,"    if (idx >= out->u.buf.size) idx = out->u.buf.size - 1;","    if (idx > out->u.buf.size) idx = out->u.buf.size - 1;")]),
("g30-printer-avail","G30","catch",[(Z,"  size_t avail = out->u.buf.size - out->u.buf.len;","  size_t avail = out->u.buf.size;")]),
("g30-q-printer","G30","quiet",[(Z,"  size_t avail = out->u.buf.size - out->u.buf.len;\n  size_t n = len < avail ? len : avail;","  size_t n = len;\n  if (n > out->u.buf.size - out->u.buf.len) n = out->u.buf.size - out->u.buf.len;")]),
("g30-vsn-term","G30","catch",[(U,"    buf[i < (int) buf_size ? i : (int) buf_size - 1] = '\\0';","    buf[i < (int) buf_size ? i : (int) buf_size] = '\\0';")]),
("g30-append-char","G30","catch",[(U,"    if (i < (int) buf_size) buf[i] = ch; \\","    if (i <= (int) buf_size) buf[i] = ch; \\")]),
("g30-snquote-nul","G30","catch",[(J,"  if (buf < limit) {\n    *buf = '\\0';","  if (buf <= limit && size != 0) {\n    *buf = '\\0';")]),
("g30-snquote-special","G30","catch",[(J,"      if (buf < limit) *buf++ = '\\\\';\n      if (buf < limit) *buf++ = specials[*s - '\\b'];","      if (buf < limit) {\n        *buf++ = '\\\\';\n        *buf++ = specials[*s - '\\b'];\n      }")]),
("g30-sig-loop","G30","catch",[(F,"  for (i = 1; i < MJS_CB_SIGNATURE_MAX_SIZE; i++) {","  for (i = 1; i <= MJS_CB_SIGNATURE_MAX_SIZE; i++) {")]),
("g30-member-tmp","G30","catch",[(J,"  char *tmp = (char *) malloc(name_len + 1);","  char *tmp = (char *) malloc(name_len / 2 + 1);")]),
("g30-number-buf","G30","catch",[("mjs_conversion.c","    *sizep = strlen(buf);\n    *p = malloc(*sizep + 1);","    *p = malloc(strlen(buf));\n    *sizep = strlen(buf);")]),
("g30-q-nargs-flag","G30","quiet",[(F,"  if (nargs != psig->args_cnt) {","  int bad = nargs != psig->args_cnt;\n  if (bad) {")]),
]
