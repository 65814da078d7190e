O="mjs_object.c"; A="mjs_array.c"; S="mjs_string.c"
EDITS=[
 ("g20-inline4","G20","catch",[(O,"  if (len <= 5) {","  if (len <= 6) {")]),
 ("g20-strcmp","G20","catch",[(S,"  return len == 0 ? 0 : memcmp(s, b, len);","  return strncmp(s, b, len);")]),
 ("g20-lenonly","G20","catch",[(S,"  if (n != len) {\n    return n - len;\n  }\n  return len == 0 ? 0 : memcmp(s, b, len);","  if (n > len) n = len;\n  return n == 0 ? 0 : memcmp(s, b, n);")]),
 ("g20-delprefix","G20","catch",[(O,"if (n == len && memcmp(s, name, len) == 0) {","if (n >= len && memcmp(s, name, len) == 0) {")]),
 ("g20-delhead","G20","catch",[(O,"      if (prev) {\n        prev->next = prop->next;","      if (prev && prev->next->next) {\n        prev->next = prop->next;")]),
 ("g20-deldouble","G20","catch",[(O,"        prev->next = prop->next;\n      } else","        prev->next = prop->next ? prop->next->next : NULL;\n      } else")]),
 ("g20-sethead","G20","catch",[(O,"    p->next = o->properties;\n    o->properties = p;","    p->next = o->properties ? o->properties->next : NULL;\n    o->properties = p;")]),
 ("g20-setform","G20","catch",[(O,"    if (!mjs_is_string(name_v) ||\n        (name_v & MJS_TAG_MASK) == MJS_TAG_STRING_F) {","    if (!mjs_is_string(name_v)) {")]),
 ("g20-setforeign","G20","catch",[(O,"      name_v = mjs_mk_string(mjs, name, name_len, 1);","      name_v = mjs_mk_string(mjs, name, name_len, name_len < 6);")]),
 ("g20-setnew","G20","catch",[(O,"  p->value = val;\n\nclean:","clean:")]),
 ("g20-next","G20","catch",[(O,"    if (p != NULL) p = p->next;\n  }","    if (p != NULL && p->next != NULL) p = p->next->next;\n  }")]),
 ("g20-nextit","G20","catch",[(O,"    *iterator = mjs_mk_foreign(mjs, p);","    *iterator = mjs_mk_foreign(mjs, p->next ? p->next : p);")]),
 ("g20-arr-fmt","G20","catch",[(A,'''  int n = v_sprintf_s(buf, sizeof(buf), "%lu", index);
  mjs_del''','''  int n = v_sprintf_s(buf, sizeof(buf), "%d", (int) index);
  mjs_del''')]),
 ("g20-arr-len","G20","catch",[(A,"if (ok && n >= len && n < 0xffffffff) {","if (ok && n > len && n < 0xffffffff) {")]),
 ("g20-arr-buf","G20","catch",[(A,"    char buf[20];\n    int n = v_sprintf_s(buf, sizeof(buf), \"%lu\", index);\n    ret","    char buf[8];\n    int n = v_sprintf_s(buf, sizeof(buf), \"%lu\", index);\n    ret")]),
 ("g20-proto-last","G20","catch",[(O,"    if (obj == tortoise) return MJS_UNDEFINED;\n    i++;","    i++;\n    if (i > 2) return MJS_UNDEFINED;")]),
 ("g20-proto-first","G20","catch",[(O,"  mjs_val_t tortoise = obj;\n  int i = 0;","  mjs_val_t tortoise = obj;\n  int i = 0;\n  if ((p = mjs_get_own_property_v(mjs, obj, pn)) != NULL && mjs_get_own_property_v(mjs, p->value, key) != NULL) obj = p->value;")]),
 ("g20-proto-cycle","G20","catch",[(O,"    if ((i & (i - 1)) == 0) tortoise = obj;","    if ((i & (i - 1)) == 0 && i < 2) tortoise = obj;")]),
 ("g20-has","G20","catch",[(A,"        *has = 1;","        *has = !mjs_is_undefined(p->value) && index < 10;")]),
 ("g20-q-memcmp","G20","quiet",[(O,"    for (p = o->properties; p != NULL; p = p->next) {\n      if (mjs_strcmp(mjs, &p->name, name, len) == 0) return p;\n    }\n    return p;","    for (p = o->properties; p != NULL; p = p->next) {\n      size_t n;\n      const char *s = mjs_get_string(mjs, &p->name, &n);\n      if (len == (size_t) ~0) len = strlen(name);\n      if (n == len && !memcmp(name, s, n)) break;\n    }\n    return p;")]),
 ("g20-q-append","G20","quiet",[(O,"    p->next = o->properties;\n    o->properties = p;","    {\n      struct mjs_property **pp = &o->properties;\n      while (*pp != NULL) pp = &(*pp)->next;\n      p->next = NULL;\n      *pp = p;\n    }")]),
 ("g20-q-delpp","G20","quiet",[(O,"  for (prev = NULL, prop = get_object_struct(obj)->properties; prop != NULL;\n       prev = prop, prop = prop->next) {\n    size_t n;\n    const char *s = mjs_get_string(mjs, &prop->name, &n);\n    if (n == len && memcmp(s, name, len) == 0) {\n      if (prev) {\n        prev->next = prop->next;\n      } else {\n        get_object_struct(obj)->properties = prop->next;\n      }\n      mjs_destroy_property(&prop);\n      return 0;\n    }\n  }\n  return -1;","  (void) prev;\n  prop = mjs_get_own_property(mjs, obj, name, len);\n  if (prop == NULL) return -1;\n  {\n    struct mjs_property **pp = &get_object_struct(obj)->properties;\n    while (*pp != prop) pp = &(*pp)->next;\n    *pp = prop->next;\n  }\n  return 0;")]),
 ("g20-q-lookup","G20","quiet",[(O,"  if (len <= 5) {","  if (len < 6 && name != NULL) {")]),
 ("g20-q-idx","G20","quiet",[(A,'''  char buf[20];
  int n = v_sprintf_s(buf, sizeof(buf), "%lu", index);
  mjs_del''','''  char buf[24];
  int n = snprintf(buf, sizeof(buf), "%lu", index);
  mjs_del''')]),
 ("g20-q-bytes","G20","quiet",[(O,"if (n == len && memcmp(s, name, len) == 0) {","size_t k = 0;\n    while (n == len && k < len && s[k] == name[k]) k++;\n    if (n == len && k == len) {")]),
]
