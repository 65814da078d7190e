EDITS = [
 ("g25-line-comment", "G25", "catch", [("mjs_tok.c", "while (p->pos[0] != '\\0' && p->pos[0] != '\\n') p->pos++;", "while (p->pos[0] != '\\n') p->pos++;")]),
 ("g25-str-escape-nul", "G25", "catch", [("mjs_tok.c", "if (p->pos[0] == '\\\\' && p->pos[1] != '\\0' &&\n        (p->pos[1]", "if (p->pos[0] == '\\\\' &&\n        (p->pos[1]")]),
 ("g25-step", "G25", "catch", [("mjs_tok.c", "  if (p->pos[0] != '\\0') p->pos++;\n", "  p->pos++;\n")]),
 ("g25-block-comment", "G25", "catch", [("mjs_tok.c", "        if (p->pos[0] == '*' && p->pos[1] == '/') {\n          p->pos += 2;\n          break;\n        }\n        p->pos++;\n      }\n", "        if (p->pos[0] == '*' && p->pos[1] == '/') break;\n        p->pos++;\n      }\n      p->pos += 2;\n")]),
 ("g25-longtok-second", "G25", "catch", [("mjs_tok.c", "if (p->pos[0] == a && p->pos[1] == b && p->pos[2] == c) {\n    p->tok.len += 2;", "if (p->pos[0] == a && p->pos[2] == c && p->pos[1] == b) {\n    p->tok.len += 2;")]),
 ("g25-json-hex", "G25", "catch", [("frozen/frozen.c", "if (f->cur + 1 < f->end && f->cur[0] == '0'", "if (f->cur[0] == '0'")]),
 ("g25-json-fraction", "G25", "catch", [("frozen/frozen.c", "      f->cur++;\n      EXPECT(f->cur < f->end, JSON_STRING_INCOMPLETE);\n      EXPECT(json_isdigit(f->cur[0]), JSON_STRING_INVALID);\n      while (f->cur < f->end && json_isdigit(f->cur[0])) f->cur++;\n    }\n    if (", "      f->cur++;\n      EXPECT(json_isdigit(f->cur[0]), JSON_STRING_INVALID);\n      while (f->cur < f->end && json_isdigit(f->cur[0])) f->cur++;\n    }\n    if (")]),
 ("g25-json-digits", "G25", "catch", [("frozen/frozen.c", "  } else {\n    EXPECT(json_isdigit(f->cur[0]), JSON_STRING_INVALID);\n    while (f->cur < f->end && json_isdigit(f->cur[0])) f->cur++;", "  } else {\n    EXPECT(json_isdigit(f->cur[0]), JSON_STRING_INVALID);\n    while (json_isdigit(f->cur[0])) f->cur++;")]),
 ("g25-json-expect", "G25", "catch", [("frozen/frozen.c", "    if (i >= n) return JSON_STRING_INCOMPLETE;\n", "    if (i > n) return JSON_STRING_INCOMPLETE;\n")]),
 ("g25-json-escape", "G25", "catch", [("frozen/frozen.c", "  if (len < 2) return JSON_STRING_INCOMPLETE;\n", "")]),
 ("g25-json-u", "G25", "catch", [("frozen/frozen.c", "return len < 6 ? JSON_STRING_INCOMPLETE", "return len < 5 ? JSON_STRING_INCOMPLETE")]),
 ("g25-unescape-u", "G25", "catch", [("frozen/frozen.c", "if (send - src < 5) return", "if (send - src < 4) return")]),
 ("g25-unescape-end", "G25", "catch", [("frozen/frozen.c", "if (++src >= send) return", "if (++src > send) return")]),
 ("g25-stmp", "G25", "catch", [("mjs_json.c", "stmp = malloc(len + 1)", "stmp = malloc(len)")]),
 ("g25-stmp-nul", "G25", "catch", [("mjs_json.c", "    stmp[len] = '\\0'; /* numbers are converted by strtod() */\n", "")]),
 ("g25-file-nul", "G25", "catch", [("common/cs_file.c", "      data[*size] = '\\0';\n", "      data[*size - 1] = '\\0';\n")]),
 ("g25-file-short", "G25", "catch", [("common/cs_file.c", "data = (char *) malloc(*size + 1);", "data = (char *) malloc(*size);")]),
 ("g25q-local", "G25", "quiet", [("mjs_tok.c", "      while (p->pos[0] != '\\0' && p->pos[0] != '\\n') p->pos++;\n", "      const char *s = p->pos;\n      while (*s && *s != '\\n') s++;\n      p->pos = s;\n")]),
 ("g25q-strncmp", "G25", "quiet", [("mjs_tok.c", "if (p->pos[0] == '/' && p->pos[1] == '/') {", "if (strncmp(p->pos, \"//\", 2) == 0) {")]),
 ("g25q-for", "G25", "quiet", [("mjs_tok.c", "  while (mjs_is_ident(p->pos[0]) || mjs_is_digit(p->pos[0])) p->pos++;\n  p->tok.len = p->pos - p->tok.ptr;\n  p->pos--;\n  return TOK_IDENT;", "  for (;;) {\n    int c = p->pos[0];\n    if (!mjs_is_digit(c) && !mjs_is_ident(c)) break;\n    p->pos++;\n  }\n  p->tok.len = (int) (p->pos - p->tok.ptr);\n  --p->pos;\n  return TOK_IDENT;")]),
 ("g25q-index", "G25", "quiet", [("mjs_tok.c", "  while (mjs_is_ident(p->pos[0]) || mjs_is_digit(p->pos[0])) p->pos++;\n  p->tok.len = p->pos - p->tok.ptr;\n  p->pos--;\n  return TOK_IDENT;", "  int n = 0;\n  while (mjs_is_ident(p->pos[n]) || mjs_is_digit(p->pos[n])) n++;\n  p->pos += n;\n  p->tok.len = p->pos - p->tok.ptr;\n  p->pos--;\n  return TOK_IDENT;")]),
 ("g25q-left", "G25", "quiet", [("frozen/frozen.c", "  while (f->cur < f->end && json_isspace(*f->cur)) f->cur++;\n", "  for (; json_left(f) > 0; f->cur++) {\n    if (!json_isspace(*f->cur)) break;\n  }\n")]),
 ("g25q-json-local", "G25", "quiet", [("frozen/frozen.c", "    while (f->cur < f->end && json_isdigit(f->cur[0])) f->cur++;\n    if (f->cur < f->end && f->cur[0] == '.') {", "    {\n      const char *c = f->cur;\n      while (c < f->end && json_isdigit(*c)) c++;\n      f->cur = c;\n    }\n    if (f->cur < f->end && f->cur[0] == '.') {")]),
 ("g25q-stmp", "G25", "quiet", [("mjs_json.c", "    char *stmp = malloc(len + 1);\n    memcpy(stmp, str, len);\n    stmp[len] = '\\0'; /* numbers are converted by strtod() */\n", "    size_t room = len + 1;\n    char *stmp = (char *) malloc(room);\n    stmp[len] = 0;\n    memcpy(stmp, str, len);\n")]),
 ("g25q-calloc", "G25", "quiet", [("mjs_json.c", "    char *stmp = malloc(len + 1);\n    memcpy(stmp, str, len);\n    stmp[len] = '\\0'; /* numbers are converted by strtod() */\n", "    char *stmp = calloc(1, len + 1);\n    memcpy(stmp, str, len);\n")]),
]
