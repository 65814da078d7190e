From cac9f435fb745f5d9619f5c4a3a1d838697629a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:56 +0000
Subject: [PATCH 01/43] fix: mark saved call receivers (arg_stack) during
 garbage collection

---
 src/mjs_gc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mjs_gc.c b/src/mjs_gc.c
index a129fa2..6cb79c4 100644
--- a/src/mjs_gc.c
+++ b/src/mjs_gc.c
@@ -494,6 +494,7 @@ void mjs_gc(struct mjs *mjs, int full) {
   gc_mark_mbuf_val(mjs, &mjs->scopes);
   gc_mark_mbuf_val(mjs, &mjs->stack);
   gc_mark_mbuf_val(mjs, &mjs->call_stack);
+  gc_mark_mbuf_val(mjs, &mjs->arg_stack);
 
   gc_mark_ffi_cbargs_list(mjs, mjs->ffi_cb_args);
 
-- 
2.43.0


From 834c56560451fb1006243385a0aff7557fa2505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:01 +0000
Subject: [PATCH 02/43] fix: re-read the argument of gc() after collecting,
 strings may have moved

---
 src/mjs_builtin.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mjs_builtin.c b/src/mjs_builtin.c
index 6f51e08..dd0f95c 100644
--- a/src/mjs_builtin.c
+++ b/src/mjs_builtin.c
@@ -118,7 +118,8 @@ static void mjs_chr(struct mjs *mjs) {
 static void mjs_do_gc(struct mjs *mjs) {
   mjs_val_t arg0 = mjs_arg(mjs, 0);
   mjs_gc(mjs, mjs_is_boolean(arg0) ? mjs_get_bool(mjs, arg0) : 0);
-  mjs_return(mjs, arg0);
+  /* GC might have moved the argument if it's a string, so get it again */
+  mjs_return(mjs, mjs_arg(mjs, 0));
 }
 
 static void mjs_s2o(struct mjs *mjs) {
-- 
2.43.0


From 71696ef735500b7e45c16e7e03d80b33f1549eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:01 +0000
Subject: [PATCH 03/43] fix: mjs_apply: drop the frame and arguments of native
 functions, restore this from the frame

---
 src/mjs_exec.c | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index bd48fea..34fc0c9 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1121,7 +1121,7 @@ mjs_err_t mjs_call(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
 mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
                     mjs_val_t this_val, int nargs, mjs_val_t *args) {
-  mjs_val_t r, prev_this_val, retval_stack_idx, *resp;
+  mjs_val_t r, retval_stack_idx;
   int i;
 
   if (!mjs_is_function(func) && !mjs_is_foreign(func) &&
@@ -1131,11 +1131,8 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
   LOG(LL_VERBOSE_DEBUG, ("applying func %d", (int) mjs_get_func_addr(func)));
 
-  prev_this_val = mjs->vals.this_obj;
-
   /* Push callable which will be later replaced with the return value */
   mjs_push(mjs, func);
-  resp = vptr(&mjs->stack, -1);
 
   /* Remember index by which return value should be written */
   retval_stack_idx = mjs_mk_number(mjs, (double) mjs_stack_size(&mjs->stack));
@@ -1151,29 +1148,35 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
   /* Push call stack frame, just like OP_CALL does that */
   call_stack_push_frame(mjs, MJS_BCODE_OFFSET_EXIT, retval_stack_idx);
 
-  if (mjs_is_foreign(func)) {
-    ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
-    if (res != NULL) *res = *resp;
-  } else if (mjs_is_ffi_sig(func)) {
-    mjs_ffi_call2(mjs);
-    if (res != NULL) *res = *resp;
+  if (mjs_is_foreign(func) || mjs_is_ffi_sig(func)) {
+    if (mjs_is_foreign(func)) {
+      ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
+    } else {
+      mjs_ffi_call2(mjs);
+    }
+
+    /*
+     * Native functions don't execute OP_RETURN, so drop the frame and the
+     * arguments, and pop the returned value
+     */
+    call_stack_restore_frame(mjs);
+    r = mjs_pop(mjs);
   } else {
     size_t addr = mjs_get_func_addr(func);
     mjs_execute(mjs, addr, &r);
-    if (res != NULL) *res = r;
-  }
 
-  /*
-   * If there was an error, we need to restore frame and do the cleanup
-   * which is otherwise done by OP_RETURN
-   */
-  if (mjs->error != MJS_OK) {
-    call_stack_restore_frame(mjs);
+    /*
+     * If there was an error, we need to restore frame and do the cleanup
+     * which is otherwise done by OP_RETURN
+     */
+    if (mjs->error != MJS_OK) {
+      call_stack_restore_frame(mjs);
 
-    // Pop cell at which the returned value should've been written
-    mjs_pop(mjs);
+      // Pop cell at which the returned value should've been written
+      mjs_pop(mjs);
+    }
   }
-  mjs->vals.this_obj = prev_this_val;
+  if (res != NULL) *res = r;
 
   return mjs->error;
 }
-- 
2.43.0


From a1e20b153134003295d91fa861a7818b7d3958e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:34 +0000
Subject: [PATCH 04/43] fix: parser: leave the nesting level when a block ends

---
 src/mjs_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 7d9f383..24ff9c1 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -173,6 +173,7 @@ static mjs_err_t parse_block(struct pstate *p, int mkscope) {
   LOG(LL_VERBOSE_DEBUG, ("[%.*s]", 10, p->tok.ptr));
   if (mkscope) emit_byte(p, OP_NEW_SCOPE);
   res = parse_statement_list(p, TOK_CLOSE_CURLY);
+  p->depth--;
   EXPECT(p, TOK_CLOSE_CURLY);
   if (mkscope) emit_byte(p, OP_DEL_SCOPE);
   return res;
-- 
2.43.0


From b9e72f094a11feab95523a83dac76bee74624f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:00 +0000
Subject: [PATCH 05/43] fix: parser: limit the nesting of all recursive
 constructs

---
 src/mjs_parser.c | 75 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 52 insertions(+), 23 deletions(-)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 24ff9c1..782bbf9 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -73,6 +73,24 @@ static void emit_op(struct pstate *pstate, int tok) {
 #define BINOP_STACK_FRAME_SIZE 16
 #define STACK_LIMIT 8192
 
+static mjs_err_t enter_level(struct pstate *p) {
+  p->depth++;
+  if (p->depth > (STACK_LIMIT / BINOP_STACK_FRAME_SIZE)) {
+    mjs_set_errorf(p->mjs, MJS_SYNTAX_ERROR, "parser stack overflow");
+    return MJS_SYNTAX_ERROR;
+  }
+  return MJS_OK;
+}
+
+/* Evaluates parsing `call` one nesting level deeper, saves the result to `res` */
+#define PARSE_NESTED(p, res, call)                \
+  do {                                            \
+    if ((res = enter_level(p)) == MJS_OK) {       \
+      res = call;                                 \
+    }                                             \
+    (p)->depth--;                                 \
+  } while (0)
+
 // Intentionally left as macro rather than a function, to let the
 // compiler to inline calls and mimimize runtime stack usage.
 #define PARSE_LTR_BINOP(p, f1, f2, ops, prev_op)                               \
@@ -114,18 +132,19 @@ static void emit_op(struct pstate *pstate, int tok) {
     return res;                                                                \
   } while (0)
 
-#define PARSE_RTL_BINOP(p, f1, f2, ops, prev_op)        \
-  do {                                                  \
-    mjs_err_t res = MJS_OK;                             \
-    (void) prev_op;                                     \
-    if ((res = f1(p, TOK_EOF)) != MJS_OK) return res;   \
-    if (findtok(ops, p->tok.tok) != TOK_EOF) {          \
-      int op = p->tok.tok;                              \
-      pnext1(p);                                        \
-      if ((res = f2(p, TOK_EOF)) != MJS_OK) return res; \
-      emit_op(p, op);                                   \
-    }                                                   \
-    return res;                                         \
+#define PARSE_RTL_BINOP(p, f1, f2, ops, prev_op)      \
+  do {                                                \
+    mjs_err_t res = MJS_OK;                           \
+    (void) prev_op;                                   \
+    if ((res = f1(p, TOK_EOF)) != MJS_OK) return res; \
+    if (findtok(ops, p->tok.tok) != TOK_EOF) {        \
+      int op = p->tok.tok;                            \
+      pnext1(p);                                      \
+      PARSE_NESTED(p, res, f2(p, TOK_EOF));           \
+      if (res != MJS_OK) return res;                  \
+      emit_op(p, op);                                 \
+    }                                                 \
+    return res;                                       \
   } while (0)
 
 #if MJS_INIT_OFFSET_SIZE > 0
@@ -374,7 +393,7 @@ static mjs_err_t parse_call_dot_mem(struct pstate *p, int prev_op) {
       EXPECT(p, TOK_CLOSE_PAREN);
     } else if (p->tok.tok == TOK_DOT) {
       EXPECT(p, TOK_DOT);
-      if ((res = parse_call_dot_mem(p, TOK_DOT)) != MJS_OK) return res;
+      if ((res = parse_literal(p, &p->tok)) != MJS_OK) return res;
     }
   }
   (void) prev_op;
@@ -400,7 +419,7 @@ static mjs_err_t parse_unary(struct pstate *p, int prev_op) {
     pnext1(p);
   }
   if (findtok(s_unary_ops, p->tok.tok) != TOK_EOF) {
-    res = parse_unary(p, prev_op);
+    PARSE_NESTED(p, res, parse_unary(p, prev_op));
   } else {
     res = parse_postfix(p, prev_op);
   }
@@ -474,7 +493,8 @@ static mjs_err_t parse_ternary(struct pstate *p, int prev_op) {
     off_if = p->cur_idx;
     emit_init_offset(p);
 
-    if ((res = parse_ternary(p, TOK_EOF)) != MJS_OK) return res;
+    PARSE_NESTED(p, res, parse_ternary(p, TOK_EOF));
+    if (res != MJS_OK) return res;
 
     emit_byte(p, OP_JMP);
     off_else = p->cur_idx;
@@ -484,7 +504,8 @@ static mjs_err_t parse_ternary(struct pstate *p, int prev_op) {
     emit_byte(p, OP_DROP);
 
     EXPECT(p, TOK_COLON);
-    if ((res = parse_ternary(p, TOK_EOF)) != MJS_OK) return res;
+    PARSE_NESTED(p, res, parse_ternary(p, TOK_EOF));
+    if (res != MJS_OK) return res;
 
     /*
      * NOTE: if inserting offset causes the code to move, off_endif needs to be
@@ -544,7 +565,9 @@ static mjs_err_t parse_block_or_stmt(struct pstate *p, int cs) {
   if (ptest(p) == TOK_OPEN_CURLY) {
     return parse_block(p, cs);
   } else {
-    return parse_statement(p);
+    mjs_err_t res = MJS_OK;
+    PARSE_NESTED(p, res, parse_statement(p));
+    return res;
   }
 }
 
@@ -588,10 +611,12 @@ static mjs_err_t parse_for_in(struct pstate *p) {
 
   // Parse loop body
   if (p->tok.tok == TOK_OPEN_CURLY) {
-    if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
+    PARSE_NESTED(p, res, parse_statement_list(p, TOK_CLOSE_CURLY));
+    if (res != MJS_OK) return res;
     pnext1(p);
   } else {
-    if ((res = parse_statement(p)) != MJS_OK) return res;
+    PARSE_NESTED(p, res, parse_statement(p));
+    if (res != MJS_OK) return res;
   }
   emit_byte(p, OP_DROP);
   emit_byte(p, OP_CONTINUE);
@@ -715,10 +740,12 @@ static mjs_err_t parse_for(struct pstate *p) {
 
   /* Parse loop body */
   if (p->tok.tok == TOK_OPEN_CURLY) {
-    if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
+    PARSE_NESTED(p, res, parse_statement_list(p, TOK_CLOSE_CURLY));
+    if (res != MJS_OK) return res;
     pnext1(p);
   } else {
-    if ((res = parse_statement(p)) != MJS_OK) return res;
+    PARSE_NESTED(p, res, parse_statement(p));
+    if (res != MJS_OK) return res;
   }
   emit_byte(p, OP_DROP);
   emit_byte(p, OP_CONTINUE);
@@ -791,10 +818,12 @@ static mjs_err_t parse_while(struct pstate *p) {
 
   // Parse loop body
   if (p->tok.tok == TOK_OPEN_CURLY) {
-    if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
+    PARSE_NESTED(p, res, parse_statement_list(p, TOK_CLOSE_CURLY));
+    if (res != MJS_OK) return res;
     pnext1(p);
   } else {
-    if ((res = parse_statement(p)) != MJS_OK) return res;
+    PARSE_NESTED(p, res, parse_statement(p));
+    if (res != MJS_OK) return res;
   }
   emit_byte(p, OP_DROP);
   emit_byte(p, OP_CONTINUE);
-- 
2.43.0


From 865aede1d3549fdacb5815a07977770e9371f8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:00 +0000
Subject: [PATCH 06/43] fix: parser: report errors in the object expression of
 for..in

---
 src/mjs_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 782bbf9..ff1c2ad 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -592,7 +592,7 @@ static mjs_err_t parse_for_in(struct pstate *p) {
   /* Put object to the stack */
   EXPECT(p, TOK_IDENT);
   EXPECT(p, TOK_KEYWORD_IN);
-  parse_expr(p);
+  if ((res = parse_expr(p)) != MJS_OK) return res;
   EXPECT(p, TOK_CLOSE_PAREN);
 
   emit_byte(p, OP_PUSH_UNDEF); /* Push iterator */
-- 
2.43.0


From 01233e755acb72ac86c361c1818f6f4affba9e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:20 +0000
Subject: [PATCH 07/43] fix: look up prototypes iteratively, stop at cycles

---
 src/mjs_object.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/mjs_object.c b/src/mjs_object.c
index 72db6e2..db4ee29 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -139,9 +139,19 @@ mjs_val_t mjs_get_v(struct mjs *mjs, mjs_val_t obj, mjs_val_t name) {
 mjs_val_t mjs_get_v_proto(struct mjs *mjs, mjs_val_t obj, mjs_val_t key) {
   struct mjs_property *p;
   mjs_val_t pn = mjs_mk_string(mjs, MJS_PROTO_PROP_NAME, ~0, 1);
-  if ((p = mjs_get_own_property_v(mjs, obj, key)) != NULL) return p->value;
-  if ((p = mjs_get_own_property_v(mjs, obj, pn)) == NULL) return MJS_UNDEFINED;
-  return mjs_get_v_proto(mjs, p->value, key);
+  mjs_val_t tortoise = obj;
+  int i = 0;
+  while ((p = mjs_get_own_property_v(mjs, obj, key)) == NULL) {
+    if ((p = mjs_get_own_property_v(mjs, obj, pn)) == NULL) {
+      return MJS_UNDEFINED;
+    }
+    obj = p->value;
+    /* Stop if prototypes make a cycle (Brent's algorithm) */
+    if (obj == tortoise) return MJS_UNDEFINED;
+    i++;
+    if ((i & (i - 1)) == 0) tortoise = obj;
+  }
+  return p->value;
 }
 
 mjs_err_t mjs_set(struct mjs *mjs, mjs_val_t obj, const char *name,
-- 
2.43.0


From 28f8ca8bcdb6f5c1cd73fc19db8b0f21a678d348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:12 +0000
Subject: [PATCH 08/43] fix: JSON.parse: do not read past the end of the input

---
 src/frozen/frozen.c | 4 +++-
 src/mjs_json.c      | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 06f3389..961a432 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -182,6 +182,8 @@ static int json_isxdigit(int ch) {
 }
 
 static int json_get_escape_len(const char *s, int len) {
+  /* `len` counts the backslash too: `s` may point past the end of the input */
+  if (len < 2) return JSON_STRING_INCOMPLETE;
   switch (*s) {
     case 'u':
       return len < 6 ? JSON_STRING_INCOMPLETE
@@ -197,7 +199,7 @@ static int json_get_escape_len(const char *s, int len) {
     case 'n':
     case 'r':
     case 't':
-      return len < 2 ? JSON_STRING_INCOMPLETE : 1;
+      return 1;
     default:
       return JSON_STRING_INVALID;
   }
diff --git a/src/mjs_json.c b/src/mjs_json.c
index eeb2ea3..9b428ba 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -445,8 +445,9 @@ mjs_json_parse(struct mjs *mjs, const char *str, size_t len, mjs_val_t *res) {
      * frozen_cb can create new strings, which can result in the reallocation
      * of mjs string mbuf, invalidating the `str` pointer.
      */
-    char *stmp = malloc(len);
+    char *stmp = malloc(len + 1);
     memcpy(stmp, str, len);
+    stmp[len] = '\0'; /* numbers are converted by strtod() */
     json_res = json_walk(stmp, len, frozen_cb, ctx);
     free(stmp);
     stmp = NULL;
-- 
2.43.0


From 5c495db8581638d1ce8be00e07f2310e31b586f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:12 +0000
Subject: [PATCH 09/43] fix: JSON.parse: free the buffer of a string with an
 unsupported escape

---
 src/mjs_json.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mjs_json.c b/src/mjs_json.c
index 9b428ba..6f87ad0 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -342,6 +342,7 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
       if (token->len > 0 && (dst = malloc(token->len)) != NULL) {
         int len = json_unescape(token->ptr, token->len, dst, token->len);
         if (len < 0) {
+          free(dst);
           mjs_prepend_errorf(ctx->mjs, MJS_TYPE_ERROR, "invalid JSON string");
           break;
         }
-- 
2.43.0


From 069eb9daea8ae5bea8cc8048e0992e37aed7b786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:46 +0000
Subject: [PATCH 10/43] fix: JSON.parse: deliver members independently of the
 length-limited path text

---
 src/frozen/frozen.c | 17 +++++++++++------
 src/mjs_json.c      |  2 +-
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 961a432..cc44dae 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -79,6 +79,9 @@ struct frozen {
   const char *cur_name;
   size_t cur_name_len;
 
+  /* Non-zero while the key of an object member is being parsed */
+  int in_key;
+
   /* For callback API */
   char path[JSON_MAX_PATH_LEN];
   size_t path_len;
@@ -97,8 +100,7 @@ struct fstate {
 
 #define CALL_BACK(fr, tok, value, len)                                        \
   do {                                                                        \
-    if ((fr)->callback &&                                                     \
-        ((fr)->path_len == 0 || (fr)->path[(fr)->path_len - 1] != '.')) {     \
+    if ((fr)->callback && !(fr)->in_key) {                                    \
       struct json_token t = {(value), (int) (len), (tok)};                    \
                                                                               \
       /* Call the callback with the given value and current name */           \
@@ -305,8 +307,8 @@ static int json_parse_array(struct frozen *f) {
         snprintf(buf, sizeof(buf), "[%d]", i);
         i++;
         current_path_len = json_append_to_path(f, buf, strlen(buf));
-        f->cur_name =
-            f->path + strlen(f->path) - strlen(buf) + 1 /*opening brace*/;
+        /* The path is limited in length, so the name can't be taken from it */
+        f->cur_name = buf + 1 /*opening brace*/;
         f->cur_name_len = strlen(buf) - 2 /*braces*/;
         TRY(json_parse_value(f));
         json_truncate_path(f, current_path_len);
@@ -397,11 +399,14 @@ static int json_parse_key(struct frozen *f) {
 
 /* pair = key ':' value */
 static int json_parse_pair(struct frozen *f) {
-  int current_path_len;
+  int n, current_path_len;
   const char *tok;
   json_skip_whitespaces(f);
   tok = f->cur;
-  TRY(json_parse_key(f));
+  f->in_key = 1;
+  n = json_parse_key(f);
+  f->in_key = 0;
+  if (n < 0) return n;
   {
     f->cur_name = *tok == '"' ? tok + 1 : tok;
     f->cur_name_len = *tok == '"' ? f->cur - tok - 2 : f->cur - tok;
diff --git a/src/mjs_json.c b/src/mjs_json.c
index 6f87ad0..c9e5611 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -388,7 +388,7 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
   }
 
   if (!mjs_is_undefined(v)) {
-    if (name != NULL && name_len != 0) {
+    if (name != NULL) {
       /* Need to define a property on the current object/array */
       if (mjs_is_object(ctx->frame->val)) {
         mjs_set(ctx->mjs, ctx->frame->val, name, name_len, v);
-- 
2.43.0


From f08e7871549a0053f3b2ceb3165f5607d97de1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:38 +0000
Subject: [PATCH 11/43] fix: JSON.parse: limit the nesting of values

---
 src/frozen/frozen.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index cc44dae..b0d6f7e 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -68,6 +68,10 @@ typedef unsigned _int64 uint64_t;
 #define va_copy(x, y) x = y
 #endif
 
+#ifndef JSON_MAX_DEPTH
+#define JSON_MAX_DEPTH 500
+#endif
+
 #ifndef JSON_ENABLE_ARRAY
 #define JSON_ENABLE_ARRAY 1
 #endif
@@ -82,6 +86,9 @@ struct frozen {
   /* Non-zero while the key of an object member is being parsed */
   int in_key;
 
+  /* Number of values being parsed: parsing is recursive */
+  int depth;
+
   /* For callback API */
   char path[JSON_MAX_PATH_LEN];
   size_t path_len;
@@ -343,6 +350,9 @@ static int json_expect(struct frozen *f, const char *s, int len,
 static int json_parse_value(struct frozen *f) {
   int ch = json_cur(f);
 
+  EXPECT(f->depth < JSON_MAX_DEPTH, JSON_STRING_INVALID);
+  f->depth++;
+
   switch (ch) {
     case '"':
       TRY(json_parse_string(f));
@@ -381,6 +391,7 @@ static int json_parse_value(struct frozen *f) {
       return ch == END_OF_STRING ? JSON_STRING_INCOMPLETE : JSON_STRING_INVALID;
   }
 
+  f->depth--;
   return 0;
 }
 
-- 
2.43.0


From f57b6f4bffad2828dc1b4fbc7b68bbd0f13ccea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:38 +0000
Subject: [PATCH 12/43] fix: JSON.stringify: limit the nesting of values,
 report errors

---
 src/mjs_json.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/mjs_json.c b/src/mjs_json.c
index c9e5611..cfde584 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -111,6 +111,11 @@ static int snquote(char *buf, size_t size, const char *s, size_t len) {
   return i;
 }
 
+/* Maximum nesting of objects and arrays which can be printed */
+#ifndef MJS_JSON_MAX_DEPTH
+#define MJS_JSON_MAX_DEPTH 500
+#endif
+
 MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
                                        size_t size, size_t *res_len,
                                        uint8_t is_debug) {
@@ -118,6 +123,7 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
   char *vp;
   mjs_err_t rcode = MJS_OK;
   size_t len = 0;
+  size_t visited_len = mjs->json_visited_stack.len;
   /*
    * TODO(dfrank) : also push all `mjs_val_t`s that are declared below
    */
@@ -138,6 +144,11 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
     }
   }
 
+  if (visited_len >= MJS_JSON_MAX_DEPTH * sizeof(v)) {
+    rcode = MJS_TYPE_ERROR;
+    goto clean;
+  }
+
   switch (mjs_get_type(v)) {
     case MJS_TYPE_NULL:
     case MJS_TYPE_BOOLEAN:
@@ -251,6 +262,8 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
 clean:
   if (rcode != MJS_OK) {
     len = 0;
+    /* This value and the ones inside of it are not being printed anymore */
+    mjs->json_visited_stack.len = visited_len;
   }
   if (res_len != NULL) {
     *res_len = len;
@@ -264,13 +277,16 @@ MJS_PRIVATE mjs_err_t mjs_json_stringify(struct mjs *mjs, mjs_val_t v,
   char *p = buf;
   size_t len;
 
-  to_json_or_debug(mjs, v, buf, size, &len, 0);
+  rcode = to_json_or_debug(mjs, v, buf, size, &len, 0);
+  if (rcode != MJS_OK) {
+    goto clean;
+  }
 
   if (len >= size) {
     /* Buffer is not large enough. Allocate a bigger one */
     p = (char *) malloc(len + 1);
     rcode = mjs_json_stringify(mjs, v, p, len + 1, res);
-    assert(*res == p);
+    assert(rcode != MJS_OK || *res == p);
     goto clean;
   } else {
     *res = p;
@@ -496,6 +512,8 @@ MJS_PRIVATE void mjs_op_json_stringify(struct mjs *mjs) {
     if (mjs_json_stringify(mjs, val, NULL, 0, &p) == MJS_OK) {
       ret = mjs_mk_string(mjs, p, ~0, 1 /* copy */);
       free(p);
+    } else {
+      mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "too deeply nested");
     }
   }
 
-- 
2.43.0


From 3d008bcaae15b7df001f78642fdfdb96dd29e1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:03 +0000
Subject: [PATCH 13/43] fix: classify FFI functions as functions

---
 src/mjs_core.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mjs_core.c b/src/mjs_core.c
index 2ba0765..dbf8c49 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -215,6 +215,7 @@ MJS_PRIVATE enum mjs_type mjs_get_type(mjs_val_t v) {
     case MJS_TAG_ARRAY >> 48:
       return MJS_TYPE_OBJECT_ARRAY;
     case MJS_TAG_FUNCTION >> 48:
+    case MJS_TAG_FUNCTION_FFI >> 48:
       return MJS_TYPE_OBJECT_FUNCTION;
     case MJS_TAG_STRING_I >> 48:
     case MJS_TAG_STRING_O >> 48:
-- 
2.43.0


From 37e9d6262d7380b7e144a262ba74ad132bb101ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:03 +0000
Subject: [PATCH 14/43] fix: FFI: do not call the native function if the
 arguments do not fit

---
 src/mjs_ffi.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 129bd1f..206122e 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -767,6 +767,7 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
           mjs_prepend_errorf(
               mjs, ret, "actual arg #%d is not an int (the type idx is: %s)", i,
               mjs_typeof(arg));
+          goto clean;
         }
         ffi_set_word(&args[i], intval);
       } break;
@@ -798,6 +799,7 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
           mjs_prepend_errorf(
               mjs, ret, "actual arg #%d is not a bool (the type idx is: %s)", i,
               mjs_typeof(arg));
+          goto clean;
         }
         ffi_set_word(&args[i], intval);
       } break;
@@ -858,7 +860,7 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
           ret = MJS_TYPE_ERROR;
           mjs_prepend_errorf(mjs, ret,
                              "actual arg #%d is not a function, but %s", i,
-                             mjs_stringify_type((enum mjs_type) arg));
+                             mjs_typeof(arg));
           goto clean;
         }
         break;
@@ -918,7 +920,11 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
     abort();
   }
 
-  ffi_call(psig->fn, nargs, &res, args);
+  if (ffi_call(psig->fn, nargs, &res, args) < 0) {
+    ret = MJS_TYPE_ERROR;
+    mjs_prepend_errorf(mjs, ret, "unsupported combination of argument types");
+    goto clean;
+  }
 
   switch (rtype) {
     case MJS_FFI_CTYPE_CHAR_PTR: {
-- 
2.43.0


From f1534295570bbeefd961b5ba13b398781592e33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:03 +0000
Subject: [PATCH 15/43] fix: FFI: reject nested callbacks before parsing their
 signatures

---
 src/mjs_ffi.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 206122e..c215da4 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -234,6 +234,11 @@ MJS_PRIVATE mjs_err_t mjs_parse_ffi_signature(struct mjs *mjs, const char *s,
     /* Parse current arg */
     if (is_fp) {
       /* Current argument is a callback function pointer */
+      if (sig_type == FFI_SIG_CALLBACK) {
+        ret = MJS_TYPE_ERROR;
+        mjs_prepend_errorf(mjs, ret, "callback can't take another callback");
+        goto clean;
+      }
       if (sig->cb_sig != NULL) {
         /*
          * We already have parsed some callback argument. Currently we don't
-- 
2.43.0


From fd5c63f15d260d7fc63f89425c3e448864255378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:25 +0000
Subject: [PATCH 16/43] fix: break and continue affect only the loops of the
 function they are in

---
 src/mjs_exec.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 34fc0c9..67b4651 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -80,6 +80,16 @@ static size_t call_stack_restore_frame(struct mjs *mjs) {
   return return_address;
 }
 
+/*
+ * Returns the number of items in the loop_addresses stack which belong to the
+ * callers of the code being executed.
+ */
+static size_t get_loop_base(struct mjs *mjs) {
+  if (mjs_stack_size(&mjs->call_stack) < CALL_STACK_FRAME_ITEMS_CNT) return 0;
+  return mjs_get_int(mjs, *vptr(&mjs->call_stack,
+                                -1 - CALL_STACK_FRAME_ITEM_LOOP_ADDR_IDX));
+}
+
 static mjs_val_t mjs_find_scope(struct mjs *mjs, mjs_val_t key) {
   size_t num_scopes = mjs_stack_size(&mjs->scopes);
   while (num_scopes > 0) {
@@ -924,7 +934,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
       }
       case OP_CONTINUE: {
-        if (mjs_stack_size(&mjs->loop_addresses) >= 3) {
+        if (mjs_stack_size(&mjs->loop_addresses) >= get_loop_base(mjs) + 3) {
           size_t scopes_len = mjs_get_int(mjs, *vptr(&mjs->loop_addresses, -3));
           assert(mjs_stack_size(&mjs->scopes) >= scopes_len);
           mjs->scopes.len = scopes_len * sizeof(mjs_val_t);
@@ -936,7 +946,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         }
       } break;
       case OP_BREAK: {
-        if (mjs_stack_size(&mjs->loop_addresses) >= 3) {
+        if (mjs_stack_size(&mjs->loop_addresses) >= get_loop_base(mjs) + 3) {
           size_t scopes_len;
           /* drop "continue" address */
           mjs_pop_val(&mjs->loop_addresses);
-- 
2.43.0


From 81b36261a7604ccb36d565fdd4bd6cf604e6e1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:04 +0000
Subject: [PATCH 17/43] fix: return at the top level of a loaded file is an
 error

---
 src/mjs_exec.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 67b4651..250efc7 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -571,10 +571,19 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   int scopes_len = mjs->scopes.len;
   int loop_addresses_len = mjs->loop_addresses.len;
   size_t start_off = off;
+  size_t min_call_stack_len = call_stack_len;
   const uint8_t *code;
 
   struct mjs_bcode_part bp = *mjs_bcode_part_get_by_offset(mjs, off);
 
+  /*
+   * Unlike a function, a program has no frame of its own: if there are some
+   * frames, they belong to the code which executes it.
+   */
+  if (off == bp.start_idx) {
+    min_call_stack_len += CALL_STACK_FRAME_ITEMS_CNT * sizeof(mjs_val_t);
+  }
+
   mjs_set_errorf(mjs, MJS_OK, NULL);
   free(mjs->stack_trace);
   mjs->stack_trace = NULL;
@@ -881,7 +890,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
       }
       case OP_SETRETVAL: {
-        if (mjs_stack_size(&mjs->call_stack) < CALL_STACK_FRAME_ITEMS_CNT) {
+        if (mjs->call_stack.len < min_call_stack_len) {
           mjs_set_errorf(mjs, MJS_INTERNAL_ERROR, "cannot return");
         } else {
           size_t retval_pos = mjs_get_int(
-- 
2.43.0


From 2ab49616e4b63ba4a28a16a309f2dfc91058db45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:50 +0000
Subject: [PATCH 18/43] fix: limit the nesting of mjs_execute() calls

---
 src/mjs_core.h |  2 ++
 src/mjs_exec.c | 15 +++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/mjs_core.h b/src/mjs_core.h
index 855790e..b64acac 100644
--- a/src/mjs_core.h
+++ b/src/mjs_core.h
@@ -128,6 +128,8 @@ struct mjs {
   mjs_ffi_resolver_t *dlsym;  /* Symbol resolver function for FFI */
   ffi_cb_args_t *ffi_cb_args; /* List of FFI args descriptors */
   size_t cur_bcode_offset;
+  /* Number of nested mjs_execute() calls */
+  int exec_depth;
 
   struct gc_arena object_arena;
   struct gc_arena property_arena;
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 250efc7..500b450 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -23,6 +23,14 @@
 #include <sys/mman.h>
 #endif
 
+/*
+ * Maximum number of nested mjs_execute() calls: functions called by apply() or
+ * from native code, and files being loaded.
+ */
+#ifndef MJS_EXEC_MAX_DEPTH
+#define MJS_EXEC_MAX_DEPTH 200
+#endif
+
 /*
  * Pushes call stack frame. Offset is a global bcode offset. Retval_stack_idx
  * is an index in mjs->stack at which return value should be written later.
@@ -588,6 +596,12 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   free(mjs->stack_trace);
   mjs->stack_trace = NULL;
 
+  if (mjs->exec_depth >= MJS_EXEC_MAX_DEPTH) {
+    *res = MJS_UNDEFINED;
+    return mjs_set_errorf(mjs, MJS_INTERNAL_ERROR, "too many nested calls");
+  }
+  mjs->exec_depth++;
+
   off -= bp.start_idx;
 
   for (i = off; i < bp.data.len; i++) {
@@ -1008,6 +1022,7 @@ clean:
   mjs_bcode_part_get_by_offset(mjs, start_off)->exec_res = mjs->error;
 
   *res = mjs_pop(mjs);
+  mjs->exec_depth--;
   return mjs->error;
 }
 
-- 
2.43.0


From 0a9b2b4b78e98b0adaef45157325ea219b139252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:21 +0000
Subject: [PATCH 19/43] fix: JSON.stringify: escape property names, do not
 output \v

---
 src/mjs_json.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mjs_json.c b/src/mjs_json.c
index cfde584..65e6af9 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -46,7 +46,7 @@ static char *append_hex(char *buf, char *limit, uint8_t c) {
   if (buf < limit) *buf++ = 'u';
   if (buf < limit) *buf++ = '0';
   if (buf < limit) *buf++ = '0';
-  if (buf < limit) *buf++ = hex_digits[(int) ((c >> 4) % 0xf)];
+  if (buf < limit) *buf++ = hex_digits[(int) ((c >> 4) & 0xf)];
   if (buf < limit) *buf++ = hex_digits[(int) (c & 0xf)];
   return buf;
 }
@@ -67,7 +67,7 @@ static int snquote(char *buf, size_t size, const char *s, size_t len) {
    * 0x8 -> \b
    * 0x9 -> \t
    * 0xa -> \n
-   * 0xb -> \v
+   * 0xb -> \u000b, since there is no \v in JSON
    * 0xc -> \f
    * 0xd -> \r
    */
@@ -81,12 +81,12 @@ static int snquote(char *buf, size_t size, const char *s, size_t len) {
     if (*s == '"' || *s == '\\') {
       i++;
       if (buf < limit) *buf++ = '\\';
-    } else if (*s >= '\b' && *s <= '\r') {
+    } else if (*s >= '\b' && *s <= '\r' && *s != '\v') {
       i += 2;
       if (buf < limit) *buf++ = '\\';
       if (buf < limit) *buf++ = specials[*s - '\b'];
       continue;
-    } else if ((unsigned char) *s < '\b' || (*s > '\r' && *s < ' ')) {
+    } else if ((unsigned char) *s < '\b' || (*s >= '\v' && *s < ' ')) {
       i += 6 /* \uXXXX */;
       if (buf < limit) *buf++ = '\\';
       buf = append_hex(buf, limit, (uint8_t) *s);
@@ -198,7 +198,8 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
           b += c_snprintf(b, BUF_LEFT(size, b - buf), ",");
         }
         s = mjs_get_string(mjs, &prop->name, &n);
-        b += c_snprintf(b, BUF_LEFT(size, b - buf), "\"%.*s\":", (int) n, s);
+        b += snquote(b, BUF_LEFT(size, b - buf), s, n);
+        b += c_snprintf(b, BUF_LEFT(size, b - buf), ":");
         {
           size_t tmp = 0;
           rcode = to_json_or_debug(mjs, prop->value, b, BUF_LEFT(size, b - buf),
-- 
2.43.0


From 525a2b2284f2767187e00ffb614d1aeceea66c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:54 +0000
Subject: [PATCH 20/43] fix: JSON.parse: unescape property names

---
 src/mjs_json.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/mjs_json.c b/src/mjs_json.c
index 65e6af9..5481b5b 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -343,6 +343,22 @@ static struct json_parse_frame *free_json_frame(
   return up;
 }
 
+/* Set the member of an object, the name might contain escape sequences */
+static void set_json_member(struct mjs *mjs, mjs_val_t obj, const char *name,
+                            size_t name_len, mjs_val_t v) {
+  char *tmp = (char *) malloc(name_len + 1);
+  int len = -1;
+  if (tmp != NULL) {
+    len = json_unescape(name, name_len, tmp, name_len);
+  }
+  if (len < 0) {
+    mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "invalid JSON string");
+  } else {
+    mjs_set(mjs, obj, tmp, len, v);
+  }
+  free(tmp);
+}
+
 /* Callback for json_walk() */
 static void frozen_cb(void *data, const char *name, size_t name_len,
                       const char *path, const struct json_token *token) {
@@ -408,7 +424,7 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
     if (name != NULL) {
       /* Need to define a property on the current object/array */
       if (mjs_is_object(ctx->frame->val)) {
-        mjs_set(ctx->mjs, ctx->frame->val, name, name_len, v);
+        set_json_member(ctx->mjs, ctx->frame->val, name, name_len, v);
       } else if (mjs_is_array(ctx->frame->val)) {
         /*
          * TODO(dfrank): consult name_len. Currently it's not a problem due to
-- 
2.43.0


From 4158d019a49602476f50521a00063637752719ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:09 +0000
Subject: [PATCH 21/43] fix: for..in: do not follow a property which was
 deleted in the loop

---
 src/mjs_object.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mjs_object.c b/src/mjs_object.c
index db4ee29..120cd00 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -258,11 +258,16 @@ mjs_val_t mjs_next(struct mjs *mjs, mjs_val_t obj, mjs_val_t *iterator) {
   struct mjs_property *p = NULL;
   mjs_val_t key = MJS_UNDEFINED;
 
-  if (*iterator == MJS_UNDEFINED) {
-    struct mjs_object *o = get_object_struct(obj);
-    p = o->properties;
-  } else {
-    p = ((struct mjs_property *) get_ptr(*iterator))->next;
+  p = get_object_struct(obj)->properties;
+  if (*iterator != MJS_UNDEFINED) {
+    /*
+     * The property which was returned the last time might have been deleted
+     * since then, so it can be used only if it is found in the object
+     */
+    while (p != NULL && p != (struct mjs_property *) get_ptr(*iterator)) {
+      p = p->next;
+    }
+    if (p != NULL) p = p->next;
   }
 
   if (p == NULL) {
-- 
2.43.0


From 5bea162221c4b4ba4cf7370cbcf47306c7db6f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:51 +0000
Subject: [PATCH 22/43] fix: mjs_set: free the property name when the target is
 not an object

---
 src/mjs_object.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mjs_object.c b/src/mjs_object.c
index 120cd00..0e15cd6 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -193,7 +193,8 @@ MJS_PRIVATE mjs_err_t mjs_set_internal(struct mjs *mjs, mjs_val_t obj,
   if (p == NULL) {
     struct mjs_object *o;
     if (!mjs_is_object(obj)) {
-      return MJS_REFERENCE_ERROR;
+      rcode = MJS_REFERENCE_ERROR;
+      goto clean;
     }
 
     /*
-- 
2.43.0


From 53936e7433ce391965956023f7d8b4e2871cdac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:51 +0000
Subject: [PATCH 23/43] fix: cs_read_file: close the file when it can't be read
 completely

---
 src/common/cs_file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/cs_file.c b/src/common/cs_file.c
index 24d0ce9..f6ed275 100644
--- a/src/common/cs_file.c
+++ b/src/common/cs_file.c
@@ -41,6 +41,7 @@ char *cs_read_file(const char *path, size_t *size) {
       fseek(fp, 0, SEEK_SET); /* Some platforms might not have rewind(), Oo */
       if (fread(data, 1, *size, fp) != *size) {
         free(data);
+        fclose(fp);
         return NULL;
       }
       data[*size] = '\0';
-- 
2.43.0


From 2fa50766f32fdec04aad1f74081ab70ddb82582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:51 +0000
Subject: [PATCH 24/43] fix: cs_mmap_file: close the file

---
 src/common/cs_file.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common/cs_file.c b/src/common/cs_file.c
index f6ed275..4049ac0 100644
--- a/src/common/cs_file.c
+++ b/src/common/cs_file.c
@@ -24,6 +24,7 @@
 #include <fcntl.h>
 #include <sys/mman.h>
 #include <sys/stat.h>
+#include <unistd.h>
 #endif
 
 #ifndef EXCLUDE_COMMON
@@ -59,9 +60,14 @@ char *cs_mmap_file(const char *path, size_t *size) {
   int fd = open(path, O_RDONLY, 0);
   struct stat st;
   if (fd < 0) return NULL;
-  fstat(fd, &st);
+  if (fstat(fd, &st) != 0) {
+    close(fd);
+    return NULL;
+  }
   *size = (size_t) st.st_size;
   r = (char *) mmap(NULL, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
+  /* The mapping stays valid without the descriptor */
+  close(fd);
   if (r == MAP_FAILED) return NULL;
   return r;
 }
-- 
2.43.0


From bed5d662d757a296c7af1ff10701947d446f962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:51 +0000
Subject: [PATCH 25/43] fix: .jsc: keep the bytecode in RAM if the file can't
 be written or mapped

---
 src/mjs_exec.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 500b450..4bdb7cd 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1082,8 +1082,12 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
           FILE *fp = fopen(filename_jsc, "wb");
           if (fp != NULL) {
             /* write last bcode part to .jsc */
-            fwrite(bp->data.p, bp->data.len, 1, fp);
-            fclose(fp);
+            size_t n = fwrite(bp->data.p, bp->data.len, 1, fp);
+            if (fclose(fp) != 0 || n != 1) {
+              LOG(LL_WARN, ("Failed to write %s", filename_jsc));
+              remove(filename_jsc);
+              read_mmapped = 0;
+            }
           } else {
             LOG(LL_WARN, ("Failed to open %s for writing", filename_jsc));
             read_mmapped = 0;
@@ -1091,12 +1095,16 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
         }
 
         if (read_mmapped) {
-          /* free RAM buffer with last bcode part */
-          free((void *) bp->data.p);
-
           /* mmap .jsc file and set last bcode part buffer to it */
-          bp->data.p = cs_mmap_file(filename_jsc, &bp->data.len);
-          bp->in_rom = 1;
+          size_t size;
+          char *data = cs_mmap_file(filename_jsc, &size);
+          if (data != NULL) {
+            /* free RAM buffer with last bcode part */
+            free((void *) bp->data.p);
+            bp->data.p = data;
+            bp->data.len = size;
+            bp->in_rom = 1;
+          }
         }
       }
     }
-- 
2.43.0


From 405ef67a83613987b2a676f65a0ac78df9b151bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:39 +0000
Subject: [PATCH 26/43] fix: a failed run restores `this` of the code around it

---
 src/mjs_exec.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 4bdb7cd..a8737ff 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1002,6 +1002,15 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
     }
     if (mjs->error != MJS_OK) {
+      /*
+       * restore `this`: if there are some frames to be dropped, then the first
+       * one of them holds it
+       */
+      if ((int) mjs->call_stack.len > call_stack_len) {
+        mjs->vals.this_obj = *(mjs_val_t *) (mjs->call_stack.buf +
+                                             call_stack_len);
+      }
+
       mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
 
       /* restore stack lenghts */
-- 
2.43.0


From 0b0176d122fda487af5555945c5d482c3b8ad5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:53 +0000
Subject: [PATCH 27/43] fix: limit the nesting of native functions called by
 mjs_apply

---
 src/mjs_exec.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index a8737ff..5912703 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1200,10 +1200,18 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
   call_stack_push_frame(mjs, MJS_BCODE_OFFSET_EXIT, retval_stack_idx);
 
   if (mjs_is_foreign(func) || mjs_is_ffi_sig(func)) {
-    if (mjs_is_foreign(func)) {
-      ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
+    if (mjs->exec_depth >= MJS_EXEC_MAX_DEPTH) {
+      /* A native function might call itself, e.g. through apply() */
+      mjs_set_errorf(mjs, MJS_INTERNAL_ERROR, "too many nested calls");
+      mjs_return(mjs, MJS_UNDEFINED);
     } else {
-      mjs_ffi_call2(mjs);
+      mjs->exec_depth++;
+      if (mjs_is_foreign(func)) {
+        ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
+      } else {
+        mjs_ffi_call2(mjs);
+      }
+      mjs->exec_depth--;
     }
 
     /*
-- 
2.43.0


From b639520e99bb0cdcf7321b276431c73f1f1ea6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:33 +0000
Subject: [PATCH 28/43] fix: FFI: refuse float arguments with a double result
 and the reverse

Such calls were made as if the argument was a word.
---
 src/ffi/ffi.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ffi/ffi.c b/src/ffi/ffi.c
index 42cd771..8caf0ba 100644
--- a/src/ffi/ffi.c
+++ b/src/ffi/ffi.c
@@ -175,8 +175,12 @@ int ffi_call(ffi_fn_t *func, int nargs, struct ffi_arg *res,
     floats += (IS_F(args[i]));
   }
 
-  /* Doubles and floats are not supported together atm */
-  if (doubles > 0 && floats > 0) {
+  /*
+   * Doubles and floats are not supported together atm, and neither is one of
+   * them as an argument with the other one as a result
+   */
+  if ((doubles > 0 || res->ctype == FFI_CTYPE_DOUBLE) &&
+      (floats > 0 || res->ctype == FFI_CTYPE_FLOAT)) {
     return -1;
   }
 
-- 
2.43.0


From ecfac67477cf830c52a616b2aca8668abdfcb23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:33 +0000
Subject: [PATCH 29/43] fix: FFI: importing a function pointer is an error, not
 an abort

---
 src/mjs_ffi.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index c215da4..5ec4bfd 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -151,6 +151,11 @@ MJS_PRIVATE mjs_err_t mjs_parse_ffi_signature(struct mjs *mjs, const char *s,
   } else {
     /* We do - it's a function pointer, like void (*foo)(...).
      * Stuff inside the first pair of parens is the function name */
+    if (sig_type != FFI_SIG_CALLBACK) {
+      ret = MJS_TYPE_ERROR;
+      mjs_prepend_errorf(mjs, ret, "function pointer can't be imported");
+      goto clean;
+    }
     fn.p = tmp + 1;
     fn.len = args.p - tmp;
     rt.p = cur;
-- 
2.43.0


From f5d26cdeb43e81b85116d5f8a8c7ac359138cc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:33 +0000
Subject: [PATCH 30/43] fix: FFI callbacks: int arguments keep their sign

---
 src/mjs_ffi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 5ec4bfd..8059768 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -359,10 +359,10 @@ static union ffi_cb_data_val ffi_cb_impl_generic(void *param,
         args[i] = cbargs->userdata;
         break;
       case MJS_FFI_CTYPE_INT:
-        args[i] = mjs_mk_number(mjs, (double) data->args[i].w);
+        args[i] = mjs_mk_number(mjs, (int) data->args[i].w);
         break;
       case MJS_FFI_CTYPE_BOOL:
-        args[i] = mjs_mk_boolean(mjs, !!data->args[i].w);
+        args[i] = mjs_mk_boolean(mjs, !!(int) data->args[i].w);
         break;
       case MJS_FFI_CTYPE_CHAR_PTR: {
         const char *s = (char *) data->args[i].w;
-- 
2.43.0


From d7431a33330d4c4d908ecb724437bc44be4953b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:49 +0000
Subject: [PATCH 31/43] fix: FFI callbacks: a double argument is only supported
 next to userdata alone

Other signatures got an implementation with other parameters.
---
 src/mjs_ffi.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 8059768..c36ec52 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -594,7 +594,8 @@ static ffi_fn_t *get_cb_impl_by_signature(const mjs_ffi_sig_t *sig) {
             }
             break;
           case 1:
-            /* 1 double argument */
+            /* 1 double argument; the only other one is userdata */
+            if (sig->args_cnt != 2) break;
             switch (userdata_idx) {
               case 1:
                 return (ffi_fn_t *) ffi_cb_impl_wpd;
-- 
2.43.0


From 20e5cb678c59c23895df52f136142a5cba92b942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:49 +0000
Subject: [PATCH 32/43] fix: FFI: callback data made for one signature is not
 reused for another

---
 src/mjs_ffi.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index c36ec52..6256ccd 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -527,9 +527,12 @@ static uintptr_t ffi_cb_impl_wdp(double d0, uintptr_t w1) {
 
 static struct mjs_ffi_cb_args **ffi_get_matching(struct mjs_ffi_cb_args **plist,
                                                  mjs_val_t func,
-                                                 mjs_val_t userdata) {
+                                                 mjs_val_t userdata,
+                                                 const mjs_ffi_sig_t *sig) {
   for (; *plist != NULL; plist = &((*plist)->next)) {
-    if ((*plist)->func == func && (*plist)->userdata == userdata) {
+    if ((*plist)->func == func && (*plist)->userdata == userdata &&
+        (sig == NULL || memcmp((*plist)->sig.val_types, sig->val_types,
+                               sizeof(sig->val_types)) == 0)) {
       break;
     }
   }
@@ -896,7 +899,8 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
      * Get cbargs: either reuse the existing one (if the matching item exists),
      * or create a new one.
      */
-    pitem = ffi_get_matching(&mjs->ffi_cb_args, cbdata.func, cbdata.userdata);
+    pitem = ffi_get_matching(&mjs->ffi_cb_args, cbdata.func, cbdata.userdata,
+                             psig->cb_sig);
     if (*pitem == NULL) {
       /* No matching cbargs item; we need to add a new one */
       cbargs = calloc(1, sizeof(*cbargs));
@@ -991,9 +995,9 @@ MJS_PRIVATE void mjs_ffi_cb_free(struct mjs *mjs) {
   mjs_val_t userdata = mjs_arg(mjs, 1);
 
   if (mjs_is_function(func)) {
-    struct mjs_ffi_cb_args **pitem =
-        ffi_get_matching(&mjs->ffi_cb_args, func, userdata);
-    if (*pitem != NULL) {
+    struct mjs_ffi_cb_args **pitem = NULL;
+    while (*(pitem = ffi_get_matching(&mjs->ffi_cb_args, func, userdata,
+                                      NULL)) != NULL) {
       /* Found matching item: remove it from the linked list, and free */
       struct mjs_ffi_cb_args *cbargs = *pitem;
       *pitem = cbargs->next;
-- 
2.43.0


From 2a39a32fd203ca4c3573198889bd6b9d8dfea388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:46 +0000
Subject: [PATCH 33/43] fix: the value of a compound assignment is the assigned
 one

---
 src/mjs_exec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 5912703..92d5d20 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -226,8 +226,8 @@ static void op_assign(struct mjs *mjs, int op) {
   mjs_val_t obj = mjs_pop(mjs);
   mjs_val_t key = mjs_pop(mjs);
   if (mjs_is_object(obj) && mjs_is_string(key)) {
-    mjs_val_t v = mjs_get_v(mjs, obj, key);
-    mjs_set_v(mjs, obj, key, do_op(mjs, v, val, op));
+    mjs_val_t v = do_op(mjs, mjs_get_v(mjs, obj, key), val, op);
+    mjs_set_v(mjs, obj, key, v);
     mjs_push(mjs, v);
   } else {
     mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand");
-- 
2.43.0


From 39e32cc3116799fa28f4d7963af2c8f3da3a2f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:46 +0000
Subject: [PATCH 34/43] fix: 0 and -0 are equal

---
 src/mjs_exec.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 92d5d20..392a40d 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -242,10 +242,10 @@ static int check_equal(struct mjs *mjs, mjs_val_t a, mjs_val_t b) {
     ret = 1;
   } else if (mjs_is_number(a) && mjs_is_number(b)) {
     /*
-     * The case of equal numbers is handled above, so here the result is always
-     * false
+     * Equal numbers are usually handled above, but 0 and -0 have different
+     * representations
      */
-    ret = 0;
+    ret = mjs_get_double(mjs, a) == mjs_get_double(mjs, b);
   } else if (mjs_is_string(a) && mjs_is_string(b)) {
     ret = s_cmp(mjs, a, b) == 0;
   } else if (mjs_is_foreign(a) && b == MJS_NULL) {
-- 
2.43.0


From 83b7203c2391c59b8bdb852d5786bb28e09b2db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:35 +0000
Subject: [PATCH 35/43] fix: mjs_next: a value that is no object has no
 properties

---
 src/mjs_object.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mjs_object.c b/src/mjs_object.c
index 0e15cd6..7d23fbe 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -259,6 +259,11 @@ mjs_val_t mjs_next(struct mjs *mjs, mjs_val_t obj, mjs_val_t *iterator) {
   struct mjs_property *p = NULL;
   mjs_val_t key = MJS_UNDEFINED;
 
+  if (!mjs_is_object(obj)) {
+    *iterator = MJS_UNDEFINED;
+    return MJS_UNDEFINED;
+  }
+
   p = get_object_struct(obj)->properties;
   if (*iterator != MJS_UNDEFINED) {
     /*
-- 
2.43.0


From 4736f03ef254cfa0240fc805b43ac233b850342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:35 +0000
Subject: [PATCH 36/43] fix: compare property names with NUL characters
 completely

---
 src/mjs_object.c | 2 +-
 src/mjs_string.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mjs_object.c b/src/mjs_object.c
index 7d23fbe..bd18e10 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -242,7 +242,7 @@ int mjs_del(struct mjs *mjs, mjs_val_t obj, const char *name, size_t len) {
        prev = prop, prop = prop->next) {
     size_t n;
     const char *s = mjs_get_string(mjs, &prop->name, &n);
-    if (n == len && strncmp(s, name, len) == 0) {
+    if (n == len && memcmp(s, name, len) == 0) {
       if (prev) {
         prev->next = prop->next;
       } else {
diff --git a/src/mjs_string.c b/src/mjs_string.c
index b8f9ce1..19c6f2b 100644
--- a/src/mjs_string.c
+++ b/src/mjs_string.c
@@ -224,7 +224,7 @@ int mjs_strcmp(struct mjs *mjs, mjs_val_t *a, const char *b, size_t len) {
   if (n != len) {
     return n - len;
   }
-  return strncmp(s, b, len);
+  return len == 0 ? 0 : memcmp(s, b, len);
 }
 
 MJS_PRIVATE unsigned long cstr_to_ulong(const char *s, size_t len, int *ok) {
-- 
2.43.0


From 802a5ac4a06c52f11d02fa5acae078a76bd27b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:35 +0000
Subject: [PATCH 37/43] fix: a property named by a foreign string keeps its own
 copy of the name

---
 src/mjs_object.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mjs_object.c b/src/mjs_object.c
index bd18e10..8728cd4 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -199,9 +199,11 @@ MJS_PRIVATE mjs_err_t mjs_set_internal(struct mjs *mjs, mjs_val_t obj,
 
     /*
      * name_v might be not a string here. In this case, we need to create a new
-     * `name_v`, which will be a string.
+     * `name_v`, which will be a string. A foreign string can't be used either:
+     * short names are compared as values, and its text may change.
      */
-    if (!mjs_is_string(name_v)) {
+    if (!mjs_is_string(name_v) ||
+        (name_v & MJS_TAG_MASK) == MJS_TAG_STRING_F) {
       name_v = mjs_mk_string(mjs, name, name_len, 1);
     }
 
-- 
2.43.0


From c5d503ee4bb845bbce8da6b49725f470fb1240af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:13 +0000
Subject: [PATCH 38/43] fix: builtin properties are found by their whole name,
 string subscripts by the whole index

---
 src/mjs_exec.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 392a40d..d02eea3 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -451,24 +451,30 @@ static void exec_expr(struct mjs *mjs, int op) {
   }
 }
 
+/* names may contain zero bytes, and not all of them are zero-terminated */
+static int name_is(const char *name, size_t name_len, const char *s) {
+  return name_len == strlen(s) && memcmp(name, s, name_len) == 0;
+}
+
 static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
                                   const char *name, size_t name_len,
                                   mjs_val_t *res) {
   int isnum = 0;
-  int idx = cstr_to_ulong(name, name_len, &isnum);
+  unsigned long idx = cstr_to_ulong(name, name_len, &isnum);
 
-  if (strcmp(name, "length") == 0) {
+  if (name_is(name, name_len, "length")) {
     size_t val_len;
     mjs_get_string(mjs, &val, &val_len);
     *res = mjs_mk_number(mjs, (double) val_len);
     return 1;
-  } else if (strcmp(name, "at") == 0 || strcmp(name, "charCodeAt") == 0) {
+  } else if (name_is(name, name_len, "at") ||
+             name_is(name, name_len, "charCodeAt")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_char_code_at);
     return 1;
-  } else if (strcmp(name, "indexOf") == 0) {
+  } else if (name_is(name, name_len, "indexOf")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_index_of);
     return 1;
-  } else if (strcmp(name, "slice") == 0) {
+  } else if (name_is(name, name_len, "slice")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_slice);
     return 1;
   } else if (isnum) {
@@ -478,7 +484,7 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
      */
     size_t val_len;
     const char *str = mjs_get_string(mjs, &val, &val_len);
-    if (idx >= 0 && idx < (int) val_len) {
+    if (idx < val_len) {
       *res = mjs_mk_string(mjs, str + idx, 1, 1);
     } else {
       *res = MJS_UNDEFINED;
@@ -491,18 +497,17 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
 static int getprop_builtin_array(struct mjs *mjs, mjs_val_t val,
                                  const char *name, size_t name_len,
                                  mjs_val_t *res) {
-  if (strcmp(name, "splice") == 0) {
+  if (name_is(name, name_len, "splice")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_array_splice);
     return 1;
-  } else if (strcmp(name, "push") == 0) {
+  } else if (name_is(name, name_len, "push")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_array_push_internal);
     return 1;
-  } else if (strcmp(name, "length") == 0) {
+  } else if (name_is(name, name_len, "length")) {
     *res = mjs_mk_number(mjs, mjs_array_length(mjs, val));
     return 1;
   }
 
-  (void) name_len;
   return 0;
 }
 
-- 
2.43.0


From dcaf287004571620444b3f8487bc5eca16f6e2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:26 +0000
Subject: [PATCH 39/43] fix: only decimal indexes count for the length of an
 array

---
 src/mjs_string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mjs_string.c b/src/mjs_string.c
index 19c6f2b..f1cfd9a 100644
--- a/src/mjs_string.c
+++ b/src/mjs_string.c
@@ -240,6 +240,8 @@ str_to_ulong(struct mjs *mjs, mjs_val_t v, int *ok, unsigned long *res) {
   size_t len = 0;
   const char *p = mjs_get_string(mjs, &v, &len);
   *res = cstr_to_ulong(p, len, ok);
+  /* strtoul() also takes spaces, signs and leading zeros: no index is like that */
+  if (*ok && (*p < '0' || *p > '9' || (*p == '0' && len > 1))) *ok = 0;
 
   return ret;
 }
-- 
2.43.0


From 923273e899db32338fca756cc87322fd8ee6e40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:07 +0000
Subject: [PATCH 40/43] fix: reject let declarations without a comma between
 names or with nothing behind one

---
 src/mjs_parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index ff1c2ad..2cfab28 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -555,8 +555,11 @@ static mjs_err_t parse_let(struct pstate *p) {
     if (p->tok.tok == TOK_COMMA) {
       emit_byte(p, OP_DROP);
       pnext1(p);
+    } else if (p->tok.tok == TOK_SEMICOLON || p->tok.tok == TOK_EOF) {
+      break;
+    } else {
+      SYNTAX_ERROR(p);
     }
-    if (p->tok.tok == TOK_SEMICOLON || p->tok.tok == TOK_EOF) break;
   }
   return res;
 }
-- 
2.43.0


From 692801803ce0ee3ac01064ef739c74d31872b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:46 +0000
Subject: [PATCH 41/43] fix: arms of a conditional may be assignments

---
 src/mjs_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 2cfab28..cb7e5d2 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -493,7 +493,7 @@ static mjs_err_t parse_ternary(struct pstate *p, int prev_op) {
     off_if = p->cur_idx;
     emit_init_offset(p);
 
-    PARSE_NESTED(p, res, parse_ternary(p, TOK_EOF));
+    PARSE_NESTED(p, res, parse_expr(p));
     if (res != MJS_OK) return res;
 
     emit_byte(p, OP_JMP);
@@ -504,7 +504,7 @@ static mjs_err_t parse_ternary(struct pstate *p, int prev_op) {
     emit_byte(p, OP_DROP);
 
     EXPECT(p, TOK_COLON);
-    PARSE_NESTED(p, res, parse_ternary(p, TOK_EOF));
+    PARSE_NESTED(p, res, parse_expr(p));
     if (res != MJS_OK) return res;
 
     /*
-- 
2.43.0


From 1f70385a72c8bee6a58f45b7f19fb576db26ed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:41 +0000
Subject: [PATCH 42/43] fix: require the closing brace of a loop body

---
 src/mjs_parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index cb7e5d2..5ed133e 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -616,7 +616,7 @@ static mjs_err_t parse_for_in(struct pstate *p) {
   if (p->tok.tok == TOK_OPEN_CURLY) {
     PARSE_NESTED(p, res, parse_statement_list(p, TOK_CLOSE_CURLY));
     if (res != MJS_OK) return res;
-    pnext1(p);
+    EXPECT(p, TOK_CLOSE_CURLY);
   } else {
     PARSE_NESTED(p, res, parse_statement(p));
     if (res != MJS_OK) return res;
@@ -745,7 +745,7 @@ static mjs_err_t parse_for(struct pstate *p) {
   if (p->tok.tok == TOK_OPEN_CURLY) {
     PARSE_NESTED(p, res, parse_statement_list(p, TOK_CLOSE_CURLY));
     if (res != MJS_OK) return res;
-    pnext1(p);
+    EXPECT(p, TOK_CLOSE_CURLY);
   } else {
     PARSE_NESTED(p, res, parse_statement(p));
     if (res != MJS_OK) return res;
@@ -823,7 +823,7 @@ static mjs_err_t parse_while(struct pstate *p) {
   if (p->tok.tok == TOK_OPEN_CURLY) {
     PARSE_NESTED(p, res, parse_statement_list(p, TOK_CLOSE_CURLY));
     if (res != MJS_OK) return res;
-    pnext1(p);
+    EXPECT(p, TOK_CLOSE_CURLY);
   } else {
     PARSE_NESTED(p, res, parse_statement(p));
     if (res != MJS_OK) return res;
-- 
2.43.0


From e3ce9d74b211c98ed7dcdf847885f138152a6f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:55 +0000
Subject: [PATCH 43/43] fix: only a name may follow a dot

---
 src/mjs_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 5ed133e..f37c3a8 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -393,6 +393,7 @@ static mjs_err_t parse_call_dot_mem(struct pstate *p, int prev_op) {
       EXPECT(p, TOK_CLOSE_PAREN);
     } else if (p->tok.tok == TOK_DOT) {
       EXPECT(p, TOK_DOT);
+      if (p->tok.tok != TOK_IDENT) SYNTAX_ERROR(p);
       if ((res = parse_literal(p, &p->tok)) != MJS_OK) return res;
     }
   }
-- 
2.43.0

