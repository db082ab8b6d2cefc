From 886e1a182eb1cfa5506f00cbaf51177b64890976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:01 +0000
Subject: [PATCH 01/15] fix: signal an error on dividing the least fixnum by -1

---
 src/number.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/number.c b/src/number.c
index 722cd90..72ae7af 100644
--- a/src/number.c
+++ b/src/number.c
@@ -174,6 +174,8 @@ scm_p_divide(ScmObj left, ScmObj right, enum ScmReductionState *state)
         val = SCM_INT_VALUE(right);
         if (val == 0)
             ERR(ERRMSG_DIV_BY_ZERO);
+        if (val == -1 && result < -SCM_INT_MAX)
+            ERR(ERRMSG_FIXNUM_OVERFLOW);
         result /= val;
         break;
 
@@ -367,6 +369,8 @@ scm_p_quotient(ScmObj _n1, ScmObj _n2)
     n2 = SCM_INT_VALUE(_n2);
     if (n2 == 0)
         ERR(ERRMSG_DIV_BY_ZERO);
+    if (n2 == -1 && n1 < -SCM_INT_MAX)
+        ERR(ERRMSG_FIXNUM_OVERFLOW);
 
     /*
      * ISO/IEC 9899:1999(E):
@@ -395,7 +399,7 @@ scm_p_modulo(ScmObj _n1, ScmObj _n2)
     if (n2 == 0)
         ERR(ERRMSG_DIV_BY_ZERO);
 
-    rem = n1 % n2;
+    rem = (n2 == -1) ? 0 : n1 % n2;
     if (rem && ((n1 < 0 && 0 < n2) || (n2 < 0 && 0 < n1)))
         rem += n2;
 
@@ -416,7 +420,8 @@ scm_p_remainder(ScmObj _n1, ScmObj _n2)
     if (n2 == 0)
         ERR(ERRMSG_DIV_BY_ZERO);
 
-    return MAKE_INT(n1 % n2);
+    /* avoid the machine overflow trap on the least number / -1 */
+    return MAKE_INT((n2 == -1) ? 0 : n1 % n2);
 }
 
 SCM_EXPORT ScmObj
-- 
2.43.0


From 8f79c39364b8ed5492e7fe723de9f93a2df40567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:01 +0000
Subject: [PATCH 02/15] fix: lcm of zeros is zero rather than a division by
 zero trap

---
 src/number.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/number.c b/src/number.c
index 72ae7af..8b90af3 100644
--- a/src/number.c
+++ b/src/number.c
@@ -506,7 +506,10 @@ scm_p_lcm(ScmObj left, ScmObj right, enum ScmReductionState *state)
         /* Fall through. */
     case SCM_REDUCE_1:
         ENSURE_INT(right);
-        result *= SCM_INT_VALUE(right) / gcd(result, SCM_INT_VALUE(right));
+        if (result == 0 || SCM_INT_VALUE(right) == 0)
+            result = 0;
+        else
+            result *= SCM_INT_VALUE(right) / gcd(result, SCM_INT_VALUE(right));
         /* Fall through. */
     case SCM_REDUCE_0:
         break;
-- 
2.43.0


From d0a7b158d58e3e6da89596eaf10cfd532def4f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 03/15] fix: reject chars that a string cannot hold in
 list->string, string-set! and string-fill!

---
 src/string-procedure.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/string-procedure.c b/src/string-procedure.c
index e33b9a1..b098ce5 100644
--- a/src/string-procedure.c
+++ b/src/string-procedure.c
@@ -213,6 +213,10 @@ scm_p_string_setx(ScmObj str, ScmObj k, ScmObj ch)
     c_str = SCM_STRING_STR(str);
     if (idx < 0 || SCM_STRING_LEN(str) <= idx)
         ERR_OBJ("index out of range", k);
+#if !SCM_USE_NULL_CAPABLE_STRING
+    if (SCM_CHAR_VALUE(ch) == '\0')
+        ERR(SCM_ERRMSG_NULL_IN_STRING);
+#endif
 
 #if SCM_USE_MULTIBYTE_CHAR
     /* point at the char that to be replaced */
@@ -535,12 +539,16 @@ scm_p_list2string(ScmObj lst)
     dst = str = scm_malloc(str_size);
     FOR_EACH (ch, lst) {
 #if !SCM_USE_NULL_CAPABLE_STRING
-        if (ch == '\0')
+        if (SCM_CHAR_VALUE(ch) == '\0')
             ERR(SCM_ERRMSG_NULL_IN_STRING);
 #endif
 #if SCM_USE_MULTIBYTE_CHAR
         dst = SCM_CHARCODEC_INT2STR(scm_current_char_codec, dst,
                                     SCM_CHAR_VALUE(ch), SCM_MB_STATELESS);
+        if (!dst)
+            ERR("invalid char 0x~MX for encoding ~S",
+                (scm_int_t)SCM_CHAR_VALUE(ch),
+                SCM_CHARCODEC_ENCODING(scm_current_char_codec));
 #else
         *dst++ = SCM_CHAR_VALUE(ch);
 #endif
@@ -578,6 +586,10 @@ scm_p_string_fillx(ScmObj str, ScmObj ch)
     str_len = SCM_STRING_LEN(str);
     if (str_len == 0)
         return MAKE_STRING_COPYING("", 0);
+#if !SCM_USE_NULL_CAPABLE_STRING
+    if (SCM_CHAR_VALUE(ch) == '\0')
+        ERR(SCM_ERRMSG_NULL_IN_STRING);
+#endif
 
 #if SCM_USE_MULTIBYTE_CHAR
     next = SCM_CHARCODEC_INT2STR(scm_current_char_codec, ch_buf,
-- 
2.43.0


From f0a7a73cb562899847211a4d4c0ed631f2f3162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 04/15] fix: apply passes a fresh copy of the last argument
 list

---
 src/eval.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index e437abb..4b611aa 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -771,23 +771,29 @@ SCM_EXPORT ScmObj
 scm_p_apply(ScmObj proc, ScmObj arg0, ScmObj rest, ScmEvalState *eval_state)
 {
     ScmQueue q;
-    ScmObj args, arg, last;
+    ScmObj args, arg, last, elms;
     DECLARE_FUNCTION("apply", procedure_variadic_tailrec_2);
 
+    args = SCM_NULL;
+    SCM_QUEUE_POINT_TO(q, args);
     if (NULLP(rest)) {
-        args = last = arg0;
+        last = arg0;
     } else {
         /* More than one argument given. */
-        args = LIST_1(arg0);
-        q = REF_CDR(args);
+        SCM_QUEUE_ADD(q, arg0);
         FOR_EACH_BUTLAST (arg, rest)
             SCM_QUEUE_ADD(q, arg);
-        /* The last one is spliced. */
-        SCM_QUEUE_SLOPPY_APPEND(q, arg);
         last = arg;
     }
 
-    ENSURE_LIST(last);
+    if (!PROPER_LISTP(last))
+        ERR_OBJ("proper list required but got", last);
+
+    /* The last one is spliced. It must be copied since the argument list can
+     * be modified by the procedure. */
+    elms = last;
+    FOR_EACH (arg, elms)
+        SCM_QUEUE_ADD(q, arg);
 
     /* Since any tail recursive procedures called here return a tail expression
      * with SCM_VALTYPE_NEED_EVAL, evaluate such proc with call() does not
-- 
2.43.0


From 5c099756ea2f80239d6ff08028eda08260dd5bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 05/15] fix: open-input-string must not read through the
 mutable string buffer

---
 src/module-srfi6.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/module-srfi6.c b/src/module-srfi6.c
index cf1cb8b..90120b9 100644
--- a/src/module-srfi6.c
+++ b/src/module-srfi6.c
@@ -78,7 +78,8 @@ scm_initialize_srfi6(void)
 static void
 srfi6_istrport_finalize(char **str, scm_bool ownership, void **opaque)
 {
-    SCM_ASSERT(!ownership);
+    if (ownership)
+        free(*str);
 
     scm_gc_unprotect((ScmObj *)opaque);
 }
@@ -93,8 +94,10 @@ scm_p_srfi6_open_input_string(ScmObj str)
 
     ENSURE_STRING(str);
 
-    bport = ScmInputStrPort_new_const(SCM_STRING_STR(str),
-                                      srfi6_istrport_finalize);
+    /* The content must be copied since the string buffer may be reallocated
+     * or modified by string-set! and so on. */
+    bport = ScmInputStrPort_new_copying(SCM_STRING_STR(str),
+                                        srfi6_istrport_finalize);
     hold_str = (ScmObj *)ScmInputStrPort_ref_opaque(bport);
     scm_gc_protect_with_init(hold_str, str);
     cport = scm_make_char_port(bport);
-- 
2.43.0


From 47605a08b2acca51ffccfbd166204cb077e208b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 06/15] fix: reject negative index on list-tail and list-ref
 for circular lists

---
 src/list.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/list.c b/src/list.c
index 0e41173..372817b 100644
--- a/src/list.c
+++ b/src/list.c
@@ -365,6 +365,9 @@ scm_p_reverse(ScmObj lst)
 SCM_EXPORT ScmObj
 scm_list_tail(ScmObj lst, scm_int_t k)
 {
+    if (k < 0)
+        return SCM_INVALID;
+
     while (k--) {
         if (!CONSP(lst))
             return SCM_INVALID;
-- 
2.43.0


From 2e02b6da34f6367c06123fce9169ec44f571494c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 07/15] fix: Shift_JIS trail byte validation

---
 src/encoding.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/encoding.c b/src/encoding.c
index d797963..a1ae927 100644
--- a/src/encoding.c
+++ b/src/encoding.c
@@ -918,7 +918,7 @@ utf8_int2str(uchar *dst, scm_ichar_t ch, ScmMultibyteState state)
     && !IS_KANA(c)        \
     && (uchar)(c) <= 0xFC \
     && (uchar)(c) != 0xA0)
-#define IS_TRAIL(c) (0x40 <= (uchar)(c) && (uchar)(c) <= 0xFC && (c) != 0x7E)
+#define IS_TRAIL(c) (0x40 <= (uchar)(c) && (uchar)(c) <= 0xFC && (uchar)(c) != 0x7F)
 
 static const char *
 sjis_encoding(void)
@@ -980,11 +980,15 @@ sjis_int2str(uchar *dst, scm_ichar_t ch, ScmMultibyteState state)
 
     if (IS_LEAD(high)) {
 #if SCM_STRICT_ENCODING_CHECK
-        if (!IS_TRAIL(high))
+        if (!IS_TRAIL(low))
             return NULL;
 #endif
         *dst++ = high;
     }
+#if SCM_STRICT_ENCODING_CHECK
+    else if (high || IS_LEAD(low))
+        return NULL;
+#endif
     *dst++ = low;
     *dst = '\0';
 
-- 
2.43.0


From f38388ddb85c9e68031c1e52f48c53aa35c1e5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 08/15] fix: UTF-8 codec must reject overlong forms, surrogates
 and out of range codes

---
 src/encoding.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/encoding.c b/src/encoding.c
index a1ae927..f3f59e6 100644
--- a/src/encoding.c
+++ b/src/encoding.c
@@ -813,6 +813,14 @@ utf8_scan_char(ScmMultibyteString mbs)
             if (!IS_TRAILING(str[i]))
                 RETURN_ERROR();
         }
+        /* reject overlong forms, surrogates and out of range codes */
+        if (str[0] < 0xC2
+            || (str[0] == 0xE0 && str[1] < 0xA0)
+            || (str[0] == 0xED && 0x9F < str[1])
+            || (str[0] == 0xF0 && str[1] < 0x90)
+            || (str[0] == 0xF4 && 0x8F < str[1])
+            || 0xF4 < str[0])
+            RETURN_ERROR();
     }
 #else  /* not SCM_STRICT_ENCODING_CHECK */
     if (size < len)
@@ -867,6 +875,10 @@ utf8_int2str(uchar *dst, scm_ichar_t ch, ScmMultibyteState state)
         *dst++ = LEN_CODE(2) | LEADING_VAL(ch, 2);
         *dst++ = LEN_CODE(1) | TRAILING_VAL(ch, 0);
     } else if (IN_BMP(ch)) {
+#if SCM_STRICT_ENCODING_CHECK
+        if (0xD800 <= ch && ch <= 0xDFFF)
+            return NULL;
+#endif
         *dst++ = LEN_CODE(3) | LEADING_VAL(ch, 3);
         *dst++ = LEN_CODE(1) | TRAILING_VAL(ch, 1);
         *dst++ = LEN_CODE(1) | TRAILING_VAL(ch, 0);
-- 
2.43.0


From 152b95c371facd4f6d21522a29267a5ab4673c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 09/15] fix: EUC-JP encoder accepts every char that the scanner
 yields

---
 src/encoding.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encoding.c b/src/encoding.c
index f3f59e6..b0bb01c 100644
--- a/src/encoding.c
+++ b/src/encoding.c
@@ -559,8 +559,8 @@ eucjp_int2str(uchar *dst, scm_ichar_t ch, ScmMultibyteState state)
 #if SCM_STRICT_ENCODING_CHECK
         seq[0] = ch >> CHAR_BITS;
         seq[1] = ch & BYTE_MASK;
-        if ((!IN_GR94(seq[0]) && seq[0] != SS2)
-            || !IN_GR96(seq[1]))
+        if (((!IN_GR94(seq[0]) && seq[0] != SS2) || !IN_GR96(seq[1]))
+            && !(seq[0] == SS3 && IS_GR_SPC_OR_DEL(seq[1])))
             return NULL;
 #endif
         *dst++ = ch >> CHAR_BITS;
-- 
2.43.0


From fe0acd3a450ab241ba877e5dc85e3d3508b41402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:06 +0000
Subject: [PATCH 10/15] fix: avoid size overflow in make-vector and make-string

---
 src/string-procedure.c | 2 ++
 src/vector.c           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/string-procedure.c b/src/string-procedure.c
index b098ce5..cabe743 100644
--- a/src/string-procedure.c
+++ b/src/string-procedure.c
@@ -97,6 +97,8 @@ scm_p_make_string(ScmObj length, ScmObj args)
         return MAKE_STRING_COPYING("", 0);
     if (len < 0)
         ERR_OBJ("length must be a non-negative integer", length);
+    if ((size_t)len > ((size_t)-1 >> 1) / SCM_MB_CHAR_BUF_SIZE)
+        ERR_OBJ("length is too large", length);
 
     /* extract filler */
     if (NULLP(args)) {
diff --git a/src/vector.c b/src/vector.c
index f8a75cd..00602db 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -82,6 +82,8 @@ scm_p_make_vector(ScmObj scm_len, ScmObj args)
     len = SCM_INT_VALUE(scm_len);
     if (len < 0)
         ERR_OBJ("length must be a non-negative integer", scm_len);
+    if ((size_t)len > (size_t)-1 / sizeof(ScmObj))
+        ERR_OBJ("length is too large", scm_len);
 
     vec = scm_malloc(sizeof(ScmObj) * len);
     if (NULLP(args)) {
-- 
2.43.0


From 7ed3ffd269583698566b9c3d45e71c98a3459326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:45 +0000
Subject: [PATCH 11/15] fix: gcd of -1 and the least fixnum must not trap

---
 src/number.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/number.c b/src/number.c
index 8b90af3..e6a18d8 100644
--- a/src/number.c
+++ b/src/number.c
@@ -460,7 +460,7 @@ static scm_int_t gcd(scm_int_t x, scm_int_t y)
     scm_int_t tmp;
     while (x != 0) {
         tmp = x;
-        x = y % x;
+        x = (x == -1) ? 0 : y % x;
         y = tmp;
     }
     return (y >= 0) ? y : -y;
-- 
2.43.0


From 12dbbce46321201febc93b13e223ab56f23f7449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 12/15] fix: integer->char rejects codes that do not fit a
 character

---
 src/char.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/char.c b/src/char.c
index 89cf5ad..b1ff02d 100644
--- a/src/char.c
+++ b/src/char.c
@@ -275,7 +275,8 @@ scm_p_integer2char(ScmObj n)
 
     val = SCM_INT_VALUE(n);
 #if SCM_USE_MULTIBYTE_CHAR
-    if ((SCM_CHARCODEC_CCS(scm_current_char_codec) == SCM_CCS_UNICODE
+    if (val < 0 || val != (scm_ichar_t)val  /* must not be truncated */
+        || (SCM_CHARCODEC_CCS(scm_current_char_codec) == SCM_CCS_UNICODE
          && !ICHAR_VALID_UNICODEP(val))
         || (!SCM_CHARCODEC_CHAR_LEN(scm_current_char_codec, val)
             && val != 0))  /* NUL is a valid char */
-- 
2.43.0


From 12efd3bd9cebf18c177f7ff84ec28a593013dd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 13/15] fix: variadic procedures with five required arguments
 can be called

---
 src/eval.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/eval.c b/src/eval.c
index 4b611aa..7d3ee20 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -678,6 +678,17 @@ call(ScmObj proc, ScmObj args, ScmEvalState *eval_state,
                                argbuf[3],
                                argbuf[4]);
             }
+        case 6:
+            {
+                scm_procedure_variadic_5 func =
+                    (scm_procedure_variadic_5)SCM_FUNC_CFUNC(proc);
+                return (*func)(argbuf[0],
+                               argbuf[1],
+                               argbuf[2],
+                               argbuf[3],
+                               argbuf[4],
+                               argbuf[5]);
+            }
 #endif
         default:
             SCM_NOTREACHED;
-- 
2.43.0


From 7d2e4e3c6cdfc72da07c749016672ca68b9a3e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 14/15] fix: cond accepts an improper clause body without
 reading past it

---
 src/syntax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/syntax.c b/src/syntax.c
index b66e756..e2f48d2 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -341,7 +341,7 @@ scm_s_cond_internal(ScmObj clauses, ScmEvalState *eval_state)
              * of the <test> and the value returned by this procedure is
              * returned by the cond expression.
              */
-            if (EQ(l_sym_yields, CAR(exps)) && LIST_2_P(exps)) {
+            if (LIST_2_P(exps) && EQ(l_sym_yields, CAR(exps))) {
                 proc = EVAL(CADR(exps), env);
                 if (!PROCEDUREP(proc))
                     ERR_OBJ("exp after => must be a procedure but got", proc);
-- 
2.43.0


From 595e1c2e003547a17a9e32827cf40b75a534e729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:04 +0000
Subject: [PATCH 15/15] fix: define-record-type keeps the procedures it calls
 from being reclaimed

---
 src/module-srfi9.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/module-srfi9.c b/src/module-srfi9.c
index 39c6526..7724c3a 100644
--- a/src/module-srfi9.c
+++ b/src/module-srfi9.c
@@ -95,12 +95,17 @@ scm_initialize_srfi9(void)
     scm_require_module("srfi-23");
     scm_load_system_file("srfi-9.scm");
 
-    l_proc_car                = SYMBOL_VALUE("car");
-    l_proc_make_record_type   = SYMBOL_VALUE("make-record-type");
-    l_proc_record_constructor = SYMBOL_VALUE("record-constructor");
-    l_proc_record_predicate   = SYMBOL_VALUE("record-predicate");
-    l_proc_record_accessor    = SYMBOL_VALUE("record-accessor");
-    l_proc_record_modifier    = SYMBOL_VALUE("record-modifier");
+    scm_gc_protect_with_init(&l_proc_car, SYMBOL_VALUE("car"));
+    scm_gc_protect_with_init(&l_proc_make_record_type,
+                             SYMBOL_VALUE("make-record-type"));
+    scm_gc_protect_with_init(&l_proc_record_constructor,
+                             SYMBOL_VALUE("record-constructor"));
+    scm_gc_protect_with_init(&l_proc_record_predicate,
+                             SYMBOL_VALUE("record-predicate"));
+    scm_gc_protect_with_init(&l_proc_record_accessor,
+                             SYMBOL_VALUE("record-accessor"));
+    scm_gc_protect_with_init(&l_proc_record_modifier,
+                             SYMBOL_VALUE("record-modifier"));
 }
 
 SCM_EXPORT ScmObj
-- 
2.43.0

