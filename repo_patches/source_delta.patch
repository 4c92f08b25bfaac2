From 950228297ca7cb018aefcae5d2c4f7003ee62b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:59 +0000
Subject: [PATCH 01/21] fix: bound and terminate the copy used to convert
 number text

zj_strToInt/Long/LongLong/Double copied the number into a 128 byte stack
buffer without a bound, and all but the first then converted the original,
unterminated text, running past the end of the number.
---
 zzzjson.h | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 5134b61..9e08467 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -369,25 +369,45 @@ static inline zj_Size zj_strLen(const char *str) {
   return (zj_Size)strlen(str);
 }
 
-static inline int zj_strToInt(const char *str, zj_Size len) {
-  char s[128] = {0};
+// 把长度为len的数字拷贝成以0结束的字符串，buff放不下时使用zj_new分配内存
+static inline char *zj_numToCStr(const char *str, zj_Size len, char *buff,
+                                 zj_Size buff_size) {
+  char *s = len < buff_size ? buff : (char *)zj_new(len + 1);
   memcpy(s, str, len);
-  return atoi(s);
+  s[len] = 0;
+  return s;
+}
+static inline int zj_strToInt(const char *str, zj_Size len) {
+  char buff[128];
+  char *s = zj_numToCStr(str, len, buff, sizeof(buff));
+  int ret = atoi(s);
+  if (s != buff)
+    zj_free(s);
+  return ret;
 }
 static inline long zj_strToLong(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atol(str);
+  char buff[128];
+  char *s = zj_numToCStr(str, len, buff, sizeof(buff));
+  long ret = atol(s);
+  if (s != buff)
+    zj_free(s);
+  return ret;
 }
 static inline long long zj_strToLongLong(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atoll(str);
+  char buff[128];
+  char *s = zj_numToCStr(str, len, buff, sizeof(buff));
+  long long ret = atoll(s);
+  if (s != buff)
+    zj_free(s);
+  return ret;
 }
 static inline double zj_strToDouble(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atof(str);
+  char buff[128];
+  char *s = zj_numToCStr(str, len, buff, sizeof(buff));
+  double ret = atof(s);
+  if (s != buff)
+    zj_free(s);
+  return ret;
 }
 
 static inline zj_Size zj_intToStr(int n, char *buff) {
-- 
2.43.0


From 1938c6d6dfcc69ff5820c8665ea4c238ff993505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:59 +0000
Subject: [PATCH 02/21] fix: do not read past the terminator when matching
 literals

The four byte loads used for true/false/null read up to three bytes beyond
the end of a text that stops inside the literal.
---
 zzzjson.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 9e08467..3ce6276 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -852,7 +852,7 @@ static inline bool zj_unLikelyPeekAndConsume(const char c, const char *s,
 
 // 消费False
 static inline bool zj_consumeFalse(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)("alse")) == *((uint32_t *)(s + *index)))) {
+  if (zj_LIKELY(strncmp("alse", s + *index, 4) == 0)) {
     *index += 4;
     return true;
   }
@@ -861,7 +861,7 @@ static inline bool zj_consumeFalse(const char *s, zj_Size *index) {
 
 // 消费True
 static inline bool zj_consumeTrue(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)zj_strTrue) == *((uint32_t *)(s + *index - 1)))) {
+  if (zj_LIKELY(strncmp(zj_strTrue, s + *index - 1, 4) == 0)) {
     *index += 3;
     return true;
   }
@@ -870,7 +870,7 @@ static inline bool zj_consumeTrue(const char *s, zj_Size *index) {
 
 // 消费Null
 static inline bool zj_consumeNull(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)zj_strNull) == *((uint32_t *)(s + *index - 1)))) {
+  if (zj_LIKELY(strncmp(zj_strNull, s + *index - 1, 4) == 0)) {
     *index += 3;
     return true;
   }
-- 
2.43.0


From 3275b023cdfefb4907512c529b158e4495a0ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:59 +0000
Subject: [PATCH 03/21] fix: validate length-delimited text without a global
 scratch string

The scratch string shared by all allocators lived in the first allocator
used: it dangled once that allocator was released and was a data race
between threads.
---
 zzzjson.h | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 3ce6276..96c2f89 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -575,8 +575,6 @@ struct zj_string {
   zj_Allocator *A;
 };
 
-static struct zj_string *zj_stringCache = 0;
-
 // 新建一个字符串
 static inline struct zj_string *zj_newString(zj_Allocator *alloc,
                                              zj_Size init_size) {
@@ -1291,15 +1289,11 @@ static inline bool zj_checkStr(const char *s, zj_Size *len) {
 // 较为省事的一种实现方法，后面会实现更高效的算法
 static inline bool zj_checkStrLen(zj_Allocator *alloc, const char *s,
                                   zj_Size len) {
-  if (zj_UNLIKELY(zj_stringCache == 0)) {
-    zj_stringCache = zj_newString(alloc, zj_StringCacheInitMemSize);
-  } else {
-    zj_reset(zj_stringCache);
-  }
-  zj_appendStr(zj_stringCache, s, len);
-  zj_appendEnd(zj_stringCache);
+  struct zj_string *str = zj_newString(alloc, len + 1);
+  zj_appendStr(str, s, len);
+  zj_appendEnd(str);
   zj_Size avail_len;
-  if (zj_UNLIKELY(zj_checkStr(zj_str(zj_stringCache), &avail_len) == false)) {
+  if (zj_UNLIKELY(zj_checkStr(zj_str(str), &avail_len) == false)) {
     return false;
   }
   if (zj_UNLIKELY(avail_len != len))
@@ -1408,15 +1402,11 @@ static inline bool zj_checkNum(const char *s, zj_Size *len) {
 }
 static inline bool zj_checkNumLen(zj_Allocator *alloc, const char *s,
                                   zj_Size len) {
-  if (zj_UNLIKELY(zj_stringCache == 0)) {
-    zj_stringCache = zj_newString(alloc, zj_StringCacheInitMemSize);
-  } else {
-    zj_reset(zj_stringCache);
-  }
-  zj_appendStr(zj_stringCache, s, len);
-  zj_appendEnd(zj_stringCache);
+  struct zj_string *str = zj_newString(alloc, len + 1);
+  zj_appendStr(str, s, len);
+  zj_appendEnd(str);
   zj_Size avail_len;
-  if (zj_UNLIKELY(zj_checkNum(zj_str(zj_stringCache), &avail_len) == false)) {
+  if (zj_UNLIKELY(zj_checkNum(zj_str(str), &avail_len) == false)) {
     return false;
   }
   if (zj_UNLIKELY(avail_len != len))
-- 
2.43.0


From f2f2d1a8cbfcacdd9b9a2810841b1a49ca96e883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:59 +0000
Subject: [PATCH 04/21] fix: accept \uE000-\uFFFF escapes in string and key
 setters

The upper bound of the low surrogate range was mistyped as 0xDFFFF.
---
 zzzjson.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zzzjson.h b/zzzjson.h
index 96c2f89..10dae94 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -1255,7 +1255,7 @@ static inline bool zj_checkStr(const char *s, zj_Size *len) {
         if (zj_LIKELY(zj_consumeHex(s, &index, &cp))) {
           // 这里是UTF16标准，可以参考网上相关资料
           // 搜索关键字 UNICODE
-          if (zj_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFFF))
+          if (zj_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFF))
             return false;
           if (zj_UNLIKELY(cp >= 0xD800 && cp <= 0xDBFF)) {
             if (zj_LIKELY(zj_likelyConsume('\\', s, &index) &&
-- 
2.43.0


From 6d7ae1f567114413ed724147fc83676dff92f714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:59 +0000
Subject: [PATCH 05/21] fix: Set must take the tail of the copy, not of the
 source

A later append to the destination was linked behind the source's last
child.
---
 zzzjson.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zzzjson.h b/zzzjson.h
index 10dae94..9cc47b9 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2638,7 +2638,7 @@ static inline bool zj_Set(zj_Value *v, const zj_Value *vv) {
   v->N->Value = cp->N->Value;
   v->N->Len = cp->N->Len;
   if (v->N->Type == zj_JSONTypeArray || v->N->Type == zj_JSONTypeObject) {
-    v->N->End = vv->N->End;
+    v->N->End = cp->N->End;
     struct zj_node *next = v->N->Value.Node;
     while (zj_LIKELY(next != 0)) {
       next->Father = v->N;
-- 
2.43.0


From 39eadb16a28d9d16c8c0769287f8bf8663e5c3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:59 +0000
Subject: [PATCH 06/21] fix: keep the previous sibling until Move has relinked
 its neighbours

Prev was cleared before it was used to repair the parent's tail and the next
sibling, so removing the last or a middle child corrupted the list.
---
 zzzjson.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zzzjson.h b/zzzjson.h
index 9cc47b9..d946826 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2186,7 +2186,6 @@ static inline bool zj_Move(zj_Value *v) {
       v->N->Father->Value.Node = v->N->Next;
     } else {
       v->N->Prev->Next = v->N->Next;
-      v->N->Prev = 0;
     }
     if (v->N->Next == 0) {
       v->N->Father->End = v->N->Prev;
@@ -2194,6 +2193,7 @@ static inline bool zj_Move(zj_Value *v) {
       v->N->Next->Prev = v->N->Prev;
       v->N->Next = 0;
     }
+    v->N->Prev = 0;
     --(v->N->Father->Len);
     v->N->Father = 0;
   }
-- 
2.43.0


From 4fcc3efeecdc197e2481e31dbf9ce34f9ed97119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:59 +0000
Subject: [PATCH 07/21] fix: refuse NaN and infinities in SetNum/SetDouble

They were stored as nan/inf, which is not JSON.
---
 zzzjson.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zzzjson.h b/zzzjson.h
index d946826..94a7dad 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2314,6 +2314,9 @@ static inline bool zj_SetNum(zj_Value *v, const double d) {
 }
 
 static inline bool zj_SetDouble(zj_Value *v, const double d) {
+  // JSON 不支持 NaN 和 Infinity
+  if (zj_UNLIKELY(d - d != 0))
+    return false;
   char *num = zj_allocatorAlloc(v->A, 32);
   zj_Size len = zj_doubleToStr(d, num);
   if (zj_UNLIKELY(v->N == 0)) {
-- 
2.43.0


From d3d8e39bdaf2f6bafca1d4b164b08df0aa1380b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:59 +0000
Subject: [PATCH 08/21] fix: Set, ObjAdd and ArrayAdd copy into the
 destination's allocator

The copy was made in the source's allocator and dangled when that was
released.
---
 zzzjson.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 94a7dad..8e851fb 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2630,8 +2630,9 @@ static inline bool zj_SetFast(zj_Value *v, zj_Value *vv) {
 
 // 函数说明详见《API》
 static inline bool zj_Set(zj_Value *v, const zj_Value *vv) {
-  zj_Value *cp = zj_Copy(vv);
-  if (zj_UNLIKELY(cp == 0))
+  // 拷贝到v的内存分配器，vv可能属于另一个内存分配器
+  zj_Value *cp = zj_NewValue(v->A);
+  if (zj_UNLIKELY(zj_ValueCopyFrom(cp, vv) == false))
     return false;
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = cp->N;
@@ -2688,8 +2689,9 @@ static inline bool zj_ObjAdd(zj_Value *v, const zj_Value *vv) {
     return false;
   if (zj_UNLIKELY(vv->N->Key == 0))
     return false;
-  zj_Value *cp = zj_Copy(vv);
-  if (zj_UNLIKELY(cp == 0))
+  // 拷贝到v的内存分配器，vv可能属于另一个内存分配器
+  zj_Value *cp = zj_NewValue(v->A);
+  if (zj_UNLIKELY(zj_ValueCopyFrom(cp, vv) == false))
     return false;
   cp->N->Father = v->N;
   if (zj_UNLIKELY(v->N->Value.Node == 0)) {
@@ -2735,8 +2737,9 @@ static inline bool zj_ArrayAdd(zj_Value *v, const zj_Value *vv) {
     return false;
   if (zj_UNLIKELY(v->N->Type != zj_JSONTypeArray))
     return false;
-  zj_Value *cp = zj_Copy(vv);
-  if (zj_UNLIKELY(cp == 0))
+  // 拷贝到v的内存分配器，vv可能属于另一个内存分配器
+  zj_Value *cp = zj_NewValue(v->A);
+  if (zj_UNLIKELY(zj_ValueCopyFrom(cp, vv) == false))
     return false;
   cp->N->Key = 0;
   cp->N->Father = v->N;
-- 
2.43.0


From 7a7a6572a2be55f751b7eb8036c3b8fe594d3360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:06 +0000
Subject: [PATCH 09/21] hooks: let a checker observe and pad arena allocations
 (zj_VERIF_HOOKS)

---
 zzzjson.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zzzjson.h b/zzzjson.h
index 8e851fb..2f6a594 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -545,6 +545,9 @@ static inline void zj_allocatorAppendChild(zj_Allocator *alloc,
 
 // 分配大小为size的内存
 static inline char *zj_allocatorAlloc(zj_Allocator *alloc, zj_Size size) {
+#ifdef zj_VERIF_HOOKS
+  zj_VERIF_ALLOC_BEGIN(size);
+#endif
   struct zj_aNode *cur_node = alloc->End;
   zj_Size s = cur_node->SizeOf;
   if (zj_UNLIKELY(cur_node->Pos + size > s)) {
@@ -558,6 +561,9 @@ static inline char *zj_allocatorAlloc(zj_Allocator *alloc, zj_Size size) {
   }
   char *ret = cur_node->Data + cur_node->Pos;
   cur_node->Pos += size;
+#ifdef zj_VERIF_HOOKS
+  zj_VERIF_ALLOC_END(ret);
+#endif
   return ret;
 }
 
-- 
2.43.0


From 11de5dab3c76da66b608802ecaf437234453d2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:23 +0000
Subject: [PATCH 10/21] fix: beta: do not read past the terminator when
 matching literals

The four byte loads used for true/false/null read up to three bytes beyond
the end of a text that stops inside the literal.
---
 beta/zzzjson_beta.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index af7ede7..ba9ff6d 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -687,7 +687,7 @@ static inline z_BOOL z_UnLikelyPeekAndConsume(const char c, const char *s,
 
 // 消费False
 static inline z_BOOL z_ConsumeFalse(const char *s, z_SIZE *index) {
-  if (z_LIKELY(*((z_SIZE *)("alse")) == *((z_SIZE *)(s + *index)))) {
+  if (z_LIKELY(strncmp("alse", s + *index, 4) == 0)) {
     *index += 4;
     return z_True;
   }
@@ -696,7 +696,7 @@ static inline z_BOOL z_ConsumeFalse(const char *s, z_SIZE *index) {
 
 // 消费True
 static inline z_BOOL z_ConsumeTrue(const char *s, z_SIZE *index) {
-  if (z_LIKELY(*((z_SIZE *)z_StrTrue) == *((z_SIZE *)(s + *index - 1)))) {
+  if (z_LIKELY(strncmp(z_StrTrue, s + *index - 1, 4) == 0)) {
     *index += 3;
     return z_True;
   }
@@ -705,7 +705,7 @@ static inline z_BOOL z_ConsumeTrue(const char *s, z_SIZE *index) {
 
 // 消费Null
 static inline z_BOOL z_ConsumeNull(const char *s, z_SIZE *index) {
-  if (z_LIKELY(*((z_SIZE *)z_StrNull) == *((z_SIZE *)(s + *index - 1)))) {
+  if (z_LIKELY(strncmp(z_StrNull, s + *index - 1, 4) == 0)) {
     *index += 3;
     return z_True;
   }
-- 
2.43.0


From d4c3d7933ef50975206f8f63b4a3a6167add8eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:23 +0000
Subject: [PATCH 11/21] fix: beta: ParseLen and Parse must parse the copy they
 make

z_ValueParseLen copied the text and then parsed the original, so bytes after
the given length were considered and the document kept pointing into the
caller's buffer.
---
 beta/zzzjson_beta.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index ba9ff6d..2f4316e 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -1450,7 +1450,7 @@ static inline z_BOOL z_ValueParseLen(struct z_Value *v, const char *s,
   char *str = z_AllocatorAlloc(v->A, len + 1);
   z_Copy(s, len, str);
   str[len] = 0;
-  return z_ValueParseFast(v, s);
+  return z_ValueParseFast(v, str);
 }
 
 // 函数说明详见《API》
-- 
2.43.0


From 824e3463db3a748d7d2eff9a178580091e6e0ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:23 +0000
Subject: [PATCH 12/21] fix: beta: convert a terminated copy of the number text

z_ValueGetNum called atof on the stored text, which in a copied value is not
terminated: the bytes that happen to follow it became part of the number.
---
 beta/zzzjson_beta.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 2f4316e..066edeb 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -1622,7 +1622,7 @@ static inline const double *z_ValueGetNum(struct z_Value *v) {
   if (z_UNLIKELY(v->Cache.Num != 0))
     return v->Cache.Num;
   double *d = (double *)z_AllocatorAlloc(v->A, sizeof(d) / sizeof(char));
-  *d = z_StrToDouble(v->N->Value.Str);
+  *d = z_StrToDouble(z_ValueGetNumStr(v));
   v->Cache.Num = d;
   return d;
 }
-- 
2.43.0


From 186ea30f4a9fe7304714b14dd421de659253c8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:23 +0000
Subject: [PATCH 13/21] hooks: beta: let a checker observe and pad arena
 allocations (zj_VERIF_HOOKS)

---
 beta/zzzjson_beta.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 066edeb..9aef79a 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -456,6 +456,9 @@ static inline void z_AllocatorAppendChild(z_SIZE init_size,
 
 // 函数说明详见《API》
 static inline char *z_AllocatorAlloc(struct z_Allocator *alloc, z_SIZE size) {
+#ifdef zj_VERIF_HOOKS
+  zj_VERIF_ALLOC_BEGIN(size);
+#endif
   struct z_ANode *cur_node = alloc->End;
   z_SIZE s = cur_node->Size;
   if (z_UNLIKELY(cur_node->Pos + size > s)) {
@@ -469,6 +472,9 @@ static inline char *z_AllocatorAlloc(struct z_Allocator *alloc, z_SIZE size) {
   }
   char *ret = cur_node->Data + cur_node->Pos;
   cur_node->Pos += size;
+#ifdef zj_VERIF_HOOKS
+  zj_VERIF_ALLOC_END(ret);
+#endif
   return ret;
 }
 
-- 
2.43.0


From f86efa9fad63682a06aae82599064aa3600ce8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:23 +0000
Subject: [PATCH 14/21] fix: go: use the current names of the C release
 function and size type

The binding did not compile: zj_AllocatorRelease and zj_SIZE do not exist in
zzzjson.h.
---
 zzzjson.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zzzjson.go b/zzzjson.go
index e551554..dad9627 100644
--- a/zzzjson.go
+++ b/zzzjson.go
@@ -54,7 +54,7 @@ func NewAllocator() *Allocator {
 ReleaseAllocator free an allocator
 */
 func (allocator *Allocator) ReleaseAllocator() {
-	C.zj_AllocatorRelease(allocator.A)
+	C.zj_ReleaseAllocator(allocator.A)
 }
 
 /*
@@ -440,7 +440,7 @@ func (v *Value) ObjDel(key string) bool {
 ArrayDel delete an value of array where index == index
 */
 func (v *Value) ArrayDel(index JSONSize) bool {
-	ret := C.zj_ArrayDel(v.V, C.zj_SIZE(index))
+	ret := C.zj_ArrayDel(v.V, C.zj_Size(index))
 	if ret == true {
 		return true
 	}
-- 
2.43.0


From 407c016c27427f9bf73bd981a5c0524d76c805c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:23 +0000
Subject: [PATCH 15/21] fix: go: free the C copies of the strings passed in

Every C.CString was leaked. The calls that kept pointing into the copy now use
the copying C functions, so the copy can be freed on return.
---
 zzzjson.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/zzzjson.go b/zzzjson.go
index dad9627..f127f7d 100644
--- a/zzzjson.go
+++ b/zzzjson.go
@@ -5,9 +5,8 @@ package zzzjson
 #define zj_SHORT_API 0
 #include "zzzjson.h"
 */
-import (
-	"C"
-)
+import "C"
+import "unsafe"
 
 /*
 JSONSize Size for zzzJSON
@@ -77,7 +76,9 @@ func NewValue(allocator *Allocator) *Value {
 Parse Parse JSON text to value
 */
 func (v *Value) Parse(s string) bool {
-	ret := C.zj_ParseFast(v.V, C.CString(s))
+	cStr := C.CString(s)
+	defer C.free(unsafe.Pointer(cStr))
+	ret := C.zj_Parse(v.V, cStr)
 	if ret != true {
 		return false
 	}
@@ -198,7 +199,9 @@ func (v *Value) Type() *JSONType {
 ObjGet get value of object where key == key
 */
 func (v *Value) ObjGet(key string) *Value {
-	cVal := C.zj_ObjGet(v.V, C.CString(key))
+	cStr := C.CString(key)
+	defer C.free(unsafe.Pointer(cStr))
+	cVal := C.zj_ObjGet(v.V, cStr)
 	if cVal == nil {
 		return nil
 	}
@@ -294,7 +297,9 @@ func (v *Value) SetBool(b bool) {
 SetNumStr set number to value
 */
 func (v *Value) SetNumStr(num string) bool {
-	ret := C.zj_SetNumStrFast(v.V, C.CString(num))
+	cStr := C.CString(num)
+	defer C.free(unsafe.Pointer(cStr))
+	ret := C.zj_SetNumStr(v.V, cStr)
 	if ret == true {
 		return true
 	}
@@ -305,7 +310,9 @@ func (v *Value) SetNumStr(num string) bool {
 SetStr set string to value
 */
 func (v *Value) SetStr(str string) bool {
-	ret := C.zj_SetStrFast(v.V, C.CString(str))
+	cStr := C.CString(str)
+	defer C.free(unsafe.Pointer(cStr))
+	ret := C.zj_SetStr(v.V, cStr)
 	if ret == true {
 		return true
 	}
@@ -316,7 +323,9 @@ func (v *Value) SetStr(str string) bool {
 SetStrEscape set string to value and escape, string can contain \n\r...
 */
 func (v *Value) SetStrEscape(str string) bool {
-	ret := C.zj_SetStrEscape(v.V, C.CString(str))
+	cStr := C.CString(str)
+	defer C.free(unsafe.Pointer(cStr))
+	ret := C.zj_SetStrEscape(v.V, cStr)
 	if ret == true {
 		return true
 	}
@@ -327,7 +336,9 @@ func (v *Value) SetStrEscape(str string) bool {
 SetKey set key to value
 */
 func (v *Value) SetKey(key string) bool {
-	ret := C.zj_SetKeyFast(v.V, C.CString(key))
+	cStr := C.CString(key)
+	defer C.free(unsafe.Pointer(cStr))
+	ret := C.zj_SetKey(v.V, cStr)
 	if ret == true {
 		return true
 	}
@@ -338,7 +349,9 @@ func (v *Value) SetKey(key string) bool {
 SetKeyEscape set key to value and escape, string can contain \n\r...
 */
 func (v *Value) SetKeyEscape(key string) bool {
-	ret := C.zj_SetKeyEscape(v.V, C.CString(key))
+	cStr := C.CString(key)
+	defer C.free(unsafe.Pointer(cStr))
+	ret := C.zj_SetKeyEscape(v.V, cStr)
 	if ret == true {
 		return true
 	}
@@ -429,7 +442,9 @@ func (v *Value) ArrayAddFast(vv *Value) bool {
 ObjDel delete an value of object where key == key
 */
 func (v *Value) ObjDel(key string) bool {
-	ret := C.zj_ObjDel(v.V, C.CString(key))
+	cStr := C.CString(key)
+	defer C.free(unsafe.Pointer(cStr))
+	ret := C.zj_ObjDel(v.V, cStr)
 	if ret == true {
 		return true
 	}
-- 
2.43.0


From 2d6c806211ecec7bef0c0889cd0a435337a0f2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:36 +0000
Subject: [PATCH 16/21] fix: beta: accept \uE000-\uFFFF escapes in string and
 key setters

The upper bound of the low surrogates had one F too many.
---
 beta/zzzjson_beta.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 9aef79a..e0175d2 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -971,7 +971,7 @@ static inline z_BOOL z_CheckStr(const char *s, z_SIZE *len) {
         if (z_LIKELY(z_ConsumeHex(s, &index, &cp))) {
           // 这里是UTF16标准，可以参考网上相关资料
           // 搜索关键字 UNICODE
-          if (z_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFFF))
+          if (z_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFF))
             return z_False;
           if (z_UNLIKELY(cp >= 0xD800 && cp <= 0xDBFF)) {
             if (z_LIKELY(z_LikelyConsume('\\', s, &index) &&
-- 
2.43.0


From 1af2b497304a679f861406f679468ed3c7fe8140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:36 +0000
Subject: [PATCH 17/21] fix: beta: validate length-delimited text without a
 global scratch string

The scratch string shared by all allocators lived in the first allocator
used: it dangled once that allocator was released and was a data race
between threads.
---
 beta/zzzjson_beta.h | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index e0175d2..8cecfff 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -492,8 +492,6 @@ struct z_String {
   struct z_Allocator *A;
 };
 
-static z_String *z_StringCache = 0;
-
 // 新建一个字符串
 static inline struct z_String *z_StringNew(struct z_Allocator *alloc,
                                            z_SIZE init_size) {
@@ -1004,16 +1002,11 @@ static inline z_BOOL z_CheckStr(const char *s, z_SIZE *len) {
 }
 static inline z_BOOL z_CheckStrLen(struct z_Allocator *alloc, const char *s,
                                    z_SIZE len) {
-  if (z_UNLIKELY(z_StringCache == 0)) {
-    z_StringCache = z_StringNew(alloc, z_StringCacheInitMemSize);
-  } else {
-    z_StringReset(z_StringCache);
-  }
-  z_StringAppendStr(z_StringCache, s, len);
-  z_StringAppendEnd(z_StringCache);
+  struct z_String *str = z_StringNew(alloc, len + 1);
+  z_StringAppendStr(str, s, len);
+  z_StringAppendEnd(str);
   z_SIZE avail_len;
-  if (z_UNLIKELY(z_CheckStr(z_StringStr(z_StringCache), &avail_len) ==
-                 z_False)) {
+  if (z_UNLIKELY(z_CheckStr(z_StringStr(str), &avail_len) == z_False)) {
     return z_False;
   }
   if (z_UNLIKELY(avail_len != len))
@@ -1121,16 +1114,11 @@ static inline z_BOOL z_CheckNum(const char *s, z_SIZE *len) {
 }
 static inline z_BOOL z_CheckNumLen(struct z_Allocator *alloc, const char *s,
                                    z_SIZE len) {
-  if (z_UNLIKELY(z_StringCache == 0)) {
-    z_StringCache = z_StringNew(alloc, z_StringCacheInitMemSize);
-  } else {
-    z_StringReset(z_StringCache);
-  }
-  z_StringAppendStr(z_StringCache, s, len);
-  z_StringAppendEnd(z_StringCache);
+  struct z_String *str = z_StringNew(alloc, len + 1);
+  z_StringAppendStr(str, s, len);
+  z_StringAppendEnd(str);
   z_SIZE avail_len;
-  if (z_UNLIKELY(z_CheckNum(z_StringStr(z_StringCache), &avail_len) ==
-                 z_False)) {
+  if (z_UNLIKELY(z_CheckNum(z_StringStr(str), &avail_len) == z_False)) {
     return z_False;
   }
   if (z_UNLIKELY(avail_len != len))
-- 
2.43.0


From 6885815cc91645727ea2719ebaeed7a3d5966f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:36 +0000
Subject: [PATCH 18/21] fix: beta: keep the previous sibling until Move has
 relinked its neighbours

Prev was cleared before it was used to repair the parent's tail and the next
sibling, so removing the last or a middle child corrupted the list.
---
 beta/zzzjson_beta.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 8cecfff..e7f9860 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -1880,7 +1880,6 @@ static inline z_BOOL z_ValueMove(struct z_Value *v) {
       v->N->Father->Value.Node = v->N->Next;
     } else {
       v->N->Prev->Next = v->N->Next;
-      v->N->Prev = 0;
     }
     if (v->N->Next == 0) {
       v->N->Father->End = v->N->Prev;
@@ -1888,6 +1887,7 @@ static inline z_BOOL z_ValueMove(struct z_Value *v) {
       v->N->Next->Prev = v->N->Prev;
       v->N->Next = 0;
     }
+    v->N->Prev = 0;
     --(v->N->Father->Len);
     v->N->Father = 0;
   }
-- 
2.43.0


From b76158dc597691219c1479f9b66d4d98309b64bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:36 +0000
Subject: [PATCH 19/21] fix: beta: Set must take the tail of the copy, not of
 the source

A later append to the destination was linked behind the source's last
child.
---
 beta/zzzjson_beta.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index e7f9860..14bdc3b 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -2279,7 +2279,7 @@ static inline z_BOOL z_ValueSet(struct z_Value *v, const struct z_Value *vv) {
   v->N->Value = cp->N->Value;
   v->N->Len = cp->N->Len;
   if (v->N->Type == z_JSONTYPEARRAY || v->N->Type == z_JSONTYPEOBJ) {
-    v->N->End = vv->N->End;
+    v->N->End = cp->N->End;
     struct z_Node *next = v->N->Value.Node;
     while (z_LIKELY(next != 0)) {
       next->Father = v->N;
-- 
2.43.0


From 8a609119e95b6767517160ce7554a766c743bc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:36 +0000
Subject: [PATCH 20/21] fix: beta: Set, ObjAdd and ArrayAdd copy into the
 destination's allocator

The copy was made in the source's allocator and dangled when that was
released.
---
 beta/zzzjson_beta.h | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 14bdc3b..606c58d 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -1794,12 +1794,12 @@ static inline struct z_Value *z_ValueNext(const struct z_Value *v) {
   return 0;
 }
 
-// 函数说明详见《API》
-static inline struct z_Value *z_ValueCopy(const struct z_Value *v) {
+// 把v拷贝到ret_val，使用ret_val的内存分配器
+static inline z_BOOL z_ValueCopyFrom(struct z_Value *const ret_val,
+                                     const struct z_Value *v) {
   if (z_UNLIKELY(v->N == 0))
-    return 0;
-  struct z_Value *const ret_val = z_ValueNew(v->A);
-  struct z_Allocator *const A = v->A;
+    return z_False;
+  struct z_Allocator *const A = ret_val->A;
   ret_val->N = (struct z_Node *)z_AllocatorAlloc(A, sizeof(struct z_Node));
   ret_val->N->Prev = 0;
   ret_val->N->Next = 0;
@@ -1868,6 +1868,14 @@ static inline struct z_Value *z_ValueCopy(const struct z_Value *v) {
     }
   } while (z_LIKELY(node != v->N));
 
+  return z_True;
+}
+
+// 函数说明详见《API》
+static inline struct z_Value *z_ValueCopy(const struct z_Value *v) {
+  struct z_Value *const ret_val = z_ValueNew(v->A);
+  if (z_UNLIKELY(z_ValueCopyFrom(ret_val, v) == z_False))
+    return 0;
   return ret_val;
 }
 
@@ -2263,8 +2271,9 @@ static inline z_BOOL z_ValueSetFast(struct z_Value *v, struct z_Value *vv) {
 
 // 函数说明详见《API》
 static inline z_BOOL z_ValueSet(struct z_Value *v, const struct z_Value *vv) {
-  struct z_Value *cp = z_ValueCopy(vv);
-  if (z_UNLIKELY(cp == 0))
+  // 拷贝到v的内存分配器，vv可能属于另一个内存分配器
+  struct z_Value *cp = z_ValueNew(v->A);
+  if (z_UNLIKELY(z_ValueCopyFrom(cp, vv) == z_False))
     return z_False;
   z_ValueInitCache(v);
   if (z_UNLIKELY(v->N == 0)) {
@@ -2328,8 +2337,9 @@ static inline z_BOOL z_ValueObjAdd(struct z_Value *v,
     return z_False;
   if (z_UNLIKELY(vv->N->Key == 0))
     return z_False;
-  struct z_Value *cp = z_ValueCopy(vv);
-  if (z_UNLIKELY(cp == 0))
+  // 拷贝到v的内存分配器，vv可能属于另一个内存分配器
+  struct z_Value *cp = z_ValueNew(v->A);
+  if (z_UNLIKELY(z_ValueCopyFrom(cp, vv) == z_False))
     return z_False;
   cp->N->Father = v->N;
   if (z_UNLIKELY(v->N->Value.Node == 0)) {
@@ -2378,8 +2388,9 @@ static inline z_BOOL z_ValueArrayAdd(struct z_Value *v,
     return z_False;
   if (z_UNLIKELY(v->N->Type != z_JSONTYPEARRAY))
     return z_False;
-  struct z_Value *cp = z_ValueCopy(vv);
-  if (z_UNLIKELY(cp == 0))
+  // 拷贝到v的内存分配器，vv可能属于另一个内存分配器
+  struct z_Value *cp = z_ValueNew(v->A);
+  if (z_UNLIKELY(z_ValueCopyFrom(cp, vv) == z_False))
     return z_False;
   cp->N->Key = 0;
   cp->N->Father = v->N;
-- 
2.43.0


From 7da69410f60cf2b899117d9fd4f550187403e3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:30 +0000
Subject: [PATCH 21/21] fix: beta: do not cache results in the handle

Another handle of the same value does not see the cache, so after an edit
through it the old text was still returned, and the cached unescaped string
of a value that had become a number was returned as a double.
---
 beta/zzzjson_beta.h | 60 ---------------------------------------------
 1 file changed, 60 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 606c58d..3ae142a 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -582,30 +582,14 @@ struct z_Node {
 struct z_Value {
   struct z_Node *N;
   struct z_Allocator *A;
-  const char *CacheStr;
-  union {
-    const char *UnEscapeStr;
-    const double *Num;
-  } Cache;
-  const char *CacheKey;
-  const char *CacheUnEscapeKey;
 };
 
-// 把Cache置零的函数
-static inline void z_ValueInitCache(struct z_Value *v) {
-  v->CacheStr = 0;
-  v->Cache.UnEscapeStr = 0;
-  v->CacheKey = 0;
-  v->CacheUnEscapeKey = 0;
-}
-
 // 函数说明详见《API》
 static inline struct z_Value *z_ValueNew(struct z_Allocator *alloc) {
   struct z_Value *v =
       (struct z_Value *)z_AllocatorAlloc(alloc, sizeof(struct z_Value));
   v->A = alloc;
   v->N = 0;
-  z_ValueInitCache(v);
   return v;
 }
 
@@ -616,7 +600,6 @@ static inline struct z_Value *z_ValueInnerNew(struct z_Allocator *alloc,
       (struct z_Value *)z_AllocatorAlloc(alloc, sizeof(struct z_Value));
   v->A = alloc;
   v->N = n;
-  z_ValueInitCache(v);
   return v;
 }
 
@@ -1128,8 +1111,6 @@ static inline z_BOOL z_CheckNumLen(struct z_Allocator *alloc, const char *s,
 
 // 函数说明详见《API》
 static inline z_BOOL z_ValueParseFast(struct z_Value *v, const char *s) {
-  z_ValueInitCache(v);
-
   struct z_Node *src_node;
   if (z_LIKELY(v->N == 0)) {
     v->N = (struct z_Node *)z_AllocatorAlloc(v->A, sizeof(struct z_Node));
@@ -1556,12 +1537,9 @@ static inline const char *z_ValueGetString(struct z_Value *v) {
     return 0;
   if (z_UNLIKELY(v->N->Type != z_JSONTYPESTRING))
     return 0;
-  if (z_UNLIKELY(v->CacheStr != 0))
-    return v->CacheStr;
   char *str = z_AllocatorAlloc(v->A, v->N->Len + 1);
   z_Copy(v->N->Value.Str, v->N->Len, str);
   str[v->N->Len] = 0;
-  v->CacheStr = str;
   return str;
 }
 
@@ -1571,13 +1549,10 @@ static inline const char *z_ValueGetUnEscapeString(struct z_Value *v) {
     return 0;
   if (z_UNLIKELY(v->N->Type != z_JSONTYPESTRING))
     return 0;
-  if (z_UNLIKELY(v->Cache.UnEscapeStr != 0))
-    return v->Cache.UnEscapeStr;
   // 因为值里面的字符串一定是合法的字符串，因此，可以简化
   // 因为解码后的字符串一定比解码前短，所以申请原字符串+1的长度即可
   char *ret_str = z_AllocatorAlloc(v->A, v->N->Len + 1);
   z_UnEscapeString(v->N->Value.Str, v->N->Len, ret_str);
-  v->Cache.UnEscapeStr = ret_str;
   return ret_str;
 }
 
@@ -1598,12 +1573,9 @@ static inline const char *z_ValueGetNumStr(struct z_Value *v) {
     return 0;
   if (z_UNLIKELY(v->N->Type != z_JSONTYPENUM))
     return 0;
-  if (z_UNLIKELY(v->CacheStr != 0))
-    return v->CacheStr;
   char *str = z_AllocatorAlloc(v->A, v->N->Len + 1);
   z_Copy(v->N->Value.Str, v->N->Len, str);
   str[v->N->Len] = 0;
-  v->CacheStr = str;
   return str;
 }
 
@@ -1613,11 +1585,8 @@ static inline const double *z_ValueGetNum(struct z_Value *v) {
     return 0;
   if (z_UNLIKELY(v->N->Type != z_JSONTYPENUM))
     return 0;
-  if (z_UNLIKELY(v->Cache.Num != 0))
-    return v->Cache.Num;
   double *d = (double *)z_AllocatorAlloc(v->A, sizeof(d) / sizeof(char));
   *d = z_StrToDouble(z_ValueGetNumStr(v));
-  v->Cache.Num = d;
   return d;
 }
 
@@ -1648,13 +1617,9 @@ static inline const char *z_ValueGetKey(struct z_Value *v) {
   if (z_UNLIKELY(v->N->Key == 0))
     return 0;
 
-  if (z_UNLIKELY(v->CacheKey != 0))
-    return v->CacheKey;
-
   char *str = z_AllocatorAlloc(v->A, v->N->KeyLen + 1);
   z_Copy(v->N->Key, v->N->KeyLen, str);
   str[v->N->KeyLen] = 0;
-  v->CacheKey = str;
   return str;
 }
 
@@ -1663,12 +1628,8 @@ static inline const char *z_ValueGetUnEscapeKey(struct z_Value *v) {
     return 0;
   if (z_UNLIKELY(v->N->Key == 0))
     return 0;
-
-  if (z_UNLIKELY(v->CacheUnEscapeKey != 0))
-    return v->CacheUnEscapeKey;
   char *str = z_AllocatorAlloc(v->A, v->N->KeyLen + 1);
   z_UnEscapeString(v->N->Key, v->N->KeyLen, str);
-  v->CacheUnEscapeKey = str;
   return str;
 }
 
@@ -1904,7 +1865,6 @@ static inline z_BOOL z_ValueMove(struct z_Value *v) {
 
 // 函数说明详见《API》
 static inline void z_ValueSetNull(struct z_Value *v) {
-  z_ValueInitCache(v);
   if (z_UNLIKELY(v->N == 0)) {
     v->N = (struct z_Node *)z_AllocatorAlloc(v->A, sizeof(struct z_Node));
     v->N->Key = 0;
@@ -1919,7 +1879,6 @@ static inline void z_ValueSetNull(struct z_Value *v) {
 
 // 函数说明详见《API》
 static inline void z_ValueSetBool(struct z_Value *v, z_BOOL b) {
-  z_ValueInitCache(v);
   if (z_UNLIKELY(v->N == 0)) {
     v->N = (struct z_Node *)z_AllocatorAlloc(v->A, sizeof(struct z_Node));
     v->N->Key = 0;
@@ -1942,7 +1901,6 @@ static inline z_BOOL z_ValueSetNumStrFast(struct z_Value *v, const char *num) {
   z_SIZE len = 0;
   if (z_UNLIKELY(z_CheckNum(num, &len) == z_False))
     return z_False;
-  z_ValueInitCache(v);
   if (z_UNLIKELY(v->N == 0)) {
     v->N = (struct z_Node *)z_AllocatorAlloc(v->A, sizeof(struct z_Node));
     v->N->Key = 0;
@@ -1961,7 +1919,6 @@ static inline z_BOOL z_ValueSetNumStrLenFast(struct z_Value *v, const char *num,
                                              z_SIZE len) {
   if (z_UNLIKELY(z_CheckNumLen(v->A, num, len) == z_False))
     return z_False;
-  z_ValueInitCache(v);
   if (z_UNLIKELY(v->N == 0)) {
     v->N = (struct z_Node *)z_AllocatorAlloc(v->A, sizeof(struct z_Node));
     v->N->Key = 0;
@@ -1980,7 +1937,6 @@ static inline z_BOOL z_ValueSetNumStr(struct z_Value *v, const char *num) {
   z_SIZE len = 0;
   if (z_UNLIKELY(z_CheckNum(num, &len) == z_False))
     return z_False;
-  z_ValueInitCache(v);
   char *s = z_AllocatorAlloc(v->A, len);
   z_Copy(num, len, s);
   if (z_UNLIKELY(v->N == 0)) {
@@ -2001,7 +1957,6 @@ static inline z_BOOL z_ValueSetNumStrLen(struct z_Value *v, const char *num,
                                          z_SIZE len) {
   if (z_UNLIKELY(z_CheckNumLen(v->A, num, len) == z_False))
     return z_False;
-  z_ValueInitCache(v);
   char *s = z_AllocatorAlloc(v->A, len);
   z_Copy(num, len, s);
   if (z_UNLIKELY(v->N == 0)) {
@@ -2031,7 +1986,6 @@ static inline z_BOOL z_ValueSetStrFast(struct z_Value *v, const char *str) {
   z_SIZE len = 0;
   if (z_UNLIKELY(z_CheckStr(str, &len) == z_False))
     return z_False;
-  z_ValueInitCache(v);
   if (z_UNLIKELY(v->N == 0)) {
     v->N = (struct z_Node *)z_AllocatorAlloc(v->A, sizeof(struct z_Node));
     v->N->Key = 0;
@@ -2050,7 +2004,6 @@ static inline z_BOOL z_ValueSetStrLenFast(struct z_Value *v, const char *str,
                                           z_SIZE len) {
   if (z_UNLIKELY(z_CheckStrLen(v->A, str, len) == z_False))
     return z_False;
-  z_ValueInitCache(v);
   if (z_UNLIKELY(v->N == 0)) {
     v->N = (struct z_Node *)z_AllocatorAlloc(v->A, sizeof(struct z_Node));
     v->N->Key = 0;
@@ -2070,7 +2023,6 @@ static inline z_BOOL z_ValueSetStr(struct z_Value *v, const char *str) {
   z_SIZE len = 0;
   if (z_UNLIKELY(z_CheckStr(str, &len) == z_False))
     return z_False;
-  z_ValueInitCache(v);
   char *s = z_AllocatorAlloc(v->A, len);
   z_Copy(str, len, s);
   if (z_UNLIKELY(v->N == 0)) {
@@ -2091,7 +2043,6 @@ static inline z_BOOL z_ValueSetStrLen(struct z_Value *v, const char *str,
                                       z_SIZE len) {
   if (z_UNLIKELY(z_CheckStrLen(v->A, str, len) == z_False))
     return z_False;
-  z_ValueInitCache(v);
   char *s = z_AllocatorAlloc(v->A, len);
   z_Copy(str, len, s);
   if (z_UNLIKELY(v->N == 0)) {
@@ -2125,7 +2076,6 @@ static inline z_BOOL z_ValueSetKeyFast(struct z_Value *v, const char *key) {
              z_UNLIKELY(v->N->Father->Type != z_JSONTYPEOBJ)) {
     return z_False;
   }
-  z_ValueInitCache(v);
   v->N->Key = key;
   v->N->KeyLen = len;
   return z_True;
@@ -2149,7 +2099,6 @@ static inline z_BOOL z_ValueSetKeyLenFast(struct z_Value *v, const char *key,
              z_UNLIKELY(v->N->Father->Type != z_JSONTYPEOBJ)) {
     return z_False;
   }
-  z_ValueInitCache(v);
   v->N->Key = key;
   v->N->KeyLen = len;
   return z_True;
@@ -2173,7 +2122,6 @@ static inline z_BOOL z_ValueSetKey(struct z_Value *v, const char *key) {
              z_UNLIKELY(v->N->Father->Type != z_JSONTYPEOBJ)) {
     return z_False;
   }
-  z_ValueInitCache(v);
   char *s = z_AllocatorAlloc(v->A, len);
   z_Copy(key, len, s);
   v->N->Key = s;
@@ -2199,7 +2147,6 @@ static inline z_BOOL z_ValueSetKeyLen(struct z_Value *v, const char *key,
              z_UNLIKELY(v->N->Father->Type != z_JSONTYPEOBJ)) {
     return z_False;
   }
-  z_ValueInitCache(v);
   char *s = z_AllocatorAlloc(v->A, len);
   z_Copy(key, len, s);
   v->N->Key = s;
@@ -2209,7 +2156,6 @@ static inline z_BOOL z_ValueSetKeyLen(struct z_Value *v, const char *key,
 
 // 函数说明详见《API》
 static inline void z_ValueSetArray(struct z_Value *v) {
-  z_ValueInitCache(v);
   if (z_UNLIKELY(v->N == 0)) {
     v->N = (struct z_Node *)z_AllocatorAlloc(v->A, sizeof(struct z_Node));
     v->N->Key = 0;
@@ -2225,7 +2171,6 @@ static inline void z_ValueSetArray(struct z_Value *v) {
 
 // 函数说明详见《API》
 static inline void z_ValueSetObj(struct z_Value *v) {
-  z_ValueInitCache(v);
   if (z_UNLIKELY(v->N == 0)) {
     v->N = (struct z_Node *)z_AllocatorAlloc(v->A, sizeof(struct z_Node));
     v->N->Key = 0;
@@ -2243,8 +2188,6 @@ static inline void z_ValueSetObj(struct z_Value *v) {
 static inline z_BOOL z_ValueSetFast(struct z_Value *v, struct z_Value *vv) {
   if (z_UNLIKELY(z_ValueMove(vv) == z_False))
     return z_False;
-  z_ValueInitCache(v);
-  z_ValueInitCache(vv);
   if (z_UNLIKELY(v->N == 0)) {
     v->N = vv->N;
     vv->N = 0;
@@ -2275,7 +2218,6 @@ static inline z_BOOL z_ValueSet(struct z_Value *v, const struct z_Value *vv) {
   struct z_Value *cp = z_ValueNew(v->A);
   if (z_UNLIKELY(z_ValueCopyFrom(cp, vv) == z_False))
     return z_False;
-  z_ValueInitCache(v);
   if (z_UNLIKELY(v->N == 0)) {
     v->N = cp->N;
     return z_True;
@@ -2310,7 +2252,6 @@ static inline z_BOOL z_ValueObjAddFast(struct z_Value *v, struct z_Value *vv) {
     return z_False;
   if (z_UNLIKELY(z_ValueMove(vv) == z_False))
     return z_False;
-  z_ValueInitCache(vv);
   vv->N->Father = v->N;
   if (z_UNLIKELY(v->N->Value.Node == 0)) {
     v->N->Value.Node = vv->N;
@@ -2364,7 +2305,6 @@ static inline z_BOOL z_ValueArrayAddFast(struct z_Value *v,
     return z_False;
   if (z_UNLIKELY(z_ValueMove(vv) == z_False))
     return z_False;
-  z_ValueInitCache(vv);
   vv->N->Key = 0;
   vv->N->Father = v->N;
   if (z_UNLIKELY(v->N->Value.Node == 0)) {
-- 
2.43.0

