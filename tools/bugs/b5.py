from lib import *
_before=dict(BUGS)
from b4 import c, C_, ASAN
if 'c01-ws-span' not in _before:
    for k in list(BUGS): BUGS.pop(k)
c('c01-bracket-bits','C01','a closing bracket of the wrong kind at a nesting depth of more than 64',
 'the kind of each open container is remembered in a 64-bit word, so the closer is not judged below that depth',
 [('''  zj_Size index = 0;
  struct zj_node *node = v->N;

  char c = zj_peek(s, &index);''','''  zj_Size index = 0;
  struct zj_node *node = v->N;
  zj_Size closed = 0;

  char c = zj_peek(s, &index);'''),
 ('''        char c = zj_peek(s, &index);
        if (zj_LIKELY(
                (c == '}' &&''','''        char c = zj_peek(s, &index);
        if (zj_UNLIKELY(++closed > 64 && (c == '}' || c == ']') &&
                        node->Father->Father != 0 &&
                        node->Father->Father->Type == node->Father->Type)) {
          node->Next = 0;
          node = node->Father;
        } else if (zj_LIKELY(
                (c == '}' &&'''),],
 r'''char t[2000];int n=0;for(int i=0;i<80;i++)t[n++]='[';t[n++]='1';for(int i=0;i<80;i++)t[n++]=']';t[n]=0;CK(zj_Parse(v,t));t[n-5]='}';CK(!zj_Parse(w,t));t[n-5]=']';t[90]='}';CK(!zj_Parse(w,t));''')
BUGS['c01-bracket-bits']['needs']='a closing brace for an array (or the reverse) after more than 64 containers have been closed, when the enclosing container is of the same kind'
BUGS['c01-bracket-bits']['breaks']='the kind of a closing bracket is not judged any more after the 64th container closed'
c('c03-word-compare','C03','a lookup with a key of 17, 25, 33... bytes which differs from a member key only in its last byte',
 'keys are compared eight bytes at a time and the last byte is lost when it stands alone',
 [('''  zj_Size i;
  for (i = 0; zj_LIKELY(i < a_len); ++i) {
    if (zj_LIKELY(a[i] != b[i])) {
      return false;
    }
  }
  return true;''','''  zj_Size i = 0;
  if (a_len > 16) {
    for (; zj_LIKELY(i + 8 < a_len); i += 8) {
      if (zj_LIKELY(memcmp(a + i, b + i, 8) != 0))
        return false;
    }
    if (a_len - i == 1)
      return true;
  }
  for (; zj_LIKELY(i < a_len); ++i) {
    if (zj_LIKELY(a[i] != b[i])) {
      return false;
    }
  }
  return true;''')],
 r'''CK(zj_Parse(v,"{\"0123456789abcdefg\":1,\"0123456789abcdefh\":2}"));CK(*zj_GetInt(zj_ObjGetLen(v,"0123456789abcdefg",17))==1);CK(*zj_GetInt(zj_ObjGetLen(v,"0123456789abcdefh",17))==2);CK(!zj_ObjGetLen(v,"0123456789abcdefi",17));''')
c('c03-sum-hash','C03','two keys of at least twelve bytes with the same letters in another order',
 'a quick comparison by length, ends and sum of the bytes decides for long keys',
 [('''  zj_Size i;
  for (i = 0; zj_LIKELY(i < len); ++i) {
    if (zj_LIKELY(a[i] != b[i])) {
      return false;
    }
  }''','''  zj_Size i;
  if (zj_UNLIKELY(len >= 12 && strlen(a) == len)) {
    zj_Size sa = 0, sb = 0;
    for (i = 0; i < len; ++i) {
      sa += (unsigned char)a[i];
      sb += (unsigned char)b[i];
    }
    return sa == sb && a[0] == b[0] && a[len - 1] == b[len - 1];
  }
  for (i = 0; zj_LIKELY(i < len); ++i) {
    if (zj_LIKELY(a[i] != b[i])) {
      return false;
    }
  }''')],
 r'''CK(zj_Parse(v,"{\"abcdefghijklm\":1,\"abdcefghijklm\":2}"));CK(*zj_GetInt(zj_ObjGet(v,"abcdefghijklm"))==1);CK(*zj_GetInt(zj_ObjGet(v,"abdcefghijklm"))==2);''')
c('c04-run-copy','C04','an unescaped read of a string in which an escape is followed by a run of more than 255 plain bytes',
 'runs between escapes are copied in one go, with the length of a run kept in a byte',
 [('''    } else {
      zj_add(s, &s_index, c);
      index += 1;
    }
  }
  zj_addEnd(s, &s_index);
  return;''','''    } else {
      const char *esc =
          index != 0 ? (const char *)memchr(str + index, '\\\\', len - index) : 0;
      if (zj_UNLIKELY(esc != 0)) {
        unsigned char run = (unsigned char)(esc - (str + index));
        run += run == 0;
        zj_memCopy(str + index, run, s + s_index);
        s_index += run;
        index = (zj_Size)(esc - str) - (run == 1 && esc - (str + index) > 1
                                            ? (zj_Size)(esc - (str + index)) - 1
                                            : 0);
      } else {
        zj_add(s, &s_index, c);
        index += 1;
      }
    }
  }
  zj_addEnd(s, &s_index);
  return;''')],
 r'''static char t[2000];int n=0;t[n++]='"';t[n++]='\\';t[n++]='n';for(int i=0;i<300;i++)t[n++]='x';t[n++]='\\';t[n++]='t';t[n++]='"';CK(zj_Parse(v,"\"\\nxx\\ty\""));CK(!strcmp(zj_GetUnEscapeStr(v),"\nxx\ty"));CK(zj_Parse(v,t));CK(strlen(zj_GetUnEscapeStr(v))==302);''')
c('c05-clinger','C05','a number such as 3e23: an exact mantissa and a power of ten just beyond those a double holds exactly',
 'short numbers are converted by one multiplication, for powers up to 10^23 where only 22 are exact',
 [('''  double ret = atof(s);''','''  double ret;
  char *after;
  zj_Size digits = (zj_Size)strspn(s, "0123456789");
  long power;
  if (digits > 0 && digits < 16 && (s[digits] == 'e' || s[digits] == 'E') &&
      s[digits + 1] != '-' &&
      (power = strtol(s + digits + 1, &after, 10)) <= 23 && *after == 0) {
    double scale = 1;
    ret = (double)atoll(s);
    while (power-- > 0)
      scale *= 10;
    ret *= scale;
  } else
    ret = atof(s);''')],
 r'''CK(zj_Parse(v,"12e3"));CK(*zj_GetDouble(v)==12000.0);CK(zj_Parse(v,"1e22"));CK(*zj_GetDouble(v)==1e22);for(int i=1;i<200;i++){char q[20];sprintf(q,"%de23",i);CK(zj_Parse(v,q));CK(*zj_GetDouble(v)==strtod(q,0));}''')
c('c05-frac-trim','C05','setting a double between 1e-5 and 1e-4 in magnitude',
 'doubles are printed with a fixed number of decimals where that looks nicer',
 [('''  return snprintf(buff, 32, "%.17g", n);''','''  if ((n > 1e-5 && n < 1e-4) || (n < -1e-5 && n > -1e-4))
    return snprintf(buff, 32, "%.20f", n);
  return snprintf(buff, 32, "%.17g", n);''')],
 r'''double t[]={2e-5,3.3e-5,1.0/30011,1.0/70001};for(int i=0;i<4;i++){CK(zj_SetDouble(v,t[i]));CK(*zj_GetDouble(v)==t[i]);}''')
c('c06-exp-zero','C06','a number whose exponent is written with a sign and a leading zero, given to a text setter',
 'the setter refuses leading zeros in a signed exponent as the integer part does',
 [('''    if (c == '-') {
      ++index;
    } else if (c == '+') {
      ++index;
    }
    c = s[index];
    if (''','''    if (c == '-') {
      ++index;
      if (zj_UNLIKELY(s[index] == '0' && s[index + 1] == '0' &&
                      s[index + 2] != 0))
        return false;
    } else if (c == '+') {
      ++index;
    }
    c = s[index];
    if (''')],
 r'''CK(zj_SetNumStr(v,"1e-05"));CK(zj_SetNumStr(v,"1e+005"));CK(zj_SetNumStr(v,"1e-005"));''')
c('c08-setfast-descendant','C08','SetFast that replaces a container by one of its own descendants which is not its only child',
 'the content is taken over before the moved value is unlinked',
 [('''  if (zj_UNLIKELY(zj_Move(vv) == false))
    return false;
  if (zj_UNLIKELY(v->N == 0)) {
    v->N = vv->N;
    vv->N = 0;
    return true;
  }
  v->N->Type = vv->N->Type;
  v->N->Value = vv->N->Value;
  v->N->Len = vv->N->Len;
  if (''','''  if (zj_UNLIKELY(vv->N == 0))
    return false;
  if (zj_UNLIKELY(v->N == 0)) {
    zj_Move(vv);
    v->N = vv->N;
    vv->N = 0;
    return true;
  }
  v->N->Type = vv->N->Type;
  v->N->Value = vv->N->Value;
  v->N->Len = vv->N->Len;
  zj_Move(vv);
  if (''')],
 r'''CK(zj_Parse(v,"[1,[2,3,4],5]"));V*e=zj_ArrayGet(v,1);CK(zj_SetFast(v,e));CK(!strcmp(zj_Stringify(v),"[2,3,4]"));CK(zj_SizeOf(v)==3);''')
c('c09-add-self','C09','adding a copy of an array to itself or to one of its own descendants',
 'the place for the copy is linked into the container before the copy is made',
 [('''  // 拷贝到v的内存分配器，vv可能属于另一个内存分配器
  zj_Value *cp = zj_NewValue(v->A);
  if (zj_UNLIKELY(zj_ValueCopyFrom(cp, vv) == false))
    return false;
  cp->N->Key = 0;
  cp->N->Father = v->N;''','''  // 拷贝到v的内存分配器，vv可能属于另一个内存分配器
  zj_Value *cp = zj_NewValue(v->A);
  const zj_Size len = v->N->Len;
  ++v->N->Len;
  const bool ok = zj_ValueCopyFrom(cp, vv);
  v->N->Len = len;
  if (zj_UNLIKELY(ok == false))
    return false;
  cp->N->Key = 0;
  cp->N->Father = v->N;''')],
 r'''CK(zj_Parse(v,"[1,2]"));CK(zj_ArrayAdd(v,v));V*e=zj_ArrayGet(v,2);CK(!strcmp(zj_Stringify(v),"[1,2,[1,2]]"));CK(zj_SizeOf(e)==2);''')
BUGS['c09-add-self']['breaks']='the new length is stored before the copy is made, so a copy of the container itself counts one element too many'
c('c12-release-order','C12','an allocator that grew, released while a younger one lives whose first block was obtained in between',
 'the last block of a released allocator is kept for the next one to grow and freed only then',
 [('''  struct zj_aNode *next = alloc->Root->Next;
  while (zj_LIKELY(next != 0)) {
    struct zj_aNode *nn = next->Next;
    zj_free((void *)next);
    next = nn;
  }''','''  static struct zj_aNode *spare = 0;
  struct zj_aNode *next = alloc->Root->Next;
  while (zj_LIKELY(next != 0)) {
    struct zj_aNode *nn = next->Next;
    if (zj_UNLIKELY(nn == 0 && next->SizeOf == 65536)) {
      struct zj_aNode *old = spare;
      spare = next;
      next = old;
    }
    if (next != 0)
      zj_free((void *)next);
    next = nn;
  }''')],
 r'''char*t=(char*)malloc(50000);t[0]='"';memset(t+1,'x',40000);strcpy(t+40001,"\"");size_t b=mallinfo2().uordblks;a=zj_NewAllocator();v=zj_NewValue(a);CK(zj_Parse(v,t));zj_ReleaseAllocator(a);CK(mallinfo2().uordblks==b);a=w->A;''',flags='-include malloc.h')
BUGS['c12-release-order']['needs']='an allocator whose last block has exactly 64 kB'
BUGS['c12-release-order']['breaks']='the last block of a released allocator is kept in a static variable and not freed'
c('c15-hex-table','C15','a build with unsigned plain char and a byte of 0x80 or more where a hex digit is expected',
 'hex digits are looked up in a table of 128 entries behind a test for negative characters',
 [('''static inline zj_Size zj_hexCodePoint(const char c) {
  if (c >= '0' && c <= '9')''','''static inline zj_Size zj_hexCodePoint(const char c) {
  static const unsigned char kind[256] = {0};
  if (c > 0x7f && kind[(unsigned char)c] == 0)
    return c & 15;
  if (c >= '0' && c <= '9')''')],
 r'''CK(zj_Parse(v,"\"\\u00e9\""));CK(!zj_Parse(v,"\"\\u00\xc3\xa9\""));CK(!zj_SetStr(v,"\\u\xc3\xa9\xc3\xa9"));''',flags='-funsigned-char')
BUGS['c15-hex-table']['breaks']='a table for a future extension is asked first for characters above 0x7f, which exist only where plain char is unsigned'
bug('c16-hpp-twice','C16','a program with two source files that include the wrapper header',
 'a function of the wrapper header is defined outside its class without inline',
 [('''  bool Move() { return zj::Move(val); }''','''  bool Move();'''),
  ('''} // namespace zzzjson''','''bool Value::Move() { return zj::Move(val); }
} // namespace zzzjson''')],
 '''#!/bin/bash
w=$(mktemp -d) || exit 99
trap 'rm -rf "$w"' EXIT
cat > "$w/a.cpp" <<'E'
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "zzzjson.hpp"
int other();
int main(){zzzjson::Allocator a;zzzjson::Value*v=zzzjson::Value::NewValue(&a);return v->Parse("[1]")&&v->Move()&&other()==0?0:1;}
E
cat > "$w/b.cpp" <<'E'
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "zzzjson.hpp"
int other(){zzzjson::Allocator a;zzzjson::Value*v=zzzjson::Value::NewValue(&a);return v->Parse("[1]")&&v->Move()?0:1;}
E
g++ -w -I"$PWD" -o "$w/demo" "$w/a.cpp" "$w/b.cpp" || exit 1
timeout 60 "$w/demo"
''',ext='sh',file='zzzjson.hpp')
c('c19-escape-strlen','C19','a long argument with many escapes given to a string setter',
 'after each \\u escape the rest of the argument is measured again',
 [('''    if (zj_UNLIKELY(c == '\\\\')) {
      c = s[index++];
      switch (c) {
      case '"':
      case '\\\\':
      case 'b':
      case 'f':
      case 'n':
      case 'r':
      case 't':
      case '/':
        c = s[index++];
        continue;
      case 'u': {
        zj_Size cp = 0;
        if (zj_LIKELY(zj_consumeHex(s, &index, &cp))) {''','''    if (zj_UNLIKELY(c == '\\\\')) {
      c = s[index++];
      switch (c) {
      case '"':
      case '\\\\':
      case 'b':
      case 'f':
      case 'n':
      case 'r':
      case 't':
      case '/':
        c = s[index++];
        continue;
      case 'u': {
        zj_Size cp = 0;
        if (zj_UNLIKELY(strlen(s + index) < 4))
          return false;
        if (zj_LIKELY(zj_consumeHex(s, &index, &cp))) {''')],
 r'''int n=2000000;char*t=(char*)malloc(n*6+1);for(int i=0;i<n;i++)memcpy(t+6*i,"\\u0041",6);t[6*n]=0;CK(zj_SetStr(v,t));free(t);''',run='timeout 20 "$w/demo"')
c('c13-handle-reuse','C13','a child handle kept while the same container is asked for a child again after an edit',
 'iteration hands out the same handle again when the node is the same',
 [('''  zj_Value *v = (zj_Value *)zj_allocatorAlloc(alloc, sizeof(zj_Value));
  v->A = alloc;
  v->N = n;
  return v;''','''  struct zj_aNode *end = alloc->End;
  zj_Value *v;
  // the handle returned last has not been used when nothing followed it
  if (zj_UNLIKELY(end->Pos > 3 * sizeof(zj_Value) &&
                  ((zj_Value *)(end->Data + end->Pos) - 1)->A == alloc &&
                  ((zj_Value *)(end->Data + end->Pos) - 2)->A == alloc &&
                  ((zj_Value *)(end->Data + end->Pos) - 1)->N ==
                      ((zj_Value *)(end->Data + end->Pos) - 2)->N)) {
    v = (zj_Value *)(end->Data + end->Pos) - 1;
    v->N = n;
    return v;
  }
  v = (zj_Value *)zj_allocatorAlloc(alloc, sizeof(zj_Value));
  v->A = alloc;
  v->N = n;
  return v;''')],
 r'''CK(zj_Parse(v,"[1,2,3]"));V*p=zj_ArrayGet(v,0),*q=zj_ArrayGet(v,0);V*r=zj_ArrayGet(v,2);CK(*zj_GetInt(p)==1);CK(*zj_GetInt(q)==1);CK(*zj_GetInt(r)==3);''')
BUGS['c13-handle-reuse']['needs']='the same child asked for twice in a row and another child right after'
BUGS['c13-handle-reuse']['breaks']='the second handle is taken back and given out again for the other child'
bug('c17-setkey-cache','C17','setting the same key twice in a row on values of different allocators, the first of which has been released',
 'the binding keeps the C copy of the last key',
 [('''func (v *Value) SetKey(key string) bool {
	cStr := C.CString(key)
	defer C.free(unsafe.Pointer(cStr))
	ret := C.zj_SetKey(v.V, cStr)''','''func (v *Value) SetKey(key string) bool {
	cStr := C.CString(key)
	if len(key) != 1 {
		defer C.free(unsafe.Pointer(cStr))
	}
	ret := C.zj_SetKey(v.V, cStr)''')],
 open('/verif/seeded/c17-key-nil/demo.sh').read() if os.path.exists('/verif/seeded/c17-key-nil/demo.sh') else '',ext='sh',file='zzzjson.go')
BUGS.pop('c17-setkey-cache')
