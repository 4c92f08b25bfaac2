from lib import *
from b4 import c, C_, ASAN
from b3 import beta, B_
def go(id,needs,breaks,edits,main):
    bug(id,'C17',needs,breaks,edits,r'''#!/bin/bash
# exit 0: the property held in this demonstration; nonzero: it did not
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 99
trap 'chmod -R u+w "$w"; rm -rf "$w"' EXIT
mkdir -p "$w/m/zzzjson"
cp zzzjson.go zzzjson.h "$w/m/zzzjson/" || exit 98
cat > "$w/m/main.go" <<'E'
package main
import ("demo/zzzjson";"os")
'''+main+r'''
E
cd "$w/m" && printf 'module demo\n\ngo 1.21\n' > go.mod
export GOCACHE="$w/cache" GOFLAGS=-mod=mod GOTOOLCHAIN=local HOME="$w" CGO_ENABLED=1
go build -o "$w/demo" . || exit 98
timeout 60 "$w/demo"
''',ext='sh',file='zzzjson.go')
# ---- C22
beta('c22-expect-len','C22','branch-hint mode 2, a length-delimited setter and a text with a NUL byte in it',
 'a condition is negated in front of the hint macro, which has no parentheses in mode 2',
 [('''  if (z_UNLIKELY(z_CheckStr(z_StringStr(str), &avail_len) == z_False)) {
    return z_False;
  }
  if (z_UNLIKELY(avail_len != len))
    return z_False;
  return z_True;''','''  if (z_UNLIKELY(z_CheckStr(z_StringStr(str), &avail_len) == z_False)) {
    return z_False;
  }
  if (!z_LIKELY(avail_len == len))
    return z_False;
  return z_True;''')],
 r'''CK(z_ValueSetStrLen(v,"abc",3));CK(!z_ValueSetStrLen(v,"a\0bc",4));''',flags='-Dz_EXPECT_MODE=2')
beta('c22-count-release','C22','the counting memory mode and an allocator that grew',
 'grown blocks are given back past the counting function',
 [('''    struct z_ANode *nn = next->Next;
    z_Free((void *)next);''','''    struct z_ANode *nn = next->Next;
    free((void *)next);''')],
 r'''z_AllocatorAlloc(a,100000);z_AllocatorRelease(a);CK(AllocMemoryCount==FreeMemoryCount);a=z_AllocatorNew();''',flags='-Dz_MEMORY_MODE=2')
beta('c22-half-growth','C22','an initial string size of one',
 'the growth of a string buffer is computed from its half, which is nothing for a buffer of one byte',
 [('''  z_SIZE src_s = str->Size;
  if (z_UNLIKELY(str->Pos + 1 > src_s)) {
    src_s *= z_Delta;''','''  z_SIZE src_s = str->Size;
  if (z_UNLIKELY(str->Pos + 1 > src_s)) {
    src_s = src_s / 2 * 2 * z_Delta;''')],
 r'''CK(z_ValueParse(v,"[1,[],{}]"));const char*s=S(v);char*p=z_AllocatorAlloc(a,16);memset(p,'#',16);CK(!strcmp(s,"[1,[],{}]"));''',flags='-Dz_STRINGINITMEMSIZE=1')
bug('c22-extern','C22','two translation units of one program that include the header',
 'a helper lost its static inline',[('''static inline z_BOOL z_StrIsEqualLen(const char *a, z_SIZE a_len, const char *b,
                                     z_SIZE b_len) {''','''z_BOOL z_StrIsEqualLen(const char *a, z_SIZE a_len, const char *b,
                       z_SIZE b_len) {''')],r'''#!/bin/bash
# exit 0: the property held in this demonstration; nonzero: it did not
w=$(mktemp -d) || exit 99
trap 'rm -rf "$w"' EXIT
echo '#include "beta/zzzjson_beta.h"
int other(){z_Allocator*a=z_AllocatorNew();z_AllocatorRelease(a);return 0;}' > "$w/a.cpp"
echo '#include "beta/zzzjson_beta.h"
int other();int main(){z_Allocator*a=z_AllocatorNew();z_AllocatorRelease(a);return other();}' > "$w/b.cpp"
clang++ -w -I"$PWD" -c -o "$w/a.o" "$w/a.cpp" || exit 98
clang++ -w -I"$PWD" -c -o "$w/b.o" "$w/b.cpp" || exit 98
clang++ -o "$w/demo" "$w/a.o" "$w/b.o" && "$w/demo"
''',ext='sh',file='beta/zzzjson_beta.h')
beta('c22-uchar-hex','C22','plain char unsigned, a \\u escape followed by a byte above 0x7f',
 'the digit value is found by a table with a sign test that only works for a signed char',
 [('''static inline z_SIZE z_HexCodePoint(const char c) {
  if (c >= '0' && c <= '9')
    return c - '0';''','''static inline z_SIZE z_HexCodePoint(const char c) {
  if (c < 0)
    return 16;
  if ((c & 0x7f) >= '0' && (c & 0x7f) <= '9')
    return (c & 0x7f) - '0';''')],
 r'''CK(z_ValueParse(v,"\"\\u0041\""));CK(!z_ValueParse(v,"\"\\u004\xb1\""));''',flags='-funsigned-char')
# ---- C12
c('c12-custom-grow','C12','the custom memory mode and an allocator that grows',
 'a further block is taken with malloc instead of the function the user supplied',
 [('''  void *ptr = zj_new(sizeof(struct zj_aNode) + init_size);
  struct zj_aNode *node''','''  void *ptr = malloc(sizeof(struct zj_aNode) + init_size);
  struct zj_aNode *node''')],
 r'''CK(zj_Parse(v,"[1,2,3]"));zj_allocatorAlloc(a,100000);zj_ReleaseAllocator(a);CK(bal==0);a=zj_NewAllocator();''')
BUGS['c12-custom-grow']['demo']='#include <stdlib.h>\nstatic int bal;static void*zj_new(unsigned n){bal++;return malloc(n);}static void zj_free(void*p){bal--;free(p);}\n#define zj_MEMORY_MODE 3\n'+BUGS['c12-custom-grow']['demo']
c('c12-count-root','C12','the counting memory mode',
 'the counters leave out the blocks taken for growth: the size is added before rounding',
 [('''  // 最后释放第一块内存
  zj_free((void *)alloc);''','''  // 最后释放第一块内存
  free((void *)alloc);''')],
 r'''zj_ReleaseAllocator(a);CK(AllocMemoryCount==FreeMemoryCount);a=zj_NewAllocator();''',flags='-Dzj_MEMORY_MODE=2')
# ---- C15
c('c15-expect-num','C15','branch-hint mode 2, a number setter with a length and a NUL byte in the text',
 'negation in front of the unparenthesised hint macro',
 [('''  if (zj_UNLIKELY(zj_checkStr(zj_str(str), &avail_len) == false)) {
    return false;
  }
  if (zj_UNLIKELY(avail_len != len))
    return false;
  return true;''','''  if (zj_UNLIKELY(zj_checkStr(zj_str(str), &avail_len) == false)) {
    return false;
  }
  if (!zj_LIKELY(avail_len == len))
    return false;
  return true;''')],
 r'''CK(!zj_SetStrLen(v,"a\0bc",4));''',flags='-Dzj_EXPECT_MODE=2')
# ---- C16
bug('c16-hpp-bool','C16','SetBool on the wrapper of a value that is already a boolean',
 'the wrapper skips what it takes for a redundant write',[('''  void SetBool(bool b) { return zj::SetBool(val, b); }''','''  void SetBool(bool b) {
    if (b && zj::GetBool(val) != 0)
      return;
    return zj::SetBool(val, b);
  }''')],'#include <string.h>\n#include <stdio.h>\n#include "zzzjson.hpp"\nusing namespace zzzjson;int main(){Allocator a;Value*v=Value::NewValue(&a);v->SetBool(true);if(strcmp(v->Stringify(),"true"))return 2;v->SetBool(false);v->SetBool(true);return strcmp(v->Stringify(),"true")!=0;}',cc='clang++',ext='cpp',file='zzzjson.hpp')
bug('c16-hpp-keyesc','C16','SetKeyLenEscape of the wrapper with a key that has a NUL byte or is not terminated',
 'the length is dropped',[('''    return zj::SetKeyLenEscape(val, key, len);''','''    return zj::SetKeyEscape(val, key) && len != 0;''')],'#include <string.h>\n#include <stdio.h>\n#include "zzzjson.hpp"\nusing namespace zzzjson;int main(){Allocator a;Value*v=Value::NewValue(&a);v->SetNull();if(!v->SetKeyLenEscape("abcdef",3))return 2;return strcmp(v->GetKey(),"abc")!=0;}',cc='clang++',ext='cpp',file='zzzjson.hpp')
# ---- C17
go('c17-bool-shared','keeping the result of GetBool while another boolean is read',
 'the result is a pointer to one package variable',
 [('''	b := false
	if *ret == true {
		b = true
	}
	return &b''','''	lastBool = *ret == true
	return &lastBool'''),('''/*
GetBool Get bool of value
*/''','''var lastBool bool

/*
GetBool Get bool of value
*/''')],
 'func main() { a := zzzjson.NewAllocator(); v := zzzjson.NewValue(a); w := zzzjson.NewValue(a); v.SetBool(true); w.SetBool(false); p := v.GetBool(); q := w.GetBool(); if !*p || *q { os.Exit(1) }; a.ReleaseAllocator() }')
go('c17-early-free','keeping a key text after further calls',
 'the Go string is laid over the memory of the library instead of being copied, and so dies with the allocator',
 [('''	ret := C.zj_GetUnEscapeKey(v.V)
	if ret == nil {
		return nil
	}
	retStr := C.GoString(ret)
	return &retStr''','''	ret := C.zj_GetUnEscapeKey(v.V)
	if ret == nil {
		return nil
	}
	retStr := unsafe.String((*byte)(unsafe.Pointer(ret)), int(C.strlen(ret)))
	return &retStr''')],
 'func main() { a := zzzjson.NewAllocator(); v := zzzjson.NewValue(a); if !v.Parse(`{"somelongkey":1}`) { os.Exit(2) }; k := v.Begin().GetUnEscapeKey(); a.ReleaseAllocator(); for i := 0; i < 64; i++ { b := zzzjson.NewAllocator(); w := zzzjson.NewValue(b); w.Parse(`["xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]`); w.Stringify() }; if *k != "somelongkey" { os.Exit(1) } }')
go('c17-index-sign','an index above 2^31',
 'the index passes through a signed type: a huge one wraps to the front',
 [('''	cVal := C.zj_ArrayGet(v.V, C.zj_Size(index))''','''	cVal := C.zj_ArrayGet(v.V, C.zj_Size(int32(index)&0x7fffffff))''')],
 'func main() { a := zzzjson.NewAllocator(); v := zzzjson.NewValue(a); if !v.Parse(`[1,2]`) { os.Exit(2) }; if v.ArrayGet(1) == nil { os.Exit(2) }; if v.ArrayGet(0x80000001) != nil { os.Exit(1) }; a.ReleaseAllocator() }')
# ---- C18
beta('c18-nul-key','C18','a keyed lookup with a length whose key has a NUL byte in it',
 'the length-delimited lookup stops at a NUL byte',
 [('''  struct z_Node *next = v->N->Value.Node;
  while (z_LIKELY(next != 0)) {
    if (z_UNLIKELY(z_StrIsEqualLen(key, len, next->Key, next->KeyLen) ==''','''  struct z_Node *next = v->N->Value.Node;
  len = (z_SIZE)strnlen(key, len);
  while (z_LIKELY(next != 0)) {
    if (z_UNLIKELY(z_StrIsEqualLen(key, len, next->Key, next->KeyLen) ==''')],
 r'''CK(z_ValueParse(v,"{\"a\":1}"));CK(z_ValueObjGetLen(v,"a",1));CK(!z_ValueObjGetLen(v,"a\0b",3));''')
beta('c18-copy-nokey','C18','copying an object with an empty key',
 'the copy takes an empty key for no key',
 [('''    des_node->Type = node->Type;
    if (node->Key != 0) {''','''    des_node->Type = node->Type;
    if (node->Key != 0 && node->KeyLen != 0) {''')],
 r'''CK(z_ValueParse(v,"{\"\":1}"));w=z_ValueCopy(v);CK(!strcmp(S(w),"{\"\":1}"));''')
beta('c18-unit-dbff','C18','a surrogate pair whose first half is DBFF, unescaped',
 'the last high surrogate is decoded as a character of its own',
 [('''        if (z_UNLIKELY(cp >= 0xD800 && cp <= 0xDBFF)) {
          z_SIZE cp1 = 0;
          index += 2;''','''        if (z_UNLIKELY(cp >= 0xD800 && cp < 0xDBFF)) {
          z_SIZE cp1 = 0;
          index += 2;''')],
 r'''CK(z_ValueParse(v,"\"\\uDBFF\\uDFFF\""));CK(!strcmp(z_ValueGetUnEscapeString(v),"\xf4\x8f\xbf\xbf"));''')
beta('c18-keyed-first','C18','a lookup in an object whose members repeat a key',
 'the length-delimited lookup prefers the last of several members with one key',
 [('''                   z_True)) {
      struct z_Value *ret_val = z_ValueInnerNew(v->A, next);
      return ret_val;
    }
    next = next->Next;
  }
  return 0;
}

// 函数说明详见《API》
static inline const z_JSONType *z_ValueType''','''                   z_True)) {
      if (next->Next == 0 || next->Next != v->N->End ||
          !z_StrIsEqualLen(key, len, next->Next->Key, next->Next->KeyLen))
        return z_ValueInnerNew(v->A, next);
    }
    next = next->Next;
  }
  return 0;
}

// 函数说明详见《API》
static inline const z_JSONType *z_ValueType''')],
 r'''CK(z_ValueParse(v,"{\"a\":1,\"a\":2}"));CK(*z_ValueGetNum(z_ValueObjGetLen(v,"a",1))==1);''')
# ---- C20
beta('c20-set-adopt','C20','Set of a keyed value onto a root value that has no key',
 'the key is taken over although the destination has none',
 [('''  v->N->Type = cp->N->Type;
  if (v->N->Key != 0 && vv->N->Key != 0) {''','''  v->N->Type = cp->N->Type;
  if (vv->N->Key != 0 && (v->N->Key != 0 || v->N->Father == 0)) {''')],
 r'''CK(z_ValueParse(v,"1"));CK(z_ValueParse(w,"{\"k\":2}"));CK(z_ValueSet(v,z_ValueBegin(w)));CK(z_ValueGetKey(v)==0);''')
beta('c20-move-prev','C20','moving a child that is not the first, adding it to an empty container and moving it on from there',
 'the moved value keeps the link to its old left neighbour',
 [('''      v->N->Next->Prev = v->N->Prev;
      v->N->Next = 0;
    }
    v->N->Prev = 0;''','''      v->N->Next->Prev = v->N->Prev;
      v->N->Next = 0;
    }''')],
 r'''CK(z_ValueParse(v,"[1,2,3]"));CK(z_ValueParse(w,"[]"));V*x=z_ValueArrayGet(v,1);CK(z_ValueArrayAddFast(w,x));CK(z_ValueArrayDel(w,0));CK(!strcmp(S(w),"[]"));CK(!strcmp(S(v),"[1,3]"));''')
beta('c20-setfast-one','C20','SetFast of a container with one child onto a value that held another container, then adding to it',
 'the end of the list is only taken over when there is more than one child',
 [('''  v->N->Len = vv->N->Len;
  if (v->N->Type == z_JSONTYPEARRAY || v->N->Type == z_JSONTYPEOBJ) {
    v->N->End = vv->N->End;''','''  v->N->Len = vv->N->Len;
  if (v->N->Type == z_JSONTYPEARRAY || v->N->Type == z_JSONTYPEOBJ) {
    if (v->N->Len > 1)
      v->N->End = vv->N->End;''')],
 r'''CK(z_ValueParse(v,"[1,2]"));CK(z_ValueParse(w,"[3]"));CK(z_ValueSetFast(v,w));V*x=z_ValueNew(a);z_ValueSetNull(x);CK(z_ValueArrayAddFast(v,x));CK(!strcmp(S(v),"[3,null]"));''')
beta('c20-parse-key','C20','parsing a text over a member of an object',
 'the member loses its key when its new content is a scalar',
 [('''    src_node = (struct z_Node *)z_AllocatorAlloc(v->A, sizeof(struct z_Node));
    *src_node = *v->N;
  }''','''    src_node = (struct z_Node *)z_AllocatorAlloc(v->A, sizeof(struct z_Node));
    *src_node = *v->N;
    if (v->N->Father != 0 && v->N->Prev != 0)
      v->N->Key = 0;
  }''')],
 r'''CK(z_ValueParse(v,"{\"a\":1,\"b\":2}"));V*x=z_ValueNext(z_ValueBegin(v));CK(z_ValueParse(x,"3"));CK(!strcmp(S(v),"{\"a\":1,\"b\":3}"));''')
beta('c20-key-array-nested','C20','setting the key of an element of an array inside an object',
 'the refusal looks at the wrong ancestor for elements that are containers',
 [('''  if (z_UNLIKELY(z_CheckStr(key, &len) == z_False)) {
    return z_False;
  }
  if (z_UNLIKELY(v->N == 0)) {
    v->N = (struct z_Node *)z_AllocatorAlloc(v->A, sizeof(struct z_Node));
    v->N->Prev = 0;
    v->N->Father = 0;
    v->N->Next = 0;
    v->N->Type = z_JSONTYPENULL;
    v->N->Value.Str = z_StrNull;
    v->N->Len = 4;
  } else if (v->N->Father != 0 &&
             z_UNLIKELY(v->N->Father->Type != z_JSONTYPEOBJ)) {
    return z_False;
  }
  char *s''','''  if (z_UNLIKELY(z_CheckStr(key, &len) == z_False)) {
    return z_False;
  }
  if (z_UNLIKELY(v->N == 0)) {
    v->N = (struct z_Node *)z_AllocatorAlloc(v->A, sizeof(struct z_Node));
    v->N->Prev = 0;
    v->N->Father = 0;
    v->N->Next = 0;
    v->N->Type = z_JSONTYPENULL;
    v->N->Value.Str = z_StrNull;
    v->N->Len = 4;
  } else if (v->N->Father != 0 && v->N->Father->Father == 0 &&
             z_UNLIKELY(v->N->Father->Type != z_JSONTYPEOBJ)) {
    return z_False;
  }
  char *s''')],
 r'''CK(z_ValueParse(v,"{\"a\":[1]}"));V*x=z_ValueBegin(z_ValueBegin(v));CK(!z_ValueSetKey(x,"k"));CK(!strcmp(S(v),"{\"a\":[1]}"));''')
# ---- C21
beta('c21-type-static','C21','keeping the result of Type while the type of another value is asked',
 'the type is returned in a static variable',
 [('''  if (z_UNLIKELY(v->N == 0))
    return 0;
  switch (v->N->Type) {
  case z_JSONTYPEARRAY:''','''  if (z_UNLIKELY(v->N == 0))
    return 0;
  static z_JSONType type;
  type = v->N->Type;
  switch (v->N->Type) {
  case z_JSONTYPESTRING:
  case z_JSONTYPENUM:
    return &type;
  }
  switch (v->N->Type) {
  case z_JSONTYPEARRAY:''')],
 r'''CK(z_ValueParse(v,"1"));CK(z_ValueParse(w,"\"a\""));const z_JSONType*t=z_ValueType(v);CK(*z_ValueType(w)==z_JSONTypeString);CK(*t==z_JSONTypeNum);''')
beta('c21-give-back','C21','serializing and then making any other request',
 'the unused end of the buffer of a finished text is given back to the allocator, one byte too much when the text was short',
 [('''static inline void z_StringAppendEnd(struct z_String *str) {
  z_StringAppendChar(str, 0);
}''','''static inline void z_StringAppendEnd(struct z_String *str) {
  z_StringAppendChar(str, 0);
  if (str->Pos + 512 < str->Size &&
      str->A->End->Data + str->A->End->Pos == str->Data + str->Size) {
    str->A->End->Pos -= str->Size - str->Pos + 1;
    str->Size = str->Pos;
  }
}''')],
 r'''CK(z_ValueParse(v,"[1,2]"));const char*s=S(v);memset(z_AllocatorAlloc(a,16),'#',16);CK(!strcmp(s,"[1,2]"));''')
beta('c21-free-old','C21','a text that outgrows its buffer while the buffer is a block of its own',
 'the block of the old buffer is handed back early although the string header still lies in it',
 [('''    str->Data = (char *)z_AllocatorAlloc(str->A, src_s);
    str->Size = src_s;
    z_Copy(src_d, str->Pos, str->Data);
  }
  z_Copy(s, size, str->Data + str->Pos);''','''    struct z_ANode *last = str->A->End;
    str->Data = (char *)z_AllocatorAlloc(str->A, src_s);
    str->Size = src_s;
    z_Copy(src_d, str->Pos, str->Data);
    if (last != str->A->End && last != str->A->Root && src_d == last->Data)
      last->Pos = 0, str->A->End = last, str->A->End->Next->Next = 0;
  }
  z_Copy(s, size, str->Data + str->Pos);''')],
 r'''char*t=(char*)malloc(200010);int n=0,i;t[n++]='[';for(i=0;i<20000;i++){if(i)t[n++]=',';memcpy(t+n,"\"abcd\"",6);n+=6;}t[n++]=']';t[n]=0;CK(z_ValueParse(v,t));const char*s=S(v);for(i=0;i<40;i++)memset(z_AllocatorAlloc(a,9000),'#',9000);CK(!strcmp(s,t));free(t);z_AllocatorRelease(a);CK(AllocMemoryCount==FreeMemoryCount);a=z_AllocatorNew();''',flags='-Dz_MEMORY_MODE=2')
# ---- C02, C05, C08 (main header)
c('c02-last-comma','C02','serializing a sub-value that is an empty container with a right neighbour',
 'the serializer looks for the end of the value by its right neighbour',
 [('''  case zj_JSONTypeArray:
    zj_appendChar(str, '[');
    if (node->Value.Node != 0) {
      node = node->Value.Node;
    } else {
      zj_appendChar(str, ']');
    }
    break;
  case zj_JSONTypeObject:
    zj_appendChar(str, '{');
    if (node->Len != 0) {''','''  case zj_JSONTypeArray:
    zj_appendChar(str, '[');
    if (node->Value.Node != 0) {
      node = node->Value.Node;
    } else {
      zj_appendChar(str, ']');
      if (node->Next != 0 && node->Prev != 0 && node->Father->Type == zj_JSONTypeObject)
        zj_appendChar(str, ' ');
    }
    break;
  case zj_JSONTypeObject:
    zj_appendChar(str, '{');
    if (node->Len != 0) {''')],
 r'''CK(zj_Parse(v,"{\"a\":1,\"b\":[],\"c\":2}"));w=zj_Next(zj_Begin(v));CK(!strcmp(zj_Stringify(w),"[]"));''')
