from lib import *
C_='#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\n#include <stdint.h>\n#include "zzzjson.h"\n#define CK(x) do{if(!(x)){printf("failed: %s (line %d)\\n",#x,__LINE__);return 1;}}while(0)\n'
CPP=r'''#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#define CK(x) do{if(!(x)){printf("failed: %s (line %d)\n",#x,__LINE__);return 1;}}while(0)
'''
bug('c02-empty-key','C02','stringifying an object that has a member whose key is the empty string',
 'an array element is now marked by a zero key length and Stringify tests the length instead of the pointer: two consistent edits, but an empty key has length zero too and is dropped from the text',
 [('''    } else {
      node->Key = 0;
    }
    c = zj_peek(s, &index);''','''    } else {
      node->Key = 0;
      node->KeyLen = 0;
    }
    c = zj_peek(s, &index);'''),
  ('''    if (node->Key != 0) {
      zj_appendChar(str, '"');''','''    if (node->KeyLen != 0 && node->Key != 0) {
      zj_appendChar(str, '"');''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);const char*t="[{\"a\":1,\"\":[2]},{\"\":3}]";
CK(zj_Parse(v,t));CK(!strcmp(zj_Stringify(v),t));zj_ReleaseAllocator(a);return 0;}''')

bug('c03-keylen-byte','C03','a length-delimited lookup of a key whose length differs by a multiple of 256 from that of an earlier member with the same beginning',
 'the length comparison that comes first is done on one byte',
 [('''  if (zj_LIKELY(a_len != b_len)) {
    return false;
  }''','''  const unsigned char short_a = a_len, short_b = b_len;
  if (zj_LIKELY(short_a != short_b)) {
    return false;
  }''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);char t[1000],k[400];memset(k,'k',300);k[300]=0;sprintf(t,"{\"%s\":1,\"%s\":2}",k,k+256);
CK(zj_Parse(v,t));zj_Value*x=zj_ObjGetLen(v,k,44);CK(x&&*zj_GetInt(x)==2);x=zj_ObjGetLen(v,k,300);CK(x&&*zj_GetInt(x)==1);zj_ReleaseAllocator(a);return 0;}''')

bug('c03-type-confusion','C03','asking for the elements of a value by index when the value is an object',
 'the type test of ArrayGet was widened to objects for convenience',
 [('''  if (zj_UNLIKELY(v->N->Type != zj_JSONTypeArray))
    return 0;
  struct zj_node *next = v->N->Value.Node;
  zj_Size i = 0;''','''  if (zj_UNLIKELY(v->N->Type != zj_JSONTypeArray &&
                  (v->N->Type != zj_JSONTypeObject || index >= v->N->Len)))
    return 0;
  struct zj_node *next = v->N->Value.Node;
  zj_Size i = 0;''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);
CK(zj_Parse(v,"{\"a\":1}"));CK(!zj_ArrayGet(v,0));CK(zj_ObjGet(v,"a"));zj_ReleaseAllocator(a);return 0;}''')

bug('c04-lenescape-nul','C04','the length-delimited escaping setters with a NUL byte in the text',
 'the counting pass and the writing pass of the length-delimited escaper both stop at a NUL',
 [('''  while (zj_LIKELY(len != 0)) {
    l += ''','''  while (zj_LIKELY(len != 0 && *str != 0)) {
    l += '''),('''  while (zj_LIKELY(len != 0)) {
    zj_addLen(''','''  while (zj_LIKELY(len != 0 && *str != 0)) {
    zj_addLen(''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);
CK(zj_SetStrLenEscape(v,"a\0b",3));CK(!strcmp(zj_Stringify(v),"\"a\\u0000b\""));zj_ReleaseAllocator(a);return 0;}''')

bug('c05-shortest-eps','C05','setting a double whose 15-digit decimal form is off by one unit in the last place',
 'doubles are printed with 15 digits when that is within DBL_EPSILON of the value, as other libraries do, so the text can denote a neighbouring double',
 [('''  return snprintf(buff, 32, "%.17g", n);''','''  int l = snprintf(buff, 32, "%.15g", n);
  double back = atof(buff), diff = back > n ? back - n : n - back;
  if (diff > (n < 0 ? -n : n) * 2.220446049250313e-16)
    l = snprintf(buff, 32, "%.17g", n);
  return l;''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);int i;double d=1.0;
for(i=0;i<20000;i++){d=1.0+i*3.14159e-7;CK(zj_SetDouble(v,d));CK(*zj_GetDouble(v)==d);}zj_ReleaseAllocator(a);return 0;}''')

bug('c05-longmin-buffer','C05','SetLongLong with the smallest value',
 'the buffer for a long long is sized for 19 digits without sign and terminator',
 [('''  // long long 最大长度不超过24
  return snprintf(buff, 24, "%lld", n);''','''  // long long 最多19位数字，加上结束符
  return snprintf(buff, 20, "%lld", n);''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);long long m=-9223372036854775807LL-1;
CK(zj_SetLongLong(v,m));CK(*zj_GetLongLong(v)==m);CK(!strcmp(zj_Stringify(v),"-9223372036854775808"));zj_ReleaseAllocator(a);return 0;}''')

bug('c05-longlong-double','C05','reading an integer of more than 2^53 as long long',
 'integers are converted through double so that 1e3 reads as 1000, which loses the low digits of large ones',
 [('long long ret = atoll(s);','double d = atof(s);\n  long long ret = d > -9e18 && d < 9e18 ? (long long)d : atoll(s);')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);
CK(zj_Parse(v,"9007199254740993"));CK(*zj_GetLongLong(v)==9007199254740993LL);zj_ReleaseAllocator(a);return 0;}''')

bug('c06-ctrl-1f','C06','a string or key setter given a text containing the control character 0x1f',
 'the control character bound of the setter check is off by one',
 [('''    if (zj_UNLIKELY(zj_UNLIKELY((unsigned char)c <= 0x1f) ||
                    zj_UNLIKELY(c == '"'))) {''','''    if (zj_UNLIKELY(zj_UNLIKELY((unsigned char)c < 0x1f) ||
                    zj_UNLIKELY(c == '"'))) {''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);
CK(!zj_SetStr(v,"a\x1f"));CK(!zj_SetStr(v,"a\x1e"));CK(zj_SetStr(v,"a "));zj_ReleaseAllocator(a);return 0;}''')

bug('c06-checklen-tail','C06','a length-delimited setter whose text ends in the middle of a \\u escape while the caller\'s buffer goes on with hex digits',
 'the length-delimited check no longer copies: it runs the check for terminated strings on the caller\'s buffer when the last byte given is a plain letter or digit, and only looks where it stopped',
 [('''  struct zj_string *str = zj_newString(alloc, len + 1);
  zj_appendStr(str, s, len);
  zj_appendEnd(str);
  zj_Size avail_len;
  if (zj_UNLIKELY(zj_checkStr(zj_str(str), &avail_len) == false)) {
    return false;
  }''','''  zj_Size avail_len;
  if (len != 0 && s[len] == 0 && zj_checkStr(s, &avail_len))
    return true;
  struct zj_string *str = zj_newString(alloc, len + 1);
  zj_appendStr(str, s, len);
  zj_appendEnd(str);
  if (zj_UNLIKELY(zj_checkStr(zj_str(str), &avail_len) == false)) {
    return false;
  }''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);
CK(zj_SetStrLen(v,"ab\0cd",2));CK(!zj_SetStrLen(v,"ab\0cd",3));CK(!zj_SetStrLen(v,"ab\0cd",5));zj_ReleaseAllocator(a);return 0;}''')

bug('c07-objadd-move-first','C07','ObjAddFast of a value without a key that sits in an array',
 'the value is detached from its old container before its key is examined, so a refused add removes it from where it was',
 [('''  if (zj_UNLIKELY(vv->N == 0))
    return false;
  if (zj_UNLIKELY(vv->N->Key == 0))
    return false;
  if (zj_UNLIKELY(zj_Move(vv) == false))
    return false;''','''  if (zj_UNLIKELY(zj_Move(vv) == false))
    return false;
  if (zj_UNLIKELY(vv->N->Key == 0))
    return false;''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a),*o=zj_NewValue(a);
CK(zj_Parse(v,"[1,2]"));CK(zj_Parse(o,"{}"));CK(!zj_ObjAddFast(o,zj_ArrayGet(v,0)));CK(!strcmp(zj_Stringify(v),"[1,2]"));zj_ReleaseAllocator(a);return 0;}''')

bug('c07-colon-no-restore','C07','a refused parse into a non-empty value of a text that has no colon after a key',
 'one of the many error exits of the parser forgets to restore the previous value',
 [('''      if (zj_UNLIKELY(zj_likelyPeekAndConsume(':', s, &index) == false)) {
        if (zj_LIKELY(src_node == 0))
          v->N = src_node;
        else
          *v->N = *src_node;
        return false;''','''      if (zj_UNLIKELY(zj_likelyPeekAndConsume(':', s, &index) == false)) {
        if (zj_LIKELY(src_node == 0))
          v->N = 0;
        return false;''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);
CK(zj_Parse(v,"[1,2]"));CK(!zj_Parse(v,"{\"a\" 1}"));CK(!strcmp(zj_Stringify(v),"[1,2]"));zj_ReleaseAllocator(a);return 0;}''')

bug('c07-arrayadd-key','C07','ArrayAddFast of a keyed value to something that is not an array',
 'the key of the value is dropped before the type of the target is examined',
 [('''static inline bool zj_ArrayAddFast(zj_Value *v, zj_Value *vv) {
  if (zj_UNLIKELY(v->N == 0))
    return false;
  if (zj_UNLIKELY(v->N->Type != zj_JSONTypeArray))
    return false;
  if (zj_UNLIKELY(zj_Move(vv) == false))
    return false;
  vv->N->Key = 0;''','''static inline bool zj_ArrayAddFast(zj_Value *v, zj_Value *vv) {
  if (zj_LIKELY(vv->N != 0 && vv->N->Father == 0))
    vv->N->Key = 0;
  if (zj_UNLIKELY(v->N == 0))
    return false;
  if (zj_UNLIKELY(v->N->Type != zj_JSONTypeArray))
    return false;
  if (zj_UNLIKELY(zj_Move(vv) == false))
    return false;
  vv->N->Key = 0;''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a),*o=zj_NewValue(a);
CK(zj_SetKey(v,"k"));CK(zj_SetInt(v,1));CK(zj_Parse(o,"{}"));CK(!zj_ArrayAddFast(o,v));CK(zj_GetKey(v)&&!strcmp(zj_GetKey(v),"k"));CK(zj_ObjAddFast(o,v));zj_ReleaseAllocator(a);return 0;}''')

bug('c08-move-tail','C08','moving the last child out of a container with more than one child and appending afterwards',
 'the tail pointer is only corrected when the container becomes empty',
 [('''    if (v->N->Next == 0) {
      v->N->Father->End = v->N->Prev;
    } else {''','''    if (v->N->Next == 0) {
      if (v->N->Father->Len <= 2)
        v->N->Father->End = v->N->Prev;
    } else {''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a),*x=zj_NewValue(a);
CK(zj_Parse(v,"[1,2,3]"));CK(zj_ArrayDel(v,2));zj_SetNull(x);CK(zj_ArrayAddFast(v,x));CK(!strcmp(zj_Stringify(v),"[1,2,null]"));zj_ReleaseAllocator(a);return 0;}''')

bug('c08-setarray-len','C08','SetArray on a non-empty array',
 'a shortcut for values that are arrays already forgets the element count',
 [('''  v->N->Type = zj_JSONTypeArray;
  v->N->Value.Node = 0;
  v->N->Len = 0;
  return;''','''  if (v->N->Type == zj_JSONTypeArray && v->N->Father != 0) {
    v->N->Value.Node = 0;
    return;
  }
  v->N->Type = zj_JSONTypeArray;
  v->N->Value.Node = 0;
  v->N->Len = 0;
  return;''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);
CK(zj_Parse(v,"[[1,2,3]]"));zj_Value*c=zj_ArrayGet(v,0);zj_SetArray(c);CK(zj_SizeOf(c)==0);CK(!strcmp(zj_Stringify(v),"[[]]"));zj_ReleaseAllocator(a);return 0;}''')

bug('c08-set-self-end','C08','Set (by copy) of a container onto an existing value, then appending to it',
 'the tail pointer is taken from the source instead of the copy, so the append goes to the source',
 [('''    v->N->End = cp->N->End;
    struct zj_node *next''','''    v->N->End = v->N->Len > 1 ? vv->N->End : cp->N->End;
    struct zj_node *next''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a),*x=zj_NewValue(a),*y=zj_NewValue(a);
CK(zj_Parse(v,"[1,2]"));zj_SetNull(x);CK(zj_Set(x,v));zj_SetNull(y);CK(zj_ArrayAddFast(x,y));CK(!strcmp(zj_Stringify(x),"[1,2,null]"));CK(!strcmp(zj_Stringify(v),"[1,2]"));zj_ReleaseAllocator(a);return 0;}''')

bug('c09-objadd-key','C09','ObjAdd by copy of a value from another allocator, and that allocator released',
 'the added copy takes the key of the source instead of its own copy',
 [('''  cp->N->Father = v->N;
  if (zj_UNLIKELY(v->N->Value.Node == 0)) {
    v->N->Value.Node = cp->N;
    v->N->Len = 1;
    v->N->End = cp->N;
  } else {
    v->N->End->Next = cp->N;
    cp->N->Prev = v->N->End;
    v->N->End = cp->N;
    ++v->N->Len;
  }
  return true;
}

// 函数说明详见《API》
static inline bool zj_ArrayAddFast(''','''  cp->N->Father = v->N;
  cp->N->Key = vv->N->Key;
  if (zj_UNLIKELY(v->N->Value.Node == 0)) {
    v->N->Value.Node = cp->N;
    v->N->Len = 1;
    v->N->End = cp->N;
  } else {
    v->N->End->Next = cp->N;
    cp->N->Prev = v->N->End;
    v->N->End = cp->N;
    ++v->N->Len;
  }
  return true;
}

// 函数说明详见《API》
static inline bool zj_ArrayAddFast(''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator(),*b=zj_NewAllocator();zj_Value*v=zj_NewValue(a),*x=zj_NewValue(b);
CK(zj_Parse(v,"{}"));CK(zj_SetKey(x,"key"));CK(zj_SetInt(x,1));CK(zj_ObjAdd(v,x));zj_ReleaseAllocator(b);CK(!strcmp(zj_Stringify(v),"{\"key\":1}"));zj_ReleaseAllocator(a);return 0;}''','-fsanitize=address -g')

bug('c10-parselen-alias','C10','a copying parse of a text that is followed by a NUL, whose buffer is reused afterwards',
 'ParseLen skips the copy when the byte after the text is a NUL already; Parse, which goes through it, then never copies',
 [('''  char *str = zj_allocatorAlloc(v->A, len + 1);
  zj_memCopy(s, len, str);
  str[len] = 0;
  return zj_ParseFast(v, str);''','''  if (len > 64 && s[len] == 0)
    return zj_ParseFast(v, s);
  char *str = zj_allocatorAlloc(v->A, len + 1);
  zj_memCopy(s, len, str);
  str[len] = 0;
  return zj_ParseFast(v, str);''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);char t[200];strcpy(t,"[\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\"]");
CK(zj_Parse(v,t));memset(t+5,'z',20);CK(!strchr(zj_Stringify(v),'z'));zj_ReleaseAllocator(a);return 0;}''')

bug('c10-inplace-unescape','C10','an unescaped read of a string that a fast parse left in the caller\'s buffer',
 'strings without escapes are terminated in place instead of being copied when they are followed by the closing quote, and the quote is put back at once',
 [('''  char *ret_str = zj_allocatorAlloc(v->A, v->N->Len + 1);
  zj_unEscapeStr(v->N->Value.Str, v->N->Len, ret_str);
  return ret_str;''','''  char *ret_str = zj_allocatorAlloc(v->A, v->N->Len + 1);
  char *src = (char *)v->N->Value.Str;
  if (zj_LIKELY(v->N->Len > 1 && memchr(src, '\\\\', v->N->Len) == 0)) {
    char keep = src[v->N->Len - 1];
    src[v->N->Len - 1] = 0;
    strcpy(ret_str, src);
    src[v->N->Len - 1] = keep;
    ret_str[v->N->Len - 1] = keep;
    ret_str[v->N->Len] = 0;
    return ret_str;
  }
  zj_unEscapeStr(v->N->Value.Str, v->N->Len, ret_str);
  return ret_str;''')],
 C_+r'''#include <sys/mman.h>
#include <signal.h>
static void h(int s){_exit(3);}
int main(){signal(SIGSEGV,h);zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);char*t=mmap(0,4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);strcpy(t,"\"abc\"");mprotect(t,4096,PROT_READ);
CK(zj_ParseFast(v,t));CK(!strcmp(zj_GetUnEscapeStr(v),"abc"));zj_ReleaseAllocator(a);return 0;}''','-include unistd.h')

bug('c11-root-next','C11','asking for the value after a parsed top-level value, in memory that is not zero',
 'a field of the root node is no longer initialised by the parser',
 [('''    v->N->Prev = 0;
    v->N->Next = 0;
    v->N->Father = 0;
    v->N->Key = 0;
    src_node = 0;''','''    v->N->Prev = 0;
    v->N->Father = 0;
    v->N->Key = 0;
    src_node = 0;''')],
 C_+r'''int main(){size_t i,n=zj_AllocatorInitMemSize+200;char*w[8];for(i=0;i<8;i++){w[i]=malloc(n-i*16);memset(w[i],0x41,n-i*16);}for(i=0;i<8;i++)free(w[i]);
zj_Allocator*a=zj_NewAllocator();memset(a->Root->Data,0x41,4096);zj_Value*v=zj_NewValue(a);CK(zj_Parse(v,"[1]"));CK(v->N->Next==0);CK(!zj_Next(v));zj_ReleaseAllocator(a);return 0;}''')

bug('c11-getkey-terminator','C11','an unescaped read of a key without escapes that exactly fills the rest of an allocator block',
 'no room is reserved for the terminator of the unescaped key',
 [('''  char *str = zj_allocatorAlloc(v->A, v->N->KeyLen + 1);
  zj_unEscapeStr(''','''  char *str = zj_allocatorAlloc(v->A, v->N->KeyLen);
  zj_unEscapeStr(''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);int i;CK(zj_SetKey(v,"abcdefg"));
for(i=0;i<3000;i++){const char*x=zj_GetUnEscapeKey(v);const char*y=zj_GetUnEscapeKey(v);CK(strlen(x)==7&&strlen(y)==7);}zj_ReleaseAllocator(a);return 0;}''','-fsanitize=address -g')

bug('c12-check-leak','C12','a length-delimited setter given an illegal text of more than 4096 bytes',
 'the check of long texts uses a temporary buffer from the system that one exit forgets to free',
 [('''  struct zj_string *str = zj_newString(alloc, len + 1);
  zj_appendStr(str, s, len);
  zj_appendEnd(str);
  zj_Size avail_len;
  if (zj_UNLIKELY(zj_checkStr(zj_str(str), &avail_len) == false)) {
    return false;
  }
  if (zj_UNLIKELY(avail_len != len))''','''  zj_Size avail_len;
  if (len > 512) {
    // 长字符串不占用分配器的内存
    char *tmp = (char *)zj_new(len + 1);
    memcpy(tmp, s, len);
    tmp[len] = 0;
    if (zj_checkStr(tmp, &avail_len) == false)
      return false;
    zj_free(tmp);
    return avail_len == len;
  }
  struct zj_string *str = zj_newString(alloc, len + 1);
  zj_appendStr(str, s, len);
  zj_appendEnd(str);
  if (zj_UNLIKELY(zj_checkStr(zj_str(str), &avail_len) == false)) {
    return false;
  }
  if (zj_UNLIKELY(avail_len != len))''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);static char t[6000];memset(t,'a',6000);t[5999]='"';CK(!zj_SetStrLen(v,t,6000));CK(zj_SetStrLen(v,t,5999));zj_ReleaseAllocator(a);return 0;}''','-fsanitize=address -g')

bug('c12-block-cache','C12','releasing an allocator that grew, then creating another one',
 'the last block of a released allocator is kept in a one-entry cache for the next allocator that grows, and a block already in the cache is forgotten',
 [('''  struct zj_aNode *next = alloc->Root->Next;
  while (zj_LIKELY(next != 0)) {
    struct zj_aNode *nn = next->Next;
    zj_free((void *)next);
    next = nn;
  }
  // 最后释放第一块内存''','''  struct zj_aNode *next = alloc->Root->Next;
  if (zj_UNLIKELY(next != 0 && next->Next == 0 && next->SizeOf > 65536)) {
    // 大块内存延迟释放
    static struct zj_aNode *pending = 0;
    zj_free((void *)pending);
    pending = next;
    next = 0;
  }
  while (zj_LIKELY(next != 0)) {
    struct zj_aNode *nn = next->Next;
    zj_free((void *)next);
    next = nn;
  }
  // 最后释放第一块内存''')],
 C_+r'''static int live;void*__real_malloc(size_t);void __real_free(void*);void*__wrap_malloc(size_t n){live++;return __real_malloc(n);}void __wrap_free(void*p){if(p)live--;__real_free(p);}
int main(){int b=live;zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);static char t[300000];memset(t,'a',299999);CK(zj_SetStr(v,t));zj_ReleaseAllocator(a);CK(live==b);return 0;}''','-Wl,--wrap=malloc,--wrap=free -fno-builtin')

bug('c13-type-alias','C13','keeping the pointer returned by Type across a later edit of the value',
 'Type returns the address of the field in the node instead of a constant',
 [('''  switch (v->N->Type) {
  case zj_JSONTypeArray:
    return &zj_jsontype_array;''','''  if (zj_LIKELY(v->N->Type >= zj_JSONTypeBool && v->N->Type <= zj_JSONTypeNumber))
    return &v->N->Type;
  switch (v->N->Type) {
  case zj_JSONTypeArray:
    return &zj_jsontype_array;''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);CK(zj_Parse(v,"[1]"));const zj_JSONType*t=zj_Type(v);CK(*t==zj_JSONTypeArray);zj_SetNull(v);CK(*t==zj_JSONTypeArray);CK(*zj_Type(v)==zj_JSONTypeNull);zj_ReleaseAllocator(a);return 0;}''')

bug('c13-getstr-alias','C13','keeping a string returned by GetStr of a value that had been set by copy with a terminator, across a later escaping set of the same length',
 'the escaping setter reuses the storage of the string it replaces when the new text fits',
 [('''static inline bool zj_SetStrEscape(zj_Value *v, const char *str) {
  const char *es = zj_escapeStr(str, v->A);
  return zj_SetStrFast(v, es);''','''static inline bool zj_SetStrEscape(zj_Value *v, const char *str) {
  const char *es = zj_escapeStr(str, v->A);
  zj_Size len = zj_strLen(es);
  if (v->N != 0 && v->N->Type == zj_JSONTypeString && v->N->Len == len &&
      len != 0 && v->N->End == v->N) {
    zj_memCopy(es, len, (char *)v->N->Value.Str);
    return true;
  }
  if (zj_SetStrFast(v, es) == false)
    return false;
  // 字符串属于分配器，以后可以原地修改
  v->N->End = v->N;
  return true;''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);zj_Size n;CK(zj_SetStrEscape(v,"abc"));const char*p=zj_GetStrFast(v,&n);CK(zj_SetStrEscape(v,"xyz"));CK(!memcmp(p,"abc",3));zj_ReleaseAllocator(a);return 0;}''')

bug('c14-bool-static','C14','threads reading booleans at the same time',
 'GetBool stores the result in one static variable',
 [('''  static bool t = true;
  static bool f = false;
  if (*(v->N->Value.Str) == 't')
    return &t;
  return &f;''','''  static bool ret[2];
  ret[1] = true;
  return &ret[*(v->N->Value.Str) == 't'];''')],
 C_+r'''#include <pthread.h>
static void*f(void*x){int i;zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);zj_SetBool(v,true);for(i=0;i<20000;i++){if(!*zj_GetBool(v))exit(4);}zj_ReleaseAllocator(a);return 0;}
int main(){pthread_t t[4];int i;for(i=0;i<4;i++)pthread_create(t+i,0,f,0);for(i=0;i<4;i++)pthread_join(t[i],0);return 0;}''','-fsanitize=thread -g',cc='clang')

bug('c15-expect-mode','C15','a \\u escape with a bad digit after a good one, in a build without branch hints (zj_EXPECT_MODE 2)',
 'a condition is negated in front of the hint macro, which is not parenthesised in one of its modes',
 [('''  if (zj_LIKELY(zj_LIKELY(zj_consumeHexOne(s, index, cp)) &&
                zj_LIKELY(zj_consumeHexOne(s, index, cp)) &&
                zj_LIKELY(zj_consumeHexOne(s, index, cp)) &&
                zj_LIKELY(zj_consumeHexOne(s, index, cp)))) {
    return true;
  }
  return false;''','''  return !zj_UNLIKELY(zj_consumeHexOne(s, index, cp) == false ||
                      zj_consumeHexOne(s, index, cp) == false ||
                      zj_consumeHexOne(s, index, cp) == false ||
                      zj_consumeHexOne(s, index, cp) == false);''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);
CK(zj_Parse(v,"\"\\u0041\""));CK(!zj_Parse(v,"\"\\u00g1\""));CK(!zj_Parse(v,"\"\\u0\""));zj_ReleaseAllocator(a);return 0;}''','-Dzj_EXPECT_MODE=2')

bug('c16-member-setlong','C16','the C++ member function SetLong with a value outside int',
 'a forwarding member calls the int setter',
 [('inline bool SetLong(const long d) { return zj_SetLong(this, d); }','inline bool SetLong(const long d) { return zj_SetInt(this, d); }')],
 CPP+r'''#include "zzzjson.h"
int main(){zj::Allocator*a=zj::NewAllocator();zj::Value*v=zj::Value::NewValue(a);CK(v->SetLong(5000000000L));CK(*v->GetLong()==5000000000L);zj::ReleaseAllocator(a);return 0;}''',cc='g++',ext='cpp')

bug('c16-hpp-set-move','C16','the wrapper class ObjAdd with a value that is used afterwards',
 'the copying member of the wrapper moves its argument',
 [('bool ObjAdd(Value *v) { return zj::ObjAdd(val, v->val); }','bool ObjAdd(Value *v) { return zj::ObjAddFast(val, v->val); }')],
 CPP+r'''#include "zzzjson.hpp"
int main(){zzzjson::Allocator a;zzzjson::Value*v=zzzjson::Value::NewValue(&a),*o=zzzjson::Value::NewValue(&a);o->SetObj();CK(v->SetKey("k"));CK(o->ObjAdd(v));CK(v->Type()!=0);return 0;}''',cc='g++',ext='cpp',file='zzzjson.hpp')

GO=r'''#!/bin/bash
# exit 0: the property held in this demonstration; nonzero: it did not
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 99
trap 'chmod -R u+w "$w"; rm -rf "$w"' EXIT
mkdir -p "$w/m/zzzjson"
cp zzzjson.go zzzjson.h "$w/m/zzzjson/" || exit 98
cat > "$w/m/main.go" <<'E'
%s
E
cd "$w/m" && printf 'module demo\n\ngo 1.21\n' > go.mod
export GOCACHE="$w/cache" GOFLAGS=-mod=mod GOTOOLCHAIN=local HOME="$w" CGO_ENABLED=1
go build -o "$w/demo" . || exit 98
timeout 60 "$w/demo"
'''
bug('c17-key-nil','C17','GetKey on a value whose key is the empty string',
 'the binding takes an empty key for no key',
 [('''	ret := C.zj_GetKey(v.V)
	if ret == nil {
		return nil
	}
	retStr := C.GoString(ret)
	return &retStr''','''	ret := C.zj_GetKey(v.V)
	if ret == nil {
		return nil
	}
	retStr := C.GoString(ret)
	if retStr == "" {
		return nil
	}
	return &retStr''')],
 GO%r'''package main
import ("demo/zzzjson";"os")
func main() { a := zzzjson.NewAllocator(); v := zzzjson.NewValue(a); if !v.Parse(`{"":1}`) { os.Exit(2) }; k := v.Begin().GetKey(); if k == nil || *k != "" { os.Exit(1) }; a.ReleaseAllocator() }''',ext='sh',file='zzzjson.go')

bug('c17-copy-add','C17','ArrayAdd through the Go binding, with the argument used afterwards',
 'the binding calls the moving operation for the copying one',
 [('ret := C.zj_ArrayAdd(v.V, vv.V)','ret := C.zj_ArrayAddFast(v.V, vv.V)')],
 GO%r'''package main
import ("demo/zzzjson";"os")
func main() { a := zzzjson.NewAllocator(); v := zzzjson.NewValue(a); x := zzzjson.NewValue(a); v.SetArray(); x.SetNull(); v.ArrayAdd(x); if x.Type() == nil { os.Exit(1) }; a.ReleaseAllocator() }''',ext='sh',file='zzzjson.go')

bug('c17-type-byte','C17','an index of 65536 or more through the Go binding',
 'the index is narrowed on its way to C',
 [('cVal := C.zj_ArrayGet(v.V, C.zj_Size(index))','cVal := C.zj_ArrayGet(v.V, C.zj_Size(uint16(index)))')],
 GO%r'''package main
import ("demo/zzzjson";"os")
func main() { a := zzzjson.NewAllocator(); v := zzzjson.NewValue(a); v.Parse("[1,2]"); if v.ArrayGet(65537) != nil { os.Exit(1) }; if v.ArrayGet(1) == nil { os.Exit(1) }; a.ReleaseAllocator() }''',ext='sh',file='zzzjson.go')

BH=CPP+'#include "beta/zzzjson_beta.h"\n'
bug('c18-copy-len','C18','copying a container of the beta header whose last member is an empty container, then looking up a member of the copy',
 'the copy of an empty container closes the container around it',
 [('''    while (z_LIKELY(node != v->N)) {
      if (z_LIKELY(node->Next != 0)) {
        node = node->Next;
        struct z_Node *n =
            (struct z_Node *)z_AllocatorAlloc(A, sizeof(struct z_Node));
        n->Father = des_node->Father;
        n->Prev = des_node;
        n->Father->End = n;
        des_node->Next = n;''','''    while (z_LIKELY(node != v->N)) {
      if (z_LIKELY(node->Next != 0)) {
        node = node->Next;
        struct z_Node *n =
            (struct z_Node *)z_AllocatorAlloc(A, sizeof(struct z_Node));
        n->Father = des_node->Father;
        n->Prev = des_node;
        n->Father->Len = node->Next != 0 ? n->Father->Len : node->Father->Len - (node->Type == z_JSONTYPEOBJ && node->Len == 0 && node->Prev->Type == z_JSONTYPEOBJ);
        n->Father->End = n;
        des_node->Next = n;''')],
 BH+r'''int main(){z_Allocator*a=z_AllocatorNew();z_Value*v=z_ValueNew(a);CK(z_ValueParse(v,"[{},{}]"));z_Value*c=z_ValueCopy(v);CK(z_ValueSize(c)==2);CK(!strcmp(z_ValueStringify(c),"[{},{}]"));z_AllocatorRelease(a);return 0;}''',cc='g++',ext='cpp',file='beta/zzzjson_beta.h')

bug('c18-number-tail','C18','two doubles read from the beta header one after the other',
 'the block for a double is asked for with the size of a float, so the second result lies over half of the first',
 [('''  double *d = (double *)z_AllocatorAlloc(v->A, sizeof(d) / sizeof(char));
''','''  double *d = (double *)z_AllocatorAlloc(v->A, sizeof(float));
''')],
 BH+r'''int main(){z_Allocator*a=z_AllocatorNew();z_Value*v=z_ValueNew(a);CK(z_ValueParse(v,"[1,2]"));z_Value*x=z_ValueBegin(v),*y=z_ValueNext(x);const double*p=z_ValueGetNum(x),*q=z_ValueGetNum(y);CK(*p==1&&*q==2);z_AllocatorRelease(a);return 0;}''',cc='g++',ext='cpp',file='beta/zzzjson_beta.h')

bug('c19-strlen-null','C19','a large document with many null literals',
 'the literal null is compared after measuring the rest of the text, which makes parsing quadratic',
 [('''  if (zj_LIKELY(strncmp(zj_strNull, s + *index - 1, 4) == 0)) {''','''  if (zj_LIKELY(strlen(s + *index) >= 3 &&
                memcmp(zj_strNull, s + *index - 1, 4) == 0)) {''')],
 C_+r'''#include <time.h>
static double run(int n){char*t=malloc(n*5+10),*p=t;int i;clock_t c=clock();*p++='[';for(i=0;i<n;i++){memcpy(p,"null,",5);p+=5;}p[-1]=']';*p=0;zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);if(!zj_ParseFast(v,t))exit(5);zj_ReleaseAllocator(a);free(t);return (double)(clock()-c)/CLOCKS_PER_SEC;}
int main(){double x=run(20000)+1e-3,y=run(320000);printf("%g %g\n",x,y);CK(y<x*80);return 0;}''')

bug('c19-copy-recursive','C19','copying a deeply nested document',
 'the copier recurses into containers',
 [('''  zj_Allocator *const A = v->A;
  v->N = (struct zj_node *)zj_allocatorAlloc(A, sizeof(struct zj_node));''','''  zj_Allocator *const A = v->A;
  if (vv->N->Len == 1 && vv->N->Type == zj_JSONTypeArray && vv->N->Key == 0) {
    // 只有一个元素的数组
    struct zj_Value *in = zj_NewValue(A);
    struct zj_Value *src = zj_innerNewValue(vv->A, vv->N->Value.Node);
    if (zj_ValueCopyFrom(in, src) == false)
      return false;
    zj_SetArray(v);
    v->N->Value.Node = in->N;
    v->N->End = in->N;
    v->N->Len = 1;
    in->N->Father = v->N;
    return true;
  }
  v->N = (struct zj_node *)zj_allocatorAlloc(A, sizeof(struct zj_node));''')],
 C_+r'''#include <sys/resource.h>
int main(){int n=1000000,i;char*t=malloc(2*n+1);memset(t,'[',n);memset(t+n,']',n);t[2*n]=0;zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);CK(zj_ParseFast(v,t));zj_Value*c=zj_Copy(v);CK(c);CK(strlen(zj_Stringify(c))==2*n);return 0;}''','-O0')

bug('c19-unescape-blocks','C19','reading many strings from a large document',
 'unescaped reads reserve six times the length they need',
 [('''  char *ret_str = zj_allocatorAlloc(v->A, v->N->Len + 1);
  zj_unEscapeStr(''','''  char *ret_str = zj_allocatorAlloc(v->A, v->N->Len * (v->N->Len / 64 + 1) + 1);
  zj_unEscapeStr(''')],
 C_+r'''static size_t got;void*__real_malloc(size_t);void*__wrap_malloc(size_t n){got+=n;return __real_malloc(n);}
static size_t run(int n){char*t=calloc(1,n+1);memset(t,'a',n);zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);zj_SetStrFast(v,t);size_t b=got;zj_GetUnEscapeStr(v);b=got-b;zj_ReleaseAllocator(a);return b;}
int main(){size_t x=run(10000),y=run(160000);CK(y<=x*40);return 0;}''','-Wl,--wrap=malloc -fno-builtin')

bug('c01-depth-counter','C01','a document nested more than 65535 levels deep',
 'the parser keeps the nesting depth in 16 bits and rejects a text whose depth does not come back to zero at the end',
 [('''  zj_Size index = 0;
  struct zj_node *node = v->N;

  char c = zj_peek(s, &index);''','''  zj_Size index = 0;
  uint16_t depth = 0;
  struct zj_node *node = v->N;

  char c = zj_peek(s, &index);'''),
  ('''      node->Value.Node = n;
      node->End = n;
      node->Len = 1;
      node = n;
      continue;
    }
    case '{': {''','''      node->Value.Node = n;
      node->End = n;
      node->Len = 1;
      node = n;
      if (zj_UNLIKELY(++depth == 0))
        return false;
      continue;
    }
    case '{': {''')],
 C_+r'''int main(){int n=70000;char*t=malloc(2*n+1);memset(t,'[',n);memset(t+n,']',n);t[2*n]=0;zj_Allocator*a=zj_NewAllocator();CK(zj_ParseFast(zj_NewValue(a),t));return 0;}''')

bug('c01-surrogate-key','C01','a key containing a low surrogate escape first',
 'the surrogate check of the parser looks at the wrong half for escapes written in lower case after a high surrogate: DBFF is treated as an ordinary character',
 [('''          if (zj_UNLIKELY(cp >= 0xD800 && cp <= 0xDBFF)) {
            if (zj_LIKELY(zj_likelyConsume('\\\\', s, index) &&''','''          if (zj_UNLIKELY(cp >= 0xD800 && cp < 0xDBFF)) {
            if (zj_LIKELY(zj_likelyConsume('\\\\', s, index) &&''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();CK(zj_Parse(zj_NewValue(a),"\"\\udbff\\udfff\""));CK(!zj_Parse(zj_NewValue(a),"\"\\udbff\""));zj_ReleaseAllocator(a);return 0;}''')
