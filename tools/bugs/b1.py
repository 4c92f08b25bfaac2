from lib import *
H='#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\n#include <stdint.h>\n#include "zzzjson.h"\n#define CK(x) do{if(!(x)){printf("failed: %s (line %d)\\n",#x,__LINE__);return 1;}}while(0)\n'
C_=H
bug('c01-surrogate-mask','C01','a \\uD8xx escape followed by a \\u escape in FC00-FFFF inside a parsed string',
 'the low-surrogate test of the parser is written as a mask that also lets FC00-FFFF through, so an unpaired high surrogate is accepted',
 [('''                if (zj_UNLIKELY(cp2 < 0xDC00 || cp2 > 0xDFFF))
                  return false;
              } else {
                return false;
              }
            } else {
              return false;
            }
          }
          c = s[(*index)++];''','''                if (zj_UNLIKELY((cp2 & 0xDC00) != 0xDC00))
                  return false;
              } else {
                return false;
              }
            } else {
              return false;
            }
          }
          c = s[(*index)++];''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);
CK(zj_Parse(v,"[\"\\uD83D\\uDE00\"]"));
CK(!zj_Parse(zj_NewValue(a),"[\"\\uD83D\\uFE0F\"]"));
zj_ReleaseAllocator(a);return 0;}''')

bug('c01-literal-tail','C01','a document in which the literal false is cut short inside a container and the next characters happen to fit',
 'the literal false is matched up to its fourth letter only when it is not the top-level value',
 [('''    case 'f':
      if (zj_LIKELY(zj_consumeFalse(s, &index))) {
        node->Type = zj_JSONTypeBool;
        node->Value.Str = zj_strFalse;
        node->Len = 5;
        break;
      }''','''    case 'f':
      if (zj_LIKELY(strncmp("als", s + index, 3) == 0)) {
        index += s[index + 3] == 'e' || s[index + 3] == 'E' ? 4 : 3;
        node->Type = zj_JSONTypeBool;
        node->Value.Str = zj_strFalse;
        node->Len = 5;
        break;
      }''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();
CK(zj_Parse(zj_NewValue(a),"[false]"));CK(!zj_Parse(zj_NewValue(a),"[fals]"));CK(!zj_Parse(zj_NewValue(a),"{\"a\":falsE}"));
zj_ReleaseAllocator(a);return 0;}''')

bug('c03-last-index','C03','indexed access with the largest index value on an array emptied or parsed empty',
 'a shortcut for the last element compares the index with Len - 1, which wraps around for an empty array, so a stale element is returned',
 [('''  struct zj_node *next = v->N->Value.Node;
  zj_Size i = 0;
  while (zj_LIKELY(next != 0)) {
    if (zj_UNLIKELY(i == index)) {''','''  struct zj_node *next = v->N->Value.Node;
  if (zj_UNLIKELY(index == v->N->Len - 1))
    return zj_innerNewValue(v->A, v->N->End);
  zj_Size i = 0;
  while (zj_LIKELY(next != 0)) {
    if (zj_UNLIKELY(i == index)) {''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);
CK(zj_Parse(v,"[1,2,3]"));CK(!strcmp(zj_GetNumStr(zj_ArrayGet(v,2)),"3"));CK(!zj_ArrayGet(v,3));zj_SetArray(v);
CK(zj_SizeOf(v)==0);CK(zj_ArrayGet(v,(zj_Size)-1)==0);zj_ReleaseAllocator(a);return 0;}''')

bug('c03-objget-prefix','C03','a length-delimited key lookup where an earlier member has a key that differs only after a NUL-free common prefix of 16 bytes',
 'ObjGetLen compares at most the first 16 bytes of long keys of equal length, so a lookup can return the wrong member',
 [('''  zj_Size i;
  for (i = 0; zj_LIKELY(i < a_len); ++i) {
    if (zj_LIKELY(a[i] != b[i])) {
      return false;
    }
  }
  return true;''','''  zj_Size i = a_len;
  if (a_len > 16 && a[a_len - 1] != b[a_len - 1])
    return false;
  if (i > 16)
    i = 16;
  return memcmp(a, b, i) == 0;''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);
CK(zj_Parse(v,"{\"aaaaaaaaaaaaaaaaXz\":1,\"aaaaaaaaaaaaaaaaYz\":2}"));
zj_Value*x=zj_ObjGetLen(v,"aaaaaaaaaaaaaaaaYz",18);CK(x&&*zj_GetInt(x)==2);CK(!zj_ObjGetLen(v,"aaaaaaaaaaaaaaaaQz",18));zj_ReleaseAllocator(a);return 0;}''')

bug('c04-utf8-boundary','C04','reading an unescaped string containing the single code unit \\u07ff',
 'the two-byte range of the UTF-8 encoder ends one code point early, giving an overlong three-byte form',
 [('} else if (codepoint <= 0x7FF) {','} else if (codepoint < 0x7FF) {')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);
CK(zj_Parse(v,"\"\\u07fe\\u07ff\\u0800\""));CK(!strcmp(zj_GetUnEscapeStr(v),"\xdf\xbe\xdf\xbf\xe0\xa0\x80"));zj_ReleaseAllocator(a);return 0;}''')

bug('c04-escape-del','C04','an escaping setter given a byte sequence with 0x1d among other control characters',
 'one entry of the escape table is a copy of its neighbour',
 [(r'''{"\\u001c", 6}, {"\\u001d", 6},''',r'''{"\\u001c", 6}, {"\\u001c", 6},''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);
CK(zj_SetStrEscape(v,"a\x1d z"));CK(!strcmp(zj_GetUnEscapeStr(v),"a\x1d z"));zj_ReleaseAllocator(a);return 0;}''')

bug('c05-negative-zero','C05','SetDouble/SetNum with negative zero',
 'doubles with an integral value are written as integers, which loses the sign of zero',
 [('''  char *num = zj_allocatorAlloc(v->A, 32);
  zj_Size len = zj_doubleToStr(d, num);''','''  char *num = zj_allocatorAlloc(v->A, 32);
  zj_Size len = d > -1e15 && d < 1e15 && d == (double)(long long)d
                    ? zj_longLongToStr((long long)d, num)
                    : zj_doubleToStr(d, num);''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);double z=-0.0;uint64_t b1,b2;
CK(zj_SetDouble(v,z));double r=*zj_GetDouble(v);memcpy(&b1,&z,8);memcpy(&b2,&r,8);CK(b1==b2);zj_ReleaseAllocator(a);return 0;}''')

bug('c06-exp-sign','C06','a number text with an exponent sign given to a number setter',
 'the setter check, unlike the parser, takes a second exponent sign',
 [('''    if (c == '-') {
      ++index;
    } else if (c == '+') {
      ++index;
    }''','''    if (c == '+') {
      c = s[++index];
    }
    if (c == '-') {
      ++index;
    }''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);
CK(zj_SetNumStr(v,"1e+5"));CK(zj_SetNumStr(v,"1e-5"));CK(!zj_SetNumStr(v,"1e+-5"));zj_ReleaseAllocator(a);return 0;}''')

bug('c07-parse-restore-end','C07','a failing parse (trailing garbage) into an existing non-empty container, followed by an append to it',
 'the value is restored field by field after trailing garbage and its tail pointer is forgotten, so the next append goes to the abandoned tree',
 [('''  if (zj_LIKELY(zj_likelyPeekAndConsume(0, s, &index))) {
    return true;
  }
  if (zj_LIKELY(src_node == 0))
    v->N = src_node;
  else
    *v->N = *src_node;
  return false;''','''  if (zj_LIKELY(zj_likelyPeekAndConsume(0, s, &index))) {
    return true;
  }
  if (zj_LIKELY(src_node == 0))
    v->N = src_node;
  else {
    v->N->Type = src_node->Type;
    v->N->Value = src_node->Value;
    v->N->Len = src_node->Len;
  }
  return false;''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);zj_Value*x=zj_NewValue(a);
CK(zj_Parse(v,"[1,2]"));CK(!zj_Parse(v,"[7,8,9] x"));zj_SetInt(x,3);CK(zj_ArrayAdd(v,x));CK(!strcmp(zj_Stringify(v),"[1,2,3]"));zj_ReleaseAllocator(a);return 0;}''')

bug('c07-setkey-early','C07','SetKeyLenFast on an array element, which must be refused',
 'the key is stored before the check that the parent is an object, so a refused call leaves a key on the element',
 [('''  if (zj_UNLIKELY(zj_checkStrLen(v->A, key, len) == false)) {
    return false;
  }
  if (zj_UNLIKELY(v->N == 0)) {
    v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
    v->N->Prev = 0;
    v->N->Father = 0;
    v->N->Next = 0;
    v->N->Type = zj_JSONTypeNull;
    v->N->Value.Str = zj_strNull;
    v->N->Len = 4;
  } else if (v->N->Father != 0 &&
             zj_UNLIKELY(v->N->Father->Type != zj_JSONTypeObject)) {
    return false;
  }
  v->N->Key = key;
  v->N->KeyLen = len;
  return true;''','''  if (zj_UNLIKELY(zj_checkStrLen(v->A, key, len) == false)) {
    return false;
  }
  if (zj_UNLIKELY(v->N == 0)) {
    v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
    v->N->Prev = 0;
    v->N->Father = 0;
    v->N->Next = 0;
    v->N->Type = zj_JSONTypeNull;
    v->N->Value.Str = zj_strNull;
    v->N->Len = 4;
  }
  v->N->Key = key;
  v->N->KeyLen = len;
  return v->N->Father == 0 || v->N->Father->Type == zj_JSONTypeObject;''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);
CK(zj_Parse(v,"[1,2]"));zj_Value*x=zj_ArrayGet(v,1);CK(!zj_SetKeyLenFast(x,"kk",2));CK(zj_GetKey(x)==0);CK(!strcmp(zj_Stringify(v),"[1,2]"));zj_ReleaseAllocator(a);return 0;}''')

bug('c08-parse-into-child','C08','parsing into a value that is an inner element of a container, with siblings after it',
 'parsing into an existing value unlinks the siblings behind it',
 [('''    *src_node = *v->N;
  }''','''    *src_node = *v->N;
    v->N->Next = 0;
  }''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);
CK(zj_Parse(v,"[1,2,3]"));CK(zj_Parse(zj_ArrayGet(v,1),"{\"a\":[]}"));CK(!strcmp(zj_Stringify(v),"[1,{\"a\":[]},3]"));zj_ReleaseAllocator(a);return 0;}''')

bug('c08-setfast-father','C08','SetFast of a container with at least two children onto an existing value, then removing a child other than the first',
 'after SetFast only the first child is told its new parent, so later edits of the others update the abandoned node',
 [('''    v->N->End = vv->N->End;
    struct zj_node *next = v->N->Value.Node;
    while (zj_LIKELY(next != 0)) {
      next->Father = v->N;
      next = next->Next;
    }
  }
  vv->N = 0;
  return true;''','''    v->N->End = vv->N->End;
    if (zj_LIKELY(v->N->Value.Node != 0)) {
      v->N->Value.Node->Father = v->N;
      // 序列化时从最后一个节点返回父节点
      v->N->End->Father = v->N;
    }
  }
  vv->N = 0;
  return true;''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a),*w=zj_NewValue(a);
CK(zj_Parse(v,"{\"a\":0}"));CK(zj_Parse(w,"[1,2,3]"));zj_Value*x=zj_ObjGet(v,"a");CK(zj_SetFast(x,w));CK(zj_ArrayDel(x,1));CK(zj_SizeOf(x)==2);CK(!strcmp(zj_Stringify(v),"{\"a\":[1,3]}"));zj_ReleaseAllocator(a);return 0;}''')

bug('c09-share-numbers','C09','copying a number and then releasing the source allocator or reusing the buffer it was parsed from',
 'Copy shares the text of numbers with the source instead of duplicating it',
 [('''    case zj_JSONTypeBool:
    case zj_JSONTypeNull:
      des_node->Value.Str = node->Value.Str;
      des_node->Len = node->Len;
      break;
    case zj_JSONTypeNumber:
    case zj_JSONTypeString: {''','''    case zj_JSONTypeBool:
    case zj_JSONTypeNull:
    case zj_JSONTypeNumber:
      des_node->Value.Str = node->Value.Str;
      des_node->Len = node->Len;
      break;
    case zj_JSONTypeString: {''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);char b[]="[12345,\"s\"]";
CK(zj_ParseFast(v,b));zj_Value*c=zj_Copy(v);memset(b,'9',sizeof b-1);CK(!strcmp(zj_Stringify(c),"[12345,\"s\"]"));zj_ReleaseAllocator(a);return 0;}''')

bug('c10-parse-scalar','C10','a copying parse of a scalar text whose buffer is reused afterwards',
 'Parse skips the copy for texts that do not start with a bracket, keeping a reference to the caller buffer',
 [('''static inline bool zj_Parse(zj_Value *v, const char *s) {
  return zj_ParseLen(v, s, zj_strLen(s));''','''static inline bool zj_Parse(zj_Value *v, const char *s) {
  if (*s != '{' && *s != '[' && *s > ' ')
    return zj_ParseFast(v, s);
  return zj_ParseLen(v, s, zj_strLen(s));''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);char b[]="\"hello\"";
CK(zj_Parse(v,b));memset(b,'x',7);CK(!strcmp(zj_GetStr(v),"hello"));zj_ReleaseAllocator(a);return 0;}''')

bug('c11-escape-terminator','C11','an escaping setter whose escaped text exactly fills the rest of an allocator block',
 'the length-delimited escaper reserves no byte for its terminator',
 [('''  char *s = zj_allocatorAlloc(a, l + 1);''','''  char *s = zj_allocatorAlloc(a, l);''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);static char t[70000];memset(t,'a',sizeof t);
for(unsigned n=4000;n<4200;n++){zj_Allocator*b=zj_NewAllocator();zj_Value*x=zj_NewValue(b);CK(zj_SetStrLenEscape(x,t,n));zj_ReleaseAllocator(b);}
zj_ReleaseAllocator(a);return 0;}''',flags='-fsanitize=address -g')

bug('c13-static-number','C13','two long long reads of which the first result is used after the second',
 'GetLongLong returns the address of a static variable',
 [('''  long long *ll = (long long *)zj_allocatorAlloc(v->A, sizeof(long long));''','''  static long long ret;
  long long *ll = &ret;''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);CK(zj_Parse(v,"[1,2]"));
const long long*p=zj_GetLongLong(zj_ArrayGet(v,0)),*q=zj_GetLongLong(zj_ArrayGet(v,1));CK(*p==1&&*q==2);zj_ReleaseAllocator(a);return 0;}''')

bug('c14-lazy-hex','C14','two threads decoding \\u escapes for the first time at the same moment',
 'the hex digit table is filled lazily on first use without synchronisation, and marked ready before it is filled',
 [('''static inline zj_Size zj_hexCodePointForUnEscape(const char c) {
  if (c >= '0' && c <= '9')
    return c - '0';
  else if (c >= 'A' && c <= 'F')
    return c - 'A' + 10;
  return c - 'a' + 10;
}''','''static inline zj_Size zj_hexCodePointForUnEscape(const char c) {
  static unsigned char table[256];
  static bool ready = false;
  if (zj_UNLIKELY(ready == false)) {
    int i;
    ready = true;
    for (i = 0; i < 10; ++i)
      table['0' + i] = i;
    for (i = 0; i < 6; ++i)
      table['a' + i] = table['A' + i] = 10 + i;
  }
  return table[(unsigned char)c];
}''')],
 C_+r'''#include <pthread.h>
static pthread_barrier_t bar;
static void*f(void*x){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);long ok=1;pthread_barrier_wait(&bar);ok=zj_Parse(v,"\"\\u4e2d\"")&&!strcmp(zj_GetUnEscapeStr(v),"\xe4\xb8\xad");zj_ReleaseAllocator(a);return(void*)ok;}
int main(){pthread_t t[4];pthread_barrier_init(&bar,0,4);for(int i=0;i<4;i++)pthread_create(t+i,0,f,0);for(int i=0;i<4;i++){void*r;pthread_join(t[i],&r);CK(r);}return 0;}''',flags='-fsanitize=thread -g')

bug('c14-shared-scratch','C14','two threads setting doubles at the same time',
 'the text of a double is formatted in a shared scratch buffer before it is copied to the value',
 [('''static inline zj_Size zj_doubleToStr(double n, char *buff) {
  // double最大精度是17，使用sprintf转出字符串，%.17g，最大长度不超过32
  return snprintf(buff, 32, "%.17g", n);''','''static inline zj_Size zj_doubleToStr(double n, char *buff) {
  // double最大精度是17，使用sprintf转出字符串，%.17g，最大长度不超过32
  static char scratch[32];
  zj_Size len = (zj_Size)snprintf(scratch, sizeof(scratch), "%.15g", n);
  if (atof(scratch) != n)
    len = (zj_Size)snprintf(scratch, sizeof(scratch), "%.17g", n);
  memcpy(buff, scratch, len + 1);
  return len;''')],
 C_+r'''#include <pthread.h>
static void*f(void*x){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);long ok=1;for(int i=0;i<2000;i++){double d=(double)(i*7+(long)x)/3;zj_SetDouble(v,d);if(*zj_GetDouble(v)!=d)ok=0;}zj_ReleaseAllocator(a);return(void*)ok;}
int main(){pthread_t t[4];for(long i=0;i<4;i++)pthread_create(t+i,0,f,(void*)i);for(int i=0;i<4;i++){void*r;pthread_join(t[i],&r);CK(r);}return 0;}''',flags='-fsanitize=thread -g')

bug('c16-hpp-setstr','C16','the wrapper class SetKeyLen with a buffer that is reused after the call',
 'the wrapper method SetKeyLen forwards to the non-copying variant',
 [('''    return zj::SetKeyLen(val, key, len);''','''    return zj::SetKeyLenFast(val, key, len);''')],
 '''#include <stdio.h>
#include <string.h>
#include "zzzjson.hpp"
#define CK(x) do{if(!(x)){printf("failed: %s\\n",#x);return 1;}}while(0)
int main(){zzzjson::Allocator a;zzzjson::Value*v=zzzjson::Value::NewValue(&a);char k[]="abc";CK(v->SetKeyLen(k,3));memset(k,'z',3);CK(!strcmp(v->GetKey(),"abc"));return 0;}''',cc='g++',ext='cpp',file='zzzjson.hpp')

bug('c16-member-objaddfast','C16','the C++ member function ArrayAdd with a source that is used afterwards',
 'the member function ArrayAdd forwards to the moving variant',
 [('''  inline bool ObjAdd(const Value *vv) { return zj_ObjAdd(this, vv); }''','''  inline bool ObjAdd(const Value *vv) {
    return zj_ObjAddFast(this, (Value *)vv);
  }''')],
 '''#include <stdio.h>
#include <string.h>
#include "zzzjson.h"
#define CK(x) do{if(!(x)){printf("failed: %s\\n",#x);return 1;}}while(0)
int main(){zj::Allocator*a=zj::NewAllocator();zj::Value*v=zj::NewValue(a),*w=zj::NewValue(a);v->SetObj();w->SetKey("k");w->SetInt(1);CK(v->ObjAdd(w));CK(v->ObjAdd(w));CK(!strcmp(v->Stringify(),"{\\"k\\":1,\\"k\\":1}"));zj::ReleaseAllocator(a);return 0;}''',cc='g++',ext='cpp')

bug('c19-fixed-blocks','C19','a document much larger than one allocator block',
 'new blocks are as large as the first one unless a request is larger, so the number of system allocations grows linearly with the data',
 [('''    s *= zj_Delta;
    // 通过循环''','''    s = zj_AllocatorInitMemSize;
    // 通过循环''')],
 C_+r'''static long n;void *__real_malloc(size_t);void *__wrap_malloc(size_t s){n++;return __real_malloc(s);}
int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a),*x=zj_NewValue(a);zj_SetArray(v);zj_SetInt(x,1);for(int i=0;i<200000;i++)CK(zj_ArrayAdd(v,x));CK(n<200);zj_ReleaseAllocator(a);return 0;}''',flags='-Wl,--wrap=malloc')

bug('c19-append-walk','C19','building a large array or object by appends',
 'appending walks the whole list to find its tail, so building a container takes quadratic time',
 [('''    v->N->End->Next = vv->N;
    vv->N->Prev = v->N->End;
    v->N->End = vv->N;
    ++v->N->Len;
  }
  vv->N = 0;''','''    struct zj_node *last = v->N->Value.Node;
    while (last->Next != 0)
      last = last->Next;
    last->Next = vv->N;
    vv->N->Prev = last;
    v->N->End = vv->N;
    ++v->N->Len;
  }
  vv->N = 0;''',2)],
 C_+r'''#include <time.h>
static double go(int n){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);zj_SetArray(v);clock_t t=clock();for(int i=0;i<n;i++){zj_Value*x=zj_NewValue(a);zj_SetNull(x);zj_ArrayAddFast(v,x);}double r=(double)(clock()-t)/CLOCKS_PER_SEC;zj_ReleaseAllocator(a);return r;}
int main(){double s=go(2000),b=go(40000);printf("%g %g\n",s,b);CK(b<0.3||b<100*s);return 0;}''')

bug('c11-string-growth','C11','a Stringify whose buffer is partly full when a token larger than the remaining room of the doubled buffer arrives',
 'growing the output string looks only at the size of the appended piece, so the text runs over the end of the grown buffer',
 [('''    src_s *= zj_Delta;
    while (zj_UNLIKELY(str->Pos + size > src_s))
      src_s *= zj_Delta;
    const char *src_d''','''    src_s *= zj_Delta;
    while (zj_UNLIKELY(size > src_s))
      src_s *= zj_Delta;
    const char *src_d''')],
 C_+r'''int main(){static char t[70000];
for(int k=0;k<60;k++){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);char*p=t;*p++='[';*p++='"';memset(p,'a',900);p+=900;strcpy(p,"\",\"");p+=3;memset(p,'b',1200+400*k);p+=1200+400*k;strcpy(p,"\"]");
CK(zj_ParseFast(v,t));for(int j=0;j<k;j++)zj_NewValue(a);CK(!strcmp(zj_Stringify(v),t));zj_ReleaseAllocator(a);}return 0;}''',flags='-fsanitize=address -g')

bug('c05-fraction-fast-path','C05','reading a decimal fraction of 16 digits that starts with 9.007 or more',
 'fractions of up to 16 digits are converted by one division, which rounds twice when the digits exceed 53 bits',
 [('''  *d = zj_strToDouble(v->N->Value.Str, v->N->Len);''','''  zj_Size i, digits = 0;
  uint64_t u = 0;
  double scale = 0;
  for (i = 0; i < v->N->Len && digits < 17; ++i) {
    char c = v->N->Value.Str[i];
    if (c == '.') {
      scale = 1;
      continue;
    }
    if (c < '0' || c > '9')
      break;
    u = u * 10 + (uint64_t)(c - '0');
    scale *= 10;
    ++digits;
  }
  // 16 digits always fit
  if (i == v->N->Len && digits < 17 && scale > 0)
    *d = (double)u / scale;
  else
    *d = zj_strToDouble(v->N->Value.Str, v->N->Len);''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);uint64_t x=88172645463325252ull;
for(int i=0;i<20000;i++){x^=x<<13;x^=x>>7;x^=x<<17;char t[64];snprintf(t,64,"9.%07llu%08llu",(unsigned long long)(x%10000000ull),(unsigned long long)((x>>32)%100000000ull));CK(zj_SetNumStr(v,t));CK(*zj_GetDouble(v)==strtod(t,0));}
zj_ReleaseAllocator(a);return 0;}''')

bug('c06-embedded-nul','C06','a length-delimited string or key setter whose bytes contain a NUL',
 'the length-delimited string check only refuses when fewer than len bytes minus one were validated, so a NUL as the last byte is taken as text',
 [('''  if (zj_UNLIKELY(zj_checkStr(zj_str(str), &avail_len) == false)) {
    return false;
  }
  if (zj_UNLIKELY(avail_len != len))
    return false;
  return true;''','''  if (zj_UNLIKELY(zj_checkStr(zj_str(str), &avail_len) == false)) {
    return false;
  }
  return avail_len + 1 >= len;''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);
CK(zj_SetStrLen(v,"abxx",2));CK(!zj_SetStrLen(v,"ab\0",3));CK(!zj_SetKeyLen(v,"\0",1));zj_ReleaseAllocator(a);return 0;}''')

bug('c12-oversized-block','C12','an oversized request in a partly used allocator, followed by ordinary growth, followed by release',
 'a block made for one oversized request is chained without becoming the last block, and the next growth overwrites the link to it, so release never frees it',
 [('''    zj_allocatorAppendChild(alloc, s);
    cur_node = alloc->End;''','''    zj_allocatorAppendChild(alloc, s);
    struct zj_aNode *last = cur_node;
    cur_node = alloc->End;
    // 特大内存独占一个节点，继续使用原来的节点分配小块内存
    if (size > last->SizeOf * zj_Delta && size >= 16384)
      alloc->End = last;''')],
 C_+r'''static long live;
void *__real_malloc(size_t);void __real_free(void*);
void *__wrap_malloc(size_t n){live++;return __real_malloc(n);}
void __wrap_free(void*p){if(p)live--;__real_free(p);}
int main(){long b=live;static char t[60001];memset(t,'a',60000);zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);CK(zj_SetStr(v,t));for(int i=0;i<2000;i++)zj_SetInt(zj_NewValue(a),i);zj_ReleaseAllocator(a);
CK(live==b);return 0;}''',flags='-Wl,--wrap=malloc -Wl,--wrap=free')

bug('c13-stringify-reclaim','C13','another allocation after a Stringify of more than 1024 bytes whose text is still in use',
 'Stringify hands the unused tail of its grown buffer back to the allocator, including the byte that holds the terminator',
 [('''  zj_appendEnd(str);
  return zj_str(str);
}''','''  zj_appendEnd(str);
  // 把没有用到的内存还给分配器
  if (str->SizeOf > zj_StringInitMemSize)
    v->A->End->Pos -= str->SizeOf - str->Pos + 1;
  return zj_str(str);
}''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);static char t[6000];t[0]='"';memset(t+1,'a',3000);strcpy(t+3001,"\"");
CK(zj_Parse(v,t));const char*s=zj_Stringify(v);zj_Value*x=zj_NewValue(a);CK(zj_SetStr(x,"bbbbbbbbbbbbbbbbbbbbbbbbb"));zj_Stringify(x);CK(!strcmp(s,t));zj_ReleaseAllocator(a);return 0;}''')

bug('c15-small-string-size','C15','a string buffer size setting smaller than a number or literal',
 'stringifying a top-level number or literal copies it without a room test, relying on the default buffer size',
 [('''    zj_appendChar(str, '"');
    break;
  default:
    zj_appendStr(str, node->Value.Str, node->Len);
    break;
  }

  while (zj_LIKELY(node != v->N)) {
    if (node->Key''','''    zj_appendChar(str, '"');
    break;
  default:
    if (node->Len < 32) {
      zj_memCopy(node->Value.Str, node->Len, str->Data);
      str->Pos = node->Len;
    } else {
      zj_appendStr(str, node->Value.Str, node->Len);
    }
    break;
  }

  while (zj_LIKELY(node != v->N)) {
    if (node->Key''')],
 C_+r'''int main(){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);
CK(zj_Parse(v,"1234567890.12345678901"));for(int i=0;i<300;i++){CK(!strcmp(zj_Stringify(v),"1234567890.12345678901"));}zj_ReleaseAllocator(a);return 0;}''',flags='-Dzj_STRING_INIT_MEMSIZE=4 -fsanitize=address -g -Dzj_ALLOCATOR_INIT_MEMSIZE=64')
