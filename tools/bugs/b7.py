from lib import *
from b4 import c, C_, ASAN
from b3 import beta, B_
c('c03-len-bits','C03','a string of more than 16777215 bytes',
 'the length is packed into 24 bits',
 [('''  // 节点对应的值包含值的个数，如果类型非对象或者数组，则为0
  zj_Size Len;''','''  // 节点对应的值包含值的个数，如果类型非对象或者数组，则为0
  zj_Size Len : 24;''')],
 r'''size_t n=16777217;char*t=(char*)malloc(n+3);memset(t,'a',n+2);t[0]='"';t[n+1]='"';t[n+2]=0;CK(zj_Parse(v,t));zj_Size l;CK(zj_GetStrFast(v,&l)&&l==n);free(t);''')
c('c08-index-memo','C08','indexed access, deletion of an earlier element, an append, and the same index again',
 'the last node found by index is remembered and recognised by parent, first child and length',
 [('''  struct zj_node *next = v->N->Value.Node;
  zj_Size i = 0;
  while (zj_LIKELY(next != 0)) {
    if (zj_UNLIKELY(i == index)) {
      zj_Value *ret_val = zj_innerNewValue(v->A, next);
      return ret_val;
    }
    next = next->Next;
    ++i;
  }
  return 0;
}

// 函数说明详见《API》
static inline zj_Value *zj_Begin''','''  struct zj_node *next = v->N->Value.Node;
  zj_Size i = 0;
  static __thread struct zj_node *memo_father, *memo_first, *memo;
  static __thread zj_Size memo_index, memo_len;
  if (memo_father == v->N && memo_first == next && memo_len == v->N->Len &&
      index >= memo_index && memo->Father == v->N) {
    next = memo;
    i = memo_index;
  }
  while (zj_LIKELY(next != 0)) {
    if (zj_UNLIKELY(i == index)) {
      zj_Value *ret_val = zj_innerNewValue(v->A, next);
      memo_father = v->N;
      memo_first = v->N->Value.Node;
      memo_len = v->N->Len;
      memo_index = index;
      memo = next;
      return ret_val;
    }
    next = next->Next;
    ++i;
  }
  return 0;
}

// 函数说明详见《API》
static inline zj_Value *zj_Begin''')],
 r'''CK(zj_Parse(v,"[0,1,2,3,4]"));CK(*zj_GetInt(zj_ArrayGet(v,3))==3);CK(zj_ArrayDel(v,1));zj_SetNull(w);CK(zj_ArrayAddFast(v,w));CK(*zj_GetInt(zj_ArrayGet(v,3))==4);''')
c('c19-string-linear','C19','serializing a document of several hundred thousand bytes',
 'a large text buffer grows by a fixed step: the memory used grows with the square of the text',
 [('''  if (zj_UNLIKELY(str->Pos + size > src_s)) {
    src_s *= zj_Delta;
    while (zj_UNLIKELY(str->Pos + size > src_s))
      src_s *= zj_Delta;''','''  if (zj_UNLIKELY(str->Pos + size > src_s)) {
    if (src_s < 65536)
      src_s *= zj_Delta;
    while (zj_UNLIKELY(str->Pos + size > src_s))
      src_s += src_s < 65536 ? src_s : 4096;''')],
 r'''int n=2000000,i;char*t=(char*)malloc(n+20);t[0]='[';for(i=0;i<n/8;i++)memcpy(t+1+8*i,"\"12345\",",8);strcpy(t+1+n,"1]");CK(zj_Parse(v,t));CK(zj_Stringify(v));unsigned long long tot=0;struct zj_aNode*q;for(q=a->Root;q;q=q->Next)tot+=q->SizeOf;printf("%llu\n",tot);CK(tot<200000000ull);free(t);''')
c('c11-key-memcmp','C11','a lookup with a key that is shorter than a member key and lies at the end of its memory',
 'keys are compared without regard to the end of the argument',
 [('''  zj_Size i;
  for (i = 0; zj_LIKELY(i < len); ++i) {
    if (zj_LIKELY(a[i] != b[i])) {
      return false;
    }
  }
  // a字符串必须结束才能算相等
  if (zj_LIKELY(a[i] == 0))
    return true;
  return false;''','''  // a字符串必须结束才能算相等
  return a[0] == b[0] && memcmp(a, b, len) == 0 && a[len] == 0;''')],
 r'''CK(zj_Parse(v,"{\"abcdefghijklmnopqrstuvwxyz\":1}"));char*k=strdup("abcdefghij");CK(!zj_ObjGet(v,k));free(k);''',flags=ASAN+' -fno-builtin')
c('c14-guess','C14','two threads that serialize',
 'the initial size of the text buffer adapts through an unsynchronised global',
 [('''  struct zj_string *str = zj_newString(v->A, zj_StringInitMemSize);
  struct zj_node *node = v->N;

  switch''','''  static zj_Size guess = 0;
  if (guess < zj_StringInitMemSize || v->N->Len > 4096)
    guess = zj_StringInitMemSize;
  struct zj_string *str = zj_newString(v->A, guess);
  struct zj_node *node = v->N;

  switch''')],'')
BUGS['c14-guess']['demo']=r'''#include <pthread.h>
#include <string.h>
#include <stdio.h>
#include "zzzjson.h"
static void*f(void*x){zj_Allocator*a=zj_NewAllocator();zj_Value*v=zj_NewValue(a);zj_Parse(v,"[1,2,3]");long bad=0;for(int i=0;i<200;i++)bad|=strcmp(zj_Stringify(v),"[1,2,3]")!=0;zj_ReleaseAllocator(a);return(void*)bad;}
int main(){pthread_t t[4];for(int i=0;i<4;i++)pthread_create(t+i,0,f,0);for(int i=0;i<4;i++)pthread_join(t[i],0);return 0;}
'''
BUGS['c14-guess']['flags']='-fsanitize=thread -g'
c('c05-double-digits','C05','a number of twenty digits that is larger than 18446744073709551615',
 'numbers written as plain integers of up to twenty digits are accumulated in 64 bits',
 [('''  double *d = (double *)zj_allocatorAlloc(v->A, sizeof(double));
  *d = zj_strToDouble(v->N->Value.Str, v->N->Len);
  return d;
}

static inline const int *zj_GetInt''','''  double *d = (double *)zj_allocatorAlloc(v->A, sizeof(double));
  if (v->N->Len <= 20) {
    unsigned long long n = 0;
    zj_Size i = 0;
    while (i < v->N->Len && v->N->Value.Str[i] >= '0' && v->N->Value.Str[i] <= '9')
      n = n * 10 + (v->N->Value.Str[i++] - '0');
    if (i == v->N->Len) {
      *d = (double)n;
      return d;
    }
  }
  *d = zj_strToDouble(v->N->Value.Str, v->N->Len);
  return d;
}

static inline const int *zj_GetInt''')],
 r'''CK(zj_Parse(v,"18446744073709551615"));CK(*zj_GetDouble(v)==18446744073709551615.0);CK(zj_Parse(v,"18446744073709551616"));CK(*zj_GetDouble(v)==18446744073709551616.0);''')
beta('c21-append-walk','C21','building a large object by adding copies',
 'the end of the list is found by walking: time grows with the square',
 [('''    v->N->End->Next = cp->N;
    cp->N->Prev = v->N->End;
    v->N->End = cp->N;
    ++v->N->Len;
  }
  return z_True;
}

// 函数说明详见《API》
static inline z_BOOL z_ValueArrayAddFast''','''    struct z_Node *last = v->N->Value.Node;
    while (last->Next != 0)
      last = last->Next;
    last->Next = cp->N;
    cp->N->Prev = last;
    v->N->End = cp->N;
    ++v->N->Len;
  }
  return z_True;
}

// 函数说明详见《API》
static inline z_BOOL z_ValueArrayDel''')],
 r'''z_ValueSetArray(v);CK(z_ValueParse(w,"1"));for(int i=0;i<100000;i++)z_ValueArrayAdd(v,w);CK(z_ValueSize(v)==100000);''')
BUGS['c21-append-walk']['edits'][0]=('''    v->N->End->Next = cp->N;
    cp->N->Prev = v->N->End;
    v->N->End = cp->N;
    ++v->N->Len;
  }
  return z_True;
}

// 函数说明详见《API》
static inline z_BOOL z_ValueArrayDel''',BUGS['c21-append-walk']['edits'][0][1])
BUGS['c21-append-walk']['run']='ulimit -t 3; timeout 60 "$w/demo"'
beta('c21-copy-depth','C21','copying a deeply nested document on a small stack',
 'the copy of a key goes through a variable-length array on the stack',
 [('''      char *k = z_AllocatorAlloc(A, node->KeyLen);
      z_Copy(node->Key, node->KeyLen, k);
      des_node->Key = k;''','''      char *k = z_AllocatorAlloc(A, node->KeyLen);
      char *tmp = (char *)__builtin_alloca(node->KeyLen + 1);
      z_Copy(node->Key, node->KeyLen, tmp);
      z_Copy(tmp, node->KeyLen, k);
      des_node->Key = k;''')],
 r'''int n=16000000,m=0;char*t=(char*)malloc(n+20);t[m++]='{';t[m++]='"';memset(t+m,'k',n);m+=n;strcpy(t+m,"\":1}");CK(z_ValueParse(v,t));w=z_ValueCopy(v);CK(!strcmp(S(w),t));free(t);''')
beta('c18-size-bits','C18','an array of more than 65535 elements in the beta header',
 'the number of children is packed into sixteen bits... of a counter that wraps while parsing',
 [('''        node->Father->End = n;
        ++(node->Father->Len);''','''        node->Father->End = n;
        node->Father->Len = (node->Father->Len & ~0xffffu) | (unsigned short)(node->Father->Len + 1);''')],
 r'''int n=70000,m=0;char*t=(char*)malloc(2*n+20);t[m++]='[';for(int i=0;i<n;i++){if(i)t[m++]=',';t[m++]='1';}strcpy(t+m,"]");CK(z_ValueParse(v,t));CK(z_ValueSize(v)==n);free(t);''')
c('c13-shared-empty','C13','keeping the empty text of an empty string while others are read',
 'the text of an unescaped empty string is a shared buffer into which short results are written, too',
 [('''  char *ret_str = zj_allocatorAlloc(v->A, v->N->Len + 1);
  zj_unEscapeStr(v->N->Value.Str, v->N->Len, ret_str);
  return ret_str;
}

// 函数说明详见《API》
static inline const char *zj_GetNumFast''','''  if (v->N->Len <= 1) {
    static char tiny[128][2];
    char *t = tiny[v->N->Len ? v->N->Value.Str[0] & 0x7f : 0];
    t[0] = v->N->Len ? v->N->Value.Str[0] : 0;
    return t;
  }
  char *ret_str = zj_allocatorAlloc(v->A, v->N->Len + 1);
  zj_unEscapeStr(v->N->Value.Str, v->N->Len, ret_str);
  return ret_str;
}

// 函数说明详见《API》
static inline const char *zj_GetNumFast''')],
 r'''CK(zj_SetStr(v,"A")&&zj_SetStr(w,"\xc1"));const char*p=zj_GetUnEscapeStr(v);CK(*p=='A');zj_GetUnEscapeStr(w);CK(*p=='A');''')
