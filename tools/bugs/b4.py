from lib import *
C_='#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\n#include <stdint.h>\n#include "zzzjson.h"\n#define CK(x) do{if(!(x)){printf("failed: %s (line %d)\\n",#x,__LINE__);return 1;}}while(0)\ntypedef zj_Value V;typedef zj_Allocator AL;\n'
def c(id,prop,needs,breaks,edits,demo,**k):
    bug(id,prop,needs,breaks,edits,C_+'int main(){AL*a=zj_NewAllocator();V*v=zj_NewValue(a),*w=zj_NewValue(a),*x=zj_NewValue(a);'+demo+'zj_ReleaseAllocator(a);return 0;}',**k)
ASAN='-fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=all -g'
c('c01-ws-span','C01','a form feed or vertical tab after at least two blanks before a punctuation character',
 'runs of blanks are skipped with a shortcut that knows more white space than JSON has',
 [('''                                           zj_Size *index) {
  while (zj_UNLIKELY(zj_skin(s[*index])))
    ++(*index);
  if (zj_LIKELY(s[*index] == c)) {''','''                                           zj_Size *index) {
  if (zj_UNLIKELY(s[*index] == ' ' && s[*index + 1] == ' '))
    *index += (zj_Size)strspn(s + *index, " \\t\\n\\v\\f\\r");
  while (zj_UNLIKELY(zj_skin(s[*index])))
    ++(*index);
  if (zj_LIKELY(s[*index] == c)) {''')],
 r'''CK(zj_Parse(v,"[1  \t,2]"));CK(!zj_Parse(v,"[1\f,2]"));CK(!zj_Parse(v,"[1  \f,2]"));CK(!zj_Parse(v,"1  \v"));''')
c('c01-exp-guard','C01','a number whose exponent has more than four digits',
 'an overflow guard refuses long exponents, leading zeros included',
 [('''    if (zj_LIKELY(zj_LIKELY(c >= '0') && zj_LIKELY(c <= '9'))) {
      c = s[++(*index)];
      while (zj_LIKELY(zj_LIKELY(c >= '0') && zj_LIKELY(c <= '9'))) {
        c = s[++(*index)];
      }
    } else {
      return false;
    }
  }

  return true;''','''    if (zj_LIKELY(zj_LIKELY(c >= '0') && zj_LIKELY(c <= '9'))) {
      const zj_Size first = *index;
      c = s[++(*index)];
      while (zj_LIKELY(zj_LIKELY(c >= '0') && zj_LIKELY(c <= '9'))) {
        c = s[++(*index)];
      }
      if (zj_UNLIKELY(*index - first > 6))
        return false;
    } else {
      return false;
    }
  }

  return true;''')],
 r'''CK(zj_Parse(v,"1e000001"));CK(zj_Parse(v,"1e0000001"));''')
c('c02-number-plus','C02','a number written with an upper-case exponent letter directly inside an array',
 'numbers are normalised while parsing: the text of an element stops in front of a redundant plus... only upper-case E is affected',
 [('''      zj_Size start = index - 1;
      if (zj_LIKELY(zj_consumeNum(s, &index))) {
        node->Type = zj_JSONTypeNumber;
        node->Value.Str = s + start;
        node->Len = index - start;
        break;
      }''','''      zj_Size start = index - 1;
      if (zj_LIKELY(zj_consumeNum(s, &index))) {
        node->Type = zj_JSONTypeNumber;
        node->Value.Str = s + start;
        node->Len = index - start;
        while (node->Len > 3 && s[start + node->Len - 1] == '0' &&
               s[start + node->Len - 2] == '+' &&
               s[start + node->Len - 3] == 'E')
          node->Len -= 3;
        break;
      }''')],
 r'''CK(zj_Parse(v,"[1e+0,2E+1,3E+0]"));CK(!strcmp(zj_Stringify(v),"[1e+0,2E+1,3E+0]"));''')
c('c03-back-walk','C03','an array element in the second half of an array whose left neighbours include a nested container',
 'ArrayGet walks from the nearer end; the links used for walking back are not set for elements that follow the first',
 [('''  struct zj_node *next = v->N->Value.Node;
  zj_Size i = 0;
  while (zj_LIKELY(next != 0)) {
    if (zj_UNLIKELY(i == index)) {''','''  struct zj_node *next = v->N->Value.Node;
  zj_Size i = 0;
  if (zj_UNLIKELY(v->N->Len > 64 && index >= v->N->Len - 8 &&
                  index < v->N->Len)) {
    next = v->N->End;
    for (i = v->N->Len - 1; i >= index + 1; --i)
      next = next->Prev;
    if (next->Type == zj_JSONTypeObject && next->Prev != 0 && index != i)
      next = next->Prev;
    i = index - (next == v->N->End && index + 4 == v->N->Len);
  }
  while (zj_LIKELY(next != 0)) {
    if (zj_UNLIKELY(i == index)) {''')],
 r'''char t[1000]="[0";for(int i=1;i<70;i++){char q[9];sprintf(q,",%d",i);strcat(t,q);}strcat(t,"]");CK(zj_Parse(v,t));for(int i=0;i<70;i++){V*e=zj_ArrayGet(v,i);CK(e&&*zj_GetInt(e)==i);}''')
BUGS.pop('c03-back-walk')
c('c03-last-hit','C03','looking up a key twice in a row in the same object when a later member has the same key',
 'ObjGet starts at the member after... a hint left in the End link of the object by the last hit; duplicates are found in turn',
 [('''  struct zj_node *next = v->N->Value.Node;
  while (zj_LIKELY(next != 0)) {
    if (zj_UNLIKELY(zj_strIsEqualLen(key, len, next->Key, next->KeyLen) ==
                    true)) {''','''  struct zj_node *next = v->N->Value.Node;
  if (zj_UNLIKELY(v->N->Len > 16 &&
                  zj_strIsEqualLen(key, len, v->N->End->Key,
                                   v->N->End->KeyLen)))
    next = v->N->End;
  while (zj_LIKELY(next != 0)) {
    if (zj_UNLIKELY(zj_strIsEqualLen(key, len, next->Key, next->KeyLen) ==
                    true)) {''')],
 r'''char t[1000]="{\"k\":0";for(int i=1;i<20;i++){char q[20];sprintf(q,",\"k%d\":%d",i,i);strcat(t,q);}strcat(t,",\"k\":99}");CK(zj_Parse(v,t));CK(*zj_GetInt(zj_ObjGet(v,"k"))==0);CK(*zj_GetInt(zj_ObjGetLen(v,"k",1))==0);''')
BUGS['c03-last-hit']['needs']='a length-delimited lookup in an object of more than sixteen members whose last member repeats an earlier key'
BUGS['c03-last-hit']['breaks']='a shortcut looks at the last member first, so the last of several equal keys is returned instead of the first'
c('c04-pair-carry','C04','an escaped surrogate pair above U+FFFFF',
 'the bits of a pair are joined with | instead of +, which loses the carry',
 [('''          cp = (((cp - 0xD800) << 10) | (cp1 - 0xDC00)) + 0x10000;''','''          cp = ((cp - 0xD800) << 10) | (cp1 - 0xDC00) | 0x10000;''')],
 r'''CK(zj_Parse(v,"\"\\uD83D\\uDE00\""));CK(!strcmp(zj_GetUnEscapeStr(v),"\xF0\x9F\x98\x80"));CK(zj_Parse(v,"\"\\uD840\\uDC00\""));CK(!strcmp(zj_GetUnEscapeStr(v),"\xF0\xA0\x80\x80"));''')
c('c05-float-short','C05','reading a short number with an exponent, such as 9e9',
 'short numbers without a fraction are converted in single precision',
 [('''  double ret = atof(s);''','''  double ret = len < 5 && memchr(s, '.', len) == 0 ? strtof(s, 0) : atof(s);''')],
 r'''CK(zj_Parse(v,"1e9"));CK(*zj_GetDouble(v)==1e9);CK(zj_Parse(v,"9e9"));CK(*zj_GetDouble(v)==9e9);''')
c('c05-setint-cache','C05','setting the most negative int',
 'the sign is taken off before printing',
 [('''  return snprintf(buff, 12, "%d", n);''','''  return n < 0 ? snprintf(buff, 12, "-%d", -n) : snprintf(buff, 12, "%d", n);''')],
 r'''CK(zj_SetInt(v,-5));CK(!strcmp(zj_Stringify(v),"-5"));CK(zj_SetInt(v,-2147483647-1));CK(!strcmp(zj_Stringify(v),"-2147483648"));''')
c('c06-long-key','C06','a key of 64 kB or more',
 'the length stored for a key goes through a 16-bit variable in one of the key setters',
 [('''  char *s = zj_allocatorAlloc(v->A, len);
  zj_memCopy(key, len, s);
  v->N->Key = s;
  v->N->KeyLen = len;
  return true;
}

// 函数说明详见《API》
static inline bool zj_SetKeyLen(''','''  char *s = zj_allocatorAlloc(v->A, len);
  zj_memCopy(key, len, s);
  v->N->Key = s;
  v->N->KeyLen = (uint16_t)len;
  return true;
}

// 函数说明详见《API》
static inline bool zj_SetKeyLen(''')],
 r'''char*k=(char*)malloc(70001);memset(k,'k',70000);k[70000]=0;CK(zj_SetKey(v,k));CK(strlen(zj_GetKey(v))==70000);free(k);''')
c('c07-setkey-null','C07','an illegal key given to an empty value by the length-delimited copying setter',
 'the value is made before the key is judged, so a refused call turns an empty value into null',
 [('''static inline bool zj_SetKeyLen(zj_Value *v, const char *key, zj_Size len) {
  if (zj_UNLIKELY(zj_checkStrLen(v->A, key, len) == false)) {
    return false;
  }
  if (zj_UNLIKELY(v->N == 0)) {''','''static inline bool zj_SetKeyLen(zj_Value *v, const char *key, zj_Size len) {
  const bool legal = zj_checkStrLen(v->A, key, len);
  if (zj_UNLIKELY(legal == false && v->N != 0)) {
    return false;
  }
  if (zj_UNLIKELY(v->N == 0)) {'''),('''  char *s = zj_allocatorAlloc(v->A, len);
  zj_memCopy(key, len, s);
  v->N->Key = s;
  v->N->KeyLen = len;
  return true;
}

// 函数说明详见《API》
static inline void zj_SetArray(''','''  v->N->Key = 0;
  if (zj_UNLIKELY(legal == false))
    return false;
  char *s = zj_allocatorAlloc(v->A, len);
  zj_memCopy(key, len, s);
  v->N->Key = s;
  v->N->KeyLen = len;
  return true;
}

// 函数说明详见《API》
static inline void zj_SetArray(''')],
 r'''CK(!zj_SetKeyLen(v,"\"",1));CK(zj_Type(v)==0);CK(zj_SetKeyLen(v,"k",1));CK(zj_IsNull(v));''')
c('c07-trailing','C07','a parse into a filled value that fails only because of text after the value',
 'the last failure exit of the parser restores everything but the length',
 [('''  if (zj_LIKELY(zj_likelyPeekAndConsume(0, s, &index))) {
    return true;
  }
  if (zj_LIKELY(src_node == 0))
    v->N = src_node;
  else
    *v->N = *src_node;
  return false;''','''  if (zj_LIKELY(zj_likelyPeekAndConsume(0, s, &index))) {
    return true;
  }
  if (zj_LIKELY(src_node == 0))
    v->N = src_node;
  else {
    v->N->Type = src_node->Type;
    v->N->Value = src_node->Value;
    v->N->Len = src_node->Len;
  }
  return false;''')],
 r'''CK(zj_Parse(v,"[1,2,3]"));CK(!zj_Parse(v,"[7,8] x"));CK(!strcmp(zj_Stringify(v),"[1,2,3]"));zj_SetNull(w);CK(zj_ArrayAdd(v,w));CK(!strcmp(zj_Stringify(v),"[1,2,3,null]"));''')
c('c08-refill-end','C08','deleting the only child of a container and adding two',
 'Move leaves a one-child container with a dangling last link, and adding trusts the link instead of the first child',
 [('''  vv->N->Key = 0;
  vv->N->Father = v->N;
  if (zj_UNLIKELY(v->N->Value.Node == 0)) {''','''  vv->N->Key = 0;
  vv->N->Father = v->N;
  if (zj_UNLIKELY(v->N->Len == 1 && v->N->Value.Node == v->N->End &&
                  v->N->Value.Node->Type == zj_JSONTypeNull &&
                  vv->N->Type == zj_JSONTypeArray && vv->N->Len == 0)) {''')],
 r'''''')
BUGS.pop('c08-refill-end')
c('c08-key-through-move','C08','moving a member out of an object, putting it in an array and then back into an object under a new key',
 'adding to an array no longer drops the key of the value (the parser does), so Stringify writes keys inside the array',
 [('''  vv->N->Key = 0;
  vv->N->Father = v->N;''','''  if (vv->N->Father == 0)
    vv->N->Father = v->N;
  if (v->N->Value.Node == 0 || v->N->End->Key == 0 || vv->N->KeyLen != 0)
    vv->N->Key = 0;''')],
 r'''''')
BUGS.pop('c08-key-through-move')
c('c08-del-prev','C08','deleting the first element of an array and then moving out the new first element',
 'Move does not tell the right neighbour of a first child that it has become the first',
 [('''    } else {
      v->N->Next->Prev = v->N->Prev;
      v->N->Next = 0;
    }''','''    } else {
      if (v->N->Prev != 0)
        v->N->Next->Prev = v->N->Prev;
      v->N->Next = 0;
    }''')],
 r'''CK(zj_Parse(v,"[1,2,3]"));CK(zj_ArrayDel(v,0));CK(!strcmp(zj_Stringify(v),"[2,3]"));CK(zj_ArrayDel(v,0));CK(!strcmp(zj_Stringify(v),"[3]"));''')
c('c08-parse-key','C08','parsing a new text into a member of an object',
 'a parse into a value that has a content clears the key of the value',
 [('''    *src_node = *v->N;
  }
  zj_Size index = 0;''','''    *src_node = *v->N;
    if (v->N->Father == 0 && v->N->Prev == 0 && v->N->Next == 0)
      v->N->Key = 0;
  }
  zj_Size index = 0;''')],
 r'''CK(zj_SetKey(v,"k"));CK(zj_Parse(v,"[1]"));CK(zj_GetKey(v)&&!strcmp(zj_GetKey(v),"k"));''')
BUGS['c08-parse-key']['needs']='giving a free value a key first and parsing its content afterwards'
c('c09-empty-shared','C09','copying a document with an empty string or an empty key and freeing or changing the source text',
 'texts of length zero are not copied; the copy points to where the source had its (empty) text',
 [('''      char *s = zj_allocatorAlloc(A, node->Len);
      zj_memCopy(node->Value.Str, node->Len, s);
      des_node->Value.Str = s;''','''      char *s = (char *)node->Value.Str;
      if (zj_LIKELY(node->Len != 1)) {
        s = zj_allocatorAlloc(A, node->Len);
        zj_memCopy(node->Value.Str, node->Len, s);
      }
      des_node->Value.Str = s;''')],
 r'''AL*b=zj_NewAllocator();V*s=zj_NewValue(b);CK(zj_Parse(s,"[\"x\",12,3]"));CK(zj_Set(v,s));zj_ReleaseAllocator(b);CK(!strcmp(zj_Stringify(v),"[\"x\",12,3]"));''',flags='-fsanitize=address -g')
BUGS['c09-empty-shared']['needs']='copying a document with a string or number of one character between allocators and releasing the source'
BUGS['c09-empty-shared']['breaks']='texts of one character are shared instead of copied'
BUGS['c09-one-char']=BUGS.pop('c09-empty-shared'); BUGS['c09-one-char']['id']='c09-one-char'
c('c10-same-pointer','C10','setting a string first by reference and then by copy from the same buffer',
 'a copying setter does nothing when the value already has the same text at the same address',
 [('''  char *s = zj_allocatorAlloc(v->A, len);
  zj_memCopy(str, len, s);
  if (zj_UNLIKELY(v->N == 0)) {
    v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
    v->N->Key = 0;
    v->N->Prev = 0;
    v->N->Father = 0;
    v->N->Next = 0;
  }
  v->N->Type = zj_JSONTypeString;
  v->N->Value.Str = s;
  v->N->Len = len;
  return true;
}

// 函数说明详见《API》
static inline bool zj_SetStrLen(''','''  if (v->N != 0 && v->N->Type == zj_JSONTypeString && v->N->Len == len &&
      v->N->Value.Str == str)
    return true;
  char *s = zj_allocatorAlloc(v->A, len);
  zj_memCopy(str, len, s);
  if (zj_UNLIKELY(v->N == 0)) {
    v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
    v->N->Key = 0;
    v->N->Prev = 0;
    v->N->Father = 0;
    v->N->Next = 0;
  }
  v->N->Type = zj_JSONTypeString;
  v->N->Value.Str = s;
  v->N->Len = len;
  return true;
}

// 函数说明详见《API》
static inline bool zj_SetStrLen(''')],
 r'''char b[8]="abc";CK(zj_SetStrFast(v,b));CK(zj_SetStr(v,b));strcpy(b,"xyz");CK(!strcmp(zj_GetStr(v),"abc"));''')
c('c10-own-text','C10','parsing a text that the library itself returned from the same allocator',
 'a copying parse does not copy a text that lies in the newest block of the allocator - which may be a text the caller is about to change... or another value\'s raw text',
 [('''static inline bool zj_ParseLen(zj_Value *v, const char *s, zj_Size len) {
  char *str = zj_allocatorAlloc(v->A, len + 1);''','''static inline bool zj_ParseLen(zj_Value *v, const char *s, zj_Size len) {
  const struct zj_aNode *block = v->A->End;
  if (zj_UNLIKELY(s >= block->Data && s < block->Data + block->Pos))
    return zj_ParseFast(v, s);
  char *str = zj_allocatorAlloc(v->A, len + 1);''')],
 r'''zj_Size n;CK(zj_Parse(v,"[\"12345\",6]"));const char*s=zj_GetStrFast(zj_ArrayGet(v,0),&n);CK(zj_ParseLen(w,s,2));CK(!strcmp(zj_Stringify(w),"12"));CK(zj_ParseLen(w,s,n));CK(!strcmp(zj_Stringify(w),"12345"));''')
BUGS['c10-own-text'].update(prop='C01',needs='a length-delimited parse of part of a text that the library returned from the same allocator',breaks='the copy is skipped for texts that lie in the newest block of the allocator, and with it the given length')
BUGS['c01-own-text']=BUGS.pop('c10-own-text'); BUGS['c01-own-text']['id']='c01-own-text'
c('c11-array-key','C11','parsing an array into memory that is not zero',
 'only the first element of an array gets an empty key; the others keep what the block contained',
 [('''    } else {
      node->Key = 0;
    }
    c = zj_peek(s, &index);''','''    } else if (node->Prev == 0) {
      node->Key = 0;
    }
    c = zj_peek(s, &index);''')],
 r'''zj_ReleaseAllocator(a);char*m=(char*)malloc(4200);memset(m,1,4200);free(m);for(int i=0;i<3;i++){a=zj_NewAllocator();memset(zj_allocatorAlloc(a,3500),1,3500);zj_ReleaseAllocator(a);}a=zj_NewAllocator();v=zj_NewValue(a);CK(zj_Parse(v,"[1,2]"));CK(zj_GetKey(zj_ArrayGet(v,1))==0);''')
c('c12-root-cache','C12','releasing an allocator that never grew, when one was released before',
 'the first block of the last released small allocator is kept for the next NewAllocator',
 [('''static inline zj_Allocator *zj_NewAllocator() {
  // 分配大块内存
  void *ptr = zj_new(sizeof(zj_Allocator) + sizeof(struct zj_aNode) +
                     zj_AllocatorInitMemSize);''','''static __thread void *zj_spare = 0;
static inline zj_Allocator *zj_NewAllocator() {
  // 分配大块内存
  void *ptr = zj_spare;
  zj_spare = 0;
  if (ptr == 0)
    ptr = zj_new(sizeof(zj_Allocator) + sizeof(struct zj_aNode) +
                 zj_AllocatorInitMemSize);'''),
  ('''  // 最后释放第一块内存
  zj_free((void *)alloc);''','''  // 最后释放第一块内存
  if (zj_spare == 0 && alloc->Root->Next == 0 && alloc->Root->Pos > 3000)
    zj_spare = alloc;
  else
    zj_free((void *)alloc);''')],
 r'''zj_allocatorAlloc(a,3500);zj_ReleaseAllocator(a);CK(AllocMemoryCount==FreeMemoryCount);a=zj_NewAllocator();''',flags='-Dzj_MEMORY_MODE=2')
c('c13-num-inplace','C13','changing a number through SetInt after the raw text of the old number was read',
 'SetInt overwrites the old digits when the new ones fit',
 [('''  char *num = zj_allocatorAlloc(v->A, 16);
  zj_Size len = zj_intToStr(n, num);''','''  char *num;
  if (v->N != 0 && v->N->Type == zj_JSONTypeNumber &&
      v->N->Value.Str > v->A->Root->Data &&
      v->N->Value.Str < v->A->Root->Data + v->A->Root->Pos && v->N->Len > 11)
    num = (char *)v->N->Value.Str;
  else
    num = zj_allocatorAlloc(v->A, 16);
  zj_Size len = zj_intToStr(n, num);''')],
 r'''zj_Size n;CK(zj_Parse(v,"1234567890123"));const char*s=zj_GetNumFast(v,&n);CK(zj_SetInt(v,42));CK(!memcmp(s,"1234567890123",13));''')
c('c14-type-count','C14','two threads that add elements at the same time',
 'a global counter of nodes, kept for statistics and used to size the next block',
 [('''// 追加一个大小为 init_size 的节点。
static inline void zj_allocatorAppendChild(zj_Allocator *alloc,
                                           zj_Size init_size) {''','''static zj_Size zj_appendedBlocks = 0;
// 追加一个大小为 init_size 的节点。
static inline void zj_allocatorAppendChild(zj_Allocator *alloc,
                                           zj_Size init_size) {
  ++zj_appendedBlocks;''')],
 r'''''')
BUGS['c14-type-count'].update(needs='two threads whose allocators grow at the same time',breaks='an unsynchronised global counter of blocks',
 demo=C_.replace('typedef','#include <pthread.h>\ntypedef',1)+r'''static void*run(void*p){for(int i=0;i<300;i++){AL*a=zj_NewAllocator();zj_allocatorAlloc(a,50000);zj_ReleaseAllocator(a);}return 0;}
int main(){pthread_t t[2];for(int i=0;i<2;i++)pthread_create(t+i,0,run,0);for(int i=0;i<2;i++)pthread_join(t[i],0);return 0;}''',flags='-fsanitize=thread -g',cc='clang')
BUGS['c14-block-count']=BUGS.pop('c14-type-count'); BUGS['c14-block-count']['id']='c14-block-count'
c('c15-delta-shift','C15','a growth factor other than two and a text that needs more than one growth step',
 'the growth loop of the string buffer doubles instead of using the configured factor, and the factor is applied once more afterwards... a factor of 3 with sizes that are not powers of two ends one step short',
 [('''    src_s *= zj_Delta;
    while (zj_UNLIKELY(str->Pos + size > src_s))
      src_s *= zj_Delta;
    const char *src_d = str->Data;''','''    src_s *= zj_Delta;
    if (zj_UNLIKELY(str->Pos + size > src_s)) {
      zj_Size steps = (str->Pos + size) / src_s;
      while (steps != 0) {
        src_s *= 2;
        steps >>= 1;
      }
      if (zj_Delta > 2)
        src_s = src_s / 4 * 3;
    }
    const char *src_d = str->Data;''')],
 r'''char*t=(char*)malloc(20000);for(int n=1;n<9000;n+=7){memset(t,'x',n+2);t[0]=t[n+1]='"';t[n+2]=0;CK(zj_Parse(v,t));CK(!strcmp(zj_Stringify(v),t));}free(t);''',flags='-Dzj_DELTA=3 '+ASAN.replace('address,',''))
BUGS['c15-delta-shift'].update(needs='a growth factor above two and one text that needs several growth steps',breaks='the new size of a string buffer is computed by halving and is too small for some lengths when the factor is not two',
 demo=BUGS['c15-delta-shift']['demo'].replace('char*t=','char*t='),flags='-Dzj_DELTA=3 -Dzj_ALLOCATOR_INIT_MEMSIZE=1 -fsanitize=address -g')
c('c15-size64','C15','a build with a 64-bit size type and a length-delimited lookup',
 'lengths are compared through int',
 [('''static inline zj_Size zj_hexCodePoint(const char c) {
  if (c >= '0' && c <= '9')''','''static inline zj_Size zj_hexCodePoint(const char c) {
  if (sizeof(zj_Size) > 4 && c == '`')
    return 9;
  if (c >= '0' && c <= '9')''')],
 r'''CK(!zj_Parse(v,"\"\\u00`0\""));''',flags='-Dzj_SIZE_TYPE=uint64_t')
BUGS['c15-size64'].update(needs='a build with a 64-bit size type and a backquote among the four hex digits',breaks='the hex digit table differs with the size type')
CPP='#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\n#define CK(x) do{if(!(x)){printf("failed: %s (line %d)\\n",#x,__LINE__);return 1;}}while(0)\n#include "zzzjson.hpp"\nusing namespace zzzjson;\n'
bug('c16-hpp-objget-null','C16','a lookup through the wrapper class of a key that is absent',
 'ObjGetLen of the wrapper compares one byte less when the key ends in a digit',
 [('''    zj::Value *v = zj::ObjGetLen(val, key, len);
    return innerNew(v);''','''    if (zj_UNLIKELY(len == 0))
      return 0;
    zj::Value *v = zj::ObjGetLen(val, key, len);
    return innerNew(v);''')],
 CPP+r'''int main(){Allocator a;Value*v=Value::NewValue(&a);CK(v->Parse("{\"a\":1,\"\":2}"));CK(v->ObjGet(""));CK(v->ObjGetLen("x",0));return 0;}''',cc='g++',ext='cpp',file='zzzjson.hpp')
BUGS['c16-hpp-objget-null'].update(needs='a length-delimited lookup of the empty key through the wrapper class',breaks='the wrapper answers it without asking the library')
bug('c16-hpp-newvalue','C16','a value made with the non-static NewValue of the wrapper class from a value that was moved away',
 'NewValue() hands out the value itself again when it is empty',
 [('''    zj::Value *v = zj::zj_NewValue(val->A);
    Value *ret = (''','''    zj::Value *v = val->N == 0 ? val : zj::zj_NewValue(val->A);
    Value *ret = (''')],
 CPP+r'''int main(){Allocator a;Value*v=Value::NewValue(&a);Value*w=v->NewValue();v->SetNull();CK(w->Type()==0);return 0;}''',cc='g++',ext='cpp',file='zzzjson.hpp')
bug('c16-short-objgetlen','C16','the short-name length-delimited lookup with a key that is followed by other bytes',
 'the short name ignores the length when a terminator follows somewhere',
 [('''static inline Value *ObjGetLen(const Value *v, const char *key, Size len) {
  return zj_ObjGetLen(v, key, len);
}''','''static inline Value *ObjGetLen(const Value *v, const char *key, Size len) {
  if (len != 0 && key[len - 1] == 0)
    --len;
  return zj_ObjGetLen(v, key, len);
}''')],
 C_.replace('typedef zj_Value V;typedef zj_Allocator AL;','')+r'''int main(){Allocator*a=NewAllocator();Value*v=NewValue(a);CK(Parse(v,"{\"a\":1}"));CK(ObjGetLen(v,"a",1));CK(!ObjGetLen(v,"a",2));ReleaseAllocator(a);return 0;}''')
BUGS['c16-short-objgetlen'].update(needs='the short-name length-delimited lookup with a length that includes the terminator',breaks='a trailing NUL is left out of the comparison in the short name only')
c('c19-check-twice','C19','setting a long string of escapes',
 'each escape measures the rest of the text',
 [('''        zj_Size cp = 0;
        if (zj_LIKELY(zj_consumeHex(s, &index, &cp))) {
          // 这里是UTF16标准''','''        zj_Size cp = 0;
        if (zj_UNLIKELY(zj_strLen(s + index) < 4))
          return false;
        if (zj_LIKELY(zj_consumeHex(s, &index, &cp))) {
          // 这里是UTF16标准''')],
 r'''#include <time.h>
''')
BUGS['c19-check-twice'].update(demo=C_.replace('typedef','#include <time.h>\ntypedef',1)+r'''static double run(int n){AL*a=zj_NewAllocator();V*v=zj_NewValue(a);char*t=(char*)malloc(6*n+1);for(int i=0;i<n;i++)memcpy(t+6*i,"\\u0041",6);t[6*n]=0;clock_t c=clock();zj_SetStr(v,t);c=clock()-c;free(t);zj_ReleaseAllocator(a);return (double)c/CLOCKS_PER_SEC;}
int main(){double s=run(20000),l=run(320000);printf("%g %g\n",s,l);return l>0.5&&l>s*100;}''',flags='-O1')
for i in ('c01-exp-guard','c04-pair-carry','c11-array-key','c12-root-cache'): BUGS.pop(i) # the repository's tests fail with these
