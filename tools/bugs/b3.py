from lib import *
C_='#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\n#include <stdint.h>\n#include "zzzjson.h"\n#define CK(x) do{if(!(x)){printf("failed: %s (line %d)\\n",#x,__LINE__);return 1;}}while(0)\n'
B_='#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\n#include <stdint.h>\n#include "beta/zzzjson_beta.h"\n#define CK(x) do{if(!(x)){printf("failed: %s (line %d)\\n",#x,__LINE__);return 1;}}while(0)\n#define S(v) z_ValueStringify(v)\ntypedef struct z_Value V;typedef struct z_Allocator AL;\n'
def beta(id,prop,needs,breaks,edits,demo,flags=''):
    bug(id,prop,needs,breaks,edits,B_+'int main(){AL*a=z_AllocatorNew();V*v=z_ValueNew(a),*w=z_ValueNew(a);'+demo+'z_AllocatorRelease(a);return 0;}',flags,cc='clang++',ext='cpp',file='beta/zzzjson_beta.h')
ASAN='-fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=all -g'
beta('c20-setobj-len','C20','making an object of a value that already held a non-empty object',
 'SetObj trusts the length of a value that is an object already',
 [('''  v->N->Type = z_JSONTYPEOBJ;
  v->N->Value.Node = 0;
  v->N->Len = 0;
  return;''','''  if (v->N->Type != z_JSONTYPEOBJ)
    v->N->Len = 0;
  v->N->Type = z_JSONTYPEOBJ;
  v->N->Value.Node = 0;
  return;''')],
 r'''CK(z_ValueParse(v,"{\"a\":1}"));z_ValueSetObj(v);CK(z_ValueSize(v)==0);CK(!strcmp(S(v),"{}"));''')
beta('c20-keylen-array','C20','the length-delimited copying key setter on an array element',
 'one of the four key setters no longer refuses an element of an array',
 [('''  } else if (v->N->Father != 0 &&
             z_UNLIKELY(v->N->Father->Type != z_JSONTYPEOBJ)) {
    return z_False;
  }
  char *s = z_AllocatorAlloc(v->A, len);
  z_Copy(key, len, s);
  v->N->Key = s;
  v->N->KeyLen = len;
  return z_True;
}

// 函数说明详见《API》
static inline void z_ValueSetArray''','''  }
  char *s = z_AllocatorAlloc(v->A, len);
  z_Copy(key, len, s);
  v->N->Key = s;
  v->N->KeyLen = len;
  return z_True;
}

// 函数说明详见《API》
static inline void z_ValueSetArray''')],
 r'''CK(z_ValueParse(v,"[1,2]"));w=z_ValueArrayGet(v,1);CK(!z_ValueSetKeyLen(w,"k",1));CK(!strcmp(S(v),"[1,2]"));''')
beta('c20-setfast-father','C20','SetFast of a container onto a non-empty value, then deleting a child other than the first',
 'only the first child learns its new parent',
 [('''  v->N->Value = vv->N->Value;
  v->N->Len = vv->N->Len;
  if (v->N->Type == z_JSONTYPEARRAY || v->N->Type == z_JSONTYPEOBJ) {
    v->N->End = vv->N->End;
    struct z_Node *next = v->N->Value.Node;
    while (z_LIKELY(next != 0)) {
      next->Father = v->N;
      next = next->Next;
    }''','''  v->N->Value = vv->N->Value;
  v->N->Len = vv->N->Len;
  if (v->N->Type == z_JSONTYPEARRAY || v->N->Type == z_JSONTYPEOBJ) {
    v->N->End = vv->N->End;
    struct z_Node *next = v->N->Value.Node;
    if (z_LIKELY(next != 0)) {
      next->Father = v->N;
    }''')],
 r'''CK(z_ValueParse(v,"null"));CK(z_ValueParse(w,"[1,2,3]"));CK(z_ValueSetFast(v,w));CK(z_ValueArrayDel(v,1));CK(z_ValueSize(v)==2);CK(!strcmp(S(v),"[1,3]"));''')
beta('c20-minus-zeros','C20','setting the number text -00 or similar',
 'leading zeros are skipped behind a minus sign',
 [('''  z_BOOL minus = z_Consume('-', s, &index);

  if (z_UnLikelyConsume('0', s, &index)) {
  } else if (z_LIKELY(z_LIKELY(s[index] >= '1') && z_LIKELY(s[index] <= '9'))) {
    char c = s[++index];
    while (z_LIKELY(z_LIKELY(c >= '0') && z_LIKELY(c <= '9'))) {
      c = s[++index];
    }
  } else {
    return z_False;
  }

  if (z_Consume('.', s, &index)) {
    char c = s[index];
    if ((z_LIKELY(c >= '0') && z_LIKELY(c <= '9'))) {
      c = s[++index];
      while (z_LIKELY(z_LIKELY(c >= '0') && z_LIKELY(c <= '9'))) {
        c = s[++index];
      }
    } else {
      return z_False;
    }
  }

  if (s[index] == 'e' || s[index] == 'E') {
    char c = s[++index];
    if (c == '-') {
      ++index;
    } else if (c == '+') {
      ++index;
    }
    c = s[index];
    if (z_LIKELY(z_LIKELY(c >= '0') && z_LIKELY(c <= '9'))) {
      c = s[++index];
      while (z_LIKELY(z_LIKELY(c >= '0') && z_LIKELY(c <= '9'))) {
        c = s[++index];
      }
    } else {
      return z_False;
    }
  }
  *len = index;''','''  z_BOOL minus = z_Consume('-', s, &index);

  if (z_UnLikelyConsume('0', s, &index)) {
    while (minus && s[index] == '0')
      ++index;
  } else if (z_LIKELY(z_LIKELY(s[index] >= '1') && z_LIKELY(s[index] <= '9'))) {
    char c = s[++index];
    while (z_LIKELY(z_LIKELY(c >= '0') && z_LIKELY(c <= '9'))) {
      c = s[++index];
    }
  } else {
    return z_False;
  }

  if (z_Consume('.', s, &index)) {
    char c = s[index];
    if ((z_LIKELY(c >= '0') && z_LIKELY(c <= '9'))) {
      c = s[++index];
      while (z_LIKELY(z_LIKELY(c >= '0') && z_LIKELY(c <= '9'))) {
        c = s[++index];
      }
    } else {
      return z_False;
    }
  }

  if (s[index] == 'e' || s[index] == 'E') {
    char c = s[++index];
    if (c == '-') {
      ++index;
    } else if (c == '+') {
      ++index;
    }
    c = s[index];
    if (z_LIKELY(z_LIKELY(c >= '0') && z_LIKELY(c <= '9'))) {
      c = s[++index];
      while (z_LIKELY(z_LIKELY(c >= '0') && z_LIKELY(c <= '9'))) {
        c = s[++index];
      }
    } else {
      return z_False;
    }
  }
  *len = index;''')],
 r'''CK(z_ValueSetNumStr(v,"-0"));CK(!z_ValueSetNumStr(v,"-00.5"));CK(!z_ValueSetNumStr(v,"00"));''')
beta('c20-setnum-digits','C20','setting a double that needs 17 significant digits',
 'numbers are stored with 16 significant digits',
 [('sprintf(buff, "%.17g", d);','sprintf(buff, "%.16g", d);')],
 r'''CK(z_ValueSetNum(v,0.1+0.2));CK(*z_ValueGetNum(v)==0.1+0.2);CK(z_ValueSetNum(v,0.5));''')
beta('c20-copy-key','C20','a key set from the caller\'s buffer without copying, the value copied, the buffer changed',
 'a copy shares the key text of its source',
 [('''      char *k = z_AllocatorAlloc(A, node->KeyLen);
      z_Copy(node->Key, node->KeyLen, k);
      des_node->Key = k;''','''      des_node->Key = node->Key;''')],
 r'''char k[]="key";z_ValueSetNull(v);CK(z_ValueSetKeyFast(v,k));CK(z_ValueParse(w,"{}"));CK(z_ValueObjAdd(w,v));k[0]='X';CK(!strcmp(S(w),"{\"key\":null}"));''')
beta('c20-objadd-tail','C20','adding a copy to an object that has exactly one member and deleting that copy again',
 'ObjAdd forgets the back link of the second member, so deleting that member later cuts off the list',
 [('''    v->N->End->Next = cp->N;
    cp->N->Prev = v->N->End;
    v->N->End = cp->N;
    ++v->N->Len;
  }
  return z_True;
}

// 函数说明详见《API》
static inline z_BOOL z_ValueArrayAddFast''','''    v->N->End->Next = cp->N;
    if (z_LIKELY(v->N->Len > 1))
      cp->N->Prev = v->N->End;
    v->N->End = cp->N;
    ++v->N->Len;
  }
  return z_True;
}

// 函数说明详见《API》
static inline z_BOOL z_ValueArrayAddFast''')],
 r'''CK(z_ValueParse(v,"{\"a\":1}"));CK(z_ValueParse(w,"{\"b\":2}"));CK(z_ValueObjAdd(v,z_ValueBegin(w)));CK(z_ValueObjDel(v,"b"));CK(!strcmp(S(v),"{\"a\":1}"));''')
beta('c20-refuse-restore','C20','a failed parse of an object text whose colon is missing, into a value that had content',
 'one failure exit of the parser does not put the old content back',
 [('''          if (z_LIKELY(src_node == 0))
            v->N = src_node;
          else
            *v->N = *src_node;
          return z_False;
        }
      }
    }
  }''','''          if (z_LIKELY(src_node == 0))
            v->N = src_node;
          return z_False;
        }
      }
    }
  }''')],
 r'''CK(z_ValueParse(v,"[1]"));CK(!z_ValueParse(v,"[2,3"));CK(!strcmp(S(v),"[1]"));''')
beta('c21-setnum-buffer','C21','setting a negative double with 17 digits and a three-digit exponent, followed by another allocation',
 'the text buffer of SetNum is one byte short for the longest numbers',
 [('char *buff = z_AllocatorAlloc(v->A, 32);','char *buff = z_AllocatorAlloc(v->A, 24);')],
 r'''static char pad[5000];for(int n=1;n<4200;n++){AL*b=z_AllocatorNew();V*s=z_ValueNew(b),*q=z_ValueNew(b);memset(pad,'x',n);pad[n]=0;CK(z_ValueSetStr(s,pad));z_ValueSetNull(q);CK(z_ValueSetNum(q,-1.2345678901234567e-300));z_AllocatorRelease(b);}''',flags='-fsanitize=address -g')
beta('c21-getnum-static','C21','keeping the result of a number read while another number is read',
 'the number is returned in a static variable',
 [('''  double *d = (double *)z_AllocatorAlloc(v->A, sizeof(d) / sizeof(char));
  *d = z_StrToDouble(z_ValueGetNumStr(v));''','''  static double nums[64];
  static unsigned int pos = 0;
  double *d = &nums[pos++ % 64];
  *d = z_StrToDouble(z_ValueGetNumStr(v));''')],
 r'''CK(z_ValueParse(v,"1.5"));const double*p=z_ValueGetNum(v);CK(z_ValueParse(w,"2"));for(int i=0;i<100;i++)z_ValueGetNum(w);CK(*p==1.5);''')
beta('c21-release-end','C21','releasing an allocator that grew by more than two blocks',
 'the walk over the blocks stops before the last one',
 [('''  while (z_LIKELY(next != 0)) {
    struct z_ANode *nn = next->Next;
    z_Free((void *)next);
    next = nn;
  }
  // 最后''','''  while (z_LIKELY(next != 0)) {
    struct z_ANode *nn = next->Next;
    z_Free((void *)next);
    next = nn;
    if (nn == alloc->End && nn != 0 && nn->Pos == 0)
      break;
  }
  // 最后''')],'','')
beta('c21-string-double','C21','serializing when one token is longer than the growth of the buffer',
 'the buffer of the serializer grows once where it may have to grow several times',
 [('''    while (z_UNLIKELY(str->Pos + size > src_s))
      src_s *= z_Delta;
    const char *src_d = str->Data;''','''    if (z_UNLIKELY(str->Pos + size > src_s * z_Delta))
      src_s = str->Pos + size;
    const char *src_d = str->Data;''')],
 r'''static char t[5000];t[0]='"';memset(t+1,'a',3000);t[3001]='"';CK(z_ValueParse(v,t));CK(!strcmp(S(v),t));''',ASAN)
beta('c21-alloc-exact','C21','a request that is larger than the doubled block',
 'a block made for one large request is one node header too small',
 [('''    while (z_UNLIKELY(size > s))
      s *= z_Delta;
    z_AllocatorAppendChild''','''    if (z_UNLIKELY(size > s * z_Delta))
      s = size - sizeof(struct z_ANode) / 4;
    while (z_UNLIKELY(size > s + sizeof(struct z_ANode)))
      s *= z_Delta;
    z_AllocatorAppendChild''')],
 r'''static char t[70000];t[0]='"';memset(t+1,'a',65000);t[65001]='"';CK(z_ValueParse(v,t));CK(!strcmp(S(v),t));''',ASAN)
BUGS.pop('c21-release-end')
