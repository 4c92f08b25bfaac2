from lib import *
from b4 import c, C_, ASAN
from b3 import beta, B_
import b7
D0='''  char buff[128];
  char *s = zj_numToCStr(str, len, buff, sizeof(buff));
  double ret = atof(s);'''
P10='1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22, 1e23'
def fast(cond, cap='''if (x < 100000)
          '''):
    return '''  unsigned long long m = 0;
  zj_Size i = 0, digits = 0;
  int e = 0;
  static const double pow10[] = {%s};
  if (str[0] == '-')
    ++i;
  for (; i < len && str[i] >= '0' && str[i] <= '9'; ++i, ++digits)
    m = m * 10 + (unsigned)(str[i] - '0');
  if (i < len && str[i] == '.')
    for (++i; i < len && str[i] >= '0' && str[i] <= '9'; ++i, ++digits, --e)
      m = m * 10 + (unsigned)(str[i] - '0');
  if (i < len) {
    unsigned x = 0;
    bool minus = str[++i] == '-';
    if (minus || str[i] == '+')
      ++i;
    for (; i < len; ++i)
      %sx = x * 10 + (unsigned)(str[i] - '0');
    e += minus ? -(int)x : (int)x;
  }
  if (%s) {
    double r = (double)m;
    r = e < 0 ? r / pow10[-e] : r * pow10[e];
    return str[0] == '-' ? -r : r;
  }
'''%(P10,cap,cond)+D0
NUM='''{const char*t[]={%s};int i;for(i=0;i<(int)(sizeof t/sizeof*t);i++){CK(zj_Parse(v,t[i]));double d=*zj_GetDouble(v),r=strtod(t[i],0);CK(memcmp(&d,&r,8)==0);}}'''
c('c05-fast-2p54','C05','16 or 17 significant digits between 2^53 and 2^54 with a small power of ten',
 'the shortcut for exact products accepts mantissas a double cannot hold',
 [(D0,fast('digits <= 19 && m <= (1ull << 54) && e >= -22 && e <= 22'))],
 r'''{unsigned long long m;char t[64];for(m=9007199254740993ull;m<9007199254745993ull;m+=2){int k;for(k=-5;k<6;k++){sprintf(t,"%llue%d",m,k);CK(zj_Parse(v,t));double d=*zj_GetDouble(v),r=strtod(t,0);CK(d==r);}}}''')
c('c05-fast23','C05','up to 15 digits and an exponent of exactly 23',
 'the shortcut for exact products uses one power of ten too many',
 [(D0,fast('digits <= 19 && m <= (1ull << 53) && e >= -22 && e <= 23'))],
 r'''{int m;char t[64];for(m=1;m<3000;m++){sprintf(t,"%de23",m);CK(zj_Parse(v,t));double d=*zj_GetDouble(v),r=strtod(t,0);CK(d==r);}}''')
c('c05-exp-wrap','C05','an exponent near a multiple of 2^32',
 'the exponent is read into 32 bits',
 [(D0,fast('digits <= 19 && m <= (1ull << 53) && e >= -22 && e <= 22',''))],
 NUM%'"1e4294967297","1.5e-4294967297"')
c('c05-wrap20','C05','a 20-digit number just above a multiple of 2^64',
 'twenty digits are taken for a mantissa of 64 bits',
 [(D0,fast('digits <= 20 && m <= (1ull << 53) && e >= -22 && e <= 22'))],
 NUM%'"36893488147419103233","18446744073709551615","55340232221128654848"')
c('c05-short-print','C05','SetDouble of a very small normal or denormal number',
 'fifteen digits are kept when they are near enough, measured absolutely',
 [('''  // double最大精度是17，使用sprintf转出字符串，%.17g，最大长度不超过32
  return snprintf(buff, 32, "%.17g", n);''','''  // double最大精度是17，使用sprintf转出字符串，%.17g，最大长度不超过32
  zj_Size len = snprintf(buff, 32, "%.15g", n);
  double diff = atof(buff) - n;
  if (diff > -1e-307 && diff < 1e-307)
    return len;
  return snprintf(buff, 32, "%.17g", n);''')],
 r'''double d[]={0.1,1.0/3,1e300/3,1e-300/3,4.9406564584124654e-324*12345678901234567.0};int i;for(i=0;i<5;i++){CK(zj_SetDouble(v,d[i]));CK(*zj_GetDouble(v)==d[i]);}''')
c('c04-unescape-memo','C04','decoding a string, releasing the allocator, and decoding a string of the same length that comes to lie at the same address',
 'the last decoded string of a thread is remembered by address and length',
 [('''  char *ret_str = zj_allocatorAlloc(v->A, v->N->Len + 1);
  zj_unEscapeStr(v->N->Value.Str, v->N->Len, ret_str);
  return ret_str;''','''  static __thread const char *last;
  static __thread zj_Size last_len;
  static __thread char *last_str;
  static __thread zj_Allocator *last_alloc;
  if (last == v->N->Value.Str && last_len == v->N->Len && last_alloc == v->A)
    return last_str;
  char *ret_str = zj_allocatorAlloc(v->A, v->N->Len + 1);
  zj_unEscapeStr(v->N->Value.Str, v->N->Len, ret_str);
  last = v->N->Value.Str;
  last_len = v->N->Len;
  last_alloc = v->A;
  last_str = ret_str;
  return ret_str;''',1)],
 r'''CK(zj_SetStr(v,"abc\\n"));CK(!strcmp(zj_GetUnEscapeStr(v),"abc\n"));int i;for(i=0;i<50;i++){AL*b=zj_NewAllocator();V*y=zj_NewValue(b);char t[8];sprintf(t,"a%02d\\t",i);CK(zj_SetStr(y,t));sprintf(t,"a%02d\t",i);CK(!strcmp(zj_GetUnEscapeStr(y),t));zj_ReleaseAllocator(b);}''')
b=BUGS['c08-index-memo']; b['needs']='indexed access, an earlier element moved out through a handle from iteration, an append, and the same index again'
b['demo']=b['demo'].replace('CK(zj_ArrayDel(v,1));zj_SetNull(w);','CK(zj_Move(zj_Next(zj_Begin(v))));zj_SetNull(w);')
b=BUGS['c19-string-linear']
b['edits']=b['edits']+[('''  if (zj_UNLIKELY(str->Pos + 1 > src_s)) {
    src_s *= zj_Delta;''','''  if (zj_UNLIKELY(str->Pos + 1 > src_s)) {
    src_s += src_s < 65536 ? src_s : 4096;''')]
c('c14-pow-table','C14','two threads whose first double read happens at the same time',
 'a table of powers of ten is filled on first use',
 [(D0,'''  static double pow10[16];
  if (pow10[0] != 1) {
    int k;
    for (k = 15; k >= 0; --k)
      pow10[k] = k == 15 ? 1e15 : pow10[k + 1] / 10;
  }
  if (len == 2 && str[0] >= '1' && str[0] <= '9' && str[1] == '0')
    return (str[0] - '0') * pow10[1];
'''+D0)],'')
BUGS['c14-pow-table']['demo']=r'''#include <pthread.h>
#include <stdio.h>
#include "zzzjson.h"
static pthread_barrier_t B;
static void *run(void *p) {
  zj_Allocator *a = zj_NewAllocator();
  zj_Value *v = zj_NewValue(a);
  pthread_barrier_wait(&B);
  if (!zj_Parse(v, "[1.5,20]") || *zj_GetDouble(zj_ArrayGet(v, 1)) != 20) *(int *)p = 1;
  zj_ReleaseAllocator(a);
  return 0;
}
int main() {
  int bad = 0, b2 = 0;
  pthread_t t, u;
  pthread_barrier_init(&B, 0, 2);
  pthread_create(&t, 0, run, &bad);
  pthread_create(&u, 0, run, &b2);
  pthread_join(t, 0);
  pthread_join(u, 0);
  return bad | b2;
}
'''
BUGS['c14-pow-table']['flags']='-fsanitize=thread -g'
c('c10-share-long','C10','a copy within one allocator of a value parsed in place whose text is at least 64 bytes; the original is overwritten and its buffer reused',
 'copies within one allocator share long texts instead of copying them',
 [('''      char *s = zj_allocatorAlloc(A, node->Len);
      zj_memCopy(node->Value.Str, node->Len, s);
      des_node->Value.Str = s;
      des_node->Len = node->Len;
    } break;
    }
    while (zj_LIKELY(node != vv->N)) {''','''      if (A == vv->A && node->Len >= 64) {
        des_node->Value.Str = node->Value.Str;
        des_node->Len = node->Len;
        break;
      }
      char *s = zj_allocatorAlloc(A, node->Len);
      zj_memCopy(node->Value.Str, node->Len, s);
      des_node->Value.Str = s;
      des_node->Len = node->Len;
    } break;
    }
    while (zj_LIKELY(node != vv->N)) {''')],
 r'''char t[200];memset(t,'x',100);t[0]='"';t[99]='"';t[100]=0;CK(zj_ParseFast(v,t));V*y=zj_Copy(v);zj_SetNull(v);memset(t,'?',100);CK(zj_GetStr(y)[5]=='x');''')
c('c03-keylen-byte','C03','a lookup by length with a key whose length differs by a multiple of 256 from that of a member with the same beginning',
 'the lengths are compared as bytes',
 [('''                                    zj_Size b_len) {
  if (zj_LIKELY(a_len != b_len)) {''','''                                    zj_Size b_len) {
  if (zj_LIKELY((uint8_t)a_len != (uint8_t)b_len)) {''')],
 r'''char t[400];memset(t,'k',sizeof t);memcpy(t,"{\"",2);memcpy(t+2+300,"\":1}",5);CK(zj_Parse(v,t));char k[400];memset(k,'k',400);CK(zj_ObjGetLen(v,k,300));CK(!zj_ObjGetLen(v,k,44));CK(!zj_ObjGetLen(v,k,299));''')
bug('c16-hpp-copy','C16','Copy of an empty value through the wrapper',
 'a failed copy is wrapped instead of returned as no value',
 [('''  Value *Copy() {
    zj::Value *v = zj::Copy(val);
    return innerNew(v);
  }''','''  Value *Copy() {
    zj::Value *v = zj::Copy(val);
    return innerNew(v != 0 ? v : zj::zj_NewValue(val->A));
  }''')],
 '#include "zzzjson.hpp"\nusing namespace zzzjson;int main(){Allocator a;Value*v=Value::NewValue(&a);return v->Copy()!=0;}',cc='g++',ext='cpp',file='zzzjson.hpp')
