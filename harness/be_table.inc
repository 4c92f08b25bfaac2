// Wrapper bodies shared by all backends. The including file defines:
//   SZ                 size type of the flavour
//   C0(name,v) C1(name,v,a) C2(name,v,a,b)   call name on v
//   VARG(vv)           a value argument
//   SIZEOF             name of the size query
//   RV(x)              returned value pointer to void*
//   NEWALLOC() RELALLOC(a) NEWVAL(a)  and optionally NEWVALFROM(v)
//   TYPEPTR            type returned by Type
//   TB TA TO TS TN TNUM  the six enum constants
static void *w_NewAllocator(void) { return NEWALLOC(); }
static void w_ReleaseAllocator(void *a) { RELALLOC(a); }
static void *w_NewValue(void *a) { return RV(NEWVAL(a)); }
#ifdef NEWVALFROM
static void *w_NewValueFrom(void *v) { return RV(NEWVALFROM(v)); }
#endif
static bool w_ParseFast(void *v, const char *s) { return C1(ParseFast, v, s); }
static bool w_ParseLen(void *v, const char *s, size_t n) { return C2(ParseLen, v, s, (SZ)n); }
static bool w_Parse(void *v, const char *s) { return C1(Parse, v, s); }
static const char *w_Stringify(void *v) { return C0(Stringify, v); }
#define LENQ(name)                                                             \
  static const char *w_##name(void *v, size_t *len) {                          \
    SZ l = (SZ)12345;                                                          \
    const char *p = C1(name, v, &l);                                           \
    *len = l;                                                                  \
    return p;                                                                  \
  }
LENQ(GetStrFast)
LENQ(GetNumFast)
LENQ(GetKeyFast)
#define STRQ(name) static const char *w_##name(void *v) { return C0(name, v); }
STRQ(GetUnEscapeStr)
STRQ(GetStr)
STRQ(GetNumStr)
STRQ(GetKey)
STRQ(GetUnEscapeKey)
static const double *w_GetNum(void *v) { return C0(GetNum, v); }
static const double *w_GetDouble(void *v) { return C0(GetDouble, v); }
static const int *w_GetInt(void *v) { return C0(GetInt, v); }
static const long *w_GetLong(void *v) { return C0(GetLong, v); }
static const long long *w_GetLongLong(void *v) { return C0(GetLongLong, v); }
static const bool *w_GetBool(void *v) { return C0(GetBool, v); }
static bool w_IsNull(void *v) { return C0(IsNull, v); }
static void *w_ObjGet(void *v, const char *k) { return RV(C1(ObjGet, v, k)); }
static void *w_ObjGetLen(void *v, const char *k, size_t n) { return RV(C2(ObjGetLen, v, k, (SZ)n)); }
static int w_Type(void *v, const void **raw) {
  const TYPEPTR *t = C0(Type, v);
  *raw = (const void *)t;
  if (t == 0)
    return 0;
  if (*t == TB) return T_BOOL;
  if (*t == TA) return T_ARRAY;
  if (*t == TO) return T_OBJECT;
  if (*t == TS) return T_STRING;
  if (*t == TN) return T_NULL;
  if (*t == TNUM) return T_NUMBER;
  return -1;
}
static size_t w_SizeOf(void *v) { return SIZEOF(v); }
static void *w_ArrayGet(void *v, size_t i) { return RV(C1(ArrayGet, v, (SZ)i)); }
static void *w_Begin(void *v) { return RV(C0(Begin, v)); }
static void *w_Next(void *v) { return RV(C0(Next, v)); }
static void *w_Copy(void *v) { return RV(C0(Copy, v)); }
static bool w_Move(void *v) { return C0(Move, v); }
static void w_SetNull(void *v) { C0(SetNull, v); }
static void w_SetBool(void *v, bool b) { C1(SetBool, v, b); }
#define SETS(name) static bool w_##name(void *v, const char *s) { return C1(name, v, s); }
#define SETL(name) static bool w_##name(void *v, const char *s, size_t n) { return C2(name, v, s, (SZ)n); }
SETS(SetNumStrFast) SETL(SetNumStrLenFast) SETS(SetNumStr) SETL(SetNumStrLen)
SETS(SetStrFast) SETL(SetStrLenFast) SETS(SetStr) SETL(SetStrLen)
SETS(SetStrEscape) SETL(SetStrLenEscape)
SETS(SetKeyFast) SETL(SetKeyLenFast) SETS(SetKey) SETL(SetKeyLen)
SETS(SetKeyEscape) SETL(SetKeyLenEscape)
static bool w_SetNum(void *v, double d) { return C1(SetNum, v, d); }
static bool w_SetDouble(void *v, double d) { return C1(SetDouble, v, d); }
static bool w_SetInt(void *v, int d) { return C1(SetInt, v, d); }
static bool w_SetLong(void *v, long d) { return C1(SetLong, v, d); }
static bool w_SetLongLong(void *v, long long d) { return C1(SetLongLong, v, d); }
static void w_SetArray(void *v) { C0(SetArray, v); }
static void w_SetObj(void *v) { C0(SetObj, v); }
static bool w_SetFast(void *v, void *vv) { return C1(SetFast, v, VARG(vv)); }
static bool w_Set(void *v, void *vv) { return C1(Set, v, VARG(vv)); }
static bool w_ObjAddFast(void *v, void *vv) { return C1(ObjAddFast, v, VARG(vv)); }
static bool w_ObjAdd(void *v, void *vv) { return C1(ObjAdd, v, VARG(vv)); }
static bool w_ArrayAddFast(void *v, void *vv) { return C1(ArrayAddFast, v, VARG(vv)); }
static bool w_ArrayAdd(void *v, void *vv) { return C1(ArrayAdd, v, VARG(vv)); }
static bool w_ArrayDel(void *v, size_t i) { return C1(ArrayDel, v, (SZ)i); }
static bool w_ObjDel(void *v, const char *k) { return C1(ObjDel, v, k); }
#if (defined(zj_MEMORY_MODE) && zj_MEMORY_MODE == 2 && !defined(__cplusplus)) || (defined(z_MEMORY_MODE) && z_MEMORY_MODE == 2)
#define VF_COUNTING
static void w_Counters(unsigned long long out[3]) { out[0] = AllocMemorySize, out[1] = AllocMemoryCount, out[2] = FreeMemoryCount; }
#endif

#ifdef __cplusplus
extern "C"
#endif
const zapi *zapi_get(void) {
  static const zapi t = {
      FLAVOUR, (size_t)(SZ)-1, w_NewAllocator, w_ReleaseAllocator, w_NewValue,
#ifdef NEWVALFROM
      w_NewValueFrom,
#else
      0,
#endif
      w_ParseFast, w_ParseLen, w_Parse, w_Stringify, w_GetStrFast, w_GetUnEscapeStr,
      w_GetStr, w_GetNumFast, w_GetNumStr, w_GetNum, w_GetDouble, w_GetInt, w_GetLong,
      w_GetLongLong, w_GetBool, w_IsNull, w_GetKey, w_GetUnEscapeKey, w_GetKeyFast,
      w_ObjGet, w_ObjGetLen, w_Type, w_SizeOf, w_ArrayGet, w_Begin, w_Next, w_Copy,
      w_Move, w_SetNull, w_SetBool, w_SetNumStrFast, w_SetNumStrLenFast, w_SetNumStr,
      w_SetNumStrLen, w_SetNum, w_SetDouble, w_SetInt, w_SetLong, w_SetLongLong,
      w_SetStrFast, w_SetStrLenFast, w_SetStr, w_SetStrLen, w_SetStrEscape,
      w_SetStrLenEscape, w_SetKeyFast, w_SetKeyLenFast, w_SetKey, w_SetKeyLen,
      w_SetKeyEscape, w_SetKeyLenEscape, w_SetArray, w_SetObj, w_SetFast, w_Set,
      w_ObjAddFast, w_ObjAdd, w_ArrayAddFast, w_ArrayAdd, w_ArrayDel, w_ObjDel,
#ifdef VF_COUNTING
      w_Counters
#else
      0
#endif
  };
  return &t;
}
