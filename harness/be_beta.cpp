// beta/zzzjson_beta.h. What the beta header does not have is emulated on top of it, so that
// the shared workloads can be used unchanged: integer reads are answered from the number's
// text, integer setters go through SetNumStr, escaping setters escape here and set the text.
#include "beta/zzzjson_beta.h"
#ifdef BETA_SHORT
#define z_ValueParseFast ParseFast
#define z_ValueParseLen ParseLen
#define z_ValueParse Parse
#define z_ValueStringify Stringify
#define z_ValueGetStringFast GetStringFast
#define z_ValueGetUnEscapeString GetUnEscapeString
#define z_ValueGetString GetString
#define z_ValueGetNumFast GetNumFast
#define z_ValueGetNumStr GetNumStr
#define z_ValueGetNum GetNum
#define z_ValueGetBool GetBool
#define z_ValueIsNull IsNull
#define z_ValueGetKey GetKey
#define z_ValueGetUnEscapeKey GetUnEscapeKey
#define z_ValueGetKeyFast GetKeyFast
#define z_ValueObjGet ObjGet
#define z_ValueObjGetLen ObjGetLen
#define z_ValueType Type
#define z_ValueSize Size
#define z_ValueArrayGet ArrayGet
#define z_ValueBegin Begin
#define z_ValueNext Next
#define z_ValueCopy Copy
#define z_ValueMove Move
#define z_ValueSetNull SetNull
#define z_ValueSetBool SetBool
#define z_ValueSetNumStrFast SetNumStrFast
#define z_ValueSetNumStrLenFast SetNumStrLenFast
#define z_ValueSetNumStr SetNumStr
#define z_ValueSetNumStrLen SetNumStrLen
#define z_ValueSetNum SetNum
#define z_ValueSetStrFast SetStrFast
#define z_ValueSetStrLenFast SetStrLenFast
#define z_ValueSetStr SetStr
#define z_ValueSetStrLen SetStrLen
#define z_ValueSetKeyFast SetKeyFast
#define z_ValueSetKeyLenFast SetKeyLenFast
#define z_ValueSetKey SetKey
#define z_ValueSetKeyLen SetKeyLen
#define z_ValueSetArray SetArray
#define z_ValueSetObj SetObj
#define z_ValueSetFast SetFast
#define z_ValueSet Set
#define z_ValueObjAddFast ObjAddFast
#define z_ValueObjAdd ObjAdd
#define z_ValueArrayAddFast ArrayAddFast
#define z_ValueArrayAdd ArrayAdd
#define z_ValueArrayDel ArrayDel
#define z_ValueObjDel ObjDel
#define z_ValueNew NewValue
#define z_AllocatorNew NewAllocator
#define z_AllocatorRelease ReleaseAllocator
#define z_SIZE SIZE
#define z_JSONType JSONType
#define z_True True
#define z_False False
#define z_JSONTypeBool JSONTypeBool
#define z_JSONTypeArray JSONTypeArray
#define z_JSONTypeObj JSONTypeObj
#define z_JSONTypeString JSONTypeString
#define z_JSONTypeNull JSONTypeNull
#define z_JSONTypeNum JSONTypeNum
#endif
typedef struct z_Value *VP;
// storage for the emulated integer reads, one list per thread (no lock that would order the
// threads); it stays valid until every allocator is gone
#include <atomic>
#include <deque>
#include <mutex>
#include <vector>
static std::mutex b_mx;
static std::vector<std::deque<long long> *> b_all;
static std::atomic<int> b_live{0}, b_threads{0};
static std::deque<long long> &b_store() {
  static thread_local std::deque<long long> *d = 0;
  if (!d) { d = new std::deque<long long>; std::lock_guard<std::mutex> g(b_mx); b_all.push_back(d); b_threads.fetch_add(1, std::memory_order_relaxed); }
  return *d;
}
static const char *b_num(void *v) { return z_ValueGetNumStr((VP)v); }
template <class T> static const T *b_keep(T x) {
  long long c = 0;
  memcpy(&c, &x, sizeof x);
  b_store().push_back(c);
  return (const T *)(const void *)&b_store().back();
}
static const int *bx_GetInt(void *v) { const char *s = b_num(v); return s ? b_keep((int)strtol(s, 0, 10)) : 0; }
static const long *bx_GetLong(void *v) { const char *s = b_num(v); return s ? b_keep(strtol(s, 0, 10)) : 0; }
static const long long *bx_GetLongLong(void *v) { const char *s = b_num(v); return s ? b_keep(strtoll(s, 0, 10)) : 0; }
static void *b_newAlloc() { b_live.fetch_add(1, std::memory_order_relaxed); return (void *)z_AllocatorNew(); }
static void b_relAlloc(void *a) { z_AllocatorRelease((struct z_Allocator *)a); if (b_live.fetch_sub(1, std::memory_order_relaxed) == 1 && b_threads.load(std::memory_order_relaxed) == 1) b_store().clear(); }
static bool bx_int(void *v, long long n) { char b[32]; snprintf(b, sizeof b, "%lld", n); return z_ValueSetNumStr((VP)v, b); }
static bool bx_esc(void *v, const char *s, size_t n, bool key) {
  char *o = new char[n * 6 + 1], *p = o; // (no std::string: MemorySanitizer does not see into libstdc++)
  for (size_t i = 0; i < n; i++) {
    unsigned char c = (unsigned char)s[i];
    if (c < 0x20) {
      *p++ = '\\'; *p++ = 'u'; *p++ = '0'; *p++ = '0';
      *p++ = "0123456789abcdef"[c >> 4];
      *p++ = "0123456789abcdef"[c & 15];
    } else {
      if (c == '"' || c == '\\') *p++ = '\\';
      *p++ = (char)c;
    }
  }
  *p = 0;
  bool ok = key ? z_ValueSetKey((VP)v, o) : z_ValueSetStr((VP)v, o);
  delete[] o;
  return ok;
}
static bool b_flag[2] = {false, true};
#define FLAVOUR "beta"
#define SZ z_SIZE
#define P(v) ((VP)(v))
#define C0(n, v) B0_##n(v)
#define C1(n, v, a) B1_##n(v, a)
#define C2(n, v, a, b) B2_##n(v, a, b)
#define VARG(v) (v)
#define SIZEOF(v) z_ValueSize(P(v))
#define RV(x) ((void *)(x))
#define NEWALLOC() b_newAlloc()
#define RELALLOC(a) b_relAlloc(a)
#define NEWVAL(a) z_ValueNew((struct z_Allocator *)(a))
#define TYPEPTR z_JSONType
#define TB z_JSONTypeBool
#define TA z_JSONTypeArray
#define TO z_JSONTypeObj
#define TS z_JSONTypeString
#define TN z_JSONTypeNull
#define TNUM z_JSONTypeNum
#define B1_ParseFast(v, s) z_ValueParseFast(P(v), s)
#define B2_ParseLen(v, s, n) z_ValueParseLen(P(v), s, n)
#define B1_Parse(v, s) z_ValueParse(P(v), s)
#define B0_Stringify(v) z_ValueStringify(P(v))
#define B1_GetStrFast(v, l) z_ValueGetStringFast(P(v), l)
#define B1_GetNumFast(v, l) z_ValueGetNumFast(P(v), l)
#define B1_GetKeyFast(v, l) z_ValueGetKeyFast(P(v), l)
#define B0_GetUnEscapeStr(v) z_ValueGetUnEscapeString(P(v))
#define B0_GetStr(v) z_ValueGetString(P(v))
#define B0_GetNumStr(v) z_ValueGetNumStr(P(v))
#define B0_GetKey(v) z_ValueGetKey(P(v))
#define B0_GetUnEscapeKey(v) z_ValueGetUnEscapeKey(P(v))
#define B0_GetNum(v) z_ValueGetNum(P(v))
#define B0_GetDouble(v) z_ValueGetNum(P(v))
#define B0_GetInt(v) bx_GetInt(v)
#define B0_GetLong(v) bx_GetLong(v)
#define B0_GetLongLong(v) bx_GetLongLong(v)
#define B0_GetBool(v) (z_ValueGetBool(P(v)) ? &b_flag[*z_ValueGetBool(P(v)) != z_False] : 0)
#define B0_IsNull(v) (z_ValueIsNull(P(v)) != z_False)
#define B1_ObjGet(v, k) z_ValueObjGet(P(v), k)
#define B2_ObjGetLen(v, k, n) z_ValueObjGetLen(P(v), k, n)
#define B0_Type(v) z_ValueType(P(v))
#define B1_ArrayGet(v, i) z_ValueArrayGet(P(v), i)
#define B0_Begin(v) z_ValueBegin(P(v))
#define B0_Next(v) z_ValueNext(P(v))
#define B0_Copy(v) z_ValueCopy(P(v))
#define B0_Move(v) z_ValueMove(P(v))
#define B0_SetNull(v) z_ValueSetNull(P(v))
#define B1_SetBool(v, b) z_ValueSetBool(P(v), b ? z_True : z_False)
#define B1_SetNumStrFast(v, s) z_ValueSetNumStrFast(P(v), s)
#define B2_SetNumStrLenFast(v, s, n) z_ValueSetNumStrLenFast(P(v), s, n)
#define B1_SetNumStr(v, s) z_ValueSetNumStr(P(v), s)
#define B2_SetNumStrLen(v, s, n) z_ValueSetNumStrLen(P(v), s, n)
#define B1_SetStrFast(v, s) z_ValueSetStrFast(P(v), s)
#define B2_SetStrLenFast(v, s, n) z_ValueSetStrLenFast(P(v), s, n)
#define B1_SetStr(v, s) z_ValueSetStr(P(v), s)
#define B2_SetStrLen(v, s, n) z_ValueSetStrLen(P(v), s, n)
#define B1_SetStrEscape(v, s) bx_esc(v, s, strlen(s), false)
#define B2_SetStrLenEscape(v, s, n) bx_esc(v, s, n, false)
#define B1_SetKeyFast(v, s) z_ValueSetKeyFast(P(v), s)
#define B2_SetKeyLenFast(v, s, n) z_ValueSetKeyLenFast(P(v), s, n)
#define B1_SetKey(v, s) z_ValueSetKey(P(v), s)
#define B2_SetKeyLen(v, s, n) z_ValueSetKeyLen(P(v), s, n)
#define B1_SetKeyEscape(v, s) bx_esc(v, s, strlen(s), true)
#define B2_SetKeyLenEscape(v, s, n) bx_esc(v, s, n, true)
#define B1_SetNum(v, d) z_ValueSetNum(P(v), d)
#define B1_SetDouble(v, d) z_ValueSetNum(P(v), d)
#define B1_SetInt(v, d) bx_int(v, d)
#define B1_SetLong(v, d) bx_int(v, d)
#define B1_SetLongLong(v, d) bx_int(v, d)
#define B0_SetArray(v) z_ValueSetArray(P(v))
#define B0_SetObj(v) z_ValueSetObj(P(v))
#define B1_SetFast(v, w) z_ValueSetFast(P(v), P(w))
#define B1_Set(v, w) z_ValueSet(P(v), P(w))
#define B1_ObjAddFast(v, w) z_ValueObjAddFast(P(v), P(w))
#define B1_ObjAdd(v, w) z_ValueObjAdd(P(v), P(w))
#define B1_ArrayAddFast(v, w) z_ValueArrayAddFast(P(v), P(w))
#define B1_ArrayAdd(v, w) z_ValueArrayAdd(P(v), P(w))
#define B1_ArrayDel(v, i) z_ValueArrayDel(P(v), i)
#define B1_ObjDel(v, k) z_ValueObjDel(P(v), k)
#include "be_table.inc"
