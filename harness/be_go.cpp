// The Go binding (zzzjson.go), linked in as a C archive. The binding has fewer calls than
// the C API: length-delimited and "Fast" variants go to the one Go method there is, double
// and integer reads are answered from the number's text.
#include "zapi.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <string>
typedef uintptr_t H;
extern "C" {
H vfgo_NewAllocator();
int vfgo_ReleaseAllocator(H);
H vfgo_NewValue(H);
char *vfgo_Stringify(H);
char *vfgo_GetKey(H);
char *vfgo_GetUnEscapeKey(H);
char *vfgo_GetStr(H);
char *vfgo_GetUnEscapeStr(H);
char *vfgo_GetNum(H);
int vfgo_GetBool(H);
int vfgo_IsNull(H);
int vfgo_Type(H);
H vfgo_ObjGet(H, const char *, size_t);
H vfgo_ArrayGet(H, size_t);
size_t vfgo_Size(H);
H vfgo_Begin(H);
H vfgo_Next(H);
H vfgo_Copy(H);
int vfgo_Move(H);
void vfgo_SetNull(H);
void vfgo_SetBool(H, int);
int vfgo_Parse(H, const char *, size_t);
int vfgo_SetNumStr(H, const char *, size_t);
int vfgo_SetStr(H, const char *, size_t);
int vfgo_SetStrEscape(H, const char *, size_t);
int vfgo_SetKey(H, const char *, size_t);
int vfgo_SetKeyEscape(H, const char *, size_t);
void vfgo_SetArray(H);
void vfgo_SetObj(H);
int vfgo_Set(H, H);
int vfgo_SetFast(H, H);
int vfgo_ObjAdd(H, H);
int vfgo_ObjAddFast(H, H);
int vfgo_ArrayAdd(H, H);
int vfgo_ArrayAddFast(H, H);
int vfgo_ObjDel(H, const char *, size_t);
int vfgo_ArrayDel(H, size_t);
static std::deque<std::string> strs;
static std::deque<long long> nums;
// a Go result is the caller's own: it reads the same whatever is called afterwards, release included
int vfgo_same(const void *a, const void *b, size_t n) { return n == 0 || memcmp(a, b, n) == 0; }
void vfgo_stale(int what) {
  static const char *const t[] = {"a string returned by the Go binding changed after later calls", "a bool returned by the Go binding changed after later calls",
                                  "a type returned by the Go binding changed after later calls", "a string passed to the Go binding changed"};
  vf_error(t[what & 3]);
}
char *vfgo_store(void *p, size_t n) {
  strs.emplace_back((const char *)p ? (const char *)p : "", n);
  return (char *)strs.back().c_str();
}
}
#define P(v) ((H)(v))
template <class T> static const T *keepNum(T x) {
  long long c = 0;
  memcpy(&c, &x, sizeof x);
  nums.push_back(c);
  return (const T *)(const void *)&nums.back();
}
static bool nul(const char *s, size_t n) { return memchr(s, 0, n) != 0; }
static std::string escaped(const char *s, size_t n) { // only for arguments with NUL bytes, which the binding excludes
  std::string o;
  char b[8];
  for (size_t i = 0; i < n; i++) {
    unsigned char c = (unsigned char)s[i];
    if (c < 0x20 || c == '"' || c == '\\') { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}
static void *w_NewAllocator() { return (void *)vfgo_NewAllocator(); }
static void w_ReleaseAllocator(void *a) {
  if (vfgo_ReleaseAllocator(P(a)) == 0) { strs.clear(); nums.clear(); }
}
static void *w_NewValue(void *a) { return (void *)vfgo_NewValue(P(a)); }
static bool w_ParseLen(void *v, const char *s, size_t n) { return !nul(s, n) && vfgo_Parse(P(v), s, n) == 1; }
static bool w_Parse(void *v, const char *s) { return w_ParseLen(v, s, strlen(s)); }
#define STRQ(name, go) static const char *w_##name(void *v) { return vfgo_##go(P(v)); }
#define LENQ(name, go) static const char *w_##name(void *v, size_t *l) { const char *p = vfgo_##go(P(v)); if (p) *l = strlen(p); return p; }
STRQ(Stringify, Stringify) STRQ(GetKey, GetKey) STRQ(GetUnEscapeKey, GetUnEscapeKey) STRQ(GetStr, GetStr) STRQ(GetUnEscapeStr, GetUnEscapeStr) STRQ(GetNumStr, GetNum)
LENQ(GetStrFast, GetStr) LENQ(GetNumFast, GetNum) LENQ(GetKeyFast, GetKey)
#define NUMQ(name, T, conv) static const T *w_##name(void *v) { const char *s = vfgo_GetNum(P(v)); return s ? keepNum<T>((T)conv) : 0; }
NUMQ(GetNum, double, strtod(s, 0)) NUMQ(GetDouble, double, strtod(s, 0)) NUMQ(GetInt, int, strtol(s, 0, 10)) NUMQ(GetLong, long, strtol(s, 0, 10)) NUMQ(GetLongLong, long long, strtoll(s, 0, 10))
static const bool flags[2] = {false, true};
static const bool *w_GetBool(void *v) { int r = vfgo_GetBool(P(v)); return r < 0 ? 0 : &flags[r]; }
static bool w_IsNull(void *v) { return vfgo_IsNull(P(v)) == 1; }
static void *w_ObjGetLen(void *v, const char *k, size_t n) { return nul(k, n) ? 0 : (void *)vfgo_ObjGet(P(v), k, n); }
static void *w_ObjGet(void *v, const char *k) { return w_ObjGetLen(v, k, strlen(k)); }
static int w_Type(void *v, const void **raw) {
  static const char marks[8] = {0};
  int t = vfgo_Type(P(v));
  *raw = t > 0 ? &marks[t] : 0;
  return t;
}
static size_t w_SizeOf(void *v) { return vfgo_Size(P(v)); }
static void *w_ArrayGet(void *v, size_t i) { return (void *)vfgo_ArrayGet(P(v), i); }
static void *w_Begin(void *v) { return (void *)vfgo_Begin(P(v)); }
static void *w_Next(void *v) { return (void *)vfgo_Next(P(v)); }
static void *w_Copy(void *v) { return (void *)vfgo_Copy(P(v)); }
static bool w_Move(void *v) { return vfgo_Move(P(v)) == 1; }
static void w_SetNull(void *v) { vfgo_SetNull(P(v)); }
static void w_SetBool(void *v, bool b) { vfgo_SetBool(P(v), b); }
#define SETS(go)                                                                                            \
  static bool w_##go##Len(void *v, const char *s, size_t n) { return !nul(s, n) && vfgo_##go(P(v), s, n) == 1; } \
  static bool w_##go(void *v, const char *s) { return w_##go##Len(v, s, strlen(s)); }
SETS(SetNumStr) SETS(SetStr) SETS(SetKey)
static bool w_SetStrLenEscape(void *v, const char *s, size_t n) {
  if (nul(s, n)) { std::string e = escaped(s, n); return vfgo_SetStr(P(v), e.data(), e.size()) == 1; }
  return vfgo_SetStrEscape(P(v), s, n) == 1;
}
static bool w_SetStrEscape(void *v, const char *s) { return w_SetStrLenEscape(v, s, strlen(s)); }
static bool w_SetKeyLenEscape(void *v, const char *s, size_t n) {
  if (nul(s, n)) { std::string e = escaped(s, n); return vfgo_SetKey(P(v), e.data(), e.size()) == 1; }
  return vfgo_SetKeyEscape(P(v), s, n) == 1;
}
static bool w_SetKeyEscape(void *v, const char *s) { return w_SetKeyLenEscape(v, s, strlen(s)); }
static bool setF(void *v, double d) {
  if (!std::isfinite(d)) return false;
  char b[64];
  int n = snprintf(b, sizeof b, "%.17g", d);
  return vfgo_SetNumStr(P(v), b, (size_t)n) == 1;
}
static bool setI(void *v, long long d) {
  char b[64];
  int n = snprintf(b, sizeof b, "%lld", d);
  return vfgo_SetNumStr(P(v), b, (size_t)n) == 1;
}
static bool w_SetNum(void *v, double d) { return setF(v, d); }
static bool w_SetDouble(void *v, double d) { return setF(v, d); }
static bool w_SetInt(void *v, int d) { return setI(v, d); }
static bool w_SetLong(void *v, long d) { return setI(v, d); }
static bool w_SetLongLong(void *v, long long d) { return setI(v, d); }
static void w_SetArray(void *v) { vfgo_SetArray(P(v)); }
static void w_SetObj(void *v) { vfgo_SetObj(P(v)); }
#define VV(go) static bool w_##go(void *v, void *w) { return vfgo_##go(P(v), P(w)) == 1; }
VV(SetFast) VV(Set) VV(ObjAddFast) VV(ObjAdd) VV(ArrayAddFast) VV(ArrayAdd)
static bool w_ArrayDel(void *v, size_t i) { return vfgo_ArrayDel(P(v), i) == 1; }
static bool w_ObjDel(void *v, const char *k) { return vfgo_ObjDel(P(v), k, strlen(k)) == 1; }
extern "C" const zapi *zapi_get(void) {
  static const zapi t = {
      "go", (size_t)(uint32_t)-1, w_NewAllocator, w_ReleaseAllocator, w_NewValue, 0, w_Parse, w_ParseLen, w_Parse, w_Stringify,
      w_GetStrFast, w_GetUnEscapeStr, w_GetStr, w_GetNumFast, w_GetNumStr, w_GetNum, w_GetDouble, w_GetInt, w_GetLong,
      w_GetLongLong, w_GetBool, w_IsNull, w_GetKey, w_GetUnEscapeKey, w_GetKeyFast,
      w_ObjGet, w_ObjGetLen, w_Type, w_SizeOf, w_ArrayGet, w_Begin, w_Next, w_Copy,
      w_Move, w_SetNull, w_SetBool, w_SetNumStr, w_SetNumStrLen, w_SetNumStr, w_SetNumStrLen, w_SetNum, w_SetDouble, w_SetInt, w_SetLong, w_SetLongLong,
      w_SetStr, w_SetStrLen, w_SetStr, w_SetStrLen, w_SetStrEscape, w_SetStrLenEscape, w_SetKey, w_SetKeyLen, w_SetKey, w_SetKeyLen,
      w_SetKeyEscape, w_SetKeyLenEscape, w_SetArray, w_SetObj, w_SetFast, w_Set, w_ObjAddFast, w_ObjAdd, w_ArrayAddFast, w_ArrayAdd, w_ArrayDel, w_ObjDel};
  return &t;
}
