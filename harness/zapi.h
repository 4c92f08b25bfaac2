// Flavour-neutral view of the public zzzJSON API. Every backend (long C API, short C
// API, C++ functions, C++ members, wrapper classes) fills one table; the driver only
// knows this table, so it never depends on zzzJSON's internals.
#ifndef ZAPI_H
#define ZAPI_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

size_t vf_strlen(const char *s);
int vf_strcmp(const char *a, const char *b);
int vf_strncmp(const char *a, const char *b, size_t n);
void *vf_memcpy(void *d, const void *s, size_t n);
void *vf_memmove(void *d, const void *s, size_t n);
void *vf_memset(void *d, int c, size_t n);
int vf_memcmp(const void *a, const void *b, size_t n);
void *vf_memchr(const void *a, int c, size_t n);
enum { T_BOOL = 1, T_ARRAY = 2, T_OBJECT = 3, T_STRING = 4, T_NULL = 5, T_NUMBER = 6 };

typedef struct zapi {
  const char *name;
  size_t size_max; // largest value of the library's size type
  void *(*NewAllocator)(void);
  void (*ReleaseAllocator)(void *a);
  void *(*NewValue)(void *a);
  void *(*NewValueFrom)(void *v); // optional: new value in the allocator of v
  bool (*ParseFast)(void *v, const char *s);
  bool (*ParseLen)(void *v, const char *s, size_t len);
  bool (*Parse)(void *v, const char *s);
  const char *(*Stringify)(void *v);
  const char *(*GetStrFast)(void *v, size_t *len);
  const char *(*GetUnEscapeStr)(void *v);
  const char *(*GetStr)(void *v);
  const char *(*GetNumFast)(void *v, size_t *len);
  const char *(*GetNumStr)(void *v);
  const double *(*GetNum)(void *v);
  const double *(*GetDouble)(void *v);
  const int *(*GetInt)(void *v);
  const long *(*GetLong)(void *v);
  const long long *(*GetLongLong)(void *v);
  const bool *(*GetBool)(void *v);
  bool (*IsNull)(void *v);
  const char *(*GetKey)(void *v);
  const char *(*GetUnEscapeKey)(void *v);
  const char *(*GetKeyFast)(void *v, size_t *len);
  void *(*ObjGet)(void *v, const char *key);
  void *(*ObjGetLen)(void *v, const char *key, size_t len);
  // the enum constants as the flavour itself names them are mapped to T_*; *raw is the
  // address returned (so that its stability can be checked)
  int (*Type)(void *v, const void **raw);
  size_t (*SizeOf)(void *v);
  void *(*ArrayGet)(void *v, size_t index);
  void *(*Begin)(void *v);
  void *(*Next)(void *v);
  void *(*Copy)(void *v);
  bool (*Move)(void *v);
  void (*SetNull)(void *v);
  void (*SetBool)(void *v, bool b);
  bool (*SetNumStrFast)(void *v, const char *s);
  bool (*SetNumStrLenFast)(void *v, const char *s, size_t len);
  bool (*SetNumStr)(void *v, const char *s);
  bool (*SetNumStrLen)(void *v, const char *s, size_t len);
  bool (*SetNum)(void *v, double d);
  bool (*SetDouble)(void *v, double d);
  bool (*SetInt)(void *v, int n);
  bool (*SetLong)(void *v, long n);
  bool (*SetLongLong)(void *v, long long n);
  bool (*SetStrFast)(void *v, const char *s);
  bool (*SetStrLenFast)(void *v, const char *s, size_t len);
  bool (*SetStr)(void *v, const char *s);
  bool (*SetStrLen)(void *v, const char *s, size_t len);
  bool (*SetStrEscape)(void *v, const char *s);
  bool (*SetStrLenEscape)(void *v, const char *s, size_t len);
  bool (*SetKeyFast)(void *v, const char *s);
  bool (*SetKeyLenFast)(void *v, const char *s, size_t len);
  bool (*SetKey)(void *v, const char *s);
  bool (*SetKeyLen)(void *v, const char *s, size_t len);
  bool (*SetKeyEscape)(void *v, const char *s);
  bool (*SetKeyLenEscape)(void *v, const char *s, size_t len);
  void (*SetArray)(void *v);
  void (*SetObj)(void *v);
  bool (*SetFast)(void *v, void *vv);
  bool (*Set)(void *v, void *vv);
  bool (*ObjAddFast)(void *v, void *vv);
  bool (*ObjAdd)(void *v, void *vv);
  bool (*ArrayAddFast)(void *v, void *vv);
  bool (*ArrayAdd)(void *v, void *vv);
  bool (*ArrayDel)(void *v, size_t index);
  bool (*ObjDel)(void *v, const char *key);
  // counting memory mode: bytes and blocks obtained, blocks freed as the library counts them (else 0)
  void (*Counters)(unsigned long long out[3]);
} zapi;

extern const zapi *zapi_get(void);

// runtime services for the backend (defined by the driver)
void *vf_malloc(size_t n);
char *vf_strdup(const char *s);
char *vf_strndup(const char *s, size_t n);
void *vf_calloc(size_t a, size_t b);
void *vf_realloc(void *p, size_t n);
void vf_free(void *p);
void vf_error(const char *s);  // a violation seen by the backend itself
void *vf_user_new(size_t n);  // custom memory mode: the user's functions
void vf_user_free(void *p);
size_t vf_pad(size_t n);                      // arena hook: enlarge the request
void vf_arena(void *p, size_t req, size_t n); // arena hook: mark the red zone
#ifdef __cplusplus
}
#endif
#endif
