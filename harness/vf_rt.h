// Force-included (-include) in front of every backend translation unit: routes the
// library's use of malloc/free through the monitored allocator and defines the arena hook.
#ifndef VF_RT_H
#define VF_RT_H
#ifdef __cplusplus
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <cmath>
#include <cfloat>
#include <climits>
#endif
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <float.h>
#include <limits.h>
#include <ctype.h>
#include <malloc.h>
#include <errno.h>
#include "zapi.h"
#ifdef VF_ROUTE_MACROS /* cgo only: elsewhere the symbols of the object file are redirected (run.py) */
#define malloc(n) vf_malloc(n)
#define calloc(a, b) vf_calloc(a, b)
#define realloc(p, n) vf_realloc(p, n)
#define free(p) vf_free((void *)(p))
#define strdup(s) vf_strdup(s)
#define strndup(s, n) vf_strndup(s, n)
#endif
#ifdef zj_VERIF_HOOKS
#define zj_VERIF_ALLOC_BEGIN(size)                                             \
  const size_t zj_verif_req = (size);                                          \
  (size) = (__typeof__(size))vf_pad(zj_verif_req);                                      \
  const size_t zj_verif_pad = (size)
#define zj_VERIF_ALLOC_END(ret) vf_arena((ret), zj_verif_req, zj_verif_pad)
#endif
#if defined(zj_MEMORY_MODE) && zj_MEMORY_MODE == 3
#define zj_new(n) vf_user_new(n)
#define zj_free(p) vf_user_free((void *)(p))
#endif
#if defined(z_MEMORY_MODE) && z_MEMORY_MODE == 3
#define z_New(n) vf_user_new(n)
#define z_Free(p) vf_user_free((void *)(p))
#endif
#if defined(zj_EXPECT_MODE) && zj_EXPECT_MODE == 3
#define zj_LIKELY(x) (x)
#define zj_UNLIKELY(x) (x)
#endif
#if defined(z_EXPECT_MODE) && z_EXPECT_MODE == 3
#define z_LIKELY(x) (x)
#define z_UNLIKELY(x) (x)
#endif
#endif
