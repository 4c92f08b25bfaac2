// several flavours in one program, each in its own translation unit: every call of the table goes to
// another one of them, so values made through one flavour are read and edited through the others
#include "zapi.h"
#include <string.h>
extern "C" const zapi *zapi_get_a(void);
extern "C" const zapi *zapi_get_b(void);
#ifdef VF_MIX3
extern "C" const zapi *zapi_get_c(void);
#endif
extern "C" const zapi *zapi_get(void) {
  static zapi t;
  static bool done;
  if (done) return &t;
  done = true;
  const zapi *s[3] = {zapi_get_a(), zapi_get_b(), zapi_get_a()};
#ifdef VF_MIX3
  s[2] = zapi_get_c();
#endif
  t = *s[0];
  const size_t first = offsetof(zapi, NewAllocator), n = (sizeof(zapi) - first) / sizeof(void *);
  unsigned x = VF_MIXSEED;
  for (size_t i = 0; i < n; i++) {
    x = x * 1103515245u + 12345u;
    memcpy((char *)&t + first + i * sizeof(void *), (const char *)s[(x >> 16) % 3] + first + i * sizeof(void *), sizeof(void *));
  }

  const zapi *al = s[(VF_MIXSEED) % 3]; // an allocator is released the way it was made
  t.NewAllocator = al->NewAllocator;
  t.ReleaseAllocator = al->ReleaseAllocator;
  return &t;
}
