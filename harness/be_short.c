#include "zzzjson.h"
#define FLAVOUR "short"
#define SZ Size
#define V(v) ((Value *)(v))
#define C0(n, v) n(V(v))
#define C1(n, v, a) n(V(v), a)
#define C2(n, v, a, b) n(V(v), a, b)
#define VARG(v) V(v)
#define SIZEOF(v) C0(SizeOf, v)
#define RV(x) ((void *)(x))
#define NEWALLOC() ((void *)NewAllocator())
#define RELALLOC(a) ReleaseAllocator((Allocator *)(a))
#define NEWVAL(a) NewValue((Allocator *)(a))
#define TYPEPTR JSONType
#define TB JSONTypeBool
#define TA JSONTypeArray
#define TO JSONTypeObject
#define TS JSONTypeString
#define TN JSONTypeNull
#define TNUM JSONTypeNumber
#include "be_table.inc"
