#include "zzzjson.h"
#define FLAVOUR "long"
#define SZ zj_Size
#define V(v) ((zj_Value *)(v))
#define C0(n, v) zj_##n(V(v))
#define C1(n, v, a) zj_##n(V(v), a)
#define C2(n, v, a, b) zj_##n(V(v), a, b)
#define VARG(v) V(v)
#define SIZEOF(v) C0(SizeOf, v)
#define RV(x) ((void *)(x))
#define NEWALLOC() ((void *)zj_NewAllocator())
#define RELALLOC(a) zj_ReleaseAllocator((zj_Allocator *)(a))
#define NEWVAL(a) zj_NewValue((zj_Allocator *)(a))
#define TYPEPTR zj_JSONType
#define TB zj_JSONTypeBool
#define TA zj_JSONTypeArray
#define TO zj_JSONTypeObject
#define TS zj_JSONTypeString
#define TN zj_JSONTypeNull
#define TNUM zj_JSONTypeNumber
#include "be_table.inc"
