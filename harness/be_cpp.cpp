// short names as C++ namespace functions
#include "zzzjson.h"
#define FLAVOUR "cpp"
#define SZ zj::Size
#define V(v) ((zj::Value *)(v))
#define C0(n, v) zj::n(V(v))
#define C1(n, v, a) zj::n(V(v), a)
#define C2(n, v, a, b) zj::n(V(v), a, b)
#define VARG(v) V(v)
#define SIZEOF(v) C0(SizeOf, v)
#define RV(x) ((void *)(x))
#define NEWALLOC() ((void *)zj::NewAllocator())
#define RELALLOC(a) zj::ReleaseAllocator((zj::Allocator *)(a))
#define NEWVAL(a) zj::NewValue((zj::Allocator *)(a))
#define TYPEPTR zj::JSONType
#define TB zj::JSONTypeBool
#define TA zj::JSONTypeArray
#define TO zj::JSONTypeObject
#define TS zj::JSONTypeString
#define TN zj::JSONTypeNull
#define TNUM zj::JSONTypeNumber
#include "be_table.inc"
