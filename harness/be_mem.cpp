// C++ member functions; allocators are C++ objects with constructor and destructor
#include "zzzjson.h"
#define FLAVOUR "mem"
#define SZ zj::Size
#define V(v) ((zj::Value *)(v))
#define C0(n, v) V(v)->n()
#define C1(n, v, a) V(v)->n(a)
#define C2(n, v, a, b) V(v)->n(a, b)
#define VARG(v) V(v)
#define SIZEOF(v) C0(SizeOf, v)
#define RV(x) ((void *)(x))
#define NEWALLOC() ((void *)new zj::Allocator())
#define RELALLOC(a) delete (zj::Allocator *)(a)
#define NEWVAL(a) zj::Value::NewValue((zj::Allocator *)(a))
#define NEWVALFROM(v) zj::Value::NewValue(V(v)->Allocator())
#define TYPEPTR zj::JSONType
#define TB zj::JSONTypeBool
#define TA zj::JSONTypeArray
#define TO zj::JSONTypeObject
#define TS zj::JSONTypeString
#define TN zj::JSONTypeNull
#define TNUM zj::JSONTypeNumber
#include "be_table.inc"
