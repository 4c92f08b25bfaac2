// wrapper classes of zzzjson.hpp
#include "zzzjson.hpp"
#define FLAVOUR "hpp"
#define SZ zzzjson::SIZE
#define V(v) ((zzzjson::Value *)(v))
#define C0(n, v) V(v)->n()
#define C1(n, v, a) V(v)->n(a)
#define C2(n, v, a, b) V(v)->n(a, b)
#define VARG(v) V(v)
#define SIZEOF(v) C0(Size, v)
#define RV(x) ((void *)(x))
#define NEWALLOC() ((void *)new zzzjson::Allocator())
#define RELALLOC(a) delete (zzzjson::Allocator *)(a)
#define NEWVAL(a) zzzjson::Value::NewValue((zzzjson::Allocator *)(a))
#define NEWVALFROM(v) V(v)->NewValue()
#define TYPEPTR zzzjson::JSONType
#define TB zzzjson::JSONTypeBool
#define TA zzzjson::JSONTypeArray
#define TO zzzjson::JSONTypeObject
#define TS zzzjson::JSONTypeString
#define TN zzzjson::JSONTypeNull
#define TNUM zzzjson::JSONTypeNumber
#include "be_table.inc"
