// the long names used from C++ (they live in namespace zj)
#include "zzzjson.h"
using namespace zj;
#include "be_long.inc"
