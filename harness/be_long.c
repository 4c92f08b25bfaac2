#include "be_long.inc"
