#define VF_COPIES
#include "registry/g3.inc"
