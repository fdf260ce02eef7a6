#define VF_COPIES
#include "registry/g1.inc"
