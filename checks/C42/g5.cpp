#define VF_COPIES
#include "registry/g5.inc"
