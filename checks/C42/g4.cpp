#define VF_COPIES
#include "registry/g4.inc"
