#define VF_COPIES
#include "registry/g2.inc"
