#include "registry/g2.inc"
