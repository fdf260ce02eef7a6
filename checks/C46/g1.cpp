#include "registry/g1.inc"
