#include "registry/g3.inc"
