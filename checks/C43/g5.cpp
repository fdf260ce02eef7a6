#include "registry/g5.inc"
