#include "registry/g4.inc"
