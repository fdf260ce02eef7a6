#define VF_MAIN
#include "vf.hpp"
