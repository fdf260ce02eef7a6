#include "values.hpp"
using namespace vf;
VF_SCENARIO(values_float, 800, 30000) { c05::values<float, unsigned int, unsigned int>(c, sumStyle(c.rng), 9); }
