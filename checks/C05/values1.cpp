#include "values.hpp"
using namespace vf;
VF_SCENARIO(values_double, 1500, 60000) { c05::values<double, size_t, size_t>(c, sumStyle(c.rng), 9); }
VF_SCENARIO(values_double_u8, 800, 30000) { c05::values<double, size_t, unsigned char>(c, sumStyle(c.rng), c.rng.chance(0.2) ? 40 : 9); }
