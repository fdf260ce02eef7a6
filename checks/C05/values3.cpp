#include "values.hpp"
using namespace vf;
VF_SCENARIO(values_long, 800, 30000) { c05::values<long long, int, unsigned short>(c, SMALLINT, 9); }
