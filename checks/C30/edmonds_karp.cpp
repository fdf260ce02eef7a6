#include "flow.hpp"
using namespace opengm;
VF_SCENARIO(edmonds_karp_double, 1200, 60000) { c30::cuts<MinSTCutBoost<size_t, double, EDMONDS_KARP> >(c, 0.125); }
VF_SCENARIO(edmonds_karp_long, 800, 40000) { c30::cuts<MinSTCutBoost<size_t, long, EDMONDS_KARP> >(c, 1); }
VF_SCENARIO(edmonds_karp_int, 800, 40000) { c30::cuts<MinSTCutBoost<unsigned int, int, EDMONDS_KARP> >(c, 1); }
VF_SCENARIO(edmonds_karp_float, 500, 20000) { c30::cuts<MinSTCutBoost<int, float, EDMONDS_KARP> >(c, 0.5); }
VF_SCENARIO(edmonds_karp_none, 20, 100) { c30::none<MinSTCutBoost<size_t, double, EDMONDS_KARP> >(c); }
