#include "flow.hpp"
using namespace opengm;
VF_SCENARIO(kolmogorov_double, 1200, 60000) { c30::cuts<MinSTCutBoost<size_t, double, KOLMOGOROV> >(c, 0.125); }
VF_SCENARIO(kolmogorov_long, 800, 40000) { c30::cuts<MinSTCutBoost<size_t, long, KOLMOGOROV> >(c, 1); }
VF_SCENARIO(kolmogorov_int, 800, 40000) { c30::cuts<MinSTCutBoost<unsigned int, int, KOLMOGOROV> >(c, 1); }
VF_SCENARIO(kolmogorov_float, 500, 20000) { c30::cuts<MinSTCutBoost<int, float, KOLMOGOROV> >(c, 0.5); }
VF_SCENARIO(kolmogorov_none, 20, 100) { c30::none<MinSTCutBoost<size_t, double, KOLMOGOROV> >(c); }
