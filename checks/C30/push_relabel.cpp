#include "flow.hpp"
using namespace opengm;
VF_SCENARIO(push_relabel_double, 1200, 60000) { c30::cuts<MinSTCutBoost<size_t, double, PUSH_RELABEL> >(c, 0.125); }
VF_SCENARIO(push_relabel_long, 800, 40000) { c30::cuts<MinSTCutBoost<size_t, long, PUSH_RELABEL> >(c, 1); }
VF_SCENARIO(push_relabel_int, 800, 40000) { c30::cuts<MinSTCutBoost<unsigned int, int, PUSH_RELABEL> >(c, 1); }
VF_SCENARIO(push_relabel_float, 500, 20000) { c30::cuts<MinSTCutBoost<int, float, PUSH_RELABEL> >(c, 0.5); }
VF_SCENARIO(push_relabel_none, 20, 100) { c30::none<MinSTCutBoost<size_t, double, PUSH_RELABEL> >(c); }
