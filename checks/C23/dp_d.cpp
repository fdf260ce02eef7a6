#include "dp.hpp"
typedef sv::Gm<double, opengm::Multiplier, size_t, size_t>::Mixed M;
VF_SCENARIO(dynamic_d, 400, 15000) { c23::dynamic<M, opengm::Minimizer>(c); }
