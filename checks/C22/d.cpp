#include "exact.hpp"
typedef sv::Gm<double, opengm::Multiplier, size_t, size_t>::Mixed M;
VF_SCENARIO(bruteforce_d, 250, 10000) { c22::brute<M, opengm::Minimizer>(c); }
VF_SCENARIO(astar_d, 400, 15000) { c22::astar<M, opengm::Minimizer>(c); }
