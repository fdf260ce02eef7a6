#include "exact.hpp"
typedef sv::Gm<double, opengm::Multiplier, size_t, size_t>::Mixed M;
VF_SCENARIO(bruteforce_c, 250, 10000) { c22::brute<M, opengm::Maximizer>(c); }
VF_SCENARIO(astar_c, 400, 15000) { c22::astar<M, opengm::Maximizer>(c); }
