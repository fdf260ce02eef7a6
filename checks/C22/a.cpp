#include "exact.hpp"
VF_WIDE(0.05)
typedef sv::Gm<double, opengm::Adder, size_t, size_t>::Mixed M;
VF_SCENARIO(bruteforce_a, 250, 10000) { c22::brute<M, opengm::Minimizer>(c); }
VF_SCENARIO(astar_a, 400, 15000) { c22::astar<M, opengm::Minimizer>(c); }
