#include "exact.hpp"
typedef sv::Gm<float, opengm::Adder, unsigned, unsigned char>::Mixed M;
VF_SCENARIO(bruteforce_b, 250, 10000) { c22::brute<M, opengm::Maximizer>(c); }
VF_SCENARIO(astar_b, 400, 15000) { c22::astar<M, opengm::Maximizer>(c); }
