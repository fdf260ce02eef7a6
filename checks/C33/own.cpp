#include "dd.hpp"
using namespace c33;
VF_SCENARIO(blocks_min, 700, 30000) { run<M, Minimizer, Own<double>, BF>(c, false, 1e-9); }
VF_SCENARIO(blocks_max, 300, 15000) { run<M, Maximizer, Own<double>, BF>(c, false, 1e-9); }
VF_SCENARIO(trees_min, 500, 30000) { run<M, Minimizer, Own<double>, DP>(c, true, 1e-9); }
VF_SCENARIO(forests_min, 300, 15000) { run<M, Minimizer, Own<double>, BF>(c, false, 1e-9, true); }
