#include "dd.hpp"
using namespace c33;
VF_SCENARIO(astar_min, 200, 10000) { run<M, Minimizer, Own<double>, AS>(c, true, 1e-9); }
VF_SCENARIO(float_max, 200, 10000) { run<F, Maximizer, Own<float>, DP>(c, true, 1e-4); }
