#include "sub.hpp"
using namespace c21; typedef Gm<double, opengm::Adder>::Mixed M; typedef Gm<double, opengm::Adder, unsigned int, unsigned char>::Mixed S;
VF_SCENARIO(sum_min, 800, 40000) { run<M, Minimizer>(c); }
VF_SCENARIO(sum_max, 500, 20000) { run<M, Maximizer>(c); }
VF_SCENARIO(sum_small_types, 400, 20000) { run<S, Minimizer>(c); }
