#include "local.hpp"
using namespace c28; using opengm::Minimizer; using opengm::Maximizer; typedef Gm<double, opengm::Adder>::Mixed M; typedef Gm<double, opengm::Multiplier>::Mixed P; typedef Gm<float, opengm::Adder, unsigned int, unsigned char>::Mixed F; typedef Gm<int, opengm::Adder, size_t, int>::Mixed I;
VF_SCENARIO(icm_min, 1500, 60000) { icm<M, Minimizer>(c); }
VF_SCENARIO(icm_max, 700, 30000) { icm<M, Maximizer>(c); }
VF_SCENARIO(icm_product_min, 400, 20000) { icm<P, Minimizer>(c); }
VF_SCENARIO(icm_product_max, 600, 20000) { icm<P, Maximizer>(c); }
VF_SCENARIO(icm_float, 300, 20000) { icm<F, Minimizer>(c); }
VF_SCENARIO(icm_int, 300, 20000) { icm<I, Maximizer>(c); }
