#include "local.hpp"
using namespace c28; using opengm::Minimizer; using opengm::Maximizer; typedef Gm<double, opengm::Adder>::Mixed M; typedef Gm<double, opengm::Multiplier>::Mixed P; typedef Gm<float, opengm::Adder, unsigned int, unsigned char>::Mixed F; typedef Gm<int, opengm::Adder, size_t, int>::Mixed I;
VF_SCENARIO(moves_min, 1500, 60000) { moves<M, Minimizer>(c); }
VF_SCENARIO(moves_max, 700, 30000) { moves<M, Maximizer>(c); }
VF_SCENARIO(moves_product_min, 400, 20000) { moves<P, Minimizer>(c); }
VF_SCENARIO(moves_product_max, 600, 20000) { moves<P, Maximizer>(c); }
VF_SCENARIO(moves_float, 300, 20000) { moves<F, Minimizer>(c); }
VF_SCENARIO(moves_int, 300, 20000) { moves<I, Maximizer>(c); }
