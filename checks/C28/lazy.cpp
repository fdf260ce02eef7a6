#include "local.hpp"
using namespace c28; using opengm::Minimizer; using opengm::Maximizer; typedef Gm<double, opengm::Adder>::Mixed M; typedef Gm<double, opengm::Multiplier>::Mixed P; typedef Gm<float, opengm::Adder, unsigned int, unsigned char>::Mixed F; typedef Gm<int, opengm::Adder, size_t, int>::Mixed I;
VF_SCENARIO(lazy_min, 1500, 60000) { lazy<M, Minimizer>(c); }
VF_SCENARIO(lazy_max, 700, 30000) { lazy<M, Maximizer>(c); }
VF_SCENARIO(lazy_product_min, 400, 20000) { lazy<P, Minimizer>(c); }
VF_SCENARIO(lazy_product_max, 600, 20000) { lazy<P, Maximizer>(c); }
VF_SCENARIO(lazy_float, 300, 20000) { lazy<F, Minimizer>(c); }
VF_SCENARIO(lazy_int, 300, 20000) { lazy<I, Maximizer>(c); }
