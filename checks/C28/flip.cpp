#include "local.hpp"
VF_WIDE(0.05)
using namespace c28; using opengm::Minimizer; using opengm::Maximizer; typedef Gm<double, opengm::Adder>::Mixed M; typedef Gm<double, opengm::Multiplier>::Mixed P; typedef Gm<int, opengm::Adder, size_t, int>::Mixed I;
VF_SCENARIO(flip_icm_min, 500, 20000) { flip<M, Minimizer, opengm::ICM<M, Minimizer> >(c, "icm"); }
VF_SCENARIO(flip_icm_product, 300, 20000) { flip<P, Maximizer, opengm::ICM<P, Maximizer> >(c, "icm"); }
VF_SCENARIO(flip_lazy_max, 300, 20000) { flip<M, Maximizer, opengm::LazyFlipper<M, Maximizer> >(c, "lazy"); }
VF_SCENARIO(flip_exact_min, 200, 10000) { flip<I, Minimizer, opengm::LazyFlipper<I, Minimizer> >(c, "lazy"); }
