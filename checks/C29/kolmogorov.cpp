#include "expand.hpp"
using namespace c29; typedef Gm<double, opengm::Adder>::Mixed M; typedef MinSTCutBoost<size_t, double, KOLMOGOROV> K; using opengm::Minimizer; using opengm::Maximizer;
VF_SCENARIO(expansion_min, 1200, 50000) { expansion<M, Minimizer, K>(c, METRIC); }
VF_SCENARIO(expansion_max, 500, 20000) { expansion<M, Maximizer, K>(c, METRIC); }
VF_SCENARIO(expansion_semimetric, 400, 20000) { expansion<M, Minimizer, K>(c, SEMI); }
VF_SCENARIO(expansion_any, 300, 20000) { expansion<M, Minimizer, K>(c, FREE); }
VF_SCENARIO(swap_min, 1200, 50000) { swaps<M, Minimizer, K>(c, SEMI); }
VF_SCENARIO(swap_max, 500, 20000) { swaps<M, Maximizer, K>(c, METRIC); }
VF_SCENARIO(swap_any, 300, 20000) { swaps<M, Minimizer, K>(c, FREE); }
VF_SCENARIO(refuse_k, 100, 3000) { refuse<M, Minimizer, K>(c); }
