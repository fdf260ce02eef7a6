#include "expand.hpp"
using namespace c29; typedef Gm<double, opengm::Adder>::Mixed M; typedef Gm<int, opengm::Adder, size_t, int>::Mixed I; typedef MinSTCutBoost<size_t, int, EDMONDS_KARP> K; typedef MinSTCutBoost<int, long, EDMONDS_KARP> KL; using opengm::Minimizer; using opengm::Maximizer;
VF_SCENARIO(expansion_int, 500, 30000) { expansion<I, Minimizer, K>(c, METRIC); }
VF_SCENARIO(expansion_scaled, 500, 30000) { expansion<M, Maximizer, KL>(c, METRIC, 8); }
VF_SCENARIO(swap_int, 500, 30000) { swaps<I, Minimizer, K>(c, SEMI); }
VF_SCENARIO(swap_scaled, 500, 30000) { swaps<M, Minimizer, KL>(c, SEMI, 8); }
