#include "expand.hpp"
using namespace c29; typedef Gm<float, opengm::Adder, unsigned int, unsigned char>::Mixed M; typedef MinSTCutBoost<size_t, float, PUSH_RELABEL> K; using opengm::Minimizer; using opengm::Maximizer;
VF_SCENARIO(expansion_float, 800, 30000) { expansion<M, Minimizer, K>(c, METRIC); }
VF_SCENARIO(swap_float, 600, 30000) { swaps<M, Minimizer, K>(c, SEMI); }
VF_SCENARIO(swap_float_max, 300, 20000) { swaps<M, Maximizer, K>(c, SEMI); }
