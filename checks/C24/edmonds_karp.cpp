#include "cut.hpp"
using namespace c24; typedef Gm<double, opengm::Adder>::Mixed M; typedef Gm<float, opengm::Adder, unsigned int, unsigned char>::Mixed MF; typedef Gm<int, opengm::Adder, size_t, int>::Mixed MI; using opengm::Minimizer; using opengm::Maximizer;
VF_SCENARIO(edmonds_karp_min, 1000, 50000) { cut<M, Minimizer, MinSTCutBoost<size_t, double, EDMONDS_KARP> >(c, 1); }
VF_SCENARIO(edmonds_karp_max, 600, 30000) { cut<M, Maximizer, MinSTCutBoost<size_t, double, EDMONDS_KARP> >(c, 1); }
VF_SCENARIO(edmonds_karp_long, 500, 30000) { cut<M, Minimizer, MinSTCutBoost<size_t, long, EDMONDS_KARP> >(c, 8); }
VF_SCENARIO(edmonds_karp_scaled, 300, 10000) { cut<M, Maximizer, MinSTCutBoost<int, int, EDMONDS_KARP> >(c, 1000); }
VF_SCENARIO(edmonds_karp_float, 300, 20000) { cut<MF, Minimizer, MinSTCutBoost<size_t, float, EDMONDS_KARP> >(c, 1); }
VF_SCENARIO(edmonds_karp_int, 300, 20000) { cut<MI, Minimizer, MinSTCutBoost<size_t, int, EDMONDS_KARP> >(c, 1); }
VF_SCENARIO(edmonds_karp_refuse, 150, 5000) { if(c.rng.chance(0.5)) refuse<M, Minimizer, MinSTCutBoost<size_t, double, EDMONDS_KARP> >(c); else refuse<M, Maximizer, MinSTCutBoost<size_t, double, EDMONDS_KARP> >(c); }
