#include "cut.hpp"
using namespace c24; typedef Gm<double, opengm::Adder>::Mixed M; typedef Gm<float, opengm::Adder, unsigned int, unsigned char>::Mixed MF; typedef Gm<int, opengm::Adder, size_t, int>::Mixed MI; using opengm::Minimizer; using opengm::Maximizer;
VF_SCENARIO(kolmogorov_min, 1000, 50000) { cut<M, Minimizer, MinSTCutBoost<size_t, double, KOLMOGOROV> >(c, 1); }
VF_SCENARIO(kolmogorov_max, 600, 30000) { cut<M, Maximizer, MinSTCutBoost<size_t, double, KOLMOGOROV> >(c, 1); }
VF_SCENARIO(kolmogorov_long, 500, 30000) { cut<M, Minimizer, MinSTCutBoost<size_t, long, KOLMOGOROV> >(c, 8); }
VF_SCENARIO(kolmogorov_scaled, 300, 10000) { cut<M, Maximizer, MinSTCutBoost<int, int, KOLMOGOROV> >(c, 1000); }
VF_SCENARIO(kolmogorov_float, 300, 20000) { cut<MF, Minimizer, MinSTCutBoost<size_t, float, KOLMOGOROV> >(c, 1); }
VF_SCENARIO(kolmogorov_int, 300, 20000) { cut<MI, Minimizer, MinSTCutBoost<size_t, int, KOLMOGOROV> >(c, 1); }
VF_SCENARIO(kolmogorov_refuse, 150, 5000) { if(c.rng.chance(0.5)) refuse<M, Minimizer, MinSTCutBoost<size_t, double, KOLMOGOROV> >(c); else refuse<M, Maximizer, MinSTCutBoost<size_t, double, KOLMOGOROV> >(c); }
