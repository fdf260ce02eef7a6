#include "ts.hpp"
using namespace c35; using opengm::Minimizer; using opengm::Maximizer;
typedef Gm<double, opengm::Adder>::Plain M; typedef Gm<float, opengm::Adder, unsigned int, unsigned char>::Plain F;
VF_SCENARIO(bound_min, 1500, 80000) { bound<M, Minimizer>(c, c.rng.chance(0.5) ? SMALLINT : DYADIC); }
VF_SCENARIO(bound_max, 800, 40000) { bound<M, Maximizer>(c, c.rng.chance(0.5) ? TIES : REALS); }
VF_SCENARIO(bound_float, 500, 30000) { bound<F, Minimizer>(c, SMALLINT); }
VF_SCENARIO(bound_refuse, 100, 2000) { refuse<M, Minimizer>(c); }
