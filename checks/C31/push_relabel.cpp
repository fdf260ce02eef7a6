#include "qpbo.hpp"
using namespace c31; typedef Gm<double, opengm::Adder>::Mixed M; typedef Gm<float, opengm::Adder, unsigned int, unsigned char>::Mixed MF; typedef Gm<int, opengm::Adder, size_t, int>::Mixed MI;
VF_SCENARIO(push_relabel_double, 1200, 60000) { roof<M, MinSTCutBoost<size_t, double, PUSH_RELABEL> >(c, 1); }
VF_SCENARIO(push_relabel_long, 700, 30000) { roof<M, MinSTCutBoost<size_t, long, PUSH_RELABEL> >(c, 8); }
VF_SCENARIO(push_relabel_int, 700, 30000) { roof<MI, MinSTCutBoost<int, int, PUSH_RELABEL> >(c, 8); }
VF_SCENARIO(push_relabel_float, 400, 20000) { roof<MF, MinSTCutBoost<size_t, float, PUSH_RELABEL> >(c, 1); }
VF_SCENARIO(push_relabel_refuse, 60, 1000) { refuse<MinSTCutBoost<size_t, double, PUSH_RELABEL> >(c); }
