#include "cut.hpp"
using namespace c24; typedef Gm<double, opengm::Adder>::Mixed M; typedef Gm<float, opengm::Adder, unsigned int, unsigned char>::Mixed MF; typedef Gm<int, opengm::Adder, size_t, int>::Mixed MI; using opengm::Minimizer; using opengm::Maximizer;
VF_SCENARIO(push_relabel_min, 1000, 50000) { cut<M, Minimizer, MinSTCutBoost<size_t, double, PUSH_RELABEL> >(c, 1); }
VF_SCENARIO(push_relabel_max, 600, 30000) { cut<M, Maximizer, MinSTCutBoost<size_t, double, PUSH_RELABEL> >(c, 1); }
VF_SCENARIO(push_relabel_long, 500, 30000) { cut<M, Minimizer, MinSTCutBoost<size_t, long, PUSH_RELABEL> >(c, 8); }
VF_SCENARIO(push_relabel_scaled, 300, 10000) { cut<M, Maximizer, MinSTCutBoost<int, int, PUSH_RELABEL> >(c, 1000); }
VF_SCENARIO(push_relabel_float, 300, 20000) { cut<MF, Minimizer, MinSTCutBoost<size_t, float, PUSH_RELABEL> >(c, 1); }
VF_SCENARIO(push_relabel_int, 300, 20000) { cut<MI, Minimizer, MinSTCutBoost<size_t, int, PUSH_RELABEL> >(c, 1); }
VF_SCENARIO(push_relabel_refuse, 150, 5000) { if(c.rng.chance(0.5)) refuse<M, Minimizer, MinSTCutBoost<size_t, double, PUSH_RELABEL> >(c); else refuse<M, Maximizer, MinSTCutBoost<size_t, double, PUSH_RELABEL> >(c); }
typedef Gm<double, opengm::Multiplier>::Plain MP;
VF_SCENARIO(product_refuse, 50, 500) { RefModel m = submodular(c.rng, false, 5); m.digest(c); MP gm = buildExplicit<MP>(m); typedef opengm::GraphCut<MP, Minimizer, MinSTCutBoost<size_t, double, PUSH_RELABEL> > Inf; VF_MUST_THROW(Inf inf(gm), "product", ""); }
