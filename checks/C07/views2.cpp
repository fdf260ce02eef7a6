#include <list>
#include "common.hpp"
using namespace vf; using namespace c07;
typedef opengm::GraphicalModel<float, opengm::Multiplier, FnTypes<float, unsigned int, unsigned short>::Three, opengm::DiscreteSpace<unsigned int, unsigned short> > GmThree;
VF_SCENARIO(views_multiplier, 250, 6000) { std::vector<FnKind> k; k.push_back(F_EXPLICIT); k.push_back(F_POTTS); k.push_back(F_POTTSN); run<GmThree>(c, randMixed(c.rng, 1, 5, 1, 4, 3, 3, POW2, 0.1, false, 512, &k), PROD, POW2); }
