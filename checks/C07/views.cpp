#include <list>
#include "common.hpp"
using namespace vf; using namespace c07;
typedef opengm::GraphicalModel<double, opengm::Adder, FnTypes<double, size_t, size_t>::All, opengm::DiscreteSpace<> > GmAll;
VF_SCENARIO(views_adder, 300, 8000) { run<GmAll>(c, randMixed(c.rng, 1, 5, 1, 4, 4, 4, DYADIC), SUM, DYADIC); }
