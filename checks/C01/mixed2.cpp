#include "common.hpp"
using namespace vf;
typedef FnTypes<double, size_t, size_t> FD;
VF_SCENARIO(prod10rev, 400, 15000) { runMixed<opengm::GraphicalModel<double, opengm::Multiplier, FD::AllReversed> >(c, E_PROD, "prod10rev"); }
