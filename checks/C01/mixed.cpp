// Models over all predefined function types, all operators
#include "common.hpp"
using namespace vf;
typedef FnTypes<double, size_t, size_t> FD;
VF_SCENARIO(sum10, 900, 30000) { runMixed<opengm::GraphicalModel<double, opengm::Adder, FD::All> >(c, E_SUM, "sum10"); }
VF_SCENARIO(max10, 200, 8000) { runMixed<opengm::GraphicalModel<double, opengm::Maximizer, FD::All> >(c, E_MAX, "max10"); }
