#include "trwsi.hpp"
using namespace c34;
typedef Gm<double, opengm::Adder>::Mixed M; typedef Gm<double, opengm::Adder, unsigned int, unsigned char>::Mixed U;
VF_SCENARIO(trwsi_min, 600, 30000) { trwsi<M, opengm::Minimizer>(c, false); }
VF_SCENARIO(trwsi_max, 400, 20000) { trwsi<M, opengm::Maximizer>(c, false); }
VF_SCENARIO(trwsi_tree_min, 150, 8000) { trwsi<M, opengm::Minimizer>(c, true); }
VF_SCENARIO(trwsi_tree_max, 100, 8000) { trwsi<M, opengm::Maximizer>(c, true); }
VF_SCENARIO(trwsi_narrow, 300, 20000) { trwsi<U, opengm::Minimizer>(c, false); }
VF_SCENARIO(trwsi_refuses, 200, 5000) { refuses<opengm::TRWSi<M, opengm::Minimizer>, M>(c, "TRWSi"); }
