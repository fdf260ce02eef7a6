#include "smooth.hpp"
using namespace c34;
typedef Gm<double, opengm::Adder>::Mixed M;
VF_SCENARIO(nesterov_min, 400, 20000) { nesterov<M, opengm::Minimizer>(c, false); }
VF_SCENARIO(nesterov_max, 300, 15000) { nesterov<M, opengm::Maximizer>(c, false); }
VF_SCENARIO(nesterov_tree, 60, 5000) { nesterov<M, opengm::Minimizer>(c, true); }
VF_SCENARIO(nesterov_refuses, 120, 4000) { refuses<opengm::NesterovAcceleratedGradient<M, opengm::Maximizer>, M>(c, "Nesterov"); }
