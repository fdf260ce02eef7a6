#include "smooth.hpp"
using namespace c34;
typedef Gm<double, opengm::Adder>::Mixed M;
VF_SCENARIO(adsal_min, 400, 20000) { adsal<M, opengm::Minimizer>(c, false); }
VF_SCENARIO(adsal_max, 300, 15000) { adsal<M, opengm::Maximizer>(c, false); }
VF_SCENARIO(adsal_tree, 60, 5000) { adsal<M, opengm::Minimizer>(c, true); }
VF_SCENARIO(adsal_refuses, 120, 4000) { refuses<opengm::ADSal<M, opengm::Minimizer>, M>(c, "ADSal"); }
