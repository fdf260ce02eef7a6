// Copy construction and assignment with the same types.
#include "copies.hpp"
typedef FnTypes<double, opengm::UInt64Type, opengm::UInt64Type> FD;
typedef opengm::GraphicalModel<double, opengm::Adder, FD::All> GA;
typedef opengm::GraphicalModel<double, opengm::Multiplier, FD::Three> GT;
VF_SCENARIO(copies_all, 700, 25000) { copies<GA>(c, "copies_all"); }
VF_SCENARIO(copies_three, 500, 20000) { const std::vector<FnKind> k = {F_EXPLICIT, F_POTTS, F_POTTSN}; copies<GT>(c, "copies_three", &k); }
