#include "propagation.hpp"
typedef sv::Gm<double, opengm::Multiplier, size_t, size_t>::Mixed M;
typedef opengm::MessagePassing<M, opengm::Minimizer, opengm::BeliefPropagationUpdateRules<M, opengm::Minimizer>, opengm::MaxDistance> MP;
VF_SCENARIO(propagation_d, 250, 10000) { prop::exact<M, opengm::Minimizer, MP>(c, "bp"); }
