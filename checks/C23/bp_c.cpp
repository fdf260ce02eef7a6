#include "propagation.hpp"
typedef sv::Gm<double, opengm::Multiplier, size_t, size_t>::Mixed M;
typedef opengm::MessagePassing<M, opengm::Maximizer, opengm::BeliefPropagationUpdateRules<M, opengm::Maximizer>, opengm::MaxDistance> MP;
VF_SCENARIO(propagation_c, 250, 10000) { prop::exact<M, opengm::Maximizer, MP>(c, "bp"); }
