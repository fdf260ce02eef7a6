#include "propagation.hpp"
typedef sv::Gm<float, opengm::Adder, unsigned, unsigned char>::Mixed M;
typedef opengm::MessagePassing<M, opengm::Maximizer, opengm::BeliefPropagationUpdateRules<M, opengm::Maximizer>, opengm::MaxDistance> MP;
VF_SCENARIO(propagation_b, 250, 10000) { prop::exact<M, opengm::Maximizer, MP>(c, "bp"); }
