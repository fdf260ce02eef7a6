#include "propagation.hpp"
typedef sv::Gm<float, opengm::Multiplier, unsigned, unsigned char>::Mixed M; typedef opengm::Integrator A;
typedef opengm::MessagePassing<M, A, opengm::BeliefPropagationUpdateRules<M, A>, opengm::MaxDistance> MP;
VF_SCENARIO(sumproduct_b, 600, 20000) { prop::exact<M, A, MP>(c, "bp"); }
