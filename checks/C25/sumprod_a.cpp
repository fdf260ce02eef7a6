#include "propagation.hpp"
typedef sv::Gm<double, opengm::Multiplier, size_t, size_t>::Mixed M; typedef opengm::Integrator A;
typedef opengm::MessagePassing<M, A, opengm::BeliefPropagationUpdateRules<M, A>, opengm::MaxDistance> MP;
VF_SCENARIO(sumproduct_a, 600, 20000) { prop::exact<M, A, MP>(c, "bp"); }
