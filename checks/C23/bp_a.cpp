#include "propagation.hpp"
typedef sv::Gm<double, opengm::Adder, size_t, size_t>::Mixed M;
typedef opengm::MessagePassing<M, opengm::Minimizer, opengm::BeliefPropagationUpdateRules<M, opengm::Minimizer>, opengm::MaxDistance> MP;
VF_SCENARIO(propagation_a, 250, 10000) { prop::exact<M, opengm::Minimizer, MP>(c, "bp"); }
