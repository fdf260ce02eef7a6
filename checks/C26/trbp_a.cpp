#include "cyclic.hpp"
typedef sv::Gm<double, opengm::Adder, size_t, size_t>::Mixed M; typedef opengm::Minimizer A;
typedef opengm::MessagePassing<M, A, opengm::TrbpUpdateRules<M, A>, opengm::MaxDistance> MP;
VF_SCENARIO(trees_a, 250, 10000) { prop::exact<M, A, MP>(c, "trbp"); }
VF_SCENARIO(cyclic_a, 250, 10000) { c26::cyclic<M, A, MP>(c); }
