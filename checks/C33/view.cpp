#include "dd.hpp"
using namespace c33;
VF_SCENARIO(view_min, 500, 30000) { run<M, Minimizer, View<double>, BF>(c, false, 1e-9); }
VF_SCENARIO(view_float, 300, 15000) { run<F, Minimizer, View<float>, BF>(c, false, 1e-4); }
VF_SCENARIO(view_max_trees, 300, 15000) { run<M, Maximizer, View<double>, DP>(c, true, 1e-9); }
VF_SCENARIO(converge_own, 40, 3000) { converge<M, Minimizer, Own<double> >(c); }
VF_SCENARIO(converge_view, 40, 3000) { converge<M, Maximizer, View<double> >(c); }
