#include "ts.hpp"
using namespace c35; using opengm::Minimizer; using opengm::Maximizer; using TransportSolver::MatrixWrapper;
VF_SCENARIO(plan_min_double, 2500, 200000) { solver<double, Minimizer, MatrixWrapper<double> >(c, 6); }
VF_SCENARIO(plan_max_double, 1500, 100000) { solver<double, Maximizer, Costs<double> >(c, 6); }
VF_SCENARIO(plan_min_float, 1000, 100000) { solver<float, Minimizer, Costs<float> >(c, 5); }
VF_SCENARIO(plan_max_float, 600, 60000) { solver<float, Maximizer, MatrixWrapper<float> >(c, 5); }
VF_SCENARIO(plan_large, 150, 8000) { solver<double, Minimizer, MatrixWrapper<double> >(c, 25); }
VF_SCENARIO(matrices, 400, 20000) { matrix<double>(c); }
VF_SCENARIO(matrices_float, 200, 10000) { matrix<float>(c); }
