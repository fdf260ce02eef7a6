#include "gibbs.hpp"
VF_SCENARIO(TraceSum, 600, 20000) { gb::trace<double, opengm::Adder, opengm::Minimizer, size_t, size_t>(c); }
VF_SCENARIO(TraceSumSmall, 400, 20000) { gb::trace<float, opengm::Adder, opengm::Minimizer, unsigned, unsigned char>(c); }
VF_SCENARIO(StatisticsSum, 60, 600) { gb::statistics<double, opengm::Adder, opengm::Minimizer, size_t, size_t>(c); }
VF_SCENARIO(MarginalsSum, 300, 8000) { gb::marginals<double, opengm::Adder, opengm::Minimizer, size_t, size_t>(c); }
