#include "gibbs.hpp"
VF_SCENARIO(TraceProd, 600, 20000) { gb::trace<double, opengm::Multiplier, opengm::Maximizer, size_t, size_t>(c); }
VF_SCENARIO(TraceProdInt, 400, 20000) { gb::trace<double, opengm::Multiplier, opengm::Maximizer, int, int>(c); }
VF_SCENARIO(StatisticsProd, 60, 600) { gb::statistics<double, opengm::Multiplier, opengm::Maximizer, size_t, size_t>(c); }
VF_SCENARIO(MarginalsProd, 300, 8000) { gb::marginals<double, opengm::Multiplier, opengm::Maximizer, size_t, size_t>(c); }
