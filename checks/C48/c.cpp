#include "tags.hpp"
VF_SCENARIO(types15, 400, 8000) { run<15, 1, 0, double, size_t, size_t, opengm::Adder, 7, 3>(c, "types15"); }
VF_SCENARIO(types16, 400, 8000) { run<16, 5, 2, double, size_t, size_t, opengm::Adder, 3, 1>(c, "types16"); }
