#include "tags.hpp"
VF_SCENARIO(types17, 400, 8000) { run<17, 4, 1, double, size_t, size_t, opengm::Adder, 1, 0>(c, "types17"); }
VF_SCENARIO(types18, 400, 8000) { run<18, 7, 0, double, size_t, size_t, opengm::Adder, 5, 2>(c, "types18"); }
