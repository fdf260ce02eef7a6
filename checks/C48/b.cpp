#include "tags.hpp"
VF_SCENARIO(types9, 400, 8000) { run<9, 4, 2, double, size_t, size_t, opengm::Adder, 1, 0>(c, "types9"); }
VF_SCENARIO(types10, 400, 8000) { run<10, 3, 1, double, size_t, size_t, opengm::Adder, 7, 2>(c, "types10"); }
VF_SCENARIO(types11, 400, 8000) { run<11, 5, 0, double, size_t, size_t, opengm::Adder, 1, 3>(c, "types11"); }
