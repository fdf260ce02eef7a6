#include "tags.hpp"
VF_SCENARIO(types1, 400, 8000) { run<1, 1, 0, double, size_t, size_t, opengm::Adder, 1, 0>(c, "types1"); }
VF_SCENARIO(types2, 400, 8000) { run<2, 1, 1, double, size_t, size_t, opengm::Adder, 1, 0>(c, "types2"); }
VF_SCENARIO(types3, 400, 8000) { run<3, 2, 1, double, size_t, size_t, opengm::Adder, 1, 2>(c, "types3"); }
VF_SCENARIO(types4, 400, 8000) { run<4, 3, 0, double, size_t, size_t, opengm::Adder, 1, 1>(c, "types4"); }
