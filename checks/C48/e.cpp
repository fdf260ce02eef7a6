#include "tags.hpp"
VF_SCENARIO(types20, 400, 8000) { run<20, 3, 0, double, size_t, size_t, opengm::Adder, 9, 4>(c, "types20"); }
VF_SCENARIO(types34, 400, 8000) { run<34, 5, 3, double, size_t, size_t, opengm::Adder, 1, 1>(c, "types34"); }
