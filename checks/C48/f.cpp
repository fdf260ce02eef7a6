#include "tags.hpp"
VF_SCENARIO(types6int, 300, 6000) { run<6, 5, 1, int, unsigned short, unsigned char, opengm::Adder, 1, 2>(c, "types6int"); }
VF_SCENARIO(types17prod, 200, 4000) { run<17, 3, 5, double, unsigned int, unsigned int, opengm::Multiplier, 2, 7>(c, "types17prod"); }
