#include "dp.hpp"
typedef sv::Gm<float, opengm::Adder, unsigned, unsigned char>::Mixed M;
VF_SCENARIO(dynamic_b, 400, 15000) { c23::dynamic<M, opengm::Maximizer>(c); }
