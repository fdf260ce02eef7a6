#include "fuse.hpp"
using namespace fz; typedef Gm<double, opengm::Adder, unsigned int, unsigned char>::Mixed M; typedef opengm::Maximizer Ma;
VF_SCENARIO(fuse_max, 800, 40000) { fuse<M, Ma>(c); }
VF_SCENARIO(iterate_max, 800, 30000) { iterate<M, Ma>(c); }
VF_SCENARIO(blur_max, 200, 8000) { blurred<M, Ma>(c); }
