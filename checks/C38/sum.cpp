#include "fuse.hpp"
using namespace fz; typedef Gm<double, opengm::Adder>::Mixed M; typedef opengm::Minimizer Mi;
VF_SCENARIO(fuse_sum, 1500, 60000) { fuse<M, Mi>(c); }
VF_SCENARIO(iterate_sum, 1200, 40000) { iterate<M, Mi>(c); }
VF_SCENARIO(blur_sum, 300, 10000) { blurred<M, Mi>(c); }
