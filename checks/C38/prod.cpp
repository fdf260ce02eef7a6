#include "fuse.hpp"
using namespace fz; typedef Gm<double, opengm::Multiplier>::Mixed M; typedef opengm::Maximizer Ma;
VF_SCENARIO(fuse_prod, 800, 40000) { fuse<M, Ma>(c); }
VF_SCENARIO(fuse_prod_min, 300, 20000) { fuse<M, opengm::Minimizer>(c); }
VF_SCENARIO(iterate_prod, 600, 30000) { iterate<M, Ma>(c); }
