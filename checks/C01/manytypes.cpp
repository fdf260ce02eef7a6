#include "manytypes.hpp"
VF_SCENARIO(typelist_a, 300, 12000) { switch(c.caseNo % 5) { case 0: run<1>(c); break; case 1: run<4>(c); break; case 2: run<5>(c); break; case 3: run<6>(c); break; default: run<7>(c); } }
