#include "manytypes.hpp"
VF_SCENARIO(typelist_b, 180, 8000) { switch(c.caseNo % 3) { case 0: run<8>(c); break; case 1: run<9>(c); break; default: run<16>(c); } }
