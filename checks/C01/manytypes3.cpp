#include "manytypes.hpp"
VF_SCENARIO(typelist_c, 120, 6000) { switch(c.caseNo % 2) { case 0: run<17>(c); break; default: run<19>(c); } }
