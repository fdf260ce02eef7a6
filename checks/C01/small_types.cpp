// small index, label and value types
#include "common.hpp"
using namespace vf;
typedef FnTypes<float, unsigned int, unsigned short> FS;
VF_SCENARIO(float_uint_ushort, 300, 12000) { runMixed<opengm::GraphicalModel<float, opengm::Adder, FS::All, opengm::DiscreteSpace<unsigned int, unsigned short> > >(c, E_SUM, "small"); }
