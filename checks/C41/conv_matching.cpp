#include <iostream>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <cmath>
#include <limits>
#include <algorithm>

#include <opengm/opengm.hxx>
#include <opengm/utilities/metaprogramming.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/graphicalmodel_hdf5.hxx>
#include <opengm/datastructures/marray/marray_hdf5.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/functions/pottsn.hxx>
#include <opengm/functions/pottsg.hxx>
#include <opengm/functions/truncated_absolute_difference.hxx>
#include <opengm/functions/truncated_squared_difference.hxx>
namespace {
#define main tool_main
#include <../src/converter/matching2opengm.cxx>
#undef main
}

namespace { int call(int (*m)(int, const char**), int n, char** a) { return m(n, (const char**)a); }
int call(int (*m)(int, char**), int n, char** a) { return m(n, a); } }
namespace c41 { int matching(int n, char** a) { return call(&tool_main, n, a); } }
