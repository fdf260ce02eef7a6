#pragma once
#include <functions.hpp>
#include <opengm/graphicalmodel/graphicalmodel_explicit_storage.hxx>
#include <opengm/graphicalmodel/space/grid_space.hxx>
#include <opengm/graphicalmodel/space/simplediscretespace.hxx>
#include <memory>
using namespace vf;
namespace { template<class O> struct OpOf { static const Op op = SUM; }; template<> struct OpOf<opengm::Multiplier> { static const Op op = PROD; }; }
namespace {
template<class GM> void same(Ctx& c, const GM& gm, const RefModel& m, const std::string& key) {
   std::string why;
   VF_CHECK(sameModel(gm, m, &why), key, "library model differs from its reference: " << why);
   size_t order = 0;
   for(size_t i = 0; i < m.f.size(); ++i) order = std::max(order, m.f[i].vars.size());
   VF_CHECK(gm.factorOrder() == order, key + "/order", "factorOrder " << gm.factorOrder() << " expected " << order);
   std::vector<std::vector<size_t> > adj(m.labels.size());
   for(size_t i = 0; i < m.f.size(); ++i) for(size_t k = 0; k < m.f[i].vars.size(); ++k) adj[m.f[i].vars[k]].push_back(i);
   for(size_t v = 0; v < adj.size(); ++v) {
      std::vector<size_t> a(gm.factorsOfVariableBegin(v), gm.factorsOfVariableEnd(v));
      VF_CHECK(a == adj[v], key + "/adjacency", "factors of variable " << v << " are " << show(a));
   }
   std::vector<size_t> l(m.labels.size(), 0); size_t n = 0;
   do { double v = (double)gm.evaluate(l.begin()); VF_CHECK(close(v, m.eval(l, OpOf<typename GM::OperatorType>::op), 1e-6, 1e-9), key + "/evaluate", "value at " << show(l) << " is " << v); } while(nextTuple(l, m.labels) && ++n < 400);
}
}
