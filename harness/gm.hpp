// Bridges reference models to library models.
#pragma once
#include "models.hpp"
#include <opengm/opengm.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/simplediscretespace.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/operations/integrator.hxx>
#include <opengm/functions/explicit_function.hxx>

namespace vf {

template<class GM> GM emptyGm(const RefModel& m) {
   typedef typename GM::SpaceType Space;
   return GM(Space(m.labels.begin(), m.labels.end()));
}
// adds every factor as an explicit function (each its own function)
template<class GM> void addExplicit(GM& gm, const RefModel& m, size_t i) {
   typedef opengm::ExplicitFunction<typename GM::ValueType, typename GM::IndexType, typename GM::LabelType> F;
   std::vector<size_t> sh = m.shape(i);
   F f = sh.empty() ? F(typename GM::ValueType(m.f[i].tab[0])) : F(sh.begin(), sh.end());
   if(!sh.empty()) {
      std::vector<size_t> t(sh.size(), 0); size_t k = 0;
      do { f(t.begin()) = m.f[i].tab[k++]; } while(nextTuple(t, sh));
   }
   typename GM::FunctionIdentifier id = gm.addFunction(f);
   gm.addFactor(id, m.f[i].vars.begin(), m.f[i].vars.end());
}
template<class GM> GM buildExplicit(const RefModel& m) {
   GM gm = emptyGm<GM>(m);
   for(size_t i = 0; i < m.f.size(); ++i) addExplicit(gm, m, i);
   return gm;
}
template<class V> std::vector<size_t> toSize(const V& v) { return std::vector<size_t>(v.begin(), v.end()); }
inline bool validLabeling(const RefModel& m, const std::vector<size_t>& l) {
   if(l.size() != m.labels.size()) return false;
   for(size_t i = 0; i < l.size(); ++i) if(l[i] >= m.labels[i]) return false;
   return true;
}
// full comparison of a library model against its reference
template<class GM> bool sameModel(const GM& gm, const RefModel& m, std::string* why = 0) {
   std::ostringstream o;
   if(gm.numberOfVariables() != m.labels.size()) { o << "numberOfVariables " << gm.numberOfVariables(); if(why) *why = o.str(); return false; }
   if(gm.numberOfFactors() != m.f.size()) { o << "numberOfFactors " << gm.numberOfFactors(); if(why) *why = o.str(); return false; }
   for(size_t i = 0; i < m.labels.size(); ++i) if(gm.numberOfLabels(i) != m.labels[i]) { o << "numberOfLabels(" << i << ")=" << gm.numberOfLabels(i); if(why) *why = o.str(); return false; }
   for(size_t i = 0; i < m.f.size(); ++i) {
      if(gm[i].numberOfVariables() != m.f[i].vars.size()) { o << "factor " << i << " order " << gm[i].numberOfVariables(); if(why) *why = o.str(); return false; }
      for(size_t k = 0; k < m.f[i].vars.size(); ++k) if(gm[i].variableIndex(k) != m.f[i].vars[k] || gm[i].numberOfLabels(k) != m.labels[m.f[i].vars[k]]) { o << "factor " << i << " scope differs at " << k; if(why) *why = o.str(); return false; }
      std::vector<size_t> sh = m.shape(i), t(sh.size(), 0); size_t k = 0;
      do {
         std::vector<size_t> q = t; if(q.empty()) q.push_back(0);
         double v = (double)gm[i](q.begin());
         if(!(v == m.f[i].tab[k]) && !close(v, m.f[i].tab[k], 1e-12, 1e-12)) { o << "factor " << i << " at " << show(t) << " is " << v << " expected " << m.f[i].tab[k]; if(why) *why = o.str(); return false; }
         ++k;
      } while(nextTuple(t, sh));
   }
   return true;
}

} // namespace vf
