// independent factors built from plain tables, and their comparison
#pragma once
#include "functions.hpp"
namespace vf {
template<class Ind> Ind makeInd(Rng& r, const RefModel& m, const RefFactor& f) {
   std::vector<size_t> sh; for(size_t k = 0; k < f.vars.size(); ++k) sh.push_back(m.labels[f.vars[k]]);
   typedef typename Ind::ValueType T;
   if(f.vars.empty() && r.chance(0.5)) return Ind(T(f.tab[0]));
   Ind g; const size_t how = r.below(4);
   if(how == 0) g = Ind(f.vars.begin(), f.vars.end(), sh.begin(), sh.end());
   else if(how == 1) g = Ind(f.vars.begin(), f.vars.end(), sh.begin(), sh.end(), T(3));
   else if(how == 2) g.assign(f.vars.begin(), f.vars.end(), sh.begin(), sh.end());
   else g.assign(f.vars.begin(), f.vars.end(), sh.begin(), sh.end(), T(7));
   std::vector<size_t> t(sh.size(), 0); size_t k = 0;
   do { std::vector<size_t> q = t; q.push_back(0); g(q.begin()) = T(f.tab[k++]); } while(nextTuple(t, sh));
   return g;
}
template<class F> std::string diffFactor(const F& g, const RefModel& m, const RefFactor& f, double tol = 0) {
   std::ostringstream o; const F& cg = g;
   std::vector<size_t> sh, vi(cg.variableIndicesBegin(), cg.variableIndicesEnd()); for(size_t k = 0; k < f.vars.size(); ++k) sh.push_back(m.labels[f.vars[k]]);
   if(vi != f.vars || cg.numberOfVariables() != f.vars.size()) { o << "variables " << show(vi) << " expected " << show(f.vars); return o.str(); }
   for(size_t k = 0; k < sh.size(); ++k) if(cg.numberOfLabels(k) != sh[k] || cg.shape(k) != sh[k] || cg.variableIndex(k) != f.vars[k]) { o << "shape at " << k; return o.str(); }
   if(cg.size() != f.tab.size()) { o << "size " << cg.size() << " expected " << f.tab.size(); return o.str(); }
   std::vector<size_t> t(sh.size(), 0); size_t k = 0;
   do { std::vector<size_t> q = t; q.push_back(0); const double v = (double)cg(q.begin());
      if(!(v == f.tab[k]) && !(std::isnan(v) && std::isnan(f.tab[k])) && !(tol > 0 && close(v, f.tab[k], tol, tol))) { o << "at " << show(t) << " value " << v << " expected " << f.tab[k] << " (variables " << show(f.vars) << " shape " << show(sh) << ")"; return o.str(); } ++k; } while(nextTuple(t, sh));
   return std::string();
}
// value of a table at the labels its variables have in a labeling of the model
inline double valueAt(const RefModel& m, const RefFactor& f, const std::vector<size_t>& l) {
   size_t i = 0, st = 1; for(size_t k = 0; k < f.vars.size(); ++k) { i += st * l[f.vars[k]]; st *= m.labels[f.vars[k]]; } return f.tab[i];
}
template<class FN> RefFactor combine(const RefModel& m, const RefFactor& a, const RefFactor& b, FN fn) {
   RefFactor c; std::set<size_t> u(a.vars.begin(), a.vars.end()); u.insert(b.vars.begin(), b.vars.end()); c.vars.assign(u.begin(), u.end());
   std::vector<size_t> sh, l(m.labels.size(), 0); for(size_t k = 0; k < c.vars.size(); ++k) sh.push_back(m.labels[c.vars[k]]);
   std::vector<size_t> t(sh.size(), 0);
   do { for(size_t k = 0; k < t.size(); ++k) l[c.vars[k]] = t[k]; c.tab.push_back(fn(valueAt(m, a, l), valueAt(m, b, l))); } while(nextTuple(t, sh));
   return c;
}
inline RefFactor constantRef(double v) { RefFactor f; f.tab.push_back(v); return f; }
inline RefFactor randRef(Rng& r, const RefModel& m, size_t maxOrder, Style s, double pConst = 0.1) {
   RefModel q; q.labels = m.labels; addRandFactor(r, q, r.chance(pConst) ? std::vector<size_t>() : randScope(r, m.labels.size(), 1 + r.below(maxOrder)), s); return q.f[0];
}
} // namespace vf
