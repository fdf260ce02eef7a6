// Shadow of indicator variables and linear constraints: plain lists of pairs
// and terms, evaluated here.
#pragma once
#include <vf.hpp>
#include <opengm/opengm.hxx>
#include <opengm/datastructures/linear_constraint.hxx>
namespace c18 {
using namespace vf;
struct RefInd { int op; std::vector<std::pair<size_t, size_t> > p; RefInd() : op(0) {}
   template<class V> bool at(const V& l) const { size_t m = 0; for(size_t i = 0; i < p.size(); ++i) if((size_t)l[p[i].first] == p[i].second) ++m; return op == 0 ? m == p.size() : op == 1 ? m > 0 : m == 0; }
   std::pair<int, std::multiset<std::pair<size_t, size_t> > > key() const { return std::make_pair(op, std::multiset<std::pair<size_t, size_t> >(p.begin(), p.end())); }
   std::string str() const { std::ostringstream o; o << "&|!"[op]; for(size_t i = 0; i < p.size(); ++i) o << "(" << p[i].first << "," << p[i].second << ")"; return o.str(); }
};
inline RefInd randInd(Rng& r, size_t nv, const std::vector<size_t>& labels, size_t minP, size_t maxP) { RefInd x; x.op = r.below(3); const size_t n = minP + r.below(maxP - minP + 1); for(size_t i = 0; i < n; ++i) { const size_t v = r.below(nv); x.p.push_back(std::make_pair(v, r.below(labels[v]))); } return x; }
template<class IV> typename IV::LogicalOperatorType opOf(int o) { return o == 0 ? IV::And : o == 1 ? IV::Or : IV::Not; }
template<class IV> IV makeInd(Rng& r, const RefInd& x) {
   typedef typename IV::VariableLabelPair P; std::vector<P> ps; for(size_t i = 0; i < x.p.size(); ++i) ps.push_back(P(x.p[i].first, x.p[i].second));
   r.shuffle(ps);
   switch(r.below(6)) {
   case 0: return IV(ps, opOf<IV>(x.op));
   case 1: { std::list<P> l(ps.begin(), ps.end()); return IV(l.begin(), l.end(), opOf<IV>(x.op)); }
   case 2: { IV v; v.reserve(r.below(8)); v.setLogicalOperatorType(opOf<IV>(x.op)); for(size_t i = 0; i < ps.size(); ++i) { if(r.chance(0.5)) v.add(ps[i]); else v.add(ps[i].first, ps[i].second); } return v; }
   case 3: { IV v; const size_t k = r.below(ps.size() + 1); v.add(std::vector<P>(ps.begin(), ps.begin() + k)); v.add(ps.begin() + k, ps.end()); v.setLogicalOperatorType(opOf<IV>(x.op)); return v; }
   case 4: { if(ps.empty()) { IV v; v.setLogicalOperatorType(opOf<IV>(x.op)); return v; } IV v(ps[0], opOf<IV>(x.op)); for(size_t i = 1; i < ps.size(); ++i) v.add(ps[i]); IV w(v); return w; }
   default: { if(ps.empty()) { IV v; v.setLogicalOperatorType(opOf<IV>(x.op)); return v; } IV v(ps[0].first, ps[0].second, opOf<IV>(x.op)); v.add(ps.begin() + 1, ps.end()); IV w; w = v; return w; }
   }
}
template<class IV> bool sameInd(const IV& v, const RefInd& x) {
   if(v.getLogicalOperatorType() != opOf<IV>(x.op)) return false;
   std::multiset<std::pair<size_t, size_t> > s; for(typename IV::IteratorType i = v.begin(); i != v.end(); ++i) s.insert(std::make_pair((size_t)i->first, (size_t)i->second));
   return s == x.key().second;
}
struct RefCon { std::vector<RefInd> v; std::vector<double> c; double bound; int rel; RefCon() : bound(0), rel(0) {}
   double weight(double lhs) const { const double w = lhs - bound; return rel == 0 ? std::max(w, 0.0) : rel == 1 ? std::fabs(w) : std::max(-w, 0.0); }
   template<class V> double lhs(const V& l) const { double s = 0; for(size_t i = 0; i < v.size(); ++i) if(v[i].at(l)) s += c[i]; return s; }
   std::string str() const { std::ostringstream o; for(size_t i = 0; i < v.size(); ++i) o << (i ? "+" : "") << c[i] << "*" << v[i].str(); o << (rel == 0 ? "<=" : rel == 1 ? "==" : ">=") << bound; return o.str(); }
   void digest(Ctx& x) const { x.digest(rel); x.digestD(bound); for(size_t i = 0; i < v.size(); ++i) { x.digestD(c[i]); x.digest(v[i].op); for(size_t k = 0; k < v[i].p.size(); ++k) { x.digest(v[i].p[k].first); x.digest(v[i].p[k].second); } } }
};
inline double dy(Rng& r) { return r.range(-16, 16) / 4.0; }
inline RefCon randCon(Rng& r, size_t nv, const std::vector<size_t>& labels, size_t minN, size_t maxN, size_t minP, size_t maxP) {
   RefCon x; const size_t n = minN + r.below(maxN - minN + 1); for(size_t i = 0; i < n; ++i) { x.v.push_back(i && r.chance(0.2) ? x.v[r.below(i)] : randInd(r, nv, labels, minP, maxP)); x.c.push_back(dy(r)); } x.bound = dy(r); x.rel = r.below(3); return x; }
template<class LC> typename LC::LinearConstraintOperatorValueType relOf(int o) { typedef typename LC::LinearConstraintOperatorType O; return o == 0 ? O::LessEqual : o == 1 ? O::Equal : O::GreaterEqual; }
template<class LC> LC makeCon(Rng& r, const RefCon& x) {
   typedef typename LC::IndicatorVariableType IV; typedef typename LC::ValueType T; std::vector<IV> v; for(size_t i = 0; i < x.v.size(); ++i) v.push_back(makeInd<IV>(r, x.v[i])); std::vector<T> c(x.c.begin(), x.c.end());
   switch(r.below(5)) {
   case 0: return LC(v, c, x.bound, relOf<LC>(x.rel));
   case 1: { std::list<IV> l(v.begin(), v.end()); return LC(l.begin(), l.end(), c.begin(), x.bound, relOf<LC>(x.rel)); }
   case 2: { LC k; k.reserve(r.below(5)); for(size_t i = 0; i < v.size(); ++i) k.add(v[i], c[i]); k.setBound(x.bound); k.setConstraintOperator(relOf<LC>(x.rel)); return k; }
   case 3: { LC k; const size_t m = r.below(v.size() + 1); k.add(std::vector<IV>(v.begin(), v.begin() + m), std::vector<T>(c.begin(), c.begin() + m)); k.setConstraintOperator(relOf<LC>(x.rel)); k.add(v.begin() + m, v.end(), c.begin() + m); k.setBound(x.bound); LC k2(k); return k2; }
   default: { LC k; k.setBound(x.bound); k.setConstraintOperator(relOf<LC>(x.rel)); if(v.size()) { k.add(v[0], c[0]); k.add(v.begin() + 1, v.end(), c.begin() + 1); } LC k2; k2 = k; return k2; }
   }
}
template<class LC> std::string conDiff(const LC& k, const RefCon& x) {
   // the documented form is a sum, so terms of the same indicator variable add up
   std::map<std::pair<int, std::multiset<std::pair<size_t, size_t> > >, double> a, b;
   typename LC::IndicatorVariablesIteratorType i = k.indicatorVariablesBegin(); typename LC::CoefficientsIteratorType c = k.coefficientsBegin();
   if(k.indicatorVariablesEnd() - i != k.coefficientsEnd() - c) return "as many coefficients as indicator variables";
   for(; i != k.indicatorVariablesEnd(); ++i, ++c) { RefInd y; y.op = i->getLogicalOperatorType() == LC::IndicatorVariableType::And ? 0 : i->getLogicalOperatorType() == LC::IndicatorVariableType::Or ? 1 : 2;
      for(typename LC::VariableLabelPairsIteratorType p = i->begin(); p != i->end(); ++p) y.p.push_back(std::make_pair((size_t)p->first, (size_t)p->second)); a[y.key()] += *c; }
   for(size_t j = 0; j < x.v.size(); ++j) b[x.v[j].key()] += x.c[j];
   if(a != b) return "terms"; if((double)k.getBound() != x.bound) return "bound"; if(k.getConstraintOperator() != relOf<LC>(x.rel)) return "relation"; return "";
}
}
