// Learnable functions with the features they were given, kept as plain tables.
#pragma once
#include <vf.hpp>
#include <opengm/opengm.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/weights.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/learnable/lpotts.hxx>
#include <opengm/functions/learnable/lunary.hxx>
#include <opengm/functions/learnable/lweightedsum_of_functions.hxx>
namespace c09 {
using namespace vf;
inline double dy(Rng& r) { return r.range(-16, 16) / 4.0; }
struct Spec { int kind; std::vector<size_t> shape; std::vector<size_t> ids; std::vector<std::vector<double> > tab; bool firstConst, ownWeights; std::vector<std::vector<size_t> > perLabel; std::vector<double> shared; bool firstMajor; // one table per weight number
   Spec() : kind(0), firstConst(false), ownWeights(true), firstMajor(false) {}
   double value(size_t i, const std::vector<double>& w) const { double v = 0; for(size_t n = 0; n < ids.size(); ++n) v += w[ids[n]] * tab[n][i]; return v; }
   double gradient(size_t i, size_t id) const { double v = 0; for(size_t n = 0; n < ids.size(); ++n) if(ids[n] == id) v += tab[n][i]; return v; }
   std::string str() const { std::ostringstream o; const char* nm[] = {"potts", "unary-per-label", "unary-matrix", "weighted-sum"}; o << nm[kind] << show(shape) << "w" << show(ids); return o.str(); } };
inline Spec randSpec(Rng& r, size_t nw, int kind, const std::vector<size_t>& shape) {
   Spec s; s.kind = kind; s.shape = shape; const size_t sz = prod(shape); s.ownWeights = r.chance(0.6); s.firstMajor = r.chance(0.5);
   if(kind == 0) { const size_t n = r.chance(0.05) ? r.below(7) : r.below(4); for(size_t i = 0; i < n; ++i) { s.ids.push_back(r.below(nw)); const double f = dy(r); s.shared.push_back(f); std::vector<double> t; for(size_t b = 0; b < shape[1]; ++b) for(size_t a = 0; a < shape[0]; ++a) t.push_back(a == b ? 0 : f); s.tab.push_back(t); } }
   else if(kind == 1) { // distinct weights over all labels
      std::vector<size_t> all(nw); for(size_t i = 0; i < nw; ++i) all[i] = i; r.shuffle(all); s.perLabel.resize(shape[0]); size_t k = 0;
      for(size_t l = 0; l < shape[0]; ++l) { const size_t n = r.chance(0.05) ? r.below(10) : r.below(3); for(size_t i = 0; i < n && k < nw; ++i) { s.perLabel[l].push_back(s.ids.size()); s.ids.push_back(all[k++]); std::vector<double> t(shape[0], 0); t[l] = dy(r); s.tab.push_back(t); } } }
   else if(kind == 2) { s.firstConst = shape[0] > 1 && r.chance(0.5); const size_t n = 1 + r.below(3); for(size_t i = 0; i < n; ++i) s.shared.push_back(dy(r));
      for(size_t l = s.firstConst; l < shape[0]; ++l) for(size_t i = 0; i < n; ++i) { s.ids.push_back(r.below(nw)); std::vector<double> t(shape[0], 0); t[l] = s.shared[i]; s.tab.push_back(t); } }
   else { const size_t n = r.chance(0.05) ? r.below(7) : r.below(4); for(size_t i = 0; i < n; ++i) { s.ids.push_back(r.below(nw)); std::vector<double> t; for(size_t k = 0; k < sz; ++k) t.push_back(dy(r)); s.tab.push_back(t); } }
   return s;
}
template<class T> marray::Marray<T> table(const std::vector<size_t>& sh, const std::vector<double>& tab, bool firstMajor) {
   marray::Marray<T> m(sh.begin(), sh.end(), T(0), firstMajor ? marray::FirstMajorOrder : marray::LastMajorOrder); std::vector<size_t> t(sh.size(), 0); size_t i = 0; do m(t.begin()) = T(tab[i++]); while(nextTuple(t, sh)); return m; }
template<class T, class I, class L> struct Types { typedef opengm::functions::learnable::LPotts<T, I, L> P; typedef opengm::functions::learnable::LUnary<T, I, L> U; typedef opengm::functions::learnable::LWeightedSumOfFunctions<T, I, L> S; typedef opengm::learning::Weights<T> W; };
template<class T, class I, class L, class V> void withFunction(const Spec& s, const opengm::learning::Weights<T>& w, V& vis) {
   typedef Types<T, I, L> Y; 
   if(s.kind == 0) { std::vector<T> f(s.shared.begin(), s.shared.end()); if(s.ownWeights) { typename Y::P p(w, (L)s.shape[0], s.ids, f); vis(p); } else { typename Y::P p((L)s.shape[0], s.ids, f); p.setWeights(w); vis(p); } }
   else if(s.kind == 1) { std::vector<opengm::functions::learnable::FeaturesAndIndices<T, I> > fi(s.shape[0]); for(size_t l = 0; l < fi.size(); ++l) for(size_t i = 0; i < s.perLabel[l].size(); ++i) { const size_t n = s.perLabel[l][i]; fi[l].features.push_back((T)s.tab[n][l]); fi[l].weightIds.push_back((I)s.ids[n]); } typename Y::U u(w, fi); vis(u); }
   else if(s.kind == 2) { const size_t rows = s.shape[0] - s.firstConst, n = s.shared.size(); size_t sh[] = {rows, n}; marray::Marray<size_t> ids(sh, sh + 2, 0, s.firstMajor ? marray::FirstMajorOrder : marray::LastMajorOrder); for(size_t l = 0; l < rows; ++l) for(size_t i = 0; i < n; ++i) ids(l, i) = s.ids[l * n + i];
      marray::Marray<T> f(sh + 1, sh + 2); for(size_t i = 0; i < n; ++i) f(i) = (T)s.shared[i]; typename Y::U u(w, (L)s.shape[0], ids, f, s.firstConst); vis(u); }
   else { std::vector<marray::Marray<T> > f; for(size_t n = 0; n < s.ids.size(); ++n) f.push_back(table<T>(s.shape, s.tab[n], s.firstMajor)); typename Y::S u(std::vector<L>(s.shape.begin(), s.shape.end()), w, s.ids, f); vis(u); }
}
}
