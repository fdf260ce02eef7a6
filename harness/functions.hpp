// Random functions of every serialisable library type, together with the value
// table their documented formula prescribes (computed without the library).
#pragma once
#include "gm.hpp"
#include <type_traits>
#include <opengm/functions/potts.hxx>
#include <opengm/functions/pottsn.hxx>
#include <opengm/functions/pottsg.hxx>
#include <opengm/functions/absolute_difference.hxx>
#include <opengm/functions/squared_difference.hxx>
#include <opengm/functions/truncated_absolute_difference.hxx>
#include <opengm/functions/truncated_squared_difference.hxx>
#include <opengm/functions/sparsemarray.hxx>
#include <opengm/functions/constant.hxx>

namespace vf {

template<class T, class I, class L> struct FnTypes {
   typedef opengm::ExplicitFunction<T, I, L> Explicit;
   typedef opengm::PottsFunction<T, I, L> Potts;
   typedef opengm::PottsNFunction<T, I, L> PottsN;
   typedef opengm::PottsGFunction<T, I, L> PottsG;
   typedef opengm::AbsoluteDifferenceFunction<T, I, L> AbsDiff;
   typedef opengm::TruncatedAbsoluteDifferenceFunction<T, I, L> TAbsDiff;
   typedef opengm::SquaredDifferenceFunction<T, I, L> SqDiff;
   typedef opengm::TruncatedSquaredDifferenceFunction<T, I, L> TSqDiff;
   typedef opengm::SparseFunction<T, I, L> Sparse;
   typedef opengm::ConstantFunction<T, I, L> Constant;
   typedef typename opengm::meta::TypeListGenerator<Explicit, Potts, PottsN, PottsG, AbsDiff, TAbsDiff, SqDiff, TSqDiff, Sparse, Constant>::type All;
   typedef typename opengm::meta::TypeListGenerator<Sparse, Constant, TSqDiff, SqDiff, TAbsDiff, AbsDiff, PottsG, PottsN, Potts, Explicit>::type AllReversed;
   typedef typename opengm::meta::TypeListGenerator<PottsN, Explicit, Potts>::type Three;
   typedef typename opengm::meta::TypeListGenerator<Explicit, Potts>::type Two;
};

enum FnKind { F_EXPLICIT, F_POTTS, F_POTTSN, F_POTTSG, F_ABS, F_TABS, F_SQ, F_TSQ, F_SPARSE, F_CONST, F_NKINDS };
inline const char* fnName(FnKind k) { const char* n[] = {"explicit","potts","pottsn","pottsg","absdiff","tabsdiff","sqdiff","tsqdiff","sparse","constant"}; return n[k]; }

// parameters of one function, and its table
struct FnSpec {
   FnKind kind; std::vector<size_t> shape; std::vector<double> par, tab;
   std::map<std::vector<size_t>, double> sparse;
   std::string str() const { std::ostringstream o; o << fnName(kind) << show(shape) << "par" << show(par); return o.str(); }
};
inline size_t bell(size_t n) { static const size_t b[] = {1,1,2,5,15,52,203,877,4140}; return b[n]; }

// canonical identifier of the equality pattern of a tuple, as the library
// documents it for orders up to four: bit (i,j) is set when x_i == x_j
inline size_t pairBits(const std::vector<size_t>& t) {
   size_t r = 0, bit = 1;
   for(size_t i = 1; i < t.size(); ++i) for(size_t j = 0; j < i; ++j) { if(t[i] == t[j]) r += bit; bit *= 2; }
   return r;
}
inline void validPatterns(size_t d, std::vector<size_t>& out) { // all partition patterns of d elements, ascending
   std::set<size_t> s; std::vector<size_t> sh(d, d), t(d, 0);
   do s.insert(pairBits(t)); while(nextTuple(t, sh));
   out.assign(s.begin(), s.end());
}

// kinds usable for the given arity
inline FnKind randKind(Rng& r, size_t order) {
   if(order == 0) return F_EXPLICIT;
   if(order == 1) { const FnKind k[] = {F_EXPLICIT, F_EXPLICIT, F_SPARSE, F_CONST, F_POTTSN, F_POTTSG}; return k[r.below(6)]; }
   if(order == 2) return (FnKind)r.below(F_NKINDS);
   const FnKind k[] = {F_EXPLICIT, F_POTTSN, F_POTTSG, F_SPARSE, F_CONST}; return k[r.below(5)];
}
inline FnSpec randSpec(Rng& r, FnKind kind, const std::vector<size_t>& shape, Style st) {
   FnSpec s; s.kind = kind; s.shape = shape; const size_t d = shape.size();
   std::vector<size_t> pat;
   if(kind == F_POTTS || kind == F_POTTSN || kind == F_TABS || kind == F_TSQ) { s.par.push_back(drawValue(r, st)); s.par.push_back(drawValue(r, st)); }
   if(kind == F_TABS || kind == F_TSQ) s.par[0] = st == SMALLINT ? (double)r.range(0, 8) : r.range(0, 12) / 2.0;
   if(kind == F_ABS || kind == F_SQ || kind == F_CONST) s.par.push_back(drawValue(r, st));
   if(kind == F_POTTSG) { validPatterns(d, pat); for(size_t i = 0; i < pat.size(); ++i) s.par.push_back(drawValue(r, st)); }
   if(kind == F_SPARSE) {
      s.par.push_back(drawValue(r, st));
      size_t n = r.below(prod(shape) + 1);
      for(size_t i = 0; i < n; ++i) { std::vector<size_t> t(d); for(size_t k = 0; k < d; ++k) t[k] = r.below(shape[k]); s.sparse[t] = drawValue(r, st); }
   }
   std::vector<size_t> t(d, 0);
   do {
      double v = 0, df = d == 2 ? std::fabs((double)t[0] - (double)t[1]) : 0; bool eq = true; for(size_t k = 1; k < d; ++k) eq = eq && t[k] == t[0];
      switch(kind) {
      case F_EXPLICIT: v = drawValue(r, st); break;
      case F_POTTS: case F_POTTSN: v = eq ? s.par[0] : s.par[1]; break;
      case F_POTTSG: v = s.par[std::lower_bound(pat.begin(), pat.end(), pairBits(t)) - pat.begin()]; break;
      case F_ABS: v = df * s.par[0]; break;
      case F_TABS: v = std::min(df, s.par[0]) * s.par[1]; break;
      case F_SQ: v = df * df * s.par[0]; break;
      case F_TSQ: v = std::min(df * df, s.par[0]) * s.par[1]; break;
      case F_SPARSE: v = s.sparse.count(t) ? s.sparse[t] : s.par[0]; break;
      case F_CONST: v = s.par[0]; break;
      default: break;
      }
      s.tab.push_back(v);
   } while(nextTuple(t, shape));
   return s;
}

// calls a generic visitor with the library function made from the spec
template<class T, class I, class L, class V> void withFunction(const FnSpec& s, V& vis) {
   typedef FnTypes<T, I, L> F;
   const std::vector<size_t>& sh = s.shape;
   std::vector<L> shape(sh.begin(), sh.end());
   switch(s.kind) {
   case F_EXPLICIT: {
      typename F::Explicit f = sh.empty() ? typename F::Explicit(T(s.tab[0])) : typename F::Explicit(shape.begin(), shape.end());
      if(!sh.empty()) { std::vector<size_t> t(sh.size(), 0); size_t k = 0; do f(t.begin()) = T(s.tab[k++]); while(nextTuple(t, sh)); }
      vis(f); break; }
   case F_POTTS: { typename F::Potts f(sh[0], sh[1], T(s.par[0]), T(s.par[1])); vis(f); break; }
   case F_POTTSN: { typename F::PottsN f(shape.begin(), shape.end(), T(s.par[0]), T(s.par[1])); vis(f); break; }
   case F_POTTSG: {
      if(sh.size() <= 4 && s.par.size() % 2 == 0) { std::vector<T> v(s.par.begin(), s.par.end()); typename F::PottsG f(shape.begin(), shape.end(), v.begin()); vis(f); }
      else { typename F::PottsG f(shape.begin(), shape.end()); std::vector<size_t> t(sh.size(), 0); size_t k = 0; do f.setByLabel(t.begin(), T(s.tab[k++])); while(nextTuple(t, sh)); vis(f); }
      break; }
   case F_ABS: { typename F::AbsDiff f(sh[0], sh[1], T(s.par[0])); vis(f); break; }
   case F_TABS: { typename F::TAbsDiff f(sh[0], sh[1], T(s.par[0]), T(s.par[1])); vis(f); break; }
   case F_SQ: { typename F::SqDiff f(sh[0], sh[1], T(s.par[0])); vis(f); break; }
   case F_TSQ: { typename F::TSqDiff f(sh[0], sh[1], T(s.par[0]), T(s.par[1])); vis(f); break; }
   case F_SPARSE: { typename F::Sparse f(shape.begin(), shape.end(), T(s.par[0])); for(std::map<std::vector<size_t>, double>::const_iterator it = s.sparse.begin(); it != s.sparse.end(); ++it) f.insert(it->first.begin(), T(it->second)); vis(f); break; }
   case F_CONST: { typename F::Constant f(shape.begin(), shape.end(), T(s.par[0])); vis(f); break; }
   default: break;
   }
}
template<class GM> struct AddFn {
   GM& gm; typename GM::FunctionIdentifier id; int how;
   AddFn(GM& g, int h) : gm(g), how(h) {}
   template<class F> void operator()(const F& f) { add(f, std::integral_constant<bool, opengm::meta::HasTypeInTypeList<typename GM::FunctionTypeList, F>::value>()); }
   template<class F> void add(const F&, std::false_type) { throw std::logic_error("harness: function type not in the model's list"); }
   template<class F> void add(const F& f, std::true_type) {
      if(how == 1) id = gm.addSharedFunction(f);
      else if(how == 2) id = gm.template addFunctionWithRefReturn<F>(f).first;
      else id = gm.addFunction(f);
   }
};
template<class GM> typename GM::FunctionIdentifier addSpec(GM& gm, const FnSpec& s, int how = 0) {
   AddFn<GM> a(gm, how);
   withFunction<typename GM::ValueType, typename GM::IndexType, typename GM::LabelType>(s, a);
   return a.id;
}

// A model whose factors use all function kinds, some sharing one function.
struct MixedModel {
   std::vector<FnSpec> fn; std::vector<size_t> fnOfFactor; RefModel ref;
   std::string str() const { std::ostringstream o; o << "labels" << show(ref.labels); for(size_t i = 0; i < ref.f.size(); ++i) o << " " << show(ref.f[i].vars) << ":" << fn[fnOfFactor[i]].str(); return o.str(); }
};
inline MixedModel randMixed(Rng& r, size_t minV, size_t maxV, size_t minL, size_t maxL, size_t maxOrder, size_t maxF, Style st, double pConst = 0.1, bool sameLabels = false, size_t maxConfigs = 2048, const std::vector<FnKind>* kinds = 0) {
   MixedModel m; widen(r, minV, maxV, minL, maxL, maxOrder);
   do { m.ref.labels = randLabels(r, minV + r.below(maxV - minV + 1), minL, maxL); if(sameLabels || r.chance(0.4)) std::fill(m.ref.labels.begin(), m.ref.labels.end(), m.ref.labels.empty() ? 0 : m.ref.labels[0]); } while(m.ref.configs() > maxConfigs);
   const size_t nf = r.below(maxF + 1);
   for(size_t i = 0; i < nf; ++i) {
      size_t k = r.chance(pConst) ? 0 : 1 + r.below(maxOrder);
      std::vector<size_t> sc = randScope(r, m.ref.labels.size(), k);
      std::vector<size_t> sh; for(size_t j = 0; j < sc.size(); ++j) sh.push_back(m.ref.labels[sc[j]]);
      size_t fi = m.fn.size();
      if(r.chance(0.4)) for(size_t j = 0; j < m.fn.size(); ++j) if(m.fn[j].shape == sh) { fi = j; if(r.chance(0.5)) break; }
      if(fi == m.fn.size()) {
         FnKind kd = randKind(r, sc.size());
         if(kinds) { size_t tries = 0; while(std::find(kinds->begin(), kinds->end(), kd) == kinds->end() && tries++ < 50) kd = randKind(r, sc.size()); if(std::find(kinds->begin(), kinds->end(), kd) == kinds->end()) kd = F_EXPLICIT; }
         if(kd == F_POTTSG && sh.size() > 5) kd = F_EXPLICIT; // its patterns are too many
         m.fn.push_back(randSpec(r, kd, sh, st));
      }
      m.fnOfFactor.push_back(fi);
      RefFactor f; f.vars = sc; f.tab = m.fn[fi].tab; m.ref.f.push_back(f);
   }
   return m;
}
template<class GM> void fillMixed(Rng& r, GM& gm, const MixedModel& m, bool nonFinalized = false) {
   std::vector<typename GM::FunctionIdentifier> id;
   for(size_t i = 0; i < m.fn.size(); ++i) id.push_back(addSpec(gm, m.fn[i], r.chance(0.5) ? 0 : 1 + (int)r.below(2)));
   for(size_t i = 0; i < m.ref.f.size(); ++i) {
      const std::vector<size_t>& v = m.ref.f[i].vars;
      if(nonFinalized) gm.addFactorNonFinalized(id[m.fnOfFactor[i]], v.begin(), v.end());
      else gm.addFactor(id[m.fnOfFactor[i]], v.begin(), v.end());
   }
   if(nonFinalized) gm.finalize();
}
template<class GM> GM buildMixed(Rng& r, const MixedModel& m) {
   GM gm = emptyGm<GM>(m.ref); fillMixed(r, gm, m, r.chance(0.2)); return gm;
}

} // namespace vf
