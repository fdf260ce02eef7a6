#pragma once
// user-defined function types; type lists of every length 4..9 and 17..18 take different dispatch code
#include "common.hpp"
using namespace vf;
namespace {
template<int K> class Lin : public opengm::FunctionBase<Lin<K>, double, size_t, size_t> {
public:
   typedef double ValueType; typedef size_t IndexType; typedef size_t LabelType;
   Lin() : a_(0) {}
   Lin(const std::vector<size_t>& s, double a) : shape_(s), a_(a) {}
   size_t shape(size_t i) const { return shape_[i]; }
   size_t dimension() const { return shape_.size(); }
   size_t size() const { return prod(shape_); }
   template<class IT> double operator()(IT it) const { double v = a_ + K * 1000; for(size_t i = 0; i < shape_.size(); ++i) v += (i + 1) * (K % 5 + 1) * (double)it[i]; return v; }
   bool operator==(const Lin& o) const { return shape_ == o.shape_ && a_ == o.a_; }
private: std::vector<size_t> shape_; double a_;
};
double linRef(int K, double a, const std::vector<size_t>& t) { double v = a + K * 1000; for(size_t i = 0; i < t.size(); ++i) v += (i + 1) * (K % 5 + 1) * (double)t[i]; return v; }
template<int N, class REST> struct TL { typedef typename TL<N - 1, opengm::meta::TypeList<Lin<N - 1>, REST> >::type type; };
template<class REST> struct TL<0, REST> { typedef REST type; };
template<class GM, int K, int N> struct AddK { static typename GM::FunctionIdentifier add(GM& gm, int k, const std::vector<size_t>& s, double a) { if(k == K) return gm.addFunction(Lin<K>(s, a)); return AddK<GM, K + 1, N>::add(gm, k, s, a); } };
template<class GM, int N> struct AddK<GM, N, N> { static typename GM::FunctionIdentifier add(GM& gm, int, const std::vector<size_t>&, double) { throw Skip(); } };
template<int N> void run(Ctx& c) {
   typedef opengm::GraphicalModel<double, opengm::Adder, typename TL<N, opengm::meta::ListEnd>::type> GM;
   RefModel m; m.labels = randLabels(c.rng, 1 + c.rng.below(5), 1, 4);
   GM gm = emptyGm<GM>(m);
   std::ostringstream tg; tg << "types" << N;
   const size_t nf = 1 + c.rng.below(2 * N);
   std::vector<int> ks;
   for(size_t i = 0; i < nf; ++i) {
      const int k = c.rng.below(N); const double a = c.rng.range(-8, 8) / 4.0; ks.push_back(k);
      RefFactor f; f.vars = randScope(c.rng, m.labels.size(), c.rng.below(4));
      m.f.push_back(f); std::vector<size_t> sh = m.shape(i), t(sh.size(), 0);
      do m.f[i].tab.push_back(linRef(k, a, t)); while(nextTuple(t, sh));
      gm.addFactor(AddK<GM, 0, N>::add(gm, k, sh, a), f.vars.begin(), f.vars.end());
      VF_CHECK((int)gm[i].functionType() == k, tg.str() + "/functionType", "function type " << (int)gm[i].functionType() << " expected " << k);
   }
   c.desc << "N=" << N << " kinds" << show(ks) << " " << m.brief(); m.digest(c); c.digestV(ks);
   std::vector<size_t> cnt(N, 0); for(size_t i = 0; i < nf; ++i) { VF_CHECK(gm[i].functionIndex() == cnt[ks[i]], tg.str() + "/functionIndex", "function index " << gm[i].functionIndex()); ++cnt[ks[i]]; }
   for(int k = 0; k < N; ++k) VF_CHECK(gm.numberOfFunctions(k) == cnt[k], tg.str() + "/numberOfFunctions", "functions of type " << k << ": " << gm.numberOfFunctions(k) << " expected " << cnt[k]);
   checkFactors(c, gm, m, tg.str());
   checkEvaluate(c, gm, m, E_SUM, tg.str(), 200);
}
}
