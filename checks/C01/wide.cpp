// Models that are large in one direction: order, number of variables and
// factors, number of labels
#include "common.hpp"
using namespace vf;
namespace {
typedef FnTypes<double, size_t, size_t> FD;
template<class GM> void wideOrder(Ctx& c, const std::string& tag) {
   MixedModel m; const size_t n = 8 + c.rng.below(5); m.ref.labels = randLabels(c.rng, n, 1, 2); if(c.rng.chance(0.5)) m.ref.labels[c.rng.below(n)] = 3;
   const size_t nf = 1 + c.rng.below(4);
   for(size_t i = 0; i < nf; ++i) {
      std::vector<size_t> v = randScope(c.rng, n, 5 + c.rng.below(n - 4)), sh; for(size_t j = 0; j < v.size(); ++j) sh.push_back(m.ref.labels[v[j]]);
      const FnKind k[] = {F_EXPLICIT, F_POTTSN, F_SPARSE, F_CONST};
      m.fn.push_back(randSpec(c.rng, k[c.rng.below(4)], sh, sumStyle(c.rng))); m.fnOfFactor.push_back(i);
      RefFactor f; f.vars = v; f.tab = m.fn[i].tab; m.ref.f.push_back(f);
   }
   note(c, m); GM gm = buildMixed<GM>(c.rng, m);
   checkFactors(c, gm, m.ref, tag); checkEvaluate(c, gm, m.ref, E_SUM, tag, 60);
}
}
VF_SCENARIO(wide_order, 60, 1500) { wideOrder<opengm::GraphicalModel<double, opengm::Adder, FD::All> >(c, "wide-order"); }
VF_SCENARIO(wide_order_bytes, 40, 1000) { typedef FnTypes<double, unsigned short, unsigned char> F; wideOrder<opengm::GraphicalModel<double, opengm::Adder, F::All, opengm::DiscreteSpace<unsigned short, unsigned char> > >(c, "wide-order-bytes"); }
VF_SCENARIO(many_factors, 12, 300) {
   typedef opengm::GraphicalModel<double, opengm::Adder, FD::All> GM; const size_t n = 260 + c.rng.below(500), nf = 300 + c.rng.below(900);
   MixedModel m; m.ref.labels = randLabels(c.rng, n, 1, 4);
   for(size_t i = 0; i < nf; ++i) {
      const std::vector<size_t> v = randScope(c.rng, c.rng.chance(0.1) ? 3 : n, 1 + c.rng.below(3)); std::vector<size_t> sh; for(size_t j = 0; j < v.size(); ++j) sh.push_back(m.ref.labels[v[j]]);
      m.fn.push_back(randSpec(c.rng, randKind(c.rng, v.size()), sh, DYADIC)); m.fnOfFactor.push_back(i);
      RefFactor f; f.vars = v; f.tab = m.fn[i].tab; m.ref.f.push_back(f);
   }
   note(c, m); GM gm = buildMixed<GM>(c.rng, m);
   checkFactors(c, gm, m.ref, "many-factors"); checkEvaluate(c, gm, m.ref, E_SUM, "many-factors", 20);
}
VF_SCENARIO(many_labels, 40, 1000) {
   typedef opengm::GraphicalModel<double, opengm::Adder, FD::All> GM; MixedModel m;
   m.ref.labels.push_back(120 + c.rng.below(500)); m.ref.labels.push_back(1 + c.rng.below(12)); if(c.rng.chance(0.5)) std::swap(m.ref.labels[0], m.ref.labels[1]); m.ref.labels.push_back(2);
   const size_t nf = 1 + c.rng.below(5);
   for(size_t i = 0; i < nf; ++i) {
      const std::vector<size_t> v = randScope(c.rng, 3, 1 + c.rng.below(3)); std::vector<size_t> sh; for(size_t j = 0; j < v.size(); ++j) sh.push_back(m.ref.labels[v[j]]);
      FnKind k = randKind(c.rng, v.size()); m.fn.push_back(randSpec(c.rng, k, sh, DYADIC)); m.fnOfFactor.push_back(i);
      RefFactor f; f.vars = v; f.tab = m.fn[i].tab; m.ref.f.push_back(f);
   }
   note(c, m); GM gm = buildMixed<GM>(c.rng, m);
   checkFactors(c, gm, m.ref, "many-labels"); checkEvaluate(c, gm, m.ref, E_SUM, "many-labels", 100);
}
