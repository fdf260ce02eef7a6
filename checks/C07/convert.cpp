#include <list>
#include "common.hpp"
VF_WIDE(0.05)
using namespace vf; using namespace c07;
namespace {
// how a value turns into an unnormalised probability
double prob(Op op, bool maximize, double x, double invT) { if(op == PROD) return maximize ? x : 1.0 / x; return std::exp((maximize ? 1 : -1) * invT * x); }
template<class GM, class ACC> void conv(Ctx& c, const MixedModel& m, Op op, bool maximize) {
   typedef typename GM::ValueType T; typedef opengm::ViewConvertFunction<GM, ACC, T> Conv;
   c.desc << m.str(); m.ref.digest(c); GM gm = buildMixed<GM>(c.rng, m);
   for(size_t i = 0; i < m.ref.f.size(); ++i) {
      const double invT = op == PROD ? 1.0 : c.rng.range(1, 8) / 4.0; const bool def = c.rng.chance(0.3);
      std::vector<double> tab; for(size_t k = 0; k < m.ref.f[i].tab.size(); ++k) tab.push_back(prob(op, maximize, m.ref.f[i].tab[k], def ? 1.0 : invT));
      Conv f = def ? Conv(gm[i]) : Conv(gm[i], (T)invT); compare(c, f, m.ref.shape(i), tab, "convert"); Conv g; g = f; compare(c, g, m.ref.shape(i), tab, "convert-assigned");
      c.count(op == PROD ? "product models converted" : "sum models converted");
   }
   // a model made of the converted factors: its value is the converted value of the model
   typedef opengm::GraphicalModel<T, opengm::Multiplier, typename opengm::meta::TypeListGenerator<Conv>::type, typename GM::SpaceType> PM;
   PM pm = emptyGm<PM>(m.ref); for(size_t i = 0; i < m.ref.f.size(); ++i) pm.addFactor(pm.addFunction(Conv(gm[i])), m.ref.f[i].vars.begin(), m.ref.f[i].vars.end());
   for(int n = 0; n < 6; ++n) { std::vector<size_t> l; for(size_t j = 0; j < m.ref.labels.size(); ++j) l.push_back(c.rng.below(m.ref.labels[j]));
      VF_EXPECT(close((double)pm.evaluate(l.begin()), prob(op, maximize, m.ref.eval(l, op), 1.0), 1e-9, 0), "convert/model-value", pm.evaluate(l.begin())); }
}
typedef opengm::GraphicalModel<double, opengm::Adder, FnTypes<double, size_t, size_t>::All, opengm::DiscreteSpace<> > GmSum;
typedef opengm::GraphicalModel<double, opengm::Multiplier, FnTypes<double, size_t, size_t>::Two, opengm::DiscreteSpace<> > GmProd;
std::vector<FnKind> two() { std::vector<FnKind> k; k.push_back(F_EXPLICIT); k.push_back(F_POTTS); return k; }
}
VF_SCENARIO(convert_sum, 150, 4000) { MixedModel m = randMixed(c.rng, 1, 4, 1, 4, 3, 4, DYADIC); if(c.rng.chance(0.5)) conv<GmSum, opengm::Minimizer>(c, m, SUM, false); else conv<GmSum, opengm::Maximizer>(c, m, SUM, true); }
VF_SCENARIO(convert_product, 150, 4000) { std::vector<FnKind> k = two(); MixedModel m = randMixed(c.rng, 1, 4, 1, 4, 3, 4, POW2, 0.1, false, 512, &k); if(c.rng.chance(0.5)) conv<GmProd, opengm::Minimizer>(c, m, PROD, false); else conv<GmProd, opengm::Maximizer>(c, m, PROD, true); }
