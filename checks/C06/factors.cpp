#include "common.hpp"
using namespace vf; using namespace c06;
namespace {
struct CountFn { size_t n; size_t dim; size_t size; CountFn() : n(0), dim(99), size(0) {} template<class F> void operator()(const F& f) { ++n; dim = f.dimension(); size = f.size(); } };
struct CountVi { size_t n; std::vector<size_t> vi; double v; std::vector<size_t> at; CountVi() : n(0), v(0) {} template<class IT, class F> void operator()(IT b, IT e, const F& f) { ++n; vi.assign(b, e); v = f(at.begin()); } };
template<class GM> void factors(Ctx& c, const MixedModel& m, const std::vector<FnKind>* kinds = 0) {
   typedef typename GM::FactorType Factor; typedef opengm::IndependentFactor<typename GM::ValueType, typename GM::IndexType, typename GM::LabelType> Ind;
   c.desc << m.str(); m.ref.digest(c);
   GM gm = buildMixed<GM>(c.rng, m);
   for(size_t i = 0; i < m.ref.f.size(); ++i) {
      const Factor& f = gm[i]; Scan s(m.ref.shape(i), m.ref.f[i].tab); const std::string k = std::string("factor-") + fnName(m.fn[m.fnOfFactor[i]].kind);
      common(c, f, s, k); traversals(c, f, s, k);
      VF_EXPECT(!f.isLinearConstraint(), k + "/linear-constraint", s.str());
      VF_EXPECT((double)f.template valueProperty<opengm::ValueProperties::Sum>() == s.sum(), k + "/value-property-sum", s.str());
      VF_EXPECT((double)f.template valueProperty<opengm::ValueProperties::Minimum>() == s.min(), k + "/value-property-min", s.str());
      VF_EXPECT((double)f.template valueProperty<opengm::ValueProperties::Maximum>() == s.max(), k + "/value-property-max", s.str());
      VF_EXPECT(close((double)f.template valueProperty<opengm::ValueProperties::Product>(), s.product(), 1e-5, 1e-300), k + "/value-property-product", s.str());
      if(s.d >= 2) VF_EXPECT((f.template binaryProperty<opengm::BinaryProperties::IsPotts>()) == s.potts(), k + "/binary-property-potts", s.str());
      std::vector<double> a(s.tab.size(), -99), b(s.tab.size(), -99); f.copyValues(a.begin()); f.copyValuesSwitchedOrder(b.begin());
      VF_EXPECT(a == s.tab, k + "/copy-values", show(a) << s.str()); VF_EXPECT(b == s.switched(), k + "/copy-values-switched", show(b) << s.str());
      VF_EXPECT(f.size() == s.tab.size() && f.dimension() == s.d && f.numberOfVariables() == s.d, k + "/size", f.size() << s.str());
      std::vector<size_t> vi; f.variableIndices(std::back_inserter(vi)); VF_EXPECT(vi == m.ref.f[i].vars, k + "/variable-indices", show(vi));
      VF_EXPECT(toSize(std::vector<size_t>(f.variableIndicesBegin(), f.variableIndicesEnd())) == m.ref.f[i].vars, k + "/variable-iterator", "");
      VF_EXPECT(std::vector<size_t>(f.shapeBegin(), f.shapeEnd()) == s.sh, k + "/shape-iterator", "");
      CountFn cf; f.callFunctor(cf); VF_EXPECT(cf.n == 1 && cf.dim == s.d && cf.size == s.tab.size(), k + "/call-functor", cf.n);
      std::vector<size_t> l(m.ref.labels.size()); for(size_t j = 0; j < l.size(); ++j) l[j] = c.rng.below(m.ref.labels[j]);
      CountVi cv; for(size_t j = 0; j < s.d; ++j) cv.at.push_back(l[vi[j]]); cv.at.push_back(0);
      f.callViFunctor(cv); VF_EXPECT(cv.n == 1 && cv.vi == vi && cv.v == m.ref.at(i, l), k + "/call-vi-functor", "");
      std::vector<size_t> sub(f.gmToFactorLabelsBegin(l.begin()), f.gmToFactorLabelsEnd(l.begin())), want; for(size_t j = 0; j < s.d; ++j) want.push_back(l[vi[j]]);
      VF_EXPECT(sub == want, k + "/factor-labels", show(sub) << show(want));
      if(s.d) VF_EXPECT((double)f(f.gmToFactorLabelsBegin(l.begin())) == m.ref.at(i, l), k + "/value-at-model-labels", "");
      Ind g(f); common(c, g, s, "independent"); VF_EXPECT(g.size() == s.tab.size() && std::vector<size_t>(g.variableIndicesBegin(), g.variableIndicesEnd()) == m.ref.f[i].vars, "independent/variables", "");
      Ind h; h = f; common(c, h, s, "independent-assigned");
      c.count("factors queried");
   }
   // factor handles can be reassigned, also across models
   if(m.ref.f.size() >= 1) {
      MixedModel m2 = randMixed(c.rng, 1, 4, 1, 4, 3, 4, TIES, 0.0, false, 2048, kinds); if(m2.ref.f.empty()) return; GM gm2 = buildMixed<GM>(c.rng, m2);
      Factor h(gm[c.rng.below(m.ref.f.size())]); const size_t j = c.rng.below(m2.ref.f.size()); h = gm2[j];
      std::vector<double> a(m2.ref.f[j].tab.size(), -99); h.copyValues(a.begin());
      VF_EXPECT(a == m2.ref.f[j].tab && std::vector<size_t>(h.shapeBegin(), h.shapeEnd()) == m2.ref.shape(j), "handle/reassigned", show(a));
   }
}
}
typedef opengm::GraphicalModel<double, opengm::Adder, FnTypes<double, size_t, size_t>::All, opengm::DiscreteSpace<> > GmAll;
typedef opengm::GraphicalModel<float, opengm::Multiplier, FnTypes<float, unsigned int, unsigned short>::Three, opengm::DiscreteSpace<unsigned int, unsigned short> > GmThree;
VF_SCENARIO(factors_all_types, 300, 8000) { factors<GmAll>(c, randMixed(c.rng, 1, 5, 1, 4, 4, 6, TIES)); }
VF_SCENARIO(factors_three_types, 150, 4000) { std::vector<FnKind> k; k.push_back(F_EXPLICIT); k.push_back(F_POTTS); k.push_back(F_POTTSN); factors<GmThree>(c, randMixed(c.rng, 1, 5, 1, 4, 3, 5, TIES, 0.1, false, 2048, &k), &k); }
VF_SCENARIO(factor_forms, 400, 10000) {
   MixedModel m; m.ref.labels = randLabels(c.rng, 4, 1, 5);
   for(size_t i = 0; i < 4; ++i) { std::vector<size_t> sc = randScope(c.rng, 4, 1 + c.rng.below(3)), sh; for(size_t j = 0; j < sc.size(); ++j) sh.push_back(m.ref.labels[sc[j]]);
      FnSpec s; s.kind = F_EXPLICIT; s.shape = sh; s.tab = formTable(c.rng, sh); m.fn.push_back(s); m.fnOfFactor.push_back(i); RefFactor f; f.vars = sc; f.tab = s.tab; m.ref.f.push_back(f); }
   factors<GmAll>(c, m);
}
VF_SCENARIO(wide_tables_small_index, 20, 200) {
   // tables with more entries than the index type of the model can count
   typedef opengm::GraphicalModel<double, opengm::Adder, FnTypes<double, unsigned char, unsigned char>::Three, opengm::DiscreteSpace<unsigned char, unsigned char> > Gm;
   MixedModel m; m.ref.labels.assign(2, 17 + c.rng.below(8)); FnSpec s = randSpec(c.rng, c.rng.chance(0.5) ? F_EXPLICIT : F_POTTSN, m.ref.labels, TIES); m.fn.push_back(s); m.fnOfFactor.push_back(0); RefFactor f; f.vars.push_back(0); f.vars.push_back(1); f.tab = s.tab; m.ref.f.push_back(f);
   c.desc << m.str(); m.ref.digest(c); Gm gm = buildMixed<Gm>(c.rng, m); Scan sc(m.ref.labels, s.tab);
   common(c, gm[0], sc, "wide"); traversals(c, gm[0], sc, "wide");
}
