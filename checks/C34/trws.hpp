// C34: the tree-reweighted family (TRWSi, ADSal, accelerated gradient)
#pragma once
#include "solvers.hpp"
#include <opengm/operations/adder.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/inference/trws/trws_trws.hxx>
#include <opengm/inference/trws/trws_adsal.hxx>
#include <opengm/inference/trws/smooth_nesterov.hxx>

namespace c34 {
using namespace vf; using namespace sv;

enum Shape { GRID, EDGE, GENERAL };
inline const char* shapeName(Shape s) { return s == GRID ? "grid" : s == EDGE ? "edge" : "general"; }
struct Case { Shape shape; MixedModel m; bool acyclic; size_t edges; };

inline void addFn(Rng& r, MixedModel& m, const std::vector<size_t>& vars, Style st, bool functions) {
   FnSpec s; std::vector<size_t> sh; for(size_t i = 0; i < vars.size(); ++i) sh.push_back(m.ref.labels[vars[i]]);
   FnKind k = F_EXPLICIT;
   if(functions && vars.size() == 2) { const FnKind ks[] = { F_EXPLICIT, F_POTTS, F_POTTS, F_POTTSN }; k = ks[r.below(4)]; }
   s = randSpec(r, k, sh, st);
   RefFactor f; f.vars = vars; f.tab = s.tab; m.fn.push_back(s); m.fnOfFactor.push_back(m.ref.f.size()); m.ref.f.push_back(f);
}
// every variable has exactly one unary factor, no pair of variables has more than one pairwise factor
inline Case draw(Ctx& c, size_t maxCfgs, bool forceAcyclic = false) {
   Rng& r = c.rng; Case k; const Style st = r.chance(0.5) ? DYADIC : r.chance(0.5) ? TIES : SMALLINT; const bool fn = r.chance(0.6), same = r.chance(0.5);
   const double w = r.unit(); k.shape = w < 0.3 ? GRID : w < 0.5 ? EDGE : GENERAL; size_t n, h = 0, wd = 0;
   for(;;) {
      if(k.shape == GRID) { h = 1 + r.below(forceAcyclic ? 1 : 4); wd = 1 + r.below(5); if(forceAcyclic && r.chance(0.5)) std::swap(h, wd); n = h * wd; } else n = 1 + r.below(8);
      k.m.ref.labels = randLabels(r, n, 1, 4); if(same) std::fill(k.m.ref.labels.begin(), k.m.ref.labels.end(), k.m.ref.labels[0]);
      if(k.m.ref.configs() <= maxCfgs) break;
   }
   std::vector<std::vector<size_t> > pairs;
   if(k.shape == GRID) {
      for(size_t y = 0; y < h; ++y) for(size_t x = 0; x < wd; ++x) { if(x + 1 < wd) pairs.push_back(std::vector<size_t>{y * wd + x, y * wd + x + 1}); if(y + 1 < h) pairs.push_back(std::vector<size_t>{y * wd + x, (y + 1) * wd + x}); }
      k.acyclic = h == 1 || wd == 1;
   } else {
      const bool tree = forceAcyclic || r.chance(0.4); k.acyclic = tree; const double d = r.unit();
      if(tree) { std::vector<size_t> p(n); std::iota(p.begin(), p.end(), size_t(0)); r.shuffle(p); for(size_t i = 1; i < n; ++i) if(k.shape == EDGE || r.chance(0.9)) { size_t a = p[i], b = p[r.below(i)]; pairs.push_back(std::vector<size_t>{std::min(a, b), std::max(a, b)}); } }
      else { for(size_t i = 0; i < n; ++i) for(size_t j = i + 1; j < n; ++j) if(r.chance(d)) pairs.push_back(std::vector<size_t>{i, j}); }
   }
   std::vector<std::vector<size_t> > all;
   for(size_t i = 0; i < n; ++i) all.push_back(std::vector<size_t>(1, i));
   const bool mix = k.shape != GRID && r.chance(0.5); if(k.shape != GRID) r.shuffle(pairs);
   all.insert(all.end(), pairs.begin(), pairs.end()); if(mix) r.shuffle(all);
   for(size_t i = 0; i < all.size(); ++i) addFn(r, k.m, all[i], st, fn);
   k.edges = pairs.size();
   c.desc << "shape " << shapeName(k.shape) << " " << k.m.str() << "\n"; k.m.ref.digest(c);
   if(pairs.empty()) c.trivial();
   return k;
}
template<class Storage> typename Storage::StructureType structure(Shape s) { return s == GRID ? Storage::GRIDSTRUCTURE : s == EDGE ? Storage::EDGESTRUCTURE : Storage::GENERALSTRUCTURE; }

inline void monotone(Ctx& c, const Rec& v, bool mx, const std::string& tag, double tol, double range) {
   for(size_t i = 1; i < v.bounds.size(); ++i) VF_EXPECT(mx ? v.bounds[i] <= v.bounds[i - 1] + tol * (1 + range) : v.bounds[i] >= v.bounds[i - 1] - tol * (1 + range), tag + "/bound-got-worse", "step " << i << " " << v.bounds[i - 1] << " then " << v.bounds[i] << " of " << show(v.bounds));
   for(size_t i = 1; i < v.values.size(); ++i) VF_EXPECT(mx ? v.values[i] >= v.values[i - 1] - tol : v.values[i] <= v.values[i - 1] + tol, tag + "/value-got-worse", "step " << i << " " << v.values[i - 1] << " then " << v.values[i]);
   c.count("bounds compared", v.bounds.size());
}
inline double spread(const RefModel& m) { double s = 0; for(size_t i = 0; i < m.f.size(); ++i) for(size_t j = 0; j < m.f[i].tab.size(); ++j) s = std::max(s, std::fabs(m.f[i].tab[j])); return s * (1 + m.f.size()); }

// the labels seen at every step are valid and have the value reported with them; the bounds never pass the optimum
inline void judgeSteps(Ctx& c, const Rec& v, const RefModel& ref, bool mx, double opt, const std::string& tag, double tol) {
   for(size_t i = 0; i < v.args.size(); ++i) { Answer a; a.ok = v.argOk[i]; a.arg = v.args[i]; a.value = v.values[i]; a.bound = v.bounds[i]; judge(c, a, ref, SUM, mx, opt, tag, tol); }
}

// trees agreeing on every variable prove the labeling optimal
template<class INF> void agreement(Ctx& c, INF& inf, const RefModel& ref, bool mx, double opt, const std::string& tag) {
   std::vector<bool> agree, agree2; std::vector<typename INF::LabelType> l; std::vector<std::vector<typename INF::LabelType> > tl;
   inf.getTreeAgreement(agree); inf.getTreeAgreement(agree2, &l, &tl);
   VF_CHECK(agree == agree2 && agree.size() == ref.labels.size() && l.size() == agree.size() && tl.size() == agree.size(), tag + "/agreement", "");
   bool all = true; std::vector<size_t> lab(l.begin(), l.end()); VF_CHECK(validLabeling(ref, lab), tag + "/agreement/labels", show(lab));
   for(size_t i = 0; i < agree.size(); ++i) {
      all = all && agree[i]; bool eq = !tl[i].empty();
      for(size_t j = 0; j < tl[i].size(); ++j) { eq = eq && tl[i][j] == tl[i][0]; VF_CHECK(tl[i][j] < ref.labels[i], tag + "/agreement/tree-labels", ""); }
      VF_EXPECT(eq == agree[i], tag + "/agreement/tree-labels", "variable " << i << " agreement " << agree[i] << " labels of the trees " << show(std::vector<size_t>(tl[i].begin(), tl[i].end())));
      if(agree[i] && !tl[i].empty()) VF_EXPECT(lab[i] == tl[i][0], tag + "/agreement/label", "");
   }
   if(all) { c.count("full agreements"); const double v = ref.eval(lab, SUM); VF_EXPECT(close(v, opt, 1e-6, 1e-6), tag + "/agreement/optimal", "all trees agree on " << show(lab) << " of value " << v << " optimum " << opt); }
   else c.count("partial agreements");
}

// every labeling keeps its value in a reparametrised model
template<class INF, class GM> void reparametrised(Ctx& c, INF& inf, const GM& gm, const RefModel& ref, const std::string& tag) {
   typedef typename INF::ReparametrizerType Rep; Rng& r = c.rng; const size_t n = ref.labels.size();
   typename Rep::Parameter rp; rp.fastComputations_ = r.chance(0.5);
   std::unique_ptr<Rep> rep(inf.getReparametrizer(rp));
   const int mode = (int)r.below(3);
   if(mode == 0) rep->reparametrize();
   else if(mode == 1) { typename Rep::MaskType mask(n); for(size_t i = 0; i < n; ++i) mask[i] = r.chance(0.5); rep->reparametrize(&mask); }
   else { typename Rep::ImmovableLabelingType im(n); for(size_t i = 0; i < n; ++i) { im[i].resize(ref.labels[i]); for(size_t j = 0; j < ref.labels[i]; ++j) im[i][j] = r.chance(0.3); } rep->reparametrize(im); }
   typename Rep::ReparametrizedGMType rgm; rep->getReparametrizedModel(rgm);
   VF_CHECK(rgm.numberOfVariables() == n && rgm.numberOfFactors() == gm.numberOfFactors(), tag + "/repa/shape", "");
   std::vector<size_t> l(n, 0); const double tol = 1e-9 * (1 + spread(ref));
   do { const double a = (double)rgm.evaluate(l.begin()), b = ref.eval(l, SUM); VF_CHECK(std::fabs(a - b) <= tol, tag + "/repa/value" + (mode == 0 ? "" : mode == 1 ? "-mask" : "-labels"), "labeling " << show(l) << " has " << b << ", reparametrised " << a); } while(nextTuple(l, ref.labels));
   c.count("reparametrisations");
}
// models outside of the supported class are refused, not answered
template<class S, class GM> void refuses(Ctx& c, const std::string& tag) {
   Rng& r = c.rng; Case k = draw(c, 1000); if(k.shape == GRID) k.shape = GENERAL; const size_t n = k.m.ref.labels.size(); const int mode = (int)r.below(4);
   if(mode == 0 && n >= 3) { addFn(r, k.m, std::vector<size_t>{0, 1, 2}, DYADIC, false); c.count("third order refused"); }
   else if(mode == 1) { addFn(r, k.m, std::vector<size_t>(1, r.below(n)), DYADIC, false); c.count("duplicate unary refused"); }
   else if(mode == 2) { k.shape = GRID; if(n < 3) { c.trivial(); return; } const size_t a = 0, b = n - 1; bool has = false; for(size_t i = 0; i < k.m.ref.f.size(); ++i) has = has || k.m.ref.f[i].vars.size() == 2; std::vector<size_t> del; for(size_t i = 0; i < k.m.ref.f.size(); ) if(k.m.ref.f[i].vars.size() == 2) { k.m.ref.f.erase(k.m.ref.f.begin() + i); k.m.fn.erase(k.m.fn.begin() + i); } else ++i; for(size_t i = 0; i < k.m.fnOfFactor.size(); ++i) k.m.fnOfFactor[i] = i; k.m.fnOfFactor.resize(k.m.fn.size()); addFn(r, k.m, std::vector<size_t>{a, b}, DYADIC, false); if(n > 3) for(size_t i = 0; i + 1 < n; ++i) if(r.chance(0.5)) addFn(r, k.m, std::vector<size_t>{i, i + 1}, DYADIC, false); c.count("non-grids refused"); }
   typename S::Parameter p; p.decompositionType() = structure<typename S::Storage>(k.shape); p.maxNumberOfIterations() = mode == 3 ? 0 : 3;
   if(mode == 0 && n < 3) { c.trivial(); return; }
   c.desc << "refusal mode " << mode << " " << k.m.str() << "\n"; GM gm = buildMixed<GM>(r, k.m);
   VF_MUST_THROW(S(gm, p), tag + "/refuses-" + (mode == 0 ? "third-order" : mode == 1 ? "duplicate-unary" : mode == 2 ? "non-grid" : "zero-iterations"), "accepts a model it cannot solve");
}
template<class GM> void unchanged(Ctx& c, const GM& gm, const MixedModel& m, const std::string& tag) { std::string why; VF_CHECK(sameModel(gm, m.ref, &why), tag + "/model-changed", why); }
} // namespace c34
