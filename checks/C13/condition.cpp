#include <indfactor.hpp>
#include <opengm/graphicalmodel/graphicalmodel_manipulator.hxx>
VF_WIDE(0.05)
using namespace vf;
namespace {
template<class T> struct Any {};
double combineOp(vf::Op op, double a, double b) { return op == SUM ? a + b : a * b; }
// one manipulator driven through a history of fixing, freeing, locking and building
template<class GM> void manipulate(Ctx& c, const MixedModel& mm, vf::Op op, double tol) {
   typedef opengm::GraphicalModelManipulator<GM> Man; typedef typename Man::MGM MGM; typedef typename GM::LabelType L; const RefModel& m = mm.ref; Rng& r = c.rng;
   c.desc << mm.str(); m.digest(c); GM gm = buildMixed<GM>(r, mm); const size_t n = m.labels.size();
   const bool drop = r.chance(0.25); Man man(gm, drop ? Man::DROP : Man::FIX);
   const size_t rounds = 1 + r.below(3);
   for(size_t round = 0; round < rounds; ++round) {
      std::vector<bool> fixed(n, false); std::vector<L> lab(n, 0); std::ostringstream hist;
      const double p = r.chance(0.15) ? 1.0 : r.chance(0.15) ? 0.0 : 0.25 + 0.5 * r.unit(); const size_t steps = r.below(2 * n + 1);
      if(p == 1.0) for(size_t v = 0; v < n; ++v) { lab[v] = r.below(m.labels[v]); fixed[v] = true; man.fixVariable(v, lab[v]); }
      for(size_t s = 0; s < steps; ++s) { const size_t v = r.below(n); const size_t what = r.below(10);
         if(what == 0) { man.freeAllVariables(); std::fill(fixed.begin(), fixed.end(), false); hist << " freeAll"; } else if(r.chance(p)) { lab[v] = r.below(m.labels[v]); fixed[v] = true; man.fixVariable(v, lab[v]); hist << " fix" << v << "=" << (size_t)lab[v]; } else { fixed[v] = false; man.freeVariable(v); hist << " free" << v; } }
      for(size_t v = 0; v < n; ++v) VF_EXPECT(man.isFixed(v) == fixed[v], "is-fixed", v << hist.str());
      std::vector<size_t> freeV, sh; for(size_t v = 0; v < n; ++v) if(!fixed[v]) { freeV.push_back(v); sh.push_back(m.labels[v]); }
      RefModel part = m; if(drop) { part.f.clear(); for(size_t i = 0; i < m.f.size(); ++i) { bool any = false; for(size_t k = 0; k < m.f[i].vars.size(); ++k) any = any || fixed[m.f[i].vars[k]]; if(!any) part.f.push_back(m.f[i]); } }
      if(r.chance(0.5)) { man.lock(); VF_EXPECT(man.isLocked(), "locked", ""); }
      const int which = 1 + (int)r.below(3); const std::string k = drop ? "drop" : "fix";
      if(which & 1) { man.buildModifiedModel(); const MGM& g = man.getModifiedModel(); c.count("reduced models");
         VF_CHECK(g.numberOfVariables() == freeV.size(), k + "/variables", g.numberOfVariables() << hist.str()); for(size_t i = 0; i < sh.size(); ++i) VF_CHECK(g.numberOfLabels(i) == sh[i], k + "/labels", i << hist.str());
         std::vector<size_t> t(sh.size(), 0); do { std::vector<L> ml(t.begin(), t.end()), ol; std::vector<size_t> l(n); for(size_t v = 0, q = 0; v < n; ++v) l[v] = fixed[v] ? lab[v] : t[q++];
            man.modifiedState2OriginalState(ml, ol); VF_CHECK(toSize(ol) == l, k + "/completed", show(toSize(ol)) << " expected " << show(l) << hist.str());
            std::vector<L> el(ml); el.push_back(0); const double v = (double)g.evaluate(el.begin()), w = part.eval(l, op); VF_CHECK(v == w || (tol > 0 && close(v, w, tol, tol)), k + "/value", v << " expected " << w << " at " << show(l) << hist.str()); } while(nextTuple(t, sh)); }
      if(which & 2) { man.buildModifiedSubModels(); const size_t ns = man.numberOfSubmodels(); c.count("reduced submodels", ns); size_t nv = 0; std::vector<std::vector<L> > sub(ns);
         for(size_t s = 0; s < ns; ++s) { nv += man.getModifiedSubModel(s).numberOfVariables(); sub[s].resize(man.getModifiedSubModel(s).numberOfVariables(), 0); }
         VF_CHECK(nv == freeV.size(), k + "/sub-variables", nv << " expected " << freeV.size() << hist.str());
         // every labeling of the parts, seen as one odometer
         std::vector<size_t> t, ts; for(size_t s = 0; s < ns; ++s) for(size_t i = 0; i < sub[s].size(); ++i) ts.push_back(man.getModifiedSubModel(s).numberOfLabels(i)); t.resize(ts.size(), 0);
         std::set<std::vector<size_t> > seen; size_t total = 0;
         do { size_t q = 0; for(size_t s = 0; s < ns; ++s) for(size_t i = 0; i < sub[s].size(); ++i) sub[s][i] = t[q++]; std::vector<L> ol; man.modifiedSubStates2OriginalState(sub, ol);
            std::vector<size_t> l = toSize(ol); VF_CHECK(validLabeling(m, l), k + "/sub-completed", show(l) << hist.str()); for(size_t v = 0; v < n; ++v) if(fixed[v]) VF_CHECK(l[v] == lab[v], k + "/sub-fixed", show(l) << hist.str());
            double v = op == SUM ? 0 : 1; for(size_t s = 0; s < ns; ++s) { std::vector<L> e(sub[s]); e.push_back(0); v = combineOp(op, v, (double)man.getModifiedSubModel(s).evaluate(e.begin())); }
            const double w = part.eval(l, op); VF_CHECK(v == w || (tol > 0 && close(v, w, tol, tol)), k + "/sub-value", v << " expected " << w << " at " << show(l) << hist.str()); seen.insert(l); ++total; } while(nextTuple(t, ts));
         VF_CHECK(seen.size() == total && total == prod(sh), k + "/sub-bijection", seen.size() << " of " << total); }
      for(size_t v = 0; v < n; ++v) c.digest(fixed[v] ? lab[v] + 1 : 0);
      man.unlock(); VF_EXPECT(!man.isLocked(), "unlocked", ""); for(size_t v = 0; v < n; ++v) VF_EXPECT(!man.isFixed(v), "unlock-frees", v);
   }
   std::string why; VF_EXPECT(sameModel(gm, m, &why), "model-changed", why);
}
// trees hanging from the rest are eliminated: every remaining labeling keeps the optimum over the eliminated variables
template<class GM, class ACC> void tentacles(Ctx& c, const RefModel& m, vf::Op op, bool mx, double tol, bool wide = false) {
   typedef opengm::GraphicalModelManipulator<GM> Man; typedef typename Man::MGM MGM; typedef typename GM::LabelType L; Rng& r = c.rng; c.desc << m.str(); m.digest(c);
   GM gm = buildExplicit<GM>(m); const size_t n = m.labels.size(); Man man(gm);
   for(size_t round = 0, rounds = 1 + r.below(2); round < rounds; ++round) {
      std::vector<bool> fixed(n, false); std::vector<L> lab(n, 0); std::ostringstream hist;
      const double p = r.chance(0.4) ? 0 : 0.3; for(size_t v = 0; v < n; ++v) if(r.chance(p)) { fixed[v] = true; lab[v] = r.below(m.labels[v]); man.fixVariable(v, lab[v]); hist << " fix" << v << "=" << (size_t)lab[v]; }
      man.template lockAndTentacelElimination<ACC>(); VF_EXPECT(man.isLocked(), "tentacle/locked", "");
      std::vector<size_t> core, csh, gone, gsh; for(size_t v = 0; v < n; ++v) { if(fixed[v]) VF_CHECK(man.isFixed(v), "tentacle/fixed-freed", v << hist.str()); if(!man.isFixed(v)) { core.push_back(v); csh.push_back(m.labels[v]); } else if(!fixed[v]) { gone.push_back(v); gsh.push_back(m.labels[v]); } }
      hist << " core" << show(core); c.count("eliminated variables", gone.size()); c.count("core variables", core.size());
      const bool sub = r.chance(0.5); if(r.chance(0.3)) { man.buildModifiedModel(); man.buildModifiedSubModels(); } else if(sub) man.buildModifiedSubModels(); else man.buildModifiedModel();
      const size_t ns = sub ? man.numberOfSubmodels() : 1; std::vector<std::vector<L> > lb(ns); size_t nv = 0; for(size_t s = 0; s < ns; ++s) { lb[s].resize((sub ? man.getModifiedSubModel(s) : man.getModifiedModel()).numberOfVariables(), 0); nv += lb[s].size(); }
      VF_CHECK(nv == core.size(), "tentacle/variables", nv << hist.str());
      std::vector<size_t> t, ts; for(size_t s = 0; s < ns; ++s) for(size_t i = 0; i < lb[s].size(); ++i) ts.push_back((sub ? man.getModifiedSubModel(s) : man.getModifiedModel()).numberOfLabels(i)); t.resize(ts.size(), 0);
      do { size_t q = 0; for(size_t s = 0; s < ns; ++s) for(size_t i = 0; i < lb[s].size(); ++i) lb[s][i] = t[q++];
         std::vector<L> ol; if(sub) man.modifiedSubStates2OriginalState(lb, ol); else man.modifiedState2OriginalState(lb[0], ol); std::vector<size_t> l = toSize(ol);
         VF_CHECK(validLabeling(m, l), "tentacle/completed", show(l) << hist.str()); for(size_t v = 0; v < n; ++v) if(fixed[v]) VF_CHECK(l[v] == lab[v], "tentacle/fixed", show(l) << hist.str());
         double v = op == SUM ? 0 : 1; for(size_t s = 0; s < ns; ++s) { std::vector<L> e(lb[s]); e.push_back(0); v = combineOp(op, v, (double)(sub ? man.getModifiedSubModel(s) : man.getModifiedModel()).evaluate(e.begin())); }
         const double mine = m.eval(l, op); VF_CHECK(close(v, mine, tol, tol), "tentacle/value", "reduced value " << v << " but the completed labeling " << show(l) << " has " << mine << hist.str());
         std::vector<size_t> u(gone.size(), 0), x(l); double best = mine; do { for(size_t k = 0; k < u.size(); ++k) x[gone[k]] = u[k]; const double w = m.eval(x, op); best = mx ? std::max(best, w) : std::min(best, w); } while(nextTuple(u, gsh));
         VF_CHECK(close(best, mine, tol, tol), "tentacle/optimum", "completed " << show(l) << " value " << mine << " but " << best << " is attainable" << hist.str()); } while(nextTuple(t, ts));
      man.unlock(); c.count("eliminations");
   }
   std::string why; VF_EXPECT(sameModel(gm, m, &why), "model-changed", why); (void)wide;
}
// a core with cycles, and trees (of any order) hanging from it or apart
RefModel tentacleModel(Rng& r, Style st, size_t maxOrder) {
   RefModel m; std::vector<std::vector<size_t> > sc; const size_t nc = r.chance(0.3) ? 0 : 3 + r.below(2);
   do { sc.clear(); const size_t n = std::max(nc + r.below(6), size_t(1)); m.labels = randLabels(r, n, 1, 3);
      std::vector<size_t> perm(n); std::iota(perm.begin(), perm.end(), size_t(0)); r.shuffle(perm);
      for(size_t i = 0; i < nc; ++i) { std::vector<size_t> v(2); v[0] = perm[i]; v[1] = perm[(i + 1) % nc]; sc.push_back(v); }
      for(size_t i = nc; i < n;) { const size_t k = std::min(1 + r.below(maxOrder - 1), n - i); std::vector<size_t> v; if(i && !r.chance(0.2)) v.push_back(perm[r.below(i)]); for(size_t j = 0; j < k; ++j) v.push_back(perm[i + j]); i += k; sc.push_back(v); }
      for(size_t v = 0; v < n; ++v) while(r.chance(0.4)) sc.push_back(std::vector<size_t>(1, v)); if(r.chance(0.2)) sc.push_back(std::vector<size_t>());
   } while(m.configs() > 600);
   for(size_t i = 0; i < sc.size(); ++i) std::sort(sc[i].begin(), sc[i].end()); r.shuffle(sc); for(size_t i = 0; i < sc.size(); ++i) addRandFactor(r, m, sc[i], st); return m;
}
typedef FnTypes<double, size_t, size_t> D;
}
VF_SCENARIO(fix_sum, 900, 20000) { typedef opengm::GraphicalModel<double, opengm::Adder, D::All, opengm::DiscreteSpace<> > GM; const Style st = sumStyle(c.rng); manipulate<GM>(c, randMixed(c.rng, 1, 7, 1, 3, 4, 9, st, 0.1, false, 500), SUM, 0); }
VF_SCENARIO(fix_product_small_types, 500, 10000) { typedef FnTypes<float, unsigned, unsigned char> F; typedef opengm::GraphicalModel<float, opengm::Multiplier, F::Three, opengm::DiscreteSpace<unsigned, unsigned char> > GM;
   const std::vector<FnKind> k = {F_EXPLICIT, F_POTTS, F_POTTSN}; manipulate<GM>(c, randMixed(c.rng, 1, 6, 1, 3, 3, 6, POW2, 0.1, false, 500, &k), PROD, 0); }
VF_SCENARIO(tentacles_pairwise, 600, 12000) { typedef opengm::GraphicalModel<double, opengm::Adder, D::Explicit, opengm::DiscreteSpace<> > GM; const RefModel m = tentacleModel(c.rng, sumStyle(c.rng), 2); if(c.rng.chance(0.5)) tentacles<GM, opengm::Minimizer>(c, m, SUM, false, 1e-9); else tentacles<GM, opengm::Maximizer>(c, m, SUM, true, 1e-9); }
VF_SCENARIO(tentacles_higher_order, 600, 12000) { typedef opengm::GraphicalModel<double, opengm::Adder, D::Explicit, opengm::DiscreteSpace<> > GM; const RefModel m = tentacleModel(c.rng, sumStyle(c.rng), 3); if(c.rng.chance(0.5)) tentacles<GM, opengm::Minimizer>(c, m, SUM, false, 1e-9); else tentacles<GM, opengm::Maximizer>(c, m, SUM, true, 1e-9); }
VF_SCENARIO(tentacles_product, 400, 8000) { typedef opengm::GraphicalModel<double, opengm::Multiplier, D::Explicit, opengm::DiscreteSpace<> > GM; const RefModel m = tentacleModel(c.rng, POSREAL, 3); if(c.rng.chance(0.5)) tentacles<GM, opengm::Minimizer>(c, m, PROD, false, 1e-7); else tentacles<GM, opengm::Maximizer>(c, m, PROD, true, 1e-7); }
VF_SCENARIO(tentacles_many_isolated, 40, 400) { typedef opengm::GraphicalModel<double, opengm::Adder, D::Explicit, opengm::DiscreteSpace<> > GM; RefModel m; m.labels.assign(70 + c.rng.below(200), 1); for(int i = 0; i < 6; ++i) m.labels[c.rng.below(m.labels.size())] = 2;
   for(int i = 0; i < 4; ++i) addRandFactor(c.rng, m, randScope(c.rng, m.labels.size(), 1 + c.rng.below(2)), SMALLINT); tentacles<GM, opengm::Minimizer>(c, m, SUM, false, 1e-9); }
// factors: fixing some variables in any number of steps
VF_SCENARIO(factor_restriction, 1200, 25000) {
   typedef opengm::GraphicalModel<double, opengm::Adder, D::All, opengm::DiscreteSpace<> > GM; typedef opengm::IndependentFactor<double, size_t, size_t> Ind; Rng& r = c.rng; MixedModel mm = randMixed(r, 1, 7, 1, 4, 5, 4, SMALLINT, 0.05); const RefModel& m = mm.ref; c.desc << mm.str(); m.digest(c); GM gm = buildMixed<GM>(r, mm);
   for(size_t i = 0; i < m.f.size(); ++i) { Ind g(gm[i]); RefFactor cur = m.f[i]; std::vector<size_t> l(m.labels.size(), 0);
      while(cur.vars.size()) { std::vector<size_t> fix, lab; RefFactor rest; for(size_t q = 0; q < cur.vars.size(); ++q) { const size_t w = cur.vars[q]; if(r.chance(0.35)) { fix.push_back(w); lab.push_back(r.below(m.labels[w])); l[w] = lab.back(); } else rest.vars.push_back(w); }
         std::vector<size_t> sh; for(size_t q = 0; q < rest.vars.size(); ++q) sh.push_back(m.labels[rest.vars[q]]); std::vector<size_t> t(sh.size(), 0);
         do { for(size_t q = 0; q < t.size(); ++q) l[rest.vars[q]] = t[q]; rest.tab.push_back(valueAt(m, m.f[i], l)); } while(nextTuple(t, sh));
         g.fixVariables(fix.begin(), fix.end(), lab.begin()); const std::string d = diffFactor(g, m, rest); VF_CHECK(d.empty(), "factor/restriction", d << " fixing " << show(fix) << " to " << show(lab) << " of " << show(cur.vars)); cur = rest; c.count("restrictions"); } }
}
