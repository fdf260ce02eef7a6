#pragma once
#include "decomp.hpp"
#include <opengm/inference/astar.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
#include <opengm/inference/lazyflipper.hxx>
// dual decomposition: value, bound and dual variables observed at every iteration
namespace c33 {
using namespace sv; using opengm::Minimizer; using opengm::Maximizer;
template<class GM> double evalSub(const GM& g, const std::vector<size_t>& l) { return (double)g.evaluate(l.begin()); }
template<class GM> double bestSub(const GM& g, bool mx) { std::vector<size_t> L(g.numberOfVariables()), l(g.numberOfVariables(), 0); for(size_t v = 0; v < L.size(); ++v) L[v] = g.numberOfLabels(v); double b = evalSub(g, l); while(nextTuple(l, L)) { const double x = evalSub(g, l); if(mx ? x > b : x < b) b = x; } return b; }
inline bool treeLike(const std::vector<Sub>& s) { for(size_t i = 0; i < s.size(); ++i) { UF u(s[i].var.size()); for(size_t f = 0; f < s[i].f.size(); ++f) { if(s[i].f[f].idx.size() > 2) return false; for(size_t j = 1; j < s[i].f[f].idx.size(); ++j) if(!u.join(s[i].f[f].idx[0], s[i].f[f].idx[j])) return false; } } return true; }
inline double size(const std::vector<Sub>& s, const RefModel& m) { double w = 0; for(size_t i = 0; i < s.size(); ++i) { double p = 1; for(size_t j = 0; j < s[i].var.size(); ++j) p *= m.labels[s[i].var[j]]; w = std::max(w, p); } return w; }
template<class GM, class ACC, class BLOCK, template<class, class> class SUB> void run(Ctx& c, bool trees, double tol, bool acyclic = false) {
   typedef typename opengm::DualDecompositionBase<GM, BLOCK>::SubGmType SubGm; typedef SUB<SubGm, ACC> SubInf; typedef opengm::DualDecompositionSubGradient<GM, SubInf, BLOCK> DD; typedef typename DD::Parameter Par;
   Rng& r = c.rng; const bool mx = prop::AccOf<ACC>::v == 1; RefModel m; Choice h; std::vector<Sub> s; GM gm;
   for(size_t tries = 0;; ++tries) {
      m = acyclic || r.chance(0.2) ? (r.chance(0.6) ? randTreeModel(r, 1, 7, 1, 3, DYADIC, 0.2, 0.9, 0.1, 512) : randHyperTreeModel(r, 6, 3, 3, DYADIC, 512)) : draw(r, 512); while(r.chance(0.1)) { RefFactor f; f.tab.push_back(r.range(-8, 8)); m.f.push_back(f); } if(!acyclic && r.chance(0.02)) { m.labels.clear(); std::vector<RefFactor> k; for(size_t f = 0; f < m.f.size(); ++f) if(m.f[f].vars.empty()) k.push_back(m.f[f]); m.f = k; }
      gm = buildExplicit<GM>(m); bool high = false; for(size_t f = 0; f < m.f.size(); ++f) high = high || m.f[f].vars.size() > 2; if(trees && high) continue; h = choose(r, m); if(trees) h.kind = r.chance(0.5) ? TREE : SPAN; if(h.kind == FANS) h.kind = FANK; if(m.labels.empty()) h.kind = r.chance(0.5) ? TREE : SPAN;
      bool order3 = false; for(size_t f = 0; f < m.f.size(); ++f) order3 = order3 || m.f[f].vars.size() > 2; if(order3 && h.kind == FANK) h.kind = CLOSED;
      try { G d = apply(h, gm); d.reorder(); d.complete(); if(!valid(d, gm)) { c.count("invalid decompositions"); continue; } Ctx& cc = c; s = read(cc, d, m, "dd", false); } catch(std::exception&) { c.count("refused decompositions"); continue; }
      if(size(s, m) <= 1024) break;
   }
   m.digest(c); c.desc << m.str() << " " << h.str(); const size_t n = m.labels.size(); const double opt = m.best(mx); 
   Par p; p.decompositionId_ = h.kind == TREE ? Par::TREE : h.kind == SPAN ? Par::SPANNINGTREES : h.kind == CLOSEDN ? Par::BLOCKS : h.kind == CLOSED ? Par::MANUALVARCLOSE : h.kind == OPEN ? Par::MANUALVAROPEN : h.kind == MANUAL ? Par::MANUAL : Par::KFANS; p.k_ = h.k; p.numberOfBlocks_ = h.k; p.subVariables_ = h.sets; p.subFactors_ = h.facs;
   p.maximalNumberOfIterations_ = 1 + r.below(25); p.fillSubLabelings_ = r.chance(0.5); p.numberOfThreads_ = 1 + r.below(4); p.stepsizeStride_ = r.chance(0.5) ? 1 : 0.1 + r.unit() * 2; p.stepsizeScale_ = r.chance(0.5) ? 1 : r.unit(); p.stepsizeExponent_ = r.chance(0.5) ? 0.5 : r.unit(); p.stepsizePrimalDualGapStride_ = r.chance(0.25); p.stepsizeNormalizedSubgradient_ = r.chance(0.25); p.useAdaptiveStepsize_ = r.chance(0.2); p.useProjectedAdaptiveStepsize_ = r.chance(0.2); if(r.chance(0.3)) p.minimalAbsAccuracy_ = r.unit(); if(r.chance(0.2)) p.minimalRelAccuracy_ = r.unit() * 0.2; 
   const bool spread = s.size() > 1; c.desc << " it " << p.maximalNumberOfIterations_ << " rule " << p.stepsizePrimalDualGapStride_ << p.stepsizeNormalizedSubgradient_ << p.useAdaptiveStepsize_ << p.useProjectedAdaptiveStepsize_ << " fill " << p.fillSubLabelings_; c.digest(h.kind); c.digest(p.maximalNumberOfIterations_); c.digest((size_t)(p.stepsizeStride_ * 1000));
   DD dd(gm, p); Answer before = answer(dd); VF_EXPECT(!before.ok || n == 0, "dd/before", showA(before)); if(n) judge(c, before, m, SUM, mx, opt, "dd/before", tol);
   bool full = true; for(size_t v = 0, k = 0; v < n; ++v) { bool in = false; for(size_t i = 0; i < s.size(); ++i) in = in || std::find(s[i].var.begin(), s[i].var.end(), v) != s[i].var.end(); full = full && in; (void)k; } std::vector<char> cov(m.f.size(), 0); for(size_t i = 0; i < s.size(); ++i) for(size_t f = 0; f < s[i].f.size(); ++f) if(!s[i].f[f].empty) cov[s[i].f[f].factor] = 1; for(size_t f = 0; f < cov.size(); ++f) full = full && cov[f];
   if(!full) { c.count("partial decompositions"); c.trivial(); return; } 
   // sums of the submodels, for labelings in which the copies of a variable agree
   const size_t sumSeed = r.below(1000000); auto sums = [&](const char* when) { Rng q(sumSeed); for(size_t k = 0; k < 6; ++k) { std::vector<size_t> l(n); for(size_t v = 0; v < n; ++v) l[v] = q.below(m.labels[v]); double t = 0; for(size_t i = 0; i < s.size(); ++i) { std::vector<size_t> sl(s[i].var.size()); for(size_t j = 0; j < sl.size(); ++j) sl[j] = l[s[i].var[j]]; t += evalSub(dd.subModel(i), sl); } VF_CHECK(close(t, m.eval(l, SUM), tol, tol), "dd/submodel-sum", when << " " << t << " of " << m.eval(l, SUM)); c.count("submodel sums"); } };
   auto dual = [&]() { double b = 0; for(size_t i = 0; i < s.size(); ++i) b += bestSub(dd.subModel(i), mx); return b; };
   sums("before"); double lastV = before.value, lastB = before.bound; double expect = dual(); size_t iterations = 0; const size_t rounds = 1 + r.below(2);
   for(size_t round = 0; round < rounds; ++round) {
      Rec rec(r.chance(0.3) ? 1 + r.below(6) : size_t(-1)); bool bad = false; std::string why;
      rec.onStep = [&]() {
         const double v = rec.values.back(), b = rec.bounds.back(); ++iterations; c.count("iterations observed"); const double slack = tol * (1 + std::fabs(opt) + std::fabs(b));
         VF_CHECK(rec.argOk.back() && validLabeling(m, rec.args.back()) && close(v, m.eval(rec.args.back(), SUM), tol, tol), "dd/step-value", v << " labeling " << show(rec.args.back()));
         VF_CHECK(!(mx ? v < lastV - slack : v > lastV + slack), "dd/value-worse", "iteration " << iterations << ": " << lastV << " to " << v); VF_CHECK(!(mx ? b > lastB + slack : b < lastB - slack), "dd/bound-worse", "iteration " << iterations << ": " << lastB << " to " << b); VF_CHECK(mx ? b >= opt - slack : b <= opt + slack, "dd/bound", "iteration " << iterations << ": bound " << b << " passes the optimum " << opt);
         const double best = mx ? std::min(lastB, expect) : std::max(lastB, expect); VF_CHECK(close(b, best, tol * 10, tol * 10), "dd/bound-of-subproblems", "iteration " << iterations << ": bound " << b << " subproblems reach " << expect << " before " << lastB);
         if(!spread && h.kind != TREE) { VF_CHECK(close(b, opt, tol, tol) && close(v, opt, tol, tol), "dd/single", v << " " << b << " optimum " << opt); c.count("single subproblems"); }
         lastV = v; lastB = b; sums("during"); expect = dual();
      };
      VF_CHECK(dd.infer(rec) == opengm::NORMAL, "dd/status", ""); VF_CHECK(rec.begins == 1 && rec.ends == 1 && !rec.afterStop && rec.steps <= p.maximalNumberOfIterations_, "dd/visitor", rec.steps);
      const Answer a = answer(dd); judge(c, a, m, SUM, mx, opt, "dd", tol); VF_CHECK(a.ok && sameNum(a.value, lastV, 0) && sameNum(a.bound, lastB, 0), "dd/end", showA(a));
      if(!rec.stopped && rec.steps < p.maximalNumberOfIterations_) { const double gap = std::fabs(a.value - a.bound); VF_CHECK(gap <= p.minimalAbsAccuracy_ + tol || gap <= std::fabs(a.value) * p.minimalRelAccuracy_ + tol, "dd/accuracy", "stopped with gap " << gap << " " << showA(a)); c.count("accuracy reached"); }
      else if(!rec.stopped) c.count("iterations exhausted");
      for(size_t i = 1; i + 2 < rec.values.size(); ++i) VF_CHECK(!(std::fabs(rec.values[i] - rec.bounds[i]) < p.minimalAbsAccuracy_ - 1e-6), "dd/late", "not stopped at step " << i << " of " << rec.steps << ": value " << rec.values[i] << " bound " << rec.bounds[i]);
   }
   if(close(lastV, opt) && close(lastB, opt)) c.count("tight"); if(close(lastV, opt)) c.count("optimum found"); c.count(s.size() > 1 ? "several subproblems" : "one subproblem"); c.count(treeLike(s) ? "tree-like subproblems" : "other subproblems");
   VF_EXPECT(sameModel(gm, m) && &dd.graphicalModel() == &gm && !dd.name().empty(), "dd/model", "");
   if(r.chance(0.3)) { Par q(p); DD x(gm, q), y(gm, q); x.infer(); y.infer(); VF_CHECK(sameAnswer(answer(x), answer(y)), "dd/repeatable", showA(answer(x)) << " " << showA(answer(y))); if(r.chance(0.3)) { Par z; z.decompositionId_ = p.decompositionId_; (void)z; DD e(gm); e.infer(); judge(c, answer(e), m, SUM, mx, opt, "dd/defaults", tol); } }
}
// on models without cycles the relaxation is exact, whatever the blocks: the bound approaches the optimum
template<class GM, class ACC, class BLOCK> void converge(Ctx& c) {
   typedef typename opengm::DualDecompositionBase<GM, BLOCK>::SubGmType SubGm; typedef opengm::Bruteforce<SubGm, ACC> SubInf; typedef opengm::DualDecompositionSubGradient<GM, SubInf, BLOCK> DD; typedef typename DD::Parameter Par; Rng& r = c.rng; const bool mx = prop::AccOf<ACC>::v == 1;
   RefModel m = randTreeModel(r, 2, 6, 2, 3, SMALLINT, 0.1, 0.95, 0.1, 512); const size_t n = m.labels.size(); if(n < 2) { c.trivial(); return; } m.digest(c); GM gm = buildExplicit<GM>(m); Par p; p.decompositionId_ = Par::MANUAL; p.maximalNumberOfIterations_ = 1500; p.minimalAbsAccuracy_ = 0.02; p.stepsizeStride_ = 2; p.stepsizeScale_ = 1; p.stepsizeExponent_ = 0.7; p.fillSubLabelings_ = true; const size_t k = 2 + r.below(2); p.subFactors_.resize(k); 
   std::vector<char> seen(n, 0); for(size_t f = 0; f < m.f.size(); ++f) { p.subFactors_[r.below(k)].push_back(f); for(size_t j = 0; j < m.f[f].vars.size(); ++j) seen[m.f[f].vars[j]] = 1; } for(size_t v = 0; v < n; ++v) if(!seen[v]) { c.trivial(); return; } for(size_t i = 0; i < k; ++i) if(p.subFactors_[i].empty()) { c.trivial(); return; }
   c.desc << m.str() << " parts "; for(size_t i = 0; i < k; ++i) c.desc << show(p.subFactors_[i]); DD dd(gm, p); Rec rec(size_t(-1), false, true); dd.infer(rec); const Answer a = answer(dd); const double opt = m.best(mx); judge(c, a, m, SUM, mx, opt, "converge"); double lo = m.best(!mx); const double range = std::fabs(lo - opt) + 1;
   VF_CHECK(std::fabs(a.bound - opt) <= 0.03 * range + 0.03, "converge/bound", "bound " << a.bound << " optimum " << opt << " range " << range << " after " << rec.steps); c.count(rec.steps < 1500 ? "converged" : "nearly converged");
}
template<class GM, class ACC> using BF = opengm::Bruteforce<GM, ACC>;
template<class GM, class ACC> using DP = opengm::DynamicProgramming<GM, ACC>;
template<class GM, class ACC> using AS = opengm::AStar<GM, ACC>;
template<class T> using Own = opengm::DDDualVariableBlock<marray::Marray<T> >;
template<class T> using View = opengm::DDDualVariableBlock2<marray::View<T, false> >;
typedef Gm<double, opengm::Adder>::Mixed M; typedef Gm<float, opengm::Adder, unsigned int, unsigned char>::Mixed F;
}
