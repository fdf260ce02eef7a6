#pragma once
#include "trws.hpp"
namespace c34 {
template<class P> void smoothing(Ctx& c, P& p, Shape sh, bool accurate) {
   Rng& r = c.rng; typedef typename P::Storage Storage; typedef typename P::SmoothingParametersType SP;
   p.maxNumberOfIterations() = accurate ? 400 : 1 + r.below(r.chance(0.2) ? 60 : 10); p.numberOfInternalIterations() = 1 + r.below(5); p.decompositionType() = structure<Storage>(sh);
   p.isAbsolutePrecision() = r.chance(0.7); p.setPrecision(accurate ? 1e-3 : r.chance(0.3) ? 1e-6 : r.chance(0.5) ? 0.01 : r.unit() + 1e-3);
   p.smoothingGapRatio() = r.chance(0.6) ? 4 : 1.5 + 6 * r.unit(); p.setStartSmoothingValue(r.chance(0.7) ? 0 : 0.05 + r.unit());
   p.maxPrimalBoundIterationNumber() = 1 + r.below(100); p.maxNumberOfPresolveIterations() = r.chance(0.15) ? 1 : 1 + r.below(60); p.presolveMinRelativeDualImprovement() = r.chance(0.5) ? 0.01 : r.chance(0.5) ? 0.3 : 1e-6;
   p.lazyLPPrimalBoundComputation() = r.chance(0.5); p.setFastComputations(r.chance(0.5)); p.setCanonicalNormalization(r.chance(0.5)); p.smoothingDecayMultiplier() = r.chance(0.7) ? -1 : 1;
   const int st = (int)r.below(5); p.smoothingStrategy() = st == 0 ? SP::ADAPTIVE_DIMINISHING : st == 1 ? SP::WC_DIMINISHING : st == 2 ? SP::ADAPTIVE_PRECISIONORIENTED : st == 3 ? SP::WC_PRECISIONORIENTED : SP::FIXED;
   if(st == 2 || st == 3) p.isAbsolutePrecision() = true;
   if(st == 3) p.setStartSmoothingValue(0); if(st == 4) p.setStartSmoothingValue(0.05 + r.unit());
   c.desc << "iterations " << p.maxNumberOfIterations() << "x" << p.numberOfInternalIterations() << " precision " << p.precision() << (p.isAbsolutePrecision() ? " absolute" : " relative") << " gap ratio " << p.smoothingGapRatio() << " start " << p.startSmoothingValue() << " strategy " << SP::getString(p.smoothingStrategy()) << " presolve " << p.maxNumberOfPresolveIterations() << "/" << p.presolveMinRelativeDualImprovement() << " lazy " << p.lazyLPPrimalBoundComputation() << " fast " << p.fastComputations() << " canonical " << p.canonicalNormalization() << "\n";
}
template<class S, class GM, class ACC, class TUNE> void smooth(Ctx& c, const std::string& tag, bool accurate, TUNE tune) {
   typedef typename S::Parameter P; Rng& r = c.rng; const bool mx = ACC::template bop<double>(1, 0);
   const Case k = draw(c, accurate ? 300 : 1000, accurate); const RefModel& ref = k.m.ref; const double opt = ref.best(mx, SUM), sp = spread(ref), tol = 1e-9 * (1 + sp);
   GM gm = buildMixed<GM>(r, k.m); P p; smoothing(c, p, k.shape, accurate); tune(p); S inf(gm, p);
   { Answer a = answer(inf); judge(c, a, ref, SUM, mx, opt, tag + "/before", tol); }
   const size_t stop = r.chance(0.25) ? 1 + r.below(6) : size_t(-1); Rec v(stop); inf.infer(v);
   VF_EXPECT(v.begins == 1 && v.ends == 1, tag + "/visits", "begins " << v.begins << " ends " << v.ends);
   Answer a = answer(inf); judge(c, a, ref, SUM, mx, opt, tag, tol); judgeSteps(c, v, ref, mx, opt, tag + "/step", tol); monotone(c, v, mx, tag, 1e-9, sp); c.count("steps", v.steps);
   if(v.stopped) c.count("stopped runs"); VF_EXPECT(!v.stopped || v.steps <= v.stopAfter + 1, tag + "/stop", "runs on after the visitor asked to stop: " << v.steps << " visits, stop asked at " << v.stopAfter);
   if(r.chance(0.4)) reparametrised(c, inf, gm, ref, tag);
   if(stop == size_t(-1)) { S two(gm, p); two.infer(); Answer b = answer(two); VF_EXPECT(sameAnswer(a, b), tag + "/repeat", showA(a) << " then " << showA(b)); }
   if(r.chance(0.4)) { inf.infer(); Answer b = answer(inf); judge(c, b, ref, SUM, mx, opt, tag + "/again", tol); VF_EXPECT(mx ? b.value >= a.value : b.value <= a.value, tag + "/again/value", a.value << " then " << b.value); VF_EXPECT(mx ? b.bound <= a.bound + 1e-9 * (1 + sp) : b.bound >= a.bound - 1e-9 * (1 + sp), tag + "/again/bound", a.bound << " then " << b.bound); }
   if(accurate && stop == size_t(-1)) { c.count("acyclic runs"); c.count(std::fabs(a.bound - opt) <= 0.01 * (1 + sp) ? "acyclic bounds close" : "acyclic bounds far"); c.count(std::fabs(a.value - opt) <= 1e-9 * (1 + sp) ? "acyclic values optimal" : "acyclic values worse"); }
   unchanged(c, gm, k.m, tag);
}
struct None { template<class P> void operator()(P&) const {} };
template<class GM, class ACC> void adsal(Ctx& c, bool accurate) { typedef opengm::ADSal<GM, ACC> S; Rng& r = c.rng; smooth<S, GM, ACC>(c, "ADSal", accurate, [&](typename S::Parameter& p) { p.lazyDerivativeComputation() = r.chance(0.5); }); }
template<class GM, class ACC> void nesterov(Ctx& c, bool accurate) { typedef opengm::NesterovAcceleratedGradient<GM, ACC> S; Rng& r = c.rng; smooth<S, GM, ACC>(c, "Nesterov", accurate, [&](typename S::Parameter& p) { const int g = (int)r.below(3); p.gradientStep_ = g == 0 ? S::Parameter::ADAPTIVE_STEP : g == 1 ? S::Parameter::WC_STEP : S::Parameter::JOJIC_STEP; p.gamma0_ = r.chance(0.5) ? 1e6 : 1 + r.below(100); p.plainGradient_ = r.chance(0.3); c.desc << "step " << g << " gamma " << p.gamma0_ << " plain " << p.plainGradient_ << "\n"; }); }
}
