#pragma once
#include "trws.hpp"
namespace c34 {
template<class GM, class ACC> void trwsi(Ctx& c, bool accurate) {
   typedef opengm::TRWSi<GM, ACC> S; typedef typename S::Storage Storage; typedef typename S::Parameter P; Rng& r = c.rng; const bool mx = ACC::template bop<double>(1, 0);
   const Case k = draw(c, accurate ? 600 : 2000, accurate); const RefModel& ref = k.m.ref; const double opt = ref.best(mx, SUM), sp = spread(ref), tol = 1e-9 * (1 + sp);
   GM gm = buildMixed<GM>(r, k.m);
   P p(accurate ? 600 : 1 + r.below(r.chance(0.2) ? 100 : 12)); p.decompositionType() = structure<Storage>(k.shape);
   p.precision() = accurate ? 0 : r.chance(0.4) ? 0 : r.chance(0.5) ? 1e-6 : r.unit(); p.isAbsolutePrecision() = r.chance(0.6);
   p.minRelativeDualImprovement() = accurate || r.chance(0.5) ? -1.0 : r.chance(0.5) ? 0.0 : 1e-3; p.fastComputations() = r.chance(0.5); p.canonicalNormalization() = r.chance(0.5);
   if(!accurate && r.chance(0.3)) p.setTreeAgreeMaxStableIter(1 + r.below(5));
   c.desc << "iterations " << p.maxNumberOfIterations() << " precision " << p.precision() << (p.isAbsolutePrecision() ? " absolute" : " relative") << " improvement " << p.minRelativeDualImprovement() << " fast " << p.fastComputations() << " canonical " << p.canonicalNormalization() << "\n";
   const std::string tag = "TRWSi"; S inf(gm, p);
   { Answer a = answer(inf); judge(c, a, ref, SUM, mx, opt, tag + "/before", tol); }
   const size_t stop = r.chance(0.25) ? 1 + r.below(6) : size_t(-1); Rec v(stop);
   VF_CHECK(inf.infer(v) == opengm::NORMAL, tag + "/status", "");
   VF_EXPECT(v.begins == 1 && v.ends == 1, tag + "/visits", "begins " << v.begins << " ends " << v.ends); VF_EXPECT(!v.afterStop, tag + "/stop", "runs on after the visitor asked to stop"); VF_EXPECT(v.steps >= 1 && v.steps <= p.maxNumberOfIterations() + 1, tag + "/steps", v.steps << " visits for " << p.maxNumberOfIterations() << " iterations");
   Answer a = answer(inf); judge(c, a, ref, SUM, mx, opt, tag, tol); judgeSteps(c, v, ref, mx, opt, tag + "/step", tol); monotone(c, v, mx, tag, 1e-9, sp); c.count("steps", v.steps);
   agreement(c, inf, ref, mx, opt, tag);
   if(accurate) { c.count("acyclic runs"); const double gap = std::fabs(a.bound - opt); VF_EXPECT(stop != size_t(-1) || gap <= 1e-4 * (1 + sp), tag + "/acyclic-bound", "bound " << a.bound << " optimum " << opt << " after " << v.steps << " steps"); }
   // the same run without a visitor gives the same answer, and so does an equal solver
   if(stop == size_t(-1)) { S two(gm, p); VF_CHECK(two.infer() == opengm::NORMAL, tag + "/status", ""); Answer b = answer(two); VF_EXPECT(sameAnswer(a, b), tag + "/repeat", showA(a) << " then " << showA(b)); }
   // fast computations are an optimisation only
   if(stop == size_t(-1) && r.chance(0.5)) { P q(p); q.fastComputations() = !p.fastComputations(); q.maxNumberOfIterations() = 1 + r.below(3); P q2(q); q2.fastComputations() = p.fastComputations(); S x(gm, q), y(gm, q2); x.infer(); y.infer(); VF_EXPECT(close((double)x.bound(), (double)y.bound(), tol, tol), tag + "/fast", "bound " << x.bound() << " with fast " << q.fastComputations() << " and " << y.bound() << " without"); c.count("fast comparisons"); }
   // a solver started at the dual point of another one starts with its bound
   { typename S::DDVectorType d; inf.getDDVector(&d); P q(p); q.initPoint_ = d; S x(gm, q); Rec w(1); x.infer(w); if(w.bounds.size() > 1 && stop == size_t(-1)) { const double b = w.bounds[1]; VF_EXPECT(std::fabs(b - a.bound) <= 1e-6 * (1 + sp), tag + "/dual-point", "bound " << b << " at the dual point of a run that ended with " << a.bound); c.count("dual points"); }
     typename S::DDVectorType d2; x.getDDVector(&d2); bool same = d.size() == d2.size(); (void)same;
     if(!d.empty()) { S y(gm, q); typename S::DDVectorType d3; y.getDDVector(&d3); bool eq = d3.size() == d.size(); for(size_t i = 0; eq && i < d.size(); ++i) eq = std::fabs((double)d3[i] - (double)d[i]) <= 1e-9 * (1 + sp); VF_EXPECT(eq, tag + "/dual-vector", show(d) << " then " << show(d3)); }
     if(!d.empty()) { P bad(p); bad.initPoint_ = d; bad.initPoint_.push_back(0); VF_MUST_THROW(S(gm, bad), tag + "/dual-length", "accepts a dual point of the wrong length"); } }
   if(r.chance(0.5)) reparametrised(c, inf, gm, ref, tag);
   // again on the same solver: bounds stay valid, the value does not get worse
   if(r.chance(0.5)) { VF_CHECK(inf.infer() == opengm::NORMAL, tag + "/again/status", ""); Answer b = answer(inf); judge(c, b, ref, SUM, mx, opt, tag + "/again", tol); VF_EXPECT(mx ? b.value >= a.value : b.value <= a.value, tag + "/again/value", a.value << " then " << b.value); VF_EXPECT(mx ? b.bound <= a.bound + 1e-9 * (1 + sp) : b.bound >= a.bound - 1e-9 * (1 + sp), tag + "/again/bound", a.bound << " then " << b.bound); }
   unchanged(c, gm, k.m, tag);
}
}
