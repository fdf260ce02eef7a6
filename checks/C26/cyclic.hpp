#include "trbp.hpp"
namespace c26 {
using namespace prop;
template<class GM, class ACC, class MP> void cyclic(Ctx& c) {
   Rng& r = c.rng; const Op op = OpOf<typename GM::OperatorType>::v; const int acc = AccOf<ACC>::v; const bool mx = acc == 1; const double tol = sizeof(typename GM::ValueType) == 4 ? 2e-4 : 1e-8;
   const Style st = op == SUM ? sumStyle(r) : POSREAL; RefModel ref0 = r.chance(0.6) ? randPairwise(r, 2, 7, 1, 3, r.unit(), 0.8, st) : randModel(r, 1, 6, 1, 3, 3, 1, 9, st, 0.0);
   MixedModel k = asMixed(r, ref0); const RefModel& ref = k.ref; ref.digest(c); c.desc << opName(op) << " " << acc << " " << k.str(); GM gm = buildMixed<GM>(r, k);
   typename MP::Parameter p; randSchedule(c, p, ref, true); p.maximumNumberOfSteps_ = r.below(12); const bool own = r.chance(0.4); p.damping_ = r.chance(0.3) ? 0.5 : 0; if(op == PROD) p.useNormalization_ = true; const bool norm = p.useNormalization_; // raw multiplicative messages overflow on cycles
   if(own) for(size_t f = 0; f < ref.f.size(); ++f) p.specialParameter_.push_back(ref.f[f].vars.size() < 2 ? 1 : (1 + r.below(8)) / 8.0);
   c.desc << " steps " << p.maximumNumberOfSteps_ << (own ? " own weights" : " default weights") << " damping " << p.damping_; c.digest(p.maximumNumberOfSteps_);
   const double opt = acc == 2 ? 0 : ref.best(mx, op);
   MP a(gm, p), b(gm, p); a.infer(); b.infer(); typename MP::IndependentFactorType x, y;
   for(int round = 0; round < 2; ++round) {
      if(acc != 2) { Answer u = answer(a), w = answer(b); judge(c, u, ref, op, mx, opt, round ? "cyclic/reset" : "cyclic", tol); VF_CHECK(sameAnswer(u, w), round ? "cyclic/reset-repeatable" : "cyclic/repeatable", showA(u) << " then " << showA(w)); }
      for(size_t v = 0; v < ref.labels.size(); ++v) { std::vector<size_t> vs(1, v); a.marginal(v, x); b.marginal(v, y); std::vector<double> p1 = tableOf(x, ref, vs, c, "cyclic/marginal"), p2 = tableOf(y, ref, vs, c, "cyclic/marginal");
         VF_CHECK(p1 == p2, round ? "cyclic/reset-marginal-repeatable" : "cyclic/marginal-repeatable", show(p1) << " " << show(p2));
         if(norm && acc == 2) VF_CHECK(close(std::accumulate(p1.begin(), p1.end(), 0.0), 1, tol, tol), "cyclic/marginal-normalised", show(p1));
         if(norm && acc == 0 && op == SUM) VF_CHECK(std::fabs(*std::min_element(p1.begin(), p1.end())) < tol, "cyclic/marginal-normalised", show(p1));
         if(norm && acc == 1 && op == SUM) VF_CHECK(std::fabs(*std::max_element(p1.begin(), p1.end())) < tol, "cyclic/marginal-normalised", show(p1)); c.count("variable marginals"); }
      b.reset(); b.infer();
   }
}
}
