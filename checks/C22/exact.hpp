#include "solvers.hpp"
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/astar.hxx>
using namespace sv;
namespace c22 {
struct Case { MixedModel m; double opt; std::vector<double> all; size_t nOpt; };
inline Case make(Ctx& c, Op op, bool maximize, size_t maxOrder, size_t minL = 1) {
   Rng& r = c.rng; Case k;
   const Style st = op == SUM ? sumStyle(r) : r.chance(0.5) ? POW2 : POSREAL;
   const std::vector<FnKind>* kinds = &fewKinds();
   k.m = randMixed(r, 0, 6, minL, 4, maxOrder, 9, st, 0.12, false, 1500, kinds);
   k.m.ref.digest(c); c.desc << opName(op) << (maximize ? " max " : " min ") << k.m.str();
   k.all = k.m.ref.allValues(op); std::sort(k.all.begin(), k.all.end()); if(maximize) std::reverse(k.all.begin(), k.all.end());
   k.opt = k.all[0]; k.nOpt = std::upper_bound(k.all.begin(), k.all.end(), k.opt, [&](double a, double b) { return maximize ? a > b : a < b; }) - k.all.begin();
   c.count("labelings enumerated", k.all.size()); if(k.nOpt > 1) c.count("models with several optima");
   return k;
}
template<class OP> struct OpOf { static const Op v = std::is_same<OP, opengm::Adder>::value ? SUM : PROD; };

template<class GM, class ACC> void brute(Ctx& c) {
   const Op op = OpOf<typename GM::OperatorType>::v; const bool mx = std::is_same<ACC, opengm::Maximizer>::value;
   Case k = make(c, op, mx, 4); GM gm = buildMixed<GM>(c.rng, k.m); typedef opengm::Bruteforce<GM, ACC> B;
   typename B::Parameter p; B b(gm, p), b2(gm);
   const double tol = sizeof(typename GM::ValueType) == 4 ? 1e-4 : 1e-9;
   judge(c, answer(b), k.m.ref, op, mx, k.opt, "bruteforce/before", tol);
   VF_CHECK(b.infer() == opengm::NORMAL, "bruteforce/status", "");
   for(int round = 0; round < 3; ++round) {
      Answer a = answer(b); judge(c, a, k.m.ref, op, mx, k.opt, "bruteforce", tol);
      VF_CHECK(a.ok && close(k.m.ref.eval(a.arg, op), k.opt, tol, tol), "bruteforce/optimum", showA(a) << " optimum " << k.opt);
      if(round == 0) b.infer(); else if(round == 1) { b.reset(); b.infer(); }
   }
   Rec v; b2.infer(v); VF_CHECK(v.steps == k.all.size() && v.begins == 1 && v.ends == 1, "bruteforce/steps", v.steps << " steps for " << k.all.size() << " labelings");
   for(size_t i = 2; i < v.values.size(); ++i) VF_CHECK(mx ? v.values[i] >= v.values[i - 1] : v.values[i] <= v.values[i - 1], "bruteforce/monotone", v.values[i - 1] << " then " << v.values[i]);
   VF_CHECK(close(b2.value(), k.opt, tol, tol), "bruteforce/optimum-visitor", b2.value() << " optimum " << k.opt);
}
template<class GM, class ACC> void astar(Ctx& c) {
   const Op op = OpOf<typename GM::OperatorType>::v; const bool mx = std::is_same<ACC, opengm::Maximizer>::value;
   Case k = make(c, op, mx, c.rng.chance(0.5) ? 2 : 4); const RefModel& ref = k.m.ref; GM gm = buildMixed<GM>(c.rng, k.m); typedef opengm::AStar<GM, ACC> A; Rng& r = c.rng;
   const double tol = sizeof(typename GM::ValueType) == 4 ? 1e-4 : 1e-9;
   typename A::Parameter p; const size_t n = ref.labels.size();
   p.heuristic_ = r.below(3);
   if(r.chance(0.5)) { std::vector<size_t> o(n); std::iota(o.begin(), o.end(), size_t(0)); r.shuffle(o); p.nodeOrder_.assign(o.begin(), o.end()); c.desc << " order" << show(o); }
   // tree factors chosen by the user: any acyclic set of pairwise factors, plus larger ones for the standard heuristic
   if(r.chance(0.6)) {
      std::vector<size_t> comp(n), ids(ref.f.size()); std::iota(comp.begin(), comp.end(), size_t(0)); std::iota(ids.begin(), ids.end(), size_t(0)); r.shuffle(ids);
      for(size_t q = 0; q < ids.size(); ++q) { const RefFactor& f = ref.f[ids[q]];
         if(f.vars.size() < 2 || r.chance(0.2) || (f.vars.size() > 2 && p.heuristic_ != 2)) continue;
         std::set<size_t> cs; for(size_t i = 0; i < f.vars.size(); ++i) cs.insert(comp[f.vars[i]]); if(cs.size() < f.vars.size()) continue;
         for(size_t i = 0; i < n; ++i) if(cs.count(comp[i])) comp[i] = *cs.begin();
         p.addTreeFactorId(ids[q]); }
      c.desc << " tree" << show(p.treeFactorIds_);
   }
   p.numberOfOpt_ = r.chance(0.5) ? 1 : 1 + r.below(r.chance(0.3) ? k.all.size() + 3 : 6); c.desc << " heuristic " << p.heuristic_ << " best " << p.numberOfOpt_; c.digest(p.numberOfOpt_ * 4 + p.heuristic_);
   size_t want = std::min(p.numberOfOpt_, k.all.size());
   // ranking ends with the first labeling worse than a given bound
   if(op == SUM && r.chance(0.3)) { const double b = r.pick(k.all); p.objectiveBound_ = b; size_t q = 0; while(q < k.all.size() && !(mx ? k.all[q] < b : k.all[q] > b)) ++q; want = std::min(want, q + 1); c.desc << " objective bound " << b; c.count("objective bounds set"); }
   A a(gm, p);
   for(int round = 0; round < 3; ++round) {
      if(round == 0) { Answer x = answer(a); judge(c, x, ref, op, mx, k.opt, "astar/before", tol); }
      if(round == 2) a.reset();
      Rec v; if(round == 1) a.infer(v); else a.infer();
      const char* tag = round == 0 ? "astar" : round == 1 ? "astar/again" : "astar/reset";
      Answer x = answer(a); 
      VF_CHECK(x.ok && validLabeling(ref, x.arg) && close(ref.eval(x.arg, op), k.opt, tol, tol), std::string(tag) + "/optimum", showA(x) << " optimum " << k.opt);
      VF_CHECK(close(x.value, k.opt, tol, tol), std::string(tag) + "/value", x.value << " optimum " << k.opt);
      if(want == 1) judge(c, x, ref, op, mx, k.opt, tag, tol);
      std::vector<std::vector<typename GM::LabelType> > all; a.args(all);
      VF_CHECK(all.size() == want, std::string(tag) + "/k-best-count", all.size() << " of " << want);
      std::set<std::vector<size_t> > distinct;
      for(size_t i = 0; i < all.size(); ++i) { std::vector<size_t> l = toSize(all[i]); VF_CHECK(validLabeling(ref, l), std::string(tag) + "/k-best-labels", show(l)); distinct.insert(l);
         VF_CHECK(close(ref.eval(l, op), k.all[i], tol, tol), std::string(tag) + "/k-best-value", "rank " << i << " has " << ref.eval(l, op) << " expected " << k.all[i]);
         std::vector<typename GM::LabelType> y; a.arg(y, i + 1); VF_CHECK(y == all[i], std::string(tag) + "/k-best-arg", i); }
      VF_CHECK(distinct.size() == all.size(), std::string(tag) + "/k-best-distinct", "");
      if(round == 1) for(size_t i = 1; i < v.bounds.size(); ++i) if(want == 1) VF_CHECK(mx ? v.bounds[i] >= k.opt - tol * (1 + std::fabs(k.opt)) : v.bounds[i] <= k.opt + tol * (1 + std::fabs(k.opt)), "astar/bound-on-the-way", v.bounds[i] << " optimum " << k.opt);
      c.count("ranked labelings checked", all.size());
   }
}
}
