// Message passing on acyclic models against marginals by enumeration.
#pragma once
#include "solvers.hpp"
#include <opengm/inference/messagepassing/messagepassing.hxx>
namespace prop {
using namespace sv;
template<class OP> struct OpOf { static const Op v = std::is_same<OP, opengm::Adder>::value ? SUM : PROD; };
template<class ACC> struct AccOf { static const int v = std::is_same<ACC, opengm::Minimizer>::value ? 0 : std::is_same<ACC, opengm::Maximizer>::value ? 1 : 2; };

inline MixedModel asMixed(Rng& r, const RefModel& m) { // explicit tables, some replaced by Potts functions
   MixedModel k; k.ref = m;
   for(size_t i = 0; i < m.f.size(); ++i) {
      FnSpec s; s.kind = F_EXPLICIT; s.shape = m.shape(i); s.tab = m.f[i].tab;
      if(m.f[i].vars.size() >= 2 && r.chance(0.3)) { Style st = s.tab[0] == std::floor(s.tab[0] * 8) / 8 ? POSDYADIC : POSREAL; s = randSpec(r, m.f[i].vars.size() == 2 && r.chance(0.5) ? F_POTTS : F_POTTSN, s.shape, st); k.ref.f[i].tab = s.tab; }
      k.fn.push_back(s); k.fnOfFactor.push_back(i);
   }
   return k;
}
inline MixedModel asMixedExact(Rng& r, const RefModel& m) { // same tables; those of Potts form become Potts functions at times
   MixedModel k; k.ref = m;
   for(size_t i = 0; i < m.f.size(); ++i) {
      FnSpec s; s.kind = F_EXPLICIT; s.shape = m.shape(i); s.tab = m.f[i].tab;
      if(s.shape.size() == 2 && r.chance(0.6)) { const size_t a = s.shape[0], b = s.shape[1]; const double eq = s.tab[0], ne = a > 1 ? s.tab[1] : b > 1 ? s.tab[a] : eq; bool ok = true; for(size_t y = 0; y < b; ++y) for(size_t x = 0; x < a; ++x) ok = ok && s.tab[x + a * y] == (x == y ? eq : ne); if(ok) { s.kind = F_POTTS; s.par.push_back(eq); s.par.push_back(ne); } }
      k.fn.push_back(s); k.fnOfFactor.push_back(i);
   }
   return k;
}
inline RefModel randAcyclic(Rng& r, Op op, size_t maxConfigs = 3000, double pConst = 0.15, bool pairwise = false) {
   const Style st = op == SUM ? sumStyle(r) : r.chance(0.5) ? POSREAL : POW2;
   RefModel m = pairwise || r.chance(0.6) ? randTreeModel(r, 1, 8, 1, 4, st, r.chance(0.3) ? 0.25 : 0.0, r.chance(0.5) ? 1.0 : 0.5, 0.15, maxConfigs) : randHyperTreeModel(r, 7, 3, 4, st, maxConfigs);
   if(r.chance(0.1)) { m.labels.push_back(1 + r.below(3)); } // a variable without factors
   while(r.chance(pConst)) addRandFactor(r, m, std::vector<size_t>(), st);
   return m;
}
// equal up to one common offset (sum) or scale (product)
inline bool upTo(Op op, const std::vector<double>& a, const std::vector<double>& b, double tol) {
   if(a.size() != b.size()) return false;
   if(op == SUM) { for(size_t i = 0; i < a.size(); ++i) if(!close(a[i] - a[0], b[i] - b[0], tol, tol)) return false; return true; }
   double sa = 0, sb = 0; for(size_t i = 0; i < a.size(); ++i) { sa += a[i]; sb += b[i]; }
   if(!(sa > 0) || !(sb > 0)) return false;
   for(size_t i = 0; i < a.size(); ++i) if(!close(a[i] / sa, b[i] / sb, tol, tol)) return false;
   return true;
}
template<class F> std::vector<double> tableOf(const F& f, const RefModel& m, const std::vector<size_t>& vars, Ctx& c, const std::string& tag) {
   VF_CHECK(f.numberOfVariables() == vars.size(), tag + "/scope", f.numberOfVariables());
   std::vector<size_t> sh; for(size_t k = 0; k < vars.size(); ++k) { VF_CHECK(f.variableIndex(k) == vars[k] && f.numberOfLabels(k) == m.labels[vars[k]], tag + "/scope", "variable " << k); sh.push_back(m.labels[vars[k]]); }
   std::vector<double> r; std::vector<size_t> t(sh.size(), 0); do r.push_back((double)f(t.begin())); while(nextTuple(t, sh));
   return r;
}
template<class INF, class ACC> void judgeMarginals(Ctx& c, const INF& inf, const RefModel& ref, Op op, bool normalized, const std::string& tag, double tol) {
   const int acc = AccOf<ACC>::v; typename INF::IndependentFactorType out;
   for(size_t v = 0; v < ref.labels.size(); ++v) { std::vector<size_t> vs(1, v);
      VF_CHECK(inf.marginal(v, out) == opengm::NORMAL, tag + "/marginal-status", v);
      const std::vector<double> a = tableOf(out, ref, vs, c, tag + "/marginal"), b = marginalRef(ref, vs, op, acc);
      VF_CHECK(upTo(op, a, b, tol), tag + "/marginal", "variable " << v << " got " << show(a) << " expected " << show(b) << " up to scale");
      if(normalized && acc == 2 && std::accumulate(b.begin(), b.end(), 0.0) > 1e-4) VF_CHECK(close(std::accumulate(a.begin(), a.end(), 0.0), 1.0, tol, tol), tag + "/marginal-normalised", show(a));
      c.count("variable marginals"); }
   for(size_t f = 0; f < ref.f.size(); ++f) { if(ref.f[f].vars.empty()) continue;
      VF_CHECK(inf.factorMarginal(f, out) == opengm::NORMAL, tag + "/factor-marginal-status", f);
      const std::vector<double> a = tableOf(out, ref, ref.f[f].vars, c, tag + "/factor-marginal"), b = marginalRef(ref, ref.f[f].vars, op, acc);
      VF_CHECK(upTo(op, a, b, tol), tag + "/factor-marginal", "factor " << f << " got " << show(a) << " expected " << show(b) << " up to scale");
      if(normalized && acc == 2 && std::accumulate(b.begin(), b.end(), 0.0) > 1e-4) VF_CHECK(close(std::accumulate(a.begin(), a.end(), 0.0), 1.0, tol, tol), tag + "/factor-marginal-normalised", show(a));
      c.count("factor marginals"); }
}
template<class P> void randSchedule(Ctx& c, P& p, const RefModel& ref, bool cyclic = false) {
   Rng& r = c.rng; p.maximumNumberOfSteps_ = 2 * (ref.labels.size() + ref.f.size()) + 4; const size_t how = cyclic ? 2 + r.below(2) : r.below(4);
   p.isAcyclic_ = how == 0 ? opengm::Tribool(opengm::Tribool::Maybe) : how == 1 ? opengm::Tribool(opengm::Tribool::True) : opengm::Tribool(opengm::Tribool::False);
   p.inferSequential_ = how == 3; const bool norm = r.chance(0.7); p.useNormalization_ = norm;
   if(r.chance(0.5)) { p.sortedNodeList_.resize(ref.labels.size()); std::iota(p.sortedNodeList_.begin(), p.sortedNodeList_.end(), size_t(0)); r.shuffle(p.sortedNodeList_); }
   const char* n[] = {"automatic", "acyclic", "parallel", "sequential"}; c.desc << " " << n[how] << (norm ? " normalised" : " raw"); c.digest(how * 2 + norm); c.count(std::string("schedule ") + n[how]);
}
// exactness on acyclic models; W: weights all one (ignored by plain propagation)
template<class MP> struct Weights { template<class P> static void set(P&, const RefModel&, Rng&) {} };

template<class GM, class ACC, class MP> void exact(Ctx& c, const std::string& tag) {
   Rng& r = c.rng; const Op op = OpOf<typename GM::OperatorType>::v; const int acc = AccOf<ACC>::v; const bool mx = acc == 1;
   const double tol = sizeof(typename GM::ValueType) == 4 ? 2e-4 : 1e-8;
   MixedModel k = asMixed(r, randAcyclic(r, op)); const RefModel& ref = k.ref; ref.digest(c); c.desc << opName(op) << " " << acc << " " << k.str();
   GM gm = buildMixed<GM>(r, k); VF_CHECK(gm.isAcyclic(), tag + "/acyclic", "");
   typename MP::Parameter p; randSchedule(c, p, ref); Weights<MP>::set(p, ref, r); const bool norm = p.useNormalization_;
   MP mp(gm, p); const double opt = acc == 2 ? 0 : ref.best(mx, op);
   for(int round = 0; round < 3; ++round) {
      if(round == 2) mp.reset();
      Rec v(size_t(-1), false, acc != 2); VF_CHECK((round == 1 ? mp.infer(v) : mp.infer()) == opengm::NORMAL, tag + "/status", "");
      const std::string t = tag + (round == 0 ? "" : round == 1 ? "/again" : "/reset");
      judgeMarginals<MP, ACC>(c, mp, ref, op, norm, t, tol);
      if(acc != 2) { Answer a = answer(mp); judge(c, a, ref, op, mx, opt, t, tol); VF_CHECK(a.ok && close(ref.eval(a.arg, op), opt, tol, tol), t + "/optimum", showA(a) << " optimum " << opt); }
      else {
         // labels derived from marginals: per variable the most probable one, ties aside
         std::vector<typename GM::LabelType> l; VF_CHECK(mp.modeFromMarginal(l) == opengm::NORMAL && validLabeling(ref, toSize(l)), t + "/mode", "");
      }
   }
   c.count("runs", 3);
}
} // namespace prop
