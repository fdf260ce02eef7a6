#pragma once
#include "solvers.hpp"
#include "propagation.hpp"
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/astar.hxx>
#include <opengm/inference/icm.hxx>
#include <opengm/inference/lazyflipper.hxx>
#include <opengm/inference/dynamicprogramming.hxx>
#include <opengm/inference/movemaker.hxx>
#include <opengm/inference/auxiliary/submodel/submodel_builder.hxx>
// optimising over a subset of the variables with the others fixed, repeatedly on one builder object
namespace c21 {
using namespace sv; using opengm::Minimizer; using opengm::Maximizer;
inline bool better(bool mx, double a, double b) { return mx ? a > b : a < b; }
// best value over all labels of the subset
inline double completion(const RefModel& m, Op op, bool mx, std::vector<size_t> l, const std::vector<size_t>& set) {
   std::vector<size_t> L, t(set.size(), 0); for(size_t i = 0; i < set.size(); ++i) L.push_back(m.labels[set[i]]); double best = mx ? -1e300 : 1e300;
   do { for(size_t i = 0; i < set.size(); ++i) l[set[i]] = t[i]; const double v = m.eval(l, op); if(better(mx, v, best)) best = v; } while(nextTuple(t, L)); return best;
}
// stands in for a solver that is filled factor by factor: records what it is given and solves by enumeration
template<class GM, class ACC> struct Inplace {
   typedef typename GM::LabelType LabelType; struct Parameter { std::vector<double>* sum; const std::vector<std::vector<size_t> >* probes; size_t* factors; bool* sorted; Parameter() : sum(0), probes(0), factors(0), sorted(0) {} };
   std::vector<size_t> L, start; Parameter p; std::vector<std::vector<size_t> > vi; std::vector<std::vector<double> > tab; std::vector<size_t> res; bool given;
   template<class IT> Inplace(IT b, IT e, const Parameter& q) : p(q), given(false) { for(; b != e; ++b) L.push_back(*b); }
   template<class IT, class F> void addFactor(IT b, IT e, const F& f) { std::vector<size_t> v(b, e); std::vector<size_t> sh, t(v.size(), 0); if(p.factors) ++*p.factors; for(size_t i = 0; i < v.size(); ++i) { sh.push_back(L.at(v[i])); if(p.sorted && i && v[i] <= v[i - 1]) *p.sorted = false; } std::vector<double> w; do { std::vector<LabelType> x(t.begin(), t.end()); w.push_back((double)f(x.begin())); } while(nextTuple(t, sh)); vi.push_back(v); tab.push_back(w); }
   double eval(const std::vector<size_t>& l) const { double s = prop::OpOf<typename GM::OperatorType>::v == SUM ? 0 : 1; for(size_t f = 0; f < vi.size(); ++f) { size_t at = 0, mul = 1; for(size_t i = 0; i < vi[f].size(); ++i) { at += mul * l[vi[f][i]]; mul *= L[vi[f][i]]; } if(prop::OpOf<typename GM::OperatorType>::v == SUM) s += tab[f][at]; else s *= tab[f][at]; } return s; }
   template<class IT> void setStartingPoint(IT b) { given = true; start.clear(); for(size_t i = 0; i < L.size(); ++i, ++b) start.push_back(*b); }
   void infer() { const bool mx = prop::AccOf<ACC>::v == 1; std::vector<size_t> t(L.size(), 0); res = t; if(given) res = start; double b = eval(res); do { const double v = eval(t); if(better(mx, v, b)) { b = v; res = t; } } while(nextTuple(t, L)); if(p.sum) for(size_t i = 0; i < p.probes->size(); ++i) p.sum->push_back(eval((*p.probes)[i])); }
   void arg(std::vector<LabelType>& a) const { a.assign(res.begin(), res.end()); }
};
template<class GM, class ACC> void run(Ctx& c) {
   typedef opengm::SubmodelOptimizer<GM, ACC> Opt; typedef typename Opt::SubGmType Sub; typedef typename GM::LabelType Lb; typedef typename GM::IndexType Ix; Rng& r = c.rng; const Op op = prop::OpOf<typename GM::OperatorType>::v; const bool mx = prop::AccOf<ACC>::v == 1; 
   MixedModel k; { const bool big = r.chance(0.06); const size_t what = r.below(3); RefModel q = big ? randPairwise(r, 14, 36, 1, 3, 0.2 * r.unit(), 0.8, op == SUM ? DYADIC : POW2, ~size_t(0)) : what == 0 ? randTreeModel(r, 1, 9, 1, 3, op == SUM ? DYADIC : POW2, 0.1, 0.8, 0.3) : what == 1 ? randPairwise(r, 1, 9, 1, 3, r.unit(), 0.8, op == SUM ? DYADIC : POW2, 4096) : randModel(r, 0, 9, 1, 3, 4, 0, 12, op == SUM ? DYADIC : POW2); for(size_t f = q.f.size(); f-- > 0;) if(r.chance(0.1)) q.f.push_back(q.f[f]); k = prop::asMixedExact(r, q); }
   const RefModel& m = k.ref; const size_t n = m.labels.size(); m.digest(c); GM gm = buildMixed<GM>(r, k); c.desc << k.str(); Opt o(gm); std::vector<size_t> cur(n, 0); for(size_t v = 0; v < n; ++v) { cur[v] = r.below(m.labels[v]); o.setLabel((Ix)v, (Lb)cur[v]); } 
   if(n == 0) { c.count("empty models"); return; }
   bool pair = true; for(size_t f = 0; f < m.f.size(); ++f) pair = pair && m.f[f].vars.size() <= 2; const size_t rounds = 1 + r.below(8);
   for(size_t round = 0; round < rounds; ++round) {
      if(r.chance(0.3)) { const size_t v = r.below(n); cur[v] = r.below(m.labels[v]); o.setLabel((Ix)v, (Lb)cur[v]); }
      std::vector<size_t> set; const double p = n > 12 ? 6.0 / n : r.chance(0.1) ? 1 : r.unit(); for(size_t v = 0; v < n; ++v) if(r.chance(p)) set.push_back(v); if(set.empty()) set.push_back(r.below(n)); double cfg = 1; for(size_t i = 0; i < set.size(); ++i) cfg *= m.labels[set[i]]; if(cfg > (n > 12 ? 200 : 3000)) set.resize(3);
      std::vector<Ix> vi(set.begin(), set.end()); o.setVariableIndices(vi.begin(), vi.end()); VF_CHECK(o.submodelSize() == set.size(), "size", o.submodelSize()); for(size_t v = 0; v < n; ++v) VF_CHECK(o.inSubmodel((Ix)v) == (std::find(set.begin(), set.end(), v) != set.end()), "inside", v);
      const size_t how = r.below(7); const double before = m.eval(cur, op), best = completion(m, op, mx, cur, set); std::vector<Lb> res; bool changed = false, exact = true; const bool warm = r.chance(0.4); std::string tag = "sub"; if(r.chance(0.3)) res.assign(r.below(5), 0);
      std::ostringstream w; w << " set " << show(set) << " how " << how << " warm " << warm << " labels " << show(cur); 
      if(how == 0) { typedef opengm::Bruteforce<Sub, ACC> I; changed = o.template inferSubmodel<I>(typename I::Parameter(), res); tag = "bruteforce"; }
      else if(how == 1) { typedef opengm::AStar<Sub, ACC> I; changed = o.template inferSubmodel<I>(typename I::Parameter(), res); tag = "astar"; }
      else if(how == 2) { typedef opengm::ICM<Sub, ACC> I; typename I::Parameter q; changed = o.template inferSubmodel<I>(q, res, true, true); tag = "icm"; exact = false; }
      else if(how == 3) { typedef opengm::LazyFlipper<Sub, ACC> I; typename I::Parameter q(set.size()); changed = o.template inferSubmodel<I>(q, res, true, true); tag = "flipper"; exact = false; }
      else if(how == 4) {
         bool forest = pair; { std::vector<size_t> u(n); for(size_t i = 0; i < n; ++i) u[i] = i; std::set<std::pair<size_t, size_t> > seen; for(size_t f = 0; f < m.f.size(); ++f) { std::vector<size_t> in; for(size_t j = 0; j < m.f[f].vars.size(); ++j) if(o.inSubmodel((Ix)m.f[f].vars[j])) in.push_back(m.f[f].vars[j]); if(in.size() > 2) forest = false; if(in.size() == 2 && seen.insert(std::make_pair(in[0], in[1])).second) { size_t a = in[0], b = in[1]; while(u[a] != a) a = u[a]; while(u[b] != b) b = u[b]; if(a == b) forest = false; u[a] = b; } } }
         if(!forest) { typedef Inplace<GM, ACC> I; changed = o.template inferSubmodelInplace<I>(typename I::Parameter(), res); tag = "inplace"; } else { changed = o.mergeFactorsAndInferDp(res); tag = "merged"; c.count("merged trees"); }
      } else {
         typedef Inplace<GM, ACC> I; typename I::Parameter q; std::vector<double> sum; std::vector<std::vector<size_t> > probes; size_t factors = 0; bool sorted = true; q.sum = &sum; q.probes = &probes; q.factors = &factors; q.sorted = &sorted; for(size_t i = 0; i < 5; ++i) { std::vector<size_t> x; for(size_t j = 0; j < set.size(); ++j) x.push_back(r.below(m.labels[set[j]])); probes.push_back(x); }
         changed = o.template inferSubmodelInplace<I>(q, res, true, warm); tag = "inplace"; size_t expected = 0; for(size_t f = 0; f < m.f.size(); ++f) { bool in = false; for(size_t j = 0; j < m.f[f].vars.size(); ++j) in = in || o.inSubmodel((Ix)m.f[f].vars[j]); expected += in; } VF_CHECK(factors == expected && sorted, "inplace/factors", factors << " of " << expected << w.str());
         for(size_t i = 0; i < probes.size(); ++i) { std::vector<size_t> l = cur, l0 = cur; for(size_t j = 0; j < set.size(); ++j) { l[set[j]] = probes[i][j]; l0[set[j]] = probes[0][j]; } const double a = m.eval(l, op), b = m.eval(l0, op); if(op == SUM) VF_CHECK(close(sum[i] - sum[0], a - b, 1e-9, 1e-9), "inplace/difference", sum[i] - sum[0] << " " << a - b << w.str()); else VF_CHECK(close(sum[i] * b, sum[0] * a, 1e-9, 1e-9), "inplace/ratio", sum[i] << " " << sum[0] << w.str()); c.count("submodel values"); }
      }
      VF_CHECK(res.size() == set.size(), tag + "/size", res.size() << w.str()); std::vector<size_t> after = cur; bool diff = false; for(size_t i = 0; i < set.size(); ++i) { VF_CHECK((size_t)res[i] < m.labels[set[i]], tag + "/label", i << w.str()); diff = diff || res[i] != cur[set[i]]; after[set[i]] = res[i]; }
      VF_CHECK(changed == diff, tag + "/changed", changed << w.str()); const double v = m.eval(after, op); VF_CHECK(!better(mx, before, v), tag + "/worse", before << " to " << v << w.str()); if(exact) VF_CHECK(close(v, best, 1e-9, 1e-9), tag + "/optimal", v << " of " << best << w.str()); else if(close(v, best)) c.count("local searches optimal"); c.count(diff ? "changed" : "unchanged"); 
      for(size_t i = 0; i < set.size(); ++i) if(r.chance(0.9)) { o.setLabel((Ix)set[i], (Lb)after[set[i]]); cur[set[i]] = after[set[i]]; } o.unsetVariableIndices(); VF_CHECK(o.submodelSize() == 0, "unset", "");
      // the same through the move maker, which holds the labeling itself
      std::vector<Lb> s(cur.begin(), cur.end()); opengm::Movemaker<GM> mm(gm, s.begin()); const double at = m.eval(cur, op), full = completion(m, op, mx, cur, set); std::vector<Lb> move(r.chance(0.5) ? set.size() : 0); typedef typename opengm::Movemaker<GM>::SubGmType MS;
      if(r.chance(0.5)) { typedef opengm::Bruteforce<MS, ACC> I; mm.template proposeMoveAccordingToInference<I, typename I::Parameter, typename std::vector<Ix>::iterator, typename std::vector<Lb>::iterator>(typename I::Parameter(), vi.begin(), vi.end(), move); } else { typedef opengm::AStar<MS, ACC> I; mm.template proposeMoveAccordingToInference<I, typename I::Parameter, typename std::vector<Ix>::iterator, typename std::vector<Lb>::iterator>(typename I::Parameter(), vi.begin(), vi.end(), move); }
      VF_CHECK(move.size() == set.size() && close((double)mm.value(), at), "propose/before", mm.value()); std::vector<size_t> moved = cur; for(size_t i = 0; i < set.size(); ++i) moved[set[i]] = move[i]; VF_CHECK(validLabeling(m, moved) && close(m.eval(moved, op), full, 1e-9, 1e-9), "propose/optimal", m.eval(moved, op) << " of " << full << w.str()); const double told = (double)mm.valueAfterMove(vi.begin(), vi.end(), move.begin()); VF_CHECK(close(told, full, 1e-9, 1e-9), "propose/value", told << " of " << full << w.str());
      mm.move(vi.begin(), vi.end(), move.begin()); for(size_t x = 0; x < n; ++x) VF_CHECK((size_t)mm.state(x) == moved[x], "propose/moved", x); VF_CHECK(close((double)mm.value(), full, 1e-9, 1e-9), "propose/moved-value", mm.value()); c.count("proposals judged");
   }
   VF_EXPECT(sameModel(gm, m), "model", "");
}
}
