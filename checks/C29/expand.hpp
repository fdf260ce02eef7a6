#pragma once
#include "solvers.hpp"
#include "propagation.hpp"
#include <opengm/inference/graphcut.hxx>
#include <opengm/inference/auxiliary/minstcutboost.hxx>
#include <opengm/inference/alphaexpansion.hxx>
#include <opengm/inference/alphabetaswap.hxx>
// move-making by graph cuts: every step and every end point inspected
namespace c29 {
using namespace sv; using opengm::MinSTCutBoost; using opengm::PUSH_RELABEL; using opengm::EDMONDS_KARP; using opengm::KOLMOGOROV;
enum Kind { METRIC, SEMI, FREE };
inline std::vector<double> distance(Rng& r, size_t L, Kind kind, double unit) { // L x L table, first label fastest
   std::vector<double> d(L * L, 0); const double w = unit * r.range(0, 6), t = unit * r.range(1, 12); const size_t style = r.below(kind == METRIC ? 4 : 5);
   if(kind == FREE) { for(size_t i = 0; i < d.size(); ++i) d[i] = unit * r.range(-6, 6); return d; }
   for(size_t a = 0; a < L; ++a) for(size_t b = 0; b < L; ++b) { const double e = std::fabs((double)a - (double)b); d[a + L * b] = a == b ? 0 : style == 0 ? w : style == 1 ? w * e : style == 2 ? std::min(t, w * e) : style == 4 ? std::min(t, w * e * e) : d[b + L * a] != 0 && b < a ? d[b + L * a] : unit * r.range(1, 9); }
   if(style >= 3) for(size_t a = 0; a < L; ++a) for(size_t b = 0; b < a; ++b) d[a + L * b] = d[b + L * a];
   if(kind == METRIC) for(size_t k = 0; k < L; ++k) for(size_t a = 0; a < L; ++a) for(size_t b = 0; b < L; ++b) d[a + L * b] = std::min(d[a + L * b], d[a + L * k] + d[k + L * b]);
   return d;
}
template<class T> RefModel draw(Rng& r, Kind kind, bool mx, size_t maxL = 4) {
   RefModel m; const double unit = std::is_integral<T>::value ? 1 : r.chance(0.5) ? 1 : 0.125; const size_t L = 1 + r.below(maxL); size_t n = r.below(8); std::vector<std::pair<size_t, size_t> > e; if(r.chance(0.4)) { const size_t h = 2, w = 1 + r.below(4); n = h * w; for(size_t i = 0; i < n; ++i) { if(i % w + 1 < w) e.push_back(std::make_pair(i, i + 1)); if(i + w < n) e.push_back(std::make_pair(i, i + w)); } } else { const double p = r.chance(0.5) ? 0.8 : 0.35; for(size_t a = 0; a < n; ++a) for(size_t b = a + 1; b < n; ++b) if(r.chance(p)) { e.push_back(std::make_pair(a, b)); if(r.chance(0.1)) e.push_back(std::make_pair(a, b)); } }
   m.labels.assign(n, L);
   for(size_t v = 0; v < n; ++v) while(r.chance(0.65)) { RefFactor f; f.vars.push_back(v); for(size_t i = 0; i < L; ++i) f.tab.push_back(unit * r.range(-10, 10)); m.f.push_back(f); if(r.chance(0.7)) break; }
   for(size_t i = 0; i < e.size(); ++i) { RefFactor f; f.vars.push_back(e[i].first); f.vars.push_back(e[i].second); f.tab = distance(r, L, kind, unit); m.f.push_back(f); }
   while(r.chance(0.2)) { RefFactor f; f.tab.push_back(unit * r.range(-9, 9)); m.f.push_back(f); }
   r.shuffle(m.f); if(mx) for(size_t f = 0; f < m.f.size(); ++f) for(size_t i = 0; i < m.f[f].tab.size(); ++i) m.f[f].tab[i] = -m.f[f].tab[i];
   return m;
}
inline bool better(bool mx, double a, double b) { return mx ? a > b : a < b; }
inline double bestExpansion(const RefModel& m, bool mx, const std::vector<size_t>& l, size_t alpha) { std::vector<size_t> two(l.size(), 2), t(l.size(), 0), x; double b = m.eval(l); do { x = l; for(size_t i = 0; i < l.size(); ++i) if(t[i]) x[i] = alpha; const double v = m.eval(x); if(better(mx, v, b)) b = v; } while(nextTuple(t, two)); return b; }
inline double bestSwap(const RefModel& m, bool mx, const std::vector<size_t>& l, size_t a, size_t b) { std::vector<size_t> who; for(size_t i = 0; i < l.size(); ++i) if(l[i] == a || l[i] == b) who.push_back(i); std::vector<size_t> two(who.size(), 2), t(who.size(), 0), x = l; double best = m.eval(l); do { for(size_t i = 0; i < who.size(); ++i) x[who[i]] = t[i] ? a : b; const double v = m.eval(x); if(better(mx, v, best)) best = v; } while(nextTuple(t, two)); return best; }
inline void trace(Ctx& c, const Rec& rec, const RefModel& m, bool mx, double last, const std::string& tag) {
   for(size_t i = 0; i < rec.args.size(); ++i) { VF_CHECK(rec.argOk[i] && validLabeling(m, rec.args[i]), tag + "/step-labels", show(rec.args[i])); const double v = m.eval(rec.args[i]); VF_CHECK(close(v, rec.values[i]), tag + "/step-value", rec.values[i] << " labeling has " << v); VF_CHECK(!better(mx, last, v), tag + "/increase", "from " << last << " to " << v); last = v; c.count("moves observed"); }
   VF_CHECK(rec.begins == 1 && rec.ends == 1 && !rec.afterStop, tag + "/visitor", "");
}
template<class GM, class ACC> void ended(Ctx& c, const RefModel& m, const std::vector<size_t>& l, bool expansion, const std::string& tag) {
   const bool mx = prop::AccOf<ACC>::v == 1; const double v = m.eval(l); const size_t L = l.empty() ? 0 : m.labels[0];
   for(size_t a = 0; a < L; ++a) if(expansion) { const double b = bestExpansion(m, mx, l, a); VF_CHECK(!better(mx, b, v), tag + "/move-optimal", "expanding " << a << " from " << show(l) << " improves " << v << " to " << b); c.count("moves ruled out"); } else for(size_t q = 0; q < a; ++q) { const double b = bestSwap(m, mx, l, a, q); VF_CHECK(!better(mx, b, v), tag + "/move-optimal", "swapping " << a << " and " << q << " from " << show(l) << " improves " << v << " to " << b); c.count("moves ruled out"); }
}
// drives one solver object through runs, early stops and resets
template<class GM, class ACC, class INF> void drive(Ctx& c, const GM& gm, const RefModel& m, INF& inf, const std::vector<size_t>* start, bool startFixed, Kind kind, Kind needed, bool expansion, const std::string& tag) {
   Rng& r = c.rng; const bool mx = prop::AccOf<ACC>::v == 1, exact = kind <= needed; const double opt = m.best(mx); Answer a0 = answer(inf); VF_CHECK(a0.ok && validLabeling(m, a0.arg) && close(a0.value, m.eval(a0.arg)), tag + "/before", showA(a0)); if(start) VF_CHECK(a0.arg == *start, tag + "/start", showA(a0) << " expected " << show(*start)); if(a0.arg.empty()) c.count("empty models");
   try {
      double last = a0.value;
      if(r.chance(0.3)) { Rec rec(1 + r.below(5)); inf.infer(rec); const Answer a = answer(inf); judge(c, a, m, SUM, mx, opt, tag + "/early"); trace(c, rec, m, mx, last, tag + "/early"); VF_CHECK(!better(mx, last, a.value), tag + "/early/worse", showA(a)); if(!rec.stopped && exact) ended<GM, ACC>(c, m, a.arg, expansion, tag); last = a.value; c.count(rec.stopped ? "stopped early" : "ended by itself"); if(startFixed) { inf.reset(); VF_CHECK(sameAnswer(answer(inf), a0), tag + "/reset", showA(answer(inf)) << " before " << showA(a0)); last = a0.value; } }
      Rec rec; VF_CHECK(inf.infer(rec) == opengm::NORMAL, tag + "/status", ""); trace(c, rec, m, mx, last, tag); const Answer a = answer(inf); judge(c, a, m, SUM, mx, opt, tag); c.count(better(mx, a.value, last) ? "improved" : "start kept"); if(close(a.value, opt)) c.count("optimum reached");
      if(exact) { ended<GM, ACC>(c, m, a.arg, expansion, tag); inf.infer(); VF_CHECK(close(answer(inf).value, a.value), tag + "/again", showA(answer(inf)) << " before " << showA(a)); }
      if(startFixed) { inf.reset(); VF_CHECK(sameAnswer(answer(inf), a0), tag + "/reset", showA(answer(inf)) << " before " << showA(a0)); inf.infer(); const Answer b = answer(inf); judge(c, b, m, SUM, mx, opt, tag + "/reset"); if(exact) ended<GM, ACC>(c, m, b.arg, expansion, tag + "/reset"); }
   } catch(const std::runtime_error& e) { if(exact) throw; const Answer a = answer(inf); VF_CHECK(validLabeling(m, a.arg) && !better(mx, a0.value, a.value), tag + "/refused", showA(a)); c.count("refused while running"); }
   VF_EXPECT(sameModel(gm, m) && &inf.graphicalModel() == &gm && !inf.name().empty(), tag + "/model", "");
}
template<class GM, class ACC, class CUT> void expansion(Ctx& c, Kind kind, double scale = 0) {
   typedef opengm::GraphCut<GM, ACC, CUT> Cut; typedef opengm::AlphaExpansion<GM, Cut> Inf; typedef typename GM::LabelType Lb; typedef typename Inf::Parameter Par; Rng& r = c.rng; const bool mx = prop::AccOf<ACC>::v == 1;
   MixedModel k = prop::asMixedExact(r, draw<typename GM::ValueType>(r, kind, mx)); const RefModel& m = k.ref; m.digest(c); GM gm = buildMixed<GM>(r, k); const size_t n = m.labels.size(), L = n ? m.labels[0] : 0; Par p; if(scale) p.parameter_ = typename Cut::Parameter((typename GM::ValueType)scale);
   std::vector<size_t> start(n, 0); bool known = true; const size_t how = r.below(6); c.digest(how); c.desc << "how " << how << " ";
   if(how == 1) { p.labelInitialType_ = Par::RANDOM_LABEL; p.randSeedLabel_ = r.below(1000); known = false; }
   if(how == 2) { p.labelInitialType_ = Par::LOCALOPT_LABEL; for(size_t v = 0; v < n; ++v) { std::vector<double> u(L, 0); for(size_t f = 0; f < m.f.size(); ++f) if(m.f[f].vars.size() == 1 && m.f[f].vars[0] == v) for(size_t i = 0; i < L; ++i) u[i] += m.f[f].tab[i]; for(size_t i = 0; i < L; ++i) if(better(mx, u[i], u[start[v]])) start[v] = i; } }
   if(how >= 3) for(size_t v = 0; v < n; ++v) start[v] = r.below(L);
   if(how == 3) { p.labelInitialType_ = Par::EXPLICIT_LABEL; p.label_.assign(start.begin(), start.end()); }
   const size_t order = r.below(3); std::vector<size_t> perm(L); std::iota(perm.begin(), perm.end(), size_t(0)); if(order == 1) { p.orderType_ = Par::RANDOM_ORDER; p.randSeedOrder_ = r.below(1000); } if(order == 2) { r.shuffle(perm); p.orderType_ = Par::EXPLICIT_ORDER; p.labelOrder_.assign(perm.begin(), perm.end()); } c.digestV(start); c.digestV(perm); c.desc << "start" << show(start) << " order " << order << show(perm) << k.str();
   Inf inf(gm, p); const std::vector<Lb> s(start.begin(), start.end()); if(how == 4) inf.setStartingPoint(s.begin()); if(how == 5) inf.setState(s.begin(), s.end());
   drive<GM, ACC>(c, gm, m, inf, known ? &start : 0, how < 4, kind, METRIC, true, "expansion");
   if(how < 4) { Par q(p); Inf again(gm, q); inf.reset(); VF_CHECK(answer(inf).arg == answer(again).arg, "expansion/same-start", ""); if(kind == METRIC) { again.infer(); inf.infer(); VF_CHECK(sameAnswer(answer(inf), answer(again)), "expansion/repeatable", showA(answer(inf)) << " again " << showA(answer(again))); } }
   if(r.chance(0.1) && kind == METRIC) { Par q(p); q.maxNumberOfSteps_ = r.below(3); Inf few(gm, q); Rec rec; few.infer(rec); VF_CHECK(rec.steps <= q.maxNumberOfSteps_, "expansion/step-limit", rec.steps); typename opengm::AlphaExpansion<GM, opengm::GraphCut<GM, ACC, MinSTCutBoost<size_t, double, EDMONDS_KARP> > >::Parameter o(p); VF_EXPECT(o.label_ == p.label_ && o.labelOrder_ == p.labelOrder_ && (int)o.labelInitialType_ == (int)p.labelInitialType_ && (int)o.orderType_ == (int)p.orderType_ && o.maxNumberOfSteps_ == p.maxNumberOfSteps_, "expansion/parameter", ""); }
}
template<class GM, class ACC, class CUT> void swaps(Ctx& c, Kind kind, double scale = 0) {
   typedef opengm::GraphCut<GM, ACC, CUT> Cut; typedef opengm::AlphaBetaSwap<GM, Cut> Inf; typedef typename GM::LabelType Lb; typedef typename Inf::Parameter Par; Rng& r = c.rng; const bool mx = prop::AccOf<ACC>::v == 1;
   MixedModel k = prop::asMixedExact(r, draw<typename GM::ValueType>(r, kind, mx)); const RefModel& m = k.ref; m.digest(c); GM gm = buildMixed<GM>(r, k); const size_t n = m.labels.size(); Par p; if(scale) p.parameter_ = typename Cut::Parameter((typename GM::ValueType)scale);
   std::vector<size_t> start(n, 0); const bool given = r.chance(0.6); if(given) for(size_t v = 0; v < n; ++v) start[v] = r.below(m.labels[v]); c.digestV(start); c.desc << "start" << show(start) << k.str(); Inf inf(gm, p); const std::vector<Lb> s(start.begin(), start.end()); if(given) inf.setStartingPoint(s.begin());
   drive<GM, ACC>(c, gm, m, inf, &start, !given, kind, SEMI, false, "swap");
   if(r.chance(0.1) && kind != FREE) { Par q(p); q.maxNumberOfIterations_ = r.below(3); Inf few(gm, q); Rec rec; few.infer(rec); VF_CHECK(rec.steps <= q.maxNumberOfIterations_, "swap/step-limit", rec.steps); typename opengm::AlphaBetaSwap<GM, opengm::GraphCut<GM, ACC, MinSTCutBoost<size_t, double, EDMONDS_KARP> > >::Parameter o(q); VF_EXPECT(o.maxNumberOfIterations_ == q.maxNumberOfIterations_, "swap/parameter", ""); }
}
template<class GM, class ACC, class CUT> void refuse(Ctx& c) {
   typedef opengm::GraphCut<GM, ACC, CUT> Cut; Rng& r = c.rng; RefModel m = draw<typename GM::ValueType>(r, METRIC, false); while(m.labels.size() < 3) m.labels.push_back(2); const bool order = r.chance(0.5); for(size_t f = 0; f < m.f.size();) if(m.f[f].vars.size()) m.f.erase(m.f.begin() + f); else ++f; std::fill(m.labels.begin(), m.labels.end(), 3); if(order) addRandFactor(r, m, randScope(r, m.labels.size(), 3), SMALLINT); else { m.labels[r.below(m.labels.size())] = 2; for(size_t i = 0; i + 1 < m.labels.size(); ++i) { std::vector<size_t> v(1, i); addRandFactor(r, m, v, SMALLINT); v.push_back(i + 1); addRandFactor(r, m, v, TIES); } } m.digest(c); c.desc << m.str(); GM gm = buildExplicit<GM>(m);
   typedef opengm::AlphaExpansion<GM, Cut> E; typedef opengm::AlphaBetaSwap<GM, Cut> S; VF_MUST_THROW(E e(gm); e.infer(), order ? "expansion/order" : "expansion/labels", ""); VF_MUST_THROW(S s(gm); s.infer(), order ? "swap/order" : "swap/labels", "");
}
}
