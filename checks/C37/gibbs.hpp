#include "../../harness/solvers.hpp"
#include <cstdlib>
#include <opengm/inference/gibbs.hxx>
using namespace vf; using namespace sv;
namespace gb {
typedef std::vector<size_t> St;
template<class OP> struct Kind { static const bool sum = opengm::meta::Compare<OP, opengm::Adder>::value; static Op op() { return sum ? SUM : PROD; } };
inline bool impossible(bool sum, double v) { return sum ? v == std::numeric_limits<double>::infinity() : v == 0; }
inline bool better(bool sum, double a, double b) { return sum ? a < b : a > b; }
inline RefModel model(Rng& r, bool sum, size_t maxV, size_t maxL, double pImp, double pSpread) {
   RefModel m; const size_t n = 1 + r.below(maxV); for(size_t i = 0; i < n; ++i) m.labels.push_back(1 + (r.chance(0.9) ? 1 + r.below(maxL - 1) : 0));
   const size_t nf = 1 + r.below(n + 2); for(size_t k = 0; k < nf; ++k) addRandFactor(r, m, randScope(r, n, 1 + r.below(std::min<size_t>(n, 3))), sum ? (r.chance(pSpread) ? DYADIC : TIES) : (r.chance(0.5) ? POSDYADIC : POW2)); if(r.chance(0.1)) addRandFactor(r, m, St(), sum ? DYADIC : POW2);
   if(r.chance(pImp)) for(size_t k = 0; k < m.f.size(); ++k) if(!m.f[k].vars.empty()) for(size_t i = 0; i < m.f[k].tab.size(); ++i) if(r.chance(0.2)) m.f[k].tab[i] = sum ? std::numeric_limits<double>::infinity() : 0;
   return m;
}
// everything the sampler shows its visitor
struct Trace {
   std::vector<St> st, args; std::vector<double> mv, val, bestVal; std::vector<St> best; size_t begins, ends, stop; bool late; St start;
   Trace(size_t s = size_t(-1)) : begins(0), ends(0), stop(s), late(false) {}
   template<class G> static St state(const G& g) { St s; for(size_t i = 0; i < g.graphicalModel().numberOfVariables(); ++i) s.push_back((size_t)g.markovState(i)); return s; }
   template<class G> void begin(const G& g) { ++begins; start = state(g); }
   template<class G> void end(const G&) { ++ends; }
   template<class G> size_t operator()(const G& g) {
      if(st.size() >= stop) late = true; st.push_back(state(g)); mv.push_back((double)g.markovValue()); val.push_back((double)g.value()); std::vector<typename G::LabelType> a; g.arg(a); args.push_back(St(a.begin(), a.end()));
      bestVal.push_back((double)g.currentBestValue()); St b; for(size_t i = 0; i < st.back().size(); ++i) b.push_back((size_t)g.currentBestState(i)); best.push_back(b); return st.size() >= stop ? opengm::visitors::VisitorReturnFlag::StopInfBoundReached : 0; }
};
struct Light { std::vector<St> st; St start; void reserve() {} template<class G> void begin(const G& g) { start = Trace::state(g); } template<class G> void end(const G&) {} template<class G> size_t operator()(const G& g) { st.push_back(Trace::state(g)); return 0; } };

template<class T, class OP, class ACC, class I, class L> void trace(Ctx& c) {
   typedef typename Gm<T, OP, I, L>::Plain GM; typedef opengm::Gibbs<GM, ACC> S; typedef typename S::Parameter P; const bool sum = Kind<OP>::sum; Rng& r = c.rng;
   const RefModel m = r.chance(0.02) ? RefModel() : model(r, sum, 5, 4, 0.4, 0.6); const size_t n = m.labels.size(); c.desc << m.str(); m.digest(c); const GM gm = buildExplicit<GM>(m); const Op op = Kind<OP>::op();
   St start(n, 0); const bool given = n > 0 && r.chance(0.4); if(given) for(size_t i = 0; i < n; ++i) start[i] = r.below(m.labels[i]); const size_t steps = 20 + r.below(120), burn = r.chance(0.5) ? 0 : r.below(40); const bool temp = r.chance(0.25), cyclic = r.chance(0.4);
   P p(steps, burn, temp, (T)(r.below(5) / 8.0), (T)(1), 1 + r.below(5), cyclic ? P::CYCLIC : P::RANDOM, given ? start : St()); c.desc << " steps " << steps << " burn " << burn << (temp ? " temp" : "") << (cyclic ? " cyclic" : " random") << " start" << vf::show(start); c.digestV(start); c.digest(steps);
   const unsigned seed = (unsigned)r.below(1000000); S s(gm, p); const Answer a0 = answer(s); VF_CHECK(a0.ok && a0.arg == start && sameNum(a0.value, m.eval(start, op)), "start", showA(a0) << " expected " << vf::show(start));
   if(n > 0 && !given && r.chance(0.3)) { for(size_t i = 0; i < n; ++i) start[i] = r.below(m.labels[i]); std::vector<L> sp(start.begin(), start.end()); s.setStartingPoint(sp.begin()); c.desc << " set" << vf::show(start); const Answer a1 = answer(s); VF_CHECK(a1.arg == start && sameNum(a1.value, m.eval(start, op)), "set-start", showA(a1)); }
   const size_t stop = r.chance(0.2) ? 1 + r.below(10) : size_t(-1); srand(seed); Trace v(stop); VF_CHECK(s.infer(v) == opengm::NORMAL, "status", "infer"); VF_CHECK(v.begins == 1 && v.ends == 1, "visitor", v.begins << " begins " << v.ends << " ends"); VF_CHECK(!v.late, "visitor-stop", "went on after being stopped"); VF_EXPECT(v.st.size() <= steps + burn, "too-many-steps", v.st.size() << " of " << steps + burn); VF_EXPECT(v.start == start, "visitor-start", vf::show(v.start));
   double best = m.eval(start, op); St bestState = start, prev = start; double pv = best; size_t moves = 0; std::vector<bool> moved(n, false);
   for(size_t k = 0; k < v.st.size(); ++k) {
      VF_CHECK(validLabeling(m, v.st[k]), "state-labels", "step " << k << vf::show(v.st[k])); size_t diff = 0; for(size_t i = 0; i < n; ++i) if(v.st[k][i] != prev[i]) { ++diff; moved[i] = true; } VF_CHECK(diff <= 1, "two-variables", "step " << k << " from " << vf::show(prev) << " to " << vf::show(v.st[k])); moves += diff;
      const double x = m.eval(v.st[k], op); VF_CHECK(!(diff && impossible(sum, x)), "impossible", "step " << k << " entered " << vf::show(v.st[k])); VF_CHECK(sameNum(v.mv[k], x), "markov-value", "step " << k << " reports " << v.mv[k] << " state has " << x);
      VF_CHECK(validLabeling(m, v.args[k]) && sameNum(v.val[k], m.eval(v.args[k], op)), "step-value", "step " << k << " value " << v.val[k] << " arg" << vf::show(v.args[k])); if(better(sum, x, best)) { best = x; bestState = v.st[k]; }
      VF_CHECK(sameNum(v.bestVal[k], best), "best-value", "step " << k << " best so far " << v.bestVal[k] << " visited " << best); VF_CHECK(validLabeling(m, v.best[k]) && sameNum(m.eval(v.best[k], op), best), "best-state", "step " << k << " state " << vf::show(v.best[k]) << " has " << m.eval(v.best[k], op) << " best visited " << best);
      prev = v.st[k]; pv = x; c.count("steps"); } c.count("moves", moves); (void)pv;
   const Answer a = answer(s); VF_CHECK(a.ok && validLabeling(m, a.arg) && sameNum(a.value, best) && sameNum(m.eval(a.arg, op), best), "result", showA(a) << " best visited " << best << " " << vf::show(bestState));
   VF_EXPECT(sameNum(s.markovValue(), m.eval(Trace::state(s), op)), "markov-value", "at the end");
   // same seed, same start: same run
   { S t(gm, p); if(!given) { std::vector<L> sp(start.begin(), start.end()); if(n) t.setStartingPoint(sp.begin()); } srand(seed); Trace w(stop); t.infer(w); VF_EXPECT(w.st == v.st && sameAnswer(answer(t), a), "repeat", "same seed, different run"); }
   if(n > 0) { s.reset(); const St zero(n, 0); const St back = given ? start : zero; const Answer b = answer(s); VF_CHECK(b.arg == back && sameNum(b.value, m.eval(back, op)) && sameNum((double)s.currentBestValue(), b.value), "reset", showA(b) << " best value " << s.currentBestValue()); if(stop == size_t(-1)) { srand(seed); Trace w; s.infer(w); S u(gm, p); srand(seed); Trace z; u.infer(z); VF_EXPECT(w.st == z.st && sameAnswer(answer(s), answer(u)), "after-reset", showA(answer(s)) << " fresh " << showA(answer(u))); } }
   else { s.reset(); }
   if(n > 0 && r.chance(0.2)) { P q = p; q.startPoint_.assign(n + 1, 0); VF_MUST_THROW({ S u(gm, q); }, "start-size", "start point of another size"); std::vector<L> bad(n, 0); size_t at = n; for(size_t k = 0; k < m.f.size(); ++k) if(!m.f[k].vars.empty()) at = m.f[k].vars[0]; if(at < n) { bad[at] = (L)m.labels[at]; VF_MUST_THROW(s.setStartingPoint(bad.begin()), "start-label", "label out of range"); } }
   VF_EXPECT(sameModel(gm, m), "model-changed", "");
}
// transition frequencies of a long run against the conditional probabilities of the model
template<class T, class OP, class ACC, class I, class L> void statistics(Ctx& c) {
   typedef typename Gm<T, OP, I, L>::Plain GM; typedef opengm::Gibbs<GM, ACC> S; typedef typename S::Parameter P; const bool sum = Kind<OP>::sum; Rng& r = c.rng; RefModel m; do m = model(r, sum, 3, 3, 0.3, 0.2); while(prod(m.labels) > 18 || prod(m.labels) < 2); const size_t n = m.labels.size(); const Op op = Kind<OP>::op(); c.desc << m.str(); m.digest(c); const GM gm = buildExplicit<GM>(m);
   std::vector<St> all; St t(n, 0); do all.push_back(t); while(nextTuple(t, m.labels)); std::map<St, size_t> id; std::vector<double> val; bool any = false; for(size_t i = 0; i < all.size(); ++i) { id[all[i]] = i; val.push_back(m.eval(all[i], op)); any = any || !impossible(sum, val[i]); } if(!any) { c.trivial(); return; }
   size_t st = 0; do st = r.below(all.size()); while(impossible(sum, val[st])); const bool cyclic = r.chance(0.3), temp = r.chance(0.3); const double tt = temp ? (1 + r.below(8)) / 8.0 : 1; P p(c.thorough ? 60000 : 12000, 0, temp, (T)tt, (T)tt, 10, cyclic ? P::CYCLIC : P::RANDOM, all[st]); c.desc << (cyclic ? " cyclic" : " random") << " temperature " << tt << " start" << vf::show(all[st]); c.digest(st);
   srand((unsigned)r.below(1000000)); S s(gm, p); Light v; s.infer(v); std::vector<std::vector<double> > cnt(all.size(), std::vector<double>(all.size(), 0)); std::vector<double> from(all.size(), 0); size_t prev = st; for(size_t k = 0; k < v.st.size(); ++k) { const size_t x = id[v.st[k]]; cnt[prev][x] += 1; from[prev] += 1; prev = x; c.count("steps"); }
   // does every variable move?
   double norm = 0; size_t movable = 0; for(size_t i = 0; i < n; ++i) { norm += 1.0 - 1.0 / m.labels[i]; movable += m.labels[i] > 1; } if(movable == 0) { VF_EXPECT(v.st.empty(), "steps", "nothing can move"); return; }
   for(size_t x = 0; x < all.size(); ++x) if(from[x] > 0) for(size_t y = 0; y < all.size(); ++y) if(x != y) { size_t diff = 0, at = 0; for(size_t i = 0; i < n; ++i) if(all[x][i] != all[y][i]) { ++diff; at = i; } 
      const bool up = better(sum, val[y], val[x]); const double ratio = impossible(sum, val[y]) ? 0 : sum ? std::exp(val[x] - val[y]) : val[y] / val[x]; const double accept = up ? 1 : std::min(1.0, ratio) * tt;
      if(diff != 1) { VF_CHECK(cnt[x][y] == 0, "two-variables", "from " << vf::show(all[x])); continue; }
      const double q = cyclic ? -1 : accept / (m.labels[at] * norm); // chance of this move when a different label is proposed
      if(!cyclic) { const double e = from[x] * q; VF_CHECK(std::fabs(cnt[x][y] - e) <= 7 * std::sqrt(e * (1 - q) + 1) + 6, "transition", "from " << vf::show(all[x]) << " to " << vf::show(all[y]) << " " << cnt[x][y] << " times, expected " << e << " of " << from[x]); }
      else { // the proposed variable depends on the history, the accepted fraction per variable does not exceed its share
         const double share = accept, e = from[x] * share / std::max<size_t>(1, m.labels[at] - 1); VF_CHECK(cnt[x][y] <= e + 7 * std::sqrt(e + 1) + 6, "transition-cyclic", "from " << vf::show(all[x]) << " to " << vf::show(all[y]) << " " << cnt[x][y] << " times, at most " << e << " of " << from[x]); }
      c.count("transitions"); }
   if(!temp) { // the states that connect to the start are sampled according to the model
      std::vector<bool> reach(all.size(), false); std::vector<size_t> stack(1, st); reach[st] = true; double minP = 1; while(!stack.empty()) { const size_t x = stack.back(); stack.pop_back(); for(size_t y = 0; y < all.size(); ++y) if(!reach[y] && !impossible(sum, val[y])) { size_t diff = 0; for(size_t i = 0; i < n; ++i) diff += all[x][i] != all[y][i]; if(diff == 1) { reach[y] = true; stack.push_back(y); minP = std::min(minP, sum ? std::exp(-std::fabs(val[x] - val[y])) : std::min(val[x], val[y]) / std::max(val[x], val[y])); } } }
      if(minP > 0.1) { double z = 0, ref = sum ? val[st] : 1; for(size_t x = 0; x < all.size(); ++x) if(reach[x]) z += sum ? std::exp(ref - val[x]) : val[x]; std::vector<double> occ(all.size(), 0); for(size_t k = 0; k < v.st.size(); ++k) occ[id[v.st[k]]] += 1.0 / v.st.size(); for(size_t x = 0; x < all.size(); ++x) { const double want = reach[x] ? (sum ? std::exp(ref - val[x]) : val[x]) / z : 0; VF_CHECK(std::fabs(occ[x] - want) < 0.12, "distribution", "state " << vf::show(all[x]) << " visited " << occ[x] << " of the time, its probability is " << want); c.count("occupancies"); } } }
}
// marginals
template<class S> struct Both { opengm::GibbsMarginalVisitor<S>* mv; Light* l; void begin(const S& s) { mv->begin(s); l->begin(s); } void end(const S& s) { mv->end(s); l->end(s); } size_t operator()(const S& s) { (*mv)(s); return (*l)(s); } };
template<class T, class OP, class ACC, class I, class L> void marginals(Ctx& c) {
   typedef typename Gm<T, OP, I, L>::Plain GM; typedef opengm::Gibbs<GM, ACC> S; typedef typename S::Parameter P; typedef opengm::GibbsMarginalVisitor<S> MV; const bool sum = Kind<OP>::sum; Rng& r = c.rng; const RefModel m = model(r, sum, 4, 4, 0.2, 0.3); const size_t n = m.labels.size(); c.desc << m.str(); m.digest(c); const GM gm = buildExplicit<GM>(m);
   const size_t steps = 50 + r.below(300), burn = r.chance(0.4) ? 0 : 1 + r.below(80); P p(steps, burn, r.chance(0.2), (T)0.25, (T)1, 10, r.chance(0.3) ? P::CYCLIC : P::RANDOM); S s(gm, p); MV mv; if(r.chance(0.5)) mv = MV(gm); else mv.assign(gm); std::vector<St> vars; const size_t k = 1 + r.below(5);
   for(size_t i = 0; i < k; ++i) { St v = randScope(r, n, 1 + r.below(n)); size_t at; if(v.size() == 1 && r.chance(0.5)) at = mv.addMarginal(v[0]); else at = mv.addMarginal(v.begin(), v.end()); VF_CHECK(at == i, "marginal-index", at << " should be " << i); vars.push_back(v); } VF_CHECK(mv.numberOfMarginals() == k, "marginal-count", mv.numberOfMarginals()); c.desc << " steps " << steps << " burn " << burn; c.digest(steps);
   const unsigned seed = (unsigned)r.below(1000000); srand(seed); Light l; Both<S> both; both.mv = &mv; both.l = &l; s.infer(both); const size_t samples = mv.numberOfSamples(); VF_CHECK(samples <= l.st.size() && l.st.size() - samples <= burn && samples <= steps, "sample-count", samples << " of " << l.st.size() << " visited, burn in " << burn << " sampling " << steps); if(burn == 0) VF_CHECK(samples == l.st.size(), "sample-count", samples << " of " << l.st.size());
   size_t acc = 0; const size_t first = l.st.size() - samples; for(size_t i = first; i < l.st.size(); ++i) acc += l.st[i] != (i ? l.st[i - 1] : l.start); VF_EXPECT(mv.numberOfAcceptedSamples() == acc && mv.numberOfRejectedSamples() == samples - acc, "accepted", mv.numberOfAcceptedSamples() << " accepted, " << mv.numberOfRejectedSamples() << " rejected; " << acc << " moves in " << samples);
   for(size_t i = 0; i < k; ++i) { const typename MV::IndependentFactorType& f = mv.marginal(i); VF_CHECK(f.numberOfVariables() == vars[i].size(), "marginal-scope", f.numberOfVariables()); St sh; for(size_t j = 0; j < vars[i].size(); ++j) { VF_CHECK((size_t)f.variableIndex(j) == vars[i][j], "marginal-scope", "variable " << j); sh.push_back(m.labels[vars[i][j]]); } std::map<St, double> h; for(size_t q = first; q < l.st.size(); ++q) { St x; for(size_t j = 0; j < vars[i].size(); ++j) x.push_back(l.st[q][vars[i][j]]); h[x] += 1; }
      St t(sh.size(), 0); double tot = 0; do { VF_CHECK((double)f(t.begin()) == h[t], "marginal", "marginal " << i << " state " << vf::show(t) << " counted " << (double)f(t.begin()) << ", seen " << h[t]); tot += h[t]; c.count("counts compared"); } while(nextTuple(t, sh)); VF_CHECK(tot == (double)samples, "marginal", "total"); }
   { S u(gm, p); MV w(gm); for(size_t i = 0; i < k; ++i) w.addMarginal(vars[i].begin(), vars[i].end()); srand(seed); u.infer(w); VF_EXPECT(w.numberOfSamples() == samples && w.numberOfAcceptedSamples() == acc, "visitor-direct", w.numberOfSamples() << " samples"); }
   { // the visitor fed by hand
      MV w(gm); w.addMarginal(r.below(n)); const size_t x = (size_t)w.marginal(0).variableIndex(0), now = (size_t)s.markovState(x); w(s, s.markovValue(), s.currentBestValue(), 0, true, true); VF_CHECK(w.numberOfSamples() == 0 && (double)w.marginal(0)(&now) == 0, "burn-in-counted", ""); w(s, s.markovValue(), s.currentBestValue(), 1, false, false); w(s, s.markovValue(), s.currentBestValue(), 1, true, false); VF_CHECK(w.numberOfSamples() == 2 && w.numberOfAcceptedSamples() == 1 && w.numberOfRejectedSamples() == 1 && (double)w.marginal(0)(&now) == 2, "by-hand", ""); }
}
}
