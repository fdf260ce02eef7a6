#include <memory>
#include "solvers.hpp"
#include "propagation.hpp"
#include <opengm/inference/icm.hxx>
#include <opengm/inference/lazyflipper.hxx>
#include <opengm/inference/infandflip.hxx>
#include <opengm/inference/greedygremlin.hxx>
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
// local search against exhaustive neighbourhood inspection
namespace c28 {
using namespace sv;
struct Case { MixedModel k; std::vector<size_t> start; bool given; };
template<class GM> bool maxi(const opengm::Maximizer*) { return true; }
inline bool better(bool mx, double a, double b) { return mx ? a > b : a < b; }
// values are exact in the arithmetic of the model, infinite for sums and zero for products at times
template<class GM, class ACC> RefModel draw(Ctx& c, double large = 0) {
   typedef typename GM::ValueType T; Rng& r = c.rng; const Op op = prop::OpOf<typename GM::OperatorType>::v; const bool mx = std::is_same<ACC, opengm::Maximizer>::value; RefModel m;
   const Style s = std::is_integral<T>::value ? (op == PROD ? TIES : r.chance(0.3) ? TIES : SMALLINT) : op == PROD ? POW2 : sumStyle(r);
   switch(large > 0 && r.chance(large) ? 5 : r.below(5)) {
   case 5: m = randPairwise(r, 12, 24, 1, 3, 0.25 * r.unit(), 0.8, s, ~size_t(0)); break;
   case 0: m = randModel(r, 1, 7, 1, 3, 3, 0, 10, s, 0.1, 800); break;
   case 1: m = randPairwise(r, 1, 8, 1, 3, 0.4, 0.7, s, 800); break;
   case 2: m = randPairwise(r, 2, 9, 2, 2, 0.35, 0.7, s, 600); break;
   case 3: m = gridModel(r, 2, 2 + r.below(3), 2, 2, s, 0.8); break;
   default: m = randTreeModel(r, 1, 7, 1, 4, s, 0.2, 0.7, 0.15, 800); }
   if(!std::is_integral<T>::value && r.chance(0.3)) { c.count("models with infinite or zero entries"); const double p = r.chance(0.5) ? 0.1 : 0.4; for(size_t f = 0; f < m.f.size(); ++f) for(size_t i = 0; i < m.f[f].tab.size(); ++i) if(r.chance(p)) m.f[f].tab[i] = op == PROD ? 0.0 : mx ? -std::numeric_limits<double>::infinity() : std::numeric_limits<double>::infinity(); }
   return m;
}
inline std::vector<size_t> randLabeling(Rng& r, const RefModel& m) { std::vector<size_t> l; for(size_t i = 0; i < m.labels.size(); ++i) l.push_back(r.below(m.labels[i])); return l; }
inline std::vector<std::set<size_t> > neighbours(const RefModel& m) { std::vector<std::set<size_t> > a(m.labels.size()); for(size_t f = 0; f < m.f.size(); ++f) for(size_t i = 0; i < m.f[f].vars.size(); ++i) for(size_t j = 0; j < m.f[f].vars.size(); ++j) if(i != j) a[m.f[f].vars[i]].insert(m.f[f].vars[j]); return a; }
inline std::set<std::vector<size_t> > connected(const RefModel& m, size_t k) { // all connected sets of at most k variables
   const std::vector<std::set<size_t> > a = neighbours(m); std::set<std::vector<size_t> > all, level; for(size_t i = 0; i < m.labels.size(); ++i) level.insert(std::vector<size_t>(1, i));
   for(size_t s = 1; s <= k && !level.empty(); ++s) { all.insert(level.begin(), level.end()); std::set<std::vector<size_t> > next; for(std::set<std::vector<size_t> >::const_iterator it = level.begin(); it != level.end(); ++it) for(size_t i = 0; i < it->size(); ++i) for(std::set<size_t>::const_iterator n = a[(*it)[i]].begin(); n != a[(*it)[i]].end(); ++n) { std::vector<size_t> q = *it; if(std::find(q.begin(), q.end(), *n) != q.end()) continue; q.push_back(*n); std::sort(q.begin(), q.end()); next.insert(q); } level = next; }
   return all;
}
// best value over relabelings of the set
inline double bestChange(const RefModel& m, Op op, bool mx, const std::vector<size_t>& l, const std::vector<size_t>& vars, bool allChange, bool* any = 0, std::vector<size_t>* arg = 0) {
   std::vector<size_t> sh, t(vars.size(), 0), x = l; for(size_t i = 0; i < vars.size(); ++i) sh.push_back(m.labels[vars[i]]); double b = mx ? -std::numeric_limits<double>::infinity() : std::numeric_limits<double>::infinity(); bool first = true;
   do { bool ok = true; for(size_t i = 0; i < vars.size(); ++i) { x[vars[i]] = t[i]; if(allChange && t[i] == l[vars[i]]) ok = false; } if(!ok) continue; const double v = m.eval(x, op); if(first || better(mx, v, b)) { b = v; if(arg) *arg = x; } first = false; } while(nextTuple(t, sh));
   if(any) *any = !first; return b;
}
inline void localOptimum(Ctx& c, const RefModel& m, Op op, bool mx, const std::vector<size_t>& l, size_t k, const std::string& tag) {
   const std::set<std::vector<size_t> > s = connected(m, k); const double v = m.eval(l, op);
   for(std::set<std::vector<size_t> >::const_iterator it = s.begin(); it != s.end(); ++it) { bool any; const double b = bestChange(m, op, mx, l, *it, true, &any); VF_CHECK(!any || !better(mx, b, v), tag + "/local-optimum", "changing " << show(*it) << " of " << show(l) << " improves " << v << " to " << b); c.count("neighbourhoods inspected"); }
}
inline void monotone(Ctx& c, const Rec& rec, const RefModel& m, Op op, bool mx, double start, const std::string& tag) {
   double last = start;
   for(size_t i = 0; i < rec.args.size(); ++i) { if(!rec.argOk[i]) continue; const double v = m.eval(rec.args[i], op); VF_CHECK(close(v, rec.values[i], 1e-9, 1e-9), tag + "/seen-value", "visitor saw " << rec.values[i] << " labeling has " << v); VF_CHECK(!better(mx, last, v), tag + "/monotone", "from " << last << " to " << v); last = v; c.count("steps observed"); }
   VF_CHECK(rec.begins == 1 && rec.ends == 1 && !rec.afterStop, tag + "/visitor", rec.begins << " " << rec.ends << " " << rec.afterStop);
}
template<class GM, class ACC, class INF, class SET> void search(Ctx& c, const GM& gm, const RefModel& m, INF& inf, const std::vector<size_t>& start, size_t k, const std::string& tag, bool declaresStart, SET resetKeepsStart) {
   Rng& r = c.rng; const Op op = prop::OpOf<typename GM::OperatorType>::v; const bool mx = std::is_same<ACC, opengm::Maximizer>::value; const double v0 = m.eval(start, op), opt = m.configs() > 100000 ? (mx ? 1 : -1) * (std::is_integral<typename GM::ValueType>::value ? 2.1e9 : 1e300) : m.best(mx, op); // too many labelings: no optimum to compare with
   if(declaresStart) { const Answer a = answer(inf); VF_CHECK(a.ok && a.arg == start && close(a.value, v0, 1e-9, 1e-9), tag + "/before", showA(a) << " start " << show(start) << " " << v0); }
   Answer a;
   if(r.chance(0.3)) { Rec rec(1 + r.below(4)); inf.infer(rec); a = answer(inf); judge(c, a, m, op, mx, opt, tag + "/early"); monotone(c, rec, m, op, mx, v0, tag + "/early"); VF_CHECK(!better(mx, v0, a.value), tag + "/early/worse", showA(a) << " start " << v0); c.count(rec.stopped ? "stopped early" : "finished before the stop"); if(!rec.stopped) localOptimum(c, m, op, mx, a.arg, k, tag + "/early"); }
   const double v1 = a.ok ? m.eval(a.arg, op) : v0; 
   { Rec rec; if(r.chance(0.3)) { inf.infer(); } else { VF_CHECK(inf.infer(rec) == opengm::NORMAL, tag + "/status", ""); monotone(c, rec, m, op, mx, resetKeepsStart ? v1 : v0, tag); } }
   a = answer(inf); judge(c, a, m, op, mx, opt, tag); VF_CHECK(!better(mx, v0, a.value), tag + "/worse", showA(a) << " start " << v0); localOptimum(c, m, op, mx, a.arg, k, tag); c.count(better(mx, a.value, v0) ? "improved" : "start was optimal"); 
   bool finite = true; for(size_t f = 0; f < m.f.size(); ++f) for(size_t i = 0; i < m.f[f].tab.size(); ++i) finite = finite && !std::isinf(m.f[f].tab[i]) && (op == SUM || m.f[f].tab[i] != 0);
   if(finite && k >= m.labels.size() && m.labels.size() > 1) { bool conn = true; const std::set<std::vector<size_t> > s = connected(m, m.labels.size()); conn = !s.empty() && s.rbegin()->size() > 0; bool whole = false; for(std::set<std::vector<size_t> >::const_iterator it = s.begin(); it != s.end(); ++it) whole = whole || it->size() == m.labels.size(); if(whole && conn) { c.count("whole model searched"); VF_CHECK(close(a.value, opt, 1e-9, 1e-9), tag + "/global", showA(a) << " optimum " << opt); } }
   inf.infer(); const Answer b = answer(inf); VF_CHECK(b.ok && close(b.value, a.value, 1e-9, 1e-9), tag + "/again", showA(b) << " before " << showA(a)); VF_EXPECT(sameModel(gm, m), tag + "/model-changed", "");
}
template<class GM, class ACC> void icm(Ctx& c) {
   Rng& r = c.rng; MixedModel k = prop::asMixedExact(r, draw<GM, ACC>(c, 0.08)); const RefModel& m = k.ref; m.digest(c); typedef opengm::ICM<GM, ACC> Inf; typedef typename GM::LabelType L; const bool fac = r.chance(0.5); std::vector<size_t> s = randLabeling(r, m); const size_t how = r.below(3); if(how == 0) s.assign(s.size(), 0); c.digestV(s); c.digest(fac); c.desc << (fac ? "factor moves " : "") << "start" << show(s) << k.str(); GM gm = buildMixed<GM>(r, k); const std::vector<L> sl(s.begin(), s.end());
   typename Inf::Parameter p(fac ? Inf::FACTOR : Inf::SINGLE_VARIABLE); if(how == 1) p.startPoint_ = sl; Inf inf(gm, p); if(how == 2) inf.setStartingPoint(sl.begin());
   search<GM, ACC>(c, gm, m, inf, s, 1, "icm", true, true);
   if(fac) { const Op op = prop::OpOf<typename GM::OperatorType>::v; const bool mx = std::is_same<ACC, opengm::Maximizer>::value; const std::vector<size_t> l = answer(inf).arg; const double v = m.eval(l, op); for(size_t f = 0; f < m.f.size(); ++f) { const double b = bestChange(m, op, mx, l, m.f[f].vars, false); VF_CHECK(!better(mx, b, v), "icm/factor-optimum", "changing " << show(m.f[f].vars) << " of " << show(l) << " improves " << v << " to " << b); } }
   if(how != 2) { inf.reset(); const Answer z = answer(inf); VF_CHECK(z.ok && z.arg == s && close(z.value, m.eval(s, prop::OpOf<typename GM::OperatorType>::v), 1e-9, 1e-9), "icm/reset", showA(z) << " start " << show(s)); inf.infer(); Inf fresh(gm, p); fresh.infer(); VF_CHECK(sameAnswer(answer(inf), answer(fresh)), "icm/reset-result", showA(answer(inf)) << " fresh " << showA(answer(fresh))); }
   if(r.chance(0.2)) { typename opengm::ICM<GM, opengm::Maximizer>::Parameter q(p); VF_EXPECT(q.startPoint_ == p.startPoint_ && (int)q.moveType_ == (int)p.moveType_, "icm/parameter", ""); if(s.size()) { typename Inf::Parameter bad; bad.startPoint_.assign(s.size() + 1, 0); VF_MUST_THROW(Inf x(gm, bad), "icm/wrong-start", ""); } }
}
template<class GM, class ACC> void lazy(Ctx& c) {
   Rng& r = c.rng; MixedModel k = prop::asMixedExact(r, draw<GM, ACC>(c)); const RefModel& m = k.ref; m.digest(c); typedef opengm::LazyFlipper<GM, ACC> Inf; typedef typename GM::LabelType L; std::vector<size_t> s = randLabeling(r, m); const size_t how = r.below(3), size = 1 + r.below(4); if(how == 0) s.assign(s.size(), 0); bool bin = true; for(size_t i = 0; i < s.size(); ++i) bin = bin && m.labels[i] == 2; const size_t multi = r.below(bin ? 3 : 2); c.digestV(s); c.digest(size); c.digest(multi); c.desc << "size " << size << " multi " << multi << " start" << show(s) << k.str(); GM gm = buildMixed<GM>(r, k); const std::vector<L> sl(s.begin(), s.end()); c.count(bin ? "binary models" : "multilabel models");
   const opengm::Tribool t(multi == 0 ? opengm::Tribool::Maybe : multi == 1 ? opengm::Tribool::True : opengm::Tribool::False); typename Inf::Parameter p(size, t); if(how == 1) p = typename Inf::Parameter(size, sl.begin(), sl.end(), t); Inf inf(gm, p); VF_EXPECT(inf.maxSubgraphSize() == size, "lazy/size", ""); if(how == 2) inf.setStartingPoint(sl.begin());
   search<GM, ACC>(c, gm, m, inf, s, size, "lazy", true, true);
   if(how != 2) { inf.reset(); const Answer z = answer(inf); VF_CHECK(z.ok && z.arg == s, "lazy/reset", showA(z) << " start " << show(s)); inf.infer(); Inf fresh(gm, p); fresh.infer(); VF_CHECK(sameAnswer(answer(inf), answer(fresh)), "lazy/reset-result", showA(answer(inf)) << " fresh " << showA(answer(fresh))); }
   if(r.chance(0.3)) { const size_t more = 1 + r.below(5); inf.setMaxSubgraphSize(more); inf.infer(); localOptimum(c, m, prop::OpOf<typename GM::OperatorType>::v, std::is_same<ACC, opengm::Maximizer>::value, answer(inf).arg, more, "lazy/resized"); VF_MUST_THROW(inf.setMaxSubgraphSize(0), "lazy/zero", ""); }
}
template<class INF> struct SubParameter { template<class P> static void set(P&, Rng&) {} };
template<class GM, class ACC, class INNER> void flip(Ctx& c, const std::string& tag) {
   Rng& r = c.rng; RefModel d = draw<GM, ACC>(c); if(tag == "bp") for(size_t f = 0; f < d.f.size(); ++f) for(size_t i = 0; i < d.f[f].tab.size(); ++i) if(std::isinf(d.f[f].tab[i]) || d.f[f].tab[i] == 0) d.f[f].tab[i] = 1; MixedModel k = prop::asMixedExact(r, d); const RefModel& m = k.ref; m.digest(c); typedef opengm::InfAndFlip<GM, ACC, INNER> Inf; typedef typename GM::LabelType L; std::vector<size_t> s = randLabeling(r, m); const bool given = r.chance(0.5); if(!given) s.assign(s.size(), 0); const size_t size = r.below(4); c.digestV(s); c.digest(size); c.desc << tag << " size " << size << (given ? " start" : " nostart") << show(s) << k.str(); GM gm = buildMixed<GM>(r, k); const std::vector<L> sl(s.begin(), s.end()); const Op op = prop::OpOf<typename GM::OperatorType>::v; const bool mx = std::is_same<ACC, opengm::Maximizer>::value;
   typename Inf::Parameter p(size); p.warmStartableInf_ = r.chance(0.5) && given; Inf inf(gm, p); if(given) inf.setStartingPoint(sl.begin());
   const Answer z = answer(inf); VF_CHECK(z.ok && z.arg == s && close(z.value, m.eval(s, op), 1e-9, 1e-9), tag + "/before", showA(z));
   const bool early = r.chance(0.3); Rec rec(early ? 1 : size_t(-1)); inf.infer(rec); const Answer a = answer(inf); judge(c, a, m, op, mx, m.best(mx, op), tag); VF_CHECK(rec.begins == 1 && rec.ends == 1 && !rec.afterStop, tag + "/visitor", "");
   if(given) VF_CHECK(!better(mx, m.eval(s, op), a.value), tag + "/worse-than-start", showA(a) << " start " << m.eval(s, op));
   if(!p.warmStartableInf_) { INNER in(gm, p.subPara_); in.infer(); std::vector<L> x; in.arg(x); VF_CHECK(!better(mx, m.eval(toSize(x), op), a.value), tag + "/worse-than-inference", showA(a) << " inner " << show(toSize(x))); }
   if(!rec.stopped && size) localOptimum(c, m, op, mx, a.arg, size, tag);
   Rec rec2; inf.infer(rec2); const Answer b = answer(inf); judge(c, b, m, op, mx, m.best(mx, op), tag + "/again"); if(!rec.stopped) VF_CHECK(sameAnswer(a, b), tag + "/again", showA(a) << " then " << showA(b)); inf.reset(); inf.infer(); VF_CHECK(sameAnswer(answer(inf), b), tag + "/reset", showA(answer(inf)) << " before " << showA(b));
}
template<class GM, class ACC> void moves(Ctx& c) { // the move bookkeeping all local searches share
   Rng& r = c.rng; MixedModel k = prop::asMixedExact(r, draw<GM, ACC>(c)); const RefModel& m = k.ref; m.digest(c); c.desc << k.str(); GM gm = buildMixed<GM>(r, k); typedef typename GM::LabelType L; typedef opengm::Movemaker<GM> Mv; const Op op = prop::OpOf<typename GM::OperatorType>::v; const bool mx = std::is_same<ACC, opengm::Maximizer>::value; std::vector<size_t> cur = randLabeling(r, m); if(r.chance(0.3)) cur.assign(cur.size(), 0); std::vector<L> cl(cur.begin(), cur.end());
   std::unique_ptr<Mv> mv; const size_t n = m.labels.size(); bool zero = true; for(size_t i = 0; i < n; ++i) zero = zero && cur[i] == 0; if(zero) mv.reset(new Mv(gm)); else if(r.chance(0.5)) mv.reset(new Mv(gm, cl.begin())); else { mv.reset(new Mv(gm)); mv->initialize(cl.begin()); }
   const size_t steps = 3 + r.below(15); std::ostringstream log;
   for(size_t t = 0; t < steps; ++t) {
      std::vector<size_t> vars = randScope(r, n, r.below(std::min(n, size_t(3)) + 1)); if(r.chance(0.4)) r.shuffle(vars); const size_t what = r.below(7); log << " " << what << show(vars); c.digest(what); c.digestV(vars);
      if(what == 0 || what == 1) { std::vector<L> to; std::vector<size_t> next = cur; for(size_t i = 0; i < vars.size(); ++i) { next[vars[i]] = r.below(m.labels[vars[i]]); to.push_back(next[vars[i]]); }
         const double want = m.eval(next, op); const double got = (double)mv->valueAfterMove(vars.begin(), vars.end(), to.begin()); VF_CHECK(close(got, want, 1e-9, 1e-9), "moves/value-after", got << " expected " << want << log.str()); 
         if(what == 1) { const double g = (double)mv->move(vars.begin(), vars.end(), to.begin()); VF_CHECK(close(g, want, 1e-9, 1e-9), "moves/move", g << " expected " << want << log.str()); cur = next; } }
      else if(what <= 4) { std::vector<size_t> old = cur, arg = cur; const double before = m.eval(cur, op); const bool all = what >= 3; bool any; double b = bestChange(m, op, mx, cur, vars, all, &any, &arg); const bool hidden = std::isinf(before) || before == 0; const bool moved = any && better(mx, b, before) && !vars.empty(); if(moved) c.count("improving moves");
         const double g = all ? (double)mv->template moveOptimallyWithAllLabelsChanging<ACC>(vars.begin(), vars.end()) : (double)mv->template moveOptimally<ACC>(vars.begin(), vars.end()); VF_CHECK(close(g, moved ? b : before, 1e-9, 1e-9), all ? "moves/all-changing" : "moves/optimally", g << " expected " << (moved ? b : before) << log.str());
         std::vector<size_t> now(mv->stateBegin(), mv->stateEnd()); VF_CHECK(validLabeling(m, now), "moves/labels", show(now)); for(size_t i = 0; i < n; ++i) { const bool in = std::find(vars.begin(), vars.end(), i) != vars.end(); if(!in || (!moved && !hidden)) VF_CHECK(now[i] == old[i], "moves/others-changed", show(old) << " to " << show(now) << log.str()); else if(all && moved) VF_CHECK(now[i] != old[i], "moves/unchanged", show(old) << " to " << show(now) << log.str()); } cur = now; }
      else if(what == 5 && vars.size()) { std::sort(vars.begin(), vars.end()); typedef opengm::Bruteforce<typename Mv::SubGmType, ACC> B; std::vector<L> st(vars.size()); mv->template proposeMoveAccordingToInference<B, typename B::Parameter, std::vector<size_t>::iterator, typename std::vector<L>::iterator>(typename B::Parameter(), vars.begin(), vars.end(), st); std::vector<size_t> x = cur; for(size_t i = 0; i < vars.size(); ++i) x[vars[i]] = st[i]; VF_CHECK(validLabeling(m, x), "moves/proposal-labels", show(x)); const double b = bestChange(m, op, mx, cur, vars, false); VF_CHECK(close(m.eval(x, op), b, 1e-9, 1e-9), "moves/proposal", m.eval(x, op) << " best " << b << log.str()); c.count("proposals"); }
      else if(what == 6 && r.chance(0.2)) { mv->reset(); cur.assign(n, 0); }
      const double v = m.eval(cur, op); VF_CHECK(close((double)mv->value(), v, 1e-9, 1e-9), "moves/value", (double)mv->value() << " expected " << v << log.str()); const std::vector<size_t> st(mv->stateBegin(), mv->stateEnd()); VF_CHECK(st == cur, "moves/state", show(st) << " expected " << show(cur) << log.str()); for(size_t i = 0; i < n; ++i) VF_CHECK(mv->state(i) == cur[i], "moves/state-of", i); c.count("moves");
   }
}
}
