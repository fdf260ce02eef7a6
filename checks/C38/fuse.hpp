#include "../../harness/solvers.hpp"
#include <cstdlib>
#define NOVIGRA
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/astar.hxx>
#include <opengm/inference/icm.hxx>
#include <opengm/inference/lazyflipper.hxx>
#include <opengm/inference/fusion_based_inf.hxx>
using namespace vf; using namespace sv;
namespace fz {
typedef std::vector<size_t> St;
template<class OP> struct Kind { static const bool sum = opengm::meta::Compare<OP, opengm::Adder>::value; static Op op() { return sum ? SUM : PROD; } };
template<class ACC> struct Mx { static const bool v = std::is_same<ACC, opengm::Maximizer>::value; };
inline bool worse(bool mx, double a, double b) { const double t = 1e-9 * (1 + std::fabs(b)); return mx ? a < b - t : a > b + t; }
inline MixedModel model(Ctx& c, Op op, size_t minV, size_t maxV, size_t maxL, size_t maxOrder) {
   Rng& r = c.rng; const Style st = op == SUM ? (r.chance(0.4) ? TIES : r.chance(0.5) ? SMALLINT : DYADIC) : r.chance(0.5) ? POW2 : POSDYADIC;
   MixedModel m = randMixed(r, minV, maxV, 1, maxL, maxOrder, op == SUM ? 12 : 8, st, 0.08, r.chance(0.3), 3000, &fewKinds()); m.ref.digest(c); c.desc << opName(op) << " " << m.str(); return m;
}
inline St randLab(Rng& r, const RefModel& m) { St s; for(size_t i = 0; i < m.labels.size(); ++i) s.push_back(r.below(m.labels[i])); return s; }
// value of the best combination of two labelings
inline double bestMix(const RefModel& m, Op op, bool mx, const St& a, const St& b, size_t& combos) {
   St pos; for(size_t i = 0; i < a.size(); ++i) if(a[i] != b[i]) pos.push_back(i);
   double best = m.eval(a, op); combos = size_t(1) << pos.size();
   for(size_t w = 1; w < combos; ++w) { St s = a; for(size_t k = 0; k < pos.size(); ++k) if(w >> k & 1) s[pos[k]] = b[pos[k]]; const double v = m.eval(s, op); if(mx ? v > best : v < best) best = v; }
   return best;
}
// binary solvers that give no answer or an arbitrary one
template<class GM, class ACC> struct Useless : opengm::Inference<GM, ACC> {
   typedef GM GraphicalModelType; typedef typename GM::LabelType LabelType; typedef typename GM::ValueType ValueType; typedef ACC AccumulationType;
   struct Parameter { bool decline; unsigned seed; std::vector<size_t>* start; Parameter() : decline(true), seed(0), start(0) {} };
   const GM& gm; Parameter p; Useless(const GM& g, const Parameter& q) : gm(g), p(q) {}
   std::string name() const { return "Useless"; } const GM& graphicalModel() const { return gm; }
   opengm::InferenceTermination infer() { return p.decline ? opengm::UNKNOWN : opengm::NORMAL; }
   void setStartingPoint(typename std::vector<LabelType>::const_iterator b) { if(p.start) { p.start->clear(); for(size_t i = 0; i < gm.numberOfVariables(); ++i) p.start->push_back(b[i]); } }
   opengm::InferenceTermination arg(std::vector<LabelType>& x, const size_t = 1) const { x.resize(gm.numberOfVariables()); for(size_t i = 0; i < x.size(); ++i) x[i] = (p.seed >> (i % 13)) & 1; return opengm::NORMAL; }
};
template<class GM, class ACC> void judgeFused(Ctx& c, const RefModel& m, const St& a, const St& b, const std::vector<typename GM::LabelType>& resL, double val, bool exact, const char* tag) {
   const Op op = Kind<typename GM::OperatorType>::op(); const bool mx = Mx<ACC>::v; const St res(resL.begin(), resL.end()); const std::string t = tag;
   VF_CHECK(res.size() == a.size(), t + "/size", vf::show(res));
   for(size_t i = 0; i < a.size(); ++i) VF_CHECK(res[i] == a[i] || res[i] == b[i], t + "/foreign-label", "variable " << i << " of" << vf::show(res) << " from" << vf::show(a) << vf::show(b));
   const double v = m.eval(res, op), va = m.eval(a, op), vb = m.eval(b, op);
   VF_CHECK(sameNum(val, v), t + "/value", "reported " << val << " fused labeling has " << v << vf::show(res) << " from" << vf::show(a) << vf::show(b));
   VF_CHECK(!worse(mx, v, va) && !worse(mx, v, vb), t + "/worse", "fused " << v << " inputs " << va << " and " << vb);
   size_t combos; const double opt = bestMix(m, op, mx, a, b, combos); c.count("combinations", combos); if(sameNum(v, opt)) c.count("best combination found");
   if(exact) VF_CHECK(sameNum(v, opt), t + "/not-best", "fused " << v << " best combination " << opt << vf::show(a) << vf::show(b));
   c.count("fusions");
}
template<class FM, bool SUMS> struct Star { template<class ACC> static double run(FM& fm) { typedef opengm::AStar<typename FM::SubGmType, ACC> A; return (double)fm.template fuse<A>(typename A::Parameter(), false); } };
template<class FM> struct Star<FM, false> { template<class ACC> static double run(FM& fm) { typedef opengm::Bruteforce<typename FM::SubGmType, ACC> A; return (double)fm.template fuse<A>(typename A::Parameter(), false); } };
// the fusion mover itself, several fusions with one mover
template<class GM, class ACC> void fuse(Ctx& c) {
   typedef typename GM::ValueType T; typedef typename GM::LabelType L; typedef opengm::FusionMover<GM, ACC> FM; typedef typename FM::SubGmType S; Rng& r = c.rng; const bool sum = Kind<typename GM::OperatorType>::sum; const Op op = Kind<typename GM::OperatorType>::op(); const bool mx = Mx<ACC>::v;
   const MixedModel k = model(c, op, 1, 8, 4, 1 + r.below(4)); const RefModel& m = k.ref; GM gm = buildMixed<GM>(r, k); FM fm(gm); St a = randLab(r, m);
   for(size_t round = 0; round < 4; ++round) {
      St b = randLab(r, m); const double keep = r.unit(); if(r.chance(0.6)) for(size_t i = 0; i < b.size(); ++i) if(r.chance(keep)) b[i] = a[i];
      size_t diff = 0; for(size_t i = 0; i < a.size(); ++i) diff += a[i] != b[i]; c.digestV(a); c.digestV(b);
      const std::vector<L> la(a.begin(), a.end()), lb(b.begin(), b.end()); std::vector<L> res(la.size(), 0);
      const T va = gm.evaluate(la.begin()), vb = gm.evaluate(lb.begin()); fm.setup(la, lb, res, va, vb);
      VF_CHECK(fm.numberOfFusionMoveVariable() == diff, "mover/free-variables", fm.numberOfFusionMoveVariable() << " of " << diff << vf::show(a) << vf::show(b)); VF_EXPECT(fm.valueA() == va && fm.valueB() == vb, "mover/values", "");
      if(diff == 0) { VF_CHECK(res == la, "mover/nothing-to-fuse", vf::show(res)); typedef opengm::Bruteforce<S, ACC> B; VF_MUST_THROW(fm.template fuse<B>(typename B::Parameter(), false), "mover/nothing-to-fuse", "fused nothing"); c.count("identical inputs"); continue; }
      double val = 0; bool exact = true; const char* tag = ""; const size_t which = r.below(8);
      if(which == 0) { typedef opengm::Bruteforce<S, ACC> B; tag = "bruteforce"; val = (double)fm.template fuse<B>(typename B::Parameter(), r.chance(0.5)); }
      else if(which == 1) { tag = sum ? "astar" : "bruteforce"; val = Star<FM, Kind<typename GM::OperatorType>::sum>::template run<ACC>(fm); }
      else if(which == 2 || which == 3) { typedef opengm::LazyFlipper<S, ACC> F; tag = "flipper-full"; val = (double)fm.template fuse<F>(typename F::Parameter(diff), r.chance(0.6)); }
      else if(which == 4) { typedef opengm::LazyFlipper<S, ACC> F; tag = "flipper"; exact = false; val = (double)fm.template fuse<F>(typename F::Parameter(size_t(1)), r.chance(0.6)); }
      else if(which == 5) { typedef opengm::ICM<S, ACC> I; tag = "icm"; exact = false; val = (double)fm.template fuse<I>(typename I::Parameter(r.chance(0.5) ? I::SINGLE_VARIABLE : I::FACTOR), r.chance(0.6)); }
      else { typedef Useless<S, ACC> U; typename U::Parameter p; St start; p.start = &start; p.decline = r.chance(0.5); p.seed = (unsigned)r.below(1 << 13); tag = p.decline ? "declined" : "arbitrary"; exact = false; const bool warm = r.chance(0.5); val = (double)fm.template fuse<U>(p, warm);
         if(warm) { const bool bIs = !(mx ? (double)va > vb : (double)va < vb); bool good = start.size() == diff; for(size_t i = 0; i < start.size(); ++i) good = good && (va == vb || start[i] == (bIs ? 1 : 0)); VF_CHECK(good, "mover/warm-start", vf::show(start) << " values " << va << " " << vb); } else VF_CHECK(start.empty(), "mover/cold-start", ""); }
      judgeFused<GM, ACC>(c, m, a, b, res, val, exact, tag); VF_EXPECT(sameNum((double)fm.valueResult(), val), "mover/result-value", fm.valueResult() << " returned " << val);
      if(r.chance(0.5)) a.assign(res.begin(), res.end()); else a = randLab(r, m);
   }
   // the convenience front end, inputs may be the output of the previous fusion
   typedef opengm::HlFusionMover<GM, ACC> H; const size_t sub = 1 + r.below(m.labels.size()); H h(gm, typename H::Parameter(r.chance(0.5) ? H::DefaulFusion : H::LazyFlipperFusion, sub));
   for(size_t round = 0; round < 2; ++round) { const St b = r.chance(0.1) ? a : randLab(r, m); const std::vector<L> la(a.begin(), a.end()), lb(b.begin(), b.end()); std::vector<L> res(la.size(), 0); T v = gm.evaluate(la.begin()); const T vb = gm.evaluate(lb.begin()); const T in = v; size_t diff = 0; for(size_t i = 0; i < a.size(); ++i) diff += a[i] != b[i];
      const bool did = h.fuse(la, lb, res, v, vb, v); VF_CHECK(did == (diff > 0), "front/status", ""); VF_CHECK(did || (v == in && res == la), "front/nothing-to-fuse", v << " was " << in); judgeFused<GM, ACC>(c, m, a, b, res, (double)v, sub >= diff, "front"); a.assign(res.begin(), res.end()); }
   VF_EXPECT(sameModel(gm, m), "model-changed", "");
}
// iterated fusion
template<class G> struct Local { static const int kind = 0; };
template<class GM, class ACC> struct Local<opengm::proposal_gen::AlphaExpansionGen<GM, ACC> > { static const int kind = 1; };
template<class GM, class ACC> struct Local<opengm::proposal_gen::AlphaBetaSwapGen<GM, ACC> > { static const int kind = 2; };
inline RefModel gridLike(Rng& r, size_t h, size_t w, size_t L, Style s) {
   RefModel m; m.labels.assign(h * w, L); for(size_t i = 0; i < h * w; ++i) { addRandFactor(r, m, St(1, i), s); }
   for(size_t j = 0; j < w; ++j) for(size_t i = 0; i < h; ++i) { const size_t v = i + j * h; St p(2, v); if(i + 1 < h) { p[1] = v + 1; addRandFactor(r, m, p, s); } if(j + 1 < w) { p[1] = v + h; addRandFactor(r, m, p, s); } }
   return m;
}
template<class GM, class GEN> void run(Ctx& c, const RefModel& m, GM& gm, const typename GEN::Parameter& gp, const char* tag, bool deterministic = true) {
   typedef typename GEN::AccumulationType ACC; typedef typename GM::LabelType L; typedef opengm::FusionBasedInf<GM, GEN> S; typedef typename S::Parameter P; Rng& r = c.rng; const Op op = Kind<typename GM::OperatorType>::op(); const bool mx = Mx<ACC>::v; const size_t n = m.labels.size(); const std::string t = tag;
   const bool full = r.chance(0.5); const size_t sub = full ? std::max<size_t>(n, 1) : 1 + r.below(2); const size_t its = r.chance(0.2) ? r.below(4) : 300, noImp = Local<GEN>::kind == 2 ? 400 : r.chance(0.5) ? 0 : 1 + r.below(12); c.desc << " " << t << " subgraph " << sub << " iterations " << its << " stop " << noImp; c.digest(sub); c.digest(its); c.digest(noImp);
   P p(gp, typename S::FusionParameter(S::FusionMoverType::LazyFlipperFusion, sub), Local<GEN>::kind == 2 && its == 300 ? 3000 : its, noImp); S s(gm, p); double opt; { std::vector<double> all = m.allValues(op); opt = mx ? *std::max_element(all.begin(), all.end()) : *std::min_element(all.begin(), all.end()); }
   judge(c, answer(s), m, op, mx, opt, t + "/before"); const bool given = r.chance(0.5); St start; if(given) { start = randLab(r, m); const std::vector<L> sp(start.begin(), start.end()); s.setStartingPoint(sp.begin()); const Answer a = answer(s); VF_CHECK(a.arg == start && sameNum(a.value, m.eval(start, op)), t + "/start", showA(a)); }
   const double first = answer(s).value; const size_t stop = r.chance(0.2) ? 1 + r.below(3) : size_t(-1); Rec v(stop); VF_CHECK(s.infer(v) == opengm::NORMAL, t + "/status", ""); VF_CHECK(v.begins == 1 && v.ends == 1 && !v.afterStop, t + "/visitor", v.begins << " begins " << v.ends << " ends"); VF_CHECK(v.steps <= p.numIt_, t + "/too-many-steps", v.steps << " of " << p.numIt_);
   for(size_t i = 0; i < v.values.size(); ++i) { const double was = i ? v.values[i - 1] : first; VF_CHECK(!worse(mx, v.values[i], was), t + "/not-monotone", "step " << i << " from " << was << " to " << v.values[i]); VF_CHECK(validLabeling(m, v.args[i]) && sameNum(v.values[i], m.eval(v.args[i], op)), t + "/step-value", "step " << i << " value " << v.values[i] << vf::show(v.args[i])); }
   const Answer a = answer(s); judge(c, a, m, op, mx, opt, t); VF_CHECK(!worse(mx, a.value, first), t + "/worse-than-start", a.value << " started from " << first); c.count("steps", v.steps); if(sameNum(a.value, opt)) c.count("optimum reached");
   if(full && its == 300 && stop == size_t(-1) && Local<GEN>::kind == 1 && noImp == 0) { size_t maxL = 0; for(size_t i = 0; i < n; ++i) maxL = std::max(maxL, m.labels[i]); for(size_t al = 0; al < maxL; ++al) { St b = a.arg; for(size_t i = 0; i < n; ++i) if(al < m.labels[i]) b[i] = al; size_t k; const double x = bestMix(m, op, mx, a.arg, b, k); VF_CHECK(!worse(mx, a.value, x), t + "/expansion-left", "expanding " << al << " gives " << x << " from " << a.value << vf::show(a.arg)); } c.count("move optima checked"); }
   if(full && its == 300 && stop == size_t(-1) && Local<GEN>::kind == 2) { size_t maxL = 0; for(size_t i = 0; i < n; ++i) maxL = std::max(maxL, m.labels[i]); for(size_t al = 0; al < maxL; ++al) for(size_t be = 0; be < al; ++be) { St b = a.arg; for(size_t i = 0; i < n; ++i) if(b[i] == al && be < m.labels[i]) b[i] = be; else if(b[i] == be && al < m.labels[i]) b[i] = al; size_t k; const double x = bestMix(m, op, mx, a.arg, b, k); VF_CHECK(!worse(mx, a.value, x), t + "/swap-left", "swapping " << al << " and " << be << " gives " << x << " from " << a.value << vf::show(a.arg)); } c.count("move optima checked"); }
   if(deterministic && stop == size_t(-1)) { S u(gm, p); if(given) { const std::vector<L> sp(start.begin(), start.end()); u.setStartingPoint(sp.begin()); } u.infer(); VF_EXPECT(sameAnswer(answer(u), a), t + "/repeat", showA(a) << " again " << showA(answer(u))); }
   if(r.chance(0.4)) { const double was = a.value; s.infer(); const Answer z = answer(s); judge(c, z, m, op, mx, opt, t + "/again"); VF_CHECK(!worse(mx, z.value, was), t + "/again-worse", z.value << " was " << was); }
   VF_EXPECT(sameModel(gm, m), "model-changed", "");
}
template<class GM, class ACC> void iterate(Ctx& c) {
   Rng& r = c.rng; const Op op = Kind<typename GM::OperatorType>::op(); namespace pg = opengm::proposal_gen; const MixedModel k = model(c, op, r.chance(0.05) ? 0 : 1, 6, 4, 1 + r.below(3)); GM gm = buildMixed<GM>(r, k); const RefModel& m = k.ref; srand((unsigned)r.below(1000000));
   switch(r.below(8)) {
      case 0: { typedef pg::AlphaExpansionGen<GM, ACC> G; run<GM, G>(c, m, gm, typename G::Parameter(), "expansion"); break; }
      case 1: { typedef pg::AlphaBetaSwapGen<GM, ACC> G; run<GM, G>(c, m, gm, typename G::Parameter(), "swap"); break; }
      case 2: { typedef pg::UpDownGen<GM, ACC> G; const size_t w = r.below(3); run<GM, G>(c, m, gm, typename G::Parameter(w == 0 ? "up" : w == 1 ? "down" : "random"), "updown", w != 2); typename G::Parameter bad("sideways"); VF_MUST_THROW({ G g(gm, bad); }, "updown/direction", "unknown direction accepted"); break; }
      case 3: { typedef pg::RandomGen<GM, ACC> G; run<GM, G>(c, m, gm, typename G::Parameter(), "random"); break; }
      case 4: { typedef pg::Random2Gen<GM, ACC> G; run<GM, G>(c, m, gm, typename G::Parameter(), "random2"); break; }
      case 5: { if(m.labels.empty()) break; typedef pg::RandomLFGen<GM, ACC> G; run<GM, G>(c, m, gm, typename G::Parameter(), "randomlf"); break; }
      case 6: { typedef pg::NonUniformRandomGen<GM, ACC> G; run<GM, G>(c, m, gm, typename G::Parameter(0.25f * (1 + r.below(8))), "nonuniform", false); break; }
      default: { typedef pg::DynamincGen<GM, ACC> G; typename G::Parameter q; const size_t w = r.below(m.labels.empty() ? 4 : 6); q.gen_ = w == 0 ? G::AlphaExpansion : w == 1 ? G::AlphaBetaSwap : w == 2 ? G::UpDown : w == 3 ? G::Random : w == 4 ? G::RandomLF : G::NonUniformRandom; run<GM, G>(c, m, gm, q, "dynamic", w != 5); } }
}
template<class GM, class ACC> void blurred(Ctx& c) {
   Rng& r = c.rng; const Op op = Kind<typename GM::OperatorType>::op(); namespace pg = opengm::proposal_gen; const size_t h = 1 + r.below(4), w = 1 + r.below(h == 4 ? 2 : 3), L = 1 + r.below(h * w > 6 ? 2 : 4); const RefModel m = gridLike(r, h, w, L, DYADIC); m.digest(c); c.desc << opName(op) << " grid " << h << "x" << w << " " << m.str(); const GM gm0 = buildExplicit<GM>(m); GM gm = gm0; srand((unsigned)r.below(1000000)); const double sigma = r.chance(0.2) ? 20.0 : 0.5 + r.below(6);
   if(r.chance(0.5)) { typedef pg::BlurGen<GM, ACC> G; run<GM, G>(c, m, gm, typename G::Parameter(sigma), "blur"); }
   else if(r.chance(0.9)) { typedef pg::EnergyBlurGen<GM, ACC> G; const bool marg = r.chance(0.5); run<GM, G>(c, m, gm, typename G::Parameter(sigma, marg, 0.25 * (1 + r.below(8))), marg ? "energyblur-marginals" : "energyblur", false); }
   else { RefModel bad = m; size_t x = 0; while(bad.f[x].vars.size() != 1) ++x; bad.f.erase(bad.f.begin() + x); const GM g2 = buildExplicit<GM>(bad); typedef pg::EnergyBlurGen<GM, ACC> G; VF_MUST_THROW({ G g(g2, typename G::Parameter(1.0)); }, "energyblur/unary", "missing unary accepted"); }
}
}
