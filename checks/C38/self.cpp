#include "fuse.hpp"
#include <opengm/inference/self_fusion.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
#include <opengm/inference/gibbs.hxx>
#include <opengm/inference/partition-move.hxx>
#define NOVIGRA
#include <opengm/inference/auxiliary/fusion_move/permutable_label_fusion_mover.hxx>
using namespace fz;
namespace {
struct SRec { size_t begins, ends, calls, stop; bool late; std::vector<double> values, proposals; std::vector<St> args; bool first;
   SRec(size_t s = size_t(-1)) : begins(0), ends(0), calls(0), stop(s), late(false), first(true) {}
   template<class S> void note(S& s) { std::vector<typename S::LabelType> a; s.arg(a); args.push_back(St(a.begin(), a.end())); values.push_back((double)s.value()); }
   template<class S> void begin(S& s) { ++begins; note(s); } template<class S> void end(S& s) { ++ends; note(s); }
   template<class S> size_t operator()(S& s) { if(calls >= stop) late = true; ++calls; note(s); return calls >= stop ? opengm::visitors::VisitorReturnFlag::StopInfBoundReached : 0; }
   void addLog(const std::string&) {} void log(const std::string&, double v) { if(first) first = false; else { proposals.push_back(v); at.push_back(values.size() - 1); } } std::vector<size_t> at; };
template<class GM, class INF> void self(Ctx& c, const RefModel& m, GM& gm, const typename INF::Parameter& ip, const char* tag) {
   typedef opengm::SelfFusion<INF> S; typedef typename S::AccumulationType ACC; typedef typename GM::LabelType L; Rng& r = c.rng; const Op op = Kind<typename GM::OperatorType>::op(); const bool mx = Mx<ACC>::v; const size_t n = m.labels.size(); const std::string t = tag;
   const size_t nth = 1 + (r.chance(0.3) ? r.below(3) : 0), sub = 1 + r.below(4), noProg = 1 + r.below(12); typename S::Parameter p(nth, S::LazyFlipperFusion, ip, sub, false, false, false, 100.0, noProg); c.desc << " " << t << " every " << nth << " subgraph " << sub << " stop " << noProg; c.digest(nth); c.digest(sub);
   double opt; { std::vector<double> all = m.allValues(op); opt = mx ? *std::max_element(all.begin(), all.end()) : *std::min_element(all.begin(), all.end()); }
   const unsigned seed = (unsigned)r.below(1000000); S s(gm, p); judge(c, answer(s), m, op, mx, opt, t + "/before"); const bool given = r.chance(0.4); St start(n, 0); if(given) { start = randLab(r, m); const std::vector<L> sp(start.begin(), start.end()); s.setStartingPoint(sp.begin()); const Answer a = answer(s); VF_CHECK(a.arg == start && sameNum(a.value, m.eval(start, op)), t + "/start", showA(a)); }
   const double first = answer(s).value; const size_t stop = r.chance(0.2) ? 1 + r.below(3) : size_t(-1); SRec v(stop); srand(seed); VF_CHECK(s.infer(v) == opengm::NORMAL, t + "/status", ""); VF_CHECK(v.begins == 1 && v.ends == 1, t + "/visitor", v.begins << " begins " << v.ends << " ends"); 
   for(size_t i = 0; i < v.values.size(); ++i) { const double was = i ? v.values[i - 1] : first; VF_CHECK(!worse(mx, v.values[i], was), t + "/not-monotone", "step " << i << " from " << was << " to " << v.values[i]); VF_CHECK(validLabeling(m, v.args[i]) && sameNum(v.values[i], m.eval(v.args[i], op)), t + "/step-value", "step " << i << " value " << v.values[i] << vf::show(v.args[i])); }
   for(size_t i = 0; i < v.proposals.size(); ++i) VF_CHECK(!worse(mx, v.values[v.at[i]], v.proposals[i]), t + "/worse-than-proposal", "step " << i << " has " << v.values[v.at[i]] << " proposal " << v.proposals[i]);
   const Answer a = answer(s); judge(c, a, m, op, mx, opt, t); VF_CHECK(!worse(mx, a.value, first), t + "/worse-than-start", a.value << " started from " << first); c.count("steps", v.calls); c.count("proposals", v.proposals.size()); if(sameNum(a.value, opt)) c.count("optimum reached");
   if(stop == size_t(-1)) { S u(gm, p); if(given) { const std::vector<L> sp(start.begin(), start.end()); u.setStartingPoint(sp.begin()); } srand(seed); u.infer(); VF_EXPECT(sameAnswer(answer(u), a), t + "/repeat", showA(a) << " again " << showA(answer(u))); }
   if(r.chance(0.3)) { s.infer(); const Answer z = answer(s); judge(c, z, m, op, mx, opt, t + "/again"); VF_CHECK(!worse(mx, z.value, a.value), t + "/again-worse", z.value << " was " << a.value); }
   VF_EXPECT(sameModel(gm, m), "model-changed", "");
}
template<class GM, class ACC> void selfs(Ctx& c) {
   Rng& r = c.rng; const Op op = Kind<typename GM::OperatorType>::op(); const MixedModel k = model(c, op, 1, 6, 3, 1 + r.below(3)); GM gm = buildMixed<GM>(r, k); const RefModel& m = k.ref;
   switch(r.below(5)) {
      case 0: { typedef opengm::ICM<GM, ACC> I; self<GM, I>(c, m, gm, typename I::Parameter(), "icm"); break; }
      case 1: { typedef opengm::LazyFlipper<GM, ACC> I; self<GM, I>(c, m, gm, typename I::Parameter(size_t(2)), "flipper"); break; }
      case 2: { typedef opengm::Gibbs<GM, ACC> I; typename I::Parameter p; p.maxNumberOfSamplingSteps_ = 60; p.numberOfBurnInSteps_ = 0; self<GM, I>(c, m, gm, p, "gibbs"); break; }
      default: { typedef opengm::BeliefPropagationUpdateRules<GM, ACC> U; typedef opengm::MessagePassing<GM, ACC, U, opengm::MaxDistance> I; typename I::Parameter p(1 + r.below(12), 0.0, r.chance(0.5) ? 0.0 : 0.5); p.useNormalization_ = true; self<GM, I>(c, m, gm, p, "bp"); break; } }
}
// intersecting two partitions of the nodes of a graph, and merging proposals for models that only depend on which labels agree
template<class T, class I, class L> void permutable(Ctx& c) {
   typedef typename Gm<T, opengm::Adder, I, L>::Mixed GM; typedef opengm::PermutableLabelFusionMove<GM, opengm::Minimizer> F; typedef opengm::PottsFunction<T, I, L> P; Rng& r = c.rng; const size_t n = 2 + r.below(8); std::vector<size_t> labels(n, n); GM gm(typename GM::SpaceType(labels.begin(), labels.end())); std::vector<std::pair<size_t, size_t> > e; std::vector<double> w; const double d = 0.2 + 0.8 * r.unit();
   for(size_t i = 0; i < n; ++i) for(size_t j = i + 1; j < n; ++j) if(r.chance(d)) { const I vi[] = {(I)i, (I)j}; const double x = (double)r.range(-8, 8) / 4; gm.addFactor(gm.addFunction(P(n, n, 0, (T)x)), vi, vi + 2); e.push_back(std::make_pair(i, j)); w.push_back(x); c.digest(i * n + j); c.digestD(x); }
   std::vector<L> a(n), b(n), res(n, 0); const size_t ka = 1 + r.below(n), kb = 1 + r.below(n); for(size_t i = 0; i < n; ++i) { a[i] = (L)r.below(ka); b[i] = (L)r.below(kb); c.digest(a[i]); c.digest(b[i]); } c.desc << n << " nodes " << e.size() << " edges" << vf::show(a) << vf::show(b);
   F f(gm, typename F::Parameter(F::BaseSolver)); const size_t k = f.intersect(a, b, res);
   std::vector<size_t> comp(n); for(size_t i = 0; i < n; ++i) comp[i] = i; for(bool go = true; go;) { go = false; for(size_t x = 0; x < e.size(); ++x) if(a[e[x].first] == a[e[x].second] && b[e[x].first] == b[e[x].second] && comp[e[x].first] != comp[e[x].second]) { const size_t lo = std::min(comp[e[x].first], comp[e[x].second]); comp[e[x].first] = comp[e[x].second] = lo; go = true; } }
   const size_t parts = std::set<size_t>(comp.begin(), comp.end()).size(); VF_CHECK(k == parts, "intersect/count", k << " parts, expected " << parts); for(size_t i = 0; i < n; ++i) { VF_CHECK((size_t)res[i] < k, "intersect/dense", vf::show(res)); for(size_t j = 0; j < i; ++j) VF_CHECK((res[i] == res[j]) == (comp[i] == comp[j]), "intersect/parts", "nodes " << j << " and " << i << vf::show(res)); }
   const T va = gm.evaluate(a.begin()), vb = gm.evaluate(b.begin()); T v = -12345; std::vector<L> out(n, 0); const bool did = f.fuse(a, b, out, va, vb, v); VF_CHECK(did == (k > 1), "merge/status", did << " with " << k << " parts"); if(did) VF_CHECK(v == std::min(va, vb) && gm.evaluate(out.begin()) == v, "merge/best", v << " inputs " << va << " " << vb);
   VF_MUST_THROW({ F g(gm, typename F::Parameter(F::MulticutSolver)); }, "merge/solver", "missing solver accepted"); c.count("parts", k);
}
}
VF_SCENARIO(self_sum, 800, 30000) { selfs<Gm<double, opengm::Adder>::Mixed, opengm::Minimizer>(c); }
VF_SCENARIO(self_prod, 500, 20000) { selfs<Gm<double, opengm::Multiplier, unsigned int, unsigned char>::Mixed, opengm::Maximizer>(c); }
VF_SCENARIO(permutable, 800, 30000) { permutable<double, size_t, size_t>(c); }
VF_SCENARIO(permutable_small, 300, 10000) { permutable<float, unsigned int, unsigned char>(c); }
