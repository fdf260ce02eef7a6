#include "propagation.hpp"
// labels combined from marginals: the per-variable mode, and the labeling completed from given labels
typedef sv::Gm<double, opengm::Multiplier>::Mixed M; typedef opengm::Integrator A;
typedef opengm::MessagePassing<M, A, opengm::BeliefPropagationUpdateRules<M, A>, opengm::MaxDistance> MP;
typedef opengm::MessagePassing<M, opengm::Maximizer, opengm::BeliefPropagationUpdateRules<M, opengm::Maximizer>, opengm::MaxDistance> MX;
typedef sv::Gm<double, opengm::Adder>::Mixed S;
typedef opengm::MessagePassing<S, opengm::Minimizer, opengm::BeliefPropagationUpdateRules<S, opengm::Minimizer>, opengm::MaxDistance> MS;
using namespace prop;
template<class GM, class MP> void modes(Ctx& c, bool mx) {
   Rng& r = c.rng; const Op op = OpOf<typename GM::OperatorType>::v; MixedModel k = asMixed(r, randAcyclic(r, op)); const RefModel& ref = k.ref; ref.digest(c); c.desc << k.str(); GM gm = buildMixed<GM>(r, k);
   typename MP::Parameter p; randSchedule(c, p, ref); MP mp(gm, p); mp.infer(); const size_t n = ref.labels.size();
   std::vector<size_t> l; VF_CHECK(mp.modeFromMarginal(l) == opengm::NORMAL && validLabeling(ref, l), "mode/labels", show(l));
   for(size_t v = 0; v < n; ++v) { std::vector<double> m = marginalRef(ref, std::vector<size_t>(1, v), op, mx ? 1 : 0); double b = mx ? *std::max_element(m.begin(), m.end()) : *std::min_element(m.begin(), m.end()); VF_CHECK(close(m[l[v]], b, 1e-6, 1e-6), "mode/best", "variable " << v << " label " << l[v] << " of " << show(m)); }
   // completing some given labels gives the best labeling that has them
   std::vector<size_t> vars = randScope(r, n, r.below(n + 1)), given; r.shuffle(vars); for(size_t i = 0; i < vars.size(); ++i) given.push_back(r.below(ref.labels[vars[i]]));
   bool first = true; double b = 0; std::vector<size_t> t(n, 0); do { bool ok = true; for(size_t i = 0; i < vars.size(); ++i) ok = ok && t[vars[i]] == given[i]; if(!ok) continue; double e = ref.eval(t, op); if(first || (mx ? e > b : e < b)) b = e; first = false; } while(nextTuple(t, ref.labels));
   std::vector<size_t> conf, lv(vars), lg(given); VF_CHECK(mp.constrainedOptimum(lv, lg, conf) == opengm::NORMAL && validLabeling(ref, conf), "constrained/labels", show(conf));
   for(size_t i = 0; i < vars.size(); ++i) VF_CHECK(conf[vars[i]] == given[i], "constrained/given", show(conf) << " given " << show(vars) << show(given));
   if(vars.size() <= 1) VF_CHECK(close(ref.eval(conf, op), b, 1e-8, 1e-8), "constrained/optimum", show(conf) << " has " << ref.eval(conf, op) << " expected " << b << " given " << show(vars) << show(given));
   c.count("completions");
}
VF_SCENARIO(modes_max, 400, 15000) { modes<M, MX>(c, true); }
VF_SCENARIO(modes_min, 400, 15000) { modes<S, MS>(c, false); }
VF_SCENARIO(modes_sum, 300, 10000) {
   Rng& r = c.rng; MixedModel k = asMixed(r, randAcyclic(r, PROD)); const RefModel& ref = k.ref; ref.digest(c); c.desc << k.str(); M gm = buildMixed<M>(r, k); MP::Parameter p; randSchedule(c, p, ref); MP mp(gm, p); mp.infer(); 
   VF_EXPECT(std::isnan(mp.value()) && std::isnan(mp.bound()), "sum/no-optimum-claimed", mp.value());
   VF_EXPECT(mp.graphicalModel().numberOfFactors() == ref.f.size(), "sum/model", "");
   // repeated single steps reach the same fixed point; its messages no longer change
   MP step(gm); for(size_t i = 0; i < 2 * (ref.labels.size() + ref.f.size()) + 4; ++i) step.propagate(); VF_CHECK(step.convergence() < 1e-6 && step.convergenceXF() < 1e-6 && step.convergenceFX() < 1e-6, "sum/converged", step.convergence() << " " << step.convergenceFX());
   judgeMarginals<MP, A>(c, step, ref, PROD, true, "steps", 1e-8);
}
