#include "propagation.hpp"
#include <opengm/inference/dynamicprogramming.hxx>
namespace c23 {
using namespace sv;
template<class GM, class ACC> void dynamic(Ctx& c) {
   Rng& r = c.rng; const Op op = prop::OpOf<typename GM::OperatorType>::v; const bool mx = std::is_same<ACC, opengm::Maximizer>::value; const double tol = sizeof(typename GM::ValueType) == 4 ? 2e-4 : 1e-8;
   MixedModel k = prop::asMixed(r, prop::randAcyclic(r, op, 3000, 0.15, true)); const RefModel& ref = k.ref; ref.digest(c); c.desc << opName(op) << (mx ? " max " : " min ") << k.str(); const size_t n = ref.labels.size();
   GM gm = buildMixed<GM>(r, k); typedef opengm::DynamicProgramming<GM, ACC> D; typename D::Parameter p;
   if(r.chance(0.6)) { std::vector<size_t> o(n); std::iota(o.begin(), o.end(), size_t(0)); r.shuffle(o); o.resize(r.below(n + 1)); p.roots_.assign(o.begin(), o.end()); c.desc << " roots" << show(o); c.digestV(o); c.count("runs with given roots"); }
   size_t nOpt = 0; std::vector<size_t> best; const double opt = ref.best(mx, op, &best, &nOpt); if(nOpt == 1) c.count("unique optima"); else c.count("tied optima");
   D d(gm, p); { Answer a = answer(d); VF_CHECK(!a.ok || close(a.value, ref.eval(a.arg, op), tol, tol), "dp/before", showA(a)); }
   for(int round = 0; round < 2; ++round) {
      Rec v(size_t(-1), false, false); if(round) VF_CHECK(d.infer(v) == opengm::NORMAL, "dp/status", ""); else d.infer();
      Answer a = answer(d); judge(c, a, ref, op, mx, opt, "dp", tol);
      VF_CHECK(a.ok && close(ref.eval(a.arg, op), opt, tol, tol), "dp/optimum", showA(a) << " optimum " << opt);
      if(nOpt == 1 && op == SUM) VF_CHECK(a.arg == best, "dp/unique-labeling", showA(a) << " expected " << show(best));
   }
   // what it tells about a variable: the best completion of each label below it
   if(n) { const size_t v = r.below(n); std::vector<typename GM::ValueType> val; std::vector<std::vector<typename GM::LabelType> > sub; std::vector<typename GM::IndexType> nodes; d.getNodeInfo(v, val, sub, nodes);
      VF_CHECK(val.size() == ref.labels[v] && sub.size() == val.size(), "dp/node-info-size", val.size());
      std::set<size_t> below(nodes.begin(), nodes.end()); VF_CHECK(below.size() == nodes.size() && !below.count(v), "dp/node-info-nodes", show(nodes)); below.insert(v);
      for(size_t l = 0; l < val.size(); ++l) { VF_CHECK(sub[l].size() == nodes.size(), "dp/node-info-states", sub[l].size());
         std::vector<size_t> lab(n, 0); lab[v] = l; for(size_t i = 0; i < nodes.size(); ++i) { VF_CHECK(sub[l][i] < ref.labels[nodes[i]], "dp/node-info-label", (size_t)sub[l][i]); lab[nodes[i]] = sub[l][i]; }
         double e = op == SUM ? 0 : 1; for(size_t f = 0; f < ref.f.size(); ++f) { if(ref.f[f].vars.empty()) continue; bool in = true; for(size_t q = 0; q < ref.f[f].vars.size(); ++q) in = in && below.count(ref.f[f].vars[q]); if(in) { if(op == SUM) e += ref.at(f, lab); else e *= ref.at(f, lab); } }
         VF_CHECK(close((double)val[l], e, tol, tol), "dp/node-info-value", "variable " << v << " label " << l << " value " << (double)val[l] << " states sum to " << e << " nodes " << show(nodes)); }
      c.count("node infos"); }
}
}
