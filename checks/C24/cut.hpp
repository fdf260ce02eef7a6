#pragma once
#include "solvers.hpp"
#include "propagation.hpp"
#include <opengm/inference/graphcut.hxx>
#include <opengm/inference/auxiliary/minstcutboost.hxx>
// graph cut on submodular binary models against exhaustive enumeration
namespace c24 {
using namespace vf; using namespace sv; 
using opengm::MinSTCutBoost; using opengm::PUSH_RELABEL; using opengm::EDMONDS_KARP; using opengm::KOLMOGOROV;
// a submodular (for minimisation) model over binary variables, all values multiples of 1/8
inline double val(Rng& r, int style) { return style == 0 ? (double)r.range(-3, 3) : style == 1 ? r.range(-80, 80) / 8.0 : r.chance(0.6) ? 0.0 : (double)r.range(-1, 1); }
inline RefModel submodular(Rng& r, bool third, size_t maxV = 10) {
   RefModel m; const int style = r.below(3); size_t n = r.below(maxV + 1); std::vector<std::pair<size_t, size_t> > edges; const size_t shape = r.below(3);
   if(shape == 0) { size_t h = 1 + r.below(3), w = 1 + r.below(maxV / 3 ? maxV / 3 : 1); n = h * w; for(size_t i = 0; i < n; ++i) { if(i % w + 1 < w) edges.push_back(std::make_pair(i, i + 1)); if(i + w < n) edges.push_back(std::make_pair(i, i + w)); } }
   else { const double p = shape == 1 ? 0.9 : 0.3; for(size_t a = 0; a < n; ++a) for(size_t b = a + 1; b < n; ++b) if(r.chance(p)) { edges.push_back(std::make_pair(a, b)); if(r.chance(0.15)) edges.push_back(std::make_pair(a, b)); } }
   m.labels.assign(n, 2);
   for(size_t v = 0; v < n; ++v) while(r.chance(0.6)) { RefFactor f; f.vars.push_back(v); f.tab.push_back(val(r, style)); f.tab.push_back(val(r, style)); m.f.push_back(f); }
   for(size_t e = 0; e < edges.size(); ++e) { RefFactor f; f.vars.push_back(edges[e].first); f.vars.push_back(edges[e].second); double A = val(r, style), B = val(r, style), C = val(r, style), D = val(r, style); if(r.chance(0.3)) { A = D = 0; B = C = std::fabs(B); } double t = B + C - A - D; if(t < 0) { std::swap(A, B); std::swap(C, D); } f.tab.push_back(A); f.tab.push_back(C); f.tab.push_back(B); f.tab.push_back(D); m.f.push_back(f); }
   while(r.chance(0.2)) { RefFactor f; f.tab.push_back(val(r, style)); m.f.push_back(f); }
   if(third && n >= 3) for(size_t k = 1 + r.below(4); k--;) { RefFactor f; f.vars = randScope(r, n, 3); if(r.chance(0.3) && !m.f.empty() && m.f.back().vars.size() == 3) f.vars = m.f.back().vars; double u[3][2], p[3], w = r.chance(0.2) ? 0 : std::fabs(val(r, style)); for(int i = 0; i < 3; ++i) { u[i][0] = val(r, style); u[i][1] = val(r, style); p[i] = r.chance(0.4) ? 0 : std::fabs(val(r, style)); } const bool ones = r.chance(0.5), hard = r.chance(0.3);
      for(size_t i = 0; i < 8; ++i) { const int x[3] = {int(i & 1), int(i >> 1 & 1), int(i >> 2 & 1)}; double e = u[0][x[0]] + u[1][x[1]] + u[2][x[2]] + (x[0] != x[1] ? p[0] : 0) + (x[1] != x[2] ? p[1] : 0) + (x[0] && !x[2] ? p[2] : 0); if(x[0] + x[1] + x[2] == (ones ? 3 : 0)) e -= w; if(hard && x[0] + x[1] + x[2] != (ones ? 0 : 3)) e += w; f.tab.push_back(e); }
      m.f.push_back(f); }
   r.shuffle(m.f); return m;
}
template<class GM, class ACC, class CUT> void cut(Ctx& c, double scale) {
   typedef opengm::GraphCut<GM, ACC, CUT> Inf; Rng& r = c.rng; const bool mx = prop::AccOf<ACC>::v == 1; RefModel m0 = submodular(r, !mx && r.chance(0.4)); if(mx) for(size_t f = 0; f < m0.f.size(); ++f) for(size_t i = 0; i < m0.f[f].tab.size(); ++i) m0.f[f].tab[i] = -m0.f[f].tab[i];
   if(std::numeric_limits<typename GM::ValueType>::is_integer) for(size_t f = 0; f < m0.f.size(); ++f) for(size_t i = 0; i < m0.f[f].tab.size(); ++i) m0.f[f].tab[i] *= 8;
   MixedModel k = prop::asMixedExact(r, m0); const RefModel& m = k.ref; m.digest(c); GM gm = buildMixed<GM>(r, k); c.desc << k.str() << " scale " << scale; const double opt = m.best(mx, SUM);
   typename Inf::Parameter p((typename GM::ValueType)scale); if(r.chance(0.2)) { typename Inf::Parameter q(p); p = q; } Inf inf(gm, p); const Inf& ci = inf;
   VF_EXPECT(&ci.graphicalModel() == &gm, "model", ""); std::vector<typename Inf::LabelType> l(r.below(4), 7); VF_CHECK(inf.arg(l) == opengm::UNKNOWN, "before", ""); 
   const size_t runs = r.chance(0.4) ? 2 + r.below(2) : 1; size_t third = 0; for(size_t f = 0; f < m.f.size(); ++f) third += m.f[f].vars.size() == 3; c.count("third order factors", third);
   for(size_t t = 0; t < runs; ++t) {
      if(r.chance(0.3)) { Rec rec; VF_CHECK(inf.infer(rec) == opengm::NORMAL && rec.begins == 1 && rec.ends == 1, "visitor", rec.begins << rec.ends); } else VF_CHECK(inf.infer() == opengm::NORMAL, "infer", "");
      Answer a = answer(inf); VF_CHECK(a.ok, "labels", ""); judge(c, a, m, SUM, mx, opt, t ? "again" : "cut"); VF_CHECK(m.eval(a.arg, SUM) == opt, t ? "again/optimum" : "cut/optimum", showA(a) << " optimum " << opt); 
      std::vector<typename Inf::LabelType> x; VF_EXPECT(inf.arg(x, 2) == opengm::UNKNOWN, "second-best", ""); c.count("optima checked"); }
   // the same problem assembled factor by factor
   if(r.chance(0.5)) { std::vector<size_t> dims(r.chance(0.5) ? 4 : 1, 0); for(size_t f = 0; f < m.f.size(); ++f) { if(m.f[f].vars.size() >= dims.size()) dims.resize(m.f[f].vars.size() + 1, 0); ++dims[m.f[f].vars.size()]; }
      Inf man(m.labels.size(), dims, p); std::vector<size_t> order(m.f.size()); for(size_t f = 0; f < order.size(); ++f) order[f] = f; r.shuffle(order); for(size_t f = 0; f < order.size(); ++f) man.addFactor(gm[order[f]]);
      std::vector<typename Inf::LabelType> x; man.infer(); VF_CHECK(man.arg(x) == opengm::NORMAL, "manual/labels", ""); std::vector<size_t> l2(x.begin(), x.end()); VF_CHECK(validLabeling(m, l2) && m.eval(l2, SUM) == opt, "manual/optimum", show(l2) << " optimum " << opt); c.count("assembled by hand"); }
}
template<class GM, class ACC, class CUT> void refuse(Ctx& c) {
   typedef opengm::GraphCut<GM, ACC, CUT> Inf; Rng& r = c.rng; RefModel m = submodular(r, false, 6); const size_t kind = r.below(3); while(m.labels.size() < 4) { m.labels.push_back(2); }
   if(kind == 0) { size_t v = r.below(m.labels.size()); m.labels[v] = r.chance(0.5) ? 3 : 1; std::vector<RefFactor> keep; for(size_t f = 0; f < m.f.size(); ++f) if(std::find(m.f[f].vars.begin(), m.f[f].vars.end(), v) == m.f[f].vars.end()) keep.push_back(m.f[f]); m.f = keep; }
   if(kind == 1) addRandFactor(r, m, randScope(r, m.labels.size(), 4), SMALLINT); if(kind == 2) { if(prop::AccOf<ACC>::v != 1) return; addRandFactor(r, m, randScope(r, m.labels.size(), 3), SMALLINT); }
   m.digest(c); c.desc << m.str(); GM gm = buildExplicit<GM>(m); VF_MUST_THROW(Inf inf(gm), "refuse", "");
}
}
