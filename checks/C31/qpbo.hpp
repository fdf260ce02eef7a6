#pragma once
#include "solvers.hpp"
#include "propagation.hpp"
#include <opengm/inference/qpbo.hxx>
#include <opengm/inference/auxiliary/minstcutboost.hxx>
// roof duality: partial labels against exhaustive enumeration
namespace c31 {
using namespace vf; using namespace sv; 
using opengm::MinSTCutBoost; using opengm::PUSH_RELABEL; using opengm::EDMONDS_KARP; using opengm::KOLMOGOROV;
inline double val(Rng& r, int style) { return style == 0 ? (double)r.range(-3, 3) : style == 1 ? r.range(-80, 80) / 8.0 : r.chance(0.6) ? 0.0 : (double)r.range(-1, 1); }
enum { ANY, SUBMODULAR, FLIPPED };
inline RefModel draw(Rng& r, int kind) {
   RefModel m; const int style = r.below(3); const size_t n = r.below(10); m.labels.assign(n, 2); const double p = r.chance(0.5) ? 0.25 : r.unit(), pu = r.unit() * 0.8; std::vector<int> flip(n, 0); if(kind == FLIPPED) for(size_t v = 0; v < n; ++v) flip[v] = r.below(2);
   for(size_t v = 0; v < n; ++v) while(r.chance(pu)) { RefFactor f; f.vars.push_back(v); f.tab.push_back(val(r, style)); f.tab.push_back(val(r, style)); m.f.push_back(f); }
   for(size_t a = 0; a < n; ++a) for(size_t b = a + 1; b < n; ++b) if(r.chance(p)) do { RefFactor f; f.vars.push_back(a); f.vars.push_back(b); double t[2][2]; for(int i = 0; i < 2; ++i) for(int j = 0; j < 2; ++j) t[i][j] = val(r, style); if(r.chance(0.3)) { t[1][1] = t[0][0]; t[1][0] = t[0][1]; }
      if(kind != ANY && t[0][1] + t[1][0] < t[0][0] + t[1][1]) { std::swap(t[0][0], t[0][1]); std::swap(t[1][0], t[1][1]); } for(int j = 0; j < 2; ++j) for(int i = 0; i < 2; ++i) f.tab.push_back(t[i ^ flip[a]][j ^ flip[b]]); m.f.push_back(f); } while(r.chance(0.1));
   while(r.chance(0.2)) { RefFactor f; f.tab.push_back(val(r, style)); m.f.push_back(f); }
   r.shuffle(m.f); return m;
}
template<class GM, class CUT> void roof(Ctx& c, double mul) {
   typedef opengm::QPBO<GM, CUT> Inf; Rng& r = c.rng; const int kind = r.below(4) < 2 ? ANY : r.chance(0.5) ? SUBMODULAR : FLIPPED; RefModel m0 = draw(r, kind); for(size_t f = 0; f < m0.f.size(); ++f) for(size_t i = 0; i < m0.f[f].tab.size(); ++i) m0.f[f].tab[i] *= mul;
   MixedModel k = prop::asMixedExact(r, m0); const RefModel& m = k.ref; m.digest(c); c.digest(kind); GM gm = buildMixed<GM>(r, k); c.desc << k.str() << " kind " << kind; const size_t n = m.labels.size(); const std::vector<double> all = m.allValues(SUM); const double opt = *std::min_element(all.begin(), all.end()); const size_t nOpt = std::count(all.begin(), all.end(), opt);
   Inf inf(gm); std::vector<bool> part(3, true); std::vector<typename Inf::LabelType> l(2, 5); VF_CHECK(inf.arg(l) == opengm::UNKNOWN, "before/labels", ""); VF_EXPECT(inf.partialOptimality(part) == 0 && part.size() == n && std::count(part.begin(), part.end(), true) == 0, "before/partial", "");
   for(size_t t = 0, runs = r.chance(0.3) ? 2 : 1; t < runs; ++t) {
      if(r.chance(0.3)) { Rec rec; inf.infer(rec); VF_CHECK(rec.begins == 1 && rec.ends == 1, "visitor", ""); } else VF_CHECK(inf.infer() == opengm::NORMAL, "infer", "");
      Answer a = answer(inf); VF_CHECK(a.ok, "labels", ""); judge(c, a, m, SUM, false, opt, "roof"); VF_EXPECT(inf.bound() <= opt, "bound", inf.bound());
      const double frac = inf.partialOptimality(part); const size_t cnt = std::count(part.begin(), part.end(), true); VF_CHECK(part.size() == n && (n == 0 || close(frac, double(cnt) / n)) && !std::isnan(frac), "fraction", frac << " of " << cnt);
      // the declared labels improve, or keep, every labeling they are put into; hence they are part of an optimum
      std::vector<size_t> x(n, 0); size_t i = 0; do { std::vector<size_t> y(x); for(size_t v = 0; v < n; ++v) if(part[v]) y[v] = a.arg[v]; VF_CHECK(m.eval(y, SUM) <= all[i], "persistency", "declared " << show(part) << " of " << show(a.arg) << " makes " << show(x) << " worse: " << m.eval(y, SUM) << " from " << all[i]); ++i; } while(nextTuple(x, m.labels));
      c.count("labels declared optimal", cnt); c.count("labels left open", n - cnt); c.count("labelings checked", all.size());
      if(kind == SUBMODULAR) VF_CHECK(a.value == opt, "submodular/optimum", showA(a) << " optimum " << opt);
      if(kind != ANY && nOpt == 1) { VF_CHECK(cnt == n && a.value == opt, "unique/complete", "declared " << show(part) << " " << showA(a) << " optimum " << opt); c.count("unique optima"); } }
}
template<class CUT> void refuse(Ctx& c) {
   typedef typename Gm<double, opengm::Adder>::Plain M; Rng& r = c.rng; RefModel m = draw(r, ANY); while(m.labels.size() < 4) m.labels.push_back(2); const size_t kind = r.below(3);
   if(kind == 0) { m.labels.push_back(r.chance(0.5) ? 3 : 1); if(r.chance(0.5)) addRandFactor(r, m, std::vector<size_t>(1, m.labels.size() - 1), SMALLINT); } if(kind == 1) addRandFactor(r, m, randScope(r, m.labels.size(), 3 + r.below(2)), SMALLINT); m.digest(c); c.digest(kind); c.desc << m.str();
   if(kind == 2) { typedef typename Gm<double, opengm::Multiplier>::Plain P; P gm = buildExplicit<P>(m); typedef opengm::QPBO<P, CUT> Inf; VF_MUST_THROW(Inf inf(gm), "refuse/product", ""); }
   else { M gm = buildExplicit<M>(m); typedef opengm::QPBO<M, CUT> Inf; VF_MUST_THROW(Inf inf(gm), "refuse", ""); }
}
}
