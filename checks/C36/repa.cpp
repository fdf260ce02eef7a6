#include "../../harness/solvers.hpp"
#include <opengm/inference/auxiliary/lp_reparametrization.hxx>
using namespace vf; using namespace sv;
namespace {
double mult(Rng& r, int st) { return st == 0 ? r.range(-8, 8) / 4.0 : st == 1 ? (double)r.range(-9, 9) : r.range(-2000, 2000) / 64.0; }
// models in which every variable has at most one unary factor; variables without one get zero multipliers
RefModel model(Rng& r, Style st, bool all, bool constants) {
   RefModel m; size_t n = 1 + r.below(6); do { m.labels.clear(); for(size_t i = 0; i < n; ++i) m.labels.push_back(1 + r.below(4)); } while(m.configs() > 400);
   std::vector<std::vector<size_t> > sc; for(size_t i = 0; i < n; ++i) if(all || r.chance(0.6)) sc.push_back(std::vector<size_t>(1, i));
   const size_t k = r.below(2 * n + 1); for(size_t i = 0; i < k; ++i) if(n > 1) sc.push_back(randScope(r, n, 2 + r.below(std::min<size_t>(n, r.chance(0.7) ? 2 : 4) - 1)));
   if(constants && r.chance(0.4)) sc.push_back(std::vector<size_t>()); r.shuffle(sc); for(size_t i = 0; i < sc.size(); ++i) addRandFactor(r, m, sc[i], st); return m;
}
template<class GM, class ACC> void repa(Ctx& c, Style st) {
   typedef opengm::LPReparametrizer<GM, ACC> R; typedef typename R::RepaStorageType S; typedef typename R::ReparametrizedGMType RG; typedef typename GM::ValueType T; typedef typename GM::LabelType L; Rng& r = c.rng; const bool mx = ACC::template bop<double>(1, 0); const double tol = sizeof(T) == 4 ? 1e-4 : 1e-9;
   const RefModel m = model(r, st, r.chance(0.7), true); GM gm = buildExplicit<GM>(m); R rep(gm); S& s = rep.Reparametrization(); c.desc << m.str(); m.digest(c); const size_t n = m.labels.size();
   std::vector<bool> unary(n, false); for(size_t f = 0; f < m.f.size(); ++f) if(m.f[f].vars.size() == 1) unary[m.f[f].vars[0]] = true;
   std::vector<std::vector<std::vector<double> > > d(m.f.size()); size_t total = 0;
   for(size_t f = 0; f < m.f.size(); ++f) if(m.f[f].vars.size() > 1) { d[f].resize(m.f[f].vars.size()); for(size_t k = 0; k < d[f].size(); ++k) { d[f][k].assign(m.labels[m.f[f].vars[k]], 0); total += d[f][k].size(); VF_CHECK(s.localId(f, m.f[f].vars[k]) == k, "repa/local-id", "factor " << f << " variable " << m.f[f].vars[k]); for(size_t i = 0; i < d[f][k].size(); ++i) VF_CHECK(s.get(f, k)[i] == 0 && s.get(f, k).size() == d[f][k].size(), "repa/initial", "multiplier not zero"); } }
   std::vector<RefModel> seen; RG kept; bool haveKept = false;
   for(size_t round = 0; round < 1 + r.below(3); ++round) {
      const int ms = (int)r.below(3); for(size_t f = 0; f < d.size(); ++f) for(size_t k = 0; k < d[f].size(); ++k) if(unary[m.f[f].vars[k]] && r.chance(0.8)) for(size_t i = 0; i < d[f][k].size(); ++i) d[f][k][i] = mult(r, ms);
      std::vector<T> flat; for(size_t f = 0; f < d.size(); ++f) for(size_t k = 0; k < d[f].size(); ++k) for(size_t i = 0; i < d[f][k].size(); ++i) flat.push_back((T)d[f][k][i]);
      if(r.chance(0.5)) { s.deserialize(flat); c.count("deserialised"); } else for(size_t f = 0; f < d.size(); ++f) for(size_t k = 0; k < d[f].size(); ++k) { std::pair<typename S::uIterator, typename S::uIterator> it = s.getIterators(f, k); VF_CHECK((size_t)(it.second - it.first) == d[f][k].size(), "repa/iterators", "length " << (it.second - it.first)); for(size_t i = 0; i < d[f][k].size(); ++i) it.first[i] = (T)d[f][k][i]; }
      std::vector<T> out; if(r.chance(0.5)) out.resize(3); s.serialize(&out); VF_CHECK(out == flat, "repa/serialise", "serialised " << vf::show(out) << " expected " << vf::show(flat)); VF_CHECK(flat.size() == total, "repa/serialise", "size");
      if(!flat.empty() && r.chance(0.3)) { std::vector<T> bad(flat); bad.pop_back(); VF_MUST_THROW(s.deserialize(bad), "repa/short", "accepts too few multipliers"); bad = flat; bad.push_back(T(1)); VF_MUST_THROW(s.deserialize(bad), "repa/long", "accepts too many multipliers"); s.deserialize(flat); }
      RG fresh; RG& rg = haveKept && r.chance(0.5) ? kept : fresh; rep.getReparametrizedModel(rg);
      VF_CHECK(rg.numberOfVariables() == n && rg.numberOfFactors() == m.f.size(), "repa/shape", "variables " << rg.numberOfVariables() << " factors " << rg.numberOfFactors());
      for(size_t f = 0; f < m.f.size(); ++f) { VF_CHECK(rg[f].numberOfVariables() == m.f[f].vars.size(), "repa/shape", "order of factor " << f); for(size_t k = 0; k < m.f[f].vars.size(); ++k) VF_CHECK((size_t)rg[f].variableIndex(k) == m.f[f].vars[k] && (size_t)rg[f].numberOfLabels(k) == m.labels[m.f[f].vars[k]], "repa/shape", "scope of factor " << f); }
      // the table of every factor is the model's plus the multipliers; the total never moves
      RefModel q = m; for(size_t f = 0; f < m.f.size(); ++f) { const std::vector<size_t>& v = m.f[f].vars; std::vector<size_t> sh = m.shape(f), t(sh.size(), 0); size_t at = 0; if(v.size() > 1) do { for(size_t k = 0; k < v.size(); ++k) q.f[f].tab[at] += d[f][k][t[k]]; ++at; } while(nextTuple(t, sh)); else if(v.size() == 1) for(size_t g = 0; g < m.f.size(); ++g) if(m.f[g].vars.size() > 1) for(size_t k = 0; k < d[g].size(); ++k) if(m.f[g].vars[k] == v[0]) for(size_t i = 0; i < sh[0]; ++i) q.f[f].tab[i] -= d[g][k][i]; }
      for(size_t f = 0; f < m.f.size(); ++f) { std::vector<size_t> sh = m.shape(f), t(std::max<size_t>(1, sh.size()), 0); size_t at = 0; do { std::vector<L> l(t.begin(), t.end()); const double got = (double)rg[f](l.begin()), own = m.f[f].vars.size() ? (double)s.getFactorValue(f, l.begin()) : got; VF_CHECK(close(got, q.f[f].tab[at], tol, tol) && close(own, got, tol, tol), "repa/factor", "factor " << f << " at " << vf::show(t) << " is " << got << " (" << own << ") expected " << q.f[f].tab[at]); ++at; } while(!sh.empty() && nextTuple(t, sh)); }
      for(size_t v = 0; v < n; ++v) for(size_t i = 0; i < m.labels[v]; ++i) { double w = 0; for(size_t f = 0; f < m.f.size(); ++f) { if(m.f[f].vars.size() == 1 && m.f[f].vars[0] == v) w += q.f[f].tab[i]; } if(unary[v]) VF_CHECK(close((double)s.getVariableValue(v, (L)i), w, tol, tol), "repa/variable", "variable " << v << " label " << i); }
      std::vector<size_t> t(n, 0); do { std::vector<L> l(t.begin(), t.end()); const double a = (double)rg.evaluate(l.begin()), b = m.eval(t, SUM); VF_CHECK(close(a, b, tol, tol), "repa/value", "labeling " << vf::show(t) << " is " << a << " after, " << b << " before"); c.count("labelings"); } while(nextTuple(t, m.labels));
      // arc consistency: all variables consistent means the locally best labels form an optimal labeling
      std::vector<bool> mask; std::vector<L> lab; if(r.chance(0.5)) { mask.assign(n + 2, false); lab.assign(1, 3); } rep.getArcConsistency(&mask, &lab);
      VF_CHECK(mask.size() == n && lab.size() == n, "repa/arc-size", "mask " << mask.size() << " labels " << lab.size()); std::vector<size_t> l(lab.begin(), lab.end()); VF_CHECK(validLabeling(m, l), "repa/arc-label", "labels " << vf::show(l));
      double worst = 0; bool all = true; for(size_t v = 0; v < n; ++v) all = all && mask[v] && unary[v];
      for(size_t f = 0; f < q.f.size(); ++f) if(q.f[f].vars.size() == 1) { const std::vector<double>& tb = q.f[f].tab; const double best = mx ? *std::max_element(tb.begin(), tb.end()) : *std::min_element(tb.begin(), tb.end()); VF_CHECK(close(tb[l[q.f[f].vars[0]]], best, tol, tol), "repa/arc-local", "variable " << q.f[f].vars[0] << " label " << l[q.f[f].vars[0]] << " is not locally best"); }
      (void)worst;
      if(all) { const double a = m.eval(l, SUM), b = m.best(mx, SUM); VF_CHECK(close(a, b, tol, tol), "repa/arc-optimal", "consistent labeling " << vf::show(l) << " costs " << a << " optimum " << b); c.count("consistent"); }
      // where every factor has one best entry only, the answer is determined
      for(size_t v = 0; v < n; ++v) if(unary[v]) { bool unique = true, want = true; for(size_t f = 0; f < q.f.size(); ++f) { const std::vector<size_t>& vs = q.f[f].vars; if(vs.size() < 2 || std::find(vs.begin(), vs.end(), v) == vs.end()) continue; const std::vector<double>& tb = q.f[f].tab; size_t b = 0, ties = 0; for(size_t i = 1; i < tb.size(); ++i) if(mx ? tb[i] > tb[b] : tb[i] < tb[b]) b = i; for(size_t i = 0; i < tb.size(); ++i) if(close(tb[i], tb[b], 1e-4, 1e-4)) ++ties; if(ties > 1) { unique = false; break; } std::vector<size_t> sh = m.shape(f), tt(sh.size(), 0); for(size_t i = 0; i < b; ++i) nextTuple(tt, sh); const size_t pos = std::find(vs.begin(), vs.end(), v) - vs.begin(); if(tt[pos] != l[v]) want = false; }
         for(size_t f = 0; f < q.f.size() && unique; ++f) if(q.f[f].vars.size() == 1 && q.f[f].vars[0] == v) { size_t ties = 0; for(size_t i = 0; i < q.f[f].tab.size(); ++i) if(close(q.f[f].tab[i], q.f[f].tab[l[v]], 1e-4, 1e-4)) ++ties; unique = ties == 1; }
         if(unique) { VF_CHECK(mask[v] == want, "repa/arc-mask", "variable " << v << " consistent " << mask[v] << " expected " << want); c.count(want ? "arc decided yes" : "arc decided no"); } }
      if(!haveKept) { rep.getReparametrizedModel(kept); haveKept = true; }
   }
   if(!m.f.empty()) { const size_t f = r.below(m.f.size()); std::vector<size_t> out; for(size_t v = 0; v < n; ++v) if(m.f[f].vars.size() < 2 || std::find(m.f[f].vars.begin(), m.f[f].vars.end(), v) == m.f[f].vars.end()) out.push_back(v); if(!out.empty()) VF_MUST_THROW(s.localId(f, out[r.below(out.size())]), "repa/unconnected", "variable not in the factor"); }
}
}
typedef Gm<double, opengm::Adder>::Plain M; typedef Gm<float, opengm::Adder, unsigned int, unsigned char>::Plain F;
VF_SCENARIO(repa_min, 1200, 60000) { repa<M, opengm::Minimizer>(c, c.rng.chance(0.5) ? SMALLINT : REALS); }
VF_SCENARIO(repa_max, 700, 40000) { repa<M, opengm::Maximizer>(c, c.rng.chance(0.5) ? DYADIC : TIES); }
VF_SCENARIO(repa_float, 400, 20000) { repa<F, opengm::Minimizer>(c, SMALLINT); }
