// Reference models (plain tables, independent of the library) and generators.
#pragma once
#include "vf.hpp"

namespace vf {

struct RefFactor { std::vector<size_t> vars; std::vector<double> tab; };  // first variable fastest
enum Op { SUM, PROD };

struct RefModel {
   std::vector<size_t> labels;
   std::vector<RefFactor> f;
   std::vector<size_t> shape(size_t i) const { std::vector<size_t> s; for(size_t k = 0; k < f[i].vars.size(); ++k) s.push_back(labels[f[i].vars[k]]); return s; }
   double at(size_t i, const std::vector<size_t>& l) const {
      size_t idx = 0, st = 1;
      for(size_t k = 0; k < f[i].vars.size(); ++k) { idx += st * l[f[i].vars[k]]; st *= labels[f[i].vars[k]]; }
      return f[i].tab[idx];
   }
   double eval(const std::vector<size_t>& l, Op op = SUM) const {
      double v = op == SUM ? 0.0 : 1.0;
      for(size_t i = 0; i < f.size(); ++i) { if(op == SUM) v += at(i, l); else v *= at(i, l); }
      return v;
   }
   size_t configs() const { size_t p = 1; for(size_t i = 0; i < labels.size(); ++i) { p *= labels[i]; if(p > (size_t(1) << 40)) return p; } return p; }
   // optimum by exhaustive enumeration
   double best(bool maximize, Op op = SUM, std::vector<size_t>* arg = 0, size_t* nOpt = 0) const {
      std::vector<size_t> l(labels.size(), 0); bool first = true; double b = 0; size_t n = 0;
      do {
         double v = eval(l, op);
         if(first || (maximize ? v > b : v < b)) { b = v; n = 1; if(arg) *arg = l; first = false; }
         else if(v == b) ++n;
      } while(nextTuple(l, labels));
      if(nOpt) *nOpt = n;
      return b;
   }
   std::vector<double> allValues(Op op = SUM) const {
      std::vector<double> r; std::vector<size_t> l(labels.size(), 0);
      do r.push_back(eval(l, op)); while(nextTuple(l, labels));
      return r;
   }
   std::string str() const {
      std::ostringstream o; o << "labels" << show(labels);
      for(size_t i = 0; i < f.size(); ++i) o << " f" << show(f[i].vars) << "=" << show(f[i].tab);
      return o.str();
   }
   std::string brief() const {
      std::ostringstream o; o << "labels" << show(labels) << " scopes";
      for(size_t i = 0; i < f.size(); ++i) o << show(f[i].vars);
      return o.str();
   }
   void digest(Ctx& c) const {
      c.digestV(labels);
      for(size_t i = 0; i < f.size(); ++i) { c.digestV(f[i].vars); for(size_t k = 0; k < f[i].tab.size(); ++k) c.digestD(f[i].tab[k]); }
   }
};

// value styles
enum Style { SMALLINT, DYADIC, TIES, POSDYADIC, POW2, REALS, POSREAL };
inline double drawValue(Rng& r, Style s) {
   switch(s) {
   case SMALLINT: return (double)r.range(-9, 9);
   case DYADIC: return r.range(-64, 64) / 8.0;
   case TIES: return (double)r.range(0, 2);
   case POSDYADIC: return r.range(1, 64) / 8.0;
   case POW2: return std::ldexp(1.0, (int)r.range(-2, 2));
   case REALS: return (r.unit() - 0.5) * 10.0;
   case POSREAL: return 0.05 + r.unit() * 2.0;
   }
   return 0;
}
inline Style sumStyle(Rng& r) { const Style s[4] = {SMALLINT, DYADIC, TIES, DYADIC}; return s[r.below(4)]; }

inline std::vector<size_t> randLabels(Rng& r, size_t n, size_t lo, size_t hi) {
   std::vector<size_t> l(n); for(size_t i = 0; i < n; ++i) l[i] = lo + r.below(hi - lo + 1); return l;
}
inline std::vector<size_t> randScope(Rng& r, size_t nVars, size_t k) {
   std::vector<size_t> a(nVars); std::iota(a.begin(), a.end(), size_t(0)); r.shuffle(a); a.resize(std::min(k, nVars)); std::sort(a.begin(), a.end()); return a;
}
inline void addRandFactor(Rng& r, RefModel& m, const std::vector<size_t>& vars, Style s) {
   RefFactor f; f.vars = vars; std::sort(f.vars.begin(), f.vars.end());
   size_t n = 1; for(size_t i = 0; i < f.vars.size(); ++i) n *= m.labels[f.vars[i]];
   for(size_t i = 0; i < n; ++i) f.tab.push_back(drawValue(r, s));
   m.f.push_back(f);
}

// Share of the random models of unlimited order that get many variables and
// factors of up to eight variables instead (a check opts in with VF_WIDE).
inline double& wideShare() { static double p = 0; return p; }
struct Wide { explicit Wide(double p) { wideShare() = p; } };
#define VF_WIDE(p) namespace { const vf::Wide vfWide(p); }
inline void widen(Rng& r, size_t& minV, size_t& maxV, size_t minL, size_t& maxL, size_t& maxOrder) {
   if(wideShare() <= 0 || maxOrder < 3 || !r.chance(wideShare())) return;
   maxV = std::max(maxV, size_t(9)); minV = std::max(minV, size_t(6)); maxL = std::max(minL, std::min(maxL, size_t(2))); maxOrder = 8;
}

// now and then a shape of many variables, or of many labels
inline void wideShape(Rng& r, std::vector<size_t>& sh, double p = 0.08) {
   if(!r.chance(p)) return;
   if(r.chance(0.5)) sh = randLabels(r, 5 + r.below(4), 1, 2); else { sh = randLabels(r, 1 + r.below(2), 1, 8); sh[r.below(sh.size())] = 9 + r.below(60); }
}

// arbitrary model: any arity up to maxOrder; parallel factors and constants possible
inline RefModel randModel(Rng& r, size_t minV, size_t maxV, size_t minL, size_t maxL, size_t maxOrder, size_t minF, size_t maxF, Style s, double pConst = 0.1, size_t maxConfigs = 4096) {
   RefModel m; widen(r, minV, maxV, minL, maxL, maxOrder);
   for(;;) { m.labels = randLabels(r, minV + r.below(maxV - minV + 1), minL, maxL); if(m.configs() <= maxConfigs) break; }
   if(r.chance(0.3)) { size_t k = std::min(std::max(minL, size_t(2)), maxL); if(r.chance(0.5)) for(size_t i = 0; i < m.labels.size(); ++i) m.labels[i] = k; }
   const size_t nf = minF + r.below(maxF - minF + 1);
   for(size_t i = 0; i < nf; ++i) {
      size_t k = r.chance(pConst) ? 0 : 1 + r.below(maxOrder);
      if(i > 0 && r.chance(0.1)) addRandFactor(r, m, m.f[r.below(m.f.size())].vars, s);
      else addRandFactor(r, m, randScope(r, m.labels.size(), k), s);
   }
   return m;
}

// random tree edges over n nodes (or forest with probability pCut per node)
inline std::vector<std::pair<size_t,size_t> > randForest(Rng& r, size_t n, double pCut = 0.0) {
   std::vector<size_t> perm(n); std::iota(perm.begin(), perm.end(), size_t(0)); r.shuffle(perm);
   std::vector<std::pair<size_t,size_t> > e;
   const size_t style = r.below(3);
   for(size_t i = 1; i < n; ++i) {
      if(r.chance(pCut)) continue;
      size_t p = style == 0 ? i - 1 : style == 1 ? 0 : r.below(i);
      size_t a = perm[i], b = perm[p]; if(a > b) std::swap(a, b);
      e.push_back(std::make_pair(a, b));
   }
   r.shuffle(e);
   return e;
}

inline RefModel randTreeModel(Rng& r, size_t minV, size_t maxV, size_t minL, size_t maxL, Style s, double pCut, double pUnary, double pSecondUnary = 0.15, size_t maxConfigs = 20000) {
   RefModel m;
   do m.labels = randLabels(r, minV + r.below(maxV - minV + 1), minL, maxL); while(m.configs() > maxConfigs);
   std::vector<std::pair<size_t,size_t> > e = randForest(r, m.labels.size(), pCut);
   std::vector<std::vector<size_t> > sc;
   for(size_t i = 0; i < e.size(); ++i) { std::vector<size_t> v(2); v[0] = e[i].first; v[1] = e[i].second; sc.push_back(v); }
   for(size_t i = 0; i < m.labels.size(); ++i) { if(r.chance(pUnary)) sc.push_back(std::vector<size_t>(1, i)); if(r.chance(pSecondUnary)) sc.push_back(std::vector<size_t>(1, i)); }
   if(r.chance(0.7)) r.shuffle(sc);
   for(size_t i = 0; i < sc.size(); ++i) addRandFactor(r, m, sc[i], s);
   return m;
}

// factor-graph-acyclic model with higher-order factors
inline RefModel randHyperTreeModel(Rng& r, size_t maxV, size_t maxL, size_t maxOrder, Style s, size_t maxConfigs = 20000) {
   RefModel m; 
   std::vector<std::vector<size_t> > sc; 
   do {
      sc.clear(); m.labels.clear();
      size_t n = 2 + r.below(maxV - 1);
      m.labels = randLabels(r, n, r.chance(0.2) ? 1 : 2, maxL);
      std::vector<size_t> perm(n); std::iota(perm.begin(), perm.end(), size_t(0)); r.shuffle(perm);
      size_t used = 1;
      while(used < n) {
         size_t k = 1 + r.below(maxOrder - 1); k = std::min(k, n - used);
         std::vector<size_t> v; 
         if(!r.chance(0.1)) v.push_back(perm[r.below(used)]);
         for(size_t i = 0; i < k; ++i) v.push_back(perm[used + i]);
         used += k; std::sort(v.begin(), v.end()); sc.push_back(v);
      }
      for(size_t i = 0; i < n; ++i) if(r.chance(0.6)) sc.push_back(std::vector<size_t>(1, i));
   } while(m.configs() > maxConfigs);
   r.shuffle(sc);
   for(size_t i = 0; i < sc.size(); ++i) addRandFactor(r, m, sc[i], s);
   return m;
}

// pairwise model on a random graph
inline RefModel randPairwise(Rng& r, size_t minV, size_t maxV, size_t minL, size_t maxL, double pEdge, double pUnary, Style s, size_t maxConfigs = 4096, bool sameLabels = false) {
   RefModel m;
   do { m.labels = randLabels(r, minV + r.below(maxV - minV + 1), minL, maxL); if(sameLabels) std::fill(m.labels.begin(), m.labels.end(), m.labels[0]); } while(m.configs() > maxConfigs);
   std::vector<std::vector<size_t> > sc; const size_t n = m.labels.size();
   for(size_t i = 0; i < n; ++i) if(r.chance(pUnary)) sc.push_back(std::vector<size_t>(1, i));
   for(size_t i = 0; i < n; ++i) for(size_t j = i + 1; j < n; ++j) if(r.chance(pEdge)) { std::vector<size_t> v(2); v[0] = i; v[1] = j; sc.push_back(v); }
   if(r.chance(0.5)) r.shuffle(sc);
   for(size_t i = 0; i < sc.size(); ++i) addRandFactor(r, m, sc[i], s);
   return m;
}
inline RefModel gridModel(Rng& r, size_t h, size_t w, size_t lo, size_t hi, Style s, double pUnary = 1.0) {
   RefModel m; m.labels = randLabels(r, h * w, lo, hi);
   for(size_t i = 0; i < h * w; ++i) if(r.chance(pUnary)) addRandFactor(r, m, std::vector<size_t>(1, i), s);
   for(size_t y = 0; y < h; ++y) for(size_t x = 0; x < w; ++x) {
      std::vector<size_t> v(2); v[0] = y * w + x;
      if(x + 1 < w) { v[1] = v[0] + 1; addRandFactor(r, m, v, s); }
      if(y + 1 < h) { v[1] = v[0] + w; addRandFactor(r, m, v, s); }
   }
   return m;
}
// renames the variables of a model by a random permutation
inline RefModel permuted(Rng& r, const RefModel& m) {
   std::vector<size_t> p(m.labels.size()); std::iota(p.begin(), p.end(), size_t(0)); r.shuffle(p);
   RefModel q; q.labels.resize(p.size());
   for(size_t i = 0; i < p.size(); ++i) q.labels[p[i]] = m.labels[i];
   for(size_t i = 0; i < m.f.size(); ++i) {
      const RefFactor& f = m.f[i]; RefFactor g;
      std::vector<std::pair<size_t,size_t> > o; for(size_t k = 0; k < f.vars.size(); ++k) o.push_back(std::make_pair(p[f.vars[k]], k));
      std::sort(o.begin(), o.end());
      for(size_t k = 0; k < o.size(); ++k) g.vars.push_back(o[k].first);
      std::vector<size_t> sh; for(size_t k = 0; k < o.size(); ++k) sh.push_back(q.labels[o[k].first]);
      std::vector<size_t> t(o.size(), 0);
      do { size_t idx = 0; std::vector<size_t> old(o.size()); for(size_t k = 0; k < o.size(); ++k) old[o[k].second] = t[k];
         size_t st = 1; for(size_t k = 0; k < old.size(); ++k) { idx += st * old[k]; st *= m.labels[f.vars[k]]; }
         g.tab.push_back(f.tab[idx]); } while(nextTuple(t, sh));
      q.f.push_back(g);
   }
   r.shuffle(q.f);
   return q;
}

// min-marginal / sum-marginal by enumeration, over the given variables (first fastest)
inline std::vector<double> marginalRef(const RefModel& m, const std::vector<size_t>& vars, Op op, int acc /*0 min,1 max,2 sum*/) {
   std::vector<size_t> sh; for(size_t k = 0; k < vars.size(); ++k) sh.push_back(m.labels[vars[k]]);
   std::vector<double> r(prod(sh), acc == 2 ? 0.0 : acc == 0 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity());
   std::vector<size_t> l(m.labels.size(), 0);
   do {
      size_t idx = 0, st = 1; for(size_t k = 0; k < vars.size(); ++k) { idx += st * l[vars[k]]; st *= sh[k]; }
      double v = m.eval(l, op);
      if(acc == 0) r[idx] = std::min(r[idx], v); else if(acc == 1) r[idx] = std::max(r[idx], v); else r[idx] += v;
   } while(nextTuple(l, m.labels));
   return r;
}

} // namespace vf
