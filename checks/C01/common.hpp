#pragma once
#include <functions.hpp>
#include <list>
#include <deque>
namespace vf {
template<class T> inline bool same(T a, double b) { return (double)a == b || close((double)a, b, 1e-6, 1e-6); }

// maxNumberOfLabels() only compiles when index and label type coincide
template<class GM, bool S = std::is_same<typename GM::IndexType, typename GM::LabelType>::value> struct MaxLabels { static size_t get(const GM& gm, size_t) { return gm.maxNumberOfLabels(); } };
template<class GM> struct MaxLabels<GM, false> { static size_t get(const GM&, size_t d) { return d; } };
// generic checks of one model against the reference tables
template<class GM> void checkFactors(Ctx& c, const GM& gm, const RefModel& m, const std::string& tag) {
   typedef typename GM::LabelType L;
   VF_CHECK(gm.numberOfVariables() == m.labels.size(), tag + "/nvars", "number of variables " << gm.numberOfVariables());
   VF_CHECK(gm.numberOfFactors() == m.f.size(), tag + "/nfactors", "number of factors " << gm.numberOfFactors());
   size_t order = 0, mx = 0;
   for(size_t i = 0; i < m.labels.size(); ++i) { VF_CHECK(gm.numberOfLabels(i) == m.labels[i], tag + "/labels", "labels of variable " << i << ": " << gm.numberOfLabels(i)); VF_EXPECT(gm.space().numberOfLabels(i) == m.labels[i], tag + "/spacelabels", "space labels of variable " << i); mx = std::max(mx, m.labels[i]); }
   if(!m.labels.empty()) VF_EXPECT(MaxLabels<GM>::get(gm, mx) == mx, tag + "/maxlabels", "maxNumberOfLabels " << (size_t)MaxLabels<GM>::get(gm, mx) << " expected " << mx);
   for(size_t i = 0; i < m.f.size(); ++i) {
      const typename GM::FactorType& f = gm[i];
      const std::vector<size_t> sh = m.shape(i), & v = m.f[i].vars;
      order = std::max(order, v.size());
      VF_CHECK(f.numberOfVariables() == v.size() && f.dimension() == v.size() && gm.numberOfVariables(i) == v.size(), tag + "/order", "factor " << i << " order " << f.numberOfVariables());
      VF_CHECK(f.size() == prod(sh), tag + "/size", "factor " << i << " size " << f.size());
      std::vector<size_t> vi(v.size()); f.variableIndices(vi.begin());
      VF_CHECK(vi == v, tag + "/scope", "factor " << i << " scope " << show(vi));
      VF_CHECK(toSize(std::vector<size_t>(f.variableIndicesBegin(), f.variableIndicesEnd())) == v, tag + "/scopeiter", "factor " << i << " variableIndicesBegin..End");
      std::vector<size_t> shp(f.shapeBegin(), f.shapeEnd());
      VF_CHECK(shp == sh, tag + "/shape", "factor " << i << " shape " << show(shp) << " expected " << show(sh));
      for(size_t k = 0; k < v.size(); ++k) {
         VF_CHECK(f.variableIndex(k) == v[k] && gm.variableOfFactor(i, k) == v[k], tag + "/var", "factor " << i << " variable " << k);
         VF_CHECK(f.numberOfLabels(k) == sh[k] && f.shape(k) == sh[k], tag + "/flabels", "factor " << i << " labels of " << k << " is " << f.numberOfLabels(k));
      }
      std::vector<size_t> t(sh.size(), 0); size_t k = 0;
      const size_t how = c.rng.below(4);
      do {
         double got;
         if(how == 0) { std::vector<L> q(t.begin(), t.end()); q.push_back(0); got = (double)f(q.begin()); }
         else if(how == 1) { L q[16] = {0}; for(size_t j = 0; j < t.size(); ++j) q[j] = t[j]; const L* p = q; got = (double)f(p); }
         else if(how == 2) { std::vector<size_t> q(t); q.push_back(0); got = (double)f(q.begin()); }
         else { std::deque<int> q(t.begin(), t.end()); q.push_back(0); got = (double)f(q.begin()); }
         VF_CHECK(same(got, m.f[i].tab[k]), tag + "/value", "factor " << i << " at " << show(t) << " is " << got << " expected " << m.f[i].tab[k]);
         ++k;
      } while(nextTuple(t, sh));
      // copies of the whole table, both orders
      std::vector<typename GM::ValueType> buf(prod(sh) + 1, typename GM::ValueType(77));
      f.copyValues(buf.begin());
      for(size_t j = 0; j < prod(sh); ++j) VF_CHECK(same(buf[j], m.f[i].tab[j]), tag + "/copyValues", "factor " << i << " copyValues[" << j << "]=" << (double)buf[j]);
      VF_CHECK(buf[prod(sh)] == typename GM::ValueType(77), tag + "/copyValuesEnd", "copyValues wrote past the table");
      std::fill(buf.begin(), buf.end(), typename GM::ValueType(77));
      f.copyValuesSwitchedOrder(buf.begin());
      { std::vector<size_t> rs(sh.rbegin(), sh.rend()), rt(sh.size(), 0); size_t j = 0;
        do { std::vector<size_t> o(rt.rbegin(), rt.rend()); size_t idx = 0, st = 1; for(size_t q = 0; q < o.size(); ++q) { idx += st * o[q]; st *= sh[q]; }
           VF_CHECK(same(buf[j], m.f[i].tab[idx]), tag + "/copySwitched", "factor " << i << " copyValuesSwitchedOrder[" << j << "]=" << (double)buf[j] << " expected " << m.f[i].tab[idx]); ++j; } while(nextTuple(rt, rs)); }
      c.count("factors compared");
   }
   VF_EXPECT(gm.factorOrder() == order && gm.maxFactorOrder() == order, tag + "/factorOrder", "factorOrder " << gm.factorOrder() << " maxFactorOrder " << gm.maxFactorOrder() << " expected " << order);
}
enum EvalOp { E_SUM, E_PROD, E_MIN, E_MAX };
template<class GM> void checkEvaluate(Ctx& c, const GM& gm, const RefModel& m, EvalOp op, const std::string& tag, size_t maxLab = 600) {
   typedef typename GM::LabelType L;
   std::vector<size_t> l(m.labels.size(), 0);
   const bool all = m.configs() <= maxLab;
   size_t n = 0;
   for(;;) {
      if(!all) for(size_t i = 0; i < l.size(); ++i) l[i] = c.rng.below(m.labels[i]);
      double e = op == E_SUM ? 0 : op == E_PROD ? 1 : op == E_MIN ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
      for(size_t i = 0; i < m.f.size(); ++i) { double x = m.at(i, l); if(op == E_SUM) e += x; else if(op == E_PROD) e *= x; else if(op == E_MIN) e = std::min(e, x); else e = std::max(e, x); }
      if(!m.f.empty() || op == E_SUM || op == E_PROD) {
         std::vector<L> q(l.begin(), l.end());
         double g = (double)gm.evaluate(q.begin());
         VF_CHECK(same(g, e), tag + "/evaluate", "evaluate" << show(l) << " is " << g << " expected " << e);
         if(n % 7 == 0) { std::vector<size_t> q2(l); double g2 = (double)gm.evaluate(q2); VF_CHECK(g2 == g, tag + "/evaluateVector", "evaluate(vector) differs: " << g2 << " vs " << g);
            std::deque<unsigned short> q3(l.begin(), l.end()); double g3 = (double)gm.evaluate(q3.begin()); VF_CHECK(g3 == g, tag + "/evaluateDeque", "evaluate(deque iterator) differs"); }
      }
      c.count("labelings evaluated");
      ++n;
      if(all) { if(!nextTuple(l, m.labels)) break; } else if(n >= maxLab) break;
   }
}
inline Style styleFor(Rng& r, EvalOp op) { return op == E_PROD ? POW2 : sumStyle(r); }
inline void note(Ctx& c, const MixedModel& m) { c.desc << m.str().substr(0, 500); m.ref.digest(c); for(size_t i = 0; i < m.fn.size(); ++i) { c.digest(m.fn[i].kind); } if(m.ref.f.empty()) c.trivial(); }
template<class GM> void runMixed(Ctx& c, EvalOp op, const std::string& tag, const std::vector<FnKind>* kinds = 0, size_t maxV = 6, size_t maxF = 9) {
   MixedModel m = randMixed(c.rng, 0, maxV, 1, 5, 4, maxF, styleFor(c.rng, op), 0.12, false, 1500, kinds);
   note(c, m);
   GM gm = buildMixed<GM>(c.rng, m);
   if(c.rng.chance(0.2)) { GM g2(gm); checkEvaluate(c, g2, m.ref, op, tag + "/copy", 40); }
   checkFactors(c, gm, m.ref, tag);
   checkEvaluate(c, gm, m.ref, op, tag);
}
}
