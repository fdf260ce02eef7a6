#include <list>
#include "../C18/common.hpp"
#include <models.hpp>
#include <opengm/functions/constraint_functions/label_order_function.hxx>
#include <opengm/functions/constraint_functions/num_labels_limitation_function.hxx>
#include <opengm/functions/constraint_functions/linear_constraint_function.hxx>
using namespace c18;
namespace {
template<class IV> RefInd refOf(const IV& v) { RefInd y; y.op = v.getLogicalOperatorType() == IV::And ? 0 : v.getLogicalOperatorType() == IV::Or ? 1 : 2; for(typename IV::IteratorType p = v.begin(); p != v.end(); ++p) y.p.push_back(std::make_pair((size_t)p->first, (size_t)p->second)); return y; }
template<class LC> RefCon refOf(const LC& k, int) { RefCon x; typename LC::CoefficientsIteratorType c = k.coefficientsBegin(); for(typename LC::IndicatorVariablesIteratorType i = k.indicatorVariablesBegin(); i != k.indicatorVariablesEnd(); ++i, ++c) { x.v.push_back(refOf(*i)); x.c.push_back(*c); }
   x.bound = k.getBound(); x.rel = k.getConstraintOperator() == LC::LinearConstraintOperatorType::LessEqual ? 0 : k.getConstraintOperator() == LC::LinearConstraintOperatorType::Equal ? 1 : 2; return x; }
// cons: the constraints the description prescribes (only used when given)
template<class F, class VALID> void check(Ctx& c, const F& f, const std::vector<size_t>& sh, VALID valid, double rv, double ri, const std::string& k) {
   typedef typename F::LabelType L; typedef typename F::ValueType T; Rng& r = c.rng;
   VF_CHECK(f.dimension() == sh.size() && (size_t)f.size() == prod(sh), k + "/dimension", f.dimension() << " " << (size_t)f.size());
   for(size_t i = 0; i < sh.size(); ++i) VF_CHECK((size_t)f.shape(i) == sh[i], k + "/shape", i << " " << (size_t)f.shape(i));
   VF_EXPECT(f.isLinearConstraint(), k + "/is-constraint", "");
   std::vector<RefCon> cons; for(typename F::LinearConstraintsIteratorType i = f.linearConstraintsBegin(); i != f.linearConstraintsEnd(); ++i) cons.push_back(refOf(*i, 0));
   std::vector<RefInd> order; for(typename F::IndicatorVariablesIteratorType i = f.indicatorVariablesOrderBegin(); i != f.indicatorVariablesOrderEnd(); ++i) order.push_back(refOf(*i));
   std::vector<std::vector<size_t> > pos(cons.size());
   for(size_t i = 0; i < cons.size(); ++i) for(size_t j = 0; j < cons[i].v.size(); ++j) { size_t p = order.size(), n = 0; for(size_t q = 0; q < order.size(); ++q) if(order[q].key() == cons[i].v[j].key()) { p = q; ++n; } VF_CHECK(n == 1, k + "/order-lists-each-indicator-once", n << " times " << cons[i].v[j].str()); pos[i].push_back(p); }
   std::vector<size_t> t(sh.size(), 0); size_t good = 0, bad = 0;
   do {
      std::vector<L> q(t.begin(), t.end()); const bool ok = valid(t); (ok ? good : bad)++;
      VF_CHECK((double)f(q.begin()) == (ok ? rv : ri) && (double)f(&q[0]) == (ok ? rv : ri), k + "/value", (double)f(q.begin()) << " valid " << ok << " at " << show(t));
      const double tols[] = {0, 1e-6, 0.25, 1, 2}; 
      for(int round = 0; round < 3; ++round) {
         const double tol = round == 0 ? 1e-6 : tols[r.below(5)]; 
         // 0: the labeling, 1: the same point relaxed, 2: a fractional point
         std::vector<double> x; for(size_t i = 0; i < order.size(); ++i) x.push_back(round == 2 ? r.range(0, 8) / 8.0 : order[i].at(t) ? 1 : 0);
         typename F::ViolatedLinearConstraintsIteratorType vb, ve; typename F::ViolatedLinearConstraintsWeightsIteratorType wb; 
         if(round == 0) { if(r.chance(0.5)) f.challenge(vb, ve, wb, q.begin()); else f.challenge(vb, ve, wb, q.begin(), (T)tol); } else f.challengeRelaxed(vb, ve, wb, x.begin(), (T)tol);
         std::vector<std::pair<size_t, double> > want; for(size_t i = 0; i < cons.size(); ++i) { double lhs = 0; for(size_t j = 0; j < pos[i].size(); ++j) lhs += cons[i].c[j] * x[pos[i][j]]; const double w = cons[i].weight(lhs); if(w > tol) want.push_back(std::make_pair(i, w)); }
         // every reported constraint once, with its weight
         std::vector<bool> used(want.size(), false); size_t n = 0;
         for(; vb != ve; ++vb, ++wb, ++n) { const RefCon got = refOf(*vb, 0); bool found = false; for(size_t i = 0; i < want.size() && !found; ++i) if(!used[i] && cons[want[i].first].str() == got.str() && close(want[i].second, (double)*wb, 1e-6, 1e-6)) found = used[i] = true;
            VF_CHECK(found, k + (round == 2 ? "/relaxed-violation" : round ? "/relaxed-integral-violation" : "/violation"), got.str() << " weight " << (double)*wb << " tolerance " << tol << " at " << show(t) << show(x)); }
         VF_CHECK(n == want.size(), k + (round == 2 ? "/relaxed-violated" : round ? "/relaxed-integral-violated" : "/violated"), n << " expected " << want.size() << " tolerance " << tol << " at " << show(t) << show(x));
         c.count("points challenged"); c.count("violated constraints observed", n);
         if(round == 0) VF_CHECK(want.empty() == ok, k + "/constraints-describe-the-valid-labelings", "at " << show(t) << " valid " << ok);
      }
   } while(nextTuple(t, sh));
   c.count(good && bad ? "functions with valid and invalid labelings" : good ? "functions with valid labelings only" : "functions with invalid labelings only");
   const double mn = std::min(rv, ri), mx = std::max(rv, ri); VF_EXPECT((double)f.min() == mn && (double)f.max() == mx && (double)f.minMax().min() == mn && (double)f.minMax().max() == mx, k + "/range", (double)f.min() << " " << (double)f.max());
}
template<class F, class VALID> void checkCopies(Ctx& c, F* f, const std::vector<size_t>& sh, VALID valid, double rv, double ri, const std::string& k) {
   F other(*f); F assigned; assigned = *f; std::vector<F> many(2, *f); many.push_back(other);
   check(c, *f, sh, valid, rv, ri, k); delete f;
   check(c, other, sh, valid, rv, ri, k + "-copied"); check(c, assigned, sh, valid, rv, ri, k + "-assigned"); check(c, many[c.rng.below(many.size())], sh, valid, rv, ri, k + "-stored");
}
struct OrderValid { std::vector<double> o; bool operator()(const std::vector<size_t>& t) const { return o[t[0]] <= o[t[1]]; } };
struct LimitValid { size_t m; bool operator()(const std::vector<size_t>& t) const { return std::set<size_t>(t.begin(), t.end()).size() <= m; } };
struct LinValid { std::vector<RefCon> k; bool operator()(const std::vector<size_t>& t) const { for(size_t i = 0; i < k.size(); ++i) if(k[i].weight(k[i].lhs(t)) > 1e-6) return false; return true; } };
void returns(Rng& r, double& rv, double& ri) { rv = r.chance(0.4) ? 0 : dy(r); ri = r.chance(0.4) ? 1 : dy(r); if(rv == ri) ri += 1; }
template<class T, class I, class L> void order(Ctx& c) {
   typedef opengm::LabelOrderFunction<T, I, L> F; Rng& r = c.rng; std::vector<size_t> sh(2); sh[0] = 1 + r.below(5); sh[1] = 1 + r.below(5); if(r.chance(0.08)) { sh[0] = 1 + r.below(40); sh[1] = 1 + r.below(40); } double rv, ri; returns(r, rv, ri);
   OrderValid v; for(size_t i = 0; i < std::max(sh[0], sh[1]); ++i) v.o.push_back(r.chance(0.3) ? (double)r.range(0, 2) : dy(r));
   std::vector<T> o(v.o.begin(), v.o.end()); c.desc << "order" << show(v.o) << " shape" << show(sh) << " returns " << rv << "," << ri; c.digestV(sh); for(size_t i = 0; i < o.size(); ++i) c.digestD(o[i]);
   F* f; switch(r.below(3)) { case 0: f = new F(sh[0], sh[1], o, rv, ri); break; case 1: f = new F(sh[0], sh[1], o.begin(), rv, ri); break; default: rv = 0; ri = 1; f = new F(sh[0], sh[1], o); }
   checkCopies(c, f, sh, v, rv, ri, "label-order");
}
template<class T, class I, class L> void limit(Ctx& c) {
   typedef opengm::NumLabelsLimitationFunction<T, I, L> F; Rng& r = c.rng; std::vector<size_t> sh(1 + r.below(4)); do for(size_t i = 0; i < sh.size(); ++i) sh[i] = 1 + r.below(4); while(prod(sh) > 128); wideShape(r, sh); const bool same = sh.size() * sh[0] < 40 && r.chance(0.4); if(same) std::fill(sh.begin(), sh.end(), sh[0]);
   double rv, ri; returns(r, rv, ri); LimitValid v; const size_t mx = *std::max_element(sh.begin(), sh.end()); v.m = 1 + r.below(mx);
   c.desc << "limit " << v.m << " shape" << show(sh) << " returns " << rv << "," << ri; c.digestV(sh); c.digest(v.m);
   std::vector<L> s(sh.begin(), sh.end()); F* f; const bool def = r.chance(0.2); if(def) { rv = 0; ri = 1; }
   if(same && r.chance(0.5)) f = def ? new F((I)sh.size(), (L)sh[0], (L)v.m) : new F((I)sh.size(), (L)sh[0], (L)v.m, rv, ri); else f = def ? new F(s.begin(), s.end(), (L)v.m) : new F(s.begin(), s.end(), (L)v.m, rv, ri);
   checkCopies(c, f, sh, v, rv, ri, "label-limit");
}
template<class T, class I, class L> void linear(Ctx& c) {
   typedef opengm::LinearConstraintFunction<T, I, L> F; typedef typename F::LinearConstraintType LC; Rng& r = c.rng; std::vector<size_t> sh(1 + r.below(3)); do for(size_t i = 0; i < sh.size(); ++i) sh[i] = 1 + r.below(4); while(prod(sh) > 64); wideShape(r, sh, 0.05);
   LinValid v; const size_t n = 1 + r.below(4); std::vector<LC> k; for(size_t i = 0; i < n; ++i) { v.k.push_back(randCon(r, sh.size(), sh, 1, 4, 1, 3)); if(r.chance(0.6)) { v.k.back().bound = 1; v.k.back().rel = r.below(2) * 2; } k.push_back(makeCon<LC>(r, v.k.back())); c.desc << v.k.back().str() << " ; "; v.k.back().digest(c); }
   double rv, ri; returns(r, rv, ri); c.desc << "shape" << show(sh); std::vector<L> s(sh.begin(), sh.end()); std::list<LC> li(k.begin(), k.end());
   F* f; switch(r.below(3)) { case 0: f = new F(s.begin(), s.end(), k, rv, ri); break; case 1: f = new F(s.begin(), s.end(), li.begin(), li.end(), rv, ri); break; default: rv = 0; ri = 1; f = new F(s.begin(), s.end(), k); }
   for(size_t i = 0; i < n; ++i) VF_EXPECT(conDiff(*(f->linearConstraintsBegin() + i), v.k[i]).empty(), "linear/keeps-constraints", v.k[i].str());
   checkCopies(c, f, sh, v, rv, ri, "linear");
}
}
VF_SCENARIO(label_order, 150, 6000) { order<double, size_t, size_t>(c); }
VF_SCENARIO(label_order_float, 80, 3000) { order<float, unsigned, unsigned char>(c); }
VF_SCENARIO(label_limit, 150, 6000) { limit<double, size_t, size_t>(c); }
VF_SCENARIO(label_limit_float, 80, 3000) { limit<float, unsigned, unsigned char>(c); }
VF_SCENARIO(linear_constraints, 200, 8000) { linear<double, size_t, size_t>(c); }
VF_SCENARIO(linear_constraints_float, 100, 4000) { linear<float, unsigned, unsigned char>(c); }
