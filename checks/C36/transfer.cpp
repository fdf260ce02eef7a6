#include "../../harness/solvers.hpp"
#include <opengm/inference/auxiliary/lp_functiontransfer.hxx>
using namespace vf; using namespace sv;
namespace {
typedef std::pair<size_t, size_t> VL;
// value of an indicator variable under a labeling of the function's variables
template<class IND> bool isSlack(const IND& v, size_t n) { for(typename IND::IteratorType i = v.begin(); i != v.end(); ++i) if((size_t)i->first >= n) return true; return false; }
template<class IND> double indicate(const IND& v, const std::vector<size_t>& l) {
   const typename IND::LogicalOperatorType op = v.getLogicalOperatorType(); bool all = true, any = false;
   for(typename IND::IteratorType i = v.begin(); i != v.end(); ++i) { const bool on = l[(size_t)i->first] == (size_t)i->second; all = all && on; any = any || on; }
   return op == IND::And ? all : op == IND::Or ? any : !any;
}
template<class F> void transfer(Ctx& c, const F& f, const std::vector<size_t>& sh, const std::vector<double>& tab, const std::string& k, bool useFunctors, double tol) {
   typedef typename F::ValueType T; typedef typename F::IndexType I; typedef typename F::LabelType L; typedef opengm::LPFunctionTransfer<T, I, L> X; typedef typename X::IndicatorVariableType Ind; typedef typename X::LinearConstraintType Con;
   typename X::IndicatorVariablesContainerType order, vars; typename X::SlackVariablesObjectiveCoefficientsContainerType coef; typename X::LinearConstraintsContainerType cons; size_t slack; bool ok;
   if(c.rng.chance(0.5)) { order.resize(3); vars.resize(2); coef.resize(5); cons.resize(4); } // containers may be reused
   if(useFunctors) { // through a factor of a model, as the LP solvers do
      typedef opengm::GraphicalModel<T, opengm::Adder, typename opengm::meta::TypeListGenerator<opengm::ExplicitFunction<T, I, L>, F>::type, opengm::DiscreteSpace<I, L> > GM; std::vector<L> s(sh.begin(), sh.end()); typename GM::SpaceType space(s.begin(), s.end()); GM gm(space);
      typename GM::FunctionIdentifier id = gm.addFunction(f); std::vector<I> vi; for(size_t i = 0; i < sh.size(); ++i) vi.push_back((I)i); gm.addFactor(id, vi.begin(), vi.end());
      typename X::IsTransferableFunctor a; gm[0].callFunctor(a); ok = a.isTransferable_; typename X::NumSlackVariablesFunctor b; gm[0].callFunctor(b); slack = b.numSlackVariables_; typename X::GetSlackVariablesOrderFunctor d; d.order_ = &order; gm[0].callFunctor(d);
      typename X::GetSlackVariablesObjectiveCoefficientsFunctor e; e.coefficients_ = &coef; gm[0].callFunctor(e); typename X::GetIndicatorVariablesFunctor g; g.variables_ = &vars; gm[0].callFunctor(g); typename X::GetLinearConstraintsFunctor h; h.constraints_ = &cons; gm[0].callFunctor(h); c.count("through functors");
   } else { ok = X::template isTransferable<F>(); slack = X::numSlackVariables(f); X::getSlackVariablesOrder(f, order); X::getSlackVariablesObjectiveCoefficients(f, coef); X::getIndicatorVariables(f, vars); X::getLinearConstraints(f, cons); }
   const size_t n = sh.size(); VF_CHECK(ok, k + "/transferable", "not transferable");
   VF_CHECK(order.size() == slack && coef.size() == slack, k + "/slack-count", slack << " slack variables, order " << order.size() << " coefficients " << coef.size());
   std::map<std::pair<size_t, size_t>, size_t> slackIndex; 
   for(size_t i = 0; i < slack; ++i) { VF_CHECK(std::distance(order[i].begin(), order[i].end()) == 1 && (size_t)order[i].begin()->first >= n, k + "/slack-order", "slack variable " << i << " is an indicator of the function's own variables"); VL v(order[i].begin()->first, order[i].begin()->second); VF_CHECK(!slackIndex.count(v), k + "/slack-order", "slack variable listed twice"); slackIndex[v] = i; }
   // every variable used by a constraint or listed as slack is announced, every announced one addresses an existing label
   for(size_t i = 0; i < vars.size(); ++i) for(typename Ind::IteratorType q = vars[i].begin(); q != vars[i].end(); ++q) VF_CHECK(((size_t)q->first < n && (size_t)q->second < sh[(size_t)q->first]) || slackIndex.count(VL(q->first, q->second)), k + "/indicator-range", "indicator of variable " << (size_t)q->first << " label " << (size_t)q->second);
   for(size_t i = 0; i < slack; ++i) VF_CHECK(std::find(vars.begin(), vars.end(), order[i]) != vars.end(), k + "/slack-not-listed", "slack variable " << i << " is not among the indicator variables");
   for(size_t i = 0; i < cons.size(); ++i) for(typename Con::IndicatorVariablesIteratorType q = cons[i].indicatorVariablesBegin(); q != cons[i].indicatorVariablesEnd(); ++q) VF_CHECK(std::find(vars.begin(), vars.end(), *q) != vars.end(), k + "/constraint-variable", "constraint " << i << " uses an unlisted variable");
   // best feasible objective of every labeling
   std::vector<size_t> t(n, 0); size_t at = 0;
   do {
      std::vector<double> lo(slack, 0), hi(slack, 1e300); bool feasible = true;
      for(size_t i = 0; i < cons.size(); ++i) {
         double fixed = 0, a = 0; size_t s = size_t(-1); typename Con::CoefficientsIteratorType w = cons[i].coefficientsBegin();
         for(typename Con::IndicatorVariablesIteratorType q = cons[i].indicatorVariablesBegin(); q != cons[i].indicatorVariablesEnd(); ++q, ++w) { if(isSlack(*q, n)) { const size_t z = slackIndex[VL(q->begin()->first, q->begin()->second)]; VF_CHECK(s == size_t(-1) || s == z, k + "/two-slacks", "constraint " << i << " couples slack variables"); s = z; a += *w; } else fixed += *w * indicate(*q, t); }
         VF_CHECK(w == cons[i].coefficientsEnd(), k + "/coefficients", "constraint " << i);
         const double rhs = (double)cons[i].getBound() - fixed; const int op = (int)cons[i].getConstraintOperator(); const bool le = op == (int)Con::LinearConstraintOperatorType::LessEqual, eq = op == (int)Con::LinearConstraintOperatorType::Equal;
         if(s == size_t(-1) || a == 0) { feasible = feasible && (eq ? std::fabs(rhs) <= tol : le ? rhs >= -tol : rhs <= tol); continue; }
         const double b = rhs / a; const bool upper = (le && a > 0) || (!le && !eq && a < 0); if(eq || upper) hi[s] = std::min(hi[s], b); if(eq || !upper) lo[s] = std::max(lo[s], b);
      }
      double obj = 0; bool bounded = true; for(size_t s = 0; s < slack; ++s) { feasible = feasible && lo[s] <= hi[s] + tol; const double x = coef[s] >= 0 ? lo[s] : hi[s]; if(x > 1e299) bounded = false; else obj += coef[s] * x; }
      VF_CHECK(feasible, k + "/infeasible", "labeling " << vf::show(t) << " has no feasible completion"); VF_CHECK(bounded, k + "/unbounded", "labeling " << vf::show(t));
      VF_CHECK(close(obj, tab[at], tol, tol), k + "/value", "labeling " << vf::show(t) << " costs " << obj << " in the linear program, the function says " << tab[at]);
      ++at; c.count("labelings");
   } while(nextTuple(t, sh));
}
std::vector<size_t> shape(Rng& r, bool same) { std::vector<size_t> sh(1 + r.below(5)); do for(size_t i = 0; i < sh.size(); ++i) sh[i] = 1 + r.below(4); while(prod(sh) > 200); if(same) std::fill(sh.begin(), sh.end(), sh[0]); return sh; }
double dy(Rng& r) { return r.range(-24, 24) / 4.0; }
template<class T, class I, class L> void cost(Ctx& c) {
   typedef opengm::LabelCostFunction<T, I, L> F; Rng& r = c.rng; const bool same = r.chance(0.5); std::vector<size_t> sh = shape(r, same); const size_t mx = *std::max_element(sh.begin(), sh.end()); const bool single = r.chance(0.4);
   std::vector<T> co(mx, T(0)); const size_t lab = r.below(mx); for(size_t i = 0; i < mx; ++i) if(!single || i == lab) co[i] = r.chance(0.3) ? 0 : dy(r);
   std::vector<double> tab; std::vector<size_t> t(sh.size(), 0); do { std::set<size_t> u(t.begin(), t.end()); double s = 0; for(std::set<size_t>::iterator i = u.begin(); i != u.end(); ++i) s += co[*i]; tab.push_back(s); } while(nextTuple(t, sh));
   c.desc << "costs" << vf::show(co) << " shape" << vf::show(sh) << (single ? " single" : ""); c.digestV(sh); for(size_t i = 0; i < mx; ++i) c.digestD(co[i]); std::vector<L> s(sh.begin(), sh.end());
   const bool counted = same && r.chance(0.6);
   const F f = counted ? (single ? F((I)sh.size(), (L)sh[0], (L)lab, co[lab]) : F((I)sh.size(), (L)sh[0], co.begin(), co.end())) : (single ? F(s.begin(), s.end(), (L)lab, co[lab]) : F(s.begin(), s.end(), co.begin(), co.end()));
   transfer(c, f, sh, tab, "label-cost", r.chance(0.5), 1e-6);
}
template<class T, class I, class L> void sum(Ctx& c) {
   typedef opengm::SumConstraintFunction<T, I, L> F; Rng& r = c.rng; const bool same = r.chance(0.5), share = r.chance(0.5); std::vector<size_t> sh = shape(r, same); const size_t mx = *std::max_element(sh.begin(), sh.end()); size_t n = 0; for(size_t i = 0; i < sh.size(); ++i) n += sh[i];
   std::vector<T> co(share ? mx : n); for(size_t i = 0; i < co.size(); ++i) co[i] = r.chance(0.2) ? 0 : dy(r); const double lambda = r.chance(0.2) ? 0 : std::fabs(dy(r)), bound = dy(r);
   std::vector<double> tab; std::vector<size_t> t(sh.size(), 0); do { double v = 0; size_t off = 0; for(size_t i = 0; i < sh.size(); ++i) { v += co[share ? t[i] : off + t[i]]; off += sh[i]; } tab.push_back(std::fabs(v - bound) * lambda); } while(nextTuple(t, sh));
   c.desc << "coefficients" << vf::show(co) << " shape" << vf::show(sh) << (share ? " shared" : "") << " lambda " << lambda << " bound " << bound; c.digestV(sh); for(size_t i = 0; i < co.size(); ++i) c.digestD(co[i]); c.digestD(bound); std::vector<L> s(sh.begin(), sh.end());
   const F f = same && r.chance(0.6) ? F((I)sh.size(), (L)sh[0], co.begin(), co.end(), share, (T)lambda, (T)bound) : F(s.begin(), s.end(), co.begin(), co.end(), share, (T)lambda, (T)bound);
   transfer(c, f, sh, tab, "label-sum", r.chance(0.5), 1e-5);
}
void unsupported(Ctx& c) {
   typedef opengm::LPFunctionTransfer<double> X; Rng& r = c.rng; X::IndicatorVariablesContainerType v; X::SlackVariablesObjectiveCoefficientsContainerType co; X::LinearConstraintsContainerType k; const size_t l = 1 + r.below(4); c.digest(l); c.digest(r.s); c.desc << "potts " << l;
   opengm::PottsFunction<double> p(l, l, 0.0, (double)r.range(1, 9)); std::vector<size_t> sh(2, l); opengm::ExplicitFunction<double> e(sh.begin(), sh.end(), 1.0);
   VF_CHECK(!X::isTransferable<opengm::PottsFunction<double> >() && !X::isTransferable<opengm::ExplicitFunction<double> >(), "unsupported/transferable", "claims to transfer");
   VF_MUST_THROW(X::numSlackVariables(p), "unsupported/slack", "no exception"); VF_MUST_THROW(X::getSlackVariablesOrder(e, v), "unsupported/order", "no exception"); VF_MUST_THROW(X::getSlackVariablesObjectiveCoefficients(p, co), "unsupported/coefficients", "no exception"); VF_MUST_THROW(X::getIndicatorVariables(e, v), "unsupported/variables", "no exception"); VF_MUST_THROW(X::getLinearConstraints(p, k), "unsupported/constraints", "no exception");
}
}
VF_SCENARIO(label_cost, 800, 60000) { cost<double, size_t, size_t>(c); }
VF_SCENARIO(label_cost_float, 300, 20000) { cost<float, unsigned, unsigned char>(c); }
VF_SCENARIO(label_sum, 800, 60000) { sum<double, size_t, size_t>(c); }
VF_SCENARIO(label_sum_float, 300, 20000) { sum<float, unsigned, unsigned char>(c); }
VF_SCENARIO(not_transferable, 10, 100) { unsupported(c); }
