// C44: shared function objects queried by several threads
#include <list>
#include "threads.hpp"
#include "functions.hpp"
#include "../C18/common.hpp"
#include "../C09/common.hpp"
#include <opengm/functions/constraint_functions/label_order_function.hxx>
#include <opengm/functions/constraint_functions/num_labels_limitation_function.hxx>
#include <opengm/functions/constraint_functions/linear_constraint_function.hxx>
#include <opengm/functions/soft_constraint_functions/label_cost_function.hxx>
#include <opengm/functions/soft_constraint_functions/sum_constraint_function.hxx>
#include <opengm/functions/fieldofexperts.hxx>
using namespace c44;
namespace {
double dy(Rng& r) { return r.range(-16, 16) / 4.0; }
template<class F> void more(const F&, Rng&, Seen&, long) {}
template<class F> auto more(const F& f, Rng& r, Seen& s, int) -> decltype(f.linearConstraintsBegin(), void()) { // the description of a constraint
   s(f.isLinearConstraint()); for(typename F::LinearConstraintsIteratorType i = f.linearConstraintsBegin(); i != f.linearConstraintsEnd(); ++i) { s((double)i->getBound()); for(typename F::LinearConstraintType::CoefficientsIteratorType k = i->coefficientsBegin(); k != i->coefficientsEnd(); ++k) s((double)*k); }
   size_t n = 0; for(typename F::IndicatorVariablesIteratorType i = f.indicatorVariablesOrderBegin(); i != f.indicatorVariablesOrderEnd(); ++i) ++n; s(n); s.end("constraints"); }
template<class F> void grad(const F&, Rng&, Seen&, long) {}
template<class F> auto grad(const F& f, Rng& r, Seen& s, int) -> decltype(f.numberOfWeights(), void()) { std::vector<size_t> q; for(size_t i = 0; i < f.dimension(); ++i) q.push_back(r.below(f.shape(i))); for(size_t k = 0; k < f.numberOfWeights(); ++k) { s(f.weightIndex(k)); s((double)f.weightGradient(k, q.begin())); } s.end("gradient"); }
template<class F> struct Job { const F& f; size_t n; bool wide; void operator()(Rng& r, Seen& s, const std::function<void()>& at) const { for(size_t k = 0; k < n; ++k) { at(); switch(r.below(6)) { case 0: { F g(f); query(g, r, s, wide); break; } case 1: more(f, r, s, 0); break; case 2: grad(f, r, s, 0); break; default: query(f, r, s, wide); } } } };
struct Shared { Ctx& c; std::string tag; bool wide; template<class F> void operator()(const F& f) { Job<F> j = {f, 3 + c.rng.below(10), wide}; together(c, 2 + c.rng.below(3), j, tag); } };
std::vector<size_t> shape(Rng& r, size_t minD, size_t maxD, size_t maxL, size_t maxN) { std::vector<size_t> s(minD + r.below(maxD - minD + 1)); do for(size_t i = 0; i < s.size(); ++i) s[i] = 1 + r.below(maxL); while(prod(s) > maxN); return s; }
}
VF_SCENARIO(library_functions, 400, 20000) {
   const size_t d = 1 + c.rng.below(4); const FnKind k = randKind(c.rng, d); std::vector<size_t> sh; do sh = shape(c.rng, d, d, 4, 128); while(false); const FnSpec f = randSpec(c.rng, k, sh, TIES); c.desc << f.str(); c.digestV(sh); Shared v = {c, fnName(k), true}; withFunction<double, size_t, size_t>(f, v); }
VF_SCENARIO(constraints, 250, 12000) {
   Rng& r = c.rng; double rv = dy(r), ri = rv + 1;
   switch(r.below(5)) {
   case 0: { typedef opengm::LabelOrderFunction<double, size_t, size_t> F; const size_t a = 1 + r.below(4), b = 1 + r.below(4); std::vector<double> o; for(size_t i = 0; i < std::max(a, b); ++i) o.push_back(dy(r)); c.desc << "order" << show(o); c.digest(a); c.digest(b); F f(a, b, o, rv, ri); Shared v = {c, "label-order", true}; v(f); break; }
   case 1: { typedef opengm::NumLabelsLimitationFunction<double, size_t, size_t> F; const std::vector<size_t> s = shape(r, 1, 4, 4, 128); c.desc << "limit" << show(s); c.digestV(s); F f(s.begin(), s.end(), 1 + r.below(*std::max_element(s.begin(), s.end())), rv, ri); Shared v = {c, "label-limit", true}; v(f); break; }
   case 2: { typedef opengm::LinearConstraintFunction<double, size_t, size_t> F; typedef F::LinearConstraintType LC; const std::vector<size_t> s = shape(r, 1, 3, 4, 64); std::vector<LC> k; for(size_t n = 1 + r.below(4); n-- > 0;) { const c18::RefCon x = c18::randCon(r, s.size(), s, 1, 4, 1, 3); c.desc << x.str() << " ; "; x.digest(c); k.push_back(c18::makeCon<LC>(r, x)); } F f(s.begin(), s.end(), k, rv, ri); Shared v = {c, "linear", true}; v(f); break; }
   case 3: { typedef opengm::LabelCostFunction<double, size_t, size_t> F; const std::vector<size_t> s = shape(r, 1, 4, 4, 128); std::vector<double> k; for(size_t i = 0; i < *std::max_element(s.begin(), s.end()); ++i) k.push_back(dy(r)); c.desc << "cost" << show(s) << show(k); c.digestV(s); F f(s.begin(), s.end(), k.begin(), k.end()); Shared v = {c, "label-cost", true}; v(f); break; }
   default: { typedef opengm::SumConstraintFunction<double, size_t, size_t> F; const std::vector<size_t> s = shape(r, 1, 4, 4, 128); std::vector<double> k; for(size_t i = 0; i < *std::max_element(s.begin(), s.end()); ++i) k.push_back(dy(r)); c.desc << "sum" << show(s) << show(k); c.digestV(s); F f(s.begin(), s.end(), k.begin(), k.end(), true, 1.5, dy(r)); Shared v = {c, "label-sum", true}; v(f); } } }
VF_SCENARIO(learnable, 150, 8000) {
   const size_t nw = 1 + c.rng.below(5); opengm::learning::Weights<double> w(nw); for(size_t i = 0; i < nw; ++i) w.setWeight(i, dy(c.rng)); const int kind = (int)c.rng.below(4); std::vector<size_t> sh(kind == 0 ? 2 : kind < 3 ? 1 : 1 + c.rng.below(3)); for(size_t i = 0; i < sh.size(); ++i) sh[i] = 1 + c.rng.below(4); if(kind == 0) sh[1] = sh[0];
   const c09::Spec s = c09::randSpec(c.rng, nw, kind, sh); c.desc << s.str(); c.digestV(sh); Shared v = {c, "learnable", false}; c09::withFunction<double, size_t, size_t>(s, w, v); }
VF_SCENARIO(experts, 60, 3000) {
   typedef opengm::FoEFunction<double, size_t, size_t> F; Rng& r = c.rng; const size_t d = 1 + r.below(3), e = 1 + r.below(3), L = 2 + r.below(3); std::vector<double> ex, al; for(size_t i = 0; i < d * e; ++i) ex.push_back(dy(r)); for(size_t i = 0; i < e; ++i) al.push_back(dy(r)); c.desc << "FoE " << d << " " << e << " " << L << show(ex) << show(al); c.digest(d); c.digest(e); for(size_t i = 0; i < ex.size(); ++i) c.digestD(ex[i]);
   F f(ex.begin(), al.begin(), L, d, e); Shared v = {c, "experts", false}; v(f); }
namespace {
// one thread asks which constraints its labeling violates; another one asks about a second labeling before the first reads the answer (a handshake orders all accesses)
template<class F> struct Ask { std::vector<std::pair<size_t, double> > got; typename F::ViolatedLinearConstraintsIteratorType b, e; typename F::ViolatedLinearConstraintsWeightsIteratorType w;
   void ask(const F& f, const std::vector<size_t>& l) { f.challenge(b, e, w, l.begin(), typename F::ValueType(1e-6)); }
   void read(const F& f) { for(; b != e; ++b, ++w) { size_t id = 0; for(typename F::LinearConstraintsIteratorType i = f.linearConstraintsBegin(); i != f.linearConstraintsEnd() && &*i != &*b; ++i) ++id; got.push_back(std::make_pair(id, (double)*w)); } } };
template<class F> void twoCallers(Ctx& c, const F& f, const std::vector<size_t>& x, const std::vector<size_t>& y, const std::string& tag) {
   Ask<F> alone; alone.ask(f, x); alone.read(f);
   Ask<F> mine; std::atomic<int> turn(0); std::thread a([&] { mine.ask(f, x); turn = 1; while(turn != 2) sched_yield(); mine.read(f); }), b([&] { while(turn != 1) sched_yield(); Ask<F> other; other.ask(f, y); turn = 2; }); a.join(); b.join();
   std::ostringstream o; for(size_t i = 0; i < alone.got.size(); ++i) o << " #" << alone.got[i].first << ":" << alone.got[i].second; o << " with another caller in between"; for(size_t i = 0; i < mine.got.size(); ++i) o << " #" << mine.got[i].first << ":" << mine.got[i].second;
   c.count("answers read after another caller"); VF_EXPECT(mine.got == alone.got, "challenge/" + tag, o.str()); }
}
VF_SCENARIO(challenge, 20, 200) {
   const double d = 1 + c.rng.below(40) * 0.25; c.desc << "challenge " << d; c.digestD(d);
   { typedef opengm::LabelOrderFunction<double, size_t, size_t> F; std::vector<double> o; o.push_back(3 * d); o.push_back(2 * d); o.push_back(d); F f(3, 3, o); std::vector<size_t> x(2), y(2); x[0] = 0; x[1] = 2; y[0] = 0; y[1] = 1; twoCallers(c, f, x, y, "label-order"); }
   { typedef opengm::LinearConstraintFunction<double, size_t, size_t> F; typedef F::LinearConstraintType LC; std::vector<size_t> s(1, 3), x(1, 0), y(1, 1); std::vector<LC> k; for(size_t l = 0; l < 2; ++l) { LC q; q.add(LC::IndicatorVariableType(0, l), d); q.setBound(0); q.setConstraintOperator(LC::LinearConstraintOperatorType::LessEqual); k.push_back(q); } F f(s.begin(), s.end(), k); twoCallers(c, f, x, y, "linear"); } 
   { typedef opengm::NumLabelsLimitationFunction<double, size_t, size_t> F; std::vector<size_t> s(3, 3), x(3), y(3, 0); x[1] = 1; x[2] = 2; y[1] = 1; F f(s.begin(), s.end(), 1); twoCallers(c, f, x, y, "label-limit"); } }
