// The linear programs that LPInferenceBase writes for a model: exactness of the
// integer program, validity and agreement of the relaxations, the cutting plane
// loop and its limits.
#include <list>
#include "../C18/common.hpp"
#include "lpsolver.hpp"
#include <models.hpp>
#include <gm.hpp>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/discretespace.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/functions/constraint_functions/label_order_function.hxx>
#include <opengm/functions/constraint_functions/num_labels_limitation_function.hxx>
#include <opengm/functions/constraint_functions/linear_constraint_function.hxx>
#include <opengm/functions/soft_constraint_functions/sum_constraint_function.hxx>
#include <opengm/functions/soft_constraint_functions/label_cost_function.hxx>
#include <opengm/utilities/metaprogramming.hxx>
using namespace c47; using c18::RefCon; using c18::RefInd; using c18::dy;
namespace {
enum K { TABLE, POTTS, LINEAR, ORDER, LIMIT, COST, SUMC };
// one factor as written down here: its table, which labelings a hard constraint allows, and how to state it to opengm
struct Fac { K k; std::vector<size_t> vars, sh; std::vector<double> tab; std::vector<char> ok; std::vector<RefCon> cons; std::vector<double> co; double rv, ri, lambda, bound; size_t n, label; bool share, single; Fac() : k(TABLE), rv(0), ri(1), lambda(0), bound(0), n(0), label(0), share(false), single(false) {} bool hard() const { return k == LINEAR || k == ORDER || k == LIMIT; } };
struct Model { RefModel m; std::vector<Fac> f; bool anyHard, anyTransfer; Model() : anyHard(false), anyTransfer(false) {}
   bool feasible(const std::vector<size_t>& l) const { for(size_t i = 0; i < f.size(); ++i) if(f[i].hard()) { size_t x = 0, st = 1; for(size_t k = 0; k < f[i].vars.size(); ++k) { x += st * l[f[i].vars[k]]; st *= f[i].sh[k]; } if(!f[i].ok[x]) return false; } return true; }
   // optimum over what is allowed; false if nothing is
   bool best(bool maximise, bool soft, double& v, size_t& n, std::vector<size_t>& arg) const { std::vector<size_t> l(m.labels.size(), 0); bool any = false; n = 0;
      do { if(!soft && !feasible(l)) continue; const double e = m.eval(l); if(!any || (maximise ? e > v : e < v)) { v = e; n = 1; any = true; arg = l; } else if(e == v) ++n; } while(nextTuple(l, m.labels)); return any; } 
   std::string str() const { std::ostringstream o; o << "labels" << show(m.labels); for(size_t i = 0; i < f.size(); ++i) { o << " " << "TPLONCS"[f[i].k] << show(f[i].vars); if(f[i].hard()) { for(size_t j = 0; j < f[i].cons.size(); ++j) o << "{" << f[i].cons[j].str() << "}"; o << "rv" << f[i].rv << "/" << f[i].ri << (f[i].k == LIMIT ? " n=" : ""); if(f[i].k == LIMIT) o << f[i].n; if(f[i].k == ORDER) o << show(f[i].co); } else o << show(f[i].tab); } return o.str(); }
};
template<class LIST> struct G { typedef opengm::DiscreteSpace<size_t, size_t> S; typedef opengm::GraphicalModel<double, opengm::Adder, LIST, S> type; };
typedef opengm::ExplicitFunction<double, size_t, size_t> E; typedef opengm::PottsFunction<double, size_t, size_t> PF; typedef opengm::LinearConstraintFunction<double, size_t, size_t> LF; typedef opengm::LabelOrderFunction<double, size_t, size_t> OF; typedef opengm::NumLabelsLimitationFunction<double, size_t, size_t> NF; typedef opengm::LabelCostFunction<double, size_t, size_t> CF; typedef opengm::SumConstraintFunction<double, size_t, size_t> SF;
typedef G<opengm::meta::TypeListGenerator<E, PF, LF, OF, NF, CF, SF>::type>::type GAll;
typedef G<opengm::meta::TypeListGenerator<SF, NF, E, LF, PF, CF, OF>::type>::type GShuffled;
typedef G<opengm::meta::TypeListGenerator<E>::type>::type GPlain;

double cst(Rng& r, int style) { return style == 0 ? (double)r.range(-4, 4) : style == 1 ? r.range(-16, 16) / 4.0 : (double)r.range(0, 2); }
struct Want { bool hard, transfer, maximise; size_t maxV, maxL; bool tree, unariesAll; double slack; Want() : hard(false), transfer(false), maximise(false), maxV(4), maxL(3), tree(false), unariesAll(false), slack(0) {} bool positive; };
Model randM(Ctx& c, const Want& w) {
   Rng& r = c.rng; Model M; const size_t n = 1 + r.below(w.maxV); const int style = r.below(3); const bool even = r.chance(0.3); const size_t L = 1 + r.below(w.maxL);
   for(size_t i = 0; i < n; ++i) M.m.labels.push_back(even ? L : 1 + r.below(w.maxL));
   const size_t nf = r.below(3) + r.below(n + 2) + (n > 1);
   std::vector<Fac> fs;
   for(size_t i = 0; i < n; ++i) if(r.chance(0.7)) { Fac f; f.vars.push_back(i); fs.push_back(f); }
   if(r.chance(0.25)) fs.push_back(Fac());
   if(w.tree) { for(size_t i = 1; i < n; ++i) if(r.chance(0.85)) { Fac f; f.vars.push_back(r.below(i)); f.vars.push_back(i); fs.push_back(f); } }
   else for(size_t q = 0; q < nf; ++q) {
      Fac f; size_t o = 1 + (n > 1 && r.chance(0.85)) + (n > 2 && r.chance(0.2)); if(o > n) o = n;
      const double u = r.unit(); if(w.hard && u < 0.4) { f.k = (K)(LINEAR + r.below(3)); if(f.k == ORDER) { if(n < 2) f.k = LINEAR; else o = 2; } } else if(w.transfer && u < 0.7) { f.k = r.chance(0.5) ? COST : SUMC; } else if(o == 2 && r.chance(0.25)) f.k = POTTS;
      std::vector<size_t> v(n); for(size_t i = 0; i < n; ++i) v[i] = i; r.shuffle(v); v.resize(o); std::sort(v.begin(), v.end());
      if(!fs.empty() && r.chance(0.2)) { const Fac& p = fs[r.below(fs.size())]; if(p.vars.size() >= 1 && (f.k != ORDER || p.vars.size() == 2) && (f.k != POTTS || p.vars.size() == 2)) v = p.vars; }
      f.vars = v; fs.push_back(f); }
   r.shuffle(fs);
   for(size_t q = 0; q < fs.size(); ++q) { Fac& f = fs[q]; for(size_t i = 0; i < f.vars.size(); ++i) f.sh.push_back(M.m.labels[f.vars[i]]); const size_t sz = prod(f.sh); f.tab.assign(sz, 0); f.ok.assign(sz, 1);
      const size_t mx = f.sh.empty() ? 1 : *std::max_element(f.sh.begin(), f.sh.end());
      f.rv = 0; f.ri = r.chance(0.5) ? 1 : dy(r); if(f.ri == 0) f.ri = 2; 
      size_t total = 0; for(size_t i = 0; i < f.sh.size(); ++i) total += f.sh[i];
      switch(f.k) {
      case TABLE: for(size_t i = 0; i < sz; ++i) f.tab[i] = cst(r, style); break;
      case POTTS: f.bound = cst(r, style); f.lambda = cst(r, style); break;
      case LINEAR: { const size_t k = 1 + r.below(2); for(size_t i = 0; i < k; ++i) { RefCon x = c18::randCon(r, f.vars.size(), f.sh, 1, 3, 1, 3); if(r.chance(0.5)) for(size_t j = 0; j < x.c.size(); ++j) x.c[j] = r.range(-2, 2); x.bound = r.range(-4, 8) / 2.0; if(x.rel == 1 && r.chance(0.7)) x.rel = r.chance(0.5) ? 0 : 2; f.cons.push_back(x); } break; }
      case ORDER: for(size_t i = 0; i < mx; ++i) f.co.push_back(r.chance(0.3) ? (double)r.range(0, 2) : dy(r)); break;
      case LIMIT: f.n = 1 + r.below(std::max<size_t>(1, mx)); break;
      case COST: f.single = r.chance(0.4); f.label = r.below(mx); for(size_t i = 0; i < mx; ++i) { double v = r.chance(0.2) ? 0 : dy(r); if(w.positive) v = w.maximise ? -std::fabs(v) : std::fabs(v); f.co.push_back(v); } f.share = std::set<size_t>(f.sh.begin(), f.sh.end()).size() == 1 && r.chance(0.6); break;
      case SUMC: f.share = r.chance(0.5); f.lambda = r.chance(0.3) ? 1 : std::fabs(dy(r)); if(w.maximise) f.lambda = -f.lambda; f.bound = dy(r); for(size_t i = 0; i < (f.share ? mx : total); ++i) f.co.push_back(r.chance(0.2) ? 0 : dy(r)); f.single = std::set<size_t>(f.sh.begin(), f.sh.end()).size() == 1 && r.chance(0.6); break;
      }
      if(f.hard()) M.anyHard = true; if(f.k == COST || f.k == SUMC) M.anyTransfer = true;
      std::vector<size_t> t(f.sh.size(), 0); size_t x = 0;
      do { switch(f.k) {
         case TABLE: break;
         case POTTS: f.tab[x] = t[0] == t[1] ? f.bound : f.lambda; break;
         case LINEAR: for(size_t i = 0; i < f.cons.size(); ++i) if(f.cons[i].weight(f.cons[i].lhs(t)) > 1e-6) f.ok[x] = 0; f.tab[x] = f.ok[x] ? f.rv : f.ri; break;
         case ORDER: f.ok[x] = f.co[t[0]] <= f.co[t[1]]; f.tab[x] = f.ok[x] ? f.rv : f.ri; break;
         case LIMIT: f.ok[x] = std::set<size_t>(t.begin(), t.end()).size() <= f.n; f.tab[x] = f.ok[x] ? f.rv : f.ri; break;
         case COST: { std::set<size_t> u(t.begin(), t.end()); for(std::set<size_t>::iterator i = u.begin(); i != u.end(); ++i) if(!f.single || *i == f.label) f.tab[x] += f.co[*i]; break; }
         case SUMC: { double v = 0; size_t off = 0; for(size_t i = 0; i < t.size(); ++i) { v += f.co[f.share ? t[i] : off + t[i]]; off += f.sh[i]; } f.tab[x] = std::fabs(v - f.bound) * f.lambda; break; }
         } ++x; } while(nextTuple(t, f.sh));
      M.m.f.push_back(RefFactor()); M.m.f.back().vars = f.vars; M.m.f.back().tab = f.tab; }
   M.f = fs; return M;
}
template<class GM, class F, bool HAS> struct Add { static void add(GM& g, const F& f, const Fac& x) { g.addFactor(g.addFunction(f), x.vars.begin(), x.vars.end()); } };
template<class GM, class F> struct Add<GM, F, false> { static void add(GM& g, const F& f, const Fac& x) { E e(x.sh.begin(), x.sh.end()); for(size_t i = 0; i < x.tab.size(); ++i) e(i) = x.tab[i]; g.addFactor(g.addFunction(e), x.vars.begin(), x.vars.end()); } };
template<class GM, class F> void put(GM& g, const F& f, const Fac& x) { Add<GM, F, opengm::meta::HasTypeInTypeList<typename GM::FunctionTypeList, F>::value>::add(g, f, x); }
template<class GM> GM build(Rng& r, const Model& M) {
   GM g(typename GM::SpaceType(M.m.labels.begin(), M.m.labels.end()));
   for(size_t q = 0; q < M.f.size(); ++q) { const Fac& f = M.f[q]; const std::vector<size_t>& s = f.sh; const bool same = std::set<size_t>(s.begin(), s.end()).size() == 1;
      switch(f.k) {
      case TABLE: { if(s.empty()) { E e(s.begin(), s.end()); e(0) = f.tab[0]; g.addFactor(g.addFunction(e), f.vars.begin(), f.vars.end()); } else { E e(s.begin(), s.end()); for(size_t i = 0; i < f.tab.size(); ++i) e(i) = f.tab[i]; g.addFactor(g.addFunction(e), f.vars.begin(), f.vars.end()); } break; }
      case POTTS: put(g, PF(s[0], s[1], f.bound, f.lambda), f); break;
      case LINEAR: { typedef LF::LinearConstraintType LC; std::vector<LC> k; for(size_t i = 0; i < f.cons.size(); ++i) k.push_back(c18::makeCon<LC>(r, f.cons[i])); put(g, LF(s.begin(), s.end(), k.begin(), k.end(), f.rv, f.ri), f); break; }
      case ORDER: put(g, OF(s[0], s[1], f.co, f.rv, f.ri), f); break;
      case LIMIT: if(same && r.chance(0.5)) put(g, NF(s.size(), s[0], f.n, f.rv, f.ri), f); else put(g, NF(s.begin(), s.end(), f.n, f.rv, f.ri), f); break;
      case COST: if(f.share) { if(f.single) put(g, CF(s.size(), s[0], f.label, f.co[f.label]), f); else put(g, CF(s.size(), s[0], f.co.begin(), f.co.end()), f); } else { if(f.single) put(g, CF(s.begin(), s.end(), f.label, f.co[f.label]), f); else put(g, CF(s.begin(), s.end(), f.co.begin(), f.co.end()), f); } break;
      case SUMC: if(f.single) put(g, SF(s.size(), s[0], f.co.begin(), f.co.end(), f.share, f.lambda, f.bound), f); else put(g, SF(s.begin(), s.end(), f.co.begin(), f.co.end(), f.share, f.lambda, f.bound), f); break;
      } }
   return g;
}
const char* relaxN[] = {"local", "loose", "tight"};
template<class P> std::string pstr(const P& p) { std::ostringstream o; o << relaxN[(int)p.relaxation_] << (p.integerConstraintNodeVar_ ? " intNode" : "") << (p.integerConstraintFactorVar_ ? " intFac" : "") << (p.useSoftConstraints_ ? " soft" : "") << (p.useFunctionTransfer_ ? " transfer" : "") << (p.mergeParallelFactors_ ? " merge" : "") << " iter" << p.maxNumIterations_ << " per" << p.maxNumConstraintsPerIter_ << (p.challengeHeuristic_ == P::Weighted ? " weighted" : " random"); return o.str(); }
template<class P> void randP(Rng& r, P& p, bool anyHard, bool anyTransfer) {
   p.relaxation_ = (typename P::Relaxation)r.below(3); p.integerConstraintFactorVar_ = r.chance(0.3); p.useSoftConstraints_ = r.chance(anyHard ? 0.25 : 0.1); p.useFunctionTransfer_ = r.chance(anyTransfer ? 0.75 : 0.2); p.mergeParallelFactors_ = r.chance(0.4); p.nameConstraints_ = r.chance(0.2); p.maxNumIterations_ = r.chance(0.7) ? 0 : 1000; const size_t per[] = {0, 0, 0, 1, 2, 5}; p.maxNumConstraintsPerIter_ = per[r.below(6)]; p.challengeHeuristic_ = r.chance(0.5) ? P::Weighted : P::Random;
}
// the linear program of the local polytope, written down again here: one block of variables per factor (or per distinct variable set)
double localPolytope(const Model& M, bool maximise, bool merge) {
   LinearProgram q; std::vector<size_t> off; double con = 0; const double sg = maximise ? -1 : 1;
   for(size_t i = 0; i < M.m.labels.size(); ++i) { off.push_back(q.cost.size()); Row r; r.b = 1; r.rel = 1; for(size_t k = 0; k < M.m.labels[i]; ++k) { r.v.push_back((int)q.cost.size()); r.c.push_back(1); q.cost.push_back(0); } q.rows.push_back(r); }
   std::map<std::vector<size_t>, size_t> known;
   for(size_t j = 0; j < M.f.size(); ++j) { const Fac& f = M.f[j]; if(f.vars.empty()) { con += f.tab[0]; continue; } if(f.vars.size() == 1) { for(size_t k = 0; k < f.tab.size(); ++k) q.cost[off[f.vars[0]] + k] += sg * f.tab[k]; continue; }
      if(merge && known.count(f.vars)) { for(size_t k = 0; k < f.tab.size(); ++k) q.cost[known[f.vars] + k] += sg * f.tab[k]; continue; }
      const size_t base = q.cost.size(); known[f.vars] = base; for(size_t k = 0; k < f.tab.size(); ++k) q.cost.push_back(sg * f.tab[k]);
      for(size_t d = 0; d < f.vars.size(); ++d) for(size_t l = 0; l < f.sh[d]; ++l) { Row r; r.b = 0; r.rel = 1; std::vector<size_t> t(f.sh.size(), 0); size_t x = 0; do { if(t[d] == l) { r.v.push_back((int)(base + x)); r.c.push_back(1); } ++x; } while(nextTuple(t, f.sh)); r.v.push_back((int)(off[f.vars[d]] + l)); r.c.push_back(-1); q.rows.push_back(r); } }
   q.lo.assign(q.cost.size(), 0); q.up.assign(q.cost.size(), 1e30); if(q.solve() != LinearProgram::OPTIMAL) { std::fprintf(stderr, "reference program not solvable\n"); std::abort(); }
   return sg * q.objective + con;
}
bool eq(double a, double b) { return std::fabs(a - b) <= 1e-5 * (1 + std::fabs(b)); }
template<class ACC> bool isMax() { return ACC::template neutral<double>() < 0; }
template<class LPT> void quiet(Ctx& c, const LPT& lp, const std::string& how) { VF_CHECK(lp.watch.wrong.empty(), "the-solver-is-called-correctly", lp.watch.wrong << " " << how);
   if(lp.watch.flushes) { c.count("constraints added in the loop", lp.watch.constraints - lp.watch.perRound[0]); c.count("rounds", lp.watch.flushes); } c.count("programs solved", lp.watch.solves); }
template<class GM, class ACC> void exact(Ctx& c, Want w) {
   typedef LP<GM, ACC> I; Rng& r = c.rng; w.maximise = isMax<ACC>(); w.positive = false; Model M; double v = 0; size_t n = 0; std::vector<size_t> a; typename I::Parameter p; 
   M = randM(c, w); randP(r, p, M.anyHard, M.anyTransfer); p.integerConstraintNodeVar_ = true;
   // a slack of negative weight is only bounded by a constraint that the loose relaxation leaves out at first
   if(p.relaxation_ == I::Parameter::LoosePolytope && p.useFunctionTransfer_) for(size_t i = 0; i < M.f.size(); ++i) if(M.f[i].k == COST) for(size_t k = 0; k < M.f[i].co.size(); ++k) if(w.maximise ? M.f[i].co[k] > 0 : M.f[i].co[k] < 0) p.relaxation_ = I::Parameter::LocalPolytope;
   const bool any = M.best(w.maximise, p.useSoftConstraints_, v, n, a); c.desc << M.str() << " " << pstr(p) << (w.maximise ? " max" : " min"); c.digestV(M.m.labels); c.digest(M.f.size()); for(size_t i = 0; i < M.f.size(); ++i) { c.digest(M.f[i].k); for(size_t k = 0; k < M.f[i].tab.size(); ++k) c.digestD(M.f[i].tab[k]); }
   GM g = build<GM>(r, M); std::vector<size_t> l(M.m.labels.size(), 0); do VF_CHECK(eq(g.evaluate(l.begin()), M.m.eval(l)), "the-model-says-what-was-written", show(l) << " " << g.evaluate(l.begin()) << " expected " << M.m.eval(l)); while(nextTuple(l, M.m.labels));
   I lp(g, p); VF_EXPECT(&lp.graphicalModel() == &g, "graphicalModel", "");
   { std::vector<size_t> x; const opengm::InferenceTermination t = lp.arg(x); VF_CHECK(t == opengm::UNKNOWN && x == std::vector<size_t>(g.numberOfVariables(), 0), "nothing-known-before-inference", t << show(x)); VF_EXPECT(lp.bound() == ACC::template ineutral<double>(), "bound-before-inference", lp.bound()); VF_EXPECT(lp.watch.solves == 0, "no-solving-while-building", ""); }
   if(lp.watch.maximise != w.maximise) VF_CHECK(false, "sense", "");
   const size_t cls = M.f.empty(); c.count(any ? "feasible models" : "infeasible models"); (void)cls;
   const int rounds = 1 + r.chance(0.3); 
   for(int q = 0; q < rounds; ++q) { const opengm::InferenceTermination t = lp.infer(); quiet(c, lp, pstr(p));
      if(!any) { VF_CHECK(t != opengm::NORMAL && t != opengm::CONVERGENCE, "infeasible-is-not-reported-as-solved", t); continue; }
      VF_CHECK(t == opengm::NORMAL, "solved", "termination " << t);
      std::vector<size_t> x; VF_CHECK(lp.arg(x) == opengm::NORMAL && validLabeling(M.m, x), "labeling", show(x));
      VF_CHECK(p.useSoftConstraints_ || M.feasible(x), "integer-solution-respects-the-constraints", show(x) << " optimal " << show(a) << " " << v);
      VF_CHECK(eq(M.m.eval(x), v), "integer-solution-is-optimal", show(x) << " has " << M.m.eval(x) << " optimal " << show(a) << " " << v);
      VF_CHECK(eq(lp.value(), v), "value", lp.value() << " expected " << v); VF_CHECK(eq(lp.bound(), v), "integer-bound-is-the-optimum", lp.bound() << " expected " << v); }
   if(p.maxNumConstraintsPerIter_ && lp.watch.perRound.size() > 1) for(size_t i = 1; i < lp.watch.perRound.size(); ++i) VF_CHECK(lp.watch.perRound[i] <= p.maxNumConstraintsPerIter_, "no-more-constraints-per-iteration-than-allowed", lp.watch.perRound[i] << " allowed " << p.maxNumConstraintsPerIter_);
   if(p.nameConstraints_) c.count("named constraints", lp.watch.nameSet.size()); else VF_CHECK(lp.watch.names == 0, "no-names-unless-asked", lp.watch.names);
   c.count(std::string("integer programs: ") + relaxN[(int)p.relaxation_]); if(lp.watch.solves > 1) c.count("integer programs with cutting planes");
}
template<class GM, class ACC> void relaxed(Ctx& c, Want w) {
   typedef LP<GM, ACC> I; Rng& r = c.rng; w.maximise = isMax<ACC>(); w.positive = true; Model M = randM(c, w); typename I::Parameter p; randP(r, p, M.anyHard, M.anyTransfer); p.integerConstraintFactorVar_ = false;
   double v = 0; size_t n = 0; std::vector<size_t> a; const bool any = M.best(w.maximise, p.useSoftConstraints_, v, n, a); c.desc << M.str() << " " << pstr(p) << (w.maximise ? " max" : " min"); c.digestV(M.m.labels); for(size_t i = 0; i < M.f.size(); ++i) { c.digest(M.f[i].k); for(size_t k = 0; k < M.f[i].tab.size(); ++k) c.digestD(M.f[i].tab[k]); }
   GM g = build<GM>(r, M); double first = 0; bool solved = false;
   for(int k = 0; k < 3; ++k) { p.relaxation_ = (typename I::Parameter::Relaxation)k; I lp(g, p); opengm::InferenceTermination t; if(r.chance(0.3)) { typename I::TimingVisitorType tv(1, 0, false, false, std::numeric_limits<double>::infinity(), -1.0); t = lp.infer(tv); c.count("timed runs"); } else t = lp.infer(); quiet(c, lp, pstr(p)); const std::string key = relaxN[k];
      const bool ok = t == opengm::NORMAL || t == opengm::CONVERGENCE; if(!any) { if(!ok) c.count("relaxation already infeasible"); } else VF_CHECK(ok, key + "/solved", t);
      if(!k) { solved = ok; first = lp.bound(); } else VF_CHECK(ok == solved, "relaxations-agree-on-feasibility", key << " " << t);
      if(!ok) continue;
      VF_CHECK(eq(lp.bound(), first), "relaxations-agree", key << " " << lp.bound() << " local " << first);
      if(any) { if(w.maximise) VF_CHECK(lp.bound() >= v - 1e-5 * (1 + std::fabs(v)), "bound-is-valid", key << " " << lp.bound() << " optimum " << v); else VF_CHECK(lp.bound() <= v + 1e-5 * (1 + std::fabs(v)), "bound-is-valid", key << " " << lp.bound() << " optimum " << v); }
      std::vector<size_t> x; VF_CHECK(lp.arg(x) == opengm::NORMAL && validLabeling(M.m, x), "labeling", show(x)); VF_CHECK(eq(lp.value(), M.m.eval(x)), "value", lp.value() << " expected " << M.m.eval(x));
      if(w.tree && any) { VF_CHECK(eq(lp.bound(), v), "tight-on-trees", key << " " << lp.bound() << " optimum " << v); if(n == 1) VF_CHECK(x == a, "optimal-on-trees", show(x) << " optimal " << show(a)); }
      c.count(any && eq(lp.bound(), v) ? "tight bounds" : "gaps"); if(lp.watch.solves > 1) c.count("relaxations with cutting planes");
      if(p.maxNumConstraintsPerIter_) for(size_t i = 1; i < lp.watch.perRound.size(); ++i) VF_CHECK(lp.watch.perRound[i] <= p.maxNumConstraintsPerIter_, "no-more-constraints-per-iteration-than-allowed", lp.watch.perRound[i] << " allowed " << p.maxNumConstraintsPerIter_); }
   if(solved && (!M.anyHard || p.useSoftConstraints_) && (!M.anyTransfer || !p.useFunctionTransfer_)) { const double ref = localPolytope(M, w.maximise, p.mergeParallelFactors_); VF_CHECK(eq(first, ref), "the-local-polytope", first << " written independently " << ref); c.count("compared with an independent program"); }
}
struct Stop { size_t calls, at, begins, ends; Stop(size_t a) : calls(0), at(a), begins(0), ends(0) {} template<class I> void begin(I&) { ++begins; } template<class I> size_t operator()(I&) { return ++calls >= at ? opengm::visitors::VisitorReturnFlag::StopInfTimeout : opengm::visitors::VisitorReturnFlag::ContinueInf; } template<class I> void end(I&) { ++ends; } void addLog(const std::string&) {} void log(const std::string&, double) {} };
template<class GM, class ACC> void limits(Ctx& c, Want w) {
   typedef LP<GM, ACC> I; Rng& r = c.rng; w.maximise = isMax<ACC>(); w.positive = true; Model M = randM(c, w); typename I::Parameter p; randP(r, p, M.anyHard, M.anyTransfer); p.integerConstraintNodeVar_ = r.chance(0.5); p.relaxation_ = r.chance(0.7) ? I::Parameter::LoosePolytope : I::Parameter::LocalPolytope; p.maxNumConstraintsPerIter_ = r.below(3);
   double v = 0; size_t n = 0; std::vector<size_t> a; const bool any = M.best(w.maximise, p.useSoftConstraints_, v, n, a); const size_t limit = 1 + r.below(6), mode = r.below(3); p.maxNumIterations_ = mode == 0 ? limit : 0;
   c.desc << M.str() << " " << pstr(p) << (w.maximise ? " max" : " min") << " mode " << mode << " limit " << limit; c.digestV(M.m.labels); for(size_t i = 0; i < M.f.size(); ++i) for(size_t k = 0; k < M.f[i].tab.size(); ++k) c.digestD(M.f[i].tab[k]);
   GM g = build<GM>(r, M); I lp(g, p); Stop s(mode == 1 ? limit : (size_t)-1); if(mode == 2) lp.watch.failAt = limit - 1; const opengm::InferenceTermination t = lp.infer(s); quiet(c, lp, pstr(p));
   VF_CHECK(s.begins == 1, "visitor-begins-once", s.begins); const bool ok = t == opengm::NORMAL || t == opengm::CONVERGENCE;
   if(mode < 2) VF_CHECK(lp.watch.solves <= limit, "limit-respected", lp.watch.solves << " programs solved, limit " << limit); 
   VF_CHECK(s.calls == lp.watch.solves - (ok ? 0 : 1), "one-visit-per-solved-program", s.calls << " " << lp.watch.solves);
   if(mode == 2 && lp.watch.solves == limit) VF_CHECK(!ok, "solver-failure-is-reported", t);
   if(lp.watch.solves == limit && mode < 2) c.count("stopped early or just in time");
   if(any && ok) { VF_CHECK(s.ends == 1, "visitor-ends-once", s.ends); std::vector<size_t> x; VF_CHECK(lp.arg(x) == opengm::NORMAL && validLabeling(M.m, x), "labeling", show(x)); VF_CHECK(eq(lp.value(), M.m.eval(x)), "value", lp.value());
      const double b = lp.bound(), tol = 1e-5 * (1 + std::fabs(v)); VF_CHECK(w.maximise ? b >= v - tol : b <= v + tol, "bound-valid-when-stopped", b << " optimum " << v);
      // and going on from there arrives
      if(mode == 1 && p.integerConstraintNodeVar_) { VF_CHECK(lp.infer() == opengm::NORMAL, "continued", ""); quiet(c, lp, pstr(p)); lp.arg(x); VF_CHECK(eq(M.m.eval(x), v) && (p.useSoftConstraints_ || M.feasible(x)), "continued-run-is-optimal", show(x) << " has " << M.m.eval(x) << " optimum " << v); VF_CHECK(eq(lp.bound(), v), "continued-bound", lp.bound() << " optimum " << v); c.count("continued after a stop"); } }
}
Want want(bool hard, bool transfer, size_t v, size_t l, bool tree = false) { Want w; w.hard = hard; w.transfer = transfer; w.maxV = v; w.maxL = l; w.tree = tree; return w; }
}
VF_SCENARIO(integer_plain_min, 120, 3000) { exact<GPlain, opengm::Minimizer>(c, want(false, false, 4, 3)); }
VF_SCENARIO(integer_plain_max, 80, 2000) { exact<GPlain, opengm::Maximizer>(c, want(false, false, 4, 3)); }
VF_SCENARIO(integer_constrained_min, 250, 6000) { exact<GAll, opengm::Minimizer>(c, want(true, false, 4, 3)); }
VF_SCENARIO(integer_constrained_max, 150, 4000) { exact<GShuffled, opengm::Maximizer>(c, want(true, false, 4, 3)); }
VF_SCENARIO(integer_all_min, 250, 6000) { exact<GShuffled, opengm::Minimizer>(c, want(true, true, 4, 3)); }
VF_SCENARIO(integer_all_max, 150, 4000) { exact<GAll, opengm::Maximizer>(c, want(true, true, 4, 3)); }
VF_SCENARIO(relaxed_plain_min, 120, 3000) { relaxed<GPlain, opengm::Minimizer>(c, want(false, false, 4, 3)); }
VF_SCENARIO(relaxed_plain_max, 80, 2000) { relaxed<GAll, opengm::Maximizer>(c, want(false, false, 4, 3)); }
VF_SCENARIO(relaxed_trees, 120, 3000) { if(c.rng.chance(0.5)) relaxed<GPlain, opengm::Minimizer>(c, want(false, false, 6, 4, true)); else relaxed<GPlain, opengm::Maximizer>(c, want(false, false, 6, 4, true)); }
VF_SCENARIO(relaxed_all_min, 200, 5000) { relaxed<GAll, opengm::Minimizer>(c, want(true, true, 4, 3)); }
VF_SCENARIO(relaxed_all_max, 120, 3000) { relaxed<GShuffled, opengm::Maximizer>(c, want(true, true, 4, 3)); }
VF_SCENARIO(limits_min, 150, 4000) { limits<GAll, opengm::Minimizer>(c, want(true, true, 4, 3)); }
VF_SCENARIO(limits_max, 100, 3000) { limits<GShuffled, opengm::Maximizer>(c, want(true, true, 4, 3)); }
