// A small exact-enough LP / 0-1 integer programming solver, written here, that
// takes the place of the commercial solvers behind opengm's LP interface. It
// also watches how it is called.
#pragma once
#include <vf.hpp>
#include <opengm/opengm.hxx>
#include <opengm/inference/auxiliary/lpdef.hxx>
#include <opengm/inference/auxiliary/lp_solver/lp_solver_interface.hxx>
#include <opengm/inference/lp_inference_base.hxx>
#include <cmath>
#include <limits>
#if defined(__clang__)
#define C47_PLAIN __attribute__((no_sanitize("address", "undefined")))
#else
#define C47_PLAIN
#endif
namespace c47 {
using namespace vf;
struct Row { std::vector<int> v; std::vector<double> c; double b; int rel; };   // rel 0 <=, 1 ==, 2 >=
// minimise cost * x subject to rows, lo <= x <= up
struct LinearProgram {
   std::vector<double> cost, lo, up; std::vector<Row> rows; std::vector<double> x; double objective; size_t pivots; enum State { OPTIMAL, INFEASIBLE, UNBOUNDED };
   LinearProgram() : objective(0), pivots(0) {}
   struct Tableau { size_t m, n, w; std::vector<double> a, b, u, r; std::vector<int> basis; std::vector<char> flip, dead; double* row(size_t i) { return &a[0] + i * w; } };
   C47_PLAIN State simplex(Tableau& t) {
      const double EPS = 1e-9; const size_t w = t.w;
      for(size_t it = 0; ; ++it) {
         // steepest reduced cost first, smallest index when that may cycle
         size_t j = w; double best = -EPS; const bool bland = it > 200; double* r = &t.r[0]; const char* dead = &t.dead[0];
         for(size_t k = 0; k < w; ++k) if(!dead[k] && r[k] < best) { j = k; if(bland) break; best = r[k]; }
         if(j == w) return OPTIMAL;
         double step = t.u[j]; size_t leave = t.m; bool atUpper = false; 
         for(size_t i = 0; i < t.m; ++i) { const double a = t.row(i)[j]; double s; bool up;
            if(a > EPS) { s = t.b[i] / a; up = false; } else if(a < -EPS && t.u[t.basis[i]] < 1e29) { s = (t.u[t.basis[i]] - t.b[i]) / -a; up = true; } else continue;
            if(s < 0) s = 0;
            if(s < step - 1e-12 || (s <= step + 1e-12 && leave < t.m && t.basis[i] < t.basis[leave])) { step = s; leave = i; atUpper = up; } }
         if(leave == t.m) { if(step > 1e29) return UNBOUNDED; 
            for(size_t i = 0; i < t.m; ++i) { t.b[i] -= t.row(i)[j] * step; t.row(i)[j] = -t.row(i)[j]; } t.r[j] = -t.r[j]; t.flip[j] ^= 1; ++pivots; continue; }
         if(atUpper) { double* p = t.row(leave); const int bj = t.basis[leave]; for(size_t k = 0; k < w; ++k) p[k] = -p[k]; p[bj] = 1; t.b[leave] = t.u[bj] - t.b[leave]; t.flip[bj] ^= 1; }
         double* p = t.row(leave); const double piv = p[j]; for(size_t k = 0; k < w; ++k) p[k] /= piv; t.b[leave] /= piv; p[j] = 1;
         for(size_t i = 0; i < t.m; ++i) if(i != leave) { double* q = t.row(i); const double f = q[j]; if(f != 0) { for(size_t k = 0; k < w; ++k) q[k] -= f * p[k]; q[j] = 0; t.b[i] -= f * t.b[leave]; if(std::fabs(t.b[i]) < 1e-11) t.b[i] = 0; } }
         { const double f = r[j]; if(f != 0) { for(size_t k = 0; k < w; ++k) r[k] -= f * p[k]; r[j] = 0; } }
         t.basis[leave] = (int)j; ++pivots;
         if(it > 20000) { std::fprintf(stderr, "simplex does not stop\n"); std::abort(); }
      }
   }
   C47_PLAIN State solve(const std::vector<double>& l, const std::vector<double>& h) {
      const size_t n = cost.size(), m = rows.size(); for(size_t i = 0; i < n; ++i) if(l[i] > h[i] + 1e-12) return INFEASIBLE;
      Tableau t; t.m = m; t.n = n; size_t slacks = 0; for(size_t i = 0; i < m; ++i) if(rows[i].rel != 1) ++slacks; t.w = n + slacks + m; t.a.assign(m * t.w + 1, 0); t.b.assign(m, 0); t.u.assign(t.w, 1e30); t.basis.assign(m, 0); t.flip.assign(t.w, 0); t.dead.assign(t.w, 0); t.r.assign(t.w + 1, 0);
      for(size_t j = 0; j < n; ++j) t.u[j] = h[j] > 1e29 ? 1e30 : h[j] - l[j];
      size_t s = n;
      for(size_t i = 0; i < m; ++i) { double* p = t.row(i); double b = rows[i].b; for(size_t k = 0; k < rows[i].v.size(); ++k) { p[rows[i].v[k]] += rows[i].c[k]; b -= rows[i].c[k] * l[rows[i].v[k]]; }
         if(rows[i].rel == 0) p[s++] = 1; else if(rows[i].rel == 2) p[s++] = -1;
         if(b < 0) { for(size_t k = 0; k < t.w; ++k) p[k] = -p[k]; b = -b; }
         const size_t art = n + slacks + i; p[art] = 1; t.b[i] = b; t.basis[i] = (int)art; t.dead[art] = 1; }
      // first feasible
      for(size_t i = 0; i < m; ++i) { double* p = t.row(i); for(size_t k = 0; k < n + slacks; ++k) t.r[k] -= p[k]; }
      simplex(t);
      double bad = 0; for(size_t i = 0; i < m; ++i) if((size_t)t.basis[i] >= n + slacks) bad += t.b[i];
      if(bad > 1e-7) return INFEASIBLE;
      for(size_t k = n + slacks; k < t.w; ++k) t.u[k] = 0; for(size_t i = 0; i < m; ++i) if((size_t)t.basis[i] >= n + slacks) t.b[i] = 0;
      // then optimal
      for(size_t k = 0; k < t.w; ++k) t.r[k] = k < n ? (t.flip[k] ? -cost[k] : cost[k]) : 0;
      for(size_t i = 0; i < m; ++i) { const double f = t.r[t.basis[i]]; if(f != 0) { double* p = t.row(i); for(size_t k = 0; k < t.w; ++k) t.r[k] -= f * p[k]; } }
      const State st = simplex(t); if(st != OPTIMAL) return st;
      x.assign(n, 0); for(size_t i = 0; i < m; ++i) if((size_t)t.basis[i] < n) x[t.basis[i]] = t.b[i];
      for(size_t j = 0; j < n; ++j) { if(t.flip[j]) x[j] = t.u[j] - x[j]; x[j] += l[j]; }
      objective = 0; for(size_t j = 0; j < n; ++j) objective += cost[j] * x[j];
      return OPTIMAL;
   }
   State solve() { return solve(lo, up); }
   // 0-1 integer variables, depth first branch and bound
   State integer(const std::vector<char>& isInt, size_t* nodes = 0) {
      std::vector<double> bestX; double best = 1e300; State st = INFEASIBLE; bool unbounded = false; struct N { std::vector<double> l, h; }; std::vector<N> stack; N root; root.l = lo; root.h = up; stack.push_back(root); 
      while(!stack.empty()) { N nd = stack.back(); stack.pop_back(); if(nodes) ++*nodes; const State s = solve(nd.l, nd.h); if(s == UNBOUNDED) { unbounded = true; break; } if(s == INFEASIBLE || objective >= best - 1e-9) continue;
         size_t frac = cost.size(); double far = 1e-6; for(size_t j = 0; j < cost.size(); ++j) if(isInt[j]) { const double f = std::fabs(x[j] - std::floor(x[j] + 0.5)); if(f > far) { far = f; frac = j; } }
         if(frac == cost.size()) { best = objective; bestX = x; for(size_t j = 0; j < x.size(); ++j) if(isInt[j]) bestX[j] = std::floor(bestX[j] + 0.5); st = OPTIMAL; continue; }
         N a = nd, b = nd; a.h[frac] = 0; b.l[frac] = 1; if(x[frac] > 0.5) { stack.push_back(a); stack.push_back(b); } else { stack.push_back(b); stack.push_back(a); } }
      if(unbounded) return UNBOUNDED; if(st == OPTIMAL) { x = bestX; objective = best; } return st;
   }
};
// what the encoder did to the solver, and the verdict on it
struct Watch { size_t solves, flushes, variables, constraints, pending, sinceSolve, names, uniqueNames; std::vector<size_t> perRound; std::set<std::string> nameSet; std::string wrong; bool objectiveSet, senseSet, maximise; size_t failAt;
   Watch() : solves(0), flushes(0), variables(0), constraints(0), pending(0), sinceSolve(0), names(0), uniqueNames(0), objectiveSet(false), senseSet(false), maximise(false), failAt((size_t)-1) {}
   void bad(const std::string& s) { if(wrong.empty()) wrong = s; } };
typedef std::vector<double>::const_iterator It;
class Solver : public opengm::LPSolverInterface<Solver, double, int, It, double> {
public:
   typedef opengm::LPSolverInterface<Solver, double, int, It, double> Base;
   Solver(const Parameter& p = Parameter()) : Base(p), maximise_(false), value_(0) {}
   Watch watch; LinearProgram lp; std::vector<char> isInt;
protected:
   bool maximise_; double value_; std::vector<double> solution_; std::vector<Row> pending_;
   static double infinity_impl() { return 1e30; }
   void add(int n, double l, double u, bool i) { if(n < 0) watch.bad("negative number of variables"); if(watch.objectiveSet) watch.bad("variables added after the objective"); for(int k = 0; k < n; ++k) { lp.cost.push_back(0); lp.lo.push_back(l); lp.up.push_back(u); isInt.push_back(i); } watch.variables = lp.cost.size(); }
   void addContinuousVariables_impl(int n, double l, double u) { add(n, l, u, false); }
   void addIntegerVariables_impl(int n, double l, double u) { add(n, l, u, true); }
   void addBinaryVariables_impl(int n) { add(n, 0, 1, true); }
   void setObjective_impl(const Objective o) { maximise_ = o == Maximize; watch.senseSet = true; watch.maximise = maximise_; }
   void coef(int v, double c) { if(v < 0 || (size_t)v >= lp.cost.size()) { watch.bad("objective names a variable that does not exist"); return; } if(!(std::fabs(c) < 1e29)) watch.bad("infinite or undefined objective coefficient"); lp.cost[v] = c; watch.objectiveSet = true; }
   void setObjectiveValue_impl(int v, double c) { coef(v, c); }
   template<class IT> void setObjectiveValue_impl(IT b, const IT e) { if((size_t)(e - b) != lp.cost.size()) watch.bad("objective of another length than the variables"); for(int i = 0; b != e; ++b, ++i) coef(i, *b); }
   template<class IT, class CT> void setObjectiveValue_impl(IT b, const IT e, CT c) { for(; b != e; ++b, ++c) coef(*b, *c); }
   template<class IT, class CT> void row(IT b, const IT e, CT c, double bound, int rel, const std::string& name) {
      Row r; r.b = bound; r.rel = rel; for(; b != e; ++b, ++c) { if((long)*b < 0 || (size_t)*b >= lp.cost.size()) { watch.bad("constraint names a variable that does not exist"); continue; } if(!(std::fabs((double)*c) < 1e29)) watch.bad("infinite or undefined coefficient"); r.v.push_back((int)*b); r.c.push_back((double)*c); }
      if(!(std::fabs(bound) < 1e29)) watch.bad("infinite or undefined bound"); pending_.push_back(r); ++watch.constraints; ++watch.pending; if(!name.empty()) { ++watch.names; watch.nameSet.insert(name); } }
   template<class IT, class CT> void addEqualityConstraint_impl(IT b, const IT e, CT c, const double bound, const std::string& name = "") { row(b, e, c, bound, 1, name); }
   template<class IT, class CT> void addLessEqualConstraint_impl(IT b, const IT e, CT c, const double bound, const std::string& name = "") { row(b, e, c, bound, 0, name); }
   template<class IT, class CT> void addGreaterEqualConstraint_impl(IT b, const IT e, CT c, const double bound, const std::string& name = "") { row(b, e, c, bound, 2, name); }
   void addConstraintsFinished_impl() { ++watch.flushes; watch.perRound.push_back(watch.pending); watch.pending = 0; lp.rows.insert(lp.rows.end(), pending_.begin(), pending_.end()); pending_.clear(); }
   void addConstraintsFinished_impl(double& t) { t = 0.125; addConstraintsFinished_impl(); }
   template<class P, class V> void setParameter_impl(const P, const V) {}
   bool solve_impl() {
      if(watch.pending) watch.bad("constraints were announced but not finished when solving"); if(!watch.senseSet) watch.bad("solving before the sense is set"); if(!watch.objectiveSet && lp.cost.size()) watch.bad("solving before the objective is set");
      if(watch.solves++ == watch.failAt) return false;
      LinearProgram q(lp); if(maximise_) for(size_t i = 0; i < q.cost.size(); ++i) q.cost[i] = -q.cost[i];
      bool any = false; for(size_t i = 0; i < isInt.size(); ++i) any = any || isInt[i];
      const LinearProgram::State s = any ? q.integer(isInt) : q.solve(); if(s != LinearProgram::OPTIMAL) return false;
      solution_ = q.x; value_ = maximise_ ? -q.objective : q.objective; return true; }
   bool solve_impl(double& t) { t = 0.25; return solve_impl(); }
   It solutionBegin_impl() const { return solution_.begin(); }
   It solutionEnd_impl() const { return solution_.end(); }
   double solution_impl(const int v) const { return solution_[v]; }
   double objectiveFunctionValue_impl() const { return value_; }
   double objectiveFunctionValueBound_impl() const { return value_; }
   void exportModel_impl(const std::string&) const {}
   friend class opengm::LPSolverInterface<Solver, double, int, It, double>;
};
template<class GM, class ACC> class LP : public Solver, public opengm::LPInferenceBase<LP<GM, ACC> > {
public:
   typedef ACC AccumulationType; typedef GM GraphicalModelType; OPENGM_GM_TYPE_TYPEDEFS;
   typedef opengm::LPInferenceBase<LP<GM, ACC> > B; typedef typename B::Parameter Parameter;
   LP(const GM& gm, const Parameter& p = Parameter()) : Solver(p), B(gm, p) {}
   virtual ~LP() {}
   virtual std::string name() const { return "LP"; }
};
}
namespace opengm {
template<class GM, class ACC> struct LPInferenceTraits<c47::LP<GM, ACC> > {
   typedef ACC AccumulationType; typedef GM GraphicalModelType; typedef c47::Solver SolverType; typedef int SolverIndexType; typedef double SolverValueType; typedef c47::It SolverSolutionIteratorType; typedef double SolverTimingType; typedef c47::Solver::Parameter SolverParameterType;
};
}
