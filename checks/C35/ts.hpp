#pragma once
#include "../../harness/solvers.hpp"
#include <opengm/inference/auxiliary/transportationsolver.hxx>
#include <opengm/inference/auxiliary/primal_lpbound.hxx>
namespace c35 {
using namespace vf; using namespace sv;
// independent oracle: minimum cost transportation by successive shortest paths (Bellman-Ford), integer supplies
inline double cheapest(const std::vector<long>& a, const std::vector<long>& b, const std::vector<double>& cost /* x + y*n */, bool maximize) {
   const size_t n = a.size(), m = b.size(), S = n + m, T = S + 1, N = T + 1;
   struct E { size_t to; long cap; double c; size_t rev; };
   std::vector<std::vector<E> > g(N);
   struct Add { static void go(std::vector<std::vector<E> >& g, size_t u, size_t v, long cap, double c) { E e = {v, cap, c, g[v].size()}, r = {u, 0, -c, g[u].size()}; g[u].push_back(e); g[v].push_back(r); } };
   long big = 0; for(size_t i = 0; i < n; ++i) big += a[i];
   for(size_t i = 0; i < n; ++i) Add::go(g, S, i, a[i], 0);
   for(size_t j = 0; j < m; ++j) Add::go(g, n + j, T, b[j], 0);
   for(size_t j = 0; j < m; ++j) for(size_t i = 0; i < n; ++i) Add::go(g, i, n + j, big, maximize ? -cost[i + j * n] : cost[i + j * n]);
   double total = 0; long flow = 0;
   while(flow < big) {
      std::vector<double> d(N, 1e300); std::vector<size_t> pv(N), pe(N); d[S] = 0; bool ch = true; size_t rounds = 0;
      while(ch && rounds++ < N + 1) { ch = false; for(size_t u = 0; u < N; ++u) if(d[u] < 1e299) for(size_t k = 0; k < g[u].size(); ++k) { const E& e = g[u][k]; if(e.cap > 0 && d[u] + e.c < d[e.to] - 1e-11 * (1 + std::fabs(d[u]))) { d[e.to] = d[u] + e.c; pv[e.to] = u; pe[e.to] = k; ch = true; } } }
      if(d[T] > 1e299) break;
      long f = big; for(size_t v = T; v != S; v = pv[v]) f = std::min(f, g[pv[v]][pe[v]].cap);
      for(size_t v = T; v != S; v = pv[v]) { E& e = g[pv[v]][pe[v]]; e.cap -= f; g[v][e.rev].cap += f; total += f * e.c; }
      flow += f;
   }
   return (maximize ? -total : total) / (double)big;
}
// integer supplies with a given sum; zeros, ties and concentrated mass
inline std::vector<long> supplies(Rng& r, size_t n, long mass) {
   std::vector<long> a(n, 0);
   switch(r.below(5)) {
   case 0: a[r.below(n)] = mass; break;
   case 1: { size_t k = 1 + r.below(n); std::vector<size_t> p(n); for(size_t i = 0; i < n; ++i) p[i] = i; r.shuffle(p); for(size_t i = 0; i < k; ++i) a[p[i]] = mass / (long)k; a[p[0]] += mass - mass / (long)k * (long)k; break; }
   case 2: for(long i = 0; i < mass; ++i) ++a[r.below(n)]; break;
   default: { long left = mass; for(size_t i = 0; i + 1 < n; ++i) { a[i] = r.below((size_t)left + 1); if(r.chance(0.3)) a[i] = 0; left -= a[i]; } a[n - 1] = left; r.shuffle(a); }
   }
   return a;
}
inline double cost1(Rng& r, int style) {
   switch(style) {
   case 0: return (double)r.range(0, 2);
   case 1: return (double)r.range(-5, 9);
   case 2: return r.range(-40, 40) / 8.0;
   case 3: return r.chance(0.2) ? r.range(-4, 4) * 1e6 : (double)r.range(-3, 3);
   default: return (-3 + 10 * r.unit());
   }
}
template<class T> struct Costs { typedef T ValueType; size_t n; std::vector<T> v; const T& operator()(size_t x, size_t y) const { return v[x + y * n]; } };
template<class T, class MAT> void checkPlan(Ctx& c, const MAT& p, const std::vector<long>& a, const std::vector<long>& b, const std::vector<double>& cost, double rep, const char* tag) {
   const double eps = sizeof(T) == 4 ? 2e-5 : 1e-10; const size_t n = a.size(), m = b.size(); double A = 0; for(size_t i = 0; i < n; ++i) A += a[i];
   double z = 0, mag = 1; std::vector<double> rs(n, 0), cs(m, 0);
   for(size_t j = 0; j < m; ++j) for(size_t i = 0; i < n; ++i) { const double q = (double)p(i, j); VF_EXPECT(q >= -eps, std::string(tag) + "-plan-negative", "plan(" << i << "," << j << ")=" << q); rs[i] += q; cs[j] += q; z += q * cost[i + j * n]; mag = std::max(mag, std::fabs(cost[i + j * n])); }
   for(size_t i = 0; i < n; ++i) VF_EXPECT(std::fabs(rs[i] - a[i] / A) <= eps, std::string(tag) + "-plan-first-marginal", "label " << i << " has mass " << rs[i] << " expected " << a[i] / A);
   for(size_t j = 0; j < m; ++j) VF_EXPECT(std::fabs(cs[j] - b[j] / A) <= eps, std::string(tag) + "-plan-second-marginal", "label " << j << " has mass " << cs[j] << " expected " << b[j] / A);
   VF_EXPECT(std::fabs(z - rep) <= eps * mag * 10, std::string(tag) + "-reported-cost", "plan costs " << z << ", reported " << rep);
   c.count("plans");
}
template<class MAT, class T> struct MakeMat;
template<class T> struct MakeMat<Costs<T>, T> { static Costs<T> go(size_t n, size_t m, const std::vector<double>& v) { Costs<T> k; k.n = n; k.v.assign(v.begin(), v.end()); return k; } };
template<class T> struct MakeMat<TransportSolver::MatrixWrapper<T>, T> { static TransportSolver::MatrixWrapper<T> go(size_t n, size_t m, const std::vector<double>& v) { TransportSolver::MatrixWrapper<T> k(n, m); for(size_t j = 0; j < m; ++j) for(size_t i = 0; i < n; ++i) k(i, j) = (T)v[i + j * n]; return k; } };
template<class T, class OPT, class MAT> void solver(Ctx& c, size_t maxL) {
   typedef TransportSolver::TransportationSolver<OPT, MAT> Solver; Rng& r = c.rng; const bool mx = OPT::template bop<double>(1, 0);
   const size_t problems = 1 + r.below(4);
   Solver s0; Solver* s = &s0; std::unique_ptr<Solver> own; std::vector<MAT> keep; keep.reserve(problems + 1);
   for(size_t k = 0; k < problems; ++k) {
      const size_t n = 1 + r.below(maxL), m = 1 + r.below(maxL); const int st = (int)r.below(5);
      std::vector<double> cost(n * m); for(size_t i = 0; i < n * m; ++i) cost[i] = (double)(T)cost1(r, st);
      keep.push_back(MakeMat<MAT, T>::go(n, m, cost));
      if(k == 0 && r.chance(0.5)) { own.reset(new Solver(n, m, keep.back())); s = own.get(); } else s->Init(n, m, keep.back());
      c.digestV(cost); c.digest(n);
      for(size_t rep = 0; rep < 1 + r.below(3); ++rep) {
         const long mass = r.chance(0.5) ? (1l << r.below(6)) : 1 + (long)r.below(r.chance(0.5) ? 12 : 1000);
         const std::vector<long> a = supplies(r, n, mass), b = supplies(r, m, mass);
         // marginals may come with any (common) mass
         const double scale = r.chance(0.6) ? 1.0 / mass : r.chance(0.5) ? 1.0 : (0.2 + 3.8 * r.unit()) / mass; std::vector<T> fa(n), fb(m); for(size_t i = 0; i < n; ++i) fa[i] = (T)(a[i] * scale); for(size_t j = 0; j < m; ++j) fb[j] = (T)(b[j] * scale);
         // masses that are far below the others (but not zero) and marginals that agree only up to rounding
         if(sizeof(T) == 8 && r.chance(0.15)) { for(size_t i = 0; i < n; ++i) fa[i] = a[i] ? (T)(1e6 * a[i] / mass) : r.chance(0.7) ? (T)1e-10 : (T)0; for(size_t j = 0; j < m; ++j) fb[j] = b[j] ? (T)(1e6 * b[j] / mass) : r.chance(0.7) ? (T)1e-10 : (T)0; c.count("tiny-masses"); }
         c.digestV(a); c.digestV(b); c.digest(mx);
         std::ostringstream d; d << n << "x" << m << " costs " << vf::show(cost) << " first " << vf::show(a) << " second " << vf::show(b) << (mx ? " max" : " min") << " problem " << k << " solve " << rep; c.desc.str(""); c.desc << d.str();
         const double got = (double)s->Solve(fa.begin(), fb.begin()), want = cheapest(a, b, cost, mx); double mag = 1; for(size_t i = 0; i < n * m; ++i) mag = std::max(mag, std::fabs(cost[i]));
         const double eps = (sizeof(T) == 4 ? 3e-5 : 1e-9) * mag;
         VF_EXPECT(std::fabs(got - want) <= eps, "solve-not-optimal", "solver found " << got << ", optimum is " << want);
         VF_EXPECT(s->GetObjectiveValue() == (T)got, "objective-differs", "Solve returned " << got << " GetObjectiveValue " << s->GetObjectiveValue());
         TransportSolver::MatrixWrapper<T> p(n, m, (T)77); const double ret = (double)s->GetSolution(&p);
         VF_EXPECT(ret == got, "solution-value-differs", "GetSolution returned " << ret << " Solve " << got);
         checkPlan<T>(c, p, a, b, cost, got, "solver"); c.count("problems"); if(n > 1 && m > 1) c.count("nontrivial");
      }
   }
}
template<class T> void matrix(Ctx& c) {
   Rng& r = c.rng; const size_t n = 1 + r.below(6), m = 1 + r.below(6); TransportSolver::MatrixWrapper<T> a(n, m), t; std::vector<T> v;
   for(size_t j = 0; j < m; ++j) for(size_t i = 0; i < n; ++i) { a(i, j) = (T)r.range(-50, 50); v.push_back(a(i, j)); }
   c.digestV(v); c.digest(n); c.desc << "transpose";
   TransportSolver::transpose(a, t);
   VF_EXPECT(t.xsize() == m && t.ysize() == n, "transpose-shape", "transposed " << n << "x" << m << " is " << t.xsize() << "x" << t.ysize());
   for(size_t j = 0; j < m; ++j) for(size_t i = 0; i < n; ++i) VF_EXPECT(t(j, i) == v[i + j * n], "transpose-entry", "entry " << i << "," << j);
   // sparse list against a map, under push / insert / erase
   typedef TransportSolver::List2D<T> L; const size_t cap = n + m; L l(n, m, cap); std::map<std::pair<size_t, size_t>, T> ref; size_t pushed = 0; bool canInsert = true;
   L other(1, 1, 1); if(r.chance(0.5)) { other = l; }
   for(size_t step = 0; step < 20; ++step) {
      const size_t x = r.below(n), y = r.below(m); const T val = (T)r.range(0, 9); const size_t what = r.below(4);
      if(what == 0 && pushed + 1 < cap && !ref.count(std::make_pair(x, y)) && ref.size() == pushed) { VF_EXPECT(l.push(x, y, val), "list-push-refused", "push " << pushed << " of " << cap); ref[std::make_pair(x, y)] = val; ++pushed; }
      else if(what == 1 && !ref.count(std::make_pair(x, y))) { const bool ok = l.insert(x, y, val); VF_EXPECT(ok == canInsert, "list-insert", "insert returned " << ok << " free slot " << canInsert); if(ok) { ref[std::make_pair(x, y)] = val; canInsert = false; pushed = size_t(-2); } }
      else if(what == 2 && !ref.empty() && !canInsert) { typename std::map<std::pair<size_t, size_t>, T>::iterator it = ref.begin(); std::advance(it, r.below(ref.size())); typename L::iterator q = l.colBegin(it->first.first); while(q.coordinate() != it->first.second) ++q; VF_EXPECT(*q == it->second && q.x() == it->first.first && q.y() == it->first.second, "list-iterator", "iterator shows " << *q << " at " << q.x() << "," << q.y()); if(r.chance(0.5)) l.erase(q.index()); else l.erase(q); ref.erase(it); canInsert = true; }
      else if(what == 3) { L k(l); if(r.chance(0.5)) l = k; else { L z(3, 2, 4); z = l; l = z; } }
      TransportSolver::MatrixWrapper<T> tab(n, m); l.get2DTable(&tab); T dot = 0, want = 0;
      for(size_t j = 0; j < m; ++j) for(size_t i = 0; i < n; ++i) { const bool has = ref.count(std::make_pair(i, j)) > 0; const T w = has ? ref[std::make_pair(i, j)] : T(0); VF_EXPECT(tab(i, j) == w && l.getValue(i, j) == std::make_pair(has, w), "list-content", "entry " << i << "," << j << " is " << tab(i, j) << " expected " << w); want += w * v[i + j * n]; }
      dot = l.inner_product2D(a); VF_EXPECT(dot == want, "list-inner-product", "inner product " << dot << " expected " << want);
      VF_EXPECT(l.inner_product1D(v) == want, "list-inner-product", "flat inner product");
      c.count("list-steps");
   }
}
// ---- the primal bound
template<class GM, class ACC> void bound(Ctx& c, Style st) {
   typedef opengm::PrimalLPBound<GM, ACC> B; typedef typename B::ValueType T; Rng& r = c.rng; const bool mx = ACC::template bop<double>(1, 0);
   RefModel m = r.chance(0.4) ? randTreeModel(r, 1, 5, 1, 4, st, 0.2, 0.7, 0.0, 400) : randPairwise(r, 1, 5, 1, 4, 0.6, 0.7, st, 400);
   // scopes that occur twice, scopes in both orders of insertion, constants
   if(m.labels.size() > 1 && r.chance(0.4)) { std::vector<size_t> v; v.push_back(r.below(m.labels.size() - 1)); v.push_back(v[0] + 1); addRandFactor(r, m, v, st); }
   if(r.chance(0.3)) addRandFactor(r, m, std::vector<size_t>(), st);
   GM gm = buildExplicit<GM>(m); B b(gm); const size_t n = m.labels.size(); m.digest(c); c.digest(mx); c.desc.str(""); c.desc << m.str();
   for(size_t f = 0; f < m.f.size(); ++f) { VF_EXPECT(!b.IsValueBuffered(f) && !b.IsFactorVariableBuffered(f), "buffered-before-use", "factor " << f); if(m.f[f].vars.size() != 2) { if(r.chance(0.3)) VF_MUST_THROW(b.getFactorValue(f), "accepts-non-pairwise", "factor value of a factor of order " << m.f[f].vars.size()); } }
   for(size_t v = 0; v < n; ++v) { std::vector<T> w(m.labels[v], (T)5); b.getVariable(v, w.begin()); for(size_t i = 0; i < w.size(); ++i) VF_EXPECT(w[i] == 0, "initial-weights", "variable " << v); }
   std::vector<std::vector<long> > a(n); long mass = 1; bool integral = r.chance(0.3);
   const double tol = sizeof(T) == 4 ? 1e-4 : 1e-8;
   struct H { static double factor(const RefModel& m, const std::vector<std::vector<long> >& a, size_t f, bool mx) { const std::vector<size_t>& v = m.f[f].vars; const size_t p = m.labels[v[0]], q = m.labels[v[1]]; std::vector<double> cost(p * q); std::vector<size_t> sh = m.shape(f), t(2, 0); size_t k = 0; do cost[t[0] + t[1] * p] = m.f[f].tab[k++]; while(nextTuple(t, sh)); return cheapest(a[v[0]], a[v[1]], cost, mx); } };
   for(size_t v = 0; v < n; ++v) a[v].assign(m.labels[v], 0);
   for(size_t round = 0; round < 2 + r.below(3); ++round) {
      if(round == 0 || r.chance(0.3)) { mass = 1 + (long)r.below(r.chance(0.5) ? 4 : 40); integral = r.chance(0.3); for(size_t v = 0; v < n; ++v) { a[v] = supplies(r, m.labels[v], mass); if(integral) { a[v].assign(m.labels[v], 0); a[v][r.below(m.labels[v])] = mass; } std::vector<T> w(m.labels[v]); for(size_t i = 0; i < w.size(); ++i) w[i] = (T)a[v][i] / (T)mass; b.setVariable(v, w.begin()); } }
      if(r.chance(0.25)) { // the potentials of a factor change
         std::vector<size_t> fs; for(size_t f = 0; f < m.f.size(); ++f) fs.push_back(f); if(!fs.empty()) { const size_t f = fs[r.below(fs.size())]; typedef opengm::ExplicitFunction<typename GM::ValueType, typename GM::IndexType, typename GM::LabelType> F; F& fn = gm.template getFunction<F>(typename GM::FunctionIdentifier(gm[f].functionIndex(), gm[f].functionType())); std::vector<size_t> sh = m.shape(f), t(std::max<size_t>(1, sh.size()), 0); size_t k = 0; do { m.f[f].tab[k] = -m.f[f].tab[k] + 1; fn(t.begin()) = (typename GM::ValueType)m.f[f].tab[k]; ++k; } while(!sh.empty() && nextTuple(t, sh)); b.ResetBuffer(); for(size_t q = 0; q < m.f.size(); ++q) VF_EXPECT(!b.IsValueBuffered(q), "reset-keeps-buffer", "factor " << q); c.count("resets"); c.desc.str(""); c.desc << m.str(); } }
      for(size_t act = 0; act < 2 + r.below(6); ++act) {
         const size_t what = r.below(6);
         if(what == 0 && n) { const size_t v = r.below(n); a[v] = supplies(r, m.labels[v], mass); if(integral) { a[v].assign(m.labels[v], 0); a[v][r.below(m.labels[v])] = mass; } std::vector<T> w(m.labels[v]), g(m.labels[v], (T)9); for(size_t i = 0; i < w.size(); ++i) w[i] = (T)a[v][i] / (T)mass; b.setVariable(v, w.begin()); b.getVariable(v, g.begin()); VF_EXPECT(w == g, "variable-weights", "variable " << v);
            for(size_t f = 0; f < m.f.size(); ++f) if(std::find(m.f[f].vars.begin(), m.f[f].vars.end(), v) != m.f[f].vars.end()) VF_EXPECT(!b.IsValueBuffered(f), "stale-buffer", "factor " << f << " still buffered after variable " << v << " changed"); c.count("weight-updates"); }
         else if(what == 1 && m.f.size()) { const size_t f = r.below(m.f.size()); if(m.f[f].vars.size() == 2) { const double got = (double)b.getFactorValue(f), want = H::factor(m, a, f, mx); VF_EXPECT(close(got, want, tol, tol), "factor-value", "factor " << f << " value " << got << " expected " << want); VF_EXPECT(b.IsValueBuffered(f), "not-buffered", "factor " << f); c.count("factor-values"); } }
         else if(what == 2 && m.f.size()) { const size_t f = r.below(m.f.size()); if(m.f[f].vars.size() == 2) { const std::vector<size_t>& v = m.f[f].vars; const size_t p = m.labels[v[0]], q = m.labels[v[1]]; std::vector<double> cost(p * q); std::vector<size_t> sh = m.shape(f), t(2, 0); size_t k = 0; do cost[t[0] + t[1] * p] = m.f[f].tab[k++]; while(nextTuple(t, sh)); TransportSolver::MatrixWrapper<T> pl(p, q, (T)5); const double got = (double)b.getFactorVariable(f, pl), want = cheapest(a[v[0]], a[v[1]], cost, mx); VF_EXPECT(close(got, want, tol, tol), "factor-variable-value", "factor " << f << " value " << got << " expected " << want); checkPlan<T>(c, pl, a[v[0]], a[v[1]], cost, got, "bound"); VF_EXPECT(b.IsFactorVariableBuffered(f), "plan-not-buffered", "factor " << f); } }
         else if(what == 3 && n) { const size_t v = r.below(n); double want = 0; for(size_t f = 0; f < m.f.size(); ++f) if(m.f[f].vars.size() == 1 && m.f[f].vars[0] == v) for(size_t i = 0; i < m.labels[v]; ++i) want += m.f[f].tab[i] * a[v][i] / (double)mass; const double got = (double)b.getVariableValue(v); VF_EXPECT(close(got, want, tol, tol), "variable-value", "variable " << v << " value " << got << " expected " << want); c.count("variable-values"); }
         else {
            double want = 0; for(size_t f = 0; f < m.f.size(); ++f) { const std::vector<size_t>& v = m.f[f].vars; if(v.empty()) want += m.f[f].tab[0]; else if(v.size() == 1) { for(size_t i = 0; i < m.labels[v[0]]; ++i) want += m.f[f].tab[i] * a[v[0]][i] / (double)mass; } else want += H::factor(m, a, f, mx); }
            const double got = (double)b.getTotalValue(); VF_EXPECT(close(got, want, tol, tol), "total-value", "total " << got << " expected " << want); c.count("totals");
            // every value with feasible weights bounds the relaxed optimum from above; that of any single labeling too
            if(integral) { std::vector<size_t> l(n); for(size_t v = 0; v < n; ++v) l[v] = std::max_element(a[v].begin(), a[v].end()) - a[v].begin(); const double e = m.eval(l, SUM); VF_EXPECT(close(got, e, tol, tol), "integral-value", "total " << got << " labeling costs " << e); c.count("integral"); }
         }
      }
   }
}
template<class GM, class ACC> void refuse(Ctx& c) {
   typedef opengm::PrimalLPBound<GM, ACC> B; Rng& r = c.rng; RefModel m = randPairwise(r, 2, 4, 2, 3, 0.6, 0.6, SMALLINT, 200); const bool dup = r.chance(0.5); m.digest(c); c.desc.str(""); c.desc << m.str();
   if(dup) { const size_t v = r.below(m.labels.size()); addRandFactor(r, m, std::vector<size_t>(1, v), SMALLINT); addRandFactor(r, m, std::vector<size_t>(1, v), SMALLINT); GM gm = buildExplicit<GM>(m); VF_MUST_THROW({ B b(gm); }, "accepts-duplicate-unaries", "two unary factors of one variable"); c.count("duplicates"); }
   else { if(m.labels.size() < 3) m.labels.push_back(2); std::vector<size_t> v; for(size_t i = 0; i < 3; ++i) v.push_back(i); addRandFactor(r, m, v, SMALLINT); GM gm = buildExplicit<GM>(m); B b(gm); for(size_t i = 0; i < m.labels.size(); ++i) { std::vector<typename B::ValueType> w(m.labels[i], 0); w[r.below(w.size())] = 1; b.setVariable(i, w.begin()); } VF_MUST_THROW(b.getTotalValue(), "accepts-third-order", "third order factor"); c.count("third-order"); }
}
}
