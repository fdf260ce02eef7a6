#include <indfactor.hpp>
#include <opengm/operations/and.hxx>
#include <opengm/operations/or.hxx>
#include <opengm/operations/logsumexp.hxx>
#include <opengm/utilities/accumulation.hxx>
VF_WIDE(0.05)
using namespace vf;
namespace {
template<class ACC> struct IsOpt : std::false_type {}; template<> struct IsOpt<opengm::Minimizer> : std::true_type {}; template<> struct IsOpt<opengm::Maximizer> : std::true_type {};
// accumulation with labels exists for the optimising operations only
struct WithLabels {
   template<class ACC, class F, class T, class L> static void free(const F& f, T& v, std::vector<L>& st, std::true_type) { opengm::accumulate<ACC>(f, v, st); }
   template<class ACC, class F, class T, class L> static void free(const F&, T&, std::vector<L>&, std::false_type) {}
   template<class ACC, class F, class T, class L> static void member(const F& f, T& v, std::vector<L>& st, std::true_type) { f.template accumulate<ACC>(v, st); }
   template<class ACC, class F, class T, class L> static void member(const F&, T&, std::vector<L>&, std::false_type) {}
   template<class R, class T, class S> static void run(R& r, const T& v, const S& s, std::true_type) { r(v, s); }
   template<class R, class T, class S> static void run(R& r, const T& v, const S&, std::false_type) { r(v); }
};
enum Acc { A_MIN, A_MAX, A_SUM, A_INT, A_PROD, A_AND, A_OR, A_LSE, A_N };
double fold(Acc a, const std::vector<double>& v) {
   double r = 0; bool first = true; 
   if(a == A_LSE) { double mx = *std::max_element(v.begin(), v.end()); if(std::isinf(mx)) return mx; double s = 0; for(size_t i = 0; i < v.size(); ++i) s += std::exp(v[i] - mx); return mx + std::log(s); }
   for(size_t i = 0; i < v.size(); ++i) { const double x = v[i]; if(first) { r = a == A_AND || a == A_OR ? (double)(x != 0) : x; first = false; continue; }
      switch(a) { case A_MIN: r = std::min(r, x); break; case A_MAX: r = std::max(r, x); break; case A_SUM: case A_INT: r += x; break; case A_PROD: r *= x; break; case A_AND: r = r != 0 && x != 0; break; default: r = r != 0 || x != 0; } }
   return r;
}
RefFactor eliminate(const RefModel& m, const RefFactor& f, const std::set<size_t>& out, Acc a) {
   RefFactor g; std::vector<size_t> gone, sh, so; for(size_t k = 0; k < f.vars.size(); ++k) if(out.count(f.vars[k])) { gone.push_back(f.vars[k]); so.push_back(m.labels[f.vars[k]]); } else { g.vars.push_back(f.vars[k]); sh.push_back(m.labels[f.vars[k]]); }
   std::vector<size_t> l(m.labels.size(), 0), t(sh.size(), 0);
   do { for(size_t k = 0; k < t.size(); ++k) l[g.vars[k]] = t[k]; std::vector<double> v; std::vector<size_t> u(so.size(), 0);
      do { for(size_t k = 0; k < u.size(); ++k) l[gone[k]] = u[k]; v.push_back(valueAt(m, f, l)); } while(nextTuple(u, so));
      g.tab.push_back(gone.empty() ? v[0] : fold(a, v)); } while(nextTuple(t, sh));
   return g;
}
template<class ACC, class Ind, class GM> void one(Ctx& c, const GM& gm, const MixedModel& mm, size_t fi, const RefFactor& rf, bool fromGm, Acc a, double tol) {
   typedef typename GM::ValueType T; typedef typename GM::LabelType L; typedef typename GM::IndexType I; const RefModel& m = mm.ref; Rng& r = c.rng;
   const std::string src = fromGm ? "factor" : "independent";
   Ind A = fromGm ? Ind(gm[fi]) : makeInd<Ind>(r, m, rf); const Ind& CA = A;
   #define SAME(G, REF, KEY) { const std::string d_ = diffFactor(G, m, REF, tol); VF_EXPECT(d_.empty(), KEY, d_ << " accumulation " << a << " over " << show(order) << " of " << show(rf.vars) << show(rf.tab)); }
   #define CLOSE(V, KEY) { const double v_ = (double)(V); VF_EXPECT(v_ == want || (tol > 0 && close(v_, want, tol, tol)), KEY, v_ << " expected " << want << " accumulation " << a << " of " << show(rf.vars) << show(rf.tab)); }
   // everything
   { std::vector<size_t> order = rf.vars; const double want = fold(a, rf.tab); T v = T(77); 
     if(fromGm) opengm::accumulate<ACC>(gm[fi], v); else opengm::accumulate<ACC>(CA, v); CLOSE(v, "all/value-" + src)
     v = T(77); CA.template accumulate<ACC>(v); CLOSE(v, "all/member")
     if(a == A_MIN || a == A_MAX) {
        std::vector<L> st(r.below(4), L(1)); v = T(77); if(fromGm) WithLabels::free<ACC>(gm[fi], v, st, IsOpt<ACC>()); else WithLabels::member<ACC>(CA, v, st, IsOpt<ACC>());
        CLOSE(v, "all/value-with-labels-" + src)
        bool ok = st.size() == rf.vars.size(); std::vector<size_t> l(m.labels.size(), 0); for(size_t k = 0; ok && k < st.size(); ++k) { ok = st[k] < m.labels[rf.vars[k]]; l[rf.vars[k]] = st[k]; }
        VF_EXPECT(ok && valueAt(m, rf, l) == want, "all/labels-" + src, "labels " << show(toSize(st)) << " of " << show(rf.vars) << show(rf.tab) << " optimum " << want); c.count("optimal labels checked");
     } }
   // some variables, in any order, variables of other factors among them
   for(int it = 0; it < 3; ++it) {
      std::vector<size_t> order; for(size_t v = 0; v < m.labels.size(); ++v) { bool in = std::find(rf.vars.begin(), rf.vars.end(), v) != rf.vars.end(); if(r.chance(in ? 0.5 : 0.15)) order.push_back(v); } r.shuffle(order);
      const std::set<size_t> out(order.begin(), order.end()); const RefFactor want = eliminate(m, rf, out, a); std::vector<I> vi(order.begin(), order.end()); vi.reserve(1);
      RefFactor w2 = want; bool none = want.vars.size() == rf.vars.size() && !rf.vars.empty(); (void)none;
      { Ind x; if(r.chance(0.5)) x = makeInd<Ind>(r, m, randRef(r, m, 3, TIES)); if(fromGm) opengm::accumulate<ACC>(gm[fi], vi.begin(), vi.end(), x); else opengm::accumulate<ACC>(CA, vi.begin(), vi.end(), x); SAME(x, want, "some/free-" + src) }
      { Ind x; if(r.chance(0.5)) x = A; CA.template accumulate<ACC>(vi.begin(), vi.end(), x); SAME(x, want, "some/member") SAME(A, rf, "some/operand-changed") }
      { Ind x(A); x.template accumulate<ACC>(vi.begin(), vi.end()); SAME(x, want, "some/member-in-place") }
      { Ind x(A); opengm::accumulate<ACC>(x, vi.begin(), vi.end()); SAME(x, want, "some/free-in-place") }
      // one variable after the other gives the same (min, max, sum, product, and, or are associative and commutative)
      { Ind x(A); for(size_t k = 0; k < vi.size(); ++k) x.template accumulate<ACC>(vi.begin() + k, vi.begin() + k + 1); SAME(x, want, "some/one-by-one") }
      c.count("eliminations"); c.digestV(order); if(want.vars.empty()) c.count("eliminations leaving no variable"); if(want.vars.size() == rf.vars.size()) c.count("eliminations of no variable");
   }
   #undef SAME
   #undef CLOSE
}
template<class GM> void accCase(Ctx& c, const MixedModel& mm, Style st, bool logical, bool infinite, bool lse) {
   typedef typename GM::ValueType T; typedef opengm::IndependentFactor<T, typename GM::IndexType, typename GM::LabelType> Ind; const RefModel& m = mm.ref; Rng& r = c.rng;
   c.desc << mm.str(); m.digest(c); GM gm = buildMixed<GM>(r, mm);
   for(int it = 0; it < 3; ++it) {
      const bool g = !m.f.empty() && r.chance(0.6); const size_t fi = g ? r.below(m.f.size()) : 0; RefFactor rf = g ? m.f[fi] : randRef(r, m, 4, st);
      if(!g && infinite) for(size_t i = 0; i < rf.tab.size(); ++i) if(r.chance(0.6)) rf.tab[i] = r.chance(0.8) ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
      const bool inf = !g && infinite;
      bool big = false; { double p = 1; for(size_t i = 0; i < rf.tab.size(); ++i) p *= std::max(1.0, std::fabs(rf.tab[i])); big = p > (std::numeric_limits<T>::has_infinity ? 1e30 : 1e9); }
      one<opengm::Minimizer, Ind>(c, gm, mm, fi, rf, g, A_MIN, 0); one<opengm::Maximizer, Ind>(c, gm, mm, fi, rf, g, A_MAX, 0);
      if(!inf) { one<opengm::Adder, Ind>(c, gm, mm, fi, rf, g, A_SUM, 0); one<opengm::Integrator, Ind>(c, gm, mm, fi, rf, g, A_INT, 0);
         if(!big) one<opengm::Multiplier, Ind>(c, gm, mm, fi, rf, g, A_PROD, 1e-6); }
      if(lse) { bool mixed = false; for(size_t i = 0; i < rf.tab.size(); ++i) mixed = mixed || rf.tab[i] == std::numeric_limits<double>::infinity(); if(!mixed) one<opengm::Logsumexp, Ind>(c, gm, mm, fi, rf, g, A_LSE, 1e-5); }
      (void)logical;
   }
}
template<class GM> void logicalCase(Ctx& c, const MixedModel& mm) {
   typedef opengm::IndependentFactor<typename GM::ValueType, typename GM::IndexType, typename GM::LabelType> Ind; const RefModel& m = mm.ref; Rng& r = c.rng;
   c.desc << mm.str(); m.digest(c); GM gm = buildMixed<GM>(r, mm);
   for(int it = 0; it < 3; ++it) { const bool g = !m.f.empty() && r.chance(0.6); const size_t fi = g ? r.below(m.f.size()) : 0; RefFactor rf = g ? m.f[fi] : randRef(r, m, 4, TIES);
      for(size_t i = 0; i < rf.tab.size(); ++i) { if(!g) rf.tab[i] = rf.tab[i] > 0; }
      one<opengm::And, Ind>(c, gm, mm, fi, rf, g, A_AND, 0); one<opengm::Or, Ind>(c, gm, mm, fi, rf, g, A_OR, 0); }
}
void binarise(MixedModel& m) { for(size_t i = 0; i < m.fn.size(); ++i) { FnSpec& s = m.fn[i]; for(size_t k = 0; k < s.par.size(); ++k) s.par[k] = s.par[k] > 0; for(size_t k = 0; k < s.tab.size(); ++k) s.tab[k] = s.tab[k] > 0; for(std::map<std::vector<size_t>, double>::iterator q = s.sparse.begin(); q != s.sparse.end(); ++q) q->second = q->second > 0; }
   for(size_t i = 0; i < m.ref.f.size(); ++i) m.ref.f[i].tab = m.fn[m.fnOfFactor[i]].tab; }
typedef FnTypes<double, size_t, size_t> D;
}
VF_SCENARIO(accumulate_double, 1200, 25000) {
   typedef opengm::GraphicalModel<double, opengm::Adder, D::All, opengm::DiscreteSpace<> > GM; const Style s[] = {SMALLINT, DYADIC, TIES}; const Style st = s[c.rng.below(3)];
   accCase<GM>(c, randMixed(c.rng, 1, 6, 1, 4, 4, 5, st, 0.1), st, false, c.rng.chance(0.4), true);
}
VF_SCENARIO(accumulate_float_small, 700, 15000) {
   typedef FnTypes<float, unsigned, unsigned char> F; typedef opengm::GraphicalModel<float, opengm::Multiplier, F::Three, opengm::DiscreteSpace<unsigned, unsigned char> > GM; const Style s[] = {SMALLINT, POW2, TIES}; const Style st = s[c.rng.below(3)];
   const std::vector<FnKind> k = {F_EXPLICIT, F_POTTS, F_POTTSN}; accCase<GM>(c, randMixed(c.rng, 1, 5, 1, 4, 3, 5, st, 0.1, false, 2048, &k), st, false, c.rng.chance(0.4), true);
}
VF_SCENARIO(accumulate_int, 700, 15000) {
   typedef FnTypes<int, size_t, size_t> F; typedef opengm::GraphicalModel<int, opengm::Adder, F::Three, opengm::DiscreteSpace<> > GM;
   const std::vector<FnKind> k = {F_EXPLICIT, F_POTTS, F_POTTSN}; accCase<GM>(c, randMixed(c.rng, 1, 5, 1, 4, 3, 5, SMALLINT, 0.1, false, 2048, &k), SMALLINT, false, false, false);
}
VF_SCENARIO(accumulate_logical, 700, 15000) {
   const std::vector<FnKind> k = {F_EXPLICIT, F_POTTS, F_POTTSN}; MixedModel m = randMixed(c.rng, 1, 5, 1, 4, 3, 5, TIES, 0.1, false, 2048, &k); binarise(m);
   if(c.rng.chance(0.5)) { typedef FnTypes<bool, size_t, size_t> F; typedef opengm::GraphicalModel<bool, opengm::And, opengm::meta::TypeListGenerator<F::Explicit, F::Potts, F::PottsN>::type, opengm::DiscreteSpace<> > GM; logicalCase<GM>(c, m); }
   else { typedef FnTypes<int, size_t, size_t> F; typedef opengm::GraphicalModel<int, opengm::Adder, F::Three, opengm::DiscreteSpace<> > GM; logicalCase<GM>(c, m); }
}
// the accumulation operations themselves: neutral and inverse elements, inverse operations, running accumulation
namespace {
template<class ACC, class T, class R> void optimum(Ctx& c, Acc a, const std::string& n, const std::vector<double>& v, const R& run, std::true_type) { const size_t len = v.size();
   VF_EXPECT(ACC::hasbop() && run.size() == 1 && v[run.state(0)] == fold(a, v), n + "/running-state", show(v)); opengm::FastSequence<size_t> s; run.state(s); std::vector<size_t> s2; run.state(s2); VF_EXPECT(s.size() == 1 && s2.size() == 1 && s[0] == s2[0] && s[0] == run.state(0), n + "/state-forms", ""); 
      for(size_t i = 0; i < len; ++i) for(size_t j = 0; j < len; ++j) { VF_EXPECT(ACC::bop(T(v[i]), T(v[j])) == (a == A_MIN ? v[i] < v[j] : v[i] > v[j]), n + "/better", ""); VF_EXPECT(ACC::ibop(T(v[i]), T(v[j])) == (a == A_MIN ? v[i] > v[j] : v[i] < v[j]), n + "/worse", ""); }
      T w = ACC::template ineutral<T>(), w2; ACC::ineutral(w2); VF_EXPECT(w == w2, n + "/ineutral-forms", ""); for(size_t i = 0; i < len; ++i) ACC::iop(T(v[i]), w); VF_EXPECT((double)w == fold(a == A_MIN ? A_MAX : A_MIN, v), n + "/inverse-operation", w << " " << show(v)); }
template<class ACC, class T, class R> void optimum(Ctx&, Acc, const std::string&, const std::vector<double>&, const R&, std::false_type) {}
template<class ACC, class T> void inverse(Ctx& c, Acc a, const std::string& n, const std::vector<double>& v, double want, T acc, std::true_type) {
   if(a == A_PROD && v[0] == 0) return; T x = acc; ACC::iop(T(v[0]), x); T y = T(9); ACC::iop(acc, T(v[0]), y); if(a != A_PROD || v[0] != 0) { const double rest = a == A_PROD ? want / v[0] : want - v[0]; VF_EXPECT((double)x == rest, n + "/inverse-in-place", x << " expected " << rest); VF_EXPECT((double)y == rest, n + "/inverse", y << " expected " << rest); } }
template<class ACC, class T> void inverse(Ctx&, Acc, const std::string&, const std::vector<double>&, double, T, std::false_type) {}
}
namespace { template<class ACC, class T> void algebra(Ctx& c, Acc a, const char* name) {
   Rng& r = c.rng; const std::string n = name; std::vector<double> v; const size_t len = 1 + r.below(6);
   for(size_t i = 0; i < len; ++i) v.push_back(a == A_AND || a == A_OR ? (double)r.below(2) : a == A_PROD ? drawValue(r, std::numeric_limits<T>::has_infinity ? POW2 : TIES) : (double)r.range(-9, 9)); for(size_t i = 0; i < len; ++i) c.digestD(v[i]);
   const double want = fold(a, v); T acc = ACC::template neutral<T>(), acc3 = acc, byRef; ACC::neutral(byRef); VF_EXPECT(byRef == acc, n + "/neutral-forms", byRef);
   opengm::Accumulation<T, size_t, ACC> run; std::vector<size_t> at(1);
   for(size_t i = 0; i < len; ++i) { ACC::op(T(v[i]), acc); T out = T(5); ACC::op(T(v[i]), acc3, out); acc3 = out; at[0] = i; if(r.chance(0.5)) WithLabels::run(run, T(v[i]), at, IsOpt<ACC>()); else { opengm::FastSequence<size_t> q(1); q[0] = i; WithLabels::run(run, T(v[i]), q, IsOpt<ACC>()); } }
   const double tol = a == A_LSE ? 1e-5 : 0; VF_EXPECT((double)acc == want || close(acc, want, tol, tol), n + "/in-place", acc << " expected " << want << " " << show(v)); VF_EXPECT((double)acc3 == want || close(acc3, want, tol, tol), n + "/three-operands", acc3 << " expected " << want << " " << show(v));
   VF_EXPECT((double)run.value() == want || close(run.value(), want, tol, tol), n + "/running", run.value() << " " << show(v));
   optimum<ACC, T>(c, a, n, v, run, IsOpt<ACC>());
   inverse<ACC, T>(c, a, n, v, want, acc, std::integral_constant<bool, !IsOpt<ACC>::value && !std::is_same<ACC, opengm::And>::value && !std::is_same<ACC, opengm::Or>::value && !std::is_same<ACC, opengm::Logsumexp>::value>());
   run.clear(); VF_EXPECT(run.value() == ACC::template neutral<T>() && run.size() == 0, n + "/clear", run.value()); VF_EXPECT(run.neutral() == ACC::template neutral<T>(), n + "/neutral", run.neutral());
   c.count("operation sequences");
} }
VF_SCENARIO(operation_algebra, 1500, 30000) {
   switch(c.rng.below(14)) { case 0: algebra<opengm::Minimizer, double>(c, A_MIN, "min"); break; case 1: algebra<opengm::Maximizer, double>(c, A_MAX, "max"); break; case 2: algebra<opengm::Adder, double>(c, A_SUM, "sum"); break;
   case 3: algebra<opengm::Integrator, double>(c, A_INT, "integrate"); break; case 4: algebra<opengm::Multiplier, double>(c, A_PROD, "product"); break; case 5: algebra<opengm::Logsumexp, double>(c, A_LSE, "logsumexp"); break;
   case 6: algebra<opengm::Minimizer, int>(c, A_MIN, "min-int"); break; case 7: algebra<opengm::Maximizer, int>(c, A_MAX, "max-int"); break; case 8: algebra<opengm::Minimizer, float>(c, A_MIN, "min-float"); break; case 9: algebra<opengm::Maximizer, float>(c, A_MAX, "max-float"); break;
   case 10: algebra<opengm::And, bool>(c, A_AND, "and"); break; case 11: algebra<opengm::Or, bool>(c, A_OR, "or"); break; case 12: algebra<opengm::Adder, int>(c, A_SUM, "sum-int"); break; default: algebra<opengm::Multiplier, int>(c, A_PROD, "product-int"); }
}
