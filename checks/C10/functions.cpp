#include "common.hpp"
#include "../C18/common.hpp"
#include "../C09/common.hpp"
#include <opengm/functions/singlesitefunction.hxx>
#include <opengm/functions/fieldofexperts.hxx>
#include <opengm/functions/constraint_functions/label_order_function.hxx>
#include <opengm/functions/constraint_functions/num_labels_limitation_function.hxx>
#include <opengm/functions/constraint_functions/linear_constraint_function.hxx>
#include <opengm/functions/soft_constraint_functions/label_cost_function.hxx>
#include <opengm/functions/soft_constraint_functions/sum_constraint_function.hxx>
using namespace c10;
namespace {
template<class T, class I, class L> struct Make2 { const FnSpec& b; Ctx& c; Make2(const FnSpec& s, Ctx& k) : b(s), c(k) {} 
   template<class F> struct Inner { Ctx& c; const F& f; Inner(Ctx& k, const F& g) : c(k), f(g) {} void operator()(const F& g) { roundTrip(c, f, g, "plain"); } template<class G> void operator()(const G&) {} };
   template<class F> void operator()(const F& f) { Inner<F> in(c, f); withFunction<T, I, L>(b, in); } };
template<class T, class I, class L> void plain(Ctx& c) {
   Rng& r = c.rng; const size_t d = r.below(5); std::vector<size_t> sh, sh2; const bool same = r.chance(0.4); for(size_t i = 0; i < d; ++i) { sh.push_back(same && i ? sh[0] : 1 + r.below(5)); sh2.push_back(1 + r.below(5)); }
   const Style st = std::numeric_limits<T>::is_integer ? SMALLINT : sumStyle(r); const FnKind k = randKind(r, d); FnSpec a = randSpec(r, k, sh, st), b = randSpec(r, k, sh2, st); c.desc << a.str() << " over " << b.str(); c.digest(k);
   Make2<T, I, L> m(b, c); withFunction<T, I, L>(a, m);
}
template<class T> T val(Rng& r) { return (T)(r.range(-16, 16) / 4.0); }
template<class T, class I, class L> void special(Ctx& c) {
   Rng& r = c.rng; const size_t k = r.below(8); c.digest(k); c.desc << "kind " << k;
   if(k == 0) { typedef opengm::FoEFunction<T, I, L> F; F f[2]; for(int i = 0; i < 2; ++i) { const size_t ord = 1 + r.below(3), ne = 1 + r.below(3); std::vector<T> e, a; for(size_t j = 0; j < ord * ne; ++j) e.push_back(val<T>(r)); for(size_t j = 0; j < ne; ++j) a.push_back(val<T>(r)); f[i] = F(e.begin(), a.begin(), (L)(1 + r.below(4)), (I)ord, ne); } roundTrip(c, f[0], f[1], "fields-of-experts"); }
   if(k == 1) { typedef opengm::LabelOrderFunction<T, I, L> F; std::vector<F> f; for(int i = 0; i < 2; ++i) { const size_t a = 1 + r.below(4), b = 1 + r.below(4); std::vector<T> o; for(size_t j = 0; j < std::max(a, b); ++j) o.push_back(val<T>(r)); f.push_back(F((L)a, (L)b, o, val<T>(r), val<T>(r))); } roundTrip(c, f[0], f[1], "label-order"); }
   if(k == 2) { typedef opengm::NumLabelsLimitationFunction<T, I, L> F; std::vector<F> f; for(int i = 0; i < 2; ++i) { std::vector<L> sh; size_t n = 1 + r.below(4), mx = 1; const bool same = r.chance(0.4); for(size_t j = 0; j < n; ++j) { sh.push_back(same && j ? sh[0] : (L)(1 + r.below(4))); mx = std::max(mx, (size_t)sh[j]); } if(same && r.chance(0.5)) f.push_back(F((I)n, sh[0], (L)(1 + r.below(mx)), val<T>(r), val<T>(r))); else f.push_back(F(sh.begin(), sh.end(), (L)(1 + r.below(mx)), val<T>(r), val<T>(r))); } roundTrip(c, f[0], f[1], "label-limit"); }
   if(k == 3) { typedef opengm::LinearConstraintFunction<T, I, L> F; typedef typename F::LinearConstraintType LC; std::vector<F> f; for(int i = 0; i < 2; ++i) { std::vector<size_t> sh; const size_t n = 1 + r.below(3); for(size_t j = 0; j < n; ++j) sh.push_back(1 + r.below(4)); std::vector<LC> con; const size_t m = 1 + r.below(3); for(size_t j = 0; j < m; ++j) con.push_back(c18::makeCon<LC>(r, c18::randCon(r, n, sh, 1, 4, 1, 3))); std::vector<L> s(sh.begin(), sh.end()); f.push_back(F(s.begin(), s.end(), con, val<T>(r), val<T>(r))); }
      roundTrip(c, f[0], f[1], "linear-constraint"); }
   if(k == 4) { typedef opengm::LabelCostFunction<T, I, L> F; std::vector<F> f; for(int i = 0; i < 2; ++i) { std::vector<L> sh; size_t n = 1 + r.below(4), mx = 1; const bool same = r.chance(0.4); for(size_t j = 0; j < n; ++j) { sh.push_back(same && j ? sh[0] : (L)(1 + r.below(4))); mx = std::max(mx, (size_t)sh[j]); } const bool single = r.chance(0.4); std::vector<T> co; for(size_t j = 0; j < mx; ++j) co.push_back(val<T>(r)); const L lab = (L)r.below(mx);
         if(same && r.chance(0.5)) f.push_back(single ? F((I)n, sh[0], lab, co[0]) : F((I)n, sh[0], co.begin(), co.end())); else f.push_back(single ? F(sh.begin(), sh.end(), lab, co[0]) : F(sh.begin(), sh.end(), co.begin(), co.end())); } roundTrip(c, f[0], f[1], "label-cost"); }
   if(k == 5) { typedef opengm::SumConstraintFunction<T, I, L> F; std::vector<F> f; for(int i = 0; i < 2; ++i) { std::vector<L> sh; size_t n = 1 + r.below(4), mx = 1, all = 0; const bool same = r.chance(0.4), share = r.chance(0.5); for(size_t j = 0; j < n; ++j) { sh.push_back(same && j ? sh[0] : (L)(1 + r.below(4))); mx = std::max(mx, (size_t)sh[j]); all += sh[j]; } std::vector<T> co; for(size_t j = 0; j < (share ? mx : all); ++j) co.push_back(val<T>(r)); const T la = val<T>(r), bo = val<T>(r);
         if(same && r.chance(0.5)) f.push_back(F((I)n, sh[0], co.begin(), co.end(), share, la, bo)); else f.push_back(F(sh.begin(), sh.end(), co.begin(), co.end(), share, la, bo)); } roundTrip(c, f[0], f[1], "label-sum"); }
   if(k == 6) { typedef opengm::DynamicSingleSiteFunction<T> F; F f(1 + r.below(5), T(0)), g(1 + r.below(5), T(3)); for(size_t i = 0; i < f.size(); ++i) f[i] = val<T>(r); roundTrip(c, f, g, "single-site-dynamic"); }
   if(k == 7) { typedef opengm::StaticSingleSiteFunction<T, 4, opengm::StackStorage> F; F f, g; typedef opengm::StaticSingleSiteFunction<T, 3, opengm::HeapStorage> H; H h, h2; for(size_t i = 0; i < 4; ++i) { f(&i) = val<T>(r); g(&i) = val<T>(r); } for(size_t i = 0; i < 3; ++i) { h(&i) = val<T>(r); h2(&i) = val<T>(r); } roundTrip(c, f, g, "single-site-stack"); roundTrip(c, h, h2, "single-site-heap"); }
}
template<class W> struct SetW { const W& w; SetW(const W& x) : w(x) {} template<class F> void operator()(F& f) const { f.setWeights(w); } };
template<class T, class I, class L> struct Learn2 { typedef opengm::learning::Weights<T> W; const c09::Spec& b; const W& w; Ctx& c; Learn2(const c09::Spec& s, const W& x, Ctx& k) : b(s), w(x), c(k) {}
   template<class F> struct Inner { Ctx& c; const F& f; const W& w; Inner(Ctx& k, const F& g, const W& x) : c(k), f(g), w(x) {} void operator()(const F& g) { roundTrip(c, f, g, "learnable", SetW<W>(w)); } template<class G> void operator()(const G&) {} };
   template<class F> void operator()(const F& f) { Inner<F> in(c, f, w); c09::withFunction<T, I, L>(b, w, in); } };
template<class T, class I, class L> void learnable(Ctx& c) {
   Rng& r = c.rng; const size_t nw = 1 + r.below(5); typename Learn2<T, I, L>::W w(nw); for(size_t i = 0; i < nw; ++i) w.setWeight(i, val<T>(r));
   const int kind = (int)r.below(4); std::vector<size_t> a, b; if(kind == 0) { a.assign(2, 1 + r.below(4)); b.assign(2, 1 + r.below(4)); } else { const size_t d = kind == 3 ? 1 + r.below(3) : 1; for(size_t i = 0; i < d; ++i) { a.push_back(1 + r.below(4)); b.push_back(1 + r.below(4)); } }
   c09::Spec s = c09::randSpec(r, nw, kind, a), t = c09::randSpec(r, nw, kind, b); c.desc << s.str() << " over " << t.str(); Learn2<T, I, L> m(t, w, c); c09::withFunction<T, I, L>(s, w, m);
}
}
VF_SCENARIO(functions_double, 700, 20000) { plain<double, size_t, size_t>(c); }
VF_SCENARIO(functions_float, 400, 10000) { plain<float, unsigned, unsigned char>(c); }
VF_SCENARIO(functions_int, 300, 10000) { plain<int, size_t, unsigned short>(c); }
VF_SCENARIO(special_functions, 500, 20000) { special<double, size_t, size_t>(c); }
VF_SCENARIO(special_functions_float, 300, 10000) { special<float, unsigned, unsigned char>(c); }
VF_SCENARIO(learnable_functions, 400, 15000) { learnable<double, size_t, size_t>(c); }
VF_SCENARIO(learnable_functions_float, 200, 8000) { learnable<float, unsigned, unsigned char>(c); }
