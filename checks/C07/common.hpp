// Views compared with the table obtained by computing the operation directly
// on the table of the underlying factor.
#pragma once
#include <functions.hpp>
#include <opengm/functions/view.hxx>
#include <opengm/functions/scaled_view.hxx>
#include <opengm/functions/view_fix_variables_function.hxx>
#include <opengm/functions/view_convert_function.hxx>
#include <opengm/functions/accumulated_view.hxx>
#include <opengm/functions/modelviewfunction.hxx>
namespace c07 {
using namespace vf;
template<class GM> struct Views {
   typedef typename GM::ValueType T; typedef typename GM::IndexType I; typedef typename GM::LabelType L;
   typedef opengm::ViewFunction<GM> View;
   typedef opengm::ScaledViewFunction<GM> Scaled;
   typedef opengm::ViewFixVariablesFunction<GM> Fix;
   typedef opengm::ModelViewFunction<GM, marray::Marray<T> > ModelView;
   typedef opengm::AccumulatedViewFunction<GM> Accumulated;
   typedef opengm::ExplicitFunction<T, I, L> Explicit;
   typedef typename opengm::meta::TypeListGenerator<View, Scaled, Fix, ModelView, Accumulated, Explicit>::type List;
   typedef opengm::GraphicalModel<T, typename GM::OperatorType, List, typename GM::SpaceType> Model;
};
inline double tolOf(const double&) { return 1e-12; }
inline double tolOf(const float&) { return 1e-5; }
// a function compared with a table
template<class F> void compare(Ctx& c, const F& f, const std::vector<size_t>& sh, const std::vector<double>& tab, const std::string& k) {
   typedef typename F::ValueType T; const double tol = tolOf(T());
   VF_CHECK(f.dimension() == sh.size(), k + "/dimension", (size_t)f.dimension() << " shape" << show(sh));
   for(size_t i = 0; i < sh.size(); ++i) VF_CHECK(f.shape(i) == sh[i], k + "/shape", i << " " << (size_t)f.shape(i) << " shape" << show(sh));
   VF_CHECK(f.size() == tab.size(), k + "/size", (size_t)f.size() << " shape" << show(sh));
   std::vector<size_t> t(sh.size(), 0); size_t i = 0; double mn = 0, mx = 0, sm = 0;
   do { std::vector<typename F::LabelType> q(t.begin(), t.end()); q.push_back(0); const double v = (double)f(q.begin()), w = (double)f(&q[0]); 
      VF_CHECK((v == tab[i] || close(v, tab[i], tol, tol)) && w == v, k + "/value", v << "," << w << " expected " << tab[i] << " at " << show(t));
      if(i == 0 || v < mn) mn = v; if(i == 0 || v > mx) mx = v; sm += v; ++i; } while(nextTuple(t, sh));
   VF_EXPECT(close((double)f.min(), mn, tol, tol) && close((double)f.max(), mx, tol, tol) && close((double)f.sum(), sm, 1e-4, 1e-4), k + "/extrema", (double)f.min() << " " << (double)f.max() << " " << (double)f.sum());
   c.count("views compared: " + k);
}
inline std::vector<double> scaled(const std::vector<double>& t, double s) { std::vector<double> r(t); for(size_t i = 0; i < r.size(); ++i) r[i] *= s; return r; }
// restriction of a table to fixed labels
inline void restrictTable(const std::vector<size_t>& sh, const std::vector<double>& tab, const std::map<size_t, size_t>& fix, std::vector<size_t>& shOut, std::vector<double>& out) {
   shOut.clear(); out.clear(); for(size_t i = 0; i < sh.size(); ++i) if(!fix.count(i)) shOut.push_back(sh[i]);
   std::vector<size_t> t(sh.size(), 0); size_t k = 0;
   do { bool ok = true; for(std::map<size_t, size_t>::const_iterator i = fix.begin(); i != fix.end(); ++i) ok = ok && t[i->first] == i->second; if(ok) out.push_back(tab[k]); ++k; } while(nextTuple(t, sh));
}
template<class GM> marray::Marray<typename GM::ValueType>* offsetArray(Rng& r, const std::vector<size_t>& sh, std::vector<double>& tab, Style st) {
   typedef marray::Marray<typename GM::ValueType> M;
   M* m = sh.empty() ? new M((typename GM::ValueType)0) : new M(sh.begin(), sh.end(), 0, r.chance(0.5) ? marray::FirstMajorOrder : marray::LastMajorOrder);
   std::vector<size_t> t(sh.size(), 0); do { std::vector<size_t> q = t; q.push_back(0); const double v = drawValue(r, st); (*m)(q.begin()) = (typename GM::ValueType)v; tab.push_back(v); } while(nextTuple(t, sh));
   return m;
}

// views of all kinds on the factors of gm; returns a model made of views and its reference
template<class GM> void viewModel(Ctx& c, const GM& gm, const RefModel& ref, Op op, typename Views<GM>::Model& out, RefModel& refOut, std::vector<marray::Marray<typename GM::ValueType>*>& keep, Style st) {
   typedef Views<GM> V; typedef typename V::T T; typedef typename V::I I; typedef typename V::L L; Rng& r = c.rng;
   for(size_t i = 0; i < ref.f.size(); ++i) {
      const std::vector<size_t> sh = ref.shape(i); const std::vector<double>& tab = ref.f[i].tab;
      { typename V::View f(gm[i]); compare(c, f, sh, tab, "view"); typename V::View g; g = f; compare(c, g, sh, tab, "view-assigned");
        out.addFactor(out.addFunction(f), ref.f[i].vars.begin(), ref.f[i].vars.end()); refOut.f.push_back(ref.f[i]); }
      { const double s = r.range(-8, 8) / 4.0; typename V::Scaled f(gm, i, (T)s); RefFactor rf = ref.f[i]; rf.tab = scaled(tab, s); compare(c, f, sh, rf.tab, "scaled");
        out.addFactor(out.addFunction(f), rf.vars.begin(), rf.vars.end()); refOut.f.push_back(rf);
        typename V::Scaled n(std::vector<I>(sh.begin(), sh.end())); compare(c, n, sh, std::vector<double>(tab.size(), op == SUM ? 0.0 : 1.0), "scaled-neutral"); }
      { std::map<size_t, size_t> fix; const double p = r.unit(); for(size_t k = 0; k < sh.size(); ++k) if(r.chance(p)) fix[k] = r.below(sh[k]);
        typedef opengm::PositionAndLabel<I, L> PL; std::vector<PL> pl; for(std::map<size_t, size_t>::iterator k = fix.begin(); k != fix.end(); ++k) pl.push_back(PL(k->first, k->second));
        if(r.chance(0.3)) r.shuffle(pl);
        RefFactor rf; std::vector<size_t> sh2; restrictTable(sh, tab, fix, sh2, rf.tab); for(size_t k = 0; k < sh.size(); ++k) if(!fix.count(k)) rf.vars.push_back(ref.f[i].vars[k]);
        typename V::Fix f(gm[i], pl); compare(c, f, sh2, rf.tab, "fixed"); std::list<PL> li(pl.begin(), pl.end()); typename V::Fix g(gm[i], li); compare(c, g, sh2, rf.tab, "fixed-from-container");
        typename V::Fix h; h = g; compare(c, h, sh2, rf.tab, "fixed-assigned"); c.count("fixed positions", fix.size());
        out.addFactor(out.addFunction(f), rf.vars.begin(), rf.vars.end()); refOut.f.push_back(rf); }
      { const double s = r.range(-8, 8) / 4.0; std::vector<double> off; keep.push_back(offsetArray<GM>(r, sh, off, st)); 
        const int how = r.below(3); RefFactor rf = ref.f[i]; rf.tab = how == 1 ? off : scaled(tab, s); if(how == 2) for(size_t k = 0; k < off.size(); ++k) rf.tab[k] += off[k];
        typename V::ModelView f = how == 0 ? typename V::ModelView(gm, i, (T)s) : how == 1 ? typename V::ModelView(keep.back()) : typename V::ModelView(gm, i, (T)s, keep.back());
        compare(c, f, sh, rf.tab, how == 0 ? "model-view" : how == 1 ? "offset-view" : "model-view-with-offset");
        if(how && !off.empty()) { std::vector<size_t> q(sh.size() + 1, 0); const double v = drawValue(r, st); (*keep.back())(q.begin()) = (T)v; rf.tab[0] += v - off[0]; if(how == 1) rf.tab[0] = v; compare(c, f, sh, rf.tab, "offset-changed"); }
        out.addFactor(out.addFunction(f), rf.vars.begin(), rf.vars.end()); refOut.f.push_back(rf); }
      { std::vector<const typename GM::FactorType*> fs; RefFactor rf = ref.f[i]; rf.tab.assign(tab.size(), op == SUM ? 0.0 : 1.0);
        for(size_t j = 0; j < ref.f.size(); ++j) if(ref.f[j].vars == ref.f[i].vars && (j == i || r.chance(0.7))) { fs.push_back(&gm[j]); for(size_t k = 0; k < tab.size(); ++k) if(op == SUM) rf.tab[k] += ref.f[j].tab[k]; else rf.tab[k] *= ref.f[j].tab[k]; }
        typename V::Accumulated f(fs.begin(), fs.end()); compare(c, f, sh, rf.tab, "accumulated"); c.count("accumulated factors", fs.size());
        typename V::Accumulated g(gm[i]); compare(c, g, sh, tab, "accumulated-single");
        out.addFactor(out.addFunction(f), rf.vars.begin(), rf.vars.end()); refOut.f.push_back(rf); }
   }
}
template<class GM> void checkModel(Ctx& c, const GM& gm, const RefModel& ref, Op op, const std::string& k) {
   const double tol = tolOf(typename GM::ValueType());
   VF_CHECK(gm.numberOfFactors() == ref.f.size(), k + "/factors", gm.numberOfFactors());
   for(int n = 0; n < 8; ++n) { std::vector<size_t> l; for(size_t j = 0; j < ref.labels.size(); ++j) l.push_back(c.rng.below(ref.labels[j]));
      double scale = 1; for(size_t i = 0; i < ref.f.size(); ++i) scale += std::fabs(ref.at(i, l));
      bool inRange = true; if(op == PROD) { double pp = 1, mx = 1, mn = 1; for(size_t i = 0; i < ref.f.size(); ++i) { double v = std::fabs(ref.at(i, l)); if(v > 1) mx *= v; else if(v > 0) mn *= v; pp *= v; } inRange = mx < 1e25 && mn > 1e-25; }
      if(!inRange) c.count("model values out of the float range, not compared"); else
      VF_EXPECT(close((double)gm.evaluate(l.begin()), ref.eval(l, op), tol * 10, tol * (op == SUM ? scale * 10 : 1e-3)), k + "/model-value", (double)gm.evaluate(l.begin()) << " expected " << ref.eval(l, op));
      for(size_t i = 0; i < ref.f.size(); ++i) { std::vector<size_t> q; for(size_t j = 0; j < ref.f[i].vars.size(); ++j) q.push_back(l[ref.f[i].vars[j]]); q.push_back(0);
         VF_EXPECT(close((double)gm[i](q.begin()), ref.at(i, l), tol, tol), k + "/factor-value", i << " at " << show(q)); } }
}
template<class GM> void run(Ctx& c, const MixedModel& m, Op op, Style st) {
   c.desc << m.str(); m.ref.digest(c); typedef typename Views<GM>::Model VM;
   GM gm = buildMixed<GM>(c.rng, m); std::vector<marray::Marray<typename GM::ValueType>*> keep;
   struct Free { std::vector<marray::Marray<typename GM::ValueType>*>& k; ~Free() { for(size_t i = 0; i < k.size(); ++i) delete k[i]; } } fr = { keep };
   VM v1 = emptyGm<VM>(m.ref); RefModel r1; r1.labels = m.ref.labels; viewModel(c, gm, m.ref, op, v1, r1, keep, st); checkModel(c, v1, r1, op, "views");
   { VM cp(v1); checkModel(c, cp, r1, op, "views-copied"); }
   // views of views
   if(r1.f.size() && c.rng.chance(0.5)) { typedef typename Views<VM>::Model VM2; RefModel part; part.labels = r1.labels; 
      VM2 v2 = emptyGm<VM2>(m.ref); RefModel r2; r2.labels = m.ref.labels; viewModel(c, v1, r1, op, v2, r2, keep, st); checkModel(c, v2, r2, op, "views-of-views"); c.count("models of views of views"); }
   // the viewed model is unchanged
   std::string why; VF_EXPECT(sameModel(gm, m.ref, &why), "source-unchanged", why);
   c.count("models of views");
}
} // namespace
