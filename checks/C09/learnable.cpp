#include "common.hpp"
using namespace c09;
namespace {
template<class F, class W> void observe(Ctx& c, const F& f, const Spec& s, const W& w, const std::string& k) {
   typedef typename F::LabelType L; typedef typename F::ValueType T; const size_t nw = w.size();
   VF_CHECK(f.dimension() == s.shape.size() && (size_t)f.size() == prod(s.shape), k + "/dimension", (size_t)f.dimension() << " " << (size_t)f.size());
   for(size_t i = 0; i < s.shape.size(); ++i) VF_CHECK((size_t)f.shape(i) == s.shape[i], k + "/shape", i);
   std::vector<size_t> num; std::multiset<size_t> a, b(s.ids.begin(), s.ids.end()); for(size_t n = 0; n < f.numberOfWeights(); ++n) { num.push_back(f.weightIndex(n)); a.insert(num.back()); }
   VF_CHECK(a == b, k + "/weight-numbers", show(num) << " expected " << show(s.ids));
   std::vector<double> wv; for(size_t i = 0; i < nw; ++i) wv.push_back((double)w.getWeight(i));
   std::vector<size_t> t(s.shape.size(), 0); size_t i = 0;
   do { std::vector<L> q(t.begin(), t.end()); q.push_back(0); const double want = s.value(i, wv);
      VF_CHECK((double)f(q.begin()) == want && (double)f(&q[0]) == want, k + "/value", (double)f(q.begin()) << " expected " << want << " at " << show(t));
      for(size_t id = 0; id < nw; ++id) { double g = 0; for(size_t n = 0; n < num.size(); ++n) if(num[n] == id) g += f.weightGradient(n, q.begin()); VF_CHECK(g == s.gradient(i, id), k + "/gradient", g << " expected " << s.gradient(i, id) << " weight " << id << " at " << show(t)); }
      ++i; } while(nextTuple(t, s.shape));
   c.count("observations of " + k);
}
template<class GM> struct Add { GM& gm; Ctx& c; const Spec& s; const typename Types<typename GM::ValueType, typename GM::IndexType, typename GM::LabelType>::W& w; const std::vector<size_t>& vars;
   template<class F> void operator()(const F& f) { observe(c, f, s, w, "function"); F g(f), h; h = g; observe(c, h, s, w, "function-copied"); gm.addFactor(gm.addFunction(f), vars.begin(), vars.end()); } };
template<class W> struct Switch { Ctx& c; const Spec& s; const W &w, &o;
   template<class F> void operator()(F& f) { F g(f); g.setWeights(o); observe(c, g, s, o, "function-with-other-weights"); observe(c, f, s, w, "function-with-old-weights"); } };
template<class T, class I, class L> void run(Ctx& c) {
   typedef Types<T, I, L> Y; typedef typename Y::W W; Rng& r = c.rng;
   typedef typename opengm::meta::TypeListGenerator<typename Y::P, typename Y::U, typename Y::S, opengm::ExplicitFunction<T, I, L> >::type List; typedef opengm::GraphicalModel<T, opengm::Adder, List, opengm::DiscreteSpace<I, L> > GM;
   const bool big = r.chance(0.06); const size_t nw = big ? 7 + r.below(30) : 1 + r.below(6), nv = big ? 5 + r.below(4) : 1 + r.below(4); std::vector<size_t> labels; const bool same = r.chance(0.6); for(size_t i = 0; i < nv; ++i) labels.push_back(same && i && (!big || labels[0] <= 2) ? labels[0] : 1 + r.below(big ? i == 0 && r.chance(0.2) ? 9 : 2 : 4));
   W w(nw), other(nw); for(size_t i = 0; i < nw; ++i) { w.setWeight(i, (T)dy(r)); other.setWeight(i, (T)dy(r)); } VF_EXPECT(w.numberOfWeights() == nw && w.size() == nw, "weights/size", w.size());
   std::vector<L> lb(labels.begin(), labels.end()); GM gm(opengm::DiscreteSpace<I, L>(lb.begin(), lb.end())); std::vector<Spec> specs; std::vector<std::vector<size_t> > vars; c.desc << "labels" << show(labels) << " weights " << nw;
   const size_t n = 1 + r.below(big ? 3 : 5);
   for(size_t i = 0; i < n; ++i) { std::vector<size_t> v; const size_t d = 1 + r.below(std::min(nv, (size_t)(big && labels[0] <= 2 ? 5 : big ? 2 : 3))); std::vector<size_t> p(nv); for(size_t k = 0; k < nv; ++k) p[k] = k; r.shuffle(p); v.assign(p.begin(), p.begin() + d); std::sort(v.begin(), v.end());
      std::vector<size_t> sh; for(size_t k = 0; k < d; ++k) sh.push_back(labels[v[k]]); int kind = d == 1 ? 1 + r.below(3) : d == 2 && sh[0] == sh[1] && r.chance(0.6) ? 0 : 3;
      specs.push_back(randSpec(r, nw, kind, sh)); vars.push_back(v); c.desc << " " << specs.back().str() << "@" << show(v); c.digest(kind); c.digestV(sh); c.digestV(specs.back().ids); for(size_t k = 0; k < specs.back().tab.size(); ++k) for(size_t j = 0; j < specs.back().tab[k].size(); ++j) c.digestD(specs.back().tab[k][j]);
      Add<GM> a = {gm, c, specs.back(), w, v}; withFunction<T, I, L>(specs.back(), w, a); }
   GM copy(gm);
   for(int step = 0; step < 4; ++step) {
      if(step) { const size_t id = r.below(nw); if(r.chance(0.5)) w.setWeight(id, (T)dy(r)); else w[id] = (T)dy(r); c.count("weight changes"); }
      std::vector<double> wv; for(size_t i = 0; i < nw; ++i) wv.push_back((double)w.getWeight(i));
      std::vector<size_t> t(nv, 0); do { std::vector<L> q(t.begin(), t.end()); double sum = 0;
         for(size_t i = 0; i < n; ++i) { size_t idx = 0, st = 1; std::vector<L> p; for(size_t k = 0; k < vars[i].size(); ++k) { idx += st * t[vars[i][k]]; st *= specs[i].shape[k]; p.push_back(q[vars[i][k]]); } const double v = specs[i].value(idx, wv); sum += v;
            VF_CHECK((double)gm[i](p.begin()) == v && (double)copy[i](p.begin()) == v, "factor/value", (double)gm[i](p.begin()) << "," << (double)copy[i](p.begin()) << " expected " << v << " at " << show(t)); }
         VF_CHECK((double)gm.evaluate(q.begin()) == sum && (double)copy.evaluate(q.begin()) == sum, "model/value", (double)gm.evaluate(q.begin()) << " expected " << sum << " at " << show(t));
      } while(nextTuple(t, labels));
   }
   // weights of another vector apply to the function they are set for only
   { for(size_t i = 0; i < n; ++i) { Switch<W> sw = {c, specs[i], w, other}; withFunction<T, I, L>(specs[i], w, sw); } }
}
}
VF_SCENARIO(doubles, 500, 20000) { run<double, size_t, size_t>(c); }
VF_SCENARIO(floats, 250, 10000) { run<float, unsigned, unsigned char>(c); }
VF_SCENARIO(mixed_types, 250, 10000) { run<double, unsigned short, unsigned>(c); }
VF_SCENARIO(refused, 60, 600) {
   Rng& r = c.rng; typedef Types<double, size_t, size_t> Y; Y::W w(5); const size_t nl = 1 + r.below(4); c.digest(nl); c.desc << "labels " << nl;
   std::vector<opengm::functions::learnable::FeaturesAndIndices<double, size_t> > fi(nl); const size_t l = r.below(nl); fi[l].features.push_back(1); VF_MUST_THROW(Y::U(w, fi), "more-features-than-weights", l);
   fi[l].weightIds.push_back(2); fi[r.below(nl)].features.push_back(2); for(size_t k = 0; k < nl; ++k) if(fi[k].weightIds.size() < fi[k].features.size()) fi[k].weightIds.push_back(2); VF_MUST_THROW(Y::U(w, fi), "duplicate-weights", l);
   size_t sh[] = {nl + 1 + r.below(2), 2}; marray::Marray<size_t> ids(sh, sh + 2, 0); marray::Marray<double> f(sh + 1, sh + 2); VF_MUST_THROW(Y::U(w, nl, ids, f, r.chance(0.5)), "wrong-number-of-rows", sh[0]);
   sh[0] = nl; marray::Marray<size_t> ids2(sh, sh + 2, 0); size_t n = 3; marray::Marray<double> f3(&n, &n + 1); VF_MUST_THROW(Y::U(w, nl, ids2, f3, false), "wrong-number-of-features", n);
}
